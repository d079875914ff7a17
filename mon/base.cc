#include "base.h"
#include <cstdarg>
#include <fcntl.h>
#include <unistd.h>

str writePlain(const Problem &p, const char *kw) {
  str s = "p " + str(kw) + " " + std::to_string(p.n()) + " " + std::to_string(p.cls.size()) + "\n";
  for (int v = 1; v <= p.n(); v++) s += "d " + std::to_string(v) + " " + std::to_string(p.dom[v]) + "\n";
  for (auto &c : p.cls) {
    for (auto &l : c) { s += litStr(l); s += ' '; }
    s += "0\n";
  }
  return s;
}

bool writeFile(const str &path, const str &data) {
  int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
  if (fd < 0) return false;
  size_t off = 0;
  while (off < data.size()) {
    ssize_t k = write(fd, data.data() + off, data.size() - off);
    if (k <= 0) { close(fd); return false; }
    off += k;
  }
  close(fd);
  return true;
}

bool readFile(const str &path, str &data) {
  data.clear();
  int fd = open(path.c_str(), O_RDONLY | O_CLOEXEC);
  if (fd < 0) return false;
  static char buf[1 << 16];
  ssize_t k;
  while ((k = read(fd, buf, sizeof buf)) > 0) data.append(buf, k);
  close(fd);
  return k == 0;
}

str jsonEsc(const str &s) {
  str o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c == '\t') o += "\\t";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

str fmt(const char *f, ...) {
  va_list ap, ap2;
  va_start(ap, f);
  va_copy(ap2, ap);
  int n = vsnprintf(nullptr, 0, f, ap);
  va_end(ap);
  str s(n, 0);
  vsnprintf(&s[0], n + 1, f, ap2);
  va_end(ap2);
  return s;
}

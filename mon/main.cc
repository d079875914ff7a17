// mon: runs the campaign of one property (one shard of it) and writes the result as JSON.
#include "props.h"
#include <sys/stat.h>
#include <unistd.h>

PropFn propFor(const str &id) {
  static const std::map<str, PropFn> m = {
    {"C01", C01}, {"C02", C02}, {"C03", C03}, {"C04", C04}, {"C05", C05}, {"C06", C06}, {"C07", C07}, {"C08", C08}, {"C09", C09}, {"C10", C10},
    {"C11", C11}, {"C12", C12}, {"C13", C13}, {"C14", C14}, {"C15", C15}, {"C16", C16}, {"C17", C17}, {"C18", C18}, {"C19", C19}, {"C20", C20},
    {"C21", C21}, {"C22", C22}, {"C23", C23}, {"C24", C24}, {"C25", C25}, {"C26", C26}, {"C27", C27}, {"C28", C28}, {"C29", C29}, {"C30", C30}, {"C31", C31}, {"C32", C32}, {"C33", C33}, {"C34", C34}};
  auto i = m.find(id);
  return i == m.end() ? nullptr : i->second;
}

int main(int argc, char **argv) {
  Ctx c;
  str out;
  for (int i = 1; i + 1 < argc; i += 2) {
    str k = argv[i], v = argv[i + 1];
    if (k == "--prop") c.prop = v;
    else if (k == "--seed") c.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--cases") c.cases = atoll(v.c_str());
    else if (k == "--case") c.only = atoll(v.c_str());
    else if (k == "--shard") sscanf(v.c_str(), "%lld/%lld", &c.shard, &c.nshards);
    else if (k == "--bin") c.binDir = v;
    else if (k == "--work") c.work = v;
    else if (k == "--replays") c.replayRoot = v;
    else if (k == "--tier") c.tier = v;
    else if (k == "--out") out = v;
    else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 2; }
  }
  PropFn f = propFor(c.prop);
  if (!f || out.empty()) { fprintf(stderr, "usage\n"); return 2; }
  mkdir(c.work.c_str(), 0755);
  f(c);
  str j = "{\"evaluations\":" + std::to_string(c.evaluations) + ",\"counts\":{";
  bool first = true;
  for (auto &x : c.count) { if (!first) j += ","; first = false; j += jsonEsc(x.first) + ":" + std::to_string(x.second); }
  j += "},\"distinct\":[";
  first = true;
  for (u64 h : c.distinct) { if (!first) j += ","; first = false; j += fmt("\"%llx\"", (unsigned long long)h); }
  j += "],\"shapes\":[";
  first = true;
  for (u64 h : c.shapes) { if (!first) j += ","; first = false; j += fmt("\"%llx\"", (unsigned long long)h); }
  j += "],\"samples\":[";
  first = true;
  for (auto &s : c.samples) { if (!first) j += ","; first = false; j += jsonEsc(s); }
  j += "],\"violations\":[";
  first = true;
  for (auto &v : c.violations) { if (!first) j += ","; first = false; j += "{\"kind\":" + jsonEsc(v.kind) + ",\"detail\":" + jsonEsc(v.detail) + ",\"replay\":" + jsonEsc(v.replay) + "}"; }
  j += "]}\n";
  return writeFile(out, j) ? 0 : 3;
}

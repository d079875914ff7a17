// Linked into the fault-injection variants: the transfers the program makes on files it opened itself
// can be cut short, interrupted, or made to fail from a given byte on. Standard streams are left alone.
#include "fault.h"
#include <cerrno>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static MvlFault f;
static MvlFaultSeen *seen;
static int64_t n;

extern "C" void mvl_fault_start(const MvlFault *a, MvlFaultSeen *s) { f = *a; seen = s; n = 0; }

static bool ours(int fd) {
  struct stat st;
  return seen && fd > 2 && fstat(fd, &st) == 0 && S_ISREG(st.st_mode);
}
static bool interrupted() {
  if (f.eintr > 0 && ++n % f.eintr == 0) { seen->interrupted++; errno = EINTR; return true; }
  return false;
}
extern "C" ssize_t read(int fd, void *p, size_t k) {
  if (!ours(fd) || !k) return syscall(SYS_read, fd, p, k);
  seen->reads++;
  if (interrupted()) return -1;
  if (f.readFail >= 0) {
    if (seen->bytesRead >= f.readFail && !(f.times > 0 && seen->readFailed >= f.times)) { seen->readFailed++; errno = f.readErrno; return -1; }
    if (seen->bytesRead < f.readFail && (int64_t)k > f.readFail - seen->bytesRead) k = f.readFail - seen->bytesRead;
  }
  if (f.chunk > 0 && (int64_t)k > f.chunk) { k = f.chunk; seen->shortened++; }
  ssize_t r = syscall(SYS_read, fd, p, k);
  if (r > 0) seen->bytesRead += r;
  return r;
}
extern "C" ssize_t write(int fd, const void *p, size_t k) {
  if (!ours(fd) || !k) return syscall(SYS_write, fd, p, k);
  seen->writes++;
  if (interrupted()) return -1;
  if (f.writeFail >= 0) {
    if (seen->bytesWritten >= f.writeFail && !(f.times > 0 && seen->writeFailed >= f.times)) { seen->writeFailed++; errno = f.writeErrno; return -1; }
    if (seen->bytesWritten < f.writeFail && (int64_t)k > f.writeFail - seen->bytesWritten) k = f.writeFail - seen->bytesWritten;
  }
  if (f.chunk > 0 && (int64_t)k > f.chunk) { k = f.chunk; seen->shortened++; }
  ssize_t r = syscall(SYS_write, fd, p, k);
  if (r > 0) seen->bytesWritten += r;
  return r;
}
extern "C" ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!ours(fd)) return syscall(SYS_readv, fd, v, c);
  for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
extern "C" ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!ours(fd)) return syscall(SYS_writev, fd, v, c);
  for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}

// Linked with the repository's own objects (their main() renamed to mvl_main_c).
// Serves run requests on fd 198: every request is executed by a forked child, so each
// run starts from the pristine process image. The clock functions the program calls are
// replaced by a virtual clock that counts its reads: the count is a logical step counter
// (one per search iteration), and time limits can be exercised deterministically.
#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <iostream>
#include <malloc.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
#define SHIM_ASAN 1
#endif
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SHIM_ASAN 1
#endif
#endif

extern "C" int mvl_main_c(int, char **);
// present when linked with MSan (this file itself is compiled without it)
extern "C" void __msan_unpoison(const volatile void *, size_t) __attribute__((weak));

#include "fault.h"
#include "mem.h"

struct Shared {
  volatile int64_t reads;
  volatile int64_t limitHit;
  MvlFaultSeen seen;
  MvlMem mem;
};
struct Req {
  int64_t stepLimit, baseSec, baseUsec, stepUsec, jumpAt, jumpUsec, outAt;
  int32_t cpuSec, perturb, uid, memMB, nstr, ioUsec;
  MvlFault fault;
};
struct Resp {
  int64_t reads, cpuUsec, maxrssKB;
  int32_t status, limitHit;
  MvlFaultSeen seen;
  MvlMem mem;
};

static Shared *sh;
static Req rq;
static bool inChild = false;
// present in the fault-injection variants only
extern "C" void mvl_fault_start(const MvlFault *, MvlFaultSeen *) __attribute__((weak));
// present in the memory-tracking variants only
extern "C" void mvl_mem_sample(MvlMem *) __attribute__((weak));
int64_t mvl_look_now() { return sh && sh != MAP_FAILED ? sh->reads : 0; }

static int64_t virtualUsec() {
  int64_t n = ++sh->reads;
  if (mvl_mem_sample && n >= 6 && (n == 6 || (n & (n - 1)) == 0)) mvl_mem_sample(&sh->mem);
  if (rq.stepLimit > 0 && n > rq.stepLimit) {
    sh->limitHit = 1;
    fflush(stdout);
    _exit(99);
  }
  int64_t t = rq.baseUsec + n * rq.stepUsec;
  if (rq.jumpAt > 0 && n >= rq.jumpAt) t += rq.jumpUsec;
  t += sh->seen.reads * rq.ioUsec;
  // the jump comes when so many bytes have been printed, wherever the program looks at the clock
  if (rq.outAt > 0) {
    int e = errno;
    std::cout.flush();
    fflush(stdout);
    struct stat st;
    if (fstat(1, &st) == 0 && st.st_size >= rq.outAt) t += rq.jumpUsec;
    errno = e;
  }
  return t;
}

extern "C" int gettimeofday(struct timeval *tv, void *) noexcept {
  if (!inChild) {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
  }
  int64_t u = virtualUsec();
  if (tv) { tv->tv_sec = rq.baseSec + u / 1000000; tv->tv_usec = u % 1000000; }
  if (tv && __msan_unpoison) __msan_unpoison(tv, sizeof *tv);
  return 0;
}
extern "C" time_t time(time_t *t) noexcept {
  time_t r;
  if (!inChild) {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    r = ts.tv_sec;
  } else r = rq.baseSec + virtualUsec() / 1000000;
  if (t) *t = r;
  return r;
}
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
  if (!inChild || (id != CLOCK_REALTIME && id != CLOCK_MONOTONIC && id != CLOCK_MONOTONIC_RAW &&
                   id != CLOCK_REALTIME_COARSE && id != CLOCK_MONOTONIC_COARSE && id != CLOCK_BOOTTIME))
    return (int)syscall(SYS_clock_gettime, id, ts);
  int64_t u = virtualUsec();
  ts->tv_sec = rq.baseSec + u / 1000000;
  ts->tv_nsec = (u % 1000000) * 1000;
  if (__msan_unpoison) __msan_unpoison(ts, sizeof *ts);
  return 0;
}

static bool readAll(int fd, void *p, size_t n) {
  char *c = (char *)p;
  while (n) {
    ssize_t k = read(fd, c, n);
    if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; }
    c += k; n -= k;
  }
  return true;
}

static void redirect(const char *path, int flags, int to) {
  int fd = open(path, flags | O_CLOEXEC, 0644);
  if (fd < 0) _exit(97);
  dup2(fd, to);
}

int main() {
  const int S = 198;
  sh = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED) return 96;
  signal(SIGPIPE, SIG_IGN);
  std::vector<std::string> strs;
  for (;;) {
    if (!readAll(S, &rq, sizeof rq)) return 0;
    strs.clear();
    for (int i = 0; i < rq.nstr; i++) {
      int32_t len;
      if (!readAll(S, &len, 4)) return 0;
      std::string s(len, 0);
      if (len && !readAll(S, &s[0], len)) return 0;
      strs.push_back(s);
    }
    sh->reads = 0;
    sh->limitHit = 0;
    memset(&sh->seen, 0, sizeof sh->seen);
    sh->mem.n = 0;
    pid_t pid = fork();
    if (pid == 0) {
      close(S);
      // strs: cwd, stdin, stdout, stderr, argv...
      if (chdir(strs[0].c_str())) _exit(97);
      redirect(strs[1].c_str(), O_RDONLY, 0);
      redirect(strs[2].c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 1);
      redirect(strs[3].c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 2);
      struct rlimit rl;
      rl.rlim_cur = rq.cpuSec; rl.rlim_max = rq.cpuSec + 2; setrlimit(RLIMIT_CPU, &rl);
      rl.rlim_cur = rl.rlim_max = 128u << 20; setrlimit(RLIMIT_FSIZE, &rl);
      rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
#ifndef SHIM_ASAN
      if (rq.memMB > 0) { rl.rlim_cur = rl.rlim_max = (rlim_t)rq.memMB << 20; setrlimit(RLIMIT_AS, &rl); }
      if (rq.perturb >= 0) mallopt(M_PERTURB, rq.perturb);
#endif
      signal(SIGALRM, SIG_DFL);
      alarm(300);
      if (rq.uid >= 0) { if (setgid(rq.uid) || setuid(rq.uid)) _exit(97); }
      std::vector<char *> av;
      for (size_t i = 4; i < strs.size(); i++) av.push_back(&strs[i][0]);
      int ac = (int)av.size();
      av.push_back(nullptr);
      if (__msan_unpoison) {
        for (auto &x : strs) __msan_unpoison(x.c_str(), x.size() + 1);
        __msan_unpoison(av.data(), av.size() * sizeof av[0]);
      }
      inChild = true;
      if (mvl_fault_start) mvl_fault_start(&rq.fault, &sh->seen);
      int rc = mvl_main_c(ac, av.data());
      exit(rc);
    }
    Resp rs;
    memset(&rs, 0, sizeof rs);
    if (pid < 0) rs.status = -1;
    else {
      int st = 0;
      struct rusage ru;
      while (wait4(pid, &st, 0, &ru) < 0 && errno == EINTR) {}
      rs.status = st;
      rs.cpuUsec = (ru.ru_utime.tv_sec + ru.ru_stime.tv_sec) * 1000000LL + ru.ru_utime.tv_usec + ru.ru_stime.tv_usec;
      rs.maxrssKB = ru.ru_maxrss;
    }
    rs.reads = sh->reads;
    rs.limitHit = (int)sh->limitHit;
    rs.seen = sh->seen;
    rs.mem = sh->mem;
    if (write(S, &rs, sizeof rs) != (ssize_t)sizeof rs) return 0;
  }
}

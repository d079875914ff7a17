// Linked into the *_mem variants: every allocation is recorded, and at a clock look the heap
// is searched, starting from registers, stack, and static data, for blocks that no pointer
// reaches any more (a block counts as reached by any word that points into it or just past it).
#include "mem.h"
#include <algorithm>
#include <cerrno>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_memalign(size_t, size_t);
extern int64_t mvl_look_now();

namespace {
struct Blk { uintptr_t p; size_t n; int64_t born; };
const size_t CAP = 1u << 19;        // open addressing; pages are touched only where used
Blk *tab;                           // p == 0: never used, p == 1: removed
size_t used, filled, bytes;
int64_t allocs;
bool overflow;
const uintptr_t GONE = 1;

void init() {
  if (!tab) {
    tab = (Blk *)mmap(nullptr, CAP * sizeof(Blk), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (tab == MAP_FAILED) abort();
  }
}
size_t slotOf(uintptr_t p) { return (size_t)(((p >> 4) * 0x9E3779B97F4A7C15ULL) >> 45); }
void note(void *q, size_t n) {
  if (!q) return;
  init();
  allocs++;
  if (filled > CAP / 8 * 7) { overflow = true; return; }
  uintptr_t p = (uintptr_t)q;
  size_t i = slotOf(p), hole = CAP;
  while (tab[i].p && tab[i].p != p) { if (tab[i].p == GONE && hole == CAP) hole = i; i = (i + 1) & (CAP - 1); }
  if (tab[i].p == p) { bytes -= tab[i].n; used--; }
  else if (hole != CAP) i = hole;
  else filled++;
  tab[i] = Blk{p, n, mvl_look_now()};
  used++; bytes += n;
}
void drop(void *q) {
  if (!q) return;
  init();
  uintptr_t p = (uintptr_t)q;
  size_t i = slotOf(p);
  while (tab[i].p && tab[i].p != p) i = (i + 1) & (CAP - 1);
  if (tab[i].p == p) { tab[i].p = GONE; used--; bytes -= tab[i].n; }
}
}

extern "C" void *malloc(size_t n) { void *p = __libc_malloc(n); note(p, n); return p; }
extern "C" void free(void *p) { int e = errno; drop(p); __libc_free(p); errno = e; }
extern "C" void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); note(p, a * b); return p; }
extern "C" void *realloc(void *o, size_t n) {
  void *p = __libc_realloc(o, n);
  if (p || n == 0) { drop(o); note(p, n); }
  return p;
}
extern "C" void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); note(p, n); return p; }
extern "C" void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
extern "C" int posix_memalign(void **o, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }

namespace {
Blk *live; size_t nlive; uint8_t *mark; size_t *todo; size_t ntodo;
size_t mapSize;

void look(uintptr_t w) {
  size_t lo = 0, hi = nlive;                       // the last block that starts at or before w
  while (lo < hi) { size_t m = (lo + hi) / 2; if (live[m].p <= w) lo = m + 1; else hi = m; }
  if (!lo) return;
  if (w == live[lo - 1].p && lo > 1 && live[lo - 2].p + live[lo - 2].n == w && !mark[lo - 2]) { mark[lo - 2] = 1; todo[ntodo++] = lo - 2; }
  lo--;
  if (w > live[lo].p + live[lo].n || mark[lo]) return;
  mark[lo] = 1;
  todo[ntodo++] = lo;
}
__attribute__((no_sanitize("address"), noinline)) void scan(uintptr_t a, uintptr_t b) {
  a = (a + 7) & ~(uintptr_t)7;
  for (; a + 8 <= b; a += 8) look(*(volatile uintptr_t *)a);
}
// a mapping outside the heap, without the blocks malloc has put there
void scanRoot(uintptr_t a, uintptr_t b) {
  size_t lo = 0, hi = nlive;
  while (lo < hi) { size_t m = (lo + hi) / 2; if (live[m].p + live[m].n <= a) lo = m + 1; else hi = m; }
  for (; lo < nlive && live[lo].p < b; lo++) {
    if (a < live[lo].p) scan(a, live[lo].p);
    a = live[lo].p + live[lo].n;
  }
  if (a < b) scan(a, b);
}
template <class T> T *page(size_t n) {
  size_t z = (n * sizeof(T) + 4095) & ~(size_t)4095;
  T *p = (T *)mmap(nullptr, z ? z : 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  return p == MAP_FAILED ? nullptr : p;
}
}

__attribute__((noinline)) static bool sample(MvlMem *out, uintptr_t sp) {
  nlive = 0;
  size_t cnt = used;
  live = page<Blk>(cnt + 1); mark = page<uint8_t>(cnt + 1); todo = page<size_t>(cnt + 1);
  const size_t MAPS = 1 << 18;
  char *maps = page<char>(MAPS);
  bool good = live && mark && todo && maps && !overflow;
  if (good) {
    for (size_t i = 0; i < CAP && nlive < cnt; i++) if (tab[i].p > GONE) live[nlive++] = tab[i];
    std::sort(live, live + nlive, [](const Blk &x, const Blk &y) { return x.p < y.p; });
    ntodo = 0;
    int fd = open("/proc/self/maps", O_RDONLY | O_CLOEXEC);
    size_t len = 0;
    ssize_t k;
    while (fd >= 0 && len < MAPS - 1 && (k = read(fd, maps + len, MAPS - 1 - len)) > 0) len += (size_t)k;
    if (fd >= 0) close(fd);
    good = len > 0;
    uintptr_t mine[] = {(uintptr_t)tab, (uintptr_t)live, (uintptr_t)mark, (uintptr_t)todo, (uintptr_t)maps};
    size_t size[] = {CAP * sizeof(Blk), (cnt + 1) * sizeof(Blk), cnt + 1, (cnt + 1) * sizeof(size_t), MAPS};
    for (char *l = maps; l && *l;) {
      char *e = strchr(l, '\n');
      if (e) *e = 0;
      unsigned long a, b; char perm[8], path[256] = "";
      if (sscanf(l, "%lx-%lx %7s %*s %*s %*s %255s", &a, &b, perm, path) >= 3 && perm[0] == 'r' && perm[1] == 'w' && strcmp(path, "[heap]")) {
        if (sp >= a && sp < b) a = sp;
        // cut the mapping where it holds this file's own tables
        uintptr_t x = a;
        while (x < b) {
          uintptr_t stop = b, next = b;
          for (int j = 0; j < 5; j++) {
            uintptr_t m0 = mine[j], m1 = mine[j] + ((size[j] + 4095) & ~(size_t)4095);
            if (m1 <= x || m0 >= b) continue;
            if (m0 < stop) { stop = m0 > x ? m0 : x; next = m1; }
          }
          if (stop > x) scanRoot(x, stop);
          x = stop == b ? b : next;
        }
      }
      l = e ? e + 1 : nullptr;
    }
    while (ntodo) { size_t j = todo[--ntodo]; scan(live[j].p, live[j].p + live[j].n); }
    MvlMemSample &s = out->s[out->n];
    memset(&s, 0, sizeof s);
    s.look = mvl_look_now(); s.blocks = (int64_t)nlive; s.bytes = (int64_t)bytes; s.newest = -1;
    for (size_t i = 0; i < nlive; i++) if (!mark[i]) {
      s.lost++; s.lostBytes += (int64_t)live[i].n;
      if (live[i].born > s.newest) { s.newest = live[i].born; s.newestSize = (int64_t)live[i].n; }
    }
    if (good) { out->n++; out->allocs = allocs; }
  }
  auto un = [](void *p, size_t z) { if (p) munmap(p, ((z ? z : 1) + 4095) & ~(size_t)4095); };
  un(live, (cnt + 1) * sizeof(Blk)); un(mark, cnt + 1); un(todo, (cnt + 1) * sizeof(size_t)); un(maps, MAPS);
  return good;
}

extern "C" void mvl_mem_sample(MvlMem *out) {
  if (out->n >= MVL_MEM_SAMPLES) return;
  jmp_buf regs;                                     // the registers the callers keep their pointers in
  memset(&regs, 0, sizeof regs);
  __builtin_unwind_init();
  setjmp(regs);
  volatile uintptr_t here = 0;
  uintptr_t sp = (uintptr_t)&here;
  if ((uintptr_t)&regs < sp) sp = (uintptr_t)&regs;
  sample(out, sp);
}

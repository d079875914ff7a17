// What the memory-tracking variants record about the heap at chosen clock looks.
#pragma once
#include <cstdint>
enum { MVL_MEM_SAMPLES = 24 };
struct MvlMemSample {
  int64_t look;                     // which look at the clock
  int64_t blocks, bytes;            // allocated and not freed
  int64_t lost, lostBytes;          // of these, no pointer leads to them any more
  int64_t newest, newestSize;       // when the newest lost block was allocated (look), and its size
};
struct MvlMem {
  int64_t n, allocs;
  MvlMemSample s[MVL_MEM_SAMPLES];
};

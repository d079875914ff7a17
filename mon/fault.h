// What the fault-injection variants do to the program's file transfers, and what they did.
#pragma once
#include <cstdint>
struct MvlFault {
  int64_t readFail, writeFail;    // bytes transferred before every further transfer fails; -1: never
  int32_t readErrno, writeErrno;
  int32_t chunk;                  // at most so many bytes per transfer; 0: as asked
  int32_t times;                  // so many transfers fail, those after them succeed; 0: all fail
  int32_t eintr;                  // every eintr-th transfer is interrupted; 0: none
};
struct MvlFaultSeen {
  int64_t reads, writes, bytesRead, bytesWritten, shortened, interrupted, readFailed, writeFailed;
};

// Counts the work of the code under test: basic blocks executed, bytes copied
// or cleared, memory requested. The code is compiled with
// -fsanitize-coverage=trace-pc-guard and linked with --wrap.
#ifndef VERIF_WORK_H_
#define VERIF_WORK_H_

#include <stddef.h>
#include <stdint.h>

namespace work {
extern uint64_t blocks, bytes, allocations, allocated;

inline uint64_t Now() { return blocks + bytes / 16 + 40 * allocations + allocated / 64; }

template <typename F>
uint64_t Of(const F& f) {
  uint64_t before = Now();
  f();
  return Now() - before;
}
}  // namespace work

#endif

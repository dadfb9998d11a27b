#include "work.h"

#include <stdlib.h>
#include <string.h>

#include <new>

namespace work {
uint64_t blocks, bytes, allocations, allocated;
}

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
  for (; a < b; ++a) *a = 1;
}
void __sanitizer_cov_trace_pc_guard(uint32_t*) { ++work::blocks; }

void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { return work::bytes += n, __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { return work::bytes += n, __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { return work::bytes += n, __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { return work::bytes += n, __real_memcmp(a, b, n); }
}

void* operator new(size_t n) {
  ++work::allocations;
  work::allocated += n;
  void* p = malloc(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

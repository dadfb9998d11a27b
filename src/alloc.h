// Counts the memory in use by the process: replaces malloc and friends.
#ifndef VERIF_ALLOC_H_
#define VERIF_ALLOC_H_

#include <errno.h>
#include <malloc.h>
#include <stddef.h>
#include <stdint.h>

extern "C" {
void* __libc_malloc(size_t) noexcept;
void* __libc_calloc(size_t, size_t) noexcept;
void* __libc_realloc(void*, size_t) noexcept;
void* __libc_memalign(size_t, size_t) noexcept;
void __libc_free(void*) noexcept;
}

namespace alloc {

static size_t now, peak;
static uint64_t calls;

inline void* Add(void* p) {
  if (!p) return p;
  now += malloc_usable_size(p);
  ++calls;
  if (now > peak) peak = now;
  return p;
}
inline void Remove(void* p) {
  if (p) now -= malloc_usable_size(p);
}

// Peak of additional memory during a call of f.
template <typename F>
size_t Peak(const F& f) {
  size_t before = now;
  peak = now;
  f();
  return peak - before;
}

}  // namespace alloc

extern "C" {
void* malloc(size_t n) noexcept { return alloc::Add(__libc_malloc(n)); }
void* calloc(size_t a, size_t b) noexcept { return alloc::Add(__libc_calloc(a, b)); }
void* realloc(void* p, size_t n) noexcept {
  alloc::Remove(p);
  void* q = __libc_realloc(p, n);
  return alloc::Add(q ? q : n ? p : nullptr) && !q ? nullptr : q;
}
void* memalign(size_t a, size_t n) noexcept { return alloc::Add(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) noexcept { return alloc::Add(__libc_memalign(a, n)); }
int posix_memalign(void** p, size_t a, size_t n) noexcept {
  *p = alloc::Add(__libc_memalign(a, n));
  return *p ? 0 : ENOMEM;
}
void free(void* p) noexcept {
  alloc::Remove(p);
  __libc_free(p);
}
}

#endif

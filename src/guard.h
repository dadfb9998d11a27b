// Output buffers whose end is the end of a mapped page.
#ifndef VERIF_GUARD_H_
#define VERIF_GUARD_H_

#include <sys/mman.h>
#include <unistd.h>

#include "pbt.h"

namespace guard {

// Memory of `size` bytes followed (and preceded, up to alignment) by
// inaccessible pages; the bytes before it hold a pattern.
class Buffer {
 public:
  explicit Buffer(size_t size, uint8_t fill = 0xA5) : size_(size) {
    const size_t page = 4096;
    size_t body = (size + page - 1) / page * page;
    total_ = body + 2 * page;
    base_ = (uint8_t*)mmap(nullptr, total_, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base_ == MAP_FAILED) throw pbt::Failure{"harness", "mmap failed"};
    if (body) mprotect(base_ + page, body, PROT_READ | PROT_WRITE);
    lead_ = body - size;
    data_ = base_ + page + lead_;
    if (body) memset(base_ + page, fill, lead_ + std::min<size_t>(size, 1 << 16));
    fill_ = fill;
  }
  ~Buffer() { munmap(base_, total_); }
  Buffer(const Buffer&) = delete;
  uint8_t* data() { return data_; }
  size_t size() const { return size_; }
  // No byte before the buffer was changed.
  bool LeadIntact() const {
    for (size_t i = 0; i < lead_; ++i)
      if (data_[-(ptrdiff_t)(i + 1)] != fill_) return false;
    return true;
  }

 private:
  uint8_t *base_, *data_;
  size_t size_, total_, lead_;
  uint8_t fill_;
};

}  // namespace guard

#endif

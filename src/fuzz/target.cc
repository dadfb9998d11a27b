// Coverage-guided target for S01 (-DTARGET_JPEG) and S02. The same code, with
// -DFILES_MAIN, runs a list of files (MemorySanitizer, replay).
#include "../hostile.h"

#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include <iostream>
#include <string>
#include <vector>

static uint64_t Hash(const uint8_t* d, size_t n) {
  uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < n; ++i) h = (h ^ d[i]) * 1099511628211ull;
  return h ^ (h >> 29);
}

static void One(const uint8_t* d, size_t n) {
  uint64_t h = Hash(d, n);
#ifdef TARGET_JPEG
  if (hostile::ClaimedJpegBlocks(d, n) > 20000) return;
  hostile::AsJpeg(d, n, h);
#else
  if (hostile::ClaimedBlocks(d, n) > 20000) return;
  hostile::AsBrunsli(d, n, h);
#endif
}

#ifdef FILES_MAIN

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <brotli/decode.h>
#include <brotli/encode.h>
#include <sanitizer/msan_interface.h>
// Results of code that is not instrumented count as initialized.
extern "C" {
int __real_BrotliEncoderCompress(int, int, BrotliEncoderMode, size_t, const uint8_t*, size_t*, uint8_t*);
int __wrap_BrotliEncoderCompress(int q, int w, BrotliEncoderMode m, size_t n, const uint8_t* in, size_t* len, uint8_t* out) {
  // The input of the metadata compressor must be initialized.
  __msan_check_mem_is_initialized(in, n);
  int r = __real_BrotliEncoderCompress(q, w, m, n, in, len, out);
  __msan_unpoison(len, sizeof(*len));
  __msan_unpoison(out, *len);
  return r;
}
BrotliDecoderResult __real_BrotliDecoderDecompressStream(BrotliDecoderState*, size_t*, const uint8_t**, size_t*, uint8_t**, size_t*);
BrotliDecoderResult __wrap_BrotliDecoderDecompressStream(BrotliDecoderState* s, size_t* ai, const uint8_t** ni, size_t* ao,
                                                          uint8_t** no, size_t* total) {
  __msan_check_mem_is_initialized(*ni, *ai);
  uint8_t* out = no ? *no : nullptr;
  size_t room = ao ? *ao : 0;
  BrotliDecoderResult r = __real_BrotliDecoderDecompressStream(s, ai, ni, ao, no, total);
  __msan_unpoison(ai, sizeof(*ai));
  __msan_unpoison(ni, sizeof(*ni));
  if (ao) __msan_unpoison(ao, sizeof(*ao));
  if (no) __msan_unpoison(no, sizeof(*no));
  if (out) __msan_unpoison(out, room - *ao);
  if (total) __msan_unpoison(total, sizeof(*total));
  return r;
}
BrotliDecoderResult __real_BrotliDecoderDecompress(size_t, const uint8_t*, size_t*, uint8_t*);
BrotliDecoderResult __wrap_BrotliDecoderDecompress(size_t n, const uint8_t* in, size_t* len, uint8_t* out) {
  __msan_check_mem_is_initialized(in, n);
  BrotliDecoderResult r = __real_BrotliDecoderDecompress(n, in, len, out);
  __msan_unpoison(len, sizeof(*len));
  __msan_unpoison(out, *len);
  return r;
}
const uint8_t* __real_BrotliDecoderTakeOutput(BrotliDecoderState*, size_t*);
const uint8_t* __wrap_BrotliDecoderTakeOutput(BrotliDecoderState* s, size_t* n) {
  const uint8_t* r = __real_BrotliDecoderTakeOutput(s, n);
  __msan_unpoison(n, sizeof(*n));
  if (r) __msan_unpoison(r, *n);
  return r;
}
// Node headers of ordered containers are linked by the C++ runtime.
struct Node {
  long color;
  Node *parent, *left, *right;
};
void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, Node*, Node*, Node*);
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, Node* x, Node* p, Node* h) {
  __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, x, p, h);
  __msan_unpoison(x, sizeof(Node));
  __msan_unpoison(p, sizeof(Node));
  __msan_unpoison(h, sizeof(Node));
}
}
#endif
#endif

int main(int argc, char** argv) {
  // Log messages are formatted by code that is not instrumented.
  std::cerr.setstate(std::ios::badbit);
  // Names on the command line or, one per line, on the standard input.
  std::vector<std::string> names(argv + 1, argv + argc);
  if (names.empty()) {
    char line[4096];
    while (fgets(line, sizeof line, stdin)) {
      line[strcspn(line, "\n")] = 0;
      names.push_back(line);
    }
  }
  for (const std::string& n : names) {
    printf("%s\n", n.c_str());
    fflush(stdout);
    FILE* f = fopen(n.c_str(), "rb");
    if (!f) return 2;
    std::vector<uint8_t> b;
    static uint8_t buf[65536];
    size_t k;
    while ((k = fread(buf, 1, sizeof buf, f)) > 0) b.insert(b.end(), buf, buf + k);
    fclose(f);
    One(b.data(), b.size());
  }
  printf("finished\n");
  return 0;
}

#else

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
  One(d, n);
  return 0;
}

#ifndef TARGET_JPEG
extern "C" size_t LLVMFuzzerMutate(uint8_t* d, size_t n, size_t max);

// Mutates one section and keeps the framing consistent.
extern "C" size_t LLVMFuzzerCustomMutator(uint8_t* d, size_t n, size_t max, unsigned seed) {
  if (seed % 8 == 0 || n < 10 || max < n + 32) return LLVMFuzzerMutate(d, n, max);
  struct Sec {
    size_t begin, body, end;
  };
  std::vector<Sec> v;
  size_t p = 6;
  while (p < n) {
    Sec s;
    s.begin = p++;
    uint64_t len = 0;
    bool ok = false;
    for (int i = 0; i < 9 && p < n && !ok; ++i) {
      uint8_t x = d[p++];
      len |= (uint64_t)(x & 127) << (7 * i);
      ok = x < 128;
    }
    if (!ok || len > n - p) return LLVMFuzzerMutate(d, n, max);
    s.body = p;
    p += (size_t)len;
    s.end = p;
    v.push_back(s);
  }
  if (v.empty()) return LLVMFuzzerMutate(d, n, max);
  const Sec s = v[(seed / 8) % v.size()];
  uint8_t tag = d[s.begin];
  std::vector<uint8_t> body(d + s.body, d + s.end);
  std::vector<uint8_t> tail(d + s.end, d + n);
  size_t room = max - n - 16 + body.size();
  if (room > body.size() + 256) room = body.size() + 256;
  size_t len = body.size();
  body.resize(room < len ? len : room);
  len = LLVMFuzzerMutate(body.data(), len, body.size());
  // Entropy coded sections consist of 16-bit words.
  if ((tag == 0x3A || tag == 0x42) && (len & 1)) body[len++ < body.size() ? len - 1 : 0] = 0;
  if (len > body.size()) len = body.size();
  if ((tag == 0x3A || tag == 0x42) && (len & 1)) --len;
  p = s.begin + 1;
  size_t x = len;
  do {
    d[p++] = (uint8_t)((x & 127) | (x >= 128 ? 128 : 0));
    x >>= 7;
  } while (x);
  memcpy(d + p, body.data(), len);
  p += len;
  memcpy(d + p, tail.data(), tail.size());
  return p + tail.size();
}
#endif
#endif

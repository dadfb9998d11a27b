// One build of the codec, as seen by the check K01.
#ifndef VERIF_KINDS_API_H_
#define VERIF_KINDS_API_H_

#include <cstddef>
#include <cstdint>

namespace kinds {

// Consumes bytes.
typedef void (*Put)(void* to, const uint8_t* data, size_t n);

struct Api {
  const char* name;
  // Parses a JPEG and encodes it; returns 0, or what went wrong: 1000 plus the
  // error of the parser, or 2.
  int (*encode)(const uint8_t* d, size_t n, int version, void* to, Put put);
  bool (*bypass)(const uint8_t* d, size_t n, void* to, Put put);
  // Parses and serializes a JPEG.
  bool (*rewrite)(const uint8_t* d, size_t n, void* to, Put put);
  // Status of decoding, plus 100 when serialization fails.
  int (*decode)(const uint8_t* d, size_t n, void* to, Put put);
  // Final status with the input cut into pieces of `in`, the output of `out`.
  int (*stream)(const uint8_t* d, size_t n, size_t in, size_t out, void* to, Put put);
  // Through the C interface.
  int (*c_encode)(const uint8_t* d, size_t n, void* to, Put put);
  int (*c_decode)(const uint8_t* d, size_t n, void* to, Put put);
  size_t (*memory)(const uint8_t* d, size_t n);
};

}  // namespace kinds

#endif

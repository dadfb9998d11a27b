// Part of /verif, not of the released codec. While `wild.on`, the encoder makes
// random choices where the format leaves it a choice. Otherwise the encoder is
// the released one.
#ifndef VERIF_REF_WILD_H_
#define VERIF_REF_WILD_H_

#include <cstddef>
#include <cstdint>

namespace brunsli {

struct Wild {
  bool on = false;
  uint64_t state = 0;
  // Decided per stream.
  bool contexts = false, clusters = false, histograms = false, order = false, map = false, quant = false,
       huffman = false, ids = false, metadata = false, sizes = false, empty = false;

  uint64_t Next() {
    uint64_t z = (state += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint32_t Below(uint32_t n) { return static_cast<uint32_t>(Next() % n); }
  bool Chance(uint32_t a, uint32_t b) { return Below(b) < a; }
  void Start(uint64_t seed) {
    on = true;
    state = seed;
    bool* flags[] = {&contexts, &clusters, &histograms, &order, &map, &quant,
                     &huffman, &ids, &metadata, &sizes, &empty};
    uint32_t density = 1 + Below(4);
    for (bool* f : flags) *f = Chance(density, 4);
  }
  void Stop() {
    *this = Wild();
  }
};

extern thread_local Wild wild;

}  // namespace brunsli

#endif

// Writes N generated JPEG files and their Brunsli forms: gen SEED N DIR.
#include <stdio.h>
#include <stdlib.h>

#include "codec.h"

static void Put(const std::string& path, const pbt::Bytes& b) {
  FILE* f = fopen(path.c_str(), "wb");
  if (!f || fwrite(b.data(), 1, b.size(), f) != b.size() || fclose(f)) exit(1);
}

int main(int argc, char** argv) {
  if (argc != 4) return 2;
  uint64_t seed = strtoull(argv[1], nullptr, 10);
  int n = atoi(argv[2]);
  static uint32_t rec[1 << 20];
  for (int i = 0, k = 0; i < n; ++k) {
    pbt::Src s(pbt::Mix(seed * 1000003 + k), rec, 1 << 20);
    jg::Options o;
    o.max_blocks = 100;
    o.allow_large = false;
    jg::Jpeg j = jg::Generate(s, o);
    if (j.bytes.size() > 12000) continue;
    if (i % 50 == 5) {
      // One file is larger than usual buffers.
      pbt::Rng r(s.Seed());
      pbt::Bytes tail = jg::RandomBytes(r, 1100000, 0);
      j.bytes.insert(j.bytes.end(), tail.begin(), tail.end());
    }
    brunsli::JPEGData d;
    pbt::Bytes out;
    if (!codec::Read(j.bytes, &d) || !codec::Encode(d, &out)) codec::EncodeBypass(j.bytes, &out);
    std::string p = pbt::Fmt("%s/%d", argv[3], i++);
    Put(p + ".jpg", j.bytes);
    Put(p + ".j", out);
  }
  return 0;
}

// Whole-codec round trip: what the checks of single codes fall back to when
// the internal interfaces they drive are not there.
#ifndef VERIF_ENDTOEND_H_
#define VERIF_ENDTOEND_H_

#include "codec.h"

namespace codec {

inline void EndToEnd(Src& s, Case& c) {
  jg::Jpeg j = jg::Generate(s, jg::Options());
  c.Label("end-to-end");
  c.Attach("input.jpg", j.bytes);
  c.Sample(j.Describe());
  brunsli::JPEGData jpg;
  Bytes brn, out;
  if (!Read(j.bytes, &jpg) || !Encode(jpg, &brn)) return;
  c.NonTrivial();
  c.Key(pbt::Hash(j.bytes));
  bool written;
  brunsli::BrunsliStatus st = Decode(brn, &out, &written);
  c.Check(st == brunsli::BRUNSLI_OK && written && out == j.bytes, "not-lossless", "whole codec does not round-trip");
}

}  // namespace codec

#endif

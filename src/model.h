// Builds JPEGData models directly, independent of the JPEG parser.
#ifndef VERIF_MODEL_H_
#define VERIF_MODEL_H_

#include <algorithm>

#include "truth.h"

namespace model {

using pbt::Bytes;
using pbt::Case;
using pbt::Rng;
using pbt::Src;

// The generator's truth as a JPEGData (everything but reset points, extra zero
// runs and padding bits).
inline void FromTruth(const jg::Jpeg& j, brunsli::JPEGData* m) {
  m->width = j.width;
  m->height = j.height;
  m->max_h_samp_factor = j.hmax;
  m->max_v_samp_factor = j.vmax;
  m->MCU_rows = j.mcu_rows;
  m->MCU_cols = j.mcu_cols;
  m->restart_interval = j.restart_interval;
  m->app_data = j.app;
  m->com_data = j.com;
  m->inter_marker_data = j.raw;
  m->tail_data = j.tail;
  m->marker_order = j.markers;
  for (const auto& q : j.quants) {
    brunsli::JPEGQuantTable t;
    for (int k = 0; k < 64; ++k) t.values[k] = q.v[k];
    t.precision = q.precision;
    t.index = q.index;
    t.is_last = q.is_last;
    m->quant.push_back(t);
  }
  for (const auto& h : j.huffs) {
    brunsli::JPEGHuffmanCode t;
    int max = 1;
    for (int l = 1; l <= 16; ++l) {
      t.counts[l] = h.counts[l];
      if (h.counts[l]) max = l;
    }
    ++t.counts[max];
    for (size_t k = 0; k < h.vals.size(); ++k) t.values[k] = h.vals[k];
    t.values[h.vals.size()] = 256;
    t.slot_id = h.cls << 4 | h.id;
    t.is_last = h.is_last;
    m->huffman_code.push_back(t);
  }
  for (const auto& c : j.comps) {
    brunsli::JPEGComponent t;
    t.id = c.id;
    t.h_samp_factor = c.h;
    t.v_samp_factor = c.v;
    for (size_t i = 0; i < j.quants.size(); ++i)
      if (j.quants[i].index == c.tq) {
        t.quant_idx = (uint8_t)i;
        break;
      }
    t.width_in_blocks = c.bw;
    t.height_in_blocks = c.bh;
    t.num_blocks = c.bw * c.bh;
    t.coeffs.assign(c.coef.begin(), c.coef.end());
    m->components.push_back(t);
  }
  for (const auto& s : j.scans) {
    brunsli::JPEGScanInfo t;
    t.Ss = s.Ss;
    t.Se = s.Se;
    t.Ah = s.Ah;
    t.Al = s.Al;
    t.num_components = s.comps.size();
    for (size_t k = 0; k < s.comps.size(); ++k) {
      t.components[k].comp_idx = (uint8_t)s.comps[k].comp;
      t.components[k].dc_tbl_idx = s.comps[k].td;
      t.components[k].ac_tbl_idx = s.comps[k].ta;
    }
    m->scan_info.push_back(t);
  }
}

// Content a JPEG file could not have, but the format represents.
// Returns the largest |DC| used.
inline int Exaggerate(Src& s, Case& c, brunsli::JPEGData* m) {
  int dc_max = 1023;
  Rng r(s.Seed());
  if (s.Chance(1, 2)) {  // coefficients, including those of padding blocks
    c.Label("model:coefs");
    int ac_max = s.Chance(1, 4) ? 2054 : s.Chance(1, 2) ? 2047 : 1 + s.Below(60);
    if (s.Chance(1, 8)) dc_max = 2047;
    int dens = 1 + s.Below(64);
    int dcspan = s.Chance(1, 3) ? dc_max : 1 + s.Below(200);
    int skip = s.Below(4);
    for (auto& k : m->components) {
      for (size_t b = 0; b < k.coeffs.size(); b += 64) {
        if (skip && r.Chance(skip, 4)) continue;
        k.coeffs[b] = (int16_t)r.Range(-dcspan, dcspan);
        for (int i = 1; i < 64; ++i)
          k.coeffs[b + i] = (int)r.Below(64) < dens ? (int16_t)r.Range(-ac_max, ac_max) : 0;
      }
    }
  }
  if (s.Chance(1, 2)) {
    c.Label("model:scan-extras");
    for (auto& sc : m->scan_info) {
      int n = (int)s.Size(40);
      int pos = (int)r.Below(3) - 1;
      for (int i = 0; i < n; ++i) {
        pos += 1 + (int)(r.Next() % (1ull << r.Below(12)));
        sc.reset_points.push_back(pos);
      }
      n = (int)s.Size(40);
      pos = 0;
      for (int i = 0; i < n; ++i) {
        pos += (i == 0 ? 0 : 1) + (int)(r.Next() % (1ull << r.Below(12)));
        brunsli::JPEGScanInfo::ExtraZeroRunInfo z;
        z.block_idx = pos;
        z.num_extra_zero_runs = 1 + (int)r.Below(4);
        sc.extra_zero_runs.push_back(z);
      }
      if (s.Chance(1, 3)) {
        sc.Ss = r.Below(64);
        sc.Se = r.Below(64);
        sc.Ah = r.Below(16);
        sc.Al = r.Below(16);
      }
    }
  }
  if (s.Chance(1, 3)) {
    c.Label("model:padding");
    size_t n = 1 + s.Size(250);
    m->has_zero_padding_bit = true;
    int bias = s.Below(8);
    for (size_t i = 0; i < n; ++i) m->padding_bits.push_back((int)r.Below(8) < bias ? 0 : 1);
  }
  if (s.Chance(1, 3)) {  // arbitrary markers anywhere before the end marker
    c.Label("model:markers");
    int n = 1 + s.Below(20);
    for (int i = 0; i < n; ++i) {
      uint8_t mk;
      do {
        mk = (uint8_t)(0xC0 + r.Below(63));
      } while (mk == 0xC4 || mk == 0xD9 || mk == 0xDA || mk == 0xDD);
      m->marker_order.insert(m->marker_order.begin() + r.Below((uint32_t)m->marker_order.size()), mk);
    }
  }
  if (s.Chance(1, 4)) {  // bytes between markers
    c.Label("model:intermarker");
    int n = 1 + s.Below(4);
    for (int i = 0; i < n; ++i) {
      m->marker_order.insert(m->marker_order.begin() + r.Below((uint32_t)m->marker_order.size()), 0xFF);
      m->inter_marker_data.push_back(jg::RandomBytes(r, s.Size(400), s.Below(4)));
    }
  }
  if (s.Chance(1, 3)) {
    c.Label("model:quant");
    for (auto& q : m->quant) {
      int mode = s.Below(5);
      if (mode == 0) continue;
      bool wide = mode == 4;
      if (wide) q.precision = 1;
      int hi = wide ? 32767 : 255;
      for (auto& v : q.values)
        if (mode != 1 || r.Chance(1, 16)) v = r.Range(1, hi);
      if (mode == 2) std::fill(q.values.begin(), q.values.end(), r.Range(1, 255));
    }
  }
  if (s.Chance(1, 4)) {
    for (auto& k : m->components) k.quant_idx = (uint8_t)r.Below((uint32_t)m->quant.size());
    for (auto& q : m->quant) q.index = r.Below(4);
  }
  m->version = s.Chance(1, 3) ? 0 : 2;
  c.Label(m->version ? "context-model:new" : "context-model:legacy");
  return dc_max;
}

}  // namespace model

#endif

// Compares a parsed JPEGData with the generator's ground truth.
#ifndef VERIF_TRUTH_H_
#define VERIF_TRUTH_H_

#include "codec.h"

namespace truth {

using pbt::Fmt;

inline std::string Geometry(const brunsli::JPEGData& a, const jg::Jpeg& j) {
  if (a.width != j.width || a.height != j.height)
    return Fmt("size %dx%d, file says %dx%d", a.width, a.height, j.width, j.height);
  if (a.max_h_samp_factor != j.hmax || a.max_v_samp_factor != j.vmax) return "max sampling";
  if (a.MCU_cols != j.mcu_cols || a.MCU_rows != j.mcu_rows)
    return Fmt("MCU %dx%d, truth %dx%d", a.MCU_cols, a.MCU_rows, j.mcu_cols, j.mcu_rows);
  if (a.components.size() != j.comps.size()) return "component count";
  for (size_t i = 0; i < j.comps.size(); ++i) {
    const auto& x = a.components[i];
    const auto& y = j.comps[i];
    if (x.id != y.id) return Fmt("component %zu id", i);
    if (x.h_samp_factor != y.h || x.v_samp_factor != y.v) return Fmt("component %zu sampling", i);
    if ((int)x.width_in_blocks != y.bw || (int)x.height_in_blocks != y.bh ||
        (size_t)x.num_blocks != (size_t)y.bw * y.bh)
      return Fmt("component %zu block geometry", i);
  }
  return "";
}

inline std::string Quants(const brunsli::JPEGData& a, const jg::Jpeg& j) {
  if (a.quant.size() != j.quants.size()) return "number of quantization tables";
  for (size_t i = 0; i < j.quants.size(); ++i) {
    const auto& x = a.quant[i];
    const auto& y = j.quants[i];
    if (x.index != y.index) return Fmt("quant %zu index", i);
    if (x.precision != y.precision) return Fmt("quant %zu precision", i);
    if (x.is_last != y.is_last) return Fmt("quant %zu segment grouping", i);
    for (int k = 0; k < 64; ++k)
      if (x.values[k] != y.v[k]) return Fmt("quant %zu value %d: %d vs %d", i, k, x.values[k], y.v[k]);
  }
  return "";
}

inline std::string Huffs(const brunsli::JPEGData& a, const jg::Jpeg& j) {
  if (a.huffman_code.size() != j.huffs.size()) return "number of Huffman tables";
  for (size_t i = 0; i < j.huffs.size(); ++i) {
    const auto& x = a.huffman_code[i];
    const auto& y = j.huffs[i];
    if (x.slot_id != (y.cls << 4 | y.id)) return Fmt("huff %zu slot", i);
    if (x.is_last != y.is_last) return Fmt("huff %zu segment grouping", i);
    // One extra code of maximal length (value 256) stands for the reserved
    // all-ones code.
    int max = 16;
    while (max > 1 && y.counts[max] == 0) --max;
    size_t n = y.vals.size();
    for (int l = 1; l <= 16; ++l)
      if (x.counts[l] != y.counts[l] + (l == max ? 1 : 0)) return Fmt("huff %zu counts", i);
    for (size_t k = 0; k < n; ++k)
      if (x.values[k] != y.vals[k]) return Fmt("huff %zu value %zu", i, k);
    if (x.values[n] != 256) return Fmt("huff %zu sentinel", i);
  }
  return "";
}

inline std::string Scans(const brunsli::JPEGData& a, const jg::Jpeg& j) {
  if (a.scan_info.size() != j.scans.size()) return "number of scans";
  for (size_t i = 0; i < j.scans.size(); ++i) {
    const auto& x = a.scan_info[i];
    const auto& y = j.scans[i];
    if (x.Ss != y.Ss || x.Se != y.Se || x.Ah != y.Ah || x.Al != y.Al) return Fmt("scan %zu band", i);
    if (x.num_components != y.comps.size()) return Fmt("scan %zu component count", i);
    for (size_t k = 0; k < y.comps.size(); ++k) {
      if (x.components[k].comp_idx != y.comps[k].comp) return Fmt("scan %zu component %zu", i, k);
      if (x.components[k].dc_tbl_idx != y.comps[k].td || x.components[k].ac_tbl_idx != y.comps[k].ta)
        return Fmt("scan %zu table selectors %zu", i, k);
    }
  }
  return "";
}

inline std::string Coefs(const brunsli::JPEGData& a, const jg::Jpeg& j) {
  for (size_t i = 0; i < j.comps.size(); ++i) {
    const auto& x = a.components[i].coeffs;
    const auto& y = j.comps[i].coef;
    if (x.size() != y.size()) return Fmt("component %zu coefficient count", i);
    for (size_t k = 0; k < y.size(); ++k)
      if (x[k] != y[k])
        return Fmt("component %zu block %zu coefficient %zu: %d, truth %d", i, k / 64, k % 64, x[k], y[k]);
  }
  return "";
}

inline std::string QuantRefs(const brunsli::JPEGData& a, const jg::Jpeg& j) {
  for (size_t i = 0; i < j.comps.size(); ++i) {
    size_t q = a.components[i].quant_idx;
    if (q >= a.quant.size() || a.quant[q].index != j.comps[i].tq)
      return Fmt("component %zu quantization table reference", i);
  }
  return "";
}

inline std::string Meta(const brunsli::JPEGData& a, const jg::Jpeg& j) {
  if (a.app_data != j.app) return "application segments";
  if (a.com_data != j.com) return "comments";
  if (a.inter_marker_data != j.raw) return "bytes between markers";
  if (a.tail_data != j.tail) return "tail";
  if (a.marker_order != j.markers) return "marker order";
  return "";
}

// Everything a decoded / parsed model shares with the file.
inline std::string All(const brunsli::JPEGData& a, const jg::Jpeg& j) {
  std::string e;
  if (!(e = Geometry(a, j)).empty()) return e;
  if (!(e = Quants(a, j)).empty()) return e;
  if (!(e = Huffs(a, j)).empty()) return e;
  if (!(e = Scans(a, j)).empty()) return e;
  if (!(e = QuantRefs(a, j)).empty()) return e;
  if (!(e = Meta(a, j)).empty()) return e;
  if (a.restart_interval != j.restart_interval) return "restart interval";
  return Coefs(a, j);
}

// Model equality (a = decoded / second parse, b = encoded / first parse).
inline std::string Same(const brunsli::JPEGData& a, const brunsli::JPEGData& b) {
  if (a.width != b.width || a.height != b.height) return "size";
  if (a.version != b.version) return Fmt("version %d vs %d", a.version, b.version);
  if (a.max_h_samp_factor != b.max_h_samp_factor || a.max_v_samp_factor != b.max_v_samp_factor)
    return "max sampling";
  if (a.MCU_rows != b.MCU_rows || a.MCU_cols != b.MCU_cols) return "MCU geometry";
  if (a.restart_interval != b.restart_interval) return "restart interval";
  if (a.app_data != b.app_data) return "application segments";
  if (a.com_data != b.com_data) return "comments";
  if (a.inter_marker_data != b.inter_marker_data) return "bytes between markers";
  if (a.tail_data != b.tail_data) return "tail";
  if (a.marker_order != b.marker_order) return "marker order";
  if (a.quant.size() != b.quant.size()) return "number of quantization tables";
  for (size_t i = 0; i < b.quant.size(); ++i)
    if (a.quant[i].values != b.quant[i].values || a.quant[i].precision != b.quant[i].precision ||
        a.quant[i].index != b.quant[i].index || a.quant[i].is_last != b.quant[i].is_last)
      return Fmt("quantization table %zu", i);
  if (a.huffman_code.size() != b.huffman_code.size()) return "number of Huffman tables";
  for (size_t i = 0; i < b.huffman_code.size(); ++i) {
    const auto &x = a.huffman_code[i], &y = b.huffman_code[i];
    if (x.counts != y.counts || x.slot_id != y.slot_id || x.is_last != y.is_last)
      return Fmt("Huffman table %zu", i);
    int n = 0;
    for (int v : y.counts) n += v;
    for (int k = 0; k < n; ++k)
      if (x.values[k] != y.values[k]) return Fmt("Huffman table %zu value %d", i, k);
  }
  if (a.components.size() != b.components.size()) return "component count";
  for (size_t i = 0; i < b.components.size(); ++i) {
    const auto &x = a.components[i], &y = b.components[i];
    if (x.id != y.id || x.h_samp_factor != y.h_samp_factor || x.v_samp_factor != y.v_samp_factor ||
        x.quant_idx != y.quant_idx || x.width_in_blocks != y.width_in_blocks ||
        x.height_in_blocks != y.height_in_blocks || x.num_blocks != y.num_blocks)
      return Fmt("component %zu layout", i);
    if (x.coeffs.size() != y.coeffs.size()) return Fmt("component %zu coefficient count", i);
    for (size_t k = 0; k < y.coeffs.size(); ++k)
      if (x.coeffs[k] != y.coeffs[k])
        return Fmt("component %zu block %zu coefficient %zu: %d vs %d", i, k / 64, k % 64,
                   x.coeffs[k], y.coeffs[k]);
  }
  if (a.scan_info.size() != b.scan_info.size()) return "number of scans";
  for (size_t i = 0; i < b.scan_info.size(); ++i) {
    const auto &x = a.scan_info[i], &y = b.scan_info[i];
    if (x.Ss != y.Ss || x.Se != y.Se || x.Ah != y.Ah || x.Al != y.Al ||
        x.num_components != y.num_components || x.reset_points != y.reset_points)
      return Fmt("scan %zu", i);
    for (size_t k = 0; k < y.num_components; ++k)
      if (x.components[k].comp_idx != y.components[k].comp_idx ||
          x.components[k].dc_tbl_idx != y.components[k].dc_tbl_idx ||
          x.components[k].ac_tbl_idx != y.components[k].ac_tbl_idx)
        return Fmt("scan %zu component %zu", i, k);
    // Zero runs may be grouped differently; compare as a multiset of positions.
    std::vector<std::pair<int, int>> zx, zy;
    auto add = [](std::vector<std::pair<int, int>>* z, int b, int n) {
      if (n == 0) return;
      if (!z->empty() && z->back().first == b) z->back().second += n;
      else z->push_back({b, n});
    };
    for (auto& r : x.extra_zero_runs) add(&zx, r.block_idx, r.num_extra_zero_runs);
    for (auto& r : y.extra_zero_runs) add(&zy, r.block_idx, r.num_extra_zero_runs);
    if (zx != zy) return Fmt("scan %zu extra zero runs", i);
  }
  size_t pa = a.has_zero_padding_bit ? a.padding_bits.size() : 0;
  size_t pb = b.has_zero_padding_bit ? b.padding_bits.size() : 0;
  if (pa != pb) return "padding bit count";
  for (size_t i = 0; i < pa; ++i)
    if (a.padding_bits[i] != b.padding_bits[i]) return "padding bits";
  return "";
}

}  // namespace truth

#endif

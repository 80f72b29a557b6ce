// Dataset generators shared by the harnesses.
#ifndef VERIF_GEN_H
#define VERIF_GEN_H
#include "h.h"
#include <cfloat>
namespace hv {
struct DOpt {
  int rows = 10, maxfeat = 8; uint32_t dim = 30; int classes = 2; bool pm1 = true;
  double empty = 0.1; int vals = 0; int labels = 0; bool zeroidx = false;
};
inline float gen_val(Rng& r, int mode) {
  switch (mode) {
    case 0: { float v; do v = float(r.gauss()); while (v == 0); return v; }
    case 1: return float(r.range(1, 9)) * (r.chance(0.5) ? 1 : -1);
    case 2: return 1.f;
    case 3: {  // magnitudes over the whole single-precision range
      float v = float(r.uni(1, 10) * std::pow(10.0, r.range(-37, 37))); return r.chance(0.5) ? v : -v; }
    case 4: { static const float sp[] = {FLT_MAX, -FLT_MAX, FLT_MIN, FLT_MIN / 2, FLT_MIN / 1048576, 1.4e-45f, FLT_EPSILON, 1e-6f, 123456.f, 1234567.f,
                16777216.f, 0.1f, 1.f / 3, 999999.5f, 99999.95f, -1e-38f, 3e38f, 1e10f, -0.5f};
      return sp[r.below(sizeof sp / sizeof *sp)]; }
    default: return float(r.uni(-1, 1)) + 0.0001f;
  }
}
inline uint32_t gen_idx(Rng& r, uint32_t dim) {
  if (r.chance(0.15)) {  // around the 7-bit boundaries of the binary coding
    uint64_t b = 1ull << (7 * r.range(1, 4)); long long v = (long long)b + r.range(-2, 2);
    if (v >= 1 && v <= (long long)dim) return uint32_t(v);
  }
  return uint32_t(1 + r.below(dim));
}
inline int gen_label(Rng& r, const DOpt& o) {
  if (o.labels == 1) { static const int sp[] = {2147483647, -2147483647 - 1, 0, -1, 1, 2147483646, -5, 1000000, 10}; return sp[r.below(9)]; }
  if (o.labels == 2) return r.range(-3, 5);
  if (o.classes > 2) return r.range(0, o.classes - 1);
  return o.pm1 ? (r.chance(0.5) ? 1 : -1) : r.range(0, 1);
}
inline Data gen_data(Rng& r, const DOpt& o) {
  Data d;
  for (int i = 0; i < o.rows; ++i) {
    Ex e; e.label = gen_label(r, o);
    int n = r.chance(o.empty) ? 0 : r.range(1, std::max(1, o.maxfeat));
    std::set<uint32_t> ix; for (int k = 0; k < n; ++k) ix.insert(gen_idx(r, o.dim));
    if (o.zeroidx && r.chance(0.1)) ix.insert(0);
    for (uint32_t j : ix) { int m = o.vals == 9 ? r.range(0, 4) : o.vals; e.f.push_back(std::make_pair(j, gen_val(r, m))); }
    d.push_back(e);
  }
  return d;
}
}  // namespace hv
#endif

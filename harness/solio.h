// Reading and writing datasets through the library under test.
#ifndef VERIF_SOLIO_H
#define VERIF_SOLIO_H
#include "gen.h"
#include <memory>
#include "sol/pario/data_reader.h"
#include "sol/pario/data_writer.h"
namespace hv {
inline void to_dp(const Ex& e, sol::pario::DataPoint& dp) {
  dp.Clear(); dp.set_label(e.label); for (auto& p : e.f) dp.AddNewFeat(p.first, p.second);
}
inline Ex from_dp(const sol::pario::DataPoint& dp) {
  Ex e; e.label = dp.label(); for (size_t i = 0; i < dp.size(); ++i) e.f.push_back(std::make_pair(uint32_t(dp.index(i)), float(dp.feature(i)))); return e;
}
inline int lib_write(const S& path, const S& type, const Data& d) {
  std::unique_ptr<sol::pario::DataWriter> w(sol::pario::DataWriter::Create(type)); if (!w) return -1;
  int ret = w->Open(path); if (ret) return ret;
  sol::index_t dim = 0; for (auto& e : d) for (auto& p : e.f) dim = std::max<uint32_t>(dim, p.first + 1);
  if (dim == 0) dim = 1;
  ret = w->SetExtraInfo((const char*)&dim); if (ret) return ret;
  for (auto& e : d) { sol::pario::DataPoint dp; to_dp(e, dp); ret = w->Write(dp); if (ret) return ret; }
  return w->Close();
}
// reads to the end; returns the last status, delivered examples in out
inline int lib_read(sol::pario::DataReader& rd, Data& out, size_t limit = 1000000) {
  sol::pario::DataPoint dp; int st = 0;
  while (out.size() < limit && (st = rd.Next(dp)) == 0) out.push_back(from_dp(dp));
  return st;
}
inline int lib_read_file(const S& path, const S& type, Data& out) {
  std::unique_ptr<sol::pario::DataReader> rd(sol::pario::DataReader::Create(type)); if (!rd) return -1;
  int st = rd->Open(path); if (st) return st;
  return lib_read(*rd, out);
}
enum { kEOF = 3 };
// six significant digits
inline bool close6(float a, float b) {
  if (a == b) return true; if (std::isnan(a) || std::isnan(b)) return false;
  double x = a, y = b; return std::fabs(x - y) <= 1.1e-5 * std::max(std::fabs(x), std::fabs(y)) + 3e-45;
}
inline Data drop_zeros(const Data& d) { Data o = d; for (auto& e : o) { std::vector<std::pair<uint32_t, float>> f; for (auto& p : e.f) if (p.second != 0) f.push_back(p); e.f = f; } return o; }
inline Data sorted_feats(const Data& d) { Data o = d; for (auto& e : o) std::stable_sort(e.f.begin(), e.f.end(), [](const std::pair<uint32_t,float>& a, const std::pair<uint32_t,float>& b) { return a.first < b.first; }); return o; }
// empty string if equal, otherwise a description of the difference
inline S diff_data(const Data& want, const Data& got, bool exact) {
  if (want.size() != got.size()) return fmt("expected %zu examples, got %zu", want.size(), got.size());
  for (size_t i = 0; i < want.size(); ++i) {
    bool ok = want[i].label == got[i].label && want[i].f.size() == got[i].f.size();
    for (size_t k = 0; ok && k < want[i].f.size(); ++k)
      ok = want[i].f[k].first == got[i].f[k].first && (exact ? memcmp(&want[i].f[k].second, &got[i].f[k].second, 4) == 0 : close6(want[i].f[k].second, got[i].f[k].second));
    if (!ok) return fmt("example %zu: expected <%s> got <%s>", i, show(want[i]).c_str(), show(got[i]).c_str());
  }
  return "";
}
}  // namespace hv
#endif

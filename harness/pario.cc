// Monitors for the file readers/writers, conversion, index coding and number parsing.
#include "solio.h"
#include "sol/pario/compress.h"
#include "sol/c_api.h"
using namespace hv;
using sol::pario::DataReader;
typedef std::unique_ptr<DataReader> RP;
static const char* TYPES[3] = {"svm", "bin", "csv"};

static Data random_set(Rng& r, bool csv, S& desc) {
  DOpt o; o.rows = r.chance(0.1) ? r.range(0, 2) : r.chance(0.1) ? r.range(200, 700) : r.range(1, 25);
  o.maxfeat = r.chance(0.1) ? (o.rows > 100 ? 40 : 900) : r.range(1, 14);
  static const uint32_t dims[] = {1, 5, 40, 300, 20000, 3000000, 300000000u, 4294967294u};
  o.dim = dims[r.below(csv ? 4 : 8)];
  if (csv) o.maxfeat = std::min(o.maxfeat, 300);
  if (r.chance(0.006)) { int k = r.below(3); if (k == 0) { o.rows = r.range(1000, 12000); o.maxfeat = r.range(1, 4); if (csv) o.dim = r.range(1, 10); } else { o.rows = r.range(1, 4); o.maxfeat = r.range(1000, k == 1 ? 8000 : csv ? 20000 : 70000); o.dim = csv ? o.maxfeat + 10 : o.maxfeat * 3u + r.below(1000000); } count(k == 0 ? "large.rows" : "large.features"); }
  o.vals = r.chance(0.3) ? 9 : r.range(0, 5); o.labels = r.below(3); o.classes = r.range(2, 6); o.empty = r.chance(0.2) ? 0.5 : 0.1;
  o.zeroidx = !csv && r.chance(0.2);
  desc = fmt("rows=%d dim=%u maxfeat=%d vals=%d labels=%d", o.rows, o.dim, o.maxfeat, o.vals, o.labels);
  Data d = gen_data(r, o);
  if (!csv && r.chance(0.02)) {  // a long row of neighbouring indexes around a power of two
    Ex e; e.label = gen_label(r, o); int n = (1 << r.range(5, 13)) * r.range(1, 5) + r.range(-2, 2); uint32_t step = 1 + r.below(3); for (int k = 0; k < n; ++k) e.f.push_back(std::make_pair(1 + k * step, gen_val(r, o.vals == 9 ? 0 : o.vals)));
    d.insert(d.begin() + r.below(d.size() + 1), e); count("boundary_rows"); desc += fmt(" +row of %d", n);
  }
  if (!csv && r.chance(0.08)) { count("explicit_zeros"); for (auto& e : d) for (auto& p : e.f) if (r.chance(0.2)) p.second = 0; }
  return d;
}
// another order of the same features: any permutation, or one that is almost ascending
template <class F> void scramble(Rng& r, F& f) {
  size_t n = f.size(); if (n < 2) return; int m = r.below(5);
  if (m <= 1) { for (size_t k = n; k > 1; --k) std::swap(f[k - 1], f[r.below(k)]); return; }
  count("almost_sorted");
  if (m == 2) { size_t k = 1 + r.below(n - 1); std::swap(f[k], f[k - 1]); }
  else if (m == 3) { for (int q = r.range(1, 3); q > 0; --q) std::swap(f[r.below(n)], f[r.below(n)]); }
  else { size_t k = 1 + r.below(n - 1); std::rotate(f.begin(), f.begin() + k, f.end()); }
}
static void reading_checks(Rng& r, const S& path, const S& type, const Data& want, bool exact, const S& what) {
  RP rd(DataReader::Create(type));
  if (!rd) { viol("c01.noreader", type); return; }
  int st = rd->Open(path);
  if (st != 0) { viol("c01.open." + type, what + fmt(" open status %d", st)); return; }
  // partial read, rewind, full read, rewind at the end, full read again
  if (r.chance(0.5)) { Data part; lib_read(*rd, part, r.below(want.size() + 1)); rd->Rewind(); count("rewinds"); }
  int passes = r.chance(0.3) ? 2 : 1;
  for (int p = 0; p < passes; ++p) {
    Data got; st = lib_read(*rd, got, want.size() + 5);
    count("examples_checked", got.size());
    if (st != kEOF) { viol("c01.endstatus." + type, what + fmt(" pass %d final status %d", p, st)); return; }
    S d = diff_data(want, got, exact);
    if (!d.empty()) { viol("c01.read." + type + (p ? ".pass2" : ""), what + " " + d); return; }
    rd->Rewind();
  }
  if (r.chance(0.3)) {  // the same reader object opened again
    Data got; if (rd->Open(path) != 0 || lib_read(*rd, got, want.size() + 5) != kEOF || !diff_data(want, got, exact).empty())
      viol("c01.reopen." + type, what + " second Open of the same reader: " + diff_data(want, got, exact));
  }
}
static void c01_roundtrip(Rng& r) {
  int ti = r.below(3); S type = TYPES[ti], desc; Data d = random_set(r, ti == 2, desc);
  desc = type + " " + desc;
  if (type == "csv") d = drop_zeros(d);
  S path = tmpf("rt." + type);
  if (type == "bin" && r.chance(0.2)) { for (auto& e : d) for (auto& p : e.f) if (r.chance(0.3)) { static const uint32_t b[] = {0, 0x80000000u, 0x7f800000u, 0xff800000u, 0x7fc00001u, 1}; memcpy(&p.second, &b[r.below(6)], 4); } }
  else if (type == "svm" && r.chance(0.2)) for (auto& e : d) for (auto& p : e.f) if (r.chance(0.2)) p.second = 0;
  int ret = lib_write(path, type, d);
  if (ret != 0) { viol("c01.write." + type, desc + fmt(" write status %d; ", ret) + show(d)); return; }
  reading_checks(r, path, type, d, type == "bin", desc + " {" + show(d, 3) + "}");
  nontrivial(hash_data(d)); count("roundtrip." + type); if (wants_sample()) sample("write+read " + desc + ": " + show(d, 2));
}
// binary records by an independent encoder: label, feature count, length of the index codes, index gaps, values;
// features in any order (gaps then wrap around)
static void c01_foreign_bin(Rng& r) {
  S desc; Data d = random_set(r, false, desc); S b;
  for (auto& e : d) {
    auto f = e.f; if (r.chance(0.4)) { scramble(r, f); count("unsorted_records"); }
    int32_t l = e.label; uint64_t n = f.size(); b += S((char*)&l, 4) + S((char*)&n, 8); if (!n) continue;
    S codes; uint32_t last = 0; for (auto& p : f) { uint32_t g = p.first - last; last = p.first; while (g >= 128) { codes += char(128 | (g & 127)); g >>= 7; } codes += char(g); }
    uint64_t cl = codes.size(); b += S((char*)&cl, 8) + codes; for (auto& p : f) b += S((char*)&p.second, 4);
  }
  S path = tmpf("fb.bin"); write_file(path, b); reading_checks(r, path, "bin", d, true, "foreign bin " + desc); nontrivial(hash_data(d) ^ 2); count("foreign.bin");
}
// text written by an independent encoder, with harmless layout variations
static void c01_foreign(Rng& r) {
  if (r.chance(0.2)) { c01_foreign_bin(r); return; }
  bool csv = r.chance(0.4); S type = csv ? "csv" : "svm", desc; Data d = random_set(r, csv, desc); if (csv) d = drop_zeros(d);
  Data want = d; S text;
  if (csv) text = enc_csv(d);
  else {
    for (auto& e : d) {
      auto f = e.f; if (r.chance(0.3)) scramble(r, f);
      text += fmt(r.chance(0.2) && e.label > 0 ? "+%d" : "%d", e.label);
      for (auto& p : f) text += fmt(r.chance(0.1) ? "\t%u:%.9g" : r.chance(0.1) ? "  %u:%.9g" : " %u:%.9g", p.first, p.second);
      if (r.chance(0.1)) text += " "; text += "\n";
    }
  }
  if (!text.empty() && !d.empty() && r.chance(0.3)) text.erase(text.size() - 1);  // last line without newline
  if (r.chance(0.25)) { S t; bool mixed = r.chance(0.3); for (char c : text) { if (c == '\n' && (!mixed || r.chance(0.5))) t += '\r'; t += c; } text = t; count("crlf." + type); }
  S path = tmpf("fg." + type); write_file(path, text);
  reading_checks(r, path, type, want, false, "foreign " + type + " " + desc);
  nontrivial(hash_data(d) ^ 1); count("foreign." + type);
}
static void c01_convert(Rng& r) {
  int a = r.below(3), b = r.below(3); S ta = TYPES[a], tb = TYPES[b], desc;
  Data d = random_set(r, a == 2 || b == 2 || r.chance(0.5), desc);
  if (a == 2 || b == 2) d = drop_zeros(d);
  bool any = false; for (auto& e : d) any = any || !e.f.empty();
  if ((a == 2 || b == 2) && !any) { count("skipped.featureless_csv"); return; }
  S p1 = tmpf("cv1." + ta), p2 = tmpf("cv2." + tb);
  bool own = r.chance(0.5) && a != 1;
  if (own) write_file(p1, enc(d, ta)); else { int st = lib_write(p1, ta, d); if (st) { viol("c01.write." + ta, desc + fmt(" status %d", st)); return; } }
  int steps = r.chance(0.3) ? 3 : 1; S cur = p1, ct = ta; S chain = ta;
  bool exact = (a == 1);
  for (int s = 0; s < steps; ++s) {
    S nt = s == 0 ? tb : TYPES[r.below(3)];
    if (nt == "csv") { uint32_t m = 0; for (auto& e : d) for (auto& p : e.f) { m = std::max(m, p.first); if (p.first == 0) m = 1 << 30; } if (m > 2000) break; Data nz = drop_zeros(d); bool z = !diff_data(nz, d, true).empty(); if (z || !any) break; }
    S np = tmpf(fmt("cv%d.", s + 3) + nt);
    int st = sol_convert_data(cur.c_str(), ct.c_str(), np.c_str(), nt.c_str(), false, 0.f);
    chain += ">" + nt; count("convert." + ct + ">" + nt);
    if (st != 0) { viol("c01.convert.status." + ct + ">" + nt, chain + " " + desc + fmt(" status %d", st) + " {" + show(d, 3) + "}"); return; }
    if (nt != "bin") exact = false;
    cur = np; ct = nt;
  }
  if (chain == ta) return;
  reading_checks(r, cur, ct, d, exact, "convert " + chain + " " + desc + " {" + show(d, 3) + "}");
  nontrivial(hash_data(d) ^ hash_str(chain)); if (wants_sample()) sample("convert " + chain + " " + desc);
}
// examples in memory: built, sorted, cleared and copied onto fresh or used ones
static void c01_point(Rng& r) {
  using sol::pario::DataPoint; const int P = 4; DataPoint pt[P]; Ex m[P]; for (auto& e : m) e.label = 0; S ops;
  auto same = [&](int i) { S why; if (pt[i].label() != m[i].label) why = fmt("label %d, expected %d", int(pt[i].label()), m[i].label); else if (pt[i].size() != m[i].f.size()) why = fmt("%zu features, expected %zu", size_t(pt[i].size()), m[i].f.size());
    else for (size_t k = 0; k < m[i].f.size() && why.empty(); ++k) if (pt[i].index(k) != m[i].f[k].first || memcmp(&m[i].f[k].second, &(const float&)pt[i].feature(k), 4)) why = fmt("feature %zu is %u:%g, expected %u:%g", k, unsigned(pt[i].index(k)), double(pt[i].feature(k)), m[i].f[k].first, double(m[i].f[k].second));
    if (!why.empty()) viol("c01.point", ops + fmt(" : example %d has ", i) + why); count("points_checked"); return why.empty(); };
  for (int q = r.range(3, 25); q > 0; --q) {
    int i = r.below(P), w = r.below(6);
    if (w == 0) { m[i].label = r.range(-3, 5); pt[i].set_label(m[i].label); ops += fmt(" label%d", i); }
    else if (w <= 2) { int n = r.chance(0.1) ? r.range(50, 400) : r.range(1, 6); std::set<uint32_t> have; for (auto& p : m[i].f) have.insert(p.first); decltype(m[i].f) add; for (int k = 0; k < n; ++k) { uint32_t x = gen_idx(r, r.chance(0.5) ? 40 : 4294967294u); if (have.insert(x).second) add.push_back(std::make_pair(x, gen_val(r, 0))); }
      std::sort(add.begin(), add.end()); if (r.chance(0.6)) scramble(r, add); for (auto& p : add) { pt[i].AddNewFeat(p.first, p.second); m[i].f.push_back(p); } ops += fmt(" add%d*%zu", i, add.size()); }
    else if (w == 3) { bool asc = true; for (size_t k = 1; k < m[i].f.size(); ++k) asc = asc && m[i].f[k - 1].first < m[i].f[k].first; if (pt[i].IsSorted() != asc) viol("c01.point.sorted", ops + fmt(" : IsSorted of %d is %d", i, int(pt[i].IsSorted()))); std::sort(m[i].f.begin(), m[i].f.end()); pt[i].Sort(); ops += fmt(" sort%d", i); count("point_sorts"); }
    else if (w == 4) { m[i].f.clear(); m[i].label = 0; pt[i].Clear(); ops += fmt(" clear%d", i); }
    else { int j = (i + 1 + r.below(P - 1)) % P; if (r.chance(0.5)) pt[i].Clone(pt[j]); else pt[j] = pt[i].Clone(); m[j] = m[i]; ops += fmt(" clone%d>%d", i, j); count("point_clones"); if (m[i].f.empty()) count("point_empty_clones"); }
    for (int k = 0; k < P; ++k) if (!same(k)) return;
  }
  nontrivial(hash_str(ops));
}

// ------------------------------------------------------------------ C02
template <class T> static void c02_one(Rng& r, const char* name) {
  const uint64_t MX = T(-1); int n = r.chance(0.1) ? 0 : r.chance(0.1) ? r.chance(0.02) ? r.range(3000, 80000) : r.range(500, 3000) : r.range(1, 60);
  std::vector<T> v; int mode = r.below(5);
  uint64_t cur = 0; bool big = true;
  for (int i = 0; i < n; ++i) {
    uint64_t gap;
    switch (mode) {
      case 0: gap = r.below(4); break;
      case 1: { int k = r.range(1, 9); gap = (1ull << (7 * k)) + r.range(-2, 2); if (r.chance(0.6)) gap = r.below(200); break; }
      case 2: gap = r.below(300); break;
      case 3: { int b = r.range(0, int(sizeof(T) * 8) - 1); gap = (1ull << b) | (r.u64() & ((1ull << b) - 1)); if (i && r.chance(0.8)) gap = r.below(129); break; }
      default: gap = big ? MX - r.below(3) : 0; big = r.chance(0.1); break;
    }
    uint64_t room = MX - cur; if (gap > room) gap = r.chance(0.5) ? room : 0;
    cur += gap; v.push_back(T(cur));
  }
  sol::math::Vector<T> in, out; sol::math::Vector<char> codes;
  in.reserve(v.size()); in.resize(v.size()); for (size_t i = 0; i < v.size(); ++i) in[i] = v[i];
  codes.resize(0); out.resize(r.below(3));
  sol::pario::comp_index(in, codes);
  sol::math::Vector<char> exact; exact.reserve(codes.size()); exact.resize(codes.size());
  if (codes.size()) memcpy(exact.begin(), codes.begin(), codes.size());
  sol::pario::decomp_index(exact, out);
  bool ok = out.size() == v.size(); for (size_t i = 0; ok && i < v.size(); ++i) ok = out[i] == v[i];
  S vs; for (size_t i = 0; i < v.size() && i < 10; ++i) vs += fmt("%llu ", (unsigned long long)v[i]);
  if (!ok) viol(S("c02.roundtrip.") + name, fmt("n=%zu decoded %zu mode=%d: ", v.size(), out.size(), mode) + vs);
  // the codec only: coded bytes appended to existing ones decode as a suffix
  for (size_t i = 0; i < v.size(); ++i) if (in[i] != v[i]) { viol(S("c02.input_modified.") + name, vs); break; }
  if (v.size() && codes.size() < v.size()) viol(S("c02.length.") + name, "fewer code bytes than indexes");
  nontrivial(hash_bytes(v.data(), v.size() * sizeof(T), sizeof(T))); count(S("indexes.") + name, v.size());
  if (wants_sample()) sample(S(name) + " " + vs);
}
static void c02_codec(Rng& r) { switch (r.below(3)) { case 0: c02_one<uint16_t>(r, "u16"); break; case 1: c02_one<uint32_t>(r, "u32"); break; default: c02_one<uint64_t>(r, "u64"); } }
template <class T> static void c02_hostile_one(const S& b) {
  sol::math::Vector<char> codes; codes.reserve(b.size()); codes.resize(b.size()); if (b.size()) memcpy(codes.begin(), b.data(), b.size());
  sol::math::Vector<T> out; out.resize(0); sol::pario::decomp_index(codes, out);
  if (out.size() > b.size()) viol("c02.hostile.count", fmt("%zu indexes out of %zu bytes", (size_t)out.size(), b.size()));
  // the complete codes in front of the damage decode to what they say
  std::vector<uint64_t> want; uint64_t last = 0; size_t i = 0;
  while (i < b.size()) {
    uint64_t v = 0; int sh = 0; bool complete = false, fits = true; size_t j = i;
    while (j < b.size()) { unsigned char c = b[j++]; if (sh >= 63 && (c & 126)) fits = false; if (sh < 64) v |= uint64_t(c & 127) << sh; sh += 7; if (!(c & 128)) { complete = true; break; } }
    if (!complete || !fits || v > uint64_t(T(-1)) - last) break;
    last += v; want.push_back(last); i = j;
  }
  bool ok = out.size() >= want.size(); for (size_t k = 0; ok && k < want.size(); ++k) ok = out[k] == T(want[k]);
  if (!ok) viol("c02.hostile.prefix", fmt("complete codes before the damage not decoded (%zu expected, %zu got)", want.size(), (size_t)out.size()));
  count("hostile_bytes", b.size());
}
static void c02_hostile(Rng& r) {
  S b; int n = r.chance(0.1) ? r.range(0, 2) : r.chance(0.01) ? r.range(200, 20000) : r.range(1, 80); int mode = r.below(4);
  for (int i = 0; i < n; ++i) b += char(mode == 0 ? r.below(256) : mode == 1 ? 128 + r.below(128) : mode == 2 ? (r.chance(0.9) ? r.below(128) : 255) : (r.chance(0.5) ? 0x80 : r.below(256)));
  if (mode == 2 && n) b[n - 1] = char(r.below(256));
  switch (r.below(3)) { case 0: c02_hostile_one<uint16_t>(b); break; case 1: c02_hostile_one<uint32_t>(b); break; default: c02_hostile_one<uint64_t>(b); }
  nontrivial(hash_str(b)); count("hostile");
}

// ------------------------------------------------------------------ C06
static S prefix_encode(const S& type, const Data& d, size_t k) {
  Data p(d.begin(), d.begin() + k); S path = tmpf("pf." + type);
  if (type == "csv") return enc_csv(p);
  if (type == "svm") return enc_svm(p);
  lib_write(path, type, p); return read_file(path);
}
static void c06_mutate(Rng& r) {
  int ti = r.below(3); S type = TYPES[ti]; DOpt o; o.rows = r.range(1, 12); o.maxfeat = r.chance(0.1) ? 400 : r.range(1, 10); o.dim = ti == 2 ? 30 : (r.chance(0.3) ? 4000000000u : 300);
  if (ti == 2) o.maxfeat = 20;
  if (ti != 1 && r.chance(0.01)) { o.rows = r.range(200, 3000); count("large.rows"); }
  o.vals = r.below(3); o.labels = r.below(3); o.empty = 0.1; Data d = drop_zeros(gen_data(r, o));
  if (ti != 2 && r.chance(0.1)) for (auto& e : d) for (auto& p : e.f) if (r.chance(0.3)) p.second = 0;
  // record boundaries: file contents after each prefix
  std::vector<size_t> ends; S full;
  if (type == "csv") { full = enc_csv(d); size_t p = full.find('\n') + 1; ends.push_back(p); while (p < full.size()) { p = full.find('\n', p) + 1; ends.push_back(p); } }
  else if (type == "svm") { full = enc_svm(d); ends.push_back(0); size_t p = 0; while (p < full.size()) { p = full.find('\n', p) + 1; ends.push_back(p); } }
  else { for (size_t k = 0; k <= d.size(); ++k) ends.push_back(prefix_encode(type, d, k).size()); full = prefix_encode(type, d, d.size()); }
  if (ends.size() != d.size() + 1) { count("skipped.encoding"); return; }
  S m = full; size_t first = m.size(); S how; bool trunc = false; int nm = r.chance(0.6) ? 1 : r.range(2, 6);
  for (int k = 0; k < nm && !m.empty(); ++k) {
    size_t p = r.below(m.size());
    if (type == "csv" && r.chance(0.8) && ends[0] < m.size()) p = ends[0] + r.below(m.size() - ends[0]);
    switch (r.below(8)) {
      case 0: m.resize(p); first = std::min(first, p); how += fmt("trunc@%zu ", p); trunc = true; break;
      case 1: m[p] = char(m[p] ^ (1 << r.below(8))); first = std::min(first, p); how += fmt("flip@%zu ", p); break;
      case 2: m[p] = char(r.below(256)); first = std::min(first, p); how += fmt("byte@%zu ", p); break;
      case 3: { size_t n = r.range(1, 9); S x; for (size_t i = 0; i < n; ++i) x += char(r.below(256)); m.insert(p, x); first = std::min(first, p); how += fmt("ins%zu@%zu ", n, p); break; }
      case 4: { size_t n = std::min<size_t>(m.size() - p, r.range(1, 12)); m.erase(p, n); first = std::min(first, p); how += fmt("del%zu@%zu ", n, p); break; }
      case 5: { static const char* toks[] = {":", "::", ",", "e", "-", "nan", "inf", "1e999", "99999999999999999999", "4294967295:1 ", "-1:2 ", " 0:1", "\n", "\n\n", "\r\n", "1:", "#", "0x10", "+-3", ".", "1e-9999", "abc"};
        S x = toks[r.below(22)]; m.insert(p, x); first = std::min(first, p); how += "tok[" + x + fmt("]@%zu ", p); break; }
      case 6: { if (m.size() >= 8 && p + 8 <= m.size()) { static const uint64_t big[] = {0xffffffffffffffffull, 0x7fffffffffffffffull, 1ull << 40, 1ull << 32, 1ull << 20, 0, 0x100000001ull, 50000000ull}; uint64_t v = big[r.below(8)]; memcpy(&m[p], &v, 8); first = std::min(first, p); how += fmt("u64@%zu ", p); } break; }
      default: { size_t q = r.below(m.size()); size_t n = std::min<size_t>(std::min(m.size() - p, m.size() - q), r.range(1, 40)); S x = m.substr(q, n); m.replace(p, n, x); first = std::min(first, p); how += fmt("splice%zu@%zu ", n, p); }
    }
  }
  S path = tmpf("mut." + type); write_file(path, m);
  RP rd(DataReader::Create(type)); int st = rd->Open(path); Data got; size_t limit = m.size() + 10;
  if (st == 0) st = lib_read(*rd, got, limit);
  if (got.size() >= limit) { viol("c06.endless." + type, how + fmt("more than %zu examples from %zu bytes", limit, m.size())); return; }
  size_t k = 0; while (k + 1 < ends.size() && ends[k + 1] <= first) ++k;   // examples wholly before the first altered byte
  // an insertion/replacement right at the end of a text line leaves that line's newline in place: it stays intact
  if (ends[0] > first) k = 0;
  if (!(type == "csv" && first < ends[0])) {
    bool ok = got.size() >= k; for (size_t i = 0; ok && i < k; ++i) ok = same_ex(d[i], got[i]);
    if (!ok) viol("c06.prefix." + type, how + fmt("first altered byte %zu, %zu intact examples precede it, delivered %zu; ", first, k, got.size()) + show(d, 3) + " vs " + show(got, 3));
    count("prefix_examples", k);
    if (trunc && nm == 1 && type == "bin") {  // a cut record must not be delivered
      if (got.size() != k) viol("c06.cutrecord.bin", how + fmt("delivered %zu, complete %zu", got.size(), k));
      bool boundary = ends[k] == m.size();
      if (boundary ? st != kEOF : st == kEOF && m.size() - ends[k] >= 4) viol("c06.cutstatus.bin", how + fmt("status %d, %zu bytes past the last complete record", st, m.size() - ends[k]));
    }
  }
  if (st == 0) viol("c06.status." + type, how + "reading ended with OK");
  count(st == kEOF ? "ended_eof" : "ended_error"); count("mutants." + type);
  // the same reader still reads an intact file
  if (r.chance(0.3)) { S p2 = tmpf("ok." + type); write_file(p2, full); Data g2; int s2 = rd->Open(p2); if (s2 == 0) s2 = lib_read(*rd, g2, d.size() + 5);
    if (s2 != kEOF || !diff_data(d, g2, true).empty()) viol("c06.after." + type, how + fmt("intact file afterwards: status %d ", s2) + diff_data(d, g2, true)); count("intact_after"); }
  nontrivial(hash_str(m)); if (wants_sample()) sample(type + " " + how + fmt("-> %zu delivered, status %d", got.size(), st));
}
static S pick1(Rng& r, std::initializer_list<const char*> l) { std::vector<S> v(l.begin(), l.end()); return v[r.below(v.size())]; }
// a line that is malformed in a known way: nothing of it may be delivered
static void c06_badline(Rng& r) {
  bool csv = r.chance(0.4); S type = csv ? "csv" : "svm"; DOpt o; o.rows = r.range(1, 6); o.dim = 9; o.maxfeat = 6; o.vals = 1; o.empty = 0; if (r.chance(0.02)) { o.rows = r.range(100, 2500); count("large.rows"); } Data d = gen_data(r, o);
  static const char* bs[] = {"abc 1:2", "1 1", "1 :3", "1 1:", "1 x:2", "1 1:y", "1 1:2 3", "", "1 -1:2", "1 4294967295:1", "1 4294967296:1", "1 99999999999999999999:1", "1 1:2:3", "99999999999 1:1", "-2147483649 1:1", "1 1.5:2", "1:2 3:4", "- 1:2", "1 1:-", "1 1:.", "1 1: 2:3", "1,2:3", "1 1:abc", "1 1:2,3:4", "1 1=2", "1 1-2", "1 1;2", "1 1,2", "1 1 2", "1 2:1 3=4", "1 3:1 4:x 5:1", "1 2:1 3", "1 1:2 3:", "1 1/2:3", "1 1:e5", "1 1:2 abc:1", "1 1:2 :", "x", ":"};
  static const char* bc[] = {"abc,1,2", "1,x,3", "1,,3", "", "1 2 3", "99999999999,1,2", ",1,2", "1,-,2", "1,1;2", "x", "1,2,", "1,.,3", "1;2;3", "1,2;3", "1,2 3", "1:2,3", "1,e5,2", "1,2,3,x", "1,2,3,4,5,6,7,8,"};
  S bad = csv ? r.pick(std::vector<const char*>(bc, bc + sizeof bc / sizeof *bc)) : r.pick(std::vector<const char*>(bs, bs + sizeof bs / sizeof *bs));
  if (!bad.empty() && r.chance(0.05)) { S x = "1"; int n = r.chance(0.3) ? r.range(1000, 30000) : r.range(5, 300); for (int i = 1; i <= n; ++i) x += csv ? S(",2") : fmt(" %d:2", i); bad = x + (csv ? "," : " ") + pick1(r, {"x", "1:y", "@3", "3:", "-"}); count("long_badlines"); }
  size_t at = r.below(d.size() + 1); S text = csv ? "class,v1,v2,v3,v4,v5,v6,v7,v8,v9\n" : "";
  Data a(d.begin(), d.begin() + at), b(d.begin() + at, d.end());
  auto body = [&](const Data& x) { S t = enc(x, type); return csv ? t.substr(t.find('\n') + 1) : t; };
  text += body(a) + bad + "\n" + body(b); if (b.empty() && !bad.empty() && r.chance(0.5)) { text.erase(text.size() - 1); count("unterminated_badlines"); } if (r.chance(0.15)) { S t; for (char c : text) { if (c == '\n') t += '\r'; t += c; } text = t; count("crlf_badlines"); }   // the malformed line may be the last, unterminated one
  S path = tmpf("bad." + type); write_file(path, text);
  RP rd(DataReader::Create(type)); int st = rd->Open(path); Data got; if (st == 0) st = lib_read(*rd, got, d.size() + 100);
  S what = type + " <" + bad.substr(0, 30) + (bad.size() > 30 ? fmt("...%zu..", bad.size()) + bad.substr(bad.size() - 5) : S("")) + fmt("> at line %zu: ", at);
  if (got.size() != at || !diff_data(a, got, true).empty()) viol("c06.badline." + type, what + fmt("delivered %zu examples, %zu precede the malformed line", got.size(), at) + show(got));
  else if (st == 0 || st == kEOF) viol("c06.badline.status." + type, what + fmt("status %d", st));
  nontrivial(hash_str(text)); count("badlines"); if (wants_sample()) sample(what + fmt("status %d", st));
}
// arbitrary bytes and huge lines
static void c06_garbage(Rng& r) {
  S type = TYPES[r.below(3)], b; int mode = r.below(4); int n = r.chance(0.2) ? r.chance(0.05) ? r.range(60000, 400000) : r.range(4000, 20000) : r.range(0, 300);
  for (int i = 0; i < n; ++i) b += mode == 0 ? char(r.below(256)) : mode == 1 ? "0123456789:.e-+ \n,"[r.below(18)] : mode == 2 ? char(r.chance(0.97) ? '1' : '\n') : char(r.chance(0.9) ? 0 : r.below(256));
  S path = tmpf("g." + type); write_file(path, b); Data got;
  RP rd(DataReader::Create(type)); int st = rd->Open(path); if (st == 0) st = lib_read(*rd, got, b.size() + 10);
  if (got.size() > b.size() + 5) viol("c06.garbage.endless." + type, "too many examples");
  if (st == 0) viol("c06.garbage.status." + type, "ended with OK");
  nontrivial(hash_str(b)); count("garbage." + type);
}

// ------------------------------------------------------------------ C07
static S gen_number(Rng& r) {
  S s; if (r.chance(0.3)) s += "-"; else if (r.chance(0.1)) s += "+";
  auto digits = [&](int n) { S t; for (int i = 0; i < n; ++i) t += char('0' + (r.chance(0.2) ? (r.chance(0.5) ? 0 : 9) : r.below(10))); return t; };
  int m = r.below(7), ni, nf;
  if (m == 0) { ni = r.range(1, 9); nf = 0; } else if (m == 1) { ni = r.range(1, 5); nf = r.range(1, 8); } else if (m == 2) { ni = 0; nf = r.range(1, 20); }
  else if (m == 3) { ni = r.range(10, 60); nf = r.range(0, 40); } else if (m == 4) { ni = 1; nf = r.range(0, 9); } else if (m == 5) { ni = r.range(0, 3); nf = r.range(20, 60); } else { ni = r.range(1, 25); nf = r.range(0, 25); }
  S a = digits(ni), b = digits(nf); if (r.chance(0.15)) for (auto& c : a) c = '0'; if (r.chance(0.15)) for (size_t i = 0; i + 2 < b.size(); ++i) b[i] = '0';
  s += a; if (nf || (ni && r.chance(0.1))) s += "." + b; if (a.empty() && b.empty()) s += "0";
  if (m == 4 || r.chance(0.35)) { s += r.chance(0.5) ? "e" : "E"; int e = r.chance(0.15) ? r.range(-400, 400) : r.chance(0.3) ? r.range(-60, 60) : r.range(-12, 12); if (e < 0) s += "-"; else if (r.chance(0.4)) s += "+"; s += fmt(r.chance(0.2) ? "%03d" : "%d", std::abs(e)); }
  return s;
}
static void c07_float(Rng& r) {
  bool csv = r.chance(0.5); int n = r.range(1, 12); std::vector<S> nums; for (int i = 0; i < n; ++i) nums.push_back(gen_number(r));
  S text;
  if (csv) { text = "class"; for (int i = 1; i <= n; ++i) text += fmt(",v%d", i); text += "\n1"; for (auto& s : nums) text += (r.chance(0.1) ? ", " : ",") + s; text += r.chance(0.2) ? "\r\n" : "\n"; }
  else { text = "1"; for (int i = 0; i < n; ++i) text += fmt(r.chance(0.1) ? "\t%d:" : " %d:", i + 1) + nums[i]; text += r.chance(0.2) ? "" : r.chance(0.2) ? " \r\n" : r.chance(0.2) ? "\r\n" : "\n"; }
  S path = tmpf("num"); write_file(path, text); Data got; S type = csv ? "csv" : "svm"; int st = lib_read_file(path, type, got);
  if (st != kEOF || got.size() != 1) { viol("c07.rejected." + type, fmt("status %d, %zu examples, text <", st, got.size()) + text + ">"); return; }
  std::map<uint32_t, float> m; for (auto& p : got[0].f) m[p.first] = p.second;
  if (!csv && got[0].f.size() != nums.size()) { viol("c07.count.svm", text); return; }
  for (int i = 0; i < n; ++i) {
    double t = strtod(nums[i].c_str(), 0); float g = m.count(i + 1) ? m[i + 1] : 0.f; double ft = t; count("numbers");
    bool ok;
    if (std::fabs(ft) > double(FLT_MAX)) ok = std::isinf(g) ? (g > 0) == (ft > 0) : (std::fabs(ft) < double(FLT_MAX) * 1.0000002 && std::fabs(g) == FLT_MAX && (g > 0) == (ft > 0));
    else if (std::isinf(g)) ok = std::fabs(ft) > double(FLT_MAX) * 0.9999999;
    else ok = std::fabs(double(g) - ft) <= 1.3e-7 * std::fabs(ft) + 1.5e-45;
    if (!ok) viol("c07.value." + type, nums[i] + fmt(" read as %.9g, denotes %.17g", g, ft));
    nontrivial(hash_str(nums[i]));
  }
  if (wants_sample()) sample(type + " " + nums[0] + fmt(" -> %.9g", m.count(1) ? m[1] : 0.f));
}
static void c07_int(Rng& r) {
  // labels and indexes: exact or rejected
  bool lab = r.chance(0.5); long long lim = lab ? 2147483647ll : 4294967294ll, v; int m = r.below(5);
  if (m == 0) v = r.below(1000); else if (m == 1) v = lim - r.below(3); else if (m == 2) v = lim + 1 + r.below(3); else if (m == 3) v = r.below(20000000000ull); else v = r.below(lim);
  bool neg = lab && r.chance(0.5); S s = fmt("%lld", v); if (r.chance(0.2)) s = S(r.range(1, 8), '0') + s; if (r.chance(0.05)) { s += S(r.range(10, 30), '0'); if (v) v = 1ll << 60; }
  if (neg) { s = "-" + s; } else if (lab && r.chance(0.2)) s = "+" + s;
  long long val = neg ? -v : v; bool fits = lab ? (val >= -2147483648ll && val <= 2147483647ll) : val <= 4294967294ll;
  bool csv = lab && r.chance(0.4); S text;
  if (csv) text = "class,v1\n" + s + ",2\n"; else if (lab) text = s + " 3:2\n"; else text = "1 " + s + ":2\n"; if (r.chance(0.2)) { S t; for (char c : text) { if (c == '\n') t += '\r'; t += c; } text = t; }
  S path = tmpf("int"); write_file(path, text); Data got; S type = csv ? "csv" : "svm"; int st = lib_read_file(path, type, got);
  S what = (lab ? S("label ") : S("index ")) + s + " (" + type + ")";
  if (fits) {
    if (st != kEOF || got.size() != 1) viol(lab ? "c07.int.label_rejected" : "c07.int.index_rejected", what + fmt(" status %d", st));
    else if (lab ? got[0].label != val : (got[0].f.size() != 1 || (long long)got[0].f[0].first != val)) viol(lab ? "c07.int.label_value" : "c07.int.index_value", what + " read as " + show(got[0]));
    else if (got[0].f.size() != 1 || got[0].f[0].second != 2.f) viol("c07.int.rest", what + " read as " + show(got[0]));
  } else if (!got.empty()) viol(lab ? "c07.int.label_overflow" : "c07.int.index_overflow", what + " read as " + show(got[0]));
  count(fits ? "ints_fit" : "ints_overflow"); nontrivial(hash_str(text)); if (wants_sample()) sample(what + fmt(" -> status %d", st));
}
// labels and indexes spelled with a fraction or an exponent: the integer they denote, or rejected
static void c07_intform(Rng& r) {
  bool lab = r.chance(0.5), neg = lab && r.chance(0.3); S a, b, s; for (int k = r.below(5); k > 0; --k) a += char('0' + r.below(10)); int nb = r.chance(0.7) ? r.range(0, 4) : 0; for (int k = 0; k < nb; ++k) b += char('0' + (r.chance(0.4) ? 0 : r.below(10))); if (a.empty() && b.empty()) a = "7";
  bool dot = nb > 0 || r.chance(0.2), ex = !dot || r.chance(0.5); int e = ex ? r.chance(0.2) ? -r.range(1, 4) : r.chance(0.1) ? r.range(5, 40) : r.range(0, 5) : 0; S es = ex ? fmt(r.chance(0.5) ? "e" : "E") + (e >= 0 && r.chance(0.3) ? "+" : "") + fmt("%d", e) : S(""); s = (neg ? "-" : "") + a + (dot ? "." : "") + b + es;
  // digits ab scaled by 10^(e - nb)
  S dg = a + b; int sc = e - nb; while (sc < 0 && !dg.empty() && dg.back() == '0') { dg.erase(dg.size() - 1); ++sc; } size_t z = dg.find_first_not_of('0'); bool zero = z == S::npos; bool integral = zero || sc >= 0; long long v = 0; bool fits = integral; if (integral && !zero) { dg = dg.substr(z) + S(size_t(sc), '0'); if (dg.size() > 12) fits = false; else v = atoll(dg.c_str()); } long long val = neg ? -v : v; if (fits) fits = lab ? val >= -2147483648ll && val <= 2147483647ll : val <= 4294967294ll;
  bool csv = lab && r.chance(0.4); S text = csv ? "class,v1\n" + s + ",2\n" : lab ? s + " 3:2\n" : "1 " + s + ":2\n", path = tmpf("intf"); write_file(path, text); Data got; lib_read_file(path, csv ? "csv" : "svm", got);
  if (!got.empty() && (!fits || (lab ? got[0].label != val : got[0].f.size() != 1 || (long long)got[0].f[0].first != val))) viol(lab ? "c07.intform.label" : "c07.intform.index", s + (csv ? " (csv)" : " (svm)") + " read as " + show(got[0]));
  count(got.empty() ? "intforms_rejected" : "intforms_read"); nontrivial(hash_str(text));
}
static void c07_nonnumber(Rng& r) {
  // junk where a number is expected
  static const char* J[] = {"abc", "-", "+", ".", "e5", "-e5", "nan", "inf", "NaN", "Infinity", "-.", "+.", ".e3", "x1", "--5", "#", "e", "\"1\"", "$3", "_1", "O", "l0", "/2", ":3", ";3"};
  S j = J[r.below(25)]; int where = r.below(4); S text, type = "svm";
  if (where == 0) text = j + " 1:2\n"; else if (where == 1) text = "1 1:" + j + " 2:3\n"; else if (where == 2) text = "1 1:2 " + j + ":3\n"; else { type = "csv"; text = "class,a,b\n1," + j + ",3\n"; }
  S path = tmpf("nn"); write_file(path, text); Data got; int st = lib_read_file(path, type, got);
  if (!got.empty() || st == kEOF || st == 0) viol("c07.nonnumber." + type, "<" + text + fmt("> status %d delivered %zu ", st, got.size()) + show(got));
  // trailing text: the number before it is read, the rest is not swallowed
  S num = gen_number(r); static const char* T[] = {"x", "abc", ";", "..", "-", "+1", ":", "#", "%", "_", "f", ")"}; S t = T[r.below(12)];
  text = "1 1:" + num + t + "\n"; write_file(path, text); got.clear(); st = lib_read_file(path, "svm", got);
  if (!got.empty()) viol("c07.trailing", "<" + text + "> delivered " + show(got));
  count("nonnumbers", 2); nontrivial(hash_str(text) ^ hash_str(j)); if (wants_sample()) sample("<" + j + "> and <" + num + t + "> rejected");
}

int main(int argc, char** argv) {
  return run_main(argc, argv, {{"c01_roundtrip", c01_roundtrip}, {"c01_foreign", c01_foreign}, {"c01_convert", c01_convert}, {"c01_point", c01_point}, {"c02_codec", c02_codec}, {"c02_hostile", c02_hostile},
    {"c06_mutate", c06_mutate}, {"c06_badline", c06_badline}, {"c06_garbage", c06_garbage}, {"c07_float", c07_float}, {"c07_int", c07_int}, {"c07_intform", c07_intform}, {"c07_nonnumber", c07_nonnumber}});
}

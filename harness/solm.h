// Driving models through the C API: feeding data, traces, predictions, weights.
#ifndef VERIF_SOLM_H
#define VERIF_SOLM_H
#include "solio.h"
#include "model_ref.h"
#include <Python.h>
#include "sol/c_api.h"
namespace hv {
struct Cb { long long n, it, up; double er; };
inline void trace_cb(void* ctx, long long n, long long it, long long up, double er) { Cb c = {n, it, up, er}; ((std::vector<Cb>*)ctx)->push_back(c); }
inline void quiet(void*, long long, long long, long long, double) {}
struct Pred { int label, pred; std::vector<float> s; };
inline void pred_cb(void* ctx, double l, double p, int k, float* s) { Pred q; q.label = int(l); q.pred = int(p); q.s.assign(s, s + k); ((std::vector<Pred>*)ctx)->push_back(q); }
// memory for the in-memory sources of one iterator
struct Mem { std::vector<double> v, y; std::vector<int> ind, ptr; };
struct Feed {
  void* it; std::vector<Mem*> mem; std::vector<S> files;
  Feed(int bs = 16, int nb = 2) { it = sol_CreateDataIter(bs, nb); }
  ~Feed() { if (it) sol_ReleaseDataIter(&it); for (auto m : mem) delete m; for (auto& f : files) unlink(f.c_str()); }
  Feed(const Feed&) = delete;
  int csr(const Data& d, int passes = 1) {
    Mem* m = new Mem; mem.push_back(m); int base = int(mem.size() + d.size()) % 3 == 0 ? int(d.size()) + 1 : 0; m->ptr.push_back(base);
    for (auto& e : d) { for (auto& p : e.f) { m->ind.push_back(int(p.first) - 1); m->v.push_back(p.second); } m->ptr.push_back(base + int(m->ind.size())); m->y.push_back(e.label); }
    m->ind.push_back(0); m->v.push_back(0); m->y.push_back(0);
    return sol_loadCsrMatrix(it, (char*)m->ind.data(), (char*)m->ptr.data(), (char*)m->v.data(), (char*)m->y.data(), int(d.size()), passes);
  }
  int numpy(const Data& d, int passes = 1) {
    uint32_t dim = 1; for (auto& e : d) for (auto& p : e.f) dim = std::max(dim, p.first);
    Mem* m = new Mem; mem.push_back(m); size_t w = dim + d.size() % 3; m->v.assign(d.size() * w + 1, 0);
    for (size_t i = 0; i < d.size(); ++i) { for (auto& p : d[i].f) m->v[i * w + p.first - 1] = p.second; for (size_t k = dim; k < w; ++k) m->v[i * w + k] = 3.5; m->y.push_back(d[i].label); } m->y.push_back(0);
    npy_intp dims[2] = {(npy_intp)d.size(), (npy_intp)dim}, str[2] = {(npy_intp)(w * 8), 8};
    return sol_loadArray(it, (char*)m->v.data(), (char*)m->y.data(), dims, str, passes);
  }
  int file(const Data& d, const S& type, int passes = 1) {
    static long serial = 0; S p = tmpf(fmt("feed%ld.", serial++) + type); files.push_back(p); write_file(p, enc(d, type)); return sol_LoadData(it, p.c_str(), type.c_str(), passes);
  }
  int any(Rng& r, const Data& d, int passes = 1) {
    uint32_t dim = 1; for (auto& e : d) for (auto& p : e.f) dim = std::max(dim, p.first);
    if (d.empty()) return file(d, r.chance(0.5) ? "svm" : "bin", passes);
    int k = r.below(10); if (k < 6) return csr(d, passes); if (k < 7 && dim < 200) return numpy(d, passes);
    return file(d, k == 7 ? "svm" : "bin", passes);
  }
};
inline Cfg gen_cfg(Rng& r, const std::vector<S>& algos);
// parameters arrive in any order, and some are set to something else first: the last setting counts
inline void* make_model(const Cfg& c, S* why = nullptr) {
  void* m = sol_CreateModel(c.algo.c_str(), c.classes); if (!m) { if (why) *why = "cannot create"; return nullptr; }
  Rng q(hash_str(c.str()) ^ 0x5e77); std::vector<std::pair<S, S>> o; for (auto& kv : c.p) if (kv.first != "loss") o.push_back(kv);
  if (q.chance(0.5)) for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[q.below(i)]);
  if (q.chance(0.25)) { Cfg d = gen_cfg(q, {c.algo}); std::vector<std::pair<S, S>> e; for (auto& kv : d.p) if (kv.first != "loss" && c.p.count(kv.first)) e.push_back(kv); o.insert(o.begin(), e.begin(), e.end()); if (!e.empty()) count("set_twice"); }
  if (c.p.count("loss")) o.insert(o.begin() + (c.p.count("cost_margin") || q.chance(0.5) ? 0 : q.below(o.size() + 1)), *c.p.find("loss"));
  for (auto& kv : o) if (sol_SetModelParameter(m, kv.first.c_str(), kv.second.c_str())) { if (why) *why = kv.first + "=" + kv.second + " refused"; sol_ReleaseModel(&m); return nullptr; }
  return m;
}
inline std::vector<Pred> predict(void* m, const Data& d, int bs = 16) { Feed f(bs, 2); std::vector<Pred> v; if (!d.empty()) f.csr(d); int n = sol_Predict(m, f.it, pred_cb, &v); if (n != int(v.size())) viol("predict.returned", fmt("predicting %zu examples reports %zu and returns %d", d.size(), v.size(), n)); return v; }
// weights as visible through prediction: [class][0..dim]
inline std::vector<std::vector<double>> weights(void* m, int K, uint32_t dim) {
  Data d; for (uint32_t j = 0; j <= dim; ++j) { Ex e; e.label = 0; if (j) e.f.push_back(std::make_pair(j, 1.f)); d.push_back(e); }
  std::vector<Pred> p = predict(m, d); std::vector<std::vector<double>> w(K);
  if (p.size() != d.size()) return w;
  for (int k = 0; k < K; ++k) for (uint32_t j = 0; j <= dim; ++j) { if (int(p[j].s.size()) != K) { w.clear(); return w; } w[k].push_back(j ? double(p[j].s[k]) - double(p[0].s[k]) : double(p[0].s[k])); }
  return w;
}
// the same through testing with an output file; the scores there have six digits
inline std::vector<Pred> test_lines(void* m, const Data& t, int bs, int nb, float& err) {
  S out = tmpf("lines.out"); { Feed f(bs, nb); f.csr(t); err = sol_Test(m, f.it, out.c_str()); } S x = read_file(out); unlink(out.c_str()); std::vector<Pred> v; size_t a = x.find('\n'); if (a == S::npos) return v; ++a;
  for (size_t b; (b = x.find('\n', a)) != S::npos; a = b + 1) { S l = x.substr(a, b - a); char* e; Pred q; q.label = int(strtol(l.c_str(), &e, 10)); q.pred = int(strtol(e, &e, 10)); while (*e) { char* e0 = e; float f = strtof(e, &e); if (e == e0) break; q.s.push_back(f); } v.push_back(q); }
  return v;
}
inline void param_cb(void* ctx, const char* n, const char* v) { (*(std::map<S, S>*)ctx)[n] = v; }
inline std::map<S, S> params(void* m) { std::map<S, S> r; sol_GetModelParameters(m, param_cb, &r); return r; }

static const std::vector<S> kFirst = {"perceptron", "ogd", "pa", "pa1", "pa2", "alma2"};
static const std::vector<S> kSecond = {"sop", "cw", "eccw", "arow", "rda", "ada-fobos", "ada-rda"};
static const std::vector<S> kL1 = {"stg", "fobos-l1", "rda-l1", "erda-l1", "ada-fobos-l1", "ada-rda-l1"};
static const std::vector<S> kOfs = {"pet", "fofs", "sofs", "adafobos-ofs", "adarda-ofs"};
inline std::vector<S> all_algos() { std::vector<S> v = kFirst; v.insert(v.end(), kSecond.begin(), kSecond.end()); v.insert(v.end(), kL1.begin(), kL1.end()); v.insert(v.end(), kOfs.begin(), kOfs.end()); return v; }
inline bool one_of(const S& a, const std::vector<S>& v) { return std::find(v.begin(), v.end(), a) != v.end(); }

inline S loss_kind(Rng& r, const S& a) {
  if (a == "perceptron" || a == "sop") return "bool";
  if (a == "cw" || a == "eccw" || a == "alma2" || a == "arow" || a == "sofs") return "hinge";
  int k = r.below(10); return k < 6 ? "hinge" : k < 8 ? "logistic" : "bool";
}
inline S pick(Rng& r, std::initializer_list<const char*> l) { std::vector<S> v(l.begin(), l.end()); return v[r.below(v.size())]; }
inline void vary(Rng& r, Cfg& c);
// a random valid configuration
inline Cfg gen_cfg(Rng& r, const std::vector<S>& algos) {
  Cfg c; c.algo = r.pick(algos); c.classes = r.chance(0.5) ? 2 : r.range(3, 5); const S& a = c.algo;
  if (r.chance(0.6)) { S k = loss_kind(r, a); c.loss = c.classes == 2 ? k : (r.chance(0.5) ? "maxscore-" : "uniform-") + k; c.p["loss"] = c.loss; }
  if (r.chance(0.6)) c.p["bias_eta"] = pick(r, {"0", "0.1", "0.5", "1", "2"});
  if (r.chance(0.2)) c.p["lazy_update"] = pick(r, {"true", "false"});
  if (Ref::in(a, " ogd stg fobos-l1 pet ")) { if (r.chance(0.7)) c.p["eta"] = pick(r, {"0.1", "0.5", "1", "2.5"}); if (r.chance(0.6)) c.p["power_t"] = pick(r, {"0", "0.5", "1", "0.3", "2"}); if (r.chance(0.15)) c.p["t"] = pick(r, {"0", "1", "10", "1000"}); }
  if (Ref::in(a, " ada-fobos ada-fobos-l1 adafobos-ofs ada-rda ada-rda-l1 adarda-ofs ")) { if (r.chance(0.6)) c.p["eta"] = pick(r, {"0.1", "0.5", "1", "3"}); if (r.chance(0.6)) c.p["delta"] = pick(r, {"0.1", "1", "10", "0.5"}); }
  if (a == "pa1" || a == "pa2") { if (r.chance(0.7)) c.p["C"] = pick(r, {"0.05", "0.3", "1", "10"}); }
  if (a == "alma2") { if (r.chance(0.5)) c.p["alpha"] = pick(r, {"0.5", "0.9", "1", "0.2"}); if (r.chance(0.4)) c.p["C"] = pick(r, {"0.5", "1", "2"}); if (r.chance(0.2)) c.p["k"] = pick(r, {"1", "3", "10"}); if (r.chance(0.15)) c.p["p"] = pick(r, {"2", "3", "5"}); }
  if (a == "sop") { if (r.chance(0.6)) c.p["a"] = pick(r, {"0.1", "1", "5"}); }
  if (a == "cw" || a == "eccw") { if (r.chance(0.5)) c.p["a"] = pick(r, {"0.2", "1", "3"}); if (r.chance(0.5)) c.p["phi"] = pick(r, {"0.1", "0.5244", "1.2"}); }
  if (a == "arow" || a == "sofs") { if (r.chance(0.6)) c.p["r"] = pick(r, {"0.1", "1", "5"}); }
  if (Ref::in(a, " rda rda-l1 erda-l1 ")) { if (r.chance(0.6)) c.p["sigma"] = pick(r, {"0.1", "1", "4"}); }
  if (a == "erda-l1" && r.chance(0.6)) c.p["rou"] = pick(r, {"0", "0.01", "0.1"});
  if (Ref::in(a, " stg fobos-l1 rda-l1 erda-l1 ada-fobos-l1 ada-rda-l1 ")) { if (r.chance(0.85)) c.p["lambda"] = pick(r, {"0", "0.001", "0.005", "0.01", "0.03", "0.1"}); if (r.chance(0.2)) c.p["sparse_thresh"] = pick(r, {"0", "0.0001", "0.01", "0.1"}); }
  if (a == "stg" && r.chance(0.6)) c.p["k"] = pick(r, {"1", "2", "3", "7", "10"});
  if (Ref::in(a, " pet fofs sofs adafobos-ofs adarda-ofs ")) c.p["B"] = fmt("%d", r.chance(0.1) ? 0 : r.chance(0.15) ? r.range(20, 60) : r.range(1, 10));
  if (a == "fofs") { if (r.chance(0.7)) c.p["lambda"] = pick(r, {"0.01", "0.1", "0.5", "1"}); if (r.chance(0.7)) c.p["eta"] = pick(r, {"0.1", "0.5", "1"}); }
  if (r.chance(0.15)) c.p["norm"] = a == "alma2" ? S("L2") : pick(r, {"L1", "L2", "None"});
  S k = c.has("loss") ? c.loss : S(a == "perceptron" || a == "sop" ? "bool" : "hinge");
  if (c.classes == 2 && k == "hinge" && !Ref::in(a, " cw eccw alma2 ") && r.chance(0.12)) c.p["cost_margin"] = pick(r, {"0.5", "2", "5"});
  if (r.chance(0.08)) c.p["active_smoothness"] = pick(r, {"1e30", "1e-25", "0.5", "1", "5"});
  if (r.chance(0.5)) vary(r, c);
  return c;
}
// now and then a value off the beaten lists
inline void vary(Rng& r, Cfg& c) {
  static const std::map<S, std::pair<double, double>> R = {{"bias_eta", {0.01, 4}}, {"eta", {0.02, 6}}, {"power_t", {0, 2}}, {"delta", {0.05, 40}}, {"C", {0.02, 30}}, {"a", {0.05, 10}}, {"phi", {0.05, 3}}, {"r", {0.05, 20}}, {"sigma", {0.05, 10}}, {"rou", {0, 0.3}}, {"lambda", {0, 0.3}}, {"cost_margin", {0.1, 12}}};
  for (auto& kv : c.p) { auto it = R.find(kv.first); if (it != R.end() && !(c.algo == "alma2" && kv.first == "C") && r.chance(0.3)) kv.second = fmt("%.3g", r.uni(it->second.first, it->second.second)); }
  if (c.algo == "stg" && c.has("k") && r.chance(0.2)) c.p["k"] = fmt("%d", r.range(1, 70));
}
// the size of a stream; some are large in one respect
struct Shape { int rows; uint32_t dim; int maxfeat; int kind; };
inline Shape gen_shape(Rng& r, Cfg& c, Shape small, double pbig = 0.02) {
  small.kind = 0; if (!r.chance(pbig)) return small; int k = r.range(1, 5); if (k == 1 && c.classes == 2) { c.p.erase("loss"); c.loss.clear(); c.p.erase("cost_margin"); } Shape s = small; s.kind = k; bool ofs = one_of(c.algo, kOfs); static const char* N[] = {"", "classes", "features", "indexes", "steps", "budget"};
  if (k == 5 && !ofs) k = s.kind = r.range(2, 4);
  if (k == 1) { c.classes = r.chance(0.5) ? r.range(6, 40) : r.range(40, 300); s.rows = r.range(50, 200); s.dim = r.range(3, 40); s.maxfeat = 8; }
  else if (k == 2) { s.rows = r.range(3, 20); s.maxfeat = r.chance(0.7) ? r.range(100, 1500) : r.range(1500, 6000); s.dim = s.maxfeat * r.range(1, 3); }
  else if (k == 3) { s.rows = r.range(3, 30); s.dim = r.range(3000, c.classes == 2 ? 150000 : 40000); s.maxfeat = r.range(1, 20); if (r.chance(0.3)) s.dim = (1u << r.range(10, c.classes == 2 ? 17 : 15)) + r.range(-1, 1); }
  else if (k == 4) { s.rows = r.range(600, 6000); s.dim = r.chance(0.5) ? r.range(2, 30) : r.range(30, 3000); s.maxfeat = r.range(1, 8); }
  else { s.rows = r.range(20, 60); s.dim = r.range(200, 3000); s.maxfeat = r.range(20, 200); c.p["B"] = fmt("%d", r.range(20, 1500)); }
  if (k == 3 && ofs) s.dim = 1 + s.dim / 8; if (k == 4 && ofs) { s.rows = 200 + s.rows / 5; s.dim = 2 + s.dim / 15; } if (k == 4 && s.dim > 300) s.rows = 600 + s.rows / 4;
  count(S("large.") + N[k]); return s;
}
// continuous values: no accidental ties
inline Data gen_cont(Rng& r, int rows, uint32_t dim, int maxfeat, int classes, double empty, bool badlabels = false) {
  Data d; std::vector<std::vector<double>> tw(classes, std::vector<double>(dim + 1)); for (auto& v : tw) for (auto& x : v) x = r.gauss();
  double noise = r.pick(std::vector<double>{0, 0.1, 0.5, 1}); double scale = r.pick(std::vector<double>{1, 1, 1, 0.3, 4});
  for (int i = 0; i < rows; ++i) {
    Ex e; int n = r.chance(empty) ? 0 : r.range(1, maxfeat); std::set<uint32_t> ix;
    uint32_t lim = r.chance(0.5) ? dim : std::max<uint32_t>(1, uint32_t(uint64_t(dim) * (i + 1) / rows));   // some features appear late
    for (int k = 0; k < n; ++k) ix.insert(1 + r.below(r.chance(0.5) ? std::min<uint32_t>(lim, 5) : lim));
    std::vector<double> sc(classes, 0);
    for (uint32_t j : ix) { double v = r.uni(0.06, 1) * (r.chance(0.5) ? 1 : -1) * scale; e.f.push_back(std::make_pair(j, float(v))); for (int c = 0; c < classes; ++c) sc[c] += v * tw[c][j]; }
    int lab = int(std::max_element(sc.begin(), sc.end()) - sc.begin()); if (r.chance(noise)) lab = r.below(classes);
    if (classes == 2) e.label = lab ? 1 : r.chance(0.1) ? (r.chance(0.5) ? 0 : 2) : -1; else e.label = lab;
    if (badlabels && classes > 2 && r.chance(0.05)) e.label = r.chance(0.5) ? -1 : classes + int(r.below(3));
    d.push_back(e);
  }
  return d;
}
}  // namespace hv
#endif

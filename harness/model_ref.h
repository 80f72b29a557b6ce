// Independent double-precision reference of every online learner, advanced one
// example at a time next to the trace of the real one.
#ifndef VERIF_MODEL_REF_H
#define VERIF_MODEL_REF_H
#include "h.h"
namespace hv {
struct Cfg {
  S algo, loss; int classes = 2; std::map<S, S> p;  // parameters as given to the library
  double num(const S& k, double def) const { auto it = p.find(k); return it == p.end() ? def : atof(it->second.c_str()); }
  bool has(const S& k) const { return p.count(k) > 0; }
  S str() const { S s = algo + fmt("/%d", classes); for (auto& kv : p) s += " " + kv.first + "=" + kv.second; return s; }
};
// what the progress callback showed for one example
struct Seen { bool err = false, upd = false, queried = true; };

struct Ref {
  typedef std::vector<double> V;
  Cfg c; int K; S loss; double be, eta0, eta, power_t, lambda, margin1, cost, sparse_thresh;
  std::vector<V> w, S_, u, pk; V X, last; V g; std::vector<uint64_t> hist;
  long t, t0, n = 0, err = 0, upd = 0; int ka = 1; bool lazy, fresh = false; S norm;
  double active; size_t dim = 1;
  std::set<size_t> touched;  // features an update ever involved
  V sc; double dm = 0;   // scores and distance to the decision of the last step
  S stop;      // the reference cannot follow any further (a decision within rounding)
  S bad;       // the observed decision contradicts the reference
  double qsum = 0, psum = 0, pvar = 0; long followed = 0, steps = 0;
  int B = 0; double initS;
  // the twin runs with rounding-sized noise: where it drifts away the computation itself is unstable
  bool noisy = false; double amp = 2e-7; Rng rng{12345}; double nz(double v) { return noisy ? v * (1 + amp * (2 * rng.uni() - 1)) : v; }
  void jitter(const Ex& x) { if (!noisy) return; for (int k = 0; k < K; ++k) { auto one = [&](size_t i) { w[k][i] = nz(w[k][i]); S_[k][i] = nz(S_[k][i]); u[k][i] = nz(u[k][i]); }; one(0); for (auto& f : x.f) one(f.first); } }

  static bool in(const S& a, const char* list) { return S(list).find(" " + a + " ") != S::npos; }
  bool is(const char* list) const { return in(c.algo, list); }
  explicit Ref(const Cfg& cfg) : c(cfg), K(cfg.classes == 2 ? 1 : cfg.classes) {
    S base = is(" perceptron sop ") ? "bool" : "hinge";
    loss = c.has("loss") ? c.p["loss"] : (K == 1 ? base : "maxscore-" + base);
    be = c.num("bias_eta", 0); eta0 = c.num("eta", 1); eta = is(" ogd stg fobos-l1 pet ") ? 1 : eta0; power_t = c.num("power_t", 0.5);
    lambda = c.num("lambda", 0); margin1 = 1; cost = c.num("cost_margin", 0); sparse_thresh = c.num("sparse_thresh", 1e-6);
    t0 = t = long(c.num("t", 0)); lazy = c.has("lazy_update") && c.p["lazy_update"] == "true"; active = c.num("active_smoothness", 0);
    norm = c.has("norm") ? c.p["norm"] : S(c.algo == "alma2" ? "L2" : "None");
    ka = int(c.num("k", 1)); B = int(c.num("B", 0));
    initS = is(" cw eccw ") ? c.num("a", 1) : is(" arow sofs ") ? 1 : is(" ada-fobos ada-fobos-l1 ada-rda ada-rda-l1 adafobos-ofs adarda-ofs ") ? c.num("delta", 10) : 0;
    w.resize(K); S_.resize(K); u.resize(K); pk.resize(K); hist.assign(K, 1); g.assign(K, 0); grow(1);
  }
  void grow(size_t d) {
    d = std::max(d, dim); for (int k = 0; k < K; ++k) { w[k].resize(d, 0); S_[k].resize(d, initS); u[k].resize(d, 0); pk[k].resize(d, 0); }
    X.resize(d, 0); last.resize(d, double(t0)); dim = d;
  }
  // a parameter is changed between training calls
  void set(const S& name, const S& v) { c.p[name] = v; double d = c.num(name.c_str(), 0); if (name == "bias_eta") be = d; else if (name == "eta") { eta0 = d; if (!is(" ogd stg fobos-l1 pet ")) eta = d; } else if (name == "power_t") power_t = d; else if (name == "lambda") lambda = d; else if (name == "k") ka = int(d); else if (name == "sparse_thresh") sparse_thresh = d; else if (name == "loss") { loss = v; c.loss = v; } else if (name == "lazy_update") lazy = v == "true"; else if (name == "norm") norm = v; else if (name == "cost_margin") cost = d; }
  static double trunc(double v, double a) { if (v > 0) return std::max(0.0, v - a); return std::min(0.0, v + a); }
  // shrink one weight; far below the threshold the result is zero in any precision
  void shrink(int k, size_t i, double a) { double v = w[k][i]; w[k][i] = trunc(v, a); if (w[k][i] == 0 && std::fabs(v) < 0.999 * a) pk[k][i] = 0; }
  void peaks(const Ex& x) { for (int k = 0; k < K; ++k) { pk[k][0] = std::max(pk[k][0], std::fabs(w[k][0])); for (auto& f : x.f) pk[k][f.first] = std::max(pk[k][f.first], std::fabs(w[k][f.first])); } }
  double beta() const { return be * eta; }
  int fix_label(int l) const { return K == 1 ? (l == 1 ? 1 : -1) : l; }
  Ex prep(const Ex& e) const {
    Ex o = e; o.label = fix_label(e.label); double s = 0;
    if (norm == "L1") { for (auto& f : o.f) s += std::fabs(double(f.second)); }
    if (norm == "L2") { for (auto& f : o.f) s += double(f.second) * f.second; s = std::sqrt(s); }
    if (s > 0) for (auto& f : o.f) f.second = float(f.second / s);
    return o;
  }
  // the two classes score exactly the same on x in any precision: same history of updates, or nothing learned on x
  bool same_on(int a, int b, const Ex& x) const {
    if (hist[a] == hist[b]) return true;
    if (pk[a][0] != 0 || pk[b][0] != 0) return false; for (auto& f : x.f) if (pk[a][f.first] != 0 || pk[b][f.first] != 0) return false; return true;
  }
  void score(const Ex& x, V& s, V& e) const {
    s.assign(K, 0); e.assign(K, 0);
    for (int k = 0; k < K; ++k) { s[k] = w[k][0]; e[k] = std::fabs(w[k][0]) + 0.03 * pk[k][0];
      for (auto& f : x.f) { if (f.first >= dim) continue; double p = w[k][f.first] * f.second; s[k] += p; e[k] += std::fabs(p) + 0.03 * std::fabs(pk[k][f.first] * f.second); } e[k] *= 1e-4; }
  }
  void before(const Ex& x) {  // TrainPredict's part on the weights
    if (c.algo == "stg") {
      for (auto& f : x.f) { size_t i = f.first; if (!i) continue; long st = long((t - 1) - last[i]); st -= st % ka; if (st <= 0) continue;
        for (int k = 0; k < K; ++k) shrink(k, i, st * eta * lambda); last[i] += st; }
      for (int k = 0; k < K; ++k) shrink(k, 0, (t - 1 - last[0]) * lambda * beta()); last[0] = t - 1;
    } else if (is(" fobos-l1 ada-fobos-l1 ")) {
      bool ada = c.algo[0] == 'a';
      for (int k = 0; k < K; ++k) {
        for (auto& f : x.f) { size_t i = f.first; if (i) shrink(k, i, eta * lambda * (t - 1 - last[i]) / (ada ? S_[k][i] : 1)); }
        shrink(k, 0, beta() * lambda * (t - 1 - last[0]) / (ada ? S_[k][0] : 1)); }
      for (auto& f : x.f) last[f.first] = t - 1; last[0] = t - 1;
    } else if (is(" rda rda-l1 erda-l1 ")) {
      for (int k = 0; k < K; ++k) dual(k, &x, double(t - 1));
    } else if (c.algo == "ada-rda-l1") {
      for (int k = 0; k < K; ++k) dual(k, &x, double(t));
    } else if (c.algo == "sop") {
      for (int k = 0; k < K; ++k) { for (size_t i = 0; i < dim; ++i) w[k][i] = u[k][i] / (a() + X[i]);
        for (auto& f : x.f) w[k][f.first] = u[k][f.first] / (a() + X[f.first] + double(f.second) * f.second); w[k][0] = u[k][0] / (a() + X[0]); }
    }
  }
  double a() const { return c.num("a", 1); }
  // weights of the dual averaging learners at time tt, of x's features or of all
  void dual(int k, const Ex* x, double tt) {
    auto one = [&](size_t i) {
      double v = u[k][i], sc = i ? 1 : be, th = 0;
      if (is(" rda rda-l1 erda-l1 ")) {
        double sg = c.num("sigma", 1);
        if (tt < 0.5) { w[k][i] = 0; if (v != 0) stop = "dual averaging at time zero"; return; }
        if (c.algo == "rda") w[k][i] = -sc * v / (tt * sg);
        else if (c.algo == "rda-l1") w[k][i] = -sc * trunc(v, th = lambda * tt) / (tt * sg);
        else w[k][i] = -sc * trunc(v, th = lambda * tt + sg * c.num("rou", 0) * std::sqrt(tt)) / (std::sqrt(tt) * sg);
      } else w[k][i] = -sc * eta * trunc(v, th = c.algo == "ada-rda-l1" ? lambda * tt : 0) / S_[k][i];
      if (w[k][i] == 0 && (std::fabs(v) < 0.999 * th || sc == 0)) pk[k][i] = 0;
      else if (th > 0 && std::fabs(v) < 1.01 * th) pk[k][i] = std::max(pk[k][i], 1e-2 * sc * std::fabs(v) * (is(" ada-rda-l1 ") ? eta / S_[k][i] : 1 / c.num("sigma", 1)));
    };
    if (x) { for (auto& f : x->f) if (f.first) one(f.first); one(0); } else for (size_t i = 0; i < dim; ++i) one(i);
  }
  void finish() {  // EndTrain
    if (!fresh) return; fresh = false; double T = double(t);
    for (int k = 0; k < K; ++k) {
      if (is(" stg fobos-l1 ada-fobos-l1 ")) {
        bool ada = c.algo[0] == 'a';
        for (size_t i = 0; i < dim; ++i) shrink(k, i, (i ? eta : beta()) * lambda * (T - last[i]) / (ada ? S_[k][i] : 1));
      } else if (is(" rda rda-l1 erda-l1 ada-rda ada-rda-l1 adarda-ofs ")) dual(k, nullptr, T);
      else if (c.algo == "sop") for (size_t i = 0; i < dim; ++i) w[k][i] = u[k][i] / (a() + X[i]);
    }
    if (is(" stg fobos-l1 ada-fobos-l1 ")) for (auto& l : last) l = T;
    if (c.algo == "adarda-ofs") select();
    if (is(" stg fobos-l1 rda-l1 erda-l1 ada-fobos-l1 ada-rda-l1 "))
      for (int k = 0; k < K; ++k) for (auto& v : w[k]) { if (v != 0 && std::fabs(std::fabs(v) - sparse_thresh) < 1e-3 * sparse_thresh) stop = "weight at the sparsity threshold"; if (std::fabs(v) < sparse_thresh) v = 0; }
    if (maxw() > 1e15) stop = "diverged";
  }
  // keep the B best-ranked features
  std::vector<char> kept;
  void select() {
    kept.assign(dim, 1); if (B <= 0 || size_t(B) >= dim - 1) return;
    std::vector<std::pair<double, size_t>> r; double tol;
    for (size_t i = 1; i < dim; ++i) { double v = 0;
      for (int k = 0; k < K; ++k) v += is(" pet fofs ") ? std::fabs(w[k][i]) : is(" sofs ") ? -S_[k][i] : S_[k][i];
      r.push_back(std::make_pair(v, i)); }
    std::sort(r.begin(), r.end(), [](const std::pair<double, size_t>& x, const std::pair<double, size_t>& y) { return x.first > y.first; });
    double lo = r[B - 1].first, hi = r[B].first, base = is(" sofs ") ? -K : is(" adafobos-ofs adarda-ofs ") ? K * c.num("delta", 10) : 0;
    tol = is(" pet fofs ") ? 1e-3 * std::fabs(lo) : is(" sofs ") ? 1e-4 * K : 2e-5 * K * c.num("delta", 10) + 1e-3 * std::fabs(lo - base);
    // untouched features (still at their initial rank) carry no weight, ties among them do not matter
    if (hi != base && lo - hi <= tol) stop = "tie at the selection budget";
    if (hi == base && lo != base && lo - hi <= tol) stop = "tie at the selection budget";
    for (size_t q = B; q < r.size(); ++q) { kept[r[q].second] = 0; for (int k = 0; k < K; ++k) w[k][r[q].second] = pk[k][r[q].second] = 0; }
  }
  double margin_of(const Ex& x, const V& gg, double& Vt) const {
    if (is(" cw eccw ")) { Vt = 0;
      for (int k = 0; k < K; ++k) { if (gg[k] == 0) continue; double q = 0; for (auto& f : x.f) q += S_[k][f.first] * double(f.second) * f.second; if (be != 0) q += S_[k][0]; Vt += q * gg[k] * gg[k]; }
      return c.num("phi", 0.5244) * Vt; }
    if (c.algo == "alma2") { double al = c.num("alpha", 0.9); return (1 - al) / al * std::sqrt(c.num("p", 2) - 1) / std::sqrt(double(ka)); }
    if (cost > 0) return x.label == 1 ? cost : 1.0;
    return 1;
  }
  // one training example; `seen` resolves decisions that fall within rounding
  void step(const Ex& raw, const Seen& seen) {
    Ex x = prep(raw); int y = x.label;
    for (auto& f : x.f) grow(f.first + 1);
    ++t; ++n; ++steps; fresh = true; before(x); if (!stop.empty()) return; peaks(x);
    V s, e; score(x, s, e); sc = s;
    int pred;
    if (K == 1) {
      pred = s[0] >= 0 ? 1 : -1; if (e[0] > 0 && std::fabs(s[0]) <= e[0]) { pred = seen.err ? -y : y; ++followed; }
    } else {
      pred = int(std::max_element(s.begin(), s.end()) - s.begin()); std::vector<int> cand;
      for (int k = 0; k < K; ++k) if (k == pred || (!same_on(k, pred, x) && s[pred] - s[k] <= e[k] + e[pred])) cand.push_back(k);
      if (cand.size() > 1) { ++followed;
        if (!seen.err) { if (std::count(cand.begin(), cand.end(), y)) pred = y; }
        else { cand.erase(std::remove(cand.begin(), cand.end(), y), cand.end()); if (cand.size() != 1) { stop = "score tie"; return; } pred = cand[0]; } }
    }
    if ((pred != y) != seen.err) { dm = K == 1 ? std::fabs(s[0]) : (pred != y ? s[pred] - s[y] : 1e300); if (K > 1 && pred == y) for (int k = 0; k < K; ++k) if (k != y) dm = std::min(dm, s[y] - s[k]); S scs; for (int k = 0; k < K; ++k) scs += fmt(" %.6g+-%.2g", s[k], e[k]); bad = fmt("mistake: example %ld (label %d) is predicted %d, but was counted as %s; scores", n, y, pred, seen.err ? "a mistake" : "correct") + scs; return; }
    if (pred != y) ++err;
    if (active > 0) {
      double mg; if (K == 1) mg = std::fabs(s[0]); else { double o = -1e300; for (int k = 0; k < K; ++k) if (k != pred) o = std::max(o, s[k]); mg = s[pred] - o; }
      double pr = active / (active + std::max(0.0, mg)), me = K == 1 ? e[0] : *std::max_element(e.begin(), e.end());
      bool must = pr > 1 - 1e-9, mustnot = pr < 1e-12 && mg > me;
      if (must && !seen.queried && mg == 0) { bad = fmt("active: example %ld has margin 0 and was not queried", n); return; }
      if (pr >= 1 - 1e-15 && !seen.queried) { bad = fmt("active: example %ld with query probability 1 was not queried", n); return; }
      if (mustnot && seen.queried) { bad = fmt("active: example %ld with query probability %g was queried", n, pr); return; }
      qsum += seen.queried; psum += pr; pvar += pr * (1 - pr);
      if (!seen.queried) { --t; if (seen.upd) bad = fmt("active: example %ld was not queried but counted as an update", n); return; }
    } else if (!seen.queried) { bad = fmt("iteration: example %ld did not count as an iteration", n); return; }
    // loss and gradient
    double ls = 0, Vt = 0; std::fill(g.begin(), g.end(), 0.0); bool amb = false;
    S kind = loss.substr(loss.find('-') == S::npos ? 0 : loss.find('-') + 1);
    if (K == 1) {
      if (kind == "hinge") { V gg(1, 1.0); double m = margin_of(x, gg, Vt); ls = m - s[0] * y; double tol = e[0] + 1e-4 * m; amb = tol > 0 && std::fabs(ls) <= tol; if (amb && !lazy && ls <= 0 && seen.upd) ls = noisy ? 10 * amp * (m + std::fabs(m - ls)) : 1e-30; else if (amb && noisy && ls > 0) ls += 10 * amp * (m + std::fabs(m - ls)); if (amb && !lazy && ls > 0 && !seen.upd) ls = 0;
        if (ls > 0) g[0] = -y; else ls = 0; }
      else if (kind == "logistic") { double z = -s[0] * y; ls = z > 30 ? z : std::log1p(std::exp(z)); g[0] = -y / (1 + std::exp(-z)); amb = z < -10; if (amb && !seen.upd && !lazy) { ls = 0; g[0] = 0; } }
      else { ls = pred != y; g[0] = ls ? -y : 0; }
    } else if (kind == "bool") {
      ls = pred != y;
      if (ls && loss[0] == 'm') { g[pred] = 1; g[y] = -1; }
      else if (ls) { int nv = 0; for (int k = 0; k < K; ++k) { if (k == y) continue; bool sm = same_on(k, y, x); if (!sm && std::fabs(s[k] - s[y]) <= e[k] + e[y]) { stop = "score tie"; return; } if (sm || s[k] >= s[y]) { g[k] = 1; ++nv; } }
        if (!nv) { stop = "score tie"; return; } for (auto& v : g) v /= nv; g[y] = -1; }
    } else {
      double z; V gg(K, 0.0); bool none = false, lab_amb = false;
      if (loss[0] == 'm') { int r = pred; if (pred == y) { r = -1; for (int k = 0; k < K; ++k) if (k != y && (r < 0 || s[k] > s[r])) r = k; }
        for (int k = 0; k < K; ++k) if (k != y && k != r && !same_on(k, r, x) && std::fabs(s[k] - s[r]) <= e[k] + e[r]) { stop = "score tie"; return; }
        z = s[r] - s[y]; gg[r] = 1; gg[y] = -1; lab_amb = false;
      } else { int nv = 0; double sum = 0;
        for (int k = 0; k < K; ++k) { if (k == y) continue; bool sm = same_on(k, y, x); if (!sm && std::fabs(s[k] - s[y]) <= e[k] + e[y]) { stop = "score tie"; return; } if (sm || s[k] >= s[y]) { gg[k] = 1; ++nv; sum += s[k]; } }
        if (!nv) { none = true; z = 0; } else { for (auto& v : gg) v /= nv; z = sum / nv - s[y]; } gg[y] = -1; }
      double ee = *std::max_element(e.begin(), e.end()) * 2;
      if (none) ls = 0;
      else if (kind == "hinge") { double m = margin_of(x, gg, Vt); ls = m + z; amb = ee + m > 0 && std::fabs(ls) <= ee + 1e-4 * m; if (amb && !lazy && ls <= 0 && seen.upd) ls = noisy ? 10 * amp * (m + std::fabs(m - ls)) : 1e-30; else if (amb && noisy && ls > 0) ls += 10 * amp * (m + std::fabs(m - ls)); if (amb && !lazy && ls > 0 && !seen.upd) ls = 0; if (ls > 0) g = gg; else ls = 0; }
      else { ls = z > 30 ? z : std::log1p(std::exp(z)); double al = 1 / (1 + std::exp(-z)); for (int k = 0; k < K; ++k) g[k] = gg[k] * al; amb = z < -10; if (amb && !seen.upd && !lazy) { ls = 0; for (auto& v : g) v = 0; } }
      (void)lab_amb;
    }
    bool doupd = lazy ? pred != y : ls > 0;
    if (amb && !lazy) ++followed;
    if (doupd != seen.upd && !(amb && !lazy)) { dm = std::fabs(ls); if (ls == 0) { V g1(K, 0.0); dm = 1e-3; } bad = fmt("update: example %ld (label %d, predicted %d, loss %g) %s, but the trace says %s", n, y, pred, ls, doupd ? "calls for an update" : "needs no update", seen.upd ? "updated" : "not updated"); return; }
    if (amb && lazy && doupd) { stop = "margin within rounding"; return; }
    if (doupd) { for (auto& f : x.f) touched.insert(f.first); ++upd; update(x, nz(ls) + (noisy && kind == "logistic" ? 0.6 * amp * (2 * rng.uni() - 1) : 0), nz(Vt)); jitter(x); peaks(x); for (int k = 0; k < K; ++k) hist[k] = hash_bytes(&g[k], 8, mix(hist[k])); if (maxw() > 1e15 || exhausted(x)) stop = "diverged"; }
    if (is(" fobos-l1 ada-fobos-l1 ")) { for (auto& f : x.f) last[f.first] = t - 1; last[0] = t - 1; }
  }
  void add(int k, const Ex& x, double f) { for (auto& p : x.f) w[k][p.first] += f * p.second; }
  void update(const Ex& x, double ls, double Vt) {
    double n2 = 0; for (auto& f : x.f) n2 += double(f.second) * f.second; double kk = K == 1 ? 1 : 2;
    if (is(" perceptron ")) { eta = 1; for (int k = 0; k < K; ++k) { add(k, x, -g[k]); w[k][0] -= be * g[k]; } }
    else if (is(" ogd stg fobos-l1 pet pa pa1 pa2 ")) {
      double C = c.num("C", 1);
      if (is(" ogd stg fobos-l1 pet ")) eta = eta0 / std::pow(double(t), power_t);
      else if (c.algo == "pa") eta = n2 > 0 ? ls / (kk * n2) : 0;
      else if (c.algo == "pa1") eta = n2 > 0 ? std::min(C, ls / (kk * n2)) : C;
      else eta = ls / (kk * n2 + 0.5 / C);
      for (int k = 0; k < K; ++k) { add(k, x, -eta * g[k]); w[k][0] -= beta() * g[k]; }
      if (c.algo == "pet") select();
    } else if (c.algo == "alma2") {
      double sp = std::sqrt(c.num("p", 2) - 1); eta = c.num("C", std::sqrt(2.0)) / (sp * std::sqrt(double(ka)));
      for (int k = 0; k < K; ++k) { if (g[k] == 0) continue; add(k, x, -eta * g[k]); w[k][0] -= beta() * g[k]; double nn = 0; for (double v : w[k]) nn += v * v; nn = std::sqrt(nn); if (nn > 1) for (auto& v : w[k]) v /= nn; }
      ++ka;
    } else if (is(" rda rda-l1 erda-l1 ")) { for (int k = 0; k < K; ++k) { for (auto& f : x.f) u[k][f.first] += g[k] * f.second; u[k][0] += g[k]; } }
    else if (c.algo == "sop") { for (int k = 0; k < K; ++k) { for (auto& f : x.f) u[k][f.first] -= g[k] * f.second; u[k][0] -= be * g[k]; } for (auto& f : x.f) X[f.first] += double(f.second) * f.second; }
    else if (is(" cw eccw ")) {
      if (Vt <= 0) return; double phi = c.num("phi", 0.5244), M = nz(phi * Vt) - ls, al, co;
      if (c.algo == "cw") { double q = nz(1 + 2 * phi * M); al = (-q + nz(std::sqrt(nz(q * q) - nz(8 * phi * (M - nz(phi * Vt)))))) / (4 * phi * Vt); co = 2 * al * phi; }
      else { double psi = 1 + phi * phi / 2, xi = 1 + phi * phi; al = (-nz(M * psi) + nz(std::sqrt(nz(M * M * phi * phi * phi * phi / 4) + Vt * phi * phi * xi))) / (Vt * xi);
        double su = 0.5 * (-nz(al * Vt * phi) + nz(std::sqrt(al * al * Vt * Vt * phi * phi + 4 * Vt))); co = al * phi * su; }
      eta = al;
      for (int k = 0; k < K; ++k) { if (g[k] == 0) continue;
        for (auto& f : x.f) { double xv = f.second; w[k][f.first] -= al * g[k] * S_[k][f.first] * xv; S_[k][f.first] /= 1 + co * S_[k][f.first] * xv * xv; }
        w[k][0] -= beta() * g[k] * S_[k][0]; S_[k][0] /= 1 + co * S_[k][0]; }
    } else if (is(" arow sofs ")) {
      double r = c.num("r", 1), q = 0;
      for (int k = 0; k < K; ++k) { double z = 0; for (auto& f : x.f) z += S_[k][f.first] * double(f.second) * f.second; if (be != 0) z += S_[k][0]; q += z * g[k] * g[k]; }
      eta = ls / (q + r);
      for (int k = 0; k < K; ++k) { if (g[k] == 0) continue; double r1 = g[k] * g[k] / r;
        for (auto& f : x.f) { double xv = f.second; w[k][f.first] -= eta * g[k] * S_[k][f.first] * xv; S_[k][f.first] /= 1 + S_[k][f.first] * xv * xv * r1; }
        w[k][0] -= beta() * g[k] * S_[k][0]; S_[k][0] /= 1 + S_[k][0] * r1; }
      if (c.algo == "sofs") select();
    } else if (is(" ada-fobos ada-fobos-l1 adafobos-ofs ada-rda ada-rda-l1 adarda-ofs ")) {
      double de = c.num("delta", 10); bool rda = c.algo.find("rda") != S::npos;
      for (int k = 0; k < K; ++k) { if (g[k] == 0) continue;
        auto one = [&](size_t i, double xv, double sc) { double gx = g[k] * xv, h = S_[k][i] - de; S_[k][i] = std::sqrt(h * h + gx * gx) + de;
          if (rda) { u[k][i] += gx; w[k][i] = -sc * u[k][i] / S_[k][i]; } else w[k][i] -= sc * gx / S_[k][i]; };
        for (auto& f : x.f) one(f.first, f.second, eta); one(0, 1, beta()); }
      if (is(" adafobos-ofs adarda-ofs ")) select();
    } else if (c.algo == "fofs") {
      for (int k = 0; k < K; ++k) { if (g[k] == 0) continue; for (auto& v : w[k]) v *= 1 - lambda * eta; add(k, x, -eta * g[k]); w[k][0] -= beta() * g[k];
        double nn = 0; for (double v : w[k]) nn += v * v; nn = std::sqrt(nn); if (lambda > 0 && nn > 1 / std::sqrt(lambda)) for (auto& v : w[k]) v *= 1 / std::sqrt(lambda) / nn; }
      select();
    }
  }
  // variances so small, or steps so large, that single precision no longer carries them
  bool exhausted(const Ex& x) const { if (!is(" cw eccw arow sofs ")) return false; if (std::fabs(eta) > 1e15) return true; for (int k = 0; k < K; ++k) { if (S_[k][0] < 1e-15) return true; for (auto& f : x.f) if (S_[k][f.first] < 1e-15) return true; } return false; }
  double maxw() const { double m = 0; for (auto& v : w) for (double x : v) m = std::max(m, std::fabs(x)); return m; }
};
}  // namespace hv
#endif

// LINK: -Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_cond_wait,--wrap=pthread_cond_signal,--wrap=pthread_cond_broadcast
// Monitors of the programming interface: parameters, call sequences, corrupt model files.
#include "perturb.h"
#include "solm.h"
using namespace hv;

// ------------------------------------------------------------------ C21
struct P { S name, report; std::vector<S> ok, bad; };
static std::vector<S> cat(std::vector<S> a, const std::vector<S>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static const std::vector<S> kNoF = {"abc", "", "1e999", "x1", "-", "--3"}, kNoI = {"abc", "", "99999999999", "x1", "-"}, kNeg = {"-1", "-0.5", "-1e-3", "-inf"};
static std::vector<P> param_table(const S& a, int K) {
  std::vector<P> t; auto add = [&](S n, std::vector<S> ok, std::vector<S> bad, S rep = "=") { P p; p.name = n; p.report = rep == "=" ? n : rep; p.ok = ok; p.bad = bad; t.push_back(p); };
  auto in = [&](const char* l) { return Ref::in(a, l); };
  add("bias_eta", {"0", "0.1", "1", "2.5", "1e-3", "0.123456"}, cat(kNoF, cat(kNeg, {"nan"})));
  add("t", {"0", "1", "10", "12345"}, cat(kNoI, {"-1", "-100"}));
  add("dim", {"2", "5", "40", "100"}, cat(kNoI, {"-1", "-7"}));
  add("lazy_update", {"true", "false"}, {});
  add("active_smoothness", {"1e30", "1e25"}, cat(kNoF, cat(kNeg, {"0", "nan"})));
  add("exp_show", {"2", "3", "10"}, cat(kNoI, {"0", "-2"}), ""); add("step_show", {"1", "2", "7"}, cat(kNoI, {"0", "-2"}), "");
  if (a == "alma2") add("norm", {"L2", "2"}, {"L1", "None", "0", "1", "L3", "abc", "", "-1", "l2", "2 x", "2,1", "L2 L2"}); else add("norm", {"L1", "L2", "None", "0", "1", "2"}, {"L3", "7", "abc", "L2x", "-1", "", "l1", "2x", "1.5x", "1 x", "2 L1", "1,2", "2 3", "1\t0", "L1 L2", "L 1", "3", "99999999999"});
  add("model", {a}, {a + "x", "", "nosuch"}, ""); add("cls_num", {fmt("%d", K)}, {fmt("%d", K + 1), "0", "abc"}, ""); add("clf_num", {fmt("%d", K == 2 ? 1 : K)}, {"17", "abc", ""}, "");
  if (in(" ogd stg fobos-l1 pet ")) { add("eta", {"0.1", "0.5", "3", "0"}, cat(kNoF, cat(kNeg, {"nan"}))); add("power_t", {"0", "0.5", "1", "0.3"}, cat(kNoF, cat(kNeg, {"nan"}))); }
  if (in(" ada-fobos ada-fobos-l1 adafobos-ofs ada-rda ada-rda-l1 adarda-ofs ")) { add("eta", {"0.1", "0.5", "3"}, cat(kNoF, cat(kNeg, {"nan"}))); add("delta", {"0.1", "1", "10"}, cat(kNoF, cat(kNeg, {"0", "nan"}))); }
  if (in(" pa1 pa2 ")) add("C", {"0.05", "0.3", "10"}, kNoF);
  if (a == "alma2") { add("alpha", {"0.5", "0.9", "1"}, cat(kNoF, cat(kNeg, {"0", "1.5", "nan"}))); add("C", {"0.5", "2"}, kNoF); add("k", {"1", "3"}, cat(kNoI, {"0", "-1"})); add("p", {"2", "3"}, cat(kNoI, {"1", "0", "-2147483648"})); }
  if (in(" sop cw eccw ")) add("a", {"0.1", "1", "5"}, kNoF);
  if (in(" cw eccw ")) add("phi", {"0.1", "0.5244", "1.2"}, kNoF);
  if (in(" arow sofs ")) add("r", {"0.1", "1", "5"}, kNoF);
  if (in(" rda rda-l1 erda-l1 ")) add("sigma", {"0.1", "1", "4"}, cat(kNoF, cat(kNeg, {"0", "nan"})));
  if (a == "erda-l1") add("rou", {"0", "0.01", "0.1"}, cat(kNoF, cat(kNeg, {"nan"})));
  if (in(" stg fobos-l1 rda-l1 erda-l1 ada-fobos-l1 ada-rda-l1 ")) { add("lambda", {"0", "0.001", "0.01", "0.1"}, cat(kNoF, cat(kNeg, {"nan"}))); add("sparse_thresh", {"0", "0.0001", "0.1"}, kNoF); }
  if (a == "stg") add("k", {"1", "2", "7"}, cat(kNoI, {"0", "-1"}));
  if (in(" pet sofs adafobos-ofs adarda-ofs ")) { add("B", {"0", "1", "3", "10"}, cat({"abc", "", "-"}, {"-1", "-3"}), "lambda"); add("lambda", {"0", "2", "6"}, {"-1", "abc", ""}); }
  if (a == "fofs") { add("B", {"0", "1", "3", "10"}, cat(kNoI, {"-1", "-3"})); add("lambda", {"0.01", "0.1", "1"}, cat(kNoF, kNeg)); add("eta", {"0.1", "1"}, cat(kNoF, kNeg)); }
  std::vector<S> okl, badl = {"", "nosuch", "hing", "square", "hinge2"};
  for (const char* k : {"bool", "hinge", "logistic"}) for (const char* pre : {"", "maxscore-", "uniform-"}) {
    S kind = k, n = S(pre) + k; bool fits = (K == 2) == (*pre == 0);
    if (in(" perceptron sop ")) fits = fits && kind == "bool"; if (in(" cw eccw alma2 arow ")) fits = fits && kind == "hinge";
    if (a == "sofs") fits = fits && kind == "hinge";   // an arow
    (fits ? okl : badl).push_back(n);
  }
  add("loss", okl, badl);
  return t;
}
static S norm_code(const S& v) { return v == "None" || v == "0" ? "0" : v == "L1" || v == "1" ? "1" : "2"; }
static S diff_map(const std::map<S, S>& want, const std::map<S, S>& got) {
  for (auto& kv : want) { auto it = got.find(kv.first); if (it == got.end()) return kv.first + " is not reported, expected " + kv.second;
    if (it->second == kv.second) continue; char* e1; char* e2; double x = strtod(kv.second.c_str(), &e1), y = strtod(it->second.c_str(), &e2);
    if (*e1 || *e2 || kv.second.empty() || it->second.empty() || !(std::fabs(x - y) <= 6e-6 * std::fabs(x))) return kv.first + " is reported as " + it->second + ", expected " + kv.second; }
  for (auto& kv : got) if (!want.count(kv.first)) return kv.first + "=" + kv.second + " is reported, not set"; return "";
}
static void run_both(Rng& r, std::vector<void*>& ms, const Data& d, int what, const S& how, const char* key) {
  std::vector<std::vector<Pred>> ps; std::vector<std::vector<Cb>> cs; std::vector<float> es; uint64_t fs = r.u64();
  for (void* m : ms) { std::vector<Cb> tr; sol_InspectOnlineIteration(m, trace_cb, &tr); Rng q(fs); float e = -1; if (what == 0) { Feed f(7, 2); f.any(q, d); e = sol_Train(m, f.it); } std::vector<Pred> p; if (what == 1) p = predict(m, d); ps.push_back(p); cs.push_back(tr); es.push_back(e); sol_InspectOnlineIteration(m, quiet, nullptr); }
  for (size_t i = 1; i < ms.size(); ++i) {
    bool same = memcmp(&es[i], &es[0], 4) == 0 && ps[i].size() == ps[0].size() && cs[i].size() == cs[0].size();
    for (size_t k = 0; same && k < ps[0].size(); ++k) same = ps[i][k].pred == ps[0][k].pred && ps[i][k].s.size() == ps[0][k].s.size() && memcmp(ps[i][k].s.data(), ps[0][k].s.data(), 4 * ps[0][k].s.size()) == 0;
    for (size_t k = 0; same && k < cs[0].size(); ++k) same = memcmp(&cs[i][k], &cs[0][k], sizeof(Cb)) == 0;
    if (!same) { viol(key, how + fmt(": %s differs from a model that was given only the accepted settings", what == 0 ? "training" : "prediction")); return; }
  }
}
static void c21_params(Rng& r) {
  S a = r.pick(all_algos()); int K = r.chance(0.5) ? 2 : r.range(3, 4); std::vector<P> tab = param_table(a, K);
  void *A = sol_CreateModel(a.c_str(), K), *B = sol_CreateModel(a.c_str(), K); if (!A || !B) { viol("c21.create." + a, "cannot create"); return; }
  std::map<S, S> want = params(A); S how = a + fmt(" %d classes:", K); std::vector<std::pair<S, S>> log; bool cost = false, ofsb = false; S loss = want["loss"]; uint32_t dim = 1; long acc = 0, ref = 0;
  S fok = tmpf("filter.ok"), fbad = tmpf("filter.bad"), fempty = tmpf("filter.empty"); write_file(fok, "1\n# some\n3\n5\n12\n"); write_file(fbad, r.chance(0.5) ? "1\nabc\n" : r.chance(0.5) ? "0\n3\n" : "-4\n"); write_file(fempty, "");
  bool trained = false; int n = r.range(2, 14); Data d = gen_cont(r, r.range(3, 25), r.range(2, 20), 5, K, 0.1); Data pd = gen_cont(r, 8, 25, 5, K, 0.1);
  for (int s = 0; s < n; ++s) {
    int op = r.below(10);
    if (op == 0) { std::vector<void*> v = {A, B}; run_both(r, v, d, 0, how, "c21.effect"); how += " train"; trained = true; uint32_t dd = dim; for (auto& e : d) for (auto& p : e.f) dd = std::max(dd, p.first + 1); want = params(B); dim = strtoul(want["dim"].c_str(), 0, 10); S df = diff_map(want, params(A)); if (!df.empty()) viol("c21.reported." + a, how + ": after training " + df); continue; }
    if (op == 1) { std::vector<void*> v = {A, B}; run_both(r, v, pd, 1, how, "c21.effect"); want = params(B); continue; }
    S name, val, rep; bool valid = r.chance(0.55);
    if (r.chance(0.12)) {   // unknown names
      static const std::vector<S> U = {"foo", "", "Eta", "etaa", " eta", "bias_eta ", "BIAS_ETA", "weights", "online", "regularizer", "lambda2", "eta0", "clfnum"}; name = r.pick(U); val = pick(r, {"1", "true", "", "0.5"}); valid = false;
      if (r.chance(0.5)) { for (const char* f : {"rou", "sigma", "phi", "alpha", "power_t", "delta", "k", "C", "r", "a", "eta", "sparse_thresh"}) { bool has = false; for (auto& p : tab) has |= p.name == f; if (!has && r.chance(0.4)) { name = f; val = "1"; } } }
    } else if (r.chance(0.1)) { name = "filter"; val = valid ? fok : r.chance(0.3) ? fbad : r.chance(0.5) ? fempty : tmpf("filter.missing"); }
    else if (r.chance(0.12)) {
      name = "cost_margin"; bool possible = K == 2 && loss == "hinge"; if (possible && valid) { val = pick(r, {"0.5", "2", "5", "1"}); rep = name; } else { valid = false; val = possible ? r.pick(cat(kNoF, cat(kNeg, {"0", "nan"}))) : pick(r, {"2", "0.5", "abc"}); }
    } else {
      const P& p = r.pick(tab); if (p.bad.empty()) valid = true; if (p.ok.empty()) valid = false; name = p.name; val = r.pick(valid ? p.ok : p.bad); rep = p.report;
      if (name == "t" && trained && valid) continue;   // restarting the clock of a trained model is not covered
      if (name == "loss" && valid && cost && val.find("hinge") == S::npos) { valid = false; }
    }
    int ret = sol_SetModelParameter(A, name.c_str(), val.c_str()); how += fmt(" %s=%s", name.c_str(), val.c_str());
    if (valid && ret != 0) { viol("c21.refused." + name, how + fmt(": refused with %d", ret)); break; }
    if (!valid && ret == 0) { viol("c21.accepted." + (name.empty() ? S("empty") : name), how + ": accepted"); break; }
    if (valid) {
      if (sol_SetModelParameter(B, name.c_str(), val.c_str()) != 0) { viol("c21.refused." + name, how + ": refused by the second model"); break; }
      if (name == "dim") { dim = std::max<uint32_t>(dim, atoi(val.c_str())); want["dim"] = fmt("%u", dim); } else if (name == "norm") want["norm"] = norm_code(val); else if (!rep.empty()) want[rep] = val;
      if (name == "loss") loss = val; if (name == "cost_margin") cost = true; if (name == "B") ofsb = true;
      log.push_back(std::make_pair(name, name == "dim" ? fmt("%u", dim) : val)); ++acc;
    } else ++ref;
    S df = diff_map(want, params(A)); if (!df.empty()) { viol("c21.reported." + a, how + ": " + df); break; }
    if (!trained && s == n - 1 && !log.empty() && r.chance(0.8)) {   // only the last value of each parameter counts
      void* C = sol_CreateModel(a.c_str(), K); std::vector<std::pair<S, S>> last; for (size_t i = 0; i < log.size(); ++i) { bool later = false; for (size_t k = i + 1; k < log.size(); ++k) { auto g = [](const S& x) { return x == "B" ? S("lambda") : x == "step_show" ? S("exp_show") : x; }; if (a == "fofs" ? log[k].first == log[i].first || (g(log[k].first) == "exp_show" && g(log[i].first) == "exp_show") : g(log[k].first) == g(log[i].first)) later = true; } if (!later) last.push_back(log[i]); }
      bool ok = true; for (auto& kv : last) if (sol_SetModelParameter(C, kv.first.c_str(), kv.second.c_str())) ok = false;
      if (ok) { S dd = diff_map(want, params(C)); if (!dd.empty()) viol("c21.last." + a, how + ": a model given only the last values: " + dd); std::vector<void*> v = {A, C}; uint64_t q = r.u64(); Rng r1(q); run_both(r1, v, d, 0, how + " (against a model given only the last values)", "c21.last"); run_both(r1, v, pd, 1, how + " (against a model given only the last values)", "c21.last"); Rng r2(q); std::vector<void*> w = {B}; run_both(r2, w, d, 0, how, "c21.effect"); run_both(r2, w, pd, 1, how, "c21.effect"); count("last_values"); trained = true; want = params(A); }
      sol_ReleaseModel(&C);
    }
  }
  // still usable, and the saved model reports the same
  { std::vector<void*> v = {A, B}; run_both(r, v, d, 0, how + " (at the end)", "c21.effect"); run_both(r, v, pd, 1, how + " (at the end)", "c21.effect"); }
  S f = tmpf("m21"), g = tmpf("m21b"); if (sol_SaveModel(A, f.c_str()) || sol_SaveModel(B, g.c_str())) viol("c21.save", how); else {
    bool fin = true; for (auto& p : predict(A, pd)) for (float s : p.s) if (!std::isfinite(s)) fin = false;
    if (read_file(f) != read_file(g)) viol("c21.saved", how + ": the saved model differs from that of a model given only the accepted settings");
    if (fin) { void* m = sol_RestoreModel(f.c_str()); if (!m) { S txt = read_file(f); if (txt.find("nan") == S::npos && txt.find("inf") == S::npos) viol("c21.restore", how); } else { S df = diff_map(params(A), params(m)); if (!df.empty()) viol("c21.restored." + a, how + ": restored " + df); sol_ReleaseModel(&m); } } }
  sol_ReleaseModel(&A); sol_ReleaseModel(&B); count("accepted", acc); count("refused", ref); count("models." + a); nontrivial(hash_str(how)); if (wants_sample()) sample(how);
}
static void c21_create(Rng& r) {
  static const std::vector<S> U = {"", "nosuch", "ogdd", "ogd ", "ogd_model", "_model", "hinge", "svm", "pa3", "olm", "ada-fobos-l2", "perceptro"}; S a = r.chance(0.5) ? r.pick(U) : r.pick(all_algos()); bool known = one_of(a, all_algos());
  int K = r.chance(0.6) ? r.pick(std::vector<int>{0, 1, -1, -2, -100, -2147483647 - 1}) : r.chance(0.05) ? r.range(7, 1000) : r.range(2, 6); void* m = sol_CreateModel(a.c_str(), K); S how = "model <" + a + fmt("> with %d classes", K);
  if (m && (!known || K < 2)) viol("c21.created", how + " is created"); if (!m && known && K >= 2) viol("c21.notcreated", how + " is refused"); if (m) sol_ReleaseModel(&m);
  int bs = r.chance(0.5) ? r.range(-3, 0) : r.chance(0.1) ? r.range(6, 3000) : r.range(1, 5), nb = r.chance(0.5) ? r.range(-3, 0) : r.chance(0.1) ? r.range(6, 60) : r.range(1, 5); void* it = sol_CreateDataIter(bs, nb); if ((it != nullptr) != (bs > 0 && nb > 0)) viol("c21.iter", fmt("iterator with batch size %d and %d buffers", bs, nb)); if (it) sol_ReleaseDataIter(&it);
  count("creations"); count(known && K >= 2 ? "created" : "not_created"); nontrivial(hash_str(how + fmt("%d %d", bs, nb))); if (wants_sample()) sample(how);
}

// ------------------------------------------------------------------ C09
static S train_file(Rng& r, Cfg& c, Data& d, bool small) {
  c = gen_cfg(r, all_algos()); c.p.erase("active_smoothness"); if (!small && c.classes > 2 && r.chance(0.05)) c.classes = r.range(6, 120); void* m = make_model(c); if (!m) return "";
  sol_InspectOnlineIteration(m, quiet, nullptr); d = gen_cont(r, r.range(0, 12), small ? r.range(1, 5) : r.chance(0.03) ? r.range(100, 4000) : r.range(1, 30), 4, c.classes, 0.1);
  if (!d.empty()) { Feed f(8, 2); f.csr(d); sol_Train(m, f.it); }
  S p = tmpf("c09.model"); S t; if (sol_SaveModel(m, p.c_str()) == 0) t = read_file(p); sol_ReleaseModel(&m); return t;
}
static bool use_model(Rng& r, void* m, const S& what) {   // a restored model has to be usable
  std::map<S, S> p = params(m); int K = atoi(p["clf_num"].c_str()); double big = 0; for (const char* k : {"dim", "B", "lambda"}) if (p.count(k)) big = std::max(big, strtod(p[k].c_str(), 0));
  sol_InspectOnlineIteration(m, quiet, nullptr); Data d = gen_cont(r, 6, 40, 5, K == 1 ? 2 : std::max(2, std::min(K, 5)), 0.1);
  std::vector<Pred> q = predict(m, d); if (q.size() != d.size()) { viol("c09.unusable", what + ": a restored model does not predict"); return false; }
  for (auto& x : q) if (int(x.s.size()) != K) { viol("c09.unusable", what + ": a restored model predicts the wrong number of scores"); return false; }
  sol_model_sparsity(m); if (big < 1e6) { Feed f(3, 2); f.csr(d); sol_Train(m, f.it); predict(m, d); }
  S f = tmpf("c09.again"); if (sol_SaveModel(m, f.c_str()) != 0) viol("c09.unusable", what + ": a restored model cannot be saved"); return true;
}
static void c09_truncate(Rng& r) {
  Cfg c; Data d; S t = train_file(r, c, d, true); if (t.empty()) { viol("c09.setup", c.str()); return; }
  size_t last = t.rfind(']'); if (last == S::npos) { viol("c09.setup", "no weights in the file"); return; }
  S path = tmpf("c09.cut"); std::vector<size_t> cuts; size_t ws = t.find("model parameters:"); 
  for (size_t i = ws == S::npos ? 0 : ws; i < t.size(); ++i) if (r.chance(0.5) || i + 8 > last) cuts.push_back(i);
  for (int i = 0; i < 25; ++i) cuts.push_back(r.below(t.size()));
  for (size_t i : cuts) {
    write_file(path, t.substr(0, i)); void* m = sol_RestoreModel(path.c_str()); count("cuts");
    if (m && i <= last) { viol("c09.truncated", c.str() + fmt(": a file cut at byte %zu of %zu (weights end at %zu) is restored: ...", i, t.size(), last) + t.substr(i > 60 ? i - 60 : 0, std::min<size_t>(60, i))); }
    if (m && r.chance(0.2)) use_model(r, m, c.str() + fmt(" cut at %zu", i)); if (m) { count("cut_after_weights"); sol_ReleaseModel(&m); }
  }
  { // the first line identifies a model file
    size_t e = t.find('\n'); S h1 = t.substr(0, e), rest = t.substr(e); std::vector<S> bad = {"", h1.substr(0, 1 + r.below(h1.size() - 1)), h1.substr(1), h1 + "x", "x" + h1, "model parameters:", "{", h1.substr(0, h1.size() - 1), S(h1.rbegin(), h1.rend())}; S b = r.pick(bad); { S x = h1; x[r.below(x.size())] ^= char(1 << r.below(5)); if (r.chance(0.4)) b = x; }
    bool gone = r.chance(0.1); write_file(path, gone ? rest.substr(1) : b + rest); void* m = sol_RestoreModel(path.c_str()); count("headers"); if (m) { viol("c09.header", c.str() + ": a file whose first line is <" + (gone ? S("removed") : b) + "> is restored"); sol_ReleaseModel(&m); } }
  { // a description that contradicts itself or names nothing known
    const S key = pick(r, {"model", "cls_num", "clf_num", "loss"}); size_t k = t.find("\"" + key + "\""), v = k == S::npos ? k : t.find(':', k), e = v == S::npos ? v : t.find_first_of(",\n", v);
    if (e == S::npos || e > ws) viol("c09.setup", "no " + key + " in the file"); else {
      S was = t.substr(v + 1, e - v - 1), nv; bool num = key[0] == 'c'; int old = atoi(was.c_str());
      if (num) { int n = old; while (n == old) n = r.chance(0.2) ? int(r.pick(std::vector<int>{0, -1, 1000, 2147483647})) : r.range(1, 9); nv = fmt(" %d", n); }
      else { size_t q = was.find('"'), q2 = was.rfind('"'); S nm = q2 > q ? was.substr(q + 1, q2 - q - 1) : ""; nv = " \"" + (r.chance(0.3) ? S("no-such-thing") : r.chance(0.5) ? nm + pick(r, {"x", " ", "-", "0"}) : "x" + nm) + "\""; }
      write_file(path, t.substr(0, v + 1) + nv + t.substr(e)); void* m = sol_RestoreModel(path.c_str()); count("contradictions." + key); if (m) { viol("c09.contradiction", c.str() + ": a file with " + key + was + " altered to" + nv + " is restored"); sol_ReleaseModel(&m); } } }
  { // every weight row is complete
    std::vector<std::pair<size_t, size_t>> rows; for (size_t i = t.find('[', ws); i != S::npos; i = t.find('[', i + 1)) { size_t e = t.find(']', i); if (e == S::npos) break; if (t[i - 1] == '\n' && t.find_first_not_of(" \n", i + 1) != e) rows.push_back(std::make_pair(i + 1, e)); }
    if (!rows.empty() && ws != S::npos) { auto w = r.pick(rows); std::vector<S> tok; { std::istringstream is(t.substr(w.first, w.second - w.first)); S x; while (is >> x) tok.push_back(x); } size_t k = r.below(tok.size()); S how; int op = r.below(3);
      if (op == 0) { tok.erase(tok.begin() + k); how = "missing entry"; } else if (op == 1) { tok.insert(tok.begin() + k, "0.5"); how = "extra entry"; } else { tok[k] = pick(r, {"abc", "-", ".", "x1", "1x", "1,2", "[", "{}"}); how = "entry " + tok[k]; }
      S y = t.substr(0, w.first); for (auto& x : tok) y += " " + x; y += " " + t.substr(w.second); write_file(path, y); void* m = sol_RestoreModel(path.c_str()); count("broken_rows"); if (m) { viol("c09.row", c.str() + fmt(": a file with a broken weight row (%s %zu of %zu) is restored", how.c_str(), k, tok.size())); sol_ReleaseModel(&m); } } }
  write_file(path, t); void* m = sol_RestoreModel(path.c_str()); if (!m) viol("c09.intact", c.str() + ": an intact file is refused"); else { use_model(r, m, c.str()); sol_ReleaseModel(&m); }
  nontrivial(hash_str(t)); count("files"); if (wants_sample()) sample(c.str() + fmt(", %zu bytes, %zu cuts", t.size(), cuts.size()));
}
static S mutate(Rng& r, S t, S* how) {
  int k = r.below(13); auto toks = [&](std::vector<std::pair<size_t, size_t>>& v, bool num) { for (size_t i = 0; i < t.size();) { auto is = [&](char ch) { return num ? (isdigit((unsigned char)ch) || ch == '-' || ch == '.' || ch == 'e') : isalpha((unsigned char)ch) != 0; }; if (is(t[i])) { size_t s = i; while (i < t.size() && is(t[i])) ++i; v.push_back(std::make_pair(s, i - s)); } else ++i; } };
  static const std::vector<S> H = {"0", "-1", "1", "2", "3", "99999999999999999999", "4294967295", "4294967296", "2147483647", "-2147483648", "1e308", "1e999", "-1e999", "nan", "inf", "abc", "", "null", "true", "[]", "{}", "\"7\"", "0.5", "1000000", "100000000", "[1,2]", "{\"a\":1}", "1.7976931348623157e308", "\"\"", "\"x\"", "-0", "1e-400", "3.9", "[", "]", "0x10"};
  std::vector<std::pair<size_t, size_t>> v;
  switch (k) {
    case 0: case 1: case 2: case 3: toks(v, true); if (!v.empty()) { auto x = r.chance(0.6) ? v[r.below(std::min<size_t>(v.size(), 14))] : r.pick(v); S h = r.pick(H); *how += fmt("number at %zu -> ", x.first) + h + "; "; t.replace(x.first, x.second, h); } break;
    case 4: toks(v, false); if (!v.empty()) { auto x = r.pick(v); S h = r.chance(0.5) ? r.pick(all_algos()) : r.chance(0.5) ? S("lambda") : r.pick(H); *how += fmt("word at %zu -> ", x.first) + h + "; "; t.replace(x.first, x.second, h); } break;
    case 5: { int n = r.range(1, 4); for (int i = 0; i < n && !t.empty(); ++i) { size_t p = r.below(t.size()); t[p] = char(t[p] ^ (1 << r.below(8))); } *how += fmt("%d bit flips; ", n); break; }
    case 6: { size_t p = r.below(t.size() + 1), n = r.below(30); S g; for (size_t i = 0; i < n; ++i) g += char(r.chance(0.5) ? r.below(256) : "[]{}\":,\n 0-"[r.below(11)]); t.insert(p, g); *how += fmt("%zu bytes inserted at %zu; ", n, p); break; }
    case 7: { if (t.size() < 2) break; size_t p = r.below(t.size()), n = 1 + r.below(std::min<size_t>(40, t.size() - p)); t.erase(p, n); *how += fmt("%zu bytes removed at %zu; ", n, p); break; }
    case 8: case 9: { std::vector<S> l; size_t s = 0; while (s < t.size()) { size_t e = t.find('\n', s); if (e == S::npos) e = t.size() - 1; l.push_back(t.substr(s, e - s + 1)); s = e + 1; } if (l.empty()) break; size_t i = r.below(l.size()), j = r.below(l.size()); int w = r.below(3); if (w == 0) l.erase(l.begin() + i); else if (w == 1) l.insert(l.begin() + i, l[j]); else std::swap(l[i], l[j]); t = ""; for (auto& x : l) t += x; *how += fmt("lines %zu,%zu op %d; ", i, j, w); break; }
    case 10: { size_t p = r.below(t.size() + 1); t.resize(p); *how += fmt("cut at %zu; ", p); break; }
    case 11: { int n = r.range(100, 3000); S open, close; for (int i = 0; i < n; ++i) { open += r.chance(0.5) ? "[" : "{\"a\":"; } size_t p = t.find(':', 12); if (p == S::npos) break; t.insert(p + 1, open); *how += fmt("%d nested openings; ", n); break; }
    default: { size_t p = t.find("\"", r.below(t.size() + 1)); if (p == S::npos) break; t.insert(p + 1, S(r.range(1, 5000), r.chance(0.5) ? 'a' : '\\')); *how += "long string; "; break; }
  }
  return t;
}
static void c09_mutate(Rng& r) {
  Cfg c; Data d; S t = train_file(r, c, d, false), how = c.str() + ": "; if (t.empty()) { viol("c09.setup", c.str()); return; }
  if (r.chance(0.1)) { Cfg c2; Data d2; S t2 = train_file(r, c2, d2, false); size_t p = t.find("model parameters"), q = t2.find("model parameters"); if (p != S::npos && q != S::npos) { t = t.substr(0, p) + t2.substr(q); how += "weights of " + c2.str() + "; "; } }
  else if (r.chance(0.04)) { t = ""; int n = r.below(300); for (int i = 0; i < n; ++i) t += char(r.below(256)); how += "random bytes"; if (r.chance(0.5)) t = "model info:\n" + t; }
  S path = tmpf("c09.mut");
  for (int i = 0; i < 6; ++i) {
    S h = how, m = t; int n = r.chance(0.7) ? 1 : r.range(2, 4); for (int k = 0; k < n; ++k) m = mutate(r, m, &h);
    write_file(path, m); void* mod = sol_RestoreModel(path.c_str()); count("mutants"); count(mod ? "restored" : "rejected"); nontrivial(hash_str(m));
    if (mod) { use_model(r, mod, h); sol_ReleaseModel(&mod); }
    if (wants_sample()) sample(h + (mod ? "restored" : "rejected"));
  }
}

// ------------------------------------------------------------------ C23
static int g_threads0 = -1, g_fds0 = -1;
static void* noop(void*) { return nullptr; }
static void baseline() {
  if (g_threads0 >= 0) return; pthread_t t; pthread_create(&t, 0, noop, 0); pthread_join(t, 0);
  int n = sched::nthreads(), same = 0; for (int i = 0; i < 2000 && same < 50; ++i) { sched::nap(1000); int k = sched::nthreads(); same = k == n ? same + 1 : 0; n = k; } g_threads0 = n; g_fds0 = sched::nfds();
}
static void after(const S& what) {
  int n = sched::settle_threads(g_threads0); if (n > g_threads0) viol("c23.threads", what + fmt(": %d threads remain, %d before", n, g_threads0));
  int f = sched::nfds(); if (f > g_fds0) { viol("c23.fds", what + fmt(": %d descriptors remain, %d before", f, g_fds0)); g_fds0 = f; }
  if (__lsan_do_recoverable_leak_check && getenv("HV_LEAK") && (core().idx % 10 == 0 || core().verbose)) { if (__lsan_do_recoverable_leak_check()) viol("c23.leak", what + ": leaked memory (within the last 10 cases)"); count("leak_checks"); }
}
static Data odd_data(Rng& r) {
  DOpt o; o.rows = r.chance(0.1) ? 0 : r.range(1, 25); o.dim = r.pick(std::vector<uint32_t>{1, 2, 8, 40, 300}); o.maxfeat = r.range(1, 9); o.empty = r.chance(0.2) ? 0.7 : 0.1; o.labels = r.chance(0.25) ? r.range(1, 2) : 0; o.classes = r.chance(0.5) ? 2 : r.range(3, 5); o.vals = r.chance(0.2) ? 9 : r.below(3); o.pm1 = r.chance(0.6); if (r.chance(0.01)) { switch (r.below(3)) { case 0: o.rows = r.range(200, 2000); break; case 1: o.maxfeat = r.range(50, 1500); o.dim = 3000; break; default: o.dim = r.range(1000, 100000); } count("large_inputs"); }
  Data d = gen_data(r, o); if (r.chance(0.15)) for (auto& e : d) for (auto& p : e.f) if (r.chance(0.3)) p.second = 0; if (r.chance(0.1)) for (auto& e : d) e.label = 1; return d;
}
static void c23_calls(Rng& r) {
  baseline(); std::vector<void*> ms(3, nullptr); std::vector<S> mn(3); std::vector<Feed*> fs(3, nullptr); S how; int n = r.range(4, 40); if (r.chance(0.3)) sched::begin(r.u64(), r.below(4), r.chance(0.5) ? 10 : 0);
  std::vector<std::vector<Cb>> tr(3); S mp = tmpf("m23"), op = tmpf("o23");
  for (int s = 0; s < n; ++s) {
    int i = r.below(3), j = r.below(3), op_ = r.below(20);
    switch (op_) {
      case 0: case 1: if (ms[i]) { how += fmt(" release%d", i); sol_ReleaseModel(&ms[i]); if (ms[i]) viol("c23.handle", how + ": handle not cleared"); }
        mn[i] = r.pick(all_algos()); { int K = r.chance(0.5) ? 2 : r.range(3, 5); ms[i] = sol_CreateModel(mn[i].c_str(), K); how += fmt(" m%d=%s/%d", i, mn[i].c_str(), K); if (r.chance(0.7) && ms[i]) { tr[i].clear(); sol_InspectOnlineIteration(ms[i], trace_cb, &tr[i]); } } break;
      case 2: case 3: case 4: if (ms[i]) { std::vector<P> t = param_table(mn[i], 2); const P& p = r.pick(t); S v = r.chance(0.75) && !p.ok.empty() ? r.pick(p.ok) : p.bad.empty() ? S("x") : r.pick(p.bad); if (p.name == "exp_show" && v == "1") v = "2"; how += fmt(" m%d.%s=%s", i, p.name.c_str(), v.c_str()); sol_SetModelParameter(ms[i], p.name.c_str(), v.c_str()); } break;
      case 5: if (ms[i]) { S fp = tmpf("f23"); S t; for (int k = 0, q = r.range(0, 6); k < q; ++k) t += r.chance(0.1) ? S("# x\n") : fmt("%d\n", r.chance(0.1) ? r.range(-2, 0) : r.chance(0.1) ? r.range(1, 5000) : r.range(1, 40)); write_file(fp, t); how += fmt(" m%d.filter", i); sol_SetModelParameter(ms[i], "filter", fp.c_str()); } break;
      case 6: case 7: if (fs[j] && r.chance(0.4)) { delete fs[j]; fs[j] = nullptr; how += fmt(" free it%d", j); } if (!fs[j]) { fs[j] = new Feed(r.range(1, 9), r.range(1, 4)); how += fmt(" it%d", j); } /* fall through */
      case 8: case 9: if (fs[j]) { Data d = odd_data(r); int k = r.below(7), passes = r.range(1, 3); if (r.chance(0.03)) passes = r.range(-2, 0); uint32_t dim = 1; for (auto& e : d) for (auto& p : e.f) dim = std::max(dim, p.first); int ret = 0;
          how += fmt(" load%d/%d(%zu)", j, k, d.size());
          if (k == 0 && r.chance(0.5)) for (auto& e : d) { std::vector<std::pair<uint32_t, float>> g(1, std::make_pair(0u, 2.f)); g.insert(g.end(), e.f.begin(), e.f.end()); if (r.chance(0.3)) e.f = g; }
          if (k < 2) ret = fs[j]->file(d, "svm", passes); else if (k < 3) ret = fs[j]->file(d, "bin", passes); else if (k < 4) ret = fs[j]->file(d, "csv", passes); else if (k < 5) { if (!d.empty()) ret = fs[j]->csr(d, passes); } else if (k < 6) { if (!d.empty() && dim < 400) ret = fs[j]->numpy(d, passes); }
          else { S bad = r.chance(0.3) ? tmpf("nosuchfile") : r.chance(0.5) ? core().dir : mp; ret = sol_LoadData(fs[j]->it, bad.c_str(), pick(r, {"svm", "csv", "bin", "nosuch", ""}).c_str(), 1); } (void)ret; } break;
      case 10: case 11: case 12: if (ms[i] && fs[j]) { how += fmt(" train(m%d,it%d)", i, j); float e = sol_Train(ms[i], fs[j]->it); if (!(e >= 0 && e <= 1)) viol("c23.rate", how + fmt(": error rate %g", e)); count("trainings"); } break;
      case 13: if (ms[i] && fs[j]) { bool o = r.chance(0.6); how += fmt(" test(m%d,it%d%s)", i, j, o ? ",out" : ""); float e = sol_Test(ms[i], fs[j]->it, o ? op.c_str() : nullptr); if (!(e >= 0 && e <= 1)) viol("c23.rate", how + fmt(": error rate %g", e)); count("tests"); } break;
      case 14: if (ms[i] && fs[j]) { how += fmt(" predict(m%d,it%d)", i, j); std::vector<Pred> v; int q = sol_Predict(ms[i], fs[j]->it, pred_cb, &v); if (q != (int)v.size()) viol("c23.predictcount", how); count("predictions", q); } break;
      case 15: if (ms[i]) { how += fmt(" save(m%d)", i); if (sol_SaveModel(ms[i], mp.c_str())) viol("c23.save", how); count("saves"); } break;
      case 16: if (exists(mp)) { if (ms[i]) sol_ReleaseModel(&ms[i]); how += fmt(" m%d=restore", i); ms[i] = sol_RestoreModel(mp.c_str()); if (ms[i]) { std::map<S, S> p = params(ms[i]); mn[i] = p["model"]; if (r.chance(0.7)) sol_InspectOnlineIteration(ms[i], quiet, nullptr); count("restores"); } } break;
      case 17: if (ms[i]) { how += fmt(" inspect(m%d)", i); params(ms[i]); float q = sol_model_sparsity(ms[i]); if (!(q >= 0 && q <= 1)) viol("c23.sparsity", how + fmt(": %g", q)); } break;
      case 18: if (ms[i]) { how += fmt(" release m%d", i); sol_ReleaseModel(&ms[i]); } else sol_ReleaseModel(&ms[i]); break;
      case 19: { Data d = odd_data(r); S t = pick(r, {"svm", "bin", "csv"}), t2 = pick(r, {"svm", "bin", "csv", ""}), src = tmpf("t23." + t); write_file(src, enc(d, t)); how += " tools(" + t + "," + t2 + ")";
          sol_analyze_data(src.c_str(), t.c_str(), op.c_str()); sol_convert_data(src.c_str(), t.c_str(), op.c_str(), t2.c_str(), r.chance(0.5), 0.5f); sol_shuffle_data(src.c_str(), t.c_str(), op.c_str(), r.chance(0.3) ? nullptr : t2.c_str()); sol_split_data(src.c_str(), t.c_str(), r.range(-1, 5), tmpf("s23_").c_str(), r.chance(0.3) ? nullptr : t2.c_str(), r.chance(0.5)); count("tool_calls", 4); } break;
    }
  }
  std::vector<int> ord = {0, 1, 2, 3, 4, 5}; for (int i = 5; i > 0; --i) std::swap(ord[i], ord[r.below(i + 1)]);
  for (int k : ord) { if (k < 3) sol_ReleaseModel(&ms[k]); else { delete fs[k - 3]; fs[k - 3] = nullptr; } }
  nontrivial(hash_str(how)); uint64_t h = sched::end(); (void)h; count("calls", n); after(how); if (wants_sample()) sample(how.substr(0, 400)); unlink(mp.c_str());
}
// data points against a plain list
static void c23_datapoint(Rng& r) {
  typedef sol::pario::DataPoint DP; baseline(); std::vector<DP> ps(3); std::vector<Ex> xs(3); std::vector<std::vector<int>> share(3); int grp[3] = {0, 1, 2}; int next = 3; S how; int n = r.chance(0.05) ? r.range(500, 3000) : r.range(3, 60);
  for (int s = 0; s < n; ++s) {
    int i = r.below(3), j = r.below(3), op = r.below(14);
    if (op < 6) { int k = r.chance(0.02) ? r.range(100, 2000) : 1; bool mono = r.chance(0.7); for (int q = 0; q < k; ++q) { uint32_t ix = mono && !xs[i].f.empty() ? xs[i].f.back().first + 1 + r.below(3) : r.chance(0.05) ? 4294967294u - r.below(3) : 1 + r.below(60); if (ix > 4294967294u) ix = 7; float v = float(r.gauss()); ps[i].AddNewFeat(ix, v); for (int g = 0; g < 3; ++g) if (grp[g] == grp[i]) xs[g].f.push_back(std::make_pair(ix, v)); } how += fmt(" add%d*%d", i, k); }
    else if (op == 6) { int l = r.range(-5, 9); ps[i].set_label(l); xs[i].label = l; how += fmt(" label%d", i); }
    else if (op == 7) { ps[i].Sort(); for (int g = 0; g < 3; ++g) if (grp[g] == grp[i]) { auto& f = xs[g].f; std::set<uint32_t> u; for (auto& p : f) u.insert(p.first); (void)u; std::stable_sort(f.begin(), f.end(), [](const std::pair<uint32_t, float>& a, const std::pair<uint32_t, float>& b) { return a.first < b.first; }); } how += fmt(" sort%d", i); count("sorts"); }
    else if (op == 8 && i != j) { ps[i].Clone(ps[j]); xs[j] = xs[i]; if (true) grp[j] = next++; how += fmt(" clone%d>%d", i, j); count("clones"); }
    else if (op == 9) { DP t = ps[i].Clone(); ps[j] = t; int g = next++; xs[j] = xs[i]; grp[j] = g; how += fmt(" cloned%d>%d", i, j); count("clones"); }
    else if (op == 10) { ps[i] = DP(); xs[i] = Ex(); grp[i] = next++; ps[i].set_label(0); how += fmt(" new%d", i); }
    else if (op == 12) { DP& a = ps[i]; DP& b = ps[i]; a = b; how += fmt(" self%d", i); count("self_assignments"); if (r.chance(0.5)) { sol::math::Vector<float> v; v.push_back(1.f); v.push_back(2.f); sol::math::Vector<float>& w = v; v = w; if (v.size() != 2 || v[0] != 1.f || v[1] != 2.f) viol("c23.vec.self", how + ": a vector assigned to itself changes"); } }
    else if (op == 13) { DP t(ps[i]); DP u; u = t; Ex e = from_dp(u); if (e.f != xs[i].f || e.label != xs[i].label) { viol("c23.dp.copy", how + ": a copy is <" + show(e) + "> expected <" + show(xs[i]) + ">"); return; } { DP z = u; (void)z; } how += fmt(" copies%d", i); count("copies"); }
    else if (op == 11) { DP t; ps[i].Clone(t); t.Clear(); t.AddNewFeat(5, 1); if (t.size() != 1 || t.index(0) != 5 || t.feature(0) != 1.f || t.dim() != 6) viol("c23.dp.reuse", how + ": a cleared point keeps old features"); how += fmt(" clear-copy%d", i); }
    for (int g = 0; g < 3; ++g) {
      Ex e = from_dp(ps[g]); const Ex& w = xs[g]; bool ok = e.f.size() == w.f.size() && (e.label == w.label); 
      if (ok) { auto a = e.f, b = w.f; auto lt = [](const std::pair<uint32_t, float>& x, const std::pair<uint32_t, float>& y) { return x < y; }; if (op == 7) { for (size_t k = 1; k < e.f.size(); ++k) if (grp[g] == grp[i] && e.f[k - 1].first > e.f[k].first) ok = false; std::sort(a.begin(), a.end(), lt); std::sort(b.begin(), b.end(), lt); if (grp[g] == grp[i]) { xs[g] = e; } } if (a != b) ok = false; }
      if (!ok) { viol("c23.dp.content", how + fmt(": point %d is <", g) + show(e) + "> expected <" + show(w) + ">"); return; }
      uint32_t dim = 0; bool srt = true; for (size_t k = 0; k < e.f.size(); ++k) { dim = std::max(dim, e.f[k].first + 1); if (k && e.f[k - 1].first > e.f[k].first) srt = false; } if (srt && ps[g].dim() != dim && !(dim == 0 && ps[g].dim() <= 1)) { viol("c23.dp.dim", how + fmt(": point %d has dimension %u, expected %u", g, (unsigned)ps[g].dim(), dim)); return; }
      bool sorted = true; for (size_t k = 1; k < w.f.size(); ++k) if (e.f[k - 1].first > e.f[k].first) sorted = false; bool strict = sorted; for (size_t k = 1; k < e.f.size(); ++k) if (e.f[k - 1].first == e.f[k].first) strict = false; if (strict != sorted) continue; if (ps[g].IsSorted() != sorted) { viol("c23.dp.sorted", how + fmt(": IsSorted of point %d", g)); return; }
    }
  }
  count("dp_ops", n); nontrivial(hash_str(how)); ps.clear(); after(how.substr(0, 300)); if (wants_sample()) sample(how.substr(0, 300));
}
int main(int argc, char** argv) {
  return run_main(argc, argv, {{"c21_params", c21_params}, {"c21_create", c21_create}, {"c09_truncate", c09_truncate}, {"c09_mutate", c09_mutate}, {"c23_calls", c23_calls}, {"c23_datapoint", c23_datapoint}});
}

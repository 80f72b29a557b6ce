// LINK: -Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_cond_wait,--wrap=pthread_cond_signal,--wrap=pthread_cond_broadcast
// Monitor of independent sessions in different threads: each behaves as it does alone.
#include "perturb.h"
#include "solm.h"
#include <thread>
using namespace hv;

struct Ses {
  Cfg c; Data tr, te; int cut, passes, bs, nb, way; S type, to, path, tpath; std::vector<std::pair<S, S>> set; bool random;
};
static bool dense(const Data& d) { for (auto& e : d) for (auto& p : e.f) if (p.first > 200) return false; return true; }
// everything a session can observe, as text
struct Log { std::vector<std::pair<S, S>> v; void add(const char* k, const S& x) { v.push_back(std::make_pair(S(k), x)); } };
static int feed(Feed& f, const Ses& s, const Data& d, const S& path) { return s.way == 0 ? sol_LoadData(f.it, path.c_str(), s.type.c_str(), s.passes) : s.way == 1 ? f.csr(d, s.passes) : f.numpy(d, s.passes); }
static S text(const std::vector<Pred>& v) { S x; for (auto& p : v) { x += fmt("%d %d", p.label, p.pred); for (float q : p.s) x += fmt(" %a", double(q)); x += "\n"; } return x; }
static S text(const std::vector<Cb>& v) { S x; for (auto& c : v) x += fmt("%lld %lld %lld %a\n", c.n, c.it, c.up, c.er); return x; }
static S bytes(const S& p) { S x = read_file(p); unlink(p.c_str()); return x; }
static void session(const Ses& s, const S& own, Log& l) {
  void* m = sol_CreateModel(s.c.algo.c_str(), s.c.classes); if (!m) { l.add("create", "failed"); return; }
  for (auto& kv : s.set) l.add("set", kv.first + fmt(" %d", sol_SetModelParameter(m, kv.first.c_str(), kv.second.c_str())));
  std::vector<Cb> tr; sol_InspectOnlineIteration(m, trace_cb, &tr);
  { Feed f(s.bs, s.nb); l.add("load", fmt("%d", feed(f, s, s.tr, s.path))); float e = sol_Train(m, f.it); l.add("train", fmt("%a", double(e))); }
  l.add("trace", text(tr)); S f1 = own + ".model", f2 = own + ".out", f3 = own + ".conv", f4 = own + ".info";
  l.add("save", fmt("%d", sol_SaveModel(m, f1.c_str()))); S saved = read_file(f1); l.add("saved", saved);
  std::vector<Pred> p; { Feed f(s.bs, s.nb); f.csr(s.te); int n = sol_Predict(m, f.it, pred_cb, &p); l.add("predict", fmt("%d\n", n) + text(p)); }
  { Feed f(s.bs, s.nb); f.csr(s.te); float e = sol_Test(m, f.it, f2.c_str()); l.add("test", fmt("%a\n", double(e)) + bytes(f2)); }
  l.add("sparsity", fmt("%a", double(sol_model_sparsity(m)))); { std::map<S, S> q = params(m); S x; for (auto& kv : q) x += kv.first + "=" + kv.second + "\n"; l.add("parameters", x); } sol_ReleaseModel(&m);
  m = sol_RestoreModel(f1.c_str()); unlink(f1.c_str()); if (!m) { l.add("restore", "failed"); return; }
  { p.clear(); Feed f(s.bs, s.nb); f.csr(s.te); sol_Predict(m, f.it, pred_cb, &p); l.add("restored", text(p)); }
  tr.clear(); sol_InspectOnlineIteration(m, trace_cb, &tr); { Feed f(s.bs, s.nb); f.csr(s.te); sol_Train(m, f.it); } l.add("retrain", text(tr)); sol_SaveModel(m, f1.c_str()); l.add("resaved", bytes(f1)); sol_ReleaseModel(&m);
  int st = sol_convert_data(s.path.c_str(), s.type.c_str(), f3.c_str(), s.to.c_str(), false, 0.f); l.add("convert", fmt("%d\n", st) + bytes(f3));
  st = sol_analyze_data(s.path.c_str(), s.type.c_str(), f4.c_str()); l.add("analyze", fmt("%d\n", st) + bytes(f4));
  st = sol_shuffle_data(s.path.c_str(), s.type.c_str(), f3.c_str(), "svm"); Data d; S why; if (st == 0) { lib_read_file(f3, "svm", d); std::multiset<S> a; for (auto& e : d) a.insert(show(e)); for (auto& x : a) why += x + "\n"; } unlink(f3.c_str()); l.add("shuffle", fmt("%d\n", st) + why);
}
static Data turned(Rng& r, Data d) { for (auto& e : d) if (e.f.size() > 1 && r.chance(0.5)) { std::rotate(e.f.begin(), e.f.begin() + 1 + r.below(e.f.size() - 1), e.f.end()); count("unsorted_rows"); } return d; }
static void c25_sessions(Rng& r) {
  int n = r.range(2, 5); std::vector<Ses> ss; bool alike = r.chance(0.4), rnd = r.chance(0.1);   // alike: the same algorithm in all threads
  static const char* T[] = {"svm", "bin", "csv"}; S algo = r.pick(all_algos());
  for (int i = 0; i < n; ++i) {
    Ses s; s.c = gen_cfg(r, alike ? std::vector<S>{algo} : all_algos()); s.c.p.erase("active_smoothness"); if (rnd) s.c.p["active_smoothness"] = pick(r, {"0.5", "1", "5"}); s.random = s.c.has("active_smoothness");
    int rows = r.range(1, 40); uint32_t dim = r.range(2, 40); s.tr = gen_cont(r, rows, dim, 6, s.c.classes, 0.05); s.te = gen_cont(r, r.range(1, 20), dim + 5, 6, s.c.classes, 0.05); { Ex e; e.label = 1; e.f.push_back(std::make_pair(1u, 0.5f)); s.tr.push_back(e); }
    s.passes = r.range(1, 2); s.bs = r.range(1, 20); s.nb = r.range(1, 3); s.way = r.below(4); if (s.way > 2) s.way = 0; if (s.way == 2 && !dense(s.tr)) s.way = 1; s.type = T[r.below(3)]; s.to = T[r.below(3)];
    s.path = tmpf(fmt("ses%d.", i) + s.type); write_file(s.path, s.type == "svm" ? enc_svm(turned(r, s.tr)) : enc(s.tr, s.type)); if (s.c.has("loss")) s.set.push_back(*s.c.p.find("loss")); for (auto& kv : s.c.p) if (kv.first != "loss") s.set.push_back(kv);
    ss.push_back(s);
  }
  // together first: what is set up on first use is then set up by several threads
  std::vector<Log> alone(n); std::vector<std::vector<Log>> all; for (int round = r.range(1, 2); round > 0; --round) {
    std::vector<Log> got(n); std::atomic<int> ready{0}; sched::begin(r.u64(), r.below(4), r.chance(0.3) ? 15 : 0); std::vector<std::thread> th;
    for (int i = 0; i < n; ++i) th.emplace_back([&, i] { ++ready; while (ready < n) sched_yield(); session(ss[i], tmpf(fmt("p%d", i)), got[i]); });
    for (auto& t : th) t.join(); uint64_t h = sched::end(); nontrivial(h); count("sessions", n); if (alike) count("alike", n); all.push_back(got);
  }
  for (int i = 0; i < n; ++i) session(ss[i], tmpf(fmt("a%d", i)), alone[i]);
  for (auto& got : all) {
    for (int i = 0; i < n; ++i) {
      if (ss[i].random) { count("random_sessions"); continue; }
      if (alone[i].v.size() != got[i].v.size()) { viol("c25.steps", ss[i].c.str() + fmt(": %zu results alone, %zu beside others", alone[i].v.size(), got[i].v.size())); continue; }
      for (size_t k = 0; k < got[i].v.size(); ++k) { count("results_compared"); if (alone[i].v[k] != got[i].v[k]) { viol("c25." + alone[i].v[k].first, ss[i].c.str() + fmt(" (%d of %d threads): alone <", i, n) + alone[i].v[k].second.substr(0, 500) + "> beside others <" + got[i].v[k].second.substr(0, 500) + ">"); break; } }
    }
  }
  if (wants_sample()) { S x; for (auto& s : ss) x += s.c.str() + "; "; sample(x); } for (auto& s : ss) unlink(s.path.c_str());
}
int main(int argc, char** argv) { return run_main(argc, argv, {{"c25_sessions", c25_sessions}}); }

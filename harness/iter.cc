// LINK: -Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_cond_wait,--wrap=pthread_cond_signal,--wrap=pthread_cond_broadcast
// Monitors for background loading: exactly-once delivery, clean shutdown, races.
#include "perturb.h"
#include "solio.h"
#include <Python.h>
#include "sol/c_api.h"
#include "sol/pario/data_iter.h"
#include <sys/mman.h>
using namespace hv;
using sol::pario::DataIter; using sol::pario::MiniBatch;

struct Src { S path, type; Data d; int passes; int kind; bool ok; int pad; bool nolabel; char* at = nullptr; long stride = 0; };  // kind 0 file, 1 csr, 2 numpy, 3 missing file, 4 unknown format, 5 bad tail
static std::vector<double> g_mem[64]; static std::vector<int> g_ind[64], g_ptr[64]; static std::vector<double> g_y[64];

// rows that lie far apart: address space is reserved once, only the rows themselves take memory
static char* far_area() { static const size_t N = 6ul << 30; static char* a = (char*)mmap(nullptr, N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (a == MAP_FAILED) return nullptr; madvise(a, N, MADV_DONTNEED); return a; }
static Src make_src(Rng& r, int slot, int& nextid, int maxrows, bool faulty) {
  Src s; s.kind = 0; s.ok = true; s.pad = 0; s.nolabel = false; bool neg = r.chance(0.3); s.passes = r.chance(0.7) ? 1 : r.chance(0.03) ? r.range(5, 40) : r.range(1, 4);
  int rows = r.chance(0.12) ? 0 : r.chance(0.005) ? r.range(300, 4000) : r.range(1, maxrows); if (rows * s.passes > 6000) s.passes = 1;
  bool wide = rows < 200 && r.chance(0.02); uint32_t dim = wide ? r.range(300, 100000) : r.chance(0.3) ? 200 : r.range(1, 20); int mf = wide ? r.range(5, 2000) : 5; if (wide) count("wide_sources"); if (rows > 200) count("long_sources"); float scale = r.chance(0.6) ? 1.f : r.pick(std::vector<float>{1e-3f, 1e-6f, 1e-8f, 1e-12f, 1e-30f, 1e4f, 1e9f, 1e30f});
  for (int i = 0; i < rows; ++i) {   // label = unique id, features derived from it
    Ex e; e.label = nextid++; if (neg && r.chance(0.5)) e.label = -e.label; int n = r.below(mf); std::set<uint32_t> ix; for (int k = 0; k < n; ++k) ix.insert(1 + r.below(dim));
    for (uint32_t j : ix) e.f.push_back(std::make_pair(j, (float(std::abs(e.label) % 997 + 1) + j * 0.25f) * scale)); s.d.push_back(e);
  }
  int k = r.below(10); if (k < 3) s.type = "svm"; else if (k < 5) s.type = "bin"; else if (k < 7) s.type = "csv"; else if (k == 7 && rows > 0) s.kind = 1; else if (k == 8 && rows > 0) s.kind = 2; else s.type = "svm";
  if (wide && dim > 2000 && (s.type == "csv" || s.kind == 2)) { s.kind = 0; s.type = "bin"; }
  if (faulty && r.chance(0.3)) s.kind = 3 + r.below(3);
  if (s.kind == 1) {
    // row offsets need not start at zero (a slice of a larger matrix), rows need not be sorted, labels may be absent
    int base = r.chance(0.3) ? r.range(1, 500) : 0; bool mix = r.chance(0.3); g_mem[slot].clear(); g_ind[slot].clear(); g_ptr[slot].assign(1, base); g_y[slot].clear();
    s.nolabel = r.chance(0.2);
    for (auto& e : s.d) { auto f = e.f; if (mix) for (size_t k = f.size(); k > 1; --k) std::swap(f[k - 1], f[r.below(k)]); for (auto& p : f) { g_ind[slot].push_back(p.first - 1); g_mem[slot].push_back(p.second); } g_ptr[slot].push_back(base + (int)g_ind[slot].size()); g_y[slot].push_back(e.label); if (s.nolabel) e.label = 0; }
    if (base) count("csr_slices"); if (s.nolabel) count("unlabelled_sources");
    g_ind[slot].push_back(0); g_mem[slot].push_back(0);
  } else if (s.kind == 2) {
    // rows may lie further apart than they are long (a slice of columns of a larger array)
    s.pad = r.chance(0.4) ? r.range(1, 5) : 0; s.nolabel = r.chance(0.2); size_t w = dim + s.pad; g_mem[slot].assign(s.d.size() * w, 0); g_y[slot].clear(); s.path = fmt("%u", dim);
    for (size_t i = 0; i < s.d.size(); ++i) { for (auto& p : s.d[i].f) g_mem[slot][i * w + p.first - 1] = p.second; for (int k = 0; k < s.pad; ++k) g_mem[slot][i * w + dim + k] = -7.5 - k; g_y[slot].push_back(s.d[i].label); if (s.nolabel) s.d[i].label = 0; }
    // the rows may come in reverse order of memory, or lie gigabytes apart
    s.at = (char*)g_mem[slot].data(); s.stride = long(w) * 8; bool spread = slot == 0 && s.d.size() > 2 && s.d.size() <= 20 && r.chance(0.1);
    if (r.chance(0.2)) { std::vector<double> o; for (size_t i = s.d.size(); i > 0; --i) o.insert(o.end(), g_mem[slot].begin() + (i - 1) * w, g_mem[slot].begin() + i * w); g_mem[slot] = o; s.at = (char*)(g_mem[slot].data() + (s.d.size() - 1) * w); s.stride = -s.stride; count("numpy_reversed"); }
    else if (char* a = spread ? far_area() : nullptr) { s.stride = long(std::min<size_t>(r.range(800, 2000), 5800 / s.d.size())) << 20; s.at = a; for (size_t i = 0; i < s.d.size(); ++i) memcpy(a + i * s.stride, &g_mem[slot][i * w], w * 8); count("numpy_far_apart"); }
    if (s.pad) count("numpy_slices"); if (s.nolabel) count("unlabelled_sources");
  } else if (s.kind == 3) { s.type = "svm"; s.path = tmpf(fmt("missing%d", slot)); s.ok = false; s.d.clear(); }
  else if (s.kind == 4) { s.path = tmpf(fmt("s%d.x", slot)); write_file(s.path, enc_svm(s.d)); s.type = "nosuchformat"; s.ok = false; s.d.clear(); }
  else if (s.kind == 5) { s.type = r.chance(0.5) ? "svm" : "bin"; s.passes = 1; s.path = tmpf(fmt("s%d.", slot) + s.type); if (s.type == "svm") write_file(s.path, enc_svm(s.d) + "1 garbage\n" + enc_svm(s.d)); else { lib_write(s.path, "bin", s.d); S c = read_file(s.path); write_file(s.path, c + S("\x01\x00\x00\x00\xff\xff\xff\xff\xff\xff\xff\x7f", 12)); } }
  else { s.path = tmpf(fmt("s%d.", slot) + s.type); if (s.type == "bin") lib_write(s.path, "bin", s.d); else write_file(s.path, enc(s.d, s.type)); }
  return s;
}
static int add_src(void* it, Src& s, int slot) {
  if (s.kind == 1) return sol_loadCsrMatrix(it, (char*)g_ind[slot].data(), (char*)g_ptr[slot].data(), (char*)g_mem[slot].data(), s.nolabel ? nullptr : (char*)g_y[slot].data(), (int)s.d.size(), s.passes);
  if (s.kind == 2) { int dim = atoi(s.path.c_str()); npy_intp dims[2] = {(npy_intp)s.d.size(), dim}, str[2] = {(npy_intp)s.stride, 8}; return sol_loadArray(it, s.at, s.nolabel ? nullptr : (char*)g_y[slot].data(), dims, str, s.passes); }
  return sol_LoadData(it, s.path.c_str(), s.type.c_str(), s.passes);
}
static S describe(const std::vector<Src>& v, int bs, int nb) { S s = fmt("batch=%d buf=%d sources:", bs, nb); for (auto& x : v) s += fmt(" %s/%zux%d", x.kind == 0 ? x.type.c_str() : x.kind == 1 ? "csr" : x.kind == 2 ? "numpy" : x.kind == 3 ? "missing" : x.kind == 4 ? "unknown" : "badtail", x.d.size(), x.passes); return s; }

static void c03_case(Rng& r, bool faulty) {
  int bs = r.chance(0.3) ? r.range(1, 3) : r.chance(0.02) ? r.range(100, 3000) : r.range(1, 40), nb = r.chance(0.02) ? r.range(6, 50) : r.range(1, 5), ns = r.chance(0.01) ? r.range(5, 40) : r.range(1, 4), id = 1; if (ns > 4) count("many_sources"); if (nb > 5) count("many_buffers"); if (bs > 40) count("large_batches"); std::vector<Src> src;
  for (int i = 0; i < ns; ++i) src.push_back(make_src(r, i, id, r.chance(0.2) ? 150 : 25, faulty));
  int mode = r.below(4), sp = r.chance(0.5) ? r.range(5, 50) : 0; S what = describe(src, bs, nb);
  Data want; sched::begin(r.u64(), mode, sp);
  DataIter* it = (DataIter*)sol_CreateDataIter(bs, nb); if (!it) { viol("c03.create", what); sched::end(); return; }
  int late = r.chance(0.25) ? ns - 1 : ns;    // the last source may be added after the first ones are exhausted
  auto add = [&](int i) { int ret = add_src(it, src[i], i); if ((ret == 0) != src[i].ok) viol("c03.addstatus", what + fmt(" source %d status %d", i, ret)); if (ret == 0) for (int p = 0; p < src[i].passes; ++p) want.insert(want.end(), src[i].d.begin(), src[i].d.end()); };
  for (int i = 0; i < late; ++i) add(i);
  size_t pos = 0; MiniBatch* mb = nullptr; bool bad = false; long batches = 0;
  for (int phase = 0; phase < 2 && !bad; ++phase) {
    if (phase == 1) { if (late == ns) break; add(late); }
    while (!bad) {
      mb = it->Next(mb); if (!mb) break; ++batches;
      if (mb->size() < 0 || mb->size() > bs) { viol("c03.batchsize", what + fmt(" batch of %d", mb->size())); bad = true; break; }
      if (r.chance(0.1)) sched::point(); if (mode >= 2 && r.chance(0.05)) sched::nap(r.range(1, 300));
      for (int i = 0; i < mb->size(); ++i) {
        Ex e = from_dp((*mb)[i]);
        if (pos >= want.size()) { viol("c03.extra", what + fmt(" more than %zu examples, extra <", want.size()) + show(e) + ">"); bad = true; break; }
        if (!same_ex(e, want[pos])) { viol(e.label == want[pos].label ? "c03.content" : "c03.order", what + fmt(" position %zu expected <", pos) + show(want[pos]) + "> got <" + show(e) + ">"); bad = true; break; }
        ++pos;
        if (r.chance(0.05)) { (*mb)[i].Clear(); (*mb)[i].set_label(-12345); (*mb)[i].AddNewFeat(3, 4); }   // a consumer may scribble on delivered examples
      }
      if (batches > 100000) { viol("c03.endless", what); bad = true; }
    }
    if (!bad && pos != want.size()) { viol("c03.lost", what + fmt(" delivered %zu of %zu", pos, want.size())); bad = true; }
  }
  if (!bad && r.chance(0.5)) { mb = it->Next(nullptr); if (mb) viol("c03.afterend", what + " a batch after the end of data"); }
  void* p = it; sol_ReleaseDataIter(&p); if (p) viol("c03.release", "handle not cleared");
  uint64_t h = sched::end(); nontrivial(h ^ hash_str(what)); count("examples_delivered", pos); count("batches", batches); if (ns <= 4) count(fmt("sources.%d", ns)); if (late < ns) count("late_sources");
  if (wants_sample()) sample(what + fmt(" -> %zu examples in %ld batches, schedule %llx", pos, batches, (unsigned long long)h));
}
static void c03_deliver(Rng& r) { c03_case(r, false); }
static void c03_faulty(Rng& r) { c03_case(r, true); }

// ------------------------------------------------------------------ C04
static int g_threads0 = -1, g_fds0 = -1;
static void* noop(void*) { return nullptr; }
static void baseline() {  // after the sanitizer runtime has started its own background thread
  if (g_threads0 >= 0) return; pthread_t t; pthread_create(&t, 0, noop, 0); pthread_join(t, 0);
  int n = sched::nthreads(), same = 0; for (int i = 0; i < 2000 && same < 50; ++i) { sched::nap(1000); int k = sched::nthreads(); same = k == n ? same + 1 : 0; n = k; }
  g_threads0 = n; g_fds0 = sched::nfds();
}
static void after(const S& what) {
  int n = sched::settle_threads(g_threads0); if (n > g_threads0) viol("c04.threads", what + fmt(" %d threads remain, %d before", n, g_threads0));
  int f = sched::nfds(); if (f > g_fds0) { viol("c04.fds", what + fmt(" %d descriptors remain, %d before", f, g_fds0)); g_fds0 = f; }
  if (__lsan_do_recoverable_leak_check && getenv("HV_LEAK") && (core().idx % 10 == 0 || core().verbose)) { if (__lsan_do_recoverable_leak_check()) viol("c04.leak", what + " leaked memory (within the last 10 cases)"); count("leak_checks"); }
}
static void dummy_pred(void* ctx, double, double, int, float*) { ++*(long*)ctx; }
static void c04_abandon(Rng& r) {
  baseline();
  int bs = r.range(1, 12), nb = r.range(1, 5), ns = r.chance(0.1) ? 0 : r.range(1, 4), id = 1; std::vector<Src> src;
  for (int i = 0; i < ns; ++i) src.push_back(make_src(r, i, id, r.chance(0.3) ? 120 : 15, true));
  S what = describe(src, bs, nb); int mode = r.below(4), sp = r.chance(0.5) ? r.range(5, 50) : 0;
  sched::begin(r.u64(), mode, sp);
  DataIter* it = (DataIter*)sol_CreateDataIter(bs, nb); long expect = 0;
  for (int i = 0; i < ns; ++i) if (add_src(it, src[i], i) == 0) expect += (long)src[i].d.size() * src[i].passes;
  int stop = r.chance(0.2) ? 0 : r.range(1, 30); what += fmt(" stop after %d batches", stop); MiniBatch* mb = nullptr; int k = 0; long seen = 0; bool ended = false;
  bool keep = r.chance(0.5);
  while (k < stop) { mb = it->Next(mb); ++k; if (!mb) { ended = true; break; } seen += mb->size(); for (int i = 0; i < mb->size(); ++i) { volatile int l = (*mb)[i].label(); (void)l; if ((*mb)[i].size()) { volatile float v = (*mb)[i].feature(0); (void)v; } } if (r.chance(0.1)) sched::nap(r.range(1, 200)); }
  (void)keep;
  if (mode >= 2 && r.chance(0.3)) sched::nap(r.range(1, 500));
  void* p = it; sol_ReleaseDataIter(&p);
  uint64_t h = sched::end(); nontrivial(h ^ hash_str(what)); count(ended ? "ran_to_end" : "abandoned"); if (!ended && k == 0) count("abandoned_before_first");
  if (ended && seen != expect) viol("c04.count", what + fmt(" %ld of %ld examples", seen, expect));
  after(what); if (wants_sample()) sample(what);
}
static void c04_models(Rng& r) {
  baseline();
  static const char* M[] = {"ogd", "perceptron", "pa1", "arow", "ada-fobos-l1", "sofs", "alma2", "rda"}; const char* name = M[r.below(8)];
  DOpt o; o.rows = r.range(0, 60); o.dim = r.range(1, 60); Data d = gen_data(r, o); S type = r.chance(0.5) ? "svm" : "bin", path = tmpf("m." + type); if (type == "svm") write_file(path, enc_svm(d)); else lib_write(path, "bin", d);
  int bs = r.range(1, 9), nb = r.range(1, 4); S what = fmt("%s batch=%d buf=%d rows=%d", name, bs, nb, o.rows);
  sched::begin(r.u64(), r.below(4), r.chance(0.5) ? 20 : 0);
  void* m = sol_CreateModel(name, 2); if (!m) { viol("c04.model", what); sched::end(); return; }
  int passes = r.range(1, 3); void* it = sol_CreateDataIter(bs, nb); for (int i = 0, n = r.range(1, 3); i < n; ++i) sol_LoadData(it, path.c_str(), type.c_str(), passes);
  sol_Train(m, it); sol_ReleaseDataIter(&it);
  it = sol_CreateDataIter(bs, nb); sol_LoadData(it, path.c_str(), type.c_str(), 1); sol_Test(m, it, r.chance(0.3) ? tmpf("o").c_str() : nullptr); sol_ReleaseDataIter(&it);
  it = sol_CreateDataIter(bs, nb); sol_LoadData(it, path.c_str(), type.c_str(), 1); long n = 0; int got = sol_Predict(m, it, dummy_pred, &n); sol_ReleaseDataIter(&it);
  if (got != (int)d.size() || n != (long)d.size()) viol("c04.predictcount", what + fmt(" %d/%ld of %zu", got, n, d.size()));
  sol_ReleaseModel(&m); uint64_t h = sched::end(); nontrivial(h ^ hash_data(d)); count("model_runs"); after(what);
}
// several iterators and models at work in different threads of one program
static void quiet_cb(void*, long long, long long, long long, double) {}   // the default one prints to the shared std::cout
struct Par { void* m; S path, type; int bs, nb; float err; int n; long cb; };
static void* par_run(void* a) {
  Par* p = (Par*)a; void* it = sol_CreateDataIter(p->bs, p->nb); sol_LoadData(it, p->path.c_str(), p->type.c_str(), 2); p->err = sol_Train(p->m, it); sol_ReleaseDataIter(&it);
  it = sol_CreateDataIter(p->bs, p->nb); sol_LoadData(it, p->path.c_str(), p->type.c_str(), 1); p->cb = 0; p->n = sol_Predict(p->m, it, dummy_pred, &p->cb); sol_ReleaseDataIter(&it); return nullptr;
}
static void c04_parallel(Rng& r) {
  baseline();
  int nt = r.range(2, 4); std::vector<Par> ps(nt); std::vector<size_t> rows; static const char* M[] = {"ogd", "pa", "arow", "ada-rda", "pet", "cw"};
  for (int i = 0; i < nt; ++i) { DOpt o; o.rows = r.range(1, 40); o.dim = r.range(1, 40); Data d = gen_data(r, o); rows.push_back(d.size()); ps[i].type = r.chance(0.5) ? "svm" : "csv"; if (ps[i].type == "csv") d = drop_zeros(d); ps[i].path = tmpf(fmt("p%d", i)); write_file(ps[i].path, enc(d, ps[i].type)); ps[i].bs = r.range(1, 9); ps[i].nb = r.range(1, 3); ps[i].m = sol_CreateModel(M[r.below(6)], 2); sol_InspectOnlineIteration(ps[i].m, quiet_cb, nullptr); }
  sched::begin(r.u64(), r.below(4), 0); std::vector<pthread_t> th(nt); for (int i = 0; i < nt; ++i) pthread_create(&th[i], 0, par_run, &ps[i]); for (auto& t : th) pthread_join(t, 0);
  uint64_t h = sched::end(); nontrivial(h); for (int i = 0; i < nt; ++i) { if (ps[i].n != (int)rows[i] || ps[i].cb != (long)rows[i]) viol("c04.parallel.count", fmt("thread %d: %d of %zu", i, ps[i].n, rows[i])); sol_ReleaseModel(&ps[i].m); } count("parallel_runs"); after("parallel");
}
int main(int argc, char** argv) { return run_main(argc, argv, {{"c03_deliver", c03_deliver}, {"c03_faulty", c03_faulty}, {"c04_abandon", c04_abandon}, {"c04_models", c04_models}, {"c04_parallel", c04_parallel}}); }

// LINK: -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free
// Monitor of the memory held while streaming: it does not grow with the number of examples.
#include "solm.h"
#include <atomic>
#include <malloc.h>
#include <new>
using namespace hv;
static std::atomic<long> live{0}, peak{0};
static void got(void* p) { if (!p) return; long n = live.fetch_add(long(malloc_usable_size(p)), std::memory_order_relaxed) + long(malloc_usable_size(p)); long q = peak.load(std::memory_order_relaxed); while (n > q && !peak.compare_exchange_weak(q, n, std::memory_order_relaxed)) {} }
static void gone(void* p) { if (p) live.fetch_sub(long(malloc_usable_size(p)), std::memory_order_relaxed); }
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*);
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); got(p); return p; }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); got(p); return p; }
void* __wrap_realloc(void* o, size_t n) { gone(o); void* p = __real_realloc(o, n); if (p) got(p); else if (n && o) got(o); return p; }
void __wrap_free(void* p) { gone(p); __real_free(p); }
}
void* operator new(size_t n) { void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); got(p); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { gone(p); __real_free(p); }
void operator delete[](void* p) noexcept { gone(p); __real_free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

struct Job { Cfg c; int what; S type, to; int bs, nb; };
static void no_pred(void*, double, double, int, float*) {}
// peak of what the library holds while it goes through the file
static long measure(const Job& j, const S& path, int passes, long& examples) {
  S out = tmpf("mem.out"); long base, top; examples = 0; unlink(out.c_str());
  if (j.what >= 3) {
    base = live; peak = base; int st = j.what == 3 ? sol_convert_data(path.c_str(), j.type.c_str(), out.c_str(), j.to.c_str(), false, 0.f) : sol_analyze_data(path.c_str(), j.type.c_str(), out.c_str()); top = peak; unlink(out.c_str()); return st == 0 ? top - base : -1;
  }
  base = live; void* m = sol_CreateModel(j.c.algo.c_str(), j.c.classes); if (!m) return -1; if (j.c.has("loss")) sol_SetModelParameter(m, "loss", j.c.p.find("loss")->second.c_str()); for (auto& kv : j.c.p) if (kv.first != "loss") sol_SetModelParameter(m, kv.first.c_str(), kv.second.c_str()); sol_InspectOnlineIteration(m, quiet, nullptr);
  if (j.what) { void* it = sol_CreateDataIter(8, 2); sol_LoadData(it, path.c_str(), j.type.c_str(), 1); sol_Train(m, it); sol_ReleaseDataIter(&it); }
  peak = live.load(); void* it = sol_CreateDataIter(j.bs, j.nb); int st = sol_LoadData(it, path.c_str(), j.type.c_str(), passes);
  if (st == 0) { if (j.what == 0) sol_Train(m, it); else if (j.what == 1) sol_Test(m, it, out.c_str()); else examples = sol_Predict(m, it, no_pred, nullptr); }
  top = peak; sol_ReleaseDataIter(&it); sol_ReleaseModel(&m); unlink(out.c_str()); return st == 0 ? top - base : -1;
}
static void c26_stream(Rng& r) {
  static const char* T[] = {"svm", "bin", "csv"}; static const char* W[] = {"train", "test", "predict", "convert", "analyze"};
  Job j; j.c = gen_cfg(r, all_algos()); j.c.p.erase("active_smoothness"); j.what = r.chance(0.4) ? 0 : r.range(1, 4); j.type = T[r.below(3)]; j.to = T[r.below(3)]; j.bs = r.range(1, 32); j.nb = r.range(1, 4);
  // rows of one size, so that a short run already fills every slot of the batches in flight
  int rows = r.range(20, 60), k = r.range(2, 12); uint32_t dim = r.range(20, 60); Data d = gen_cont(r, rows, dim, 3, j.c.classes, 0); for (auto& e : d) { std::set<uint32_t> ix; while (int(ix.size()) < k) ix.insert(1 + r.below(dim)); e.f.clear(); for (uint32_t i : ix) e.f.push_back(std::make_pair(i, float(r.uni(0.1, 1)))); }
  int fill = j.what >= 3 ? 2000 : 3 * j.bs * (j.nb + 3), few = fill / rows + 2, rep = few + (j.what >= 3 ? 12000 : 5000) / rows; Data two, many; for (int q = 0; q < rep; ++q) { if (q < few) two.insert(two.end(), d.begin(), d.end()); many.insert(many.end(), d.begin(), d.end()); } long nshort = long(two.size());
  bool bypass = j.what < 3 && r.chance(0.5);   // repeated in the file, or by passes
  S p2 = tmpf("mem2." + j.type), p9 = tmpf("mem9." + j.type); write_file(p2, enc(two, j.type)); write_file(p9, bypass ? enc(d, j.type) : enc(many, j.type)); 
  { std::vector<Ex>().swap(two); std::vector<Ex>().swap(many); } long n1, n2, a = 0, b = 0; for (int k = 0; k < 2; ++k) a = std::max(a, measure(j, p2, 1, n1)); b = measure(j, p9, bypass ? rep : 1, n2); unlink(p2.c_str()); unlink(p9.c_str());
  if (a < 0 || b < 0) { viol("c26.setup", j.c.str() + " " + W[j.what] + " " + j.type); return; }
  long slack = 8192 + (j.what >= 3 ? 3L * 256 : j.bs * (j.nb + 1L)) * (k * 16 + 64); long total = long(rep) * d.size(); if (b > a + slack) viol(S("c26.") + W[j.what], j.c.str() + " " + j.type + (j.what == 3 ? ">" + j.to : S("")) + fmt(" batch=%d buffers=%d: %ld bytes at most over %zu examples, %ld over %ld%s", j.bs, j.nb, a, size_t(nshort), b, total, bypass ? " (passes)" : ""));
  if (b - a > 4096) count("grew_4k"); if (b - a > 12000) count("grew_12k"); count("bytes_short", a); count("bytes_long", b); count(S("streams.") + W[j.what]); count("examples_streamed", total); if (bypass) count("by_passes"); nontrivial(hash_data(d) ^ hash_str(j.c.str() + W[j.what] + j.type)); if (wants_sample()) sample(j.c.str() + " " + W[j.what] + " " + j.type + fmt(": peak %ld bytes over %zu examples, %ld over %ld (allowed %ld)", a, size_t(nshort), b, total, a + slack));
}
int main(int argc, char** argv) { return run_main(argc, argv, {{"c26_stream", c26_stream}}); }

// LINK: -Wl,--wrap=fopen
// Monitors of the dataset tools and of failing output.
#include "solm.h"
#include <signal.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <fcntl.h>
#include <atomic>
using namespace hv;
// ---- write fault injection: the n-th write to a file whose path starts with `prefix` fails once, or from then on
namespace fault {
static std::atomic<int> on{0}; static S prefix; static long seen, at; static bool forever, injected; static int err, bufsize;
static bool hit(size_t n) { if (n == 0) return false; long i = seen++; if (i == at || (forever && i > at)) { injected = true; errno = err; return true; } return false; }
static void start(const S& p, long k, bool f, int e) { prefix = p; seen = 0; at = k; forever = f; injected = false; err = e; on = 1; }
static void stop() { on = 0; }
static bool match(int fd) { if (!on) return false; char l[64], b[1024]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, b, sizeof b - 1); if (n <= 0) return false; b[n] = 0; return strncmp(b, prefix.c_str(), prefix.size()) == 0; }
struct Cookie { int fd; };
static ssize_t cw(void* c, const char* b, size_t n) { if (on && hit(n)) return 0; size_t k = 0; while (k < n) { long m = syscall(SYS_write, ((Cookie*)c)->fd, b + k, n - k); if (m <= 0) return k; k += m; } return n; }
static ssize_t cr(void* c, char* b, size_t n) { return syscall(SYS_read, ((Cookie*)c)->fd, b, n); }
static int cs(void* c, off64_t* o, int w) { off64_t r = lseek64(((Cookie*)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
// reading: the n-th read of the file `rpath` fails, once or from then on; a read delivers at most `rmax` bytes
static std::atomic<int> ron{0}; static S rpath; static long rseen, rat, rmax; static bool rforever, rinjected, rended;
static void rstart(const S& p, long k, bool f, int e, long mx) { rpath = p; rseen = 0; rat = k; rforever = f; rinjected = rended = false; err = e; rmax = mx; ron = 1; }
static ssize_t rd(int fd, char* b, size_t n) { long i = rseen++; if (i == rat || (rforever && i > rat)) { rinjected = true; errno = err; return -1; } if (rmax && n > size_t(rmax)) n = rmax; ssize_t k = syscall(SYS_read, fd, b, n); if (k == 0) rended = true; return k; }
static ssize_t crf(void* c, char* b, size_t n) { return ron ? rd(((Cookie*)c)->fd, b, n) : syscall(SYS_read, ((Cookie*)c)->fd, b, n); }
static bool rmatch(int fd) { char l[64], b[1024]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, b, sizeof b - 1); return n > 0 && S(b, n) == rpath; }
static int cc(void* c) { int r = close(((Cookie*)c)->fd); delete (Cookie*)c; return r; }
}
extern "C" {
FILE* __real_fopen(const char*, const char*);
FILE* __wrap_fopen(const char* p, const char* m) {
  if (fault::ron && m[0] == 'r' && fault::rpath == p) { int fd = open(p, O_RDONLY); if (fd < 0) return nullptr; fault::Cookie* c = new fault::Cookie; c->fd = fd; cookie_io_functions_t io = {fault::crf, fault::cw, fault::cs, fault::cc}; FILE* f = fopencookie(c, m, io); if (!f) { close(fd); delete c; } return f; }
  if (!fault::on || strncmp(p, fault::prefix.c_str(), fault::prefix.size()) || m[0] == 'r') return __real_fopen(p, m);
  int fd = open(p, (strchr(m, '+') ? O_RDWR : O_WRONLY) | O_CREAT | (m[0] == 'w' ? O_TRUNC : O_APPEND), 0666); if (fd < 0) return nullptr;
  fault::Cookie* c = new fault::Cookie; c->fd = fd; cookie_io_functions_t io = {fault::cr, fault::cw, fault::cs, fault::cc}; FILE* f = fopencookie(c, m, io); if (!f) { close(fd); delete c; } else if (fault::bufsize) setvbuf(f, nullptr, _IOFBF, fault::bufsize); return f;
}
ssize_t write(int fd, const void* b, size_t n) { if (fault::on && fault::match(fd) && fault::hit(n)) return -1; return syscall(SYS_write, fd, b, n); }
ssize_t read(int fd, void* b, size_t n) { if (fault::ron && fault::rmatch(fd)) return fault::rd(fd, (char*)b, n); return syscall(SYS_read, fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int k) { size_t n = 0; for (int i = 0; i < k; ++i) n += v[i].iov_len; if (fault::on && fault::match(fd) && fault::hit(n)) return -1; return syscall(SYS_writev, fd, v, k); }
}
typedef std::map<S, long> Bag;
static const char* T3[] = {"svm", "bin", "csv"};
// the key of an example as a reader of this format sees it
static S key(const Ex& e) { S s = fmt("%d", e.label); for (auto& p : e.f) { uint32_t b; memcpy(&b, &p.second, 4); s += fmt(" %u:%08x", p.first, b); } return s; }
static Bag bag(const Data& d) { Bag b; for (auto& e : d) b[key(e)]++; return b; }
static S diff_bag(const Bag& want, const Bag& got) {
  for (auto& kv : want) { auto it = got.find(kv.first); long n = it == got.end() ? 0 : it->second; if (n != kv.second) return fmt("%ld times instead of %ld: <", n, kv.second) + kv.first.substr(0, 200) + ">"; }
  for (auto& kv : got) if (!want.count(kv.first)) return fmt("%ld times instead of 0: <", kv.second) + kv.first.substr(0, 200) + ">"; return "";
}
// values that survive six significant digits, so that every format keeps them
static Data tool_data(Rng& r, bool csvsafe) {
  DOpt o; o.rows = r.chance(0.08) ? 0 : r.chance(0.06) ? r.range(200, 900) : r.range(1, 40); o.dim = csvsafe ? r.range(1, 40) : r.pick(std::vector<uint32_t>{1, 5, 40, 300, 20000}); o.maxfeat = r.range(1, 8); o.empty = r.chance(0.15) ? 0.5 : 0.1; o.vals = r.range(1, 2); o.labels = r.chance(0.3) ? r.range(1, 2) : 0; o.classes = r.range(2, 5);
  if (r.chance(0.012)) { switch (r.below(4)) { case 0: o.rows = r.range(2000, 13000); break; case 1: o.maxfeat = r.range(100, 3000); o.rows = r.range(1, 12); o.dim = csvsafe ? o.maxfeat : o.maxfeat * 4; break; case 2: o.classes = r.range(20, 500); o.labels = 0; o.rows = r.range(100, 1500); break; default: if (!csvsafe) o.dim = r.pick(std::vector<uint32_t>{65537, 1000000, 20000000}); o.rows = r.range(1, 30); } count("large_inputs"); }
  Data d = gen_data(r, o); for (auto& e : d) for (auto& p : e.f) p.second = r.chance(0.5) ? p.second * 0.25f : p.second;
  if (r.chance(0.1)) { count("explicit_zeros"); for (auto& e : d) for (auto& p : e.f) if (r.chance(0.2)) p.second = 0; }
  if (r.chance(0.4) && d.size() > 1) for (size_t i = 0; i < d.size(); ++i) if (r.chance(0.3)) d[i] = d[r.below(d.size())];   // duplicates count too
  if (csvsafe) { bool any = false; for (auto& e : d) any |= !e.f.empty(); if (!any) { Ex e; e.label = 1; e.f.push_back(std::make_pair(1u, 1.f)); d.push_back(e); } }
  return d;
}
static bool has_csv(const S& a, const S& b) { return a == "csv" || b == "csv"; }
static void c18_shuffle(Rng& r) {
  S st = T3[r.below(3)], dt = r.chance(0.3) ? S("") : S(T3[r.below(3)]), rt = dt.empty() ? st : dt; Data d = tool_data(r, has_csv(st, dt)); S a = tmpf("sh.in"), b = tmpf("sh.out"); write_file(a, enc(d, st));
  int ret = sol_shuffle_data(a.c_str(), st.c_str(), b.c_str(), dt.empty() && r.chance(0.5) ? nullptr : dt.c_str()); S what = "shuffle " + st + ">" + dt + fmt(" %zu examples", d.size());
  Data want = has_csv(st, rt) ? drop_zeros(d) : d, got; int e = ret ? 0 : lib_read_file(b, rt, got);
  if (ret) viol("c18.shuffle.failed", what + fmt(": status %d", ret));
  else if (e != kEOF) viol("c18.shuffle.unreadable", what + fmt(": status %d reading the output", e));
  else { S df = diff_bag(bag(want), bag(got)); if (!df.empty()) viol("c18.shuffle.content", what + ": " + df); if (d.size() > 20) { bool moved = false; for (size_t i = 0; i < d.size() && !moved; ++i) moved = key(want[i]) != key(got[i]); static long same = 0; if (!moved && bag(want).size() > 15 && ++same > 3) viol("c18.shuffle.same", what + ": the order never changes"); if (moved) count("reordered"); } }
  count("shuffles"); count("examples_shuffled", d.size()); nontrivial(hash_data(d)); if (wants_sample()) sample(what);
}
static void c18_split(Rng& r) {
  S st = T3[r.below(3)], dt = r.chance(0.3) ? S("") : S(T3[r.below(3)]), rt = dt.empty() ? st : dt; Data d = tool_data(r, has_csv(st, dt)); int k = r.chance(0.15) ? r.chance(0.05) ? r.range(60, 300) : r.range(10, 60) : r.range(1, 7); bool sh = r.chance(0.5); S a = tmpf("sp.in"), pre = tmpf("sp_"); write_file(a, enc(d, st));
  for (int i = 0; i < k + 2; ++i) unlink((pre + fmt("%d.", i) + rt).c_str());
  int ret = sol_split_data(a.c_str(), st.c_str(), k, pre.c_str(), dt.empty() && r.chance(0.5) ? nullptr : dt.c_str(), sh); S what = "split " + st + ">" + dt + fmt(" %zu examples into %d%s", d.size(), k, sh ? " shuffled" : "");
  if (ret) { viol("c18.split.failed", what + fmt(": status %d", ret)); return; }
  Data want = has_csv(st, rt) ? drop_zeros(d) : d, all; size_t fair = (d.size() + k - 1) / k;
  for (int i = 0; i < k; ++i) { S p = pre + fmt("%d.", i) + rt; Data part; if (!exists(p)) { if (d.empty()) continue; viol("c18.split.missing", what + fmt(": part %d is missing", i)); return; } int e = lib_read_file(p, rt, part); if (e != kEOF && !(part.empty() && all.size() == d.size())) { viol("c18.split.unreadable", what + fmt(": status %d reading part %d", e, i)); return; } if (part.size() > fair) viol("c18.split.share", what + fmt(": part %d holds %zu, a fair share is %zu", i, part.size(), fair)); all.insert(all.end(), part.begin(), part.end()); count("parts"); }
  if (exists(pre + fmt("%d.", k) + rt)) viol("c18.split.extra", what + ": more parts than asked for");
  S df = diff_bag(bag(want), bag(all)); if (!df.empty()) viol("c18.split.content", what + ": " + df);
  count("splits"); if ((size_t)k > d.size()) count("more_parts_than_examples"); nontrivial(hash_data(d, k)); if (wants_sample()) sample(what); for (int i = 0; i < k + 1; ++i) unlink((pre + fmt("%d.", i) + rt).c_str());
}
static void c18_analyze(Rng& r) {
  S st = T3[r.below(3)]; Data d = tool_data(r, st == "csv"); if (r.chance(0.1)) for (auto& e : d) for (auto& p : e.f) if (r.chance(0.3)) p.second = 0; S a = tmpf("an.in"), b = tmpf("an.out"); write_file(a, enc(d, st)); Data seen = st == "csv" ? drop_zeros(d) : d;
  int ret = sol_analyze_data(a.c_str(), st.c_str(), b.c_str()); S what = "analyze " + st + fmt(" %zu examples", d.size()); if (ret) { viol("c18.analyze.failed", what + fmt(": status %d", ret)); return; }
  std::map<S, S> m; S t = read_file(b); size_t s = 0; while (s < t.size()) { size_t e = t.find('\n', s); if (e == S::npos) e = t.size(); S l = t.substr(s, e - s); size_t c = l.rfind(':'); if (c != S::npos) { S k = l.substr(0, c), v = l.substr(c + 1); while (!k.empty() && k.back() == ' ') k.pop_back(); while (!v.empty() && v[0] == ' ') v.erase(0, 1); m[k] = v; } s = e + 1; }
  size_t nf = 0; std::set<uint32_t> ix; uint32_t dim = 0; std::map<int, long> cls; for (auto& e : seen) { nf += e.f.size(); cls[e.label]++; for (auto& p : e.f) { ix.insert(p.first); dim = std::max(dim, p.first); } }
  auto want = [&](const S& k, unsigned long long v) { if (!m.count(k) || m[k] != fmt("%llu", v)) viol("c18.analyze." + k.substr(0, 14), what + ": " + k + " is " + (m.count(k) ? m[k] : S("missing")) + fmt(", expected %llu", v)); };
  want("data number", d.size()); want("feat number", nf); want("dimension", dim); want("nonzero feat", ix.size()); want("class num", cls.size()); for (auto& kv : cls) want(fmt("data number of class %d", kv.first), kv.second);
  size_t extra = 0; for (auto& kv : m) if (kv.first.compare(0, 20, "data number of class") == 0) ++extra; if (extra != cls.size()) viol("c18.analyze.classes", what + ": reports other classes");
  count("analyses"); count("features_counted", nf); nontrivial(hash_data(d)); if (wants_sample()) sample(what + fmt(": %zu features, dimension %u, %zu classes", nf, dim, cls.size()));
}
static void c18_binarize(Rng& r) {
  S st = T3[r.below(3)], dt = T3[r.below(3)]; Data d = tool_data(r, has_csv(st, dt)); float th = r.chance(0.5) ? float(r.range(-8, 8)) * 0.25f : float(r.gauss()); S a = tmpf("bi.in"), b = tmpf("bi.out"); write_file(a, enc(d, st)); bool on = r.chance(0.85);
  int ret = sol_convert_data(a.c_str(), st.c_str(), b.c_str(), dt.c_str(), on, th); S what = "convert " + st + ">" + dt + fmt(" %zu examples, threshold %g%s", d.size(), th, on ? "" : " (off)");
  if (ret) { viol("c18.binarize.failed", what + fmt(": status %d", ret)); return; }
  Data want = has_csv(st, "") ? drop_zeros(d) : d; if (on) for (auto& e : want) for (auto& p : e.f) { if (p.second == th) count("at_threshold"); p.second = p.second > th ? 1.f : -1.f; } if (dt == "csv") want = drop_zeros(want);
  Data got; int e = lib_read_file(b, dt, got); if (e != kEOF) viol("c18.binarize.unreadable", what + fmt(": status %d", e)); else { S df = diff_data(want, got, true); if (!df.empty()) viol("c18.binarize.content", what + ": " + df); }
  count("conversions"); nontrivial(hash_data(d)); if (wants_sample()) sample(what);
}
// ------------------------------------------------------------------ C20
struct Limit { struct rlimit old; Limit(size_t n) { getrlimit(RLIMIT_FSIZE, &old); struct rlimit l = old; l.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &l); } ~Limit() { setrlimit(RLIMIT_FSIZE, &old); } };
// does the operation into path; returns 0 if it reported success
typedef std::function<int(const S&)> Op;
static Op make_op(Rng& r, S* name, S* what, std::vector<S>* outs, std::vector<std::shared_ptr<void>>* keep) {
  int k = r.below(7); bool big = r.chance(0.4); static const char* N[] = {"save", "test", "convert", "shuffle", "split", "analyze", "writer"}; *name = N[k];
  if (k < 2) {
    Cfg c = gen_cfg(r, all_algos()); c.p.erase("active_smoothness"); void* m = make_model(c); if (!m) { return Op(); } sol_InspectOnlineIteration(m, quiet, nullptr);
    Data d = gen_cont(r, big ? 300 : r.range(1, 30), big ? 2000 : r.range(1, 60), 8, c.classes, 0.1); { Feed f; f.csr(d); sol_Train(m, f.it); } predict(m, d);
    keep->push_back(std::shared_ptr<void>(m, [](void* p) { sol_ReleaseModel(&p); })); *what = c.str() + fmt(" %zu examples", d.size()); outs->push_back("");
    if (k == 0) return [m](const S& p) { return sol_SaveModel(m, p.c_str()); };
    return [m, d](const S& p) { Feed f; f.csr(d); return sol_Test(m, f.it, p.c_str()) < 0 ? 1 : 0; };
  }
  S st = T3[r.below(3)], dt = T3[r.below(3)]; Data d = tool_data(r, true); if (big) { Data x = d; while (d.size() < 900) d.insert(d.end(), x.begin(), x.end()); } S in = tmpf("fault.in"); write_file(in, enc(d, st)); *what = st + ">" + dt + fmt(" %zu examples", d.size());
  if (k == 6) { outs->push_back(""); return [=](const S& p) { return lib_write(p, dt, d); }; }
  if (k == 2) { outs->push_back(""); return [=](const S& p) { return sol_convert_data(in.c_str(), st.c_str(), p.c_str(), dt.c_str(), false, 0); }; }
  if (k == 3) { outs->push_back(""); return [=](const S& p) { return sol_shuffle_data(in.c_str(), st.c_str(), p.c_str(), dt.c_str()); }; }
  if (k == 4) { int n = r.range(1, 4); for (int i = 0; i < n; ++i) outs->push_back(fmt("%d.", i) + dt); return [=](const S& p) { return sol_split_data(in.c_str(), st.c_str(), n, p.c_str(), dt.c_str(), false); }; }
  outs->push_back(""); return [=](const S& p) { return sol_analyze_data(in.c_str(), st.c_str(), p.c_str()); };
}
static void c20_faults(Rng& r) {
  static bool once = (signal(SIGXFSZ, SIG_IGN), true); (void)once;
  std::vector<S> outs; std::vector<std::shared_ptr<void>> keep; S name, what; Op op = make_op(r, &name, &what, &outs, &keep); if (!op) { viol("c20.setup", "cannot create"); return; } what = name + " " + what + ": ";
  S p = tmpf("fault.out"); auto clean = [&]() { for (auto& o : outs) unlink((p + o).c_str()); }; clean();
  if (op(p) != 0) { viol("c20.refused." + name, what + "fails although nothing is wrong"); clean(); return; }
  size_t most = 0; std::vector<S> full; for (auto& o : outs) { full.push_back(read_file(p + o)); most = std::max(most, full.back().size()); } clean(); count("complete." + name);
  bool random = name == "shuffle"; auto complete = [&]() { for (size_t i = 0; i < outs.size(); ++i) { S c = read_file(p + outs[i]); if (random) { if (c.size() != full[i].size()) return false; } else if (c != full[i]) return false; } return true; };
  for (int i = 0; i < 4; ++i) {   // the file system takes no more than n bytes per file
    size_t n = r.chance(0.2) ? most : r.chance(0.3) ? most - 1 : r.chance(0.2) ? 0 : r.chance(0.3) ? std::min<size_t>(most, 4096 * r.range(1, 6)) : r.below(most + 1); int ret; { Limit l(n); ret = op(p); }
    if (ret == 0 && !complete()) viol("c20.lost." + name, what + fmt("reported success with at most %zu of %zu bytes stored", n, most));
    if (ret != 0 && n >= most) viol("c20.false." + name, what + fmt("reported failure with room for %zu of %zu bytes", n, most));
    clean(); count(n < most ? "size_limits" : "sufficient_limits"); nontrivial(hash_str(what, n + 1));
  }
  fault::bufsize = r.chance(0.5) ? r.pick(std::vector<int>{64, 200, 512}) : 0; fault::start(p, -1, false, 0); if (op(p) != 0 || !complete()) viol("c20.refused." + name, what + "fails although nothing is wrong"); fault::stop(); clean(); long nw = fault::seen;
  for (int i = 0; i < 4; ++i) {   // a single write fails, or every write from some point on
    long at = r.chance(0.2) ? nw - 1 - r.below(2) : r.below(nw + 1); if (at < 0) at = 0; bool fv = r.chance(0.4); fault::start(p, at, fv, r.chance(0.5) ? ENOSPC : EIO); int ret = op(p); fault::stop(); bool inj = fault::injected;
    if (ret == 0 && !complete()) viol("c20.lost." + name, what + fmt("reported success although write %ld%s failed and the output is incomplete", at, fv ? " and all later ones" : ""));
    if (ret != 0 && !inj) viol("c20.false." + name, what + fmt("reported failure although none of its %ld writes failed", fault::seen));
    clean(); count(inj ? fv ? "writes_failed_for_good" : "single_write_failures" : "fault_not_reached"); count("writes_observed", fault::seen); nontrivial(hash_str(what, at * 2 + fv + 77777));
  }
  if (outs.size() == 1 && outs[0].empty() && most > 0) { if (access("/dev/full", W_OK) == 0) { if (op("/dev/full") == 0) viol("c20.full." + name, what + "reported success writing to a full device"); count("full_device"); } }
  S bad = r.chance(0.5) ? tmpf("no/such/dir/x") : name == "split" ? tmpf("nodir/x") : core().dir; if (op(bad) == 0) viol("c20.baddir." + name, what + "reported success writing to " + bad); count("bad_paths");
  if (op(p) != 0 || !complete()) viol("c20.after." + name, what + "does not work any more after a failure"); clean(); if (wants_sample()) sample(what + fmt("%zu bytes", most));
}
// input that becomes unreadable in the middle: nothing that was built from part of it is reported as success
static void c20_reads(Rng& r) {
  int k = r.below(7); S st = T3[r.below(3)], dt = T3[r.below(3)], in = tmpf("rd.in"), out = tmpf("rd.out"); Data d = tool_data(r, true); if (r.chance(0.1)) { Data x = d; while (d.size() < 900) d.insert(d.end(), x.begin(), x.end()); } write_file(in, enc(d, st));
  static const char* N[] = {"convert", "shuffle", "split", "analyze", "read", "restore", "filter"}; S what = S(N[k]) + " " + st + fmt(" %zu examples: ", d.size()); void* fm = nullptr; Data probe; std::vector<S> outs{""}; int n = r.range(1, 3);
  if (k == 2) { outs.clear(); for (int i = 0; i < n; ++i) outs.push_back(fmt("%d.", i) + dt); }
  if (k == 5) { Cfg c = gen_cfg(r, all_algos()); void* m = make_model(c); if (!m) { viol("c20.setup", c.str()); return; } sol_InspectOnlineIteration(m, quiet, nullptr); Data t = gen_cont(r, r.range(1, 30), r.range(1, 300), 8, c.classes, 0.1); { Feed f; f.csr(t); sol_Train(m, f.it); } int sv = sol_SaveModel(m, in.c_str()); sol_ReleaseModel(&m); if (sv) { viol("c20.setup", "cannot save"); return; } what = "restore " + c.str() + ": "; }
  if (k == 6) { S t; for (int i = 0, z = r.chance(0.2) ? 3000 : r.range(1, 60); i < z; ++i) t += fmt("%d\n", r.range(1, 500)); write_file(in, t); fm = sol_CreateModel("ogd", 2); Ex e; e.label = 1; for (unsigned j = 1; j <= 500; ++j) { e = Ex(); e.label = 1; e.f.push_back(std::make_pair(j, 1.f)); probe.push_back(e); } sol_InspectOnlineIteration(fm, quiet, nullptr); { Feed f; f.csr(probe); sol_Train(fm, f.it); } what = "feature list: "; }
  auto text = [&](S* res) -> int { res->clear(); for (auto& o : outs) unlink((out + o).c_str()); int ret = 0;
    switch (k) {
      case 0: ret = sol_convert_data(in.c_str(), st.c_str(), out.c_str(), dt.c_str(), false, 0); break;
      case 1: ret = sol_shuffle_data(in.c_str(), st.c_str(), out.c_str(), dt.c_str()); break;
      case 2: ret = sol_split_data(in.c_str(), st.c_str(), n, out.c_str(), dt.c_str(), false); break;
      case 3: ret = sol_analyze_data(in.c_str(), st.c_str(), out.c_str()); break;
      case 4: { Data g; ret = lib_read_file(in, st, g); if (ret == kEOF) ret = 0; if (ret == 0) *res = show(g, 100000); return ret; }
      case 5: { void* m = sol_RestoreModel(in.c_str()); if (!m) return 1; fault::ron = 0; *res = sol_SaveModel(m, out.c_str()) ? S("?") : read_file(out); sol_ReleaseModel(&m); return 0; }
      case 6: { if (sol_SetModelParameter(fm, "filter", in.c_str())) return 1; fault::ron = 0; for (auto& p : predict(fm, probe)) *res += p.s[0] != 0 ? '1' : '0'; return 0; }
    }
    if (ret == 0) for (auto& o : outs) { S c = read_file(out + o); *res += k == 1 ? fmt("%zu ", c.size()) : c + "|"; }
    return ret; };
  S full, got; long mx = r.chance(0.3) ? 0 : r.pick(std::vector<long>{1, 7, 64, 300}); if (mx == 1 && d.size() > 100) mx = 64; fault::rstart(in, -1, false, 0, mx); int r0 = text(&full); fault::ron = 0; long nr = fault::rseen;
  if (r0) { viol("c20.readfalse." + S(N[k]), what + fmt("fails although nothing is wrong (reads deliver at most %ld bytes)", mx)); if (fm) sol_ReleaseModel(&fm); return; }
  for (int i = 0; i < 4; ++i) { long at = r.chance(0.2) ? nr - 1 - long(r.below(2)) : long(r.below(nr + 1)); if (at < 0) at = 0; bool fv = r.chance(0.6); fault::rstart(in, at, fv, EIO, mx); int ret = text(&got); fault::ron = 0; bool inj = fault::rinjected;
    if (ret == 0 && got != full) viol("c20.readlost." + S(N[k]), what + fmt("reported success although read %ld of %ld%s failed and the result is not that of the whole input", at, nr, fv ? " and all later ones" : ""));
    if (ret != 0 && !inj) viol("c20.readfalse." + S(N[k]), what + "reported failure although no read failed");
    count(inj ? S("reads_failed.") + N[k] : S("read_fault_not_reached")); count("reads_observed", fault::rseen); nontrivial(hash_str(what, at * 2 + fv + 991)); }
  if (text(&got) != 0 || got != full) viol("c20.readafter." + S(N[k]), what + "does not work any more after a failure");
  if (fm) sol_ReleaseModel(&fm); for (auto& o : outs) unlink((out + o).c_str()); if (wants_sample()) sample(what + fmt("%ld reads", nr));
}
// input that is malformed somewhere: whatever a reader cannot read to its end, no tool reports as processed
static void c20_partly(Rng& r) {
  S st = T3[r.below(3)], dt = T3[r.below(3)], in = tmpf("pt.in"), out = tmpf("pt.out"); Data d = tool_data(r, true); S text = enc(d, st); S how;
  static const char* bs[] = {"abc 1:2", "1 1", "1 x:2", "1 1:y", "1 1:2 3", "1 1:", "x"}; static const char* bc[] = {"abc,1,2", "1,x,3", "1 2 3", "x", "1,.,3"};
  if (st == "bin" || r.chance(0.3)) { size_t n = text.empty() ? 0 : r.chance(0.5) ? text.size() - 1 - r.below(std::min<size_t>(8, text.size())) : r.below(text.size()); text.resize(n); how = fmt("cut to %zu bytes", n); }
  else { std::vector<size_t> nl; for (size_t i = 0; i < text.size(); ++i) if (text[i] == '\n') nl.push_back(i + 1); S bad = st == "csv" ? bc[r.below(5)] : bs[r.below(7)]; size_t at = nl.empty() ? text.size() : r.pick(nl); text.insert(at, bad + "\n"); how = "with <" + bad + ">"; }
  write_file(in, text); Data got; int e = lib_read_file(in, st, got); bool any = false; for (auto& x : got) any |= !x.f.empty(); int k = r.below(4); static const char* N[] = {"convert", "shuffle", "split", "analyze"};
  int ret = k == 0 ? sol_convert_data(in.c_str(), st.c_str(), out.c_str(), dt.c_str(), false, 0) : k == 1 ? sol_shuffle_data(in.c_str(), st.c_str(), out.c_str(), dt.c_str()) : k == 2 ? sol_split_data(in.c_str(), st.c_str(), 2, out.c_str(), dt.c_str(), false) : sol_analyze_data(in.c_str(), st.c_str(), out.c_str());
  S what = S(N[k]) + " " + st + ">" + dt + fmt(" %zu examples ", d.size()) + how + ": ";
  if (e != kEOF && ret == 0) viol(S("c20.partly.") + N[k], what + fmt("reports success although reading the input ends with status %d after %zu examples", e, got.size()));
  if (e == kEOF && ret != 0 && any) viol(S("c20.partly.false.") + N[k], what + fmt("fails with status %d although the input can be read to its end", ret));
  count(e == kEOF ? "partly.readable" : "partly.malformed"); for (S x : {"", "0.svm", "1.svm", "0.bin", "1.bin", "0.csv", "1.csv"}) unlink((out + x).c_str()); nontrivial(hash_str(text, k)); if (wants_sample()) sample(what + fmt("status %d", ret));
}
static void c20_inputs(Rng& r) {   // input that is missing or cannot be read
  S a = r.chance(0.4) ? tmpf("missing.file") : r.chance(0.4) ? tmpf("no/such/dir") : r.chance(0.5) ? core().dir : S(""); S ty = T3[r.below(3)], out = tmpf("inp.out"); bool badtype = r.chance(0.25); if (badtype) { a = tmpf("inp.in"); Data d = tool_data(r, true); write_file(a, enc(d, ty)); ty = pick(r, {"nosuch", "", "SVMX", "csvv"}); }
  S what = "input <" + a + "> type <" + ty + ">: "; int k = r.below(6); auto bad = [&](int ret, const char* op) { if (ret == 0) viol(S("c20.input.") + op, what + op + " reports success"); count(S("bad_inputs.") + op); };
  switch (k) {
    case 0: bad(sol_convert_data(a.c_str(), ty.c_str(), out.c_str(), "svm", false, 0), "convert"); break;
    case 1: bad(sol_shuffle_data(a.c_str(), ty.c_str(), out.c_str(), "svm"), "shuffle"); break;
    case 2: bad(sol_split_data(a.c_str(), ty.c_str(), 2, out.c_str(), "svm", false), "split"); break;
    case 3: bad(sol_analyze_data(a.c_str(), ty.c_str(), out.c_str()), "analyze"); break;
    case 4: { Feed f; bad(sol_LoadData(f.it, a.c_str(), ty.c_str(), 1), "load"); Data d = gen_cont(r, 3, 4, 2, 2, 0); f.csr(d); void* m = sol_CreateModel("ogd", 2); std::vector<Pred> v; int n = sol_Predict(m, f.it, pred_cb, &v); if (n != 3) viol("c20.input.after", what + "other data of the iterator is lost"); sol_ReleaseModel(&m); break; }
    default: { void* m = sol_RestoreModel(a.c_str()); if (badtype) ty = "svm"; if (m) { viol("c20.input.restore", what + "restored a model"); sol_ReleaseModel(&m); } count("bad_inputs.restore"); }
  }
  // an unknown output type
  if (r.chance(0.3)) { S in = tmpf("inp2.in"); write_file(in, "1 1:2\n-1 2:3\n"); for (int q = 0; q < 3; ++q) { int ret = q == 0 ? sol_convert_data(in.c_str(), "svm", out.c_str(), "nosuch", false, 0) : q == 1 ? sol_shuffle_data(in.c_str(), "svm", out.c_str(), "nosuch") : sol_split_data(in.c_str(), "svm", 2, out.c_str(), "nosuch", false); if (ret == 0) viol("c20.outtype", fmt("operation %d accepts an unknown output type", q)); } if (sol_split_data(in.c_str(), "svm", r.range(-3, 0), out.c_str(), "svm", false) == 0) viol("c20.folds", "a split into no parts is reported as success"); count("bad_types"); }
  nontrivial(hash_str(what, k)); if (wants_sample()) sample(what);
}
int main(int argc, char** argv) {
  return run_main(argc, argv, {{"c20_reads", c20_reads}, {"c20_partly", c20_partly}, {"c18_shuffle", c18_shuffle}, {"c18_split", c18_split}, {"c18_analyze", c18_analyze}, {"c18_binarize", c18_binarize}, {"c20_faults", c20_faults}, {"c20_inputs", c20_inputs}});
}

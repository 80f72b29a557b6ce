// Common harness core: case loop, deterministic randomness, observations and
// violations as JSON lines, datasets and independent file encoders.
#ifndef VERIF_H_H
#define VERIF_H_H
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

namespace hv {
typedef std::string S;
inline uint64_t mix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x = 1) : s(mix(x)) {}
  uint64_t u64() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  // uniform in [0,n)
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  int range(int a, int b) { return a + int(below(uint64_t(b - a) + 1)); }
  double uni() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  bool chance(double p) { return uni() < p; }
  double gauss() { double u = uni() + 1e-300, v = uni(); return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline S fmt(const char* f, ...) {
  char buf[4096]; va_list a; va_start(a, f); vsnprintf(buf, sizeof buf, f, a); va_end(a); return buf;
}
inline S jesc(const S& s) {
  S o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 32 || c > 126) { o += fmt("\\u%04x", c); }
    else o += char(c);
  }
  return o + "\"";
}

struct Core {
  S sub, dir, outp, curp; uint64_t seed = 1; long idx = 0; bool thorough = false, verbose = false;
  FILE* out = nullptr; int cfd = -1;
  std::map<S, long> counts; std::vector<uint64_t> hashes; std::set<uint64_t> seen;
  int nsamples = 0; std::map<S, int> violcount;
};
inline Core& core() { static Core c; return c; }
inline void count(const S& n, long k = 1) { core().counts[n] += k; }
inline void nontrivial(uint64_t h) { if (core().seen.insert(h).second) core().hashes.push_back(h); }
inline void sample(const S& s) {
  Core& c = core(); if (c.nsamples >= 3) return; ++c.nsamples;
  fprintf(c.out, "{\"t\":\"sample\",\"case\":%ld,\"s\":%s}\n", c.idx, jesc(s.substr(0, 600)).c_str()); fflush(c.out);
}
inline bool wants_sample() { return core().nsamples < 3; }
inline void viol(const S& key, const S& msg) {
  static std::mutex mu; std::lock_guard<std::mutex> g(mu); Core& c = core(); if (c.violcount[key]++ >= 3) return;
  fprintf(c.out, "{\"t\":\"viol\",\"key\":%s,\"case\":%ld,\"sub\":%s,\"msg\":%s}\n", jesc(key).c_str(), c.idx,
          jesc(c.sub).c_str(), jesc(msg.substr(0, 3000)).c_str());
  fflush(c.out);
  if (c.verbose) fprintf(stderr, "VIOL %s case %ld: %s\n", key.c_str(), c.idx, msg.c_str());
}
inline void inconclusive(const S& why) { count("inconclusive." + why); }

typedef void (*CaseFn)(Rng&);
struct Sub { const char* name; CaseFn fn; };
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; } return h;
}
inline uint64_t hash_str(const S& s, uint64_t h = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }

extern "C" int __lsan_do_recoverable_leak_check(void) __attribute__((weak));

inline int run_main(int argc, char** argv, const std::vector<Sub>& subs) {
  Core& c = core(); long start = 0, n = 1;
  if (argc < 2) { fprintf(stderr, "usage: %s sub --seed N --start N --count N --out F --cur F --dir D\n", argv[0]); return 2; }
  c.sub = argv[1];
  for (int i = 2; i < argc; ++i) {
    S a = argv[i]; auto val = [&]() { return S(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") c.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--start") start = atol(val().c_str());
    else if (a == "--count") n = atol(val().c_str());
    else if (a == "--out") c.outp = val();
    else if (a == "--cur") c.curp = val();
    else if (a == "--dir") c.dir = val();
    else if (a == "--thorough") c.thorough = true;
    else if (a == "--verbose") c.verbose = true;
  }
  CaseFn fn = nullptr;
  for (auto& s : subs) if (c.sub == s.name) fn = s.fn;
  if (!fn) { fprintf(stderr, "unknown sub %s\n", c.sub.c_str()); return 2; }
  c.out = c.outp.empty() ? stdout : fopen(c.outp.c_str(), "a");
  if (!c.out) { perror("out"); return 2; }
  if (!c.curp.empty()) c.cfd = open(c.curp.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644);
  if (c.dir.empty()) { char t[] = "/tmp/hvXXXXXX"; c.dir = mkdtemp(t); }
  for (long i = start; i < start + n; ++i) {
    c.idx = i;
    if (c.cfd >= 0) { char b[32]; int l = snprintf(b, sizeof b, "%-20ld", i); if (pwrite(c.cfd, b, l, 0) < 0) {} }
    Rng r(mix(c.seed * 1000003ull + uint64_t(i)) ^ hash_str(c.sub));
    fn(r);
    count("cases");
    if ((i - start) % 64 == 63 || i + 1 == start + n) {
      fprintf(c.out, "{\"t\":\"h\",\"v\":[");
      for (size_t k = 0; k < c.hashes.size(); ++k) fprintf(c.out, "%s\"%llx\"", k ? "," : "", (unsigned long long)c.hashes[k]);
      fprintf(c.out, "]}\n"); c.hashes.clear();
      fprintf(c.out, "{\"t\":\"c\",\"v\":{"); bool first = true;
      for (auto& kv : c.counts) { fprintf(c.out, "%s%s:%ld", first ? "" : ",", jesc(kv.first).c_str(), kv.second); first = false; }
      fprintf(c.out, "}}\n"); c.counts.clear(); fflush(c.out);
    }
  }
  fprintf(c.out, "{\"t\":\"done\"}\n"); fflush(c.out);
  return 0;
}

// ---------------------------------------------------------------- files
inline S tmpf(const S& name) { return core().dir + "/" + name; }
inline bool write_file(const S& p, const S& content) {
  FILE* f = fopen(p.c_str(), "wb"); if (!f) return false;
  bool ok = content.empty() || fwrite(content.data(), 1, content.size(), f) == content.size();
  return (fclose(f) == 0) && ok;
}
inline S read_file(const S& p) {
  S r; FILE* f = fopen(p.c_str(), "rb"); if (!f) return r; char b[65536]; size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r;
}
inline bool exists(const S& p) { struct stat st; return stat(p.c_str(), &st) == 0; }

// ---------------------------------------------------------------- datasets
struct Ex { int label = 0; std::vector<std::pair<uint32_t, float>> f; };
typedef std::vector<Ex> Data;
inline bool same_ex(const Ex& a, const Ex& b) {
  if (a.label != b.label || a.f.size() != b.f.size()) return false;
  for (size_t i = 0; i < a.f.size(); ++i) if (a.f[i].first != b.f[i].first || memcmp(&a.f[i].second, &b.f[i].second, 4)) return false;
  return true;
}
inline S show(const Ex& e) {
  S s = fmt("%d", e.label); size_t k = 0;
  for (auto& p : e.f) { if (++k > 12) { s += " ..."; break; } s += fmt(" %u:%.9g", p.first, p.second); }
  return s;
}
inline S show(const Data& d, size_t lim = 6) {
  S s; for (size_t i = 0; i < d.size() && i < lim; ++i) s += show(d[i]) + "; "; if (d.size() > lim) s += fmt("... (%zu rows)", d.size()); return s;
}
inline uint64_t hash_data(const Data& d, uint64_t h = 7) {
  for (auto& e : d) { h = hash_bytes(&e.label, 4, h); for (auto& p : e.f) { h = hash_bytes(&p.first, 4, h); h = hash_bytes(&p.second, 4, h); } h = mix(h); }
  return h;
}
// independent encoders
inline S enc_svm(const Data& d, int digits = 9) {
  S s; for (auto& e : d) { s += fmt("%d", e.label); for (auto& p : e.f) s += fmt(" %u:%.*g", p.first, digits, p.second); s += "\n"; } return s;
}
inline S enc_csv(const Data& d, int digits = 9) {
  uint32_t dim = 0; for (auto& e : d) for (auto& p : e.f) dim = std::max(dim, p.first);
  S s = "class"; for (uint32_t j = 1; j <= dim; ++j) s += fmt(",v%u", j); s += "\n";
  for (auto& e : d) { s += fmt("%d", e.label); size_t i = 0;
    for (uint32_t j = 1; j <= dim; ++j) { if (i < e.f.size() && e.f[i].first == j) s += fmt(",%.*g", digits, e.f[i++].second); else s += ",0"; }
    s += "\n"; }
  return s;
}
inline void enc_varint(S& s, uint64_t v) { while (v >= 128) { s += char((v & 127) | 128); v >>= 7; } s += char(v); }
inline S enc_codes(const Ex& e) { S c; uint32_t last = 0; for (auto& p : e.f) { enc_varint(c, p.first - last); last = p.first; } return c; }
inline void put64(S& s, uint64_t v) { s.append((const char*)&v, 8); }
inline S enc_bin1(const Ex& e) {
  S s; int32_t l = e.label; s.append((const char*)&l, 4); put64(s, e.f.size());
  if (!e.f.empty()) { S c = enc_codes(e); put64(s, c.size()); s += c; for (auto& p : e.f) s.append((const char*)&p.second, 4); }
  return s;
}
inline S enc_bin(const Data& d) { S s; for (auto& e : d) s += enc_bin1(e); return s; }
inline S enc(const Data& d, const S& type) { return type == "svm" ? enc_svm(d) : type == "csv" ? enc_csv(d) : enc_bin(d); }
}  // namespace hv
#endif

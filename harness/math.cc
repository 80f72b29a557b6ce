// Monitor of the vector/matrix expressions and the top-K heap: results against
// plain loops over arrays, in exactly sized storage so that overruns are seen.
#include "solio.h"
#include <sstream>
#include <iomanip>
#include "sol/math/sparse_vector.h"
#include "sol/util/heap.h"
using namespace hv;
using namespace sol::math;
using namespace sol::math::expr;
typedef sol::index_t I;

template <class T> struct Tn; template <> struct Tn<float> { static const char* n() { return "float"; } enum { fl = 1 }; }; template <> struct Tn<double> { static const char* n() { return "double"; } enum { fl = 1 }; }; template <> struct Tn<int> { static const char* n() { return "int"; } enum { fl = 0 }; };
template <class T> T gv(Rng& r, bool nz = false);
template <> int gv<int>(Rng& r, bool nz) { int v = r.range(-50, 50); return nz && v == 0 ? 7 : v; }
template <> double gv<double>(Rng& r, bool nz) { double v = r.chance(0.15) && !nz ? 0 : r.gauss() * std::pow(10.0, r.chance(0.8) ? 0 : r.range(-4, 4)); return v == 0 && nz ? 1.5 : v; }
template <> float gv<float>(Rng& r, bool nz) { float v = float(gv<double>(r, nz)); return v == 0 && nz ? 1.5f : v; }
// both within rounding of the operands' magnitude
template <class T> bool near(double a, double b, double mag) { if (!Tn<T>::fl) return a == b; return std::fabs(a - b) <= 4e-6 * (std::fabs(a) + std::fabs(b) + mag) + 1e-30; }

template <class T> struct Dense { std::vector<T> v; Vector<T> lib; };
template <class T> void fill(Rng& r, Dense<T>& d, size_t n, bool nz) {
  d.v.clear(); for (size_t i = 0; i < n; ++i) d.v.push_back(gv<T>(r, nz));
  if (r.chance(0.5)) d.lib.resize(n); else { d.lib.resize(0); for (size_t i = 0; i < n; ++i) d.lib.push_back(T(0)); }
  for (size_t i = 0; i < n; ++i) d.lib[i] = d.v[i];
}
template <class T> struct Sparse { std::vector<std::pair<I, T>> v; SVector<T> lib; };
template <class T> void fill(Rng& r, Sparse<T>& s, size_t lim, bool nz) {
  std::set<I> ix; for (int k = r.chance(0.01) ? r.below(3000) : r.below(9); k > 0; --k) ix.insert(I(r.below(lim + 1))); s.v.clear(); s.lib.clear(); if (r.chance(0.3)) s.lib.reserve(ix.size() + r.below(4));
  for (I i : ix) { T x = gv<T>(r, nz); s.v.push_back(std::make_pair(i, x)); s.lib.push_back(i, x); }
}
template <class T> struct Ck {
  S form; size_t n; bool bad = false;
  void vec(const Vector<T>& got, const std::vector<double>& want, const std::vector<double>& mag) {
    if (got.size() != want.size()) { viol("c22." + form, S(Tn<T>::n()) + fmt(" size %zu, expected %zu", got.size(), want.size())); return; }
    for (size_t i = 0; i < want.size(); ++i) if (!near<T>(double(got[i]), want[i], mag[i])) { viol("c22." + form, S(Tn<T>::n()) + fmt(" element %zu of %zu is %.9g, expected %.9g", i, want.size(), double(got[i]), want[i])); return; }
    count("elements", want.size()); count("forms." + form);
  }
  void num(double got, double want, double mag) { if (!near<T>(got, want, mag * (1 + n / 200.0))) viol("c22." + form, S(Tn<T>::n()) + fmt(" is %.9g, expected %.9g", got, want)); count("forms." + form); }
};
#define EACH(F) { W.assign(n, 0); M.assign(n, 0); for (size_t i = 0; i < n; ++i) { double x = a.v[i], y = b.v[i], z = c.v[i], q = s; (void)x; (void)y; (void)z; (void)q; W[i] = F; M[i] = std::fabs(x) + std::fabs(y) + std::fabs(q); } }
static double tr(double a, double b) { if (a >= 0) return a > b ? a - b : 0; return -a > b ? a + b : 0; }
template <class T> T idiv(T a, T b) { return a / b; }

template <class T> void dense_case(Rng& r) {
  size_t n = r.chance(0.1) ? 0 : r.chance(0.1) ? r.chance(0.03) ? r.range(300, 9000) : r.range(60, 300) : r.range(1, 20); Dense<T> a, b, c; fill(r, a, n, false); fill(r, b, n, true); fill(r, c, n, true); T s = gv<T>(r, true); std::vector<double> W, M; Ck<T> k; k.n = n;
  Vector<T> d; d.resize(n);
  auto run = [&](const S& form, const std::function<void()>& f) { k.form = form; try { f(); } catch (std::exception& e) { viol("c22." + form, S(Tn<T>::n()) + fmt(" size %zu: %s", n, e.what())); } };
  auto im = [](double v) { return Tn<T>::fl ? v : std::trunc(v); };
  run("copy", [&] { d = a.lib + T(0); EACH(x); k.vec(d, W, M); });
  run("add", [&] { d = a.lib + b.lib; EACH(x + y); k.vec(d, W, M); });
  run("sub", [&] { d = a.lib - b.lib; EACH(x - y); k.vec(d, W, M); });
  run("mul", [&] { d = a.lib * b.lib; EACH(x * y); k.vec(d, W, M); });
  run("div", [&] { d = a.lib / b.lib; EACH(im(x / y)); k.vec(d, W, M); });
  run("scalar-right", [&] { d = a.lib + s; EACH(x + q); k.vec(d, W, M); d = a.lib - s; EACH(x - q); k.vec(d, W, M); d = a.lib * s; EACH(x * q); k.vec(d, W, M); d = a.lib / s; EACH(im(x / q)); k.vec(d, W, M); });
  run("scalar-left", [&] { d = s + a.lib; EACH(x + q); k.vec(d, W, M); d = s - a.lib; EACH(q - x); k.vec(d, W, M); d = s * a.lib; EACH(x * q); k.vec(d, W, M); d = s / b.lib; EACH(im(q / y)); k.vec(d, W, M); });
  run("compound", [&] { d = s * (a.lib + b.lib) - a.lib * b.lib; EACH(q * (x + y) - x * y); for (auto& m : M) m = m * m + m; k.vec(d, W, M); });
  run("unary", [&] { d = L1(a.lib); EACH(std::fabs(x)); k.vec(d, W, M); d = L2(a.lib); EACH(x * x); k.vec(d, W, M); });
  run("add-to", [&] { d = a.lib + T(0); d += b.lib; EACH(x + y); k.vec(d, W, M); d = a.lib + T(0); d -= b.lib; EACH(x - y); k.vec(d, W, M); d = a.lib + T(0); d *= b.lib; EACH(x * y); k.vec(d, W, M); d = a.lib + T(0); d /= b.lib; EACH(im(x / y)); k.vec(d, W, M); });
  run("scalar-to", [&] { d = a.lib + T(0); d += s; EACH(x + q); k.vec(d, W, M); d = a.lib + T(0); d -= s; EACH(x - q); k.vec(d, W, M); d = a.lib + T(0); d *= s; EACH(x * q); k.vec(d, W, M); d = a.lib + T(0); d /= s; EACH(im(x / q)); k.vec(d, W, M); d = s; EACH(q); k.vec(d, W, M); });
  run("alias", [&] { d = a.lib + T(0); d = d + d * b.lib; EACH(x + x * y); for (auto& m : M) m = m * m + m; k.vec(d, W, M); d = a.lib + T(0); d -= d; EACH(x - x); k.vec(d, W, M); });
  run("construct", [&] { Vector<T> e(n); for (size_t i = 0; i < n; ++i) e[i] = a.v[i]; Vector<T> f(e); EACH(x); k.vec(f, W, M); if (n) { f[0] = b.v[0]; if (!near<T>(double(e[0]), double(b.v[0]), 0)) viol("c22.construct", "a copy does not share the elements"); } Vector<T> g; g.resize(n); e.copyto(g); if (n) { double before = double(g[0]); e[0] = T(e[0] + 1); if (!near<T>(double(g[0]), before, 0)) viol("c22.construct", "copyto shares the elements"); } });
  run("dot", [&] { double w = 0, m = 0; for (size_t i = 0; i < n; ++i) { w += double(a.v[i]) * double(b.v[i]); m += std::fabs(double(a.v[i]) * double(b.v[i])); } k.num(double(dotmul(a.lib, b.lib)), w, m); w = m = 0; for (size_t i = 0; i < n; ++i) { w += double(a.v[i]) + double(b.v[i]); m += std::fabs(double(a.v[i])) + std::fabs(double(b.v[i])); } k.num(double(dotplus(a.lib, b.lib)), w, m); w = 0; for (size_t i = 0; i < n; ++i) w += double(a.v[i]) - double(b.v[i]); k.num(double(dotminus(a.lib, b.lib)), w, m); w = m = 0; for (size_t i = 0; i < n; ++i) { double q = im(double(a.v[i]) / double(b.v[i])); w += q; m += std::fabs(q); } k.num(double(dotdiv(a.lib, b.lib)), w, m); });
  run("norms", [&] { double w1 = 0, w2 = 0; for (size_t i = 0; i < n; ++i) { w1 += std::fabs(double(a.v[i])); w2 += double(a.v[i]) * double(a.v[i]); } k.num(double(Norm1(a.lib)), w1, w1); k.num(double(Norm2(a.lib)), w2, w2); k.num(double(reduce<op::plus>(a.lib)), [&] { double w = 0; for (T v : a.v) w += double(v); return w; }(), w1); });
  run("mismatch", [&] { if (!n) return; size_t n2 = n + 1 + r.below(3); Vector<T> o(n2); o = T(1); bool threw = false; try { o += a.lib; } catch (std::runtime_error&) { threw = true; } if (n && !threw) viol("c22.mismatch", "adding vectors of different sizes is accepted"); threw = false; try { dotmul(o, a.lib); } catch (std::runtime_error&) { threw = true; } if (!threw) viol("c22.mismatch", "a dot product of different sizes is accepted"); threw = false; if (n) { try { Vector<T> e(n2); e = o + a.lib; } catch (std::runtime_error&) { threw = true; } if (!threw) viol("c22.mismatch", "a sum of different sizes is accepted"); } count("forms.mismatch"); });
  // growing, shrinking and filling keep the elements
  run("resize", [&] { Vector<T> e; std::vector<T> m; for (int q = 0; q < 12; ++q) { int w = r.below(6); if (w == 0) { T v = gv<T>(r); e.push_back(v); m.push_back(v); } else if (w == 1 && !m.empty()) { e.pop_back(); m.pop_back(); } else if (w == 2) { size_t z = r.below(m.size() + 1); e.resize(z); m.resize(z); } else if (w == 3) { size_t old = m.size(), z = old + r.below(40); e.resize(z); T v = gv<T>(r); e.slice_op([v](T& t) { t = v; }, old); m.resize(z, v); } else if (w == 4) e.reserve(m.size() + r.below(30)); else if (w == 5 && r.chance(0.2)) { e.clear(); m.clear(); }
      if (e.size() != m.size() && !(m.empty() && e.size() == 0)) { viol("c22.resize", fmt("size %zu, expected %zu", e.size(), m.size())); return; } for (size_t i = 0; i < m.size(); ++i) if (memcmp(&e[i], &m[i], sizeof(T))) { viol("c22.resize", fmt("element %zu changed by resizing", i)); return; } if (!m.empty() && (e.begin() + m.size() != e.end() || memcmp(&e.back(), &m.back(), sizeof(T)) || memcmp(&e.front(), &m.front(), sizeof(T)))) viol("c22.resize", "front/back/end are wrong"); }
    bool threw = false; try { Vector<T> z; z.resize(0); z.pop_back(); } catch (std::runtime_error&) { threw = true; } if (!threw) viol("c22.resize", "popping from an empty vector is accepted"); count("forms.resize"); });
  run("slice-op", [&] { if (!n) return; size_t lo = r.below(n + 1), hi = lo + r.below(n - lo + 1); d = a.lib + T(0); d.slice_op([s](T& t) { t = T(t + s); }, lo, hi); EACH(x); for (size_t i = lo; i < hi; ++i) W[i] += double(s); k.vec(d, W, M); size_t seen = 0; const Vector<T>& cd = d; cd.slice_op([&seen](const T&) { ++seen; }, lo); if (seen != n - lo) viol("c22.slice-op", fmt("visits %zu of %zu elements", seen, n - lo)); });
  run("text", [&] { if (!n || !Tn<T>::fl) return; std::ostringstream os; os << std::setprecision(std::numeric_limits<T>::max_digits10) << a.lib << "\n"; Vector<T> e(n); std::istringstream is(os.str()); is >> e; if (!is && !is.eof()) viol("c22.text", "cannot be read back: " + os.str()); for (size_t i = 0; i < n; ++i) if (!(e[i] == a.v[i])) { viol("c22.text", fmt("element %zu read back as %.9g, was %.9g", i, double(e[i]), double(a.v[i]))); break; } Vector<T> big(n + 1); std::istringstream is2(os.str()); is2 >> big; if (is2) viol("c22.text", "a row that is too short is accepted"); count("forms.text"); });
  // matrices
  run("matrix", [&] { size_t rows = r.range(1, 5), cols = r.range(1, 6); Matrix<T> x(Shape<2>({rows, cols})), y(Shape<2>({rows, cols})), z(Shape<2>({rows, cols})); std::vector<T> mx, my; for (size_t i = 0; i < rows * cols; ++i) { mx.push_back(gv<T>(r)); my.push_back(gv<T>(r, true)); x[i] = mx[i]; y[i] = my[i]; }
    z = x * s + y; for (size_t i = 0; i < rows; ++i) for (size_t j = 0; j < cols; ++j) { double w = double(mx[i * cols + j]) * double(s) + double(my[i * cols + j]); if (!near<T>(double(z(j, i)), w, std::fabs(w) + std::fabs(double(my[i * cols + j])))) { viol("c22.matrix", fmt("element (%zu,%zu) is %.9g, expected %.9g", i, j, double(z(j, i)), w)); return; } }
    if (x.rows() != rows || x.cols() != cols || x.size() != rows * cols) viol("c22.matrix", "shape not kept"); if (r.chance(0.5)) { Matrix<T> t(Shape<2>({cols, rows})); bool threw = false; try { t += x; } catch (std::runtime_error&) { threw = true; } if (rows != cols && !threw) viol("c22.matrix", "adding matrices of different shapes is accepted"); } count("forms.matrix"); });
  nontrivial(hash_bytes(a.v.data(), n * sizeof(T), hash_str(Tn<T>::n(), n + 3)));
}
template <class T> void sparse_case(Rng& r) {
  size_t n = r.chance(0.1) ? 0 : r.chance(0.005) ? r.range(300, 70000) : r.range(1, 25); Dense<T> a, b; fill(r, a, n, false); fill(r, b, n, true); Sparse<T> x; fill(r, x, r.chance(0.3) ? n + 20 : n ? n - 1 : 0, false); if (!n && r.chance(0.5)) { x.v.clear(); x.lib.clear(); } T s = gv<T>(r, true); std::vector<double> W(n), M(n); Ck<T> k; k.n = n; Vector<T> d; d.resize(n);
  bool beyond = !x.v.empty() && size_t(x.v.back().first) >= n; if (beyond) count("sparse_beyond"); if (x.v.empty()) count("sparse_empty"); if (!n) count("dense_empty");
  auto im = [](double v) { return Tn<T>::fl ? v : std::trunc(v); };
  auto reset = [&] { for (size_t i = 0; i < n; ++i) { d[i] = a.v[i]; W[i] = double(a.v[i]); M[i] = 0; } };
  auto on = [&](const std::function<double(double, double, double)>& f) { for (auto& p : x.v) if (size_t(p.first) < n) { size_t i = p.first; W[i] = f(double(a.v[i]), double(p.second), double(b.v[i])); M[i] = std::fabs(double(a.v[i])) + std::fabs(double(p.second)) * (1 + std::fabs(double(s)) + std::fabs(double(b.v[i]))); } k.vec(d, W, M); };
  auto run = [&](const S& form, const std::function<void()>& f) { k.form = form; try { f(); } catch (std::exception& e) { viol("c22." + form, S(Tn<T>::n()) + fmt(" size %zu: %s", n, e.what())); } };
  run("sparse-assign", [&] { reset(); d = x.lib * s; on([&](double, double v, double) { return v * double(s); }); });
  run("sparse-add", [&] { reset(); d += x.lib; on([](double w, double v, double) { return w + v; }); reset(); d -= x.lib; on([](double w, double v, double) { return w - v; }); });
  run("sparse-mul", [&] { reset(); d *= x.lib; on([](double w, double v, double) { return w * v; }); });
  run("sparse-scaled", [&] { reset(); d -= s * x.lib; on([&](double w, double v, double) { return w - double(s) * v; }); reset(); d += x.lib * s; on([&](double w, double v, double) { return w + double(s) * v; }); });
  if (!beyond) {
    run("sparse-dense", [&] { reset(); d -= s * b.lib * x.lib; on([&](double w, double v, double y) { return w - double(s) * y * v; }); reset(); d += x.lib * b.lib; on([&](double w, double v, double y) { return w + v * y; }); reset(); d = x.lib / b.lib; on([&](double, double v, double y) { return im(v / y); }); });
    run("slice", [&] { reset(); d = b.lib.slice(x.lib) * s; on([&](double, double, double y) { return y * double(s); }); reset(); d = s * b.lib.slice(x.lib); on([&](double, double, double y) { return y * double(s); }); });
    run("sparse-unary", [&] { reset(); d += L2(s * x.lib); on([&](double w, double v, double) { return w + double(s) * v * double(s) * v; }); for (auto& m : M) m = m * m; reset(); d = L1(x.lib); on([&](double, double v, double) { return std::fabs(v); }); });
  }
  run("sparse-dot", [&] { double w = 0, m = 0; for (auto& p : x.v) if (size_t(p.first) < n) { double q = double(a.v[p.first]) * double(p.second); w += q; m += std::fabs(q); } k.num(double(dotmul(a.lib, x.lib)), w, m); });
  run("sparse-norms", [&] { double w1 = 0, w2 = 0, w = 0; for (auto& p : x.v) { w += double(p.second); w1 += std::fabs(double(p.second)); w2 += double(p.second) * double(p.second); } k.num(double(Norm1(x.lib)), w1, w1); k.num(double(Norm2(x.lib)), w2, w2); k.num(double(reduce<op::plus>(x.lib)), w, w1); I dim = x.v.empty() ? 0 : x.v.back().first + 1; if (x.lib.dim() != dim || x.lib.size() != x.v.size()) viol("c22.sparse-norms", fmt("dim %u size %zu, expected %u %zu", unsigned(x.lib.dim()), x.lib.size(), unsigned(dim), x.v.size())); });
  run("sparse-scalar-to", [&] { if (x.v.empty()) return; SVector<T> y; for (auto& p : x.v) y.push_back(p.first, p.second); y /= s; for (size_t i = 0; i < x.v.size(); ++i) if (y.index(i) != x.v[i].first || !near<T>(double(y.value(i)), im(double(x.v[i].second) / double(s)), 0)) { viol("c22.sparse-scalar-to", "dividing a sparse vector"); return; } y = s; y *= T(2); y += T(1); y -= T(3); for (size_t i = 0; i < x.v.size(); ++i) if (!near<T>(double(y.value(i)), double(s) * 2 - 2, std::fabs(double(s)) + 3)) { viol("c22.sparse-scalar-to", "arithmetic with a scalar"); return; } if (y.indexes().size() != x.v.size()) viol("c22.sparse-scalar-to", "indexes lost"); count("forms.sparse-scalar-to"); });
  run("sparse-share", [&] { SVector<T> y(x.lib), z; z = x.lib; if (y.size() != x.v.size() || z.size() != x.v.size()) viol("c22.sparse-share", "copies differ in size"); for (size_t i = 0; i < x.v.size(); ++i) if (y.index(i) != x.v[i].first || memcmp(&z.value(i), &x.v[i].second, sizeof(T))) { viol("c22.sparse-share", "copies differ"); break; } z = z; y = z; count("forms.sparse-share"); });
  nontrivial(hash_bytes(x.v.data(), x.v.size() * sizeof(x.v[0]), hash_str(Tn<T>::n(), n + 5)));
}
template <class T> void trunc_case(Rng& r) {
  size_t n = r.range(1, 20); Dense<T> a, b; fill(r, a, n, false); fill(r, b, n, false); for (size_t i = 0; i < n; ++i) { b.v[i] = T(std::fabs(double(b.v[i]))); if (r.chance(0.1)) a.v[i] = r.chance(0.5) ? b.v[i] : T(-b.v[i]); a.lib[i] = a.v[i]; b.lib[i] = b.v[i]; } T s = T(std::fabs(double(gv<T>(r)))); std::vector<double> W, M; Ck<T> k; k.n = n; Vector<T> d(n); Dense<T>& c = b;
  k.form = "truncate"; d = truncate(a.lib, s); EACH(tr(x, q)); k.vec(d, W, M); d = truncate(a.lib, b.lib); EACH(tr(x, y)); k.vec(d, W, M); for (size_t i = 0; i < n; ++i) k.num(double(truncate(a.v[i], s)), tr(double(a.v[i]), double(s)), 0);
  d = -s * truncate(a.lib, b.lib) / (b.lib + T(1)); EACH(-q * tr(x, y) / (y + 1)); for (auto& m : M) m *= 1 + std::fabs(double(s)); k.vec(d, W, M); d = truncate(a.lib, s * b.lib); EACH(tr(x, q * y)); for (size_t i = 0; i < n; ++i) M[i] += std::fabs(double(s) * double(b.v[i])); k.vec(d, W, M);
  // a truncated weight never changes sign nor grows
  d = truncate(a.lib, b.lib); for (size_t i = 0; i < n; ++i) if (double(d[i]) * double(a.v[i]) < 0 || std::fabs(double(d[i])) > std::fabs(double(a.v[i]))) viol("c22.truncate", fmt("%.9g truncated by %.9g gives %.9g", double(a.v[i]), double(b.v[i]), double(d[i])));
  k.form = "sqrt"; d = Sqrt(L2(a.lib) + b.lib); EACH(std::sqrt(x * x + y)); k.vec(d, W, M);
  Sparse<T> x; fill(r, x, n - 1, false); k.form = "sqrt-sparse"; for (size_t i = 0; i < n; ++i) d[i] = a.v[i]; d = Sqrt(L2(b.lib - s) + L2(s * x.lib)) + s; W.assign(n, 0); M.assign(n, 0); for (size_t i = 0; i < n; ++i) W[i] = double(a.v[i]); for (auto& p : x.v) { size_t i = p.first; double h = double(b.v[i]) - double(s), g = double(s) * double(p.second); W[i] = std::sqrt(h * h + g * g) + double(s); M[i] = std::fabs(double(b.v[i])) + 2 * std::fabs(double(s)) + std::fabs(g); } k.vec(d, W, M);
  nontrivial(hash_bytes(a.v.data(), n * sizeof(T), 77));
}
static void c22_vec(Rng& r) { switch (r.below(3)) { case 0: dense_case<float>(r); break; case 1: dense_case<double>(r); break; default: dense_case<int>(r); } }
static void c22_sparse(Rng& r) { switch (r.below(5)) { case 0: case 1: sparse_case<float>(r); break; case 2: sparse_case<double>(r); break; case 3: sparse_case<int>(r); break; default: if (r.chance(0.5)) trunc_case<float>(r); else trunc_case<double>(r); } }

// the heap keeps the K best of the offered elements
template <class H> void heap_case(Rng& r, bool big) {
  I n = I(r.range(1, r.chance(0.1) ? r.chance(0.03) ? 3000 : 200 : 25)), K = I(r.range(1, int(n))); if (r.chance(0.15)) K = n; if (r.chance(0.1)) K = 1; double q = r.chance(0.4) ? 5 : 1e6;
  auto val = [&] { return sol::real_t(std::floor(r.uni(-q, q))) / (q > 10 ? 7 : 1); }; auto better = [&](double a, double b) { return big ? a > b : a < b; };
  size_t cap = n + 40; std::unique_ptr<sol::real_t[]> v(new sol::real_t[n]); for (I i = 0; i < n; ++i) v[i] = val(); (void)cap; H h; std::vector<char> offered(n, 0), expect(n, 0); S ops;
  bool withidx = r.chance(0.3); std::vector<I> init; for (I i = 0; i < n; ++i) init.push_back(i); if (withidx) { for (I i = n; i > 1; --i) std::swap(init[i - 1], init[r.below(i)]); init.resize(K); std::unique_ptr<I[]> ih(new I[K]); for (I i = 0; i < K; ++i) ih[i] = init[i]; h.Init(n, K, ih.get(), v.get()); } else { init.resize(K); h.Init(n, K, v.get()); }
  for (I i : init) offered[i] = 1; if (h.K() != K) viol("c22.heap.k", "K not kept");
  auto check = [&](const char* when) {
    I in = 0; double worst_in = big ? 1e300 : -1e300; for (I i = 0; i < n; ++i) if (h.isTopK(i)) { ++in; if (!offered[i]) { viol("c22.heap.foreign", ops + fmt(" %s: element %u was never offered", when, unsigned(i))); return false; } if (better(worst_in, v[i])) worst_in = v[i]; if (h.get_pos(i) >= K || h.value_by_pos(h.get_pos(i)) != v[i]) { viol("c22.heap.pos", ops + fmt(" %s: position of %u", when, unsigned(i))); return false; } }
    if (in != K) { viol("c22.heap.count", ops + fmt(" %s: %u elements kept with K=%u", when, unsigned(in), unsigned(K))); return false; }
    for (I i = 0; i < n; ++i) if (!h.isTopK(i) && offered[i] && better(v[i], worst_in)) { viol("c22.heap.topk", ops + fmt(" %s: element %u (%g) is left out, %g is kept (n=%u K=%u)", when, unsigned(i), double(v[i]), worst_in, unsigned(n), unsigned(K))); return false; }
    if (h.value_by_pos(0) != sol::real_t(worst_in)) { viol("c22.heap.top", ops + fmt(" %s: top %g, the worst kept is %g", when, double(h.value_by_pos(0)), worst_in)); return false; }
    count("heap_checks"); return true; };
  if (!check("init")) return;
  auto offer = [&](I i) { std::vector<char> was(n); for (I j = 0; j < n; ++j) was[j] = h.isTopK(j); I ret = h.UpdateHeap(i); offered[i] = 1; if (was[i]) { if (ret != sol::invalid_index) viol("c22.heap.ret", "offering a kept element evicts one"); return; }
    if (ret == sol::invalid_index || ret >= n || h.isTopK(ret) || (ret != i && !was[ret])) viol("c22.heap.ret", ops + fmt(" offering %u returns %u", unsigned(i), unsigned(ret))); else for (I j = 0; j < n; ++j) if (j != i && j != ret && was[j] != h.isTopK(j)) viol("c22.heap.other", ops + fmt(" offering %u changes the membership of %u", unsigned(i), unsigned(j))); if (ret != i) count("heap_evictions"); };
  for (I i = 0; i < n; ++i) if (r.chance(0.9)) offer(i); if (!check("offers")) return;
  for (int o = r.range(0, 40); o > 0; --o) {
    int w = r.below(5); I i = I(r.below(n));
    if (w <= 1) { // a score improves
      sol::real_t d = sol::real_t(std::floor(r.uni(0, q))); v[i] += big ? d : -d; if (h.isTopK(i)) h.AdjustHeap(h.get_pos(i), K - 1); else offer(i); count("heap_improvements"); ops += fmt(" up%u", unsigned(i));
    } else if (w == 2) { if (!h.isTopK(i)) { sol::real_t d = sol::real_t(r.uni(0, q)); v[i] -= big ? d : -d; } ops += fmt(" down%u", unsigned(i)); }
    else if (w == 3 && r.chance(0.5)) { for (I j = 0; j < n; ++j) v[j] = val(); h.BuildHeap(); for (I j = 0; j < n; ++j) { if (!h.isTopK(j)) offer(j); } ops += " rebuild"; count("heap_rebuilds"); }
    else if (w == 4 && r.chance(0.4)) { I m = n + I(r.range(0, 8)); std::unique_ptr<sol::real_t[]> nv(new sol::real_t[m]); for (I j = 0; j < m; ++j) nv[j] = j < n ? v[j] : val(); I old = n; n = m; v = std::move(nv); offered.resize(n, 0); h.set_N(n, v.get()); for (I j = old; j < n; ++j) { if (h.isTopK(j)) viol("c22.heap.grow", "a new element is kept before it is offered"); if (r.chance(0.8)) offer(j); } ops += fmt(" grow%u", unsigned(n)); count("heap_growths"); }
    if (!check("change")) return;
  }
  nontrivial(hash_bytes(v.get(), n * sizeof(sol::real_t), K + 1)); if (wants_sample()) sample(fmt("heap n=%u K=%u ", unsigned(n), unsigned(K)) + ops);
}
static void c22_heap(Rng& r) { if (r.chance(0.5)) heap_case<sol::MinHeap>(r, true); else heap_case<sol::MaxHeap>(r, false); }
int main(int argc, char** argv) { return run_main(argc, argv, {{"c22_vec", c22_vec}, {"c22_sparse", c22_sparse}, {"c22_heap", c22_heap}}); }

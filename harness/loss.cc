// Monitor of the loss functions: value and gradient against the definitions, in double precision.
#include "solio.h"
#include "sol/loss/hinge_loss.h"
#include "sol/loss/loss.h"
using namespace hv;
using sol::loss::Loss; using sol::loss::HingeBase;
typedef std::vector<double> V;

static const std::vector<S> kBin = {"bool", "hinge", "logistic"}, kMulti = {"maxscore-bool", "maxscore-hinge", "maxscore-logistic", "uniform-bool", "uniform-hinge", "uniform-logistic"};
static double softplus(double z) { return z > 0 ? z + std::log1p(std::exp(-z)) : std::log1p(std::exp(z)); }
static double sigm(double z) { return z >= 0 ? 1 / (1 + std::exp(-z)) : std::exp(z) / (1 + std::exp(z)); }

static float gen_score(Rng& r, int style) {
  switch (style) {
    case 0: return float(r.gauss());
    case 1: return float(r.range(-3, 3)) * 0.5f;                   // ties
    case 2: return float(r.gauss() * 60);                          // around the logistic cut-offs
    case 3: return float(r.pick(std::vector<double>{99.5, 100, 100.5, -99.5, -100, -100.5, 0, 1, -1, 88, 89, -88, -104, 50}));
    case 4: return float(r.gauss() * std::pow(10.0, r.range(-30, 15)));
    default: return r.chance(0.5) ? 0.f : -0.f;
  }
}
// value and gradient expected; amb: at a kink, where either side's gradient is right
struct Want { double loss = 0; V g; bool kink = false; double tol = 0; };
static Want expect(const S& name, const std::vector<float>& p, int y, int pred, double margin) {
  Want w; int K = int(p.size()); w.g.assign(K, 0); double mx = 0; for (float v : p) mx = std::max(mx, std::fabs(double(v)));
  w.tol = 4e-6 * (mx + std::fabs(margin)) + 5e-7;
  if (name == "square") { double d = double(p[0]) - y; w.loss = d * d / 2; w.g[0] = d; w.tol = 4e-6 * (w.loss + mx + 1); return w; }
  S kind = name.substr(name.find('-') == S::npos ? 0 : name.find('-') + 1);
  if (K == 1) {
    double s = p[0];
    if (kind == "bool") { w.loss = pred != y; w.g[0] = pred != y ? -y : 0; }
    else if (kind == "hinge") { double l = margin - s * y; w.kink = std::fabs(l) <= w.tol; w.loss = std::max(0.0, l); w.g[0] = l > 0 ? -y : 0; }
    else { double z = -s * y; w.loss = softplus(z); w.g[0] = -y * sigm(z); }
    return w;
  }
  if (kind == "bool" && pred == y) return w;
  V d(K, 0.0); double z = 0; bool none = false;
  if (name[0] == 'm') { int q = pred; if (q == y) { q = -1; for (int k = 0; k < K; ++k) if (k != y && (q < 0 || p[k] > p[q])) q = k; } d[q] = 1; d[y] = -1; z = double(p[q]) - p[y]; }
  else { int n = 0; double s = 0; for (int k = 0; k < K; ++k) if (k != y && p[k] >= p[y]) { ++n; s += p[k]; } none = n == 0; for (int k = 0; k < K && n; ++k) if (k != y && p[k] >= p[y]) d[k] = 1.0 / n; d[y] = -1; if (n) z = s / n - p[y]; w.tol *= K; }
  if (none) { return w; }
  if (kind == "bool") { w.loss = 1; w.g = d; }
  else if (kind == "hinge") { double l = margin + z; w.kink = std::fabs(l) <= w.tol; w.loss = std::max(0.0, l); if (l > 0) w.g = d; }
  else { w.loss = softplus(z); for (int k = 0; k < K; ++k) w.g[k] = d[k] * sigm(z); }
  return w;
}
static void one(Rng& r, const S& name, Loss* L, int K, double margin, bool handler) {
  int style = r.chance(0.1) ? 5 : r.below(5), y; std::vector<float> p(K); float base = r.chance(0.1) ? gen_score(r, 4) : 0;
  for (auto& v : p) { v = gen_score(r, r.chance(0.2) ? r.below(5) : style) + base; }
  if (K > 1 && r.chance(0.3)) p[r.below(K)] = p[r.below(K)];
  int pred; if (K == 1) { y = name == "square" ? r.range(-5, 5) : r.chance(0.5) ? 1 : -1; pred = p[0] >= 0 ? 1 : -1; } else { y = r.below(K); pred = int(std::max_element(p.begin(), p.end()) - p.begin()); }
  if (K == 1 && r.chance(0.1) && margin < 1e6) p[0] = float(margin * y);   // exactly at the margin
  sol::pario::DataPoint dp; dp.set_label(y); dp.AddNewFeat(1, 1.f);
  // exact-size heap copies, so that any overrun is seen
  std::unique_ptr<float[]> ph(new float[K]), gh(new float[K]); for (int k = 0; k < K; ++k) { ph[k] = p[k]; gh[k] = r.chance(0.5) ? 77.f : NAN; }
  double mg = margin; V dir; HingeBase* hb = handler ? static_cast<HingeBase*>(L) : nullptr; long calls = 0;
  if (hb) { hb->set_margin([&](const sol::pario::DataPoint& q, float* pp, sol::label_t, float* g, int n) { ++calls; dir.assign(g, g + n); if (&q != &dp || pp != ph.get() || n != K) viol("c14.handler." + name, "margin handler called with other arguments"); return float(mg); }); }
  float gl = L->gradient(dp, ph.get(), pred, gh.get(), K);
  S what = name + fmt(" margin %g label %d predicted %d scores", mg, y, pred); for (float v : p) what += fmt(" %.9g", v);
  float ll = hb ? gl : L->loss(dp, ph.get(), pred, K);
  for (int k = 0; k < K; ++k) if (memcmp(&ph[k], &p[k], 4)) { viol("c14.scores." + name, what + ": the scores are changed"); break; }
  Want w = expect(name, p, y, pred, mg);
  if (!(gl >= 0) || !std::isfinite(gl) || !(ll >= 0) || !std::isfinite(ll)) { viol("c14.range." + name, what + fmt(": loss %g / %g", ll, gl)); return; }
  if (std::fabs(gl - w.loss) > w.tol) viol("c14.value." + name, what + fmt(": loss %.9g (with gradient), expected %.9g", gl, w.loss));
  if (std::fabs(ll - w.loss) > w.tol) viol("c14.value." + name, what + fmt(": loss %.9g, expected %.9g", ll, w.loss));
  if (memcmp(&gl, &ll, 4) && std::fabs(gl - ll) > w.tol) viol("c14.two." + name, what + fmt(": loss() %.9g, gradient() %.9g", ll, gl));
  bool zero = true; for (int k = 0; k < K; ++k) if (gh[k] != 0) zero = false;
  double sum = 0; for (int k = 0; k < K; ++k) { sum += gh[k]; double gt = name == "square" ? 2e-6 * (std::fabs(w.g[0]) + 1) + 1e-6 * std::fabs(p[0]) : 3e-6 + (name.find("logistic") != S::npos ? w.tol * 0.3 : 0);
    if (w.kink) { if (gl == 0 && !zero) { viol("c14.zeroloss." + name, what + ": gradient with zero loss"); break; } continue; }
    if (!(std::fabs(gh[k] - w.g[k]) <= gt)) { viol("c14.gradient." + name, what + fmt(": gradient of class %d is %.9g, expected %.9g", k, gh[k], w.g[k])); break; } }
  bool marginloss = name.find("logistic") == S::npos && name != "square";
  if (marginloss && gl == 0 && !zero) viol("c14.zeroloss." + name, what + ": gradient with zero loss");
  if (marginloss && gl > 0 && zero) viol("c14.nograd." + name, what + ": loss without gradient");
  if (K > 1 && std::fabs(sum) > 2e-6 * K) viol("c14.sum." + name, what + fmt(": the gradient sums to %g", sum));
  if (hb && name.find("uniform") == S::npos && calls != 1) viol("c14.handler." + name, what + fmt(": margin handler called %ld times", calls));
  // a margin handler judges the direction of the update, it sees the gradient of a positive loss
  if (hb && calls && K > 1) { Want u = expect(name, p, y, pred, 1e36); for (int k = 0; k < K; ++k) if (std::fabs(dir[k] - u.g[k]) > 3e-6) { viol("c14.handler." + name, what + ": the margin handler sees a different update direction"); break; } }
  count("losses." + name); if (w.kink) count("at_kink"); if (w.loss == 0) count("zero_loss"); if (hb) count("margin_handlers"); if (K > 1) { auto q = p; std::sort(q.begin(), q.end()); if (std::adjacent_find(q.begin(), q.end()) != q.end()) count("tied_scores"); }
  nontrivial(hash_bytes(p.data(), 4 * K, hash_str(name, y + 100)));
  if (wants_sample()) sample(what + fmt(" -> loss %g", gl));
}
static void c14_loss(Rng& r) {
  bool multi = r.chance(0.65); S name = multi ? r.pick(kMulti) : r.chance(0.15) ? S("square") : r.pick(kBin); int K = multi ? (r.chance(0.05) ? r.chance(0.1) ? r.range(60, 1500) : r.range(10, 60) : r.range(3, 7)) : 1;
  std::unique_ptr<Loss> L(Loss::Create(name)); if (!L) { viol("c14.create", name + " cannot be created"); return; } if (L->name() != name) viol("c14.create", name + " calls itself " + L->name());
  int want = (multi ? Loss::MC : name == "square" ? Loss::RG : Loss::BC) | (name.find("hinge") != S::npos ? Loss::HINGE : 0) | (name.find("bool") != S::npos ? Loss::BOOL : 0);
  if (L->type() != want) viol("c14.type." + name, fmt("type %d, expected %d", L->type(), want));
  bool hinge = name.find("hinge") != S::npos; double margin = 1; if (hinge && r.chance(0.5)) { margin = float(r.chance(0.2) ? 0 : r.uni(0, 5)); static_cast<HingeBase*>(L.get())->set_margin(float(margin)); if (static_cast<HingeBase*>(L.get())->margin() != float(margin)) viol("c14.margin", "margin not kept"); }
  for (int i = 0; i < 20; ++i) { if (hinge && r.chance(0.2)) { margin = float(r.uni(0, 3)); static_cast<HingeBase*>(L.get())->set_margin(float(margin)); } one(r, name, L.get(), K, margin, false); }
  if (hinge && r.chance(0.5)) for (int i = 0; i < 10; ++i) one(r, name, L.get(), K, float(r.uni(0, 5)), true);
}
int main(int argc, char** argv) { return run_main(argc, argv, {{"c14_loss", c14_loss}}); }

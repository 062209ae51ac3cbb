// C23 linesearch, C24 quasi-Newton updates, C28 numeric helpers.
#include "common.hpp"
#include "proxsuite-nlp/context.hpp"
#include "proxsuite-nlp/linesearch-armijo.hpp"
#include "proxsuite-nlp/bfgs-strategy.hpp"
#include "proxsuite-nlp/math.hpp"
#include "proxsuite-nlp/exceptions.hpp"
#include <Eigen/Eigenvalues>
using namespace vf;
using namespace proxsuite::nlp;
static const double EPS = std::numeric_limits<double>::epsilon();
static const double INF = std::numeric_limits<double>::infinity();
static const double NAN_ = std::numeric_limits<double>::quiet_NaN();
typedef long double ld;

#if VF_PROP == 23
using LS = ArmijoLinesearch<double>;
using Opt = Linesearch<double>::Options;
struct Trial {
  double a, v;
  bool threw;
};
struct Custom : std::logic_error {
  using std::logic_error::logic_error;
};
struct Phi { // one-dimensional merit along a direction
  std::vector<double> p; // polynomial, increasing degree
  double s = 0, w = 1, ph = 0, e = 0, k = 0, kink = 0;
  double operator()(double a) const {
    double r = 0;
    for (size_t i = p.size(); i-- > 0;)
      r = r * a + p[i];
    return r + s * std::sin(w * a + ph) + e * (std::exp(k * a) - 1) + kink * std::abs(a - 0.37);
  }
  double d0() const {
    return (p.size() > 1 ? p[1] : 0) + s * w * std::cos(ph) + e * k - kink;
  }
};
/// is t the minimiser of the interpolant over [lo,hi] (interior stationary
/// minimum if there is one, else the better end)?  undecided -> true
static bool is_minimiser(ld c3, ld c2, ld c1, ld lo, ld hi, ld t, ld unc, bool &decided) {
  auto I = [&](ld a) { return ((c3 * a + c2) * a + c1) * a; };
  ld st = NAN_;
  decided = false;
  if (c3 == 0) {
    if (c2 <= 0)
      return true; // no interior minimum; ends are compared below by caller
    st = -c1 / (2 * c2);
  } else {
    ld disc = c2 * c2 - 3 * c3 * c1;
    ld big = c2 * c2 + std::abs(3 * c3 * c1);
    if (!(disc > 1e-6 * big) || std::abs(c3) * hi < 1e-4 * std::abs(c2))
      return true;
    ld num = -c2 + std::sqrt(disc);
    if (std::abs(num) < 1e-5 * (std::abs(c2) + std::sqrt(disc)))
      return true;
    st = num / (3 * c3);
  }
  ld tol = 1e-6 * hi + unc;
  if (std::abs(st - lo) < 2 * tol || std::abs(st - hi) < 2 * tol)
    return true;
  decided = true;
  if (st > lo && st < hi)
    return std::abs(t - st) <= tol;
  ld il = I(lo), ih = I(hi);
  if (std::abs(il - ih) <= 1e-6 * (std::abs(c3 * hi * hi * hi) + std::abs(c2 * hi * hi) + std::abs(c1 * hi))) {
    decided = false;
    return true;
  }
  return std::abs(t - (il < ih ? lo : hi)) <= tol;
}

static void ls_case(long ci, Rng &r) {
  Opt o;
  if (r.coin(0.8)) {
    o.armijo_c1 = r.pick(std::vector<double>{1e-4, 1e-4, 1e-8, 0.1, 0.3, 0.49, 0.9});
    o.alpha_min = r.pick(std::vector<double>{1e-6, 1e-6, 1e-12, 1e-3, 0.05, 0.4, 1.});
    o.max_num_steps = size_t(r.pick(std::vector<int>{20, 20, 0, 1, 2, 5, 60}));
    o.contraction_min = r.pick(std::vector<double>{0.5, 0.5, 0.1, 0.01, 0.3});
    o.contraction_max = r.pick(std::vector<double>{0.8, 0.8, 0.95, 0.55, 0.7});
  }
  o.interp_type = LSInterpolation(ci % 3);
  Phi f;
  int fam = r.in(0, 6);
  f.p = {r.gauss() * r.logu(1e-3, 1e3)};
  double sc = r.logu(1e-6, 1e6);
  auto g = [&] { return sc * r.gauss(); };
  if (fam == 0) { // convex quadratic, any curvature
    double d = -sc * r.logu(1e-3, 1), m = r.logu(1e-4, 5);
    f.p = {f.p[0], d, -d / (2 * m)};
  } else if (fam == 1)
    f.p = {f.p[0], -std::abs(g()), g(), g() * r.logu(1, 100)};
  else if (fam == 2) {
    f.s = g();
    f.w = r.uni(0, 30);
    f.ph = r.uni(0, 6.3);
  } else if (fam == 3) {
    f.p = {f.p[0], -std::abs(g())};
    f.e = sc * r.logu(1e-4, 1);
    f.k = r.uni(0, 40);
  } else if (fam == 4) {
    f.p = {f.p[0], -std::abs(g())};
    f.kink = std::abs(g());
  } else if (fam == 5)
    f.p = {f.p[0], r.coin(0.5) ? std::abs(g()) : 0.}; // ascent / flat
  else
    f.p = {f.p[0], g(), g(), g(), g(), g()};
  double phi0 = f(0), dphi0 = f.d0();
  if (r.coin(0.05))
    dphi0 = r.coin() ? 0. : 1e-14 * r.gauss();
  if (r.coin(0.05))
    dphi0 = -std::abs(dphi0) * r.logu(1e-2, 1e2); // slope and function disagree
  double nan_above = r.coin(0.15) ? r.logu(1e-7, 1) : INF;
  double bad = r.pick(std::vector<double>{NAN_, INF, -INF});
  double thr_above = r.coin(0.2) ? r.logu(1e-7, 1) : INF;
  double thr_band_lo = r.coin(0.15) ? r.logu(1e-3, 1) : INF, thr_band_hi = thr_band_lo * r.uni(1, 2);
  bool never = r.coin(0.03);
  long logic_at = r.coin(0.05) ? r.in(0, 6) : -1;
  std::vector<Trial> tr;
  auto phi = [&](double a) -> double {
    if (logic_at == long(tr.size())) {
      tr.push_back({a, 0, true});
      throw Custom("not a runtime_error");
    }
    if (never || a >= thr_above || (a >= thr_band_lo && a <= thr_band_hi)) {
      tr.push_back({a, 0, true});
      throw std::runtime_error(cat("cannot evaluate ", tr.size()));
    }
    double v = a >= nan_above ? bad : f(a);
    tr.push_back({a, v, false});
    if (tr.size() > 5000)
      throw Custom("runaway");
    return v;
  };
  LS ls(o);
  bool reuse = r.coin(0.3);
  if (reuse) { // the object has been used before
    Phi f2 = f;
    f2.p[0] += 1;
    double a2;
    try {
      ls.run([&](double a) { return f2(a) + a * a * sc; }, f2(0), f2.d0(), a2);
    } catch (const std::exception &) {
    }
  }
  double alpha = r.coin() ? NAN_ : r.gauss(), ret = NAN_;
  std::string ctx_ = cat("fam=", fam, " interp=", int(o.interp_type), " c1=", o.armijo_c1, " amin=", o.alpha_min,
                         " phi0=", phi0, " dphi0=", dphi0, " steps=", o.max_num_steps);
  phase("linesearch");
  bool threw = false;
  try {
    ret = ls.run(phi, phi0, dphi0, alpha);
  } catch (const Custom &) {
    VCHECK(logic_at >= 0, "runaway", ctx_, " evaluations=", tr.size());
    VCHECK(long(tr.size()) == logic_at + 1, "foreign-exception", ctx_, " carried on after an unrelated exception");
    count("exception.foreign");
    return;
  } catch (const std::runtime_error &e) {
    threw = true;
    bool any = false;
    for (auto &t : tr)
      any = any || !t.threw;
    VCHECK(!any, "lost-step", ctx_, " threw although a step was evaluable");
    VCHECK(!tr.empty() && tr.back().a <= o.alpha_min * (1 + 1e-12), "gave-up-early", ctx_, " last=", tr.empty() ? -1 : tr.back().a);
    VCHECK(e.what() == cat("cannot evaluate ", tr.size()), "exception-identity", e.what());
    count("exception.unevaluable");
  }
  if (logic_at >= 0 && long(tr.size()) > logic_at)
    VCHECK(false, "foreign-exception-swallowed", ctx_);
  VCHECK(!tr.empty() && tr[0].a == 1., "first-trial", ctx_, " first=", tr.empty() ? -1 : tr[0].a);
  if (tr.empty())
    return;
  const double amin = o.alpha_min;
  // every trial, in order
  size_t n = tr.size();
  size_t first = 0;
  while (first < n && tr[first].threw)
    first++;
  for (size_t i = 1; i <= first && i < n; i++)
    VCHECK(close(tr[i].a, std::max(0.5 * tr[i - 1].a, amin), 1e-12, tr[i - 1].a), "exception-backtrack", ctx_, " trial ", i, " ",
           tr[i - 1].a, "->", tr[i].a);
  for (auto &t : tr)
    VCHECK(t.a <= 1 && t.a >= std::min(1., amin) * (1 - 1e-12), "trial-range", ctx_, " a=", t.a);
  if (threw)
    return;
  auto armijo = [&](const Trial &t) { return !t.threw && t.v - phi0 <= o.armijo_c1 * t.a * dphi0; };
  bool tiny = std::abs(dphi0) < o.dphi_thresh;
  if (tiny) {
    VCHECK(n == first + 1, "stationary-stop", ctx_, " evaluations=", n);
    count("stationary");
  } else {
    int prev = -1, last = int(first);
    for (size_t i = first; i < n; i++) {
      if (i > first && !tr[i].threw) {
        prev = last;
        last = int(i);
      }
      bool stop = armijo(tr[i]);
      if (i > first && tr[i].a <= amin)
        stop = true;
      if (i - first >= o.max_num_steps)
        stop = true;
      VCHECK(stop == (i + 1 == n), stop ? "continued-after-stop" : "stopped-early", ctx_, " trial ", i, "/", n, " a=", tr[i].a,
             " v=", tr[i].v);
      if (i + 1 == n || stop)
        break;
      double a = tr[i].a, t = tr[i + 1].a;
      if (tr[i].threw || o.interp_type == LSInterpolation::BISECTION) {
        VCHECK(close(t, std::max(amin, 0.5 * a), 1e-12, a), "bisection", ctx_, " ", a, "->", t);
        continue;
      }
      double lo = o.contraction_min * a, hi = o.contraction_max * a;
      VCHECK(t >= std::max(amin, lo) * (1 - 1e-12) && t <= std::max(amin, hi) * (1 + 1e-12), "contraction", ctx_, " ", a, "->", t);
      count("contractions");
      if (t <= amin || !std::isfinite(tr[last].v) || (prev >= 0 && !std::isfinite(tr[prev].v)))
        continue;
      // interpolation
      ld d1 = ld(tr[last].v) - phi0 - ld(dphi0) * tr[last].a, a1 = tr[last].a;
      ld err1 = EPS * (std::abs(tr[last].v) + std::abs(phi0) + std::abs(dphi0 * tr[last].a));
      if (std::abs(d1) < 1e6 * err1)
        continue;
      bool dec = false, ok = true;
      if (o.interp_type == LSInterpolation::QUADRATIC || prev < 0) {
        ld c2 = d1 / (a1 * a1);
        if (c2 > 0) {
          ok = is_minimiser(0, c2, dphi0, lo, hi, t, 0, dec);
          if (dec)
            count("interp.quadratic");
        } else { // concave: the better end
          auto I = [&](ld x) { return c2 * x * x + dphi0 * x; };
          if (std::abs(I(lo) - I(hi)) > 1e-6 * (std::abs(c2 * hi * hi) + std::abs(dphi0 * hi))) {
            ld st = -dphi0 / (2 * c2);
            if (!(st > lo * .999 && st < hi * 1.001)) {
              ok = std::abs(t - (I(lo) < I(hi) ? lo : hi)) <= 1e-6 * hi;
              count("interp.concave");
            }
          }
        }
        VCHECK(ok, "quadratic-step", ctx_, " a=", a, " phi(a)=", tr[last].v, " next=", t, " c2=", double(c2));
      } else {
        ld a0 = tr[prev].a, d0 = ld(tr[prev].v) - phi0 - ld(dphi0) * a0;
        ld err0 = EPS * (std::abs(tr[prev].v) + std::abs(phi0) + std::abs(dphi0 * a0));
        if (std::abs(d0) < 1e6 * err0 || std::abs(a0 - a1) < 0.02 * a0)
          continue;
        ld c3 = (d0 / (a0 * a0) - d1 / (a1 * a1)) / (a0 - a1), c2 = d1 / (a1 * a1) - c3 * a1;
        ld e3 = (err0 / (a0 * a0) + err1 / (a1 * a1)) / std::abs(a0 - a1);
        e3 += 1e-13L * (std::abs(d0 / (a0 * a0)) + std::abs(d1 / (a1 * a1))) / std::abs(a0 - a1);
        if (e3 > 1e-7 * std::abs(c3) || e3 * a1 > 1e-7 * std::abs(c2))
          continue;
        ok = is_minimiser(c3, c2, dphi0, lo, hi, t, 1e-3 * hi, dec);
        if (dec)
          count("interp.cubic");
        VCHECK(ok, "cubic-step", ctx_, " a=", a, " prev=", double(a0), " next=", t, " c3=", double(c3), " c2=", double(c2));
      }
    }
  }
  // the answer: the last step at which phi could be evaluated
  int li = -1;
  for (size_t i = 0; i < n; i++)
    if (!tr[i].threw)
      li = int(i);
  VCHECK(alpha == tr[li].a, "returned-step", ctx_, " returned ", alpha, " last evaluated ", tr[li].a);
  VCHECK(ret == tr[li].v || (std::isnan(ret) && std::isnan(tr[li].v)), "returned-value", ctx_, " returned ", ret, " phi there ",
         tr[li].v);
  bool dec = armijo(tr[li]);
  if (dec && !tiny)
    count("accepted");
  else if (!tiny)
    count("gave-up");
  if (n > first + 1)
    count("backtracked");
  if (first)
    count("exception.recovered");
  for (auto &t : tr)
    if (!t.threw && !std::isfinite(t.v)) {
      count("nonfinite-trial");
      break;
    }
  nontrivial(hcomb(hdouble(alpha), hcomb(hdouble(ret), hcomb(n, ci % 3))));
}
/// convergence on well-behaved functions: a descent direction is never
/// rejected for long
static void descent_case(long ci, Rng &r) {
  Opt o;
  o.interp_type = LSInterpolation(ci % 3);
  double L = r.logu(1e-2, 1e3), d = -r.logu(1e-2, 1e2), c = r.gauss();
  double amp = r.uni(0, 1);
  // curvature bounded by L(1+amp)
  auto f = [&](double a) { return c + d * a + 0.5 * L * a * a + amp * L * (1 - std::cos(a)); };
  double alpha, v;
  LS ls(o);
  v = ls.run(f, f(0), d, alpha);
  double curv = L * (1 + amp);
  double bound = std::min(1., 0.5 * 2 * (1 - o.armijo_c1) * (-d) / curv);
  if (bound > 1e-4) {
    VCHECK(alpha >= bound * (1 - 1e-9), "too-short", "alpha=", alpha, " bound=", bound, " L=", L, " d=", d);
    VCHECK(v <= f(0) + o.armijo_c1 * alpha * d, "no-decrease", v, " ", f(0));
    count("descent");
  }
}
static void poly_case(long, Rng &r) {
  int n = r.many(1, 9, 40);
  V c = r.vec(n, r.logu(1e-3, 1e3));
  PolynomialTpl<double> p(c);
  VCHECK(p.degree() == n - 1, "degree", n);
  auto d = p.derivative();
  VCHECK(d.coeffs.size() == std::max(1, n - 1), "derivative-degree", n, " -> ", d.coeffs.size());
  for (int i = 0; i < n - 1 && i < d.coeffs.size(); i++)
    VCHECK(close(d.coeffs[i], c[i] * (n - 1 - i), 1e-14, std::abs(c[i]) * n), "derivative-coeff", i);
  double x = r.gauss() * r.logu(1e-2, 1e2);
  ld v = 0, dv = 0, sc = 0;
  for (int i = 0; i < n; i++) {
    v += ld(c[i]) * std::pow(ld(x), n - 1 - i);
    sc += std::abs(ld(c[i]) * std::pow(ld(x), n - 1 - i)) * (n + 1);
    if (i < n - 1)
      dv += ld(c[i]) * (n - 1 - i) * std::pow(ld(x), n - 2 - i);
  }
  VCHECK(close(p.evaluate(x), double(v), 1e-13, double(sc)), "polynomial-value", n, " x=", x);
  VCHECK(close(d.evaluate(x), double(dv), 1e-13, double(sc) * n / std::min(1., std::abs(x)) + 1e-300), "derivative-value", n, " x=", x);
  count("polynomials");
}
static void run_all() {
  run_cases("linesearch", 60000, ls_case);
  run_cases("descent", 20000, descent_case);
  run_cases("polynomial", 20000, poly_case);
}
#endif

#if VF_PROP == 24
template <BFGSType T> static void bfgs_case(Rng &r, const char *nm) {
  int n = r.many(1, 8, 32);
  BFGSStrategy<double, T> b(n);
  VCHECK(b.isValid() && !b.is_init, "fresh", nm);
  bool symm = r.coin(0.85);
  M H = r.coin(0.4) ? M(M::Identity(n, n)) : r.spd(n, 0.1, 10);
  if (!symm)
    H = r.mat(n, n);
  LM ref = H.cast<ld>();
  int kind = r.in(0, 3);
  M A = r.spd(n, 0.2, 5);
  V w = r.vec(n), x, g, xp, gp;
  auto grad = [&](const V &z) -> V {
    if (kind == 0)
      return A * z; // convex quadratic
    if (kind == 1) { // smooth convex
      V o = A * z;
      for (int i = 0; i < n; i++)
        o[i] += std::tanh(z[i]) + z[i] * z[i] * z[i];
      return o;
    }
    if (kind == 2) { // non-convex
      V o = A * z;
      for (int i = 0; i < n; i++)
        o[i] -= 6 * std::sin(w[i] * z[i]);
      return o;
    }
    return r.vec(n);
  };
  x = r.vec(n);
  g = grad(x);
  bool explicit_init = r.coin(0.3);
  if (explicit_init)
    b.init(x, g);
  else {
    M H0 = H;
    b.update(x, g, H);
    VCHECK(bitEq(H, H0), "first-update", nm, " changed the matrix");
  }
  VCHECK(b.is_init, "init-flag", nm);
  xp = x;
  gp = g;
  int steps = r.many(1, 12, 60);
  bool pd = symm;
  for (int k = 0; k < steps; k++) {
    if (r.coin(0.05)) { // restart from another point, same matrix
      xp = r.vec(n);
      gp = grad(xp);
      b.init(xp, gp);
      count("reinit");
    }
    x = r.coin(0.05) ? xp : V(xp + r.vec(n, r.logu(1e-3, 2)));
    g = grad(x);
    if (r.coin(0.05)) { // exactly orthogonal change
      g = gp;
    }
    V s = x - xp, y = g - gp;
    double sy = s.dot(y);
    bool edge = std::abs(sy) < 1e-12 * (s.norm() * y.norm() + 1e-300) && sy != 0;
    M before = H;
    phase(cat("bfgs-", nm));
    BFGSStrategy<double, T> copy = b;
    M Hc = H;
    b.update(x, g, H);
    copy.update(x, g, Hc);
    VCHECK(bitEq(H, Hc), "copy-differs", nm);
    if (edge)
      return;
    if (!(sy > 0)) {
      VCHECK(bitEq(H, before), "skip", nm, " sy=", sy, " but the matrix changed");
      VCHECK(!b.is_psd, "psd-flag", nm, " sy=", sy);
      count("skipped");
    } else {
      VCHECK(b.is_psd, "psd-flag", nm, " sy=", sy);
      LV ls = s.cast<ld>(), ly = y.cast<ld>();
      ld lsy = ls.dot(ly);
      LV u = T == InverseHessian ? ls : ly, v = T == InverseHessian ? ly : ls;
      LM Vm = LM::Identity(n, n) - u * v.transpose() / lsy;
      ref = Vm * before.cast<ld>() * Vm.transpose() + u * u.transpose() / lsy;
      double vn = 1 + s.norm() * y.norm() / sy;
      double sc = vn * vn * (before.norm() + 1e-300) + double((u * u.transpose() / lsy).norm());
      double tol = 1e3 * EPS * n * sc * vn;
      VCHECK(maxdiff(H, ref.cast<double>()) <= tol, cat("update-value.", nm), "n=", n, " err=", maxdiff(H, ref.cast<double>()),
             " tol=", tol);
      // secant equation
      V sec = T == InverseHessian ? V(H * y - s) : V(H * s - y);
      double vnorm = T == InverseHessian ? y.norm() : s.norm();
      VCHECK(sec.norm() <= n * tol * vnorm + 1e3 * EPS * (s.norm() + y.norm()), cat("secant.", nm), "err=", sec.norm());
      if (symm)
        VCHECK(maxdiff(H, H.transpose()) <= tol, cat("symmetry.", nm), "asym=", maxdiff(H, H.transpose()));
      if (pd) {
        Eigen::SelfAdjointEigenSolver<M> es(before), en(0.5 * (H + H.transpose()));
        if (es.eigenvalues()[0] > 0)
          VCHECK(en.eigenvalues()[0] > -tol * n, cat("definite.", nm), "min eig ", en.eigenvalues()[0]);
        count("definite");
      }
      count(cat("updates.", nm));
      nontrivial(hcomb(hdouble(H(0, 0)), hcomb(n, k)));
    }
    xp = x;
    gp = g;
    if (H.norm() > 1e8)
      break;
  }
}
/// exact line searches on a quadratic: finite termination, full Hessian
template <BFGSType T> static void quad_case(Rng &r, const char *nm) {
  int n = r.many(2, 6, 16);
  M A = r.spd(n, 0.5, 4);
  V xs = r.vec(n), x = r.vec(n);
  BFGSStrategy<double, T> b(n);
  M H = M::Identity(n, n);
  V g = A * (x - xs);
  b.update(x, g, H);
  int k = 0;
  for (; k < n && g.norm() > 1e-8; k++) {
    V d = T == InverseHessian ? V(-H * g) : V(-H.ldlt().solve(g));
    double a = -g.dot(d) / d.dot(A * d);
    x += a * d;
    g = A * (x - xs);
    b.update(x, g, H);
  }
  VCHECK(g.norm() <= 1e-6 * (1 + xs.norm()), cat("finite-termination.", nm), "n=", n, " |g|=", g.norm());
  if (k == n) {
    M want = T == InverseHessian ? M(A.inverse()) : A;
    VCHECK(maxdiff(H, want) <= 1e-4, cat("hereditary.", nm), "n=", n, " err=", maxdiff(H, want));
    count(cat("full-hessian.", nm));
  }
}
template <BFGSType T> static void invalid_case(Rng &r) {
  BFGSStrategy<double, T> b;
  int n = r.many(1, 4, 16);
  VCHECK(!b.isValid() && !b.is_init, "default-valid", "");
  M H = M::Identity(n, n);
  V x = r.vec(n), g = r.vec(n);
  bool t1 = false, t2 = false;
  try {
    b.init(x, g);
  } catch (const std::runtime_error &) {
    t1 = true;
  }
  try {
    b.update(x, g, H);
  } catch (const std::runtime_error &) {
    t2 = true;
  }
  VCHECK(t1 && t2, "default-usable", "init/update of an invalid object did not throw");
  VCHECK(bitEq(H, M(M::Identity(n, n))) && !b.is_init, "invalid-state", "");
  BFGSStrategy<double, T> good(n);
  good.update(x, g, H);
  b = std::move(good); // as the solver's setup does
  VCHECK(b.isValid() && b.is_init, "move-assign", "");
  V x2 = x + r.vec(n), g2 = g + 2 * (x2 - x);
  b.update(x2, g2, H);
  V s = x2 - x, y = g2 - g;
  V sec = T == InverseHessian ? V(H * y - s) : V(H * s - y);
  VCHECK(sec.norm() <= 1e-8 * (1 + s.norm()), "secant-after-move", sec.norm());
  count("invalid");
}
static void run_all() {
  run_cases("inverse", 15000, [](long, Rng &r) { bfgs_case<InverseHessian>(r, "inverse"); });
  run_cases("direct", 15000, [](long, Rng &r) { bfgs_case<Hessian>(r, "direct"); });
  run_cases("quad-inverse", 2000, [](long, Rng &r) { quad_case<InverseHessian>(r, "inverse"); });
  run_cases("quad-direct", 2000, [](long, Rng &r) { quad_case<Hessian>(r, "direct"); });
  run_cases("invalid", 500, [](long i, Rng &r) { i % 2 ? invalid_case<Hessian>(r) : invalid_case<InverseHessian>(r); });
}
#endif

int main(int argc, char **argv) {
  parse_args(argc, argv);
  heap_hooks_install();
  run_all();
  return finish();
}

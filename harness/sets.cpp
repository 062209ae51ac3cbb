// Monitors for the constraint sets / proximal operators.
// VF_PROP: 1 projection laws, 2 generalised Jacobians, 3 Moreau envelope,
// 4 product sets.
#include "common.hpp"
#include "proxsuite-nlp/modelling/spaces/vector-space.hpp"
#include "proxsuite-nlp/modelling/constraints.hpp"
#include "proxsuite-nlp/modelling/constraints/box-constraint.hpp"
#include "proxsuite-nlp/modelling/constraints/equality-constraint.hpp"
#include "proxsuite-nlp/modelling/constraints/negative-orthant.hpp"
#include "proxsuite-nlp/modelling/constraints/l1-penalty.hpp"
#include "proxsuite-nlp/modelling/constraints/constraint-set-product.hpp"
using namespace vf;
using namespace proxsuite::nlp;
using Set = ConstraintSetTpl<double>;
using PSet = xyz::polymorphic<Set>;
using Eq = EqualityConstraintTpl<double>;
using Neg = NegativeOrthantTpl<double>;
using Box = BoxConstraintTpl<double>;
using L1 = NonsmoothPenaltyL1Tpl<double>;
using Prod = ConstraintSetProductTpl<double>;
using Act = Set::ActiveType;
using BoolVec = Eigen::Matrix<bool, -1, 1>;
static const double INF = std::numeric_limits<double>::infinity();
static const double EPS = std::numeric_limits<double>::epsilon();

enum Kind { EQ, NEG, BOX, L1K, NK };
static const char *KN[] = {"equality", "negative-orthant", "box", "l1"};

// scalar reference model of one component of a set
struct Comp {
  Kind k;
  double lo = 0, hi = 0;
  double prox(double z, double mu) const {
    switch (k) {
    case EQ:
      return 0;
    case NEG:
      return z > 0 ? 0 : z;
    case BOX:
      return z > hi ? hi : (z < lo ? lo : z);
    default:
      return z > mu ? z - mu : (z < -mu ? z + mu : 0);
    }
  }
  // distance from z to the nearest kink of the prox
  double kink(double z, double mu) const {
    switch (k) {
    case EQ:
      return INF;
    case NEG:
      return std::abs(z);
    case BOX:
      return std::min(std::abs(z - lo), std::abs(z - hi));
    default:
      return std::abs(std::abs(z) - mu);
    }
  }
  double dprox(double z, double mu) const { // away from kinks
    switch (k) {
    case EQ:
      return 0;
    case NEG:
      return z > 0 ? 0 : 1;
    case BOX:
      return (z > hi || z < lo) ? 0 : 1;
    default:
      return std::abs(z) <= mu ? 0 : 1;
    }
  }
  bool active(double z, double mu) const {
    switch (k) {
    case EQ:
      return true;
    case NEG:
      return z > 0;
    case BOX:
      return z > hi || z < lo;
    default:
      return std::abs(z) <= mu;
    }
  }
  double g(double p) const { return k == L1K ? std::abs(p) : 0.; }
  double feasible_sample(Rng &r) const {
    switch (k) {
    case EQ:
      return 0;
    case NEG:
      return -std::abs(r.gauss()) * r.logu(1e-3, 1e3);
    case BOX: {
      double a = std::max(lo, -1e3), b = std::min(hi, 1e3);
      if (a > b)
        return lo > 0 ? lo : hi;
      return r.coin(0.2) ? a : (r.coin(0.2) ? b : std::min(b, std::max(a, r.uni(a, b))));
    }
    default:
      return r.gauss() * r.logu(1e-3, 1e3);
    }
  }
};

struct Model {
  std::vector<Comp> c;
  PSet set{Eq()};
  std::string name;
  double mu = 1;
  int n() const { return (int)c.size(); }
};

static double rscale(Rng &r) {
  return r.coin(0.6) ? 1. : r.logu(1e-8, 1e8);
}

static Model simple(Rng &r, int n, int kind = -1) {
  Model m;
  Kind k = kind < 0 ? Kind(r.in(0, 3)) : Kind(kind);
  m.name = KN[k];
  m.c.resize(n, Comp{k});
  switch (k) {
  case EQ:
    m.set = PSet(Eq());
    break;
  case NEG:
    m.set = PSet(Neg());
    break;
  case L1K:
    m.set = PSet(L1());
    break;
  default: {
    V lo(n), hi(n);
    for (int i = 0; i < n; i++) {
      double a = r.gauss() * rscale(r), b = r.gauss() * rscale(r);
      if (a > b)
        std::swap(a, b);
      int t = r.in(0, 9);
      if (t == 0)
        a = -INF;
      if (t == 1)
        b = INF;
      if (t == 2)
        a = -INF, b = INF;
      if (t == 3)
        b = a;
      if (t == 4)
        a = 0, b = std::abs(b);
      lo[i] = a, hi[i] = b;
      m.c[i].lo = a;
      m.c[i].hi = b;
    }
    m.set = PSet(Box(lo, hi));
  }
  }
  return m;
}

static Model product(Rng &r, int depth, Model *parts_out = nullptr,
                     std::vector<Model> *subs = nullptr) {
  int nb = r.many(0, 4, 12);
  if (r.coin(0.8))
    nb = std::max(nb, 1);
  std::vector<PSet> sets;
  std::vector<Eigen::Index> sizes;
  Model m;
  m.name = "product(";
  for (int b = 0; b < nb; b++) {
    Model s = (depth > 0 && r.coin(0.25)) ? product(r, depth - 1)
                                          : simple(r, r.coin(0.1) ? 0 : r.many(1, 5, 24, 0.03));
    sets.push_back(s.set);
    sizes.push_back(s.n());
    m.c.insert(m.c.end(), s.c.begin(), s.c.end());
    m.name += s.name + ":" + std::to_string(s.n()) + ",";
    if (subs)
      subs->push_back(s);
  }
  m.name += ")";
  m.set = PSet(Prod(sets, sizes));
  (void)parts_out;
  return m;
}

static double pickmu(Rng &r) {
  static const std::vector<double> s{1., 0.5, 1e-2, 1e-9, 2., 10.};
  return r.coin(0.5) ? r.pick(s) : r.logu(1e-9, 1e3);
}

static V point(Rng &r, const Model &m, double mu, bool kinks) {
  V z(m.n());
  for (int i = 0; i < m.n(); i++) {
    const Comp &c = m.c[i];
    double v = r.gauss() * rscale(r);
    if (c.k == BOX && r.coin(0.5)) {
      double a = std::isfinite(c.lo) ? c.lo : -3, b = std::isfinite(c.hi) ? c.hi : 3;
      double w = std::max(b - a, 1e-3);
      v = r.uni(a - w, b + w);
    }
    if (c.k == L1K && r.coin(0.6))
      v = mu * r.uni(-3, 3);
    if (kinks && r.coin(0.25)) {
      if (c.k == NEG || c.k == EQ)
        v = r.coin() ? 0. : -0.;
      if (c.k == BOX)
        v = r.coin() ? c.lo : c.hi;
      if (c.k == L1K)
        v = r.coin() ? mu : -mu;
      if (!std::isfinite(v))
        v = r.gauss();
    }
    z[i] = v;
  }
  return z;
}

static uint64_t hashcase(const Model &m, const V &z, double mu) {
  uint64_t h = hdouble(mu);
  for (int i = 0; i < m.n(); i++)
    h = hcomb(h, hcomb(uint64_t(m.c[i].k), hdouble(z[i])));
  return h;
}
static bool touches(const Model &m, const V &z, double mu) {
  bool a = false, b = false;
  for (int i = 0; i < m.n(); i++)
    (m.c[i].active(z[i], mu) ? a : b) = true;
  return a || b;
}

// run op into a guarded buffer: nothing outside the output may be written
template <class F> static V guarded(int n, const std::string &key, F f) {
  V buf = V::Constant(n + 8, 12345.678);
  f(buf.segment(4, n));
  for (int i = 0; i < 4; i++)
    VCHECK(buf[i] == 12345.678 && buf[n + 4 + i] == 12345.678, key + ".oob",
           "wrote outside the output");
  return buf.segment(4, n);
}

static void check_projection(Rng &r, const Model &m, const Set &set, double mu,
                             const V &z, const std::string &kn) {
  const int n = m.n();
  V z0 = z;
  V p = guarded(n, "proj." + kn,
                [&](Eigen::Ref<V> o) { set.projection(z, o); });
  V q = guarded(n, "ncone." + kn,
                [&](Eigen::Ref<V> o) { set.normalConeProjection(z, o); });
  VCHECK(bitEq(z, z0), "proj.modifies-input." + kn, m.name);
  for (int i = 0; i < n; i++) {
    const Comp &c = m.c[i];
    double ref = c.prox(z[i], mu);
    double sc = std::abs(z[i]) + std::abs(ref) + (c.k == L1K ? mu : 0);
    VCHECK(close(p[i], ref, 4 * EPS, sc), "proj.value." + kn, "z=", z[i],
           " p=", p[i], " expected ", ref, " mu=", mu, " lo=", c.lo,
           " hi=", c.hi, " set=", m.name, " comp ", i);
    VCHECK(close(p[i] + q[i], z[i], 4 * EPS, sc), "moreau-decomposition." + kn,
           "z=", z[i], " p=", p[i], " q=", q[i], " set=", m.name);
    if (c.k == NEG)
      VCHECK(p[i] <= 0 && q[i] >= 0, "feasible." + kn, p[i], " ", q[i]);
    if (c.k == BOX)
      VCHECK(p[i] >= c.lo && p[i] <= c.hi, "feasible." + kn, p[i]);
    if (c.k == EQ)
      VCHECK(p[i] == 0, "feasible." + kn, p[i]);
    if (c.k == L1K)
      VCHECK(std::abs(q[i]) <= mu * (1 + 4 * EPS) + 4 * EPS * std::abs(z[i]),
             "feasible." + kn, q[i], " mu=", mu);
  }
  // variational inequality / optimality against sampled members
  for (int t = 0; t < 3; t++) {
    double s = 0, sc = 1e-300;
    for (int i = 0; i < n; i++) {
      double y = m.c[i].feasible_sample(r);
      double lhs = (z[i] - p[i]) * (y - p[i]) -
                   mu * (m.c[i].g(y) - m.c[i].g(p[i]));
      s += lhs;
      sc += (std::abs(z[i]) + std::abs(p[i]) + mu) *
                (std::abs(y) + std::abs(p[i])) +
            std::abs(mu * y);
    }
    VCHECK(s <= 16 * EPS * sc, "variational-inequality." + kn, "s=", s,
           " z=", str(z), " p=", str(p));
  }
  // idempotence (true sets only)
  bool hasl1 = false;
  for (auto &c : m.c)
    hasl1 |= c.k == L1K;
  V p2(n);
  set.projection(p, p2);
  for (int i = 0; i < n; i++)
    if (m.c[i].k != L1K)
      VCHECK(p2[i] == p[i], "idempotent." + kn, p[i], " -> ", p2[i]);
  // non-expansiveness
  V zb = point(r, m, mu, true), pb(n);
  set.projection(zb, pb);
  for (int i = 0; i < n; i++) {
    double sc = std::abs(z[i]) + std::abs(zb[i]) + mu;
    VCHECK(std::abs(p[i] - pb[i]) <= std::abs(z[i] - zb[i]) + 8 * EPS * sc,
           "nonexpansive." + kn, p[i], " ", pb[i], " ", z[i], " ", zb[i]);
  }
  // in place use (the solver projects in place)
  V a = z;
  {
    Eigen::Ref<V> ar(a);
    set.projection(ar, ar);
  }
  VCHECK(bitEq(a, p), "inplace.projection." + kn, str(a), " vs ", str(p));
  a = z;
  {
    Eigen::Ref<V> ar(a);
    set.normalConeProjection(ar, ar);
  }
  VCHECK(bitEq(a, q), "inplace.normalcone." + kn, str(a), " vs ", str(q));
}

#if VF_PROP == 1
static void run() {
  Ctx &c = ctx();
  long N = c.thorough ? 200000 : 24000;
  run_cases("projection", N, [&](long, Rng &r) {
    int n = r.coin(0.05) ? r.in(20, 200) : r.many(1, 8, 30, 0.02);
    Model m = simple(r, n);
    double mu = pickmu(r);
    m.set->setProxParameter(mu);
    VCHECK(m.set->mu() == mu, "mu-getter", m.set->mu());
    VCHECK(close(m.set->mu_inv() * mu, 1., 4 * EPS), "mu-inv-getter",
           m.set->mu_inv());
    V z = point(r, m, mu, true);
    check_projection(r, m, *m.set, mu, z, KN[m.c[0].k]);
    if (touches(m, z, mu))
      nontrivial(hashcase(m, z, mu));
    count(std::string("set.") + KN[m.c[0].k]);
    sample(cat("set=", m.name, " n=", n, " mu=", mu, " z=", str(z)));
    // changing mu afterwards: indicator sets keep their projection, the
    // penalty follows the new parameter
    double mu2 = pickmu(r);
    m.set->setProxParameter(mu2);
    check_projection(r, m, *m.set, mu2, z, KN[m.c[0].k]);
    // copies behave as the original and are independent of it
    PSet cp = m.set;
    double mu3 = pickmu(r);
    cp->setProxParameter(mu3);
    check_projection(r, m, *cp, mu3, z, std::string("copy-") + KN[m.c[0].k]);
    check_projection(r, m, *m.set, mu2, z,
                     std::string("orig-") + KN[m.c[0].k]);
    // infinite inputs: projections on the sets stay well defined
    if (m.c[0].k != L1K) {
      V zi = z;
      int j = r.in(0, n - 1);
      zi[j] = r.coin() ? INF : -INF;
      V p(n);
      m.set->projection(zi, p);
      double ref = m.c[j].prox(zi[j], mu2);
      VCHECK(p[j] == ref, "proj.infinite", zi[j], " -> ", p[j], " set ",
             m.name);
      count("infinite-inputs");
    }
  });
}
#endif

static void check_jacobian(Rng &r, const Model &m, const Set &set, double mu,
                           const V &z, const std::string &kn) {
  const int n = m.n();
  BoolVec big = BoolVec::Constant(n + 2, true), act(n);
  {
    Act a(n);
    a.setConstant(r.coin());
    set.computeActiveSet(z, a);
    act = a;
    // into a segment of a larger array
    Act b = Act::Constant(n + 2, true);
    set.computeActiveSet(z, b.segment(1, n));
    VCHECK(b[0] && b[n + 1], "active.oob." + kn, "");
    for (int i = 0; i < n; i++)
      VCHECK(b[1 + i] == act[i], "active.segment." + kn, i);
  }
  for (int i = 0; i < n; i++)
    VCHECK(act[i] == m.c[i].active(z[i], mu), "active.value." + kn, "z=", z[i],
           " active=", act[i], " mu=", mu, " lo=", m.c[i].lo,
           " hi=", m.c[i].hi, " in ", m.name);
  int nc = r.many(0, 6, 20);
  M J = r.mat(n, nc);
  M big1 = M::Constant(n + 4, nc + 2, 77.), big2 = big1;
  big1.block(2, 1, n, nc) = J;
  big2.block(2, 1, n, nc) = J;
  set.applyProjectionJacobian(z, big1.block(2, 1, n, nc));
  set.applyNormalConeProjectionJacobian(z, big2.block(2, 1, n, nc));
  M PJ = big1.block(2, 1, n, nc), NJ = big2.block(2, 1, n, nc);
  for (int i = 0; i < n + 4; i++)
    for (int j = 0; j < nc + 2; j++)
      if (i < 2 || i >= n + 2 || j < 1 || j >= nc + 1)
        VCHECK(big1(i, j) == 77. && big2(i, j) == 77., "jac.oob." + kn, "");
  VCHECK(maxdiff(PJ + NJ, J) == 0, "jac.sum." + kn, "P J + N J != J: z=", str(z));
  for (int i = 0; i < n; i++) {
    double d = m.c[i].dprox(z[i], mu);
    for (int j = 0; j < nc; j++)
      VCHECK(PJ(i, j) == (act[i] ? 0. : J(i, j)) &&
                 NJ(i, j) == (act[i] ? J(i, j) : 0.),
             "jac.active-consistency." + kn, "row ", i, " z=", z[i],
             " active=", act[i]);
    if (m.c[i].kink(z[i], mu) > 1e-9 * (1 + std::abs(z[i])))
      for (int j = 0; j < nc; j++)
        VCHECK(PJ(i, j) == d * J(i, j), "jac.derivative." + kn, "row ", i,
               " z=", z[i], " mu=", mu);
  }
  // black-box: derivative of the projection along each column of J
  double h = INF;
  double scz = 0;
  for (int i = 0; i < n; i++) {
    h = std::min(h, m.c[i].kink(z[i], mu));
    scz = std::max(scz, std::abs(z[i]));
  }
  if (h == INF)
    h = 1.;
  if (nc > 0 && n > 0 && h > 1e-5 * (1 + scz)) {
    double step = std::min(1., 0.25 * h / (1e-12 + maxabs(J)));
    V pp(n), pm(n);
    for (int j = 0; j < nc; j++) {
      set.projection(z + step * J.col(j), pp);
      set.projection(z - step * J.col(j), pm);
      V fd = (pp - pm) / (2 * step);
      VCHECK(maxdiff(fd, PJ.col(j)) <= 1e-9 + 1e-14 * (scz + mu) / step,
             "jac.finite-difference." + kn, "z=", str(z), " fd=", str(fd),
             " PJ=", str(PJ.col(j)));
    }
    count("fd-columns", nc);
  }
}

#if VF_PROP == 2
static void run() {
  Ctx &c = ctx();
  long N = c.thorough ? 200000 : 24000;
  run_cases("jacobian", N, [&](long, Rng &r) {
    int n = r.coin(0.05) ? r.in(20, 120) : r.in(1, 8);
    Model m = simple(r, n);
    double mu = pickmu(r);
    m.set->setProxParameter(mu);
    V z = point(r, m, mu, true);
    check_jacobian(r, m, *m.set, mu, z, KN[m.c[0].k]);
    z = point(r, m, mu, false);
    check_jacobian(r, m, *m.set, mu, z, KN[m.c[0].k]);
    nontrivial(hashcase(m, z, mu));
    count(std::string("set.") + KN[m.c[0].k]);
    sample(cat("set=", m.name, " n=", n, " mu=", mu, " z=", str(z)));
  });
}
#endif

static void check_envelope(Rng &r, const Model &m, const Set &set, double mu,
                           const V &z, const std::string &kn) {
  const int n = m.n();
  double ref = 0, sc = 1e-300;
  V p(n), q(n);
  double gp = 0;
  for (int i = 0; i < n; i++) {
    p[i] = m.c[i].prox(z[i], mu);
    q[i] = z[i] - p[i];
    gp += m.c[i].g(p[i]);
    ref += m.c[i].g(p[i]) + 0.5 / mu * q[i] * q[i];
    sc += std::abs(z[i]) + 0.5 / mu * (q[i] * q[i] + EPS * z[i] * z[i]) ;
  }
  V zout(n);
  double e1 = set.computeMoreauEnvelope(z, zout);
  V q2(n), z0 = z;
  set.normalConeProjection(z, q2);
  VCHECK(bitEq(zout, q2), "envelope.output." + kn, str(zout), " vs ", str(q2));
  VCHECK(bitEq(z0, z), "envelope.modifies-input." + kn, "");
  double e2 = set.evaluateMoreauEnvelope(z, q2);
  VCHECK(close(e1, e2, 1e-12, sc), "envelope.variants." + kn, e1, " ", e2);
  VCHECK(close(e1, ref, 1e-10, sc), "envelope.value." + kn, "got ", e1,
         " expected ", ref, " z=", str(z), " mu=", mu, " ", m.name);
  V pz(n);
  set.projection(z, pz);
  double gv = set.evaluate(pz);
  VCHECK(close(gv, gp, 1e-10, sc), "evaluate." + kn, "g(prox z)=", gv,
         " expected ", gp);
  // lower bound against candidates y: env(z) <= g(y) + |z-y|^2/(2 mu)
  for (int t = 0; t < 3; t++) {
    double val = 0;
    for (int i = 0; i < n; i++) {
      double y = r.coin() ? m.c[i].feasible_sample(r)
                          : m.c[i].prox(z[i] + mu * r.gauss(), mu);
      double dz = z[i] - y;
      val += m.c[i].g(y) + 0.5 / mu * dz * dz;
    }
    VCHECK(e1 <= val + 1e-9 * (sc + std::abs(val)), "envelope.minimal." + kn,
           "env ", e1, " > ", val);
  }
  // gradient of the envelope is (z - prox z)/mu (black box, long steps)
  V d = r.vec(n), tmp(n);
  double zs = maxabs(z) + mu;
  double h = 1e-4 * zs;
  if (n > 0 && zs < 1e4 && zs > 1e-4 && mu > 1e-6) {
    // convexity sandwich: env(z+hd) >= env(z) + h <grad, d>, and the gap is at
    // most h^2 |d|^2 / (2 mu)
    double ep = set.computeMoreauEnvelope(z + h * d, tmp);
    double lin = e1 + h * q2.dot(d) / mu;
    double gap = h * h * d.squaredNorm() / (2 * mu);
    double tol = 1e-11 * (sc + std::abs(ep) + std::abs(lin)) + 1e-10 * gap;
    VCHECK(ep >= lin - tol && ep <= lin + gap + tol, "envelope.gradient." + kn,
           "env(z+hd)=", ep, " lin=", lin, " gap=", gap, " mu=", mu);
    count("gradient-sandwich");
  }
}

#if VF_PROP == 3
static void run() {
  Ctx &c = ctx();
  long N = c.thorough ? 200000 : 24000;
  run_cases("envelope", N, [&](long, Rng &r) {
    Model m;
    std::string kn;
    if (r.coin(0.7)) {
      m = simple(r, r.many(1, 8, 40));
      kn = KN[m.c[0].k];
    } else {
      m = product(r, 1);
      kn = "product";
    }
    double mu = pickmu(r);
    m.set->setProxParameter(mu);
    V z = point(r, m, mu, true);
    check_envelope(r, m, *m.set, mu, z, kn);
    double mu2 = pickmu(r);
    m.set->setProxParameter(mu2);
    z = point(r, m, mu2, true);
    check_envelope(r, m, *m.set, mu2, z, kn);
    nontrivial(hashcase(m, z, mu2));
    count("set." + kn);
    sample(cat("set=", m.name, " mu=", mu2, " z=", str(z)));
  });
}
#endif

#if VF_PROP == 4
static void run() {
  Ctx &c = ctx();
  long N = c.thorough ? 100000 : 12000;
  run_cases("product", N, [&](long, Rng &r) {
    std::vector<Model> subs;
    Model m = product(r, 2, nullptr, &subs);
    double mu = pickmu(r);
    m.set->setProxParameter(mu);
    V z = point(r, m, mu, true);
    check_projection(r, m, *m.set, mu, z, "product");
    check_jacobian(r, m, *m.set, mu, z, "product");
    check_envelope(r, m, *m.set, mu, z, "product");
    // blockwise agreement with the very components (black box)
    const Prod *pp = dynamic_cast<const Prod *>(&*m.set);
    if (!pp) {
      violation("product.type", "polymorphic lost the dynamic type");
      return;
    }
    VCHECK(pp->components().size() == subs.size() &&
               pp->blockSizes().size() == subs.size(),
           "product.accessors", pp->components().size());
    V P(m.n()), Q(m.n());
    m.set->projection(z, P);
    m.set->normalConeProjection(z, Q);
    Act A(m.n());
    m.set->computeActiveSet(z, A);
    int nc = r.many(1, 4, 12);
    M J = r.mat(m.n(), nc), PJ = J, NJ = J;
    m.set->applyProjectionJacobian(z, PJ);
    m.set->applyNormalConeProjectionJacobian(z, NJ);
    double ev = m.set->evaluate(P), sev = 0, env = 0;
    V tmp(m.n());
    double menv = m.set->computeMoreauEnvelope(z, tmp);
    int off = 0;
    for (std::size_t b = 0; b < subs.size(); b++) {
      Model &s = subs[b];
      int n = s.n();
      s.set->setProxParameter(mu);
      VCHECK(pp->blockSizes()[b] == n, "product.block-size", b);
      VCHECK(pp->components()[b]->mu() == mu, "product.mu-propagation",
             "component ", b, " of ", m.name, " has mu ",
             pp->components()[b]->mu(), " expected ", mu);
      V zb = z.segment(off, n), pb(n), qb(n), tb(n);
      s.set->projection(zb, pb);
      s.set->normalConeProjection(zb, qb);
      Act ab(n);
      s.set->computeActiveSet(zb, ab);
      M pj = J.middleRows(off, n), nj = pj;
      s.set->applyProjectionJacobian(zb, pj);
      s.set->applyNormalConeProjectionJacobian(zb, nj);
      sev += s.set->evaluate(pb);
      env += s.set->computeMoreauEnvelope(zb, tb);
      VCHECK(bitEq(P.segment(off, n), pb), "product.blockwise.projection", b, m.name);
      VCHECK(bitEq(Q.segment(off, n), qb), "product.blockwise.normalcone", b, m.name);
      VCHECK(bitEq(PJ.middleRows(off, n), pj), "product.blockwise.projjac", b, m.name);
      VCHECK(bitEq(NJ.middleRows(off, n), nj), "product.blockwise.ncjac", b, m.name);
      for (int i = 0; i < n; i++)
        VCHECK(A[off + i] == ab[i], "product.blockwise.active", b, m.name);
      off += n;
    }
    VCHECK(close(ev, sev, 1e-12, std::abs(sev)), "product.sum.evaluate", ev, " ", sev);
    VCHECK(close(menv, env, 1e-11, std::abs(env)), "product.sum.envelope", menv, " ", env);
    // value semantics: a copy's parameter is its own
    PSet cp = m.set;
    double mu2 = pickmu(r);
    cp->setProxParameter(mu2);
    check_projection(r, m, *cp, mu2, z, "product-copy");
    check_projection(r, m, *m.set, mu, z, "product-orig");
    // size mismatch is rejected
    if (r.coin(0.1)) {
      std::vector<PSet> s{PSet(Eq()), PSet(Neg())};
      std::vector<Eigen::Index> sz(std::size_t(r.coin() ? 1 : 3), 2);
      bool thrown = false;
      try {
        Prod bad(s, sz);
      } catch (const std::runtime_error &) {
        thrown = true;
      }
      VCHECK(thrown, "product.mismatch-accepted", sz.size());
      count("mismatch-rejected");
    }
    // setting the parameter reaches every component, whatever they held
    if (subs.size() > 0 && r.coin(0.3)) {
      std::size_t b = std::size_t(r.in(0, int(subs.size()) - 1));
      pp->components()[b]->setProxParameter(mu2);
      m.set->setProxParameter(mu);
      for (std::size_t i = 0; i < subs.size(); i++)
        VCHECK(pp->components()[i]->mu() == mu, "product.mu-restored",
               "component ", i, " of ", m.name, " has mu ",
               pp->components()[i]->mu(), " expected ", mu);
      check_projection(r, m, *m.set, mu, z, "product-restored");
      count("mu-restored");
    }
    if (subs.size() > 1)
      nontrivial(hashcase(m, z, mu));
    count("blocks", subs.size());
    sample(cat("set=", m.name, " mu=", mu, " z=", str(z)));
  });
}
#endif

int main(int argc, char **argv) {
  parse_args(argc, argv);
  run();
  return finish();
}

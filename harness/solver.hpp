// Problem generator, configuration generator, trace recorder and an
// independent model of one solver run (used by C01-C06, C24, C27, C29).
#pragma once
#include "funcs.hpp"
#include "proxsuite-nlp/modelling/constraints.hpp"
#include "proxsuite-nlp/modelling/costs/squared-distance.hpp"
#include "proxsuite-nlp/modelling/costs/quadratic-residual.hpp"
#include "proxsuite-nlp/modelling/residuals/linear.hpp"
#include "proxsuite-nlp/modelling/residuals/state-residual.hpp"
#include "proxsuite-nlp/modelling/constraints/constraint-set-product.hpp"
#include "proxsuite-nlp/cost-sum.hpp"
#include "proxsuite-nlp/prox-solver.hpp"
namespace vf {
using Prob = ProblemTpl<double>;
using Solver = ProxNLPSolverTpl<double>;
using WS = WorkspaceTpl<double>;
using RS = ResultsTpl<double>;
using Set = ConstraintSetTpl<double>;
using PSet = xyz::polymorphic<Set>;
using BVec = Eigen::Matrix<bool, -1, 1>;
static const double INF = std::numeric_limits<double>::infinity();
static const double EPS = std::numeric_limits<double>::epsilon();

struct SetModel { // independent description of a constraint set
  enum Kind { EQ, NEG, BOX, L1 };
  struct C {
    Kind k;
    double lo, hi;
  };
  std::vector<C> c;
  bool all_eq = true, has_l1 = false;
  void add(Kind k, double lo = 0, double hi = 0) {
    c.push_back({k, lo, hi});
    if (k != EQ)
      all_eq = false;
    if (k == L1)
      has_l1 = true;
  }
  int n() const { return int(c.size()); }
  static double prox1(const C &c, double z, double mu) {
    switch (c.k) {
    case EQ:
      return 0;
    case NEG:
      return std::min(z, 0.);
    case BOX:
      return std::max(c.lo, std::min(z, c.hi));
    default:
      return z > mu ? z - mu : z < -mu ? z + mu : 0;
    }
  }
  static bool act1(const C &c, double z, double mu) {
    switch (c.k) {
    case EQ:
      return true;
    case NEG:
      return z > 0;
    case BOX:
      return z > c.hi || z < c.lo;
    default:
      return std::abs(z) <= mu;
    }
  }
  static double kink1(const C &c, double z, double mu) {
    switch (c.k) {
    case EQ:
      return INF;
    case NEG:
      return std::abs(z);
    case BOX:
      return std::min(std::abs(z - c.hi), std::abs(z - c.lo));
    default:
      return std::abs(std::abs(z) - mu);
    }
  }
};
/// one block
struct Block {
  std::shared_ptr<F2> f;
  SetModel m;
  PSet set{EqualityConstraintTpl<double>()};
  bool curved = false; // the set asks for second derivatives in any case
};
struct Nlp {
  PMan space{VecSpace(1)};
  CostPtr cost;
  std::vector<Block> blocks;
  std::shared_ptr<Prob> prob;
  std::string desc;
  V x0;
  bool vec = true;     // flat space
  bool convex = false; // with known solution
  bool linear = false; // affine constraints, quadratic cost
  bool has_l1 = false;
  V xopt, lopt;
  int nc() const {
    int r = 0;
    for (auto &b : blocks)
      r += b.m.n();
    return r;
  }
  SetModel::C comp(int i) const {
    for (auto &b : blocks) {
      if (i < b.m.n())
        return b.m.c[i];
      i -= b.m.n();
    }
    std::abort();
  }
  void build() {
    std::vector<ConstraintObjectTpl<double>> cs;
    has_l1 = false;
    for (auto &b : blocks) {
      cs.emplace_back(b.f, b.set);
      has_l1 = has_l1 || b.m.has_l1;
    }
    prob = std::make_shared<Prob>(space, cost, cs);
  }
  V c(const V &x) const {
    V o(nc());
    int k = 0;
    for (auto &b : blocks) {
      o.segment(k, b.m.n()) = (*b.f)(x);
      k += b.m.n();
    }
    return o;
  }
  M J(const V &x) const {
    M o(nc(), space->ndx());
    int k = 0;
    for (auto &b : blocks) {
      M j(b.m.n(), space->ndx());
      b.f->computeJacobian(x, j);
      o.middleRows(k, b.m.n()) = j;
      k += b.m.n();
    }
    return o;
  }
  V prox(const V &z, double mu) const {
    V o(z.size());
    for (int i = 0; i < z.size(); i++)
      o[i] = SetModel::prox1(comp(i), z[i], mu);
    return o;
  }
};

inline PSet make_set(const SetModel &m, bool allow_product = true) {
  // uniform kinds become the plain sets
  auto k = m.c.empty() ? SetModel::EQ : m.c[0].k;
  bool uni = true;
  for (auto &c : m.c)
    uni = uni && c.k == k;
  if (uni) {
    switch (k) {
    case SetModel::EQ:
      return PSet(EqualityConstraintTpl<double>());
    case SetModel::NEG:
      return PSet(NegativeOrthantTpl<double>());
    case SetModel::L1:
      return PSet(NonsmoothPenaltyL1Tpl<double>());
    default: {
      V lo(m.n()), hi(m.n());
      for (int i = 0; i < m.n(); i++)
        lo[i] = m.c[i].lo, hi[i] = m.c[i].hi;
      return PSet(BoxConstraintTpl<double>(lo, hi));
    }
    }
  }
  (void)allow_product;
  std::vector<PSet> sets;
  std::vector<Index> sizes;
  for (int i = 0; i < m.n();) {
    SetModel s;
    int j = i;
    while (j < m.n() && m.c[j].k == m.c[i].k)
      s.add(m.c[j].k, m.c[j].lo, m.c[j].hi), j++;
    sets.push_back(make_set(s));
    sizes.push_back(j - i);
    i = j;
  }
  return PSet(ConstraintSetProductTpl<double>(sets, sizes));
}

/// a user's own set, which keeps the curvature of its rows under Gauss-Newton
template <class S> struct Curved : S {
  Curved(const S &s) : S(s) {}
  bool disableGaussNewton() const override { return false; }
};
template <class S> bool curve(Block &b) {
  auto *s = dynamic_cast<const S *>(&*b.set);
  if (!s)
    return false;
  b.set = PSet(Curved<S>(*s));
  return b.curved = true;
}
inline bool curve_set(Block &b) {
  return curve<EqualityConstraintTpl<double>>(b) || curve<NegativeOrthantTpl<double>>(b) || curve<BoxConstraintTpl<double>>(b) || curve<NonsmoothPenaltyL1Tpl<double>>(b) || curve<ConstraintSetProductTpl<double>>(b);
}

/// strongly convex smooth cost 0.5 (x-a)'H(x-a) + g'x + k sum log cosh(w_i.x)
struct ConvexCost : Cost {
  M H, W;
  V a, g;
  double k;
  ConvexCost(int n, Rng &r, double lo, double hi, double k_) : Cost(n, n), k(k_) {
    H = r.spd(n, lo, hi);
    W = r.mat(n, n, 0.7);
    a = r.vec(n);
    g = V::Zero(n);
  }
  using Cost::computeGradient;
  using Cost::computeHessian;
  double call(const CVR &x) const override {
    V d = x - a, t = W * x;
    double v = 0.5 * d.dot(H * d) + g.dot(x);
    for (int i = 0; i < t.size(); i++)
      v += k * (std::abs(t[i]) + std::log1p(std::exp(-2 * std::abs(t[i]))) - std::log(2.));
    return v;
  }
  void computeGradient(const CVR &x, VR o) const override {
    V t = (W * x).array().tanh();
    o = H * (x - a) + g + k * W.transpose() * t;
  }
  void computeHessian(const CVR &x, MR o) const override {
    V t = (W * x).array().tanh();
    V d = 1 - t.array().square();
    o = H + k * W.transpose() * d.asDiagonal() * W;
  }
};
/// convex quadratic rows: 0.5 x'Q_i x + a_i.x + b_i, Q_i psd
struct ConvexRows : F2 {
  std::vector<M> Q;
  M A;
  V b;
  ConvexRows(int n, int m, Rng &r) : F2(n, n, m) {
    for (int i = 0; i < m; i++) {
      M w = r.mat(n, n, 0.5);
      Q.push_back(w * w.transpose());
    }
    A = r.mat(m, n);
    b = V::Zero(m);
  }
  V operator()(const CVR &x) const override {
    V o = A * x + b;
    for (int i = 0; i < nr(); i++)
      o[i] += 0.5 * x.dot(Q[i] * x);
    return o;
  }
  using F2::computeJacobian;
  void computeJacobian(const CVR &x, MR J) const override {
    for (int i = 0; i < nr(); i++)
      J.row(i) = A.row(i) + (Q[i] * x).transpose();
  }
  void vectorHessianProduct(const CVR &, const CVR &v, MR H) const override {
    H.setZero();
    for (int i = 0; i < nr(); i++)
      H += v[i] * Q[i];
  }
};

/// convex problem built around a chosen primal-dual solution
inline Nlp gen_convex(Rng &r, bool nonlinear, bool l1) {
  Nlp p;
  int n = r.many(1, 8, 30);
  p.space = PMan(VecSpace(n));
  p.convex = true;
  p.linear = !nonlinear;
  V xs = r.vec(n);
  auto cost = std::make_shared<ConvexCost>(n, r, 0.5, 5., nonlinear ? 0.5 : 0.);
  // rows, linearly independent where they can be active
  int room = n; // number of rows that may be active at the solution
  int nb = r.many(0, 3, 10);
  V gl = V::Zero(n); // J' lambda at the solution
  std::vector<double> lam;
  for (int b = 0; b < nb; b++) {
    int m = r.many(1, 3, 12, 0.03);
    bool convexrows = nonlinear && r.coin(0.4);
    Block bl;
    M A;
    V c0; // value at xs before shift
    std::shared_ptr<ConvexRows> cr;
    if (convexrows) {
      cr = std::make_shared<ConvexRows>(n, m, r);
      A = cr->computeJacobian(xs);
      c0 = (*cr)(xs);
    } else {
      A = r.mat(m, n);
      c0 = A * xs;
    }
    V want(m); // value at the solution
    int kind = convexrows ? 1 : r.in(0, l1 ? 4 : 3);
    for (int i = 0; i < m; i++) {
      double l = 0, w = 0;
      int k = kind == 3 ? r.in(0, 2) : kind == 4 ? 3 : kind;
      bool act = room > 0 && r.coin(0.5);
      switch (k) {
      case 0:
        if (room <= 0) { // would be over-determined: use an inequality
          k = 1;
          act = false;
          w = -r.uni(0.3, 2);
          bl.m.add(SetModel::NEG);
        } else {
          room--;
          l = r.gauss();
          w = 0;
          bl.m.add(SetModel::EQ);
        }
        break;
      case 1:
        if (act) {
          room--;
          l = r.uni(0.2, 2);
        } else
          w = -r.uni(0.3, 2);
        bl.m.add(SetModel::NEG);
        break;
      case 2: {
        double lo = r.gauss(), hi = lo + r.uni(0.5, 3);
        int side = r.in(0, 2);
        if (r.coin(0.2))
          hi = INF, side = 0;
        else if (r.coin(0.2))
          lo = -INF, side = 1;
        if (act) {
          room--;
          if (side == 0)
            l = -r.uni(0.2, 2), w = lo;
          else {
            if (!std::isfinite(hi))
              hi = lo + 1;
            l = r.uni(0.2, 2), w = hi;
          }
        } else
          w = !std::isfinite(lo) ? hi - 0.5 : !std::isfinite(hi) ? lo + 0.5 : 0.5 * (lo + hi);
        bl.m.add(SetModel::BOX, lo, hi);
        break;
      }
      default:
        if (act) {
          room--;
          w = 0, l = r.uni(-0.8, 0.8);
        } else {
          w = (r.coin() ? 1 : -1) * r.uni(0.3, 2);
          l = w > 0 ? 1 : -1;
        }
        bl.m.add(SetModel::L1);
      }
      want[i] = w;
      lam.push_back(l);
      gl += l * A.row(i).transpose();
    }
    if (cr) {
      cr->b = want - c0;
      bl.f = cr;
    } else if (r.coin(0.3)) {
      bl.f = std::make_shared<LinearFunctionDifferenceToPoint<double>>(p.space, V(V::Zero(n)), A, V(want - c0));
    } else
      bl.f = std::make_shared<LinearFunctionTpl<double>>(A, V(want - c0));
    bl.set = make_set(bl.m);
    p.blocks.push_back(bl);
    p.desc += cat(convexrows ? "Q" : "A", m, "k", kind, " ");
  }
  // stationarity: grad f(xs) + J' lambda = 0
  V g(n);
  cost->computeGradient(xs, g);
  cost->g = -(g + gl);
  p.xopt = xs;
  p.lopt = Eigen::Map<V>(lam.data(), Index(lam.size()));
  p.cost = cost;
  p.x0 = r.coin(0.15) ? xs : V(r.vec(n, r.coin(0.3) ? 5. : 1.));
  p.desc = cat("convex n=", n, nonlinear ? " nl " : " qp ", p.desc);
  p.build();
  return p;
}

/// point well away from the cut locus of the neutral one
inline V npoint(const Man &m, Rng &r, double sc = 0.5) { return m.integrate(m.neutral(), rtangent(m, r, sc)); }

inline SetModel random_set(Rng &r, int m, bool l1) {
  SetModel s;
  int k = r.in(0, l1 ? 4 : 3);
  for (int i = 0; i < m; i++) {
    int kk = k == 3 ? r.in(0, 2) : k == 4 ? 3 : k;
    if (kk == 2) {
      double lo = -r.uni(0, 1.5), hi = r.uni(0, 1.5);
      if (r.coin(0.15))
        lo = -INF;
      else if (r.coin(0.15))
        hi = INF;
      s.add(SetModel::BOX, lo, hi);
    } else
      s.add(kk == 0 ? SetModel::EQ : kk == 1 ? SetModel::NEG : SetModel::L1);
  }
  return s;
}

/// nonconvex, infeasible, degenerate or manifold problems
inline Nlp gen_general(Rng &r, bool l1 = true) {
  Nlp p;
  int fam = r.in(0, 5);
  if (fam <= 2) { // flat, smooth nonconvex
    int n = r.many(1, 6, 24);
    p.space = PMan(VecSpace(n));
    if (r.coin(0.5)) {
      auto f = std::make_shared<Smooth>(n, 1, r, 0.4, 0.6);
      p.cost = std::make_shared<func_to_cost<double>>(std::static_pointer_cast<F2>(f));
      if (r.coin(0.7)) { // bounded below
        auto s = std::make_shared<CostSumTpl<double>>(n, n);
        s->addComponent(p.cost, r.uni(0.2, 1));
        s->addComponent(std::make_shared<QuadraticDistanceCostTpl<double>>(p.space, V(r.vec(n)), M(2. * M::Identity(n, n))));
        p.cost = s;
      }
    } else {
      auto f = std::make_shared<Smooth>(n, r.in(1, 4), r, 0.3, 0.5);
      M w = r.spd(f->nr(), 0.2, 3);
      auto q = std::make_shared<QuadraticResidualCostTpl<double>>(std::static_pointer_cast<F2>(f), w, V(r.vec(f->nr(), 0.3)));
      q->gauss_newton_ = r.coin();
      auto s = std::make_shared<CostSumTpl<double>>(n, n);
      s->addComponent(q);
      s->addComponent(std::make_shared<QuadraticDistanceCostTpl<double>>(p.space, V(r.vec(n)), M(0.5 * M::Identity(n, n))), 1.);
      p.cost = s;
    }
    int nb = r.many(0, 3, 10);
    for (int b = 0; b < nb; b++) {
      Block bl;
      int m = r.many(1, 3, 12, 0.03);
      int how = r.in(0, 3);
      if (how == 3 && b > 0) // duplicate an earlier function: degenerate
        bl.f = p.blocks[0].f, m = bl.f->nr();
      else if (how == 2)
        bl.f = std::make_shared<LinearFunctionTpl<double>>(r.coin(0.15) ? M(M::Zero(m, n)) : r.mat(m, n), V(r.vec(m)));
      else
        bl.f = std::make_shared<Smooth>(n, m, r, 0.3, 0.4);
      bl.m = random_set(r, m, l1);
      bl.set = make_set(bl.m);
      p.blocks.push_back(bl);
    }
    p.x0 = r.vec(n);
    p.desc = cat("flat n=", n, " nb=", nb);
  } else { // manifold
    SpaceGen g(r);
    p.space = g.make(1);
    p.vec = p.space->nx() == p.space->ndx();
    int nv = p.space->ndx();
    V t = npoint(*p.space, r);
    p.cost = std::make_shared<QuadraticDistanceCostTpl<double>>(p.space, t, r.spd(nv, 0.3, 3));
    if (r.coin(0.4)) {
      auto s = std::make_shared<CostSumTpl<double>>(p.space->nx(), nv);
      s->addComponent(p.cost, 0.7);
      s->addComponent(std::make_shared<QuadraticDistanceCostTpl<double>>(p.space, npoint(*p.space, r), r.spd(nv, 0.3, 3)));
      p.cost = s;
    }
    int nb = r.many(0, 2, 8);
    for (int b = 0; b < nb; b++) {
      Block bl;
      int m = r.in(1, std::min(nv, r.many(3, 3, 10)));
      if (r.coin(0.25)) {
        m = nv;
        bl.f = std::make_shared<ManifoldDifferenceToPoint<double>>(p.space, npoint(*p.space, r));
      } else
        bl.f = std::make_shared<LinearFunctionDifferenceToPoint<double>>(p.space, npoint(*p.space, r), r.mat(m, nv), V(r.vec(m, 0.3)));
      bl.m = random_set(r, m, l1);
      bl.set = make_set(bl.m);
      p.blocks.push_back(bl);
    }
    p.x0 = npoint(*p.space, r);
    p.desc = cat(g.desc, " nb=", nb);
  }
  for (auto &b : p.blocks)
    p.desc += cat(" ", b.m.n());
  p.build();
  return p;
}

/// forwards to a cost and counts the evaluations
struct CountingCost : Cost {
  CostPtr c;
  mutable long nval = 0, ngrad = 0, nhess = 0;
  CountingCost(CostPtr c_) : Cost(c_->nx(), c_->ndx()), c(c_) {}
  using Cost::computeGradient;
  using Cost::computeHessian;
  double call(const CVR &x) const override {
    nval++;
    return c->call(x);
  }
  void computeGradient(const CVR &x, VR o) const override {
    ngrad++;
    c->computeGradient(x, o);
  }
  void computeHessian(const CVR &x, MR o) const override {
    nhess++;
    c->computeHessian(x, o);
  }
};

/// forwards to a function and counts its second derivatives
struct CountingF2 : F2 {
  std::shared_ptr<F2> f;
  mutable long nvhp = 0;
  CountingF2(std::shared_ptr<F2> f_) : F2(f_->nx(), f_->ndx(), f_->nr()), f(f_) {}
  using F2::computeJacobian;
  V operator()(const CVR &x) const override { return (*f)(x); }
  void computeJacobian(const CVR &x, MR J) const override { f->computeJacobian(x, J); }
  void vectorHessianProduct(const CVR &x, const CVR &v, MR H) const override {
    nvhp++;
    f->vectorHessianProduct(x, v, H);
  }
};

struct Config {
  double tol = 1e-6, mu0 = 1e-2, rho0 = 0, mu_lower = 1e-9;
  double pa = 0.1, pb = 0.9, da = 1., db = 1.;
  double mu_factor = 0.01, rho_factor = 1., inner_tol_min = 1e-9, inner_tol0 = 1, prim_tol0 = 1, mu_upper = 1;
  LDLTChoice ldlt = LDLTChoice::BUNCHKAUFMAN;
  HessianApprox hess = HessianApprox::EXACT;
  KktSystem kkt = KKT_CLASSIC;
  MultiplierUpdateMode mul = MultiplierUpdateMode::NEWTON;
  size_t max_iters = 200, max_al = 1000, refine = 5;
  Linesearch<double>::Options ls;
  std::string desc() const {
    return cat("tol=", tol, " mu0=", mu0, " rho0=", rho0, " mul=", int(mul), " kkt=", int(kkt), " hess=", int(hess), " ldlt=", int(ldlt),
               " ls=", int(ls.interp_type), " mul_lower=", mu_lower, " mf=", mu_factor, " rf=", rho_factor, " maxit=", max_iters, "/", max_al);
  }
  uint64_t hash() const { return hcomb(hcomb(int(mul), int(kkt)), hcomb(int(hess) * 8 + int(ldlt), int(ls.interp_type) * 2 + (rho0 > 0))); }
};
inline Config gen_config(Rng &r, bool flat) {
  Config c;
  c.tol = r.pick(std::vector<double>{1e-4, 1e-6, 1e-6, 1e-8});
  c.mu0 = r.pick(std::vector<double>{1e-1, 1e-2, 1e-2, 1e-3});
  c.rho0 = r.coin(0.6) ? 0. : r.pick(std::vector<double>{1e-6, 1e-3, 1e-1});
  c.mu_lower = r.pick(std::vector<double>{1e-9, 1e-9, 1e-6, 1e-5});
  if (r.coin(0.3))
    c.mu_factor = r.pick(std::vector<double>{0.1, 0.2, 0.5});
  if (r.coin(0.3))
    c.rho_factor = r.pick(std::vector<double>{0.1, 0.5, 1.});
  c.ldlt = LDLTChoice(r.in(0, 3));
  c.hess = HessianApprox(r.pick(std::vector<int>{0, 0, 1, 1, 1, 3}));
  if (flat && r.coin(0.15))
    c.hess = HessianApprox::BFGS;
  c.kkt = r.coin(0.7) ? KKT_CLASSIC : KKT_PRIMAL_DUAL;
  c.mul = MultiplierUpdateMode(r.pick(std::vector<int>{0, 0, 1, 2}));
  c.ls.interp_type = LSInterpolation(r.in(0, 2));
  if (r.coin(0.2))
    c.refine = r.in(0, 3);
  return c;
}
inline std::unique_ptr<Solver> make_solver(Prob &p, const Config &c) {
  // the block-sparse backend looks for its ordering by brute force over the blocks
  LDLTChoice choice = c.ldlt == LDLTChoice::BLOCKSPARSE && p.getNumConstraints() > 6 ? LDLTChoice::EIGEN : c.ldlt;
  auto s = std::make_unique<Solver>(p, c.tol, c.mu0, c.rho0, QUIET, c.mu_lower, c.pa, c.pb, c.da, c.db, choice, c.ls);
  s->hess_approx = c.hess;
  s->kkt_system_ = c.kkt;
  s->mul_update_mode = c.mul;
  s->bcl_params.mu_update_factor = c.mu_factor;
  s->bcl_params.rho_update_factor = c.rho_factor;
  s->max_iters = c.max_iters;
  s->max_al_iters = c.max_al;
  s->inner_tol_min = c.inner_tol_min;
  s->inner_tol0 = c.inner_tol0;
  s->prim_tol0 = c.prim_tol0;
  s->mu_upper_ = c.mu_upper;
  s->max_refinement_steps_ = c.refine;
  return s;
}

// ---- trace ----------------------------------------------------------------
struct Rec {
  V x, lam, prev_lam, prev_x, pd, rhs;
  M K;
  Eigen::VectorXi sig;
  double alpha, merit, value, prim, dual, mu, rho, dmerit;
  V viol;
  long nval = 0;
  size_t it, al;
  int conv;
  std::vector<BVec> active;
};
struct Recorder : helpers::base_callback<double> {
  std::vector<Rec> t;
  bool mats = true;
  const CountingCost *cc = nullptr;
  std::function<void(const WS &, const RS &)> extra;
  void call(const WS &w, const RS &s) override {
    Rec q;
    q.x = s.x_opt;
    q.lam = s.data_lams_opt;
    q.prev_lam = w.data_lams_prev;
    q.prev_x = w.x_prev;
    q.pd = w.pd_step;
    if (mats) {
      q.rhs = w.kkt_rhs;
      q.K = w.kkt_matrix;
    }
    q.sig = w.signature;
    q.alpha = w.alpha_opt;
    q.merit = s.merit;
    q.value = s.value;
    q.prim = s.prim_infeas;
    q.dual = s.dual_infeas;
    q.viol = s.constraint_violations;
    q.mu = s.mu;
    q.rho = s.rho;
    q.dmerit = w.dmerit_dir;
    q.it = s.num_iters;
    q.al = s.al_iters;
    q.conv = s.converged;
    q.active = s.active_set;
    if (cc)
      q.nval = cc->nval;
    t.push_back(q);
    if (extra)
      extra(w, s);
  }
};
/// quantities of the method at a primal-dual point, from the definitions
struct Point {
  V x, lam, c, g, z, zpd, lplus, lpdal;
  M J;
  double f, mu, rho;
  V target, lprev;
  double mag; // magnitude of the intermediate quantities, for rounding bounds
  Point(const Nlp &p, const V &x_, const V &lam_, const V &lprev_, double mu_, double rho_, const V &target_)
      : x(x_), lam(lam_), mu(mu_), rho(rho_), target(target_), lprev(lprev_) {
    c = p.c(x);
    J = p.J(x);
    g = V(p.space->ndx());
    p.cost->computeGradient(x, g);
    f = p.cost->call(x);
    z = c + mu * lprev;
    zpd = z - 0.5 * mu * lam;
    lplus = (z - p.prox(z, mu)) / mu;
    lpdal = (zpd - p.prox(zpd, 0.5 * mu)) / (0.5 * mu);
    mag = 1 + maxabs(c) + mu * (maxabs(lprev) + maxabs(lam));
  }
  double merit(const Nlp &p) const {
    V pr = p.prox(zpd, 0.5 * mu);
    double v = f + 0.25 * mu * lam.squaredNorm() + (zpd - pr).squaredNorm() / mu;
    for (int i = 0; i < pr.size(); i++)
      if (p.comp(i).k == SetModel::L1)
        v += std::abs(pr[i]);
    if (rho > 0)
      v += 0.5 * rho * p.space->difference(target, x).squaredNorm();
    return v;
  }
  double merit_scale() const { return 1 + std::abs(f) + mu * lam.squaredNorm() + zpd.squaredNorm() / mu; }
  V proxgrad(const Nlp &p) const {
    if (!(rho > 0))
      return V::Zero(g.size());
    M D(g.size(), g.size());
    p.space->Jdifference(target, x, D, 1);
    return rho * D.transpose() * p.space->difference(target, x);
  }
  V meritgrad(const Nlp &p) const {
    V o(g.size() + lam.size());
    o.head(g.size()) = g + J.transpose() * lpdal + proxgrad(p);
    o.tail(lam.size()) = 0.5 * mu * (lam - lpdal);
    return o;
  }
  /// distance of the shifted values to the nearest kink of a projection
  double kink(const Nlp &p) const {
    double k = INF;
    for (int i = 0; i < z.size(); i++) {
      k = std::min(k, SetModel::kink1(p.comp(i), z[i], mu));
      k = std::min(k, SetModel::kink1(p.comp(i), zpd[i], 0.5 * mu));
    }
    return k;
  }
  V primres(const Nlp &p) const {
    V y = c + mu * lam;
    return c - p.prox(y, mu);
  }
};
} // namespace vf

// C16 function/cost derivatives, C17 cost algebra, C18 finite differences.
#include "funcs.hpp"
#include "proxsuite-nlp/modelling/residuals/linear.hpp"
#include "proxsuite-nlp/modelling/residuals/state-residual.hpp"
#include "proxsuite-nlp/function-ops.hpp"
#include "proxsuite-nlp/modelling/costs/squared-distance.hpp"
#include "proxsuite-nlp/cost-sum.hpp"
#include "proxsuite-nlp/modelling/autodiff/finite-difference.hpp"
using namespace vf;
static const double NaN = std::numeric_limits<double>::quiet_NaN();
using QRC = QuadraticResidualCostTpl<double>;
using QDC = QuadraticDistanceCostTpl<double>;
using Sum = CostSumTpl<double>;

template <class F> static M guarded(int rows, int cols, const char *key, const std::string &d, F &&f) {
  // call f on a NaN-filled window of a larger matrix
  M big = M::Constant(rows + 4, cols + 3, 9.);
  big.block(2, 1, rows, cols).setConstant(NaN);
  f(MR(big.block(2, 1, rows, cols)));
  M out = big.block(2, 1, rows, cols);
  big.block(2, 1, rows, cols).setConstant(9.);
  VCHECK(bitEq(big, M::Constant(rows + 4, cols + 3, 9.)), cat("overrun.", key), d);
  return out;
}
static V guardedv(int n, const char *key, const std::string &d, const std::function<void(VR)> &f) {
  V big = V::Constant(n + 4, 9.);
  big.segment(2, n).setConstant(NaN);
  f(VR(big.segment(2, n)));
  V out = big.segment(2, n);
  big.segment(2, n).setConstant(9.);
  VCHECK(bitEq(big, V::Constant(n + 4, 9.)), cat("overrun.", key), d);
  return out;
}
static const Cost &as_cost(const std::shared_ptr<Sum> &s) { return *s; }
// close to the neutral point: pairs of such points are away from the cut locus
static V npoint(const Man &m, Rng &r) { return m.integrate(m.neutral(), rtangent(m, r, 0.6)); }
static M sym(Rng &r, int n, bool psd = false) {
  M a = r.mat(n, n);
  return psd ? M(a * a.transpose()) : M(0.5 * (a + a.transpose()));
}

#if VF_PROP == 16
struct Subject {
  std::string name;
  std::shared_ptr<F2> f;
  CostPtr cost; // if it is a cost
  PMan space{VecSpace(1)};
  std::function<V(const V &)> value;  // independent formula
  std::function<M(const V &)> hess;   // independent Hessian of the cost, or empty
  std::function<M(const V &, const V &)> vhp;
};
/// Jacobian of the value along the manifold by finite differences
static M fdjac(const Man &m, int nr, const V &x, const std::function<V(const V &)> &f) {
  return numjac(m.ndx(), nr, [&](const V &e) { return f(m.integrate(x, e)); });
}
static Subject make(Rng &r) {
  Subject s;
  int k = r.in(0, 11);
  int n = r.many(1, 6, 24), m = r.many(1, 5, 24);
  auto smooth = [&](int a, int b) { return std::make_shared<Smooth>(a, b, r, 0.5, 0.5); };
  s.space = PMan(VecSpace(n));
  switch (k) {
  case 0: {
    M A = r.mat(m, n);
    V b = r.vec(m);
    bool nob = r.coin(0.3);
    s.name = "linear";
    s.f = nob ? std::make_shared<LinearFunctionTpl<double>>(A) : std::make_shared<LinearFunctionTpl<double>>(A, b);
    if (nob)
      b.setZero();
    s.value = [=](const V &x) { return V(A * x + b); };
    s.vhp = [=](const V &, const V &) { return M(M::Zero(n, n)); };
    break;
  }
  case 1:
  case 2: {
    SpaceGen g(r);
    PMan sp = g.make(2);
    V t = npoint(*sp, r);
    s.space = sp;
    if (k == 1) {
      s.name = "state-residual";
      s.f = std::make_shared<ManifoldDifferenceToPoint<double>>(sp, t);
      s.value = [=](const V &x) { return sp->difference(t, x); };
    } else {
      s.name = "linear-difference";
      M A = r.mat(m, sp->ndx());
      V b = r.vec(m);
      s.f = std::make_shared<LinearFunctionDifferenceToPoint<double>>(sp, t, A, b);
      s.value = [=](const V &x) { return V(A * sp->difference(t, x) + b); };
    }
    break;
  }
  case 3: { // nested composition
    s.name = "compose";
    int p = r.in(1, 4), q = r.in(1, 4);
    std::shared_ptr<F2> a = smooth(p, m), b = smooth(q, p), c = smooth(n, q);
    s.f = r.coin() ? compose<double>(compose<double>(a, b), c) : compose<double>(a, compose<double>(b, c));
    s.value = [=](const V &x) { return (*a)((*b)((*c)(x))); };
    break;
  }
  case 4:
  case 5: { // quadratic of a nonlinear residual, full Hessian
    s.name = k == 4 ? "quadres-full" : "quadres-gn";
    std::shared_ptr<F2> res = smooth(n, m);
    M Q = sym(r, m);
    V b = r.vec(m);
    double c = r.gauss();
    bool nob = r.coin(0.3);
    auto q = nob ? std::make_shared<QRC>(res, Q, c) : std::make_shared<QRC>(res, Q, b, c);
    if (nob)
      b.setZero();
    q->gauss_newton_ = k == 5;
    s.cost = q;
    s.value = [=](const V &x) {
      V e = (*res)(x);
      return V(V::Constant(1, 0.5 * e.dot(Q * e) + b.dot(e) + c));
    };
    s.hess = [=](const V &x) {
      M J = res->computeJacobian(x), H = M::Zero(n, n);
      if (k == 4)
        res->vectorHessianProduct(x, Q * (*res)(x) + b, H);
      return M(H + J.transpose() * Q * J);
    };
    break;
  }
  case 6:
  case 7: {
    SpaceGen g(r);
    PMan sp = g.make(2);
    V t = npoint(*sp, r);
    int nv = sp->ndx();
    M W = sym(r, nv, true);
    s.space = sp;
    s.name = "distance";
    int how = r.in(0, 2);
    auto q = how == 0 ? std::make_shared<QDC>(sp, t, W) : how == 1 ? std::make_shared<QDC>(sp, t) : std::make_shared<QDC>(sp);
    if (how)
      W = M::Identity(nv, nv);
    if (how == 2)
      t = sp->neutral();
    if (k == 7) { // moved target
      t = npoint(*sp, r);
      s.name = "distance-moved";
      q->updateTarget(t);
    }
    VCHECK(bitEq(V(q->getTarget()), t), "getTarget", s.name);
    s.cost = q;
    s.value = [=](const V &x) {
      V e = sp->difference(t, x);
      return V(V::Constant(1, 0.5 * e.dot(W * e)));
    };
    s.hess = [=](const V &x) {
      M J(nv, nv);
      sp->Jdifference(t, x, J, 1);
      return M(J.transpose() * W * J);
    };
    break;
  }
  case 8: { // function seen as a cost
    std::shared_ptr<F2> f = smooth(n, 1);
    s.name = "func-to-cost";
    s.cost = r.coin() ? downcast_function_to_cost<double>(f) : std::make_shared<func_to_cost<double>>(f);
    s.value = [=](const V &x) { return (*f)(x); };
    s.hess = [=](const V &x) {
      M H(n, n);
      f->vectorHessianProduct(x, V::Ones(1), H);
      return H;
    };
    break;
  }
  case 9: { // weighted sum
    s.name = "sum";
    int nc = r.many(0, 4, 14);
    std::vector<CostPtr> cs;
    std::vector<double> ws;
    auto sum = std::make_shared<Sum>(n, n);
    for (int i = 0; i < nc; i++) {
      std::shared_ptr<F2> f = smooth(n, 1);
      cs.push_back(std::make_shared<func_to_cost<double>>(f));
      ws.push_back(r.gauss());
      sum->addComponent(cs.back(), ws.back());
    }
    s.cost = r.coin() ? sum : std::make_shared<Sum>(n, n, cs, ws);
    s.value = [=](const V &x) {
      double v = 0;
      for (int i = 0; i < nc; i++)
        v += ws[i] * cs[i]->call(x);
      return V(V::Constant(1, v));
    };
    s.hess = [=](const V &x) {
      M H = M::Zero(n, n);
      for (int i = 0; i < nc; i++)
        H += ws[i] * cs[i]->computeHessian(x);
      return H;
    };
    break;
  }
  case 10: { // two quadratic costs sharing one residual object
    s.name = "shared-residual";
    std::shared_ptr<F2> res = smooth(n, m);
    M Q1 = sym(r, m), Q2 = sym(r, m);
    auto c1 = std::make_shared<QRC>(res, Q1, 0.5), c2 = std::make_shared<QRC>(res, Q2, 1.);
    auto sum = std::make_shared<Sum>(n, n);
    sum->addComponent(c1, 2.);
    sum->addComponent(c2);
    sum->addComponent(c1, -0.5);
    s.cost = sum;
    s.value = [=](const V &x) {
      V e = (*res)(x);
      return V(V::Constant(1, 1.5 * (0.5 * e.dot(Q1 * e) + 0.5) + 0.5 * e.dot(Q2 * e) + 1.));
    };
    s.hess = [=](const V &x) {
      M J = res->computeJacobian(x);
      return M(J.transpose() * (1.5 * Q1 + Q2) * J);
    };
    break;
  }
  default: { // a cost used as the inner function of a composition
    s.name = "compose-cost";
    std::shared_ptr<F2> g = smooth(1, m);
    std::shared_ptr<F2> res = smooth(n, 2);
    M Q = sym(r, 2);
    std::shared_ptr<F2> c = std::make_shared<QRC>(res, Q);
    s.f = compose<double>(g, c);
    s.value = [=](const V &x) {
      V e = (*res)(x);
      return (*g)(V(V::Constant(1, 0.5 * e.dot(Q * e))));
    };
  }
  }
  if (s.cost)
    s.f = s.cost;
  return s;
}
static void derivs(long, Rng &r) {
  Subject s = make(r);
  const Man &m = *s.space;
  int nv = m.ndx(), nr = s.f->nr();
  std::string d = s.name;
  VCHECK(s.f->nx() == m.nx() && s.f->ndx() == nv, "dims", d);
  std::vector<V> pts;
  for (int i = 0; i < 3; i++)
    pts.push_back(npoint(m, r));
  int steps = r.many(3, 9, 40);
  uint64_t h = 0;
  for (int i = 0; i < steps; i++) { // arbitrary order of calls at different points
    const V &x = pts[r.in(0, 2)];
    V keep = x;
    int op = r.in(0, s.cost ? 6 : 2);
    h = hcomb(h, op);
    phase(cat(d, "-op", op));
    std::string key = cat(d, ".");
    V ref = s.value(x);
    double sc = 1 + maxabs(ref);
    switch (op) {
    case 0: {
      V v = (*s.f)(x);
      VCHECK(v.size() == nr && maxdiff(v, ref) <= 1e-12 * sc * 10, key + "value", str(v), " want ", str(ref));
      break;
    }
    case 1:
    case 2: {
      M J = op == 1 ? guarded(nr, nv, "jacobian", d, [&](MR J) { s.f->computeJacobian(x, J); })
                    : static_cast<const F1 &>(*s.f).computeJacobian(x);
      M R = fdjac(m, nr, x, s.value);
      VCHECK(maxdiff(J, R) <= 1e-7 * (sc + maxabs(R)), key + "jacobian", "op=", op, " err=", maxdiff(J, R), " J=", str(J),
             " ref=", str(R));
      count("jacobians");
      break;
    }
    case 3: {
      double v = s.cost->call(x);
      VCHECK(std::abs(v - ref[0]) <= 1e-11 * sc, key + "call", v, " want ", ref[0]);
      break;
    }
    case 4: {
      V g = r.coin() ? s.cost->computeGradient(x) : guardedv(nv, "gradient", d, [&](VR g) { s.cost->computeGradient(x, g); });
      M R = fdjac(m, 1, x, s.value);
      VCHECK(maxdiff(M(g.transpose()), R) <= 1e-7 * (sc + maxabs(R)), key + "gradient", " err=", maxdiff(M(g.transpose()), R), " step ",
             i);
      count("gradients");
      break;
    }
    case 5: {
      M H = r.coin() ? s.cost->computeHessian(x) : guarded(nv, nv, "hessian", d, [&](MR H) { s.cost->computeHessian(x, H); });
      M R = s.hess(x);
      VCHECK(maxdiff(H, R) <= 1e-10 * (1 + maxabs(R)), key + "hessian", " err=", maxdiff(H, R), " step ", i);
      count("hessians");
      break;
    }
    default: {
      double w = r.gauss();
      M H = guarded(nv, nv, "vhp", d, [&](MR H) { s.cost->vectorHessianProduct(x, V::Constant(1, w), H); });
      M R = w * s.hess(x);
      VCHECK(maxdiff(H, R) <= 1e-10 * (1 + maxabs(R)), key + "vhp", " err=", maxdiff(H, R), " step ", i);
      count("hessians");
    }
    }
    VCHECK(bitEq(x, keep), key + "input-modified", "");
  }
  if (s.vhp) {
    V v = r.vec(nr);
    M H = guarded(nv, nv, "vhp", d, [&](MR H) { s.f->vectorHessianProduct(pts[0], v, H); });
    VCHECK(maxdiff(H, s.vhp(pts[0], v)) <= 1e-12, d + ".vhp", "");
  }
  count(cat("subject.", d));
  nontrivial(hcomb(std::hash<std::string>()(d), h));
  sample(cat(d, " steps=", steps));
}
static void validation(long, Rng &r) {
  auto throws = [](const std::function<void()> &f) {
    try {
      f();
    } catch (const std::exception &) {
      return true;
    }
    return false;
  };
  int a = r.in(1, 4), b = a + r.in(1, 3);
  std::shared_ptr<F2> l = std::make_shared<Smooth>(a, 2, r, 1, 1), g = std::make_shared<Smooth>(3, b, r, 1, 1);
  VCHECK(throws([&] { compose<double>(l, g); }), "compose-mismatch", a, b);
  std::shared_ptr<F2> g2 = std::make_shared<Smooth>(3, a, r, 1, 1);
  VCHECK(!throws([&] { compose<double>(l, g2); }), "compose-match", a);
  VCHECK(throws([&] { downcast_function_to_cost<double>(l); }), "downcast-nr", 2);
  PMan so(SO3{});
  V bad = 1.5 * so->neutral();
  VCHECK(throws([&] { ManifoldDifferenceToPoint<double> f(so, bad); }), "target-invalid", "");
  VCHECK(throws([&] { QDC f(so, bad); }), "distance-target-invalid", "");
  Product p;
  p.addComponent(SO3());
  p.addComponent(VecSpace(2));
  V t = p.neutral();
  t.head(4) *= 2;
  VCHECK(throws([&] { ManifoldDifferenceToPoint<double> f(PMan(p), t); }), "product-target-invalid", "");
  count("validations", 6);
  nontrivial(hcomb(a, b));
}
int main(int argc, char **argv) {
  parse_args(argc, argv);
  bool t = ctx().thorough;
  run_cases("derivatives", t ? 150000 : 12000, derivs);
  run_cases("validation", t ? 500 : 100, validation);
  return finish();
}
#elif VF_PROP == 17
// model: list of (weight, leaf)
using Model = std::vector<std::pair<double, int>>;
struct World {
  Rng &r;
  int n;
  std::vector<CostPtr> leaves;
  std::vector<Model> nested; // what a leaf which is a sum itself stands for
  struct Item {
    std::shared_ptr<Sum> s;
    Model m;
  };
  std::vector<Item> items;
  V x;
  long checks = 0;
  World(Rng &r_) : r(r_), n(r_.many(1, 5, 20)) {
    int k = r.many(1, 4, 12);
    for (int i = 0; i < k; i++) {
      std::shared_ptr<F2> f = std::make_shared<Smooth>(n, 1, r, 0.5, 0.5);
      if (r.coin())
        leaves.push_back(std::make_shared<func_to_cost<double>>(f));
      else
        leaves.push_back(std::make_shared<QDC>(PMan(VecSpace(n)), r.vec(n), sym(r, n, true)));
    }
    nested.resize(k);
    for (int d = r.coin(0.5) ? r.in(1, 3) : 0; d > 0; d--) { // sums as components of sums
      std::vector<CostPtr> cs;
      std::vector<double> ws;
      Model m;
      for (int q = r.many(1, 3, 12); q > 0; q--) {
        int l = r.in(0, int(leaves.size()) - 1);
        cs.push_back(leaves[l]);
        ws.push_back(r.gauss());
        m.push_back({ws.back(), l});
      }
      leaves.push_back(std::make_shared<Sum>(n, n, cs, ws));
      nested.push_back(m);
      count("nested-sums");
    }
    x = r.vec(n);
  }
  void eval(const Model &m, double w, double &v, V &g, M &H, double &mag) {
    for (auto &p : m) {
      if (!nested[p.second].empty()) {
        eval(nested[p.second], w * p.first, v, g, H, mag);
        continue;
      }
      double c = leaves[p.second]->call(x);
      V lg = leaves[p.second]->computeGradient(x);
      M lh = leaves[p.second]->computeHessian(x);
      v += w * p.first * c;
      g += w * p.first * lg;
      H += w * p.first * lh;
      mag += std::abs(w * p.first) * (std::abs(c) + maxabs(lg) + maxabs(lh));
    }
  }
  void check_nested(const std::string &op) {
    for (size_t l = 0; l < leaves.size(); l++)
      if (!nested[l].empty()) {
        double v = 0, mag = 1;
        V g = V::Zero(n);
        M H = M::Zero(n, n);
        eval(nested[l], 1., v, g, H, mag);
        VCHECK(std::abs(leaves[l]->call(x) - v) <= 1e-12 * mag, "nested-value." + op, leaves[l]->call(x), " want ", v);
        VCHECK(maxdiff(leaves[l]->computeGradient(x), g) <= 1e-12 * mag, "nested-gradient." + op, "");
        VCHECK(maxdiff(leaves[l]->computeHessian(x), H) <= 1e-12 * mag, "nested-hessian." + op, "");
      }
  }
  void check(const Item &it, const std::string &op) {
    checks++;
    double v = 0, mag = 1;
    V g = V::Zero(n);
    M H = M::Zero(n, n);
    eval(it.m, 1., v, g, H, mag);
    VCHECK(it.s->nx() == n && it.s->ndx() == n && it.s->nr() == 1, "dims." + op, "");
    VCHECK(it.s->numComponents() == it.m.size(), "components." + op, it.s->numComponents(), " want ", it.m.size());
    VCHECK(std::abs(it.s->call(x) - v) <= 1e-12 * mag, "value." + op, it.s->call(x), " want ", v);
    VCHECK(maxdiff(as_cost(it.s).computeGradient(x), g) <= 1e-12 * mag, "gradient." + op, "");
    VCHECK(maxdiff(as_cost(it.s).computeHessian(x), H) <= 1e-12 * mag, "hessian." + op, "");
    V gi = guardedv(n, "gradient", op, [&](VR o) { as_cost(it.s).computeGradient(x, o); });
    M hi = guarded(n, n, "hessian", op, [&](MR o) { as_cost(it.s).computeHessian(x, o); });
    VCHECK(maxdiff(gi, g) <= 1e-12 * mag && maxdiff(hi, H) <= 1e-12 * mag, "inplace." + op, "");
  }
  CostPtr leaf(int &k) {
    k = r.in(0, int(leaves.size()) - 1);
    return leaves[k];
  }
};
static Model scaled(Model m, double a) {
  for (auto &p : m)
    p.first *= a;
  return m;
}
static Model joined(Model a, const Model &b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
static void algebra(long, Rng &r) {
  World w(r);
  int steps = r.many(2, 12, 60);
  uint64_t h = 0;
  int a, b;
  CostPtr ca = w.leaf(a), cb = w.leaf(b);
  w.items.push_back({ca + cb, {{1., a}, {1., b}}});
  std::string op = "add";
  w.check(w.items[0], op);
  for (int i = 0; i < steps; i++) {
    int k = r.in(0, 10);
    h = hcomb(h, k);
    int ia = r.in(0, int(w.items.size()) - 1), ib = r.in(0, int(w.items.size()) - 1);
    World::Item ne;
    double al = r.coin(0.2) ? 0. : r.gauss();
    int l;
    phase(cat("algebra-op", k));
    switch (k) {
    case 0: {
      op = "scale-leaf";
      CostPtr c = w.leaf(l);
      ne = {al * c, {{al, l}}};
      break;
    }
    case 1: {
      op = "scale-sum";
      ne = {r.coin() ? (*w.items[ia].s) * al : al * (*w.items[ia].s), scaled(w.items[ia].m, al)};
      break;
    }
    case 2: {
      op = "negate";
      ne = {-(*w.items[ia].s), scaled(w.items[ia].m, -1)};
      break;
    }
    case 3: {
      op = "clone";
      ne = {w.items[ia].s->clone(), w.items[ia].m};
      break;
    }
    case 4: {
      op = "iadd-leaf";
      CostPtr c = w.leaf(l);
      *w.items[ia].s += c;
      w.items[ia].m.push_back({1., l});
      break;
    }
    case 5: {
      op = ia == ib ? "iadd-self" : "iadd-sum";
      if (w.items[ia].m.size() + w.items[ib].m.size() > 40)
        break;
      Model mb = w.items[ib].m;
      *w.items[ia].s += *w.items[ib].s;
      w.items[ia].m = joined(w.items[ia].m, mb);
      break;
    }
    case 6: {
      op = "imul";
      *w.items[ia].s *= al;
      w.items[ia].m = scaled(w.items[ia].m, al);
      break;
    }
    case 7: {
      op = "addComponent";
      CostPtr c = w.leaf(l);
      if (r.coin()) {
        w.items[ia].s->addComponent(c, al);
        w.items[ia].m.push_back({al, l});
      } else {
        w.items[ia].s->addComponent(c);
        w.items[ia].m.push_back({1., l});
      }
      break;
    }
    case 8: { // chained sums of temporaries
      op = "chain";
      int l1, l2, l3;
      CostPtr c1 = w.leaf(l1), c2 = w.leaf(l2), c3 = w.leaf(l3);
      std::shared_ptr<Sum> s = c1 + c2 + c3 + c1;
      ne = {s, {{1., l1}, {1., l2}, {1., l3}, {1., l1}}};
      break;
    }
    case 9: { // constructor from vectors
      op = "ctor";
      std::vector<CostPtr> cs;
      std::vector<double> ws;
      Model m;
      for (int q = r.many(0, 4, 14); q > 0; q--) {
        cs.push_back(w.leaf(l));
        ws.push_back(r.gauss());
        m.push_back({ws.back(), l});
      }
      ne = {std::make_shared<Sum>(w.n, w.n, cs, ws), m};
      break;
    }
    default: { // copy assignment
      op = "assign";
      if (ia == ib)
        break;
      *w.items[ia].s = *w.items[ib].s;
      w.items[ia].m = w.items[ib].m;
    }
    }
    if (ne.s)
      w.items.push_back(ne);
    count(cat("op.", op));
    if (r.coin(0.3))
      w.x = r.vec(w.n);
    for (auto &it : w.items) // every object, so that aliasing shows
      w.check(it, op);
    w.check_nested(op);
    for (size_t q = 0; q < w.items.size(); q++)
      for (size_t p = 0; p < q; p++)
        VCHECK(w.items[q].s != w.items[p].s, "shared." + op, "");
  }
  std::ostringstream os;
  os << *w.items.back().s;
  VCHECK(os.str().find(cat("num_components=", w.items.back().m.size())) != std::string::npos, "print", os.str());
  count("object-checks", w.checks);
  nontrivial(h);
  sample(cat("ops=", steps, " objects=", w.items.size()));
}
int main(int argc, char **argv) {
  parse_args(argc, argv);
  run_cases("cost-algebra", ctx().thorough ? 60000 : 5000, algebra);
  return finish();
}
#else
using FD1 = autodiff::finite_difference_wrapper<double, autodiff::TOC1>;
using FD2 = autodiff::finite_difference_wrapper<double, autodiff::TOC2>;
static void vec_case(long, Rng &r) {
  int n = r.many(1, 7, 24), m = r.many(1, 5, 20);
  double quad = r.coin(0.3) ? 0. : r.uni(0.1, 2.), sine = r.coin(0.5) ? 0. : r.uni(0.1, 1.);
  Smooth f(n, m, r, quad, sine);
  VecSpace sp(n);
  double h = r.logu(1e-7, 1e-2);
  FD1 w1(sp, f, h);
  FD2 w2(sp, f, h);
  V x = r.vec(n), keep = x, v = r.vec(m);
  std::string d = cat("n=", n, " m=", m, " h=", h, " quad=", quad, " sine=", sine);
  VCHECK(w1.nx() == n && w1.ndx() == n && w1.nr() == m && w2.nr() == m && w2.ndx() == n, "dims", d);
  phase("fd-jacobian");
  VCHECK(bitEq(w1(x), f(x)) && bitEq(w2(x), f(x)), "value", d);
  M J = guarded(m, n, "jac", d, [&](MR J) { w1.computeJacobian(x, J); }), R = f.F1::computeJacobian(x);
  // central differences: no even-order error, third derivative |s||w|^3
  double third = 0, fm = maxabs(f(x)) + 1;
  for (int k = 0; k < m; k++)
    third = std::max(third, std::abs(f.S(k, 0)) * std::pow(maxabs(M(f.W.row(k))), 3));
  double tol = third * h * h / 6 * 1.01 + 40 * 2.2e-16 * (fm + n * maxabs(x) * maxabs(x) * 3) / h;
  VCHECK(maxdiff(J, R) <= tol, "jacobian", d, " err=", maxdiff(J, R), " bound=", tol);
  VCHECK(maxdiff(w1.F1::computeJacobian(x), J) == 0, "jacobian-alloc", d);
  VCHECK(bitEq(guarded(m, n, "jac2", d, [&](MR J) { w2.computeJacobian(x, J); }), R), "jacobian-passthrough", d);
  phase("fd-vhp");
  M H = guarded(n, n, "vhp", d, [&](MR H) { w2.vectorHessianProduct(x, v, H); }), RH(n, n);
  f.vectorHessianProduct(x, v, RH);
  double fourth = 0;
  for (int k = 0; k < m; k++)
    fourth += std::abs(v[k]) * std::abs(f.S(k, 0)) * std::pow(maxabs(M(f.W.row(k))), 4);
  tol = fourth * h * h / 6 * 1.01 + 40 * 2.2e-16 * m * maxabs(v) * (maxabs(R) + n * 3 * (1 + maxabs(x))) / h;
  VCHECK(maxdiff(H, RH) <= tol, "vhp", d, " err=", maxdiff(H, RH), " bound=", tol);
  VCHECK(bitEq(x, keep), "input-modified", d);
  count(sine == 0 ? "fd.exact-class" : "fd.smooth-class");
  nontrivial(hcomb(hcomb(n, m), hdouble(h)));
  sample(d);
}
static void man_case(long, Rng &r) {
  SpaceGen g(r);
  PMan sp = g.make(2);
  int nv = sp->ndx(), m = r.in(1, 4);
  V t = npoint(*sp, r), x = npoint(*sp, r);
  M A = r.mat(m, nv);
  LinearFunctionDifferenceToPoint<double> f(sp, t, A, V(r.vec(m)));
  double h = r.logu(1e-6, 1e-3);
  FD1 w(*sp, f, h);
  M J = guarded(m, nv, "jac", g.desc, [&](MR J) { w.computeJacobian(x, J); }), R = f.F1::computeJacobian(x);
  double tol = 60. * h * h * (1 + maxabs(A)) * nv * (1 + maxabs(R)) + 1e-13 * nv * (1 + maxabs(A) * (1 + maxabs(x) + maxabs(t))) / h;
  VCHECK(maxdiff(J, R) <= tol, "manifold-jacobian", g.desc, " h=", h, " err=", maxdiff(J, R), " bound=", tol);
  VCHECK(w.nx() == sp->nx() && w.ndx() == nv && w.nr() == m, "manifold-dims", g.desc);
  // second order: derivative of the Jacobian of a cost on a vector part
  count("fd.manifold");
  nontrivial(hcomb(std::hash<std::string>()(g.desc), m));
  sample(g.desc);
}
/// a wrapped value-only function used as a differentiable residual
struct ValueOnly : F0 {
  const F2 &f;
  ValueOnly(const F2 &g) : F0(g.nx(), g.ndx(), g.nr()), f(g) {}
  V operator()(const CVR &x) const override { return f(x); }
};
static void chain(long, Rng &r) { // C0 -> C1 -> C2
  int n = r.many(1, 5, 20), m = r.many(1, 4, 16);
  Smooth f(n, m, r, 1., 0.);
  VecSpace sp(n);
  ValueOnly g(f);
  FD1 w1(sp, g, 1e-3);
  FD2 w2(sp, w1, 1e-3);
  V x = r.vec(n), v = r.vec(m);
  M H(n, n), R(n, n);
  w2.vectorHessianProduct(x, v, H);
  f.vectorHessianProduct(x, v, R);
  VCHECK(maxdiff(H, R) <= 1e-7 * m * (1 + maxabs(v)) * (1 + maxabs(f(x)) + n * maxabs(x) * maxabs(x)), "chain", n, " ", m, " err=",
         maxdiff(H, R));
  count("fd.chain");
  nontrivial(hcomb(n, 1000 + m));
}
int main(int argc, char **argv) {
  parse_args(argc, argv);
  bool t = ctx().thorough;
  run_cases("fd-vector", t ? 100000 : 8000, vec_case);
  run_cases("fd-manifold", t ? 50000 : 4000, man_case);
  run_cases("fd-chain", t ? 5000 : 500, chain);
  return finish();
}
#endif

// C13 manifold axioms, C14 Jacobians, C15 products and bundles.
#include "spaces.hpp"
using namespace vf;
static const double NaN = std::numeric_limits<double>::quiet_NaN();

/// same point (quaternion double cover included): difference is zero
static bool same_point(const Man &m, const V &a, const V &b, double tol) {
  if (a.size() != b.size())
    return false;
  return maxabs(m.difference(a, b)) <= tol * (1 + maxabs(a));
}
#if VF_PROP == 13
static void axioms(long, Rng &r) {
  SpaceGen g(r);
  PMan pm = g.make(2);
  const Man &m = *pm;
  std::string d = g.desc;
  int nx = m.nx(), nv = m.ndx();
  V e = m.neutral(), rr = m.rand();
  VCHECK(e.size() == nx && rr.size() == nx, "size", d);
  VCHECK(m.isNormalized(e), "neutral-normalized", d);
  VCHECK(m.isNormalized(rr), "rand-normalized", d);
  VCHECK(m.tangentSpace().nx() == nv && m.tangentSpace().ndx() == nv, "tangent-space", d);
  double sc = r.coin(0.2) ? r.logu(1e-8, 1.) : 1.;
  V x0 = rpoint(m, r), v = sc * rtangent(m, r);
  V keep0 = x0, keepv = v;
  phase("integrate");
  V x1 = m.integrate(x0, v);
  VCHECK(x1.size() == nx && m.isNormalized(x1), "integrate-normalized", d);
  VCHECK(same_point(m, m.integrate(x0, V(V::Zero(nv))), x0, 1e-14), "integrate-zero", d);
  VCHECK(maxabs(m.difference(x0, x0)) <= 1e-14 * (1 + maxabs(x0)), "difference-self", d);
  V dv = m.difference(x0, x1);
  VCHECK(dv.size() == nv && maxdiff(dv, v) <= 1e-12 * (1 + maxabs(x0) + maxabs(v)), "difference-integrate", d, " v=", str(v), " got ",
         str(dv));
  V y = rpoint(m, r, 1.5);
  V w = m.difference(x0, y);
  V z = m.integrate(x0, w);
  VCHECK(same_point(m, z, y, 1e-11), "integrate-difference", d, " x0=", str(x0), " y=", str(y), " got ", str(z));
  // antisymmetry of the difference up to transport: norms agree
  V w2 = m.difference(y, x0);
  VCHECK(std::abs(w.norm() - w2.norm()) <= 1e-10 * (1 + w.norm()), "difference-norm", d);
  phase("interpolate");
  VCHECK(same_point(m, m.interpolate(x0, y, 0.), x0, 1e-12), "interpolate-0", d);
  VCHECK(same_point(m, m.interpolate(x0, y, 1.), y, 1e-11), "interpolate-1", d);
  double u = r.coin(0.2) ? r.uni(-0.3, 1.3) : r.u01();
  V mid = m.interpolate(x0, x1, u);
  VCHECK(m.isNormalized(mid), "interpolate-normalized", d);
  V dm = m.difference(x0, mid);
  VCHECK(maxdiff(dm, (u * v).eval()) <= 1e-12 * (1 + maxabs(x0) + maxabs(v)), "interpolate-mid", d, " u=", u, " got ", str(dm),
         " want ", str((u * v).eval()));
  // in-place overloads write the same values and nothing else
  V big = V::Constant(nx + 4, 9.);
  m.integrate(x0, v, big.segment(2, nx));
  VCHECK(bitEq(V(big.segment(2, nx)), x1), "integrate-inplace", d);
  m.interpolate(x0, x1, u, big.segment(2, nx));
  VCHECK(bitEq(V(big.segment(2, nx)), mid), "interpolate-inplace", d);
  VCHECK(big[0] == 9 && big[1] == 9 && big[nx + 2] == 9 && big[nx + 3] == 9, "overrun", d);
  V bv = V::Constant(nv + 4, 9.);
  m.difference(x0, x1, bv.segment(2, nv));
  VCHECK(bitEq(V(bv.segment(2, nv)), dv), "difference-inplace", d);
  VCHECK(bv[0] == 9 && bv[1] == 9 && bv[nv + 2] == 9 && bv[nv + 3] == 9, "overrun", d);
  VCHECK(bitEq(x0, keep0) && bitEq(v, keepv), "input-modified", d);
  // copy has the same behaviour
  PMan c(pm);
  VCHECK(bitEq(c->integrate(x0, v), x1) && c->nx() == nx && c->ndx() == nv, "copy", d);
  count("spaces");
  nontrivial(hcomb(std::hash<std::string>()(d), hdouble(x0.sum())));
  sample(d);
}
static void not_normalized(long, Rng &r) {
  // a point with one corrupted curved coordinate block is rejected
  Product p;
  int n = r.many(1, 5, 12), bad = r.in(0, n - 1);
  std::vector<V> xs;
  for (int i = 0; i < n; i++) {
    int k = i == bad ? r.in(0, 2) : r.in(0, 3);
    PMan m = k == 0 ? PMan(SO3()) : k == 1 ? PMan(SO2()) : k == 2 ? PMan(TangentBundleTpl<SO3>(SO3())) : PMan(VecSpace(r.in(1, 3)));
    p.addComponent(m);
    V x = rpoint(*m, r);
    if (i == bad)
      x.head(m->nx() == 2 ? 2 : 4) *= r.coin() ? 1.5 : 0.2;
    xs.push_back(x);
  }
  VCHECK(!p.isNormalized(p.merge(xs)), "corrupt-accepted", n, " components, bad=", bad);
  xs[bad] = rpoint(p.getComponent(bad), r);
  VCHECK(p.isNormalized(p.merge(xs)), "valid-rejected", n);
  count("normalized-decisions", 2);
  nontrivial(hcomb(n, bad));
}
int main(int argc, char **argv) {
  parse_args(argc, argv);
  bool t = ctx().thorough;
  run_cases("axioms", t ? 100000 : 8000, axioms);
  run_cases("normalized", t ? 20000 : 2000, not_normalized);
  return finish();
}
#elif VF_PROP == 14
/// derivative of t -> f(t e_i) expressed with `diff`, Richardson extrapolated
static M numjac(int nin, int nout, const std::function<V(const V &)> &f) {
  M J(nout, nin);
  for (int i = 0; i < nin; i++) {
    auto cd = [&](double h) {
      V e = V::Zero(nin);
      e[i] = h;
      V a = f(e);
      e[i] = -h;
      return V((a - f(e)) / (2 * h));
    };
    double h = 2e-3;
    V d1 = cd(h), d2 = cd(h / 2), d3 = cd(h / 4);
    V r1 = (4 * d2 - d1) / 3, r2 = (4 * d3 - d2) / 3;
    J.col(i) = (16 * r2 - r1) / 15;
  }
  return J;
}
static void jac(long, Rng &r) {
  SpaceGen g(r);
  PMan pm = g.make(2);
  const Man &m = *pm;
  std::string d = g.desc;
  int nv = m.ndx();
  V x0 = rpoint(m, r), v = rtangent(m, r), x1 = m.integrate(x0, v);
  V x0k = x0, vk = v;
  for (int arg = 0; arg < 2; arg++) {
    phase(cat("Jintegrate", arg));
    M big = M::Constant(nv + 4, nv + 3, 9.);
    big.block(2, 1, nv, nv).setConstant(NaN);
    m.Jintegrate(x0, v, big.block(2, 1, nv, nv), arg);
    M J = big.block(2, 1, nv, nv);
    big.block(2, 1, nv, nv).setConstant(9.);
    VCHECK(bitEq(big, M::Constant(nv + 4, nv + 3, 9.)), "Jintegrate-overrun", d);
    M ref = numjac(nv, nv, [&](const V &e) {
      return arg == 0 ? m.difference(x1, m.integrate(m.integrate(x0, e), v)) : m.difference(x1, m.integrate(x0, v + e));
    });
    double er = maxdiff(J, ref);
    VCHECK(er <= 1e-8 * (1 + maxabs(x0)), cat("Jintegrate.", arg), d, " err=", er, " J=", str(J), " ref=", str(ref));
    phase(cat("Jtransport", arg));
    int nc = r.many(1, 5, 12);
    M A = r.mat(nv, nc), T = A;
    m.JintegrateTransport(x0, v, T, arg);
    er = maxdiff(T, (ref * A).eval());
    VCHECK(er <= 1e-7 * (1 + maxabs(A)) * (1 + maxabs(x0)), cat("transport.", arg), d, " err=", er);
    phase(cat("Jdifference", arg));
    big.block(2, 1, nv, nv).setConstant(NaN);
    m.Jdifference(x0, x1, big.block(2, 1, nv, nv), arg);
    J = big.block(2, 1, nv, nv);
    big.block(2, 1, nv, nv).setConstant(9.);
    VCHECK(bitEq(big, M::Constant(nv + 4, nv + 3, 9.)), "Jdifference-overrun", d);
    ref = numjac(nv, nv, [&](const V &e) {
      return arg == 0 ? m.difference(m.integrate(x0, e), x1) : m.difference(x0, m.integrate(x1, e));
    });
    er = maxdiff(J, ref);
    VCHECK(er <= 1e-8 * (1 + maxabs(x0)), cat("Jdifference.", arg), d, " err=", er, " J=", str(J), " ref=", str(ref));
    count("jacobians", 3);
  }
  VCHECK(bitEq(x0, x0k) && bitEq(v, vk), "input-modified", d);
  nontrivial(hcomb(std::hash<std::string>()(d), hdouble(x0.sum())));
  sample(d);
  // invalid argument index is an error on vector spaces
  VecSpace vs(3);
  M J(3, 3);
  bool th = false;
  try {
    vs.Jdifference(V::Zero(3), V::Zero(3), J, r.coin() ? 2 : -1);
  } catch (const std::runtime_error &) {
    th = true;
  }
  VCHECK(th, "wrong-arg", "no exception");
}
int main(int argc, char **argv) {
  parse_args(argc, argv);
  bool t = ctx().thorough;
  run_cases("jacobians", t ? 50000 : 4000, jac);
  return finish();
}
#else
static void product(long, Rng &r) {
  SpaceGen g(r);
  int n = r.many(1, 6, 14);
  std::vector<PMan> ms;
  for (int i = 0; i < n; i++) {
    ms.push_back(g.make(1));
    g.desc += "|";
  }
  std::string d = g.desc;
  Product p;
  int how = r.in(0, 4);
  phase("product-build");
  switch (how) {
  case 0:
    for (auto &m : ms)
      p.addComponent(m);
    break;
  case 1:
    p = Product(ms);
    break;
  case 2: { // nested products are flattened in order by addComponent
    int k = r.in(0, n);
    Product a(std::vector<PMan>(ms.begin(), ms.begin() + k)), b(std::vector<PMan>(ms.begin() + k, ms.end()));
    p.addComponent(a);
    p.addComponent(b);
    break;
  }
  case 3: // operator* folded from the left
    if (n == 1)
      p = Product(ms);
    else {
      p = ms[0] * ms[1];
      for (int i = 2; i < n; i++)
        p = p * ms[i];
    }
    break;
  default: // folded from the right, or product * product
    if (n < 4)
      if (n == 1)
        p = Product(ms);
      else {
        p = ms[n - 2] * ms[n - 1];
        for (int i = n - 3; i >= 0; i--)
          p = ms[i] * p;
      }
    else {
      Product a = ms[0] * ms[1], b(std::vector<PMan>(ms.begin() + 2, ms.end()));
      p = a * b;
      VCHECK(a.numComponents() == 2 && int(b.numComponents()) == n - 2, "operand-modified", d);
    }
  }
  if (r.coin(0.15)) { // a product appended to itself
    phase("product-self-add");
    how = 5;
    p.addComponent(p);
    std::vector<PMan> twice(ms);
    twice.insert(twice.end(), ms.begin(), ms.end());
    ms = twice;
    n *= 2;
    d += "^2";
    count("self-add");
  }
  std::string key = cat("build", how);
  VCHECK(int(p.numComponents()) == n, cat("count.", key), d, " got ", p.numComponents());
  if (int(p.numComponents()) != n)
    return;
  int nx = 0, nv = 0;
  bool order = true;
  for (int i = 0; i < n; i++) {
    nx += ms[i]->nx(), nv += ms[i]->ndx();
    order = order && p.getComponent(i).nx() == ms[i]->nx() && p.getComponent(i).ndx() == ms[i]->ndx() &&
            typeid(p.getComponent(i)) == typeid(*ms[i]);
    VCHECK(&p.getComponent(i) != &*ms[i], "component-shared", d);
  }
  VCHECK(order, cat("order.", key), d);
  if (!order)
    return;
  VCHECK(p.nx() == nx && p.ndx() == nv, "dims", d);
  Product q(p), s;
  s = q;
  phase("product-ops");
  const Product &P = how % 2 ? s : p;
  std::vector<V> xs, ys, vs;
  for (int i = 0; i < n; i++)
    xs.push_back(rpoint(*ms[i], r)), vs.push_back(rtangent(*ms[i], r)), ys.push_back(rpoint(*ms[i], r));
  V x = P.merge(xs), y = P.merge(ys), v = P.merge_vector(vs);
  VCHECK(x.size() == nx && v.size() == nv, "merge-size", d);
  // split / merge are inverse and split views alias
  {
    const V &cx = x, &cv = v;
    auto sx = P.split(Man::ConstVectorRef(cx));
    auto sv = P.split_vector(Man::ConstVectorRef(cv));
    bool ok = int(sx.size()) == n && int(sv.size()) == n;
    for (int i = 0; ok && i < n; i++)
      ok = bitEq(V(sx[i]), xs[i]) && bitEq(V(sv[i]), vs[i]);
    VCHECK(ok, "split-merge", d);
    V x2 = x, v2 = v;
    auto wx = P.split(Man::VectorRef(x2));
    auto wv = P.split_vector(Man::VectorRef(v2));
    int k = r.in(0, n - 1);
    wx[k].setConstant(3.25);
    wv[k].setConstant(-1.5);
    int ox = 0, ov = 0;
    for (int i = 0; i < k; i++)
      ox += ms[i]->nx(), ov += ms[i]->ndx();
    V ex = x, ev = v;
    ex.segment(ox, ms[k]->nx()).setConstant(3.25);
    ev.segment(ov, ms[k]->ndx()).setConstant(-1.5);
    VCHECK(bitEq(ex, x2) && bitEq(ev, v2), "split-view", d);
  }
  // every operation acts componentwise, Jacobians are block diagonal
  V zi = P.integrate(x, v), di = P.difference(x, y), ne = P.neutral();
  double u = r.u01();
  V it = P.interpolate(x, y, u);
  VCHECK(zi.size() == nx && di.size() == nv && ne.size() == nx && it.size() == nx && P.rand().size() == nx, "op-size", d);
  M J[4];
  for (int a = 0; a < 2; a++) {
    J[a] = M::Constant(nv, nv, NaN);
    P.Jintegrate(x, v, J[a], a);
    J[2 + a] = M::Constant(nv, nv, NaN);
    P.Jdifference(x, y, J[2 + a], a);
  }
  M T = r.mat(nv, 3), T1 = T;
  int ta = r.in(0, 1);
  P.JintegrateTransport(x, v, T1, ta);
  int ox = 0, ov = 0;
  M E[4];
  for (auto &e : E)
    e = M::Zero(nv, nv);
  M TE = T;
  bool norm = true;
  for (int i = 0; i < n; i++) {
    int a = ms[i]->nx(), b = ms[i]->ndx();
    const Man &m = *ms[i];
    VCHECK(maxdiff(V(zi.segment(ox, a)), m.integrate(xs[i], vs[i])) <= 1e-14 * (1 + maxabs(zi)), "integrate", d);
    VCHECK(maxdiff(V(di.segment(ov, b)), m.difference(xs[i], ys[i])) <= 1e-14 * (1 + maxabs(di)), "difference", d);
    V im = m.interpolate(xs[i], ys[i], u);
    // equal as points of the component
    VCHECK(maxabs(m.difference(im, V(it.segment(ox, a)))) <= 1e-11 * (1 + maxabs(im)), "interpolate", d, " comp ", i);
    VCHECK(bitEq(V(ne.segment(ox, a)), m.neutral()), "neutral", d);
    M t(b, b);
    for (int k = 0; k < 2; k++) {
      t.setConstant(NaN);
      m.Jintegrate(xs[i], vs[i], t, k);
      E[k].block(ov, ov, b, b) = t;
      t.setConstant(NaN);
      m.Jdifference(xs[i], ys[i], t, k);
      E[2 + k].block(ov, ov, b, b) = t;
    }
    M tt = T.middleRows(ov, b);
    m.JintegrateTransport(xs[i], vs[i], tt, ta);
    TE.middleRows(ov, b) = tt;
    norm = norm && m.isNormalized(xs[i]);
    ox += a, ov += b;
  }
  for (int k = 0; k < 4; k++)
    VCHECK(maxdiff(J[k], E[k]) <= 1e-14 * (1 + maxabs(E[k])), k < 2 ? "Jintegrate" : "Jdifference", d, " arg ", k % 2);
  VCHECK(maxdiff(T1, TE) <= 1e-14 * (1 + maxabs(TE)), "transport", d);
  VCHECK(P.isNormalized(x) == norm, "isNormalized", d);
  // the product can itself be a component, a base of a bundle, a polymorphic
  PMan pp(P), pp2(pp);
  VCHECK(bitEq(pp2->integrate(x, v), zi), "polymorphic-copy", d);
  // size mismatches are reported
  for (int k = 0; k < 2; k++) {
    V w = V::Zero((k ? nv : nx) + (r.coin() ? 1 : -1));
    bool th = false;
    try {
      k ? (void)P.split_vector(Man::ConstVectorRef(w)) : (void)P.split(Man::ConstVectorRef(w));
    } catch (const std::exception &) {
      th = true;
    }
    VCHECK(th, "dim-check", d);
  }
  count("products");
  count(cat("components.", n));
  nontrivial(hcomb(std::hash<std::string>()(d), how));
  sample(cat(d, " how=", how));
}
template <class B> static void bundle_of(const B &b, Rng &r, const std::string &d) {
  TangentBundleTpl<B> t(b);
  int n = b.nx(), k = b.ndx();
  VCHECK(t.nx() == n + k && t.ndx() == 2 * k, "bundle-dims", d);
  VCHECK(t.getBaseSpace().nx() == n && t.getBaseSpace().ndx() == k, "bundle-base", d);
  V p0 = rpoint(b, r), p1 = b.integrate(p0, rtangent(b, r)), w0 = r.vec(k), w1 = r.vec(k), dv = rtangent(b, r), dw = r.vec(k);
  V x0(n + k), x1(n + k), dx(2 * k);
  x0 << p0, w0;
  x1 << p1, w1;
  dx << dv, dw;
  V xi = t.integrate(x0, dx), df = t.difference(x0, x1), ne = t.neutral(), rd = t.rand();
  VCHECK(maxdiff(V(xi.head(n)), b.integrate(p0, dv)) <= 1e-14 * (1 + maxabs(xi)), "bundle-integrate-base", d);
  VCHECK(maxdiff(V(xi.tail(k)), (w0 + dw).eval()) <= 1e-14 * (1 + maxabs(xi)), "bundle-integrate-tangent", d);
  VCHECK(maxdiff(V(df.head(k)), b.difference(p0, p1)) <= 1e-14 * (1 + maxabs(df)), "bundle-difference-base", d);
  VCHECK(maxdiff(V(df.tail(k)), (w1 - w0).eval()) <= 1e-14 * (1 + maxabs(df)), "bundle-difference-tangent", d);
  VCHECK(bitEq(V(ne.head(n)), b.neutral()) && maxabs(V(ne.tail(k))) == 0, "bundle-neutral", d);
  VCHECK(rd.size() == n + k && t.isNormalized(rd), "bundle-rand", d);
  double u = r.u01();
  V it = t.interpolate(x0, x1, u);
  VCHECK(maxabs(b.difference(b.interpolate(p0, p1, u), V(it.head(n)))) <= 1e-12 * (1 + maxabs(p0)), "bundle-interpolate-base", d);
  VCHECK(maxdiff(V(it.tail(k)), ((1 - u) * w0 + u * w1).eval()) <= 1e-13 * (1 + maxabs(x0) + maxabs(x1)),
         "bundle-interpolate-tangent", d, " got ", str(V(it.tail(k))), " want ", str(((1 - u) * w0 + u * w1).eval()));
  for (int a = 0; a < 2; a++) {
    M J = M::Constant(2 * k, 2 * k, NaN), E = M::Zero(2 * k, 2 * k), e = M::Constant(k, k, NaN);
    t.Jintegrate(x0, dx, J, a);
    b.Jintegrate(p0, dv, e, a);
    E.topLeftCorner(k, k) = e;
    E.bottomRightCorner(k, k).setIdentity();
    VCHECK(maxdiff(J, E) <= 1e-14 * (1 + maxabs(E)), "bundle-Jintegrate", d, " arg ", a);
    J.setConstant(NaN);
    e.setConstant(NaN);
    t.Jdifference(x0, x1, J, a);
    b.Jdifference(p0, p1, e, a);
    E.topLeftCorner(k, k) = e;
    E.bottomRightCorner(k, k) = (a ? 1. : -1.) * M::Identity(k, k);
    VCHECK(maxdiff(J, E) <= 1e-14 * (1 + maxabs(E)), "bundle-Jdifference", d, " arg ", a);
    M T = r.mat(2 * k, 3), T1 = T, tt = T.topRows(k);
    t.JintegrateTransport(x0, dx, T1, a);
    b.JintegrateTransport(p0, dv, tt, a);
    T.topRows(k) = tt;
    VCHECK(maxdiff(T1, T) <= 1e-14 * (1 + maxabs(T)), "bundle-transport", d, " arg ", a);
  }
  V cx = x0;
  VCHECK(bitEq(V(t.getBasePoint(cx)), p0), "getBasePoint", d);
  VCHECK(bitEq(V(t.getBaseTangent(dx)), dv), "getBaseTangent", d);
  count("bundles");
  nontrivial(hcomb(std::hash<std::string>()(d), hdouble(x0[0])));
}
static void bundle(long ci, Rng &r) {
  switch (ci % 5) {
  case 0:
    return bundle_of(VecSpace(r.many(1, 5, 12)), r, "R");
  case 1:
    return bundle_of(SO3(), r, "SO3");
  case 2:
    return bundle_of(SO2(), r, "SO2");
  case 3: {
    SpaceGen g(r);
    Product p = g.product(0);
    return bundle_of(p, r, g.desc);
  }
  default:
    return bundle_of(TangentBundleTpl<SO3>(SO3()), r, "T(SO3)");
  }
}
int main(int argc, char **argv) {
  parse_args(argc, argv);
  bool t = ctx().thorough;
  run_cases("products", t ? 80000 : 6000, product);
  run_cases("bundles", t ? 50000 : 4000, bundle);
  return finish();
}
#endif

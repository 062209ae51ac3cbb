// C07: Bunch-Kaufman factorisation and solves (real and complex, around the
// block-size switch, reused objects, singular and non-finite inputs).
#include "common.hpp"
#include <complex>
#include "proxsuite-nlp/linalg/bunchkaufman.hpp"
using namespace vf;
using cd = std::complex<double>;
static const double EPS = std::numeric_limits<double>::epsilon();

template <class S> struct Gen;
template <> struct Gen<double> {
  static double g(Rng &r) { return r.gauss(); }
  static const char *nm() { return "real"; }
};
template <> struct Gen<cd> {
  static cd g(Rng &r) { return cd(r.gauss(), r.gauss()); }
  static const char *nm() { return "complex"; }
};
template <> struct Gen<float> {
  static float g(Rng &r) { return float(r.gauss()); }
  static const char *nm() { return "float"; }
};
template <class S> using MatX = Eigen::Matrix<S, -1, -1>;

template <class S> MatX<S> rnd(Rng &r, Index m, Index n) {
  MatX<S> a(m, n);
  for (Index j = 0; j < n; j++)
    for (Index i = 0; i < m; i++)
      a(i, j) = Gen<S>::g(r);
  return a;
}
template <class S> MatX<S> unitary(Rng &r, Index n) {
  if (n == 0)
    return MatX<S>(0, 0);
  MatX<S> a = rnd<S>(r, n, n);
  Eigen::HouseholderQR<MatX<S>> qr(a);
  return qr.householderQ() * MatX<S>::Identity(n, n);
}
static int pick_size(Rng &r) {
  static const std::vector<int> edge = {31, 32, 33, 34, 35, 62, 63, 64, 65, 66, 67, 95, 96, 97, 98};
  double u = r.u01();
  if (u < 0.5)
    return r.in(0, 12);
  if (u < 0.6)
    return r.in(13, 30);
  if (u < 0.9)
    return r.pick(edge);
  return r.in(99, ctx().thorough ? 260 : 140);
}
// nonsingular Hermitian matrices of different shapes
template <class S> MatX<S> herm(Rng &r, int n, std::string &kind) {
  MatX<S> a(n, n);
  switch (r.in(0, 11)) {
  case 8: { // diagonal entries around the pivot threshold: a wrong choice of
            // pivot repeats and the elements grow geometrically
    kind = "growth";
    a = rnd<S>(r, n, n);
    double lo = r.uni(0.3, 1.);
    for (int j = 0; j < n; j++)
      for (int i = j + 1; i < n; i++) {
        a(i, j) *= S(r.uni(lo, 1.) / std::max(1e-3, double(std::abs(a(i, j)))));
        a(j, i) = Eigen::numext::conj(a(i, j));
      }
    double c = r.logu(0.02, 0.8);
    for (int j = 0; j < n; j++)
      a(j, j) = S((r.coin() ? 1 : -1) * c * r.uni(0.7, 1.));
    break;
  }
  case 9: { // graded rows and columns: the row maximum differs from the column maximum
    kind = "graded";
    a = rnd<S>(r, n, n);
    a = (a + a.adjoint()).eval();
    if (r.coin())
      a.diagonal() *= S(r.logu(1e-3, 1.));
    double lo = r.logu(1e-2, 1.);
    for (int j = 0; j < n; j++) {
      double d = r.logu(lo, 1.);
      a.row(j) *= S(d);
      a.col(j) *= S(d);
    }
    break;
  }
  case 11: { // a pivot candidate with large entries elsewhere in its column
    kind = "spike";
    a = rnd<S>(r, n, n);
    a = (a + a.adjoint()).eval();
    if (n < 3)
      break;
    int steps = r.in(1, 3);
    for (int q = 0; q < steps; q++) {
      int k = r.coin(0.6) ? q : r.in(0, n - 3);
      k = std::min(k, n - 3);
      int i = r.in(k + 1, n - 2);
      double g = r.logu(1e2, 1e10);
      a(k, k) = S(r.logu(1e-13, 1e-3));
      for (int j = k + 1; j < n; j++)
        a(j, k) *= S(0.1 / g);
      a(i, k) = S(1. / g);
      a(i, i) = S((r.coin() ? 1 : -1) * r.uni(0.8, 5.) / g);
      for (int j = k + 1; j < i; j++)
        a(i, j) *= S(0.1 / g);
      for (int j = 0; j < n; j++)
        for (int l = j + 1; l < n; l++)
          a(j, l) = Eigen::numext::conj(a(l, j));
    }
    break;
  }
  case 10: { // independent magnitudes
    kind = "magnitudes";
    a = rnd<S>(r, n, n);
    a = (a + a.adjoint()).eval();
    double lo = r.logu(1e-8, 1.);
    for (int j = 0; j < n; j++)
      for (int i = j; i < n; i++) {
        a(i, j) *= S(r.logu(lo, 1.));
        a(j, i) = Eigen::numext::conj(a(i, j));
      }
    break;
  }
  case 0: { // chosen spectrum, indefinite
    kind = "spectrum";
    MatX<S> q = unitary<S>(r, n);
    V d(n);
    for (int i = 0; i < n; i++)
      d[i] = (r.coin() ? 1 : -1) * r.logu(1e-2, 1e2);
    a = q * d.cast<S>().asDiagonal() * q.adjoint();
    break;
  }
  case 1: { // saddle point
    kind = "kkt";
    int m = n / 3, p = n - m;
    a.setZero();
    MatX<S> h = rnd<S>(r, p, p);
    a.topLeftCorner(p, p) = h * h.adjoint() + MatX<S>::Identity(p, p);
    MatX<S> j = rnd<S>(r, m, p);
    a.bottomLeftCorner(m, p) = j;
    a.topRightCorner(p, m) = j.adjoint();
    a.bottomRightCorner(m, m).diagonal().setConstant(S(-r.logu(1e-8, 1.)));
    break;
  }
  case 2: { // zero diagonal: 2x2 pivots everywhere
    kind = "zerodiag";
    a = rnd<S>(r, n, n);
    a = (a + a.adjoint()).eval();
    a.diagonal().setZero();
    break;
  }
  case 3: { // block diag 2x2 off-diagonal, permuted
    kind = "perm2x2";
    a.setZero();
    std::vector<int> p(n);
    std::iota(p.begin(), p.end(), 0);
    for (int i = n - 1; i > 0; i--)
      std::swap(p[i], p[r.in(0, i)]);
    for (int i = 0; i + 1 < n; i += 2) {
      S v = Gen<S>::g(r);
      v += v / S(std::abs(v));
      a(p[i], p[i + 1]) = v;
      a(p[i + 1], p[i]) = Eigen::numext::conj(v);
      if (r.coin(0.3))
        a(p[i], p[i]) = S(r.gauss());
    }
    if (n % 2)
      a(p[n - 1], p[n - 1]) = S(r.coin() ? 2. : -2.);
    break;
  }
  case 4: { // dense random plus tiny diagonal
    kind = "tinydiag";
    a = rnd<S>(r, n, n);
    a = (a + a.adjoint()).eval();
    a.diagonal() *= S(1e-9);
    break;
  }
  case 5: { // diagonal / identity like
    kind = "diag";
    a.setZero();
    for (int i = 0; i < n; i++)
      a(i, i) = S((r.coin() ? 1 : -1) * r.logu(1e-1, 1e1));
    break;
  }
  case 6: { // integer, many equal magnitudes (ties in the pivot search)
    kind = "integer";
    for (int tries = 0; tries < 20; tries++) {
      for (int j = 0; j < n; j++)
        for (int i = j; i < n; i++) {
          a(i, j) = S(double(r.in(-1, 1)));
          a(j, i) = a(i, j);
        }
      if (n == 0 || std::abs(a.fullPivLu().determinant()) > 1e-6)
        break;
      a.diagonal().array() += S(3. + n);
    }
    break;
  }
  default: {
    kind = "random";
    a = rnd<S>(r, n, n);
    a = (a + a.adjoint()).eval();
  }
  }
  for (int i = 0; i < n; i++)
    a(i, i) = S(Eigen::numext::real(a(i, i)));
  double sc = r.coin(0.6) ? 1. : r.logu(1e-10, 1e10);
  a *= S(sc);
  return a;
}

template <class S> double nrm(const MatX<S> &a) {
  return a.size() ? a.cwiseAbs().maxCoeff() : 0.;
}
template <class S> bool finite(const MatX<S> &a) {
  for (Index j = 0; j < a.cols(); j++)
    for (Index i = 0; i < a.rows(); i++)
      if (!std::isfinite(std::abs(a(i, j))))
        return false;
  return true;
}

template <class S>
void check_res(const char *what, const MatX<S> &A, const MatX<S> &X, const MatX<S> &B, const std::string &kind) {
  using R = typename Eigen::NumTraits<S>::Real;
  Index n = A.rows();
  if (n == 0)
    return;
  double num = nrm<S>(A * X - B);
  double den = double(n) * double(nrm<S>(A)) * double(nrm<S>(X)) + double(nrm<S>(B));
  double tol = double(std::numeric_limits<R>::epsilon()) * double(64 + 2 * n); // observed: below 4 epsilon
  count("residuals");
  VCHECK(finite<S>(X) && num <= tol * den, cat("residual.", what), Gen<S>::nm(), " n=", n, " kind=", kind,
         " backward error ", num / den, " tol ", tol);
}

template <class S, int UpLo = Eigen::Lower> void factor_case(long, Rng &r) {
  using BK = Eigen::BunchKaufman<MatX<S>, UpLo>;
  int rounds = r.in(1, 3);
  std::unique_ptr<BK> fac;
  uint64_t h = 0;
  for (int round = 0; round < rounds; round++) {
    int n = pick_size(r);
    std::string kind;
    MatX<S> A = herm<S>(r, n, kind);
    MatX<S> in = A;
    // only the lower triangle is part of the contract
    bool poison = r.coin();
    if (poison)
      for (int j = 0; j < n; j++)
        for (int i = 0; i < j; i++)
          (UpLo == Eigen::Lower ? in(i, j) : in(j, i)) = S(std::numeric_limits<double>::quiet_NaN());
    const MatX<S> in0 = in;
    phase("bk-compute");
    if (!fac) {
      switch (r.in(0, 2)) {
      case 0:
        fac = std::make_unique<BK>();
        fac->compute(in);
        break;
      case 1:
        fac = std::make_unique<BK>(Eigen::Index(n));
        fac->compute(in);
        break;
      default:
        fac = std::make_unique<BK>(in);
      }
    } else
      fac->compute(in);
    h = hcomb(h, hcomb(n, std::hash<std::string>()(kind)));
    for (int j = 0; j < n; j++)
      for (int i = j; i < n; i++)
        if (UpLo == Eigen::Lower ? !(in(i, j) == in0(i, j)) : !(in(j, i) == in0(j, i))) {
          violation("input-modified", "compute changed its argument");
          i = j = n;
        }
    // reference reciprocal condition number
    if (n) {
      Eigen::FullPivLU<MatX<S>> lu(A);
      auto dg = lu.matrixLU().diagonal().cwiseAbs();
      using R = typename Eigen::NumTraits<S>::Real;
      if (!(dg.minCoeff() > 1e4 * std::numeric_limits<R>::epsilon() * n * dg.maxCoeff())) {
        count("skipped-singular");
        continue;
      }
    }
    VCHECK(fac->info() == Eigen::Success, "info", "nonsingular ", kind, " n=", n);
    VCHECK(fac->rows() == n && fac->cols() == n, "shape", n);
    if (fac->info() != Eigen::Success)
      continue;
    count(cat("factor.", n > 32 ? "blocked" : "unblocked"));
    count(cat("kind.", kind));
    int n2 = 0;
    for (int i = 0; i < n; i++)
      n2 += fac->pivots()[i] < 0;
    VCHECK(n2 % 2 == 0, "pivot-pairs", n2);
    count("pivots2x2", n2 / 2);
    int nr = r.many(1, 4, 40);
    MatX<S> B = rnd<S>(r, n, nr), X;
    if (r.coin(0.2) && n) { // identity columns
      B.setZero();
      for (int j = 0; j < nr; j++)
        B(r.in(0, n - 1), j) = S(1);
    }
    phase("bk-solve");
    X = fac->solve(B);
    check_res<S>("solve", A, X, B, kind);
    MatX<S> X2 = fac->solve(B);
    VCHECK((X - X2).cwiseAbs().sum() == 0 || n == 0, "solve-repeat", "same factor, different answer");
    if constexpr (Eigen::NumTraits<S>::IsComplex) {
      phase("bk-solve-adjoint");
      MatX<S> Xa = fac->adjoint().solve(B);
      check_res<S>("adjoint", MatX<S>(A.adjoint()), Xa, B, kind);
    }
    phase("bk-solveInPlace");
    MatX<S> Y = B;
    bool ok = fac->solveInPlace(Y);
    VCHECK(ok, "solveInPlace-flag", kind);
    check_res<S>("inplace", A, Y, B, kind);
    Eigen::Matrix<S, -1, 1> y = B.col(0);
    fac->solveInPlace(y);
    check_res<S>("inplace-vec", A, MatX<S>(y), MatX<S>(B.leftCols(1)), kind);
    // view into a larger matrix: surroundings untouched
    MatX<S> big(n + 3, nr + 2);
    big.setConstant(S(7));
    big.block(1, 1, n, nr) = B;
    {
      auto v = big.block(1, 1, n, nr);
      fac->solveInPlace(v);
    }
    check_res<S>("inplace-block", A, MatX<S>(big.block(1, 1, n, nr)), B, kind);
    MatX<S> ring = big;
    ring.block(1, 1, n, nr).setConstant(S(7));
    VCHECK((ring.array() - S(7)).abs().sum() == 0, "inplace-block-overrun", "solveInPlace wrote outside its block");
    // copies are independent
    if (r.coin(0.3)) {
      BK cp(*fac);
      MatX<S> I = MatX<S>::Identity(3, 3);
      fac->compute(I);
      MatX<S> Xc = cp.solve(B);
      check_res<S>("copy", A, Xc, B, kind);
      cp = *fac;
      MatX<S> z = cp.solve(MatX<S>(I));
      check_res<S>("copy-assign", I, z, I, kind);
    }
  }
  nontrivial(h);
  sample(cat(Gen<S>::nm(), " rounds=", rounds));
}

template <class S> void hostile_case(long, Rng &r) {
  using BK = Eigen::BunchKaufman<MatX<S>>;
  int n = r.coin(0.5) ? r.in(1, 6) : pick_size(r);
  if (n == 0)
    n = 1;
  std::string kind;
  MatX<S> A = herm<S>(r, n, kind);
  const double inf = std::numeric_limits<double>::infinity();
  const double nan = std::numeric_limits<double>::quiet_NaN();
  int mode = r.in(0, 4);
  BK fac;
  switch (mode) {
  case 0: { // exactly singular: zero row/column(s)
    int c = r.in(1, std::max(1, n / 2));
    for (int q = 0; q < c; q++) {
      int i = r.in(0, n - 1);
      A.row(i).setZero();
      A.col(i).setZero();
    }
    break;
  }
  case 1:
    A.setZero();
    break;
  case 2: { // a few NaNs
    int c = r.in(1, 3);
    for (int q = 0; q < c; q++) {
      int i = r.in(0, n - 1), j = r.in(0, i);
      if (r.coin(0.3))
        i = j = n - 1;
      A(i, j) = S(nan);
    }
    break;
  }
  case 3: {
    int i = r.in(0, n - 1), j = r.in(0, i);
    A(i, j) = S(r.coin() ? inf : -inf);
    break;
  }
  default:
    A.setConstant(S(r.coin() ? nan : inf));
  }
  phase(cat("bk-hostile-", mode));
  fac.compute(A);
  count(cat("hostile.", mode, fac.info() == Eigen::Success ? ".success" : ".issue"));
  if (mode <= 1)
    VCHECK(fac.info() != Eigen::Success, "singular-accepted",
           Gen<S>::nm(), " n=", n, " matrix with a zero row and column reported Success");
  if (fac.info() == Eigen::Success) {
    MatX<S> B = rnd<S>(r, n, 2);
    MatX<S> X = fac.solve(B);
    if (A.hasNaN())
      VCHECK(!finite<S>(X), "nan-swallowed", "NaN matrix gives a finite solution with Success, n=", n);
  }
  // the object recovers
  phase("bk-recover");
  int m = r.in(1, 40);
  MatX<S> G = MatX<S>::Identity(m, m) * S(2);
  fac.compute(G);
  VCHECK(fac.info() == Eigen::Success, "recover", "object unusable after a failed factorisation");
  MatX<S> B = rnd<S>(r, m, 1), X = fac.solve(B);
  check_res<S>("recover", G, X, B, "identity");
  nontrivial(hcomb(n, 1000 + mode));
}

int main(int argc, char **argv) {
  parse_args(argc, argv);
  long k = ctx().thorough ? 12 : 1;
#if VF_REAL
  run_cases("real", 1200 * k, factor_case<double>);
  run_cases("hostile-real", 800 * k, hostile_case<double>);
#elif VF_UPPER
  run_cases("upper", 300 * k, factor_case<double, Eigen::Upper>);
#else
  run_cases("complex", 600 * k, factor_case<cd>);
  run_cases("hostile-complex", 400 * k, hostile_case<cd>);
#endif
  return finish();
}

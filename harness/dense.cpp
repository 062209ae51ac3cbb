// C09: the dense LDLT factorisation.
#include "common.hpp"
#include "proxsuite-nlp/linalg/dense.hpp"
using namespace vf;
using namespace proxsuite::nlp;
using DL = linalg::DenseLDLT<double>;
static const double EPS = std::numeric_limits<double>::epsilon();

static int pick_size(Rng &r) {
  static const std::vector<int> edge = {126, 127, 128, 129, 130, 131, 191, 192, 193};
  double u = r.u01();
  if (u < 0.55)
    return r.in(0, 14);
  if (u < 0.75)
    return r.in(15, 125);
  if (u < 0.95)
    return r.pick(edge);
  static const std::vector<int> big = {255, 256, 257, 258, 259, 300};
  return r.pick(big);
}
// symmetric matrix for which elimination without pivoting is stable in the
// given order; returns expected number of positive / negative pivots
static M stable_sym(Rng &r, int n, int &np, int &nn, std::string &kind) {
  M a(n, n);
  switch (r.in(0, 4)) {
  case 0: {
    kind = "spd";
    M g = r.mat(n, n);
    a = g * g.transpose() / std::max(1, n) + r.logu(1e-3, 1.) * M::Identity(n, n);
    np = n, nn = 0;
    break;
  }
  case 1: {
    kind = "negdef";
    M g = r.mat(n, n);
    a = -(g * g.transpose() / std::max(1, n) + r.logu(1e-3, 1.) * M::Identity(n, n));
    np = 0, nn = n;
    break;
  }
  case 2: { // quasi-definite
    kind = "quasidef";
    int m = r.in(0, n), p = n - m;
    M g = r.mat(p, p), j = r.mat(m, p);
    a.setZero();
    a.topLeftCorner(p, p) = g * g.transpose() / std::max(1, p) + 0.3 * M::Identity(p, p);
    a.bottomLeftCorner(m, p) = j;
    a.topRightCorner(p, m) = j.transpose();
    a.bottomRightCorner(m, m).diagonal().setConstant(-r.logu(1e-3, 1.));
    np = p, nn = m;
    break;
  }
  case 3: { // explicit L D L^T
    kind = "explicit";
    M l = M::Identity(n, n);
    for (int j = 0; j < n; j++)
      for (int i = j + 1; i < n; i++)
        l(i, j) = r.uni(-1, 1) / (n > 30 ? std::sqrt(double(n)) : 2.);
    V d(n);
    np = nn = 0;
    for (int i = 0; i < n; i++) {
      d[i] = (r.coin() ? 1 : -1) * r.logu(0.1, 10);
      (d[i] > 0 ? np : nn)++;
    }
    a = l * d.asDiagonal() * l.transpose();
    break;
  }
  default: { // diagonally dominant, random signs
    kind = "diagdom";
    a = r.mat(n, n);
    a = (a + a.transpose()).eval();
    a.diagonal().setZero();
    np = nn = 0;
    for (int i = 0; i < n; i++) {
      int s = r.coin() ? 1 : -1;
      (s > 0 ? np : nn)++;
      a(i, i) = s * (a.row(i).cwiseAbs().sum() + 1.);
    }
  }
  }
  a = (0.5 * (a + a.transpose())).eval();
  double u = r.u01();
  a *= u < 0.6 ? 1. : u < 0.8 ? r.logu(1e-8, 1e8) : r.logu(1e-140, 1e140);
  return a;
}
template <class B1, class X1, class A1>
static void residual(const char *what, const A1 &A, const X1 &X, const B1 &B, const std::string &kind) {
  Index n = A.rows();
  if (!n || !X.cols())
    return;
  double num = maxabs((A * X - B).eval());
  double den = double(n) * maxabs(A) * maxabs(X) + maxabs(B);
  double tol = EPS * double(64 + 2 * n); // observed: below 2 epsilon
  count("residuals");
  VCHECK(num <= tol * den, cat("residual.", what), "n=", n, " kind=", kind, " err=", num / den, " tol=", tol);
}
static int expected_sign(int np, int nn) {
  using S = linalg::SignMatrix;
  return np && nn ? int(S::Indefinite) : np ? int(S::PositiveSemiDef) : nn ? int(S::NegativeSemiDef) : int(S::ZeroSign);
}

static void one(long, Rng &r) {
  std::unique_ptr<DL> f;
  int rounds = r.in(1, 3);
  uint64_t h = 0;
  for (int k = 0; k < rounds; k++) {
    int n = pick_size(r), np, nn;
    std::string kind;
    M A = stable_sym(r, n, np, nn, kind);
    h = hcomb(h, hcomb(n, std::hash<std::string>()(kind)));
    M in = A;
    bool poison = r.coin();
    if (poison)
      for (int j = 0; j < n; j++)
        for (int i = 0; i < j; i++)
          in(i, j) = std::numeric_limits<double>::quiet_NaN();
    M in0 = in;
    phase("dense-compute");
    bool viaref = r.coin(0.3);
    if (!f) {
      switch (r.in(0, 2)) {
      case 0:
        f = std::make_unique<DL>();
        f->compute(in);
        break;
      case 1:
        f = std::make_unique<DL>(Index(n));
        f->compute(in);
        break;
      default:
        f = std::make_unique<DL>(Eigen::Ref<M>(in));
      }
    } else if (viaref) { // a block of a larger matrix
      M big = M::Constant(n + 3, n + 2, 5.);
      big.block(2, 1, n, n) = in;
      f->compute(big.block(2, 1, n, n));
    } else
      f->compute(in);
    for (int j = 0; j < n; j++)
      for (int i = j; i < n; i++)
        if (in(i, j) != in0(i, j)) {
          violation("input-modified", cat("n=", n));
          i = j = n;
        }
    count(cat("kind.", kind));
    count(n > 128 ? "blocked" : "unblocked");
    VCHECK(f->info() == Eigen::Success, "info", kind, n);
    VCHECK(int(f->sign()) == expected_sign(np, nn), "sign", "kind=", kind, " n=", n, " round=", k, " got ",
           int(f->sign()), " expected ", expected_sign(np, nn));
    V d = f->vectorD();
    VCHECK(d.size() == n, "vectorD-size", d.size(), " ", n);
    int gp = 0, gn = 0;
    for (Index i = 0; i < d.size(); i++)
      gp += d[i] > 0, gn += d[i] < 0;
    VCHECK(gp == np && gn == nn, "vectorD-signs", "kind=", kind, " n=", n, " got ", gp, "+/", gn, "- expected ", np, "+/",
           nn, "-");
    phase("dense-solve");
    int nr = r.many(1, 3, 40);
    M B = r.mat(n, nr);
    M X = f->solve(B);
    residual("solve", A, X, B, kind);
    M Y = B;
    VCHECK(f->solveInPlace(Y), "flag", kind);
    VCHECK(bitEq(X, Y), "solve-vs-inplace", kind);
    V b = B.col(0), y = b;
    f->solveInPlace(y);
    residual("vector", A, y, b, kind);
    M big = M::Constant(n + 3, nr + 2, 7.);
    big.block(1, 1, n, nr) = B;
    {
      auto v = big.block(1, 1, n, nr);
      f->solveInPlace(v);
    }
    residual("block", A, M(big.block(1, 1, n, nr)), B, kind);
    big.block(1, 1, n, nr).setConstant(7.);
    VCHECK(bitEq(big, M::Constant(n + 3, nr + 2, 7.)), "overrun", n);
    // Elimination without pivoting commutes with a rescaling of the unknowns by
    // powers of two: no absolute threshold may enter
    if (r.coin(0.5)) {
      phase("dense-rescaled");
      V sc(n);
      int lim = r.coin() ? 20 : 200;
      for (int i = 0; i < n; i++)
        sc[i] = std::ldexp(1., r.in(-lim, lim));
      M As = sc.asDiagonal() * A * sc.asDiagonal();
      DL g;
      g.compute(As);
      VCHECK(g.info() == Eigen::Success && int(g.sign()) == int(f->sign()), "rescaled-sign", "kind=", kind, " n=", n);
      M Xs = sc.asDiagonal() * g.solve(M(sc.asDiagonal() * B));
      bool fine = n == 0 || maxdiff(Xs, X) <= 1e-6 * maxabs(X);
      VCHECK(fine, "rescaled-solve", "kind=", kind, " n=", n, " err=", n ? maxdiff(Xs, X) / maxabs(X) : 0.);
      count("rescaled");
    }
    // a trailing unknown which appears nowhere: semidefinite of the same sign,
    // and its component of the (minimum-norm) solution is zero
    if (n <= 60 && r.coin(0.3)) {
      phase("dense-trailing-zero");
      M Az = M::Zero(n + 1, n + 1), Bz = M::Zero(n + 1, nr);
      Az.topLeftCorner(n, n) = A;
      Bz.topRows(n) = B;
      DL g;
      g.compute(Az);
      VCHECK(g.info() == Eigen::Success && int(g.sign()) == expected_sign(np, nn), "zero-sign", "kind=", kind, " n=", n,
             " got ", int(g.sign()));
      M Xz = g.solve(Bz);
      residual("trailing-zero", Az, Xz, Bz, kind);
      VCHECK(Xz.row(n).isZero(0), "zero-component", "kind=", kind, " n=", n);
      count("trailing-zero");
    }
    // reconstruction
    phase("dense-reconstruct");
    M R = f->reconstructedMatrix();
    VCHECK(R.rows() == n && R.cols() == n, "reconstruct-size", n);
    double e = n ? maxabs((R - A).eval()) : 0.;
    double sc = n ? maxabs(A) : 1.;
    VCHECK(e <= EPS * (64 + 2 * n) * std::max(sc, 1e-300) * (kind == "quasidef" ? 200. : 1.),
           "reconstruct", "kind=", kind, " n=", n, " err=", e / sc);
    // copies
    if (r.coin(0.3)) {
      DL c(*f);
      int m = r.in(1, 5);
      f->compute(M::Identity(m, m));
      M Z = c.solve(B);
      VCHECK(bitEq(Z, X), "copy", "copy changed with the original");
      c = *f;
      M q = r.mat(m, 1), w = c.solve(q);
      residual("copy-assign", M(M::Identity(m, m)), w, q, "id");
    }
  }
  nontrivial(h);
  sample(cat("rounds=", rounds, " hash=", h));
}

int main(int argc, char **argv) {
  parse_args(argc, argv);
  run_cases("dense-ldlt", ctx().thorough ? 12000 : 1200, one);
  return finish();
}

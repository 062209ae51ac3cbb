// C12: structured product and block triangular solve kernels.
#include "common.hpp"
#include "proxsuite-nlp/linalg/block-triangular.hpp"
using namespace vf;
using namespace proxsuite::nlp;
using namespace proxsuite::nlp::linalg;
static const double EPS = std::numeric_limits<double>::epsilon();
static const char *KN[] = {"Zero", "Diag", "TriL", "TriU", "Dense"};

static M structured(Rng &r, BlockKind k, int m, int n) {
  M a = r.mat(m, n);
  for (int j = 0; j < n; j++)
    for (int i = 0; i < m; i++) {
      bool keep = k == Dense || (k == Diag && i == j) || (k == TriL && i >= j) || (k == TriU && i <= j);
      if (!keep)
        a(i, j) = 0;
    }
  return a;
}

/// zero rows, columns and leading parts, as sparse right-hand sides have
static void sparsify(Rng &r, M &a) {
  if (r.coin(0.6) || !a.size())
    return;
  switch (r.in(0, 4)) {
  case 0:
    a.col(r.in(0, int(a.cols()) - 1)).setZero();
    break;
  case 1:
    a.row(r.in(0, int(a.rows()) - 1)).setZero();
    break;
  case 2: { // a leading or trailing part of one column or of all of them
    int q = r.in(1, int(a.rows()));
    int c = r.coin() ? 0 : r.in(0, int(a.cols()) - 1), nc = r.coin() ? int(a.cols()) - c : 1;
    if (r.coin(0.7))
      a.block(0, c, q, nc).setZero();
    else
      a.block(a.rows() - q, c, q, nc).setZero();
    break;
  }
  case 3:
    a.setZero();
    if (r.coin(0.7))
      a(r.in(0, int(a.rows()) - 1), r.in(0, int(a.cols()) - 1)) = 1;
    break;
  default:
    for (int i = 0; i < a.size(); i++)
      if (r.coin())
        a.data()[i] = 0;
  }
  count("sparse-operands");
}
static void gemmt_case(long ci, Rng &r) {
  BlockKind lk = BlockKind(ci % 5), rk = BlockKind((ci / 5) % 5);
  int k = r.many(1, 7, 70);
  bool ls = lk != Dense && lk != Zero, rs = rk != Dense && rk != Zero;
  int m = ls ? k : r.many(1, 7, 70), n = rs ? k : r.many(1, 7, 70);
  M L = structured(r, lk, m, k), R = structured(r, rk, n, k), D = r.mat(m, n);
  sparsify(r, L);
  sparsify(r, R);
  sparsify(r, D);
  for (auto *q : {&L, &R}) { // keep the declared structure
    BlockKind kd = q == &L ? lk : rk;
    for (int j = 0; j < q->cols(); j++)
      for (int i = 0; i < q->rows(); i++)
        if (kd == Zero || (kd == Diag && i != j) || (kd == TriL && i < j) || (kd == TriU && i > j))
          (*q)(i, j) = 0;
  }
  double alpha = r.coin(0.05) ? 0. : r.coin(0.4) ? -1. : r.coin(0.3) ? 1. : r.gauss();
  LM ref = D.cast<long double>() + (long double)alpha * (L.cast<long double>() * R.cast<long double>().transpose());
  phase(cat("gemmt-", KN[lk], "-", KN[rk]));
  M out = D, L0 = L, R0 = R;
  // operands as used by the block solver: views into one big matrix
  if (r.coin(0.5)) {
    M big = r.mat(2 * m + 2, std::max(k, n) + n + 3);
    auto dst = big.block(1, 2, m, n);
    dst = D;
    M keep = big;
    backend::gemmt(dst, L, R, lk, rk, alpha);
    out = dst;
    dst = D;
    VCHECK(bitEq(big, keep), cat("gemmt-overrun.", KN[lk], ".", KN[rk]), "wrote outside the destination");
  } else if (r.coin(0.5)) {
    M Rt = R.transpose();
    backend::gemmt(out, L, Rt.transpose(), lk, rk, alpha);
  } else {
    backend::gemmt(out, L, R, lk, rk, alpha);
  }
  VCHECK(bitEq(L, L0) && bitEq(R, R0), "gemmt-inputs", KN[lk], KN[rk]);
  double e = maxdiff(out, ref.cast<double>());
  VCHECK(e <= 60 * EPS * (k + 2) * (maxabs(D) + std::abs(alpha) * k * maxabs(L) * maxabs(R) + 1e-300),
         cat("gemmt.", KN[lk], ".", KN[rk]), m, "x", k, " * ", k, "x", n, " err=", e);
  count(cat("gemmt.", KN[lk], ".", KN[rk]));
  nontrivial(hcomb(ci % 25, hcomb(m, hcomb(n, k))));
}

template <int Mode> static void tri_case(Rng &r, const char *nm) {
  constexpr bool low = (Mode & Eigen::Lower) == Eigen::Lower;
  constexpr bool unit = (Mode & Eigen::UnitDiag) == Eigen::UnitDiag;
  int nb = r.many(1, 5, 14);
  std::vector<isize> lens(nb);
  bool equal = r.coin(0.4);
  int eq = r.many(1, 5, 20);
  for (auto &l : lens)
    l = equal ? eq : r.many(1, 5, 30, 0.03);
  SymbolicBlockMatrix s(lens);
  isize n = std::accumulate(lens.begin(), lens.end(), isize(0));
  M T = M::Zero(n, n);
  isize oi = 0;
  bool expect_ok = true;
  bool bad = r.coin(0.1);
  for (int i = 0; i < nb; i++) {
    isize oj = 0;
    for (int j = 0; j < nb; j++) {
      BlockKind k;
      if (i == j) {
        k = r.coin(0.4) ? Diag : (low ? TriL : TriU);
        if (bad && r.coin(0.3)) {
          k = r.coin() ? Dense : Zero;
          expect_ok = false;
        }
      } else if (low ? i < j : i > j)
        k = Zero;
      else {
        std::vector<BlockKind> ks = {Zero, Dense, Dense};
        if (lens[i] == lens[j]) {
          ks.push_back(Diag);
          ks.push_back(TriL);
          ks.push_back(TriU);
        }
        k = r.pick(ks);
      }
      s(i, j) = k;
      M b = structured(r, k, int(lens[i]), int(lens[j]));
      if (i == j) {
        for (isize q = 0; q < lens[i]; q++)
          b(q, q) = unit ? 1. : (r.coin() ? 1 : -1) * r.uni(0.7, 2.);
        if (lens[i] > 1)
          for (isize q = 0; q < lens[i]; q++)
            for (isize p = 0; p < lens[i]; p++)
              if (p != q)
                b(p, q) *= 0.5;
      }
      T.block(oi, oj, lens[i], lens[j]) = b;
      oj += lens[j];
    }
    oi += lens[i];
  }
  M stored = T;
  // entries outside the triangle and a unit diagonal are not read
  for (isize j = 0; j < n; j++)
    for (isize i = 0; i < n; i++)
      if (low ? i < j : i > j)
        stored(i, j) = std::numeric_limits<double>::quiet_NaN();
  if (unit)
    for (isize i = 0; i < n; i++)
      stored(i, i) = r.coin() ? 33. : -2.;
  int nr = r.many(1, 3, 20);
  M B = r.mat(n, nr);
  sparsify(r, B);
  M X = B;
  phase(cat("trisolve-", nm));
  bool ok;
  V keepLens(nb);
  if (r.coin(0.8)) {
    TriangularBlockMatrix<const M, Mode> t(stored, s);
    if (r.coin(0.25)) {
      V x = B.col(0);
      ok = t.solveInPlace(x);
      X.leftCols(1) = x;
      X.conservativeResize(n, 1);
      B.conservativeResize(n, 1);
    } else if (r.coin(0.3)) {
      M big = M::Constant(n + 2, nr + 2, 3.);
      big.block(1, 1, n, nr) = B;
      auto v = big.block(1, 1, n, nr);
      ok = t.solveInPlace(v);
      X = v;
      v.setConstant(3.);
      VCHECK(bitEq(big, M::Constant(n + 2, nr + 2, 3.)), "trisolve-overrun", nm);
    } else
      ok = t.solveInPlace(X);
  } else {
    // the dense fallback path of the same solver
    TriangularBlockMatrix<const M, Mode> t(T, s);
    ok = t.template solveInPlace<M, false>(X);
  }
  VCHECK(ok == expect_ok, cat("trisolve-flag.", nm), "returned ", ok, " expected ", expect_ok);
  if (ok && expect_ok) {
    double e = maxabs((T * X - B).eval());
    VCHECK(e <= 60 * EPS * (n + 2) * (maxabs(T) * n * maxabs(X) + maxabs(B)), cat("trisolve.", nm), "n=", n, " nb=", nb,
           " err=", e);
    count(cat("trisolve.", nm));
  } else
    count("trisolve.refused");
  delete[] s.m_data;
  delete[] s.segment_lens;
  uint64_t h = Mode;
  for (auto l : lens)
    h = hcomb(h, l);
  nontrivial(h);
  sample(cat(nm, " nb=", nb, " n=", n));
}

int main(int argc, char **argv) {
  parse_args(argc, argv);
  long k = ctx().thorough ? 20 : 1;
  run_cases("gemmt", 25 * 400 * k, gemmt_case);
  run_cases("trisolve", 6000 * k, [](long i, Rng &r) {
    switch (i % 4) {
    case 0:
      tri_case<Eigen::Lower>(r, "Lower");
      break;
    case 1:
      tri_case<Eigen::UnitLower>(r, "UnitLower");
      break;
    case 2:
      tri_case<Eigen::Upper>(r, "Upper");
      break;
    default:
      tri_case<Eigen::UnitUpper>(r, "UnitUpper");
    }
  });
  return finish();
}

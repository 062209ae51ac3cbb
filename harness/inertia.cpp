// C08: matrix signatures reported by every factorisation backend, inertia
// counting and the accept/reject decision built on it.
#include "common.hpp"
#include "proxsuite-nlp/prox-solver.hpp"
using namespace vf;
using namespace proxsuite::nlp;
using linalg::isize;

static void count_sig(const Eigen::VectorXi &s, int &p, int &n, int &z, bool &bad) {
  p = n = z = 0;
  bad = false;
  for (Index i = 0; i < s.size(); i++)
    s[i] == 1 ? p++ : s[i] == -1 ? n++ : s[i] == 0 ? z++ : (bad = true, 0);
}
static const char *NM[] = {"dense", "bunchkaufman", "block", "eigen"};
static const LDLTChoice CH[] = {LDLTChoice::DENSE, LDLTChoice::BUNCHKAUFMAN, LDLTChoice::BLOCKSPARSE, LDLTChoice::EIGEN};

/// KKT matrix with known inertia; well conditioned up to a global scale
static M kkt(Rng &r, int np, int nd, int &pos, int &neg, bool quasi) {
  M A = M::Zero(np + nd, np + nd);
  M H = r.spd(np, 0.5, 3.);
  A.topLeftCorner(np, np) = H;
  M J = r.mat(nd, np);
  A.bottomLeftCorner(nd, np) = J;
  A.topRightCorner(np, nd) = J.transpose();
  for (int i = 0; i < nd; i++)
    A(np + i, np + i) = -r.logu(0.05, 1.);
  pos = np, neg = nd;
  if (!quasi) { // indefinite Hessian: inertia from the Schur complement
    A.topLeftCorner(np, np) = r.symInertia(np - np / 2, np / 2, 0, 0.5, 3.);
    Eigen::SelfAdjointEigenSolver<M> es(A);
    pos = neg = 0;
    for (Index i = 0; i < es.eigenvalues().size(); i++)
      es.eigenvalues()[i] > 0 ? pos++ : neg++;
    if (es.eigenvalues().cwiseAbs().minCoeff() < 1e-3)
      return kkt(r, np, nd, pos, neg, quasi);
  }
  return A;
}
static LDLTVariant<double> make(int c, int np, int nd, Rng &r) {
  std::vector<isize> pr, du;
  if (np > 3 && r.coin(0.3)) {
    int a = r.in(1, np - 1);
    pr = {a, np - a};
  } else
    pr = {np};
  int left = nd;
  while (left > 0) {
    int a = du.size() == 3 ? left : r.in(1, left);
    du.push_back(a);
    left -= a;
  }
  return allocate_ldlt_from_sizes<double>(pr, du, CH[c]);
}
static Eigen::VectorXi signature_of(LDLTVariant<double> &v, const M &A, Eigen::VectorXi sg) {
  boost::apply_visitor([&](auto &f) { f.compute(A); }, v);
  boost::apply_visitor(ComputeSignatureVisitor{sg}, v);
  return sg;
}
static void backends(long ci, Rng &r) {
  int c = int(ci % 4);
  bool big = r.coin(0.15);
  int np = r.in(1, big ? 60 : 9), nd = r.in(0, big ? 60 : 7);
  int n = np + nd;
  auto v = make(c, np, nd, r);
  Eigen::VectorXi prev(n);
  prev.setConstant(7);
  int rounds = r.in(1, 3);
  for (int k = 0; k < rounds; k++) {
    int pos, neg;
    // without pivoting only quasi-definite orderings are guaranteed stable
    bool quasi = c != 1 || r.coin();
    M A = kkt(r, np, nd, pos, neg, quasi);
    double sc = r.coin(0.3) ? 1. : r.coin(0.1) ? r.logu(1e-250, 1e250) : r.logu(1e-12, 1e12);
    A *= sc;
    phase(cat("signature-", NM[c]));
    Eigen::VectorXi s = signature_of(v, A, prev);
    int p, m, z;
    bool bad;
    count_sig(s, p, m, z, bad);
    VCHECK(s.size() == n && !bad, cat("signature-values.", NM[c]), s.size());
    VCHECK(p == pos && m == neg && z == 0, cat("signature.", NM[c]), "n=", np, "+", nd, " scale=", sc, " got ", p, "/", m, "/",
           z, " expected ", pos, "/", neg, "/0");
    auto t = computeInertiaTuple(s);
    VCHECK(t[0] == p && t[1] == m && t[2] == z, "tuple", NM[c]);
    count(cat("signature.", NM[c]));
    if (pos == np && neg == nd)
      VCHECK(checkInertia(np, nd, s) == INERTIA_OK, cat("decision.", NM[c]), np, "+", nd);
    else {
      count("wrong-inertia");
      VCHECK(checkInertia(np, nd, s) == INERTIA_BAD, cat("decision.", NM[c]), np, "+", nd, " real ", pos, "/", neg);
    }
    prev = s;
    nontrivial(hcomb(hcomb(c, np * 64 + nd), hcomb(k, quasi)));
  }
  sample(cat(NM[c], " ", np, "+", nd));
}
/// 2x2-pivot heavy matrices, for the only backend that pivots
static void pivoted(long, Rng &r) {
  int n = r.coin(0.2) ? r.in(30, 110) : r.in(1, 14);
  int pos, neg, kind = r.in(0, 3);
  M A;
  if (kind == 0) {
    pos = r.in(0, n);
    neg = n - pos;
    A = r.symInertia(pos, neg, 0, 0.1, 10.);
  } else if (kind == 1) { // zero diagonal saddle
    int m = n / 2;
    n = 2 * m;
    if (n == 0)
      return;
    A = M::Zero(n, n);
    M J = r.ortho(m) * (V(V::Constant(m, 1.) + 0.5 * r.vec(m).cwiseAbs())).asDiagonal();
    A.topRightCorner(m, m) = J;
    A.bottomLeftCorner(m, m) = J.transpose();
    pos = neg = m;
  } else { // scaled 2x2 blocks, randomly permuted
    int m = std::max(1, n / 2);
    n = 2 * m;
    A = M::Zero(n, n);
    for (int i = 0; i < m; i++) {
      double s = kind == 2 ? 1. : r.logu(1e-9, 1e9);
      double a = r.uni(-0.3, 0.3), b = r.uni(-0.3, 0.3);
      A(2 * i, 2 * i) = a * s;
      A(2 * i + 1, 2 * i + 1) = b * s;
      A(2 * i, 2 * i + 1) = A(2 * i + 1, 2 * i) = s;
    }
    Eigen::PermutationMatrix<-1, -1> P(n);
    P.setIdentity();
    for (int i = n - 1; i > 0; i--)
      std::swap(P.indices()[i], P.indices()[r.in(0, i)]);
    A = (P * A * P.transpose()).eval();
    pos = neg = m;
  }
  double sc = r.coin(0.1) ? r.logu(1e-250, 1e250) : r.logu(1e-12, 1e12);
  A *= sc;
  phase("signature-pivoted");
  BunchKaufman<M> f(A);
  VCHECK(f.info() == Eigen::Success, "pivoted-info", kind, " n=", n);
  Eigen::VectorXi s(r.in(0, n + 4));
  s.setConstant(r.in(-1, 1));
  ComputeSignatureVisitor vis{s};
  vis(f);
  VCHECK(s.size() == n, "pivoted-size", n, " got ", s.size());
  int p, m, z;
  bool bad;
  count_sig(s, p, m, z, bad);
  VCHECK(!bad && p == pos && m == neg && z == 0, "signature.pivoted", "kind=", kind, " n=", n, " scale=", sc, " got ", p, "/", m, "/", z,
         " expected ", pos, "/", neg);
  count("pivoted");
  nontrivial(hcomb(kind, hcomb(n, pos)));
}
/// singular matrices must never be reported as having the right inertia
static void singular(long ci, Rng &r) {
  int np = r.in(1, 6), nd = r.in(1, 6);
  bool big = r.coin(0.3);
  if (big)
    np = r.in(20, 40), nd = r.in(14, 30);
  int n = np + nd;
  int kind = r.in(0, 3);
  M A = M::Zero(n, n);
  int pos, neg;
  if (kind == 0) { // exactly zero rows/columns
    A = kkt(r, np, nd, pos, neg, true);
    int q = r.in(0, n - 1);
    A.row(q).setZero();
    A.col(q).setZero();
  } else if (kind == 1)
    A.setZero();
  else if (kind == 2) { // duplicated integer rows: exact cancellation
    A = M::Zero(n, n);
    for (int i = 0; i < np; i++)
      A(i, i) = 1.;
    // J = 0, dual block 0
  } else { // NaN
    A = kkt(r, np, nd, pos, neg, true);
    int q = r.in(0, n - 1);
    A(q, q) = std::numeric_limits<double>::quiet_NaN();
  }
  int c = int(ci % 4);
  if (kind == 3 && c == 3)
    c = 1;
  auto v = make(c, np, nd, r);
  // leave a valid factorisation behind first
  if (r.coin()) {
    int a, b;
    signature_of(v, kkt(r, np, nd, a, b, true), Eigen::VectorXi());
  }
  phase(cat("singular-", NM[c]));
  // whatever the signature vector held before, e.g. the wanted inertia
  Eigen::VectorXi prev = Eigen::VectorXi::Ones(r.coin() ? n : r.in(0, n + 4));
  for (int i = np; i < prev.size(); i++)
    prev[i] = -1;
  Eigen::VectorXi s = signature_of(v, A, prev);
  VCHECK(s.size() == n, cat("singular-size.", NM[c]), n);
  bool okdec = true;
  try {
    okdec = checkInertia(np, nd, s) != INERTIA_OK;
  } catch (const std::runtime_error &) {
    okdec = false;
  }
  VCHECK(okdec, cat("singular-accepted.", NM[c]), "kind=", kind, " ", np, "+", nd);
  count(cat("singular.", NM[c]));
  nontrivial(hcomb(hcomb(c, kind), n));
}
static void decision(long, Rng &r) {
  int n = r.in(0, 9);
  Eigen::VectorXi s(n);
  int cnt[3] = {0, 0, 0}; // + - 0
  double pz = r.coin() ? 0. : 0.3;
  for (int i = 0; i < n; i++) {
    int k = r.coin(pz) ? 2 : r.in(0, 1);
    cnt[k]++;
    s[i] = k == 0 ? 1 : k == 1 ? -1 : 0;
  }
  auto t = computeInertiaTuple(s);
  VCHECK(t[0] == cnt[0] && t[1] == cnt[1] && t[2] == cnt[2], "tuple", s.transpose());
  for (int np = 0; np <= n; np++) {
    auto f = checkInertia(np, n - np, s);
    auto want = cnt[2] ? INERTIA_HAS_ZEROS : (cnt[0] == np && cnt[1] == n - np) ? INERTIA_OK : INERTIA_BAD;
    VCHECK(f == want, "checkInertia", s.transpose(), " np=", np, " got ", int(f), " want ", int(want));
    count(cat("decision.", int(want)));
  }
  if (n) {
    s[r.in(0, n - 1)] = r.coin() ? 2 : -3;
    bool thrown = false;
    try {
      computeInertiaTuple(s);
    } catch (const std::runtime_error &) {
      thrown = true;
    }
    VCHECK(thrown, "tuple-invalid", s.transpose());
  }
  nontrivial(hcomb(hcomb(cnt[0], cnt[1]), cnt[2]));
}
int main(int argc, char **argv) {
  parse_args(argc, argv);
  bool t = ctx().thorough;
  run_cases("backends", t ? 80000 : 6000, backends);
  run_cases("pivoted", t ? 40000 : 3000, pivoted);
  run_cases("singular", t ? 20000 : 2000, singular);
  run_cases("decision", t ? 20000 : 2000, decision);
  return finish();
}

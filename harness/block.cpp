// C10: block LDLT;  C11: symbolic block algebra.
#include "common.hpp"
#include "proxsuite-nlp/ldlt-allocator.hpp"
using namespace vf;
using namespace proxsuite::nlp;
using namespace proxsuite::nlp::linalg;
static const double EPS = std::numeric_limits<double>::epsilon();
using BL = BlockLDLT<double>;

struct Owned {
  SymbolicBlockMatrix s;
  explicit Owned(isize n) : s(n, n) {}
  Owned(isize n, isize os) : s(n, os) {}
  explicit Owned(SymbolicBlockMatrix o) : s(o) {}
  Owned(const Owned &) = delete;
  ~Owned() {
    delete[] s.m_data;
    delete[] s.segment_lens;
  }
};
static bool inmask(BlockKind k, int i, int j) {
  switch (k) {
  case Zero:
    return false;
  case Diag:
    return i == j;
  case TriL:
    return i >= j;
  case TriU:
    return i <= j;
  case Dense:
    return true;
  }
  return true;
}
using Mask = std::vector<std::vector<char>>;
static Mask mask_of(const SymbolicBlockMatrix &s) {
  int n = 0;
  for (int i = 0; i < s.nsegments(); i++)
    n += s.segment_lens[i];
  Mask m(n, std::vector<char>(n, 0));
  int oi = 0;
  for (int i = 0; i < s.nsegments(); i++) {
    int oj = 0;
    for (int j = 0; j < s.nsegments(); j++) {
      for (int a = 0; a < s.segment_lens[i]; a++)
        for (int b = 0; b < s.segment_lens[j]; b++)
          m[oi + a][oj + b] = inmask(s(i, j), a, b);
      oj += s.segment_lens[j];
    }
    oi += s.segment_lens[i];
  }
  return m;
}
/// random symmetric structure
static std::unique_ptr<Owned> structure(Rng &r, int nb, bool tri, bool zerolen) {
  auto o = std::make_unique<Owned>(isize(nb));
  auto &s = o->s;
  bool equal = r.coin(0.4);
  int base = nb > 7 ? r.in(1, 3) : r.many(1, 5, 24), top = nb > 7 ? 4 : r.many(6, 7, 40, 0.04);
  for (int i = 0; i < nb; i++)
    s.segment_lens[i] = equal ? base : r.in(1, top);
  if (zerolen)
    s.segment_lens[r.in(0, nb - 1)] = 0;
  double pz = r.uni(0.1, 0.9);
  for (int i = 0; i < nb; i++) {
    s(i, i) = r.coin() ? Diag : Dense;
    for (int j = 0; j < i; j++) {
      bool sq = s.segment_lens[i] == s.segment_lens[j];
      BlockKind k = r.coin(pz) ? Zero : Dense;
      if (sq && r.coin(0.4))
        k = Diag;
      if (sq && tri && r.coin(0.4))
        k = r.coin() ? TriL : TriU;
      s(i, j) = k;
      s(j, i) = k == TriL ? TriU : k == TriU ? TriL : k;
    }
  }
  s.performed_llt = false;
  return o;
}
static std::string sstr(const SymbolicBlockMatrix &s) {
  static const char *K = "0\\LUD";
  std::string o;
  for (int i = 0; i < s.nsegments(); i++) {
    o += cat(s.segment_lens[i], ":");
    for (int j = 0; j < s.nsegments(); j++)
      o += K[int(s(i, j))];
    o += " ";
  }
  return o;
}
static uint64_t shash(const SymbolicBlockMatrix &s) { return std::hash<std::string>()(sstr(s)); }
/// symmetric matrix with that pattern for which LDL^T without pivoting is
/// stable under every symmetric permutation
static M fill(Rng &r, const SymbolicBlockMatrix &s, int &np, int &nn, bool quasi) {
  Mask mk = mask_of(s);
  int n = int(mk.size());
  M a = r.mat(n, n);
  for (int j = 0; j < n; j++)
    for (int i = 0; i < n; i++) {
      if (!mk[i][j])
        a(i, j) = 0;
      if (i < j)
        a(i, j) = 0;
    }
  a = (M(a.triangularView<Eigen::StrictlyLower>()) + M(a.triangularView<Eigen::StrictlyLower>()).transpose()).eval();
  np = nn = 0;
  std::vector<int> sg(n);
  int mode = r.in(0, 2);
  for (int i = 0; i < n; i++)
    sg[i] = mode == 0 ? 1 : mode == 1 ? -1 : r.coin() ? 1 : -1;
  if (quasi && n) { // signs blockwise; coupling between the two groups free
    int off = 0;
    for (int b = 0; b < s.nsegments(); b++) {
      int g = r.coin() ? 1 : -1;
      for (int k = 0; k < s.segment_lens[b]; k++)
        sg[off++] = g;
    }
  }
  for (int i = 0; i < n; i++) {
    double w = 0;
    for (int j = 0; j < n; j++)
      if (j != i && (!quasi || sg[i] == sg[j]))
        w += std::abs(a(i, j));
    a(i, i) = sg[i] * (w + r.uni(0.3, 1.));
    (sg[i] > 0 ? np : nn)++;
  }
  if (r.coin(0.3))
    a *= r.coin() ? r.logu(1e-8, 1e8) : r.logu(1e-140, 1e140);
  return a;
}
static int expected_sign(int np, int nn) {
  using S = linalg::SignMatrix;
  return np && nn ? int(S::Indefinite) : np ? int(S::PositiveSemiDef) : nn ? int(S::NegativeSemiDef) : int(S::ZeroSign);
}

#if VF_PROP == 10
static void check_factor(Rng &r, BL &f, const M &A, int np, int nn, const std::string &desc, const char *tag) {
  int n = int(A.rows());
  M in = A;
  if (r.coin()) // only the lower triangle is documented as read
    for (int j = 0; j < n; j++)
      for (int i = 0; i < j; i++)
        in(i, j) = std::numeric_limits<double>::quiet_NaN();
  M in0 = in;
  phase("block-compute");
  if (r.coin(0.3)) {
    M big = M::Constant(n + 3, n + 2, 5.);
    big.block(2, 1, n, n) = in;
    f.compute(big.block(2, 1, n, n));
  } else
    f.compute(in);
  VCHECK(std::memcmp(in.data(), in0.data(), sizeof(double) * n * n) == 0, "input-modified", desc);
  VCHECK(f.info() == Eigen::Success, cat("info.", tag), desc);
  if (f.info() != Eigen::Success)
    return;
  count(cat("factorised.", tag));
  phase("block-sign");
  VCHECK(int(f.sign()) == expected_sign(np, nn), cat("sign.", tag), desc, " np=", np, " nn=", nn, " got ", int(f.sign()));
  V d = f.vectorD();
  int gp = 0, gn = 0;
  for (int i = 0; i < d.size(); i++)
    gp += d[i] > 0, gn += d[i] < 0;
  VCHECK(d.size() == n && gp == np && gn == nn, cat("vectorD.", tag), desc, " ", gp, "/", gn, " expected ", np, "/", nn);
  phase("block-solve");
  int nr = r.many(1, 3, 20);
  M B = r.mat(n, nr);
  M X = f.solve(B);
  Eigen::PartialPivLU<M> lu;
  if (n) {
    double cond = maxabs(A) * maxabs(A.inverse().eval()) * n;
    double e = maxabs((A * X - B).eval()), den = n * maxabs(A) * maxabs(X) + maxabs(B);
    VCHECK(e <= 200 * EPS * den, cat("solve.", tag), desc, " relres=", e / den);
    M ref = A.partialPivLu().solve(B);
    VCHECK(maxdiff(X, ref) <= 1e-10 * (1 + cond) * maxabs(ref), cat("solve-ref.", tag), desc);
    M Y = B;
    VCHECK(f.solveInPlace(Y), cat("flag.", tag), desc);
    VCHECK(maxdiff(X, Y) <= 1e-12 * maxabs(X), cat("solve-vs-inplace.", tag), desc);
    V b = B.col(0);
    V y = b;
    VCHECK(f.solveInPlace(y), cat("flag-vec.", tag), desc);
    VCHECK(maxdiff(y, X.col(0)) <= 1e-12 * maxabs(X), cat("solve-vector.", tag), desc);
    M big = M::Constant(n + 3, nr + 2, 7.);
    big.block(1, 1, n, nr) = B;
    {
      auto v = big.block(1, 1, n, nr);
      f.solveInPlace(v);
    }
    VCHECK(maxdiff(M(big.block(1, 1, n, nr)), X) <= 1e-12 * maxabs(X), cat("solve-block.", tag), desc);
    big.block(1, 1, n, nr).setConstant(7.);
    VCHECK(bitEq(big, M::Constant(n + 3, nr + 2, 7.)), cat("overrun.", tag), desc);
    phase("block-reconstruct");
    M R = f.reconstructedMatrix();
    VCHECK(maxdiff(R, A) <= (tag[0] == 'k' ? 8000. : 800.) * EPS * maxabs(A), cat("reconstruct.", tag), desc, " err=", maxdiff(R, A) / maxabs(A));
  }
  phase("block");
}
static void check_perm(BL &f, const SymbolicBlockMatrix &in, const std::string &desc) {
  auto &p = f.blockPermIndices();
  int nb = int(in.nsegments());
  std::vector<int> seen(nb, 0);
  for (auto k : p) {
    if (k >= 0 && k < nb)
      seen[size_t(k)]++;
  }
  for (int i = 0; i < nb; i++)
    VCHECK(seen[i] == 1, "block-perm", desc);
  // scalar permutation agrees with the block one
  std::vector<isize> start(nb, 0);
  for (int i = 1; i < nb; i++)
    start[i] = start[i - 1] + in.segment_lens[i - 1];
  std::vector<isize> want;
  for (auto k : p)
    for (isize q = 0; q < in.segment_lens[k]; q++)
      want.push_back(start[k] + q);
  auto idx = f.permutationP().indices();
  bool ok = idx.size() == isize(want.size());
  for (isize i = 0; ok && i < idx.size(); i++)
    ok = idx[i] == want[i];
  VCHECK(ok, "scalar-perm", desc);
  auto &st = f.structure();
  VCHECK(st.performed_llt, "structure-flag", desc);
  for (int i = 0; i < nb; i++)
    VCHECK(st.segment_lens[i] == in.segment_lens[p[i]], "structure-lens", desc);
}

static void block_case(long ci, Rng &r) {
  int nb = r.many(1, 5, 14);
  bool tri = r.coin(0.15), zl = !tri && r.coin(0.08);
  auto o = structure(r, nb, tri, zl);
  auto &s = o->s;
  std::string desc = sstr(s);
  int n = 0;
  for (int i = 0; i < nb; i++)
    n += s.segment_lens[i];
  std::string before = desc;
  auto f = std::make_unique<BL>(isize(n), s);
  int how = r.in(0, nb > 7 ? 2 : 3); // the library tries all permutations
  std::vector<isize> perm(nb);
  std::iota(perm.begin(), perm.end(), 0);
  phase("block-analyze");
  const char *tag = tri ? "tri" : how == 0 ? "natural" : how == 1 ? "given" : how == 2 ? "natural-null" : "best";
  switch (how) {
  case 0:
    f->analyzePattern();
    break;
  case 1:
    for (int i = nb - 1; i > 0; i--)
      std::swap(perm[i], perm[r.in(0, i)]);
    f->setBlockPermutation(perm.data());
    break;
  case 2:
    f->setBlockPermutation();
    break;
  default:
    f->findSparsifyingPermutation();
  }
  VCHECK(sstr(s) == before && !s.performed_llt, "structure-modified", desc);
  if (how == 1)
    VCHECK(f->blockPermIndices() == perm, "given-perm", desc);
  if (tri) { // such structures may be refused, never mis-solved
    if (!f->structure().performed_llt) {
      count("tri.refused-symbolic");
      return;
    }
    int np, nn;
    M A = fill(r, s, np, nn, false);
    f->compute(A);
    if (f->info() != Eigen::Success) {
      count("tri.refused-numeric");
      return;
    }
    count("tri.accepted");
    M B = r.mat(n, 1), X = f->solve(B);
    double e = maxabs((A * X - B).eval()), den = n * maxabs(A) * maxabs(X) + maxabs(B);
    VCHECK(e <= 200 * EPS * den, "solve.tri", desc, " relres=", e / den);
    return;
  }
  if (how != 0)
    check_perm(*f, s, desc);
  int rounds = r.in(1, 3);
  for (int k = 0; k < rounds; k++) {
    int np, nn;
    bool q = r.coin();
    M A = fill(r, s, np, nn, q);
    desc = cat(before, q ? " quasi" : " dominant", " perm=", how, " round=", k);
    // a copy/assignment in the middle behaves like the original
    int cp = r.in(0, 5);
    if (cp == 0) {
      auto g = std::make_unique<BL>(*f);
      f.swap(g);
      g.reset();
      count("copied");
    } else if (cp == 1) {
      // the target previously held another structure, analysed (and perhaps
      // factorised) on its own
      auto oo = structure(r, r.in(1, 5), false, false);
      int m = 0, a1, a2;
      for (int i = 0; i < oo->s.nsegments(); i++)
        m += oo->s.segment_lens[i];
      auto g = std::make_unique<BL>(isize(m), oo->s);
      r.coin() ? (void)g->findSparsifyingPermutation() : g->setBlockPermutation();
      if (r.coin())
        g->compute(fill(r, oo->s, a1, a2, false));
      *g = *f;
      f.swap(g); // go on with the assigned object; the source is destroyed
      g.reset();
      if (r.coin(0.2)) {
        auto &self = *f;
        *f = self;
        count("self-assigned");
      }
      count("assigned");
    } else if (cp == 2) {
      LDLTVariant<double> v(*f), w(v);
      v = w;
      f = std::make_unique<BL>(boost::get<BL>(v));
      count("variant");
    }
    check_factor(r, *f, A, np, nn, desc, zl ? "zerolen" : tag);
    if (r.coin(0.2) && n) { // a copy of a factorised object solves too and is independent
      BL g(*f);
      M B = r.mat(n, 1);
      M x = f->solve(B);
      f->compute(M::Identity(n, n));
      M y = g.solve(B);
      VCHECK(maxdiff(x, y) <= 1e-12 * maxabs(x), "copy-factor", desc);
      VCHECK(g.info() == Eigen::Success && int(g.sign()) == expected_sign(np, nn), "copy-state", desc);
    }
  }
  nontrivial(hcomb(shash(s), how));
  sample(cat(before, " how=", how));
}
static void kkt_case(long, Rng &r) {
  std::vector<isize> pr(r.many(1, 2, 3)), du(r.many(0, 4, 5));
  int np = 0, nd = 0;
  for (auto &x : pr)
    np += (x = r.many(1, 7, 40));
  for (auto &x : du)
    nd += (x = r.many(1, 6, 30));
  phase("kkt-allocate");
  auto v = allocate_ldlt_from_sizes<double>(pr, du, LDLTChoice::BLOCKSPARSE);
  BL &f = boost::get<BL>(v);
  M A = M::Zero(np + nd, np + nd);
  A.topLeftCorner(np, np) = r.spd(np, 0.5, 5.);
  A.bottomLeftCorner(nd, np) = r.mat(nd, np);
  A.topRightCorner(np, nd) = A.bottomLeftCorner(nd, np).transpose();
  for (int i = 0; i < nd; i++)
    A(np + i, np + i) = -r.logu(0.05, 1.);
  Owned o(create_default_block_structure(pr, du));
  Mask m = mask_of(o.s);
  VCHECK(int(m.size()) == np + nd, "default-structure-size", np, nd);
  for (int i = 0; i < np + nd && int(m.size()) == np + nd; i++)
    for (int j = 0; j < np + nd; j++)
      if (A(i, j) != 0)
        VCHECK(m[i][j], "default-structure", i, ",", j, " of ", np, "+", nd);
  check_factor(r, f, A, np, nd, cat("kkt ", np, "+", nd), "kkt");
  nontrivial(hcomb(np * 100 + nd, 77));
  // the same matrix through the other backends
  for (auto ch : {LDLTChoice::DENSE, LDLTChoice::BUNCHKAUFMAN, LDLTChoice::EIGEN}) {
    auto w = allocate_ldlt_from_sizes<double>(pr, du, ch);
    M B = r.mat(np + nd, 2), X = B;
    boost::apply_visitor([&](auto &&g) { g.compute(A); }, w);
    boost::apply_visitor([&](auto &&g) { g.solveInPlace(X); }, w);
    VCHECK(maxabs((A * X - B).eval()) <= 1e-10 * ((np + nd) * maxabs(A) * maxabs(X) + maxabs(B)), "allocated-solve",
           int(ch), " ", np, "+", nd);
    count("allocated");
  }
}
static void leak_case(long, Rng &r) {
  heap_hooks_install();
  uint64_t sd = r.next();
  long leak = leaked_blocks([&] {
    Rng q(sd);
    auto o = structure(q, q.in(1, 4), false, false);
    int n = 0;
    for (int i = 0; i < o->s.nsegments(); i++)
      n += o->s.segment_lens[i];
    BL f(n, o->s);
    q.coin() ? (void)f.findSparsifyingPermutation() : f.setBlockPermutation();
    int a, b;
    M A = fill(q, o->s, a, b, false);
    f.compute(A);
    BL g(f);
    g = f;
    M x = g.solve(M(M::Identity(n, 1)));
    auto v = allocate_ldlt_from_sizes<double>({2, 1}, {3}, LDLTChoice::BLOCKSPARSE);
    auto w = v;
    w = v;
  });
  count("leak-probes");
  VCHECK(leak == 0, "leak", leak, " blocks leaked in 3 repetitions");
}
int main(int argc, char **argv) {
  parse_args(argc, argv);
  bool t = ctx().thorough;
  run_cases("block-ldlt", t ? 60000 : 5000, block_case);
  run_cases("kkt-ldlt", t ? 8000 : 800, kkt_case);
#ifdef VF_ASAN
  run_cases("block-leaks", t ? 300 : 40, leak_case);
#endif
  return finish();
}
#else
// ---------------------------------------------------------------- symbolic
static const BlockKind KINDS[] = {Zero, Diag, TriL, TriU, Dense};
static void algebra(long ci, Rng &) {
  BlockKind a = KINDS[ci % 5], b = KINDS[(ci / 5) % 5];
  int n = 2 + int(ci / 25) % 4;
  auto covers = [&](BlockKind k, const std::function<bool(int, int)> &p) {
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        if (p(i, j) && !inmask(k, i, j))
          return false;
    return true;
  };
  auto best = [&](const std::function<bool(int, int)> &p) { // least kind covering p
    for (BlockKind k : KINDS)
      if (covers(k, p))
        return k;
    return Dense;
  };
  auto pt = [&](int i, int j) { return inmask(a, j, i); };
  auto pa = [&](int i, int j) { return inmask(a, i, j) || inmask(b, i, j); };
  auto pm = [&](int i, int j) {
    for (int k = 0; k < n; k++)
      if (inmask(a, i, k) && inmask(b, k, j))
        return true;
    return false;
  };
  VCHECK(covers(trans(a), pt), "trans-unsound", int(a));
  VCHECK(covers(add(a, b), pa), "add-unsound", int(a), " ", int(b));
  VCHECK(covers(mul(a, b), pm), "mul-unsound", int(a), " ", int(b));
  if (n > 2) {
    VCHECK(trans(a) == best(pt), "trans-loose", int(a));
    VCHECK(add(a, b) == best(pa), "add-loose", int(a), " ", int(b));
    VCHECK(mul(a, b) == best(pm), "mul-loose", int(a), " ", int(b));
  }
  count("kind-pairs");
  nontrivial(hcomb(ci % 25, n));
}
static isize total(const SymbolicBlockMatrix &s) {
  isize c = 0;
  for (auto &row : mask_of(s))
    for (char v : row)
      c += v;
  return c;
}
static std::unique_ptr<Owned> any_structure(Rng &r, int nb, bool pad) {
  auto o = std::make_unique<Owned>(isize(nb), isize(nb + (pad ? r.in(0, 3) : 0)));
  auto &s = o->s;
  for (isize i = 0; i < s.size(); i++)
    s.m_data[i] = Dense; // padding
  bool equal = r.coin();
  int base = r.many(1, 4, 16);
  for (int i = 0; i < nb; i++)
    s.segment_lens[i] = equal ? base : r.many(1, 5, 20);
  for (int i = 0; i < nb; i++)
    for (int j = 0; j < nb; j++)
      s(i, j) = s.segment_lens[i] == s.segment_lens[j] ? KINDS[r.in(0, 4)] : r.coin() ? Zero : Dense;
  return o;
}
static void containers(long, Rng &r) {
  int nb = r.many(1, 5, 12);
  auto o = any_structure(r, nb, true);
  auto &s = o->s;
  s.performed_llt = r.coin();
  std::string d = sstr(s);
  Owned c(s.copy());
  VCHECK(sstr(c.s) == d, "copy", d);
  VCHECK(c.s.performed_llt == s.performed_llt, "copy-flag", d);
  VCHECK(c.s.m_data != s.m_data && c.s.segment_lens != s.segment_lens, "copy-shallow", d);
  Owned t(s.transpose());
  Mask m = mask_of(s), mt = mask_of(t.s);
  bool ok = m.size() == mt.size();
  for (size_t i = 0; ok && i < m.size(); i++)
    for (size_t j = 0; j < m.size(); j++)
      ok = ok && m[i][j] == mt[j][i];
  VCHECK(ok, "transpose", d, " -> ", sstr(t.s));
  VCHECK(s.count_nnz() == total(s), "count_nnz", d, " got ", s.count_nnz(), " want ", total(s));
  int i0 = r.in(0, nb - 1), k = r.in(1, nb - i0);
  auto sub = s.submatrix(i0, k);
  ok = sub.nsegments() == k;
  for (int i = 0; ok && i < k; i++) {
    ok = ok && sub.segment_lens[i] == s.segment_lens[i0 + i];
    for (int j = 0; j < k; j++)
      ok = ok && &sub(i, j) == &s(i0 + i, i0 + j);
  }
  VCHECK(ok, "submatrix", d);
  VCHECK(sub.performed_llt == s.performed_llt, "submatrix-flag", d);
  std::vector<isize> perm(nb);
  std::iota(perm.begin(), perm.end(), 0);
  for (int i = nb - 1; i > 0; i--)
    std::swap(perm[i], perm[r.in(0, i)]);
  Owned out{isize(nb)};
  symbolic_deep_copy(s, out.s, perm.data());
  ok = true;
  for (int i = 0; i < nb; i++) {
    ok = ok && out.s.segment_lens[i] == s.segment_lens[perm[i]];
    for (int j = 0; j < nb; j++)
      ok = ok && out.s(i, j) == s(perm[i], perm[j]);
  }
  VCHECK(ok, "permuted-copy", d);
  VCHECK(sstr(s) == d, "source-modified", d);
  // symmetry test on kinds that are their own transpose
  Owned q(s.copy());
  for (int i = 0; i < nb; i++)
    for (int j = 0; j <= i; j++) {
      if (q.s(i, j) == TriL || q.s(i, j) == TriU)
        q.s(i, j) = Dense;
      q.s(j, i) = q.s(i, j);
    }
  VCHECK(q.s.check_if_symmetric(), "symmetric-no", sstr(q.s));
  if (nb > 1) {
    int i = r.in(1, nb - 1), j = r.in(0, i - 1);
    (r.coin() ? q.s(i, j) : q.s(j, i)) = q.s(i, j) == Dense ? Zero : Dense;
    VCHECK(!q.s.check_if_symmetric(), "symmetric-yes", sstr(q.s));
  }
  std::vector<isize> lens(nb);
  for (int i = 0; i < nb; i++)
    lens[i] = s.segment_lens[i];
  Owned ld{SymbolicBlockMatrix(lens)};
  isize sum = std::accumulate(lens.begin(), lens.end(), isize(0));
  VCHECK(ld.s.count_nnz() == sum * sum, "dense-ctor", sum);
  { // the printed pattern shows exactly the structural entries
    std::ostringstream os;
    struct Redirect {
      std::streambuf *b;
      ~Redirect() { std::cout.rdbuf(b); }
    };
    {
      Redirect g{std::cout.rdbuf(os.rdbuf())};
      print_sparsity_pattern(s);
    }
    std::vector<std::string> want(m.size());
    std::istringstream is(os.str());
    std::string line;
    size_t i = 0, bad = 0;
    for (; std::getline(is, line); i++) {
      std::string w;
      for (size_t j = 0; i < m.size() && j < m.size(); j++)
        w += m[i][j] ? "\u2588\u2588" : "\u2591\u2591";
      bad += line != w;
    }
    VCHECK(i == m.size() && !bad, "printed-pattern", d, "\n", os.str());
    count("printed");
  }
  count("containers");
  nontrivial(shash(s));
}
static void llt_case(long, Rng &r) {
  int nb = r.many(1, 5, 10);
  bool odd = r.coin(0.25);
  auto o = structure(r, nb, odd, false);
  auto &s = o->s;
  if (odd && r.coin(0.5)) {
    int k = r.in(0, nb - 1);
    s(k, k) = std::vector<BlockKind>{Zero, TriL, TriU}[r.in(0, 2)];
  }
  std::string d = sstr(s);
  Mask m = mask_of(s);
  for (size_t i = 0; i < m.size(); i++) { // symmetrise (odd diagonals) & full diagonal
    m[i][i] = 1;
    for (size_t j = 0; j < i; j++)
      m[i][j] = m[j][i] = m[i][j] || m[j][i];
  }
  Owned c(s.copy());
  phase("symbolic-llt");
  bool ok = c.s.llt_in_place();
  VCHECK(ok == c.s.performed_llt, "flag", d);
  if (!odd)
    VCHECK(ok, "refused", d);
  if (!ok) {
    count("llt.refused");
    return;
  }
  count("llt.accepted");
  // scalar symbolic Cholesky of the pattern
  int n = int(m.size());
  for (int k = 0; k < n; k++)
    for (int i = k + 1; i < n; i++)
      if (m[i][k])
        for (int j = k + 1; j <= i; j++)
          if (m[j][k])
            m[i][j] = m[j][i] = 1;
  Mask L = mask_of(c.s);
  std::string got = sstr(c.s);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      if (i >= j && m[i][j] && !L[i][j]) {
        violation("fill-missed", cat(d, " -> ", got, " entry ", i, ",", j));
        return;
      }
      if (i < j && L[i][j]) {
        violation("upper-not-zero", cat(d, " -> ", got, " entry ", i, ",", j));
        return;
      }
    }
  for (int i = 0; i < nb; i++)
    VCHECK(c.s(i, i) == Diag || c.s(i, i) == TriL, "diagonal-kind", d, " -> ", got);
  if (nb > 7)
    count("llt.many-blocks");
  if (!odd) {
    // Diag diagonal blocks that receive no fill stay diagonal
    for (int i = 0; i < nb; i++) {
      bool pure = s(i, i) == Diag;
      for (int j = 0; j < i; j++)
        pure = pure && (c.s(i, j) == Zero || c.s(i, j) == Diag) && (c.s(j, j) == Diag);
      if (pure)
        VCHECK(c.s(i, i) == Diag, "diag-lost", d, " -> ", got);
    }
    if (nb > 7) // the library tries all permutations
      return;
    // best permutation
    Owned best{isize(nb)};
    std::vector<isize> bp(nb, -1), iw(nb);
    phase("symbolic-bestperm");
    auto info = best.s.brute_force_best_permutation(s, bp.data(), iw.data());
    VCHECK(info == Eigen::Success, "bestperm-info", d);
    VCHECK(sstr(s) == d, "bestperm-input", d);
    std::vector<isize> p(nb), srt = bp;
    std::sort(srt.begin(), srt.end());
    std::iota(p.begin(), p.end(), 0);
    VCHECK(srt == p, "bestperm-perm", d);
    isize mn = -1, mine = -1;
    do {
      Owned t{isize(nb)};
      symbolic_deep_copy(s, t.s, p.data());
      t.s.performed_llt = false;
      t.s.llt_in_place();
      isize z = t.s.count_nnz();
      if (mn < 0 || z < mn)
        mn = z;
      if (p == bp)
        mine = z;
    } while (std::next_permutation(p.begin(), p.end()));
    VCHECK(mine == mn, "bestperm-optimal", d, " nnz=", mine, " best=", mn);
    count("bestperm");
    // and through the solver object
    isize tot = 0;
    for (int i = 0; i < nb; i++)
      tot += s.segment_lens[i];
    BL f(tot, s);
    f.findSparsifyingPermutation();
    VCHECK(f.structure().count_nnz() == mn, "solver-structure", d, " nnz=", f.structure().count_nnz(), " best=", mn);
  }
  nontrivial(shash(s));
  sample(cat(d, " -> ", got));
}
int main(int argc, char **argv) {
  parse_args(argc, argv);
  bool t = ctx().thorough;
  run_cases("algebra", 100, algebra);
  run_cases("containers", t ? 40000 : 4000, containers);
  run_cases("symbolic-llt", t ? 60000 : 5000, llt_case);
  return finish();
}
#endif

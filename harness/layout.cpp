// C26 printed output, C27 problem/workspace/results layout, C28 helpers and
// input validation.
#include "common.hpp"
#include <unistd.h>
#include <fcntl.h>
#include "solver.hpp"
#include "proxsuite-nlp/fmt-hessian-approx.hpp"
#include "proxsuite-nlp/version.hpp"
#include "proxsuite-nlp/logger.hpp"
using namespace vf;

/// what fn writes to the process's standard output
template <class F> static std::string captured(F &&fn) {
  static int fd = -1;
  static std::string path = cat("capture-", getpid(), ".txt");
  if (fd < 0) {
    fd = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    ::unlink(path.c_str());
  }
  if (fd < 0)
    throw std::logic_error("cannot capture");
  std::fflush(stdout);
  std::cout.flush();
  int keep = ::dup(1);
  ::lseek(fd, 0, SEEK_SET);
  if (::ftruncate(fd, 0))
    throw std::logic_error("cannot capture");
  ::dup2(fd, 1);
  std::exception_ptr ep;
  try {
    fn();
  } catch (...) {
    ep = std::current_exception();
  }
  std::cout.flush();
  std::fflush(stdout);
  ::dup2(keep, 1);
  ::close(keep);
  off_t n = ::lseek(fd, 0, SEEK_END);
  std::string s(size_t(n), 0);
  ::lseek(fd, 0, SEEK_SET);
  size_t got = 0;
  while (got < s.size()) {
    ssize_t k = ::read(fd, &s[got], s.size() - got);
    if (k <= 0)
      break;
    got += size_t(k);
  }
  if (ep)
    std::rethrow_exception(ep);
  return s;
}
static std::string plain(const std::string &s) { // without colour sequences
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '\x1b') {
      while (i < s.size() && s[i] != 'm')
        i++;
    } else
      o += s[i];
  }
  return o;
}
static std::vector<std::string> split(const std::string &s, const std::string &sep) {
  std::vector<std::string> o;
  size_t p = 0;
  while (true) {
    size_t q = s.find(sep, p);
    if (q == std::string::npos) {
      o.push_back(s.substr(p));
      return o;
    }
    o.push_back(s.substr(p, q - p));
    p = q + sep.size();
  }
}
static std::string trim(const std::string &s) {
  size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t");
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
struct Row {
  bool header = false;
  std::vector<std::string> cells;
  double num(size_t i) const { return std::strtod(cells[i].c_str(), nullptr); }
};
static std::vector<Row> rows(const std::string &out, const std::string &sep, std::vector<std::string> &rest) {
  std::vector<Row> v;
  for (auto &l : split(plain(out), "\n")) {
    if (trim(l).empty())
      continue;
    auto c = split(l, sep);
    if (c.size() < 3) {
      rest.push_back(trim(l));
      continue;
    }
    Row r;
    for (auto &x : c)
      r.cells.push_back(trim(x));
    r.header = !std::isdigit((unsigned char)r.cells[0][0]);
    v.push_back(r);
  }
  return v;
}
/// a printed number represents x (3 digits after the leading one)
static bool shows(double printed, double x, double rel = 6e-4) {
  if (std::isnan(x))
    return std::isnan(printed);
  if (std::isinf(x))
    return printed == x;
  return std::abs(printed - x) <= rel * std::abs(x) + 1e-300 || (std::abs(x) < 1e-300 && std::abs(printed) < 1e-299);
}

#if VF_PROP == 26
static void logger_case(long, Rng &r) {
  BaseLogger lg;
  lg.active = r.coin(0.85);
  if (r.coin(0.3)) {
    lg.COL_WIDTH = unsigned(r.in(1, 20));
    lg.COL_WIDTH_0 = unsigned(r.in(1, 8));
  }
  auto val = [&]() -> double {
    int k = r.in(0, 9);
    return k == 0 ? 0. : k == 1 ? INF : k == 2 ? -INF : k == 3 ? NAN : r.gauss() * r.logu(1e-200, 1e200);
  };
  LogRecord rec{size_t(r.coin(0.4) ? 25 * r.in(0, 40) : r.in(0, 5000)), val(), val(), val(), val(), val(), val(), val(), val(), size_t(r.in(0, 100000))};
  bool start = r.coin(0.3);
  std::string out = captured([&] {
    if (start)
      lg.start();
    lg.log(rec);
  });
  if (!lg.active) {
    VCHECK(out.empty(), "inactive-logger", out);
    count("inactive");
    return;
  }
  std::vector<std::string> rest;
  auto rs = rows(out, lg.join_str, rest);
  VCHECK(rest.empty(), "stray-output", rest.empty() ? "" : rest[0]);
  size_t nh = 0, nd = 0;
  for (auto &x : rs) {
    VCHECK(x.cells.size() == size_t(NUM_KEYS), "columns", x.cells.size(), " ", out);
    if (x.header) {
      nh++;
      for (size_t i = 0; i < x.cells.size() && i < size_t(NUM_KEYS); i++)
        VCHECK(x.cells[i] == BASIC_KEYS[i], "header-cell", x.cells[i], " ", BASIC_KEYS[i]);
    } else
      nd++;
  }
  VCHECK(nd == 1 && !rs.empty() && !rs.back().header, "one-row", out);
  VCHECK(nh == size_t(start) + (rec.iter % 25 == 0), "header-count", nh, " iter=", rec.iter, " start=", start);
  if (rs.empty() || rs.back().cells.size() != size_t(NUM_KEYS))
    return;
  const Row &d = rs.back();
  double want[NUM_KEYS] = {double(rec.iter), rec.step_size, rec.inner_crit, rec.prim_err, rec.dual_err, rec.xreg, rec.dphi0, rec.merit, rec.dM, double(rec.al_iter)};
  for (size_t i = 0; i < size_t(NUM_KEYS); i++)
    VCHECK(shows(d.num(i), want[i], i == 0 || i == 9 ? 1e-12 : i == 8 ? 6e-3 : 6e-4), cat("cell.", BASIC_KEYS[i]), "printed ", d.cells[i], " value ", want[i]);
  count("rows");
  if (nh)
    count("headers");
  nontrivial(hcomb(rec.iter, hdouble(rec.merit)));
}

static void solve_case(long, Rng &r) {
  Nlp p = r.coin() ? gen_convex(r, r.coin(), true) : gen_general(r);
  Config c = gen_config(r, p.vec);
  c.max_iters = size_t(r.in(0, 60));
  auto s = make_solver(*p.prob, c);
  s->verbose = r.coin(0.75) ? (r.coin() ? VERBOSE : VERYVERBOSE) : QUIET;
  s->setup();
  auto rec = std::make_shared<Recorder>(); // every iteration
  std::vector<double> crit; // norm of the uncorrected right-hand side
  rec->extra = [&](const WS &w, const RS &) { crit.push_back(maxabs(V(w.kkt_rhs - w.kkt_rhs_corr))); };
  s->registerCallback(rec);
  for (int k = r.in(-3, 3); k > 0; k--)
    s->registerCallback(std::make_shared<Recorder>());
  ConvergenceFlag flag = UNINIT;
  bool threw = false;
  std::string out = captured([&] {
    try {
      flag = s->solve(p.x0);
    } catch (const std::runtime_error &) {
      threw = true;
    }
  });
  std::vector<std::string> rest;
  auto rs = rows(out, s->logger.join_str, rest);
  size_t steps = s->results_->num_iters;
  std::string what = cat(p.desc, " | ", c.desc(), " steps=", steps);
  if (s->verbose == QUIET) {
    VCHECK(rs.empty(), "quiet-rows", what, " ", out);
    count("quiet");
  } else {
    std::vector<Row> data;
    size_t pos = 0;
    for (auto &x : rs) {
      VCHECK(x.cells.size() == size_t(NUM_KEYS), "columns", x.cells.size(), " ", what);
      if (x.cells.size() != size_t(NUM_KEYS))
        return;
      if (pos == 0)
        VCHECK(x.header, "header-first", what);
      pos++;
      if (!x.header) {
        data.push_back(x);
        if (data.size() % 25 == 0)
          VCHECK(pos >= 2 && rs[pos - 2].header, "header-repeated", data.size(), " ", what);
      }
    }
    VCHECK(data.size() == steps, "row-per-iteration", data.size(), " rows, ", steps, " iterations ", what);
    size_t nh = rs.size() - data.size();
    VCHECK(nh == 1 + data.size() / 25, "header-count", nh, " rows=", data.size());
    for (size_t i = 0; i < data.size() && i < rec->t.size(); i++) {
      const Row &d = data[i];
      const Rec &k = rec->t[i];
      VCHECK(d.num(0) == double(i + 1), "cell.iter", d.cells[0], " expected ", i + 1);
      VCHECK(shows(d.num(1), k.alpha), "cell.step_size", d.cells[1], " ", k.alpha, " ", what);
      VCHECK(shows(d.num(3), k.prim), "cell.prim_err", d.cells[3], " ", k.prim, " ", what);
      VCHECK(shows(d.num(4), k.dual), "cell.dual_err", d.cells[4], " ", k.dual, " ", what);
      VCHECK(shows(d.num(2), crit[i]), "cell.inner_crit", d.cells[2], " ", crit[i], " ", what);
      VCHECK(d.num(5) >= 0, "cell.xreg", d.cells[5]);
      if (c.ldlt == LDLTChoice::BUNCHKAUFMAN && d.num(5) <= s->DELTA_MAX && k.K.rows() <= 24 && k.K.allFinite()) {
        // no regularisation exactly when the matrix has the right inertia, and
        // the printed one provides it (matrices far from singular)
        Index nx = p.space->ndx(), nk = k.K.rows();
        auto inertia = [&](const M &K, bool &clear) {
          Eigen::SelfAdjointEigenSolver<M> es(K, Eigen::EigenvaluesOnly);
          clear = es.info() == Eigen::Success && nk > 0 &&
                  es.eigenvalues().cwiseAbs().minCoeff() > 1e-6 * (1 + es.eigenvalues().cwiseAbs().maxCoeff());
          return (es.eigenvalues().array() > 0).count() == nx;
        };
        bool clear, right = inertia(k.K, clear);
        if (clear)
          VCHECK(right == (d.num(5) == 0), "cell.xreg-needed", d.cells[5], " ", what);
        M Kd = k.K;
        Kd.diagonal().head(nx).array() += d.num(5);
        right = inertia(Kd, clear);
        if (clear) {
          VCHECK(right, "cell.xreg-enough", d.cells[5], " ", what);
          count(d.num(5) > 0 ? "xreg.positive" : "xreg.zero");
        }
      }
      if (i > 0 && rec->t[i - 1].al == k.al) {
        // same subproblem: the merit value before this step is the previous one
        double dm = k.merit - rec->t[i - 1].merit;
        VCHECK(std::abs(d.num(8) - dm) <= 6e-3 * std::abs(dm) + 1e-11 * (1 + std::abs(k.merit) + std::abs(rec->t[i - 1].merit)) || !std::isfinite(dm),
               "cell.dM", d.cells[8], " ", dm, " ", what);
        count("dM");
      }
      VCHECK(shows(d.num(6), k.dmerit), "cell.dphi0", d.cells[6], " ", k.dmerit, " ", what);
      VCHECK(shows(d.num(7), k.merit), "cell.merit", d.cells[7], " ", k.merit, " ", what);
      VCHECK(d.num(9) == double(k.al + 1), "cell.al_iter", d.cells[9], " ", k.al + 1, " ", what);
      count("solver-rows");
    }
    if (data.size() >= 25)
      count("long-runs");
  }
  if (!threw) {
    std::string all;
    for (auto &x : rest)
      all += x + "\n";
    bool conv = all.find("successfully converged") != std::string::npos, mx = all.find("Max number of iterations") != std::string::npos;
    VCHECK(conv == (flag == SUCCESS) && mx == (flag == MAX_ITERS_REACHED), "closing-message", "flag ", int(flag), ": ", all, what);
    count(cat("closing.", int(flag)));
    // the results print what they hold
    std::ostringstream os;
    os << *s->results_;
    std::string t = os.str(), f = fmt::format("{}", *s->results_);
    VCHECK(t == f, "fmt-vs-stream", t, " ", f);
    auto field = [&](const std::string &k) {
      size_t q = t.find("\n  " + k + ":");
      return q == std::string::npos ? std::nan("") : std::strtod(t.c_str() + q + 4 + k.size(), nullptr);
    };
    const RS &R = *s->results_;
    if (steps) {
      VCHECK(shows(field("merit"), R.merit), "results.merit", t);
      VCHECK(shows(field("value"), R.value), "results.value", t);
    }
    VCHECK(field("convergence") == double(int(flag)), "results.flag", t);
    VCHECK(field("num_iters") == double(R.num_iters), "results.num_iters", t);
    VCHECK(shows(field("mu"), R.mu) && shows(field("rho"), R.rho), "results.mu", t);
    VCHECK(shows(field("dual_infeas"), R.dual_infeas) && shows(field("prim_infeas"), R.prim_infeas), "results.infeas", t);
    for (size_t b = 0; b < R.active_set.size(); b++) {
      size_t q = t.find(cat("activeSet[", b, "]:"));
      VCHECK(q != std::string::npos, "results.active-set", b, t);
      if (q == std::string::npos)
        continue;
      std::istringstream is(t.substr(q + cat("activeSet[", b, "]:").size()));
      for (Index i = 0; i < R.active_set[b].size(); i++) {
        int v = -1;
        is >> v;
        VCHECK(v == int(R.active_set[b][i]), "results.active-bit", b, ",", i, t);
      }
    }
    count("results-printed");
  }
  nontrivial(hcomb(c.hash(), hcomb(steps, rs.size())));
}
static void names_case(long, Rng &r) {
  VCHECK(fmt::format("{}", HessianApprox::EXACT) == "EXACT" && fmt::format("{}", HessianApprox::GAUSS_NEWTON) == "GAUSS_NEWTON" &&
             fmt::format("{}", HessianApprox::BFGS) == "BFGS" && fmt::format("{}", HessianApprox::IDENTITY) == "IDENTITY",
         "hessian-names", "");
  VCHECK(fmt::format("{}", SUCCESS) == "0" && fmt::format("{}", UNINIT) == "-1" && fmt::format("{}", MAX_ITERS_REACHED) == "1", "flag-names", "");
  Linesearch<double>::Options o;
  o.armijo_c1 = r.logu(1e-8, 0.5);
  o.contraction_min = r.u01();
  o.contraction_max = r.u01();
  std::ostringstream s;
  s << o;
  double a, b, c;
  int k = std::sscanf(s.str().c_str(), "{armijo_c1 = %lf, contraction_min = %lf, contraction_max = %lf}", &a, &b, &c);
  VCHECK(k == 3 && shows(a, o.armijo_c1) && shows(b, o.contraction_min) && shows(c, o.contraction_max), "options-text", s.str());
  std::string d = r.coin() ? "." : "-";
  auto parts = split(printVersion(d), d);
  VCHECK(parts.size() == 3, "version", printVersion(d));
  int n = r.many(1, 5, 24), nc = r.many(0, 4, 12);
  CostSumTpl<double> sum(n, n);
  std::vector<double> ws;
  for (int i = 0; i < nc; i++) {
    double w = r.in(-30, 30) / 4.;
    ws.push_back(w);
    sum.addComponent(std::make_shared<QuadraticDistanceCostTpl<double>>(PMan(VecSpace(n)), V(V::Zero(n)), M(M::Identity(n, n))), w);
  }
  std::ostringstream t;
  t << sum;
  std::string want = cat("CostSum(num_components=", nc, ", weights=(");
  for (int i = 0; i < nc; i++) {
    std::ostringstream q;
    q << ws[size_t(i)];
    want += (i ? ", " : "") + q.str();
  }
  VCHECK(t.str() == want + "))", "sum-text", t.str(), " expected ", want);
  M m = r.mat(r.many(1, 4, 20), r.many(1, 4, 20));
  std::ostringstream e;
  e << m;
  VCHECK(fmt::format("{}", m) == e.str(), "matrix-text", "");
  count("names");
}
static void run_all() {
  run_cases("logger", 12000, logger_case);
  run_cases("solve", 1500, solve_case);
  run_cases("names", 1500, names_case);
}
#endif

#if VF_PROP == 27
template <class T> static bool is_view(const T &v, const double *p, Index n) { return v.size() == n && (n == 0 || v.data() == p); }
struct Shape {
  std::vector<int> nr;
  int total = 0;
};
static void check_problem(const Prob &p, const Shape &sh, const char *when) {
  VCHECK(p.getNumConstraints() == sh.nr.size(), "count", when);
  VCHECK(p.getTotalConstraintDim() == sh.total, "total", when, " ", p.getTotalConstraintDim(), " vs ", sh.total);
  auto idx = p.getIndices();
  VCHECK(idx.size() == sh.nr.size(), "indices-size", when);
  int cur = 0;
  V z(sh.total);
  for (Index i = 0; i < z.size(); i++)
    z[i] = double(i) + 0.5;
  for (size_t i = 0; i < sh.nr.size() && i < idx.size(); i++) {
    VCHECK(p.getConstraintDim(i) == sh.nr[i], "dim", when, i);
    VCHECK(p.getIndex(i) == cur && idx[i] == cur, "index", when, i, " ", p.getIndex(i), " vs ", cur);
    VCHECK(p.getConstraint(i).func().nr() == sh.nr[i], "constraint-order", when, i);
    V seg = p.getConstSegment(z, i), seg2 = p.getSegment(z, i);
    VCHECK(bitEq(seg, V(z.segment(cur, sh.nr[i]))) && bitEq(seg2, seg), "segment", when, i);
    auto w = p.getSegment(z, i);
    if (sh.nr[i]) {
      w[0] = -77;
      VCHECK(z[cur] == -77, "segment-view", when, i);
    }
    cur += sh.nr[i];
  }
}
static void check_storage(const Prob &p, WS &w, RS &R, const Shape &sh) {
  Index n = p.ndx(), m = sh.total;
  VCHECK(w.nx == p.nx() && w.ndx == n && w.numdual == m && w.numblocks == sh.nr.size(), "workspace-dims", "");
  VCHECK(w.kkt_matrix.rows() == n + m && w.kkt_matrix.cols() == n + m && w.kkt_rhs.size() == n + m && w.pd_step.size() == n + m && w.signature.size() == n + m, "kkt-dims", "");
  VCHECK(is_view(w.prim_step, w.pd_step.data(), n) && is_view(w.dual_step, w.pd_step.data() + n, m), "step-views", "");
  VCHECK(w.objective_gradient.size() == n && w.objective_hessian.rows() == n && w.objective_hessian.cols() == n && w.data_jacobians.rows() == m && w.data_jacobians.cols() == n, "derivative-dims", "");
  VCHECK(R.x_opt.size() == p.nx() && R.data_lams_opt.size() == m && R.constraint_violations.size() == Index(sh.nr.size()) && R.active_set.size() == sh.nr.size(), "results-dims", "");
  VCHECK(bitEq(R.x_opt, V(p.manifold_->neutral())), "results-start", "x_opt is not the neutral point");
  VCHECK(R.data_lams_opt.isZero(0) && R.constraint_violations.isZero(0) && R.num_iters == 0, "results-zero", "");
  struct Pair {
    const char *n;
    V *d;
    std::vector<Eigen::Ref<V>> *v;
  } ps[] = {{"lams_prev", &w.data_lams_prev, &w.lams_prev},
            {"lams_trial", &w.data_lams_trial, &w.lams_trial},
            {"cstr_values", &w.data_cstr_values, &w.cstr_values},
            {"shift_cstr_values", &w.data_shift_cstr_values, &w.shift_cstr_values},
            {"lams_plus", &w.data_lams_plus, &w.lams_plus},
            {"lams_plus_reproj", &w.data_lams_plus_reproj, &w.lams_plus_reproj},
            {"lams_pdal", &w.data_lams_pdal, &w.lams_pdal},
            {"lams_pdal_reproj", &w.data_lams_pdal_reproj, &w.lams_pdal_reproj},
            {"shift_cstr_pdal", &w.data_shift_cstr_pdal, &w.shift_cstr_pdal},
            {"lams_opt", &R.data_lams_opt, &R.lams_opt}};
  for (auto &q : ps) {
    VCHECK(q.d->size() == m && q.v->size() == sh.nr.size(), cat("views.", q.n), q.d->size(), " ", q.v->size());
    VCHECK(q.d->isZero(0), cat("zeroed.", q.n), str(*q.d));
    Index cur = 0;
    for (size_t i = 0; i < q.v->size() && i < sh.nr.size(); i++) {
      VCHECK(is_view((*q.v)[i], q.d->data() + cur, sh.nr[i]), cat("view.", q.n), "block ", i);
      cur += sh.nr[i];
    }
    count("views");
  }
  struct MPair {
    const char *n;
    M *d;
    std::vector<Eigen::Ref<M>> *v;
    bool hess;
  } ms[] = {{"jacobians", &w.data_jacobians, &w.cstr_jacobians, false},
            {"jacobians_proj", &w.data_jacobians_proj, &w.cstr_jacobians_proj, false},
            {"vector_hessian_prod", &w.data_hessians, &w.cstr_vector_hessian_prod, true}};
  for (auto &q : ms) {
    VCHECK(q.v->size() == sh.nr.size(), cat("views.", q.n), q.v->size());
    VCHECK(q.d->cols() == n && q.d->rows() == (q.hess ? n * Index(sh.nr.size()) : m) && q.d->isZero(0), cat("zeroed.", q.n), q.d->rows(), "x", q.d->cols());
    M pat = M(q.d->rows(), q.d->cols());
    for (Index j = 0; j < pat.cols(); j++)
      for (Index i = 0; i < pat.rows(); i++)
        pat(i, j) = double(1 + i + 100 * j);
    *q.d = pat; // writing the storage shows through the views, and only there
    Index cur = 0;
    for (size_t i = 0; i < q.v->size() && i < sh.nr.size(); i++) {
      Index k = q.hess ? n : sh.nr[i];
      VCHECK((*q.v)[i].rows() == k && (*q.v)[i].cols() == n && bitEq((*q.v)[i], M(pat.middleRows(cur, k))), cat("view.", q.n), "block ", i);
      (*q.v)[i].setConstant(-double(i) - 1);
      pat.middleRows(cur, k).setConstant(-double(i) - 1);
      VCHECK(bitEq(*q.d, pat), cat("view-write.", q.n), "block ", i);
      cur += k;
    }
    q.d->setZero();
  }
}
static void layout_case(long, Rng &r) {
  int n = r.many(1, 5, 24);
  bool flat = r.coin(0.5);
  SpaceGen g(r);
  PMan sp = flat ? PMan(VecSpace(n)) : g.make(1);
  int nx = sp->nx(), nv = sp->ndx();
  n = nx;
  CostPtr cost;
  std::shared_ptr<Smooth> cf;
  if (flat) {
    cf = std::make_shared<Smooth>(n, 1, r, 0.4, 0.6);
    cost = std::make_shared<func_to_cost<double>>(std::static_pointer_cast<F2>(cf));
  } else
    cost = std::make_shared<QuadraticDistanceCostTpl<double>>(sp, npoint(*sp, r), r.spd(nv, 0.3, 3));
  int nb = r.many(0, 5, 14);
  std::vector<std::shared_ptr<F2>> fs;
  std::vector<PSet> sets;
  Shape sh;
  std::vector<ConstraintObjectTpl<double>> cs;
  auto mk = [&] {
    int m = r.coin(0.1) ? 0 : r.many(1, 4, 16, 0.03);
    std::shared_ptr<F2> f;
    if (flat)
      f = std::make_shared<Smooth>(n, m, r, 0.3, 0.4);
    else
      f = std::make_shared<LinearFunctionDifferenceToPoint<double>>(sp, npoint(*sp, r), r.mat(m, nv), V(r.vec(m)));
    fs.push_back(f);
    int k = r.in(0, 3);
    PSet s = k == 0 ? PSet(EqualityConstraintTpl<double>()) : k == 1 ? PSet(NegativeOrthantTpl<double>()) : k == 2 ? PSet(BoxConstraintTpl<double>(V(-V::Ones(m)), V(V::Ones(m)))) : PSet(NonsmoothPenaltyL1Tpl<double>());
    sets.push_back(s);
    sh.nr.push_back(m);
    sh.total += m;
    return ConstraintObjectTpl<double>(f, s);
  };
  int later = r.in(0, nb);
  for (int i = 0; i < nb - later; i++)
    cs.push_back(mk());
  phase("layout");
  Prob p(sp, cost, cs);
  VCHECK(p.nx() == nx && p.ndx() == nv, "dims", p.nx(), " ", p.ndx());
  check_problem(p, sh, "constructed");
  if (r.coin(0.3)) { // a copy does not follow the original
    Shape old = sh;
    Prob q = p;
    q.addConstraint(mk());
    check_problem(q, sh, "grown copy");
    check_problem(p, old, "original");
    fs.pop_back();
    sets.pop_back();
    sh = old;
  }
  for (int i = 0; i < later; i++) {
    auto c = mk();
    if (r.coin())
      p.addConstraint(c);
    else
      p.addConstraint(std::move(c));
    check_problem(p, sh, "grown");
    count("added");
  }
  Solver s(p, 1e-6, 1e-2, 0., QUIET);
  s.ldlt_choice_ = r.pick(std::vector<LDLTChoice>{LDLTChoice::DENSE, LDLTChoice::BUNCHKAUFMAN, LDLTChoice::EIGEN});
  s.setup();
  check_storage(p, *s.workspace_, *s.results_, sh);
  WS w(p);
  RS R(p);
  check_storage(p, w, R, sh);
  // evaluation fills the right slots
  V x = flat ? V(r.vec(n)) : npoint(*sp, r);
  V x0 = x;
  V lam = r.vec(sh.total);
  w.data_lams_pdal = lam;
  p.evaluate(x, w);
  p.computeDerivatives(x, w);
  w.data_hessians.setConstant(3.25);
  bool all = r.coin();
  p.computeHessians(x, w, all);
  VCHECK(bitEq(x, x0), "query-point", "");
  VCHECK(close(w.objective_value, cost->call(x), 1e-14, 1 + std::abs(w.objective_value)), "objective-value", "");
  V g0(nv);
  M H0(nv, nv);
  cost->computeGradient(x, g0);
  cost->computeHessian(x, H0);
  VCHECK(maxdiff(w.objective_gradient, g0) <= 1e-14 * (1 + maxabs(g0)) && maxdiff(w.objective_hessian, H0) <= 1e-14 * (1 + maxabs(H0)), "objective-derivatives", "");
  Index cur = 0;
  for (size_t i = 0; i < fs.size(); i++) {
    int m = sh.nr[i];
    V v = (*fs[i])(x);
    M J(m, nv), W(nv, nv);
    fs[i]->computeJacobian(x, J);
    VCHECK(maxdiff(V(w.data_cstr_values.segment(cur, m)), v) <= 1e-14 * (1 + maxabs(v)), "constraint-value", i);
    VCHECK(maxdiff(M(w.data_jacobians.middleRows(cur, m)), J) <= 1e-14 * (1 + maxabs(J)), "constraint-jacobian", i);
    W.setZero();
    fs[i]->vectorHessianProduct(x, V(lam.segment(cur, m)), W);
    M got = w.data_hessians.middleRows(Index(i) * nv, nv);
    bool computed = all || !sets[i]->disableGaussNewton();
    if (computed && flat)
      VCHECK(maxdiff(got, W) <= 1e-13 * (1 + maxabs(W)), "constraint-hessian", i);
    if (!computed)
      VCHECK(bitEq(got, M(M::Constant(nv, nv, 3.25))), "constraint-hessian-skipped", i);
    cur += m;
    count("slots");
  }
  // views over user storage
  V data(sh.total);
  std::vector<Eigen::Ref<V>> views;
  helpers::allocateMultipliersOrResiduals(p, data, views);
  VCHECK(data.size() == sh.total && data.isZero(0) && views.size() == sh.nr.size(), "helper-views", "");
  cur = 0;
  for (size_t i = 0; i < views.size(); i++) {
    VCHECK(is_view(views[i], data.data() + cur, sh.nr[i]), "helper-view", i);
    cur += sh.nr[i];
  }
  // separate multipliers per constraint give the same run as a stacked vector
  if (sh.total > 0 && std::find(sh.nr.begin(), sh.nr.end(), 0) == sh.nr.end()) {
    std::vector<V> own;
    std::vector<Eigen::Ref<V>> refs;
    cur = 0;
    for (int m : sh.nr) {
      own.push_back(lam.segment(cur, m));
      cur += m;
    }
    for (auto &o : own)
      refs.emplace_back(o);
    Solver a(p, 1e-6, 1e-2, 1e-3, QUIET), b(p, 1e-6, 1e-2, 1e-3, QUIET);
    a.max_iters = b.max_iters = 4;
    a.setup();
    b.setup();
    std::string ea, eb;
    ConvergenceFlag fa = UNINIT, fb = UNINIT;
    try {
      fa = a.solve(x, refs);
    } catch (const std::runtime_error &e) {
      ea = e.what();
    }
    try {
      fb = b.solve(x, lam);
    } catch (const std::runtime_error &e) {
      eb = e.what();
    }
    VCHECK(fa == fb && ea == eb && bitEq(a.results_->x_opt, b.results_->x_opt) && bitEq(a.results_->data_lams_opt, b.results_->data_lams_opt), "separate-multipliers", "flags ", int(fa), int(fb), " ", str(a.results_->x_opt), str(b.results_->x_opt));
    count("separate");
    refs.pop_back();
    bool threw = false;
    try {
      a.solve(x, refs);
    } catch (const std::runtime_error &) {
      threw = true;
    }
    VCHECK(threw, "wrong-number-of-multipliers", "accepted");
    count("rejected");
  }
  uint64_t h = hcomb(n, nv);
  for (int m : sh.nr)
    h = hcomb(h, m);
  nontrivial(h);
}
static void run_all() { run_cases("layout", 12000, layout_case); }
#endif

#if VF_PROP == 28
template <class E, class F> static bool throws(F &&f) {
  try {
    f();
  } catch (const E &) {
    return true;
  }
  return false;
}
static double special(Rng &r) {
  int k = r.in(0, 11);
  switch (k) {
  case 0:
    return 0.;
  case 1:
    return -0.;
  case 2:
    return std::numeric_limits<double>::denorm_min();
  case 3:
    return -std::numeric_limits<double>::min();
  case 4:
    return std::numeric_limits<double>::max();
  case 5:
    return -std::numeric_limits<double>::max();
  default:
    return r.gauss() * r.logu(1e-200, 1e200);
  }
}
static void math_case(long, Rng &r) {
  int m = r.many(0, 6, 40), n = r.many(0, 5, 24);
  M a(m, n);
  for (int j = 0; j < n; j++)
    for (int i = 0; i < m; i++)
      a(i, j) = special(r);
  double want = 0;
  for (Index i = 0; i < a.size(); i++)
    want = std::max(want, std::abs(a.data()[i]));
  VCHECK(math::infty_norm(a) == want, "infty-norm", str(a), " gave ", math::infty_norm(a));
  VCHECK(math::infty_norm(a.transpose()) == want && math::infty_norm(-a) == want, "infty-norm-expr", str(a));
  V v = r.vec(r.many(0, 4, 60));
  std::vector<V> vs;
  double w2 = 0;
  int k = r.many(0, 4, 14);
  for (int i = 0; i < k; i++) {
    vs.push_back(r.vec(r.many(0, 4, 24), r.logu(1e-3, 1e3)));
    for (Index q = 0; q < vs.back().size(); q++)
      w2 = std::max(w2, std::abs(vs.back()[q]));
  }
  VCHECK(math::infty_norm(vs) == w2, "infty-norm-list", k);
  std::vector<Eigen::Ref<V>> refs;
  for (auto &q : vs)
    refs.emplace_back(q);
  VCHECK(math::infty_norm(refs) == w2, "infty-norm-refs", k);
  // non-finite entries anywhere are found
  VCHECK(!math::check_value(a), "check-finite", str(a));
  if (a.size()) {
    double bad = r.pick(std::vector<double>{NAN, INF, -INF, -NAN});
    Index p = Index(r.next() % uint64_t(a.size()));
    M b = a;
    b.data()[p] = bad;
    VCHECK(math::check_value(b) && math::check_value(b.transpose()) && math::check_value(V(Eigen::Map<V>(b.data(), b.size()))), "check-nonfinite", str(b));
    if (std::isinf(bad))
      VCHECK(math::infty_norm(b) == INF && math::infty_norm(b.transpose()) == INF, "infty-norm-infinite", str(b));
    else { // a NaN anywhere is not hidden by the other entries
      VCHECK(std::isnan(math::infty_norm(b)) && std::isnan(math::infty_norm(b.transpose())) && std::isnan(math::infty_norm(b - a)), "infty-norm-nan", str(b));
      std::vector<V> ls = vs;
      V flat = Eigen::Map<V>(b.data(), b.size());
      ls.insert(ls.begin() + r.in(0, int(ls.size())), flat);
      VCHECK(std::isnan(math::infty_norm(ls)), "infty-norm-list-nan", str(b));
      count("nan-norms");
    }
    VCHECK(math::check_value(bad) && math::check_scalar(bad), "check-scalar", bad);
    bool t = throws<std::runtime_error>([&] { PROXSUITE_NLP_RAISE_IF_NAN_NAME(b, "b"); });
    bool t2 = throws<RuntimeError>([&] { PROXSUITE_NLP_RAISE_IF_NAN(b); });
    VCHECK(t && t2, "raise-nonfinite", str(b));
    VCHECK(!throws<std::runtime_error>([&] { PROXSUITE_NLP_RAISE_IF_NAN(a); }), "raise-finite", str(a));
    count("nonfinite");
  }
  double x = special(r), y = r.coin(0.3) ? x : r.coin(0.5) ? x * (1 + r.gauss() * r.logu(1e-17, 1e-13)) : special(r);
  VCHECK(!math::check_value(x) && !math::check_scalar(x), "check-scalar-finite", x);
  VCHECK(math::sign(x) == double((x > 0) - (x < 0)) && math::sign(-x) == -math::sign(x), "sign", x);
  int si = r.in(-3, 3);
  VCHECK(math::sign(si) == (si > 0) - (si < 0), "sign-int", si);
  double prec = r.logu(1e-16, 1e-2);
  if (r.coin(0.3)) { // around the threshold
    x = r.gauss() * r.logu(1e-6, 1e6);
    y = x + (r.coin() ? 1 : -1) * r.uni(0.3, 1.7) * prec * (1 + std::abs(x));
  }
  if (std::abs(x) < 1e300 && std::abs(y) < 1e300) {
    long double d = std::abs((long double)x - y), lim = prec * (1 + (long double)std::max(std::abs(x), std::abs(y)));
    if (std::abs(d - lim) > 1e-15L * (std::abs(x) + std::abs(y)) + 1e-12L * lim)
      VCHECK(math::scalar_close(x, y, prec) == (d < lim) && math::scalar_close(y, x, prec) == (d < lim), "scalar-close", x, " ", y, " ", prec);
    VCHECK(math::scalar_close(x, x), "scalar-close-self", x);
  }
  count("math");
  nontrivial(hcomb(hdouble(x), hcomb(m, n)));
}
static void valid_case(long ci, Rng &r) {
  int n = r.many(1, 5, 20), m = r.many(1, 5, 20);
  phase("validation");
  switch (ci % 9) {
  case 0: { // composition
    int k = r.many(1, 5, 14);
    auto f = std::make_shared<Smooth>(n, m, r, 0.3, 0.3);
    auto g = std::make_shared<Smooth>(k, r.in(1, 3), r, 0.3, 0.3);
    bool bad = throws<std::runtime_error>([&] { compose<double>(std::static_pointer_cast<F2>(g), std::static_pointer_cast<F2>(f)); });
    VCHECK(bad == (k != m), "compose", "outer takes ", k, ", inner gives ", m);
    count(bad ? "rejected" : "accepted");
    break;
  }
  case 1: { // function to cost
    auto f = std::make_shared<Smooth>(n, m, r, 0.3, 0.3);
    CostPtr c;
    bool bad = throws<std::runtime_error>([&] { c = downcast_function_to_cost<double>(std::static_pointer_cast<F2>(f)); });
    VCHECK(bad == (m != 1) && bool(c) == (m == 1), "downcast", m);
    count(bad ? "rejected" : "accepted");
    break;
  }
  case 2: { // split / merge of product spaces
    SpaceGen g(r);
    CartesianProductTpl<double> p;
    int k = r.in(1, 3), ex = 0, ev = 0;
    std::vector<PMan> comps;
    for (int i = 0; i < k; i++) {
      PMan c = g.make(1);
      ex += c->nx();
      ev += c->ndx();
      comps.push_back(c);
      p.addComponent(c);
    }
    int dx = r.in(-2, 2), dv = r.in(-2, 2);
    V x = r.vec(std::max(0, ex + dx)), v = r.vec(std::max(0, ev + dv));
    const V xc = x, vc = v;
    VCHECK(throws<std::runtime_error>([&] { p.split(CVR(xc)); }) == (xc.size() != ex), "split", xc.size(), " of ", ex);
    VCHECK(throws<std::runtime_error>([&] { p.split_vector(CVR(vc)); }) == (vc.size() != ev), "split-vector", vc.size(), " of ", ev);
    VCHECK(throws<std::runtime_error>([&] { p.split(VR(x)); }) == (x.size() != ex), "split-mutable", "");
    VCHECK(throws<std::runtime_error>([&] { p.split_vector(VR(v)); }) == (v.size() != ev), "split-vector-mutable", "");
    count(dx || dv ? "rejected" : "accepted");
    break;
  }
  case 3: { // point constraints: the target has to be a point of the space
    SpaceGen g(r);
    PMan s = g.make(1);
    V t = npoint(*s, r);
    M A = r.mat(2, s->ndx());
    V b = r.vec(2);
    VCHECK(!throws<std::runtime_error>([&] { LinearFunctionDifferenceToPoint<double> f(s, t, A, b); }), "target-valid", str(t));
    V off = t;
    bool out = false;
    if (t.size() && r.coin()) {
      off = t * 1.5 + V::Constant(t.size(), 0.7);
      out = !s->isNormalized(off);
      VCHECK(throws<std::runtime_error>([&] { ManifoldDifferenceToPoint<double> f(s, off); }) == out, "target-off", str(off));
    }
    count(out ? "rejected" : "accepted");
    break;
  }
  case 4: { // target of the wrong size on a flat space
    PMan s = PMan(VecSpace(n));
    int d = r.in(-1, 2);
    V t = r.vec(std::max(0, n + d));
    bool bad = throws<std::runtime_error>([&] { LinearFunctionDifferenceToPoint<double> f(s, t, r.mat(m, n), V(r.vec(m))); });
    VCHECK(bad == (t.size() != n), "target-size", t.size(), " of ", n);
    count(bad ? "rejected" : "accepted");
    break;
  }
  case 5: { // solver used before setup, BFGS on curved spaces
    SpaceGen g(r);
    PMan s = g.make(1);
    CostPtr c = std::make_shared<QuadraticDistanceCostTpl<double>>(s, npoint(*s, r), M(M::Identity(s->ndx(), s->ndx())));
    Prob p(s, c);
    Solver sol(p);
    V x = npoint(*s, r);
    VCHECK(throws<std::runtime_error>([&] { sol.solve(x); }), "no-setup", "solve() before setup() went through");
    sol.hess_approx = HessianApprox::BFGS;
    bool bad = throws<std::runtime_error>([&] { sol.setup(); });
    VCHECK(bad == (s->nx() != s->ndx()), "bfgs-space", s->nx(), " ", s->ndx());
    // the refused object is usable with a supported choice
    sol.hess_approx = HessianApprox::EXACT;
    sol.setup();
    bool ok = false;
    try {
      sol.max_iters = 3;
      sol.solve(x);
      ok = true;
    } catch (const std::runtime_error &) {
    }
    VCHECK(ok, "after-rejection", "");
    count(bad ? "rejected" : "accepted");
    break;
  }
  case 6: { // linear solvers that are not built in
    bool bad = throws<std::runtime_error>([&] { allocate_ldlt_from_sizes<double>({isize(n)}, {isize(m)}, LDLTChoice::PROXSUITE); });
#ifdef PROXSUITE_NLP_USE_PROXSUITE_LDLT
    VCHECK(!bad, "ldlt-choice", "");
#else
    VCHECK(bad, "ldlt-choice", "unavailable backend allocated");
#endif
    for (auto c : {LDLTChoice::DENSE, LDLTChoice::BUNCHKAUFMAN, LDLTChoice::BLOCKSPARSE, LDLTChoice::EIGEN})
      VCHECK(!throws<std::exception>([&] { allocate_ldlt_from_sizes<double>({isize(n)}, {isize(m)}, c); }), "ldlt-choice", int(c));
    Eigen::VectorXi sg(n);
    int np = 0, nn = 0, nz = 0;
    for (int i = 0; i < n; i++) {
      sg[i] = r.in(-1, 1);
      (sg[i] > 0 ? np : sg[i] < 0 ? nn : nz)++;
    }
    auto in = computeInertiaTuple(sg);
    VCHECK(in[0] == np && in[1] == nn && in[2] == nz, "inertia-count", "");
    sg[r.in(0, n - 1)] = r.coin() ? r.in(2, 9) : -r.in(2, 9);
    VCHECK(throws<std::runtime_error>([&] { computeInertiaTuple(sg); }), "inertia-values", "bad signature accepted");
    count("rejected");
    break;
  }
  case 7: { // product of constraint sets
    int k = r.in(0, 3), q = r.in(0, 3);
    std::vector<PSet> sets;
    for (int i = 0; i < k; i++)
      sets.emplace_back(NegativeOrthantTpl<double>());
    std::vector<Index> nrs;
    for (int i = 0; i < q; i++)
      nrs.push_back(2);
    bool bad = throws<std::runtime_error>([&] { ConstraintSetProductTpl<double> s(sets, nrs); });
    VCHECK(bad == (k != q), "product-set", k, " ", q);
    count(bad ? "rejected" : "accepted");
    break;
  }
  default: { // the error is a runtime_error with a message; size check macro
    V x = r.vec(r.many(0, 4, 24));
    bool bad = false;
    try {
      PROXSUITE_NLP_DIM_CHECK(x, n);
    } catch (const RuntimeError &e) {
      bad = true;
      std::string w = e.what();
      VCHECK(w.find(cat("expected ", n)) != std::string::npos && w.find(cat("got ", x.size())) != std::string::npos, "size-message", w);
    }
    VCHECK(bad == (x.size() != n), "size-check", x.size(), " ", n);
    VecSpace s(n);
    M J(n, n);
    V a = r.vec(n), b = r.vec(n);
    VCHECK(throws<std::runtime_error>([&] { s.Jdifference(a, b, J, r.coin() ? 2 : -1); }), "argument-index", "");
    count(bad ? "rejected" : "accepted");
  }
  }
  nontrivial(hcomb(ci, hcomb(n, m)));
}
static void run_all() {
  run_cases("math", 30000, math_case);
  run_cases("validation", 18000, valid_case);
}
#endif

int main(int argc, char **argv) {
  parse_args(argc, argv);
  heap_hooks_install();
  run_all();
  return finish();
}

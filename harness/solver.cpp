// C01-C03, C29: the solver, watched through its callbacks and its results.
#include "common.hpp"
#include "replay.hpp"
#include "proxsuite-nlp/helpers/history-callback.hpp"
using namespace vf;

// ---------------------------------------------------------------- C01
// what a SUCCESS promises, recomputed from the user's functions
static double certificate(const Nlp &p, const Solver &s, const Config &c, const std::string &what) {
  const RS &r = *s.results_;
  V g(p.space->ndx());
  p.cost->computeGradient(r.x_opt, g);
  V cx = p.c(r.x_opt);
  M J = p.J(r.x_opt);
  double mu = r.mu;
  VCHECK(mu > 0 && std::isfinite(mu), "certificate.mu", mu, " ", what);
  VCHECK(r.x_opt.allFinite() && r.data_lams_opt.allFinite(), "certificate.nonfinite", str(r.x_opt), " ", str(r.data_lams_opt), " ", what);
  double gs = maxabs(g) + (J.size() ? double((J.cwiseAbs().transpose() * r.data_lams_opt.cwiseAbs()).maxCoeff()) : 0.);
  double d = maxabs(V(g + J.transpose() * r.data_lams_opt));
  VCHECK(d <= c.tol * (1 + 1e-6) + 1e-12 * (1 + gs), "certificate.dual", "stationarity residual ", d, " > tol ", c.tol, " reported ", r.dual_infeas, " ", what);
  V y = cx + mu * r.data_lams_opt;
  V pr = p.prox(y, mu);
  double pi = maxabs(V(cx - pr));
  VCHECK(pi <= c.tol * (1 + 1e-6) + 1e-12 * (1 + maxabs(cx) + maxabs(y)), "certificate.primal", "feasibility/complementarity residual ", pi, " > tol ", c.tol, " reported ", r.prim_infeas, " ", what);
  VCHECK(close(d, r.dual_infeas, 1e-10 * (1 + gs)) , "certificate.reported-dual", d, " reported ", r.dual_infeas, " ", what);
  VCHECK(close(pi, r.prim_infeas, 1e-10 * (1 + maxabs(cx) + maxabs(y))), "certificate.reported-primal", pi, " reported ", r.prim_infeas, " ", what);
  double f = p.cost->call(r.x_opt);
  VCHECK(close(f, r.value, 1e-10 * (1 + std::abs(f))), "certificate.value", f, " reported ", r.value, " ", what);
  int k = 0;
  for (size_t b = 0; b < p.blocks.size(); b++) {
    int m = p.blocks[b].m.n();
    double v = maxabs(V((cx - pr).segment(k, m)));
    VCHECK(close(v, r.constraint_violations[Index(b)], 1e-10 * (1 + maxabs(cx) + maxabs(y))), "certificate.block-violation", b, ": ", v, " reported ", r.constraint_violations[Index(b)], " ", what);
    // user-level feasibility of genuine constraints; sign of the multipliers
    for (int i = 0; i < m; i++) {
      auto &co = p.blocks[b].m.c[i];
      double ci = cx[k + i], li = r.data_lams_opt[k + i], t = c.tol * (1 + 1e-6) + 1e-12 * (1 + std::abs(ci)), tl = (c.tol * (1 + 1e-6) + 1e-12 * (1 + std::abs(ci))) / mu + 1e-12 * std::abs(li);
      switch (co.k) {
      case SetModel::EQ:
        VCHECK(std::abs(ci) <= t, "certificate.infeasible-eq", ci, " ", what);
        break;
      case SetModel::NEG:
        VCHECK(ci <= t, "certificate.infeasible-neg", ci, " ", what);
        VCHECK(li >= -tl, "certificate.sign-neg", li, " ", what);
        break;
      case SetModel::BOX:
        VCHECK(ci <= co.hi + t && ci >= co.lo - t, "certificate.infeasible-box", ci, " ", what);
        break;
      default:
        VCHECK(std::abs(li) <= 1 + tl, "certificate.l1-multiplier", li, " ", what);
      }
    }
    k += m;
  }
  return d;
}

static void drive_c01() {
  static long nsucc = 0, ntot = 0;
  run_cases("certificate", 4000, [&](long, Rng &r) {
    int fam = r.in(0, 9);
    Nlp p = fam < 4 ? gen_convex(r, r.coin(), true) : gen_general(r);
    Config c = gen_config(r, p.vec);
    c.max_iters = r.coin(0.2) ? size_t(r.in(1, 8)) : 120;
    if (r.coin(0.2))
      c.max_al = size_t(r.in(1, 6));
    if (r.coin(0.15)) // plain success on the first outer iterations
      c.tol = 1e-2;
    if (r.coin(0.08))
      c.rho0 = r.logu(1, 100);
    if (r.coin(0.05))
      c.mu0 = r.uni(0.3, 1.);
    if (r.coin(0.03))
      c.mu_lower = c.mu0;
    auto s = make_solver(*p.prob, c);
    s->setup();
    V x0 = p.x0, l0 = r.coin(0.6) ? V(V::Zero(p.nc())) : r.vec(p.nc(), r.coin(0.2) ? 100. : 1.);
    int runs = r.coin(0.3) ? 2 : 1;
    for (int k = 0; k < runs; k++) {
      ConvergenceFlag flag;
      try {
        flag = r.coin(0.2) && k ? s->solve(s->results_->x_opt) : s->solve(x0, l0);
      } catch (const std::runtime_error &e) {
        // an unbounded problem may overflow: the run must end with an error
        if (!(std::abs(s->results_->value) > 1e20 || maxabs(s->results_->x_opt) > 1e20))
          violation("certificate.exception", cat(e.what(), " | ", p.desc, " | ", c.desc()));
        count("overflow");
        break;
      }
      VCHECK(flag == s->results_->converged, "flag.return", int(flag), " stored ", int(s->results_->converged));
      std::string what = cat(p.desc, " | ", c.desc(), " run ", k, " iters ", s->results_->num_iters, "/", s->results_->al_iters);
      VCHECK(s->results_->num_iters <= c.max_iters, "budget.iters", what);
      VCHECK(s->results_->al_iters <= c.max_al, "budget.al", what);
      ntot++;
      count(cat("flag.", int(flag)));
      if (flag == ConvergenceFlag::SUCCESS) {
        certificate(p, *s, c, what);
        nsucc++;
        count("success");
        count(cat("success.mul", int(c.mul)));
        count(cat("success.kkt", int(c.kkt)));
        if (p.has_l1)
          count("success.l1");
        if (!p.vec)
          count("success.manifold");
        nontrivial(hcomb(c.hash(), hdouble(s->results_->x_opt.sum())));
      } else
        break;
    }
    sample(cat(p.desc, " | ", c.desc()));
  });
}

// ---------------------------------------------------------------- C02
// strongly convex problems built around their primal-dual solution
static void convex_case(Rng &r) {
  bool l1 = r.coin(0.25);
  Nlp p = gen_convex(r, r.coin(), l1);
  Config c = gen_config(r, true);
  c.max_iters = 500;
  auto s = make_solver(*p.prob, c);
  s->setup();
  std::string what = cat(p.desc, " | ", c.desc());
  bool warm = r.coin(0.2);
  V l0 = warm ? p.lopt : r.coin(0.8) ? V(V::Zero(p.nc())) : r.vec(p.nc());
  ConvergenceFlag flag;
  try {
    flag = s->solve(p.x0, l0);
  } catch (const std::runtime_error &e) {
    violation("convex.exception", cat(e.what(), " | ", what));
    return;
  }
  const RS &o = *s->results_;
  bool affine = true;
  for (auto &b : p.blocks)
    affine = affine && !std::dynamic_pointer_cast<ConvexRows>(b.f);
  const char *fam = c.hess == HessianApprox::EXACT || (c.hess == HessianApprox::GAUSS_NEWTON && affine) ? "newton" : c.hess == HessianApprox::BFGS ? "bfgs" : c.hess == HessianApprox::GAUSS_NEWTON ? "gauss-newton" : "gradient";
  std::string cls = cat(fam, c.kkt == KKT_CLASSIC ? ".classic" : ".primal-dual");
  bool large = p.space->nx() > 8 || p.nc() > 9 || p.blocks.size() > 3; // counted apart: more inequalities, more cycling
  if (large) {
    cls = cat("large.", cls);
    count("large");
  }
  count(cat("runs.", cls));
  // Newton's method is fast, and faster without inequalities
  bool eq = true;
  for (auto &b : p.blocks)
    for (auto &q : b.m.c)
      eq = eq && q.k == SetModel::EQ;
  bool newton = !strncmp(fam, "newton", 6);
  if (!large && eq && (newton || c.hess == HessianApprox::BFGS)) {
    count(cat("runs.equality.", fam));
    if (flag != ConvergenceFlag::SUCCESS || o.num_iters > 60)
      count(cat("slow.equality.", fam));
  }
  if (newton && (flag != ConvergenceFlag::SUCCESS || o.num_iters > 100))
    count(cat("slow.", cls));
  // the same per option, to notice failures of one of them
  if (newton && !large)
    for (auto &o : {cat("ls", int(c.ls.interp_type)), cat("mul", int(c.mul)), cat("ldlt", int(c.ldlt)), std::string(c.rho0 > 0 ? "rho" : "norho"), std::string(p.has_l1 ? "l1" : "nol1"), std::string(affine ? "affine" : "curved"), std::string(warm ? "warm" : "cold")}) {
      count(cat("by-option.", cls, ".", o));
      if (flag != ConvergenceFlag::SUCCESS)
        count(cat("unsolved.", cls, ".", o));
    }
  // nothing is left to do at the solution
  if (warm && p.x0 == p.xopt) {
    VCHECK(flag == ConvergenceFlag::SUCCESS && o.num_iters == 0 && o.x_opt == p.xopt && o.data_lams_opt == p.lopt, "convex.at-solution", "flag ", int(flag), " after ", o.num_iters, " iterations, residuals ", o.prim_infeas, " ", o.dual_infeas, " ", what);
    count("at-solution");
  }
  if (flag != ConvergenceFlag::SUCCESS) {
    count(cat("unsolved.", cls));
    sample(cat("unsolved: flag ", int(flag), " ", what, " residuals ", o.prim_infeas, " ", o.dual_infeas));
    return;
  }
  count("solved");
  if (p.has_l1)
    count("solved.l1");
  certificate(p, *s, c, what);
  // the distance to the solution, by strong convexity
  V g(p.space->ndx());
  p.cost->computeGradient(o.x_opt, g);
  V cx = p.c(o.x_opt);
  M J = p.J(o.x_opt);
  V y = cx + o.mu * o.data_lams_opt;
  V e = cx - p.prox(y, o.mu), d = g + J.transpose() * o.data_lams_opt;
  V dx = o.x_opt - p.xopt;
  V l2 = (y - p.prox(y, o.mu)) / o.mu;
  double lhs = 0.5 * dx.squaredNorm();
  double rhs = d.norm() * dx.norm() + (l2 - p.lopt).norm() * e.norm() + e.norm() * J.norm() * dx.norm() / o.mu;
  double slack = 1e-12 * (1 + g.norm() + J.norm() * o.data_lams_opt.norm()) * (1 + dx.norm());
  VCHECK(lhs <= rhs * (1 + 1e-6) + slack, "convex.distance", "squared distance ", lhs, " bound ", rhs, " ", what);
  if (c.tol <= 1e-6 && o.mu >= 1e-5) {
    VCHECK(dx.norm() <= 1e-2 * (1 + p.xopt.norm()), "convex.far", "error ", dx.norm(), " ", what);
    count("tight");
  }
  nontrivial(hcomb(c.hash(), hdouble(o.x_opt.sum())));
}
static void drive_c02() {
  run_cases("convex", 5000, [&](long, Rng &r) { convex_case(r); });
}

// ---------------------------------------------------------------- C03, C29
static void drive_trace(bool logic, bool kkt) {
  run_cases("trace", 4000, [&](long, Rng &r) {
    Nlp p = r.coin(0.3) ? gen_convex(r, r.coin(), true) : gen_general(r);
    Config c = gen_config(r, p.vec);
    c.max_iters = r.coin(0.3) ? size_t(r.in(0, 10)) : size_t(r.in(20, 120));
    if (r.coin(0.3))
      c.max_al = size_t(r.in(0, 6));
    if (r.coin(0.15)) {
      c.inner_tol0 = r.logu(0.1, 10);
      c.prim_tol0 = r.logu(0.1, 10);
    }
    if (r.coin(0.1))
      c.inner_tol_min = 1e-7;
    if (r.coin(0.1))
      c.mu_upper = 0.1;
    if (r.coin(0.1))
      c.pa = r.uni(0.05, 0.5), c.pb = r.uni(0.3, 1), c.da = r.uni(0.5, 1.2), c.db = r.uni(0.5, 1.2);
    if (r.coin(0.1)) {
      c.ls.alpha_min = r.logu(1e-8, 1e-3);
      c.ls.armijo_c1 = r.logu(1e-6, 0.1);
      c.ls.max_num_steps = size_t(r.in(2, 30));
    }
    if (r.coin(0.1))
      c.rho0 = r.logu(1, 100);
    if (c.rho0 > 0 && r.coin(0.05))
      c.rho_factor = 2.;
    if (r.coin(0.05))
      c.mu0 = r.uni(0.3, 1.);
    if (r.coin(0.03))
      c.mu_lower = c.mu0; // the penalty restarts at each rejection
    auto cc = std::make_shared<CountingCost>(p.cost);
    p.cost = cc;
    std::vector<std::shared_ptr<CountingF2>> cf;
    for (auto &b : p.blocks) {
      cf.push_back(std::make_shared<CountingF2>(b.f));
      b.f = cf.back();
      if (r.coin(0.15) && curve_set(b))
        count("curved-sets");
    }
    p.build();
    auto s = make_solver(*p.prob, c);
    if (r.coin(0.1)) { // inertia correction
      s->del_inc_k = r.uni(2, 20);
      s->del_inc_big = r.uni(5, 200);
      s->del_dec_k = r.uni(0.1, 0.9);
      s->DELTA_NONZERO_INIT = r.logu(1e-7, 1e-1);
      s->kkt_tolerance_ = r.logu(1e-16, 1e-12);
      count("inertia-options");
    }
    s->setup();
    V lam = r.coin() ? V(V::Zero(p.nc())) : r.vec(p.nc());
    auto rec = std::make_shared<Recorder>();
    rec->cc = cc.get();
    auto hist = std::make_shared<helpers::history_callback<double>>();
    s->registerCallback(rec);
    s->registerCallback(hist);
    int runs = c.hess != HessianApprox::BFGS && r.coin(0.25) ? 2 : 1;
    for (int k = 0; k < runs; k++) {
      rec->t.clear();
      cc->nval = cc->nhess = 0;
      for (auto &f : cf)
        f->nvhp = 0;
      size_t h0 = hist->storage.xs.size();
      ConvergenceFlag flag;
      try {
        flag = s->solve(p.x0, lam);
      } catch (const std::runtime_error &e) {
        if (!(std::abs(s->results_->value) > 1e20 || maxabs(s->results_->x_opt) > 1e20))
          violation("trace.exception", cat(e.what(), " | ", p.desc, " | ", c.desc()));
        count("runs.overflow");
        break;
      }
      if (kkt) { // second derivatives are only asked for when the model has them
        bool first = c.hess == HessianApprox::BFGS || c.hess == HessianApprox::IDENTITY;
        if (first)
          VCHECK(cc->nhess == 0, "hessian.cost-evaluated", cc->nhess, " evaluations, ", c.desc());
        for (size_t b = 0; b < cf.size(); b++)
          if (c.hess != HessianApprox::EXACT && (first || !p.blocks[b].curved)) {
            VCHECK(cf[b]->nvhp == 0, "hessian.constraint-evaluated", "block ", b, ": ", cf[b]->nvhp, " evaluations, ", c.desc());
            count("first-order-blocks");
          }
      }
      Replay rp(p, c, rec->t, logic, kkt);
      rp.what = cat(p.desc, " | ", c.desc(), " run ", k);
      rp.run(p.x0, lam);
      count("runs");
      count("outer.accepted", uint64_t(rp.accepted));
      count("outer.rejected", uint64_t(rp.rejected));
      count(cat("runs.flag.", int(flag)));
      if (rp.steps > 0)
        nontrivial(hcomb(c.hash(), hdouble(rp.x.sum())));
      if (logic) {
        auto &st = hist->storage;
        size_t n = rec->t.size();
        VCHECK(rec->t.empty() || rec->t.back().conv == flag, "trace.flag-return", int(flag));
        VCHECK(s->results_->num_iters <= c.max_iters && s->results_->al_iters <= c.max_al, "trace.budget", s->results_->num_iters, " ", s->results_->al_iters);
        VCHECK(st.xs.size() == h0 + n && st.lams.size() == h0 + n && st.values.size() == h0 + n && st.prim_infeas.size() == h0 + n && st.dual_infeas.size() == h0 + n && st.alphas.size() == h0 + n && st.dmerit_dir.size() == h0 + n, "history.length", st.xs.size() - h0, " records for ", n, " callbacks");
        if (st.xs.size() == h0 + n && st.values.size() == h0 + n && st.lams.size() == h0 + n && st.prim_infeas.size() == h0 + n && st.dual_infeas.size() == h0 + n && st.alphas.size() == h0 + n && st.dmerit_dir.size() == h0 + n)
          for (size_t i = 0; i < n; i++) {
            const Rec &q = rec->t[i];
            auto same = [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); };
            bool ok = bitEq(st.xs[h0 + i], q.x) && bitEq(st.lams[h0 + i], q.lam) && same(st.values[h0 + i], q.value) && same(st.prim_infeas[h0 + i], q.prim) && same(st.dual_infeas[h0 + i], q.dual) && same(st.alphas[h0 + i], q.alpha) && same(st.dmerit_dir[h0 + i], q.dmerit);
            VCHECK(ok, "history.record", i, " of ", n, ": ", bitEq(st.xs[h0 + i], q.x), bitEq(st.lams[h0 + i], q.lam), " ", st.values[h0 + i], " ", q.value, " ", st.prim_infeas[h0 + i], " ", q.prim, " ", st.dual_infeas[h0 + i], " ", q.dual, " ", st.alphas[h0 + i], " ", q.alpha, " ", st.dmerit_dir[h0 + i], " ", q.dmerit);
            count("history.records");
          }
      }
    }
    sample(cat(p.desc, " | ", c.desc(), " | ", rec->t.size(), " callbacks"));
  });
}

int main(int argc, char **argv) {
  parse_args(argc, argv);
  switch (VF_PROP) {
  case 1:
    drive_c01();
    break;
  case 2:
    drive_c02();
    break;
  case 3:
    drive_trace(true, false);
    break;
  case 29:
    drive_trace(false, true);
    break;
  }
  return finish();
}

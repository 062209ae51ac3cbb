// C04 faults in user code, C05 repeatability and isolation, C06 merit function
// and multiplier estimates through the public entry points.
#include "common.hpp"
#include "solver.hpp"
#include "proxsuite-nlp/helpers/history-callback.hpp"
#include <thread>
#ifdef __GLIBC__
#include <malloc.h>
#endif
using namespace vf;

// everything a caller can read after a solve
struct Outcome {
  int flag = -9;
  std::string exc;
  V x, lam, viol;
  double value = 0, merit = 0, prim = 0, dual = 0, mu = 0, rho = 0;
  size_t it = 0, al = 0;
  std::vector<BVec> act;
};
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static bool sameV(const V &a, const V &b) {
  if (a.size() != b.size())
    return false;
  for (Index i = 0; i < a.size(); i++)
    if (!same(a[i], b[i]))
      return false;
  return true;
}
static std::string diff(const Outcome &a, const Outcome &b) {
  if (a.flag != b.flag)
    return cat("flag ", a.flag, " / ", b.flag, " ", a.exc, " / ", b.exc);
  if (a.exc.empty() != b.exc.empty())
    return cat("exception ", a.exc, " / ", b.exc);
  if (!sameV(a.x, b.x))
    return cat("x ", str(V(a.x)), " / ", str(V(b.x)));
  if (!sameV(a.lam, b.lam))
    return cat("lam ", str(V(a.lam)), " / ", str(V(b.lam)));
  if (!sameV(a.viol, b.viol))
    return cat("violations ", str(V(a.viol)), " / ", str(V(b.viol)));
  if (!same(a.value, b.value) || !same(a.merit, b.merit))
    return cat("value/merit ", a.value, " ", a.merit, " / ", b.value, " ", b.merit);
  if (!same(a.prim, b.prim) || !same(a.dual, b.dual))
    return cat("residuals ", a.prim, " ", a.dual, " / ", b.prim, " ", b.dual);
  if (!same(a.mu, b.mu) || !same(a.rho, b.rho))
    return cat("parameters ", a.mu, " ", a.rho, " / ", b.mu, " ", b.rho);
  if (a.it != b.it || a.al != b.al)
    return cat("iterations ", a.it, "/", a.al, " / ", b.it, "/", b.al);
  for (size_t i = 0; i < a.act.size() && i < b.act.size(); i++)
    if (a.act[i].size() != b.act[i].size() || (a.act[i].size() && (a.act[i].array() != b.act[i].array()).any()))
      return "active set";
  return "";
}
static Outcome outcome(const Solver &s, int flag) {
  const RS &r = *s.results_;
  Outcome o;
  o.flag = flag;
  o.x = r.x_opt, o.lam = r.data_lams_opt, o.viol = r.constraint_violations;
  o.value = r.value, o.merit = r.merit, o.prim = r.prim_infeas, o.dual = r.dual_infeas;
  o.mu = r.mu, o.rho = r.rho, o.it = r.num_iters, o.al = r.al_iters, o.act = r.active_set;
  return o;
}
/// l0 == nullptr: no multipliers are given
static Outcome run(Solver &s, const V &x0, const V *l0) {
  try {
    int f = l0 ? s.solve(x0, *l0) : s.solve(x0);
    return outcome(s, f);
  } catch (const std::runtime_error &e) {
    Outcome o = outcome(s, -2);
    o.exc = e.what();
    return o;
  }
}
static Outcome run(Solver &s, const V &x0, const V &l0) { return run(s, x0, &l0); }

#if VF_PROP == 4
// ---------------------------------------------------------------- C04
struct Odd {
  int v;
};
enum Op { VAL, GRAD, HESS, CVAL, CJAC, CVHP, NOP };
enum Kind { RUNTIME, LOGIC, ODD, NANS, NAN1, INFS, NINFS, NKIND };
struct Plan {
  long n[NOP] = {0, 0, 0, 0, 0, 0};
  long at = 0;      // index of the evaluation (of that operation) which fails
  Op op = VAL;
  Kind kind = RUNTIME;
  bool persistent = false, armed = false, in_trial_possible = false;
  long fired = 0;
  bool dirty[NOP] = {false, false, false, false, false, false};
  bool hit(Op o) {
    long k = n[o]++;
    dirty[o] = false;
    if (!armed || o != op || !(persistent ? k >= at : k == at))
      return false;
    fired++;
    if (kind == RUNTIME)
      throw std::runtime_error("vf-fault");
    if (kind == LOGIC)
      throw std::logic_error("vf-fault");
    if (kind == ODD)
      throw Odd{42};
    dirty[o] = true;
    return true;
  }
  template <class A> void spoil(A &&a) const {
    if (a.size() == 0)
      return;
    double v = kind == INFS ? INF : kind == NINFS ? -INF : std::nan("");
    if (kind == NANS)
      a.setConstant(v);
    else
      a((a.rows() + at) % a.rows(), (a.cols() / 2 + at) % a.cols()) = v; // anywhere
  }
};
struct FaultCost : Cost {
  CostPtr c;
  std::shared_ptr<Plan> p;
  FaultCost(CostPtr c_, std::shared_ptr<Plan> p_) : Cost(c_->nx(), c_->ndx()), c(c_), p(p_) {}
  using Cost::computeGradient;
  using Cost::computeHessian;
  double call(const CVR &x) const override {
    if (p->hit(VAL))
      return p->kind == INFS ? INF : p->kind == NINFS ? -INF : std::nan("");
    return c->call(x);
  }
  void computeGradient(const CVR &x, VR o) const override {
    bool h = p->hit(GRAD);
    c->computeGradient(x, o);
    if (h)
      p->spoil(o);
  }
  void computeHessian(const CVR &x, MR o) const override {
    bool h = p->hit(HESS);
    c->computeHessian(x, o);
    if (h)
      p->spoil(o);
  }
};
struct FaultFunc : F2 {
  std::shared_ptr<F2> f;
  std::shared_ptr<Plan> p;
  FaultFunc(std::shared_ptr<F2> f_, std::shared_ptr<Plan> p_) : F2(f_->nx(), f_->ndx(), f_->nr()), f(f_), p(p_) {}
  using F2::computeJacobian;
  V operator()(const CVR &x) const override {
    bool h = p->hit(CVAL);
    V o = (*f)(x);
    if (h)
      p->spoil(o);
    return o;
  }
  void computeJacobian(const CVR &x, MR J) const override {
    bool h = p->hit(CJAC);
    f->computeJacobian(x, J);
    if (h)
      p->spoil(J);
  }
  void vectorHessianProduct(const CVR &x, const CVR &v, MR H) const override {
    bool h = p->hit(CVHP);
    f->vectorHessianProduct(x, v, H);
    if (h)
      p->spoil(H);
  }
};

static bool probing = false;
static void fault_case(Rng &r) {
  Nlp p = r.coin(0.4) ? gen_convex(r, r.coin(), true) : gen_general(r);
  Config c = gen_config(r, p.vec);
  c.max_iters = size_t(r.in(5, 60));
  c.max_al = size_t(r.in(5, 50));
  Nlp q = p; // the same problem behind faulty functions
  auto plan = std::make_shared<Plan>();
  q.cost = std::make_shared<FaultCost>(p.cost, plan);
  int bad = q.blocks.empty() ? -1 : r.in(0, int(q.blocks.size()) - 1);
  if (bad >= 0)
    q.blocks[size_t(bad)].f = std::make_shared<FaultFunc>(p.blocks[size_t(bad)].f, plan);
  q.build();
  V l0 = r.coin(0.6) ? V(V::Zero(p.nc())) : r.vec(p.nc());
  // reference run, and how many evaluations there are
  auto ref = make_solver(*q.prob, c);
  ref->setup();
  Outcome good = run(*ref, q.x0, l0);
  plan->op = Op(r.in(0, bad >= 0 ? NOP - 1 : HESS));
  long total = plan->n[plan->op];
  plan->kind = Kind(r.in(0, NKIND - 1));
  plan->persistent = r.coin(0.4);
  plan->at = total ? (r.coin(0.3) ? r.in(0, int(std::min<long>(total, 3)) - 1) : r.in(0, int(total) - 1)) : 0;
  std::string what = cat("op ", plan->op, " kind ", plan->kind, " at ", plan->at, "/", total, plan->persistent ? " on" : "", " | ", p.desc, " | ", c.desc());
  auto s = make_solver(*q.prob, c);
  s->setup();
  for (auto &k : plan->n)
    k = 0;
  plan->armed = true;
  bool caught = false, mine = false;
  int flag = -9;
  std::string msg;
  try {
    flag = s->solve(q.x0, l0);
  } catch (const std::runtime_error &e) {
    caught = true;
    msg = e.what();
    mine = plan->kind == RUNTIME && msg == "vf-fault";
  } catch (const std::logic_error &e) {
    caught = true;
    msg = e.what();
    mine = plan->kind == LOGIC && msg == "vf-fault";
  } catch (const Odd &o) {
    caught = true;
    mine = plan->kind == ODD && o.v == 42;
  }
  plan->armed = false;
  bool thrown = plan->kind <= ODD && plan->fired > 0;
  bool trial_op = plan->op == VAL || plan->op == CVAL;
  if (thrown) {
    // only a runtime error in a trial evaluation may be absorbed
    if (plan->kind != RUNTIME || !trial_op || plan->at == 0)
      VCHECK(caught && mine, "fault.swallowed", "the user's exception did not reach the caller: flag ", flag, " ", msg, " ", what);
    else if (caught)
      VCHECK(mine || good.flag == -2, "fault.replaced", msg, " ", what);
    count(caught ? "thrown.propagated" : "thrown.absorbed");
  }
  if (plan->kind >= NANS && plan->fired) {
    count(caught ? "nan.exception" : flag == 0 ? "nan.recovered" : "nan.no-success");
    if (flag == 0) {
      bool clean = !plan->dirty[GRAD] && !plan->dirty[CVAL] && !plan->dirty[CJAC];
      VCHECK(clean, "fault.false-success", "success although the last evaluation was not finite: ", what);
      VCHECK(s->results_->x_opt.allFinite() && s->results_->data_lams_opt.allFinite(), "fault.nonfinite-answer", what);
    }
    if (!caught)
      VCHECK(s->results_->x_opt.allFinite() && s->results_->data_lams_opt.allFinite(), "fault.nonfinite-iterate", "flag ", flag, " ", what);
  }
  if (caught) {
    VCHECK(s->results_->converged != ConvergenceFlag::SUCCESS, "fault.stale-flag", what);
    count("exceptions");
  }
  if (flag == 0 && plan->fired) { // the answer must be a genuine one
    V g(p.space->ndx());
    p.cost->computeGradient(s->results_->x_opt, g);
    V cx = p.c(s->results_->x_opt), lam = s->results_->data_lams_opt;
    M J = p.J(s->results_->x_opt);
    double gs = 1 + maxabs(g) + (J.size() ? double((J.cwiseAbs().transpose() * lam.cwiseAbs()).maxCoeff()) : 0.);
    double d = maxabs(V(g + J.transpose() * lam)), mu = s->results_->mu;
    double e = maxabs(V(cx - p.prox(V(cx + mu * lam), mu)));
    VCHECK(d <= c.tol * (1 + 1e-6) + 1e-12 * gs && e <= c.tol * (1 + 1e-6) + 1e-12 * (1 + maxabs(cx)), "fault.wrong-success", d, " ", e, " ", what);
    count("success-after-fault");
  }
  // the solver works again, as if nothing had happened
  if (r.coin(0.5) || c.hess == HessianApprox::BFGS) {
    s->setup();
    count("reuse.setup");
  } else
    count("reuse.direct");
  Outcome again = run(*s, q.x0, l0);
  std::string df = diff(good, again);
  VCHECK(df.empty(), "fault.reuse", "a solve after a failed one differs from a fresh solver: ", df, " | ", what);
  if (plan->fired) {
    count(cat("fired.op", plan->op));
    count(cat("fired.kind", plan->kind));
    nontrivial(hcomb(hcomb(plan->op * 8 + plan->kind, uint64_t(plan->at)), c.hash()));
  }
  if (!probing)
    sample(what);
}
static void drive() {
  heap_hooks_install();
  run_cases("fault", 4000, [&](long i, Rng &r) {
    if (i % 20 == 0) {
      uint64_t st = r.s;
      probing = true;
      long l = leaked_blocks([&] {
        r.s = st;
        fault_case(r);
      }, 2);
      probing = false;
      VCHECK(l == 0, "fault.leak", l, " blocks");
      count("leak-probes");
    } else
      fault_case(r);
  });
}
#endif

#if VF_PROP == 5
// ---------------------------------------------------------------- C05
struct Made {
  Nlp p;
  Config c;
  V l0;
};
static Made make_case(Rng &r, int maxit) {
  Made m;
  m.p = r.coin(0.4) ? gen_convex(r, r.coin(), true) : gen_general(r);
  m.c = gen_config(r, m.p.vec);
  m.c.max_iters = size_t(r.in(3, maxit));
  m.c.max_al = size_t(r.in(3, 100));
  m.l0 = r.coin(0.5) ? V(V::Zero(m.p.nc())) : r.vec(m.p.nc());
  return m;
}
static Outcome fresh(const Made &m) {
  auto s = make_solver(*m.p.prob, m.c);
  s->setup();
  return run(*s, m.p.x0, m.l0);
}
/// values of every function of the problem at a point, as one vector
static V footprint(const Nlp &p, const V &x) {
  std::vector<double> o;
  auto put = [&](const M &a) { o.insert(o.end(), a.data(), a.data() + a.size()); };
  o.push_back(p.cost->call(x));
  V g(p.space->ndx());
  p.cost->computeGradient(x, g);
  put(g);
  M H(g.size(), g.size());
  p.cost->computeHessian(x, H);
  put(H);
  put(p.c(x));
  put(p.J(x));
  put(V(p.space->neutral()));
  return Eigen::Map<V>(o.data(), Index(o.size()));
}
#ifdef VF_PERTURB
// the outcome may not depend on the contents of fresh memory
static void drive() {
  run_cases("heap-contents", 1500, [&](long, Rng &r) {
    uint64_t st = r.s;
    Outcome first;
    for (int k = 0; k < 3; k++) {
      mallopt(M_PERTURB, k == 0 ? 0x5a : k == 1 ? 0xff : 0x80);
      r.s = st;
      Made m = make_case(r, 40);
      Outcome o;
      if (r.coin(0.3)) { // without initial multipliers
        auto t = make_solver(*m.p.prob, m.c);
        t->setup();
        o = run(*t, m.p.x0, nullptr);
        count("heap-runs-no-multipliers");
      } else
        o = fresh(m);
      if (k == 0)
        first = o;
      else {
        std::string d = diff(first, o);
        VCHECK(d.empty(), "repeat.heap-contents", d, " | ", m.p.desc, " | ", m.c.desc());
        count("heap-runs");
      }
      if (k == 2) {
        nontrivial(hcomb(m.c.hash(), hdouble(o.x.sum())));
        sample(cat(m.p.desc, " | ", m.c.desc()));
      }
    }
    mallopt(M_PERTURB, 0);
  });
}
#elif defined(VF_THREADS)
// separate problems on separate threads
static void drive() {
  run_cases("threads", 60, [&](long, Rng &r) {
    const int T = 6, K = 4;
    std::vector<uint64_t> seeds;
    std::vector<Outcome> seq(T * K), par(T * K);
    for (int i = 0; i < T * K; i++)
      seeds.push_back(r.next());
    auto job = [&](int i, std::vector<Outcome> &o) {
      Rng q(seeds[size_t(i)]);
      Made m = make_case(q, 30);
      o[size_t(i)] = fresh(m);
    };
    for (int i = 0; i < T * K; i++)
      job(i, seq);
    std::atomic<int> ready{0};
    std::vector<std::thread> th;
    for (int t = 0; t < T; t++)
      th.emplace_back([&, t] {
        ready++;
        while (ready < T)
          std::this_thread::yield();
        for (int k = 0; k < K; k++)
          job(t * K + k, par);
      });
    for (auto &t : th)
      t.join();
    for (int i = 0; i < T * K; i++) {
      std::string d = diff(seq[size_t(i)], par[size_t(i)]);
      VCHECK(d.empty(), "isolation.threads", "a solve on its own thread differs: ", d);
      count("thread-solves");
      nontrivial(hdouble(seq[size_t(i)].x.sum()));
    }
  });
}
#else
static void drive() {
  run_cases("repeat", 3000, [&](long, Rng &r) {
    Made m = make_case(r, 60);
    std::string what = cat(m.p.desc, " | ", m.c.desc());
    V x0 = m.p.x0, l0 = m.l0, probe = m.p.space->integrate(m.p.space->neutral(), rtangent(*m.p.space, r, 0.4));
    V fp = footprint(m.p, probe);
    auto s = make_solver(*m.p.prob, m.c);
    s->setup();
    Outcome a = run(*s, x0, l0);
    VCHECK(bitEq(x0, m.p.x0) && bitEq(l0, m.l0), "repeat.inputs-changed", what);
    V fp2 = footprint(m.p, probe);
    VCHECK(sameV(fp, fp2), "repeat.problem-changed", "the user's functions evaluate differently after a solve: ", what);
    auto chk = [&](const char *key, const Outcome &b) {
      std::string d = diff(a, b);
      VCHECK(d.empty(), key, d, " | ", what);
      count("comparisons");
      count(key);
    };
    chk("repeat.fresh-solver", fresh(m));
    bool bf = m.c.hess == HessianApprox::BFGS;
    switch (r.in(0, 11)) {
    case 10: { // no multipliers given to a new solver: they start at zero
      auto t = make_solver(*m.p.prob, m.c), u = make_solver(*m.p.prob, m.c);
      t->setup();
      u->setup();
      Outcome b = run(*t, x0, nullptr), c = run(*u, x0, V(V::Zero(m.p.nc())));
      std::string d = diff(b, c);
      VCHECK(d.empty(), "repeat.no-multipliers", d, " | ", what);
      count("comparisons");
      count("repeat.no-multipliers");
      break;
    }
    case 0: { // same solver again
      if (bf)
        s->setup();
      chk("repeat.same-solver", run(*s, x0, l0));
      break;
    }
    case 1: // after setup
      s->setup();
      chk("repeat.after-setup", run(*s, x0, l0));
      break;
    case 2: { // after another run from elsewhere, budget, tolerance
      V y = m.p.space->integrate(x0, rtangent(*m.p.space, r, 0.5));
      auto t = make_solver(*m.p.prob, m.c);
      t->setup();
      t->max_iters = size_t(r.in(0, 5));
      t->target_tol = 1e-3;
      run(*t, y, r.vec(m.p.nc()));
      t->max_iters = m.c.max_iters;
      t->target_tol = m.c.tol;
      if (bf || r.coin())
        t->setup();
      chk("repeat.after-other-run", run(*t, x0, l0));
      break;
    }
    case 3: { // another solver with other parameters worked on the same problem
      Config c2 = gen_config(r, m.p.vec);
      c2.max_iters = 10;
      auto t = make_solver(*m.p.prob, c2);
      t->setup();
      auto s2 = make_solver(*m.p.prob, m.c);
      s2->setup();
      run(*t, x0, l0);
      chk("repeat.other-solver", run(*s2, x0, l0));
      break;
    }
    case 4: { // multipliers given block by block
      auto t = make_solver(*m.p.prob, m.c);
      t->setup();
      std::vector<V> parts;
      Index k = 0;
      for (auto &b : m.p.blocks) {
        parts.push_back(l0.segment(k, b.m.n()));
        k += b.m.n();
      }
      std::vector<Eigen::Ref<V>> refs(parts.begin(), parts.end());
      Outcome o;
      try {
        int f = t->solve(x0, refs);
        o = outcome(*t, f);
      } catch (const std::runtime_error &e) {
        o = outcome(*t, -2);
        o.exc = e.what();
      }
      chk("repeat.blockwise-multipliers", o);
      std::vector<Eigen::Ref<V>> shorter(refs.begin(), refs.end());
      V extra(2);
      shorter.emplace_back(extra);
      bool threw = false;
      try {
        t->solve(x0, shorter);
      } catch (const std::runtime_error &) {
        threw = true;
      }
      VCHECK(threw, "repeat.wrong-number-of-blocks", what);
      break;
    }
    case 5: { // warm start from the solver's own storage, or from copies
      Made m2 = m;
      V xs = s->results_->x_opt, ls = s->results_->data_lams_opt;
      if (!xs.allFinite() || !ls.allFinite() || bf)
        break;
      auto t = make_solver(*m.p.prob, m.c);
      t->setup();
      Outcome u = run(*t, xs, ls), v;
      try {
        int f = s->solve(s->results_->x_opt, s->results_->data_lams_opt);
        v = outcome(*s, f);
      } catch (const std::runtime_error &e) {
        v = outcome(*s, -2);
        v.exc = e.what();
      }
      std::string d = diff(u, v);
      VCHECK(d.empty(), "repeat.aliased-warm-start", d, " | ", what);
      count("comparisons");
      count("repeat.aliased-warm-start");
      break;
    }
    case 6: { // observers do not disturb
      auto t = make_solver(*m.p.prob, m.c);
      t->setup();
      auto rec = std::make_shared<Recorder>();
      t->registerCallback(rec);
      t->registerCallback(std::make_shared<helpers::history_callback<double>>());
      t->verbose = VERBOSE;
      t->logger.active = r.coin();
      chk("repeat.with-observers", run(*t, x0, l0));
      if (!rec->t.empty() && a.exc.empty())
        VCHECK(sameV(rec->t.back().x, a.x), "repeat.last-record", what);
      size_t n = rec->t.size();
      t->clearCallbacks();
      if (!bf)
        chk("repeat.callbacks-cleared", run(*t, x0, l0));
      VCHECK(rec->t.size() == n, "repeat.cleared-callback-called", what);
      break;
    }
    case 7: { // a copy of the problem is independent
      Prob q(*m.p.prob);
      auto t = make_solver(q, m.c);
      t->setup();
      chk("repeat.copied-problem", run(*t, x0, l0));
      q.addConstraint(ConstraintObjectTpl<double>(std::make_shared<LinearFunctionDifferenceToPoint<double>>(m.p.space, x0, M(r.mat(1, m.p.space->ndx())), V(r.vec(1))), PSet(EqualityConstraintTpl<double>())));
      VCHECK(m.p.prob->getNumConstraints() == m.p.blocks.size() && q.getNumConstraints() == m.p.blocks.size() + 1, "isolation.copied-problem-size", what);
      auto w = make_solver(q, m.c);
      w->setup();
      run(*w, x0, V(V::Zero(m.p.nc() + 1)));
      chk("isolation.copied-problem", fresh(m));
      break;
    }
    case 8: { // interleaved with a solver of another problem, from its callback
      Made m2 = make_case(r, 20);
      auto t2 = make_solver(*m2.p.prob, m2.c);
      t2->setup();
      Outcome b2 = fresh(m2), o2;
      auto t = make_solver(*m.p.prob, m.c);
      t->setup();
      auto rec = std::make_shared<Recorder>();
      bool done = false;
      rec->extra = [&](const WS &, const RS &) {
        if (!done) {
          done = true;
          o2 = run(*t2, m2.p.x0, m2.l0);
        }
      };
      t->registerCallback(rec);
      chk("isolation.nested", run(*t, x0, l0));
      if (done) {
        std::string d = diff(b2, o2);
        VCHECK(d.empty(), "isolation.nested-inner", d, " | ", what);
      }
      break;
    }
    case 9: { // solved one iteration budget at a time, the prefix is the same
      auto t = make_solver(*m.p.prob, m.c);
      t->setup();
      auto rec = std::make_shared<Recorder>();
      t->registerCallback(rec);
      run(*t, x0, l0);
      if (rec->t.size() > 3) {
        Made m2 = m;
        m2.c.max_iters = size_t(r.in(1, int(rec->t.size()) - 2));
        Outcome o = fresh(m2);
        VCHECK(o.flag == ConvergenceFlag::MAX_ITERS_REACHED && sameV(o.x, rec->t[m2.c.max_iters - 1].x), "repeat.prefix", "flag ", o.flag, " after ", m2.c.max_iters, " ", what);
        count("comparisons");
        count("repeat.prefix");
      }
      break;
    }
    default: { // the settings objects are read, not kept: change after the solve
      auto t = make_solver(*m.p.prob, m.c);
      t->setup();
      Outcome b = run(*t, x0, l0);
      std::string d = diff(a, b);
      VCHECK(d.empty(), "repeat.second-solver", d, " | ", what);
      auto t3 = make_solver(*m.p.prob, m.c);
      bool threw = false;
      try {
        t3->solve(x0, l0);
      } catch (const std::runtime_error &) {
        threw = true;
      }
      VCHECK(threw, "repeat.no-setup", "solve() before setup() must refuse");
      count("no-setup-refused", threw);
    }
    }
    count(cat("flag.", a.flag));
    nontrivial(hcomb(m.c.hash(), hdouble(a.x.sum())));
    sample(what);
  });
}
#endif
#endif

#if VF_PROP == 6
// ---------------------------------------------------------------- C06
static void drive() {
  run_cases("merit", 4000, [&](long, Rng &r) {
    Nlp p = r.coin(0.3) ? gen_convex(r, r.coin(), true) : gen_general(r);
    Config c = gen_config(r, p.vec);
    c.kkt = r.coin() ? KKT_CLASSIC : KKT_PRIMAL_DUAL;
    auto s = make_solver(*p.prob, c);
    s->setup();
    WS &w = *s->workspace_;
    RS &res = *s->results_;
    Index ndx = p.space->ndx(), nc = p.nc();
    std::string what = cat(p.desc, " ");
    for (int k = 0, K = r.in(1, 4); k < K; k++) {
      double mu = r.coin(0.25) ? r.logu(1e-9, 1e-4) : r.logu(1e-4, 2.);
      V x = p.space->integrate(p.x0, rtangent(*p.space, r, 0.4)), lam = r.vec(nc), le = r.vec(nc);
      s->setPenalty(mu);
      for (size_t b = 0; b < p.blocks.size(); b++)
        VCHECK(p.prob->getConstraint(b).set_->mu() == mu, "penalty.set", b);
      w.data_lams_prev = le;
      res.x_opt = x;
      res.data_lams_opt = lam;
      auto eval = [&](const V &xx, const V &ll) {
        p.prob->evaluate(xx, w);
        s->computeMultipliers(ll, w);
        res.data_lams_opt = ll;
        return s->merit_fun.evaluate(xx, res.lams_opt, w);
      };
      double m0 = eval(x, lam);
      Point P(p, x, lam, le, mu, 0., x);
      double tl = 1e-12 * P.mag / mu + 1e-11 * (1 + maxabs(P.lplus) + maxabs(P.lpdal));
      VCHECK(w.objective_value == P.f && maxdiff(w.data_cstr_values, P.c) == 0, "problem.values", what);
      VCHECK(maxdiff(w.data_shift_cstr_values, P.z) <= 1e-13 * P.mag, "shifted.constraint", what);
      VCHECK(maxdiff(w.data_shift_cstr_pdal, P.zpd) <= 1e-13 * P.mag, "shifted.primal-dual", what);
      VCHECK(maxdiff(w.data_lams_plus, P.lplus) <= tl, "estimate.first-order", str(w.data_lams_plus), " expected ", str(P.lplus), " mu ", mu, " ", what);
      VCHECK(maxdiff(w.data_lams_pdal, P.lpdal) <= tl, "estimate.primal-dual", str(w.data_lams_pdal), " expected ", str(P.lpdal), " mu ", mu, " ", what);
      VCHECK(close(m0, P.merit(p), 1e-11 * P.merit_scale()), "merit.value", m0, " expected ", P.merit(p), " mu ", mu, " ", what);
      for (size_t b = 0; b < p.blocks.size(); b++)
        VCHECK(p.prob->getConstraint(b).set_->mu() == mu, "penalty.kept", "evaluating the merit function changed the parameter of set ", b, ": ", p.prob->getConstraint(b).set_->mu(), " mu ", mu);
      // reprojections keep the rows which are not active
      for (Index i = 0; i < nc; i++) {
        auto co = p.comp(int(i));
        if (SetModel::kink1(co, P.z[i], mu) < 1e-9 || SetModel::kink1(co, P.zpd[i], 0.5 * mu) < 1e-9)
          continue;
        double e1 = SetModel::act1(co, P.z[i], mu) ? 0 : P.lplus[i], e2 = SetModel::act1(co, P.zpd[i], 0.5 * mu) ? 0 : P.lpdal[i];
        VCHECK(close(w.data_lams_plus_reproj[i], e1, tl) && close(w.data_lams_pdal_reproj[i], e2, tl), "estimate.reprojected", i, ": ", w.data_lams_plus_reproj[i], " ", w.data_lams_pdal_reproj[i], " expected ", e1, " ", e2, " ", what);
        // signs
        if (co.k == SetModel::NEG)
          VCHECK(w.data_lams_plus[i] >= 0 && w.data_lams_pdal[i] >= 0, "estimate.sign", what);
        if (co.k == SetModel::L1)
          VCHECK(std::abs(w.data_lams_plus[i]) <= 1 + tl && std::abs(w.data_lams_pdal[i]) <= 1 + tl, "estimate.l1-ball", what);
        count("estimates");
      }
      // gradient
      if (r.coin())
        s->computeProblemDerivatives(x, w, boost::mpl::false_());
      else
        s->computeProblemDerivatives(x, w, boost::mpl::true_());
      VCHECK(maxdiff(w.objective_gradient, P.g) <= 1e-12 * (1 + maxabs(P.g)) && maxdiff(w.data_jacobians, P.J) <= 1e-12 * (1 + maxabs(P.J)), "problem.derivatives", what);
      s->merit_fun.computeGradient(res.lams_opt, w);
      V mg = P.meritgrad(p);
      double gs = 1e-10 * (1 + maxabs(mg) + maxabs(P.g)) + tl * (1 + maxabs(P.J)) * double(1 + nc);
      VCHECK(maxdiff(w.merit_gradient, V(mg.head(ndx))) <= gs, "merit.gradient-primal", str(w.merit_gradient), " expected ", str(V(mg.head(ndx))), " ", what);
      VCHECK(maxdiff(w.merit_dual_gradient, V(mg.tail(nc))) <= gs, "merit.gradient-dual", str(w.merit_dual_gradient), " expected ", str(V(mg.tail(nc))), " ", what);
      V gx = w.merit_gradient, gl = w.merit_dual_gradient;
      // primal residuals
      s->computePrimalResiduals(w, res);
      V pr = P.primres(p);
      VCHECK(close(res.prim_infeas, maxabs(pr), 1e-12 * P.mag), "residual.primal", res.prim_infeas, " expected ", maxabs(pr), " ", what);
      Index kk = 0;
      for (size_t b = 0; b < p.blocks.size(); b++) {
        VCHECK(close(res.constraint_violations[Index(b)], maxabs(V(pr.segment(kk, p.blocks[b].m.n()))), 1e-12 * P.mag), "residual.block", b, " ", what);
        kk += p.blocks[b].m.n();
      }
      // projected Jacobian of the chosen system
      for (Index i = 0; i < nc; i++) {
        auto co = p.comp(int(i));
        bool cl = c.kkt == KKT_CLASSIC;
        double z = cl ? P.z[i] : P.zpd[i], m = cl ? mu : 0.5 * mu;
        if (SetModel::kink1(co, z, m) < 1e-9)
          continue;
        V want = SetModel::act1(co, z, m) ? V(P.J.row(i).transpose()) : V(V::Zero(ndx));
        VCHECK(maxdiff(V(w.data_jacobians_proj.row(i).transpose()), want) <= 1e-12 * (1 + maxabs(P.J)), "projected-jacobian", i, " ", what);
        count("projected-rows");
      }
      // trial steps
      V dx = rtangent(*p.space, r, 0.3), dl = r.vec(nc);
      w.prim_step = dx;
      w.dual_step = dl;
      double al = r.pick(std::vector<double>{0., 1., 0.5, r.u01()});
      s->tryStep(w, res, al);
      V xt = p.space->integrate(x, V(al * dx));
      VCHECK(maxdiff(w.x_trial, xt) <= 1e-13 * (1 + maxabs(xt)) && maxdiff(w.data_lams_trial, V(lam + al * dl)) <= 1e-13 * (1 + maxabs(lam) + maxabs(dl)), "trial-step", al, " ", what);
      VCHECK(bitEq(res.x_opt, x) && bitEq(res.data_lams_opt, lam), "trial-step.changed-iterate", what);
      // the gradient is the derivative of the value, where that exists
      if (P.kink(p) > 1e-3 * P.mag && mu > 1e-2) {
        V pd(ndx + nc);
        pd << dx, dl;
        pd /= std::max(1., pd.norm());
        double h = 1e-4;
        auto at = [&](double t) {
          V xx = p.space->integrate(x, V(t * pd.head(ndx)));
          return eval(xx, V(lam + t * pd.tail(nc)));
        };
        double d1 = (at(h) - at(-h)) / (2 * h), d2 = (at(2 * h) - at(-2 * h)) / (4 * h);
        double fd = (4 * d1 - d2) / 3, an = gx.dot(pd.head(ndx)) + gl.dot(pd.tail(nc));
        bool smooth = true; // no kink crossed nearby
        for (double t : {-2 * h, -h, h, 2 * h}) {
          Point Q(p, p.space->integrate(x, V(t * pd.head(ndx))), V(lam + t * pd.tail(nc)), le, mu, 0., x);
          for (Index i = 0; i < nc; i++) {
            auto co = p.comp(int(i));
            smooth = smooth && SetModel::act1(co, Q.zpd[i], 0.5 * mu) == SetModel::act1(co, P.zpd[i], 0.5 * mu);
          }
        }
        if (smooth) {
          VCHECK(close(fd, an, 1e-6 * (1 + std::abs(an) + maxabs(mg)) + 1e-9 * P.merit_scale()), "merit.derivative", "difference quotient ", fd, " gradient ", an, " ", what);
          count("derivatives");
        }
      }
      count("points");
      nontrivial(hcomb(hdouble(m0), hdouble(mu)));
    }
    sample(what);
  });
}
#endif

int main(int argc, char **argv) {
  parse_args(argc, argv);
  drive();
  return finish();
}

// Offline checker of one solver run: replays the recorded callbacks against
// an independent statement of the method (outer BCL loop, inner Newton steps).
#pragma once
#include "solver.hpp"
namespace vf {
struct Replay {
  const Nlp &p;
  const Config &c;
  const std::vector<Rec> &t;
  bool logic, kkt; // which family of checks to report
  std::string what;
  double prim_tol = 0, inner_tol = 0;
  V x, lam, lprev, target;
  double mu, rho;
  size_t al = 0;
  bool ambiguous = false;
  long steps = 0, outers = 0, rejected = 0, accepted = 0;
  M B;
  bool bfgs_first = true;
  V bx, bg;

  Replay(const Nlp &p_, const Config &c_, const std::vector<Rec> &t_, bool lg, bool kk) : p(p_), c(c_), t(t_), logic(lg), kkt(kk) {}
  template <class... A> void lcheck(bool ok, const char *key, A &&...a) {
    if (logic && !ok)
      violation(key, cat(a..., " | ", what));
  }
  template <class... A> void kcheck(bool ok, const char *key, A &&...a) {
    if (kkt && !ok)
      violation(key, cat(a..., " | ", what));
  }
  void tol_fail() {
    prim_tol = std::max(c.prim_tol0 * std::pow(mu, c.pa), c.tol);
    inner_tol = std::max(c.inner_tol0 * std::pow(mu, c.da), c.inner_tol_min);
  }
  void tol_ok() {
    prim_tol = std::max(prim_tol * std::pow(mu / c.mu_upper, c.pb), c.tol);
    inner_tol = std::max(inner_tol * std::pow(mu / c.mu_upper, c.db), c.inner_tol_min);
  }
  static bool near(double a, double b, double slack) { return std::abs(a - b) <= slack + 1e-9 * (std::abs(a) + std::abs(b)); }

  struct Crit {
    double inner, prim, dual, slack;
    V tail;
  };
  Crit crit(const Point &P) const {
    Crit q;
    V d = P.g + P.J.transpose() * P.lam;
    q.tail = c.kkt == KKT_CLASSIC ? V(P.mu * (P.lplus - P.lam)) : V(0.5 * P.mu * (P.lpdal - P.lam));
    q.inner = std::max(maxabs(V(d + P.proxgrad(p))), maxabs(q.tail));
    q.prim = maxabs(P.primres(p));
    q.dual = maxabs(d);
    double js = P.J.size() ? double((P.J.cwiseAbs().transpose() * P.lam.cwiseAbs()).maxCoeff()) : 0.;
    q.slack = 1e-13 * (1 + maxabs(P.g) + js + P.mag);
    return q;
  }
  /// the outer update after an inner loop which ended with these residuals
  bool outer(const Point *P, double prim) {
    outers++;
    target = x;
    if (near(prim, prim_tol, 1e-13)) {
      ambiguous = true;
      return false;
    }
    if (prim < prim_tol) {
      accepted++;
      if (c.mul == MultiplierUpdateMode::NEWTON)
        lprev = lam;
      else if (!P) {
        ambiguous = true;
        return false;
      } else
        lprev = c.mul == MultiplierUpdateMode::PRIMAL ? P->lplus : P->lpdal;
      lam = lprev;
      tol_ok();
    } else {
      rejected++;
      mu = mu == c.mu_lower ? c.mu0 : std::max(mu * c.mu_factor, c.mu_lower);
      tol_fail();
    }
    rho *= c.rho_factor;
    al++;
    return true;
  }
  bool exits(const Crit &q, bool &sure) const {
    bool e = q.inner <= inner_tol || std::max(q.prim, q.dual) <= c.tol;
    sure = !near(q.inner, inner_tol, q.slack) && !near(std::max(q.prim, q.dual), c.tol, q.slack);
    return e;
  }
  Point point() const { return Point(p, x, lam, lprev, mu, rho, target); }

  void run(const V &x0, const V &lam0) {
    x = target = x0;
    lam = lprev = lam0;
    mu = c.mu0;
    rho = c.rho0;
    tol_fail();
    lcheck(!t.empty(), "trace.no-final-callback", "no callback at all");
    if (t.empty())
      return;
    lcheck(t.back().it == t.size() - 1, "trace.callback-count", "callbacks ", t.size(), " iterations ", t.back().it);
    if (c.max_iters == 0 || c.max_al == 0) { // no budget: nothing may happen
      lcheck(t.size() == 1 && t[0].conv != ConvergenceFlag::SUCCESS && t[0].al == 0, "trace.no-budget", t.size(), " callbacks, flag ", t[0].conv);
      lcheck(maxdiff(t[0].x, x0) == 0, "trace.no-budget-point", str(t[0].x));
      count("runs.no-budget");
      return;
    }
    bool just_accepted = false;
    for (size_t k = 0; k < t.size() && !ambiguous; k++) {
      const Rec &r = t[k];
      bool fin = k + 1 == t.size();
      lcheck(r.it == k, "trace.iteration-number", r.it, " at callback ", k);
      if (r.it != k)
        return;
      while (al < r.al || fin) {
        if (fin && size_t(steps) >= c.max_iters) {
          lcheck(r.conv == ConvergenceFlag::MAX_ITERS_REACHED, "trace.flag-max-iters", "flag ", r.conv, " after ", steps, " steps");
          if (c.max_iters > 0)
            lcheck(r.al == al + 1 || r.al == al, "trace.al-count-max-iters", r.al, " expected ", al + 1);
          lcheck(maxdiff(r.x, x) == 0, "trace.final-x", "final point differs from the last iterate");
          return;
        }
        Point P = point();
        Crit q = crit(P);
        bool sure, e = exits(q, sure);
        lcheck(e || !sure, "trace.inner-exit", "inner loop ", al, " ended at step ", k, " with criterion ", q.inner, " > ", inner_tol, " residuals ", q.prim, " ", q.dual);
        bool conv = std::max(q.prim, q.dual) < c.tol;
        bool csure = !near(std::max(q.prim, q.dual), c.tol, q.slack);
        if (fin && al == r.al && r.conv == ConvergenceFlag::SUCCESS) {
          lcheck(conv || !csure, "trace.false-success", "prim ", q.prim, " dual ", q.dual);
          lcheck(maxdiff(r.x, x) == 0 && maxdiff(r.lam, lam) <= (just_accepted ? 1e-9 * (1 + maxabs(lam)) + 1e-12 * P.mag / mu : 0.), "trace.final-point", "the returned point is not the last iterate: ", str(r.lam), " vs ", str(lam));
          lcheck(close(r.prim, q.prim, 1e-9 * (1 + q.prim) + 10 * q.slack) && close(r.dual, q.dual, 1e-9 * (1 + q.dual) + 10 * q.slack), "trace.final-residuals", r.prim, " ", q.prim, " ", r.dual, " ", q.dual);
          lcheck(close(r.value, P.f, 1e-10 * (1 + std::abs(P.f))), "trace.final-value", r.value, " ", P.f);
          lcheck(close(r.merit, P.merit(p), 1e-9 * P.merit_scale()), "trace.final-merit", r.merit, " ", P.merit(p));
          lcheck(r.mu == mu && close(r.rho, rho, 1e-12 * rho), "trace.final-parameters", r.mu, " ", mu, " ", r.rho, " ", rho);
          count("runs.success");
          return;
        }
        lcheck(!conv || !csure, "trace.missed-success", "outer iteration ", al, " residuals ", q.prim, " ", q.dual);
        if (conv)
          return;
        if (fin && al >= r.al) {
          lcheck(false, "trace.end", "run ended with flag ", r.conv, " in outer iteration ", al, " of ", r.al);
          return;
        }
        long acc0 = accepted;
        if (!outer(&P, q.prim))
          break;
        just_accepted = just_accepted || accepted > acc0;
        if (fin && al == r.al && al >= c.max_al) {
          lcheck(r.conv != ConvergenceFlag::SUCCESS, "trace.flag-max-al", r.conv);
          count("runs.max-al");
          return;
        }
        if (al > c.max_al) {
          lcheck(false, "trace.al-budget", al, " > ", c.max_al);
          return;
        }
      }
      if (ambiguous)
        break;
      if (fin)
        return;
      step(r, just_accepted);
      just_accepted = false;
    }
    if (ambiguous)
      count("ambiguous");
  }

  void step(const Rec &r, bool just_accepted) {
    Index ndx = p.space->ndx(), nc = p.nc();
    lcheck(r.al == al, "trace.al-number", r.al, " expected ", al);
    lcheck(r.conv == ConvergenceFlag::UNINIT, "trace.flag-running", r.conv);
    lcheck(close(r.mu, mu, 1e-12 * mu), "trace.penalty", "penalty ", r.mu, " expected ", mu, " outer ", al);
    lcheck(close(r.rho, rho, 1e-12 * rho), "trace.prox-parameter", r.rho, " expected ", rho, " outer ", al);
    double lt = c.mul == MultiplierUpdateMode::NEWTON ? 0. : 1e-9 * (1 + maxabs(lprev)) + 1e-12 * (1 + maxabs(lprev) * mu) / mu;
    lcheck(maxdiff(r.prev_lam, lprev) <= lt, "trace.multiplier-reference", str(r.prev_lam), " expected ", str(lprev), " outer ", al);
    lcheck(maxdiff(r.prev_x, target) == 0, "trace.previous-point", str(r.prev_x), " expected ", str(target));
    if (r.prev_lam.size() == lprev.size()) {
      lprev = r.prev_lam;
      if (just_accepted)
        lam = lprev;
    }
    mu = r.mu;
    Point P = point();
    Crit q = crit(P);
    bool sure, e = exits(q, sure);
    lcheck(!e || !sure, "trace.step-after-exit", "a step was taken although the inner criterion ", q.inner, " <= ", inner_tol, " or the residuals ", q.prim, " ", q.dual, " are small, step ", steps);
    lcheck(close(r.prim, q.prim, 1e-9 * (1 + q.prim) + 10 * q.slack), "trace.prim", r.prim, " expected ", q.prim);
    lcheck(close(r.dual, q.dual, 1e-9 * (1 + q.dual) + 10 * q.slack), "trace.dual", r.dual, " expected ", q.dual);
    lcheck(close(r.value, P.f, 1e-10 * (1 + std::abs(P.f))), "trace.value", r.value, " expected ", P.f);
    bool finite = P.mag < 1e12 && std::isfinite(P.f) && std::abs(P.f) < 1e12 && maxabs(x) < 1e8;
    V dx = r.pd.head(ndx), dl = r.pd.tail(nc);
    // the step taken
    lcheck(r.alpha > 0 && r.alpha <= 1 && r.alpha >= c.ls.alpha_min * (1 - 1e-12), "trace.alpha", r.alpha);
    V xn(p.space->nx());
    V adx = r.alpha * dx;
    p.space->integrate(x, adx, xn);
    lcheck(maxdiff(r.x, xn) <= 1e-10 * (1 + maxabs(xn)), "trace.x-step", str(r.x), " expected ", str(xn), " alpha ", r.alpha);
    V ln = lam + r.alpha * dl;
    lcheck(maxdiff(r.lam, ln) <= 1e-10 * (1 + maxabs(lam) + maxabs(dl)), "trace.lam-step", str(r.lam), " expected ", str(ln), " alpha ", r.alpha);
    if (finite && P.kink(p) > 1e-9 * P.mag) {
      V mg = P.meritgrad(p);
      V pd = r.pd;
      double dm = mg.dot(pd), ds = mg.cwiseAbs().dot(pd.cwiseAbs()) + 1e-14 * P.mag / mu * pd.cwiseAbs().sum();
      lcheck(close(r.dmerit, dm, 1e-6 * ds + 1e-11 * P.mag / mu * V(pd.cwiseAbs()).sum() * (1 + maxabs(P.J)) + 1e-14), "trace.dmerit", r.dmerit, " expected ", dm);
      Point Q(p, r.x, r.lam, lprev, mu, rho, target);
      double m0 = P.merit(p), m1 = Q.merit(p), sc = P.merit_scale() + Q.merit_scale();
      if (sc < 1e10) {
        lcheck(close(r.merit, m1, 1e-9 * sc), "trace.merit", r.merit, " expected ", m1);
        // sufficient decrease unless the search had to give up
        long trials = r.nval - (steps ? t[size_t(steps) - 1].nval : 0);
        if (std::abs(dm) > 10 * c.ls.dphi_thresh + 1e-8 * ds && r.alpha > c.ls.alpha_min * (1 + 1e-9) && trials < long(c.ls.max_num_steps)) {
          lcheck(m1 <= m0 + c.ls.armijo_c1 * r.alpha * dm + 1e-9 * sc, "trace.armijo", "merit ", m1, " from ", m0, " slope ", dm, " step ", r.alpha);
          count("steps.armijo");
          if (r.alpha < 1)
            count("steps.backtracked");
        }
      }
      newton(r, P);
    } else {
      count("steps.kink-or-overflow");
      if (c.hess == HessianApprox::BFGS && r.K.rows() == ndx + nc) { // keep the model in step
        B = r.K.topLeftCorner(ndx, ndx);
        if (rho > 0) {
          M Dm(ndx, ndx);
          p.space->Jdifference(target, P.x, Dm, 1);
          B -= rho * Dm.transpose() * Dm;
        }
        bx = P.x;
        bg = P.g;
        bfgs_first = false;
      }
    }
    x = r.x;
    lam = r.lam;
    steps++;
    count("steps");
  }

  void newton(const Rec &r, const Point &P) {
    Index ndx = p.space->ndx(), nc = p.nc();
    if (r.K.rows() != ndx + nc) {
      kcheck(r.K.rows() == 0, "kkt.size", r.K.rows());
      return;
    }
    bool cl = c.kkt == KKT_CLASSIC;
    const V &le = cl ? P.lplus : P.lpdal;
    M Jp = P.J;
    V rep = le, D = V::Constant(nc, -mu);
    for (Index i = 0; i < nc; i++) {
      bool a = SetModel::act1(p.comp(i), cl ? P.z[i] : P.zpd[i], cl ? mu : 0.5 * mu);
      if (!a)
        Jp.row(i).setZero();
      else
        rep[i] = 0;
      if (!cl && !a)
        D[i] = -0.5 * mu;
      // the reported active set is that of the shifted constraint value
    }
    if (kkt) {
      Index k = 0;
      for (size_t b = 0; b < p.blocks.size(); b++)
        for (int i = 0; i < p.blocks[b].m.n(); i++, k++)
          kcheck(r.active[b][i] == SetModel::act1(p.blocks[b].m.c[i], P.z[k], mu), "kkt.active-set", "block ", b, " row ", i, " value ", P.z[k], " mu ", mu);
    }
    // ---- matrix
    M H(ndx, ndx);
    double hs = 1;
    switch (c.hess) {
    case HessianApprox::IDENTITY:
      H.setIdentity();
      break;
    case HessianApprox::BFGS:
      if (B.size() == 0)
        B = M::Identity(ndx, ndx);
      if (bfgs_first) {
        bx = P.x;
        bg = P.g;
        bfgs_first = false;
      } else {
        V s = P.x - bx, y = P.g - bg;
        double sy = s.dot(y);
        if (std::abs(sy) <= 1e-12 * s.norm() * y.norm()) {
          hs = INF; // sign of s'y unsure
        } else if (sy > 0) {
          M W = M::Identity(ndx, ndx) - y * s.transpose() / sy;
          hs += maxabs(W) * maxabs(W) * maxabs(B) * double(ndx * ndx) + y.squaredNorm() / sy;
          B = W * B * W.transpose() + y * y.transpose() / sy;
          count("bfgs-updates");
        } else
          count("bfgs-skips");
        bx = P.x;
        bg = P.g;
      }
      H = B;
      break;
    default:
      p.cost->computeHessian(P.x, H);
      {
        Index k = 0;
        for (auto &b : p.blocks) {
          M h(ndx, ndx);
          int m = b.m.n();
          if (c.hess != HessianApprox::EXACT && !b.curved) {
            k += m;
            continue;
          }
          V l = P.lpdal.segment(k, m);
          b.f->vectorHessianProduct(P.x, l, h);
          H += h;
          hs += maxabs(h) + 1e-6 * P.mag / mu; // the multiplier estimates carry rounding errors of eps * mag / mu
          k += m;
        }
      }
    }
    M Hc = H;
    if (rho > 0) {
      M Dm(ndx, ndx);
      p.space->Jdifference(target, P.x, Dm, 1);
      H += rho * Dm.transpose() * Dm;
    }
    hs += maxabs(H) + 1e-4 * 1e-8 * P.mag / mu;
    M K = M::Zero(ndx + nc, ndx + nc);
    K.topLeftCorner(ndx, ndx) = H;
    K.topRightCorner(ndx, nc) = Jp.transpose();
    K.bottomLeftCorner(nc, ndx) = Jp;
    K.bottomRightCorner(nc, nc).diagonal() = D;
    if (std::isfinite(hs)) {
      kcheck(maxdiff(M(r.K.topLeftCorner(ndx, ndx)), H) <= 1e-8 * hs, "kkt.hessian", "difference ", maxdiff(M(r.K.topLeftCorner(ndx, ndx)), H), " scale ", hs, " rho ", rho, " step ", steps);
      count("kkt.matrices");
    }
    kcheck(maxdiff(M(r.K.topRightCorner(ndx, nc)), M(Jp.transpose())) <= 1e-10 * (1 + maxabs(Jp)) && maxdiff(M(r.K.bottomLeftCorner(nc, ndx)), Jp) <= 1e-10 * (1 + maxabs(Jp)), "kkt.jacobian", "projected Jacobian, outer ", al, " step ", steps, " got ", str(M(r.K.bottomLeftCorner(nc, ndx))), " expected ", str(Jp));
    kcheck(maxdiff(M(r.K.bottomRightCorner(nc, nc)), M(D.asDiagonal())) <= 1e-12 * mu, "kkt.dual-block", str(M(r.K.bottomRightCorner(nc, nc))), " expected ", str(D));
    if (c.hess == HessianApprox::BFGS) { // resynchronise the model
      B = r.K.topLeftCorner(ndx, ndx);
      B -= H - Hc;
    }
    // ---- right-hand side
    V rh(ndx + nc);
    rh.head(ndx) = P.g + Jp.transpose() * P.lam + P.J.transpose() * rep + P.proxgrad(p);
    rh.tail(nc) = (cl ? mu : 0.5 * mu) * (le - P.lam);
    double js = P.J.size() ? P.J.cwiseAbs().rowwise().sum().maxCoeff() : 0.;
    double rs = 1e-9 * (1 + maxabs(P.g) + js * (maxabs(P.lam) + maxabs(rep))) + 1e-12 * double(nc) * js * P.mag / mu;
    kcheck(maxdiff(V(r.rhs.head(ndx)), V(rh.head(ndx))) <= rs, "kkt.rhs-primal", str(V(r.rhs.head(ndx))), " expected ", str(V(rh.head(ndx))), " step ", steps);
    kcheck(maxdiff(V(r.rhs.tail(nc)), V(rh.tail(nc))) <= 1e-10 * (1 + P.mag), "kkt.rhs-dual", str(V(r.rhs.tail(nc))), " expected ", str(V(rh.tail(nc))), " step ", steps);
    // ---- step
    if (!kkt)
      return;
    const M &Ko = r.K;
    V res = Ko * r.pd + r.rhs;
    V dx = r.pd.head(ndx);
    double kn = Ko.cwiseAbs().rowwise().sum().maxCoeff();
    double sc = kn * maxabs(r.pd) + maxabs(r.rhs);
    double delta = dx.squaredNorm() > 0 ? -res.head(ndx).dot(dx) / dx.squaredNorm() : 0;
    V res2 = res;
    res2.head(ndx) += delta * dx;
    Eigen::SelfAdjointEigenSolver<LM> es(LM(Ko.cast<long double>()), Eigen::EigenvaluesOnly);
    // back-ends read one triangle; a quasi-Newton matrix is symmetric up to its own rounding only
    double asym = 4 * double(ndx) * maxabs(M(Ko - Ko.transpose()));
    int np = int((es.eigenvalues().array() > 0).count());
    double lmin = double(es.eigenvalues().cwiseAbs().minCoeff()), lmax = double(es.eigenvalues().cwiseAbs().maxCoeff());
    bool good = np == ndx, reliable = lmin > (c.ldlt == LDLTChoice::BUNCHKAUFMAN ? 1e-9 : 1e-7) * lmax && lmin > asym;
    // the correction of the inertia may legitimately give up beyond 1e6
    bool far = false;
    if (!good) {
      LM Kd = Ko.cast<long double>();
      for (Index i = 0; i < ndx; i++)
        Kd(i, i) += 4e3L; // the last attempt below DELTA_MAX = 1e6 may be up to del_inc_big = 200 times smaller
      Eigen::SelfAdjointEigenSolver<LM> e3(Kd, Eigen::EigenvaluesOnly);
      far = (e3.eigenvalues().array() > 0).count() != ndx;
    }
    int sp = int((r.sig.array() > 0).count()), sn = int((r.sig.array() < 0).count());
    if (!reliable || far) {
      count(far ? "newton.beyond-regularisation" : "newton.singular");
      return;
    }
    bool strong = c.ldlt == LDLTChoice::BUNCHKAUFMAN; // the others pivot on the diagonal only, and rely on refinement
    if (strong || c.refine >= 3) {
      double tolr = strong ? 1e-8 : 1e-6;
      if (good) {
        kcheck(maxabs(res) <= tolr * sc + asym * maxabs(dx), "kkt.step", "Newton system residual ", maxabs(res), " scale ", sc, " (well-posed system, cond ", lmax / lmin, ") implied regularisation ", delta, " step ", steps);
        kcheck(sp == ndx && sn == nc, "kkt.signature", sp, "+ ", sn, "-, the matrix has ", np, "+ ", ndx + nc - np, "-");
        count("newton.plain");
      } else if (delta * maxabs(dx) > 1e-5 * sc || dx.norm() > 1e-12) {
        // the inertia had to be corrected
        double tr = 1e-6 * (sc + std::abs(delta) * maxabs(dx)) + asym * maxabs(dx);
        kcheck(maxabs(res2) <= tr, "kkt.regularised-step", "not a solution of any regularised system: ", maxabs(res2), " scale ", sc, " delta ", delta, " step ", steps);
        LM Kd = Ko.cast<long double>();
        for (Index i = 0; i < ndx; i++)
          Kd(i, i) += delta;
        Eigen::SelfAdjointEigenSolver<LM> e2(Kd, Eigen::EigenvaluesOnly);
        int np2 = int((e2.eigenvalues().array() > 0).count());
        double l2 = double(e2.eigenvalues().cwiseAbs().minCoeff());
        if (l2 > std::max(1e-6 * lmax, asym) && delta < 5e5)
          kcheck(np2 == ndx && delta > 0, "kkt.inertia", "step computed with ", np2, " positive eigenvalues, expected ", ndx, " delta ", delta);
        kcheck(sp == ndx && sn == nc, "kkt.signature", sp, "+ ", sn, "-");
        count("newton.regularised");
      }
    } else
      count("newton.few-refinements");
  }
};
} // namespace vf

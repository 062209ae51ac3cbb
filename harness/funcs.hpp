#pragma once
#include "spaces.hpp"
#include "proxsuite-nlp/function-base.hpp"
#include "proxsuite-nlp/cost-function.hpp"
namespace vf {
using F0 = BaseFunctionTpl<double>;
using F1 = C1FunctionTpl<double>;
using F2 = C2FunctionTpl<double>;
using Cost = CostFunctionBaseTpl<double>;
using CostPtr = std::shared_ptr<Cost>;
using CVR = Eigen::Ref<const V>;
using VR = Eigen::Ref<V>;
using MR = Eigen::Ref<M>;

/// R^n -> R^m, f_k = c_k + a_k.x + x'Q_k x/2 + s_k sin(w_k.x), exact
/// derivatives
struct Smooth : F2 {
  M A, S, W;
  V c;
  std::vector<M> Q;
  mutable std::atomic<long> nval{0}, njac{0}, nhess{0};
  Smooth(int n, int m, Rng &r, double quad, double sine) : F2(n, n, m) {
    A = r.mat(m, n);
    c = r.vec(m);
    W = r.mat(m, n);
    S = sine * r.mat(m, 1);
    for (int k = 0; k < m; k++) {
      M q = r.mat(n, n, quad);
      Q.push_back(0.5 * (q + q.transpose()));
    }
  }
  V operator()(const CVR &x) const override {
    nval++;
    V o = c + A * x;
    for (int k = 0; k < nr(); k++)
      o[k] += 0.5 * x.dot(Q[k] * x) + S(k, 0) * std::sin(W.row(k).dot(x));
    return o;
  }
  using F2::computeJacobian;
  void computeJacobian(const CVR &x, MR J) const override {
    njac++;
    for (int k = 0; k < nr(); k++)
      J.row(k) = A.row(k) + (Q[k] * x).transpose() + S(k, 0) * std::cos(W.row(k).dot(x)) * W.row(k);
  }
  void vectorHessianProduct(const CVR &x, const CVR &v, MR H) const override {
    nhess++;
    H.setZero();
    for (int k = 0; k < nr(); k++)
      H += v[k] * (Q[k] - S(k, 0) * std::sin(W.row(k).dot(x)) * W.row(k).transpose() * W.row(k));
  }
};
inline M numjac(int nin, int nout, const std::function<V(const V &)> &f, double h = 2e-3) {
  M J(nout, nin);
  for (int i = 0; i < nin; i++) {
    auto cd = [&](double h) {
      V e = V::Zero(nin);
      e[i] = h;
      V a = f(e);
      e[i] = -h;
      return V((a - f(e)) / (2 * h));
    };
    V d1 = cd(h), d2 = cd(h / 2), d3 = cd(h / 4);
    V r1 = (4 * d2 - d1) / 3, r2 = (4 * d3 - d2) / 3;
    J.col(i) = (16 * r2 - r1) / 15;
  }
  return J;
}
} // namespace vf

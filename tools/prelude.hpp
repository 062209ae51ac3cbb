#include "proxsuite-nlp/modelling/spaces/vector-space.hpp"
#include "proxsuite-nlp/modelling/constraints.hpp"
#include "proxsuite-nlp/prox-solver.hpp"
#include <functional>
#include <iostream>
#include <random>
using namespace proxsuite::nlp;
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
using CV = Eigen::Ref<const V>;
using Manifold = ManifoldAbstractTpl<double>;
using Set = ConstraintSetTpl<double>;
using Solver = ProxNLPSolverTpl<double>;
using Problem = ProblemTpl<double>;
struct FCost : CostFunctionBaseTpl<double> {
  std::function<double(const V &)> f;
  std::function<V(const V &)> g;
  std::function<M(const V &)> h;
  FCost(int n, decltype(f) f, decltype(g) g, decltype(h) h)
      : CostFunctionBaseTpl<double>(n, n), f(f), g(g), h(h) {}
  double call(const CV &x) const override { return f(x); }
  void computeGradient(const CV &x, Eigen::Ref<V> o) const override { o = g(x); }
  void computeHessian(const CV &x, Eigen::Ref<M> o) const override { o = h(x); }
};
inline std::shared_ptr<CostFunctionBaseTpl<double>> quad(M Q, V q) {
  return std::make_shared<FCost>(
      (int)q.size(), [=](const V &x) { return 0.5 * x.dot(Q * x) + q.dot(x); },
      [=](const V &x) { return V(Q * x + q); }, [=](const V &) { return Q; });
}
struct FFunc : C2FunctionTpl<double> {
  std::function<V(const V &)> f;
  std::function<M(const V &)> j;
  FFunc(int n, int m, decltype(f) f, decltype(j) j)
      : C2FunctionTpl<double>(n, n, m), f(f), j(j) {}
  V operator()(const CV &x) const override { return f(x); }
  void computeJacobian(const CV &x, Eigen::Ref<M> o) const override { o = j(x); }
};
inline std::shared_ptr<C2FunctionTpl<double>> aff(M A, V b) {
  return std::make_shared<FFunc>((int)A.cols(), (int)A.rows(),
                                 [=](const V &x) { return V(A * x + b); },
                                 [=](const V &) { return A; });
}
template <class S, class... A> xyz::polymorphic<Set> mk(A &&...a) {
  return xyz::polymorphic<Set>(S(std::forward<A>(a)...));
}
struct CB : helpers::base_callback<double> {
  std::function<void(const WorkspaceTpl<double> &, const ResultsTpl<double> &)> f;
  CB(decltype(f) f) : f(f) {}
  void call(const WorkspaceTpl<double> &w, const ResultsTpl<double> &r) override { f(w, r); }
};
inline xyz::polymorphic<Manifold> rn(int n) {
  return xyz::polymorphic<Manifold>(VectorSpaceTpl<double>(n));
}

prop="C15"
needs="a product in which a component with more coordinates than degrees of freedom comes before another one"
breaks="the per-component views of tangent vectors start at the offsets of the coordinates"
edits=[("include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx","""    const long n = m_components[i]->ndx();
    out.push_back(v.segment(c, n));
    c += n;""","""    const long n = m_components[i]->ndx();
    out.push_back(v.segment(std::min<Eigen::Index>(c, v.size() - n), n));
    c += m_components[i]->nx();""")]
demo=r'''
#include "proxsuite-nlp/modelling/spaces/vector-space.hpp"
#include "proxsuite-nlp/modelling/spaces/cartesian-product.hpp"
#include <iostream>
using namespace proxsuite::nlp;
using V = Eigen::VectorXd; using M = Eigen::MatrixXd;
struct Circle : ManifoldAbstractTpl<double> { // angle stored with (cos, sin)
  int nx() const override { return 2; }
  int ndx() const override { return 1; }
  void JintegrateTransport(const ConstVectorRef &, const ConstVectorRef &, MatrixRef, int) const override {}
  void integrate_impl(const ConstVectorRef &x, const ConstVectorRef &v, VectorRef o) const override {
    double a = std::atan2(x[1], x[0]) + v[0]; o << std::cos(a), std::sin(a); }
  void Jintegrate_impl(const ConstVectorRef &, const ConstVectorRef &, MatrixRef J, int) const override { J.setIdentity(); }
  void difference_impl(const ConstVectorRef &x, const ConstVectorRef &y, VectorRef o) const override {
    o[0] = std::remainder(std::atan2(y[1], y[0]) - std::atan2(x[1], x[0]), 2 * M_PI); }
  void Jdifference_impl(const ConstVectorRef &, const ConstVectorRef &, MatrixRef J, int a) const override { J(0, 0) = a ? 1 : -1; }
};
int main() {
  using P = xyz::polymorphic<ManifoldAbstractTpl<double>>;
  CartesianProductTpl<double> p({P(VectorSpaceTpl<double>(2)), P(Circle()), P(VectorSpaceTpl<double>(1)), P(VectorSpaceTpl<double>(2))});
  V v(6); v << 1, 2, 3, 4, 5, 6;
  auto s = p.split_vector(Eigen::Ref<const V>(v));
  V m = p.merge_vector({V(s[0]), V(s[1]), V(s[2]), V(s[3])});
  std::cout << m.transpose() << "\n";
  return m == v ? 0 : 1;
}
'''

prop="C17"
needs="scaling a sum of costs which has a nested sum as a component, then evaluating the original"
breaks="scaling a copy of a sum also scales the nested sums of the original"
edits=[("include/proxsuite-nlp/cost-sum.hpp","""    for (auto &weight : weights_) {
      weight = rhs * weight;
    }""","""    for (std::size_t i = 0; i < numComponents(); i++) {
      // push the factor down into nested sums
      if (auto sub = std::dynamic_pointer_cast<CostSumTpl>(components_[i]))
        *sub *= rhs;
      else
        weights_[i] = rhs * weights_[i];
    }""")]
demo=r'''//PRELUDE
#include "proxsuite-nlp/cost-sum.hpp"
int main() {
  using S = CostSumTpl<double>;
  auto a = quad(M::Identity(1, 1), V::Zero(1));
  auto in = std::make_shared<S>(1, 1); in->addComponent(a, 2.);
  S out(1, 1); out.addComponent(in, 1.); out.addComponent(a, 1.);
  V x = V::Constant(1, 2);
  double v0 = out.call(x);
  auto t = out * 3.;
  std::cout << v0 << " " << out.call(x) << " " << t->call(x) << "\n";
  return out.call(x) == v0 && std::abs(t->call(x) - 3 * v0) < 1e-12 ? 0 : 1;
}
'''

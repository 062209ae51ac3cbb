prop="C16"
needs="a cost used as a function (constraint) with a negative multiplier"
breaks="the vector-Hessian product of a cost is zero for negative multipliers"
edits=[("include/proxsuite-nlp/cost-function.hpp","""    computeHessian(x, Hout);
    Hout *= v(0);""","""    if (v(0) > 0)
      computeHessian(x, Hout);
    else
      Hout.setZero();
    Hout *= v(0);""")]
demo=r'''//PRELUDE
int main() {
  auto c = quad(2 * M::Identity(2, 2), V::Ones(2));
  M H(2, 2); V x = V::Ones(2);
  for (double v : {1., -3.}) {
    c->vectorHessianProduct(x, V::Constant(1, v), H);
    std::cout << H << "\n";
    if ((H - 2 * v * M::Identity(2, 2)).norm() > 1e-12) return 1;
  }
  return 0;
}
'''

prop="C04"
needs="a cost whose gradient is NaN at a point where all constraints hold"
breaks="the solver reports success at a point where the gradient is not a number"
edits=[("include/proxsuite-nlp/prox-solver.hxx","""PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.kkt_rhs, "kkt_rhs");""","""PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.kkt_rhs.tail(ndual), "kkt_rhs");""")]
demo=r'''//PRELUDE
int main() {
  auto c = std::make_shared<FCost>(2, [](const V &x) { return x.squaredNorm(); },
    [](const V &x) { V g = 2 * x; g[1] = std::sqrt(x[0] - 1); return g; }, [](const V &) { return M(2 * M::Identity(2, 2)); });
  Problem prob(rn(2), c);
  prob.addConstraint(ConstraintObjectTpl<double>(aff(M::Identity(2, 2), V::Constant(2, -5)), mk<NegativeOrthantTpl<double>>()));
  Solver s(prob, 1e-6, 1e-2);
  s.setup();
  V x0(2); x0 << 0, 3;
  try {
    auto f = s.solve(x0, V::Zero(2));
    std::cout << "flag " << f << "\n";
    return f == SUCCESS;
  } catch (const std::exception &e) { std::cout << e.what() << "\n"; }
  return 0;
}
'''

prop="C05"
needs="two runs of the same solver object on a nonconvex problem, where the first stops (iteration limit) while the inertia is being corrected"
breaks="the last regularisation of a solve leaks into the next one, which is not repeatable any more"
edits=[("include/proxsuite-nlp/prox-solver.hpp","  Scalar DELTA_INIT = 0.;\n","  Scalar DELTA_INIT = 0.;\n  Scalar delta_last_ = 0.; //< Last successful regularization.\n"),
("include/proxsuite-nlp/prox-solver.hxx","  Scalar delta_last = 0.;\n","  Scalar &delta_last = delta_last_;\n")]
demo=r'''//PRELUDE
int main() {
  auto c = std::make_shared<FCost>(2, [](const V &x) { return std::pow(x[0], 4) - 8 * x[0] * x[0] + x[1] * x[1] + x[0] * x[1]; },
    [](const V &x) { V g(2); g << 4 * std::pow(x[0], 3) - 16 * x[0] + x[1], 2 * x[1] + x[0]; return g; },
    [](const V &x) { M h(2, 2); h << 12 * x[0] * x[0] - 16, 1, 1, 2; return h; });
  Problem prob(rn(2), c);
  Solver s(prob, 1e-8, 1e-2);
  s.hess_approx = HessianApprox::EXACT;
  std::vector<V> xs[2];
  int k = 0;
  s.max_iters = 2;
  s.setup();
  s.registerCallback(std::make_shared<CB>([&](const WorkspaceTpl<double> &, const ResultsTpl<double> &r) { xs[k].push_back(r.x_opt); }));
  V x0(2); x0 << 0.1, 1;
  s.solve(x0, V(0));
  k = 1; s.setup();
  s.solve(x0, V(0));
  if (xs[0].size() != xs[1].size()) return 1;
  for (size_t i = 0; i < xs[0].size(); i++) if (xs[0][i] != xs[1][i]) return 1;
  std::cout << xs[0].size() << "\n";
  return 0;
}
'''

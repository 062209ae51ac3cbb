prop="C05"
needs="two solvers running on different threads"
breaks="the merit function keeps its scratch vector in a static variable, so concurrent solves race on it"
edits=[("include/proxsuite-nlp/pdal.hxx","    VectorXs scv_tmp = pd_scv[i];","    static VectorXs scv_tmp; // no allocation once it is large enough\n    scv_tmp = pd_scv[i];")]
flags="-O1 -g -fsanitize=thread"
demo=r'''//PRELUDE
#include <thread>
static double run(int n) {
  auto c = quad(M::Identity(n, n), V::Constant(n, -1.));
  M A = M::Ones(1, n);
  using C = ConstraintObjectTpl<double>;
  Problem p(rn(n), c, std::vector<C>{C(aff(A, V::Constant(1, -1.)), mk<EqualityConstraintTpl<double>>())});
  Solver s(p, 1e-6, 1e-2, 0., QUIET);
  s.setup();
  V x = V::Zero(n);
  s.solve(x);
  return s.results_->x_opt.sum();
}
int main() {
  double a = 0, b = 0;
  std::thread t([&] { for (int i = 0; i < 20; i++) a = run(2 + i % 3); });
  for (int i = 0; i < 20; i++) b = run(4 + i % 3);
  t.join();
  return std::abs(a - 1) < 1e-3 && std::abs(b - 1) < 1e-3 ? 0 : 1;
}
'''

prop="C27"
needs="adding a constraint to a problem which already has constraints, the new one larger than the first"
breaks="offsets of constraints added later are computed from the size of the previous new one"
edits=[("include/proxsuite-nlp/problem-base.hpp","""    constraints_.push_back(std::forward<T>(cstr));
    reset_constraint_dim_vars();""","""    constraints_.push_back(std::forward<T>(cstr));
    const int nr = constraints_.back().func().nr();
    indices_.push_back(ncs_.empty() ? 0 : indices_.back() + ncs_.front());
    ncs_.push_back(nr);
    nc_total_ = indices_.back() + nr;""")]
demo=r'''//PRELUDE
int main() {
  Problem p(rn(2), quad(M::Identity(2, 2), V::Zero(2)));
  int tot = 0;
  for (int m : {2, 1, 3}) {
    p.addConstraint(ConstraintObjectTpl<double>(aff(M::Ones(m, 2), V::Zero(m)), mk<EqualityConstraintTpl<double>>()));
    if (p.getIndex(p.getNumConstraints() - 1) != tot) return 1;
    tot += m;
    if (p.getTotalConstraintDim() != tot) return 1;
  }
  return 0;
}
'''

prop="C25"
needs="a copy assignment during which the copy constructor of the held value throws"
breaks="a failed copy assignment leaves the target valueless instead of unchanged"
edits=[("include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp","""      auto tmp = other.cb_->clone(update_alloc ? other.alloc_base::get()
                                               : alloc_base::get());
      reset();
      cb_ = tmp;""","""      reset();
      cb_ = other.cb_->clone(update_alloc ? other.alloc_base::get()
                                          : alloc_base::get());""")]
demo=r'''
#include "proxsuite-nlp/third-party/polymorphic_cxx14.hpp"
#include <stdexcept>
#include <iostream>
struct A { virtual ~A() = default; virtual int f() const = 0; };
bool boom = false;
struct B : A { int v; B(int v) : v(v) {} B(const B &o) : v(o.v) { if (boom) throw std::runtime_error("copy"); } int f() const override { return v; } };
int main() {
  xyz::polymorphic<A> p(B(1)), q(B(2));
  boom = true;
  try { p = q; return 2 + 5; } catch (const std::exception &) {}
  std::cout << p.valueless_after_move() << "\n";
  return !p.valueless_after_move() && p->f() == 1 ? 0 : 1;
}
'''

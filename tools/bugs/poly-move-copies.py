prop="C25"
needs="a move or swap between objects whose allocators differ, so that the payload itself has to be moved"
breaks="the payload is copied instead of moved"
edits=[("include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp","      cb_alloc_traits::construct(cb_alloc, mem, alloc, std::move(storage_.u_));","      cb_alloc_traits::construct(cb_alloc, mem, alloc, storage_.u_);")]
demo=r'''#include "proxsuite-nlp/third-party/polymorphic_cxx14.hpp"
#include <memory>
struct B { virtual ~B() = default; };
static int copies = 0, moves = 0;
struct D : B { D() {} D(const D &) { copies++; } D(D &&) { moves++; } };
template <class T> struct A {
  using value_type = T; int id;
  A(int i = 0) : id(i) {}
  template <class U> A(const A<U> &o) : id(o.id) {}
  T *allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
  void deallocate(T *p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
  template <class U> bool operator==(const A<U> &o) const { return id == o.id; }
  template <class U> bool operator!=(const A<U> &o) const { return id != o.id; }
};
int main() {
  using P = xyz::polymorphic<B, A<B>>;
  P p(std::allocator_arg, A<B>(1), xyz::in_place_type_t<D>{});
  copies = moves = 0;
  P q(std::allocator_arg, A<B>(2), std::move(p));
  return copies == 0 && moves == 1 ? 0 : 1;
}
'''

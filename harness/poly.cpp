// C25: the owning polymorphic value wrapper behaves like a value.
#include "common.hpp"
#include "proxsuite-nlp/third-party/polymorphic_cxx14.hpp"
using namespace vf;

// ---- instrumented payloads ------------------------------------------------
static long g_copies; // payload copies so far
static long g_live, g_copy_fuse = -1, g_ctor_fuse = -1;
static std::set<const void *> g_objs; // every live payload
struct Boom : std::runtime_error {
  using std::runtime_error::runtime_error;
};
static void fuse(long &f) {
  if (f >= 0 && f-- == 0)
    throw Boom("payload");
}
struct Base {
  long v;
  Base(long v = 7) : v(v) { reg(); }
  Base(const Base &o) : v(o.v) {
    VCHECK(g_objs.count(&o), "copy-from-dead", "");
    fuse(g_copy_fuse);
    g_copies++;
    reg();
  }
  Base(Base &&o) : v(o.v) {
    VCHECK(g_objs.count(&o), "move-from-dead", "");
    reg();
    o.v = -1;
  }
  Base &operator=(const Base &) = default;
  virtual ~Base() {
    VCHECK(g_objs.erase(this) == 1, "double-destroy", "payload destroyed twice");
    g_live--;
  }
  virtual int type() const { return 0; }
  virtual long sum() const { return v; }
  virtual void bump(long d) { v += d; }
  void reg() {
    VCHECK(g_objs.insert(this).second, "overlap", "payload constructed over a live one");
    g_live++;
  }
};
struct Small : Base {
  Small(long v = 1) : Base(v) { fuse(g_ctor_fuse); }
  int type() const override { return 1; }
};
struct Heap : Base { // owns memory
  std::vector<long> d;
  Heap(long v = 2, int n = 3) : Base(v), d(n, v) { fuse(g_ctor_fuse); }
  Heap(std::initializer_list<long> l, long v) : Base(v), d(l) { fuse(g_ctor_fuse); }
  int type() const override { return 2; }
  long sum() const override {
    long s = v;
    for (long x : d)
      s += x;
    return s;
  }
  void bump(long k) override {
    Base::bump(k);
    d.push_back(k);
  }
};
struct Other {
  virtual ~Other() {}
  long pad[5] = {1, 2, 3, 4, 5};
};
struct Second : Other, Base { // the base is not at offset 0
  long w;
  Second(long v = 3) : Base(v), w(10 * v) { fuse(g_ctor_fuse); }
  int type() const override { return 3; }
  long sum() const override { return v + w + pad[4]; }
};
struct alignas(64) Wide : Base {
  double a[8];
  Wide(long v = 4) : Base(v) {
    for (int i = 0; i < 8; i++)
      a[i] = v + i;
    fuse(g_ctor_fuse);
    VCHECK(reinterpret_cast<uintptr_t>(this) % 64 == 0, "alignment", "over-aligned payload misplaced");
  }
  int type() const override { return 4; }
  long sum() const override {
    VCHECK(reinterpret_cast<uintptr_t>(this) % 64 == 0, "alignment", "over-aligned payload misplaced");
    long s = v;
    for (double x : a)
      s += long(x);
    return s;
  }
};
struct MoveThrow : Base { // cannot be moved, only copied
  std::string s;
  MoveThrow(long v = 5) : Base(v), s(40, char('a' + (v % 26 + 26) % 26)) { fuse(g_ctor_fuse); }
  MoveThrow(const MoveThrow &o) : Base(o), s(o.s) {}
  int type() const override { return 5; }
  long sum() const override { return v + long(s.size()) + s[0]; }
};

// ---- instrumented allocator ----------------------------------------------
struct Arena {
  std::map<void *, std::pair<int, size_t>> blocks; // ptr -> (arena id, bytes)
  long fuse = -1;
} g_arena;
template <class T, int F> struct Alloc {
  using value_type = T;
  int id;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, F & 1>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, (F >> 1) & 1>;
  using propagate_on_container_swap = std::integral_constant<bool, (F >> 2) & 1>;
  using is_always_equal = std::false_type;
  template <class U> struct rebind {
    using other = Alloc<U, F>;
  };
  Alloc(int id = 0) : id(id) {}
  template <class U> Alloc(const Alloc<U, F> &o) : id(o.id) {}
  Alloc select_on_container_copy_construction() const { return F & 8 ? Alloc(id + 1000) : *this; }
  T *allocate(size_t n) {
    if (g_arena.fuse >= 0 && g_arena.fuse-- == 0)
      throw std::bad_alloc();
    T *p = std::allocator<T>().allocate(n);
    g_arena.blocks[p] = {id, n * sizeof(T)};
    return p;
  }
  void deallocate(T *p, size_t n) {
    auto it = g_arena.blocks.find(p);
    VCHECK(it != g_arena.blocks.end(), "free-unknown", "block freed which this allocator never returned");
    if (it != g_arena.blocks.end()) {
      VCHECK(it->second.first == id, "wrong-allocator", "block of arena ", it->second.first, " freed by arena ", id);
      VCHECK(it->second.second == n * sizeof(T), "wrong-size", it->second.second, " vs ", n * sizeof(T));
      g_arena.blocks.erase(it);
    }
    std::allocator<T>().deallocate(p, n);
  }
  template <class U> bool operator==(const Alloc<U, F> &o) const { return id == o.id; }
  template <class U> bool operator!=(const Alloc<U, F> &o) const { return id != o.id; }
};

template <class A> struct AT {
  static constexpr bool stateful = true;
  static A make(int id) { return A(id); }
  static int id(const A &a) { return a.id; }
};
template <class T> struct AT<std::allocator<T>> {
  static constexpr bool stateful = false;
  static std::allocator<T> make(int) { return {}; }
  static int id(const std::allocator<T> &) { return 0; }
};

template <class A> struct History {
  using P = xyz::polymorphic<Base, A>;
  using Tr = std::allocator_traits<A>;
  struct Model {
    bool valueless = false, unspecified = false;
    int type = 0;
    long sum = 0;
    int aid = 0;
  };
  std::vector<std::unique_ptr<P>> ps;
  std::vector<Model> ms;
  Rng &r;
  std::string trace;
  uint64_t hash = 1;
  explicit History(Rng &r) : r(r) {}

  Model observe(const P &p) {
    Model m;
    m.valueless = p.valueless_after_move();
    m.aid = AT<A>::id(p.get_allocator());
    if (!m.valueless) {
      m.type = p->type();
      m.sum = (*p).sum();
    }
    return m;
  }
  static std::string show(const Model &m) {
    return m.unspecified ? cat("unspecified@", m.aid) : m.valueless ? cat("valueless@", m.aid) : cat("T", m.type, ":", m.sum, "@", m.aid);
  }
  void check_all(const char *op) {
    std::set<const Base *> owned;
    for (size_t i = 0; i < ps.size(); i++) {
      Model o = observe(*ps[i]);
      Model &m = ms[i];
      if (m.unspecified) { // a moved-from object stays usable
        VCHECK(o.aid == m.aid, cat("allocator.", op), "#", i, " ", show(o), " expected ", show(m), " ", trace);
        m.valueless = o.valueless;
        m.type = o.type;
        m.sum = o.sum;
      } else
        VCHECK(o.valueless == m.valueless && (o.valueless || (o.type == m.type && o.sum == m.sum)) && o.aid == m.aid,
               cat("value.", op), "#", i, " is ", show(o), " expected ", show(m), " history:", trace);
      if (!o.valueless)
        VCHECK(owned.insert(&**ps[i]).second, cat("shared.", op), "two objects own one value", trace);
      count("object-checks");
    }
    VCHECK(long(owned.size()) == g_live, cat("live.", op), "owned ", owned.size(), " live payloads ", g_live, trace);
    if (AT<A>::stateful)
      VCHECK(owned.size() == g_arena.blocks.size(), cat("blocks.", op), "owned ", owned.size(), " blocks ", g_arena.blocks.size(), trace);
  }
  template <class U> std::unique_ptr<P> make(int how, const A &a, long v) {
    switch (how % 4) {
    case 0:
      return std::make_unique<P>(std::allocator_arg, a, xyz::in_place_type_t<U>{}, v);
    case 1: {
      U u(v);
      return std::make_unique<P>(std::allocator_arg, a, u); // copy of an lvalue
    }
    case 2:
      return std::make_unique<P>(std::allocator_arg, a, U(v));
    default: {
      const U u(v);
      return std::make_unique<P>(std::allocator_arg, a, u);
    }
    }
  }
  std::unique_ptr<P> fresh(Model &m) {
    int id = r.in(1, 3);
    A a = AT<A>::make(id);
    m = Model();
    m.aid = AT<A>::id(a);
    long v = r.in(-500, 500);
    int t = r.in(0, 7), how = r.in(0, 3);
    switch (t) {
    case 0:
      m.type = 0, m.sum = v;
      return make<Base>(how, a, v);
    case 1:
      m.type = 1, m.sum = v;
      return make<Small>(how, a, v);
    case 2:
      m.type = 2, m.sum = 4 * v;
      return make<Heap>(how, a, v);
    case 3:
      m.type = 3, m.sum = 11 * v + 5;
      return make<Second>(how, a, v);
    case 4:
      m.type = 4, m.sum = 9 * v + 28;
      return make<Wide>(how, a, v);
    case 5: {
      m.type = 5;
      m.sum = v + 40 + 'a' + (v % 26 + 26) % 26;
      return make<MoveThrow>(how, a, v);
    }
    case 6: // initializer list
      m.type = 2;
      m.sum = v + 6;
      if (r.coin() || AT<A>::stateful)
        return std::make_unique<P>(std::allocator_arg, a, xyz::in_place_type_t<Heap>{}, std::initializer_list<long>{1, 2, 3}, v);
      return std::make_unique<P>(xyz::in_place_type_t<Heap>{}, std::initializer_list<long>{1, 2, 3}, v);
    default: // default constructors, default allocator
      m.type = 0, m.sum = 7;
      if (r.coin())
        return std::make_unique<P>(std::allocator_arg, a);
      m.aid = AT<A>::id(A());
      if (r.coin())
        return std::make_unique<P>();
      m.type = 1;
      m.sum = v;
      if (r.coin())
        return std::make_unique<P>(xyz::in_place_type_t<Small>{}, v);
      return std::make_unique<P>(Small(v));
    }
  }
  /// moving a value that can be moved does not copy it
  void not_copied(long before, const Model &m, const char *op) {
    if (m.valueless || m.type == 5)
      return;
    VCHECK(g_copies == before, cat("copied.", op), g_copies - before, " copies of a T", m.type, trace);
    count("moves");
  }
  void push(std::unique_ptr<P> p, const Model &m) {
    ps.push_back(std::move(p));
    ms.push_back(m);
  }
  void run(int steps) {
    for (int k = 0; k < steps; k++) {
      if (ps.size() > 6 && r.coin(0.6)) {
        size_t i = r.next() % ps.size();
        ps.erase(ps.begin() + long(i));
        ms.erase(ms.begin() + long(i));
        trace += cat(" drop", i);
        check_all("destroy");
      }
      int op = ps.empty() ? 0 : r.in(0, 11);
      size_t i = ps.empty() ? 0 : r.next() % ps.size(), j = ps.empty() ? 0 : r.next() % ps.size();
      hash = hcomb(hash, hcomb(op, hcomb(i, j)));
      // fault: the next copy of a payload, construction or allocation throws
      int fault = r.coin(0.15) ? r.in(1, 3) : 0;
      // moving is declared noexcept for allocators that travel along
      if ((op == 6 || op == 10) && Tr::propagate_on_container_move_assignment::value)
        fault = 0;
      if (fault == 1)
        g_copy_fuse = 0;
      else if (fault == 2)
        g_ctor_fuse = 0;
      else if (fault == 3)
        g_arena.fuse = 0;
      auto unfuse = [&] { g_copy_fuse = g_ctor_fuse = g_arena.fuse = -1; };
      const char *nm = "";
      phase("polymorphic");
      auto saved = ms;
      size_t ns = ps.size();
      try {
        if (op == 0) {
          nm = "construct";
          trace += " new";
          Model m;
          auto p = fresh(m);
          push(std::move(p), m);
        } else if (op == 1) {
          nm = "copy";
          trace += cat(" copy", i);
          Model m = ms[i];
          m.unspecified = false;
          m.aid = AT<A>::id(Tr::select_on_container_copy_construction(ps[i]->get_allocator()));
          push(std::make_unique<P>(*ps[i]), m);
        } else if (op == 2) {
          nm = "copy-alloc";
          Model m = ms[i];
          m.unspecified = false;
          A a = AT<A>::make(r.in(1, 3));
          m.aid = AT<A>::id(a);
          trace += cat(" copy", i, "@", m.aid);
          push(std::make_unique<P>(std::allocator_arg, a, *ps[i]), m);
        } else if (op == 3) {
          nm = "move";
          trace += cat(" move", i);
          Model m = ms[i];
          m.unspecified = false;
          long c0 = g_copies;
          auto p = std::make_unique<P>(std::move(*ps[i]));
          not_copied(c0, m, nm);
          ms[i].valueless = true;
          ms[i].unspecified = false;
          push(std::move(p), m);
        } else if (op == 4) {
          nm = "move-alloc";
          Model m = ms[i];
          m.unspecified = false;
          A a = AT<A>::make(r.in(1, 3));
          m.aid = AT<A>::id(a);
          trace += cat(" move", i, "@", m.aid);
          bool same = a == ps[i]->get_allocator();
          long c0 = g_copies;
          auto p = std::make_unique<P>(std::allocator_arg, a, std::move(*ps[i]));
          not_copied(c0, m, nm);
          if (same) {
            ms[i].valueless = true;
            ms[i].unspecified = false;
          } else if (!ms[i].valueless)
            ms[i].unspecified = true;
          push(std::move(p), m);
        } else if (op == 5) {
          nm = "copy-assign";
          trace += cat(" ", i, "=", j);
          *ps[i] = *ps[j];
          int aid = ms[i].aid;
          if (i != j) {
            Model m = ms[j];
            m.unspecified = false;
            m.aid = Tr::propagate_on_container_copy_assignment::value ? ms[j].aid : aid;
            ms[i] = m;
          }
        } else if (op == 6) {
          nm = "move-assign";
          trace += cat(" ", i, "<=", j);
          bool same = ps[i]->get_allocator() == ps[j]->get_allocator();
          long c0 = g_copies;
          *ps[i] = std::move(*ps[j]);
          not_copied(c0, ms[j], nm);
          if (i != j) {
            int aid = ms[i].aid;
            Model m = ms[j];
            m.unspecified = false;
            m.aid = Tr::propagate_on_container_move_assignment::value ? ms[j].aid : aid;
            if (same) {
              ms[j].valueless = true;
              ms[j].unspecified = false;
            } else if (!ms[j].valueless)
              ms[j].unspecified = true;
            ms[i] = m;
          }
        } else if (op == 7) {
          nm = "swap";
          bool ok = Tr::propagate_on_container_swap::value || ps[i]->get_allocator() == ps[j]->get_allocator();
          if (!ok) {
            unfuse();
            continue;
          }
          trace += cat(" swap", i, ",", j);
          long c0 = g_copies;
          if (r.coin()) {
            using std::swap;
            swap(*ps[i], *ps[j]);
          } else
            ps[i]->swap(*ps[j]);
          VCHECK(g_copies == c0, "copied.swap", trace);
          std::swap(ms[i], ms[j]); // allocators are equal or travel along
        } else if (op == 8 || op == 9) {
          nm = "mutate";
          if (ms[i].valueless) {
            unfuse();
            continue;
          }
          long d = r.in(1, 50);
          trace += cat(" bump", i);
          if (r.coin())
            (*ps[i])->bump(d);
          else
            (**ps[i]).bump(d);
          const P &c = *ps[i];
          VCHECK(c->sum() == (*c).sum(), "access", "-> and * disagree");
          ms[i].sum = c->sum();
          ms[i].unspecified = false;
          long was = saved[i].sum;
          VCHECK(saved[i].unspecified || saved[i].type == 5 || c->sum() > was, "mutation-lost", was, "->", c->sum());
        } else if (op == 10) {
          nm = "assign-fresh";
          Model m;
          auto p = fresh(m);
          trace += cat(" ", i, "<-new");
          bool rv = r.coin();
          bool same = p->get_allocator() == ps[i]->get_allocator();
          (void)same;
          int aid = ms[i].aid;
          if (rv) {
            *ps[i] = std::move(*p);
            m.aid = Tr::propagate_on_container_move_assignment::value ? m.aid : aid;
          } else {
            *ps[i] = *p;
            m.aid = Tr::propagate_on_container_copy_assignment::value ? m.aid : aid;
          }
          ms[i] = m;
        } else {
          nm = "container";
          trace += " vec";
          unfuse();
          std::vector<P> v;
          std::vector<Model> vm;
          for (size_t q = 0; q < ps.size(); q++) {
            v.push_back(*ps[q]);
            Model m = ms[q];
            vm.push_back(m);
          }
          if (!v.empty())
            v.erase(v.begin());
          for (size_t q = 0; q < v.size(); q++)
            VCHECK(v[q].valueless_after_move() == vm[q + 1].valueless &&
                       (vm[q + 1].valueless || (v[q]->sum() == vm[q + 1].sum && v[q]->type() == vm[q + 1].type)),
                   "container-value", q, trace);
        }
        unfuse();
        count(cat("op.", nm));
      } catch (const Boom &) {
        unfuse();
        count(cat("fault.", nm));
        trace += "!";
        VCHECK(ps.size() == ns, "fault-model", "");
        ms = saved; // nothing may have changed
      } catch (const std::bad_alloc &) {
        unfuse();
        count(cat("oom.", nm));
        trace += "!!";
        ms = saved;
      }
      check_all(nm);
    }
    ps.clear();
    ms.clear();
    VCHECK(g_live == 0 && g_objs.empty(), "leak-payload", g_live, trace);
    VCHECK(g_arena.blocks.empty(), "leak-block", g_arena.blocks.size(), trace);
    nontrivial(hash);
    sample(trace, 2);
  }
};
template <class A> static void hist(long, Rng &r) {
  g_live = 0;
  g_objs.clear();
  g_arena = Arena();
  g_copy_fuse = g_ctor_fuse = -1;
  long b0 = live_blocks().load();
  (void)b0;
  History<A> h(r);
  h.run(r.many(3, 40, 200));
}
template <int F> static void reg(const char *n) { run_cases(n, 3000, hist<Alloc<Base, F>>); }
int main(int argc, char **argv) {
  parse_args(argc, argv);
  heap_hooks_install();
  run_cases("std-allocator", 12000, hist<std::allocator<Base>>);
  reg<0>("arena-0");
  reg<1>("arena-pocca");
  reg<2>("arena-pocma");
  reg<4>("arena-pocs");
  reg<7>("arena-all");
  reg<8>("arena-socc");
  reg<15>("arena-all-socc");
  return finish();
}

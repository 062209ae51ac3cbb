// Shared monitor runtime: deterministic RNG, violation reporter, evidence
// counters, case loop. Every harness includes this FIRST.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <stdexcept>
#include <limits>
#include <algorithm>
#include <sstream>
#include <iostream>
#include <memory>
#include <mutex>
#include <array>
#include <numeric>
#include <atomic>

#include <Eigen/Core>
#include <Eigen/Dense>

namespace vf {
using V = Eigen::VectorXd;
using M = Eigen::MatrixXd;
using LV = Eigen::Matrix<long double, -1, 1>;
using LM = Eigen::Matrix<long double, -1, -1>;
using Index = Eigen::Index;

inline uint64_t mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
inline uint64_t hcomb(uint64_t a, uint64_t b) { return mix(a ^ mix(b)); }
inline uint64_t hdouble(double d) {
  uint64_t u;
  std::memcpy(&u, &d, 8);
  return u;
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix(seed)) {}
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double u01() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u01(); }
  int in(int lo, int hi) { return lo + int(next() % uint64_t(hi - lo + 1)); }
  bool coin(double p = 0.5) { return u01() < p; }
  /// mostly lo..hi, now and then something larger, up to top
  int many(int lo, int hi, int top, double p = 0.06) { return coin(p) ? in(hi + 1, coin() ? top : std::min(top, 2 * hi + 2)) : in(lo, hi); }
  double gauss() {
    double u = 0, v = u01();
    while (u <= 1e-300)
      u = u01();
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  double logu(double lo, double hi) {
    return std::exp(uni(std::log(lo), std::log(hi)));
  }
  template <class T> const T &pick(const std::vector<T> &v) {
    return v[next() % v.size()];
  }
  V vec(Index n, double sc = 1.) {
    V v(n);
    for (Index i = 0; i < n; i++)
      v[i] = sc * gauss();
    return v;
  }
  M mat(Index r, Index c, double sc = 1.) {
    M m(r, c);
    for (Index j = 0; j < c; j++)
      for (Index i = 0; i < r; i++)
        m(i, j) = sc * gauss();
    return m;
  }
  M ortho(Index n) {
    if (n == 0)
      return M(0, 0);
    M a = mat(n, n);
    Eigen::HouseholderQR<M> qr(a);
    return qr.householderQ() * M::Identity(n, n);
  }
  // symmetric matrix with the given number of +,-,0 eigenvalues; nonzero
  // magnitudes log-uniform in [lo,hi]
  M symInertia(int np, int nn, int nz, double lo, double hi) {
    int n = np + nn + nz;
    V d(n);
    for (int i = 0; i < n; i++)
      d[i] = i < np ? logu(lo, hi) : (i < np + nn ? -logu(lo, hi) : 0.);
    M q = ortho(n);
    M a = q * d.asDiagonal() * q.transpose();
    return 0.5 * (a + a.transpose());
  }
  M spd(int n, double lo, double hi) { return symInertia(n, 0, 0, lo, hi); }
};

struct Viol {
  std::string key, msg;
  long cas;
};

struct Ctx {
  uint64_t seed = 1;
  bool thorough = false;
  long only = -1;
  int shard = 0, nshards = 1;
  std::string out, status;
  double scale = 1.;
  // state
  long cas = -1;
  long evals = 0;
  std::map<std::string, uint64_t> cnt;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::vector<Viol> viols;
  std::map<std::string, int> per_key;
  FILE *sf = nullptr;
  std::mutex mtx;
};
inline Ctx &ctx() {
  static Ctx c;
  return c;
}

inline void count(const std::string &k, uint64_t n = 1) { ctx().cnt[k] += n; }
/// register a distinct, non-trivial observed case
inline void nontrivial(uint64_t h) { ctx().distinct.insert(h); }
inline void sample(const std::string &s, size_t maxn = 3) {
  if (ctx().samples.size() < maxn)
    ctx().samples.push_back(s);
}
inline void violation(const std::string &key, const std::string &msg) {
  Ctx &c = ctx();
  int &n = c.per_key[key];
  if (n++ < 3) {
    c.viols.push_back({key, msg, c.cas});
    std::fprintf(stderr, "[viol] case %ld key=%s %s\n", c.cas, key.c_str(),
                 msg.c_str());
  }
}
template <class... A> std::string cat(A &&...a) {
  std::ostringstream o;
  o.precision(17);
  ((o << a), ...);
  return o.str();
}
// phase label: visible to the driver if the process dies
inline void phase(const std::string &p) {
  Ctx &c = ctx();
  if (c.sf) {
    char buf[128];
    std::snprintf(buf, sizeof buf, "%12ld %-100.100s\n", c.cas, p.c_str());
    std::rewind(c.sf);
    std::fwrite(buf, 1, std::strlen(buf), c.sf);
    std::fflush(c.sf);
  }
}
#define VCHECK(cond, key, ...)                                                 \
  do {                                                                         \
    if (!(cond))                                                               \
      ::vf::violation(key, ::vf::cat(#cond, " failed: ", __VA_ARGS__));        \
  } while (false)

/// |a-b| <= tol * scale, NaN fails
inline bool close(double a, double b, double tol, double scale = 1.) {
  double d = std::abs(a - b);
  return d <= tol * scale || a == b;
}
template <class A, class B>
double maxdiff(const A &a, const B &b) {
  if (a.rows() != b.rows() || a.cols() != b.cols())
    return std::numeric_limits<double>::infinity();
  double m = 0;
  for (Index j = 0; j < a.cols(); j++)
    for (Index i = 0; i < a.rows(); i++) {
      if (a(i, j) == b(i, j))
        continue;
      double d = std::abs(double(a(i, j)) - double(b(i, j)));
      if (!(d <= m))
        m = std::isnan(d) ? std::numeric_limits<double>::infinity() : d;
    }
  return m;
}
template <class A> double maxabs(const A &a) {
  double m = 0;
  for (Index j = 0; j < a.cols(); j++)
    for (Index i = 0; i < a.rows(); i++) {
      double d = std::abs(a(i, j));
      if (!(d <= m))
        m = std::isnan(d) ? std::numeric_limits<double>::infinity() : d;
    }
  return m;
}
template <class A, class B> bool bitEq(const A &a, const B &b) {
  if (a.rows() != b.rows() || a.cols() != b.cols())
    return false;
  for (Index j = 0; j < a.cols(); j++)
    for (Index i = 0; i < a.rows(); i++) {
      double x = a(i, j), y = b(i, j);
      if (std::memcmp(&x, &y, 8) && !(x == 0 && y == 0))
        return false;
    }
  return true;
}
template <class A> std::string str(const A &a) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (Index i = 0; i < a.rows(); i++) {
    for (Index j = 0; j < a.cols(); j++)
      o << (j ? "," : (i ? ";" : "")) << a(i, j);
  }
  o << "]";
  std::string s = o.str();
  if (s.size() > 1500)
    s = s.substr(0, 1500) + "...";
  return s;
}

inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += char(c);
  }
  return o;
}

inline void parse_args(int argc, char **argv) {
  Ctx &c = ctx();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed")
      c.seed = std::strtoull(nxt().c_str(), nullptr, 10);
    else if (a == "--tier")
      c.thorough = nxt() == "thorough";
    else if (a == "--case")
      c.only = std::atol(nxt().c_str());
    else if (a == "--shard")
      c.shard = std::atoi(nxt().c_str());
    else if (a == "--nshards")
      c.nshards = std::atoi(nxt().c_str());
    else if (a == "--out")
      c.out = nxt();
    else if (a == "--status")
      c.status = nxt();
    else if (a == "--scale")
      c.scale = std::atof(nxt().c_str());
  }
  if (!c.status.empty())
    c.sf = std::fopen(c.status.c_str(), "w");
}

/// n cases, sharded; each with its own RNG stream
inline void run_cases(const std::string &name, long n,
                      const std::function<void(long, Rng &)> &fn) {
  Ctx &c = ctx();
  static long base = 0;
  n = std::max<long>(1, long(double(n) * c.scale));
  uint64_t tag = 1469598103934665603ull;
  for (char ch : name)
    tag = (tag ^ (unsigned char)ch) * 1099511628211ull;
  for (long i = 0; i < n; i++) {
    long id = base + i;
    if (c.only >= 0 ? id != c.only : (id % c.nshards) != c.shard)
      continue;
    c.cas = id;
    phase(name);
    c.evals++;
    Rng rng(hcomb(hcomb(c.seed, tag), uint64_t(i)));
    try {
      fn(i, rng);
      count("cases." + name);
    } catch (const EigenAssertError &e) {
      violation("eigen-assert." + name,
                std::string("library code tripped an Eigen run-time check: ") +
                    e.what());
    } catch (const std::exception &e) {
      violation("unexpected-exception." + name, e.what());
    } catch (...) {
      violation("unexpected-exception." + name, "non-std exception");
    }
  }
  base += n;
}

inline int finish() {
  Ctx &c = ctx();
  if (c.out.empty()) {
    std::printf("evals=%ld distinct=%zu viols=%zu\n", c.evals,
                c.distinct.size(), c.viols.size());
    for (auto &kv : c.cnt)
      std::printf("  %s=%llu\n", kv.first.c_str(),
                  (unsigned long long)kv.second);
    for (auto &kv : c.per_key)
      std::printf("  VIOL %s x%d\n", kv.first.c_str(), kv.second);
    return c.viols.empty() ? 0 : 1;
  }
  std::string tmp = c.out + ".tmp";
  FILE *f = std::fopen(tmp.c_str(), "w");
  if (!f)
    return 3;
  std::fprintf(f, "{\"evals\":%ld,\n\"counters\":{", c.evals);
  bool first = true;
  for (auto &kv : c.cnt) {
    std::fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(kv.first).c_str(),
                 (unsigned long long)kv.second);
    first = false;
  }
  std::fprintf(f, "},\n\"distinct\":[");
  first = true;
  for (auto h : c.distinct) {
    std::fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h);
    first = false;
  }
  std::fprintf(f, "],\n\"samples\":[");
  first = true;
  for (auto &s : c.samples) {
    std::fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str());
    first = false;
  }
  std::fprintf(f, "],\n\"violations\":[");
  first = true;
  for (auto &v : c.viols) {
    std::fprintf(f, "%s{\"key\":\"%s\",\"case\":%ld,\"msg\":\"%s\"}",
                 first ? "" : ",", jesc(v.key).c_str(), v.cas,
                 jesc(v.msg.substr(0, 4000)).c_str());
    first = false;
  }
  std::fprintf(f, "]}\n");
  std::fclose(f);
  std::rename(tmp.c_str(), c.out.c_str());
  return 0;
}
} // namespace vf

// ---- heap accounting (only in ASan builds) --------------------------------
#if defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#endif
#ifdef VF_ASAN
#include <sanitizer/allocator_interface.h>
namespace vf {
inline std::atomic<long> &live_blocks() {
  static std::atomic<long> n{0};
  return n;
}
inline void heap_hooks_install() {
  static bool done = false;
  if (done)
    return;
  done = true;
  live_blocks();
  __sanitizer_install_malloc_and_free_hooks(
      [](const volatile void *p, size_t) {
        if (p)
          live_blocks().fetch_add(1, std::memory_order_relaxed);
      },
      [](const volatile void *p) {
        if (p)
          live_blocks().fetch_sub(1, std::memory_order_relaxed);
      });
}
} // namespace vf
#else
namespace vf {
inline std::atomic<long> &live_blocks() {
  static std::atomic<long> n{0};
  return n;
}
inline void heap_hooks_install() {}
} // namespace vf
#endif
namespace vf {
/// number of heap blocks still live after fn, relative to before (fn is run
/// `reps` times after one warm-up, so one-off lazily cached blocks are not
/// counted as leaks)
template <class F> long leaked_blocks(F &&fn, int reps = 3) {
  fn();
  long b = live_blocks().load();
  for (int i = 0; i < reps; i++)
    fn();
  return live_blocks().load() - b;
}
} // namespace vf

// Boring reference model of an ETR value and helpers to observe the real ones.
#pragma once
#ifndef ETR_RMODE // R mode: with the stand-in of R in h/rstub
#define STANDALONE_ETR
#endif
#include "etr.hpp"
#include "mc.hpp"

namespace rm {
using mc::fail;
enum Ty { B, I, D };
// vector of doubles with inline storage: the reference model allocates rarely
struct SV {
  static constexpr std::size_t N = 16;
  double in[N];
  double *p = in;
  std::size_t n = 0, cap = N;
  SV() {}
  SV(std::initializer_list<double> l) { assign(l.begin(), l.end()); }
  SV(const std::vector<double> &l) { assign(l.begin(), l.end()); }
  SV(const SV &o) { assign(o.begin(), o.end()); }
  SV &operator=(const SV &o) {
    if (this != &o)
      assign(o.begin(), o.end());
    return *this;
  }
  ~SV() {
    if (p != in)
      delete[] p;
  }
  void reserve(std::size_t k) {
    if (k <= cap)
      return;
    double *q = new double[2 * k];
    for (std::size_t i = 0; i < n; i++)
      q[i] = p[i];
    if (p != in)
      delete[] p;
    p = q;
    cap = 2 * k;
  }
  void push_back(double d) {
    reserve(n + 1);
    p[n++] = d;
  }
  void resize(std::size_t k) {
    reserve(k);
    for (std::size_t i = n; i < k; i++)
      p[i] = 0;
    n = k;
  }
  template <class It> void assign(It a, It b) {
    n = 0;
    reserve(std::size_t(b - a));
    for (; a != b; ++a)
      p[n++] = *a;
  }
  void assign(std::size_t k, double d) {
    reserve(k);
    n = k;
    for (std::size_t i = 0; i < k; i++)
      p[i] = d;
  }
  void append(const SV &o) {
    reserve(n + o.n);
    for (std::size_t i = 0; i < o.n; i++)
      p[n + i] = o.p[i];
    n += o.n;
  }
  std::size_t size() const { return n; }
  bool empty() const { return n == 0; }
  double &operator[](std::size_t i) { return p[i]; }
  const double &operator[](std::size_t i) const { return p[i]; }
  double *begin() { return p; }
  double *end() { return p + n; }
  const double *begin() const { return p; }
  const double *end() const { return p + n; }
  std::vector<double> vec() const { return std::vector<double>(p, p + n); }
};
struct V {
  SV x;
  bool m = false;
  std::size_t r = 0, c = 0;
  Ty t = D;
  V() {}
  V(const std::vector<double> &x_) : x(x_) {}
  V(std::initializer_list<double> x_) : x(x_) {}
  V(const SV &x_) : x(x_) {}
  V(const std::vector<double> &x_, std::size_t r_, std::size_t c_)
      : x(x_), m(true), r(r_), c(c_) {}
  std::size_t n() const { return x.size(); }
};
inline bool near(double a, double b) {
  if (a != a || b != b)
    return (a != a) && (b != b);
  if (a == b)
    return true;
  if (std::isinf(a) || std::isinf(b))
    return false;
  return std::fabs(a - b) <= 1e-12 * std::max(std::fabs(a), std::fabs(b));
}
inline std::string str(const V &v) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (double d : v.x)
    o << " " << d;
  o << " ]";
  if (v.m)
    o << "(" << v.r << "x" << v.c << ")";
  return o.str();
}
inline std::uint64_t hash(const V &v) {
  std::uint64_t h = 17;
  for (double d : v.x)
    h = mc::hmix(h, mc::hd(d));
  h = mc::hmix(h, v.m ? v.r * 1000 + v.c + 7 : 3);
  return h;
}
inline bool eq(const V &a, const V &b) {
  if (a.x.size() != b.x.size() || a.m != b.m)
    return false;
  if (a.m && (a.r != b.r || a.c != b.c))
    return false;
  for (std::size_t i = 0; i < a.x.size(); i++)
    if (!near(a.x[i], b.x[i]))
      return false;
  return true;
}
inline void expect(const V &got, const V &want, const char *what) {
  if (!eq(got, want))
    fail(std::string(what) + ": got " + str(got) + ", expected " + str(want));
}
// Observation of a real object through its public interface.
template <class O> inline V obs(const O &o) {
  V v;
  std::size_t n = o.size();
  if (n > 100000000)
    fail("absurd length " + std::to_string(n));
  v.x.reserve(n);
  for (std::size_t i = 0; i < n; i++)
    v.x.push_back(static_cast<double>(o[i]));
  v.m = o.im();
  if (v.m) {
    v.r = o.nr();
    v.c = o.nc();
  }
  return v;
}
inline void noShape(V &v) {
  v.m = false;
  v.r = v.c = 0;
}

// construction of real variables from model values
template <class T> inline void put(etr::Vec<T> &v, const V &m) {
  if (m.x.empty())
    return;
  v.resize(m.x.size());
  for (std::size_t i = 0; i < m.x.size(); i++)
    v[i] = static_cast<T>(m.x[i]);
  if (m.m)
    v.d.setMatrix(true, m.r, m.c);
}
template <class T> struct Tyof;
template <> struct Tyof<double> { static constexpr Ty t = D; };
template <> struct Tyof<int> { static constexpr Ty t = I; };
template <> struct Tyof<bool> { static constexpr Ty t = B; };

inline double conv(double x, Ty t) {
  return t == D ? x : t == I ? std::trunc(x) : (x != 0 ? 1.0 : 0.0);
}
inline V convTo(V v, Ty t) {
  for (auto &d : v.x)
    d = conv(d, t);
  v.t = t;
  return v;
}
// Caller memory with guard zones for borrowing.
struct Guarded {
  static constexpr std::size_t G = 8;
  std::vector<double> mem;
  std::size_t n;
  explicit Guarded(const SV &x) : mem(x.size() + 2 * G), n(x.size()) {
    for (std::size_t i = 0; i < G; i++)
      mem[i] = mem[G + n + i] = 7770000.5 + i;
    for (std::size_t i = 0; i < n; i++)
      mem[G + i] = x[i];
    MC_POISON(mem.data(), G * sizeof(double));
    MC_POISON(mem.data() + G + n, G * sizeof(double));
  }
  Guarded(const Guarded &) = delete;
  ~Guarded() { unpoison(); }
  void unpoison() {
    MC_UNPOISON(mem.data(), mem.size() * sizeof(double));
  }
  double *p() { return mem.data() + G; }
  void checkGuards() {
    unpoison();
    for (std::size_t i = 0; i < G; i++)
      if (mem[i] != 7770000.5 + i || mem[G + n + i] != 7770000.5 + i)
        fail("memory outside of the borrowed elements was changed");
    MC_POISON(mem.data(), G * sizeof(double));
    MC_POISON(mem.data() + G + n, G * sizeof(double));
  }
};
// shapes: binary rule
inline V shapeOf2(const V &a, const V &b, V res, bool &bad) {
  bad = false;
  if (a.m || b.m) {
    std::size_t r, c;
    if (a.m && b.m) {
      r = std::max(a.r, b.r);
      c = std::max(a.c, b.c);
    } else {
      r = a.m ? a.r : b.r;
      c = a.m ? a.c : b.c;
    }
    if (r * c != res.x.size())
      bad = true;
    res.m = true;
    res.r = r;
    res.c = c;
  }
  return res;
}
} // namespace rm

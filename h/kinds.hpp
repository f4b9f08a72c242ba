// Operand kinds: each creates a real ETR operand carrying a given model value
// and passes it to a continuation. Template parameter = kind number.
#pragma once
#include "model.hpp"

namespace rk {
using namespace rm;
using etr::Borrow;
using etr::Buffer;
using etr::coca;
using etr::subset;
using etr::Vec;

enum K {
  VD,   // Vec<double>
  VI,   // Vec<int>
  VB,   // Vec<bool>
  BO,   // borrowed memory
  CV,   // const Vec<double>
  SD,   // double scalar
  SI_,  // int scalar
  SB,   // bool scalar
  RD,   // temporary (result of coca / generator), double
  RI,   // temporary, int
  SVD,  // selection of Vec<double>
  SVI,  // selection of Vec<int>
  SBO,  // selection of borrowed memory
  EB,   // nested binary expression
  EU,   // nested unary expression
  EC,   // comparison
  NKINDS,
  SEX = NKINDS // selection of an expression (only where supported)
};
inline const char *name(int k) {
  static const char *n[] = {"Vec<double>",     "Vec<int>",       "Vec<bool>",
                            "BorrowPtr",       "const Vec",      "double",
                            "int",             "bool",           "temp<double>",
                            "temp<int>",       "subset(Vec)",    "subset(Vec<int>)",
                            "subset(Borrow)",  "binary-expr",    "unary-expr",
                            "comparison",      "subset(expr)"};
  return n[k];
}
constexpr bool isScalar(int k) { return k == SD || k == SI_ || k == SB; }
constexpr Ty tyOf(int k) {
  return (k == VI || k == SI_ || k == RI || k == SVI) ? I
         : (k == VB || k == SB || k == EC)            ? B
                                                      : D;
}
constexpr bool canMatrix(int k) {
  return !isScalar(k) && k != SVD && k != SVI && k != SBO && k != SEX;
}

template <class T>
auto makeR(const V &m) { // a temporary with the given elements
  etr::Vec<T, etr::Buffer<T, etr::BufferTrait, etr::RBufTrait>, etr::RVecTrait> r(
      etr::SI{m.x.size()});
  for (std::size_t i = 0; i < m.x.size(); i++)
    r[i] = static_cast<T>(m.x[i]);
  if (m.m)
    r.d.setMatrix(true, m.r, m.c);
  return r;
}
// base vector holding the elements of m interleaved with decoys, and positions
inline void decoy(const V &m, std::vector<double> &base, std::vector<int> &pos) {
  std::size_t n = m.x.size();
  base.assign(2 * n + 1, -77.0);
  pos.resize(n);
  for (std::size_t i = 0; i < n; i++) {
    std::size_t at = (i % 2 == 0) ? (2 * n - 1 - i) : i; // scattered, distinct
    base[at] = m.x[i];
    pos[i] = int(at) + 1;
  }
}

// Opd<k>: owns the storage behind an operand of kind k; get() is the operand,
// done() verifies that the storage still has the original value.
template <int k> struct Opd;
template <class T, bool cst> struct OpdVec {
  Vec<T> v;
  V m;
  OpdVec(const V &m_) : m(m_) { put(v, m); }
  auto &get() {
    if constexpr (cst)
      return const_cast<const Vec<T> &>(v);
    else
      return v;
  }
  void done() { expect(obs(v), m, "operand changed"); }
};
template <> struct Opd<VD> : OpdVec<double, false> { using OpdVec::OpdVec; };
template <> struct Opd<VI> : OpdVec<int, false> { using OpdVec::OpdVec; };
template <> struct Opd<VB> : OpdVec<bool, false> { using OpdVec::OpdVec; };
template <> struct Opd<CV> : OpdVec<double, true> { using OpdVec::OpdVec; };
template <> struct Opd<BO> {
  V m;
  Guarded g;
  ::BorrowPtr b;
  static ::BorrowPtr mk(const V &m, Guarded &g) {
    if (m.m)
      return ::BorrowPtr(g.p(), m.r, m.c);
    return ::BorrowPtr(g.p(), m.x.size());
  }
  Opd(const V &m_) : m(m_), g(m_.x), b(mk(m, g)) {}
  auto &get() { return b; }
  void done() {
    expect(obs(b), m, "operand changed");
    g.checkGuards();
  }
};
template <class T> struct OpdScalar {
  T s;
  OpdScalar(const V &m) : s(static_cast<T>(m.x[0])) {}
  T &get() { return s; }
  void done() {}
};
template <> struct Opd<SD> : OpdScalar<double> { using OpdScalar::OpdScalar; };
template <> struct Opd<SI_> : OpdScalar<int> { using OpdScalar::OpdScalar; };
template <> struct Opd<SB> : OpdScalar<bool> { using OpdScalar::OpdScalar; };
template <class T> struct OpdTemp {
  decltype(makeR<T>(V())) v;
  V m;
  OpdTemp(const V &m_) : v(makeR<T>(m_)), m(m_) {}
  auto &get() { return v; }
  void done() { expect(obs(v), m, "operand changed"); }
};
template <> struct Opd<RD> : OpdTemp<double> { using OpdTemp::OpdTemp; };
template <> struct Opd<RI> : OpdTemp<int> { using OpdTemp::OpdTemp; };
struct Dec {
  std::vector<double> base;
  std::vector<int> pos;
  Vec<int> idx;
  Dec(const V &m, double shift) {
    decoy(m, base, pos);
    for (auto &d : base)
      d += shift;
    put(idx, V(std::vector<double>(pos.begin(), pos.end())));
  }
};
template <class T> struct OpdSub : Dec {
  Vec<T> v;
  OpdSub(const V &m) : Dec(m, 0) { put(v, V(base)); }
  auto get() { return subset(v, idx); }
  void done() { expect(obs(v), V(base), "operand changed"); }
};
template <> struct Opd<SVD> : OpdSub<double> { using OpdSub::OpdSub; };
template <> struct Opd<SVI> : OpdSub<int> { using OpdSub::OpdSub; };
template <> struct Opd<SBO> : Dec {
  Guarded g;
  ::BorrowPtr v;
  Opd(const V &m) : Dec(m, 0), g(base), v(g.p(), base.size()) {}
  auto get() { return subset(v, idx); }
  void done() {
    expect(obs(v), V(base), "operand changed");
    g.checkGuards();
  }
};
inline V shifted(V m, double s, double f = 1) {
  for (auto &d : m.x)
    d = d * f + s;
  return m;
}
template <> struct Opd<EB> { // exact for the alphabets used with it
  V um;
  Vec<double> u, w;
  Opd(const V &m) : um(shifted(m, -1)) {
    put(u, um);
    w = 1.0;
  }
  auto get() { return u + w; }
  void done() { expect(obs(u), um, "operand changed"); }
};
template <> struct Opd<EU> {
  V um;
  Vec<double> u;
  Opd(const V &m) : um(m) {
    for (auto &d : um.x)
      d = -d;
    put(u, um);
  }
  auto get() { return -u; }
  void done() { expect(obs(u), um, "operand changed"); }
};
template <> struct Opd<EC> {
  V um;
  Vec<double> u;
  Opd(const V &m) : um(m) { put(u, um); }
  auto get() { return u > half; }
  double half = 0.5;
  void done() { expect(obs(u), um, "operand changed"); }
};
template <> struct Opd<SEX> : Dec {
  Vec<double> v;
  decltype(std::declval<Vec<double> &>() + std::declval<double &>()) e;
  double one = 1.0;
  Opd(const V &m) : Dec(m, -1), e((put(v, V(base)), v) + one) {}
  auto get() { return subset(e, idx); }
  void done() { expect(obs(v), V(base), "operand changed"); }
};
// adapt a value to what the kind can hold
template <int k> V fit(V m) {
  if constexpr (isScalar(k)) {
    m.x.resize(1);
    noShape(m);
  }
  if constexpr (tyOf(k) == B)
    for (auto &d : m.x)
      d = (long(std::floor(d)) % 2 != 0) ? 1.0 : 0.0;
  if constexpr (tyOf(k) == I)
    for (auto &d : m.x)
      d = std::trunc(d);
  m.t = tyOf(k);
  return m;
}

// operators
struct Add { static constexpr const char *n = "+"; template <class L, class R> static auto ap(const L &l, const R &r) { return l + r; } static double ref(double a, double b) { return a + b; } };
struct Sub { static constexpr const char *n = "-"; template <class L, class R> static auto ap(const L &l, const R &r) { return l - r; } static double ref(double a, double b) { return a - b; } };
struct Mul { static constexpr const char *n = "*"; template <class L, class R> static auto ap(const L &l, const R &r) { return l * r; } static double ref(double a, double b) { return a * b; } };
struct Div { static constexpr const char *n = "/"; template <class L, class R> static auto ap(const L &l, const R &r) { return l / r; } static double ref(double a, double b) { return a / b; } };
struct Pow { static constexpr const char *n = "^"; template <class L, class R> static auto ap(const L &l, const R &r) { return l ^ r; } static double ref(double a, double b) { return std::pow(a, b); } };
struct Lt { static constexpr const char *n = "<"; template <class L, class R> static auto ap(const L &l, const R &r) { return l < r; } static double ref(double a, double b) { return a < b; } };
struct Le { static constexpr const char *n = "<="; template <class L, class R> static auto ap(const L &l, const R &r) { return l <= r; } static double ref(double a, double b) { return a <= b; } };
struct Gt { static constexpr const char *n = ">"; template <class L, class R> static auto ap(const L &l, const R &r) { return l > r; } static double ref(double a, double b) { return a > b; } };
struct Ge { static constexpr const char *n = ">="; template <class L, class R> static auto ap(const L &l, const R &r) { return l >= r; } static double ref(double a, double b) { return a >= b; } };
struct Eq { static constexpr const char *n = "=="; template <class L, class R> static auto ap(const L &l, const R &r) { return l == r; } static double ref(double a, double b) { return std::fabs(a - b) < 1e-3; } };
struct Ne { static constexpr const char *n = "!="; template <class L, class R> static auto ap(const L &l, const R &r) { return l != r; } static double ref(double a, double b) { return std::fabs(a - b) > 1e-3; } };

template <class Op> V refBin(const V &a, const V &b, bool &bad) {
  V r;
  std::size_t n = (a.x.empty() || b.x.empty()) ? 0 : std::max(a.x.size(), b.x.size());
  for (std::size_t i = 0; i < n; i++)
    r.x.push_back(Op::ref(a.x[i % a.x.size()], b.x[i % b.x.size()]));
  return shapeOf2(a, b, r, bad);
}
template <int N, class F> void forK(F &&f) {
  [&]<int... i>(std::integer_sequence<int, i...>) {
    (f(std::integral_constant<int, i>{}), ...);
  }(std::make_integer_sequence<int, N>{});
}
template <class F> void forOps(F &&f) {
  f(Add{}); f(Sub{}); f(Mul{}); f(Div{}); f(Pow{});
}
template <class F> void forCmp(F &&f) {
  f(Lt{}); f(Le{}); f(Gt{}); f(Ge{}); f(Eq{}); f(Ne{});
}
} // namespace rk

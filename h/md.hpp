// Reference interpreter: the same statement text (a generic lambda) that runs on
// the real ETR objects (RW) also runs on these plain values (MW).
#pragma once
#include "model.hpp"

namespace md {
using rm::B;
using rm::D;
using rm::I;
using rm::Ty;
using rm::V;
struct Rej {
  const char *why;
};
[[noreturn]] inline void rej(const char *w) { throw Rej{w}; }

// a result nobody promises (NA or a number beyond int stored into an int): the
// sequence ends here
struct Unspec {};
inline double cv(double x, Ty t) {
  if (t == I && !(std::fabs(x) < 2147483648.0))
    throw Unspec{};
  return rm::conv(x, t);
}
// a variable: owning (mem grows/shrinks) or borrowing (mem is fixed)
struct Sel;
struct Var {
  // the call syntax v(i) and m(r, c)
  template <class I> Sel operator()(const I &idx);
  template <class R, class C> Sel operator()(const R &r, const C &c);
  Ty t = D;
  bool borrow = false;
  bool detach = false; // a borrowing variable that gets memory of its own for longer values
  rm::SV own;
  rm::SV *ext = nullptr; // storage shared with another borrowing variable
  std::size_t off = 0;   // offset in the shared storage
  rm::SV &mem() { return ext ? *ext : own; }
  const rm::SV &mem() const { return ext ? *ext : own; }
  std::size_t cap() const { return mem().size() - off; }
  std::size_t len = 0;
  bool m = false;
  std::size_t r = 0, c = 0;
  Var() {}
  explicit Var(Ty t_) : t(t_) {}
  Var(const Var &o) = default;
  V val() const {
    V v;
    v.x.assign(mem().begin() + off, mem().begin() + off + len);
    v.m = m;
    v.r = r;
    v.c = c;
    v.t = t;
    return v;
  }
  void set(V v) {
    if (v.x.empty())
      rej("empty value");
    for (auto &d : v.x)
      d = cv(d, t);
    v.t = t;
    if (v.m && v.r * v.c != v.x.size())
      rej("non-conformable");
    if (borrow && detach && v.x.size() > cap()) {
      borrow = false;
      ext = nullptr;
      off = 0;
    }
    if (borrow) {
      if (v.x.size() > cap())
        rej("longer than the borrowed memory");
      std::copy(v.x.begin(), v.x.end(), mem().begin() + off);
    } else
      mem() = v.x;
    len = v.x.size();
    m = v.m;
    r = v.m ? v.r : 0;
    c = v.m ? v.c : 0;
  }
  void fill(double v) { std::fill(mem().begin() + off, mem().begin() + off + len, cv(v, t)); }
  double &back() { // the last element (values of the element type only)
    if (!len)
      rej("back() of an empty variable");
    return mem()[off + len - 1];
  }
  template <class T> Var &operator=(const T &o);
  Var &operator=(const Var &o) {
    set(o.val());
    return *this;
  }
};
struct Sel { // selection: lazily evaluated, validated as a whole
  Var *v = nullptr;
  V src;
  std::vector<long> ind; // 0-based, possibly invalid
  bool m = false;
  std::size_t r = 0, c = 0;
  std::size_t srcLen() const { return v ? v->len : src.x.size(); }
  V val() const {
    V o;
    V s = v ? v->val() : src;
    for (long k : ind) {
      if (k < 0 || std::size_t(k) >= s.x.size())
        rej("position out of range");
      o.x.push_back(s.x[k]);
    }
    o.m = m;
    o.r = r;
    o.c = c;
    o.t = D; // arithmetic on selections is done on doubles
    return o;
  }
  void check() const {
    for (long k : ind)
      if (k < 0 || std::size_t(k) >= srcLen())
        rej("position out of range");
  }
  template <class T> void operator=(const T &o);
  void operator=(const Sel &o) { assign(o.val()); }
  void assign(const V &val) {
    if (val.x.size() != ind.size())
      rej("length of the right-hand side");
    if (val.m && val.r * val.c != val.x.size())
      rej("non-conformable");
    check();
    for (std::size_t i = 0; i < ind.size(); i++)
      v->mem()[v->off + ind[i]] = cv(val.x[i], v->t);
  }
};
struct Ref { // at()
  Var *v;
  std::size_t i;
  operator double() const { return v->mem()[v->off + i]; }
  template <class T>
    requires std::is_arithmetic_v<T>
  void operator=(T x) {
    v->mem()[v->off + i] = cv(double(x), v->t);
  }
  void operator=(const Ref &o) { *this = double(o); }
};
template <class T> constexpr bool isM = std::is_same_v<T, V> || std::is_same_v<T, Var> || std::is_same_v<T, Sel> || std::is_same_v<T, Ref>;
template <class T> constexpr bool isMV = std::is_same_v<T, V> || std::is_same_v<T, Var> || std::is_same_v<T, Sel>;
inline V toV(const V &v) { return v; }
inline V toV(const Var &v) { return v.val(); }
inline V toV(const Sel &s) { return s.val(); }
inline V toV(const Ref &r) {
  V v({double(r)});
  v.t = r.v->t;
  return v;
}
template <class T>
  requires std::is_arithmetic_v<T>
V toV(T x) {
  V v({double(x)});
  v.t = std::is_same_v<T, bool> ? B : std::is_integral_v<T> ? I : D;
  return v;
}
template <class T> Var &Var::operator=(const T &o) {
  set(toV(o));
  return *this;
}
template <class T> void Sel::operator=(const T &o) {
  if constexpr (std::is_arithmetic_v<T>) {
    check();
    for (std::size_t i = 0; i < ind.size(); i++)
      v->mem()[v->off + ind[i]] = cv(double(o), v->t);
  } else if constexpr (std::is_same_v<T, Ref>) {
    *this = double(o);
  } else
    assign(toV(o));
}
template <class F> V bin(const V &a, const V &b, F f, bool cmp, bool alwaysD) {
  V r;
  if (a.x.empty() || b.x.empty())
    rej("operand of length 0");
  std::size_t n = std::max(a.x.size(), b.x.size());
  for (std::size_t i = 0; i < n; i++)
    r.x.push_back(f(a.x[i % a.x.size()], b.x[i % b.x.size()]));
  bool bad;
  r = rm::shapeOf2(a, b, r, bad);
  r.t = cmp ? B : alwaysD ? D : (a.t == D || b.t == D) ? D : I;
  if (r.t == I)
    for (double d : r.x)
      if (!(std::fabs(d) < 2147483648.0)) // beyond the integers
        throw Unspec{};
  return r;
}
#define MD_BIN(op, expr, cmp, ad)                                              \
  template <class L, class R>                                                  \
    requires(isMV<L> || isMV<R>)                                               \
  V operator op(const L &l, const R &r) {                                      \
    return bin(toV(l), toV(r), [](double a, double b) -> double { return expr; }, cmp, ad); \
  }
MD_BIN(+, a + b, false, false)
MD_BIN(-, a - b, false, false)
MD_BIN(*, a *b, false, false)
MD_BIN(/, a / b, false, true)
MD_BIN(^, std::pow(a, b), false, true)
MD_BIN(<, a < b, true, false)
MD_BIN(<=, a <= b, true, false)
MD_BIN(>, a > b, true, false)
MD_BIN(>=, a >= b, true, false)
MD_BIN(==, std::fabs(a - b) < 1e-3, true, false)
MD_BIN(!=, std::fabs(a - b) > 1e-3, true, false)
template <class F> V map(V v, F f, Ty t) {
  for (auto &d : v.x)
    d = f(d);
  v.t = t;
  return v;
}
template <class L>
  requires isMV<L>
V operator-(const L &l) {
  V v = toV(l);
  return map(v, [](double d) { return -d; }, v.t == D ? D : I);
}
#define MD_UN(name, fn)                                                        \
  template <class L>                                                           \
    requires isMV<L>                                                           \
  V name(const L &l) {                                                         \
    return map(toV(l), [](double d) -> double { return fn(d); }, D);           \
  }
MD_UN(sinus, std::sin)
MD_UN(asinus, std::asin)
MD_UN(sinush, std::sinh)
MD_UN(cosinus, std::cos)
MD_UN(acosinus, std::acos)
MD_UN(cosinush, std::cosh)
MD_UN(tangens, std::tan)
MD_UN(atangens, std::atan)
MD_UN(tangensh, std::tanh)
MD_UN(exp, std::exp)
MD_UN(ln, std::log)
MD_UN(sqroot, std::sqrt)
template <class L>
  requires isMV<L>
V isNA(const L &l) {
  V v = map(toV(l), [](double d) -> double { return d != d; }, B);
  rm::noShape(v);
  return v;
}
template <class L>
  requires isMV<L>
V isInf(const L &l) {
  V v = map(toV(l), [](double d) -> double { return std::isinf(d); }, B);
  rm::noShape(v);
  return v;
}
template <class L>
  requires isMV<L>
int length(const L &l) {
  return int(toV(l).x.size());
}
template <class L>
  requires isMV<L>
V dim(const L &l) {
  V v = toV(l);
  if (!v.m)
    rej("dim of a non-matrix");
  V o({double(v.r), double(v.c)});
  o.t = I;
  return o;
}
template <class S> void selInit(Sel &s, S &v) {
  if constexpr (std::is_same_v<S, Var>)
    s.v = &v;
  else
    s.src = toV(v);
}
inline long pos0(double d) {
  if (!(d >= 1) || d > 4e18)
    return -1;
  return long(std::floor(d)) - 1;
}
template <class L, class Ix>
  requires isMV<std::remove_cvref_t<L>>
Sel subset(L &&v, const Ix &idx) {
  Sel s;
  selInit(s, v);
  std::size_t n = s.srcLen();
  if constexpr (std::is_same_v<Ix, bool>) {
    if (!idx)
      rej("FALSE subscript");
    for (std::size_t i = 0; i < n; i++)
      s.ind.push_back(long(i));
  } else {
    V ix = toV(idx);
    bool sel = std::is_same_v<Ix, Sel>;
    if (ix.t == B && !sel) {
      if (ix.x.empty())
        rej("empty logical subscript");
      for (std::size_t i = 0; i < n; i++)
        if (ix.x[i % ix.x.size()] != 0)
          s.ind.push_back(long(i));
    } else
      for (double d : ix.x)
        s.ind.push_back(pos0(d));
  }
  if (s.ind.empty())
    rej("nothing selected");
  return s;
}
// one dimension of a matrix subscript: positions (0-based, -1 = invalid), kind
struct DimSel {
  std::vector<long> p;
  bool scalar = false;
};
template <class Ix> DimSel dimSel(const Ix &idx, std::size_t ext) {
  DimSel d;
  if constexpr (std::is_same_v<Ix, bool>) {
    if (!idx)
      rej("FALSE subscript");
    for (std::size_t i = 0; i < ext; i++)
      d.p.push_back(long(i));
  } else {
    V ix = toV(idx);
    d.scalar = std::is_arithmetic_v<Ix> || std::is_same_v<Ix, Ref>;
    if (ix.t == B && !std::is_same_v<Ix, Sel>) {
      if (ix.x.empty() || ix.x.size() > ext)
        rej("logical subscript too long");
      for (std::size_t i = 0; i < ext; i++)
        if (ix.x[i % ix.x.size()] != 0)
          d.p.push_back(long(i));
    } else
      for (double x : ix.x)
        d.p.push_back(pos0(x));
  }
  for (auto &k : d.p)
    if (k >= long(ext))
      k = -1;
  return d;
}
template <class L, class R, class C>
  requires isMV<std::remove_cvref_t<L>>
Sel subset(L &&v, const R &r, const C &c) {
  Sel s;
  selInit(s, v);
  bool m;
  std::size_t nr, nc;
  if constexpr (std::is_same_v<std::remove_cvref_t<L>, Var>) {
    m = v.m, nr = v.r, nc = v.c;
  } else {
    m = s.src.m, nr = s.src.r, nc = s.src.c;
  }
  if (!m)
    rej("incorrect number of dimensions");
  DimSel a = dimSel(r, nr), b = dimSel(c, nc);
  for (long j : b.p)
    for (long i : a.p)
      s.ind.push_back(i < 0 || j < 0 ? -1 : j * long(nr) + i);
  if (s.ind.empty())
    rej("nothing selected");
  if (!a.scalar && !b.scalar) {
    s.m = true;
    s.r = a.p.size();
    s.c = b.p.size();
  }
  return s;
}
template <class I> Sel Var::operator()(const I &idx) { return subset(*this, idx); }
template <class R, class C> Sel Var::operator()(const R &r, const C &c) { return subset(*this, r, c); }
template <class N> Ref at(Var &v, N i) {
  long k = (double(i) >= 1 && double(i) < 4e18) ? long(double(i)) - 1 : -1;
  if (k < 0 || std::size_t(k) >= v.len)
    rej("at out of range");
  return Ref{&v, std::size_t(k)};
}
inline std::size_t atInd(bool m, std::size_t nr, std::size_t nc, double i, double j) {
  if (!m)
    rej("not a matrix");
  if (!(i >= 1) || !(j >= 1) || i >= double(nr) + 1 || j >= double(nc) + 1)
    rej("at out of range");
  return (std::size_t(j) - 1) * nr + std::size_t(i) - 1;
}
template <class N, class M2> Ref at(Var &v, N i, M2 j) {
  return Ref{&v, atInd(v.m, v.r, v.c, double(i), double(j))};
}
template <class L, class N, class M2>
  requires(std::is_same_v<L, V> || std::is_same_v<L, Sel>)
double at(const L &l, N i, M2 j) {
  V v = toV(l);
  return v.x[atInd(v.m, v.r, v.c, double(i), double(j))];
}
// generators
template <class T> double sizeArg(const T &s) {
  V v = toV(s);
  if (v.x.size() != 1)
    rej("size argument of length != 1");
  if (!(v.x[0] >= 1))
    rej("size below 1");
  if (v.x[0] > 1e9)
    rej("too large");
  return std::floor(v.x[0]);
}
template <class T> double firstSize(const T &s) {
  V v = toV(s);
  if (v.x.empty())
    rej("empty size argument");
  return sizeArg(v.x[0]);
}
template <class... A> V coca(const A &...a) {
  V r;
  r.t = B;
  bool sel = false;
  (
      [&] {
        V v = toV(a);
        r.x.append(v.x);
        r.t = std::max(r.t, v.t);
      }(),
      ...);
  if (r.x.empty())
    rej("empty coca");
  return r;
}
template <class X, class R, class C> V matrix(const X &x, const R &r, const C &c) {
  // of a size with several elements the first one counts
  double nr = firstSize(r), nc = firstSize(c);
  V v = toV(x);
  if (std::is_arithmetic_v<X>)
    v.x.assign(std::size_t(nr * nc), v.x[0]);
  if (double(v.x.size()) != nr * nc)
    rej("data does not match the dimensions");
  v.m = true;
  v.r = std::size_t(nr);
  v.c = std::size_t(nc);
  return v;
}
template <class X, class N> V rep(const X &x, const N &n) {
  V v = toV(x), r;
  std::size_t k = std::size_t(sizeArg(n));
  if (v.x.empty())
    rej("empty rep");
  for (std::size_t i = 0; i < k; i++)
    r.x.append(v.x);
  r.t = v.t;
  return r;
}
template <class X, class Y> V colon(const X &x, const Y &y) {
  V a = toV(x), b = toV(y), r;
  double f = a.x[0], t = b.x[0];
  r.t = std::max(a.t, b.t);
  double dist = std::fabs(f - t); // whether t itself is reached is a matter of rounding
  if (dist != std::round(dist) && std::fabs(dist - std::round(dist)) < 1e-9)
    throw Unspec{};
  if (dist > 1e7)
    rej("too long");
  if (dist == std::round(dist)) {
    for (double i = 0; i <= dist; i++)
      r.x.push_back(f < t ? f + i : f - i);
    return r;
  }
  if (f < t)
    for (double i = 0; f + i <= t; i++)
      r.x.push_back(f + i);
  else
    for (double i = 0; f - i >= t; i++)
      r.x.push_back(f - i);
  return r;
}
template <class N> V zeros(const N &n, Ty t) {
  V v;
  v.x.assign(std::size_t(sizeArg(n)), 0.0);
  v.t = t;
  return v;
}
} // namespace md

namespace rm { // rm::V takes part in the same overload sets
using md::operator+;
using md::operator-;
using md::operator*;
using md::operator/;
using md::operator^;
using md::operator<;
using md::operator<=;
using md::operator>;
using md::operator>=;
using md::operator==;
using md::operator!=;
using md::sinus;
using md::asinus;
using md::sinush;
using md::cosinus;
using md::acosinus;
using md::cosinush;
using md::tangens;
using md::atangens;
using md::tangensh;
using md::exp;
using md::ln;
using md::sqroot;
using md::isNA;
using md::isInf;
using md::length;
using md::dim;
using md::subset;
using md::at;
} // namespace rm

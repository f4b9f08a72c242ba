// Worlds for derivative tracking (C17, C18): TW runs a program on tracked
// variables, OW the same text on ordinary variables, MW on dual numbers.
#pragma once
#include "machine.hpp"
#include "subs.hpp"
namespace dl {
using rm::V;
using rm::SV;
// --- dual numbers -----------------------------------------------------------
struct Du {
  V v;
  SV d;
  bool konst = false; // a constant itself (not an expression of constants)
  bool onlyK = false; // no variable involved
};
inline Du kd(const V &v) {
  Du r;
  r.v = v;
  r.d.assign(v.x.size(), 0.0);
  r.konst = r.onlyK = true;
  return r;
}
template <class F, class G> Du bin(const Du &a, const Du &b, F f, G g, bool cmp) {
  Du r;
  r.v = md::bin(a.v, b.v, f, cmp, false);
  for (std::size_t i = 0; i < r.v.x.size(); i++) {
    std::size_t x = i % a.d.size(), y = i % b.d.size();
    r.d.push_back(g(a.v.x[x], b.v.x[y], a.d[x], b.d[y]));
  }
  r.onlyK = a.onlyK && b.onlyK;
  return r;
}
struct DVar : Du {
  std::size_t cap = 1000000;
  bool indep = false;
  DVar &operator=(const DVar &o) { return *this = static_cast<const Du &>(o); }
  DVar() {}
  DVar(const DVar &) = default;
  DVar &operator=(const Du &o) {
    if (o.v.x.empty() || o.v.x.size() > cap)
      md::rej("does not fit");
    if (o.v.m && o.v.r * o.v.c != o.v.x.size())
      md::rej("not conformable");
    if (indep && o.onlyK && !o.konst)
      throw md::Unspec{}; // an expression of constants as independent variable
    V nv = o.v;
    SV nd = o.d;
    if (indep && o.konst)
      nd.assign(nv.x.size(), 1.0);
    v = nv;
    d = nd;
    v.t = rm::D;
    return *this;
  }
};
template <class T> constexpr bool isDu = std::is_base_of_v<Du, T>;
#define DL_BIN(op, val, der, cmp)                                              \
  template <class L, class R>                                                  \
    requires(isDu<L> && isDu<R>)                                               \
  Du operator op(const L &l, const R &r) {                                     \
    return bin(l, r, [](double a, double b) -> double { return val; },         \
               [](double a, double b, double x, double y) -> double { (void)a; (void)b; (void)x; (void)y; return der; }, cmp); \
  }
DL_BIN(+, a + b, x + y, false)
DL_BIN(-, a - b, x - y, false)
DL_BIN(*, a *b, x *b + a * y, false)
DL_BIN(/, a / b, (x * b - a * y) / (b * b), false)
DL_BIN(<, a < b, 0.0, true)
DL_BIN(<=, a <= b, 0.0, true)
DL_BIN(>, a > b, 0.0, true)
DL_BIN(>=, a >= b, 0.0, true)
DL_BIN(==, std::fabs(a - b) < 1e-3, 0.0, true)
DL_BIN(!=, std::fabs(a - b) > 1e-3, 0.0, true)
template <class L>
  requires isDu<L>
Du sinus(const L &l) {
  Du r = l;
  r.konst = false;
  for (std::size_t i = 0; i < r.d.size(); i++) {
    r.d[i] = std::cos(l.v.x[i]) * l.d[i];
    r.v.x[i] = std::sin(l.v.x[i]);
  }
  r.v.t = rm::D;
  return r;
}
// --- initial values -----------------------------------------------------------
struct Init {
  const char *name;
  V a, b, c, p;
};
#ifdef BIG
// the same programs on variables of many sizes
inline V wavy(std::size_t n, std::size_t k) {
  V v;
  for (std::size_t i = 0; i < n; i++)
    v.x.push_back((0.5 + double((i + k) % 7) * 0.25) * ((i + 2 * k) % 5 == 0 ? -1 : 1));
  return v;
}
inline V wavyM(std::size_t r, std::size_t c, std::size_t k) {
  V v = wavy(r * c, k);
  v.m = true, v.r = r, v.c = c;
  return v;
}
inline const std::vector<Init> &inits() {
  static std::vector<std::string> names;
  static const std::vector<Init> v = [] {
    std::vector<Init> o;
    auto ns = sb::ladder(5, 65537);
    names.reserve(ns.size() * 6);
    for (std::size_t n : ns) {
      std::size_t q = n % 2 ? n : n / 2;
      auto add = [&](const char *t, V a, V b, V c, V p) {
        names.push_back("n=" + std::to_string(n) + " " + t);
        o.push_back(Init{names.back().c_str(), a, b, c, p});
      };
      add("a[n] b[1] c[n-1] p[n]", wavy(n, 0), wavy(1, 1), wavy(n - 1, 2), wavy(n, 3));
      add("a[3] b[n] c[2] p[n+1]", wavy(3, 0), wavy(n, 1), wavy(2, 2), wavy(n + 1, 3));
      if (n > 4097)
        continue;
      add("a matrix b[n] c[n] p matrix", wavyM(q, n / q, 0), wavy(n, 1), wavy(n, 2), wavyM(q, n / q, 3));
      add("a[2n] b[n] c[1] p[3n]", wavy(2 * n, 0), wavy(n, 1), wavy(1, 2), wavy(3 * n, 3));
      add("a[n] b[n] c[n] p[n-1]", wavy(n, 0), wavy(n, 1), wavy(n, 2), wavy(n - 1, 3));
    }
    return o;
  }();
  return v;
}
#else
inline const std::vector<Init> &inits() {
  static const std::vector<Init> v = {
      {"a=[1.5 2 3] b=[0.5] c=[2 3] p=[1.25 -2 3 0.75]", V({1.5, 2, 3}), V({0.5}), V({2, 3}), V({1.25, -2, 3, 0.75})},
      {"a=2x2 b=[3 .5] c=2x2 p=2x2", V({1.5, 2, 3, -1}, 2, 2), V({3, 0.5}), V({2, 1, 0.5, 4}, 2, 2), V({1.25, -2, 3, 0.75}, 2, 2)},
      {"a=[2] b=[3] c=[-1] p=[.5 .5 .5 2]", V({2}), V({3}), V({-1}), V({0.5, 0.5, 0.5, 2})},
      {"a,b,c,p assigned constants", V(), V(), V(), V({1, 1, 1, 1})},
  };
  return v;
}
#endif
inline std::pair<int, int> indepIdx(int k) { return k == 0 ? std::pair(0, 0) : k == 1 ? std::pair(1, 0) : k == 2 ? std::pair(0, 1) : std::pair(7, 0); }
// constants
inline const std::vector<double> K2 = {2, -3}, K3 = {1.5, 0.5, 2}, K5 = {1, 2, 3, 4, 5};
// --- tracked --------------------------------------------------------------------
struct TW {
  using AV = etr::AllVars<3, 1, 0, 4>;
  template <int I, int Ty> using Var = etr::Vec<double, etr::VarPointer<AV, I, Ty>, etr::VariableTypeTrait>;
  rm::Guarded mem;
  AV av;
  Var<0, 0> a;
  Var<1, 0> b;
  Var<2, 0> c;
  Var<0, 1> p;
  template <int I> auto s() { return etr::scalarDeriv<I>(av, 2.5); }
  template <int I> auto z() { return etr::scalarDeriv<I>(av, 4); }
  template <int I> auto k2() { return etr::coca<I>(av, 2.0, -3.0); }
  template <int I> auto k3() { return etr::coca<I>(av, 1.5, 0.5, 2.0); }
  template <int I> auto k5() { return etr::coca<I>(av, 1, 2, 3, 4, 5); }
  template <int I> auto cl() { return etr::colon<I>(av, 1.0, 4.0); }
  template <int I> auto dn() { return etr::colon<I>(av, 3, 2); }
  template <int I> auto vn() { return etr::vector_numeric<I>(av, 2); }
  TW(int k, int ind) : mem(inits()[k].p.x), av(indepIdx(ind).first, indepIdx(ind).second), a(av), b(av), c(av), p(av) {
    mc::Track t;
    const Init &in = inits()[k];
    etr::Vec<double> x, y, z;
    rm::put(x, in.a);
    rm::put(y, in.b);
    rm::put(z, in.c);
    if (in.a.x.size())
      av.initBuffer(x, y, z);
    if (in.p.m) {
      etr::Vec<double, etr::Borrow<double>> q(mem.p(), in.p.r, in.p.c);
      av.initBorrow(q);
    } else {
      etr::Vec<double, etr::Borrow<double>> q(mem.p(), in.p.x.size());
      av.initBorrow(q);
    }
    if (in.a.x.empty()) {
      a = k2<0>();
      b = k3<1>();
      c = s<2>();
      p = k2<3>();
    }
  }
};
struct OW {
  template <int I> auto s() { return etr::coca(2.5); }
  template <int I> auto z() { return etr::coca(4.0); }
  template <int I> auto k2() { return etr::coca(2.0, -3.0); }
  template <int I> auto k3() { return etr::coca(1.5, 0.5, 2.0); }
  template <int I> auto k5() { return etr::coca(1.0, 2.0, 3.0, 4.0, 5.0); }
  template <int I> auto cl() { return etr::colon(1.0, 4.0); }
  template <int I> auto dn() { return etr::colon(3.0, 2.0); }
  template <int I> auto vn() { return etr::vector_numeric(2); }
  etr::Vec<double> a, b, c;
  rm::Guarded mem;
  etr::Vec<double, etr::Borrow<double>> p;
  explicit OW(int k) : mem(inits()[k].p.x) {
    mc::Track t;
    const Init &in = inits()[k];
    rm::put(a, in.a);
    rm::put(b, in.b);
    rm::put(c, in.c);
    if (in.p.m) {
      etr::Vec<double, etr::Borrow<double>> q(mem.p(), in.p.r, in.p.c);
      p.d = q.d;
    } else {
      etr::Vec<double, etr::Borrow<double>> q(mem.p(), in.p.x.size());
      p.d = q.d;
    }
    if (in.a.x.empty()) {
      a = k2<0>();
      b = k3<1>();
      c = s<2>();
      p = k2<3>();
    }
  }
};
struct MW {
  template <int I> auto s() { return kd(V({2.5})); }
  template <int I> auto z() { return kd(V({4})); }
  template <int I> auto k2() { return kd(V(K2)); }
  template <int I> auto k3() { return kd(V(K3)); }
  template <int I> auto k5() { return kd(V(K5)); }
  template <int I> auto cl() { return kd(V({1, 2, 3, 4})); }
  template <int I> auto dn() { return kd(V({3, 2})); }
  template <int I> auto vn() { return kd(V({0, 0})); }
  DVar a, b, c, p;
  MW(int k, int ind) {
    const Init &in = inits()[k];
    p.cap = in.p.x.size();
    auto put = [](DVar &x, const V &v, bool i) {
      static_cast<Du &>(x) = kd(v);
      x.konst = x.onlyK = false;
      x.indep = i;
      if (i)
        x.d.assign(v.x.size(), 1.0);
    };
    put(a, in.a, ind == 0);
    put(b, in.b, ind == 1);
    put(c, in.c, false);
    put(p, in.p, ind == 2);
    if (in.a.x.empty()) {
      a = k2<0>();
      b = k3<1>();
      c = s<2>();
      p = k2<3>();
    }
  }
};
template <class X> V obsDeriv(X &x) {
  V r;
  auto g = etr::get_derivs(x);
  for (std::size_t i = 0; i < g.size(); i++)
    r.x.push_back(g[i]);
  return r;
}
template <class X> V obsVal(X &x) {
  V r;
  for (std::size_t i = 0; i < x.size(); i++)
    r.x.push_back(x.d[i]);
  r.m = x.im();
  if (r.m) {
    r.r = x.nr();
    r.c = x.nc();
  }
  V r2 = rm::obs(x.d.get());
  if (!rm::eq(r, r2))
    mc::fail("a tracked variable and its stored value differ: " + rm::str(r) + " and " + rm::str(r2));
  return r;
}
inline bool nearD(double a, double b, double scale) { return a == b || std::fabs(a - b) <= 1e-9 * std::max({1.0, std::fabs(a), std::fabs(b), scale}); }
} // namespace dl

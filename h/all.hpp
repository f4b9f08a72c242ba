// One world with every kind of variable and an alphabet touching every feature,
// for the properties that compare executions with each other (C23, C24, C25):
// W is what one program (thread) owns, S what it only reads.
#pragma once
#include "model.hpp"
namespace al {
using etr::AllVars, etr::Borrow, etr::coca, etr::colon, etr::get_derivs, etr::matrix, etr::VarPointer, etr::VariableTypeTrait, etr::Vec;
using rm::SV;
using rm::V;
struct S { // read by the statements, never written
  rm::Guarded mem, mem2;
  Vec<double> v, m, x, big, w, wm, h; // w, wm, h: long ones
  Vec<int> i, wi;
  Vec<bool> wl;
  Vec<bool> l;
  ::BorrowPtr p, q;
  double d = 2.5;
  int k = 2;
  S() : mem({1.5, 2.5, 3.5}), mem2({1, 2, 3, 4}), p(mem.p(), 3), q(mem2.p(), 2, 2) {
    mc::Track t;
    v = coca(1.25, -2.0, 3.0);
    m = matrix(coca(1.0, 2.0, 3.0, 4.0), 2, 2);
    x = coca(0.0, 1.0, 2.0, 4.0);
    big = colon(1, 9);
    h = colon(0.25, 40.0);
    w = colon(1, 300) / 64.0 - 1.0;
    wm = matrix(colon(1, 300) * 0.125, 20, 15);
    wi = colon(290, 11);
    wl = w > 0.5;
    i = coca(2, 1);
    l = coca(true, false, true);
  }
};
struct W {
  S &s;
  rm::Guarded mem, mem2;
  Vec<double> a, b, m, e;
  Vec<int> i;
  Vec<bool> l;
  ::BorrowPtr p, q;
  double d = 0.5;
  std::ostringstream out;
  using AV = AllVars<3, 1, 0, 4>;
  template <int I, int Ty> using Var = Vec<double, VarPointer<AV, I, Ty>, VariableTypeTrait>;
  AV av;
  Var<0, 0> ta;
  Var<1, 0> tb;
  Var<2, 0> tc;
  Var<0, 1> tp;
  rm::Guarded mem3;
  explicit W(S &s_, int init) : s(s_), mem({4, 3, 2, 1}), mem2({0.5, 1.5, 2.5, 3.5}), p(mem.p(), 4), q(mem2.p(), 2, 2), av(0, 0), ta(av), tb(av), tc(av), tp(av), mem3({1.25, -2, 3, 0.75}) {
    mc::Track t;
    if (init == 0) {
      a = coca(1.0, 2.5, -3.0);
      b = coca(2.0);
      m = matrix(coca(6.0, 5.0, 4.0, 3.0), 2, 2);
      i = coca(3, 1, 2);
      l = coca(true, false, true);
    } else if (init == 1) {
      a = matrix(coca(1.0, 2.0, 3.0, 4.0, 5.0, 6.0), 2, 3);
      b = coca(1.0, 2.0);
      m = matrix(coca(6.0), 1, 1);
      i = coca(1);
      l = coca(true);
      p = coca(7.0, 8.0);
    } // 2: nothing has a value yet
    Vec<double> x, y, z;
    x = coca(1.5, 2.0, 3.0);
    y = coca(0.5);
    z = coca(2.0, 3.0);
    av.initBuffer(x, y, z);
    Vec<double, Borrow<double>> tq(mem3.p(), 4);
    av.initBorrow(tq);
  }
};
struct St {
  const char *text;
  void (*f)(W &);
};
#define A_(...) al::St{#__VA_ARGS__, [](al::W &w) { using namespace etr; [[maybe_unused]] auto &s = w.s; __VA_ARGS__; }}
// sequences of statements over everything
inline const std::vector<St> &alphabet() {
  static const std::vector<St> AL = {
      // assignment of everything to everything
      A_(w.a = 1.5), A_(w.a = 2), A_(w.a = true), A_(w.a = w.b), A_(w.b = w.a), A_(w.a = w.m), A_(w.m = w.a), A_(w.a = w.i), A_(w.i = w.a), A_(w.i = w.l), A_(w.l = w.a), A_(w.l = w.i),
      A_(w.p = w.a), A_(w.a = w.p), A_(w.p = 3.0), A_(w.q = w.m), A_(w.m = w.q), A_(w.p = w.p + 1.0), A_(w.p = w.q), A_(w.q = w.p), A_(w.p = w.b), A_(w.e = w.a), A_(w.e = s.v), A_(w.a = s.p), A_(w.m = s.m),
      A_(Vec<double> t(w.a); w.b = t), A_(Vec<double> t(w.a); w.b = std::move(t)), A_(Vec<double> t = w.a + w.b; w.e = t),
      // constructors
      A_(w.a = coca(1.0, 2.0, 3.0)), A_(w.a = coca(1, 2.5, true)), A_(w.a = coca(w.a, w.m, s.v)), A_(w.b = coca(w.i, 1)), A_(w.a = colon(1, 4)), A_(w.a = colon(w.d, 3.0)), A_(w.i = colon(3, 1)),
      A_(w.m = matrix(coca(1.0, 2.0, 3.0, 4.0, 5.0, 6.0), 2, 3)), A_(w.m = matrix(0.5, 3, 2)), A_(w.m = matrix(w.a + w.b, 1, 3)), A_(w.m = matrix(coca(1.0, 2.0, 3.0), 2, 2)),
      A_(w.b = vector_numeric(5)), A_(w.i = vector_integer(3)), A_(w.l = vector_logical(2)), A_(w.a = rep(w.b, 2)), A_(w.a = rep(coca(1.0, 2.0), 3)), A_(w.b = rep(2, 3)), A_(w.a = vector_numeric(0)),
      // arithmetic, comparison, functions
      A_(w.a = w.a + w.b), A_(w.b = w.a - 1.0), A_(w.a = w.m * s.m), A_(w.m = w.m / s.v), A_(w.a = s.v ^ 2.0), A_(w.l = w.a > w.b), A_(w.l = w.a == s.v), A_(w.l = w.m <= s.m), A_(w.a = -w.a), A_(w.a = w.a * w.l - w.i),
      A_(w.m = sinus(w.m)), A_(w.b = sqroot(w.a)), A_(w.a = exp(w.a + w.b) * tangens(s.v)), A_(w.e = ln(w.a)), A_(w.a = ((w.a + s.v) * (w.b - s.d)) / ((s.v + 1.0) * (s.v + 2.0))),
      A_(w.l = isNA(w.a)), A_(w.l = isInf(w.a)), A_(w.b = dim(w.m)), A_(w.d = length(w.a)),
      // selections
      A_(w.b = subset(w.a, 2)), A_(w.b = subset(w.a, 2.0)), A_(w.a = subset(w.a, w.i)), A_(w.b = subset(s.v, s.l)), A_(w.b = subset(s.v, s.i)), A_(w.a = subset(w.a, w.a > 1.0)), A_(w.b = subset(w.a, true)), A_(w.b = subset(w.a, coca(1, 9))), A_(w.b = subset(w.a + 1.0, s.i)), A_(w.b = subset(w.a, s.i) + subset(s.v, s.i)),
      A_(w.a = subset(w.m, 1, true)), A_(w.m = subset(w.m, coca(2, 1), true)), A_(w.m = subset(s.m, s.i, s.i)), A_(w.b = subset(w.m, coca(true, false), 1)), A_(w.b = subset(w.m, 1, 2.0)), A_(w.b = subset(w.m, 5, 1)), A_(w.b = subset(w.q, true, 2)), A_(w.b = subset(w.p, w.i)),
      A_(subset(w.a, 2) = 9.0), A_(subset(w.a, w.i) = w.b), A_(subset(w.a, w.i) = subset(w.a, coca(1, 1, 2))), A_(subset(w.a, w.l) = -1.0), A_(subset(w.a, true) = w.a + 1.0), A_(subset(w.m, 1, true) = s.i), A_(subset(w.m, s.i, s.i) = subset(w.m, true, true)), A_(subset(w.m, true, 2) = s.m), A_(subset(w.p, s.i) = s.v), A_(subset(w.i, 1) = 2), A_(subset(w.a, coca(1, 9)) = s.i), A_(subset(w.q, 1, 2) = w.d),
      A_(at(w.a, 1) = 6.0), A_(w.d = at(w.a, 2)), A_(at(w.m, 1, 1) = 4.5), A_(w.d = at(s.m, 2, 2)), A_(w.d = at(w.a, 7)), A_(at(w.a, 1) = at(s.v, 3)),
      // direct use
      A_(w.e = std::move(w.b)), A_(w.b = w.e), A_(for (auto &x : w.a) x = x + 1.0), A_(for (double x : s.v) w.d = w.d + x), A_(for (auto &x : subset(w.a, s.i)) x = 0.25), A_(if (s.l) w.a = 1.0), A_(if (w.a > 1.0) w.b = 1.0), A_(w.d = w.a[0] + s.v[1]), A_(w.a[1] = 3.5), A_(w.a.resize(4); w.a = 1.25), A_(w.a.fill(2.0)), A_(w.b = w.a; w.a = w.b + w.b; w.b = w.a),
      // interpolation
      A_(w.d = li(w.b, s.x, coca(1.0, 3.0, 2.0, 5.0))), A_(w.d = cmr(w.b, s.x, s.q)), A_(w.d = li(s.v, s.x, s.v)), A_(w.e = cmr(1.5, s.x, coca(1.0, 3.0, 2.0, 5.0))),
      // printing
      A_(w.out << w.a), A_(w.out << s.m << w.p), A_(w.out << subset(w.a, s.i)), A_(w.out << w.i << w.l),
      // derivatives
      A_(w.ta = w.ta + w.tb), A_(w.tb = w.ta * w.tb), A_(w.tc = sinus(w.ta) / w.tb), A_(w.tp = w.ta * w.ta), A_(w.ta = coca<0>(w.av, 1, 2)), A_(w.tb = w.tc), A_(w.tc = scalarDeriv<2>(w.av, 2.5) * w.ta), A_(w.ta = colon<1>(w.av, 1, 3)), A_(w.tb = w.ta > w.tc), A_(w.tp = vector_numeric<2>(w.av, 2)), A_(w.tc = w.tp - w.tb), A_(w.e = get_derivs(w.tc)), A_(w.tp = colon<0>(w.av, 1, 9)),
      // constants kept, then used; moved temporaries
      A_(Vec<double> t = coca(1.0, 2.0); w.e = t), A_(Vec<double> t = coca(w.a, s.v); t = t + 1.0; w.e = t), A_(Vec<double> t = coca(1.0, 2.0, 3.0); w.e = std::move(t)), A_(Vec<int> t = colon(1, 3); w.i = t; w.a = t),
      // more elements within and beyond what was reserved
      A_(Vec<double> t(SI{8}); t.resize(9); w.e = t), A_(Vec<double> t(SI{41}); t.resize(47); w.b = t + 0.0), A_(Vec<int> t(SI{20}); t.resize(23); w.i = t), A_(Vec<bool> t(SI{30}); t.resize(34); w.l = t),
      A_(w.b = vector_numeric(40); w.b.resize(46)), A_(Vec<double> t = rep(w.b, 9); t.resize(t.size() + t.size() / 8); w.e = t), A_(Vec<double> t = s.v; t.resize(30); w.e = t), A_(w.a.resize(2)), A_(w.e = s.h; w.e.resize(5); w.e.resize(44)),
      A_(Vec<double> t(std::size_t(4), std::size_t(5)); w.m = t), A_(Vec<double> t = s.w; t = coca(1.0, 2.0); t.resize(300); w.e = t),
      // long values
      A_(w.a = s.w), A_(w.b = s.h), A_(w.a = w.a + s.w), A_(w.m = s.wm), A_(w.m = s.wm * 2.0 - w.d), A_(w.a = subset(s.w, s.wi)), A_(w.b = subset(s.w, s.wl)), A_(w.b = subset(s.wm, coca(20, 3, 3), true)), A_(w.m = subset(s.wm, subset(s.i, true) + 4, s.wi / s.wi)),
      A_(subset(w.a, s.wi) = s.w), A_(subset(w.m, true, true) = s.wm), A_(subset(w.a, true) = s.h), A_(w.i = s.wi), A_(w.l = s.w > w.b), A_(w.a = rep(s.h, 9)), A_(w.b = colon(1, 5000)), A_(w.e = coca(s.w, w.a, s.h)), A_(w.a = vector_numeric(1000)), A_(w.m = matrix(s.h + 0.0, 10, 40)),
      A_(w.e = cmr(s.w, s.x, s.q)), A_(w.e = li(s.h, s.x, coca(1.0, 3.0, 2.0, 5.0))), A_(w.e = li(s.v, s.w, s.w)), A_(w.e = cmr(2.5, s.h, s.h)), A_(w.out << s.h), A_(w.l = isNA(s.w)), A_(w.e = sinus(s.w + s.h) * exp(s.h)), A_(w.a = s.w * s.wm), A_(w.d = at(s.wm, 20, 15)), A_(for (double x : subset(s.w, s.wi)) w.d = w.d + x),
      A_(w.ta = colon<0>(w.av, 1, 300)), A_(w.tc = w.ta * w.ta + w.tb), A_(w.tb = coca<3>(w.av, 1.5, 2.5, 3.5, 4.5, 5.5, 6.5, 7.5, 8.5, 9.5)), A_(w.tc = vector_numeric<1>(w.av, 1000) + w.tc)};
  return AL;
}
// everything observable, as bits
struct Snap {
  std::vector<std::uint64_t> x;
  std::vector<unsigned> end;
  Snap() {}
  void cut() { end.push_back(unsigned(x.size())); }
  bool eq(const Snap &o) const { return x.size() == o.x.size() && end.size() == o.end.size() && std::memcmp(x.data(), o.x.data(), 8 * x.size()) == 0 && std::memcmp(end.data(), o.end.data(), sizeof(unsigned) * end.size()) == 0; }
  bool same(const Snap &o, std::size_t i) const {
    auto b = [&](const Snap &s) { return i ? s.end[i - 1] : 0u; };
    const unsigned n = end[i] - b(*this);
    return n == o.end[i] - b(o) && std::memcmp(&x[b(*this)], &o.x[b(o)], 8 * n) == 0;
  }
};
template <class X> void enc(Snap &o, const X &v) {
  const bool im = v.im();
  const std::size_t n = v.size();
  o.x.insert(o.x.end(), {std::uint64_t(im), im ? v.nr() : 0, im ? v.nc() : 0, n});
  for (std::size_t i = 0; i < n; i++)
    o.x.push_back(mc::hd(double(v[i])));
  o.cut();
}
inline const char *snapName(std::size_t i) {
  static const char *n[] = {"a", "b", "m", "e", "i", "l", "p", "q", "memory of p", "memory of q", "d", "printed text", "ta", "tb", "tc", "tp", "memory of tp", "derivatives of ta", "derivatives of tb", "derivatives of tc", "derivatives of tp"};
  return i < sizeof n / sizeof *n ? n[i] : "?";
}
inline Snap snap(W &w, bool derivs = true) {
  Snap o;
  o.x.reserve(512);
  o.end.reserve(24);
  enc(o, w.a), enc(o, w.b), enc(o, w.m), enc(o, w.e), enc(o, w.i), enc(o, w.l), enc(o, w.p), enc(o, w.q);
  auto mem = [&](rm::Guarded &g) {
    for (std::size_t k = 0; k < g.n; k++)
      o.x.push_back(mc::hd(g.p()[k]));
    o.cut();
    g.checkGuards();
  };
  mem(w.mem), mem(w.mem2);
  o.x.push_back(mc::hd(w.d));
  o.cut();
  if (w.out.tellp() > 0)
    for (char c : w.out.str())
      o.x.push_back(std::uint64_t(c));
  o.cut();
  enc(o, w.ta.d.get()), enc(o, w.tb.d.get()), enc(o, w.tc.d.get()), enc(o, w.tp.d.get());
  mem(w.mem3);
  if (derivs) {
    auto g = [&](auto &x) {
      auto v = get_derivs(x);
      for (std::size_t i = 0; i < v.size(); i++)
        o.x.push_back(mc::hd(v[i]));
      o.cut();
    };
    g(w.ta), g(w.tb), g(w.tc), g(w.tp);
  }
  return o;
}
inline std::uint64_t hash(const Snap &s) {
  std::uint64_t h = 1;
  for (auto u : s.x)
    h = mc::hmix(h, u);
  for (auto u : s.end)
    h = mc::hmix(h, u);
  return h;
}
inline std::string diff(const Snap &a, const Snap &b) {
  std::string t;
  for (std::size_t i = 0; i < a.end.size() && i < b.end.size(); i++)
    if (!a.same(b, i))
      t += std::string(t.empty() ? "" : ", ") + snapName(i);
  return t;
}
inline std::size_t total(W &w) { return w.a.size() + w.b.size() + w.m.size() + w.e.size() + w.i.size() + w.l.size(); }
} // namespace al

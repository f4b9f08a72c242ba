// Evaluation of one expression in every way a program can consume it, compared
// with a reference value.
#pragma once
#include "kinds.hpp"
namespace ev {
using namespace rk;
enum { INT = 1, BOOL = 2, BORROW = 4, ALL = 7 };
inline bool fitsInt(const V &w) {
  for (double d : w.x)
    if (!(std::fabs(d) < 2147483648.0))
      return false;
  return true;
}
// collected observations of one evaluation (no decisions inside the template)
struct Ob {
  bool thrown = false;
  std::string what;
  V v;
};
struct Outs {
  std::size_t size = 0;
  bool im = false;
  std::size_t nr = 0, nc = 0;
  bool direct = false;
  std::vector<double> el;
  Ob made, onVec1, onVec2, onMat, onBor, onInt, onBool;
  Vec<double> y = coca(9.0, 8.0, 7.0, 6.0, 5.5, 4.25, 3.125);
  Vec<double> z;
  Vec<int> yi = coca(3, 1);
  Vec<bool> yb;
};
template <class F> void guard(Ob &o, F f) {
  try {
    f();
  } catch (mc::Violation &) {
    throw;
  } catch (std::exception &e) {
    o.thrown = true;
    o.what = e.what();
  }
}
template <bool CON, class Mk> __attribute__((noinline)) void evalAll(Mk mk, Outs &o, const V &want, bool bad, unsigned what) {
  if (!bad) {
    const auto &e = mk();
    o.size = e.size();
    o.im = e.im();
    if (o.im) {
      o.nr = e.nr();
      o.nc = e.nc();
    }
    o.direct = true;
    for (int pass = 0; pass < 2; pass++)
      for (std::size_t i = 0; i < o.size && i < 5000; i++)
        o.el.push_back(double(e[i]));
  }
  if constexpr (CON)
    guard(o.made, [&] {
      Vec<double> x = mk();
      o.made.v = obs(x);
    });
  else
    o.made.thrown = bad, o.made.v = bad ? V() : want;
  V yv = obs(o.y);
  guard(o.onVec1, [&] { o.y = mk(); });
  o.onVec1.v = obs(o.y);
  guard(o.onVec2, [&] { o.y = mk(); });
  o.onVec2.v = obs(o.y);
  put(o.z, V({1, 2, 3, 4}, 2, 2));
  guard(o.onMat, [&] { o.z = mk(); });
  o.onMat.v = obs(o.z);
  if (what & BORROW) {
    V old;
    old.x.assign(want.n(), -3.5);
    Guarded g(old.x);
    ::BorrowPtr b(g.p(), want.n());
    guard(o.onBor, [&] { b = mk(); });
    o.onBor.v = obs(b);
    for (std::size_t i = 0; i < want.n() && !o.onBor.thrown; i++)
      if (i < o.onBor.v.n() && !near(g.p()[i], o.onBor.v.x[i]))
        mc::fail("borrowed memory differs from the variable");
    g.checkGuards();
  }
  if (what & INT) {
    guard(o.onInt, [&] { o.yi = mk(); });
    o.onInt.v = obs(o.yi);
  }
  if (what & BOOL) {
    guard(o.onBool, [&] { o.yb = mk(); });
    o.onBool.v = obs(o.yb);
  }
}
inline void one(const Ob &o, const V &want, bool bad, const V &old, const char *nm) {
  if (bad) {
    if (!o.thrown)
      mc::fail(std::string(nm) + ": accepted, expected a rejection; value " + str(o.v));
    if (!eq(o.v, old))
      mc::fail(std::string(nm) + ": rejected, but the target is " + str(o.v) + ", it was " + str(old));
    return;
  }
  if (o.thrown)
    mc::fail(std::string(nm) + ": failed with " + o.what);
  expect(o.v, want, nm);
}
inline void judge(Outs &o, const V &want, bool bad, unsigned what) {
  if (!bad) {
    if (o.size != want.n())
      mc::fail("length of the expression: got " + std::to_string(o.size) + ", expected " + str(want));
    if (o.im != want.m || (o.im && (o.nr != want.r || o.nc != want.c)))
      mc::fail("shape of the expression: got " + (o.im ? std::to_string(o.nr) + "x" + std::to_string(o.nc) : std::string("none")) + ", expected " + str(want));
    for (std::size_t i = 0; i < o.el.size(); i++)
      if (!near(o.el[i], want.x[i % want.n()]))
        mc::fail("element " + std::to_string(i % want.n()) + " of the expression: " + std::to_string(o.el[i]) + ", expected " + str(want));
  }
  V y0({9.0, 8.0, 7.0, 6.0, 5.5, 4.25, 3.125}), z0({1, 2, 3, 4}, 2, 2);
  one(o.made, want, bad, V(), "constructed from the expression");
  one(o.onVec1, want, bad, y0, "assigned to a vector");
  one(o.onVec2, want, bad, y0, "assigned again");
  one(o.onMat, want, bad, z0, "assigned to a matrix variable");
  if (what & BORROW) {
    V old;
    old.x.assign(want.n(), -3.5);
    one(o.onBor, want, bad, old, "assigned to a borrowing variable");
  }
  mc::C.transitions += 4 + !!(what & BORROW);
  if (what & INT) {
    if (bad || fitsInt(want)) {
      one(o.onInt, convTo(want, I), bad, V({3, 1}), "stored into an integer variable");
      ++mc::C.transitions;
    }
  }
  if (what & BOOL) {
    one(o.onBool, convTo(want, B), bad, V(), "stored into a logical variable");
    ++mc::C.transitions;
  }
  mc::state(bad ? 99 : hash(want));
}
template <bool CON = true, class Mk> void evaluate(Mk mk, const V &want, bool bad = false, unsigned what = ALL) {
  if (!bad && !fitsInt(want))
    what &= ~INT;
  if (bad || want.n() == 0)
    what &= ~BORROW;
  Outs o;
  evalAll<CON>(mk, o, want, bad, what);
  judge(o, want, bad, what);
}
} // namespace ev

// C01: element-wise arithmetic with recycling. PART selects the operator (0..4)
// for the operand-kind matrix, 5 = nested trees, 6 = special values and sizes.
#include "kinds.hpp"
using namespace rk;
#ifndef PART
#define PART 0
#endif

struct Out {
  std::size_t size;
  std::vector<double> direct;
  Vec<double> y = coca(9.0, 8.0, 7.0, 6.0);
  V made, first, second;
};
template <class Op, class L, class R>
__attribute__((noinline)) void evalPair(const L &l, const R &r, Out &o) {
  const auto &e = Op::ap(l, r);
  o.size = e.size();
  for (int pass = 0; pass < 2; pass++)
    for (std::size_t i = 0; i < o.size && i < 5000; i++)
      o.direct.push_back(double(e[i]));
  Vec<double> x = Op::ap(l, r);
  o.made = obs(x);
  for (int pass = 0; pass < 2; pass++) {
    o.y = Op::ap(l, r);
    (pass ? o.second : o.first) = obs(o.y);
  }
}
void judge(const Out &o, const V &want) {
  if (o.size != want.n())
    fail("length of the expression: got " + std::to_string(o.size) +
         ", expected " + str(want));
  for (std::size_t i = 0; i < o.direct.size(); i++)
    if (!near(o.direct[i], want.x[i % want.n()]))
      fail("element " + std::to_string(i % want.n()) + " of the expression: " +
           std::to_string(o.direct[i]) + ", expected " + str(want));
  expect(o.made, want, "constructed from the expression");
  expect(o.first, want, "assigned the expression");
  expect(o.second, want, "assigned the expression again");
  mc::state(hash(want));
  mc::C.transitions += 3;
}
template <class Op, int kl, int kr> void pairBody(const V &lm, const V &rmv) {
  bool bad;
  V want = refBin<Op>(lm, rmv, bad);
  Opd<kl> l(lm);
  Opd<kr> r(rmv);
  Out o;
  evalPair<Op>(l.get(), r.get(), o);
  judge(o, want);
  l.done();
  r.done();
}
void pairRun(int kl, const char *op, int kr, const V &lm, const V &rmv,
             void (*body)(const V &, const V &)) {
  mc::run(
      [&] {
        return std::string(name(kl)) + " " + op + " " + name(kr) + " : " +
               str(lm) + " " + op + " " + str(rmv);
      },
      [&] { body(lm, rmv); });
}
template <class Op, int kl, int kr> void pairCase(const V &lm, const V &rmv) {
  pairRun(kl, Op::n, kr, lm, rmv, &pairBody<Op, kl, kr>);
}

#if PART < 5
using OP = std::tuple_element_t<PART, std::tuple<Add, Sub, Mul, Div, Pow>>;
V pat(std::size_t n, int which) {
  V v;
  for (std::size_t i = 0; i < n; i++)
    v.x.push_back(which ? double(2 + 3 * i - (i % 3)) * (i % 2 ? -1 : 1)
                        : double(7 + 5 * i));
  if (which == 1 && PART == 4) // exponents small
    for (std::size_t i = 0; i < n; i++)
      v.x[i] = double(int(i) % 4) - 1;
  return v;
}
void explore() {
  std::vector<std::size_t> ns = {1, 2, 3, 4, 5, 6};
  if (mc::C.thorough)
    ns = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 20, 33};
  forK<NKINDS>([&](auto kl) {
    forK<NKINDS>([&](auto kr) {
      constexpr int L = decltype(kl)::value, R = decltype(kr)::value;
      if constexpr (!(isScalar(L) && isScalar(R))) {
        for (std::size_t n : ns)
          for (std::size_t m : ns) {
            if ((isScalar(L) && n > 1) || (isScalar(R) && m > 1))
              continue;
            pairCase<OP, L, R>(fit<L>(pat(n, 0)), fit<R>(pat(m, 1)));
          }
      }
    });
  });
}
#elif PART == 5
// nested trees: every tree equals the three-address form
using Ops5 = std::tuple<Add, Sub, Mul, Div, Pow>;
template <int i> using O = std::tuple_element_t<i, Ops5>;
V lv(std::size_t n, double s, double st) {
  V v;
  for (std::size_t i = 0; i < n; i++)
    v.x.push_back(s + st * i);
  return v;
}
struct Env {
  V a, b, c, d;
  Vec<double> av, bv, base;
  Vec<int> cv, idx;
  std::vector<double> bs;
  Vec<double> r = coca(1.0, 2.0, 3.0);
  Env(std::size_t na, std::size_t nb, std::size_t nc, std::size_t nd)
      : a(lv(na, 1.5, 1)), b(lv(nb, 2, -0.75)), c(lv(nc, -1, 2)),
        d(lv(nd, 0.5, 0.25)) {
    put(av, a);
    put(bv, b);
    put(cv, c);
    std::vector<int> pos;
    decoy(d, bs, pos);
    put(base, V(bs));
    put(idx, V(std::vector<double>(pos.begin(), pos.end())));
  }
};
void tree(const std::string &nm, std::size_t na, std::size_t nb, std::size_t nc,
          std::size_t nd,
          void (*mk)(Vec<double> &, Vec<double> &, Vec<double> &, Vec<int> &,
                     Vec<double> &, Vec<int> &),
          V (*ref)(V, V, V, V)) {
  mc::run(
      [&] {
        std::ostringstream o;
        o << "tree " << nm << " lengths " << na << "," << nb << "," << nc << ","
          << nd;
        return o.str();
      },
      [&] {
        Env e(na, nb, nc, nd);
        V want = ref(e.a, e.b, e.c, e.d);
        mk(e.r, e.av, e.bv, e.cv, e.base, e.idx);
        expect(obs(e.r), want, "nested expression");
        mk(e.r, e.av, e.bv, e.cv, e.base, e.idx);
        expect(obs(e.r), want, "nested expression, evaluated again");
        expect(obs(e.av), e.a, "operand a changed");
        expect(obs(e.bv), e.b, "operand b changed");
        expect(obs(e.cv), e.c, "operand c changed");
        expect(obs(e.base), V(e.bs), "operand d changed");
        mc::state(hash(want));
        mc::C.transitions += 2;
      });
}
template <class Op> V rb(const V &a, const V &b) {
  bool bad;
  return refBin<Op>(a, b, bad);
}
V neg(V a) {
  for (auto &d : a.x)
    d = -d;
  return a;
}
#define LENS(N) for (std::size_t na : N) for (std::size_t nb : N) for (std::size_t nc : N)
void explore() {
  std::vector<std::size_t> N = {1, 2, 3, 4};
  if (mc::C.thorough)
    N = {1, 2, 3, 4, 5, 6, 7};
  forK<5>([&](auto i1) {
    forK<5>([&](auto i2) {
      using P = O<decltype(i1)::value>;
      using Q = O<decltype(i2)::value>;
      std::string s1 = P::n, s2 = Q::n;
      LENS(N) {
        std::size_t nd = (na + nb) % 4 + 1;
        auto T = [&](std::string nm, auto mk, auto ref) {
          tree(nm, na, nb, nc, nd, +mk, +ref);
        };
        T("(a" + s1 + "b)" + s2 + "c", [](Vec<double> &r, Vec<double> &a, Vec<double> &b, Vec<int> &c, Vec<double> &, Vec<int> &) { r = Q::ap(P::ap(a, b), c); },
          [](V a, V b, V c, V) { return rb<Q>(rb<P>(a, b), c); });
        T("a" + s1 + "(b" + s2 + "c)", [](Vec<double> &r, Vec<double> &a, Vec<double> &b, Vec<int> &c, Vec<double> &, Vec<int> &) { r = P::ap(a, Q::ap(b, c)); },
          [](V a, V b, V c, V) { return rb<P>(a, rb<Q>(b, c)); });
        T("(d" + s1 + "2)" + s2 + "a", [](Vec<double> &r, Vec<double> &a, Vec<double> &, Vec<int> &, Vec<double> &s, Vec<int> &i) { r = Q::ap(P::ap(subset(s, i), 2), a); },
          [](V a, V, V, V d) { return rb<Q>(rb<P>(d, V({2})), a); });
        T("-(a" + s1 + "b)" + s2 + "(-c)", [](Vec<double> &r, Vec<double> &a, Vec<double> &b, Vec<int> &c, Vec<double> &, Vec<int> &) { r = Q::ap(-P::ap(a, b), -c); },
          [](V a, V b, V c, V) { return rb<Q>(neg(rb<P>(a, b)), neg(c)); });
        T("(a" + s1 + "b)" + s2 + "(c+d)", [](Vec<double> &r, Vec<double> &a, Vec<double> &b, Vec<int> &c, Vec<double> &s, Vec<int> &i) { r = Q::ap(P::ap(a, b), c + subset(s, i)); },
          [](V a, V b, V c, V d) { return rb<Q>(rb<P>(a, b), rb<Add>(c, d)); });
        T("((a" + s1 + "b)-c)" + s2 + "d", [](Vec<double> &r, Vec<double> &a, Vec<double> &b, Vec<int> &c, Vec<double> &s, Vec<int> &i) { r = Q::ap(P::ap(a, b) - c, subset(s, i)); },
          [](V a, V b, V c, V d) { return rb<Q>(rb<Sub>(rb<P>(a, b), c), d); });
        T("a" + s1 + "(b*(c" + s2 + "d))", [](Vec<double> &r, Vec<double> &a, Vec<double> &b, Vec<int> &c, Vec<double> &s, Vec<int> &i) { r = P::ap(a, b * Q::ap(c, subset(s, i))); },
          [](V a, V b, V c, V d) { return rb<P>(a, rb<Mul>(b, rb<Q>(c, d))); });
        T("1.5" + s1 + "(a" + s2 + "b)", [](Vec<double> &r, Vec<double> &a, Vec<double> &b, Vec<int> &, Vec<double> &, Vec<int> &) { r = P::ap(1.5, Q::ap(a, b)); },
          [](V a, V b, V, V) { return rb<P>(V({1.5}), rb<Q>(a, b)); });
      }
    });
  });
}
#else
void explore() {
  const double inf = std::numeric_limits<double>::infinity(),
               nan = std::numeric_limits<double>::quiet_NaN();
  std::vector<double> S = {0.0,   -0.0,  1,     -1,    2,      -2,    0.5,  -0.5,
                           1e-3,  3,     -7.25, 1e10,  -1e10,  1e300, 1e-300, 5e-324,
                           9007199254740992.0, inf, -inf, nan, 0.1, 2.5, 1.0/3.0};
  forOps([&](auto op) {
    using Op = decltype(op);
    for (double x : S)
      for (double y : S) {
        V a({x}), b({y}), a3({1.0, x, 2.0}), b3({y, 4.0, y});
        pairCase<Op, VD, VD>(a, b);
        // the sign of a zero belongs to the value (1 / x tells them apart)
        mc::run([&] { return "sign of zero in " + str(a) + " " + Op::n + " " + str(b) + " and -" + str(a); },
                [&] {
                  Vec<double> va, vb, r;
                  put(va, a);
                  put(vb, b);
                  r = Op::ap(va, vb);
                  bool bad;
                  double w = refBin<Op>(a, b, bad).x[0], g = r[0];
                  if (w == 0 && g == 0 && std::signbit(w) != std::signbit(g))
                    fail("the result is zero with the wrong sign");
                  r = -va;
                  if (x == 0 && std::signbit(double(r[0])) == std::signbit(x))
                    fail("the negation of zero has the sign of the operand");
                });
        pairCase<Op, VD, SD>(a3, b);
        pairCase<Op, SD, BO>(a, b3);
        pairCase<Op, SVD, VD>(a3, b3);
        pairCase<Op, BO, CV>(a3, b);
      }
    std::vector<std::size_t> ns = {1, 7, 8, 13, 14, 15, 16, 20, 21, 31, 33, 64, 65, 100, 115, 116, 128, 257, 1000, 1025};
    for (std::size_t n : ns)
      for (std::size_t m : ns) {
        V a, b;
        for (std::size_t i = 0; i < n; i++)
          a.x.push_back(1 + i * 0.5);
        for (std::size_t i = 0; i < m; i++)
          b.x.push_back(3.0 - int(i % 5));
        pairCase<Op, VD, VD>(a, b);
        pairCase<Op, BO, SVD>(a, b);
        pairCase<Op, VD, EB>(a, b);
      }
  });
  if (mc::C.thorough)
    for (std::size_t n = 1; n <= 120; n++)
      for (std::size_t m = 1; m <= 120; m++) {
        V a, b;
        for (std::size_t i = 0; i < n; i++)
          a.x.push_back(1 + i * 0.5);
        for (std::size_t i = 0; i < m; i++)
          b.x.push_back(3.0 - int(i % 5));
        pairCase<Sub, VD, VD>(a, b);
        pairCase<Div, SVD, BO>(a, b);
      }
}
#endif
int main(int c, char **v) {
  mc::init(c, v);
  explore();
  return mc::finish();
}

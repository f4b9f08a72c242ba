// C04: every right-hand side that mentions the target (or memory shared with
// it), for every kind of target. PART 0 = whole variables, 1 = selections.
#include "world.hpp"
using namespace wd;
#ifndef PART
#define PART 0
#endif
// X: the variable that occurs in the expression, T: the target
#define COMMON(T, X)                                                           \
  ST(0, T = X + w.b), ST(0, T = w.b - X), ST(0, T = X), ST(0, T = X + X),      \
      ST(0, T = X * subset(X, 1)), ST(0, T = subset(X, w.i)),                  \
      ST(0, T = X + subset(X, w.i)), ST(0, T = subset(X, 2)),                  \
      ST(0, T = subset(X, w.i) - subset(X, w.l)), ST(0, T = sinus(X)),         \
      ST(0, T = -X), ST(0, T = w.coca(X, 0.5)), ST(0, T = X > 1.5),            \
      ST(0, T = subset(X, X > 1.5)), ST(0, T = (X + w.b) * subset(X, 1)),      \
      ST(0, T = subset(X + 1.0, w.i)), ST(0, T = subset(X, true) / X),         \
      ST(0, T = X - at(X, 1)), ST(0, T = subset(X, w.coca(1, 9))),             \
      ST(0, T = X + subset(X, w.coca(1, 2, 9))), ST(0, T = 4.0)
#define MATS(T, X)                                                             \
  ST(0, T = subset(X, 1, true)), ST(0, T = subset(X, w.coca(2, 1), true)),     \
      ST(0, T = subset(X, true, 2) + X), ST(0, T = X / subset(X, true, true)), \
      ST(0, T = X - at(X, 1, 2)),                                              \
      ST(0, T = subset(X, w.coca(2, 1), w.coca(2, 1)) * X),                    \
      ST(0, T = subset(X, true, w.coca(1, 3)))
#if PART == 0
static const std::vector<Stmt> AL = {
    COMMON(w.a, w.a),
    COMMON(w.p, w.p),
    COMMON(w.i, w.i),
    COMMON(w.o, w.p),
    COMMON(w.p, w.o),
    ST(0, w.a = w.a + w.i + w.p),
    ST(0, w.a = w.rep(w.a, 2)),
    ST(0, w.a = w.matrix(w.a + 0.5, 2, 2)),
    ST(0, w.p = w.rep(w.p, 2)),
    ST(0, w.l = w.l * w.l),
    ST(0, w.l = subset(w.l, w.l)),
    ST(0, w.l = w.l != w.l),
    ST(0, w.i = subset(w.i, w.i)),
    ST(0, w.i = subset(w.i, w.i > 1)),
    ST(0, w.i = w.i / 2),
};
#elif PART == 1
static const std::vector<Stmt> AL = {
    COMMON(subset(w.a, w.i), w.a),
    COMMON(subset(w.a, w.l), w.a),
    COMMON(subset(w.a, w.coca(3, 2, 1)), w.a),
    COMMON(subset(w.p, w.i), w.p),
    COMMON(subset(w.p, w.coca(2, 1)), w.o),
    COMMON(subset(w.a, true), w.a),
    COMMON(subset(w.a, w.a > 1.5), w.a),
    ST(0, subset(w.i, w.i) = w.i),
    ST(0, subset(w.i, w.i) = subset(w.i, w.coca(2, 1))),
    ST(0, subset(w.i, w.coca(1, 2)) = w.i),
    ST(0, subset(w.l, w.l) = subset(w.l, w.coca(2, 1))),
    ST(0, at(w.a, 1) = at(w.a, 2)),
    ST(0, subset(w.a, w.coca(1, 9)) = w.coca(7.0, 8.0)),
    ST(0, subset(w.a, w.coca(1, 1)) = w.coca(7.0, 8.0)),
};
#elif PART == 2
static const std::vector<Stmt> AL = {
    COMMON(w.m, w.m),
    MATS(w.m, w.m),
    COMMON(w.q, w.q),
    MATS(w.q, w.q),
    COMMON(subset(w.m, w.coca(2, 1), true), w.m),
    MATS(subset(w.m, w.coca(2, 1), true), w.m),
    COMMON(subset(w.m, 1, true), w.m),
    MATS(subset(w.m, 1, true), w.m),
    MATS(subset(w.q, true, w.coca(2, 1)), w.q),
    MATS(w.a, w.m),
    ST(0, at(w.m, 1, 2) = at(w.m, 2, 1)),
};
#endif
V seq(std::size_t n, double s) {
  V v;
  for (std::size_t i = 0; i < n; i++)
    v.x.push_back(s + double(i) * 1.25);
  return v;
}
void explore() {
  static std::vector<Init> inits;
  std::vector<V> is = {V({1}), V({2, 1}), V({3, 1, 2}), V({2, 2}), V({1, 4, 3, 2})};
  std::vector<V> ls = {V({1}), V({1, 0}), V({0, 1, 1})};
  std::size_t N = mc::C.thorough ? 6 : 4;
  if (PART < 2) {
    for (std::size_t n = 1; n <= N; n++)
      for (std::size_t k = 1; k <= N; k++)
        for (auto &i : is)
          for (auto &l : ls)
            inits.push_back(Init{"vectors", seq(n + 1, 1).x, seq(4, 3).x, 2, 2, seq(n, 1), seq(k, 2), seq(4, 1), V({7}), i, l});
  } else {
    for (std::size_t r = 1; r <= 3; r++)
      for (std::size_t c = 1; c <= 3; c++)
        for (std::size_t k = 1; k <= 4; k++)
          for (auto &i : is) {
            V m = seq(r * c, 1);
            m.m = true, m.r = r, m.c = c;
            inits.push_back(Init{"matrices", seq(4, 1).x, m.x, r, c, seq(k, 1), seq(k, 2), m, V({7}), i, V({0, 1})});
          }
  }
  for (auto &in : inits)
    allSeqs(in, AL, 1, 60);
  // pairs: the evaluation buffers of the first statement are still there
  std::vector<Init> two = PART < 2 ? std::vector<Init>{
      {"pairs", {1, 2.5, 3}, {1, 2, 3, 4}, 2, 2, V({1.25, 2, 3}), V({5, 6, 4}), V({1, 2, 3, 4}, 2, 2), V({7}), V({3, 1, 2}), V({1, 0, 1})}}
    : std::vector<Init>{{"pairs", {1, 2.5, 3}, {1, 2, 3, 4}, 2, 2, V({1.25, 2, 3}), V({5, 6}), V({1.5, 2, 3, 4}, 2, 2), V({7}), V({2, 1}), V({1, 0})}};
  for (auto &in : two)
    allSeqs(in, AL, 2, 40);
}
WORLD_MAIN

// C05: histories. PART 0 = broad alphabet, PART 1 = deep alphabet
#include "world.hpp"
using namespace wd;
#ifndef PART
#define PART 0
#endif
#if PART == 0
static const std::vector<Stmt> AL = {
    ST(0, w.a = 1.5),
    ST(0, w.a = w.coca(1.0, 2.0, 3.0)),
    ST(0, w.a = w.b),
    ST(0, w.b = w.a),
    ST(0, w.a = w.a + w.b),
    ST(0, w.b = w.b * 2.0),
    ST(0, w.a = w.m),
    ST(0, w.m = w.a),
    ST(0, w.m = w.matrix(w.coca(1.0, 2.0, 3.0, 4.0, 5.0, 6.0), 2, 3)),
    ST(0, w.m = -w.m),
    ST(0, w.m = w.m + w.m),
    ST(0, w.m = w.m - w.a),
    ST(0, w.n = subset(w.m, 1, true)),
    ST(0, w.m = subset(w.m, w.coca(1, 2), true)),
    ST(0, w.a = subset(w.a, w.coca(2, 1, 2))),
    ST(0, w.b = subset(w.a, w.a > 1.0)),
    ST(0, subset(w.a, 2) = 9.0),
    ST(0, subset(w.m, 1, 2) = 4.5),
    ST(0, subset(w.b, true) = -1.0),
    ST(0, at(w.a, 1) = 6.0),
    ST(0, w.i = w.a),
    ST(0, w.i = w.i + 1),
    ST(0, w.l = w.a > w.b),
    ST(0, w.l = w.i),
    ST(0, w.a = w.i * w.l),
    ST(0, w.p = w.a),
    ST(0, w.p = w.p + 1.0),
    ST(0, w.a = w.p),
    ST(0, w.p = 3.0),
    ST(0, w.q = w.m),
    ST(0, w.m = w.q),
    ST(0, w.b = w.vector_numeric(5)),
    ST(0, w.a = w.rep(w.b, 2)),
    ST(0, w.b = w.colon(1, 4)),
    ST(0, w.a = sinus(w.a)),
    ST(0, w.b = true),
    ST(0, w.m = 2.5),
    ST(0, w.n = w.matrix(0.5, 3, 1)),
    ST(0, w.a.fill(7.25)),
    ST(0, w.m.fill(0.75)),
    ST(0, w.l.fill(true)),
    ST(0, w.b.back() = 3.5),
    ST(0, w.i.back() = 4),
};
#elif PART == 1
static const std::vector<Stmt> AL = {
    ST(0, w.a = 2.0),
    ST(0, w.a = w.coca(1.0, 2.0, 3.0, 4.0, 5.0)),
    ST(0, w.a = w.matrix(w.coca(1.0, 2.0, 3.0, 4.0), 2, 2)),
    ST(0, w.a = w.a + w.b),
    ST(0, w.b = w.a),
    ST(0, w.b = subset(w.a, 1)),
    ST(0, w.a = w.rep(w.a, 2)),
    ST(0, w.p = w.a),
};
#endif
void explore() {
  std::vector<Init> inits = {
      {"filled", {1, 2, 3, 4}, {1, 2, 3, 4}, 2, 2, V({1.25, 2, 3}), V({5, 6}), V({1, 2, 3, 4}, 2, 2), V({7}), V({1, 2}), V({1, 0, 1})},
      {"empty", {0}, {5, 6}, 1, 2, V(), V(), V(), V(), V(), V()},
  };
#ifdef LOOPS
  for (auto &in : inits)
    allLoops(in, AL, PART == 0 ? 2 : 3, mc::C.thorough ? 200 : 60, 40);
  return;
#endif
  int depth = PART == 0 ? 3 : 6;
  if (mc::C.thorough)
    depth = PART == 0 ? 4 : 7;
  for (int d = depth; d <= depth; d++)
    for (auto &in : inits)
      allSeqs(in, AL, d, 16);
}
WORLD_MAIN

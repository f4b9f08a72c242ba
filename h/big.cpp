// Size ladder: the statements of a property on variables of many sizes, in
// lock-step with the reference interpreter. PART = number of the property.
#include "subs.hpp"
using namespace wd;
#ifndef PART
#define PART 1
#endif
static V seqF(std::size_t n, auto f) {
  V v;
  for (std::size_t i = 0; i < n; i++)
    v.x.push_back(f(i));
  return v;
}
static V pattern(std::size_t n, double s) { // repeats only after 1009 elements
  return seqF(n, [&](std::size_t i) { return s + double((i * 37) % 1009) * 0.25 - 100; });
}
static V revIx(std::size_t n) {
  return seqF(n, [&](std::size_t i) { return double(n - i); });
}
static V lgl(std::size_t n) {
  return seqF(n, [&](std::size_t i) { return double(i % 3 != 1); });
}
static V shaped(V v, std::size_t r, std::size_t c) {
  v.m = true, v.r = r, v.c = c;
  return v;
}
// a of n, b of k elements, m and q matrices of r x c, p borrows n
static Init sized(std::size_t n, std::size_t k, std::size_t r, std::size_t c) {
  return Init{"", pattern(n, 0.5).x, pattern(r * c, 3).x, r, c, pattern(n, 1), pattern(k, 101.125), shaped(pattern(r * c, 2), r, c), V({1}), revIx(n), lgl(n)};
}
static std::vector<std::size_t> partner(std::size_t n) { // lengths of the other operand
  std::set<std::size_t> s = {1, 2, 3, n, n - 1, n + 1, (n + 1) / 2, 16};
  s.erase(0);
  if (n > 1025 && !mc::C.thorough)
    return {1, 3, n};
  return {s.begin(), s.end()};
}
#define ARITH(L, R) ST(0, w.n = L + R), ST(0, w.n = L - R), ST(0, w.n = R - L), ST(0, w.n = L * R), ST(0, w.n = L / R)
#if PART == 1
static const std::vector<Stmt> AL = {
    ARITH(w.a, w.b), ARITH(w.p, w.b), ARITH(w.i, w.b), ARITH(w.a, 1.5), ARITH(w.a, w.i), ST(0, w.n = w.a ^ 2.0), ST(0, w.n = 2.0 ^ w.b), ST(0, w.n = w.b ^ w.l), ST(0, w.n = subset(w.a, w.i) * w.b), ST(0, w.n = w.b / subset(w.p, w.i)),
    ST(0, w.n = subset(w.a, w.l) - w.b), ST(0, w.n = (w.a + w.b) * (w.a - w.b)), ST(0, w.n = (w.a + w.p) * w.b / (w.b + 0.5)), ST(0, w.n = -(w.a + w.b) - (-w.p)), ST(0, w.n = w.a + w.b + w.p + w.i + w.l + 1.0), ST(0, w.n = w.coca(w.a, w.b) + w.b), ST(0, w.n = sinus(w.a) + w.b * w.a), ST(0, w.n = 1.0 + (2.0 * (w.b - (3.0 / w.a)))), ST(0, w.n = w.m * w.b + w.m)};
#elif PART == 2
static const std::vector<Stmt> AL = {
    ARITH(w.i, w.l), ARITH(w.l, w.l), ARITH(w.i, w.i), ARITH(w.i, 2), ARITH(w.l, true), ARITH(w.l, w.a), ARITH(w.i, w.b), ST(0, w.i = w.a), ST(0, w.l = w.a), ST(0, w.i = w.l), ST(0, w.l = w.i), ST(0, w.a = w.l), ST(0, w.p = w.l), ST(0, w.p = w.i), ST(0, w.i = w.p), ST(0, w.l = w.i - 1), ST(0, w.i = w.a / 2.0),
    ST(0, subset(w.i, w.i) = w.a), ST(0, subset(w.l, w.i) = w.a), ST(0, subset(w.a, w.i) = w.l), ST(0, w.n = w.coca(w.l, w.i)), ST(0, w.n = w.coca(w.i, w.a)), ST(0, w.i = w.coca(w.a, w.l)), ST(0, w.n = (w.i + w.l) / 2), ST(0, w.n = w.i ^ 2), ST(0, w.n = -w.l), ST(0, w.n = -w.i / 2)};
#elif PART == 3
static const std::vector<Stmt> AL = {
    ARITH(w.m, w.q), ARITH(w.m, w.b), ARITH(w.q, 1.5), ARITH(w.m, w.a), ST(0, w.n = -w.m), ST(0, w.n = sinus(w.q)), ST(0, w.n = exp(w.m)), ST(0, w.l = w.m > w.q), ST(0, w.l = w.m == w.b), ST(0, w.n = w.m + w.q * w.b - sinus(w.m)), ST(0, w.a = w.m), ST(0, w.a = w.m + 1.0), ST(0, w.i = w.m), ST(0, w.l = w.q), ST(0, w.q = w.m), ST(0, w.m = w.q), ST(0, w.q = -w.m),
    ST(0, w.m = w.a), ST(0, w.m = w.b), ST(0, w.n = w.m * (w.a + w.b)), ST(0, w.n = (w.a + w.b) * w.m), ST(0, w.m = subset(w.m, true)), ST(0, w.n = subset(w.m, true, true)), ST(0, w.n = w.matrix(-w.m, w.ti + 0, w.si + 0)), ST(0, w.n = (w.m + w.a) > (w.q - w.b))};
#elif PART == 4
#define SELF(T, X) ST(0, T = X + w.b), ST(0, T = w.b - X), ST(0, T = X), ST(0, T = subset(X, w.i)), ST(0, T = X + subset(X, w.i)), ST(0, T = subset(X, w.i) - subset(X, w.l)), ST(0, T = X * subset(X, 1)), ST(0, T = sinus(X)), ST(0, T = -X), ST(0, T = w.coca(X, 0.5)), ST(0, T = X > 1.5), ST(0, T = subset(X, X > 1.5)), ST(0, T = subset(X + 1.0, w.i)), ST(0, T = X - at(X, 1)), ST(0, T = (X + w.b) * subset(X, w.i))
static const std::vector<Stmt> AL = {
    SELF(w.a, w.a), SELF(w.p, w.p), SELF(w.o, w.p), SELF(w.p, w.o), SELF(subset(w.a, w.i), w.a), SELF(subset(w.a, w.l), w.a), SELF(subset(w.p, w.i), w.p), SELF(subset(w.o, true), w.p), SELF(subset(w.a, true), w.a), SELF(w.m, w.m), SELF(w.q, w.q), SELF(subset(w.q, true, true), w.q),
    ST(0, w.i = subset(w.i, w.i)), ST(0, subset(w.i, w.i) = w.i), ST(0, subset(w.i, w.i) = subset(w.i, w.i) + 1), ST(0, w.l = subset(w.l, w.l)), ST(0, w.a = w.rep(w.a, 2)), ST(0, w.m = subset(w.m, w.xi, true)), ST(0, w.m = subset(w.m, true, w.yi)), ST(0, subset(w.m, w.xi, true) = w.m), ST(0, subset(w.m, w.xi, w.yi) = subset(w.m, true, true)), ST(0, w.m = w.m + subset(w.m, w.xi, w.yi)),
    ST(0, w.q = subset(w.q, w.xi, w.yi)), ST(0, w.a = subset(w.m, 1, true)), ST(0, w.m = subset(w.m, true, 1)), ST(0, w.a = subset(subset(w.a, w.i), w.i) + subset(w.a, w.i)), ST(0, subset(w.p, w.i) = subset(w.o, w.coca(1, 2)))};
#elif PART == 14
#define CMP(L, R) ST(0, w.l = L < R), ST(0, w.l = L <= R), ST(0, w.l = L > R), ST(0, w.l = L >= R), ST(0, w.l = L == R), ST(0, w.l = L != R)
static const std::vector<Stmt> AL = {CMP(w.a, w.b), CMP(w.b, w.p), CMP(w.i, w.l), CMP(w.a, 3.0), CMP(2, w.i), CMP(w.m, w.q), CMP(subset(w.a, w.i), w.a), CMP(w.a + w.b, w.p * 1.0), ST(0, w.n = (w.a < w.b) + (w.b >= w.p)), ST(0, w.n = subset(w.a, w.a > w.p)), ST(0, w.n = subset(w.a, w.a == w.a)), ST(0, subset(w.a, w.a != w.p) = 0.25), ST(0, w.n = (w.a < w.b) == w.l), ST(0, w.i = w.a > 1.0), ST(0, w.p = w.a > 1.0), ST(0, w.n = -(w.a > 1.0))};
#elif PART == 15
#define PRED(E) ST(0, w.l = isNA(E)), ST(0, w.l = isInf(E))
static const std::vector<Stmt> AL = {PRED(w.a), PRED(w.p), PRED(w.b), ST(0, w.l = isNA(w.a + w.b)), ST(0, w.l = isInf(w.a / 0.0)), ST(0, w.l = isNA(w.a / 0.0 - w.a / 0.0)), PRED(w.m), PRED(w.q), PRED(w.i), PRED(w.l), ST(0, w.n = length(w.a)), ST(0, w.n = length(w.p)), ST(0, w.n = length(w.m)), ST(0, w.n = length(w.i)), ST(0, w.n = length(w.l)), ST(0, w.i = dim(w.m)), ST(0, w.i = dim(w.q)), ST(0, w.i = dim(w.m + w.q)), ST(0, w.i = dim(-w.m)), ST(0, w.i = dim(subset(w.m, true, 1))),
    ST(0, w.i = dim(w.a)), ST(0, w.a = subset(w.a, isNA(w.a))), ST(0, subset(w.a, isInf(w.a)) = 1.5)};
#elif PART == 16
#define FUN(F) ST(0, w.n = F(w.a)), ST(0, w.n = F(w.p)), ST(0, w.n = F(w.a + w.b)), ST(0, w.n = F(subset(w.a, w.i))), ST(0, w.n = F(w.m)), ST(0, w.a = F(w.a)), ST(0, w.p = F(w.p) * 2.0), ST(0, w.i = F(w.a) > 0.0), ST(0, w.n = F(w.i + 0.5)), ST(0, w.n = F(F(w.a)))
static const std::vector<Stmt> AL = {FUN(sinus), FUN(asinus), FUN(sinush), FUN(cosinus), FUN(acosinus), FUN(cosinush), FUN(tangens), FUN(atangens), FUN(tangensh), FUN(exp), FUN(ln), FUN(sqroot), ST(0, w.n = -w.a), ST(0, w.n = -w.m), ST(0, w.n = -w.i), ST(0, w.p = -w.p), ST(0, w.n = sinus(w.a) * sinus(w.a) + cosinus(w.a) * cosinus(w.a))};
#endif
#if PART == 1 || PART == 2 || PART == 4 || PART == 14 || PART == 15 || PART == 16
void explore() {
  for (auto n : sb::dense(4, mc::C.thorough ? 131073 : 65537)) {
    std::size_t r = n % 4 == 0 ? n / 4 : n % 3 == 0 ? 3 : n % 2 ? 1 : 2, c = n / r;
    for (std::size_t k : partner(n)) {
      Init in = sized(n, k, r, c);
#if PART == 2 || PART == 16
      if (k != partner(n)[0])
        continue;
      for (std::size_t j = 0; j < n; j++)
        in.a.x[j] = double((j * 7) % 23) * 0.25 - 1.5, in.mp[j] = double((j * 5) % 19) * 0.125 + 0.1;
#endif
#if PART == 15
      if (k != partner(n)[0])
        continue;
      for (std::size_t j = 0; j < n; j++)
        if (j % 5 == 2 || j + 1 == n)
          in.a.x[j] = sb::NaN, in.mp[n - 1 - j] = INFINITY;
        else if (j % 7 == 3)
          in.a.x[j] = -INFINITY, in.mp[j] = sb::NaN;
#endif
      std::vector<std::pair<int, V>> vals = {{0, V({double(r)})}, {5, V({double(c)})}};
      vals.push_back({2, revIx(r)});
      vals.push_back({7, revIx(c)});
      for (auto &st : AL) {
        if (n > 4097 && !mc::C.thorough && k != 1 && (&st - &AL[0]) % 3)
          continue;
        oneStmt(in, vals, st);
      }
    }
  }
}
#elif PART == 3
void explore() {
  for (auto [r, c] : sb::shapes())
    for (std::size_t k : partner(r * c)) {
      Init in = sized(r * c, k, r, c);
      for (auto &st : AL)
        oneStmt(in, {{0, V({double(r)})}, {5, V({double(c)})}}, st);
    }
}
#elif PART == 5
static const std::vector<Stmt> SET = { // assignments of w.y / w.z to variables of every kind
    ST(0, w.a = w.y), ST(0, w.a = w.y + 0.5), ST(0, w.a = w.coca(w.y)), ST(0, w.a = subset(w.y, true)), ST(0, w.a = w.z), ST(0, w.a = w.matrix(w.coca(w.y), 1, length(w.y))), ST(0, w.a = w.y > 0.0), ST(0, w.a = w.p), ST(0, w.a = 7.5)};
static const std::vector<Stmt> SET2 = {ST(0, w.i = w.y), ST(0, w.i = w.z), ST(0, w.l = w.y > 0.0), ST(0, w.p = w.y), ST(0, w.p = w.y * 2.0), ST(0, w.p = w.coca(w.y)), ST(0, w.m = w.matrix(w.coca(w.y), length(w.y), 1)), ST(0, w.m = w.y), ST(0, w.b = w.a), ST(0, w.a = w.b + w.a), ST(0, w.a = w.vector_numeric(length(w.y))), ST(0, w.a = w.colon(1, length(w.y)))};
static const std::vector<Stmt> GROW = {ST(0, w.a = w.coca(w.a, w.sd)), ST(0, w.b = w.coca(w.b, w.a)), ST(0, w.a = subset(w.a, w.xi)), ST(0, w.i = w.coca(w.i, 3)), ST(0, w.l = w.coca(w.l, true)), ST(0, w.a = w.rep(w.a, 2)), ST(0, w.a = w.a + w.b), ST(0, w.m = w.matrix(w.coca(w.a), 1, length(w.a))), ST(0, w.n = w.a), ST(0, w.p = w.a)};
void explore() {
  std::vector<std::size_t> L = {1, 2, 3, 4, 5, 6, 7, 8, 12, 13, 14, 15, 16, 17, 20, 33, 64, 100, 129, 257};
  if (mc::C.thorough)
    L = sb::ladder(1, 1025);
  Init in = sized(20, 3, 2, 3);
  auto vals = [](std::size_t n) { return std::vector<std::pair<int, V>>{{10, pattern(n, double(n))}, {11, seqF(n, [&](std::size_t i) { return double(n + i); })}}; };
  // sizes s, t, s in every order, assigned in every way
  for (auto s : L)
    for (auto t : L)
      for (auto &x : SET)
        for (auto &y : SET)
          history(in, std::string(x.text) + " with " + std::to_string(s) + " elements, " + y.text + " with " + std::to_string(t) + ", again", {{vals(s), &x}, {vals(t), &y}, {vals(s), &x}});
  for (auto s : L)
    for (auto t : L)
      for (auto &x : SET2)
        history(in, std::string(x.text) + " with " + std::to_string(s) + " elements, then with " + std::to_string(t) + ", again", {{vals(s), &x}, {vals(t), &x}, {vals(s), &x}});
  // large ones
  for (std::size_t s : {1000, 1025, 4097, 65537})
    for (std::size_t t : {1, 17, 1024, 65536})
      for (auto *al : {&SET, &SET2})
        for (auto &x : *al)
          history(sized(s, 3, 2, 3), std::string(x.text) + " with " + std::to_string(s) + " elements, then with " + std::to_string(t) + ", again", {{vals(s), &x}, {vals(t), &x}, {vals(s), &x}});
  // one more element every time, then one less
  for (std::size_t top : {40, 300})
    for (auto &g : GROW) {
      std::vector<Step> st;
      for (std::size_t n = 1; n < top; n++)
        st.push_back({{{1, V({double(n) + 0.25})}, {2, seqF(2, [&](std::size_t i) { return double(i + 1); })}}, &GROW[0]});
      for (std::size_t n = top; n > 2; n--)
        st.push_back({{{2, seqF(n - 1, [&](std::size_t i) { return double(i + 2); })}}, &GROW[2]});
      std::vector<Step> st2;
      for (std::size_t j = 0; j < st.size(); j++) {
        st2.push_back(st[j]);
        if (j % 3 == 2 && (&g != &GROW[5] || j > st.size() - 10) && (&g != &GROW[1] || j < 60))
          st2.push_back({{{2, V({1, 2, 1})}}, &g});
      }
      history(in, "growing to " + std::to_string(top) + " and shrinking, with " + g.text, st2);
    }
}
#elif PART == 12
static const std::vector<Stmt> AL = {
    ST(0, w.p = w.y), ST(0, w.p = w.y + 0.5), ST(0, w.p = w.coca(w.y)), ST(0, w.p = w.z), ST(0, w.p = subset(w.y, true)), ST(0, w.p = w.y > 0.0), ST(0, w.p = 2.5), ST(0, w.q = w.matrix(w.coca(w.y), 1, length(w.y))), ST(0, w.q = w.y), ST(0, w.o = w.y), ST(0, w.p = w.vector_numeric(length(w.y))), ST(0, w.p = w.colon(1, length(w.y))), ST(0, w.a = w.p), ST(0, w.a = w.p + w.o), ST(0, subset(w.p, w.i) = w.y), ST(0, subset(w.p, true) = w.y), ST(0, w.p = subset(w.p, w.i)), ST(0, w.p = sinus(w.y)), ST(0, w.p = w.rep(w.y, 2)), ST(0, subset(w.o, 1) = 3.5), ST(0, at(w.p, length(w.y)) = 1.5), ST(0, w.q = 1), ST(0, w.p = w.p + w.y)};
void explore() {
  for (auto n : sb::dense(2, mc::C.thorough ? 131073 : 65537)) {
    std::set<std::size_t> ks = {1, 2, (n + 1) / 2, n - 1, n, n + 1, 2 * n, n + n / 7 + 1};
    if (n > 300)
      ks = {1, n - 1, n, n + 1};
    for (auto k : ks) {
      Init in = sized(n, 3, n % 2 ? 1 : 2, n % 2 ? n : n / 2);
      std::vector<std::pair<int, V>> v = {{10, pattern(k, 7.5)}, {11, seqF(k, [&](std::size_t i) { return double(k + i); })}};
      for (auto &st : AL)
        oneStmt(in, v, st);
      if (n <= 130) // used shorter, then in full again
        for (auto &st : AL)
          for (std::size_t j : {std::size_t(1), n / 2, n})
            if (j)
              history(in, std::string(st.text) + " with " + std::to_string(k) + " elements, then p = " + std::to_string(j) + " elements, then again, n=" + std::to_string(n), {{v, &st}, {{{10, pattern(j, 1.5)}}, &AL[0]}, {v, &st}, {{{10, pattern(n, 2.5)}}, &AL[0]}});
    }
  }
}
#elif PART == 13
static const std::vector<Stmt> AL = {
    ST(0, w.n = w.vector_numeric(w.si)), ST(0, w.n = w.vector_numeric(w.sd)), ST(0, w.i = w.vector_integer(w.si)), ST(0, w.l = w.vector_logical(w.si)), ST(0, w.n = w.rep(w.sd, w.si)), ST(0, w.n = w.rep(w.b, w.si)), ST(0, w.n = w.rep(w.coca(w.b), w.td)), ST(0, w.n = w.rep(w.a, 1)), ST(0, w.n = w.rep(w.a, 3)), ST(0, w.i = w.rep(w.i, 2)), ST(0, w.l = w.rep(w.l, 2)), ST(0, w.n = w.rep(w.p, 2)), ST(0, w.a = w.rep(w.a, 2)),
    ST(0, w.n = w.colon(1, w.si)), ST(0, w.n = w.colon(w.si, 1)), ST(0, w.n = w.colon(0.25, w.sd)), ST(0, w.n = w.colon(w.sd, -1.5)), ST(0, w.i = w.colon(w.si, -3)), ST(0, w.n = w.colon(w.si, w.ti)), ST(0, w.p = w.colon(1, w.si)), ST(0, w.n = w.coca(w.a, w.b)), ST(0, w.n = w.coca(w.b, w.a, w.i, w.l, w.p)), ST(0, w.n = w.coca(1.5, w.a, 2)), ST(0, w.i = w.coca(w.i, w.l)), ST(0, w.n = w.coca(w.m, w.a)), ST(0, w.p = w.coca(w.p)), ST(0, w.n = w.coca(w.a, w.a, w.a, w.a, w.a, w.a)), ST(0, w.a = w.coca(w.a, w.a)),
    ST(0, w.n = w.matrix(w.a + 0.0, w.yi + 0, w.xi + 0)), ST(0, w.n = w.matrix(w.coca(w.a), w.xi + 0, w.yi + 0)), ST(0, w.n = w.matrix(0.5, w.xi + 0, w.yi + 0)), ST(0, w.n = w.matrix(2, w.ti + 0, w.si + 0)), ST(0, w.i = w.matrix(w.coca(w.i), w.yi + 0, w.xi + 0)), ST(0, w.l = w.matrix(w.coca(w.l), w.yi + 0, w.xi + 0)), ST(0, w.n = w.matrix(w.coca(w.b), w.xi + 0, w.yi + 0)), ST(0, w.n = w.matrix(-w.m, w.yi + 0, w.xi + 0)), ST(0, w.a = w.matrix(w.coca(w.a), w.yi + 0, w.xi + 0))};
void explore() {
  for (auto n : sb::dense(1, mc::C.thorough ? 131073 : 65537)) {
    std::size_t r = n % 4 == 0 ? n / 4 : n % 3 == 0 ? 3 : n % 2 ? 1 : 2, c = n / r;
    Init in = sized(std::max<std::size_t>(n, 2), 3, r, c);
    for (std::size_t t : {std::size_t(1), std::size_t(2), std::size_t(5), std::size_t(17)})
      if (n < 1000 || t == 2)
        for (auto &st : AL)
          oneStmt(in, {{0, V({double(n)})}, {1, V({double(n) + (t == 5 ? 0.25 : 0.0)})}, {5, V({double(t)})}, {6, V({double(n)})}, {2, V({double(r)})}, {7, V({double(c)})}}, st);
  }
}
#endif
WORLD_MAIN

// C09: writing to selections. PART 0 = one subscript, 1 = rows and columns
#include "subs.hpp"
using namespace wd;
#ifndef PART
#define PART 0
#endif
#define RHS(T) ST(0, T = 2.5), ST(0, T = 7), ST(0, T = true), ST(0, T = w.y), ST(0, T = w.z), ST(0, T = w.y + 0.25), ST(0, T = subset(w.y, true)), ST(0, T = w.coca(w.y))
#if PART == 0
#define TG(IX) {RHS(subset(w.a, IX)), RHS(subset(w.i, IX)), RHS(subset(w.l, IX)), RHS(subset(w.p, IX)), RHS(subset(w.m, IX)), RHS(subset(w.q, IX)), ST(0, w.a(IX) = 2.5), ST(0, w.i(IX) = w.y), ST(0, w.l(IX) = w.y), ST(0, w.p(IX) = w.y), ST(0, w.m(IX) = w.y), ST(0, auto s = subset(w.a, IX); auto t = s; t = w.y), ST(0, auto s = subset(w.p, IX); auto t = s; t = 2.5)}
static const std::vector<Stmt> S_SI = TG(w.si), S_SD = TG(w.sd), S_XI = TG(w.xi), S_XD = TG(w.xd), S_XB = TG(w.xb),
                               S_TR = TG(true), S_FA = TG(false), S_EXI = TG(w.xi + 0), S_EXB = TG(w.xd > 1.5), S_TMP = TG(w.coca(w.xi)), S_SUB = TG(subset(w.xi, true));
// number of elements the subscript selects (to choose the right-hand sides)
std::size_t cnt(sb::Kind k, const V &s, std::size_t n) {
  if (k != sb::XB)
    return s.x.size();
  std::size_t c = 0;
  for (std::size_t i = 0; i < n; i++)
    c += s.x[i % s.x.size()] != 0;
  return c;
}
void atSize(std::size_t n, std::size_t N, std::size_t L) {
    const bool huge = n > 4097;
    const std::size_t few = huge ? 1 : n > 130 ? 2 : 99;
    V lg({1});
    if (n > 1)
      lg.x = rm::SV();
    for (std::size_t i = 0; n > 1 && i < n; i++)
      lg.x.push_back(double(i % 2));
    Init in{"", sb::seq(n, 1).x, sb::seq(n, 2).x, 1, n, sb::seq(n, 3), V({1}), sb::mat(n, 1, 5), V({1}), sb::seq(n, 1, 1), lg};
    auto go = [&](sb::Kind k, const std::vector<Stmt> &al, std::size_t maxLen) {
      for (auto &s : n > N ? sb::big(k, n, few) : sb::all(k, n, maxLen, false)) {
        std::size_t c = cnt(k, s, n);
        for (auto &st : al)
          for (int d = -1; d <= 1; d++) { // shorter, fitting and longer
            if (long(c) + d < 1)
              continue;
            bool useY = strstr(st.text, "w.y"), useZ = strstr(st.text, "w.z");
            if (d != 0 && ((!useY && !useZ) || huge))
              continue;
            std::vector<std::pair<int, V>> vals = {{int(k), s}};
            if (useY)
              vals.push_back({10, sb::seq(c + d, 10.5)});
            if (useZ)
              vals.push_back({11, sb::seq(c + d, 20, 1)});
            oneStmt(in, vals, st);
          }
      }
    };
    go(sb::SI, S_SI, L);
    go(sb::SD, S_SD, L);
    go(sb::XI, S_XI, L);
    go(sb::XI, S_EXI, 2);
    go(sb::XI, S_TMP, 2);
    go(sb::XI, S_SUB, 2);
    go(sb::XD, S_XD, L);
    go(sb::XB, S_XB, L);
    // comparison: the TRUE pattern is given through xd = 1 or 2
    for (auto &s : n > N ? sb::big(sb::XB, n, few) : sb::all(sb::XB, n, L, false)) {
      V x = s;
      for (auto &d : x.x)
        d += 1;
      std::size_t c = cnt(sb::XB, s, n);
      for (auto &st : S_EXB)
        for (int d = -1; d <= 1; d++)
          if (long(c) + d >= 1)
            oneStmt(in, {{3, x}, {10, sb::seq(c + d, 10.5)}, {11, sb::seq(c + d, 20, 1)}}, st);
    }
    for (auto *al : {&S_TR, &S_FA})
      for (auto &st : *al)
        for (int d = -1; d <= 1; d++)
          if (long(n) + d >= 1)
            oneStmt(in, {{10, sb::seq(n + d, 10.5)}, {11, sb::seq(n + d, 20, 1)}}, st);
}
void explore() {
  std::size_t N = mc::C.thorough ? 4 : 3, L = 3;
#ifndef BIG
  for (std::size_t n = 1; n <= N; n++)
    atSize(n, N, L);
#else
  for (auto n : sb::ladder(N + 1, mc::C.thorough ? 131073 : 65537))
    atSize(n, N, L);
#endif
}
#else
#define RH2(T) ST(0, T = 2.5), ST(0, T = 7), ST(0, T = w.y), ST(0, T = w.z), ST(0, T = w.y + 0.25), ST(0, T = w.matrix(w.coca(w.y), 1, length(w.y)))
#if PART == 1
#define X w.m
#else
#define X w.q
#endif
#define RC(R) {RH2(subset(X, R, w.ti))}, {RH2(subset(X, R, w.td))}, {RH2(subset(X, R, w.yi))}, {RH2(subset(X, R, w.yd))}, {RH2(subset(X, R, w.yb))}, {RH2(subset(X, R, true))}, {RH2(subset(X, R, w.yi + 0)), ST(0, X(R, w.yi) = w.y), ST(0, X(R, true) = 2.5), ST(0, auto s = subset(X, R, w.yi + 0); auto t = s; t = w.y), ST(0, auto s = subset(X, R, w.yi + 0); auto t = s; t = 2.5)}
static const std::vector<std::vector<Stmt>> AL = {RC(w.si), RC(w.sd), RC(w.xi), RC(w.xd), RC(w.xb), RC(true), RC(w.xi + 0)};
static const int RK[] = {0, 1, 2, 3, 4, -1, 2};
std::size_t cnt(int k, const V &s, std::size_t n) {
  if (k < 0)
    return n;
  if (k != 4)
    return s.x.size();
  std::size_t c = 0;
  for (std::size_t i = 0; i < n; i++)
    c += s.x[i % s.x.size()] != 0;
  return c;
}
void explore() {
  std::vector<std::pair<int, int>> dims = {{2, 2}, {3, 2}, {1, 3}};
  if (mc::C.thorough)
    dims = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 2}, {2, 3}, {3, 3}, {1, 3}, {4, 2}};
  std::size_t most = 0;
#ifdef BIG
  dims = sb::shapes();
#endif
  for (auto [r, c] : dims) {
#ifdef BIG
    most = r * c < 40 ? 3 : r * c <= 300 ? 2 : 1;
#endif
    const bool huge = r * c > 2000;
    Init in{"", sb::seq(2, 1).x, sb::mat(r, c, 1).x, std::size_t(r), std::size_t(c), sb::seq(2, 3), V({1}), sb::mat(r, c, 1), V({1}), V({1, 2}), V({1, 0})};
    for (int a = 0; a < 7; a++)
      for (int b = 0; b < 7; b++) {
        std::vector<V> rs = RK[a] < 0 ? std::vector<V>{V()} : most ? sb::big(sb::Kind(RK[a]), r, most) : sb::few(sb::Kind(RK[a]), r);
        std::vector<V> cs = RK[b] < 0 ? std::vector<V>{V()} : most ? sb::big(sb::Kind(RK[b]), c, most) : sb::few(sb::Kind(RK[b]), c);
        for (auto &rv : rs)
          for (auto &cv : cs) {
            std::size_t k = cnt(RK[a], rv, r) * cnt(RK[b], cv, c);
            for (auto &st : AL[a * 7 + b])
              for (int d = -1; d <= 1; d++) {
                if (long(k) + d < 1)
                  continue;
                bool useY = strstr(st.text, "w.y +") || strstr(st.text, "= w.y") || strstr(st.text, "(w.y)"), useZ = strstr(st.text, "w.z");
                if (d != 0 && ((!useY && !useZ) || huge))
                  continue;
                std::vector<std::pair<int, V>> vals;
                if (RK[a] >= 0)
                  vals.push_back({RK[a], rv});
                if (RK[b] >= 0)
                  vals.push_back({RK[b] + 5, cv});
                if (useY)
                  vals.push_back({10, sb::seq(k + d, 10.5)});
                if (useZ)
                  vals.push_back({11, sb::seq(k + d, 20, 1)});
                oneStmt(in, vals, st);
              }
          }
      }
  }
}
#endif
WORLD_MAIN

// C10: at(). PART 0 = one position, 1 = row and column
#include "subs.hpp"
using namespace wd;
#ifndef PART
#define PART 0
#endif
#define RD(E) ST(0, w.n = w.y + E), ST(0, w.n = w.coca(E, E)), ST(0, w.b = E)
#define WR(E) ST(0, E = 2.75), ST(0, E = -3), ST(0, E = true), ST(0, E = E)
#if PART == 0
#define VARS(IX) RD(at(w.a, IX)), WR(at(w.a, IX)), RD(at(w.i, IX)), WR(at(w.i, IX)), RD(at(w.l, IX)), WR(at(w.l, IX)), RD(at(w.p, IX)), WR(at(w.p, IX)), RD(at(w.m, IX)), WR(at(w.m, IX)), RD(at(w.q, IX)), WR(at(w.q, IX)), ST(0, at(w.a, IX) = at(w.p, 1)), ST(0, at(w.p, IX) = at(w.a, IX)), ST(0, at(w.a, IX) = at(w.a, IX) + 1.0)
static const std::vector<Stmt> S_I = {VARS(w.si)}, S_D = {VARS(w.sd)};
void explore() {
  std::size_t N = mc::C.thorough ? 12 : 6;
  std::vector<std::size_t> sizes;
#ifdef BIG
  sizes = sb::ladder(N + 1, 131073);
#else
  for (std::size_t n = 1; n <= N; n++)
    sizes.push_back(n);
#endif
  for (std::size_t n : sizes) {
    Init in{"", sb::seq(n + 1, 1).x, sb::mat(n, 1, 5).x, 1, n, sb::seq(n, 3), V({1}), sb::mat(n, 1, 9), V({1}), sb::seq(n, 3, 2), sb::seq(n, 1, 0)};
    for (auto &s : n > 65 ? sb::big(sb::SI, n) : sb::all(sb::SI, n + 1, 1, false))
      for (auto &st : S_I)
        oneStmt(in, {{0, s}, {10, sb::seq(2, 10.5)}}, st);
    for (auto &s : n > 65 ? sb::big(sb::SD, n) : sb::all(sb::SD, n + 1, 1, false))
      for (auto &st : S_D)
        if (std::fabs(s.x[0]) < 2147483647.0) // not an int: unspecified truncation
          oneStmt(in, {{1, s}, {10, sb::seq(2, 10.5)}}, st);
  }
  // an empty variable has no elements
  Init in{"", {1, 2}, {1, 2}, 1, 2, V(), V({1}), V(), V({1}), V(), V()};
  for (auto &st : S_I)
    for (double s : {-1, 0, 1, 2})
      oneStmt(in, {{0, V({s})}, {10, V({1})}}, st);
}
#else
#define SRCR(R, C) RD(at(w.m, R, C)), WR(at(w.m, R, C)), RD(at(w.q, R, C)), WR(at(w.q, R, C)), RD(at(w.m + 0.5, R, C)), RD(at(-w.q, R, C)), RD(at(w.matrix(w.coca(w.m), w.z + 0, w.y + 0.0), R, C)), RD(at(subset(w.m, true, true), R, C)), RD(at(w.a, R, C)), WR(at(w.a, R, C)), RD(at(w.a * 2.0, R, C)), ST(0, at(w.m, R, C) = at(w.q, R, C)), ST(0, at(w.q, R, C) = at(w.m, R, C) * 2.0), ST(0, at(w.m, R, C) = at(w.m + w.m, R, C)), RD(at(w.m > 2.0, R, C)), RD(at(w.m * w.m, R, C))
static const std::vector<Stmt> II = {SRCR(w.si, w.ti)}, ID = {SRCR(w.si, w.td)}, DI = {SRCR(w.sd, w.ti)}, DD = {SRCR(w.sd, w.td)};
void explore() {
  int N = mc::C.thorough ? 4 : 3;
  std::vector<std::pair<int, int>> dims;
#ifdef BIG
  dims = sb::shapes();
#else
  for (int r = 1; r <= N; r++)
    for (int c = 1; c <= N; c++)
      dims.push_back({r, c});
#endif
  for (auto [r, c] : dims) {
    {
      Init in{"", sb::seq(2, 1).x, sb::mat(r, c, 1).x, std::size_t(r), std::size_t(c), sb::seq(r * c, 3), V({1}), sb::mat(r, c, 11), V({1}), V({1, 2}), V({1, 0})};
      auto go = [&](const std::vector<Stmt> &al, int k1, int k2, const std::vector<double> &R, const std::vector<double> &C) {
        for (double x : R)
          for (double y : C)
            for (auto &st : al) {
              if (r * c > 300 && !mc::C.thorough && (strncmp(st.text, "w.b = at(w.", 11) || !strncmp(st.text, "w.b = at(w.matrix", 17)) && strncmp(st.text, "at(w.", 5))
                continue;
              oneStmt(in, {{k1, V({x})}, {k2, V({y})}, {11, V({double(r)})}, {10, V({double(c)})}}, st);
            }
      };
      auto ints = [](int n) {
        std::vector<double> v;
#ifdef BIG
        for (int i : std::set<int>{0, 1, 2, (n + 1) / 2, n - 1, n, n + 1})
          v.push_back(i);
        return v;
#endif
        for (int i = -1; i <= n + 1; i++)
          v.push_back(i);
        v.push_back(2147483647.0);
        v.push_back(-2147483648.0);
        return v;
      };
      auto dbls = [](int n) {
        std::vector<double> v = {-1.5, 0.0, 0.5, 0.999, std::nextafter(1.0, 0.0)};
#ifdef BIG
        return std::vector<double>{1.5, n + 0.25, n + 1.0, double((n + 1) / 2), std::nextafter(n + 1.0, 0.0)};
#endif
        for (int i = 1; i <= n + 1; i++)
          v.push_back(i), v.push_back(i + 0.75), v.push_back(i + 1 - 1e-9);
        return v;
      };
      go(II, 0, 5, ints(r), ints(c));
      if (r * c > 2000 && !mc::C.thorough)
        continue;
      go(ID, 0, 6, ints(r), dbls(c));
      go(DI, 1, 5, dbls(r), ints(c));
      go(DD, 1, 6, dbls(r), dbls(c));
    }
  }
}
#endif
WORLD_MAIN

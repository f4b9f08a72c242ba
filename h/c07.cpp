// C07: reading selections of vectors. PART 0 = variables, PART 1 = other sources
// C08: PART 2.. = rows and columns
#include "subs.hpp"
using namespace wd;
#ifndef PART
#define PART 0
#endif
#if PART == 0
#define USE(E) ST(0, w.n = E), ST(0, w.n = E + w.y), ST(0, w.n = w.y - E), ST(0, w.n = -E), ST(0, w.l = E > 2.5), ST(0, w.n = sinus(E)), ST(0, w.n = subset(E, true)), ST(0, w.n = E * E), ST(0, w.i = E)
#define SRC(IX) {USE(subset(w.a, IX)), USE(subset(w.i, IX)), USE(subset(w.l, IX)), USE(subset(w.p, IX)), USE(subset(w.m, IX)), ST(0, w.n = w.a(IX)), ST(0, w.n = w.i(IX)), ST(0, w.l = w.l(IX)), ST(0, w.n = w.p(IX) + w.y), ST(0, w.n = w.m(IX)), COPY(w.a, IX), COPY(w.i, IX), COPY(w.p, IX)}
#define COPY(A, IX) ST(0, const auto s = subset(A, IX); auto t = s; w.n = t)
#else
#define USE(E) ST(0, w.n = E)
#define SRC(IX) {USE(subset(w.a + 0.5, IX)), USE(subset(-w.a, IX)), USE(subset(w.coca(w.a), IX)), USE(subset(subset(w.a, true), IX)), USE(subset(subset(w.a, w.i), IX)), USE(subset(w.a * (w.p - 1.0), IX)), USE(subset(w.matrix(w.coca(w.a), 1, length(w.a)), IX)), USE(subset(sinus(w.p), IX)), USE(subset(w.i + w.i, IX)), USE(subset(w.colon(1, length(w.a)), IX)), USE(subset(w.a > 2.0, IX))}
#endif
#if PART < 2
static const std::vector<Stmt> S_SI = SRC(w.si), S_SD = SRC(w.sd), S_XI = SRC(w.xi), S_XD = SRC(w.xd), S_XB = SRC(w.xb),
                               S_TR = SRC(true), S_FA = SRC(false), S_EXI = SRC(w.xi + 0), S_EXB = SRC(w.xd > 1.5), S_TMP = SRC(w.coca(w.xi)), S_SUB = SRC(subset(w.xi, true)), S_TMPD = SRC(w.coca(w.xd));
bool intProduct(const Stmt &st) { return strstr(st.text, "(w.i, ") && strstr(st.text, " * "); }
void atSize(std::size_t n, std::size_t N, std::size_t L) {
    const bool huge = n > 4097; // only the plain statements
    const std::size_t few = huge ? 2 : n > 130 ? 3 : 99;
    V rev;
    for (std::size_t i = 0; i < n; i++)
      rev.x.push_back(double(n - i));
    V lg;
    for (std::size_t i = 0; i < n; i++)
      lg.x.push_back(double(i % 2));
    Init in{"", sb::seq(n, 1).x, sb::seq(n, 2).x, 1, n, sb::seq(n, 3), V({1}), sb::mat(n, 1, 5), V({1}), rev, lg};
    auto go = [&](sb::Kind k, const std::vector<Stmt> &al, std::size_t maxLen) {
      for (auto &s : n > N ? sb::big(k, n, few) : sb::all(k, n, maxLen, false))
        for (auto &st : al) {
          if (huge && !mc::C.thorough && strncmp(st.text, "w.n = subset(", 13))
            continue;
          if (huge && intProduct(st)) // leaves the integers
            continue;
          oneStmt(in, {{int(k), s}, {10, sb::seq(2, 10.5)}}, st);
          if (mc::C.thorough && strstr(st.text, "w.y"))
            oneStmt(in, {{int(k), s}, {10, sb::seq(5, 10.5)}}, st);
        }
    };
    go(sb::SI, S_SI, L);
    go(sb::SD, S_SD, L);
    go(sb::XI, S_XI, L);
    go(sb::XI, S_EXI, 2);
    go(sb::XI, S_TMP, 2);
    go(sb::XI, S_SUB, 2);
    go(sb::XD, S_XD, L);
    go(sb::XD, S_TMPD, 1);
    go(sb::XB, S_XB, L);
    for (auto &s : n > N ? sb::big(sb::XB, n, few) : sb::all(sb::XB, n, L, false)) {
      V x = s;
      for (auto &d : x.x)
        d += 1;
      for (auto &st : S_EXB)
        if (!huge || (!strncmp(st.text, "w.n = subset(", 13) && !intProduct(st)))
          oneStmt(in, {{3, x}, {10, sb::seq(2, 10.5)}}, st);
    }
    for (auto *al : {&S_TR, &S_FA})
      for (auto &st : *al)
        if (!huge || !intProduct(st))
          oneStmt(in, {{10, sb::seq(2, 10.5)}}, st);
}
void explore() {
  std::size_t N = mc::C.thorough ? 5 : 3, L = 3;
#ifndef BIG
  for (std::size_t n = 1; n <= N; n++)
    atSize(n, N, L);
#else
  for (auto n : sb::ladder(N + 1, mc::C.thorough ? 131073 : 65537))
    atSize(n, N, L);
#endif
}
#else
#if PART == 2
#define SRC(R, C) USE(subset(w.m, R, C)), USE(subset(w.q, R, C)), ST(0, w.n = w.m(R, C)), ST(0, w.n = w.q(R, C)), COPY(w.m, R, C), COPY(w.q, R, C)
#define COPY(M, R, C) ST(0, const auto s = subset(M, R, C); auto t = s; w.n = t)
#define USE(E) ST(0, w.n = E), ST(0, w.n = 1.0 + E * 2.0), ST(0, w.l = E > 2.0), ST(0, w.n = subset(E, true))
#else
#define SRC(R, C) USE(subset(w.m + 0.5, R, C)), USE(subset(w.matrix(w.coca(w.m), w.z + 0, w.y + 0.0), R, C)), USE(subset(-w.q, R, C)), USE(subset(subset(w.m, true, true), R, C)), USE(subset(w.a, R, C)), USE(subset(w.a + w.a, R, C)), USE(subset(w.m > 2.0, R, C))
#define USE(E) ST(0, w.n = E)
#endif
#define RC(R) {SRC(R, w.ti)}, {SRC(R, w.td)}, {SRC(R, w.yi)}, {SRC(R, w.yd)}, {SRC(R, w.yb)}, {SRC(R, true)}, {SRC(R, w.yi + 0)}, {SRC(R, w.yd > 1.5)}, {SRC(R, false)}
static const std::vector<std::vector<Stmt>> AL = {RC(w.si), RC(w.sd), RC(w.xi), RC(w.xd), RC(w.xb), RC(true), RC(w.coca(w.xi)), RC(w.xd > 1.5), RC(false)};
static const int RK[] = {0, 1, 2, 3, 4, -1, 2, 5, -1};
std::vector<V> vals(int k, std::size_t n, std::size_t most) {
  if (k < 0)
    return {V()};
  if (k < 5)
    return most ? sb::big(sb::Kind(k), n, most) : sb::few(sb::Kind(k), n);
  auto o = most ? sb::big(sb::XB, n, most) : sb::few(sb::XB, n);
  for (auto &v : o)
    for (auto &d : v.x)
      d += 1;
  return o;
}
void explore() {
  std::vector<std::pair<int, int>> dims = {{1, 1}, {2, 2}, {3, 2}, {1, 3}};
  if (mc::C.thorough)
    dims = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 2}, {2, 3}, {3, 3}, {1, 3}, {4, 2}, {3, 4}};
#ifdef BIG
  const std::size_t nsmall = 0;
  dims = sb::shapes();
#else
  const std::size_t nsmall = dims.size();
#endif
  for (std::size_t di = 0; di < dims.size(); di++) {
    auto [r, c] = dims[di];
    // number of subscripts of each kind; only the plain statements for large ones
    const std::size_t most = di < nsmall ? 0 : r * c < 40 ? 3 : r * c <= 2000 ? 2 : 1;
    const bool huge = r * c > 2000;
    Init in{"", sb::seq(2, 1).x, sb::mat(r, c, 1).x, std::size_t(r), std::size_t(c), sb::seq(r * c, 3), V({1}), sb::mat(r, c, 1), V({1}), V({1, 2}), V({1, 0})};
    for (int a = 0; a < 9; a++)
      for (int b = 0; b < 9; b++)
        for (auto &rv : vals(RK[a], r, most))
          for (auto &cv : vals(RK[b], c, most))
            for (auto &st : AL[a * 9 + b]) {
              if (huge && !mc::C.thorough && strncmp(st.text, "w.n = subset(w", 14))
                continue;
              std::vector<std::pair<int, V>> v;
              if (RK[a] >= 0)
                v.push_back({RK[a] == 5 ? 3 : RK[a], rv});
              if (RK[b] >= 0)
                v.push_back({RK[b] == 5 ? 8 : RK[b] + 5, cv});
              v.push_back({11, V({double(r)})});
              v.push_back({10, V({double(c)})});
              oneStmt(in, v, st);
            }
  }
}
#endif
WORLD_MAIN

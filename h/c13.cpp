// C13: generators. PART 0 = vector_*, rep, matrix sizes; 1 = colon; 2 = coca and data
#include "subs.hpp"
using namespace wd;
#ifndef PART
#define PART 0
#endif
static Init base(V a, V i, V l) {
  return Init{"", {1, 2, 3, 4, 5, 6}, {1, 2, 3, 4}, 2, 2, a, V({1}), V({1, 2, 3, 4}, 2, 2), V({7, 8, 9}), i, l};
}
#if PART == 0
// N: a size expression
#define VEC(N) ST(0, w.n = w.vector_numeric(N)), ST(0, w.i = w.vector_integer(N)), ST(0, w.l = w.vector_logical(N)), ST(0, w.n = w.vector_integer(N)), ST(0, w.p = w.vector_numeric(N)), ST(0, w.b = w.vector_numeric(N) + 1.5)
#define REP(N) ST(0, w.n = w.rep(w.a, N)), ST(0, w.n = w.rep(w.m, N)), ST(0, w.i = w.rep(w.i, N)), ST(0, w.l = w.rep(w.l, N)), ST(0, w.n = w.rep(w.p, N)), ST(0, w.a = w.rep(w.a, N)), ST(0, w.b = w.rep(w.a, N) + 1.0)
#define REPR(N) ST(0, w.n = w.rep(2.5, N)), ST(0, w.n = w.rep(true, N)), ST(0, w.n = w.rep(7, N)), ST(0, w.n = w.rep(-w.a, N)), ST(0, w.n = w.rep(w.coca(w.a, w.i), N)), ST(0, w.p = w.rep(w.coca(w.a), N))
#define MAT(R, C) ST(0, w.n = w.matrix(w.a + 0.0, R, C)), ST(0, w.n = w.matrix(0.5, R, C)), ST(0, w.i = w.matrix(3, R, C)), ST(0, w.n = w.matrix(w.coca(w.a), R, C)), ST(0, w.n = w.matrix(-w.a, R, C)), ST(0, w.n = w.matrix(true, R, C)), ST(0, w.n = w.matrix(w.coca(w.i), R, C)), ST(0, w.p = w.matrix(w.coca(w.a), R, C)), ST(0, w.n = w.matrix(w.coca(w.a), R, C) + 1.0), ST(0, w.m = w.matrix(w.m + 0.0, R, C))
static const std::vector<Stmt> V_SI = {VEC(w.si)}, V_SD = {VEC(w.sd)}, V_XI = {VEC(w.xi)}, V_XD = {VEC(w.xd)}, V_EX = {VEC(w.coca(w.xd))}, V_EI = {VEC(w.si + 0)}, V_EY = {VEC(w.coca(w.xi))}, V_ED = {VEC(w.sd + 0.0)},
                               R_SI = {REP(w.si)}, R_SD = {REP(w.sd)}, R_XI = {REP(w.xi)}, R_XD = {REP(w.xd)},
                               RR_SI = {REPR(w.si + 0)}, RR_SD = {REPR(w.sd + 0)}, RR_XI = {REPR(w.xi + 0)}, RR_XD = {REPR(w.coca(w.xd))},
                               M_II = {MAT(w.si + 0, w.ti + 0)}, M_DD = {MAT(w.sd + 0, w.td + 0)}, M_ID = {MAT(w.si + 0, w.td + 0)}, M_VI = {MAT(w.xi + 0, w.ti + 0)}, M_IV = {MAT(w.si + 0, w.yi + 0)}, M_VV = {MAT(w.coca(w.xd), w.yi + 0)};
void explore() {
  std::vector<double> I = {-2147483648.0, -2, -1, 0, 1, 2, 3, 4, 5, 7, 12, 33}, Dd = {-1e300, -1.5, -0.5, -0.0, 0, 0.5, 0.999, 1, 1.5, 1.999, 2, 3, 3.25, 4.75, 6, 16, 1e18, 4611686018427388928.0, 6148914691236517888.0, 9223372036854777856.0, 1e300, sb::NaN};
  for (std::size_t n = 1; n <= 4; n++) {
    Init in = base(sb::seq(n, 1.25), sb::seq(n, 3, 2), sb::seq(n, 1, 0));
    for (double s : I) {
      for (auto *al : {&V_SI, &V_EI, &R_SI, &RR_SI})
        for (auto &st : *al)
          oneStmt(in, {{0, V({s})}}, st);
      for (auto *al : {&V_XI, &V_EY, &R_XI, &RR_XI})
        for (auto &st : *al)
          oneStmt(in, {{2, V({s})}}, st);
    }
    for (double s : Dd) {
      for (auto *al : {&V_SD, &V_ED, &R_SD, &RR_SD})
        for (auto &st : *al)
          oneStmt(in, {{1, V({s})}}, st);
      for (auto *al : {&V_XD, &V_EX, &R_XD, &RR_XD})
        for (auto &st : *al)
          oneStmt(in, {{3, V({s})}}, st);
    }
    int lim = mc::C.thorough ? 8 : 4;
    for (int r = -1; r <= lim; r++)
      for (int c = -1; c <= lim; c++) {
        V R({double(r)}), C({double(c)});
        for (auto &st : M_II)
          oneStmt(in, {{0, R}, {5, C}}, st);
        for (auto &st : M_VI)
          oneStmt(in, {{2, R}, {5, C}}, st);
        for (auto &st : M_IV)
          oneStmt(in, {{0, R}, {7, C}}, st);
        // sizes that are vectors of several elements: the first one counts
        V R2({double(r), double(r + 2)}), C2({double(c), double(c + 3), double(c + 1)});
        for (auto &st : M_VI)
          oneStmt(in, {{2, R2}, {5, C}}, st);
        for (auto &st : M_IV)
          oneStmt(in, {{0, R}, {7, C2}}, st);
        for (auto &st : M_VV)
          oneStmt(in, {{3, R2}, {7, C2}}, st);
        for (double f : {0.0, 0.5, 0.999, 1 - 1e-9}) {
          V RD({r + f}), CD({c + (f == 0.5 ? 0.0 : f)});
          for (auto &st : M_DD)
            oneStmt(in, {{1, RD}, {6, CD}}, st);
          for (auto &st : M_ID)
            oneStmt(in, {{0, R}, {6, CD}}, st);
          for (auto &st : M_VV)
            oneStmt(in, {{3, RD}, {7, C}}, st);
        }
      }
    for (double s : {1e18, 1e300, sb::NaN})
      for (auto &st : M_DD) {
        oneStmt(in, {{1, V({s})}, {6, V({1})}}, st);
        oneStmt(in, {{1, V({1})}, {6, V({s})}}, st);
        oneStmt(in, {{1, V({s})}, {6, V({s})}}, st);
      }
  }
}
#elif PART == 1
#define COL(A, B) ST(0, w.n = w.colon(A, B)), ST(0, w.i = w.colon(A, B)), ST(0, w.b = w.colon(A, B) * 2.0), ST(0, w.p = w.colon(A, B))
#define FROM(A) {COL(A, w.ti)}, {COL(A, w.td)}, {COL(A, w.yi)}, {COL(A, w.yd)}, {COL(A, w.yd + 0.0)}, {COL(A, w.coca(w.yi))}
static const std::vector<std::vector<Stmt>> AL = {FROM(w.si), FROM(w.sd), FROM(w.xi), FROM(w.xd), FROM(w.xd + 0.0), FROM(w.coca(w.xi))};
static const int FK[] = {0, 1, 2, 3, 3, 2}, TK[] = {5, 6, 7, 8, 8, 7};
void explore() {
  std::vector<double> I = {-3, -2, -1, 0, 1, 2, 3, 5}, Dd = {-2.5, -1, -0.5, -0.1, 0, 0.1, 0.5, 0.9, 1, 1.1, 2, 2.3, 3, 5, 5.1};
  if (mc::C.thorough) {
    for (double d : {-17.0, 12.0, 40.0})
      I.push_back(d);
    for (double d : {-7.7, 12.2, 40.1, 1e9 + 0.5, 1e9 + 7})
      Dd.push_back(d);
  }
  Init in = base(V({1}), V({1}), V({1}));
  for (int f = 0; f < 6; f++)
    for (int t = 0; t < 6; t++)
      for (double x : (f == 0 || f == 2 || f == 5) ? I : Dd)
        for (double y : (t == 0 || t == 2 || t == 5) ? I : Dd)
          if (std::fabs(x - y) < 1000)
            for (auto &st : AL[f * 6 + t])
              oneStmt(in, {{FK[f], V({x})}, {TK[t], V({y})}}, st);
  // ends of the int range, long sequences
  for (auto [x, y] : std::vector<std::pair<double, double>>{{2147483645.0, 2147483647.0}, {2147483647.0, 2147483644.0}, {-2147483648.0, -2147483646.0}, {-2147483645.0, -2147483648.0}, {2147483647.0, 2147483647.0}, {1, 40}, {40, -3}})
    for (int f : {0, 2, 5})
      for (int t : {0, 2, 5})
        for (auto &st : AL[f * 6 + t])
          oneStmt(in, {{FK[f], V({x})}, {TK[t], V({y})}}, st);
}
#else
#define TGT(E) ST(0, w.n = E), ST(0, w.i = E), ST(0, w.l = E), ST(0, w.p = E), ST(0, w.a = E), ST(0, w.b = E + 0.5)
static const std::vector<Stmt> AL = {
    TGT(w.coca(w.a)), TGT(w.coca(w.a, w.i)), TGT(w.coca(w.i, w.a)), TGT(w.coca(w.l, w.i)), TGT(w.coca(w.l, w.l)), TGT(w.coca(w.i, 2.5)), TGT(w.coca(2, w.i)), TGT(w.coca(true, w.a)), TGT(w.coca(w.a, false)),
    TGT(w.coca(w.p, w.a)), TGT(w.coca(w.m, w.a)), TGT(w.coca(w.a, w.m)), TGT(w.coca(w.q)), TGT(w.coca(w.a, w.a, w.a)), TGT(w.coca(w.a, 1.5, w.i, true, 3)), TGT(w.coca(1, 2, 3, 4)), TGT(w.coca(1.5, 2, false)), TGT(w.coca(w.coca(w.a, 1), w.i)),
    TGT(w.coca(w.rep(w.i, 2), w.a)), TGT(w.coca(w.colon(1, 3), w.a)), TGT(w.coca(w.i, w.l, w.a)), TGT(w.coca(w.a, w.l, w.i)), TGT(w.coca(w.l, w.a, w.l, w.i)), TGT(w.coca(w.n, w.n)),
};
void explore() {
  std::size_t N = mc::C.thorough ? 5 : 3;
  for (std::size_t na = 1; na <= N; na++)
    for (std::size_t ni = 1; ni <= N; ni++)
      for (std::size_t nl = 1; nl <= N; nl++) {
        V l;
        for (std::size_t k = 0; k < nl; k++)
          l.x.push_back(double((k + nl) % 2));
        for (auto &st : AL)
          for (double s : {1.75, -2.25})
            oneStmt(base(sb::seq(na, s), sb::seq(ni, s > 0 ? 3 : -3, 2), l), {}, st);
      }
}
#endif
WORLD_MAIN

// C03: shapes. PART 0/1/2 = all binary operators x operand kinds x shapes,
// 3 = unary operations and functions, nested expressions, assignments
#include "ev.hpp"
using namespace ev;
#ifndef PART
#define PART 0
#endif
struct Shape {
  std::size_t n, r, c; // r == 0: a vector of n
};
std::vector<Shape> shapes(bool mat, bool big) {
  std::vector<Shape> s;
  for (std::size_t n : {1, 2, 3, 4, 6, 9})
    if (big || n < 9)
      s.push_back({n, 0, 0});
  if (mat)
    for (std::size_t r = 1; r <= 3; r++)
      for (std::size_t c = 1; c <= 3; c++)
        s.push_back({r * c, r, c});
  if (mat && big && mc::C.thorough)
    for (auto [r, c] : {std::pair<int, int>{1, 4}, {4, 1}, {2, 4}, {4, 2}, {1, 6}, {6, 1}})
      s.push_back({std::size_t(r * c), std::size_t(r), std::size_t(c)});
  return s;
}
V mk(const Shape &s, double st) {
  V v;
  for (std::size_t i = 0; i < s.n; i++)
    v.x.push_back(st + double(i));
  if (s.r)
    v.m = true, v.r = s.r, v.c = s.c;
  return v;
}
// selection of a matrix by rows and columns: a matrix-shaped operand kind
constexpr int SM = 100;
template <int k> struct OpdX : Opd<k> {
  using Opd<k>::Opd;
};
template <> struct OpdX<SM> {
  V m, base;
  Vec<double> v;
  Vec<int> ri, ci;
  OpdX(const V &m_) : m(m_) { // m embedded into a bigger matrix
    base.m = true, base.r = m.r + 1, base.c = m.c + 1;
    base.x.assign((m.r + 1) * (m.c + 1), -9.0);
    V a, b;
    for (std::size_t j = 0; j < m.c; j++)
      for (std::size_t i = 0; i < m.r; i++)
        base.x[(j + 1) * base.r + i] = m.x[j * m.r + i];
    for (std::size_t i = 0; i < m.r; i++)
      a.x.push_back(double(i + 1));
    for (std::size_t j = 0; j < m.c; j++)
      b.x.push_back(double(j + 2));
    put(v, base);
    put(ri, a);
    put(ci, b);
  }
  auto get() { return subset(v, ri, ci); }
  void done() { expect(obs(v), base, "operand changed"); }
};
const char *nm(int k) { return k == SM ? "subset(matrix)" : name(k); }
template <int k> constexpr bool canM = k == SM || canMatrix(k);
template <int k> V fitX(V m) {
  if constexpr (k == SM)
    return m;
  else
    return fit<k>(m);
}
#if PART < 3
template <class Op, int L, int R> void pair1(const V &a0, const V &b0) {
  V a = fitX<L>(a0), b = fitX<R>(b0);
  mc::run([&] { return std::string(nm(L)) + " " + Op::n + " " + nm(R) + " : " + str(a) + " " + Op::n + " " + str(b); },
          [&] {
            bool bad;
            V want = refBin<Op>(a, b, bad);
            OpdX<L> l(a);
            OpdX<R> r(b);
            auto &&lo = l.get();
            auto &&ro = r.get();
            evaluate([&] { return Op::ap(lo, ro); }, want, bad, BORROW);
            l.done();
            r.done();
            mc::count(bad ? "non-conformable" : want.m ? "matrix results" : "vector results");
          });
}
template <class Op, int L, int R> void pairs() {
  if constexpr (!((L != SM && isScalar(L)) && (R != SM && isScalar(R))) && (canM<L> || canM<R>)) {
    bool big = (L == VD && R == VD) || mc::C.thorough;
    for (auto &a : shapes(canM<L>, big))
      for (auto &b : shapes(canM<R>, big)) {
        if (!a.r && !b.r)
          continue;
        if (L == SM && !a.r || R == SM && !b.r)
          continue;
        if (L != SM && isScalar(L) && a.n > 1 || R != SM && isScalar(R) && b.n > 1)
          continue;
        pair1<Op, L, R>(mk(a, 2), mk(b, 1));
      }
  }
}
template <class Op> void forOp() {
  auto side = [](auto kl) {
    constexpr int L = decltype(kl)::value;
    forK<NKINDS>([&](auto kr) { pairs<Op, L, decltype(kr)::value>(); });
    pairs<Op, L, SM>();
  };
  forK<NKINDS>(side);
  side(std::integral_constant<int, SM>{});
}
// all operators for the most important kinds
template <class Op> void forOpFew() {
  auto all = [](auto... k) {
    auto in = [](auto l, auto... r) { (pairs<Op, decltype(l)::value, decltype(r)::value>(), ...); };
    (in(k, std::integral_constant<int, VD>{}, std::integral_constant<int, SD>{}, std::integral_constant<int, BO>{}, std::integral_constant<int, EB>{}, std::integral_constant<int, SVD>{}), ...);
  };
  all(std::integral_constant<int, VD>{}, std::integral_constant<int, SD>{}, std::integral_constant<int, BO>{}, std::integral_constant<int, EB>{}, std::integral_constant<int, SVD>{});
}
void explore() {
#if PART == 0
  forOp<Sub>();
#elif PART == 1
  forOp<Lt>();
#else
  forOps([](auto o) { forOpFew<decltype(o)>(); });
  forCmp([](auto o) { forOpFew<decltype(o)>(); });
#endif
}
#else
template <class Mk> void cs(const std::string &d, const V &want, bool bad, Mk mkx) {
  mc::run([&] { return d; }, [&] { mkx(want, bad); });
}
V mapd(V v, double (*f)(double)) {
  for (auto &x : v.x)
    x = f(x);
  return v;
}
template <int K> void unary() {
  if constexpr (canM<K>)
    for (auto &s : shapes(true, true)) {
      if (K == SM && !s.r)
        continue;
      V a = fitX<K>(mk(s, 0));
      for (auto &x : a.x)
        x = std::fmod(x, 2);
#define U(F, REF)                                                              \
  mc::run([&] { return std::string(#F) + " of " + nm(K) + " " + str(a); },     \
          [&] {                                                                \
            OpdX<K> o(a);                                                      \
            auto &&e = o.get();                                                \
            evaluate<false>([&] { return F(e); }, mapd(a, [](double d) -> double { return REF(d); }), false, ALL); \
            o.done();                                                          \
          });
      U(-, -)
      U(sinus, std::sin)
      U(asinus, std::asin)
      U(sinush, std::sinh)
      U(cosinus, std::cos)
      U(acosinus, std::acos)
      U(cosinush, std::cosh)
      U(tangens, std::tan)
      U(atangens, std::atan)
      U(tangensh, std::tanh)
      U(exp, std::exp)
      U(ln, std::log)
      U(sqroot, std::sqrt)
    }
}
// nested: ((a o b) p c), (a p (b o c)), -(a o b), f(a) o b
V op2(const V &a, const V &b, double (*f)(double, double), bool &bad) {
  V r;
  std::size_t n = std::max(a.n(), b.n());
  for (std::size_t i = 0; i < n; i++)
    r.x.push_back(f(a.x[i % a.n()], b.x[i % b.n()]));
  bool bb;
  r = shapeOf2(a, b, r, bb);
  bad = bb; // judged where the result is stored
  return r;
}
double add(double a, double b) { return a + b; }
double mul(double a, double b) { return a * b; }
double lt(double a, double b) { return a < b; }
void nested() {
  auto sh = shapes(true, false);
  if (!mc::C.thorough) {
    std::vector<Shape> k;
    for (auto &s : sh)
      if (s.n != 3 && s.r != 3 && s.c != 3 || s.r == 2 && s.c == 3 || s.r == 3 && s.c == 2)
        k.push_back(s);
    sh = k;
  }
  for (auto &s1 : sh)
    for (auto &s2 : sh)
      for (auto &s3 : sh) {
        V a = mk(s1, 1), b = mk(s2, 2), c = mk(s3, 3);
        auto go = [&](const char *t, auto mkx, V want, bool bad) {
          mc::run([&] { return std::string(t) + " with a=" + str(a) + " b=" + str(b) + " c=" + str(c); },
                  [&] {
                    Vec<double> av, cv;
                    put(av, a);
                    put(cv, c);
                    Guarded g(b.x);
                    ::BorrowPtr bp = b.m ? ::BorrowPtr(g.p(), b.r, b.c) : ::BorrowPtr(g.p(), b.n());
                    Vec<double> y, z;
                    put(y, V({9, 8, 7}));
                    put(z, V({1, 2, 3, 4}, 2, 2));
                    V old;
                    old.x.assign(want.n(), -3.5);
                    Guarded tg(old.x);
                    ::BorrowPtr t(tg.p(), want.n());
                    Vec<int> ti;
                    auto chk = [&](auto &tgt, const char *nm2) {
                      Ob o;
                      V before = obs(tgt);
                      guard(o, [&] { mkx(tgt, av, bp, cv); });
                      o.v = obs(tgt);
                      ev::one(o, std::is_same_v<std::remove_cvref_t<decltype(tgt)>, Vec<int>> ? convTo(want, I) : want, bad, before, nm2);
                      ++mc::C.transitions;
                    };
                    chk(y, "assigned to a vector");
                    chk(z, "assigned to a matrix");
                    chk(t, "assigned to a borrowing variable");
                    chk(ti, "assigned to an integer variable");
                    tg.checkGuards();
                    mc::state(bad ? 99 : hash(want));
                    if (!bad) // the target is an operand
                      chk(av, "assigned to the operand");
                  });
        };
        bool bad = false;
        V w = op2(op2(a, b, add, bad), c, mul, bad);
        go("(a+b)*c", [](auto &t, auto &a, auto &b, auto &c) { t = (a + b) * c; }, w, bad);
        bad = false;
        w = op2(a, op2(b, c, add, bad), mul, bad);
        go("a*(b+c)", [](auto &t, auto &a, auto &b, auto &c) { t = a * (b + c); }, w, bad);
        bad = false;
        w = op2(shifted(op2(a, b, add, bad), 0, -1), c, lt, bad);
        go("-(a+b)<c", [](auto &t, auto &a, auto &b, auto &c) { t = -(a + b) < c; }, w, bad);
        bad = false;
        w = op2(mapd(a, std::sin), op2(b, c, mul, bad), add, bad);
        go("sinus(a)+b*c", [](auto &t, auto &a, auto &b, auto &c) { t = sinus(a) + b * c; }, w, bad);
      }
}
// a new variable of each element type constructed from a value of each kind and shape
template <class T> V cv(const V &v) { return convTo(v, std::is_same_v<T, int> ? I : std::is_same_v<T, bool> ? B : D); }
template <class S> Vec<S> mkv(const V &v) {
  Vec<S> x;
  put(x, v);
  return x;
}
template <class T, class S> void construct(const V &a0, const char *tn, const char *sn) {
  V a = cv<S>(a0);
  Vec<S> av;
  put(av, a);
  std::size_t r = a.r, c = a.c;
  using namespace etr;
  auto go = [&](const char *t, auto mkx, V want) {
    mc::run([&] { return std::string("Vec<") + tn + "> constructed from " + t + " with Vec<" + sn + "> a=" + str(a); },
            [&] {
              long l0 = mc::A.live;
              {
                Ob o;
                guard(o, [&] {
                  mc::Track tr;
                  mkx(o);
                });
                ev::one(o, cv<T>(want), false, V(), "constructed variable");
              }
              if (mc::A.live < l0)
                mc::fail("memory freed");
              ++mc::C.transitions;
              mc::state(mc::hmix(hash(want), sizeof(T) * 8 + sizeof(S)));
            });
  };
#define CON(want, ...) go(#__VA_ARGS__, [&](Ob &o) { Vec<T> x = __VA_ARGS__; o.v = obs(x); }, want);
#define COND(want, ...) go(#__VA_ARGS__, [&](Ob &o) { Vec<T> x(__VA_ARGS__); o.v = obs(x); }, want);
  if constexpr (std::is_same_v<S, T>) {
    CON(a, av)
    COND(a, av)
    COND(a, mkv<S>(a))
  }
  CON(a, mkv<S>(a))
  CON(a, std::move(av))
  put(av, a);
  if (a.m) {
    V f = a;
    for (auto &e : f.x)
      e = 1;
    CON(f, matrix(S(1), int(r), int(c)))
    CON(f, matrix(S(1), double(r), double(c)))
    if constexpr (std::is_same_v<S, T>)
      COND(f, matrix(S(1), int(r), int(c)))
  }
  V lin = a;
  lin.m = false;
  CON(lin, coca(av))
}
void constructed() {
  for (auto &s : shapes(true, true)) {
    V a = mk(s, 1);
    auto all = [&](auto t, const char *tn) {
      using T = decltype(t);
      construct<T, double>(a, tn, "double");
      construct<T, int>(a, tn, "int");
      construct<T, bool>(a, tn, "bool");
    };
    all(double(), "double");
    all(int(), "int");
    all(bool(), "bool");
  }
}
void explore() {
  constructed();
  forK<NKINDS>([&](auto k) { unary<decltype(k)::value>(); });
  unary<SM>();
  nested();
}
#endif
int main(int c, char **v) {
  mc::init(c, v);
  std::cerr.rdbuf(nullptr);
  explore();
  return mc::finish();
}

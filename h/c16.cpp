// C16: elementary functions. PART = function, 12 = compositions
#include "ev.hpp"
using namespace ev;
#ifndef PART
#define PART 0
#endif
const double inf = std::numeric_limits<double>::infinity(), nan_ = std::numeric_limits<double>::quiet_NaN(), pi = 3.14159265358979323846;
const std::vector<double> VB_ = {0, 1}, VI_ = {-1000, -745, -37, -20, -3, -2, -1, 0, 1, 2, 3, 4, 8, 19, 20, 22, 37, 100, 709, 710, 1000000, 2147483647, -2147483647},
                          VD_ = {-inf, -1e300, -1e6, -750, -20, -pi, -2, -pi / 2, -1.0000001, -1, -0.9999, -0.5, -1e-9, -0.0, 0, 1e-300, 1e-9, 0.1, 0.25, 0.5, 0.75, 0.9999, 1, 1.0000001, 1.5, pi / 2, 2, pi, 4, 10, 20, 100, 709, 710, 750, 1e6, 1e300, inf, nan_, 1 + 1e-12, std::nextafter(1.0, 2.0), std::nextafter(-1.0, -2.0), std::nextafter(1.0, 0.0), -1e-12, 1e-5, -1e-5, 1e-3, -0.01, 0.05, 5e-324, -5e-324, 2.2250738585072014e-308, 1e-160, 8.5, -8.5, 17.25, 22.5, 36.7, 40, 354.9, 709.78, 709.79, -708.5, -745.1, -745.2, 1e8, 1e15, 1e22, -1e22, 1.7976931348623157e308, -1.7976931348623157e308};
const std::vector<double> &vals(Ty t) { return t == D ? VD_ : t == I ? VI_ : VB_; }
#define FUNS(X) X(0, sinus, std::sin) X(1, asinus, std::asin) X(2, sinush, std::sinh) X(3, cosinus, std::cos) X(4, acosinus, std::acos) X(5, cosinush, std::cosh) X(6, tangens, std::tan) X(7, atangens, std::atan) X(8, tangensh, std::tanh) X(9, exp, std::exp) X(10, ln, std::log) X(11, sqroot, std::sqrt)
template <int i> struct Fn;
#define DEF(i, f, ref)                                                         \
  template <> struct Fn<i> {                                                   \
    static constexpr const char *n = #f;                                       \
    template <class T> static auto ap(const T &t) { return etr::f(t); }        \
    static double r(double d) { return ref(d); }                               \
  };
FUNS(DEF)
V mapd(V v, double (*f)(double)) {
  for (auto &x : v.x)
    x = f(x);
  return v;
}
#if PART < 12
using F = Fn<PART>;
template <int K> void un(const V &a) {
  mc::run([&] { return std::string(F::n) + " of " + name(K) + " " + str(a); },
          [&] {
            V want = mapd(a, F::r);
            Opd<K> o(a);
            auto &&e = o.get();
            if constexpr (isScalar(K)) {
              double g = F::ap(e);
              if (!near(g, want.x[0]))
                fail("got " + std::to_string(g) + " expected " + str(want));
              mc::state(hash(want));
            } else {
              evaluate<false>([&] { return F::ap(e); }, want);
              // part of arithmetic
              Vec<double> y = coca(1.0, 2.0, 3.0, 4.0);
              y = F::ap(e) + 1.0;
              expect(obs(y), shifted(want, 1), "in a sum");
              y = 2.0 * F::ap(e) - F::ap(e);
              V w = want;
              for (auto &d : w.x)
                d = 2 * d - d;
              expect(obs(y), w, "in a difference");
            }
            o.done();
          });
}
void explore() {
  forK<NKINDS>([&](auto k) {
    constexpr int K = decltype(k)::value;
    if constexpr (K == SI_ || K == SB) // does not compile
      return;
    else {
      for (double x : vals(tyOf(K))) {
        if (K == EB && !(std::fabs(x) < 1e7 && std::floor(x * 8) == x * 8))
          continue;
        un<K>(V({x}));
        if (!isScalar(K))
          for (double y : vals(tyOf(K)))
            if (K != EB || (std::fabs(y) < 1e7 && std::floor(y * 8) == y * 8))
              if (mc::C.thorough || y == 1 || y == x)
                un<K>(fit<K>(V({y, x, 1, x})));
        if (canMatrix(K)) {
          V m = fit<K>(V({1, x, 0, x, x, 1}));
          m.m = true, m.r = 3, m.c = 2;
          un<K>(m);
        }
      }
    }
  });
}
#else
// f(g(x)) and f(x op y) over all pairs of functions
void explore() {
  forK<12>([&](auto i) {
    forK<12>([&](auto j) {
      using F = Fn<decltype(i)::value>;
      using G = Fn<decltype(j)::value>;
      for (std::size_t n = 1; n <= 3; n++)
        for (int kind = 0; kind < 3; kind++)
          mc::run([&] { return std::string(F::n) + "(" + G::n + "(x)), length " + std::to_string(n) + ", variable kind " + std::to_string(kind); },
                  [&] {
                    V a;
                    for (std::size_t k = 0; k < n; k++)
                      a.x.push_back(0.3 + 0.45 * double(k));
                    if (kind == 1)
                      for (auto &d : a.x)
                        d = std::ceil(d);
                    V want = mapd(mapd(a, G::r), F::r);
                    V w3;
                    for (double d : a.x)
                      w3.x.push_back(F::r(d * G::r(d) - 0.5));
                    V w2;
                    for (double d : a.x)
                      w2.x.push_back(F::r(d) / G::r(d));
                    Vec<double> y = coca(1.0, 2.0);
                    auto go = [&](auto &v) {
                      y = F::ap(G::ap(v));
                      expect(obs(y), want, "composition");
                      y = F::ap(v) / G::ap(v);
                      expect(obs(y), w2, "quotient");
                      y = F::ap(v * G::ap(v) - 0.5);
                      expect(obs(y), w3, "of an expression");
                      expect(obs(v), a, "argument changed");
                    };
                    if (kind == 0) {
                      Vec<double> v;
                      put(v, a);
                      go(v);
                    } else if (kind == 1) {
                      Vec<int> v;
                      put(v, a);
                      go(v);
                    } else {
                      Guarded g(a.x);
                      ::BorrowPtr v(g.p(), n);
                      go(v);
                      g.checkGuards();
                      // self-application
                      v = F::ap(G::ap(v));
                      expect(obs(v), want, "assigned to its argument");
                    }
                    mc::state(hash(want));
                    mc::C.transitions += 4;
                  });
    });
  });
}
#endif
int main(int c, char **v) {
  mc::init(c, v);
  std::cerr.rdbuf(nullptr);
  explore();
  return mc::finish();
}

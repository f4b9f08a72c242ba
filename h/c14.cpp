// C14: comparisons. PART 0..5 = operator, kinds x values x lengths; conditions
#include "ev.hpp"
using namespace ev;
#ifndef PART
#define PART 0
#endif
using OP = std::tuple_element_t<PART, std::tuple<Lt, Le, Gt, Ge, Eq, Ne>>;
const double inf = std::numeric_limits<double>::infinity(), nan_ = std::numeric_limits<double>::quiet_NaN();
const std::vector<double> VB_ = {0, 1}, VI_ = {-3, -1, 0, 1, 2, 3, 1000000, 16777217, 2147483647, -2147483647},
                          VD_ = {-3, -1.0005, -1, -0.9995, -0.002, -0.0009, -0.0, 0, 0.0009, 0.0011, 1, 1.0009, 1.0011, 1.5, 2, 3, 1e6, 1e6 + 0.0005, 1e6 + 0.002, 1e9, 1e9 + 0.0015, -1e9 - 0.0011, -1e9, 4e12, 4e12 + 0.5, 1e300, inf, -inf, nan_};
const std::vector<double> &vals(Ty t) { return t == D ? VD_ : t == I ? VI_ : VB_; }
// == and != of equal infinities and of a difference of exactly 0.001 are not specified; with NA every comparison is FALSE
bool unspec(const V &a, const V &b) {
  if (PART < 4)
    return false;
  std::size_t n = std::max(a.n(), b.n());
  for (std::size_t i = 0; i < n; i++) {
    double x = a.x[i % a.n()], y = b.x[i % b.n()];
    if ((std::isinf(x) && x == y) || std::fabs(std::fabs(x - y) - 1e-3) < 1e-9)
      return true;
  }
  return false;
}
template <int L, int R> void pair1(const V &a, const V &b) {
  mc::run([&] { return std::string(name(L)) + " " + OP::n + " " + name(R) + " : " + str(a) + " " + OP::n + " " + str(b); },
          [&] {
            if (unspec(a, b))
              return;
            bool bad;
            V want = refBin<OP>(a, b, bad);
            Opd<L> l(a);
            Opd<R> r(b);
            auto &&lo = l.get();
            auto &&ro = r.get();
            evaluate([&] { return OP::ap(lo, ro); }, want, bad);
            if (!bad) {
              // as condition: the first element
              bool got = bool(OP::ap(lo, ro));
              if (got != (want.x[0] != 0))
                fail("as a condition it is " + std::to_string(got) + ", expected " + str(want));
              bool br = false;
              if (OP::ap(lo, ro))
                br = true;
              if (br != (want.x[0] != 0))
                fail("if() took the wrong branch for " + str(want));
              Vec<bool> v = OP::ap(lo, ro);
              expect(obs(v), convTo(want, B), "stored in a logical variable");
              if (bool(v) != (want.x[0] != 0))
                fail("the logical variable as condition is wrong");
              // as subscript
              Vec<double> d;
              V dv;
              for (std::size_t i = 0; i < want.n(); i++)
                dv.x.push_back(double(i) + 0.5);
              put(d, dv);
              V sel;
              for (std::size_t i = 0; i < want.n(); i++)
                if (want.x[i] != 0)
                  sel.x.push_back(dv.x[i]);
              if (!sel.x.empty()) {
                Vec<double> s;
                s = subset(d, OP::ap(lo, ro));
                expect(obs(s), sel, "elements selected by the comparison");
              }
              // in arithmetic: TRUE counts 1
              Vec<double> s;
              s = OP::ap(lo, ro) + OP::ap(lo, ro);
              V w2 = shifted(want, 0, 2);
              expect(obs(s), w2, "sum of two comparisons");
              mc::C.transitions += 5;
            }
            l.done();
            r.done();
          });
}
void explore() {
  forK<NKINDS>([&](auto kl) {
    forK<NKINDS>([&](auto kr) {
      constexpr int L = decltype(kl)::value, R = decltype(kr)::value;
      if constexpr (!(isScalar(L) && isScalar(R))) {
        bool eb = L == EB || R == EB;
        for (double x : vals(tyOf(L)))
          for (double y : vals(tyOf(R))) {
            if (eb && !(std::fabs(x) < 1e5 && std::fabs(y) < 1e5 && std::floor(x * 2) == x * 2 && std::floor(y * 2) == y * 2))
              continue;
            pair1<L, R>(V({x}), V({y}));
          }
        std::size_t N = mc::C.thorough ? 6 : 4;
        for (std::size_t n = 1; n <= N; n++)
          for (std::size_t m = 1; m <= N; m++) {
            if ((isScalar(L) && n > 1) || (isScalar(R) && m > 1))
              continue;
            V a, b;
            for (std::size_t i = 0; i < n; i++)
              a.x.push_back(double((i * 2 + n) % 5));
            for (std::size_t i = 0; i < m; i++)
              b.x.push_back(double((i * 3 + 1) % 4));
            pair1<L, R>(fit<L>(a), fit<R>(b));
            if (canMatrix(L) && n == 4) {
              V q = fit<L>(a);
              q.m = true, q.r = 2, q.c = 2;
              pair1<L, R>(q, fit<R>(b));
            }
          }
      }
    });
  });
}
int main(int c, char **v) {
  mc::init(c, v);
  std::cerr.rdbuf(nullptr);
  explore();
  return mc::finish();
}

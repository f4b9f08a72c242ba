// C02: values do not depend on the storage type of the operands.
// PART 0..4 = operator, 5 = stores and conversions, 6 = coca
#include "ev.hpp"
#include <memory>
using namespace ev;
#ifndef PART
#define PART 0
#endif
const std::vector<double> VB_ = {0, 1}, VI_ = {-7, -3, -2, -1, 0, 1, 2, 3, 5, 100}, VD_ = {-2.5, -1, -0.5, 0, 0.25, 0.5, 1, 1.5, 2, 3, 1e6};
const std::vector<double> &vals(Ty t) { return t == D ? VD_ : t == I ? VI_ : VB_; }
#if PART < 5
using OP = std::tuple_element_t<PART, std::tuple<Add, Sub, Mul, Div, Pow>>;
template <int L, int R> void pair1(const V &a, const V &b) {
  mc::run([&] { return std::string(name(L)) + " " + OP::n + " " + name(R) + " : " + str(a) + " " + OP::n + " " + str(b); },
          [&] {
            bool bad;
            V want = refBin<OP>(a, b, bad);
            Opd<L> l(a);
            Opd<R> r(b);
            auto &&lo = l.get();
            auto &&ro = r.get();
            evaluate([&] { return OP::ap(lo, ro); }, want);
            l.done();
            r.done();
          });
}
void explore() {
  forK<NKINDS>([&](auto kl) {
    forK<NKINDS>([&](auto kr) {
      constexpr int L = decltype(kl)::value, R = decltype(kr)::value;
      constexpr bool okl = L != CV && L != BO && L != SVD && L != SBO && L != RD && L != EB, okr = R != CV && R != BO && R != SVD && R != SBO && R != RD && R != EB;
      if constexpr (okl && okr && !(isScalar(L) && isScalar(R))) {
        for (double x : vals(tyOf(L)))
          for (double y : vals(tyOf(R))) {
            pair1<L, R>(V({x}), V({y}));
            if constexpr (!isScalar(L) && !isScalar(R))
              pair1<L, R>(V({x, 1, x}), V({y, 1}));
          }
      }
    });
  });
}
#elif PART == 5
const double inf = std::numeric_limits<double>::infinity();
const std::vector<double> ST_ = {-2.999, -2.5, -2, -1.5, -1, -0.999, -0.5, -1e-9, -0.0, 0, 1e-300, 1e-9, 0.5, 0.999, 1, 1.0000001, 1.5, 1.999, 2, 3, 2147483646.0, 2147483646.9, -2147483647.5, 16777217.0};
const std::vector<double> ANY = {inf, -inf, 3e9, -3e9, std::numeric_limits<double>::quiet_NaN()};
// stores a value x held by operand kind K into all targets
template <int K> void store(double x0) {
  V x = fit<K>(V({x0}));
  V x3 = x;
  if constexpr (!isScalar(K))
    x3.x = {x.x[0], 1, x.x[0]};
  mc::run([&] { return std::string("store ") + name(K) + " " + str(x); },
          [&] {
            bool i = fitsInt(x);
            Opd<K> o(x3);
            auto &&e = o.get();
            Vec<double> d = coca(5.5, 6.5, 7.5, 8.5);
            d = e;
            expect(obs(d), x3, "assigned to double");
            Vec<bool> b;
            b = e;
            expect(obs(b), convTo(x3, B), "assigned to logical");
            if (i) {
              Vec<int> v;
              v = e;
              expect(obs(v), convTo(x3, I), "assigned to integer");
            }
            // through selections
            auto viaSub = [&](auto &t, Ty ty) {
              V base({3, 1, 0, 1, 2});
              base = convTo(base, ty);
              put(t, base);
              if constexpr (isScalar(K)) {
                subset(t, 2) = e;
                base.x[1] = conv(x.x[0], ty);
              } else {
                subset(t, coca(2, 5, 3)) = e;
                base.x[1] = conv(x3.x[0], ty);
                base.x[4] = conv(x3.x[1], ty);
                base.x[2] = conv(x3.x[2], ty);
              }
              expect(obs(t), base, "stored through a selection");
              base.x[3] = conv(x.x[0], ty);
              at(t, 4) = double(x.x[0]);
              expect(obs(t), base, "stored through at");
            };
            Vec<double> sd;
            Vec<int> si;
            Vec<bool> sb;
            viaSub(sd, D);
            viaSub(sb, B);
            if (i)
              viaSub(si, I);
            Guarded g(std::vector<double>(5, 2.5));
            ::BorrowPtr p(g.p(), 5);
            p = e;
            expect(obs(p), x3, "assigned to borrowed memory");
            g.checkGuards();
            o.done();
            mc::state(hash(x3) * 31 + K);
            mc::C.transitions += 10;
          });
}
template <class T> void chain(double x) { // double -> T -> double, and negation
  mc::run([&] { return std::string("chain ") + std::to_string(x) + (sizeof(T) == 1 ? " via logical" : " via integer"); },
          [&] {
            Ty t = Tyof<T>::t;
            Vec<double> a = coca(x, 1.0);
            Vec<T> b = coca(T(1), T(0), T(1));
            b = a;
            Vec<double> c, d;
            c = b;
            V w = convTo(V({x, 1.0}), t);
            expect(obs(c), w, "stored and read back");
            d = -b;
            expect(obs(d), shifted(w, 0, -1), "negated");
            d = b + b;
            expect(obs(d), shifted(w, 0, 2), "doubled");
            d = sinus(b);
            V s = w;
            for (auto &q : s.x)
              q = std::sin(q);
            expect(obs(d), s, "sinus");
            d = sqroot(b * b);
            for (std::size_t k = 0; k < 2; k++)
              s.x[k] = std::fabs(w.x[k]);
            expect(obs(d), s, "sqroot of the square");
            mc::C.transitions += 6;
            mc::state(hash(w));
          });
}
void explore() {
  forK<NKINDS>([&](auto k) {
    for (double x : ST_)
      if (decltype(k)::value != EB || std::fabs(x) < 1e6)
        if (decltype(k)::value != EB || std::floor(x * 2) == x * 2)
          store<decltype(k)::value>(x);
    if (tyOf(decltype(k)::value) == D && decltype(k)::value != EB)
      for (double x : ANY)
        store<decltype(k)::value>(x);
  });
  for (double x : ST_)
    if (std::fabs(x) < 1000)
      chain<int>(x);
  for (double x : ST_)
    chain<bool>(x);
}
#else
// coca keeps every value: all argument lists of 1..3 kinds
V val(int k, int arg) {
  static const double d[3] = {1.25, -2.5, 0.75}, i[3] = {-3, 2, 7}, b[3] = {1, 0, 1};
  Ty t = tyOf(k);
  V v({t == D ? d[arg] : t == I ? i[arg] : b[arg]});
  if (!isScalar(k))
    v.x.push_back(t == D ? 9.5 + arg : t == I ? 20 + arg : double(arg == 1));
  v.t = t;
  return v;
}
template <int... K> void cc() {
  mc::run(
      [&] {
        std::string s = "coca(";
        ((s += std::string(name(K)) + " "), ...);
        return s + ")";
      },
      [&] {
        int a = 0;
        V want;
        std::tuple<std::unique_ptr<Opd<K>>...> ops{std::unique_ptr<Opd<K>>(new Opd<K>(val(K, a++)))...};
        a = 0;
        ((want.x.append(val(K, a++).x)), ...);
        std::apply(
            [&](auto &...o) {
              auto f = [&](auto &&...e) {
                auto r = coca(e...);
                if (r.size() != want.n())
                  fail("length " + std::to_string(r.size()) + " expected " + str(want));
                for (std::size_t k = 0; k < want.n(); k++)
                  if (!near(double(r[k]), want.x[k]))
                    fail("element " + std::to_string(k) + " is " + std::to_string(double(r[k])) + " expected " + str(want));
                Vec<double> x = coca(e...);
                expect(obs(x), want, "constructed");
                x = coca(e...);
                expect(obs(x), want, "assigned");
                x = coca(e...) + 0.5;
                expect(obs(x), shifted(want, 0.5), "in arithmetic");
              };
              f(o->get()...);
              (o->done(), ...);
            },
            ops);
        mc::state(hash(want));
        mc::C.transitions += 4;
      });
}
template <int k> constexpr bool ok = k == VD || k == VI || k == VB || k == SD || k == SI_ || k == SB || k == RD || k == RI || k == BO;
void explore() {
  forK<NKINDS>([&](auto k1) {
    if constexpr (ok<decltype(k1)::value>) {
      cc<decltype(k1)::value>();
      forK<NKINDS>([&](auto k2) {
        if constexpr (ok<decltype(k2)::value>) {
          cc<decltype(k1)::value, decltype(k2)::value>();
          forK<NKINDS>([&](auto k3) {
            if constexpr (ok<decltype(k3)::value> && (decltype(k3)::value == VD || decltype(k3)::value == VI || decltype(k3)::value == VB || decltype(k3)::value == SB))
              cc<decltype(k1)::value, decltype(k2)::value, decltype(k3)::value>();
          });
        }
      });
    }
  });
}
#endif
int main(int c, char **v) {
  mc::init(c, v);
  std::cerr.rdbuf(nullptr);
  explore();
  return mc::finish();
}

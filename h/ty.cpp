// Scalars of every C++ arithmetic type. PART = number of the property. For every
// statement and every value the outcome with a scalar of type K (values, dimensions,
// rejection, content of all variables) has to be the outcome with the same value as
// a double, which the other units of the property compare with the model.
#define STANDALONE_ETR
#include "etr.hpp"
#include "mc.hpp"
#ifndef PART
#define PART 1
#endif
using namespace etr;
using mc::fail;
struct W {
  double gp[4] = {1.25, -2, 3, 0.75}, gq[4] = {4, 3, 2, 1};
  Vec<double> a, e, n, x5, y5;
  Vec<int> i;
  Vec<bool> l;
  Vec<double> m, r;
  Vec<double, Borrow<double>> p, q;
  W() : p(gp, 4), q(gq, 2, 2) {
    a = coca(1.5, -2.0, 3.0, 4.5);
    n = coca(9.0);
    x5 = coca(-1.0, 0.5, 1.0, 2.0, 4.0);
    y5 = coca(2.0, 1.0, 5.0, -3.0, 0.5);
    i = coca(1, 2, 3);
    l = coca(true, false);
    m = matrix(coca(1.0, 2.5, -3.0, 4.0, 5.0, 0.25), 2, 3);
  }
};
struct O {
  bool thrown = false;
  std::vector<double> v;
  template <class T> void put(const T &x) {
    v.push_back(double(x.size()));
    v.push_back(x.im());
    if (x.im()) {
      v.push_back(double(x.nr()));
      v.push_back(double(x.nc()));
    }
    for (std::size_t k = 0; k < x.size(); k++)
      v.push_back(double(x[k]));
  }
  void take(W &w) {
    if (w.r.d.allocated)
      put(w.r);
    put(w.a), put(w.n), put(w.i), put(w.l), put(w.m), put(w.p), put(w.q);
  }
};
static std::string show(const O &o) {
  if (o.thrown)
    return "an exception";
  std::string s;
  for (double d : o.v)
    s += std::to_string(d) + " ";
  return s;
}
template <class K, class F> O exec(K k, F f) {
  W w;
  O o;
  try {
    f(w, k);
  } catch (std::exception &) {
    o.thrown = true;
  }
  o.take(w);
  return o;
}
// flag 1: an integer vector takes part in arithmetic or comparison (unsigned scalars follow C++ rules there: not covered)
// flag 2: integral scalars only; 4: the double form is given separately
template <class K, class F> void one(const char *n, const char *kn, K k, int flag, F f) {
  if ((flag & 1) && std::is_unsigned_v<K> && sizeof(K) >= sizeof(int))
    return;
  mc::run([&] { return std::string(n) + " with k = " + kn + " " + std::to_string(k); },
          [&] {
            O got = exec(k, f), want = exec(double(k), f);
            ++mc::C.transitions;
            if (got.thrown != want.thrown)
              fail("got " + show(got) + ", with a double of that value " + show(want));
            bool same = got.v.size() == want.v.size();
            for (std::size_t j = 0; same && j < got.v.size(); j++)
              same = got.v[j] == want.v[j] || (got.v[j] != got.v[j] && want.v[j] != want.v[j]) || std::fabs(got.v[j] - want.v[j]) <= 1e-6 * std::fabs(want.v[j]);
            if (!same)
              fail("got " + show(got) + ", with a double of that value " + show(want));
            std::uint64_t h = 1;
            for (double d : got.v)
              h = mc::hmix(h, mc::hd(d));
            mc::state(mc::hmix(h, std::hash<std::string>()(n)));
          });
}
#define E(F, ...) one(#__VA_ARGS__, kn, k, F, [](W &w, auto k) { __VA_ARGS__; })
template <class K> void all(const char *kn, K k) {
#if PART == 1
#define OP(OPR)                                                                                                              \
  E(0, w.r = w.a OPR k), E(0, w.r = k OPR w.a), E(1, w.r = w.i OPR k), E(1, w.r = k OPR w.i), E(0, w.r = w.m OPR k),          \
      E(0, w.r = k OPR w.m), E(0, w.r = w.p OPR k), E(0, w.r = k OPR w.q), E(0, w.r = (w.a OPR k) OPR w.m),                   \
      E(0, w.r = w.a OPR(k OPR w.m)), E(0, w.p = w.a OPR k), E(0, w.r = (k OPR w.a) - (w.a OPR k)),                          \
      E(0, w.r = subset(w.a, 2) OPR k), E(0, w.r = k OPR subset(w.p, w.i)), E(0, w.r = k OPR exp(w.a)), E(0, w.r = -(w.a OPR k)), \
      E(0, subset(w.a, 2) = k OPR w.n), E(0, w.n = k OPR w.n)
  OP(+);
  OP(-);
  OP(*);
  OP(/);
  OP(^);
#elif PART == 14
#define CMP(OPR)                                                                                                             \
  E(0, w.r = w.a OPR k), E(0, w.r = k OPR w.a), E(1, w.r = w.i OPR k), E(1, w.r = k OPR w.i), E(0, w.r = w.m OPR k),          \
      E(0, w.r = k OPR w.q), E(0, w.r = (w.a + k)OPR k), E(0, w.r = (w.a OPR k) + w.a), E(0, w.l = w.p OPR k),                \
      E(0, w.r = subset(w.a, w.a OPR k)), E(0, if (w.a OPR k) w.n = 1.0;), E(0, while (k OPR w.n) { w.n = 2.0; break; })
  CMP(<);
  CMP(<=);
  CMP(>);
  CMP(>=);
  CMP(==);
  CMP(!=);
#elif PART == 7
#define SUB(S) E(0, w.r = subset(S, k)), E(0, w.r = subset(S, k) + w.a), E(0, w.n = subset(S, k)), E(0, w.r = exp(subset(S, k)))
  SUB(w.a);
  SUB(w.i);
  SUB(w.l);
  SUB(w.p);
  SUB(w.m);
  SUB(w.a + 0.5);
  SUB(coca(w.a, w.a));
  SUB(subset(w.a, w.i));
#elif PART == 9
#define WR(S) E(0, subset(S, k) = 7.0), E(0, subset(S, k) = w.n), E(0, subset(S, k) = w.a), E(0, subset(S, k) = subset(w.a, k) + 1.0)
  WR(w.a);
  WR(w.i);
  WR(w.l);
  WR(w.p);
  WR(w.m);
  E(0, subset(w.a, 2) = k), E(0, subset(w.a, true) = k), E(0, subset(w.i, coca(1, 2)) = k), E(0, subset(w.p, w.l) = k), E(0, subset(w.m, 1, true) = k), E(0, w.a = k), E(0, w.i = k), E(0, w.m = k), E(0, w.p = k), E(0, w.l = k), E(0, w.q = k), E(0, w.e = k; w.r = w.e);
#elif PART == 13
  E(0, w.r = rep(w.a, k)), E(0, w.r = rep(w.a + 0.0, k)), E(0, w.r = rep(0.5, k)), E(0, w.r = rep(k, 2)), E(0, w.r = rep(k, k)), E(0, w.i = rep(w.i, k)), E(0, w.r = vector_numeric(k)), E(0, w.i = vector_integer(k)), E(0, w.l = vector_logical(k)), E(0, w.r = coca(k)), E(0, w.r = coca(k, w.a)), E(0, w.r = coca(w.a, k, k, w.m)), E(0, w.r = coca(1, k, 2.5, true)), E(0, w.i = coca(k, 1));
  E(0, w.r = matrix(0.5, k + 0, 2)), E(0, w.r = matrix(0.5, 2, k + 0)), E(0, w.r = matrix(k + 0, 2, 2)), E(0, w.r = matrix(w.a + 0.0, k + 0, 2)), E(0, w.r = matrix(w.a + 0.0, 2, k + 0));
  if (!std::is_unsigned_v<K> || sizeof(K) < sizeof(int))
    E(0, w.r = colon(k, 1)), E(0, w.r = colon(1, k)), E(0, w.r = colon(k, k)), E(0, w.r = colon(k, -2)), E(0, w.r = colon(k, 2.5)), E(0, w.r = colon(-3.5, k));
#elif PART == 19
  E(0, w.r = li(k, w.x5, w.y5)), E(0, w.r = w.a + li(k, w.x5, w.y5)), E(0, w.r = li(coca(k), w.x5, w.y5)), E(0, w.r = li(w.n * k / 9.0, w.x5, w.y5));
#elif PART == 20
  E(0, w.r = cmr(k, w.x5, w.y5)), E(0, w.r = w.a + cmr(k, w.x5, w.y5)), E(0, w.r = cmr(w.n * k / 9.0, w.x5, w.y5));
#endif
}
template <class K> void kind(const char *kn) {
  for (double d : {0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 9.0, 100.0, 127.0, 0.5, 1.5, 2.75, 3.5, -1.0, -2.0, -3.0, -0.5, -128.0, 255.0, 256.0, 258.0, 65535.0, 65538.0}) {
    if (d != d || (std::is_integral_v<K> && (d != std::floor(d) || d < double(std::numeric_limits<K>::min()) || d > double(std::numeric_limits<K>::max()))))
      continue;
    if (PART == 13 && (d > 300 || d < -3)) // sizes
      continue;
    all<K>(kn, K(d));
  }
}
int main(int argc, char **argv) {
  mc::init(argc, argv);
  mc::Capture c;
  kind<int>("int");
  kind<long>("long");
  kind<long long>("long long");
  kind<short>("short");
  kind<signed char>("signed char");
  kind<unsigned char>("unsigned char");
  kind<unsigned short>("unsigned short");
  kind<unsigned>("unsigned");
  kind<unsigned long>("unsigned long");
  kind<float>("float");
  c.stop();
  return mc::finish();
}

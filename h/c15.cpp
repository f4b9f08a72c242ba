// C15: isNA, isInf, length, dim
#include "ev.hpp"
using namespace ev;
const double inf = std::numeric_limits<double>::infinity(), nan_ = std::numeric_limits<double>::quiet_NaN();
const std::vector<double> AL = {0, -1.5, nan_, inf, -inf, std::numeric_limits<double>::max(), std::numeric_limits<double>::denorm_min(), -nan_};
V naOf(const V &a) {
  V v(a.x);
  for (auto &d : v.x)
    d = d != d;
  return v;
}
V infOf(const V &a) {
  V v(a.x);
  for (auto &d : v.x)
    d = (d == inf || d == -inf);
  return v;
}
V flat(V v) {
  noShape(v);
  return v;
}
template <int K> void preds(const V &a) {
  mc::run([&] { return std::string("isNA/isInf/length of ") + name(K) + " " + str(a); },
          [&] {
            Opd<K> o(a);
            auto &&e = o.get();
            for (int pass = 0; pass < 2; pass++) {
              if constexpr (K == EB || K == EC) {
              } else if constexpr (requires { isNA(e); }) {
                if constexpr (isScalar(K)) {
                  if (isNA(e) != (a.x[0] != a.x[0]) || isInf(e) != bool(std::isinf(a.x[0])))
                    fail("wrong for a scalar");
                } else {
                  expect(flat(obs(isNA(e))), naOf(a), "isNA");
                  expect(flat(obs(isInf(e))), infOf(a), "isInf");
                  Vec<bool> l;
                  l = isNA(e);
                  expect(flat(obs(l)), naOf(a), "isNA stored");
                  l = isInf(e);
                  expect(flat(obs(l)), infOf(a), "isInf stored");
                  Vec<double> y;
                  y = isNA(e) + isInf(e);
                  V w = naOf(a), w2 = infOf(a);
                  for (std::size_t i = 0; i < w.n(); i++)
                    w.x[i] += w2.x[i];
                  expect(flat(obs(y)), w, "sum of both");
                  mc::C.transitions += 5;
                }
              }
              if constexpr (requires { length(e); }) {
                if (std::size_t(length(e)) != a.n())
                  fail("length is " + std::to_string(length(e)));
                ++mc::C.transitions;
                mc::count("length queries");
              }
              if constexpr (K == VD || K == BO || K == VI || K == VB || K == CV) {
                if (e.size() != a.n())
                  fail("size is " + std::to_string(e.size()));
              }
            }
            if constexpr (!isScalar(K) && K != EB)
              o.done();
            mc::state(hash(naOf(a)) * 7 + hash(infOf(a)) + K);
          });
}
constexpr int SM = 100;
template <class O> void dimOf(O &&e, const V &a) {
  bool thrown = false;
  V got;
  try {
    got = obs(dim(e));
  } catch (std::exception &) {
    thrown = true;
  }
  ++mc::C.transitions;
  if (thrown == a.m)
    fail(a.m ? "dim failed on a matrix" : "dim accepted a non-matrix: " + str(got));
  if (a.m)
    expect(flat(got), V({double(a.r), double(a.c)}), "dim");
}
template <int K> void dims(const V &a) {
  mc::run([&] { return std::string("dim of ") + name(K) + " " + str(a); },
          [&] {
            Opd<K> o(a);
            auto &&e = o.get();
            dimOf(e, a);
            dimOf(e, a);
            if constexpr (K != EB)
              o.done();
            Vec<int> d;
            if (a.m) {
              d = dim(e);
              expect(flat(obs(d)), V({double(a.r), double(a.c)}), "dim stored");
            }
            mc::state(hash(a));
          });
}
void explore() {
  std::size_t L = mc::C.thorough ? 5 : 3;
  forK<NKINDS>([&](auto k) {
    constexpr int K = decltype(k)::value;
    std::vector<double> al = tyOf(K) == D ? AL : tyOf(K) == I ? std::vector<double>{0, 1, -2147483647.0, 2147483647.0, 42} : std::vector<double>{0, 1};
    if (K == EB)
      al = {0, -1.5, nan_, inf, -inf};
    for (std::size_t n = 1; n <= (isScalar(K) ? 1 : L); n++) {
      std::vector<std::size_t> ix(n, 0);
      for (;;) {
        V v;
        for (auto q : ix)
          v.x.push_back(al[q]);
        preds<K>(v);
        int d = int(n) - 1;
        while (d >= 0 && ++ix[d] == al.size())
          ix[d--] = 0;
        if (d < 0)
          break;
      }
    }
    if constexpr (canMatrix(K))
      for (std::size_t r = 0; r <= 4; r++)
        for (std::size_t c = 1; c <= 5; c++) {
          V v;
          for (std::size_t i = 0; i < std::max<std::size_t>(r, 1) * c; i++)
            v.x.push_back(double(i % 2));
          v.m = r > 0, v.r = r, v.c = r ? c : 0;
          dims<K>(v);
          preds<K>(v);
        }
  });
  // selections and results of operations
  for (std::size_t r = 1; r <= 3; r++)
    for (std::size_t c = 1; c <= 3; c++)
      mc::run([&] { return "dim of selections and expressions of a " + std::to_string(r) + "x" + std::to_string(c) + " matrix"; },
              [&] {
                V a;
                for (std::size_t i = 0; i < r * c; i++)
                  a.x.push_back(double(i) + 1);
                a.m = true, a.r = r, a.c = c;
                Vec<double> m, v = coca(1.0, 2.0, 3.0);
                put(m, a);
                V one({1}, 1, 1), full = a;
                dimOf(subset(m, true, true), full);
                for (std::size_t k = 1; k <= r; k++) {
                  Vec<int> ri;
                  V rv;
                  for (std::size_t i = 1; i <= k; i++)
                    rv.x.push_back(double(i));
                  put(ri, rv);
                  V w;
                  w.m = true, w.r = k, w.c = c;
                  dimOf(subset(m, ri, true), w);
                  Vec<double> t;
                  t = subset(m, ri, true);
                  dimOf(t, w);
                }
                for (std::size_t k = 1; k <= c; k++) {
                  Vec<int> ci;
                  V cv;
                  for (std::size_t i = 1; i <= k; i++)
                    cv.x.push_back(double(i));
                  put(ci, cv);
                  V w;
                  w.m = true, w.r = r, w.c = k;
                  dimOf(subset(m, true, ci), w);
                }
                dimOf(m + m, full);
                dimOf(-m, full);
                dimOf(sinus(m), full);
                dimOf(m > 1.0, full);
                dimOf(1.0 - m, full);
                dimOf(v + v, V({1}));
                dimOf(subset(m, true), V({1}));
                dimOf(subset(v, 1), V({1}));
                dimOf(coca(1, 2), V({1}));
                dimOf(-v, V({1}));
                dimOf(etr::matrix(0.0, int(r), int(c)), full);
                m = v;
                dimOf(m, V({1}));
                m = etr::matrix(0.0, int(c), int(r));
                V tr = full;
                std::swap(tr.r, tr.c);
                dimOf(m, tr);
                dimOf(m * m + m, tr);
                if (length(m) != int(r * c) || length(v) != 3 || length(m + m) != int(r * c))
                  fail("length");
                mc::state(hash(a));
              });
}
int main(int c, char **v) {
  mc::init(c, v);
  std::cerr.rdbuf(nullptr);
  explore();
  return mc::finish();
}

// Chains of up to N operations (C01): every prefix of a chain of operations to
// the left, to the right, alternating and through unary minus, on operands of
// several lengths, shapes and kinds
#include "machine.hpp"
using namespace etr;
using rm::V;
struct Leaves {
  double mem[6] = {1.5, 0.5, 0.25, 2, 0.75, 1};
  Vec<double> d, e;
  Vec<int> i;
  Vec<bool> l;
  ::BorrowPtr p;
  V md_, me, mi, ml, mp;
  explicit Leaves(int k) : p(mem, std::size_t(k == 1 ? 2 : 6)) {
    int nd = k == 1 ? 1 : 6, ne = k == 1 ? 3 : 6, ni = k == 1 ? 6 : 6, nl = k == 1 ? 2 : 6;
    d.resize(nd), e.resize(ne), i.resize(ni), l.resize(nl);
    for (int j = 0; j < 6; j++) {
      if (j < nd) d[j] = 0.5 + j % 3 * 0.25;
      if (j < ne) e[j] = 1.25 - j % 4 * 0.25;
      if (j < ni) i[j] = j % 3;
      if (j < nl) l[j] = j % 2;
    }
    if (k >= 2) { // matrices among the operands
      d = matrix(Vec<double>(d), 2, 3);
      if (k == 3) {
        e = matrix(Vec<double>(e), 2, 3);
        i = matrix(Vec<int>(i), 2, 3);
        l = matrix(Vec<bool>(l), 2, 3);
        d = d + e;
      }
    }
    md_ = rm::obs(d), me = rm::obs(e), mi = rm::obs(i), ml = rm::obs(l), mp = rm::obs(p);
  }
};
template <int K> auto &leaf(Leaves &w) {
  if constexpr (K == 0)
    return w.d;
  else if constexpr (K == 1)
    return w.e;
  else if constexpr (K == 2)
    return w.i;
  else if constexpr (K == 3)
    return w.l;
  else
    return w.p;
}
V model(Leaves &w, int k) { return k == 0 ? w.md_ : k == 1 ? w.me : k == 2 ? w.mi : k == 3 ? w.ml : w.mp; }
constexpr int DEPTH = 30;
template <int O, class A, class B> auto op(const A &a, const B &b) {
  if constexpr (O == 0)
    return a + b;
  else if constexpr (O == 1)
    return a - b;
  else
    return a * b;
}
V mop(int o, const V &a, const V &b) {
  return md::bin(a, b, [o](double x, double y) { return o == 0 ? x + y : o == 1 ? x - y : x * y; }, false, false);
}
template <int N, int MODE, class X> void chain(const char *what, Leaves &w, const X &x, const V &want) {
  mc::run([&] { return std::string(what) + ", direction " + std::to_string(MODE) + ", " + std::to_string(N) + " operations"; },
          [&] {
            Vec<double> y;
            y = x;
            V o = rm::obs(y), e = want;
            if (!rm::eq(o, e))
              mc::fail("value " + rm::str(o) + ", expected " + rm::str(e));
            if (x.size() != want.n() || x.im() != want.m || (want.m && (x.nr() != want.r || x.nc() != want.c)))
              mc::fail("length or shape of the expression");
            mc::state(rm::hash(e));
            ++mc::C.transitions;
          });
  if constexpr (N < DEPTH) {
    constexpr int K = N % 5, O = (N / 2) % 3;
    auto &b = leaf<K>(w);
    V mb = model(w, K);
    if constexpr (MODE == 0 || (MODE == 2 && N % 2)) {
      auto n = op<O>(x, b);
      chain<N + 1, MODE>(what, w, n, mop(O, want, mb));
    } else if constexpr (MODE == 3 && N % 3 == 2) {
      auto n = -x;
      V m = want;
      for (auto &d : m.x)
        d = -d;
      chain<N + 1, MODE>(what, w, n, m);
    } else {
      auto n = op<O>(b, x);
      chain<N + 1, MODE>(what, w, n, mop(O, mb, want));
    }
  }
}
void explore() {
  static const char *names[] = {"vectors of 6 elements", "vectors of 1 to 6 elements", "a matrix and vectors", "matrices and a vector"};
  for (int k = 0; k < 4; k++) {
    Leaves w(k);
    chain<0, 0>(names[k], w, w.d + w.e, mop(0, w.md_, w.me));
    chain<0, 1>(names[k], w, w.d + w.e, mop(0, w.md_, w.me));
    chain<0, 2>(names[k], w, w.d + w.e, mop(0, w.md_, w.me));
    chain<0, 3>(names[k], w, w.d + w.e, mop(0, w.md_, w.me));
  }
}
int main(int c, char **v) {
  mc::init(c, v);
  explore();
  return mc::finish();
}

// C29: printType, printT, printAST, printTAST on values and expressions of every
// kind. PART = 0: values and one operation, 1: trees of two operations
#include "machine.hpp"
#include <cxxabi.h>
#ifndef PART
#define PART 0
#endif
using namespace etr;
static std::string nameOf(const std::type_info &t) {
  int st;
  char *c = abi::__cxa_demangle(t.name(), nullptr, nullptr, &st);
  std::string s(c);
  std::free(c);
  return s;
}
// the name broken after every bracket, each line indented by its nesting depth
static std::string tree(const std::string &n) {
  std::string o;
  int depth = 0;
  bool start = true;
  for (char ch : n) {
    if (start)
      o += std::string(std::max(depth, 0), '\t');
    start = false;
    o += ch;
    if (ch == '<' || ch == '>') {
      depth += ch == '<' ? 1 : -1;
      o += '\n';
      start = true;
    }
  }
  if (start)
    o += std::string(std::max(depth, 0), '\t');
  return o + "\n";
}
template <class F> static std::string captured(F f) {
  std::ostringstream os;
  auto *old = std::cout.rdbuf(os.rdbuf());
  try {
    f();
  } catch (...) {
    std::cout.rdbuf(old);
    throw;
  }
  std::cout.rdbuf(old);
  return os.str();
}
static void same(const std::string &got, const std::string &want, const char *fn) {
  if (got != want)
    mc::fail(std::string(fn) + " printed [" + got + "], expected [" + want + "]");
}
template <class X> std::vector<double> vals(const X &x) {
  std::vector<double> r;
  if constexpr (std::is_arithmetic_v<X>)
    r.push_back(x);
  else
    for (std::size_t i = 0; i < x.size(); i++)
      r.push_back(x[i]);
  return r;
}
// all pairs of the four functions, on the same value
template <class X> void show(const char *what, X &&x) {
  using T = std::remove_cvref_t<X>;
  for (int f = 0; f < 4; f++)
    for (int g = 0; g < 4; g++)
      mc::run([&] { return std::string(what) + " functions " + std::to_string(f) + "," + std::to_string(g) + " " + nameOf(typeid(T)); },
              [&] {
                auto before = vals(x);
                std::string n = nameOf(typeid(T));
                for (int k : {f, g}) {
                  switch (k) {
                  case 0: same(captured([&] { printType(x); }), n + "\n", "printType"); break;
                  case 1: same(captured([&] { printT<T>(); }), n + "\n", "printT"); break;
                  case 2: same(captured([&] { printAST(x); }), tree(n), "printAST"); break;
                  default: same(captured([&] { printTAST<T>(); }), tree(n), "printTAST");
                  }
                  ++mc::C.transitions;
                }
                auto after = vals(x);
                if (before.size() != after.size())
                  mc::fail("length changed");
                for (std::size_t i = 0; i < before.size(); i++)
                  if (!rm::near(before[i], after[i]))
                    mc::fail("value changed");
                std::uint64_t h = std::hash<std::string>()(n);
                mc::state(mc::hmix(h, f * 4 + g));
              });
}
struct Leaves {
  double mem[3] = {1.5, 2.5, 3.5};
  Vec<double> d, m;
  Vec<int> i;
  Vec<bool> l;
  ::BorrowPtr p{mem, 3};
  explicit Leaves(int n) {
    d.resize(n);
    i.resize(n);
    l.resize(n);
    d.fill(1.25);
    i.fill(2);
    l.fill(true);
    m = matrix(2.5, 2, 2);
  }
};
template <int K> decltype(auto) leaf(Leaves &w) {
  if constexpr (K == 0)
    return (w.d);
  else if constexpr (K == 1)
    return (w.i);
  else if constexpr (K == 2)
    return (w.l);
  else if constexpr (K == 3)
    return (w.p);
  else if constexpr (K == 4)
    return (w.m);
  else if constexpr (K == 5)
    return subset(w.d, 1);
  else if constexpr (K == 6)
    return subset(w.i, true);
  else if constexpr (K == 7)
    return sinus(w.d);
  else if constexpr (K == 8)
    return -w.p;
  else if constexpr (K == 9)
    return coca(1.5, 2.5);
  else if constexpr (K == 10)
    return 2.5;
  else if constexpr (K == 11)
    return 3;
  else
    return true;
}
constexpr int NL = 13;
template <int O, class A, class B> auto op(A &&a, B &&b) {
  if constexpr (O == 0)
    return a + b;
  else if constexpr (O == 1)
    return a * b;
  else if constexpr (O == 2)
    return a - b;
  else if constexpr (O == 3)
    return a / b;
  else if constexpr (O == 4)
    return a > b;
  else
    return a == b;
}
template <int A, int B, int O> void one(Leaves &w) {
  if constexpr (A < 10 || B < 10) {
    decltype(auto) a = leaf<A>(w);
    decltype(auto) b = leaf<B>(w);
    show("operation", op<O>(a, b));
  }
}
template <int A, int B, int O1, int O2> void two(Leaves &w) {
  decltype(auto) a = leaf<A>(w);
  decltype(auto) b = leaf<B>(w);
  show("left tree", op<O2>(op<O1>(a, b), a));
  show("right tree", op<O2>(b, op<O1>(a, b)));
}
// chains of N operations to the left, to the right and of unary functions
template <int N, class X> void chain(Leaves &w, X &&l) {
  if constexpr (N > 0) {
    auto &d = leaf<N % 5>(w);
    auto a = l + d;
    show("chain", a);
    if constexpr (N % 3 == 0)
      chain<N - 1>(w, d * a);
    else if constexpr (N % 3 == 1)
      chain<N - 1>(w, a);
    else
      chain<N - 1>(w, cosinus(a));
  }
}
static void explore() {
#if PART == 0
  for (int n = 1; n <= 3; n++) {
    Leaves w(n);
    [&]<int... K>(std::integer_sequence<int, K...>) { (show("value", leaf<K>(w)), ...); }(std::make_integer_sequence<int, NL>());
    show("text", std::string("x").size());
  }
  Leaves w(2);
  [&]<int... K>(std::integer_sequence<int, K...>) { (one<K / NL, K % NL, K % 6>(w), ...); }(std::make_integer_sequence<int, NL * NL>());
  w.m = coca(1.5, 2.5); // a vector: shapes agree
  chain<24>(w, w.d + w.i);
  Vec<double> e; // without elements
  show("empty variable", e);
#else
  Leaves w(2);
  [&]<int... K>(std::integer_sequence<int, K...>) { (two<K % 9, (K / 9) % 9, K % 4, (K / 4) % 6>(w), ...); }(std::make_integer_sequence<int, 81>());
#endif
}
MACHINE_MAIN

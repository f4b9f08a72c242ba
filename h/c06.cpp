// C06: copies are independent values. PART 0 = all triples of statements, PART 1
// = longer sequences over fewer statements
#include "ladder.hpp"
#include "machine.hpp"
#include <list>
#ifndef PART
#define PART 0
#endif
using etr::Vec;
using md::Var;
using rm::V;
#define WORLD_FUNS(ns)                                                         \
  template <class... A> auto coca(A &&...x) { return ns::coca(std::forward<A>(x)...); } \
  template <class X, class R, class C> auto matrix(X &&x, R &&r, C &&c) { return ns::matrix(std::forward<X>(x), std::forward<R>(r), std::forward<C>(c)); }
static const rm::SV MEM = {1.5, 2.5, 3.5, 4.5};
struct RW {
  Vec<double> a, b;
  Vec<int> i;
  Vec<bool> l;
  std::vector<Vec<double>> vs;
  rm::Guarded g;
  ::BorrowPtr p;
  WORLD_FUNS(etr)
  explicit RW(int k) : g(MEM), p(k == 2 ? ::BorrowPtr(g.p(), 2, 2) : ::BorrowPtr(g.p(), 4)) {
    mc::Track tr;
    switch (k) {
    case 0:
      a = etr::coca(1.0, 2.0);
      b = 9.5;
      break;
    case 1:
      a = etr::matrix(etr::coca(1.0, 2.0, 3.0, 4.0, 5.0, 6.0), 2, 3);
      b = etr::coca(7.0, 8.0);
      break;
    case 2: // large: capacity differs from the length, and shrunk
      a = etr::rep(etr::coca(1.0, 2.0, 3.0), 7);
      a = etr::coca(-1.0, -2.0, -3.0);
      b = etr::rep(1.25, 15);
      break;
    }
    i = etr::coca(3, -4);
    l = etr::coca(true, false, true);
  }
};
struct MW {
  Var a{md::D}, b{md::D}, i{md::I}, l{md::B}, p{md::D};
  std::vector<Var> vs;
  rm::SV mem = MEM;
  WORLD_FUNS(md)
  explicit MW(int k) {
    p.borrow = true;
    p.ext = &mem;
    p.len = 4;
    if (k == 2)
      p.m = true, p.r = p.c = 2;
    switch (k) {
    case 0:
      a = md::coca(1.0, 2.0);
      b = 9.5;
      break;
    case 1:
      a = md::matrix(md::coca(1.0, 2.0, 3.0, 4.0, 5.0, 6.0), 2, 3);
      b = md::coca(7.0, 8.0);
      break;
    case 2:
      a = md::coca(-1.0, -2.0, -3.0);
      b = md::rep(1.25, 15);
      break;
    }
    i = md::coca(3, -4);
    l = md::coca(true, false, true);
  }
  MW(const MW &) = delete;
};
void compare(RW &r, MW &m, const std::string &at) {
  mm::cmp(rm::obs(r.a), m.a.val(), "a", at);
  mm::cmp(rm::obs(r.b), m.b.val(), "b", at);
  mm::cmp(rm::obs(r.i), m.i.val(), "i", at);
  mm::cmp(rm::obs(r.l), m.l.val(), "l", at);
  mm::cmp(rm::obs(r.p), m.p.val(), "p", at);
  if (r.vs.size() != m.vs.size())
    mc::fail("container length");
  for (std::size_t k = 0; k < m.vs.size(); k++)
    mm::cmp(rm::obs(r.vs[k]), m.vs[k].val(), "vs[" + std::to_string(k) + "]", at);
  for (std::size_t k = 0; k < 4; k++)
    if (r.g.p()[k] != m.mem[k])
      mc::fail("after " + at + ": borrowed element " + std::to_string(k + 1));
  r.g.checkGuards();
}
std::uint64_t hashM(const MW &m) {
  std::uint64_t h = 5;
  for (auto *v : {&m.a, &m.b, &m.i, &m.l, &m.p})
    h = mc::hmix(h, rm::hash(v->val()));
  for (auto &v : m.vs)
    h = mc::hmix(h, rm::hash(v.val()));
  return h;
}
bool tooBig(const MW &m) { return m.vs.size() > 4 || m.a.len > 80 || m.b.len > 80; }
// by value in and out
template <class T> T plus1(T x) {
  x = x + 1.0;
  return x;
}
template <class T> T clobber(T x) {
  T y = x;
  subset(x, 1) = -99.0;
  x = 0.5;
  return y;
}
template <class T> T pick(bool c, T x, T y) { return c ? x : y; }
template <class T> struct Holder {
  T v;
  T get() const { return v; }
};
#define BASIC                                                                  \
  MST(w.a = w.b), MST(w.b = w.a), MST(auto t = w.a; t = t + 1.0; w.b = t), MST(auto t = w.a; w.a = w.coca(5.0, 6.0, 7.0); w.b = t), \
      MST(auto t = std::move(w.a); w.a = 4.0; w.b = t), MST(w.vs.push_back(w.a)), MST(auto t = w.vs; w.vs.clear(); w.vs.push_back(w.b); for (auto &x : t) w.vs.push_back(x)), MST(if (!w.vs.empty()) w.a = w.vs[w.vs.size() - 1]), \
      MST(if (!w.vs.empty()) subset(w.vs.front(), 1) = 77.0), MST(std::swap(w.a, w.b)), MST(subset(w.a, 1) = 50.0), MST(at(w.b, 1) = at(w.b, 1) + 1.0), \
      MST(auto t = w.p; subset(t, 2) = 33.0), MST(w.a = w.matrix(1.5, 2, 1))
static const std::vector<mm::Stmt<RW, MW>> SHORT = {BASIC};
static const std::vector<mm::Stmt<RW, MW>> AL = {
    BASIC, MST(w.a = w.a), MST(w.b = std::move(w.a); w.a = w.coca(1.0, 2.0)), MST(w.b = plus1(w.a)), MST(w.a = clobber(w.a)), MST(w.b = pick(true, w.a, w.b)),
    MST(w.b = pick(false, plus1(w.a), w.b)), MST(w.a = clobber(std::move(w.b)); w.b = w.coca(2.0, 3.0)), MST(auto t = w.i; t = w.coca(8, 9, 10); w.i = w.i), MST(auto t = w.i; at(w.i, 1) = 12; w.a = t),
    MST(auto t = w.l; at(w.l, 2) = true; w.b = t), MST(auto t = std::move(w.l); w.l = w.coca(false, true); w.b = t), MST(w.i = w.a), MST(w.a = w.i), MST(w.b = w.l), MST(w.l = w.a),
    MST(auto t = std::make_pair(w.a, w.b); w.a = 3.0; t.second = t.first; subset(t.first, 1) = 8.0; w.b = t.second), MST([c = w.a, &w]() mutable { c = c * 2.0; w.b = c; subset(w.b, 1) = 1.0; w.a = c; }()),
    MST(auto t = w.vs; if (!w.vs.empty()) { subset(w.vs[0], 1) = 5.5; w.b = t[0]; }), MST(std::list t(w.vs.begin(), w.vs.end()); t.push_front(w.a); t.pop_back(); w.vs.assign(t.begin(), t.end())), MST(if (!w.vs.empty()) w.vs.front() = w.vs[w.vs.size() - 1]), MST(w.vs.assign(2, w.a)),
    MST(if (w.vs.size() > 1) std::swap(w.vs[0], w.vs[1])), MST(std::list t(w.vs.begin(), w.vs.end()); t.emplace_back(std::move(w.b)); w.b = 6.0; w.vs.assign(t.begin(), t.end())), MST(Holder<decltype(w.a)> h{w.a}; auto k = h; k.v = 2.5; w.b = h.get() + k.get()),
    MST(auto t = w.p; w.a = t), MST(auto t = w.p; t = 3.25), MST(auto t = w.p; t = w.a), MST(auto t = w.p; w.p = w.coca(8.0, 9.0); w.b = t), MST(auto t = std::move(w.p); subset(t, 1) = 11.0; w.b = t), MST(w.p = w.b), MST(auto t = std::make_pair(w.p, w.p); subset(t.first, 1) = 4.25; w.a = t.second),
    MST(w.a = w.p), MST(w.a = w.a + w.b), MST(w.b = w.coca(w.b, 1.0)), MST(w.a = subset(w.a, true)), MST(auto t = w.a; t = w.b; w.b = t), MST(auto t = w.a; auto u = t; u = 1.0; t = t + u; w.b = t),
};
#if PART == 2
// single constructions, incl. of variables that never held a value
struct K {
  const char *n;
  void (*f)();
};
template <class T> void is(const T &v, V want) { rm::expect(rm::obs(v), want, "value"); }
template <class T> void emptyCopies() {
  Vec<T> e;
  Vec<T> c = e;
  Vec<T> d = std::move(e);
  std::vector<Vec<T>> vs(3);
  vs.push_back(c);
  std::vector<Vec<T>> ws = vs;
  if (c.size() || d.size() || ws[3].size())
    mc::fail("copy of an empty variable is not empty");
  c = etr::coca(T(1), T(0));
  d = c;
  e = d;
  vs[1] = e;
  is(c, {1, 0});
  is(d, {1, 0});
  is(e, {1, 0});
  is(vs[1], {1, 0});
  if (vs[0].size() || ws[1].size())
    mc::fail("copies of empty variables are not independent");
}
template <class T, class G> void fromExpr(G g, V want) { // construction from a temporary
  Vec<T> x = g();
  is(x, want);
  Vec<T> y(g());
  is(y, want);
  const Vec<T> z = g();
  is(z, want);
  Vec<T> c(z);
  is(c, want);
  x = T(1);
  is(c, want);
  is(z, want);
  auto f = [](Vec<T> v) { v = v; return v; };
  Vec<T> k = f(g());
  is(k, want);
  Vec<T> k2 = f(z);
  is(k2, want);
}
static double Z0 = 0, Z2 = 2, Z3 = 0.75;
static Vec<double> S = etr::coca(1.5, -2.5, 3.0);
static Vec<double> M2 = etr::matrix(etr::coca(1.0, 2.0, 3.0, 4.0), 2, 2);
static const K KS[] = {
    {"empty double", emptyCopies<double>},
    {"empty int", emptyCopies<int>},
    {"empty bool", emptyCopies<bool>},
    {"coca double", [] { fromExpr<double>([] { return etr::coca(1.0, 2.5); }, {1, 2.5}); }},
    {"coca int", [] { fromExpr<int>([] { return etr::coca(1, -2); }, {1, -2}); }},
    {"coca bool", [] { fromExpr<bool>([] { return etr::coca(true, false); }, {1, 0}); }},
    {"int from coca double", [] { fromExpr<int>([] { return etr::coca(1.5, -2.5); }, {1, -2}); }},
    {"double from coca int", [] { fromExpr<double>([] { return etr::coca(4, -2); }, {4, -2}); }},
    {"bool from coca int", [] { fromExpr<bool>([] { return etr::coca(4, 0); }, {1, 0}); }},
    {"double from coca bool", [] { fromExpr<double>([] { return etr::coca(false, true); }, {0, 1}); }},
    {"matrix", [] { fromExpr<double>([] { return etr::matrix(etr::coca(1.0, 2.0, 3.0, 4.0), 2, 2); }, V({1, 2, 3, 4}, 2, 2)); }},
    {"int matrix from double", [] { fromExpr<int>([] { return etr::matrix(etr::coca(1.0, 2.0, 3.0, 4.5), 1, 4); }, V({1, 2, 3, 4}, 1, 4)); }},
    {"rep", [] { fromExpr<double>([] { return etr::rep(S + 0.5, 2); }, {2, -2, 3.5, 2, -2, 3.5}); }},
    {"colon", [] { fromExpr<int>([] { return etr::colon(3, 1); }, {3, 2, 1}); }},
    {"vector_numeric", [] { fromExpr<double>([] { return etr::vector_numeric(17); }, std::vector<double>(17, 0.0)); }},
    {"sum", [] { fromExpr<double>([] { return S + M2; }, V({2.5, -0.5, 6, 5.5}, 2, 2)); }},
    {"comparison", [] { fromExpr<bool>([] { return S > Z0; }, {1, 0, 1}); }},
    {"double from comparison", [] { fromExpr<double>([] { return M2 > Z2; }, V({0, 0, 1, 1}, 2, 2)); }},
    {"int from sum", [] { fromExpr<int>([] { return M2 + Z3; }, V({1, 2, 3, 4}, 2, 2)); }},
    {"constant copies", [] {
       const Vec<double> c = S;
       Vec<double> d = c, e = M2;
       e = c;
       d = M2;
       is(c, {1.5, -2.5, 3});
       is(d, V({1, 2, 3, 4}, 2, 2));
       is(e, {1.5, -2.5, 3});
     }},
    {"scalar constructions", [] {
       Vec<double> a(2.5);
       Vec<int> b(7);
       Vec<bool> c(true);
       Vec<double> d(a), e(3);
       is(a, {2.5});
       is(b, {7});
       is(c, {1});
       is(d, {2.5});
       is(e, {3});
       a = etr::coca(1.0, 2.0);
       is(d, {2.5});
     }},
    {"sized constructions", [] {
       Vec<double> a(std::size_t(2), std::size_t(3)), b(std::size_t(2), std::size_t(2), 4.5);
       is(a, V({0, 0, 0, 0, 0, 0}, 2, 3));
       is(b, V({4.5, 4.5, 4.5, 4.5}, 2, 2));
       Vec<int> c(std::size_t(1), std::size_t(2), 3.9);
       is(c, V({3, 3}, 1, 2));
     }},
    {"pointer constructions", [] {
       double m[6] = {1, 2, 3, 4, 5, 6};
       Vec<double> a(m, 3), b(m, std::size_t(2), std::size_t(3));
       ::BorrowPtr p(m, 6), q(m, std::size_t(3), std::size_t(2));
       Vec<double> c, d, e(std::move(p));
       c = e;
       d = q;
       m[0] = 9;
       is(a, {1, 2, 3});
       is(b, V({1, 2, 3, 4, 5, 6}, 2, 3));
       is(c, {1, 2, 3, 4, 5, 6});
       is(d, V({1, 2, 3, 4, 5, 6}, 3, 2));
       is(e, {1, 2, 3, 4, 5, 6});
       is(q, V({9, 2, 3, 4, 5, 6}, 3, 2));
     }},
};
// every way to copy, for variables of many lengths
template <class T> T elem(std::size_t i, double s) { return T(double(i % 97) * 0.75 + s + double(i % 3)); }
template <> bool elem<bool>(std::size_t i, double s) { return (i % 97 % 3 == 1) != (s < 0); }
template <class T> Vec<T> gen(std::size_t n, int how, double s) {
  Vec<T> v;
  if (how == 0) // exactly as long
    v = etr::rep(etr::coca(T(1)), int(n));
  else if (how == 1) // shrunk
    v = etr::rep(etr::coca(T(1)), int(n + 37)), v = etr::rep(etr::coca(T(0)), int(n));
  else if (how == 2) // grown in steps
    for (std::size_t k = 1; k <= n; k = k < n && 2 * k > n ? n : 2 * k) {
      v = etr::rep(etr::coca(T(0)), int(k));
      if (k == n)
        break;
    }
  else // a matrix
    v = etr::matrix(etr::rep(etr::coca(T(1)), int(n)), n % 3 == 0 ? 3 : 1, int(n % 3 == 0 ? n / 3 : n));
  for (std::size_t i = 0; i < n; i++)
    v[i] = elem<T>(i, s);
  return v;
}
template <class T> void holds(const Vec<T> &v, std::size_t n, int how, double s, const char *what) {
  const std::size_t r = n % 3 == 0 ? 3 : 1;
  if (v.size() != n || v.im() != (how == 3) || (how == 3 && (v.nr() != r || v.nc() != n / r)))
    mc::fail(std::string(what) + ": wrong length or dimensions");
  for (std::size_t i = 0; i < n; i++)
    if (double(v[i]) != double(elem<T>(i, s)))
      mc::fail(std::string(what) + ": wrong element " + std::to_string(i + 1));
}
template <class T> Vec<T> byValue(Vec<T> v, bool write) {
  if (write)
    for (std::size_t i = 0; i < v.size(); i++)
      v[i] = elem<T>(i, -5);
  return v;
}
template <class T> void sizes(std::size_t n, int how) {
  auto g = [&](double s) { return gen<T>(n, how, s); };
  auto ok = [&](const Vec<T> &v, double s, const char *w) { holds<T>(v, n, how, s, w); };
  Vec<T> a = g(1);
  ok(a, 1, "source");
  Vec<T> b = a, c(a), d;
  d = a;
  std::vector<Vec<T>> vs(2, a);
  vs.push_back(a);
  std::pair<Vec<T>, int> pr(a, 1);
  for (std::size_t i = 0; i < n; i++)
    a[i] = elem<T>(i, -5);
  ok(b, 1, "copy"), ok(c, 1, "direct copy"), ok(d, 1, "assigned"), ok(pr.first, 1, "in a pair");
  for (auto &v : vs)
    ok(v, 1, "in a vector");
  for (std::size_t i = 0; i < n; i++)
    b[i] = elem<T>(i, -9);
  ok(a, -5, "source after writing a copy"), ok(c, 1, "another copy");
  Vec<T> e = byValue(c, true), f = byValue(c, false);
  ok(c, 1, "argument"), ok(e, -5, "written parameter returned"), ok(f, 1, "parameter returned");
  Vec<T> m = std::move(e);
  ok(m, -5, "moved");
  e = m;
  m = g(2);
  ok(e, -5, "reused after a move"), ok(m, 2, "assigned result");
  std::swap(m, e);
  ok(m, -5, "swapped"), ok(e, 2, "swapped");
  // onto variables that are shorter, longer, of another type
  Vec<T> s1 = gen<T>(n / 2 + 1, 0, 3), s2 = gen<T>(n + 40, 1, 3);
  s1 = c, s2 = c;
  ok(s1, 1, "onto a shorter one"), ok(s2, 1, "onto a longer one");
  s1[n - 1] = elem<T>(n - 1, -5), s2[0] = elem<T>(0, -5);
  ok(c, 1, "source of both");
  Vec<double> x;
  Vec<int> y;
  Vec<bool> z;
  x = c, y = c, z = c;
  for (std::size_t i = 0; i < n; i++)
    if (x[i] != double(c[i]) || y[i] != int(c[i]) || z[i] != bool(c[i]))
      mc::fail("converting copy: wrong element " + std::to_string(i + 1));
  c = etr::coca(T(1));
  ok(f, 1, "copy of a shrunk one");
  if constexpr (std::is_same_v<T, double>) { // from and onto memory of the caller
    std::vector<double> mem(n + 2, -777.0), mem2(n + 2, -777.0);
    etr::Vec<double, etr::Borrow<double>> p(mem.data() + 1, n), q(mem2.data() + 1, n);
    p = f;
    Vec<double> o;
    o = p;
    q = p;
    p = 4.5;
    for (std::size_t i = 0; i < n; i++)
      if (o[i] != elem<T>(i, 1) || mem2[i + 1] != elem<T>(i, 1) || mem[i + 1] != 4.5)
        if (!(n > 1 && p.size() == 1))
          mc::fail("borrowed: wrong element " + std::to_string(i + 1));
    if (mem[0] != -777.0 || mem[n + 1] != -777.0 || mem2[0] != -777.0 || mem2[n + 1] != -777.0)
      mc::fail("memory around a borrowed one");
  }
}
template <class T> void allSizes(const char *name) {
  std::vector<std::size_t> ns;
  for (std::size_t n = 1; n <= (mc::C.thorough ? 1100u : 140u); n++)
    ns.push_back(n);
  for (auto n : sb::ladder(ns.back() + 1, mc::C.thorough ? 1048577 : 70000))
    ns.push_back(n);
  for (std::size_t n : ns)
    for (int how = 0; how < 4; how++)
      mc::run([&] { return "copies of " + std::to_string(n) + " elements of " + name + (how == 0 ? "" : how == 1 ? ", shrunk" : how == 2 ? ", grown" : ", matrix"); },
              [&] {
                long l0 = mc::A.live;
                {
                  mc::Track t;
                  sizes<T>(n, how);
                }
                if (mc::A.live != l0)
                  mc::fail("memory blocks leaked");
                ++mc::C.transitions;
                mc::state(mc::hmix(std::hash<std::string>()(name), n * 4 + how));
              });
}
void explore() {
  allSizes<double>("double"), allSizes<int>("int"), allSizes<bool>("bool");
  for (auto &k : KS)
    mc::run([&] { return std::string("construction: ") + k.n; },
            [&] {
              long l0 = mc::A.live;
              {
                mc::Track t;
                k.f();
              }
              if (mc::A.live != l0)
                mc::fail("memory blocks leaked");
              ++mc::C.transitions;
              mc::state(std::hash<std::string>()(k.n));
            });
}
#else
void explore() {
  static const char *names[] = {"a=[1 2] b=9.5", "a 2x3 matrix", "a shrunk, b of 15, p 2x2"};
  for (int k = 0; k < 3; k++) {
#ifdef LOOPS
    if (PART == 0)
      mm::allLoops<RW, MW>(k, names[k], AL, 2, mc::C.thorough ? 150 : 40);
    else
      mm::allLoops<RW, MW>(k, names[k], SHORT, 3, 40);
    continue;
#endif
    if (PART == 0)
      mm::allSeqs<RW, MW>(k, names[k], AL, mc::C.thorough && k == 1 ? 4 : 3);
    else
      mm::allSeqs<RW, MW>(k, names[k], SHORT, 4 + mc::C.thorough);
  }
}
#endif
MACHINE_MAIN

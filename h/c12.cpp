// C12: borrowed memory. PART 0 = all triples of statements, PART 1 = longer
// sequences over fewer statements, PART 2 = element types and constructions,
// PART 3 = the container itself
#include "machine.hpp"
#ifndef PART
#define PART 0
#endif
using etr::Vec;
using md::Var;
using rm::V;
#define WORLD_FUNS(ns)                                                         \
  template <class... A> auto coca(A &&...x) { return ns::coca(std::forward<A>(x)...); } \
  template <class X, class R, class C> auto matrix(X &&x, R &&r, C &&c) { return ns::matrix(std::forward<X>(x), std::forward<R>(r), std::forward<C>(c)); } \
  template <class X, class R> auto rep(X &&x, R &&r) { return ns::rep(std::forward<X>(x), std::forward<R>(r)); } \
  template <class X, class R> auto colon(X &&x, R &&r) { return ns::colon(std::forward<X>(x), std::forward<R>(r)); }
inline rm::SV memP(int n) {
  rm::SV s;
  for (int i = 0; i < n; i++)
    s.push_back(1.5 + i);
  return s;
}
// worlds: n elements for p, a 2 x c matrix q with c = 1..3, o = p without its first element
struct RW {
  int n, c;
  rm::Guarded gp, gq;
  ::BorrowPtr p, q, o;
  Vec<double> a;
  Vec<int> i;
  WORLD_FUNS(etr)
  explicit RW(int k) : n(k), c(k <= 3 ? k : 3), gp(memP(k)), gq(memP(2 * (k <= 3 ? k : 3))), p(gp.p(), k), q(gq.p(), std::size_t(2), std::size_t(c)), o(k > 1 ? gp.p() + 1 : gp.p(), k > 1 ? k - 1 : 1) {
    mc::Track t;
    a = etr::coca(10.0, 20.0);
    i = etr::coca(1, 1);
  }
  Vec<double> val(int d) { // a value of n+d elements
    Vec<double> v;
    if (n + d > 0) {
      v.resize(n + d);
      for (int k = 0; k < n + d; k++)
        v[k] = 100.0 + 10 * d + k;
    }
    return v;
  }
  template <class X> void addAll(X &x, double k) {
    for (auto &e : x)
      e = e + k;
  }
  template <class X> double sum(const X &x) {
    double s = 0;
    for (auto e : x)
      s = s * 1.5 + e;
    return s;
  }
  double &poke(int k) { return gp.p()[k % n]; }
  double &pokeq(int k) { return gq.p()[k % (2 * c)]; }
};
struct MW {
  int n, c;
  rm::SV mp, mq;
  Var p{md::D}, q{md::D}, o{md::D}, a{md::D}, i{md::I};
  WORLD_FUNS(md)
  explicit MW(int k) : n(k), c(k <= 3 ? k : 3), mp(memP(k)), mq(memP(2 * (k <= 3 ? k : 3))) {
    p.borrow = q.borrow = o.borrow = true;
    p.ext = o.ext = &mp;
    q.ext = &mq;
    p.len = n;
    q.len = 2 * c;
    q.m = true, q.r = 2, q.c = c;
    o.off = n > 1;
    o.len = n > 1 ? n - 1 : 1;
    a = md::coca(10.0, 20.0);
    i = md::coca(1, 1);
  }
  MW(const MW &) = delete;
  V val(int d) {
    V v;
    for (int k = 0; k < n + d; k++)
      v.x.push_back(100.0 + 10 * d + k);
    return v;
  }
  void addAll(Var &x, double k) {
    for (std::size_t i = 0; i < x.len; i++)
      x.mem()[x.off + i] += k;
  }
  double sum(const Var &x) {
    double s = 0;
    for (double e : x.val().x)
      s = s * 1.5 + e;
    return s;
  }
  double &poke(int k) { return mp[k % n]; }
  double &pokeq(int k) { return mq[k % (2 * c)]; }
};
void compare(RW &r, MW &m, const std::string &at) {
  mm::cmp(rm::obs(r.p), m.p.val(), "p", at);
  mm::cmp(rm::obs(r.q), m.q.val(), "q", at);
  mm::cmp(rm::obs(r.o), m.o.val(), "o", at);
  mm::cmp(rm::obs(r.a), m.a.val(), "a", at);
  mm::cmp(rm::obs(r.i), m.i.val(), "i", at);
  for (std::size_t k = 0; k < m.mp.size(); k++)
    if (!rm::near(r.gp.p()[k], m.mp[k]))
      mc::fail("after " + at + ": memory of p, element " + std::to_string(k + 1) + " is " + std::to_string(r.gp.p()[k]) + ", expected " + std::to_string(m.mp[k]));
  for (std::size_t k = 0; k < m.mq.size(); k++)
    if (!rm::near(r.gq.p()[k], m.mq[k]))
      mc::fail("after " + at + ": memory of q, element " + std::to_string(k + 1) + " is " + std::to_string(r.gq.p()[k]) + ", expected " + std::to_string(m.mq[k]));
  if (&r.p[0] != r.gp.p() || &r.q[0] != r.gq.p())
    mc::fail("after " + at + ": the variable does not refer to the caller's memory any more");
  r.gp.checkGuards();
  r.gq.checkGuards();
}
std::uint64_t hashM(const MW &m) {
  std::uint64_t h = 5;
  for (auto *v : {&m.p, &m.q, &m.o, &m.a, &m.i})
    h = mc::hmix(h, rm::hash(v->val()));
  return mc::hmix(mc::hmix(h, rm::hash(V(m.mp))), rm::hash(V(m.mq)));
}
bool tooBig(const MW &m) { return m.a.len > 60 || m.i.len > 60; }
template <class W> void callee(W &w, decltype(W::p) x) { x = w.val(0); } // handed over by value
#define BASIC                                                                  \
  MST(w.p = w.val(0)), MST(w.p = w.val(-1)), MST(w.p = w.val(1)), MST(w.p = 7.5), MST(w.poke(1) = -3.0), MST(w.a = w.p), MST(w.p = w.a), MST(w.o = w.p * 2.0), MST(w.p = w.o + 1.0), \
      MST(subset(w.p, w.p > 2.0) = 0.5), MST(w.q = w.q + w.q), MST(w.q = w.val(1)), MST(at(w.q, 2, 1) = 44.0), MST(w.addAll(w.p, 0.25))
static const std::vector<mm::Stmt<RW, MW>> SHORT = {BASIC};
static const std::vector<mm::Stmt<RW, MW>> AL = {
    BASIC, MST(w.addAll(w.p, 0.5)), MST(w.a = w.sum(w.p)), MST(w.addAll(w.q, 1.0)), MST(w.a = w.sum(w.o)), MST(w.p = true), MST(w.p = -2), MST(w.p = w.val(-2)), MST(w.p = w.val(2)), MST(w.p = w.p), MST(w.p = w.p + 1.0), MST(w.p = w.p + w.val(1)), MST(w.p = w.coca(w.p)),
    MST(w.p = w.coca(w.p, 1.0)), MST(w.p = w.rep(w.p, 2)), MST(w.p = w.colon(1, 2)), MST(w.p = w.coca(1, 2, 3)), MST(w.p = w.coca(true, false)), MST(w.p = w.p > 1.6), MST(w.p = -w.p), MST(w.p = w.matrix(2.5, 1, 2)),
    MST(w.p = w.q), MST(w.q = w.p), MST(w.q = w.matrix(3.5, 1, 2)), MST(w.q = w.matrix(3.5, 3, 2)), MST(w.q = w.val(-1)), MST(w.q = w.q * w.p), MST(w.q = subset(w.q, 2, true)), MST(w.pokeq(1) = 9.25), MST(w.q = 2.25),
    MST(subset(w.p, 1) = 5.5), MST(subset(w.p, w.n) = 6.5), MST(subset(w.p, w.n + 1) = 7.5), MST(subset(w.p, true) = w.p + 0.5), MST(subset(w.p, w.coca(1, 1)) = w.a), MST(at(w.p, w.n) = at(w.p, 1)), MST(at(w.p, w.n + 1) = 1.0),
    MST(subset(w.q, 1, true) = -1.0), MST(subset(w.q, true, w.c) = w.a), MST(subset(w.q, true, w.c + 1) = w.a), MST(at(w.q, 1, w.c + 1) = 1.0), MST(subset(w.o, true) = subset(w.p, true) * 1.0), MST(w.o = w.val(-1)), MST(w.o = w.val(0)),
    MST(w.i = w.p), MST(w.p = w.i), MST(w.a = w.q), MST(w.a = w.a + w.p), MST(w.p = subset(w.p, true)), MST(w.p = subset(w.q, true, 1)), MST(callee(w, w.p)),
    MST(w.p.fill(2.5)), MST(w.q.fill(-1.5)), MST(w.o.fill(3)), MST(w.a.fill(0.5)), MST(w.i.fill(2.0)), MST(w.p.back() = 8.5), MST(w.q.back() = w.a.back()), MST(w.o.back() = w.p.back() + 1.0), MST(w.a.back() = w.q.back()),
};
#if PART == 2
// a fresh BorrowPtr of n elements assigned from every kind and length of value
template <class F> void one(const char *nm, std::size_t n, F f) {
  mc::run([&] { return std::string(nm) + " with n=" + std::to_string(n); },
          [&] {
            long l0 = mc::A.live;
            f(n);
            if (mc::A.live != l0)
              mc::fail("memory blocks leaked");
            ++mc::C.transitions;
          });
}
template <class B, class G> void assign(std::size_t n, std::size_t k, G mk, V want) {
  rm::Guarded g(memP(int(n)));
  V before(memP(int(n)));
  {
    mc::Track t;
    ::BorrowPtr p(g.p(), n);
    bool thrown = false;
    try {
      p = mk(k);
    } catch (std::exception &) {
      thrown = true;
    }
    mc::A.tracking = false;
    if (thrown != (want.n() > n))
      mc::fail(thrown ? "rejected a value that fits" : "accepted a value longer than the memory");
    rm::expect(rm::obs(p), thrown ? before : want, "borrowing variable");
    for (std::size_t i = 0; i < n; i++)
      if (g.p()[i] != (thrown || i >= want.n() ? before.x[i] : want.x[i]))
        mc::fail("memory element " + std::to_string(i + 1));
    mc::state(mc::hmix(rm::hash(rm::obs(p)), thrown));
  }
  g.checkGuards();
}
template <class T> void kinds(std::size_t n, std::size_t k) {
  V want;
  for (std::size_t i = 0; i < k; i++)
    want.x.push_back(double(T(i % 3)));
  auto lv = [](std::size_t k) {
    mc::Track t(false);
    static Vec<T> v;
    v.resize(k);
    for (std::size_t i = 0; i < k; i++)
      v[i] = T(i % 3);
    return &v;
  };
  one("variable of other type", n, [&](std::size_t n) { assign<T>(n, k, [&](std::size_t k) -> Vec<T> & { return *lv(k); }, want); });
  one("temporary", n, [&](std::size_t n) { assign<T>(n, k, [&](std::size_t k) { return etr::coca(*lv(k)); }, want); });
  one("selection", n, [&](std::size_t n) { assign<T>(n, k, [&](std::size_t k) { return etr::subset(*lv(k), true); }, want); });
  V neg = want;
  for (auto &d : neg.x)
    d = -d;
  one("negation", n, [&](std::size_t n) { assign<T>(n, k, [&](std::size_t k) { return -*lv(k); }, neg); });
}
void explore() {
  std::size_t N = mc::C.thorough ? 40 : 20;
  for (std::size_t n = 1; n <= N; n++)
    for (std::size_t k = 1; k <= n + 3; k++) {
      kinds<double>(n, k);
      kinds<int>(n, k);
      kinds<bool>(n, k);
      for (std::size_t r = 1; r <= k; r++)
        if (k % r == 0)
          one("matrix", n, [&](std::size_t n) { assign<double>(n, k, [&](std::size_t k) { Vec<double> v = etr::matrix(1.5, int(r), int(k / r)); return v; }, V(std::vector<double>(k, 1.5), r, k / r)); });
    }
}
#elif PART == 3
// the container itself: two Borrow objects over two areas of memory
using Bo = etr::Borrow<double>;
struct RB {
  rm::Guarded gx, gy;
  Bo a, b;
  explicit RB(int k) : gx(memP(4)), gy(memP(6)) {
    if (k >= 1)
      a.init(gx.p(), 4);
    if (k >= 2)
      b = Bo(gy.p(), 6);
    if (k >= 3) {
      a.resize(2);
      b.setMatrix(true, 2, 3);
    }
  }
  double *X() { return gx.p(); }
  double *Y() { return gy.p(); }
  void addAll(Bo &x) {
    for (auto &e : x)
      e += 0.25;
  }
  template <class V> void fillV(Bo &x, V &&v) { x.fill(std::forward<V>(v)); }
};
struct MBo {
  double *p = nullptr;
  std::size_t sz = 0, cap = 0, r = 0, c = 0;
  bool m = false;
  void init(double *q, std::size_t n) { p = q, sz = cap = n; }
  MBo take() {
    MBo o = *this;
    p = nullptr;
    sz = cap = 0;
    return o;
  }
  void resize(std::size_t n) {
    if (n < 1 || n > cap)
      md::rej("size");
    sz = n;
  }
  double &at(std::size_t i) {
    if (i >= sz)
      md::rej("index");
    return p[i];
  }
  void fill(double v) { std::fill(p, p + sz, v); }
  void fillV(std::vector<double> v) {
    if (v.size() != sz)
      md::rej("length");
    std::copy(v.begin(), v.end(), p);
  }
};
struct MB {
  std::vector<double> x{1.5, 2.5, 3.5, 4.5}, y{1.5, 2.5, 3.5, 4.5, 5.5, 6.5};
  MBo a, b;
  double *X() { return x.data(); }
  double *Y() { return y.data(); }
  explicit MB(int k) {
    if (k >= 1)
      a.init(X(), 4);
    if (k >= 2)
      b.init(Y(), 6);
    if (k >= 3)
      a.sz = 2, b.m = true, b.r = 2, b.c = 3;
  }
  MB(const MB &) = delete;
};
void cmpB(RB &w, MB &m, Bo &r, MBo &s, const char *nm, const std::string &at, bool bounds) {
  auto bad = [&](const std::string &t) { mc::fail("after " + at + ": " + nm + ": " + t); };
  if (r.size() != s.sz)
    bad("length " + std::to_string(r.size()) + ", expected " + std::to_string(s.sz));
  if (r.capacity != s.cap)
    bad("capacity " + std::to_string(r.capacity) + ", expected " + std::to_string(s.cap));
  if (r.im() != s.m || (s.m && (r.nr() != s.r || r.nc() != s.c)))
    bad("shape");
  double *want = !s.p ? nullptr : s.p >= m.X() && s.p < m.X() + 4 ? w.X() + (s.p - m.X()) : w.Y() + (s.p - m.Y());
  if (s.sz && (r.data() != want || &r[0] != want))
    bad("does not refer to the caller's memory");
  const Bo &c = r;
  for (std::size_t i = 0; i < s.sz; i++)
    if (r[i] != s.p[i] || c[i] != s.p[i])
      bad("element " + std::to_string(i) + " is " + std::to_string(r[i]) + ", expected " + std::to_string(s.p[i]));
  for (std::size_t i : {s.sz, s.sz + 1, ~std::size_t(0)})
    for (int k = 0; k < 3 && bounds; k++) {
      bool thrown = false;
      try {
        k == 0 ? void(r[i] = 1) : k == 1 ? void(c[i]) : r.set(i, 1.0);
      } catch (std::exception &) {
        thrown = true;
      }
      if (!thrown)
        bad("element beyond the end is accessible");
    }
  std::size_t n = 0;
  for (double d : r)
    if (n >= s.sz || d != s.p[n++])
      bad("iteration");
  if (n != s.sz)
    bad("iteration ends early");
  if (!bounds)
    return;
  bool thrown = false;
  try {
    if (&r.back() != want + s.sz - 1)
      bad("back() is not the last element");
  } catch (std::exception &e) {
    thrown = true;
  }
  if (thrown != !s.sz)
    bad("back()");
  std::ostringstream os;
  os << r;
  std::ostringstream ex;
  ex << "Vec [ ";
  for (std::size_t i = 0; i < s.sz; i++)
    ex << s.p[i] << " ";
  ex << "]";
  if (os.str() != ex.str())
    bad("printed as " + os.str());
}
std::uint64_t hashM(const MB &m);
void compare(RB &r, MB &m, const std::string &at) {
  static std::set<std::pair<std::uint64_t, std::string>> seen; // everything once per state and last statement
  bool all = seen.insert({hashM(m), at}).second;
  cmpB(r, m, r.a, m.a, "a", at, all);
  cmpB(r, m, r.b, m.b, "b", at, all);
  for (int i = 0; i < 6; i++)
    if ((i < 4 && r.X()[i] != m.x[i]) || r.Y()[i] != m.y[i])
      mc::fail("after " + at + ": memory element " + std::to_string(i));
  r.gx.checkGuards();
  r.gy.checkGuards();
}
std::uint64_t hashM(const MB &m) {
  std::uint64_t h = 7;
  for (auto *v : {&m.x, &m.y})
    for (double d : *v)
      h = mc::hmix(h, std::uint64_t(d * 64));
  for (auto *s : {&m.a, &m.b})
    h = mc::hmix(mc::hmix(mc::hmix(h, s->sz * 100 + s->cap), s->p == nullptr ? 0 : s->p >= m.x.data() && s->p < m.x.data() + 4 ? 1 + (s->p - m.x.data()) : 10 + (s->p - m.y.data())), s->m ? s->r * 10 + s->c : 0);
  return h;
}
bool tooBig(const MB &) { return false; }
#define BST(name, realCode, ...)                                               \
  mm::Stmt<RB, MB> { name, [](RB & w) { realCode; }, [](MB & w) { __VA_ARGS__; } }
#define BSAME(...) BST(#__VA_ARGS__, __VA_ARGS__, __VA_ARGS__)
using VB = etr::Vec<double, etr::Borrow<double>>;
static const std::vector<mm::Stmt<RB, MB>> BAL = {
    BSAME(w.a.init(w.X(), 4)), BSAME(w.a.init(w.Y() + 1, 3)), BSAME(w.b.init(w.X() + 1, 2)), BSAME(w.b.init(w.Y(), 6)),
    BSAME(w.a = w.b), BSAME(w.b = w.a), BSAME(w.a = w.a),
    BST("copy of a filled", Bo c(w.a); c.fill(-1.0), w.a.fill(-1)),
    BST("b = copy of a resized", Bo c(w.a); c.resize(1); w.b = c, MBo c = w.a; c.resize(1); w.b = c),
    BST("b = a moved out", Bo c(std::move(w.a)); w.b = c, w.b = w.a.take()),
    BST("a = Borrow(memory, size)", w.a = Bo(w.X() + 2, 2), w.a = MBo(); w.a.init(w.X() + 2, 2)),
    BST("a = Borrow()", w.a = Bo(), w.a = MBo()),
    BSAME(w.a.resize(0)), BSAME(w.a.resize(1)), BSAME(w.a.resize(2)), BSAME(w.a.resize(4)), BSAME(w.a.resize(5)), BSAME(w.b.resize(6)), BSAME(w.b.resize(7)), BSAME(w.b.resize(3)),
    BST("a.set(0, 9.5)", w.a.set(0, 9.5), w.a.at(0) = 9.5), BST("a.set(3, 8.5)", w.a.set(3, 8.5), w.a.at(3) = 8.5), BST("b[5] = 7.5", w.b[5] = 7.5, w.b.at(5) = 7.5),
    BSAME(w.a.fill(2.5)), BSAME(w.b.fill(3)), BSAME(w.a.fill(true)),
    BST("a.fill(temporary of 2)", w.fillV(w.a, etr::coca(1.5, 0.5)), w.a.fillV({1.5, 0.5})),
    BST("a.fill(ints of 2)", w.fillV(w.a, etr::coca(5, 6)), w.a.fillV({5, 6})),
    BST("a.fill(variable of 4)", Vec<double> v; v = etr::coca(1.25, 2.25, 3.25, 4.25); w.fillV(w.a, v), w.a.fillV({1.25, 2.25, 3.25, 4.25})),
    BST("b.fill(logicals of 6)", Vec<bool> v; v = etr::coca(true, false, true, true, false, true); w.fillV(w.b, v), w.b.fillV({1, 0, 1, 1, 0, 1})),
    BST("b.fill(b)", w.b.fill(w.b), (void)0),
    BST("a.back() = 4.5", w.a.back() = 4.5, w.a.at(w.a.sz - 1) = 4.5),
    BST("iterate and add", w.addAll(w.a), for (std::size_t i = 0; i < w.a.sz; i++) w.a.p[i] += 0.25),
    BST("a.setMatrix(true, 2, 2)", w.a.setMatrix(true, 2, 2), w.a.m = true; w.a.r = w.a.c = 2), BST("a.setMatrix(b.mp)", w.a.setMatrix(w.b.mp), w.a.m = w.b.m; w.a.r = w.b.r; w.a.c = w.b.c),
    BST("Vec(a).fill(6.5)", VB v(w.a); v.fill(6.5), w.a.fill(6.5)),
    BST("Vec(a).back() = 1.75", VB v(w.a); v.back() = 1.75, w.a.at(w.a.sz - 1) = 1.75),
    BST("Vec(std::move(a))[0] = 3.75", VB v(std::move(w.a)); if (v.size()) v[0] = 3.75, if (w.a.sz) w.a.p[0] = 3.75),
};
void explore() {
  static const char *names[] = {"empty", "a of 4", "a of 4, b of 6", "a of 2 in 4, b 2x3"};
  for (int k = 0; k < 4; k++) {
#ifdef LOOPS
    mm::allLoops<RB, MB>(k, names[k], BAL, 2, mc::C.thorough ? 100 : 30);
    continue;
#endif
    mm::allSeqs<RB, MB>(k, names[k], BAL, 3 + (mc::C.thorough && k == 2));
  }
}
#else
void explore() {
  static const char *names[] = {"", "n=1, q 2x1", "n=2, q 2x2", "n=3, q 2x3", "n=4, q 2x3"};
  for (int n = 1; n <= 4; n++) {
#ifdef LOOPS
    if (PART == 0)
      mm::allLoops<RW, MW>(n, names[n], AL, 2, mc::C.thorough ? 150 : 40);
    else
      mm::allLoops<RW, MW>(n, names[n], SHORT, 3, 40);
    continue;
#endif
    if (PART == 0)
      mm::allSeqs<RW, MW>(n, names[n], AL, mc::C.thorough || n == 3 ? 3 : 2);
    else
      mm::allSeqs<RW, MW>(n, names[n], SHORT, 4 + mc::C.thorough);
  }
}
#endif
MACHINE_MAIN

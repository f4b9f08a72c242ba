// C27: the R mode, with the stand-in of R in h/rstub. PART 0 = conversions of
// all small R objects and values, PART 1 = statements on variables that refer to
// R objects, PART 2 = the same with every allocation failing once, PART 3 =
// distribution functions
#define ETR_RMODE
#include "mc.hpp"
#define RSTUB_SCOPE mc::Track rstubOff_(false);
#include "machine.hpp"
#ifndef PART
#define PART 0
#endif
using etr::Vec;
using md::Var;
using rm::SV;
using rm::V;
using rstub::H;
static const char *bad = nullptr;
inline void rcheck(const std::string &at) {
  if (H.error)
    mc::fail("after " + at + ": " + H.error);
  for (SEXP s : H.all)
    if (!rstub::guards(s))
      mc::fail("after " + at + ": memory next to the elements of an R object was written");
}
// an R object with these elements; live until the end of the case
inline SEXP robj(SEXPTYPE t, const std::vector<double> &x, bool m = false, int r = 0, int c = 0) {
  mc::Track off(false);
  SEXP s = m ? Rf_allocMatrix(t, r, c) : Rf_allocVector(t, x.size());
  R_PreserveObject(s);
  for (std::size_t i = 0; i < x.size(); i++)
    if (t == REALSXP)
      REAL(s)[i] = x[i];
    else
      (t == INTSXP ? INTEGER(s) : LOGICAL(s))[i] = x[i] != x[i] ? NA_INTEGER : int(x[i]);
  return s;
}
inline V robs(SEXP s) {
  rstub::use(s);
  V v;
  for (long i = 0; i < s->n; i++)
    v.x.push_back(s->type == REALSXP ? REAL(s)[i] : s->type == INTSXP ? INTEGER(s)[i] : LOGICAL(s)[i]);
  v.m = s->dim;
  if (v.m)
    v.r = s->nr, v.c = s->nc;
  return v;
}
inline bool bits(double a, double b) { return std::memcmp(&a, &b, 8) == 0; }
inline void sameBits(const V &got, const V &want, const std::string &what) {
  bool ok = got.x.size() == want.x.size() && got.m == want.m && (!got.m || (got.r == want.r && got.c == want.c));
  for (std::size_t i = 0; ok && i < got.x.size(); i++)
    ok = bits(got.x[i], want.x[i]);
  if (!ok)
    mc::fail(what + ": is " + rm::str(got) + ", expected " + rm::str(want));
}
template <class F> void one(const std::string &nm, F f) {
  mc::run([&] { return nm; },
          [&] {
            long l0 = mc::A.live;
            try {
              f();
            } catch (...) {
              rstub::reset();
              throw;
            }
            rcheck("the case");
            bad = rstub::reset();
            if (bad)
              mc::fail(bad);
            if (mc::A.live != l0)
              mc::fail("memory blocks leaked: " + std::to_string(mc::A.live - l0));
            ++mc::C.transitions;
          });
}
#if PART == 0
template <class T> constexpr SEXPTYPE rt = std::is_same_v<T, double> ? REALSXP : std::is_same_v<T, int> ? INTSXP : LGLSXP;
template <class F> bool throws(F f) {
  try {
    mc::Track t;
    f();
  } catch (mc::Violation &) {
    throw;
  } catch (std::exception &) {
    return true;
  }
  return false;
}
// s2 := a new R object for x
template <class X> SEXP toR(X &&x) {
  SEXP s;
  {
    mc::Track t;
    s = etr::cpp2R(std::forward<X>(x));
  }
  if (s->preserved || s->dead)
    mc::fail("cpp2R returned an object that is not new");
  if (!H.stack.empty())
    mc::fail("cpp2R leaves objects protected: stack imbalance");
  R_PreserveObject(s);
  return s;
}
inline void type(SEXP s, SEXPTYPE t, const char *what) {
  if (s->type != t)
    mc::fail(std::string(what) + ": wrong type of the R object");
}
// all ways between R and a variable that held `old` before
template <class T> void trip(SEXP s, const V &want, const V &old) {
  Vec<T> v, other;
  {
    mc::Track t;
    if (old.n())
      rm::put(v, old);
    v = s;
  }
  sameBits(rm::obs(v), want, "variable = R object");
  sameBits(robs(s), want, "the R object after the assignment");
  SEXP s2 = toR(v);
  type(s2, rt<T>, "cpp2R(variable)");
  sameBits(robs(s2), want, "cpp2R(variable)");
  sameBits(rm::obs(v), want, "variable after cpp2R");
  if (s2 == s)
    mc::fail("cpp2R returns the argument's object");
  // independence
  const double keep = rm::obs(v).x[0];
  {
    mc::Track t;
    v[0] = T(!keep);
  }
  sameBits(robs(s), want, "the R object after changing the variable");
  sameBits(robs(s2), want, "the returned R object after changing the variable");
  {
    mc::Track t;
    v[0] = T(keep);
  }
  {
    mc::Track t;
    other = v;
    other = s2;
    v = s; // again
  }
  sameBits(rm::obs(other), want, "second variable");
  sameBits(rm::obs(v), want, "variable assigned twice");
  // usable as any other value
  {
    mc::Track t;
    Vec<T> w = v;
    w.resize(want.n() + 3);
    w = etr::coca(v, v);
    other = w;
  }
  V twice = want;
  rm::noShape(twice);
  for (std::size_t i = 0; i < want.n(); i++)
    twice.x.push_back(want.x[i]);
  sameBits(rm::obs(other), twice, "coca of the converted value");
  // lazily evaluated values
  SEXP e = toR(v == v);
  type(e, LGLSXP, "cpp2R(comparison)");
  SEXP t3 = toR(etr::subset(v, true));
  type(t3, rt<T>, "cpp2R(selection)");
  V flat = want;
  rm::noShape(flat);
  sameBits(robs(t3), flat, "cpp2R(selection)");
  SEXP t4 = toR(etr::coca(v));
  type(t4, rt<T>, "cpp2R(temporary)");
  sameBits(robs(t4), flat, "cpp2R(temporary)");
  if constexpr (std::is_same_v<T, double>) {
    SEXP t5 = toR(v * 2.0);
    type(t5, REALSXP, "cpp2R(calculation)");
    V dbl = want;
    for (auto &d : dbl.x)
      d = d * 2.0;
    mm::cmp(robs(t5), dbl, "cpp2R(calculation)", "conversion");
    SEXP t6 = toR(-v);
    V neg = want;
    for (auto &d : neg.x)
      d = -d;
    mm::cmp(robs(t6), neg, "cpp2R(negation)", "conversion");
    if (want.m) {
      SEXP t7 = toR(etr::subset(v, true, true));
      sameBits(robs(t7), want, "cpp2R(selection of a matrix)");
    }
  }
  mc::state(mc::hmix(rm::hash(want), std::size_t(rt<T>) * 31 + old.n()));
}
template <class T, class S> void reject(SEXP s, const V &old) {
  (void)sizeof(S);
  Vec<T> v;
  {
    mc::Track t;
    if (old.n())
      rm::put(v, old);
  }
  if (!throws([&] { v = s; }))
    mc::fail("an R object of another type was accepted");
  if (!throws([&] { etr::BaseStore<T> b(s); }))
    mc::fail("a store accepts an R object of another type");
  sameBits(rm::obs(v), old, "variable after the rejected assignment");
  {
    mc::Track t;
    v = etr::coca(T(1), T(0));
    v = etr::coca(v, v);
  }
  sameBits(rm::obs(v), V({1, 0, 1, 0}), "variable assigned after a rejected assignment");
}
// Rcpp's and Armadillo's types
inline void handles(SEXP s, const V &want, const V &old) {
  V flat = want;
  rm::noShape(flat);
  Vec<double> v;
  {
    mc::Track t;
    if (old.n())
      rm::put(v, old);
  }
  auto expect = [&](const V &w, const char *nm) {
    sameBits(rm::obs(v), w, nm);
    sameBits(robs(s), want, "the R object");
  };
  auto back = [&](const V &w) {
    Rcpp::NumericVector r;
    {
      mc::Track t;
      Rcpp::NumericVector x = v;
      r = x;
    }
    sameBits(robs(r), V(w.x), "NumericVector of the variable");
    arma::vec a;
    {
      mc::Track t(false);
      a = v;
    }
    if (a.n_elem != w.n())
      mc::fail("arma::vec of the variable has another length");
    sameBits(V(a.v), V(w.x), "arma::vec of the variable");
    if (w.m) {
      Rcpp::NumericMatrix r2(1, 1);
      {
        mc::Track t;
        Rcpp::NumericMatrix x = v;
        r2 = x;
      }
      sameBits(robs(r2), w, "NumericMatrix of the variable");
      arma::mat m;
      {
        mc::Track t(false);
        m = v;
      }
      if (m.n_rows != w.r || m.n_cols != w.c)
        mc::fail("arma::mat of the variable has other dimensions");
      sameBits(V(m.v), V(w.x), "arma::mat of the variable");
    } else if (!throws([&] { Rcpp::NumericMatrix x = v; }) || !throws([&] { arma::mat x = v; }))
      mc::fail("a vector is converted to a matrix");
  };
  Rcpp::NumericVector nv(s);
  arma::vec av(want.n());
  for (std::size_t i = 0; i < want.n(); i++)
    av[i] = want.x[i];
  {
    mc::Track t;
    v = nv;
  }
  expect(flat, "variable = NumericVector");
  back(flat);
  {
    mc::Track t;
    Vec<double> w(nv);
    v = w;
    v[0] = v[0];
  }
  expect(flat, "variable of a NumericVector");
  if (want.m) {
    Rcpp::NumericMatrix nm(s);
    {
      mc::Track t;
      v = nm;
    }
    expect(want, "variable = NumericMatrix");
    back(want);
    {
      mc::Track t;
      v = 1.5;
      Vec<double> w(nm);
      v = w;
    }
    expect(want, "variable of a NumericMatrix");
    arma::mat am(want.r, want.c);
    am.v = av.v;
    {
      mc::Track t;
      v = 1.5;
      v = am;
    }
    expect(want, "variable = arma::mat");
    {
      mc::Track t(false);
      Vec<double> w(am);
      v = w;
    }
    expect(want, "variable of an arma::mat");
  }
  {
    mc::Track t;
    v = av;
  }
  expect(flat, "variable = arma::vec");
  {
    mc::Track t(false);
    Vec<double> w(av);
    v = w;
  }
  expect(flat, "variable of an arma::vec");
  {
    mc::Track t;
    v[0] = 77.0;
  }
  sameBits(robs(s), want, "the R object after changing the variable");
}
static const std::vector<double> AD = {0.0, -1.5, 1e300, rm::V({}).n() + std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 5e-324, -0.0},
                                 AI = {0, 1, -7, 2147483647, -2147483647.0 - 1.0}, AB = {0, 1};
static const std::vector<V> OLD = {V{}, V{1}, V{1, 0, 1, 1, 0}, V({1, 0, 1, 0}, 2, 2)};
template <class T> void values(const std::vector<double> &x, bool m, int r, int c) {
  V want = m ? V(x, r, c) : V(x);
  for (auto &old : OLD) {
    one("R object " + rm::str(want) + " of type " + std::to_string(rt<T>) + " for a variable that held " + rm::str(old), [&] {
      trip<T>(robj(rt<T>, x, m, r, c), want, old);
    });
    one("rejected: R object " + rm::str(want) + " of type " + std::to_string(rt<T>) + " for a variable that held " + rm::str(old), [&] {
      SEXP s = robj(rt<T>, x, m, r, c);
      if constexpr (!std::is_same_v<T, double>)
        reject<double, T>(s, old);
      if constexpr (!std::is_same_v<T, int>)
        reject<int, T>(s, old);
      if constexpr (!std::is_same_v<T, bool>)
        reject<bool, T>(s, old);
      reject<T, T>(robj(STRSXP, {}), old);
      reject<T, T>(R_NilValue, old);
    });
    if constexpr (std::is_same_v<T, double>)
      one("Rcpp and Armadillo " + rm::str(want) + " for a variable that held " + rm::str(old), [&] { handles(robj(REALSXP, x, m, r, c), want, old); });
  }
}
template <class T> void patterns(const std::vector<double> &al, std::size_t n, bool m, int r, int c) {
  std::vector<std::size_t> ix(n, 0);
  if (n > 3) { // rotations
    for (std::size_t s = 0; s < al.size(); s++) {
      std::vector<double> x;
      for (std::size_t i = 0; i < n; i++)
        x.push_back(al[(s + i) % al.size()]);
      values<T>(x, m, r, c);
    }
    return;
  }
  for (;;) {
    std::vector<double> x;
    for (auto i : ix)
      x.push_back(al[i]);
    values<T>(x, m, r, c);
    int d = int(n) - 1;
    while (d >= 0 && ++ix[d] == al.size())
      ix[d--] = 0;
    if (d < 0)
      return;
  }
}
template <class T> void shapes(const std::vector<double> &al) {
  for (std::size_t n = 1; n <= 7; n++)
    patterns<T>(al, n, false, 0, 0);
  for (int r = 1; r <= 4; r++)
    for (int c = 1; c <= 4; c++)
      patterns<T>(al, r * c, true, r, c);
  for (std::size_t n : {20, 100, 257, 1000, 5000})
    patterns<T>(al, n, false, 0, 0);
  patterns<T>(al, 1200, true, 40, 30);
  patterns<T>(al, 1200, true, 1, 1200);
}
void explore() {
  shapes<double>(AD);
  shapes<int>(AI);
  shapes<bool>(AB);
  for (double x : {1.5, 0.0, -0.0, 1e308, -2.25, 3.0})
    one("cpp2R(" + std::to_string(x) + ")", [&] {
      SEXP s = toR(x);
      type(s, REALSXP, "cpp2R(double)");
      sameBits(robs(s), V{x}, "cpp2R(double)");
    });
  for (int x : {0, 1, -1, 7, 2147483647, -2147483647})
    one("cpp2R(int " + std::to_string(x) + ")", [&] {
      SEXP s = toR(x);
      type(s, INTSXP, "cpp2R(int)");
      sameBits(robs(s), V{double(x)}, "cpp2R(int)");
    });
  for (bool x : {false, true})
    one("cpp2R(bool " + std::to_string(x) + ")", [&] {
      SEXP s = toR(x);
      type(s, LGLSXP, "cpp2R(bool)");
      sameBits(robs(s), V{double(x)}, "cpp2R(bool)");
    });
  for (const char *x : {"", "a", "hello world", "\xc3\xa4\xe2\x82\xac", "0123456789012345678901234567890123456789"})
    one(std::string("cpp2R(\"") + x + "\")", [&] {
      SEXP s = toR(x);
      std::string str = x;
      SEXP s2 = toR(str);
      type(s, STRSXP, "cpp2R(string)");
      type(s2, STRSXP, "cpp2R(std::string)");
      if (s->str != x || s2->str != x || str != x)
        mc::fail("another string");
    });
  one("cpp2R()", [&] {
    if (etr::cpp2R() != R_NilValue)
      mc::fail("cpp2R() is not NULL");
  });
  for (bool ok : {true, false})
    one("errors and warnings of R", [&] {
      bool thrown = false;
      try {
        etr::ass(ok, "some message");
      } catch (Rcpp::exception &e) {
        thrown = std::string(e.what()) == "some message";
      }
      if (thrown == ok)
        mc::fail("errors are not reported as errors of R");
      long w = H.warnings;
      etr::warn(ok, "some warning");
      if (H.warnings - w != !ok || (!ok && H.lastWarning.find("some warning") == std::string::npos))
        mc::fail("warnings are not reported as warnings of R");
    });
  // printing goes to R's console and looks as in the standalone mode
  struct P {
    const char *nm, *want;
    std::function<void()> f;
  };
  for (auto &p : std::vector<P>{
           {"print(vector)", "1.5 \n-2 \n3 \n\n", [] { Vec<double> v = etr::coca(1.5, -2.0, 3.0); etr::print(v); }},
           {"print(text)", "hello\n", [] { etr::print("hello"); }},
           {"print(matrix)", nullptr, [] { Vec<double> v = etr::matrix(etr::coca(1.0, 2.0, 3.0, 4.0), 2, 2); etr::print(v); }},
           {"print(number)", nullptr, [] { etr::print(2.5); }},
           {"print()", "\n", [] { etr::print(); }}})
    mc::run([&] { return std::string(p.nm); }, [&] {
      Rcpp::Rcout.s.str("");
      std::ostringstream std_;
      auto *o = std::cout.rdbuf(std_.rdbuf());
      p.f();
      std::cout.rdbuf(o);
      if (!std_.str().empty())
        mc::fail("printed to std::cout instead of R's console");
      std::string got = Rcpp::Rcout.s.str();
      std::istringstream is(got);
      std::vector<std::string> words;
      for (std::string w; is >> w;)
        words.push_back(w);
      std::vector<std::string> want = std::string(p.nm) == "print(matrix)" ? std::vector<std::string>{"1", "3", "2", "4"} : std::string(p.nm) == "print(number)" ? std::vector<std::string>{"2.5"} : std::string(p.nm) == "print()" ? std::vector<std::string>{} : std::string(p.nm) == "print(text)" ? std::vector<std::string>{"hello"} : std::vector<std::string>{"1.5", "-2", "3"};
      if (words != want || got.empty())
        mc::fail("wrong text on R's console: " + got);
      rstub::reset();
    });
}
#elif PART == 1 || PART == 2
#define WORLD_FUNS(ns)                                                         \
  template <class... A> auto coca(A &&...x) { return ns::coca(std::forward<A>(x)...); } \
  template <class X, class R, class C> auto matrix(X &&x, R &&r, C &&c) { return ns::matrix(std::forward<X>(x), std::forward<R>(r), std::forward<C>(c)); } \
  template <class X, class R> auto rep(X &&x, R &&r) { return ns::rep(std::forward<X>(x), std::forward<R>(r)); } \
  template <class X, class R> auto colon(X &&x, R &&r) { return ns::colon(std::forward<X>(x), std::forward<R>(r)); }
inline std::vector<double> memP(int n) {
  std::vector<double> s;
  for (int i = 0; i < n; i++)
    s.push_back(1.5 + i);
  return s;
}
constexpr int NOBJ = 4;
// R objects: 0 = n elements (p and o refer to it), 1 = 2 x c matrix (q),
// 2 = vector of 3, 3 = 1 x 2 matrix; I = an integer object
struct Reset { // forgets the R objects after all variables are gone
  ~Reset() { rstub::reset(); }
};
struct RW {
  Reset reset;
  int n, c;
  SEXP obj[NOBJ], I;
  ::WrapperSEXP p, q, o;
  Vec<double> a;
  Vec<int> i;
  V outV;
  WORLD_FUNS(etr)
  explicit RW(int k) : n(k), c(k <= 3 ? k : 3), obj{robj(REALSXP, memP(k)), robj(REALSXP, memP(2 * c), true, 2, c), robj(REALSXP, {50.5, 60.5, 70.5}), robj(REALSXP, {-8.5, -9.5}, true, 1, 2)}, I(robj(INTSXP, {4, 5})), p(obj[0]), q(obj[1]), o(obj[0]) {
    mc::Track t;
    a = etr::coca(10.0, 20.0);
    i = etr::coca(1, 1);
  }
  Vec<double> val(int d) { // a value of n+d elements
    Vec<double> v;
    if (n + d > 0) {
      v.resize(n + d);
      for (int k = 0; k < n + d; k++)
        v[k] = 100.0 + 10 * d + k;
    }
    return v;
  }
  template <class X> void addAll(X &x, double k) {
    for (auto &e : x)
      e = e + k;
  }
  template <class X> double sum(const X &x) {
    double s = 0;
    for (auto e : x)
      s = s * 1.5 + e;
    return s;
  }
  double &poke(int k) { return REAL(obj[0])[k % n]; }
  double &pokeq(int k) { return REAL(obj[1])[k % (2 * c)]; }
  void bind(::WrapperSEXP &x, int k) { x = obj[k]; }
  void bindI(::WrapperSEXP &x) { x = I; }
  void take(int k) { a = obj[k]; }
  void takeI() { a = I; }
  void takeII() { i = I; }
  template <class X> void out(X &&x) {
    SEXP s = etr::cpp2R(x);
    mc::Track off(false);
    if (!H.stack.empty())
      mc::fail("cpp2R leaves objects protected");
    for (SEXP k : obj)
      if (k == s)
        mc::fail("cpp2R returned an existing R object");
    outV = robs(s);
  }
  void push(::WrapperSEXP &x, double v) { x.d.push_back(v); }
  void size(::WrapperSEXP &x, int k) { x.resize(k); }
  void last(::WrapperSEXP &x, double v) { x.d.back() = v; }
  void fill(::WrapperSEXP &x, double v) { x.fill(v); }
  void filli(::WrapperSEXP &x, int v) { x.d.fill(v); }
  void fillv(::WrapperSEXP &x, Vec<double> &v) { x.d.fill(v); }
  void copyd(::WrapperSEXP &x, const ::WrapperSEXP &y) { x.d = y.d; } // the containers
  void dup(::WrapperSEXP &x) {
    auto c(x.d);
    c.push_back(99.5);
    c[0] = -99.5;
    c.fill(98);
  }
};
struct MW {
  int n, c;
  SV mem[NOBJ];
  bool dim[NOBJ] = {false, true, false, true};
  std::size_t nr[NOBJ] = {0, 2, 0, 1}, nc[NOBJ];
  Var p{md::D}, q{md::D}, o{md::D}, a{md::D}, i{md::I};
  V outV;
  WORLD_FUNS(md)
  explicit MW(int k) : n(k), c(k <= 3 ? k : 3), mem{memP(k), memP(2 * c), SV{50.5, 60.5, 70.5}, SV{-8.5, -9.5}}, nc{0, std::size_t(c), 0, 2} {
    p.detach = q.detach = o.detach = true;
    bind(p, 0);
    bind(q, 1);
    bind(o, 0);
    a = md::coca(10.0, 20.0);
    i = md::coca(1, 1);
  }
  MW(const MW &) = delete;
  V val(int d) {
    V v;
    for (int k = 0; k < n + d; k++)
      v.x.push_back(100.0 + 10 * d + k);
    return v;
  }
  void addAll(Var &x, double k) {
    for (std::size_t i = 0; i < x.len; i++)
      x.mem()[x.off + i] += k;
  }
  double sum(const Var &x) {
    double s = 0;
    for (double e : x.val().x)
      s = s * 1.5 + e;
    return s;
  }
  double &poke(int k) { return mem[0][k % n]; }
  double &pokeq(int k) { return mem[1][k % (2 * c)]; }
  void bind(Var &x, int k) {
    x.borrow = true;
    x.ext = &mem[k];
    x.len = mem[k].size();
    x.m = dim[k];
    x.r = nr[k];
    x.c = nc[k];
  }
  void bindI(Var &) { md::rej("an integer object for a numeric variable"); }
  void take(int k) {
    V v(mem[k]);
    if (dim[k])
      v = V(std::vector<double>(mem[k].begin(), mem[k].end()), nr[k], nc[k]);
    a.set(v);
  }
  void takeI() { md::rej("an integer object for a numeric variable"); }
  void takeII() { i.set(V{4, 5}); }
  template <class X> void out(X &&x) { outV = md::toV(x); }
  void grow(Var &x, std::size_t k) { // memory of its own
    SV s(x.val().x.vec());
    s.resize(k);
    x.borrow = false;
    x.ext = nullptr;
    x.own = s;
  }
  void push(Var &x, double v) {
    if (x.m)
      throw md::Unspec{};
    if (!x.borrow || x.len == x.cap())
      grow(x, x.len + 1);
    x.mem()[x.len] = v;
    x.len++;
  }
  void size(Var &x, std::size_t k) {
    if (x.m || (!x.borrow && k > x.len))
      throw md::Unspec{};
    if (x.borrow && k > x.cap()) {
      grow(x, k);
      for (auto &d : x.own)
        d = 0;
    } else if (!x.borrow)
      x.own.resize(k);
    x.len = k;
  }
  void last(Var &x, double v) { x.mem()[x.len - 1] = v; }
  void fill(Var &x, double v) {
    for (std::size_t k = 0; k < x.len; k++)
      x.mem()[k] = v;
  }
  void filli(Var &x, int v) { fill(x, v); }
  void fillv(Var &x, Var &v) {
    if (v.len != x.len)
      md::rej("lengths differ");
    V w = v.val();
    for (std::size_t k = 0; k < x.len; k++)
      x.mem()[k] = w.x[k];
  }
  void copyd(Var &x, Var &y) { x = y; }
  void dup(Var &) {}
};
void compareObj(RW &r, MW &m, const std::string &at) {
  for (int k = 0; k < NOBJ; k++) {
    V w(std::vector<double>(m.mem[k].begin(), m.mem[k].end()));
    if (m.dim[k])
      w = V(w.x.vec(), m.nr[k], m.nc[k]);
    mm::cmp(robs(r.obj[k]), w, "R object " + std::to_string(k), at);
  }
  mm::cmp(robs(r.I), V{4, 5}, "the integer R object", at);
  rcheck(at);
}
void compare(RW &r, MW &m, const std::string &at) {
  mm::cmp(rm::obs(r.p), m.p.val(), "p", at);
  mm::cmp(rm::obs(r.q), m.q.val(), "q", at);
  mm::cmp(rm::obs(r.o), m.o.val(), "o", at);
  mm::cmp(rm::obs(r.a), m.a.val(), "a", at);
  mm::cmp(rm::obs(r.i), m.i.val(), "i", at);
  mm::cmp(r.outV, m.outV, "the returned R object", at);
  compareObj(r, m, at);
  auto ref = [&](::WrapperSEXP &x, Var &y, const char *nm) {
    for (int k = 0; k < NOBJ; k++)
      if ((&x[0] == REAL(r.obj[k])) != (y.borrow && y.ext == &m.mem[k]))
        mc::fail("after " + at + ": " + nm + (y.borrow ? " does not refer to the R object any more" : " refers to an R object"));
  };
  ref(r.p, m.p, "p");
  ref(r.q, m.q, "q");
  ref(r.o, m.o, "o");
}
std::uint64_t hashM(const MW &m) {
  std::uint64_t h = 5;
  for (auto *v : {&m.p, &m.q, &m.o, &m.a, &m.i})
    h = mc::hmix(mc::hmix(h, rm::hash(v->val())), v->borrow * 8 + (v->ext ? v->ext - m.mem : 7));
  for (auto &x : m.mem)
    h = mc::hmix(h, rm::hash(V(x)));
  return h;
}
bool tooBig(const MW &m) { std::size_t l = 60 + 4 * m.n; return m.a.len > l || m.i.len > l || m.p.len > l || m.q.len > l || m.o.len > l; }
template <class W> void callee(W &w, decltype(W::p) x) { x = w.val(0); w.a = x; } // handed over by value
void callee(MW &w, Var) { w.a = w.val(0); }
template <class W> void callref(W &w, decltype(W::p) &x) { x = w.val(0); }
static const std::vector<mm::Stmt<RW, MW>> AL = {
    MST(w.p = w.val(0)), MST(w.p = w.val(-1)), MST(w.p = w.val(1)), MST(w.p = w.val(3)), MST(w.p = 7.5), MST(w.poke(1) = -3.0), MST(w.a = w.p), MST(w.p = w.a), MST(w.o = w.p * 2.0), MST(w.p = w.o + 1.0), MST(subset(w.p, w.p > 2.0) = 0.5),
    MST(w.q = w.q + w.q), MST(w.q = w.val(1)), MST(at(w.q, 2, 1) = 44.0), MST(w.addAll(w.p, 0.25)), MST(w.bind(w.p, 2)), MST(w.bind(w.p, 1)), MST(w.bind(w.q, 3)), MST(w.bind(w.p, 0)), MST(w.bindI(w.p)), MST(w.take(0)), MST(w.take(1)), MST(w.take(3)), MST(w.takeI()), MST(w.takeII()),
    MST(w.out(w.p)), MST(w.out(w.q)), MST(w.out(w.a)), MST(w.out(w.p + 1.0)), MST(w.out(w.q * 2.0)), MST(w.push(w.p, 4.5)), MST(w.push(w.o, 5.5)), MST(for (int k = 0; k < 20; k++) w.push(w.p, k + 0.5)), MST(w.q = w.rep(w.p, 3)), MST(w.o = w.colon(1, 20)), MST(w.size(w.p, 1)), MST(w.size(w.p, w.n)), MST(w.size(w.p, w.n + 2)), MST(w.last(w.p, 9.5)), MST(w.fill(w.p, 3.5)), MST(w.fill(w.q, 2.5)),
    MST(w.a = w.sum(w.p)), MST(w.addAll(w.q, 1.0)), MST(w.p = true), MST(w.p = -2), MST(w.p = w.p), MST(w.p = w.o), MST(w.p = w.p + 1.0), MST(w.p = w.coca(w.p, 1.0)), MST(w.p = w.rep(w.p, 2)), MST(w.p = w.colon(1, 2)), MST(w.p = w.coca(1, 2, 3)), MST(w.p = w.coca(true, false)),
    MST(w.p = w.p > 1.6), MST(w.p = -w.p), MST(w.p = w.matrix(2.5, 1, 2)), MST(w.p = w.q), MST(w.q = w.p), MST(w.q = w.matrix(3.5, 1, 2)), MST(w.q = w.matrix(3.5, 3, 2)), MST(w.q = w.q * w.p), MST(w.q = subset(w.q, 2, true)), MST(w.pokeq(1) = 9.25), MST(w.q = 2.25),
    MST(subset(w.p, 1) = 5.5), MST(subset(w.p, w.n) = 6.5), MST(subset(w.p, w.n + 1) = 7.5), MST(subset(w.p, true) = w.p + 0.5), MST(at(w.p, w.n) = at(w.p, 1)), MST(at(w.p, w.n + 1) = 1.0), MST(subset(w.q, 1, true) = -1.0), MST(subset(w.q, true, w.c) = w.a), MST(at(w.q, 1, w.c + 1) = 1.0),
    MST(w.i = w.p), MST(w.p = w.i), MST(w.a = w.q), MST(w.a = w.a + w.p), MST(w.p = subset(w.p, true)), MST(w.p = subset(w.q, true, 1)), MST(callee(w, w.p)), MST(callref(w, w.p)), MST(callref(w, w.q)),
    MST(w.filli(w.p, 9)), MST(w.fillv(w.p, w.a)), MST(w.fillv(w.q, w.a)), MST(w.copyd(w.p, w.q)), MST(w.copyd(w.q, w.p)), MST(w.copyd(w.o, w.q)), MST(w.copyd(w.p, w.o)), MST(w.copyd(w.p, w.p)), MST(w.dup(w.p)), MST(w.dup(w.q)),
};
#if PART == 1
void explore() {
  static const char *names[] = {"", "n=1, q 2x1", "n=2, q 2x2", "n=3, q 2x3", "n=4, q 2x3"};
  for (int n = 1; n <= 4; n++)
    mm::allSeqs(n, names[n], AL, n == 2 || mc::C.thorough ? 3 : 2);
  for (int n : {7, 8, 15, 16, 17, 31, 32, 33, 64, 100, 129, 257, 1000})
    mm::allSeqs(n, ("n=" + std::to_string(n)).c_str(), AL, n < 40 || mc::C.thorough ? 2 : 1);
}
#else
// every statement after every other one, with the k-th allocation failing
void faults(int n, const mm::Stmt<RW, MW> *pre, const mm::Stmt<RW, MW> &s) {
  for (long k = 0;; k++) {
    bool reached;
    {
      RW r(n);
      MW m0(n), m1(n);
      auto model = [&](MW &m, bool last) {
        try {
          if (pre)
            pre->model(m);
        } catch (md::Rej &) {
        }
        try {
          if (last)
            s.model(m);
        } catch (md::Rej &) {
          return false;
        }
        return true;
      };
      bool ok;
      try {
        model(m0, false);
        ok = model(m1, true);
      } catch (md::Unspec &) {
        return;
      }
      try {
        mc::Track t;
        if (pre)
          pre->real(r);
      } catch (mc::Violation &) {
        throw;
      } catch (std::exception &) {
      }
      bool thrown = false, oom = false;
      mc::A.count = 0;
      mc::A.failAt = k;
      mc::A.failed = false;
      mc::A.armed = true;
      try {
        mc::Track t;
        s.real(r);
      } catch (mc::Violation &) {
        mc::A.armed = false;
        throw;
      } catch (std::bad_alloc &) {
        thrown = oom = true;
      } catch (std::exception &) {
        thrown = true;
      }
      mc::A.armed = false;
      reached = mc::A.failed;
      std::string at = "allocation " + std::to_string(k + 1) + " fails in " + s.text;
      if (reached ? !oom && ok : thrown == ok)
        mc::fail(at + ": unexpected outcome");
      auto eq = [&](const V &x, Var MW::*y, const char *nm) {
        if (!rm::eq(x, (m0.*y).val()) && !(!thrown && rm::eq(x, (m1.*y).val())))
          mc::fail(at + ": " + nm + " is " + rm::str(x) + ", expected the former value " + rm::str((m0.*y).val()));
      };
      eq(rm::obs(r.p), &MW::p, "p");
      eq(rm::obs(r.q), &MW::q, "q");
      eq(rm::obs(r.o), &MW::o, "o");
      eq(rm::obs(r.a), &MW::a, "a");
      eq(rm::obs(r.i), &MW::i, "i");
      compareObj(r, thrown ? m0 : m1, at);
      ++mc::C.transitions;
      mc::state(mc::hmix(hashM(thrown ? m0 : m1), k));
      if (reached) { // the variables can still be used
        mc::Track t;
        r.p = r.val(1);
        r.q = r.p;
        r.a = r.q;
        r.out(r.a);
        sameBits(r.outV, m0.val(1), at + ": value assigned afterwards");
      }
    }
    if (!reached)
      return;
  }
}
void explore() {
  for (int n = 1; n <= 4; n++) {
    for (auto &s : AL)
      if (!std::strstr(s.text, "for (")) // several steps: a part of them may have happened
        one("n=" + std::to_string(n) + ": " + s.text, [&] { faults(n, nullptr, s); });
    if (n == 2 || mc::C.thorough)
      for (auto &p : AL)
        for (auto &s : AL)
          if (!std::strstr(s.text, "for ("))
            one("n=" + std::to_string(n) + ": " + p.text + "; " + s.text, [&] { faults(n, &p, s); });
  }
}
#endif
#else
using Fn4 = Vec<double> (*)(const Vec<double> &, const Vec<double> &, const Vec<double> &, const Vec<double> &);
using Fn5 = Vec<double> (*)(const Vec<double> &, const Vec<double> &, const Vec<double> &, const Vec<double> &, const Vec<double> &);
using Fn3 = Vec<double> (*)(const Vec<double> &, const Vec<double> &, const Vec<double> &);
struct Dist {
  const char *nm;
  Fn4 d;
  Fn5 p, q;
  Fn3 r;
  double (*rd)(double, double, double, int), (*rp)(double, double, double, int, int), (*rq)(double, double, double, int, int), (*rr)(double, double);
  bool rate;
};
#define DIST(n, rate)                                                          \
  { #n, etr::d##n##_etr, etr::p##n##_etr, etr::q##n##_etr, etr::r##n##_etr, R::d##n, R::p##n, R::q##n, R::r##n, rate }
static const Dist DS[] = {DIST(unif, false), DIST(norm, false), DIST(lnorm, false), DIST(gamma, true)};
inline double el(const V &v, std::size_t i) { return v.x[i % v.n()]; }
// arguments of the given lengths; kind 0 = doubles, 1 = special values
inline V arg(std::size_t n, int which, int kind) {
  static const double sp[] = {0.25, -1.5, 0.0, 1e300, std::numeric_limits<double>::infinity(), 3.75, -0.0};
  V v;
  for (std::size_t i = 0; i < n; i++)
    v.x.push_back(which >= 3 ? double((i + which) % 2) : kind ? sp[(i * 2 + which) % 7] : 0.5 + which * 10 + i);
  return v;
}
template <class F, class G> void run(const std::string &nm, const std::vector<V> &a, bool empty, F call, G want) {
  one(nm, [&] {
    std::vector<Vec<double>> v(a.size());
    for (std::size_t k = 0; k < a.size(); k++)
      if (a[k].n())
        rm::put(v[k], a[k]);
    V got;
    std::vector<std::vector<double>> log;
    bool thrown = false;
    try {
      mc::Track t;
      Vec<double> r = call(v);
      got = rm::obs(r);
    } catch (std::exception &) {
      thrown = true;
    }
    if (thrown != empty)
      mc::fail(thrown ? "failed" : "accepted a variable without elements");
    if (!thrown) {
      log = H.log;
      want(got, log);
    }
    for (std::size_t k = 0; k < a.size(); k++)
      sameBits(rm::obs(v[k]), a[k], "argument " + std::to_string(k + 1) + " afterwards");
    H.log.clear();
    H.rngDepth = thrown ? 0 : H.rngDepth;
    mc::state(mc::hmix(rm::hash(got), std::hash<std::string>()(nm)));
  });
}
void explore() {
  const std::size_t N = mc::C.thorough ? 4 : 3;
  std::vector<std::size_t> len;
  for (std::size_t n = 0; n <= N; n++)
    len.push_back(n);
  len.push_back(7);
  for (auto &D : DS)
    for (int kind = 0; kind < 2; kind++)
      for (auto nx : len)
        for (auto na : len)
          for (auto nb : len) {
            std::string at = std::string(D.nm) + " kind " + std::to_string(kind) + " lengths " + std::to_string(nx) + " " + std::to_string(na) + " " + std::to_string(nb);
            const std::size_t mx = std::max({nx, na, nb});
            V x = arg(nx, 0, kind), a = arg(na, 1, kind), b = arg(nb, 2, kind);
            auto B = [&](const V &b, std::size_t i) { return D.rate ? 1.0 / el(b, i) : el(b, i); };
            for (std::size_t nl = 1; nl <= 3; nl++) {
              V lg = arg(nl, 3, 0);
              bool empty = !nx || !na || !nb;
              run("d" + at + " log " + std::to_string(nl), {x, a, b, lg}, empty, [&](auto &v) { return D.d(v[0], v[1], v[2], v[3]); },
                  [&](V &got, auto &) {
                    V w;
                    for (std::size_t i = 0; i < std::max(mx, nl); i++)
                      w.x.push_back(D.rd(el(x, i), el(a, i), B(b, i), int(el(lg, i))));
                    sameBits(got, w, "result");
                  });
              for (std::size_t nw = 1; nw <= 3; nw++) {
                V lo = arg(nw, 4, 0);
                for (int q = 0; q < 2; q++)
                  run((q ? "q" : "p") + at + " lower " + std::to_string(nw) + " log " + std::to_string(nl), {x, a, b, lo, lg}, empty, [&](auto &v) { return (q ? D.q : D.p)(v[0], v[1], v[2], v[3], v[4]); },
                      [&](V &got, auto &) {
                        V w;
                        for (std::size_t i = 0; i < std::max({mx, nl, nw}); i++)
                          w.x.push_back((q ? D.rq : D.rp)(el(x, i), el(a, i), B(b, i), int(el(lo, i)), int(el(lg, i))));
                        sameBits(got, w, "result");
                      });
              }
            }
            if (kind || !nx)
              continue;
            for (int draws : {1, 2, 3, 5, 40}) {
              V n = arg(nx, 0, 0);
              n.x[0] = draws;
              if (nx > 1 && draws > 1)
                break;
              run("r" + at + " n " + std::to_string(draws), {n, a, b}, !na || !nb, [&](auto &v) { return D.r(v[0], v[1], v[2]); },
                  [&](V &got, auto &log) {
                    if (log.size() != got.n() || got.m)
                      mc::fail("number of draws: " + std::to_string(log.size()) + ", length of the result: " + std::to_string(got.n()));
                    // one number with several parameters: the length is not specified
                    if ((nx == 1 && na == 1 && nb == 1 && got.n() != std::size_t(draws)) || (nx > 1 && got.n() != mx) || !got.n())
                      mc::fail("length of the result: " + std::to_string(got.n()));
                    H.log.clear();
                    GetRNGstate();
                    for (std::size_t i = 0; i < got.n(); i++)
                      if (!bits(got.x[i], D.rr(el(a, i), B(b, i))))
                        mc::fail("element " + std::to_string(i + 1) + " is not drawn with its parameters, or not in order");
                    PutRNGstate();
                  });
            }
          }
}
#endif
MACHINE_MAIN

// C26: warnings. PART 0: size- and position-taking functions with integral and
// fractional arguments; 1: calls that have nothing to report, of every function
// and on every kind of value
#include "ev.hpp"
#include "ladder.hpp"
#ifndef PART
#define PART 0
#endif
using namespace etr;
using ev::V;
struct Seen {
  long warnings = 0;
  bool other = false; // anything on stdout, or on stderr that is not a warning
  bool thrown = false;
  std::string text;
};
template <class F> Seen seen(F f) {
  Seen s;
  mc::Capture c;
  try {
    mc::Track t;
    f();
  } catch (mc::Violation &) {
    throw;
  } catch (std::exception &) {
    s.thrown = true;
  }
  c.stop();
  s.text = c.e.str();
  std::istringstream is(s.text);
  std::string l;
  while (std::getline(is, l)) {
    if (l.find("Warning") != std::string::npos || l.find("warning") != std::string::npos)
      ++s.warnings;
    else if (!l.empty())
      s.other = true;
  }
  if (!c.o.str().empty()) {
    s.other = true;
    s.text += " stdout: " + c.o.str();
  }
  ++mc::C.transitions;
  return s;
}
template <class F> void expectW(long n, F f, const std::string &what) {
  mc::run([&] { return what; },
          [&] {
            for (int rep = 0; rep < 2; rep++) { // every call reports on its own
              Seen s = seen(f);
              if (s.thrown)
                mc::fail("rejected");
              if (s.warnings != n)
                mc::fail(std::to_string(s.warnings) + " warnings, expected " + std::to_string(n) + ": " + mc::oneLine(s.text));
              if (s.other)
                mc::fail("unexpected output: " + mc::oneLine(s.text));
            }
            mc::state(mc::hmix(std::uint64_t(n), std::hash<std::string>()(what)));
          });
}
std::string num(double d) {
  std::ostringstream o;
  o.precision(17);
  o << d;
  return o.str();
}
bool frac(double d) { return d != std::floor(d); }
#if PART == 0
const std::vector<double> FR = {0, 0.5, 0.001, 0.999, 1 - 1e-9, 0.25, 1e-9};
std::vector<double> sizes(int hi) {
  std::vector<double> r;
  for (int i = 1; i <= hi; i++)
    for (double f : FR)
      r.push_back(i + f);
  if (hi >= 40)
    for (auto n : sb::ladder(std::size_t(hi) + 1, mc::C.thorough ? 65537 : 4097))
      for (double f : {0.0, 0.5, 0.001, 0.999, 1 - 1e-9})
        r.push_back(double(n) + f);
  if (hi == 40)
    for (double n : {65536.0, 1000000.0, 1048577.25})
      r.push_back(n);
  return r;
}
void explore() {
  Vec<double> v, m, y;
  v = coca(1.0, 2.0, 3.0, 4.0);
  m = matrix(coca(1.0, 2.0, 3.0, 4.0, 5.0, 6.0), 3, 2);
  const Vec<double> cv(v);
  for (double s : sizes(40)) {
    long w = frac(s);
    std::string t = num(s) + ")";
    Vec<double> vs;
    vs = coca(s);
    const Vec<double> cs(vs);
    const double ks = s;
    expectW(w, [&] { y = vector_numeric(s); }, "vector_numeric(" + t);
    expectW(w, [&] { y = vector_integer(s); }, "vector_integer(" + t);
    expectW(w, [&] { y = vector_logical(s); }, "vector_logical(" + t);
    expectW(w, [&] { y = vector_numeric(ks); }, "vector_numeric(constant " + t);
    expectW(w, [&] { y = vector_integer(ks); }, "vector_integer(constant " + t);
    expectW(w, [&] { y = vector_logical(ks); }, "vector_logical(constant " + t);
    expectW(w, [&] { y = vector_numeric(vs); }, "vector_numeric(variable " + t);
    expectW(w, [&] { y = vector_integer(vs); }, "vector_integer(variable " + t);
    expectW(w, [&] { y = vector_logical(vs); }, "vector_logical(variable " + t);
    expectW(w, [&] { y = vector_numeric(cs); }, "vector_numeric(constant variable " + t);
    expectW(w, [&] { y = vector_numeric(coca(s)); }, "vector_numeric(temporary " + t);
    expectW(w, [&] { y = rep(1.5, s); }, "rep(1.5, " + t);
    expectW(w, [&] { y = rep(true, s); }, "rep(TRUE, " + t);
    expectW(w, [&] { y = rep(v, s); }, "rep(v, " + t);
    expectW(w, [&] { y = rep(cv, ks); }, "rep(constant v, " + t);
    expectW(w, [&] { y = rep(v, vs); }, "rep(v, variable " + t);
    expectW(w, [&] { y = rep(coca(1.0, 2.0), coca(s)); }, "rep(temporary, temporary " + t);
    {
      using AV = AllVars<2, 0, 0, 2>;
      expectW(w, [&] { AV av(0, 0); Vec<double, VarPointer<AV, 0, 0>, VariableTypeTrait> a(av); a = vector_numeric<0>(av, s); }, "tracked vector_numeric(" + t);
      expectW(w, [&] { AV av(0, 0); Vec<double, VarPointer<AV, 0, 0>, VariableTypeTrait> a(av); a = vector_integer<0>(av, s); }, "tracked vector_integer(" + t);
      expectW(w, [&] { AV av(0, 0); Vec<double, VarPointer<AV, 0, 0>, VariableTypeTrait> a(av); a = vector_logical<0>(av, s); }, "tracked vector_logical(" + t);
    }
    if (!w) {
      expectW(0, [&] { y = vector_numeric(int(s)); }, "vector_numeric(int " + t);
      expectW(0, [&] { y = vector_integer(int(s)); }, "vector_integer(int " + t);
      expectW(0, [&] { y = vector_logical(int(s)); }, "vector_logical(int " + t);
      expectW(0, [&] { y = vector_numeric(std::size_t(s)); }, "vector_numeric(size_t " + t);
      expectW(0, [&] { y = rep(v, int(s)); }, "rep(v, int " + t);
      expectW(0, [&] { y = rep(2, int(s)); }, "rep(2, int " + t);
    }
  }
  for (double r : sizes(4))
    for (double c : sizes(4)) {
      std::string t = num(r) + ", " + num(c) + ")";
      long w = frac(r) + frac(c);
      Vec<double> data;
      data = vector_numeric(int(r) * int(c));
      expectW(w, [&] { y = matrix(1.5, double(r), double(c)); }, "matrix(1.5, " + t);
      expectW(w, [&] { y = matrix(1, double(r), double(c)); }, "matrix(1, " + t);
      expectW(w, [&] { y = matrix(vector_numeric(int(r) * int(c)), double(r), double(c)); }, "matrix(data, " + t);
      expectW(frac(c), [&] { y = matrix(1.5, int(r), double(c)); }, "matrix(1.5, int " + t);
      expectW(frac(r), [&] { y = matrix(1.5, double(r), int(c)); }, "matrix(1.5, .., int) " + t);
      expectW(w, [&] { y = matrix(1.5, coca(r), double(c)); }, "matrix(1.5, vector, ..) " + t);
      expectW(w, [&] { y = matrix(1.5, double(r), coca(c)); }, "matrix(1.5, .., vector) " + t);
      expectW(w, [&] { y = matrix(1.5, coca(r), coca(c)); }, "matrix(1.5, vectors) " + t);
      expectW(w + 1, [&] { y = matrix(1.5, coca(r, 2.5), double(c)); }, "matrix(1.5, two rows, ..) " + t);
      expectW(w + 1, [&] { y = matrix(1.5, double(r), coca(c, 3.0)); }, "matrix(1.5, .., two columns) " + t);
      expectW(w + 2, [&] { y = matrix(1.5, coca(r, 1.0), coca(c, 3.5)); }, "matrix(1.5, two rows, two columns) " + t);
      expectW(w + 1, [&] { y = matrix(vector_numeric(int(r) * int(c)), coca(r, 2.5), double(c)); }, "matrix(data, two rows, ..) " + t);
      expectW(w + 1, [&] { y = matrix(vector_numeric(int(r) * int(c)), coca(r), coca(c, 0.5)); }, "matrix(data, .., two columns) " + t);
    }
  // positions of subset
  for (double i : sizes(4)) {
    double iv = i, im = std::min(i, 3.999);
    long w = frac(iv), wm = frac(im);
    const double ki = iv;
    expectW(w, [&] { y = subset(v, iv); }, "subset(v, " + num(iv) + ")");
    expectW(w, [&] { y = subset(v, ki); }, "subset(v, constant " + num(iv) + ")");
    expectW(w, [&] { subset(v, iv) = 2.0; }, "subset(v, " + num(iv) + ") = 2");
    expectW(w, [&] { y = subset(v + v, iv); }, "subset(v + v, " + num(iv) + ")");
    if (!w) {
      expectW(0, [&] { y = subset(v, int(iv)); }, "subset(v, int " + num(iv) + ")");
      expectW(0, [&] { at(v, iv) = 1.0; }, "at(v, " + num(iv) + ")");
      expectW(0, [&] { Vec<double> ix; ix = coca(iv, 1.0); y = subset(v, ix); }, "subset(v, vector) " + num(iv));
    }
    for (double j : sizes(2)) {
      long wj = frac(j);
      expectW(wm + wj, [&] { y = subset(m, im, j); }, "subset(m, " + num(im) + ", " + num(j) + ")");
      expectW(wm + wj, [&] { subset(m, im, j) = 1.0; }, "subset(m, " + num(im) + ", " + num(j) + ") = 1");
      expectW(wm, [&] { y = subset(m, im, true); }, "subset(m, " + num(im) + ", TRUE)");
      expectW(wm, [&] { y = subset(m, im, int(j)); }, "subset(m, " + num(im) + ", int)");
      expectW(wj, [&] { y = subset(m, int(im), j); }, "subset(m, int, " + num(j) + ")");
      expectW(wj, [&] { y = subset(m, true, j); }, "subset(m, TRUE, " + num(j) + ")");
      for (int len = 1; len <= 3; len++) { // with vectors of positions
        Vec<int> pi(SI{std::size_t(len)});
        Vec<double> pd(SI{std::size_t(len)});
        Vec<bool> pb(SI{std::size_t(len)});
        for (int q = 0; q < len; q++)
          pi[q] = q % 2 + 1, pd[q] = q % 2 + 1, pb[q] = q != 1;
        std::string l = " vector of " + std::to_string(len);
        expectW(wj, [&] { y = subset(m, pi, j); }, "subset(m, int" + l + ", " + num(j) + ")");
        expectW(wj, [&] { y = subset(m, pd, j); }, "subset(m, double" + l + ", " + num(j) + ")");
        expectW(wj, [&] { y = subset(m, pb, j); }, "subset(m, bool" + l + ", " + num(j) + ")");
        expectW(wj, [&] { subset(m, pi, j) = 3.0; }, "subset(m, int" + l + ", " + num(j) + ") = 3");
        expectW(wj, [&] { subset(m, pb, j) = 3.0; }, "subset(m, bool" + l + ", " + num(j) + ") = 3");
        expectW(wm, [&] { y = subset(m, im, pi); }, "subset(m, " + num(im) + ", int" + l + ")");
        expectW(wm, [&] { y = subset(m, im, pd); }, "subset(m, " + num(im) + ", double" + l + ")");
        if (len < 3)
          expectW(wm, [&] { y = subset(m, im, pb); }, "subset(m, " + num(im) + ", bool" + l + ")");
        if (!wj)
          expectW(0, [&] { y = subset(m, pi, pd); }, "subset(m, int" + l + ", double)");
      }
      if (!wm && !wj) {
        expectW(0, [&] { at(m, im, j) = 1.0; }, "at(m, " + num(im) + ", " + num(j) + ")");
        expectW(0, [&] { y = subset(m, true, j); }, "subset(m, TRUE, " + num(j) + ")");
        expectW(0, [&] { y = subset(m, im, true); }, "subset(m, " + num(im) + ", TRUE)");
      }
    }
  }
  // positions in a long vector and in long matrices
  Vec<double> lv, lm, lw;
  lv = colon(1, 5000);
  lm = matrix(colon(1, 5000), 5000, 1);
  lw = matrix(colon(1, 5000), 1, 5000);
  for (double i : sizes(41)) {
    if (i >= 5000 || i < 4)
      continue;
    long w = frac(i);
    expectW(w, [&] { y = subset(lv, i); }, "subset(long v, " + num(i) + ")");
    expectW(w, [&] { subset(lv, i) = 2.0; }, "subset(long v, " + num(i) + ") = 2");
    expectW(w, [&] { y = subset(lm, i, 1); }, "subset(long m, " + num(i) + ", 1)");
    expectW(w, [&] { y = subset(lw, 1, i); }, "subset(wide m, 1, " + num(i) + ")");
    expectW(w, [&] { y = subset(lw, true, i); }, "subset(wide m, TRUE, " + num(i) + ")");
    expectW(w, [&] { subset(lm, i, true) = 1.0; }, "subset(long m, " + num(i) + ", TRUE) = 1");
  }
  // a vector where one number is expected
  for (std::size_t n : sb::ladder(1, 1025)) {
    Vec<double> t(SI{n}), x, z;
    Vec<int> ti(SI{n});
    Vec<bool> tb(SI{n});
    for (std::size_t i = 0; i < n; i++)
      t[i] = double(i) + 2, ti[i] = int(i) + 2, tb[i] = (i % 2) == 0;
    x = coca(1.0, 2.0, 3.0, 4.0);
    z = coca(1.0, 2.5, 3.0, 4.0);
    const Vec<double> ct(t);
    long w = n > 1;
    std::string k = std::to_string(n);
    expectW(w, [&] { y = rep(v, t); }, "rep(v, vector of " + k + ")");
    expectW(w, [&] { y = rep(v, ti); }, "rep(v, integer vector of " + k + ")");
    expectW(w, [&] { y = rep(cv, ct); }, "rep(constant v, constant vector of " + k + ")");
    expectW(w, [&] { y = rep(1.5, t); }, "rep(1.5, vector of " + k + ")");
    expectW(w, [&] { y = colon(t, 5.0); }, "colon(vector of " + k + ", 5)");
    expectW(w, [&] { y = colon(1.0, t); }, "colon(1, vector of " + k + ")");
    expectW(2 * w, [&] { y = colon(t, t); }, "colon(vectors of " + k + ")");
    expectW(w, [&] { y = colon(t + t, 5.0); }, "colon(expression of " + k + ", 5)");
    expectW(w, [&] { y = colon(5.0, t + t); }, "colon(5, expression of " + k + ")");
    expectW(2 * w, [&] { y = colon(t + t, t); }, "colon(expression, vector of " + k + ")");
    expectW(2 * w, [&] { y = colon(t, t + t); }, "colon(vector, expression of " + k + ")");
    expectW(2 * w, [&] { y = colon(t + t, t - t); }, "colon(expressions of " + k + ")");
    expectW(w, [&] { double d = cmr(t, x, z); (void)d; }, "cmr(vector of " + k + ")");
    expectW(w, [&] { double d = cmr(ct, x, z); (void)d; }, "cmr(constant vector of " + k + ")");
    expectW(w, [&] { double d = cmr(t + t, x, z); (void)d; }, "cmr(expression of " + k + ")");
    expectW(w, [&] { if (tb) y = x; }, "if (logical vector of " + k + ")");
    expectW(w, [&] { bool b = tb; (void)b; }, "bool = logical vector of " + k);
    expectW(w, [&] { for (int i = 0; i < 1 && tb; i++) y = x; }, "loop condition of " + k);
    const Vec<bool> cb(tb);
    expectW(w, [&] { if (cb) y = x; }, "if (constant logical vector of " + k + ")");
  }
}
#else
// everything valid is silent
template <int K> void kinds1() {
  for (std::size_t n = 1; n <= 4; n++) {
    V a;
    for (std::size_t i = 0; i < n; i++)
      a.x.push_back(int(rk::tyOf(K)) == int(rk::B) ? double(i % 2) : double(i) + 1);
    if constexpr (rk::isScalar(K))
      a.x.resize(1);
    if (rk::canMatrix(K) && n == 4) {
      a.m = true;
      a.r = a.c = 2;
    }
    expectW(0,
            [&] {
              rk::Opd<K> o(a);
              auto &&e = o.get();
              Vec<double> y, z;
              z = coca(2.0, 1.0);
              if constexpr (K != int(rk::EB) && K != int(rk::EC)) {
                y = e + z;
                y = z * e;
                y = e < z;
                y = (e - z) / z;
                if constexpr (!rk::isScalar(K)) {
                  y = e;
                  y = -e;
                  y = exp(e);
                  if constexpr (K == int(rk::VD) || K == int(rk::VI) || K == int(rk::VB) || K == int(rk::BO) || K == int(rk::RD))
                    y = coca(e, 1.0);
                  if constexpr (K == int(rk::VD) || K == int(rk::VI))
                    y = isNA(e);
                  if constexpr (K == int(rk::VD) || K == int(rk::VI) || K == int(rk::BO))
                    if (a.m)
                      y = dim(e);
                }
                if constexpr (K == int(rk::VD) || K == int(rk::VI) || K == int(rk::BO))
                  (void)length(e);
              }
            },
            std::string("operations on ") + rk::name(K) + " of " + std::to_string(n));
  }
}
template <int... I> void kindsAll(std::integer_sequence<int, I...>) { (kinds1<I>(), ...); }
#define COMMA ,
#define Q(...) expectW(0, [&] { __VA_ARGS__; }, #__VA_ARGS__)
void explore() {
  kindsAll(std::make_integer_sequence<int, rk::NKINDS>());
  Vec<double> v, m, y, e, one;
  Vec<int> iv;
  Vec<bool> b, b1;
  v = coca(1.0, 2.0, 3.0, 4.0);
  m = matrix(coca(1.0, 2.0, 3.0, 4.0, 5.0, 6.0), 3, 2);
  iv = coca(1, 3);
  b = coca(true, false, true, true);
  b1 = coca(true);
  one = coca(2.0);
  double mem[6] = {1, 2, 3, 4, 5, 6};
  Vec<double, Borrow<double>> p(mem, 6), q(mem, 3, 2);
  Q(y = v); Q(y = m); Q(y = v + one); Q(y = p); Q(p = v + v); Q(q = m); Q(y = q * q); Q(y = v ^ one); Q(y = v == v); Q(y = v != v); Q(y = !(v < one) ? v : one);
  for (std::size_t n : sb::ladder(1, mc::C.thorough ? 65537 : 4097)) {
    Vec<double> L, M, R;
    L = colon(1, int(n)) * 1.0;
    M = matrix(L + 0.0, int(n), 1);
    R = matrix(L + 0.0, 1, int(n));
    Vec<int> ix;
    ix = colon(int(n), 1);
    Vec<int> ir;
    Vec<bool> lg, lr;
    lg = L != 0.0;
    std::vector<double> mm(n + 1);
    Vec<double, Borrow<double>> pp(mm.data(), n + 1);
    const std::string atN = " with n = " + std::to_string(n);
#define QN(...) expectW(0, [&] { __VA_ARGS__; }, #__VA_ARGS__ + atN)
    QN(y = L); QN(y = L + 1.0); QN(y = L * L); QN(y = L + one); QN(y = M * M); QN(y = R - 1.0); QN(pp = L); QN(pp = L + L); QN(y = pp); QN(y = -L); QN(y = exp(L)); QN(lr = L > 2.0); QN(lr = L == L); QN(y = L ^ 2.0); QN(lr = isNA(L));
    QN(y = subset(L, int(n))); QN(y = subset(L, ix)); QN(y = subset(L, lg)); QN(y = subset(L, true)); QN(subset(L, ix) = L); QN(subset(L, lg) = 1.0); QN(y = subset(M, ix, 1)); QN(y = subset(R, 1, ix)); QN(y = subset(M, lg, true)); QN(subset(R, true, ix) = 3.0);
    QN(y = rep(L, 2)); QN(y = coca(L, M)); QN(y = colon(1, int(n))); QN(y = vector_numeric(n)); QN(y = matrix(1.0, int(n), 2)); QN(y = dim(M)); QN((void)length(L)); QN(for (auto &x : L) x = x + 1.0); QN(std::ostringstream o; o << L << M); QN(at(L, int(n)) = 2.0); QN(ir = L); QN(Vec<double> c(L); y = c); QN(y = sinus(L + L) * L);
  }
  Q(y = colon(1, 4)); Q(y = colon(4, 1)); Q(y = colon(1.5, 4.5)); Q(y = colon(one, 4.0)); Q(y = colon(1.0, one)); Q(y = colon(one, one)); Q(y = colon(-2, 2)); Q(y = colon(3, 3));
  Q(y = subset(v, iv)); Q(y = subset(v, b)); Q(y = subset(v, true)); Q(y = subset(v, 1)); Q(y = subset(v, one)); Q(subset(v, iv) = 1.0); Q(subset(v, b) = 2.0); Q(subset(v, iv) = coca(1.0, 2.0)); Q(y = subset(v, coca(1, 2)));
  Q(y = subset(m, iv, 1)); Q(y = subset(m, 1, true)); Q(y = subset(m, true, 1)); Q(y = subset(m, true, true)); Q(y = subset(m, iv, iv - iv + 1.0)); Q(subset(m, 1, 1) = 3.0); Q(subset(m, true, 2) = 1.0); Q(y = subset(m, coca(true, false, true), 1));
  Q(y = at(v, 1)); Q(y = at(m, 1, 2)); Q(at(v, 2.0) = 1.0); Q(at(m, 3.0, 2.0) = 1.0); Q(double d = at(v, 1); (void)d); Q(double d = at(m + m, 1, 2); (void)d);
  Q(if (b1) y = v); Q(if (one > 1.0) y = v); Q(if (coca(true)) y = v); Q(while (one < 1.0) y = v);
  Q(y = rep(v, 2)); Q(y = rep(1.0, 3)); Q(y = rep(v, one)); Q(y = vector_numeric(4)); Q(y = vector_logical(one)); Q(y = matrix(1, 2, 3)); Q(y = matrix(coca(1, 2), 1, 2)); Q(y = matrix(1.0, 2.0, 2.0));
  Q(y = coca(1, 2.0, true)); Q(y = coca(v, m, iv, b)); Q(iv = v); Q(b = v < one); Q(y = isNA(v)); Q(y = isInf(m)); Q((void)length(v)); Q(y = dim(m)); Q(y = sinus(v)); Q(y = ln(m)); Q(y = sqroot(-v)); Q(y = asinus(v + v)); Q(y = 1.0 / (v - v));
  Q(double d = li(one, v, v); (void)d); Q(double d = cmr(one, coca(1.0, 2.0, 3.0, 4.0), v); (void)d); Q(double d = cmr(2.5, v, v); (void)d); Q(double d = cmr(100, v, v); (void)d);
  Q(Vec<double> c(v); y = c; c = y); Q(Vec<double> c(std::move(e)); e = v); Q(for (auto &x : v) x = x + 1); Q(auto s = subset(v, iv); for (auto &x : s) x = 2.0); Q(std::ostringstream o; o << v << m);
  Q(e = v; e = one; e = v + e; e = m; e.resize(2)); Q(y = std::numeric_limits<double>::quiet_NaN() * v); Q(y = v / (v * 0.0)); Q(y = exp(v * 1000.0));
  Q(using AV = AllVars<2 COMMA 0 COMMA 0 COMMA 2>; AV av(0, 0); Vec<double COMMA VarPointer<AV COMMA 0 COMMA 0> COMMA VariableTypeTrait> a(av); Vec<double COMMA VarPointer<AV COMMA 1 COMMA 0> COMMA VariableTypeTrait> c(av); a = coca<0>(av, 1, 2, 3); c = a * a + coca<1>(av, 1, 2, 3); c = sinus(a) / c; a = vector_numeric<0>(av, 3); a = colon<1>(av, 1, 3); get_derivs(a); get_derivs(c));
}
#endif
int main(int argc, char **argv) {
  mc::init(argc, argv);
  explore();
  return mc::finish();
}

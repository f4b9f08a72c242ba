// C30: whole programs (control flow, functions, recursion) on every small input.
// PART = group of programs
#include "machine.hpp"
#include <algorithm>
#include <deque>
#ifndef PART
#define PART 0
#endif
using namespace etr;
using D = std::vector<double>;
static void explore();
static const char *NAME = "";
static std::string show(const D &x) {
  std::ostringstream o;
  for (double d : x)
    o << d << " ";
  return o.str();
}
// one run of a program on one input
template <class Real> void one(const D &in, const D &want, Real real) {
  mc::run([&] { return std::string(NAME) + " of " + show(in); },
          [&] {
            long l0 = mc::A.live;
            D got;
            {
              mc::Track t;
              got = real(in);
            }
            if (got.size() != want.size())
              mc::fail("length " + std::to_string(got.size()) + ", expected " + std::to_string(want.size()) + ": " + show(got) + "| " + show(want));
            for (std::size_t i = 0; i < got.size(); i++)
              if (!rm::near(got[i], want[i]))
                mc::fail("result " + show(got) + ", expected " + show(want));
            { D().swap(got); }
            if (mc::A.live != l0)
              mc::fail("memory blocks leaked");
            ++mc::C.transitions;
            std::uint64_t h = 9;
            for (double d : want)
              h = mc::hmix(h, mc::hd(d));
            mc::state(h);
          });
}
// all vectors of length n over the alphabet
template <class F> void allVec(int n, const D &al, F f) {
  std::vector<std::size_t> ix(n, 0);
  for (;;) {
    D v;
    for (auto i : ix)
      v.push_back(al[i]);
    f(v);
    int d = n - 1;
    while (d >= 0 && ++ix[d] == al.size())
      ix[d--] = 0;
    if (d < 0)
      return;
  }
}
template <class V> D out(const V &v) {
  D r;
  for (std::size_t i = 0; i < v.size(); i++)
    r.push_back(v[i]);
  return r;
}
template <class T> Vec<T> in(const D &x) {
  Vec<T> v;
  if (x.size())
    v.resize(x.size());
  for (std::size_t i = 0; i < x.size(); i++)
    v[i] = T(x[i]);
  return v;
}
// runs a program with a double, an integer and a borrowing argument
template <class F> void flavours(const D &x, const D &want, F prog) {
  one(x, want, [&](const D &x) { auto v = in<double>(x); return prog(v); });
  one(x, want, [&](const D &x) { auto v = in<int>(x); return prog(v); });
  one(x, want, [&](const D &x) { D mem = x; ::BorrowPtr v(mem.data(), mem.size()); return prog(v); });
}
#if PART == 0
// ---- sorting and searching
template <class V> void bubble(V &arr) { // examples/bubblesort.cpp
  sexp size;
  V &a = arr;
  sexp temp, swapped;
  size = length(arr);
  swapped = true;
  if (size == 1)
    return;
  do {
    swapped = false;
    for (auto i : colon(1, size - 1)) {
      if (a(i) > a(i + 1)) {
        temp = a(i);
        a(i) = a(i + 1);
        a(i + 1) = temp;
        swapped = true;
      }
    }
  } while (swapped);
}
template <class V> void insertion(V &a) {
  int n = length(a);
  for (int i = 2; i <= n; i++) {
    sexp key;
    key = subset(a, i);
    int j = i - 1;
    while (j >= 1 && at(a, j) > key) {
      subset(a, j + 1) = subset(a, j);
      j = j - 1;
    }
    subset(a, j + 1) = key;
  }
}
template <class V> void shifting(V &v) { // insertion by moving a block of elements within the vector
  int n = length(v);
  for (int i = 2; i <= n; i++) {
    int j = 1;
    while (j < i && at(v, j) <= at(v, i))
      j++;
    if (j < i) {
      double key = at(v, i);
      subset(v, colon(j + 1, i)) = subset(v, colon(j, i - 1));
      at(v, j) = key;
    }
  }
}
template <class V> void merge(V &v) { // merge sort with halves as separate variables
  int n = length(v);
  if (n < 2)
    return;
  sexp l, r;
  int h = n / 2;
  l = subset(v, colon(1, h));
  r = subset(v, colon(h + 1, n));
  merge(l);
  merge(r);
  int i = 1, j = 1;
  for (int k = 1; k <= n; k++)
    if (j > n - h || (i <= h && at(l, i) <= at(r, j))) {
      subset(v, k) = subset(l, i);
      i++;
    } else {
      subset(v, k) = subset(r, j);
      j++;
    }
}
template <class V> D counts(V &v) { // frequency table of 1..5
  Vec<int> t;
  t = rep(0, 5);
  for (auto e : v) {
    int k = int(e);
    subset(t, k) = subset(t, k) + 1;
  }
  return out(t);
}
inline sexp quick(sexp v) {
  sexp res;
  if (length(v) < 2) {
    res = v;
    return res;
  }
  sexp p, l, e, g;
  Vec<bool> less, more, same;
  p = subset(v, 1);
  less = v < p;
  more = v > p;
  same = v == p;
  bool anyL = false, anyG = false;
  for (auto b : less)
    if (b)
      anyL = true;
  for (auto b : more)
    if (b)
      anyG = true;
  e = subset(v, same);
  if (anyL) {
    l = subset(v, less);
    l = quick(l);
  }
  if (anyG) {
    g = subset(v, more);
    g = quick(g);
  }
  if (anyL && anyG)
    res = coca(l, e, g);
  else if (anyL)
    res = coca(l, e);
  else if (anyG)
    res = coca(e, g);
  else
    res = e;
  return res;
}
template <class V> D reversed(V &v) {
  sexp r;
  r = subset(v, 1);
  int n = length(v);
  for (int i = 2; i <= n; i++)
    r = coca(at(v, i), r);
  v = r;
  return out(v);
}
template <class V> D maxima(V &v) { // running maximum and its position
  sexp m, p, res;
  m = at(v, 1);
  p = 1;
  int n = length(v);
  res = vector_numeric(n);
  for (int i = 1; i <= n; i++) {
    if (at(v, i) > m) {
      m = at(v, i);
      p = i;
    }
    subset(res, i) = m * 10.0 + p;
  }
  return out(res);
}
template <class V> D rank(V &v) { // number of smaller elements of every element
  int n = length(v);
  Vec<int> r;
  r = rep(0, n);
  for (int i = 1; i <= n; i++) {
    Vec<bool> b;
    b = v < subset(v, i);
    for (auto x : b)
      if (x)
        at(r, i) = at(r, i) + 1;
  }
  return out(r);
}
template <class V> D bsearch(V &v, double x) {
  bubble(v);
  int lo = 1, hi = length(v);
  while (lo < hi) {
    int mid = (lo + hi) / 2;
    if (subset(v, mid) < x)
      lo = mid + 1;
    else
      hi = mid;
  }
  return D{double(lo)};
}
static void explore() {
  int N = mc::C.thorough ? 8 : 6;
  for (int n = 1; n <= N; n++)
    allVec(n, n <= 4 ? D{1, 2, 3, 5} : D{1, 2, 4}, [&](const D &x) {
      D s = x;
      std::sort(s.begin(), s.end());
      NAME = "bubble sort";
      flavours(x, s, [](auto &v) { bubble(v); return out(v); });
      NAME = "insertion sort";
      flavours(x, s, [](auto &v) { insertion(v); return out(v); });
      NAME = "insertion by blocks";
      flavours(x, s, [](auto &v) { shifting(v); return out(v); });
      NAME = "merge sort";
      flavours(x, s, [](auto &v) { merge(v); return out(v); });
      NAME = "frequencies";
      D fr(5);
      for (double d : x)
        fr[int(d) - 1]++;
      flavours(x, fr, [](auto &v) { return counts(v); });
      NAME = "quick sort";
      one(x, s, [](const D &x) { sexp v = in<double>(x); v = quick(v); return out(v); });
      NAME = "reversal";
      flavours(x, D(x.rbegin(), x.rend()), [](auto &v) { return reversed(v); });
      D mx, rk;
      double m = x[0], p = 1;
      for (int i = 0; i < n; i++) {
        if (x[i] > m)
          m = x[i], p = i + 1;
        mx.push_back(m * 10 + p);
        rk.push_back(std::count_if(x.begin(), x.end(), [&](double d) { return d < x[i]; }));
      }
      NAME = "running maximum";
      flavours(x, mx, [](auto &v) { return maxima(v); });
      NAME = "ranks";
      flavours(x, rk, [](auto &v) { return rank(v); });
      NAME = "binary search";
      for (double t : {0.0, 1.0, 2.0, 3.0, 9.0}) {
        int lo = std::lower_bound(s.begin(), s.end(), t) - s.begin() + 1;
        flavours(x, D{double(std::min(lo, n))}, [t](auto &v) { return bsearch(v, t); });
      }
    });
}
#elif PART == 1
// ---- matrices
inline Vec<double> mat(const D &x, int r, int c) {
  Vec<double> m;
  m = matrix(in<double>(x), int(r), int(c));
  return m;
}
template <class A, class B> Vec<double> mul(A &a, B &b) {
  Vec<double> res;
  Vec<int> da, db;
  da = dim(a);
  db = dim(b);
  int n = at(da, 1), c = at(db, 2);
  res = matrix(0.0, int(n), int(c));
  for (int i = 1; i <= n; i++)
    for (int j = 1; j <= c; j++) {
      sexp s, prod;
      s = 0.0;
      prod = subset(a, i, true) * subset(b, true, j);
      for (auto e : prod)
        s = s + e;
      subset(res, i, j) = s;
    }
  return res;
}
inline D refMul(const D &a, const D &b, int n, int k, int c) {
  D r(n * c, 0.0);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < c; j++)
      for (int l = 0; l < k; l++)
        r[j * n + i] += a[l * n + i] * b[j * k + l];
  return r;
}
inline Vec<double> transpose(Vec<double> m) {
  Vec<int> d;
  d = dim(m);
  Vec<double> t;
  t = matrix(0.0, int(at(d, 2)), int(at(d, 1)));
  for (int i = 1; i <= at(d, 1); i++)
    subset(t, true, i) = subset(m, i, true);
  return t;
}
inline D determinant(Vec<double> m, int n) { // elimination with row exchange
  sexp det;
  det = 1.0;
  for (int k = 1; k <= n; k++) {
    int piv = k;
    while (piv <= n && at(m, piv, k) == 0.0)
      piv++;
    if (piv > n)
      return D{0};
    if (piv != k) {
      Vec<double> row;
      row = subset(m, k, true);
      subset(m, k, true) = subset(m, piv, true);
      subset(m, piv, true) = row;
      det = -det;
    }
    det = det * at(m, k, k);
    for (int i = k + 1; i <= n; i++)
      subset(m, i, true) = subset(m, i, true) - subset(m, k, true) * (at(m, i, k) / at(m, k, k));
  }
  return out(det);
}
inline D life(Vec<bool> b, int n, int gens) {
  for (int g = 0; g < gens; g++) {
    Vec<int> cnt;
    cnt = matrix(0, int(n), int(n));
    for (int i = 1; i <= n; i++)
      for (int j = 1; j <= n; j++)
        for (int di = -1; di <= 1; di++)
          for (int dj = -1; dj <= 1; dj++)
            if (di != 0 || dj != 0)
              if (at(b, (i + di + n - 1) % n + 1, (j + dj + n - 1) % n + 1))
                subset(cnt, i, j) = subset(cnt, i, j) + 1;
    b = (cnt == 3) + (cnt == 2) * b;
  }
  return out(b);
}
inline D refLife(D b, int n, int gens) {
  for (int g = 0; g < gens; g++) {
    D c(n * n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        int k = 0;
        for (int di = -1; di <= 1; di++)
          for (int dj = -1; dj <= 1; dj++)
            if (di || dj)
              k += b[(j + dj + n) % n * n + (i + di + n) % n] != 0;
        c[j * n + i] = k == 3 || (k == 2 && b[j * n + i]);
      }
    b = c;
  }
  return b;
}
inline D prefix(Vec<double> m, int r, int c) { // two-dimensional prefix sums in place
  for (int i = 2; i <= r; i++)
    subset(m, i, true) = subset(m, i, true) + subset(m, i - 1, true);
  for (int j = 2; j <= c; j++)
    subset(m, true, j) = subset(m, true, j) + subset(m, true, j - 1);
  return out(m);
}
static void explore() {
  for (int n = 1; n <= 3; n++)
    for (int k = 1; k <= 3; k++)
      for (int c = 1; c <= 3; c++) {
        if (n * k + k * c > (mc::C.thorough ? 12 : 9))
          continue;
        allVec(n * k + k * c, n * k + k * c <= 6 ? D{-1, 0, 2} : D{0.5, 3}, [&](const D &x) {
          D a(x.data(), x.data() + n * k), b(x.data() + n * k, x.data() + x.size());
          NAME = "matrix product";
          one(x, refMul(a, b, n, k, c), [&](const D &) { auto A = mat(a, n, k), B = mat(b, k, c); auto R = mul(A, B); return out(R); });
          one(x, refMul(a, b, n, k, c), [&](const D &) { // borrowed operands
            D ma = a, mb = b;
            ::BorrowPtr A(ma.data(), std::size_t(n), std::size_t(k)), B(mb.data(), std::size_t(k), std::size_t(c));
            auto R = mul(A, B);
            return out(R);
          });
        });
      }
  for (int r = 1; r <= 3; r++)
    for (int c = 1; c <= 3; c++)
      allVec(r * c, r * c <= 6 ? D{1, 2, 5} : D{1, 4}, [&](const D &x) {
        D t(r * c), p(r * c), u = x;
        for (int i = 0; i < r; i++)
          for (int j = 0; j < c; j++) {
            t[i * c + j] = x[j * r + i];
            for (int a = 0; a <= i; a++)
              for (int b = 0; b <= j; b++)
                p[j * r + i] += x[b * r + a];
          }
        NAME = "transpose";
        one(x, t, [&](const D &) { auto m = transpose(mat(x, r, c)); if (!m.im() || int(m.nr()) != c || int(m.nc()) != r) mc::fail("shape"); return out(m); });
        NAME = "twice transposed";
        one(x, x, [&](const D &) { auto m = transpose(transpose(mat(x, r, c))); return out(m); });
        NAME = "prefix sums";
        one(x, p, [&](const D &) { return prefix(mat(x, r, c), r, c); });
      });
  for (int n = 1; n <= 3; n++)
    allVec(n * n, n < 3 ? D{-2, -1, 0, 1, 3} : mc::C.thorough ? D{-1, 0, 1, 2} : D{-1, 0, 2}, [&](const D &x) {
      D w{n == 1 ? x[0] : n == 2 ? x[0] * x[3] - x[1] * x[2] : x[0] * (x[4] * x[8] - x[5] * x[7]) - x[3] * (x[1] * x[8] - x[2] * x[7]) + x[6] * (x[1] * x[5] - x[2] * x[4])};
      NAME = "determinant";
      one(x, w, [&](const D &) { return D{std::round(determinant(mat(x, n, n), n)[0] * 1e6) / 1e6 + 0.0}; });
    });
  for (int n = 3; n <= 4; n++) {
    int i = 0;
    allVec(n * n, D{0, 1}, [&](const D &x) {
      if (n == 4 && !mc::C.thorough && i++ % 16 != 5)
        return;
      NAME = "game of life";
      one(x, refLife(x, n, 3), [&](const D &) { Vec<bool> b; b = matrix(in<bool>(x), int(n), int(n)); return life(b, n, 3); });
    });
  }
}
#elif PART == 2
// ---- sequences of numbers, growing and shrinking vectors
inline D fib(int n) {
  sexp r;
  r = vector_numeric(n);
  subset(r, 1) = 1;
  subset(r, 2) = 1;
  for (auto i : colon(3, n))
    subset(r, i) = subset(r, i - 1) + subset(r, i - 2);
  return out(r);
}
inline D sieve(int n) {
  Vec<bool> p;
  p = rep(true, n);
  at(p, 1) = false;
  int i = 2;
  while (i * i <= n) {
    if (at(p, i)) {
      int j = i * i;
      while (j <= n) {
        at(p, j) = false;
        j = j + i;
      }
    }
    i++;
  }
  sexp res;
  res = colon(1, n);
  res = subset(res, p);
  return out(res);
}
inline D gcds(int a0, int b0) {
  Vec<int> a, b, t;
  a = a0;
  b = b0;
  while (b > 0) {
    t = b;
    while (a >= b)
      a = a - b;
    b = a;
    a = t;
  }
  return out(a);
}
inline D collatz(int n) {
  Vec<int> path;
  int x = n;
  path = x;
  while (x != 1) {
    x = x % 2 ? 3 * x + 1 : x / 2;
    path = coca(path, x);
  }
  return out(path);
}
inline sexp facRec(int n) {
  sexp r;
  r = 1.0;
  if (n > 1)
    r = facRec(n - 1) * double(n);
  return r;
}
inline D pascal(int n) {
  sexp row, next;
  row = 1.0;
  for (int i = 2; i <= n; i++) {
    next = rep(1.0, i);
    for (int j = 2; j < i; j++)
      subset(next, j) = subset(row, j - 1) + subset(row, j);
    row = next;
  }
  return out(row);
}
inline D newton(double a) {
  sexp x, old;
  x = a;
  int k = 0;
  do {
    old = x;
    x = (x + a / x) / 2.0;
    k++;
  } while (old != x && k < 60);
  return D{std::round(x[0] * 100) / 100};
}
inline D bits(int n) {
  Vec<bool> b;
  b = n % 2 == 1;
  n = n / 2;
  while (n > 0) {
    b = coca(n % 2 == 1, b);
    n = n / 2;
  }
  return out(b);
}
// a queue/stack: 0 push front, 1 push back, 2 pop front, 3 pop back, 4 rotate, 5 double all
inline D deque(const D &ops) {
  sexp q;
  q = 1.0;
  double next = 2;
  for (double o : ops) {
    int n = length(q);
    if (o == 0)
      q = coca(next, q);
    else if (o == 1)
      q = coca(q, next);
    else if (o == 2 && n > 1)
      q = subset(q, colon(2, n));
    else if (o == 3 && n > 1)
      q = subset(q, colon(1, n - 1));
    else if (o == 4 && n > 1)
      {
      sexp rest;
      rest = subset(q, colon(2, n));
      q = coca(rest, at(q, 1));
    }
    else if (o == 5)
      q = q + q;
    next = next + 1.0;
  }
  return out(q);
}
inline D refDeque(const D &ops) {
  std::deque<double> q{1};
  double next = 2;
  for (double o : ops) {
    if (o == 0)
      q.push_front(next);
    else if (o == 1)
      q.push_back(next);
    else if (o == 2 && q.size() > 1)
      q.pop_front();
    else if (o == 3 && q.size() > 1)
      q.pop_back();
    else if (o == 4 && q.size() > 1)
      q.push_back(q.front()), q.pop_front();
    else if (o == 5)
      for (double &d : q)
        d += d;
    next++;
  }
  return D(q.begin(), q.end());
}
static void explore() {
  int N = mc::C.thorough ? 300 : 120;
  for (int n = 3; n <= 60; n++) {
    D w{1, 1};
    while (int(w.size()) < n)
      w.push_back(w[w.size() - 1] + w[w.size() - 2]);
    NAME = "fibonacci";
    one(D{double(n)}, w, [n](const D &) { return fib(n); });
  }
  for (int n = 2; n <= N; n++) {
    D w;
    for (int i = 2; i <= n; i++) {
      bool p = true;
      for (int j = 2; j * j <= i; j++)
        p = p && i % j;
      if (p)
        w.push_back(i);
    }
    NAME = "primes up to";
    one(D{double(n)}, w, [n](const D &) { return sieve(n); });
    NAME = "collatz";
    w = {double(n)};
    for (long x = n; x != 1;)
      w.push_back(x = x % 2 ? 3 * x + 1 : x / 2);
    one(D{double(n)}, w, [n](const D &) { return collatz(n); });
    NAME = "binary digits";
    w.clear();
    for (int x = n; x; x /= 2)
      w.insert(w.begin(), x % 2);
    one(D{double(n)}, w, [n](const D &) { return bits(n); });
    NAME = "square root";
    one(D{double(n)}, D{std::round(std::sqrt(double(n)) * 100) / 100}, [n](const D &) { return newton(n); });
  }
  for (int a = 1; a <= N / 3; a++)
    for (int b = 1; b <= N / 3; b++) {
      NAME = "gcd";
      one(D{double(a), double(b)}, D{double(std::__gcd(a, b))}, [a, b](const D &) { return gcds(a, b); });
    }
  double f = 1;
  for (int n = 1; n <= 20; n++) {
    f *= n;
    NAME = "factorial";
    one(D{double(n)}, D{f}, [n](const D &) { sexp r = facRec(n); return out(r); });
    D row{1};
    for (int i = 1; i < n; i++)
      row.push_back(row.back() * (n - i) / i);
    for (double &d : row)
      d = std::round(d);
    NAME = "pascal's triangle";
    one(D{double(n)}, row, [n](const D &) { return pascal(n); });
  }
  for (int n = 1; n <= 6 + 2 * mc::C.thorough; n++)
    allVec(n, D{0, 1, 2, 3, 4, 5}, [&](const D &ops) {
      NAME = "queue operations";
      one(ops, refDeque(ops), [](const D &o) { return deque(o); });
    });
}
#elif PART == 3
// ---- numerics: differential equations, interpolated input, polynomials, callbacks
template <class Y, class P> void rhs(double t, Y &y, Y &dy, P &p) { // predator and prey
  at(dy, 1) = at(p, 1) * at(y, 1) - at(p, 2) * at(y, 1) * at(y, 2);
  at(dy, 2) = at(p, 2) * at(y, 1) * at(y, 2) - at(p, 3) * at(y, 2);
  (void)t;
}
inline void refRhs(const D &y, D &dy, const D &p) {
  dy[0] = p[0] * y[0] - p[1] * y[0] * y[1];
  dy[1] = p[1] * y[0] * y[1] - p[2] * y[1];
}
inline D euler(const D &y0, const D &par, int steps, double h) { // state and parameters are the caller's memory
  D ym = y0, dm(2, 0.0), pm = par;
  ::BorrowPtr y(ym.data(), std::size_t(2)), dy(dm.data(), std::size_t(2)), p(pm.data(), std::size_t(3));
  Vec<double> traj;
  traj = matrix(0.0, steps + 1, 2);
  subset(traj, 1, true) = y;
  for (int k = 1; k <= steps; k++) {
    rhs(k * h, y, dy, p);
    y = y + dy * h;
    subset(traj, k + 1, true) = y;
  }
  if (pm != par)
    mc::fail("the parameters were changed");
  D r = out(traj);
  r.insert(r.end(), ym.begin(), ym.end());
  return r;
}
inline D refEuler(D y, const D &p, int steps, double h) {
  D r(2 * (steps + 1)), dy(2);
  for (int k = 0; k <= steps; k++) {
    if (k) {
      refRhs(y, dy, p);
      for (int i = 0; i < 2; i++)
        y[i] = y[i] + dy[i] * h;
    }
    r[k] = y[0];
    r[steps + 1 + k] = y[1];
  }
  r.insert(r.end(), y.begin(), y.end());
  return r;
}
inline D rk4(const D &y0, const D &par, int steps, double h) {
  sexp y = in<double>(y0), p = in<double>(par), k1, k2, k3, k4, tmp;
  k1 = vector_numeric(2);
  k2 = k1;
  k3 = k1;
  k4 = k1;
  for (int k = 0; k < steps; k++) {
    rhs(0, y, k1, p);
    tmp = y + k1 * h / 2.0;
    rhs(0, tmp, k2, p);
    tmp = y + k2 * h / 2.0;
    rhs(0, tmp, k3, p);
    tmp = y + k3 * h;
    rhs(0, tmp, k4, p);
    y = y + (k1 + 2.0 * k2 + 2.0 * k3 + k4) * h / 6.0;
  }
  return out(y);
}
inline D refRk4(D y, const D &p, int steps, double h) {
  D k1(2), k2(2), k3(2), k4(2), t(2);
  for (int k = 0; k < steps; k++) {
    refRhs(y, k1, p);
    for (int i = 0; i < 2; i++)
      t[i] = y[i] + k1[i] * h / 2;
    refRhs(t, k2, p);
    for (int i = 0; i < 2; i++)
      t[i] = y[i] + k2[i] * h / 2;
    refRhs(t, k3, p);
    for (int i = 0; i < 2; i++)
      t[i] = y[i] + k3[i] * h;
    refRhs(t, k4, p);
    for (int i = 0; i < 2; i++)
      y[i] = y[i] + (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]) * h / 6;
  }
  return y;
}
template <class C> D horner(C &c, const D &xs) {
  sexp x = in<double>(xs), r;
  r = x * 0.0;
  for (int i = length(c); i >= 1; i--)
    r = r * x + at(c, i);
  return out(r);
}
// summary of the data which are neither missing nor outside of a bound
inline D summary(const D &x) {
  sexp v = in<double>(x), w, s, q;
  Vec<bool> keep;
  keep = isNA(v) == false;
  keep = keep * (v < 100.0);
  bool some = false;
  for (auto b : keep)
    some = some || b;
  if (!some)
    return D{0};
  w = subset(v, keep);
  s = 0.0;
  q = 0.0;
  for (auto e : w) {
    s = s + e;
    q = q + e * e;
  }
  s = s / double(length(w));
  s = coca(double(length(w)), s, q);
  return out(s);
}
// dose at given times, first order elimination between them
inline D doses(const D &amount, double k) {
  sexp a = in<double>(amount), conc, c;
  c = 0.0;
  conc = 0.0;
  for (int i = 1; i <= length(a); i++) {
    if (isNA(at(a, i)))
      c = c * k;
    else if (at(a, i) > 0.0)
      c = c * k + at(a, i);
    else
      c = c * k;
    if (i == 1)
      conc = c;
    else
      conc = coca(conc, c);
  }
  return out(conc);
}
inline D moving(const D &x, int w) {
  sexp v = in<double>(x), r;
  int n = length(v);
  r = vector_numeric(n - w + 1);
  for (int i = 1; i <= n - w + 1; i++) {
    sexp s;
    s = 0.0;
    for (auto e : subset(v, colon(i, i + w - 1)))
      s = s + e;
    at(r, i) = s[0] / w;
  }
  return out(r);
}
inline D interp(const D &y, bool in_place) { // integral of interpolated data by the trapezoid rule
  D ym = y, tm;
  for (std::size_t i = 0; i < y.size(); i++)
    tm.push_back(double(i));
  ::BorrowPtr t(tm.data(), tm.size()), v(ym.data(), ym.size());
  sexp s;
  s = 0.0;
  double end = double(y.size()) - 1;
  for (double x = 0; x + 0.25 <= end; x = x + 0.25)
    s = s + (li(x, t, v) + li(x + 0.25, t, v)) * 0.125;
  if (in_place)
    v = v + s;
  return D{s[0], ym[0]};
}
static void explore() {
  allVec(5, D{0.25, 1, 2}, [&](const D &x) {
    D y(x.data(), x.data() + 2), p(x.data() + 2, x.data() + 5);
    for (int n : {0, 1, 2, 7}) {
      NAME = "Euler steps";
      one(x, refEuler(y, p, n, 0.125), [&](const D &) { return euler(y, p, n, 0.125); });
      NAME = "Runge-Kutta steps";
      one(x, refRk4(y, p, n, 0.125), [&](const D &) { return rk4(y, p, n, 0.125); });
    }
  });
  for (int n = 1; n <= 4; n++)
    allVec(n, D{-1, 0, 2, 0.5}, [&](const D &c) {
      D xs{-2, -1, 0, 0.5, 1, 3}, w;
      for (double x : xs) {
        double r = x * 0.0;
        for (int i = n - 1; i >= 0; i--)
          r = r * x + c[i];
        w.push_back(r);
      }
      NAME = "polynomial";
      one(c, w, [&](const D &c) { auto v = in<double>(c); return horner(v, xs); });
      one(c, w, [&](const D &c) { D m = c; ::BorrowPtr v(m.data(), m.size()); return horner(v, xs); });
    });
  double nan = std::nan("");
  for (int n = 1; n <= 5; n++)
    allVec(n, D{nan, 2, -1, 1000, 0}, [&](const D &x) {
      double k = 0, s = 0, q = 0, c = 0;
      D conc;
      for (double d : x) {
        if (!(d != d) && d < 100)
          k++, s += d, q += d * d;
        c = c * 0.5 + (!(d != d) && d > 0 ? d : 0);
        conc.push_back(c);
      }
      NAME = "summary";
      one(x, k ? D{k, s / k, q} : D{0}, [](const D &x) { return summary(x); });
      NAME = "doses";
      one(x, conc, [](const D &x) { return doses(x, 0.5); });
      if (std::none_of(x.begin(), x.end(), [](double d) { return d != d; })) {
        NAME = "moving average";
        for (int w = 1; w <= n; w++) {
          D m;
          for (int i = 0; i + w <= n; i++) {
            double t = 0;
            for (int j = 0; j < w; j++)
              t = t + x[i + j];
            m.push_back(t / w);
          }
          one(x, m, [w](const D &x) { return moving(x, w); });
        }
        if (n >= 2) {
          double t = 0;
          for (int i = 0; i + 1 < n; i++)
            t += (x[i] + x[i + 1]) / 2;
          NAME = "integral of interpolated data";
          one(x, D{t, x[0]}, [](const D &x) { return interp(x, false); });
          one(x, D{t, x[0] + t}, [](const D &x) { return interp(x, true); });
        }
      }
    });
}
#endif
#if PART == 4
// ---- derivatives: every program is also run on dual numbers by a reference
using AV = AllVars<4, 2, 0, 4>;
template <int I, int Ty = 0> using Tr = Vec<double, VarPointer<AV, I, Ty>, VariableTypeTrait>;
struct Dn { // value and derivative
  double v, d;
};
inline Dn operator+(Dn a, Dn b) { return {a.v + b.v, a.d + b.d}; }
inline Dn operator-(Dn a, Dn b) { return {a.v - b.v, a.d - b.d}; }
inline Dn operator*(Dn a, Dn b) { return {a.v * b.v, a.d * b.v + a.v * b.d}; }
inline Dn operator/(Dn a, Dn b) { return {a.v / b.v, (a.d * b.v - a.v * b.d) / (b.v * b.v)}; }
inline Dn k(double x) { return {x, 0}; }
inline Dn sn(Dn a) { return {std::sin(a.v), std::cos(a.v) * a.d}; }
template <class T> void put(D &r, T &x) {
  auto g = get_derivs(x);
  if (g.size() != x.size())
    mc::fail("length of the derivative");
  for (std::size_t i = 0; i < x.size(); i++) {
    r.push_back(x.d[i]);
    r.push_back(g[i]);
  }
}
inline void putD(D &r, const std::vector<Dn> &x) {
  for (auto e : x) {
    r.push_back(e.v);
    r.push_back(e.d);
  }
}
// square root by Newton's method: the derivative of the iteration
inline D root(const D &x, int n) {
  D m = x;
  AV av(0, 1);
  ::BorrowPtr b(m.data(), m.size());
  av.initBorrow(b);
  Tr<0> a(av);
  Tr<0, 1> p(av);
  a = p;
  for (int i = 0; i < n; i++)
    a = (a + p / a) * scalarDeriv<0>(av, 0.5);
  D r;
  put(r, a);
  put(r, p);
  if (m != x)
    mc::fail("the argument was changed");
  return r;
}
inline D refRoot(const D &x, int n) {
  std::vector<Dn> a, p;
  for (double d : x) {
    Dn q{d, 1}, z = q;
    for (int i = 0; i < n; i++)
      z = (z + q / z) * k(0.5);
    a.push_back(z);
    p.push_back(q);
  }
  D r;
  putD(r, a);
  putD(r, p);
  return r;
}
// polynomial by Horner's scheme: values and derivatives at several points
inline D poly(const D &c) {
  AV av(0, 0);
  sexp x = coca(-2.0, -1.0, 0.0, 0.5, 3.0);
  av.initBuffer(x);
  Tr<0> a(av);
  Tr<1> b(av);
  b = a * scalarDeriv<0>(av, 0.0);
  for (std::size_t i = c.size(); i-- > 0;)
    b = b * a + scalarDeriv<1>(av, c[i]);
  D r;
  put(r, b);
  return r;
}
inline D refPoly(const D &c) {
  std::vector<Dn> b;
  for (double x : {-2.0, -1.0, 0.0, 0.5, 3.0}) {
    Dn s = k(0);
    for (std::size_t i = c.size(); i-- > 0;)
      s = s * Dn{x, 1} + k(c[i]);
    b.push_back(s);
  }
  D r;
  putD(r, b);
  return r;
}
// predator and prey: sensitivity of the states to the initial state (who 0, 1) or the parameters (2)
inline D sens(const D &in, int n, int who) {
  D y{in[0]}, z{in[1]}, par(in.data() + 2, in.data() + in.size());
  AV av(who == 2 ? 0 : who, who == 2 ? 1 : 0);
  sexp yy = ::in<double>(y), zz = ::in<double>(z);
  ::BorrowPtr b(par.data(), par.size());
  av.initBuffer(yy, zz);
  av.initBorrow(b);
  Tr<0> a(av);
  Tr<1> c(av);
  Tr<2> da(av);
  Tr<3> dc(av);
  Tr<0, 1> p(av);
  for (int i = 0; i < n; i++) {
    da = p * a - a * c;
    dc = a * c - p * c * scalarDeriv<0>(av, 2.0);
    if (i % 2) { // in place or by way of the differences
      a = a + da * scalarDeriv<1>(av, 0.125);
      c = c + dc * scalarDeriv<2>(av, 0.125);
    } else {
      da = da * scalarDeriv<1>(av, 0.125);
      dc = dc * scalarDeriv<2>(av, 0.125);
      a = a + da;
      c = c + dc;
    }
  }
  D r;
  put(r, a);
  put(r, c);
  put(r, p);
  return r;
}
inline D refSens(const D &in, int n, int who) {
  std::vector<Dn> a{{in[0], double(who == 0)}}, c{{in[1], double(who == 1)}}, p;
  for (std::size_t i = 2; i < in.size(); i++)
    p.push_back({in[i], double(who == 2)});
  auto len = [&](std::size_t x, std::size_t y) { return std::max(x, y); };
  auto op = [&](const std::vector<Dn> &x, const std::vector<Dn> &y, auto f) {
    std::vector<Dn> r;
    for (std::size_t i = 0; i < len(x.size(), y.size()); i++)
      r.push_back(f(x[i % x.size()], y[i % y.size()]));
    return r;
  };
  auto mul = [](Dn x, Dn y) { return x * y; };
  auto sub = [](Dn x, Dn y) { return x - y; };
  auto stp = [](Dn x, Dn y) { return x + y * k(0.125); };
  for (int i = 0; i < n; i++) {
    auto ac = op(a, c, mul);
    auto da = op(op(p, a, mul), ac, sub), dc = op(ac, op(op(p, c, mul), {k(2)}, mul), sub);
    a = op(a, da, stp);
    c = op(c, dc, stp);
  }
  D r;
  putD(r, a);
  putD(r, c);
  putD(r, p);
  return r;
}
// zeros of x*x*x - k by Newton's method, the slope read from the tracked function
template <class F> double slope(F f, double at, double &val) {
  AV av(0, 0);
  sexp x = coca(at);
  av.initBuffer(x);
  Tr<0> a(av);
  Tr<1> b(av);
  f(av, a, b);
  sexp g = get_derivs(b);
  val = b.d[0];
  return g[0];
}
inline D zero(const D &in) {
  sexp trace, x;
  x = in[0];
  trace = in[0];
  for (int i = 0; i < 5; i++) {
    double v;
    double s = slope([&](auto &av, auto &a, auto &b) { b = a * a * a - scalarDeriv<0>(av, in[1]); }, x[0], v);
    x = x - v / s;
    trace = coca(trace, x);
  }
  return out(trace);
}
inline D refZero(const D &in) {
  D r{in[0]};
  double x = in[0];
  for (int i = 0; i < 5; i++)
    r.push_back(x -= (x * x * x - in[1]) / (x * x + 2 * (x * x)));
  return r;
}
// fit of a line by descent: gradient of the squared residuals for intercept and slope
inline D fit(const D &y, int n) {
  double b0 = 0, b1 = 1;
  for (int i = 0; i < n; i++) {
    double g0 = 0, g1 = 0;
    for (int who = 0; who < 2; who++) {
      AV av(who, 0);
      D ym = y, xm;
      for (std::size_t j = 0; j < y.size(); j++)
        xm.push_back(double(j));
      ::BorrowPtr x(xm.data(), xm.size()), obs(ym.data(), ym.size());
      sexp i0 = coca(b0), i1 = coca(b1);
      av.initBuffer(i0, i1);
      av.initBorrow(x, obs);
      Tr<0> a(av);
      Tr<1> b(av);
      Tr<2> res(av);
      Tr<3> sq(av);
      Tr<0, 1> px(av);
      Tr<1, 1> py(av);
      res = a + b * px - py;
      sq = res * res;
      for (auto e : get_derivs(sq))
        (who ? g1 : g0) += e;
    }
    b0 -= 0.03125 * g0;
    b1 -= 0.03125 * g1;
  }
  return D{b0, b1};
}
inline D refFit(const D &y, int n) {
  double b0 = 0, b1 = 1;
  for (int i = 0; i < n; i++) {
    double g0 = 0, g1 = 0;
    for (std::size_t j = 0; j < y.size(); j++) {
      double r = b0 + b1 * double(j) - y[j];
      g0 += 2 * r;
      g1 += 2 * r * double(j);
    }
    b0 -= 0.03125 * g0;
    b1 -= 0.03125 * g1;
  }
  return D{b0, b1};
}
// repeated until a bound is exceeded; a branch on a tracked comparison
inline D grow(const D &in) {
  AV av(0, 0);
  sexp x = ::in<double>(in);
  av.initBuffer(x);
  Tr<0> a(av);
  Tr<1> b(av);
  b = a;
  int n = 0;
  while (n < 6 && b.d[0] < 10) {
    if (b.d[0] < 3)
      b = b * a;
    else
      b = b + sinus(a);
    a = (a > b) * a + (a <= b) * a;
    n++;
  }
  D r{double(n)};
  put(r, b);
  put(r, a);
  return r;
}
inline D refGrow(const D &in) {
  std::vector<Dn> a, b;
  for (double d : in)
    a.push_back({d, 1});
  b = a;
  int n = 0;
  while (n < 6 && b[0].v < 10) {
    bool m = b[0].v < 3;
    for (std::size_t i = 0; i < a.size(); i++)
      b[i] = m ? b[i] * a[i] : b[i] + sn(a[i]);
    n++;
  }
  D r{double(n)};
  putD(r, b);
  putD(r, a);
  return r;
}
static void explore() {
  const int T = mc::C.thorough;
  for (int n = 1; n <= 3 + T; n++)
    allVec(n, D{0.25, 1, 2, 9, 1000}, [&](const D &x) {
      for (int it : {0, 1, 2, 5, 12}) {
        NAME = "square root iterations";
        one(x, refRoot(x, it), [it](const D &x) { return root(x, it); });
      }
    });
  for (int n = 1; n <= 5 + T; n++)
    allVec(n, D{-1, 0, 2, 0.5}, [&](const D &c) {
      NAME = "polynomial with derivative";
      one(c, refPoly(c), [](const D &c) { return poly(c); });
      NAME = "fitted line";
      for (int it : {0, 1, 3})
        one(c, refFit(c, it), [it](const D &c) { return fit(c, it); });
    });
  for (int n = 3; n <= 5 + T; n++)
    allVec(n, D{0.25, 1, 2}, [&](const D &x) {
      for (int it : {0, 1, 2, 7})
        for (int who = 0; who < 3; who++) {
          NAME = "sensitivities";
          one(x, refSens(x, it, who), [=](const D &x) { return sens(x, it, who); });
        }
    });
  allVec(2, D{0.5, 1, 3, 8, -2}, [&](const D &x) {
    NAME = "zero by Newton's method";
    one(x, refZero(x), [](const D &x) { return zero(x); });
  });
  for (int n = 1; n <= 4 + T; n++)
    allVec(n, D{0.5, 1.25, 2, 4, -1}, [&](const D &x) {
      NAME = "growth up to a bound";
      one(x, refGrow(x), [](const D &x) { return grow(x); });
    });
}
#endif
MACHINE_MAIN

// C11: invalid accesses. PART 0 = element access forms that are not subscripts
// of statements; 1 = operations on empty variables, invalid statements inside
// larger statements
#include "subs.hpp"
using namespace wd;
#ifndef PART
#define PART 0
#endif
#if PART == 0
// one access: valid indices give the element / write it, all others throw
struct Form {
  const char *name;
  // returns the value read; writes w if not null
  double (*f)(RW &, std::size_t k, const double *w);
  int var; // 0 a 1 i 2 l 3 p 4 m 5 q 6 o: variable addressed; 100+ = selection 3 1 of it
};
template <class T> double acc(T &&v, std::size_t k, const double *w) {
  if (w) {
    v[k] = *w;
    return *w;
  }
  return double(v[k]);
}
template <class T> double cacc(const T &v, std::size_t k, const double *) { return double(v[k]); }
template <class T> double bk(T &v, std::size_t, const double *w) {
  if (w) {
    v.back() = *w;
    return *w;
  }
  return double(v.back());
}
static const Form FORMS[] = {
    {"a[k]", [](RW &w, std::size_t k, const double *x) { return acc(w.a, k, x); }, 0},
    {"const a[k]", [](RW &w, std::size_t k, const double *x) { return cacc(w.a, k, x); }, 10},
    {"i[k]", [](RW &w, std::size_t k, const double *x) { return acc(w.i, k, x); }, 1},
    {"const i[k]", [](RW &w, std::size_t k, const double *x) { return cacc(w.i, k, x); }, 11},
    {"l[k]", [](RW &w, std::size_t k, const double *x) { return acc(w.l, k, x); }, 2},
    {"p[k]", [](RW &w, std::size_t k, const double *x) { return acc(w.p, k, x); }, 3},
    {"const p[k]", [](RW &w, std::size_t k, const double *x) { return cacc(w.p, k, x); }, 13},
    {"m[k]", [](RW &w, std::size_t k, const double *x) { return acc(w.m, k, x); }, 4},
    {"q[k]", [](RW &w, std::size_t k, const double *x) { return acc(w.q, k, x); }, 5},
    {"o[k]", [](RW &w, std::size_t k, const double *x) { return acc(w.o, k, x); }, 6},
    {"subset(a, {2,1})[k]", [](RW &w, std::size_t k, const double *x) { return acc(etr::subset(w.a, etr::coca(2, 1)), k, x); }, 100},
    {"const subset(a, {2,1})[k]", [](RW &w, std::size_t k, const double *x) { return cacc(etr::subset(w.a, etr::coca(2, 1)), k, x); }, 110},
    {"subset(p, {2,1})[k]", [](RW &w, std::size_t k, const double *x) { return acc(etr::subset(w.p, etr::coca(2, 1)), k, x); }, 103},
    {"const subset(p, {2,1})[k]", [](RW &w, std::size_t k, const double *x) { return cacc(etr::subset(w.p, etr::coca(2, 1)), k, x); }, 113},
    {"coca(a)[k]", [](RW &w, std::size_t k, const double *x) { return cacc(etr::coca(w.a), k, x); }, 10},
    {"rep(a,1)[k]", [](RW &w, std::size_t k, const double *x) { return cacc(etr::rep(w.a, w.si), k, x); }, 10},
    {"copy of a[k]", [](RW &w, std::size_t k, const double *x) { Vec<double> c = w.a; return cacc(c, k, x); }, 10},
    {"a.back()", [](RW &w, std::size_t k, const double *x) { return bk(w.a, k, x); }, 200},
    {"p.back()", [](RW &w, std::size_t k, const double *x) { return bk(w.p, k, x); }, 203},
    {"i.back()", [](RW &w, std::size_t k, const double *x) { return bk(w.i, k, x); }, 201},
};
Var &var(MW &m, int k) {
  switch (k % 10) {
  case 0: return m.a;
  case 1: return m.i;
  case 2: return m.l;
  case 3: return m.p;
  case 4: return m.m;
  case 5: return m.q;
  }
  return m.o;
}
void access(const Init &in, int shrinkTo, const Form &f, std::size_t k, bool write) {
  mc::run([&] { return std::string(write ? "write " : "read ") + f.name + " with k=" + std::to_string((long)k) + " a=" + rm::str(in.a) + " p=" + rm::str(V(in.mp)) + " shrunk to " + std::to_string(shrinkTo); },
          [&] {
            long live0 = mc::A.live;
            {
              RW r(in.mp, in.mq, in.qr, in.qc);
              MW m(in.mp, in.mq, in.qr, in.qc);
              {
                mc::Track tr;
                fresh(r, in);
              }
              fresh(m, in);
              if (shrinkTo && !in.a.x.empty()) { // capacity and memory stay larger
                V s = sb::seq(shrinkTo, 50, 1);
                {
                  mc::Track tr;
                  Vec<double> t;
                  rm::put(t, s);
                  r.a = t;
                  r.i = t;
                  r.p = t;
                }
                m.a.set(s);
                m.i.set(s);
                m.p.set(s);
              }
              Var &v = var(m, f.var);
              std::size_t pos = k, n = v.len;
              bool ok;
              if (f.var >= 200) {
                ok = n > 0;
                pos = n - 1;
              } else if (f.var >= 100) {
                ok = k < 2 && n >= 2 - k && n > 0;
                pos = 1 - k;
              } else
                ok = k < n;
              double x = 1, got = 0;
              bool thrown = false;
              if (f.name[0] == 'r' && n == 0)
                ok = false;
              try {
                mc::Track tr;
                got = f.f(r, k, write ? &x : nullptr);
              } catch (std::exception &) {
                thrown = true;
              }
              ++mc::C.transitions;
              if (thrown == ok)
                fail(ok ? "rejected a valid access" : "accepted an invalid access, value " + std::to_string(got));
              if (ok) {
                if (write)
                  v.mem()[v.off + pos] = x;
                else if (!rm::near(got, v.mem()[v.off + pos]))
                  fail("read " + std::to_string(got));
              }
              compare(r, m, Ctx{"after ", f.name, ""});
              mc::state(mc::hmix(hashW(m), k * 64 + (&f - FORMS)));
              r.gp.unpoison();
              r.gq.unpoison();
            }
            if (mc::A.live != live0)
              fail("memory blocks leaked");
          });
}
// at() with a position of every arithmetic type; k is the position as an R user writes it
struct AtForm {
  const char *name;
  double *(*f)(RW &, const void *);
  int var;
  int rc; // 0 element, 1 row (column 1), 2 column (row 1), 3 both
};
template <class K> struct AtForms {
#define AT(N, E, V, RC) {N, [](RW &w, const void *kp) -> double * { K k = *static_cast<const K *>(kp); (void)k; return reinterpret_cast<double *>(&(E)); }, V, RC}
  static const std::vector<AtForm> &all() {
    static const std::vector<AtForm> F = {
        AT("at(a,k)", etr::at(w.a, k), 0, 0), AT("at(i,k)", etr::at(w.i, k), 1, 0), AT("at(l,k)", etr::at(w.l, k), 2, 0), AT("at(p,k)", etr::at(w.p, k), 3, 0), AT("at(m,k)", etr::at(w.m, k), 4, 0), AT("at(q,k)", etr::at(w.q, k), 5, 0),
        AT("at(m,k,1)", etr::at(w.m, k, 1), 4, 1), AT("at(m,1,k)", etr::at(w.m, 1, k), 4, 2), AT("at(m,1.0,k)", etr::at(w.m, 1.0, k), 4, 2), AT("at(m,k,k)", etr::at(w.m, k, k), 4, 3), AT("at(q,k,1)", etr::at(w.q, k, 1), 5, 1), AT("at(q,1,k)", etr::at(w.q, 1, k), 5, 2), AT("at(q,k,k)", etr::at(w.q, k, k), 5, 3), AT("at(a,k,1)", etr::at(w.a, k, 1), 0, 1), AT("at(p,1,k)", etr::at(w.p, 1, k), 3, 2),
    };
    return F;
  }
#undef AT
};
template <class K> void atKind(const Init &in, const char *kn, const std::vector<__int128> &ks) {
  for (__int128 kk : ks) {
    K k = K(0);
    if constexpr (std::is_integral_v<K>) {
      if (kk < __int128(std::numeric_limits<K>::min()) || kk > __int128(std::numeric_limits<K>::max()) || (std::is_signed_v<K> && kk == __int128(std::numeric_limits<K>::min())))
        continue;
      k = K(kk);
    } else {
      if (kk > 2147483000 || kk < -2147483000)
        continue; // beyond the range of int: unspecified
      k = K(double(kk));
      if (__int128(double(k)) != kk)
        continue;
    }
    for (auto &f : AtForms<K>::all())
      mc::run([&] { return std::string(f.name) + " with " + kn + " k=" + std::to_string((long long)kk) + " a=" + rm::str(in.a) + " p=" + rm::str(V(in.mp)) + " m " + std::to_string(in.m.r) + "x" + std::to_string(in.m.c) + " q " + std::to_string(in.qr) + "x" + std::to_string(in.qc); },
              [&] {
                RW r(in.mp, in.mq, in.qr, in.qc);
                MW m(in.mp, in.mq, in.qr, in.qc);
                {
                  mc::Track tr;
                  fresh(r, in);
                }
                fresh(m, in);
                Var &v = var(m, f.var);
                __int128 row = kk, col = 1, nr = v.m ? v.r : 0, nc = v.m ? v.c : 0, pos = -1;
                bool ok;
                if (f.rc == 0) {
                  ok = kk >= 1 && kk <= __int128(v.len);
                  pos = kk - 1;
                } else {
                  if (f.rc == 2)
                    row = 1, col = kk;
                  else if (f.rc == 3)
                    col = kk;
                  ok = v.m && row >= 1 && row <= nr && col >= 1 && col <= nc;
                  pos = (col - 1) * nr + row - 1;
                }
                void *e = nullptr;
                bool thrown = false;
                try {
                  mc::Track tr;
                  e = f.f(r, &k);
                } catch (std::exception &) {
                  thrown = true;
                }
                ++mc::C.transitions;
                if (thrown == ok)
                  fail(ok ? "rejected a valid position" : "accepted an invalid position");
                if (ok) { // the element it returns is the one of the variable: read it, write it
                  double want = v.mem()[v.off + std::size_t(pos)], got;
                  if (f.var == 1)
                    got = *static_cast<int *>(e), *static_cast<int *>(e) = 1;
                  else if (f.var == 2)
                    got = *static_cast<bool *>(e), *static_cast<bool *>(e) = true;
                  else
                    got = *static_cast<double *>(e), *static_cast<double *>(e) = 1;
                  if (!rm::near(got, want))
                    fail("it read " + std::to_string(got) + ", element is " + std::to_string(want));
                  v.mem()[v.off + std::size_t(pos)] = 1;
                }
                compare(r, m, Ctx{"after ", f.name, ""});
                mc::state(mc::hmix(hashW(m), std::uint64_t(kk) * 64 + (&f - AtForms<K>::all().data()) + std::hash<std::string>()(kn)));
                r.gp.unpoison();
                r.gq.unpoison();
              });
  }
}
void atAll(const Init &in, const std::vector<__int128> &ks) {
  atKind<int>(in, "int", ks);
  atKind<unsigned>(in, "unsigned", ks);
  atKind<long>(in, "long", ks);
  atKind<unsigned long>(in, "unsigned long", ks);
  atKind<long long>(in, "long long", ks);
  atKind<short>(in, "short", ks);
  atKind<unsigned short>(in, "unsigned short", ks);
  atKind<signed char>(in, "signed char", ks);
  atKind<unsigned char>(in, "unsigned char", ks);
  atKind<double>(in, "double", ks);
  atKind<float>(in, "float", ks);
}
void ats() {
  for (std::size_t n : mc::C.thorough ? std::vector<std::size_t>{0, 1, 2, 3, 4, 5, 6, 8, 12, 20} : std::vector<std::size_t>{0, 1, 2, 3, 6}) {
    Init in{"", sb::seq(n + 2, 1).x, sb::mat(6, 1, 5).x, 2, 3, sb::seq(n, 3), V({1}), n ? (n % 3 ? sb::mat(n, 1, 9) : sb::mat(3, n / 3, 9)) : V(), V({1}), sb::seq(n, 3, 2), sb::seq(n, 1, 0)};
    std::vector<__int128> ks;
    for (int k = -3; k <= int(n) + 4; k++)
      ks.push_back(k);
    for (int k = 5; k <= 10; k++)
      if (k > int(n) + 4)
        ks.push_back(k);
    for (int sh : {7, 8, 15, 16, 31, 32, 33, 61, 63}) // ±2^sh with small offsets: what a narrowing conversion confuses with a valid position
      for (int d = -2; d <= 7; d++) {
        ks.push_back((__int128(1) << sh) + d);
        ks.push_back(-(__int128(1) << sh) + d);
        ks.push_back((__int128(2) << sh) + d);
      }
    std::sort(ks.begin(), ks.end());
    ks.erase(std::unique(ks.begin(), ks.end()), ks.end());
    atAll(in, ks);
  }
  for (std::size_t n : {127, 129, 255, 257, 300, 32768, 65537}) {
    if (n > 1000 && !mc::C.thorough)
      continue;
    Init in{"", sb::seq(n + 2, 1).x, sb::mat(n, 1, 5).x, 1, n, sb::seq(n, 3), V({1}), sb::mat(n, 1, 9), V({1}), sb::seq(n, 3, 2), sb::seq(n, 1, 0)};
    std::vector<__int128> ks = {-1, 0, 1, 2, 127, 128, 129, 200, 254, 255, 256, 257, 258, __int128(n) - 1, __int128(n), __int128(n) + 1, __int128(n) + 2, __int128(n) + 3, __int128(n) + 256, __int128(n) + 65536};
    std::sort(ks.begin(), ks.end());
    ks.erase(std::unique(ks.begin(), ks.end()), ks.end());
    atAll(in, ks);
  }
}
// constructions with invalid sizes
void sizes() {
  static const struct {
    const char *n;
    bool ok;
    void (*f)();
  } S[] = {
      {"Vec<double>(SI{0})", false, [] { Vec<double> v(etr::SI{0}); }},
      {"Vec<int>(SI{0})", false, [] { Vec<int> v(etr::SI{0}); }},
      {"Vec<bool>(SI{0})", false, [] { Vec<bool> v(etr::SI{0}); }},
      {"Buffer<double>(0)", false, [] { etr::Buffer<double> b(0); }},
      {"Buffer<double>(-1)", false, [] { etr::Buffer<double> b(-1); }},
      {"Buffer<int>(-5)", false, [] { etr::Buffer<int> b(-5); }},
      {"Buffer<int>(size_t 0)", false, [] { etr::Buffer<int> b(std::size_t(0)); }},
      {"Vec.resize(0)", false, [] { Vec<double> v; v.resize(0); }},
      {"Vec.resize(0) after use", false, [] { Vec<double> v = etr::coca(1.0, 2.0); v.resize(0); }},
      {"Vec<double>(SI{1})", true, [] { Vec<double> v(etr::SI{1}); if (v.size() != 1 || v[0] != 0) fail("bad content"); }},
      {"Vec<double>(SI{3})", true, [] { Vec<double> v(etr::SI{3}); if (v.size() != 3 || v[0] != 0 || v[1] != 0 || v[2] != 0) fail("bad content"); }},
      {"Buffer<int>(2)", true, [] { etr::Buffer<int> v(2); if (v.size() != 2 || v[0] != 0 || v[1] != 0) fail("bad content"); }},
      {"vector_numeric(0)", false, [] { Vec<double> v; v = etr::vector_numeric(0); }},
      {"vector_logical(0)", false, [] { Vec<bool> v; v = etr::vector_logical(0); }},
      {"vector_integer(-1)", false, [] { Vec<int> v; v = etr::vector_integer(-1); }},
      {"rep(1.0, 0)", false, [] { Vec<double> v; v = etr::rep(1.0, 0); }},
      {"rep(1.0, -3)", false, [] { Vec<double> v; v = etr::rep(1.0, -3); }},
      {"matrix(0.0, 0, 1)", false, [] { Vec<double> v; v = etr::matrix(0.0, 0, 1); }},
      {"matrix(0.0, 1, 0)", false, [] { Vec<double> v; v = etr::matrix(0.0, 1, 0); }},
      {"matrix(0.0, -1, -1)", false, [] { Vec<double> v; v = etr::matrix(0.0, -1, -1); }},
      {"matrix(coca(1.0,2.0), 3, 1)", false, [] { Vec<double> v; v = etr::matrix(etr::coca(1.0, 2.0), 3, 1); }},
      {"matrix(coca(1.0,2.0), 1, 1)", false, [] { Vec<double> v; v = etr::matrix(etr::coca(1.0, 2.0), 1, 1); }},
  };
  for (auto &s : S)
    mc::run([&] { return std::string(s.n); },
            [&] {
              long live0 = mc::A.live;
              bool thrown = false;
              {
                mc::Track tr;
                try {
                  s.f();
                } catch (std::exception &) {
                  thrown = true;
                }
              }
              if (thrown == s.ok)
                fail(s.ok ? "rejected" : "accepted");
              if (mc::A.live != live0)
                fail("memory blocks leaked");
              ++mc::C.transitions;
              mc::state(std::hash<std::string>()(s.n));
            });
}
void explore() {
  std::size_t N = mc::C.thorough ? 40 : 18;
  for (std::size_t n = 0; n <= N; n++) {
    Init in{"", sb::seq(n + 2, 1).x, sb::mat(n + 1, 1, 5).x, 1, n + 1, sb::seq(n, 3), V({1}), n ? sb::mat(n, 1, 9) : V(), V({1}), sb::seq(n, 3, 2), sb::seq(n, 1, 0)};
    std::vector<std::size_t> ks;
    for (std::size_t k = 0; k <= n + 4; k++)
      ks.push_back(k);
    for (std::size_t k : {n + 100, std::size_t(1) << 31, (std::size_t(1) << 32) + 0, std::size_t(1) << 61, ~std::size_t(0), ~std::size_t(0) - 1, std::size_t(1) << 63})
      ks.push_back(k);
    for (auto &f : FORMS)
      for (std::size_t k : ks)
        for (int w = 0; w < 2; w++)
          for (std::size_t sh : {std::size_t(0), n / 2, std::size_t(1)}) {
            if (w && (f.var % 100 >= 10))
              continue;
            if (sh && (sh == 1 || !n) && n < 2)
              continue;
            if (f.var >= 200 && k)
              continue;
            if (f.var >= 100 && f.var < 200 && k >= 2)
              continue; // elements of a selection recycle, as in arithmetic
            access(in, int(sh), f, k, w);
          }
  }
  for (std::size_t n : sb::ladder(N + 1, mc::C.thorough ? 65537 : 4097)) {
    Init in{"", sb::seq(n + 2, 1).x, sb::mat(n + 1, 1, 5).x, 1, n + 1, sb::seq(n, 3), V({1}), sb::mat(n, 1, 9), V({1}), sb::seq(n, 3, 2), sb::seq(n, 1, 0)};
    for (auto &f : FORMS)
      for (std::size_t k : {std::size_t(0), n / 2 - 1, n / 2, n / 2 + 1, n - 1, n, n + 1, n + 2, n + n / 8, n + n / 7 + 1, 2 * n, std::size_t(1) << 32})
        for (int w = 0; w < 2; w++)
          for (std::size_t sh : {std::size_t(0), n / 2}) {
            if ((w && (f.var % 100 >= 10)) || (f.var >= 200 && k) || (f.var >= 100 && f.var < 200 && k >= 2))
              continue;
            access(in, int(sh), f, k, w);
          }
  }
  sizes();
  ats();
}
#else
#define A1(X) ST(0, w.b = X), ST(0, w.b = X + w.b), ST(0, w.b = w.b - X), ST(0, w.b = X * 2.0), ST(0, w.b = 1.0 / X), ST(0, w.b = -X), ST(0, w.b = sinus(X)), ST(0, w.b = exp(X)), ST(0, w.l = X > 1.0), ST(0, w.l = w.b == X), ST(0, w.b = X + X), ST(0, w.b = (X + w.b) * w.b), ST(0, w.b = subset(X, 1)), ST(0, w.b = subset(X, true)), ST(0, w.b = subset(X, w.coca(1, 2))), ST(0, w.b = subset(w.b, X)), ST(0, subset(X, 1) = 2.0), ST(0, subset(X, true) = 2.0), ST(0, subset(X, w.coca(1, 2)) = w.b), ST(0, subset(w.b, true) = X), ST(0, subset(w.b, X) = 3.0), ST(0, at(X, 1) = 3.0), ST(0, w.b = at(X, 1)), ST(0, w.b = subset(X, 1, 1)), ST(0, w.b = subset(X, true, true)), ST(0, subset(X, 1, 1) = 4.0), ST(0, w.b = at(X, 1, 1)), ST(0, w.b = w.rep(X, 2)), ST(0, w.p = X), ST(0, w.p = X + w.p), ST(0, w.q = X), ST(0, w.m = X), ST(0, w.b = w.p + X), ST(0, w.b = subset(w.b > 1.0, X))
static const std::vector<Stmt> AL = {
    A1(w.a), A1(w.i), A1(w.l), A1(w.m), A1(w.n),
    // an invalid access inside a larger statement
    ST(0, w.b = w.b + subset(w.b, 9)), ST(0, w.b = subset(w.b, 9) + w.b), ST(0, w.b = (w.b + w.b) * subset(w.p, 9)), ST(0, w.b = w.coca(at(w.b, 9), 1.0)), ST(0, w.p = w.p + subset(w.p, w.coca(1, 2, 9))),
    ST(0, w.q = w.q * subset(w.q, 3, 1)), ST(0, w.q = subset(w.q, w.coca(1, 3), true)), ST(0, subset(w.q, w.coca(1, 3), true) = 1.0), ST(0, subset(w.p, w.coca(1, 0)) = 1.0), ST(0, subset(w.p, w.coca(1, 9)) = w.b), ST(0, subset(w.b, w.coca(2, 9)) = w.b),
    ST(0, subset(w.b, 1) = at(w.b, 9)), ST(0, at(w.b, 9) = at(w.b, 1)), ST(0, subset(w.b, 1) = subset(w.b, 9)), ST(0, w.b = w.matrix(w.coca(w.b), 2, 2)), ST(0, w.b = subset(w.b, w.b)), ST(0, subset(w.b, w.b > 5.0) = 1.0), ST(0, subset(w.q, w.coca(true, false, true), true) = 1.0),
    ST(0, w.b = subset(w.q, w.coca(true, false, true), true)), ST(0, w.b = subset(w.q, true, w.coca(true, false, true))), ST(0, w.b = subset(w.q, false, true)), ST(0, w.b = subset(w.q, true, false)), ST(0, w.b = subset(w.b, false)), ST(0, subset(w.b, false) = 1.0), ST(0, w.b = w.p),
    ST(0, w.b = w.rep(w.b, 0)), ST(0, w.b = w.rep(w.b, -1)), ST(0, w.b = w.vector_numeric(0)), ST(0, w.p = w.rep(w.b, 9)), ST(0, w.q = w.matrix(1.0, 5, 5)), ST(0, w.o = w.p), ST(0, w.o = w.o + w.p),
};
void explore() {
  std::vector<Init> inits = {
      {"empty", {1, 2, 3}, {1, 2, 3, 4}, 2, 2, V(), V({1, 2}), V(), V(), V(), V()},
      {"one", {1, 2, 3}, {1, 2, 3, 4}, 2, 2, V({1}), V({1, 2}), V({1}), V({2}), V({1}), V({1})},
      {"matrix", {1, 2, 3}, {1, 2, 3, 4}, 2, 2, V({1, 2}, 1, 2), V({1, 2}), V({1, 2}, 2, 1), V({2, 9}), V({0, 2}), V({0, 0})},
  };
  for (auto &in : inits)
    allSeqs(in, AL, mc::C.thorough ? 3 : 2, 40);
}
#endif
WORLD_MAIN

// C18: PART 0: constants of tracked programs (colon, vector_*, coca,
// scalarDeriv) against the generators of ordinary programs, for every kind of
// argument and many values; slot and target vary.
// PART 1 (also C17): tracked programs with many variables: every statement
// dst = src1 op src2 (+ constant) on 4 owned and 3 borrowing variables
#include "dual.hpp"
#ifndef PART
#define PART 0
#endif
using namespace dl;
#if PART == 0
struct Args {
  int si = 0, ti = 0;
  double sd = 0, td = 0;
  bool sb = false, tb = false;
  etr::Vec<int> xi, yi;
  etr::Vec<double> xd, yd;
  etr::Vec<bool> xb;
};
constexpr int NB = 3, NW = 2, NC = 5;
using AV = etr::AllVars<NB, NW, 0, NC>;
struct T {
  AV &av;
  template <int I, class... A> auto colon(A &&...a) { return etr::colon<I>(av, std::forward<A>(a)...); }
  template <int I, class... A> auto vector_numeric(A &&...a) { return etr::vector_numeric<I>(av, std::forward<A>(a)...); }
  template <int I, class... A> auto vector_integer(A &&...a) { return etr::vector_integer<I>(av, std::forward<A>(a)...); }
  template <int I, class... A> auto vector_logical(A &&...a) { return etr::vector_logical<I>(av, std::forward<A>(a)...); }
  template <int I, class... A> auto coca(A &&...a) { return etr::coca<I>(av, std::forward<A>(a)...); }
  template <int I, class A> auto scalar(A a) { return etr::scalarDeriv<I>(av, a); }
};
struct O {
  template <int I, class... A> auto colon(A &&...a) { return etr::colon(std::forward<A>(a)...); }
  template <int I, class... A> auto vector_numeric(A &&...a) { return etr::vector_numeric(std::forward<A>(a)...); }
  template <int I, class... A> auto vector_integer(A &&...a) { return etr::vector_integer(std::forward<A>(a)...); }
  template <int I, class... A> auto vector_logical(A &&...a) { return etr::vector_logical(std::forward<A>(a)...); }
  template <int I, class... A> auto coca(A &&...a) { return etr::coca(std::forward<A>(a)...); }
  template <int I, class A> auto scalar(A a) { return etr::coca(a); }
};
// where a generated constant goes: slot, target
template <int I, int Ty> using Var = etr::Vec<double, etr::VarPointer<AV, I, Ty>, etr::VariableTypeTrait>;
constexpr std::size_t CAPB = 40;
struct Out {
  bool thrown = false;
  V v, other;
};
struct Gen {
  const char *text;
  Out (*t[4])(Args &);
  Out (*o[2])(Args &);
};
template <int Slot, bool Borrowed, class F> Out runT(Args &x) {
  Out out;
  rm::Guarded mem(sb::seq(CAPB, 1, 0).x);
  AV av(0, 0);
  Var<NB - 1, 0> a(av);
  Var<0, 0> b(av);
  Var<NW - 1, 1> p(av);
  etr::Vec<double, etr::Borrow<double>> q(mem.p(), CAPB);
  av.varBorrow[NW - 1].d = q.d;
  T t{av};
  try {
    mc::Track tr;
    b = etr::coca<(Slot + 1) % NC>(av, 10.5, 20.5);
    if constexpr (Borrowed)
      p = F()(t, x, std::integral_constant<int, Slot>());
    else
      a = F()(t, x, std::integral_constant<int, Slot>());
  } catch (std::exception &) {
    out.thrown = true;
  }
  mem.checkGuards();
  if (!out.thrown) {
    if constexpr (Borrowed) {
      out.v = obsVal(p);
      V d = obsDeriv(p);
      for (double e : d.x)
        if (e != 0)
          mc::fail("the derivative of a constant is " + rm::str(d));
    } else
      out.v = obsVal(a);
  }
  out.other = obsVal(b);
  return out;
}
template <bool Borrowed, class F> Out runO(Args &x) {
  Out out;
  rm::Guarded mem(sb::seq(CAPB, 1, 0).x);
  etr::Vec<double> a;
  etr::Vec<double, etr::Borrow<double>> p(mem.p(), CAPB);
  O o;
  try {
    mc::Track tr;
    if constexpr (Borrowed)
      p = F()(o, x, std::integral_constant<int, 0>());
    else
      a = F()(o, x, std::integral_constant<int, 0>());
  } catch (std::exception &) {
    out.thrown = true;
  }
  if (!out.thrown)
    out.v = Borrowed ? rm::obs(p) : rm::obs(a);
  return out;
}
std::vector<Gen> G[20];
int cur = 0;
template <class F> void reg(const char *t, F) {
  G[cur].push_back(Gen{t, {runT<0, false, F>, runT<NC - 1, false, F>, runT<1, true, F>, runT<NC - 1, true, F>}, {runO<false, F>, runO<true, F>}});
}
#define GEN(...) reg(#__VA_ARGS__, []<int I>(auto &w, Args &x, std::integral_constant<int, I>) { (void)x; return w.template __VA_ARGS__; });
#define COLS(A) cur++; GEN(colon<I>(A, x.ti)) GEN(colon<I>(A, x.td)) GEN(colon<I>(A, x.yi)) GEN(colon<I>(A, x.yd)) GEN(colon<I>(A, etr::coca(x.yd))) GEN(colon<I>(A, etr::coca(x.yi)))
#define VECS(A) cur++; GEN(vector_numeric<I>(A)) GEN(vector_integer<I>(A)) GEN(vector_logical<I>(A))
void build() {
  cur = -1;
  COLS(x.si) COLS(x.sd) COLS(x.xi) COLS(x.xd) COLS(etr::coca(x.xd))
  VECS(x.si) VECS(x.sd) VECS(x.xi) VECS(x.xd) VECS(std::size_t(x.si))
  cur++;
  GEN(scalar<I>(x.si)) GEN(scalar<I>(x.sd)) GEN(scalar<I>(x.sb))
  GEN(coca<I>(x.si)) GEN(coca<I>(x.sd)) GEN(coca<I>(x.si, x.ti)) GEN(coca<I>(x.si, x.td)) GEN(coca<I>(x.sd, x.ti)) GEN(coca<I>(x.sd, x.td)) GEN(coca<I>(x.sb, x.tb)) GEN(coca<I>(x.sb, x.ti)) GEN(coca<I>(x.td, x.sb, x.si))
  cur++;
  GEN(coca<I>(x.xi)) GEN(coca<I>(x.xd)) GEN(coca<I>(x.xb)) GEN(coca<I>(x.xi, x.xd)) GEN(coca<I>(x.xd, x.xi)) GEN(coca<I>(x.xb, x.xi)) GEN(coca<I>(x.xd, 1.5, x.xd)) GEN(coca<I>(2, x.xi)) GEN(coca<I>(true, x.xd, x.xb)) GEN(coca<I>(x.xi, x.xi, x.xi)) GEN(coca<I>(etr::coca(x.xd), x.xd)) GEN(coca<I>(x.xb, x.xb, 2.5))
  // temporaries
  VECS(x.si + 0) VECS(x.sd + 0.0) VECS(etr::coca(x.xi)) VECS(etr::coca(x.xd))
  COLS(x.si + 0) COLS(x.sd + 0.0) COLS(etr::coca(x.xi)) COLS(x.xd + 0.0)
}
void one(const Gen &g, const std::string &at, const std::function<void(Args &)> &set) {
  for (int k = 0; k < 4; k++)
    mc::run([&] { return std::string(g.text) + " " + at + " into " + (k < 2 ? "an owned" : "a borrowing") + " variable, constant " + std::to_string(k == 0 ? 0 : k == 2 ? 1 : NC - 1); },
            [&] {
              Args x, y;
              set(x);
              set(y);
              Out t = g.t[k](x), o = g.o[k / 2](y);
              mc::C.transitions += 2;
              if (t.thrown != o.thrown)
                mc::fail(std::string(t.thrown ? "the tracked" : "the ordinary") + " program only failed");
              if (!t.thrown && !rm::eq(t.v, o.v))
                mc::fail("tracked: " + rm::str(t.v) + ", ordinary: " + rm::str(o.v));
              if (!t.other.x.empty() && !rm::eq(t.other, V({10.5, 20.5})))
                mc::fail("another variable changed to " + rm::str(t.other));
              mc::state(rm::hash(t.v));
            });
}
std::string S(double d) {
  char b[40];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}
void explore() {
  build();
  const bool th = mc::C.thorough;
  std::vector<double> I = {-3, -2, -1, 0, 1, 2, 3, 5, 40, 2147483647.0, 2147483646.0, 2147483645.0, 2147483640.0, -2147483648.0, -2147483647.0, -2147483645.0};
  std::vector<double> D = {-2.5, -1, -0.5, -0.1, -0.0, 0.1, 0.3, 0.5, 0.7, 0.9, 1, 1.1, 1.3, 2, 2.3, 2.9, 3, 5, 5.1, 10.1, 20.7, 30.3, 40, 1e9, 1e9 + 0.5, 1e9 + 7, 1e15, 1e15 + 3, 1e300, 1e18, NAN, INFINITY};
  if (th)
    for (double d : {-40.0, -17.0, 4.0, 7.0, 11.0, 16.0, 33.0, 64.0})
      I.push_back(d), D.push_back(d), D.push_back(d + 0.2), D.push_back(d + 0.6), D.push_back(d + 0.9);
  auto fInt = [](int f) { return f == 0 || f == 2 || f == 16 || f == 18; };
  auto isI = [](const char *t) { return strstr(t, "x.ti") || strstr(t, "x.yi"); };
  for (int f : {0, 1, 2, 3, 4, 16, 17, 18, 19})
    for (auto &g : G[f])
      for (double a : fInt(f) ? I : D)
        for (double b : isI(g.text) ? I : D) {
          if (std::fabs(a - b) > 3000 && std::fabs(a - b) < 1e17)
            continue; // too long
          one(g, "from " + S(a) + " to " + S(b), [&](Args &x) {
            if (fInt(f))
              x.si = int(a), rm::put(x.xi, V({a}));
            else
              x.sd = a, rm::put(x.xd, V({a}));
            if (isI(g.text))
              x.ti = int(b), rm::put(x.yi, V({b}));
            else
              x.td = b, rm::put(x.yd, V({b}));
          });
        }
  std::vector<double> LI = {-2147483648.0, -2, -1, 0, 41, 300, 1025, 4097, 65537}, LD = {-1e300, -1.5, -1, -0.5, -0.0, 0.5, 0.999, 41, 300.5, 4097, 1e18, 9.3e18, 1.8446744073709552e19, 1e300, NAN, INFINITY};
  for (double d = 1; d <= 40; d++)
    for (double e : {0.0, 0.5, 0.999, 1 - 1e-9})
      e == 0 ? (LI.push_back(d), LD.push_back(d)) : LD.push_back(d + e);
  for (int f : {5, 6, 7, 8, 9, 12, 13, 14, 15})
    for (auto &g : G[f])
      for (double a : (f == 6 || f == 8 || f == 13 || f == 15) ? LD : LI)
        if (f != 9 || a >= 0)
          one(g, "with " + S(a), [&](Args &x) {
            if (f == 5 || f == 7 || f == 9 || f == 12 || f == 14)
              x.si = int(a), rm::put(x.xi, V({a}));
            else
              x.sd = a, rm::put(x.xd, V({a}));
          });
  // lengths given as vectors of other lengths
  for (std::size_t n : {2, 3})
    for (int f : {7, 8, 14, 15})
      for (auto &g : G[f])
        one(g, "with a vector of " + std::to_string(n), [&](Args &x) { rm::put(x.xi, sb::seq(n, 2, 1)), rm::put(x.xd, sb::seq(n, 2, 1)); });
  for (auto &g : G[10])
    for (double i : {-2147483648.0, -7.0, 0.0, 1.0, 2147483647.0})
      for (double d : {-1e300, -0.5, 0.0, 0.1, 16777217.0, 1e-300, 5e-324, 1e300})
        for (int b = 0; b < 4; b++)
          one(g, "of " + S(i) + " " + S(d) + " " + std::to_string(b), [&](Args &x) { x.si = int(i), x.ti = int(-i / 2), x.sd = d, x.td = 1.0 - d, x.sb = b & 1, x.tb = b & 2; });
  for (auto &g : G[11])
    for (std::size_t n : sb::ladder(1, th ? 70000 : 5000))
      for (std::size_t m : {std::size_t(1), n, 2 * n})
        one(g, "of vectors of " + std::to_string(n) + " and " + std::to_string(m), [&](Args &x) {
          V l;
          for (std::size_t k = 0; k < m; k++)
            l.x.push_back(double(k % 3 == 1));
          rm::put(x.xd, sb::seq(n, -3.25)), rm::put(x.xi, sb::seq(m, 4, -1)), rm::put(x.xb, l);
        });
}
#else
constexpr int NB = 4, NW = 3, NC = 4;
using AV = etr::AllVars<NB, NW, 0, NC>;
template <int K> struct At {
  static constexpr int I = K < NB ? K : K - NB, Ty = K < NB ? 0 : 1;
  using Var = etr::Vec<double, etr::VarPointer<AV, I, Ty>, etr::VariableTypeTrait>;
};
constexpr int NV = NB + NW;
constexpr std::size_t LEN = 3;
V init(int k) { return V({1.0 + 0.25 * k, 2.0 - 0.125 * k, k % 2 ? -1.5 : 0.5 + 0.0625 * k}); }
const std::vector<std::vector<double>> KV = {{2.5}, {1.5, -0.5, 2}, {0.25, 4}, {-1}};
template <int C> auto konst(AV &av) {
  if constexpr (C == 0)
    return etr::scalarDeriv<0>(av, 2.5);
  else if constexpr (C == 1)
    return etr::coca<1>(av, 1.5, -0.5, 2.0);
  else if constexpr (C == 2)
    return etr::coca<2>(av, 0.25, 4.0);
  else
    return etr::coca<3>(av, -1.0);
}
struct World {
  std::vector<std::unique_ptr<rm::Guarded>> mem;
  AV av;
  explicit World(int ind) : av(ind < NB ? ind : ind < NV ? ind - NB : 77, ind < NB ? 0 : ind < NV ? 1 : 0) {
    for (int k = 0; k < NB; k++) {
      mc::Track t;
      rm::put(av.varBuffer[k], init(k));
    }
    for (int k = 0; k < NW; k++) {
      mem.push_back(std::make_unique<rm::Guarded>(init(NB + k).x));
      mc::Track t;
      etr::Vec<double, etr::Borrow<double>> q(mem[k]->p(), LEN);
      av.varBorrow[k].d = q.d;
    }
  }
};
struct Stm {
  std::string text;
  int dst, a, b, c, kind;
  void (*run)(World &);
};
std::vector<Stm> al;
template <int D, int A, int B> void add() {
  constexpr int C = (D + 2 * A + B) % NC;
  std::string d = "v" + std::to_string(D), a = "v" + std::to_string(A), b = "v" + std::to_string(B), k = "k" + std::to_string(C);
  al.push_back(Stm{d + " = " + a + " * " + b + " + " + k, D, A, B, C, 0, [](World &w) {
                     typename At<D>::Var d(w.av);
                     typename At<A>::Var a(w.av);
                     typename At<B>::Var b(w.av);
                     d = a * b + konst<C>(w.av);
                   }});
  if constexpr (B == (A + 1) % NV)
    al.push_back(Stm{d + " = sinus(" + a + ") - " + b + " / " + k, D, A, B, C, 1, [](World &w) {
                       typename At<D>::Var d(w.av);
                       typename At<A>::Var a(w.av);
                       typename At<B>::Var b(w.av);
                       d = etr::sinus(a) - b / konst<C>(w.av);
                     }});
  if constexpr (A == B && D != A)
    al.push_back(Stm{d + " = " + a, D, A, A, C, 2, [](World &w) {
                       typename At<D>::Var d(w.av);
                       typename At<A>::Var a(w.av);
                       d = a;
                     }});
  if constexpr (A == B && A == D)
    al.push_back(Stm{d + " = " + k, D, A, A, C, 3, [](World &w) {
                       typename At<D>::Var d(w.av);
                       d = konst<C>(w.av);
                     }});
}
template <int D, int A, int... B> void addB(std::integer_sequence<int, B...>) { (add<D, A, B>(), ...); }
template <int D, int... A> void addA(std::integer_sequence<int, A...>) { (addB<D, A>(std::make_integer_sequence<int, NV>{}), ...); }
template <int... D> void addD(std::integer_sequence<int, D...>) { (addA<D>(std::make_integer_sequence<int, NV>{}), ...); }
template <int K> void cmpOne(World &w, const DVar &m, const std::string &at) {
  typename At<K>::Var x(w.av);
  std::string nm = "v" + std::to_string(K);
  V v = obsVal(x);
#ifdef VALUES
  if (!rm::eq(v, m.v))
    mc::fail("after " + at + ": " + nm + " is " + rm::str(v) + ", expected " + rm::str(m.v));
#else
  V d = obsDeriv(x);
  double scale = 0;
  for (double e : m.d)
    scale = std::max(scale, std::fabs(e));
  for (double e : m.v.x)
    scale = std::max(scale, std::fabs(e));
  bool ok = d.x.size() == m.d.size();
  for (std::size_t i = 0; ok && i < d.x.size(); i++)
    ok = nearD(d.x[i], m.d[i], scale);
  if (!ok)
    mc::fail("after " + at + ": derivative of " + nm + " is " + rm::str(d) + ", expected " + rm::str(V(m.d)));
#endif
}
template <int... K> void cmpAll(World &w, const std::vector<DVar> &m, const std::string &at, std::integer_sequence<int, K...>) { (cmpOne<K>(w, m[K], at), ...); }
void model(std::vector<DVar> &m, const Stm &s) {
  Du k = kd(V(KV[s.c]));
  const Du a = m[s.a], b = m[s.b];
  switch (s.kind) {
  case 0: m[s.dst] = a * b + k; break;
  case 1: m[s.dst] = sinus(a) - b / k; break;
  case 2: m[s.dst] = a; break;
  default: m[s.dst] = k;
  }
}
void seqRun(int ind, const std::vector<const Stm *> &seq, bool early) {
  World w(ind);
  std::vector<DVar> m(NV);
  for (int k = 0; k < NV; k++) {
    static_cast<Du &>(m[k]) = kd(init(k));
    m[k].konst = m[k].onlyK = false;
    m[k].indep = k == ind;
    if (k >= NB)
      m[k].cap = LEN;
    if (k == ind)
      m[k].d.assign(LEN, 1.0);
  }
  std::string done = "the initialisation";
  if (early)
    cmpAll(w, m, done, std::make_integer_sequence<int, NV>{});
  for (auto *s : seq) {
    model(m, *s);
    {
      mc::Track t;
      s->run(w);
    }
    ++mc::C.transitions;
    done = s->text;
    cmpAll(w, m, done, std::make_integer_sequence<int, NV>{});
    std::uint64_t h = 3;
    for (auto &x : m) {
      h = mc::hmix(h, rm::hash(x.v));
      for (double d : x.d)
        h = mc::hmix(h, mc::hd(d));
    }
    mc::state(h);
  }
  for (auto &g : w.mem)
    g->checkGuards();
}
void explore() {
  addD(std::make_integer_sequence<int, NV>{});
  auto go = [&](int ind, const std::vector<const Stm *> &seq) {
    for (int early = 0; early < 2; early++)
      mc::run(
          [&] {
            std::string t = "independent variable " + (ind < NV ? "v" + std::to_string(ind) : std::string("none")) + (early ? ", derivatives read first:" : ":");
            for (auto *s : seq)
              t += " " + s->text + ";";
            return t;
          },
          [&] { seqRun(ind, seq, early); });
  };
  for (int ind = 0; ind <= NV; ind++)
    for (auto &s : al) {
      go(ind, {&s});
      // two statements of which the second reads what the first wrote
      for (auto &t : al)
        if ((t.a == s.dst || t.b == s.dst) && (t.kind || mc::C.thorough || t.a == t.b || t.dst == s.a))
          go(ind, {&s, &t});
    }
}
#endif
int main(int argc, char **argv) {
  mc::init(argc, argv);
  std::cerr.rdbuf(nullptr);
  explore();
  return mc::finish();
}

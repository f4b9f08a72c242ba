// C17: derivatives of tracked programs against dual numbers; C18 (-DVALUES):
// values of tracked programs against ordinary variables, for every choice of the
// points at which derivatives are read. PART 0: all sequences over many
// statements, 1: longer ones over few, 2..: two-level expressions
#include "dual.hpp"
#ifndef PART
#define PART 0
#endif
using namespace dl;
struct St {
  const char *text;
  void (*t)(TW &);
  void (*o)(OW &);
  void (*m)(MW &);
};
// in a statement: variables a b c p, constants S(i) K2(i) ... kept in slot i
#define S_(i) w.template s<i>()
#define Z_(i) w.template z<i>()
#define K2_(i) w.template k2<i>()
#define K3_(i) w.template k3<i>()
#define K5_(i) w.template k5<i>()
#define CL_(i) w.template cl<i>()
#define DN_(i) w.template dn<i>()
#define VN_(i) w.template vn<i>()
template <class F> St mk(const char *t, F) {
  return St{t, [](TW &w) { using namespace etr; F()(w); }, [](OW &w) { F()(w); }, [](MW &w) { F()(w); }};
}
#define ST(...) mk(#__VA_ARGS__, [](auto &w) { auto &a = w.a; auto &b = w.b; auto &c = w.c; auto &p = w.p; (void)a; (void)b; (void)c; (void)p; __VA_ARGS__; })
long nRej = 0, nCut = 0;
struct Obs {
  V a, b, c, p, da, db, dc, dp;
};
void readDerivs(TW &t) {
  obsDeriv(t.a), obsDeriv(t.b), obsDeriv(t.c), obsDeriv(t.p);
}
bool finite(const MW &m) {
  for (auto *x : {&m.a, &m.b, &m.c, &m.p}) {
    for (double v : x->v.x)
      if (!(std::fabs(v) < 1e6))
        return false;
    for (double v : x->d)
      if (!(std::fabs(v) < 1e9))
        return false;
  }
  return true;
}
std::uint64_t hashM(const MW &m) {
  std::uint64_t h = 5;
  for (auto *x : {&m.a, &m.b, &m.c, &m.p}) {
    h = mc::hmix(h, rm::hash(x->v));
    for (double d : x->d)
      h = mc::hmix(h, mc::hd(d));
  }
  return h;
}
void cmpD(const V &got, const DVar &want, const char *nm, const char *at) {
  double scale = 0;
  for (double d : want.d)
    scale = std::max(scale, std::fabs(d));
  for (double d : want.v.x)
    scale = std::max(scale, std::fabs(d));
  bool ok = got.x.size() == want.d.size();
  for (std::size_t i = 0; ok && i < got.x.size(); i++)
    ok = nearD(got.x[i], want.d[i], scale);
  if (!ok)
    mc::fail(std::string("after ") + at + ": derivative of " + nm + " is " + rm::str(got) + ", expected " + rm::str(V(want.d)));
}
void cmpDerivs(TW &t, MW &m, const char *at) {
  cmpD(obsDeriv(t.a), m.a, "a", at);
  cmpD(obsDeriv(t.b), m.b, "b", at);
  cmpD(obsDeriv(t.c), m.c, "c", at);
  cmpD(obsDeriv(t.p), m.p, "p", at);
}
void cmpV(const V &g, const V &w, const char *nm, const char *at) {
  if (!rm::eq(g, w))
    mc::fail(std::string("after ") + at + ": tracked " + nm + " is " + rm::str(g) + ", the ordinary program has " + rm::str(w));
}
// reads: bit d set: derivatives are read before statement d
void runSeq(int init, int ind, unsigned reads, const std::vector<const St *> &seq) {
  long live0 = mc::A.live;
  {
    TW t(init, ind);
    MW m(init, ind);
#ifdef VALUES
    OW o(init);
#endif
    const char *last = "the initialisation";
    bool cut = false;
    for (std::size_t d = 0; d < seq.size(); d++) {
      const St &s = *seq[d];
      if (reads >> (d & 31) & 1) {
#ifdef VALUES
        readDerivs(t);
#else
        cmpDerivs(t, m, last);
#endif
      }
      last = s.text;
      bool ok = true, thrown = false;
      std::string what;
      try {
        s.m(m);
      } catch (md::Rej &) {
        ok = false;
      } catch (md::Unspec &) {
        cut = true;
      }
      if (cut || !finite(m)) {
        cut = true;
        ++nCut;
        break;
      }
      try {
        mc::Track tr;
        s.t(t);
      } catch (mc::Violation &) {
        throw;
      } catch (std::exception &e) {
        thrown = true;
        what = e.what();
      }
      ++mc::C.transitions;
#ifdef VALUES
      bool othrown = false;
      try {
        mc::Track tr;
        s.o(o);
      } catch (mc::Violation &) {
        throw;
      } catch (std::exception &e) {
        othrown = true;
        what += e.what();
      }
      if (othrown != thrown)
        mc::fail(std::string("statement ") + s.text + " on " + (thrown ? "tracked" : "ordinary") + " variables only failed with: " + what);
      cmpV(obsVal(t.a), rm::obs(o.a), "a", last);
      cmpV(obsVal(t.b), rm::obs(o.b), "b", last);
      cmpV(obsVal(t.c), rm::obs(o.c), "c", last);
      cmpV(obsVal(t.p), rm::obs(o.p), "p", last);
      for (std::size_t i = 0; i < inits()[init].p.x.size(); i++)
        if (!rm::near(t.mem.p()[i], o.mem.p()[i]))
          mc::fail(std::string("after ") + last + ": the borrowed memory differs from the ordinary program's");
#else
      if (thrown == ok)
        mc::fail(std::string("statement ") + s.text + (thrown ? " failed with: " + what : std::string(" was accepted, expected an exception")));
#endif
      if (thrown)
        ++nRej;
      t.mem.checkGuards();
      mc::state(hashM(m));
    }
    if (!cut)
      cmpDerivs(t, m, last);
  }
  if (mc::A.live != live0)
    mc::fail("memory blocks leaked: " + std::to_string(mc::A.live - live0));
}
static const char *const inds[] = {"a", "b", "p", "none"};
void allSeqs(const std::vector<St> &al, int depth, unsigned readMasks) {
  for (int init = 0; init < int(inits().size()); init++)
    for (int ind = 0; ind < 4; ind++) {
      std::vector<std::size_t> ix(depth, 0);
      std::vector<const St *> seq(depth);
      for (;;) {
        for (int d = 0; d < depth; d++)
          seq[d] = &al[ix[d]];
        for (unsigned rd = 0; rd < readMasks; rd++) {
#ifndef VALUES
          if (rd == 1 && readMasks == 2)
            rd = (1u << depth) - 1;
#endif
          mc::run(
              [&] {
                std::string t = std::string("from ") + inits()[init].name + ", independent variable " + inds[ind] + ":";
                for (int d = 0; d < depth; d++)
                  t += std::string(rd >> d & 1 ? " (derivatives read)" : "") + " " + seq[d]->text + ";";
                return t;
              },
              [&] { runSeq(init, ind, rd, seq); });
        }
        int d = depth - 1;
        while (d >= 0 && ++ix[d] == al.size())
          ix[d--] = 0;
        if (d < 0)
          break;
      }
    }
}
// every sequence of the given length from every initial state up to a size
[[maybe_unused]] void allSizes(const std::vector<St> &al, int depth, std::size_t lim) {
  for (int init = 0; init < int(inits().size()); init++) {
    std::size_t n = 0;
    for (auto *v : {&inits()[init].a, &inits()[init].b, &inits()[init].c, &inits()[init].p})
      n = std::max(n, v->x.size());
    if (n > lim)
      continue;
    const bool huge = n > 20000;
    for (int ind = 0; ind < 4; ind += huge ? 2 : 1) {
      std::vector<std::size_t> ix(depth, 0);
      for (;;) {
        std::vector<const St *> seq;
        for (int d = 0; d < depth; d++)
          seq.push_back(&al[ix[d]]);
        for (unsigned rd = 0; rd < 2; rd++)
          mc::run(
              [&] {
                std::string t = std::string("from ") + inits()[init].name + ", independent variable " + inds[ind] + (rd ? ", derivatives read:" : ":");
                for (auto *s : seq)
                  t += std::string(" ") + s->text + ";";
                return t;
              },
              [&] { runSeq(init, ind, rd ? ~0u : 0u, seq); });
        int d = depth - 1;
        while (d >= 0 && ++ix[d] == (huge ? std::min<std::size_t>(al.size(), 10) : al.size()))
          ix[d--] = 0;
        if (d < 0)
          break;
      }
    }
  }
}
// every tuple of `k` statements repeated `reps` times
[[maybe_unused]] void allLoops(const std::vector<St> &al, int k, int reps) {
  for (int init = 0; init < int(inits().size()); init++)
    for (int ind = 0; ind < 4; ind++) {
      std::vector<std::size_t> ix(k, 0);
      for (;;) {
        std::vector<const St *> seq;
        for (int j = 0; j < reps; j++)
          for (int d = 0; d < k; d++)
            seq.push_back(&al[ix[d]]);
        mc::run(
            [&] {
              std::string t = std::to_string(reps) + " times from " + inits()[init].name + ", independent variable " + inds[ind] + ":";
              for (int d = 0; d < k; d++)
                t += std::string(" ") + seq[d]->text + ";";
              return t;
            },
            [&] { runSeq(init, ind, 0x42104210u, seq); });
        int d = k - 1;
        while (d >= 0 && ++ix[d] == al.size())
          ix[d--] = 0;
        if (d < 0)
          break;
      }
    }
}
#if PART == 0
#define EXTRA 1
#else
#define EXTRA 0
#endif
std::vector<St> alphabet() {
  std::vector<St> v = {
      ST(a = K2_(0)), ST(b = a), ST(a = b), ST(a = b * a), ST(b = a / (b + p)), ST(p = p * a), ST(b = sinus(a) * K3_(1)), ST(p = S_(2)), ST(a = p - K3_(0)), ST(c = K3_(1) / b - c),
#if EXTRA
      ST(a = S_(0)), ST(b = K3_(1)), ST(p = K5_(2)), ST(p = K2_(3)), ST(p = a), ST(a = p), ST(c = a), ST(p = p + K5_(2)), ST(a = a + a), ST(a = a * a), ST(a = a / b), ST(a = b / a), ST(a = a - b),
      ST(c = a + b - a + p + b - p + b - a + p + b - p + b - a + p + b - p + b - a + p + b - p + b - a + p + b - p + b), // chains of 26 operations
      ST(b = p - (a + (b + (p - (a + (b + (p - (a + (b + (p - (a + (b + (p - (a + (b + (p - (a + (b + (p - (a + (b + (p - (a + (b + (p - (a + (b))))))))))))))))))))))))))),
      ST(c = sinus(a + b - a + p + b - p + b - a + p + b - p + b - a + p + b - p + b - a + p + b - p + b - a + p + b - p + b) * a),
      ST(b = (a < b) * a), ST(b = a <= p), ST(c = (a == b) + p), ST(b = sinus(a * p)), ST(p = sinus(sinus(p))), ST(c = a * b * p), ST(a = (a + b) * (a - p)), ST(a = a / b / p), ST(c = b / (a * p)), ST(a = Z_(2) * a), ST(a = a / S_(3)),
      ST(a = S_(1) / a), ST(b = S_(0) * a + Z_(1) * b), ST(c = c + K3_(2) * (a > b)), ST(a = CL_(0) * a), ST(b = VN_(1) + b), ST(b = CL_(1)), ST(p = DN_(2)),
#endif
  };
  return v;
}
#if PART >= 2
// x OP (y OP z) and (x OP y) OP z for all operators and leaves, and with sinus
struct LA { template <class W> static auto &get(W &w) { return w.a; } static constexpr const char *n = "a"; };
struct LB { template <class W> static auto &get(W &w) { return w.b; } static constexpr const char *n = "b"; };
struct LP { template <class W> static auto &get(W &w) { return w.p; } static constexpr const char *n = "p"; };
template <int I> struct LK { template <class W> static auto get(W &w) { return w.template k2<I>(); } static constexpr const char *n = "K2"; };
template <int I> struct LS { template <class W> static auto get(W &w) { return w.template s<I>(); } static constexpr const char *n = "S"; };
#define OPS(nm, op) struct nm { template <class L, class R> static auto f(L &&l, R &&r) { return std::forward<L>(l) op std::forward<R>(r); } static constexpr const char *n = #op; };
OPS(Plus, +)
OPS(Minus, -)
OPS(Times, *)
OPS(Div, /)
OPS(Less, <)
OPS(Neq, !=)
std::vector<St> big;
std::vector<std::string> names;
template <class F> void addS(const std::string &n, F) {
  names.push_back(n);
  big.push_back(St{nullptr, [](TW &w) { F()(w); }, [](OW &w) { F()(w); }, [](MW &w) { F()(w); }});
}
template <class X, class O1, class Y, class O2, template <int> class ZZ> void shapes3();
template <class X, class O1, class Y, class O2, class Z> void shapes() {
  std::string x = X::n, y = Y::n, z = Z::n, o1 = O1::n, o2 = O2::n;
  // the whole expression is evaluated within the statement
  addS("c = (" + x + " " + o1 + " " + y + ") " + o2 + " " + z, [](auto &w) {
    auto &&xx = X::get(w);
    auto &&yy = Y::get(w);
    auto &&zz = Z::get(w);
    w.c = O2::f(O1::f(xx, yy), zz);
  });
  addS("c = " + x + " " + o1 + " (" + y + " " + o2 + " " + z + ")", [](auto &w) {
    auto &&xx = X::get(w);
    auto &&yy = Y::get(w);
    auto &&zz = Z::get(w);
    w.c = O1::f(xx, O2::f(yy, zz));
  });
}
template <class X, class O1, class Y, class O2> void leafZ() {
  shapes<X, O1, Y, O2, LA>();
  shapes<X, O1, Y, O2, LP>();
  shapes<X, O1, Y, O2, LK<2>>();
}
template <class X, class O1, class Y> void op2() {
  leafZ<X, O1, Y, Plus>();
  leafZ<X, O1, Y, Minus>();
  leafZ<X, O1, Y, Times>();
  leafZ<X, O1, Y, Div>();
  leafZ<X, O1, Y, Less>();
}
template <class X, class O1> void leafY() {
  op2<X, O1, LA>();
  op2<X, O1, LB>();
  op2<X, O1, LS<1>>();
}
template <class O1> void leafX() {
  leafY<LA, O1>();
  leafY<LP, O1>();
  leafY<LK<0>, O1>();
}
void expr() {
  using O = std::tuple_element_t<PART - 2, std::tuple<Plus, Minus, Times, Div, Less>>;
  leafX<O>();
  for (std::size_t i = 0; i < big.size(); i++)
    big[i].text = names[i].c_str();
  for (int init = 0; init < int(inits().size()); init++)
    for (int ind = 0; ind < 4; ind++)
      for (auto &s : big)
        for (unsigned rd = 0; rd < 2; rd++)
          mc::run([&] { return std::string("from ") + inits()[init].name + ", independent variable " + inds[ind] + ":" + (rd ? " (derivatives read)" : "") + " " + s.text; },
                  [&] { runSeq(init, ind, rd, {&s}); });
}
#endif
int main(int argc, char **argv) {
  mc::init(argc, argv);
  std::cerr.rdbuf(nullptr);
#if defined(BIG)
  allSizes(alphabet(), PART == 0 ? 1 : 2, PART == 0 ? 400000 : 130);
#elif defined(LOOPS)
  allLoops(alphabet(), PART == 0 ? 2 : 3, PART == 0 ? 40 : 20);
#elif PART == 0
  allSeqs(alphabet(), 2 + mc::C.thorough,
#ifdef VALUES
          4
#else
          2
#endif
  );
#elif PART == 1
#ifdef VALUES
  allSeqs(alphabet(), 3 + mc::C.thorough, mc::C.thorough ? 16 : 8);
#else
  allSeqs(alphabet(), 4 + mc::C.thorough, 2);
#endif
#else
  expr();
#endif
  mc::count("rejected statements", nRej);
  mc::count("sequences cut at non-finite, large or unspecified values", nCut);
  return mc::finish();
}

// The world the statement machines work on: real variables (RW), reference
// variables (MW), and the common observation.
#pragma once
#include "md.hpp"

namespace wd {
using etr::Vec;
using md::Rej;
using md::Var;
using rm::V;
using mc::fail;

struct RW { // real world
  static constexpr bool real = true;
  Vec<double> a, b, m, n;
  Vec<int> i;
  Vec<bool> l;
  // subscripts and right-hand sides
  int si = 1, ti = 1;
  double sd = 1, td = 1;
  Vec<int> xi, yi, z;
  Vec<double> xd, yd, y;
  Vec<bool> xb, yb;
  rm::Guarded gp, gq;
  ::BorrowPtr p, q, o; // o overlaps p, shifted by one element
  RW(const rm::SV &mp, const rm::SV &mq, std::size_t qr, std::size_t qc)
      : gp(mp), gq(mq), p(gp.p(), mp.size()), q(gq.p(), qr, qc), o(gp.p() + 1, mp.size() - 1) {}
  template <class... A> auto coca(A &&...x) { return etr::coca(std::forward<A>(x)...); }
  template <class X, class R, class C> auto matrix(X &&x, R &&r, C &&c) { return etr::matrix(std::forward<X>(x), std::forward<R>(r), std::forward<C>(c)); }
  template <class X, class N> auto rep(X &&x, N &&n) { return etr::rep(std::forward<X>(x), std::forward<N>(n)); }
  template <class X, class Y> auto colon(X &&x, Y &&y) { return etr::colon(std::forward<X>(x), std::forward<Y>(y)); }
  template <class N> auto vector_numeric(N &&n) { return etr::vector_numeric(std::forward<N>(n)); }
  template <class N> auto vector_integer(N &&n) { return etr::vector_integer(std::forward<N>(n)); }
  template <class N> auto vector_logical(N &&n) { return etr::vector_logical(std::forward<N>(n)); }
};
struct MW {
  static constexpr bool real = false;
  Var a{md::D}, b{md::D}, m{md::D}, n{md::D}, i{md::I}, l{md::B}, p{md::D}, q{md::D}, o{md::D};
  int si = 1, ti = 1;
  double sd = 1, td = 1;
  Var xi{md::I}, yi{md::I}, z{md::I}, xd{md::D}, yd{md::D}, y{md::D}, xb{md::B}, yb{md::B};
  MW(const rm::SV &mp, const rm::SV &mq, std::size_t qr, std::size_t qc) {
    p.borrow = q.borrow = true;
    p.mem() = mp;
    p.len = mp.size();
    q.mem() = mq;
    q.len = mq.size();
    q.m = true;
    q.r = qr;
    q.c = qc;
    o.borrow = true;
    o.ext = &p.own;
    o.off = 1;
    o.len = mp.size() - 1;
  }
  template <class... A> V coca(const A &...x) { return md::coca(x...); }
  template <class X, class R, class C> V matrix(const X &x, const R &r, const C &c) { return md::matrix(x, r, c); }
  template <class X, class N> V rep(const X &x, const N &n) { return md::rep(x, n); }
  template <class X, class Y> V colon(const X &x, const Y &y) { return md::colon(x, y); }
  template <class N> V vector_numeric(const N &n) { return md::zeros(n, md::D); }
  template <class N> V vector_integer(const N &n) { return md::zeros(n, md::D); }
  template <class N> V vector_logical(const N &n) { return md::zeros(n, md::D); }
  MW(const MW &x) : a(x.a), b(x.b), m(x.m), n(x.n), i(x.i), l(x.l), p(x.p), q(x.q), o(x.o), si(x.si), ti(x.ti), sd(x.sd), td(x.td), xi(x.xi), yi(x.yi), z(x.z), xd(x.xd), yd(x.yd), y(x.y), xb(x.xb), yb(x.yb) { o.ext = &p.own; }
  MW &operator=(const MW &o) = delete;
  std::size_t total() const { return a.len + b.len + m.len + n.len + i.len + l.len; }
};
struct Stmt {
  const char *text;
  unsigned tag;
  void (*real)(RW &);
  void (*model)(MW &);
};
#define ST(tag, ...)                                                           \
  wd::Stmt {                                                                   \
    #__VA_ARGS__, tag, [](wd::RW &w) { __VA_ARGS__; }, [](wd::MW &w) { __VA_ARGS__; } \
  }
struct Ctx {
  const char *pre = "initially", *text = "", *post = "";
  std::string str() const { return std::string(pre) + text + post; }
};
inline void cmpVar(const char *nm, const V &got, const Var &want, const Ctx &ctx) {
  V w = want.val();
  if (!rm::eq(got, w))
    fail(ctx.str() + ": variable " + nm + " is " + rm::str(got) + ", expected " + rm::str(w));
}
inline void compare(RW &r, const MW &m, const Ctx &ctx) {
  cmpVar("a", rm::obs(r.a), m.a, ctx);
  cmpVar("b", rm::obs(r.b), m.b, ctx);
  cmpVar("m", rm::obs(r.m), m.m, ctx);
  cmpVar("n", rm::obs(r.n), m.n, ctx);
  cmpVar("i", rm::obs(r.i), m.i, ctx);
  cmpVar("l", rm::obs(r.l), m.l, ctx);
  cmpVar("p", rm::obs(r.p), m.p, ctx);
  cmpVar("q", rm::obs(r.q), m.q, ctx);
  cmpVar("o", rm::obs(r.o), m.o, ctx);
  for (std::size_t k = 0; k < m.p.mem().size(); k++)
    if (!rm::near(r.gp.p()[k], m.p.mem()[k]))
      fail(ctx.str() + ": borrowed memory of p, element " + std::to_string(k + 1) + " is " +
           std::to_string(r.gp.p()[k]) + ", expected " + std::to_string(m.p.mem()[k]));
  for (std::size_t k = 0; k < m.q.mem().size(); k++)
    if (!rm::near(r.gq.p()[k], m.q.mem()[k]))
      fail(ctx.str() + ": borrowed memory of q, element " + std::to_string(k + 1) + " is " +
           std::to_string(r.gq.p()[k]) + ", expected " + std::to_string(m.q.mem()[k]));
  r.gp.checkGuards();
  r.gq.checkGuards();
}
inline std::uint64_t hashW(const MW &m) {
  std::uint64_t h = 1;
  for (const Var *v : {&m.a, &m.b, &m.m, &m.n, &m.i, &m.l, &m.p, &m.q, &m.o})
    h = mc::hmix(h, rm::hash(v->val()));
  return h;
}
inline void put(RW &r, MW &m, int which, const V &v) { // subscripts
  auto f = [&](auto &a, Var &b) {
    mc::Track tr;
    rm::put(a, v);
    b.mem() = v.x;
    b.len = v.x.size();
    b.m = v.m, b.r = v.r, b.c = v.c;
  };
  switch (which) {
  case 0: r.si = m.si = int(v.x[0]); break;
  case 1: r.sd = m.sd = v.x[0]; break;
  case 2: f(r.xi, m.xi); break;
  case 3: f(r.xd, m.xd); break;
  case 4: f(r.xb, m.xb); break;
  case 5: r.ti = m.ti = int(v.x[0]); break;
  case 6: r.td = m.td = v.x[0]; break;
  case 7: f(r.yi, m.yi); break;
  case 8: f(r.yd, m.yd); break;
  case 9: f(r.yb, m.yb); break;
  case 10: f(r.y, m.y); break;
  case 11: f(r.z, m.z); break;
  }
}
inline void compareSubs(RW &r, const MW &m, const Ctx &ctx) {
  cmpVar("xi", rm::obs(r.xi), m.xi, ctx);
  cmpVar("xd", rm::obs(r.xd), m.xd, ctx);
  cmpVar("xb", rm::obs(r.xb), m.xb, ctx);
  cmpVar("yi", rm::obs(r.yi), m.yi, ctx);
  cmpVar("yd", rm::obs(r.yd), m.yd, ctx);
  cmpVar("yb", rm::obs(r.yb), m.yb, ctx);
  cmpVar("y", rm::obs(r.y), m.y, ctx);
  cmpVar("z", rm::obs(r.z), m.z, ctx);
}
struct Init {
  const char *name;
  rm::SV mp, mq;
  std::size_t qr, qc;
  V a, b, m, n, i, l;
};
inline void fresh(RW &w, const Init &s) {
  rm::put(w.a, s.a);
  rm::put(w.b, s.b);
  rm::put(w.m, s.m);
  rm::put(w.n, s.n);
  rm::put(w.i, s.i);
  rm::put(w.l, s.l);
}
inline void fresh(MW &w, const Init &s) {
  auto f = [](Var &v, const V &x) {
    v.mem() = x.x;
    v.len = x.x.size();
    v.m = x.m;
    v.r = x.r;
    v.c = x.c;
  };
  f(w.a, s.a);
  f(w.b, s.b);
  f(w.m, s.m);
  f(w.n, s.n);
  f(w.i, s.i);
  f(w.l, s.l);
}
// one step in lock-step
inline bool stepModel(MW &m, const Stmt &s) { // false: rejected, without effect
  try {
    s.model(m);
    return true;
  } catch (Rej &) {
    return false;
  }
}
inline void stepReal(RW &r, const Stmt &s, bool accepted) {
  bool thrown = false;
  std::string what;
  try {
    mc::Track tr;
    s.real(r);
  } catch (mc::Violation &) {
    throw;
  } catch (std::exception &e) {
    thrown = true;
    what = e.what();
  }
  ++mc::C.transitions;
  if (thrown == accepted)
    fail(std::string("statement ") + s.text + (thrown ? " failed with: " + what : std::string(" was accepted, expected an exception")));
}
// All statement sequences of length `depth` (disabled statements - those that
// would let a variable grow beyond maxLen - end the sequence) in one case each
// per prefix of length depth-1: the last level is iterated on fresh worlds.
inline long nRej = 0, nCut = 0;
inline void runSeq(const Init &in, const std::vector<const Stmt *> &seq, std::size_t maxLen) {
  long live0 = mc::A.live;
  {
    RW r(in.mp, in.mq, in.qr, in.qc);
    MW m(in.mp, in.mq, in.qr, in.qc);
    {
      mc::Track tr;
      fresh(r, in);
    }
    fresh(m, in);
    Ctx ctx;
    for (const Stmt *s : seq) {
      bool ok = false, big = false;

      try {
        ok = stepModel(m, *s);
      } catch (md::Unspec &) {
        big = true;
      }
      for (const Var *v : {&m.a, &m.b, &m.m, &m.n, &m.i, &m.l})
        if (v->len > maxLen)
          big = true;
      if (big) {
        ++nCut;
        break;
      }
      stepReal(r, *s, ok);
      ctx = Ctx{"after ", s->text, ok ? "" : " (rejected)"};
      if (!ok)
        ++nRej;
      compare(r, m, ctx);
      mc::state(hashW(m));
    }
    r.gp.unpoison();
    r.gq.unpoison();
  }
  if (mc::A.live != live0)
    fail("memory blocks leaked: " + std::to_string(mc::A.live - live0));
}
inline std::string seqText(const Init &in, const std::vector<const Stmt *> &seq) {
  std::string t = std::string("from ") + in.name + ":";
  for (auto *s : seq)
    t += std::string(" ") + s->text + ";";
  return t;
}
inline void allSeqs(const Init &in, const std::vector<Stmt> &al, int depth, std::size_t maxLen) {
  std::vector<std::size_t> ix(depth, 0);
  std::vector<const Stmt *> seq(depth);
  for (;;) {
    for (int d = 0; d < depth; d++)
      seq[d] = &al[ix[d]];
    mc::run([&] { return seqText(in, seq); }, [&] { runSeq(in, seq, maxLen); });
    int d = depth - 1;
    while (d >= 0 && ++ix[d] == al.size())
      ix[d--] = 0;
    if (d < 0)
      return;
  }
}
// every tuple of `k` statements, repeated `reps` times (a history of k*reps
// statements); statements that reach the length bound are skipped
inline void allLoops(const Init &in, const std::vector<Stmt> &al, int k, int reps, std::size_t maxLen) {
  std::vector<std::size_t> ix(k, 0);
  for (;;) {
    std::vector<const Stmt *> seq;
    for (int j = 0; j < k; j++)
      seq.push_back(&al[ix[j]]);
    mc::run([&] { return std::to_string(reps) + " times " + seqText(in, seq); },
            [&] {
              std::vector<const Stmt *> s;
              for (int j = 0; j < reps; j++)
                s.insert(s.end(), seq.begin(), seq.end());
              runSeq(in, s, maxLen);
            });
    int d = k - 1;
    while (d >= 0 && ++ix[d] == al.size())
      ix[d--] = 0;
    if (d < 0)
      return;
  }
}
// a history in which every step sets subscripts / right-hand sides first
struct Step {
  std::vector<std::pair<int, V>> vals;
  const Stmt *s;
};
inline void history(const Init &in, const std::string &text, const std::vector<Step> &steps) {
  mc::run([&] { return text; },
          [&] {
            long live0 = mc::A.live;
            {
              RW r(in.mp, in.mq, in.qr, in.qc);
              MW m(in.mp, in.mq, in.qr, in.qc);
              {
                mc::Track tr;
                fresh(r, in);
              }
              fresh(m, in);
              for (auto &st : steps) {
                for (auto &[k, v] : st.vals)
                  put(r, m, k, v);
                bool ok = false;
                try {
                  ok = stepModel(m, *st.s);
                } catch (md::Unspec &) {
                  ++nCut;
                  break;
                }
                stepReal(r, *st.s, ok);
                if (!ok)
                  ++nRej;
                compare(r, m, Ctx{"after ", st.s->text, ok ? "" : " (rejected)"});
                mc::state(hashW(m));
              }
              r.gp.unpoison();
              r.gq.unpoison();
            }
            if (mc::A.live != live0)
              fail("memory blocks leaked: " + std::to_string(mc::A.live - live0));
          });
}
// one statement with the given subscript values
inline void oneStmt(const Init &in, const std::vector<std::pair<int, V>> &vals, const Stmt &s) {
  mc::run(
      [&] {
        std::string t = std::string(s.text) + " with";
        static const char *nm[] = {"si", "sd", "xi", "xd", "xb", "ti", "td", "yi", "yd", "yb", "y", "z"};
        for (auto &[k, v] : vals)
          t += std::string(" ") + nm[k] + "=" + rm::str(v);
        t += " a=" + rm::str(in.a) + " m=" + rm::str(in.m) + " p=" + rm::str(V(in.mp)) + " q=" + rm::str(V(in.mq)) + " i=" + rm::str(in.i);
        return t;
      },
      [&] {
        long live0 = mc::A.live;
        {
          RW r(in.mp, in.mq, in.qr, in.qc);
          MW m(in.mp, in.mq, in.qr, in.qc);
          {
            mc::Track tr;
            fresh(r, in);
          }
          fresh(m, in);
          for (auto &[k, v] : vals)
            put(r, m, k, v);
          bool ok = false;
          try {
            ok = stepModel(m, s);
          } catch (md::Unspec &) {
            r.gp.unpoison();
            r.gq.unpoison();
            ++nCut;
            return;
          }
          stepReal(r, s, ok);
          if (!ok)
            ++nRej;
          Ctx ctx{"after ", s.text, ok ? "" : " (rejected)"};
          compare(r, m, ctx);
          compareSubs(r, m, ctx);
          mc::state(mc::hmix(hashW(m), rm::hash(m.n.val())));
          r.gp.unpoison();
          r.gq.unpoison();
        }
        if (mc::A.live != live0)
          fail("memory blocks leaked: " + std::to_string(mc::A.live - live0));
      });
}
} // namespace wd

#define WORLD_MAIN                                                             \
  int main(int c, char **v) {                                                  \
    mc::init(c, v);                                                            \
    std::cerr.rdbuf(nullptr); /* warnings are the subject of C26 */            \
    explore();                                                                 \
    mc::count("rejected statements", wd::nRej);                                \
    mc::count("sequences cut at the length bound or at an unspecified value", wd::nCut);                  \
    return mc::finish();                                                       \
  }

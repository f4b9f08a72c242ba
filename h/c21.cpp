// C21: printing and iteration. PART 0: print/<< of every kind of value; 1: all
// sequences of prints and stream settings; 2: iteration
#include "ladder.hpp"
#include "md.hpp"
#include <iomanip>
#ifndef PART
#define PART 0
#endif
using rm::V;
using namespace etr;
const double inf = std::numeric_limits<double>::infinity(), nan_ = std::numeric_limits<double>::quiet_NaN();
// text without the choice of white space: lines of words
std::string norm(const std::string &t) {
  std::istringstream is(t);
  std::string l, out;
  while (std::getline(is, l)) {
    std::istringstream ls(l);
    std::string w, o;
    while (ls >> w)
      o += (o.empty() ? "" : " ") + w;
    if (!o.empty())
      out += o + "\n";
  }
  return out;
}
struct Fmt {
  std::ios_base::fmtflags f;
  std::streamsize p, w;
  char c;
  std::ios_base::iostate st;
  explicit Fmt(std::ostream &s) : f(s.flags()), p(s.precision()), w(s.width()), c(s.fill()), st(s.rdstate()) {}
  bool operator==(const Fmt &o) const { return f == o.f && p == o.p && w == o.w && c == o.c && st == o.st; }
};
void word(std::ostream &o, double d, rm::Ty t) {
  if (t == rm::B)
    o << bool(d);
  else if (t == rm::I)
    o << int(d);
  else
    o << d;
}
// what print() has to show, written with the format of the stream
void refPrint(std::ostream &o, const V &v) {
  auto f = o.setf(std::ios_base::boolalpha);
  if (v.m) {
    for (std::size_t i = 0; i < v.r; i++) {
      for (std::size_t j = 0; j < v.c; j++) {
        word(o, v.x[j * v.r + i], v.t);
        o << " ";
      }
      o << "\n";
    }
  } else {
    for (double d : v.x) {
      word(o, d, v.t);
      o << " ";
    }
    o << "\n";
  }
  o.flags(f);
}
void refStream(std::ostream &o, const V &v) {
  o << "Vec [ ";
  for (double d : v.x) {
    word(o, d, v.t);
    o << " ";
  }
  o << "]\n";
}
// whether logical expressions and selections are shown as true or 1 is not specified
std::string loosely(std::string s) {
  for (auto &ab : {std::pair<const char *, const char *>{"true", "1"}, {"false", "0"}, {"+1", "1"}, {"+0", "0"}, {"0x1", "1"}})
    for (std::size_t p = 0; (p = s.find(ab.first, p)) != std::string::npos;)
      s.replace(p, strlen(ab.first), ab.second);
  return s;
}
void same(std::string got, std::string want, const char *what, bool loose = false) {
  if (loose)
    got = loosely(got), want = loosely(want);
  if (norm(got) != norm(want))
    mc::fail(std::string(what) + " shows [" + norm(got) + "], expected [" + norm(want) + "]");
  ++mc::C.transitions;
}
void settings(std::ostream &o, int k) {
  o.copyfmt(std::ostringstream());
  if (k == 1)
    o << std::boolalpha;
  if (k == 2)
    o << std::fixed << std::setprecision(2);
  if (k == 3)
    o << std::scientific << std::showpos << std::boolalpha;
  if (k == 4)
    o << std::setfill('*') << std::hex << std::showbase << std::setprecision(15);
}
const int NSET = 5;
template <class E> void shows(const E &e, const V &want, const char *nm, bool loose = false) {
  for (int k = 0; k < (loose ? 2 : NSET); k++) {
    mc::Capture c;
    settings(std::cout, k);
    Fmt before(std::cout);
    print(e);
    bool fmt = before == Fmt(std::cout);
    c.stop();
    std::ostringstream r;
    settings(r, k);
    refPrint(r, want);
    same(c.o.str(), r.str(), nm, loose);
    if (!c.e.str().empty())
      mc::fail(std::string("printing ") + nm + " writes to stderr");
    if (!fmt)
      mc::fail(std::string("printing ") + nm + " changes the format of the stream");
    settings(std::cout, 0);
    mc::state(mc::hmix(rm::hash(want), k));
  }
}
template <class E> void streams(const E &e, const V &want, const char *nm) {
  for (int k = 0; k < NSET; k++) {
    std::ostringstream o, r;
    settings(o, k);
    settings(r, k);
    Fmt before(o);
    o << e << "\n";
    bool fmt = before == Fmt(o);
    refStream(r, want);
    // only the elements and their order are promised
    auto strip = [](std::string s) {
      for (const char *d : {"Vec", "[", "]"})
        for (std::size_t p; (p = s.find(d)) != std::string::npos;)
          s.erase(p, strlen(d));
      for (auto &ch : s)
        if (ch == '\n')
          ch = ' ';
      return s + "\n";
    };
    same(strip(o.str()), strip(r.str()), nm);
    if (!fmt)
      mc::fail(std::string("<< of ") + nm + " changes the format of the stream");
  }
}
V typed(V v, rm::Ty t) { return rm::convTo(v, t); }
V mapped(V v, double (*f)(double), rm::Ty t) {
  for (auto &d : v.x)
    d = f(d);
  v.t = t;
  return v;
}
template <class T> void variable(const V &raw) {
  V w = typed(raw, rm::Tyof<T>::t);
  Vec<T> v;
  rm::put(v, w);
  const Vec<T> cv(v);
  shows(v, w, "a variable");
  shows(cv, w, "a constant");
  streams(v, w, "a variable");
  streams(cv, w, "a constant");
  rm::expect(rm::obs(v), w, "after printing");
}
#if PART == 0
void value(const V &w) {
  mc::run([&] { return "print " + rm::str(w); },
          [&] {
            variable<double>(w);
            bool intOk = true;
            for (double d : w.x)
              intOk = intOk && std::fabs(d) < 2e9;
            if (intOk) {
              variable<int>(w);
              variable<bool>(w);
            }
            if (w.x.empty())
              return;
            rm::Guarded g(w.x);
            Vec<double, Borrow<double>> b = w.m ? Vec<double, Borrow<double>>(g.p(), w.r, w.c) : Vec<double, Borrow<double>>(g.p(), w.x.size());
            shows(b, w, "a borrowing variable");
            streams(b, w, "a borrowing variable");
            Vec<double> v, z;
            rm::put(v, w);
            rm::put(z, w);
            for (std::size_t i = 0; i < w.x.size(); i++)
              z[i] = 0;
            shows(-(-v), w, "a unary expression");
            shows(v + z, mapped(w, [](double d) { return d + 0.0; }, rm::D), "a binary expression");
            shows((v + z) - z, mapped(w, [](double d) { return d + 0.0; }, rm::D), "a nested expression");
            shows(b + z, mapped(w, [](double d) { return d + 0.0; }, rm::D), "an expression of a borrowing variable");
            shows(v < z, mapped(w, [](double d) -> double { return d < 0; }, rm::B), "a comparison", true);
            shows(exp(z), mapped(w, [](double) { return 1.0; }, rm::D), "exp");
            streams(v + z, mapped(w, [](double d) { return d + 0.0; }, rm::D), "a binary expression");
            V flatW = w;
            rm::noShape(flatW);
            shows(subset(v, true), flatW, "a whole selection");
            if (!w.m)
              for (std::size_t i = 1; i <= w.x.size(); i++)
                for (std::size_t j = 1; j <= w.x.size(); j++) {
                  if (w.x.size() > 8 && ((i > 1 && i < w.x.size()) || (j > 1 && j < w.x.size())))
                    continue;
                  Vec<int> ix;
                  ix = coca(int(i), int(j), int(i));
                  V sel({w.x[i - 1], w.x[j - 1], w.x[i - 1]});
                  shows(subset(v, ix), sel, "a selection");
                  auto s = subset(v, ix);
                  shows(s, sel, "a named selection");
                  streams(s, sel, "a named selection");
                  shows(subset(b, ix), sel, "a selection of a borrowing variable");
                  V one({w.x[i - 1]});
                  shows(subset(v, int(i)), one, "a selection of one element");
                  if (intOk) {
                    Vec<bool> vb;
                    rm::put(vb, typed(w, rm::B));
                    shows(subset(vb, ix), typed(sel, rm::B), "a selection of a logical variable", true);
                    if (w.x[i - 1] > 1e6 || w.x[j - 1] > 1e6)
                      continue; // integer or real format is not specified
                    Vec<int> vi;
                    rm::put(vi, typed(w, rm::I));
                    shows(subset(vi, ix), typed(sel, rm::I), "a selection of an integer variable", true);
                  }
                }
            else
              for (std::size_t i = 1; i <= w.r; i++)
                for (std::size_t j = 1; j <= w.c; j++) {
                  if (w.x.size() > 20 && ((i > 1 && i < w.r) || (j > 1 && j < w.c)))
                    continue;
                  V row = V(), col = V();
                  row.m = col.m = true;
                  row.r = 1, row.c = w.c, col.r = w.r, col.c = 1;
                  for (std::size_t k = 0; k < w.c; k++)
                    row.x.push_back(w.x[k * w.r + i - 1]);
                  for (std::size_t k = 0; k < w.r; k++)
                    col.x.push_back(w.x[(j - 1) * w.r + k]);
                  shows(subset(v, int(i), true), md::toV(md::subset(w, int(i), true)), "a row");
                  shows(subset(v, true, int(j)), md::toV(md::subset(w, true, int(j))), "a column");
                  Vec<int> r, cc;
                  r = coca(int(w.r), int(i));
                  cc = coca(int(j), 1);
                  V two = V();
                  two.m = true;
                  two.r = two.c = 2;
                  for (int q : {int(j), 1})
                    for (int p : {int(w.r), int(i)})
                      two.x.push_back(w.x[(q - 1) * w.r + p - 1]);
                  shows(subset(v, r, cc), two, "a matrix selection");
                  auto s = subset(b, r, cc);
                  shows(s, two, "a named matrix selection");
                  V wide = V(), tall = V();
                  wide.m = tall.m = true;
                  wide.r = 2, wide.c = w.c, tall.r = w.r, tall.c = 2;
                  for (std::size_t q = 0; q < w.c; q++)
                    for (int p : {int(w.r), int(i)})
                      wide.x.push_back(w.x[q * w.r + p - 1]);
                  for (int q : {int(j), 1})
                    for (std::size_t p = 0; p < w.r; p++)
                      tall.x.push_back(w.x[(q - 1) * w.r + p]);
                  shows(subset(v, r, true), wide, "a selection of two rows");
                  shows(subset(v, true, cc), tall, "a selection of two columns");
                  shows(subset(b, true, cc), tall, "a selection of two columns of a borrowing variable");
                  if (intOk && std::all_of(w.x.begin(), w.x.end(), [](double d) { return std::fabs(d) < 1e6; })) {
                    Vec<int> vi;
                    rm::put(vi, typed(w, rm::I));
                    shows(subset(vi, r, true), typed(wide, rm::I), "a selection of two rows of an integer variable", true);
                    shows(subset(vi, true, cc), typed(tall, rm::I), "a selection of two columns of an integer variable", true);
                  }
                  if (i == 1 && j == 1)
                    shows(subset(v, true, true), w, "a whole selection of a matrix");
                }
            rm::expect(rm::obs(v), w, "after printing");
            rm::expect(rm::obs(b), w, "after printing");
            g.checkGuards();
            // temporaries
            if (!w.m && w.x.size() == 3) {
              shows(coca(w.x[0], w.x[1], w.x[2]), w, "a temporary");
              if (intOk)
                shows(coca(w.x[0] != 0, w.x[1] != 0, w.x[2] != 0), typed(w, rm::B), "a logical temporary", true);
            }
            // tracked
            AllVars<1, 0, 0, 1> av(0, 0);
            Vec<double, VarPointer<decltype(av), 0, 0>, VariableTypeTrait> t(av);
            av.initBuffer(v);
            for (int k = 0; k < NSET; k++) {
              mc::Capture c;
              settings(std::cout, k);
              Fmt before(std::cout);
              print(t, av);
              bool fmt = before == Fmt(std::cout);
              c.stop();
              std::ostringstream r;
              settings(r, k);
              refPrint(r, w);
              same(c.o.str(), r.str(), "a tracked variable");
              if (!fmt)
                mc::fail("printing a tracked variable changes the format of the stream");
              settings(std::cout, 0);
            }
          });
}
void explore() {
  const std::vector<double> AL = {0, -1.5, 7, 1e10, 0.1, 123456789, 1e-300, inf, nan_};
  value(V());
  for (std::size_t n = 1; n <= 3; n++) {
    std::vector<std::size_t> ix(n, 0);
    for (;;) {
      V v;
      for (auto i : ix)
        v.x.push_back(AL[i]);
      value(v);
      std::size_t d = 0;
      while (d < n && ++ix[d] == AL.size())
        ix[d++] = 0;
      if (d == n)
        break;
    }
  }
  for (std::size_t r = 1; r <= 4; r++)
    for (std::size_t c = 1; c <= 4; c++)
      for (int pat = 0; pat < 3; pat++) {
        V v;
        v.m = true;
        v.r = r;
        v.c = c;
        for (std::size_t i = 0; i < r * c; i++)
          v.x.push_back(pat == 0 ? double(i + 1) : pat == 1 ? AL[i % AL.size()] : double(i % 3) - 0.5);
        value(v);
      }
  for (std::size_t n : sb::ladder(4, mc::C.thorough ? 4097 : 1025)) {
    V v;
    for (std::size_t i = 0; i < n; i++)
      v.x.push_back(double(i * i % 13) - 3);
    value(v);
    for (std::size_t r : {std::size_t(1), std::size_t(2), std::size_t(3), std::size_t(7), n / 2, n}) {
      if (!r || n % r || (r <= 4 && n / r <= 4))
        continue;
      v.m = true, v.r = r, v.c = n / r;
      value(v);
    }
  }
}
#elif PART == 1
struct W {
  Vec<double> d, m;
  Vec<int> i;
  Vec<bool> b;
  Vec<double> e;
};
struct P {
  const char *text;
  void (*real)(W &);
  void (*ref)(std::ostream &);
  bool loose = false;
};
const V D_({1.5, -2, 1e7}), M_({1, 2, 3, 4, 5, 6}, 2, 3), I_({3, -4}), B_({1, 0, 1}), E_;
V ty(V v, rm::Ty t) {
  v.t = t;
  return v;
}
const std::vector<P> AL = {
    {"print(d)", [](W &w) { print(w.d); }, [](std::ostream &o) { refPrint(o, D_); }},
    {"print(m)", [](W &w) { print(w.m); }, [](std::ostream &o) { refPrint(o, M_); }},
    {"print(i)", [](W &w) { print(w.i); }, [](std::ostream &o) { refPrint(o, ty(I_, rm::I)); }},
    {"print(b)", [](W &w) { print(w.b); }, [](std::ostream &o) { refPrint(o, ty(B_, rm::B)); }},
    {"print(empty)", [](W &w) { print(w.e); }, [](std::ostream &o) { refPrint(o, E_); }},
    {"print(d < 0)", [](W &w) { auto z = coca(0.0, 0.0, 0.0); print(w.d < z); }, [](std::ostream &o) { refPrint(o, V({0, 1, 0})); }, true},
    {"print(-d)", [](W &w) { print(-w.d); }, [](std::ostream &o) { refPrint(o, V({-1.5, 2, -1e7})); }},
    {"print(subset(m, 2, TRUE))", [](W &w) { print(subset(w.m, 2, true)); }, [](std::ostream &o) { refPrint(o, V({2, 4, 6}, 1, 3)); }},
    {"print(subset(b, 2))", [](W &w) { print(subset(w.b, 2)); }, [](std::ostream &o) { refPrint(o, V({0})); }, true},
    {"print(true)", [](W &) { print(true); }, [](std::ostream &o) { refPrint(o, ty(V({1}), rm::B)); }},
    {"print(2.25)", [](W &) { print(2.25); }, [](std::ostream &o) { refPrint(o, V({2.25})); }},
    {"print(7)", [](W &) { print(7); }, [](std::ostream &o) { refPrint(o, ty(V({7}), rm::I)); }},
    {"print(\"text\")", [](W &) { print("text"); }, [](std::ostream &o) { o << "text\n"; }},
    {"print()", [](W &) { print(); }, [](std::ostream &o) { o << "\n"; }},
    {"cout << d", [](W &w) { std::cout << w.d << "\n"; }, [](std::ostream &o) { refStream(o, D_); }},
    {"cout << i", [](W &w) { std::cout << w.i << "\n"; }, [](std::ostream &o) { refStream(o, ty(I_, rm::I)); }},
    {"cout << true", [](W &) { std::cout << true << "\n"; }, [](std::ostream &o) { o << true << "\n"; }},
    {"boolalpha", [](W &) { std::cout << std::boolalpha; }, [](std::ostream &o) { o << std::boolalpha; }},
    {"noboolalpha", [](W &) { std::cout << std::noboolalpha; }, [](std::ostream &o) { o << std::noboolalpha; }},
    {"fixed, precision 3", [](W &) { std::cout << std::fixed << std::setprecision(3); }, [](std::ostream &o) { o << std::fixed << std::setprecision(3); }},
    {"print in a failing stream", [](W &w) { auto x = std::cout.exceptions(); std::cout.setstate(std::ios::failbit); print(w.b); std::cout.clear(); (void)x; }, [](std::ostream &) {}},
};
void explore() {
  const int depth = 3 + mc::C.thorough;
  std::vector<std::size_t> ix(depth, 0);
  for (;;) {
    mc::run(
        [&] {
          std::string t = "output of";
          for (auto i : ix)
            t += std::string(" ") + AL[i].text + ";";
          return t;
        },
        [&] {
          W w;
          rm::put(w.d, D_);
          rm::put(w.m, M_);
          rm::put(w.i, I_);
          rm::put(w.b, B_);
          settings(std::cout, 0);
          std::ostringstream r;
          mc::Capture c;
          bool fmt = true;
          const char *last = "";
          for (auto i : ix) {
            if (AL[i].loose) { // compared on its own, shown with default settings
              Fmt before(std::cout);
              std::ostringstream keep, mine, ref;
              keep.copyfmt(std::cout);
              settings(std::cout, 0);
              auto *sb = std::cout.rdbuf(mine.rdbuf());
              AL[i].real(w);
              std::cout.rdbuf(sb);
              std::cout.copyfmt(keep);
              AL[i].ref(ref);
              if (loosely(norm(mine.str())) != loosely(norm(ref.str())))
                mc::fail(std::string(AL[i].text) + " shows " + mine.str());
              ++mc::C.transitions;
              continue;
            }
            AL[i].real(w);
            AL[i].ref(r);
            ++mc::C.transitions;
            if (fmt && !(Fmt(std::cout) == Fmt(r))) {
              fmt = false;
              last = AL[i].text;
            }
          }
          c.stop();
          settings(std::cout, 0);
          same(c.o.str(), r.str(), "the output");
          if (!fmt)
            mc::fail(std::string("format of the stream changed by ") + last);
          if (!c.e.str().empty())
            mc::fail("output on stderr: " + c.e.str());
          rm::expect(rm::obs(w.d), D_, "d after printing");
          rm::expect(rm::obs(w.m), M_, "m after printing");
          std::uint64_t h = 1;
          for (char ch : r.str())
            h = mc::hmix(h, std::uint64_t(ch));
          mc::state(h);
        });
    int d = depth - 1;
    while (d >= 0 && ++ix[d] == AL.size())
      ix[d--] = 0;
    if (d < 0)
      return;
  }
}
#else
template <class E> V collect(E &e) {
  V v;
  for (auto x : e)
    v.x.push_back(double(x));
  return v;
}
V flat(V v) {
  rm::noShape(v);
  return v;
}
// every kind of walk over e, whose elements are the given ones; src: the
// reference elements of the source, at: position of each visited element in it
template <class T, class E, class S> void walk(E &e, S &source, const V &src0, const std::vector<std::size_t> &at, const char *nm) {
  V src = src0, want;
  rm::Ty t = rm::Tyof<T>::t;
  for (auto a : at)
    want.x.push_back(src.x[a]);
  rm::expect(flat(collect(e)), want, nm);
  const E &ce = e;
  V c;
  for (const auto &x : ce)
    c.x.push_back(double(x));
  rm::expect(c, want, nm);
  // two walks at the same time, and one that stops early
  V pairs, wpairs;
  for (auto x : e)
    for (auto y : e)
      pairs.x.push_back(double(x) * 100 + double(y));
  for (double x : want.x)
    for (double y : want.x)
      wpairs.x.push_back(x * 100 + y);
  rm::expect(pairs, wpairs, "nested loops");
  std::size_t k = 0;
  for (auto x : e) {
    (void)x;
    if (++k == 2)
      break;
  }
  rm::expect(rm::obs(source), src, "source after reading");
  // writing through the loop variable
  k = 0;
  for (auto &x : e) {
    double nv = t == rm::B ? double(k % 2) : double(x) + double(k) + 1;
    double wv = t == rm::B ? double(k % 2) : src.x[at[k]] + double(k) + 1;
    x = T(nv);
    src.x[at[k]] = wv;
    ++k;
  }
  if (k != at.size())
    mc::fail("the writing loop visited " + std::to_string(k) + " elements");
  rm::expect(rm::obs(source), src, "source after writing through the loop variable");
  // and back
  V cur;
  for (auto a : at)
    cur.x.push_back(src.x[a]);
  rm::expect(flat(collect(e)), cur, "elements after writing");
  for (std::size_t i = 0; i < src0.x.size(); i++)
    source[i] = T(src0.x[i]);
  mc::C.transitions += 6;
  mc::state(rm::hash(src));
}
std::vector<std::size_t> iota(std::size_t n) {
  std::vector<std::size_t> r;
  for (std::size_t i = 0; i < n; i++)
    r.push_back(i);
  return r;
}
template <class T> void sources(const V &raw) {
  V w = typed(raw, rm::Tyof<T>::t);
  mc::run([&] { return "iterate over " + rm::str(w) + " of type " + std::to_string(w.t); },
          [&] {
            Vec<T> v;
            rm::put(v, w);
            walk<T>(v, v, w, iota(w.x.size()), "a variable");
            if (w.x.empty())
              return;
            if constexpr (std::is_same_v<T, double>) {
              rm::Guarded g(w.x);
              Vec<double, Borrow<double>> b = w.m ? Vec<double, Borrow<double>>(g.p(), w.r, w.c) : Vec<double, Borrow<double>>(g.p(), w.x.size());
              walk<T>(b, b, w, iota(w.x.size()), "a borrowing variable");
              Vec<int> ix;
              ix = coca(int(w.x.size()), 1);
              if (!w.m) {
                auto s = subset(b, ix);
                walk<T>(s, b, w, {w.x.size() - 1, 0}, "a selection of a borrowing variable");
              }
              g.checkGuards();
              // holding fewer elements than it could
              std::vector<double> more(w.x.size() + 3, -5.5);
              rm::Guarded g2(more);
              Vec<double, Borrow<double>> b2(g2.p(), more.size());
              b2 = v;
              walk<T>(b2, b2, w, iota(w.x.size()), "a borrowing variable that became shorter");
              g2.checkGuards();
              for (std::size_t k = w.x.size(); k < more.size(); k++)
                if (g2.p()[k] != -5.5)
                  mc::fail("iteration wrote beyond the elements of a borrowing variable");
            }
            {
              Vec<T> v2 = rep(coca(T(1)), int(w.x.size()) + 11);
              v2 = v;
              walk<T>(v2, v2, w, iota(w.x.size()), "a variable that became shorter");
            }
            const std::size_t n = w.x.size();
            {
              auto s = subset(v, true);
              walk<T>(s, v, w, iota(n), "a whole selection");
            }
            if (!w.m) {
              if (n > 17) { // long: few selections
                for (std::size_t k : {std::size_t(1), n - 1, n, n + 1, 2 * n}) {
                  Vec<int> I(SI{k});
                  std::vector<std::size_t> at;
                  for (std::size_t i = 0; i < k; i++) {
                    at.push_back((i * (n - 1) + k) % n);
                    I[i] = int(at.back()) + 1;
                  }
                  if (k > n) { // positions twice: reading only
                    auto s = subset(v, I);
                    V want;
                    for (auto a : at)
                      want.x.push_back(w.x[a]);
                    rm::expect(flat(collect(s)), want, "a long selection");
                    continue;
                  }
                  auto s = subset(v, I);
                  walk<T>(s, v, w, at, "a long selection");
                }
                Vec<bool> B(SI{n});
                std::vector<std::size_t> at;
                for (std::size_t i = 0; i < n; i++) {
                  B[i] = i % 3 != 1;
                  if (i % 3 != 1)
                    at.push_back(i);
                }
                auto s = subset(v, B);
                walk<T>(s, v, w, at, "a long logical selection");
              }
              for (std::size_t k = 1; k <= (n > 17 ? 0u : n > 5 ? 2u : 3u); k++) {
                std::vector<std::size_t> ix(k, 0);
                for (;;) {
                  Vec<int> I(SI{k});
                  for (std::size_t i = 0; i < k; i++)
                    I[i] = int(ix[i]) + 1;
                  auto s = subset(v, I);
                  walk<T>(s, v, w, ix, "a selection");
                  std::size_t d = 0;
                  while (d < k && ++ix[d] == n)
                    ix[d++] = 0;
                  if (d == k)
                    break;
                }
              }
              for (unsigned mask = 1; n <= 4 && mask < 1u << n; mask++) {
                Vec<bool> B(SI{n});
                std::vector<std::size_t> at;
                for (std::size_t i = 0; i < n; i++) {
                  B[i] = mask >> i & 1;
                  if (mask >> i & 1)
                    at.push_back(i);
                }
                auto s = subset(v, B);
                walk<T>(s, v, w, at, "a logical selection");
              }
            } else
              for (std::size_t i = 0; i < w.r; i++)
                for (std::size_t j = 0; j < w.c; j++) {
                  if ((i > 2 && i + 3 < w.r) || (j > 2 && j + 3 < w.c) || (n > 100 && i % (w.r - 1 + (w.r == 1)) && j % (w.c - 1 + (w.c == 1))))
                    continue;
                  auto row = subset(v, int(i) + 1, true);
                  auto col = subset(v, true, int(j) + 1);
                  std::vector<std::size_t> ar, ac, a2;
                  for (std::size_t k = 0; k < w.c; k++)
                    ar.push_back(k * w.r + i);
                  for (std::size_t k = 0; k < w.r; k++)
                    ac.push_back(j * w.r + k);
                  walk<T>(row, v, w, ar, "a row");
                  walk<T>(col, v, w, ac, "a column");
                  Vec<int> r, c;
                  r = coca(int(w.r), int(i) + 1);
                  c = coca(int(j) + 1, 1);
                  for (std::size_t q : {j, std::size_t(0)})
                    for (std::size_t p : {w.r - 1, i})
                      a2.push_back(q * w.r + p);
                  auto s = subset(v, r, c);
                  walk<T>(s, v, w, a2, "a matrix selection");
                }
          });
}
void explore() {
  for (std::size_t n = 0; n <= 4; n++)
    for (int pat = 0; pat < 3; pat++) {
      V v;
      for (std::size_t i = 0; i < n; i++)
        v.x.push_back(pat == 0 ? double(i) + 1.5 : pat == 1 ? double(i % 2) : -double(i) * 3);
      sources<double>(v);
      sources<int>(v);
      sources<bool>(v);
    }
  for (std::size_t n : sb::ladder(5, mc::C.thorough ? 1025 : 257)) {
    V v;
    for (std::size_t i = 0; i < n; i++)
      v.x.push_back(double(i % 7) - 2);
    sources<double>(v);
    sources<int>(v);
    sources<bool>(v);
    for (std::size_t r : {std::size_t(1), std::size_t(2), std::size_t(5), n / 2, n}) {
      if (!r || n % r || (r <= 4 && n / r <= 4))
        continue;
      v.m = true, v.r = r, v.c = n / r;
      sources<double>(v);
      sources<int>(v);
      sources<bool>(v);
    }
  }
  for (std::size_t r = 1; r <= 4; r++)
    for (std::size_t c = 1; c <= 4; c++) {
      V v;
      v.m = true;
      v.r = r;
      v.c = c;
      for (std::size_t i = 0; i < r * c; i++)
        v.x.push_back(double(i) - 2);
      sources<double>(v);
      sources<int>(v);
      sources<bool>(v);
    }
}
#endif
int main(int argc, char **argv) {
  mc::init(argc, argv);
  explore();
  return mc::finish();
}

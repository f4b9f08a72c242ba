// C22: storage buffers against growable arrays. PART = element type (0 double, 1
// int, 2 bool, 3 size_t), +10: longer sequences over fewer operations
#include "machine.hpp"
#include "ladder.hpp"
#ifndef PART
#define PART 0
#endif
using T = std::tuple_element_t<PART % 10, std::tuple<double, int, bool, std::size_t>>;
using Buf = etr::Buffer<T>;
struct E {
  bool known = true; // false: not specified (fresh after growing by resize)
  T v = T();
};
// PART >= 20: buffers of many sizes, made in several ways
constexpr int NMAKE = 6;
const std::vector<std::size_t> &sizesBig() {
  static const auto v = sb::ladder(4, mc::C.thorough ? 131073 : 65537);
  return v;
}
struct RW {
  Buf a, b;
  explicit RW(int k) {
    mc::Track t;
    if (k >= 100) {
      std::size_t n = sizesBig()[(k - 100) / NMAKE];
      switch ((k - 100) % NMAKE) {
      case 0:
        for (std::size_t i = 0; i < n; i++)
          a.push_back(T(i % 3));
        break;
      case 1: a.init(n); break;
      case 2: a.realloc(n); break;
      case 3: a.resize(n); break;
      case 4: { Buf c(n); a.moveit(c); } break;
      default: { Buf c(n); Buf d(std::move(c)); a = d; b = d; }
      }
      for (std::size_t i = 0; i < n; i++)
        a[i] = T(i % 3);
      if (b.size())
        b.fill(T(1));
      return;
    }
    if (k >= 1) {
      a.push_back(T(1));
      a.push_back(T(0));
    }
    if (k == 2) {
      a.init(3);
      a.fill(T(1));
      b.realloc(20);
      b.fill(T(7));
    }
    if (k == 3) { // much more capacity than elements
      a.realloc(20);
      a.resize(2);
      a.fill(T(1));
      b.realloc(3);
      b.resize(2);
      b.fill(T(0));
    }
  }
  T readBack() { return a.back(); }
};
struct MW {
  std::vector<E> a, b;
  explicit MW(int k) {
    if (k >= 100) {
      std::size_t n = sizesBig()[(k - 100) / NMAKE];
      for (std::size_t i = 0; i < n; i++)
        a.push_back(E{true, T(i % 3)});
      if ((k - 100) % NMAKE == 5)
        b.assign(n, E{true, T(1)});
      return;
    }
    if (k >= 1)
      a = {E{true, T(1)}, E{true, T(0)}};
    if (k == 2) {
      a.assign(3, E{true, T(1)});
      b.assign(20, E{true, T(7)});
    }
    if (k == 3) {
      a.assign(2, E{true, T(1)});
      b.assign(2, E{true, T(0)});
    }
  }
};
using Mod = std::vector<E>;
void cmpBuf(Buf &r, const Mod &m, const char *nm, const std::string &at, bool bounds) {
  auto bad = [&](const std::string &s) { mc::fail("after " + at + ": buffer " + nm + ": " + s); };
  if (r.size() != m.size())
    bad("length " + std::to_string(r.size()) + ", expected " + std::to_string(m.size()));
  if (r.capacity < r.sz)
    bad("capacity below the length");
  const Buf &c = r;
  for (std::size_t i = 0; i < m.size(); i++) {
    T x = c[i], y = r[i], z = r.data()[i]; // also touches unspecified elements: they exist
    if (m[i].known && (x != m[i].v || y != m[i].v || z != m[i].v))
      bad("element " + std::to_string(i) + " is " + std::to_string(x) + ", expected " + std::to_string(m[i].v));
  }
  for (std::size_t i : {m.size(), m.size() + 1, ~std::size_t(0)})
    for (int w = 0; w < 2 && bounds; w++) {
      bool thrown = false;
      try {
        w ? void(r[i] = T(1)) : void(c[i]);
      } catch (std::exception &) {
        thrown = true;
      }
      if (!thrown)
        bad("element beyond the end is accessible");
    }
  std::size_t n = 0;
  for (auto it = r.begin(); it != r.end(); ++it, ++n)
    if (n >= m.size() || (m[n].known && *it != m[n].v))
      bad("iteration");
  if (n != m.size())
    bad("iteration ends early");
  bool thrown = false;
  if (m.empty() && !bounds)
    return;
  try {
    T &x = r.back();
    if (m.empty() || &x != &r[m.size() - 1])
      bad("back() is not the last element");
  } catch (std::exception &) {
    thrown = true;
  }
  if (thrown != m.empty())
    bad("back() of a non-empty buffer rejected");
}
std::uint64_t hashM(const MW &m);
void compare(RW &r, MW &m, const std::string &at) {
  // positions beyond the end: once per capacity and reached value
  static std::set<std::tuple<std::uint64_t, std::size_t, std::size_t>> seen;
  bool bounds = seen.insert({hashM(m), r.a.capacity, r.b.capacity}).second;
  cmpBuf(r.a, m.a, "a", at, bounds);
  cmpBuf(r.b, m.b, "b", at, bounds);
}
std::uint64_t hashM(const MW &m) {
  std::uint64_t h = 3;
  for (auto *v : {&m.a, &m.b}) {
    h = mc::hmix(h, v->size());
    for (auto &e : *v)
      h = mc::hmix(h, e.known ? std::uint64_t(double(e.v) * 4) + 1 : 0);
  }
  return h;
}
#if PART >= 20
constexpr std::size_t LIM = 1000000;
#elif defined(LOOPS)
constexpr std::size_t LIM = 400;
#else
constexpr std::size_t LIM = 100;
#endif
bool tooBig(const MW &m) { return m.a.size() > LIM || m.b.size() > LIM; }
void mresize(Mod &m, std::size_t n) {
  if (n < 1)
    md::rej("size 0");
  if (n > m.size())
    for (auto &e : m)
      e.known = false; // growing by resize does not promise the old elements
  m.resize(n, E{false, T()});
}
void mrealloc(Mod &m, std::size_t n) { m.resize(n, E{false, T()}); }
void minit(Mod &m, std::size_t n) { m.assign(n, E{false, T()}); }
void mfill(Mod &m, T v) { m.assign(m.size(), E{true, v}); }
void mat(Mod &m, std::size_t i) {
  if (i >= m.size())
    md::rej("index");
}
template <class V> void fillV(Buf &b, V &&v) { b.fill(std::forward<V>(v)); }
void mfillV(Mod &m, std::vector<T> v) {
  if (v.size() != m.size())
    md::rej("length");
  for (std::size_t i = 0; i < v.size(); i++)
    m[i] = E{true, v[i]};
}
// an operator= never promises the source's unspecified elements to be kept equal
#define BASIC                                                                  \
  MST2("a.push_back(1)", w.a.push_back(T(1)), w.a.push_back(E{true, T(1)})), MST2("a.push_back(0)", w.a.push_back(T(0)), w.a.push_back(E{true, T(0)})), \
      MST2("a.resize(size+1)", w.a.resize(w.a.size() + 1), mresize(w.a, w.a.size() + 1)), MST2("a.resize(1)", w.a.resize(1), mresize(w.a, 1)), MST2("a.realloc(size+2)", w.a.realloc(w.a.size() + 2), mrealloc(w.a, w.a.size() + 2)), \
      MST2("a.fill(1)", w.a.fill(T(1)), mfill(w.a, T(1))), MST2("b = a", w.b = w.a, w.b = w.a), MST2("a.moveit(b)", w.a.moveit(w.b), std::swap(w.a, w.b)), MST2("a[0] = 0", w.a[0] = T(0), mat(w.a, 0); w.a[0] = E{true, T(0)}), \
      MST2("a.back() = 1", w.a.back() = T(1), mat(w.a, 0); w.a.back() = E{true, T(1)})
static const std::vector<mm::Stmt<RW, MW>> SHORT = {BASIC, MST2("a.fill(vector of 2)", fillV(w.a, etr::coca(T(1), T(0))), mfillV(w.a, {T(1), T(0)})), MST2("a = b", w.a = w.b, w.a = w.b), MST2("3 push_backs", for (int k = 0; k < 3; k++) w.a.push_back(T(k % 2)), for (int k = 0; k < 3; k++) w.a.push_back(E{true, T(k % 2)}))};
static const std::vector<mm::Stmt<RW, MW>> AL = {
    BASIC,
    MST2("a.resize(0)", w.a.resize(0), mresize(w.a, 0)),
    MST2("a.resize(9)", w.a.resize(9), mresize(w.a, 9)),
    MST2("a.realloc(1)", w.a.realloc(1), mrealloc(w.a, 1)),
    MST2("a.realloc(0)", w.a.realloc(0), mrealloc(w.a, 0)),
    MST2("a.realloc(8)", w.a.realloc(8), mrealloc(w.a, 8)),
    MST2("a.init(4)", w.a.init(4), minit(w.a, 4)),
    MST2("b.init(1)", w.b.init(1), minit(w.b, 1)),
    MST2("a.push_back(a[0])", if (w.a.size()) w.a.push_back(w.a[0]), if (w.a.size()) w.a.push_back(E(w.a[0]))),
    MST2("20 of a.push_back(a.back())", if (w.a.size()) for (int k = 0; k < 20; k++) w.a.push_back(w.a.back()), if (w.a.size()) for (int k = 0; k < 20; k++) w.a.push_back(E(w.a.back()))),
    MST2("b.push_back(0)", w.b.push_back(T(0)), w.b.push_back(E{true, T(0)})),
    MST2("a = b", w.a = w.b, w.a = w.b),
    MST2("a = a", w.a = w.a, w.a = w.a),
    MST2("b.moveit(a)", w.b.moveit(w.a), std::swap(w.a, w.b)),
    MST2("copy of a changed", Buf c(w.a); c.push_back(T(1)); c[0] = T(0); c.fill(T(1)), (void)0),
    MST2("b = copy of a", Buf c(w.a); w.a.push_back(T(1)); w.b = c, Mod c(w.a); w.a.push_back(E{true, T(1)}); w.b = c),
    MST2("move a out and back", Buf c(std::move(w.a)); w.a.push_back(T(1)); w.b = c, Mod c(w.a); w.a.assign(1, E{true, T(1)}); w.b = c),
    MST2("moved from a destroyed and used", { Buf c(std::move(w.a)); } w.a.resize(2); w.a.fill(T(0)), w.a.assign(2, E{true, T(0)})),
    MST2("a[1] = 1", w.a[1] = T(1), mat(w.a, 1); w.a[1] = E{true, T(1)}),
    MST2("a[size-1] via data()", if (w.a.size()) w.a.data()[w.a.size() - 1] = T(1), if (w.a.size()) w.a.back() = E{true, T(1)}),
    MST2("a.fill(vector of 2)", fillV(w.a, etr::coca(T(1), T(0))), mfillV(w.a, {T(1), T(0)})),
    MST2("a.fill(ints of 2)", fillV(w.a, etr::coca(1, 0)), mfillV(w.a, {T(1), T(0)})),
    MST2("a.fill(variable of 2)", etr::Vec<double> v; v = etr::coca(1.0, 0.0); fillV(w.a, v), mfillV(w.a, {T(1), T(0)})),
    MST2("a.fill(fractions of 2)", etr::Vec<double> v; v = etr::coca(0.5, 2.75); fillV(w.a, v), mfillV(w.a, {T(0.5), T(2.75)})),
    MST2("a.fill(temporary fractions of 2)", fillV(w.a, etr::coca(2.75, 0.5)), mfillV(w.a, {T(2.75), T(0.5)})),
    MST2("a.fill(2.5)", w.a.fill(2.5), mfill(w.a, T(2.5))),
    MST2("a.fill(0.5)", w.a.fill(0.5), mfill(w.a, T(0.5))),
    MST2("a.fill(variable of 0.5)", double x = 0.5; w.a.fill(x), mfill(w.a, T(0.5))),
    MST2("a.fill(variable)", T x = T(1); w.a.fill(x), mfill(w.a, T(1))),
    MST2("a.fill(1.0)", w.a.fill(1.0), mfill(w.a, T(1))),
    MST2("a.fill(true)", w.a.fill(true), mfill(w.a, T(1))),
    MST2("sized buffer", Buf c(5); c.fill(T(1)); w.a.moveit(c), w.a.assign(5, E{true, T(1)})),
    MST2("sized buffer of 1", Buf c(std::size_t(1)); c.back() = T(0); w.a = c, w.a.assign(1, E{true, T(0)})),
    MST2("Vec(a) changed", { etr::Vec<T> v(w.a); v.fill(T(1)); if (v.size()) v.back() = T(0); if (v.size()) v.resize(1); }, (void)0),
    MST2("b = Vec(a).d", etr::Vec<T> v(w.a); if (v.size()) v.back() = T(0); w.b = v.d, w.b = w.a; if (w.b.size()) w.b.back() = E{true, T(0)}),
    MST2("b = Vec(const a).d", const Buf &c = w.a; etr::Vec<T> v(std::move(c)); w.b = v.d, w.b = w.a),
    MST2("b = Vec(std::move(copy of a)).d", Buf c(w.a); etr::Vec<T> v(std::move(c)); if (v.size()) v.d[0] = T(1); w.b = v.d, w.b = w.a; if (w.b.size()) w.b[0] = E{true, T(1)}),
    MST2("b.setMatrix, a = b", w.b.setMatrix(true, 1, w.b.size()); w.a = w.b; if (!w.a.im() || w.a.nc() != w.a.size()) mc::fail("copy of a matrix without its shape"); etr::Vec<T> v(w.a); if (!v.im() || v.nr() != 1) mc::fail("variable made of a matrix without its shape"); w.b.setMatrix(false, 0, 0), w.a = w.b),
    MST2("12 push_backs", for (int k = 0; k < 12; k++) w.b.push_back(T(k % 3)), for (int k = 0; k < 12; k++) w.b.push_back(E{true, T(k % 3)})),
};
void explore() {
#if PART >= 20
  static const char *makes[] = {"push_back", "init", "realloc", "resize", "constructor", "copies"};
  static std::vector<std::string> text;
  text.reserve(sizesBig().size() * NMAKE);
  std::vector<mm::Stmt<RW, MW>> few(SHORT.begin(), SHORT.end());
  for (auto &s : AL)
    if (strstr(s.text, "move") || strstr(s.text, "copy") || strstr(s.text, "12 push"))
      few.push_back(s);
  for (std::size_t i = 0; i < sizesBig().size(); i++)
    for (int k = 0; k < NMAKE; k++) {
      text.push_back("a of " + std::to_string(sizesBig()[i]) + " by " + makes[k]);
      mm::allSeqs<RW, MW>(int(100 + i * NMAKE + k), text.back().c_str(), AL, 1);
      if (sizesBig()[i] <= 130)
        mm::allSeqs<RW, MW>(int(100 + i * NMAKE + k), text.back().c_str(), few, 2);
    }
  return;
#endif
  static const char *names[] = {"empty buffers", "a=[1 0]", "a of 3, b of 20", "a of 2 with capacity 20, b of 2"};
  for (int k = 0; k < 4; k++) {
#ifdef LOOPS
    mm::allLoops<RW, MW>(k, names[k], AL, 2, mc::C.thorough ? 300 : 60);
    mm::allLoops<RW, MW>(k, names[k], SHORT, 3, 60);
    continue;
#endif
    if (PART < 10)
      mm::allSeqs<RW, MW>(k, names[k], AL, 3 + (mc::C.thorough && PART == 0));
    else
      mm::allSeqs<RW, MW>(k, names[k], SHORT, 5 + mc::C.thorough);
  }
}
MACHINE_MAIN

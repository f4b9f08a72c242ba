// PART 0: C19 linear interpolation; PART 1: C20 Catmull-Rom interpolation
#include "subs.hpp"
#ifndef PART
#define PART 0
#endif
using rm::V;
using etr::Borrow, etr::Vec, etr::SI, etr::coca, etr::li, etr::cmr, etr::subset;
const double inf = std::numeric_limits<double>::infinity();
const std::vector<double> GRID = {-2, -0.5, 0, 1, 2.25, 4, 4.5};
double refLi(double t, const std::vector<double> &x, const std::vector<double> &y) {
  std::size_t n = x.size();
  if (t != t)
    return t;
  if (t <= x[0])
    return y[0];
  if (t >= x[n - 1])
    return y[n - 1];
  std::size_t i = 0;
  while (t >= x[i + 1])
    ++i;
  return y[i] + (y[i + 1] - y[i]) * (t - x[i]) / (x[i + 1] - x[i]);
}
double refCmr(double t, const std::vector<double> &x, const std::vector<double> &y) {
  long n = long(x.size());
  if (t != t)
    return t;
  if (t < x[0])
    return y[0];
  if (t > x[n - 1])
    return y[n - 1];
  for (long i = 0; i < n; i++)
    if (t == x[i])
      return y[i];
  long i = 0;
  while (t >= x[i + 1])
    ++i;
  // neighbours of the interval, cyclically
  double tl = i ? x[i - 1] : x[n - 1], yl = i ? y[i - 1] : y[n - 1];
  double tr = i + 2 < n ? x[i + 2] : x[0] + x[n - 1], yr = i + 2 < n ? y[i + 2] : y[0];
  double h = x[i + 1] - x[i], u = (t - x[i]) / h;
  double ml = (y[i + 1] - yl) / (x[i + 1] - tl), mr = (yr - y[i]) / (tr - x[i]);
  return (1 + 2 * u) * (1 - u) * (1 - u) * y[i] + u * (1 - u) * (1 - u) * h * ml + u * u * (3 - 2 * u) * y[i + 1] + u * u * (u - 1) * h * mr;
}
#if PART == 0
#define FN li
#define REF refLi
const char *fn = "li";
#else
#define FN cmr
#define REF refCmr
const char *fn = "cmr";
#endif
std::string s(const std::vector<double> &v) { return rm::str(V(v)); }
struct Data {
  const std::vector<double> &x, &y;
  rm::Guarded gx, gy;
  Vec<double> vx, vy;
  Vec<double, Borrow<double>> bx, by;
  Vec<int> all;
  Data(const std::vector<double> &x_, const std::vector<double> &y_)
      : x(x_), y(y_), gx(rm::SV(x_)), gy(rm::SV(y_)), bx(gx.p(), x_.size()), by(gy.p(), y_.size()) {
    rm::put(vx, V(x));
    rm::put(vy, V(y));
    std::vector<double> ix;
    for (std::size_t i = 0; i < x.size(); i++)
      ix.push_back(double(i + 1));
    rm::put(all, V(ix));
  }
  void unchanged() {
    rm::expect(rm::obs(vx), V(x), "times after the call");
    rm::expect(rm::obs(vy), V(y), "values after the call");
    rm::expect(rm::obs(bx), V(x), "borrowed times after the call");
    rm::expect(rm::obs(by), V(y), "borrowed values after the call");
    gx.checkGuards();
    gy.checkGuards();
  }
};
void want(double got, double t, const Data &d, const char *how) {
  double w = REF(t, d.x, d.y), sc = 1;
  for (double e : d.y)
    sc = std::max(sc, std::fabs(e));
  if (PART && std::isfinite(w)) // the cubic may overshoot
    sc = std::max(sc, std::fabs(w));
  bool ok = (got != got && w != w) || got == w || std::fabs(got - w) <= 1e-12 * sc * (PART ? 100 : 1);
  // exact at the data points and outside
  for (std::size_t i = 0; i < d.x.size() && t == t; i++)
    if (t == d.x[i] || t < d.x[0] || t > d.x.back())
      ok = got == w;
  if (!ok) {
    std::ostringstream o;
    o.precision(17);
    o << fn << "(" << t << ", ...) through " << how << " is " << got << ", expected " << w;
    mc::fail(o.str());
  }
  ++mc::C.transitions;
}
void atT(double t, Data &d, int what) {
  Vec<double> v(SI{1});
  v[0] = t;
  const Vec<double> cv(v);
  want(FN(v, d.vx, d.vy), t, d, "variables");
  want(FN(cv, d.bx, d.by), t, d, "a constant and borrowed data");
  if (what == 0)
    return;
  double mem[1] = {t};
  Vec<double, Borrow<double>> b(mem, 1);
  want(FN(b, d.bx, d.vy), t, d, "borrowed times");
  want(FN(b, d.vx, d.by), t, d, "borrowed values");
  const Vec<double> cx(d.vx), cy(d.vy);
  want(FN(v, cx, cy), t, d, "constant data");
  want(FN(coca(t), d.vx, d.vy), t, d, "a temporary");
  want(FN(v, etr::coca(d.vx), d.vy), t, d, "temporary times");
  want(FN(v, d.vx, etr::coca(d.by)), t, d, "temporary values");
  want(FN(v, d.vx + 0.0, d.vy), t, d, "times that are an expression");
  want(FN(v, d.vx, -(-d.vy)), t, d, "values that are an expression");
  want(FN(v, subset(d.vx, true), d.vy), t, d, "times that are a selection");
  want(FN(v, d.bx, subset(d.by, true)), t, d, "borrowed values that are a selection");
  want(FN(v, subset(d.bx + 0.0, d.all), subset(etr::coca(d.vy, 1.0), d.all)), t, d, "selections of an expression and of a temporary");
  want(FN(t, d.vx, d.vy), t, d, "a number");
  want(FN(t, etr::coca(d.vx), subset(d.vy, d.all)), t, d, "a number, temporary times, selected values");
#if PART == 0
  want(FN(b - 0.0, subset(d.vx, d.all), d.by * 1.0), t, d, "expressions and a selection");
  if (t == std::floor(t) && std::fabs(t) < 1e6) {
    Vec<int> iv(SI{1});
    iv[0] = int(t);
    want(FN(iv, d.vx, d.vy), t, d, "an integer");
    want(FN(coca(int(t)), d.vx, d.vy), t, d, "an integer temporary");
  }
  Vec<double> two, z;
  two = coca(7.0, t);
  z = coca(0.0);
  want(FN(v + z, d.vx, d.vy), t, d, "an expression");
  want(FN(subset(two, 2), d.vx, d.vy), t, d, "a selection");
#else
  want(FN(t, d.vx, d.vy), t, d, "a number");
  want(FN(t, d.bx, d.by), t, d, "a number and borrowed data");
  if (t == std::floor(t) && std::fabs(t) < 1e6)
    want(FN(int(t), d.vx, d.vy), t, d, "an integer");
  Vec<double> two;
  two = coca(t, 7.0);
  want(FN(two, d.vx, d.vy), t, d, "the first of two");
  // shifting and scaling the values
  Vec<double> sh, sca;
  sh = d.vy + 3.0;
  sca = d.vy * (-2.0);
  double base = FN(t, d.vx, d.vy);
  auto close = [&](double a, double b2) { return (a != a && b2 != b2) || std::fabs(a - b2) <= 1e-9 * std::max({1.0, std::fabs(a), std::fabs(b2)}); };
  if (!close(FN(t, d.vx, sh), base + 3) || !close(FN(t, d.vx, sca), base * -2))
    mc::fail("not equivariant under shifting or scaling the values");
#endif
}
std::vector<double> times(const std::vector<double> &x) {
  std::vector<double> t = {-inf, -1e300, x[0] - 1, std::nextafter(x[0], -inf), x.back() + 1, std::nextafter(x.back(), inf), 1e300, inf, std::nan("")};
  for (std::size_t i = 0; i < x.size(); i++) {
    if (x.size() > 70 && i > 5 && i + 7 < x.size() && (i & (i - 1)) && ((i + 1) & i) && i % 37)
      continue; // long data: the ends, around powers of two, every 37th interval
    t.push_back(x[i]);
    if (i + 1 < x.size())
      for (double f : {0.125, 0.5, 0.75})
        t.push_back(x[i] + f * (x[i + 1] - x[i]));
    if (i)
      t.push_back(std::nextafter(x[i], -inf));
    if (i + 1 < x.size())
      t.push_back(std::nextafter(x[i], inf));
  }
  return t;
}
template <class F> void rejected(const char *what, F f) {
  bool thrown = false;
  try {
    f();
  } catch (std::exception &) {
    thrown = true;
  } catch (int) {
    return; // does not apply
  }
  if (!thrown)
    mc::fail(std::string(what) + " accepted");
  ++mc::C.transitions;
}
// the point one period (x[0] + x[n-1]) after the first one coincides with x[n-2]
bool degenerate(const std::vector<double> &x) { return PART == 1 && x.size() >= 4 && x[0] + x.back() == x[x.size() - 2]; }
void data(const std::vector<double> &x, const std::vector<double> &y, int what) {
  mc::run([&] { return std::string(fn) + " with times " + s(x) + ", values " + s(y); },
          [&] {
            Data d(x, y);
            for (double t : times(x)) {
              if (degenerate(x) && t >= x[x.size() - 2] && t < x.back())
                continue; // a case of its own
              atT(t, d, what);
              mc::state(mc::hd(REF(t, x, y)));
            }
            d.unchanged();
          });
}
const std::size_t LO = PART ? 4 : 1;
void bad() {
  // lengths that do not fit: data of lengths n and k, and t of length 0 and 2
  for (std::size_t n = 0; n <= 6; n++)
    for (std::size_t k = 0; k <= 6; k++)
      for (double t : {-10.0, -2.0, 0.25, 1.0, 4.0, 50.0})
        mc::run([&] { return std::string(fn) + "(" + std::to_string(t) + ") with " + std::to_string(n) + " times and " + std::to_string(k) + " values"; },
                [&] {
                  std::vector<double> x(GRID.data(), GRID.data() + n), y; for (std::size_t i = 0; i < k; i++) y.push_back(GRID[6 - i]);
                  Data d(x, y);
                  auto one = [&](auto &&tt) {
                    if (n != k || n < LO) {
                      rejected("data of wrong length", [&] { FN(tt, d.vx, d.vy); });
                      rejected("expressions of wrong length", [&] { if (n && k) FN(tt, d.vx + 0.0, d.vy * 1.0); else throw 0; });
                      rejected("temporaries of wrong length", [&] { if (n && k) FN(tt, etr::coca(d.vx), etr::coca(d.vy)); else throw 0; });
                      rejected("selections of wrong length", [&] { if (n && k) FN(tt, subset(d.vx, true), subset(d.vy, true)); else throw 0; });
                      if (n && k)
                        rejected("borrowed data of wrong length", [&] { FN(tt, d.bx, d.by); });
                    } else
                      want(FN(tt, d.vx, d.vy), t, d, "variables");
                  };
                  Vec<double> v(SI{1});
                  v[0] = t;
                  one(v);
                  one(coca(t));
                  one(t);
                  Vec<double> e, two;
                  two = coca(t, t);
                  rejected("an empty position", [&] { FN(e, d.vx, d.vy); });
#if PART == 0
                  rejected("two positions", [&] { FN(two, d.vx, d.vy); });
                  rejected("two positions in a temporary", [&] { FN(coca(t, t), d.vx, d.vy); });
                  rejected("two positions in a repeated temporary", [&] { FN(etr::rep(two, 1), d.vx, d.vy); });
                  rejected("two positions in an expression", [&] { FN(two + 0.0, d.vx, d.vy); });
                  rejected("two positions in a selection", [&] { FN(subset(two, true), d.vx, d.vy); });
                  rejected("two positions in a selection of an expression", [&] { FN(subset(two + v, true), d.vx, d.vy); });
#endif
                  d.unchanged();
                });
}
// every history of calls on two sets of data (results depend on nothing else)
void histories() {
  const std::vector<double> x1 = {-2, -0.5, 0, 1, 4}, y1 = {3, -1, 0.5, 2, 7}, x2 = {0, 1, 2.25, 4, 4.5, 6}, y2 = {-5, 1, 1, -3, 8, 2}, T = {-2, -1, 0.5, 1, 2.5, 4, 9};
  const std::size_t N = 2 * T.size(), D = mc::C.thorough ? 5 : 4;
  std::size_t total = 1;
  for (std::size_t d = 0; d < D; d++)
    total *= N;
  for (std::size_t c = 0; c < total; c++) {
    auto each = [&](auto f) {
      for (std::size_t d = 0, r = c; d < D; d++, r /= N)
        f(r % N / T.size(), T[r % T.size()]);
    };
    mc::run(
        [&] {
          std::string t = "calls";
          each([&](std::size_t w, double a) { t += " " + std::string(fn) + "(" + std::to_string(a) + ") on data " + (w ? "2" : "1") + ";"; });
          return t;
        },
        [&] {
          Data a(x1, y1), b(x2, y2);
          each([&](std::size_t w, double t) {
            Data &d = w ? b : a;
            Vec<double> v(SI{1});
            v[0] = t;
            want(FN(v, d.vx, d.vy), t, d, "variables");
          });
        });
  }
}
int main(int argc, char **argv) {
  mc::init(argc, argv);
  std::cerr.rdbuf(nullptr);
  bad();
  const std::size_t HI = PART ? 5 + mc::C.thorough : 4 + mc::C.thorough;
  const std::vector<double> YS = PART ? std::vector<double>{-1, 0.5, 3} : std::vector<double>{-1, 0, 2.5, 1e10};
  for (std::size_t n = LO; n <= HI; n++)
    for (unsigned mask = 0; mask < 1u << GRID.size(); mask++) {
      if (std::size_t(__builtin_popcount(mask)) != n)
        continue;
      std::vector<double> x;
      for (std::size_t i = 0; i < GRID.size(); i++)
        if (mask >> i & 1)
          x.push_back(GRID[i]);
#if PART == 1
      if (degenerate(x))
        mc::run([&] { return std::string(fn) + " in the last interval of the times " + s(x); },
                [&] {
                  std::vector<double> y(GRID.data(), GRID.data() + n);
                  Data d(x, y);
                  want(cmr(x[n - 2], d.vx, d.vy), x[n - 2], d, "a number");
                  for (double f : {0.125, 0.5, 0.75})
                    if (!std::isfinite(cmr(x[n - 2] + f * (x[n - 1] - x[n - 2]), d.vx, d.vy)))
                      mc::fail("not finite");
                });
#endif
      std::vector<std::size_t> ix(n, 0);
      long c = 0;
      for (;;) {
        std::vector<double> y;
        for (auto i : ix)
          y.push_back(YS[i]);
        data(x, y, n <= LO || c++ % 16 == 0);
        std::size_t d = 0;
        while (d < n && ++ix[d] == YS.size())
          ix[d++] = 0;
        if (d == n)
          break;
      }
    }
  // spacings and values that are not exact in binary
  for (const std::vector<double> &G : {std::vector<double>{-2.17, -0.3, 0.1, 0.7, 2.2, 4.03, 4.9}, std::vector<double>{1e-9, 3.1e-9, 7.7e-8, 1.1e-6, 3.3e-6, 5.1e-6, 1e-5}, std::vector<double>{-7.1e8, -3.3e5, -0.1, 1e-3, 0.3, 12345.678, 1e9 / 3}})
    for (unsigned mask = 0; mask < 1u << G.size(); mask++) {
      std::vector<double> x, y;
      for (std::size_t i = 0; i < G.size(); i++)
        if (mask >> i & 1)
          x.push_back(G[i]);
      if (x.size() < LO || (PART && G[0] < -1e8)) // C20: ill-conditioned
        continue;
      for (int pat = 0; pat < (mc::C.thorough ? 27 : 9); pat++) {
        y.clear();
        for (std::size_t i = 0; i < x.size(); i++)
          y.push_back(std::vector<double>{-1.3, 0.1, 2.7}[(pat + i * i * (1 + pat / 3) + i * (pat / 9)) % 3]);
        data(x, y, pat % 3 == 0);
      }
    }
  // long data: every size of the ladder, several spacings
  for (std::size_t n : sb::ladder(5, mc::C.thorough ? 8193 : 1025))
    for (int kind = 0; kind < 5; kind++) {
      std::vector<double> x, y;
      for (std::size_t i = 0; i < n; i++) {
        double u = double(i);
        x.push_back(kind == 0 ? u * 1.5 - 3 + (i % 3) * 0.25 : kind == 1 ? u : kind == 4 ? u * 0.1 + 0.03 * double(i * i % 3) : kind == 2 ? -1e6 + u * 1e-3 : (u + (i % 2) * 0.5) * 1e7 + 2);
        y.push_back(kind == 1 ? double(i % 2) * 2 - 1 : double((i * 7) % 11) - 4);
      }
      data(x, y, n < 300 || kind == 0);
    }
  histories();
  return mc::finish();
}

// Enumeration of subscript values.
#pragma once
#include "ladder.hpp"
#include "world.hpp"
namespace sb {
using rm::V;
enum Kind { SI, SD, XI, XD, XB };
const double NaN = std::numeric_limits<double>::quiet_NaN();
inline void tuples(std::vector<V> &out, const std::vector<double> &alpha, std::size_t len) {
  std::vector<std::size_t> ix(len, 0);
  for (;;) {
    V v;
    for (auto k : ix)
      v.x.push_back(alpha[k]);
    out.push_back(v);
    int d = int(len) - 1;
    while (d >= 0 && ++ix[d] == alpha.size())
      ix[d--] = 0;
    if (d < 0)
      return;
  }
}
// all subscripts of a kind for an extent n; maxLen bounds vectors of positions
inline std::vector<V> all(Kind k, std::size_t n, std::size_t maxLen, bool logicalTooLong) {
  std::vector<V> o;
  double N = double(n);
  if (k == SI) {
    for (int i = -1; i <= int(n) + 1; i++)
      o.push_back(V({double(i)}));
    o.push_back(V({2147483647.0}));
    o.push_back(V({-2147483648.0}));
  } else if (k == SD) {
    for (double d : {-1.0, 0.0, 0.5, 0.999, 1 - 1e-9, std::nextafter(1.0, 0.0), NaN, 1e10, 4294967297.0, -1e10, N + 1, N + 1.5})
      o.push_back(V({d}));
    for (std::size_t i = 1; i <= n; i++)
      for (double f : {0.0, 0.5, 0.9999, 1 - 1e-9})
        o.push_back(V({double(i) + f}));
  } else if (k == XI) {
    std::vector<double> al;
    for (int i = 0; i <= int(n) + 1; i++)
      al.push_back(i);
    for (std::size_t l = 1; l <= maxLen; l++)
      tuples(o, al, l);
    o.push_back(V({1, -1}));
    o.push_back(V({1, -2147483648.0}));
    o.push_back(V({2147483647.0}));
    V id, rev;
    for (std::size_t i = 1; i <= n; i++)
      id.x.push_back(double(i)), rev.x.push_back(double(n + 1 - i));
    o.push_back(id);
    o.push_back(rev);
  } else if (k == XD) {
    std::vector<double> al = {0.9, 1.0, 2 - 1e-9, N, std::nextafter(N + 1, 0.0), N + 1};
    for (std::size_t l = 1; l <= std::min<std::size_t>(maxLen, 2); l++)
      tuples(o, al, l);
    o.push_back(V({1, NaN}));
    o.push_back(V({1, -1.5}));
    o.push_back(V({4294967297.0}));
    o.push_back(V({N, 1e10}));
  } else {
    for (std::size_t l = 1; l <= n + (logicalTooLong ? 1 : 0); l++)
      tuples(o, {0.0, 1.0}, l);
  }
  return o;
}
// a few representative ones (for cross products of rows and columns)
inline std::vector<V> few(Kind k, std::size_t n) {
  double N = double(n);
  switch (k) {
  case SI: {
    std::vector<V> o;
    for (int i = 0; i <= int(n) + 1; i++)
      o.push_back(V({double(i)}));
    o.push_back(V({-1.0}));
    o.push_back(V({2147483647.0}));
    return o;
  }
  case SD: return {V({1.0}), V({N}), V({std::nextafter(N + 1, 0.0)}), V({N + 1}), V({1 - 1e-9}), V({NaN}), V({-1.0})};
  case XI: return {V({1}), V({N}), V({N, 1}), V({1, 1, N}), V({1, N + 1}), V({0, 1}), V({1, -1})};
  case XD: return {V({1.5}), V({N, 1.2}), V({N + 0.5, N}), V({1, N + 1}), V({0.5, 1}), V({1, NaN})};
  default: {
    std::vector<V> o;
    for (std::size_t l = 1; l <= n + 1; l++)
      tuples(o, {0.0, 1.0}, l);
    return o;
  }
  }
}
inline V seq(std::size_t n, double s, double st = 1.25) {
  V v;
  for (std::size_t i = 0; i < n; i++)
    v.x.push_back(s + double(i) * st);
  return v;
}
inline V mat(std::size_t r, std::size_t c, double s) {
  V v = seq(r * c, s);
  v.m = true, v.r = r, v.c = c;
  return v;
}
// ---- size ladder: the same statements on variables of many sizes
// the same without gaps up to 130 (thorough: 1100)
inline std::vector<std::size_t> dense(std::size_t from, std::size_t to) {
  std::vector<std::size_t> r;
  for (std::size_t n = from; n <= (mc::C.thorough ? 1100 : 130) && n <= to; n++)
    r.push_back(n);
  for (auto n : ladder(std::max<std::size_t>(from, r.empty() ? 0 : r.back() + 1), to))
    r.push_back(n);
  return r;
}
inline const std::vector<std::pair<int, int>> &shapes() {
  static const std::vector<std::pair<int, int>> s = {{1, 4}, {4, 1}, {4, 4}, {5, 7}, {7, 5}, {1, 20}, {20, 1}, {16, 16}, {17, 3}, {3, 17}, {31, 33}, {64, 2}, {2, 64}, {65, 65}, {100, 100}, {256, 3}, {3, 256}, {255, 4}, {257, 257}, {1000, 2}, {2, 1000}, {1, 70000}, {70000, 1}, {300, 300}};
  return s;
}
// representative subscripts of a large extent
inline std::vector<V> big(Kind k, std::size_t n) {
  double N = double(n), H = double((n + 1) / 2);
  auto gen = [](std::size_t len, auto f) {
    V v;
    for (std::size_t i = 0; i < len; i++)
      v.x.push_back(f(i));
    return v;
  };
  switch (k) {
  case SI: return {V({1}), V({N}), V({H}), V({N - 1}), V({N + 1}), V({0})};
  case SD: return {V({N}), V({N + 0.5}), V({H}), V({N + 1}), V({1})};
  case XI:
    return {gen(n, [&](std::size_t i) { return N - double(i); }), gen(n, [&](std::size_t i) { return double(i + 1); }), gen((n + 1) / 2, [&](std::size_t i) { return double(2 * i + 1); }),
            gen(n + 3, [&](std::size_t i) { return double(i % n + 1); }), V({N, 1, H}), V({1, N + 1}), gen(n, [&](std::size_t i) { return i + 1 == n ? N + 1 : double(i + 1); }), gen(n, [&](std::size_t) { return N; })};
  case XD: return {gen(n, [&](std::size_t i) { return N - double(i) + 0.5; }), V({N, 1}), V({N + 1, 1}), gen(n, [&](std::size_t i) { return i + 1 == n ? N + 1 : double(i + 1); })};
  default:
    return {gen(n, [&](std::size_t i) { return double(i % 2); }), gen(n, [&](std::size_t) { return 1.0; }), gen(n, [&](std::size_t i) { return double(i + 1 == n); }), gen(n, [&](std::size_t i) { return double(i % 3 != 1); }),
            gen(n - n / 2, [&](std::size_t i) { return double(i == 0 || i % 7 == 3); }), gen(n, [&](std::size_t i) { return double(i == 0); }), gen(n, [](std::size_t) { return 0.0; })};
  }
}
// the first `n` of them
inline std::vector<V> big(Kind k, std::size_t n, std::size_t most) {
  auto o = big(k, n);
  if (o.size() > most)
    o.resize(most);
  return o;
}
} // namespace sb

// C24: every statement (PART 0: from each state; PART 1: after every other
// statement) x every allocation made in it: exactly that allocation fails
#include "all.hpp"
#ifndef PART
#define PART 0
#endif
using namespace al;
long nPoints = 0, nSpecial = 0;
struct Out {
  bool thrown = false, oom = false, delivered = false;
  long allocs = 0;
  std::string what;
};
Out step(W &w, const St &s, long failAt) {
  Out o;
  w.out.clear();
  try {
    mc::Track t;
    mc::A.armed = true;
    mc::A.count = 0;
    mc::A.failAt = failAt;
    mc::A.failed = false;
    s.f(w);
    mc::A.armed = false;
  } catch (std::bad_alloc &) {
    mc::A.armed = false;
    o.thrown = o.oom = true;
  } catch (std::exception &e) {
    mc::A.armed = false;
    o.thrown = true;
    o.what = e.what();
  }
  o.allocs = mc::A.count;
  o.delivered = mc::A.failed;
  ++mc::C.transitions;
  return o;
}
void runCase(int init, const St *pre, const St &s) {
  // the regular execution, twice
  Snap s0, s1, s2;
  Out r1, r2;
  {
    S sh;
    W w(sh, init);
    if (pre)
      step(w, *pre, -1);
    s0 = snap(w);
    r1 = step(w, s, -1);
    s1 = snap(w);
    r2 = step(w, s, -1);
    s2 = snap(w);
  }
  for (long k = 0; k < r1.allocs; k++) {
    long live0 = mc::A.live;
    {
      S sh;
      W w(sh, init);
      if (pre)
        step(w, *pre, -1);
      std::string at = "allocation " + std::to_string(k + 1) + " of " + std::to_string(r1.allocs) + " fails: ";
      Out o = step(w, s, k);
      if (!o.delivered)
        mc::fail(at + "not reached in a second execution");
      ++nPoints;
      if (!o.thrown)
        mc::fail(at + "no exception");
      if (!o.oom && !(r1.thrown && o.what == r1.what))
        mc::fail(at + "wrong exception: " + o.what);
      Snap n = snap(w);
      bool isOld = n.eq(s0), isNew = n.eq(s1);
      if (!isOld && !isNew)
        for (std::size_t i = 0; i < n.end.size(); i++)
          if (!n.same(s0, i) && !n.same(s1, i))
            mc::fail(at + "neither the old nor the new value afterwards: " + snapName(i));
      Out q = step(w, s, -1);
      if (isOld || isNew) {
        const Out &x = isOld ? r1 : r2;
        const Snap &y = isOld ? s1 : s2;
        if (q.thrown != x.thrown || q.what != x.what)
          mc::fail(at + "repeating the statement " + (q.thrown ? "fails: " + q.what : std::string("succeeds")));
        Snap m = snap(w);
        if (!m.eq(y))
          mc::fail(at + "repeating the statement gives another result: " + diff(m, y));
        mc::state(hash(m));
      } else
        ++nSpecial; // several variables, some old and some new
    }
    if (mc::A.live != live0)
      mc::fail("allocation " + std::to_string(k + 1) + " of " + std::to_string(r1.allocs) + " fails: memory blocks leaked: " + std::to_string(mc::A.live - live0));
  }
}
// streams swallow a failure of their own buffer; a case is one statement
bool usable(const St &s) { return !std::strstr(s.text, "w.out") && !std::strstr(s.text, ";"); }
void explore() {
  for (int i = 0; i < 3; i++) {
    if (PART == 0) {
      for (auto &s : alphabet())
        if (usable(s)) mc::run([&] { return "state " + std::to_string(i) + ": " + s.text; }, [&] { runCase(i, nullptr, s); });
    } else
      for (auto &p : alphabet())
        for (auto &s : alphabet())
          if (usable(s)) mc::run([&] { return "state " + std::to_string(i) + ", after " + p.text + ": " + s.text; }, [&] { runCase(i, &p, s); });
  }
}
int main(int c, char **v) {
  mc::init(c, v);
  std::cerr.rdbuf(nullptr);
  explore();
  mc::count("allocations failed", nPoints);
  mc::count("failures that left several variables in different stages", nSpecial);
  return mc::finish();
}

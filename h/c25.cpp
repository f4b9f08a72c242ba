// C25: threads on separate variables. PART 0: every statement against itself (the
// first execution in the process, so that lazy initialisation is seen), 1: all
// pairs, 2: three threads and programs of two statements over a short alphabet
#define MC_NO_NEW
#include "all.hpp"
#include "rt25.hpp"
#ifndef PART
#define PART 0
#endif
using namespace al;
using Prog = std::vector<const St *>;
constexpr int MT = 3, ML = 4;
struct Case {
  std::vector<Prog> prog;
  std::vector<int> init;
  int only = -1;
  S *s = nullptr;
  W *w[MT] = {};
  int outcome[MT][ML] = {}; // which statements failed
  int aloneOutcome[MT][ML] = {};
  Snap alone[MT], shared;
  std::string bad;
  int n() const { return int(prog.size()); }
  void clear() {
    for (auto &x : w) {
      delete x;
      x = nullptr;
    }
    delete s;
    s = nullptr;
  }
  void build() {
    clear();
    rt::newCase();
    s = new S;
    for (int t = 0; t < n(); t++)
      w[t] = new W(*s, init[t]);
    rt::endCase();
    std::memset(outcome, 0, sizeof outcome);
  }
  ~Case() { clear(); }
};
long nAcc = 0, nConf = 0, nSched = 0, nClasses = 0, nIncomplete = 0;
void body(void *a, int t) {
  Case &c = *static_cast<Case *>(a);
  if (c.only >= 0 && c.only != t)
    return;
  int k = 0;
  for (auto *s : c.prog[t]) {
    try {
      s->f(*c.w[t]);
    } catch (std::exception &) {
      c.outcome[t][k] = 1;
    }
    ++k;
  }
}
Snap snapS(S &s) {
  Snap o;
  enc(o, s.v), enc(o, s.m), enc(o, s.x), enc(o, s.big), enc(o, s.i), enc(o, s.l), enc(o, s.p), enc(o, s.q);
  o.x.push_back(mc::hd(s.d));
  o.x.push_back(s.k);
  o.cut();
  return o;
}
// compares with the results of running alone
std::string deviates(Case &c) {
  for (int t = 0; t < c.n(); t++) {
    if (std::memcmp(c.outcome[t], c.aloneOutcome[t], sizeof c.outcome[t]))
      return "thread " + std::to_string(t + 1) + ": another success or failure than alone";
    Snap g = snap(*c.w[t]);
    if (!g.eq(c.alone[t]))
      return "thread " + std::to_string(t + 1) + " gets another result than alone: " + diff(g, c.alone[t]);
  }
  if (!snapS(*c.s).eq(c.shared))
    return "a variable that is only read changed";
  return "";
}
bool checkSched(void *a, const char *sched) {
  Case &c = *static_cast<Case *>(a);
  c.bad = deviates(c);
  if (!c.bad.empty()) {
    c.bad += std::string(" (schedule ") + sched + ")";
    return false;
  }
  return true;
}
void runCase(const std::vector<Prog> &prog, const std::vector<int> &init) {
  Case c;
  c.prog = prog;
  c.init = init;
  // all threads, one after the other, recording every access
  c.build();
  c.shared = snapS(*c.s);
  rt::Result r, x;
  rt::record(c.n(), body, &c, r);
  nAcc += r.accesses;
  int outc[MT][ML];
  std::memcpy(outc, c.outcome, sizeof outc);
  Snap got[MT], gs = snapS(*c.s);
  for (int t = 0; t < c.n(); t++)
    got[t] = snap(*c.w[t]);
  long conf = rt::conflicts();
  if (r.race)
    mc::fail(std::string("unsynchronised accesses to the same memory by two threads: ") + r.text);
  // each of them alone
  std::string bad;
  for (int t = 0; t < c.n(); t++) {
    c.build();
    c.only = t;
    rt::record(c.n(), body, &c, x);
    c.only = -1;
    std::memcpy(c.aloneOutcome[t], c.outcome[t], sizeof c.outcome[t]);
    c.alone[t] = snap(*c.w[t]);
    if (!snapS(*c.s).eq(c.shared))
      mc::fail("a variable that is only read changed");
    if (std::memcmp(outc[t], c.aloneOutcome[t], sizeof outc[t]) || !got[t].eq(c.alone[t]))
      bad = "thread " + std::to_string(t + 1) + " gets another result after thread " + std::to_string(t ? t : 2) + " than alone: " + diff(got[t], c.alone[t]);
    mc::state(hash(c.alone[t]));
  }
  if (!bad.empty())
    mc::fail(bad);
  if (!gs.eq(c.shared))
    mc::fail("a variable that is only read changed");
  ++nClasses; // no dependent accesses: every interleaving is equivalent to this one
  ++mc::C.transitions;
  if (conf) {
    // recompute the conflicting accesses (the runs above recorded others)
    c.build();
    rt::record(c.n(), body, &c, r);
    nConf += rt::conflicts();
    bool complete = true;
    long k = rt::explore(
        c.n(), body, &c, mc::C.thorough ? 3 : 2, mc::C.thorough ? 20000 : PART == 1 ? 200 : 1000, [](void *a) { static_cast<Case *>(a)->build(); }, checkSched, r, complete);
    nSched += k;
    mc::C.transitions += k;
    nIncomplete += !complete;
    if (!c.bad.empty())
      mc::fail(c.bad);
  }
}
void one(const std::vector<Prog> &prog, const std::vector<int> &init) {
  mc::run([&] {
    std::string t;
    for (std::size_t k = 0; k < prog.size(); k++) {
      t += (k ? " || from state " : "from state ") + std::to_string(init[k]) + ":";
      for (auto *s : prog[k])
        t += std::string(" ") + s->text + ";";
    }
    return t; }, [&] { runCase(prog, init); });
}
void explore() {
  auto &A = alphabet();
  if (PART == 0) {
    for (auto &s : A)
      for (int i = 0; i < 3; i++)
        one({{&s}, {&s}}, {i, i});
  } else if (PART == 1) {
    for (auto &s : A)
      for (auto &t : A)
        for (int i = 0; i < (mc::C.thorough ? 3 : 1); i++)
          one({{&s}, {&t}}, {i, mc::C.thorough ? (i + 1) % 3 : 0});
  } else {
    Prog B;
    for (auto &s : A)
      for (const char *t : {"w.a = s.v ^ 2.0", "w.a = subset(w.a, w.i)", "w.b = subset(s.v, s.i)", "w.m = subset(s.m, s.i, s.i)", "w.d = at(s.m, 2, 2)", "w.p = w.a", "w.out << s.m << w.p", "w.tc = sinus(w.ta) / w.tb", "w.tb = w.tc", "w.d = li(s.v, s.x, s.v)", "w.a = coca(w.a, w.m, s.v)", "w.a = rep(w.b, 2)"})
        if (std::string(s.text) == t)
          B.push_back(&s);
    for (auto *a : B)
      for (auto *b : B)
        for (auto *d : B) {
          one({{a}, {b}, {d}}, {0, 1, 0});
          one({{a, b}, {d, a}}, {0, 1});
          if (mc::C.thorough)
            for (auto *e : B)
              one({{a, b}, {d, e}}, {1, 0});
        }
  }
}
int main(int c, char **v) {
  mc::init(c, v);
  std::cerr.rdbuf(nullptr);
  explore();
  mc::count("recorded memory accesses", nAcc);
  mc::count("executions without any conflict (one class of interleavings)", nClasses);
  mc::count("conflicting locations explored", nConf);
  mc::count("schedules explored at conflicts", nSched);
  mc::count("cases cut at the bound on schedules", nIncomplete);
  return mc::finish();
}

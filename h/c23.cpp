// C23 (NFILL=3: fill patterns; NFILL=1 under the address sanitizer): every sequence over the alphabet of everything, executed under three fill
// patterns of fresh heap memory, stack and objects, with allocation accounting
// and address checking. PART 0: pairs, 1: deep sequences over a short alphabet
#include "all.hpp"
#ifndef PART
#define PART 0
#endif
using namespace al;
#ifndef NFILL
#define NFILL 3
#endif
__attribute__((noinline)) void scrubStack(unsigned char f) {
  volatile char b[24576];
  std::memset(const_cast<char *>(b), f, sizeof b);
}
struct Res {
  std::vector<std::uint64_t> trace;
  std::vector<bool> thrown;
  std::vector<std::string> what;
  Snap end;
  std::size_t steps = 0;
};
long nThrown = 0, nCut = 0;
Res exec(int init, const std::vector<const St *> &seq, unsigned char fill) {
  Res r;
  unsigned char old = mc::A.fill;
  mc::A.fill = fill;
  {
    scrubStack(fill);
    S s;
    // the objects themselves lie in memory holding the pattern
    std::unique_ptr<W> wp(new W(s, init));
    W &w = *wp;
    for (auto *st : seq) {
      if (total(w) > 200) {
        ++nCut;
        break;
      }
      bool t = false;
      std::string what;
      scrubStack(fill);
      try {
        mc::Track tr;
        st->f(w);
      } catch (std::exception &e) {
        t = true;
        what = e.what();
      }
      ++mc::C.transitions;
      nThrown += t;
      r.thrown.push_back(t);
      r.what.push_back(what);
      r.end = snap(w, false);
      r.trace.push_back(hash(r.end));
      ++r.steps;
    }
    r.end = snap(w);
    r.trace.push_back(hash(r.end));
  }
  mc::A.fill = old;
  return r;
}
void runCase(int init, const std::vector<const St *> &seq) {
  Res r[3];
  const unsigned char F[3] = {0xA5, 0x00, 0xFF};
  for (int k = 0; k < NFILL; k++) {
    long live0 = mc::A.live;
    r[k] = exec(init, seq, F[k]);
    if (mc::A.live != live0)
      mc::fail("memory blocks leaked: " + std::to_string(mc::A.live - live0));
    if (k) {
      if (r[k].thrown != r[0].thrown || r[k].what != r[0].what)
        mc::fail("success or failure depends on what fresh memory contains");
      for (std::size_t i = 0; i < r[0].trace.size(); i++)
        if (r[k].trace[i] != r[0].trace[i])
          mc::fail("the result depends on what fresh memory contains: " + diff(r[k].end, r[0].end) + (i < seq.size() ? std::string(" after ") + seq[i]->text : " at the end"));
    }
  }
  mc::state(r[0].trace.back());
}
void all(int init, const std::vector<const St *> &alph, int depth) {
  std::vector<std::size_t> ix(depth, 0);
  std::vector<const St *> seq(depth);
  for (;;) {
    for (int d = 0; d < depth; d++)
      seq[d] = alph[ix[d]];
    mc::run([&] {
      std::string t = "from state " + std::to_string(init) + ":";
      for (auto *s : seq)
        t += std::string(" ") + s->text + ";";
      return t; }, [&] { runCase(init, seq); });
    int d = depth - 1;
    while (d >= 0 && ++ix[d] == alph.size())
      ix[d--] = 0;
    if (d < 0)
      return;
  }
}
// every tuple of `k` statements repeated `reps` times
[[maybe_unused]] void loops(int init, const std::vector<const St *> &alph, int k, int reps) {
  std::vector<std::size_t> ix(k, 0);
  for (;;) {
    std::vector<const St *> seq;
    for (int j = 0; j < reps; j++)
      for (int d = 0; d < k; d++)
        seq.push_back(alph[ix[d]]);
    mc::run([&] {
      std::string t = std::to_string(reps) + " times from state " + std::to_string(init) + ":";
      for (int d = 0; d < k; d++)
        t += std::string(" ") + seq[d]->text + ";";
      return t; }, [&] { runCase(init, seq); });
    int d = k - 1;
    while (d >= 0 && ++ix[d] == alph.size())
      ix[d--] = 0;
    if (d < 0)
      return;
  }
}
void explore() {
  std::vector<const St *> A, B;
  for (auto &s : alphabet())
    A.push_back(&s);
  const int inits = 3;
#ifdef LOOPS
  for (int i = 0; i < inits; i++)
    loops(i, A, 2, mc::C.thorough ? 60 : 8);
  return;
#endif
  if (PART == 0) {
    for (int i = 0; i < inits; i++)
      all(i, A, mc::C.thorough ? 3 : 2);
  } else {
    for (auto &s : alphabet())
      for (const char *t : {"w.a = w.b", "w.a = w.m", "w.m = w.a", "w.p = w.a", "w.a = w.p", "w.a = w.a + w.b", "w.e = std::move(w.b)", "w.b = w.e", "subset(w.a, w.i) = w.b", "w.a = subset(w.a, w.i)", "w.b = subset(w.a, coca(1, 9))", "w.i = w.a"})
        if (std::string(s.text) == t)
          B.push_back(&s);
    for (int i = 0; i < inits; i++)
      all(i, B, mc::C.thorough ? 6 : 4);
  }
}
int main(int c, char **v) {
  mc::init(c, v);
  std::cerr.rdbuf(nullptr);
  explore();
  mc::count("rejected statements", nThrown);
  mc::count("sequences cut at the size bound", nCut);
  return mc::finish();
}

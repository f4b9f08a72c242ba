// Statement machines over a harness-defined pair of worlds: RW (real objects)
// and MW (plain reference values). A world provides RW(int init), MW(int init),
// and free functions compare(RW &, MW &, const std::string &where),
// std::uint64_t hashM(const MW &), bool tooBig(const MW &).
#pragma once
#include "md.hpp"
namespace mm {
template <class R, class M> struct Stmt {
  const char *text;
  void (*real)(R &);
  void (*model)(M &);
};
#define MST(...)                                                               \
  mm::Stmt<RW, MW> { #__VA_ARGS__, [](RW & w) { __VA_ARGS__; }, [](MW & w) { __VA_ARGS__; } }
#define MST2(name, realCode, ...)                                              \
  mm::Stmt<RW, MW> { name, [](RW & w) { realCode; }, [](MW & w) { __VA_ARGS__; } }
inline long nRej = 0, nCut = 0;
template <class R, class M> void runSeq(int init, const std::vector<const Stmt<R, M> *> &seq) {
  long live0 = mc::A.live;
  {
    R r(init);
    M m(init);
    compare(r, m, "initially");
    std::string ctx;
    for (auto *s : seq) {
      bool ok = true, cut = false;
      try {
        s->model(m);
      } catch (md::Rej &) {
        ok = false;
      } catch (md::Unspec &) {
        cut = true;
      }
      if (cut || tooBig(m)) {
        ++nCut;
        break;
      }
      bool thrown = false;
      std::string what;
      try {
        mc::Track t;
        s->real(r);
      } catch (mc::Violation &) {
        throw;
      } catch (std::exception &e) {
        thrown = true;
        what = e.what();
      }
      ++mc::C.transitions;
      if (thrown == ok)
        mc::fail(std::string("statement ") + s->text + (thrown ? " failed with: " + what : std::string(" was accepted, expected an exception")));
      if (!ok)
        ++nRej;
      compare(r, m, s->text);
      mc::state(hashM(m));
    }
  }
  if (mc::A.live != live0)
    mc::fail("memory blocks leaked: " + std::to_string(mc::A.live - live0));
}
template <class R, class M> void allSeqs(int init, const char *iname, const std::vector<Stmt<R, M>> &al, int depth) {
  std::vector<std::size_t> ix(depth, 0);
  std::vector<const Stmt<R, M> *> seq(depth);
  for (;;) {
    for (int d = 0; d < depth; d++)
      seq[d] = &al[ix[d]];
    mc::run(
        [&] {
          std::string t = std::string("from ") + iname + ":";
          for (auto *s : seq)
            t += std::string(" ") + s->text + ";";
          return t;
        },
        [&] { runSeq<R, M>(init, seq); });
    int d = depth - 1;
    while (d >= 0 && ++ix[d] == al.size())
      ix[d--] = 0;
    if (d < 0)
      return;
  }
}
// every tuple of `k` statements, repeated `reps` times
template <class R, class M> void allLoops(int init, const char *iname, const std::vector<Stmt<R, M>> &al, int k, int reps) {
  std::vector<std::size_t> ix(k, 0);
  for (;;) {
    std::vector<const Stmt<R, M> *> seq;
    for (int j = 0; j < k; j++)
      seq.push_back(&al[ix[j]]);
    mc::run(
        [&] {
          std::string t = std::to_string(reps) + " times from " + iname + ":";
          for (auto *s : seq)
            t += std::string(" ") + s->text + ";";
          return t;
        },
        [&] {
          std::vector<const Stmt<R, M> *> s;
          for (int j = 0; j < reps; j++)
            s.insert(s.end(), seq.begin(), seq.end());
          runSeq<R, M>(init, s);
        });
    int d = k - 1;
    while (d >= 0 && ++ix[d] == al.size())
      ix[d--] = 0;
    if (d < 0)
      return;
  }
}
inline void cmp(const rm::V &got, const rm::V &want, const std::string &what, const std::string &where) {
  if (!rm::eq(got, want))
    mc::fail("after " + where + ": " + what + " is " + rm::str(got) + ", expected " + rm::str(want));
}
} // namespace mm
#define MACHINE_MAIN                                                           \
  int main(int c, char **v) {                                                  \
    mc::init(c, v);                                                            \
    std::cerr.rdbuf(nullptr);                                                  \
    explore();                                                                 \
    mc::count("rejected statements", mm::nRej);                                \
    mc::count("sequences cut at the length bound or at an unspecified value", mm::nCut); \
    return mc::finish();                                                       \
  }

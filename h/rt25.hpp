// Interface of the controlled scheduler (rt25.cpp, not instrumented).
#pragma once
#include <cstddef>
#include <cstdint>
namespace rt {
constexpr int MAXT = 3;
struct Result {
  bool race = false;       // unordered, unprotected conflicting accesses
  bool deadlock = false;
  long accesses = 0;       // recorded accesses
  long visible = 0;        // scheduling points met
  char text[400];
};
// runs body(arg, t) for t in 0..n-1 on threads of their own; order: one after
// the other, recording accesses
void record(int n, void (*body)(void *, int), void *arg, Result &r);
// number of conflicting memory granules and locks found by record()
long conflicts();
// the same under every schedule with at most `bound` preemptions at conflicting
// accesses; reset() is called before each; check() after each: it returns false to stop
long explore(int n, void (*body)(void *, int), void *arg, int bound, long maxSched, void (*reset)(void *), bool (*check)(void *, const char *sched), Result &r, bool &complete);
// all memory comes from arenas: one per thread and one for everything else
void newCase();
void endCase();
} // namespace rt

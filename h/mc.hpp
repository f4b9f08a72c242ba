// Exploration core shared by all harnesses: deterministic enumeration of cases,
// sharding, replay of a single case, allocation accounting / fault injection,
// crash and hang reporting. Knows nothing about ETR.
#pragma once
#include <array>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/time.h>
#include <tuple>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#define MC_POISON(p, n) __asan_poison_memory_region((p), (n))
#define MC_UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
#else
#define MC_POISON(p, n) ((void)0)
#define MC_UNPOISON(p, n) ((void)0)
#endif

namespace mc {

// ---------------------------------------------------------------- allocation
struct AllocState {
  unsigned char fill = 0xA5; // pattern of fresh memory
  long live = 0;             // live blocks allocated while tracking
  bool tracking = false;     // inside the code under test
  std::size_t bytes = 0;     // live bytes
  long count = 0;            // allocations since arm()
  long failAt = -1;          // fail the n-th allocation since arm() (0-based)
  bool armed = false;
  bool failed = false; // the armed failure was delivered
  const char *error = nullptr;
};
inline AllocState A;
struct Hdr {
  std::uint64_t magic;
  std::uint64_t size : 63;
  std::uint64_t tracked : 1;
};
struct Track { // RAII: allocations belong to the code under test
  bool old;
  explicit Track(bool on = true) : old(A.tracking) { A.tracking = on; }
  ~Track() { A.tracking = old; }
};
static_assert(sizeof(Hdr) == 16);
constexpr std::uint64_t kScalar = 0x5ca1ab1e5ca1ab1eull,
                        kArray = 0xa77a7a77a7a77a7aull,
                        kFreed = 0xdeadf4eedeadf4eeull;
inline void *doAlloc(std::size_t n, std::uint64_t kind) {
  if (A.armed) {
    long k = A.count++;
    if (k == A.failAt) {
      A.failed = true;
      throw std::bad_alloc();
    }
  }
  if (n > (std::size_t(1) << 31) || A.bytes + n > (std::size_t(3) << 30))
    throw std::bad_alloc();
  char *raw = static_cast<char *>(std::malloc(n + sizeof(Hdr)));
  if (!raw)
    throw std::bad_alloc();
  Hdr *h = reinterpret_cast<Hdr *>(raw);
  h->magic = kind;
  h->size = n;
  h->tracked = A.tracking;
  std::memset(raw + sizeof(Hdr), A.fill, n);
  MC_POISON(raw, sizeof(Hdr));
  A.live += A.tracking;
  A.bytes += n;
  return raw + sizeof(Hdr);
}
inline void die(const char *what);
inline void doFree(void *p, std::uint64_t kind) {
  if (!p)
    return;
  char *raw = static_cast<char *>(p) - sizeof(Hdr);
  MC_UNPOISON(raw, sizeof(Hdr));
  Hdr *h = reinterpret_cast<Hdr *>(raw);
  if (h->magic != kind) {
    die(h->magic == kScalar || h->magic == kArray
            ? "mismatched new/delete form"
            : (h->magic == kFreed ? "double free"
                                  : "heap block header overwritten or invalid "
                                    "pointer freed"));
  }
  h->magic = kFreed;
  std::memset(p, 0xDD, h->size);
  A.live -= h->tracked;
  A.bytes -= h->size;
  std::free(raw);
}

// ---------------------------------------------------------------- exploration
struct Violation {
  std::string msg;
};
struct Ctl {
  long shard = 0, nshards = 1, only = -1;
  bool thorough = false;
  bool describe = false;
  long idx = -1; // running case number
  volatile long cur = -1;
  long ran = 0, viol = 0, transitions = 0;
  std::unordered_set<std::uint64_t> states; // distinct abstract states/outcomes
  std::vector<std::string> samples;
  std::set<std::string> keys;
  long part = -1; // run only this part (see Part)
  std::map<std::string, long> counters;
  std::string statesFile;
};
inline Ctl C;

inline void rawWrite(const char *s) { (void)!write(1, s, strlen(s)); }
inline void reportDeath(const char *kind) {
  static bool once = false;
  if (once)
    return;
  once = true;
  char b[256];
  std::snprintf(b, sizeof b, "\nDEATH idx=%ld kind=%s\n", (long)C.cur, kind);
  rawWrite(b);
}
inline void die(const char *what) {
  reportDeath(what);
  _exit(97);
}
inline void onSignal(int s) {
  const char *n = s == SIGSEGV   ? "SIGSEGV"
                  : s == SIGFPE  ? "SIGFPE"
                  : s == SIGABRT ? "SIGABRT"
                  : s == SIGBUS  ? "SIGBUS"
                  : s == SIGILL  ? "SIGILL"
                                 : "signal";
  reportDeath(n);
  _exit(96);
}
inline void onTick(int) {
  static long last = -2;
  static int same = 0;
  if (C.cur >= 0 && C.cur == last) {
    if (++same >= 10) {
      reportDeath("hang (case used more than 20s of CPU time)");
      _exit(95);
    }
  } else {
    last = C.cur;
    same = 0;
  }
}
inline std::uint64_t hmix(std::uint64_t h, std::uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}
inline std::uint64_t hd(double d) {
  if (d == 0)
    d = 0;
  if (d != d)
    return 0x7ff8dead;
  std::uint64_t u;
  std::memcpy(&u, &d, 8);
  return u;
}
inline void state(std::uint64_t h) {
  if (C.states.size() < 3000000)
    C.states.insert(h);
}
inline void count(const char *n, long k = 1) { C.counters[n] += k; }

inline std::string oneLine(std::string s) {
  for (auto &c : s)
    if (c == '\n' || c == '\r')
      c = ' ';
  if (s.size() > 900)
    s = s.substr(0, 900) + "...";
  return s;
}
[[noreturn]] inline void fail(const std::string &m) { throw Violation{m}; }
inline void check(bool ok, const char *m) {
  if (!ok)
    fail(m);
}

// Runs one case. desc() is only evaluated when needed.
template <class D, class B> inline void run(D &&desc, B &&body) {
  long i = ++C.idx;
  if (C.only >= 0) {
    if (i != C.only)
      return;
  } else if (i % C.nshards != C.shard)
    return;
  C.cur = i;
  if (C.only >= 0) {
    std::cout << "CASE " << i << " " << oneLine(desc()) << std::endl;
    if (C.describe)
      std::exit(0);
  }
  ++C.ran;
  std::string msg;
  bool bad = false;
  try {
    body();
  } catch (Violation &v) {
    bad = true;
    msg = v.msg;
  } catch (std::exception &e) {
    bad = true;
    msg = std::string("unexpected exception: ") + e.what();
  } catch (...) {
    bad = true;
    msg = "unexpected exception of unknown type";
  }
  A.armed = false;
  A.tracking = false;
  if (bad) {
    ++C.viol;
    if (C.viol <= 25)
      std::cout << "VIOL idx=" << i << " desc=[" << oneLine(desc()) << "] msg=["
                << oneLine(msg) << "]" << std::endl;
  } else if (C.samples.size() < 3 &&
             (C.ran == 1 || C.ran == 100 || C.ran == 5000)) {
    C.samples.push_back(oneLine(desc()));
  }
  C.cur = -1;
}
inline std::string jsonEsc(const std::string &s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if ((unsigned char)c < 32) {
      o += ' ';
    } else
      o += c;
  }
  return o;
}
inline void init(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--shard" && i + 2 < argc) {
      C.shard = atol(argv[++i]);
      C.nshards = atol(argv[++i]);
    } else if (a == "--only" && i + 1 < argc)
      C.only = atol(argv[++i]);
    else if (a == "--describe")
      C.describe = true;
    else if (a == "--states" && i + 1 < argc)
      C.statesFile = argv[++i];
    else if (a == "--thorough")
      C.thorough = true;
    else if (a == "--fill" && i + 1 < argc)
      A.fill = (unsigned char)atoi(argv[++i]);
  }
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_set_death_callback([] { reportDeath("sanitizer report"); });
#endif
  for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL})
    std::signal(s, onSignal);
  std::signal(SIGPROF, onTick);
  itimerval tv{{2, 0}, {2, 0}};
  setitimer(ITIMER_PROF, &tv, nullptr);
}
inline int finish() {
  C.cur = -1;
  if (!C.statesFile.empty())
    if (FILE *f = std::fopen(C.statesFile.c_str(), "wb")) {
      for (auto u : C.states)
        std::fwrite(&u, 8, 1, f);
      std::fclose(f);
    }
  std::ostringstream o;
  o << "SUMMARY {\"cases\":" << (C.idx + 1) << ",\"ran\":" << C.ran
    << ",\"violations\":" << C.viol << ",\"transitions\":" << C.transitions
    << ",\"states\":" << C.states.size() << ",\"counters\":{";
  bool f = true;
  for (auto &[k, v] : C.counters) {
    o << (f ? "" : ",") << "\"" << k << "\":" << v;
    f = false;
  }
  o << "},\"samples\":[";
  f = true;
  for (auto &s : C.samples) {
    o << (f ? "" : ",") << "\"" << jsonEsc(s) << "\"";
    f = false;
  }
  o << "]}";
  std::cout << o.str() << std::endl;
  return C.viol ? 1 : 0;
}

// capture of std::cout / std::cerr
struct Capture {
  std::ostringstream o, e;
  std::streambuf *ob, *eb;
  Capture() : ob(std::cout.rdbuf(o.rdbuf())), eb(std::cerr.rdbuf(e.rdbuf())) {}
  ~Capture() { stop(); }
  void stop() {
    if (ob) {
      std::cout.rdbuf(ob);
      std::cerr.rdbuf(eb);
      ob = eb = nullptr;
    }
  }
};
} // namespace mc

#ifndef MC_NO_NEW
void *operator new(std::size_t n) { return mc::doAlloc(n, mc::kScalar); }
void *operator new[](std::size_t n) { return mc::doAlloc(n, mc::kArray); }
void operator delete(void *p) noexcept { mc::doFree(p, mc::kScalar); }
void operator delete[](void *p) noexcept { mc::doFree(p, mc::kArray); }
void operator delete(void *p, std::size_t) noexcept { mc::doFree(p, mc::kScalar); }
void operator delete[](void *p, std::size_t) noexcept { mc::doFree(p, mc::kArray); }
#endif

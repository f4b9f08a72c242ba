// Runtime behind -fsanitize=thread instrumentation (instead of libtsan): records
// the memory accesses of the threads of one case, finds the conflicting ones, and
// runs the threads under a scheduler that controls every switch at those.
#include "rt25.hpp"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <iostream>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <vector>

extern "C" void *__real_memcpy(void *, const void *, std::size_t);
extern "C" void *__real_memmove(void *, const void *, std::size_t);
extern "C" void *__real_memset(void *, int, std::size_t);
namespace rt {
// containers of the runtime live outside of the arenas
template <class T> struct Mal {
  using value_type = T;
  Mal() {}
  template <class U> Mal(const Mal<U> &) {}
  T *allocate(std::size_t n) { return static_cast<T *>(std::malloc(n * sizeof(T))); }
  void deallocate(T *p, std::size_t) { std::free(p); }
  bool operator==(const Mal &) const { return true; }
};
template <class T> using vec = std::vector<T, Mal<T>>;
static thread_local bool inRt = false;
enum Mode { OFF, RECORD, CONTROL };
static Mode mode = OFF;
static thread_local int tid = -1;
static thread_local int guard = 0; // inside the initialisation of a static
static thread_local char *stLo = nullptr, *stHi = nullptr;
static Result *res = nullptr;

// ---- arenas ------------------------------------------------------------------
struct Arena {
  char *base = nullptr, *cur = nullptr;
  std::size_t cap = 0;
};
static Arena ar[MAXT + 1];
static bool useArena = false;
static std::size_t CAP = std::size_t(64) << 20;
static char *lo = nullptr;
static void setup() {
  if (lo)
    return;
  lo = static_cast<char *>(std::malloc(CAP * (MAXT + 1)));
  for (int i = 0; i <= MAXT; i++)
    ar[i].base = ar[i].cur = lo + i * CAP;
}
void newCase() {
  setup();
  useArena = true;
  for (auto &a : ar)
    a.cur = a.base;
}

// ---- accesses ------------------------------------------------------------------
struct Gran {
  std::uintptr_t key = 0;
  unsigned epoch = 0;
  struct T {
    unsigned char r = 0, w = 0, ar = 0, aw = 0;
    unsigned locks = ~0u;
    void *pc = nullptr, *wpc = nullptr;
  } t[MAXT];
};
constexpr std::size_t NG = 1 << 17;
static Gran *tab = nullptr;
static unsigned epoch = 0;
static long used = 0;
struct Confl {
  std::uintptr_t key;
};
static vec<std::uintptr_t> *confl = nullptr; // sorted on demand
static bool isConfl(std::uintptr_t k) {
  for (auto c : *confl)
    if (c == k)
      return true;
  return false;
}
static void addConfl(std::uintptr_t k) {
  if (!isConfl(k))
    confl->push_back(k);
}
static thread_local unsigned held = 0; // locks held by this thread, as bits
static vec<void *> *lockIds = nullptr;
static unsigned lockBit(void *m) {
  for (std::size_t i = 0; i < lockIds->size(); i++)
    if ((*lockIds)[i] == m)
      return 1u << (i & 31);
  lockIds->push_back(m);
  return 1u << ((lockIds->size() - 1) & 31);
}
static Gran &find(std::uintptr_t k) {
  std::size_t h = (k * 0x9E3779B97F4A7C15ull) >> 40;
  for (;; h++) {
    Gran &g = tab[h & (NG - 1)];
    if (g.epoch != epoch) {
      g = Gran();
      g.key = k;
      g.epoch = epoch;
      if (++used > long(NG) / 2) {
        std::fputs("access table full\n", stderr);
        std::abort();
      }
      return g;
    }
    if (g.key == k)
      return g;
  }
}
static void symbol(void *pc, char *o, std::size_t n) {
  Dl_info i;
  if (dladdr(pc, &i) && i.dli_sname)
    std::snprintf(o, n, "%.90s", i.dli_sname);
  else
    std::snprintf(o, n, "offset 0x%lx", i.dli_fbase ? (unsigned long)((char *)pc - (char *)i.dli_fbase) : 0ul);
}
static bool excluded(const char *p) {
  auto in = [&](const void *o, std::size_t n) { return p >= (const char *)o && p < (const char *)o + n; };
  return in(&std::cerr, sizeof std::cerr) || in(&std::cout, sizeof std::cout) || in(&std::clog, sizeof std::clog);
}
static void yieldPoint();
static void one(std::uintptr_t k, unsigned char m, bool w, bool at, void *pc) {
  if (mode == CONTROL) {
    if (isConfl(k))
      yieldPoint();
    return;
  }
  Gran &g = find(k);
  Gran::T &me = g.t[tid];
  for (int u = 0; u < MAXT; u++)
    if (u != tid) {
      Gran::T &o = g.t[u];
      unsigned char theirs = w ? (o.r | o.w | o.ar | o.aw) : (o.w | o.aw);
      if (!(theirs & m))
        continue;
      unsigned char plain = w ? (o.r | o.w) : o.w;
      bool bothAtomic = at && !(plain & m);
      bool locked = (o.locks & held) != 0;
      addConfl(k);
      if (!bothAtomic && !locked && !res->race) {
        res->race = true;
        char a[100], b[100];
        symbol(pc, a, sizeof a);
        symbol(o.w & m ? o.wpc : o.pc, b, sizeof b);
        std::snprintf(res->text, sizeof res->text, "%s at %s and %s at %s", w ? "write" : "read", a, (o.w | o.aw) & m ? "write" : "read", b);
      }
    }
  if (at)
    (w ? me.aw : me.ar) |= m;
  else {
    (w ? me.w : me.r) |= m;
    me.locks &= held;
    (w ? me.wpc : me.pc) = pc;
  }
}
static void acc(const void *a, std::size_t n, bool w, bool at, void *pc) {
  if (tid < 0 || mode == OFF || guard || inRt)
    return;
  struct In {
    In() { inRt = true; }
    ~In() { inRt = false; }
  } in;
  const char *p = static_cast<const char *>(a);
  if (p >= stLo && p < stHi)
    return;
  if (excluded(p))
    return;
  if (mode == RECORD)
    ++res->accesses;
  std::uintptr_t b = reinterpret_cast<std::uintptr_t>(p), e = b + n;
  while (b < e) {
    std::uintptr_t k = b >> 3;
    unsigned char m = 0;
    while (b < e && (b >> 3) == k)
      m |= 1u << (b++ & 7);
    one(k, m, w, at, pc);
  }
}

// ---- threads -------------------------------------------------------------------
static sem_t go[MAXT], done;
static pthread_t th[MAXT];
static bool started = false;
static void (*job)(void *, int) = nullptr;
static void *jobArg = nullptr;
static bool fin[MAXT];
static void *blockedOn[MAXT];
static int N = 0;
struct Choice {
  int options, taken;
};
static vec<Choice> *path = nullptr;
static std::size_t pos = 0;
static int preempts = 0, bound = 0;
static vec<int> *trace = nullptr;
static sem_t turn[MAXT];
static vec<std::pair<void *, int>> *owner = nullptr; // lock -> thread

static int choose(int n) {
  if (n <= 1)
    return 0;
  if (pos < path->size())
    return (*path)[pos++].taken;
  path->push_back({n, 0});
  ++pos;
  return 0;
}
static int ownerOf(void *m) {
  for (auto &p : *owner)
    if (p.first == m)
      return p.second;
  return -1;
}
static bool enabled(int t) { return !fin[t] && (!blockedOn[t] || ownerOf(blockedOn[t]) < 0); }
static void switchTo(int t, bool wait, int me) {
  trace->push_back(t);
  sem_post(&turn[t]);
  if (wait)
    sem_wait(&turn[me]);
}
static void yieldPoint() {
  if (guard)
    return;
  ++res->visible;
  int me = tid;
  int opts[MAXT], n = 0;
  opts[n++] = me;
  if (preempts < bound)
    for (int t = 0; t < N; t++)
      if (t != me && enabled(t))
        opts[n++] = t;
  int c = choose(n);
  if (opts[c] != me) {
    ++preempts;
    switchTo(opts[c], true, me);
  }
}
static bool dead = false;
static void forced(bool wait) { // the current thread ends or blocks
  int me = tid;
  int opts[MAXT], n = 0;
  for (int t = 0; t < N; t++)
    if (t != me && enabled(t))
      opts[n++] = t;
  if (!n) {
    bool all = true;
    for (int t = 0; t < N; t++)
      all &= fin[t];
    if (!all) {
      dead = true;
      std::puts("\nDEATH idx=-1 kind=deadlock");
      std::fflush(stdout);
      _exit(97);
    }
    sem_post(&done);
    return;
  }
  switchTo(opts[choose(n)], wait, me);
}
static void *worker(void *p) {
  int t = int(reinterpret_cast<std::intptr_t>(p));
  pthread_attr_t at;
  pthread_getattr_np(pthread_self(), &at);
  void *sa;
  std::size_t sz;
  pthread_attr_getstack(&at, &sa, &sz);
  stLo = static_cast<char *>(sa);
  stHi = stLo + sz;
  pthread_attr_destroy(&at);
  for (;;) {
    sem_wait(&go[t]);
    if (mode == CONTROL)
      sem_wait(&turn[t]);
    tid = t;
    held = 0;
    job(jobArg, t);
    if (mode == CONTROL) {
      fin[t] = true;
      forced(false);
      tid = -1;
    } else {
      tid = -1;
      sem_post(&done);
    }
  }
}
static void start() {
  if (started)
    return;
  started = true;
  setup();
  tab = static_cast<Gran *>(std::calloc(NG, sizeof(Gran)));
  confl = new vec<std::uintptr_t>;
  lockIds = new vec<void *>;
  path = new vec<Choice>;
  trace = new vec<int>;
  owner = new vec<std::pair<void *, int>>;
  sem_init(&done, 0, 0);
  for (int i = 0; i < MAXT; i++) {
    sem_init(&go[i], 0, 0);
    sem_init(&turn[i], 0, 0);
    pthread_create(&th[i], nullptr, worker, reinterpret_cast<void *>(std::intptr_t(i)));
  }
}
void endCase() { useArena = false; }
struct NoArena {
  bool o = useArena;
  NoArena() { useArena = false; }
  ~NoArena() { useArena = o; }
};
void record(int n, void (*body)(void *, int), void *arg, Result &r) {
  {
    NoArena na;
    start();
  }
  r = Result();
  r.text[0] = 0;
  res = &r;
  job = body;
  jobArg = arg;
  ++epoch;
  used = 0;
  confl->clear();
  lockIds->clear();
  mode = RECORD;
  for (int t = 0; t < n; t++) {
    sem_post(&go[t]);
    sem_wait(&done);
  }
  mode = OFF;
}
long conflicts() { return long(confl->size()); }
long explore(int n, void (*body)(void *, int), void *arg, int bnd, long maxSched, void (*reset)(void *), bool (*check)(void *, const char *), Result &r, bool &complete) {
  r = Result();
  r.text[0] = 0;
  res = &r;
  job = body;
  jobArg = arg;
  N = n;
  bound = bnd;
  {
    NoArena na;
    path->clear();
  }
  complete = true;
  long runs = 0;
  for (;;) {
    reset(arg);
    pos = 0;
    preempts = 0;
    owner->clear();
    trace->clear();
    for (int t = 0; t < n; t++)
      fin[t] = false, blockedOn[t] = nullptr;
    mode = CONTROL;
    int first = choose(n);
    trace->push_back(first);
    for (int t = 0; t < n; t++)
      sem_post(&go[t]);
    sem_post(&turn[first]);
    sem_wait(&done);
    mode = OFF;
    ++runs;
    char b[200];
    std::size_t k = 0;
    for (std::size_t i = 0; i < trace->size() && k < 190; i++)
      k += std::snprintf(b + k, sizeof b - k, "%s%d", i ? ">" : "", (*trace)[i] + 1);
    b[k] = 0;
    if (!check(arg, b))
      return runs;
    while (!path->empty() && path->back().taken + 1 >= path->back().options)
      path->pop_back();
    if (path->empty())
      return runs;
    path->back().taken++;
    if (runs >= maxSched) {
      complete = false;
      return runs;
    }
  }
}
} // namespace rt

// ---- memory ----------------------------------------------------------------------
static void *aalloc(std::size_t n) {
  rt::setup();
  if (!rt::useArena && rt::tid < 0) {
    if (void *p = std::malloc(n ? n : 1))
      return p;
    throw std::bad_alloc();
  }
  rt::Arena &a = rt::ar[rt::tid < 0 ? rt::MAXT : rt::tid];
  n = (n + 31) & ~std::size_t(15);
  if (n > rt::CAP || std::size_t(a.cur - a.base) + n > rt::CAP)
    throw std::bad_alloc();
  char *p = a.cur;
  *reinterpret_cast<std::size_t *>(p) = n - 16;
  a.cur += n;
  __real_memset(p + 16, 0xA5, n - 16);
  rt::acc(p + 16, n - 16, true, false, __builtin_return_address(0));
  return p + 16;
}
static void afree(void *v) {
  if (!v)
    return;
  char *p = static_cast<char *>(v);
  if (p < rt::lo || p >= rt::lo + rt::CAP * (rt::MAXT + 1)) {
    std::free(v);
    return;
  }
  std::size_t n = reinterpret_cast<std::size_t *>(p)[-2];
  rt::acc(p, n, true, false, __builtin_return_address(0));
}
void *operator new(std::size_t n) { return aalloc(n); }
void *operator new[](std::size_t n) { return aalloc(n); }
void operator delete(void *p) noexcept { afree(p); }
void operator delete[](void *p) noexcept { afree(p); }
void operator delete(void *p, std::size_t) noexcept { afree(p); }
void operator delete[](void *p, std::size_t) noexcept { afree(p); }

// ---- instrumentation -----------------------------------------------------------------
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW_(n)                                                                 \
  void __tsan_read##n(void *a) { rt::acc(a, n, false, false, PC); }            \
  void __tsan_write##n(void *a) { rt::acc(a, n, true, false, PC); }            \
  void __tsan_unaligned_read##n(void *a) { rt::acc(a, n, false, false, PC); }  \
  void __tsan_unaligned_write##n(void *a) { rt::acc(a, n, true, false, PC); }  \
  void __tsan_volatile_read##n(void *a) { rt::acc(a, n, false, false, PC); }   \
  void __tsan_volatile_write##n(void *a) { rt::acc(a, n, true, false, PC); }
RW_(1) RW_(2) RW_(4) RW_(8) RW_(16)
void __tsan_read_range(void *a, unsigned long n) { rt::acc(a, n, false, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { rt::acc(a, n, true, false, PC); }
void __tsan_vptr_read(void **a) { rt::acc(a, 8, false, false, PC); }
void __tsan_vptr_update(void **a, void *n) {
  if (*a != n)
    rt::acc(a, 8, true, false, PC);
}
void __tsan_atomic_thread_fence(int) { std::atomic_thread_fence(std::memory_order_seq_cst); }
void __tsan_atomic_signal_fence(int) {}
#define AT_(n, T)                                                              \
  T __tsan_atomic##n##_load(const volatile T *a, int) {                        \
    rt::acc((void *)a, sizeof(T), false, true, PC);                            \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                               \
  }                                                                            \
  void __tsan_atomic##n##_store(volatile T *a, T v, int) {                     \
    rt::acc((void *)a, sizeof(T), true, true, PC);                             \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                  \
  }                                                                            \
  T __tsan_atomic##n##_exchange(volatile T *a, T v, int) {                     \
    rt::acc((void *)a, sizeof(T), true, true, PC);                             \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                        \
  }                                                                            \
  T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) {                    \
    rt::acc((void *)a, sizeof(T), true, true, PC);                             \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) {                    \
    rt::acc((void *)a, sizeof(T), true, true, PC);                             \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) {                    \
    rt::acc((void *)a, sizeof(T), true, true, PC);                             \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) {                     \
    rt::acc((void *)a, sizeof(T), true, true, PC);                             \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                          \
  }                                                                            \
  T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) {                    \
    rt::acc((void *)a, sizeof(T), true, true, PC);                             \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  bool __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { \
    rt::acc((void *)a, sizeof(T), true, true, PC);                             \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  }                                                                            \
  bool __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { \
    rt::acc((void *)a, sizeof(T), true, true, PC);                             \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  }
AT_(8, unsigned char) AT_(16, unsigned short) AT_(32, unsigned int) AT_(64, unsigned long)
// calls the compiler does not instrument (linked with --wrap)
void *__wrap_memcpy(void *d, const void *s, std::size_t n) {
  rt::acc(s, n, false, false, PC);
  rt::acc(d, n, true, false, PC);
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, std::size_t n) {
  rt::acc(s, n, false, false, PC);
  rt::acc(d, n, true, false, PC);
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, std::size_t n) {
  rt::acc(d, n, true, false, PC);
  return __real_memset(d, c, n);
}
int __real___cxa_guard_acquire(void *);
void __real___cxa_guard_release(void *);
void __real___cxa_guard_abort(void *);
int __wrap___cxa_guard_acquire(void *g) {
  int r = __real___cxa_guard_acquire(g);
  if (r)
    ++rt::guard;
  return r;
}
void __wrap___cxa_guard_release(void *g) {
  --rt::guard;
  __real___cxa_guard_release(g);
}
void __wrap___cxa_guard_abort(void *g) {
  --rt::guard;
  __real___cxa_guard_abort(g);
}
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  using namespace rt;
  if (tid < 0 || guard)
    return __real_pthread_mutex_lock(m);
  if (mode == RECORD) {
    addConfl(reinterpret_cast<std::uintptr_t>(m) >> 3);
    held |= lockBit(m);
    return 0;
  }
  yieldPoint();
  while (ownerOf(m) >= 0) {
    blockedOn[tid] = m;
    forced(true);
  }
  blockedOn[tid] = nullptr;
  owner->push_back({m, tid});
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  using namespace rt;
  if (tid < 0 || guard)
    return __real_pthread_mutex_unlock(m);
  if (mode == RECORD) {
    held &= ~lockBit(m);
    return 0;
  }
  for (std::size_t i = 0; i < owner->size(); i++)
    if ((*owner)[i].first == m) {
      owner->erase(owner->begin() + i);
      break;
    }
  yieldPoint();
  return 0;
}
}

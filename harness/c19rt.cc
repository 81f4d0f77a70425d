#include "c19rt.hh"
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <new>
#include <atomic>
#include <algorithm>

namespace rt
{
  static const size_t ARENA = size_t(64) << 20;
  static const int NA = 5;
  static char * base = 0;
  static size_t used[NA];
  static __thread int own = STATIC;
  static __thread int self = -1;       // worker index while a body runs
  static __thread int locks = 0;
  static __thread char * stackLo = 0, * stackHi = 0;
  struct Acc { uintptr_t a; uint32_t n; uint8_t w, atomic, locked; };
  static Acc * accLog[3]; static size_t nlog[3];
  static const size_t LOGMAX = 1 << 20;
  static long count[3]; static long budget[3];
  static bool active = false, foreignHit = false; static void const * foreignAt = 0;
  static sem_t go[3], back; static volatile bool finished[3];
  static volatile bool blocked[3];

  static void ensure()
  { if (!base) { base = (char *)mmap(0, ARENA * NA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) abort(); } }
  void setOwner(int o) { own = o; }
  int owner() { return own; }
  struct Head { Head * next; int cls; };
  static Head * freeList[NA][40];
  void * alloc(size_t n, size_t al)
  {
    if (own == HARNESS) { void * p = 0; if (al <= 16) p = malloc(n ? n : 1); else if (posix_memalign(&p, al, n)) p = 0; if (!p) abort(); return p; }
    ensure();
    // size-class blocks, 64-byte aligned behind a header; freed blocks return to their own arena
    if (al > 64) abort();
    int c = 6; while ((size_t(1) << c) < n) ++c;
    Head *& fl = freeList[own][c];
    Head * h = fl;
    if (h) fl = h->next;
    else { size_t sz = 64 + (size_t(1) << c); if (used[own] + sz > ARENA) abort(); h = (Head *)(base + ARENA * own + used[own]); used[own] += sz; }
    h->cls = c; h->next = 0;
    return (char *)h + 64;
  }
  void release(void * p)
  {
    if (!p) return;
    if (!(base && (char *)p >= base && (char *)p < base + ARENA * NA)) { free(p); return; }
    Head * h = (Head *)((char *)p - 64); int a = ((char *)p - base) / ARENA;
    h->next = freeList[a][h->cls]; freeList[a][h->cls] = h;
  }
  static int arenaOf(uintptr_t a)
  { if (base && a >= (uintptr_t)base && a < (uintptr_t)base + ARENA * NA) return (a - (uintptr_t)base) / ARENA; return -1; }

  extern "C" char __executable_start, _end;

  static void pause(int me) // give the baton back to the scheduler
  { sem_post(&back); while (sem_wait(&go[me])) {} }

  static inline void access(void const * p, size_t n, bool w, bool atomic)
  {
    int me = self;
    if (me < 0 || !active) return;
    uintptr_t a = (uintptr_t)p;
    if ((char *)p >= stackLo && (char *)p < stackHi) return;
    int ar = arenaOf(a);
    if (ar == T0 + me) return;
    bool global = a >= (uintptr_t)&__executable_start && a < (uintptr_t)&_end;
    if (ar < 0 && !global) return; // harness heap and libraries
    if (ar >= T0 && !locks) { foreignHit = true; foreignAt = p; }
    // a scheduling point before every access to shared memory
    if (budget[me] == 0) pause(me);
    if (budget[me] > 0) --budget[me];
    ++count[me];
    if (nlog[me] < LOGMAX) accLog[me][nlog[me]++] = {a, (uint32_t)n, w, atomic, (uint8_t)(locks > 0)};
  }

  struct Job { std::function<void()> const * f; int i; };
  static Job jobs[3];
  static void * worker(void * q)
  {
    int i = (int)(intptr_t)q;
    pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void * lo; size_t sz; pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
    stackLo = (char *)lo; stackHi = stackLo + sz;
    for (;;) {
      while (sem_wait(&go[i])) {}
      own = T0 + i; locks = 0; self = i;
      (*jobs[i].f)();
      self = -1; own = HARNESS;
      finished[i] = true;
      sem_post(&back);
    }
    return 0;
  }
  static bool started = false;
  static void start()
  {
    if (started) return; started = true;
    sem_init(&back, 0, 0);
    for (int i = 0; i < 3; ++i) { accLog[i] = (Acc *)malloc(LOGMAX * sizeof(Acc)); sem_init(&go[i], 0, 0); pthread_t t; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 4 << 20); pthread_create(&t, &a, worker, (void *)(intptr_t)i); }
  }
  static void slice(int t, long n) // n < 0: to completion
  { budget[t] = n; blocked[t] = false; sem_post(&go[t]); while (sem_wait(&back)) {} }

  Result run(std::vector<std::function<void()>> const & bodies, std::vector<Slice> const & plan)
  {
    start();
    int n = bodies.size(); Result r;
    foreignHit = false;
    for (int i = 0; i < 3; ++i) { count[i] = 0; nlog[i] = 0; finished[i] = i >= n; blocked[i] = false; if (i < n) { jobs[i].f = &bodies[i]; jobs[i].i = i; } }
    active = true;
    for (auto const & s : plan) if (!finished[s.t] && s.n > 0) { slice(s.t, s.n); ++r.switches; }
    int stuck = 0;
    for (;;) {
      bool all = true, moved = false;
      for (int i = 0; i < n; ++i) if (!finished[i]) { all = false; slice(i, -1); ++r.switches; if (finished[i] || !blocked[i]) moved = true; }
      if (all) break;
      stuck = moved ? 0 : stuck + 1;
      if (stuck > 1000) { r.deadlock = true; break; }
    }
    active = false;
    for (int i = 0; i < n; ++i) r.accesses[i] = count[i];
    r.foreign = foreignHit; if (foreignHit) r.where = foreignAt;
    // unsynchronised conflicting accesses
    for (int i = 0; i < n; ++i) {
      bool any = false; for (size_t k = 0; k < nlog[i]; ++k) if (accLog[i][k].w && !accLog[i][k].atomic) { any = true; ++r.sharedWrites; }
      if (!any) continue;
      for (int j = 0; j < n; ++j) if (j != i) {
        std::vector<Acc> o(accLog[j], accLog[j] + nlog[j]);
        std::sort(o.begin(), o.end(), [](Acc const & x, Acc const & y) { return x.a < y.a; });
        for (size_t k = 0; k < nlog[i]; ++k) {
          Acc const & w = accLog[i][k]; if (!w.w || w.atomic) continue;
          auto it = std::lower_bound(o.begin(), o.end(), w.a > 64 ? w.a - 64 : 0, [](Acc const & x, uintptr_t v) { return x.a < v; });
          for (; it != o.end() && it->a < w.a + w.n; ++it) if (it->a + it->n > w.a && !(w.locked && it->locked)) { r.race = true; r.where = (void *)w.a; break; }
          if (r.race) break;
        }
      }
    }
    return r;
  }

  // a lock that would block gives the turn to the other threads instead
  static int lockLoop(int (*tryl)(pthread_mutex_t *), pthread_mutex_t * m, int (*real)(pthread_mutex_t *))
  {
    int me = self;
    if (me < 0 || !active) return real(m);
    while (tryl(m)) { blocked[me] = true; pause(me); }
    blocked[me] = false; ++locks;
    return 0;
  }
}

extern "C" {
  int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
  int __wrap_pthread_mutex_lock(pthread_mutex_t * m) { return rt::lockLoop(pthread_mutex_trylock, m, __real_pthread_mutex_lock); }
  int __wrap_pthread_mutex_unlock(pthread_mutex_t * m) { if (rt::self >= 0 && rt::active && rt::locks > 0) --rt::locks; return __real_pthread_mutex_unlock(m); }

  void * __real_memcpy(void *, void const *, size_t); void * __real_memmove(void *, void const *, size_t); void * __real_memset(void *, int, size_t);
  void * __wrap_memcpy(void * d, void const * s, size_t n) { if (n) { rt::access(s, n, false, false); rt::access(d, n, true, false); } return __real_memcpy(d, s, n); }
  void * __wrap_memmove(void * d, void const * s, size_t n) { if (n) { rt::access(s, n, false, false); rt::access(d, n, true, false); } return __real_memmove(d, s, n); }
  void * __wrap_memset(void * d, int c, size_t n) { if (n) rt::access(d, n, true, false); return __real_memset(d, c, n); }

  void __tsan_init() {}
  void __tsan_func_entry(void *) {}
  void __tsan_func_exit() {}
  #define RW(N) \
    void __tsan_read##N(void * p) { rt::access(p, N, false, false); } void __tsan_write##N(void * p) { rt::access(p, N, true, false); } \
    void __tsan_unaligned_read##N(void * p) { rt::access(p, N, false, false); } void __tsan_unaligned_write##N(void * p) { rt::access(p, N, true, false); } \
    void __tsan_volatile_read##N(void * p) { rt::access(p, N, false, false); } void __tsan_volatile_write##N(void * p) { rt::access(p, N, true, false); }
  RW(1) RW(2) RW(4) RW(8) RW(16)
  void __tsan_read_range(void * p, size_t n) { if (n) rt::access(p, n, false, false); }
  void __tsan_write_range(void * p, size_t n) { if (n) rt::access(p, n, true, false); }
  void __tsan_vptr_update(void ** p, void *) { rt::access(p, 8, true, false); }
  void __tsan_vptr_read(void ** p) { rt::access(p, 8, false, false); }
  #define AT(B, T) \
    T __tsan_atomic##B##_load(T const volatile * a, int) { rt::access((void *)a, sizeof(T), false, true); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##B##_store(T volatile * a, T v, int) { rt::access((void *)a, sizeof(T), true, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_exchange(T volatile * a, T v, int) { rt::access((void *)a, sizeof(T), true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_add(T volatile * a, T v, int) { rt::access((void *)a, sizeof(T), true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_sub(T volatile * a, T v, int) { rt::access((void *)a, sizeof(T), true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_and(T volatile * a, T v, int) { rt::access((void *)a, sizeof(T), true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_or(T volatile * a, T v, int) { rt::access((void *)a, sizeof(T), true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_xor(T volatile * a, T v, int) { rt::access((void *)a, sizeof(T), true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_nand(T volatile * a, T v, int) { rt::access((void *)a, sizeof(T), true, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_strong(T volatile * a, T * c, T v, int, int) { rt::access((void *)a, sizeof(T), true, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_weak(T volatile * a, T * c, T v, int, int) { rt::access((void *)a, sizeof(T), true, true); return __atomic_compare_exchange_n(a, c, v, true, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_compare_exchange_val(T volatile * a, T c, T v, int, int) { rt::access((void *)a, sizeof(T), true, true); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
  AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
  void __tsan_atomic_thread_fence(int) {}
  void __tsan_atomic_signal_fence(int) {}
}

void * operator new(size_t n) { return rt::alloc(n, 16); }
void * operator new[](size_t n) { return rt::alloc(n, 16); }
void * operator new(size_t n, std::align_val_t a) { return rt::alloc(n, (size_t)a); }
void * operator new[](size_t n, std::align_val_t a) { return rt::alloc(n, (size_t)a); }
void operator delete(void * p) noexcept { rt::release(p); }
void operator delete[](void * p) noexcept { rt::release(p); }
void operator delete(void * p, size_t) noexcept { rt::release(p); }
void operator delete[](void * p, size_t) noexcept { rt::release(p); }
void operator delete(void * p, std::align_val_t) noexcept { rt::release(p); }
void operator delete[](void * p, std::align_val_t) noexcept { rt::release(p); }
void operator delete(void * p, size_t, std::align_val_t) noexcept { rt::release(p); }
void operator delete[](void * p, size_t, std::align_val_t) noexcept { rt::release(p); }

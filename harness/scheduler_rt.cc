// Runtime of scheduler.h: the functions called by -fsanitize=thread instrumentation, the scheduler and the race detector.
// This file itself is not instrumented.
#include "scheduler.h"

#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <wchar.h>

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}

namespace {
constexpr int MT = 5;  // the main thread (0) and up to 4 others
constexpr size_t kRegion = 64u << 20;
typedef uint16_t Clk;

struct VC {
  Clk v[MT];
};
sched::Shared *S;
bool g_child = false;
char *g_regions = nullptr;
size_t g_used[MT];

__thread int tl_tid __attribute__((tls_model("initial-exec"))) = 0;
__thread bool tl_on __attribute__((tls_model("initial-exec"))) = false;

[[noreturn]] void stop(int status, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(S->msg, sizeof S->msg, fmt, ap);
  va_end(ap);
  S->status = status;
  _exit(0);
}

// ------------------------------------------------------------------------------------------- memory
struct Block {
  uint64_t size;
  uint64_t freed;
};
bool inRegions(const void *p) { return g_regions && (char *)p >= g_regions && (char *)p < g_regions + kRegion * MT; }
void *bump(size_t n, size_t align) {
  int t = tl_tid;
  size_t at = (g_used[t] + sizeof(Block) + align - 1) & ~(align - 1);
  if (at + n + 16 > kRegion) stop(3, "memory of a thread is used up");
  char *p = g_regions + kRegion * t + at;
  g_used[t] = (at + n + 15) & ~(size_t)15;
  Block *b = (Block *)p - 1;
  b->size = n;
  b->freed = 0;
  return p;
}

// ------------------------------------------------------------------------------------------- race detector
struct Cell {
  uintptr_t key;
  uint8_t freed, threads;  // who ever was here
  // what the last thread here did since it came, at its present clock (to skip what is known already)
  uint8_t last, lastR, lastW;
  Clk lastClk;
  Clk w[8][MT], r[8][MT], aw[8][MT], ar[8][MT];
  uintptr_t wpc;
};
constexpr size_t kCells = 1u << 17;
Cell g_cells[kCells];
size_t g_nCells;
VC g_vc[MT];

Cell &cell(uintptr_t granule) {
  size_t i = ((granule >> 3) + (granule >> 16) * 0x9e3779b9) & (kCells - 1);  // neighbours together
  while (g_cells[i].key && g_cells[i].key != granule) i = (i + 1) & (kCells - 1);
  if (!g_cells[i].key) {
    if (++g_nCells > kCells * 3 / 4) stop(3, "too many memory cells");
    g_cells[i].key = granule;
  }
  return g_cells[i];
}
const char *nameOf(uintptr_t a) {
  static char b[300];
  Dl_info d;
  if (dladdr((void *)a, &d) && d.dli_sname) snprintf(b, sizeof b, "%s", d.dli_sname);
  else if (inRegions((void *)a)) snprintf(b, sizeof b, "heap of thread %d", (int)(((char *)a - g_regions) / kRegion));
  else snprintf(b, sizeof b, "address %#zx", (size_t)a);
  return b;
}
enum Kind { Read, Write, ARead, AWrite, Free };
const char *kindName(Kind k) {
  static const char *n[] = {"read", "write", "atomic read", "atomic write", "release"};
  return n[k];
}
bool before(Clk e, int u, int t) { return e <= g_vc[t].v[u]; }

void access(uintptr_t a, size_t n, Kind k, uintptr_t pc) {
  int t = tl_tid;
  ++S->accesses;
  const Clk now = g_vc[t].v[t];
  for (uintptr_t end = a + n; a < end;) {
    uintptr_t g = a & ~(uintptr_t)7;
    Cell &c = cell(g);
    if (c.freed) {
      S->pc = pc;
      S->pcOther = c.wpc;
      stop(2, "%s of released memory by thread %d (%s)", kindName(k), t, nameOf(a));
    }
    int lo = a & 7, hi = end - g < 8 ? (int)(end - g) : 8;
    uint8_t mask = (uint8_t)((1 << hi) - (1 << lo));
    if (c.last != t || c.lastClk != now) {
      c.last = t;
      c.lastClk = now;
      c.lastR = c.lastW = 0;
    }
    a = g + hi;
    if (k == Write) {
      if (!(mask & ~c.lastW)) continue;
      c.lastW |= mask;
    } else if (k == Read) {
      if (!(mask & ~(c.lastR | c.lastW))) continue;
      c.lastR |= mask;
    }
    c.threads |= 1 << t;
    for (int i = lo; i < hi; ++i) {
      for (int u = 0; u < MT && c.threads != 1 << t; ++u) {
        if (u == t || !(c.threads >> u & 1)) continue;
        bool bad = false;
        const char *what = "";
        auto chk = [&](Clk e, const char *w) {
          if (e && !before(e, u, t)) {
            bad = true;
            what = w;
          }
        };
        chk(c.w[i][u], "write");
        if (k != ARead) {
          if (k != AWrite) chk(c.aw[i][u], "atomic write");
          if (k == Write || k == Free) chk(c.ar[i][u], "atomic read");
          if (k != Read) chk(c.r[i][u], "read");
        }
        if (bad) {
          S->pc = pc;
          S->pcOther = c.wpc;
          stop(2, "data race: %s by thread %d, not ordered with the %s by thread %d, of %s", kindName(k), t, what, u, nameOf(g + i));
        }
      }
      switch (k) {
      case Read: c.r[i][t] = now; break;
      case Write: case Free: c.w[i][t] = now; break;
      case ARead: c.ar[i][t] = now; break;
      case AWrite: c.aw[i][t] = now; break;
      }
    }
    if (k == Write || k == AWrite || k == Free) c.wpc = pc;
    if (k == Free) c.freed = 1;
  }
}

// ------------------------------------------------------------------------------------------- scheduler
sem_t g_sem[MT];
enum State { Absent, Runnable, Blocked, Done };
State g_state[MT];
uintptr_t g_blockedOn[MT];
uint64_t g_ops[MT];
int g_n;  // threads 1..g_n
int g_consecutive, g_lastThread, g_sameSync, g_forced;
uintptr_t g_lastSync;

struct SyncObj {
  uintptr_t a;
  VC vc;
  int owner, count, readers;  // locks
  int once;
  int index;  // 1 + its place in Shared::sync
  bool point;
};
constexpr int kObjs = 8192;
SyncObj g_objs[kObjs];
VC g_fence;

SyncObj &obj(uintptr_t a) {
  size_t i = (a * 0x9e3779b97f4a7c15ULL >> 20) & (kObjs - 1);
  for (int k = 0; g_objs[i].a && g_objs[i].a != a; i = (i + 1) & (kObjs - 1))
    if (++k > kObjs / 2) stop(3, "too many synchronisation objects");
  g_objs[i].a = a;
  return g_objs[i];
}
void join(VC &a, const VC &b) {
  for (int i = 0; i < MT; ++i)
    if (b.v[i] > a.v[i]) a.v[i] = b.v[i];
}
void acquire(uintptr_t a) { join(g_vc[tl_tid], obj(a).vc); }
void release(uintptr_t a, bool keep) {
  SyncObj &o = obj(a);
  if (keep) join(o.vc, g_vc[tl_tid]);
  else o.vc = g_vc[tl_tid];
  if (++g_vc[tl_tid].v[tl_tid] == 0) stop(3, "clock overflow");
}

uint64_t mixHash(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  return h ^ (h >> 33);
}

void switchTo(int t) {
  int me = tl_tid;
  if (t == me) return;
  g_consecutive = 0;
  sem_post(&g_sem[t]);
  if (g_state[me] != Done)
    while (sem_wait(&g_sem[me]) != 0) {}
}
// Chooses the thread to go on. The running one is first if it can.
void decide() {
  int me = tl_tid, cand[MT], n = 0;
  bool can = g_state[me] == Runnable;
  if (can) cand[n++] = me;
  for (int t = 1; t <= g_n; ++t)
    if (t != me && g_state[t] == Runnable) cand[n++] = t;
  if (n == 0) {
    bool all = true;
    for (int t = 1; t <= g_n; ++t) all = all && g_state[t] == Done;
    if (all) {
      sem_post(&g_sem[0]);
      return;
    }
    stop(2, "deadlock: thread %d ends or waits and no other thread can go on", me);
  }
  int k = 0;
  if (n > 1) {
    if (can && ++g_consecutive > 500) {  // a thread that spins lets the others go on
      k = 1;
    } else {
      if (S->nDec >= sched::kMaxDec) stop(3, "too many decisions");
      k = S->nDec < S->nPrefix ? S->prefix[S->nDec] : 0;
      if (k >= n) stop(3, "schedule does not fit: %d of %d at decision %d", k, n, S->nDec);
      uint64_t h = me;
      for (int t = 1; t <= g_n; ++t) h = mixHash(h, g_ops[t] * 8 + g_state[t]);
      S->stateAt[S->nDec] = h;
      S->dec[S->nDec++] = {(uint8_t)k, (uint8_t)n, (uint8_t)can};
    }
  }
  S->trace = mixHash(S->trace, cand[k]);
  switchTo(cand[k]);
}
bool isPoint(uintptr_t a) {
  for (int i = 0; i < S->nPoints; ++i)
    if (S->points[i] == a) return true;
  return false;
}
// To be called before a synchronisation operation on the object at a.
void syncPoint(uintptr_t a, bool readOnly = false) {
  int t = tl_tid;
  ++S->syncs;
  ++g_ops[t];
  // a thread that spins on one object lets the others go on
  if (g_lastSync != a || g_lastThread != t) g_sameSync = 0;
  g_lastSync = a;
  g_lastThread = t;
  if (++g_sameSync > 2000) {
    g_sameSync = 0;
    if (++g_forced > 2000) stop(2, "no progress: thread %d waits for ever", t);
    g_consecutive = 1000;
    decide();
  }
  SyncObj &o = obj(a);
  if (!o.index) {
    if (S->nSync >= sched::kMaxSync) stop(3, "too many synchronisation objects");
    S->sync[S->nSync] = a;
    S->syncMask[S->nSync] = 0;
    o.index = ++S->nSync;
    o.point = isPoint(a);
  }
  int i = o.index - 1;
  S->syncMask[i] |= 1 << t;
  if (!readOnly) S->syncMask[i] |= sched::kWritten;
  if (o.point) decide();
}
void block(uintptr_t a) {
  g_state[tl_tid] = Blocked;
  g_blockedOn[tl_tid] = a;
  decide();
}
void wake(uintptr_t a) {
  for (int t = 1; t <= g_n; ++t)
    if (g_state[t] == Blocked && g_blockedOn[t] == a) g_state[t] = Runnable;
}

struct Enter {
  bool m_live;
  Enter() : m_live(tl_on) { tl_on = false; }
  ~Enter() { tl_on = m_live; }
};

struct Start {
  int tid;
  const std::function<void()> *body;
};
void *threadMain(void *p) {
  Start *s = (Start *)p;
  tl_tid = s->tid;
  while (sem_wait(&g_sem[tl_tid]) != 0) {}
  tl_on = true;
  (*s->body)();
  tl_on = false;
  g_state[tl_tid] = Done;
  decide();
  return nullptr;
}
}  // namespace

namespace sched {
void begin(Shared *s) {
  S = s;
  if (!g_regions) prepare();
  g_child = true;
}
void prepare() {
  g_regions = (char *)mmap(nullptr, kRegion * MT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (g_regions == MAP_FAILED) abort();
}
void run(const std::vector<std::function<void()>> &bodies) {
  g_n = (int)bodies.size();
  if (g_n >= MT) stop(3, "too many threads");
  static Start st[MT];
  static pthread_t th[MT];
  for (int t = 0; t < MT; ++t) {
    sem_init(&g_sem[t], 0, 0);
    memset(&g_vc[t], 0, sizeof g_vc[t]);
    g_vc[t].v[t] = 1;
  }
  g_child = false;  // what the thread library allocates is its own
  for (int t = 1; t <= g_n; ++t) {
    st[t] = {t, &bodies[t - 1]};
    g_state[t] = Runnable;
    if (pthread_create(&th[t], nullptr, threadMain, &st[t])) stop(3, "no thread");
  }
  g_child = true;
  g_state[0] = Done;  // only waits
  decide();
  while (sem_wait(&g_sem[0]) != 0) {}
  g_child = false;
  for (int t = 1; t <= g_n; ++t) pthread_join(th[t], nullptr);
  g_child = true;
}
void fail(const std::string &m) {
  tl_on = false;
  stop(2, "%s", m.c_str());
}
Quiet::Quiet() : m_old(tl_on) { tl_on = false; }
Quiet::~Quiet() { tl_on = m_old; }
}  // namespace sched

#define PC ((uintptr_t)__builtin_return_address(0))
#define ACC(a, n, k)                            \
  do {                                          \
    if (tl_on) {                                \
      Enter enter_;                                  \
      access((uintptr_t)(a), (n), (k), PC);     \
    }                                           \
  } while (0)

extern "C" {
// ------------------------------------------------------------------------------------------- allocation
void *malloc(size_t n) {
  if (!g_child) return __libc_malloc(n);
  return bump(n, 16);
}
void free(void *p) {
  if (!p) return;
  if (!inRegions(p)) {
    if (!tl_on) __libc_free(p);
    return;
  }
  Block *b = (Block *)p - 1;
  if (b->freed && S) stop(2, "memory released twice by thread %d", tl_tid);
  b->freed = 1;
  if (tl_on) {
    Enter e;
    access((uintptr_t)p, b->size, Free, PC);
  }
}
void *calloc(size_t a, size_t b) {
  if (!g_child) return __libc_calloc(a, b);
  return bump(a * b, 16);  // never used before: zero
}
void *realloc(void *p, size_t n) {
  if (!g_child && !inRegions(p)) return __libc_realloc(p, n);
  void *q = malloc(n);
  if (p && inRegions(p)) {
    Block *b = (Block *)p - 1;
    memcpy(q, p, b->size < n ? b->size : n);
    free(p);
  } else if (p) {
    stop(3, "realloc of a foreign block");
  }
  return q;
}
void *memalign(size_t a, size_t n) { return g_child ? bump(n, a < 16 ? 16 : a) : __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) {
  *p = memalign(a, n);
  return *p ? 0 : ENOMEM;
}

// ------------------------------------------------------------------------------------------- plain accesses
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                          \
  void __tsan_read##n(void *a) { ACC(a, n, Read); }                     \
  void __tsan_write##n(void *a) { ACC(a, n, Write); }                   \
  void __tsan_unaligned_read##n(void *a) { ACC(a, n, Read); }           \
  void __tsan_unaligned_write##n(void *a) { ACC(a, n, Write); }         \
  void __tsan_volatile_read##n(void *a) { ACC(a, n, Read); }            \
  void __tsan_volatile_write##n(void *a) { ACC(a, n, Write); }          \
  void __tsan_unaligned_volatile_read##n(void *a) { ACC(a, n, Read); }  \
  void __tsan_unaligned_volatile_write##n(void *a) { ACC(a, n, Write); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void *a, unsigned long n) { ACC(a, n, Read); }
void __tsan_write_range(void *a, unsigned long n) { ACC(a, n, Write); }
void __tsan_vptr_read(void **a) { ACC(a, 8, Read); }
void __tsan_vptr_update(void **a, void *v) {
  if (*a != v) ACC(a, 8, Write);
}

// ------------------------------------------------------------------------------------------- atomics
static bool acq(int mo) { return mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
#define RMW(T, bits, name, op)                                                \
  T __tsan_atomic##bits##_##name(volatile T *a, T v, int mo) {                \
    if (!tl_on) return op(a, v, __ATOMIC_SEQ_CST);                            \
    Enter e;                                                                  \
    syncPoint((uintptr_t)a);                                                  \
    access((uintptr_t)a, sizeof(T), AWrite, PC);                              \
    if (acq(mo)) acquire((uintptr_t)a);                                       \
    T r = op(a, v, __ATOMIC_SEQ_CST);                                         \
    if (rel(mo)) release((uintptr_t)a, true);                                 \
    return r;                                                                 \
  }
#define CAS(T, bits, name)                                                    \
  int __tsan_atomic##bits##_##name(volatile T *a, T *c, T v, int mo, int fmo) { \
    if (!tl_on) return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    Enter e;                                                                  \
    syncPoint((uintptr_t)a);                                                  \
    bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    access((uintptr_t)a, sizeof(T), ok ? AWrite : ARead, PC);                 \
    if (acq(ok ? mo : fmo)) acquire((uintptr_t)a);                            \
    if (ok && rel(mo)) release((uintptr_t)a, true);                           \
    return ok;                                                                \
  }
#define ATOMICS(T, bits)                                                      \
  T __tsan_atomic##bits##_load(const volatile T *a, int mo) {                 \
    if (!tl_on) return __atomic_load_n(a, __ATOMIC_SEQ_CST);                  \
    Enter e;                                                                  \
    syncPoint((uintptr_t)a, true);                                            \
    access((uintptr_t)a, sizeof(T), ARead, PC);                               \
    if (acq(mo)) acquire((uintptr_t)a);                                       \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                              \
  }                                                                           \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) {              \
    if (!tl_on) return __atomic_store_n(a, v, __ATOMIC_SEQ_CST);              \
    Enter e;                                                                  \
    syncPoint((uintptr_t)a);                                                  \
    access((uintptr_t)a, sizeof(T), AWrite, PC);                              \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                 \
    if (rel(mo)) release((uintptr_t)a, false);                                \
    else memset(&obj((uintptr_t)a).vc, 0, sizeof(VC));                        \
  }                                                                           \
  RMW(T, bits, exchange, __atomic_exchange_n)                                 \
  RMW(T, bits, fetch_add, __atomic_fetch_add)                                 \
  RMW(T, bits, fetch_sub, __atomic_fetch_sub)                                 \
  RMW(T, bits, fetch_and, __atomic_fetch_and)                                 \
  RMW(T, bits, fetch_or, __atomic_fetch_or)                                   \
  RMW(T, bits, fetch_xor, __atomic_fetch_xor)                                 \
  RMW(T, bits, fetch_nand, __atomic_fetch_nand)                               \
  CAS(T, bits, compare_exchange_strong)                                       \
  CAS(T, bits, compare_exchange_weak)
ATOMICS(uint8_t, 8)
ATOMICS(uint16_t, 16)
ATOMICS(uint32_t, 32)
ATOMICS(uint64_t, 64)
void __tsan_atomic_thread_fence(int) {
  if (!tl_on) return;
  Enter e;
  join(g_vc[tl_tid], g_fence);
  join(g_fence, g_vc[tl_tid]);
  ++g_vc[tl_tid].v[tl_tid];
}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------------------------------- static initialisation, locks
int __real___cxa_guard_acquire(uint64_t *);
void __real___cxa_guard_release(uint64_t *);
void __real___cxa_guard_abort(uint64_t *);
int __wrap___cxa_guard_acquire(uint64_t *g) {
  if (!tl_on) return __real___cxa_guard_acquire(g);
  Enter e;
  uintptr_t a = (uintptr_t)g;
  syncPoint(a, *(volatile char *)g);
  for (;;) {
    if (*(volatile char *)g) {
      acquire(a);
      return 0;
    }
    if (!obj(a).owner) {
      obj(a).owner = tl_tid;
      return 1;
    }
    if (obj(a).owner == tl_tid) stop(2, "recursive initialisation of a static by thread %d", tl_tid);
    block(a);
  }
}
void __wrap___cxa_guard_release(uint64_t *g) {
  if (!tl_on) return __real___cxa_guard_release(g);
  Enter e;
  uintptr_t a = (uintptr_t)g;
  access(a, 1, AWrite, PC);
  *(volatile char *)g = 1;
  obj(a).owner = 0;
  release(a, true);
  wake(a);
  syncPoint(a);
}
void __wrap___cxa_guard_abort(uint64_t *g) {
  if (!tl_on) return __real___cxa_guard_abort(g);
  Enter e;
  obj((uintptr_t)g).owner = 0;
  wake((uintptr_t)g);
}
static int lockIt(uintptr_t a, bool tryOnly, bool recursive, bool shared) {
  Enter e;
  syncPoint(a);
  for (;;) {
    SyncObj &o = obj(a);
    if (shared && !o.owner) {
      ++o.readers;
      acquire(a);
      return 0;
    }
    if (!shared && !o.owner && !o.readers) {
      o.owner = tl_tid;
      o.count = 1;
      acquire(a);
      return 0;
    }
    if (o.owner == tl_tid && recursive) {
      ++o.count;
      return 0;
    }
    if (tryOnly) return EBUSY;
    if (o.owner == tl_tid) stop(2, "deadlock: thread %d locks a lock it holds", tl_tid);
    block(a);
  }
}
static int unlockIt(uintptr_t a) {
  Enter e;
  SyncObj &o = obj(a);
  if (o.owner == tl_tid) {
    if (--o.count) return 0;
    o.owner = 0;
  } else if (o.readers) {
    --o.readers;
  } else {
    stop(2, "thread %d unlocks a lock it does not hold", tl_tid);
  }
  release(a, true);
  wake(a);
  syncPoint(a);
  return 0;
}
static bool recursiveMutex(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return tl_on ? lockIt((uintptr_t)m, false, recursiveMutex(m), false) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return tl_on ? lockIt((uintptr_t)m, true, recursiveMutex(m), false) : __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return tl_on ? unlockIt((uintptr_t)m) : __real_pthread_mutex_unlock(m); }
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { return tl_on ? lockIt((uintptr_t)m, false, false, true) : __real_pthread_rwlock_rdlock(m); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return tl_on ? lockIt((uintptr_t)m, false, false, false) : __real_pthread_rwlock_wrlock(m); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { return tl_on ? unlockIt((uintptr_t)m) : __real_pthread_rwlock_unlock(m); }
int __real_pthread_once(pthread_once_t *, void (*)());
int __wrap_pthread_once(pthread_once_t *c, void (*f)()) {
  if (!tl_on) return __real_pthread_once(c, f);
  uintptr_t a = (uintptr_t)c;
  {
    Enter e;
    syncPoint(a);
    for (;;) {
      if (*c == 2 || obj(a).once == 2) {
        acquire(a);
        return 0;
      }
      if (obj(a).once == 0) {
        obj(a).once = 1;
        break;
      }
      block(a);
    }
  }
  f();
  Enter e;
  obj(a).once = 2;
  release(a, true);
  wake(a);
  syncPoint(a);
  return 0;
}
int __real_sched_yield();
int __wrap_sched_yield() {
  if (!tl_on) return __real_sched_yield();
  Enter e;
  g_consecutive = 1000;
  decide();
  return 0;
}

// ------------------------------------------------------------------------------------------- C library
#define REAL(ret, name, ...) ret __real_##name(__VA_ARGS__)
REAL(void *, memcpy, void *, const void *, size_t);
REAL(void *, memmove, void *, const void *, size_t);
REAL(void *, memset, void *, int, size_t);
REAL(int, memcmp, const void *, const void *, size_t);
REAL(void *, memchr, const void *, int, size_t);
REAL(size_t, strlen, const char *);
REAL(int, strcmp, const char *, const char *);
REAL(int, strncmp, const char *, const char *, size_t);
REAL(char *, strcpy, char *, const char *);
REAL(char *, strncpy, char *, const char *, size_t);
REAL(char *, strcat, char *, const char *);
REAL(char *, strchr, const char *, int);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) { ACC(s, n, Read); ACC(d, n, Write); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) { ACC(s, n, Read); ACC(d, n, Write); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int v, size_t n) { if (n) ACC(d, n, Write); return __real_memset(d, v, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (n) { ACC(a, n, Read); ACC(b, n, Read); } return __real_memcmp(a, b, n); }
void *__wrap_memchr(const void *a, int v, size_t n) { if (n) ACC(a, n, Read); return __real_memchr(a, v, n); }
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); ACC(s, n + 1, Read); return n; }
int __wrap_strcmp(const char *a, const char *b) { ACC(a, __real_strlen(a) + 1, Read); ACC(b, __real_strlen(b) + 1, Read); return __real_strcmp(a, b); }
int __wrap_strncmp(const char *a, const char *b, size_t n) { ACC(a, strnlen(a, n), Read); ACC(b, strnlen(b, n), Read); return __real_strncmp(a, b, n); }
char *__wrap_strcpy(char *d, const char *s) { size_t n = __real_strlen(s) + 1; ACC(s, n, Read); ACC(d, n, Write); return __real_strcpy(d, s); }
char *__wrap_strncpy(char *d, const char *s, size_t n) { ACC(s, strnlen(s, n), Read); if (n) ACC(d, n, Write); return __real_strncpy(d, s, n); }
char *__wrap_strcat(char *d, const char *s) { size_t n = __real_strlen(s) + 1, k = __real_strlen(d); ACC(s, n, Read); ACC(d, k, Read); ACC(d + k, n, Write); return __real_strcat(d, s); }
char *__wrap_strchr(const char *s, int c) { ACC(s, __real_strlen(s) + 1, Read); return __real_strchr(s, c); }
// text to number: reads the text, writes the end
#define STRTO(ret, name)                                                \
  ret __real_##name(const char *, char **);                             \
  ret __wrap_##name(const char *s, char **e) { ACC(s, __real_strlen(s) + 1, Read); if (e) ACC(e, sizeof *e, Write); return __real_##name(s, e); }
STRTO(double, strtod)
STRTO(float, strtof)
STRTO(long double, strtold)
#define STRTOI(ret, name)                                               \
  ret __real_##name(const char *, char **, int);                        \
  ret __wrap_##name(const char *s, char **e, int b) { ACC(s, __real_strlen(s) + 1, Read); if (e) ACC(e, sizeof *e, Write); return __real_##name(s, e, b); }
STRTOI(long, strtol)
STRTOI(long long, strtoll)
STRTOI(unsigned long, strtoul)
STRTOI(unsigned long long, strtoull)
// number to text: writes the buffer
int __real_vsnprintf(char *, size_t, const char *, va_list);
int __wrap_vsnprintf(char *b, size_t n, const char *f, va_list ap) {
  int r = __real_vsnprintf(b, n, f, ap);
  if (n && r >= 0) ACC(b, (size_t)r + 1 < n ? (size_t)r + 1 : n, Write);
  return r;
}
int __wrap_snprintf(char *b, size_t n, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = __real_vsnprintf(b, n, f, ap);
  va_end(ap);
  if (n && r >= 0) ACC(b, (size_t)r + 1 < n ? (size_t)r + 1 : n, Write);
  return r;
}
int __wrap_vsprintf(char *b, const char *f, va_list ap) {
  int r = __real_vsnprintf(b, 1 << 20, f, ap);
  if (r >= 0) ACC(b, (size_t)r + 1, Write);
  return r;
}
int __wrap_sprintf(char *b, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = __real_vsnprintf(b, 1 << 20, f, ap);
  va_end(ap);
  if (r >= 0) ACC(b, (size_t)r + 1, Write);
  return r;
}
// Functions of the C library with static state of their own.
static char g_hidden[16];
#define HIDDEN(i) ACC(&g_hidden[i], 1, Write)
char *__real_strtok(char *, const char *);
char *__wrap_strtok(char *a, const char *b) { HIDDEN(0); return __real_strtok(a, b); }
char *__real_ecvt(double, int, int *, int *);
char *__wrap_ecvt(double v, int n, int *d, int *s) { HIDDEN(1); return __real_ecvt(v, n, d, s); }
char *__real_fcvt(double, int, int *, int *);
char *__wrap_fcvt(double v, int n, int *d, int *s) { HIDDEN(1); return __real_fcvt(v, n, d, s); }
char *__real_setlocale(int, const char *);
char *__wrap_setlocale(int c, const char *l) { if (l) HIDDEN(2); return __real_setlocale(c, l); }
double __real_drand48();
double __wrap_drand48() { HIDDEN(3); return __real_drand48(); }
char *__real_strerror(int);
char *__wrap_strerror(int n) { HIDDEN(4); return __real_strerror(n); }
double __real_lgamma(double);
double __wrap_lgamma(double v) { HIDDEN(5); return __real_lgamma(v); }
}

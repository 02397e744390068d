// Parallel evaluation under a controlled scheduler.
// TSAN: models/ParallelOpEqual MathEval/* utility/FPECheck
// OBJS: utility/dsAssert
// XFLAGS: -fvisibility=default
//
// The code that runs in the workers (the packets, the function wrappers, the
// functions and the exception flags) is compiled with -fsanitize=thread; this
// file is the run time: it owns every thread, lets one run at a time, decides
// at every synchronization which one goes on, and finds by vector clocks
// conflicting accesses that nothing orders.  Every run is a forked process, so
// each one starts from the same state (no static is initialized).
//
// usage: p14sched split|race|sched|fault BOUND NPARTS PART
#include "MathEval.hh"
#include "MathWrapper.hh"
#include "MathPacket.hh"
#include "ParallelOpEqual.hh"
#include "ScalarData.hh"
#include "FPECheck.hh"
#include "Float128.hh"
#include <cfenv>
#include <chrono>
#include <future>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

//// ------------------------------------------------------------ configuration
static size_t num_threads, task_size;
namespace ThreadInfo {
size_t GetNumberOfThreads() { return num_threads; }
size_t GetMinimumTaskSize() { return task_size; }
}

//// ------------------------------------------------------------ shared record of one run
enum { MAXT = 64, MAXCH = 20000, MAXRES = 4096 };
struct Choice { unsigned char cur, cur_on, chosen, n; unsigned char on[12]; };
struct Run {
  int status;              // 0 not ended, 1 ended, 2 exception
  int nch;
  Choice ch[MAXCH];
  int flags;
  int calls;
  size_t nres;
  unsigned char res[MAXRES];
  char err[400];
  char bad[1000];
  size_t accesses, syncs, threads, left;
};
static Run *run;
static std::vector<int> prefix;
static int fail_create = -1;

static void bad(const char *fmt, const char *a, long b, long c)
{
  if (!run->bad[0]) snprintf(run->bad, sizeof run->bad, fmt, a, b, c);
}

//// ------------------------------------------------------------ scheduler
static bool active;
struct Thr {
  sem_t sem;
  int state;               // 0 unused, 1 runnable, 2 blocked, 3 finished
  void *waitfor;
  unsigned vc[MAXT];
  void *(*start)(void *);
  void *arg;
  pthread_t real;
  void *ret;
};
static Thr thr[MAXT];
static int nthr, created;
static thread_local int me = -1;
struct Sync { unsigned vc[MAXT]; };

//// memory is never used again within a run: no false ordering, and what is
//// freed stays so
static char *arena;
static const size_t ARENA = size_t(16) << 20;
static size_t used[MAXT + 1];
static bool bump;

struct Cell { unsigned char tid, mask, kind; unsigned clk; };   // kind: 0 read, 1 write, 2 atomic read, 3 atomic write, 4 freed
struct Cells { size_t key; unsigned n, cap; Cell *c; Cell own[5]; };
static Cell pool[1 << 16];
static size_t pooled;
enum { SLOTS = 1 << 15 };
static Cells *shadow;
static Cells &cells_of(size_t g)
{
  size_t h = (g ^ (g >> 15)) & (SLOTS - 1);
  for (size_t k = 0; k < SLOTS; ++k, h = (h + 1) & (SLOTS - 1))
  {
    if (shadow[h].key == g) return shadow[h];
    if (!shadow[h].key) { shadow[h].key = g; return shadow[h]; }
  }
  bad("internal: too much memory%s", "", 0, 0);
  _exit(3);
}
static std::map<void *, Sync> *syncs;
static bool inside;        // the runtime itself allocates

static void *sysalloc(size_t n)
{
  void *p = malloc(n ? n : 1);
  if (!p) abort();
  return p;
}
static bool ours(void *p) { return (char *)p >= arena && (char *)p < arena + ARENA * (MAXT + 1); }

static void touch(void *p, size_t n, int kind, void *pc);

void *operator new(size_t n)
{
  if (!bump || inside || me < 0) return sysalloc(n);
  n = (n + 31) & ~size_t(15);
  if (used[me] + n > ARENA) abort();
  char *p = arena + ARENA * me + used[me];
  used[me] += n;
  *(size_t *)p = n - 16;
  return p + 16;
}
void operator delete(void *p) noexcept
{
  if (!p) return;
  if (!ours(p)) { free(p); return; }
  if (active && me >= 0 && !inside) touch(p, ((size_t *)p)[-2], 4, __builtin_return_address(0));
}
void operator delete(void *p, size_t) noexcept { operator delete(p); }

static void choose(bool self_on)
{
  //// pick who goes on
  Choice &c = run->ch[run->nch];
  if (run->nch >= MAXCH) { bad("internal: too many choices%s", "", 0, 0); _exit(3); }
  c.n = 0; c.cur = me; c.cur_on = self_on;
  for (int i = 0; i < nthr; ++i)
    if (thr[i].state == 1 && (i != me || self_on)) { if (c.n < 12) c.on[c.n++] = i; }
  if (c.n == 0) { bad("every thread waits (hang)%s", "", 0, 0); _exit(4); }
  int t = self_on ? me : c.on[0];
  if (run->nch < (int)prefix.size()) t = prefix[run->nch];
  c.chosen = t;
  ++run->nch;
  if (t == me) return;
  int self = me;
  sem_post(&thr[t].sem);
  if (thr[self].state != 3) { while (sem_wait(&thr[self].sem)) {} }
}

static void point() { if (active && me >= 0) { ++run->syncs; choose(true); } }

static void block(void *what)
{
  thr[me].state = 2; thr[me].waitfor = what;
  choose(false);
}
static void wake(void *what)
{
  for (int i = 0; i < nthr; ++i)
    if (thr[i].state == 2 && thr[i].waitfor == what) { thr[i].state = 1; thr[i].waitfor = nullptr; }
}
static void join_vc(unsigned *a, const unsigned *b) { for (int i = 0; i < MAXT; ++i) if (b[i] > a[i]) a[i] = b[i]; }
static Sync &sync_at(void *p) { inside = true; Sync &s = (*syncs)[p]; inside = false; return s; }
static void acquire(void *p) { join_vc(thr[me].vc, sync_at(p).vc); }
static void release(void *p) { join_vc(sync_at(p).vc, thr[me].vc); ++thr[me].vc[me]; }

static void where(void *pc, char *out, size_t n)
{
  snprintf(out, n, "%p", (void *)((char *)pc - 1));
}

static void touch(void *p, size_t n, int kind, void *pc)
{
  if (!active || me < 0 || n == 0) return;
  inside = true;
  ++run->accesses;
  size_t b = (size_t)p, e = b + n;
  for (size_t g = b / 8; g <= (e - 1) / 8; ++g)
  {
    unsigned mask = 0;
    for (int i = 0; i < 8; ++i) if (g * 8 + i >= b && g * 8 + i < e) mask |= 1u << i;
    Cells &cells = cells_of(g);
    unsigned keep = 0;
    for (unsigned i = 0; i < cells.n; ++i)
    {
      Cell c = cells.c[i];
      bool over = c.mask & mask;
      bool ordered = c.tid == me || c.clk <= thr[me].vc[c.tid];
      if (over && c.kind == 4)
      {
        char w[40]; where(pc, w, sizeof w);
        bad("memory that was freed is used @%s", w, 0, 0);
      }
      bool conflict = over && c.tid != me && (c.kind & 1 || c.kind == 4 || kind & 1 || kind == 4) && !(c.kind >= 2 && c.kind <= 3 && kind >= 2 && kind <= 3);
      if (conflict && !ordered)
      {
        char w[40]; where(pc, w, sizeof w);
        bad("threads access the same data and nothing orders them @%s (%ld, %ld)", w, c.tid, me);
      }
      //// what is ordered before a write that covers it cannot conflict where the write does not
      if (ordered && c.kind != 4 && (c.mask & ~mask) == 0 && (kind == 1 || kind == 4 || c.kind == kind)) continue;
      cells.c[keep++] = c;
    }
    cells.n = keep;
    if (!cells.c) { cells.c = cells.own; cells.cap = 5; }
    if (keep == cells.cap)
    {
      if (pooled + 2 * keep > sizeof pool / sizeof pool[0]) { bad("internal: too many accesses%s", "", 0, 0); _exit(3); }
      Cell *c = pool + pooled;
      pooled += 2 * keep;
      memcpy(c, cells.c, keep * sizeof(Cell));
      cells.c = c; cells.cap = 2 * keep;
    }
    cells.c[cells.n++] = Cell{(unsigned char)me, (unsigned char)mask, (unsigned char)kind, thr[me].vc[me]};
  }
  inside = false;
}

static void finish_thread()
{
  thr[me].state = 3;
  wake(&thr[me]);
  choose(false);
}

extern "C" {
static void *trampoline(void *a)
{
  Thr *t = (Thr *)a;
  while (sem_wait(&t->sem)) {}
  me = t - thr;
  t->ret = t->start(t->arg);
  finish_thread();
  me = -1;
  return t->ret;
}

typedef int (*create_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
typedef int (*join_t)(pthread_t, void **);
static create_t real_create;
static join_t real_join;

int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*f)(void *), void *arg)
{
  if (!real_create) real_create = (create_t)dlsym(RTLD_NEXT, "pthread_create");
  if (!active || me < 0) return real_create(out, attr, f, arg);
  if (created++ == fail_create) return EAGAIN;
  if (nthr == MAXT) { bad("internal: too many threads%s", "", 0, 0); _exit(3); }
  int k = nthr++;
  Thr &t = thr[k];
  sem_init(&t.sem, 0, 0);
  t.state = 1; t.start = f; t.arg = arg;
  memcpy(t.vc, thr[me].vc, sizeof t.vc);
  t.vc[k] = 1;
  ++thr[me].vc[me];
  ++run->threads;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, arena + ARENA * k + ARENA / 2, ARENA / 2);
  int r = real_create(&t.real, &at, trampoline, &t);
  if (r) { bad("internal: cannot create a thread%s", "", 0, 0); _exit(3); }
  *out = t.real;
  point();
  return 0;
}

int pthread_join(pthread_t p, void **ret)
{
  if (!real_join) real_join = (join_t)dlsym(RTLD_NEXT, "pthread_join");
  if (!active || me < 0) return real_join(p, ret);
  for (int i = 1; i < nthr; ++i)
    if (thr[i].real == p)
    {
      point();
      while (thr[i].state != 3) block(&thr[i]);
      join_vc(thr[me].vc, thr[i].vc);
    }
  return real_join(p, ret);
}

typedef int (*mutex_t)(pthread_mutex_t *);
#define REAL(type, name) static type r; if (!r) r = (type)dlsym(RTLD_NEXT, name)
static std::set<void *> *held;
int pthread_mutex_lock(pthread_mutex_t *m)
{
  REAL(mutex_t, "pthread_mutex_lock");
  if (!active || me < 0 || inside) return r(m);
  point();
  while (held->count(m)) block(m);
  inside = true; held->insert(m); inside = false;
  acquire(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
  REAL(mutex_t, "pthread_mutex_trylock");
  if (!active || me < 0 || inside) return r(m);
  point();
  if (held->count(m)) return EBUSY;
  inside = true; held->insert(m); inside = false;
  acquire(m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
  REAL(mutex_t, "pthread_mutex_unlock");
  if (!active || me < 0 || inside || !held->count(m)) return r(m);
  release(m);
  inside = true; held->erase(m); inside = false;
  wake(m);
  point();
  return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
  typedef int (*wait_t)(pthread_cond_t *, pthread_mutex_t *);
  REAL(wait_t, "pthread_cond_wait");
  if (!active || me < 0) return r(c, m);
  release(m);
  inside = true; held->erase(m); inside = false;
  wake(m);
  block(c);
  while (held->count(m)) block(m);
  inside = true; held->insert(m); inside = false;
  acquire(m); acquire(c);
  return 0;
}
typedef int (*sig_t_)(pthread_cond_t *);
int pthread_cond_signal(pthread_cond_t *c)
{
  REAL(sig_t_, "pthread_cond_signal");
  if (!active || me < 0) return r(c);
  release(c);
  for (int i = 0; i < nthr; ++i) if (thr[i].state == 2 && thr[i].waitfor == c) { thr[i].state = 1; break; }
  point();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
  REAL(sig_t_, "pthread_cond_broadcast");
  if (!active || me < 0) return r(c);
  release(c);
  wake(c);
  point();
  return 0;
}

int __cxa_guard_acquire(long long *g)
{
  volatile unsigned char *b = (volatile unsigned char *)g;
  if (active && me >= 0) point();
  while (true)
  {
    if (b[0]) { if (active && me >= 0) acquire(g); return 0; }
    if (!b[1]) { b[1] = 1; return 1; }
    if (!(active && me >= 0)) abort();
    block(g);
  }
}
void __cxa_guard_release(long long *g)
{
  volatile unsigned char *b = (volatile unsigned char *)g;
  b[1] = 0; b[0] = 1;
  if (active && me >= 0) { release(g); wake(g); point(); }
}
void __cxa_guard_abort(long long *g)
{
  ((volatile unsigned char *)g)[1] = 0;
  if (active && me >= 0) { release(g); wake(g); point(); }
}

//// ------------------------------------------------------------ what the compiler calls
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void *p) { touch(p, n, 0, PC); } \
  void __tsan_write##n(void *p) { touch(p, n, 1, PC); } \
  void __tsan_unaligned_read##n(void *p) { touch(p, n, 0, PC); } \
  void __tsan_unaligned_write##n(void *p) { touch(p, n, 1, PC); } \
  void __tsan_volatile_read##n(void *p) { touch(p, n, 0, PC); } \
  void __tsan_volatile_write##n(void *p) { touch(p, n, 1, PC); } \
  void __tsan_read##n##_pc(void *p, void *pc) { touch(p, n, 0, pc); } \
  void __tsan_write##n##_pc(void *p, void *pc) { touch(p, n, 1, pc); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { touch(p, n, 0, PC); }
void __tsan_write_range(void *p, size_t n) { touch(p, n, 1, PC); }
void __tsan_vptr_update(void **p, void *v) { touch(p, 8, 1, PC); }
void __tsan_vptr_read(void **p) { touch(p, 8, 0, PC); }
void *p14_memcpy(void *d, const void *s, size_t n) { touch((void *)s, n, 0, PC); touch(d, n, 1, PC); return memmove(d, s, n); }
void *p14_memmove(void *d, const void *s, size_t n) { touch((void *)s, n, 0, PC); touch(d, n, 1, PC); return memmove(d, s, n); }
void *p14_memset(void *d, int c, size_t n) { touch(d, n, 1, PC); return memset(d, c, n); }

static void before(void *p, size_t n, int kind, void *pc, int mo)
{
  if (!active || me < 0) return;
  point();
  touch(p, n, kind, pc);
  if (mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) acquire(p);
}
static void after(void *p, int mo) { if (active && me >= 0 && mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) release(p); }
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *p, int mo) { before((void *)p, bits / 8, 2, PC, mo); return *p; } \
  void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { before((void *)p, bits / 8, 3, PC, mo == __ATOMIC_RELEASE ? __ATOMIC_RELAXED : mo); *p = v; after((void *)p, mo); } \
  T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { before((void *)p, bits / 8, 3, PC, mo); T o = *p; *p = v; after((void *)p, mo); return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { before((void *)p, bits / 8, 3, PC, mo); T o = *p; *p = o + v; after((void *)p, mo); return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { before((void *)p, bits / 8, 3, PC, mo); T o = *p; *p = o - v; after((void *)p, mo); return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { before((void *)p, bits / 8, 3, PC, mo); T o = *p; *p = o & v; after((void *)p, mo); return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { before((void *)p, bits / 8, 3, PC, mo); T o = *p; *p = o | v; after((void *)p, mo); return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { before((void *)p, bits / 8, 3, PC, mo); T o = *p; *p = o ^ v; after((void *)p, mo); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int) { before((void *)p, bits / 8, 3, PC, mo); bool ok = *p == *e; if (ok) *p = v; else *e = *p; after((void *)p, mo); return ok; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int) { before((void *)p, bits / 8, 3, PC, mo); bool ok = *p == *e; if (ok) *p = v; else *e = *p; after((void *)p, mo); return ok; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, int) { before((void *)p, bits / 8, 3, PC, mo); T o = *p; if (o == e) *p = v; after((void *)p, mo); return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { point(); }
void __tsan_atomic_signal_fence(int) {}
}

//// waiting for a future that no join completes
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *a, unsigned v, bool, chrono::seconds, chrono::nanoseconds)
{
  if (active && me >= 0) { while (*(volatile unsigned *)a == v) block(a); acquire(a); return true; }
  abort();
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *a)
{
  if (active && me >= 0) { release(a); wake(a); point(); }
}
}

//// ------------------------------------------------------------ the cases
struct Case {
  int kind;                // 0 function, 1..4 vector/scalar plus/times, 5 counted function
  const char *func;
  int arity, mask;
  bool quad;
  size_t len, threads, task;
  int values, pos;
  int before;              // 0 flags clear, 1 raised in hardware, 2 raised by hand
};

static volatile int calls;
static double counted(double x) { __atomic_fetch_add(&calls, 1, __ATOMIC_RELAXED); return 2 * x + 1; }
static float128 countedq(float128 x) { __atomic_fetch_add(&calls, 1, __ATOMIC_RELAXED); return 2 * x + 1; }
static double (*pick(double))(double) { return counted; }
static float128 (*pick(float128))(float128) { return countedq; }

template <typename T>
static T value(const Case &c, int arg, size_t i)
{
  static const double badv[] = {0, 0, 0.0, -1.0, 800.0, 1e300, 2.5e5, 40.0};
  T v = c.values == 1 ? T(1.5) + T(double(i)) : T(0.3) + T(0.05) * T(double(i)) + T(0.11) * T(arg);
  if (c.values >= 2 && (c.pos == (int)i || c.pos < 0)) v = T(badv[c.values]);
  return v;
}

template <typename T>
static void perform(const Case &c, bool parallel)
{
  num_threads = parallel ? c.threads : 0;
  task_size = parallel ? c.task : 0;
  std::vector<T> result(c.len);
  std::string error;
  if (c.before == 1) feraiseexcept(FE_OVERFLOW);
  if (c.before == 2) FPECheck::raiseFPE(FE_DIVBYZERO);
  if (c.kind == 0 || c.kind == 5)
  {
    std::vector<std::vector<T>> args(c.arity);
    std::vector<T> dvals(c.arity);
    std::vector<const std::vector<T> *> vvals(c.arity);
    for (int a = 0; a < c.arity; ++a)
    {
      dvals[a] = value<T>(c, a, 0);
      if (c.mask >> a & 1)
      {
        for (size_t i = 0; i < c.len; ++i) args[a].push_back(value<T>(c, a, i));
        vvals[a] = &args[a];
      }
    }
    if (c.kind == 5)
    {
      Eqomfp::MathWrapper1<T> w("counted", pick(T(0)));
      error = Eqomfp::MathPacketRun<T>(w, dvals, vvals, result, c.len);
    }
    else
      MathEval<T>::GetInstance().EvaluateMathFunc(c.func, dvals, vvals, error, result, c.len);
  }
  else
  {
    std::vector<T> other(c.len);
    for (size_t i = 0; i < c.len; ++i) { result[i] = T(0.7) + T(double(i)); other[i] = value<T>(c, 0, i); }
    if (c.values == 5) for (auto &x : result) x *= T(1e300);
    typedef ScalarDataHelper::plus_equal<T> P;
    typedef ScalarDataHelper::times_equal<T> M;
    T s = value<T>(c, 0, c.pos > 0 ? c.pos : 0);
    if (c.kind == 1) { SerialVectorVectorOpEqual<P, T> t(result, other, P()); OpEqualRun(t, c.len); }
    if (c.kind == 2) { SerialVectorVectorOpEqual<M, T> t(result, other, M()); OpEqualRun(t, c.len); }
    if (c.kind == 3) { SerialVectorScalarOpEqual<P, T> t(result, s, P()); OpEqualRun(t, c.len); }
    if (c.kind == 4) { SerialVectorScalarOpEqual<M, T> t(result, s, M()); OpEqualRun(t, c.len); }
  }
  active = false;
  run->flags = FPECheck::getFPEFlags() & FPECheck::getFPEMask();
  run->calls = calls;
  run->nres = result.size() * sizeof(T);
  if (run->nres <= MAXRES) for (size_t i = 0; i < result.size(); ++i) memcpy(run->res + i * sizeof(T), &result[i], sizeof(T));
  snprintf(run->err, sizeof run->err, "%s", error.c_str());
}

static void child(const Case &c, bool parallel)
{
  alarm(20);
  FPECheck::ClearFPE();
  me = 0; nthr = 1; thr[0].state = 1; thr[0].vc[0] = 1;
  sem_init(&thr[0].sem, 0, 0);
  syncs = new std::map<void *, Sync>;
  held = new std::set<void *>;
  bump = true;
  active = parallel;
  run->status = 0;
  try
  {
    if (c.quad) perform<float128>(c, parallel); else perform<double>(c, parallel);
    run->status = 1;
  }
  catch (...)
  {
    active = false;
    run->status = 2;
  }
  run->left = 0;
  for (int i = 1; i < nthr; ++i) if (thr[i].state != 3) ++run->left;
  _exit(0);
}

static int go(const Case &c, bool parallel)
{
  run->nch = 0; run->bad[0] = 0; run->err[0] = 0; run->status = 0; run->threads = 0; run->accesses = run->syncs = 0; run->left = 0; run->nres = 0;
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) child(c, parallel);
  int st = 0;
  waitpid(p, &st, 0);
  return st;
}

static size_t configs, schedules, syncpoints, accesses, violations, deepest;

static std::string describe(const Case &c)
{
  char b[300];
  static const char *K[] = {"", "v+=v", "v*=v", "v+=s", "v*=s", "counted"};
  snprintf(b, sizeof b, "%s args=%d vectors=%x %s length=%zu threads=%zu task=%zu values=%d at %d flags=%d", c.kind ? K[c.kind] : c.func, c.arity, c.mask, c.quad ? "extended" : "double",
           c.len, c.threads, c.task, c.values, c.pos, c.before);
  return b;
}

static void report(const Case &c, const std::string &what)
{
  if (++violations > 40) return;
  printf("BAD %s :: %s", describe(c).c_str(), what.c_str());
  printf(" :: schedule");
  for (int i = 0; i < run->nch; ++i) printf(" %d", run->ch[i].chosen);
  printf("\n");
  fflush(stdout);
}

//// bound < 0: only the schedule without preemptions
static void explore(const Case &c, int bound, int fail)
{
  fail_create = -1;
  prefix.clear();
  calls = 0;
  int st = go(c, false);
  if (st || run->status != 1) { report(c, "the serial evaluation ended with " + std::to_string(st) + " " + std::to_string(run->status)); return; }
  static Run ref;
  memcpy(&ref, run, sizeof ref - 0);
  ++configs;
  fail_create = fail;
  std::vector<int> pre;
  while (true)
  {
    prefix = pre;
    st = go(c, true);
    ++schedules;
    syncpoints += run->syncs;
    accesses += run->accesses;
    if ((size_t)run->nch > deepest) deepest = run->nch;
    if (run->bad[0]) { report(c, run->bad); return; }
    if (st) { report(c, "the run ended with status " + std::to_string(st)); return; }
    if (run->status == 0) { report(c, "the run did not end"); return; }
    if (run->left) { report(c, std::to_string(run->left) + " threads are left running"); return; }
    if (run->status == 2)
    {
      if (fail < 0 || (int)run->threads < fail) { report(c, "an exception is thrown"); return; }
    }
    else
    {
      if (run->nres != ref.nres || memcmp(run->res, ref.res, ref.nres < MAXRES ? ref.nres : MAXRES)) { report(c, "values differ from those of the serial evaluation"); return; }
      if (run->flags != ref.flags) { report(c, "floating point exceptions are " + FPECheck::getFPEString(run->flags) + " instead of " + FPECheck::getFPEString(ref.flags)); return; }
      if (strcmp(run->err, ref.err)) { report(c, std::string("the error is ") + run->err + " instead of " + ref.err); return; }
      if (run->calls != ref.calls) { report(c, "the function is called " + std::to_string(run->calls) + " times instead of " + std::to_string(ref.calls)); return; }
    }
    if (bound < 0) return;
    //// next schedule: the last choice with an alternative left within the bound
    std::vector<Choice> ch(run->ch, run->ch + run->nch);
    std::vector<int> pb(ch.size() + 1, 0);
    for (size_t i = 0; i < ch.size(); ++i) pb[i + 1] = pb[i] + (ch[i].cur_on && ch[i].chosen != ch[i].cur);
    bool more = false;
    for (int i = (int)ch.size() - 1; i >= 0 && !more; --i)
    {
      //// order of the alternatives: the default, then the others by number
      std::vector<int> alt;
      int def = ch[i].cur_on ? ch[i].cur : ch[i].on[0];
      alt.push_back(def);
      for (int j = 0; j < ch[i].n; ++j) if (ch[i].on[j] != def) alt.push_back(ch[i].on[j]);
      size_t at = 0;
      while (at < alt.size() && alt[at] != ch[i].chosen) ++at;
      for (size_t k = at + 1; k < alt.size(); ++k)
      {
        if (pb[i] + (ch[i].cur_on && alt[k] != ch[i].cur) > bound) continue;
        pre.clear();
        for (int j = 0; j < i; ++j) pre.push_back(ch[j].chosen);
        pre.push_back(alt[k]);
        more = true;
        break;
      }
    }
    if (!more) return;
  }
}

struct Fn { const char *name; int arity; };
static const Fn FN[] = {
  {"abs", 1}, {"exp", 1}, {"log", 1}, {"B", 1}, {"dBdx", 1}, {"step", 1}, {"sgn", 1}, {"acosh", 1}, {"asinh", 1}, {"atanh", 1}, {"cosh", 1}, {"sinh", 1}, {"tanh", 1},
  {"erf", 1}, {"erfc", 1}, {"erf_inv", 1}, {"erfc_inv", 1}, {"derfdx", 1}, {"derfcdx", 1}, {"derf_invdx", 1}, {"derfc_invdx", 1}, {"Fermi", 1}, {"dFermidx", 1}, {"InvFermi", 1}, {"dInvFermidx", 1},
  {"!", 1}, {"vec_sum", 1}, {"vec_max", 1}, {"vec_min", 1},
  {"gfi", 2}, {"dgfidx", 2}, {"igfi", 2}, {"digfidx", 2}, {"min", 2}, {"max", 2}, {"&&", 2}, {"||", 2}, {"==", 2}, {"!=", 2}, {"<", 2}, {"<=", 2}, {">", 2}, {">=", 2}, {"pow", 2},
  {"ifelse", 3}, {"kahan3", 3}, {"dot2d", 4}, {"kahan4", 4}};

int main(int argc, char **argv)
{
  if (argc < 5) return 2;
  std::string mode = argv[1];
  int bound = atoi(argv[2]), nparts = atoi(argv[3]), part = atoi(argv[4]);
  bool deep = argc > 5;
  run = (Run *)mmap(nullptr, sizeof(Run), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  arena = (char *)mmap(nullptr, ARENA * (MAXT + 1), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  shadow = (Cells *)mmap(nullptr, sizeof(Cells) * SLOTS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  size_t k = 0;
  auto mine = [&]() { return (int)(k++ % nparts) == part; };
  if (mode == "split")
  {
    //// every length, number of threads and task size
    size_t top = deep ? 48 : 26;
    for (int kind : {5, 1})
      for (size_t len = 0; len <= top; ++len)
        for (size_t t : {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 25, 1000})
          for (size_t task : std::set<size_t>{0, 1, 2, len ? len - 1 : 0, len, len + 1})
          {
            if (t > 25 && task) continue;
            Case c = {kind, "", 1, 1, (len + t) % 5 == 0, len, t, task, 0, -1, 0};
            if (mine()) explore(c, -1, -1);
          }
  }
  else if (mode == "race")
  {
    //// every function on every combination of vector and scalar arguments
    for (auto &f : FN)
      for (int mask = 1; mask < 1 << f.arity; ++mask)
        for (int q = 0; q < 2; ++q)
          for (size_t len : deep ? std::vector<size_t>{1, 2, 3, 4, 5, 6, 7, 9} : std::vector<size_t>{2, 3, 5})
            for (size_t t : deep ? std::vector<size_t>{2, 3, 4, 5} : std::vector<size_t>{2, 3})
              for (int v = 0; v < 8; ++v)
                for (int pos = -1; pos < (v < 2 ? 0 : (int)len); ++pos)
                {
                  if (!deep && v >= 2 && f.arity > 2 && (v > 4 || pos > 1)) continue;
                  if (!deep && v >= 2 && pos == 1 && len > 2) continue;
                  Case c = {0, f.name, f.arity, mask, !!q, len, t, 0, v, pos, 0};
                  if (mine()) explore(c, -1, -1);
                }
    for (int kind = 1; kind <= 4; ++kind)
      for (int q = 0; q < 2; ++q)
        for (size_t len = 1; len <= 7; ++len)
          for (size_t t = 2; t <= 4; ++t)
            for (int v : {0, 1, 2, 5})
              for (int before = 0; before < 3; ++before)
              {
                Case c = {kind, "", 1, 1, !!q, len, t, 0, v, -1, before};
                if (mine()) explore(c, -1, -1);
              }
  }
  else if (mode == "sched" || mode == "fault")
  {
    std::vector<Case> cs;
    for (int q = 0; q < 2; ++q)
      for (int t = 2; t <= 3; ++t)
      {
        size_t len = t;
        for (auto f : {Fn{"log", 1}, Fn{"B", 1}, Fn{"exp", 1}, Fn{"Fermi", 1}, Fn{"erfc_inv", 1}, Fn{"gfi", 2}, Fn{"igfi", 2}, Fn{"pow", 2}, Fn{"ifelse", 3}, Fn{"dot2d", 4}})
          for (int v : {0, 3, 4})
            for (int before = 0; before < (v == 3 && f.arity == 1 ? 3 : 1); ++before)
            {
              if (v == 4 && f.arity > 1) continue;
              cs.push_back(Case{0, f.name, f.arity, (1 << f.arity) - 1, !!q, len, (size_t)t, 0, v, before ? 0 : (int)len - 1, before});
            }
        for (int kind = 1; kind <= 5; ++kind)
          cs.push_back(Case{kind, "", 1, 1, !!q, len, (size_t)t, 0, kind == 5 ? 0 : 5, -1, kind % 3});
      }
    for (auto &c : cs)
    {
      if (mode == "fault")
      {
        for (int f = 0; f < (int)c.threads; ++f)
          if (mine()) explore(c, c.threads > 2 ? bound : bound + 1, f);
      }
      else if (mine()) explore(c, c.threads > 2 ? bound : bound + 1, -1);
    }
  }
  printf("S configs %zu schedules %zu syncs %zu accesses %zu deepest %zu violations %zu\n", configs, schedules, syncpoints, accesses, deepest, violations);
  return 0;
}

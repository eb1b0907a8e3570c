// Scheduler, happens-before detection and the instrumentation runtime. This file itself is not instrumented.
#include "baton.h"
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" { // what the wrapped functions are
int __real_memcmp(void const *, void const *, size_t);
int __real_bcmp(void const *, void const *, size_t);
void *__real_memchr(void const *, int, size_t);
size_t __real_strlen(char const *);
int __real_strcmp(char const *, char const *);
int __real_strcasecmp(char const *, char const *);
int __real_strncasecmp(char const *, char const *, size_t);
int __real_strncmp(char const *, char const *, size_t);
void *__real_memcpy(void *, void const *, size_t);
void *__real_memmove(void *, void const *, size_t);
void *__real_memset(void *, int, size_t);
size_t __real_strftime(char *, size_t, char const *, struct tm const *);
struct tm *__real_localtime_r(time_t const *, struct tm *);
struct tm *__real_gmtime_r(time_t const *, struct tm *);
struct tm *__real_localtime(time_t const *);
struct tm *__real_gmtime(time_t const *);
char *__real_ctime(time_t const *);
char *__real_asctime(struct tm const *);
char *__real_strtok(char *, char const *);
char *__real_getenv(char const *);
int __real_setenv(char const *, char const *, int);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, void const *, size_t);
ssize_t __real_pread(int, void *, size_t, off_t);
ssize_t __real_pwrite(int, void const *, size_t, off_t);
char *__real_realpath(char const *, char *);
char *__real_getcwd(char *, size_t);
int __real_stat(char const *, struct stat *);
int __real_lstat(char const *, struct stat *);
int __real_fstat(int, struct stat *);
char *__real_strncpy(char *, char const *, size_t);
char *__real_strcpy(char *, char const *);
void *__libc_malloc(size_t n);
void __libc_free(void *p);
void *__libc_realloc(void *p, size_t n);
void *__libc_calloc(size_t k, size_t n);
void *__libc_memalign(size_t a, size_t n);
}

using namespace sim;

namespace sim { // the allocation seam of the other groups is not used here
Ledger g_ledger{};
volatile bool g_in_sut = false;
long g_alloc_countdown = -1, g_alloc_fired = 0, g_alloc_seen = 0;
bool g_alloc_sticky = false;
void ledger_reset() { g_ledger = Ledger{}; }
long ledger_size(void const *) { return -1; }
void *ledger_containing(void const *, long &) { return nullptr; }
bool alloc_should_fail() { return false; }
} // namespace sim

namespace sched {
Stats g_stats;
namespace {
constexpr int T          = MAX_THREADS;
constexpr uint32_t FREED = 1;

struct Clock {
  uint32_t c[T] = {0};
  void
  join(Clock const &o)
  {
    for (int k = 0; k < T; ++k) c[k] = c[k] > o.c[k] ? c[k] : o.c[k];
  }
};

struct Thread {
  pthread_t handle;
  int futex        = 0;
  bool done        = false;
  bool blocked     = false;
  void *wait_on    = nullptr;
  Clock vc;
  std::function<void()> const *body = nullptr;
  int op           = 0;
  char const *what = "";
  long alloc_left  = -1;
  bool alloc_fail  = false;
};
Thread g_th[T];
int g_n       = 0;
int g_running = -1;
int g_main    = 0; ///< futex of the one that waits for all
Run *g_run    = nullptr;
uint32_t g_quantum;
uint32_t g_switches_left;
unsigned g_mode;
uint32_t g_mean;
int g_stalled = -1;
uint64_t g_order; ///< hash of the interleaving

__thread int t_self  = -1;
__thread int t_pause = 0;

// ---------------------------------------------------------------- shadow memory
struct Cell {
  uint32_t w[T], r[T]; ///< (clock << 1) | atomic
};
struct Granule {
  Cell b[8];
  void *wpc[T], *rpc[T];
  uint16_t wop[T], rop[T];
};
constexpr size_t INDEX = 1u << 18, GRANULES = 1u << 17;
struct Slot {
  uintptr_t key;
  uint32_t at;
};
Slot *g_index;
Granule *g_gran;
uint32_t g_used;

void
shadow_init()
{
  if (!g_index) {
    int flags = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE;
    g_index   = static_cast<Slot *>(mmap(nullptr, INDEX * sizeof(Slot), PROT_READ | PROT_WRITE, flags, -1, 0));
    g_gran    = static_cast<Granule *>(mmap(nullptr, GRANULES * sizeof(Granule), PROT_READ | PROT_WRITE, flags, -1, 0));
  } else {
    madvise(g_index, INDEX * sizeof(Slot), MADV_DONTNEED);
    madvise(g_gran, GRANULES * sizeof(Granule), MADV_DONTNEED);
  }
  g_used = 0;
}

Granule *
granule(uintptr_t key, bool make)
{
  // Neighbours are put together, so that few pages are used.
  size_t h = ((key >> 6) * 0x9e3779b97f4a7c15ull >> 40 << 6) + (key & 63);
  for (size_t i = h & (INDEX - 1);; i = (i + 1) & (INDEX - 1)) {
    if (g_index[i].key == key) return g_gran + g_index[i].at;
    if (!g_index[i].key) {
      if (!make || g_used >= GRANULES - 1) return nullptr;
      g_index[i] = {key, g_used++};
      return g_gran + g_index[i].at;
    }
  }
}

std::string
where(void *pc)
{
  Dl_info di;
  char const *p = static_cast<char const *>(pc) - 1;
  if (dladdr(p, &di) && di.dli_sname) {
    int st       = 0;
    char *d      = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
    std::string s = st == 0 && d ? d : di.dli_sname;
    free(d);
    if (s.size() > 160) s = s.substr(0, 160) + "...";
    return s;
  }
  return "?";
}

[[noreturn]] void
race(Granule const &g, int other, bool other_write, bool write, void *pc, size_t size)
{
  ++t_pause;
  Thread &me = g_th[t_self], &ot = g_th[other];
  std::string a = where(pc), b = where(other_write ? g.wpc[other] : g.rpc[other]);
  g_run->fail("race", "data race: thread %d %s %zu bytes in %s (operation %d, %s), thread %d %s the same memory in %s (operation %d), without synchronisation",
              t_self, write ? "writes" : "reads", size, a.c_str(), me.op, me.what, other, other_write ? "wrote" : "read", b.c_str(),
              other_write ? g.wop[other] : g.rop[other]);
  (void)ot;
}

void preempt(unsigned cost);

void
access(void const *addr, size_t size, bool write, bool atomic, void *pc, bool may_preempt = true)
{
  if (t_self < 0 || t_pause) return;
  ++t_pause; // nothing done here is observed
  ++g_stats.accesses;
  Thread &me   = g_th[t_self];
  uint32_t now = me.vc.c[t_self] << 1 | (atomic ? 1 : 0);
  uintptr_t a  = reinterpret_cast<uintptr_t>(addr);
  while (size) {
    unsigned off = a & 7;
    unsigned n   = size < 8 - off ? size : 8 - off;
    Granule *g   = granule(a >> 3, true);
    if (!g) break;
    for (unsigned k = off; k < off + n; ++k) {
      Cell &c = g->b[k];
      uint32_t &mine = write ? c.w[t_self] : c.r[t_self];
      if (mine == now) continue;
      for (int o = 0; o < g_n; ++o) {
        if (o == t_self) continue;
        uint32_t seen = me.vc.c[o];
        if ((c.w[o] >> 1) > seen && !(atomic && (c.w[o] & 1))) race(*g, o, true, write, pc, size);
        if (write && (c.r[o] >> 1) > seen && !(atomic && (c.r[o] & 1))) race(*g, o, false, write, pc, size);
      }
      if (!(atomic && (mine >> 1) == (now >> 1))) mine = now; // a plain access of the same time is kept
    }
    if (write) {
      g->wpc[t_self] = pc, g->wop[t_self] = me.op;
    } else {
      g->rpc[t_self] = pc, g->rop[t_self] = me.op;
    }
    a    += n;
    size -= n;
  }
  --t_pause;
  if (may_preempt) preempt(1);
}

/// Memory that gets a new life.
void
forget(void *addr)
{
  if (t_self < 0) return;
  size_t size = malloc_usable_size(addr);
  ++t_pause;
  uintptr_t a = reinterpret_cast<uintptr_t>(addr);
  for (uintptr_t k = a >> 3; k <= (a + size - 1) >> 3; ++k) {
    if (Granule *g = granule(k, false)) __real_memset(static_cast<void *>(g), 0, sizeof(*g));
  }
  --t_pause;
}

/// Memory that ends its life: as if written, where it was used.
void
ends(void *addr, void *pc)
{
  if (t_self < 0 || t_pause || !addr) return;
  size_t size = malloc_usable_size(addr);
  uintptr_t a = reinterpret_cast<uintptr_t>(addr);
  for (uintptr_t k = a >> 3; k <= (a + size - 1) >> 3; ++k) {
    ++t_pause;
    Granule *g = granule(k, false);
    --t_pause;
    if (g) access(reinterpret_cast<void *>(k << 3), 8, true, false, pc, false);
  }
}

// ---------------------------------------------------------------- synchronisation objects
struct Sync {
  void *addr;
  Clock vc;
  int owner    = -1; ///< exclusive holder, or thread that initialises
  int readers  = 0;
};
Sync g_sync[4096];
int g_n_sync;

Sync &
sync_of(void *addr)
{
  for (int k = 0; k < g_n_sync; ++k) {
    if (g_sync[k].addr == addr) return g_sync[k];
  }
  if (g_n_sync == 4096) abort();
  g_sync[g_n_sync]      = Sync{};
  g_sync[g_n_sync].addr = addr;
  return g_sync[g_n_sync++];
}

void
acquire(void *addr)
{
  if (t_self < 0) return;
  ++t_pause;
  ++g_stats.syncs;
  g_th[t_self].vc.join(sync_of(addr).vc);
  --t_pause;
}
void
release(void *addr)
{
  if (t_self < 0) return;
  ++t_pause;
  ++g_stats.syncs;
  Thread &me = g_th[t_self];
  sync_of(addr).vc.join(me.vc);
  ++me.vc.c[t_self];
  --t_pause;
}

// ---------------------------------------------------------------- scheduling
void
futex_wait(int *f)
{
  while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) {
    syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
  __atomic_store_n(f, 0, __ATOMIC_RELEASE);
}
void
futex_wake(int *f)
{
  __atomic_store_n(f, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void
new_quantum()
{
  if (g_switches_left == 0) {
    g_quantum = 100000; // spinning must not last forever
    return;
  }
  --g_switches_left;
  g_quantum = 1 + g_run->small(g_mean);
}

/// Thread to run next, -1 if there is none.
int
choose()
{
  int cand[T], n = 0;
  for (int k = 0; k < g_n; ++k) {
    if (!g_th[k].done && !g_th[k].blocked && k != g_stalled) cand[n++] = k;
  }
  if (n == 0 && g_stalled >= 0 && !g_th[g_stalled].done && !g_th[g_stalled].blocked) {
    return g_stalled; // the stall ends when nothing else can run
  }
  if (n == 0) return -1;
  int k = n == 1 ? 0 : g_run->pick(n);
  return cand[k];
}

void
give_to(int next)
{
  int from = t_self;
  if (next == from) return;
  ++g_stats.switches;
  g_order = mix(g_order, uint64_t(next) << 32 | g_th[next].op << 8 | (from >= 0 ? g_th[from].op : 0));
  g_run->state(g_order);
  g_running = next;
  futex_wake(&g_th[next].futex);
}

/// Let another thread run if it is time.
void
preempt(unsigned cost)
{
  if (t_self < 0 || t_pause) return;
  if (g_quantum > cost) {
    g_quantum -= cost;
    return;
  }
  ++t_pause;
  int next = choose();
  new_quantum();
  g_run->log("at operation %d of thread %d to thread %d for %u", g_th[t_self].op, t_self, next, g_quantum);
  if (next >= 0 && next != t_self) {
    give_to(next);
    futex_wait(&g_th[t_self].futex);
  }
  --t_pause;
}

/// The current thread cannot continue until @a addr is released.
void
block_on(void *addr)
{
  ++t_pause;
  ++g_stats.blocked;
  Thread &me = g_th[t_self];
  me.blocked = true;
  me.wait_on = addr;
  int next   = choose();
  if (next < 0) {
    g_run->fail("deadlock", "all threads wait, thread %d in operation %d (%s)", t_self, me.op, me.what);
  }
  new_quantum();
  g_run->log("thread %d waits in operation %d, to thread %d for %u", t_self, me.op, next, g_quantum);
  give_to(next);
  futex_wait(&me.futex);
  --t_pause;
}
void
unblock(void *addr)
{
  for (int k = 0; k < g_n; ++k) {
    if (g_th[k].blocked && g_th[k].wait_on == addr) g_th[k].blocked = false;
  }
}

void *
thread_main(void *arg)
{
  int n = int(reinterpret_cast<intptr_t>(arg));
  futex_wait(&g_th[n].futex);
  t_self  = n;
  t_pause = 0;
  (*g_th[n].body)();
  t_self         = -1;
  g_th[n].done   = true;
  int next       = choose();
  if (next < 0) {
    for (int k = 0; k < g_n; ++k) {
      if (!g_th[k].done) g_run->fail("deadlock", "thread %d waits in operation %d (%s) and nothing else runs", k, g_th[k].op, g_th[k].what);
    }
    futex_wake(&g_main);
    return nullptr;
  }
  new_quantum();
  g_run->log("thread %d is done, to thread %d for %u", n, next, g_quantum);
  give_to(next);
  return nullptr;
}
} // namespace

void
run(Run &r, std::vector<std::function<void()>> const &bodies)
{
  shadow_init();
  g_run    = &r;
  g_n      = bodies.size();
  g_n_sync = 0;
  g_stats  = Stats{};
  g_order  = 0;
  g_mode   = r.pick(4);
  g_mean   = g_mode == 0 ? 30 : g_mode == 1 ? 300 : g_mode == 2 ? 6 : 3000;
  g_switches_left = g_mode == 2 ? 3000 : 1200;
  g_stalled = -1;
  if (r.one_in(6)) {
    g_stalled = r.pick(g_n);
    r.fault("stalled-thread");
  }
  pthread_attr_t attr;
  pthread_attr_init(&attr);
  pthread_attr_setstacksize(&attr, 512 * 1024);
  for (int k = 0; k < g_n; ++k) {
    g_th[k]          = Thread{};
    g_th[k].body     = &bodies[k];
    g_th[k].vc.c[k]  = 1;
    if (pthread_create(&g_th[k].handle, &attr, thread_main, reinterpret_cast<void *>(intptr_t(k)))) abort();
  }
  pthread_attr_destroy(&attr);
  new_quantum();
  int first = choose();
  r.log("thread %d starts for %u", first, g_quantum);
  g_running = first;
  futex_wake(&g_th[first].futex);
  futex_wait(&g_main);
  for (int k = 0; k < g_n; ++k) pthread_join(g_th[k].handle, nullptr);
  g_stats.granules = g_used;
  g_n              = 0;
}

int self() { return t_self; }
void
at_op(int n, char const *what)
{
  if (t_self >= 0) {
    g_th[t_self].op   = n;
    g_th[t_self].what = what;
  }
}
void
arm_alloc(long n)
{
  if (t_self >= 0) {
    g_th[t_self].alloc_left = n;
    g_th[t_self].alloc_fail = false;
  }
}
bool alloc_failed() { return t_self >= 0 && g_th[t_self].alloc_fail; }
Pause::Pause() { ++t_pause; }
Pause::~Pause() { --t_pause; }

namespace {
bool
alloc_refused()
{
  if (t_self < 0 || t_pause) return false;
  Thread &me = g_th[t_self];
  if (me.alloc_left < 0) return false;
  if (me.alloc_left-- > 0) return false;
  me.alloc_fail = true;
  return true;
}
} // namespace
} // namespace sched

using namespace sched;

// ---------------------------------------------------------------- instrumentation runtime
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() { ++t_pause; }
void __tsan_ignore_thread_end() { --t_pause; }

#define RW(n)                                                                  \
  void __tsan_read##n(void *p) { access(p, n, false, false, PC); }             \
  void __tsan_write##n(void *p) { access(p, n, true, false, PC); }             \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false, false, PC); }   \
  void __tsan_unaligned_write##n(void *p) { access(p, n, true, false, PC); }   \
  void __tsan_volatile_read##n(void *p) { access(p, n, false, false, PC); }    \
  void __tsan_volatile_write##n(void *p) { access(p, n, true, false, PC); }    \
  void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false, false, PC); }  \
  void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true, false, PC); }  \
  void __tsan_read_write##n(void *p) { access(p, n, false, false, PC); access(p, n, true, false, PC); } \
  void __tsan_unaligned_read_write##n(void *p) { access(p, n, false, false, PC); access(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)

void
__tsan_vptr_update(void **p, void *v)
{
  access(p, sizeof(*p), *p != v, false, PC);
}
void __tsan_vptr_read(void **p) { access(p, sizeof(*p), false, false, PC); }
void __tsan_read_range(void *p, size_t n) { access(p, n, false, false, PC); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true, false, PC); }

void *
__tsan_memcpy(void *d, void const *s, size_t n)
{
  access(s, n, false, false, PC);
  access(d, n, true, false, PC);
  return __real_memmove(d, s, n);
}
void *
__tsan_memmove(void *d, void const *s, size_t n)
{
  access(s, n, false, false, PC);
  access(d, n, true, false, PC);
  return __real_memmove(d, s, n);
}
void *
__tsan_memset(void *d, int c, size_t n)
{
  access(d, n, true, false, PC);
  return __real_memset(d, c, n);
}

// Atomics. Everything but relaxed orders as acquire for loads and release for stores.
enum { RELAXED, CONSUME, ACQUIRE, RELEASE, ACQ_REL, SEQ_CST };
static bool acq(int mo) { return mo == ACQUIRE || mo == CONSUME || mo == ACQ_REL || mo == SEQ_CST; }
static bool rel(int mo) { return mo == RELEASE || mo == ACQ_REL || mo == SEQ_CST; }
static void
atomic_op(void *p, size_t n, bool read, bool write, int mo, void *pc)
{
  if (t_self < 0 || t_pause) return;
  preempt(6);
  if (read) access(p, n, false, true, pc);
  if (write) access(p, n, true, true, pc);
}
#define ATOMIC(bits, type)                                                                                              \
  type __tsan_atomic##bits##_load(type const volatile *p, int mo)                                                       \
  {                                                                                                                     \
    atomic_op((void *)p, sizeof(type), true, false, mo, PC);                                                            \
    type v = *p;                                                                                                        \
    if (acq(mo) && !t_pause) acquire((void *)p);                                                                        \
    return v;                                                                                                           \
  }                                                                                                                     \
  void __tsan_atomic##bits##_store(type volatile *p, type v, int mo)                                                    \
  {                                                                                                                     \
    atomic_op((void *)p, sizeof(type), false, true, mo, PC);                                                            \
    if (rel(mo) && !t_pause) release((void *)p);                                                                        \
    *p = v;                                                                                                             \
  }                                                                                                                     \
  static void rmw##bits(type volatile *p, int mo, void *pc)                                                             \
  {                                                                                                                     \
    atomic_op((void *)p, sizeof(type), true, true, mo, pc);                                                             \
    if (acq(mo) && !t_pause) acquire((void *)p);                                                                        \
    if (rel(mo) && !t_pause) release((void *)p);                                                                        \
  }                                                                                                                     \
  type __tsan_atomic##bits##_exchange(type volatile *p, type v, int mo) { rmw##bits(p, mo, PC); type o = *p; *p = v; return o; }           \
  type __tsan_atomic##bits##_fetch_add(type volatile *p, type v, int mo) { rmw##bits(p, mo, PC); type o = *p; *p = type(o + v); return o; } \
  type __tsan_atomic##bits##_fetch_sub(type volatile *p, type v, int mo) { rmw##bits(p, mo, PC); type o = *p; *p = type(o - v); return o; } \
  type __tsan_atomic##bits##_fetch_and(type volatile *p, type v, int mo) { rmw##bits(p, mo, PC); type o = *p; *p = o & v; return o; }       \
  type __tsan_atomic##bits##_fetch_or(type volatile *p, type v, int mo) { rmw##bits(p, mo, PC); type o = *p; *p = o | v; return o; }        \
  type __tsan_atomic##bits##_fetch_xor(type volatile *p, type v, int mo) { rmw##bits(p, mo, PC); type o = *p; *p = o ^ v; return o; }       \
  type __tsan_atomic##bits##_fetch_nand(type volatile *p, type v, int mo) { rmw##bits(p, mo, PC); type o = *p; *p = ~(o & v); return o; }   \
  int __tsan_atomic##bits##_compare_exchange_strong(type volatile *p, type *c, type v, int mo, int)                     \
  {                                                                                                                     \
    rmw##bits(p, mo, PC);                                                                                               \
    if (*p == *c) { *p = v; return 1; }                                                                                 \
    *c = *p;                                                                                                            \
    return 0;                                                                                                           \
  }                                                                                                                     \
  int __tsan_atomic##bits##_compare_exchange_weak(type volatile *p, type *c, type v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, mo, fmo); } \
  type __tsan_atomic##bits##_compare_exchange_val(type volatile *p, type c, type v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(p, &c, v, mo, fmo); return c; }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
typedef unsigned __int128 u128;
ATOMIC(128, u128)
static int g_fence;
void
__tsan_atomic_thread_fence(int mo)
{
  if (t_self < 0 || t_pause) return;
  if (acq(mo)) acquire(&g_fence);
  if (rel(mo)) release(&g_fence);
  preempt(6);
}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- first use of statics
int __real___cxa_guard_acquire(uint64_t *g);
void __real___cxa_guard_release(uint64_t *g);
void __real___cxa_guard_abort(uint64_t *g);
int
__wrap___cxa_guard_acquire(uint64_t *g)
{
  if (t_self < 0) return __real___cxa_guard_acquire(g);
  preempt(6);
  auto b = reinterpret_cast<unsigned char volatile *>(g);
  for (;;) {
    if (b[0]) {
      acquire(g);
      return 0;
    }
    Sync &s = sync_of(g);
    if (s.owner < 0) {
      s.owner = t_self;
      acquire(g);
      return 1;
    }
    block_on(g);
  }
}
void
__wrap___cxa_guard_release(uint64_t *g)
{
  if (t_self < 0) return __real___cxa_guard_release(g);
  release(g);
  sync_of(g).owner = -1;
  *reinterpret_cast<unsigned char volatile *>(g) = 1;
  unblock(g);
  preempt(6);
}
void
__wrap___cxa_guard_abort(uint64_t *g)
{
  if (t_self < 0) return __real___cxa_guard_abort(g);
  release(g);
  sync_of(g).owner = -1;
  unblock(g);
  preempt(6);
}

// ---------------------------------------------------------------- locks
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __real_pthread_mutex_trylock(pthread_mutex_t *m);
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int
__wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
  if (t_self < 0) return __real_pthread_mutex_lock(m);
  preempt(6);
  while (int rc = __real_pthread_mutex_trylock(m)) {
    if (rc != EBUSY) return rc;
    block_on(m);
  }
  acquire(m);
  return 0;
}
int
__wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
  if (t_self < 0) return __real_pthread_mutex_trylock(m);
  preempt(6);
  int rc = __real_pthread_mutex_trylock(m);
  if (rc == 0) acquire(m);
  return rc;
}
int
__wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
  if (t_self < 0) return __real_pthread_mutex_unlock(m);
  release(m);
  int rc = __real_pthread_mutex_unlock(m);
  unblock(m);
  preempt(6);
  return rc;
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *m);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *m);
int __real_pthread_rwlock_unlock(pthread_rwlock_t *m);
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t *m);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t *m);
int
__wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
  if (t_self < 0) return __real_pthread_rwlock_rdlock(m);
  preempt(6);
  while (int rc = __real_pthread_rwlock_tryrdlock(m)) {
    if (rc != EBUSY) return rc;
    block_on(m);
  }
  acquire(m);
  return 0;
}
int
__wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
  if (t_self < 0) return __real_pthread_rwlock_wrlock(m);
  preempt(6);
  while (int rc = __real_pthread_rwlock_trywrlock(m)) {
    if (rc != EBUSY) return rc;
    block_on(m);
  }
  acquire(m);
  return 0;
}
int
__wrap_pthread_rwlock_unlock(pthread_rwlock_t *m)
{
  if (t_self < 0) return __real_pthread_rwlock_unlock(m);
  release(m);
  int rc = __real_pthread_rwlock_unlock(m);
  unblock(m);
  preempt(6);
  return rc;
}
int
__wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *m)
{
  if (t_self < 0) return __real_pthread_rwlock_tryrdlock(m);
  preempt(6);
  int rc = __real_pthread_rwlock_tryrdlock(m);
  if (rc == 0) acquire(m);
  return rc;
}
int
__wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *m)
{
  if (t_self < 0) return __real_pthread_rwlock_trywrlock(m);
  preempt(6);
  int rc = __real_pthread_rwlock_trywrlock(m);
  if (rc == 0) acquire(m);
  return rc;
}
int
__wrap_sched_yield()
{
  preempt(1000000);
  return 0;
}
int __real_pthread_once(pthread_once_t *o, void (*f)());
int
__wrap_pthread_once(pthread_once_t *o, void (*f)())
{
  if (t_self < 0) return __real_pthread_once(o, f);
  preempt(6);
  for (;;) {
    if (*o == 2) {
      acquire(o);
      return 0;
    }
    Sync &s = sync_of(o);
    if (s.owner < 0) {
      s.owner = t_self;
      acquire(o);
      try {
        f();
      } catch (...) {
        sync_of(o).owner = -1;
        unblock(o);
        throw;
      }
      release(o);
      sync_of(o).owner = -1;
      *o               = 2;
      unblock(o);
      return 0;
    }
    block_on(o);
  }
}

// ---------------------------------------------------------------- library functions that touch memory
int
__wrap_memcmp(void const *a, void const *b, size_t n)
{
  access(a, n, false, false, PC);
  access(b, n, false, false, PC);
  return __real_memcmp(a, b, n);
}
int
__wrap_bcmp(void const *a, void const *b, size_t n)
{
  access(a, n, false, false, PC);
  access(b, n, false, false, PC);
  return __real_bcmp(a, b, n);
}
void *
__wrap_memchr(void const *a, int c, size_t n)
{
  void *r = __real_memchr(a, c, n);
  access(a, r ? static_cast<char *>(r) - static_cast<char const *>(a) + 1 : n, false, false, PC);
  return r;
}
size_t
__wrap_strlen(char const *s)
{
  size_t n = __real_strlen(s);
  access(s, n + 1, false, false, PC);
  return n;
}
int
__wrap_strcmp(char const *a, char const *b)
{
  access(a, __real_strlen(a) + 1, false, false, PC);
  access(b, __real_strlen(b) + 1, false, false, PC);
  return __real_strcmp(a, b);
}
int
__wrap_strcasecmp(char const *a, char const *b)
{
  access(a, __real_strlen(a) + 1, false, false, PC);
  access(b, __real_strlen(b) + 1, false, false, PC);
  return __real_strcasecmp(a, b);
}
int
__wrap_strncasecmp(char const *a, char const *b, size_t n)
{
  access(a, strnlen(a, n), false, false, PC);
  access(b, strnlen(b, n), false, false, PC);
  return __real_strncasecmp(a, b, n);
}
int
__wrap_strncmp(char const *a, char const *b, size_t n)
{
  access(a, strnlen(a, n), false, false, PC);
  access(b, strnlen(b, n), false, false, PC);
  return __real_strncmp(a, b, n);
}
void *
__wrap_memcpy(void *d, void const *s, size_t n)
{
  access(s, n, false, false, PC);
  access(d, n, true, false, PC);
  return __real_memmove(d, s, n);
}
void *
__wrap_memmove(void *d, void const *s, size_t n)
{
  access(s, n, false, false, PC);
  access(d, n, true, false, PC);
  return __real_memmove(d, s, n);
}
void *
__wrap_memset(void *d, int c, size_t n)
{
  access(d, n, true, false, PC);
  return __real_memset(d, c, n);
}
size_t
__wrap_strftime(char *d, size_t n, char const *f, struct tm const *t)
{
  access(f, __real_strlen(f) + 1, false, false, PC);
  access(t, sizeof(*t), false, false, PC);
  size_t r = __real_strftime(d, n, f, t);
  access(d, r ? r + 1 : 0, true, false, PC);
  return r;
}
struct tm *
__wrap_localtime_r(time_t const *t, struct tm *tm)
{
  access(t, sizeof(*t), false, false, PC);
  access(tm, sizeof(*tm), true, false, PC);
  return __real_localtime_r(t, tm);
}
struct tm *
__wrap_gmtime_r(time_t const *t, struct tm *tm)
{
  access(t, sizeof(*t), false, false, PC);
  access(tm, sizeof(*tm), true, false, PC);
  return __real_gmtime_r(t, tm);
}
// These use memory shared by all threads.
struct tm *
__wrap_localtime(time_t const *t)
{
  struct tm *r = __real_localtime(t);
  access(r, sizeof(*r), true, false, PC);
  return r;
}
struct tm *
__wrap_gmtime(time_t const *t)
{
  struct tm *r = __real_gmtime(t);
  access(r, sizeof(*r), true, false, PC);
  return r;
}
char *
__wrap_ctime(time_t const *t)
{
  char *r = __real_ctime(t);
  access(r, 26, true, false, PC);
  return r;
}
char *
__wrap_asctime(struct tm const *t)
{
  char *r = __real_asctime(t);
  access(r, 26, true, false, PC);
  return r;
}
char *
__wrap_strtok(char *s, char const *d)
{
  static char state;
  access(&state, 1, true, false, PC);
  return __real_strtok(s, d);
}
// The kernel reads and writes memory for these.
ssize_t
__wrap_read(int fd, void *b, size_t n)
{
  ssize_t r = __real_read(fd, b, n);
  int e     = errno;
  access(b, r > 0 ? r : 0, true, false, PC);
  errno = e;
  return r;
}
ssize_t
__wrap_write(int fd, void const *b, size_t n)
{
  access(b, n, false, false, PC);
  return __real_write(fd, b, n);
}
ssize_t
__wrap_pread(int fd, void *b, size_t n, off_t at)
{
  ssize_t r = __real_pread(fd, b, n, at);
  int e     = errno;
  access(b, r > 0 ? r : 0, true, false, PC);
  errno = e;
  return r;
}
ssize_t
__wrap_pwrite(int fd, void const *b, size_t n, off_t at)
{
  access(b, n, false, false, PC);
  return __real_pwrite(fd, b, n, at);
}
char *
__wrap_realpath(char const *p, char *b)
{
  if (p) access(p, __real_strlen(p) + 1, false, false, PC);
  char *r = __real_realpath(p, b);
  int e   = errno;
  if (b) access(b, r ? __real_strlen(r) + 1 : 1, true, false, PC);
  errno = e;
  return r;
}
char *
__wrap_getcwd(char *b, size_t n)
{
  char *r = __real_getcwd(b, n);
  int e   = errno;
  if (b && r) access(b, __real_strlen(r) + 1, true, false, PC);
  errno = e;
  return r;
}
static int
stat_result(int r, struct stat *s, void *pc)
{
  int e = errno;
  if (r == 0) access(s, sizeof(*s), true, false, pc);
  errno = e;
  return r;
}
int
__wrap_stat(char const *p, struct stat *s)
{
  access(p, __real_strlen(p) + 1, false, false, PC);
  return stat_result(__real_stat(p, s), s, PC);
}
int
__wrap_lstat(char const *p, struct stat *s)
{
  access(p, __real_strlen(p) + 1, false, false, PC);
  return stat_result(__real_lstat(p, s), s, PC);
}
int
__wrap_fstat(int fd, struct stat *s)
{
  return stat_result(__real_fstat(fd, s), s, PC);
}
int
__wrap_snprintf(char *d, size_t n, char const *f, ...)
{
  va_list l;
  va_start(l, f);
  int r = vsnprintf(d, n, f, l);
  va_end(l);
  access(d, n == 0 || r < 0 ? 0 : std::min<size_t>(r + 1, n), true, false, PC);
  return r;
}
char *
__wrap_strncpy(char *d, char const *s, size_t n)
{
  access(s, strnlen(s, n), false, false, PC);
  access(d, n, true, false, PC);
  return __real_strncpy(d, s, n);
}
char *
__wrap_strcpy(char *d, char const *s)
{
  access(s, __real_strlen(s) + 1, false, false, PC);
  access(d, __real_strlen(s) + 1, true, false, PC);
  return __real_strcpy(d, s);
}
static char g_environment; ///< stands for the environment
char *
__wrap_getenv(char const *n)
{
  access(&g_environment, 1, false, false, PC);
  return __real_getenv(n);
}
int
__wrap_setenv(char const *n, char const *v, int o)
{
  access(&g_environment, 1, true, false, PC);
  return __real_setenv(n, v, o);
}

// ---------------------------------------------------------------- allocation
void *
malloc(size_t n)
{
  if (alloc_refused()) return nullptr;
  void *p = __libc_malloc(n);
  if (p) forget(p);
  return p;
}
void *
calloc(size_t k, size_t n)
{
  if (alloc_refused()) return nullptr;
  void *p = __libc_calloc(k, n);
  if (p) forget(p);
  return p;
}
void *
realloc(void *q, size_t n)
{
  if (alloc_refused()) return nullptr;
  if (q) ends(q, PC);
  void *p = __libc_realloc(q, n);
  if (p) forget(p);
  return p;
}
void *
aligned_alloc(size_t a, size_t n)
{
  if (alloc_refused()) return nullptr;
  void *p = __libc_memalign(a, n);
  if (p) forget(p);
  return p;
}
int
posix_memalign(void **p, size_t a, size_t n)
{
  if (alloc_refused()) return ENOMEM;
  *p = __libc_memalign(a, n);
  if (*p) forget(*p);
  return *p ? 0 : ENOMEM;
}
char *
__wrap_strdup(char const *s)
{
  size_t n = __real_strlen(s) + 1;
  access(s, n, false, false, PC);
  char *p = static_cast<char *>(malloc(n));
  return p ? static_cast<char *>(__real_memcpy(p, s, n)) : nullptr;
}
void
free(void *p)
{
  ends(p, PC);
  __libc_free(p);
}
} // extern "C"

static void *
new_mem(size_t n, size_t align)
{
  if (n == 0) n = 1;
  void *p = alloc_refused() ? nullptr : align > 16 ? __libc_memalign(align, (n + align - 1) / align * align) : __libc_malloc(n);
  if (p) forget(p);
  return p;
}
void *
operator new(size_t n)
{
  void *p = new_mem(n, 0);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *
operator new(size_t n, std::align_val_t a)
{
  void *p = new_mem(n, size_t(a));
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return new_mem(n, 0); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return new_mem(n, 0); }
void operator delete(void *p) noexcept { ends(p, PC); __libc_free(p); }
void operator delete[](void *p) noexcept { ends(p, PC); __libc_free(p); }
void operator delete(void *p, size_t) noexcept { ends(p, PC); __libc_free(p); }
void operator delete[](void *p, size_t) noexcept { ends(p, PC); __libc_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { ends(p, PC); __libc_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { ends(p, PC); __libc_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { ends(p, PC); __libc_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { ends(p, PC); __libc_free(p); }
void operator delete(void *p, std::nothrow_t const &) noexcept { ends(p, PC); __libc_free(p); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { ends(p, PC); __libc_free(p); }

// Deterministic simulation core: choice stream, trace, fault points, ledgers.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <new>
#include <string>
#include <utility>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- shared control block
constexpr size_t MAX_CHOICES  = 1u << 17;
constexpr size_t MAX_MARKS    = 1u << 14;
constexpr size_t MAX_COUNTERS = 192;

struct Counter {
  char name[48];
  uint64_t n;
};

struct Ctl {
  // the run in progress
  volatile uint64_t index;
  volatile int state; // 0 idle, 1 running, 2 violation recorded, 3 run completed
  volatile uint32_t n_choices;
  volatile uint32_t n_marks;
  uint64_t hash;
  char kind[160];
  char msg[4096];
  // totals of this worker
  uint64_t runs, steps, nontrivial, violations, choices_total, ops_total, max_ops;
  double sim_ns;
  Counter counters[MAX_COUNTERS];
  uint32_t choices[MAX_CHOICES];
  uint32_t marks[MAX_MARKS];
};

extern Ctl *ctl; // control block of this process

// ---------------------------------------------------------------- SUT scope and allocation seam
extern volatile bool g_in_sut; ///< library code is running
struct SutScope {
  bool saved;
  SutScope() : saved(g_in_sut) { g_in_sut = true; }
  ~SutScope() { g_in_sut = saved; }
};
/// Used in callbacks made by library code to get back to the simulator side.
struct HostScope {
  bool saved;
  HostScope() : saved(g_in_sut) { g_in_sut = false; }
  ~HostScope() { g_in_sut = saved; }
};

extern long g_alloc_countdown; ///< fail when this reaches 0 (negative: never)
extern bool g_alloc_sticky;    ///< all later allocations fail too
extern long g_alloc_fired;     ///< allocations failed since armed
extern long g_alloc_seen;      ///< allocations requested since armed
bool alloc_should_fail();      ///< called by the seam, @c true to fail this allocation

struct Ledger {
  long live;      ///< live allocations made by library code
  long bytes;     ///< bytes in them
  long total;     ///< allocations made by library code
  bool overflow;  ///< table full, counts not reliable
};
extern Ledger g_ledger;
void ledger_reset();
/// Size of live library allocation at @a p, -1 if it is not one.
long ledger_size(void const *p);
/// Find the live library allocation containing @a p. Returns base, sets size. nullptr if none.
void *ledger_containing(void const *p, long &size);

// ---------------------------------------------------------------- a run
class Run
{
public:
  /// Generate from a seed.
  explicit Run(uint64_t seed);
  /// Replay a choice list.
  Run(uint32_t const *list, size_t n);

  // --- choices. 0 is always the simplest alternative.
  uint32_t pick(uint32_t n);                   ///< uniform in [0,n)
  uint32_t range(uint32_t lo, uint32_t hi) { return lo + pick(hi - lo + 1); } ///< inclusive
  bool one_in(uint32_t n) { return n < 2 ? true : pick(n) == n - 1; }
  bool coin() { return pick(2) != 0; }
  bool pct(uint32_t p) { return pick(100) >= 100 - p; }
  /// Skewed to small values, in [0,n).
  uint32_t small(uint32_t n);
  uint64_t bits64();
  /// Next operation of a history of mean length @a mean. Marks an operation boundary.
  bool more(uint32_t mean, uint32_t max = 100000);
  /// Mark the start of a deletable section.
  void mark();
  template <typename T> T const &of(std::vector<T> const &v) { return v[pick(v.size())]; }

  // --- trace
  void log(char const *fmt, ...) __attribute__((format(printf, 2, 3)));
  /// Record a reached state (hash), for the distinct-state measure.
  void state(uint64_t h);
  /// Count an injected fault of this kind.
  void fault(char const *kind);
  /// Count something else.
  void count(char const *what, uint64_t n = 1);
  void nontrivial() { _nontrivial = true; }
  void step(uint64_t n = 1) { _steps += n; }
  void advance_ns(uint64_t ns) { _sim_ns += ns; }
  uint64_t hash() const { return _hash; }
  uint64_t ops() const { return _ops; }

  /// Property is violated. Does not return: the process ends.
  [[noreturn]] void fail(char const *kind, char const *fmt, ...) __attribute__((format(printf, 3, 4)));

  // --- allocation faults
  void arm_alloc(long countdown, bool sticky) { g_alloc_countdown = countdown; g_alloc_sticky = sticky; g_alloc_fired = 0; g_alloc_seen = 0; }
  /// @return Number of allocations that were made to fail.
  long disarm_alloc() { long n = g_alloc_fired; g_alloc_fired = 0; g_alloc_countdown = -1; g_alloc_sticky = false; return n; }

  /// Call library code.
  template <typename F> auto sut(F &&f) -> decltype(f()) { SutScope s; return f(); }

  bool generating() const { return _replay == nullptr; }
  bool _nontrivial = false;
  uint64_t _steps = 0, _sim_ns = 0, _ops = 0;
  uint64_t _hash = 0xcbf29ce484222325ull;

private:
  uint64_t next();
  uint64_t _s[4];
  uint32_t const *_replay = nullptr;
  size_t _n_replay = 0, _pos = 0;
};

extern Run *cur; ///< run in progress
extern bool g_trace;

inline uint64_t
mix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}
uint64_t hash_bytes(void const *p, size_t n, uint64_t h = 0xcbf29ce484222325ull);

/// Run @a f, the rest of the run @a r, in a process of its own: nothing it does to the state of the process remains.
void isolated(Run &r, std::function<void()> const &f);

// ---------------------------------------------------------------- registry
struct Property {
  char const *id;
  void (*run)(Run &);
  char const *rule;         ///< how cases are made and what is non-trivial
  char const *measure;      ///< what a distinct state is
  std::vector<char const *> real;
  std::vector<char const *> stub;
  std::vector<char const *> assumptions;
  bool leak_check = true;   ///< all library allocations must be gone after a run
};
std::vector<Property> &registry();
struct Register {
  Register(Property p) { registry().push_back(std::move(p)); }
};

/// Thrown by simulated callbacks.
struct Injected {
  int n;
};

} // namespace sim

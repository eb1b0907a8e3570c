// Allocation seam: every allocation requested while library code runs is a fault point, and is
// entered in a ledger.
#include "sim.h"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <sanitizer/allocator_interface.h>

namespace sim {
volatile bool g_in_sut = false;
long g_alloc_countdown = -1;
bool g_alloc_sticky = false;
long g_alloc_fired = 0;
long g_alloc_seen = 0;
Ledger g_ledger;

bool
alloc_should_fail()
{
  if (!g_in_sut) {
    return false;
  }
  ++g_alloc_seen;
  if (g_alloc_countdown < 0) {
    return false;
  }
  if (g_alloc_countdown == 0) {
    if (!g_alloc_sticky) {
      g_alloc_countdown = -1;
    }
    ++g_alloc_fired;
    return true;
  }
  --g_alloc_countdown;
  return false;
}

namespace {
constexpr size_t N = 1u << 15;
struct Ent {
  uintptr_t p;
  long size;
};
Ent table[N]; // open addressing, tombstone = 1
size_t used = 0;

inline size_t
slot(uintptr_t p)
{
  return ((p >> 4) * 0x9e3779b97f4a7c15ull) >> 49;
}

void
on_malloc(void const volatile *vp, size_t size)
{
  if (!g_in_sut || !vp) {
    return;
  }
  auto p = reinterpret_cast<uintptr_t>(vp);
  ++g_ledger.live;
  ++g_ledger.total;
  g_ledger.bytes += size;
  if (used > N / 2) {
    g_ledger.overflow = true;
    return;
  }
  size_t i = slot(p);
  while (table[i].p > 1) {
    i = (i + 1) & (N - 1);
  }
  if (table[i].p == 0) {
    ++used;
  }
  table[i] = {p, static_cast<long>(size)};
}
void
on_free(void const volatile *vp)
{
  if (g_ledger.live == 0 || !vp) {
    return;
  }
  auto p   = reinterpret_cast<uintptr_t>(vp);
  size_t i = slot(p);
  while (table[i].p != 0) {
    if (table[i].p == p) {
      --g_ledger.live;
      g_ledger.bytes -= table[i].size;
      table[i].p      = 1;
      return;
    }
    i = (i + 1) & (N - 1);
  }
}
struct Init {
  Init() { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
} init;
} // namespace

void
ledger_reset()
{
  if (used) {
    memset(table, 0, sizeof table);
    used = 0;
  }
  g_ledger = Ledger{};
}

long
ledger_size(void const *vp)
{
  auto p   = reinterpret_cast<uintptr_t>(vp);
  size_t i = slot(p);
  while (table[i].p != 0) {
    if (table[i].p == p) {
      return table[i].size;
    }
    i = (i + 1) & (N - 1);
  }
  return -1;
}

void *
ledger_containing(void const *vp, long &size)
{
  auto p = reinterpret_cast<uintptr_t>(vp);
  for (auto &e : table) {
    if (e.p > 1 && e.p <= p && p < e.p + (e.size ? e.size : 1)) {
      size = e.size;
      return reinterpret_cast<void *>(e.p);
    }
  }
  return nullptr;
}
} // namespace sim

// --- malloc family (references in library and harness objects, by linker --wrap)
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void **, size_t, size_t);
char *__real_strdup(char const *);

void *
__wrap_malloc(size_t n)
{
  if (sim::alloc_should_fail()) {
    errno = ENOMEM;
    return nullptr;
  }
  return __real_malloc(n);
}
void *
__wrap_calloc(size_t a, size_t b)
{
  if (sim::alloc_should_fail()) {
    errno = ENOMEM;
    return nullptr;
  }
  return __real_calloc(a, b);
}
void *
__wrap_realloc(void *p, size_t n)
{
  if (sim::alloc_should_fail()) {
    errno = ENOMEM;
    return nullptr;
  }
  return __real_realloc(p, n);
}
void *
__wrap_aligned_alloc(size_t a, size_t n)
{
  if (sim::alloc_should_fail()) {
    errno = ENOMEM;
    return nullptr;
  }
  return __real_aligned_alloc(a, n);
}
int
__wrap_posix_memalign(void **p, size_t a, size_t n)
{
  if (sim::alloc_should_fail()) {
    return ENOMEM;
  }
  return __real_posix_memalign(p, a, n);
}
char *
__wrap_strdup(char const *s)
{
  if (sim::alloc_should_fail()) {
    errno = ENOMEM;
    return nullptr;
  }
  return __real_strdup(s);
}
}

// --- operator new / delete, also for libstdc++ itself
namespace {
void *
new_or_null(size_t n, size_t align)
{
  if (sim::alloc_should_fail()) {
    return nullptr;
  }
  return align <= 16 ? __real_malloc(n ? n : 1) : __real_aligned_alloc(align, (n + align - 1) / align * align);
}
void *
new_or_throw(size_t n, size_t align)
{
  void *p = new_or_null(n, align);
  if (!p) {
    throw std::bad_alloc();
  }
  return p;
}
} // namespace
void *operator new(size_t n) { return new_or_throw(n, 0); }
void *operator new[](size_t n) { return new_or_throw(n, 0); }
void *operator new(size_t n, std::align_val_t a) { return new_or_throw(n, size_t(a)); }
void *operator new[](size_t n, std::align_val_t a) { return new_or_throw(n, size_t(a)); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return new_or_null(n, 0); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return new_or_null(n, 0); }
void *operator new(size_t n, std::align_val_t a, std::nothrow_t const &) noexcept { return new_or_null(n, size_t(a)); }
void *operator new[](size_t n, std::align_val_t a, std::nothrow_t const &) noexcept { return new_or_null(n, size_t(a)); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { free(p); }

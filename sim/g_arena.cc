// A01-A04: memory arenas and object pools.
#include "sim.h"
#include <algorithm>
#include <list>
#include <map>
#include <memory_resource>
#include <string>
#include <vector>
#include <memory>
#include <optional>
#include <set>
#include <cstring>
#include <deque>
#include "swoc/MemArena.h"

using namespace sim;
using swoc::FixedArena;
using swoc::MemArena;
using swoc::MemSpan;

namespace {

enum { P_MEM = 1, P_LIFE = 2, P_FAIL = 4 };

struct Live {
  unsigned char *p;
  size_t n;
  bool frozen;
  uint32_t id;
  unsigned char *base; // heap block this lives in, nullptr if static.
};

struct alignas(64) StaticMem {
  static constexpr size_t GUARD = 64;
  unsigned char bytes[8192];
};

unsigned char
pat(uint32_t id, size_t i)
{
  return static_cast<unsigned char>((id * 2654435761u >> 13) + i * 7 + (i >> 8));
}

struct Slot {
  MemArena *arena = nullptr;
  enum Kind { PLAIN, STATIC, SELF } kind = PLAIN;
  std::unique_ptr<StaticMem> mem;
  size_t static_n = 0;
  std::vector<Live> live;
  size_t active_alloc = 0, frozen_alloc = 0;
  bool hint_given    = true; // by the caller, not derived from what was frozen
  size_t hint        = 0;    // requested for the next block
  bool self_frozen   = false; // the self contained arena itself is in frozen memory
  // most recent allocation, if nothing else was done to the arena
  bool last_valid = false;
  Live last{};
};

struct ArenaSim {
  Run &R;
  unsigned checks;
  bool faults;
  uint32_t next_id = 1;
  std::deque<Slot> slots;
  std::vector<std::unique_ptr<StaticMem>> graveyard; // static memory outlives arenas

  ArenaSim(Run &r, unsigned c, bool f) : R(r), checks(c), faults(f) {}

  bool
  in_static(Slot &s, void const *p)
  {
    for (auto &m : graveyard) {
      if (m->bytes <= p && p < m->bytes + sizeof m->bytes) {
        return true;
      }
    }
    return s.mem && s.mem->bytes <= p && p < s.mem->bytes + sizeof s.mem->bytes;
  }

  void
  create(Slot &s)
  {
    unsigned k = R.pick(4);
    if (k <= 1) {
      size_t hint = R.coin() ? R.small(20000) : ~size_t(0);
      s.kind      = Slot::PLAIN;
      s.arena     = hint == ~size_t(0) ? new MemArena() : new MemArena(hint);
      s.hint      = hint == ~size_t(0) ? 0 : hint;
      R.log("arena: plain, hint %ld", static_cast<long>(hint));
    } else if (k == 2) {
      s.kind     = Slot::STATIC;
      s.mem      = std::make_unique<StaticMem>();
      s.static_n = 64 + R.pick(10) * 16 + R.small(4000);
      memset(s.mem->bytes, 0xa5, sizeof s.mem->bytes);
      s.arena = new MemArena(MemSpan<void>(s.mem->bytes + StaticMem::GUARD, s.static_n));
      R.log("arena: static block of %zu", s.static_n);
    } else {
      s.kind      = Slot::SELF;
      size_t hint = R.small(9000);
      R.log("arena: self contained, hint %zu", hint);
      s.arena = guard(s, "construct_self_contained", [&] { return MemArena::construct_self_contained(hint); });
      if (!s.arena) { // memory exhausted, fall back.
        s.kind  = Slot::PLAIN;
        s.arena = new MemArena();
      } else {
        s.active_alloc = R.sut([&] { return s.arena->size(); }); // the arena itself
        if (s.active_alloc < sizeof(MemArena) && (checks & P_LIFE)) {
          R.fail("self-size", "self contained arena reports only %zu allocated", s.active_alloc);
        }
      }
    }
  }

  // Run library code with a possibly armed allocation failure.
  template <typename F>
  auto
  guard(Slot &s, char const *what, F &&f) -> decltype(f())
  {
    using RT        = decltype(f());
    bool armed      = faults && R.pct(25);
    size_t reserved = 0, alloc = 0, size = 0;
    bool have       = s.arena != nullptr;
    if (have) {
      reserved = s.arena->reserved_size();
      alloc    = s.arena->allocated_size();
      size     = s.arena->size();
    }
    if (armed) {
      R.arm_alloc(R.pick(2), R.coin());
    }
    try {
      SutScope ss;
      if constexpr (std::is_void_v<RT>) {
        f();
        R.disarm_alloc();
        return;
      } else {
        auto z = f();
        R.disarm_alloc();
        return z;
      }
    } catch (std::bad_alloc const &) {
      g_in_sut   = false;
      long fired = R.disarm_alloc();
      if (!fired) {
        R.fail("spurious-bad-alloc", "%s reported memory exhaustion although no allocation failed", what);
      }
      R.fault("alloc");
      R.log("  %s: out of memory", what);
      if (have && (checks & P_FAIL)) {
        if (s.arena->reserved_size() != reserved || s.arena->allocated_size() != alloc || s.arena->size() != size) {
          R.fail("accounting-after-failure", "%s failed but reserved %zu -> %zu, allocated %zu -> %zu", what, reserved, s.arena->reserved_size(), alloc,
                 s.arena->allocated_size());
        }
      }
    } catch (std::exception const &e) {
      g_in_sut = false;
      R.disarm_alloc();
      R.fail("exception", "%s threw: %s", what, e.what());
    }
    failed = true;
    if constexpr (!std::is_void_v<RT>) {
      return RT{};
    }
  }
  bool failed = false;

  void
  fill(Live const &l)
  {
    for (size_t i = 0; i < l.n; ++i) {
      l.p[i] = pat(l.id, i);
    }
  }
  void
  verify(Live const &l, char const *when)
  {
    for (size_t i = 0; i < l.n; ++i) {
      if (l.p[i] != pat(l.id, i)) {
        R.fail("content", "%s: byte %zu of allocation %u (%zu bytes) changed", when, i, l.id, l.n);
      }
    }
  }

  Live
  add(Slot &s, void *vp, size_t n, size_t align, char const *how, bool filled = false)
  {
    auto p = static_cast<unsigned char *>(vp);
    Live l{p, n, false, next_id++, nullptr};
    if (!p) {
      if (n > 0) {
        R.fail("null", "%s of %zu bytes returned no memory and reported no error", how, n);
      }
      return l;
    }
    if (n > 0 && (checks & (P_MEM | P_FAIL))) {
      if (reinterpret_cast<uintptr_t>(p) & (align - 1)) {
        R.fail("alignment", "%s of %zu bytes is not aligned to %zu", how, n, align);
      }
      for (auto &sl : slots) {
        for (auto const &o : sl.live) {
          if (o.n && p < o.p + o.n && o.p < p + n) {
            R.fail("overlap", "%s of %zu bytes overlaps allocation %u of %zu bytes (offset %ld)%s", how, n, o.id, o.n, static_cast<long>(p - o.p),
                   o.frozen ? " which is frozen" : "");
          }
        }
      }
    }
    if (n > 0) {
      long sz    = 0;
      auto *base = static_cast<unsigned char *>(ledger_containing(p, sz));
      if (base) {
        l.base = base;
        if (p + n > base + sz && (checks & P_MEM)) {
          R.fail("bounds", "%s of %zu bytes extends %ld bytes past the reserved block", how, n, static_cast<long>((p + n) - (base + sz)));
        }
        if (s.kind == Slot::SELF && (checks & P_MEM)) {
          auto a = reinterpret_cast<unsigned char *>(s.arena);
          if (p < a + sizeof(MemArena) && a < p + n) {
            R.fail("overlap-arena", "%s of %zu bytes overlaps the self contained arena", how, n);
          }
        }
      } else if (s.mem && in_static(s, p)) {
        auto lo = s.mem->bytes + StaticMem::GUARD, hi = lo + s.static_n;
        if ((p < lo || p + n > hi) && (checks & P_MEM)) {
          R.fail("bounds", "%s of %zu bytes leaves the static block", how, n);
        }
      } else if (!g_ledger.overflow && (checks & P_MEM)) {
        R.fail("bounds", "%s of %zu bytes is not in memory reserved by the arena", how, n);
      }
    }
    if (!filled) {
      fill(l);
    }
    if (n > 0) {
      s.live.push_back(l);
    }
    s.active_alloc += n;
    s.last          = l;
    s.last_valid    = true;
    return l;
  }

  size_t
  blocks_size(MemArena::const_iterator b, MemArena::const_iterator e)
  {
    size_t n = 0;
    for (; b != e; ++b) {
      n += static_cast<size_t>(b->allocated_data_end() - b->data()) + b->remaining();
    }
    return n;
  }

  void
  check_slot(Slot &s, char const *when)
  {
    if (checks & (P_MEM | P_FAIL)) {
      for (auto const &l : s.live) {
        verify(l, when);
      }
      if (s.mem) {
        for (size_t i = 0; i < StaticMem::GUARD; ++i) {
          if (s.mem->bytes[i] != 0xa5 || s.mem->bytes[StaticMem::GUARD + s.static_n + i] != 0xa5) {
            R.fail("static-guard", "%s: memory next to the static block was written", when);
          }
        }
      }
    }
    if (checks & (P_LIFE | P_FAIL)) {
      MemArena const &a = *s.arena;
      if (a.size() != s.active_alloc || a.allocated_size() != s.active_alloc + s.frozen_alloc) {
        R.fail("accounting", "%s: allocated %zu (active %zu) but the history amounts to %zu (active %zu)", when, a.allocated_size(), a.size(),
               s.active_alloc + s.frozen_alloc, s.active_alloc);
      }
      size_t res = blocks_size(a.begin(), a.end()) + blocks_size(a.frozen_begin(), a.frozen_end());
      if (a.reserved_size() != res) {
        R.fail("reserved", "%s: reserved_size %zu but the blocks hold %zu", when, a.reserved_size(), res);
      }
      if (a.reserved_size() < a.allocated_size()) {
        R.fail("reserved", "%s: reserved %zu less than allocated %zu", when, a.reserved_size(), a.allocated_size());
      }
      if (a.remaining() != s.arena->remnant().size()) {
        R.fail("remaining", "%s: remaining %zu but the remnant has %zu", when, a.remaining(), s.arena->remnant().size());
      }
      for (auto const &l : s.live) {
        if (!a.contains(l.p) || !a.contains(l.p + l.n - 1)) {
          R.fail("contains", "%s: the arena denies allocation %u", when, l.id);
        }
      }
      auto blocks = [&](MemArena::const_iterator b, MemArena::const_iterator e) {
        for (; b != e; ++b) {
          char const *data = b->data();
          char const *end  = b->allocated_data_end() + b->remaining();
          if (end > data && (!a.contains(data) || !a.contains(end - 1) || !a.contains(data + (end - data) / 2))) {
            R.fail("contains", "%s: the arena denies memory of one of its blocks", when);
          }
          bool other = false; // Memory past the block could be another block.
          for (auto [x, y] : {std::pair(a.begin(), a.end()), std::pair(a.frozen_begin(), a.frozen_end())}) {
            for (; x != y; ++x) {
              other = other || (end >= x->data() - 128 && end < x->allocated_data_end() + x->remaining());
            }
          }
          if (!other && a.contains(end)) {
            R.fail("contains", "%s: the arena claims the byte past one of its blocks", when);
          }
        }
      };
      blocks(a.begin(), a.end());
      blocks(a.frozen_begin(), a.frozen_end());
      int here = 0;
      if (a.contains(&here) || a.contains(nullptr)) {
        R.fail("contains", "%s: the arena claims foreign memory", when);
      }
      for (auto &o : slots) {
        if (&o != &s) {
          for (auto const &l : o.live) {
            if (a.contains(l.p)) {
              R.fail("contains", "%s: the arena claims memory of another arena", when);
            }
          }
        }
      }
    }
  }

  size_t
  pick_size(Slot &s)
  {
    switch (R.pick(7)) {
    case 0:
      return R.small(64);
    case 1:
      return R.range(1, 200);
    case 2: { // around the space left
      size_t r = s.arena->remaining();
      long d   = static_cast<long>(R.pick(41)) - 20;
      long v   = static_cast<long>(r) + d;
      return v < 0 ? 0 : v;
    }
    case 3:
      return R.range(200, 1300);
    case 4:
      return R.range(3900, 4200);
    case 5:
      return R.small(30000);
    default:
      return R.range(1, 16);
    }
  }

  void
  release(Slot &s, bool frozen_only, std::vector<unsigned char *> &gone)
  {
    std::set<unsigned char *> keep;
    for (auto const &l : s.live) {
      if (frozen_only && !l.frozen) {
        keep.insert(l.base);
      }
    }
    for (auto const &l : s.live) {
      if ((!frozen_only || l.frozen) && l.base && !keep.count(l.base)) {
        gone.push_back(l.base);
      }
    }
    std::sort(gone.begin(), gone.end());
    gone.erase(std::unique(gone.begin(), gone.end()), gone.end());
    s.live.erase(std::remove_if(s.live.begin(), s.live.end(), [&](Live const &l) { return !frozen_only || l.frozen; }), s.live.end());
    s.last_valid = false;
  }
  void
  check_gone(std::vector<unsigned char *> const &gone, char const *what)
  {
    if ((checks & P_LIFE) && !g_ledger.overflow) {
      for (auto p : gone) {
        if (ledger_size(p) >= 0) {
          R.fail("not-released", "%s did not release a block whose allocations are all dead", what);
        }
      }
    }
  }

  // First allocation from a new block after freezing / construction: is there room as promised?
  void
  check_hint(Slot &s, size_t want, size_t before, char const *what)
  {
    if ((checks & P_LIFE) && s.arena->reserved_size() - before < want) {
      R.fail("hint", "%s asked for %zu bytes in the next reservation but it has %zu", what, want, s.arena->reserved_size() - before);
    }
  }

  // A self contained arena in frozen memory must be moved to fresh memory before that is released.
  bool
  migrate(Slot &s)
  {
    if (!s.self_frozen) {
      return true;
    }
    R.log("  move the self contained arena");
    failed = false;
    auto *n = guard(s, "make", [&] { return s.arena->make<MemArena>(std::move(*s.arena)); });
    if (failed) {
      return false;
    }
    s.arena       = n;
    s.self_frozen = false;
    s.active_alloc += sizeof(MemArena);
    s.hint         = 0;
    s.last_valid   = false;
    return true;
  }

  void
  step()
  {
    Slot &s   = slots[R.pick(slots.size())];
    MemArena &a = *s.arena;
    unsigned c  = R.pick(3); // which client, only for the trace
    failed      = false;
    unsigned op = R.pick(faults ? 14 : 19);
    switch (op) {
    case 0:
    case 1:
    case 2:
    case 3: { // alloc
      size_t n = pick_size(s), al = R.pct(40) ? size_t(1) << R.pick(9) : 1;
      bool fresh     = a.begin() == a.end();
      auto rem       = a.remnant();
      size_t res0    = a.reserved_size();
      R.log("c%u alloc %zu align %zu", c, n, al);
      bool pmr = R.one_in(6);
      auto sp  = guard(s, "alloc", [&]() -> MemSpan<void> {
        if (pmr) {
          return {static_cast<std::pmr::memory_resource &>(a).allocate(n, al), n};
        }
        return a.alloc(n, al);
      });
      if (failed) {
        break;
      }
      if (!pmr && sp.size() != n && (checks & P_MEM)) {
        R.fail("size", "alloc of %zu bytes returned %zu", n, sp.size());
      }
      if (fresh && s.hint && n < s.hint && s.kind == Slot::PLAIN) {
        check_hint(s, s.hint, res0, "the size hint");
      }
      s.hint = 0;
      if (al == 1 && n > 0 && n <= rem.size() && (checks & P_LIFE) && sp.data() != rem.data()) {
        R.fail("remnant-skipped", "alloc of %zu bytes did not use the remnant of %zu", n, rem.size());
      }
      if (a.reserved_size() == res0 && n > 0 && res0 == 0 && (checks & P_LIFE)) {
        R.fail("reserved", "allocation from an arena with nothing reserved");
      }
      add(s, sp.data(), n, al, "alloc");
      break;
    }
    case 4: { // make / alloc_span
      if (R.coin()) {
        struct alignas(32) Thing {
          uint64_t v[5];
        };
        R.log("c%u make object", c);
        auto t = guard(s, "make", [&] { return a.make<Thing>(Thing{}); });
        if (!failed) {
          add(s, t, sizeof(Thing), alignof(Thing), "make");
        }
      } else {
        size_t k = R.one_in(24) ? 500 + R.pick(5000) : R.small(300);
        R.log("c%u alloc_span %zu x uint64", c, k);
        auto t = guard(s, "alloc_span", [&] { return a.alloc_span<uint64_t>(k); });
        if (!failed) {
          if (t.count() != k && (checks & P_MEM)) {
            R.fail("size", "alloc_span of %zu elements returned %zu", k, t.count());
          }
          add(s, t.data(), k * 8, alignof(uint64_t), "alloc_span");
        }
      }
      s.hint = 0;
      break;
    }
    case 5: { // localize
      size_t k = R.one_in(24) ? 3900 + R.pick(R.coin() ? 400 : 40000) : R.small(600);
      // exact heap copy so any overread is caught.
      bool zs = R.coin(); // as a C string
      std::unique_ptr<char[]> text{new char[k + zs ? k + zs : 1]};
      if (zs) text[k] = 0;
      uint32_t id = next_id;
      for (size_t i = 0; i < k; ++i) {
        text[i] = static_cast<char>(pat(id, i) | 1);
      }
      bool cs = R.coin();
      R.log("c%u localize%s%s %zu", c, cs ? "_c" : "", zs ? " string" : "", k);
      size_t before = a.size();
      auto sp       = guard(s, "localize", [&] {
        MemSpan<char const> src{text.get(), k};
        if (zs) return cs ? a.localize_c(text.get()) : a.localize(text.get());
        return cs ? a.localize_c(src) : a.localize(src);
      });
      s.hint = 0;
      if (failed) {
        break;
      }
      if (checks & P_MEM) {
        if (sp.size() != k || (k && memcmp(sp.data(), text.get(), k) != 0)) {
          R.fail("localize", "localized copy of %zu bytes has %zu bytes or other content", k, sp.size());
        }
        if (cs && sp.data()[k] != 0) {
          R.fail("localize", "localized C string of %zu bytes is not terminated", k);
        }
      }
      size_t took = a.size() - before;
      if ((checks & P_LIFE) && took != k + (cs ? 1 : 0)) {
        R.fail("accounting", "localize of %zu bytes allocated %zu", k, took);
      }
      add(s, sp.data(), k + (cs ? 1 : 0), 1, "localize");
      break;
    }
    case 6: { // require, then allocate from it
      size_t n = pick_size(s), al = R.pct(30) ? size_t(1) << R.pick(9) : 1;
      R.log("c%u require %zu align %zu", c, n, al);
      guard(s, "require", [&] { a.require(n, al); });
      s.last_valid = s.last_valid && failed;
      if (failed) {
        break;
      }
      s.hint   = 0;
      auto rem = a.remnant();
      size_t pad = al > 1 ? (al - (reinterpret_cast<uintptr_t>(rem.data()) & (al - 1))) & (al - 1) : 0;
      if ((checks & P_LIFE) && rem.size() < n + pad) {
        R.fail("require", "required %zu bytes aligned %zu but the remnant has %zu with padding %zu", n, al, rem.size(), pad);
      }
      if (R.coin() && n > 0) { // speculate and commit
        size_t m    = R.range(1, n);
        uint32_t id = next_id;
        auto p      = static_cast<unsigned char *>(rem.data());
        for (size_t i = 0; i < n; ++i) {
          p[i] = pat(id, i);
        }
        R.log("  commit %zu", m);
        size_t res0 = a.reserved_size();
        auto sp     = guard(s, "alloc", [&] { return a.alloc(m); });
        if (failed) {
          R.fail("require", "allocation of %zu bytes after requiring %zu needed more memory", m, n);
        }
        if ((checks & P_LIFE) && (sp.data() != rem.data() || a.reserved_size() != res0)) {
          R.fail("require", "allocation of %zu bytes did not use the %zu required", m, n);
        }
        if (checks & P_MEM) {
          verify(Live{static_cast<unsigned char *>(sp.data()), m, false, id, nullptr}, "after commit");
        }
        if (sp.data() == rem.data()) {
          add(s, sp.data(), m, 1, "alloc", true);
        } else {
          add(s, sp.data(), m, 1, "alloc");
        }
      }
      break;
    }
    case 7: { // remnant spans
      if (R.coin()) {
        size_t n = R.small(2500) + 1, al = size_t(1) << R.pick(8);
        R.log("c%u remnant %zu align %zu", c, n, al);
        bool plain = R.one_in(3);
        if (plain) al = 1;
        auto sp = guard(s, "remnant", [&] { return plain ? a.remnant_span<void>(n) : a.remnant(n, al); });
        s.last_valid = s.last_valid && failed;
        if (failed) {
          break;
        }
        s.hint = 0;
        if (checks & P_LIFE) {
          if (sp.size() != n || (reinterpret_cast<uintptr_t>(sp.data()) & (al - 1))) {
            R.fail("remnant", "remnant of %zu aligned %zu gave %zu bytes, misaligned by %zu", n, al, sp.size(),
                   static_cast<size_t>(reinterpret_cast<uintptr_t>(sp.data()) & (al - 1)));
          }
          memset(sp.data(), 0x5a, n);
          auto t = R.sut([&] { return a.alloc(n, al); });
          if (t.data() != sp.data()) {
            R.fail("remnant", "alloc of %zu aligned %zu differs from the remnant", n, al);
          }
          add(s, t.data(), n, al, "alloc");
        } else {
          memset(sp.data(), 0x5a, sp.size());
        }
      } else {
        size_t n = R.small(300) + 1;
        R.log("c%u remnant_span %zu x uint64", c, n);
        auto sp = guard(s, "remnant_span", [&] { return a.remnant_span<uint64_t>(n); });
        s.last_valid = s.last_valid && failed;
        if (failed) {
          break;
        }
        s.hint = 0;
        if (checks & P_LIFE) {
          if (sp.count() != n || (reinterpret_cast<uintptr_t>(sp.data()) & 7)) {
            R.fail("remnant", "remnant_span of %zu elements gave %zu", n, sp.count());
          }
          for (auto &v : sp) {
            v = 0x77;
          }
          auto t = R.sut([&] { return a.alloc_span<uint64_t>(n); });
          if (t.data() != sp.data()) {
            R.fail("remnant", "alloc_span of %zu differs from the remnant span", n);
          }
          add(s, t.data(), n * 8, 8, "alloc_span");
        }
      }
      break;
    }
    case 8: { // discard one
      if (s.live.empty()) {
        break;
      }
      bool newest = s.last_valid && R.pct(70);
      Live l      = newest ? s.last : s.live[R.pick(s.live.size())];
      if (l.frozen || l.n == 0) {
        break;
      }
      R.log("c%u discard allocation %u (%zu)%s", c, l.id, l.n, newest ? " newest" : "");
      size_t before = a.size();
      R.sut([&] { a.discard(MemSpan<void const>(l.p, l.n)); });
      size_t after = a.size();
      if (after == before - l.n) {
        s.live.erase(std::remove_if(s.live.begin(), s.live.end(), [&](Live const &x) { return x.id == l.id; }), s.live.end());
        s.active_alloc -= l.n;
        R.count("discard done");
      } else if (after != before) {
        if (checks & P_LIFE) {
          R.fail("discard", "discard of %zu bytes changed the size from %zu to %zu", l.n, before, after);
        }
      } else if (newest && (checks & P_LIFE)) {
        R.fail("discard", "discard of the newest allocation (%zu bytes) did nothing", l.n);
      }
      s.last_valid = false;
      break;
    }
    case 9: { // freeze
      if (!migrate(s)) {
        break;
      }
      MemArena &a = *s.arena;
      size_t hint = R.one_in(3) ? R.small(12000) : 0;
      R.log("c%u freeze %zu", c, hint);
      std::vector<unsigned char *> gone;
      release(s, true, gone);
      R.sut([&] { a.freeze(hint); });
      if (s.kind != Slot::SELF || true) {
        check_gone(gone, "freeze (of the previous frozen generation)");
      }
      for (auto &l : s.live) {
        l.frozen = true;
      }
      s.frozen_alloc = s.active_alloc;
      s.active_alloc = 0;
      s.hint         = hint ? hint : s.frozen_alloc;
      s.hint_given   = hint != 0;
      s.last_valid   = false;
      if ((checks & P_LIFE) && (a.size() != 0 || a.remaining() != 0)) {
        R.fail("freeze", "after freeze %zu bytes are active and %zu remain", a.size(), a.remaining());
      }
      // First new allocation
      if (R.coin()) {
        R.log("  then alloc 8");
        size_t res0 = a.reserved_size();
        auto sp     = guard(s, "alloc", [&] { return a.alloc(8); });
        if (!failed) {
          if (s.kind == Slot::PLAIN) {
            check_hint(s, s.hint, res0, "freeze");
          }
          s.hint = 0;
          add(s, sp.data(), 8, 1, "alloc");
          if ((checks & P_LIFE) && in_static(s, sp.data())) {
            R.fail("freeze", "allocation while frozen came from the static block");
          }
        }
      }
      s.self_frozen = s.kind == Slot::SELF;
      if (R.coin()) {
        migrate(s);
      }
      R.count("freeze");
      break;
    }
    case 10: { // thaw
      if (!migrate(s)) {
        break;
      }
      MemArena &a = *s.arena;
      R.log("c%u thaw", c);
      std::vector<unsigned char *> gone;
      release(s, true, gone);
      R.sut([&] { a.thaw(); });
      check_gone(gone, "thaw");
      if (!s.hint_given) {
        s.hint = 0;
      }
      s.frozen_alloc = 0;
      s.last_valid   = false;
      if ((checks & P_LIFE) && s.mem && !a.contains(s.mem->bytes + StaticMem::GUARD + s.static_n - 8)) {
        R.fail("static-lost", "the static block is not in use by the arena again after thawing");
      }
      R.count("thaw");
      break;
    }
    case 11: { // clear
      if (!R.one_in(3) || s.kind == Slot::SELF) {
        break;
      }
      size_t hint = R.one_in(3) ? R.small(9000) : 0;
      R.log("c%u clear %zu", c, hint);
      std::vector<unsigned char *> gone;
      size_t total = s.active_alloc + s.frozen_alloc;
      release(s, false, gone);
      R.sut([&] { a.clear(hint); });
      check_gone(gone, "clear");
      s.active_alloc = s.frozen_alloc = 0;
      s.hint                          = hint ? hint : total;
      s.hint_given                    = true;
      break;
    }
    case 12: { // discard all
      if (!R.one_in(3) || s.kind == Slot::SELF) {
        break;
      }
      R.log("c%u discard all", c);
      std::vector<unsigned char *> gone;
      s.live.erase(std::remove_if(s.live.begin(), s.live.end(), [&](Live const &l) { return !l.frozen; }), s.live.end());
      size_t res = a.reserved_size();
      R.sut([&] { a.discard(); });
      s.active_alloc = 0;
      s.hint         = 0;
      s.last_valid   = false;
      if ((checks & P_LIFE) && a.reserved_size() != res) {
        R.fail("discard", "discarding everything changed the reserved size");
      }
      for (auto b = a.begin(); (checks & P_LIFE) && b != a.end(); ++b) {
        if (b->allocated_data_end() != b->data()) {
          R.fail("discard", "%zu bytes of a block can not be used again after discarding everything", static_cast<size_t>(b->allocated_data_end() - b->data()));
        }
      }
      break;
    }
    case 13: { // new slot
      if (slots.size() < 3) {
        slots.emplace_back();
        create(slots.back());
      }
      break;
    }
    case 14: { // move construct
      if (s.kind == Slot::SELF) {
        break;
      }
      R.log("c%u move construct", c);
      auto *old = s.arena;
      s.arena   = R.sut([&] { return static_cast<MemArena *>(nullptr); });
      s.arena   = new MemArena(std::move(*old));
      moved(old);
      s.last_valid = false;
      if (slots.size() < 5 && R.coin()) { // An empty arena that can be used.
        slots.emplace_back();
        slots.back().arena = old;
        slots.back().kind  = Slot::PLAIN;
        break;
      }
      delete old;
      break;
    }
    case 15: { // move assign
      if (slots.size() < 2 || s.kind == Slot::SELF) {
        break;
      }
      size_t k = R.pick(slots.size());
      Slot &d  = slots[k];
      if (&d == &s || d.kind == Slot::SELF) {
        break;
      }
      R.log("c%u move assign", c);
      std::vector<unsigned char *> gone;
      release(d, false, gone);
      R.sut([&] { *d.arena = std::move(*s.arena); });
      check_gone(gone, "move assignment (of the previous content)");
      if (d.mem) {
        graveyard.push_back(std::move(d.mem));
      }
      d.live         = std::move(s.live);
      d.active_alloc = s.active_alloc;
      d.frozen_alloc = s.frozen_alloc;
      d.mem          = std::move(s.mem);
      d.static_n     = s.static_n;
      d.kind         = s.kind;
      d.hint         = 0;
      d.last_valid   = false;
      s.live.clear();
      s.active_alloc = s.frozen_alloc = s.hint = 0;
      s.kind                                  = Slot::PLAIN;
      s.last_valid                            = false;
      moved(s.arena);
      break;
    }
    case 16: { // coalesce: freeze, copy all, thaw
      if (s.kind == Slot::SELF) {
        break;
      }
      R.log("c%u coalesce", c);
      std::vector<unsigned char *> gone;
      release(s, true, gone);
      auto old = s.live;
      std::vector<Live> news;
      size_t total = s.active_alloc;
      R.sut([&] { a.freeze(); });
      s.frozen_alloc = s.active_alloc;
      s.active_alloc = 0;
      s.last_valid   = false;
      for (auto &l : s.live) {
        l.frozen = true;
      }
      size_t nlive = s.live.size();
      for (size_t i = 0; i < nlive; ++i) {
        Live l  = s.live[i];
        auto sp = R.sut([&] { return a.alloc(l.n); });
        auto x  = add(s, sp.data(), l.n, 1, "alloc");
        verify(x, "coalescing");
        verify(l, "coalescing, frozen copy");
      }
      std::vector<unsigned char *> gone2;
      release(s, true, gone2);
      R.sut([&] { a.thaw(); });
      check_gone(gone2, "thaw");
      s.frozen_alloc = 0;
      s.hint         = 0;
      if ((checks & P_LIFE) && nlive > 0 && s.kind == Slot::PLAIN) {
        size_t blocks = 0;
        for (auto b = a.begin(); b != a.end(); ++b) {
          ++blocks;
        }
        if (blocks != 1) {
          R.fail("coalesce", "%zu bytes copied after a freeze of %zu are in %zu blocks", s.active_alloc, total, blocks);
        }
      }
      break;
    }
    case 18: { // as the resource of containers
      if (!R.one_in(4)) {
        break;
      }
      unsigned n = 1 + R.small(300), m = R.small(300);
      R.log("c%u containers on arenas, %u and %u elements", c, n, m);
      bool ok = R.sut([&] {
        MemArena x{n}, y;
        std::pmr::memory_resource &rx = x, &ry = y;
        if (rx.is_equal(ry) || ry.is_equal(*std::pmr::get_default_resource()) || !rx.is_equal(rx)) {
          R.fail("resource", "different arenas are equal as memory resources, their memory would be mixed up");
        }
        std::pmr::vector<uint32_t> a(&x), b(&y);
        std::pmr::list<std::pmr::string> la(&x), lb(&y);
        for (unsigned i = 0; i < n; ++i) {
          a.push_back(i * 7 + 1);
          la.emplace_back(i % 40, 'x');
        }
        for (unsigned i = 0; i < m; ++i) {
          b.push_back(i);
          lb.emplace_back(i % 40, 'y');
        }
        b  = std::move(a); // has to be copied
        lb = std::move(la);
        a.clear();
        a.shrink_to_fit();
        la.clear();
        x.clear(); // the target must not depend on it.
        auto sp = x.alloc(n * 8);
        HostScope hs;
        memset(sp.data(), 0x5a, sp.size());
        bool good = b.size() == n && lb.size() == n;
        unsigned i = 0;
        for (auto const &s : lb) {
          good = good && b[i] == i * 7 + 1 && s.size() == i % 40 && s.find_first_not_of('x') == s.npos;
          ++i;
        }
        return good;
      });
      if (!ok) {
        R.fail("resource", "a container moved from one arena to another lost its content with the first arena");
      }
      break;
    }
    case 17: { // destroy a slot
      if (slots.size() < 2) {
        break;
      }
      size_t k = R.pick(slots.size());
      R.log("c%u destroy arena", c);
      destroy(slots[k]);
      slots.erase(slots.begin() + k);
      break;
    }
    }
  }

  void
  moved(MemArena *m)
  {
    if (checks & P_LIFE) {
      if (m->size() || m->allocated_size() || m->reserved_size() || m->remaining() || m->begin() != m->end()) {
        R.fail("moved", "a moved-from arena still reports memory: allocated %zu reserved %zu", m->allocated_size(), m->reserved_size());
      }
    }
  }

  void
  destroy(Slot &s)
  {
    std::vector<unsigned char *> gone;
    release(s, false, gone);
    if (s.kind == Slot::SELF) {
      R.sut([&] { MemArena::destroyer(s.arena); });
    } else {
      R.sut([&] { delete s.arena; });
    }
    check_gone(gone, "destruction");
    if (s.mem) {
      graveyard.push_back(std::move(s.mem));
    }
    s.arena = nullptr;
  }

  void
  go()
  {
    slots.emplace_back();
    create(slots.back());
    while (R.more(30, 400)) {
      step();
      for (auto &s : slots) {
        check_slot(s, "after the operation");
      }
      uint64_t h = 0;
      for (auto &s : slots) {
        unsigned nb = 0;
        for (auto b = s.arena->begin(); b != s.arena->end(); ++b) {
          h = mix(h, b->is_full() ? 1 : 2 + (b->remaining() >> 6));
          ++nb;
        }
        for (auto b = s.arena->frozen_begin(); b != s.arena->frozen_end(); ++b) {
          h = mix(h, 77);
        }
        h = mix(h, nb * 4 + s.kind);
      }
      R.state(h);
      R.log("  = %zu/%zu reserved %zu", slots[0].active_alloc, slots[0].frozen_alloc, slots[0].arena->reserved_size());
    }
    if (R.ops() > 3) {
      R.nontrivial();
    }
    for (auto &s : slots) {
      destroy(s);
    }
    slots.clear();
  }
};

char const *ARENA_RULE = "one run = a seeded history of up to 400 operations by three clients on up to three arenas (plain, with static block, self contained); "
                         "non-trivial: more than three operations, or a fault was injected";
char const *ARENA_MEASURE = "shape of the block lists (count, order, fill level in 64 byte steps, frozen blocks, kind of arena)";

Register a01{{"A01", [](Run &r) { ArenaSim(r, P_MEM, false).go(); }, ARENA_RULE, ARENA_MEASURE, {"MemArena"}, {"callers"}, {"allocation sizes up to 30 kB, alignments up to 256"}}};
Register a02{{"A02", [](Run &r) { ArenaSim(r, P_LIFE, false).go(); }, ARENA_RULE, ARENA_MEASURE, {"MemArena"}, {"callers"}, {"static blocks are suitably aligned by the caller"}}};
Register a03{{"A03", [](Run &r) { ArenaSim(r, P_FAIL, true).go(); }, ARENA_RULE, ARENA_MEASURE, {"MemArena"}, {"callers", "malloc and operator new (failing on command)"}, {}}};

// ------------------------------------------------------------------ A04
// Pools of three classes over one arena which others use directly as well. Constructors and destructors of
// the pooled classes use the pool themselves (trees of nodes).
struct PoolSim {
  static PoolSim *self;
  Run &R;
  struct Rec {
    uint64_t id;
    unsigned kind, pool;
    size_t size;
    char *child = nullptr;
    bool dying  = false;
  };
  std::map<char *, Rec> live;
  struct Blob {
    char *at;
    size_t n;
    unsigned char mark;
  };
  std::vector<Blob> blobs;
  uint64_t ctor = 0, dtor = 0, next = 1;
  int throw_in     = 0;     // the constructor that throws, counted from 1
  bool throw_late  = false; // after using the pool
  unsigned depth   = 0, want_depth = 0;
  unsigned respawn = 0;
  size_t expect_alloc  = size_t(-1); // storage must be recycled
  bool faults          = false;
  std::optional<MemArena> arena;
  std::vector<MemArena> attic; // the arena's memory moves here

  struct PoolBase {
    unsigned kind;
    size_t free = 0; // recyclable
    virtual ~PoolBase() {}
    virtual char *make(uint64_t id) = 0;
    virtual void destroy(char *)    = 0;
    virtual void clear()            = 0;
    virtual MemArena *in()          = 0;
    virtual size_t size()           = 0;
    virtual size_t align()          = 0;
  };
  template <size_t N, size_t A> struct alignas(A) Obj {
    uint64_t id;
    unsigned char body[N - 8];
    explicit Obj(uint64_t v) : id(v)
    {
      HostScope hs;
      self->born(reinterpret_cast<char *>(this), v);
      memset(body, v & 0xff, sizeof body);
    }
    ~Obj()
    {
      HostScope hs;
      self->dies(reinterpret_cast<char *>(this));
      id = 0;
    }
  };
  template <typename T> struct Pool : PoolBase {
    FixedArena<T> p;
    explicit Pool(MemArena &a) : p(a) {}
    char *
    make(uint64_t id) override
    {
      return reinterpret_cast<char *>(p.make(id));
    }
    void destroy(char *x) override { p.destroy(reinterpret_cast<T *>(x)); }
    void clear() override { p.clear(); }
    MemArena *in() override { return &p.arena(); }
    size_t size() override { return sizeof(T); }
    size_t align() override { return alignof(T); }
  };
  std::vector<std::unique_ptr<PoolBase>> pools;
  unsigned making = 0; // pool of the object under construction

  explicit PoolSim(Run &r) : R(r) { self = this; }

  void
  born(char *at, uint64_t id)
  {
    auto p        = making;
    if (expect_alloc != size_t(-1) && expect_alloc != arena->allocated_size()) {
      R.fail("pool-recycle", "a new allocation was made although destroyed objects were available");
    }
    size_t n      = pools[p]->size();
    if (reinterpret_cast<uintptr_t>(at) % pools[p]->align()) {
      R.fail("pool-align", "object %lu is not aligned to %zu", static_cast<unsigned long>(id), pools[p]->align());
    }
    for (auto &[x, rec] : live) {
      if (x < at + n && at < x + rec.size) {
        R.fail("pool-share", "object %lu shares storage with live object %lu", static_cast<unsigned long>(id), static_cast<unsigned long>(rec.id));
      }
    }
    for (auto &bl : blobs) {
      if (bl.at < at + n && at < bl.at + bl.n) {
        R.fail("pool-share", "object %lu shares storage with other memory of the arena", static_cast<unsigned long>(id));
      }
    }
    bool thrower = throw_in > 0 && --throw_in == 0;
    if (thrower && !throw_late) {
      throw Injected{1};
    }
    ++ctor;
    live[at] = Rec{id, pools[p]->kind, p, n};
    if (want_depth > 0) { // A child in the same or another pool.
      --want_depth;
      ++depth;
      char *child = make(R.coin() ? p : static_cast<unsigned>(R.pick(pools.size())));
      --depth;
      if (thrower && child) {
        destroy(child);
        child = nullptr;
      }
      live[at].child = child;
    }
    if (thrower) {
      --ctor;
      live.erase(at);
      throw Injected{1};
    }
  }

  void
  dies(char *at)
  {
    auto spot = live.find(at);
    if (spot == live.end() || spot->second.dying || *reinterpret_cast<uint64_t *>(at) != spot->second.id) {
      R.fail("pool-destroy", "destructor run on something that is not a live object");
    }
    ++dtor;
    spot->second.dying = true; // the storage is its own until the destructor is done
    if (auto c = spot->second.child) {
      spot->second.child = nullptr;
      ++depth;
      destroy(c);
      --depth;
    }
    if (respawn > 0) {
      --respawn;
      ++depth;
      make(spot->second.pool);
      --depth;
    }
    live.erase(at);
  }

  // Make one object, nested if called by a constructor or destructor.
  char *
  make(unsigned p)
  {
    auto &pool   = *pools[p];
    bool rec     = pool.free > 0;
    uint64_t id  = next++;
    size_t alloc = arena->allocated_size();
    if (rec) {
      --pool.free;
    }
    auto was   = making;
    making     = p;
    auto outer = expect_alloc;
    expect_alloc = rec ? alloc : size_t(-1);
    char *o  = nullptr;
    try {
      o = R.sut([&] { return pool.make(id); });
    } catch (std::bad_alloc const &) {
      making       = was;
    expect_alloc = outer;
      R.fault("alloc");
      R.log("%*smake: out of memory", depth, "");
      if (rec) {
        R.fail("pool-recycle", "a new allocation was made although %zu destroyed objects were available", pool.free + 1);
      }
      oom = true;
      return nullptr;
    } catch (Injected const &) {
      making       = was;
    expect_alloc = outer;
      R.fault("constructor throws");
      R.log("%*smake: constructor threw", depth, "");
      if (rec) { // Nothing lost: the storage must be available again.
        ++pool.free;
      }
      return nullptr;
    }
    making       = was;
    expect_alloc = outer;
    if (!o) {
      R.fail("null", "make returned no object");
    }
    auto spot = live.find(o);
    if (spot == live.end() || spot->second.id != id) {
      R.fail("pool-content", "make returned an object other than the one constructed");
    }
    R.log("%*smake %lu in %u%s", depth, "", static_cast<unsigned long>(id), p, rec ? "" : " new");
    return o;
  }
  bool oom         = false;

  void
  destroy(char *o)
  {
    auto rec = live.at(o);
    R.log("%*sdestroy %lu", depth, "", static_cast<unsigned long>(rec.id));
    uint64_t d = dtor;
    R.sut([&] { pools[rec.pool]->destroy(o); });
    if (dtor == d || live.count(o)) {
      if (!(live.count(o) && live[o].id != rec.id)) { // the place may be taken again already
        R.fail("pool-destroy", "destroy did not run the destructor");
      }
    }
    ++pools[rec.pool]->free;
  }

  void
  verify()
  {
    for (auto &[o, rec] : live) {
      bool ok = *reinterpret_cast<uint64_t *>(o) == rec.id;
      size_t body = rec.kind == 0 ? 8 : rec.kind == 1 ? 40 : 292;
      for (size_t i = 8; i < 8 + body; ++i) {
        ok = ok && static_cast<unsigned char>(o[i]) == (rec.id & 0xff);
      }
      if (!ok) {
        R.fail("pool-content", "live object %lu was overwritten", static_cast<unsigned long>(rec.id));
      }
    }
    for (auto &bl : blobs) {
      for (size_t i = 0; i < bl.n; ++i) {
        if (static_cast<unsigned char>(bl.at[i]) != bl.mark) {
          R.fail("pool-share", "memory of the arena that is not part of the pool was overwritten");
        }
      }
    }
  }

  // Objects that are not the child of another.
  std::vector<char *>
  roots()
  {
    std::set<char *> kids;
    for (auto &[o, rec] : live) {
      kids.insert(rec.child);
    }
    std::vector<std::pair<uint64_t, char *>> v;
    for (auto &[o, rec] : live) {
      if (!kids.count(o)) {
        v.emplace_back(rec.id, o);
      }
    }
    std::sort(v.begin(), v.end());
    std::vector<char *> z;
    for (auto &x : v) {
      z.push_back(x.second);
    }
    return z;
  }

  void
  go()
  {
    size_t hint = R.small(4000);
    R.sut([&] { arena.emplace(hint); });
    unsigned n = R.range(1, 3);
    for (unsigned i = 0; i < n; ++i) {
      unsigned k = R.pick(3);
      R.sut([&] {
        if (k == 0) {
          pools.emplace_back(new Pool<Obj<16, 8>>(*arena));
        } else if (k == 1) {
          pools.emplace_back(new Pool<Obj<48, 32>>(*arena));
        } else {
          pools.emplace_back(new Pool<Obj<300, 8>>(*arena));
        }
      });
      pools.back()->kind = k;
    }
    faults         = R.coin();
    bool nest      = R.coin();
    unsigned bias  = R.range(1, 4);
    unsigned order = R.pick(3);
    size_t peak = 0;
    bool frozen = false;
    while (R.more(60, 500)) {
      unsigned op = R.pick(6);
      auto top    = roots();
      depth       = 0;
      if (op <= bias || top.empty()) {
        unsigned p      = R.pick(n);
        bool fail_alloc = faults && R.one_in(5), fail_ctor = faults && R.one_in(5);
        want_depth = nest && R.one_in(3) ? R.range(1, 4) : 0;
        if (fail_ctor) {
          throw_in   = 1 + R.pick(want_depth + 1);
          throw_late = R.coin();
        }
        oom = false;
        if (fail_alloc) {
          R.arm_alloc(R.small(3), R.coin());
        }
        make(p);
        if (!R.disarm_alloc() && oom) {
          R.fail("spurious-bad-alloc", "make reported memory exhaustion but no allocation failed");
        }
        throw_in   = 0;
        want_depth = 0;
      } else if (op == 5 && R.one_in(8)) {
        unsigned p = R.pick(n);
        R.log("clear free list %u", p);
        R.sut([&] { pools[p]->clear(); });
        pools[p]->free = 0;
      } else if (op == 5 && R.one_in(6)) { // others use the arena
        size_t k = 1 + R.small(200);
        auto span = R.sut([&] { return arena->alloc(k); });
        blobs.push_back({static_cast<char *>(span.data()), k, static_cast<unsigned char>(R.pick(256))});
        memset(span.data(), blobs.back().mark, k);
        R.log("other use of %zu", k);
      } else if (op == 5 && !frozen && R.one_in(12)) { // (another freeze would release the memory)
        frozen = true;
        R.log("freeze");
        R.sut([&] { arena->freeze(); });
      } else if (op == 5 && R.one_in(12)) { // The documented way to start over.
        R.log("start over");
        for (auto t = roots(); !t.empty(); t = roots()) {
          destroy(t[R.coin() ? 0 : t.size() - 1]);
        }
        blobs.clear();
        frozen = false;
        R.sut([&] {
          for (auto &p : pools) {
            p->clear();
          }
          attic.clear();
          arena->clear();
        });
        for (auto &p : pools) {
          p->free = 0;
        }
      } else if (op == 5 && R.one_in(20)) {
        frozen = false;
        R.log("arena memory moves");
        R.sut([&] { attic.push_back(std::move(*arena)); });
      } else {
        size_t i = order == 0 ? 0 : order == 1 ? top.size() - 1 : R.pick(top.size());
        respawn = nest && R.one_in(6) ? 1 : 0;
        destroy(top[i]);
        respawn = 0;
      }
      for (auto &p : pools) {
        if (p->in() != &*arena) {
          R.fail("pool-arena", "a pool shows another arena");
        }
      }
      verify();
      peak = std::max(peak, live.size());
      R.state(mix(live.size(), pools[0]->free));
    }
    if (R.ops() > 3) {
      R.nontrivial();
    }
    for (auto top = roots(); !top.empty(); top = roots()) {
      destroy(top.back());
    }
    if (ctor != dtor) {
      R.fail("pool-balance", "%lu constructed, %lu destroyed", static_cast<unsigned long>(ctor), static_cast<unsigned long>(dtor));
    }
    R.sut([&] {
      pools.clear();
      arena.reset();
      attic.clear();
    });
  }
};
PoolSim *PoolSim::self = nullptr;

// ================================================================ A05: what an arena asks of the system
struct ArenaCost {
  Run &R;
  std::unique_ptr<MemArena> arena;
  size_t need    = 0; ///< Bytes asked for since the arena was last empty, with room to align them.
  size_t now     = 0; ///< Bytes currently allocated in this generation.
  size_t hints   = 0; ///< Given by the caller.
  long blocks    = 0; ///< Allocations from the system since the arena was last empty.
  bool plain     = true; ///< Only byte aligned pieces since the arena was last empty.
  size_t failures = 0;
  explicit ArenaCost(Run &r) : R(r) {}

  void
  alloc(size_t n, size_t al)
  {
    long t0   = g_ledger.total;
    bool fail = R.one_in(arena->remnant().size() < n + al - 1 ? 5 : 60);
    if (fail) R.arm_alloc(0, R.coin());
    bool bad = false;
    int how  = R.pick(12);
    size_t room = 0; // in blocks that are not considered full
    for (auto b = arena->begin(); b != arena->end(); ++b)
      if (b->remaining() >= 16) room = std::max(room, b->remaining());
    std::unique_ptr<char[]> text(how == 11 ? new char[n] : nullptr);
    if (how == 11) memset(text.get(), 'x', n);
    try {
      R.sut([&] {
        if (how == 10) static_cast<std::pmr::memory_resource &>(*arena).allocate(n, al);
        else if (how == 11 && al == 1) arena->localize(swoc::TextView(text.get(), n));
        else if (how == 9 && al == 1) arena->alloc_span<char>(n);
        else arena->alloc(n, al);
      });
    } catch (std::bad_alloc const &) {
      bad = true;
    }
    long fired = fail ? R.disarm_alloc() : 0;
    if (fired) R.fault("allocation failed"), ++failures;
    if (bad) {
      if (!fired) R.fail("exception", "an allocation failed without a reason");
      return;
    }
    if (n <= room && room && al == 1 && g_ledger.total != t0) R.fail("calls", "memory for %zu bytes was requested from the system although %zu bytes are free in a block", n, room);
    need   += n + (al > 1 ? al - 1 : 0);
    now    += n;
    blocks += g_ledger.total - t0;
    if (al > 1) plain = false;
    if (arena->allocated_size() < now) R.fail("accounting", "the arena accounts for %zu of %zu bytes", arena->allocated_size(), now);
  }
  /// Every reservation at least doubles what is reserved, and is no more than that if it need not be.
  void
  check(char const *what)
  {
    size_t res = active_reserved();
    if (g_ledger.overflow) return;
    size_t limit = 8 * std::max(need, size_t(64)) + 2 * hints + 8192;
    if (res > limit) R.fail("waste", "%s: %zu bytes are reserved for %zu bytes asked for", what, res, need);
    long most = 3;
    for (size_t x = 16; x < res; x *= 2) ++most;
    if (blocks > most) R.fail("calls", "%s: %ld allocations from the system for %zu reserved bytes", what, blocks, res);
    R.state(mix(mix(blocks, res / 256), need / 256));
  }
  size_t
  active_reserved() const
  {
    size_t n = 0;
    for (auto b = arena->begin(); b != arena->end(); ++b) n += static_cast<size_t>(b->allocated_data_end() - b->data()) + b->remaining();
    return n;
  }
  void
  emptied() // as much as before is expected again
  {
    hints = now;
    need = now = 0;
    blocks = 0;
    plain  = true;
  }
  std::vector<std::pair<size_t, size_t>>
  fill(int kind)
  {
    std::vector<std::pair<size_t, size_t>> made;
    size_t n = R.coin() ? R.small(60) + 1 : R.small(1500) + 1;
    for (size_t i = 0; i < n && need < 4000000; ++i) {
      size_t size = 0, al = 1;
      switch (kind) {
      case 0: size = 1 + R.pick(8); break;                  // names and the like
      case 1: size = R.small(200); al = size_t(1) << R.pick(5); break;
      case 2: size = R.small(9000); break;
      case 3: size = arena->remnant().size() + 1; if (size > 100000) size = R.pick(100); break; // always just too big
      case 4: size = R.coin() ? R.pick(16) : arena->remnant().size(); break; // up to the last byte
      case 5: size = R.one_in(10) ? 5000 + R.pick(20000) : R.pick(64); break;
      default: size = 16 << R.pick(6); al = size_t(8) << R.pick(6);
      }
      alloc(size, al);
      made.emplace_back(size, al);
      if (R.one_in(60)) check("allocating");
    }
    R.log("%zu pieces of kind %d, %zu bytes in %ld blocks of %zu", n, kind, now, blocks, active_reserved());
    check("allocating");
    return made;
  }
  void
  go()
  {
    size_t hint = R.pick(3) ? 0 : R.small(20000);
    R.sut([&] { arena = std::make_unique<MemArena>(hint); });
    hints = hint;
    while (R.more(5, 14)) {
      switch (R.pick(6)) {
      case 0: { // the same again and again
        if (now > 300000) break;
        int kind = R.pick(3) ? R.pick(7) : 0, how = R.pick(3);
        R.sut([&] { arena->clear(); });
        emptied();
        auto pieces = fill(kind);
        size_t first = 0;
        int rounds = 2 + R.pick(6);
        for (int i = 0; i < rounds; ++i) {
          bool was_plain = plain;
          size_t failed0 = failures;
          size_t res0 = active_reserved(), total = now, parts = blocks;
          R.sut([&] {
            if (how == 0) arena->clear();
            else if (how == 1) arena->freeze();
            else arena->discard();
          });
          if (how < 2) emptied();
          else blocks = 0, now = 0;
          size_t left = how == 2 && kind == 0 && total > 24u * 24 ? total - 24 * 24 : total;
          for (auto &[n, al] : pieces) {
            if (now + n > left) break;
            alloc(n, al);
          }
          if (how == 1) R.sut([&] { arena->thaw(); });
          bool same = failures == failed0 && !g_ledger.overflow;
          if (same && how < 2 && was_plain && now && blocks > 1)
            R.fail("calls", "%zu bytes %s need %ld blocks instead of one", total, how ? "copied after a freeze" : "allocated again after clearing", blocks);
          if (same && how == 2 && kind == 0 && total > 24u * 24 && blocks)
            R.fail("calls", "%zu of %zu bytes allocated again after discarding all need %ld more blocks", now, total, blocks);
          if (same && how < 2) {
            if (!first) first = active_reserved();
            else if (active_reserved() > 2 * first + 4096) R.fail("waste", "%zu bytes are reserved to hold %zu bytes again, at first it was %zu", active_reserved(), now, first);
          }
          if (how == 2) need += total;
          else check("filling again");
          if (how == 2) {
            if (active_reserved() < res0) R.fail("accounting", "discarding all released memory");
            blocks = parts + blocks;
          }
        }
        R.log("%d rounds by %s of %zu pieces", rounds, how == 0 ? "clear" : how == 1 ? "freeze" : "discard", pieces.size());
      } break;
      case 1:
        R.sut([&] { arena->clear(); });
        R.log("cleared");
        emptied();
        break;
      case 2:
        R.sut([&] { arena = std::make_unique<MemArena>(std::move(*arena)); });
        R.log("moved");
        break;
      default: fill(R.pick(7));
      }
      R.step();
    }
    R.nontrivial();
    R.sut([&] { arena.reset(); });
  }
};

Register a05{{"A05", [](Run &r) { ArenaCost(r).go(); },
              "one run = a seeded history of batches of up to 1500 allocations (tiny, mixed, aligned, large, just too big for what is left, exactly what is left) in one arena, with clears, moves, rounds of filling it again after clear, freeze or discard, and system allocations that fail; the allocations from the system and the memory reserved are counted and compared with what was asked for; non-trivial: all",
              "(blocks, reserved memory, memory asked for)", {"MemArena"}, {"callers", "malloc (failing on command, counted)"}, {"no further hints are given while the arena is filled"}}};
Register a04{{"A04", [](Run &r) { PoolSim(r).go(); },
              "one run = a seeded create/destroy history of up to 500 operations on up to three pools of up to three classes on one arena that is used directly as well, half of the runs with failing allocations and throwing constructors, half with constructors and destructors that use the pools; non-trivial: more than three operations or a fault",
              "(live objects, recyclable objects)", {"FixedArena", "MemArena"}, {"pooled class", "malloc and operator new (failing on command)"}, {}}};
} // namespace

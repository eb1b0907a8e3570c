// S01-S04: IP spaces, range sets and discrete spaces.
#include "sim.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include "swoc/IPRange.h"
#include "swoc/DiscreteRange.h"
#include "swoc/bwf_ip.h"

using namespace sim;
using swoc::IP4Addr;
using swoc::IP4Range;
using swoc::IP6Addr;
using swoc::IP6Range;
using swoc::IPAddr;
using swoc::IPRange;
using swoc::IPRangeSet;
using swoc::IPSpace;
using u128 = unsigned __int128;

namespace {

// ---------------------------------------------------------------- payload
long g_copy_countdown = -1; // fail a copy of a payload when this reaches 0
bool g_copy_fired     = false;
std::set<void const *> *g_alive = nullptr; // payload objects alive, if tracked
long g_bad_life                 = 0;

struct Color {
  int v = 0;
  int pad = 0x5ca1ab1e;
  static void
  born(Color *c)
  {
    if (g_alive) {
      HostScope hs;
      if (!g_alive->insert(c).second) {
        ++g_bad_life;
      }
    }
  }
  static void
  copying()
  {
    if (g_copy_countdown >= 0 && g_copy_countdown-- == 0) {
      g_copy_fired = true;
      throw Injected{1};
    }
  }
  Color() { born(this); }
  explicit Color(int n) : v(n) { born(this); }
  Color(Color const &that)
  {
    copying();
    v = that.v;
    born(this);
  }
  Color &
  operator=(Color const &that)
  {
    copying();
    if (g_alive && !g_alive->count(this)) {
      ++g_bad_life;
    }
    v = that.v;
    return *this;
  }
  ~Color()
  {
    if (g_alive) {
      HostScope hs;
      if (!g_alive->erase(this)) {
        ++g_bad_life;
      }
    }
    pad = 0;
  }
  bool operator==(Color const &that) const { return v == that.v; }
  bool operator!=(Color const &that) const { return v != that.v; }
};

// ---------------------------------------------------------------- addresses
template <typename A> struct Fam;
template <> struct Fam<IP4Addr> {
  static constexpr int bits = 32;
  using Range               = IP4Range;
  static IP4Addr
  make(u128 x)
  {
    return IP4Addr(static_cast<in_addr_t>(x));
  }
};
template <> struct Fam<IP6Addr> {
  static constexpr int bits = 128;
  using Range               = IP6Range;
  static IP6Addr
  make(u128 x)
  {
    in6_addr a;
    for (int i = 15; i >= 0; --i) {
      a.s6_addr[i]  = static_cast<unsigned char>(x);
      x           >>= 8;
    }
    return IP6Addr(a);
  }
};

u128
value(IPAddr const &a)
{
  u128 v = 0;
  if (a.is_ip4()) {
    v = a.ip4().host_order();
  } else {
    in6_addr n = a.ip6().network_order();
    for (auto b : n.s6_addr) {
      v = (v << 8) | b;
    }
  }
  return v;
}

std::string
str(u128 v)
{
  char b[40];
  auto hi = static_cast<unsigned long>(v >> 64), lo = static_cast<unsigned long>(v);
  if (hi) {
    snprintf(b, sizeof b, "%lx%016lx", hi, lo);
  } else {
    snprintf(b, sizeof b, "%lx", lo);
  }
  return b;
}

/// The whole address space of a family cut in cells, which are painted as a unit.
struct Cell {
  u128 lo, hi;
  std::optional<int> color;
};

struct Family {
  int bits;
  std::vector<Cell> cells;
  u128 top() const { return bits == 32 ? u128(0xffffffffu) : ~u128(0); }
};

enum { C_LOOKUP = 1, C_ORDER = 2 };

struct SpaceSim {
  Run &R;
  unsigned checks;
  bool faults;
  std::optional<IPSpace<Color>> spc_store;
  unsigned rot = 0;
  Family fam[2]; // 0: IPv4, 1: IPv6
  unsigned n_colors;
  bool touched = false; // payloads changed through iterators: equal neighbours are possible

  SpaceSim(Run &r, unsigned c, bool f) : R(r), checks(c), faults(f) {}

  IPSpace<Color> &spc() { return *spc_store; }

  void
  cut(Family &f, int bits)
  {
    f.bits   = bits;
    auto top = f.top();
    std::set<u128> at; // starts of cells
    at.insert(0);
    unsigned blocks = 1 + R.pick(4);
    for (unsigned b = 0; b < blocks; ++b) {
      u128 base;
      unsigned n = 1 + R.pick(12);
      switch (R.pick(5)) {
      case 0:
        base = 0;
        break;
      case 1:
        base = top - n + 1;
        break;
      case 2: // around a boundary of bytes or words
        base = (u128(1) << (8 * (1 + R.pick(bits / 8 - 1)))) - n / 2 - 1;
        break;
      case 3:
        base = (u128(R.pick(200)) << (bits - 8)) + R.pick(1000);
        break;
      default:
        base = bits == 32 ? u128(R.bits64() & 0xfffffff0u) : (u128(R.bits64()) << 64 | R.bits64());
        if (base > top - n) {
          base = top - n;
        }
        break;
      }
      unsigned stride = R.one_in(3) ? 2 + R.pick(20) : 1;
      for (unsigned i = 0; i <= n; ++i) {
        u128 x = base + u128(i) * stride;
        if (x >= base && x <= top) {
          at.insert(x);
        }
      }
    }
    if (R.coin()) {
      at.insert(top);
    }
    std::vector<u128> v(at.begin(), at.end());
    for (size_t i = 0; i < v.size(); ++i) {
      f.cells.push_back(Cell{v[i], i + 1 < v.size() ? v[i + 1] - 1 : top, {}});
    }
  }

  IPAddr
  addr(int k, u128 v)
  {
    return k == 0 ? IPAddr(Fam<IP4Addr>::make(v)) : IPAddr(Fam<IP6Addr>::make(v));
  }
  IPRange
  range(int k, u128 lo, u128 hi)
  {
    return k == 0 ? IPRange(IP4Range(Fam<IP4Addr>::make(lo), Fam<IP4Addr>::make(hi))) :
                    IPRange(IP6Range(Fam<IP6Addr>::make(lo), Fam<IP6Addr>::make(hi)));
  }

  // --- blenders, also used by the model
  struct Blend {
    int kind, c, m;
    bool
    operator()(int &v) const
    {
      switch (kind) {
      case 0: // replace
        v = c;
        return true;
      case 1: // additive
        v = (v + c) % m;
        return true;
      case 2: // bits, empty is invalid
        v ^= c;
        return v != 0;
      case 3: // remove a colour, nothing else
        return v != c && v != 0;
      case 4: // only known addresses
        if (v == 0) {
          return false;
        }
        v = (v + c) % m;
        return true;
      case 5:
        v |= c;
        return true;
      case 6: // declines all
        return false;
      case 7: // decline some
        v = (v * 2 + c) % m;
        return v % 3 != 1;
      default: // the larger
        v = std::max(v, c);
        return true;
      }
    }
  };

  unsigned
  cell_of(Family &f)
  {
    return R.pick(f.cells.size());
  }

  std::optional<int>
  look(int k, u128 v)
  {
    auto a = addr(k, v);
    unsigned how = rot++ % 4;
    return R.sut([&]() -> std::optional<int> {
      auto const &cs = spc();
      auto end       = spc().end();
      auto spot      = how == 0 || how == 2 ? spc().find(a) : k == 0 ? spc().find(a.ip4()) : spc().find(a.ip6());
      if (how >= 2) { // The same through a constant space.
        auto cspot = how == 2 ? cs.find(a) : k == 0 ? cs.find(a.ip4()) : cs.find(a.ip6());
        bool none = cspot == cs.end(), same = cspot == spot;
        HostScope hs;
        if (none != (spot == end) || (!none && !same)) {
          R.fail("find-const", "lookup of %s in a constant space differs", str(v).c_str());
        }
      }
      if (spot == end) {
        return {};
      }
      auto const &val = *spot;
      auto r          = val.range();
      {
        HostScope hs;
        if (value(r.min()) > v || value(r.max()) < v || r.is_ip4() != (k == 0)) {
          R.fail("find-range", "lookup of %s found a range %s-%s that does not contain it", str(v).c_str(), str(value(r.min())).c_str(),
                 str(value(r.max())).c_str());
        }
      }
      return spot->payload().v;
    });
  }

  struct Entry {
    int k;
    u128 lo, hi;
    int v;
  };
  // Everything an iterator shows of a range must be the same range.
  template <typename I>
  void
  probe(I const &spot, Entry const &e)
  {
    R.sut([&] {
      auto view         = spot->range_view();
      auto const &[r, p] = *spot;
      auto tup          = (*spot).tuple();
      IPRange copy{view}, copy2;
      copy2 = view;
      bool ok;
      {
        HostScope hs;
        auto fits = [&](auto const &x) {
          return value(x.min()) == e.lo && value(x.max()) == e.hi && x.is_ip4() == (e.k == 0) && x.is_ip6() == (e.k == 1) && !x.empty() &&
                 x.is(e.k ? AF_INET6 : AF_INET) && !x.is(e.k ? AF_INET : AF_INET6) &&
                 x.min().family() == (e.k ? AF_INET6 : AF_INET) && x.max().family() == x.min().family();
        };
        ok = fits(view) && fits(r) && fits(copy) && fits(copy2) && fits(std::get<0>(tup)) && view.valid() && r.valid() && p.v == e.v &&
             std::get<1>(tup).v == e.v && view == copy && !(view != r);
        for (u128 v : {e.lo, e.hi, e.lo - 1, e.hi + 1}) {
          if (e.k == 0 && v > 0xffffffffu) {
            continue;
          }
          auto a = addr(e.k, v);
          bool in = v >= e.lo && v <= e.hi;
          ok = ok && view.contains(a) == in && copy.contains(a) == in &&
               (e.k == 0 ? view.contains(a.ip4()) == in && view.ip4().contains(a.ip4()) == in && !view.contains(swoc::IP6Addr::MIN) :
                           view.contains(a.ip6()) == in && view.ip6().contains(a.ip6()) == in && !view.contains(swoc::IP4Addr::MIN));
        }
        ok = ok && !view.contains(e.k ? swoc::IPAddr(swoc::IP4Addr::MAX) : swoc::IPAddr(swoc::IP6Addr::MAX));
      }
      if (!ok) {
        R.fail("range-view", "the view of range %s-%s of family %d is not that range", str(e.lo).c_str(), str(e.hi).c_str(), e.k ? 6 : 4);
      }
    });
  }

  template <typename I>
  Entry
  entry(I const &spot)
  {
    auto r = spot->range();
    return Entry{r.is_ip4() ? 0 : 1, value(r.min()), value(r.max()), spot->payload().v};
  }

  std::vector<Entry>
  walk()
  {
    std::vector<Entry> z;
    R.sut([&] {
      for (auto spot = spc().begin(); spot != spc().end(); ++spot) {
        HostScope hs;
        z.push_back(entry(spot));
        if (z.size() > 100000) {
          R.fail("iterate-endless", "forward iteration does not end");
        }
      }
    });
    return z;
  }

  void
  check_shape(char const *when)
  {
    auto z = walk();
    for (size_t i = 0; i < z.size(); ++i) {
      if (z[i].lo > z[i].hi) {
        R.fail("range-empty", "%s: iteration shows an inverted range %s-%s", when, str(z[i].lo).c_str(), str(z[i].hi).c_str());
      }
      if (i > 0) {
        if (z[i - 1].k > z[i].k) {
          R.fail("family-order", "%s: an IPv6 range is followed by an IPv4 range", when);
        }
        if (z[i - 1].k == z[i].k && z[i - 1].hi >= z[i].lo) {
          R.fail("range-order", "%s: ranges %s-%s and %s-%s are not in order or overlap", when, str(z[i - 1].lo).c_str(), str(z[i - 1].hi).c_str(),
                 str(z[i].lo).c_str(), str(z[i].hi).c_str());
        }
      }
    }
  }

  // Runs of cells the iteration must show.
  std::vector<Entry>
  expected(bool coalesced)
  {
    std::vector<Entry> z;
    for (int k = 0; k < 2; ++k) {
      std::optional<int> last;
      for (auto &c : fam[k].cells) {
        if (c.color) {
          if (coalesced && last && *last == *c.color) {
            z.back().hi = c.hi;
          } else {
            z.push_back(Entry{k, c.lo, c.hi, *c.color});
          }
        }
        last = c.color;
      }
    }
    return z;
  }

  void
  check_order()
  {
    auto z = walk();
    // As cells: cut the shown ranges and compare.
    std::vector<Entry> want = expected(true), got;
    for (auto &e : z) {
      if (!got.empty() && touched && got.back().k == e.k && got.back().v == e.v && got.back().hi + 1 == e.lo) {
        got.back().hi = e.hi; // allowed, payloads were changed by the user
      } else {
        got.push_back(e);
      }
    }
    for (size_t i = 0; i < std::max(want.size(), got.size()); ++i) {
      if (i >= want.size() || i >= got.size() || want[i].k != got[i].k || want[i].lo != got[i].lo || want[i].hi != got[i].hi ||
          want[i].v != got[i].v) {
        std::string a = "nothing", b = "nothing";
        if (i < want.size()) {
          a = str(want[i].lo) + "-" + str(want[i].hi) + "=" + std::to_string(want[i].v);
        }
        if (i < got.size()) {
          b = str(got[i].lo) + "-" + str(got[i].hi) + "=" + std::to_string(got[i].v);
        }
        R.fail("iteration", "range %zu should be %s, iteration shows %s", i, a.c_str(), b.c_str());
      }
    }
    size_t n4 = std::count_if(z.begin(), z.end(), [](Entry const &e) { return e.k == 0; }), n6 = z.size() - n4;
    auto const &cs = spc();
    R.sut([&] {
      auto a = spc().count(), b = spc().count_ip4(), c = spc().count_ip6(), d = spc().count(AF_INET), e = spc().count(AF_INET6);
      bool em = spc().empty();
      HostScope hs;
      if (a != z.size() || b != n4 || c != n6 || d != n4 || e != n6 || em != z.empty()) {
        R.fail("counts", "count %zu ip4 %zu/%zu ip6 %zu/%zu empty %d but %zu + %zu ranges are iterated", a, b, d, c, e, em, n4, n6);
      }
    });
    // Backward.
    R.sut([&] {
      size_t i  = z.size();
      auto spot = spc().end();
      while (i > 0) {
        --spot;
        --i;
        HostScope hs;
        auto e = entry(spot);
        if (e.lo != z[i].lo || e.hi != z[i].hi || e.k != z[i].k || e.v != z[i].v) {
          R.fail("backward", "backward iteration shows %s-%s where forward shows %s-%s", str(e.lo).c_str(), str(e.hi).c_str(),
                 str(z[i].lo).c_str(), str(z[i].hi).c_str());
        }
      }
      if (spot != spc().begin()) {
        R.fail("backward", "backward iteration does not end at the first range");
      }
    });
    // Constant, and per family.
    R.sut([&] {
      size_t i = 0;
      for (auto spot = cs.begin(); spot != cs.end(); ++spot, ++i) {
        HostScope hs;
        if (i >= z.size() || entry(spot).lo != z[i].lo) {
          R.fail("const-iteration", "constant iteration differs from iteration");
        }
      }
      for (int k = 0; k < 2; ++k) {
        size_t n = 0;
        auto fb = cs.begin(k ? AF_INET6 : AF_INET), fe = cs.end(k ? AF_INET6 : AF_INET);
        for (; fb != fe; ++fb, ++n) {
          HostScope hs;
          if (n >= (k ? n6 : n4) || entry(fb).lo != z[k ? n4 + n : n].lo || entry(fb).k != k) {
            R.fail("family-iteration", "iteration of one family differs");
          }
        }
        if (n != (k ? n6 : n4)) {
          R.fail("family-iteration", "iteration of one family shows %zu of %zu ranges", n, k ? n6 : n4);
        }
      }
      size_t n = 0;
      for (auto b = spc().begin_ip4(); b != spc().end_ip4(); b++) {
        ++n;
      }
      for (auto b = spc().begin_ip6(); b != spc().end_ip6(); b++) {
        ++n;
      }
      if (n != z.size()) {
        R.fail("family-iteration", "the two families together show %zu of %zu ranges", n, z.size());
      }
    });
    // A walk in both directions from a found place.
    if (!z.empty()) {
      R.sut([&] {
        size_t i;
        {
          HostScope hs;
          i = R.pick(z.size());
        }
        unsigned src;
        {
          HostScope hs;
          src = R.pick(6);
        }
        auto a0 = addr(z[i].k, z[i].lo);
        auto rover = [&](auto spot, auto const &begin, auto const &end) {
          unsigned moves;
          {
            HostScope hs;
            moves = R.pick(12);
          }
          while (moves--) {
            bool fwd, post;
            {
              HostScope hs;
              fwd  = R.coin();
              post = R.one_in(3);
            }
            size_t at = i;
            auto was  = spot;
            if (fwd && i < z.size()) {
              if (post) {
                was = spot++;
              } else {
                ++spot;
              }
              ++i;
            } else if (!fwd && i > 0) {
              if (post) {
                was = spot--;
              } else {
                --spot;
              }
              --i;
            }
            {
              HostScope hs;
              if ((spot == begin) != (i == 0) || (spot == end) != (i == z.size()) || (spot != was) != (i != at)) {
                R.fail("walk", "an iterator at range %zu of %zu does not compare as it should", i, z.size());
              }
              for (auto x : {std::pair{&spot, i}, std::pair{&was, at}}) {
                if (x.second >= z.size()) {
                  continue;
                }
                auto e = entry(*x.first);
                auto &w = z[x.second];
                if (e.lo != w.lo || e.hi != w.hi || e.k != w.k || e.v != w.v) {
                  R.fail("walk", "moving an iterator shows %s-%s instead of %s-%s", str(e.lo).c_str(), str(e.hi).c_str(), str(w.lo).c_str(),
                         str(w.hi).c_str());
                }
                probe(*x.first, w);
              }
              using It = std::decay_t<decltype(spot)>;
              It other{spot}; // Copies are independent of each other.
              other = was;
              if (other != was) {
                R.fail("walk", "an assigned iterator differs from its source");
              }
            }
          }
        };
        switch (src) {
        case 0:
          rover(spc().find(a0), spc().begin(), spc().end());
          break;
        case 1:
          rover(cs.find(a0), cs.begin(), cs.end());
          break;
        case 2:
          rover(spc().intersection(IPRange{a0, a0}).first, spc().begin(), spc().end());
          break;
        case 3:
          i = 0;
          rover(spc().begin_ip4(), spc().begin(), spc().end_ip6());
          break;
        case 4:
          i = n4;
          rover(cs.begin_ip6(), cs.begin_ip4(), cs.end_ip6());
          break;
        default:
          i = n4;
          rover(spc().end_ip4(), spc().begin_ip4(), spc().end());
          break;
        }
      });
    }
    // Intersections.
    for (unsigned q = 0; q < 3; ++q) {
      int k   = R.pick(2);
      auto &f = fam[k];
      unsigned a = cell_of(f), b = cell_of(f);
      if (a > b) {
        std::swap(a, b);
      }
      u128 lo = f.cells[a].lo, hi = f.cells[b].hi;
      if (R.one_in(3)) {
        lo = f.cells[a].hi; // inside a cell
      }
      if (R.one_in(3)) {
        hi = f.cells[b].lo;
      }
      if (lo > hi) {
        std::swap(lo, hi);
      }
      std::vector<Entry> want2;
      for (auto &e : z) {
        if (e.k == k && e.lo <= hi && e.hi >= lo) {
          want2.push_back(e);
        }
      }
      R.sut([&] {
        auto rg     = range(k, lo, hi);
        bool own    = rot++ % 2;
        auto [s, e] = !own ? spc().intersection(rg) : k == 0 ? spc().intersection(rg.ip4()) : spc().intersection(rg.ip6());
        size_t i    = 0;
        for (; s != e; ++s, ++i) {
          HostScope hs;
          if (i >= want2.size() || entry(s).lo != want2[i].lo || entry(s).k != k) {
            R.fail("intersection", "intersection with %s-%s shows %s-%s", str(lo).c_str(), str(hi).c_str(), str(entry(s).lo).c_str(),
                   str(entry(s).hi).c_str());
          }
        }
        if (i != want2.size()) {
          R.fail("intersection", "intersection with %s-%s shows %zu of %zu ranges", str(lo).c_str(), str(hi).c_str(), i, want2.size());
        }
      });
    }
  }

  void
  check_lookup(bool all)
  {
    for (int k = 0; k < 2; ++k) {
      auto &f    = fam[k];
      unsigned n = all ? f.cells.size() : std::min<unsigned>(f.cells.size(), 6);
      for (unsigned i = 0; i < n; ++i) {
        unsigned c = all ? i : R.pick(f.cells.size());
        auto &cell = f.cells[c];
        u128 mid   = cell.lo + (cell.hi - cell.lo) / 2;
        for (u128 v : {cell.lo, mid, cell.hi}) {
          auto got = look(k, v);
          if (got != cell.color) {
            R.fail("lookup", "address %s of family %d is %s, should be %s", str(v).c_str(), k ? 6 : 4,
                   got ? std::to_string(*got).c_str() : "not found", cell.color ? std::to_string(*cell.color).c_str() : "not found");
          }
        }
      }
    }
  }

  // After a failed operation: each cell has its old or new colour, cells outside are as before. Take over what is there.
  void
  reconcile(int k, unsigned a, unsigned b, std::vector<std::optional<int>> const &after)
  {
    check_shape("after a failure");
    for (int j = 0; j < 2; ++j) {
      auto &f = fam[j];
      for (unsigned i = 0; i < f.cells.size(); ++i) {
        auto &c  = f.cells[i];
        auto lo  = look(j, c.lo);
        auto hi  = look(j, c.hi);
        auto mid = look(j, c.lo + (c.hi - c.lo) / 2);
        if (lo != hi || lo != mid) {
          R.fail("partial-cell", "after a failure addresses %s and %s are painted differently", str(c.lo).c_str(), str(c.hi).c_str());
        }
        bool inside = j == k && i >= a && i <= b;
        if (lo == c.color || (inside && lo == after[i - a])) {
          c.color = lo;
          continue;
        }
        R.fail(inside ? "failed-neither" : "failed-outside", "after a failed operation address %s of family %d (%s the range) is %s, was %s%s%s",
               str(c.lo).c_str(), j ? 6 : 4, inside ? "in" : "outside", lo ? std::to_string(*lo).c_str() : "not found",
               c.color ? std::to_string(*c.color).c_str() : "not found", inside ? ", would be " : "",
               inside ? (after[i - a] ? std::to_string(*after[i - a]).c_str() : "not found") : "");
      }
    }
  }

  void
  op()
  {
    int k     = R.pick(2);
    Family &f = fam[k];
    unsigned a = cell_of(f), b = a;
    switch (R.pick(4)) {
    case 0:
      b = std::min<size_t>(f.cells.size() - 1, a + R.pick(4));
      break;
    case 1:
      b = cell_of(f);
      break;
    default:
      break;
    }
    if (a > b) {
      std::swap(a, b);
    }
    if (R.one_in(40)) {
      a = 0;
    }
    if (R.one_in(40)) {
      b = f.cells.size() - 1;
    }
    u128 lo = f.cells[a].lo, hi = f.cells[b].hi;
    unsigned what = R.pick(20);
    int color     = R.pick(n_colors) + (R.one_in(12) ? 0 : 1);
    Color c;
    c.v = color;
    auto r = range(k, lo, hi);
    std::vector<std::optional<int>> after;
    Blend bl{0, color, static_cast<int>(n_colors + 2)};
    bool fl_alloc = faults && R.pct(20), fl_copy = faults && R.pct(20), fl_blend = faults && R.pct(20);
    long blend_countdown = fl_blend ? static_cast<long>(R.pick(4)) : -1;
    auto arm             = [&] {
      g_copy_fired = false;
      if (fl_copy) {
        g_copy_countdown = R.small(6);
      }
      if (fl_alloc) {
        R.arm_alloc(R.small(3), R.coin());
      }
    };
    bool blend_fired = false;
    enum { OK, THROWN } out = OK;
    auto attempt = [&](auto &&fn) {
      arm();
      try {
        R.sut(fn);
      } catch (Injected const &) {
        out = THROWN;
      } catch (std::bad_alloc const &) {
        out = THROWN;
      }
      g_in_sut         = false;
      g_copy_countdown = -1;
      long fired       = R.disarm_alloc();
      if (fired) {
        R.fault("alloc-fail");
      }
      if (g_copy_fired) {
        R.fault("payload-copy-throw");
      }
      if (blend_fired) {
        R.fault("blender-throw");
      }
      if (out == THROWN && !fired && !g_copy_fired && !blend_fired) {
        R.fail("exception", "an exception was thrown although nothing failed");
      }
    };
    if (what < 6) {
      R.log("mark %d %s-%s %d", k, str(lo).c_str(), str(hi).c_str(), color);
      after.assign(b - a + 1, color);
      attempt([&] { spc().mark(r, c); });
    } else if (what < 10) {
      R.log("fill %d %s-%s %d", k, str(lo).c_str(), str(hi).c_str(), color);
      for (unsigned i = a; i <= b; ++i) {
        after.push_back(f.cells[i].color ? f.cells[i].color : std::optional<int>(color));
      }
      attempt([&] { spc().fill(r, c); });
    } else if (what < 13) {
      R.log("erase %d %s-%s", k, str(lo).c_str(), str(hi).c_str());
      after.assign(b - a + 1, std::nullopt);
      attempt([&] { spc().erase(r); });
    } else if (what < 19) {
      bl.kind = R.pick(9);
      R.log("blend %d %s-%s %d with %d", k, str(lo).c_str(), str(hi).c_str(), color, bl.kind);
      for (unsigned i = a; i <= b; ++i) {
        int v = f.cells[i].color ? *f.cells[i].color : 0;
        after.push_back(bl(v) ? std::optional<int>(v) : std::nullopt);
      }
      auto blender = [&](Color &x, int) -> bool {
        HostScope hs;
        if (blend_countdown >= 0 && blend_countdown-- == 0) {
          blend_fired = true;
          throw Injected{2};
        }
        return bl(x.v);
      };
      auto blender2 = [&](Color &x, Color const &y) -> bool { return blender(x, y.v); };
      switch (R.pick(3)) {
      case 0:
        attempt([&] { spc().blend(r, color, blender); });
        break;
      case 1:
        attempt([&] { spc().blend(r, c, blender2); });
        break;
      default:
        if (k == 0) {
          attempt([&] { spc().blend(r.ip4(), color, blender); });
        } else {
          attempt([&] { spc().blend(r.ip6(), color, blender); });
        }
      }
    } else if (R.one_in(6)) {
      R.log("clear");
      R.sut([&] { spc().clear(); });
      for (auto &ff : fam) {
        for (auto &cell : ff.cells) {
          cell.color.reset();
        }
      }
      touched = false;
      return;
    } else {
      // Payload changed by the user, through an iterator.
      if (faults || (checks & C_ORDER)) {
        return;
      }
      auto spot = R.sut([&] { return spc().find(addr(k, lo)); });
      if (spot != spc().end()) {
        auto e = entry(spot);
        R.log("iterator sets %s-%s to %d", str(e.lo).c_str(), str(e.hi).c_str(), color);
        spot->payload().v = color;
        touched           = true;
        for (auto &cell : f.cells) {
          if (cell.lo >= e.lo && cell.hi <= e.hi) {
            cell.color = color;
          }
        }
      }
      return;
    }
    if (out == OK) {
      for (unsigned i = a; i <= b; ++i) {
        f.cells[i].color = after[i - a];
      }
    } else {
      R.log("failed");
      reconcile(k, a, b, after);
    }
  }

  void
  go()
  {
    std::set<void const *> alive;
    g_alive          = &alive;
    g_bad_life       = 0;
    g_copy_countdown = -1;
    cut(fam[0], 32);
    cut(fam[1], 128);
    n_colors = 1 + R.pick(4);
    R.sut([&] { spc_store.emplace(); });
    unsigned mean = R.coin() ? 12 : 60;
    unsigned every = 1 + R.pick(6), n = 0;
    while (R.more(mean, 400)) {
      op();
      if (++n % every == 0) {
        inspect(false);
      }
      uint64_t h = 1;
      for (int k = 0; k < 2; ++k) {
        for (auto &c : fam[k].cells) {
          h = mix(h, c.color ? *c.color + 1 : 0);
        }
      }
      R.state(h);
    }
    inspect(true);
    if (R.ops() > 2) {
      R.nontrivial();
    }
    size_t shown = walk().size();
    if (faults && alive.size() != shown) {
      R.fail("payload-leak", "%zu payloads are alive but only %zu ranges exist", alive.size(), shown);
    }
    if (R.coin()) {
      R.sut([&] { spc().clear(); });
      if (faults && !alive.empty()) {
        R.fail("payload-leak", "%zu payloads are alive after clear", alive.size());
      }
    }
    R.sut([&] { spc_store.reset(); });
    if (faults && (!alive.empty() || g_bad_life)) {
      R.fail("payload-balance", "%zu payloads were never destroyed, %ld were destroyed or made twice", alive.size(), g_bad_life);
    }
    g_alive = nullptr;
  }

  void
  inspect(bool all)
  {
    if (faults) {
      check_shape("between operations");
      check_lookup(all);
      return;
    }
    if (checks & C_LOOKUP) {
      check_lookup(all);
    }
    if (checks & C_ORDER) {
      check_order();
    }
  }
};

// ---------------------------------------------------------------- range set
struct SetSim {
  Run &R;
  SpaceSim S; // for the cells
  SetSim(Run &r) : R(r), S(r, 0, false) {}
  void
  go()
  {
    S.cut(S.fam[0], 32);
    S.cut(S.fam[1], 128);
    std::optional<IPRangeSet> set;
    R.sut([&] { set.emplace(); });
    while (R.more(20, 300)) {
      int k   = R.pick(2);
      auto &f = S.fam[k];
      unsigned a = S.cell_of(f), b = R.coin() ? a : S.cell_of(f);
      if (a > b) {
        std::swap(a, b);
      }
      auto r = S.range(k, f.cells[a].lo, f.cells[b].hi);
      if (R.one_in(30)) {
        R.log("set clear");
        R.sut([&] { set->clear(); });
        for (auto &ff : S.fam) {
          for (auto &c : ff.cells) {
            c.color.reset();
          }
        }
      } else {
        bool fill = R.coin();
        R.log("set %s %d %s-%s", fill ? "fill" : "mark", k, str(f.cells[a].lo).c_str(), str(f.cells[b].hi).c_str());
        R.sut([&] { fill ? set->fill(r) : set->mark(r); });
        for (unsigned i = a; i <= b; ++i) {
          f.cells[i].color = 1;
        }
      }
      auto want = S.expected(true);
      R.sut([&] {
        size_t i = 0;
        auto spot = set->begin();
        for (; spot != set->end(); ++spot, ++i) {
          IPRange r{*spot};
          bool same = spot->min() == r.min() && spot->max() == r.max() && *spot == r;
          HostScope hs;
          if (!same || i >= want.size() || value(r.min()) != want[i].lo || value(r.max()) != want[i].hi || r.is_ip4() != (want[i].k == 0)) {
            R.fail("set-iteration", "range set shows %s-%s as range %zu", str(value(r.min())).c_str(), str(value(r.max())).c_str(), i);
          }
        }
        if (i != want.size() || set->count() != i || set->empty() != (i == 0)) {
          R.fail("set-count", "range set shows %zu ranges of %zu, count %zu", i, want.size(), set->count());
        }
        while (i > 0) {
          --spot;
          --i;
          IPRange r{*spot};
          HostScope hs;
          if (value(r.min()) != want[i].lo) {
            R.fail("set-backward", "backward iteration of the range set differs");
          }
        }
      });
      for (unsigned q = 0; q < 6; ++q) {
        int kk  = R.pick(2);
        auto &c = S.fam[kk].cells[S.cell_of(S.fam[kk])];
        u128 v  = R.coin() ? c.lo : c.hi;
        bool in = R.sut([&] { return set->contains(S.addr(kk, v)); });
        if (in != c.color.has_value()) {
          R.fail("set-contains", "address %s of family %d is %sin the set", str(v).c_str(), kk ? 6 : 4, in ? "" : "not ");
        }
      }
      R.state(mix(7, want.size()));
    }
    if (R.ops() > 2) {
      R.nontrivial();
    }
    R.sut([&] { set.reset(); });
  }
};

// ---------------------------------------------------------------- lookup cost
uint64_t g_compares = 0;
struct Metric {
  uint32_t v = 0;
  static Metric const MIN, MAX;
  Metric() = default;
  Metric(uint32_t n) : v(n) {}
  Metric &
  operator++()
  {
    ++v;
    return *this;
  }
  Metric &
  operator--()
  {
    --v;
    return *this;
  }
  bool operator<(Metric const &t) const { return ++g_compares, v < t.v; }
  bool operator<=(Metric const &t) const { return ++g_compares, v <= t.v; }
  bool operator>(Metric const &t) const { return ++g_compares, v > t.v; }
  bool operator>=(Metric const &t) const { return ++g_compares, v >= t.v; }
  bool operator==(Metric const &t) const { return ++g_compares, v == t.v; }
  bool operator!=(Metric const &t) const { return ++g_compares, v != t.v; }
};
Metric const Metric::MIN{0};
Metric const Metric::MAX{0xffffffffu};

struct CostSim {
  using Space = swoc::DiscreteSpace<Metric, int>;
  using Range = swoc::DiscreteRange<Metric>;
  Run &R;
  std::optional<Space> spc;
  std::map<uint32_t, std::pair<uint32_t, int>> model; // min -> max, payload. No two touch with the same payload.
  CostSim(Run &r) : R(r) {}
  int color = 0;

  void
  set(uint32_t lo, uint32_t hi, bool on, bool fill = false)
  {
    // model
    auto clear = [&] {
      auto it = model.upper_bound(hi);
      while (it != model.begin()) {
        --it;
        auto [mn, rest] = *it;
        if (rest.first < lo) {
          break;
        }
        it = model.erase(it);
        if (rest.first > hi) {
          model[hi + 1] = rest;
        }
        if (mn < lo) {
          model[mn] = {lo - 1, rest.second};
        }
        it = model.upper_bound(hi);
      }
    };
    R.step();
    if (!on) {
      clear();
      R.sut([&] { spc->erase(Range(lo, hi)); });
      return;
    }
    ++color; // all different, so ranges do not merge
    if (fill) {
      uint32_t at = lo;
      std::vector<std::pair<uint32_t, uint32_t>> gaps;
      auto it = model.upper_bound(lo);
      if (it != model.begin() && std::prev(it)->second.first >= lo) {
        --it;
      }
      bool done = false;
      for (; it != model.end() && it->first <= hi; ++it) {
        if (it->first > at) {
          gaps.push_back({at, it->first - 1});
        }
        if (it->second.first >= hi) {
          done = true;
          break;
        }
        at = it->second.first + 1;
      }
      if (!done && at <= hi) {
        gaps.push_back({at, hi});
      }
      for (auto [g, h] : gaps) {
        model[g] = {h, color};
      }
      R.sut([&] { spc->fill(Range(lo, hi), color); });
    } else {
      clear();
      model[lo] = {hi, color};
      R.sut([&] { spc->mark(Range(lo, hi), color); });
    }
  }

  // Cost of looking up @a v.
  uint64_t
  cost(uint32_t v)
  {
    g_compares = 0;
    auto spot  = R.sut([&] { return spc->find(Metric(v)); });
    auto n     = g_compares;
    auto it    = model.upper_bound(v);
    bool in    = it != model.begin() && std::prev(it)->second.first >= v;
    bool found = spot != spc->end();
    if (in != found || (found && spot->payload() != std::prev(it)->second.second)) {
      R.fail("lookup", "value %u is %sfound", v, found ? "" : "not ");
    }
    return n;
  }

  uint64_t worst = 0;
  void
  check(unsigned samples)
  {
    if (R.sut([&] { return spc->count(); }) != model.size()) {
      R.fail("count", "%zu ranges counted, %zu expected", spc->count(), model.size());
    }
    double limit = 10 * std::log2(model.size() + 1.0) + 14;
    auto one     = [&](uint32_t v) {
      auto n = cost(v);
      worst  = std::max(worst, n);
      if (n > limit) {
        R.fail("lookup-cost", "looking up %u among %zu ranges took %lu comparisons", v, model.size(), static_cast<unsigned long>(n));
      }
    };
    if (model.empty()) {
      one(5);
      return;
    }
    if (samples == 0 || model.size() <= samples) {
      for (auto const &[mn, rest] : model) {
        one(mn);
        one(rest.first);
      }
    } else {
      for (unsigned i = 0; i < samples; ++i) {
        auto it = model.lower_bound(R.bits64());
        if (it == model.end()) {
          it = model.begin();
        }
        one(it->first);
        one(it->second.first + (R.coin() ? 1 : 0));
      }
      one(model.begin()->first);
      one(model.rbegin()->first);
    }
    R.state(mix(mix(11, model.size()), worst));
    R.count("size-log2", 0);
  }

  void
  go()
  {
    R.sut([&] { spc.emplace(); });
    unsigned phases = 1 + R.pick(6);
    unsigned scale  = 1u << (3 + R.pick(9)); // up to 16384
    uint32_t stride = 4 + R.pick(100);
    for (unsigned p = 0; p < phases && R.more(8, 12); ++p) {
      unsigned kind = R.pick(9);
      unsigned n    = 1 + R.pick(scale);
      R.log("phase %u of %u", kind, n);
      switch (kind) {
      case 0: // ascending
      {
        uint32_t at = model.empty() || R.coin() ? 1000 : model.rbegin()->second.first + 1;
        for (unsigned i = 0; i < n && at < 0xf0000000u; ++i, at += stride) {
          set(at, at + R.pick(stride), true);
        }
      } break;
      case 1: // descending
      {
        uint32_t at = model.empty() || R.coin() ? 0x80000000u : model.begin()->first - 1;
        for (unsigned i = 0; i < n && at > 2 * stride + 10; ++i, at -= stride) {
          set(at - R.pick(stride), at, true);
        }
      } break;
      case 2: // from both ends
      {
        uint32_t lo = 1000, hi = 0xf0000000u;
        for (unsigned i = 0; i < n; ++i) {
          if (i & 1) {
            set(lo, lo + 1, true);
            lo += stride;
          } else {
            set(hi - 1, hi, true);
            hi -= stride;
          }
        }
      } break;
      case 3: // random
        for (unsigned i = 0; i < n; ++i) {
          uint32_t v = R.pick(0xf0000000u);
          set(v, v + R.pick(stride), true, R.one_in(4));
        }
        break;
      case 4: // erase random ones
        for (unsigned i = 0; i < n && model.size() > 1; ++i) {
          auto it = model.lower_bound(R.pick(0xf0000000u));
          if (it == model.end()) {
            it = model.begin();
          }
          set(it->first, it->second.first, false);
        }
        break;
      case 5: // erase in order, from one end
      {
        bool front = R.coin();
        for (unsigned i = 0; i < n && model.size() > 1; ++i) {
          auto it = front ? model.begin() : std::prev(model.end());
          set(it->first, it->second.first, false);
        }
      } break;
      case 6: // keep those that are expensive to look up, erase the others
      {
        std::vector<std::pair<uint64_t, uint32_t>> by;
        for (auto const &[mn, rest] : model) {
          by.push_back({cost(mn), mn});
        }
        std::sort(by.begin(), by.end());
        size_t keep = 1 + R.pick(40);
        for (size_t i = 0; i + keep < by.size(); ++i) {
          auto it = model.find(by[i].second);
          set(it->first, it->second.first, false);
        }
      } break;
      case 7: // punch holes in a large one
      {
        uint32_t lo = R.pick(0x10000000u), hi = lo + n * stride * 2;
        set(lo, hi, true);
        for (unsigned i = 0; i < n; ++i) {
          uint32_t at = lo + R.pick(hi - lo);
          set(at, at, R.coin());
        }
      } break;
      default: // sliding window
      {
        uint32_t at = model.empty() ? 1000 : model.rbegin()->second.first + stride;
        for (unsigned i = 0; i < n && at < 0xf0000000u; ++i, at += stride) {
          set(at, at + 1, true);
          if (model.size() > 20) {
            set(model.begin()->first, model.begin()->second.first, false);
          }
        }
      } break;
      }
      check(R.coin() ? 0 : 60);
    }
    check(0);
    if (R._steps > 8) {
      R.nontrivial();
    }
    R.count("ranges", model.size());
    R.sut([&] { spc.reset(); });
  }
};

Register s01{{"S01", [](Run &r) { SpaceSim(r, C_LOOKUP, false).go(); },
              "one run = a seeded history of up to 400 mark/fill/erase/blend/clear operations on one IP space over an address universe cut into cells by the seed (both families, ends of the space, word boundaries, strides); every operation and lookup is repeated on a per-cell map; non-trivial: more than two operations",
              "colours of all cells", {"IPSpace", "DiscreteSpace", "RBNode", "FixedArena", "MemArena"}, {"payload class", "blenders"}, {"empty ranges are not passed in"}}};
Register s02{{"S02",
              [](Run &r) {
                if (r.one_in(4)) {
                  SetSim(r).go();
                } else {
                  SpaceSim(r, C_ORDER, false).go();
                }
              },
              "one run = a seeded painting history on an IP space (3 of 4) or IP range set, after which iteration both ways, per family, constant, counts and intersections are compared with the cells; non-trivial: more than two operations",
              "colours of all cells", {"IPSpace", "IPRangeSet", "DiscreteSpace", "RBNode", "IntrusiveDList"}, {"payload class", "blenders"}, {"empty ranges are not passed in"}}};
Register s03{{"S03", [](Run &r) { SpaceSim(r, C_LOOKUP, !r.one_in(8)).go(); },
              "one run = a seeded painting history where allocations, payload copies and blender calls fail at seeded points; after each failure every cell must be as before or as painted; non-trivial: a fault fired or more than two operations",
              "colours of all cells", {"IPSpace", "DiscreteSpace", "RBNode", "FixedArena", "MemArena"}, {"payload class (throwing on command)", "blenders (throwing on command)", "malloc and operator new (failing on command)"},
              {"a failing payload assignment leaves the payload as it was", "comparison and destruction of payloads do not throw"}}};
Register s04{{"S04", [](Run &r) { CostSim(r).go(); },
              "one run = up to 12 phases of up to 16384 insertions or removals in a seeded order (ascending, descending, converging, random, cost-guided removal, sliding window, holes); comparisons per lookup are counted by the metric type and bounded by 10 log2(n+1) + 14 (a red-black tree with four comparisons a level needs at most 8 log2(n+1)); non-trivial: more than 8 changes",
              "(ranges, worst cost)", {"DiscreteSpace", "RBNode"}, {"metric type counting comparisons"}, {}}};
} // namespace

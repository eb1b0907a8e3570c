// H01 H02 L01 X01 X02 X03 X04 V01: intrusive hash map, intrusive list, lexicon, stream hash, scoped values, small-buffer vector.
#include "sim.h"
#include <algorithm>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <memory_resource>
#include <set>
#include <unordered_map>
#include "swoc/IntrusiveDList.h"
#include "swoc/IntrusiveHashMap.h"
#include "swoc/Lexicon.h"
#include "swoc/Vectray.h"
#include "swoc/swoc_meta.h"
#include "swoc/bwf_base.h"
#include "swoc/ext/HashFNV.h"

using namespace sim;
using swoc::TextView;

namespace {

/// Call library code, allocations may be failing. @return @c true if it reported running out of memory.
template <typename F>
bool
oom(Run &R, char const *what, F &&f)
{
  try {
    R.sut(f);
  } catch (std::bad_alloc const &) {
    return true;
  } catch (std::exception const &x) {
    R.fail("exception", "%s threw %s", what, x.what());
  }
  return false;
}

// ================================================================ L01: intrusive list
struct Node {
  int id;
  Node *_next{nullptr};
  Node *_prev{nullptr};
  struct Other {
    Node *n{nullptr};
    Node *p{nullptr};
  } other;
  explicit Node(int i) : id(i) {}
  Node(Node const &)            = delete;
  Node &operator=(Node const &) = delete;
};
struct LinkA {
  static Node *&next_ptr(Node *n) { return n->_next; }
  static Node *&prev_ptr(Node *n) { return n->_prev; }
};
struct LinkB {
  static Node *&next_ptr(Node *n) { return n->other.n; }
  static Node *&prev_ptr(Node *n) { return n->other.p; }
};
using LinkC = swoc::IntrusiveLinkage<Node, &Node::_next, &Node::_prev>;
using LinkD = swoc::IntrusiveLinkageRebind<Node, LinkC>;

template <typename L> struct ListWorld {
  using List = swoc::IntrusiveDList<L>;
  using Ids  = std::vector<int>;
  static constexpr unsigned K = 3;

  Run &R;
  std::map<int, Node *> &pool;
  char const *tag;
  List lists[K];
  Ids model[K];
  struct Held {
    typename List::iterator it;
    unsigned list;
    int id; ///< -1: end
  };
  std::vector<Held> held;

  ListWorld(Run &r, std::map<int, Node *> &p, char const *t) : R(r), pool(p), tag(t) {}

  bool
  used(int id) const
  {
    for (auto const &m : model) {
      if (std::find(m.begin(), m.end(), id) != m.end()) {
        return true;
      }
    }
    return false;
  }
  int
  free_id()
  {
    std::vector<int> c;
    for (auto const &[id, n] : pool) {
      if (!used(id)) {
        c.push_back(id);
      }
    }
    return c.empty() ? -1 : c[R.pick(c.size())];
  }
  static std::string
  text(Ids const &v)
  {
    std::string s = "[";
    for (int x : v) {
      s += (s.size() > 1 ? " " : "") + std::to_string(x);
    }
    return s + "]";
  }
  void
  unlinked(Node *n, char const *op)
  {
    if (L::next_ptr(n) || L::prev_ptr(n)) {
      R.fail("links", "%s: element %d removed by %s still carries links", tag, n->id, op);
    }
  }
  void
  drop_held(int id)
  {
    held.erase(std::remove_if(held.begin(), held.end(), [=](Held const &h) { return h.id == id; }), held.end());
  }
  void
  drop_held_all(Ids const &ids)
  {
    for (int id : ids) {
      drop_held(id);
    }
  }
  void
  check(unsigned k)
  {
    List &l        = lists[k];
    List const &cl = l;
    Ids got;
    for (auto &n : l) {
      got.push_back(n.id);
      if (got.size() > model[k].size() + 2) {
        break;
      }
    }
    if (got != model[k]) {
      R.fail("sequence", "%s list %u is %s, expected %s", tag, k, text(got).c_str(), text(model[k]).c_str());
    }
    if (l.count() != model[k].size() || l.empty() != model[k].empty() || cl.count() != model[k].size()) {
      R.fail("count", "%s list %u counts %zu elements of %zu", tag, k, l.count(), model[k].size());
    }
    got.clear();
    for (auto spot = l.end(); spot != l.begin();) {
      --spot;
      if (!static_cast<Node *>(spot) || got.size() > model[k].size()) {
        R.fail("sequence", "%s list %u does not iterate backward", tag, k);
      }
      got.push_back(spot->id);
    }
    std::reverse(got.begin(), got.end());
    if (got != model[k]) {
      R.fail("sequence", "%s list %u backward is %s, expected %s", tag, k, text(got).c_str(), text(model[k]).c_str());
    }
    got.clear();
    for (auto spot = cl.end(); spot != cl.begin();) {
      spot--;
      got.push_back((*spot).id);
      if (got.size() > model[k].size()) {
        break;
      }
    }
    std::reverse(got.begin(), got.end());
    Ids fwd;
    for (auto spot = cl.begin(); spot != cl.end() && fwd.size() <= model[k].size();) {
      fwd.push_back((spot++)->id);
    }
    if (got != model[k] || fwd != model[k]) {
      R.fail("sequence", "%s list %u does not iterate as a constant", tag, k);
    }
    Node *h = l.head(), *t = l.tail();
    if (model[k].empty() ? (h || t) : (!h || !t || h->id != model[k].front() || t->id != model[k].back())) {
      R.fail("ends", "%s list %u has the wrong ends", tag, k);
    }
    if (cl.head() != h || cl.tail() != t) {
      R.fail("ends", "%s list %u has different ends as a constant", tag, k);
    }
    if (h && (L::prev_ptr(h) || L::next_ptr(t))) {
      R.fail("links", "%s list %u has links past the ends", tag, k);
    }
  }
  void
  check_held()
  {
    for (auto &h : held) {
      if (h.id < 0) {
        if (h.it != lists[h.list].end()) {
          R.fail("iterator", "%s: a held end iterator of list %u changed", tag, h.list);
        }
        auto p = h.it;
        if (!model[h.list].empty() && (--p)->id != model[h.list].back()) {
          R.fail("iterator", "%s: a held end iterator of list %u does not step back to the last element", tag, h.list);
        }
        if (h.it.has_prev() == model[h.list].empty() || h.it.has_next()) {
          R.fail("iterator", "%s: a held end iterator of list %u is wrong about its neighbours", tag, h.list);
        }
        continue;
      }
      for (unsigned k = 0; k < K; ++k) {
        auto spot = std::find(model[k].begin(), model[k].end(), h.id);
        if (spot == model[k].end()) {
          continue;
        }
        bool first = spot == model[k].begin(), last = spot + 1 == model[k].end();
        if (h.it->id != h.id || h.it.has_prev() == first || h.it.has_predecessor() == first || h.it.has_successor() == last || !h.it.has_next()) {
          R.fail("iterator", "%s: a held iterator at %d is wrong about its neighbours", tag, h.id);
        }
        auto nx = h.it;
        ++nx;
        if (last ? nx != lists[k].end() : nx->id != spot[1]) {
          R.fail("iterator", "%s: a held iterator at %d steps to the wrong element", tag, h.id);
        }
        if (!first) {
          auto pv = h.it;
          --pv;
          if (pv->id != spot[-1]) {
            R.fail("iterator", "%s: a held iterator at %d steps back to the wrong element", tag, h.id);
          }
        }
      }
    }
  }
  void
  expect(typename List::iterator const &it, unsigned k, size_t pos, char const *op)
  {
    if (pos >= model[k].size() ? it != lists[k].end() : (it == lists[k].end() || it->id != model[k][pos])) {
      R.fail("result", "%s: %s returned the wrong position", tag, op);
    }
    if (pos >= model[k].size() && !model[k].empty()) { // must be usable as the end.
      auto p = it;
      if ((--p)->id != model[k].back()) {
        R.fail("result", "%s: %s did not return a usable end", tag, op);
      }
    }
  }
  void
  op()
  {
    unsigned k = R.pick(K);
    List &l    = lists[k];
    Ids &m     = model[k];
    unsigned o = R.pick(30);
    switch (o) {
    case 0:
    case 1:
    case 2:
    case 3: { // add one
      int id = free_id();
      if (id < 0) {
        break;
      }
      Node *v = pool[id];
      size_t at;
      if (o == 0) {
        R.log("%s l%u prepend %d", tag, k, id);
        R.sut([&] { l.prepend(v); });
        at = 0;
      } else if (o == 1 || m.empty()) {
        R.log("%s l%u append %d", tag, k, id);
        R.sut([&] { l.append(v); });
        at = m.size();
      } else {
        size_t t    = R.pick(m.size() + (R.coin() ? 1 : 0));
        bool end    = t >= m.size();
        bool by_it  = end || R.coin();
        auto it     = end ? l.end() : l.iterator_for(pool[m[t]]);
        bool before = o == 2;
        R.log("%s l%u insert %d %s %d%s", tag, k, id, before ? "before" : "after", end ? -1 : m[t], by_it ? " (iterator)" : "");
        R.sut([&] {
          if (before) {
            by_it ? l.insert_before(it, v) : l.insert_before(pool[m[t]], v);
          } else {
            by_it ? l.insert_after(it, v) : l.insert_after(pool[m[t]], v);
          }
        });
        at = end ? m.size() : before ? t : t + 1;
      }
      m.insert(m.begin() + at, id);
      break;
    }
    case 4:
    case 5: { // erase one
      if (m.empty()) {
        break;
      }
      size_t t = R.pick(m.size());
      int id   = m[t];
      Node *v  = pool[id];
      R.log("%s l%u erase %d", tag, k, id);
      m.erase(m.begin() + t);
      if (o == 4) {
        Node *n = R.sut([&] { return l.erase(v); });
        if (t < m.size() ? !n || n->id != m[t] : n != nullptr) {
          R.fail("result", "%s: erase of an element did not return the next one", tag);
        }
      } else {
        expect(R.sut([&] { return l.erase(l.iterator_for(v)); }), k, t, "erase");
      }
      unlinked(v, "erase");
      drop_held(id);
      break;
    }
    case 6:
    case 7: { // erase a range
      size_t a = R.pick(m.size() + 1), b = a + R.pick(m.size() - a + 1);
      if (R.one_in(4)) {
        b = m.size();
      }
      auto ia = a < m.size() ? l.iterator_for(pool[m[a]]) : l.end(), ib = b < m.size() ? l.iterator_for(pool[m[b]]) : l.end();
      R.log("%s l%u erase [%zu,%zu)", tag, k, a, b);
      Ids gone(m.begin() + a, m.begin() + b);
      auto r = R.sut([&] { return l.erase(ia, ib); });
      m.erase(m.begin() + a, m.begin() + b);
      expect(r, k, a, "erase of a range");
      for (int id : gone) {
        unlinked(pool[id], "erase of a range");
      }
      drop_held_all(gone);
      break;
    }
    case 8:
    case 9: { // take one from an end
      R.log("%s l%u take %s", tag, k, o == 8 ? "head" : "tail");
      Node *n = R.sut([&] { return o == 8 ? l.take_head() : l.take_tail(); });
      if (m.empty()) {
        if (n) {
          R.fail("result", "%s: took an element from an empty list", tag);
        }
        break;
      }
      int id = o == 8 ? m.front() : m.back();
      if (!n || n->id != id) {
        R.fail("result", "%s: took %d, expected %d", tag, n ? n->id : -1, id);
      }
      m.erase(o == 8 ? m.begin() : m.end() - 1);
      unlinked(n, "take");
      drop_held(id);
      break;
    }
    case 10:
    case 11:
    case 12:
    case 13: { // split
      unsigned d = (k + 1 + R.pick(K - 1)) % K;
      unsigned n = R.pick(m.size() + 3);
      if (R.one_in(20)) {
        n = ~0u;
      }
      R.log("%s l%u %s_%s %u to l%u", tag, k, o & 1 ? "split" : "take", o < 12 ? "prefix" : "suffix", n, d);
      bool none = (o & 1) && n > m.size();
      size_t c  = none ? 0 : std::min<size_t>(n, m.size());
      Ids part  = o < 12 ? Ids(m.begin(), m.begin() + c) : Ids(m.end() - c, m.end());
      List got  = R.sut([&] { return o == 10 ? l.take_prefix(n) : o == 11 ? l.split_prefix(n) : o == 12 ? l.take_suffix(n) : l.split_suffix(n); });
      if (got.count() != c) {
        R.fail("count", "%s: %zu elements split off, expected %zu", tag, got.count(), c);
      }
      if (o < 12) {
        m.erase(m.begin(), m.begin() + c);
      } else {
        m.erase(m.end() - c, m.end());
      }
      check(k);
      Ids &dm = model[d];
      if (R.coin()) {
        R.sut([&] { lists[d].append(got); });
        dm.insert(dm.end(), part.begin(), part.end());
      } else {
        R.sut([&] { lists[d].prepend(got); });
        dm.insert(dm.begin(), part.begin(), part.end());
      }
      if (!got.empty() || got.count() || got.head() || got.tail()) {
        R.fail("splice", "%s: a list spliced into another is not empty", tag);
      }
      check(d);
      break;
    }
    case 14:
    case 15:
    case 16:
    case 17: { // splice
      unsigned d = (k + 1 + R.pick(K - 1)) % K;
      Ids &dm    = model[d];
      List &dl   = lists[d];
      size_t at;
      R.log("%s l%u splice all into l%u (%u)", tag, k, d, o);
      if (o == 14) {
        R.sut([&] { dl.append(l); });
        at = dm.size();
      } else if (o == 15) {
        R.sut([&] { dl.prepend(l); });
        at = 0;
      } else {
        if (dm.empty()) {
          break;
        }
        size_t t   = R.pick(dm.size());
        bool by_it = R.coin();
        Node *x    = pool[dm[t]];
        auto it    = dl.iterator_for(x);
        R.sut([&] {
          if (o == 16) {
            by_it ? dl.insert_before(it, l) : dl.insert_before(x, l);
          } else {
            by_it ? dl.insert_after(it, l) : dl.insert_after(x, l);
          }
        });
        at = o == 16 ? t : t + 1;
      }
      dm.insert(dm.begin() + at, m.begin(), m.end());
      m.clear();
      check(d);
      break;
    }
    case 18: { // move construct
      R.log("%s l%u move construct and back", tag, k);
      List tmp = R.sut([&] { return List(std::move(l)); });
      if (!l.empty() || l.count() || tmp.count() != m.size()) {
        R.fail("move", "%s: moving a list did not transfer it", tag);
      }
      R.sut([&] { l = std::move(tmp); });
      if (!tmp.empty() || tmp.count()) {
        R.fail("move", "%s: move assigning a list did not empty the source", tag);
      }
      break;
    }
    case 19: { // move assign
      unsigned d = R.pick(K);
      R.log("%s l%u move assign to l%u", tag, k, d);
      if (d != k) {
        drop_held_all(model[d]);
        List &src = l;
        R.sut([&] { lists[d] = std::move(src); });
        model[d] = std::move(m);
        m.clear();
        check(d);
      } else {
        List &src = l;
        R.sut([&] { l = std::move(src); });
      }
      break;
    }
    case 20: { // clear
      if (!R.one_in(3)) {
        break;
      }
      R.log("%s l%u clear", tag, k);
      R.sut([&] { l.clear(); });
      drop_held_all(m);
      m.clear();
      break;
    }
    case 21: { // apply
      int mode = R.pick(3);
      R.log("%s l%u apply (%s)", tag, k, mode == 0 ? "look" : mode == 1 ? "erase some" : "by reference");
      Ids seen, removed;
      unsigned sel = R.pick(8);
      auto act     = [&](Node *n) {
        seen.push_back(n->id);
        if (mode == 1 && (n->id & 7) == static_cast<int>(sel)) {
          l.erase(n);
          removed.push_back(n->id);
        }
      };
      if (mode == 2) {
        R.sut([&] { l.apply([&](Node &n) { act(&n); }); });
      } else {
        R.sut([&] { l.apply([&](Node *n) { act(n); }); });
      }
      if (seen != m) {
        R.fail("apply", "%s: apply visited %s, expected %s", tag, text(seen).c_str(), text(m).c_str());
      }
      for (int id : removed) {
        m.erase(std::find(m.begin(), m.end(), id));
        unlinked(pool[id], "erase in apply");
      }
      drop_held_all(removed);
      break;
    }
    case 22: {
      unsigned n = R.pick(m.size() + 3);
      auto it    = R.sut([&] { return l.nth(n); });
      Node *v    = it;
      if (n < m.size() ? !v || v->id != m[n] : v != nullptr) {
        R.fail("nth", "%s: nth(%u) of %zu is wrong", tag, n, m.size());
      }
      break;
    }
    case 23: {
      for (auto const &[id, n] : pool) {
        bool in = std::find(m.begin(), m.end(), id) != m.end();
        if (l.contains(n) != in) {
          R.fail("contains", "%s: list %u %s element %d", tag, k, in ? "does not contain its" : "contains a foreign", id);
        }
      }
      break;
    }
    case 24:
    case 25: { // hold an iterator
      if (held.size() < 6) {
        if (m.empty() || R.one_in(5)) {
          held.push_back({l.end(), k, -1});
        } else {
          int id = R.of(m);
          held.push_back({l.iterator_for(pool[id]), k, id});
        }
        R.log("%s hold an iterator at %d", tag, held.back().id);
      }
      break;
    }
    case 26:
    case 27: { // advance a held iterator
      if (held.empty()) {
        break;
      }
      auto &h = held[R.pick(held.size())];
      if (h.id < 0) {
        break;
      }
      for (unsigned j = 0; j < K; ++j) {
        auto spot = std::find(model[j].begin(), model[j].end(), h.id);
        if (spot == model[j].end()) {
          continue;
        }
        if (o == 26 && spot + 1 != model[j].end()) {
          R.log("%s advance held %d", tag, h.id);
          auto old = R.sut([&] { return h.it++; });
          if (old->id != h.id) {
            R.fail("iterator", "%s: post increment does not return the old position", tag);
          }
          h.id = spot[1];
        } else if (o == 27 && spot != model[j].begin()) {
          R.log("%s retreat held %d", tag, h.id);
          auto old = R.sut([&] { return h.it--; });
          if (old->id != h.id) {
            R.fail("iterator", "%s: post decrement does not return the old position", tag);
          }
          h.id = spot[-1];
        }
        break;
      }
      break;
    }
    case 28: { // erase the element a held iterator is at, and keep going with the result.
      std::vector<size_t> c;
      for (size_t i = 0; i < held.size(); ++i) {
        if (held[i].id >= 0 && std::find(m.begin(), m.end(), held[i].id) != m.end()) {
          c.push_back(i);
        }
      }
      if (c.empty()) {
        break;
      }
      Held h      = held[c[R.pick(c.size())]];
      auto spot   = std::find(m.begin(), m.end(), h.id);
      size_t pos  = spot - m.begin();
      R.log("%s l%u erase at a held iterator %d", tag, k, h.id);
      auto r = R.sut([&] { return l.erase(h.it); });
      m.erase(spot);
      unlinked(pool[h.id], "erase");
      drop_held(h.id);
      expect(r, k, pos, "erase");
      if (pos < m.size()) {
        held.push_back({r, k, m[pos]});
      }
      break;
    }
    default:
      break;
    }
    check(k);
    check_held();
  }
};

struct ListSim {
  Run &R;
  std::map<int, Node *> pool;
  int next_id = 0;
  explicit ListSim(Run &r) : R(r) {}
  ~ListSim()
  {
    for (auto &p : pool) {
      delete p.second;
    }
  }
  template <typename L1, typename L2>
  void
  go()
  {
    ListWorld<L1> a(R, pool, "a");
    ListWorld<L2> b(R, pool, "b");
    bool many = R.one_in(50);
    size_t n  = many ? 60 + R.pick(240) : 3 + R.small(25);
    for (size_t i = 0; i < n; ++i) {
      pool[next_id] = new Node(next_id);
      ++next_id;
    }
    if (many) { // start with long lists.
      unsigned k = R.pick(3), j = R.pick(3);
      size_t rest = R.small(20);
      R.log("%zu elements on list %u", n - std::min(rest, n), k);
      for (size_t i = 0; i + rest < n; ++i) {
        unsigned to = R.one_in(30) ? j : k;
        R.sut([&] { a.lists[to].append(pool[i]); });
        a.model[to].push_back(i);
      }
    }
    bool two = R.coin();
    while (R.more(40, 400)) {
      if (R.one_in(12)) { // Replace an element that is in no list.
        std::vector<int> c;
        for (auto const &p : pool) {
          if (!a.used(p.first) && !b.used(p.first)) {
            c.push_back(p.first);
          }
        }
        if (!c.empty()) {
          int id = c[R.pick(c.size())];
          R.log("destroy unlisted %d, create %d", id, next_id);
          delete pool[id];
          pool.erase(id);
          pool[next_id] = new Node(next_id);
          ++next_id;
        }
      }
      bool first = !two || R.coin();
      first ? a.op() : b.op();
      R.step();
      uint64_t h = 1;
      for (unsigned k = 0; k < 3; ++k) {
        // The other set of links is not affected.
        if (two) {
          first ? b.check(k) : a.check(k);
        }
        h = mix(h, a.model[k].size() * 64 + b.model[k].size());
        for (int id : a.model[k]) {
          h = mix(h, id);
        }
      }
      R.state(h);
    }
    if (R._steps > 3) {
      R.nontrivial();
    }
    // Everything can be deleted through apply.
    if (R.coin()) {
      for (unsigned k = 0; k < 3; ++k) {
        std::set<int> gone(a.model[k].begin(), a.model[k].end());
        R.sut([&] {
          a.lists[k].apply([&](Node *x) {
            HostScope hs;
            pool.erase(x->id);
            delete x;
          });
        });
        for (int id : gone) {
          if (pool.count(id)) {
            R.fail("apply", "apply did not visit element %d", id);
          }
        }
      }
    }
  }
};

// ================================================================ H01, H02: intrusive hash map
int g_hash_mode = 0;
unsigned g_hash_mod = 1;

struct Item {
  int id;
  int key;
  Item *_next{nullptr};
  Item *_prev{nullptr};
  Item(int i, int k) : id(i), key(k) {}
  Item(Item const &)            = delete;
  Item &operator=(Item const &) = delete;
};
struct ItemDesc {
  static int key_of(Item *v) { return v->key; }
  static bool equal(int a, int b) { return a == b; }
  static uint64_t
  hash_of(int k)
  {
    switch (g_hash_mode) {
    case 1:
      return 0;
    case 2:
      return static_cast<unsigned>(k) % g_hash_mod;
    case 3:
      return mix(17, k);
    case 4:
      return static_cast<uint64_t>(k) * 7 * 13 * 31; // same bucket while the table is small
    default:
      return static_cast<uint64_t>(static_cast<int64_t>(k));
    }
  }
  static Item *&next_ptr(Item *v) { return v->_next; }
  static Item *&prev_ptr(Item *v) { return v->_prev; }
};

struct MapSim {
  using Map = swoc::IntrusiveHashMap<ItemDesc>;
  Run &R;
  bool faults;
  struct Slot {
    std::unique_ptr<Map> map;
    std::map<int, std::set<int>> keys; ///< key -> element ids.
    size_t n = 0;
    Map::ExpansionPolicy policy = Map::MANUAL;
    size_t limit                = 0;
  };
  Slot slots[2];
  std::map<int, Item *> pool;
  std::map<int, int> where; ///< id -> slot
  std::map<int, unsigned> stamp; ///< id -> when it was inserted
  unsigned stamps = 0;
  int next_id = 0, n_keys = 4;
  MapSim(Run &r, bool f) : R(r), faults(f) {}
  ~MapSim()
  {
    for (auto &s : slots) {
      s.map.reset();
    }
    for (auto &p : pool) {
      delete p.second;
    }
  }

  bool
  arm()
  {
    if (faults && R.one_in(3)) {
      R.arm_alloc(R.small(3), R.coin());
      return true;
    }
    return false;
  }
  bool
  disarm()
  {
    if (long n = R.disarm_alloc(); n > 0) {
      R.fault("allocation failed");
      R.nontrivial();
      return true;
    }
    return false;
  }
  void
  create(Slot &s)
  {
    for (int i = 0;; ++i) {
      size_t n   = R.coin() ? Map::DEFAULT_BUCKET_COUNT : R.small(60);
      bool armed = i == 0 && arm();
      Map *m     = nullptr;
      bool bad   = oom(R, "construction", [&] {
        m = n == Map::DEFAULT_BUCKET_COUNT ? new Map : new Map(n);
      });
      bool fired = armed && disarm();
      if (bad) {
        if (!fired) {
          R.fail("exception", "construction ran out of memory without a failed allocation");
        }
        continue;
      }
      R.log("create a map of %zu buckets", n);
      s.map.reset(m);
      s.policy = Map::DEFAULT_EXPANSION_POLICY;
      s.limit  = Map::DEFAULT_EXPANSION_LIMIT;
      break;
    }
    if (R.coin()) {
      set_policy(s);
    }
  }
  void
  set_policy(Slot &s)
  {
    set_policy(s, std::vector<Map::ExpansionPolicy>{Map::AVERAGE, Map::MAXIMUM, Map::MANUAL}[R.pick(3)]);
  }
  void
  set_policy(Slot &s, Map::ExpansionPolicy p)
  {
    size_t l = R.pick(6);
    R.log("policy %d limit %zu", p, l);
    s.map->set_expansion_policy(p).set_expansion_limit(l);
    s.policy = p;
    s.limit  = l;
    if (s.map->get_expansion_policy() != p || s.map->get_expansion_limit() != l) {
      R.fail("policy", "the expansion policy was not set");
    }
  }
  void
  added(unsigned k, Item *v)
  {
    slots[k].keys[v->key].insert(v->id);
    ++slots[k].n;
    where[v->id] = k;
    stamp[v->id] = ++stamps;
  }
  void
  removed(unsigned k, Item *v)
  {
    auto spot = slots[k].keys.find(v->key);
    spot->second.erase(v->id);
    if (spot->second.empty()) {
      slots[k].keys.erase(spot);
    }
    --slots[k].n;
    where.erase(v->id);
    if (v->_next || v->_prev) {
      R.fail("links", "element %d was removed but still carries links", v->id);
    }
  }
  /// Elements of a key, by equal_range.
  void
  check_key(unsigned k, int key)
  {
    Slot &s       = slots[k];
    Map &m        = *s.map;
    Map const &cm = m;
    auto expect   = s.keys.find(key);
    auto spot     = R.sut([&] { return m.find(key); });
    auto cspot    = R.sut([&] { return cm.find(key); });
    if (expect == s.keys.end()) {
      if (spot != m.end() || cspot != cm.end()) {
        R.fail("find", "key %d found, no element has it", key);
      }
      auto r = R.sut([&] { return m.equal_range(key); });
      if (r.begin() != r.end()) {
        R.fail("equal_range", "key %d has a range, no element has it", key);
      }
      return;
    }
    if (spot == m.end() || cspot == cm.end()) {
      R.fail("find", "key %d not found, %zu elements have it", key, expect->second.size());
    }
    if (spot->key != key || !expect->second.count(spot->id)) {
      R.fail("find", "key %d found element %d with key %d", key, spot->id, spot->key);
    }
    std::set<int> got;
    auto r  = R.sut([&] { return m.equal_range(key); });
    auto cr = R.sut([&] { return cm.equal_range(key); });
    size_t n = 0, cn = 0;
    for (auto &x : r) {
      if (++n > expect->second.size() || !got.insert(x.id).second) {
        break;
      }
    }
    for (auto &x : cr) {
      if (++cn > expect->second.size() || !expect->second.count(x.id)) {
        break;
      }
    }
    if (n != expect->second.size() || got != expect->second || cn != n) {
      R.fail("equal_range", "the range of key %d has %zu elements, %zu have it", key, n, expect->second.size());
    }
  }
  void
  check(unsigned k, bool full)
  {
    Slot &s       = slots[k];
    Map &m        = *s.map;
    Map const &cm = m;
    if (m.count() != s.n) {
      R.fail("count", "map %u counts %zu elements of %zu", k, m.count(), s.n);
    }
    if (m.get_expansion_policy() != s.policy || m.get_expansion_limit() != s.limit) {
      R.fail("policy", "map %u has expansion policy %d limit %zu, %d limit %zu was set", k, m.get_expansion_policy(), m.get_expansion_limit(), s.policy,
             s.limit);
    }
    if (!full) {
      return;
    }
    size_t n = 0;
    std::set<int> got;
    std::vector<int> order;
    int last_key = 0;
    std::set<int> done;
    for (auto &x : m) {
      if (++n > s.n) {
        R.fail("iterate", "map %u iterates over more than its %zu elements", k, s.n);
      }
      auto w = where.find(x.id);
      if (w == where.end() || w->second != static_cast<int>(k) || !got.insert(x.id).second) {
        R.fail("iterate", "map %u iterates over element %d %s", k, x.id, w == where.end() ? "which is in no map" : "twice");
      }
      if (n > 1 && x.key != last_key) {
        done.insert(last_key);
      }
      last_key = x.key;
      if (done.count(x.key)) {
        R.fail("contiguous", "elements with key %d are not together", x.key);
      }
      if (!order.empty() && pool[order.back()]->key == x.key && stamp[order.back()] > stamp[x.id]) {
        R.fail("order", "elements %d and %d with key %d are not in the order they were inserted", order.back(), x.id, x.key);
      }
      order.push_back(x.id);
    }
    if (n != s.n) {
      R.fail("iterate", "map %u iterates over %zu of %zu elements", k, n, s.n);
    }
    std::vector<int> back;
    for (auto spot = m.end(); spot != m.begin() && back.size() <= s.n;) {
      back.push_back((--spot)->id);
    }
    std::reverse(back.begin(), back.end());
    std::vector<int> constant;
    for (auto spot = cm.begin(); spot != cm.end() && constant.size() <= s.n; ++spot) {
      constant.push_back(spot->id);
    }
    if (back != order || constant != order) {
      R.fail("iterate", "map %u iterates differently backward or as a constant", k);
    }
    for (int key = -2; key <= n_keys; ++key) {
      check_key(k, key);
    }
    for (auto &[id, v] : pool) {
      auto w   = where.find(id);
      bool in  = w != where.end() && w->second == static_cast<int>(k);
      auto it  = R.sut([&] { return m.find(v); });
      auto cit = R.sut([&] { return cm.find(static_cast<Item const *>(v)); });
      if (in ? (it == m.end() || it->id != id || cit == cm.end() || cit->id != id) : (it != m.end() || cit != cm.end())) {
        R.fail("find", "element %d is %s map %u but find says otherwise", id, in ? "in" : "not in", k);
      }
    }
    uint64_t h = mix(m.bucket_count(), s.n);
    for (int id : order) {
      h = mix(h, pool[id]->key);
    }
    R.state(h);
  }
  Item *
  unlisted()
  {
    std::vector<Item *> c;
    for (auto &p : pool) {
      if (!where.count(p.first)) {
        c.push_back(p.second);
      }
    }
    if (c.empty() || (pool.size() < 150 && R.one_in(3))) {
      Item *v = new Item(next_id, static_cast<int>(R.pick(n_keys)) - 1);
      ++next_id;
      pool[v->id] = v;
      return v;
    }
    Item *v = c[R.pick(c.size())];
    if (R.coin()) {
      v->key = static_cast<int>(R.pick(n_keys)) - 1; // not in a map, the key can change.
    }
    return v;
  }
  Item *
  listed(unsigned k)
  {
    std::vector<Item *> c;
    for (auto &p : where) {
      if (p.second == static_cast<int>(k)) {
        c.push_back(pool[p.first]);
      }
    }
    return c.empty() ? nullptr : c[R.pick(c.size())];
  }
  void
  insert(unsigned k)
  {
    Slot &s = slots[k];
    Map &m  = *s.map;
    Item *v = unlisted();
    bool a  = arm();
    auto b0 = m.bucket_count();
    if (b0 > 4000 && m.get_expansion_policy() == Map::MAXIMUM) {
      set_policy(s, Map::MANUAL); // hash collisions make such a table grow without end.
    }
    R.log("m%u insert %d key %d%s", k, v->id, v->key, a ? " (memory may fail)" : "");
    bool bad   = oom(R, "insert", [&] { m.insert(v); });
    bool fired = a && disarm();
    if (bad && !fired) {
      R.fail("exception", "insert ran out of memory without a failed allocation");
    }
    if (bad) {
      // Completely or not at all.
      size_t n = m.count();
      if (n != s.n && n != s.n + 1) {
        R.fail("lost", "map %u counts %zu elements after a failed insert to %zu", k, n, s.n);
      }
      if (n == s.n + 1) {
        added(k, v);
      }
      R.count("failed inserts");
      check(k, true);
      return;
    }
    added(k, v);
    auto b1 = m.bucket_count();
    if (!fired && b0 > 0) {
      auto lim = m.get_expansion_limit();
      if (b1 < b0) {
        R.fail("expand", "insert reduced the buckets from %zu to %zu", b0, b1);
      }
      size_t chain = 0;
      bool mixed   = false;
      for (auto &kv : s.keys) {
        if (ItemDesc::hash_of(kv.first) % b0 == ItemDesc::hash_of(v->key) % b0) {
          chain += kv.second.size();
          mixed = mixed || kv.first != v->key;
        }
      }
      switch (m.get_expansion_policy()) {
      case Map::MANUAL:
        if (b1 != b0) {
          R.fail("expand", "insert expanded a map with manual expansion");
        }
        break;
      case Map::AVERAGE:
        if (b1 != b0 ? s.n <= lim * b0 : s.n >= (lim + 1) * b0) {
          R.fail("expand", "insert %s the table with %zu elements in %zu buckets and average limit %zu", b1 == b0 ? "did not expand" : "expanded", s.n, b0, lim);
        }
        break;
      case Map::MAXIMUM:
        if (b1 != b0 ? chain <= lim : mixed && chain > lim) {
          R.fail("expand", "insert %s the table with %zu elements in a chain and limit %zu", b1 == b0 ? "did not expand" : "expanded", chain, lim);
        }
        break;
      }
      if (b1 != b0) {
        R.count("automatic expansions");
      }
    }
  }
  void
  expand(unsigned k)
  {
    Map &m     = *slots[k].map;
    auto b0    = m.bucket_count();
    bool a     = arm();
    if (b0 > 5000) {
      R.disarm_alloc();
      return;
    }
    R.log("m%u expand%s", k, a ? " (memory may fail)" : "");
    bool bad   = oom(R, "expand", [&] { m.expand(); });
    bool fired = a && disarm();
    if (bad && !fired) {
      R.fail("exception", "expand ran out of memory without a failed allocation");
    }
    if (!bad && m.bucket_count() <= b0) {
      R.fail("expand", "expand did not add buckets");
    }
    check(k, true);
  }
  void
  go()
  {
    g_hash_mode = R.pick(5);
    g_hash_mod  = 1 + R.small(12);
    n_keys      = 1 + R.small(R.coin() ? 8 : 60);
    create(slots[0]);
    create(slots[1]);
    bool grow = R.coin();
    unsigned checks = 1 + R.pick(4);
    while (R.more(50, 600)) {
      unsigned k = R.one_in(4);
      Slot &s    = slots[k];
      Map &m     = *s.map;
      R.step();
      switch (R.pick(grow ? 24 : 16)) {
      case 0:
      case 1:
      case 2:
      case 16:
      case 17:
      case 18:
      case 19:
      case 20:
      case 21:
      case 22:
      case 23:
        insert(k);
        break;
      case 3: { // erase by element
        Item *v = listed(k);
        if (v) {
          R.log("m%u erase element %d", k, v->id);
          if (!R.sut([&] { return m.erase(v); })) {
            R.fail("erase", "element %d in the map was not erased", v->id);
          }
          removed(k, v);
        }
        break;
      }
      case 4: { // erase an element that is not in the map.
        Item *v = R.coin() ? unlisted() : listed(1 - k);
        if (v) {
          R.log("m%u erase foreign element %d", k, v->id);
          if (R.sut([&] { return m.erase(v); })) {
            R.fail("erase", "element %d not in the map was erased", v->id);
          }
        }
        break;
      }
      case 5:
      case 6: { // erase by iterator
        Item *v = listed(k);
        if (v) {
          auto it   = R.coin() ? m.find(v) : m.iterator_for(v);
          auto next = it;
          ++next;
          Item *nx = next;
          R.log("m%u erase iterator at %d", k, v->id);
          auto r = R.sut([&] { return m.erase(it); });
          if (static_cast<Item *>(r) != nx) {
            R.fail("erase", "erase by iterator did not return the next element");
          }
          removed(k, v);
        }
        break;
      }
      case 7: { // erase a key
        Item *v = listed(k);
        int key = v && !R.one_in(5) ? v->key : static_cast<int>(R.pick(n_keys)) - 1;
        R.log("m%u erase range of key %d", k, key);
        auto range = m.equal_range(key);
        Item *lim  = range.second;
        auto r     = R.sut([&] { return m.erase(range); });
        if (static_cast<Item *>(r) != lim) {
          R.fail("erase", "erase of a range did not return its end");
        }
        if (auto spot = s.keys.find(key); spot != s.keys.end()) {
          for (int id : std::set<int>(spot->second)) {
            removed(k, pool[id]);
          }
        }
        break;
      }
      case 8: { // erase a sequence
        size_t a = R.pick(s.n + 1), b = a + R.pick(s.n - a + 1);
        std::vector<Item *> order;
        for (auto &x : m) {
          order.push_back(&x);
        }
        auto ia = a < order.size() ? m.iterator_for(order[a]) : m.end(), ib = b < order.size() ? m.iterator_for(order[b]) : m.end();
        R.log("m%u erase [%zu,%zu) of %zu", k, a, b, order.size());
        auto r = R.sut([&] { return m.erase(ia, ib); });
        if (r != ib) {
          R.fail("erase", "erase of a range did not return its end");
        }
        for (size_t i = a; i < b; ++i) {
          removed(k, order[i]);
        }
        break;
      }
      case 9: { // iterate and erase some
        unsigned sel = 2 + R.pick(5);
        R.log("m%u iterate, erase 1 of %u", k, sel);
        std::vector<Item *> gone;
        size_t seen = 0, n = s.n;
        R.sut([&] {
          for (auto spot = m.begin(); spot != m.end() && seen <= n; ++seen) {
            if (spot->id % sel == 0) {
              HostScope hs;
              gone.push_back(&*spot);
              g_in_sut = true;
              spot = m.erase(spot);
              g_in_sut = false;
            } else {
              ++spot;
            }
          }
        });
        if (seen != n) {
          R.fail("iterate", "iteration with erasure visited %zu of %zu elements", seen, n);
        }
        for (auto *v : gone) {
          removed(k, v);
        }
        break;
      }
      case 10:
        expand(k);
        break;
      case 11:
        set_policy(s);
        break;
      case 12: { // move
        if (!R.one_in(3)) {
          break;
        }
        bool old = R.coin();
        R.log("m%u move%s", k, old ? ", continue with the source as another map" : "");
        std::unique_ptr<Map> to;
        R.sut([&] { to.reset(new Map(std::move(m))); });
        auto from = std::move(s.map);
        s.map     = std::move(to);
        check(k, true);
        if (from->count() != 0 || from->begin() != from->end()) {
          R.fail("move", "a moved map still has elements");
        }
        if (old && slots[1 - k].n == 0) {
          slots[1 - k].map    = std::move(from);
          slots[1 - k].policy = slots[1 - k].map->get_expansion_policy();
          slots[1 - k].limit  = slots[1 - k].map->get_expansion_limit();
          R.count("moved-from maps reused");
        }
        from.reset();
        check(1 - k, true);
        break;
      }
      case 13: { // clear
        if (!R.one_in(4)) {
          break;
        }
        R.log("m%u clear", k);
        std::vector<int> ids;
        for (auto &p : where) {
          if (p.second == static_cast<int>(k)) {
            ids.push_back(p.first);
          }
        }
        bool destroy = R.coin();
        if (destroy) { // "The values are not touched in this method, therefore it is safe to destroy them first"
          for (int id : ids) {
            delete pool[id];
            pool.erase(id);
          }
        }
        R.sut([&] { m.clear(); });
        for (int id : ids) {
          where.erase(id);
          if (!destroy) {
            pool[id]->_next = pool[id]->_prev = nullptr;
          }
        }
        s.keys.clear();
        s.n = 0;
        check(k, true);
        break;
      }
      case 14: { // apply
        if (!R.one_in(3)) {
          break;
        }
        unsigned mode = R.pick(3), sel = R.pick(4);
        R.log("m%u apply %u", k, mode);
        std::vector<Item *> gone;
        std::set<int> seen;
        auto act = [&](Item *v) {
          HostScope hs;
          seen.insert(v->id);
          if (mode == 1 && (v->id & 3) == static_cast<int>(sel)) {
            gone.push_back(v);
            SutScope ss;
            m.erase(v);
          }
        };
        if (mode == 2) {
          R.sut([&] { m.apply([&](Item &v) { act(&v); }); });
        } else {
          R.sut([&] { m.apply([&](Item *v) { act(v); }); });
        }
        if (seen.size() != s.n) {
          R.fail("apply", "apply visited %zu of %zu elements", seen.size(), s.n);
        }
        for (auto *v : gone) {
          removed(k, v);
        }
        break;
      }
      case 15: { // destroy an unlisted element
        std::vector<int> c;
        for (auto &p : pool) {
          if (!where.count(p.first)) {
            c.push_back(p.first);
          }
        }
        if (!c.empty()) {
          int id = c[R.pick(c.size())];
          delete pool[id];
          pool.erase(id);
        }
        break;
      }
      }
      check(k, R.ops() % checks == 0);
    }
    check(0, true);
    check(1, true);
    if (R._steps > 3) {
      R.nontrivial();
    }
    R.sut([&] {
      for (auto &s : slots) {
        s.map.reset();
      }
    });
  }
};

// ================================================================ X01, X02: lexicon
enum class Fruit : int { A = -2, B = 0, C = 7, D = 14, E = 100000 };

std::string
lower(std::string s)
{
  for (auto &c : s) {
    if (c >= 'A' && c <= 'Z') {
      c += 'a' - 'A';
    }
  }
  return s;
}

template <typename E> struct LexSim {
  using Lex  = swoc::Lexicon<E>;
  using Pair = typename Lex::Pair;
  using Def  = typename Lex::Definition;

  Run &R;
  bool faults;
  std::unique_ptr<Lex> lex;
  std::map<std::string, std::pair<std::string, E>> names; ///< lower case -> (as defined, value)
  std::map<E, std::string> primary;
  std::vector<std::string> pool;
  std::vector<E> values;
  // defaults
  enum DK { NONE, LITERAL, HANDLER } name_default = NONE, value_default = NONE;
  std::string name_text;
  E value_lit{};
  unsigned handler_tag[2] = {0, 0};
  // handler observations
  static inline unsigned seen_tag;
  static inline std::string seen_name;
  static inline E seen_value;
  static inline bool handler_throws;

  LexSim(Run &r, bool f) : R(r), faults(f) {}

  static long
  num(E e)
  {
    return static_cast<long>(e);
  }
  /// Text that goes away.
  struct Temp {
    std::vector<char *> bufs;
    TextView
    view(std::string const &s)
    {
      auto *b = static_cast<char *>(::malloc(s.size() + 1));
      memcpy(b, s.data(), s.size());
      bufs.push_back(b);
      sizes.push_back(s.size());
      return {b, s.size()};
    }
    std::vector<size_t> sizes;
    ~Temp()
    {
      for (size_t i = 0; i < bufs.size(); ++i) {
        memset(bufs[i], '#', sizes[i]);
        ::free(bufs[i]);
      }
    }
  };
  std::string
  recase(std::string s)
  {
    switch (R.pick(3)) {
    case 0:
      break;
    case 1:
      for (auto &c : s) {
        if (c >= 'a' && c <= 'z') {
          c -= 'a' - 'A';
        }
      }
      break;
    case 2:
      s = lower(s);
      if (!s.empty() && s[0] >= 'a' && s[0] <= 'z') {
        s[0] -= 'a' - 'A';
      }
      break;
    }
    return s;
  }
  void
  setup()
  {
    static char const ALPHA[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.";
    unsigned n = 2 + R.small(30);
    bool tight = R.coin();
    for (unsigned i = 0; i < n; ++i) {
      std::string s;
      size_t len = tight ? 1 + R.pick(2) : R.one_in(12) ? R.pick(1500) : R.small(20);
      for (size_t j = 0; j < len; ++j) {
        s += tight ? "abAB@`[{"[R.pick(8)] : R.one_in(25) ? static_cast<char>(0x80 + R.pick(128)) : ALPHA[R.pick(sizeof ALPHA - 1)];
      }
      pool.push_back(s);
    }
    unsigned nv = 1 + R.small(20);
    for (unsigned i = 0; i < nv; ++i) {
      if constexpr (std::is_enum_v<E>) {
        values.push_back(R.coin() ? std::vector<E>{Fruit::A, Fruit::B, Fruit::C, Fruit::D, Fruit::E}[R.pick(5)] : static_cast<E>(static_cast<int>(i * (R.coin() ? 1 : 7)) - 3));
      } else {
        values.push_back(R.coin() ? static_cast<E>(i) : static_cast<E>(R.bits64() * 31 * 13 * 7));
      }
    }
    std::sort(values.begin(), values.end());
    values.erase(std::unique(values.begin(), values.end()), values.end());
  }
  bool
  arm()
  {
    if (faults && R.one_in(2)) {
      R.arm_alloc(R.small(6), R.coin());
      return true;
    }
    return false;
  }
  bool
  disarm()
  {
    if (R.disarm_alloc() > 0) {
      R.fault("allocation failed");
      R.nontrivial();
      return true;
    }
    return false;
  }
  typename Lex::UnknownNameHandler
  name_handler(unsigned tag, E result)
  {
    return [tag, result](TextView name) -> E {
      HostScope hs;
      seen_tag = tag;
      seen_name.assign(name.data(), name.size());
      if (handler_throws) {
        throw Injected{3};
      }
      return result;
    };
  }
  typename Lex::UnknownValueHandler
  value_handler(unsigned tag)
  {
    // Big enough to be on the heap.
    std::array<unsigned, 12> big{};
    big[0] = tag;
    return [big](E v) -> TextView {
      HostScope hs;
      seen_tag   = big[0];
      seen_value = v;
      if (handler_throws) {
        throw Injected{3};
      }
      return "[handled]";
    };
  }
  struct Defaults {
    typename Lex::Default d;
    DK name = NONE, value = NONE;
    std::string text;
    E lit{};
    unsigned tag = 0;
  };
  unsigned tags = 0;
  Defaults
  make_default(Temp &t)
  {
    Defaults z;
    switch (R.pick(5)) {
    case 0:
      break;
    case 1:
      z.value = LITERAL;
      z.lit   = R.of(values);
      z.d     = z.lit;
      break;
    case 2:
      z.name = LITERAL;
      z.text = R.of(pool);
      z.d    = t.view(z.text);
      break;
    case 3:
      z.value = HANDLER;
      z.tag   = ++tags;
      z.lit   = R.of(values);
      z.d     = name_handler(z.tag, z.lit);
      break;
    case 4:
      z.name = HANDLER;
      z.tag  = ++tags;
      z.d    = value_handler(z.tag);
      break;
    }
    return z;
  }
  void
  apply(Defaults const &z)
  {
    if (z.name != NONE) {
      name_default   = z.name;
      name_text      = z.text;
      handler_tag[0] = z.tag;
    }
    if (z.value != NONE) {
      value_default  = z.value;
      value_lit      = z.lit;
      handler_tag[1] = z.tag;
    }
  }
  /// Apply a definition to the model. @return @c false if it is to be rejected.
  bool
  model_define(E v, std::vector<std::string> const &ns)
  {
    if (ns.empty()) {
      return false;
    }
    std::set<std::string> mine;
    for (auto const &n : ns) {
      auto l = lower(n);
      if (names.count(l) || !mine.insert(l).second) {
        return false;
      }
    }
    for (auto const &n : ns) {
      names[lower(n)] = {n, v};
    }
    primary.emplace(v, ns[0]);
    return true;
  }
  void
  lookup_value(E v)
  {
    std::string got;
    bool threw = false, inj = false;
    handler_throws = R.one_in(8);
    seen_tag       = 0;
    try {
      R.sut([&] {
        TextView t = (*std::as_const(lex))[v];
        HostScope hs;
        got.assign(t.data(), t.size());
      });
    } catch (Injected const &) {
      inj = true;
    } catch (std::exception const &) {
      threw = true;
    }
    auto spot = primary.find(v);
    if (spot != primary.end()) {
      if (threw || inj || got != spot->second || seen_tag) {
        R.fail("name", "value %ld has the name '%s', expected '%s'", num(v), got.c_str(), spot->second.c_str());
      }
      return;
    }
    switch (name_default) {
    case NONE:
      if (!threw) {
        R.fail("default", "undefined value %ld without default has the name '%s'", num(v), got.c_str());
      }
      break;
    case LITERAL:
      if (threw || got != name_text) {
        R.fail("default", "undefined value %ld has the name '%s', the default is '%s'", num(v), got.c_str(), name_text.c_str());
      }
      break;
    case HANDLER:
      if (seen_tag != handler_tag[0] || seen_value != v || threw || inj != handler_throws || (!inj && got != "[handled]")) {
        R.fail("default", "the handler was not called properly for undefined value %ld", num(v));
      }
      break;
    }
  }
  void
  lookup_name(std::string const &n)
  {
    E got{};
    bool threw = false, inj = false;
    handler_throws = R.one_in(8);
    seen_tag       = 0;
    {
      Temp t;
      TextView view = t.view(n);
      try {
        R.sut([&] { got = (*std::as_const(lex))[view]; });
      } catch (Injected const &) {
        inj = true;
      } catch (std::exception const &) {
        threw = true;
      }
    }
    auto spot = names.find(lower(n));
    if (spot != names.end()) {
      if (threw || inj || got != spot->second.second || seen_tag) {
        R.fail("value", "name '%s' has the value %ld, expected %ld", n.c_str(), num(got), num(spot->second.second));
      }
      return;
    }
    switch (value_default) {
    case NONE:
      if (!threw) {
        R.fail("default", "undefined name '%s' without default has the value %ld", n.c_str(), num(got));
      }
      break;
    case LITERAL:
      if (threw || got != value_lit) {
        R.fail("default", "undefined name '%s' has the value %ld, the default is %ld", n.c_str(), num(got), num(value_lit));
      }
      break;
    case HANDLER:
      if (seen_tag != handler_tag[1] || seen_name != n || threw || inj != handler_throws || (!inj && got != value_lit)) {
        R.fail("default", "the handler was not called properly for undefined name '%s'", n.c_str());
      }
      break;
    }
  }
  void
  check()
  {
    Lex const &l = *lex;
    if (l.count() != primary.size()) {
      R.fail("count", "%zu values defined, count is %zu", primary.size(), l.count());
    }
    for (auto v : values) {
      lookup_value(v);
    }
    for (auto const &n : pool) {
      lookup_name(recase(n));
    }
    lookup_name("not-in-the-pool!");
    // iteration over values
    std::vector<std::pair<E, std::string>> seq, rev;
    auto range = [&](auto first, auto last, size_t limit) {
      seq.clear();
      rev.clear();
      for (auto spot = first; spot != last; ++spot) {
        if (seq.size() > limit) {
          break;
        }
        seq.emplace_back(spot->_value, std::string(spot->_name.data(), spot->_name.size()));
      }
      if (seq.size() != limit) {
        R.fail("iterate", "iteration visits %zu of %zu definitions", seq.size(), limit);
      }
      for (auto spot = last; rev.size() < limit;) {
        if (rev.size() & 1) {
          --spot;
        } else {
          auto old  = spot;
          auto prev = spot--;
          if (prev != old) {
            R.fail("iterate", "post decrement does not return the previous position");
          }
        }
        rev.emplace_back((*spot)._value, std::string((*spot)._name.data(), (*spot)._name.size()));
        if (rev.size() == limit && spot != first) {
          R.fail("iterate", "backward iteration does not end at the beginning");
        }
      }
      std::reverse(rev.begin(), rev.end());
      if (seq != rev) {
        R.fail("iterate", "backward iteration differs");
      }
    };
    R.sut([&] {
      HostScope hs;
      range(l.begin(), l.end(), primary.size());
    });
    for (auto const &[v, n] : seq) {
      auto spot = primary.find(v);
      if (spot == primary.end() || spot->second != n) {
        R.fail("iterate", "iteration shows (%ld, '%s') which is not a definition", num(v), n.c_str());
      }
    }
    std::string joined, both;
    for (auto const &[v, n] : seq) {
      std::string low; // the 's' format is lower case.
      for (char c : n) {
        low += static_cast<char>(tolower(static_cast<unsigned char>(c)));
      }
      joined += (&seq[0].second == &n ? "" : ",") + low;
      both   += std::string(&seq[0].second == &n ? "" : ",") + "[" + n + "," + std::to_string(unsigned(v)) + "]";
    }
    if (R.one_in(6)) {
      std::string s1, s2;
      R.sut([&] {
        swoc::bwprint(s1, "{:s}", l);
        swoc::bwprint(s2, "{}", l);
      });
      if (s1 != joined || s2 != both) {
        R.fail("format", "printing the lexicon yields '%s' and '%s', expected '%s' and '%s'", s1.c_str(), s2.c_str(), joined.c_str(), both.c_str());
      }
      std::string nums;
      char const *f = R.coin() ? "{:d}" : "{:x}";
      for (auto const &[v, n] : seq) {
        char b[24];
        snprintf(b, sizeof b, f[2] == 'd' ? "%u" : "%x", unsigned(v));
        nums += (nums.empty() ? "" : ",") + std::string(b);
      }
      R.sut([&] { swoc::bwprint(s1, f, l); });
      if (s1 != nums) R.fail("format", "printing the lexicon by %s yields '%s', expected '%s'", f, s1.c_str(), nums.c_str());
      R.sut([&] { s1 = std::string(); s2 = std::string(); });
    }
    auto primary_seq = seq;
    {
      std::set<E> u;
      for (auto const &p : seq) {
        u.insert(p.first);
      }
      if (u.size() != seq.size()) {
        R.fail("iterate", "iteration shows a value twice");
      }
    }
    R.sut([&] {
      HostScope hs;
      range(l.begin_names(), l.end_names(), names.size());
    });
    std::set<std::string> u;
    for (auto const &[v, n] : seq) {
      auto spot = names.find(lower(n));
      if (spot == names.end() || spot->second.first != n || spot->second.second != v || !u.insert(n).second) {
        R.fail("iterate", "iteration by name shows (%ld, '%s') which is not a definition", num(v), n.c_str());
      }
    }
    size_t k = 0;
    for (auto const &p : l.by_names()) {
      if (k >= seq.size() || p._value != seq[k].first) {
        R.fail("iterate", "by_names differs from the name iterators");
      }
      ++k;
    }
    uint64_t h = 3;
    for (auto const &[n, p] : names) {
      h = mix(hash_bytes(n.data(), n.size(), h), num(p.second));
    }
    R.state(h);
  }
  void
  define()
  {
    E v        = R.of(values);
    unsigned n = R.one_in(20) ? 0 : 1 + R.small(4);
    std::vector<std::string> ns;
    for (unsigned i = 0; i < n; ++i) {
      ns.push_back(recase(R.of(pool)));
    }
    auto names0   = names;
    auto primary0 = primary;
    bool ok       = model_define(v, ns);
    unsigned how  = R.pick(4);
    bool a        = arm();
    std::string txt;
    for (auto &s : ns) {
      txt += " '" + s.substr(0, 20) + "'";
    }
    bool rejected = false, bad = false;
    {
      Temp t;
      std::vector<TextView> tv;
      for (auto &s : ns) {
        tv.push_back(t.view(s));
      }
      R.log("define %ld%s%s%s", num(v), txt.c_str(), ok ? "" : " (to be rejected)", a ? " (memory may fail)" : "");
      auto by_list = [&](std::initializer_list<TextView> const &il) {
        if (how == 0) {
          Def d{v, il};
          lex->define(d);
        } else {
          lex->define(v, il);
        }
      };
      try {
        R.sut([&] {
          switch (tv.size()) {
          case 0:
            by_list({});
            break;
          case 1:
            how == 1 ? lex->define(v, tv[0]) : how == 2 ? lex->define(Pair{v, tv[0]}) : (by_list({tv[0]}), *lex);
            break;
          case 2:
            how == 1 ? lex->define(v, tv[0], tv[1]) : (by_list({tv[0], tv[1]}), *lex);
            break;
          case 3:
            how == 1 ? lex->define(v, tv[0], tv[1], tv[2]) : (by_list({tv[0], tv[1], tv[2]}), *lex);
            break;
          default:
            how == 1 ? lex->define(v, tv[0], tv[1], tv[2], tv[3]) : (by_list({tv[0], tv[1], tv[2], tv[3]}), *lex);
            break;
          }
        });
      } catch (std::bad_alloc const &) {
        bad = true;
      } catch (std::exception const &) {
        rejected = true;
      }
    }
    bool fired = a && disarm();
    if (bad && !fired) {
      R.fail("exception", "definition ran out of memory without a failed allocation");
    }
    if (bad || rejected) {
      if (rejected && ok && !fired) {
        R.fail("rejected", "a definition of new names was rejected");
      }
      names   = names0;
      primary = primary0;
      R.count(bad ? "definitions out of memory" : "definitions rejected");
      check();
    } else if (!ok) {
      R.fail("accepted", "a definition with a duplicate name or no name was accepted");
    }
    if (R.one_in(4)) {
      R.sut([&] { // retry
      });
    }
  }
  void
  construct()
  {
    for (int attempt = 0;; ++attempt) {
      names.clear();
      primary.clear();
      name_default = value_default = NONE;
      Temp t;
      unsigned kind = R.pick(4);
      Defaults d1 = make_default(t), d2 = make_default(t);
      std::vector<std::string> ns;
      std::vector<TextView> tv;
      std::vector<E> vs;
      for (int i = 0; i < 6; ++i) {
        ns.push_back(recase(R.of(pool)));
        tv.push_back(t.view(ns.back()));
        vs.push_back(R.of(values));
      }
      bool ok = true;
      auto md = [&](E v, std::vector<std::string> x) { ok = ok && model_define(v, x); };
      bool a  = attempt == 0 && arm();
      bool bad = false, rejected = false;
      R.log("construct kind %u%s", kind, a ? " (memory may fail)" : "");
      if (kind == 2) {
        md(vs[0], {ns[0]});
        md(vs[1], {ns[1]});
        md(vs[2], {ns[2]});
      } else if (kind == 3) {
        md(vs[0], {ns[0], ns[1], ns[2]});
        md(vs[1], {ns[3]});
        md(vs[2], {ns[4], ns[5]});
      }
      try {
        R.sut([&] {
          using With = typename Lex::with;
          switch (kind) {
          case 0:
            lex.reset(new Lex);
            break;
          case 1:
            lex.reset(new Lex(d1.d, d2.d));
            break;
          case 2: {
            std::initializer_list<Pair> il{Pair{vs[0], tv[0]}, Pair{vs[1], tv[1]}, Pair{vs[2], tv[2]}};
            lex.reset(new Lex(il, d1.d, d2.d));
          } break;
          case 3: {
            std::initializer_list<TextView> a{tv[0], tv[1], tv[2]}, b{tv[3]}, c{tv[4], tv[5]};
            std::initializer_list<Def> il{Def{vs[0], a}, Def{vs[1], b}, Def{vs[2], c}};
            lex.reset(new Lex(il, d1.d, d2.d));
          } break;
          }
        });
      } catch (std::bad_alloc const &) {
        bad = true;
      } catch (std::exception const &) {
        rejected = true;
      }
      bool fired = a && disarm();
      if ((bad && !fired) || (rejected && ok && !fired)) {
        R.fail("exception", "construction failed without cause");
      }
      if (!bad && !rejected && !ok) {
        R.fail("accepted", "construction with a duplicate name was accepted");
      }
      R.sut([&] { // The copies passed by value are library side, these are released here.
      });
      if (bad || rejected) {
        if (attempt > 20) { // just get on with it.
          names.clear();
          primary.clear();
          R.sut([&] { lex.reset(new Lex); });
          return;
        }
        continue;
      }
      if (kind != 0) {
        apply(d1);
        apply(d2);
      }
      return;
    }
  }
  void
  go()
  {
    setup();
    construct();
    check();
    while (R.more(20, 200)) {
      R.step();
      switch (R.pick(8)) {
      case 0:
      case 1:
      case 2:
      case 3:
        define();
        break;
      case 4: {
        Temp t;
        Defaults d = make_default(t);
        bool a     = arm();
        R.log("set default name %d value %d%s", d.name, d.value, a ? " (memory may fail)" : "");
        bool bad   = oom(R, "set_default", [&] { lex->set_default(d.d); });
        bool fired = a && disarm();
        if (bad && !fired) {
          R.fail("exception", "set_default ran out of memory without a failed allocation");
        }
        if (!bad) {
          apply(d);
        }
        break;
      }
      case 5: { // move
        if (!R.one_in(2)) {
          break;
        }
        bool reuse = R.coin();
        R.log("move%s", reuse ? " and use the source" : "");
        auto from = std::move(lex);
        R.sut([&] { lex.reset(new Lex(std::move(*from))); });
        if (reuse) {
          E v = R.of(values);
          Temp t;
          auto n = t.view(R.of(pool));
          try {
            R.sut([&] {
              from->define(v, n);
              if ((*from)[v] != n || (*from)[n] != v || from->count() != 1) {
                R.fail("move", "a moved lexicon could not be used again");
              }
            });
          } catch (std::exception const &x) {
            R.fail("move", "a moved lexicon could not be used again: %s", x.what());
          }
        }
        R.sut([&] { from.reset(); });
        break;
      }
      default:
        check();
        break;
      }
      if (R.one_in(4)) {
        check();
      }
    }
    check();
    if (R._steps > 2) {
      R.nontrivial();
    }
    R.sut([&] { lex.reset(); });
  }
};

// ================================================================ V01: small-buffer vector
std::unordered_map<void const *, int> *g_objs = nullptr;
long g_throw                                  = -1; ///< countdown to a throwing constructor
bool g_threw                                  = false;
char g_life[160];

void
life(char const *what, void const *p)
{
  if (!g_life[0]) {
    snprintf(g_life, sizeof g_life, "%s", what);
  }
}
void
may_throw()
{
  if (g_throw >= 0 && g_throw-- == 0) {
    g_threw = true;
    throw Injected{2};
  }
}

/// Move only.
template <size_t ALIGN = alignof(long)> struct UObj {
  int v;
  explicit UObj(int n = 0) : v(n)
  {
    may_throw();
    born();
  }
  UObj(UObj &&that) noexcept : v(that.v)
  {
    that.used();
    that.v = -1;
    born();
  }
  UObj &
  operator=(UObj &&that) noexcept
  {
    used();
    that.used();
    v      = that.v;
    that.v = -1;
    return *this;
  }
  ~UObj()
  {
    HostScope hs;
    if (!g_objs->erase(this)) {
      life("an element was destroyed that does not exist", this);
    }
  }
  void
  born()
  {
    HostScope hs;
    if (!g_objs->emplace(this, 1).second) {
      life("an element was constructed over a live element", this);
    }
  }
  void
  used() const
  {
    HostScope hs;
    if (!g_objs->count(this)) {
      life("an element was used outside its lifetime", this);
    }
  }
};
/// Copy (which can throw) and movable without throwing, or with.
template <bool NOEX, size_t ALIGN = alignof(long)> struct alignas(ALIGN) CObj {
  int v;
  explicit CObj(int n = 0) : v(n)
  {
    may_throw();
    born();
  }
  CObj(CObj const &that)
  {
    that.used();
    may_throw();
    v = that.v;
    born();
  }
  CObj(CObj &&that) noexcept(NOEX)
  {
    that.used();
    if constexpr (!NOEX) {
      may_throw();
    }
    v      = that.v;
    that.v = -1;
    born();
  }
  CObj &
  operator=(CObj const &that)
  {
    used();
    that.used();
    may_throw();
    v = that.v;
    return *this;
  }
  CObj &
  operator=(CObj &&that) noexcept(NOEX)
  {
    used();
    that.used();
    if constexpr (!NOEX) {
      may_throw();
    }
    v      = that.v;
    that.v = -1;
    return *this;
  }
  ~CObj()
  {
    HostScope hs;
    if (!g_objs->erase(this)) {
      life("an element was destroyed that does not exist", this);
    }
  }
  void
  born()
  {
    HostScope hs;
    if (reinterpret_cast<uintptr_t>(this) % ALIGN) {
      life("an element is misaligned", this);
    }
    if (!g_objs->emplace(this, 1).second) {
      life("an element was constructed over a live element", this);
    }
  }
  void
  used() const
  {
    HostScope hs;
    if (!g_objs->count(this)) {
      life("an element was used outside its lifetime", this);
    }
  }
};
/// Copy only.
struct KObj : CObj<false> {
  explicit KObj(int n = 0) : CObj<false>(n) {}
  KObj(KObj const &that) : CObj<false>(that) {}
  KObj &operator=(KObj const &that) = default;
};

inline int
val(int x)
{
  return x;
}
template <typename T>
int
val(T const &t)
{
  t.used();
  return t.v;
}
template <typename T>
void
set(T &t, int v)
{
  if constexpr (std::is_same_v<T, int>) {
    t = v;
  } else {
    t.used();
    t.v = v;
  }
}

/// Memory for the polymorphic allocator.
struct Resource : std::pmr::memory_resource {
  std::map<void *, size_t> live;
  long countdown = -1;
  bool fired     = false;
  bool bad       = false;
  void *
  do_allocate(size_t n, size_t align) override
  {
    HostScope hs;
    if (countdown >= 0 && countdown-- == 0) {
      fired = true;
      throw std::bad_alloc();
    }
    void *p = nullptr;
    p       = ::aligned_alloc(std::max<size_t>(align, 16), (n + 63) / 64 * 64 + 64);
    live[p] = n;
    return p;
  }
  void
  do_deallocate(void *p, size_t n, size_t) override
  {
    HostScope hs;
    auto spot = live.find(p);
    if (spot == live.end() || spot->second != n) {
      bad = true;
      return;
    }
    live.erase(spot);
    ::free(p);
  }
  bool
  do_is_equal(memory_resource const &that) const noexcept override
  {
    return this == &that;
  }
};

template <typename T, size_t N, size_t M, class A> struct VecSim {
  using Vec                  = swoc::Vectray<T, N, A>;
  using Vec2                 = swoc::Vectray<T, M, A>;
  static constexpr bool PMR  = std::is_same_v<A, std::pmr::polymorphic_allocator<T>>;
  static constexpr bool COP  = std::is_copy_constructible_v<T>;
  static constexpr bool NOEX = std::is_nothrow_move_constructible_v<T>;

  Run &R;
  bool faults;
  Resource &res;
  std::unique_ptr<Vec> vec[2];
  std::vector<int> model[2];
  int next = 1;

  VecSim(Run &r, bool f, Resource &rs) : R(r), faults(f), res(rs) {}

  A
  alloc()
  {
    if constexpr (PMR) {
      return A(&res);
    } else {
      return A();
    }
  }
  bool
  arm()
  {
    if (faults && R.one_in(3)) {
      if (R.coin()) {
        g_throw = R.small(N + 3);
      } else if (PMR) {
        res.countdown = R.pick(2);
      } else {
        R.arm_alloc(R.pick(2), false);
      }
      g_threw   = false;
      res.fired = false;
      return true;
    }
    return false;
  }
  /// Run an operation. @return @c true if it failed.
  template <typename F>
  bool
  act(bool armed, char const *what, F &&f)
  {
    bool bad = false;
    try {
      R.sut(f);
    } catch (std::bad_alloc const &) {
      bad = true;
    } catch (Injected const &) {
      bad = true;
    } catch (std::exception const &x) {
      R.fail("exception", "%s threw %s", what, x.what());
    }
    long n        = R.disarm_alloc();
    g_throw       = -1;
    res.countdown = -1;
    bool fired    = n > 0 || g_threw || res.fired;
    if (armed && fired) {
      R.fault(g_threw ? "constructor threw" : "allocation failed");
      R.nontrivial();
    }
    bool any  = armed && fired;
    g_threw   = false;
    res.fired = false;
    if (bad && !any) {
      R.fail("exception", "%s failed without cause", what);
    }
    if (!bad && any) {
      R.fail("swallowed", "%s succeeded although %s", what, n > 0 ? "an allocation failed" : "a constructor threw or the allocator failed");
    }
    if (g_life[0]) {
      R.fail("lifetime", "%s: %s", what, g_life);
    }
    return bad;
  }
  void
  check(unsigned k, char const *op)
  {
    Vec &v       = *vec[k];
    Vec const &c = v;
    auto &m      = model[k];
    if (v.size() != m.size() || v.empty() != m.empty() || c.size() != m.size()) {
      R.fail("size", "after %s vector %u has %zu elements of %zu", op, k, v.size(), m.size());
    }
    std::vector<int> a, b, d;
    for (auto &x : v) {
      a.push_back(val(x));
      if (a.size() > m.size()) {
        break;
      }
    }
    for (auto const &x : c) {
      b.push_back(val(x));
      if (b.size() > m.size()) {
        break;
      }
    }
    for (size_t i = 0; i < m.size(); ++i) {
      d.push_back(val(c[i]));
      if (&c[i] != &v[i] || v.data() + i != &v[i] || c.data() + i != &v[i]) {
        R.fail("access", "after %s element %zu is in different places", op, i);
      }
    }
    if (a != m || b != m || d != m) {
      std::string s;
      for (size_t i = 0; i < std::max(a.size(), m.size()); ++i) {
        s += " " + (i < a.size() ? std::to_string(a[i]) : "-") + "/" + (i < m.size() ? std::to_string(m[i]) : "-");
      }
      R.fail("sequence", "after %s vector %u differs from a standard vector (got/expected):%s", op, k, s.c_str());
    }
    if (!m.empty() && (val(v.front()) != m.front() || val(c.front()) != m.front() || val(v.back()) != m.back() || val(c.back()) != m.back())) {
      R.fail("access", "after %s the ends are wrong", op);
    }
    swoc::MemSpan<T> sp         = v;
    swoc::MemSpan<T const> csp  = c;
    if (sp.count() != m.size() || csp.count() != m.size() || (!m.empty() && (sp.data() != v.data() || csp.data() != v.data()))) {
      R.fail("access", "after %s the span is wrong", op);
    }
    if (g_life[0]) {
      R.fail("lifetime", "after %s: %s", op, g_life);
    }
    if constexpr (!std::is_same_v<T, int>) {
      for (auto &x : v) {
        if (!g_objs->count(&x)) {
          R.fail("lifetime", "after %s an element in the vector is not alive", op);
        }
      }
      size_t expect = model[0].size() + model[1].size();
      if (g_objs->size() != expect) {
        R.fail("lifetime", "after %s %zu element objects are alive, %zu are in vectors", op, g_objs->size(), expect);
      }
    }
    if (res.bad) {
      R.fail("allocator", "after %s storage was returned to an allocator it did not come from", op);
    }
    if (PMR && m.size() <= N && false) {
      R.fail("allocator", "unused");
    }
  }
  /// The source of a move: empty and valid.
  template <typename X>
  void
  drain(X &v, bool emptied = true)
  {
    size_t n = v.size();
    if (emptied && n) {
      R.fail("move", "a vector still has %zu elements after its elements were moved out", n);
    }
    if (n > 10000) {
      R.fail("move", "a moved vector has %zu elements", n);
    }
    size_t seen = 0;
    for (auto &x : v) {
      (void)val(x);
      ++seen;
    }
    if (seen != n || g_life[0]) {
      R.fail("move", "a moved vector is not valid");
    }
    R.sut([&] {
      while (!v.empty()) {
        v.pop_back();
      }
    });
  }
  void
  op()
  {
    unsigned k = R.one_in(3);
    Vec &v     = *vec[k];
    auto &m    = model[k];
    switch (R.pick(19)) {
    case 0:
    case 1: { // copy in
      if constexpr (COP) {
        T x(next);
        bool a = arm();
        R.log("v%u push_back copy of %d%s", k, next, a ? " (may fail)" : "");
        bool bad = act(a, "push_back", [&] { v.push_back(x); });
        if (val(x) != next) {
          R.fail("sequence", "push_back by copy changed its argument");
        }
        if (!bad) {
          m.push_back(next);
        }
        ++next;
      }
      break;
    }
    case 2:
    case 3: { // move in
      T x(next);
      bool a = arm();
      R.log("v%u push_back move of %d%s", k, next, a ? " (may fail)" : "");
      if (!act(a, "push_back", [&] { v.push_back(std::move(x)); })) {
        m.push_back(next);
      }
      ++next;
      break;
    }
    case 4:
    case 5:
    case 6: {
      bool a = arm();
      R.log("v%u emplace_back %d%s", k, next, a ? " (may fail)" : "");
      if (!act(a, "emplace_back", [&] { v.emplace_back(next); })) {
        m.push_back(next);
      }
      ++next;
      break;
    }
    case 7: { // append one of its own
      if constexpr (COP) {
        if (m.empty()) {
          break;
        }
        size_t i = R.pick(m.size());
        bool em = R.coin(), a = arm();
        R.log("v%u %s of its own element %zu%s", k, em ? "emplace_back" : "push_back", i, a ? " (may fail)" : "");
        if (!act(a, "appending an element of its own", [&] { em ? v.emplace_back(v[i]) : v.push_back(v[i]); })) {
          m.push_back(int(m[i]));
        }
      }
      break;
    }
    case 8:
    case 9: {
      if (m.empty()) {
        break;
      }
      R.log("v%u pop_back", k);
      act(false, "pop_back", [&] { v.pop_back(); });
      m.pop_back();
      break;
    }
    case 10: {
      size_t n = R.small(3 * N + 6);
      bool a   = arm();
      R.log("v%u reserve %zu%s", k, n, a ? " (may fail)" : "");
      if (!act(a, "reserve", [&] { v.reserve(n); }) && n > m.size() && !m.empty()) {
        // Nothing moves until there are more.
        if (R.coin()) {
          T const *p = v.data();
          while (m.size() < n) {
            act(false, "emplace_back", [&] { v.emplace_back(next); });
            m.push_back(next++);
          }
          if (v.data() != p) {
            R.fail("reserve", "elements moved although the storage was reserved");
          }
        }
      }
      break;
    }
    case 11: { // write
      if (!m.empty()) {
        size_t i = R.pick(m.size());
        set(v[i], next);
        m[i] = next++;
        set(v.front(), next);
        m.front() = next++;
        set(v.back(), next);
        m.back() = next++;
      }
      break;
    }
    case 12: { // move construct
      bool a = NOEX && arm();
      R.log("v%u move construct%s", k, a ? " (may fail)" : "");
      std::unique_ptr<Vec> to;
      if (!act(a, "move construction", [&] { to.reset(new Vec(std::move(v))); })) {
        drain(v);
        R.sut([&] {
          auto old = std::move(vec[k]);
          vec[k]   = std::move(to);
          old.reset();
        });
      }
      break;
    }
    case 18: { // with an allocator
      bool a = NOEX && arm();
      R.log("v%u move construct with an allocator%s", k, a ? " (may fail)" : "");
      std::unique_ptr<Vec> to;
      if (!act(a, "move construction with an allocator", [&] { to.reset(new Vec(std::move(v), alloc())); })) {
        drain(v, false);
        R.sut([&] {
          auto old = std::move(vec[k]);
          vec[k]   = std::move(to);
          old.reset();
        });
      }
      break;
    }
    case 13: { // through a different size
      bool a = NOEX && arm();
      R.log("v%u move to a vector of %zu and back%s", k, M, a ? " (may fail)" : "");
      std::unique_ptr<Vec2> to;
      if (!act(a, "move to another size", [&] { to.reset(new Vec2(std::move(v))); })) {
        drain(v);
        if (to->size() != m.size()) {
          R.fail("sequence", "moving to another size kept %zu of %zu elements", to->size(), m.size());
        }
        R.sut([&] { vec[k].reset(); });
        act(false, "move from another size", [&] { vec[k].reset(new Vec(std::move(*to))); });
        drain(*to);
        R.sut([&] { to.reset(); });
      }
      break;
    }
    case 14: { // new
      bool a   = arm();
      size_t n = R.coin() ? 0 : R.small(2 * N + 3);
      bool al  = R.coin();
      R.log("v%u new with %zu elements%s", k, n, a ? " (may fail)" : "");
      std::unique_ptr<Vec> to;
      bool bad = act(a, "construction", [&] {
        if (PMR || al) {
          to.reset(n ? new Vec(n, alloc()) : new Vec(alloc()));
        } else {
          to.reset(n ? new Vec(n) : new Vec);
        }
      });
      if (!bad) {
        R.sut([&] {
          vec[k].reset();
          vec[k] = std::move(to);
        });
        m.assign(n, 0);
      }
      break;
    }
    case 15: { // copy
      if constexpr (COP) {
        bool a = arm();
        R.log("v%u copy construct v%u%s", 1 - k, k, a ? " (may fail)" : "");
        std::unique_ptr<Vec> to;
        Vec const &src = v;
        if (!act(a, "copy construction", [&] { to.reset(new Vec(src)); })) {
          R.sut([&] {
            vec[1 - k].reset();
            vec[1 - k] = std::move(to);
          });
          model[1 - k] = m;
          check(1 - k, "copy");
        }
      }
      break;
    }
    case 16: { // assign
      bool mv = !COP || R.coin();
      R.log("v%u %s assign v%u", 1 - k, mv ? "move" : "copy", k);
      if (mv) {
        act(false, "move assignment", [&] { *vec[1 - k] = std::move(v); });
        model[1 - k] = m;
        drain(v);
        m.clear();
      } else {
        if constexpr (COP) {
          Vec const &src = v;
          act(false, "copy assignment", [&] { *vec[1 - k] = src; });
          model[1 - k] = m;
          if (R.one_in(4)) { // to itself
            act(false, "copy assignment", [&] { v = src; });
          }
        }
      }
      check(1 - k, "assignment");
      break;
    }
    default: { // burst over the boundary
      unsigned n = R.pick(N + 3);
      for (unsigned i = 0; i < n; ++i) {
        act(false, "emplace_back", [&] { v.emplace_back(next); });
        m.push_back(next++);
      }
      break;
    }
    }
    check(k, "the operation");
  }
  void
  go()
  {
    for (auto &p : vec) {
      R.sut([&] { p.reset(PMR ? new Vec(alloc()) : new Vec); });
    }
    while (R.more(25, 200)) {
      op();
      R.step();
      R.state(mix(mix(N * 64 + sizeof(T), model[0].size()), model[1].size()));
    }
    if (R._steps > 2) {
      R.nontrivial();
    }
    for (auto &p : vec) {
      R.sut([&] { p.reset(); });
    }
    if (g_life[0]) {
      R.fail("lifetime", "on destruction: %s", g_life);
    }
    if (!g_objs->empty()) {
      R.fail("lifetime", "%zu elements were never destroyed", g_objs->size());
    }
    if (!res.live.empty() || res.bad) {
      R.fail("allocator", "storage was not returned to its allocator");
    }
  }
};

template <typename T, size_t N, size_t M, class A = std::allocator<T>>
void
vec_run(Run &R)
{
  std::unordered_map<void const *, int> objs;
  Resource res;
  g_objs    = &objs;
  g_life[0] = 0;
  g_throw   = -1;
  g_threw   = false;
  VecSim<T, N, M, A>(R, R.pct(70), res).go();
}
void
vec_any(Run &R)
{
  switch (R.pick(10)) {
  case 0:
    return vec_run<CObj<true>, 1, 4>(R);
  case 1:
    return vec_run<CObj<true>, 3, 2>(R);
  case 2:
    return vec_run<CObj<false>, 2, 5>(R);
  case 3:
    return vec_run<KObj, 4, 1>(R);
  case 4:
    return vec_run<UObj<>, 2, 7>(R);
  case 5:
    return vec_run<CObj<true, 64>, 3, 8>(R);
  case 6:
    return vec_run<int, 5, 2>(R);
  case 7:
    return vec_run<CObj<true>, 2, 3, std::pmr::polymorphic_allocator<CObj<true>>>(R);
  case 8:
    return vec_run<KObj, 8, 3>(R);
  case 9:
    return vec_run<int, 1, 9>(R);
  }
}

// ================================================================ X03: stream hash
/// Streams delivered in pieces to hashers of both sizes, pieces in memory that is gone afterward.
struct HashSim {
  struct Ref {
    uint32_t h32 = 2166136261u;
    uint64_t h64 = 14695981039346656037ull;
    void
    add(unsigned char c)
    {
      h32 = (h32 ^ c) * 16777619u;
      h64 = (h64 ^ c) * 1099511628211ull;
    }
  };
  struct Stream {
    swoc::Hash32FNV1a h32;
    swoc::Hash64FNV1a h64;
    Ref ref;
    size_t n    = 0;
    bool closed = false;
  };
  Run &R;
  std::vector<std::unique_ptr<Stream>> streams;
  explicit HashSim(Run &r) : R(r) {}

  static int
  upper(int c)
  {
    return c >= 'a' && c <= 'z' ? c - 32 : c;
  }

  void
  check(Stream &s)
  {
    uint32_t a = R.sut([&] { return const_cast<swoc::Hash32FNV1a const &>(s.h32).get(); });
    uint64_t b = R.sut([&] { return const_cast<swoc::Hash64FNV1a const &>(s.h64).get(); });
    if (a != s.ref.h32) {
      R.fail("hash", "the 32 bit hash after %zu bytes is %08x instead of %08x", s.n, a, s.ref.h32);
    }
    if (b != s.ref.h64) {
      R.fail("hash", "the 64 bit hash after %zu bytes is %016lx instead of %016lx", s.n, static_cast<unsigned long>(b), static_cast<unsigned long>(s.ref.h64));
    }
  }

  std::unique_ptr<char[]>
  piece(size_t &n)
  {
    n = R.one_in(5) ? R.pick(3) : R.one_in(40) ? R.pick(3000) : R.one_in(400) ? 3000 + R.pick(140000) : R.pick(40);
    std::unique_ptr<char[]> b{new char[n]}; // exact, so reading outside of it is noticed.
    unsigned style = R.pick(4);
    for (size_t i = 0; i < n; ++i) {
      b[i] = style == 0 ? R.pick(256) : style == 1 ? 'A' + R.pick(58) : style == 2 ? "\0\x7f\x80\xff"[R.pick(4)] : ' ' + R.pick(95);
    }
    return b;
  }

  void
  deliver(Stream &s)
  {
    size_t n;
    auto b       = piece(n);
    unsigned how = R.pick(7);
    bool now     = R.one_in(4);
    std::string_view v{b.get(), n};
    R.log("deliver %zu bytes (%u)%s", n, how, now ? " immediate" : "");
    unsigned char mask = R.pick(256);
    auto masked        = [mask](char c) -> unsigned char { return c ^ mask; };
    for (unsigned char c : v) {
      s.ref.add(how == 3 ? upper(c) : how == 4 ? c ^ mask : c);
    }
    s.n += n;
    uint32_t a = 0;
    uint64_t z = 0;
    R.sut([&] {
      auto go = [&](auto const &src) {
        if (now) {
          a = s.h32.hash_immediate(src);
          z = s.h64.hash_immediate(src);
        } else {
          s.h32.update(src);
          s.h64.update(src);
        }
      };
      switch (how) {
      case 0: go(v); break;
      case 1: go(TextView(v)); break;
      case 2: go(swoc::transform_view_of(v)); break;
      case 3: go(swoc::transform_view_of(&upper, v)); break;
      case 4: go(swoc::transform_view_of(masked, v)); break;
      case 5: go(swoc::transform_view_of(TextView(v))); break;
      default: { // a part of the piece and the rest
        size_t k = n / 2;
        s.h32.update(v.substr(0, k)).update(v.substr(k));
        s.h64.update(v.substr(0, k)).update(v.substr(k));
        if (now) {
          a = s.h32.final().get();
          z = s.h64.final().get();
        }
        break;
      }
      }
    });
    if (now && (a != s.ref.h32 || z != s.ref.h64)) {
      R.fail("hash", "the immediate hashes are %08x %016lx instead of %08x %016lx", a, static_cast<unsigned long>(z), s.ref.h32, static_cast<unsigned long>(s.ref.h64));
    }
    s.closed = now;
    if (n > 1) {
      R.fault("delivery split");
    }
    if (s.closed) {
      R.count("finalised");
      check(s);
      reopen(s);
    }
  }

  void
  reopen(Stream &s)
  {
    R.sut([&] {
      s.h32.clear();
      s.h64.clear();
    });
    s.ref    = Ref{};
    s.n      = 0;
    s.closed = false;
  }

  void
  go()
  {
    streams.push_back(std::make_unique<Stream>());
    while (R.more(25, 300)) {
      R.step();
      Stream &s = *streams[R.pick(streams.size())];
      switch (R.pick(8)) {
      case 0: check(s); break;
      case 1: // another stream begins, or goes another way from here.
        if (streams.size() < 4) {
          auto t = std::make_unique<Stream>();
          if (R.coin()) {
            R.log("fork");
            R.sut([&] {
              t->h32 = s.h32;
              t->h64 = s.h64;
            });
            t->ref = s.ref;
            t->n   = s.n;
          }
          streams.push_back(std::move(t));
        }
        break;
      case 2:
        if (R.coin()) {
          R.log("restart");
          reopen(s);
          check(s);
        } else {
          R.log("final");
          R.sut([&] {
            s.h32.final().final();
            s.h64.final();
          });
          check(s);
          reopen(s);
        }
        break;
      default: deliver(s);
      }
      uint64_t h = 0;
      for (auto &t : streams) {
        h = mix(h, t->ref.h64);
      }
      R.state(h);
    }
    for (auto &t : streams) {
      check(*t);
    }
    if (R.ops() > 2) {
      R.nontrivial();
    }
  }
};

// ================================================================ X04: scoped values
struct ScopeSim {
  /// A value that can't be copied on command.
  struct Item {
    static int throw_in;
    int v = 0;
    std::unique_ptr<int> heap;
    Item() : heap(new int(0)) {}
    explicit Item(int x) : v(x), heap(new int(x)) {}
    Item(Item const &that) : v(that.v), heap(new int(copy(that))) {}
    Item(Item &&that) noexcept : v(std::exchange(that.v, -1)), heap(std::move(that.heap)) {}
    Item &
    operator=(Item const &that)
    {
      Item tmp(that);
      return *this = std::move(tmp);
    }
    Item &
    operator=(Item &&that) noexcept
    {
      if (this != &that) v = std::exchange(that.v, -1), heap = std::move(that.heap);
      return *this;
    }
    static int
    copy(Item const &that)
    {
      if (throw_in && --throw_in == 0) {
        cur->fault("copy-throws");
        throw std::runtime_error("copy");
      }
      return that.v;
    }
    bool operator==(Item const &that) const { return v == that.v && bool(heap) == bool(that.heap) && (!heap || *heap == *that.heap); }
  };
  struct Leave {}; ///< A client gives up.
  using Strings = std::vector<std::string>;

  Run &R;
  explicit ScopeSim(Run &r) : R(r) {}
  std::string text, text_m;
  long number = 0, number_m = 0;
  Strings list, list_m;
  Item item, item_m;
  std::unique_ptr<int> only; ///< can't be copied at all
  int *only_m = nullptr;
  unsigned scopes = 0, faults = 0;

  std::string
  any()
  {
    std::string z;
    unsigned n = R.one_in(3) ? R.pick(60) : R.pick(14);
    for (unsigned i = 0; i < n; ++i) z += char('a' + R.pick(26));
    return z;
  }
  void
  check(char const *when)
  {
    if (text != text_m) R.fail("scope", "%s the text is '%s' instead of '%s'", when, text.c_str(), text_m.c_str());
    if (number != number_m) R.fail("scope", "%s the number is %ld instead of %ld", when, number, number_m);
    if (list != list_m) R.fail("scope", "%s the list has %zu instead of %zu elements, or others", when, list.size(), list_m.size());
    if (!(item == item_m)) R.fail("scope", "%s the item is %d instead of %d", when, item.v, item_m.v);
    if (only.get() != only_m) R.fail("scope", "%s the unique object is another", when);
  }
  void
  change()
  {
    switch (R.pick(6)) {
    case 0: text_m = any(), text = text_m; break;
    case 1: text_m += "x", text += "x"; break;
    case 2: number_m = number = R.pick(1000); break;
    case 3: list_m.push_back(any()), list = list_m; break;
    case 4: {
      int v = int(R.pick(100));
      item = Item(v), item_m = Item(v);
    } break;
    default: only.reset(new int(3)), only_m = only.get();
    }
  }
  template <typename T, typename V>
  void
  scope(T &var, T &model, V &&value, unsigned depth)
  {
    using swoc::meta::let;
    T const before(model), now(value);
    bool by_move = R.coin(), alias = R.one_in(8);
    bool fail    = R.one_in(4);
    bool in      = false;
    T tmp(value);
    void const *mem = nullptr, *tmp_mem = nullptr;
    if constexpr (std::is_same_v<T, std::string>) {
      if (before.size() > 20) mem = var.data();
      if (now.size() > 20) tmp_mem = tmp.data();
    }
    if (fail) {
      if (std::is_same_v<T, Item> && R.coin()) Item::throw_in = int(1 + R.pick(2));
      else R.arm_alloc(1 + R.pick(3), R.coin());
    }
    R.mark(), R.log("scope %u of %s by %s%s", depth, typeid(T).name(), by_move ? "move" : alias ? "itself" : "value", fail ? ", which can fail" : "");
    try {
      auto disarm = [&] { R.disarm_alloc(), Item::throw_in = 0; };
      if (by_move) {
        auto l = R.sut([&]() -> let<T> { return let<T>(var, std::move(tmp)); });
        disarm();
        in    = true;
        model = now;
        if constexpr (std::is_same_v<T, std::string>) {
          if (tmp_mem && var.data() != tmp_mem) R.fail("scope", "a text that was moved was copied");
        }
        inside(depth);
      } else {
        T const &v = alias ? var : tmp;
        auto l     = R.sut([&]() -> let<T> { return let<T>(var, v); });
        disarm();
        in    = true;
        model = alias ? before : now;
        inside(depth);
      }
    } catch (Leave const &) {
      done(var, model, before, mem);
      if (R.coin()) throw;
      check("after the client gave up");
      return;
    } catch (std::bad_alloc const &) {
      R.disarm_alloc(), Item::throw_in = 0;
      if (in || !fail) R.fail("scope", "memory failed where it can't");
      R.count("no scope"), ++faults;
      check("after a scope could not be made");
      return;
    } catch (std::runtime_error const &) {
      R.disarm_alloc(), Item::throw_in = 0;
      if (in || !fail) R.fail("scope", "a copy failed where there is none");
      R.count("no scope"), ++faults;
      check("after a scope could not be made");
      return;
    }
    done(var, model, before, mem);
    check("after the scope");
  }
  template <typename T>
  void
  done(T &var, T &model, T const &before, void const *mem)
  {
    model = before;
    if constexpr (std::is_same_v<T, std::string>) {
      if (mem && var.data() != mem) R.fail("scope", "the original text was copied");
    }
  }
  void
  inside(unsigned depth)
  {
    ++scopes;
    R.step();
    check("at the start of the scope");
    R.state(mix(depth, text.size() + 64 * list.size() + uint64_t(number) * 1024));
    play(depth + 1);
  }
  void
  play(unsigned depth)
  {
    while (R.more(depth ? 2 : 12, 40)) {
      switch (R.pick(9)) {
      case 0:
      case 1: change(); break;
      case 2:
        if (depth) {
          R.fault("client-leaves");
          throw Leave();
        }
        break;
      case 3:
        if (depth) return;
        break;
      default:
        if (depth > 12 || scopes > 300) break;
        switch (R.pick(5)) {
        case 0: scope(text, text_m, any(), depth); break;
        case 1: scope(number, number_m, long(R.pick(1000)), depth); break;
        case 2: {
          Strings z;
          for (unsigned n = R.pick(4); n--;) z.push_back(any());
          scope(list, list_m, z, depth);
        } break;
        case 3: scope(item, item_m, Item(int(R.pick(100))), depth); break;
        default: {
          int *before = only_m;
          std::unique_ptr<int> z(R.coin() ? new int(7) : nullptr);
          int *p    = z.get();
          bool left = false;
          try {
            swoc::meta::let<std::unique_ptr<int>> l(only, std::move(z));
            only_m = p;
            inside(depth);
          } catch (Leave const &) {
            left = true;
          }
          only_m = before;
          if (left && R.coin()) throw Leave();
        }
        }
        check("after a scope");
      }
    }
  }
  void
  go()
  {
    Item::throw_in = 0;
    text = text_m = any();
    try {
      play(0);
    } catch (Leave const &) {
    }
    check("in the end");
    if (scopes > 1 || faults) R.nontrivial();
  }
};
int ScopeSim::Item::throw_in;

// ================================================================ H03: the cost of using the hash map
struct CostItem {
  uint64_t key = 0;
  CostItem *_next{nullptr};
  CostItem *_prev{nullptr};
};
struct CostDesc {
  static inline long equals = 0;  ///< Keys compared.
  static inline long touched = 0; ///< All uses of elements.
  static inline uint64_t salt = 0;
  static inline bool spread = true;
  static uint64_t key_of(CostItem *v) { return ++touched, v->key; }
  static bool equal(uint64_t a, uint64_t b) { return ++equals, a == b; }
  static uint64_t hash_of(uint64_t k) { return spread ? mix(salt, k) : k; }
  static CostItem *&next_ptr(CostItem *v) { return ++touched, v->_next; }
  static CostItem *&prev_ptr(CostItem *v) { return ++touched, v->_prev; }
};

struct CostSim {
  using Map = swoc::IntrusiveHashMap<CostDesc>;
  Run &R;
  std::deque<CostItem> store;
  std::vector<CostItem *> in, out; ///< Elements in the map and not in the map.
  std::unique_ptr<Map> map;
  Map::ExpansionPolicy policy = Map::AVERAGE;
  size_t limit                = 0;
  uint64_t next_key           = 1;
  unsigned dups               = 1;
  long inserts = 0, insert_cost = 0, allowed_cost = 0;
  unsigned since = 0; ///< Insertions since growing was last hindered.
  bool plain     = true; ///< Growing was never hindered.

  explicit CostSim(Run &r) : R(r) {}
  CostItem *
  fresh()
  {
    if (!out.empty() && R.coin()) {
      size_t i = R.pick(out.size());
      std::swap(out[i], out.back());
      CostItem *v = out.back();
      out.pop_back();
      return v;
    }
    store.emplace_back();
    store.back().key = next_key++ / dups;
    return &store.back();
  }
  /// Elements that share a bucket, on average, given what was asked for.
  double
  chain() const
  {
    if (policy == Map::MANUAL) {
      return double(in.size()) / std::max<size_t>(1, map->bucket_count());
    }
    return double(limit) + 1;
  }
  bool
  settled() const
  {
    return policy == Map::MANUAL || since >= 16;
  }
  void
  insert(size_t n, bool faults)
  {
    size_t failed = 0;
    for (size_t i = 0; i < n; ++i) {
      CostItem *v = fresh();
      long e0     = CostDesc::equals;
      if (faults) R.arm_alloc(0, true);
      bool bad = false;
      try {
        R.sut([&] { map->insert(v); });
      } catch (std::bad_alloc const &) {
        bad = true;
      }
      if (faults && R.disarm_alloc() > 0) {
        ++failed;
        R.fault("allocation failed");
      } else if (bad) {
        R.fail("exception", "inserting ran out of memory without a failed allocation");
      }
      if (bad && map->count() == in.size()) {
        out.push_back(v);
        continue;
      }
      in.push_back(v);
      if (map->count() != in.size()) R.fail("lost", "the map counts %zu of %zu elements", map->count(), in.size());
      ++inserts;
      ++since;
      insert_cost  += CostDesc::equals - e0;
      allowed_cost += long(chain()) + 2;
    }
    if (failed) {
      since = 0;
      plain = false;
    }
    R.log("inserted %zu%s, %zu failures", n, faults ? " without memory" : "", failed);
  }
  void
  erase(size_t n, int how)
  {
    n        = std::min(n, in.size());
    long t0  = CostDesc::touched, most = 0;
    for (size_t i = 0; i < n; ++i) {
      size_t at   = how == 0 ? in.size() - 1 : how == 1 ? 0 : R.pick(in.size());
      CostItem *v = in[at];
      if (how == 1 && i + 1 < in.size()) at = in.size() - 1 - i > 0 ? R.pick(in.size()) : 0, v = in[at];
      long t = CostDesc::touched;
      R.sut([&] { map->erase(map->iterator_for(v)); });
      most = std::max(most, CostDesc::touched - t);
      std::swap(in[at], in.back());
      in.pop_back();
      out.push_back(v);
    }
    R.log("erased %zu", n);
    if (map->count() != in.size()) R.fail("lost", "the map counts %zu of %zu elements", map->count(), in.size());
    if (n > 63 && settled() && double(CostDesc::touched - t0) / n > 20 * (chain() + dups + 2))
      R.fail("cost", "erasing %zu elements touched %.1f elements each in a map of %zu with %.1f expected in a bucket", n, double(CostDesc::touched - t0) / n, in.size(), chain());
  }
  template <typename F>
  void
  measure(char const *what, size_t n, F &&f)
  {
    long e0 = CostDesc::equals, t0 = CostDesc::touched;
    for (size_t i = 0; i < n; ++i) {
      f(i);
    }
    double e = double(CostDesc::equals - e0) / n, t = double(CostDesc::touched - t0) / n;
    R.count("lookups", n);
    if (e > 3 * (chain() + dups) + 5 || t > 20 * (chain() + dups + 1)) {
      R.fail("cost", "%s compares %.1f keys and touches %.1f times on average in a map of %zu elements in %zu buckets with %.1f expected in a bucket", what, e, t, in.size(), map->bucket_count(), chain());
    }
  }
  void
  check()
  {
    if (in.size() < 64 || !settled()) return;
    Map &m        = *map;
    Map const &cm = *map;
    size_t n      = std::min<size_t>(in.size(), 300);
    auto any      = [&] { return in[R.pick(in.size())]; };
    measure("finding a key", n, [&](size_t) {
      CostItem *v = any();
      auto spot   = R.coin() ? typename Map::const_iterator(R.sut([&] { return m.find(v->key); })) : R.sut([&] { return cm.find(v->key); });
      if (spot == m.end() || spot->key != v->key) R.fail("find", "a key was not found");
    });
    measure("not finding a key", n, [&](size_t) {
      uint64_t k = next_key + 1 + R.pick(1000000);
      if (R.sut([&] { return m.find(k); }) != m.end()) R.fail("find", "a key was found that is not in the map");
    });
    measure("finding an element", n, [&](size_t) {
      CostItem *v = any();
      if (R.sut([&] { return m.find(v); }) == m.end()) R.fail("find", "an element was not found");
    });
    if (!out.empty()) {
      measure("not finding an element", n, [&](size_t) {
        CostItem *v = out[R.pick(out.size())];
        if (R.sut([&] { return m.find(v); }) != m.end()) R.fail("find", "an element was found that is not in the map");
      });
    }
    measure("finding a range", n, [&](size_t) {
      CostItem *v = any();
      auto r      = R.sut([&] { return m.equal_range(v->key); });
      if (r.begin() == r.end() || r.begin()->key != v->key) R.fail("find", "a range was not found");
    });
    if (plain && policy != Map::MANUAL && insert_cost > 8 * allowed_cost + 1000)
      R.fail("cost", "%ld insertions compared %ld keys with %.1f expected in a bucket", inserts, insert_cost, chain());
    R.nontrivial();
    R.state(mix(mix(map->bucket_count(), in.size()), mix(unsigned(policy), limit)));
  }
  void
  go()
  {
    CostDesc::salt   = R.bits64();
    CostDesc::spread = R.coin();
    CostDesc::equals = CostDesc::touched = 0;
    dups          = R.pct(70) ? 1 : 1 + R.pick(4);
    size_t n      = R.pick(4) ? 0 : R.small(300);
    policy        = std::vector<Map::ExpansionPolicy>{Map::AVERAGE, Map::AVERAGE, Map::MAXIMUM, Map::MANUAL}[R.pick(4)];
    limit         = policy == Map::MAXIMUM ? 2 + dups + R.pick(6) : R.pick(8);
    bool standard = R.one_in(4); // as constructed
    if (standard) {
      map    = std::make_unique<Map>();
      policy = Map::DEFAULT_EXPANSION_POLICY;
      limit  = Map::DEFAULT_EXPANSION_LIMIT;
    } else {
      map = std::make_unique<Map>(n);
      map->set_expansion_policy(policy).set_expansion_limit(limit);
    }
    size_t most = policy != Map::AVERAGE ? 1500 : R.one_in(8) ? 20000 : 3000;
    R.log("policy %d limit %zu up to %zu elements, %u of a key, %s hash", policy, limit, most, dups, CostDesc::spread ? "spread" : "plain");
    while (R.more(12, 40)) {
      size_t amount = R.coin() ? R.pick(200) : R.pick(most / 2);
      switch (R.pick(9)) {
      case 0: erase(amount, R.pick(3)); break;
      case 1: {
        map = R.sut([&] { return std::make_unique<Map>(std::move(*map)); });
        R.log("moved");
        if (map->count() != in.size()) R.fail("lost", "the map counts %zu of %zu elements", map->count(), in.size());
      } break;
      case 2:
        if (R.one_in(3)) {
          R.sut([&] { map->clear(); });
          out.insert(out.end(), in.begin(), in.end());
          in.clear();
          R.log("cleared");
        }
        break;
      case 3:
        if (map->bucket_count() < 3 * in.size() || map->bucket_count() < 100) {
          R.sut([&] { map->expand(); });
          allowed_cost += long(in.size()) * (long(chain()) + 2);
          R.log("expanded");
        }
        break;
      case 4:
        if (in.size() < most) insert(amount, true);
        break;
      case 5:
        if (policy == Map::AVERAGE) {
          limit = R.pick(8);
          R.sut([&] { map->set_expansion_limit(limit); });
          R.log("limit %zu", limit);
          since = 0;
          plain = false;
        }
        break;
      default:
        if (in.size() < most) insert(amount, false);
      }
      check();
      R.step();
    }
    insert(70, false); // what was hindered is caught up with
    check();
    R.sut([&] { map.reset(); });
  }
};

Register l01{{"L01",
              [](Run &r) {
                ListSim s(r);
                switch (r.pick(3)) {
                case 0:
                  s.go<LinkA, LinkB>();
                  break;
                case 1:
                  s.go<LinkC, LinkB>();
                  break;
                default:
                  s.go<LinkB, LinkD>();
                  break;
                }
              },
              "one run = a seeded history of up to 400 operations on three lists over up to 28 shared elements (optionally three more lists through a second set of links in the same elements) with iterators held across other users' changes, unlisted elements destroyed and replaced; compared with standard vectors after every operation; non-trivial: more than three operations",
              "content of all lists", {"IntrusiveDList", "IntrusiveLinkage", "IntrusiveLinkageRebind"}, {"element class", "reference sequences"},
              {"a list is spliced at an element of the target list, not at its end iterator"}}};
Register h01{{"H01", [](Run &r) { MapSim(r, false).go(); },
              "one run = a seeded history of up to 600 operations on two maps with a seeded hash (spread, constant, few values, colliding until expanded), seeded bucket counts and expansion policies; count, iteration both ways, every key and every element are compared with a reference map; non-trivial: more than three operations",
              "(buckets, keys in iteration order)", {"IntrusiveHashMap", "IntrusiveDList"}, {"element class and hash", "reference map"}, {"the key of an element does not change while it is in a map"}}};
Register h02{{"H02", [](Run &r) { MapSim(r, true).go(); },
              "as H01, with allocations failing at seeded points while constructing, inserting and expanding; non-trivial: an allocation failed or more than three operations",
              "(buckets, keys in iteration order)", {"IntrusiveHashMap", "IntrusiveDList"}, {"element class and hash", "reference map", "operator new (failing on command)"}, {"the key of an element does not change while it is in a map"}}};
Register h03{{"H03", [](Run &r) { CostSim(r).go(); },
              "one run = a seeded history of batches of up to thousands of insertions and erasures, clears, explicit expansions, moves and changed limits on one map, with a spread or a plain hash, up to four elements of a key, insertions while no memory can be had; after each batch keys and elements in and not in the map are looked up and the key comparisons and element accesses are counted by the element class: the average is limited by what the expansion policy allows in a bucket; non-trivial: a map of 64 elements or more was measured",
              "(buckets, elements, policy, limit)", {"IntrusiveHashMap", "IntrusiveDList"}, {"element class and hash (counting)", "operator new (failing on command)"}, {"the hash values are spread"}}};
Register x01{{"X01",
              [](Run &r) {
                if (r.coin()) {
                  LexSim<Fruit>(r, false).go();
                } else {
                  LexSim<uint64_t>(r, false).go();
                }
              },
              "one run = a seeded history of constructions, definitions (accepted and rejected), default changes, moves, lookups and iterations on one lexicon of an enumeration or 64 bit value, names in passing memory that is overwritten and freed after each call; compared with a two way reference table; non-trivial: more than two operations",
              "all (name, value) definitions", {"Lexicon", "IntrusiveHashMap", "MemArena", "Hash32FNV1a"}, {"default handlers", "reference tables"}, {"names have no NUL characters", "the C locale"}}};
Register x02{{"X02",
              [](Run &r) {
                if (r.coin()) {
                  LexSim<Fruit>(r, true).go();
                } else {
                  LexSim<uint64_t>(r, true).go();
                }
              },
              "as X01, with allocations failing at seeded points in constructions, definitions and default changes; after each failure everything is compared with the tables before; non-trivial: an allocation failed or more than two operations",
              "all (name, value) definitions", {"Lexicon", "IntrusiveHashMap", "MemArena", "Hash32FNV1a"}, {"default handlers", "reference tables", "malloc and operator new (failing on command)"}, {"names have no NUL characters", "the C locale"}}};
Register x03{{"X03", [](Run &r) { HashSim(r).go(); },
              "one run = a seeded history of deliveries of up to four interleaved streams to 32 and 64 bit hashers, in pieces of random size and content (as text or through transforms) in memory that is freed after each call, with restarts and forks, compared with FNV-1a byte by byte; non-trivial: more than two operations",
              "hash values of all streams", {"Hash32FNV1a", "Hash64FNV1a", "TransformView"}, {"the stream: cut in pieces at seeded points"}, {"transforms yield a byte"}}};
Register x04{{"X04", [](Run &r) { ScopeSim(r).go(); },
              "one run = a seeded program of nested scopes of five variables (text, number, list, an item whose copy can fail, an object that cannot be copied) by value, by move and from the variable itself, whose values change in the "
              "scopes, which are left normally, by return or by an exception, with failing allocations and copies while scopes are made; non-trivial: at least two scopes or a fault",
              "depth and values", {"meta::let"}, {"clients (leave on command)", "operator new (failing on command)", "an item (copies fail on command)"}, {"moves do not throw"}}};
Register v01{{"V01", vec_any,
              "one run = a seeded history of up to 200 operations on two vectors of one of ten element type, inline size and allocator combinations (throwing copies, throwing moves, copy only, move only, over-aligned, integers, polymorphic allocator), element constructors and allocations failing at seeded points; compared with a standard vector, a registry of live elements and the allocation ledger; non-trivial: a fault or more than two operations",
              "(type, sizes)", {"Vectray", "MemSpan"}, {"element classes (tracked, throwing on command)", "memory resource", "operator new (failing on command)"},
              {"assignments, and moves of element types whose move can throw, are not combined with faults"}}};
} // namespace

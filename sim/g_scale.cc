// P05: quantities in units of different scales.
#include "sim.h"
#include <algorithm>
#include <cstring>
#include <limits>
#include <map>
#include <sstream>
#include <tuple>
#include "swoc/BufferWriter.h"
#include "swoc/Scalar.h"
#include "swoc/TextView.h"
#include "swoc/bwf_base.h"

using namespace sim;
using std::string;
using std::string_view;
using swoc::round_down;
using swoc::round_up;
using swoc::Scalar;

namespace {
using Wide = __int128;

string
text(Wide v)
{
  bool neg = v < 0;
  string z;
  if (neg) v = -v;
  do z.insert(z.begin(), char('0' + int(v % 10)));
  while (v /= 10);
  return neg ? "-" + z : z;
}
Wide
floor_div(Wide a, Wide b)
{
  Wide q = a / b;
  return q - (a % b != 0 && (a < 0) != (b < 0));
}
Wide
ceil_div(Wide a, Wide b)
{
  return -floor_div(-a, b);
}
template <typename C>
bool
fits(Wide v)
{
  return v >= Wide(std::numeric_limits<C>::min()) && v <= Wide(std::numeric_limits<C>::max());
}
constexpr Wide LIMIT = Wide(1) << 62; ///< of values, so that nothing in between overflows
bool
sane(Wide v)
{
  return v > -LIMIT && v < LIMIT;
}

struct bytes {
  static constexpr string_view label{" bytes"};
};

/// A scalar and what it is worth.
template <typename S> struct Var {
  using Type = S;
  using C    = typename S::Counter;
  static constexpr Wide N = S::SCALE;
  S s;
  Wide v = 0;
};

template <typename TAG> struct Family {
  std::tuple<Var<Scalar<1, int64_t, TAG>>, Var<Scalar<10, int, TAG>>, Var<Scalar<15, long, TAG>>, Var<Scalar<1024, int, TAG>>, Var<Scalar<1 << 20, int, TAG>>, Var<Scalar<127l << 20, int64_t, TAG>>, Var<Scalar<6, uint32_t, TAG>>> vars;
};

struct Generic {
  std::tuple<Var<Scalar<100, int>>, Var<Scalar<8, uint64_t>>, Var<Scalar<4, short>>> vars;
};

struct Scale {
  Run &R;
  explicit Scale(Run &r) : R(r) {}

  /// Call @a f with the variable of index @a n.
  template <size_t I = 0, typename TUPLE, typename F>
  static void
  with(TUPLE &t, size_t n, F &&f)
  {
    if constexpr (I < std::tuple_size_v<TUPLE>) {
      if (n == I) f(std::get<I>(t));
      else with<I + 1>(t, n, std::forward<F>(f));
    }
  }
  template <typename V>
  static string
  kind()
  {
    return kind(V::N, std::is_unsigned_v<typename V::C>, sizeof(typename V::C));
  }
  static string
  kind(Wide n, bool u, size_t size)
  {
    return text(n) + (u ? "u" : "i") + std::to_string(size * 8);
  }
  /// A value around something interesting.
  Wide
  value()
  {
    static int64_t const AROUND[] = {0, 1, 10, 30, 100, 1024, 8192, 1l << 20, 127l << 20, 1l << 31, 1l << 32, 3l << 31, 1l << 40, 1l << 51, (1l << 61) - 1};
    Wide v = AROUND[R.pick(15)];
    if (R.coin()) v = v * (1 + R.pick(20)) / (1 + R.pick(7));
    v += Wide(R.pick(9)) - 4;
    if (R.one_in(3)) v = Wide(R.bits64() >> (2 + R.pick(60)));
    if (R.one_in(3)) v = -v;
    return sane(v) ? v : 0;
  }
  template <typename V>
  void
  check(V &x, char const *op)
  {
    using C = typename V::C;
    if (Wide(x.s.count()) * V::N != x.v) R.fail("value", "%s left %s units of %s, a value of %s", op, text(x.s.count()).c_str(), kind<V>().c_str(), text(x.v).c_str());
    if (x.s.scale() != V::N) R.fail("value", "the scale of %s is wrong", kind<V>().c_str());
    if (fits<C>(x.v)) {
      C c = x.s;
      if (Wide(x.s.value()) != x.v || Wide(c) != x.v) R.fail("value", "%s units of %s are worth %s, not %s", text(x.s.count()).c_str(), kind<V>().c_str(), text(x.s.value()).c_str(), text(x.v).c_str());
    }
  }
  /// Whether the count of value @a v is one @a V can have.
  template <typename V>
  static bool
  holds(Wide v)
  {
    return sane(v) && v % V::N == 0 && fits<typename V::C>(v / V::N);
  }
  template <typename V>
  void
  set(V &x, Wide count)
  {
    if (!fits<typename V::C>(count) || !sane(count * V::N)) count = 0;
    x.v = count * V::N;
    R.sut([&] {
      switch (R.pick(3)) {
      case 0: x.s.assign(typename V::C(count)); break;
      case 1: x.s = typename V::Type(typename V::C(count)); break;
      default: x.s = x.s(typename V::C(count));
      }
    });
  }
  /// Operations of a variable alone.
  template <typename V>
  void
  alone(V &x)
  {
    using S    = typename V::Type;
    using C    = typename V::C;
    Wide count = x.v / V::N, n;
    switch (R.pick(12)) {
    case 0:
    case 1: {
      Wide v = R.coin() ? value() : x.v + Wide(R.pick(5)) - 2;
      set(x, floor_div(v, V::N));
    } break;
    case 2: { // the value of a number
      Wide v  = value();
      bool up = R.coin();
      Wide to = (up ? ceil_div(v, V::N) : floor_div(v, V::N)) * V::N;
      if (!holds<V>(to)) break;
      auto go = [&](auto i) {
        unsigned how = R.pick(3);
        Wide sum = x.v + to, diff = x.v - to;
        if (how == 1 && !holds<V>(sum)) how = 0;
        if (how == 2 && !holds<V>(diff)) how = 0;
        R.sut([&] {
          if (how == 0) {
            switch (R.pick(3)) {
            case 0: up ? (void)(x.s = round_up(i)) : (void)(x.s = round_down(i)); break;
            case 1: x.s = up ? S(round_up(i)) : S(round_down(i)); break;
            default: up ? (void)x.s.assign(round_up(i)) : (void)x.s.assign(round_down(i));
            }
          } else if (how == 1) {
            switch (R.pick(3)) {
            case 0: up ? (void)(x.s += round_up(i)) : (void)(x.s += round_down(i)); break;
            case 1: x.s = up ? x.s + round_up(i) : x.s + round_down(i); break;
            default: x.s = up ? round_up(i) + x.s : round_down(i) + x.s;
            }
          } else {
            if (R.coin()) up ? (void)(x.s -= round_up(i)) : (void)(x.s -= round_down(i));
            else x.s = up ? x.s - round_up(i) : x.s - round_down(i);
          }
        });
        x.v = how == 0 ? to : how == 1 ? sum : diff;
        R.log("%s %s rounded %s in units of %s", how == 0 ? "set" : how == 1 ? "add" : "subtract", text(v).c_str(), up ? "up" : "down", kind<V>().c_str());
      };
      if (fits<int>(v) && R.coin()) go(int(v));
      else if (v >= 0 && R.one_in(3)) go(uint64_t(v));
      else if (fits<uint32_t>(v) && R.one_in(3)) go(uint32_t(v));
      else go(int64_t(v));
    } break;
    case 3: { // in units
      n       = Wide(R.pick(7)) - 3;
      if (std::is_unsigned_v<C> && n < 0) n = -n;
      Wide to = x.v + n * V::N, from = x.v - n * V::N;
      if (!holds<V>(to) || !holds<V>(from)) break;
      bool plus = R.coin();
      S old     = x.s;
      R.sut([&] {
        switch (R.pick(3)) {
        case 0: plus ? x.s.inc(C(n)) : x.s.dec(C(n)); break;
        case 1: x.s = plus ? x.s.plus(C(n)) : x.s.minus(C(n)); break;
        default: {
          S q = plus ? x.s.plus(C(n)) : x.s.minus(C(n));
          if (!(x.s == old)) R.fail("value", "plus changed the scalar");
          x.s = q;
        }
        }
      });
      x.v = plus ? to : from;
    } break;
    case 4: {
      bool plus = R.coin();
      Wide to   = x.v + (plus ? V::N : -V::N);
      if (!holds<V>(to)) break;
      S old = x.s;
      bool pre = R.coin();
      S r = R.sut([&] { return plus ? (pre ? ++x.s : x.s++) : (pre ? --x.s : x.s--); });
      if (Wide(r.count()) * V::N != (pre ? to : x.v)) R.fail("value", "the result of counting is wrong");
      (void)old;
      x.v = to;
    } break;
    case 5: { // scaled by a number
      n       = Wide(R.pick(40)) - (std::is_unsigned_v<C> ? 0 : 10);
      Wide to = x.v * n;
      if (!holds<V>(to)) break;
      R.sut([&] {
        switch (R.pick(4)) {
        case 0: x.s *= C(n); break;
        case 1: x.s = x.s * int(n); break;
        case 2: x.s = int(n) * x.s; break;
        default:
          if constexpr (!std::is_same_v<C, int>) x.s = R.coin() ? x.s * C(n) : C(n) * x.s;
          else x.s *= C(n);
        }
      });
      x.v = to;
      R.log("%s times %s", kind<V>().c_str(), text(n).c_str());
    } break;
    case 6: {
      n = 1 + Wide(R.pick(40));
      if (!std::is_unsigned_v<C> && R.one_in(4)) n = -n;
      if (!fits<C>(count / n)) break;
      R.sut([&] { R.coin() ? (void)(x.s /= C(n)) : (void)(x.s = x.s / int(n)); });
      Wide a = count / n, b = floor_div(count, n); // the documentation says down, which is not said of negative counts
      if (Wide(x.s.count()) != a && Wide(x.s.count()) != b) R.fail("value", "%s units divided by %s are %s", text(count).c_str(), text(n).c_str(), text(x.s.count()).c_str());
      x.v = Wide(x.s.count()) * V::N;
    } break;
    case 7: { // shown
      if (!fits<C>(x.v)) break;
      string want = text(x.v) + (std::is_same_v<typename S::Tag, bytes> ? " bytes" : ""), got;
      bool stream = R.coin();
      if (stream) {
        std::ostringstream o;
        o << x.s;
        got = o.str();
      } else {
        swoc::LocalBufferWriter<64> w;
        R.sut([&] { w.print("{}", x.s); });
        got = string(w.view());
      }
      if (got != want) R.fail("shown", "%s is shown as '%s' in units of %s", want.c_str(), got.c_str(), kind<V>().c_str());
      if (!stream && x.v >= 0) {
        swoc::LocalBufferWriter<64> w;
        R.sut([&] { w.print("{:x}|{:>24}", x.s, x.s.count()); });
        char b[64];
        snprintf(b, sizeof b, "%llx|%24lld", (unsigned long long)(x.v), (long long)(count));
        if (w.view() != b) R.fail("shown", "'%s' is shown as '%.*s'", b, int(w.view().size()), w.view().data());
      }
    } break;
    case 8: { // rounding of numbers
      Wide v = value();
      auto go = [&](auto i) {
        using I = decltype(i);
        auto one = [&](auto scale, I up, I down) {
          constexpr intmax_t K = decltype(scale)::value;
          if (Wide(up) != ceil_div(v, K) * K && fits<I>(ceil_div(v, K) * K)) R.fail("round", "%s rounded up to a multiple of %zd is %s", text(v).c_str(), ssize_t(K), text(up).c_str());
          if (Wide(down) != floor_div(v, K) * K && fits<I>(floor_div(v, K) * K)) R.fail("round", "%s rounded down to a multiple of %zd is %s", text(v).c_str(), ssize_t(K), text(down).c_str());
        };
        one(std::integral_constant<intmax_t, 10>{}, round_up<10>(i), round_down<10>(i));
        one(std::integral_constant<intmax_t, 1>{}, round_up<1>(i), round_down<1>(i));
        one(std::integral_constant<intmax_t, 512>{}, round_up<512>(i), round_down<512>(i));
        one(std::integral_constant<intmax_t, 8191>{}, round_up<8191>(i), round_down<8191>(i));
      };
      if (fits<int>(v) && sane(v) && R.coin() && v < (1l << 30)) go(int(v));
      else if (v >= 0 && R.coin()) go(uint64_t(v));
      else go(int64_t(v));
    } break;
    case 9: { // a copy
      S y(x.s), z;
      if (z.count() != 0) R.fail("value", "an empty scalar has a value");
      z = y;
      if (!(y == x.s) || y != x.s || !(z == x.s)) R.fail("value", "a copy is not the same");
    } break;
    default: set(x, floor_div(value(), V::N));
    }
    check(x, "an operation");
  }
  /// Operations of two.
  template <typename X, typename Y>
  void
  pair(X &x, Y &y)
  {
    using S = typename X::Type;
    using T = typename Y::Type;
    using C = typename X::C;
    using D = typename Y::C;
    constexpr bool exact = Y::N % X::N == 0;
    // Unsigned arithmetic of the largest size has no negative numbers.
    constexpr bool big = (std::is_unsigned_v<C> && sizeof(C) == 8) || (std::is_unsigned_v<D> && sizeof(D) == 8);
    if (big && (x.v < 0 || y.v < 0)) return;
    string names = kind<X>() + " and " + kind<Y>();
    switch (R.pick(8)) {
    case 0: { // order
      if (R.coin() && holds<X>(floor_div(y.v, X::N) * X::N)) set(x, floor_div(y.v, X::N) + Wide(R.pick(3)) - 1);
      Wide a = x.v, b = y.v;
      if (big && (a < 0 || b < 0)) break;
      bool lt = x.s < y.s, le = x.s <= y.s, gt = x.s > y.s, ge = x.s >= y.s, eq = x.s == y.s, ne = x.s != y.s;
      R.log("compare %s %s, %s", text(a).c_str(), text(b).c_str(), names.c_str());
      if (lt != (a < b) || le != (a <= b) || gt != (a > b) || ge != (a >= b) || eq != (a == b) || ne != (a != b))
        R.fail("order", "%s of %s and %s of %s compare as %d%d%d%d%d%d", text(a).c_str(), kind<X>().c_str(), text(b).c_str(), kind<Y>().c_str(), lt, le, gt, ge, eq, ne);
    } break;
    case 1: // exact conversion
      if constexpr (exact) {
        if (!holds<X>(y.v)) {
          R.count("does not fit");
          break;
        }
        R.sut([&] {
          switch (R.pick(3)) {
          case 0: x.s = y.s; break;
          case 1: x.s.assign(y.s); break;
          default: x.s = S(y.s);
          }
        });
        x.v = y.v;
        R.log("%s to %s", text(y.v).c_str(), names.c_str());
      }
      break;
    case 2: // exact sums
      if constexpr (exact) {
        bool plus = R.coin();
        Wide to   = plus ? x.v + y.v : x.v - y.v;
        if (!holds<X>(to)) {
          R.count("does not fit");
          break;
        }
        R.sut([&] { plus ? (void)(x.s += y.s) : (void)(x.s -= y.s); });
        x.v = to;
        R.log("%s gives %s, %s", plus ? "sum" : "difference", text(to).c_str(), names.c_str());
      }
      break;
    case 3:
    case 4: { // with rounding
      bool up      = R.coin();
      Wide k       = (up ? ceil_div(y.v, X::N) : floor_div(y.v, X::N)) * X::N;
      unsigned how = R.pick(4);
      Wide to      = how < 2 ? k : how == 2 ? x.v + k : x.v - k;
      if (!holds<X>(to) || !holds<X>(k)) {
        R.count("does not fit");
        break;
      }
      R.sut([&] {
        switch (how) {
        case 0: up ? (void)(x.s = round_up(y.s)) : (void)(x.s = round_down(y.s)); break;
        case 1: x.s = up ? S(round_up(y.s)) : S(round_down(y.s)); break;
        case 2: up ? (void)(x.s += round_up(y.s)) : (void)(x.s += round_down(y.s)); break;
        default: up ? (void)(x.s -= round_up(y.s)) : (void)(x.s -= round_down(y.s));
        }
      });
      if (Wide(x.s.count()) * X::N != to)
        R.fail("round", "%s of %s rounded %s and %s %s of %s gives %s instead of %s", text(y.v).c_str(), kind<Y>().c_str(), up ? "up" : "down", how < 2 ? "put over" : how == 2 ? "added to" : "taken from",
               text(x.v).c_str(), kind<X>().c_str(), text(Wide(x.s.count()) * X::N).c_str(), text(to).c_str());
      x.v = to;
    } break;
    case 5: { // in the common scale
      using Q   = typename std::common_type<S, T>::type;
      using V   = Var<Q>;
      static_assert(X::N % Q::SCALE == 0 && Y::N % Q::SCALE == 0 && Q::SCALE > 0);
      bool plus = R.coin();
      V z;
      z.v = plus ? x.v + y.v : x.v - y.v;
      if (!holds<V>(z.v) || !holds<V>(x.v) || !holds<V>(y.v)) {
        R.count("does not fit");
        break;
      }
      z.s = R.sut([&] { return plus ? Q(x.s + y.s) : Q(x.s - y.s); });
      check(z, plus ? "a sum" : "a difference");
      if constexpr (std::is_same_v<S, T>) {
        // In the same units a rounded one is what it was.
        S a = plus ? x.s + round_up(y.s) : x.s - round_up(y.s), b = plus ? round_down(x.s) + y.s : round_down(x.s) - y.s;
        S c = plus ? x.s + round_down(y.s) : x.s - round_down(y.s), d = plus ? round_up(x.s) + y.s : round_up(x.s) - y.s;
        if (a.count() != z.s.count() || b.count() != z.s.count() || c.count() != z.s.count() || d.count() != z.s.count()) R.fail("value", "the sum of %s and a rounded %s is wrong", text(x.v).c_str(), text(y.v).c_str());
      }
    } break;
    case 6: { // how many times
      if (y.v == 0) break;
      using I = typename std::common_type<C, D>::type;
      if (!fits<I>(x.v / y.v)) break;
      auto q = R.sut([&] { return x.s / y.s; });
      if (Wide(q) != x.v / y.v) R.fail("value", "%s / %s, %s, is %s", text(x.v).c_str(), text(y.v).c_str(), names.c_str(), text(q).c_str());
    } break;
    default:
      if constexpr (std::is_same_v<S, T>) {
        if (!holds<X>(x.v + y.v)) break;
        S q = x.s + y.s, d = q - y.s;
        if (d != x.s || d.count() != x.s.count()) R.fail("value", "something was lost between a sum and a difference");
      }
    }
    check(x, "an operation");
    check(y, "the other operand of an operation");
  }
  template <typename FAMILY>
  void
  history()
  {
    FAMILY f;
    size_t const n = std::tuple_size_v<decltype(f.vars)>;
    while (R.more(25, 120)) {
      R.step();
      size_t i = R.pick(n), j = R.pick(n);
      with(f.vars, i, [&](auto &x) {
        if (R.one_in(3)) alone(x);
        else with(f.vars, j, [&](auto &y) { pair(x, y); });
        R.state(mix(i, uint64_t(x.v)));
      });
    }
  }

  // ---- A pool of storage shared by clients with other units than the servers, over a network.
  using Bytes = Scalar<1, int64_t, bytes>;
  using KB    = Scalar<1024, int64_t, bytes>;
  struct Request {
    unsigned id;
    bool give;   ///< back
    int64_t size; ///< bytes
  };
  template <typename BLOCK, typename DISK>
  void
  storage()
  {
    constexpr int64_t B = BLOCK::SCALE, K = DISK::SCALE;
    // Servers have one disk each, counted in units of the disk, and hand out blocks.
    struct Server {
      DISK disk;
      BLOCK free;
      std::map<unsigned, BLOCK> granted; ///< durable
      std::map<unsigned, int64_t> released;
      int64_t free_m = 0;
      std::map<unsigned, int64_t> granted_m;
      string journal;
      bool down = false;
    };
    Server sv;
    sv.disk = DISK(typename DISK::Counter(1 + R.pick(5)));
    sv.free = R.sut([&] { return BLOCK(round_down(sv.disk)); });
    if (Wide(sv.free.count()) != Wide(sv.disk.count()) * K / B) R.fail("storage", "a disk of %s is %s blocks of %s", text(Wide(sv.disk.count()) * K).c_str(), text(sv.free.count()).c_str(), text(B).c_str());
    int64_t total = int64_t(sv.free.count()), freem = total;

    unsigned n = 1 + R.pick(6);
    std::vector<Request> todo;
    for (unsigned i = 0; i < n; ++i) {
      R.mark();
      int64_t z = int64_t(R.bits64() % uint64_t(K + 1)) + (R.coin() ? 0 : R.pick(3)) - 1;
      if (R.coin()) z = z / B * B + int64_t(R.pick(3)) - 1;
      todo.push_back({i, false, std::max<int64_t>(z, 0)});
    }
    // What travels is text.
    struct Msg {
      bool to_server;
      string body;
    };
    std::vector<Msg> net;
    std::vector<int64_t> answer(n, -1); ///< blocks or -2 when refused
    unsigned calm = 30 + R.pick(30), step = 0;
    auto say = [&](bool to, string s) {
      bool faults = step < calm;
      if (faults && R.one_in(4)) {
        R.fault("lost");
        return;
      }
      net.push_back({to, s});
      if (faults && R.one_in(5)) {
        R.fault("duplicated");
        net.push_back({to, s});
      }
    };
    auto print = [&](auto const &x, unsigned id, char const *what) {
      swoc::LocalBufferWriter<128> w;
      R.sut([&] { w.print("{} {} {}", id, what, x); });
      return string(w.view());
    };
    auto parse = [&](string const &s, unsigned &id, string &what, int64_t &v) {
      swoc::TextView t(s);
      id   = unsigned(swoc::svtou(t.take_prefix_at(' ')));
      what = string(t.take_prefix_at(' '));
      v    = swoc::svtoi(t.take_prefix_at(' '));
      return t == "bytes";
    };
    auto restart = [&] {
      // The journal is all that is left.
      sv.granted.clear();
      sv.free = R.sut([&] { return BLOCK(round_down(sv.disk)); });
      swoc::TextView j(sv.journal);
      while (!j.empty()) {
        string line(j.take_prefix_at('\n'));
        unsigned id;
        string what;
        int64_t v;
        if (!parse(line, id, what, v)) R.fail("storage", "the journal says '%s'", line.c_str());
        BLOCK b = R.sut([&] { return R.coin() ? BLOCK(round_up(v)) : BLOCK(round_down(v)); }); // it is a multiple
        sv.granted[id] = b;
        R.sut([&] { sv.free -= b; });
      }
      if (Wide(sv.free.count()) != freem) R.fail("storage", "after a restart %s blocks are free, before it were %s", text(sv.free.count()).c_str(), text(freem).c_str());
    };
    bool done = false;
    for (; step < calm + 400 && !done; ++step) {
      R.step();
      R.advance_ns(1000000);
      if (step < calm && R.one_in(12)) {
        R.fault("crash");
        restart();
      }
      // Clients ask until they know.
      unsigned c = R.pick(n);
      if (answer[c] == -1) say(true, print(Bytes(todo[c].size), c, "want"));
      if (!net.empty()) {
        size_t k = step < calm ? R.pick(unsigned(net.size())) : 0;
        if (k) R.fault("reordered");
        Msg m = net[k];
        net.erase(net.begin() + k);
        unsigned id;
        string what;
        int64_t v;
        if (!parse(m.body, id, what, v) || id >= n) R.fail("storage", "a message is '%s'", m.body.c_str());
        if (m.to_server) {
          auto spot = sv.granted.find(id);
          if (spot == sv.granted.end()) {
            Bytes want(v);
            BLOCK b = R.sut([&] { return BLOCK(round_up(want)); });
            bool ok = R.sut([&] { return R.coin() ? b <= sv.free : !(sv.free < want); });
            int64_t need = int64_t(ceil_div(todo[id].size, B));
            if (ok != (need <= freem)) R.fail("storage", "%s bytes %s of %s free blocks of %s", text(v).c_str(), ok ? "were granted" : "were refused", text(freem).c_str(), text(B).c_str());
            if (!ok) {
              say(false, print(Bytes(0), id, "no"));
              continue;
            }
            if (Wide(b.count()) != need) R.fail("storage", "%s bytes are %s blocks of %s", text(todo[id].size).c_str(), text(b.count()).c_str(), text(B).c_str());
            sv.journal += print(b, id, "has") + "\n";
            R.sut([&] { sv.free -= b; });
            freem -= need;
            spot   = sv.granted.emplace(id, b).first;
            if (Wide(sv.free.count()) != freem) R.fail("storage", "%s blocks are free instead of %s", text(sv.free.count()).c_str(), text(freem).c_str());
          }
          say(false, print(spot->second, id, "has"));
        } else if (what == "no") {
          if (answer[id] == -1) answer[id] = -2;
        } else {
          Bytes got(v);
          if (got < Bytes(todo[id].size) || !(got < BLOCK(1) + Bytes(todo[id].size))) R.fail("storage", "the client got %s bytes for %s", text(v).c_str(), text(todo[id].size).c_str());
          if (answer[id] >= 0 && answer[id] != v) R.fail("storage", "the client got two different answers");
          answer[id] = v;
        }
      }
      done = net.empty() && std::none_of(answer.begin(), answer.end(), [](int64_t a) { return a == -1; });
      R.state(mix(freem, net.size()));
    }
    if (!done) R.fail("storage", "there is no answer after %u steps", step);
    BLOCK used;
    for (auto &[id, b] : sv.granted) R.sut([&] { used += b; });
    auto all = R.sut([&] { return used + sv.free; });
    if (Wide(all.count()) != total) R.fail("storage", "%s blocks are left of %s", text(all.count()).c_str(), text(total).c_str());
    // Seen in units of the disk nothing appears from nowhere.
    DISK lo = R.sut([&] { return DISK(round_down(all)); }), hi = R.sut([&] { return DISK(round_up(all)); });
    if (Wide(lo.count()) != floor_div(Wide(total) * B, K) || Wide(hi.count()) != ceil_div(Wide(total) * B, K)) R.fail("storage", "%s blocks are between %s and %s disks", text(total).c_str(), text(lo.count()).c_str(), text(hi.count()).c_str());
    if (hi != sv.disk && K % B == 0) R.fail("storage", "the disk changed its size");
    R.log("%u clients, %u steps, %s of %s blocks free", n, step, text(freem).c_str(), text(total).c_str());
  }
  void
  go()
  {
    switch (R.pick(8)) {
    case 0: storage<Scalar<8192, int64_t, bytes>, Scalar<127l << 20, int, bytes>>(); break;
    case 1: storage<Scalar<512, int64_t, bytes>, Scalar<1 << 20, int64_t, bytes>>(); break;
    case 2: storage<Scalar<520, int64_t, bytes>, Scalar<4096 * 3, int64_t, bytes>>(); break;
    case 3: history<Family<bytes>>(); break;
    case 4: history<Generic>(); break;
    default: history<Family<bytes>>();
    }
    R.nontrivial();
  }
};

Register p05({"P05", [](Run &r) { Scale(r).go(); },
              "a history of operations on scalars of twelve scales and counter types with the same tag; or clients that ask a server for storage in bytes and get blocks of a disk, over a network that loses, duplicates "
              "and reorders messages of printed scalars, with a server that crashes and rebuilds its state from a printed journal; non-trivial: every run",
              "value by type; free blocks and messages in flight", {"code/include/swoc/Scalar.h", "code/include/swoc/bwf_base.h"}, {"the network", "the journal (kept in memory)", "the clients"},
              {"counts and values that do not fit the counter are not made; the direction of dividing negative counts by a number is not judged"}});
} // namespace

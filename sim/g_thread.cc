// T01 T02: threads that share constant objects, and threads that share nothing. This file is instrumented like the library.
#include "baton.h"
#include <cmath>
#include <cstring>
#include <ctime>
#include <deque>
#include <fcntl.h>
#include <memory>
#include <pthread.h>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>
#include "swoc/ArenaWriter.h"
#include "swoc/BufferWriter.h"
#include "swoc/DiscreteRange.h"
#include "swoc/Errata.h"
#include "swoc/IPEndpoint.h"
#include "swoc/IPRange.h"
#include "swoc/IPSrv.h"
#include "swoc/IntrusiveDList.h"
#include "swoc/IntrusiveHashMap.h"
#include "swoc/Lexicon.h"
#include "swoc/MemArena.h"
#include "swoc/MemSpan.h"
#include "swoc/Scalar.h"
#include "swoc/TextView.h"
#include "swoc/Vectray.h"
#include "swoc/bwf_base.h"
#include "swoc/bwf_ex.h"
#include "swoc/bwf_ip.h"
#include "swoc/bwf_std.h"
#include "swoc/ext/HashFNV.h"
#include "swoc/swoc_file.h"

using namespace sim;
using swoc::TextView;
using swoc::Errata;
namespace bwf = swoc::bwf;

namespace {

/// Add to the results of a thread. Part of the simulator, not observed.
__attribute__((format(printf, 2, 3))) void
put(std::string &out, char const *fmt, ...)
{
  sched::Pause p;
  char b[512];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof(b), fmt, ap);
  va_end(ap);
  out.append(b, std::min<size_t>(n, sizeof(b) - 1));
  out.push_back('|');
}
void
put(std::string &out, std::string_view v)
{
  sched::Pause p;
  out.append(v);
  out.push_back('|');
}

// ---------------------------------------------------------------- objects
struct Item {
  int key;
  int id;
  Item *_next{nullptr};
  Item *_prev{nullptr};
};
struct ItemDesc {
  static Item *&next_ptr(Item *n) { return n->_next; }
  static Item *&prev_ptr(Item *n) { return n->_prev; }
  static int key_of(Item *n) { return n->key; }
  static bool equal(int a, int b) { return a == b; }
  static size_t hash_of(int k) { return size_t(k) * 7 % 61; }
};
using Map  = swoc::IntrusiveHashMap<ItemDesc>;
using List = swoc::IntrusiveDList<swoc::IntrusiveLinkage<Item, &Item::_next, &Item::_prev>>;
struct Metric {
  unsigned v = 0;
  Metric()   = default;
  explicit Metric(unsigned n) : v(n) {}
  bool operator<(Metric const &o) const { return v < o.v; }
  bool operator<=(Metric const &o) const { return v <= o.v; }
  bool operator>(Metric const &o) const { return v > o.v; }
  bool operator>=(Metric const &o) const { return v >= o.v; }
  bool operator==(Metric const &o) const { return v == o.v; }
  bool operator!=(Metric const &o) const { return v != o.v; }
  Metric &operator++() { return ++v, *this; }
  Metric &operator--() { return --v, *this; }
};
enum class E { A, B, C, D, F, G, UNKNOWN = 99 };
TextView const LEX_NAME[] = {"alpha", "bravo", "charlie", "delta", "foxtrot", "golf", "hotel", "india", "juliet", "kilo", "lima", "mike"};
struct Ctx {
  int a;
  std::string b;
};
using KiloBytes = swoc::Scalar<1024, long>;
using Bytes     = swoc::Scalar<1, long>;

struct OwnCategory : std::error_category {
  char const *name() const noexcept override { return "own"; }
  std::string message(int n) const override { return "message " + std::to_string(n); }
};
std::error_category const &
own_category()
{
  static OwnCategory const category;
  return category;
}

/// What one thread works on. Constructed by the thread.
struct World {
  std::unique_ptr<swoc::MemArena> arena;
  std::unique_ptr<swoc::FixedArena<Item>> fixed;
  swoc::IPSpace<int> space;
  swoc::IPRangeSet set;
  swoc::DiscreteSpace<Metric, int> ds;
  swoc::Lexicon<E> lex;
  std::deque<Item> items;
  Map map;
  List list;
  std::deque<Item> litems;
  Errata err;
  swoc::Vectray<int, 4> vec;
  std::string text;
  World() : arena(new swoc::MemArena(256)) { lex.set_default(E::UNKNOWN).set_default("none"); }
  ~World()
  {
    fixed.reset();
    list.clear();
    map.clear();
  }
};

/// What all threads look at. Constructed before they start.
struct Shared {
  swoc::IPSpace<int> space;
  swoc::IPRangeSet set;
  swoc::DiscreteSpace<Metric, int> ds;
  swoc::Lexicon<E> lex;
  std::deque<Item> items;
  Map map;
  List list;
  std::deque<Item> litems;
  Errata err;
  swoc::MemArena arena{300};
  std::vector<swoc::MemSpan<void>> allocs;
  swoc::Vectray<int, 4> vec;
  std::vector<std::unique_ptr<bwf::Format>> formats;
  bwf::ContextNames<Ctx> names;
  bwf::ExternalNames ext;
  swoc::file::path path;
  std::vector<swoc::IPRange> ranges;
  std::vector<swoc::IPAddr> addrs;
  std::vector<swoc::IPNet> nets;
  std::string text;
  swoc::Rv<int> rv;
  bool frozen = false;
  ~Shared()
  {
    list.clear();
    map.clear();
  }
};

thread_local std::string *t_sink; ///< where reports of the thread go
int g_file = -1;
std::string g_file_name;

using Op = std::function<void(World &, Shared const *, std::string &)>;
struct Named {
  char const *name;
  Op f;
};

std::string
ip_text(Run &r)
{
  char b[80];
  if (r.pct(60)) {
    snprintf(b, sizeof(b), "%u.%u.%u.%u", 10 + r.pick(2), r.pick(3), r.pick(3), r.pick(256));
  } else {
    snprintf(b, sizeof(b), "%x:%x::%x:%x", 0xfe80 + r.pick(2), r.pick(3), r.pick(2), r.pick(65536));
  }
  return b;
}
std::string
range_text(Run &r)
{
  char b[120];
  if (r.pct(60)) {
    unsigned lo = r.pick(256), a = 10 + r.pick(2), m = r.pick(3);
    if (r.one_in(3)) {
      snprintf(b, sizeof(b), "%u.%u.0.0/%u", a, m, 16 + r.pick(17));
    } else {
      snprintf(b, sizeof(b), "%u.%u.1.%u-%u.%u.%u.%u", a, m, lo, a, m, 1 + r.pick(3), lo + r.pick(256 - lo));
    }
  } else {
    unsigned lo = r.pick(60000);
    snprintf(b, sizeof(b), "fe80:%x::%x-fe80:%x::%x", r.pick(2), lo, 2, lo + r.pick(5000));
  }
  return b;
}

void
show_err(Errata const &e, std::string &out)
{
  put(out, "%zu %d %d %d", e.length(), e.is_ok(), int(e.severity()), e.code().value());
  for (auto const &n : e) {
    put(out, "%d %d", int(n.level()), n.has_severity());
    put(out, n.text());
  }
}

template <typename Space>
void
show_space(Space const &s, std::string &out)
{
  put(out, "%zu", s.count());
  swoc::LocalBufferWriter<256> w;
  for (auto const &spot : s) {
    auto &&[range, payload] = spot;
    w.clear();
    w.print("{}={}", range, payload);
    put(out, w.view());
  }
}

// ---------------------------------------------------------------- operations on own objects
TextView const FORMATS[] = {"{} {} {}",        "{:>8} [{:<9}] {:#x}", "{2} {1} {0}",  "{:5} {7} {}",   "{::s} {:.3} {:b}",
                               "{0:#X}{0:d}{0:o}", "{9}",                 "{{}} {:^12}", "{:,<10} {:x}{}", "x{}y{}z{}w{}"};

/// Prints some arguments, takes some itself.
struct OwnSyntax {
  int left;
  int sum = 0;
  explicit operator bool() const { return left > 0; }
  bool
  operator()(std::string_view &lit, bwf::Spec &spec)
  {
    lit = "|";
    if (left-- % 3 == 0) spec._type = bwf::Spec::CAPTURE_TYPE;
    return true;
  }
  void
  capture(swoc::BufferWriter &, bwf::Spec const &, std::any const &value)
  {
    if (auto p = std::any_cast<unsigned const *>(&value)) sum += **p;
    ++sum;
  }
};

Named
own_op(Run &r)
{
  unsigned k = r.pick(50);
  unsigned a = r.pick(1000), b = r.pick(100), c = r.pick(12);
  std::string s1, s2;
  switch (k) {
  case 0: return {"arena alloc", [=](World &w, Shared const *, std::string &o) {
                    auto s = w.arena->alloc(1 + a % 200, size_t(1) << (b % 5));
                    memset(s.data(), b, s.size());
                    put(o, "%zu %zu %zu %d", s.size(), w.arena->size(), w.arena->remaining(), w.arena->contains(s.data()));
                  }};
  case 1: return {"arena localize", [=](World &w, Shared const *, std::string &o) {
                    auto s = w.arena->localize(swoc::MemSpan<char const>(LEX_NAME[c].data(), LEX_NAME[c].size()));
                    put(o, std::string_view(s.data(), s.size()));
                  }};
  case 2: return {"arena freeze", [=](World &w, Shared const *, std::string &o) {
                    if (b & 1) w.arena->freeze(a); else w.arena->thaw();
                    put(o, "%zu %zu", w.arena->size(), w.arena->allocated_size());
                  }};
  case 3: return {"arena clear", [=](World &w, Shared const *, std::string &o) {
                    w.fixed.reset();
                    w.arena->clear(a);
                    put(o, "%zu", w.arena->size());
                  }};
  case 4: return {"arena writer", [=](World &w, Shared const *, std::string &o) {
                    swoc::ArenaWriter aw(*w.arena);
                    for (unsigned n = 0; n < 1 + b % 8; ++n) aw.print("{} {:>7} ", LEX_NAME[c], a + n);
                    put(o, aw.view());
                  }};
  case 5: return {"fixed arena", [=](World &w, Shared const *, std::string &o) {
                    if (!w.fixed) w.fixed.reset(new swoc::FixedArena<Item>(*w.arena));
                    Item *x = w.fixed->make(Item{int(a), int(b)});
                    Item *y = w.fixed->make(Item{int(b), int(a)});
                    w.fixed->destroy(x);
                    Item *z = w.fixed->make(Item{int(c), int(c)});
                    put(o, "%d %d %d", z == x, y->key, z->id);
                  }};
  case 6:
  case 7:
    s1 = range_text(r);
    return {"space change", [=](World &w, Shared const *, std::string &o) {
              swoc::IPRange range;
              bool ok = range.load(s1);
              if (ok) {
                switch (c % 4) {
                case 0: w.space.mark(range, a); break;
                case 1: w.space.fill(range, a); break;
                case 2: w.space.erase(range); break;
                default:
                  w.space.blend(range, int(b), [](int &p, int q) {
                    p += q;
                    return p % 5 != 0;
                  });
                }
              }
              put(o, "%d %zu", ok, w.space.count());
            }};
  case 8:
    s1 = ip_text(r);
    return {"space find", [=](World &w, Shared const *, std::string &o) {
              swoc::IPAddr addr;
              addr.load(s1);
              auto spot = w.space.find(addr);
              put(o, "%d", spot == w.space.end() ? -1 : std::get<1>(*spot));
              w.set.mark(swoc::IPRange(addr, addr));
              put(o, "%d %zu", w.set.contains(addr), w.set.count());
            }};
  case 9: return {"space list", [=](World &w, Shared const *, std::string &o) { show_space(w.space, o); }};
  case 10: return {"discrete space", [=](World &w, Shared const *, std::string &o) {
                     swoc::DiscreteRange<Metric> range(Metric(a), Metric(a + b));
                     if (c & 1) w.ds.mark(range, c); else if (c & 2) w.ds.fill(range, c); else w.ds.erase(range);
                     auto spot = w.ds.find(Metric(a + b / 2));
                     put(o, "%zu %d", w.ds.count(), spot == w.ds.end() ? -1 : spot->payload());
                   }};
  case 11:
  case 12: return {"lexicon define", [=](World &w, Shared const *, std::string &o) {
                     try {
                       w.lex.define(E(b % 6), {LEX_NAME[c]});
                       put(o, "defined");
                     } catch (std::invalid_argument const &x) {
                       put(o, "%s", x.what());
                     }
                     put(o, "%zu", w.lex.count());
                   }};
  case 13: return {"lexicon look up", [=](World &w, Shared const *, std::string &o) {
                     put(o, "%d", int(w.lex[LEX_NAME[c]]));
                     put(o, w.lex[E(b % 7)]);
                   }};
  case 14: return {"map insert", [=](World &w, Shared const *, std::string &o) {
                     w.items.push_back(Item{int(a % 40), int(b)});
                     w.map.insert(&w.items.back());
                     put(o, "%zu %zu", w.map.count(), w.map.bucket_count());
                   }};
  case 15: return {"map find", [=](World &w, Shared const *, std::string &o) {
                     auto range = w.map.equal_range(a % 40);
                     for (auto &i : range) put(o, "%d %d", i.key, i.id);
                     auto spot = w.map.find(int(b % 40));
                     if (spot != w.map.end()) w.map.erase(spot);
                     put(o, "%zu", w.map.count());
                   }};
  case 16: return {"list", [=](World &w, Shared const *, std::string &o) {
                     w.litems.push_back(Item{int(a), int(b)});
                     if (c & 1) w.list.append(&w.litems.back()); else w.list.prepend(&w.litems.back());
                     for (auto &i : w.list) put(o, "%d", i.id);
                     if (b % 3 == 0) w.list.take_head();
                     put(o, "%zu", w.list.count());
                   }};
  case 17:
  case 18: return {"errata note", [=](World &w, Shared const *, std::string &o) {
                     switch (c % 5) {
                     case 0: w.err.note("note {} {}", a, LEX_NAME[c]); break;
                     case 1: w.err.note(Errata::Severity(b % 4), "sev {:x}", a); break;
                     case 2: w.err.note(std::error_code(int(b % 40), std::generic_category())); break;
                     case 3: w.err.note(Errata(Errata::Severity(b % 4), "inner {}", b)); break;
                     default: w.err.note(Errata::Severity(b % 4));
                     }
                     put(o, "%zu %d", w.err.length(), int(w.err.severity()));
                   }};
  case 19: return {"errata print", [=](World &w, Shared const *, std::string &o) {
                     swoc::LocalBufferWriter<2048> bw;
                     bw.print("{}", w.err);
                     put(o, bw.view());
                     std::ostringstream os;
                     os << w.err;
                     put(o, os.str());
                   }};
  case 20: return {"errata clear", [=](World &w, Shared const *, std::string &o) {
                     show_err(w.err, o);
                     w.err.clear();
                   }};
  case 21: return {"errata sink", [=](World &w, Shared const *, std::string &o) {
                     if (c & 1) {
                       w.err.sink();
                       put(o, "%zu", w.err.length());
                     } else {
                       Errata e(std::make_error_code(std::errc::io_error), Errata::Severity(b % 4), "gone {}", a);
                       e.sink();
                     }
                   }};
  case 22: return {"errata with code", [=](World &, Shared const *, std::string &o) {
                     Errata e(std::error_code(int(b), std::system_category()), Errata::Severity(a % 4), Errata::AUTO);
                     e.assign_indent_text(">").assign_severity_glue_text(LEX_NAME[c]);
                     e.note("x{}", a);
                     std::string s;
                     swoc::bwprint(s, "{}", e);
                     put(o, s);
                   }};
  case 23: return {"rv", [=](World &, Shared const *, std::string &o) {
                     swoc::Rv<std::string> x{std::string(LEX_NAME[c])};
                     x.note(Errata::Severity(b % 4), "rv {}", a);
                     put(o, x.result());
                     show_err(x.errata(), o);
                   }};
  case 24:
  case 25:
  case 26: return {"print", [=](World &, Shared const *, std::string &o) {
                     swoc::LocalBufferWriter<512> bw;
                     bw.print(FORMATS[c % 10], a, LEX_NAME[c], b);
                     put(o, bw.view());
                   }};
  case 27: return {"print floats", [=](World &, Shared const *, std::string &o) {
                     swoc::LocalBufferWriter<256> bw;
                     bw.print("{} {:.4} {} {} {}", a / 7.0, b * 1e6 / 3, c & 1 ? INFINITY : -INFINITY, b & 1 ? 0.0 : NAN, 1e-310);
                     put(o, bw.view());
                   }};
  case 28: return {"print memory", [=](World &, Shared const *, std::string &o) {
                     char mem[24];
                     memset(mem, a, sizeof(mem));
                     swoc::LocalBufferWriter<256> bw;
                     bw.print("{:x} {:#.4x}", swoc::MemSpan<void>(mem, c), swoc::MemSpan<void>(mem, 10));
                     put(o, bw.view());
                     // Only the length, an address is in the text.
                     bw.clear();
                     bw.print("{}", swoc::MemSpan<void>(mem, a % 16));
                     put(o, TextView(bw.view()).take_prefix_at('@'));
                   }};
  case 29:
  case 30: return {"print codes", [=](World &, Shared const *, std::string &o) {
                     swoc::LocalBufferWriter<512> bw;
                     bw.print("{} {:s} {:d} {::s=n}", bwf::Errno(a % 140), bwf::Errno(b), bwf::Errno(b), bwf::Errno(c));
                     bw.print(" {} {:s} {:d} {}", std::error_code(b, std::generic_category()), std::error_code(b, std::system_category()), std::make_error_code(std::errc::invalid_argument),
                              std::error_code(int(c), own_category()));
                     put(o, bw.view());
                   }};
  case 31:
  case 32: return {"print dates", [=](World &, Shared const *, std::string &o) {
                     swoc::LocalBufferWriter<256> bw;
                     time_t t = 1000000000 + time_t(a) * 2222222;
                     bw.print("{} {::gmt} {::local} {:%H:%M:local}", bwf::Date(t), bwf::Date(t, "%Y %j %T"), bwf::Date(t, "%c"), bwf::Date(t + b));
                     put(o, bw.view());
                     char small[64]; // not enough
                     swoc::FixedBufferWriter sw(small, b % 64);
                     sw.print("{::local} {}", bwf::Date(t, "%Y-%m-%d %H:%M:%S %j %U"), bwf::Date(t + a, c & 1 ? "%A %B %A %B %A" : "%c%c%c%c%c%c%c%c%c%c%c%c%c%c"));
                     put(o, sw.view());
                     put(o, "%zu", sw.extent());
                   }};
  case 33:
    s1 = ip_text(r), s2 = range_text(r);
    return {"ip text", [=](World &, Shared const *, std::string &o) {
              swoc::IPAddr addr{s1};
              swoc::IPRange range{s2};
              swoc::IPEndpoint ep{s1};
              ep.set_to_any(AF_INET);
              swoc::IPSrv srv{addr, in_port_t(a)};
              swoc::LocalBufferWriter<512> bw;
              bw.print("{} {::x} {} {::=} {} {}", addr, addr, range, addr, ep, srv);
              put(o, bw.view());
              for (auto const &net : range.networks()) {
                bw.clear();
                bw.print("{}", net);
                put(o, bw.view());
              }
            }};
  case 34: return {"pattern and sub text", [=](World &, Shared const *, std::string &o) {
                     swoc::LocalBufferWriter<256> bw;
                     bw.print("{} {}{} {:x} {}", bwf::Pattern{int(c), "-="}, bwf::If(b & 1, "<{}>", a), bwf::Optional("({})", LEX_NAME[c]), LEX_NAME[c], bwf::UnHex{"616263"});
                     put(o, bw.view());
                   }};
  case 35: return {"names", [=](World &, Shared const *, std::string &o) {
                     swoc::LocalBufferWriter<256> bw;
                     bw.print("{tick} {missing} {0} {tick}", a);
                     put(o, bw.view());
                     bwf::ContextNames<Ctx> names;
                     names.assign("a", [](swoc::BufferWriter &w, bwf::Spec const &spec, Ctx &x) -> swoc::BufferWriter & { return bwformat(w, spec, x.a); });
                     Ctx x{int(a), "b"};
                     bw.clear();
                     bw.print_n(names.bind(x), "{a}+{a:x}+{b}");
                     put(o, bw.view());
                   }};
  case 36: return {"format object", [=](World &, Shared const *, std::string &o) {
                     bwf::Format fmt(FORMATS[c % 10]);
                     swoc::LocalBufferWriter<256> bw;
                     bw.print(fmt, a, b, LEX_NAME[c]);
                     put(o, bw.view());
                     put(o, "%d", fmt.is_literal());
                   }};
  case 37: return {"bwprint", [=](World &w, Shared const *, std::string &o) {
                     swoc::bwprint(w.text, "{:>20} {} {}", LEX_NAME[c], a, std::string(b, 'q'));
                     put(o, w.text);
                   }};
  case 38: return {"vectray", [=](World &w, Shared const *, std::string &o) {
                     w.vec.push_back(a);
                     int const v = b;
                     if (c & 1) w.vec.push_back(v);
                     if (c & 2) w.vec.emplace_back(b);
                     if (c == 4) w.vec.reserve(a % 100);
                     if (c == 5) w.vec = swoc::Vectray<int, 4>{};
                     if (b % 7 == 0 && !w.vec.empty()) w.vec.pop_back();
                     for (auto const &x : w.vec) put(o, "%d", x);
                     put(o, "%zu %d", w.vec.size(), w.vec.empty() ? 0 : w.vec.back());
                   }};
  case 39: return {"text view numbers", [=](World &, Shared const *, std::string &o) {
                     char num[40];
                     snprintf(num, sizeof(num), "%u.%ue%d,0x%x,%o", a, b, int(c) - 6, a, b);
                     TextView src{num, strlen(num)}, parsed;
                     auto t = src.take_prefix_at(',');
                     put(o, "%.17g", swoc::svtod(t, &parsed));
                     put(o, "%jd", swoc::svtoi(src.take_prefix_at(','), &parsed, 0));
                     put(o, "%ju", swoc::svtou(src, &parsed, 8));
                     put(o, "%ju", swoc::svto_radix<10>(t));
                   }};
  case 40: return {"text view parts", [=](World &, Shared const *, std::string &o) {
                     std::string s = "  Key-" + std::string(LEX_NAME[c]) + ": value, " + std::string(LEX_NAME[b % 12]) + " ; x";
                     TextView v{s};
                     put(o, v.ltrim_if(&isspace).take_prefix_at(':'));
                     put(o, v.split_suffix_at(';'));
                     put(o, v.trim(" ,"));
                     put(o, "%d %d", swoc::TextView(LEX_NAME[c]).starts_with_nocase("A"), strcasecmp(TextView("aLPHA"), TextView(LEX_NAME[c])) == 0);
                   }};
  case 41: return {"file path", [=](World &, Shared const *, std::string &o) {
                     swoc::file::path p{"/tmp"};
                     p /= LEX_NAME[c];
                     put(o, (p / "x" / "y.z").parent_path().view());
                     put(o, (p / "x.z").filename().view());
                     put(o, p.relative_path().view());
                   }};
  case 42: return {"file status", [=](World &, Shared const *, std::string &o) {
                     std::error_code ec;
                     auto fs = swoc::file::status(swoc::file::path{"/"}, ec);
                     put(o, "%d %d %d", swoc::file::is_dir(fs), swoc::file::exists(fs), ec.value());
                     put(o, "%d", swoc::file::exists(swoc::file::path{"/no/such/file"}));
                     put(o, swoc::file::current_path().view().prefix(1));
                     put(o, swoc::file::temp_directory_path().view());
                   }};
  case 43: return {"file load", [=](World &, Shared const *, std::string &o) {
                     std::error_code ec;
                     auto s = swoc::file::load(swoc::file::path{c & 1 ? g_file_name.c_str() : "/no/such/file"}, ec);
                     put(o, s);
                     put(o, "%d", ec.value());
                   }};
  case 44: return {"scalar", [=](World &, Shared const *, std::string &o) {
                     KiloBytes kb{swoc::round_up(Bytes(a * b))};
                     swoc::LocalBufferWriter<64> bw;
                     bw.print("{} {}", kb, KiloBytes(c) + KiloBytes(swoc::round_down(Bytes(a * 100))));
                     put(o, bw.view());
                   }};
  case 45: return {"file copy", [=](World &, Shared const *, std::string &o) {
                     int fd = -1;
                     std::string to;
                     {
                       sched::Pause pause;
                       fd = memfd_create("simcopy", 0);
                       to = "/proc/self/fd/" + std::to_string(fd);
                       if (c & 2 && ftruncate(fd, a * 100)) abort();
                     }
                     std::error_code ec;
                     bool ok = swoc::file::copy(swoc::file::path{b % 8 ? g_file_name.c_str() : "/no/such/file"}, swoc::file::path{to.c_str()}, ec);
                     sched::Pause pause;
                     char buff[64];
                     auto n = pread(fd, buff, sizeof(buff), 0);
                     close(fd);
                     put(o, "%d %d %.*s", ok, ec.value(), ok ? int(n) : 0, buff);
                   }};
  case 46: return {"file queries", [=](World &, Shared const *, std::string &o) {
                     std::error_code ec;
                     char const *const PATHS[] = {"/", "/tmp", "/no/such/file", g_file_name.c_str(), "/dev/null", "/proc/self/..", ".", "no/../such"};
                     swoc::file::path p{PATHS[c % 8]};
                     auto fs = swoc::file::status(p, ec);
                     put(o, "%d %d", int(swoc::file::file_type(fs)), ec.value());
                     if (p.view() != g_file_name) put(o, swoc::file::absolute(p, ec).view());
                     if (c % 8 < 3 || c % 8 > 5) put(o, swoc::file::canonical(p, ec).view());
                     put(o, "%d %d", swoc::file::is_readable(p), swoc::file::file_size(fs) == 20);
                     if (c % 8 < 2 || c % 8 == 4) put(o, "%d", swoc::file::create_directories(p, ec) ? 1 : 0);
                     put(o, "%d", ec.value());
                   }};
  case 47: return {"arena resource", [=](World &w, Shared const *, std::string &o) {
                     std::pmr::vector<int> v(w.arena.get());
                     for (unsigned n = 0; n < a % 50; ++n) v.push_back(n * b);
                     std::pmr::string text(LEX_NAME[c], w.arena.get());
                     text += "and more of it to make it long enough";
                     put(o, "%zu %d", v.size(), v.empty() ? 0 : v.back());
                     put(o, std::string_view(text));
                   }};
  case 48: return {"own format syntax", [=](World &, Shared const *, std::string &o) {
                     swoc::LocalBufferWriter<128> bw;
                     OwnSyntax f{int(1 + c % 5)};
                     bw.print_nfv(bwf::Global_Names.bind(), f, bwf::ArgTuple{std::forward_as_tuple(a, LEX_NAME[c], b, b % 3 == 0, a)});
                     put(o, bw.view());
                     put(o, "%d", f.sum);
                   }};
  default: return {"hash and hex", [=](World &, Shared const *, std::string &o) {
                     swoc::Hash32FNV1a h;
                     h.update(LEX_NAME[c]);
                     h.final();
                     put(o, "%u", h.get());
                     swoc::LocalBufferWriter<64> bw;
                     bw.print("{:x} {:X} {}", TextView(LEX_NAME[c]), TextView(LEX_NAME[b % 12]), b & 1 ? true : false);
                     put(o, bw.view());
                   }};
  }
}

// ---------------------------------------------------------------- operations on shared objects
Named
shared_op(Run &r)
{
  unsigned k = r.pick(27);
  unsigned a = r.pick(1000), b = r.pick(100), c = r.pick(12);
  std::string s1;
  switch (k) {
  case 0:
  case 1:
  case 2:
    s1 = ip_text(r);
    return {"find address", [=](World &, Shared const *s, std::string &o) {
              swoc::IPAddr addr;
              addr.load(s1);
              auto spot = s->space.find(addr);
              if (spot == s->space.end()) {
                put(o, "-");
              } else {
                swoc::LocalBufferWriter<256> w;
                w.print("{}={}", std::get<0>(*spot), std::get<1>(*spot));
                put(o, w.view());
                ++spot;
                put(o, "%d", spot == s->space.end() ? -1 : std::get<1>(*spot));
              }
              put(o, "%d", s->set.contains(addr));
            }};
  case 3: return {"iterate space", [=](World &, Shared const *s, std::string &o) {
                    show_space(s->space, o);
                    put(o, "%zu %zu %d", s->space.count_ip4(), s->space.count_ip6(), s->space.empty());
                  }};
  case 4: return {"iterate space backwards", [=](World &, Shared const *s, std::string &o) {
                    for (auto spot = s->space.end(); spot != s->space.begin();) {
                      --spot;
                      put(o, "%d", std::get<1>(*spot));
                    }
                  }};
  case 5: return {"iterate set", [=](World &, Shared const *s, std::string &o) {
                    swoc::LocalBufferWriter<256> w;
                    put(o, "%zu %d", s->set.count(), s->set.empty());
                    for (auto const &range : s->set) {
                      w.clear();
                      w.print("{}", range);
                      put(o, w.view());
                    }
                  }};
  case 6:
  case 7: return {"discrete find", [=](World &, Shared const *s, std::string &o) {
                    auto spot = s->ds.find(Metric(a));
                    put(o, "%d", spot == s->ds.end() ? -1 : const_cast<std::remove_cv_t<std::remove_reference_t<decltype(*spot)>> &>(*spot).payload());
                    if (c == 0) {
                      for (auto const &n : s->ds) put(o, "%u %u %d", n.min().v, n.max().v, const_cast<std::remove_cv_t<std::remove_reference_t<decltype(n)>> &>(n).payload());
                    }
                    put(o, "%zu", s->ds.count());
                  }};
  case 8: return {"lexicon name", [=](World &, Shared const *s, std::string &o) {
                    try {
                      put(o, s->lex[E(b % 8)]);
                    } catch (std::exception const &x) {
                      put(o, "%s", x.what());
                    }
                  }};
  case 9:
  case 10: return {"lexicon value", [=](World &, Shared const *s, std::string &o) {
                     try {
                       put(o, "%d", int(s->lex[LEX_NAME[c]]));
                     } catch (std::exception const &x) {
                       put(o, "%s", x.what());
                     }
                   }};
  case 11: return {"lexicon iterate", [=](World &, Shared const *s, std::string &o) {
                     for (auto const &x : s->lex) put(o, std::get<1>(x)), put(o, "%d", int(std::get<0>(x)));
                     for (auto const &x : s->lex.by_names()) put(o, std::get<1>(x));
                     put(o, "%zu", s->lex.count());
                   }};
  case 12:
  case 13: return {"map find", [=](World &, Shared const *s, std::string &o) {
                     Map const &m = s->map;
                     auto spot    = m.find(int(a % 40));
                     put(o, "%d", spot == m.end() ? -1 : spot->id);
                     for (auto const &i : m.equal_range(int(a % 40))) put(o, "%d", i.id);
                     put(o, "%zu %zu", m.count(), m.bucket_count());
                   }};
  case 14: return {"map iterate", [=](World &, Shared const *s, std::string &o) {
                     for (auto const &i : s->map) put(o, "%d", i.id);
                   }};
  case 15: return {"list iterate", [=](World &, Shared const *s, std::string &o) {
                     for (auto const &i : s->list) put(o, "%d", i.id);
                     put(o, "%zu %d", s->list.count(), s->list.empty());
                     if (!s->list.empty()) put(o, "%d %d", s->list.head()->id, s->list.tail()->id);
                   }};
  case 16: return {"errata look", [=](World &, Shared const *s, std::string &o) {
                     show_err(s->err, o);
                     put(o, s->err.annotation_glue_text());
                     put(o, s->err.indent_text());
                     if (!s->err.empty()) put(o, s->err.front().text()), put(o, s->err.back().text());
                   }};
  case 17:
  case 18: return {"errata print", [=](World &, Shared const *s, std::string &o) {
                     swoc::LocalBufferWriter<2048> bw;
                     bw.print("{}", s->err);
                     put(o, bw.view());
                     if (c & 1) {
                       std::ostringstream os;
                       os << s->err;
                       put(o, os.str());
                     }
                   }};
  case 19: return {"errata copy notes", [=](World &, Shared const *s, std::string &o) {
                     Errata mine;
                     mine.note("first");
                     mine.note(s->err);
                     show_err(mine, o);
                     put(o, "%d %d", s->rv.result(), s->rv.is_ok());
                     show_err(s->rv.errata(), o);
                   }};
  case 20:
  case 21: return {"shared format", [=](World &, Shared const *s, std::string &o) {
                     swoc::LocalBufferWriter<512> bw;
                     auto const &fmt = *s->formats[b % s->formats.size()];
                     bw.print(fmt, a, LEX_NAME[c], b);
                     put(o, bw.view());
                   }};
  case 22: return {"shared names", [=](World &, Shared const *s, std::string &o) {
                     swoc::LocalBufferWriter<256> bw;
                     Ctx x{int(a), std::string(LEX_NAME[c])};
                     bw.print_n(const_cast<bwf::ContextNames<Ctx> &>(s->names).bind(x), "{a} {b:>9} {tick} {none}");
                     bw.print("{tick} {} {tock}", b);
                     put(o, bw.view());
                   }};
  case 23: return {"arena queries", [=](World &, Shared const *s, std::string &o) {
                     auto const &m = s->arena;
                     put(o, "%zu %zu %zu %zu", m.size(), m.remaining(), m.allocated_size(), m.reserved_size());
                     auto span = s->allocs[b % s->allocs.size()];
                     put(o, "%d %d", m.contains(span.data()), m.contains(&span));
                     size_t n = 0;
                     for (auto const &blk : m) n += sizeof(blk) > 0;
                     put(o, "%zu", n);
                   }};
  case 24: return {"vectray and text", [=](World &, Shared const *s, std::string &o) {
                     for (int x : s->vec) put(o, "%d", x);
                     put(o, "%zu %d", s->vec.size(), s->vec.empty());
                     TextView t{s->text};
                     while (t) put(o, t.take_prefix_at(','));
                     put(o, s->path.parent_path().view());
                     put(o, (s->path / LEX_NAME[c]).view());
                     put(o, s->path.filename().view());
                   }};
  case 25: return {"shared ranges", [=](World &, Shared const *s, std::string &o) {
                     swoc::LocalBufferWriter<256> w;
                     auto const &range = s->ranges[b % s->ranges.size()];
                     auto const &addr  = s->addrs[a % s->addrs.size()];
                     auto const &net   = s->nets[a % s->nets.size()];
                     w.print("{} {} {} {}", range, addr, net, net.as_range());
                     put(o, w.view());
                     put(o, "%d %d %d", range.contains(addr), net.as_range().contains(addr), addr < range.min());
                     unsigned n = 0;
                     for (auto const &sub : range.networks()) n += sub.mask().width();
                     put(o, "%u", n);
                   }};
  default: return {"report to sinks", [=](World &, Shared const *, std::string &o) {
                     Errata e(Errata::Severity(b % 4), "n {}", a);
                     e.note("m {}", LEX_NAME[c]);
                     e.sink();
                   }};
  }
}

// ---------------------------------------------------------------- set up
using Plan = std::vector<std::function<void(Shared &)>>;
Plan
make_plan(Run &r)
{
  Plan plan;
  while (r.more(14, 60)) {
    unsigned k = r.pick(10), a = r.pick(1000), b = r.pick(100), c = r.pick(12);
    std::string s1;
    switch (k) {
    case 0:
    case 1:
    case 2:
      s1 = range_text(r);
      plan.push_back([=](Shared &s) {
        swoc::IPRange range;
        if (!range.load(s1)) return;
        if (c == 0) s.space.erase(range); else if (c & 1) s.space.mark(range, a); else s.space.fill(range, a);
        s.set.mark(range);
      });
      break;
    case 3:
      plan.push_back([=](Shared &s) {
        swoc::DiscreteRange<Metric> range(Metric(a), Metric(a + b));
        if (c == 0) s.ds.erase(range); else if (c & 1) s.ds.mark(range, c); else s.ds.fill(range, c);
      });
      break;
    case 4:
    case 5:
      plan.push_back([=](Shared &s) {
        try {
          s.lex.define(E(b % 6), {LEX_NAME[c]});
        } catch (std::invalid_argument const &) {
        }
      });
      break;
    case 6:
      plan.push_back([=](Shared &s) {
        for (unsigned n = 0; n <= c; ++n) {
          s.items.push_back(Item{int((a + n * b) % 40), int(s.items.size())});
          s.map.insert(&s.items.back());
        }
        if (b < 10) s.map.erase(s.map.begin());
      });
      break;
    case 7:
      plan.push_back([=](Shared &s) {
        s.litems.push_back(Item{int(a), int(b)});
        if (c & 1) s.list.append(&s.litems.back()); else s.list.prepend(&s.litems.back());
        if (s.vec.size() < 20) s.vec.push_back(a);
      });
      break;
    case 8:
      plan.push_back([=](Shared &s) {
        if (c < 3) s.err.note("plain {}", a);
        else if (c < 6) s.err.note(Errata::Severity(b % 4), "sev {:x}", a);
        else if (c < 8) s.err.note(std::error_code(int(b % 40), std::generic_category()));
        else if (c < 10) s.err.note(Errata(Errata::Severity(b % 4), "inner {}", b));
        else s.err.assign_indent_text(LEX_NAME[c]).assign_annotation_glue_text("; ");
        s.rv.note("rv {}", a);
      });
      break;
    default:
      plan.push_back([=](Shared &s) {
        s.allocs.push_back(s.arena.alloc(1 + a));
        if (c == 0 && !s.frozen) s.arena.freeze(b), s.frozen = true; // once, or earlier allocations are gone
      });
    }
  }
  unsigned kind = r.pick(3), handler = r.pick(4);
  std::string r1 = range_text(r), r2 = range_text(r), a1 = ip_text(r), a2 = ip_text(r);
  plan.push_back([=](Shared &s) {
    if (handler == 1) s.lex.set_default(E::UNKNOWN).set_default("none");
    if (handler == 2) s.lex.set_default([](TextView) { return E::G; }).set_default([](E) { return TextView("handled"); });
    for (auto f : FORMATS) {
      s.formats.emplace_back(new bwf::Format(f));
    }
    s.allocs.push_back(s.arena.alloc(10));
    s.names.assign("a", [](swoc::BufferWriter &w, bwf::Spec const &spec, Ctx &x) -> swoc::BufferWriter & { return bwformat(w, spec, x.a); });
    s.names.assign("b", [](swoc::BufferWriter &w, bwf::Spec const &spec, Ctx &x) -> swoc::BufferWriter & { return bwformat(w, spec, x.b); });
    s.path = kind == 0 ? swoc::file::path{"/one/two/three"} : kind == 1 ? swoc::file::path{"rel/x"} : swoc::file::path{"/"};
    s.text = kind == 0 ? "a,b,,ccc" : kind == 1 ? "" : "long piece of text that is not in the object,another";
    for (auto const &t : {r1, r2}) s.ranges.emplace_back(TextView{t});
    for (auto const &t : {a1, a2}) {
      s.addrs.emplace_back(TextView{t});
      s.nets.emplace_back(s.addrs.back(), swoc::IPMask(8 + kind * 8));
    }
    s.rv = 7;
  });
  return plan;
}

void
set_up(unsigned sinks)
{
  setenv("TZ", "EST5EDT,M3.2.0,M11.1.0", 1);
  setenv("TMPDIR", "/tmp", 1);
  tzset();
  Errata::FAILURE_SEVERITY = Errata::Severity(2);
  static TextView const NAMES[] = {"Info", "Warn", "Error", "Fatal"};
  Errata::SEVERITY_NAMES = swoc::MemSpan<TextView const>(NAMES, 4);
  for (unsigned k = 0; k < sinks; ++k) {
    Errata::register_sink([k](Errata const &e) {
      std::string tmp;
      show_err(e, tmp);
      sched::Pause p;
      if (t_sink) put(*t_sink, "sink %u %s", k, tmp.c_str());
    });
  }
  bwf::Global_Names.assign("tick", [](swoc::BufferWriter &w, bwf::Spec const &) -> swoc::BufferWriter & { return w.write("TICK"); });
  g_file = memfd_create("simthread", 0);
  if (g_file >= 0 && write(g_file, "content of the file\n", 20) != 20) abort();
  g_file_name = "/proc/self/fd/" + std::to_string(g_file);
}

struct Program {
  std::vector<Named> ops;
  std::vector<std::string> got;
  int fail_at    = -1; ///< operation with failing allocation
  long countdown = -1;
  int done       = 0; ///< operations completed
  bool failed    = false;
};

void
perform(Program &p, std::vector<std::string> &out, Shared const *shared, int &done, bool faults)
{
  World w;
  for (size_t n = 0; n < p.ops.size(); ++n) {
    sched::at_op(n, p.ops[n].name);
    bool arm = faults && int(n) == p.fail_at;
    {
      sched::Pause pause;
      t_sink = &out[n];
    }
    if (arm) sched::arm_alloc(p.countdown);
    try {
      p.ops[n].f(w, shared, out[n]);
    } catch (std::bad_alloc const &) {
      if (!arm) put(out[n], "no memory");
    } catch (std::exception const &x) {
      put(out[n], "threw %s", x.what());
    }
    bool stop = arm && sched::alloc_failed();
    if (arm) sched::arm_alloc(-1);
    {
      sched::Pause pause;
      t_sink = nullptr;
      if (!stop) done = n + 1;
    }
    if (stop) break;
  }
}

void
run_threads(Run &r, bool share)
{
  isolated(r, [&] {
    cpu_set_t set;
    CPU_ZERO(&set);
    CPU_SET(sched_getcpu(), &set);
    sched_setaffinity(0, sizeof(set), &set);
    set_up(share ? 1 + r.pick(2) : r.pick(3));
    Plan plan;
    std::unique_ptr<Shared> shared;
    if (share) {
      plan = make_plan(r);
      shared.reset(new Shared);
      for (auto const &f : plan) f(*shared);
    }
    unsigned n = 2 + r.small(3);
    std::vector<Program> prog(n);
    bool similar = r.one_in(3); // the threads do the same
    for (auto &p : prog) {
      if (similar && &p != &prog[0] && r.pct(70)) {
        p.ops = prog[0].ops;
      } else {
        while (p.ops.size() < 60 && r.more(share ? 9 : 14, 240)) p.ops.push_back(share && !r.one_in(8) ? shared_op(r) : own_op(r));
      }
      if (p.ops.empty()) p.ops.push_back(share ? shared_op(r) : own_op(r));
      p.got.resize(p.ops.size());
      for (auto &s : p.got) s.reserve(1024);
    }
    if (!share && r.one_in(3)) {
      auto &p     = prog[r.pick(n)];
      p.fail_at   = r.pick(p.ops.size());
      p.countdown = r.small(12);
    }
    for (unsigned k = 0; k < n; ++k) {
      std::string s;
      for (auto const &op : prog[k].ops) s += std::string(s.empty() ? "" : ", ") + op.name;
      r.log("thread %u: %s", k, s.c_str());
    }
    std::vector<std::function<void()>> bodies;
    for (auto &p : prog) {
      bodies.push_back([&p, &shared] { perform(p, p.got, shared.get(), p.done, true); });
    }
    sched::run(r, bodies);
    size_t total = 0;
    for (auto &p : prog) {
      total += p.done;
      p.failed = p.fail_at >= 0 && p.done < int(p.ops.size());
      if (p.failed) r.fault("allocation-failure");
    }
    auto const &st = sched::g_stats;
    r.step(total);
    r.count("accesses", st.accesses);
    r.count("synchronisations", st.syncs);
    r.count("thread switches", st.switches);
    r.count("waits for another thread", st.blocked);
    r.advance_ns(st.accesses * 2);
    // Alone, on objects of the same history.
    std::unique_ptr<Shared> fresh;
    if (share) {
      fresh.reset(new Shared);
      for (auto const &f : plan) f(*fresh);
    }
    for (int pass = 0; pass < (share ? 2 : 1); ++pass) {
      for (unsigned k = 0; k < n; ++k) {
        auto &p = prog[k];
        std::vector<std::string> alone(p.ops.size());
        int done = 0;
        perform(p, alone, pass ? shared.get() : fresh.get(), done, false);
        for (int i = 0; i < p.done; ++i) {
          if (alone[i] != p.got[i]) {
            r.fail("result", "operation %d (%s) of thread %u: \"%s\" when done %s, \"%s\" with the other threads", i, p.ops[i].name, k, alone[i].c_str(),
                   pass ? "alone afterwards" : "alone", p.got[i].c_str());
          }
        }
      }
    }
    if (total >= 2 && st.switches > 2) r.nontrivial();
    if (g_file >= 0) close(g_file);
  });
}

Register t01{{"T01", [](Run &r) { run_threads(r, true); },
              "Objects of every kind are built by a random history, then 2 to 4 threads perform random constant operations on them (and some on objects of their own); the scheduler picks the "
              "running thread at every 1st to 3000th memory access. Non-trivial: at least two operations and three switches between threads.",
              "interleavings: sequence of switches as (operation left, operation resumed, thread)",
              {"IPSpace", "IPRangeSet", "DiscreteSpace", "Lexicon", "IntrusiveHashMap", "IntrusiveDList", "Errata", "Rv", "bwf::Format", "bwf names", "MemArena", "Vectray", "file::path", "TextView",
               "IPRange, IPAddr, IPNet", "BufferWriter", "real threads, one running at a time"},
              {"thread scheduler", "lock and once functions", "allocator (observed)"},
              {"accesses made inside the C and C++ runtime libraries are seen only for the functions wrapped"},
              false}};
Register t02{{"T02", [](Run &r) { run_threads(r, false); },
              "2 to 4 threads of a process that did not use the library before perform random operations on objects of their own; the scheduler picks the running thread at every 1st to 3000th "
              "memory access; in one of three runs an allocation of one thread fails. Non-trivial: at least two operations and three switches between threads.",
              "interleavings: sequence of switches as (operation left, operation resumed, thread)",
              {"all of the library", "real threads, one running at a time"},
              {"thread scheduler", "lock and once functions", "allocator (failing on command)"},
              {"accesses made inside the C and C++ runtime libraries are seen only for the functions wrapped", "a thread whose allocation failed does nothing more"},
              false}};

} // namespace

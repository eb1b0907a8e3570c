// P01 P02: address data as text, through storage that fails, and back.
#include "sim.h"
#include "vfs.h"
#include <sstream>
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <set>
#include <unordered_set>
#include "swoc/ArenaWriter.h"
#include "swoc/BufferWriter.h"
#include "swoc/Errata.h"
#include "swoc/IPRange.h"
#include "swoc/MemArena.h"
#include "swoc/TextView.h"
#include "swoc/bwf_base.h"
#include "swoc/bwf_ip.h"
#include "swoc/swoc_file.h"
#include "swoc/swoc_ip.h"

using namespace sim;
using std::string;
using swoc::IP4Addr;
using swoc::IP4Net;
using swoc::IP4Range;
using swoc::IP4Srv;
using swoc::IP6Addr;
using swoc::IP6Net;
using swoc::IP6Range;
using swoc::IP6Srv;
using swoc::IPAddr;
using swoc::IPEndpoint;
using swoc::IPMask;
using swoc::IPNet;
using swoc::IPRange;
using swoc::IPSrv;
using swoc::TextView;

namespace {
using U128 = unsigned __int128;

string
esc(string const &s)
{
  string z;
  for (unsigned char c : s) {
    if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      z += b;
    } else {
      z += static_cast<char>(c);
    }
  }
  return z;
}

// ---------------------------------------------------------------- model of addresses
struct MAddr {
  int fam = 4;
  U128 v  = 0;
  bool operator==(MAddr const &o) const { return fam == o.fam && v == o.v; }
  bool operator!=(MAddr const &o) const { return !(*this == o); }
  bool operator<(MAddr const &o) const { return fam != o.fam ? fam < o.fam : v < o.v; } // IPv4 first
};
U128
top(int fam)
{
  return fam == 4 ? U128(0xffffffffu) : ~U128(0);
}
unsigned
bits(int fam)
{
  return fam == 4 ? 32 : 128;
}
U128
mask_of(int fam, unsigned w)
{
  if (w == 0) return 0;
  return (top(fam) << (bits(fam) - w)) & top(fam);
}
/// The kinds of address a program decides by.
struct Class {
  bool loopback, multicast, link, priv;
};
Class
class_of(MAddr const &a)
{
  auto in = [&](unsigned w, U128 n) { return a.v >> (bits(a.fam) - w) == n; };
  if (a.fam == 4) return {in(8, 127), in(4, 14), in(16, 0xa9fe), in(8, 10) || in(10, 0x191) || in(12, 0xac1) || in(16, 0xc0a8)};
  return {a.v == 1, in(8, 0xff), in(10, 0x3fa), in(7, 0x7e)};
}
template <typename T>
bool
class_is(T const &t, MAddr const &a)
{
  Class c = class_of(a);
  return t.is_loopback() == c.loopback && t.is_multicast() == c.multicast && t.is_link_local() == c.link && t.is_private() == c.priv;
}
template <typename T>
bool
class_any(T const &t)
{
  return t.is_loopback() || t.is_multicast() || t.is_link_local() || t.is_private();
}
/// Simplest correct text.
string
plain(MAddr const &a)
{
  char b[64];
  if (a.fam == 4) {
    unsigned v = unsigned(a.v);
    snprintf(b, sizeof b, "%u.%u.%u.%u", v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255);
  } else {
    string s;
    for (int i = 7; i >= 0; --i) {
      snprintf(b, sizeof b, "%x%s", unsigned(a.v >> (16 * i)) & 0xffff, i ? ":" : "");
      s += b;
    }
    return s;
  }
  return b;
}
in6_addr
raw6(MAddr const &a)
{
  in6_addr z;
  for (int i = 0; i < 16; ++i) z.s6_addr[i] = uint8_t(a.v >> (8 * (15 - i)));
  return z;
}
U128
num6(in6_addr const &a)
{
  U128 v = 0;
  for (int i = 0; i < 16; ++i) v = v << 8 | a.s6_addr[i];
  return v;
}
IP4Addr
mk4(MAddr const &a)
{
  return IP4Addr(in_addr_t(a.v));
}
IP6Addr
mk6(MAddr const &a)
{
  return IP6Addr(raw6(a));
}
IPAddr
mk(MAddr const &a)
{
  return a.fam == 4 ? IPAddr(mk4(a)) : IPAddr(mk6(a));
}
MAddr
from(IP4Addr const &a)
{
  return {4, a.host_order()};
}
MAddr
from(IP6Addr const &a)
{
  return {6, num6(a.network_order())};
}
MAddr
from(IPAddr const &a)
{
  return a.is_ip4() ? from(a.ip4()) : a.is_ip6() ? from(a.ip6()) : MAddr{0, 0};
}

struct Rec {
  enum What { ADDR, RANGE, NET, SRV } what = ADDR;
  MAddr a, b;         // b: end of range
  unsigned width = 0; // of a network
  unsigned port  = 0;
  bool operator==(Rec const &o) const { return what == o.what && a == o.a && (what != RANGE || b == o.b) && (what != NET || width == o.width) && (what != SRV || port == o.port); }
  string
  text() const
  {
    switch (what) {
    case ADDR: return plain(a);
    case RANGE: return plain(a) + "-" + plain(b);
    case NET: return plain(a) + "/" + std::to_string(width);
    default: return (a.fam == 6 ? "[" + plain(a) + "]" : plain(a)) + ":" + std::to_string(port);
    }
  }
};

// ---------------------------------------------------------------- what a text means
enum Verdict { GOOD, BAD, OPEN }; ///< @c OPEN - not said by the documentation
bool
space(char c)
{
  return isspace(static_cast<unsigned char>(c));
}
string
strip(string s)
{
  while (!s.empty() && space(s.back())) s.pop_back();
  size_t i = 0;
  while (i < s.size() && space(s[i])) ++i;
  return s.substr(i);
}
bool
all_of(string const &s, char const *set)
{
  return s.find_first_not_of(set) == string::npos && s.find('\0') == string::npos;
}
/// Octet or tail of an IPv4 address.
Verdict
part4(string const &s, U128 &v)
{
  if (s.empty()) return BAD;
  bool dec = all_of(s, "0123456789");
  v        = 0;
  if (dec && (s[0] != '0' || s.size() == 1)) {
    for (char c : s) v = std::min<U128>(v * 10 + (c - '0'), U128(1) << 100);
    return GOOD;
  }
  if (s[0] == '0' && all_of(s, "01234567")) {
    for (char c : s) v = std::min<U128>(v * 8 + (c - '0'), U128(1) << 100);
    return GOOD;
  }
  if (s.size() > 2 && s[0] == '0' && s[1] == 'x' && all_of(s.substr(2), "0123456789abcdefABCDEF")) {
    for (char c : s.substr(2)) v = std::min<U128>(v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10), U128(1) << 100);
    return GOOD;
  }
  return s[0] >= '1' && s[0] <= '9' ? BAD : OPEN;
}
Verdict
addr4(string s, U128 &v)
{
  s = strip(s);
  v = 0;
  if (s.empty()) return BAD;
  if (s.find_first_of("[]") != string::npos) return OPEN;
  if (!all_of(s, "0123456789abcdefABCDEFxX.")) return BAD;
  std::vector<string> parts{""};
  for (char c : s) {
    if (c == '.') parts.push_back("");
    else parts.back() += c;
  }
  if (parts.size() > 4) return BAD;
  Verdict z = GOOD;
  for (size_t i = 0; i < parts.size(); ++i) {
    U128 n;
    Verdict x = part4(parts[i], n);
    if (x == BAD) return BAD;
    if (x == OPEN) z = OPEN;
    bool last = i + 1 == parts.size();
    U128 most = last ? (U128(1) << (8 * (4 - i))) - 1 : 255;
    if (x == GOOD && n > most) return BAD;
    v |= last ? n : n << (8 * (3 - i));
  }
  return z;
}
Verdict
addr6(string s, U128 &v)
{
  s = strip(s);
  v = 0;
  if (s.empty()) return BAD;
  if (s.front() == '[' && s.back() == ']' && s.size() > 1) s = s.substr(1, s.size() - 2);
  if (!all_of(s, "0123456789abcdefABCDEF:")) return s.find('.') != string::npos ? OPEN : BAD;
  std::vector<string> groups{""};
  for (char c : s) {
    if (c == ':') groups.push_back("");
    else groups.back() += c;
  }
  if (s.size() < 2) return BAD;
  // An empty group is part of a double colon.
  size_t dbl = s.find("::");
  if (dbl != string::npos && s.find("::", dbl + 1) != string::npos) return BAD; // more than one, or ":::"
  if (s[0] == ':' && dbl != 0) return BAD;
  if (s.back() == ':' && (dbl == string::npos || dbl + 2 != s.size())) return BAD;
  auto side = [](string const &t, std::vector<unsigned> &out) {
    if (t.empty()) return true;
    string g;
    for (size_t i = 0; i <= t.size(); ++i) {
      if (i == t.size() || t[i] == ':') {
        if (g.empty() || g.size() > 4) return false;
        out.push_back(unsigned(strtoul(g.c_str(), nullptr, 16)));
        g.clear();
      } else {
        g += t[i];
      }
    }
    return true;
  };
  std::vector<unsigned> l, r;
  if (dbl == string::npos) {
    if (!side(s, l) || l.size() != 8) return BAD;
  } else {
    if (!side(s.substr(0, dbl), l) || !side(s.substr(dbl + 2), r) || l.size() + r.size() > 7) return BAD;
    while (l.size() + r.size() < 8) l.push_back(0);
    l.insert(l.end(), r.begin(), r.end());
  }
  for (unsigned q : l) v = v << 16 | q;
  return GOOD;
}
/// Address of either family.
Verdict
addr_any(string const &s, MAddr &a)
{
  string t = strip(s);
  bool dot = t.substr(0, 5).find('.') != string::npos;
  if (t.find(':') != string::npos) {
    a.fam = 6;
    return addr6(t, a.v);
  }
  a.fam     = 4;
  Verdict x = addr4(t, a.v);
  return x == GOOD && !dot ? OPEN : x; // a number alone can be for an address of that family only
}
Verdict
addr_of(string const &s, int fam, MAddr &a)
{
  a.fam = fam;
  return fam == 4 ? addr4(s, a.v) : addr6(s, a.v);
}
Verdict
both(Verdict x, Verdict y)
{
  return x == BAD || y == BAD ? BAD : x == OPEN || y == OPEN ? OPEN : GOOD;
}
Verdict
width_text(string const &s, int fam, unsigned &w)
{
  w = 0;
  if (s.empty()) return BAD;
  if (!all_of(s, "0123456789")) return all_of(s, "0123456789abcdefABCDEFxX \t\r\v\f\n+") ? OPEN : BAD;
  if (s[0] == '0' && s.size() > 1) return OPEN;
  U128 n = 0;
  for (char c : s) n = std::min<U128>(n * 10 + (c - '0'), 1 << 20);
  w = unsigned(n);
  return n <= bits(fam) ? GOOD : BAD;
}
Verdict
range_of(string const &s, int fam, Rec &r)
{
  r.what   = Rec::RANGE;
  size_t i = s.find_first_of("/-");
  if (i == string::npos) {
    Verdict x = addr_of(s, fam, r.a);
    r.b       = r.a;
    return x;
  }
  Verdict x = addr_of(s.substr(0, i), fam, r.a);
  if (i + 1 >= s.size()) return BAD;
  if (s[i] == '-') {
    x = both(x, addr_of(s.substr(i + 1), fam, r.b));
    return x == GOOD && r.b < r.a ? OPEN : x;
  }
  unsigned w;
  x = both(x, width_text(s.substr(i + 1), fam, w));
  if (x == GOOD) {
    U128 m = mask_of(fam, w);
    r.b    = {fam, r.a.v | (~m & top(fam))};
    r.a.v &= m;
  }
  return x;
}
Verdict
net_of(string const &s, int fam, Rec &r)
{
  r.what   = Rec::NET;
  size_t i = s.rfind('/');
  if (i == string::npos || i + 1 >= s.size()) return BAD;
  string m  = s.substr(i + 1);
  Verdict x = addr_of(s.substr(0, i), fam, r.a);
  Verdict y = width_text(m, fam, r.width);
  if (y != GOOD) { // not a count, then an address that is a mask
    MAddr ma;
    Verdict z = addr_of(m, fam, ma);
    if (z == GOOD && (y == BAD || y == OPEN)) {
      bool dotted = m.find_first_of(".:") != string::npos;
      unsigned w  = 0;
      while (w < bits(fam) && (ma.v >> (bits(fam) - 1 - w) & 1)) ++w;
      bool contiguous = ma.v == mask_of(fam, w);
      r.width         = w;
      y               = !dotted ? OPEN : contiguous ? GOOD : BAD;
    } else if (z == OPEN) {
      y = OPEN;
    }
  }
  x = both(x, y);
  if (x == GOOD) r.a.v &= mask_of(fam, r.width);
  return x;
}
Verdict
port_of(string const &s, unsigned &p)
{
  if (s.empty()) return OPEN;
  if (!all_of(s, "0123456789")) return BAD;
  if (s[0] == '0' && s.size() > 1) return OPEN;
  U128 n = 0;
  for (char c : s) n = std::min<U128>(n * 10 + (c - '0'), 1 << 20);
  p = unsigned(n);
  return n <= 65535 ? GOOD : BAD;
}
/// @a fam 0 for either.
Verdict
srv_of(string const &s, int fam, Rec &r)
{
  r.what = Rec::SRV;
  r.port = 0;
  for (char c : s) {
    if (space(c)) return OPEN;
  }
  if (s.empty()) return BAD;
  auto get = [&](string const &t) {
    if (!fam) return addr_any(t, r.a);
    return addr_of(t, fam, r.a);
  };
  if (s[0] == '[') {
    size_t i = s.find(']');
    if (i == string::npos) return OPEN;
    string in = s.substr(1, i - 1), rest = s.substr(i + 1);
    Verdict x = get(in);
    if (x == GOOD && r.a.fam == 4) x = OPEN;
    if (rest.empty()) return x;
    if (rest[0] != ':') return BAD;
    return both(x, port_of(rest.substr(1), r.port));
  }
  size_t n = std::count(s.begin(), s.end(), ':');
  if (n == 1) {
    size_t i  = s.find(':');
    Verdict x = get(s.substr(0, i));
    return both(x, port_of(s.substr(i + 1), r.port));
  }
  return get(s);
}

// ---------------------------------------------------------------- the simulation
constexpr char KINDS[] = "abArsRnoNpqPE"; // addresses, ranges, networks, services, endpoint

struct TextSim {
  struct Line {
    char kind;
    Rec rec;
    string text;
  };
  Run &R;
  vfs::Kernel k;
  vfs::Ino dir = 0;
  bool faults;
  swoc::MemArena arena;

  // Objects in use for a long time, with the model of what they hold.
  IP4Addr a4;
  IP6Addr a6;
  IPAddr aa;
  IP4Range r4;
  IP6Range r6;
  IPRange rr;
  IP4Net n4;
  IP6Net n6;
  IPNet nn;
  IP4Srv s4;
  IP6Srv s6;
  IPSrv ss;
  IPEndpoint ep;

  TextSim(Run &r) : R(r), k(&r), faults(r.pct(70))
  {
    dir = k.make(k.root, "data", vfs::DIRECTORY, 0755);
    R.log("%s", faults ? "storage with faults" : "storage without faults");
  }

  // ---- values
  MAddr
  any_addr(int fam)
  {
    MAddr a{fam, 0};
    unsigned w = bits(fam);
    switch (R.pick(9)) {
    case 0: a.v = 0; break;
    case 1: a.v = top(fam); break;
    case 2: a.v = R.pick(300); break;
    case 3: { // around an alignment
      a.v = U128(1) << R.pick(w);
      a.v = (a.v + R.pick(3)) - 1;
    } break;
    case 4: { // runs of zero pieces
      unsigned m = R.pick(256);
      for (unsigned i = 0; i < 8; ++i) {
        if (m >> i & 1) a.v |= U128(R.coin() ? R.pick(65536) : R.pick(16) << (4 * R.pick(4))) << (16 * i);
      }
    } break;
    case 5: { // pieces at the ends
      a.v = U128(R.pick(65536)) << (w - 16) | R.pick(3);
    } break;
    case 6: {
      static uint32_t const special[] = {0x7f000001, 0x0a000000, 0xac100000, 0xc0a80101, 0xe0000001, 0xa9fe0000, 0x64400000, 0xffffff00};
      static uint64_t const high[]    = {0xfe80000000000000ull, 0xfc00000000000000ull, 0xff02000000000000ull, 0x20010db800000000ull, 0, 0xfd00123400000000ull};
      a.v = fam == 4 ? U128(special[R.pick(8)]) : U128(high[R.pick(6)]) << 64 | (R.coin() ? R.pick(5) : 0xffff00000000ull + R.bits64() % 0x100000000ull);
    } break;
    default: a.v = U128(R.bits64()) << 64 | R.bits64();
    }
    a.v &= top(fam);
    return a;
  }
  Rec
  any_rec(Rec::What what, int fam)
  {
    Rec r;
    r.what = what;
    r.a    = any_addr(fam);
    switch (what) {
    case Rec::ADDR: break;
    case Rec::RANGE: {
      switch (R.pick(4)) {
      case 0: r.b = r.a; break;
      case 1: { // network
        U128 m = mask_of(fam, R.pick(bits(fam) + 1));
        r.b    = {fam, r.a.v | (~m & top(fam))};
        r.a.v &= m;
        // off by one sometimes
        if (R.one_in(3) && r.b.v > r.a.v) r.b.v -= 1;
        if (R.one_in(5) && r.b.v > r.a.v) r.a.v += 1;
      } break;
      case 2: {
        U128 d = (U128(R.bits64()) << 64 | R.bits64()) >> R.pick(127);
        r.b    = {fam, std::min<U128>(d, top(fam) - r.a.v) + r.a.v};
      } break;
      default: r.b = any_addr(fam);
      }
      if (r.b < r.a) std::swap(r.a, r.b);
    } break;
    case Rec::NET:
      r.width = R.pick(bits(fam) + 1);
      r.a.v  &= mask_of(fam, r.width);
      break;
    case Rec::SRV: {
      static unsigned const ports[] = {0, 80, 65535, 1, 65534, 256, 255, 8080};
      r.port                        = R.coin() ? ports[R.pick(8)] : R.pick(65536);
    } break;
    }
    return r;
  }
  // ---- text made by the harness, in any documented form
  string
  own4(MAddr const &a)
  {
    unsigned v = unsigned(a.v);
    unsigned n = R.one_in(4) ? 1 + R.pick(4) : 4;
    string s;
    for (unsigned i = 0; i < n; ++i) {
      bool last  = i + 1 == n;
      unsigned x = last ? (n == 1 ? v : v & (0xffffffffu >> (8 * i))) : v >> (24 - 8 * i) & 255;
      char b[32];
      switch (R.pick(6)) {
      case 0: snprintf(b, sizeof b, "0%o", x); break;
      case 1: snprintf(b, sizeof b, R.coin() ? "0x%x" : "0x%X", x); break;
      default: snprintf(b, sizeof b, "%u", x);
      }
      s += (i ? "." : "") + string(b);
    }
    return s;
  }
  string
  own6(MAddr const &a)
  {
    unsigned q[8];
    for (int i = 0; i < 8; ++i) q[i] = unsigned(a.v >> (16 * (7 - i))) & 0xffff;
    // any run of zeros can be the compressed one
    int from = -1, to = -1;
    if (!R.one_in(4)) {
      std::vector<int> zeros;
      for (int i = 0; i < 8; ++i) {
        if (!q[i]) zeros.push_back(i);
      }
      if (!zeros.empty()) {
        from = to = zeros[R.pick(zeros.size())];
        while (from > 0 && !q[from - 1] && !R.one_in(6)) --from;
        while (to < 7 && !q[to + 1] && !R.one_in(6)) ++to;
      }
    }
    char const *fmt = R.one_in(4) ? "%04x" : R.one_in(4) ? "%X" : "%x";
    string s;
    for (int i = 0; i < 8; ++i) {
      if (from >= 0 && i >= from && i <= to) {
        if (i == from) s += "::";
        continue;
      }
      char b[8];
      snprintf(b, sizeof b, fmt, q[i]);
      if (!s.empty() && s.back() != ':') s += ':';
      s += b;
    }
    return s;
  }
  string
  own_addr(MAddr const &a)
  {
    return a.fam == 4 ? own4(a) : own6(a);
  }
  static int
  family(char kind)
  {
    return strchr("arnp", kind) ? 4 : strchr("bsoq", kind) ? 6 : 0;
  }
  static Rec::What
  what(char kind)
  {
    return strchr("abA", kind) ? Rec::ADDR : strchr("rsR", kind) ? Rec::RANGE : strchr("noN", kind) ? Rec::NET : Rec::SRV;
  }
  string
  own_text(char kind, Rec const &r)
  {
    switch (r.what) {
    case Rec::ADDR: {
      string s = own_addr(r.a);
      if (r.a.fam == 6 && R.one_in(4)) s = "[" + s + "]";
      if (R.one_in(6)) s = " " + s + (R.coin() ? "  " : "\t");
      return s;
    }
    case Rec::RANGE: {
      U128 d = r.b.v ^ r.a.v;
      if (r.a == r.b && R.coin()) return own_addr(r.a);
      if ((d & (d + 1)) == 0 && (r.a.v & d) == 0 && R.coin()) {
        unsigned w = bits(r.a.fam);
        while (d) d >>= 1, --w;
        MAddr in = r.a;
        if (R.coin()) in.v |= (U128(R.bits64()) << 64 | R.bits64()) & (r.b.v ^ r.a.v); // not the first of the network
        return own_addr(in) + "/" + std::to_string(w);
      }
      string sp = R.one_in(6) ? " " : "";
      return own_addr(r.a) + sp + "-" + sp + own_addr(r.b);
    }
    case Rec::NET: {
      MAddr in = r.a;
      if (R.one_in(3)) in.v |= (U128(R.bits64()) << 64 | R.bits64()) & top(in.fam) & ~mask_of(in.fam, r.width);
      MAddr m{in.fam, mask_of(in.fam, r.width)};
      if (R.one_in(3)) {
        string t = in.fam == 4 ? plain(m) : own6(m);
        return own_addr(in) + "/" + t;
      }
      return own_addr(in) + "/" + std::to_string(r.width);
    }
    default: {
      bool generic = strchr("PE", kind);
      string s     = r.a.fam == 6 ? own6(r.a) : generic ? plain(r.a) : own4(r.a);
      if (r.a.fam == 6 && (r.port || R.coin())) s = "[" + s + "]";
      if (r.port || R.one_in(3)) {
        if (r.a.fam == 6 && s[0] != '[') return s;
        s += ":" + std::to_string(r.port);
      }
      return s;
    }
    }
  }
  // ---- text made by the library
  template <typename... A>
  string
  render(char const *fmt, A const &...args)
  {
    // The client of an output of fixed size tries again with what it needs.
    switch (R.pick(3)) {
    case 0: {
      size_t cap = R.pick(60);
      while (true) {
        string mem(cap + 1, '#');
        size_t need = 0;
        swoc::FixedBufferWriter w(mem.data(), cap);
        R.sut([&] { w.print(TextView(fmt, strlen(fmt)), args...); });
        need = w.extent();
        if (!w.error()) return string(w.view());
        R.fault("no-space");
        if (need <= cap) R.fail("output", "an output of %zu failed although it needs %zu", cap, need);
        cap = need;
      }
    }
    case 1: {
      string s;
      R.sut([&] { swoc::bwprint(s, TextView(fmt, strlen(fmt)), args...); });
      return s;
    }
    default: {
      for (int n = 0;; ++n) {
        bool armed = faults && n < 3 && R.one_in(4);
        if (armed) R.arm_alloc(R.pick(2), false);
        string z;
        bool bad = false;
        try {
          SutScope scope;
          swoc::ArenaWriter w(arena);
          w.print(TextView(fmt, strlen(fmt)), args...);
          HostScope hs;
          z = string(w.view());
        } catch (std::bad_alloc const &) {
          bad = true;
        }
        if (R.disarm_alloc()) R.fault("alloc");
        else if (bad) R.fail("exception", "out of memory without cause");
        if (!bad) {
          if (R.one_in(4)) R.sut([&] { arena.clear(); });
          return z;
        }
      }
    }
    }
  }
  IPEndpoint
  endpoint(Rec const &r)
  {
    IPEndpoint e;
    R.sut([&] { e.assign(IPSrv(mk(r.a), in_port_t(r.port))); });
    return e;
  }
  string
  lib_text(char kind, Rec const &r)
  {
    IP4Addr x4 = mk4(r.a), y4 = mk4(r.b);
    IP6Addr x6 = mk6(r.a), y6 = mk6(r.b);
    bool four  = r.a.fam == 4;
    switch (kind) {
    case 'a': return render("{}", x4);
    case 'b': {
      static char const *f[] = {"{}", "{::=}", "{:X}", "{:x}"};
      return render(f[R.pick(4)], x6);
    }
    case 'A': return four ? render("{}", IPAddr(x4)) : render(R.coin() ? "{}" : "{::=}", IPAddr(x6));
    case 'r': return render(R.coin() ? "{}" : "{::c}", IP4Range(x4, y4));
    case 's': return render(R.coin() ? "{}" : "{::c}", IP6Range(x6, y6));
    case 'R': return four ? render(R.coin() ? "{}" : "{::c}", IPRange(x4, y4)) : render(R.coin() ? "{}" : "{::c}", IPRange(x6, y6));
    case 'n': return render("{}", IP4Net(x4, IPMask(r.width)));
    case 'o': return render(R.coin() ? "{}" : "{::=}", IP6Net(x6, IPMask(r.width)));
    case 'N': return render("{}", four ? IPNet(x4, IPMask(r.width)) : IPNet(x6, IPMask(r.width)));
    case 'p': return render("{}", IP4Srv(x4, r.port));
    case 'q': return render("{}", IP6Srv(x6, r.port));
    case 'P': return render("{}", IPSrv(mk(r.a), r.port));
    default: return render(R.coin() ? "{}" : "{::ap}", endpoint(r));
    }
  }
  Line
  any_line()
  {
    Line l;
    l.kind  = KINDS[R.pick(sizeof KINDS - 1)];
    int fam = family(l.kind);
    if (!fam) fam = R.coin() ? 4 : 6;
    l.rec  = any_rec(what(l.kind), fam);
    l.text = R.coin() ? own_text(l.kind, l.rec) : lib_text(l.kind, l.rec);
    if (l.kind == 'A' && l.rec.a.fam == 4 && strip(l.text).substr(0, 5).find('.') == string::npos) l.text = plain(l.rec.a); // those are for the type of that family
    return l;
  }

  // ---- storage
  string
  content_of(string const &path)
  {
    auto w = k.resolve(k.root, path, true);
    return !w.err && w.ino ? k.node(w.ino).text() : string();
  }
  void
  arm()
  {
    k.kinds    = 0;
    k.pct      = 0;
    k.fault_at = -1;
    k.chunk    = 0;
    k.space    = -1;
    if (!faults) return;
    k.kinds = vfs::F_SHORT | vfs::F_EINTR | vfs::F_READ | vfs::F_WRITE | vfs::F_OPEN | vfs::F_STAT | vfs::F_CLOSE | vfs::F_TRUNC;
    switch (R.pick(4)) {
    case 0: break;
    case 1: k.fault_at = 1 + R.small(20); break;
    case 2: k.pct = 5 + R.pick(30); break;
    default:
      k.kinds &= vfs::F_SHORT | vfs::F_EINTR;
      k.chunk  = 1 + R.small(400);
    }
  }
  void
  calm()
  {
    k.kinds = 0, k.pct = 0, k.fault_at = -1, k.chunk = 0, k.space = -1;
  }
  /// Write by a client that may die. What arrives is a prefix, or has lost or damaged pieces.
  string
  store(string const &path, string text)
  {
    if (faults && R.one_in(4)) {
      size_t n = text.empty() ? 0 : R.pick(text.size() + 1);
      text.resize(n);
      R.fault("torn-write");
      R.log("the writer died after %zu bytes", n);
    }
    unsigned bad = faults && R.coin() ? 1 + R.small(30) : 0;
    static char const letters[] = "0123456789abcdefx:.-/[] ,\t#ABCDEFXgG+";
    for (unsigned i = 0; i < bad && !text.empty(); ++i) {
      size_t at = R.pick(text.size());
      char c    = R.one_in(30) ? static_cast<char>(R.pick(256)) : letters[R.pick(sizeof letters - 1)];
      switch (R.pick(7)) {
      case 0: text[at] = c; break;
      case 1: text.insert(at, 1, c); break;
      case 2: text.erase(at, 1); break;
      case 3: text[at] = static_cast<char>(text[at] ^ (1 << R.pick(8))); break;
      case 4: text.insert(at, 1, text[at]); break; // twice
      case 5: {                                    // a lost piece
        size_t n = std::min<size_t>(1 + R.pick(12), text.size() - at);
        if (R.coin()) text.erase(at, n);
        else std::fill(text.begin() + at, text.begin() + at + n, '\0');
      } break;
      default: { // delivered twice
        size_t n = std::min<size_t>(1 + R.pick(8), text.size() - at);
        text.insert(at, text.substr(at, n));
      }
      }
      R.fault("damaged-byte");
    }
    auto w = k.resolve(k.root, path, true);
    if (!w.err && w.ino) {
      *(k.own(w.ino).data = std::make_shared<string>()) = text;
    } else {
      k.make(dir, path.substr(path.rfind('/') + 1), vfs::REG, 0644, text);
    }
    return text;
  }
  void
  publish(string const &a, string const &b)
  {
    for (int n = 0;; ++n) {
      std::error_code ec;
      if (n < 6) arm();
      else calm();
      bool done = false;
      swoc::file::path pa(a), pb(b);
      k.begin();
      vfs::call(k, [&] { done = swoc::file::copy(pa, pb, ec); });
      R.step();
      if (done) {
        if (ec || content_of(a) != content_of(b)) R.fail("copy", "a copy of the data reported success and differs");
        return;
      }
      if (n >= 6) R.fail("progress", "the data cannot be copied although there are no more faults, error %d", ec.value());
      R.fault("copy-failed");
    }
  }
  string
  load(string const &path)
  {
    for (int n = 0;; ++n) {
      std::error_code ec;
      if (n < 6) arm();
      else calm();
      string got;
      swoc::file::path p(path);
      k.begin();
      vfs::call(k, [&] { got = swoc::file::load(p, ec); });
      R.step();
      if (!ec) {
        if (got != content_of(path)) R.fail("load", "the data was loaded without an error and differs");
        return got;
      }
      if (n >= 6) R.fail("progress", "the data cannot be loaded although there are no more faults, error %d", ec.value());
      R.fault("load-failed");
    }
  }

  // ---- reading
  /// Get what the object of the type holds.
  template <typename T> struct Held {
    bool ok;
    Rec rec;
  };
  bool
  parse(char kind, TextView t, Rec &rec, bool &empty)
  {
    rec.what = what(kind);
    empty    = true;
    bool ok  = false;
    switch (kind) {
    case 'a':
      ok    = R.sut([&] { return a4.load(t); });
      rec.a = from(a4);
      empty = a4.is_any();
      break;
    case 'b':
      ok    = R.sut([&] { return a6.load(t); });
      rec.a = from(a6);
      empty = a6.is_any();
      break;
    case 'A':
      ok    = R.sut([&] { return aa.load(t); });
      rec.a = from(aa);
      empty = !aa.is_valid();
      break;
    case 'r':
      ok    = R.sut([&] { return r4.load(t); });
      rec.a = from(r4.min()), rec.b = from(r4.max());
      empty = r4.empty();
      break;
    case 's':
      ok    = R.sut([&] { return r6.load(t); });
      rec.a = from(r6.min()), rec.b = from(r6.max());
      empty = r6.empty();
      break;
    case 'R':
      ok    = R.sut([&] { return rr.load(t); });
      empty = rr.empty();
      if (!empty) rec.a = from(rr.min()), rec.b = from(rr.max());
      break;
    case 'n':
      ok    = R.sut([&] { return n4.load(t); });
      empty = n4.empty();
      rec.a = from(n4.min()), rec.b = from(n4.max()), rec.width = n4.mask().width();
      break;
    case 'o':
      ok    = R.sut([&] { return n6.load(t); });
      empty = n6.empty();
      rec.a = from(n6.min()), rec.b = from(n6.max()), rec.width = n6.mask().width();
      break;
    case 'N':
      ok    = R.sut([&] { return nn.load(t); });
      empty = nn.empty();
      if (!empty) rec.a = from(nn.min()), rec.b = from(nn.max()), rec.width = nn.width();
      break;
    case 'p':
      ok    = R.sut([&] { return s4.load(t); });
      rec.a = from(s4.addr()), rec.port = s4.host_order_port();
      break;
    case 'q':
      ok    = R.sut([&] { return s6.load(t); });
      rec.a = from(s6.addr()), rec.port = s6.host_order_port();
      break;
    case 'P':
      ok    = R.sut([&] { return ss.load(t); });
      rec.a = from(ss.addr()), rec.port = ss.host_order_port();
      break;
    default:
      ok       = R.sut([&] { return ep.parse(t); });
      empty    = !ep.is_valid();
      rec.a    = from(IPAddr(ep));
      rec.port = ep.host_order_port();
    }
    return ok;
  }
  static Verdict
  meaning(char kind, string const &s, Rec &r)
  {
    int fam = family(kind);
    switch (what(kind)) {
    case Rec::ADDR:
      r.what = Rec::ADDR;
      return fam ? addr_of(s, fam, r.a) : addr_any(s, r.a);
    case Rec::RANGE: return range_of(s, fam ? fam : s.find(':') != string::npos ? 6 : 4, r);
    case Rec::NET:
      if (!fam) {
        return net_of(s, s.substr(0, s.rfind('/')).find(':') != string::npos ? 6 : 4, r);
      }
      return net_of(s, fam, r);
    default:
      if (kind == 'E') {
        string t = strip(s);
        return srv_of(t, 0, r);
      }
      return srv_of(s, fam, r);
    }
  }
  void
  read_line(char kind, TextView t, string const &s)
  {
    Rec expect, got;
    bool empty;
    Verdict v = meaning(kind, s, expect);
    bool ok   = parse(kind, t, got, empty);
    R.count(v == GOOD ? "texts of a value" : v == BAD ? "texts of no value" : "texts without a verdict");
    R.state(mix(mix(kind, v), mix(ok, s.size())));
    if (v == GOOD && !ok) R.fail("rejected", "'%c' \"%s\" is %s and was not accepted", kind, esc(s).c_str(), expect.text().c_str());
    if (v == BAD && ok) R.fail("accepted", "'%c' \"%s\" is not valid and was accepted as %s", kind, esc(s).c_str(), got.text().c_str());
    if (v == GOOD) {
      if (!(got == expect)) R.fail("value", "'%c' \"%s\" was read as %s instead of %s", kind, esc(s).c_str(), got.text().c_str(), expect.text().c_str());
      if (expect.what == Rec::NET && got.b.v != (expect.a.v | (~mask_of(expect.a.fam, expect.width) & top(expect.a.fam))))
        R.fail("value", "'%c' \"%s\" has the last address %s", kind, esc(s).c_str(), plain(got.b).c_str());
    }
    if (!ok && !empty && what(kind) != Rec::SRV) R.fail("stale", "'%c' \"%s\" was not accepted and the object holds %s", kind, esc(s).c_str(), got.text().c_str());
    if (!ok && !empty && kind == 'E') R.fail("stale", "\"%s\" was not accepted and the endpoint holds %s", esc(s).c_str(), got.text().c_str());
    // The text and nothing else decides.
    if (R.one_in(3)) {
      string around = string("7.:f/-0]")[R.pick(8)] + s + "09af:./-]"[R.pick(9)];
      Rec again;
      bool e2;
      bool ok2 = parse(kind, TextView(around.data() + 1, s.size()), again, e2);
      if (ok2 != ok || e2 != empty || (ok && !(again == got)))
        R.fail("outside", "'%c' \"%s\" gives %s with other text around it", kind, esc(s).c_str(), ok2 ? again.text().c_str() : "nothing");
      auto ctor = [&](auto const &x, auto const &y) {
        if (ok && !(x == y)) R.fail("constructor", "'%c' \"%s\" constructs another value", kind, esc(s).c_str());
      };
      switch (kind) {
      case 'a': ctor(R.sut([&] { return IP4Addr(t); }), a4); break;
      case 'b': ctor(R.sut([&] { return IP6Addr(t); }), a6); break;
      case 'A': ctor(R.sut([&] { return IPAddr(t); }), aa); break;
      case 'r': ctor(R.sut([&] { return IP4Range(t); }), r4); break;
      case 's': ctor(R.sut([&] { return IP6Range(t); }), r6); break;
      case 'R': ctor(R.sut([&] { return IPRange(t); }), rr); break;
      case 'n': ctor(R.sut([&] { return IP4Net(t); }), n4); break;
      case 'o': ctor(R.sut([&] { return IP6Net(t); }), n6); break;
      case 'N': ctor(R.sut([&] { return IPNet(t); }), nn); break;
      case 'p': ctor(R.sut([&] { return IP4Srv(t); }), s4); break;
      case 'q': ctor(R.sut([&] { return IP6Srv(t); }), s6); break;
      }
    }
  }
  void
  round()
  {
    std::vector<Line> lines;
    string text;
    while (R.more(8, 40)) {
      Line l = any_line();
      R.log("%c %s as \"%s\"", l.kind, l.rec.text().c_str(), esc(l.text).c_str());
      Rec r;
      Verdict v = meaning(l.kind, l.text, r);
      if (v != GOOD || !(r == l.rec)) R.fail("rendering", "'%c' %s was written as \"%s\"", l.kind, l.rec.text().c_str(), esc(l.text).c_str());
      text += l.kind + string(",") + l.text + "\n";
      lines.push_back(std::move(l));
    }
    string in_store = store("/data/draft", text);
    string path     = "/data/draft";
    if (R.coin()) {
      publish("/data/draft", "/data/live");
      path = "/data/live";
    }
    string got = load(path);
    if (got != in_store) R.fail("storage", "the storage lost data"); // harness
    // Split by the library and by the harness.
    TextView rest(got);
    size_t at = 0, n = 0;
    std::set<IPAddr> sorted;
    std::set<MAddr> model;
    while (!rest.empty()) {
      TextView line = R.sut([&] { return rest.take_prefix_at('\n'); });
      size_t end    = got.find('\n', at);
      string s      = got.substr(at, end == string::npos ? string::npos : end - at);
      if (string(line.data(), line.size()) != s || line.data() != got.data() + at) R.fail("split", "line %zu is \"%s\" instead of \"%s\"", n, esc(string(line)).c_str(), esc(s).c_str());
      at = end == string::npos ? got.size() : end + 1;
      if (size_t(rest.data() - got.data()) != at && !rest.empty()) R.fail("split", "after line %zu the rest begins at %zu instead of %zu", n, size_t(rest.data() - got.data()), at);
      size_t comma = s.find(',');
      TextView tag = R.sut([&] { return line.take_prefix_at(','); });
      string mine  = comma == string::npos ? s : s.substr(0, comma);
      string value = comma == string::npos ? "" : s.substr(comma + 1);
      if (string(tag) != mine || string(line) != value) R.fail("split", "\"%s\" was split in \"%s\" and \"%s\"", esc(s).c_str(), esc(string(tag)).c_str(), esc(string(line)).c_str());
      char kind = mine.size() == 1 && strchr(KINDS, mine[0]) && mine[0] ? mine[0] : KINDS[R.pick(sizeof KINDS - 1)];
      read_line(kind, line, value);
      if (kind == 'A' && aa.is_valid()) {
        MAddr m = from(aa);
        R.sut([&] { sorted.insert(aa); });
        model.insert(m);
      }
      ++n;
      R.step();
    }
    if (at != got.size()) R.fail("split", "text is left after the last line");
    // An ordered collection holds each once, in order.
    if (sorted.size() != model.size()) R.fail("order", "%zu different addresses are %zu in an ordered set", model.size(), sorted.size());
    auto spot = model.begin();
    for (auto const &a : sorted) {
      if (from(a) != *spot) R.fail("order", "the ordered set has %s where %s is expected", plain(from(a)).c_str(), plain(*spot).c_str());
      ++spot;
    }
    R.nontrivial();
  }
  // ---- socket addresses: objects used for different families and ports in turn
  /// Objects of different types that are equal, or not, or in order: in all combinations and both directions.
  template <typename X, typename Y>
  void
  same(X const &x, Y const &y, bool eq, char const *what, MAddr const &a, MAddr const &b)
  {
    bool v[4];
    R.sut([&] { v[0] = x == y, v[1] = y == x, v[2] = x != y, v[3] = y != x; });
    if (v[0] != eq || v[1] != eq || v[2] == eq || v[3] == eq)
      R.fail("equality", "%s: %s and %s are%s equal but == is %d and %d, != is %d and %d", what, plain(a).c_str(), plain(b).c_str(), eq ? "" : " not", v[0], v[1], v[2], v[3]);
  }
  /// Across families only the claim of the wrong order counts (IPv4 before IPv6).
  template <typename X, typename Y>
  void
  ordered(X const &x, Y const &y, int c, bool families, char const *what, MAddr const &a, MAddr const &b)
  {
    bool v[8];
    R.sut([&] { v[0] = x < y, v[1] = x <= y, v[2] = x > y, v[3] = x >= y, v[4] = y < x, v[5] = y <= x, v[6] = y > x, v[7] = y >= x; });
    bool w[8] = {c < 0, c <= 0, c > 0, c >= 0, c > 0, c >= 0, c < 0, c <= 0};
    for (int i = 0; i < 8; ++i) {
      if (families ? v[i] && !w[i] : v[i] != w[i]) {
        static char const *n[] = {"<", "<=", ">", ">=", "reversed <", "reversed <=", "reversed >", "reversed >="};
        R.fail("order", "%s: %s %s %s is %d", what, plain(a).c_str(), n[i], plain(b).c_str(), v[i]);
      }
    }
  }
  void
  related(MAddr const &e, unsigned ep_port, bool ep_valid, MAddr const &s, unsigned port, bool valid)
  {
    MAddr o = valid && R.coin() ? s : ep_valid && R.coin() ? e : any_addr(R.coin() ? 4 : 6);
    if (R.one_in(3)) o.v = (o.v + 1) & top(o.fam);
    else if (R.one_in(4)) o.v = (o.v - 1) & top(o.fam);
    if (R.one_in(5)) o = o.fam == 4 ? MAddr{6, o.v} : MAddr{4, o.v & top(4)};
    unsigned q = R.coin() ? port : R.coin() ? port ^ 1 : R.pick(65536);
    IP4Addr o4 = mk4(o);
    IP6Addr o6 = mk6(o);
    IPAddr og  = mk(o);
    IP4Srv q4(o4, q);
    IP6Srv q6(o6, q);
    bool four = o.fam == 4;
    { // addresses
      MAddr g    = valid && R.coin() ? s : o;
      IPAddr x   = mk(g);
      bool eq    = g == o;
      auto const w = "generic and specific address";
      same(x, o4, g.fam == 4 && g.v == (o.v & top(4)), w, g, o);
      same(x, o6, g.fam == 6 && g.v == o.v, w, g, o);
      same(x, og, eq, "generic addresses", g, o);
      IPAddr none;
      same(none, o4, false, "no address", g, o);
      same(none, o6, false, "no address", g, o);
      same(none, og, false, "no address", g, o);
      same(none, IPAddr(), true, "no address", g, o);
    }
    if (ep_valid) { // the endpoint is a socket address, too
      sockaddr const *sa = &ep.sa;
      same(og, sa, e == o, "address and socket address", o, e);
      same(og, ep, e == o, "address and endpoint", o, e);
    }
    { // services
      bool eq = valid && s == o;
      int c   = s.fam != o.fam ? s.fam - o.fam : s.v != o.v ? (s.v < o.v ? -1 : 1) : int(port) - int(q);
      if (four) {
        same(ss, q4, eq && port == q, "services", s, o);
        same(ss, o4, eq, "service and address", s, o);
        if (valid) ordered(ss, q4, c, s.fam != 4, "services", s, o);
        same(q4, o4, true, "IPv4 service and its address", o, o);
        if (valid && s.fam == 4) {
          IP4Srv const &x = ss.ip4();
          same(x, q4, eq && port == q, "IPv4 services", s, o);
          ordered(x, q4, c, false, "IPv4 services", s, o);
        }
      } else {
        same(ss, q6, eq && port == q, "services", s, o);
        same(ss, o6, eq, "service and address", s, o);
        if (valid) ordered(ss, q6, c, s.fam != 6, "services", s, o);
        same(q6, o6, true, "IPv6 service and its address", o, o);
        if (valid && s.fam == 6) {
          IP6Srv const &x = ss.ip6();
          same(x, q6, eq && port == q, "IPv6 services", s, o);
          ordered(x, q6, c, false, "IPv6 services", s, o);
        }
      }
    }
    { // networks
      unsigned w = R.pick(bits(o.fam) + 1), u = R.coin() ? w : R.pick(bits(o.fam) + 1);
      MAddr t    = R.coin() ? o : R.coin() ? s : any_addr(o.fam);
      bool mate  = (valid || t != s) && t.fam == o.fam;
      if (!mate) t = o;
      if (R.coin()) t.v ^= top(t.fam) ^ mask_of(t.fam, R.pick(bits(t.fam) + 1)), t.v &= top(t.fam);
      MAddr n{o.fam, o.v & mask_of(o.fam, w)}, m{t.fam, t.v & mask_of(t.fam, u)};
      bool eq = n == m && w == u;
      IPMask mw(w), mu(u);
      IPNet gx(mk(o), mw), gy(mk(t), mu);
      if ((mw == mu) != (w == u) || (mw != mu) == (w == u) || (mw < mu) != (w < u) || (mu < mw) != (u < w)) R.fail("order", "the masks %u and %u are in the wrong order", w, u);
      if (four) {
        IP4Net x(o4, mw), y(mk4(t), mu);
        same(x, y, eq, "IPv4 networks", n, m);
        crossed(gx, y, eq, n, m);
        crossed(gy, x, eq, n, m);
        crossed(IPNet(), x, false, n, m);
        if (gx == IP6Net(o6, mw) || IP6Net(o6, mw) == gx) R.fail("equality", "an IPv4 network is equal to an IPv6 network");
        if ((gx == gy) != eq || (gx != gy) == eq) R.fail("equality", "whether the networks %s/%u and %s/%u are equal is wrong", plain(n).c_str(), w, plain(m).c_str(), u);
      } else {
        IP6Net x(o6, mw), y(mk6(t), mu);
        same(x, y, eq, "IPv6 networks", n, m);
        crossed(gx, y, eq, n, m);
        crossed(gy, x, eq, n, m);
        crossed(IPNet(), x, false, n, m);
        if (w <= 32 && (gx == IP4Net(o4, mw) || IP4Net(o4, mw) == gx)) R.fail("equality", "an IPv6 network is equal to an IPv4 network");
        if ((gx == gy) != eq || (gx != gy) == eq) R.fail("equality", "whether the networks %s/%u and %s/%u are equal is wrong", plain(n).c_str(), w, plain(m).c_str(), u);
      }
    }
  }
  template <typename Y>
  void
  crossed(IPNet const &x, Y const &y, bool eq, MAddr const &a, MAddr const &b)
  {
    bool v[2];
    R.sut([&] { v[0] = x == y, v[1] = y == x; });
    if (v[0] != eq || v[1] != eq) R.fail("equality", "generic and specific network: %s and %s are%s equal but == is %d and %d", plain(a).c_str(), plain(b).c_str(), eq ? "" : " not", v[0], v[1]);
  }
  void
  registers()
  {
    struct {
      MAddr a;
      unsigned port = 0;
      bool valid    = false;
    } me, ms, ma, m4, m6; // endpoint, service, address, family specific services
    IPAddr ad;
    IP4Srv s4;
    IP6Srv s6;
    m4 = {MAddr{4, 0}, 0, true}, m6 = {MAddr{6, 0}, 0, true};
    union {
      sockaddr sa;
      sockaddr_in s4;
      sockaddr_in6 s6;
    } raw;
    ep.invalidate();
    ss          = IPSrv();
    auto socket = [&](MAddr const &a, unsigned port) {
      memset(&raw, R.coin() ? 0 : 0xa5, sizeof raw);
      if (a.fam == 4) {
        raw.s4.sin_family      = AF_INET;
        raw.s4.sin_port        = htons(port);
        raw.s4.sin_addr.s_addr = htonl(uint32_t(a.v));
      } else {
        raw.s6.sin6_family   = AF_INET6;
        raw.s6.sin6_port     = htons(port);
        raw.s6.sin6_addr     = raw6(a);
        raw.s6.sin6_scope_id = 3;
      }
    };
    auto compare = [&](char const *op) {
      IPEndpoint const &ce = ep;
      if (ep.is_valid() != me.valid || (me.valid && (ep.family() != (me.a.fam == 4 ? AF_INET : AF_INET6) || from(IPAddr(ep)) != me.a || ep.host_order_port() != me.port ||
                                                     ep.network_order_port() != htons(me.port)))) {
        R.fail("endpoint", "after %s the endpoint is %s port %u instead of %s port %u", op, plain(from(IPAddr(ep))).c_str(), ep.host_order_port(), plain(me.a).c_str(), me.port);
      }
      if (me.valid) {
        in6_addr r6 = raw6(me.a);
        uint32_t r4 = htonl(uint32_t(me.a.v));
        auto span   = ep.raw_addr();
        if (span.size() != (me.a.fam == 4 ? 4u : 16u) || memcmp(span.data(), me.a.fam == 4 ? (void *)&r4 : (void *)&r6, span.size())) R.fail("endpoint", "after %s the bytes of the address differ", op);
        if ((ep.ip4() != nullptr) != (me.a.fam == 4) || (ep.ip6() != nullptr) != (me.a.fam == 6) || (ce.ip4() != nullptr) != (me.a.fam == 4) || (ce.ip6() != nullptr) != (me.a.fam == 6))
          R.fail("endpoint", "after %s the family access is wrong", op);
        if (ep.size() != (me.a.fam == 4 ? sizeof(sockaddr_in) : sizeof(sockaddr_in6))) R.fail("endpoint", "after %s the size is wrong", op);
        if (!class_is(IPAddr(ep), me.a) || (me.a.fam == 4 ? !class_is(mk4(me.a), me.a) : !class_is(mk6(me.a), me.a)) || !class_is(ep, me.a))
          R.fail("class", "after %s the endpoint or its address %s is taken for another kind", op, plain(me.a).c_str());
        if (!(IPAddr(ep) == &ep.sa)) R.fail("endpoint", "after %s the address of the endpoint is not equal to it", op);
      }
      if (ss.is_valid() != ms.valid || (ms.valid && (from(ss.addr()) != ms.a || ss.host_order_port() != ms.port || ss.network_order_port() != htons(ms.port)))) {
        R.fail("service", "after %s the service is %s port %u instead of %s port %u", op, plain(from(ss.addr())).c_str(), ss.host_order_port(), plain(ms.a).c_str(), ms.port);
      }
      if (ms.valid && (ss.is_ip4() != (ms.a.fam == 4) || ss.is_ip6() != (ms.a.fam == 6))) R.fail("service", "after %s the family is wrong", op);
      IPAddr const &ca = ad;
      if (ad.is_valid() != ma.valid || ad.is_ip4() != (ma.valid && ma.a.fam == 4) || ad.is_ip6() != (ma.valid && ma.a.fam == 6) || (ma.valid && from(ad) != ma.a) ||
          ad.family() != (!ma.valid ? AF_UNSPEC : ma.a.fam == 4 ? AF_INET : AF_INET6))
        R.fail("address", "after %s the address is %s instead of %s", op, plain(from(ad)).c_str(), ma.valid ? plain(ma.a).c_str() : "invalid");
      if (ma.valid && (ma.a.fam == 4 ? IP4Addr(ca) != mk4(ma.a) : IP6Addr(ca) != mk6(ma.a))) R.fail("address", "after %s the address in its family differs", op);
      if (!ma.valid && (!(ad == IPAddr::INVALID) || ad != IPAddr() || class_any(ad))) R.fail("address", "after %s the invalid address is not like another one", op);
      if (from(s4.addr()) != m4.a || s4.host_order_port() != m4.port || s4.network_order_port() != htons(m4.port) || s4.family() != AF_INET || static_cast<IP4Addr const &>(s4) != s4.addr())
        R.fail("service", "after %s the IPv4 service is %s port %u instead of %s port %u", op, plain(from(s4.addr())).c_str(), s4.host_order_port(), plain(m4.a).c_str(), m4.port);
      if (from(s6.addr()) != m6.a || s6.host_order_port() != m6.port || s6.network_order_port() != htons(m6.port) || s6.family() != AF_INET6 || static_cast<IP6Addr const &>(s6) != s6.addr())
        R.fail("service", "after %s the IPv6 service is %s port %u instead of %s port %u", op, plain(from(s6.addr())).c_str(), s6.host_order_port(), plain(m6.a).c_str(), m6.port);
      { // the same through the socket address
        sockaddr const *q = ce;
        size_t size       = !me.valid ? sizeof(sockaddr) : me.a.fam == 4 ? sizeof(sockaddr_in) : sizeof(sockaddr_in6);
        unsigned port     = me.valid ? me.port : 0;
        if (q != &ep.sa || static_cast<sockaddr *>(ep) != &ep.sa || IPEndpoint::is_valid(q) != me.valid || IPEndpoint::host_order_port(q) != port || IPEndpoint::network_order_port(q) != htons(port) ||
            ep.sa_size() != size || IPEndpoint::sa_size(q) != size || ep.is_ip4() != (me.valid && me.a.fam == 4) || ep.is_ip6() != (me.valid && me.a.fam == 6))
          R.fail("socket", "after %s the endpoint as a socket address differs", op);
        if (me.valid && IPEndpoint::port(&ep.sa) != htons(port)) R.fail("socket", "after %s the port in the socket address differs", op);
        if (IPEndpoint::is_link_local(q) != ep.is_link_local() || IPEndpoint::is_private(q) != ep.is_private() || IPEndpoint::is_multicast(q) != ep.is_multicast()) R.fail("class", "after %s the kind of the socket address differs", op);
        if (ep.is_any() != (me.valid && me.a.v == 0) || ep.is_loopback() != (me.valid && IPAddr(ep).is_loopback())) R.fail("class", "after %s whether the endpoint is \"any\" or loopback is wrong", op);
        if (!me.valid && (ep.size() != sizeof(sockaddr) || ep.raw_addr().size() || class_any(IPAddr(ep)) || IPAddr(ep).is_valid())) R.fail("endpoint", "after %s the cleared endpoint has an address", op);
      }
      related(me.a, me.port, me.valid, ms.a, ms.port, ms.valid);
      { // order with addresses that may be invalid
        IPAddr e(ep);
        int want  = !ma.valid || !me.valid ? ma.valid - me.valid : ma.a.fam != me.a.fam ? (ma.a.fam == 4 ? -1 : 1) : ma.a.v < me.a.v ? -1 : ma.a.v > me.a.v;
        int got   = ca.cmp(e);
        bool same = ma.valid && me.valid && ma.a.fam == me.a.fam;
        if ((got > 0) - (got < 0) != want) R.fail("order", "after %s comparing the addresses gives %d instead of %d", op, got, want);
        if ((ca < e) != (want < 0) || (ca > e) != (want > 0) || (ca <= e) != (want <= 0) || (ca >= e) != (want >= 0)) R.fail("order", "after %s the order of the addresses is wrong", op);
        if ((ca == e) != (want == 0) || (ca != e) != (want != 0)) R.fail("order", "after %s the equality of the addresses is wrong", op);
        if (ad.is_same_family(e) != same) R.fail("address", "after %s whether the families are the same is wrong", op);
        if (want == 0 && std::hash<IPAddr>()(ca) != std::hash<IPAddr>()(e)) R.fail("hash", "after %s the same address has two hash values", op);
        if (same && want == 0 && ma.a.fam == 4 && std::hash<IP4Addr>()(ca.ip4()) != std::hash<IP4Addr>()(mk4(me.a))) R.fail("hash", "after %s the same address has two hash values", op);
        if (same && want == 0 && ma.a.fam == 6 && std::hash<IP6Addr>()(ca.ip6()) != std::hash<IP6Addr>()(mk6(me.a))) R.fail("hash", "after %s the same address has two hash values", op);
      }
    };
    while (R.more(10, 40)) {
      MAddr a    = any_addr(R.coin() ? 4 : 6);
      unsigned p = R.coin() ? R.pick(65536) : R.pick(3);
      char const *op = "";
      switch (R.pick(30)) {
      case 0:
        op = "assigning an address to the endpoint";
        R.sut([&] { R.coin() ? ep.assign(mk(a)) : a.fam == 4 ? ep.assign(mk4(a)) : ep.assign(mk6(a)); });
        me = {a, 0, true};
        break;
      case 15:
        op = "setting the endpoint to \"any\"";
        R.sut([&] { ep.set_to_any(a.fam == 4 ? AF_INET : AF_INET6); });
        me = {MAddr{a.fam, 0}, 0, true};
        break;
      case 16:
        op = "setting the endpoint to loopback";
        R.sut([&] { ep.set_to_loopback(a.fam == 4 ? AF_INET : AF_INET6); });
        me = {MAddr{a.fam, a.fam == 4 ? 0x7f000001u : 1u}, 0, true};
        break;
      case 17:
        op = "assigning a specific socket address to the endpoint";
        socket(a, p);
        R.sut([&] { a.fam == 4 ? ep.assign(&raw.s4) : ep.assign(&raw.s6); });
        me = {a, p, true};
        break;
      case 18: {
        op = "constructing an endpoint";
        IPEndpoint *e = nullptr;
        alignas(IPEndpoint) char room[sizeof(IPEndpoint)];
        int how    = R.pick(4);
        bool from_ = R.pct(70);
        memset(room, 0, sizeof room);
        reinterpret_cast<sockaddr *>(room)->sa_family = R.coin() ? AF_INET : AF_INET6; // left from before
        asm volatile("" : : "r"(room) : "memory");
        Rec r{Rec::SRV, a, a, 0, p};
        string t = R.coin() ? lib_text('E', r) : own_text('E', r);
        socket(a, p);
        if (!from_) raw.sa.sa_family = AF_UNSPEC, t.insert(0, "x");
        R.sut([&] {
          switch (how) {
          case 0: e = new (room) IPEndpoint(from_ ? mk(a) : IPAddr()); break;
          case 1: e = new (room) IPEndpoint(from_ ? IPSrv(mk(a), p) : IPSrv()); break;
          case 2: e = new (room) IPEndpoint(static_cast<sockaddr const *>(&raw.sa)); break;
          default: e = new (room) IPEndpoint(std::string_view(t));
          }
        });
        if (e->is_valid() != from_) R.fail("endpoint", "the endpoint constructed from %s is %s", from_ ? plain(a).c_str() : "nothing valid", e->is_valid() ? "valid" : "not valid");
        R.sut([&] { ep = *e; });
        me = {a, how ? p : 0, from_};
      } break;
      case 19:
        op = "assigning the socket address of the endpoint to itself";
        if (R.sut([&] { return IPEndpoint::assign(&ep.sa, &ep.sa); }) != me.valid) R.fail("endpoint", "whether the endpoint assigned to itself is valid is wrong");
        break;
      case 20:
        op = "assigning a number to the address";
        R.sut([&] {
          in6_addr r6 = raw6(a);
          in_addr_t r4 = in_addr_t(a.v);
          // a raw address is in network order, except for the constructor
          if (a.fam == 4) R.coin() ? ad = htonl(r4) : R.coin() ? ad.assign(htonl(r4)) : ad = IPAddr(r4);
          else R.coin() ? ad = r6 : R.coin() ? ad.assign(r6) : ad = IPAddr(r6);
        });
        ma = {a, 0, true};
        break;
      case 21: {
        op      = "assigning a socket address to the address";
        bool ok = R.pct(70);
        socket(a, p);
        if (!ok) raw.sa.sa_family = AF_UNIX;
        R.sut([&] {
          sockaddr const *q = ok || R.coin() ? &raw.sa : nullptr;
          switch (R.pick(4)) {
          case 0: ad = q; break;
          case 1: ad.assign(q); break;
          case 2: ad = IPAddr(q); break;
          default:
            if (a.fam == 4) ad.assign(ok ? &raw.s4 : nullptr);
            else ad.assign(ok ? &raw.s6 : nullptr);
          }
        });
        ma = {a, 0, ok};
      } break;
      case 22:
        op = "assigning the endpoint to the address";
        R.sut([&] { R.coin() ? ad = ep : ad = IPAddr(ep); });
        ma = {me.a, 0, me.valid};
        break;
      case 23:
        op = "clearing the address";
        R.sut([&] { ad.invalidate(); });
        ma.valid = false;
        break;
      case 24:
        op = "assigning to the specific services";
        socket(a, p);
        R.sut([&] {
          if (a.fam == 4) {
            R.coin() ? s4.assign(mk4(a), p) : R.coin() ? s4.assign(&raw.s4) : s4 = R.coin() ? IP4Srv(&raw.s4) : IP4Srv(IPSrv(mk4(a), p));
          } else {
            R.coin() ? s6.assign(mk6(a), p) : R.coin() ? s6.assign(&raw.s6) : s6 = R.coin() ? IP6Srv(&raw.s6) : IP6Srv(IPSrv(mk6(a), p));
          }
        });
        (a.fam == 4 ? m4 : m6) = {a, p, true};
        break;
      case 25:
        op = "assigning parts of the specific services";
        if (R.coin()) {
          R.sut([&] { a.fam == 4 ? (void)s4.assign(mk4(a)) : (void)s6.assign(mk6(a)); });
          (a.fam == 4 ? m4 : m6).a = a;
        } else {
          R.sut([&] { a.fam == 4 ? (void)s4.assign(in_port_t(p)) : (void)s6.assign(in_port_t(p)); });
          (a.fam == 4 ? m4 : m6).port = p;
        }
        break;
      case 26: // the other family gives the default
        op = "assigning the service to the specific services";
        R.sut([&] { s4 = IP4Srv(ss), s6 = IP6Srv(ss); });
        m4 = ms.valid && ms.a.fam == 4 ? ms : decltype(ms){MAddr{4, 0}, 0, true};
        m6 = ms.valid && ms.a.fam == 6 ? ms : decltype(ms){MAddr{6, 0}, 0, true};
        break;
      case 27:
        op = "assigning a specific service to the service";
        R.sut([&] { a.fam == 4 ? ss = s4 : ss = s6; });
        ms = a.fam == 4 ? m4 : m6;
        break;
      case 28:
        op = "constructing a service";
        socket(a, p);
        R.sut([&] {
          switch (R.pick(6)) {
          case 0: a.fam == 4 ? ss = IPSrv(mk4(a), p) : ss = IPSrv(mk6(a), p); break;
          case 1: a.fam == 4 ? ss = IPSrv(&raw.s4) : ss = IPSrv(&raw.s6); break;
          case 2: ss = IPSrv(&raw.sa); break;
          case 3: ss = &raw.sa; break;
          case 4: a.fam == 4 ? ss = &raw.s4 : ss = &raw.s6; break;
          default: ss = IPSrv(mk(a), p);
          }
        });
        ms = {a, p, true};
        break;
      case 29: // ignored unless valid
        op = "assigning something invalid to the service";
        socket(a, p);
        raw.sa.sa_family = AF_UNSPEC;
        R.sut([&] { R.coin() ? ss.assign(&raw.sa) : R.coin() ? ss.assign(IPAddr()) : ss.assign(IPAddr(), in_port_t(p)); });
        break;
      case 1:
        op = "assigning a service to the endpoint";
        R.sut([&] { ep.assign(IPSrv(mk(a), p)); });
        me = {a, p, true};
        break;
      case 2:
        op = "assigning a family specific service to the endpoint";
        R.sut([&] { a.fam == 4 ? ep.assign(IP4Srv(mk4(a), p)) : ep.assign(IP6Srv(mk6(a), p)); });
        me = {a, p, true};
        break;
      case 3:
        op = "assigning a socket address to the endpoint";
        socket(a, p);
        R.sut([&] { ep.assign(&raw.sa); });
        me = {a, p, true};
        break;
      case 4:
        op = "clearing the endpoint";
        R.sut([&] { ep.invalidate(); });
        me.valid = false;
        break;
      case 5:
        op = "copying the endpoint";
        R.sut([&] {
          IPEndpoint e(ep);
          ep.invalidate();
          ep = e;
        });
        break;
      case 6:
        op = "assigning the endpoint to the service";
        if (me.valid) {
          R.sut([&] { R.coin() ? ss = IPSrv(ep) : ss.assign(&ep.sa); });
          ms = {me.a, me.port, true};
        }
        break;
      case 7:
        op = "assigning an address to the service"; // the port stays
        R.sut([&] { R.coin() ? ss.assign(mk(a)) : a.fam == 4 ? ss.assign(mk4(a)) : ss.assign(mk6(a)); });
        ms = {a, ms.valid ? ms.port : 0, true};
        break;
      case 8:
        op = "assigning a port to the service";
        R.sut([&] { ss.assign(in_port_t(p)); });
        if (ms.valid) ms.port = p;
        break;
      case 9:
        op = "assigning an address and port to the service";
        R.sut([&] { R.coin() ? ss.assign(mk(a), p) : a.fam == 4 ? ss.assign(mk4(a), p) : ss.assign(mk6(a), p); });
        ms = {a, p, true};
        break;
      case 10:
        op = "assigning a socket address to the service";
        socket(a, p);
        R.sut([&] { R.coin() ? ss.assign(&raw.sa) : a.fam == 4 ? ss.assign(&raw.s4) : ss.assign(&raw.s6); });
        ms = {a, p, true};
        break;
      case 11:
        op = "assigning a family specific service to the service";
        R.sut([&] { a.fam == 4 ? ss = IP4Srv(mk4(a), p) : ss = IP6Srv(mk6(a), p); });
        ms = {a, p, true};
        break;
      case 12:
        op = "copying to a socket address";
        if (me.valid) {
          memset(&raw, 0x5a, sizeof raw);
          R.sut([&] { ep.copy_to(&raw.sa); });
          if (memcmp(&raw, &ep, ep.size())) R.fail("endpoint", "the copy of the endpoint differs");
        }
        break;
      case 13: {
        op = "copying an address to a socket address";
        memset(&raw, 0x5a, sizeof raw);
        R.sut([&] { mk(a).copy_to(&raw.sa); });
        MAddr z = raw.sa.sa_family == AF_INET ? MAddr{4, ntohl(raw.s4.sin_addr.s_addr)} : raw.sa.sa_family == AF_INET6 ? MAddr{6, num6(raw.s6.sin6_addr)} : MAddr{0, 0};
        if (z != a) R.fail("socket", "%s was copied as %s", plain(a).c_str(), plain(z).c_str());
        IPAddr back(&raw.sa);
        if (from(back) != a) R.fail("socket", "%s came back as %s", plain(a).c_str(), plain(from(back)).c_str());
      } break;
      default: {
        op         = "parsing in the endpoint";
        Rec r      = any_rec(Rec::SRV, a.fam);
        string t   = R.coin() ? lib_text('E', r) : own_text('E', r);
        bool ok    = R.sut([&] { return ep.parse(t); });
        me         = {r.a, r.port, true};
        if (!ok) R.fail("rejected", "the endpoint did not accept \"%s\"", esc(t).c_str());
      }
      }
      R.log("%s: %s port %u", op, plain(a).c_str(), p);
      compare(op);
      R.step();
    }
    R.nontrivial();
  }
  // ---- the documented forms of output
  static string
  padded(string s, size_t width, char fill)
  {
    return s.size() < width ? string(width - s.size(), fill) + s : s;
  }
  /// @a pad is the fill character inside the address, 0 if there is none.
  static string
  picture(MAddr const &a, char type, char pad)
  {
    string z;
    char b[16];
    if (a.fam == 4) {
      for (int i = 3; i >= 0; --i) {
        snprintf(b, sizeof b, type == 'x' ? "%x" : type == 'X' ? "%X" : "%u", unsigned(a.v >> (8 * i)) & 255);
        z += padded(b, pad ? 3 : 0, pad) + (i ? "." : "");
      }
      return z;
    }
    string q[8];
    int from = -1, to = -1; // longest run of zeros, the first one
    for (int i = 0; i < 8; ++i) {
      unsigned x = unsigned(a.v >> (16 * (7 - i))) & 0xffff;
      snprintf(b, sizeof b, type == 'X' ? "%X" : "%x", x);
      q[i] = padded(b, pad ? 4 : 0, pad);
    }
    if (!pad) {
      for (int i = 0, k; i < 8; i = k + 1) {
        for (k = i; k < 8 && q[k] == "0"; ++k)
          ;
        if (k - i > 1 && k - i > to - from) from = i, to = k;
      }
    }
    for (int i = 0; i < 8; ++i) {
      if (i == from) z += "::", i = to - 1;
      else z += q[i] + (i < 7 && i + 1 != from ? ":" : "");
    }
    return z;
  }
  void
  pictures()
  {
    while (R.more(12, 40)) {
      MAddr a    = any_addr(R.coin() ? 4 : 6);
      bool four  = a.fam == 4;
      int kind   = R.pick(12);
      bool sock  = kind <= 1;
      char type  = R.one_in(3) ? "dxX"[R.pick(3)] : 0;
      if (!four && type == 'd') type = 0;
      string inner, ext, spec, want;
      char pad   = 0;
      if (R.coin()) {
        static char const pads[] = "0 *_";
        pad   = pads[R.pick(4)];
        inner = pad == '0' && R.coin() ? "=" : string(1, pad) + "=";
      }
      // what is shown of it
      bool show_a = true, show_p = sock, show_f = false;
      if (kind <= 3 && R.coin()) {
        show_a = R.coin(), show_p = R.coin(), show_f = R.coin();
        if (!show_a && !show_p && !show_f) show_a = true;
        std::vector<char> c;
        if (show_a) c.push_back(R.coin() ? 'a' : 'A');
        if (show_p) c.push_back(R.coin() ? 'p' : 'P');
        if (show_f) c.push_back(R.coin() ? 'f' : 'F');
        while (!c.empty()) {
          size_t i = R.pick(c.size());
          ext     += c[i];
          c.erase(c.begin() + i);
        }
        if (!sock) show_p = false;
      }
      if ((show_f || show_p) && (type == 'x' || type == 'X')) type = 0;
      size_t min = 0;
      char fill  = ' ';
      bool right = false;
      if (R.one_in(3)) {
        min = 1 + R.pick(70);
        if (R.coin()) {
          right = R.coin();
          if (R.coin()) fill = "*.0-"[R.pick(4)], spec += fill;
          spec += right ? '>' : '<';
        }
        spec += std::to_string(min);
      }
      if (type) spec += type;
      Rec r      = any_rec(Rec::RANGE, a.fam);
      Rec n      = any_rec(Rec::NET, a.fam);
      unsigned p = any_rec(Rec::SRV, a.fam).port;
      bool compact = kind >= 7 && kind <= 9 && R.coin();
      if (compact) ext += 'c';
      string e   = inner + ext;
      string fmt = "{" + (spec.empty() && e.empty() ? string() : ":" + spec) + (e.empty() ? string() : ":" + e) + "}";
      char const *f = fmt.c_str();
      string got;
      IPEndpoint point = endpoint(Rec{Rec::SRV, a, a, 0, p});
      auto range_text  = [&] {
        if (compact && r.a == r.b) return picture(r.a, type, pad);
        if (compact) {
          unsigned w = 0;
          for (; w <= bits(a.fam); ++w) {
            U128 m = ~mask_of(a.fam, w) & top(a.fam);
            if (!(r.a.v & m) && r.b.v == (r.a.v | m)) return picture(r.a, type, pad) + "/" + std::to_string(w);
          }
        }
        return picture(r.a, type, pad) + "-" + picture(r.b, type, pad);
      };
      char const *what;
      string port = ":" + std::to_string(p);
      switch (kind) {
      case 0:
      case 1: {
        what = "endpoint";
        if (show_a) want += !four && show_p ? "[" + picture(a, type, pad) + "]" : picture(a, type, pad);
        if (show_a && show_p) want += ":";
        if (show_p) want += padded(std::to_string(p), pad ? 5 : 0, pad);
        if (show_f) want += (want.empty() ? "" : " ") + (type == 'd' ? std::to_string(four ? AF_INET : AF_INET6) : string(four ? "ipv4" : "ipv6"));
        if (kind == 0) got = render(f, point);
        else got = R.coin() ? render(f, static_cast<sockaddr const *>(&point.sa)) : four ? render(f, static_cast<sockaddr_in const *>(&point.sa4)) : render(f, static_cast<sockaddr_in6 const *>(&point.sa6));
      } break;
      case 2:
      case 3:
        what = "address";
        if (show_a) want += picture(a, type, pad);
        if (show_f) want += (want.empty() ? "" : " ") + (type == 'd' ? std::to_string(four ? AF_INET : AF_INET6) : string(four ? "ipv4" : "ipv6"));
        got = render(f, mk(a));
        break;
      case 4:
        what = "address";
        want = picture(a, type, pad);
        got  = four ? render(f, mk4(a)) : R.coin() ? render(f, mk6(a)) : render(f, raw6(a));
        break;
      case 5:
        what = "service";
        want = picture(a, type, pad);
        if (p) want = (four ? want : "[" + want + "]") + port;
        got = four ? render(f, IP4Srv(mk4(a), p)) : render(f, IP6Srv(mk6(a), p));
        break;
      case 6:
        what = "service";
        want = picture(a, type, pad);
        if (p) want = (four ? want : "[" + want + "]") + port;
        got = render(f, IPSrv(mk(a), p));
        break;
      case 7:
        what = "range";
        want = range_text();
        got  = four ? render(f, IP4Range(mk4(r.a), mk4(r.b))) : render(f, IP6Range(mk6(r.a), mk6(r.b)));
        break;
      case 8:
        what = "range";
        want = range_text();
        got  = render(f, IPRange(mk(r.a), mk(r.b)));
        break;
      case 9: {
        what = "range view";
        want = range_text();
        IP4Range x4(mk4(r.a), mk4(r.b));
        IP6Range x6(mk6(r.a), mk6(r.b));
        swoc::IPRangeView v;
        four ? v.assign(x4) : v.assign(x6);
        got = render(f, v);
      } break;
      case 10:
        what = "network";
        want = picture(n.a, type, pad) + "/" + std::to_string(n.width);
        got  = R.coin() ? render(f, IPNet(mk(n.a), IPMask(n.width))) : four ? render(f, IP4Net(mk4(n.a), IPMask(n.width))) : render(f, IP6Net(mk6(n.a), IPMask(n.width)));
        break;
      default: { // to a stream
        what = "stream";
        std::ostringstream o;
        switch (R.pick(4)) {
        case 0:
          want = picture(a, 0, 0);
          R.sut([&] { four ? o << mk4(a) : o << mk6(a); });
          break;
        case 1:
          want = picture(a, 0, 0);
          R.sut([&] { o << mk(a); });
          break;
        case 2:
          want = picture(r.a, 0, 0) + "-" + picture(r.b, 0, 0);
          R.sut([&] { four ? o << IP4Range(mk4(r.a), mk4(r.b)) : o << IP6Range(mk6(r.a), mk6(r.b)); });
          break;
        default:
          want = picture(r.a, 0, 0) + "-" + picture(r.b, 0, 0);
          R.sut([&] { o << IPRange(mk(r.a), mk(r.b)); });
        }
        min = 0;
        got = o.str();
      }
      }
      if (want.size() < min) right ? want.insert(0, min - want.size(), fill) : want.append(min - want.size(), fill);
      R.log("%s by %s: %s", what, f, got.c_str());
      if (got != want) R.fail("text", "%s by \"%s\": \"%s\" instead of \"%s\"", what, f, got.c_str(), want.c_str());
      R.count("documented output");
      R.step();
    }
    R.nontrivial();
  }
  void
  go()
  {
    unsigned n = 1 + R.pick(3);
    for (unsigned i = 0; i < n; ++i) {
      R.mark();
      if (R.one_in(4)) registers();
      else if (R.one_in(5)) pictures();
      else round();
    }
  }
};

// ---------------------------------------------------------------- sets of addresses as networks
struct NetSim : TextSim {
  using TextSim::TextSim;
  struct Iv {
    U128 lo, hi;
    unsigned tag;
  };
  struct Net {
    MAddr a;
    unsigned width;
    unsigned tag;
  };
  std::vector<Iv> model[2], all[2]; // the space with payloads, the plain set
  swoc::IPSpace<unsigned> space, received;
  swoc::IPRangeSet set;

  static void
  paint(std::vector<Iv> &m, U128 lo, U128 hi, unsigned tag, bool gone)
  {
    std::vector<Iv> z;
    for (Iv const &i : m) {
      if (i.hi < lo || i.lo > hi) {
        z.push_back(i);
        continue;
      }
      if (i.lo < lo) z.push_back({i.lo, lo - 1, i.tag});
      if (i.hi > hi) z.push_back({hi + 1, i.hi, i.tag});
    }
    if (!gone) z.push_back({lo, hi, tag});
    std::sort(z.begin(), z.end(), [](Iv const &a, Iv const &b) { return a.lo < b.lo; });
    m.clear();
    for (Iv const &i : z) {
      if (!m.empty() && m.back().hi + 1 == i.lo && m.back().tag == i.tag) m.back().hi = i.hi;
      else m.push_back(i);
    }
  }
  /// Least number of networks, in order.
  static std::vector<Net>
  split(int fam, U128 lo, U128 hi, unsigned tag)
  {
    std::vector<Net> z;
    while (true) {
      unsigned k = 0; // log2 of the size
      while (k < bits(fam)) {
        U128 m = k + 1 == 128 ? ~U128(0) : (U128(1) << (k + 1)) - 1;
        if ((lo & m) || (lo | m) > hi) break;
        ++k;
      }
      U128 m = k == 128 ? ~U128(0) : (U128(1) << k) - 1;
      z.push_back({{fam, lo}, bits(fam) - k, tag});
      if ((lo | m) >= hi) return z;
      lo = (lo | m) + 1;
    }
  }
  static string
  text(Net const &n)
  {
    return plain(n.a) + "/" + std::to_string(n.width);
  }
  template <typename S>
  void
  walk(S const &source, std::vector<Net> const &want, char const *by)
  {
    size_t i  = 0;
    auto it   = R.sut([&] { return source.begin(); });
    auto end  = R.sut([&] { return source.end(); });
    auto show = [&](auto const &x) { return plain(from(x.addr())) + "/" + std::to_string(x.mask().width()); };
    for (; it != end; ++i) {
      if (i >= want.size()) R.fail("networks", "%s: %zu networks were expected, the next is %s", by, want.size(), show(it).c_str());
      auto net = R.sut([&] { return *it; });
      MAddr lo = from(net.min()), hi = from(net.max());
      U128 m   = ~mask_of(lo.fam, want[i].width) & top(lo.fam);
      if (show(it) != text(want[i]) || lo != want[i].a || hi.fam != lo.fam || hi.v != (want[i].a.v | m) || net.mask().width() != want[i].width || from(it->addr()) != lo)
        R.fail("networks", "%s: network %zu is %s (%s to %s) instead of %s", by, i, show(it).c_str(), plain(lo).c_str(), plain(hi).c_str(), text(want[i]).c_str());
      if (it == end || end == it || !(it != end) || !(it == it) || it != it) R.fail("networks", "%s: the comparison of network %zu is wrong", by, i);
      if (R.one_in(8)) { // another client goes on from here
        auto fork = it;
        R.sut([&] { ++fork; });
        if (i + 1 < want.size() ? fork == end || show(fork) != text(want[i + 1]) : fork != end) R.fail("networks", "%s: a copy at network %zu does not continue", by, i);
        if (fork == it || !(fork != it)) R.fail("networks", "%s: different positions are equal", by);
        auto copy = it;
        if (!(copy == it) || copy != it) R.fail("networks", "%s: equal positions are different", by);
      }
      R.sut([&] { ++it; });
    }
    if (i != want.size()) R.fail("networks", "%s: ended after %zu networks instead of %zu", by, i, want.size());
  }
  /// All ways to get the networks of a range.
  std::vector<Net>
  networks(int fam, U128 lo, U128 hi, unsigned tag)
  {
    auto want = split(fam, lo, hi, tag);
    MAddr a{fam, lo}, b{fam, hi};
    IPRange r(mk(a), mk(b));
    IP4Range x4(mk4(a), mk4(b));
    IP6Range x6(mk6(a), mk6(b));
    switch (R.pick(3)) {
    case 0: walk(R.sut([&] { return r.networks(); }), want, "range"); break;
    case 1:
      if (fam == 4) walk(R.sut([&] { return x4.networks(); }), want, "IPv4 range");
      else walk(R.sut([&] { return x6.networks(); }), want, "IPv6 range");
      break;
    default: {
      swoc::IPRangeView v;
      if (fam == 4) v.assign(x4);
      else v.assign(x6);
      walk(R.sut([&] { return v.networks(); }), want, "range view");
    }
    }
    IPMask m = R.coin() ? R.sut([&] { return r.network_mask(); }) : fam == 4 ? R.sut([&] { return x4.network_mask(); }) : R.sut([&] { return x6.network_mask(); });
    if (want.size() == 1 ? !m.is_valid() || m.width() != want[0].width : m.is_valid()) R.fail("mask", "the range %s-%s is %zu networks and has the network mask %u", plain(a).c_str(), plain(b).c_str(), want.size(), m.width());
    return want;
  }
  Net
  received_net(TextView t, unsigned tag, char kind, string const &s)
  {
    Net z{{0, 0}, 0, tag};
    bool ok;
    MAddr lo, hi;
    switch (kind) {
    case 'N':
      ok = R.sut([&] { return nn.load(t); });
      if (ok) {
        auto r = R.sut([&] { return nn.as_range(); });
        lo = from(r.min()), hi = from(r.max()), z.width = nn.width();
        if (nn.is_ip4() != (lo.fam == 4) || nn.is_ip6() != (lo.fam == 6)) R.fail("family", "\"%s\" has the wrong family", esc(s).c_str());
      }
      break;
    default:
      ok = R.sut([&] { return rr.load(t); });
      if (ok) {
        lo = from(rr.min()), hi = from(rr.max());
        z.width = R.sut([&] { return rr.network_mask().width(); });
      }
    }
    if (!ok) R.fail("rejected", "\"%s\" was not accepted", esc(s).c_str());
    z.a = lo;
    if (hi.fam != lo.fam || z.width > bits(lo.fam) || hi.v != (lo.v | (~mask_of(lo.fam, z.width) & top(lo.fam)))) R.fail("value", "\"%s\" is from %s to %s", esc(s).c_str(), plain(lo).c_str(), plain(hi).c_str());
    return z;
  }
  struct Msg {
    Net net;
    char kind;
    string text;
    bool acked = false;
  };
  Msg
  message(Net const &n)
  {
    Msg m;
    m.net  = n;
    m.kind = R.coin() ? 'N' : 'R';
    MAddr last{n.a.fam, n.a.v | (~mask_of(n.a.fam, n.width) & top(n.a.fam))};
    if (m.kind == 'N') {
      m.text = R.one_in(4) ? n.a.fam == 4 ? render("{}", IP4Net(mk4(n.a), IPMask(n.width))) : render("{}", IP6Net(mk6(n.a), IPMask(n.width))) : render("{}", IPNet(mk(n.a), IPMask(n.width)));
    } else {
      IPRange r(mk(n.a), mk(last));
      m.text = render(R.coin() ? "{}" : "{::c}", r);
    }
    return m;
  }
  void
  receive(Msg const &m, std::vector<Iv> (&got)[2])
  {
    Net n = received_net(m.text, m.net.tag, m.kind, m.text);
    if (n.a != m.net.a || n.width != m.net.width) R.fail("value", "%s was written as \"%s\" and read as %s", text(m.net).c_str(), esc(m.text).c_str(), text(n).c_str());
    if (m.kind == 'N') {
      IPRange r = R.sut([&] { return nn.as_range(); });
      R.sut([&] { received.mark(r, n.tag); });
    } else {
      R.sut([&] { received.mark(rr, n.tag); });
    }
    U128 hi = n.a.v | (~mask_of(n.a.fam, n.width) & top(n.a.fam));
    paint(got[n.a.fam == 6], n.a.v, hi, n.tag, false);
  }
  void
  compare(swoc::IPSpace<unsigned> const &s, std::vector<Iv> const (&m)[2], char const *who)
  {
    size_t fam = 0, i = 0, n = 0;
    for (auto it = s.begin(); it != s.end(); ++it, ++n) {
      while (fam < 2 && i == m[fam].size()) ++fam, i = 0;
      auto const &[rv, tag] = *it;
      MAddr lo = from(rv.min()), hi = from(rv.max());
      if (fam == 2) R.fail("set", "%s has %s-%s, which is not in the set", who, plain(lo).c_str(), plain(hi).c_str());
      MAddr a{fam ? 6 : 4, m[fam][i].lo}, b{fam ? 6 : 4, m[fam][i].hi};
      if (lo != a || hi != b || tag != m[fam][i].tag)
        R.fail("set", "%s has %s-%s of %u where %s-%s of %u is expected", who, plain(lo).c_str(), plain(hi).c_str(), tag, plain(a).c_str(), plain(b).c_str(), m[fam][i].tag);
      ++i;
    }
    if (n != m[0].size() + m[1].size()) R.fail("set", "%s has %zu ranges instead of %zu", who, n, m[0].size() + m[1].size());
    for (unsigned k = R.pick(6); k > 0; --k) {
      MAddr a = near();
      auto it = R.sut([&] { return s.find(mk(a)); });
      bool in = it != s.end();
      Iv const *e = nullptr;
      for (Iv const &x : m[a.fam == 6]) {
        if (x.lo <= a.v && a.v <= x.hi) e = &x;
      }
      if (in != (e != nullptr) || (e && std::get<1>(*it) != e->tag)) R.fail("set", "%s: the address %s is%s found", who, plain(a).c_str(), in ? "" : " not");
    }
  }
  /// Some address near an edge in use.
  MAddr
  near()
  {
    int fam = R.coin() ? 4 : 6;
    auto &m = model[fam == 6];
    MAddr a = any_addr(fam);
    if (!m.empty() && !R.one_in(4)) {
      Iv const &i = m[R.pick(m.size())];
      a.v         = ((R.coin() ? i.lo : i.hi) + R.pick(5) - 2) & top(fam);
    }
    return a;
  }
  void
  change()
  {
    Rec r = any_rec(Rec::RANGE, R.coin() ? 4 : 6);
    if (R.one_in(3)) r.a = r.b = near();
    if (R.one_in(3)) {
      r.a     = near();
      r.b     = {r.a.fam, std::min<U128>(top(r.a.fam) - r.a.v, R.pick(300)) + r.a.v};
    }
    unsigned tag = R.pick(3);
    IPRange range(mk(r.a), mk(r.b));
    auto &m = model[r.a.fam == 6];
    if (R.one_in(5)) {
      R.log("erase %s", r.text().c_str());
      R.sut([&] { space.erase(range); });
      paint(m, r.a.v, r.b.v, 0, true);
    } else {
      R.log("mark %s %u", r.text().c_str(), tag);
      R.sut([&] { space.mark(range, tag); });
      paint(m, r.a.v, r.b.v, tag, false);
    }
    R.sut([&] { R.coin() ? set.mark(range) : set.fill(range); });
    paint(all[r.a.fam == 6], r.a.v, r.b.v, 0, false);
  }
  void
  check_set()
  {
    size_t fam = 0, i = 0, n = 0;
    if (set.count() != all[0].size() + all[1].size() || set.empty() != (set.count() == 0)) R.fail("set", "the set has %zu ranges instead of %zu", set.count(), all[0].size() + all[1].size());
    for (auto it = set.begin(); it != set.end(); ++it, ++n) {
      while (fam < 2 && i == all[fam].size()) ++fam, i = 0;
      if (fam == 2) R.fail("set", "the set has more ranges than its count");
      auto const &rv = *it;
      MAddr lo{fam ? 6 : 4, all[fam][i].lo}, hi{fam ? 6 : 4, all[fam][i].hi};
      if (from(rv.min()) != lo || from(rv.max()) != hi) R.fail("set", "the set has %s-%s where %s-%s is expected", plain(from(rv.min())).c_str(), plain(from(rv.max())).c_str(), plain(lo).c_str(), plain(hi).c_str());
      walk(R.sut([&] { return rv.networks(); }), split(lo.fam, lo.v, hi.v, 0), "view in the set");
      ++i;
    }
    if (R.coin()) { // back and forth
      size_t at = 0, total = set.count();
      auto it   = set.begin();
      if (R.coin()) it = set.end(), at = total;
      for (unsigned k = R.pick(12); k > 0; --k) {
        bool fwd = at == 0 || (at < total && R.coin()), post = R.coin();
        if (fwd && at == total) break;
        auto was = it, old = it;
        R.sut([&] { fwd ? post ? old = it++ : ++it : post ? old = it-- : --it; });
        if (old != was || !(old == was) || it == was) R.fail("set", "a step by an iterator of the set had the wrong result");
        fwd ? ++at : --at;
        if ((it == set.end()) != (at == total) || (it == set.begin()) != (at == 0)) R.fail("set", "an iterator of the set is not where it should be");
        if (at < total) {
          bool six    = at >= all[0].size();
          Iv const &x = six ? all[1][at - all[0].size()] : all[0][at];
          MAddr lo{six ? 6 : 4, x.lo}, hi{six ? 6 : 4, x.hi};
          if (from(it->min()) != lo || from(it->max()) != hi || it->is_ip4() == six || !(*it == IPRange(mk(lo), mk(hi))))
            R.fail("set", "an iterator of the set shows %s-%s where %s-%s is expected", plain(from(it->min())).c_str(), plain(from(it->max())).c_str(), plain(lo).c_str(), plain(hi).c_str());
        }
      }
    }
    for (unsigned k = R.pick(5); k > 0; --k) {
      MAddr a = near();
      bool e  = false;
      for (Iv const &x : all[a.fam == 6]) e = e || (x.lo <= a.v && a.v <= x.hi);
      if (R.sut([&] { return set.contains(mk(a)); }) != e) R.fail("set", "the set %s %s", e ? "does not contain" : "contains", plain(a).c_str());
    }
    if (R.one_in(6)) {
      R.sut([&] { set.clear(); });
      all[0].clear(), all[1].clear();
      if (!set.empty() || set.count() || set.begin() != set.end()) R.fail("set", "the set is not empty after it was cleared");
    }
  }
  std::vector<Msg>
  exported()
  {
    std::vector<Msg> msgs;
    for (auto it = space.begin(); it != space.end(); ++it) {
      auto const &[rv, tag] = *it;
      MAddr lo = from(rv.min()), hi = from(rv.max());
      for (Net const &n : networks(lo.fam, lo.v, hi.v, tag)) msgs.push_back(message(n));
    }
    return msgs;
  }
  /// Through storage, by a writer that can die.
  void
  by_file(std::vector<Msg> const &msgs)
  {
    string want;
    for (Msg const &m : msgs) want += std::to_string(m.net.tag) + " " + m.kind + " " + m.text + "\n";
    for (int n = 0;; ++n) {
      string data = want;
      if (faults && n < 4 && R.coin()) {
        data.resize(R.pick(data.size() + 1));
        R.fault("torn-write");
      }
      auto w = k.resolve(k.root, "/data/nets", true);
      if (!w.err && w.ino) *(k.own(w.ino).data = std::make_shared<string>()) = data;
      else k.make(dir, "nets", vfs::REG, 0644, data);
      string got = load("/data/nets");
      R.sut([&] { received.clear(); });
      std::vector<Iv> model_now[2];
      TextView rest(got);
      size_t i = 0;
      while (!rest.empty()) {
        // A line that was not finished does not count.
        TextView line = R.sut([&] { return rest.split_prefix_at('\n'); });
        if (line.empty()) break;
        if (i >= msgs.size()) R.fail("split", "there are more lines than were written");
        Msg m        = msgs[i++];
        TextView tag = R.sut([&] { return line.take_prefix_at(' '); });
        if (R.sut([&] { return swoc::svtou(tag); }) != m.net.tag) R.fail("split", "line %zu has the tag \"%s\" instead of %u", i, esc(string(tag)).c_str(), m.net.tag);
        TextView kind = R.sut([&] { return line.take_prefix_at(' '); });
        if (kind.size() != 1 || kind[0] != m.kind || string(line) != m.text) R.fail("split", "line %zu was read as \"%s\"", i, esc(string(line)).c_str());
        receive(m, model_now);
        R.step();
      }
      if (size_t(std::count(data.begin(), data.end(), '\n')) != i) R.fail("split", "%zu lines were read instead of %zu", i, size_t(std::count(data.begin(), data.end(), '\n')));
      compare(received, model_now, "the set read so far");
      if (data.size() == want.size()) break;
    }
  }
  /// As messages that get lost, delivered twice, and in any order.
  void
  by_network(std::vector<Msg> msgs)
  {
    R.sut([&] { received.clear(); });
    std::vector<Iv> now[2];
    std::vector<size_t> wire;
    size_t left   = msgs.size();
    unsigned loss = faults ? R.pick(60) : 0, twice = faults ? R.pick(40) : 0;
    for (unsigned round = 0; left; ++round) {
      if (round > 8) loss = 0;
      if (round > 10) R.fail("progress", "messages are missing although none is lost any more"); // harness
      for (size_t i = 0; i < msgs.size(); ++i) {
        if (msgs[i].acked) continue;
        if (R.pct(loss)) {
          R.fault("message-lost");
          continue;
        }
        wire.push_back(i);
        if (R.pct(twice)) {
          R.fault("message-duplicated");
          wire.push_back(i);
        }
      }
      bool all_now = R.coin() || round > 8;
      while (!wire.empty() && (all_now || !R.one_in(12))) {
        size_t at = R.pick(wire.size());
        if (at) R.count("messages out of order");
        size_t i = wire[at];
        wire.erase(wire.begin() + at);
        receive(msgs[i], now);
        R.step();
        if (!msgs[i].acked && !R.pct(loss)) msgs[i].acked = true, --left;
      }
      if (R.one_in(4)) compare(received, now, "the set received so far");
    }
  }
  // ---- addresses and masks that are computed with
  void
  arithmetic()
  {
    int fam = R.coin() ? 4 : 6;
    MAddr a = any_addr(fam);
    unsigned w = R.pick(bits(fam) + 1);
    IPMask mask(w);
    IP4Addr x4 = mk4(a);
    IP6Addr x6 = mk6(a);
    bool four  = fam == 4;
    while (R.more(12, 40)) {
      MAddr b = R.one_in(3) ? MAddr{fam, a.v + R.pick(3) - 1} : any_addr(fam);
      b.v    &= top(fam);
      char const *op = "";
      unsigned n     = 0;
      switch (R.pick(14)) {
      case 0:
        op = "increment";
        R.sut([&] { four ? (void)++x4 : (void)++x6; });
        a.v = (a.v + 1) & top(fam);
        break;
      case 1:
        op = "decrement";
        R.sut([&] { four ? (void)--x4 : (void)--x6; });
        a.v = (a.v - 1) & top(fam);
        break;
      case 2:
        op = "shift left";
        n  = 1 + R.pick(bits(fam) - 1);
        R.sut([&] { four ? (void)(x4 <<= n) : (void)(x6 <<= n); });
        a.v = (a.v << n) & top(fam);
        break;
      case 3:
        op = "shift right";
        n  = 1 + R.pick(bits(fam) - 1);
        R.sut([&] { four ? (void)(x4 >>= n) : (void)(x6 >>= n); });
        a.v >>= n;
        break;
      case 4:
        op = "and";
        R.sut([&] { four ? (void)(x4 &= mk4(b)) : (void)(x6 &= mk6(b)); });
        a.v &= b.v;
        break;
      case 5:
        op = "or";
        R.sut([&] { four ? (void)(x4 |= mk4(b)) : (void)(x6 |= mk6(b)); });
        a.v |= b.v;
        break;
      case 6:
        op = "and mask";
        R.sut([&] {
          if (R.coin()) {
            if (four) x4 &= mask;
            else x6 &= mask;
          } else if (R.coin()) {
            if (four) x4 = x4 & mask;
            else x6 = x6 & mask;
          } else {
            IPAddr z = R.coin() ? IPAddr(mk(a)) & mask : IPAddr(mk(a)) &= mask;
            if (four) x4 = z.ip4();
            else x6 = z.ip6();
          }
        });
        a.v &= mask_of(fam, w);
        break;
      case 7:
        op = "or mask";
        R.sut([&] {
          if (R.coin()) {
            if (four) x4 |= mask;
            else x6 |= mask;
          } else if (R.coin()) {
            if (four) x4 = x4 | mask;
            else x6 = x6 | mask;
          } else {
            IPAddr z = R.coin() ? IPAddr(mk(a)) | mask : IPAddr(mk(a)) |= mask;
            if (four) x4 = z.ip4();
            else x6 = z.ip6();
          }
        });
        a.v |= ~mask_of(fam, w) & top(fam);
        break;
      case 8:
        op = "extend the mask";
        n  = R.pick(w + 1);
        R.sut([&] { mask <<= n; });
        w -= n;
        break;
      case 9:
        op = "narrow the mask";
        n  = R.pick(bits(fam) - w + 1);
        R.sut([&] { mask >>= n; });
        w += n;
        break;
      case 10: {
        op   = "mask of the address";
        mask = R.sut([&] { return R.coin() ? IPMask::mask_for(mk(a)) : four ? IPMask::mask_for(mk4(a)) : IPMask::mask_for(mk6(a)); });
        w    = bits(fam);
        while (w > 0 && !(a.v >> (bits(fam) - w) & 1)) --w;
      } break;
      case 11: {
        op       = "mask from text";
        w        = R.pick(bits(fam) + 1);
        string t = std::to_string(w);
        if (!R.sut([&] { return mask.load(t); })) R.fail("mask", "the text \"%s\" is not accepted as a mask", t.c_str());
      } break;
      case 12: {
        op = "network order and back";
        if (four) {
          in_addr_t v = R.sut([&] { return x4.network_order(); });
          if (v != htonl(uint32_t(a.v)) || IP4Addr::reorder(v) != uint32_t(a.v)) R.fail("order", "%s has the wrong network order", plain(a).c_str());
          R.sut([&] { x4 = v; });
        } else {
          in6_addr v = R.sut([&] { return x6.network_order(); }), z;
          R.sut([&] { x6.network_order(z); });
          if (num6(v) != a.v || num6(z) != a.v) R.fail("order", "%s has the wrong network order", plain(a).c_str());
          in6_addr h = R.sut([&] { return x6.host_order(); }), h2;
          R.sut([&] { x6.host_order(h2); });
          for (int i = 0; i < 16; ++i) {
            if (h.s6_addr[i] != v.s6_addr[15 - i] || h2.s6_addr[i] != h.s6_addr[i]) R.fail("order", "%s has the wrong host order", plain(a).c_str());
          }
          R.sut([&] { x6 = v; });
        }
      } break;
      default:
        op = "assign";
        a  = b;
        R.sut([&] { four ? (void)(x4 = mk4(b)) : (void)(x6 = mk6(b)); });
      }
      R.log("%s %u: %s mask %u", op, n, plain(a).c_str(), w);
      MAddr now = four ? from(x4) : from(x6);
      if (now != a) R.fail("arithmetic", "after '%s' by %u the address is %s instead of %s", op, n, plain(now).c_str(), plain(a).c_str());
      if (mask.width() != w || !mask.is_valid()) R.fail("mask", "after '%s' by %u the mask is %u instead of %u", op, n, mask.width(), w);
      MAddr m = four ? from(R.sut([&] { return mask.as_ip4(); })) : from(R.sut([&] { return mask.as_ip6(); }));
      if (m.v != mask_of(fam, w)) R.fail("mask", "the mask %u is the address %s", w, plain(m).c_str());
      for (unsigned i = 0; i < bits(fam) / 8; ++i) {
        if ((four ? x4[i] : x6[i]) != uint8_t(a.v >> (bits(fam) - 8 - 8 * i))) R.fail("arithmetic", "byte %u of %s is wrong", i, plain(a).c_str());
      }
      int c = a.v < b.v ? -1 : a.v > b.v;
      auto order = [&](auto const &x, auto const &y) {
        if (x.cmp(y) != c || (x < y) != (c < 0) || (x > y) != (c > 0) || (x <= y) != (c <= 0) || (x >= y) != (c >= 0) || (x == y) != (c == 0) || (x != y) != (c != 0))
          R.fail("order", "%s and %s are in the wrong order", plain(a).c_str(), plain(b).c_str());
      };
      if (four) order(x4, mk4(b));
      else order(x6, mk6(b));
      order(mk(a), mk(b));
      if (!class_is(mk(a), a) || (four ? !class_is(x4, a) : !class_is(x6, a))) R.fail("class", "%s is taken for another kind of address", plain(a).c_str());
      if (four) {
        IP6Addr mapped = R.sut([&] { return IP6Addr(x4); });
        if (from(mapped).v != (a.v | U128(0xffff) << 32) || !mapped.is_mapped_ip4()) R.fail("mapped", "%s is mapped to %s", plain(a).c_str(), plain(from(mapped)).c_str());
      } else if (x6.is_mapped_ip4() != (a.v >> 32 == 0xffff)) {
        R.fail("mapped", "%s is wrongly taken for a mapped address", plain(a).c_str());
      }
      R.state(mix(mix(fam, w), uint64_t(a.v >> 64) ^ uint64_t(a.v)));
      R.step();
    }
  }
  // ---- ranges that are combined
  template <typename RANGE, typename MAKE>
  void
  algebra(int fam, MAKE const &make)
  {
    struct M {
      U128 lo = 1, hi = 0;
      bool none() const { return lo > hi; }
    } m[3];
    RANGE r[3];
    auto say = [&](M const &x) { return x.none() ? string("nothing") : plain({fam, x.lo}) + "-" + plain({fam, x.hi}); };
    while (R.more(12, 40)) {
      unsigned i = R.pick(3), j = R.pick(3);
      char const *op = "";
      switch (R.pick(8)) {
      case 0:
      case 1: {
        op    = "assign";
        Rec x = any_rec(Rec::RANGE, fam);
        if (!m[j].none() && R.coin()) { // at an edge of another
          U128 e = R.coin() ? m[j].lo : m[j].hi;
          x.a.v  = (e + R.pick(3) - 1) & top(fam);
          x.b.v  = R.coin() ? x.a.v : std::max(x.a.v, std::min(top(fam), m[j].hi));
        }
        m[i] = {x.a.v, x.b.v};
        R.sut([&] {
          if (R.coin()) r[i].assign(make(x.a), make(x.b));
          else r[i] = RANGE(make(x.a), make(x.b));
        });
      } break;
      case 2:
        op = "hull";
        R.sut([&] { R.coin() ? r[i] |= r[j] : r[i] = r[i].hull(r[j]); });
        if (m[i].none()) m[i] = m[j];
        else if (!m[j].none()) m[i] = {std::min(m[i].lo, m[j].lo), std::max(m[i].hi, m[j].hi)};
        break;
      case 3:
        op = "intersection";
        R.sut([&] { R.coin() ? r[i] &= r[j] : r[i] = r[i].intersection(r[j]); });
        if (m[i].none() || m[j].none()) m[i] = M{};
        else m[i] = {std::max(m[i].lo, m[j].lo), std::min(m[i].hi, m[j].hi)};
        break;
      case 4:
        op = "clear";
        R.sut([&] { r[i].clear(); });
        m[i] = M{};
        break;
      case 5:
        op = "network";
        {
          MAddr a    = any_addr(fam);
          unsigned w = R.pick(bits(fam) + 1);
          R.sut([&] { r[i].assign(make(a), IPMask(w)); });
          m[i] = {a.v & mask_of(fam, w), a.v | (~mask_of(fam, w) & top(fam))};
        }
        break;
      case 6:
        op = "move an edge";
        if (!m[i].none()) {
          MAddr a = any_addr(fam);
          if (R.coin()) R.sut([&] { r[i].assign_min(make(a)); }), m[i].lo = a.v;
          else R.sut([&] { r[i].assign_max(make(a)); }), m[i].hi = a.v;
        }
        break;
      default:
        op = "clip";
        if (!m[i].none() && m[i].hi > 0) {
          R.sut([&] { r[i].clip_max(); });
          m[i].hi -= 1;
        }
      }
      R.log("%s %u %u: %s", op, i, j, say(m[i]).c_str());
      if (r[i].empty() != m[i].none() || bool(r[i]) == m[i].none() || !r[i] != m[i].none() || (!m[i].none() && (from(r[i].min()).v != m[i].lo || from(r[i].max()).v != m[i].hi)))
        R.fail("range", "after '%s' the range is %s-%s instead of %s", op, plain(from(r[i].min())).c_str(), plain(from(r[i].max())).c_str(), say(m[i]).c_str());
      M const &x = m[i], &y = m[j];
      if (!x.none() && !y.none()) {
        bool sup = x.lo <= y.lo && y.hi <= x.hi, sub = y.lo <= x.lo && x.hi <= y.hi, same = sup && sub;
        bool left = x.hi < y.lo && x.hi + 1 == y.lo, right = y.hi < x.lo && y.hi + 1 == x.lo;
        bool cut = x.lo <= y.hi && y.lo <= x.hi;
        using REL      = swoc::DiscreteRangeRelation;
        using EDGE     = swoc::DiscreteRangeEdgeRelation;
        REL want       = same ? REL::EQUAL : sub ? REL::SUBSET : sup ? REL::SUPERSET : cut ? REL::OVERLAP : left || right ? REL::ADJACENT : REL::NONE;
        EDGE edge      = y.lo < x.lo ? EDGE::NONE : y.lo <= x.hi ? EDGE::OVLP : left ? EDGE::ADJ : EDGE::GAP;
        RANGE const &p = r[i], &q = r[j];
        char const *bad = p.is_superset_of(q) != sup               ? "superset"
                          : p.is_subset_of(q) != sub               ? "subset"
                          : p.is_strict_superset_of(q) != (sup && !same) ? "strict superset"
                          : p.is_strict_subset_of(q) != (sub && !same) ? "strict subset"
                          : p.is_left_adjacent_to(q) != left       ? "left adjacent"
                          : p.is_adjacent_to(q) != (left || right) ? "adjacent"
                          : p.has_intersection_with(q) != cut      ? "intersection"
                          : (p ^ q) != cut                         ? "intersection operator"
                          : p.has_union(q) != (cut || left || right) ? "union"
                          : p.relationship(q) != want              ? "relationship"
                          : p.left_edge_relationship(q) != edge    ? "left edge relationship"
                          : (p < q) != (sub && !same) || (p <= q) != sub || (p > q) != (sup && !same) || (p >= q) != sup ? "containment order"
                          : (p == q) != same || (p != q) == same   ? "equality"
                          : p.is_singleton() != (x.lo == x.hi)     ? "singleton"
                          : p.is_maximal() != (x.lo == 0 && x.hi == top(fam)) ? "maximal"
                                                                   : nullptr;
        if (bad) R.fail("relation", "%s is wrong for %s and %s", bad, say(x).c_str(), say(y).c_str());
        MAddr e{fam, ((R.coin() ? x.lo : x.hi) + R.pick(3) - 1) & top(fam)};
        if (p.contains(make(e)) != (x.lo <= e.v && e.v <= x.hi)) R.fail("relation", "whether %s contains %s is wrong", say(x).c_str(), plain(e).c_str());
        IPRange g(p);
        if (from(g.min()).v != x.lo || from(g.max()).v != x.hi || g.contains(mk(e)) != p.contains(make(e)) || g.contains(mk({10 - fam, e.v & top(10 - fam)})) || g.empty() || !(g == IPRange(p)))
          R.fail("relation", "%s is another range as a general range", say(x).c_str());
        if (g.contains(make(e)) != p.contains(make(e))) R.fail("relation", "whether %s as a general range contains %s is wrong", say(x).c_str(), plain(e).c_str());
        { // No address of the other family is in it, whatever its value.
          unsigned part = R.pick(5);
          U128 raw = part < 4 ? x.lo >> (32 * part) : 0, add = R.pick(3);
          MAddr o{10 - fam, (raw + add) & top(10 - fam)};
          swoc::IPRangeView w;
          w.assign(p);
          bool in = R.sut([&] { return g.contains(mk(o)) || (fam == 4 ? g.contains(mk6(o)) : g.contains(mk4(o))) || w.contains(mk(o)) || (fam == 4 ? w.contains(mk6(o)) : w.contains(mk4(o))); });
          if (in) R.fail("relation", "%s contains %s of the other family", say(x).c_str(), plain(o).c_str());
        }
        { // the same by every way to it
          IPRange h;
          swoc::IPRangeView v, u;
          bool one = x.lo == x.hi;
          MAddr lo{fam, x.lo}, hi{fam, x.hi};
          R.sut([&] {
            switch (R.pick(6)) {
            case 0: one ? h = IPRange(make(lo)) : h = IPRange(make(lo), make(hi)); break;
            case 1: one ? h = IPRange(mk(lo)) : h = IPRange(mk(lo), mk(hi)); break;
            case 2: h.assign(make(lo), make(hi)); break;
            case 3: v.assign(p), h = v; break;
            case 4: v.assign(p), h = IPRange(v); break;
            default: h = p;
            }
            v.assign(p), u.assign(q);
          });
          bool v4 = fam == 4;
          if (h != g || !(h == g) || h.family() != (v4 ? AF_INET : AF_INET6) || h.is_ip4() != v4 || h.is_ip6() == v4 || !h.is(v4 ? AF_INET : AF_INET6) || h.is(v4 ? AF_INET6 : AF_INET) || (v4 ? h.ip4().min() != v.ip4().min() : h.ip6().min() != v.ip6().min()))
            R.fail("relation", "%s is another general range", say(x).c_str());
          if (!(v == g) || (v == u) != same || (v != u) == same || (v == IPRange(q)) != same || (g == IPRange(q)) != same || (g != IPRange(q)) == same || v.is_ip4() != v4 || v.is_ip6() == v4 || !v.valid() || v.empty() ||
              !v.is(v4 ? AF_INET : AF_INET6) || v.is(v4 ? AF_INET6 : AF_INET) || from(v.min()) != lo || from(v.max()) != hi || v.contains(mk(e)) != p.contains(make(e)) || v.contains(make(e)) != p.contains(make(e)) || v.contains(mk({10 - fam, e.v & top(10 - fam)})) ||
              v.contains(mk4({4, e.v & top(4)})) != (v4 && p.contains(make(e))) || v.contains(mk6({6, e.v})) != (!v4 && p.contains(make(e))))
            R.fail("relation", "the view of %s differs (other range %s)", say(x).c_str(), say(y).c_str());
          swoc::IPRangeView nv;
          IPRange ng;
          if (v == nv || nv == v || v == ng || nv == g || g == ng || ng == g || !(g != ng) || nv.valid() || !nv.empty() || !ng.empty() || !(nv == ng) || ng.contains(mk(e)) || nv.contains(mk(e)) || ng.is_ip4() || ng.is_ip6())
            R.fail("relation", "a range or view that is not valid is like %s", say(x).c_str());
          R.sut([&] { h.clear(), v.clear(); });
          if (!h.empty() || h != ng || v.valid() || !v.empty() || !(v == nv)) R.fail("relation", "a cleared range or view is not empty");
        }
      }
      R.step();
    }
  }
  void
  go()
  {
    unsigned n = 1 + R.pick(3);
    for (unsigned i = 0; i < n; ++i) {
      R.mark();
      switch (R.pick(6)) {
      case 0: arithmetic(); break;
      case 1: R.coin() ? algebra<IP4Range>(4, mk4) : algebra<IP6Range>(6, mk6); break;
      default:
        for (unsigned c = 1 + R.pick(6); c > 0; --c) change();
        compare(space, model, "the exported set");
        check_set();
        auto msgs = exported();
        R.count("networks", msgs.size());
        if (msgs.size() > 400) {
          R.sut([&] { space.clear(); });
          model[0].clear(), model[1].clear();
          break;
        }
        if (R.coin()) by_file(msgs);
        else by_network(msgs);
        compare(received, model, "the set received");
        R.state(mix(msgs.size(), mix(model[0].size(), model[1].size())));
      }
      R.nontrivial();
    }
  }
};

std::vector<char const *> const REAL = {"code/src/swoc_ip.cc", "code/src/bw_ip_format.cc", "code/src/bw_format.cc", "code/src/swoc_file.cc", "code/src/MemArena.cc", "code/src/ArenaWriter.cc",
                                        "code/src/TextView.cc", "code/include/swoc/IPAddr.h, IPRange.h, IPSrv.h, IPEndpoint.h, TextView.h"};
std::vector<char const *> const STUB = {"kernel and disk (in-memory file system answering trapped system calls)", "the process that writes the data (dies at any byte)"};
Register p01({"P01", [](Run &r) { TextSim(r).go(); },
              "random addresses, ranges, networks, services and endpoints, written by the library or by hand in every documented form in outputs of any size, stored by a writer that can die, in storage that "
              "damages bytes, copied and loaded with failing system calls until that works, split and parsed in objects that are used again and again; non-trivial: at least one file was read",
              "kind of value, verdict on its text, result and size of the text", REAL, STUB,
              {"texts on which the documentation says nothing (e.g. leading zeros in a port, embedded IPv4) are read but not judged"}});
Register p02({"P02", [](Run &r) { NetSim(r).go(); },
              "a set of addresses is changed, exported as networks of every source, sent as text through a file whose writer can die or as messages that are lost, duplicated and reordered, and rebuilt by a "
              "receiver; also histories of address, mask and range arithmetic; non-trivial: at least one exchange or history was completed",
              "numbers of networks and ranges, address and mask values", REAL, STUB,
              {"an address is not shifted by its width or more, no range below the first address is made, an empty range is not compared"}});
} // namespace

// Output generation: W01 W02 W03 W04 W05.
#include "sim.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <cmath>
#include <cstring>
#include <ctime>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>
#include "swoc/ArenaWriter.h"
#include "swoc/BufferWriter.h"
#include "swoc/MemArena.h"
#include "swoc/bwf_base.h"
#include "swoc/bwf_ex.h"
#include "swoc/bwf_ip.h"
#include "swoc/bwf_std.h"
#include "swoc/swoc_ip.h"

using namespace sim;
using swoc::ArenaWriter;
using swoc::BufferWriter;
using swoc::FixedBufferWriter;
using swoc::MemArena;
using swoc::MemSpan;
using swoc::TextView;
using swoc::bwf::Spec;
using std::string;

// ---------------------------------------------------------------- simulated clock
static bool g_clock_on    = false;
static int64_t g_clock_ns = 0;

static void
clock_read(struct timespec *ts)
{
  int64_t s = g_clock_ns / 1000000000, n = g_clock_ns % 1000000000;
  if (n < 0) {
    n += 1000000000;
    --s;
  }
  ts->tv_sec  = s;
  ts->tv_nsec = n;
}

extern "C" int
clock_gettime(clockid_t id, struct timespec *ts)
{
  if (g_clock_on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
    clock_read(ts);
    return 0;
  }
  return syscall(SYS_clock_gettime, id, ts);
}

extern "C" int
gettimeofday(struct timeval *tv, void *) noexcept
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec  = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}

extern "C" time_t
time(time_t *t) noexcept
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) {
    *t = ts.tv_sec;
  }
  return ts.tv_sec;
}

namespace {

// ---------------------------------------------------------------- reference time zones and dates
struct Zone {
  char const *tz;
  int std_off; ///< seconds east
  char const *std_name;
  bool dst; ///< second Sunday of March 02:00 to first Sunday of November 02:00, one hour
  char const *dst_name;
};
Zone const ZONES[] = {
  {"UTC0",                    0,            "UTC", false, ""   },
  {"CST6",                    -6 * 3600,    "CST", false, ""   },
  {"IST-5:30",                5 * 3600 + 1800, "IST", false, ""},
  {"EST5EDT,M3.2.0,M11.1.0",  -5 * 3600,    "EST", true,  "EDT"},
  {"NZX-12:45",               12 * 3600 + 2700, "NZX", false, ""},
  {"PST8PDT,M3.2.0,M11.1.0",  -8 * 3600,    "PST", true,  "PDT"},
};
constexpr unsigned N_ZONES = 6;

struct Civil {
  int64_t y;
  int mon, d, h, mi, s, wday, yday; ///< mon 1..12
  int off;
  string zone;
};

int64_t
days_from_civil(int64_t y, int m, int d)
{
  y           -= m <= 2;
  int64_t era  = (y >= 0 ? y : y - 399) / 400;
  int64_t yoe  = y - era * 400;
  int64_t doy  = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
  int64_t doe  = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468;
}

Civil
civil(int64_t t)
{
  Civil c;
  int64_t days = t >= 0 ? t / 86400 : -((-t + 86399) / 86400);
  int64_t rem  = t - days * 86400;
  c.h = rem / 3600, c.mi = rem % 3600 / 60, c.s = rem % 60;
  c.wday = ((days + 4) % 7 + 7) % 7;
  // search the year, slow and simple
  int64_t y = 1970 + days / 366;
  while (days_from_civil(y + 1, 1, 1) <= days) ++y;
  while (days_from_civil(y, 1, 1) > days) --y;
  c.y    = y;
  c.yday = days - days_from_civil(y, 1, 1);
  c.mon  = 12;
  while (days_from_civil(y, c.mon, 1) > days) --c.mon;
  c.d    = days - days_from_civil(y, c.mon, 1) + 1;
  c.off  = 0;
  c.zone = "GMT";
  return c;
}

int64_t
nth_sunday(int64_t y, int mon, int n)
{
  int64_t first = days_from_civil(y, mon, 1);
  int wd        = ((first + 4) % 7 + 7) % 7;
  return first + (7 - wd) % 7 + 7 * (n - 1);
}

Civil
civil_local(int64_t t, Zone const &z)
{
  int off = z.std_off;
  bool dst = false;
  if (z.dst) {
    int64_t y     = civil(t + z.std_off).y;
    int64_t begin = nth_sunday(y, 3, 2) * 86400 + 7200 - z.std_off;
    int64_t end   = nth_sunday(y, 11, 1) * 86400 + 7200 - (z.std_off + 3600);
    dst           = begin <= t && t < end;
  }
  if (dst) off += 3600;
  Civil c = civil(t + off);
  c.off   = off;
  c.zone  = dst ? z.dst_name : z.std_name;
  return c;
}

char const *const WDAYS[]  = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
char const *const MONTHS[] = {"January", "February", "March",     "April",   "May",      "June",
                              "July",    "August",   "September", "October", "November", "December"};

string
pad(int64_t n, int w, char c)
{
  string s = std::to_string(n < 0 ? -n : n);
  while (int(s.size()) < w) s.insert(s.begin(), c);
  return n < 0 ? "-" + s : s;
}

char const CONVERSIONS[] = "YmdHMSbajyepBAIZzDFTRCu%nt";

string
ref_strftime(char const *f, Civil const &c)
{
  string o;
  for (; *f; ++f) {
    if (*f != '%') {
      o += *f;
      continue;
    }
    switch (*++f) {
    case 'Y': o += std::to_string(c.y); break;
    case 'm': o += pad(c.mon, 2, '0'); break;
    case 'd': o += pad(c.d, 2, '0'); break;
    case 'e': o += pad(c.d, 2, ' '); break;
    case 'H': o += pad(c.h, 2, '0'); break;
    case 'I': o += pad(c.h % 12 ? c.h % 12 : 12, 2, '0'); break;
    case 'M': o += pad(c.mi, 2, '0'); break;
    case 'S': o += pad(c.s, 2, '0'); break;
    case 'b': o += string(MONTHS[c.mon - 1]).substr(0, 3); break;
    case 'B': o += MONTHS[c.mon - 1]; break;
    case 'a': o += string(WDAYS[c.wday]).substr(0, 3); break;
    case 'A': o += WDAYS[c.wday]; break;
    case 'j': o += pad(c.yday + 1, 3, '0'); break;
    case 'y': o += pad(c.y % 100, 2, '0'); break;
    case 'C': o += pad(c.y / 100, 2, '0'); break;
    case 'p': o += c.h < 12 ? "AM" : "PM"; break;
    case 'u': o += std::to_string(c.wday ? c.wday : 7); break;
    case 'Z': o += c.zone; break;
    case 'z': {
      int m = c.off / 60;
      o += m < 0 ? '-' : '+';
      m  = m < 0 ? -m : m;
      o += pad(m / 60, 2, '0') + pad(m % 60, 2, '0');
    } break;
    case 'D': o += pad(c.mon, 2, '0') + "/" + pad(c.d, 2, '0') + "/" + pad(c.y % 100, 2, '0'); break;
    case 'F': o += std::to_string(c.y) + "-" + pad(c.mon, 2, '0') + "-" + pad(c.d, 2, '0'); break;
    case 'T': o += pad(c.h, 2, '0') + ":" + pad(c.mi, 2, '0') + ":" + pad(c.s, 2, '0'); break;
    case 'R': o += pad(c.h, 2, '0') + ":" + pad(c.mi, 2, '0'); break;
    case '%': o += '%'; break;
    case 'n': o += '\n'; break;
    case 't': o += '\t'; break;
    }
  }
  return o;
}

// ---------------------------------------------------------------- specifiers
struct SpecM {
  int fill     = -1; ///< -1: not given
  bool encoded = false;
  char align   = 0;
  char sign    = 0;
  bool radix   = false;
  bool zero    = false;
  int min      = -1;
  int prec     = -1;
  int max      = -1;
  char type    = 0;
  bool type_last = false;
  string ext;
  bool has_ext = false;

  bool styled() const { return align || sign || radix || zero || min >= 0 || prec >= 0 || max >= 0 || type; }
  char eff_align() const { return align ? align : zero ? '=' : 0; }
  char eff_fill() const { return zero ? '0' : fill >= 0 ? char(fill) : ' '; }
  size_t eff_min() const { return min < 0 ? 0 : min; }
  string
  text() const
  {
    string s;
    if (align) {
      if (fill >= 0) {
        if (encoded) {
          char b[8];
          snprintf(b, sizeof(b), (fill & 1) ? "%%%02x" : "%%%02X", fill & 0xff);
          s += b;
        } else {
          s += char(fill);
        }
      }
      s += align;
    }
    if (sign) s += sign;
    if (radix) s += '#';
    if (zero) s += '0';
    if (min >= 0) s += std::to_string(min);
    if (prec >= 0) s += "." + std::to_string(prec);
    if (type && !(type_last && max >= 0)) s += type;
    if (max >= 0) s += "," + std::to_string(max);
    if (type && type_last && max >= 0) s += type;
    return s;
  }
};

// ---------------------------------------------------------------- arguments
enum Kind {
  K_SV, K_TV, K_STR, K_CSTR, K_NULLSTR, K_CHAR, K_BOOL, K_I8, K_I16, K_I32, K_I64, K_U8, K_U16, K_U32, K_U64, K_PTR, K_NULL, K_DBL, K_FLT, K_HUGE, K_SPECIAL,
  K_HEX, K_VSPAN, K_SPAN16, K_PATTERN, K_ERRNO, K_EC, K_ECMSG, K_IF, K_UNHEX, K_BITS, K_DUR, K_ATOMIC, K_EXC, K_FIRST,
  K_IP4, K_IP6, K_IPADDR, K_ENDPOINT, K_RANGE4, K_NET4, K_NET6, K_SRV4, K_SRV6, K_DATE, K_NEST, K_AUX,
  K_LIMIT, K_THROW
};

struct SimCategory : std::error_category {
  char const *name() const noexcept override { return "simulated"; }
  string message(int n) const override { return n % 2 ? "odd code" : ""; }
} g_category;

struct Val {
  Kind k = K_SV;
  string s;
  int64_t i  = 0;
  uint64_t u = 0;
  double d   = 0;
  int m = 0, whole_bits = 0;        ///< binary fraction m/1024 for K_DBL
  uint8_t ip[16] = {0};
  int width      = 0;
  string fmt;                       ///< formats in K_IF, K_NEST, K_DATE
  std::shared_ptr<swoc::bwf::Date> date;
  int64_t epoch = 0;
  std::shared_ptr<swoc::bwf::Errno> err;
  std::vector<uint16_t> words;
};

int g_throw_after = 0; ///< formatter K_THROW throws when this reaches zero

swoc::IP6Addr
ip6_of(uint8_t const *p)
{
  in6_addr a;
  memcpy(&a, p, 16);
  return swoc::IP6Addr(a);
}
swoc::IP4Addr
ip4_of(uint8_t const *p)
{
  return swoc::IP4Addr((uint32_t(p[0]) << 24) | (uint32_t(p[1]) << 16) | (uint32_t(p[2]) << 8) | p[3]);
}

BufferWriter &
bwformat(BufferWriter &w, Spec const &spec, Val const &v)
{
  using swoc::bwformat;
  switch (v.k) {
  case K_SV: return bwformat(w, spec, std::string_view(v.s));
  case K_TV: return bwformat(w, spec, TextView(v.s));
  case K_STR: return bwformat(w, spec, v.s);
  case K_CSTR: return bwformat(w, spec, v.s.c_str());
  case K_NULLSTR: return bwformat(w, spec, static_cast<char const *>(nullptr));
  case K_CHAR: return bwformat(w, spec, char(v.i));
  case K_BOOL: return bwformat(w, spec, v.i != 0);
  case K_I8: return bwformat(w, spec, static_cast<signed char>(v.i));
  case K_I16: return bwformat(w, spec, static_cast<short>(v.i));
  case K_I32: return bwformat(w, spec, static_cast<int>(v.i));
  case K_I64: return bwformat(w, spec, v.i);
  case K_U8: return bwformat(w, spec, static_cast<unsigned char>(v.u));
  case K_U16: return bwformat(w, spec, static_cast<unsigned short>(v.u));
  case K_U32: return bwformat(w, spec, static_cast<unsigned>(v.u));
  case K_U64: return bwformat(w, spec, v.u);
  case K_PTR: return bwformat(w, spec, reinterpret_cast<void const *>(v.u));
  case K_NULL: return bwformat(w, spec, nullptr);
  case K_DBL:
  case K_HUGE:
  case K_SPECIAL: return bwformat(w, spec, v.d);
  case K_FLT: return bwformat(w, spec, static_cast<float>(v.d));
  case K_HEX: return bwformat(w, spec, swoc::bwf::As_Hex(v.u));
  case K_VSPAN: return bwformat(w, spec, MemSpan<void const>(v.s.data(), v.s.size()));
  case K_SPAN16: return bwformat(w, spec, MemSpan<uint16_t const>(v.words.data(), v.words.size()));
  case K_PATTERN: return bwformat(w, spec, swoc::bwf::Pattern{int(v.i), v.s});
  case K_ERRNO: return bwformat(w, spec, *v.err);
  case K_EC: return bwformat(w, spec, std::error_code(int(v.i), v.u ? std::system_category() : std::generic_category()));
  case K_ECMSG: return bwformat(w, spec, std::error_code(int(v.i), g_category));
  case K_IF: return bwformat(w, spec, swoc::bwf::If(v.i != 0, TextView(v.fmt), v.s, v.u));
  case K_UNHEX: return bwformat(w, spec, swoc::bwf::UnHex(MemSpan<void const>(v.s.data(), v.s.size())));
  case K_BITS: return bwformat(w, spec, std::bitset<12>(v.u));
  case K_DUR: return bwformat(w, spec, std::chrono::milliseconds(v.i));
  case K_ATOMIC: {
    std::atomic<int> a{int(v.i)};
    return bwformat(w, spec, a);
  }
  case K_EXC: return bwformat(w, spec, static_cast<std::exception const &>(std::runtime_error(v.s)));
  case K_FIRST: return bwformat(w, spec, swoc::bwf::FirstOf(nullptr, "", v.s, std::string_view{"last"}));
  case K_IP4: return bwformat(w, spec, ip4_of(v.ip));
  case K_IP6: return bwformat(w, spec, ip6_of(v.ip));
  case K_IPADDR: return v.i ? bwformat(w, spec, swoc::IPAddr(ip6_of(v.ip))) : bwformat(w, spec, swoc::IPAddr(ip4_of(v.ip)));
  case K_ENDPOINT: {
    swoc::IPEndpoint ep;
    if (v.i) {
      ep.assign(swoc::IPSrv(swoc::IPAddr(ip6_of(v.ip)), v.u));
    } else {
      ep.assign(swoc::IPSrv(swoc::IPAddr(ip4_of(v.ip)), v.u));
    }
    return bwformat(w, spec, ep);
  }
  case K_RANGE4: return bwformat(w, spec, swoc::IP4Range(ip4_of(v.ip), ip4_of(v.ip + 4)));
  case K_NET4: return bwformat(w, spec, swoc::IP4Net(ip4_of(v.ip), swoc::IPMask(v.width)));
  case K_NET6: return bwformat(w, spec, swoc::IP6Net(ip6_of(v.ip), swoc::IPMask(v.width)));
  case K_SRV4: return bwformat(w, spec, swoc::IP4Srv(ip4_of(v.ip), v.u));
  case K_SRV6: return bwformat(w, spec, swoc::IP6Srv(ip6_of(v.ip), v.u));
  case K_DATE: return bwformat(w, spec, *v.date);
  case K_NEST: return w.print(TextView(v.fmt), v.s, v.u);
  case K_AUX: { // generate in the unused space, as for snprintf
    do {
      if (size_t n = std::min(w.remaining(), v.s.size()); n) {
        memcpy(w.aux_data(), v.s.data(), n);
      }
    } while (!w.commit(v.s.size()));
    return w;
  }
  case K_THROW:
    w.write("partial");
    if (--g_throw_after <= 0) {
      throw Injected{5};
    }
    return w;
  default: return w;
  }
}

// ---------------------------------------------------------------- reference rendering
string
place(SpecM const &sp, string v, char align)
{
  size_t max = sp.max < 0 ? SIZE_MAX : sp.max;
  size_t min = std::min(sp.eff_min(), max);
  if (v.size() < min) {
    size_t d = min - v.size(), left = 0;
    if (align == '>') left = d;
    if (align == '^') left = d / 2;
    v = string(left, sp.eff_fill()) + v + string(d - left, sp.eff_fill());
  }
  return v.size() > max ? v.substr(0, max) : v;
}

string
radix_of(uint64_t n, unsigned base, bool upper)
{
  string s;
  do {
    s.insert(s.begin(), (upper ? "0123456789ABCDEF" : "0123456789abcdef")[n % base]);
    n /= base;
  } while (n);
  return s;
}

/// Sign, prefix and digits as a field body, with fill inside if so aligned.
string
number(SpecM const &sp, string lead, string digits)
{
  if (sp.eff_align() == '=' && lead.size() + digits.size() < sp.eff_min()) {
    return lead + string(sp.eff_min() - lead.size() - digits.size(), sp.eff_fill()) + digits;
  }
  return lead + digits;
}

string
ref_int(SpecM const &sp, uint64_t n, bool neg, char type)
{
  string lead;
  if (sp.sign != ' ') {
    if (neg) {
      lead = "-";
    } else if (sp.sign == '+') {
      lead = "+";
    }
  }
  string digits;
  switch (type) {
  case 'x':
  case 'X':
    digits = radix_of(n, 16, type == 'X');
    if (sp.radix) lead += string("0") + type;
    break;
  case 'b':
  case 'B':
    digits = radix_of(n, 2, false);
    if (sp.radix) lead += string("0") + type;
    break;
  case 'o':
    digits = radix_of(n, 8, false);
    if (sp.radix) lead += "0";
    break;
  default: digits = radix_of(n, 10, false);
  }
  return number(sp, lead, digits);
}

string
ref_hex(string const &b, bool upper)
{
  string s;
  for (unsigned char c : b) s += radix_of(c >> 4, 16, upper) + radix_of(c & 15, 16, upper);
  return s;
}

string
ref_text(SpecM const &sp, string s)
{
  if (sp.prec > 0) s = s.substr(0, sp.prec);
  if (sp.type == 'x' || sp.type == 'X') {
    return number(sp, sp.radix ? string("0") + sp.type : "", ref_hex(s, sp.type == 'X'));
  }
  for (char &c : s) {
    if (sp.type == 's' && c >= 'A' && c <= 'Z') c += 32;
    if (sp.type == 'S' && c >= 'a' && c <= 'z') c -= 32;
  }
  return s;
}

string
ref_ip4(SpecM const &sp, uint8_t const *p)
{
  string s;
  char fc = 0;
  if (!sp.ext.empty() && sp.ext[0] == '=') {
    fc = '0';
  } else if (sp.ext.size() > 1 && sp.ext[1] == '=') {
    fc = sp.ext[0];
  }
  for (int i = 0; i < 4; ++i) {
    string o = radix_of(p[i], sp.type == 'x' || sp.type == 'X' ? 16 : 10, sp.type == 'X');
    while (fc && o.size() < 3) o.insert(o.begin(), fc);
    s += (i ? "." : "") + o;
  }
  return s;
}

string
ref_ip6(SpecM const &sp, uint8_t const *p)
{
  char fc = 0;
  if (!sp.ext.empty() && sp.ext[0] == '=') {
    fc = '0';
  } else if (sp.ext.size() > 1 && sp.ext[1] == '=') {
    fc = sp.ext[0];
  }
  std::vector<string> q;
  for (int i = 0; i < 16; i += 2) {
    string o = radix_of(p[i] * 256 + p[i + 1], 16, sp.type == 'X');
    while (fc && o.size() < 4) o.insert(o.begin(), fc);
    q.push_back(o);
  }
  int best = -1, len = 1; // the longest run of at least two zero elements, the first of those
  for (int i = 0; !fc && i < 8; ++i) {
    int n = 0;
    while (i + n < 8 && q[i + n] == "0") ++n;
    if (n > len) best = i, len = n;
  }
  string s;
  for (int i = 0; i < 8; ++i) {
    if (i == best) {
      s += "::";
      i += len - 1;
      continue;
    }
    if (!s.empty() && s.back() != ':') s += ':';
    s += q[i];
  }
  return s;
}

string
errno_name(int e)
{
  if (e == 0) return "SUCCESS";
  if (e < 0 || e > 133) return "Unknown";
  char const *n = strerrorname_np(e);
  return n ? n : "";
}

string ref_format(string const &fmt, string const &s, uint64_t u); // "{}" style used in nested formats

string
ref_value(SpecM const &sp, Val const &v, Zone const &zone)
{
  switch (v.k) {
  case K_SV:
  case K_TV:
  case K_STR: return ref_text(sp, v.s);
  case K_CSTR: return ref_text(sp, v.s);
  case K_NULLSTR:
  case K_NULL:
    switch (sp.type) {
    case 's': return "null";
    case 'S': return "NULL";
    case 0:
    case 'g': return "";
    case 'x':
    case 'p': return number(sp, "0x", "0");
    default: return number(sp, "0X", "0");
    }
  case K_CHAR: return string(1, char(v.i));
  case K_BOOL:
    if (sp.type == 's') return v.i ? "true" : "false";
    if (sp.type == 'S') return v.i ? "TRUE" : "FALSE";
    return ref_int(sp, v.i != 0, false, sp.type);
  case K_I8:
  case K_I16:
  case K_I32:
  case K_I64:
  case K_DUR:
  case K_ATOMIC: return ref_int(sp, v.i < 0 ? uint64_t(0) - uint64_t(v.i) : v.i, v.i < 0, sp.type);
  case K_U8:
  case K_U16:
  case K_U32:
  case K_U64: return ref_int(sp, v.u, false, sp.type);
  case K_PTR: {
    bool up = sp.type == 'P' || sp.type == 'X';
    return number(sp, up ? "0X" : "0x", radix_of(v.u, 16, up));
  }
  case K_DBL:
  case K_FLT: {
    if (v.m == 0) return ref_int(sp, v.u, v.i, 0);
    unsigned p          = sp.prec < 0 ? 2 : sp.prec;
    unsigned __int128 t = v.m, e = 1;
    unsigned pp         = std::min(p, 19u); // more places are zero, v.m has at most ten
    for (unsigned k = 0; k < pp; ++k) t *= 10, e *= 10;
    t              = (t * 2 + 1024) / 2048; // half up
    uint64_t whole = v.u;
    if (t >= e) t -= e, ++whole;
    string frac;
    for (unsigned k = 0; k < pp; ++k, t /= 10) frac.insert(frac.begin(), char('0' + int(t % 10)));
    frac.append(p - pp, '0');
    return number(sp, v.i ? "-" : sp.sign == '+' ? "+" : "", radix_of(whole, 10, false) + "." + frac);
  }
  case K_HUGE: return number(sp, v.i ? "-" : sp.sign == '+' ? "+" : "", v.s);
  case K_SPECIAL: return v.s;
  case K_HEX: {
    string b(reinterpret_cast<char const *>(&v.u), 8);
    bool up = sp.type == 'X';
    return number(sp, sp.radix ? (up ? "0X" : "0x") : "", ref_hex(b, up));
  }
  case K_VSPAN:
  case K_SPAN16: {
    string b = v.k == K_VSPAN ? v.s : string(reinterpret_cast<char const *>(v.words.data()), v.words.size() * 2);
    bool up  = sp.type == 'X';
    size_t block = sp.prec > 0 ? sp.prec : v.k == K_SPAN16 ? 2 : b.size();
    string o;
    for (size_t k = 0; k < b.size(); k += block) {
      o += (k ? " " : "") + string(sp.radix ? (up ? "0X" : "0x") : "") + ref_hex(b.substr(k, block), up);
    }
    return o;
  }
  case K_PATTERN: {
    string o;
    for (int64_t k = 0; k < v.i; ++k) o += v.s;
    return o;
  }
  case K_ERRNO: {
    string num = "[" + std::to_string(v.i) + "]";
    if (sp.type && strchr("dxXbBo", sp.type)) return num;
    string o;
    bool s = sp.ext.empty() || sp.ext.find('s') != string::npos, l = sp.ext.empty() || sp.ext.find('l') != string::npos;
    if (s) o = errno_name(v.i);
    if (l) o += (s ? ": " : "") + string(strerrordesc_np(v.i) ? strerrordesc_np(v.i) : "Unknown error " + std::to_string(v.i));
    if (sp.type != 's' && sp.type != 'S') o += " " + num;
    return o;
  }
  case K_EC:
  case K_ECMSG: {
    if (sp.type == 'd') return ref_int(sp, v.i, false, 'd');
    string o = v.k == K_EC ? errno_name(v.i) : v.i % 2 ? "odd code" : "";
    if (v.k == K_EC && sp.type) o = ref_text(sp, o);
    if (sp.type != 's' && sp.type != 'S') o += " [" + std::to_string(v.i) + "]";
    return o;
  }
  case K_IF: return v.i ? ref_format(v.fmt, v.s, v.u) : "";
  case K_NEST: return ref_format(v.fmt, v.s, v.u);
  case K_UNHEX: {
    string o;
    auto nib = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    for (size_t k = 0; k + 1 < v.s.size(); k += 2) o += char(nib(v.s[k]) * 16 + nib(v.s[k + 1]));
    return o;
  }
  case K_BITS: {
    string o;
    for (int k = 0; k < 12; ++k) o += (v.u >> k) & 1 ? '1' : '0';
    return o;
  }
  case K_EXC: return "Exception - " + v.s;
  case K_FIRST: return v.s.empty() ? "last" : v.s;
  case K_IP4: return ref_ip4(sp, v.ip);
  case K_IP6: return ref_ip6(sp, v.ip);
  case K_IPADDR: return v.i ? ref_ip6(sp, v.ip) : ref_ip4(sp, v.ip);
  case K_ENDPOINT: {
    string e = sp.ext;
    char fc  = 0;
    if (!e.empty() && e[0] == '=') {
      fc = '0';
      e  = e.substr(1);
    } else if (e.size() > 1 && e[1] == '=') {
      fc = e[0];
      e  = e.substr(2);
    }
    bool a = e.empty() || e.find_first_of("aA") != string::npos, p = e.empty() || e.find_first_of("pP") != string::npos,
         f = e.find_first_of("fF") != string::npos;
    string o;
    if (a) {
      o = v.i ? ref_ip6(sp, v.ip) : ref_ip4(sp, v.ip);
      if (v.i && p) o = "[" + o + "]";
      if (p) o += ":";
    }
    if (p) {
      string n = std::to_string(v.u);
      while (fc && n.size() < 5) n.insert(n.begin(), fc);
      o += n;
    }
    if (f) {
      if (a || p) o += " ";
      o += v.i ? "ipv6" : "ipv4";
    }
    return o;
  }
  case K_RANGE4: {
    uint32_t lo = 0, hi = 0;
    for (int k = 0; k < 4; ++k) lo = lo * 256 + v.ip[k], hi = hi * 256 + v.ip[4 + k];
    if (sp.ext.find('c') != string::npos) {
      if (lo == hi) return ref_ip4(SpecM{}, v.ip);
      uint64_t n = uint64_t(hi) - lo + 1;
      if ((n & (n - 1)) == 0 && lo % n == 0) {
        int w = 32;
        while (n > 1) n /= 2, --w;
        return ref_ip4(SpecM{}, v.ip) + "/" + std::to_string(w);
      }
    }
    return ref_ip4(SpecM{}, v.ip) + "-" + ref_ip4(SpecM{}, v.ip + 4);
  }
  case K_NET4:
  case K_NET6: {
    uint8_t b[16];
    memcpy(b, v.ip, 16);
    for (int k = v.width; k < 128; ++k) b[k / 8] &= ~(0x80 >> (k % 8));
    return (v.k == K_NET4 ? ref_ip4(SpecM{}, b) : ref_ip6(SpecM{}, b)) + "/" + std::to_string(v.width);
  }
  case K_SRV4: return ref_ip4(SpecM{}, v.ip) + (v.u ? ":" + std::to_string(v.u) : "");
  case K_SRV6: return v.u ? "[" + ref_ip6(SpecM{}, v.ip) + "]:" + std::to_string(v.u) : ref_ip6(SpecM{}, v.ip);
  case K_DATE: {
    if (sp.type && strchr("dxXbBo", sp.type)) return ref_int(sp, v.epoch < 0 ? -uint64_t(v.epoch) : v.epoch, v.epoch < 0, sp.type);
    return ref_strftime(v.fmt.c_str(), sp.ext == "local" ? civil_local(v.epoch, zone) : civil(v.epoch));
  }
  case K_AUX: return v.s;
  case K_THROW: return "partial";
  default: return "";
  }
}

string
ref_format(string const &fmt, string const &s, uint64_t u)
{
  string o;
  int idx = 0;
  for (size_t k = 0; k < fmt.size(); ++k) {
    if (fmt[k] == '{' && fmt[k + 1] == '}') {
      o += idx++ == 0 ? s : std::to_string(u);
      ++k;
    } else if (fmt.compare(k, 3, "{1}") == 0) {
      o += std::to_string(u);
      k += 2;
    } else if (fmt.compare(k, 5, "{:>6}") == 0) {
      o   += s.size() < 6 ? string(6 - s.size(), ' ') + s : s;
      ++idx;
      k   += 4;
    } else {
      o += fmt[k];
    }
  }
  return o;
}

// ---------------------------------------------------------------- generators
string
gen_text(Run &r, unsigned max)
{
  static char const CH[] = "abcXYZ 019-_.:=<>^%#+,\xc3\xa9";
  string s;
  for (unsigned n = r.small(max + 1); n; --n) s += CH[r.pick(sizeof(CH) - 1)];
  return s;
}

char const *const DATE_FMTS[] = {"%Y %b %d %H:%M:%S", "%a, %d %b %Y at %H.%M.%S", "%H:%M", "%F %T %z", "%Z", "%A %B %e %j", "day"};

Val
gen_val(Run &r, bool throwing)
{
  Val v;
  unsigned k = r.pick(K_LIMIT + (throwing ? 3 : 0));
  v.k        = k >= K_LIMIT ? K_THROW : Kind(k);
  auto ival  = [&](int bits) -> int64_t {
    int64_t top = bits == 64 ? INT64_MAX : (int64_t(1) << (bits - 1)) - 1;
    switch (r.pick(6)) {
    case 0: return r.pick(10);
    case 1: return -int64_t(r.pick(10));
    case 2: return top;
    case 3: return -top - 1;
    case 4: return int64_t(r.bits64()) >> (64 - bits);
    default: return (int64_t(r.bits64()) >> (64 - bits)) >> r.pick(bits);
    }
  };
  auto uval = [&](int bits) -> uint64_t {
    uint64_t top = bits == 64 ? UINT64_MAX : (uint64_t(1) << bits) - 1;
    switch (r.pick(4)) {
    case 0: return r.pick(12);
    case 1: return top;
    case 2: return r.bits64() & top;
    default: return (r.bits64() & top) >> r.pick(bits);
    }
  };
  auto ip = [&] {
    for (auto &b : v.ip) b = r.coin() ? 0 : r.pick(256);
    if (r.one_in(8)) memset(v.ip, r.coin() ? 0 : 255, 16);
  };
  switch (v.k) {
  case K_SV: case K_TV: case K_STR: case K_CSTR: case K_EXC: case K_FIRST: case K_VSPAN: v.s = gen_text(r, 24); break;
  case K_AUX: v.s = gen_text(r, 90); break;
  case K_CHAR: v.i = "ax{}%\xff"[r.pick(6)]; break;
  case K_BOOL: v.i = r.pick(2); break;
  case K_I8: v.i = ival(8); break;
  case K_I16: v.i = ival(16); break;
  case K_ATOMIC:
  case K_I32: v.i = ival(32); break;
  case K_DUR:
  case K_I64: v.i = ival(64); break;
  case K_U8: v.u = uval(8); break;
  case K_U16: v.u = uval(16); break;
  case K_U32: v.u = uval(32); break;
  case K_HEX:
  case K_U64: v.u = uval(64); break;
  case K_PTR: v.u = uval(47) | 1; break;
  case K_DBL:
    v.m = r.pick(1024) & (r.coin() ? ~0 : ~3);
    v.u = uval(40);
    if (!v.m && !v.u) v.u = 1;
    v.i = r.coin();
    v.d = (double(v.u) + v.m / 1024.0) * (v.i ? -1 : 1);
    break;
  case K_FLT:
    v.m = r.pick(256) * 4;
    v.u = uval(12);
    if (!v.m && !v.u) v.u = 1;
    v.i = r.coin();
    v.d = (double(v.u) + v.m / 1024.0) * (v.i ? -1 : 1);
    break;
  case K_HUGE: {
    static std::pair<double, char const *> const H[] = {{18446744073709551616.0, "18446744073709551616"}, {1e20, "100000000000000000000"}, {1.5e20, "150000000000000000000"}};
    unsigned n = r.pick(4);
    v.i        = r.coin();
    v.d        = n == 3 ? std::ldexp(1.0, 1000) : H[n].first;
    if (n == 3) {
      char b[400];
      snprintf(b, sizeof(b), "%.0f", v.d);
      v.s = b;
    } else {
      v.s = H[n].second;
    }
    if (v.i) v.d = -v.d;
  } break;
  case K_SPECIAL:
    switch (r.pick(3)) {
    case 0: v.d = 0, v.s = "0"; break;
    case 1: v.d = INFINITY, v.s = "Inf"; break;
    default: v.d = NAN, v.s = "NaN"; break;
    }
    break;
  case K_SPAN16:
    for (unsigned n = r.pick(7); n; --n) v.words.push_back(uval(16));
    break;
  case K_PATTERN: v.i = int(r.pick(9)) - 1, v.s = gen_text(r, 6); break;
  case K_ERRNO:
    v.i   = r.one_in(8) ? 134 + r.pick(5) : r.pick(134);
    if (v.i == 41 || v.i == 58) v.i = 7;
    v.err = std::make_shared<swoc::bwf::Errno>(int(v.i));
    break;
  case K_EC: v.i = 1 + r.pick(35), v.u = r.pick(2); break;
  case K_ECMSG: v.i = r.pick(200); break;
  case K_IF: v.i = r.pick(2); [[fallthrough]];
  case K_NEST: {
    static char const *const F[] = {" [{}]", "{}-{}", "<{1}>", "({:>6}|{})", "plain", "{}"};
    v.fmt = F[r.pick(6)], v.s = gen_text(r, 10), v.u = uval(32);
  } break;
  case K_UNHEX:
    for (unsigned n = r.pick(8) * 2; n; --n) v.s += "0123456789abcdefABCDEF"[r.pick(22)];
    break;
  case K_BITS: v.u = uval(12); break;
  case K_IP4: case K_IP6: ip(); break;
  case K_IPADDR: ip(), v.i = r.pick(2); break;
  case K_ENDPOINT: ip(), v.i = r.pick(2), v.u = uval(16); break;
  case K_RANGE4: {
    ip();
    if (r.coin()) { // a network
      int w = r.pick(33);
      for (int k = 0; k < 32; ++k) {
        int bit = 0x80 >> (k % 8);
        if (k >= w) v.ip[k / 8] &= ~bit;
      }
      memcpy(v.ip + 4, v.ip, 4);
      for (int k = w; k < 32; ++k) v.ip[4 + k / 8] |= 0x80 >> (k % 8);
    } else if (memcmp(v.ip, v.ip + 4, 4) > 0) {
      for (int k = 0; k < 4; ++k) std::swap(v.ip[k], v.ip[k + 4]);
    }
  } break;
  case K_NET4: ip(), v.width = r.pick(33); break;
  case K_NET6: ip(), v.width = r.pick(129); break;
  case K_SRV4:
  case K_SRV6: ip(), v.u = uval(16); break;
  case K_DATE:
    v.fmt   = DATE_FMTS[r.pick(7)];
    if (r.one_in(12)) { // longer than any fixed buffer
      for (unsigned n = 20 + r.pick(40); n; --n) v.fmt += " %A %B %Y";
    }
    v.epoch = r.coin() ? int64_t(r.bits64() % 7258118400ull) : 1528484137;
    v.date  = nullptr; // made when the value is in place, it views the format
    break;
  default: break;
  }
  return v;
}

void
fix_date(Val &v)
{
  if (v.k == K_DATE && !v.date) v.date = std::make_shared<swoc::bwf::Date>(time_t(v.epoch), std::string_view(v.fmt));
}

enum Style { ST_GENERIC, ST_TEXT, ST_INT, ST_BOOL, ST_PTR, ST_NULL, ST_FLOAT, ST_HEX, ST_SPAN, ST_ERRNO, ST_EC, ST_MAXONLY, ST_IP, ST_EP, ST_RANGE, ST_DATE, ST_PLAIN };

Style
style_of(Val const &v)
{
  switch (v.k) {
  case K_SV: case K_TV: case K_STR: case K_FIRST: return v.k == K_FIRST ? ST_GENERIC : ST_TEXT;
  case K_CSTR: return ST_TEXT;
  case K_NULLSTR: case K_NULL: return ST_NULL;
  case K_BOOL: return ST_BOOL;
  case K_I8: case K_I16: case K_I32: case K_I64: case K_U8: case K_U16: case K_U32: case K_U64: case K_DUR: case K_ATOMIC: return ST_INT;
  case K_PTR: return ST_PTR;
  case K_DBL: case K_FLT: case K_HUGE: return ST_FLOAT;
  case K_HEX: return ST_HEX;
  case K_VSPAN: case K_SPAN16: return ST_SPAN;
  case K_ERRNO: return ST_ERRNO;
  case K_EC: case K_ECMSG: return ST_EC;
  case K_EXC: return ST_MAXONLY;
  case K_IP4: case K_IP6: case K_IPADDR: return ST_IP;
  case K_ENDPOINT: return ST_EP;
  case K_RANGE4: return ST_RANGE;
  case K_DATE: return ST_DATE;
  default: return ST_GENERIC;
  }
}

SpecM
gen_spec(Run &r, Val const &v, Style st)
{
  SpecM s;
  if (st == ST_SPAN) s.type = r.coin() ? 'x' : 'X';
  if (r.coin()) {
    if (st == ST_ERRNO && r.coin()) s.has_ext = true, s.ext = r.of(std::vector<string>{"s", "l", "sl"});
    return s;
  }
  bool sign_align = false; // the value has a sign or prefix that fill can follow
  auto type       = [&](char const *t) {
    unsigned n = r.pick(strlen(t) + 1);
    s.type     = n ? t[n - 1] : 0;
  };
  switch (st) {
  case ST_TEXT:
    type(v.k == K_CSTR ? "gsS" : "gsSxX");
    if (r.one_in(4)) s.prec = 1 + r.pick(12);
    if (s.type == 'x' || s.type == 'X') s.radix = r.coin(), sign_align = true;
    break;
  case ST_INT:
    type("gdxXbBo");
    s.sign     = "\0\0+- "[r.pick(5)];
    s.radix    = r.one_in(3);
    sign_align = true;
    break;
  case ST_BOOL: type("gdxsS"); break;
  case ST_PTR: type("gpPxX"), sign_align = true; break;
  case ST_NULL: type("gsSxXpP"), sign_align = s.type && strchr("xXpP", s.type); break;
  case ST_FLOAT:
    s.sign     = "\0\0+-"[r.pick(4)];
    sign_align = true;
    if (v.k != K_HUGE && r.coin()) {
      s.prec = 1 + r.pick(r.one_in(20) ? 80 : r.one_in(4) ? 25 : 8);
      if (s.prec > 17 && (v.m & 3)) s.prec = 17;
    }
    break;
  case ST_HEX: type("xX"), s.radix = r.coin(), sign_align = true; break;
  case ST_SPAN:
    s.radix = r.coin();
    if (r.coin()) s.prec = 1 + r.pick(5);
    break;
  case ST_ERRNO: type("gsSdx"); break;
  case ST_EC: type("gsSd"); break;
  case ST_IP:
    if (v.k == K_IP4) type("gx");
    break;
  case ST_DATE: type("gd"); break;
  default: break;
  }
  switch (st) {
  case ST_ERRNO: if (r.coin()) s.has_ext = true, s.ext = r.of(std::vector<string>{"s", "l", "sl"}); break;
  case ST_IP: if (r.coin()) s.has_ext = true, s.ext = r.of(std::vector<string>{"=", "0=", " =", "*="}); break;
  case ST_EP: if (r.coin()) s.has_ext = true, s.ext = r.of(std::vector<string>{"a", "p", "f", "ap", "paf", "=", "=a", "0=p", " =ap", "="}); break;
  case ST_RANGE: if (r.coin()) s.has_ext = true, s.ext = "c"; break;
  case ST_DATE: if (r.coin()) s.has_ext = true, s.ext = r.coin() ? "local" : "gmt"; break;
  default: break;
  }
  if (st == ST_EC || st == ST_MAXONLY) {
    if (r.coin()) s.max = r.pick(30);
    s.type_last = r.coin();
    return s;
  }
  if (r.coin()) {
    s.align = "<>^="[r.pick(sign_align ? 4 : 3)];
    if (r.coin()) {
      static char const FILLS[] = "*0 .<>=^+-#:{}%\xe9\x01";
      s.fill    = FILLS[r.pick(sizeof(FILLS) - 1)];
      s.encoded = strchr(":{}%", s.fill) || r.one_in(4);
    }
  }
  if (r.coin()) s.min = r.one_in(60) ? r.pick(1100) : r.one_in(8) ? r.pick(120) : r.pick(24);
  if (sign_align && r.one_in(5)) s.zero = true;
  if (r.one_in(3)) s.max = r.one_in(40) ? r.pick(1100) : r.one_in(4) ? r.pick(100) : r.pick(16);
  if (s.max >= 0 && s.min > s.max) { // the sides are not defined if both apply
    s.zero = false;
    if (s.align == '>' || s.align == '^' || s.align == '=') s.align = '<';
  }
  s.type_last = r.coin();
  return s;
}

struct Ctx {
  string text;
};
using CtxNames = swoc::bwf::ContextNames<Ctx>;

struct Plan {
  std::vector<Val> args;
  string fmt;      ///< format string
  string out;      ///< what it means
  bool bad       = false; ///< malformed, @a out is for the part before the error
  bool throws    = false; ///< can stop in a formatter
  bool names     = false; ///< uses context names
  bool literal   = true;
  struct Tok {
    string lit;
    bool field    = false;
    bool captured = false; ///< the argument goes to the extractor
    string spec;
    size_t idx = 0;
  };
  std::vector<Tok> toks; ///< the same for an extractor of our own, without a malformed part
  bool captures = false;

  Tok &
  tok(Run &r)
  {
    if (toks.empty() || toks.back().field || r.one_in(3)) toks.emplace_back();
    return toks.back();
  }
};

string
name_value(string const &name, Ctx const &ctx, bool bound)
{
  if (name == "g_text") return "global";
  if (name == "g_none") return "";
  if (bound && name == "c_text") return ctx.text;
  if (bound && name == "c_num") return std::to_string(ctx.text.size());
  return "{~" + name + "~}";
}

/// Make a format and arguments for it. @a bound if context names are available.
Plan
gen_plan(Run &r, Zone const &zone, Ctx const &ctx, bool bound, bool faults, unsigned max_items, bool own = false)
{
  Plan p;
  bool throwing = faults && r.one_in(5);
  for (unsigned n = r.pick(5); n; --n) {
    p.args.push_back(gen_val(r, throwing));
    if (p.args.back().k == K_THROW) p.throws = true;
  }
  for (auto &v : p.args) fix_date(v);
  int implicit   = 0;
  unsigned items = r.pick(max_items + 1);
  for (unsigned n = 0; n < items; ++n) {
    switch (r.pick(4)) {
    case 0: { // text
      string t = gen_text(r, r.one_in(5) ? 60 : 8);
      p.fmt += t, p.out += t;
      if (own) {
        string &l = p.tok(r).lit;
        if (l.empty()) l = t;
        else p.toks.emplace_back(), p.toks.back().lit = t;
      }
    } break;
    case 1:
      if (r.coin()) {
        bool b  = r.coin();
        p.fmt  += b ? "{{" : "}}";
        p.out  += b ? "{" : "}";
        if (own) p.toks.emplace_back(), p.toks.back().lit = b ? "{" : "}";
        break;
      }
      [[fallthrough]];
    default: {
      p.literal = false;
      string name;
      string body;
      SpecM sp;
      bool stop = false;
      if (r.one_in(5)) {
        static char const *const N[] = {"g_text", "g_none", "c_text", "c_num", "missing", "x9"};
        name = N[r.pick(6)];
        Val dummy;
        sp   = gen_spec(r, dummy, ST_GENERIC);
        body = place(sp, name_value(name, ctx, bound), sp.eff_align());
      } else {
        size_t idx;
        if (r.coin()) {
          idx = implicit++;
        } else {
          idx  = r.one_in(10) ? p.args.size() + r.pick(3) : p.args.empty() ? 0 : r.pick(p.args.size());
          name = std::to_string(idx);
          if (r.one_in(20)) name = "0" + name;
          if (r.one_in(20)) { // too large
            name = "4294967296";
            idx  = INT32_MAX;
          }
        }
        if (own && idx < p.args.size() && r.one_in(3)) { // taken by the extractor
          auto &t    = p.tok(r);
          t.field    = true;
          t.captured = true;
          t.spec     = name;
          t.idx      = idx;
          p.captures = true;
          if (r.coin()) t.spec += ":" + std::to_string(r.pick(20));
          break;
        }
        if (idx < p.args.size()) {
          Val const &v = p.args[idx];
          if (v.k != K_THROW) sp = gen_spec(r, v, style_of(v));
          body         = place(sp, ref_value(sp, v, zone), sp.eff_align());
          if (v.k == K_THROW) stop = true;
        } else {
          Val dummy;
          sp   = gen_spec(r, dummy, ST_GENERIC);
          body = place(sp, "{BAD_ARG_INDEX:" + std::to_string(idx) + " of " + std::to_string(p.args.size()) + "}", sp.eff_align());
        }
      }
      string st = name;
      if (sp.styled() || sp.has_ext || r.one_in(6)) st += ":" + sp.text();
      if (sp.has_ext) st += ":" + sp.ext;
      p.fmt += "{" + st + "}";
      if (own) {
        auto &t = p.tok(r);
        t.field = true;
        t.spec  = st;
      }
      p.out += body;
      if (stop) { // nothing after this is seen if it throws
        return p;
      }
    }
    }
  }
  if (!own && faults && r.one_in(6)) {
    static char const *const BAD[] = {"}x", "{:%4<5} after", "{:%zz<5}", "{:.}", "{:,q} {}", "{0:4.x}", "{", "}", "{0:d", "{name"};
    p.fmt += BAD[r.pick(10)];
    p.bad  = true;
  }
  return p;
}

class DynPack : public swoc::bwf::ArgPack
{
public:
  explicit DynPack(std::vector<Val> const &a) : _a(a) {}
  std::any capture(unsigned idx) const override { return {&_a[idx]}; }
  BufferWriter &print(BufferWriter &w, Spec const &spec, unsigned idx) const override { return bwformat(w, spec, _a[idx]); }
  unsigned count() const override { return _a.size(); }

private:
  std::vector<Val> const &_a;
};

CtxNames &
ctx_names()
{
  static CtxNames *n = [] {
    auto *x = new CtxNames;
    x->assign("c_text", CtxNames::Generator([](BufferWriter &w, Spec const &spec, Ctx &c) -> BufferWriter & { return swoc::bwformat(w, spec, std::string_view(c.text)); }));
    x->assign("c_num", CtxNames::Generator([](BufferWriter &w, Spec const &, Ctx &c) -> BufferWriter & { return w.print("{}", c.text.size()); }));
    x->assign("g_text", CtxNames::ExternalGenerator([](BufferWriter &w, Spec const &spec) -> BufferWriter & { return swoc::bwformat(w, spec, std::string_view("global")); }));
    x->assign("g_none", CtxNames::ExternalGenerator([](BufferWriter &w, Spec const &) -> BufferWriter & { return w; }));
    return x;
  }();
  return *n;
}

/// Let facilities made on first use be made before a run.
void
warm_up()
{
  static bool done = false;
  if (done) return;
  done = true;
  swoc::bwf::Global_Names.assign("g_text", [](BufferWriter &w, Spec const &spec) -> BufferWriter & { return swoc::bwformat(w, spec, std::string_view("global")); });
  swoc::bwf::Global_Names.assign("g_none", [](BufferWriter &w, Spec const &) -> BufferWriter & { return w; });
  ctx_names();
  swoc::LocalBufferWriter<4096> w;
  w.print("{7} {:8}", 1);
  Ctl *run_ctl = ctl; // not a part of the run
  ctl          = new Ctl;
  for (char const *f : {"{}", "{:d}", "{:x}", "{:s}"}) {
    Run r(7);
    for (int n = 0; n < 3000; ++n) {
      Val v = gen_val(r, false);
      fix_date(v);
      w.clear().print(TextView(f), v);
    }
  }
  delete ctl;
  ctl = run_ctl;
  tzset();
}

/// A format syntax of our own: takes fields and literals from a list, passes on more with each field, and takes some arguments itself.
struct OwnSpec : Spec {
  int serial = -1;
};
struct OwnFormat {
  std::vector<Plan::Tok> const &toks;
  std::vector<Val> const &args;
  size_t pos     = 0;
  int serial     = 0;
  size_t taken   = 0;
  char const *wrong = nullptr;

  explicit operator bool() const { return pos < toks.size(); }
  bool
  operator()(std::string_view &lit, OwnSpec &spec)
  {
    auto &t = toks[pos++];
    if (!lit.empty()) wrong = "the literal is not fresh";
    if (spec.serial != -1 || !spec._name.empty() || spec._min != 0) wrong = "the specifier is not fresh";
    lit = t.lit;
    if (!t.field) return false;
    static_cast<Spec &>(spec) = Spec{TextView(t.spec)};
    spec.serial               = ++serial;
    if (t.captured) spec._type = Spec::CAPTURE_TYPE;
    return true;
  }
  void
  capture(BufferWriter &w, Spec const &spec, std::any const &value)
  {
    auto &t = toks[pos - 1];
    auto v  = std::any_cast<Val const *>(&value);
    if (!t.captured || static_cast<OwnSpec const &>(spec).serial != serial) wrong = "an argument was passed for another field";
    else if (!v || *v != &args[t.idx]) wrong = "another argument was passed";
    else if (w.extent()) wrong = "the output is not empty";
    ++taken;
  }
};
struct OwnFormatNoCapture {
  OwnFormat base;
  explicit operator bool() const { return bool(base); }
  bool operator()(std::string_view &lit, OwnSpec &spec) { return base(lit, spec); }
};
/// Names for that.
struct OwnNames : swoc::bwf::NameBinding {
  OwnFormat const &f;
  Ctx &ctx;
  mutable char const *wrong = nullptr;
  OwnNames(OwnFormat const &ff, Ctx &c) : f(ff), ctx(c) {}
  BufferWriter &
  operator()(BufferWriter &w, Spec const &spec) const override
  {
    if (static_cast<OwnSpec const &>(spec).serial != f.serial) wrong = "a name was looked up for another field";
    return ctx_names().bind(ctx)(w, spec);
  }
};

/// Print in one of the ways there are to print. Returns false if it was stopped by a fault.
enum class Stop { NONE, BAD_FORMAT, THROWN, MEMORY };

template <typename F>
Stop
guarded(Run &r, F &&f)
{
  try {
    r.sut(f);
  } catch (std::invalid_argument const &) {
    return Stop::BAD_FORMAT;
  } catch (Injected const &) {
    return Stop::THROWN;
  } catch (std::bad_alloc const &) {
    return Stop::MEMORY;
  }
  return Stop::NONE;
}

template <typename F>
void
with_args(std::vector<Val> const &a, F &&f)
{
  switch (a.size()) {
  case 0: f(); break;
  case 1: f(a[0]); break;
  case 2: f(a[0], a[1]); break;
  case 3: f(a[0], a[1], a[2]); break;
  default: f(a[0], a[1], a[2], a[3]); break;
  }
}

string
esc(string const &s)
{
  string o;
  for (unsigned char c : s.substr(0, 300)) {
    char b[8];
    if (c < 32 || c > 126) {
      snprintf(b, sizeof(b), "\\x%02x", c);
      o += b;
    } else {
      o += char(c);
    }
  }
  return o;
}

// ---------------------------------------------------------------- writer under test with its model
struct WModel {
  std::vector<int> t;          ///< what an unlimited writer would hold, -1: not known
  size_t cap = SIZE_MAX;       ///< capacity
  size_t restricted = 0;
};

class Sim
{
public:
  Run &r;
  Zone const *zone = &ZONES[0];
  Ctx ctx;
  bool faults;
  char const *prop;
  bool fit = false; ///< restrict the writer so that printing ends near the capacity
  Sim(Run &run, char const *p, bool f) : r(run), faults(f), prop(p)
  {
    warm_up();
    g_clock_on = false;
    ctx.text   = "context";
  }
  ~Sim() { strerror(99999); } // its buffer is not a leak, this is another one

  void
  append(WModel &m, string const &s, size_t n)
  {
    for (size_t k = 0; k < n; ++k) m.t.push_back(static_cast<unsigned char>(s[k]));
  }

  /// Content, extent and error state.
  void
  check(WModel const &m, BufferWriter const &w, bool fixed, char const *op)
  {
    size_t ext = r.sut([&] { return w.extent(); });
    if (ext != m.t.size()) r.fail("extent", "after %s the extent is %zu, not %zu", op, ext, m.t.size());
    size_t cap = w.capacity();
    if (fixed && cap != m.cap) r.fail("capacity", "after %s the capacity is %zu, not %zu", op, cap, m.cap);
    bool err = fixed ? m.t.size() > m.cap : false;
    if (w.error() != err) r.fail("error-state", "after %s the error state is %d with extent %zu and capacity %zu", op, int(w.error()), ext, cap);
    size_t n = fixed ? std::min(m.cap, m.t.size()) : m.t.size();
    if (w.size() != n) r.fail("size", "after %s the size is %zu, not %zu", op, w.size(), n);
    if (fixed && w.remaining() != m.cap - n) r.fail("remaining", "after %s remaining is %zu, not %zu", op, w.remaining(), m.cap - n);
    char const *d = w.data();
    for (size_t k = 0; k < n; ++k) {
      if (m.t[k] >= 0 && m.t[k] != static_cast<unsigned char>(d[k])) {
        string want;
        for (size_t j = 0; j < n; ++j) want += m.t[j] < 0 ? '?' : char(m.t[j]);
        r.fail("content", "after %s the content differs at %zu: \"%s\" should be \"%s\" (capacity %zu)", op, k, esc(string(d, n)).c_str(), esc(want).c_str(), cap);
      }
    }
    r.state(mix(mix(hash_bytes(d, std::min<size_t>(n, 64)), ext), fixed ? cap : 1));
  }

  /// Outcome of printing @a p on @a w, @a m is updated.
  void
  settle(Plan const &p, Stop st, WModel &m, BufferWriter &w, long alloc_fired, char const *op)
  {
    if (st == Stop::NONE) {
      if (p.bad) r.fail("bad-format", "%s accepted the malformed format \"%s\"", op, esc(p.fmt).c_str());
      append(m, p.out, p.out.size());
      return;
    }
    if (st == Stop::BAD_FORMAT) {
      if (!p.bad) r.fail("good-format", "%s refused the format \"%s\"", op, esc(p.fmt).c_str());
      r.fault("malformed-format");
    } else if (st == Stop::THROWN) {
      if (!p.throws) r.fail("exception", "exception without cause in %s", op);
      r.fault("formatter-exception");
    } else {
      if (!alloc_fired) r.fail("exception", "out of memory was reported by %s but no allocation failed", op);
      r.fault("allocation-failure");
    }
    // The part before the failure may be there, and nothing else.
    size_t ext = w.extent();
    if (ext < m.t.size() || ext > m.t.size() + p.out.size()) {
      r.fail("failed-print", "after a failed %s the extent is %zu, it was %zu and the output is %zu", op, ext, m.t.size(), p.out.size());
    }
    append(m, p.out, ext - m.t.size());
  }

  void
  print(WModel &m, BufferWriter &w, FixedBufferWriter *fw, unsigned max_items)
  {
    unsigned way = r.pick(12);
    bool bound   = way == 3 || way == 4 || way == 8 || way >= 9;
    Plan p       = gen_plan(r, *zone, ctx, bound, faults, max_items, way >= 9);
    if (way == 11 && (!p.captures || !r.one_in(4))) way = 9;
    bool refused = false;
    if (way == 4 && !p.args.empty()) way = 3;
    g_throw_after = p.throws ? 1 + r.pick(3) : 0;
    bool arm      = faults && !fw && r.one_in(3);
    std::unique_ptr<swoc::bwf::Format> pre;
    bool preparse = way == 2 || way == 5 || way == 8;
    if (preparse) {
      try {
        pre = std::make_unique<swoc::bwf::Format>(TextView(p.fmt));
      } catch (std::invalid_argument const &) {
        if (!p.bad) r.fail("good-format", "the format \"%s\" was refused", esc(p.fmt).c_str());
        r.fault("malformed-format");
        return;
      }
      if (p.bad) r.fail("bad-format", "the malformed format \"%s\" was accepted", esc(p.fmt).c_str());
      bool has_spec = !p.literal;
      if (pre->is_literal() == has_spec) r.fail("is-literal", "is_literal is wrong for \"%s\"", esc(p.fmt).c_str());
    }
    r.log("print way %u \"%s\" (%zu arguments) -> \"%s\"", way, esc(p.fmt).c_str(), p.args.size(), esc(p.out).c_str());
    size_t taken = 0;
    if (fit && fw && r.coin()) {
      size_t rem = m.cap - std::min(m.cap, m.t.size()), want = r.pick(p.out.size() + 2);
      if (want < rem) {
        taken = rem - want;
        r.sut([&] { fw->restrict(taken); });
        m.cap -= taken;
        r.fault("no-space");
      }
    }
    // The format in memory of its own, nothing after it can be read.
    std::unique_ptr<char[]> text(new char[p.fmt.size()]);
    memcpy(text.get(), p.fmt.data(), p.fmt.size());
    TextView fmt(text.get(), p.fmt.size());
    if (arm) r.arm_alloc(r.pick(4), r.coin());
    Stop st = guarded(r, [&] {
      switch (way) {
      case 0:
      case 6: with_args(p.args, [&](auto const &...a) { w.print(fmt, a...); }); break;
      case 1: with_args(p.args, [&](auto const &...a) { w.print_v(fmt, std::forward_as_tuple(a...)); }); break;
      case 2: with_args(p.args, [&](auto const &...a) { w.print(*pre, a...); }); break;
      case 3: w.print_nfv(ctx_names().bind(ctx), swoc::bwf::Format::bind(fmt), DynPack(p.args)); break;
      case 4: w.print_n(ctx_names().bind(ctx), fmt); break;
      case 5: with_args(p.args, [&](auto const &...a) { w.print_v(*pre, std::forward_as_tuple(a...)); }); break;
      case 7:
        if (fw) {
          with_args(p.args, [&](auto const &...a) { fw->print(fmt, a...); });
        } else {
          w.print_nfv(swoc::bwf::Global_Names.bind(), swoc::bwf::Format::bind(fmt), DynPack(p.args));
        }
        break;
      case 9:
      case 10: {
        OwnFormat ex{p.toks, p.args};
        OwnNames names(ex, ctx);
        if (way == 9) {
          w.print_nfv(names, ex, DynPack(p.args));
        } else {
          with_args(p.args, [&](auto const &...a) { w.print_nfv(names, ex, swoc::bwf::ArgTuple(std::forward_as_tuple(a...))); });
        }
        HostScope hs;
        size_t n = std::count_if(p.toks.begin(), p.toks.end(), [](auto &t) { return t.captured; });
        if (ex.wrong || names.wrong) r.fail("extractor", "format extractor: %s", ex.wrong ? ex.wrong : names.wrong);
        if (ex.taken != n) r.fail("extractor", "%zu arguments were passed to the format extractor, not %zu", ex.taken, n);
        if (n) r.count("arguments captured", n);
        break;
      }
      case 11: {
        OwnFormatNoCapture ex{{p.toks, p.args}};
        OwnNames names(ex.base, ctx);
        try {
          w.print_nfv(names, ex, DynPack(p.args));
        } catch (std::runtime_error const &) {
          refused = true;
        }
        break;
      }
      default: w.print_nfv(ctx_names().bind(ctx), pre->bind(), DynPack(p.args)); break;
      }
    });
    if (way == 11 && st == Stop::NONE && !p.throws) {
      if (!refused) r.fail("extractor", "a format extractor that can not take arguments was used to take one");
    }
    if (refused) {
      st       = Stop::THROWN;
      p.throws = true;
    }
    long fired = arm ? r.disarm_alloc() : 0;
    settle(p, st, m, w, fired, "print");
    if (!p.out.empty()) r.nontrivial();
    check(m, w, fw != nullptr, "print");
    if (taken) {
      r.sut([&] { fw->restore(taken); });
      if (m.t.size() > m.cap) m.t.resize(m.cap);
      m.cap += taken;
      check(m, w, true, "restore");
    }
  }

  /// Output of a single value with default format.
  void
  single(WModel &m, BufferWriter &w)
  {
    Val v = gen_val(r, false);
    fix_date(v);
    if (style_of(v) == ST_SPAN) return;
    Spec sp;
    SpecM ms;
    string out  = ref_value(ms, v, *zone);
    unsigned n  = r.pick(3);
    Stop st     = guarded(r, [&] {
      switch (n) {
      case 0: w.format(sp, v); break;
      case 1: w << v; break;
      default: bwformat(w, Spec::DEFAULT, v); break;
      }
    });
    r.log("single value %d -> \"%s\"", int(v.k), esc(out).c_str());
    if (st != Stop::NONE) r.fail("exception", "exception without cause in formatting a value");
    append(m, out, out.size());
  }

  /// A value placed by a specifier, without a format.
  void
  field(WModel &m, BufferWriter &w)
  {
    Val v = gen_val(r, false);
    fix_date(v);
    SpecM ms = gen_spec(r, v, style_of(v));
    ms.max   = -1; // the sizes are for formats, except for fill inside a number
    if (ms.eff_align() != '=') ms.min = -1;
    string t = ":" + ms.text();
    if (ms.has_ext) t += ":" + ms.ext;
    if (r.one_in(8)) t = "0" + t;
    std::unique_ptr<char[]> text(new char[t.size()]);
    memcpy(text.get(), t.data(), t.size());
    string out = ref_value(ms, v, *zone);
    r.log("value %d by specifier \"%s\" -> \"%s\"", int(v.k), esc(t).c_str(), esc(out).c_str());
    Stop st = guarded(r, [&] {
      Spec sp{TextView(text.get(), t.size())};
      w.format(sp, v);
    });
    if (st != Stop::NONE) r.fail("good-format", "the specifier \"%s\" was refused", esc(t).c_str());
    append(m, out, out.size());
  }
};

// ---------------------------------------------------------------- W01: fixed writers
struct Block {
  std::vector<unsigned char> mem, shadow;
  size_t cap;
  static constexpr size_t G = 64;
  char *base() { return reinterpret_cast<char *>(mem.data()) + G; }
  Block(Run &r, size_t n) : mem(n + 2 * G), cap(n)
  {
    unsigned x = r.pick(256);
    for (auto &b : mem) b = x = x * 5 + 17;
    shadow = mem;
  }
};

struct Fixed {
  std::unique_ptr<FixedBufferWriter> w;
  WModel m;
};

class FixedSim : public Sim
{
public:
  std::vector<std::unique_ptr<Block>> blocks;
  Fixed slot[2];
  using Sim::Sim;

  bool big = r.one_in(200); ///< Buffers and texts of more than 64K.

  size_t
  capacity()
  {
    if (big && r.coin()) return 65530 + r.pick(r.coin() ? 12 : 9000);
    switch (r.pick(6)) {
    case 0: return r.pick(3);
    case 1: return 100 + r.pick(400);
    default: return r.pick(48);
    }
  }

  void
  create(Fixed &f)
  {
    f.w = nullptr;
    f.m = WModel{};
    switch (r.pick(6)) {
    case 4: f.m.cap = 0, f.w = r.sut([] { return std::make_unique<FixedBufferWriter>(nullptr); }); break;
    case 5:
      switch (r.pick(4)) {
      case 0: f.m.cap = 1, f.w = r.sut([] { return std::make_unique<swoc::LocalBufferWriter<1>>(); }); break;
      case 1: f.m.cap = 8, f.w = r.sut([] { return std::make_unique<swoc::LocalBufferWriter<8>>(); }); break;
      case 2: f.m.cap = 32, f.w = r.sut([] { return std::make_unique<swoc::LocalBufferWriter<32>>(); }); break;
      default: f.m.cap = 256, f.w = r.sut([] { return std::make_unique<swoc::LocalBufferWriter<256>>(); }); break;
      }
      break;
    default: {
      blocks.push_back(std::make_unique<Block>(r, capacity()));
      Block &b = *blocks.back();
      f.m.cap  = b.cap;
      unsigned n = r.pick(3);
      f.w = r.sut([&] {
        return n == 0 ? std::make_unique<FixedBufferWriter>(b.base(), b.cap) :
               n == 1 ? std::make_unique<FixedBufferWriter>(MemSpan<char>(b.base(), b.cap)) :
                        std::make_unique<FixedBufferWriter>(MemSpan<void>(b.base(), b.cap));
      });
    }
    }
    check(f.m, *f.w, true, "construction");
  }

  /// Nothing but the capacity of the writer worked on has changed.
  void
  outside(char const *from, size_t cap, char const *op)
  {
    for (auto &b : blocks) {
      for (size_t k = 0; k < b->mem.size(); ++k) {
        char const *p = reinterpret_cast<char const *>(&b->mem[k]);
        if (b->mem[k] != b->shadow[k] && !(from <= p && p < from + cap)) {
          r.fail("out-of-bounds", "%s changed the byte at offset %ld of a buffer of capacity %zu", op, long(p - from), cap);
        }
      }
      b->shadow = b->mem;
    }
  }

  void
  step()
  {
    unsigned i = r.pick(2);
    Fixed &f = slot[i], &o = slot[1 - i];
    WModel &m = f.m;
    FixedBufferWriter &w = *f.w;
    char const *from = w.data();
    size_t cap = m.cap, rem = m.cap - std::min(m.cap, m.t.size());
    char const *op = "";
    auto lost = [&] { if (m.t.size() > m.cap) r.fault("no-space"); };
    switch (r.pick(22)) {
    case 0:
    case 1: {
      op = "write of a character";
      char c = "aZ\0\xff{ "[r.pick(6)];
      r.sut([&] { w.write(c); });
      m.t.push_back(static_cast<unsigned char>(c));
    } break;
    case 2:
    case 3:
    case 4: {
      op = "write";
      string t = gen_text(r, r.one_in(4) ? 80 : 12);
      if (r.one_in(3)) t.resize(std::min(t.size() + rem, rem + r.pick(3)), '#'); // to the end
      if (big && r.coin()) {
        size_t n = r.coin() ? rem + r.pick(3) : r.coin() ? 65534 + r.pick(5) : r.pick(70000);
        if (t.empty()) t = "0";
        while (t.size() < n) t += t.substr(0, n - t.size());
      }
      std::unique_ptr<char[]> d(new char[t.size()]);
      memcpy(d.get(), t.data(), t.size());
      unsigned way = r.pick(5);
      r.sut([&] {
        switch (way) {
        case 0: w.write(d.get(), t.size()); break;
        case 1: w.write(MemSpan<void const>(d.get(), t.size())); break;
        case 2: static_cast<BufferWriter &>(w).write(std::string_view(d.get(), t.size())); break;
        case 3: w.write(TextView(d.get(), t.size())); break;
        default: static_cast<BufferWriter &>(w).BufferWriter::write(d.get(), t.size()); break;
        }
      });
      r.log("write way %u of %zu", way, t.size());
      append(m, t, t.size());
    } break;
    case 5: {
      op = "write of own content";
      size_t n = std::min(m.cap, m.t.size());
      size_t a = n ? r.pick(n) : 0, l = n ? r.pick(n - a + 1) : 0;
      r.sut([&] { w.write(w.view().substr(a, l)); });
      std::vector<int> part(m.t.begin() + a, m.t.begin() + a + l);
      m.t.insert(m.t.end(), part.begin(), part.end());
    } break;
    case 6:
    case 7:
    case 8:
      op = "print";
      print(m, w, &w, 3);
      break;
    case 9:
      op = "format";
      r.coin() ? single(m, w) : field(m, w);
      break;
    case 10:
    case 11: {
      op = "commit";
      char *aux   = r.sut([&] { return w.aux_data(); });
      auto span   = r.sut([&] { return w.aux_span(); });
      if (span.size() != rem) r.fail("remaining", "the unused span has size %zu, not %zu", span.size(), rem);
      if (rem && (!aux || aux != from + m.t.size() || span.data() != aux)) r.fail("aux", "the unused space is at offset %ld, not %zu", long(aux - from), m.t.size());
      if (m.t.size() > m.cap && aux) r.fail("aux", "unused space without remaining capacity");
      size_t put = r.pick(rem + 1), n = r.one_in(4) ? rem + r.pick(6) : r.pick(put + 1);
      for (size_t k = 0; k < put; ++k) aux[k] = 'A' + k % 26;
      bool done = r.sut([&] { return w.commit(n); });
      if (!done) r.fail("commit", "commit of %zu in a fixed buffer is to be retried", n);
      for (size_t k = 0; k < n; ++k) m.t.push_back(m.t.size() < m.cap ? static_cast<unsigned char>(from[m.t.size()]) : -1);
    } break;
    case 12: {
      op = "discard";
      size_t n = r.one_in(5) ? m.t.size() + r.pick(5) : r.pick(m.t.size() + 1);
      r.sut([&] { w.discard(n); });
      r.log("discard %zu", n);
      m.t.resize(m.t.size() - std::min(n, m.t.size()));
    } break;
    case 13:
    case 14: {
      op = "restrict";
      size_t n = r.one_in(6) ? m.cap + 1 + r.pick(3) : r.coin() ? r.pick(rem + 1) : r.pick(m.cap + 1);
      bool bad = false;
      r.sut([&] {
        try {
          w.restrict(n);
        } catch (std::invalid_argument const &) {
          bad = true;
        }
      });
      r.log("restrict %zu of %zu", n, m.cap);
      if (bad != (n > m.cap)) r.fail("restrict", "restrict of %zu with capacity %zu was %s", n, m.cap, bad ? "refused" : "accepted");
      if (bad) {
        r.fault("excessive-restrict");
      } else {
        m.cap -= n, m.restricted += n;
      }
    } break;
    case 15:
    case 16: {
      op = "restore";
      size_t n = r.coin() ? m.restricted : r.pick(m.restricted + 1);
      r.sut([&] { w.restore(n); });
      r.log("restore %zu", n);
      if (m.t.size() > m.cap) m.t.resize(m.cap);
      m.cap += n, m.restricted -= n;
    } break;
    case 17:
    case 18: {
      op = "copy";
      size_t e = m.t.size();
      size_t dst = r.pick(e + 3), src = r.pick(e + 3), n = r.one_in(4) ? e + r.pick(9) : r.pick(e + 1);
      r.sut([&] { w.copy(dst, src, n); });
      r.log("copy to %zu from %zu, %zu", dst, src, n);
      if (dst < e && src < e) {
        n = std::min(n, e - std::max(dst, src));
        auto t = m.t;
        for (size_t k = 0; k < n; ++k) m.t[dst + k] = src + k < m.cap ? t[src + k] : -1;
      }
    } break;
    case 19:
      op = "clear";
      r.sut([&] { w.clear(); });
      m.t.clear();
      break;
    case 20:
      switch (r.pick(4)) {
      case 0: { // speculative output in the unused space
        op = "speculative output";
        {
          WModel sm;
          sm.cap = rem;
          FixedBufferWriter sub = r.sut([&] { return FixedBufferWriter(w.aux_span()); });
          print(sm, sub, &sub, 2);
          check(sm, sub, true, "speculative print");
          if (r.coin()) {
            r.sut([&] { w.commit(sub.extent()); });
            for (size_t k = 0; k < sm.t.size(); ++k) m.t.push_back(k < rem ? sm.t[k] : -1);
          }
        }
      } break;
      case 1: {
        op = "output to a stream";
        std::ostringstream os;
        bool a = r.coin();
        r.sut([&] {
          if (a) {
            w >> os;
          } else {
            os << w;
          }
        });
        string got = os.str();
        size_t n   = std::min(m.cap, m.t.size());
        if (got.size() != n || (n && memcmp(got.data(), from, n))) r.fail("stream", "the stream has %zu bytes of %zu", got.size(), n);
      } break;
      case 2: {
        op = "view";
        size_t n = std::min(m.cap, m.t.size());
        std::string_view a = r.sut([&] { return std::string_view(w); });
        TextView b         = r.sut([&] { return TextView(w); });
        TextView c         = r.sut([&] { return w.view(); });
        if (a.size() != n || b.size() != n || c.size() != n || (n && (a.data() != from || b.data() != from || c.data() != from))) r.fail("view", "the view does not match");
      } break;
      default:
        op = "detach";
        if (r.one_in(4)) {
          r.sut([&] { w.detach(); });
          m = WModel{};
          m.cap = 0;
        } else {
          op = "assign";
          blocks.push_back(std::make_unique<Block>(r, capacity()));
          Block &b = *blocks.back();
          r.sut([&] { w.assign(MemSpan<char>(b.base(), b.cap)); });
          m     = WModel{};
          m.cap = b.cap;
          from  = nullptr;
          cap   = 0;
        }
      }
      break;
    default:
      if (dynamic_cast<swoc::LocalBufferWriter<1> *>(&w) || dynamic_cast<swoc::LocalBufferWriter<8> *>(&w) || dynamic_cast<swoc::LocalBufferWriter<32> *>(&w) ||
          dynamic_cast<swoc::LocalBufferWriter<256> *>(&w)) {
        break; // its buffer does not outlive it
      }
      if (r.coin()) {
        op  = "move construction";
        o.w = r.sut([&] { return std::make_unique<FixedBufferWriter>(std::move(w)); });
      } else {
        op = "move assignment";
        r.sut([&] { *o.w = std::move(w); });
      }
      o.m     = m;
      m       = WModel{};
      m.cap   = 0;
      from = nullptr, cap = 0;
      check(o.m, *o.w, true, op);
      if (r.one_in(3)) {
        create(f);
        outside(from, cap, op);
        return;
      }
    }
    lost();
    check(m, *f.w, true, op);
    outside(from, cap, op);
    r.step();
  }
};

void
run_w01(Run &r)
{
  FixedSim s(r, "W01", true);
  s.create(s.slot[0]);
  s.create(s.slot[1]);
  while (r.more(14, 60)) {
    s.step();
  }
  for (auto &f : s.slot) s.check(f.m, *f.w, true, "all");
  s.outside(nullptr, 0, "observation");
  if (r.ops() > 2) r.nontrivial();
}

// ---------------------------------------------------------------- W02: growing outputs
void
run_string(Sim &s)
{
  Run &r = s.r;
  string str = gen_text(r, 40);
  if (r.coin()) str.reserve(str.size() + r.pick(80));
  if (r.one_in(3)) str.shrink_to_fit();
  string before = str;
  unsigned way  = r.pick(3);
  Plan p        = gen_plan(r, *s.zone, s.ctx, false, s.faults, 5);
  g_throw_after = p.throws ? 1 + r.pick(4) : 0;
  bool arm      = s.faults && r.one_in(3);
  r.log("%s of \"%s\" to text of %zu with capacity %zu -> \"%s\"", way == 0 ? "bwprint" : way == 1 ? "bwprint_v" : "bwappend", esc(p.fmt).c_str(), str.size(),
        str.capacity(), esc(p.out).c_str());
  if (p.out.size() + (way == 2 ? before.size() : 0) > str.capacity()) r.count("string-grown");
  std::unique_ptr<char[]> text(new char[p.fmt.size()]);
  memcpy(text.get(), p.fmt.data(), p.fmt.size());
  TextView fmt(text.get(), p.fmt.size());
  if (arm) r.arm_alloc(r.pick(4), r.coin());
  string *ret = &str;
  Stop st     = guarded(r, [&] {
    with_args(p.args, [&](auto const &...a) {
      switch (way) {
      case 0: ret = &swoc::bwprint(str, fmt, a...); break;
      case 1: ret = &swoc::bwprint_v(str, fmt, std::forward_as_tuple(a...)); break;
      default: ret = &swoc::bwappend(str, fmt, a...); break;
      }
    });
  });
  long fired = arm ? r.disarm_alloc() : 0;
  if (st == Stop::NONE) {
    if (p.bad) r.fail("bad-format", "the malformed format \"%s\" was accepted", esc(p.fmt).c_str());
    string want = way == 2 ? before + p.out : p.out;
    if (str != want) r.fail("string", "\"%s\" should be \"%s\"", esc(str).c_str(), esc(want).c_str());
    if (ret != &str) r.fail("string", "a different string was returned");
    r.state(hash_bytes(str.data(), str.size(), str.capacity()));
    if (!p.out.empty()) r.nontrivial();
    return;
  }
  if (st == Stop::BAD_FORMAT) {
    if (!p.bad) r.fail("good-format", "the format \"%s\" was refused", esc(p.fmt).c_str());
    r.fault("malformed-format");
  } else if (st == Stop::THROWN) {
    if (!p.throws) r.fail("exception", "exception without cause");
    r.fault("formatter-exception");
  } else {
    if (!fired) r.fail("exception", "out of memory was reported but no allocation failed");
    r.fault("allocation-failure");
  }
  if (way == 2 && str != before) r.fail("append-failed", "after a failed append the string is \"%s\", it was \"%s\"", esc(str).c_str(), esc(before).c_str());
  if (strlen(str.c_str()) > str.size()) r.fail("string", "the string is not terminated");
}

void
run_arena(Sim &s)
{
  Run &r = s.r;
  MemArena arena = r.sut([&] { return MemArena(r.one_in(3) ? r.pick(300) : 0); });
  std::vector<std::pair<MemSpan<char>, string>> kept;
  auto keep = [&](char const *op) {
    for (auto &[sp, t] : kept) {
      if (memcmp(sp.data(), t.data(), t.size())) r.fail("arena-content", "%s changed content allocated in the arena before", op);
    }
  };
  auto fill = [&](MemSpan<char> sp) {
    string t(sp.size(), 0);
    for (auto &c : t) c = 'a' + kept.size() + (&c - t.data()) % 7;
    memcpy(sp.data(), t.data(), t.size());
    kept.emplace_back(sp, t);
  };
  unsigned writers = 1 + r.pick(3);
  while (writers--) {
    for (unsigned n = r.pick(3); n; --n) {
      fill(r.sut([&] { return arena.alloc(1 + r.pick(200)).rebind<char>(); }));
    }
    ArenaWriter w = r.sut([&] { return ArenaWriter(arena); });
    WModel m;
    s.check(m, w, false, "construction");
    while (r.more(8, 40)) {
      char const *op = "";
      switch (r.pick(10)) {
      case 0:
      case 1:
      case 2: {
        op       = "write";
        string t = gen_text(r, r.one_in(6) ? 400 : 30);
        if (r.one_in(8)) t = string(500 + r.pick(9000), 'L');
        bool one = t.size() == 1 || r.one_in(4);
        bool arm = s.faults && r.one_in(3);
        size_t c = w.capacity();
        if (arm) r.arm_alloc(r.pick(2), r.coin());
        size_t done = 0;
        Stop st     = guarded(r, [&] {
          if (one) {
            for (char ch : t) w.write(ch), ++done;
          } else {
            r.coin() ? w.write(t.data(), t.size()) : static_cast<BufferWriter &>(w).write(t);
            done = t.size();
          }
        });
        long fired = arm ? r.disarm_alloc() : 0;
        if (st == Stop::MEMORY && fired) {
          r.fault("allocation-failure");
        } else if (st != Stop::NONE) {
          r.fail("exception", "exception without cause in a write");
        }
        s.append(m, t, done);
        r.log("write of %zu, %zu done, capacity %zu -> %zu", t.size(), done, c, w.capacity());
        if (w.capacity() != c) r.count("arena-grown");
      } break;
      case 3:
      case 4:
      case 5:
        op = "print";
        s.print(m, w, nullptr, 4);
        break;
      case 6: {
        op       = "commit";
        string t = gen_text(r, 60);
        if (r.one_in(5)) t = string(r.pick(3000), 'C');
        bool arm = s.faults && r.one_in(3);
        if (arm) r.arm_alloc(r.pick(2), r.coin());
        bool done = false;
        Stop st   = guarded(r, [&] {
          for (int n = 0; !done; ++n) {
            size_t k = std::min(w.remaining(), t.size());
            if (k) memcpy(w.aux_data(), t.data(), k);
            done = w.commit(t.size());
            if (n > 2) break;
          }
        });
        long fired = arm ? r.disarm_alloc() : 0;
        if (st == Stop::MEMORY && fired) {
          r.fault("allocation-failure");
        } else if (st != Stop::NONE) {
          r.fail("exception", "exception without cause in a commit");
        } else if (!done) {
          r.fail("commit", "a commit does not succeed");
        }
        if (done) s.append(m, t, t.size());
      } break;
      case 7: {
        op       = "discard";
        size_t n = r.pick(m.t.size() + 3);
        r.sut([&] { w.discard(n); });
        m.t.resize(m.t.size() - std::min(n, m.t.size()));
      } break;
      case 8:
        if (m.restricted && r.coin()) {
          op       = "restore";
          size_t n = r.coin() ? m.restricted : 1 + r.pick(m.restricted);
          r.sut([&] { w.restore(n); });
          m.restricted -= n;
          r.log("restore %zu", n);
        } else {
          op       = "restrict";
          size_t n = r.pick(w.remaining() + 1);
          r.sut([&] { w.restrict(n); });
          m.restricted += n;
          r.log("restrict %zu", n);
        }
        break;
      default: {
        op       = "copy";
        size_t e = m.t.size();
        size_t dst = r.pick(e + 2), src = r.pick(e + 2), n = r.pick(e + 2);
        r.sut([&] { w.copy(dst, src, n); });
        if (dst < e && src < e) {
          n      = std::min(n, e - std::max(dst, src));
          auto t = m.t;
          for (size_t k = 0; k < n; ++k) m.t[dst + k] = t[src + k];
        }
      }
      }
      s.check(m, w, false, op);
      keep(op);
      r.step();
    }
    if (w.extent() && r.one_in(6) == false) { // make it permanent
      auto sp = r.sut([&] { return arena.alloc(w.extent()).rebind<char>(); });
      if (sp.data() != w.data()) r.fail("arena-alloc", "allocating the output in the arena gives other memory");
      string t;
      for (int c : m.t) t += char(c);
      if (memcmp(sp.data(), t.data(), t.size())) r.fail("arena-alloc", "the output changed when allocated in the arena");
      kept.emplace_back(sp, t);
    }
    keep("end of output");
  }
}

void
run_w02(Run &r)
{
  Sim s(r, "W02", r.pct(70));
  while (r.more(4, 30)) {
    if (r.coin()) {
      run_string(s);
    } else {
      run_arena(s);
      r.nontrivial();
    }
    r.step();
  }
}

// ---------------------------------------------------------------- W03: layout
void
run_w03(Run &r)
{
  FixedSim s(r, "W03", r.pct(60));
  s.fit = true;
  while (r.more(8, 60)) {
    Fixed &f = s.slot[0];
    if (!f.w || r.one_in(4)) {
      f.w = nullptr;
      s.blocks.clear();
      s.blocks.push_back(std::make_unique<Block>(r, r.one_in(4) ? s.capacity() : 2000));
      f.m     = WModel{};
      f.m.cap = s.blocks[0]->cap;
      f.w     = std::make_unique<FixedBufferWriter>(s.blocks[0]->base(), f.m.cap);
    } else if (r.one_in(4)) {
      r.sut([&] { f.w->clear(); });
      f.m.t.clear();
    }
    s.print(f.m, *f.w, f.w.get(), 5);
    if (r.one_in(3)) {
      r.one_in(3) ? s.single(f.m, *f.w) : s.field(f.m, *f.w);
      s.check(f.m, *f.w, true, "format");
    }
    s.outside(f.w->data(), f.m.cap, "print");
    r.step();
  }
}

// ---------------------------------------------------------------- W04: moments
struct Moment {
  enum { DATE, ERRNO, CODE, OTHER } what;
  std::shared_ptr<swoc::bwf::Date> date;
  std::shared_ptr<swoc::bwf::Errno> err;
  std::error_code ec;
  std::unique_ptr<string> fmt; ///< what the date views
  int64_t epoch = 0;
  int e         = 0;
};

void
run_w04(Run &r)
{
  FixedSim s(r, "W04", true);
  std::vector<Moment> all;
  g_clock_ns = int64_t(r.bits64() % 4102444800ull) * 1000000000 + r.pick(1000000000);
  struct Off {
    ~Off()
    {
      g_clock_on = false;
      setenv("TZ", "UTC0", 1);
      tzset();
    }
  } off;
  auto set_zone = [&](unsigned n) {
    s.zone = &ZONES[n];
    setenv("TZ", ZONES[n].tz, 1);
    tzset();
  };
  set_zone(r.pick(N_ZONES));
  g_clock_on = true;
  auto date_format = [&] {
    string f;
    if (r.one_in(5)) return string(DATE_FMTS[r.pick(7)]);
    if (r.one_in(12)) return f;
    unsigned n = r.one_in(40) ? 100 + r.pick(1200) : r.one_in(5) ? 30 + r.pick(120) : 1 + r.pick(8);
    while (n--) {
      if (r.one_in(3)) f += " ,.:-T{}a"[r.pick(9)];
      f += '%';
      f += CONVERSIONS[r.pick(sizeof(CONVERSIONS) - 1)];
    }
    return f;
  };
  auto seconds = [&]() -> int64_t {
    switch (r.pick(8)) {
    case 0: return r.pick(100);
    case 1: return -int64_t(r.pick(1000000000));
    case 2: return int64_t(r.bits64() % 7258118400ull); // to 2200
    case 3: { // near a change of the local time
      int64_t y = 2007 + r.pick(90);
      int64_t d = r.coin() ? nth_sunday(y, 3, 2) : nth_sunday(y, 11, 1);
      return d * 86400 - s.zone->std_off + 3600 + int64_t(r.pick(10800));
    }
    case 4: return days_from_civil(1970 + r.pick(200), 1 + r.pick(12), 1) * 86400 - int64_t(r.pick(3)); // ends of months and years
    default: return int64_t(r.bits64() % 4102444800ull);
    }
  };
  while (r.more(16, 80)) {
    switch (r.pick(all.empty() ? 5 : 9)) {
    case 0: { // clock
      if (r.coin()) {
        int64_t d = int64_t(r.bits64() % (r.coin() ? 5000000000ull : 400 * 86400ull * 1000000000ull));
        g_clock_ns += d;
        if (g_clock_ns < 0) g_clock_ns -= g_clock_ns % 1000000000; // the second of a fraction then depends on rounding
        r.advance_ns(d);
      } else {
        g_clock_ns = seconds() * 1000000000;
        r.fault("clock-jump");
      }
      r.log("clock is %lld", static_cast<long long>(g_clock_ns));
    } break;
    case 1:
    case 2: {
      Moment m;
      m.what = Moment::DATE;
      int64_t now = g_clock_ns / 1000000000;
      switch (r.pick(4)) {
      case 0: {
        m.epoch = now;
        m.fmt   = std::make_unique<string>("%Y %b %d %H:%M:%S");
        m.date  = r.sut([&] { return std::make_shared<swoc::bwf::Date>(); });
      } break;
      case 1: {
        m.epoch = now;
        m.fmt   = std::make_unique<string>(date_format());
        m.date  = r.sut([&] { return std::make_shared<swoc::bwf::Date>(std::string_view(*m.fmt)); });
      } break;
      case 2: {
        m.epoch = seconds();
        m.fmt   = std::make_unique<string>("%Y %b %d %H:%M:%S");
        m.date  = r.sut([&] { return std::make_shared<swoc::bwf::Date>(time_t(m.epoch)); });
      } break;
      default: {
        m.epoch = seconds();
        m.fmt   = std::make_unique<string>(date_format());
        m.date  = r.sut([&] { return std::make_shared<swoc::bwf::Date>(time_t(m.epoch), std::string_view(*m.fmt)); });
      }
      }
      r.log("date %zu is %lld with \"%s\"", all.size(), static_cast<long long>(m.epoch), esc(*m.fmt).c_str());
      all.push_back(std::move(m));
    } break;
    case 3: {
      Moment m;
      m.e = r.one_in(8) ? 134 + r.pick(1000) : r.pick(134);
      if (m.e == 41 || m.e == 58) m.e = 2;
      unsigned way = r.pick(4);
      m.what = way == 3 ? Moment::OTHER : way == 2 ? Moment::CODE : Moment::ERRNO;
      switch (way) {
      case 0:
        errno = m.e;
        {
          SutScope scope;
          swoc::bwf::Errno x;
          m.err = std::make_shared<swoc::bwf::Errno>(x);
        }
        errno = 0;
        break;
      case 1:
        errno = (m.e + 1) % 100;
        m.err = r.sut([&] { return std::make_shared<swoc::bwf::Errno>(m.e); });
        break;
      case 3: // a code of another category, which is not an error number whatever its value
        m.ec = std::error_code(m.e, g_category);
        break;
      default:
        if (m.e > 133) m.e = 5;
        m.ec = std::error_code(m.e, r.coin() ? std::system_category() : std::generic_category());
      }
      r.log("error number %d", m.e);
      all.push_back(std::move(m));
    } break;
    case 4:
      if (r.coin()) {
        set_zone(r.pick(N_ZONES));
        r.fault("zone-change");
        r.log("zone is %s", s.zone->tz);
      } else {
        errno = r.pick(134);
        r.fault("errno-change");
        r.log("errno is %d", errno);
      }
      break;
    default: {
      Moment &m = all[r.pick(all.size())];
      Val v;
      v.k = m.what == Moment::DATE ? K_DATE : m.what == Moment::ERRNO ? K_ERRNO : m.what == Moment::OTHER ? K_ECMSG : K_EC;
      v.i = m.e, v.epoch = m.epoch;
      if (m.fmt) v.fmt = *m.fmt;
      SpecM sp = gen_spec(r, v, style_of(v));
      if (sp.ext == "local" && s.zone->dst && m.epoch < 0) sp.ext = "gmt"; // the C library has no rules for that time
      string out = place(sp, ref_value(sp, v, *s.zone), sp.eff_align());
      string t   = sp.text();
      if (sp.has_ext) t += ":" + sp.ext;
      string fmt   = "{:" + t + "}";
      string before = gen_text(r, 8);
      size_t cap;
      switch (r.pick(4)) {
      case 0: cap = r.pick(before.size() + out.size() + 3); break;
      case 1: cap = before.size() + out.size() + r.pick(3); break;
      case 2: cap = r.pick(40); break;
      default: cap = before.size() + out.size() + 4096;
      }
      s.blocks.clear();
      s.blocks.push_back(std::make_unique<Block>(r, cap));
      FixedBufferWriter w(s.blocks[0]->base(), cap);
      WModel wm;
      wm.cap = cap;
      if (cap < before.size() + out.size()) r.fault("no-space");
      int e0 = r.pick(134);
      Stop st = guarded(r, [&] {
        w.write(before);
        errno = e0;
        switch (m.what) {
        case Moment::DATE: w.print(TextView(fmt), *m.date); break;
        case Moment::ERRNO: w.print(TextView(fmt), *m.err); break;
        default: w.print(TextView(fmt), m.ec); break;
        }
      });
      r.log("render by \"%s\" in capacity %zu -> \"%s\"", esc(fmt).c_str(), cap, esc(out).c_str());
      if (st != Stop::NONE) r.fail("exception", "exception without cause");
      s.append(wm, before, before.size());
      s.append(wm, out, out.size());
      s.check(wm, w, true, "rendering");
      s.outside(s.blocks[0]->base(), cap, "rendering");
      if (r.one_in(4)) { // the same in a string
        string str;
        Stop st = guarded(r, [&] {
          switch (m.what) {
          case Moment::DATE: swoc::bwprint(str, TextView(fmt), *m.date); break;
          case Moment::ERRNO: swoc::bwprint(str, TextView(fmt), *m.err); break;
          default: swoc::bwprint(str, TextView(fmt), m.ec); break;
          }
        });
        if (st != Stop::NONE || str != out) r.fail("string", "\"%s\" should be \"%s\"", esc(str).c_str(), esc(out).c_str());
      }
      r.nontrivial();
    }
    }
    r.step();
  }
}

// ---------------------------------------------------------------- W05: names
struct NamesSim {
  struct NCtx {
    string text;
  };
  using Ext  = swoc::bwf::ExternalNames;
  using CtxN = swoc::bwf::ContextNames<NCtx>;
  struct Def {
    unsigned id;
    int kind; // 0 plain, 1 with context, 2 uses another name, 3 throws, 4 lays out by the specifier, 5 nothing
    string other;
  };
  struct Table {
    std::unique_ptr<Ext> ext;
    std::unique_ptr<CtxN> ctx;
    std::map<string, Def> model;
    unsigned serial = 0;
  };
  static NamesSim *self;
  Run &R;
  std::vector<std::unique_ptr<Table>> tables;
  std::vector<string> vocabulary;
  NCtx ctxs[2];
  unsigned next_id = 1;
  int depth        = 0;
  bool faults;
  NamesSim(Run &r, bool f) : R(r), faults(f) { self = this; }
  ~NamesSim() { self = nullptr; }

  // The code under test holds copies of this; too large to be kept without an allocation.
  struct Gen {
    Table *t;
    Def d;
    string tag;
    unsigned char weight[48];
    Gen(Table *tt, Def const &dd) : t(tt), d(dd), tag("tag-of-a-generator-" + std::to_string(dd.id)) { memset(weight, dd.id & 0xff, sizeof weight); }
    BufferWriter &
    write(BufferWriter &w, Spec const &spec, NCtx *c) const
    {
      bool ok = tag == "tag-of-a-generator-" + std::to_string(d.id);
      for (auto x : weight) {
        ok = ok && x == (d.id & 0xff);
      }
      if (!ok) {
        HostScope hs;
        self->R.fail("generator", "a generator was used that is not intact");
      }
      switch (d.kind) {
      case 1:
        return w.print("<{} {}>", d.id, c ? std::string_view(c->text) : std::string_view("-"));
      case 2: {
        ++self->depth;
        if (self->depth < 4) {
          w.write('(');
          string f = "{" + d.other + "}";
          if (t->ctx && c) {
            w.print_n(t->ctx->bind(*c), swoc::TextView(f));
          } else if (t->ext) {
            w.print_n(t->ext->bind(), swoc::TextView(f));
          }
          w.write(')');
        }
        --self->depth;
        return w;
      }
      case 3:
        w.write("partial");
        throw Injected{3};
      case 4:
        return swoc::bwformat(w, spec, std::string_view("text"));
      case 5:
        return w;
      default:
        return w.print("<{}>", d.id);
      }
    }
    BufferWriter &operator()(BufferWriter &w, Spec const &s) const { return write(w, s, nullptr); }
  };
  struct GenC : Gen {
    using Gen::Gen;
    BufferWriter &operator()(BufferWriter &w, Spec const &s, NCtx &c) const { return write(w, s, &c); }
  };

  string
  gen_name()
  {
    static char const cs[] = "abcABCxyz_-.~ 0129+/|%\x01\x80\xff#<>=^,";
    string s;
    unsigned n = R.one_in(12) ? R.pick(3000) : R.pick(10);
    s          = "nNq"[R.pick(3)];
    for (unsigned i = 0; i < n; ++i) {
      s += cs[R.pick(sizeof(cs) - 1)];
    }
    return s;
  }
  string const &
  name()
  {
    return vocabulary[R.pick(vocabulary.size())];
  }

  Def
  gen_def(Table &t)
  {
    Def d;
    d.id    = next_id++;
    d.kind  = R.pick(t.ctx ? 7 : 6);
    if (d.kind == 6) {
      d.kind = 1;
    }
    if (d.kind == 3 && !R.one_in(3)) {
      d.kind = 0;
    }
    d.other = name();
    return d;
  }

  // What a field of the name shows. Sets @a thrown if a generator throws.
  string
  value(Table &t, string const &n, NCtx const *c, int lvl, bool &thrown)
  {
    auto spot = t.model.find(n);
    if (spot == t.model.end()) {
      return "{~" + n + "~}";
    }
    Def &d = spot->second;
    switch (d.kind) {
    case 1:
      return "<" + std::to_string(d.id) + " " + (c && t.ctx && !external.count({t.serial, n}) ? c->text : string("-")) + ">";
    case 2:
      if (lvl >= 3) {
        return "";
      } else {
        // an external generator in a context table has no way to use the table.
        if (t.ctx && external.count({t.serial, n})) {
          return "()";
        }
        return "(" + value(t, d.other, c, lvl + 1, thrown) + (thrown ? "" : ")");
      }
    case 3:
      thrown = true;
      return "partial";
    case 4:
      return "text";
    case 5:
      return "";
    default:
      return "<" + std::to_string(d.id) + ">";
    }
  }
  std::set<std::pair<unsigned, string>> external; // names of context tables assigned an external generator
  unsigned serials = 0;

  void
  create()
  {
    auto t    = std::make_unique<Table>();
    t->serial = ++serials;
    bool ctx  = R.coin();
    if (ctx) {
      // kinds depend on it
      t->ctx.reset();
    }
    unsigned n = R.one_in(3) ? R.pick(4) : 0;
    std::vector<string> names;
    std::vector<Def> defs;
    R.sut([&] {
      if (ctx) {
        t->ctx = std::make_unique<CtxN>();
      } else {
        t->ext = std::make_unique<Ext>();
      }
    });
    if (n) { // with initial names, later entries replace earlier ones.
      n = 2;
      for (unsigned i = 0; i < n; ++i) {
        names.push_back(name());
        defs.push_back(gen_def(*t));
      }
      std::vector<char> b0(names[0].begin(), names[0].end()), b1(names[1].begin(), names[1].end());
      std::string_view v0{b0.data(), b0.size()}, v1{b1.data(), b1.size()};
      R.sut([&] {
        if (ctx) {
          CtxN::Generator g0{GenC(t.get(), defs[0])}, g1{GenC(t.get(), defs[1])};
          t->ctx.reset(new CtxN{{v0, g0}, {v1, g1}});
        } else {
          Ext::Generator g0{Gen(t.get(), defs[0])}, g1{Gen(t.get(), defs[1])};
          t->ext.reset(new Ext{{v0, g0}, {v1, g1}});
        }
      });
      memset(b0.data(), '!', b0.size());
      memset(b1.data(), '!', b1.size());
      for (unsigned i = 0; i < n; ++i) {
        t->model[names[i]] = defs[i];
      }
    }
    R.log("table %u %s with %zu names", t->serial, ctx ? "with context" : "external", t->model.size());
    tables.push_back(std::move(t));
  }

  void
  assign(Table &t)
  {
    string n = name();
    Def d    = gen_def(t);
    bool as_ext = t.ctx && R.one_in(3);
    bool armed  = faults && R.one_in(3);
    if (armed) {
      R.arm_alloc(R.small(5), R.coin());
    }
    auto buf = std::make_unique<char[]>(n.size());
    memcpy(buf.get(), n.data(), n.size());
    std::string_view v{buf.get(), n.size()};
    R.log("table %u assign '%s' generator %u kind %d%s", t.serial, esc(n).substr(0, 40).c_str(), d.id, d.kind, as_ext ? " external" : "");
    auto st = guarded(R, [&] {
      if (t.ext) {
        Ext::Generator g;
        {
          HostScope hs;
          g = Gen(&t, d);
        }
        t.ext->assign(v, g);
      } else if (as_ext) {
        CtxN::ExternalGenerator g;
        {
          HostScope hs;
          g = Gen(&t, d);
        }
        t.ctx->assign(v, g);
      } else {
        CtxN::Generator g;
        {
          HostScope hs;
          g = GenC(&t, d);
        }
        t.ctx->assign(v, g);
      }
    });
    memset(buf.get(), '?', n.size());
    buf.reset();
    long fired = armed ? R.disarm_alloc() : 0;
    if (fired) {
      R.fault("allocation failed");
    }
    if (st == Stop::MEMORY) {
      if (!fired) {
        R.fail("exception", "assign ran out of memory without a failed allocation");
      }
      R.log("  out of memory");
      check_name(t, n); // nothing changed
      return;
    }
    t.model[n] = d;
    if (as_ext) {
      external.insert({t.serial, n});
    } else {
      external.erase({t.serial, n});
    }
    check_name(t, n);
  }

  bool
  known(Table &t, string const &n)
  {
    auto buf = std::vector<char>(n.begin(), n.end());
    std::string_view v{buf.data(), buf.size()};
    return R.sut([&] { return t.ext ? t.ext->contains(v) : t.ctx->contains(v); });
  }
  void
  check_name(Table &t, string const &n)
  {
    if (known(t, n) != (t.model.count(n) != 0)) {
      R.fail("contains", "table %u %s '%s'", t.serial, t.model.count(n) ? "does not contain" : "contains", esc(n).substr(0, 60).c_str());
    }
    render(t, {n}, 1);
  }

  void
  render(Table &t, std::vector<string> const &names, int how)
  {
    string fmt, out;
    bool thrown = false;
    NCtx &c     = ctxs[R.pick(2)];
    for (auto &n : names) {
      string lit = how ? "" : gen_text(R, 6);
      lit.erase(std::remove_if(lit.begin(), lit.end(), [](char x) { return x == '{' || x == '}'; }), lit.end());
      fmt += lit;
      if (!thrown) {
        out += lit;
      }
      string spec;
      size_t mn = 0, mx = ~size_t(0);
      char al = 0;
      if (!how && R.coin()) {
        mn = R.pick(20);
        al = R.coin() ? "<>^"[R.pick(3)] : 0;
        if (R.one_in(3)) {
          mx = mn + R.pick(10);
        }
        spec = ":";
        if (al) {
          spec += '*';
          spec += al;
        }
        spec += std::to_string(mn);
        if (mx != ~size_t(0)) {
          spec += "," + std::to_string(mx);
        }
      }
      fmt += "{" + n + spec + "}";
      if (thrown) {
        continue;
      }
      string v   = value(t, n, &c, 0, thrown);
      auto spot  = t.model.find(n);
      if (thrown) {
        continue; // nothing of that field is defined
      }
      (void)spot;
      if (v.size() > mx) {
        v.resize(mx);
      }
      if (v.size() < mn) {
        size_t k = mn - v.size(), l = al == '>' ? k : al == '^' ? k / 2 : 0;
        v = string(l, al ? '*' : ' ') + v + string(k - l, al ? '*' : ' ');
      }
      out += v;
    }
    size_t cap = R.coin() ? out.size() + R.pick(4) : R.small(out.size() + 30);
    bool pre   = R.coin();
    auto buf   = std::make_unique<char[]>(cap + 1);
    depth      = 0;
    R.log("table %u render '%s' in %zu", t.serial, esc(fmt).substr(0, 100).c_str(), cap);
    string got;
    size_t extent = 0;
    auto st = guarded(R, [&] {
      swoc::FixedBufferWriter w(buf.get(), cap);
      if (pre) {
        swoc::bwf::Format f{swoc::TextView(fmt)};
        if (t.ext) {
          w.print_nfv(t.ext->bind(), f.bind(), swoc::bwf::ArgTuple(std::tuple<>{}));
        } else {
          w.print_nfv(t.ctx->bind(c), f.bind(), swoc::bwf::ArgTuple(std::tuple<>{}));
        }
      } else if (t.ext) {
        w.print_n(t.ext->bind(), swoc::TextView(fmt));
      } else {
        w.print_n(t.ctx->bind(c), swoc::TextView(fmt));
      }
      HostScope hs;
      got    = string(w.view());
      extent = w.extent();
    });
    if (st == Stop::THROWN) {
      if (!thrown) {
        R.fail("thrown", "a generator that throws was used although none is in '%s'", esc(fmt).substr(0, 60).c_str());
      }
      R.count("generators that threw");
      return;
    }
    if (st != Stop::NONE || thrown) {
      R.fail("thrown", "'%s' ended with %d, a throwing generator is %sused", esc(fmt).substr(0, 60).c_str(), int(st), thrown ? "" : "not ");
    }
    if (extent != out.size() || got != out.substr(0, cap)) {
      R.fail("name", "'%s' shows '%s' (extent %zu) instead of '%s'", esc(fmt).substr(0, 100).c_str(), esc(got).substr(0, 100).c_str(), extent,
             esc(out.substr(0, cap)).substr(0, 100).c_str());
    }
    R.count("names rendered", names.size());
  }

  void
  go()
  {
    unsigned nv = 1 + R.pick(12);
    for (unsigned i = 0; i < nv; ++i) {
      if (!vocabulary.empty() && R.one_in(3)) { // differs a little from another
        string s = vocabulary[R.pick(vocabulary.size())];
        switch (R.pick(3)) {
        case 0: s += 'x'; break;
        case 1: s[0] ^= 0x20; break;
        default: if (s.size() > 1) s.pop_back(); break;
        }
        vocabulary.push_back(s);
      } else {
        vocabulary.push_back(gen_name());
      }
    }
    ctxs[0].text = "one";
    ctxs[1].text = "two";
    create();
    while (R.more(25, 200)) {
      R.step();
      Table &t = *tables[R.pick(tables.size())];
      switch (R.pick(9)) {
      case 0:
      case 1:
      case 2:
        assign(t);
        break;
      case 3:
        check_name(t, name());
        break;
      case 4:
        if (tables.size() < 3) {
          create();
        }
        break;
      case 5:
        if (tables.size() > 1 && R.one_in(4)) {
          size_t k = R.pick(tables.size());
          R.log("destroy table %u", tables[k]->serial);
          R.sut([&] {
            tables[k]->ext.reset();
            tables[k]->ctx.reset();
          });
          tables.erase(tables.begin() + k);
        }
        break;
      case 6:
        ctxs[R.pick(2)].text = string(R.pick(8), 'a' + R.pick(26));
        break;
      default: {
        std::vector<string> ns;
        unsigned n = 1 + R.pick(4);
        for (unsigned i = 0; i < n; ++i) {
          ns.push_back(name());
        }
        render(t, ns, 0);
        break;
      }
      }
      uint64_t h = tables.size();
      for (auto &x : tables) {
        h = mix(h, x->model.size() * 2 + (x->ctx != nullptr));
        for (auto &d : x->model) {
          h = mix(h, d.second.kind + d.first.size() * 8);
        }
      }
      R.state(h);
    }
    for (auto &t : tables) {
      for (auto &n : vocabulary) {
        check_name(*t, n);
      }
    }
    if (R.ops() > 2) {
      R.nontrivial();
    }
    R.sut([&] {
      for (auto &t : tables) {
        t->ext.reset();
        t->ctx.reset();
      }
    });
    tables.clear();
  }
};
NamesSim *NamesSim::self = nullptr;

Register w01{
  {"W01", [](Run &r) { run_w01(r); },
   "histories of mean length 14 of all operations on two fixed writers over guarded buffers of capacity 0 to 500 (heap, span, none, local), each checked after every operation "
   "against the output an unlimited writer would hold; non-trivial: more than two operations", "writer content, extent and capacity after each operation",
   {"FixedBufferWriter", "LocalBufferWriter", "formatted output (bwf)"}, {"values printed: generated, own formatter"},
   {"restore does not exceed what was restricted", "buffers given to different writers do not overlap"}}
};
Register w02{
  {"W02", [](Run &r) { run_w02(r); },
   "prints and appends to strings of random content and capacity, and histories of output to arena writers on arenas with content, with failing allocations, throwing formatters and "
   "malformed formats; non-trivial: some output", "destination content and extent after each operation",
   {"bwprint", "bwappend", "ArenaWriter", "MemArena", "formatted output (bwf)"}, {"memory allocation: fails on command"},
   {"the arena is not used for anything else while a writer is on it", "restrict does not exceed the remaining capacity of an arena writer"}}
};
Register w03{
  {"W03", [](Run &r) { run_w03(r); },
   "random formats of literals, escapes, fields by position, index and name with random specifiers over 45 kinds of values, printed in twelve ways (three with a format extractor of our own) after previous output with the remaining "
   "capacity around the length of the output, compared with a reference renderer; non-trivial: some output", "writer content, extent and capacity after each print",
   {"formatted output (bwf) for all value types of bwf_base.h, bwf_ex.h, bwf_std.h, bwf_ip.h"}, {"dispatch of arguments: a variant value, own formatter that calls the library's"},
   {"positional fields count positional fields only (pinned by the unit tests)", "a minimum above the maximum is used only with left alignment", "errors 41 and 58 have no name"}}
};
Register w04{
  {"W04", [](Run &r) { run_w04(r); },
   "histories of making dates and error values, advancing and jumping the clock, changing the time zone and the current error number, and rendering in writers of random capacity, "
   "compared with a reference calendar; non-trivial: something rendered", "rendered content and capacity",
   {"bwf::Date", "bwf::Errno", "std::error_code formatting"}, {"clock: simulated clock_gettime, gettimeofday and time", "time zone: simulated by TZ rules"},
   {"TZ is not changed during a call", "years 1938 to 2200"}}
};
Register w05{
  {"W05", [](Run &r) { warm_up(); NamesSim(r, r.coin()).go(); },
   "histories of mean length 25 of assigning generators to names (given in buffers that vanish), looking names up, and rendering them, directly and nested, in up to three name tables of "
   "both kinds, half of the runs with failing allocations; non-trivial: more than two operations", "(tables, names of each with length and kind of generator)",
   {"bwf::ExternalNames", "bwf::ContextNames", "bwf::Format", "print_n, print_nfv"}, {"generators", "memory allocation: fails on command"}, {}}
};
} // namespace

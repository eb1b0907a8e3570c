// P03 P04: data that arrives in pieces and is taken apart by views and spans.
#include "sim.h"
#include <algorithm>
#include <array>
#include <cinttypes>
#include <cmath>
#include <cstring>
#include <iomanip>
#include <map>
#include <memory>
#include <sstream>
#include <unordered_map>
#include "swoc/MemArena.h"
#include "swoc/MemSpan.h"
#include "swoc/TextView.h"
#include "swoc/string_view_util.h"

using namespace sim;
using std::string;
using std::string_view;
using swoc::CharSet;
using swoc::MemArena;
using swoc::MemSpan;
using swoc::TextView;

namespace {
constexpr size_t NONE = size_t(-1);

string
esc(string_view s)
{
  string z;
  for (unsigned char c : s) {
    if (c < 32 || c > 126 || c == '\\') {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      z += b;
    } else {
      z += static_cast<char>(c);
    }
  }
  return z;
}

int
lower(unsigned char c)
{
  return c >= 'A' && c <= 'Z' ? c + 32 : c;
}
bool
blank(unsigned char c)
{
  return c == ' ' || (c >= 9 && c <= 13);
}
bool
number(unsigned char c)
{
  return c >= '0' && c <= '9';
}
int
digit(unsigned char c)
{
  c = lower(c);
  return number(c) ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : 99;
}
/// Order documented for the comparison functions.
int
order(string_view a, string_view b, bool nocase)
{
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
    unsigned char x = nocase ? lower(a[i]) : a[i], y = nocase ? lower(b[i]) : b[i];
    if (x != y) return x < y ? -1 : 1;
  }
  return a.size() < b.size() ? -1 : a.size() > b.size();
}

// ---------------------------------------------------------------- numbers
/// What the documentation says about the number at the start of a text.
struct Num {
  bool neg     = false;
  bool over    = false; ///< too large
  uint64_t v   = 0;
  size_t start = 0, end = 0; ///< the part that is the number, empty if there is none
  bool open    = false;      ///< the documentation doesn't say
};
Num
integer(string_view s, int base, bool sign)
{
  Num n;
  size_t i = 0;
  while (i < s.size() && blank(s[i])) ++i;
  n.start = i;
  if (sign && i < s.size() && (s[i] == '-' || s[i] == '+')) {
    n.neg = s[i] == '-';
    ++i;
    if (i < s.size() && blank(s[i])) n.open = true;
  }
  bool any = false;
  if (base == 0) {
    base = 10;
    if (i < s.size() && s[i] == '0') {
      base = 8, any = true;
      ++i;
      if (i < s.size() && lower(s[i]) == 'x') base = 16;
      else if (i < s.size() && lower(s[i]) == 'b') base = 2;
      if (base != 8) {
        ++i;
        any = false;
        if (i >= s.size() || digit(s[i]) >= base) n.open = true; // a prefix without digits
      }
    }
  }
  for (; i < s.size() && digit(s[i]) < base; ++i) {
    any                 = true;
    unsigned __int128 x = (unsigned __int128)n.v * unsigned(base) + unsigned(digit(s[i]));
    if (n.over || x > UINT64_MAX) n.over = true, n.v = UINT64_MAX;
    else n.v = uint64_t(x);
  }
  n.end = any ? i : n.start;
  return n;
}
/// Length of the floating point number at the start of @a s, 0 if there is none.
size_t
real_length(string_view s, bool &odd)
{
  size_t i = 0, d = 0;
  auto at = [&](size_t k) { return k < s.size() ? s[k] : '\0'; };
  if (at(i) == '+' || at(i) == '-') ++i;
  while (number(at(i))) ++i, ++d;
  if (at(i) == '.') {
    ++i;
    while (number(at(i))) ++i, ++d;
  }
  odd = false;
  if (!d) return 0;
  if (lower(at(i)) == 'e') {
    size_t k = i + 1;
    if (at(k) == '+' || at(k) == '-') ++k;
    if (number(at(k))) {
      while (number(at(k))) ++k;
      i = k;
    }
  }
  return i;
}

// ---------------------------------------------------------------- histories of views of one text
struct Base {
  Run &R;
  explicit Base(Run &r) : R(r) {}

  string
  any_text(unsigned most)
  {
    static string const ALPHA[] = {"ab,;:. =", "aAbB \t\n,", "0123456789", "0x1fFbB-+.eE ", string("\0\xff\x80 a", 5), "ab", "/.-_ab0"};
    string z;
    unsigned n = R.one_in(12) ? 0 : R.small(most) + R.pick(3);
    string const *a = &ALPHA[R.pick(7)];
    for (unsigned i = 0; i < n; ++i) {
      if (R.one_in(10)) a = &ALPHA[R.pick(7)];
      z += R.one_in(25) ? char(R.pick(256)) : (*a)[R.pick(a->size())];
    }
    return z;
  }
  int hint = 0; ///< Base of the last number, if it was made for one.
  /// A text that is, or nearly is, a number.
  string
  number_text()
  {
    static char const *const FIXED[] = {"0", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "0x", "0b", "0xg", "08", "-",
                                        "+", "-0", "0777", "0x7fffffffffffffff", "0xffffffffffffffff", "0x10000000000000000", "01777777777777777777777", "02000000000000000000000", "1e", "1e+", ".", "5.", ".5", "-.5e1", "e5", "1e400",
                                        "1e-400", "0e999", "1e2147483648", "1e4294967296", "1e-18446744073709551616", "123456789012345678901234567890", "0.000000000000000000000000000001", "2.2250738585072014e-308",
                                        "1.7976931348623157e308", "9007199254740993", "99999999999999999999", "0.1", "1.e2", "1..2", "1e5e5"};
    string z;
    hint = 0;
    if (R.one_in(5)) { // at the limits of the conversion
      hint       = R.coin() ? int(2 + R.pick(35)) : 10;
      uint64_t b = uint64_t(hint), x;
      switch (R.pick(6)) {
      case 0: x = UINT64_MAX; break;
      case 1: x = UINT64_MAX / b; break;
      case 2: x = INT64_MAX; break;
      case 3: x = INT64_MAX / b; break;
      case 4: x = UINT64_MAX / b / b; break;
      default: x = uint64_t(1) << (1 + R.pick(63));
      }
      x += R.pick(4) - 1;
      do {
        unsigned d = unsigned(x % b);
        z.insert(z.begin(), char(d < 10 ? '0' + d : (R.coin() ? 'a' : 'A') + d - 10));
      } while (x /= b);
      for (unsigned n = R.pick(4); n; --n) {
        unsigned d = R.pick(unsigned(b));
        z += char(d < 10 ? '0' + d : 'a' + d - 10);
      }
      if (R.one_in(3)) z.insert(0, R.coin() ? "-" : "+");
    } else if (R.one_in(4)) z = FIXED[R.pick(sizeof(FIXED) / sizeof(*FIXED))];
    else {
      if (R.one_in(3)) z += R.coin() ? "-" : "+";
      static char const *const PRE[] = {"", "0", "0x", "0X", "0b", "0B"};
      char const *pre = PRE[R.one_in(3) ? R.pick(6) : 0];
      z += pre;
      static char const *const DIG[] = {"0123456789", "01234567", "0123456789abcdefABCDEF", "01", "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"};
      string d = DIG[R.pick(5)];
      for (unsigned n = R.small(24); n; --n) z += d[R.pick(d.size())];
      if (R.one_in(3)) {
        z += '.';
        for (unsigned n = R.small(20); n; --n) z += char('0' + R.pick(10));
      }
      if (R.one_in(3)) {
        z += R.coin() ? 'e' : 'E';
        if (R.coin()) z += R.coin() ? '-' : '+';
        z += std::to_string(R.pick(R.one_in(4) ? 700 : 40));
      }
    }
    if (R.one_in(4)) z.insert(0, R.coin() ? " " : "\t \n");
    if (R.one_in(3)) z += any_text(4);
    return z;
  }

  /// Text in memory of exactly that size, so that an access outside of it is detected.
  struct Block {
    char *p  = nullptr;
    size_t n = 0;
    explicit Block(string_view s) : n(s.size())
    {
      void *m = nullptr;
      if (posix_memalign(&m, 256, n)) abort(); // the same alignment every time.
      p = static_cast<char *>(m);
      std::copy(s.begin(), s.end(), p);
    }
    Block(Block const &)            = delete;
    Block &operator=(Block const &) = delete;
    ~Block()
    {
      memset(p, '#', n);
      free(p);
    }
    string_view view() const { return {p, n}; }
  };

  void
  convert(string_view s)
  {
    TextView src{s.data(), s.size()}, stale{"stale"}, parsed;
    auto where = [&](char const *f, TextView const &p, size_t at, size_t end) {
      if (p.size() != end - at || (p.size() && p.data() != s.data() + at)) {
        bool in = p.size() && p.data() >= s.data() && p.data() + p.size() <= s.data() + s.size();
        R.fail("number", "%s of '%s' used '%s' instead of '%s'", f, esc(s).c_str(), in || p.empty() || p.data() == stale.data() ? esc(p).c_str() : "text outside", esc(s.substr(at, end - at)).c_str());
      }
    };
    static int const BASES[] = {0, 10, 16, 8, 2, 3, 7, 36, 35, 11};
    int base                 = hint && R.pct(80) ? hint : R.one_in(4) ? int(2 + R.pick(35)) : BASES[R.pick(10)];
    Num n                    = integer(s, base, true);
    parsed                   = stale;
    bool out                 = R.pct(80);
    if (!n.open) {
      intmax_t x    = R.sut([&] { return swoc::svtoi(src, out ? &parsed : nullptr, base); });
      intmax_t want = n.neg ? (n.v > uint64_t(INT64_MAX) ? INT64_MIN : -intmax_t(n.v)) : (n.v > uint64_t(INT64_MAX) ? INT64_MAX : intmax_t(n.v));
      if (x != want) R.fail("number", "svtoi of '%s' base %d is %jd instead of %jd", esc(s).c_str(), base, x, want);
      if (out) where("svtoi", parsed, n.start, n.end);
    }
    n      = integer(s, base, false);
    parsed = stale;
    if (!n.open) {
      uintmax_t u = R.sut([&] { return swoc::svtou(src, out ? &parsed : nullptr, base); });
      if (u != n.v) R.fail("number", "svtou of '%s' base %d is %ju instead of %ju", esc(s).c_str(), base, u, uintmax_t(n.v));
      if (out) where("svtou", parsed, n.start, n.end);
    }
    // Digits only, the text is used up.
    auto digits = [&](auto radix) {
      constexpr int N = decltype(radix)::value;
      uint64_t v      = 0;
      bool over       = false;
      size_t k        = 0;
      for (; k < s.size() && digit(s[k]) < N; ++k) {
        unsigned __int128 x = (unsigned __int128)v * N + unsigned(digit(s[k]));
        if (over || x > UINT64_MAX) over = true, v = UINT64_MAX;
        else v = uint64_t(x);
      }
      TextView t  = src;
      uintmax_t u = R.sut([&] { return swoc::svto_radix<N>(t); });
      if (u != v) R.fail("number", "svto_radix<%d> of '%s' is %ju instead of %ju", N, esc(s).c_str(), u, uintmax_t(v));
      where("svto_radix, what is left,", t, k, s.size());
      if (v != R.sut([&] { return swoc::svto_radix<N>(TextView(src)); })) R.fail("number", "svto_radix<%d> of '%s' as a value differs", N, esc(s).c_str());
    };
    switch (R.pick(6)) {
    case 0: digits(std::integral_constant<int, 10>{}); break;
    case 1: digits(std::integral_constant<int, 16>{}); break;
    case 2: digits(std::integral_constant<int, 8>{}); break;
    case 3: digits(std::integral_constant<int, 2>{}); break;
    case 4: digits(std::integral_constant<int, 36>{}); break;
    case 5: digits(std::integral_constant<int, 7>{}); break;
    }
    if (s.empty() || !blank(s[0])) { // leading white space is not documented for this
      bool odd;
      size_t len  = real_length(s, odd);
      double want = len ? strtod(string(s.substr(0, len)).c_str(), nullptr) : 0;
      parsed      = stale;
      double got  = R.sut([&] { return swoc::svtod(src, out ? &parsed : nullptr); });
      bool close  = got == want;
      if (!close && std::isfinite(want) && std::isfinite(got)) {
        if (std::fabs(want) > 1e-290) close = std::fabs(got - want) <= std::fabs(want) * 3e-16;
        else close = std::fabs(got) < 1e-280; // tiny
      }
      if (!close && std::fabs(want) > 1.7e308) close = got > 1.7e308 || got < -1.7e308;
      if (!close) R.fail("number", "svtod of '%s' is %.17g instead of %.17g", esc(s).c_str(), got, want);
      if (out) where("svtod", parsed, 0, len);
    }
  }

  void
  compare(string_view a, string_view b)
  {
    Block x(a), y(b);
    TextView p{x.p, x.n}, q{y.p, y.n};
    int c = order(a, b, false), d = order(a, b, true);
    int e = R.sut([&] { return memcmp(p, q); }), f = R.sut([&] { return strcmp(p, q); }), g = R.sut([&] { return strcasecmp(p, q); });
    if (e != c) R.fail("order", "memcmp of '%s' and '%s' is %d instead of %d", esc(a).c_str(), esc(b).c_str(), e, c);
    if (f != c) R.fail("order", "strcmp of '%s' and '%s' is %d instead of %d", esc(a).c_str(), esc(b).c_str(), f, c);
    if (g != d) R.fail("order", "strcasecmp of '%s' and '%s' is %d instead of %d", esc(a).c_str(), esc(b).c_str(), g, d);
    if (TextView::LessThan{}(p, q) != (c < 0)) R.fail("order", "LessThan of '%s' and '%s' is wrong", esc(a).c_str(), esc(b).c_str());
    if (TextView::LessThanNoCase{}(p, q) != (d < 0)) R.fail("order", "LessThanNoCase of '%s' and '%s' is wrong", esc(a).c_str(), esc(b).c_str());
    if (TextView::CaselessEqual{}(p, q) != (d == 0)) R.fail("order", "CaselessEqual of '%s' and '%s' is wrong", esc(a).c_str(), esc(b).c_str());
    if ((p == q) != (c == 0) || (p != q) != (c != 0)) R.fail("order", "equality of '%s' and '%s' is wrong", esc(a).c_str(), esc(b).c_str());
    if (c == 0 && std::hash<TextView>{}(p) != std::hash<TextView>{}(q)) R.fail("order", "equal texts '%s' have different hashes", esc(a).c_str());
    // Affixes.
    auto same = [](string_view m, string_view n, bool nocase) { return m.size() == n.size() && order(m, n, nocase) == 0; };
    bool sw = a.size() >= b.size() && same(a.substr(0, b.size()), b, false), swn = a.size() >= b.size() && same(a.substr(0, b.size()), b, true);
    bool ew = a.size() >= b.size() && same(a.substr(a.size() - b.size()), b, false), ewn = a.size() >= b.size() && same(a.substr(a.size() - b.size()), b, true);
    if (p.starts_with(q) != sw || p.starts_with_nocase(q) != swn || p.ends_with(q) != ew || p.ends_with_nocase(q) != ewn) R.fail("affix", "whether '%s' starts or ends with '%s' is wrong", esc(a).c_str(), esc(b).c_str());
    if (b.find('\0') == string::npos) {
      string cs(b);
      char const *z = cs.c_str();
      if (p.starts_with(z) != sw || p.starts_with_nocase(z) != swn || p.ends_with(z) != ew || p.ends_with_nocase(z) != ewn) R.fail("affix", "whether '%s' starts or ends with '%s' is wrong", esc(a).c_str(), esc(b).c_str());
    }
    char k = a.size() && R.coin() ? a[R.pick(a.size())] : b.size() ? b[0] : 'a';
    if (R.one_in(4)) k ^= 0x20;
    bool s1 = a.size() && a.front() == k, s2 = a.size() && lower(a.front()) == lower(k), e1 = a.size() && a.back() == k, e2 = a.size() && lower(a.back()) == lower(k);
    if (p.starts_with(k) != s1 || p.starts_with_nocase(k) != s2 || p.ends_with(k) != e1 || p.ends_with_nocase(k) != e2) R.fail("affix", "whether '%s' starts or ends with '%s' is wrong", esc(a).c_str(), esc({&k, 1}).c_str());
  }

  /// A sink that can fail.
  struct Sink : std::streambuf {
    string got;
    size_t room = NONE;
    std::streamsize
    xsputn(char const *s, std::streamsize n) override
    {
      size_t k = std::min<size_t>(size_t(n), room == NONE ? size_t(n) : room - got.size());
      got.append(s, k);
      return std::streamsize(k);
    }
    int
    overflow(int c) override
    {
      if (c == EOF || (room != NONE && got.size() >= room)) return EOF;
      got += char(c);
      return c;
    }
  };
  void
  print(string_view s)
  {
    TextView v{s.data(), s.size()};
    Sink sink;
    std::ostream os(&sink);
    string want;
    unsigned n = 1 + R.pick(3);
    bool dead  = false;
    if (R.one_in(3)) {
      sink.room = R.pick(30);
      R.fault("sink-full");
    }
    for (unsigned i = 0; i < n; ++i) {
      unsigned w = R.coin() ? 0 : R.pick(unsigned(s.size()) + 24);
      char fill  = R.coin() ? ' ' : '*';
      bool left  = R.coin();
      os << std::setw(int(w)) << std::setfill(fill);
      if (left) os << std::left;
      else if (R.coin()) os << std::right;
      else if (R.coin()) os << std::internal;
      else os.unsetf(std::ios_base::adjustfield);
      R.sut([&] { os << v; });
      if (!dead) {
        string pad(w > s.size() ? w - s.size() : 0, fill);
        want += left ? string(s) + pad : pad + string(s);
        if (want.size() > sink.room) {
          dead = true;
          want.resize(sink.room);
        } else if (os.width() != 0) {
          R.fail("print", "the width is still set after output");
        }
      }
      if (dead ? os.good() : !os.good()) R.fail("print", "the state of the stream is wrong: room for %zu of '%s'", sink.room, esc(want).c_str());
      // What is written after the first part that didn't fit is a matter of the stream. It must not be more than fits.
      if (sink.got.compare(0, std::min(want.size(), sink.got.size()), want, 0, std::min(want.size(), sink.got.size())) != 0 || sink.got.size() > want.size() || (!dead && sink.got != want))
        R.fail("print", "wrote '%s' instead of '%s'", esc(sink.got).c_str(), esc(want).c_str());
    }
  }

  void
  transform(string_view s)
  {
    struct Count {
      int *n;
      int k;
      char
      operator()(char c) const
      {
        ++*n;
        return char(c ^ k);
      }
    };
    int calls = 0, k = int(R.pick(255)) + 1;
    TextView v{s.data(), s.size()};
    auto x = R.sut([&] { return swoc::transform_view_of(Count{&calls, k}, v); });
    auto i = R.sut([&] { return swoc::transform_view_of(v); });
    auto start = x;
    auto istart = i;
    for (size_t at = 0;; ++at) {
      if (x.empty() != (at >= s.size()) || bool(x) == x.empty() || i.empty() != x.empty() || bool(i) == i.empty()) R.fail("transform", "the view of '%s' is empty at %zu", esc(s).c_str(), at);
      if ((x == start) != (at == 0) || (x != start) != (at != 0) || (i == istart) != (at == 0) || (i != istart) != (at != 0)) R.fail("transform", "position %zu in '%s' compares wrong", at, esc(s).c_str());
      if (at >= s.size()) break;
      if (R.coin()) {
        if (*x != char(s[at] ^ k) || *i != s[at]) R.fail("transform", "element %zu of '%s' is wrong", at, esc(s).c_str());
        R.sut([&] { ++x; });
        R.sut([&] { ++i; });
      } else {
        auto y = R.sut([&] { return x++; });
        auto j = R.sut([&] { return i++; });
        if (*y != char(s[at] ^ k) || *j != s[at]) R.fail("transform", "element %zu of '%s' is wrong", at, esc(s).c_str());
      }
    }
    string all, same;
    for (auto c : start) all += c;
    for (auto c : istart) same += c;
    string want(s);
    for (auto &c : want) c = char(c ^ k);
    if (all != want || same != s) R.fail("transform", "the view of '%s' has other elements", esc(s).c_str());
    if (calls > int(3 * s.size())) R.fail("transform", "the transform was called %d times for %zu elements", calls, s.size());
  }
};

struct Edit : Base {
  using Base::Base;
  std::unique_ptr<Block> mem;
  struct V {
    TextView v;
    size_t off = 0, len = 0;
  } v[4];

  string_view text() const { return mem->view(); }
  string_view model(V const &x) const { return text().substr(x.off, x.len); }

  void
  same(TextView const &t, size_t off, size_t len, char const *op, char const *what)
  {
    if (t.size() != len || (len && t.data() != mem->p + off)) {
      string got = t.size() == 0 ? "nothing" : t.data() < mem->p || t.data() + t.size() > mem->p + mem->n ? "something outside the text" : "'" + esc(t) + "' at " + std::to_string(t.data() - mem->p);
      R.fail("view", "%s of %s is %s instead of '%s' at %zu", what, op, got.c_str(), esc(text().substr(off, len)).c_str(), off);
    }
    if (t.empty() != (len == 0) || bool(t) != (len != 0) || !t != (len == 0) || (t.data_end() - t.data() != ptrdiff_t(len)) || *t != (len ? text()[off] : '\0')) R.fail("view", "%s of %s contradicts itself", what, op);
  }
  // A way to select characters.
  struct Pred {
    int kind;
    char c;
    string set;
    bool
    operator()(unsigned char x) const
    {
      switch (kind) {
      case 0: return x == static_cast<unsigned char>(c);
      case 1: return set.find(char(x)) != string::npos;
      case 2: return number(x);
      case 3: return blank(x);
      case 4: return x > 127;
      case 5: return true;
      case 6: return false;
      default: return !number(x) && lower(x) == x;
      }
    }
  };
  void
  make()
  {
    string t = R.one_in(4) ? number_text() : any_text(30);
    if (R.one_in(30)) { // a long run of one character, or of a few
      string unit = R.coin() ? any_text(1) : any_text(6), run;
      if (unit.empty()) unit = "a";
      size_t n    = R.coin() ? 250 + R.pick(12) : R.one_in(8) ? 65530 + R.pick(12) : R.pick(1200);
      while (run.size() < n) run += unit;
      run.resize(n);
      t.insert(R.pick(unsigned(t.size()) + 1), run);
    }
    mem      = std::make_unique<Block>(t);
    for (auto &x : v) x = V{TextView{mem->p, t.size()}, 0, t.size()};
    R.log("text '%s'", esc(t).c_str());
  }
  void
  construct(V &x)
  {
    size_t n   = mem->n;
    size_t a   = n ? R.pick(unsigned(n)) : 0;
    size_t len = n ? R.pick(unsigned(n - a) + 1) : 0;
    char *p    = mem->p + a;
    string_view sv(p, len);
    R.sut([&] {
      switch (R.pick(10)) {
      case 0: x.v = TextView(p, len); break;
      case 1: x.v = TextView(p, unsigned(len)); break;
      case 2: x.v = TextView(p, int(len)); break;
      case 3: x.v = TextView(p, ssize_t(len)); break;
      case 4: x.v = TextView(p, p + len); break;
      case 5: x.v = TextView(sv); break;
      case 6: x.v = sv; break;
      case 7: x.v.assign(p, len); break;
      case 8: x.v.assign(static_cast<char const *>(p), static_cast<char const *>(p + len)); break;
      default: x.v.assign(sv);
      }
    });
    x.off = a, x.len = len;
    same(x.v, a, len, "construction", "the view");
    // From text that ends with a nul.
    string cs = any_text(10);
    cs.erase(std::remove(cs.begin(), cs.end(), '\0'), cs.end());
    Block z(cs + string(1, '\0'));
    char *cp        = z.p;
    char const *ccp = z.p;
    std::vector<char> vec(cs.begin(), cs.end());
    TextView w{"old"};
    R.sut([&] {
      switch (R.pick(12)) {
      case 0: w = TextView(cp); break;
      case 1: w = TextView(ccp); break;
      case 2: w = cp; break;
      case 3: w = ccp; break;
      case 4: w.assign(cp); break;
      case 5: w.assign(ccp); break;
      case 6: w = TextView(cp, -1); break;
      case 7: w = TextView(cp, TextView::npos); break;
      case 8: w = cs; break;
      case 9: w.assign(cs); break;
      case 10: w = TextView(vec); break;
      default: w.assign(cp, TextView::npos);
      }
    });
    if (w != string_view(cs)) R.fail("view", "a view of '%s' is '%s'", esc(cs).c_str(), esc(w).c_str());
    char const arr[5] = {'a', 'b', '\0', 'c', 'd'}, lit[] = "ab";
    TextView none{nullptr}, nil{static_cast<char const *>(nullptr), -1}, a1{arr}, a2{lit}, a3{"old"}, a4{"old"};
    a3 = arr;
    a4.assign(lit);
    if (!none.empty() || !nil.empty() || a1 != string_view(arr, 5) || a2 != string_view("ab") || a3 != string_view(arr, 5) || a4 != string_view("ab")) R.fail("view", "a view of an array or nothing is wrong");
  }
  void
  step()
  {
    V &x = v[R.pick(4)], &y = v[R.pick(4)];
    string s(model(x));
    size_t n = s.size();
    Pred p;
    p.c    = n && R.pct(75) ? s[R.pick(unsigned(n))] : R.coin() ? ',' : char(R.pick(256));
    p.set  = string(1, p.c);
    if (R.coin()) p.set += any_text(3);
    p.kind = R.pick(8);
    int way = R.pick(4); // 0 character, 1 set, 2 predicate, 3 count
    if (way == 0) p.kind = 0;
    if (way == 1) p.kind = 1;
    size_t count = R.pick(unsigned(n) + 3);
    if (R.one_in(20)) count = NONE;
    // The character selected from either side.
    size_t first = NONE, last = NONE;
    size_t lead = 0, trail = 0;
    for (size_t i = 0; i < n; ++i) {
      if (p(s[i])) {
        if (first == NONE) first = i;
        last = i;
      }
    }
    while (lead < n && p(s[lead])) ++lead;
    while (trail < n && p(s[n - 1 - trail])) ++trail;
    char c          = p.c;
    string_view set = p.set;
    char const *op  = "";
    TextView r;
    bool returned = true; // is there another view
    size_t ro = 0, rl = 0, xo = x.off, xl = x.len;
    auto give = [&](size_t off, size_t len) { ro = x.off + off, rl = len; };
    auto keep = [&](size_t off, size_t len) { xo = x.off + off, xl = len; };
    bool either = false;
    switch (R.pick(27)) {
    case 0:
      op = "prefix";
      if (way == 3) give(0, std::min(n, count)), r = R.sut([&] { return R.coin() || count > 1000 ? x.v.prefix(count) : x.v.prefix(int(count)); });
      else {
        r = R.sut([&] { return way == 0 ? x.v.prefix_at(c) : way == 1 ? x.v.prefix_at(set) : x.v.prefix_if(p); });
        give(0, first == NONE ? 0 : first);
      }
      break;
    case 1:
      op = "suffix";
      if (way == 3) {
        r = R.sut([&] { return R.coin() || count > 1000 ? x.v.suffix(count) : x.v.suffix(int(count)); });
        size_t k = std::min(n, count);
        give(n - k, k);
      } else {
        r = R.sut([&] { return way == 0 ? x.v.suffix_at(c) : way == 1 ? x.v.suffix_at(set) : x.v.suffix_if(p); });
        if (last != NONE) give(last + 1, n - last - 1);
      }
      break;
    case 2:
    case 3:
      op = "split_prefix";
      if (way == 3) {
        r      = R.sut([&] { return R.coin() || count > 1000 ? x.v.split_prefix(count) : x.v.split_prefix(int(count)); });
        either = count == n;
        if (count < n) give(0, count), keep(count + 1, n - count - 1);
      } else {
        r = R.sut([&] { return way == 0 ? x.v.split_prefix_at(c) : way == 1 ? x.v.split_prefix_at(set) : x.v.split_prefix_if(p); });
        if (first != NONE) give(0, first), keep(first + 1, n - first - 1);
      }
      break;
    case 4:
    case 5:
      op = "split_suffix";
      if (way == 3) {
        r      = R.sut([&] { return R.coin() || count > 1000 ? x.v.split_suffix(count) : x.v.split_suffix(int(count)); });
        either = count == n;
        if (count < n) give(n - count, count), keep(0, n - count - 1);
      } else {
        r = R.sut([&] { return way == 0 ? x.v.split_suffix_at(c) : way == 1 ? x.v.split_suffix_at(set) : x.v.split_suffix_if(p); });
        if (last != NONE) give(last + 1, n - last - 1), keep(0, last);
      }
      break;
    case 6:
    case 7:
      op = "take_prefix";
      if (way == 3) first = count < n ? count : NONE, r = R.sut([&] { return x.v.take_prefix(count); });
      else r = R.sut([&] { return way == 0 ? x.v.take_prefix_at(c) : way == 1 ? x.v.take_prefix_at(set) : x.v.take_prefix_if(p); });
      if (first == NONE) give(0, n), keep(n, 0);
      else give(0, first), keep(first + 1, n - first - 1);
      break;
    case 8:
    case 9:
      op = "take_suffix";
      if (way == 3) last = count < n ? n - count - 1 : NONE, r = R.sut([&] { return R.coin() || count > 1000 ? x.v.take_suffix(count) : x.v.take_suffix(int(count)); });
      else r = R.sut([&] { return way == 0 ? x.v.take_suffix_at(c) : way == 1 ? x.v.take_suffix_at(set) : x.v.take_suffix_if(p); });
      if (last == NONE) give(0, n), keep(0, 0);
      else give(last + 1, n - last - 1), keep(0, last);
      break;
    case 10:
      op = "clip_prefix_of";
      r  = R.sut([&] { return x.v.clip_prefix_of(p); });
      give(0, lead), keep(lead, n - lead);
      break;
    case 11:
      op = "clip_suffix_of";
      r  = R.sut([&] { return x.v.clip_suffix_of(p); });
      give(n - trail, trail), keep(0, n - trail);
      break;
    case 12:
      op       = "remove_prefix";
      returned = false;
      if (way == 3) {
        size_t k = std::min(n, count);
        R.sut([&] { R.coin() ? x.v.remove_prefix(count) : x.v += count; });
        keep(k, n - k);
      } else {
        R.sut([&] { way == 0 ? x.v.remove_prefix_at(c) : way == 1 ? x.v.remove_prefix_at(set) : x.v.remove_prefix_if(p); });
        if (first != NONE) keep(first + 1, n - first - 1);
      }
      break;
    case 13:
      op       = "remove_suffix";
      returned = false;
      if (way == 3) {
        R.sut([&] { x.v.remove_suffix(count); });
        keep(0, n - std::min(n, count));
      } else {
        R.sut([&] { way == 0 ? x.v.remove_suffix_at(c) : way == 1 ? x.v.remove_suffix_at(set) : x.v.remove_suffix_if(p); });
        keep(0, last == NONE ? 0 : last);
      }
      break;
    case 14:
    case 15:
    case 16: {
      returned = false;
      bool l = R.coin(), t = R.coin() || !l;
      op = l && t ? "trim" : l ? "ltrim" : "rtrim";
      CharSet cset(set);
      string zset(set);
      zset.erase(std::remove(zset.begin(), zset.end(), '\0'), zset.end());
      bool z = way == 3 && zset == set;
      char const *zp = zset.c_str();
      if (way == 3) {
        p.kind = 1;
        lead = trail = 0;
        while (lead < n && p(s[lead])) ++lead;
        while (trail < n && p(s[n - 1 - trail])) ++trail;
      }
      R.sut([&] {
        if (l && t) way == 0 ? x.v.trim(c) : way == 1 ? x.v.trim(set) : way == 2 ? x.v.trim_if(p) : z ? x.v.trim(zp) : x.v.trim(cset);
        else if (l) way == 0 ? x.v.ltrim(c) : way == 1 ? x.v.ltrim(set) : way == 2 ? x.v.ltrim_if(p) : z ? x.v.ltrim(zp) : x.v.ltrim(cset);
        else way == 0 ? x.v.rtrim(c) : way == 1 ? x.v.rtrim(set) : way == 2 ? x.v.rtrim_if(p) : x.v.rtrim(cset);
      });
      if (l) keep(lead, n - lead);
      if (t) keep(xo - x.off, lead == n && l ? 0 : xl - trail);
    } break;
    case 17: {
      op       = "substr";
      size_t k = R.pick(unsigned(n) + 2);
      r        = R.sut([&] { return x.v.substr(k, count); });
      if (k < n) give(k, std::min(count, n - k));
    } break;
    case 18:
      op = "++";
      if (R.coin()) {
        returned = false;
        R.sut([&] { ++x.v; });
      } else {
        r = R.sut([&] { return x.v++; });
        give(0, n);
      }
      keep(n ? 1 : 0, n ? n - 1 : 0);
      break;
    case 19:
      op = "find_if", returned = false;
      if (x.v.find_if(p) != first || x.v.rfind_if(p) != last) R.fail("view", "find_if in '%s' is %zu and %zu instead of %zu and %zu", esc(s).c_str(), x.v.find_if(p), x.v.rfind_if(p), first, last);
      break;
    case 20:
      op = "copy", returned = false;
      R.sut([&] { x.v = y.v; });
      xo = y.off, xl = y.len;
      break;
    case 21:
      op = "clear", returned = false;
      if (R.one_in(3)) {
        R.sut([&] { x.v.clear(); });
        keep(0, 0);
      }
      break;
    case 22:
      op = "construct", returned = false;
      construct(x);
      xo = x.off, xl = x.len;
      break;
    case 23:
      op = "convert", returned = false;
      convert(s.empty() ? text().substr(0, 0) : model(x));
      break;
    case 24:
      op = "compare", returned = false;
      {
        string a = s, b(model(y));
        if (R.coin()) b = a;
        if (b.size() && R.coin()) b[R.pick(unsigned(b.size()))] ^= R.coin() ? 0x20 : char(1 << R.pick(8));
        if (R.one_in(3)) b = b.substr(0, R.pick(unsigned(b.size()) + 1));
        if (R.one_in(4)) b = b.substr(R.pick(unsigned(b.size()) + 1));
        R.coin() ? compare(a, b) : compare(b, a);
      }
      break;
    case 25:
      op = "print", returned = false;
      print(model(x));
      break;
    default:
      op = "transform", returned = false;
      transform(model(x));
    }
    char label[64];
    snprintf(label, sizeof label, "%s (%s)", op, way == 0 ? "character" : way == 1 ? "set" : way == 2 ? "predicate" : "count");
    R.log("%ld: %s of '%s' with '%s' %zd", long(&x - v), label, esc(s).c_str(), esc(p.set).c_str(), ssize_t(count));
    if (either) { // nothing, or all of it
      if (x.v.size() == n) give(0, 0), keep(0, n);
      else give(0, n), keep(0, 0);
    }
    if (returned) same(r, ro, rl, label, "the result");
    same(x.v, xo, xl, label, "the rest");
    x.off = xo, x.len = xl;
    if (returned && R.coin()) y.v = r, y.off = ro, y.len = rl;
    for (auto &w : v) same(w.v, w.off, w.len, label, "another view");
    R.state(mix(mix(hash_bytes(op, strlen(op)), way), mix(hash_bytes(s.data(), s.size()), first * 31 + last)));
    R.step();
  }
  void
  go()
  {
    while (R.more(10, 60)) {
      if (!mem || R.one_in(8)) make();
      if (R.one_in(6)) {
        string t = number_text();
        Block b(t);
        R.log("number '%s'", esc(t).c_str());
        convert(b.view());
      } else {
        step();
      }
      R.nontrivial();
    }
  }
};

// ---------------------------------------------------------------- a stream of records
struct Stream : Base {
  using Base::Base;
  struct Item {
    string key;
    std::vector<string> words;
    intmax_t num   = 0;
    double real    = 0;
    bool operator==(Item const &t) const { return key == t.key && words == t.words && num == t.num && real == t.real; }
  };
  std::vector<Item> sent, got;
  std::vector<string> lines; ///< as sent
  std::map<string, std::vector<size_t>> by_key, by_key_nocase;

  static string
  word(Run &R)
  {
    static char const CH[] = "abcABC019_-./";
    string z;
    for (unsigned n = 1 + R.small(8); n; --n) z += CH[R.pick(sizeof(CH) - 1)];
    return z;
  }
  void
  write_item()
  {
    Item i;
    auto ws = [&] { return string(R.one_in(3) ? R.pick(3) : 0, R.coin() ? ' ' : '\t'); };
    i.key   = word(R);
    if (sent.size() && R.coin()) {
      i.key = sent[R.pick(unsigned(sent.size()))].key;
      if (R.coin()) i.key[0] ^= isalpha(static_cast<unsigned char>(i.key[0])) ? 0x20 : 0;
      if (R.one_in(4) && i.key.size() > 1) i.key.pop_back();
    }
    string z = std::to_string(sent.size()) + ws() + ":" + ws() + i.key + ws() + "=" + ws();
    uint64_t m = R.bits64() >> R.pick(64);
    i.num      = intmax_t(m);
    char b[64];
    switch (R.pick(4)) {
    case 0: snprintf(b, sizeof b, "%" PRIdMAX, i.num); break;
    case 1: snprintf(b, sizeof b, "0x%" PRIx64, (i.num = intmax_t(m & INT64_MAX), uint64_t(i.num))); break;
    case 2: snprintf(b, sizeof b, "0%" PRIo64, (i.num = intmax_t(m & INT64_MAX), uint64_t(i.num))); break;
    default: snprintf(b, sizeof b, "-%u", unsigned(m)), i.num = -intmax_t(unsigned(m));
    }
    z += string(b) + ws() + ";" + ws();
    i.real = (int(R.pick(2001)) - 1000) / 8.0 * std::pow(2.0, int(R.pick(20)) - 10);
    snprintf(b, sizeof b, R.coin() ? "%.20g" : "%.17e", i.real);
    z += b;
    for (unsigned n = R.pick(5), k = 0; k < n; ++k) {
      string w = R.one_in(6) ? "" : word(R);
      i.words.push_back(w);
      z += (k ? "," : ";") + ws() + w + ws();
    }
    lines.push_back(z + "\n");
    sent.push_back(i);
  }
  /// The line is text only until this returns.
  Item
  read_item(TextView line, size_t &seq)
  {
    Item i;
    TextView parsed;
    int style = R.pick(4);
    TextView id, key, num, real;
    auto take = [&](char c) -> TextView { // up to the character
      TextView t;
      switch (style) {
      case 0: return line.take_prefix_at(c);
      case 1: t = line.prefix_at(c), line.remove_prefix_at(c); return t;
      case 2: return line.split_prefix_at(string_view(&c, 1));
      default: t = line.clip_prefix_of([=](char k) { return k != c; }), ++line; return t;
      }
    };
    auto clean = [&](TextView t) -> TextView {
      switch (R.pick(4)) {
      case 0: return t.trim_if(&isspace);
      case 1: return t.trim(" \t");
      case 2: return t.ltrim_if([](char k) { return k == ' ' || k == '\t'; }).rtrim_if(&isspace);
      default: t.clip_prefix_of(&isspace), t.clip_suffix_of(&isspace); return t;
      }
    };
    R.sut([&] {
      id   = clean(take(':'));
      key  = clean(take('='));
      num  = clean(take(';'));
      seq  = size_t(swoc::svtou(id, &parsed));
      if (parsed != id) R.fail("record", "the number in '%s' is read as '%s'", esc(id).c_str(), esc(parsed).c_str());
      i.num = swoc::svtoi(num, &parsed);
      if (parsed != num) R.fail("record", "the number in '%s' is read as '%s'", esc(num).c_str(), esc(parsed).c_str());
    });
    i.key.assign(key.data(), key.size());
    bool list = line.find(';') != TextView::npos;
    R.sut([&] {
      real   = list ? clean(take(';')) : clean(line);
      i.real = swoc::svtod(real, &parsed);
      if (parsed != real) R.fail("record", "the number in '%s' is read as '%s'", esc(real).c_str(), esc(parsed).c_str());
    });
    if (list) {
      bool back = R.one_in(3), more = true;
      while (more) { // an empty piece after the last separator counts
        TextView w;
        more = line.find(',') != TextView::npos;
        R.sut([&] { w = clean(!more ? line : back ? line.take_suffix_at(',') : R.coin() ? line.take_prefix_at(',') : line.split_prefix_if([](char c) { return c == ','; })); });
        if (back) i.words.insert(i.words.begin(), string(w));
        else i.words.push_back(string(w));
        if (i.words.size() > 20) R.fail("record", "the list has no end");
      }
    }
    return i;
  }
  void
  apply(TextView line)
  {
    if (line.empty()) R.fail("stream", "an empty line was delivered");
    size_t seq = 0;
    R.log("line '%s'", esc(line).c_str());
    Item i = read_item(line, seq);
    if (seq < got.size()) { // again
      R.fault("record-repeated");
      if (!(i == sent[seq])) R.fail("record", "record %zu changed when it came again", seq);
      return;
    }
    if (seq != got.size()) R.fail("stream", "record %zu came instead of %zu", seq, got.size());
    Item const &w = sent[seq];
    if (!(i == w)) R.fail("record", "record %zu has '%s' %jd %.17g and %zu words instead of '%s' %jd %.17g and %zu words", seq, esc(i.key).c_str(), i.num, i.real, i.words.size(), esc(w.key).c_str(), w.num, w.real, w.words.size());
    got.push_back(i);
  }
  /// One connection. Everything it knows is gone when it ends.
  void
  connection(size_t from)
  {
    MemArena arena(R.pick(200));
    TextView rest; // incomplete line, in the arena
    string wire;
    for (size_t i = from; i < lines.size(); ++i) wire += lines[i];
    bool dies = R.one_in(3);
    if (dies) {
      wire.resize(R.pick(unsigned(wire.size()) + 1));
      R.fault("connection-lost");
    }
    R.log("connection from record %zu%s", from, dies ? ", which will be lost" : "");
    bool mem = R.one_in(4);
    unsigned at = 0, most = 1 + R.pick(R.coin() ? 8 : 200);
    while (at < wire.size()) {
      unsigned n = std::min<unsigned>(1 + R.pick(most), wire.size() - at);
      Block chunk(string_view(wire).substr(at, n));
      at += n;
      TextView in{chunk.p, chunk.n};
      if (mem && R.one_in(4)) R.arm_alloc(R.pick(3), false);
      try {
        if (!rest.empty()) { // the first line is in two places
          size_t nl      = in.find('\n');
          TextView piece = in.prefix(nl);
          MemSpan<char> joined = R.sut([&] { return arena.alloc(rest.size() + piece.size()).template rebind<char>(); });
          R.sut([&] {
            memcpy(joined.data(), rest);
            memcpy(joined.data() + rest.size(), piece);
          });
          if (nl == TextView::npos) {
            rest = TextView(joined.data(), joined.size());
            in.clear();
          } else {
            in.remove_prefix(nl + 1);
            rest.clear();
            R.disarm_alloc();
            apply(TextView(joined.data(), joined.size()));
            if (R.one_in(4)) R.sut([&] { arena.clear(); });
          }
        }
        int style = R.pick(3);
        while (!in.empty()) {
          TextView line, before = in;
          bool whole = true;
          R.sut([&] {
            switch (style) {
            case 0: line = in.split_prefix_at('\n'), whole = in.size() != before.size(); break;
            case 1: whole = in.find('\n') != TextView::npos, line = whole ? in.take_prefix_at('\n') : in; break;
            default: whole = in.prefix_at('\n').size() || in.starts_with('\n'), line = in.prefix_at('\n'), in.remove_prefix_at('\n');
            }
          });
          if (!whole) {
            auto keep = R.sut([&] { return arena.localize(MemSpan<char const>(in.data(), in.size())); });
            rest      = TextView(keep.data(), keep.size());
            break;
          }
          R.disarm_alloc();
          apply(line);
        }
        R.disarm_alloc();
      } catch (std::bad_alloc const &) {
        R.disarm_alloc();
        R.fault("allocation");
        R.log("no memory, the connection is dropped");
        return;
      }
    }
    // What is left is the part of a line that came.
    size_t nl = wire.rfind('\n');
    string want = wire.substr(nl == string::npos ? 0 : nl + 1);
    if (rest != string_view(want)) R.fail("stream", "'%s' is left over instead of '%s'", esc(rest).c_str(), esc(want).c_str());
  }
  template <typename MAP, typename LESS>
  void
  index(LESS const &less)
  {
    std::vector<std::unique_ptr<Block>> keys;
    MAP m;
    std::vector<std::pair<string, std::vector<size_t>>> model;
    for (size_t i = 0; i < got.size(); ++i) {
      keys.push_back(std::make_unique<Block>(got[i].key));
      TextView k{keys.back()->p, keys.back()->n};
      m[k].push_back(i);
      auto spot = std::find_if(model.begin(), model.end(), [&](auto &e) { return !less(e.first, got[i].key) && !less(got[i].key, e.first); });
      if (spot == model.end()) model.push_back({got[i].key, {i}});
      else spot->second.push_back(i);
    }
    if (m.size() != model.size()) R.fail("index", "%zu records have %zu keys instead of %zu", got.size(), m.size(), model.size());
    for (auto &e : model) {
      auto spot = m.find(TextView(e.first));
      if (spot == m.end() || spot->second != e.second) R.fail("index", "the key '%s' is not found", esc(e.first).c_str());
    }
  }
  void
  go()
  {
    unsigned n = 1 + R.small(8);
    for (unsigned i = 0; i < n; ++i) {
      R.mark();
      write_item();
    }
    for (unsigned round = 0; got.size() < sent.size(); ++round) {
      // The sender knows only what was acknowledged, and acknowledgements can be lost.
      size_t from = got.empty() || R.pct(70) ? got.size() : R.pick(unsigned(got.size()) + 1);
      size_t had  = got.size();
      if (round < 12) {
        connection(from);
      } else { // faults are over
        string all;
        for (size_t i = from; i < lines.size(); ++i) {
          Block b(lines[i].substr(0, lines[i].size() - 1));
          apply(TextView(b.p, b.n));
        }
        if (got.size() != sent.size()) R.fail("stream", "only %zu of %zu records arrived", got.size(), sent.size());
      }
      R.state(mix(mix(from, had), got.size()));
      R.step();
    }
    struct Less {
      bool nocase;
      bool operator()(string_view a, string_view b) const { return order(a, b, nocase) < 0; }
    };
    index<std::map<TextView, std::vector<size_t>, TextView::LessThan>>(Less{false});
    index<std::map<TextView, std::vector<size_t>, TextView::LessThanNoCase>>(Less{true});
    index<std::unordered_map<TextView, std::vector<size_t>>>(Less{false});
    struct One {
      size_t operator()(TextView const &) const { return 1; }
    };
    index<std::unordered_map<TextView, std::vector<size_t>, One, TextView::CaselessEqual>>(Less{true});
    R.nontrivial();
  }
};

// ---------------------------------------------------------------- spans of memory
struct Bytes : Base {
  using Base::Base;
  struct S12 {
    uint32_t a, b, c;
  };
  struct Slot {
    MemSpan<void> s;
    size_t off = 0, len = 0;
  } slots[4];
  std::unique_ptr<Block> mem;
  string model; ///< content of the memory
  unsigned skew = 0;
  char *base = nullptr;

  void
  make()
  {
    for (auto &s : slots) s = Slot{};
    bool large = R.one_in(50);
    unsigned n = large ? 200 + R.pick(R.one_in(4) ? 140000 : 2000) : R.one_in(10) ? R.pick(4) : 8 + R.small(90);
    skew       = R.pick(8);
    model.clear();
    while (large && model.size() < n) model.append(std::min<size_t>(n - model.size(), 1 + R.pick(R.coin() ? 5 : 1200)), R.pick(4) ? 'x' : char(R.pick(256)));
    for (unsigned i = model.size(); i < n; ++i) model += char(R.pick(5) ? R.pick(256) : i ? model[R.pick(i)] : 0);
    // Exactly sized at both ends, at any alignment.
    mem  = std::make_unique<Block>(string(skew, '#') + model);
    base = mem->p + skew;
    for (auto &s : slots) s = Slot{MemSpan<void>(base, n), 0, n};
    R.log("%u bytes of memory at alignment %zu", n, size_t(uintptr_t(base) & 15));
  }
  template <typename SPAN>
  void
  same(SPAN const &s, size_t off, size_t len, char const *op, char const *what)
  {
    auto p = static_cast<char const *>(static_cast<void const *>(s.data()));
    if (s.data_size() != len || (len && p != base + off)) R.fail("span", "%s of %s is %zu bytes at %td instead of %zu at %zu", what, op, s.data_size(), len ? p - base : 0, len, off);
    if (s.empty() != (len == 0) || bool(s) != (len != 0) || !s != (len == 0) || s.count() != s.size() || s.length() != s.size() || static_cast<char const *>(static_cast<void const *>(s.data_end())) != p + len)
      R.fail("span", "%s of %s contradicts itself", what, op);
  }
  void
  content(char const *op)
  {
    if (memcmp(base, model.data(), model.size()) != 0) {
      size_t i = 0;
      while (base[i] == model[i]) ++i;
      R.fail("memory", "%s: the byte at %zu is %u instead of %u", op, i, base[i] & 255, model[i] & 255);
    }
    for (unsigned i = 0; i < skew; ++i) {
      if (mem->p[i] != '#') R.fail("memory", "%s: written before the memory", op);
    }
  }
  static int sign(int x) { return x < 0 ? -1 : x > 0; }
  size_t
  amount(size_t n)
  {
    return R.one_in(15) ? NONE : R.pick(unsigned(n) + 3);
  }
  /// Operations of spans of @a T elements of @a E bytes.
  template <typename SPAN>
  void
  slice(SPAN &t, Slot &x, size_t E, char const *tn, size_t &ro, size_t &rl, bool &returned, SPAN &r, char const *&op)
  {
    size_t n = x.len / E, k = amount(n), c = std::min(k, n);
    returned = true;
    switch (R.pick(8)) {
    case 0: op = "prefix", r = R.sut([&] { return t.prefix(k); }), ro = x.off, rl = c * E; break;
    case 1: op = "suffix", r = R.sut([&] { return t.suffix(k); }), ro = x.off + (n - c) * E, rl = c * E; break;
    case 2: op = "remove_prefix", R.sut([&] { t.remove_prefix(k); }), x.off += c * E, x.len -= c * E, returned = false; break;
    case 3: op = "remove_suffix", R.sut([&] { t.remove_suffix(k); }), x.len -= c * E, returned = false; break;
    case 4: op = "clip_prefix", r = R.sut([&] { return t.clip_prefix(k); }), ro = x.off, rl = c * E, x.off += c * E, x.len -= c * E; break;
    case 5: op = "clip_suffix", r = R.sut([&] { return t.clip_suffix(k); }), x.len -= c * E, ro = x.off + x.len, rl = c * E; break;
    case 6: {
      op       = "subspan";
      size_t m = amount(n);
      r        = R.sut([&] { return t.subspan(k, m); });
      if (k < n) ro = x.off + k * E, rl = std::min(m, n - k) * E;
    } break;
    default: {
      op       = "assign";
      char *a  = base + x.off + R.pick(unsigned(n) + 1) * E;
      size_t m = R.pick(unsigned((base + x.off + n * E - a) / E) + 1);
      using P  = decltype(t.data());
      P p      = static_cast<P>(static_cast<void *>(a)), e = static_cast<P>(static_cast<void *>(a + m * E));
      R.sut([&] {
        switch (R.pick(4)) {
        case 0: t = SPAN(p, m); break;
        case 1: t = SPAN(p, e); break;
        case 2: t.assign(p, m); break;
        default: t.assign(p, e);
        }
      });
      x.off = size_t(a - base), x.len = m * E, returned = false;
    }
    }
    R.log("%s of %s, %zd", op, tn, ssize_t(k));
  }
  template <typename T>
  void
  typed(Slot &x, Slot &y, char const *tn)
  {
    constexpr size_t E = sizeof(T);
    char const *op     = "rebind";
    MemSpan<T> t;
    bool fits = x.len % E == 0, done = false;
    try {
      t    = R.sut([&] { return x.s.template rebind<T>(); });
      done = true;
    } catch (std::invalid_argument const &) {
    }
    if (done != fits) R.fail("span", "%zu bytes %s rebound to %s", x.len, done ? "were" : "were not", tn);
    if (!fits) {
      R.count("partial element");
      return;
    }
    same(t, x.off, x.len, op, "the result");
    size_t n     = x.len / E;
    bool aligned = (uintptr_t(base + x.off) % alignof(T)) == 0;
    MemSpan<T> r;
    size_t ro = 0, rl = 0;
    bool returned = false;
    auto raw      = [&](MemSpan<T> const &s) { return reinterpret_cast<T const *>(s.data()); };
    switch (R.pick(9)) {
    case 0:
    case 1:
    case 2: slice(t, x, E, tn, ro, rl, returned, r, op); break;
    case 3: {
      op = "compare";
      MemSpan<T> u;
      if (y.len % E) break;
      u       = MemSpan<T>(static_cast<T *>(static_cast<void *>(base + y.off)), y.len / E);
      if (R.coin()) { // nearly the same bytes somewhere else
        u = MemSpan<T>(t);
        Block copy(string_view(base + x.off, x.len));
        if (x.len && R.coin()) copy.p[R.pick(unsigned(x.len))] ^= char(1 << R.pick(8));
        MemSpan<T> v(static_cast<T *>(static_cast<void *>(copy.p)), n);
        if (R.one_in(3)) v.remove_suffix(1);
        string_view a(base + x.off, x.len), b(copy.p, v.data_size());
        check_compare(t, v, a, b, tn);
      }
      string_view a(base + x.off, x.len), b(static_cast<char *>(static_cast<void *>(u.data())), u.data_size());
      check_compare(t, u, a, b, tn);
      MemSpan<void const> vt(t), vu(u);
      if ((vt == vu) != (a == b) || (vt != vu) != (a != b)) R.fail("compare", "void spans of %zu and %zu bytes compare wrong", a.size(), b.size());
      if (t.is_same(u) != (a.size() == b.size() && static_cast<void *>(t.data()) == static_cast<void *>(u.data())) || vt.is_same(vu) != t.is_same(u)) R.fail("compare", "whether spans are the same is wrong");
    } break;
    case 4: { // content
      op = "copy";
      MemSpan<T> u(static_cast<T *>(static_cast<void *>(base + y.off)), y.len / E);
      size_t m = std::min(n, u.size()) * E;
      if (x.off < y.off + y.len && y.off < x.off + x.len && !(x.off == y.off)) break; // no overlap
      if (x.off == y.off) break;
      R.sut([&] {
        switch (R.pick(3)) {
        case 0: memcpy(t, u); break;
        case 1:
          if (u.size() >= n) {
            memcpy(t, u.data());
            m = n * E;
          } else m = 0;
          break;
        default:
          if (n >= u.size()) {
            memcpy(t.data(), u);
            m = u.size() * E;
          } else m = 0;
        }
      });
      model.replace(x.off, m, model.substr(y.off, m));
      R.log("copy %zu bytes of %s from %zu to %zu", m, tn, y.off, x.off);
    } break;
    case 5: { // a text that can be too large
      string z = any_text(20);
      Block b(z);
      size_t m = std::min(x.len, z.size());
      op       = "copy text";
      if constexpr (std::is_same_v<T, char>) R.sut([&] { memcpy(t, b.view()); });
      else R.sut([&] { memcpy(x.s, b.view()); });
      model.replace(x.off, m, z.substr(0, m));
      R.log("copy a text of %zu bytes to %zu, size %zu", z.size(), x.off, x.len);
    } break;
    case 6:
      op = "memset";
      if (aligned) {
        T v;
        uint8_t fill = uint8_t(R.pick(256));
        for (size_t i = 0; i < E; ++i) reinterpret_cast<uint8_t *>(&v)[i] = uint8_t(fill + i);
        if constexpr (E == 1) {
          R.sut([&] { R.coin() ? (void)memset(t, v) : (void)memset(x.s, char(v)); });
        } else {
          R.sut([&] { memset(t, v); });
        }
        for (size_t i = 0; i < x.len; ++i) model[x.off + i] = char(fill + i % E);
        R.log("set %zu elements of %s at %zu", n, tn, x.off);
      }
      break;
    case 7:
      op = "elements";
      if (aligned && n) {
        size_t i = R.pick(unsigned(n));
        size_t seen = 0;
        auto addr = [](T &e) { return &e; };
        bool ok = addr(t[i]) == raw(t) + i && addr(t.front()) == raw(t) && addr(t.back()) == raw(t) + n - 1 && t.begin() == raw(t) && t.end() == raw(t) + n;
        t.apply([&](T &e) { ok = ok && &e == raw(t) + seen, ++seen; });
        ok = ok && seen == n;
        if (!ok) R.fail("span", "an element of %s at %zu is somewhere else", tn, x.off);
        if (!t.contains(raw(t) + i) || t.contains(raw(t) + n) || t.contains(raw(t) - 1) || !x.s.contains(base + x.off + x.len - 1) || x.s.contains(base + x.off + x.len)) R.fail("span", "containment is wrong");
        auto f = t.first(i), l = t.last(i);
        same(f, x.off, i * E, "first", "the result");
        same(l, x.off + (n - i) * E, i * E, "last", "the result");
        auto q = t;
        q.restrict(i);
        same(q, x.off, i * E, "restrict", "the result");
      }
      break;
    default: {
      op = "convert";
      MemSpan<T const> c(t);
      static char other[5] = "used"; // what is assigned to held something else before
      bool used = R.coin();
      MemSpan<void> v1(t), v2(used ? MemSpan<void>(other, 3) : MemSpan<void>()), v3(v2);
      MemSpan<void const> w1(t), w2(v2), w3(c), w4(v1), w5(v2), w6(v2), w7(v2);
      MemSpan<T const> c2(used ? MemSpan<T const>(c.data(), size_t(0)) : MemSpan<T const>());
      R.sut([&] { v2 = t, w2 = t, w5 = c, v3 = v1, w6 = v1, w7 = w1, c2 = t; });
      same(v3, x.off, x.len, op, "the assigned void span of a void span");
      same(w6, x.off, x.len, op, "the assigned constant void span of a void span");
      same(w7, x.off, x.len, op, "the assigned constant void span of its like");
      same(c2, x.off, x.len, op, "the assigned constant span");
      same(c, x.off, x.len, op, "the constant span");
      same(v1, x.off, x.len, op, "the void span");
      same(v2, x.off, x.len, op, "the assigned void span");
      same(w1, x.off, x.len, op, "the constant void span");
      same(w2, x.off, x.len, op, "the assigned constant void span");
      same(w3, x.off, x.len, op, "the constant void span of constants");
      same(w4, x.off, x.len, op, "the constant void span of a void span");
      same(w5, x.off, x.len, op, "the assigned constant void span of constants");
      w5 = v2;
      same(w5, x.off, x.len, op, "the assigned constant void span");
      same(t.rebind(), x.off, x.len, op, "the default");
      same(c.rebind(), x.off, x.len, op, "the constant default");
      same(w1.template rebind<T const>(), x.off, x.len, op, "the constant span again");
      bool got = false;
      try {
        T const *p = R.coin() ? w1.template as_ptr<T>() : v1.template as_ptr<T>();
        got        = true;
        if (static_cast<void const *>(p) != base + x.off) R.fail("span", "as_ptr points to somewhere else");
      } catch (std::invalid_argument const &) {
      }
      if (got != (x.len == E)) R.fail("span", "%zu bytes are %san instance of %s", x.len, got ? "" : "not ", tn);
      // Between types.
      auto again = [&](auto kind, char const *name) {
        using U = decltype(kind);
        if constexpr (E % sizeof(U) == 0 || sizeof(U) % E == 0) {
          bool ok = false;
          MemSpan<U> u;
          try {
            u  = R.sut([&] { return t.template rebind<U>(); });
            ok = true;
          } catch (std::invalid_argument const &) {
          }
          if (ok != (x.len % sizeof(U) == 0)) R.fail("span", "%zu bytes of %s rebound to %s wrongly", x.len, tn, name);
          if (ok) same(u, x.off, x.len, "rebind", "the result");
        }
      };
      again(uint16_t(0), "u16"), again(uint32_t(0), "u32"), again(uint64_t(0), "u64"), again(char(0), "char"), again(S12{}, "three words");
    }
    }
    if (returned) same(r, ro, rl, op, "the result");
    same(t, x.off, x.len, op, "the rest");
    x.s = MemSpan<void>(t);
    if (returned && R.coin()) y.s = r, y.off = ro, y.len = rl;
    same(x.s, x.off, x.len, op, "the void span");
    content(op);
  }
  template <typename T>
  void
  check_compare(MemSpan<T> const &t, MemSpan<T> const &u, string_view a, string_view b, char const *tn)
  {
    R.log("compare %zu and %zu bytes of %s", a.size(), b.size(), tn);
    if ((t == u) != (a == b) || (t != u) != (a != b)) R.fail("compare", "equality of %zu and %zu bytes of %s is wrong", a.size(), b.size(), tn);
    int c = order(a, b, false), d = R.sut([&] { return memcmp(t, u); });
    if (sign(d) != c) R.fail("compare", "memcmp of %zu and %zu bytes of %s is %d instead of %d", a.size(), b.size(), tn, d, c);
  }
  void
  plain()
  {
    Slot &x = slots[R.pick(4)], &y = slots[R.pick(4)];
    char const *op = "";
    MemSpan<void> r;
    size_t ro = 0, rl = 0;
    bool returned = false;
    switch (R.pick(4)) {
    case 0:
      if (R.coin()) slice(x.s, x, 1, "void", ro, rl, returned, r, op);
      else {
        MemSpan<void const> c(x.s), rc;
        Slot z = x;
        slice(c, z, 1, "constant void", ro, rl, returned, rc, op);
        if (returned) same(rc, ro, rl, op, "the constant result");
        same(c, z.off, z.len, op, "the constant rest");
        returned = false;
      }
      break;
    case 1:
    case 2: {
      op           = "align";
      size_t a     = size_t(1) << R.pick(6);
      size_t obj   = R.coin() ? 1 : a * (1 + R.pick(3));
      bool by_type = R.one_in(4);
      bool c       = R.coin();
      if (by_type) a = R.coin() ? 8 : 4, obj = a == 8 ? 8 : 12;
      MemSpan<void const> rc;
      R.sut([&] {
        if (by_type) {
          if (a == 8) c ? (void)(rc = MemSpan<void const>(x.s).align<uint64_t>()) : (void)(r = x.s.align<uint64_t>());
          else c ? (void)(rc = MemSpan<void const>(x.s).align<S12>()) : (void)(r = x.s.align<S12>());
        } else if (obj == 1) c ? (void)(rc = MemSpan<void const>(x.s).align(a)) : (void)(r = x.s.align(a));
        else c ? (void)(rc = MemSpan<void const>(x.s).align(a, obj)) : (void)(r = x.s.align(a, obj));
      });
      uintptr_t p = uintptr_t(x.s.data());
      size_t pad  = (a - p % a) % a;
      rl          = x.len > pad ? (x.len - pad) / obj * obj : 0;
      ro          = x.off + pad;
      R.log("align %zu at %zu to %zu, size %zu", x.len, x.off, a, obj);
      if (uintptr_t(c ? rc.data() : r.data()) != p + pad) R.fail("span", "aligned to %zu by adding %zd instead of %zu", a, ssize_t(uintptr_t(c ? rc.data() : r.data()) - p), pad);
      if (c) same(rc, ro, rl, op, "the constant result");
      else returned = true;
    } break;
    default:
      op = "copy";
      R.sut([&] {
        if (R.one_in(4)) y.s.clear(), y.off = y.len = 0;
        else if (R.coin()) y.s = x.s, y.off = x.off, y.len = x.len;
        else y.s = MemSpan<void>(base, model.size()), y.off = 0, y.len = model.size();
      });
    }
    if (returned) same(r, ro, rl, op, "the result");
    if (returned && rl && R.coin()) y.s = r, y.off = ro, y.len = rl;
    for (auto &s : slots) same(s.s, s.off, s.len, op, "a span");
    content(op);
  }
  void
  history()
  {
    make();
    while (R.more(14, 60)) {
      Slot &x = slots[R.pick(4)], &y = slots[R.pick(4)];
      R.state(mix(mix(x.off, x.len), mix(y.off, y.len)));
      R.step();
      switch (R.pick(8)) {
      case 0: typed<char>(x, y, "char"); break;
      case 1: typed<uint16_t>(x, y, "u16"); break;
      case 2: typed<uint32_t>(x, y, "u32"); break;
      case 3: typed<uint64_t>(x, y, "u64"); break;
      case 4: typed<S12>(x, y, "three words"); break;
      default: plain();
      }
    }
    for (auto &s : slots) s = Slot{};
  }
  // ---- objects in raw memory
  struct Obj {
    static std::map<void const *, int> live;
    int v;
    explicit Obj(int x) : v(x)
    {
      if (!live.emplace(this, x).second) cur->fail("object", "an object was made on top of another");
    }
    ~Obj()
    {
      if (!live.erase(this)) cur->fail("object", "an object that doesn't exist was destroyed");
    }
  };
  void
  objects()
  {
    Obj::live.clear();
    unsigned n = R.pick(12);
    MemArena arena(0);
    auto span = R.sut([&] { return arena.alloc(n * sizeof(Obj) + 16).align<Obj>(); }).prefix(n * sizeof(Obj));
    auto objs = span.rebind<Obj>();
    if (objs.size() != n) R.fail("object", "room for %u objects is only for %zu", n, objs.size());
    unsigned a = R.pick(n + 1);
    auto left = objs.prefix(a), right = objs.suffix(n - a);
    int v = int(R.pick(100));
    R.sut([&] { left.make(v); });
    if (Obj::live.size() != a) R.fail("object", "%zu objects were made instead of %u", Obj::live.size(), a);
    R.sut([&] { right.make(v + 1); });
    if (Obj::live.size() != n) R.fail("object", "%zu objects were made instead of %u", Obj::live.size() - a, n - a);
    for (unsigned i = 0; i < n; ++i) {
      if (objs[i].v != (i < a ? v : v + 1)) R.fail("object", "object %u is wrong", i);
    }
    R.sut([&] { right.destroy(); });
    if (Obj::live.size() != a) R.fail("object", "%zu objects are left instead of %u", Obj::live.size(), a);
    R.sut([&] { left.destroy(); });
    if (!Obj::live.empty()) R.fail("object", "%zu objects are left", Obj::live.size());
    R.log("%u objects", n);
  }
  // ---- from containers
  void
  containers()
  {
    std::array<uint32_t, 5> arr{};
    std::array<uint32_t, 5> const &carr = arr;
    std::vector<uint32_t> vec(R.pick(9));
    std::vector<uint32_t> const &cvec = vec;
    uint32_t raw[3] = {};
    string str      = any_text(20);
    string const &cstr = str;
    string_view sv     = str;
    char const lit[]   = "text", full[2] = {'a', 'b'};
    auto check = [&](auto const &s, void const *p, size_t n, size_t e, char const *what) {
      if (s.data_size() != n * e || (n && static_cast<void const *>(s.data()) != p)) R.fail("span", "a span of %s is %zu bytes instead of %zu", what, s.data_size(), n * e);
    };
    check(MemSpan(arr), arr.data(), 5, 4, "an array");
    check(MemSpan(carr), arr.data(), 5, 4, "a constant array");
    check(MemSpan<uint32_t const>(arr), arr.data(), 5, 4, "an array as constants");
    check(MemSpan<uint32_t const>(carr), arr.data(), 5, 4, "a constant array as constants");
    check(MemSpan<void>(arr), arr.data(), 5, 4, "an array as void");
    check(MemSpan<void const>(carr), arr.data(), 5, 4, "a constant array as void");
    check(MemSpan(vec), vec.data(), vec.size(), 4, "a vector");
    check(MemSpan(cvec), vec.data(), vec.size(), 4, "a constant vector");
    check(MemSpan<void>(vec), vec.data(), vec.size(), 4, "a vector as void");
    check(MemSpan<void const>(cvec), vec.data(), vec.size(), 4, "a constant vector as void");
    check(MemSpan<uint32_t>(raw), raw, 3, 4, "an array of words");
    check(MemSpan<void>(raw), raw, 3, 4, "an array of words as void");
    check(MemSpan<void const>(raw), raw, 3, 4, "an array of words as constant void");
    check(MemSpan(str), str.data(), str.size(), 1, "a string");
    check(MemSpan(cstr), str.data(), str.size(), 1, "a constant string");
    check(MemSpan(sv), str.data(), str.size(), 1, "a string view");
    check(MemSpan<void const>(sv), str.data(), str.size(), 1, "a string view as void");
    check(MemSpan<char const>(lit), lit, 4, 1, "a literal");
    check(MemSpan<void const>(lit), lit, 4, 1, "a literal as void");
    check(MemSpan<char const>(full), full, 2, 1, "characters");
    check(MemSpan<void const>(full), full, 2, 1, "characters as void");
    check(MemSpan<uint32_t>(nullptr), nullptr, 0, 4, "nothing");
    check(MemSpan<void>(nullptr), nullptr, 0, 1, "nothing as void");
  }
  // ---- records that arrive in pieces and can be damaged
  struct Head {
    uint16_t size;  ///< of the body
    uint8_t kind;   ///< size of the elements, 1, 2, 4, 8
    uint8_t seq;
    uint32_t sum;
  };
  static uint32_t
  sum(string_view s)
  {
    uint32_t z = 17;
    for (unsigned char c : s) z = z * 31 + c;
    return z;
  }
  void
  exchange()
  {
    // The sender.
    unsigned n = 1 + R.pick(6);
    string wire;
    std::vector<string> sent;
    for (unsigned i = 0; i < n; ++i) {
      R.mark();
      size_t e = size_t(1) << R.pick(4), count = R.pick(8);
      MemArena arena(R.pick(64));
      if (R.coin()) R.sut([&] { arena.alloc(1 + R.pick(7)); });
      auto room = R.sut([&] { return arena.alloc(sizeof(Head) + e * count + 8 + R.pick(4)); });
      auto mem  = R.sut([&] { return room.align(8); });
      if (uintptr_t(mem.data()) % 8) R.fail("exchange", "the message is not aligned");
      mem       = mem.prefix(sizeof(Head) + e * count);
      auto all  = mem;
      auto head = R.sut([&] { return mem.clip_prefix(sizeof(Head)).as_ptr<Head>(); });
      auto fill = [&](auto kind) {
        using T   = decltype(kind);
        auto body = R.sut([&] { return mem.rebind<T>(); });
        if (body.size() != count) R.fail("exchange", "there is room for %zu elements instead of %zu", body.size(), count);
        for (auto &x : body) x = T(R.bits64());
      };
      e == 1 ? fill(uint8_t(0)) : e == 2 ? fill(uint16_t(0)) : e == 4 ? fill(uint32_t(0)) : fill(uint64_t(0));
      head->size = uint16_t(mem.size()), head->kind = uint8_t(e), head->seq = uint8_t(i);
      head->sum  = sum({static_cast<char *>(mem.data()), mem.size()});
      sent.emplace_back(static_cast<char *>(mem.data()), mem.size());
      wire.append(static_cast<char *>(all.data()), all.size());
    }
    // The wire. Each attempt can be damaged, and in the end it is not.
    std::vector<string> got;
    for (unsigned round = 0; got.size() < n; ++round) {
      string w    = wire;
      size_t skip = 0;
      for (size_t i = 0; i < got.size(); ++i) skip += sizeof(Head) + sent[i].size();
      w.erase(0, skip);
      bool damaged = false;
      if (round < 6) {
        if (R.one_in(3)) w.resize(R.pick(unsigned(w.size()) + 1)), R.fault("truncated");
        if (R.one_in(3) && w.size()) w[R.pick(unsigned(w.size()))] ^= char(1 << R.pick(8)), R.fault("damaged"), damaged = true;
        if (R.one_in(6) && w.size()) w.erase(R.pick(unsigned(w.size())), 1), R.fault("lost-byte"), damaged = true;
      }
      Block b(w);
      MemSpan<void const> in(b.p, b.n), whole(in);
      size_t at = 0;
      while (true) {
        auto h = R.sut([&] { return in.clip_prefix(sizeof(Head)); });
        same_raw(h, b, at, std::min(sizeof(Head), b.n - at), "head");
        if (h.size() < sizeof(Head)) break;
        at += sizeof(Head);
        Head head;
        memcpy(&head, R.sut([&] { return h.as_ptr<Head>(); }), sizeof(Head));
        auto body   = R.sut([&] { return in.clip_prefix(head.size); });
        size_t have = std::min<size_t>(head.size, b.n - at);
        same_raw(body, b, at, have, "body");
        at += have;
        if (body.size() < head.size) break; // the rest didn't arrive
        bool fits = false, tried = true;
        auto take = [&](auto kind) {
          using T = decltype(kind);
          try {
            auto t = R.sut([&] { return body.rebind<T const>(); });
            fits   = true;
            if (t.size() != have / sizeof(T)) R.fail("exchange", "%zu bytes are %zu elements of %zu", have, t.size(), sizeof(T));
          } catch (std::invalid_argument const &) {
          }
          if (fits != (have % sizeof(T) == 0)) R.fail("exchange", "%zu bytes were %sbound to elements of %zu", have, fits ? "" : "not ", sizeof(T));
        };
        switch (head.kind) {
        case 1: take(uint8_t(0)); break;
        case 2: take(uint16_t(0)); break;
        case 4: take(uint32_t(0)); break;
        case 8: take(uint64_t(0)); break;
        default: tried = false;
        }
        string text(static_cast<char const *>(body.data()), body.size());
        if (!tried || !fits || head.seq != got.size() || head.seq >= n || sum(text) != head.sum) break; // damaged
        // It may be damage that is not seen, which is not the matter of the spans.
        if (text != sent[got.size()]) {
          if (!damaged) R.fail("exchange", "record %zu changed", got.size());
          break;
        }
        R.log("record %zu, %zu bytes", got.size(), text.size());
        got.push_back(text);
      }
      if (round > 8) R.fail("exchange", "only %zu of %u records arrived", got.size(), n);
    }
    R.state(mix(n, wire.size()));
  }
  void
  same_raw(MemSpan<void const> const &s, Block const &b, size_t at, size_t n, char const *what)
  {
    if (s.size() != n || (n && s.data() != b.p + at)) R.fail("exchange", "the %s is %zu bytes instead of %zu at %zu", what, s.size(), n, at);
  }
  void
  go()
  {
    switch (R.pick(6)) {
    case 0: objects(); containers(); break;
    case 1:
    case 2: exchange(); break;
    default: history();
    }
    R.nontrivial();
  }
};
std::map<void const *, int> Bytes::Obj::live;

std::vector<char const *> const REAL = {"code/include/swoc/TextView.h", "code/src/TextView.cc", "code/src/string_view_util.cc", "code/src/MemArena.cc"};
std::vector<char const *> const STUB = {"the network (delivers chunks of any size, loses connections)", "the sender", "output streams that fill up"};
Register p03({"P03",
              [](Run &r) {
                if (r.coin()) Edit(r).go();
                else Stream(r).go();
              },
              "records as text through connections that deliver chunks of any size and break, taken apart by views in one of several ways, with memory failure; or a history of operations on several views of one "
              "text in memory of exactly its size; non-trivial: all records arrived, or at least one operation",
              "operation, text and positions; progress of the stream", REAL, STUB,
              {"text on which the documentation contradicts itself or says nothing (split of exactly the size, base prefix without digits, space after a sign) is not judged"}});
Register p04({"P04", [](Run &r) { Bytes(r).go(); },
              "a history of operations of spans of several types on memory of exactly its size at any alignment; objects made in parts of a block; records packed into aligned memory, sent through a connection that "
              "truncates, damages and loses bytes, and taken apart until all arrived; non-trivial: at least one history or exchange",
              "positions and sizes of the spans", {"code/include/swoc/MemSpan.h", "code/src/MemArena.cc"}, {"the connection (truncates, damages and loses bytes)", "the sender"},
              {"objects whose construction throws are not made in spans, elements are accessed only at their alignment"}});
} // namespace

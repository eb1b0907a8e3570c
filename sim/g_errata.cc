// Error reports: E01 E02 E03.
#include "sim.h"
#include <cstring>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <vector>
#include "swoc/Errata.h"
#include "swoc/bwf_ex.h"
#include "swoc/bwf_std.h"
#include "swoc/bwf_base.h"

using namespace sim;
using swoc::Errata;
using swoc::TextView;
using Sev = Errata::Severity;

namespace {
struct Bomb {}; ///< an argument that can not be formatted
}
namespace swoc { inline namespace SWOC_VERSION_NS {
BufferWriter &
bwformat(BufferWriter &w, bwf::Spec const &, Bomb const &)
{
  w.write("partial text");
  throw Injected{7};
}
}} // namespace swoc

namespace {

struct Category : std::error_category {
  char const *name() const noexcept override { return "simulated"; }
  std::string
  message(int n) const override
  {
    return n == 3 ? "bravo three" : "other";
  }
} category;

struct Code {
  std::error_code ec;
  char const *text; ///< default format
};
Code const CODES[] = {
  {{}, "0 [0]"},
  {{1, std::generic_category()}, "EPERM [1]"},
  {{2, std::system_category()}, "ENOENT [2]"},
  {{11, std::generic_category()}, "EAGAIN [11]"},
  {{3, category}, "bravo three [3]"},
  {{0, category}, "other [0]"},
};
constexpr unsigned N_CODES = 6;
TextView const NAMES[] = {"Debug", "Diag", "Info", "Warn", "Error"};

struct Note {
  std::string text;
  int sev   = -1;
  int level = 0;
  bool operator==(Note const &that) const { return text == that.text && sev == that.sev && level == that.level; }
};

struct Rep {
  bool data  = false; ///< Something was set.
  bool vague = false; ///< Not determined if it counts as never used.
  int sev    = -1;
  int code   = 0;
  std::vector<Note> notes;
  std::string glue = "\n", a_glue = ": ", s_glue = ": ", indent = "  ";
  bool final_p = true;
};

int
code_index(std::error_code const &ec)
{
  for (unsigned i = 0; i < N_CODES; ++i) {
    if (CODES[i].ec == ec && CODES[i].ec.category() == ec.category()) {
      return i;
    }
  }
  return -1;
}

std::string
show(int sev, int code, std::vector<Note> const &notes)
{
  std::string z = "severity " + std::to_string(sev) + " code " + std::to_string(code) + ":";
  for (auto &n : notes) {
    z += " (" + std::to_string(n.level) + "," + std::to_string(n.sev) + ",";
    z += n.text.size() > 40 ? n.text.substr(0, 30) + "...#" + std::to_string(hash_bytes(n.text.data(), n.text.size())) : n.text;
    z += ")";
  }
  return z;
}
std::string
show(Rep const &m)
{
  return show(m.sev, m.code, m.notes);
}
std::vector<Note>
notes_of(Errata const &e)
{
  std::vector<Note> z;
  for (auto const &a : e) {
    Note n;
    n.text  = std::string(a.text().data(), a.text().size());
    n.sev   = a.has_severity() ? int(a.severity()._raw) : -1;
    n.level = a.level();
    z.push_back(n);
    if (z.size() > 20000) {
      break;
    }
  }
  return z;
}
std::string
show(Errata const &e)
{
  return show(e.has_severity() ? int(e.severity()._raw) : -1, code_index(e.code()), notes_of(e));
}

// --- sinks. These can not be unregistered, so there is a fixed set in every process, and more in runs that have a
// process for themselves.
struct Delivery {
  int sink;
  size_t n;
  std::string what;
};
std::vector<Delivery> *g_log = nullptr;
int g_sinks                  = 0; ///< registered
int g_register_in            = -1; ///< This sink registers another when used.
int g_nest_in                = -1; ///< This sink reports something itself.
int g_depth                  = 0;
constexpr int POOL           = 3;

struct SinkObj : Errata::Sink {
  int id;
  explicit SinkObj(int n) : id(n) {}
  void operator()(Errata const &e) const override;
};

void
register_one(unsigned how)
{
  int id = g_sinks++;
  switch (how) {
  case 0:
    Errata::register_sink(Errata::Sink::Handle(new SinkObj(id)));
    break;
  case 1: {
    Errata::SinkHandler h = [id](Errata const &e) { SinkObj{id}(e); };
    Errata::register_sink(h);
    break;
  }
  default:
    Errata::register_sink([id](Errata const &e) { SinkObj{id}(e); });
    break;
  }
}

char const NESTED[] = "severity -1 code 0: (0,-1,reported by a sink)";

void
SinkObj::operator()(Errata const &e) const
{
  HostScope hs;
  if (!g_log) {
    return;
  }
  g_log->push_back({id, notes_of(e).size(), show(e)});
  if (g_log->size() > 2000) {
    cur->fail("sinks", "deliveries never end");
  }
  if (g_depth == 0) {
    if (id == g_nest_in) {
      ++g_depth;
      {
        Errata tmp;
        tmp.note("reported by a sink");
      }
      --g_depth;
    }
    if (id == g_register_in && g_sinks < 40) {
      g_register_in = -1;
      register_one(1);
    }
  }
}

void
sink_pool()
{
  if (g_sinks == 0) {
    for (int i = 0; i < POOL; ++i) {
      register_one(i);
    }
  }
}

using RvS = swoc::Rv<std::string>;

struct Slot {
  std::unique_ptr<Errata> e;
  std::unique_ptr<RvS> rv;
  Rep m;
  std::string val;
  bool live() const { return e || rv; }
  Errata &err() { return e ? *e : rv->errata(); }
};

template <unsigned N>
Errata
hand_back(Errata e)
{
  if constexpr (N == 0) {
    return e;
  } else {
    Errata local{std::move(e)};
    return hand_back<N - 1>(std::move(local));
  }
}

struct Sim {
  static constexpr unsigned K = 4;
  Run &R;
  bool faults, sinks, isolated_run;
  Slot s[K];
  std::vector<Delivery> log;
  std::vector<std::string> must; ///< reports to be delivered by the operation
  bool may_empty = false;        ///< reports without annotations may be delivered by the operation.
  int sinks_before = 0;
  Sev d0{Errata::DEFAULT_SEVERITY}, f0{Errata::FAILURE_SEVERITY}, l0{Errata::FILTER_SEVERITY};
  swoc::MemSpan<TextView const> n0{Errata::SEVERITY_NAMES};
  unsigned next = 1;

  Sim(Run &r, bool f, bool k, bool iso) : R(r), faults(f), sinks(k), isolated_run(iso)
  {
    sink_pool();
    g_log         = &log;
    g_register_in = g_nest_in = -1;
    g_depth       = 0;
  }
  ~Sim()
  {
    g_log = nullptr;
    for (auto &x : s) {
      x.e.reset();
      x.rv.reset();
    }
    Errata::DEFAULT_SEVERITY = d0;
    Errata::FAILURE_SEVERITY = f0;
    Errata::FILTER_SEVERITY  = l0;
    Errata::SEVERITY_NAMES   = n0;
  }

  std::string
  name(int sev)
  {
    return size_t(sev) < Errata::SEVERITY_NAMES.size() ? std::string(NAMES[sev].data(), NAMES[sev].size()) : std::to_string(sev);
  }
  int sev() { return R.pick(R.one_in(8) ? 256 : 7); }
  std::string
  text(bool fmt_safe = false)
  {
    std::string t = "n" + std::to_string(next++);
    size_t n      = R.one_in(300) ? R.pick(200000) : R.one_in(6) ? R.pick(3000) : R.one_in(4) ? R.pick(400) : R.small(40);
    for (size_t i = 0; i < n; ++i) {
      t += char('a' + (i * 7 + next) % 26);
    }
    if (!fmt_safe && R.one_in(8)) {
      t += "{}%\n {0}";
    }
    if (!fmt_safe && R.one_in(12)) {
      t.clear();
    }
    return t;
  }

  bool threw = false, formatter = false;
  /// @return @c true if it failed, by memory or a formatter.
  template <typename F>
  bool
  act(char const *what, bool allow_fault, F &&f)
  {
    bool armed = faults && allow_fault && R.one_in(3);
    log.clear();
    must.clear();
    may_empty    = false;
    sinks_before = g_sinks;
    if (armed) {
      R.arm_alloc(R.pick(4), R.coin());
    }
    bool bad  = false;
    threw     = false;
    long n    = 0;
    try {
      R.sut(f);
    } catch (std::bad_alloc const &) {
      bad = true;
    } catch (Injected const &) {
      bad = threw = true;
    } catch (std::exception const &x) {
      R.disarm_alloc();
      R.fail("exception", "%s threw %s", what, x.what());
    }
    n = R.disarm_alloc();
    if (n) {
      R.fault("allocation failed");
      R.nontrivial();
    }
    if (threw) {
      R.fault("formatter threw");
    }
    if (bad && !n && !threw) {
      R.fail("exception", "%s ran out of memory although no allocation failed", what);
    }
    if (n && !bad) {
      R.fail("swallowed", "%s reported success although an allocation failed", what);
    }
    if (bad) {
      R.log("  failed");
      may_empty = true;
    }
    return bad;
  }

  // ------------------------------------------------------------ expectations
  /// Report in @a m is abandoned.
  void
  abandon(Rep const &m)
  {
    if (!m.notes.empty()) {
      must.push_back(show(m));
    } else if (m.data || m.vague) {
      may_empty = true;
    }
  }
  void
  settle(char const *op)
  {
    // What should be there.
    std::vector<std::pair<int, std::string>> want;
    for (auto &m : must) {
      for (int i = 0; i < sinks_before; ++i) {
        want.emplace_back(i, m);
        if (i == nest) {
          for (int k = 0; k < sinks_before; ++k) {
            want.emplace_back(k, NESTED);
          }
        }
      }
    }
    std::vector<std::pair<int, std::string>> got;
    for (auto &d : log) {
      if (d.n == 0 && !may_empty) {
        R.fail("sink-empty", "%s: sink %d was given a report that never was used, was cleared, or was moved from: %s", op, d.sink, d.what.c_str());
      }
      if (d.n == 0 || d.sink >= sinks_before) { // registered during the delivery: either is fine.
        continue;
      }
      if (may_empty && must.empty() && d.what == NESTED) {
        continue; // by a sink given a report without annotations.
      }
      got.emplace_back(d.sink, d.what);
    }
    if (got != want) {
      std::string g, w;
      for (auto &p : got) {
        g += " [" + std::to_string(p.first) + " " + p.second + "]";
      }
      for (auto &p : want) {
        w += " [" + std::to_string(p.first) + " " + p.second + "]";
      }
      R.fail(got.size() < want.size() ? "sink-missed" : got.size() > want.size() ? "sink-extra" : "sink-content", "%s: %d sinks got%s, expected%s", op, g_sinks, g.c_str(), w.c_str());
    }
    if (!want.empty()) {
      R.count("reports delivered", must.size());
    }
    must.clear();
    log.clear();
    if (g_register_in < 0 && g_sinks != sinks_before) {
      R.log("  a sink registered another");
    }
  }
  int nest = -1;

  void
  compare(unsigned k, char const *op)
  {
    Slot &x = s[k];
    if (!x.live()) {
      return;
    }
    Errata const &e = x.err();
    Rep const &m    = x.m;
    auto got        = notes_of(e);
    if (got != m.notes) {
      R.fail("annotations", "after %s report %u is %s, expected %s", op, k, show(e).c_str(), show(m).c_str());
    }
    if (e.length() != m.notes.size() || e.empty() != m.notes.empty()) {
      R.fail("length", "after %s report %u counts %zu annotations of %zu", op, k, e.length(), m.notes.size());
    }
    if (!m.notes.empty()) {
      auto &f = e.front();
      auto &b = e.back();
      if (f.text() != m.notes.front().text || b.text() != m.notes.back().text) {
        R.fail("annotations", "after %s the ends of report %u are wrong", op, k);
      }
    }
    // backward
    {
      size_t i = m.notes.size();
      if (i) {
        for (auto spot = e.end(); spot != e.begin();) {
          --spot;
          if (i == 0 || spot->text() != m.notes[--i].text) {
            R.fail("annotations", "after %s report %u differs when iterated backwards", op, k);
          }
        }
        if (i) {
          R.fail("annotations", "after %s report %u is short when iterated backwards", op, k);
        }
      }
    }
    if (e.has_severity() != (m.sev >= 0) || e.severity() != (m.sev >= 0 ? m.sev : int(Errata::DEFAULT_SEVERITY._raw))) {
      R.fail("severity", "after %s report %u has severity %d, expected %d", op, k, e.has_severity() ? int(e.severity()) : -1, m.sev);
    }
    if (e.code() != CODES[m.code].ec) {
      R.fail("code", "after %s report %u has code %d, expected %d", op, k, e.code().value(), CODES[m.code].ec.value());
    }
    if (!m.vague || m.sev >= 0 || !m.notes.empty()) {
      bool ok = !(m.data || m.vague) || (m.sev >= 0 ? m.sev : int(Errata::DEFAULT_SEVERITY._raw)) < int(Errata::FAILURE_SEVERITY._raw);
      if (e.is_ok() != ok || bool(e) != ok || !e == ok || (x.rv && x.rv->is_ok() != ok)) {
        R.fail("ok", "after %s report %u is %s with severity %d, threshold %d", op, k, e.is_ok() ? "ok" : "not ok", m.sev, int(Errata::FAILURE_SEVERITY._raw));
      }
    }
    if (e.annotation_glue_text() != m.glue || e.annotation_severity_glue_text() != m.a_glue || e.severity_glue_text() != m.s_glue || e.indent_text() != m.indent) {
      R.fail("glue", "after %s the glue of report %u is wrong", op, k);
    }
    if (x.rv) {
      std::string const &v  = *x.rv; // user conversion
      RvS const &c          = *x.rv;
      auto &[value, status] = *x.rv;
      if (v != x.val || c.result() != x.val || x.rv->result() != x.val || value != x.val || &status != &x.rv->errata() || &c.errata() != &x.rv->errata()) {
        R.fail("value", "after %s result %u has value '%s', expected '%s'", op, k, v.c_str(), x.val.c_str());
      }
    }
  }
  void
  verify(char const *op)
  {
    settle(op);
    for (unsigned k = 0; k < K; ++k) {
      compare(k, op);
    }
  }
  std::string
  rendered(Rep const &m)
  {
    std::string z;
    if (m.sev >= 0) {
      z += name(m.sev) + m.s_glue;
    }
    if (CODES[m.code].ec) {
      swoc::bwprint(scratch, "[{0:s} {0:d}] ", CODES[m.code].ec);
      z += scratch;
    }
    bool any = false;
    for (auto &n : m.notes) {
      if (n.text.empty()) {
        continue;
      }
      if (any) {
        z += m.glue;
      }
      for (int i = 0; i < n.level; ++i) {
        z += m.indent;
      }
      if (n.sev >= 0) {
        z += name(n.sev) + m.a_glue;
      }
      z   += n.text;
      any  = true;
    }
    if (any && m.final_p) {
      z += m.glue;
    }
    return z;
  }
  std::string scratch;

  // After a failed operation: a prefix of what should have been added is there, no more.
  void
  adopt(Slot &x, Rep const &full, char const *op)
  {
    Errata const &e = x.err();
    Rep const &m    = x.m;
    auto got        = notes_of(e);
    if (got.size() < m.notes.size() || got.size() > full.notes.size() || !std::equal(got.begin(), got.end(), full.notes.begin())) {
      R.fail("annotations", "after a failed %s the report is %s, it was %s", op, show(e).c_str(), show(m).c_str());
    }
    if (got.size() == full.notes.size() && full.notes.size() > m.notes.size()) {
      R.fail("annotations", "a failed %s added everything", op);
    }
    int sv = e.has_severity() ? int(e.severity()) : -1;
    if (sv != m.sev && sv != full.sev) {
      R.fail("severity", "after a failed %s the severity is %d, it was %d", op, sv, m.sev);
    }
    if (e.code() != CODES[m.code].ec && e.code() != CODES[full.code].ec) {
      R.fail("code", "after a failed %s the code is %d", op, e.code().value());
    }
    x.m.notes = got;
    x.m.sev   = sv;
    x.m.code  = e.code() == CODES[full.code].ec ? full.code : m.code;
    x.m.data  = m.data || sv >= 0 || !got.empty();
    x.m.vague = m.vague || !x.m.data;
  }
  bool kept(int sv) { return sv < 0 || sv >= int(Errata::FILTER_SEVERITY._raw); }
  void
  raise(Rep &m, int sv)
  {
    if (sv >= 0) {
      m.sev  = std::max(m.sev, sv);
      m.data = true;
    }
  }
  void
  add(Rep &m, int sv, std::string const &t)
  {
    raise(m, sv);
    if (kept(sv)) {
      m.notes.push_back({t, sv, 0});
      m.data = true;
    }
  }

  // ------------------------------------------------------------ operations
  int
  find(bool live)
  {
    std::vector<unsigned> c;
    for (unsigned k = 0; k < K; ++k) {
      if (s[k].live() == live) {
        c.push_back(k);
      }
    }
    return c.empty() ? -1 : int(c[R.pick(c.size())]);
  }
  void
  create(unsigned k)
  {
    Slot &x = s[k];
    Rep m;
    int sv       = sev();
    unsigned c   = 1 + R.pick(N_CODES - 1);
    auto &code   = CODES[c].ec;
    std::string t = text(true);
    std::string v;
    Sev sx{uint8_t(sv)};
    unsigned kind = R.pick(15);
    int def       = Errata::DEFAULT_SEVERITY._raw;
    m.data        = true;
    R.log("create %u kind %u severity %d code %u", k, kind, sv, c);
    std::string copy = t; // passed, and overwritten afterwards.
    auto none        = [&](Rep &r, std::string const &txt) { r.notes.push_back({txt, -1, 0}); };
    std::unique_ptr<Errata> e;
    std::unique_ptr<RvS> rv;
    bool bad = act("construction", true, [&] {
      switch (kind) {
      case 0:
        e.reset(new Errata);
        break;
      case 1:
        e.reset(new Errata(code));
        break;
      case 2:
        e.reset(new Errata(code, Errata::AUTO));
        break;
      case 3:
        e.reset(new Errata(sx));
        break;
      case 4:
        e.reset(new Errata(sx, Errata::AUTO));
        break;
      case 5:
        e.reset(new Errata(code, sx));
        break;
      case 6:
        e.reset(new Errata(code, sx, Errata::AUTO));
        break;
      case 7:
        e.reset(new Errata(code, sx, copy));
        break;
      case 8:
        e.reset(new Errata(sx, copy));
        break;
      case 9:
        e.reset(new Errata(code, copy));
        break;
      case 10:
        e.reset(new Errata(std::string_view(copy)));
        break;
      case 11:
        e.reset(new Errata(code, sx, "{}-{}", copy, 17));
        break;
      case 12:
        e.reset(new Errata(sx, "<{:>6}>{}", 4, std::string_view(copy)));
        break;
      case 13:
        rv.reset(new RvS);
        break;
      case 14:
        rv.reset(new RvS(copy));
        break;
      }
    });
    switch (kind) {
    case 0:
    case 13:
      m.data = false;
      break;
    case 1:
      m.code = c;
      break;
    case 2:
      m.code = c;
      none(m, CODES[c].text);
      break;
    case 3:
      m.sev = sv;
      break;
    case 4:
      m.sev = sv;
      none(m, name(sv));
      break;
    case 5:
      m.sev  = sv;
      m.code = c;
      break;
    case 6:
      m.sev  = sv;
      m.code = c;
      none(m, name(sv) + ": " + CODES[c].text);
      break;
    case 7:
      m.sev  = sv;
      m.code = c;
      none(m, t);
      break;
    case 8:
      m.sev = sv;
      none(m, t);
      break;
    case 9:
      m.sev  = def;
      m.code = c;
      none(m, t);
      break;
    case 10:
      m.sev = def;
      none(m, t);
      break;
    case 11:
      m.sev  = sv;
      m.code = c;
      none(m, t + "-17");
      break;
    case 12:
      m.sev = sv;
      none(m, "<     4>" + t);
      break;
    case 14:
      m.data = false;
      v      = t;
      break;
    }
    std::fill(copy.begin(), copy.end(), '#');
    if (!bad) {
      x.e   = std::move(e);
      x.rv  = std::move(rv);
      x.m   = m;
      x.val = v;
    }
    verify("construction");
  }
  void
  destroy(unsigned k)
  {
    Slot &x = s[k];
    R.log("destroy %u", k);
    act("destruction", false, [&] {
      x.e.reset();
      x.rv.reset();
    });
    abandon(x.m);
    x.m = {};
    x.val.clear();
    verify("destruction");
  }
  void
  note_text(unsigned k)
  {
    Slot &x   = s[k];
    int sv    = R.coin() ? sev() : -1;
    auto t    = text();
    auto copy = t;
    bool rv   = x.rv && R.coin();
    bool s_p  = R.coin();
    Rep full  = x.m;
    add(full, sv, t);
    R.log("note %u severity %d %zu bytes", k, sv, t.size());
    bool bad = act("note", true, [&] {
      if (rv) {
        auto &z = sv < 0 ? x.rv->note(copy) : x.rv->note(Sev(sv), copy);
        if (&z != x.rv.get()) {
          threw_away();
        }
      } else if (s_p) {
        x.err().note_s(sv < 0 ? std::optional<Sev>{} : std::optional<Sev>{Sev(sv)}, copy);
      } else if (sv < 0) {
        x.err().note(std::string_view(copy));
      } else {
        x.err().note(Sev(sv), std::string_view(copy));
      }
    });
    std::fill(copy.begin(), copy.end(), '#');
    if (bad) {
      adopt(x, full, "note");
    } else {
      x.m = full;
    }
    verify("note");
  }
  void
  threw_away()
  {
    R.fail("return", "an operation did not return its object");
  }
  void
  note_format(unsigned k)
  {
    Slot &x   = s[k];
    int sv    = R.coin() ? sev() : -1;
    auto t    = text();
    auto copy = t;
    bool rv   = x.rv && R.coin();
    int num   = R.pick(1000);
    bool bomb = faults && R.one_in(6);
    unsigned f = R.pick(4);
    std::string want = f == 0 ? t : f == 1 ? t + "=" + std::to_string(num) : f == 2 ? std::to_string(num) + "/" + t + "/" + std::to_string(num) : "literal {} only";
    Rep full         = x.m;
    if (bomb && kept(sv)) {
      raise(full, sv);
    } else {
      add(full, sv, want);
    }
    R.log("note %u severity %d format %u %zu bytes%s", k, sv, f, t.size(), bomb ? " with an argument that throws" : "");
    unsigned form = R.pick(2);
    auto go       = [&](auto &obj) {
      if (bomb) {
        sv < 0 ? obj.note("{} {}", copy, Bomb{}) : obj.note(Sev(sv), "{} {}", copy, Bomb{});
        return;
      }
      switch (f) {
      case 0:
        sv < 0 ? obj.note("{}", copy) : obj.note(Sev(sv), "{}", copy);
        break;
      case 1:
        sv < 0 ? obj.note("{}={}", copy, num) : obj.note(Sev(sv), "{}={}", copy, num);
        break;
      case 2:
        sv < 0 ? obj.note("{1}/{0}/{1}", copy, num) : obj.note(Sev(sv), "{1}/{0}/{1}", copy, num);
        break;
      default:
        sv < 0 ? obj.note("literal {{}} {}", "only") : obj.note(Sev(sv), "literal {{}} {}", "only");
        break;
      }
    };
    bool bad = act("formatted note", true, [&] {
      if (rv) {
        go(*x.rv);
      } else if (form && !bomb && f == 1) {
        Errata &e = x.err();
        if (sv < 0) {
          e.note_v("{}={}", std::forward_as_tuple(copy, num));
        } else {
          e.note_v(Sev(sv), "{}={}", std::forward_as_tuple(copy, num));
        }
      } else if (form && !bomb && f == 2) {
        x.err().note_sv(sv < 0 ? std::optional<Sev>{} : std::optional<Sev>{Sev(sv)}, "{1}/{0}/{1}", std::forward_as_tuple(copy, num));
      } else {
        go(x.err());
      }
    });
    std::fill(copy.begin(), copy.end(), '#');
    if (bad) {
      adopt(x, full, "formatted note");
    } else {
      if (bomb && kept(sv)) {
        R.fail("swallowed", "a note succeeded although its argument could not be formatted");
      }
      x.m = full;
    }
    verify("formatted note");
  }
  void
  note_auto(unsigned k)
  {
    Slot &x    = s[k];
    int sv     = sev();
    unsigned c = R.pick(N_CODES - 1) + 1;
    bool rv    = x.rv && R.coin();
    unsigned f = R.pick(rv ? 2 : 3);
    Rep full   = x.m;
    if (f == 0) {
      add(full, -1, CODES[c].text);
    } else if (f == 1) {
      add(full, sv, name(sv) + ": " + CODES[c].text);
    } else {
      add(full, sv, name(sv));
    }
    R.log("note %u generated %u severity %d code %u", k, f, sv, c);
    auto go = [&](auto &obj) {
      if (f == 0) {
        obj.note(CODES[c].ec);
      } else {
        obj.note(CODES[c].ec, Sev(sv));
      }
    };
    bool bad = act("generated note", true, [&] {
      if (f == 2) {
        x.err().note(Sev(sv));
      } else if (rv) {
        go(*x.rv);
      } else {
        go(x.err());
      }
    });
    if (bad) {
      adopt(x, full, "generated note");
    } else {
      x.m = full;
    }
    verify("generated note");
  }
  void
  merge(unsigned k)
  {
    int j     = find(true);
    bool move = R.coin() && j != int(k);
    Slot &x   = s[k];
    Slot &y   = s[j];
    bool rv   = x.rv && R.coin();
    if (x.m.notes.size() + y.m.notes.size() > 400) {
      return;
    }
    R.log("note report %d in %u%s", j, k, move ? " by move" : "");
    Rep full = x.m;
    Rep from = y.m;
    raise(full, from.sev);
    for (auto n : from.notes) {
      ++n.level;
      full.notes.push_back(n);
    }
    full.data = full.data || !from.notes.empty();
    if (!full.data && (from.data || from.vague)) {
      full.vague = true;
    }
    bool bad = act("merge", true, [&] {
      if (rv) {
        move ? x.rv->note(std::move(y.err())) : x.rv->note(static_cast<Errata const &>(y.err()));
      } else {
        move ? x.err().note(std::move(y.err())) : x.err().note(static_cast<Errata const &>(y.err()));
      }
    });
    if (bad) {
      adopt(x, full, "merge");
    } else {
      x.m = full;
      if (move) {
        y.m = {};
      }
    }
    verify("merge");
  }
  void
  attributes(unsigned k)
  {
    Slot &x  = s[k];
    Rep full = x.m;
    unsigned f = R.pick(3);
    int sv     = sev();
    unsigned c = R.pick(N_CODES);
    R.log("set %u: %s %u", k, f == 0 ? "severity" : f == 1 ? "least severity" : "code", f == 2 ? c : sv);
    full.data = true;
    if (f == 0) {
      full.sev = sv;
    } else if (f == 1) {
      full.sev = std::max(full.sev, sv);
    } else {
      full.code = c;
    }
    bool bad = act("assignment", true, [&] {
      if (f == 0) {
        x.err().assign(Sev(sv));
      } else if (f == 1) {
        x.err().update(Sev(sv));
      } else {
        x.err().assign(CODES[c].ec);
      }
    });
    if (bad) {
      adopt(x, full, "assignment");
    } else {
      x.m = full;
    }
    verify("assignment");
  }
  /// Change an annotation in place.
  void
  edit(unsigned k)
  {
    Slot &x  = s[k];
    size_t n = x.m.notes.size();
    if (n == 0) return;
    size_t i = R.pick(n);
    int sv   = int(R.pick(6));
    bool clr = R.one_in(3);
    R.log("edit %u %zu %d %d", k, i, sv, clr);
    act("edit", false, [&] {
      auto spot = x.err().begin();
      if (R.coin()) {
        for (size_t j = 0; j < i; ++j) ++spot;
      } else {
        spot = x.err().end();
        for (size_t j = n; j > i; --j) --spot;
      }
      clr ? spot->clear() : spot->assign(Sev(sv));
    });
    if (clr) x.m.notes[i] = Note();
    else x.m.notes[i].sev = sv;
    verify("edit");
  }
  void
  glue(unsigned k)
  {
    Slot &x = s[k];
    if (R.one_in(3)) return edit(k);
    if (!x.m.data) {
      return;
    }
    std::string g(R.pick(6), char('A' + R.pick(20)));
    std::string copy = g;
    Rep full         = x.m;
    unsigned f       = R.pick(4);
    bool final_p     = R.coin();
    R.log("glue %u %u '%s'", k, f, g.c_str());
    bool bad = act("glue", true, [&] {
      switch (f) {
      case 0:
        x.err().assign_annotation_glue_text(copy, final_p);
        break;
      case 1:
        x.err().assign_annotation_severity_glue_text(copy);
        break;
      case 2:
        x.err().assign_severity_glue_text(copy);
        break;
      default:
        x.err().assign_indent_text(copy);
        break;
      }
    });
    std::fill(copy.begin(), copy.end(), '#');
    if (!bad) {
      switch (f) {
      case 0:
        x.m.glue    = g;
        x.m.final_p = final_p;
        break;
      case 1:
        x.m.a_glue = g;
        break;
      case 2:
        x.m.s_glue = g;
        break;
      default:
        x.m.indent = g;
        break;
      }
    }
    verify("glue");
  }
  void
  move_to_new(unsigned k)
  {
    int d = find(false);
    if (d < 0) {
      return;
    }
    Slot &x = s[k], &y = s[d];
    unsigned f = R.pick(6);
    std::string v = text(true);
    R.log("move %u to new %d by %u", k, d, f);
    std::string got_val;
    bool bad = act("move construction", true, [&] {
      switch (f) {
      case 0:
        y.e.reset(new Errata(std::move(x.err())));
        break;
      case 1:
        y.e.reset(new Errata(hand_back<3>(std::move(x.err()))));
        break;
      case 2:
        y.rv.reset(new RvS(std::move(x.err())));
        break;
      case 3:
        y.rv.reset(new RvS(v, std::move(x.err())));
        break;
      case 4:
        if (x.rv) {
          y.rv.reset(new RvS(std::move(*x.rv)));
        } else {
          y.e.reset(new Errata(std::move(*x.e)));
        }
        break;
      default: {
        std::string tmp = v;
        y.rv.reset(new RvS(std::move(tmp), std::move(x.err())));
        break;
      }
      }
    });
    if (bad) {
      if (y.live()) {
        R.fail("move", "a failed construction made an object");
      }
      // Before or after the report was taken.
      if (f == 1 && x.err().empty() && !x.m.notes.empty()) {
        // The report was in a temporary that was abandoned.
        abandon(x.m);
        x.m = {};
      }
    } else {
      y.m = x.m;
      x.m = {};
      if (f == 3 || f == 5) {
        y.val = v;
      } else if (f == 4 && x.rv) {
        y.val = x.val;
        x.val = x.rv->result(); // moved from
      } else {
        y.val.clear();
      }
    }
    verify("move construction");
  }
  void
  move_to(unsigned k)
  {
    int d   = find(true);
    Slot &x = s[k], &y = s[d];
    unsigned f = R.pick(3);
    R.log("move %u to %d by %u", k, d, f);
    bool self = int(k) == d;
    bool whole = false;
    act("move assignment", false, [&] {
      if (f == 0 && x.rv && y.rv) {
        whole = true;
        *y.rv = std::move(*x.rv);
      } else if (f == 1 && y.rv) {
        *y.rv = std::move(x.err());
      } else if (f == 2) {
        y.err() = hand_back<2>(std::move(x.err()));
      } else {
        y.err() = std::move(x.err());
      }
    });
    if (!self) {
      // What was there before is discarded.
      y.m = x.m;
      x.m = {};
      if (whole) {
        y.val = x.val;
        x.val = x.rv->result();
      }
    } else if (whole) {
      x.val = x.rv->result(); // nothing is said about the value
    }
    verify("move assignment");
  }
  void
  op()
  {
    int live = find(true);
    if (live < 0) {
      create(R.pick(K));
      return;
    }
    unsigned k = live;
    Slot &x    = s[k];
    switch (R.pick(26)) {
    case 0:
    case 1:
    case 2:
    case 3:
      note_text(k);
      break;
    case 4:
    case 5:
    case 6:
      note_format(k);
      break;
    case 7:
      note_auto(k);
      break;
    case 8:
    case 9:
    case 10:
      merge(k);
      break;
    case 11:
      attributes(k);
      break;
    case 12:
    case 13:
      move_to_new(k);
      break;
    case 14:
    case 15:
      move_to(k);
      break;
    case 16: {
      R.log("clear %u", k);
      bool rv = x.rv && R.coin();
      act("clear", false, [&] {
        if (rv) {
          x.rv->clear();
        } else {
          x.err().clear();
        }
      });
      x.m = {};
      verify("clear");
      break;
    }
    case 17: {
      R.log("sink %u", k);
      act("sink", false, [&] { x.err().sink(); });
      abandon(x.m);
      x.m = {};
      verify("sink");
      break;
    }
    case 18:
    case 19:
      destroy(k);
      break;
    case 20:
    case 21:
      if (int d = find(false); d >= 0) {
        create(d);
      } else {
        destroy(k);
      }
      break;
    case 22: {
      R.log("render %u", k);
      std::string out;
      std::ostringstream os;
      bool st  = R.coin();
      bool bad = act("rendering", true, [&] {
        if (st) {
          os << x.err();
        } else {
          swoc::bwprint(out, "{}", x.err());
        }
      });
      if (!bad) {
        auto want = rendered(x.m);
        auto got  = st ? os.str() : out;
        if (got != want) {
          R.fail("render", "report %u is rendered as '%s', expected '%s'", k, got.c_str(), want.c_str());
        }
      }
      R.sut([&] { std::string().swap(out); });
      verify("rendering");
      break;
    }
    case 23:
      glue(k);
      break;
    case 24:
      if (x.rv) {
        std::string v = text(true);
        unsigned f    = R.pick(4);
        R.log("value of %u by %u", k, f);
        std::string tmp = v;
        bool bad        = act("value assignment", true, [&] {
          if (f == 0) {
            *x.rv = static_cast<std::string const &>(v);
          } else if (f == 1) {
            *x.rv = std::move(tmp);
          } else if (f == 2) {
            x.rv->assign(static_cast<std::string const &>(v));
          } else {
            x.rv->assign(std::move(tmp));
          }
        });
        if (!bad) {
          x.val = v;
        }
        verify("value assignment");
      }
      break;
    default:
      if (sinks && isolated_run && g_sinks < 12) {
        unsigned how = R.pick(3);
        R.log("register a sink by %u", how);
        R.sut([&] {
          HostScope hs;
          register_one(how);
        });
      } else if (R.coin()) {
        int v                   = R.pick(6);
        Errata::FILTER_SEVERITY = Sev(uint8_t(v));
        R.log("filter %d", v);
      } else {
        int v                    = R.pick(6);
        Errata::FAILURE_SEVERITY = Sev(uint8_t(v));
        R.log("threshold %d", v);
        verify("changing the threshold");
      }
      break;
    }
  }
  void
  go()
  {
    if (R.coin()) {
      Errata::FILTER_SEVERITY = Sev(uint8_t(R.pick(4)));
    }
    Errata::DEFAULT_SEVERITY = Sev(uint8_t(R.pick(6)));
    Errata::FAILURE_SEVERITY = Sev(uint8_t(R.pick(6)));
    Errata::SEVERITY_NAMES   = swoc::MemSpan<TextView const>(NAMES, R.pick(6));
    R.log("default %d threshold %d filter %d names %zu", int(Errata::DEFAULT_SEVERITY), int(Errata::FAILURE_SEVERITY), int(Errata::FILTER_SEVERITY),
          Errata::SEVERITY_NAMES.size());
    if (sinks && R.one_in(3)) {
      g_nest_in = nest = R.pick(POOL);
      R.log("sink %d reports something itself", nest);
    }
    if (sinks && isolated_run && R.one_in(3)) {
      g_register_in = R.pick(POOL);
      R.log("sink %d registers another", g_register_in);
    }
    while (R.more(30, 200)) {
      op();
      R.step();
      uint64_t h = 0;
      for (auto &x : s) {
        h = mix(h, x.live() ? mix(mix(x.m.sev, x.m.code), mix(x.m.notes.size(), x.rv ? 1 : 0)) : 99);
      }
      R.state(h);
    }
    if (R._steps > 3) {
      R.nontrivial();
    }
    for (unsigned k = 0; k < K; ++k) {
      if (s[k].live()) {
        destroy(k);
      }
    }
  }
};

char const *const A1 = "a report is not merged by move with itself";
char const *const A2 = "sinks do not throw and are not unregistered; reports that hold attributes but no annotation may or may not be delivered";
Register e01{{"E01", [](Run &r) { Sim(r, false, false, false).go(); },
              "one run = a seeded history of up to 200 operations (every constructor, every note form, merges by copy and move, attribute changes, moves, clears, sinks, rendering, value carrying results) on four reports or results under seeded severity settings; texts in memory overwritten after each call; non-trivial: more than three operations",
              "per slot (severity, code, annotation count, kind)", {"Errata", "Rv", "MemArena", "IntrusiveDList", "FixedBufferWriter and formatting"}, {"reference reports", "sinks"}, {A1}}};
Register e02{{"E02",
              [](Run &r) {
                if (r.one_in(6)) {
                  sink_pool();
                  isolated(r, [&] { Sim(r, false, true, true).go(); });
                } else {
                  Sim(r, false, true, false).go();
                }
              },
              "as E01, comparing every delivery to every sink; in one of six runs the history has a process for itself and sinks are also registered at seeded points, by a sink during a delivery too; sinks can abandon reports themselves; non-trivial: more than three operations",
              "per slot (severity, code, annotation count, kind)", {"Errata", "Rv", "MemArena", "IntrusiveDList"}, {"reference reports", "sinks"}, {A1, A2}}};
Register e03{{"E03", [](Run &r) { Sim(r, true, false, false).go(); },
              "as E01, with allocations failing at seeded points of constructions, notes, merges and rendering, and format arguments that throw; non-trivial: a fault or more than three operations",
              "per slot (severity, code, annotation count, kind)", {"Errata", "Rv", "MemArena", "IntrusiveDList", "FixedBufferWriter and formatting"}, {"reference reports", "sinks", "malloc and operator new (failing on command)"}, {A1}}};
} // namespace

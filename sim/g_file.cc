// F01-F08: file operations against the simulated kernel.
#include "sim.h"
#include "vfs.h"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <sys/syscall.h>
#include <unistd.h>
#include "swoc/swoc_file.h"
#include "swoc/bwf_std.h"
#include "swoc/bwf_base.h"
#include "swoc/bwf_ex.h"

using namespace sim;
namespace file = swoc::file;
using vfs::Ino;
using vfs::Kernel;
using vfs::Node;

namespace {
enum Config { QUIET, SOFT, ONE, RANDOM };

/// Fill the stack below with a pattern, so stale data is recognisable.
__attribute__((noinline, no_sanitize("address"))) void
poison_stack(unsigned char v)
{
  volatile unsigned char b[90000];
  for (size_t i = 0; i < sizeof b; ++i) {
    b[i] = v;
  }
}

struct World {
  Run &R;
  Kernel k;
  Config cfg;
  std::vector<Ino> dirs;
  bool big;
  std::error_code ec;
  bool died      = false;
  bool no_memory = false;
  long alloc_fault = -1; // arm for the next operation
  bool actor_used  = false;
  unsigned prop_kinds; // fault kinds that make sense

  World(Run &r, unsigned kinds, bool allow_faults = true, bool unpriv = true, bool big_files = true) : R(r), k(&r), big(big_files), prop_kinds(kinds)
  {
    static constexpr Config mix[] = {QUIET, SOFT, ONE, ONE, RANDOM, RANDOM};
    cfg                           = allow_faults ? mix[R.pick(6)] : QUIET;
    k.uid                         = unpriv && R.one_in(3) ? 1000 : 0;
    k.umask                       = R.one_in(3) ? (R.coin() ? 077 : 0) : 022;
    k.fd_base                     = R.one_in(4) ? 0 : 3;
    k.dt_unknown                  = R.coin();
    k.list_live                   = R.coin();
    k.order                       = R.pick(1000);
    k.now.tv_sec                  = clock();
    k.now.tv_nsec                 = R.coin() ? R.pick(1000000000) : 0;
    R.log("config %d uid %u umask %03o fd base %ld", cfg, k.uid, k.umask, k.fd_base);
    R.state(mix64(cfg, k.uid, k.umask, k.fd_base));
    tree();
  }
  static uint64_t
  mix64(uint64_t a, uint64_t b, uint64_t c, uint64_t d)
  {
    return mix(mix(mix(a, b), c), d);
  }

  long
  clock()
  {
    switch (R.pick(5)) {
    case 0:
      return 1700000000 + R.pick(1u << 30);
    case 1:
      return 0;
    case 2:
      return -static_cast<long>(R.pick(1u << 31)) - 1;
    case 3:
      return 4000000000l + R.pick(1u << 30);
    default:
      return R.pick(86400);
    }
  }

  static std::string
  content(uint32_t seed, size_t n)
  {
    std::string s(n, 0);
    uint32_t x = seed * 2654435761u + 12345;
    for (size_t i = 0; i < n; ++i) {
      x    = x * 1664525u + 1013904223u;
      s[i] = static_cast<char>(x >> 24);
    }
    return s;
  }
  size_t
  file_size()
  {
    static size_t const edges[] = {65535, 65536, 65537, 131072, 4096, 4095, 131073, 196608, 8192};
    if (big && R.one_in(300)) {
      return 900000 + R.pick(1700000);
    }
    switch (R.pick(big ? 8 : 4)) {
    case 0:
      return 0;
    case 1:
    case 2:
    case 3:
      return R.small(300);
    case 4:
      return R.small(5000);
    case 5:
    case 6:
      return edges[R.pick(sizeof edges / sizeof *edges)];
    default:
      return R.pick(250000);
    }
  }
  std::string
  name()
  {
    static char const *pool[] = {"a", "b", "c", "dir", "file.txt", "x", "..y", ".hid", "long name", "z"};
    return pool[R.pick(10)];
  }

  unsigned
  mode(bool dir)
  {
    if (R.one_in(4)) {
      static unsigned const odd[] = {0, 0400, 0200, 0100, 0700, 0777, 0111, 0555, 0444, 04755, 0640};
      return odd[R.pick(11)];
    }
    return dir ? 0755 : 0644;
  }

  void
  tree()
  {
    dirs = {k.root};
    Ino at  = k.root;
    // A working directory.
    unsigned deep = R.pick(3);
    for (unsigned i = 0; i < deep; ++i) {
      at = k.make(at, i == 0 ? "work" : "sub", vfs::DIRECTORY, 0755);
      dirs.push_back(at);
    }
    k.cwd      = at;
    unsigned n = R.pick(4) == 0 ? R.pick(4) : R.pick(22);
    for (unsigned i = 0; i < n; ++i) {
      R.mark();
      add_entry();
    }
    R.log("tree:\n%.700s", k.dump(k.root).c_str());
  }

  void
  add_entry()
  {
    Ino d = dirs[R.pick(dirs.size())];
    if (R.coin()) {
      d = dirs.back();
    }
    std::string nm = name();
    if (!k.find(d) || k.node(d).ents.count(nm) || k.node(d).type != vfs::DIRECTORY) {
      return;
    }
    unsigned t = R.pick(20);
    Ino i      = 0;
    if (t < 8) {
      size_t sz = file_size();
      i         = k.make(d, nm, vfs::REG, mode(false), content(R.pick(1000), sz));
      if (R.one_in(6)) { // reported size is not the real one.
        k.own(i).lie = R.coin() ? 0 : static_cast<long>(R.pick(sz * 2 + 10));
      }
    } else if (t < 14) {
      i = k.make(d, nm, vfs::DIRECTORY, mode(true));
      dirs.push_back(i);
    } else if (t < 18) {
      i = k.make(d, nm, vfs::LINK, 0777, R.one_in(5) ? nm : some_path());
    } else if (t == 18) {
      static vfs::Type const other[] = {vfs::FIFO, vfs::SOCKET, vfs::CHARDEV, vfs::BLOCKDEV};
      i                              = k.make(d, nm, other[R.pick(4)], mode(false));
    } else { // hard link
      std::vector<Ino> files;
      for (auto &[ino, p] : k.nodes) {
        if (p->type == vfs::REG) {
          files.push_back(ino);
        }
      }
      if (!files.empty()) {
        i                  = files[R.pick(files.size())];
        k.own(d).ents[nm]  = i;
        k.own(i).nlink    += 1;
      }
    }
    if (i && R.one_in(3)) {
      k.own(i).mtime = {clock(), static_cast<long>(R.pick(1000000000))};
      k.own(i).atime = {clock(), static_cast<long>(R.pick(1000000000))};
      k.own(i).ctime = {clock(), static_cast<long>(R.pick(1000000000))};
    }
    if (i && R.one_in(12)) {
      k.own(i).uid = 0;
    }
  }

  /// A path, most often to something that exists.
  std::string
  some_path()
  {
    std::string p;
    unsigned how = R.pick(10);
    if (how == 9) {
      return std::string("nothing/here");
    }
    Ino d = dirs[R.pick(dirs.size())];
    if (!k.find(d) || k.node(d).type != vfs::DIRECTORY) {
      d = k.root;
    }
    std::string base = k.path_of(d);
    if (base.empty()) {
      base = "/";
    }
    if (how < 4) { // relative to the working directory, if below it.
      std::string c = k.path_of(k.cwd);
      if (d == k.cwd) {
        base = "";
      } else if (c == "/") {
        base = base.substr(1);
      } else if (!c.empty() && base.compare(0, c.size() + 1, c + "/") == 0) {
        base = base.substr(c.size() + 1);
      }
    }
    std::string nm;
    auto &ents = k.node(d).ents;
    if (!ents.empty() && !R.one_in(4)) {
      auto s = ents.begin();
      std::advance(s, R.pick(ents.size()));
      nm = s->first;
      // Down through a link or directory.
      Node const &n = k.node(s->second);
      if (R.one_in(4) && n.type != vfs::REG) {
        nm += "/" + name();
      }
    } else {
      nm = name();
    }
    switch (R.pick(16)) {
    case 13:
      nm = "./" + nm;
      break;
    case 14:
      nm = "../" + nm;
      break;
    case 15:
      if (!base.empty() && base != "/") {
        base += "/";
      }
      break;
    }
    p = base.empty() ? nm : base == "/" ? "/" + nm : base + "/" + nm;
    return p;
  }

  std::string
  pick_path()
  {
    unsigned h = R.pick(40);
    if (h == 39) {
      return "";
    }
    if (h == 38) {
      return k.path_of(dirs[R.pick(dirs.size())]);
    }
    if (h == 37) {
      return std::string(300, 'n');
    }
    auto p = some_path();
    if (R.one_in(14)) {
      p += "/";
    }
    return p;
  }

  // Faults for the next operation.
  void
  arm()
  {
    k.kinds    = 0;
    k.pct      = 0;
    k.fault_at = -1;
    k.space    = -1;
    k.chunk    = 0;
    unsigned hard = prop_kinds & ~(vfs::F_SHORT | vfs::F_EINTR | vfs::F_SPACE);
    unsigned soft = prop_kinds & (vfs::F_SHORT | vfs::F_EINTR);
    switch (cfg) {
    case QUIET:
      break;
    case SOFT:
      k.kinds = soft;
      if (R.coin()) {
        k.chunk = 1 + R.small(70000);
        k.chunk = std::max<unsigned>(k.chunk, 500);
      }
      break;
    case ONE:
      k.kinds    = hard;
      k.fault_at = 1 + R.small(24);
      break;
    case RANDOM: {
      static unsigned const rate[] = {2, 5, 15, 40};
      k.kinds                      = hard;
      if (R.coin()) {
        k.kinds |= soft;
      }
      if (R.one_in(3)) { // only some kinds
        k.kinds &= 1u << R.pick(12) | 1u << R.pick(12) | 1u << R.pick(12) | 1u << R.pick(12);
      }
      k.pct = rate[R.pick(4)];
      if ((prop_kinds & vfs::F_SPACE) && R.one_in(3)) {
        k.space = R.small(200000);
      }
      break;
    }
    }
  }

  template <typename F>
  void
  op(F &&f)
  {
    static int const stale[] = {0, ENOENT, EIO, EAGAIN, ENOMEM, EEXIST, ESTALE};
    arm();
    int e = stale[R.pick(7)];
    int c = stale[R.pick(7)];
    ec    = c ? std::error_code(c, R.coin() ? std::system_category() : std::generic_category()) : std::error_code();
    k.begin();
    no_memory = false;
    poison_stack(R.coin() ? 0xa5 : 0x5a);
    if (alloc_fault >= 0) {
      R.arm_alloc(alloc_fault, R.coin());
    }
    errno = e;
    try {
      died = !vfs::call(k, f);
    } catch (std::bad_alloc const &) {
      no_memory = true;
      if (!R.disarm_alloc()) {
        R.fail("spurious-bad-alloc", "out of memory reported although no allocation failed");
      }
    } catch (std::exception const &x) {
      R.disarm_alloc();
      R.fail("exception", "the operation threw %s", x.what());
    }
    if (alloc_fault >= 0) {
      if (R.disarm_alloc() || no_memory) {
        R.fault("alloc");
      }
      alloc_fault = -1;
    }
    R.nontrivial();
    R.log("  -> error %d%s%s, %ld calls, %ld errors, %ld soft", ec.value(), died ? " died" : "", no_memory ? " no memory" : "", k.calls, k.hard, k.soft);
    uint64_t h = 0;
    for (auto &d : k.delivered) {
      h = mix(h, d.nr * 1000 + d.err);
    }
    R.state(mix(h, mix(k.calls, ec.value())));
    R.count(ec ? "operations failing" : "operations succeeding");
  }

  bool
  was_delivered(int e, bool hard_only = false)
  {
    for (auto &d : k.delivered) {
      if (d.err == e && !d.soft && (!hard_only || d.injected)) {
        return true;
      }
    }
    return false;
  }

  // An error is reported: did anything cause it?
  void
  check_error(char const *what, std::initializer_list<int> also = {})
  {
    if (ec.category() != std::system_category() && ec.category() != std::generic_category()) {
      R.fail("error-category", "%s reported an error in category %s", what, ec.category().name());
    }
    if (was_delivered(ec.value())) {
      return;
    }
    for (int e : also) {
      if (e == ec.value()) {
        return;
      }
    }
    for (auto &d : k.delivered) {
      if (d.err == ec.value()) {
        return;
      }
    }
    R.fail("wrong-error", "%s reported error %d (%s) which no system call returned", what, ec.value(), ec.message().c_str());
  }

  /// Everything but the excepted nodes is unchanged.
  void
  check_untouched(Kernel const &before, char const *what, std::set<Ino> const &except_data, std::set<std::pair<Ino, std::string>> const &except_entry,
                  bool links = false)
  {
    for (auto &[ino, p] : before.nodes) {
      Node const *n = k.find(ino);
      if (except_data.count(ino)) {
        continue;
      }
      if (!n) {
        bool named = false;
        for (auto &[d, e] : except_entry) {
          auto *dn = before.find(d);
          if (dn) {
            auto s = dn->ents.find(e);
            named  = named || (s != dn->ents.end() && s->second == ino);
          }
        }
        if (!named) {
          R.fail("collateral", "%s: an entry that was not to be deleted is gone (inode %lu)", what, static_cast<unsigned long>(ino));
        }
        continue;
      }
      if (n->text() != p->text()) {
        R.fail("collateral", "%s: the content of another file (inode %lu) changed, %zu bytes to %zu", what, static_cast<unsigned long>(ino), p->text().size(),
               n->text().size());
      }
      if (n->mode != p->mode || n->type != p->type || (!links && n->nlink != p->nlink)) {
        R.fail("collateral", "%s: mode %o -> %o, links %u -> %u of another entry (inode %lu)", what, p->mode, n->mode, p->nlink, n->nlink,
               static_cast<unsigned long>(ino));
      }
      if (n->ents != p->ents) {
        auto a = p->ents, b = n->ents;
        for (auto &[d, e] : except_entry) {
          if (d == ino) {
            a.erase(e);
            b.erase(e);
          }
        }
        if (a != b) {
          R.fail("collateral", "%s: entries of another directory (%s) changed", what, k.path_of(ino).c_str());
        }
      }
    }
    for (auto &[ino, p] : k.nodes) {
      if (!before.find(ino) && !except_data.count(ino)) {
        bool named = false;
        for (auto &[d, e] : except_entry) {
          auto *dn = k.find(d);
          if (dn) {
            auto s = dn->ents.find(e);
            named  = named || (s != dn->ents.end() && s->second == ino);
          }
        }
        if (!named) {
          R.fail("collateral", "%s: created an entry it was not asked for (%s)", what, k.path_of(p->parent).c_str());
        }
      }
    }
  }

  // ------------------------------------------------------------------ copy
  struct CopyPlan {
    bool skip     = false;
    bool ok       = false; // will succeed without faults
    Ino src       = 0;
    Ino dst       = 0; // if it exists
    Ino dir       = 0;
    std::string name;
    std::string final_to;
    bool same = false;
  };
  CopyPlan
  plan_copy(Kernel &v, std::string const &from, std::string const &to)
  {
    CopyPlan p;
    if (from.empty() || to.empty()) {
      return p;
    }
    auto wf = v.resolve(v.cwd, from, true);
    auto wt = v.resolve(v.cwd, to, true);
    p.final_to = to;
    if (!wt.err && wt.ino && v.node(wt.ino).type == vfs::DIRECTORY) {
      auto slash = from.find_last_of('/');
      auto fn    = slash == std::string::npos ? from : from.substr(slash + 1);
      if (fn.empty()) {
        // nothing to append
      } else if (to.back() == '/') {
        p.final_to = to + fn;
      } else {
        p.final_to = to + "/" + fn;
      }
    }
    auto wd = v.resolve(v.cwd, p.final_to, true);
    if (!wd.err) {
      p.dst  = wd.ino;
      p.dir  = wd.dir;
      p.name = wd.name;
    }
    if (wf.err || !wf.ino) {
      return p;
    }
    p.src            = wf.ino;
    Node const &s    = v.node(p.src);
    if (s.type == vfs::FIFO || s.type == vfs::BLOCKDEV || s.type == vfs::CHARDEV) {
      p.skip = s.type != vfs::CHARDEV;
    }
    if (p.dst && (v.node(p.dst).type == vfs::FIFO || v.node(p.dst).type == vfs::BLOCKDEV || v.node(p.dst).type == vfs::CHARDEV)) {
      p.skip = true;
    }
    if (p.dst && v.node(p.dst).lie >= 0) {
      p.skip = true; // a destination that reports a false size
    }
    p.same = p.dst == p.src;
    if ((s.type != vfs::REG && s.type != vfs::CHARDEV) || !v.may(s, 4) || wd.err) {
      return p;
    }
    if (p.dst) {
      Node const &d = v.node(p.dst);
      p.ok          = d.type == vfs::REG && v.may(d, 2);
    } else {
      p.ok = !wd.slash && v.may(v.node(p.dir), 3);
    }
    return p;
  }

  void
  copy()
  {
    std::string from = pick_path(), to = pick_path();
    if (R.one_in(10)) {
      to = from;
    }
    auto p = plan_copy(k, from, to);
    if (p.skip) {
      return;
    }
    R.log("copy '%.80s' to '%.80s'", from.c_str(), to.c_str());
    Kernel before(k);
    file::path f(from), t(to);
    bool rc = false;
    op([&] { rc = file::copy(f, t, ec); });
    if (rc != !ec) {
      R.fail("result", "copy returned %s with error %d", rc ? "true" : "false", ec.value());
    }
    auto w  = k.resolve(k.cwd, p.final_to.empty() ? "/" : p.final_to, true);
    Ino dst = p.final_to.empty() || w.err ? 0 : w.ino;
    if (p.src) {
      Node const &a = before.node(p.src);
      Node const *b = k.find(p.src);
      if (!b || a.text() != b->text() || a.mode != b->mode) {
        R.fail("source", "the source of the copy was altered (%zu bytes, now %zu)", a.text().size(), b ? b->text().size() : 0);
      }
    }
    std::set<Ino> ex;
    std::set<std::pair<Ino, std::string>> exe;
    if (dst) {
      ex.insert(dst);
    }
    if (p.dst) {
      ex.insert(p.dst);
    }
    if (p.dir && !p.dst) {
      exe.insert({p.dir, p.name});
    }
    check_untouched(before, "copy", ex, exe);
    if (rc) {
      if (!p.src) {
        R.fail("success", "copy of a source that can not be read succeeded");
      }
      Node const &s = before.node(p.src);
      if (s.type == vfs::DIRECTORY || s.type == vfs::SOCKET) {
        R.fail("success", "copy of something that is not a file reported success");
      }
      if (!dst) {
        R.fail("content", "copy reported success but there is no destination file");
      }
      Node const &d = k.node(dst);
      if (d.text() != s.text()) {
        size_t i = 0;
        while (i < d.text().size() && i < s.text().size() && d.text()[i] == s.text()[i]) {
          ++i;
        }
        R.fail("content", "copy reported success but the destination has %zu bytes for %zu, first difference at %zu", d.text().size(), s.text().size(), i);
      }
      unsigned m = s.mode;
      if (!p.dst) {
        if (d.mode != (m & ~k.umask) && d.mode != m && d.mode != (m & 0777) && d.mode != (m & 0777 & ~k.umask)) {
          R.fail("mode", "the new destination has mode %o, the source %o (umask %o)", d.mode, m, k.umask);
        }
      } else if (p.dst == dst && d.mode != before.node(dst).mode && d.mode != m && d.mode != (m & ~k.umask)) {
        R.fail("mode", "the mode of the destination became %o", d.mode);
      }
      R.count("copies verified");
    } else {
      check_error("copy", {EINVAL, EISDIR, ENOTDIR, ENOTSUP, EEXIST});
      if (p.ok && !p.same && k.hard == 0) {
        R.fail("spurious-failure", "copy failed with error %d (%s) although nothing but interruptions and short transfers happened (%ld)", ec.value(),
               ec.message().c_str(), k.soft);
      }
      // The error that prevented it, not the probe of a missing destination.
      if (ec.value() == ENOENT && !was_delivered(ENOENT, true)) {
        bool missing = !p.src;
        auto slash   = p.final_to.find_last_not_of('/');
        auto wf      = before.resolve(before.cwd, p.final_to.empty() ? "x" : p.final_to, true);
        missing      = missing || wf.err == -ENOENT || (slash == std::string::npos);
        if (!missing) {
          R.fail("wrong-error", "copy failed with 'not found' but source and destination directory exist");
        }
      }
      R.count("failed copies verified");
    }
  }

  // ------------------------------------------------------------------ load
  void
  load()
  {
    std::string from = pick_path();
    auto w           = k.resolve(k.cwd, from.empty() ? "\x01" : from, true);
    Node const *n    = !w.err && w.ino ? k.find(w.ino) : nullptr;
    if (n && (n->type == vfs::FIFO || n->type == vfs::BLOCKDEV)) {
      return;
    }
    R.log("load '%.80s'", from.c_str());
    Kernel before(k);
    file::path f(from);
    std::string got;
    op([&] { got = file::load(f, ec); });
    if (!no_memory) {
      verify_load(n, got);
    }
    check_untouched(before, "load", {}, {});
  }
  void
  verify_load(Node const *n, std::string const &got)
  {
    bool readable = n && (n->type == vfs::REG || n->type == vfs::CHARDEV) && k.may(*n, 4);
    if (!ec) {
      if (!readable) {
        R.fail("success", "load of something that can not be read reported no error and %zu bytes", got.size());
      }
      if (got != n->text()) {
        size_t i = 0;
        while (i < got.size() && i < n->text().size() && got[i] == n->text()[i]) {
          ++i;
        }
        R.fail("content", "load reported no error and %zu bytes of %zu (reported size %ld), first difference at %zu", got.size(), n->text().size(), n->lie, i);
      }
      R.count("loads verified");
    } else {
      check_error("load", {EINVAL, EISDIR, ENOTSUP});
      if (readable && k.hard == 0) {
        R.fail("spurious-failure", "load failed with error %d although nothing but interruptions and short reads happened (%ld), reported size %ld of %zu",
               ec.value(), k.soft, n->lie, n->text().size());
      }
    }
  }

  // ------------------------------------------------------------------ remove
  void
  subtree(Kernel const &v, Ino top, std::vector<Ino> &out)
  {
    out.push_back(top);
    Node const *n = v.find(top);
    if (n) {
      for (auto &[e, i] : n->ents) {
        subtree(v, i, out);
      }
    }
  }

  std::set<Ino> actor_dirs;
  unsigned actor_rate = 0;
  Ino actor_top       = 0;
  bool actor_delete   = true;
  static void
  tree_actor(Kernel &kk, void *ctx)
  {
    auto *w = static_cast<World *>(ctx);
    Run &R  = w->R;
    if (!R.pct(w->actor_rate)) {
      return;
    }
    // Directories still in the tree.
    std::vector<Ino> at, all;
    if (!kk.find(w->actor_top)) {
      return;
    }
    w->subtree(kk, w->actor_top, all);
    for (auto i : all) {
      if (kk.find(i) && kk.node(i).type == vfs::DIRECTORY && kk.node(i).nlink > 1) {
        at.push_back(i);
      }
    }
    if (at.empty()) {
      return;
    }
    Ino d          = at[R.pick(at.size())];
    std::string nm = w->name();
    auto s         = kk.node(d).ents.find(nm);
    if (s == kk.node(d).ents.end()) {
      if (R.coin()) {
        Ino i = kk.make(d, nm, R.one_in(3) ? vfs::DIRECTORY : vfs::REG, 0755, "new");
        w->actor_made.insert(i);
        R.fault("other process creates an entry");
        R.log("   * other process creates %s in %s", nm.c_str(), kk.path_of(d).c_str());
        w->actor_used = true;
      }
    } else if (kk.node(s->second).type != vfs::DIRECTORY || kk.node(s->second).ents.empty()) {
      Ino i = s->second;
      kk.own(d).ents.erase(nm);
      if (kk.node(i).type == vfs::DIRECTORY) {
        kk.own(i).nlink = 1;
      }
      kk.drop(i);
      R.fault("other process deletes an entry");
      R.log("   * other process deletes %s in %s", nm.c_str(), kk.path_of(d).c_str());
      w->actor_used = true;
    }
  }
  std::set<Ino> actor_made;

  bool
  odd_target(std::string const &p, vfs::Kernel::Where const &w)
  {
    if (p.empty()) {
      return false;
    }
    auto e = p.find_last_not_of('/');
    if (e == std::string::npos) {
      return true; // the root
    }
    auto b  = p.find_last_of('/', e);
    auto nm = p.substr(b == std::string::npos ? 0 : b + 1, e - (b == std::string::npos ? 0 : b + 1) + 1);
    if (nm == "." || nm == "..") {
      return true;
    }
    if (e + 1 < p.size()) { // trailing separator on a link
      auto w2 = k.resolve(k.cwd, p.substr(0, e + 1), false);
      if (!w2.err && w2.ino && k.node(w2.ino).type == vfs::LINK) {
        return true;
      }
    }
    return false;
  }

  /// Does the path lead through what is to be removed?
  bool
  through(std::string const &p, std::set<Ino> const &subs)
  {
    std::set<Ino> walked;
    k.walked = &walked;
    k.resolve(k.cwd, p.empty() ? "\x01" : p, false);
    k.walked = nullptr;
    for (auto i : walked) {
      if (subs.count(i)) {
        return true;
      }
    }
    return false;
  }

  void
  remove_all(bool with_actor)
  {
    std::string p = pick_path();
    auto w        = k.resolve(k.cwd, p.empty() ? "\x01" : p, false);
    if (odd_target(p, w)) {
      return;
    }
    Ino top = !p.empty() && !w.err ? w.ino : 0;
    std::vector<Ino> sub;
    if (top) {
      subtree(k, top, sub);
    }
    std::set<Ino> subs(sub.begin(), sub.end());
    if (through(p, subs)) {
      return;
    }
    R.log("remove_all '%.80s' (%zu entries)", p.c_str(), sub.size());
    bool all_ok = top != 0;
    if (top) {
      all_ok = k.may(k.node(w.dir), 3);
      for (auto i : sub) {
        if (k.node(i).type == vfs::DIRECTORY && !k.may(k.node(i), 7)) {
          all_ok = false;
        }
      }
    }
    Kernel before(k);
    file::path t(p);
    uintmax_t n = 0;
    actor_used  = false;
    actor_made.clear();
    if (with_actor && top && R.coin()) {
      k.actor     = tree_actor;
      k.actor_ctx = this;
      actor_top   = top;
      actor_rate  = 5 + R.pick(20);
    }
    op([&] { n = file::remove_all(t, ec); });
    k.actor = nullptr;
    // Only what is at or below the path was deleted.
    for (auto &e : k.effects) {
      bool inside = subs.count(e.dir) || actor_made.count(e.dir);
      if (e.what == vfs::Effect::REMOVE && !inside && !(e.dir == w.dir && e.name == w.name)) {
        R.fail("outside", "remove_all of '%s' deleted '%s' in %s", p.c_str(), e.name.c_str(), k.path_of(e.dir).c_str());
      }
      if (e.what != vfs::Effect::REMOVE && !subs.count(e.ino)) {
        R.fail("outside", "remove_all of '%s' changed inode %lu", p.c_str(), static_cast<unsigned long>(e.ino));
      }
    }
    std::set<Ino> ex;
    for (auto i : sub) {
      if (before.node(i).type == vfs::DIRECTORY || !k.find(i)) {
        ex.insert(i);
      }
    }
    for (auto i : actor_made) {
      ex.insert(i);
    }
    check_untouched(before, "remove_all", ex, {{w.dir, w.name}}, true);
    if (no_memory) {
      return;
    }
    auto w2     = k.resolve(k.cwd, p.empty() ? "\x01" : p, false);
    bool remain = top && !w2.err && w2.ino == top;
    if (n != k.removed) {
      R.fail("count", "remove_all returned %lu but deleted %u entries", static_cast<unsigned long>(n), k.removed);
    }
    if (!ec && remain) {
      R.fail("silent-failure", "remove_all reported no error but '%s' is still there", p.c_str());
    }
    if (ec) {
      check_error("remove_all", {EINVAL, ENOTDIR});
      if (top && !remain && k.hard == 0 && !actor_used) {
        R.fail("spurious-failure", "everything was deleted, nothing failed, but remove_all reported error %d (%s)", ec.value(), ec.message().c_str());
      }
      if (all_ok && k.hard == 0 && !actor_used) {
        R.fail("spurious-failure", "remove_all failed with error %d (%s) although everything could be deleted", ec.value(), ec.message().c_str());
      }
    } else if (p.empty()) {
      R.fail("empty-path", "remove_all of an empty path reported no error");
    } else if (top && n == 0 && !actor_used) {
      R.fail("count", "remove_all returned 0");
    }
    R.count("removals verified");
  }

  void
  remove()
  {
    std::string p = pick_path();
    auto w        = k.resolve(k.cwd, p.empty() ? "\x01" : p, false);
    if (odd_target(p, w)) {
      return;
    }
    Ino top = !p.empty() && !w.err ? w.ino : 0;
    R.log("remove '%.80s'", p.c_str());
    Kernel before(k), model(k);
    bool expect = false, either = false;
    if (top) {
      auto &n = model.node(top);
      either  = n.type != vfs::REG && n.type != vfs::LINK && n.type != vfs::DIRECTORY;
      expect  = model.unlink_at(AT_FDCWD, p.c_str(), n.type == vfs::DIRECTORY) == 0;
    }
    file::path t(p);
    bool rc = false;
    op([&] { rc = file::remove(t, ec); });
    if (rc != !ec) {
      R.fail("result", "remove returned %s with error %d", rc ? "true" : "false", ec.value());
    }
    if (rc != (k.removed == 1) || k.removed > 1) {
      R.fail("result", "remove returned %s and deleted %u entries", rc ? "true" : "false", k.removed);
    }
    if (rc) {
      auto &e = k.effects.back();
      if (e.dir != w.dir || e.name != w.name) {
        R.fail("outside", "remove of '%s' deleted '%s' in %s", p.c_str(), e.name.c_str(), k.path_of(e.dir).c_str());
      }
      check_untouched(before, "remove", {top}, {{w.dir, w.name}}, true);
      R.count("removals verified");
    } else {
      check_untouched(before, "failed remove", {}, {});
      check_error("remove", {EINVAL, EISDIR, ENOTDIR, ENOTEMPTY});
      if (expect && !either && k.hard == 0) {
        R.fail("spurious-failure", "remove of '%s' failed with error %d (%s) although it could be deleted", p.c_str(), ec.value(), ec.message().c_str());
      }
    }
  }

  // ------------------------------------------------------------------ create
  std::vector<std::string> prefixes;
  static void
  mkdir_actor(Kernel &kk, void *ctx)
  {
    auto *w = static_cast<World *>(ctx);
    if (!w->R.pct(w->actor_rate)) {
      return;
    }
    auto &p = w->prefixes[w->R.pick(w->prefixes.size())];
    // The first that is missing is what would be created next.
    auto x = kk.resolve(kk.cwd, p, true);
    if (x.err || x.ino || x.dot) {
      return;
    }
    bool reg = w->R.one_in(6);
    Ino i    = kk.make(x.dir, x.name, reg ? vfs::REG : vfs::DIRECTORY, 0755);
    w->actor_made.insert(i);
    w->actor_used  = true;
    w->actor_files = w->actor_files || reg;
    w->R.fault(reg ? "other process creates a file" : "other process creates the directory");
    w->R.log("   * other process creates %s %s", reg ? "file" : "directory", p.c_str());
  }
  bool actor_files = false;

  void
  create(bool with_actor)
  {
    std::string p = pick_path();
    bool deep     = R.coin();
    unsigned ext  = R.pick(4);
    for (unsigned i = 0; i < ext; ++i) {
      p += std::string(p.empty() ? "" : R.one_in(6) ? "//" : "/") + (R.one_in(8) ? "." : name());
    }
    static unsigned const modes[] = {0700, 0777, 0711, 0750, 01777, 0500, 0550, 0300, 0100, 0000, 0022, 0577};
    unsigned m = R.one_in(3) ? modes[R.pick(std::size(modes))] : 0775;
    bool dflt  = m == 0775 && R.coin();
    R.log("%s '%.100s' mode %o", deep ? "create_directories" : "create_directory", p.c_str(), m);
    prefixes.clear();
    if (deep) {
      for (size_t i = 1; i < p.size(); ++i) {
        if (p[i] == '/') {
          prefixes.push_back(p.substr(0, i));
        }
      }
    }
    if (!p.empty()) {
      prefixes.push_back(p);
    }
    Kernel before(k), model(k);
    bool expect = !p.empty();
    for (auto &q : prefixes) {
      long rc = model.mkdir_at(AT_FDCWD, q.c_str(), m);
      if (rc == -EEXIST) {
        auto x = model.resolve(model.cwd, q, true);
        if (!x.err && x.ino && model.node(x.ino).type == vfs::DIRECTORY) {
          rc = 0;
        }
      }
      if (rc) {
        expect = false;
        break;
      }
    }
    file::path t(p);
    bool rc    = false;
    actor_used = actor_files = false;
    actor_made.clear();
    if (with_actor && R.coin() && !prefixes.empty()) {
      k.actor     = mkdir_actor;
      k.actor_ctx = this;
      actor_rate  = 10 + R.pick(50);
    }
    op([&] { rc = deep ? (dflt ? file::create_directories(t, ec) : file::create_directories(t, ec, m)) :
                         (dflt ? file::create_directory(t, ec) : file::create_directory(t, ec, m)); });
    k.actor = nullptr;
    if (rc != !ec) {
      R.fail("result", "returned %s with error %d", rc ? "true" : "false", ec.value());
    }
    if (rc) {
      if (p.empty()) {
        R.fail("success", "created an empty path");
      }
      for (auto &q : prefixes) {
        auto x = k.resolve(k.cwd, q, true);
        if (x.err || !x.ino || k.node(x.ino).type != vfs::DIRECTORY) {
          R.fail("success", "reported success but '%s' is not a directory", q.c_str());
        }
      }
      R.count("creations verified");
    }
    std::set<Ino> ex = actor_made;
    std::set<std::pair<Ino, std::string>> exe;
    for (auto i : actor_made) {
      for (auto &[ino, n] : k.nodes) {
        for (auto &[e, c] : n->ents) {
          if (c == i) {
            exe.insert({ino, e});
          }
        }
      }
    }
    for (auto &e : k.effects) {
      if (e.what != vfs::Effect::CREATE || k.node(e.ino).type != vfs::DIRECTORY) {
        R.fail("outside", "creating '%s' did something other than creating directories", p.c_str());
      }
      bool on_path = false;
      for (auto &q : prefixes) {
        auto x  = k.resolve(k.cwd, q, true);
        on_path = on_path || (!x.err && x.ino == e.ino);
      }
      if (!on_path) {
        R.fail("outside", "creating '%s' created '%s' elsewhere", p.c_str(), e.name.c_str());
      }
      if (k.node(e.ino).mode != (m & ~k.umask)) {
        R.fail("mode", "directory '%s' was created with mode %o for %o (umask %o)", e.name.c_str(), k.node(e.ino).mode, m, k.umask);
      }
      ex.insert(e.ino);
      exe.insert({e.dir, e.name});
    }
    check_untouched(before, "directory creation", ex, exe);
    if (!rc) {
      check_error("directory creation", {EINVAL, ENOTDIR, EEXIST});
      if (expect && k.hard == 0 && !actor_files) {
        R.fail("spurious-failure", "creating '%s' failed with error %d (%s)%s", p.c_str(), ec.value(), ec.message().c_str(),
               actor_used ? " when another process created the directory" : "");
      }
      if (ec.value() == EEXIST && !actor_files && !was_delivered(EEXIST, true)) {
        bool bad = false;
        for (auto &q : prefixes) {
          auto x = k.resolve(k.cwd, q, true);
          bad    = bad || x.err || !x.ino || k.node(x.ino).type != vfs::DIRECTORY;
          if (!x.err && x.ino && k.node(x.ino).type == vfs::DIRECTORY) {
            continue;
          }
          break;
        }
        if (!bad && k.hard == 0) {
          R.fail("wrong-error", "'already exists' reported for directories");
        }
      }
    } else if (!expect && !actor_used) {
      R.fail("success", "creating '%s' reported success although it is not possible", p.c_str());
    }
  }

  // ------------------------------------------------------------------ queries
  static file::file_time_type
  tp(timespec const &t)
  {
    using namespace std::chrono;
    return system_clock::time_point{duration_cast<system_clock::duration>(seconds{t.tv_sec} + nanoseconds{t.tv_nsec})};
  }
  void
  query()
  {
    std::string p = pick_path();
    auto w        = k.resolve(k.cwd, p.empty() ? "\x01" : p, true);
    long natural  = p.empty() ? -ENOENT : w.err ? w.err : w.ino ? 0 : -ENOENT;
    Node const *n = natural ? nullptr : k.find(w.ino);
    file::path f(p);
    Kernel before(k);
    if (R.one_in(5)) { // clock jump
      k.now.tv_sec = clock();
      R.fault("clock jump");
    }
    switch (R.pick(7)) {
    case 0:
    case 1: {
      R.log("status '%.80s'", p.c_str());
      // something stale on the stack
      struct Both {
        file::file_status a;
      };
      file::file_status st;
      op([&] { st = file::status(f, ec); });
      check_query("status", natural, n);
      static enum file::file_type const types[] = {file::file_type::regular, file::file_type::directory, file::file_type::symlink, file::file_type::fifo,
                                                   file::file_type::socket,  file::file_type::character, file::file_type::block};
      static unsigned const fmt[]               = {S_IFREG, S_IFDIR, S_IFLNK, S_IFIFO, S_IFSOCK, S_IFCHR, S_IFBLK};
      if (!ec) {
        uintmax_t size = n->type == vfs::DIRECTORY ? 4096 : n->lie >= 0 ? n->lie : n->text().size();
        if (st.type() != types[n->type] || st.mode() != (fmt[n->type] | n->mode) || file::file_size(st) != size) {
          R.fail("status", "status of '%s' is type %d mode %o size %lu, not type %d mode %o size %lu", p.c_str(), static_cast<int>(st.type()), st.mode(),
                 static_cast<unsigned long>(file::file_size(st)), static_cast<int>(types[n->type]), fmt[n->type] | n->mode, static_cast<unsigned long>(size));
        }
        if (file::last_write_time(st) != tp(n->mtime) || file::access_time(st) != tp(n->atime) || file::status_time(st) != tp(n->ctime)) {
          R.fail("time", "a time stamp of '%s' differs (modified %ld.%09ld accessed %ld.%09ld changed %ld.%09ld)", p.c_str(), n->mtime.tv_sec,
                 n->mtime.tv_nsec, n->atime.tv_sec, n->atime.tv_nsec, n->ctime.tv_sec, n->ctime.tv_nsec);
        }
        if (file::is_regular_file(st) != (n->type == vfs::REG) || file::is_dir(st) != (n->type == vfs::DIRECTORY) ||
            file::is_char_device(st) != (n->type == vfs::CHARDEV) || file::is_block_device(st) != (n->type == vfs::BLOCKDEV) || !file::exists(st)) {
          R.fail("type", "type predicates of '%s' disagree with its type", p.c_str());
        }
      } else {
        bool missing = ec.value() == ENOENT;
        if (st.type() != (missing ? file::file_type::not_found : file::file_type::none)) {
          R.fail("failure-value", "failed status (error %d) has type %d", ec.value(), static_cast<int>(st.type()));
        }
        if (file::is_regular_file(st) || file::is_dir(st) || file::is_char_device(st) || file::is_block_device(st) || file::exists(st)) {
          R.fail("failure-value", "failed status says the file exists");
        }
        auto stale32 = [](uint32_t v) { return v == 0xa5a5a5a5u || v == 0x5a5a5a5au; };
        auto stale64 = [&](uint64_t v) { return stale32(v) && stale32(v >> 32); };
        if (stale32(st.mode()) || stale64(file::file_size(st))) {
          R.fail("stale", "failed status (error %d) returns data left over in memory: mode %o size %lx", ec.value(), st.mode(),
                 static_cast<unsigned long>(file::file_size(st)));
        }
      }
      break;
    }
    case 2: {
      R.log("exists / readable '%.80s'", p.c_str());
      bool e = false;
      op([&] { e = file::exists(f); });
      if (e != (n != nullptr) && !(k.hard && !e)) {
        R.fail("exists", "exists('%s') is %s", p.c_str(), e ? "true" : "false");
      }
      bool r = false;
      op([&] { r = file::is_readable(f); });
      if (r != (n && k.may(*n, 4)) && !(k.hard && !r)) {
        R.fail("readable", "is_readable('%s') is %s", p.c_str(), r ? "true" : "false");
      }
      break;
    }
    case 3: {
      R.log("last_write_time '%.80s'", p.c_str());
      file::file_time_type t;
      op([&] { t = file::last_write_time(f, ec); });
      check_query("last_write_time", natural, n);
      if (ec ? t != file::file_time_type::min() : t != tp(n->mtime)) {
        R.fail("time", "last_write_time of '%s' is wrong (%ld.%09ld)", p.c_str(), n ? n->mtime.tv_sec : 0, n ? n->mtime.tv_nsec : 0);
      }
      break;
    }
    case 4: {
      R.log("absolute '%.80s'", p.c_str());
      file::path a;
      op([&] { a = file::absolute(f, ec); });
      if (natural == -EACCES) { // walking the path may need less permission
        break;
      }
      if (!p.empty() && p[0] == '/') {
        if (ec || a.string() != p) {
          R.fail("absolute", "absolute of '%s' is '%s', error %d", p.c_str(), a.c_str(), ec.value());
        }
        break;
      }
      check_query("absolute", natural, n, true, {ENOENT, EINVAL, ENAMETOOLONG, ELOOP, ENOTDIR});
      if (!ec) {
        auto x = k.resolve(k.root, a.string(), true);
        if (a.string()[0] != '/' || x.err || x.ino != w.ino) {
          R.fail("absolute", "absolute of '%s' is '%s' which is something else", p.c_str(), a.c_str());
        }
      } else if (!a.empty()) {
        R.fail("failure-value", "absolute failed with error %d but returned '%s'", ec.value(), a.c_str());
      }
      break;
    }
    case 5: {
      R.log("canonical '%.80s'", p.c_str());
      file::path a;
      op([&] { a = file::canonical(f, ec); });
      if (natural == -EACCES) { // walking the path may need less permission
        break;
      }
      check_query("canonical", natural, n, true, {ENOENT, EINVAL, ENAMETOOLONG, ELOOP, ENOTDIR});
      if (!ec) {
        std::string want = n->type == vfs::DIRECTORY ? k.path_of(w.ino) : (w.dir == k.root ? "/" : k.path_of(w.dir) + "/") + w.name;
        if (a.string() != want) {
          R.fail("canonical", "canonical of '%s' is '%s', not '%s'", p.c_str(), a.c_str(), want.c_str());
        }
      } else if (!a.empty()) {
        R.fail("failure-value", "canonical failed with error %d but returned '%s'", ec.value(), a.c_str());
      }
      break;
    }
    case 6: {
      R.log("current_path");
      file::path a;
      op([&] { a = file::current_path(); });
      std::string want = k.path_of(k.cwd);
      if (a.string() != want && !(a.empty() && (k.hard || want.empty() || want.size() >= 4096))) {
        R.fail("current", "current_path is '%.200s', not '%.200s'", a.c_str(), want.c_str());
      }
      break;
    }
    }
    check_untouched(before, "query", {}, {});
  }
  void
  check_query(char const *what, long natural, Node const *n, bool path_walk = false, std::initializer_list<int> also = {})
  {
    if (!ec && !n) {
      R.fail("success", "%s of something that can not be reached (%s) reported no error", what, strerrorname_np(-natural));
    }
    if (ec) {
      check_error(what, also);
      if (n && k.hard == 0) {
        bool ok = false;
        if (path_walk && k.uid != 0) {
          ok = true; // may need more permission than access itself.
        }
        if (!ok) {
          R.fail("stale-error", "%s succeeded but reports error %d (%s)", what, ec.value(), ec.message().c_str());
        }
      }
      if (!n && k.hard == 0 && !path_walk && ec.value() != -natural) {
        R.fail("wrong-error", "%s reports error %d, the system call %ld", what, ec.value(), -natural);
      }
    }
    R.count("queries verified");
  }

  // ------------------------------------------------------------------ descriptors
  void
  check_fds(std::map<int, std::shared_ptr<vfs::Open>> const &before, char const *what)
  {
    for (auto &m : k.misuse) {
      R.fail("descriptor-misuse", "%s: %s", what, m.c_str());
    }
    for (auto &[fd, o] : k.fds) {
      if (!before.count(fd)) {
        R.fail("descriptor-leak", "%s left descriptor %d open", what, fd);
      }
    }
    for (auto &[fd, o] : before) {
      auto s = k.fds.find(fd);
      if (s == k.fds.end() || s->second != o) {
        R.fail("descriptor-closed", "%s closed descriptor %d of the application", what, fd);
      }
    }
  }
};

constexpr unsigned DATA = vfs::F_SHORT | vfs::F_EINTR | vfs::F_READ | vfs::F_WRITE | vfs::F_OPEN | vfs::F_STAT | vfs::F_CLOSE | vfs::F_SPACE | vfs::F_TRUNC;
constexpr unsigned TREE = vfs::F_SHORT | vfs::F_OPEN | vfs::F_STAT | vfs::F_DIRENT | vfs::F_LIST | vfs::F_CLOSE;
constexpr unsigned ALL  = 0xffff;

void
run_copy(Run &R)
{
  World w(R, DATA);
  while (R.more(5, 40)) {
    w.copy();
  }
}
void
run_load(Run &R)
{
  World w(R, DATA);
  while (R.more(6, 40)) {
    w.load();
    if (R.one_in(4)) {
      w.add_entry();
    }
  }
}
void
run_remove_all(Run &R)
{
  World w(R, TREE, true, true, false);
  if (R.one_in(30)) { // a directory with many entries
    Ino d      = R.of(w.dirs);
    unsigned n = 40 + R.pick(160);
    R.log("%u more entries in directory %lu", n, static_cast<unsigned long>(d));
    for (unsigned i = 0; i < n; ++i) {
      w.k.make(d, "n" + std::to_string(i), R.one_in(8) ? vfs::DIRECTORY : vfs::REG, R.one_in(30) ? 0 : 0755);
    }
  }
  while (R.more(4, 40)) {
    w.remove_all(true);
    unsigned n = R.pick(8);
    for (unsigned i = 0; i < n; ++i) {
      w.dirs.erase(std::remove_if(w.dirs.begin(), w.dirs.end(), [&](Ino d) { return !w.k.find(d) || w.k.path_of(d).empty(); }), w.dirs.end());
      if (w.dirs.empty()) {
        return;
      }
      w.add_entry();
    }
  }
}
void
run_remove(Run &R)
{
  World w(R, TREE, true, true, false);
  while (R.more(8, 60)) {
    w.remove();
    w.dirs.erase(std::remove_if(w.dirs.begin(), w.dirs.end(), [&](Ino d) { return !w.k.find(d) || w.k.path_of(d).empty(); }), w.dirs.end());
    if (w.dirs.empty()) {
      return;
    }
    if (R.coin()) {
      w.add_entry();
    }
  }
}
void
run_create(Run &R)
{
  World w(R, TREE, true, true, false);
  while (R.more(6, 40)) {
    w.create(true);
  }
}
void
run_query(Run &R)
{
  World w(R, vfs::F_STAT | vfs::F_PATH | vfs::F_OPEN | vfs::F_LIST, true, true, false);
  if (R.one_in(8)) { // working directory gone
    Ino d = w.k.make(w.k.root, "gone", vfs::DIRECTORY, 0755);
    w.k.cwd = d;
    w.k.own(w.k.root).ents.erase("gone");
    w.k.own(d).nlink = 0;
  } else if (R.one_in(8)) { // very deep
    Ino d = w.k.root;
    unsigned n = 14 + R.pick(6);
    for (unsigned i = 0; i < n; ++i) {
      d = w.k.make(d, std::string(200 + R.pick(55), 'd'), vfs::DIRECTORY, 0755);
    }
    w.k.cwd = d;
  }
  while (R.more(10, 60)) {
    w.query();
    if (R.one_in(4)) {
      w.add_entry();
    }
  }
}

void
run_hygiene(Run &R)
{
  World w(R, ALL, true, true, true);
  auto &k = w.k;
  std::map<int, std::shared_ptr<vfs::Open>> app;
  if (R.coin()) { // descriptors of the application
    unsigned n = 1 + R.pick(3);
    for (unsigned i = 0; i < n; ++i) {
      auto o = std::make_shared<vfs::Open>();
      o->ino = k.root;
      k.alloc_fd(o);
    }
    app = k.fds;
  }
  if (R.one_in(5)) {
    k.fd_limit = k.fd_base + k.fds.size() + R.pick(3);
  }
  while (R.more(6, 40)) {
    long live = g_ledger.live;
    bool fail_alloc = R.one_in(3);
    auto arm        = [&] {
      if (fail_alloc) {
        w.alloc_fault = R.pick(6);
      }
    };
    char const *what = "";
    std::string p = w.pick_path(), q = w.pick_path();
    switch (R.pick(9)) {
    case 0:
    case 1: {
      auto plan = w.plan_copy(k, p, q);
      if (plan.skip) {
        break;
      }
      what = "copy";
      R.log("copy '%.80s' to '%.80s'", p.c_str(), q.c_str());
      file::path f(p), t(q);
      arm();
      w.op([&] { file::copy(f, t, w.ec); });
      break;
    }
    case 2: {
      auto x = k.resolve(k.cwd, p, true);
      if (!x.err && x.ino && (k.node(x.ino).type == vfs::FIFO || k.node(x.ino).type == vfs::BLOCKDEV)) {
        break;
      }
      what = "load";
      R.log("load '%.80s'", p.c_str());
      file::path f(p);
      arm();
      w.op([&] { std::string s = file::load(f, w.ec); });
      break;
    }
    case 3:
    case 4: {
      auto x = k.resolve(k.cwd, p.empty() ? "\x01" : p, false);
      if (w.odd_target(p, x)) {
        break;
      }
      what = "remove_all";
      R.log("remove_all '%.80s'", p.c_str());
      file::path f(p);
      arm();
      w.op([&] { file::remove_all(f, w.ec); });
      break;
    }
    case 5: {
      what = "create_directories";
      R.log("create_directories '%.80s'", p.c_str());
      file::path f(p);
      w.op([&] { file::create_directories(f, w.ec); });
      break;
    }
    case 6: {
      what = "query";
      R.log("canonical, absolute, status '%.80s'", p.c_str());
      file::path f(p);
      arm();
      unsigned c = R.pick(4);
      w.op([&] {
        switch (c) {
        case 0: {
          auto z = file::canonical(f, w.ec);
          break;
        }
        case 1: {
          auto z = file::absolute(f, w.ec);
          break;
        }
        case 2: {
          auto z = file::current_path();
          break;
        }
        default:
          file::status(f, w.ec);
        }
      });
      break;
    }
    case 7: { // the scoped descriptor
      what       = "unique_fd";
      unsigned c = R.pick(5);
      R.log("unique_fd %u", c);
      Ino root = k.root;
      int kept = -1;
      w.op([&] {
        file::unique_fd a{::open("/", O_RDONLY)};
        switch (c) {
        case 0:
          break;
        case 1: {
          file::unique_fd b{std::move(a)};
          break;
        }
        case 2: {
          file::unique_fd b{std::move(a)};
          file::unique_fd d{std::move(b)};
          file::unique_fd e{::open("/", O_RDONLY)};
          break;
        }
        case 3:
          kept = a.release();
          break;
        case 4: {
          try {
            file::unique_fd c2{::open("/", O_RDONLY)};
            file::unique_fd none{file::NO_FD};
            file::unique_fd b{std::move(none)};
            throw Injected{1};
          } catch (Injected const &) {
          }
        }
        }
      });
      (void)root;
      if (kept >= 0) {
        if (!k.fds.count(kept)) {
          R.fail("descriptor-closed", "a released descriptor was closed");
        }
        k.fds.erase(kept);
      }
      break;
    }
    case 8: {
      what = "remove";
      auto x = k.resolve(k.cwd, p.empty() ? "\x01" : p, false);
      if (w.odd_target(p, x)) {
        break;
      }
      R.log("remove '%.80s'", p.c_str());
      file::path f(p);
      w.op([&] { file::remove(f, w.ec); });
      break;
    }
    }
    w.alloc_fault = -1;
    w.check_fds(app, what);
    if (g_ledger.live > live && !g_ledger.overflow && false) {
      R.fail("leak", "%s kept %ld allocations", what, g_ledger.live - live);
    }
    w.dirs.erase(std::remove_if(w.dirs.begin(), w.dirs.end(), [&](Ino d) { return !k.find(d) || k.path_of(d).empty(); }), w.dirs.end());
    if (w.dirs.empty()) {
      return;
    }
    if (!k.find(k.cwd) || k.path_of(k.cwd).empty()) {
      k.cwd = k.root;
    }
    if (R.coin()) {
      w.add_entry();
    }
    k.begin();
  }
}

// ---- crash and run again
void
run_crash(Run &R)
{
  World w(R, ALL, false, false, true);
  auto &k = w.k;
  while (R.more(4, 20)) {
    w.dirs.erase(std::remove_if(w.dirs.begin(), w.dirs.end(), [&](Ino d) { return !k.find(d) || k.path_of(d).empty(); }), w.dirs.end());
    if (w.dirs.empty() || !k.find(k.cwd) || k.path_of(k.cwd).empty()) {
      return;
    }
    unsigned n = R.pick(4);
    for (unsigned i = 0; i < n; ++i) {
      w.add_entry();
    }
    unsigned which = R.pick(4);
    std::string p = w.pick_path(), q = w.pick_path();
    std::function<bool(std::error_code &)> f;
    Kernel before(k), ref(k);
    auto x  = k.resolve(k.cwd, p.empty() ? "\x01" : p, false);
    Ino top = !p.empty() && !x.err ? x.ino : 0;
    World::CopyPlan plan;
    file::path a(p), b(q);
    std::set<Ino> ex;
    std::set<std::pair<Ino, std::string>> exe;
    if (which == 0) {
      plan = w.plan_copy(k, p, q);
      if (plan.skip || !plan.ok || plan.same) {
        continue;
      }
      f = [&](std::error_code &ec) { return file::copy(a, b, ec); };
      R.log("copy '%.80s' to '%.80s'", p.c_str(), q.c_str());
    } else if (which == 1) {
      std::vector<Ino> sub;
      w.subtree(k, top, sub);
      if (w.odd_target(p, x) || !top || w.through(p, std::set<Ino>(sub.begin(), sub.end()))) {
        continue;
      }
      f = [&](std::error_code &ec) {
        file::remove_all(a, ec);
        return !ec || ec.value() == ENOENT;
      };
      R.log("remove_all '%.80s'", p.c_str());
    } else if (which == 2) {
      unsigned ext = 1 + R.pick(4);
      for (unsigned i = 0; i < ext; ++i) {
        p += "/" + w.name();
      }
      a = file::path(p);
      f = [&](std::error_code &ec) { return file::create_directories(a, ec); };
      R.log("create_directories '%.100s'", p.c_str());
    } else {
      if (w.odd_target(p, x) || !top) {
        continue;
      }
      f = [&](std::error_code &ec) { return file::remove(a, ec) || ec.value() == ENOENT; };
      R.log("remove '%.80s'", p.c_str());
    }
    // Uninterrupted run, on a copy of the file system.
    bool ref_ok = false;
    ref.begin();
    std::error_code ref_ec;
    vfs::call(ref, [&] { ref_ok = f(ref_ec); });
    long calls = ref.calls;
    if (!ref_ok) {
      continue; // judged by the other properties
    }
    std::string want = ref.dump(ref.root);
    // With crashes, each at any point of the operation.
    unsigned crashes = 1 + R.pick(3);
    bool done        = false;
    for (unsigned c = 0; c < crashes && !done; ++c) {
      k.crash_at    = 1 + R.pick(calls + 1);
      k.crash_after = R.coin();
      w.cfg         = R.coin() ? SOFT : QUIET;
      bool ok       = false;
      k.pct         = 0;
      w.op([&] { ok = f(w.ec); });
      k.crash_at = -1;
      if (w.died) {
        k.fds.clear();
        // orphans of the dead process
        std::set<Ino> reach;
        std::vector<Ino> all;
        w.subtree(k, k.root, all);
        reach.insert(all.begin(), all.end());
        for (auto s = k.nodes.begin(); s != k.nodes.end();) {
          s = reach.count(s->first) || s->first == k.cwd ? std::next(s) : k.nodes.erase(s);
        }
        ledger_reset();
      } else {
        done = ok;
      }
      // What the operation was not asked to change is as before.
      ex.clear();
      exe.clear();
      if (which == 0) {
        auto d = k.resolve(k.cwd, plan.final_to, true);
        if (plan.dst) {
          ex.insert(plan.dst);
        }
        if (!d.err && d.ino) {
          ex.insert(d.ino);
        }
        exe.insert({plan.dir, plan.name});
        // Besides the destination, a temporary file is acceptable in its directory only if it is gone after the rerun.
        w.check_untouched(before, "interrupted copy", ex, exe);
      } else if (which == 1 || which == 3) {
        std::vector<Ino> sub;
        w.subtree(before, top, sub);
        for (auto i : sub) {
          if (before.node(i).type == vfs::DIRECTORY || !k.find(i)) {
            ex.insert(i);
          }
        }
        exe.insert({x.dir, x.name});
        w.check_untouched(before, "interrupted removal", ex, exe, true);
      } else {
        for (auto &[i, nd] : k.nodes) {
          if (!before.find(i)) {
            ex.insert(i);
            for (auto &e : k.node(nd->parent).ents) {
              if (e.second == i) {
                exe.insert({nd->parent, e.first});
              }
            }
            if (!ref.dump(ref.root).empty() && nd->type != vfs::DIRECTORY) {
              R.fail("collateral", "interrupted directory creation left something that is not a directory");
            }
          }
        }
        w.check_untouched(before, "interrupted directory creation", ex, exe);
      }
    }
    // Restart, without faults.
    w.cfg   = QUIET;
    bool ok = false;
    w.op([&] { ok = f(w.ec); });
    if (!ok) {
      R.fail("rerun", "after a crash the operation fails with error %d (%s), an uninterrupted run succeeds", w.ec.value(), w.ec.message().c_str());
    }
    if (k.dump(k.root) != want) {
      std::string a1 = k.dump(k.root);
      size_t i       = 0;
      while (i < a1.size() && i < want.size() && a1[i] == want[i]) {
        ++i;
      }
      i = a1.rfind('\n', i);
      i = i == std::string::npos ? 0 : i;
      R.fail("rerun", "after a crash and a new run the file system differs from an uninterrupted run: has '%.100s' for '%.100s'", a1.substr(i).c_str(),
             want.substr(std::min(i, want.size())).c_str());
    }
    R.count("crash histories verified");
  }
}

// ------------------------------------------------------------------ paths
/// Programs that find their way by path arithmetic. Each path is compared to its text and to where the
/// simulated kernel leads with it.
struct Walk {
  static constexpr unsigned N = 4;
  Run &R;
  World w;
  file::path at[N];
  std::string is[N]; // model

  explicit Walk(Run &r) : R(r), w(r, ~0u, true) {}

  static std::string
  join(std::string const &a, std::string const &b)
  {
    if (b.empty()) return a;
    if (a.empty() || b[0] == '/') return b;
    return a.back() == '/' ? a + b : a + "/" + b;
  }
  static std::string
  no_slash(std::string s)
  {
    while (s.size() > 1 && s.back() == '/') s.pop_back();
    return s;
  }
  std::string
  piece()
  {
    switch (R.pick(8)) {
    case 0: return "";
    case 1: return "/";
    case 2: return w.name();
    case 3: return w.name() + "/";
    case 4: return "/" + w.name() + "/" + w.name();
    case 5: return std::string(1 + R.pick(3), '/') + w.name() + std::string(R.pick(3), '/') + w.name();
    case 6: return "../" + std::string(R.pick(40), 'l');
    default: return w.pick_path();
    }
  }
  /// Change a path, perhaps without memory. Nothing has changed if it fails.
  template <typename F>
  void
  change(char const *op, unsigned i, std::string const &want, bool fresh, F const &f)
  {
    bool armed = w.cfg != QUIET && R.one_in(5), bad = false;
    auto fd    = [&] { R.log("%s: path %u is '%.90s'", op, i, bad ? is[i].c_str() : want.c_str()); };
    if (armed) R.arm_alloc(R.pick(3), R.coin());
    try {
      R.sut(f);
    } catch (std::bad_alloc const &) {
      bad = true;
    }
    if (R.disarm_alloc()) R.fault("alloc");
    else if (bad) R.fail("exception", "%s ran out of memory without cause", op);
    if (!bad) is[i] = want;
    else if (fresh) at[i] = file::path(is[i] = "after"); // moved from, perhaps
    fd();
    R.count(bad ? "changes without memory" : "changes");
  }
  void
  check(unsigned i, char const *op)
  {
    file::path const &p  = at[i];
    std::string const &s = is[i];
    if (p.string() != s || p.c_str() != s || p.view() != s || p.empty() != s.empty()) R.fail("path", "after '%s' the path is '%s' instead of '%s'", op, p.c_str(), s.c_str());
    bool abs = !s.empty() && s[0] == '/';
    if (p.is_absolute() != abs || p.is_relative() == abs) R.fail("path", "'%s' is taken for %s path", s.c_str(), abs ? "a relative" : "an absolute");
    unsigned j = R.pick(N);
    bool eq    = is[j] == s;
    if ((p == at[j]) != eq || (p != at[j]) == eq || (eq && std::hash<file::path>()(p) != std::hash<file::path>()(at[j])))
      R.fail("equality", "'%s' and '%s' are%s equal", s.c_str(), is[j].c_str(), eq ? " not" : "");
    // parts
    std::string up, in, rel, text;
    R.sut([&] {
      file::path a = p.parent_path(), b = p.filename(), c = p.relative_path();
      HostScope h;
      up = a.string(), in = b.string(), rel = c.string();
    });
    size_t k  = s.rfind('/');
    auto want = k == std::string::npos ? std::string() : k == 0 ? std::string("/") : s.substr(0, k);
    if (no_slash(up) != no_slash(want)) R.fail("parent", "the parent of '%s' is '%s' instead of '%s'", s.c_str(), up.c_str(), want.c_str());
    want = s.substr(k == std::string::npos ? 0 : k + 1);
    if (in != want) R.fail("name", "the file name of '%s' is '%s' instead of '%s'", s.c_str(), in.c_str(), want.c_str());
    want = s.substr(std::min(s.size(), s.find_first_not_of('/')));
    if (rel != want) R.fail("relative", "the relative path of '%s' is '%s' instead of '%s'", s.c_str(), rel.c_str(), want.c_str());
    R.sut([&] { swoc::bwprint(text, "<{}>", p); });
    if (text != "<" + s + ">") R.fail("text", "the path '%s' is written as '%s'", s.c_str(), text.c_str());
    // where they lead
    Kernel &kk = w.k;
    auto to    = kk.resolve(kk.cwd, s, false);
    if (!s.empty() && s.back() != '/' && want.find_first_not_of('/') != std::string::npos && !to.err && !to.dot) {
      Ino dir = up.empty() ? kk.cwd : kk.resolve(kk.cwd, up, true).ino;
      if (dir != to.dir || in != to.name) R.fail("leads", "'%s' is '%s' in directory %lu but its parent path '%s' leads to %lu and its file name is '%s'", s.c_str(), to.name.c_str(), (unsigned long)to.dir, up.c_str(), (unsigned long)dir, in.c_str());
      R.count("entries found again by parent and name");
    }
    if (abs) {
      auto sub = kk.resolve(kk.root, rel.empty() ? "." : rel, false);
      if (sub.err != to.err || sub.ino != to.ino || (!rel.empty() && rel[0] == '/')) R.fail("leads", "'%s' leads to %lu, from the root its relative path '%s' leads to %lu", s.c_str(), (unsigned long)to.ino, rel.c_str(), (unsigned long)sub.ino);
    }
    R.state(mix(mix(s.size(), to.ino), mix(up.size(), to.err)));
  }
  void
  step()
  {
    unsigned i = R.pick(N), j = R.pick(N);
    char const *op;
    std::string t = piece();
    std::unique_ptr<char[]> exact(new char[t.size() + 1]); // nothing around it
    memcpy(exact.get(), t.c_str(), t.size() + 1);
    std::unique_ptr<char[]> raw(new char[t.size()]);
    memcpy(raw.get(), t.data(), t.size());
    std::string_view v(raw.get(), t.size());
    switch (R.pick(14)) {
    case 0:
      op = "assign a view";
      change(op, i, t, false, [&] { at[i] = v; });
      break;
    case 1:
      op = "assign a string";
      change(op, i, t, false, [&] { at[i] = t; });
      break;
    case 2:
      op = "assign a C string";
      change(op, i, t, false, [&] { at[i] = static_cast<char const *>(exact.get()); });
      break;
    case 3:
      op = "take a string";
      change(op, i, t, false, [&] { std::string x(t); at[i] = std::move(x); });
      break;
    case 4:
      op = "make a path";
      change(op, i, t, false, [&] {
        switch (t.size() % 3) {
        case 0: at[i] = file::path(v); break;
        case 1: at[i] = file::path(static_cast<char const *>(exact.get())); break;
        default: at[i] = file::path(std::string(t));
        }
      });
      break;
    case 5:
      op = "copy a path";
      change(op, i, is[j], false, [&] { at[i] = at[j]; });
      break;
    case 6:
      op = "move a path";
      if (i != j) {
        R.sut([&] { at[i] = std::move(at[j]); });
        is[i] = is[j];
        at[j] = is[j] = "moved";
        R.log("%s: path %u is '%.90s'", op, i, is[i].c_str());
      }
      break;
    case 7:
      op = "append text";
      change(op, i, join(is[i], t), false, [&] { at[i] /= v; });
      break;
    case 8:
      op = "append a path"; // perhaps itself
      change(op, i, join(is[i], is[j]), false, [&] { at[i] /= at[j]; });
      break;
    case 9: {
      op        = "append a part of a path"; // perhaps of itself
      size_t a  = R.pick(is[j].size() + 1), n = R.pick(is[j].size() - a + 1);
      change(op, i, join(is[i], is[j].substr(a, n)), false, [&] { at[i] /= std::string_view(at[j].view().data() + a, n); });
    } break;
    case 10: {
      op         = "combine paths";
      unsigned l = R.pick(N);
      change(op, i, join(is[l], is[j]), false, [&] { at[i] = at[l] / at[j]; });
    } break;
    case 11: {
      op         = "combine a path and text";
      unsigned l = R.pick(N);
      bool c     = R.coin();
      change(op, i, join(is[l], t), false, [&] { c ? at[i] = at[l] / v : at[i] = file::path(at[l]) / v; });
    } break;
    case 12:
      op = "extend a temporary path";
      if (i != j) change(op, i, join(is[i], is[j]), true, [&] { at[i] = std::move(at[i]) / at[j]; });
      break;
    default: {
      op         = "step";
      unsigned n = R.pick(100);
      switch (R.pick(4)) {
      case 0: change("go up", i, std::string(at[j].parent_path().string()), false, [&] { at[i] = at[j].parent_path(); }); break;
      case 1: change("go to the name", i, std::string(at[j].filename().string()), false, [&] { at[i] = at[j].filename(); }); break;
      case 2: change("go to the relative path", i, std::string(at[j].relative_path().string()), false, [&] { at[i] = at[j].relative_path(); }); break;
      default: change("reserve", i, is[i], false, [&] { at[i].reserve(n); });
      }
    }
    }
    for (unsigned x = 0; x < N; ++x) check(x, op);
    // Use it: what the library finds there is what the kernel has there.
    if (R.one_in(3)) {
      Kernel &kk = w.k;
      auto to    = kk.resolve(kk.cwd, is[i], true);
      file::file_status st;
      R.log("use '%.90s'", is[i].c_str());
      w.op([&] { st = file::status(at[i], w.ec); });
      if (!w.ec && !kk.hard && (to.err || !to.ino)) R.fail("status", "'%s' exists by its path", is[i].c_str());
      if (w.ec && !kk.hard && !w.no_memory && !to.err && to.ino) R.fail("status", "'%s' exists but status reports error %d", is[i].c_str(), w.ec.value());
      if (R.one_in(3) && !to.err && to.ino) { // write beside it
        std::string nm = "tmp" + std::to_string(R.pick(50));
        bool ok = false;
        auto place = kk.resolve(kk.cwd, is[i], false);
        if (!place.dot && !place.name.empty() && is[i].back() != '/' && kk.find(place.dir) && !kk.node(place.dir).ents.count(nm)) {
          Ino dir = place.dir;
          w.op([&] { ok = file::create_directory(at[i].parent_path() / std::string_view(nm), w.ec, 0755); });
          if (ok && !kk.node(dir).ents.count(nm)) R.fail("leads", "the directory '%s' beside '%s' was created elsewhere", nm.c_str(), is[i].c_str());
          if (ok) R.count("entries made beside another");
        }
      }
    }
    R.step();
  }
};

void
run_walk(Run &R)
{
  Walk w(R);
  for (unsigned i = 0; i < Walk::N; ++i) {
    w.is[i] = w.piece();
    w.at[i] = file::path(w.is[i]);
  }
  while (R.more(25, 120)) {
    R.mark();
    w.step();
  }
  R.nontrivial();
}

std::vector<char const *> const REAL = {"code/src/swoc_file.cc", "code/include/swoc/swoc_file.h", "the C library above the system call"};
std::vector<char const *> const STUB = {"kernel and disk (in-memory file system answering trapped system calls)", "other processes (turns between system calls)",
                                        "process death (jump out of the system call)", "clock"};
std::vector<char const *> const ASSUME = {"process death keeps what completed system calls did (page cache survives); power loss is not simulated",
                                          "the simulated kernel follows Linux semantics for the calls used, as documented in sim/vfs.cc"};
char const *const RULE = "random directory tree (files, directories, links, devices, hard links, odd permissions, false sizes), random operations on random paths; "
                         "fault mix per run: none, only short and interrupted transfers, one error at a random system call, or random errors; "
                         "non-trivial: at least one operation reached the simulated kernel";
char const *const MEASURE = "hash of the errors delivered in an operation, its number of system calls and its result";

Register f01({"F01", run_copy, RULE, MEASURE, REAL, STUB, ASSUME});
Register f02({"F02", run_load, RULE, MEASURE, REAL, STUB, ASSUME});
Register f03({"F03", run_remove_all, RULE, MEASURE, REAL, STUB, ASSUME});
Register f04({"F04", run_remove, RULE, MEASURE, REAL, STUB, ASSUME});
Register f05({"F05", run_create, RULE, MEASURE, REAL, STUB, ASSUME});
Register f06({"F06", run_query, RULE, MEASURE, REAL, STUB, ASSUME});
Register f07({"F07", run_hygiene, RULE, MEASURE, REAL, STUB, ASSUME});
Register f09({"F09", run_walk, RULE, MEASURE, REAL, STUB, ASSUME});
Register f08({"F08", run_crash, RULE, MEASURE, REAL, STUB, ASSUME, false});
} // namespace

// Simulated kernel for file operations: answers every system call the library makes.
#pragma once
#include "sim.h"
#include <csetjmp>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/stat.h>
#include <vector>

namespace vfs {
using Ino = uint64_t;

enum Type { REG, DIRECTORY, LINK, FIFO, SOCKET, CHARDEV, BLOCKDEV };

struct Node {
  Ino ino = 0;
  Type type = REG;
  unsigned mode = 0644;
  unsigned uid = 1000;
  std::shared_ptr<std::string> data; ///< file content, link target.
  std::map<std::string, Ino> ents;   ///< directory
  Ino parent = 0;                    ///< directory
  unsigned nlink = 1;
  timespec atime{}, mtime{}, ctime{};
  long lie = -1; ///< reported size, if not the real one.
  std::string const &
  text() const
  {
    static std::string const empty;
    return data ? *data : empty;
  }
};

struct Open {
  Ino ino;
  long pos = 0;
  int flags = 0;
  bool listed = false;
  bool dirty  = false;                 ///< written, not known to be stored.
  std::shared_ptr<std::string> stored; ///< content when opened.
  std::vector<std::pair<std::string, Ino>> list;
};

/// Every effect the process under test had on the file system.
struct Effect {
  enum What { CREATE, REMOVE, WRITE, META } what;
  Ino ino;          ///< subject
  Ino dir;          ///< directory for create / remove.
  std::string name; ///< entry for create / remove.
};

struct Delivered {
  long nr;
  int err;
  bool injected;
  bool soft; ///< interruption, must be handled
  std::string path;
};

enum FaultKind : unsigned {
  F_SHORT = 1,   ///< short reads and writes
  F_EINTR = 2,   ///< interrupted reads and writes
  F_READ = 4,    ///< read errors
  F_WRITE = 8,   ///< write errors
  F_OPEN = 16,   ///< open errors
  F_STAT = 32,   ///< stat errors
  F_DIRENT = 64, ///< mkdir, rmdir, unlink, rename errors
  F_LIST = 128,  ///< getdents errors
  F_CLOSE = 256, ///< errors on close, descriptor is gone anyway
  F_PATH = 512,  ///< readlink, getcwd, access errors
  F_SPACE = 1024, ///< the disk becomes full
  F_TRUNC = 2048, ///< truncate / chmod errors
};

struct Kernel {
  sim::Run *R;
  std::map<Ino, std::shared_ptr<Node>> nodes;
  Ino next_ino = 10;
  Ino root = 1, cwd = 1;
  unsigned umask = 022;
  unsigned uid = 0; ///< 0 is privileged.
  long fd_base = 3;
  long fd_limit = 64;
  std::map<int, std::shared_ptr<Open>> fds;
  timespec now{1700000000, 5};

  // configuration
  unsigned kinds = 0;    ///< enabled fault kinds
  unsigned pct = 0;      ///< probability of a fault at each point
  long fault_at = -1;    ///< one fault at this system call
  long space = -1;       ///< bytes of space left, negative is unlimited
  unsigned chunk = 0;    ///< most bytes a read or write transfers, 0 is no limit
  bool dt_unknown = false;
  bool list_live = false;
  unsigned order = 0; ///< directory order
  bool active = false;
  long crash_at = -1;  ///< process dies at this system call
  bool crash_after = false;
  sigjmp_buf *crash = nullptr;
  void (*actor)(Kernel &, void *) = nullptr; ///< other process, gets a turn before each call.
  void *actor_ctx = nullptr;
  bool in_actor = false;
  int fault_kinds_fired = 0;

  // history
  long calls = 0;
  long hard = 0; ///< errors injected that the library must report
  long soft = 0;
  unsigned removed = 0; ///< entries deleted by the process under test
  std::vector<Delivered> delivered;
  std::vector<Effect> effects;
  std::vector<std::string> misuse; ///< bad use of descriptors.

  explicit Kernel(sim::Run *r);
  Kernel(Kernel const &that); ///< clone of the file system and settings, no descriptors
  Node &node(Ino i) { return *nodes.at(i); }
  Node &own(Ino i); ///< for change
  Node const *find(Ino i) const
  {
    auto s = nodes.find(i);
    return s == nodes.end() ? nullptr : s->second.get();
  }

  // building
  Ino make(Ino dir, std::string const &name, Type t, unsigned mode, std::string const &content = "");

  /// Resolve a path. negative errno if not found.
  struct Where {
    long err = 0;
    Ino dir = 0;      ///< directory of the final component
    Ino ino = 0;      ///< 0 if the final component does not exist
    std::string name; ///< final component.
    bool slash = false;
    bool dot = false; ///< final component is . or ..
  };
  std::set<Ino> *walked = nullptr; ///< if set, collects what a path goes through.
  Where resolve(Ino base, std::string const &path, bool follow, int depth = 0);
  bool may(Node const &n, unsigned bits) const;
  std::string path_of(Ino dir) const;

  // state comparison
  std::string dump(Ino top, bool with_mode = true) const;

  void begin(); ///< clear history
  long syscall(long nr, long const *a);
  long dispatch(long nr, long const *a);
  void touch(Ino i, bool m);
  void drop(Ino i);

  long do_open(long base, char const *path, int flags, unsigned mode);
  long do_stat(Ino ino, struct stat *st);
  long unlink_at(long base, char const *p, bool dir);
  long mkdir_at(long base, char const *p, unsigned mode);
  int alloc_fd(std::shared_ptr<Open> o, int min = -1);
  Ino base_of(long fd, long &err);
  int inject(unsigned kind, std::vector<int> const &errs, char const *name);
  bool soft_fault(unsigned kind, char const *name);
};

/// Run library code under the simulated kernel. @c false if the process died.
bool run(Kernel &k, void (*f)(void *), void *ctx);
template <typename F>
bool
call(Kernel &k, F &&f)
{
  using T = std::remove_reference_t<F>;
  return run(
    k, [](void *p) { (*static_cast<T *>(p))(); }, const_cast<void *>(static_cast<void const *>(&f)));
}
} // namespace vfs

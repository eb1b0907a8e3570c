// Simulated kernel. System calls made by library code (through the real C library) are trapped with
// syscall user dispatch and answered here from an in-memory file system.
#include "vfs.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstring>
#include <dirent.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>
#include <linux/stat.h>

#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#endif

__asm__(".section .text.rawsys,\"ax\"\n"
        ".globl vfs_rawsys_start\nvfs_rawsys_start:\n"
        ".globl vfs_raw_syscall\n.type vfs_raw_syscall,@function\n"
        "vfs_raw_syscall:\n"
        " mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n syscall\n ret\n"
        ".globl vfs_raw_restorer\nvfs_raw_restorer:\n mov $15,%eax\n syscall\n nop\n nop\n"
        ".globl vfs_rawsys_end\nvfs_rawsys_end:\n.text\n");
extern "C" {
extern char vfs_rawsys_start, vfs_rawsys_end;
long vfs_raw_syscall(long, long, long, long, long, long, long);
void vfs_raw_restorer(void);
}

namespace vfs {
namespace {
volatile char g_sel = 0;
Kernel *g_k         = nullptr;

long
raw(long nr, long const *a)
{
  return vfs_raw_syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}

bool
passthrough(long nr, long const *a)
{
  switch (nr) {
  case SYS_mmap:
    return (a[3] & 0x20) != 0; // anonymous
  case SYS_munmap:
  case SYS_mprotect:
  case SYS_madvise:
  case SYS_mremap:
  case SYS_brk:
  case SYS_futex:
  case SYS_rt_sigprocmask:
  case SYS_rt_sigaction:
  case SYS_sigaltstack:
  case SYS_getpid:
  case SYS_gettid:
  case SYS_tgkill:
  case SYS_sched_yield:
  case SYS_exit:
  case SYS_exit_group:
  case SYS_getrandom:
  case SYS_arch_prctl:
  case SYS_getrlimit:
  case SYS_prlimit64:
  case SYS_rt_sigreturn:
  case SYS_set_robust_list:
  case SYS_rseq:
    return true;
  case SYS_write:
    return (a[0] == 1 || a[0] == 2) && (!g_k || !g_k->fds.count(a[0]));
  }
  return false;
}

void
on_sigsys(int, siginfo_t *, void *u)
{
  g_sel     = 0;
  auto *c   = static_cast<ucontext_t *>(u);
  auto *g   = c->uc_mcontext.gregs;
  long a[6] = {static_cast<long>(g[REG_RDI]), static_cast<long>(g[REG_RSI]), static_cast<long>(g[REG_RDX]),
               static_cast<long>(g[REG_R10]), static_cast<long>(g[REG_R8]),  static_cast<long>(g[REG_R9])};
  long nr   = g[REG_RAX];
  int keep  = errno;
  long rc;
  if (!g_k || passthrough(nr, a)) {
    rc = raw(nr, a);
  } else {
    sim::HostScope hs;
    rc = g_k->syscall(nr, a);
  }
  errno      = keep;
  g[REG_RAX] = rc;
  g_sel      = 1;
}

struct ksigaction {
  void *handler;
  unsigned long flags;
  void (*restorer)();
  unsigned long mask;
};

void
install()
{
  static pid_t done = 0;
  if (done == getpid()) {
    return;
  }
  done = getpid();
  ksigaction sa{};
  sa.handler  = reinterpret_cast<void *>(on_sigsys);
  sa.flags    = SA_SIGINFO | 0x04000000 | SA_NODEFER;
  sa.restorer = vfs_raw_restorer;
  vfs_raw_syscall(SYS_rt_sigaction, SIGSYS, reinterpret_cast<long>(&sa), 0, 8, 0, 0);
  if (prctl(PR_SET_SYSCALL_USER_DISPATCH, 1, &vfs_rawsys_start, &vfs_rawsys_end - &vfs_rawsys_start, &g_sel) != 0) {
    perror("syscall user dispatch");
    _exit(77);
  }
}
} // namespace

bool
run(Kernel &k, void (*f)(void *), void *ctx)
{
  install();
  sigjmp_buf jb;
  k.crash = &jb;
  if (sigsetjmp(jb, 0) == 0) {
    g_k           = &k;
    k.active      = true;
    sim::g_in_sut = true;
    g_sel         = 1;
    try {
      f(ctx);
    } catch (...) {
      g_sel         = 0;
      sim::g_in_sut = false;
      k.active      = false;
      g_k           = nullptr;
      k.crash       = nullptr;
      throw;
    }
    g_sel         = 0;
    sim::g_in_sut = false;
    k.active      = false;
    g_k           = nullptr;
    k.crash       = nullptr;
    return true;
  }
  g_sel         = 0;
  sim::g_in_sut = false;
  k.active      = false;
  g_k           = nullptr;
  k.crash       = nullptr;
  return false;
}

// ------------------------------------------------------------------ file system
Kernel::Kernel(sim::Run *r) : R(r)
{
  auto n    = std::make_shared<Node>();
  n->ino    = root;
  n->type   = DIRECTORY;
  n->mode   = 0755;
  n->parent = root;
  n->uid    = 1000;
  n->nlink  = 2;
  n->atime = n->mtime = n->ctime = now;
  nodes[root]                    = n;
}

Kernel::Kernel(Kernel const &t)
  : R(t.R), nodes(t.nodes), next_ino(t.next_ino), root(t.root), cwd(t.cwd), umask(t.umask), uid(t.uid), fd_base(t.fd_base), fd_limit(t.fd_limit),
    now(t.now), dt_unknown(t.dt_unknown), list_live(t.list_live), order(t.order)
{
}

Node &
Kernel::own(Ino i)
{
  auto &p = nodes.at(i);
  if (p.use_count() > 1) {
    p = std::make_shared<Node>(*p);
  }
  return *p;
}

void
Kernel::touch(Ino i, bool m)
{
  auto &n = own(i);
  n.ctime = now;
  if (m) {
    n.mtime = now;
  }
}

Ino
Kernel::make(Ino dir, std::string const &name, Type t, unsigned mode, std::string const &content)
{
  auto n  = std::make_shared<Node>();
  n->ino  = next_ino++;
  n->type = t;
  n->mode = mode;
  n->uid  = uid ? uid : 1000;
  n->data = std::make_shared<std::string>(content);
  n->atime = n->mtime = n->ctime = now;
  n->parent                      = dir;
  n->nlink                       = t == DIRECTORY ? 2 : 1;
  nodes[n->ino]                  = n;
  own(dir).ents[name]            = n->ino;
  touch(dir, true);
  return n->ino;
}

bool
Kernel::may(Node const &n, unsigned bits) const
{
  if (uid == 0) {
    return true;
  }
  unsigned m = n.uid == uid ? n.mode >> 6 : n.mode;
  return (m & bits) == bits;
}

Kernel::Where
Kernel::resolve(Ino base, std::string const &path, bool follow, int depth)
{
  Where w;
  if (path.empty()) {
    w.err = -ENOENT;
    return w;
  }
  if (path.size() >= 4096) {
    w.err = -ENAMETOOLONG;
    return w;
  }
  Ino at   = path[0] == '/' ? root : base;
  size_t i = 0;
  if (!find(at)) {
    w.err = -ENOENT;
    return w;
  }
  w.ino = at;
  w.dir = node(at).parent;
  w.dot = true;
  while (i < path.size()) {
    while (i < path.size() && path[i] == '/') {
      ++i;
    }
    if (i >= path.size()) {
      break;
    }
    size_t e = path.find('/', i);
    if (e == std::string::npos) {
      e = path.size();
    }
    std::string name = path.substr(i, e - i);
    size_t rest      = path.find_first_not_of('/', e);
    bool last        = rest == std::string::npos;
    bool slash       = last && e < path.size();
    Node const *d    = find(at);
    if (!d) {
      w.err = -ENOENT;
      return w;
    }
    if (d->type != DIRECTORY) {
      w.err = -ENOTDIR;
      return w;
    }
    if (!may(*d, 1)) {
      w.err = -EACCES;
      return w;
    }
    if (name.size() > 255) {
      w.err = -ENAMETOOLONG;
      return w;
    }
    w.dir  = at;
    if (walked) {
      walked->insert(at);
    }
    w.name = name;
    w.dot  = false;
    if (name == ".") {
      w.ino = at;
      w.dot = true;
    } else if (name == "..") {
      w.ino = d->parent;
      w.dot = true;
    } else {
      auto s = d->ents.find(name);
      if (s == d->ents.end() || (d->nlink == 0)) {
        w.ino   = 0;
        w.slash = slash;
        if (!last) {
          w.err = -ENOENT;
        }
        return w;
      }
      w.ino = s->second;
    }
    Node const *n = find(w.ino);
    if (n && n->type == LINK && (!last || slash || follow)) {
      if (depth >= 40) {
        w.err = -ELOOP;
        return w;
      }
      std::string target = n->text();
      if (!last) {
        target += "/" + path.substr(rest);
        if (path.back() == '/' && target.back() != '/') {
          target += '/';
        }
      } else if (slash) {
        target += "/";
      }
      if (walked) {
        walked->insert(w.ino);
      }
      return resolve(at, target, follow, depth + 1);
    }
    at      = w.ino;
    w.slash = slash;
    i       = e;
  }
  if (w.slash && w.ino && node(w.ino).type != DIRECTORY) {
    w.err = -ENOTDIR;
  }
  return w;
}

std::string
Kernel::path_of(Ino d) const
{
  std::string z;
  while (d != root) {
    Node const *n = find(d);
    if (!n) {
      return "";
    }
    Node const *p = find(n->parent);
    bool found    = false;
    if (p && n->nlink) {
      for (auto &[name, i] : p->ents) {
        if (i == d) {
          z     = "/" + name + z;
          found = true;
          break;
        }
      }
    }
    if (!found) {
      return "";
    }
    d = n->parent;
  }
  return z.empty() ? "/" : z;
}

std::string
Kernel::dump(Ino top, bool with_mode) const
{
  std::string z;
  std::vector<std::pair<std::string, Ino>> todo{{"", top}};
  while (!todo.empty()) {
    auto [p, i] = todo.back();
    todo.pop_back();
    Node const *n = find(i);
    if (!n) {
      continue;
    }
    z += p + " " + std::to_string(n->type);
    if (with_mode) {
      z += " " + std::to_string(n->mode);
    }
    z += " " + std::to_string(n->type == DIRECTORY ? 0 : n->nlink) + " " + std::to_string(n->text().size()) + ":" +
         std::to_string(sim::hash_bytes(n->text().data(), n->text().size())) + "\n";
    for (auto &[name, c] : n->ents) {
      todo.push_back({p + "/" + name, c});
    }
  }
  return z;
}

void
Kernel::begin()
{
  calls = hard = soft = 0;
  removed             = 0;
  delivered.clear();
  effects.clear();
  misuse.clear();
}

void
Kernel::drop(Ino i)
{
  auto &n = own(i);
  if (n.nlink > 0) {
    --n.nlink;
  }
  if (n.nlink == 0) {
    for (auto &[fd, o] : fds) {
      if (o->ino == i) {
        return;
      }
    }
    if (cwd == i) {
      return;
    }
    nodes.erase(i);
  }
}

int
Kernel::alloc_fd(std::shared_ptr<Open> o, int min)
{
  int fd = std::max<int>(min, fd_base);
  while (fds.count(fd)) {
    ++fd;
  }
  if (fd >= fd_limit) {
    return -EMFILE;
  }
  fds[fd] = std::move(o);
  return fd;
}

Ino
Kernel::base_of(long fd, long &err)
{
  err = 0;
  if (static_cast<int>(fd) == AT_FDCWD) {
    return cwd;
  }
  auto s = fds.find(fd);
  if (s == fds.end()) {
    err = -EBADF;
    return 0;
  }
  return s->second->ino;
}

int
Kernel::inject(unsigned kind, std::vector<int> const &errs, char const *name)
{
  if (in_actor || !(kinds & kind)) {
    return 0;
  }
  bool fire = fault_at >= 0 ? calls == fault_at : pct && R->pct(pct);
  if (!fire) {
    return 0;
  }
  int e = errs[R->pick(errs.size())];
  char b[40];
  snprintf(b, sizeof b, "%s %s", name, strerrorname_np(e));
  R->fault(b);
  return e;
}

bool
Kernel::soft_fault(unsigned kind, char const *name)
{
  if (in_actor || !(kinds & kind)) {
    return false;
  }
  bool fire = R->pct(20);
  if (fire) {
    R->fault(name);
    ++soft;
  }
  return fire;
}

namespace {
char const *
call_name(long nr)
{
  switch (nr) {
  case SYS_open: case SYS_openat: case SYS_creat: return "open";
  case SYS_close: return "close";
  case SYS_read: return "read";
  case SYS_pread64: return "pread";
  case SYS_readv: return "readv";
  case SYS_write: return "write";
  case SYS_pwrite64: return "pwrite";
  case SYS_writev: return "writev";
  case SYS_lseek: return "lseek";
  case SYS_stat: return "stat";
  case SYS_lstat: return "lstat";
  case SYS_fstat: return "fstat";
  case SYS_newfstatat: return "fstatat";
  case SYS_statx: return "statx";
  case SYS_access: case SYS_faccessat: case 439: return "access";
  case SYS_getdents64: return "getdents";
  case SYS_mkdir: case SYS_mkdirat: return "mkdir";
  case SYS_rmdir: return "rmdir";
  case SYS_unlink: case SYS_unlinkat: return "unlink";
  case SYS_readlink: case SYS_readlinkat: return "readlink";
  case SYS_getcwd: return "getcwd";
  case SYS_ftruncate: return "ftruncate";
  case SYS_fcntl: return "fcntl";
  case SYS_fsync: case SYS_fdatasync: return "fsync";
  }
  return "syscall";
}
} // namespace

long
Kernel::do_open(long base, char const *path, int flags, unsigned mode)
{
  long err;
  Ino b = path[0] == '/' ? root : base_of(base, err);
  if (path[0] != '/' && err) {
    return err;
  }
  Where w = resolve(b, path, !(flags & O_NOFOLLOW));
  if (w.err) {
    return w.err;
  }
  int acc = flags & O_ACCMODE;
  if (!w.ino) {
    if (!(flags & O_CREAT)) {
      return -ENOENT;
    }
    if (w.slash) {
      return -EISDIR;
    }
    if (!may(node(w.dir), 3)) {
      return -EACCES;
    }
    w.ino = make(w.dir, w.name, REG, mode & ~umask & 07777);
    effects.push_back({Effect::CREATE, w.ino, w.dir, w.name});
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) {
      return -EEXIST;
    }
    Node const &n = node(w.ino);
    if (n.type == LINK) {
      return -ELOOP;
    }
    if ((flags & O_DIRECTORY) && n.type != DIRECTORY) {
      return -ENOTDIR;
    }
    if (n.type == DIRECTORY && (acc != O_RDONLY || (flags & O_CREAT))) {
      return -EISDIR;
    }
    if (n.type == SOCKET) {
      return -ENXIO;
    }
    unsigned need = acc == O_RDONLY ? 4 : acc == O_WRONLY ? 2 : 6;
    if (!may(n, need)) {
      return -EACCES;
    }
    if ((flags & O_TRUNC) && n.type == REG && acc != O_RDONLY) {
      auto &o = own(w.ino);
      o.data  = std::make_shared<std::string>();
      touch(w.ino, true);
      effects.push_back({Effect::WRITE, w.ino, 0, ""});
    }
  }
  auto o   = std::make_shared<Open>();
  o->ino   = w.ino;
  o->flags = flags;
  if (find(w.ino)) {
    o->stored = node(w.ino).data;
  }
  return alloc_fd(o);
}

long
Kernel::do_stat(Ino ino, struct stat *st)
{
  Node const &n = node(ino);
  memset(st, 0, sizeof *st);
  static unsigned const fmt[] = {S_IFREG, S_IFDIR, S_IFLNK, S_IFIFO, S_IFSOCK, S_IFCHR, S_IFBLK};
  st->st_dev     = 7;
  st->st_ino     = ino;
  st->st_mode    = fmt[n.type] | n.mode;
  st->st_nlink   = n.nlink;
  st->st_uid     = n.uid;
  st->st_gid     = n.uid;
  st->st_size    = n.type == DIRECTORY ? 4096 : n.lie >= 0 ? n.lie : n.text().size();
  st->st_blksize = 4096;
  st->st_blocks  = (st->st_size + 511) / 512;
  st->st_atim    = n.atime;
  st->st_mtim    = n.mtime;
  st->st_ctim    = n.ctime;
  return 0;
}

long
Kernel::unlink_at(long base, char const *p, bool dir)
{
  long err = 0;
  Ino b    = p[0] == '/' ? root : base_of(base, err);
  if (err) {
    return err;
  }
  Where w = resolve(b, p, false);
  if (w.err) {
    return w.err;
  }
  if (w.ino == root) {
    return -EBUSY;
  }
  if (w.dot) {
    return dir ? (w.name == "." ? -EINVAL : -ENOTEMPTY) : -EISDIR;
  }
  if (!w.ino) {
    return -ENOENT;
  }
  if (!may(node(w.dir), 3)) {
    return -EACCES;
  }
  Node const &n = node(w.ino);
  if (dir) {
    if (n.type != DIRECTORY) {
      return -ENOTDIR;
    }
    if (!n.ents.empty()) {
      return -ENOTEMPTY;
    }
  } else if (n.type == DIRECTORY) {
    return -EISDIR;
  } else if (w.slash) {
    return -ENOTDIR;
  }
  own(w.dir).ents.erase(w.name);
  touch(w.dir, true);
  if (dir) {
    own(w.ino).nlink = 1;
  }
  if (!in_actor) {
    ++removed;
    effects.push_back({Effect::REMOVE, w.ino, w.dir, w.name});
  }
  drop(w.ino);
  return 0;
}

long
Kernel::mkdir_at(long base, char const *p, unsigned mode)
{
  long err = 0;
  Ino b    = p[0] == '/' ? root : base_of(base, err);
  if (err) {
    return err;
  }
  Where w = resolve(b, p, false);
  if (w.err) {
    return w.err;
  }
  if (w.ino) {
    return -EEXIST;
  }
  if (!may(node(w.dir), 3)) {
    return -EACCES;
  }
  if (node(w.dir).nlink == 0) {
    return -ENOENT;
  }
  Ino i = make(w.dir, w.name, DIRECTORY, mode & ~umask & 01777);
  if (!in_actor) {
    effects.push_back({Effect::CREATE, i, w.dir, w.name});
  }
  return 0;
}

long
Kernel::syscall(long nr, long const *a)
{
  ++calls;
  R->step();
  R->advance_ns(1000);
  now.tv_nsec += 1000;
  if (now.tv_nsec >= 1000000000) {
    now.tv_nsec -= 1000000000;
    ++now.tv_sec;
  }
  if (calls > 100000) {
    R->fail("no-progress", "more than 100000 system calls in one operation");
  }
  if (crash_at >= 0 && calls == crash_at && !crash_after) {
    R->fault("process death before a system call");
    R->log("   * process dies before call %ld", calls);
    siglongjmp(*crash, 1);
  }
  if (actor) {
    in_actor = true;
    actor(*this, actor_ctx);
    in_actor = false;
  }
  long rc = dispatch(nr, a);
  if (sim::g_trace) {
    char const *path = nullptr;
    switch (nr) {
    case SYS_open: case SYS_stat: case SYS_lstat: case SYS_access: case SYS_mkdir: case SYS_rmdir: case SYS_unlink: case SYS_readlink:
      path = reinterpret_cast<char const *>(a[0]);
      break;
    case SYS_openat: case SYS_newfstatat: case SYS_mkdirat: case SYS_unlinkat: case SYS_readlinkat: case SYS_faccessat: case 439: case SYS_statx:
      path = reinterpret_cast<char const *>(a[1]);
      break;
    }
    R->log("   %ld: %s(%ld)(%.80s) = %ld%s%s", calls, call_name(nr), nr, path ? path : "", rc, rc < 0 ? " " : "", rc < 0 ? strerrorname_np(-rc) : "");
  } else {
    R->_hash = sim::mix(R->_hash, nr * 31 + rc);
  }
  if (crash_at >= 0 && calls == crash_at && crash_after) {
    R->fault("process death after a system call");
    R->log("   * process dies after call %ld", calls);
    siglongjmp(*crash, 1);
  }
  return rc;
}

long
Kernel::dispatch(long nr, long const *a)
{
  auto str = [&](int i) { return reinterpret_cast<char const *>(a[i]); };
  std::string path;
  bool injected = false, is_soft = false;
  long rc = 0;
  auto bad = [&](int e) {
    if (e) {
      injected = true;
      ++hard;
      rc = -e;
      return true;
    }
    return false;
  };
  auto at_path = [&](long base, char const *p, bool follow, bool empty_ok, Ino &ino) -> long {
    long err = 0;
    path     = p;
    if (empty_ok && !*p) {
      ino = base_of(base, err);
      return err;
    }
    Ino b = p[0] == '/' ? root : base_of(base, err);
    if (err) {
      return err;
    }
    Where w = resolve(b, p, follow);
    if (w.err) {
      return w.err;
    }
    if (!w.ino) {
      return -ENOENT;
    }
    ino = w.ino;
    return 0;
  };
  auto get_fd = [&](long fd) -> std::shared_ptr<Open> {
    auto s = fds.find(static_cast<int>(fd));
    if (s == fds.end()) {
      rc = -EBADF;
      misuse.push_back(std::string(call_name(nr)) + " of descriptor " + std::to_string(static_cast<int>(fd)) + " which is not open");
      return nullptr;
    }
    return s->second;
  };
  auto do_read = [&](Open &o, char *buf, size_t n, long &pos) -> long {
    Node const &f = node(o.ino);
    if ((o.flags & O_ACCMODE) == O_WRONLY) {
      return -EBADF;
    }
    if (f.type == DIRECTORY) {
      return -EISDIR;
    }
    std::string const &t = f.text();
    if (pos >= static_cast<long>(t.size()) || n == 0) {
      return 0;
    }
    n = std::min<size_t>(n, t.size() - pos);
    if (chunk && n > chunk) {
      n = chunk;
      ++soft;
    }
    if (n > 1 && soft_fault(F_SHORT, "short read")) {
      n = 1 + R->pick(n - 1);
    }
    memcpy(buf, t.data() + pos, n);
    pos += n;
    return n;
  };
  auto do_write = [&](Open &o, char const *buf, size_t n, long &pos) -> long {
    if ((o.flags & O_ACCMODE) == O_RDONLY) {
      return -EBADF;
    }
    if (n == 0) {
      return 0;
    }
    if (chunk && n > chunk) {
      n = chunk;
      ++soft;
    }
    if (n > 1 && soft_fault(F_SHORT, "short write")) {
      n = 1 + R->pick(n - 1);
    }
    if (node(o.ino).type == CHARDEV) {
      return n;
    }
    auto &f = own(o.ino);
    if (o.flags & O_APPEND) {
      pos = f.text().size();
    }
    size_t need = pos + n > f.text().size() ? pos + n - f.text().size() : 0;
    if (space >= 0 && need > static_cast<size_t>(space)) {
      size_t can = n - (need - space);
      if (static_cast<long>(n) - static_cast<long>(need - space) <= 0) {
        injected = true;
        ++hard;
        R->fault("disk full");
        return -ENOSPC;
      }
      n    = can;
      need = space;
    }
    if (space >= 0) {
      space -= need;
    }
    if (!f.data || f.data.use_count() > 1) {
      f.data = std::make_shared<std::string>(f.text());
    }
    if (f.data->size() < pos + n) {
      f.data->resize(pos + n);
    }
    memcpy(&(*f.data)[pos], buf, n);
    pos += n;
    o.dirty = true;
    touch(o.ino, true);
    effects.push_back({Effect::WRITE, o.ino, 0, ""});
    return n;
  };

  switch (nr) {
  case SYS_open:
  case SYS_creat:
  case SYS_openat: {
    bool at        = nr == SYS_openat;
    char const *p  = str(at ? 1 : 0);
    int flags      = nr == SYS_creat ? O_CREAT | O_WRONLY | O_TRUNC : a[at ? 2 : 1];
    path           = p;
    if (bad(inject(F_OPEN,
                   (flags & O_ACCMODE) == O_RDONLY ? std::vector<int>{EACCES, EMFILE, ENFILE, EIO, ENOMEM, EINTR, ELOOP}
                                                   : std::vector<int>{EACCES, EMFILE, ENOSPC, EROFS, EIO, ETXTBSY, EDQUOT},
                   "open"))) {
      break;
    }
    rc = do_open(at ? a[0] : AT_FDCWD, p, flags, nr == SYS_creat ? a[1] : a[at ? 3 : 2]);
    break;
  }
  case SYS_close: {
    auto s = fds.find(static_cast<int>(a[0]));
    if (s == fds.end()) {
      misuse.push_back("close of descriptor " + std::to_string(static_cast<int>(a[0])) + " which is not open");
      rc = -EBADF;
      break;
    }
    Ino i  = s->second->ino;
    auto o = s->second;
    fds.erase(s);
    if (find(i) && node(i).nlink == 0) {
      own(i).nlink = 1;
      drop(i);
    }
    if ((o->flags & O_ACCMODE) != O_RDONLY && o.use_count() == 1 && find(i) && node(i).type == REG) {
      // Delayed writes that fail are reported here.
      if (int e = inject(F_CLOSE, {EIO, ENOSPC, EDQUOT, EINTR}, "close after writing"); e == EINTR) {
        injected = true;
        is_soft  = true;
        rc       = -e;
      } else if (bad(e) && o->dirty && R->pct(70)) {
        auto &f                  = own(i);
        std::string const old    = o->stored ? *o->stored : std::string();
        std::string const &now   = f.text();
        size_t keep              = R->pick(now.size() + 1);
        std::string text         = now.substr(0, keep) + (old.size() > keep ? old.substr(keep) : "");
        f.data                   = std::make_shared<std::string>(text);
        R->fault("write lost at close");
      }
    } else if (int e = inject(F_CLOSE, {EIO, EINTR}, "close"); e) {
      injected = true;
      is_soft  = true; // the data is there.
      rc       = -e;
    }
    break;
  }
  case SYS_read:
  case SYS_pread64: {
    auto o = get_fd(a[0]);
    if (!o) {
      break;
    }
    if (node(o->ino).type != DIRECTORY) {
      if (soft_fault(F_EINTR, "read EINTR")) {
        is_soft = injected = true;
        rc                 = -EINTR;
        break;
      }
      if (bad(inject(F_READ, {EIO, EAGAIN, ENOMEM, ESTALE}, "read"))) {
        break;
      }
    }
    long pos = nr == SYS_pread64 ? a[3] : o->pos;
    rc       = do_read(*o, reinterpret_cast<char *>(a[1]), a[2], pos);
    if (nr == SYS_read) {
      o->pos = pos;
    }
    break;
  }
  case SYS_readv:
  case SYS_writev: {
    auto o = get_fd(a[0]);
    if (!o) {
      break;
    }
    if (soft_fault(F_EINTR, "EINTR")) {
      is_soft = injected = true;
      rc                 = -EINTR;
      break;
    }
    if (bad(nr == SYS_readv ? inject(F_READ, {EIO, ENOMEM}, "read") : inject(F_WRITE, {EIO, ENOSPC, EDQUOT, EFBIG}, "write"))) {
      break;
    }
    auto v = reinterpret_cast<iovec const *>(a[1]);
    for (long i = 0; i < a[2]; ++i) {
      long n = nr == SYS_readv ? do_read(*o, static_cast<char *>(v[i].iov_base), v[i].iov_len, o->pos) :
                                 do_write(*o, static_cast<char const *>(v[i].iov_base), v[i].iov_len, o->pos);
      if (n < 0) {
        if (rc == 0) {
          rc = n;
        }
        break;
      }
      rc += n;
      if (n < static_cast<long>(v[i].iov_len)) {
        break;
      }
    }
    break;
  }
  case SYS_write:
  case SYS_pwrite64: {
    auto o = get_fd(a[0]);
    if (!o) {
      break;
    }
    if (soft_fault(F_EINTR, "write EINTR")) {
      is_soft = injected = true;
      rc                 = -EINTR;
      break;
    }
    if (bad(inject(F_WRITE, {EIO, ENOSPC, EDQUOT, EFBIG, EAGAIN}, "write"))) {
      break;
    }
    long pos = nr == SYS_pwrite64 ? a[3] : o->pos;
    rc       = do_write(*o, reinterpret_cast<char const *>(a[1]), a[2], pos);
    if (nr == SYS_write) {
      o->pos = pos;
    }
    break;
  }
  case SYS_sendfile:
  case SYS_copy_file_range: {
    bool sf  = nr == SYS_sendfile;
    auto in  = get_fd(a[sf ? 1 : 0]);
    auto out = in ? get_fd(a[sf ? 0 : 2]) : nullptr;
    if (!out) {
      break;
    }
    if (bad(inject(F_WRITE, {EIO, ENOSPC}, "sendfile"))) {
      break;
    }
    auto ip    = reinterpret_cast<long *>(a[sf ? 2 : 1]);
    auto op    = sf ? nullptr : reinterpret_cast<long *>(a[3]);
    size_t n   = std::min<size_t>(a[sf ? 3 : 4], 1 << 20);
    long rpos  = ip ? *ip : in->pos;
    std::string tmp(n, 0);
    long got = do_read(*in, &tmp[0], n, rpos);
    if (got <= 0) {
      rc = got;
      break;
    }
    long wpos = op ? *op : out->pos;
    rc        = do_write(*out, tmp.data(), got, wpos);
    if (rc > 0) {
      (ip ? *ip : in->pos) += rc;
      (op ? *op : out->pos) = wpos;
    }
    break;
  }
  case SYS_lseek: {
    auto o = get_fd(a[0]);
    if (!o) {
      break;
    }
    long n = a[1];
    if (a[2] == SEEK_CUR) {
      n += o->pos;
    } else if (a[2] == SEEK_END) {
      n += node(o->ino).text().size();
    }
    if (n < 0) {
      rc = -EINVAL;
    } else {
      if (node(o->ino).type == DIRECTORY && n == 0) {
        o->listed = false;
      }
      rc = o->pos = n;
    }
    break;
  }
  case SYS_stat:
  case SYS_lstat:
  case SYS_newfstatat: {
    bool at = nr == SYS_newfstatat;
    Ino ino;
    char const *p = str(at ? 1 : 0);
    path          = p;
    if (at && !*p && (a[3] & AT_EMPTY_PATH) && a[0] >= 0 && !get_fd(a[0])) {
      break;
    }
    if (bad(inject(F_STAT, {EACCES, EIO, ENOMEM, ELOOP, EOVERFLOW}, "stat"))) {
      break;
    }
    rc = at_path(at ? a[0] : AT_FDCWD, p, at ? !(a[3] & AT_SYMLINK_NOFOLLOW) : nr == SYS_stat, at && (a[3] & AT_EMPTY_PATH), ino);
    if (rc == 0) {
      rc = do_stat(ino, reinterpret_cast<struct stat *>(a[at ? 2 : 1]));
    }
    break;
  }
  case SYS_fstat: {
    auto o = get_fd(a[0]);
    if (!o) {
      break;
    }
    if (bad(inject(F_STAT, {EIO, ENOMEM, EOVERFLOW}, "fstat"))) {
      break;
    }
    rc = do_stat(o->ino, reinterpret_cast<struct stat *>(a[1]));
    break;
  }
  case SYS_statx: {
    Ino ino;
    path = str(1);
    if (bad(inject(F_STAT, {EACCES, EIO, ENOMEM, ELOOP}, "stat"))) {
      break;
    }
    rc = at_path(a[0], str(1), !(a[2] & AT_SYMLINK_NOFOLLOW), a[2] & AT_EMPTY_PATH, ino);
    if (rc == 0) {
      struct stat st;
      do_stat(ino, &st);
      auto x = reinterpret_cast<struct ::statx *>(a[4]);
      memset(x, 0, sizeof *x);
      x->stx_mask          = STATX_BASIC_STATS;
      x->stx_blksize       = st.st_blksize;
      x->stx_nlink         = st.st_nlink;
      x->stx_uid           = st.st_uid;
      x->stx_gid           = st.st_gid;
      x->stx_mode          = st.st_mode;
      x->stx_ino           = st.st_ino;
      x->stx_size          = st.st_size;
      x->stx_blocks        = st.st_blocks;
      x->stx_atime.tv_sec  = st.st_atim.tv_sec;
      x->stx_atime.tv_nsec = st.st_atim.tv_nsec;
      x->stx_mtime.tv_sec  = st.st_mtim.tv_sec;
      x->stx_mtime.tv_nsec = st.st_mtim.tv_nsec;
      x->stx_ctime.tv_sec  = st.st_ctim.tv_sec;
      x->stx_ctime.tv_nsec = st.st_ctim.tv_nsec;
      x->stx_dev_minor     = 7;
    }
    break;
  }
  case SYS_access:
  case SYS_faccessat:
  case 439: { // faccessat2
    bool at = nr != SYS_access;
    Ino ino;
    path = str(at ? 1 : 0);
    if (bad(inject(F_PATH, {EACCES, EIO, ENOMEM, EROFS, ETXTBSY}, "access"))) {
      break;
    }
    rc = at_path(at ? a[0] : AT_FDCWD, str(at ? 1 : 0), true, false, ino);
    if (rc == 0) {
      unsigned m = a[at ? 2 : 1];
      rc         = may(node(ino), m & 7) ? 0 : -EACCES;
    }
    break;
  }
  case SYS_getdents64: {
    auto o = get_fd(a[0]);
    if (!o) {
      break;
    }
    Node const &d = node(o->ino);
    if (d.type != DIRECTORY) {
      rc = -ENOTDIR;
      break;
    }
    if (bad(inject(F_LIST, {EIO, ENOMEM, ESTALE, EINTR}, "getdents"))) {
      break;
    }
    if (d.nlink == 0) {
      rc = -ENOENT;
      break;
    }
    if (!o->listed) {
      o->listed = true;
      o->pos    = 0;
      o->list.clear();
      o->list.push_back({".", o->ino});
      o->list.push_back({"..", d.parent});
      for (auto &[n, i] : d.ents) {
        o->list.push_back({n, i});
      }
      unsigned ord = order;
      std::sort(o->list.begin(), o->list.end(), [ord](auto const &x, auto const &y) {
        auto hx = sim::mix(sim::hash_bytes(x.first.data(), x.first.size()), ord), hy = sim::mix(sim::hash_bytes(y.first.data(), y.first.size()), ord);
        return hx < hy;
      });
    }
    auto out     = reinterpret_cast<char *>(a[1]);
    size_t used  = 0;
    size_t limit = a[2];
    bool few     = o->list.size() > 2 && soft_fault(F_SHORT, "short directory read");
    while (o->pos < static_cast<long>(o->list.size())) {
      auto &[name, ino] = o->list[o->pos];
      if (list_live && name != "." && name != ".." && !d.ents.count(name)) {
        ++o->pos;
        continue;
      }
      size_t len = (offsetof(struct dirent64, d_name) + name.size() + 1 + 7) & ~size_t(7);
      if (used + len > limit || (few && used > 0)) {
        if (used == 0) {
          rc = -EINVAL;
        }
        break;
      }
      auto e       = reinterpret_cast<struct dirent64 *>(out + used);
      e->d_ino     = ino;
      e->d_off     = o->pos + 1;
      e->d_reclen  = len;
      static unsigned char const dt[] = {DT_REG, DT_DIR, DT_LNK, DT_FIFO, DT_SOCK, DT_CHR, DT_BLK};
      e->d_type = dt_unknown || !find(ino) ? DT_UNKNOWN : dt[node(ino).type];
      memcpy(e->d_name, name.c_str(), name.size() + 1);
      used += len;
      ++o->pos;
    }
    if (rc == 0) {
      rc = used;
    }
    break;
  }
  case SYS_mkdir:
  case SYS_mkdirat: {
    bool at = nr == SYS_mkdirat;
    path    = str(at ? 1 : 0);
    if (bad(inject(F_DIRENT, {ENOSPC, EACCES, EROFS, EDQUOT, EMLINK, ENOMEM, EIO, EINTR}, "mkdir"))) {
      break;
    }
    rc = mkdir_at(at ? a[0] : AT_FDCWD, str(at ? 1 : 0), a[at ? 2 : 1]);
    break;
  }
  case SYS_rmdir:
  case SYS_unlink:
  case SYS_unlinkat: {
    bool at  = nr == SYS_unlinkat;
    bool dir = nr == SYS_rmdir || (at && (a[2] & AT_REMOVEDIR));
    path     = str(at ? 1 : 0);
    if (bad(inject(F_DIRENT, {EBUSY, EACCES, EPERM, EIO, EROFS, EINTR, ENOMEM, ESTALE}, dir ? "rmdir" : "unlink"))) {
      break;
    }
    rc = unlink_at(at ? a[0] : AT_FDCWD, str(at ? 1 : 0), dir);
    break;
  }
  case SYS_readlink:
  case SYS_readlinkat: {
    bool at = nr == SYS_readlinkat;
    Ino ino;
    path = str(at ? 1 : 0);
    // No errors: the C library takes any as "not a link", which the code under test can not see.
    rc = at_path(at ? a[0] : AT_FDCWD, str(at ? 1 : 0), false, at, ino);
    if (rc == 0) {
      Node const &n = node(ino);
      if (n.type != LINK) {
        rc = -EINVAL;
      } else {
        rc = std::min<size_t>(n.text().size(), a[at ? 3 : 2]);
        memcpy(reinterpret_cast<char *>(a[at ? 2 : 1]), n.text().data(), rc);
      }
    }
    break;
  }
  case SYS_getcwd: {
    if (bad(inject(F_PATH, {EACCES, ENOMEM, EIO}, "getcwd"))) {
      break;
    }
    std::string p = path_of(cwd);
    if (p.empty()) {
      rc = -ENOENT;
    } else if (p.size() + 1 > 4096) {
      rc = -ENAMETOOLONG;
    } else if (p.size() + 1 > static_cast<size_t>(a[1])) {
      rc = -ERANGE;
    } else {
      memcpy(reinterpret_cast<char *>(a[0]), p.c_str(), p.size() + 1);
      rc = p.size() + 1;
    }
    break;
  }
  case SYS_chdir: {
    Ino ino;
    rc = at_path(AT_FDCWD, str(0), true, false, ino);
    if (rc == 0) {
      if (node(ino).type != DIRECTORY) {
        rc = -ENOTDIR;
      } else {
        cwd = ino;
      }
    }
    break;
  }
  case SYS_ftruncate:
  case SYS_fallocate: {
    auto o = get_fd(a[0]);
    if (!o) {
      break;
    }
    if (nr == SYS_fallocate) {
      rc = -EOPNOTSUPP;
      break;
    }
    if (bad(inject(F_TRUNC, {EIO, EPERM}, "ftruncate"))) {
      break;
    }
    if ((o->flags & O_ACCMODE) == O_RDONLY || node(o->ino).type != REG) {
      rc = -EINVAL;
      break;
    }
    auto &f = own(o->ino);
    if (f.text().size() != static_cast<size_t>(a[1])) {
      auto d = std::make_shared<std::string>(f.text());
      d->resize(a[1]);
      f.data = d;
      touch(o->ino, true);
    }
    effects.push_back({Effect::WRITE, o->ino, 0, ""});
    break;
  }
  case SYS_truncate: {
    Ino ino;
    if (bad(inject(F_TRUNC, {EIO, EPERM}, "truncate"))) {
      break;
    }
    rc = at_path(AT_FDCWD, str(0), true, false, ino);
    if (rc == 0) {
      auto d = std::make_shared<std::string>(node(ino).text());
      d->resize(a[1]);
      own(ino).data = d;
      touch(ino, true);
      effects.push_back({Effect::WRITE, ino, 0, ""});
    }
    break;
  }
  case SYS_chmod:
  case SYS_fchmod:
  case SYS_fchmodat:
  case 452: {
    Ino ino = 0;
    unsigned mode;
    if (bad(inject(F_TRUNC, {EIO, EPERM}, "chmod"))) {
      break;
    }
    if (nr == SYS_fchmod) {
      auto o = get_fd(a[0]);
      if (!o) {
        break;
      }
      ino  = o->ino;
      mode = a[1];
    } else {
      bool at = nr != SYS_chmod;
      rc      = at_path(at ? a[0] : AT_FDCWD, str(at ? 1 : 0), true, false, ino);
      mode    = a[at ? 2 : 1];
    }
    if (rc == 0) {
      own(ino).mode = mode & 07777;
      touch(ino, false);
      effects.push_back({Effect::META, ino, 0, ""});
    }
    break;
  }
  case SYS_rename:
  case SYS_renameat:
  case SYS_renameat2: {
    bool at       = nr != SYS_rename;
    char const *p = str(at ? 1 : 0), *q = str(at ? 3 : 1);
    path = p;
    if (bad(inject(F_DIRENT, {ENOSPC, EACCES, EBUSY, EXDEV, EIO}, "rename"))) {
      break;
    }
    long err;
    Where f = resolve(*p == '/' ? root : base_of(at ? a[0] : AT_FDCWD, err), p, false);
    Where t = resolve(*q == '/' ? root : base_of(at ? a[2] : AT_FDCWD, err), q, false);
    if (f.err || t.err) {
      rc = f.err ? f.err : t.err;
    } else if (!f.ino) {
      rc = -ENOENT;
    } else if (f.ino != t.ino) {
      if (t.ino) {
        bool fd = node(f.ino).type == DIRECTORY, td = node(t.ino).type == DIRECTORY;
        if (fd != td || (td && !node(t.ino).ents.empty())) {
          rc = fd ? (td ? -ENOTEMPTY : -ENOTDIR) : -EISDIR;
          break;
        }
        if (td) {
          own(t.ino).nlink = 1;
        }
        drop(t.ino);
        effects.push_back({Effect::REMOVE, t.ino, t.dir, t.name});
      }
      own(f.dir).ents.erase(f.name);
      own(t.dir).ents[t.name] = f.ino;
      if (node(f.ino).type == DIRECTORY) {
        own(f.ino).parent = t.dir;
      }
      effects.push_back({Effect::REMOVE, f.ino, f.dir, f.name});
      effects.push_back({Effect::CREATE, f.ino, t.dir, t.name});
    }
    break;
  }
  case SYS_fcntl: {
    if (a[1] == F_GETFL || a[1] == F_GETFD || a[1] == F_SETFD || a[1] == F_SETFL) {
      auto o = get_fd(a[0]);
      if (o && a[1] == F_GETFL) {
        rc = o->flags & ~O_CREAT;
      }
    } else if (a[1] == F_DUPFD || a[1] == F_DUPFD_CLOEXEC) {
      auto o = get_fd(a[0]);
      if (o) {
        rc = alloc_fd(o, a[2]);
      }
    } else {
      rc = -EINVAL;
    }
    break;
  }
  case SYS_dup: {
    auto o = get_fd(a[0]);
    if (o) {
      rc = alloc_fd(o);
    }
    break;
  }
  case SYS_fsync:
  case SYS_fdatasync: {
    if (!get_fd(a[0])) {
      break;
    }
    if (!bad(inject(F_WRITE, {EIO, ENOSPC}, "fsync"))) {
      get_fd(a[0])->dirty = false;
    }
    break;
  }
  case SYS_fadvise64:
  case SYS_flock:
  case SYS_utimensat:
  case SYS_fchown:
    break;
  case SYS_ioctl:
    rc = -ENOTTY;
    break;
  case SYS_umask: {
    unsigned old = umask;
    umask        = a[0] & 0777;
    rc           = old;
    break;
  }
  case SYS_getuid:
  case SYS_geteuid:
  case SYS_getgid:
  case SYS_getegid:
    rc = uid;
    break;
  default: {
    char b[40];
    snprintf(b, sizeof b, "unsupported syscall %ld", nr);
    R->count(b);
    rc = -ENOSYS;
  }
  }
  if (rc < 0) {
    delivered.push_back({nr, static_cast<int>(-rc), injected, is_soft, path});
  }
  return rc;
}
} // namespace vfs

// The error report is printed with real system calls.
extern "C" void
__asan_on_error()
{
  vfs::g_sel    = 0;
  sim::g_in_sut = false;
}

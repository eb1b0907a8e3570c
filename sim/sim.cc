// Simulation core: choice stream, trace, run execution, search, confirmation, minimisation, evidence.
#include "sim.h"
#include <functional>
#include <sys/prctl.h>
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iomanip>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#ifndef SIM_NO_ASAN
extern "C" const char *
__asan_default_options()
{
  return "exitcode=99:detect_leaks=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0:"
         "quarantine_size_mb=8:max_allocation_size_mb=256:symbolize=0:print_legend=0:print_full_thread_history=0:"
         "allow_user_segv_handler=1:detect_odr_violation=0:use_sigaltstack=1";
}
#endif

namespace sim {
Ctl *ctl     = nullptr;
Run *cur     = nullptr;
bool g_trace = false;

namespace {
constexpr size_t BITMAP_BITS = 1u << 25;
uint64_t *g_states = nullptr; // distinct states
uint64_t *g_runs   = nullptr; // distinct runs
std::string *g_sample = nullptr;

void
set_bit(uint64_t *map, uint64_t h)
{
  h ^= h >> 33;
  h *= 0xc4ceb9fe1a85ec53ull;
  h ^= h >> 33;
  size_t b = h & (BITMAP_BITS - 1);
  uint64_t m = 1ull << (b & 63);
  if (!(__atomic_load_n(&map[b >> 6], __ATOMIC_RELAXED) & m)) {
    __atomic_fetch_or(&map[b >> 6], m, __ATOMIC_RELAXED);
  }
}
uint64_t
count_bits(uint64_t const *map)
{
  uint64_t n = 0;
  for (size_t i = 0; i < BITMAP_BITS / 64; ++i) {
    n += __builtin_popcountll(map[i]);
  }
  return n;
}

uint64_t
splitmix(uint64_t &x)
{
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
} // namespace

std::vector<Property> &
registry()
{
  static std::vector<Property> r;
  return r;
}

uint64_t
hash_bytes(void const *p, size_t n, uint64_t h)
{
  auto s = static_cast<unsigned char const *>(p);
  while (n--) {
    h = (h ^ *s++) * 0x100000001b3ull;
  }
  return h;
}

Run::Run(uint64_t seed)
{
  for (auto &s : _s) {
    s = splitmix(seed);
  }
  ctl->n_choices = ctl->n_marks = 0;
}

Run::Run(uint32_t const *list, size_t n) : _replay(list), _n_replay(n)
{
  ctl->n_choices = ctl->n_marks = 0;
}

uint64_t
Run::next()
{
  auto rotl         = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
  uint64_t r        = rotl(_s[1] * 5, 7) * 9;
  uint64_t const t  = _s[1] << 17;
  _s[2]            ^= _s[0];
  _s[3]            ^= _s[1];
  _s[1]            ^= _s[2];
  _s[0]            ^= _s[3];
  _s[2]            ^= t;
  _s[3]             = rotl(_s[3], 45);
  return r;
}

uint32_t
Run::pick(uint32_t n)
{
  uint32_t v = 0;
  if (n > 1) {
    if (_replay) {
      v = _pos < _n_replay ? _replay[_pos] : 0;
      ++_pos;
      if (v >= n) {
        v %= n;
      }
    } else {
      v = (next() >> 32) % n;
    }
    if (ctl->n_choices >= MAX_CHOICES) {
      return 0; // run is ending anyway: every loop stops on 0.
    }
    ctl->choices[ctl->n_choices] = v;
    ctl->n_choices               = ctl->n_choices + 1;
  }
  return v;
}

uint32_t
Run::small(uint32_t n)
{
  // bits first, so small values are as likely as large ones.
  if (n <= 1) {
    return 0;
  }
  uint32_t bits = 32 - __builtin_clz(n - 1);
  uint32_t b    = pick(bits + 1);
  if (b == 0) {
    return 0;
  }
  uint64_t lim = std::min<uint64_t>(n, 1ull << b);
  return pick(lim);
}

uint64_t
Run::bits64()
{
  uint64_t hi = pick(1u << 31), mid = pick(1u << 31), lo = pick(4);
  return (hi << 33) | (mid << 2) | lo;
}

void
Run::mark()
{
  if (ctl->n_marks < MAX_MARKS) {
    ctl->marks[ctl->n_marks] = ctl->n_choices;
    ctl->n_marks             = ctl->n_marks + 1;
  }
}

bool
Run::more(uint32_t mean, uint32_t max)
{
  mark();
  if (_ops >= max) {
    return false;
  }
  if (pick(mean + 1) == 0) {
    return false;
  }
  ++_ops;
  return true;
}

void
Run::log(char const *fmt, ...)
{
  HostScope hs;
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof(buf) - 1, fmt, ap);
  va_end(ap);
  if (n < 0) {
    n = 0;
  }
  n     = std::min<int>(n, sizeof(buf) - 2);
  _hash = hash_bytes(buf, n, _hash) * 31;
  if (g_trace) {
    buf[n]     = '\n';
    ssize_t rc = write(1, buf, n + 1);
    (void)rc;
  }
  if (g_sample && g_sample->size() < 1500) {
    g_sample->append(buf, n).append("\n");
  }
}

void
Run::state(uint64_t h)
{
  set_bit(g_states, h);
}

void
Run::count(char const *what, uint64_t n)
{
  uint64_t h = hash_bytes(what, strlen(what));
  for (size_t i = h % MAX_COUNTERS, k = 0; k < MAX_COUNTERS; ++k, i = (i + 1) % MAX_COUNTERS) {
    auto &c = ctl->counters[i];
    if (!c.name[0]) {
      snprintf(c.name, sizeof c.name, "%s", what);
    }
    if (0 == strncmp(c.name, what, sizeof(c.name) - 1)) {
      c.n += n;
      return;
    }
  }
}

void
Run::fault(char const *kind)
{
  char buf[48];
  snprintf(buf, sizeof buf, "fault:%s", kind);
  count(buf);
  _nontrivial = true;
}

void
Run::fail(char const *kind, char const *fmt, ...)
{
  g_in_sut = false;
  if (ctl->state != 2) {
    ctl->state = 2;
    snprintf(ctl->kind, sizeof ctl->kind, "%s", kind);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(ctl->msg, sizeof ctl->msg, fmt, ap);
    va_end(ap);
    log("VIOLATED %s: %s", ctl->kind, ctl->msg);
    ctl->hash = _hash;
  }
  _exit(2);
}

namespace {
Property const *g_prop = nullptr;

void
on_vtalrm(int)
{
  if (ctl->state != 2) {
    ctl->state = 2;
    strcpy(ctl->kind, "hang");
    strcpy(ctl->msg, "the run did not finish within its CPU time limit");
    ctl->hash = 0;
  }
  _exit(3);
}

void
arm_timer(int seconds)
{
  itimerval tv{};
  tv.it_value.tv_sec = seconds;
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
}

} // namespace
void
isolated(Run &r, std::function<void()> const &f)
{
  static Run *shared = static_cast<Run *>(mmap(nullptr, sizeof(Run), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) {
    abort();
  }
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    arm_timer(8);
    f();
    g_in_sut = false;
    memcpy(static_cast<void *>(shared), static_cast<void const *>(&r), sizeof(Run));
    _exit(0);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
  }
  if (WIFSIGNALED(status)) {
    signal(WTERMSIG(status), SIG_DFL);
    raise(WTERMSIG(status));
    _exit(99);
  }
  if (WEXITSTATUS(status)) {
    _exit(WEXITSTATUS(status));
  }
  memcpy(static_cast<void *>(&r), static_cast<void const *>(shared), sizeof(Run));
}
namespace {

// Execute one run in this process.
void
execute(Run &r)
{
  cur        = &r;
  ctl->state = 1;
  g_in_sut   = false;
  ledger_reset();
  r.disarm_alloc();
  arm_timer(8);
  g_prop->run(r);
  g_in_sut = false;
  r.disarm_alloc();
  ctl->hash = r.hash();
  if (g_prop->leak_check && g_ledger.live != 0 && !g_ledger.overflow) {
    // Could be something created once per process. Run again, a leak is there again.
    long live = g_ledger.live, bytes = g_ledger.bytes;
    std::vector<uint32_t> list(const_cast<uint32_t *>(ctl->choices), const_cast<uint32_t *>(ctl->choices) + ctl->n_choices);
    bool tr      = g_trace;
    g_trace      = false;
    auto *sample = g_sample;
    g_sample     = nullptr;
    uint64_t h   = r.hash();
    {
      Run again(list.data(), list.size());
      cur = &again;
      ledger_reset();
      g_prop->run(again);
      g_in_sut = false;
      again.disarm_alloc();
    }
    g_trace  = tr;
    g_sample = sample;
    cur      = &r;
    r._hash  = h;
    if (g_ledger.live > 0 && !g_ledger.overflow) {
      r.fail("leak", "%ld allocations (%ld bytes) made by the library were never released", std::min(live, g_ledger.live),
             std::min(bytes, g_ledger.bytes));
    }
  }
  arm_timer(0);
  ctl->state  = 3;
  ctl->runs  += 1;
  ctl->steps += r._steps ? r._steps : r._ops;
  ctl->sim_ns += r._sim_ns;
  ctl->choices_total += ctl->n_choices;
  ctl->ops_total += r._ops;
  ctl->max_ops = std::max<uint64_t>(ctl->max_ops, r._ops);
  if (r._nontrivial) {
    ctl->nontrivial += 1;
    set_bit(g_runs, r.hash());
  }
  cur = nullptr;
}

uint64_t
seed_for(uint64_t base, uint64_t index)
{
  uint64_t x = base * 0x9e3779b97f4a7c15ull + index;
  for (char const *p = g_prop->id; *p; ++p) {
    x = x * 1099511628211ull + static_cast<unsigned char>(*p);
  }
  uint64_t s = x;
  return splitmix(s);
}

std::string g_tmp; // scratch directory

std::string
slurp(std::string const &name)
{
  std::ifstream f(name);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}

// Classify the end of a child that did not record a violation itself.
void
classify_crash(int status, std::string const &errfile, std::string &kind, std::string &msg)
{
  std::string err = slurp(errfile);
  auto pos        = err.find("ERROR: AddressSanitizer: ");
  kind            = "crash";
  if (pos != std::string::npos) {
    auto s = pos + strlen("ERROR: AddressSanitizer: ");
    auto e = err.find_first_of(" :\n", s);
    kind   = "crash:" + err.substr(s, e - s);
    msg    = err.substr(pos, err.find('\n', pos) - pos);
  } else if (WIFSIGNALED(status)) {
    kind = "crash:signal-" + std::to_string(WTERMSIG(status));
    msg  = "process ended by signal " + std::to_string(WTERMSIG(status));
  } else {
    kind = "crash:exit-" + std::to_string(WEXITSTATUS(status));
    msg  = "process exited with status " + std::to_string(WEXITSTATUS(status));
  }
  auto w = err.find("terminate called");
  if (w != std::string::npos) {
    kind = "crash:terminate";
    msg  = err.substr(w, std::min<size_t>(300, err.size() - w));
  }
  for (auto &c : msg) {
    if (c == '\n') {
      c = ' ';
    }
  }
}

struct Outcome {
  bool violated = false;
  std::string kind, msg;
  uint64_t hash = 0;
  uint64_t runs = 0;
  std::vector<uint32_t> choices, marks;
  std::string err;
};

Ctl *g_probe = nullptr; // control block for single runs in children

// Run once in a child process.
struct Chain { // runs executed before this one in the same process
  uint64_t base = 0, first = 0, step = 1, last = 0;
  bool used() const { return step && first < last; }
};

Outcome
run_child(uint64_t seed, std::vector<uint32_t> const *list, bool trace = false, bool show = false, Chain const *chain = nullptr)
{
  Outcome o;
  memset(g_probe, 0, offsetof(Ctl, choices));
  std::string errfile = g_tmp + "/probe.err";
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    ctl = g_probe;
    int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 2);
    close(fd);
    if (chain) {
      for (uint64_t i = chain->first; i < chain->last; i += chain->step) {
        Run r(seed_for(chain->base, i));
        execute(r);
      }
    }
    g_trace = trace;
    if (list) {
      Run r(list->data(), list->size());
      execute(r);
    } else {
      Run r(seed);
      execute(r);
    }
    _exit(0);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
  }
  o.choices.assign(g_probe->choices, g_probe->choices + g_probe->n_choices);
  o.marks.assign(g_probe->marks, g_probe->marks + g_probe->n_marks);
  o.hash = g_probe->hash;
  if (g_probe->state == 2) {
    o.violated = true;
    o.kind     = g_probe->kind;
    o.msg      = g_probe->msg;
  } else if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
    o.violated = true;
    o.hash     = 0;
    classify_crash(status, errfile, o.kind, o.msg);
  }
  if (show) {
    fputs(slurp(errfile).c_str(), stderr);
  }
  return o;
}

using Clock = std::chrono::steady_clock;
double
since(Clock::time_point t)
{
  return std::chrono::duration<double>(Clock::now() - t).count();
}

// Minimise a failing choice list: delete operations, then lower numbers.
Outcome
shrink(Outcome best, double budget, size_t &attempts, Chain const *chain)
{
  auto t0   = Clock::now();
  auto kind = best.kind;
  std::set<std::vector<uint32_t>> tried;
  auto smaller = [](std::vector<uint32_t> const &a, std::vector<uint32_t> const &b) {
    if (a.size() != b.size()) {
      return a.size() < b.size();
    }
    return a < b;
  };
  auto attempt = [&](std::vector<uint32_t> const &c) {
    if (since(t0) > budget || !tried.insert(c).second) {
      return false;
    }
    ++attempts;
    auto o = run_child(0, &c, false, false, chain);
    if (o.violated && o.kind == kind) {
      while (!o.choices.empty() && o.choices.back() == 0) {
        o.choices.pop_back();
      }
      if (smaller(o.choices, best.choices)) {
        best = o;
        return true;
      }
    }
    return false;
  };
  while (!best.choices.empty() && best.choices.back() == 0) {
    best.choices.pop_back();
  }
  bool improved = true;
  while (improved && since(t0) < budget) {
    improved = false;
    // Cut the tail.
    for (size_t cut = best.choices.size() / 2; cut > 0 && since(t0) < budget;) {
      if (cut < best.choices.size()) {
        auto c = best.choices;
        c.resize(c.size() - cut);
        if (attempt(c)) {
          improved = true;
          continue;
        }
      }
      cut /= 2;
    }
    // Delete blocks of operations.
    for (size_t width = std::max<size_t>(1, best.marks.size() / 2); width >= 1 && since(t0) < budget; width /= 2) {
      for (size_t i = 0; i + width <= best.marks.size() && since(t0) < budget;) {
        auto c   = best.choices;
        size_t b = best.marks[i], e = i + width < best.marks.size() ? best.marks[i + width] : c.size();
        b        = std::min(b, c.size());
        e        = std::min(e, c.size());
        if (b < e) {
          c.erase(c.begin() + b, c.begin() + e);
          if (attempt(c)) {
            improved = true;
            continue;
          }
        }
        ++i;
      }
    }
    // Lower the numbers, delete single choices.
    for (size_t i = 0; i < best.choices.size() && since(t0) < budget; ++i) {
      auto c = best.choices;
      if (c[i]) {
        uint32_t v = c[i];
        for (uint32_t t : {0u, 1u, v / 2, v - 1}) {
          if (t < v) {
            c    = best.choices;
            if (i >= c.size()) {
              break;
            }
            c[i] = t;
            if (attempt(c)) {
              improved = true;
              break;
            }
          }
        }
      }
      if (i < best.choices.size()) {
        c = best.choices;
        c.erase(c.begin() + i);
        if (attempt(c)) {
          improved = true;
          --i;
        }
      }
    }
  }
  return best;
}

std::string
json(std::string const &s)
{
  std::string z = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      z += '\\';
      z += c;
    } else if (c == '\n') {
      z += "\\n";
    } else if (c < 32 || c >= 127) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      z += b;
    } else {
      z += c;
    }
  }
  return z + "\"";
}

template <typename C>
std::string
json_list(C const &c)
{
  std::string z = "[";
  for (auto const &e : c) {
    z += (z.size() > 1 ? ", " : "") + json(e);
  }
  return z + "]";
}

void *
shared(size_t n)
{
  void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(4);
  }
  return p;
}

struct Finding {
  std::string property, kind, match, text;
};

// Lines: "KNOWN-FINDING: property=<id> kind=<kind> match=<text in the message> :: what fails"
std::vector<Finding>
load_findings(std::string const &file)
{
  std::vector<Finding> z;
  std::ifstream f(file);
  std::string line;
  while (std::getline(f, line)) {
    if (line.rfind("KNOWN-FINDING: ", 0) != 0) {
      continue;
    }
    Finding k;
    auto field = [&](char const *name) {
      auto p = line.find(name);
      if (p == std::string::npos) {
        return std::string{};
      }
      p += strlen(name);
      return line.substr(p, line.find(" ", p) - p);
    };
    k.property = field("property=");
    k.kind     = field("kind=");
    auto m     = line.find("match=\"");
    if (m != std::string::npos) {
      m      += 7;
      k.match = line.substr(m, line.find('"', m) - m);
    }
    auto t = line.find(":: ");
    k.text = t == std::string::npos ? line : line.substr(t + 3);
    z.push_back(k);
  }
  return z;
}
} // namespace

int
sim_main(int argc, char **argv)
{
  std::string id, tier = "quick", evidence, replay, replay_dir = "replays", findings_file;
  uint64_t base = 1;
  double budget = 20;
  unsigned workers = 8;
  uint64_t min_runs = 300, one = ~0ull;
  bool have_one = false, verbose = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val      = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop") {
      id = val();
    } else if (a == "--tier") {
      tier = val();
    } else if (a == "--seed") {
      base = strtoull(val().c_str(), nullptr, 0);
    } else if (a == "--budget") {
      budget = atof(val().c_str());
    } else if (a == "--min-runs") {
      min_runs = strtoull(val().c_str(), nullptr, 0);
    } else if (a == "--workers") {
      workers = std::max(1, atoi(val().c_str()));
    } else if (a == "--evidence") {
      evidence = val();
    } else if (a == "--replay") {
      replay = val();
    } else if (a == "--replay-dir") {
      replay_dir = val();
    } else if (a == "--findings") {
      findings_file = val();
    } else if (a == "--index") {
      one      = strtoull(val().c_str(), nullptr, 0);
      have_one = true;
    } else if (a == "--verbose") {
      verbose = true;
    } else if (a == "--list") {
      for (auto &p : registry()) {
        printf("%s\n", p.id);
      }
      return 0;
    }
  }
  // Same addresses in every process.
  int pers = personality(0xffffffff);
  if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
    setenv("SIM_REEXEC", "1", 1);
    if (personality(pers | ADDR_NO_RANDOMIZE) >= 0) {
      execv("/proc/self/exe", argv);
    }
  }
  for (auto &p : registry()) {
    if (id == p.id) {
      g_prop = &p;
    }
  }
  if (!g_prop) {
    fprintf(stderr, "unknown property '%s'\n", id.c_str());
    return 4;
  }
  auto t_start = Clock::now();
  setenv("TZ", "UTC", 1);
  g_states = static_cast<uint64_t *>(shared(BITMAP_BITS / 8));
  g_runs   = static_cast<uint64_t *>(shared(BITMAP_BITS / 8));
  g_probe  = static_cast<Ctl *>(shared(sizeof(Ctl)));
  char tmp[] = "/tmp/sim.XXXXXX";
  if (!mkdtemp(tmp)) {
    perror("mkdtemp");
    return 4;
  }
  g_tmp = tmp;
  struct Cleanup {
    ~Cleanup()
    {
      unlink((g_tmp + "/probe.err").c_str());
      for (int i = 0; i < 64; ++i) {
        unlink((g_tmp + "/w" + std::to_string(i) + ".err").c_str());
      }
      rmdir(g_tmp.c_str());
    }
  } cleanup;
  signal(SIGVTALRM, on_vtalrm);
  signal(SIGPIPE, SIG_IGN);

  if (!replay.empty()) {
    std::ifstream f(replay);
    std::string line;
    std::vector<uint32_t> list;
    std::string want_kind, want_hash;
    Chain chain;
    while (std::getline(f, line)) {
      std::istringstream is(line);
      std::string w;
      is >> w;
      if (w == "---") {
        break;
      }
      if (w == "choices:") {
        uint32_t v;
        while (is >> v) {
          list.push_back(v);
        }
      } else if (w == "kind:") {
        is >> want_kind;
      } else if (w == "after:") {
        is >> chain.base >> chain.first >> chain.step >> chain.last;
      } else if (w == "hash:") {
        is >> want_hash;
      }
    }
    auto o = run_child(0, &list, true, true, chain.used() ? &chain : nullptr);
    char h[32];
    snprintf(h, sizeof h, "%016lx", static_cast<unsigned long>(o.hash));
    if (o.violated) {
      printf("reproduced: %s%s\n", o.kind.c_str(), o.kind != want_kind ? " (other kind)" : want_hash != h ? " (other trace)" : " (identical trace)");
      printf("%s\n", o.msg.c_str());
      printf("VIOLATION property=%s replay=%s\n", id.c_str(), replay.c_str());
      return 1;
    }
    printf("not reproduced: the property held on this replay\n");
    return 0;
  }
  if (have_one) {
    auto o = run_child(seed_for(base, one), nullptr, true, true);
    if (o.violated) {
      printf("violated: %s\n%s\n", o.kind.c_str(), o.msg.c_str());
      return 1;
    }
    printf("ok hash %016lx\n", static_cast<unsigned long>(o.hash));
    return 0;
  }

  auto findings = load_findings(findings_file);
  std::set<size_t> found_known;

  // Samples for the evidence, and the warm-up of lazily created things in this process's children.
  struct Work {
    Ctl *c;
    pid_t pid = -1;
    uint64_t next;
    uint64_t begin = 0; ///< first run of the current process
  };
  // Worker processes are replaced now and then (runs that leave a process "dead" leak on purpose).
  uint64_t const recycle = g_prop->leak_check ? 20000 : 1000;
  auto *stop = static_cast<volatile uint64_t *>(shared(4096));
  std::vector<Work> ws(workers);
  std::vector<std::string> unconfirmed;
  uint64_t violations = 0;
  std::string replay_path;
  double cap       = std::max(budget * 4, 120.0);
  auto total_runs  = [&]() {
    uint64_t n = 0;
    for (auto &w : ws) {
      n += w.c->runs;
    }
    return n;
  };
  auto start = [&](unsigned k) {
    Work &w = ws[k];
    fflush(stdout);
    fflush(stderr);
    w.c->state = 0;
    w.begin    = w.next;
    w.pid      = fork();
    if (w.pid == 0) {
      ctl     = w.c;
      int fd  = open((g_tmp + "/w" + std::to_string(k) + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      dup2(fd, 2);
      close(fd);
      uint64_t n = 0;
      for (uint64_t i = w.next; !stop[0] && n < recycle; i += workers, ++n) {
        ctl->index = i;
        Run r(seed_for(base, i));
        execute(r);
      }
      _exit(0);
    }
  };
  for (unsigned k = 0; k < workers; ++k) {
    ws[k].c    = static_cast<Ctl *>(shared(sizeof(Ctl)));
    ws[k].next = k;
    start(k);
  }
  bool done = false, violated = false;
  unsigned rejected = 0;
  std::set<std::string> rejected_kinds;
  while (!done) {
    usleep(20000);
    double el = since(t_start);
    if ((el >= budget && total_runs() >= min_runs) || el >= cap) {
      stop[0] = 1;
      done    = true;
    }
    for (unsigned k = 0; k < workers; ++k) {
      Work &w    = ws[k];
      int status = 0;
      if (w.pid <= 0) {
        continue;
      }
      if (done) {
        while (waitpid(w.pid, &status, 0) < 0 && errno == EINTR) {
        }
      } else if (waitpid(w.pid, &status, WNOHANG) <= 0) {
        continue;
      }
      w.pid = -1;
      uint64_t idx = w.c->index;
      if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
        if (!done) {
          w.next = idx + workers;
          start(k);
        }
        continue;
      }
      // Candidate violation.
      uint64_t sd = seed_for(base, idx);
      std::string cand_kind, cand_msg;
      if (w.c->state == 2) {
        cand_kind = w.c->kind;
        cand_msg  = w.c->msg;
      } else {
        classify_crash(status, g_tmp + "/w" + std::to_string(k) + ".err", cand_kind, cand_msg);
      }
      auto same = [](Outcome const &a, Outcome const &b) {
        return a.violated && b.violated && a.kind == b.kind && a.hash == b.hash && a.choices == b.choices;
      };
      auto a  = run_child(sd, nullptr);
      auto b  = run_child(sd, nullptr);
      bool ok = same(a, b);
      Chain chain;
      if (!ok && !a.violated && !b.violated && idx > w.begin && rejected < 8) {
        // It may need what earlier runs left behind in the process: repeat them, as few as needed.
        for (uint64_t back = 1; !ok; back *= 4) {
          uint64_t avail = (idx - w.begin) / workers;
          chain          = Chain{base, idx - std::min(back, avail) * workers, workers, idx};
          a              = run_child(sd, nullptr, false, false, &chain);
          if (a.violated) {
            b  = run_child(sd, nullptr, false, false, &chain);
            ok = same(a, b) && a.kind == cand_kind;
          }
          if (back >= avail) {
            break;
          }
        }
        if (!ok) {
          chain = Chain{};
        }
      }
      if (!ok) {
        unconfirmed.push_back("index " + std::to_string(idx) + " " + cand_kind + ": " + cand_msg + " / " + a.kind + " / " + b.kind);
        ++rejected;
      } else {
        // Known?
        bool known = false;
        for (size_t f = 0; f < findings.size(); ++f) {
          auto const &kf = findings[f];
          if (kf.property == id && kf.kind == a.kind && a.msg.find(kf.match) != std::string::npos) {
            known = true;
            found_known.insert(f);
          }
        }
        if (!known) {
          ++violations;
          violated = true;
          stop[0]  = 1;
          // Let the others end.
          for (auto &o : ws) {
            if (o.pid > 0) {
              waitpid(o.pid, nullptr, 0);
              o.pid = -1;
            }
          }
          size_t attempts = 0, before = a.choices.size();
          Chain const *pre = chain.used() ? &chain : nullptr;
          auto best        = shrink(a, tier == "quick" ? 25 : 120, attempts, pre);
          // The final list must fail the same way, twice.
          auto c1 = run_child(0, &best.choices, false, false, pre), c2 = run_child(0, &best.choices, false, false, pre);
          if (!(c1.violated && c2.violated && c1.hash == c2.hash && c1.kind == c2.kind)) {
            best = a;
            c1   = a;
          }
          mkdir(replay_dir.c_str(), 0755);
          char name[256];
          snprintf(name, sizeof name, "%s/%s-%lu-%lu.replay", replay_dir.c_str(), id.c_str(), static_cast<unsigned long>(base),
                   static_cast<unsigned long>(idx));
          replay_path = name;
          // Trace of the minimal run.
          std::string tracefile = g_tmp + "/trace";
          fflush(stdout);
          int saved = dup(1);
          int tf    = open(tracefile.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
          dup2(tf, 1);
          run_child(0, &best.choices, true, false, pre);
          std::string crash_text = slurp(g_tmp + "/probe.err");
          dup2(saved, 1);
          close(saved);
          close(tf);
          std::ofstream out(replay_path);
          out << "# replay of one simulated run: ./check " << id << " --replay " << replay_path << "\n";
          out << "property: " << id << "\n";
          out << "seed: " << base << "\nindex: " << idx << "\n";
          out << "kind: " << c1.kind << "\n";
          char hb[32];
          snprintf(hb, sizeof hb, "%016lx", static_cast<unsigned long>(c1.hash));
          out << "hash: " << hb << "\n";
          out << "message: " << c1.msg << "\n";
          out << "minimised: " << before << " choices to " << best.choices.size() << " in " << attempts << " attempts\n";
          if (pre) {
            out << "after: " << chain.base << ' ' << chain.first << ' ' << chain.step << ' ' << chain.last
                << " (base seed, first, step and end of the runs executed before in the same process)\n";
          }
          out << "choices:";
          for (auto v : best.choices) {
            out << ' ' << v;
          }
          out << "\n--- trace of the minimised run\n" << slurp(tracefile).substr(0, 200000);
          if (!crash_text.empty()) {
            out << "\n--- stderr\n" << crash_text.substr(0, 20000);
          }
          unlink(tracefile.c_str());
          out.close();
          printf("%s: %s\n", c1.kind.c_str(), c1.msg.c_str());
          done = true;
          break;
        }
      }
      if (!done) {
        w.next = idx + workers;
        if (rejected < 200) {
          start(k);
        }
      }
    }
  }
  stop[0] = 1;
  for (auto &w : ws) {
    if (w.pid > 0) {
      waitpid(w.pid, nullptr, 0);
    }
  }
  double search_s = since(t_start);
  // Same seed, same execution: check on a sample in fresh processes.
  uint64_t det_checked = 0, det_bad = 0;
  std::vector<std::string> samples;
  if (!violated) {
    for (uint64_t i = 0; i < 12; ++i) {
      auto a = run_child(seed_for(base, i), nullptr), b = run_child(seed_for(base, i), nullptr);
      if (a.violated || b.violated) {
        continue; // a known finding
      }
      ++det_checked;
      // And from the recorded choices.
      auto c = run_child(0, &a.choices);
      if (a.hash != b.hash || a.hash != c.hash) {
        ++det_bad;
      }
    }
  }
  for (uint64_t i = 0; i < 3; ++i) {
    // Record the trace of a run in a child, through a file.
    std::string tf = g_tmp + "/sample";
    fflush(stdout);
    int saved = dup(1);
    int fd    = open(tf.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
    dup2(fd, 1);
    run_child(seed_for(base, i * 7 + 1), nullptr, true);
    dup2(saved, 1);
    close(saved);
    close(fd);
    samples.push_back("seed " + std::to_string(base) + " run " + std::to_string(i * 7 + 1) + ": " + slurp(tf).substr(0, 1200));
    unlink(tf.c_str());
  }
  // Totals.
  uint64_t runs = 0, steps = 0, nontriv = 0, choices = 0, ops = 0, max_ops = 0;
  double ns = 0;
  std::map<std::string, uint64_t> counters;
  for (auto &w : ws) {
    runs    += w.c->runs;
    steps   += w.c->steps;
    nontriv += w.c->nontrivial;
    ns      += w.c->sim_ns;
    choices += w.c->choices_total;
    ops     += w.c->ops_total;
    max_ops  = std::max(max_ops, w.c->max_ops);
    for (auto &c : w.c->counters) {
      if (c.name[0]) {
        counters[c.name] += c.n;
      }
    }
  }
  uint64_t distinct = std::min(count_bits(g_runs), nontriv), states = count_bits(g_states);
  double wall = since(t_start);
  if (!evidence.empty()) {
    std::ofstream o(evidence);
    o << "{\n \"property\": " << json(id) << ",\n \"tier\": " << json(tier) << ",\n \"seed\": " << base
      << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
    o << "  \"evaluations\": " << runs << ",\n  \"distinct_nontrivial\": " << distinct << ",\n";
    o << "  \"rule\": " << json(g_prop->rule) << ",\n";
    o << "  \"runs_per_hour\": " << static_cast<uint64_t>(search_s > 0 ? runs / search_s * 3600 : 0) << ",\n";
    o << "  \"seeds_per_hour\": " << static_cast<uint64_t>(search_s > 0 ? runs / search_s * 3600 : 0) << ",\n";
    o << "  \"seed_derivation\": \"run i of base seed s uses splitmix(s, property, i); one run = one seed\",\n";
    o << "  \"simulated_time\": {\"seconds\": " << std::fixed << std::setprecision(6) << ns / 1e9 << std::defaultfloat << std::setprecision(6) << ", \"scheduler_steps\": " << steps << "},\n";
    o << "  \"operations\": " << ops << ",\n  \"longest_history\": " << max_ops << ",\n  \"choices_drawn\": " << choices << ",\n";
    o << "  \"faults_injected\": {";
    bool first = true;
    for (auto &[n, c] : counters) {
      if (n.rfind("fault:", 0) == 0) {
        o << (first ? "" : ", ") << json(n.substr(6)) << ": " << c;
        first = false;
      }
    }
    o << "},\n  \"counts\": {";
    first = true;
    for (auto &[n, c] : counters) {
      if (n.rfind("fault:", 0) != 0) {
        o << (first ? "" : ", ") << json(n) << ": " << c;
        first = false;
      }
    }
    o << "},\n  \"distinct_states\": " << states << ",\n  \"distinct_states_measure\": " << json(g_prop->measure) << ",\n";
    o << "  \"distinct_counting\": \"hashed into a 2^25 bit map, so the counts are lower bounds\",\n";
    o << "  \"real_code\": " << json_list(g_prop->real) << ",\n  \"stubs\": " << json_list(g_prop->stub) << ",\n";
    o << "  \"determinism_rechecks\": {\"runs\": " << det_checked << ", \"differing\": " << det_bad << "},\n";
    o << "  \"unconfirmed\": " << json_list(unconfirmed) << ",\n";
    std::vector<std::string> kf;
    for (auto f : found_known) {
      kf.push_back(findings[f].text);
    }
    o << "  \"known_findings_seen\": " << json_list(kf) << ",\n";
    o << "  \"samples\": " << json_list(samples) << "\n },\n";
    o << " \"assumptions\": " << json_list(g_prop->assumptions) << ",\n";
    o << " \"violations\": " << violations << ",\n \"wall_s\": " << wall << "\n}\n";
  }
  for (auto &u : unconfirmed) {
    fprintf(stderr, "unconfirmed (not reported): %s\n", u.c_str());
  }
  if (det_bad) {
    fprintf(stderr, "warning: %lu of %lu determinism rechecks differ\n", static_cast<unsigned long>(det_bad), static_cast<unsigned long>(det_checked));
  }
  for (auto &k : findings) {
    if (k.property == id) {
      printf("KNOWN-FINDING: property=%s %s\n", id.c_str(), k.text.c_str());
    }
  }
  printf("%s %s: %lu runs (%lu distinct non-trivial), %lu distinct states, %.1f s\n", id.c_str(), tier.c_str(),
         static_cast<unsigned long>(runs), static_cast<unsigned long>(distinct), static_cast<unsigned long>(states), wall);
  if (verbose) {
    for (auto &[n, c] : counters) {
      printf("  %-40s %lu\n", n.c_str(), static_cast<unsigned long>(c));
    }
  }
  if (violated) {
    printf("VIOLATION property=%s replay=%s\n", id.c_str(), replay_path.c_str());
    return 1;
  }
  return 0;
}
} // namespace sim

int
main(int argc, char **argv)
{
  return sim::sim_main(argc, argv);
}

#include "rt.h"
#include "shim/process.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" char __executable_start, etext;

// race detector hooks (rt_tsan.cpp); weak so that plain builds need not link it
extern "C" {
void mc_tsan_spawn(int parent, int child) __attribute__((weak));
void mc_tsan_join(int self, int child) __attribute__((weak));
void mc_tsan_acquire(int self, const void *a) __attribute__((weak));
void mc_tsan_release(int self, const void *a) __attribute__((weak));
void mc_tsan_enable(int on) __attribute__((weak));
void mc_tsan_thread_start() __attribute__((weak));
}

namespace mc {

std::string g_root;
static bool g_on = false;         // inside an explored child
static bool g_controlled = true;  // controlled scheduler (false: free running)
static Cfg g_cfg;
static thread_local int t_internal = 0;

struct Shm {
  int prefix_len;
  int ntrace;
  int diverged;
  int overflow;
  std::atomic<uint32_t> log_off;
  static constexpr int MAXC = 1 << 15;
  static constexpr uint32_t MAXL = 4u << 20;
  Choice prefix[MAXC];
  Choice trace[MAXC];
  char log[MAXL];
};
static Shm *g_shm = nullptr;

Internal::Internal() { ++t_internal; }
Internal::~Internal() { --t_internal; }

std::function<int()> edit_count;
std::function<void(int)> edit_apply;
std::function<bool(const std::string &, const std::vector<std::string> &,
                   const std::string &, int &, std::string &, std::string &)>
    custom_program;
std::function<bool(const std::string &)> may_fail;
std::function<bool(const std::string &)> always_fail;

// ------------------------------------------------------------ scheduler core
struct Th {
  int id;
  std::atomic<int> baton{0};
  enum { RUN, BLOCK, DONE } st = RUN;
  std::function<bool()> pred;
  pthread_t pt{};
};
static std::vector<Th *> &ths() {
  static auto *v = new std::vector<Th *>;
  return *v;
}
static thread_local Th *t_self = nullptr;
int self() { return t_self ? t_self->id : -1; }
bool active() { return g_on; }
bool race_live() { return g_on && g_controlled && t_self && t_self->st != Th::DONE; }
int race_tid() { return g_on && g_controlled && !t_internal && t_self ? t_self->id : -1; }
int hw_workers() { return 4; }

static void futex(std::atomic<int> *a, int op, int v) {
  syscall(SYS_futex, (int *)a, op, v, nullptr, nullptr, 0);
}
static void wait_baton(Th *t) {
  while (t->baton.load(std::memory_order_acquire) == 0)
    futex(&t->baton, FUTEX_WAIT_PRIVATE, 0);
  t->baton.store(0, std::memory_order_relaxed);
}
static void give_baton(Th *t) {
  t->baton.store(1, std::memory_order_release);
  futex(&t->baton, FUTEX_WAKE_PRIVATE, 1);
}

void logev(char type, const std::string &s) {
  if (!g_shm)
    return;
  uint32_t need = 1 + 4 + 4 + s.size();
  uint32_t off = g_shm->log_off.fetch_add(need);
  if (off + need > Shm::MAXL) {
    g_shm->overflow = 1;
    return;
  }
  char *p = g_shm->log + off;
  int tid = t_self ? t_self->id : (int)syscall(SYS_gettid);
  uint32_t len = s.size();
  p[0] = type;
  memcpy(p + 1, &tid, 4);
  memcpy(p + 5, &len, 4);
  memcpy(p + 9, s.data(), len);
}

int choose(Kind k, int n) {
  if (!g_on || !g_cfg.en[k] || n <= 1)
    return 0;
  int i = g_shm->ntrace;
  if (i >= Shm::MAXC) {
    g_shm->overflow = 1;
    _exit(97);
  }
  int pick = 0;
  if (i < g_shm->prefix_len) {
    Choice &c = g_shm->prefix[i];
    if (c.kind != k || c.n != n) {
      g_shm->diverged = 1;
      _exit(96);
    }
    pick = c.pick;
  }
  g_shm->trace[i] = {(uint8_t)k, (uint16_t)n, (uint16_t)pick};
  static bool sites = getenv("MC_SITES") != nullptr;
  if (sites) {
    void *bt[12];
    int m = backtrace(bt, 12);
    char **sy = backtrace_symbols(bt, m);
    std::string t = "n=" + std::to_string(n);
    for (int q = 2; q < m; q++)
      t += std::string(" ") + (strrchr(sy[q], '/') ? strrchr(sy[q], '/') : sy[q]);
    logev('Y', t);
  }
  g_shm->ntrace = i + 1;
  return pick;
}

static bool enabled(Th *t) {
  if (t->st == Th::RUN)
    return true;
  if (t->st == Th::BLOCK) {
    Internal in;
    return t->pred();
  }
  return false;
}

// choose the next thread; self_ok: current thread may continue
static Th *pick_next(Th *me, bool self_ok) {
  auto &v = ths();
  std::vector<Th *> c;
  if (self_ok)
    c.push_back(me);
  int n = (int)v.size();
  for (int k = 1; k <= n; k++) {
    Th *t = v[(me->id + k) % n];
    if (t == me) {
      if (!self_ok && enabled(t))
        c.push_back(t);
      continue;
    }
    if (enabled(t))
      c.push_back(t);
  }
  if (c.empty()) {
    logev('D', "deadlock");
    _exit(98);
  }
  return c[choose(K_SCHED, (int)c.size())];
}
static void run_other(Th *me, Th *t) {
  t->st = Th::RUN;
  if (t == me)
    return;
  give_baton(t);
  if (me->st != Th::DONE)
    wait_baton(me);
}
static int alive() {
  int n = 0;
  for (auto *t : ths())
    n += t->st != Th::DONE;
  return n;
}
void sched_point() {
  if (!g_on || !g_controlled || t_internal || !t_self || !g_cfg.en[K_SCHED])
    return;
  if (alive() <= 1)
    return;
  Internal in;
  Th *t = pick_next(t_self, true);
  run_other(t_self, t);
}
void wait_until(const std::function<bool()> &pred) {
  if (!t_self) {
    while (!pred())
      usleep(200);
    return;
  }
  Th *me = t_self;
  for (;;) {
    if (pred())
      return;
    Internal in;
    me->pred = pred;
    me->st = Th::BLOCK;
    run_other(me, pick_next(me, false));
    me->st = Th::RUN;
  }
}
using create_fn = int (*)(pthread_t *, const pthread_attr_t *,
                          void *(*)(void *), void *);
template <class F> static F real(const char *n) {
  return (F)dlsym(RTLD_NEXT, n);
}
static create_fn real_create() {
  static create_fn f = real<create_fn>("pthread_create");
  return f;
}
struct Start {
  Th *t;
  std::function<void()> body;
};
static void thread_end(Th *me) {
  ++t_internal;
  me->st = Th::DONE;
  if (mc_tsan_release)
    mc_tsan_release(me->id, me);
  Th *t = pick_next(me, false);
  run_other(me, t);
}
static void *trampoline(void *p) {
  Start *s = (Start *)p;
  Th *me = s->t;
  t_self = me;
  wait_baton(me);
  if (mc_tsan_thread_start)
    mc_tsan_thread_start();
  try {
    s->body();
  } catch (...) {
    logev('U', "exception escaped a task");
  }
  thread_end(me);
  return nullptr;
}
static Th *new_thread(std::function<void()> body, bool detach) {
  Th *t = new Th;
  t->id = (int)ths().size();
  ths().push_back(t);
  if (mc_tsan_spawn)
    mc_tsan_spawn(self(), t->id);
  auto *s = new Start{t, std::move(body)};
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, 1 << 20);
  if (detach)
    pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
  if (real_create()(&t->pt, &a, trampoline, s) != 0) {
    logev('Z', "cannot create thread");
    _exit(95);
  }
  return t;
}
void spawn_task(const std::function<void()> &body) {
  Internal in;
  new_thread(
      [body] {
        int save = t_internal;
        t_internal = 0;
        body();
        t_internal = save;
      },
      true);
}

static thread_local void *t_worker = nullptr;
void *&tls_worker() { return t_worker; }
void hb_acquire(const void *a) {
  if (mc_tsan_acquire && t_self)
    mc_tsan_acquire(self(), a);
}
void hb_release(const void *a) {
  if (mc_tsan_release && t_self)
    mc_tsan_release(self(), a);
}
// ------------------------------------------------------------ helpers
uint64_t fnv(const std::string &s, uint64_t h) {
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return h;
}
std::string canon(const std::string &s) {
  if (g_root.empty())
    return s;
  std::string r;
  size_t i = 0;
  while (true) {
    size_t j = s.find(g_root, i);
    if (j == std::string::npos) {
      r += s.substr(i);
      return r;
    }
    r += s.substr(i, j - i);
    r += "/R";
    i = j + g_root.size();
  }
}
int64_t content_mtime(const std::string &c) {
  uint64_t h = fnv(canon(c));
  return (1600000000ll + (int64_t)(h % 1000003)) * 1000000000ll +
         (int64_t)((h >> 20) % 999999937);
}
static void set_mtime(const std::string &path, int64_t ns) {
  timespec ts[2];
  ts[0].tv_sec = ns / 1000000000ll;
  ts[0].tv_nsec = ns % 1000000000ll;
  ts[1] = ts[0];
  syscall(SYS_utimensat, AT_FDCWD, path.c_str(), ts, 0);
}
bool read_raw(const std::string &path, std::string &out) {
  out.clear();
  int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY | O_CLOEXEC);
  if (fd < 0)
    return false;
  char b[8192];
  for (;;) {
    long n = syscall(SYS_read, fd, b, sizeof b);
    if (n < 0) {
      syscall(SYS_close, fd);
      return false;
    }
    if (n == 0)
      break;
    out.append(b, n);
  }
  syscall(SYS_close, fd);
  return true;
}
void write_raw(const std::string &path, const std::string &content,
               int64_t mtime_ns) {
  int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(),
                        O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
  if (fd < 0) {
    fprintf(stderr, "write_raw %s: %s\n", path.c_str(), strerror(errno));
    return;
  }
  size_t off = 0;
  while (off < content.size()) {
    long n = syscall(SYS_write, fd, content.data() + off, content.size() - off);
    if (n <= 0)
      break;
    off += n;
  }
  syscall(SYS_close, fd);
  if (mtime_ns)
    set_mtime(path, mtime_ns);
}
bool exists_raw(const std::string &path) {
  return syscall(SYS_faccessat, AT_FDCWD, path.c_str(), F_OK, 0) == 0;
}
void mkdirs(const std::string &p) {
  for (size_t i = 1; i <= p.size(); i++)
    if (i == p.size() || p[i] == '/')
      syscall(SYS_mkdirat, AT_FDCWD, p.substr(0, i).c_str(), 0755);
}
static void list_dir(const std::string &base, const std::string &rel,
                     Tree &out, bool normalise) {
  std::string d = rel.empty() ? base : base + "/" + rel;
  DIR *dp = opendir(d.c_str());
  if (!dp)
    return;
  while (dirent *e = readdir(dp)) {
    std::string n = e->d_name;
    if (n == "." || n == "..")
      continue;
    std::string r = rel.empty() ? n : rel + "/" + n;
    struct stat st;
    if (fstatat(AT_FDCWD, (base + "/" + r).c_str(), &st, AT_SYMLINK_NOFOLLOW))
      continue;
    if (S_ISDIR(st.st_mode)) {
      FileState f;
      f.dir = true;
      out[r] = f;
      list_dir(base, r, out, normalise);
    } else {
      FileState f;
      read_raw(base + "/" + r, f.content);
      f.mtime_ns = st.st_mtim.tv_sec * 1000000000ll + st.st_mtim.tv_nsec;
      if (normalise) {
        int64_t w = content_mtime(f.content);
        if (w != f.mtime_ns) {
          set_mtime(base + "/" + r, w);
          f.mtime_ns = w;
        }
      }
      out[r] = f;
    }
  }
  closedir(dp);
}
Tree snapshot(const std::string &base, bool normalise) {
  Internal in;
  Tree t;
  list_dir(base, "", t, normalise);
  return t;
}
static void rm_rec(const std::string &p) {
  struct stat st;
  if (fstatat(AT_FDCWD, p.c_str(), &st, AT_SYMLINK_NOFOLLOW))
    return;
  if (S_ISDIR(st.st_mode)) {
    syscall(SYS_fchmodat, AT_FDCWD, p.c_str(), 0755);
    DIR *dp = opendir(p.c_str());
    if (dp) {
      std::vector<std::string> v;
      while (dirent *e = readdir(dp)) {
        std::string n = e->d_name;
        if (n != "." && n != "..")
          v.push_back(n);
      }
      closedir(dp);
      for (auto &n : v)
        rm_rec(p + "/" + n);
    }
    syscall(SYS_unlinkat, AT_FDCWD, p.c_str(), AT_REMOVEDIR);
  } else
    syscall(SYS_unlinkat, AT_FDCWD, p.c_str(), 0);
}
void rm_rf(const std::string &p) {
  // only ever inside a scratch directory of ours
  if (p.find("/mcscratch.") == std::string::npos) {
    fprintf(stderr, "refusing to remove %s\n", p.c_str());
    return;
  }
  Internal in;
  rm_rec(p);
}
void restore(const std::string &base, const Tree &t) {
  Internal in;
  Tree cur;
  list_dir(base, "", cur, false);
  // remove extra (reverse order: children first)
  for (auto it = cur.rbegin(); it != cur.rend(); ++it) {
    auto f = t.find(it->first);
    if (f == t.end() || f->second.dir != it->second.dir)
      rm_rec(base + "/" + it->first);
  }
  for (auto &[p, f] : t) {
    auto c = cur.find(p);
    if (c != cur.end() && c->second == f)
      continue;
    if (f.dir)
      syscall(SYS_mkdirat, AT_FDCWD, (base + "/" + p).c_str(), 0755);
    else
      write_raw(base + "/" + p, f.content, f.mtime_ns);
  }
}
uint64_t tree_hash(const Tree &t) {
  uint64_t h = 1469598103934665603ull;
  for (auto &[p, f] : t) {
    h = fnv(p, h);
    h = fnv(f.dir ? "/" : canon(f.content), h * 31 + 7);
    h = h * 1099511628211ull ^ (uint64_t)f.mtime_ns;
  }
  return h;
}
void set_root(const std::string &r) { g_root = r; }

// ------------------------------------------------------------ running children
std::string Result::outcome() const {
  if (exited)
    return code == 98 ? "deadlock" : "exit " + std::to_string(code);
  if (sig == 14)
    return "hang (time limit)";
  return "signal " + std::to_string(sig);
}

static void ensure_shm() {
  if (!g_shm) {
    g_shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE,
                        MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
}
Result run_child(const std::function<void()> &body,
                 const std::vector<Choice> &prefix, const Cfg &cfg) {
  ensure_shm();
  g_shm->prefix_len = (int)prefix.size();
  std::copy(prefix.begin(), prefix.end(), g_shm->prefix);
  g_shm->ntrace = 0;
  g_shm->diverged = g_shm->overflow = 0;
  g_shm->log_off = 0;
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    _exit(94);
  }
  if (pid == 0) {
    g_cfg = cfg;
    signal(SIGALRM, SIG_DFL);
    alarm(cfg.timeout_s);
    int dn = (int)syscall(SYS_openat, AT_FDCWD,
                          getenv("MC_CHILD_OUT") ? getenv("MC_CHILD_OUT")
                                                 : "/dev/null",
                          O_WRONLY | O_APPEND | O_CREAT, 0666);
    dup2(dn, 1);
    dup2(dn, 2);
    if (g_controlled) {
      Th *m = new Th;
      m->id = 0;
      ths().push_back(m);
      t_self = m;
    }
    g_on = true;
    try {
      body();
    } catch (...) {
      logev('U', "exception escaped the script");
      _exit(93);
    }
    exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    ;
  Result r;
  if (WIFEXITED(st)) {
    r.exited = true;
    r.code = WEXITSTATUS(st);
  } else
    r.sig = WTERMSIG(st);
  r.diverged = g_shm->diverged;
  r.overflow = g_shm->overflow;
  r.trace.assign(g_shm->trace, g_shm->trace + g_shm->ntrace);
  uint32_t off = 0, end = std::min<uint32_t>(g_shm->log_off, Shm::MAXL);
  while (off + 9 <= end) {
    Event e;
    e.type = g_shm->log[off];
    uint32_t len;
    memcpy(&e.tid, g_shm->log + off + 1, 4);
    memcpy(&len, g_shm->log + off + 5, 4);
    if (e.type == 0 || off + 9 + len > end)
      break;
    e.s.assign(g_shm->log + off + 9, len);
    off += 9 + len;
    r.ev.push_back(std::move(e));
  }
  memset(g_shm->log, 0, end);
  if (r.diverged) {
    fprintf(stderr, "MC-INTERNAL: prefix divergence (nondeterminism not under control)\n");
  }
  return r;
}
void set_controlled(bool b) { g_controlled = b; }

// ------------------------------------------------------------ points
void crash_point() {
  if (!g_on || t_internal)
    return;
  if (choose(K_CRASH, 2) == 1)
    _exit(137);
}
void edit_point() {
  if (!g_on || t_internal || !g_cfg.en[K_EDIT] || !edit_count)
    return;
  Internal in;
  int n = edit_count();
  int c = choose(K_EDIT, 1 + n);
  if (c) {
    edit_apply(c);
    logev('N', "edit " + std::to_string(c));
  }
}
int fail_choice(const std::string &what) {
  if (always_fail && always_fail(what))
    return 1;
  if (!g_cfg.en[K_FAIL])
    return 0;
  if (may_fail && !may_fail(what))
    return 0;
  return choose(K_FAIL, 1 + g_cfg.fail_modes);
}

// ------------------------------------------------------------ simulated programs
std::vector<std::string> split_cmd(const std::string &cmd) {
  std::vector<std::string> v;
  std::string cur;
  bool in = false, q = false, sq = false;
  for (size_t i = 0; i < cmd.size(); i++) {
    char c = cmd[i];
    if (sq) {
      if (c == '\'')
        sq = false;
      else
        cur += c;
      continue;
    }
    if (c == '\'' && !q) {
      sq = in = true;
      continue;
    }
    if (c == '"') {
      q = !q;
      in = true;
      continue;
    }
    if (c == '\\' && i + 1 < cmd.size()) {
      cur += cmd[++i];
      in = true;
      continue;
    }
    if (!q && (c == ' ' || c == '\t' || c == '\n' || c == '\r')) {
      if (in)
        v.push_back(cur);
      cur.clear();
      in = false;
      continue;
    }
    cur += c;
    in = true;
  }
  if (in)
    v.push_back(cur);
  return v;
}
static std::string base_name(const std::string &p) {
  size_t i = p.rfind('/');
  return i == std::string::npos ? p : p.substr(i + 1);
}
static std::string dir_name(const std::string &p) {
  size_t i = p.rfind('/');
  return i == std::string::npos ? "." : p.substr(0, i);
}
static std::string hex(uint64_t h) {
  char b[20];
  snprintf(b, sizeof b, "%016lx", (unsigned long)h);
  return b;
}
struct Sim {
  int status = 0;
  std::string out, err;
  std::string outfile, content; // file to write on success
  bool removed_first = false;
};
static bool expand(const std::string &content,
                   const std::vector<std::string> &incs, std::string &acc,
                   int depth) {
  if (depth > 8)
    return false;
  acc += content;
  acc += "\x01";
  size_t i = 0;
  while (i < content.size()) {
    size_t j = content.find('\n', i);
    std::string line =
        content.substr(i, j == std::string::npos ? j : j - i);
    i = j == std::string::npos ? content.size() : j + 1;
    while (!line.empty() && (line.back() == '\r' || line.back() == ' '))
      line.pop_back();
    std::string f;
    if (line.rfind("@inc ", 0) == 0) {
      std::string n = line.substr(5);
      for (auto &d : incs)
        if (exists_raw(d + "/" + n)) {
          f = d + "/" + n;
          break;
        }
      if (f.empty())
        return false;
    } else if (line.rfind("@use ", 0) == 0) {
      f = line.substr(5);
      if (!f.empty() && f[0] == '%')
        f = g_root + f.substr(1);
    } else if (line.rfind("#include \"", 0) == 0) {
      f = line.substr(10);
      f = f.substr(0, f.rfind('"'));
    }
    if (!f.empty()) {
      std::string c;
      if (!read_raw(f, c))
        return false;
      acc += "<" + canon(f) + ">";
      if (!expand(c, incs, acc, depth + 1))
        return false;
    }
  }
  return true;
}
static void sim_ar(const std::vector<std::string> &a, Sim &s) {
  // ar rcs OUT members...
  size_t i = 1;
  if (i < a.size() && a[i].find('/') == std::string::npos &&
      a[i].find('.') == std::string::npos)
    i++;
  if (i >= a.size()) {
    s.status = 1;
    return;
  }
  s.outfile = a[i++];
  std::vector<std::pair<std::string, std::string>> mem;
  std::string old;
  if (read_raw(s.outfile, old)) {
    if (old.rfind("!<arch>\n", 0) != 0) {
      s.status = 1;
      s.err = "file format not recognized";
      return;
    }
    size_t p = 8;
    while (p < old.size()) {
      size_t e = old.find('\n', p);
      if (e == std::string::npos)
        break;
      std::string l = old.substr(p, e - p);
      size_t sp = l.find(' ');
      mem.push_back({l.substr(0, sp), l.substr(sp + 1)});
      p = e + 1;
    }
  }
  std::map<std::string, int> seen;
  for (; i < a.size(); i++) {
    std::string c;
    if (!read_raw(a[i], c)) {
      s.status = 1;
      s.err = "no such member " + a[i];
      return;
    }
    std::string b = base_name(a[i]);
    int k = seen[b]++, idx = -1, cnt = 0;
    for (size_t m = 0; m < mem.size(); m++)
      if (mem[m].first == b && cnt++ == k) {
        idx = (int)m;
        break;
      }
    if (idx >= 0)
      mem[idx].second = hex(fnv(c));
    else
      mem.push_back({b, hex(fnv(c))});
  }
  s.content = "!<arch>\n";
  for (auto &m : mem)
    s.content += m.first + " " + m.second + "\n";
}
static void sim_cc(const std::string &cmd, const std::vector<std::string> &a,
                   Sim &s) {
  std::vector<std::string> incs, libdirs, inputs, linkscripts, libs, pre;
  bool compile = false;
  for (size_t i = 1; i < a.size(); i++) {
    const std::string &t = a[i];
    if (t == "-dumpversion") {
      s.out = "13.3.0\n";
      return;
    }
    if (t == "-dumpmachine") {
      s.out = "x86_64-linux-gnu\n";
      return;
    }
    if (t == "-c")
      compile = true;
    else if (t == "-o" && i + 1 < a.size())
      s.outfile = a[++i];
    else if (t == "-include" && i + 1 < a.size())
      pre.push_back(a[++i]);
    else if (t.rfind("-I", 0) == 0)
      incs.push_back(t.substr(2));
    else if (t.rfind("-L", 0) == 0)
      libdirs.push_back(t.substr(2));
    else if (t.rfind("-T", 0) == 0 && t.size() > 2)
      linkscripts.push_back(t.substr(2));
    else if (t.rfind("-l", 0) == 0)
      libs.push_back(t.substr(2));
    else if (!t.empty() && t[0] == '-')
      ;
    else
      inputs.push_back(t);
  }
  auto bad = [&](const std::string &m) {
    s.status = 1;
    s.err = m;
  };
  if (s.outfile.empty() || inputs.empty())
    return bad("no output or no input");
  std::string acc = canon(cmd) + "\x02", c;
  if (compile) {
    for (auto &p : pre) {
      if (read_raw(p + ".gch", c))
        acc += "<gch>" + c;
      else if (read_raw(p, c)) {
        if (!expand(c, incs, acc, 0))
          return bad("include not found");
      } else
        return bad("no such file " + p);
    }
    for (auto &p : inputs) {
      if (!read_raw(p, c))
        return bad("no such file " + p);
      if (!expand(c, incs, acc, 0))
        return bad("include not found");
    }
    s.content = "OBJ " + hex(fnv(acc)) + "\n";
  } else {
    for (auto &p : inputs) {
      if (!read_raw(p, c))
        return bad("no such file " + p);
      acc += "<" + canon(p) + ">" + c;
    }
    for (auto &p : linkscripts) {
      if (!read_raw(p, c))
        return bad("no such file " + p);
      acc += "<T>" + c;
    }
    for (auto &l : libs) {
      bool f = l == "pthread"; // part of the system
      for (auto &d : libdirs)
        if (read_raw(d + "/lib" + l + ".a", c)) {
          f = true;
          break;
        }
      if (!f)
        return bad("cannot find -l" + l);
      acc += "<l>" + c;
    }
    s.content = "EXE " + hex(fnv(acc)) + "\n";
  }
  struct stat st;
  if (fstatat(AT_FDCWD, dir_name(s.outfile).c_str(), &st, 0) ||
      !S_ISDIR(st.st_mode))
    return bad("output directory missing");
}

struct Proc {
  int idx = 0, status = 0;
  bool done = false;
  std::string cmd, cwd;
  std::function<void(const char *, size_t)> out, err;
};
static std::atomic<int> g_proc_idx{0};

static bool inside_root(const std::string &p) {
  return p.rfind(g_root + "/", 0) == 0;
}

Proc *proc_start(const std::string &cmd, const std::string &cwd,
                 std::function<void(const char *, size_t)> out,
                 std::function<void(const char *, size_t)> err,
                 const std::unordered_map<std::string, std::string> *) {
  auto *p = new Proc;
  p->cmd = cmd;
  p->cwd = cwd;
  p->out = std::move(out);
  p->err = std::move(err);
  sched_point();
  edit_point();
  Internal in;
  p->idx = ++g_proc_idx;
  logev('B', std::to_string(p->idx) + "\t" + cwd + "\t" + cmd);
  return p;
}
static void proc_finish(Proc *p, bool observed) {
  if (p->done)
    return;
  p->done = true;
  sched_point();
  Sim s;
  {
    Internal in;
    auto a = split_cmd(p->cmd);
    std::string b = a.empty() ? "" : base_name(a[0]);
    int st = 127;
    if (custom_program && custom_program(p->cmd, a, p->cwd, st, s.out, s.err))
      s.status = st;
    else if (b == "ar" || b.find("-ar") != std::string::npos)
      sim_ar(a, s);
    else if (b.find("gcc") != std::string::npos ||
             b.find("g++") != std::string::npos || b == "as" || b == "cc" ||
             b.find("clang") != std::string::npos || b == "ld")
      sim_cc(p->cmd, a, s);
    else {
      s.status = 127;
      s.err = "unknown program";
    }
  }
  edit_point();
  int f = fail_choice(p->cmd);
  bool file = !s.outfile.empty();
  if (file && !inside_root(s.outfile)) {
    logev('X', "command output outside the scratch area: " + s.outfile);
    file = false;
    s.status = s.status ? s.status : 1;
  }
  if (g_cfg.en[K_CRASH] && file && !s.status && !f) {
    int c = choose(K_CRASH, 4);
    Internal in;
    if (c == 1)
      _exit(137);
    if (c == 2) {
      write_raw(s.outfile, "GARBAGE half\n", content_mtime("GARBAGE half\n"));
      _exit(137);
    }
    if (c == 3) {
      write_raw(s.outfile, s.content, content_mtime(s.content));
      _exit(137);
    }
  }
  {
    Internal in;
    if (s.status == 0 && f == 0) {
      if (file)
        write_raw(s.outfile, s.content, content_mtime(s.content));
    } else {
      if (f && s.status == 0) {
        // ended by itself or by a signal, or could not be started (-1); which
        // one depends on the command and on the way it fails
        static const int codes[] = {1, 2, 255, 127, -1, 139, 9};
        unsigned k = (unsigned)f;
        for (unsigned char ch : p->cmd.substr(p->cmd.find_last_of("/ ") + 1))
          k = k * 31 + ch;
        s.status = codes[k % 7];
      }
      if (file && f == 2)
        write_raw(s.outfile, "GARBAGE\n", content_mtime("GARBAGE\n"));
      if (file && f == 3)
        syscall(SYS_unlinkat, AT_FDCWD, s.outfile.c_str(), 0);
    }
  }
  p->status = s.status;
  sched_point();
  edit_point();
  Internal in;
  logev(observed ? 'E' : 'e',
        std::to_string(p->idx) + "\t" + std::to_string(s.status) + "\t" +
            (file ? s.outfile : ""));
  // output arrives in pieces: programs may ask for several with \x1e
  if (p->out && !s.out.empty())
    for (size_t i = 0; i <= s.out.size();) {
      size_t j = std::min(s.out.find('\x1e', i), s.out.size());
      if (j > i)
        p->out(s.out.data() + i, j - i);
      i = j + 1;
    }
  if (p->err && !s.err.empty())
    p->err(s.err.data(), s.err.size());
}
int proc_wait(Proc *p) {
  proc_finish(p, true);
  return p->status;
}
bool proc_try(Proc *p, int &st) {
  proc_finish(p, true);
  st = p->status;
  return true;
}
void proc_kill(Proc *p) { p->status = 143; p->done = true; }
void proc_free(Proc *p) {
  proc_finish(p, false);
  delete p;
}

// ------------------------------------------------------------ interposition
static std::string abspath(const char *p) {
  if (p[0] == '/')
    return p;
  char b[PATH_MAX];
  if (syscall(SYS_getcwd, b, sizeof b) < 0)
    return p;
  return std::string(b) + "/" + p;
}
static std::string atpath(int dfd, const char *p) {
  if (p[0] == '/' || dfd == AT_FDCWD)
    return abspath(p);
  char l[64], b[PATH_MAX];
  snprintf(l, sizeof l, "/proc/self/fd/%d", dfd);
  long n = syscall(SYS_readlinkat, AT_FDCWD, l, b, sizeof b - 1);
  if (n < 0)
    return p;
  b[n] = 0;
  return std::string(b) + "/" + p;
}
// lexical normalisation for the containment test
static std::string norm(const std::string &p) {
  std::vector<std::string> v;
  size_t i = 0;
  while (i < p.size()) {
    size_t j = p.find('/', i);
    std::string c = p.substr(i, j == std::string::npos ? j : j - i);
    i = j == std::string::npos ? p.size() : j + 1;
    if (c.empty() || c == ".")
      continue;
    if (c == "..") {
      if (!v.empty())
        v.pop_back();
      continue;
    }
    v.push_back(c);
  }
  std::string r;
  for (auto &c : v)
    r += "/" + c;
  return r.empty() ? "/" : r;
}
static bool live() { return g_on && t_internal == 0; }
// returns false if the mutation must be refused (outside scratch)
static bool mutation(const char *op, const std::string &path) {
  std::string n = norm(path);
  if (n == "/dev/null" || n == "/dev/tty" || n == "/dev/stdout")
    return true;
  if (!(n == g_root || inside_root(n))) {
    Internal in;
    logev('X', std::string(op) + " " + n);
    errno = EACCES;
    return false;
  }
  sched_point();
  edit_point();
  crash_point();
  Internal in;
  logev('M', std::string(op) + " " + n);
  return true;
}
static std::map<int, std::string> &fds() {
  static auto *m = new std::map<int, std::string>;
  return *m;
}
static std::atomic_flag fds_lock = ATOMIC_FLAG_INIT;
struct FdLock {
  FdLock() {
    while (fds_lock.test_and_set(std::memory_order_acquire))
      ;
  }
  ~FdLock() { fds_lock.clear(std::memory_order_release); }
};
static void track(int fd, const std::string &p) {
  Internal in;
  FdLock l;
  fds()[fd] = p;
}
static bool tracked(int fd, std::string &p) {
  FdLock l;
  auto it = fds().find(fd);
  if (it == fds().end())
    return false;
  p = it->second;
  return true;
}
static void untrack(int fd) {
  FdLock l;
  fds().erase(fd);
}
static void closed(const std::string &p) {
  // a file written by the build tool was closed: stamp it deterministically
  Internal in;
  std::string c;
  if (!g_cfg.real_mtime && read_raw(p, c))
    set_mtime(p, content_mtime(c));
}
static int io_fault(int bit, int n, const std::string &path) {
  if (!(g_cfg.io_faults & bit))
    return 0;
  int c = choose(K_IO, n);
  if (c) {
    Internal in;
    logev('F', std::to_string(bit) + ":" + std::to_string(c) + " " + path);
  }
  return c;
}
} // namespace mc

using namespace mc;

#define REAL(ret, name, ...)                                                   \
  static auto r_##name = (ret(*)(__VA_ARGS__))nullptr;                         \
  if (!r_##name)                                                               \
    r_##name = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name);

static bool wr(int flags) {
  return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_TRUNC | O_CREAT));
}
static int do_open(const std::string &full, int flags,
                   const std::function<int()> &go) {
  if (!live())
    return go();
  if (wr(flags)) {
    if (!mutation("open", full))
      return -1;
    if (io_fault(1, 2, "w " + full)) {
      errno = EIO;
      return -1;
    }
    int fd = go();
    if (fd >= 0)
      track(fd, norm(full));
    return fd;
  }
  edit_point();
  if (inside_root(full) && io_fault(1, 2, "r " + full)) {
    errno = EIO;
    return -1;
  }
  int fd = go();
  if (fd >= 0 && g_cfg.watch_reads) {
    Internal in;
    logev('r', norm(full));
  }
  return fd;
}
extern "C" {
int open(const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
  va_end(ap);
  return do_open(live() ? abspath(p) : "", flags, [&] {
    return (int)syscall(SYS_openat, AT_FDCWD, p, flags, mode);
  });
}
int open64(const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
  va_end(ap);
  return do_open(live() ? abspath(p) : "", flags, [&] {
    return (int)syscall(SYS_openat, AT_FDCWD, p, flags, mode);
  });
}
int openat(int d, const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
  va_end(ap);
  return do_open(live() ? atpath(d, p) : "", flags, [&] {
    return (int)syscall(SYS_openat, d, p, flags, mode);
  });
}
int openat64(int d, const char *p, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
  va_end(ap);
  return do_open(live() ? atpath(d, p) : "", flags, [&] {
    return (int)syscall(SYS_openat, d, p, flags, mode);
  });
}
static FILE *do_fopen(const char *p, const char *m,
                      FILE *(*f)(const char *, const char *)) {
  if (!live())
    return f(p, m);
  bool w = strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+');
  FILE *r = nullptr;
  std::string full = abspath(p);
  if (w) {
    if (!mutation("open", full))
      return nullptr;
    if (io_fault(1, 2, "w " + full)) {
      errno = EIO;
      return nullptr;
    }
    r = f(p, m);
    if (r) {
      track(fileno(r), norm(full));
      crash_point();
    }
    return r;
  }
  edit_point();
  if (inside_root(full) && io_fault(1, 2, "r " + full)) {
    errno = EIO;
    return nullptr;
  }
  r = f(p, m);
  if (r && (g_cfg.io_faults & 8)) {
    Internal in;
    FdLock l;
    fds()[-1000 - fileno(r)] = full; // readable, for read faults
  }
  if (r && g_cfg.watch_reads) {
    Internal in;
    logev('r', norm(full));
  }
  return r;
}
FILE *fopen(const char *p, const char *m) {
  REAL(FILE *, fopen, const char *, const char *);
  return do_fopen(p, m, r_fopen);
}
FILE *fopen64(const char *p, const char *m) {
  REAL(FILE *, fopen64, const char *, const char *);
  return do_fopen(p, m, r_fopen64);
}
int fclose(FILE *f) {
  REAL(int, fclose, FILE *);
  if (!live())
    return r_fclose(f);
  std::string p;
  int fd = fileno(f);
  if (!tracked(fd, p)) {
    {
      Internal in;
      FdLock l;
      fds().erase(-1000 - fd);
    }
    return r_fclose(f);
  }
  crash_point();
  untrack(fd);
  int r = r_fclose(f);
  int e = errno;
  closed(p);
  errno = e;
  if (io_fault(4, 2, "w " + p)) {
    errno = EIO;
    return EOF;
  }
  crash_point();
  return r;
}
int close(int fd) {
  std::string p;
  if (!live() || !tracked(fd, p))
    return (int)syscall(SYS_close, fd);
  crash_point();
  untrack(fd);
  int r = (int)syscall(SYS_close, fd);
  closed(p);
  if (io_fault(4, 2, "w " + p)) {
    errno = EIO;
    return -1;
  }
  crash_point();
  return r;
}
static ssize_t do_write(int fd, const std::string &buf, const std::string &path) {
  // crash with any prefix written
  if (g_cfg.en[K_CRASH]) {
    size_t n = buf.size();
    std::vector<size_t> cut;
    if (g_cfg.torn_all)
      for (size_t i = 0; i < n; i++)
        cut.push_back(i);
    else {
      std::set<size_t> s;
      if (n > 1)
        s.insert({1, n / 2, n - 1});
      for (size_t c : s)
        if (c < n)
          cut.push_back(c);
    }
    int c = choose(K_CRASH, 1 + (int)std::min<size_t>(cut.size(), 60000));
    if (c) {
      syscall(SYS_write, fd, buf.data(), cut[c - 1]);
      _exit(137);
    }
  }
  int f = io_fault(2, 4, "w " + path);
  if (f == 1) {
    errno = ENOSPC;
    return -1;
  }
  if (f == 2 && buf.size() > 1) { // short write
    return syscall(SYS_write, fd, buf.data(), buf.size() / 2);
  }
  if (f == 3) {
    errno = EINTR;
    return -1;
  }
  return syscall(SYS_write, fd, buf.data(), buf.size());
}
ssize_t write(int fd, const void *b, size_t n) {
  std::string p;
  if (!live() || !tracked(fd, p))
    return syscall(SYS_write, fd, b, n);
  sched_point();
  edit_point();
  Internal in;
  return do_write(fd, std::string((const char *)b, n), p);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  std::string p;
  if (!live() || !tracked(fd, p))
    return syscall(SYS_writev, fd, v, c);
  sched_point();
  edit_point();
  Internal in;
  std::string all;
  for (int i = 0; i < c; i++)
    all.append((const char *)v[i].iov_base, v[i].iov_len);
  return do_write(fd, all, p);
}
ssize_t read(int fd, void *b, size_t n) {
  if (live() && (g_cfg.io_faults & 8)) {
    bool t;
    {
      Internal in;
      FdLock l;
      t = fds().count(-1000 - fd) || fds().count(fd);
    }
    if (t) {
      int f = io_fault(8, 4, "r ");
      if (f == 1) {
        errno = EIO;
        return -1;
      }
      if (f == 2 && n > 1) // short read
        n = 1;
      if (f == 3) {
        errno = EINTR;
        return -1;
      }
    }
  }
  return syscall(SYS_read, fd, b, n);
}
int rename(const char *a, const char *b) {
  if (!live())
    return (int)syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
  if (!mutation("rename", abspath(b)) || !mutation("renamefrom", abspath(a)))
    return -1;
  if (io_fault(16, 2, std::string("w ") + b)) {
    errno = EIO;
    return -1;
  }
  int r = (int)syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
  crash_point();
  return r;
}
int renameat(int d, const char *a, int d2, const char *b) {
  if (live() &&
      (!mutation("rename", atpath(d2, b)) || !mutation("renamefrom", atpath(d, a))))
    return -1;
  return (int)syscall(SYS_renameat2, d, a, d2, b, 0);
}
int unlink(const char *p) {
  if (live() && !mutation("unlink", abspath(p)))
    return -1;
  int r = (int)syscall(SYS_unlinkat, AT_FDCWD, p, 0);
  int e = errno;
  crash_point();
  errno = e;
  return r;
}
int unlinkat(int d, const char *p, int fl) {
  if (live() && !mutation("unlink", atpath(d, p)))
    return -1;
  int r = (int)syscall(SYS_unlinkat, d, p, fl);
  int e = errno;
  crash_point();
  errno = e;
  return r;
}
int rmdir(const char *p) {
  if (live() && !mutation("rmdir", abspath(p)))
    return -1;
  return (int)syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR);
}
int remove(const char *p) noexcept {
  if (live()) {
    if (!exists_raw(p) ) {
      struct stat st;
      if (fstatat(AT_FDCWD, p, &st, AT_SYMLINK_NOFOLLOW)) {
        errno = ENOENT;
        return -1;
      }
    }
    if (!mutation("remove", abspath(p)))
      return -1;
  }
  int r = (int)syscall(SYS_unlinkat, AT_FDCWD, p, 0);
  if (r && (errno == EISDIR || errno == EPERM))
    r = (int)syscall(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR);
  int e = errno;
  crash_point();
  errno = e;
  return r;
}
static bool is_dir_raw(const std::string &p) {
  struct stat st;
  return fstatat(AT_FDCWD, p.c_str(), &st, 0) == 0 && S_ISDIR(st.st_mode);
}
int mkdir(const char *p, mode_t m) noexcept {
  if (live()) {
    std::string f = abspath(p);
    if (!is_dir_raw(f) && !mutation("mkdir", f))
      return -1;
  }
  return (int)syscall(SYS_mkdirat, AT_FDCWD, p, m);
}
int mkdirat(int d, const char *p, mode_t m) noexcept {
  if (live() && !mutation("mkdir", atpath(d, p)))
    return -1;
  return (int)syscall(SYS_mkdirat, d, p, m);
}
int truncate(const char *p, off_t l) noexcept {
  if (live() && !mutation("truncate", abspath(p)))
    return -1;
  return (int)syscall(SYS_truncate, p, l);
}
int symlink(const char *a, const char *p) noexcept {
  if (live() && !mutation("symlink", abspath(p)))
    return -1;
  return (int)syscall(SYS_symlinkat, a, AT_FDCWD, p);
}
int link(const char *a, const char *p) noexcept {
  if (live() && !mutation("link", abspath(p)))
    return -1;
  return (int)syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, p, 0);
}
int chmod(const char *p, mode_t m) noexcept {
  if (live() && !mutation("chmod", abspath(p)))
    return -1;
  return (int)syscall(SYS_fchmodat, AT_FDCWD, p, m);
}
int stat(const char *p, struct stat *st) noexcept {
  edit_point();
  return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
}
int stat64(const char *p, struct stat64 *st) noexcept {
  edit_point();
  return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
}
int system(const char *c) {
  if (live()) {
    logev('X', std::string("system ") + c);
    return -1;
  }
  return -1;
}

// ---- threads and locks
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *),
                   void *arg) {
  if (!g_on || !g_controlled || t_internal || !t_self)
    return real_create()(t, a, f, arg);
  Internal in;
  Th *n = new_thread(
      [f, arg] {
        int save = t_internal;
        t_internal = 0;
        f(arg);
        t_internal = save;
      },
      false);
  *t = n->pt;
  return 0;
}
int pthread_join(pthread_t t, void **r) {
  REAL(int, pthread_join, pthread_t, void **);
  if (g_on && t_self && !t_internal) {
    for (auto *x : ths())
      if (x->id && pthread_equal(x->pt, t)) {
        wait_until([x] { return x->st == Th::DONE; });
        if (mc_tsan_acquire)
          mc_tsan_acquire(self(), x);
      }
  }
  return r_pthread_join(t, r);
}
static std::map<void *, Th *> &owners() {
  static auto *m = new std::map<void *, Th *>;
  return *m;
}
static bool from_exe(void *ra) {
  return (char *)ra >= &__executable_start && (char *)ra < &etext;
}
static bool ctl(void *ra) {
  return g_on && g_controlled && t_self && !t_internal && from_exe(ra);
}
static void ctl_lock(void *m) {
  sched_point();
  wait_until([m] {
    Internal in;
    return owners().count(m) == 0;
  });
  Internal in;
  owners()[m] = t_self;
  if (mc_tsan_acquire)
    mc_tsan_acquire(self(), m);
}
static void ctl_unlock(void *m) {
  {
    Internal in;
    if (mc_tsan_release)
      mc_tsan_release(self(), m);
    owners().erase(m);
  }
  sched_point();
}
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
  REAL(int, pthread_mutex_lock, pthread_mutex_t *);
  if (!ctl(__builtin_return_address(0)))
    return r_pthread_mutex_lock(m);
  {
    Internal in;
    auto it = owners().find(m);
    if (it != owners().end() && it->second == t_self) {
      int kind = m->__data.__kind & 3;
      if (kind == PTHREAD_MUTEX_RECURSIVE_NP)
        return 0;
    }
  }
  ctl_lock(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
  REAL(int, pthread_mutex_trylock, pthread_mutex_t *);
  if (!ctl(__builtin_return_address(0)))
    return r_pthread_mutex_trylock(m);
  sched_point();
  Internal in;
  if (owners().count(m))
    return EBUSY;
  owners()[m] = t_self;
  if (mc_tsan_acquire)
    mc_tsan_acquire(self(), m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
  REAL(int, pthread_mutex_unlock, pthread_mutex_t *);
  if (!ctl(__builtin_return_address(0)))
    return r_pthread_mutex_unlock(m);
  {
    Internal in;
    if (!owners().count(m))
      return r_pthread_mutex_unlock(m);
  }
  ctl_unlock(m);
  return 0;
}
#define RW(name)                                                               \
  int pthread_rwlock_##name(pthread_rwlock_t *m) noexcept {                    \
    REAL(int, pthread_rwlock_##name, pthread_rwlock_t *);                      \
    if (!ctl(__builtin_return_address(0)))                                     \
      return r_pthread_rwlock_##name(m);                                       \
    ctl_lock(m);                                                               \
    return 0;                                                                  \
  }
RW(rdlock)
RW(wrlock)
int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept {
  REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *);
  if (!ctl(__builtin_return_address(0)))
    return r_pthread_rwlock_unlock(m);
  ctl_unlock(m);
  return 0;
}
struct CvWait {
  bool sig = false;
};
static std::map<void *, std::vector<CvWait *>> &cvs() {
  static auto *m = new std::map<void *, std::vector<CvWait *>>;
  return *m;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *);
  bool mine = false;
  if (g_on && g_controlled && t_self && !t_internal) {
    Internal in;
    mine = owners().count(m) && owners()[m] == t_self;
  }
  if (!mine)
    return r_pthread_cond_wait(c, m);
  CvWait w;
  {
    Internal in;
    cvs()[c].push_back(&w);
  }
  ctl_unlock(m);
  wait_until([&w] { return w.sig; });
  ctl_lock(m);
  return 0;
}
int pthread_cond_signal(pthread_cond_t *c) noexcept {
  REAL(int, pthread_cond_signal, pthread_cond_t *);
  if (g_on && t_self && !t_internal) {
    Internal in;
    auto &v = cvs()[c];
    if (!v.empty()) {
      v.front()->sig = true;
      v.erase(v.begin());
    }
  }
  return r_pthread_cond_signal(c);
}
int pthread_cond_broadcast(pthread_cond_t *c) noexcept {
  REAL(int, pthread_cond_broadcast, pthread_cond_t *);
  if (g_on && t_self && !t_internal) {
    Internal in;
    for (auto *w : cvs()[c])
      w->sig = true;
    cvs()[c].clear();
  }
  return r_pthread_cond_broadcast(c);
}
// ---- function local statics
static std::set<void *> &guards() {
  static std::set<void *> *s = nullptr;
  if (!s)
    s = (std::set<void *> *)operator new(sizeof(std::set<void *>)),
    new (s) std::set<void *>;
  return *s;
}
int __cxa_guard_acquire(long long *g) {
  REAL(int, __cxa_guard_acquire, long long *);
  if (!g_on || !g_controlled || !t_self || t_internal)
    return r___cxa_guard_acquire(g);
  if (__atomic_load_n((char *)g, __ATOMIC_ACQUIRE))
    return 0;
  wait_until([g] {
    Internal in;
    return guards().count(g) == 0;
  });
  if (*(char *)g) {
    if (mc_tsan_acquire)
      mc_tsan_acquire(self(), g);
    return 0;
  }
  Internal in;
  guards().insert(g);
  return 1;
}
void __cxa_guard_release(long long *g) {
  REAL(void, __cxa_guard_release, long long *);
  if (!g_on || !g_controlled || !t_self || t_internal)
    return r___cxa_guard_release(g);
  {
    Internal in;
    if (!guards().count(g))
      return r___cxa_guard_release(g);
    if (mc_tsan_release)
      mc_tsan_release(self(), g);
    guards().erase(g);
  }
  __atomic_store_n((char *)g, 1, __ATOMIC_RELEASE);
}
void __cxa_guard_abort(long long *g) {
  REAL(void, __cxa_guard_abort, long long *);
  if (!g_on || !g_controlled || !t_self || t_internal)
    return r___cxa_guard_abort(g);
  Internal in;
  if (!guards().count(g))
    return r___cxa_guard_abort(g);
  guards().erase(g);
}
}

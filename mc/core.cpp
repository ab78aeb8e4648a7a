#include "core.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <grp.h>
#include <regex>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>

namespace mc {

struct Shared {
  std::atomic<long> next, states, trans, execs, traces, viol, errors;
  std::atomic<int> stop, capped;
};
static Shared *g_sh;
static FILE *g_out; // results of this worker
static double g_deadline;
static std::set<std::string> *g_known;
static std::set<std::string> *g_outcomes;
static int g_samples = 0;

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
std::string esc(const std::string &s) {
  std::string r;
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += (char)c;
    } else if (c == '\n')
      r += "\\n";
    else if (c < 32 || c >= 127) {
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += (char)c;
  }
  return r;
}
static void emit(const std::string &kind, const std::string &unit,
                 const std::string &a, const std::string &b) {
  fprintf(g_out, "{\"t\":\"%s\",\"unit\":\"%s\",\"key\":\"%s\",\"detail\":\"%s\"}\n",
          kind.c_str(), esc(unit).c_str(), esc(a).c_str(), esc(b).c_str());
  fflush(g_out);
}
void Ctx::violation(const std::string &key, const std::string &detail) {
  std::string k = canon(key);
  violations_in_unit++;
  emit("v", unit, k, canon(detail).substr(0, 6000));
  if (!g_known->count(k))
    if (++g_sh->viol >= 6)
      g_sh->stop = 1;
}
void Ctx::error(const std::string &what) {
  emit("e", unit, canon(what).substr(0, 3000), "");
  if (++g_sh->errors >= 8)
    g_sh->stop = 1;
}
void Ctx::sample(const std::string &s) {
  if (g_samples++ < 3)
    emit("s", unit, canon(s).substr(0, 1500), "");
}
void Ctx::outcome(const std::string &s) {
  if (g_outcomes->size() < 100000)
    g_outcomes->insert(canon(s));
}
void Ctx::states(long n) { g_sh->states += n; }
void Ctx::transitions(long n) { g_sh->trans += n; }
void Ctx::executions(long n) { g_sh->execs += n; }
void Ctx::traces(long n) { g_sh->traces += n; }
bool Ctx::stop() const {
  if (g_sh->stop)
    return true;
  if (now() > g_deadline) {
    g_sh->capped = 1;
    return true;
  }
  return false;
}

std::string show_choices(const std::vector<Choice> &c) {
  static const char *nm[] = {"sched", "fail", "crash", "edit", "io"};
  std::string r;
  for (size_t i = 0; i < c.size(); i++)
    if (c[i].pick)
      r += (r.empty() ? "" : ", ") + std::string("#") + std::to_string(i) + " " +
           nm[c[i].kind] + "=" + std::to_string(c[i].pick) + "/" +
           std::to_string(c[i].n);
  return r.empty() ? "default" : r;
}
std::string show(const Result &r, size_t max_ev) {
  std::string s = "outcome: " + r.outcome() + "\nchoices: " + show_choices(r.trace) + "\n";
  size_t n = 0;
  for (auto &e : r.ev) {
    if (e.type == 'M' || e.type == 'r')
      continue;
    if (n++ >= max_ev) {
      s += "  ...\n";
      break;
    }
    std::string t = e.s;
    std::replace(t.begin(), t.end(), '\t', ' ');
    s += std::string("  ") + e.type + " [" + std::to_string(e.tid) + "] " + t + "\n";
  }
  return s;
}

static bool same(const Result &a, const Result &b) {
  if (a.outcome() != b.outcome() || a.trace.size() != b.trace.size() ||
      a.ev.size() != b.ev.size())
    return false;
  for (size_t i = 0; i < a.ev.size(); i++)
    if (a.ev[i].type != b.ev[i].type || a.ev[i].tid != b.ev[i].tid ||
        a.ev[i].s != b.ev[i].s)
      return false;
  return true;
}

static Result child(Ctx &cx, const std::function<void()> &setup,
                    const std::function<void()> &body, const Cfg &cfg,
                    const std::vector<Choice> &prefix) {
  if (setup)
    setup();
  Result r = run_child(body, prefix, cfg);
  cx.executions(1);
  if (r.timeout()) { // again, alone, with a longer limit
    Cfg c2 = cfg;
    c2.timeout_s = cfg.timeout_s * 2;
    if (setup)
      setup();
    r = run_child(body, prefix, c2);
    cx.executions(1);
  }
  if (r.diverged)
    cx.error("prefix divergence: " + show_choices(prefix));
  if (r.overflow)
    cx.error("log or choice overflow");
  if (r.exited && (r.code == 95 || r.code == 94))
    cx.error("runtime failure " + r.outcome());
  return r;
}

void explore(Ctx &cx, const std::function<void()> &setup,
             const std::function<void()> &body, const Cfg &cfg,
             const Budget &b, const std::function<bool(const Result &)> &seen) {
  std::vector<std::vector<Choice>> stack;
  stack.push_back({});
  static long n = 0;
  while (!stack.empty()) {
    if (cx.stop())
      return;
    auto prefix = std::move(stack.back());
    stack.pop_back();
    Result r = child(cx, setup, body, cfg, prefix);
    n++;
    if (n % 8 == 1) { // validate: replaying the recorded choices
      auto p2 = r.trace;
      Result r2 = child(cx, setup, body, cfg, p2);
      if (!same(r, r2)) {
        // timing dependent outcome?
        std::string at;
        for (size_t i = 0; i < r.ev.size() || i < r2.ev.size(); i++) {
          auto one = [&](const Result &x) { return i < x.ev.size() ? std::string(1, x.ev[i].type) + "[" + std::to_string(x.ev[i].tid) + "] " + x.ev[i].s : "none"; };
          if (one(r) != one(r2)) {
            at = "event " + std::to_string(i) + ": " + one(r) + " / " + one(r2) + (i ? ", after " + r.ev[i - 1].s : "") + "\n";
            break;
          }
        }
        cx.error("replay differs: " + at + show(r) + "----\n" + show(r2));
        return;
      }
      cx.traces(1);
      if (setup) { // leave the world as the first run left it
      }
    }
    if (!seen(r))
      return;
    int used = 0, per[K_N] = {};
    size_t i = 0;
    std::vector<std::vector<Choice>> kids;
    for (; i < r.trace.size(); i++) {
      const Choice &c = r.trace[i];
      if (i >= prefix.size() && used + 1 <= b.total &&
          per[c.kind] + 1 <= b.per[c.kind]) {
        for (int alt = 1; alt < c.n; alt++) {
          std::vector<Choice> p(r.trace.begin(), r.trace.begin() + i);
          p.push_back({c.kind, c.n, (uint16_t)alt});
          kids.push_back(std::move(p));
        }
      }
      if (c.pick) {
        used++;
        per[c.kind]++;
      }
    }
    for (auto it = kids.rbegin(); it != kids.rend(); ++it)
      stack.push_back(std::move(*it));
  }
}

Result run_once(Ctx &cx, const std::function<void()> &body, const Cfg &cfg,
                const std::vector<Choice> &prefix) {
  return child(cx, nullptr, body, cfg, prefix);
}

static char *g_put;
static size_t *g_put_len;
static constexpr size_t PUTMAX = 8u << 20;
void put(const std::string &s) {
  if (*g_put_len + s.size() <= PUTMAX) {
    memcpy(g_put + *g_put_len, s.data(), s.size());
    *g_put_len += s.size();
  }
}
std::string run_pure(Ctx &cx, const std::function<void()> &body, Result *res,
                     const Cfg *cfg) {
  if (!g_put) {
    g_put = (char *)mmap(nullptr, PUTMAX + 4096, PROT_READ | PROT_WRITE,
                         MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_put_len = (size_t *)(g_put + PUTMAX);
  }
  *g_put_len = 0;
  Result r = child(cx, [] { *g_put_len = 0; }, body, cfg ? *cfg : Cfg(), {});
  std::string s(g_put, *g_put_len);
  if (res)
    *res = std::move(r);
  return s;
}

void run_cases(Ctx &cx, int n, const std::function<std::string(int)> &fn,
               const std::function<void(int, const Case &)> &seen, const Cfg *cfg) {
  int i = 0;
  while (i < n && !cx.stop()) {
    int e = std::min(n, i + 256);
    Result r;
    std::string s = run_pure(
        cx,
        [&] {
          for (int k = i; k < e; k++) {
            std::string o = fn(k);
            uint32_t l = o.size();
            put(std::string((char *)&l, 4) + o);
            if (*g_put_len > PUTMAX / 2)
              break;
          }
        },
        &r, cfg);
    size_t p = 0;
    int i0 = i;
    while (p + 4 <= s.size()) {
      uint32_t l;
      memcpy(&l, s.data() + p, 4);
      if (p + 4 + l > s.size())
        break;
      Case c;
      c.done = true;
      c.out = s.substr(p + 4, l);
      p += 4 + l;
      seen(i++, c);
    }
    if (!r.ok() && i < e) {
      Case c;
      c.res = r;
      seen(i++, c);
    } else if (!r.ok()) { // all cases returned, the process ended badly
      cx.violation("process ends abnormally after cases: " + r.outcome(), show(r));
    } else if (i == i0) {
      cx.error("no progress in run_cases");
      return;
    }
  }
}

std::vector<std::string> split_on(const std::string &s, char c) {
  std::vector<std::string> v;
  size_t i = 0;
  for (;;) {
    size_t j = s.find(c, i);
    if (j == std::string::npos) {
      v.push_back(s.substr(i));
      return v;
    }
    v.push_back(s.substr(i, j - i));
    i = j + 1;
  }
}
std::string join(const std::vector<std::string> &v, const std::string &sep) {
  std::string r;
  for (size_t i = 0; i < v.size(); i++)
    r += (i ? sep : "") + v[i];
  return r;
}
std::vector<Cmd> commands(const Result &r) {
  std::vector<Cmd> v;
  for (size_t i = 0; i < r.ev.size(); i++) {
    auto &e = r.ev[i];
    if (e.type == 'B') {
      size_t a = e.s.find('\t'), b = e.s.find('\t', a + 1);
      Cmd c;
      c.idx = atoi(e.s.c_str());
      c.begin = (int)i;
      c.end = -1;
      c.tid = e.tid;
      c.cwd = e.s.substr(a + 1, b - a - 1);
      c.cmd = e.s.substr(b + 1);
      v.push_back(c);
    } else if (e.type == 'E' || e.type == 'e') {
      auto f = split_on(e.s, '\t');
      for (auto &c : v)
        if (c.idx == atoi(f[0].c_str())) {
          c.end = (int)i;
          c.status = atoi(f[1].c_str());
          c.out = f.size() > 2 ? f[2] : "";
          c.observed = e.type == 'E';
        }
    }
  }
  return v;
}

// ------------------------------------------------------------------ main
static std::string arg(int argc, char **argv, const char *n, const char *d = "") {
  for (int i = 1; i + 1 < argc; i++)
    if (!strcmp(argv[i], n))
      return argv[i + 1];
  return d;
}

static void worker(int w, const std::vector<Unit> &units,
                   const std::string &scratch, bool thorough) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  std::string root = scratch + "/w" + std::to_string(w);
  g_out = fopen((scratch + "/out/r" + std::to_string(w)).c_str(), "w");
  if (!g_out)
    _exit(3);
  setvbuf(g_out, nullptr, _IOFBF, 1 << 16);
  if (getuid() == 0) { // whatever the code under test does: only scratch files
    if (setgroups(0, nullptr) || setgid(65534) || setuid(65534))
      _exit(4);
  }
  mkdir(root.c_str(), 0755);
  set_root(root);
  if (chdir(root.c_str()))
    _exit(5);
  g_outcomes = new std::set<std::string>;
  for (;;) {
    long i = g_sh->next++;
    if (i >= (long)units.size() || g_sh->stop)
      break;
    if (now() > g_deadline) {
      g_sh->capped = 1;
      break;
    }
    Ctx cx;
    cx.unit = units[i].name;
    cx.thorough = thorough;
    cx.worker = w;
    rm_rf(root + "/p");
    double t0 = now();
    try {
      units[i].run(cx);
    } catch (const std::exception &e) {
      cx.error(std::string("harness exception: ") + e.what());
    }
    if (getenv("MC_TIMES"))
      fprintf(stderr, "%7.2fs %s\n", now() - t0, units[i].name.c_str());
  }
  for (auto &o : *g_outcomes)
    emit("o", "", o, "");
  fflush(g_out);
  _exit(0);
}

} // namespace mc

int main(int argc, char **argv) {
  using namespace mc;
  std::string prop = arg(argc, argv, "--prop"), tier = arg(argc, argv, "--tier", "quick"),
              out = arg(argc, argv, "--out"), scratch = arg(argc, argv, "--scratch"),
              known = arg(argc, argv, "--known"), part = arg(argc, argv, "--part"),
              unit = arg(argc, argv, "--unit"), only = arg(argc, argv, "--only"),
              limit = arg(argc, argv, "--limit", "600");
  g_known = new std::set<std::string>;
  {
    std::string c;
    if (read_raw(known, c))
      for (auto &l : split_on(c, '\n'))
        if (!l.empty())
          g_known->insert(l);
  }
  g_deadline = now() + atof(limit.c_str());
  g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                        MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  bool thorough = tier == "thorough";
  set_root(scratch + "/w0"); // same length in all workers
  auto *units = new std::vector<Unit>(make_units(prop, thorough, part));
  std::set<std::string> names;
  for (auto &u : *units)
    if (!names.insert(u.name).second) {
      fprintf(stderr, "duplicate unit %s\n", u.name.c_str());
      return 2;
    }
  if (!unit.empty() || !only.empty()) {
    std::vector<Unit> f;
    for (auto &u : *units)
      if (unit.empty() ? std::regex_search(u.name, std::regex(only)) : u.name == unit)
        f.push_back(u);
    *units = f;
  }
  if (argc > 1 && !strcmp(argv[argc - 1], "--list")) {
    for (auto &u : *units)
      puts(u.name.c_str());
    return 0;
  }
  mkdir((scratch + "/out").c_str(), 0777);
  chmod(scratch.c_str(), 0777);
  int nw = (int)std::min<long>(sysconf(_SC_NPROCESSORS_ONLN), 9);
  if (getenv("MC_WORKERS"))
    nw = atoi(getenv("MC_WORKERS"));
  nw = std::max(1, std::min<int>(nw, (int)units->size()));
  std::vector<pid_t> pids;
  for (int w = 0; w < nw; w++) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0)
      worker(w, *units, scratch, thorough);
    pids.push_back(p);
  }
  int bad = 0;
  for (auto p : pids) {
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR)
      ;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      bad++;
      fprintf(stderr, "worker ended with status %x\n", st);
    }
  }
  // merge
  std::string v, e, s;
  std::set<std::string> outcomes, seen;
  int nv = 0;
  for (int w = 0; w < nw; w++) {
    std::string c;
    read_raw(scratch + "/out/r" + std::to_string(w), c);
    for (auto &l : split_on(c, '\n')) {
      if (l.size() < 8)
        continue;
      char t = l[6];
      if (t == 'o')
        outcomes.insert(l);
      else if (t == 'v') {
        size_t k1 = l.find("\"unit\""), k2 = l.find("\"detail\"");
        if (seen.insert(l.substr(k1, k2 - k1)).second && nv++ < 200)
          v += (v.empty() ? "" : ",\n") + l;
      } else if (t == 'e')
        e += (e.empty() ? "" : ",\n") + l;
      else if (t == 's')
        s += (s.empty() ? "" : ",\n") + l;
    }
  }
  if (bad)
    e += (e.empty() ? "" : ",\n") + std::string("{\"unit\":\"\",\"key\":\"worker died\"}");
  FILE *f = fopen(out.c_str(), "w");
  fprintf(f,
          "{\"units\":%zu,\"executions\":%ld,\"states\":%ld,\"transitions\":%ld,"
          "\"traces\":%ld,\"outcomes\":%zu,\"capped\":%s,\"notes\":\"\",\n"
          "\"violations\":[%s],\n\"errors\":[%s],\n\"samples\":[%s]}\n",
          units->size(), g_sh->execs.load(), g_sh->states.load(), g_sh->trans.load(),
          g_sh->traces.load(), outcomes.size(), g_sh->capped ? "true" : "false",
          v.c_str(), e.c_str(), s.c_str());
  fclose(f);
  for (int w = 0; w < nw; w++)
    rm_rf(scratch + "/w" + std::to_string(w));
  fflush(stdout);
  _exit(0);
}

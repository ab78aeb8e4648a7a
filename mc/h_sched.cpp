// C05, C06, C07, C18: graphs of targets and generators under every schedule
// within a deviation bound, with failing steps.
#include "bcc.h"
#include <algorithm>
#include <unistd.h>
using namespace mc;
using namespace proj;
using namespace buildcc;

namespace {

// kinds: t static library (2 sources), u static library (1 source), w (3 sources), p the same
// with a precompiled header and 2 sources, W (11 sources), x executable, d dynamic library,
// g generator (2 tasks), G (3 tasks), Q (10 tasks), h generator (1 task), m template generator (2), f file generator
struct Graph {
  std::string kinds;
  std::vector<std::pair<int, int>> deps; // first depends on second
  int tests = 0;       // bit i: node i has a test
  int tmode = 0;       // output mode of tests
  int tsel = 3;        // bit0 build flag, bit1 test flag
  bool viacall = false; // register through Reg::Call instead of Reg::Toolchain
  std::string name() const {
    std::string s = kinds;
    for (auto [a, b] : deps)
      s += "." + std::to_string(a) + ">" + std::to_string(b);
    if (tests)
      s += ".T" + std::to_string(tests) + "m" + std::to_string(tmode) + "s" + std::to_string(tsel);
    return s;
  }
};
std::string nn(int i) { return "n" + std::to_string(i); }
bool is_target(char k) { return strchr("tuwWpxd", k) != nullptr; }
int nsrc(char k) { return k == 'W' ? 11 : k == 'w' ? 3 : k == 't' || k == 'p' ? 2 : 1; }

void apply(const Graph &g, int edited = -1) {
  for (size_t i = 0; i < g.kinds.size(); i++) {
    int v = (int)i == edited || edited == -2 ? 1 : 0; // -2: everything
    int w = edited == -2 ? 1 : 0;
    std::string n = "p/" + nn(i);
    put_file(n + "a.cpp", "// a of " + nn(i) + "\n", v);
    put_file(n + "b.cpp", "// b of " + nn(i) + "\n", w);
    put_file(n + "c.cpp", "// c of " + nn(i) + "\n", w);
    put_file(n + "3.txt", "input 3 of " + nn(i) + "\n", w);
    put_file(n + ".h", "// header of " + nn(i) + "\n", w);
    put_file(n + ".txt", "input of " + nn(i) + "\n", v);
    put_file(n + "2.txt", "input 2 of " + nn(i) + "\n", w);
    for (int j = 3; g.kinds[i] == 'W' && j < nsrc('W'); j++)
      put_file(n + "s" + std::to_string(j) + ".cpp", "// more of " + nn(i) + "\n", w);
    for (int j = 3; g.kinds[i] == 'Q' && j < 11; j++)
      put_file(n + "q" + std::to_string(j) + ".txt", "more of " + nn(i) + "\n", w);
  }
}
void args_sel(ArgToolchain &tc, int sel) {
  auto &ai = Args::Init();
  ai.AddToolchain("gcc", "gcc", tc);
  std::vector<const char *> a{"script", "--root_dir", "p", "--build_dir", "p/_b", "toolchain", "gcc"};
  if (sel & 1)
    a.push_back("--build");
  if (sel & 2)
    a.push_back("--test");
  ai.Parse((int)a.size(), a.data());
  Reg::Init();
}

// a step that cannot be done: node and what is wrong with it
struct Defect {
  int node = -1;
  std::string what; // a file that is missing, or "throw", "throw int", "verify", "serialize", "equal"
};
Defect defect;
struct BadHandler : CustomBlobHandler {
  std::string how;
  explicit BadHandler(const std::string &h) : how(h) {}
  bool Verify(const std::vector<uint8_t> &) const override { return how != "verify"; }
  bool IsEqual(const std::vector<uint8_t> &, const std::vector<uint8_t> &) const override {
    if (how == "equal")
      throw std::runtime_error("equal");
    return true;
  }
  std::vector<uint8_t> Serialize() const override {
    if (how == "serialize")
      throw std::runtime_error("serialize");
    return {1};
  }
};

void script(const Graph &g) {
  ArgToolchain tc;
  args_sel(tc, g.tsel);
  Toolchain_gcc gcc;
  std::vector<std::unique_ptr<BaseTarget>> t(g.kinds.size());
  std::vector<std::unique_ptr<CustomGenerator>> c(g.kinds.size());
  std::vector<std::vector<std::string>> uout(g.kinds.size()), uerr(g.kinds.size());
  auto r = Reg::Toolchain(tc.state);
  auto B = [&](int i) -> internal::BuilderInterface & {
    if (t[i])
      return *t[i];
    return *c[i];
  };
  for (size_t i = 0; i < g.kinds.size(); i++) {
    std::string n = nn(i);
    switch (g.kinds[i]) {
    case 't': case 'u': case 'p': case 'w': case 'W':
      t[i] = std::make_unique<StaticTarget_gcc>(n, gcc, "");
      break;
    case 'd':
      t[i] = std::make_unique<DynamicTarget_gcc>(n, gcc, "");
      break;
    case 'x':
      t[i] = std::make_unique<ExecutableTarget_gcc>(n, gcc, "");
      break;
    case 'm':
      c[i] = std::make_unique<TemplateGenerator>(n, "");
      break;
    case 'f':
      c[i] = std::make_unique<FileGenerator>(n, "");
      break;
    default:
      c[i] = std::make_unique<CustomGenerator>(n, "");
    }
  }
  // libraries are registered after what they need exists: all objects exist
  for (size_t i = 0; i < g.kinds.size(); i++) {
    std::string n = nn(i);
    char k = g.kinds[i];
    if (t[i]) {
      auto cb = [&](BaseTarget &x) {
        x.AddSource(n + "a.cpp");
        if (nsrc(k) > 1)
          x.AddSource(n + "b.cpp");
        if (nsrc(k) > 2)
          x.AddSource(n + "c.cpp");
        for (int j = 3; j < nsrc(k); j++)
          x.AddSource(n + "s" + std::to_string(j) + ".cpp");
        if (k == 'p')
          x.AddPch(n + ".h");
        for (auto [a, b] : g.deps)
          if (a == (int)i && t[b])
            x.AddLibDep(*t[b]);
        for (auto [a, b] : g.deps)
          if (a == (int)i && c[b] && strchr("gGhQ", g.kinds[b]))
            x.AddCompileDependencyAbsolute(c[b]->GetBuildDir() / "o1.txt");
        x.Build();
      };
      if (g.viacall)
        Reg::Call().Build(cb, *t[i]);
      else
        r.Build(cb, *t[i]);
    } else if (k == 'm') {
      r.Build(
          [&](TemplateGenerator &x) {
            x.AddPattern("val", "v");
            x.AddTemplate("{current_root_dir}/" + n + ".txt", "{current_build_dir}/o1.txt");
            x.AddTemplate("{current_root_dir}/" + n + "2.txt", "{current_build_dir}/o2.txt");
            x.Build();
          },
          (TemplateGenerator &)*c[i]);
    } else if (k == 'f') {
      r.Build(
          [&](FileGenerator &x) {
            x.AddInput("{current_root_dir}/" + n + ".txt");
            x.AddOutput("{current_build_dir}/o1.txt");
            x.AddCommand("gcc -c {current_root_dir}/" + n + ".txt -o {current_build_dir}/tmp.o");
            x.AddCommand("gcc -c {current_root_dir}/" + n + "2.txt -o {current_build_dir}/tmp2.o");
            x.AddCommand("gcc {current_build_dir}/tmp2.o -o {current_build_dir}/o1.txt");
            x.Build();
          },
          (FileGenerator &)*c[i]);
    } else {
      auto cb = [&](CustomGenerator &x) {
        auto cb1 = gen_cb(n + "/one");
        auto h1 = handler(1);
        if (defect.node == (int)i && defect.what.rfind("throw", 0) == 0) {
          bool other = defect.what != "throw";
          cb1 = [n, other](const CustomGeneratorContext &) -> bool {
            logev('C', n + "/one|");
            sched_point();
            logev('c', n + "/one|fail");
            if (other)
              throw 5;
            throw std::runtime_error("callback");
          };
        } else if (defect.node == (int)i && (defect.what == "verify" || defect.what == "serialize" || defect.what == "equal"))
          h1 = std::make_shared<BadHandler>(defect.what);
        x.AddIdInfo("one", {"{current_root_dir}/" + n + ".txt"}, {"{current_build_dir}/o1.txt"}, cb1, h1);
        if (k == 'G')
          x.AddIdInfo("three", {"{current_root_dir}/" + n + "3.txt"}, {"{current_build_dir}/o3.txt"}, gen_cb(n + "/three"));
        for (int j = 3; k == 'Q' && j < 11; j++) {
          std::string q = "q" + std::to_string(j);
          x.AddIdInfo(q, {"{current_root_dir}/" + n + q + ".txt"}, {"{current_build_dir}/" + q + ".txt"}, gen_cb(n + "/" + q));
        }
        if (k == 'g' || k == 'G' || k == 'Q')
          x.AddIdInfo("two", {"{current_root_dir}/" + n + "2.txt"}, {"{current_build_dir}/o2.txt"}, gen_cb(n + "/two"));
        x.Build();
      };
      if (g.viacall)
        Reg::Call().Build(cb, *c[i]);
      else
        r.Build(cb, *c[i]);
    }
  }
  for (auto [a, b] : g.deps) {
    r.Dep(B(a), B(b));
  }
  for (size_t i = 0; i < g.kinds.size(); i++)
    if (g.tests >> i & 1) {
      using TT = TestOutput::Type;
      TT ty[] = {TT::TestPrintOnStderrAndStdout, TT::DefaultBehaviour, TT::TestPrintOnStderr, TT::TestPrintOnStdout, TT::UserRedirect};
      TestConfig cfg({{"arg", "arg" + nn(i)}}, i == 1 ? env::optional<fs::path>(fs::path(g_root + "/p")) : env::optional<fs::path>{},
                     TestOutput(ty[g.tmode], &uout[i], &uerr[i]));
      r.Test(i == 2 ? "{executable} --fixed" : "{executable} {arg}", *t[i], cfg);
    }
  logev('S', "run");
  Reg::Run([&] { logev('P', "post build callback"); });
  for (size_t i = 0; i < uout.size(); i++)
    for (auto *v : {&uout[i], &uerr[i]}) {
      std::string all; // lines or chunks: only the text counts
      for (auto &l : *v)
        all += l;
      all.erase(std::remove(all.begin(), all.end(), '\n'), all.end());
      if (!all.empty())
        logev('O', nn(i) + (v == &uout[i] ? " out " : " err ") + all);
    }
}

int owner(const std::string &p, const Graph &g) {
  for (size_t i = 0; i < g.kinds.size(); i++)
    if (p.find("/_b/gcc/" + nn(i) + "/") != std::string::npos || p.find("/_b/" + nn(i) + "/") != std::string::npos)
      return (int)i;
  return -1;
}
struct Step {
  int node = -1;
  std::string what; // unique description
  char stage = '?'; // p pch, o object, l link, c callback, f file generator command, T test
  int begin = -1, end = -1, status = 0;
};
struct Seen {
  std::vector<Step> steps;
  int post = 0, postpos = -1, start = -1;
  std::map<int, int> lastwrite; // node -> last record/file write
  std::map<int, int> firstwrite;
  std::vector<std::string> races, io;
  std::vector<std::string> odd;
};
Seen analyse(const Graph &g, const Result &r) {
  Seen s;
  for (size_t i = 0; i < r.ev.size(); i++)
    if (r.ev[i].type == 'S')
      s.start = (int)i;
  for (auto &c : commands(r)) {
    Step st;
    auto a = split_cmd(c.cmd);
    std::string out;
    for (size_t i = 0; i + 1 < a.size(); i++)
      if (a[i] == "-o")
        out = a[i + 1];
    if (a.size() > 2 && a[0] == "ar")
      out = a[2];
    st.begin = c.begin;
    st.end = c.end;
    st.status = c.end < 0 ? -1 : c.status;
    st.what = canon(c.cmd);
    if (out.empty()) {
      st.stage = 'T';
      st.node = a.empty() ? -1 : owner(a[0], g);
      st.what = canon(c.cwd) + "$ " + st.what;
    } else {
      st.node = owner(out, g);
      bool comp = std::find(a.begin(), a.end(), "-c") != a.end();
      if (st.node >= 0 && !is_target(g.kinds[st.node]))
        st.stage = 'f';
      else
        st.stage = out.find("_pch.h") != std::string::npos ? 'p' : comp ? 'o' : 'l';
    }
    s.steps.push_back(st);
  }
  std::map<std::string, int> open;
  for (size_t i = 0; i < r.ev.size(); i++) {
    auto &e = r.ev[i];
    if (e.type == 'C') {
      Step st;
      std::string id = e.s.substr(0, e.s.find('|'));
      st.what = "callback " + id;
      st.stage = 'c';
      st.node = atoi(id.c_str() + 1);
      st.begin = (int)i;
      st.status = -1;
      open[id] = (int)s.steps.size();
      s.steps.push_back(st);
    } else if (e.type == 'c') {
      std::string id = e.s.substr(0, e.s.find('|'));
      auto &st = s.steps[open[id]];
      st.end = (int)i;
      st.status = e.s.substr(e.s.find('|') + 1) == "ok" ? 0 : 1;
    } else if (e.type == 'M' && (int)i > s.start && s.start >= 0) {
      int o = owner(e.s, g);
      if (o >= 0) {
        s.lastwrite[o] = (int)i;
        if (!s.firstwrite.count(o))
          s.firstwrite[o] = (int)i;
      }
    } else if (e.type == 'P')
      s.post++, s.postpos = (int)i;
    else if (e.type == 'R')
      s.races.push_back(e.s);
    else if (e.type == 'F')
      s.io.push_back(e.s);
    else if (e.type == 'X' || e.type == 'U')
      s.odd.push_back(e.s);
  }
  return s;
}
std::vector<std::vector<bool>> closure(const Graph &g) {
  size_t n = g.kinds.size();
  std::vector<std::vector<bool>> c(n, std::vector<bool>(n));
  for (auto [a, b] : g.deps)
    c[a][b] = true;
  for (size_t k = 0; k < n; k++)
    for (size_t i = 0; i < n; i++)
      for (size_t j = 0; j < n; j++)
        if (c[i][k] && c[k][j])
          c[i][j] = true;
  return c;
}
// does x (transitively) need y to be finished first?
bool needs(const Graph &g, const std::vector<std::vector<bool>> &cl, const Step &x, const Step &y) {
  if (x.node < 0 || y.node < 0)
    return false;
  if (x.stage == 'T')
    return y.stage != 'T';
  if (y.stage == 'T')
    return false;
  if (x.node != y.node)
    return cl[x.node][y.node];
  auto rank = [](const Step &s) {
    if (s.stage == 'f') // the commands of a file generator run one after the other
      return s.what.find("-o /R/p/_b/" + nn(s.node) + "/tmp.o") != std::string::npos ? 0 : s.what.find("/tmp2.o -o") == std::string::npos ? 1 : 2;
    return s.stage == 'p' ? 0 : s.stage == 'o' ? 1 : s.stage == 'l' ? 2 : -1;
  };
  int a = rank(x), b = rank(y);
  return a >= 0 && b >= 0 && a > b;
}
std::multiset<std::string> expected(const Graph &g) { // stage counts of a first build
  std::multiset<std::string> m;
  for (size_t i = 0; i < g.kinds.size(); i++) {
    char k = g.kinds[i];
    auto add = [&](char st, int n) {
      while (n--)
        m.insert(nn(i) + st);
    };
    if (is_target(k)) {
      add('o', nsrc(k));
      add('l', 1);
      if (k == 'p')
        add('p', 1);
    } else if (k == 'f')
      add('f', 3);
    else if (k != 'm')
      add('c', k == 'Q' ? 10 : k == 'G' ? 3 : k == 'g' ? 2 : 1);
  }
  return m;
}
std::map<std::string, std::string> arts(const Graph &g) {
  std::map<std::string, std::string> m;
  for (size_t i = 0; i < g.kinds.size(); i++) {
    std::string n = nn(i), c;
    std::vector<std::string> fs;
    switch (g.kinds[i]) {
    case 't': case 'u': case 'p': case 'w': case 'W': fs = {"gcc/" + n + "/" + n + ".a"}; break;
    case 'd': fs = {"gcc/" + n + "/" + n + ".so"}; break;
    case 'x': fs = {"gcc/" + n + "/" + n}; break;
    case 'h': case 'f': fs = {n + "/o1.txt"}; break;
    case 'G': fs = {n + "/o1.txt", n + "/o2.txt", n + "/o3.txt"}; break;
    default: fs = {n + "/o1.txt", n + "/o2.txt"};
    }
    for (int j = 3; g.kinds[i] == 'Q' && j < 11; j++)
      fs.push_back(n + "/q" + std::to_string(j) + ".txt");
    for (auto &f : fs)
      m[f] = read_raw(g_root + "/p/_b/" + f, c) ? canon(c) : "<missing>";
  }
  return m;
}
std::string hexkey(const std::string &race) { return race.substr(0, race.find(" @")); }

bool test_prog(const std::string &, const std::vector<std::string> &a, const std::string &, int &st, std::string &out, std::string &err) {
  if (a.empty() || a[0].find("/_b/gcc/") == std::string::npos)
    return false;
  st = exists_raw(a[0]) ? 0 : 127;
  std::string n = a[0].substr(a[0].rfind('/') + 1);
  out = "line1 of " + n + "\nline2\n";
  err = "warning " + n + "\n";
  return true;
}

struct Params {
  std::string prop;
  int sched = 1, fail = 0, io = 0;
  bool incremental = false; // start from a built state with node's file edited
  int edited = 0;
};
std::string dflt_path(const Result &r) { return show(r, 200); }

void run(Ctx &cx, const Graph &g, const Params &P) {
  custom_program = test_prog;
  may_fail = [&](const std::string &c) {
    auto a = split_cmd(c);
    bool test = !a.empty() && a[0].find("/_b/gcc/") != std::string::npos;
    return P.prop == "C18" ? test : !test;
  };
  std::string bdir = g_root + "/p/_b";
  auto cl = closure(g);
  Tree start;
  mkdirs(bdir);
  apply(g);
  if (P.incremental) {
    restore(bdir, {});
    Result r = run_once(cx, [&] { script(g); }, Cfg());
    start = snapshot(bdir);
    if (!r.ok()) {
      cx.violation("build fails: " + g.name(), show(r));
      return;
    }
  }
  // reference: default schedule, no faults
  auto setup = [&] {
    mkdirs(bdir);
    apply(g, P.incremental ? P.edited : -1);
    restore(bdir, start);
  };
  setup();
  Cfg c0;
  c0.en[K_SCHED] = P.sched > 0;
  Result ref = run_once(cx, [&] { script(g); }, c0);
  auto refart = arts(g);
  std::multiset<std::string> refcmd;
  Tree reftree = snapshot(bdir);
  {
    Seen s = analyse(g, ref);
    for (auto &x : s.steps)
      refcmd.insert(x.what);
  }
  auto key = [&](const std::string &what) { return what + ": " + g.name() + (P.incremental ? " rebuild after editing " + (P.edited < 0 ? P.edited == -2 ? "everything" : "nothing" : nn(P.edited)) : ""); };
  if (!ref.ok()) {
    cx.violation(key(ref.deadlock() ? "deadlock" : "run without faults does not succeed"), show(ref));
    return;
  }
  Cfg cfg;
  cfg.en[K_SCHED] = P.sched > 0;
  cfg.en[K_FAIL] = P.fail > 0;
  cfg.fail_modes = P.prop == "C06" ? 1 : P.prop == "C18" ? 1 : 2;
  cfg.en[K_IO] = P.io > 0;
  cfg.io_faults = P.io ? 1 | 2 | 4 | 16 : 0;
  Budget b;
  b.total = P.sched + P.fail + (P.io ? 1 : 0);
  b.per[K_SCHED] = P.sched;
  b.per[K_FAIL] = P.fail;
  b.per[K_IO] = P.io ? 1 : 0;
  std::set<uint64_t> nexts;
  explore(cx, setup, [&] { script(g); }, cfg, b, [&](const Result &r) {
    cx.transitions((long)r.trace.size());
    Seen s = analyse(g, r);
    std::string d = show(r, 300);
    auto bad = [&](const std::string &k) {
      cx.violation(key(k), d);
      return false;
    };
    for (auto &x : s.races) {
      if (P.prop == "C07") {
        cx.violation("data race: " + hexkey(x), "in " + g.name() + ": " + x + "\n" + d);
        return false;
      }
    }
    if (r.deadlock() || r.timeout())
      return bad("run hangs");
    if (!r.exited)
      return bad("run dies by a signal");
    if (!s.odd.empty())
      return bad("unexpected: " + s.odd[0]);
    bool failed = false, test_failed = false, ioerr = false;
    for (auto &x : s.steps)
      if (x.status != 0)
        (x.stage == 'T' ? test_failed : failed) = true;
    for (auto &x : s.io)
      if (x.find(" w ") != std::string::npos && x[0] != '2')
        ioerr = true;
      else if (x.rfind("2:1 w", 0) == 0)
        ioerr = true;
    bool ok = r.ok();
    // ordering, for every property
    if (P.prop == "C05") {
      for (auto &x : s.steps)
        for (auto &y : s.steps)
          if (needs(g, cl, x, y) && (y.end < 0 || y.end > x.begin))
            return bad("step starts before what it depends on has finished: " + x.what + " before " + y.what);
      for (auto &x : s.steps)
        for (size_t j = 0; j < g.kinds.size(); j++)
          if (x.node >= 0 && x.stage != 'T' && cl[x.node][j] && s.lastwrite.count((int)j) && s.lastwrite[(int)j] > x.begin)
            return bad("step starts before the record of its dependency is stored: " + x.what + " needs " + nn((int)j));
      for (auto [j, w] : s.firstwrite)
        for (size_t i = 0; i < g.kinds.size(); i++)
          if (cl[j][i] && s.lastwrite.count((int)i) && s.lastwrite[(int)i] > w)
            return bad("a builder writes before its dependency is done: " + nn(j) + " needs " + nn((int)i));
      for (auto &x : s.steps)
        if (ok && x.node >= 0 && x.stage != 'T' && (!s.lastwrite.count(x.node) || s.lastwrite[x.node] < x.end))
          return bad("the record is stored before its own step has finished: " + x.what);
      if (!failed && !P.incremental) {
        std::multiset<std::string> got;
        for (auto &x : s.steps)
          if (x.stage != 'T')
            got.insert(nn(x.node) + x.stage);
        if (got != expected(g))
          return bad("a first build does not run every step exactly once");
        for (size_t i = 0; i < g.kinds.size(); i++)
          if (!s.lastwrite.count((int)i))
            return bad("no record stored for " + nn((int)i));
        std::set<std::string> uniq;
        for (auto &x : s.steps)
          if (!uniq.insert(x.what).second)
            return bad("step runs twice: " + x.what);
      }
    }
    if (failed || ioerr) {
      if (ok)
        return bad(ioerr ? "a failing write does not fail the run (" + s.io[0].substr(0, 3) + ")" : "a failing step does not fail the run");
      if (s.post)
        return bad("post build callback runs although a step failed");
      for (auto &x : s.steps) {
        if (x.stage == 'T')
          return bad("test runs although the build failed");
        for (auto &y : s.steps)
          if (y.status != 0 && needs(g, cl, x, y))
            return bad("step runs although what it depends on failed: " + x.what);
      }
    } else if (!test_failed) {
      if (!ok && s.io.empty())
        return bad("run fails although no step failed");
      if (ok) {
        if (s.post != 1)
          return bad("post build callback does not run exactly once");
        std::multiset<std::string> got;
        for (auto &x : s.steps)
          got.insert(x.what);
        if (s.io.empty() && got != refcmd)
          return bad("commands depend on the schedule");
        if (arts(g) != refart)
          return bad("artifacts depend on the schedule");
      }
    } else if (ok)
      return bad("a failing test does not fail the run");
    if (P.prop == "C18" && !failed) {
      // tests: exactly the expected ones, once, after the build and post callback
      std::multiset<std::string> want, got;
      for (size_t i = 0; i < g.kinds.size(); i++)
        if ((g.tests >> i & 1) && g.tsel == 3)
          want.insert(std::string(i == 1 ? "/R/p" : "") + "$ /R/p/_b/gcc/" + nn(i) + "/" + nn(i) + (i == 2 ? " --fixed" : " arg" + nn(i)));
      for (auto &x : s.steps)
        if (x.stage == 'T') {
          got.insert(x.what);
          if (x.begin < s.postpos)
            return bad("test starts before the post build callback finished");
        }
      if (got != want)
        return bad("tests run are not the registered ones, once each");
      if (!test_failed) {
        std::multiset<std::string> wo, go;
        for (size_t i = 0; i < g.kinds.size(); i++)
          if ((g.tests >> i & 1) && g.tsel == 3 && g.tmode == 4) {
            std::string n = nn(i);
            wo.insert(n + " out line1 of " + n + "line2");
            wo.insert(n + " err warning " + n);
          }
        for (auto &e : r.ev)
          if (e.type == 'O')
            go.insert(e.s);
        if (wo != go)
          return bad("redirected test output is wrong");
      }
    }
    cx.outcome(g.name() + r.outcome() + std::to_string(s.steps.size()) + (failed ? "F" : ""));
    if (P.prop == "C07" || P.prop == "C06") {
      // the work of the next build: nothing after success, repair after failure
      Tree t = snapshot(bdir);
      if (nexts.insert(tree_hash(t)).second) {
        cx.states(1);
        Result r2 = run_once(cx, [&] { script(g); }, Cfg());
        auto a2 = arts(g);
        Seen s2 = analyse(g, r2);
        int cmds = 0;
        for (auto &x : s2.steps)
          cmds += x.stage != 'T';
        if (!r2.ok() || a2 != refart) {
          d += "next build:\n" + show(r2, 100);
          return bad("the next build does not complete the work");
        }
        if (ok && cmds && s.io.empty()) {
          d += "next build:\n" + show(r2, 100);
          return bad("work is left for a build after a successful one");
        }
      }
    } else
      cx.states(1);
    return true;
  });
  (void)reftree;
  if (cx.violations_in_unit == 0)
    cx.sample(g.name() + " sched<=" + std::to_string(P.sched) + " fail<=" + std::to_string(P.fail) + " io<=" + std::to_string(P.io));
}

// each input file of each builder missing in turn, and each way user code can fail
void run_defects(Ctx &cx, const Graph &g, bool again, int sched) {
  custom_program = test_prog;
  std::string bdir = g_root + "/p/_b";
  auto cl = closure(g);
  std::vector<Defect> ds;
  for (size_t i = 0; i < g.kinds.size(); i++) {
    std::string n = "p/" + nn(i);
    char k = g.kinds[i];
    auto d = [&](const std::string &w) { ds.push_back({(int)i, w}); };
    if (is_target(k)) {
      d(n + "a.cpp");
      if (nsrc(k) > 1)
        d(n + "b.cpp");
      if (nsrc(k) > 2)
        d(n + "c.cpp");
      if (k == 'p')
        d(n + ".h");
      continue;
    }
    d(n + ".txt");
    if (strchr("gGQm", k))
      d(n + "2.txt");
    if (k == 'G')
      d(n + "3.txt");
    if (strchr("gGQh", k))
      for (auto w : {"throw", "throw int", "verify", "serialize", "equal"})
        if (again || strcmp(w, "equal"))
          d(w);
  }
  apply(g);
  mkdirs(bdir);
  restore(bdir, {});
  defect = {};
  Result r0 = run_once(cx, [&] { script(g); }, Cfg());
  if (!r0.ok()) {
    cx.violation("build fails: " + g.name(), show(r0));
    return;
  }
  Tree built = again ? snapshot(bdir) : Tree();
  auto refart = arts(g);
  for (auto &d : ds) {
    bool file = d.what.find('/') != std::string::npos;
    auto setup = [&] {
      mkdirs(bdir);
      apply(g);
      restore(bdir, built);
      if (d.what.rfind("throw", 0) == 0 && again)
        put_file("p/" + nn(d.node) + ".txt", "input of " + nn(d.node) + "\n", 1);
      if (file)
        del_file(d.what);
      defect = d;
    };
    Cfg cfg;
    cfg.en[K_SCHED] = sched > 0;
    Budget b;
    b.total = b.per[K_SCHED] = sched;
    std::set<uint64_t> nexts;
    explore(cx, setup, [&] { script(g); }, cfg, b, [&](const Result &r) {
      cx.transitions((long)r.trace.size());
      Seen s = analyse(g, r);
      std::string t = show(r, 300);
      auto bad = [&](const std::string &k) {
        cx.violation(k + ": " + g.name() + (again ? " rebuild, " : ", ") + (file ? "missing " + d.what : nn(d.node) + " " + d.what), t);
        return false;
      };
      if (r.deadlock() || r.timeout())
        return bad("run hangs");
      if (!r.exited)
        return bad("run dies by a signal");
      if (r.ok())
        return bad("a step that cannot be done does not fail the run");
      if (s.post)
        return bad("post build callback runs although a step failed");
      for (auto &x : s.steps)
        if (x.stage == 'T' || (x.node >= 0 && (cl[x.node][d.node] || (x.node == d.node && x.stage == 'l'))))
          return bad("step runs although what it depends on failed: " + x.what);
      cx.outcome(r.outcome());
      Tree now = snapshot(bdir);
      if (!nexts.insert(tree_hash(now)).second)
        return true;
      cx.states(1);
      defect = {};
      apply(g);
      Result r2 = run_once(cx, [&] { script(g); }, Cfg());
      if (!r2.ok() || arts(g) != refart) {
        t += "next build:\n" + show(r2, 100);
        return bad("the next build does not complete the work");
      }
      return true;
    });
    if (cx.stop())
      break;
  }
  defect = {};
  if (cx.violations_in_unit == 0)
    cx.sample(g.name() + " with each of " + std::to_string(ds.size()) + " steps impossible");
}

// real Taskflow and threads: what happens there must be among the outcomes the
// controlled scheduler allows (conformance of the controlled executor)
void run_free(Ctx &cx, const Graph &g, int reps, int failing) {
  custom_program = test_prog;
  set_controlled(false);
  std::string bdir = g_root + "/p/_b";
  auto cl = closure(g);
  for (int k = 0; k < reps && !cx.stop(); k++) {
    mkdirs(bdir);
    apply(g);
    restore(bdir, {});
    Cfg c;
    int seen = 0;
    always_fail = nullptr;
    if (failing >= 0)
      always_fail = [&](const std::string &s) { return s.find(nn(failing)) != std::string::npos; };
    Result r = run_child([&] { script(g); }, {}, c);
    always_fail = nullptr;
    (void)seen;
    cx.executions(1);
    cx.traces(1);
    Seen s = analyse(g, r);
    bool failed = false;
    for (auto &x : s.steps)
      failed |= x.status != 0;
    std::string d = show(r, 200);
    for (auto &x : s.steps)
      for (auto &y : s.steps)
        if (needs(g, cl, x, y) && (y.end < 0 || y.end > x.begin)) {
          cx.violation("free run: step starts before what it depends on has finished: " + g.name(), d);
          return;
        }
    if (!r.exited || r.ok() == failed) {
      cx.violation("free run: wrong result: " + g.name() + " " + r.outcome(), d);
      return;
    }
    cx.states(1);
    cx.transitions(1);
    cx.outcome("free " + g.name() + r.outcome());
  }
  cx.sample("real executor " + g.name());
}

std::vector<std::vector<std::pair<int, int>>> dags(int n) {
  std::vector<std::pair<int, int>> e;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      if (i != j)
        e.push_back({i, j});
  std::vector<std::vector<std::pair<int, int>>> out;
  for (int m = 0; m < (1 << e.size()); m++) {
    Graph g;
    g.kinds = std::string(n, 't');
    for (size_t k = 0; k < e.size(); k++)
      if (m >> k & 1)
        g.deps.push_back(e[k]);
    auto c = closure(g);
    bool cyc = false;
    for (int i = 0; i < n; i++)
      cyc |= c[i][i];
    if (!cyc)
      out.push_back(g.deps);
  }
  return out;
}
} // namespace

namespace mc {
std::vector<Unit> make_units(const std::string &prop, bool th, const std::string &part) {
  std::vector<Unit> u;
  auto add = [&](Graph g, Params p, const std::string &suf) {
    p.prop = prop;
    u.push_back({g.name() + (g.viacall ? ".call" : "") + suf, [g, p](Ctx &cx) { run(cx, g, p); }});
  };
  if (part == "free") {
    std::vector<Graph> gs{{"p", {}}, {"tg", {{0, 1}}}, {"ugx", {{0, 1}, {2, 0}}}, {"tux", {{2, 0}, {2, 1}}}, {"gmf", {{2, 0}}}};
    Graph tx{"xx", {}};
    tx.tests = 3;
    gs.push_back(tx);
    for (auto &g : gs)
      for (int f = -1; f < (int)g.kinds.size(); f++)
        u.push_back({"free." + g.name() + ".fail" + std::to_string(f), [g, f, th](Ctx &cx) { run_free(cx, g, th ? 200 : 20, f); }});
    return u;
  }
  Params s1, s2, s3;
  s1.sched = 1;
  s2.sched = 2;
  s3.sched = 3;
  Graph p{"p", {}}, t{"t", {}}, gg{"g", {}}, x{"x", {}}, m{"m", {}}, f{"f", {}}, w{"w", {}}, G{"G", {}};
  // larger than any other graph here: a chain, a star and a fan of ten builders
  std::vector<std::pair<int, int>> chain, star, fan;
  for (int i = 1; i < 10; i++) {
    chain.push_back({i, i - 1});
    star.push_back({0, i});
    fan.push_back({i, 0});
  }
  std::vector<Graph> big{{"W", {}}, {"Q", {}}, {"uhuhuhuhux", chain}, {"xhuhuhuhuh", star}, {"huuuuuhhhh", fan}};
  if (prop == "C05")
    for (auto &g : big) {
      add(g, s1, ".s");
      Params q = s1;
      q.incremental = true;
      add(g, q, ".edit0");
    }
  if (prop == "C06" || prop == "C07")
    for (auto &g : big) {
      Params q;
      q.sched = 0;
      q.fail = prop == "C06" ? 2 : 1;
      add(g, q, ".fail");
      if (prop == "C06") {
        Params io;
        io.sched = 0;
        io.io = 1;
        add(g, io, ".io");
      } else
        add(g, s1, ".pass");
    }
  if (prop == "C05") {
    for (auto &d : dags(2))
      for (const char *k : {"tt", "tg", "gt", "pu", "up", "gg", "xt", "fu", "um"})
        add({k, d}, th ? s3 : s2, ".s2");
    for (auto &d : dags(3))
      for (const char *k : {"pgu", "ugx", "utu", "hhh"}) {
        Graph g{k, d};
        add(g, th || d.size() >= 2 ? s2 : s1, ".s");
        if (!strcmp(k, "ugx")) {
          g.viacall = true;
          add(g, s1, ".s");
        }
      }
    for (auto *g : {&p, &t, &gg, &x, &f, &m})
      add(*g, s3, ".s");
    for (auto *g : {&w, &G})
      add(*g, th ? s3 : s2, ".s");
    // rebuilds
    for (auto &d : dags(3))
      for (int e = 0; e < 3; e++) {
        Params q = th ? s2 : s1;
        q.incremental = true;
        q.edited = e;
        add({"uhu", d}, q, ".edit" + std::to_string(e));
      }
    if (th)
      for (auto &d : dags(4))
        if (d.size() >= 2)
          add({"uhuh", d}, s2, ".s2");
  }
  if (prop == "C06") {
    std::vector<Graph> gs;
    for (auto *g : {&p, &t, &gg, &x, &f, &m, &w, &G})
      gs.push_back(*g);
    for (auto &d : dags(2))
      for (const char *k : {"ug", "pg", "uu", "xf", "mu"}) {
        Graph g{k, d};
        gs.push_back(g);
      }
    for (auto &d : dags(3)) {
      gs.push_back({"uhu", d});
      if (th)
        gs.push_back({"pgf", d});
    }
    for (auto g : gs) {
      if (g.kinds.find('x') != std::string::npos)
        g.tests = 1 << g.kinds.find('x');
      bool small = g.kinds.size() == 1;
      Params q;
      q.sched = small || th ? 1 : 1;
      q.fail = 2;
      if (small)
        q.sched = 2;
      if (th && g.kinds.size() < 3)
        q.sched = 2, q.fail = 3;
      add(g, q, ".fail");
      Params io;
      io.sched = th ? 2 : 1;
      io.io = 1;
      add(g, io, ".io");
      // the same on top of an earlier build, whose outputs are there
      q.incremental = io.incremental = true;
      q.edited = io.edited = -2;
      if (!th && g.kinds.size() > 1)
        q.sched = io.sched = g.kinds.size() > 2 ? 0 : 1, q.fail = 1;
      if (!th && g.kinds.size() > 2 && g.deps.size() != 2)
        continue;
      add(g, q, ".refail");
      add(g, io, ".reio");
    }
    for (auto g : gs) {
      if (g.kinds.find('x') != std::string::npos)
        g.tests = 1 << g.kinds.find('x');
      int sched = th ? 2 : g.kinds.size() > 2 ? 0 : 1;
      for (bool again : {false, true})
        u.push_back({g.name() + (again ? ".recant" : ".cant"), [g, again, sched](Ctx &cx) { run_defects(cx, g, again, sched); }});
    }
  }
  if (prop == "C07") {
    std::vector<Graph> gs;
    for (auto *g : {&p, &t, &gg, &x, &f, &m, &w, &G})
      gs.push_back(*g);
    for (auto &d : dags(2))
      for (const char *k : {"tt", "gg", "pg", "tm"})
        gs.push_back({k, d});
    gs.push_back({"tgu", {}});
    gs.push_back({"tgu", {{0, 1}, {0, 2}}});
    gs.push_back({"tux", {{2, 0}, {2, 1}}});
    for (auto &g : gs) {
      bool small = g.kinds.size() == 1;
      Params q;
      q.sched = small ? 2 : th ? 2 : 1;
      add(g, q, ".pass");
      q.sched = small ? 1 : th ? 1 : 1;
      q.fail = 1;
      add(g, q, ".fail");
      Params q2;
      q2.sched = 1;
      q2.incremental = true;
      q2.edited = 0;
      add(g, q2, ".rebuild");
    }
    Graph tt{"xx", {}};
    tt.tests = 3;
    add(tt, s1, ".tests");
  }
  if (prop == "C18") {
    for (int mode = 0; mode < 5; mode++)
      for (int tests = 0; tests < 8; tests++) {
        Graph g{"xxx", {}};
        g.tests = tests;
        g.tmode = mode;
        if (mode && tests != 7 && tests != 2)
          continue;
        Params q;
        q.sched = 0;
        q.fail = 3;
        add(g, q, ".fail3");
      }
    for (int e = -2; e < 1; e++) { // tests run whatever there was to build
      Graph g{"xxx", {}};
      g.tests = 7;
      Params q;
      q.sched = 0;
      q.fail = 3;
      q.incremental = true;
      q.edited = e;
      add(g, q, ".again" + std::to_string(e + 2));
    }
    {
      Graph g{"xxxxxxxxxx", {}};
      g.tests = 1023;
      Params q;
      q.sched = 0;
      q.fail = 2;
      add(g, q, ".fail2");
    }
    for (int sel = 0; sel < 4; sel++) {
      Graph g{"xx", {{1, 0}}};
      g.tests = 3;
      g.tsel = sel;
      add(g, s1, ".sel");
    }
    Graph g{"xx", {}};
    g.tests = 3;
    Params q;
    q.sched = th ? 3 : 2;
    q.fail = th ? 2 : 1;
    add(g, q, ".sched");
    Graph g3{"xxx", {{2, 1}}};
    g3.tests = 7;
    add(g3, q, ".sched");
  }
  return u;
}
} // namespace mc

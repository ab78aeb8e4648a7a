// C11 registration sequences, C20 command line settings.
#include "bcc.h"
#include "toolchains/toolchain_generic.h"
#include <algorithm>
#include <unistd.h>
#include <unordered_set>
using namespace mc;
using namespace buildcc;

namespace {
std::vector<std::string> given; // names, where they matter
std::string nn(int i) { return given.empty() ? "n" + std::to_string(i) : given[i]; }
std::string cbid(int i) { return "n" + std::to_string(i) + "/one"; }
std::string bpath(const std::string &kinds, int i) { return "/_b/" + std::string(kinds[i] == 'h' ? "" : kinds[i] == 'v' ? "other/" : "gcc/") + nn(i) + "/"; }

// ------------------------------------------------------------------ C11
// op: 0..9 Build(i), 100+10*i+j Dep(i on j), 200+i Test(i)
struct World {
  std::set<int> built, tested;
  std::set<std::pair<int, int>> deps;
  bool reach(int a, int b) const { // a depends on b, transitively
    std::set<int> seen;
    std::vector<int> q{a};
    while (!q.empty()) {
      int x = q.back();
      q.pop_back();
      for (auto [p, d] : deps)
        if (p == x && seen.insert(d).second)
          q.push_back(d);
    }
    return seen.count(b);
  }
  bool accept(int op) {
    if (op < 100) {
      if (built.count(op))
        return false;
      built.insert(op);
      return true;
    }
    if (op >= 200) {
      if (!built.count(op - 200) || tested.count(op - 200))
        return false;
      tested.insert(op - 200);
      return true;
    }
    int a = (op - 100) / 10, b = (op - 100) % 10;
    if (!built.count(a) || !built.count(b) || deps.count({a, b}) || a == b || reach(b, a))
      return false;
    deps.insert({a, b});
    return true;
  }
};
std::string opn(int op) {
  if (op < 100)
    return "build(" + std::to_string(op) + ")";
  if (op >= 200)
    return "test(" + std::to_string(op - 200) + ")";
  return "dep(" + std::to_string((op - 100) / 10) + "," + std::to_string((op - 100) % 10) + ")";
}
std::string seqn(const std::vector<int> &s) {
  std::string r;
  for (int o : s)
    r += (r.empty() ? "" : " ") + opn(o);
  return r;
}
bool test_prog(const std::string &, const std::vector<std::string> &a, const std::string &, int &st, std::string &, std::string &) {
  if (a.empty() || a[0].find("/_b/") == std::string::npos)
    return false;
  st = exists_raw(a[0]) ? 0 : 127;
  return true;
}
void c11_body(const std::string &kinds, const std::vector<int> &seq, bool run) {
  ArgToolchain tc;
  proj::args_init(tc);
  Toolchain_gcc gcc, other("other");
  std::vector<std::unique_ptr<BaseTarget>> t(kinds.size());
  std::vector<std::unique_ptr<CustomGenerator>> c(kinds.size());
  for (size_t i = 0; i < kinds.size(); i++) {
    if (kinds[i] == 'x')
      t[i] = std::make_unique<ExecutableTarget_gcc>(nn(i), gcc, "");
    else if (kinds[i] == 'u')
      t[i] = std::make_unique<StaticTarget_gcc>(nn(i), gcc, "");
    else if (kinds[i] == 'v')
      t[i] = std::make_unique<StaticTarget_gcc>(nn(i), other, "");
    else
      c[i] = std::make_unique<CustomGenerator>(nn(i), "");
  }
  auto B = [&](int i) -> internal::BuilderInterface & {
    if (t[i])
      return *t[i];
    return *c[i];
  };
  auto r = Reg::Toolchain(tc.state);
  int k = 0;
  for (int op : seq) {
    if (op < 100) {
      int i = op;
      if (t[i])
        r.Build([&](BaseTarget &x) { x.AddSource(nn(i) + ".cpp"); x.Build(); }, *t[i]);
      else
        r.Build([&](CustomGenerator &g) { g.AddIdInfo("one", {"{current_root_dir}/" + nn(i) + ".txt"}, {"{current_build_dir}/o.txt"}, proj::gen_cb(cbid(i)), proj::handler(1)); g.Build(); }, *c[i]);
    } else if (op >= 200)
      r.Test("{executable}", *t[op - 200]);
    else
      r.Dep(B((op - 100) / 10), B((op - 100) % 10));
    logev('O', "accepted " + std::to_string(k++));
  }
  if (run) {
    Reg::Run();
    logev('O', "ran");
  }
}
void c11(Ctx &cx, const std::string &kinds, const std::vector<int> &start, const std::vector<int> &ops, int depth) {
  custom_program = test_prog;
  std::string bdir = g_root + "/p/_b";
  mkdirs(bdir);
  for (size_t i = 0; i < kinds.size(); i++) {
    proj::put_file("p/" + nn(i) + ".cpp", "// " + nn(i) + "\n", 0);
    proj::put_file("p/" + nn(i) + ".txt", nn(i) + "\n", 0);
  }
  std::function<void(const std::vector<int> &, const World &)> rec = [&](const std::vector<int> &s, const World &w) {
    if (cx.stop())
      return;
    // the sequence itself is accepted: it runs to completion
    restore(bdir, {});
    Result r = run_once(cx, [&] { c11_body(kinds, s, true); }, Cfg());
    cx.states(1);
    cx.transitions((long)s.size());
    std::set<int> done;
    std::map<int, int> endpos, beginpos;
    int tests = 0;
    for (auto &c : commands(r))
      for (size_t i = 0; i < kinds.size(); i++) {
        if (kinds[i] == 'h' || c.cmd.find(bpath(kinds, (int)i)) == std::string::npos)
          continue;
        if (c.cmd.find(" -o ") != std::string::npos || c.cmd.rfind("ar ", 0) == 0) {
          done.insert((int)i);
          if (!beginpos.count((int)i))
            beginpos[(int)i] = c.begin;
          endpos[(int)i] = c.end;
        } else
          tests++;
        break;
      }
    for (size_t k = 0; k < r.ev.size(); k++)
      if (r.ev[k].type == 'C' || r.ev[k].type == 'c') {
        int i = atoi(r.ev[k].s.c_str() + 1);
        done.insert(i);
        if (r.ev[k].type == 'C')
          beginpos[i] = (int)k;
        else
          endpos[i] = (int)k;
      }
    std::string why;
    if (!r.ok())
      why = "accepted graph does not run: " + r.outcome();
    else if (done != w.built)
      why = "not every registered builder ran";
    else if (tests != (int)w.tested.size())
      why = "tests run: " + std::to_string(tests);
    else
      for (auto [a, b] : w.deps)
        if (endpos[b] > beginpos[a])
          why = nn(a) + " ran before its dependency " + nn(b);
    cx.outcome("accepted, " + r.outcome());
    if (!why.empty())
      cx.violation("registration: " + kinds + ": " + seqn(s), why + "\n" + show(r));
    if ((int)s.size() >= depth)
      return;
    for (int op : ops) {
      if (op >= 200 && kinds[op - 200] != 'x')
        continue;
      World w2 = w;
      auto s2 = s;
      s2.push_back(op);
      if (w2.accept(op)) {
        rec(s2, w2);
        continue;
      }
      // rejected: fatal before anything is built
      Result f = run_once(cx, [&] { c11_body(kinds, s2, true); }, Cfg());
      cx.states(1);
      cx.transitions((long)s2.size());
      cx.outcome("rejected, " + f.outcome());
      size_t acc = 0;
      for (auto &e : f.ev)
        acc += e.type == 'O';
      if (f.ok() || !f.exited || f.deadlock() || acc != s.size())
        cx.violation("registration: " + kinds + ": " + seqn(s2), "the last step must be rejected, but " + std::to_string(acc) + " of " + std::to_string(s2.size()) + " steps were accepted and the process ended with " + f.outcome() + "\n" + show(f));
    }
  };
  World w;
  for (int o : start)
    if (!w.accept(o))
      return;
  rec(start, w);
}
// all graphs of n builders up to renaming, as lists of (dependent, dependency)
std::vector<std::vector<std::pair<int, int>>> graphs(int n) {
  std::vector<std::pair<int, int>> e;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < i; j++)
      e.push_back({i, j});
  std::vector<std::vector<int>> perms;
  std::vector<int> p(n);
  for (int i = 0; i < n; i++)
    p[i] = i;
  do
    perms.push_back(p);
  while (std::next_permutation(p.begin(), p.end()));
  std::unordered_set<unsigned long> seen;
  std::vector<std::vector<std::pair<int, int>>> out;
  for (int m = 0; m < 1 << e.size(); m++) {
    std::vector<std::pair<int, int>> g;
    for (size_t i = 0; i < e.size(); i++)
      if (m >> i & 1)
        g.push_back(e[i]);
    unsigned long best = ~0ul;
    for (auto &q : perms) {
      unsigned long c = 0;
      for (auto [a, b] : g)
        c |= 1ul << (q[a] * n + q[b]);
      best = std::min(best, c);
    }
    if (seen.insert(best).second)
      out.push_back(g);
  }
  return out;
}
// every graph, added in either direction: it runs, and every step it rules out is rejected
void c11_graphs(Ctx &cx, int n, int part, int parts) {
  auto gs = graphs(n);
  std::vector<int> ops;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      ops.push_back(100 + 10 * i + j);
  for (size_t k = part; k < gs.size(); k += parts)
    for (int rev = 0; rev < 2 && !cx.stop(); rev++) {
      std::vector<int> start;
      for (int i = 0; i < n; i++)
        start.push_back(i);
      auto g = gs[k];
      if (rev)
        std::reverse(g.begin(), g.end());
      for (auto [a, b] : g)
        start.push_back(100 + 10 * a + b);
      World w;
      for (int o : start)
        w.accept(o);
      std::vector<int> bad;
      for (int o : ops) {
        World w2 = w;
        if (!w2.accept(o))
          bad.push_back(o);
      }
      c11(cx, std::string(n, 'h'), start, bad, (int)start.size() + 1);
    }
}

// graphs of ten builders, and each edge added to them
void c11_big(Ctx &cx, int shape) {
  std::vector<int> s, all;
  for (int i = 0; i < 10; i++)
    s.push_back(i);
  auto dep = [&](int a, int b) { s.push_back(100 + 10 * a + b); };
  for (int i = 1; i < 10; i++)
    switch (shape) {
    case 0: dep(i, i - 1); break;          // chain
    case 1: dep(10 - i, 9 - i); break;     // chain, added from the other end
    case 2: dep(0, i); break;              // star
    case 3: dep(i, 0); break;              // fan
    case 4:                                // everything
      for (int j = 0; j < i; j++)
        dep(i, j);
      break;
    case 5: dep(i, (i - 1) / 2); break;    // tree
    case 6: dep(i < 5 ? i : i == 5 ? 0 : i, i < 5 ? i - 1 : i == 5 ? 9 : i - 1); break; // two chains joined late
    case 7: dep((i * 7) % 10, (i * 7 + 7) % 10); break; // chain in mixed order
    }
  for (int i = 0; i < 10; i++)
    for (int j = 0; j < 10; j++)
      all.push_back(100 + 10 * i + j);
  c11(cx, "huhhhuhxhh", s, all, (int)s.size() + 1);
}
// ------------------------------------------------------------------ C20
const char *optn[] = {"build", "test", "id", "name", "asm_compiler", "c_compiler", "cpp_compiler", "archiver", "linker"};
const char *tcs[] = {"alpha", "beta"};
const char *idn[] = {"gcc", "msvc", "mingw", "clang", "custom", "undefined"};
ToolchainId idv[] = {ToolchainId::Gcc, ToolchainId::Msvc, ToolchainId::MinGW, ToolchainId::Clang, ToolchainId::Custom, ToolchainId::Undefined};
struct Given {
  int opt[2] = {0, 0};   // options given to each toolchain
  int tgt[2] = {0, 0};   // bit0 compile_command, bit1 link_command
  int root = 0;          // bit0 clean, bit1 loglevel
  int idsel[2] = {0, 0}; // which id value
  int src = 0;           // 0 command line, 1 config file, 2 both (the file says otherwise), 3 half and half
  int reg = 3;           // toolchains registered with (bit i) or without initial values
  int none = 0;          // initial values that are empty: name, 5 executables, 2 target commands
  std::string show() const {
    std::string s;
    for (int t = 0; t < 2; t++) {
      s += std::string(tcs[t]) + "{";
      for (int i = 0; i < 9; i++)
        if (opt[t] >> i & 1)
          s += std::string(optn[i]) + (i == 2 ? "=" + std::string(idn[idsel[t]]) : "") + " ";
      s += "} t" + std::to_string(t) + "{" + std::to_string(tgt[t]) + "} ";
    }
    static const char *sn[] = {"command line", "config file", "both", "split"};
    return s + "root " + std::to_string(root) + " from " + sn[src] + " initial " + std::to_string(reg) + " empty " + std::to_string(none);
  }
};
std::string val(int t, int i) { return i == 3 ? "name of " + std::string(tcs[t]) : std::string(tcs[t]) + "-" + optn[i] + " x/y"; }
ArgToolchain initial(int t, int none = 0) {
  std::string p = std::string("init") + tcs[t];
  auto v = [&](int i, const char *x) { return none >> i & 1 ? std::string() : p + x; };
  return ArgToolchain(t ? ToolchainId::MinGW : ToolchainId::Clang, v(0, "name"), ToolchainExecutables(v(1, "as"), v(2, "cc"), v(3, "cxx"), v(4, "ar"), v(5, "ld")), ToolchainConfig());
}
std::string initial_cmd(int t, int link, int none) { return none >> (6 + link) & 1 ? "" : (link ? "initlc" : "initcc") + std::to_string(t); }
std::string dump(const ArgToolchain &a) {
  return std::to_string(a.state.build) + "|" + std::to_string(a.state.test) + "|" + std::to_string((int)a.id) + "|" + a.name + "|" + a.executables.assembler + "|" + a.executables.c_compiler + "|" + a.executables.cpp_compiler + "|" +
         a.executables.archiver + "|" + a.executables.linker;
}
std::string expect(const Given &g) {
  std::string out;
  for (int t = 0; t < 2; t++) {
    ArgToolchain a = g.reg >> t & 1 ? initial(t, g.none) : ArgToolchain();
    int o = g.opt[t];
    a.state.build = o & 1;
    a.state.test = o >> 1 & 1;
    if (o & 4)
      a.id = idv[g.idsel[t]];
    if (o & 8)
      a.name = val(t, 3);
    std::string *e[] = {&a.executables.assembler, &a.executables.c_compiler, &a.executables.cpp_compiler, &a.executables.archiver, &a.executables.linker};
    for (int i = 4; i < 9; i++)
      if (o >> i & 1)
        *e[i - 4] = val(t, i);
    out += dump(a) + "\n";
  }
  for (int t = 0; t < 2; t++)
    out += std::string(g.tgt[t] & 1 ? "{compiler} cc" + std::to_string(t) : g.reg >> t & 1 ? initial_cmd(t, 0, g.none) : "") + "|" + (g.tgt[t] & 2 ? "{linker} lc" + std::to_string(t) : g.reg >> t & 1 ? initial_cmd(t, 1, g.none) : "") + "\n";
  out += std::to_string(g.root & 1) + "|" + std::to_string((int)(g.root & 2 ? env::LogLevel::Critical : env::LogLevel::Info)) + "|p|p/_b\n";
  return out;
}
void body(const Given &g) {
  // where each option comes from
  auto where = [&](int i) { return g.src == 3 ? i % 2 : g.src; };
  std::vector<std::string> a{"script"};
  std::string cfg;
  bool file = g.src != 0;
  if (file) {
    a.push_back("--config");
    a.push_back(g_root + "/c.toml");
  }
  a.insert(a.end(), {"--root_dir", "p", "--build_dir", "p/_b"});
  if (g.root & 1) {
    if (where(0) == 1)
      cfg += "clean = true\n";
    else
      a.push_back("--clean");
  }
  if (g.root & 2) {
    if (where(1) == 1)
      cfg += "loglevel = \"critical\"\n";
    else
      a.insert(a.end(), {"--loglevel", "critical"});
  }
  if (g.src == 2)
    cfg += "root_dir = \"elsewhere\"\n";
  bool anyt = false, anyg = false;
  std::vector<std::string> ta{"toolchain"}, ga{"target"};
  for (int t = 0; t < 2; t++) {
    std::string sec;
    std::vector<std::string> cli;
    for (int i = 0; i < 9; i++)
      if (g.opt[t] >> i & 1) {
        std::string v = i == 2 ? idn[g.idsel[t]] : val(t, i);
        int w = where(i);
        if (w == 1)
          sec += std::string(optn[i]) + " = " + (i < 2 ? "true" : "\"" + v + "\"") + "\n";
        else {
          cli.push_back("--" + std::string(optn[i]));
          if (i >= 2)
            cli.push_back(v);
          if (w == 2 && i >= 3)
            sec += std::string(optn[i]) + " = \"overridden\"\n";
        }
      }
    if (!sec.empty())
      cfg += "[toolchain." + std::string(tcs[t]) + "]\n" + sec;
    if (!cli.empty()) {
      anyt = true;
      ta.push_back(tcs[t]);
      ta.insert(ta.end(), cli.begin(), cli.end());
    }
  }
  for (int t = 0; t < 2; t++) {
    std::string sec;
    std::vector<std::string> cli;
    const char *on[] = {"compile_command", "link_command"};
    for (int i = 0; i < 2; i++)
      if (g.tgt[t] >> i & 1) {
        std::string v = (i ? "{linker} lc" : "{compiler} cc") + std::to_string(t);
        int w = where(i);
        if (w == 1)
          sec += std::string(on[i]) + " = \"" + v + "\"\n";
        else {
          cli.push_back("--" + std::string(on[i]));
          cli.push_back(v);
          if (w == 2)
            sec += std::string(on[i]) + " = \"overridden\"\n";
        }
      }
    if (!sec.empty())
      cfg += "[target.t" + std::to_string(t) + "]\n" + sec;
    if (!cli.empty()) {
      anyg = true;
      ga.push_back("t" + std::to_string(t));
      ga.insert(ga.end(), cli.begin(), cli.end());
    }
  }
  if (anyt)
    a.insert(a.end(), ta.begin(), ta.end());
  if (anyg)
    a.insert(a.end(), ga.begin(), ga.end());
  if (file)
    write_raw(g_root + "/c.toml", cfg, 1700000000000000000ll);
  std::vector<const char *> argv;
  for (auto &x : a)
    argv.push_back(x.c_str());
  ArgToolchain tc[2];
  ArgTarget tg[2];
  auto &ai = Args::Init();
  for (int t = 0; t < 2; t++) {
    ArgTarget in;
    in.compile_command = initial_cmd(t, 0, g.none);
    in.link_command = initial_cmd(t, 1, g.none);
    if (g.reg >> t & 1) {
      ai.AddToolchain(tcs[t], "d", tc[t], initial(t, g.none));
      ai.AddTarget("t" + std::to_string(t), "d", tg[t], in);
    } else {
      ai.AddToolchain(tcs[t], "d", tc[t]);
      ai.AddTarget("t" + std::to_string(t), "d", tg[t]);
    }
  }
  ai.Parse((int)argv.size(), argv.data());
  put(dump(tc[0]) + "\n" + dump(tc[1]) + "\n");
  for (int t = 0; t < 2; t++) {
    auto c = tg[t].GetTargetConfig();
    if (c.compile_command != tg[t].compile_command || c.link_command != tg[t].link_command)
      put("target configuration differs\n");
    put(tg[t].compile_command + "|" + tg[t].link_command + "\n");
  }
  put(std::to_string(Args::Clean()) + "|" + std::to_string((int)Args::GetLogLevel()) + "|" + Args::GetProjectRootDir().string() + "|" + Args::GetProjectBuildDir().string() + "\n");
  if (!Args::IsParsed())
    put("not parsed\n");
}
void c20_values(Ctx &cx, const std::vector<Given> &v) {
  for (auto &g : v) {
    if (cx.stop())
      return;
    Result r;
    std::string o = run_pure(
        cx, [&] { body(g); }, &r);
    cx.states(1);
    cx.transitions(1);
    cx.outcome(r.outcome());
    std::string want = expect(g);
    if (!r.ok() || o != want)
      cx.violation("settings: " + g.show(), "got (" + r.outcome() + "):\n" + o + "expected:\n" + want);
  }
}
// a dozen toolchains and targets: each alone, and all of them, given values
// layers of two builders, each depending on both of the next layer: few
// declarations, but as many paths as there are subsets of layers
void c11_ladder(Ctx &cx, int layers) {
  for (int order = 0; order < 3; order++)
    for (int cyc = 0; cyc < 3; cyc++) {
      Cfg c;
      c.timeout_s = 10;
      Result r = run_once(
          cx,
          [&] {
            ArgToolchain tc;
            proj::args_init(tc);
            std::vector<std::unique_ptr<CustomGenerator>> g;
            for (int i = 0; i < 2 * layers; i++)
              g.push_back(std::make_unique<CustomGenerator>("g" + std::to_string(i), ""));
            auto reg = Reg::Call();
            for (auto &x : g)
              reg.Build([](CustomGenerator &t) { t.Build(); }, *x);
            auto dep = Reg::Toolchain(tc.state);
            for (int k = 0; k + 1 < layers; k++) {
              int l = order == 0 ? k : order == 1 ? layers - 2 - k : k % 2 ? layers - 2 - k / 2 : k / 2;
              for (int i = 0; i < 2; i++)
                for (int j = 0; j < 2; j++)
                  dep.Dep(*g[2 * l + i], *g[2 * l + 2 + j]);
            }
            dep.Dep(*g[0], *g[2 * layers - 1]);
            logev('O', "accepted");
            if (cyc) {
              dep.Dep(*g[2 * layers - 1], *g[cyc - 1]);
              logev('O', "cycle accepted");
            }
            Reg::Run();
          },
          c);
      cx.states(1);
      cx.transitions(4 * layers);
      bool acc = false, cycle = false;
      for (auto &e : r.ev)
        if (e.type == 'O')
          (e.s == "accepted" ? acc : cycle) = true;
      cx.outcome(r.outcome());
      std::string k = "ladder of " + std::to_string(layers) + " layers, order " + std::to_string(order);
      if (!acc) {
        cx.violation(k + ": acyclic declarations not accepted", show(r));
        return;
      }
      if (cyc ? cycle || r.ok() : !r.ok()) {
        cx.violation(k + (cyc ? ": cycle accepted" : ": accepted graph does not run to completion"), show(r));
        return;
      }
    }
}
void c20_many(Ctx &cx) {
  constexpr int N = 12;
  auto T = [](int i) { return "tc" + std::to_string(i); };
  auto G = [](int i) { return "tg" + std::to_string(i); };
  for (int src = 0; src < 2; src++)
    for (int who = -1; who <= N; who++) {
      auto given = [&](int i) { return who == N || who == i; };
      Result r;
      std::string o = run_pure(
          cx,
          [&] {
            std::vector<std::string> a{"script"};
            std::string toml = "root_dir = \"p\"\nbuild_dir = \"p/_b\"\n";
            if (src)
              a.insert(a.end(), {"--config", "c.toml"});
            else
              a.insert(a.end(), {"--root_dir", "p", "--build_dir", "p/_b"});
            if (!src && who >= 0)
              a.push_back("toolchain");
            for (int i = 0; i < N; i++)
              if (given(i)) {
                if (!src)
                  a.insert(a.end(), {T(i), "--build", "--name", "name " + T(i), "--linker", "ld " + T(i)});
                toml += "[toolchain." + T(i) + "]\nbuild = true\nname = \"name " + T(i) + "\"\nlinker = \"ld " + T(i) + "\"\n";
              }
            if (!src && who >= 0)
              a.push_back("target");
            for (int i = 0; i < N; i++)
              if (given(i)) {
                if (!src)
                  a.insert(a.end(), {G(i), "--compile_command", "cc " + G(i)});
                toml += "[target." + G(i) + "]\ncompile_command = \"cc " + G(i) + "\"\n";
              }
            {
              Internal in;
              mkdirs(g_root + "/p/_b");
              write_raw(g_root + "/c.toml", toml, 0);
            }
            std::vector<const char *> argv;
            for (auto &x : a)
              argv.push_back(x.c_str());
            std::vector<ArgToolchain> tc(N);
            std::vector<ArgTarget> tg(N);
            auto &ai = Args::Init();
            for (int i = 0; i < N; i++) {
              ai.AddToolchain(T(i), "d", tc[i], ArgToolchain(ToolchainId::Gcc, "init" + T(i), ToolchainExecutables("a" + T(i), "b", "c", "d", "e"), ToolchainConfig()));
              ai.AddTarget(G(i), "d", tg[i]);
            }
            ai.Parse((int)argv.size(), argv.data());
            std::string res;
            for (int i = 0; i < N; i++)
              res += dump(tc[i]) + "  " + tg[i].compile_command + "|" + tg[i].link_command + "\n";
            put(res);
          },
          &r);
      std::string want;
      for (int i = 0; i < N; i++)
        want += std::string(given(i) ? "1" : "0") + "|0|" + std::to_string((int)ToolchainId::Gcc) + "|" + (given(i) ? "name " : "init") + T(i) + "|a" + T(i) + "|b|c|d|" + (given(i) ? "ld " + T(i) : "e") + "  " + (given(i) ? "cc " + G(i) : "") + "|\n";
      cx.states(1);
      cx.transitions(1);
      cx.outcome("many " + r.outcome());
      if (!r.ok() || o != want)
        cx.violation("settings: a dozen toolchains and targets, given " + (who < 0 ? "none" : who == N ? "all" : T(who)) + (src ? " in a file" : ""), "got (" + r.outcome() + "):\n" + o + "expected:\n" + want);
    }
}
// bad command lines end the process before anything is built
void c20_bad(Ctx &cx) {
  std::vector<std::vector<std::string>> bad;
  std::vector<std::string> R{"--root_dir", "p"}, B{"--build_dir", "p/_b"};
  auto cat = [](std::vector<std::vector<std::string>> l) {
    std::vector<std::string> r;
    for (auto &x : l)
      r.insert(r.end(), x.begin(), x.end());
    return r;
  };
  bad.push_back({});
  bad.push_back(R);
  bad.push_back(B);
  std::vector<std::vector<std::string>> tails{
      {"--unknown"}, {"--loglevel", "loud"}, {"--loglevel"}, {"toolchain", "gamma"}, {"toolchain", "alpha", "--unknown"}, {"toolchain", "alpha", "--id", "nope"}, {"toolchain", "alpha", "--id"}, {"target", "nope"},
      {"target", "t0", "--compile_command"}, {"target", "t0", "--name", "x"}, {"toolchain", "alpha", "--name"}, {"stray"}, {"--config", "missing.toml"}, {"--root_dir"}, {"toolchain", "alpha", "--compile_command", "x"}, {"toolchain", "--build"},
      {"toolchain", "alpha", "--build", "toolchain", "alpha", "--bogus"}};
  for (auto &t : tails)
    bad.push_back(cat({R, B, t}));
  bad.push_back(cat({R, {"toolchain", "alpha", "--build"}}));
  bad.push_back(cat({B, {"toolchain", "alpha", "--build"}}));
  for (auto &b : bad) {
    Result r = run_once(
        cx,
        [&] {
          std::vector<const char *> argv{"script"};
          for (auto &x : b)
            argv.push_back(x.c_str());
          ArgToolchain tc[2];
          ArgTarget tg;
          Args::Init().AddToolchain("alpha", "d", tc[0], initial(0)).AddToolchain("beta", "d", tc[1], initial(1)).AddTarget("t0", "d", tg).Parse((int)argv.size(), argv.data());
          logev('O', "parsed");
          Reg::Init();
        },
        Cfg());
    cx.states(1);
    cx.transitions(1);
    bool parsed = false;
    for (auto &e : r.ev)
      parsed |= e.type == 'O';
    cx.outcome("bad " + r.outcome());
    if (parsed || !r.exited || r.code == 0)
      cx.violation("bad command line accepted: " + join(b, " "), r.outcome());
  }
  // using the pieces out of order is fatal
  struct E {
    const char *n;
    std::function<void()> f;
  };
  std::vector<E> es{{"Reg::Init before parsing", [] { Args::Init(); Reg::Init(); }},
                    {"Reg::Init without Args", [] { Reg::Init(); }},
                    {"Reg::Run before Reg::Init", [] { Reg::Run(); }},
                    {"Reg::Toolchain before Reg::Init", [] { Reg::Toolchain(ArgToolchainState(true, true)); }},
                    {"Reg::Call before Reg::Init", [] { Reg::Call(); }},
                    {"undefined toolchain", [] { ArgToolchain a; a.name = "x"; a.ConstructToolchain(); }}};
  for (auto &e : es) {
    Result r = run_once(cx, e.f, Cfg());
    cx.states(1);
    cx.transitions(1);
    if (!r.exited || r.code == 0)
      cx.violation(std::string("not fatal: ") + e.n, r.outcome());
  }
}
// constructed toolchains carry the settings
void c20_construct(Ctx &cx) {
  for (int id = 0; id < 6; id++) {
    Result r;
    std::string o = run_pure(
        cx,
        [&] {
          ArgToolchain a = initial(0);
          a.id = idv[id];
          Toolchain &t = a.ConstructToolchain();
          auto &e = t.GetToolchainExecutables();
          put(std::to_string(t.GetId() == idv[id]) + t.GetName() + "|" + e.assembler + "|" + e.c_compiler + "|" + e.cpp_compiler + "|" + e.archiver + "|" + e.linker + "|" + t.GetAssembler() + t.GetCCompiler() + t.GetCppCompiler() + t.GetArchiver() + t.GetLinker());
        },
        &r);
    cx.states(1);
    cx.transitions(1);
    std::string p = "initalpha";
    std::string want = "1" + p + "name|" + p + "as|" + p + "cc|" + p + "cxx|" + p + "ar|" + p + "ld|" + p + "as" + p + "cc" + p + "cxx" + p + "ar" + p + "ld";
    if (id == 5 ? r.ok() || !r.exited : !r.ok() || o != want)
      cx.violation(std::string("toolchain constructed from ") + idn[id], o + " " + r.outcome() + "\nexpected " + want);
  }
}
// flags decide what is built and tested
struct Pkg {
  ExecutableTarget_gcc *t;
  std::string src;
  int calls = 0;
  void Setup(const ArgToolchainState &st) {
    calls++;
    Reg::Toolchain(st).Build([&](BaseTarget &x) { x.AddSource(src); x.Build(); }, *t).Test("{executable}", *t);
  }
};
void c20_flags(Ctx &cx, int flags, int callmask) {
  custom_program = test_prog;
  std::string bdir = g_root + "/p/_b";
  mkdirs(bdir);
  restore(bdir, {});
  for (int i = 0; i < 6; i++)
    proj::put_file("p/s" + std::to_string(i) + ".cpp", "// s\n", 0);
  Result r = run_once(
      cx,
      [&] {
        ArgToolchain tc[2];
        auto &ai = Args::Init();
        std::vector<const char *> a{"script", "--root_dir", "p", "--build_dir", "p/_b", "toolchain"};
        for (int t = 0; t < 2; t++) {
          ai.AddToolchain(tcs[t], "d", tc[t]);
          a.push_back(tcs[t]);
          if (flags >> (2 * t) & 1)
            a.push_back("--build");
          if (flags >> (2 * t) & 2)
            a.push_back("--test");
        }
        ai.Parse((int)a.size(), a.data());
        Reg::Init();
        std::vector<std::unique_ptr<Toolchain_gcc>> gcc;
        std::vector<std::unique_ptr<ExecutableTarget_gcc>> x;
        std::vector<std::unique_ptr<Pkg>> pk;
        for (int t = 0; t < 2; t++) {
          gcc.push_back(std::make_unique<Toolchain_gcc>(tcs[t]));
          for (int k = 0; k < 3; k++)
            x.push_back(std::make_unique<ExecutableTarget_gcc>("x" + std::to_string(3 * t + k), *gcc[t], ""));
          pk.push_back(std::make_unique<Pkg>(Pkg{x[3 * t + 2].get(), "s" + std::to_string(3 * t + 2) + ".cpp"}));
        }
        for (int t = 0; t < 2; t++) {
          auto cb = [t](BaseTarget &b, int k) { b.AddSource("s" + std::to_string(3 * t + k) + ".cpp"); b.Build(); };
          Reg::Toolchain(tc[t].state)
              .Func([t] { logev('O', std::string("func ") + tcs[t]); })
              .Build(cb, *x[3 * t], 0)
              .Build(cb, *x[3 * t + 1], 1)
              .BuildPackage(*pk[t])
              .Dep(*x[3 * t], *x[3 * t + 1])
              .Test("{executable}", *x[3 * t])
              .Test("{executable}", *x[3 * t + 1]);
          Reg::Call(callmask >> t & 1).Func([t] { logev('O', std::string("call ") + tcs[t]); });
        }
        Reg::Run([] { logev('O', "post"); });
      },
      Cfg());
  std::multiset<std::string> want{"post"}, got;
  for (int t = 0; t < 2; t++) {
    bool b = flags >> (2 * t) & 1, te = flags >> (2 * t) & 2;
    if (callmask >> t & 1)
      want.insert(std::string("call ") + tcs[t]);
    if (!b)
      continue;
    want.insert(std::string("func ") + tcs[t]);
    for (int k = 0; k < 3; k++) {
      std::string n = std::string(tcs[t]) + "/x" + std::to_string(3 * t + k);
      want.insert("build " + n);
      if (te)
        want.insert("test " + n);
    }
  }
  for (auto &c : commands(r)) {
    size_t i = c.cmd.find("/_b/");
    std::string s = c.cmd.substr(i + 4);
    s = s.substr(0, s.find('/', s.find('/') + 1));
    if (c.cmd.find(" -c ") != std::string::npos)
      continue;
    got.insert((c.cmd.find(" -o ") != std::string::npos ? "build " : "test ") + s);
  }
  for (auto &e : r.ev)
    if (e.type == 'O')
      got.insert(e.s);
  cx.states(1);
  cx.transitions(1);
  cx.outcome("flags " + r.outcome());
  if (!r.ok() || want != got) {
    std::string d = r.outcome() + "\ngot:";
    for (auto &x : got)
      d += "\n " + x;
    d += "\nexpected:";
    for (auto &x : want)
      d += "\n " + x;
    cx.violation("flags " + std::to_string(flags) + " call " + std::to_string(callmask), d);
  }
}
} // namespace

namespace mc {
std::vector<Unit> make_units(const std::string &prop, bool th, const std::string &) {
  std::vector<Unit> u;
  if (prop == "C11") {
    auto deps = [](int n) {
      std::vector<int> o;
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
          o.push_back(100 + 10 * i + j);
      return o;
    };
    for (int n : {4, 12, 40})
      u.push_back({"ladder" + std::to_string(n), [=](Ctx &cx) { c11_ladder(cx, n); }});
    // everything interleaved
    auto full = [&](int n) {
      auto o = deps(n);
      for (int i = 0; i < n; i++)
        o.push_back(i);
      return o;
    };
    for (const char *k : {"xh", "uu", "hh"})
      for (int a = 0; a < 2; a++) {
        auto o = full(2);
        o.push_back(200);
        o.push_back(201);
        u.push_back({std::string(k) + ".start" + std::to_string(a), [=](Ctx &cx) { c11(cx, k, {a}, o, 8); }});
      }
    u.push_back({"xh.empty", [=](Ctx &cx) {
                   auto o = deps(2);
                   o.push_back(200);
                   c11(cx, "xh", {}, o, 1);
                 }});
    for (const char *k : {"uhx", "hhh"})
      for (int a = 0; a < 3; a++)
        for (int b = 0; b < 3; b++)
          if (a != b)
            for (int op : full(3))
              u.push_back({std::string(k) + ".start" + std::to_string(a) + std::to_string(b) + "." + std::to_string(op), [=](Ctx &cx) { c11(cx, k, {a, b, op}, full(3), 9); }});
    for (int n : {4, 5, 6})
      for (int i = 0; i < (n - 3) * 16 && (th || n < 6); i++)
        u.push_back({"graphs" + std::to_string(n) + "." + std::to_string(i), [=](Ctx &cx) { c11_graphs(cx, n, i, (n - 3) * 16); }});
    // names that look alike
    for (auto &n : std::vector<std::pair<std::string, std::vector<std::string>>>{{"uvhh", {"foo", "foo", "foo", "oo"}}, {"uuhh", {"a b", "b", "a", "a b"}}, {"xuhh", {"n1", "n10", "n1", "1"}}, {"hhuu", {"gcc", "x", "gcc", "x"}}})
      for (int a = 0; a < 4; a++)
        for (int b = 0; b < 4; b++)
          if (a != b)
            u.push_back({"names." + n.first + "." + n.second[0] + std::to_string(a) + std::to_string(b), [=](Ctx &cx) {
                           given = n.second;
                           c11(cx, n.first, {a, b}, full(4), 4);
                           given.clear();
                         }});
    for (int i = 0; i < 8; i++)
      u.push_back({"ten." + std::to_string(i), [=](Ctx &cx) { c11_big(cx, i); }});
    // four builders
    for (int op : deps(4))
      if (th)
        u.push_back({"hhhh." + std::to_string(op), [=](Ctx &cx) { c11(cx, "hhhh", {0, 1, 2, 3, op}, deps(4), 4 + 6); }});
      else
        u.push_back({"hhhh." + std::to_string(op), [=](Ctx &cx) { c11(cx, "hhhh", {0, 1, 2, 3, op}, deps(4), 4 + 3); }});
  }
  if (prop == "C20") {
    std::vector<Given> v;
    for (int t = 0; t < 2; t++)
      for (int m = 0; m < 512; m++)
        for (int other : {0, 511})
          for (int src = 0; src < 4; src++) {
            if (!th && t == 1 && src > 1)
              continue;
            Given g;
            g.opt[t] = m;
            g.opt[1 - t] = other;
            g.src = src;
            g.reg = m % 3 == 0 ? 3 : m % 3 == 1 ? 1 : 2;
            v.push_back(g);
          }
    for (int m = 0; m < 64; m++)
      for (int src = 0; src < 4; src++) {
        Given g;
        g.tgt[0] = m & 3;
        g.tgt[1] = m >> 2 & 3;
        g.root = m >> 4;
        g.src = src;
        v.push_back(g);
        g.reg = 0;
        g.opt[0] = 1;
        v.push_back(g);
      }
    for (int i = 0; i < 6; i++)
      for (int j = 0; j < 6; j++)
        for (int src = 0; src < 2; src++) {
          Given g;
          g.opt[0] = g.opt[1] = 4;
          g.idsel[0] = i;
          g.idsel[1] = j;
          g.src = src;
          v.push_back(g);
        }
    // initial values that are partly empty, with none or one of the options given
    for (int none = 1; none < 256; none++)
      for (int o = 0; o < 10; o++)
        for (int src = 0; src < (th ? 4 : 2); src++) {
          if (!th && o && __builtin_popcount(none) > 2 && none != 255)
            continue;
          Given g;
          g.none = none;
          g.opt[0] = o ? 1 << (o - 1) : 0;
          g.opt[1] = o ? 256 >> (o - 1) : 0;
          g.tgt[0] = o % 4;
          g.tgt[1] = o / 3 % 4;
          g.src = src;
          v.push_back(g);
        }
    // pairs of options across the two toolchains
    for (int i = 0; i < 9; i++)
      for (int j = 0; j < 9; j++)
        for (int src = 0; src < 4; src++) {
          Given g;
          g.opt[0] = 1 << i;
          g.opt[1] = 1 << j;
          g.src = src;
          v.push_back(g);
        }
    size_t step = 64;
    for (size_t i = 0; i < v.size(); i += step) {
      std::vector<Given> part(v.begin() + i, v.begin() + std::min(v.size(), i + step));
      u.push_back({"values" + std::to_string(i), [=](Ctx &cx) { c20_values(cx, part); }});
    }
    u.push_back({"many", c20_many});
    u.push_back({"bad", c20_bad});
    u.push_back({"construct", c20_construct});
    for (int f = 0; f < 16; f++)
      for (int c = 0; c < 4; c++)
        u.push_back({"flags" + std::to_string(f) + "." + std::to_string(c), [=](Ctx &cx) { c20_flags(cx, f, c); }});
  }
  return u;
}
} // namespace mc

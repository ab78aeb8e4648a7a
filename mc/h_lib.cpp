// C14 substitution, C15 copy/insert, C16 storage, C21 files and text helpers:
// bounded exhaustive enumeration of inputs, operation sequences and I/O faults
// against reference models.
#include "bcc.h"
#include "env/storage.h"
#include <algorithm>
#include <unistd.h>
using namespace mc;
using namespace buildcc;

namespace {

// ------------------------------------------------------------------ C14
// reference substitution: nullopt = fatal; pos = uses a positional placeholder
struct Ref {
  bool ok = true, scope = true;
  std::string out;
};
bool idch(char c, bool first) { return isalpha((unsigned char)c) || c == '_' || (!first && isdigit((unsigned char)c)); }
Ref subst(const std::string &p, const std::map<std::string, std::string> &d) {
  Ref r;
  for (size_t i = 0; i < p.size(); i++) {
    char c = p[i];
    if (c == '}') {
      if (i + 1 < p.size() && p[i + 1] == '}') {
        r.out += '}';
        i++;
        continue;
      }
      r.ok = false;
      return r;
    }
    if (c != '{') {
      r.out += c;
      continue;
    }
    if (i + 1 < p.size() && p[i + 1] == '{') {
      r.out += '{';
      i++;
      continue;
    }
    size_t j = i + 1;
    if (j < p.size() && (p[j] == '}' || p[j] == ':' || isdigit((unsigned char)p[j]))) {
      r.scope = false; // positional placeholders and format specifications are not used
      return r;
    }
    while (j < p.size() && idch(p[j], j == i + 1))
      j++;
    if (j >= p.size() || j == i + 1 || p[j] != '}') {
      if (j < p.size() && p[j] == ':')
        r.scope = false;
      r.ok = false;
      return r;
    }
    auto it = d.find(p.substr(i + 1, j - i - 1));
    if (it == d.end()) {
      r.ok = false;
      return r;
    }
    r.out += it->second;
    i = j;
  }
  return r;
}
struct Defs {
  std::map<std::string, std::string> dflt, call;
};
std::vector<Defs> defsets() {
  std::string big(300, 'y');
  return {
      {{}, {}},
      {{{"a", "v"}}, {}},
      {{}, {{"a", "v"}}},
      {{{"a", "{b}"}}, {{"b", "{a}"}}},
      {{{"a", "{{"}, {"b", ""}}, {{"long_name1", "}"}}},
      {{{"a", ""}, {"b", "x y"}, {"long_name1", "l"}}, {}},
      {{{"b", big}}, {{"a", "\"q\"\\"}, {"A", "upper"}}},
      {{{"a", "1"}, {"aa", "2"}}, {{"b", "3"}, {"_b", "4"}}},
  };
}
std::vector<std::string> tokens(bool th) {
  std::vector<std::string> t{"{a}", "{b}", "{", "}", "a", "{{", "}}", "{long_name1}", " ", "{A}", "\n", "\"", "{aa}", "{a"};
  if (th)
    for (auto s : {"{_b}", "\xc3\xa9", "\t", "{ a}", "{a }", "{undefined}", "\\"})
      t.push_back(s);
  return t;
}
void all_seqs(int nt, int len, const std::function<void(const std::vector<int> &)> &f) {
  std::vector<int> v(len, 0);
  for (;;) {
    f(v);
    int i = len - 1;
    while (i >= 0 && ++v[i] == nt)
      v[i--] = 0;
    if (i < 0)
      return;
  }
}
void c14_construct(Ctx &cx, int first, int len, bool th, const Defs &D) {
  auto T = tokens(th);
  std::vector<std::string> pats;
  auto merged = D.dflt;
  merged.insert(D.call.begin(), D.call.end());
  all_seqs((int)T.size(), len - 1, [&](const std::vector<int> &v) {
    std::string p = T[first];
    for (int i : v)
      p += T[i];
    if (subst(p, merged).scope)
      pats.push_back(p);
  });
  run_cases(
      cx, (int)pats.size(),
      [&](int i) {
        env::Command c;
        for (auto &[k, v] : D.dflt)
          c.AddDefaultArgument(k, v);
        std::unordered_map<const char *, std::string> m;
        for (auto &[k, v] : D.call)
          m.emplace(k.c_str(), v);
        std::string o = c.Construct(pats[i], m);
        // defined values stay, per-call values do not
        std::string o2 = c.Construct(pats[i], m);
        if (o2 != o)
          return "second use differs: " + o2;
        for (auto &[k, v] : D.dflt)
          if (c.GetDefaultValueByKey(k) != v)
            return std::string("default value changed");
        return "=" + o;
      },
      [&](int i, const Case &c) {
        Ref r = subst(pats[i], merged);
        cx.states(1);
        cx.transitions(1);
        std::string d = "pattern: " + esc(pats[i]) + "\nexpected: " + (r.ok ? esc(r.out) : "fatal") + "\ngot: " + (c.done ? esc(c.out) : c.res.outcome()) + "\n";
        cx.outcome(r.ok ? "substituted" : "fatal");
        if (c.done ? !r.ok || c.out != "=" + r.out : r.ok || !c.res.exited || c.res.code == 0)
          cx.violation("substitution of " + esc(pats[i]), d);
      });
}
// a per-call value is gone in the next call
void c14_percall(Ctx &cx) {
  std::vector<std::string> names{"a", "b"};
  for (int dm = 0; dm < 4; dm++)
    for (int cm = 0; cm < 4; cm++)
      for (int use = 0; use < 2; use++) {
        if (dm & cm)
          continue; // which of two definitions wins is not promised
        Result r;
        std::string o = run_pure(
            cx,
            [&] {
              env::Command c;
              std::unordered_map<const char *, std::string> m;
              std::unordered_map<std::string, std::string> ds;
              for (int i = 0; i < 2; i++) {
                if (dm >> i & 1)
                  ds[names[i]] = "D";
                if (cm >> i & 1)
                  m.emplace(names[i].c_str(), "C");
              }
              c.AddDefaultArguments(ds);
              std::string p;
              for (int i = 0; i < 2; i++)
                if ((dm | cm) >> i & 1)
                  p += "{" + names[i] + "}";
              std::string one = c.Construct(p, m);
              put(one + "|");
              put(c.Construct("{" + names[use] + "}") + "|");
            },
            &r);
        std::string want;
        for (int i = 0; i < 2; i++)
          if (dm >> i & 1)
            want += "D";
          else if (cm >> i & 1)
            want += "C";
        want += "|";
        bool ok = dm >> use & 1;
        if (ok)
          want += "D|";
        cx.states(1);
        cx.transitions(2);
        if (o != want || r.ok() != ok)
          cx.violation("per-call values affect only their call", "defaults " + std::to_string(dm) + " call " + std::to_string(cm) + " use " + names[use] + ": got " + o + " " + r.outcome() + ", want " + want);
      }
  // null names
  Result r;
  run_pure(cx, [&] { env::Command c; std::unordered_map<const char *, std::string> m; m.emplace(nullptr, "x"); put(c.Construct("abc", m)); }, &r);
  if (r.ok() || !r.exited)
    cx.violation("null argument name accepted", r.outcome());
  // lookup of an undefined default
  run_pure(cx, [&] { env::Command c; c.AddDefaultArgument("a", "b"); put(c.GetDefaultValueByKey("b")); }, &r);
  if (r.ok() || !r.exited)
    cx.violation("undefined default value returned", r.outcome());
}
// many and long: n defaults, n per-call values, patterns of many placeholders
void c14_many(Ctx &cx) {
  struct C {
    int nd, nc, rep;
    size_t vlen;
  };
  std::vector<C> cs;
  for (int nd : {0, 1, 2, 3, 7, 15, 16, 17, 31, 33, 64, 65, 200})
    for (int nc : {0, 1, 5, 16, 17, 40, 100})
      for (int rep : {1, 2})
        for (size_t vlen : {1, 30, 700})
          cs.push_back({nd, nc, rep, vlen});
  cs.push_back({5, 5, 3000, 20});
  cs.push_back({3, 2, 2, 200000});
  cs.push_back({100, 100, 20, 100});
  auto val = [](const std::string &n, size_t len) {
    std::string v = "{" + n + "}";
    while (v.size() < len)
      v += n + "}{";
    return v;
  };
  run_cases(
      cx, (int)cs.size(),
      [&](int i) -> std::string {
        auto [nd, nc, rep, vlen] = cs[i];
        std::map<std::string, std::string> all;
        std::vector<std::string> cn;
        env::Command c;
        for (int k = 0; k < nd; k++) {
          std::string n = "d" + std::to_string(k);
          c.AddDefaultArgument(n, all[n] = val(n, vlen));
        }
        for (int k = 0; k < nc; k++)
          cn.push_back("c" + std::to_string(k));
        std::unordered_map<const char *, std::string> m;
        for (auto &n : cn)
          m.emplace(n.c_str(), all[n] = val(n, vlen));
        std::string p = "<", want = "<";
        for (int q = 0; q < rep; q++)
          for (auto &[n, v] : all) {
            p += "{" + n + "}{{" + n + "}}";
            want += v + "{" + n + "}";
          }
        std::string o = c.Construct(p, m);
        if (o != want)
          return "got " + std::to_string(o.size()) + " characters, expected " + std::to_string(want.size());
        for (int k = 0; k < nd; k++) {
          std::string n = "d" + std::to_string(k);
          if (c.GetDefaultValueByKey(n) != all[n])
            return "default " + n + " changed";
        }
        return "";
      },
      [&](int i, const Case &c) {
        cx.states(1);
        cx.transitions(1);
        cx.outcome("many");
        if (!c.done || !c.out.empty())
          cx.violation("substitution with " + std::to_string(cs[i].nd) + " defaults, " + std::to_string(cs[i].nc) + " values, " + std::to_string(cs[i].rep) + " times, length " + std::to_string(cs[i].vlen), c.done ? c.out : c.res.outcome());
      });
}
// long templates, many patterns, many templates
void c14_bigtemplate(Ctx &cx) {
  std::string bdir = g_root + "/p/_b";
  for (int npat : {1, 8, 40})
    for (int ntem : {1, 9, 30})
      for (size_t len : {100, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 20000, 70000, 200000}) {
        if (cx.stop())
          return;
        if (len > 5000 && ntem > 9)
          continue;
        mkdirs(bdir);
        restore(bdir, {});
        std::vector<std::string> want;
        for (int t = 0; t < ntem; t++) {
          std::string p = "t" + std::to_string(t) + "\n", w = p;
          for (int k = 0; p.size() < len; k++) {
            int q = k % npat;
            p += "{p" + std::to_string(q) + "} text {{}}\n";
            w += "value " + std::to_string(q) + " {} text {}\n";
          }
          write_raw(g_root + "/p/t" + std::to_string(t) + ".in", p, 1700000000000000000ll);
          want.push_back(w);
        }
        Result x = run_once(
            cx,
            [&] {
              ArgToolchain tc;
              proj::args_init(tc);
              TemplateGenerator g("tg", "");
              for (int q = 0; q < npat; q++)
                g.AddPattern("p" + std::to_string(q), "value " + std::to_string(q) + " {{}}");
              for (int t = 0; t < ntem; t++)
                g.AddTemplate("{current_root_dir}/t" + std::to_string(t) + ".in", "{current_build_dir}/t" + std::to_string(t) + ".out");
              Reg::Toolchain(tc.state).Build([](TemplateGenerator &t) { t.Build(); }, g);
              Reg::Run();
            },
            Cfg());
        std::string what = std::to_string(npat) + " patterns, " + std::to_string(ntem) + " templates of " + std::to_string(len) + " characters";
        cx.states(1);
        cx.transitions(ntem);
        cx.outcome("big template " + x.outcome());
        if (!x.ok())
          cx.violation("template: " + what, show(x, 50));
        for (int t = 0; t < ntem; t++) {
          std::string c;
          if (!read_raw(bdir + "/tg/t" + std::to_string(t) + ".out", c) || c != want[t]) {
            cx.violation("template: " + what, "output " + std::to_string(t) + " has " + std::to_string(c.size()) + " bytes, expected " + std::to_string(want[t].size()));
            return;
          }
        }
      }
}
// every sequence of definitions, one by one or together, of two names with all
// kinds of values: the first value of a name stays
void c14_defs(Ctx &cx, int first, int depth) {
  static const char *val[] = {"", "v", "{b}", "w"};
  // an operation defines name i (0..1) as val[j], alone or in a map with the other name
  struct Op {
    int name, v, how, v2;
  };
  static std::vector<Op> ops;
  if (ops.empty()) {
    for (int n = 0; n < 2; n++)
      for (int v = 0; v < 4; v++) {
        ops.push_back({n, v, 0, 0});
        ops.push_back({n, v, 1, 0});
      }
    for (int v = 0; v < 4; v++)
      for (int w = 0; w < 4; w++)
        ops.push_back({0, v, 2, w});
  }
  const std::string nm[] = {"a", "b"};
  std::vector<std::vector<int>> seqs;
  std::function<void(std::vector<int> &)> rec = [&](std::vector<int> &s) {
    seqs.push_back(s);
    if ((int)s.size() < depth)
      for (int i = 0; i < (int)ops.size(); i++) {
        s.push_back(i);
        rec(s);
        s.pop_back();
      }
  };
  std::vector<int> s{first};
  if (first < (int)ops.size())
    rec(s);
  auto show = [&](const std::vector<int> &q) {
    std::string r;
    for (int i : q) {
      auto &o = ops[i];
      r += std::string(r.empty() ? "" : "; ") + (o.how ? "together " : "") + nm[o.name] + "='" + val[o.v] + "'" + (o.how == 2 ? std::string(",b='") + val[o.v2] + "'" : "");
    }
    return r;
  };
  run_cases(
      cx, (int)seqs.size(),
      [&](int k) -> std::string {
        env::Command c;
        std::map<std::string, std::string> m;
        for (int i : seqs[k]) {
          auto &o = ops[i];
          if (o.how == 0)
            c.AddDefaultArgument(nm[o.name], val[o.v]);
          else if (o.how == 1)
            c.AddDefaultArguments({{nm[o.name], val[o.v]}});
          else
            c.AddDefaultArguments({{nm[0], val[o.v]}, {nm[1], val[o.v2]}});
          m.emplace(nm[o.name], val[o.v]);
          if (o.how == 2)
            m.emplace(nm[1], val[o.v2]);
          std::string p, want;
          for (auto &[k, v] : m) {
            p += "<{" + k + "}>";
            want += "<" + v + ">";
            if (c.GetDefaultValueByKey(k) != v)
              return k + " is '" + c.GetDefaultValueByKey(k) + "', expected '" + v + "'";
          }
          std::string got = c.Construct(p);
          if (got != want)
            return "got " + got + ", expected " + want;
          got = c.Construct(p + "{c}", {{"c", "x"}});
          if (got != want + "x")
            return "with a per-call value: got " + got + ", expected " + want + "x";
        }
        return "";
      },
      [&](int k, const Case &c) {
        cx.states(1);
        cx.transitions(seqs[k].size());
        if (!c.done || !c.out.empty())
          cx.violation("definitions " + show(seqs[k]), c.done ? c.out : c.res.outcome());
      });
  cx.outcome("definitions");
}
// generators: patterns defined in terms of earlier ones, template files
void c14_template(Ctx &cx, int first, int len, bool th) {
  auto T = tokens(th);
  std::map<std::string, std::string> defs{{"a", "v\nw"}, {"b", "{a}"}, {"A", g_root + "/p"}, {"aa", "v\nwv\nw"}};
  std::string bdir = g_root + "/p/_b";
  all_seqs((int)T.size(), len - 1, [&](const std::vector<int> &v) {
    if (cx.stop())
      return;
    std::string p = T[first];
    for (int i : v)
      p += T[i];
    Ref r = subst(p, defs);
    if (!r.scope)
      return;
    mkdirs(bdir);
    restore(bdir, {});
    mkdirs(g_root + "/p");
    write_raw(g_root + "/p/t.in", p, 1700000000000000000ll);
    Result x = run_once(
        cx,
        [&] {
          ArgToolchain tc;
          proj::args_init(tc);
          TemplateGenerator g("tg", "");
          g.AddPattern("a", "v\nw");
          g.AddPattern("b", "{{a}}");
          g.AddPatterns({{"A", "{project_root_dir}"}});
          g.AddPattern("aa", "{a}{a}");
          g.AddTemplate("{current_root_dir}/t.in", "{current_build_dir}/t.out");
          if (g.Parse("{b}/{aa}/{{") != "{a}/v\nwv\nw/{")
            logev('O', "Parse: " + g.Parse("{b}/{aa}/{{"));
          Reg::Toolchain(tc.state).Build([](TemplateGenerator &t) { t.Build(); }, g);
          Reg::Run();
        },
        Cfg());
    std::string c, got = read_raw(bdir + "/tg/t.out", c) ? "=" + c : "none";
    cx.states(1);
    cx.transitions(1);
    cx.outcome(r.ok ? "template ok" : "template fatal");
    for (auto &e : x.ev)
      if (e.type == 'O')
        cx.violation("generator pattern expansion", e.s);
    if (r.ok ? !x.ok() || got != "=" + r.out : x.ok() || !x.exited || got != "none" || x.deadlock())
      cx.violation("template " + esc(p), "template: " + esc(p) + "\nexpected: " + (r.ok ? esc(r.out) : "failure, no output") + "\ngot: " + x.outcome() + " " + esc(got));
  });
}

// ------------------------------------------------------------------ C15
using SO = SyncOption;
struct Setting {
  SO o;
  const char *name;
  std::function<void(TargetInfo &, const std::string &)> add;
  std::function<std::vector<std::string>(const TargetInfo &)> get;
};
const std::vector<Setting> &settings() {
  using B = TargetInfo;
  using S = std::string;
  auto abs = [](const S &v) { return fs::path(g_root + "/p/" + v); };
  static std::vector<Setting> s{
      {SO::SourceFiles, "SourceFiles", [=](B &t, const S &v) { t.AddSourceAbsolute(abs(v + ".cpp")); }, [](const B &t) { return t.GetSourceFiles(); }},
      {SO::HeaderFiles, "HeaderFiles", [=](B &t, const S &v) { t.AddHeaderAbsolute(abs(v + ".h")); }, [](const B &t) { return t.GetHeaderFiles(); }},
      {SO::PchFiles, "PchFiles", [=](B &t, const S &v) { t.AddPchAbsolute(abs(v + ".h")); }, [](const B &t) { return t.GetPchFiles(); }},
      {SO::LibDeps, "LibDeps", [=](B &t, const S &v) { auto *l = new StaticTarget_gcc("lib" + v, *new Toolchain_gcc(), ""); t.AddLibDep(*l); }, [](const B &t) { return t.GetLibDeps(); }},
      {SO::IncludeDirs, "IncludeDirs", [=](B &t, const S &v) { t.AddIncludeDirAbsolute(abs("i" + v)); }, [](const B &t) { return t.GetIncludeDirs(); }},
      {SO::LibDirs, "LibDirs", [=](B &t, const S &v) { t.AddLibDirAbsolute(abs("l" + v)); }, [](const B &t) { return t.GetLibDirs(); }},
      {SO::ExternalLibDeps, "ExternalLibDeps", [](B &t, const S &v) { t.AddLibDep("-lx" + v); }, [](const B &t) { return t.GetExternalLibDeps(); }},
      {SO::PreprocessorFlags, "PreprocessorFlags", [](B &t, const S &v) { t.AddPreprocessorFlag("-DP" + v); }, [](const B &t) { return t.GetPreprocessorFlags(); }},
      {SO::CommonCompileFlags, "CommonCompileFlags", [](B &t, const S &v) { t.AddCommonCompileFlag("-DC" + v); }, [](const B &t) { return t.GetCommonCompileFlags(); }},
      {SO::PchCompileFlags, "PchCompileFlags", [](B &t, const S &v) { t.AddPchCompileFlag("-DPC" + v); }, [](const B &t) { return t.GetPchCompileFlags(); }},
      {SO::PchObjectFlags, "PchObjectFlags", [](B &t, const S &v) { t.AddPchObjectFlag("-DPO" + v); }, [](const B &t) { return t.GetPchObjectFlags(); }},
      {SO::AsmCompileFlags, "AsmCompileFlags", [](B &t, const S &v) { t.AddAsmCompileFlag("-DA" + v); }, [](const B &t) { return t.GetAsmCompileFlags(); }},
      {SO::CCompileFlags, "CCompileFlags", [](B &t, const S &v) { t.AddCCompileFlag("-DCC" + v); }, [](const B &t) { return t.GetCCompileFlags(); }},
      {SO::CppCompileFlags, "CppCompileFlags", [](B &t, const S &v) { t.AddCppCompileFlag("-DCX" + v); }, [](const B &t) { return t.GetCppCompileFlags(); }},
      {SO::LinkFlags, "LinkFlags", [](B &t, const S &v) { t.AddLinkFlag("-DL" + v); }, [](const B &t) { return t.GetLinkFlags(); }},
      {SO::CompileDependencies, "CompileDependencies", [=](B &t, const S &v) { t.AddCompileDependencyAbsolute(abs("cd" + v)); }, [](const B &t) { return t.GetCompileDependencies(); }},
      {SO::LinkDependencies, "LinkDependencies", [=](B &t, const S &v) { t.AddLinkDependencyAbsolute(abs("ld" + v)); }, [](const B &t) { return t.GetLinkDependencies(); }},
  };
  return s;
}
void transfer(TargetInfo &d, TargetInfo &s, const std::vector<SO> &o, int mode) {
  struct { // an initializer_list of run-time length (libstdc++ layout)
    const SO *p;
    size_t n;
  } raw{o.data(), o.size()};
  std::initializer_list<SO> l;
  static_assert(sizeof l == sizeof raw);
  memcpy((void *)&l, &raw, sizeof l);
  switch (mode) {
  case 0: d.Copy((const TargetInfo &)s, l); break;
  case 1: d.Copy(std::move((TargetInfo &)s), l); break;
  case 2: d.Insert((const TargetInfo &)s, l); break;
  default: d.Insert(std::move((TargetInfo &)s), l); break;
  }
}
std::vector<std::vector<std::string>> all_of(const TargetInfo &t) {
  std::vector<std::vector<std::string>> v;
  for (auto &s : settings())
    v.push_back(s.get(t));
  return v;
}
using Items = std::vector<std::string>;
const std::vector<Items> &dst_items() {
  static std::vector<Items> v{{}, {"d1"}, {"d1", "d2"}, {"d1", "d2", "d3"}, {"s1"}, {"d1", "s1", "d1"}, {"mixed"}, {"many"}};
  return v;
}
const std::vector<Items> &src_items() {
  static std::vector<Items> v{{}, {"s1"}, {"s1", "s2"}, {"s1", "s1"}, {"s1", "s2", "s3"}, {"mixed"}, {"many"}};
  return v;
}
// what the i-th setting gets: "mixed" gives every setting another number of items
Items items_of(const Items &v, int i, char who) {
  Items r;
  if (v == Items{"many"}) {
    for (int k = 0; k < 30; k++)
      r.push_back(who + std::to_string(k * 11 % 30));
    return r;
  }
  if (v != Items{"mixed"})
    return v;
  int n = who == 'd' ? i % 4 : i / 4 % 4;
  for (int k = 1; k <= n && k < 4; k++)
    r.push_back(who + std::to_string(k));
  return r;
}
// kind: bit0 the destination is a target, bit1 the source is one
void c15(Ctx &cx, const std::vector<std::vector<int>> &lists, int mode, size_t di, size_t si, int kind, bool again) {
  mkdirs(g_root + "/p");
  std::string m = (kind & 1 ? "target" : "information") + std::string(" from ") + (kind & 2 ? "target" : "information") + " [" + join(dst_items()[di], " ") + "] <- [" + join(src_items()[si], " ") + "]" + (again ? " again" : "");
  run_cases(
      cx, (int)lists.size(),
      [&](int k) -> std::string {
        if (!Project::IsInit())
          Project::Init(g_root + "/p", g_root + "/p/_b");
        auto tc = std::make_unique<Toolchain_gcc>();
        std::unique_ptr<BaseTarget> bd, bs;
        std::unique_ptr<TargetInfo> id, is;
        TargetInfo *d, *s;
        if (kind & 1)
          d = (bd = std::make_unique<BaseTarget>("dst", TargetType::Executable, *tc, "")).get();
        else
          d = (id = std::make_unique<TargetInfo>(*tc, "")).get();
        if (kind & 2)
          s = (bs = std::make_unique<BaseTarget>("src", TargetType::Executable, *tc, "")).get();
        else
          s = (is = std::make_unique<TargetInfo>(*tc, "")).get();
        auto add = [&](TargetInfo &t, const Items &v, char who) {
          int i = 0;
          for (auto &x : settings()) {
            for (auto &y : items_of(v, i, who))
              x.add(t, y);
            i++;
          }
        };
        add(*d, dst_items()[di], 'd');
        add(*s, src_items()[si], 's');
        std::vector<SO> o;
        for (int i : lists[k])
          o.push_back(settings()[i].o);
        for (int round = 0; round < (again ? 2 : 1); round++) {
          auto d0 = all_of(*d), s0 = all_of(*s);
          transfer(*d, *s, o, mode);
          auto d1 = all_of(*d), s1 = all_of(*s);
          auto want = d0;
          for (int i : lists[k]) {
            if (mode < 2)
              want[i] = s0[i];
            else
              want[i].insert(want[i].end(), s0[i].begin(), s0[i].end());
          }
          for (size_t i = 0; i < d1.size(); i++) {
            if (d1[i] != want[i])
              return std::string(settings()[i].name) + " of the destination is [" + join(d1[i], ", ") + "], expected [" + join(want[i], ", ") + "]";
            bool sel = std::find(lists[k].begin(), lists[k].end(), (int)i) != lists[k].end();
            if (s1[i] != s0[i] && ((mode & 1) == 0 || !sel))
              return std::string(settings()[i].name) + " of the source changed to [" + join(s1[i], ", ") + "]";
          }
          // what was given by moving may be given again; the destination does not follow
          if (mode & 1)
            for (auto &x : settings())
              x.get(*s); // still readable
          auto d2 = all_of(*d);
          for (auto &x : settings())
            x.add(*s, "s1");
          if (all_of(*d) != d2)
            return std::string("destination follows later changes of the source");
        }
        return "";
      },
      [&](int k, const Case &c) {
        cx.states(1);
        cx.transitions(1);
        static const char *mn[] = {"copy", "copy by move", "insert", "insert by move"};
        std::string l;
        for (int i : lists[k])
          l += std::string(l.empty() ? "" : ",") + settings()[i].name;
        cx.outcome(mn[mode]);
        if (!c.done || !c.out.empty())
          cx.violation(std::string(mn[mode]) + " {" + l + "} " + m, c.done ? c.out : c.res.outcome());
      });
}

// ------------------------------------------------------------------ C16
struct Live {
  static std::map<const void *, int> &live; // address -> serial; never destroyed
  static int next, bad;
  static std::string log;
};
std::map<const void *, int> &Live::live = *new std::map<const void *, int>;
int Live::next = 0, Live::bad = 0;
std::string Live::log;
template <int K> struct Obj {
  int serial, arg;
  char pad[K * 8 + 1];
  explicit Obj(int a = 7) : serial(++Live::next), arg(a) { Live::live[this] = serial; }
  ~Obj() {
    auto it = Live::live.find(this);
    if (it == Live::live.end() || it->second != serial) {
      Live::bad++;
      logev('O', "object destroyed twice or never created");
      return;
    }
    Live::live.erase(it);
    logev('O', "destroy " + std::to_string(serial));
    serial = -serial;
  }
  Obj(const Obj &) = delete;
};
struct Throws { // an object that cannot be made, with a part that can
  Obj<1> part;
  explicit Throws(int a) : part(a) { throw std::runtime_error("constructor"); }
};
struct Nested { // an object that adds another one while it is made
  Obj<1> self;
  template <class F> Nested(int a, F f) : self(a) { f(); }
};
// ops: 0..5 add type (op%3) under id (op/3), 100.. see below, 200.. fatal probes
struct Where {
  bool global;
  ScopedStorage *s;
};
template <class T, class F> auto with(int ty, F f) {
  switch (ty) {
  case 0: return f((Obj<1> *)nullptr);
  case 1: return f((Obj<2> *)nullptr);
  default: return f((std::string *)nullptr);
  }
}
const char *ids[] = {"x", "y", "z"};
struct Slot {
  int ty, serial, arg;
  const void *addr;
};
std::string c16_seq(const std::vector<int> &ops, bool global, int nids) {
  std::vector<ScopedStorage *> own{new ScopedStorage()};
  auto st = [&]() -> ScopedStorage & { return *own.back(); };
  std::map<std::string, Slot> m;
  int serials = 0;
  auto contains = [&](const std::string &i) { return global ? Storage::Contains(i) : st().Contains(i); };
  auto check = [&]() -> std::string {
    size_t tracked = 0;
    for (int i = 0; i < 3; i++) {
      std::string id = ids[i];
      bool have = m.count(id);
      if (contains(id) != have)
        return "Contains(" + id + ") is wrong";
      for (int ty = 0; ty < 3; ty++) {
        std::string err = with<int>(ty, [&](auto *p) -> std::string {
          using T = std::remove_pointer_t<decltype(p)>;
          bool v = global ? Storage::Valid<T>(id) : st().Valid<T>(id);
          bool want = have && m[id].ty == ty;
          if (v != want)
            return "Valid<" + std::to_string(ty) + ">(" + id + ") is wrong";
          if (want) {
            T &r = global ? Storage::Ref<T>(id) : st().Ref<T>(id);
            const T &cr = global ? Storage::ConstRef<T>(id) : st().ConstRef<T>(id);
            if (&r != m[id].addr || &cr != m[id].addr)
              return "address of " + id + " changed";
            if constexpr (std::is_same_v<T, std::string>) {
              if (r != "s" + std::to_string(m[id].arg))
                return "value of " + id + " is wrong";
            } else if (r.serial != m[id].serial || r.arg != m[id].arg || !Live::live.count(&r))
              return "object of " + id + " is not the one added";
          }
          return "";
        });
        if (!err.empty())
          return err;
      }
      if (have && m[id].ty != 2)
        tracked++;
    }
    if (Live::live.size() != tracked)
      return "objects alive: " + std::to_string(Live::live.size()) + ", stored: " + std::to_string(tracked);
    if (Live::bad)
      return "object destroyed twice";
    return "";
  };
  int n = 0;
  for (int op : ops) {
    n++;
    if (op < 3 * nids) {
      std::string id = ids[op / 3];
      int ty = op % 3;
      if (ty < 2)
        serials = Live::next + 1;
      const void *a = with<int>(ty, [&](auto *p) -> const void * {
        using T = std::remove_pointer_t<decltype(p)>;
        if constexpr (std::is_same_v<T, std::string>)
          return global ? &Storage::Add<T>(id, "s" + std::to_string(n)) : &st().Add<T>(id, "s" + std::to_string(n));
        else
          return global ? &Storage::Add<T>(id, n) : &st().Add<T>(id, n);
      });
      if (m.count(id))
        return "identifier " + id + " added twice";
      m[id] = {ty, ty < 2 ? serials : 0, n, a};
    } else if (op == 100) {
      if (global)
        Storage::Clear();
      else
        st().Clear();
      m.clear();
    } else if (op == 101) {
      delete own.back();
      own.back() = new ScopedStorage();
      if (global)
        Storage::Clear();
      m.clear();
    } else if (op >= 110 && op < 120) { // the constructor throws: nothing is added
      std::string id = ids[op - 110];
      bool thrown = false;
      try {
        if (global)
          Storage::Add<Throws>(id, n);
        else
          st().Add<Throws>(id, n);
      } catch (const std::runtime_error &) {
        thrown = true;
      }
      if (!thrown)
        return "the exception of a constructor is lost";
    } else if (op >= 120 && op < 130) { // the constructor adds the other identifier
      std::string id = ids[op - 120], other = ids[1 - (op - 120)];
      const void *inner = nullptr;
      auto f = [&] { inner = global ? &Storage::Add<Obj<2>>(other, n) : &st().Add<Obj<2>>(other, n); };
      Nested &o = global ? Storage::Add<Nested>(id, n, f) : st().Add<Nested>(id, n, f);
      if (global ? !Storage::Valid<Nested>(id) || &Storage::Ref<Nested>(id) != &o : !st().Valid<Nested>(id) || &st().Ref<Nested>(id) != &o)
        return "an object whose constructor adds another one is not found";
      m[id] = {3, o.self.serial, n, &o};
      m[other] = {1, o.self.serial + 1, n, inner};
    } else { // 200 + id*3 + type: lookup that must be fatal
      std::string id = ids[(op - 200) % 100 / 3];
      int ty = (op - 200) % 100 % 3;
      bool cr = op >= 300;
      with<int>(ty, [&](auto *p) {
        using T = std::remove_pointer_t<decltype(p)>;
        if (cr)
          (void)(global ? &Storage::ConstRef<T>(id) : &st().ConstRef<T>(id));
        else
          (void)(global ? &Storage::Ref<T>(id) : &st().Ref<T>(id));
        return 0;
      });
      return "lookup of " + id + " as type " + std::to_string(ty) + " returned";
    }
    std::string e = check();
    if (!e.empty())
      return "after step " + std::to_string(n) + ": " + e;
  }
  delete own.back();
  if (global)
    Storage::Clear();
  if (!Live::live.empty())
    return "objects outlive their storage";
  return "";
}
// many objects under many identifiers
std::string c16_many(int n, bool global) {
  {
    ScopedStorage st;
    std::vector<const void *> addr(n);
    auto id = [](int i) { return "id" + std::to_string(i * 37 % 1009); };
    for (int round = 0; round < 2; round++) {
      for (int i = 0; i < n; i++) {
        if (global ? Storage::Contains(id(i)) : st.Contains(id(i)))
          return "present before it is added";
        if (i % 2)
          addr[i] = global ? &Storage::Add<Obj<1>>(id(i), i) : &st.Add<Obj<1>>(id(i), i);
        else
          addr[i] = global ? &Storage::Add<Obj<2>>(id(i), i) : &st.Add<Obj<2>>(id(i), i);
        if ((int)Live::live.size() != i + 1)
          return std::to_string(Live::live.size()) + " objects alive after adding " + std::to_string(i + 1);
      }
      for (int i = 0; i < n; i++) {
        const void *a = i % 2 ? (const void *)(global ? &Storage::ConstRef<Obj<1>>(id(i)) : &st.ConstRef<Obj<1>>(id(i))) : (global ? &Storage::ConstRef<Obj<2>>(id(i)) : &st.ConstRef<Obj<2>>(id(i)));
        int arg = i % 2 ? ((const Obj<1> *)a)->arg : ((const Obj<2> *)a)->arg;
        if (a != addr[i] || arg != i)
          return "object " + std::to_string(i) + " is another one";
        bool wrong = i % 2 ? (global ? Storage::Valid<Obj<2>>(id(i)) : st.Valid<Obj<2>>(id(i))) : (global ? Storage::Valid<Obj<1>>(id(i)) : st.Valid<Obj<1>>(id(i)));
        if (wrong)
          return "object " + std::to_string(i) + " valid as another type";
      }
      if (global)
        Storage::Clear();
      else if (!round)
        st.Clear();
      if ((global || !round) && !Live::live.empty())
        return "objects alive after clearing";
    }
  }
  return Live::live.empty() && !Live::bad ? "" : "objects outlive their storage";
}
std::string opname(int op) {
  if (op < 100)
    return std::string("add<") + std::to_string(op % 3) + ">(" + ids[op / 3] + ")";
  if (op == 100)
    return "clear";
  if (op == 101)
    return "destroy";
  if (op >= 110 && op < 120)
    return std::string("add throwing(") + ids[op - 110] + ")";
  if (op >= 120 && op < 130)
    return std::string("add nesting(") + ids[op - 120] + ")";
  return std::string(op >= 300 ? "constref<" : "ref<") + std::to_string((op - 200) % 100 % 3) + ">(" + ids[(op - 200) % 100 / 3] + ")";
}
std::string seqname(const std::vector<int> &s) {
  std::string r;
  for (int o : s)
    r += (r.empty() ? "" : " ") + opname(o);
  return r;
}
void c16(Ctx &cx, bool global, int first, int depth, int nids, bool ctors = false) {
  // accepted sequences: adding a stored identifier ends a sequence
  std::vector<std::vector<int>> good, fatal;
  std::function<void(std::vector<int> &, std::map<int, int>)> rec = [&](std::vector<int> &s, std::map<int, int> have) {
    if (!s.empty())
      good.push_back(s);
    for (int id = 0; id < 3; id++)
      for (int ty = 0; ty < 3; ty++)
        if (!have.count(id) || have[id] != ty) {
          if (id == 2 && ty)
            continue;
          for (int b : {200, 300}) {
            auto f = s;
            f.push_back(b + id * 3 + ty);
            fatal.push_back(f);
          }
        }
    if ((int)s.size() == depth)
      return;
    std::vector<int> all;
    for (int op = 0; op < 3 * nids; op++)
      all.push_back(op);
    all.push_back(100);
    all.push_back(101);
    for (int id = 0; ctors && id < 2; id++) {
      all.push_back(110 + id);
      all.push_back(120 + id);
    }
    for (int o : all) {
      if (s.empty() && o != first)
        continue;
      auto h = have;
      s.push_back(o);
      if (o < 100) {
        if (h.count(o / 3)) {
          fatal.push_back(s);
          s.pop_back();
          continue;
        }
        h[o / 3] = o % 3;
      } else if (o >= 110) {
        if (h.count((o - 110) % 10) || (o >= 120 && h.count(1 - (o - 120)))) {
          fatal.push_back(s);
          s.pop_back();
          continue;
        }
        if (o >= 120)
          h[o - 120] = 3, h[1 - (o - 120)] = 1;
      } else
        h.clear();
      rec(s, h);
      s.pop_back();
    }
  };
  std::vector<int> s;
  rec(s, {});
  run_cases(
      cx, (int)good.size(), [&](int i) { return c16_seq(good[i], global, nids); },
      [&](int i, const Case &c) {
        cx.states(1);
        cx.transitions((long)good[i].size());
        cx.outcome("accepted");
        if (!c.done || !c.out.empty())
          cx.violation("storage: " + seqname(good[i]), c.done ? c.out : show(c.res));
      });
  for (auto &f : fatal) {
    if (cx.stop())
      return;
    Result r;
    std::string o = run_pure(
        cx, [&] { put(c16_seq(f, global, nids)); }, &r);
    cx.states(1);
    cx.transitions((long)f.size());
    cx.outcome("fatal");
    std::string why;
    if (!r.exited || r.ok())
      why = "not fatal: " + o + " " + r.outcome();
    // everything the global storage still held is destroyed exactly once at exit
    std::map<std::string, int> destroyed;
    int made = 0;
    for (auto &e : r.ev)
      if (e.type == 'O') {
        if (e.s.rfind("destroy", 0) == 0) {
          if (destroyed[e.s]++)
            why = "twice: " + e.s;
        } else
          why = e.s;
      }
    for (size_t k = 0; k + 1 < f.size(); k++)
      made += f[k] < 100 ? f[k] % 3 < 2 : f[k] < 110 ? 0 : f[k] < 120 ? 1 : f[k] < 130 ? 2 : 0;
    if (f.back() >= 120 && f.back() < 130) // the outer object was made and taken back, or never made
      for (auto it = destroyed.begin(); it != destroyed.end();)
        it = atoi(it->first.c_str() + 8) > made ? destroyed.erase(it) : std::next(it);
    if (global && why.empty() && (int)destroyed.size() != made)
      why = std::to_string(made) + " objects added, " + std::to_string(destroyed.size()) + " destroyed";
    if (!why.empty())
      cx.violation("storage: " + seqname(f), why);
  }
}

// ------------------------------------------------------------------ C21
std::string pattern(size_t n, int k) {
  std::string s;
  for (size_t i = 0; i < n; i++)
    s += k == 0 ? (char)('a' + i % 23) : k == 1 ? (char)(i * 7) : (i % 5 == 4 ? '\n' : i % 7 == 6 ? '\r' : ' ');
  return s;
}
void c21_file(Ctx &cx, size_t n, int kind, bool binary, int faults, bool existing) {
  std::string data = pattern(n, kind), path = g_root + "/f.dat";
  auto key = [&](const char *w) { return std::string(w) + " size " + std::to_string(n) + " kind " + std::to_string(kind) + (binary ? " binary" : " text"); };
  Cfg c;
  c.en[K_IO] = true;
  Budget b;
  b.total = b.per[K_IO] = faults;
  // save
  c.io_faults = 1 | 2 | 4;
  explore(
      cx,
      [&] {
        ::unlink(path.c_str());
        if (existing)
          write_raw(path, std::string(n / 2 + 10, 'o'), 1700000000000000000ll);
      },
      [&] { logev('O', env::save_file(path.c_str(), data, binary) ? "1" : "0"); }, c, b,
      [&](const Result &r) {
        std::string res, got;
        int nf = 0, hard = 0;
        for (auto &e : r.ev) {
          if (e.type == 'O')
            res = e.s;
          if (e.type == 'F')
            nf++;
        }
        (void)hard;
        bool have = read_raw(path, got);
        cx.states(1);
        cx.transitions((long)r.trace.size() + 1);
        cx.outcome("save " + res + std::to_string(nf));
        if (!r.ok() || res.empty())
          return cx.violation(key("save crashes"), show(r)), false;
        if (res == "1" && (!have || got != data))
          return cx.violation(key("save reports success without the data being there"), show(r) + "file has " + std::to_string(got.size()) + " of " + std::to_string(n) + " bytes"), false;
        if (res == "0" && nf == 0)
          return cx.violation(key("save fails without a fault"), show(r)), false;
        return true;
      });
  // load
  c.io_faults = 1 | 8;
  explore(
      cx, [&] { write_raw(path, data, 1700000000000000000ll); },
      [&] {
        std::string s = "previous";
        bool ok = env::load_file(path.c_str(), binary, &s);
        logev('O', ok ? (s == data ? "same" : "different") : "0");
      },
      c, b,
      [&](const Result &r) {
        std::string res;
        int nf = 0;
        for (auto &e : r.ev) {
          if (e.type == 'O')
            res = e.s;
          if (e.type == 'F')
            nf++;
        }
        cx.states(1);
        cx.transitions((long)r.trace.size() + 1);
        cx.outcome("load " + res + std::to_string(nf));
        if (!r.ok() || res.empty())
          return cx.violation(key("load crashes"), show(r)), false;
        if (res == "different")
          return cx.violation(key("load reports success with other data"), show(r)), false;
        if (res == "0" && nf == 0)
          return cx.violation(key("load fails without a fault"), show(r)), false;
        return true;
      });
}
void c21_edge(Ctx &cx) {
  struct E {
    const char *what;
    std::function<bool()> f;
  };
  mkdirs(g_root + "/dir");
  write_raw(g_root + "/file", "abc", 1700000000000000000ll);
  static std::string s;
  std::string R = g_root;
  std::vector<E> es{
      {"save to a directory", [R] { return env::save_file((R + "/dir").c_str(), "x", false); }},
      {"save below a missing directory", [R] { return env::save_file((R + "/no/such").c_str(), "x", false); }},
      {"save without a name", [R] { return env::save_file(nullptr, "x", false); }},
      {"save without data", [R] { return env::save_file((R + "/n").c_str(), nullptr, 3, true); }},
      {"load a directory", [R] { return env::load_file((R + "/dir").c_str(), true, &s); }},
      {"load a missing file", [R] { return env::load_file((R + "/no").c_str(), true, &s); }},
      {"load a missing file as text", [R] { return env::load_file((R + "/no").c_str(), false, &s); }},
      {"load below a file", [R] { return env::load_file((R + "/file/x").c_str(), false, &s); }},
      {"load without a name", [R] { return env::load_file(nullptr, false, &s); }},
      {"load without a buffer", [R] { return env::load_file((R + "/file").c_str(), false, nullptr); }},
  };
  for (auto &e : es) {
    Result r;
    std::string o = run_pure(
        cx, [&] { put(e.f() ? "1" : "0"); }, &r);
    cx.states(1);
    cx.transitions(1);
    if (!r.ok() || o != "0")
      cx.violation(e.what, "got " + o + " " + r.outcome());
  }
}
void c21_text(Ctx &cx, int first, int len) {
  const std::vector<std::string> A{"a", " ", ",", "\t", "\n", "\xc3\xa9", "b", "\r"};
  auto sp = [](char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; };
  std::vector<std::string> in;
  if (first < 0)
    in.push_back("");
  else
    for (int l = 0; l < len; l++)
      all_seqs((int)A.size(), l, [&](const std::vector<int> &v) {
        std::string s = A[first];
        for (int i : v)
          s += A[i];
        in.push_back(s);
      });
  if (first < 0) // every byte, alone and at both ends
    for (int b = 0; b < 256; b++) {
      std::string x(1, (char)b);
      for (auto &t : {x, x + x, x + "a", "a" + x, x + "a" + x, x + " a " + x, " " + x + "a" + x + " ", "a" + x + "b"})
        in.push_back(t);
    }
  if (first < 0) // long texts
    for (int n : {10, 63, 64, 65, 255, 256, 257, 1000, 4096, 65537}) {
      std::string a, b, c, d;
      for (int i = 0; i < n; i++)
        a += "," + std::to_string(i), b += ",", c += " \t\n"[i % 3], d += "word ";
      for (auto &x : {a, b, c, d, c + "x" + c, c + d + c, a + "," + c})
        in.push_back(x);
    }
  run_cases(
      cx, (int)in.size(),
      [&](int k) -> std::string {
        const std::string &s = in[k];
        std::string delims = ", a";
        if (s.size() < 6)
          for (char c : s)
            if (delims.find(c) == std::string::npos)
              delims += c;
        for (char d : delims) {
          std::vector<std::string> want;
          std::string cur;
          for (char c : s)
            if (c == d) {
              want.push_back(cur);
              cur.clear();
            } else
              cur += c;
          if (!cur.empty()) // a trailing delimiter adds no empty part
            want.push_back(cur);
          auto got = env::split(s, d);
          if (got != want)
            return "split at '" + std::string(1, d) + "': " + join(got, "|") + ", expected " + join(want, "|");
        }
        size_t i = 0, j = s.size();
        while (i < j && sp(s[i]))
          i++;
        if (env::ltrim(s) != s.substr(i))
          return "ltrim: " + env::ltrim(s);
        while (j > 0 && sp(s[j - 1]))
          j--;
        if (env::rtrim(s) != s.substr(0, j))
          return "rtrim: " + env::rtrim(s);
        if (env::trim(s) != (i < j ? s.substr(i, j - i) : ""))
          return "trim: " + env::trim(s);
        return "";
      },
      [&](int k, const Case &c) {
        cx.states(1);
        cx.transitions(6);
        if (!c.done || !c.out.empty())
          cx.violation("text helper on " + esc(in[k].substr(0, 200)) + (in[k].size() > 200 ? "... of " + std::to_string(in[k].size()) : ""), c.done ? c.out.substr(0, 2000) : c.res.outcome());
      });
}
} // namespace

namespace mc {
std::vector<Unit> make_units(const std::string &prop, bool th, const std::string &) {
  std::vector<Unit> u;
  if (prop == "C14") {
    auto D = defsets();
    int nt = (int)tokens(th).size();
    for (int f = 0; f < nt; f++)
      for (size_t d = 0; d < D.size(); d++)
        for (int l = 1; l <= (th || d == 3 || d == 7 ? 4 : 3); l++)
          u.push_back({"construct." + std::to_string(f) + ".defs" + std::to_string(d) + ".len" + std::to_string(l), [=](Ctx &cx) { c14_construct(cx, f, l, th, D[d]); }});
    u.push_back({"percall", c14_percall});
    u.push_back({"many", c14_many});
    u.push_back({"bigtemplate", c14_bigtemplate});
    for (int f = 0; f < 32; f++)
      u.push_back({"defs." + std::to_string(f), [=](Ctx &cx) { c14_defs(cx, f, th ? 4 : 3); }});
    for (int f = 0; f < nt; f++)
      for (int l = 1; l <= (th ? 3 : 2); l++)
        u.push_back({"template." + std::to_string(f) + ".len" + std::to_string(l), [=](Ctx &cx) { c14_template(cx, f, l, th); }});
  }
  if (prop == "C15") {
    std::vector<std::vector<int>> lists{{}}, triples;
    int n = (int)settings().size();
    std::vector<int> full, back;
    for (int i = 0; i < n; i++)
      full.push_back(i), back.push_back(n - 1 - i);
    lists.push_back(full);
    lists.push_back(back);
    for (int i = 0; i < n; i++) {
      lists.push_back({i});
      auto x = full;
      x.erase(x.begin() + i);
      lists.push_back(x);
      for (int j = 0; j < n; j++)
        if (i != j)
          lists.push_back({i, j});
    }
    for (int i = 0; i < n; i++)
      for (int j = i + 1; j < n; j++)
        for (int k = j + 1; k < n; k++)
          triples.push_back({k, i, j});
    if (th)
      for (int chunk = 0; chunk < 32; chunk++) {
        std::vector<std::vector<int>> sub;
        for (int mk = chunk << (n - 5); mk < (chunk + 1) << (n - 5); mk++) {
          std::vector<int> v;
          for (int i = 0; i < n; i++)
            if (mk >> i & 1)
              v.push_back(i);
          sub.push_back(v);
        }
        for (int m = 0; m < 4; m++)
          u.push_back({"subsets" + std::to_string(chunk) + ".m" + std::to_string(m), [=](Ctx &cx) { c15(cx, sub, m, 1, 2, 3, false); }});
      }
    for (int m = 0; m < 4; m++) {
      u.push_back({"triples.m" + std::to_string(m), [=](Ctx &cx) { c15(cx, triples, m, 1, 2, 3, false); }});
      for (int kind = 0; kind < 4; kind++)
        for (size_t d = 0; d < dst_items().size(); d++)
          for (size_t f = 0; f < src_items().size(); f++)
            for (int again = 0; again < 2; again++) {
              bool many = d + 1 == dst_items().size() || f + 1 == src_items().size();
              if (many) {
                if (again || (kind != 0 && kind != 3))
                  continue;
                u.push_back({"many.m" + std::to_string(m) + ".k" + std::to_string(kind) + ".d" + std::to_string(d) + ".s" + std::to_string(f), [=](Ctx &cx) { c15(cx, {full, back}, m, d, f, kind, false); }});
                continue;
              }
              u.push_back({"sync.m" + std::to_string(m) + ".k" + std::to_string(kind) + ".d" + std::to_string(d) + ".s" + std::to_string(f) + (again ? ".again" : ""), [=](Ctx &cx) { c15(cx, lists, m, d, f, kind, again); }});
            }
    }
  }
  if (prop == "C16") {
    u.push_back({"many", [](Ctx &cx) {
                   std::vector<int> ns{1, 2, 7, 8, 9, 16, 17, 31, 32, 33, 64, 65, 100, 256, 500};
                   for (int g = 0; g < 2; g++)
                     run_cases(
                         cx, (int)ns.size(), [&](int i) { return c16_many(ns[i], g); },
                         [&](int i, const Case &c) {
                           cx.states(1);
                           cx.transitions(ns[i] * 2);
                           cx.outcome("many");
                           if (!c.done || !c.out.empty())
                             cx.violation("storage: " + std::to_string(ns[i]) + " objects" + (g ? " in the global storage" : ""), c.done ? c.out : c.res.outcome());
                         });
                 }});
    int depth = th ? 6 : 5;
    for (int g = 0; g < 2; g++)
      for (int f : {0, 1, 2, 3, 4, 5, 100, 101})
        u.push_back({std::string(g ? "global" : "scoped") + ".first" + std::to_string(f), [=](Ctx &cx) { c16(cx, g, f, depth, 2); }});
  }
  if (prop == "C16")
    for (int g = 0; g < 2; g++)
      for (int f : {0, 2, 4, 100, 110, 111, 120, 121})
        u.push_back({std::string(g ? "global" : "scoped") + ".ctors" + std::to_string(f), [=](Ctx &cx) { c16(cx, g, f, th ? 4 : 3, 2, true); }});
  if (prop == "C21") {
    std::vector<size_t> ns{0, 1, 2, 100, 1023, 1024, 1025, 4096, 8190, 8191, 8192, 8193, 16383, 20000, 40000};
    if (th)
      for (size_t x : {511, 512, 1022, 4095, 4097, 8189, 8194, 16382, 16384, 16385, 65536, 100000})
        ns.push_back(x);
    for (size_t n : ns)
      for (int k = 0; k < 3; k++)
        for (int b = 0; b < 2; b++)
          for (int e = 0; e < 2; e++)
            u.push_back({"file." + std::to_string(n) + ".k" + std::to_string(k) + (b ? ".bin" : ".txt") + (e ? ".old" : ""), [=](Ctx &cx) { c21_file(cx, n, k, b, th ? 3 : 2, e); }});
    u.push_back({"edge", c21_edge});
    for (int f = -1; f < 8; f++)
      u.push_back({"text" + std::to_string(f), [=](Ctx &cx) { c21_text(cx, f, th ? 6 : 5); }});
  }
  return u;
}
} // namespace mc

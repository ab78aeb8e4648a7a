// C23 what a target holds: every sequence of input registrations against a model.
#include "bcc.h"
#include <algorithm>
#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace mc;
using namespace proj;
using namespace buildcc;

namespace {
using Strs = std::vector<std::string>;
enum S { SRC, HDR, PCH, INC, LDIR, LIB, EXT, CDEP, LDEP, PP, COMMON, PCHC, PCHO, ASM, CC, CPP, LINK, NS };
const char *sn[] = {"sources", "headers", "precompiled headers", "include directories", "library directories", "libraries", "external libraries", "compile dependencies", "link dependencies", "preprocessor flags", "common flags",
                    "pch flags", "pch object flags", "asm flags", "c flags", "cpp flags", "link flags"};
// a setting is a list of blocks; the order within a block is free
struct Model {
  std::vector<std::vector<Strs>> v{NS};
  std::string root;
  bool fatal = false;
  void add(int s, const std::string &x) { v[s].push_back({x}); }
  std::string rel(const std::string &p) const { return norm(root + "/" + p); }
  static std::string norm(const std::string &p) { return fs::path(p).lexically_normal().string(); }
};
Strs get(const TargetInfo &t, int s) {
  switch (s) {
  case SRC: return t.GetSourceFiles();
  case HDR: return t.GetHeaderFiles();
  case PCH: return t.GetPchFiles();
  case INC: return t.GetIncludeDirs();
  case LDIR: return t.GetLibDirs();
  case LIB: return t.GetLibDeps();
  case EXT: return t.GetExternalLibDeps();
  case CDEP: return t.GetCompileDependencies();
  case LDEP: return t.GetLinkDependencies();
  case PP: return t.GetPreprocessorFlags();
  case COMMON: return t.GetCommonCompileFlags();
  case PCHC: return t.GetPchCompileFlags();
  case PCHO: return t.GetPchObjectFlags();
  case ASM: return t.GetAsmCompileFlags();
  case CC: return t.GetCCompileFlags();
  case CPP: return t.GetCppCompileFlags();
  default: return t.GetLinkFlags();
  }
}
template <typename T> void add_flag(T &t, int s, const std::string &f) {
  switch (s) {
  case PP: return t.AddPreprocessorFlag(f);
  case COMMON: return t.AddCommonCompileFlag(f);
  case PCHC: return t.AddPchCompileFlag(f);
  case PCHO: return t.AddPchObjectFlag(f);
  case ASM: return t.AddAsmCompileFlag(f);
  case CC: return t.AddCCompileFlag(f);
  case CPP: return t.AddCppCompileFlag(f);
  default: return t.AddLinkFlag(f);
  }
}
// directories with entries of every kind; file kinds by the documented extensions
const Strs entries{"a.c", "b.cpp", "c.cxx", "d.cc", "e.s", "f.S", "g.asm", "h.h", "i.hpp", "j.txt", "noext", ".cpp", ".h", "k.cpp.txt", "l.CPP", "m.h.in", "n.tar.cpp", "o p.cpp", "q.", "r.hh", "s.cppx", "t.c~", "u.v.h", "w.x.y.hpp", "z.h.hpp", "aa.h.c", ".hid.h", ".hid.cpp", "bb..cc", "c c.h"};
std::string ext_of(const std::string &file) {
  size_t i = file.rfind('.');
  if (i == std::string::npos || i == 0)
    return "";
  return file.substr(i);
}
bool in(const std::string &x, std::initializer_list<const char *> l) {
  for (auto y : l)
    if (x == y)
      return true;
  return false;
}
bool is_src(const std::string &f) { return in(ext_of(f), {".c", ".cpp", ".cxx", ".cc", ".s", ".S", ".asm"}); }
bool is_hdr(const std::string &f) { return in(ext_of(f), {".h", ".hpp"}); }
Strs glob_model(const std::string &dir, bool src) {
  Strs r;
  for (auto &e : entries)
    if (src ? is_src(e) : is_hdr(e))
      r.push_back(Model::norm(dir + "/" + e));
  if (src)
    r.push_back(Model::norm(dir + "/link.cpp"));
  return r;
}
struct Op {
  std::string name;
  std::function<void(TargetInfo &)> real;
  std::function<void(Model &)> model;
  bool fatal = false;
};
const Target *g_lib[2];
std::vector<Op> ops() {
  std::vector<Op> o;
  std::string A = g_root + "/else/where";
  auto file = [&](int s, const std::string &f, const std::string &sub, bool bad) {
    o.push_back({std::string("add to ") + sn[s] + " " + f + (sub.empty() ? "" : " below " + sub),
                 [=](TargetInfo &t) {
                   if (s == SRC) { if (sub.empty()) t.AddSource(f); else t.AddSource(f, sub); }
                   if (s == HDR) { if (sub.empty()) t.AddHeader(f); else t.AddHeader(f, sub); }
                   if (s == PCH) { if (sub.empty()) t.AddPch(f); else t.AddPch(f, sub); }
                   if (s == CDEP) t.AddCompileDependency(f);
                   if (s == LDEP) t.AddLinkDependency(f);
                   if (s == LDIR) t.AddLibDir(f);
                   if (s == INC) t.AddIncludeDir(f);
                 },
                 [=](Model &m) { m.add(s, m.rel(sub + "/" + f)); }, bad});
    if (sub.empty())
      o.push_back({std::string("add absolute to ") + sn[s] + " " + f,
                   [=](TargetInfo &t) {
                     fs::path p = A + "/" + f;
                     if (s == SRC) t.AddSourceAbsolute(p);
                     if (s == HDR) t.AddHeaderAbsolute(p);
                     if (s == PCH) t.AddPchAbsolute(p);
                     if (s == CDEP) t.AddCompileDependencyAbsolute(p);
                     if (s == LDEP) t.AddLinkDependencyAbsolute(p);
                     if (s == LDIR) t.AddLibDirAbsolute(p);
                     if (s == INC) t.AddIncludeDirAbsolute(p);
                   },
                   [=](Model &m) { m.add(s, Model::norm(A + "/" + f)); }, bad});
  };
  file(SRC, "x.cpp", "", false);
  file(SRC, "../y z.c", "", false);
  file(SRC, "x.S", "d/e", false);
  file(HDR, "x.h", "", false);
  file(HDR, "x.hpp", "../d", false);
  file(HDR, "x.y.h", "d", false);
  file(HDR, ".x.h", "", false);
  file(SRC, "x.h.cpp", "", false);
  file(PCH, "x.h", "", false);
  file(PCH, "y.hpp", "d", false);
  for (int s : {SRC, HDR, PCH})
    for (auto f : {"x.txt", "noext", ".cpp", "d.cpp/x", "x.CPP", "x.cpp.o"})
      file(s, f, s == SRC ? "" : "d", true);
  file(SRC, "x.h", "", true);
  file(HDR, "x.cpp", "", true);
  file(PCH, "x.c", "", true);
  for (int s : {CDEP, LDEP, LDIR, INC}) {
    file(s, "x", "", false);
    file(s, "./d/../with space/y.txt", "", false);
  }
  for (int glob = 0; glob < 2; glob++) {
    o.push_back({std::string("include directory g") + (glob ? " with headers" : ""), [=](TargetInfo &t) { t.AddIncludeDir("g", glob); },
                 [=](Model &m) { m.add(INC, m.rel("g")); if (glob) m.v[HDR].push_back(glob_model(m.rel("g"), false)); }});
    o.push_back({std::string("absolute include directory G") + (glob ? " with headers" : ""), [=](TargetInfo &t) { t.AddIncludeDirAbsolute(g_root + "/G", glob); },
                 [=](Model &m) { m.add(INC, g_root + "/G"); if (glob) m.v[HDR].push_back(glob_model(g_root + "/G", false)); }});
  }
  o.push_back({"glob sources", [](TargetInfo &t) { t.GlobSources("g"); }, [](Model &m) { m.v[SRC].push_back(glob_model(m.rel("g"), true)); }});
  o.push_back({"glob sources of the root", [](TargetInfo &t) { t.GlobSources(); }, [](Model &m) { m.v[SRC].push_back({m.rel("r.cpp")}); }});
  o.push_back({"glob sources absolute", [](TargetInfo &t) { t.GlobSourcesAbsolute(g_root + "/G"); }, [](Model &m) { m.v[SRC].push_back(glob_model(g_root + "/G", true)); }});
  o.push_back({"glob headers", [](TargetInfo &t) { t.GlobHeaders("g"); }, [](Model &m) { m.v[HDR].push_back(glob_model(m.rel("g"), false)); }});
  o.push_back({"glob headers of the root", [](TargetInfo &t) { t.GlobHeaders(); }, [](Model &m) { m.v[HDR].push_back({m.rel("r.h")}); }});
  o.push_back({"glob headers absolute", [](TargetInfo &t) { t.GlobHeadersAbsolute(g_root + "/G"); }, [](Model &m) { m.v[HDR].push_back(glob_model(g_root + "/G", false)); }});
  for (int i = 0; i < 2; i++)
    o.push_back({"library target " + std::to_string(i), [i](TargetInfo &t) { t.AddLibDep(*g_lib[i]); }, [i](Model &m) { m.add(LIB, g_root + "/_b/gcc/l" + std::to_string(i) + "/" + (i ? "l1.so" : "l0.a")); }});
  for (auto l : {"-lx", "-ly z"})
    o.push_back({std::string("external library ") + l, [l](TargetInfo &t) { t.AddLibDep(std::string(l)); }, [l](Model &m) { m.add(EXT, l); }});
  for (int s = PP; s < NS; s++)
    for (auto f : {"-f1", "-f2=\"a b\""})
      o.push_back({std::string(sn[s]) + " " + f, [=](TargetInfo &t) { add_flag(t, s, f); }, [=](Model &m) { m.add(s, f); }});
  return o;
}
void put_dir(const std::string &d) {
  mkdirs(d);
  for (auto &e : entries)
    write_raw(d + "/" + e, "x", ver_mtime(0));
  mkdirs(d + "/sub");
  write_raw(d + "/sub/deep.cpp", "x", ver_mtime(0));
  write_raw(d + "/sub/deep.h", "x", ver_mtime(0));
  mkdirs(d + "/folder.cpp");
  mkdirs(d + "/folder.h");
  syscall(SYS_symlinkat, "b.cpp", AT_FDCWD, (d + "/link.cpp").c_str());
}
void put_all() {
  for (auto d : {"/r", "/r/sub", "/abs root"}) {
    put_dir(g_root + d + "/g");
    write_raw(g_root + d + "/r.cpp", "x", ver_mtime(0));
    write_raw(g_root + d + "/r.h", "x", ver_mtime(0));
    write_raw(g_root + d + "/r.txt", "x", ver_mtime(0));
  }
  put_dir(g_root + "/G");
}
std::string compare(const TargetInfo &t, const Model &m) {
  for (int s = 0; s < NS; s++) {
    Strs g = get(t, s), w;
    size_t i = 0;
    bool ok = true;
    for (auto b : m.v[s]) {
      std::sort(b.begin(), b.end());
      if (i + b.size() <= g.size()) {
        Strs x(g.begin() + i, g.begin() + i + b.size());
        std::sort(x.begin(), x.end());
        ok &= x == b;
      } else
        ok = false;
      i += b.size();
      w.insert(w.end(), b.begin(), b.end());
    }
    if (!ok || i != g.size())
      return std::string(sn[s]) + " are [" + join(g, ", ") + "], expected [" + join(w, ", ") + "]";
  }
  return "";
}
// root: 0 project root 1 below it 2 elsewhere with its own build directory
TargetEnv env_of(int root) {
  if (root == 0)
    return TargetEnv("");
  if (root == 1)
    return TargetEnv(fs::path("sub"));
  return TargetEnv(fs::path(g_root + "/abs root"), fs::path(g_root + "/abs build"));
}
std::string root_of(int root) { return g_root + (root == 0 ? "/r" : root == 1 ? "/r/sub" : "/abs root"); }
std::string build_of(int root) { return g_root + (root == 2 ? "/abs build" : "/_b"); }
void init() {
  if (!Project::IsInit()) {
    Project::Init(g_root + "/r", g_root + "/_b");
    auto *tc = new Toolchain_gcc("gcc");
    g_lib[0] = new StaticTarget_gcc("l0", *tc, "");
    g_lib[1] = new DynamicTarget_gcc("l1", *tc, "");
  }
}
// kind 0 information only, 1 a target; tcf: the toolchain has flags
void sequences(Ctx &cx, int kind, int root, bool tcf, int first, int depth) {
  put_all();
  auto o = ops();
  std::vector<std::vector<int>> seqs;
  std::function<void(std::vector<int> &)> rec = [&](std::vector<int> &s) {
    if (!s.empty())
      seqs.push_back(s);
    if ((int)s.size() == depth || (!s.empty() && o[s.back()].fatal))
      return;
    for (int i = 0; i < (int)o.size(); i++) {
      if (s.empty() && i != first)
        continue;
      if (o[i].fatal && s.size() > 1)
        continue;
      s.push_back(i);
      rec(s);
      s.pop_back();
    }
  };
  std::vector<int> s;
  if (first >= 0)
    rec(s);
  else { // long sequences: each operation many times, and all of them in several orders
    std::vector<int> ok;
    for (int i = 0; i < (int)o.size(); i++)
      if (!o[i].fatal) {
        ok.push_back(i);
        seqs.push_back(std::vector<int>(40, i));
      }
    int n = (int)ok.size();
    for (int step : {1, 7, 11, n - 1}) {
      std::vector<int> q;
      for (int k = 0; k < 2 * n; k++)
        q.push_back(ok[(long)k * step % n]);
      seqs.push_back(q);
    }
  }
  auto nm = [&](const std::vector<int> &s) {
    std::string r;
    if (s.size() > 10)
      return std::to_string(s.size()) + " operations from " + o[s[0]].name + ", " + o[s[1]].name;
    for (int i : s)
      r += (r.empty() ? "" : "; ") + o[i].name;
    return r;
  };
  run_cases(
      cx, (int)seqs.size(),
      [&](int k) -> std::string {
        init();
        auto tc = std::make_unique<Toolchain_gcc>("gcc");
        Model m, other;
        m.root = other.root = root_of(root);
        if (tcf)
          for (int s = PP; s < NS; s++)
            for (auto f : {"-t1", "-t2"})
              add_flag(*tc, s, f + std::to_string(s)), m.add(s, f + std::to_string(s)), other.add(s, f + std::to_string(s));
        std::shared_ptr<TargetInfo> t;
        std::unique_ptr<TargetInfo> t2 = std::make_unique<TargetInfo>(*tc, env_of(root));
        if (kind == 0)
          t = std::make_shared<TargetInfo>(*tc, env_of(root));
        else
          t = std::make_shared<BaseTarget>("t", TargetType::Executable, *tc, env_of(root));
        // later changes of the toolchain are not the target's
        add_flag(*tc, PP, "-late");
        std::string e = compare(*t, m);
        if (!e.empty())
          return "new target: " + e;
        if (t->GetTargetRootDir() != fs::path(root_of(root)) && Model::norm(t->GetTargetRootDir().string()) != Model::norm(root_of(root) + "/"))
          return "root directory " + t->GetTargetRootDir().string();
        std::string bd = build_of(root) + (kind ? "/gcc/t" : "");
        if (Model::norm(t->GetTargetBuildDir().string()) != bd)
          return "build directory " + t->GetTargetBuildDir().string();
        for (int i : seqs[k]) {
          o[i].real(*t);
          o[i].model(m);
          e = compare(*t, m);
          if (!e.empty())
            return "after " + o[i].name + ": " + e;
        }
        e = compare(*t2, other);
        if (!e.empty())
          return "another target: " + e;
        return "";
      },
      [&](int k, const Case &c) {
        cx.states(1);
        cx.transitions(seqs[k].size());
        bool fatal = o[seqs[k].back()].fatal;
        cx.outcome(fatal ? "refused" : "accepted");
        std::string w = std::string(kind ? "target" : "information") + " root " + std::to_string(root) + ": " + nm(seqs[k]);
        if (fatal) {
          if (c.done || !c.res.exited || c.res.code == 0)
            cx.violation("accepted: " + w, c.done ? c.out : c.res.outcome());
        } else if (!c.done || !c.out.empty())
          cx.violation(w + ": " + (c.done ? canon(c.out).substr(0, 120) : c.res.outcome()), c.done ? c.out : c.res.outcome());
      });
}
// file kinds, with the documented and with other extension sets
void kinds(Ctx &cx) {
  Strs exts{"", ".", ".c", ".cpp", ".cxx", ".cc", ".s", ".S", ".asm", ".h", ".hpp", ".C", ".CPP", ".H", ".o", ".txt", ".x", ".cp", ".cppp", ".a.c", ".c.a", ".h.cpp", ".cpp.h", " .c", ".c "};
  Strs stems{"a", "", ".b", "a b", "dir.c/a", "dir.h/", "/abs/x", "../u", "a.", "\xc3\xa4"};
  int n = (int)(exts.size() * stems.size());
  run_cases(
      cx, n * 2,
      [&](int k) -> std::string {
        ToolchainConfig c;
        bool custom = k >= n;
        if (custom) {
          c.valid_c_ext = {".x"};
          c.valid_cpp_ext = {".h", ".cppp"};
          c.valid_asm_ext = {".c", ".o"};
          c.valid_header_ext = {".txt", ".H"};
        }
        std::string p = stems[k % n / exts.size()] + exts[k % exts.size()], f = p.substr(p.rfind('/') + 1), e = ext_of(f);
        FileExt w = FileExt::Invalid;
        if (f == "." || f == "..")
          e = "";
        if (!custom) {
          if (e == ".c") w = FileExt::C;
          if (in(e, {".cpp", ".cxx", ".cc"})) w = FileExt::Cpp;
          if (in(e, {".s", ".S", ".asm"})) w = FileExt::Asm;
          if (in(e, {".h", ".hpp"})) w = FileExt::Header;
        } else {
          if (e == ".x") w = FileExt::C;
          if (in(e, {".h", ".cppp"})) w = FileExt::Cpp;
          if (in(e, {".c", ".o"})) w = FileExt::Asm;
          if (in(e, {".txt", ".H"})) w = FileExt::Header;
        }
        std::string r;
        if (c.GetFileExt(p) != w)
          r += " kind " + std::to_string((int)c.GetFileExt(p)) + " instead of " + std::to_string((int)w);
        if (c.IsValidSource(p) != (w == FileExt::C || w == FileExt::Cpp || w == FileExt::Asm))
          r += " valid source";
        if (c.IsValidHeader(p) != (w == FileExt::Header))
          r += " valid header";
        return r;
      },
      [&](int k, const Case &c) {
        cx.states(1);
        cx.transitions(1);
        if (!c.done || !c.out.empty())
          cx.violation("file kind of '" + stems[k % n / exts.size()] + exts[k % exts.size()] + "'" + (k >= n ? " custom" : ""), c.done ? c.out : c.res.outcome());
      });
  cx.outcome("kinds");
}
// through a real build: the kinds of source and precompiled header a target says it has
void state(Ctx &cx) {
  put_all();
  for (auto f : {"/r/p.h", "/r/a.c", "/r/b.cc", "/r/c.asm"})
    write_raw(g_root + f, "// x\n", ver_mtime(0));
  for (int b = 0; b < 16; b++) {
    Result res;
    std::string out = run_pure(cx, [&] {
      init();
      auto *tc = new Toolchain_gcc("gcc");
      auto *t = new ExecutableTarget_gcc("t", *tc, "");
      std::string s0 = t->GetState().IsBuilt() || t->GetState().ContainsAsm() || t->GetState().ContainsC() || t->GetState().ContainsCpp() || t->GetState().ContainsPch() ? "not fresh " : "";
      if (b & 1) t->AddSource("a.c");
      if (b & 2) t->AddSource("b.cc");
      if (b & 4) t->AddSource("c.asm");
      if (b & 8) t->AddPch("p.h");
      t->Build();
      tf::Executor ex(2);
      ex.run(t->GetTaskflow());
      ex.wait_for_all();
      auto &s = t->GetState();
      put(s0 + std::to_string(s.ContainsC()) + std::to_string(s.ContainsCpp()) + std::to_string(s.ContainsAsm()) + std::to_string(s.ContainsPch()));
    }, &res);
    std::string want = std::to_string(b & 1) + std::to_string(b >> 1 & 1) + std::to_string(b >> 2 & 1) + std::to_string(b >> 3 & 1);
    cx.states(1);
    cx.transitions(1);
    if (out != want)
      cx.violation("target with kinds " + want + " reports " + out, show(res));
    rm_rf(g_root + "/_b");
  }
  rm_rf(g_root + "/r");
  cx.outcome("state");
}
} // namespace

namespace mc {
std::vector<Unit> make_units(const std::string &, bool th, const std::string &) {
  std::vector<Unit> u;
  auto o = ops();
  for (int kind = 0; kind < 2; kind++)
    for (int root = 0; root < 3; root++)
      u.push_back({"long." + std::to_string(kind) + "." + std::to_string(root), [=](Ctx &cx) { sequences(cx, kind, root, true, -1, 0); }});
  u.push_back({"kinds", kinds});
  u.push_back({"state", state});
  for (int root = 0; root < 3; root++)
    for (int f = 0; f < (int)o.size(); f++)
      for (int kind = 0; kind < 2; kind++)
        u.push_back({"seq." + std::to_string(kind) + "." + std::to_string(root) + "." + std::to_string(f),
                     [=](Ctx &cx) { sequences(cx, kind, root, root != 1, f, kind == 0 && root == 0 ? (th ? 3 : 2) : (th ? 2 : 2)); }});
  return u;
}
} // namespace mc

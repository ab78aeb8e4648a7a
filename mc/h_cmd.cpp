// C12 command composition, C13 object paths: exhaustive enumeration of target
// configurations on the real code, oracle: reference composition.
#include "bcc.h"
#include <algorithm>
using namespace mc;
using namespace proj;
using namespace buildcc;

namespace {
using Strs = std::vector<std::string>;

// ------------------------------------------------------------------ C12
enum Bit { PRE, COM, PCHC, PCHO, ASM, CC, CPP, LINK, INC, LDIR, LIBS, EXT, TCF, PCH, NBIT };
const char *bit_names[] = {"pre", "com", "pchc", "pcho", "asm", "c", "cpp", "link", "inc", "ldir", "libs", "ext", "tcflags", "pch"};
struct Kind {
  std::string name;
  char fam;  // g gcc, m mingw, v msvc, b base target with the default config, t templates
  int type;  // 0 exe 1 static 2 dynamic
  int wrap;  // 0 specific class, 1 *_generic, 2 Target_generic
};
std::vector<Kind> kinds() {
  std::vector<Kind> k;
  const char *tn[] = {"exe", "static", "dynamic"};
  for (char f : {'g', 'm', 'v'})
    for (int t = 0; t < 3; t++)
      for (int w = 0; w < 3; w++)
        k.push_back({std::string(1, f) + "." + tn[t] + (w == 0 ? "" : w == 1 ? ".generic" : ".target_generic"), f, t, w});
  for (int t = 0; t < 3; t++) {
    k.push_back({std::string("base.") + tn[t], 'b', t, 0});
    k.push_back({std::string("templ.") + tn[t], 't', t, 0});
  }
  return k;
}
struct Conf {
  int kind = 0, bits = 0, srcs = 0, space = 0;
};
const Strs src_sets[] = {
    {"a.cpp", "d/b.cxx", "c.c", "s.S", "e.asm", "f.cc", "g.s"}, {"c.c", "d/c.c"}, {"a.cpp"}, {"s.S"}, {"c.c", "a.cpp"}, {"s.s", "x y.cpp", "c c.c"},
    [] { // many
      Strs r;
      const char *e[] = {".cpp", ".c", ".S", ".cc"};
      for (int i = 0; i < 28; i++)
        r.push_back((i % 5 ? "many" : "d/many") + std::to_string(i) + e[i % 4]);
      return r;
    }()};
const int n_srcs = 6, src_many = 6;
// with the long source set, every list gets this many more entries
const int n_more = 25;
// (the last ones repeat earlier ones)
std::string more(const std::string &p, int i) { return p + "more" + std::to_string(i % 21); }

std::string root(const Conf &c) { return g_root + (c.space ? "/p q" : "/p"); }
std::string bdir(const Conf &c) { return g_root + (c.space ? "/p q/_b b" : "/p/_b"); }
std::string fl(const char *n, int i) { return std::string("-F") + n + std::to_string(i); }

struct Made {
  std::unique_ptr<Toolchain> tc, tc2;
  std::unique_ptr<BaseTarget> lib1, lib2, t, other;
};
std::string esrc(const Conf &c, const std::string &s) { return root(c) + "/" + s; }
int ext_kind(const std::string &s) { // 0 asm 1 c 2 cpp
  std::string e = s.substr(s.rfind('.'));
  return e == ".c" ? 1 : e == ".cpp" || e == ".cc" || e == ".cxx" ? 2 : 0;
}
ToolchainExecutables exes(const Conf &c) {
  std::string d = c.space ? "/opt/my tools/" : "/opt/t/";
  return ToolchainExecutables(d + "as1", d + "cc1", d + "cxx1", d + "ar1", d + "ld1");
}
const char *templ_compile = "@compiler {compiler} @asmc {asm_compiler} @cc {c_compiler} @cxx {cpp_compiler} @ar {archiver} @ld {linker} @pre {preprocessor_flags} @inc {include_dirs} "
                            "@com {common_compile_flags} @pchc {pch_compile_flags} @pcho {pch_object_flags} @pobj {pch_object_output} @lang {compile_flags} @link {link_flags} @ldir {lib_dirs} @out {output} @in {input}";
const char *templ_pch = "@compiler {compiler} @pre {preprocessor_flags} @inc {include_dirs} @com {common_compile_flags} @pchc {pch_compile_flags} @pcho {pch_object_flags} @lang {compile_flags} @out {output} "
                        "@in {input} @src {input_source} @pobj {pch_object_output}";
const char *templ_link = "@asmc {asm_compiler} @cc {c_compiler} @cxx {cpp_compiler} @ar {archiver} @ld {linker} @pre {preprocessor_flags} @inc {include_dirs} @com {common_compile_flags} "
                         "@pchc {pch_compile_flags} @pcho {pch_object_flags} @pobj {pch_object_output} @link {link_flags} @ldir {lib_dirs} @libs {lib_deps} @objs {compiled_sources} @out {output}";

void add_flags(BaseTarget &t, int bits, const std::string &tag, bool many = false) {
  auto f = [&](int b, const std::function<void(const std::string &)> &add) {
    if (bits >> b & 1) {
      add(fl(bit_names[b], 1) + tag);
      add(fl(bit_names[b], 2) + tag + " -second" + tag + bit_names[b]);
      for (int i = 0; many && i < n_more; i++)
        add(more("-F" + std::string(bit_names[b]), i));
    }
  };
  f(PRE, [&](auto &s) { t.AddPreprocessorFlag(s); });
  f(COM, [&](auto &s) { t.AddCommonCompileFlag(s); });
  f(PCHC, [&](auto &s) { t.AddPchCompileFlag(s); });
  f(PCHO, [&](auto &s) { t.AddPchObjectFlag(s); });
  f(ASM, [&](auto &s) { t.AddAsmCompileFlag(s); });
  f(CC, [&](auto &s) { t.AddCCompileFlag(s); });
  f(CPP, [&](auto &s) { t.AddCppCompileFlag(s); });
  f(LINK, [&](auto &s) { t.AddLinkFlag(s); });
  f(EXT, [&](auto &s) { t.AddLibDep(s); });
}
// the flags of one list as the settings say: toolchain, built in, own
Strs list(const Conf &c, const Kind &k, int b, const BaseTarget &t) {
  Strs r;
  auto app = [&](const std::string &s) {
    for (auto &x : split_cmd(s))
      r.push_back(x);
  };
  if ((c.bits >> TCF & 1) && b <= LINK)
    app(fl(bit_names[b], 0) + "tc");
  std::string hdr = t.GetPchHeaderPath().string(), pch = t.GetPchCompilePath().string();
  if (k.fam == 'g' || k.fam == 'm') {
    if (b == COM && k.type == 2)
      app("-fpic");
    if (b == PCHO)
      r.push_back("-include"), r.push_back(hdr), r.push_back("-H");
  }
  if (k.fam == 'v') {
    if (b == CC || b == LINK)
      app("/nologo");
    if (b == CPP)
      app("/nologo /EHsc");
    if (b == PCHO)
      r.push_back("/Yu" + hdr), r.push_back("/FI" + hdr), r.push_back("/Fp" + pch);
  }
  if (c.bits >> b & 1) {
    app(fl(bit_names[b], 1) + "own");
    app(fl(bit_names[b], 2) + "own -secondown" + bit_names[b]);
    for (int i = 0; c.srcs == src_many && i < n_more; i++)
      app(more("-F" + std::string(bit_names[b]), i));
  }
  return r;
}
void init_project(const Conf &c) { Project::Init(root(c), bdir(c)); }
template <typename E, typename S, typename D>
std::unique_ptr<BaseTarget> mk(int type, const std::string &n, const Toolchain &tc) {
  if (type == 0)
    return std::make_unique<E>(n, tc, "");
  if (type == 1)
    return std::make_unique<S>(n, tc, "");
  return std::make_unique<D>(n, tc, "");
}
std::unique_ptr<BaseTarget> new_target(const Kind &k, const std::string &n, const Toolchain &tc) {
  TargetType tt[] = {TargetType::Executable, TargetType::StaticLibrary, TargetType::DynamicLibrary};
  if (k.fam == 'b')
    return std::make_unique<BaseTarget>(n, tt[k.type], tc, "");
  if (k.fam == 't') {
    TargetConfig cfg;
    cfg.target_ext = ".x";
    cfg.compile_command = templ_compile;
    cfg.pch_command = templ_pch;
    cfg.link_command = templ_link;
    return std::make_unique<BaseTarget>(n, tt[k.type], tc, "", cfg);
  }
  if (k.wrap == 1)
    return mk<ExecutableTarget_generic, StaticTarget_generic, DynamicTarget_generic>(k.type, n, tc);
  if (k.wrap == 2)
    return std::make_unique<Target_generic>(n, tt[k.type], tc, "");
  if (k.fam == 'g')
    return mk<ExecutableTarget_gcc, StaticTarget_gcc, DynamicTarget_gcc>(k.type, n, tc);
  if (k.fam == 'm')
    return mk<ExecutableTarget_mingw, StaticTarget_mingw, DynamicTarget_mingw>(k.type, n, tc);
  return mk<ExecutableTarget_msvc, StaticTarget_msvc, DynamicTarget_msvc>(k.type, n, tc);
}
void tc_flags(Toolchain &tc) {
  tc.AddPreprocessorFlag(fl("pre", 0) + "tc");
  tc.AddCommonCompileFlag(fl("com", 0) + "tc");
  tc.AddPchCompileFlag(fl("pchc", 0) + "tc");
  tc.AddPchObjectFlag(fl("pcho", 0) + "tc");
  tc.AddAsmCompileFlag(fl("asm", 0) + "tc");
  tc.AddCCompileFlag(fl("c", 0) + "tc");
  tc.AddCppCompileFlag(fl("cpp", 0) + "tc");
  tc.AddLinkFlag(fl("link", 0) + "tc");
}
Made make(const Conf &c) {
  Made m;
  auto k = kinds()[c.kind];
  if (k.fam == 'g')
    m.tc = std::make_unique<Toolchain_gcc>("gcc", exes(c));
  else if (k.fam == 'm')
    m.tc = std::make_unique<Toolchain_mingw>("mingw", exes(c));
  else if (k.fam == 'v')
    m.tc = std::make_unique<Toolchain_msvc>("msvc", exes(c));
  else
    m.tc = std::make_unique<Toolchain_custom>(ToolchainId::Clang, "clang", exes(c));
  if (c.bits >> TCF & 1)
    tc_flags(*m.tc);
  std::string sp = c.space ? " x" : "";
  if (c.bits >> LIBS & 1) {
    Kind s = k, d = k;
    s.type = 1;
    d.type = 2;
    s.wrap = d.wrap = 0;
    m.lib1 = new_target(s, "foo" + sp, *m.tc);
    m.lib2 = new_target(d, "bar" + sp, *m.tc);
    // something of their own, which must not leak
    add_flags(*m.lib1, (1 << (LINK + 1)) - 1, "lib");
    m.lib1->AddIncludeDir("libinc");
    m.lib1->AddSource("lib.cpp");
  }
  m.t = new_target(k, "app" + sp, *m.tc);
  for (auto &s : src_sets[c.srcs])
    m.t->AddSource(s);
  add_flags(*m.t, c.bits, "own", c.srcs == src_many);
  if (c.bits >> INC & 1)
    m.t->AddIncludeDir("inc two"), m.t->AddIncludeDir("i1"), m.t->AddIncludeDirAbsolute("/abs dir/i");
  if (c.bits >> LDIR & 1)
    m.t->AddLibDir("lib two"), m.t->AddLibDir("l1"), m.t->AddLibDirAbsolute("/abs dir/l");
  for (int i = 0; c.srcs == src_many && i < n_more; i++) {
    if (c.bits >> INC & 1)
      m.t->AddIncludeDir(more("i", i));
    if (c.bits >> LDIR & 1)
      m.t->AddLibDir(more("l", i));
  }
  if (c.bits >> LIBS & 1)
    m.t->AddLibDep(*m.lib2), m.t->AddLibDep(*m.lib1);
  if ((c.bits >> LIBS & 1) && c.srcs == src_many)
    m.t->AddLibDep(*m.lib2);
  if (c.bits >> PCH & 1)
    m.t->AddPch("h.h");
  return m;
}
// -------- oracle
struct Exp {
  std::string argv0;
  std::vector<std::pair<std::string, Strs>> cats; // ordered lists
  Strs set;                                       // any order
  std::vector<std::pair<std::string, std::string>> adj; // a directly followed by b
  std::vector<std::pair<std::string, std::string>> before;
};
Strs prefixed(const std::string &p, const Strs &v) {
  Strs r;
  for (auto &x : v)
    r.push_back(p + x);
  return r;
}
std::string match(const std::string &cmd, const Exp &e) {
  auto a = split_cmd(cmd);
  if (a.empty() || a[0] != e.argv0)
    return "program is not " + e.argv0;
  std::map<std::string, int> want;
  for (auto &[n, l] : e.cats)
    for (auto &x : l)
      want[x]++;
  for (auto &x : e.set)
    want[x]++;
  for (auto &[x, y] : e.adj)
    want[x]++, want[y]++;
  std::map<std::string, int> got;
  for (size_t i = 1; i < a.size(); i++)
    got[a[i]]++;
  for (auto &[x, n] : want)
    if (got[x] != n)
      return "argument <" + x + "> appears " + std::to_string(got[x]) + " times instead of " + std::to_string(n);
  for (auto &[x, n] : got)
    if (!want.count(x))
      return "unexpected argument <" + x + ">";
  auto pos = [&](const std::string &x) { return std::find(a.begin() + 1, a.end(), x) - a.begin(); };
  for (auto &[n, l] : e.cats) {
    size_t p = 1;
    for (auto &x : l) {
      while (p < a.size() && a[p] != x)
        p++;
      if (p == a.size())
        return n + " not in the given order";
      p++;
    }
  }
  for (auto &[x, y] : e.adj)
    if (a[pos(x) + 1] != y)
      return x + " is not followed by " + y;
  for (auto &[x, y] : e.before)
    if (pos(x) > pos(y))
      return x + " does not come before " + y;
  return "";
}
// sections of a template command
std::string match_templ(const std::string &cmd, const std::map<std::string, Strs> &want, const std::string &unordered) {
  std::map<std::string, Strs> got;
  std::string cur;
  for (auto &x : split_cmd(cmd))
    if (x[0] == '@')
      got[cur = x];
    else
      got[cur].push_back(x);
  for (auto [k, v] : want) {
    auto g = got[k];
    if (k == unordered) {
      std::sort(g.begin(), g.end());
      std::sort(v.begin(), v.end());
    }
    if (g != v)
      return "section " + k + " is <" + join(g, "> <") + "> instead of <" + join(v, "> <") + ">";
  }
  for (auto &[k, v] : got)
    if (!want.count(k))
      return "unexpected section " + k;
  return "";
}
struct Oracle {
  const Conf &c;
  Kind k;
  const BaseTarget &t;
  ToolchainExecutables ex;
  Oracle(const Conf &c, const BaseTarget &t) : c(c), k(kinds()[c.kind]), t(t), ex(exes(c)) {}
  std::string sp() const { return c.space ? " x" : ""; }
  bool pch() const { return c.bits >> PCH & 1; }
  std::string dir() const { return bdir(c) + "/" + t.GetToolchain().GetName() + "/app" + sp(); }
  std::string objext() const { return k.fam == 'v' ? ".obj" : ".o"; }
  std::string obj(const std::string &s) const { return dir() + "/" + s + objext(); }
  Strs L(int b) const { return list(c, k, b, t); }
  Strs dirs(const char *p, Strs l) const {
    for (int i = 0; c.srcs == src_many && i < n_more; i++)
      l.push_back(root(c) + "/" + more(p, i));
    return l;
  }
  Strs inc() const { return c.bits >> INC & 1 ? prefixed(k.fam == 'v' ? "/I" : "-I", dirs("i", {root(c) + "/inc two", root(c) + "/i1", "/abs dir/i"})) : Strs{}; }
  Strs ldir() const { return c.bits >> LDIR & 1 ? prefixed(k.fam == 'v' ? "/LIBPATH:" : "-L", dirs("l", {root(c) + "/lib two", root(c) + "/l1", "/abs dir/l"})) : Strs{}; }
  std::string libpath(const std::string &n, int type) const {
    std::string e = k.fam == 't' ? ".x" : k.fam == 'b' ? "" : k.fam == 'v' ? ".lib" : type == 1 ? ".a" : k.fam == 'm' ? ".dll" : ".so";
    return bdir(c) + "/" + t.GetToolchain().GetName() + "/" + n + sp() + "/" + n + sp() + e;
  }
  Strs libs() const {
    Strs r;
    if (c.bits >> LIBS & 1)
      r = {libpath("bar", 2), libpath("foo", 1)};
    if ((c.bits >> LIBS & 1) && c.srcs == src_many)
      r.push_back(libpath("bar", 2));
    for (auto &x : L(EXT))
      r.push_back(x);
    return r;
  }
  std::string out() const {
    std::string e = k.fam == 't' ? ".x" : k.fam == 'b' ? "" : k.fam == 'v' ? (k.type == 0 ? ".exe" : ".lib") : k.type == 1 ? ".a" : k.fam == 'm' ? (k.type == 0 ? ".exe" : ".dll") : k.type == 0 ? "" : ".so";
    return dir() + "/app" + sp() + e;
  }
  std::string hdr() const { return dir() + "/buildcc_pch.h"; }
  std::string pchout() const { return dir() + (k.fam == 'v' ? "/buildcc_pch.h.pch" : "/buildcc_pch.h.gch"); }
  bool cpp() const {
    for (auto &s : src_sets[c.srcs])
      if (ext_kind(s) == 2)
        return true;
    return false;
  }
  std::string compiler(int e) const { return e == 0 ? ex.assembler : e == 1 ? ex.c_compiler : ex.cpp_compiler; }
  std::string compile(const std::string &s, const std::string &cmd) const {
    int e = ext_kind(s);
    if (k.fam == 't')
      return match_templ(cmd, {{"@compiler", {compiler(e)}}, {"@asmc", {ex.assembler}}, {"@cc", {ex.c_compiler}}, {"@cxx", {ex.cpp_compiler}}, {"@ar", {ex.archiver}}, {"@ld", {ex.linker}}, {"@pre", L(PRE)}, {"@inc", inc()}, {"@com", L(COM)}, {"@pchc", pch() ? L(PCHC) : Strs{}}, {"@pcho", pch() ? L(PCHO) : Strs{}}, {"@pobj", pch() ? Strs{dir() + "/buildcc_pch.o"} : Strs{}}, {"@lang", L(ASM + e)}, {"@link", L(LINK)}, {"@ldir", ldir()}, {"@out", {obj(s)}}, {"@in", {esrc(c, s)}}}, "");
    Exp x;
    x.argv0 = compiler(e);
    x.cats = {{"preprocessor flags", L(PRE)}, {"include directories", inc()}, {"common flags", L(COM)}, {"pch object flags", pch() ? L(PCHO) : Strs{}}, {"language flags", L(ASM + e)}};
    if (k.fam == 'v') {
      x.set = {"/Fo" + obj(s)};
      x.adj = {{"/c", esrc(c, s)}};
    } else
      x.adj = {{"-o", obj(s)}, {"-c", esrc(c, s)}};
    return match(cmd, x);
  }
  std::string pchc(const std::string &cmd) const {
    int e = cpp() ? 2 : 1;
    std::string src = dir() + (cpp() ? "/buildcc_pch.cpp" : "/buildcc_pch.c");
    if (k.fam == 't')
      return match_templ(cmd, {{"@compiler", {compiler(e)}}, {"@pre", L(PRE)}, {"@inc", inc()}, {"@com", L(COM)}, {"@pchc", L(PCHC)}, {"@pcho", L(PCHO)}, {"@lang", L(ASM + e)}, {"@out", {pchout()}}, {"@in", {hdr()}}, {"@src", {src}}, {"@pobj", {dir() + "/buildcc_pch.o"}}}, "");
    Exp x;
    x.argv0 = compiler(e);
    x.cats = {{"preprocessor flags", L(PRE)}, {"include directories", inc()}, {"common flags", L(COM)}, {"pch flags", L(PCHC)}, {"language flags", L(ASM + e)}};
    if (k.fam == 'v') {
      x.set = {"/Yc" + hdr(), "/FI" + hdr(), "/Fp" + pchout(), "/Fo" + dir() + "/buildcc_pch.obj"};
      x.adj = {{"/c", src}};
    } else
      x.adj = {{"-o", pchout()}, {"-c", hdr()}};
    return match(cmd, x);
  }
  std::string link(const std::string &cmd) const {
    Strs objs;
    for (auto &s : src_sets[c.srcs])
      objs.push_back(obj(s));
    if (k.fam == 't')
      return match_templ(cmd, {{"@asmc", {ex.assembler}}, {"@cc", {ex.c_compiler}}, {"@cxx", {ex.cpp_compiler}}, {"@ar", {ex.archiver}}, {"@ld", {ex.linker}}, {"@pre", L(PRE)}, {"@inc", inc()}, {"@com", L(COM)}, {"@pchc", pch() ? L(PCHC) : Strs{}}, {"@pcho", pch() ? L(PCHO) : Strs{}}, {"@pobj", pch() ? Strs{dir() + "/buildcc_pch.o"} : Strs{}}, {"@link", L(LINK)}, {"@ldir", ldir()}, {"@libs", libs()}, {"@objs", objs}, {"@out", {out()}}}, "@objs");
    Exp x;
    x.set = objs;
    if (k.fam == 'v') {
      if (pch())
        x.set.push_back(dir() + "/buildcc_pch.obj");
      x.argv0 = k.type == 1 ? ex.archiver : ex.linker;
      x.cats = {{"link flags", L(LINK)}};
      if (k.type == 0)
        x.cats.push_back({"library directories", ldir()}), x.cats.push_back({"libraries", libs()});
      if (k.type == 2)
        x.set.insert(x.set.end(), {"/DLL", "/OUT:" + out() + ".dll", "/IMPLIB:" + out()});
      else
        x.set.push_back("/OUT:" + out());
      return match(cmd, x);
    }
    if (k.type == 1 && k.fam != 'b') {
      x.argv0 = ex.archiver;
      x.adj = {{"rcs", out()}};
      return match(cmd, x);
    }
    x.argv0 = ex.cpp_compiler;
    x.cats = {{"link flags", L(LINK)}};
    x.adj = {{"-o", out()}};
    if (k.type == 0 || k.fam == 'b') {
      x.cats.push_back({"library directories", ldir()});
      x.cats.push_back({"libraries", libs()});
      for (auto &l : libs())
        for (auto &o : objs)
          x.before.push_back({o, l});
    } else {
      x.set.push_back("-shared");
      if (k.fam == 'm')
        x.set.push_back("-Wl,--out-implib," + out() + ".a");
    }
    return match(cmd, x);
  }
};
std::string cstr(const Conf &c) {
  std::string s = kinds()[c.kind].name + " sources=" + std::to_string(c.srcs) + (c.space ? " spaces" : "") + " {";
  for (int b = 0; b < NBIT; b++)
    if (c.bits >> b & 1)
      s += std::string(b ? " " : "") + bit_names[b];
  return s + "}";
}
std::string check_cmds(const Conf &c, const BaseTarget &t) {
  Oracle o(c, t);
  for (auto &s : src_sets[c.srcs]) {
    std::string cmd = t.GetCompileCommand(esrc(c, s)), e = o.compile(s, cmd);
    if (!e.empty())
      return "compile command of " + s + ": " + e + "\n" + cmd;
  }
  std::string e = o.link(t.GetLinkCommand());
  if (!e.empty())
    return "link command: " + e + "\n" + t.GetLinkCommand();
  return "";
}
std::vector<int> bitsets(bool all) {
  std::vector<int> v;
  int full = (1 << NBIT) - 1;
  if (all) {
    for (int i = 0; i <= full; i++)
      v.push_back(i);
    return v;
  }
  std::set<int> s{0, full};
  for (int i = 0; i < NBIT; i++)
    for (int j = i; j < NBIT; j++)
      s.insert((1 << i) | (1 << j)), s.insert(full & ~(1 << i) & ~(1 << j));
  return {s.begin(), s.end()};
}
void c12_getters(Ctx &cx, int kind, bool all) {
  std::vector<Conf> cs;
  for (int sp = 0; sp < 2; sp++)
    for (int s = 0; s < n_srcs; s++)
      for (int b : bitsets(all))
        cs.push_back({kind, b, s, sp});
  for (int b : {0, 1 << PCH, (1 << NBIT) - 1, ((1 << NBIT) - 1) & ~(1 << PCH)})
    cs.push_back({kind, b, src_many, 0});
  for (int sp = 0; sp < 2; sp++)
    mkdirs(bdir(Conf{0, 0, 0, sp}));
  bool quiet = false;
  run_cases(
      cx, (int)cs.size(),
      [&](int i) {
        const Conf &c = cs[i];
        init_project(c);
        if (!quiet)
          env::set_log_level(env::LogLevel::Critical);
        Made m = make(c);
        m.t->Build();
        if (m.lib1)
          m.lib1->Build();
        return check_cmds(c, *m.t);
      },
      [&](int i, const Case &c) {
        cx.states(1);
        cx.transitions(1);
        if (!c.done || !c.out.empty())
          cx.violation("wrong command: " + cstr(cs[i]) + (c.done ? " " + c.out.substr(0, c.out.find('\n')) : ""), c.done ? canon(c.out) : c.res.outcome());
      });
  cx.outcome("commands of " + kinds()[kind].name);
  rm_rf(g_root + "/p");
  rm_rf(g_root + "/p q");
}
// the commands a real build runs
void c12_real(Ctx &cx, int kind, bool th) {
  std::vector<int> bs{0, 1 << PCH, (1 << NBIT) - 1, ((1 << NBIT) - 1) & ~(1 << PCH)};
  for (int b = 0; b < NBIT; b++) {
    bs.push_back(1 << b | 1 << PCH);
    if (th)
      bs.push_back(((1 << NBIT) - 1) & ~(1 << b));
  }
  for (int sp = 0; sp < 2; sp++)
    for (int s = 0; s <= src_many; s++)
      for (int b : bs) {
        if (s == src_many && (sp || (b & (b - 1)) == 0))
          continue;
        if (cx.violations_in_unit)
          return;
        Conf c{kind, b, s, sp};
        rm_rf(root(c));
        mkdirs(root(c) + "/d");
        for (auto &f : src_sets[s])
          write_raw(esrc(c, f), "//\n", ver_mtime(0));
        for (auto f : {"h.h", "lib.cpp"})
          write_raw(esrc(c, f), "//\n", ver_mtime(0));
        Oracle *o = nullptr;
        (void)o;
        custom_program = [](const std::string &, const Strs &, const std::string &, int &st, std::string &, std::string &) {
          st = 0;
          return true;
        };
        Strs problems;
        Result r;
        std::string out = run_pure(
            cx,
            [&] {
              ArgToolchain tc;
              auto &ai = Args::Init();
              ai.AddToolchain("gcc", "gcc", tc);
              std::string rd = c.space ? "p q" : "p", bd = c.space ? "p q/_b b" : "p/_b";
              const char *argv[] = {"script", "--root_dir", rd.c_str(), "--build_dir", bd.c_str(), "toolchain", "gcc", "--build", "--test"};
              ai.Parse(9, argv);
              Reg::Init();
              Made m = make(c);
              // libraries are only named, they are not built here
              if (m.lib1)
                for (auto *l : {m.lib1.get(), m.lib2.get()})
                  write_raw(l->GetTargetPath().string(), "lib", ver_mtime(0));
              Reg::Toolchain(tc.state).Build([&](BaseTarget &t) { t.Build(); }, *m.t);
              Reg::Run();
              put("done\n");
            },
            &r);
        custom_program = nullptr;
        cx.states(1);
        cx.transitions(1);
        std::string w = cstr(c);
        if (!r.ok() || out != "done\n") {
          cx.violation("build fails " + w, show(r));
          continue;
        }
        // judge the commands of the run; the target is rebuilt here only for its paths
        auto cm = commands(r);
        std::string verdict = run_pure(cx, [&] {
          init_project(c);
          env::set_log_level(env::LogLevel::Critical);
          Made m = make(c);
          Oracle o(c, *m.t);
          size_t want = src_sets[s].size() + 1 + ((b >> PCH) & 1);
          if (cm.size() != want) {
            put(std::to_string(cm.size()) + " commands instead of " + std::to_string(want));
            return;
          }
          std::set<size_t> used;
          auto find = [&](const std::string &n, const std::function<std::string(const std::string &)> &f) {
            std::string last;
            for (size_t i = 0; i < cm.size(); i++)
              if (!used.count(i)) {
                std::string e = f(cm[i].cmd);
                if (e.empty()) {
                  used.insert(i);
                  return true;
                }
                last += "\n  " + cm[i].cmd + "\n    " + e;
              }
            put("no command is right for " + n + last);
            return false;
          };
          for (auto &f : src_sets[s])
            if (!find(f, [&](auto &x) { return o.compile(f, x); }))
              return;
          if ((b >> PCH & 1) && !find("the precompiled header", [&](auto &x) { return o.pchc(x); }))
            return;
          find("the link", [&](auto &x) { return o.link(x); });
        });
        if (!verdict.empty())
          cx.violation("wrong command run: " + w + " " + verdict.substr(0, verdict.find('\n')), canon(verdict) + "\n" + show(r));
      }
  cx.outcome("real commands of " + kinds()[kind].name);
  rm_rf(g_root + "/p");
  rm_rf(g_root + "/p q");
}

// ------------------------------------------------------------------ C13
// spellings relative to the target's root
Strs spellings() {
  const std::string L(200, 'n');
  std::string D;
  for (int i = 0; i < 60; i++)
    D += "e/";
  return {"x.cpp", "y.cpp", "x.c", "x.cc", "x.S", "a/x.cpp", "a/b/x.cpp", "a.b/x.cpp", "a_b/x.cpp", "a..b/x.cpp", "a__b/x.cpp", "a b/x.cpp", "ab/x.cpp", "x.y.cpp", "x_y.cpp", "x y.cpp", "x..cpp", ".x.cpp", "..x.cpp",
          "__/x.cpp", "___/x.cpp", "_/x.cpp", "../x.cpp", "../y.cpp", "../a/x.cpp", "../a.b/x.cpp", "../a_b/x.cpp", "../.a/x.cpp", "../_a/x.cpp", "../x.y.cpp", "../x_y.cpp", "../../x.cpp", "../../a/x.cpp", "../../z/q/x.cpp", "a/__/x.cpp", "__/a/x.cpp",
          "__/__/x.cpp", "../__/x.cpp", "../___/x.cpp", "../../../x.cpp", "x/x.cpp", "x.cpp/x.cpp", "x.cpp.o/x.cpp", "_a/x.cpp", ".a/x.cpp", "a.cpp", "a./x.cpp", "a-b/x.cpp",
          // long ones
          L + "1.cpp", L + "2.cpp", "l" + L + "1.cpp", L + "1/x.cpp", L + "2/x.cpp", "d/" + L + "/" + L + "/" + L + "/" + L + "/" + L + "/1.cpp", "d/" + L + "/" + L + "/" + L + "/" + L + "/" + L + "/2.cpp", D + "1.cpp", D + "2.cpp", "../" + L + "1.cpp",
          // the same files spelled differently
          "./x.cpp", "a/../x.cpp", "a//x.cpp", "a/./x.cpp", "a/b/../x.cpp", "a/../../x.cpp", ".././x.cpp", "a/../y.cpp", "../q/../x.cpp", "%abs/x.cpp", "%abs/a/x.cpp", "%abs/../x.cpp",
          // below the build directory (generated sources)
          "%bld/x.cpp", "%bld/a/x.cpp", "%bld/gcc/x.cpp", "%bld/gcc/app/x.cpp", "%bld/gcc/app/a/x.cpp", "%bld/gen/x.cpp", "%bld/gcc/app/__/x.cpp", "%bld/../x.cpp", "gen/x.cpp", "gcc/app/x.cpp"};
}
struct Root {
  std::string name, project, env, build;
  bool absolute = false;
};
std::vector<Root> roots() {
  // project root and target directory, all below g_root
  return {{"plain", "w/p/q/r", "", "w/p/q/r/_b"},
          {"sub", "w/p/q", "r", "w/p/q/_b"},
          {"trailing slash", "w/p/q/r/", "", "w/p/q/r/_b/"},
          {"dot", "w/p/q/r/.", ".", "w/p/q/r/_b"},
          {"parent", "w/p/q/r/s/..", "", "w/p/q/r/_b"},
          {"parents", "w/p/q/r/a/b/../..", "", "w/p/q/r/_b"},
          {"env parent", "w/p/q/s", "../r", "w/_b"},
          {"env parents", "w/p/q/r/a/b", "../..", "w/_b"},
          {"deep parents", "w/p/q/r/a/b/c/../../..", "", "w/_b"},
          {"spaces", "w/p/q q/r r", "", "w/p/q q/r r/_b b"},
          {"dotted", "w/p.p/q..q/r.r", "", "w/p.p/_b"},
          {"underscores", "w/__/_/r", "", "w/__/_b"},
          {"absolute", "w/p/q/r", "w/p/q/r", "w/other", true},
          {"build is outside", "w/p/q/r", "", "w/x/../y/_b"}};
}
std::string normal(const std::string &p) { return fs::path(p).lexically_normal().string(); }
std::string obj_of(const std::string &cmd) {
  auto a = split_cmd(cmd);
  for (size_t i = 0; i + 1 < a.size(); i++)
    if (a[i] == "-o")
      return a[i + 1];
  return "";
}
std::string real_root(const Root &r) { return r.absolute ? g_root + "/" + r.env : g_root + "/" + r.project + (r.env.empty() ? "" : "/" + r.env); }
std::string abs_src(const Root &r, const std::string &s) {
  if (s.rfind("%abs", 0) == 0)
    return normal(normal(real_root(r)) + s.substr(4));
  if (s.rfind("%bld", 0) == 0)
    return normal(g_root + "/" + r.build + s.substr(4));
  return normal(real_root(r) + "/" + s);
}
std::unique_ptr<BaseTarget> c13_target(const Root &r, const Toolchain &tc, const std::string &name = "app", int type = 0) {
  TargetType tt[] = {TargetType::Executable, TargetType::StaticLibrary, TargetType::DynamicLibrary};
  TargetEnv env = r.absolute ? TargetEnv(fs::path(g_root + "/" + r.env), fs::path(g_root + "/" + r.build)) : TargetEnv(r.env.c_str());
  return std::make_unique<Target_generic>(name, tt[type], tc, env);
}
void add_src(BaseTarget &t, const Root &r, const std::string &s) {
  if (s.rfind("%abs", 0) == 0)
    t.AddSourceAbsolute(normal(real_root(r)) + s.substr(4));
  else if (s.rfind("%bld", 0) == 0)
    t.AddSourceAbsolute(g_root + "/" + r.build + s.substr(4));
  else
    t.AddSource(s);
}
std::string objects(const Root &r, const Strs &srcs) {
  Toolchain_gcc gcc;
  auto t = c13_target(r, gcc);
  for (auto &s : srcs)
    add_src(*t, r, s);
  t->Build();
  std::map<std::string, std::string> by_file, by_obj;
  std::string dir = normal(g_root + "/" + r.build + "/gcc/app") + "/";
  for (auto &s : srcs) {
    std::string f = abs_src(r, s), cmd = t->GetCompileCommand(f), raw = obj_of(cmd), o = normal(raw);
    if (o.rfind(dir, 0) != 0 || o.size() <= dir.size())
      return "object of " + s + " outside the build directory: " + o;
    if (o == normal(t->GetTargetPath().string()) || o == normal(t->GetBinaryPath().string()))
      return "object of " + s + " is the target's own output or record: " + o;
    if (by_file.count(f) && by_file[f] != o)
      return "two objects for one file " + s;
    by_file[f] = o;
    if (by_obj.count(o) && by_obj[o] != f)
      return "one object " + o.substr(dir.size()) + " for " + f + " and " + by_obj[o];
    by_obj[o] = f;
    // the object path is a function of the source, not of the other sources
  }
  std::map<std::string, int> linked;
  for (auto &a : split_cmd(t->GetLinkCommand()))
    linked[normal(a)]++;
  for (auto &[o, f] : by_obj)
    if (linked[o] != 1)
      return "object " + o + " is linked " + std::to_string(linked[o]) + " times";
  return "";
}
void c13_pairs(Ctx &cx, const Root &r, bool th) {
  auto S = spellings();
  std::vector<Strs> cs;
  cs.push_back(S);
  for (size_t i = 0; i < S.size(); i++) {
    cs.push_back({S[i]});
    for (size_t j = 0; j < S.size(); j++)
      if (i != j) {
        cs.push_back({S[i], S[j]});
        if (th)
          for (size_t k = j + 1; k < S.size(); k++)
            if (k != i && i < j)
              cs.push_back({S[i], S[j], S[k]});
      }
  }
  mkdirs(g_root + "/w");
  run_cases(
      cx, (int)cs.size(),
      [&](int i) {
        Project::Init(g_root + "/" + r.project, g_root + "/" + r.build);
        env::set_log_level(env::LogLevel::Critical);
        return objects(r, cs[i]);
      },
      [&](int i, const Case &c) {
        cx.states(1);
        cx.transitions(1);
        if (!c.done || !c.out.empty())
          cx.violation("object paths, root " + r.name + ": " + canon(c.done ? c.out : c.res.outcome()), "sources: " + join(cs[i], " | ") + "\n" + canon(c.out));
      });
  cx.outcome("objects " + r.name);
  rm_rf(g_root + "/w");
}
// outputs of several targets and toolchains
void c13_targets(Ctx &cx) {
  Strs names{"app", "app2", "app.x", "app x", "gcc", "App", "a", "x.cpp"};
  Strs tcs{"gcc", "gcc2", "app", "g c"};
  mkdirs(g_root + "/w");
  std::vector<std::array<int, 6>> cs;
  for (int n = 0; n < 8; n++)
    for (int m = 0; m < 8; m++)
      for (int t = 0; t < 4; t++)
        for (int u = 0; u < 4; u++)
          for (int k = 0; k < 3; k++)
            for (int l = 0; l < 3; l++)
              if (n != m || t != u)
                cs.push_back({n, m, t, u, k, l});
  Root r = roots()[0];
  run_cases(
      cx, (int)cs.size(),
      [&](int i) {
        Project::Init(g_root + "/" + r.project, g_root + "/" + r.build);
        env::set_log_level(env::LogLevel::Critical);
        auto &c = cs[i];
        std::set<std::string> out[2];
        for (int s = 0; s < 2; s++) {
          Toolchain_gcc tc(tcs[c[2 + s]]);
          auto t = c13_target(r, tc, names[c[s]], c[4 + s]);
          Strs src{"x.cpp", "../x.cpp", "a/x.cpp", "b/buildcc_pch.c"};
          for (auto &f : src)
            t->AddSource(f);
          t->AddPch("h.h");
          t->Build();
          for (auto &f : src)
            out[s].insert(normal(obj_of(t->GetCompileCommand(abs_src(r, f)))));
          for (auto p : {t->GetTargetPath(), t->GetBinaryPath(), t->GetPchHeaderPath(), t->GetPchCompilePath()})
            out[s].insert(normal(p.string()));
          if (out[s].size() != src.size() + 4)
            return std::string("one target uses an output path twice");
        }
        for (auto &p : out[0])
          if (out[1].count(p))
            return "shared output " + p;
        return std::string();
      },
      [&](int i, const Case &c) {
        cx.states(1);
        cx.transitions(1);
        if (!c.done || !c.out.empty())
          cx.violation("targets " + names[cs[i][0]] + "/" + tcs[cs[i][2]] + " and " + names[cs[i][1]] + "/" + tcs[cs[i][3]] + ": " + canon(c.done ? c.out : c.res.outcome()), canon(c.out));
      });
  rm_rf(g_root + "/w");
  cx.outcome("targets");
}
// real builds: every file is compiled once, whatever it is called and how often
// it is given; a second build does nothing
void c13_real(Ctx &cx, const Strs &S, size_t first) {
  Root r{"real", "p/q", "r", "p/q/_b"};
  for (size_t j = 0; j < S.size(); j++) {
    if (cx.violations_in_unit)
      return;
    Strs src{S[first], S[j], "zz.cpp"};
    rm_rf(g_root + "/p");
    rm_rf(g_root + "/z");
    std::set<std::string> files;
    for (auto &s : src) {
      std::string f = abs_src(r, s);
      files.insert(f);
      mkdirs(f.substr(0, f.rfind('/')));
      write_raw(f, "// " + s + "\n", ver_mtime(0));
    }
    auto script = [&] {
      ArgToolchain tc;
      auto &ai = Args::Init();
      ai.AddToolchain("gcc", "gcc", tc);
      const char *argv[] = {"script", "--root_dir", "p/q", "--build_dir", "p/q/_b", "toolchain", "gcc", "--build", "--test"};
      ai.Parse(9, argv);
      Reg::Init();
      Toolchain_gcc gcc;
      auto t = c13_target(r, gcc);
      Reg::Toolchain(tc.state).Build(
          [&](BaseTarget &t) {
            for (auto &s : src)
              add_src(t, r, s);
            t.Build();
          },
          *t);
      Reg::Run();
    };
    Result r1 = run_once(cx, script, Cfg());
    Result r2 = run_once(cx, script, Cfg());
    // one changed file is the only one compiled
    write_raw(abs_src(r, S[j]), "// changed\n", ver_mtime(1));
    Result r3 = run_once(cx, script, Cfg());
    cx.states(1);
    cx.transitions(3);
    std::string what = S[first] + " and " + S[j];
    auto compiled = [&](const Result &x) {
      std::map<std::string, int> m;
      for (auto &c : commands(x)) {
        auto a = split_cmd(c.cmd);
        for (size_t i = 0; i + 1 < a.size(); i++)
          if (a[i] == "-c")
            m[normal(a[i + 1])]++;
      }
      return m;
    };
    std::map<std::string, int> all, one;
    for (auto &f : files)
      all[f] = 1;
    one[abs_src(r, S[j])] = 1;
    if (!r1.ok() || compiled(r1) != all)
      cx.violation("not every source is compiled exactly once: " + what, show(r1));
    else if (!r2.ok() || !commands(r2).empty())
      cx.violation("second build is not empty: " + what, show(r2));
    else if (!r3.ok() || compiled(r3) != one)
      cx.violation("not exactly the changed source is compiled: " + what, show(r3));
  }
  cx.outcome("real " + S[first]);
  rm_rf(g_root + "/p");
}
} // namespace

namespace mc {
std::vector<Unit> make_units(const std::string &prop, bool th, const std::string &) {
  std::vector<Unit> u;
  if (prop == "C12") {
    for (size_t k = 0; k < kinds().size(); k++) {
      u.push_back({"getters." + kinds()[k].name, [k, th](Ctx &cx) { c12_getters(cx, (int)k, th); }});
      u.push_back({"real." + kinds()[k].name, [k, th](Ctx &cx) { c12_real(cx, (int)k, th); }});
    }
  } else {
    for (auto &r : roots())
      u.push_back({"pairs." + r.name, [r, th](Ctx &cx) { c13_pairs(cx, r, th); }});
    u.push_back({"targets", [](Ctx &cx) { c13_targets(cx); }});
    Strs few{"x.cpp", "y.cpp", "x.c", "a/x.cpp", "a.b/x.cpp", "a_b/x.cpp", "__/x.cpp", "../x.cpp", "../a.b/x.cpp", "../a_b/x.cpp", "../../x.cpp", "./x.cpp", "a/../x.cpp", "a//x.cpp", "%abs/x.cpp", "a/../../x.cpp", "x y.cpp", "../x y.cpp", "%bld/x.cpp", "%bld/a/x.cpp"};
    if (th)
      few = spellings();
    for (size_t i = 0; i < few.size(); i++)
      u.push_back({"real." + (few[i].size() > 60 ? "long" + std::to_string(i) : few[i]), [few, i](Ctx &cx) { c13_real(cx, few, i); }});
  }
  return u;
}
} // namespace mc

// C22 the stand-alone build tool: its real main() under exhaustive enumeration
// of modes, inputs, cleaning, failing commands and short histories.
#include "bcc.h"
#include <algorithm>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <unistd.h>
using namespace mc;
using namespace proj;
using namespace buildcc;

int buildexe_main(int argc, char **argv);

namespace {
using Strs = std::vector<std::string>;

const char *in_names[] = {"srcs", "includes", "lib_dirs", "external_libs", "preprocessor_flags", "common_compile_flags", "asm_compile_flags", "c_compile_flags", "cpp_compile_flags", "link_flags"};
const int n_in = 10;
const char *types[] = {"executable", "staticLibrary", "dynamicLibrary"};
struct Opt {
  int mode = 0; // 0 immediate 1 script
  int type = 0;
  int bits = 1; // given inputs
  bool clean = false, toml = false, sub = false, space = false;
  int configs = 0; // 0 none 1 one 2 two 3 one with a space 4 the same ones again
  int libs = 0;    // bit0 a source of library la, bit1 a header of la, bit2 a source of lb
  int src = 0, flag = 0; // versions
  int vals = 0;          // 1 long lists, 2 unusual values, 3 values given twice
  std::string name() const {
    std::string r = mode ? "script" : "immediate";
    r += std::string(" ") + types[type] + " inputs";
    for (int i = 0; i < n_in; i++)
      if (bits >> i & 1)
        r += std::string(" ") + in_names[i];
    return r + (clean ? " clean" : "") + (toml ? " toml" : "") + (sub ? " sub" : "") + (space ? " spaces" : "") + " configs " + std::to_string(configs) + " libs " + std::to_string(libs) + (vals ? " values " + std::to_string(vals) : "");
  }
};
Strs values(const Opt &o, int i) {
  if (!(o.bits >> i & 1))
    return i == 0 ? Strs{"a.cpp"} : Strs{};
  if (o.vals == 1) {
    Strs r;
    const char *e[] = {".cpp", ".c", ".S"};
    for (int k = 0; k < 22; k++)
      r.push_back(i == 0 ? (k % 2 ? "many" : "d/many") + std::to_string(k) + e[k % 3] : i == 1 || i == 2 ? "dir" + std::to_string(k * 5 % 22) : "-v" + std::to_string(i) + "_" + std::to_string(k * 5 % 22));
    return r;
  }
  if (o.vals == 2 && i) {
    std::string n = std::to_string(i);
    if (i <= 2)
      return {"with space" + n, "./x/../i1", "d.x"};
    return {"-Da=b" + n, "-Dq=\"x y\"" + n, "-Dc=1,2", "-D[x]", "-Wl,-rpath,$ORIGIN", "-D{x}", "-Dtwo -Dwords" + n};
  }
  if (o.vals == 3) {
    Opt p = o;
    p.vals = 0;
    Strs a = values(p, i), b = a;
    if (i)
      a.insert(a.end(), b.begin(), b.end());
    return a;
  }
  switch (i) {
  case 0:
    return {"a.cpp", "d/c.c", "s.S"};
  case 1:
    return {"i1", "i2"};
  case 2:
    return {"l1", "l2"};
  case 3:
    return {"-Wext1", "-Wext2"};
  case 4:
    return {"-DP1" + std::string(o.flag ? "b" : ""), "-DP2"};
  case 5:
    return {"-fcom1", "-fcom2"};
  case 6:
    return {"-fasm1", "-fasm2"};
  case 7:
    return {"-fc1", "-fc2"};
  case 8:
    return {"-fcpp1", "-fcpp2"};
  default:
    return {"-flnk1", "-flnk2"};
  }
}
std::string top(const Opt &o) { return o.space ? "my p" : "p"; }
std::string rootdir(const Opt &o) { return top(o) + "/r"; }
std::string builddir(const Opt &o) { return top(o) + (o.space ? "/b d" : "/b"); }
std::string subd(const Opt &o) { return o.sub ? "s1/s2" : ""; }
std::string tdir(const Opt &o) { return g_root + "/" + rootdir(o) + (o.sub ? "/s1/s2" : ""); }
Strs cfgs(const Opt &o) {
  if (o.configs == 1)
    return {"one.toml"};
  if (o.configs == 2)
    return {"two.toml", "one.toml"};
  if (o.configs == 3)
    return {"with space.toml"};
  if (o.configs == 4)
    return {"one.toml", "one.toml", "two.toml", "one.toml"};
  return {};
}
std::string home() { return g_root + "/home"; }
void put_home() {
  std::string b = home() + "/buildcc";
  for (auto d : {"lib/env/src", "lib/env/include/env", "schema/src", "schema/include/schema", "schema/include/schema/interface", "lib/toolchain/src/api", "lib/toolchain/src/common", "lib/toolchain/src/toolchain",
                 "lib/toolchain/include/toolchain", "lib/toolchain/include/toolchain/api", "lib/toolchain/include/toolchain/common", "lib/target/src/common", "lib/target/src/custom_generator", "lib/target/src/generator",
                 "lib/target/src/api", "lib/target/src/target_info", "lib/target/src/target", "lib/target/src/target/friend", "lib/target/include/target", "lib/target/include/target/api", "lib/target/include/target/common",
                 "lib/target/include/target/friend", "lib/target/include/target/interface", "lib/target/include/target/custom_generator", "lib/args/src", "lib/args/include/args", "lib/args/include/args/register", "toolchains/src",
                 "toolchains/include/toolchains", "targets/include/targets", "plugins/src", "plugins/include/plugins"})
    mkdirs(b + "/buildcc/" + d);
  for (auto d : {"json/include/nlohmann", "json/include/nlohmann/thirdparty/hedley", "json/include/nlohmann/detail", "json/include/nlohmann/detail/conversions", "json/include/nlohmann/detail/input",
                 "json/include/nlohmann/detail/iterators", "json/include/nlohmann/detail/meta", "json/include/nlohmann/detail/meta/call_std", "json/include/nlohmann/detail/output", "CLI11/include/CLI", "fmt/include/fmt",
                 "spdlog/include/spdlog", "spdlog/include/spdlog/cfg", "spdlog/include/spdlog/details", "spdlog/include/spdlog/fmt", "spdlog/include/spdlog/sinks", "taskflow/taskflow", "taskflow/taskflow/algorithm",
                 "taskflow/taskflow/core", "taskflow/taskflow/cuda", "taskflow/taskflow/cuda/algorithm", "taskflow/taskflow/dsl", "taskflow/taskflow/sycl", "taskflow/taskflow/sycl/algorithm", "taskflow/taskflow/utility",
                 "tiny-process-library"})
    mkdirs(b + "/third_party/" + d);
  for (auto f : {"buildcc/lib/env/src/env.cpp", "buildcc/lib/target/src/target/t.cpp", "buildcc/lib/env/include/env/env.h", "third_party/tiny-process-library/process.cpp", "third_party/tiny-process-library/process_unix.cpp",
                 "third_party/tiny-process-library/process.hpp", "third_party/fmt/include/fmt/format.h"})
    write_raw(b + "/" + f, "// f\n", ver_mtime(0));
  mkdirs(home() + "/extensions");
  for (auto f : {"libs/la/la.cpp", "libs/la/la.h", "libs/la/other.cpp", "libs/lb/sub/lb.cpp", "libs/lb/lb.h"})
    mkdirs((home() + "/" + f).substr(0, (home() + "/" + f).rfind('/'))), write_raw(home() + "/" + f, "// " + std::string(f) + "\n", ver_mtime(0));
  for (auto f : {"as", "gcc", "g++", "ar", "ld"})
    mkdirs(g_root + "/bin"), write_raw(g_root + "/bin/" + f, "tool", ver_mtime(0));
}
void put_project(const Opt &o) {
  std::string t = tdir(o);
  for (auto d : {"d", "i1", "i2", "l1", "l2"})
    mkdirs(t + "/" + d);
  mkdirs(g_root + "/" + rootdir(o));
  std::string rel = rootdir(o) + (o.sub ? "/s1/s2/" : "/");
  proj::put_file(rel + "a.cpp", "// a\n", o.src);
  proj::put_file(rel + "d/c.c", "// c\n", 0);
  proj::put_file(rel + "s.S", "// s\n", 0);
  if (o.vals == 1)
    for (auto &v : values(o, 0))
      proj::put_file(rel + v, "// many\n", 0);
  for (auto f : {"one.toml", "two.toml", "with space.toml"})
    write_raw(g_root + "/" + f, "", ver_mtime(0));
}
// the command line (or a configuration file) for o
Strs argv_of(const Opt &o) {
  Strs a{"buildexe"};
  if (o.toml) {
    std::string t;
    t += "root_dir = \"" + rootdir(o) + "\"\nbuild_dir = \"" + builddir(o) + "\"\nloglevel = \"info\"\nclean = " + (o.clean ? "true" : "false") + "\nmode = \"" + (o.mode ? "script" : "immediate") + "\"\nname = \"user\"\ntype = \"" + types[o.type] +
         "\"\nrelative_to_root = \"" + subd(o) + "\"\n";
    for (int i = 0; i < n_in; i++) {
      Strs q;
      for (auto &v : values(o, i))
        q.push_back("\"" + v + "\"");
      if (!q.empty())
        t += std::string(in_names[i]) + " = [" + join(q, ", ") + "]\n";
    }
    if (o.configs) {
      Strs q;
      for (auto &v : cfgs(o))
        q.push_back("\"" + v + "\"");
      t += "[script]\nconfigs = [" + join(q, ", ") + "]\n";
    }
    if (o.libs) {
      t += "[libs]\n";
      Strs la;
      if (o.libs & 1)
        la.push_back("\"la.cpp\"");
      if (o.libs & 2)
        la.push_back("\"la.h\"");
      if (!la.empty())
        t += "la = [" + join(la, ", ") + "]\n";
      if (o.libs & 4)
        t += "lb = [\"sub/lb.cpp\"]\n";
    }
    t += "[toolchain.host]\nid = \"gcc\"\nname = \"gcc\"\nasm_compiler = \"as\"\nc_compiler = \"gcc\"\ncpp_compiler = \"g++\"\narchiver = \"ar\"\nlinker = \"ld\"\n";
    write_raw(g_root + "/opts.toml", t, ver_mtime(0));
    a.push_back("--config");
    a.push_back("opts.toml");
    return a;
  }
  for (auto &x : Strs{"--root_dir", rootdir(o), "--build_dir", builddir(o), "--mode", o.mode ? "script" : "immediate", "--name", "user", "--type", types[o.type], "--relative_to_root", subd(o)})
    a.push_back(x);
  if (o.clean)
    a.push_back("--clean");
  for (int i = 0; i < n_in; i++)
    for (auto &v : values(o, i))
      a.push_back(std::string("--") + in_names[i] + "=" + v);
  if (o.configs) {
    a.push_back("script");
    for (auto &v : cfgs(o))
      a.push_back("--configs=" + v);
  }
  if (o.libs) {
    a.push_back("libs");
    if (o.libs & 1)
      a.push_back("--la=la.cpp");
    if (o.libs & 2)
      a.push_back("--la=la.h");
    if (o.libs & 4)
      a.push_back("--lb=sub/lb.cpp");
  }
  for (auto x : {"toolchain", "host", "--id", "gcc", "--name", "gcc", "--asm_compiler", "as", "--c_compiler", "gcc", "--cpp_compiler", "g++", "--archiver", "ar", "--linker", "ld"})
    a.push_back(x);
  return a;
}
void environment() {
  setenv("BUILDCC_HOME", home().c_str(), 1);
  setenv("PATH", (g_root + "/bin").c_str(), 1);
}
void exe_body(const Strs &args) {
  std::vector<char *> v;
  for (auto &x : args)
    v.push_back(const_cast<char *>(x.c_str()));
  v.push_back(nullptr);
  int rc = buildexe_main((int)args.size(), v.data());
  logev('O', "main returns " + std::to_string(rc));
  exit(rc);
}
bool prog(const std::string &, const Strs &a, const std::string &, int &st, std::string &out, std::string &) {
  if (a.size() == 2 && (a[1] == "-dumpversion" || a[1] == "-dumpmachine")) {
    out = a[1] == "-dumpversion" ? "13\n" : "x86_64-linux-gnu\n";
    st = 0;
    return true;
  }
  if (!a.empty() && a[0].rfind(g_root + "/", 0) == 0 && a[0].rfind(g_root + "/bin/", 0) != 0) {
    st = exists_raw(a[0]) ? 0 : 127;
    return true;
  }
  return false;
}
enum Role { QUERY, VERIFY, VERIFYRUN, LIB, USER, USERLINK, RUN, OTHER };
Role role(const Opt &o, const Cmd &c) {
  auto a = split_cmd(c.cmd);
  std::string u = g_root + "/" + builddir(o) + "/gcc/user/";
  if (a.size() == 2 && a[1].rfind("-dump", 0) == 0)
    return QUERY;
  if (!a.empty() && a[0].rfind(u, 0) == 0)
    return RUN;
  if (!a.empty() && a[0].find("/verify_host_toolchain/") != std::string::npos)
    return VERIFYRUN;
  // by output
  std::string out;
  for (size_t i = 0; i + 1 < a.size(); i++)
    if (a[i] == "-o")
      out = a[i + 1];
  if (out.empty() && a.size() > 2 && a[0] == g_root + "/bin/ar")
    out = a[2];
  if (out.find("/verify_host_toolchain/") != std::string::npos)
    return VERIFY;
  if (out.rfind(u, 0) == 0)
    return std::find(a.begin(), a.end(), "-c") != a.end() ? USER : USERLINK;
  if (out.rfind(home() + "/buildcc/_build_exe/", 0) == 0)
    return LIB;
  return OTHER;
}
std::string user_artifact(const Opt &o) {
  const char *ext[] = {"", ".a", ".so"};
  return g_root + "/" + builddir(o) + "/gcc/user/user" + ext[o.type];
}
// commands of a build of the same target through the library's interface
std::multiset<std::string> reference(Ctx &cx, const Opt &o, std::string &art) {
  custom_program = prog;
  Result r = run_once(
      cx,
      [&] {
        environment();
        ArgToolchain tc;
        auto &ai = Args::Init();
        std::string rd = rootdir(o), bd = builddir(o);
        const char *argv[] = {"script", "--root_dir", rd.c_str(), "--build_dir", bd.c_str()};
        ai.Parse(5, argv);
        Reg::Init();
        std::string b = g_root + "/bin/";
        Toolchain_gcc gcc("gcc", ToolchainExecutables(b + "as", b + "gcc", b + "g++", b + "ar", b + "ld"));
        TargetType tt[] = {TargetType::Executable, TargetType::StaticLibrary, TargetType::DynamicLibrary};
        Target_generic t("user", tt[o.type], gcc, TargetEnv(fs::path(subd(o))));
        Reg::Toolchain(ArgToolchainState(true))
            .Build(
                [&](BaseTarget &t) {
                  for (auto &v : values(o, 0))
                    t.AddSource(v);
                  for (auto &v : values(o, 1))
                    t.AddIncludeDir(v);
                  for (auto &v : values(o, 2))
                    t.AddLibDir(v);
                  for (auto &v : values(o, 3))
                    t.AddLibDep(v);
                  for (auto &v : values(o, 4))
                    t.AddPreprocessorFlag(v);
                  for (auto &v : values(o, 5))
                    t.AddCommonCompileFlag(v);
                  for (auto &v : values(o, 6))
                    t.AddAsmCompileFlag(v);
                  for (auto &v : values(o, 7))
                    t.AddCCompileFlag(v);
                  for (auto &v : values(o, 8))
                    t.AddCppCompileFlag(v);
                  for (auto &v : values(o, 9))
                    t.AddLinkFlag(v);
                  t.Build();
                },
                t);
        Reg::Run();
      },
      Cfg());
  if (!r.ok())
    cx.error("reference build fails " + o.name() + "\n" + show(r));
  std::multiset<std::string> m;
  for (auto &c : commands(r))
    m.insert(c.cmd);
  read_raw(user_artifact(o), art);
  return m;
}
void reset(const Opt &o) {
  rm_rf(g_root + "/p");
  rm_rf(g_root + "/my p");
  rm_rf(home() + "/buildcc/_build_exe");
  put_project(o);
}
Result run_exe(Ctx &cx, const Opt &o, const Cfg &cfg = Cfg()) {
  custom_program = prog;
  Strs a = argv_of(o);
  return run_once(cx, [&] { environment(); exe_body(a); }, cfg);
}
// the run command of the script
std::string check_run(const Opt &o, const std::vector<Cmd> &cm, bool ok_expected = true) {
  int runs = 0, lastother = -1;
  for (auto &c : cm) {
    if (role(o, c) == RUN) {
      runs++;
      auto a = split_cmd(c.cmd);
      Strs want{user_artifact(o)};
      for (auto &x : cfgs(o))
        want.push_back("--config"), want.push_back(x);
      if (a != want)
        return "script started as: " + c.cmd;
      if (c.begin < lastother)
        return "script started before the build finished";
      if (!c.observed)
        return "result of the script is not awaited";
    } else
      lastother = std::max(lastother, c.end);
  }
  if (runs != (o.mode == 1 && ok_expected ? 1 : 0))
    return "script started " + std::to_string(runs) + " times";
  return "";
}
std::string check_immediate(Ctx &cx, const Opt &o) {
  reset(o);
  std::string refart, art;
  auto want = reference(cx, o, refart);
  reset(o);
  Result r = run_exe(cx, o);
  cx.states(1);
  cx.transitions(1);
  std::string s = "\n" + show(r, 100);
  if (!r.ok())
    return "ends with " + r.outcome() + s;
  auto cm = commands(r);
  std::multiset<std::string> got;
  for (auto &c : cm)
    if (role(o, c) != QUERY)
      got.insert(c.cmd);
  std::string e = check_run(o, cm);
  if (!e.empty())
    return e + s;
  if (got != want)
    return "commands differ, expected\n  " + join(Strs(want.begin(), want.end()), "\n  ") + "\ngot\n  " + join(Strs(got.begin(), got.end()), "\n  ");
  read_raw(user_artifact(o), art);
  if (art != refart || art.empty())
    return "artifact differs" + s;
  return "";
}
void c22_immediate(Ctx &cx, int type, const std::vector<int> &bits) {
  put_home();
  int k = 0;
  for (int b : bits) {
    if (cx.stop())
      return;
    Opt o;
    o.type = type;
    o.bits = b;
    // spread the remaining flags over the subsets; each pair occurs
    for (int v = 0; v < (b == 1 || b == 1023 ? 8 : 1); v++) {
      int w = b == 1 || b == 1023 ? v : k++ % 8;
      o.toml = w & 1;
      o.sub = w & 2;
      o.space = w & 4;
      std::string e = check_immediate(cx, o);
      if (!e.empty())
        cx.violation("immediate mode: " + o.name() + ": " + e.substr(0, e.find('\n')), e);
    }
  }
  cx.outcome("immediate");
  rm_rf(g_root + "/p");
  rm_rf(g_root + "/my p");
}
void c22_values(Ctx &cx) {
  put_home();
  for (int type = 0; type < 3; type++)
    for (int vals = 1; vals <= 3; vals++)
      for (int toml = 0; toml < 2; toml++) {
        Opt o;
        o.type = type;
        o.vals = vals;
        o.bits = 1023;
        o.toml = toml;
        if (toml && vals == 2)
          continue; // quoting inside configuration files is the parser's business
        std::string e = check_immediate(cx, o);
        if (!e.empty())
          cx.violation("immediate mode: " + o.name() + ": " + e.substr(0, e.find('\n')), e);
      }
  cx.outcome("values");
  rm_rf(g_root + "/p");
}
using Toks = std::vector<std::string>;
// extra minus base as sequences: extra must be base with the given tokens inserted in order
std::string diff(const Toks &full, const Toks &base, const Toks &given) {
  std::multiset<std::string> b(base.begin(), base.end());
  Toks rest;
  for (auto &t : full) {
    auto it = b.find(t);
    if (it != b.end())
      b.erase(it);
    else
      rest.push_back(t);
  }
  if (!b.empty())
    return "lacks " + *b.begin();
  // order within each setting is kept; settings may come in any order
  std::multiset<std::string> r(rest.begin(), rest.end()), g(given.begin(), given.end());
  if (r != g)
    return "has '" + join(rest, " ") + "' instead of '" + join(given, " ") + "'";
  std::map<std::string, size_t> pos;
  for (size_t i = 0; i < rest.size(); i++)
    pos[rest[i]] = i;
  for (size_t i = 0; i + 1 < given.size(); i += 2)
    if (pos[given[i]] > pos[given[i + 1]])
      return "order of " + given[i] + " and " + given[i + 1];
  return "";
}
void c22_script(Ctx &cx, const std::vector<Opt> &os) {
  put_home();
  for (auto o : os) {
    if (cx.stop())
      return;
    auto bad = [&](const std::string &e, const Result &r) { cx.violation("script mode: " + o.name() + ": " + e.substr(0, e.find('\n')), e + "\n" + show(r, 150)); };
    // the same without optional inputs
    Opt ob = o;
    ob.bits = 0;
    ob.libs = 0;
    ob.configs = 0;
    reset(ob);
    Result rb = run_exe(cx, ob);
    reset(o);
    Result r = run_exe(cx, o);
    cx.states(1);
    cx.transitions(2);
    if (!rb.ok() || !r.ok()) {
      bad("ends with " + r.outcome() + ", " + rb.outcome() + " without inputs", !rb.ok() ? rb : r);
      continue;
    }
    auto collect = [&](const Opt &x, const Result &res, std::map<std::string, Toks> &comp, Toks &link, std::string &err) {
      int libend = -1, ulink = -1, verified = -1, vrun = 0;
      for (auto &c : commands(res)) {
        auto a = split_cmd(c.cmd);
        switch (role(x, c)) {
        case USER: {
          std::string in;
          for (size_t i = 0; i + 1 < a.size(); i++)
            if (a[i] == "-c")
              in = a[i + 1];
          if (comp.count(in))
            err = "source compiled twice " + in;
          comp[in] = a;
          if (verified < 0)
            err = "user target compiled before the toolchain was verified";
          break;
        }
        case USERLINK:
          if (ulink >= 0)
            err = "linked twice";
          link = a;
          ulink = c.begin;
          break;
        case LIB:
          libend = std::max(libend, c.end);
          break;
        case VERIFYRUN:
          verified = c.end;
          vrun++;
          break;
        case OTHER:
          err = "unexpected command " + c.cmd;
          break;
        default:
          break;
        }
      }
      if (vrun != 1)
        err = "toolchain verified " + std::to_string(vrun) + " times";
      if (ulink < libend)
        err = "user target linked before the library was built";
    };
    std::map<std::string, Toks> cf, cb;
    Toks lf, lb;
    std::string err;
    collect(o, r, cf, lf, err);
    collect(ob, rb, cb, lb, err);
    if (err.empty())
      err = check_run(o, commands(r));
    if (!err.empty()) {
      bad(err, r);
      continue;
    }
    // sources: exactly the given ones and those of the libraries
    std::set<std::string> want, got;
    for (auto &v : values(o, 0))
      want.insert(tdir(o) + "/" + v);
    if (o.libs & 1)
      want.insert(home() + "/libs/la/la.cpp");
    if (o.libs & 4)
      want.insert(home() + "/libs/lb/sub/lb.cpp");
    for (auto &[k, v] : cf)
      got.insert(k);
    if (got != want) {
      bad("compiled sources are " + join(Strs(got.begin(), got.end()), " "), r);
      continue;
    }
    std::string a = tdir(o) + "/a.cpp";
    auto vals = [&](std::initializer_list<int> which) {
      Toks t;
      for (int i : which)
        for (auto &v : values(o, i)) {
          if (i == 1)
            t.push_back("-I" + tdir(o) + "/" + v);
          else if (i == 2)
            t.push_back("-L" + tdir(o) + "/" + v);
          else
            t.push_back(v);
        }
      return t;
    };
    Toks g = vals({1, 4, 5, 8});
    if (o.libs & 2)
      g.push_back("-I" + home() + "/libs/la");
    std::string e = diff(cf[a], cb[a], g);
    if (!e.empty())
      bad("compile command " + e, r);
    g = vals({2, 3, 9});
    for (auto &[k, v] : cf)
      if (k != a)
        for (size_t i = 0; i + 1 < v.size(); i++)
          if (v[i] == "-o")
            g.push_back(v[i + 1]);
    if (g.size() % 2)
      ; // objects at the end are in free order
    {
      Toks pairs = vals({2, 3, 9}), objs(g.begin() + pairs.size(), g.end());
      Toks all = pairs;
      std::multiset<std::string> full(lf.begin(), lf.end());
      for (auto &x : objs)
        if (full.count(x) != 1)
          e = "does not name object " + x + " once";
      Toks l2;
      for (auto &x : lf)
        if (std::find(objs.begin(), objs.end(), x) == objs.end())
          l2.push_back(x);
      if (e.empty())
        e = diff(l2, lb, pairs);
    }
    if (!e.empty())
      bad("link command " + e, r);
    // what the script finds through the generated header
    std::string h;
    read_raw(g_root + "/" + builddir(o) + "/gcc/user/buildexe_lib_dirs.h", h);
    for (auto l : {"la", "lb"})
      if (h.find(std::string(" ") + l + " = \"" + home() + "/libs/" + l + "\";") == std::string::npos)
        bad(std::string("library directory constant of ") + l + " is missing or wrong", r);
  }
  cx.outcome("script");
  rm_rf(g_root + "/p");
  rm_rf(g_root + "/my p");
}
// the library a script is linked with: all of its sources, none of its changes missed
void c22_lib(Ctx &cx, const std::vector<std::string> &layout, int part, int parts) {
  put_home();
  std::string B = home() + "/buildcc/";
  Strs srcs, hdrs, all;
  std::set<std::string> incs;
  for (auto &f : layout)
    (f.find("/src/") != std::string::npos ? srcs : hdrs).push_back("buildcc/" + f);
  for (auto f : {"json/include/nlohmann/a.hpp", "json/include/nlohmann/detail/meta/call_std/a.hpp", "CLI11/include/CLI/a.hpp", "fmt/include/fmt/a.h", "spdlog/include/spdlog/a.h", "spdlog/include/spdlog/details/a.h", "taskflow/taskflow/a.hpp",
                 "taskflow/taskflow/core/a.hpp", "tiny-process-library/process.hpp"})
    hdrs.push_back(std::string("third_party/") + f);
  for (auto f : {"third_party/tiny-process-library/process.cpp", "third_party/tiny-process-library/process_unix.cpp"})
    srcs.push_back(f);
  rm_rf(B + "buildcc/lib/env/src/env.cpp");
  rm_rf(B + "buildcc/lib/target/src/target/t.cpp");
  std::string all_inc;
  for (auto &h : hdrs) {
    size_t i = h.rfind("/include/");
    std::string rel = i != std::string::npos ? h.substr(i + 9) : h.find("/taskflow/") != std::string::npos ? h.substr(h.find("/taskflow/") + 10) : h.substr(h.rfind('/') + 1);
    all_inc += "@inc " + rel + "\n";
  }
  auto text = [&](const std::string &f) { return f.size() > 4 && f.compare(f.size() - 4, 4, ".cpp") == 0 && f.find("third_party") == std::string::npos ? all_inc : "// " + f + "\n"; };
  auto put1 = [&](const std::string &f, int v) {
    mkdirs((B + f).substr(0, (B + f).rfind('/')));
    proj::put_file("home/buildcc/" + f, text(f), v);
  };
  for (auto *v : {&srcs, &hdrs})
    for (auto &f : *v)
      put1(f, 0), all.push_back(f);
  Opt o;
  o.mode = 1;
  o.bits = 0;
  reset(o);
  proj::put_file(rootdir(o) + "/a.cpp", all_inc, 0);
  auto run = [&] { custom_program = prog; Strs a = argv_of(o); return run_once(cx, [&] { environment(); exe_body(a); }, Cfg()); };
  Result r = run();
  cx.states(1);
  cx.transitions(1);
  if (!r.ok())
    return cx.violation("script with the whole library cannot be built: " + r.outcome(), show(r, 150));
  std::map<std::string, int> n;
  for (auto &c : commands(r))
    if (role(o, c) == LIB) {
      auto a = split_cmd(c.cmd);
      for (size_t i = 0; i + 1 < a.size(); i++)
        if (a[i] == "-c")
          n[a[i + 1]]++;
    }
  for (auto &f : srcs)
    if (n[B + f] != 1)
      cx.violation("library source " + f + " compiled " + std::to_string(n[B + f]) + " times", show(r, 150));
  n.clear();
  mkdirs(g_root + "/p/b");
  Tree t0 = snapshot(g_root + "/p/b"), h0 = snapshot(home() + "/buildcc/_build_exe");
  for (size_t k = part; k < all.size(); k += parts) {
    if (cx.stop())
      return;
    auto &f = all[k];
    put1(f, 1);
    restore(g_root + "/p/b", {});
    restore(home() + "/buildcc/_build_exe", {});
    Result rc = run();
    std::string want, got;
    read_raw(user_artifact(o), want);
    restore(g_root + "/p/b", t0);
    restore(home() + "/buildcc/_build_exe", h0);
    Result ri = run();
    read_raw(user_artifact(o), got);
    cx.states(1);
    cx.transitions(2);
    if (!rc.ok() || !ri.ok())
      cx.violation("script cannot be built after a change of the library: " + f, show(rc.ok() ? ri : rc, 100));
    else if (want != got)
      cx.violation("a change of the library is not built: " + f, show(ri, 100));
    put1(f, 0);
  }
  cx.outcome("library");
  rm_rf(g_root + "/p");
}
// each command of a run fails once
void c22_fail(Ctx &cx, const Opt &o) {
  put_home();
  reset(o);
  Result ref = run_exe(cx, o);
  std::string refart;
  read_raw(user_artifact(o), refart);
  if (!ref.ok())
    return cx.violation("run fails: " + o.name(), show(ref));
  Cfg cfg;
  cfg.en[K_FAIL] = true;
  cfg.fail_modes = 1;
  Budget b;
  b.total = 1;
  custom_program = prog;
  Strs a = argv_of(o);
  explore(cx, [&] { reset(o); argv_of(o); }, [&] { environment(); exe_body(a); }, cfg, b, [&](const Result &r) {
    cx.states(1);
    cx.transitions(1);
    auto cm = commands(r);
    const Cmd *f = nullptr;
    for (auto &c : cm)
      if (c.end >= 0 && c.status != 0 && !f)
        f = &c;
    std::string e;
    if (!f) {
      if (!r.ok())
        e = "run without failing command ends with " + r.outcome();
      else
        e = check_run(o, cm);
    } else {
      Role ro = role(o, *f);
      cx.outcome("failing role " + std::to_string(ro));
      if (!r.exited || r.code == 0 || r.deadlock())
        e = "run with a failing command ends with " + r.outcome() + ": " + canon(f->cmd).substr(0, 60);
      else if (ro != RUN && check_run(o, cm, false) != "")
        e = "script runs although building failed";
      else if (ro == QUERY || ro == VERIFY || ro == VERIFYRUN)
        for (auto &c : cm)
          if (role(o, c) == USER || role(o, c) == USERLINK || role(o, c) == LIB)
            e = "target is built although the toolchain is unusable";
    }
    if (e.empty() && f) {
      // the next run repairs everything
      Result r2 = run_exe(cx, o);
      std::string art;
      read_raw(user_artifact(o), art);
      cx.transitions(1);
      if (!r2.ok() || art != refart)
        e = "the next run does not complete the work: " + r2.outcome();
      else
        e = check_run(o, commands(r2));
    }
    if (!e.empty())
      cx.violation("failing command: " + o.name() + ": " + e, show(r, 150));
    return true;
  });
  rm_rf(g_root + "/p");
  rm_rf(g_root + "/my p");
}
// cleaning
void c22_clean(Ctx &cx) {
  put_home();
  struct Place {
    std::string root, build;
  };
  // build directory inside the root, beside it, nested, with dots
  std::vector<Place> ps{{"p/r", "p/b"}, {"p/r", "p/r/_b"}, {"p/r", "p/x/y/b"}, {"p/r", "p/r/../b"}, {"p/r", "p/r/d/_b"}, {"p/r", "p/./b"}};
  for (auto &pl : ps)
    for (int mode = 0; mode < 2; mode++)
      for (int clean = 0; clean < 2; clean++)
        for (int toml = 0; toml < 2; toml++)
          for (int st = 0; st < 4; st++) { // build directory absent, with junk, built before, built before and junk
            if (cx.stop())
              return;
            Opt o;
            o.mode = mode;
            o.clean = clean;
            o.toml = toml;
            rm_rf(g_root + "/p");
            rm_rf(home() + "/buildcc/_build_exe");
            put_project(o);
            auto args = [&](const Opt &x) {
              Strs a = argv_of(x);
              for (auto &s : a)
                if (s == builddir(x))
                  s = pl.build;
              if (x.toml) {
                std::string t;
                read_raw(g_root + "/opts.toml", t);
                t.replace(t.find("\"p/b\""), 5, "\"" + pl.build + "\"");
                write_raw(g_root + "/opts.toml", t, ver_mtime(0));
              }
              return a;
            };
            custom_program = prog;
            Opt o0 = o;
            o0.clean = false;
            std::string B = fs::path(g_root + "/" + pl.build).lexically_normal().string();
            if (st & 2) {
              Strs a0 = args(o0);
              Result r0 = run_once(cx, [&] { environment(); exe_body(a0); }, Cfg());
              if (!r0.ok())
                return cx.violation("run fails: " + o.name() + " " + pl.build, show(r0));
            }
            mkdirs(g_root + "/p/keep");
            write_raw(g_root + "/p/keep/k.txt", "keep", ver_mtime(0));
            write_raw(g_root + "/p/r/keep.txt", "keep", ver_mtime(0));
            if (st & 1) {
              mkdirs(B + "/junk/deep");
              write_raw(B + "/junk/deep/j.txt", "junk", ver_mtime(0));
              write_raw(B + "/j.txt", "junk", ver_mtime(0));
              syscall(SYS_symlinkat, (g_root + "/p/keep").c_str(), AT_FDCWD, (B + "/junk/link").c_str());
            }
            Strs a = args(o);
            Result r = run_once(cx, [&] { environment(); exe_body(a); }, Cfg());
            cx.states(1);
            cx.transitions(1);
            std::string w = o.name() + " " + pl.build + " state " + std::to_string(st);
            auto bad = [&](const std::string &e) { cx.violation("cleaning: " + w + ": " + e, show(r, 200)); };
            if (!r.ok()) {
              bad("run ends with " + r.outcome());
              continue;
            }
            for (auto k : {"/p/keep/k.txt", "/p/r/keep.txt", "/p/r/a.cpp", "/p/r/d/c.c", "/home/libs/la/la.cpp", "/home/buildcc/buildcc/lib/env/src/env.cpp", "/one.toml"})
              if (!exists_raw(g_root + k))
                bad(std::string("file outside the build directory removed: ") + k);
            if ((st & 1) && exists_raw(B + "/junk/deep/j.txt") == (bool)clean)
              bad(clean ? "build directory not cleaned" : "build directory cleaned without being asked");
            if ((st & 1) && exists_raw(B + "/j.txt") == (bool)clean)
              bad(clean ? "build directory not cleaned" : "build directory cleaned without being asked");
            auto cm = commands(r);
            int n = 0;
            for (auto &c : cm) {
              auto v = split_cmd(c.cmd);
              n += std::find(v.begin(), v.end(), g_root + "/p/r/a.cpp") != v.end();
            }
            int want = (st & 2) && !clean ? 0 : 1;
            if (n != want)
              bad("user source compiled " + std::to_string(n) + " times");
            // nothing is removed after the first command, nothing outside the build directory at any time
            bool cmd = false;
            for (auto &e : r.ev) {
              cmd |= e.type == 'B';
              if (e.type == 'M' && (e.s.rfind("unlink", 0) == 0 || e.s.rfind("rmdir", 0) == 0)) {
                std::string p = fs::path(e.s.substr(e.s.find(' ') + 1)).lexically_normal().string();
                if (p.rfind(B, 0) != 0 && p.rfind("/R" + B.substr(g_root.size()), 0) != 0)
                  bad("removes " + e.s);
                else if (cmd && p.find("/junk") != std::string::npos)
                  bad("cleans after building started");
              }
            }
            cx.outcome(clean ? "cleaned" : "kept");
          }
  rm_rf(g_root + "/p");
}
// command lines and environments that must be refused
void c22_bad(Ctx &cx) {
  put_home();
  struct B {
    std::string name;
    std::function<void(Strs &)> change;
    std::function<void()> env;
  };
  std::vector<B> bs;
  for (auto opt : {"--root_dir", "--build_dir", "--mode", "--name", "--type", "--relative_to_root"}) {
    std::string n = opt;
    bs.push_back({"without " + n, [n](Strs &a) { for (size_t i = 0; i < a.size(); i++) if (a[i] == n) { a.erase(a.begin() + i, a.begin() + i + 2); return; } }, nullptr});
  }
  auto val = [](const std::string &n, const std::string &v) { return [n, v](Strs &a) { for (size_t i = 0; i + 1 < a.size(); i++) if (a[i] == n) { a[i + 1] = v; return; } }; };
  bs.push_back({"unknown mode", val("--mode", "later"), nullptr});
  bs.push_back({"unknown type", val("--type", "object"), nullptr});
  bs.push_back({"unknown toolchain id", val("--id", "icc"), nullptr});
  bs.push_back({"unsupported toolchain id", val("--id", "undefined"), nullptr});
  bs.push_back({"tool not found", val("--linker", "nold"), nullptr});
  bs.push_back({"unknown option", [](Strs &a) { a.insert(a.begin() + 1, "--nonsense"); }, nullptr});
  bs.push_back({"missing config file", [](Strs &a) { a.insert(a.begin() + 1, "--config=none.toml"); }, nullptr});
  bs.push_back({"no BUILDCC_HOME", [](Strs &) {}, [] { unsetenv("BUILDCC_HOME"); }});
  bs.push_back({"missing BUILDCC_HOME", [](Strs &) {}, [] { setenv("BUILDCC_HOME", (g_root + "/nohome").c_str(), 1); }});
  for (auto d : {"buildcc", "libs", "extensions"}) {
    std::string x = d;
    bs.push_back({"BUILDCC_HOME without " + x, [](Strs &) {}, [x] {
                    Internal in;
                    std::string h = g_root + "/home2";
                    rm_rf(h);
                    for (std::string y : {"buildcc", "libs", "extensions"})
                      if (y != x)
                        mkdirs(h + "/" + y);
                    setenv("BUILDCC_HOME", h.c_str(), 1);
                  }});
  }
  for (int mode = 0; mode < 2; mode++)
    for (int clean = 0; clean < 2; clean++)
      for (auto &b : bs) {
        Opt o;
        o.mode = mode;
        o.clean = clean;
        reset(o);
        mkdirs(g_root + "/p/b");
        write_raw(g_root + "/p/b/j.txt", "junk", ver_mtime(0));
        Strs a = argv_of(o);
        b.change(a);
        custom_program = prog;
        Result r = run_once(cx, [&] { environment(); if (b.env) b.env(); exe_body(a); }, Cfg());
        cx.states(1);
        cx.transitions(1);
        std::string w = b.name + (mode ? " script" : " immediate") + (clean ? " clean" : "");
        if (!r.exited || r.code == 0)
          cx.violation("bad start accepted: " + w, show(r));
        bool tool = b.name.find("tool") != std::string::npos && b.name != "unknown toolchain id";
        if (!commands(r).empty())
          cx.violation("commands run although the start is refused: " + w, show(r));
        if (!tool && !exists_raw(g_root + "/p/b/j.txt"))
          cx.violation("build directory cleaned although the start is refused: " + w, show(r));
        cx.outcome("refused");
      }
  rm_rf(g_root + "/home2");
  rm_rf(g_root + "/p");
}
// histories of runs: every run leaves what a first run would, an unchanged one compiles nothing
void c22_hist(Ctx &cx, int mode, int depth, int first) {
  put_home();
  struct St {
    Opt o;
    int extra = 0;  // an additional library folder
    int core = 0;   // version of a source of the library
    int failed = 0;
    bool built = false;
  };
  auto files = [&](const St &s) {
    put_project(s.o);
    rm_rf(home() + "/libs/lc");
    if (s.extra)
      mkdirs(home() + "/libs/lc");
    proj::put_file("home/buildcc/buildcc/lib/env/src/env.cpp", "// f\n", s.core);
  };
  std::map<std::string, std::string> clean; // artifact of a first run
  auto key = [](const St &s) { return std::to_string(s.o.mode) + std::to_string(s.o.src) + std::to_string(s.o.flag) + std::to_string(s.o.libs) + std::to_string(s.extra) + std::to_string(s.core); };
  auto ref = [&](const St &s) {
    auto it = clean.find(key(s));
    if (it != clean.end())
      return it->second;
    Tree t = snapshot(g_root + "/p/b", false), h = snapshot(home() + "/buildcc/_build_exe", false);
    restore(g_root + "/p/b", {});
    restore(home() + "/buildcc/_build_exe", {});
    files(s);
    Result r = run_exe(cx, s.o);
    std::string a;
    read_raw(user_artifact(s.o), a);
    if (!r.ok())
      cx.violation("run fails: " + s.o.name(), show(r));
    mkdirs(g_root + "/p/b");
    mkdirs(home() + "/buildcc/_build_exe");
    restore(g_root + "/p/b", t);
    restore(home() + "/buildcc/_build_exe", h);
    return clean[key(s)] = a;
  };
  mkdirs(g_root + "/p/b");
  mkdirs(home() + "/buildcc/_build_exe");
  std::function<void(const St &, const Tree &, const Tree &, int, const std::string &)> rec = [&](const St &st, const Tree &t0, const Tree &h0, int left, const std::string &path) {
    for (int ch = 0; ch < (mode ? 6 : 4); ch++)
      for (int fail = 0; fail < 3; fail++) {
        if (cx.stop())
          return;
        if (left == depth && ch * 3 + fail != first)
          continue;
        St s = st;
        if (ch == 1)
          s.o.src ^= 1;
        if (ch == 2)
          s.o.flag ^= 1;
        if (ch == 3)
          s.o.mode ^= 1;
        if (ch == 4)
          s.extra ^= 1;
        if (ch == 5)
          s.core ^= 1;
        std::string want = ref(s), art;
        restore(g_root + "/p/b", t0);
        restore(home() + "/buildcc/_build_exe", h0);
        files(s);
        // times of files the tool writes are those of the clock: rewriting is visible
        Cfg cfg;
        cfg.real_mtime = true;
        always_fail = [&](const std::string &c) { return fail == 1 ? c.find("/r/a.cpp") != std::string::npos : fail == 2 ? c.find("/gcc/user/user") != std::string::npos && c.find(" -o ") != std::string::npos && c.find(" -c ") == std::string::npos : false; };
        Result r = run_exe(cx, s.o, cfg);
        always_fail = nullptr;
        cx.states(1);
        cx.transitions(1);
        auto cm = commands(r);
        bool f = false;
        int work = 0;
        for (auto &c : cm) {
          f |= c.end >= 0 && c.status != 0;
          Role ro = role(s.o, c);
          work += ro == USER || ro == USERLINK || ro == LIB;
        }
        read_raw(user_artifact(s.o), art);
        std::string e, p = path + "/" + std::to_string(ch) + "f" + std::to_string(fail);
        if (f == r.ok())
          e = "result " + r.outcome();
        else if (r.ok() && art != want)
          e = "artifact is stale";
        else if (r.ok() && ch == 0 && st.built && !st.failed && work)
          e = "an unchanged run builds again";
        else
          e = check_run(s.o, cm, r.ok());
        if (!e.empty()) {
          cx.violation("history " + std::string(mode ? "script" : "immediate") + p + ": " + e, show(r, 200));
          return;
        }
        s.failed = f;
        s.built = true;
        if (left > 1) {
          // keep the times of the clock
          Tree t1 = snapshot(g_root + "/p/b", false), h1 = snapshot(home() + "/buildcc/_build_exe", false);
          rec(s, t1, h1, left - 1, p);
        }
      }
  };
  St s0;
  s0.o.mode = mode;
  s0.o.bits = 1 | 16;
  rec(s0, {}, {}, depth, "");
  rm_rf(g_root + "/p");
}
} // namespace

namespace mc {
std::vector<Unit> make_units(const std::string &, bool th, const std::string &) {
  std::vector<Unit> u;
  auto add = [&](const std::string &n, const std::function<void(Ctx &)> &f) { u.push_back({n, f}); };
  for (int t = 0; t < 3; t++)
    for (int part = 0; part < 4; part++) {
      std::vector<int> bs;
      for (int b = 0; b < 1024; b++)
        if (b % 4 == part && (th || __builtin_popcount(b) <= 3 || __builtin_popcount(b) >= 9))
          bs.push_back(b);
      add(std::string("immediate.") + types[t] + "." + std::to_string(part), [t, bs](Ctx &cx) { c22_immediate(cx, t, bs); });
    }
  std::vector<Opt> so;
  for (int b = 0; b < 1024; b++)
    if (__builtin_popcount(b) <= (th ? 10 : 2) || __builtin_popcount(b) >= 9) {
      Opt o;
      o.mode = 1;
      o.bits = b;
      o.configs = b % 4;
      o.libs = b / 3 % 8;
      o.toml = b & 32;
      o.sub = b & 4;
      o.space = b % 5 == 0;
      so.push_back(o);
    }
  for (int c = 0; c < 5; c++)
    for (int l = 0; l < 8; l++)
      for (int w = 0; w < 8; w++) {
        Opt o;
        o.mode = 1;
        o.configs = c;
        o.libs = l;
        o.toml = w & 1;
        o.sub = w & 2;
        o.space = w & 4;
        so.push_back(o);
      }
  for (int i = 0; i < 8; i++) {
    std::vector<Opt> part;
    for (size_t k = i; k < so.size(); k += 8)
      part.push_back(so[k]);
    add("script." + std::to_string(i), [part](Ctx &cx) { c22_script(cx, part); });
  }
  for (int m = 0; m < 2; m++)
    for (int t = 0; t < (m ? 1 : 3); t++)
      for (int w = 0; w < 4; w++) {
        Opt o;
        o.mode = m;
        o.type = t;
        o.bits = 1023;
        o.configs = m ? w : 0;
        o.toml = w & 1;
        o.space = w & 2;
        add("fail." + std::to_string(m) + types[t] + std::to_string(w), [o](Ctx &cx) { c22_fail(cx, o); });
      }
  Strs layout;
  const char *repo = getenv("MC_REPO");
  std::string base = std::string(repo ? repo : "/repo") + "/buildcc";
  for (auto it = fs::recursive_directory_iterator(base); it != fs::recursive_directory_iterator(); ++it) {
    std::string n = it->path().filename().string(), rel = it->path().string().substr(base.size() + 1);
    if (it->is_directory()) {
      if (n == "test" || n == "tests" || n == "mock" || n == "_build")
        it.disable_recursion_pending();
    } else if ((rel.find("/src/") != std::string::npos && it->path().extension() == ".cpp") || (rel.find("/include/") != std::string::npos && it->path().extension() == ".h"))
      layout.push_back(rel);
  }
  std::sort(layout.begin(), layout.end());
  for (int i = 0; i < 8; i++)
    add("library." + std::to_string(i), [layout, i](Ctx &cx) { c22_lib(cx, layout, i, 8); });
  add("values", c22_values);
  add("clean", c22_clean);
  add("bad", c22_bad);
  for (int f = 0; f < 12; f++)
    add("hist.immediate." + std::to_string(f), [th, f](Ctx &cx) { c22_hist(cx, 0, th ? 4 : 3, f); });
  for (int f = 0; f < 18; f++)
    add("hist.script." + std::to_string(f), [th, f](Ctx &cx) { c22_hist(cx, 1, th ? 4 : 3, f); });
  return u;
}
} // namespace mc

#include <algorithm>
#include "proj.h"
#include "bcc.h"
#include <unistd.h>

using namespace buildcc;
using namespace mc;

namespace proj {

int Scn::dim(const std::string &n) const {
  for (size_t i = 0; i < dims.size(); i++)
    if (dims[i].name == n)
      return (int)i;
  fprintf(stderr, "no dim %s\n", n.c_str());
  abort();
}
int64_t ver_mtime(int v) {
  // edited, newer or older than 0 by a power of 2 or 10
  if (v >= 100) {
    int64_t d = 1, base = v < 250 ? 2 : 10;
    for (int k = (v - (v < 250 ? 100 : 250)) / 2; k > 0; k--)
      d *= base;
    return 1700000000000000100ll + (v % 2 ? -d : d);
  }
  switch (v) {
  case 0:
    return 1700000000000000100ll;
  case 1:
    return 1700000000000000101ll;
  case 2:
    return 1500000000000000000ll;
  default:
    return 1700000777000000000ll;
  }
}
void put_file(const std::string &rel, const std::string &c, int ver) {
  std::string p = g_root + "/" + rel, old;
  std::string content = c + ((ver == 1 || ver == 2 || ver >= 100) ? "edited " + std::to_string(ver) + "\n" : "");
  mkdirs(p.substr(0, p.rfind('/')));
  write_raw(p, content, ver_mtime(ver));
}
void del_file(const std::string &rel) {
  std::string p = g_root + "/" + rel;
  Internal in;
  ::unlink(p.c_str());
}
std::map<std::string, std::string> artifacts(const Scn &s, const V &v) {
  std::map<std::string, std::string> m;
  for (auto &a : s.outs ? s.outs(v) : s.artifacts) {
    std::string c;
    m[a] = read_raw(g_root + "/" + a, c) ? c : "<missing>";
  }
  return m;
}
std::string vstr(const Scn &s, const V &v) {
  std::string r;
  for (size_t i = 0; i < v.size(); i++)
    if (v[i] != s.base[i])
      r += (r.empty() ? "" : ",") + s.dims[i].name + "=" + std::to_string(v[i]);
  return "{" + r + "}";
}

void args_init(ArgToolchain &tc) {
  auto &ai = Args::Init();
  ai.AddToolchain("gcc", "gcc", tc);
  const char *argv[] = {"script", "--root_dir", "p", "--build_dir", "p/_b", "toolchain", "gcc", "--build", "--test"};
  ai.Parse(9, argv);
  Reg::Init();
}
static std::vector<std::string> flagset(const std::string &n, int v) {
  switch (v) {
  case 0:
    return {};
  case 1:
    return {"-D" + n + "X"};
  case 2:
    return {"-D" + n + "X", "-D" + n + "Y"};
  default:
    return {"-D" + n + "Y", "-D" + n + "X"};
  }
}

// ---------------------------------------------------------------- scenario A
// one executable: sources, headers, pch, flags, compile dependencies
// mixed: which of the sources there are changes too (one language or several)
static Scn make_A(TargetType type, bool mixed = false) {
  Scn s;
  s.name = mixed ? "X" : type == TargetType::Executable ? "A" : type == TargetType::StaticLibrary ? "AS" : "AD";
  auto D = [&](const std::string &n, int k, char c, const std::string &w = "", int base = 0) {
    s.dims.push_back({n, k, c, w});
    s.base.push_back(base);
  };
  D("a", 4, 's', "a.cpp");
  D("b", 3, 's', "b.c");
  D("s", 3, 's', "s.S");
  D("csrc", 2, 's', "d/c.cpp");
  D("swap", 2, 'S', "");        // b.c replaced by d/b.c (same base name)
  D("hdr", 4, 'c');
  D("hdr2", 3, 'c');
  D("inc", 4, 'c');
  D("pch", 5, 'c', "", 1);
  D("pchc", 3, 'c');
  D("pchc2", 3, 'c');
  D("dep", 4, 'c');
  D("dep2", 3, 'c');
  D("depset", 2, 'c');
  D("fpre", 4, 'c');
  D("fcom", 4, 'c');
  D("fpchc", 4, 'c');
  D("fpcho", 4, 'c');
  D("fasm", 4, 'c');
  D("fc", 4, 'c');
  D("fcpp", 4, 'c');
  D("flink", 4, 'l');
  if (mixed) {
    D("typ", 3, 'l'); // what is linked; a dynamic library has a flag of its own
    D("mix", 7, 'm');
  }
  auto dims = s.dims;
  auto ix = [dims](const char *n) {
    for (size_t i = 0; i < dims.size(); i++)
      if (dims[i].name == n)
        return (int)i;
    abort();
  };
  s.apply = [ix](const V &v) {
    auto g = [&](const char *n) { return v[ix(n)]; };
    put_file("p/a.cpp", "// a\n@inc h.h\n@use %/p/dep.txt\n", g("a"));
    put_file("p/b.c", "// b\n@inc h.h\n@inc h2.h\n@use %/p/dep2.txt\n", g("b"));
    put_file("p/d/b.c", "// other b\n@inc h.h\n", 0);
    put_file("p/s.S", "; s\n@inc h2.h\n", g("s"));
    put_file("p/d/c.cpp", "// c\n@inc h.h\n", 0);
    put_file("p/i1/h.h", "// h in i1\n", g("hdr"));
    put_file("p/i1/h2.h", "// h2\n", g("hdr2"));
    put_file("p/i2/h.h", "// h in i2\n", 0);
    put_file("p/i2/h2.h", "// h2 in i2\n", 0);
    put_file("p/pch.h", "// pch\n@inc h.h\n", g("pchc"));
    put_file("p/pcx.h", "// pcx\n", 0);
    put_file("p/pch2.h", "// pch2\n@use %/p/dep2.txt\n", g("pchc2"));
    put_file("p/dep.txt", "// dep\n", g("dep"));
    put_file("p/dep2.txt", "// dep2\n", g("dep2"));
  };
  static const int mixes[] = {2, 1, 4, 3, 5, 6, 7};
  if (mixed)
    s.lang = [ix](const V &v) { return ((mixes[v[ix("mix")]] & 1) || v[ix("csrc")]) + 2 * (v[ix("typ")] == 2); };
  s.script = [ix, base_type = type, mixed](const V &v) {
    auto g = [&](const char *n) { return v[ix(n)]; };
    int have = mixed ? mixes[g("mix")] : 7;
    ArgToolchain tc;
    args_init(tc);
    Toolchain_gcc gcc;
    std::unique_ptr<BaseTarget> t;
    TargetType type = base_type;
    if (mixed)
      type = g("typ") == 0 ? TargetType::Executable : g("typ") == 1 ? TargetType::StaticLibrary : TargetType::DynamicLibrary;
    if (type == TargetType::Executable)
      t = std::make_unique<ExecutableTarget_gcc>("app", gcc, "");
    else if (type == TargetType::StaticLibrary)
      t = std::make_unique<StaticTarget_gcc>("app", gcc, "");
    else
      t = std::make_unique<DynamicTarget_gcc>("app", gcc, "");
    Reg::Toolchain(tc.state).Build(
        [&](BaseTarget &t) {
          if (have & 1)
            t.AddSource("a.cpp");
          if (have & 2) {
            if (g("swap"))
              t.AddSource("b.c", "d");
            else
              t.AddSource("b.c");
          }
          if (have & 4)
            t.AddSource("s.S");
          if (g("csrc"))
            t.AddSource("c.cpp", "d");
          t.AddHeader("h.h", "i1");
          t.AddHeader("h2.h", "i1");
          t.AddHeader("h.h", "i2");
          int i = g("inc");
          if (i == 0)
            t.AddIncludeDir("i1");
          if (i == 1)
            t.AddIncludeDir("i2");
          if (i == 2)
            t.AddIncludeDir("i1"), t.AddIncludeDir("i2");
          if (i == 3)
            t.AddIncludeDir("i2"), t.AddIncludeDir("i1");
          int pc = g("pch");
          if (pc == 1 || pc == 2)
            t.AddPch("pch.h");
          if (pc == 2 || pc == 3)
            t.AddPch("pch2.h");
          if (pc == 4)
            t.AddPch("pcx.h");
          t.AddCompileDependency("dep.txt");
          t.AddCompileDependency("dep2.txt");
          if (g("depset"))
            t.AddCompileDependency("i2/h2.h");
          for (auto &f : flagset("pre", g("fpre")))
            t.AddPreprocessorFlag(f);
          for (auto &f : flagset("com", g("fcom")))
            t.AddCommonCompileFlag(f);
          for (auto &f : flagset("pchc", g("fpchc")))
            t.AddPchCompileFlag(f);
          for (auto &f : flagset("pcho", g("fpcho")))
            t.AddPchObjectFlag(f);
          for (auto &f : flagset("asm", g("fasm")))
            t.AddAsmCompileFlag(f);
          for (auto &f : flagset("c", g("fc")))
            t.AddCCompileFlag(f);
          for (auto &f : flagset("cpp", g("fcpp")))
            t.AddCppCompileFlag(f);
          for (auto &f : flagset("link", g("flink")))
            t.AddLinkFlag(f);
          t.Build();
        },
        *t);
    Reg::Run();
  };
  std::string ext = type == TargetType::Executable ? "" : type == TargetType::StaticLibrary ? ".a" : ".so";
  s.artifacts = {"p/_b/gcc/app/app" + ext};
  if (mixed)
    s.outs = [ix](const V &v) {
      static const char *const exts[] = {"", ".a", ".so"};
      return std::vector<std::string>{std::string("p/_b/gcc/app/app") + exts[v[ix("typ")]]};
    };
  return s;
}

// ---------------------------------------------------------------- scenario L
// executable linking two library targets, external libraries, link dependencies
// with or without link dependencies
static Scn make_L(bool ld) {
  Scn s;
  s.name = ld ? "L" : "L0";
  auto D = [&](const std::string &n, int k, char c, const std::string &w = "", int base = 0) {
    s.dims.push_back({n, k, c, w});
    s.base.push_back(base);
  };
  D("a", 3, 's', "a.cpp");
  D("libs", 5, 'l');
  D("foo", 3, 'f', "foo.cpp");
  D("foo2", 2, 'f', "foo2.cpp");
  D("fflag", 3, 'F');
  D("fhdr", 3, 'F');
  D("bar", 3, 'r', "bar.cpp");
  D("ext", 3, 'l');
  D("extc", ld ? 3 : 1, 'l');
  D("ldir", 4, 'l');
  D("ldep", ld ? 3 : 1, 'l');
  D("ldep2", ld ? 3 : 1, 'l');
  D("flink", 4, 'l');
  D("fcpp", 3, 'c');
  auto dims = s.dims;
  auto ix = [dims](const char *n) {
    for (size_t i = 0; i < dims.size(); i++)
      if (dims[i].name == n)
        return (int)i;
    abort();
  };
  s.apply = [ix](const V &v) {
    auto g = [&](const char *n) { return v[ix(n)]; };
    put_file("p/a.cpp", "// a\n", g("a"));
    put_file("p/lib/foo.cpp", "// foo\n@inc f.h\n", g("foo"));
    put_file("p/lib/foo2.cpp", "// foo2\n", 0);
    put_file("p/lib/f.h", "// f\n", g("fhdr"));
    put_file("p/lib/bar.cpp", "// bar\n", g("bar"));
    put_file("p/l1/libext.a", "ext in l1\n", g("extc"));
    put_file("p/l2/libext.a", "ext in l2\n", 0);
    put_file("p/l1/libext2.a", "ext2\n", 0);
    put_file("p/l2/libext2.a", "ext2 in l2\n", 0);
    put_file("p/k.ld", "script\n", g("ldep"));
    put_file("p/k2.ld", "script2\n", g("ldep2"));
  };
  s.script = [ix, ld](const V &v) {
    auto g = [&](const char *n) { return v[ix(n)]; };
    ArgToolchain tc;
    args_init(tc);
    Toolchain_gcc gcc;
    StaticTarget_gcc foo("foo", gcc, "lib");
    DynamicTarget_gcc bar("bar", gcc, "lib");
    ExecutableTarget_gcc app("app", gcc, "");
    auto r = Reg::Toolchain(tc.state);
    r.Build(
        [&](BaseTarget &t) {
          t.AddSource("foo.cpp");
          if (g("foo2"))
            t.AddSource("foo2.cpp");
          t.AddIncludeDir("", true);
          for (auto &f : flagset("f", g("fflag")))
            t.AddCppCompileFlag(f);
          t.Build();
        },
        foo);
    r.Build(
        [&](BaseTarget &t) {
          t.AddSource("bar.cpp");
          t.Build();
        },
        bar);
    int l = g("libs");
    r.Build(
        [&](BaseTarget &t) {
          t.AddSource("a.cpp");
          if (l == 0 || l == 1)
            t.AddLibDep(foo);
          if (l >= 1 && l <= 3)
            t.AddLibDep(bar);
          if (l == 2)
            t.AddLibDep(foo);
          int d = g("ldir");
          if (d == 0 || d == 1)
            t.AddLibDir("l1");
          if (d >= 1)
            t.AddLibDir("l2");
          if (d == 2)
            t.AddLibDir("l1");
          int e = g("ext");
          if (e == 2)
            t.AddLibDep("-lext2");
          t.AddLibDep("-lext");
          if (e == 1)
            t.AddLibDep("-lext2");
          if (ld) {
            t.AddLinkFlag(fmt::format("-T{}", (t.GetTargetRootDir() / "k.ld").string()));
            t.AddLinkFlag(fmt::format("-T{}", (t.GetTargetRootDir() / "k2.ld").string()));
            t.AddLinkDependency("k.ld");
            t.AddLinkDependency("k2.ld");
            t.AddLinkDependency("l1/libext.a");
          }
          for (auto &f : flagset("link", g("flink")))
            t.AddLinkFlag(f);
          for (auto &f : flagset("cpp", g("fcpp")))
            t.AddCppCompileFlag(f);
          t.Build();
        },
        app);
    if (l == 0 || l == 1 || l == 2)
      r.Dep(app, foo);
    if (l >= 1 && l <= 3)
      r.Dep(app, bar);
    Reg::Run();
  };
  s.artifacts = {"p/_b/gcc/app/app", "p/_b/gcc/foo/foo.a", "p/_b/gcc/bar/bar.so"};
  return s;
}


// ---------------------------------------------------------------- scenario B
// one executable with long lists of everything; changes at the first, a middle
// and the last entry
static Scn make_B() {
  Scn s;
  s.name = "B";
  auto D = [&](const std::string &n, int k, char c, const std::string &w = "") {
    s.dims.push_back({n, k, c, w});
    s.base.push_back(0);
  };
  constexpr int NS = 18, N = 9;
  static const char *se[] = {".cpp", ".c", ".S"};
  auto src = [](int i) { return "s" + std::to_string(i) + se[i % 3]; };
  for (int i : {0, 8, 17})
    D("s" + std::to_string(i), 3, 's', src(i)); // base, edited, absent
  for (const char *n : {"hdr", "pch", "dep"})
    D(n, 4, 'c');
  D("ldep", 4, 'l');
  static const char *fl[] = {"pre", "com", "pchc", "pcho", "asm", "c", "cpp", "link"};
  for (const char *n : fl)
    D(std::string("f") + n, 4, std::string(n) == "link" ? 'l' : 'c');
  D("inc", 3, 'c');
  D("ldir", 3, 'l');
  D("ext", 3, 'l');
  auto dims = s.dims;
  auto ix = [dims](const std::string &n) {
    for (size_t i = 0; i < dims.size(); i++)
      if (dims[i].name == n)
        return (int)i;
    abort();
  };
  // value 1, 2, 3: the first, middle, last entry
  auto at = [](int v, int i) { return (v == 1 && i == 0) || (v == 2 && i == N / 2) || (v == 3 && i == N - 1) ? 1 : 0; };
  s.apply = [=](const V &v) {
    auto g = [&](const std::string &n) { return v[ix(n)]; };
    for (int i = 0; i < NS; i++) {
      std::string k = std::to_string(i % N);
      int ver = (i == 0 || i == 8 || i == 17) && g("s" + std::to_string(i)) == 1;
      put_file("p/" + src(i), "// s\n@inc h" + k + ".h\n@use %/p/dep" + k + ".txt\n", ver);
    }
    for (int i = 0; i < N; i++) {
      std::string k = std::to_string(i);
      put_file("p/d" + k + "/h" + k + ".h", "// h\n", at(g("hdr"), i));
      put_file("p/pch" + k + ".h", "// p\n", at(g("pch"), i));
      put_file("p/dep" + k + ".txt", "// dep\n", at(g("dep"), i));
      put_file("p/k" + k + ".ld", "k\n", at(g("ldep"), i));
      put_file("p/l" + k + "/libe" + k + ".a", "e\n", 0);
    }
  };
  s.script = [=](const V &v) {
    auto g = [&](const std::string &n) { return v[ix(n)]; };
    ArgToolchain tc;
    args_init(tc);
    Toolchain_gcc gcc;
    ExecutableTarget_gcc app("app", gcc, "");
    Reg::Toolchain(tc.state).Build(
        [&](BaseTarget &t) {
          for (int i = 0; i < NS; i++)
            if (!((i == 0 || i == 8 || i == 17) && g("s" + std::to_string(i)) == 2))
              t.AddSource(src(i));
          // a list in its order, with the last entry missing, or two in the middle swapped
          auto list = [&](const char *n, const std::function<void(const std::string &)> &f) {
            int how = g(n);
            for (int i = 0; i < N; i++) {
              int j = how == 2 && (i == 4 || i == 5) ? 9 - i : i;
              if (how == 1 && i == N - 1)
                continue;
              f(std::to_string(j));
            }
          };
          for (int i = 0; i < N; i++) {
            std::string k = std::to_string(i);
            t.AddHeader("h" + k + ".h", "d" + k);
            t.AddPch("pch" + k + ".h");
            t.AddCompileDependency("dep" + k + ".txt");
            t.AddLinkFlag("-T" + (t.GetTargetRootDir() / ("k" + k + ".ld")).string());
            t.AddLinkDependency("k" + k + ".ld");
            auto flag = [&](const char *n) { return "-D" + std::string(n) + k + (at(g(std::string("f") + n), i) ? "y" : "x"); };
            t.AddPreprocessorFlag(flag("pre"));
            t.AddCommonCompileFlag(flag("com"));
            t.AddPchCompileFlag(flag("pchc"));
            t.AddPchObjectFlag(flag("pcho"));
            t.AddAsmCompileFlag(flag("asm"));
            t.AddCCompileFlag(flag("c"));
            t.AddCppCompileFlag(flag("cpp"));
            t.AddLinkFlag(flag("link"));
          }
          list("inc", [&](const std::string &k) { t.AddIncludeDir("d" + k); });
          if (g("inc") == 1)
            t.AddPreprocessorFlag("-I" + (t.GetTargetRootDir() / "d8").string());
          list("ldir", [&](const std::string &k) { t.AddLibDir("l" + k); });
          if (g("ldir") == 1)
            t.AddLinkFlag("-L" + (t.GetTargetRootDir() / "l8").string());
          list("ext", [&](const std::string &k) { t.AddLibDep("-le" + k); });
          t.Build();
        },
        app);
    Reg::Run();
  };
  s.artifacts = {"p/_b/gcc/app/app"};
  return s;
}

// ---------------------------------------------------------------- scenario G
// three kinds of generators
static std::string rel(const std::string &p) {
  return p.rfind(g_root + "/", 0) == 0 ? p.substr(g_root.size() + 1) : p;
}
// generic callback: outputs are a function of the inputs and the payload
GenerateCb gen_cb(const std::string &id) {
  return [id](const CustomGeneratorContext &ctx) {
    std::string ev = id + "|";
    std::set<std::string> in, out;
    for (auto &i : ctx.inputs)
      in.insert(rel(i));
    for (auto &o : ctx.outputs)
      out.insert(rel(o));
    for (auto &i : in)
      ev += i + ",";
    ev += "|";
    for (auto &i : out)
      ev += i + ",";
    std::string blob;
    if (!ctx.userblob.empty()) {
      json j = json::from_msgpack(ctx.userblob, true, false);
      blob = j.dump();
    }
    ev += "|" + blob;
    logev('C', ev);
    sched_point();
    int f = fail_choice("callback " + id);
    std::string acc = "// generated " + id + " " + blob + "\n";
    for (auto &i : in) {
      std::string c;
      if (!env::load_file((g_root + "/" + i).c_str(), true, &c))
        return false;
      acc += "// " + i + ": " + std::to_string(fnv(c)) + "\n";
    }
    if (f == 1) {
      logev('c', id + "|fail");
      return false;
    }
    for (auto &o : out) {
      if (f == 2) {
        env::save_file((g_root + "/" + o).c_str(), "GARBAGE\n", true);
        continue;
      }
      if (f == 3) {
        fs::remove(g_root + "/" + o);
        continue;
      }
      if (!env::save_file((g_root + "/" + o).c_str(), acc, true))
        return false;
    }
    if (f == 3) {
      logev('c', id + "|fail");
      throw std::runtime_error("callback failed");
    }
    logev('c', id + (f ? "|fail" : "|ok"));
    return f == 0;
  };
}
// user payloads of several types
static int *pay_int() {
  static auto *v = new int(5);
  return v;
}
std::shared_ptr<CustomBlobHandler> handler(int k, int which) {
  static auto *vecs = new std::vector<std::string>[2];
  auto pay_vec = [&] { return &vecs[which]; };
  switch (k) {
  case 0:
    return nullptr;
  case 1:
    *pay_vec() = {"x"};
    break;
  case 2:
    *pay_vec() = {"x", "y"};
    break;
  case 3:
    return std::make_shared<TypedCustomBlobHandler<int>>(*pay_int());
  case 5:
    *pay_vec() = {"y"};
    break;
  case 6:
    *pay_vec() = {"xy"};
    break;
  case 7:
    *pay_vec() = {"y", "x"};
    break;
  default:
    *pay_vec() = {};
    break;
  }
  return std::make_shared<TypedCustomBlobHandler<std::vector<std::string>>>(*pay_vec());
}
static std::string payload_str(int k) {
  const char *s[] = {"", "[\"x\"]", "[\"x\",\"y\"]", "5", "[]", "[\"y\"]", "[\"xy\"]", "[\"y\",\"x\"]"};
  return s[k];
}
static Scn make_G() {
  Scn s;
  s.name = "G";
  auto D = [&](const std::string &n, int k, char c, const std::string &w = "", int base = 0) {
    s.dims.push_back({n, k, c, w});
    s.base.push_back(base);
  };
  D("in1", 4, 'g');
  D("in2", 3, 'g');
  D("inset", 4, 'g'); // 3: no task of gen has an input
  D("in3", 3, 'g');
  D("outset", 3, 'g');
  D("pay", 8, 'g');
  D("two", 3, 'g', "", 1);
  D("pay2", 3, 'g');
  D("three", 2, 'g');
  D("fin", 4, 'g');
  D("fcmd", 6, 'g');
  D("finset", 2, 'g');
  D("fout", 2, 'g');
  D("tin", 4, 'g');
  D("tval", 4, 'g');
  D("tout", 2, 'g');
  D("t2", 2, 'g', "", 1);
  D("many", 2, 'g'); // 12 more tasks and one with 12 inputs and outputs
  D("min", 6, 'g');  // what of them is different
  auto dims = s.dims;
  auto ix = [dims](const char *n) {
    for (size_t i = 0; i < dims.size(); i++)
      if (dims[i].name == n)
        return (int)i;
    abort();
  };
  s.apply = [ix](const V &v) {
    auto g = [&](const char *n) { return v[ix(n)]; };
    put_file("p/in1.txt", "in1\n", g("in1"));
    put_file("p/in2.txt", "in2\n", g("in2"));
    put_file("p/in3.txt", "in3\n", g("in3"));
    put_file("p/f.txt", "f\n", g("fin"));
    put_file("p/f2.txt", "f2\n", 0);
    put_file("p/t.in", "value {val} in {current_root_dir} {{}}\n", g("tin"));
    put_file("p/t2.in", "second {val} {val2}\n", 0);
    for (int i = 0; i < 12; i++) {
      int m = g("min");
      put_file("p/m" + std::to_string(i) + ".txt", "m\n", (m == 1 && i == 0) || (m == 2 && i == 6) || (m == 3 && i == 11));
      put_file("p/w" + std::to_string(i) + ".txt", "w\n", m == 4 && i == 11);
    }
  };
  s.tasks = [ix](const V &v) {
    auto g = [&](const char *n) { return v[ix(n)]; };
    std::vector<GenTask> r;
    GenTask one;
    one.id = "gen/one";
    one.in["p/in1.txt"] = g("inset") == 2 ? -1 : g("in1");
    if (g("inset") == 2)
      one.in.clear();
    if (g("inset") == 3)
      one.in.clear();
    if (g("inset") == 1 || g("inset") == 2)
      one.in["p/in2.txt"] = g("in2");
    one.out = {"p/_b/gen/o1.txt"};
    if (g("outset") == 1)
      one.out.insert("p/_b/gen/o1b.txt");
    if (g("outset") == 2)
      one.out = {"p/_b/gen/o1c.txt"};
    one.payload = payload_str(g("pay"));
    r.push_back(one);
    GenTask two;
    two.id = "gen/two";
    if (g("inset") != 3)
      two.in["p/in3.txt"] = g("in3");
    two.out = {"p/_b/gen/o2.txt"};
    two.payload = payload_str(g("pay2"));
    if (g("two") == 1)
      r.push_back(two);
    if (g("two") == 2) {
      two.id = "gen/renamed";
      r.push_back(two);
    }
    if (g("three")) {
      GenTask three;
      three.id = "gen/three";
      three.in["p/in1.txt"] = g("in1");
      three.in["p/in3.txt"] = g("in3");
      three.out = {"p/_b/gen/o3.txt"};
      r.push_back(three);
    }
    if (g("many")) {
      GenTask wide;
      wide.id = "gen/wide";
      for (int i = 0; i < 12; i++) {
        std::string k = std::to_string(i);
        GenTask m;
        m.id = "gen/m" + k;
        int e = g("min");
        m.in["p/m" + k + ".txt"] = (e == 1 && i == 0) || (e == 2 && i == 6) || (e == 3 && i == 11);
        m.out = {"p/_b/gen/m" + k + ".out"};
        r.push_back(m);
        if (!(e == 5 && i == 5))
          wide.in["p/w" + k + ".txt"] = e == 4 && i == 11;
        wide.out.insert("p/_b/gen/w" + k + ".out");
      }
      r.push_back(wide);
    }
    GenTask f;
    f.id = "fgen/Generate";
    f.in["p/f.txt"] = g("fin");
    if (g("finset"))
      f.in["p/f2.txt"] = 0;
    f.out = {g("fout") ? "p/_b/fgen/alt.out" : "p/_b/fgen/f.out"};
    f.payload = "cmd" + std::to_string(g("fcmd")) + "out" + std::to_string(g("fout"));
    r.push_back(f);
    GenTask t;
    t.id = "tgen/t.in";
    t.in["p/t.in"] = g("tin");
    t.out = {g("tout") ? "p/_b/tgen/alt.txt" : "p/_b/tgen/t.txt"};
    t.payload = "val" + std::to_string(g("tval"));
    r.push_back(t);
    if (g("t2")) {
      GenTask t2;
      t2.id = "tgen/t2.in";
      t2.in["p/t2.in"] = 0;
      t2.out = {"p/_b/tgen/t2.txt"};
      t2.payload = "val" + std::to_string(g("tval"));
      r.push_back(t2);
    }
    return r;
  };
  auto tasks = s.tasks;
  s.outs = [tasks](const V &v) {
    std::vector<std::string> o;
    for (auto &t : tasks(v))
      o.insert(o.end(), t.out.begin(), t.out.end());
    return o;
  };
  s.script = [ix](const V &v) {
    auto g = [&](const char *n) { return v[ix(n)]; };
    ArgToolchain tc;
    args_init(tc);
    CustomGenerator gen("gen", "");
    FileGenerator fgen("fgen", "");
    TemplateGenerator tgen("tgen", "");
    auto r = Reg::Toolchain(tc.state);
    r.Build(
        [&](CustomGenerator &t) {
          std::unordered_set<std::string> in, out{"{current_build_dir}/o1.txt"};
          if (g("inset") < 2)
            in.insert("{current_root_dir}/in1.txt");
          if (g("inset") == 1 || g("inset") == 2)
            in.insert("{project_root_dir}/in2.txt");
          if (g("outset") == 1)
            out.insert("{project_build_dir}/gen/o1b.txt");
          if (g("outset") == 2)
            out = {"{current_build_dir}/o1c.txt"};
          t.AddIdInfo("one", in, out, gen_cb("gen/one"), handler(g("pay")));
          if (g("two"))
            t.AddIdInfo(g("two") == 1 ? "two" : "renamed",
                        g("inset") == 3 ? std::unordered_set<std::string>() : std::unordered_set<std::string>{"{current_root_dir}/in3.txt"},
                        {"{current_build_dir}/o2.txt"},
                        gen_cb(g("two") == 1 ? "gen/two" : "gen/renamed"), handler(g("pay2"), 1));
          if (g("three"))
            t.AddIdInfo("three", {"{current_root_dir}/in1.txt", "{current_root_dir}/in3.txt"}, {"{current_build_dir}/o3.txt"}, gen_cb("gen/three"));
          if (g("many")) {
            std::unordered_set<std::string> wi, wo;
            for (int i = 0; i < 12; i++) {
              std::string k = std::to_string(i);
              t.AddIdInfo("m" + k, {"{current_root_dir}/m" + k + ".txt"}, {"{current_build_dir}/m" + k + ".out"}, gen_cb("gen/m" + k));
              if (!(g("min") == 5 && i == 5))
                wi.insert("{current_root_dir}/w" + k + ".txt");
              wo.insert("{current_build_dir}/w" + k + ".out");
            }
            t.AddIdInfo("wide", wi, wo, gen_cb("gen/wide"));
          }
          t.Build();
        },
        gen);
    r.Build(
        [&](FileGenerator &t) {
          t.AddInput("{current_root_dir}/f.txt");
          if (g("finset"))
            t.AddInput("{current_root_dir}/f2.txt");
          t.AddOutput(g("fout") ? "{current_build_dir}/alt.out" : "{current_build_dir}/f.out");
          t.AddPattern("dst", g("fout") ? "{current_build_dir}/alt.out" : "{current_build_dir}/f.out");
          int c = g("fcmd");
          auto side = [&] { t.AddCommand("gcc -Dside -c {current_root_dir}/f.txt -o {current_build_dir}/side.o"); };
          if (c == 4)
            side();
          t.AddCommand("gcc {flag} -c {current_root_dir}/f.txt -o {current_build_dir}/tmp.o", {{"flag", c == 1 ? "-DONEX" : "-DZERO"}});
          if (c == 5)
            side();
          if (c == 3)
            t.AddCommand("gcc -Dextra -c {current_build_dir}/tmp.o -o {current_build_dir}/tmp.o");
          t.AddCommand("gcc {flag} {current_build_dir}/tmp.o -o {dst}", {{"flag", c == 2 ? "-DL2" : "-DL"}});
          t.Build();
        },
        fgen);
    r.Build(
        [&](TemplateGenerator &t) {
          t.AddPattern("val", g("tval") == 3 ? "w0" : "v" + std::to_string(g("tval")));
          t.AddPattern("val2", g("tval") == 3 ? "v0" : "w0");
          t.AddTemplate("{current_root_dir}/t.in", g("tout") ? "{current_build_dir}/alt.txt" : "{current_build_dir}/t.txt");
          if (g("t2"))
            t.AddTemplate("{current_root_dir}/t2.in", "{current_build_dir}/t2.txt");
          t.Build();
        },
        tgen);
    Reg::Run();
  };
  return s;
}
// ---------------------------------------------------------------- scenario P
// two targets that do not depend on each other, each with a precompiled header
static Scn make_P() {
  Scn s;
  s.name = "P";
  auto D = [&](const std::string &n, int k, char c, const std::string &w = "") {
    s.dims.push_back({n, k, c, w});
    s.base.push_back(0);
  };
  D("hdr", 3, 'c');
  D("fpch", 4, 'c');
  D("a", 2, 's', "a.cpp");
  D("foo", 3, 'f', "foo.cpp");
  D("fhdr", 3, 'F');
  D("flink", 4, 'l');
  s.apply = [](const V &v) {
    put_file("p/h.h", "// h\n", v[0]);
    put_file("p/a.cpp", "// a\n@inc h.h\n", v[2]);
    put_file("p/b.cpp", "// b\n@inc h.h\n", 0);
    put_file("p/lib/foo.cpp", "// foo\n@inc f.h\n", v[3]);
    put_file("p/lib/f.h", "// f\n", v[4]);
  };
  s.script = [](const V &v) {
    ArgToolchain tc;
    args_init(tc);
    Toolchain_gcc gcc;
    StaticTarget_gcc foo("foo", gcc, "lib");
    ExecutableTarget_gcc app("app", gcc, "");
    auto r = Reg::Toolchain(tc.state);
    r.Build(
        [&](BaseTarget &t) {
          t.AddSource("foo.cpp");
          t.AddPch("f.h");
          t.AddIncludeDir("", true);
          t.Build();
        },
        foo);
    r.Build(
        [&](BaseTarget &t) {
          t.AddSource("a.cpp");
          t.AddSource("b.cpp");
          t.AddPch("h.h");
          t.AddIncludeDir("", true);
          for (auto &f : flagset("pch", v[1]))
            t.AddPchCompileFlag(f);
          for (auto &f : flagset("link", v[5]))
            t.AddLinkFlag(f);
          t.Build();
        },
        app);
    Reg::Run();
  };
  s.artifacts = {"p/_b/gcc/app/app", "p/_b/gcc/foo/foo.a"};
  return s;
}
// ---------------------------------------------------------------- scenario M
// generated source consumed by an executable
static Scn make_M() {
  Scn s;
  s.name = "M";
  auto D = [&](const std::string &n, int k, char c, const std::string &w = "", int base = 0) {
    s.dims.push_back({n, k, c, w});
    s.base.push_back(base);
  };
  D("in", 4, 'g');
  D("pay", 3, 'g', "", 1);
  D("tin", 3, 'g');
  D("tval", 2, 'g');
  D("a", 3, 's', "a.cpp");
  D("fcpp", 3, 'c');
  D("flink", 2, 'l');
  auto dims = s.dims;
  auto ix = [dims](const char *n) {
    for (size_t i = 0; i < dims.size(); i++)
      if (dims[i].name == n)
        return (int)i;
    abort();
  };
  s.apply = [ix](const V &v) {
    auto g = [&](const char *n) { return v[ix(n)]; };
    put_file("p/in.txt", "in\n", g("in"));
    put_file("p/cfg.in", "// cfg {val}\n", g("tin"));
    put_file("p/a.cpp", "// a\n@use %/p/_b/tgen/cfg.h\n", g("a"));
  };
  s.script = [ix](const V &v) {
    auto g = [&](const char *n) { return v[ix(n)]; };
    ArgToolchain tc;
    args_init(tc);
    CustomGenerator gen("gen", "");
    TemplateGenerator tgen("tgen", "");
    Toolchain_gcc gcc;
    ExecutableTarget_gcc app("app", gcc, "");
    auto r = Reg::Toolchain(tc.state);
    r.Build(
        [&](CustomGenerator &t) {
          t.AddIdInfo("x", {"{current_root_dir}/in.txt"}, {"{current_build_dir}/x.cpp"}, gen_cb("gen/x"), handler(g("pay")));
          t.Build();
        },
        gen);
    r.Build(
        [&](TemplateGenerator &t) {
          t.AddPattern("val", "v" + std::to_string(g("tval")));
          t.AddTemplate("{current_root_dir}/cfg.in", "{current_build_dir}/cfg.h");
          t.Build();
        },
        tgen);
    r.Build(
        [&](BaseTarget &t) {
          t.AddSource("a.cpp");
          t.AddSourceAbsolute(gen.GetBuildDir() / "x.cpp");
          t.AddHeaderAbsolute(tgen.GetBuildDir() / "cfg.h");
          for (auto &f : flagset("cpp", g("fcpp")))
            t.AddCppCompileFlag(f);
          for (auto &f : flagset("link", g("flink")))
            t.AddLinkFlag(f);
          t.Build();
        },
        app);
    r.Dep(app, gen);
    r.Dep(app, tgen);
    Reg::Run();
  };
  s.artifacts = {"p/_b/gcc/app/app", "p/_b/gen/x.cpp", "p/_b/tgen/cfg.h"};
  return s;
}
// ---------------------------------------------------------------- scenario T
// smallest project (torn record writes)
static Scn make_T() {
  Scn s;
  s.name = "T";
  s.dims = {{"a", 2, 's', "a.cpp"}};
  s.base = {0};
  s.apply = [](const V &v) { put_file("p/a.cpp", "// a\n", v[0]); };
  s.script = [](const V &) {
    ArgToolchain tc;
    args_init(tc);
    Toolchain_gcc gcc;
    ExecutableTarget_gcc app("app", gcc, "");
    Reg::Toolchain(tc.state).Build(
        [&](BaseTarget &t) {
          t.AddSource("a.cpp");
          t.Build();
        },
        app);
    Reg::Run();
  };
  s.artifacts = {"p/_b/gcc/app/app"};
  return s;
}
static Scn make_TG() {
  Scn s;
  s.name = "TG";
  s.dims = {{"in", 2, 'g', ""}};
  s.base = {0};
  s.apply = [](const V &v) { put_file("p/in.txt", "in\n", v[0]); };
  s.script = [](const V &) {
    ArgToolchain tc;
    args_init(tc);
    CustomGenerator gen("gen", "");
    Reg::Toolchain(tc.state).Build(
        [&](CustomGenerator &t) {
          t.AddIdInfo("x", {"{current_root_dir}/in.txt"}, {"{current_build_dir}/x.cpp"}, gen_cb("gen/x"), handler(1));
          t.Build();
        },
        gen);
    Reg::Run();
  };
  s.artifacts = {"p/_b/gen/x.cpp"};
  return s;
}

const Scn &scn(const std::string &name) {
  static auto *m = new std::map<std::string, Scn>;
  if (m->empty()) {
    (*m)["A"] = make_A(TargetType::Executable);
    (*m)["A0"] = (*m)["A"]; // without a precompiled header
    (*m)["A0"].name = "A0";
    (*m)["A0"].base[(*m)["A0"].dim("pch")] = 0;
    (*m)["AS"] = make_A(TargetType::StaticLibrary);
    (*m)["AD"] = make_A(TargetType::DynamicLibrary);
    (*m)["X"] = make_A(TargetType::Executable, true);
    (*m)["L"] = make_L(true);
    (*m)["L0"] = make_L(false);
    (*m)["B"] = make_B();
    (*m)["G"] = make_G();
    (*m)["P"] = make_P();
    (*m)["M"] = make_M();
    (*m)["T"] = make_T();
    (*m)["TG"] = make_TG();
  }
  return m->at(name);
}

} // namespace proj

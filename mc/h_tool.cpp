// C17 toolchain search and verification, C19 compilation database: exhaustive
// enumeration of directory contents and configurations on the real code.
#include "bcc.h"
#include <algorithm>
#include <fcntl.h>
#include <nlohmann/json.hpp>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace mc;
using namespace proj;
using namespace buildcc;

namespace {
using Strs = std::vector<std::string>;
using J = nlohmann::json;

// ------------------------------------------------------------------ C17
std::string W() { return g_root + "/w"; }
void link_raw(const std::string &to, const std::string &at) { syscall(SYS_symlinkat, to.c_str(), AT_FDCWD, at.c_str()); }
void mode_raw(const std::string &p, int m) { syscall(SYS_fchmodat, AT_FDCWD, p.c_str(), m); }
void file_raw(const std::string &p) { write_raw(p, "x", ver_mtime(0)); }
void clear_w() {
  // make everything readable again, then remove
  for (auto d : {"/locked", "/shut"})
    if (exists_raw(W() + d))
      mode_raw(W() + d, 0755);
  rm_rf(W());
  mkdirs(W() + "/ext/dir");
  file_raw(W() + "/ext/file");
}
enum Ent { ABSENT, FILE_, DIR_, LFILE, LDANGLE, LDIR, TXT, SUFFIX, DOT, PREFIX, UPPER, NOPERM, FIFO, NENT };
const char *entn[] = {"absent", "file", "directory", "link to file", "dangling link", "link to directory", "name.txt", "name1", ".name", "xname", "NAME", "unreadable file", "fifo"};
bool counts(int e) { return e == FILE_ || e == LFILE || e == NOPERM; }
void put_ent(const std::string &d, const std::string &n, int e) {
  std::string up = n;
  for (auto &c : up)
    c = toupper(c);
  switch (e) {
  case ABSENT:
    return;
  case FILE_:
    return file_raw(d + "/" + n);
  case DIR_:
    return mkdirs(d + "/" + n);
  case LFILE:
    return link_raw(W() + "/ext/file", d + "/" + n);
  case LDANGLE:
    return link_raw(W() + "/ext/none", d + "/" + n);
  case LDIR:
    return link_raw(W() + "/ext/dir", d + "/" + n);
  case TXT:
    return file_raw(d + "/" + n + ".txt");
  case SUFFIX:
    return file_raw(d + "/" + n + "1");
  case DOT:
    return file_raw(d + "/." + n);
  case PREFIX:
    return file_raw(d + "/x" + n);
  case UPPER:
    return file_raw(d + "/" + up);
  case NOPERM:
    file_raw(d + "/" + n);
    return mode_raw(d + "/" + n, 0);
  case FIFO:
    syscall(SYS_mknodat, AT_FDCWD, (d + "/" + n).c_str(), S_IFIFO | 0644, 0);
  }
}
const Strs name_sets[] = {{"as", "gcc", "g++", "ar", "ld"}, {"as-2.4", "gcc-12.1", "g++-12.1", "ar.x", "l.d"}};
Toolchain mk_tc(const Strs &n) { return Toolchain(ToolchainId::Gcc, "gcc", ToolchainExecutables(n[0], n[1], n[2], n[3], n[4])); }

// contents of one directory
void c17_contents(Ctx &cx, int set, int first, bool th) {
  const Strs &names = name_sets[set];
  std::vector<std::vector<int>> cs;
  if (th) {
    std::vector<int> kinds;
    for (int i = 0; i < NENT; i++)
      kinds.push_back(i);
    for (int b : kinds)
      for (int c : kinds)
        for (int d : {ABSENT, FILE_, DIR_, LFILE, LDANGLE, TXT, SUFFIX})
          for (int e : {ABSENT, FILE_, LFILE, TXT})
            cs.push_back({first, b, c, d, e});
  } else { // first tool of the given kind, at most two further ones not plain files
    for (int i = 1; i < 5; i++)
      for (int x = 0; x < NENT; x++)
        for (int j = i + 1; j < 5; j++)
          for (int y = 0; y < NENT; y++) {
            std::vector<int> v(5, FILE_);
            v[0] = first;
            v[i] = x;
            v[j] = y;
            cs.push_back(v);
          }
  }
  run_cases(
      cx, (int)cs.size(),
      [&](int k) -> std::string {
        {
          Internal in;
          clear_w();
          mkdirs(W() + "/d");
          // some unrelated entries
          file_raw(W() + "/d/other");
          mkdirs(W() + "/d/sub");
          for (auto &n : names)
            file_raw(W() + "/d/sub/" + n);
          for (int i = 0; i < 5; i++)
            put_ent(W() + "/d", names[i], cs[k][i]);
        }
        Toolchain tc = mk_tc(names);
        auto r = tc.Find(ToolchainFindConfig({}, {W() + "/d"}));
        Strs s;
        for (auto &p : r)
          s.push_back(p.string());
        return join(s, "|");
      },
      [&](int k, const Case &c) {
        cx.states(1);
        cx.transitions(1);
        bool want = true;
        std::string d;
        for (int i = 0; i < 5; i++) {
          want &= counts(cs[k][i]);
          if (cs[k][i] != FILE_)
            d += " " + names[i] + "=" + entn[cs[k][i]];
        }
        std::string w = want ? W() + "/d" : "";
        if (!c.done)
          cx.violation("toolchain search ends the process:" + d, c.res.outcome());
        else if (c.out != w)
          cx.violation(std::string("toolchain search ") + (want ? "misses a directory" : "takes an incomplete directory") + ":" + d, "expected '" + w + "' got '" + c.out + "'");
      });
  cx.outcome("contents");
  clear_w();
}
// executables sharing names
void c17_shared(Ctx &cx) {
  std::vector<std::vector<int>> parts;
  std::function<void(std::vector<int>, int)> rec = [&](std::vector<int> v, int mx) {
    if (v.size() == 5) {
      parts.push_back(v);
      return;
    }
    for (int i = 0; i <= mx; i++) {
      auto w = v;
      w.push_back(i);
      rec(w, std::max(mx, i + 1));
    }
  };
  rec({}, 0);
  std::vector<std::pair<int, int>> cs;
  for (size_t p = 0; p < parts.size(); p++)
    for (int m = 0; m < 1 << (1 + *std::max_element(parts[p].begin(), parts[p].end())); m++)
      cs.push_back({(int)p, m});
  const Strs &names = name_sets[0];
  auto nm = [&](int p) {
    Strs s;
    for (int i : parts[p])
      s.push_back(names[i]);
    return s;
  };
  run_cases(
      cx, (int)cs.size(),
      [&](int k) -> std::string {
        {
          Internal in;
          clear_w();
          mkdirs(W() + "/d");
          for (int i = 0; i < 5; i++)
            if (cs[k].second >> i & 1)
              file_raw(W() + "/d/" + names[i]);
        }
        Toolchain tc = mk_tc(nm(cs[k].first));
        auto r = tc.Find(ToolchainFindConfig({}, {W() + "/d"}));
        return std::to_string(r.size());
      },
      [&](int k, const Case &c) {
        cx.states(1);
        cx.transitions(1);
        int n = 1 + *std::max_element(parts[cs[k].first].begin(), parts[cs[k].first].end());
        bool want = cs[k].second == (1 << n) - 1;
        if (!c.done || c.out != (want ? "1" : "0"))
          cx.violation("toolchain search with shared names: " + join(nm(cs[k].first), ",") + " present " + std::to_string(cs[k].second), c.done ? "found " + c.out : c.res.outcome());
      });
  cx.outcome("shared");
  clear_w();
}
// many search paths, and directories with many other files
void c17_many(Ctx &cx) {
  struct C {
    int dirs, step, others, env;
  };
  std::vector<C> cs;
  for (int dirs : {1, 4, 9, 17, 33, 70})
    for (int step : {1, 2, 3, 7, 100})
      for (int others : {0, 3, 40})
        for (int env = 0; env < 3; env++)
          cs.push_back({dirs, step, others, env});
  for (int others : {200, 600})
    cs.push_back({2, 1, others, 0});
  const Strs &names = name_sets[0];
  auto dir = [](int i) { return W() + "/m" + std::to_string(i); };
  auto complete = [](const C &c, int i) { return (c.dirs - 1 - i) % c.step == 0; }; // the last one always
  run_cases(
      cx, (int)cs.size(),
      [&](int k) -> std::string {
        const C &c = cs[k];
        std::vector<fs::path> dirs;
        std::string path;
        {
          Internal in;
          clear_w();
          for (int i = 0; i < c.dirs; i++) {
            mkdirs(dir(i));
            for (int o = 0; o < c.others; o++)
              file_raw(dir(i) + "/" + (o % 2 ? "a" : "z") + std::to_string(o));
            for (int n = 0; n < (complete(c, i) ? 5 : i % 5); n++)
              file_raw(dir(i) + "/" + names[n]);
          }
        }
        for (int i = 0; i < c.dirs; i++)
          if (c.env == 1 || (c.env == 2 && i < c.dirs / 2))
            path += (path.empty() ? "" : ":") + dir(i);
          else
            dirs.push_back(dir(i));
        setenv("MANY_DIRS", path.c_str(), 1);
        Toolchain tc = mk_tc(names);
        auto r = tc.Find(c.env ? ToolchainFindConfig({"MANY_DIRS"}, dirs) : ToolchainFindConfig({}, dirs));
        Strs s;
        for (auto &p : r)
          s.push_back(p.string());
        std::sort(s.begin(), s.end());
        return join(s, "|");
      },
      [&](int k, const Case &c) {
        cx.states(1);
        cx.transitions(1);
        Strs w;
        for (int i = 0; i < cs[k].dirs; i++)
          if (complete(cs[k], i))
            w.push_back(dir(i));
        std::sort(w.begin(), w.end());
        if (!c.done || c.out != join(w, "|"))
          cx.violation("toolchain search in " + std::to_string(cs[k].dirs) + " directories, every " + std::to_string(cs[k].step) + ". complete, with " + std::to_string(cs[k].others) + " other files" + (cs[k].env ? " from the environment" : ""), c.done ? "expected '" + join(w, "|") + "' got '" + c.out + "'" : c.res.outcome());
      });
  cx.outcome("many");
  clear_w();
}
// search paths and their order
enum Pth { OK1, PART, MISSING, PLAIN, LOCKED, BELOW, EMPTY, LINKED, LOOP, SPACED, LONG, RELATIVE, DOTTED, NPTH };
const char *pthn[] = {"complete", "incomplete", "missing", "a plain file", "unreadable", "below an unsearchable directory", "empty", "link to a complete directory", "link to itself", "complete, with a space", "name too long", "complete, relative to the working directory", "complete, with dots and a slash at the end"};
std::string make_path(int kind, int k) {
  std::string d = W() + "/s" + std::to_string(k);
  auto fill = [&](const std::string &x, int n) {
    mkdirs(x);
    for (int i = 0; i < n; i++)
      file_raw(x + "/" + name_sets[0][i]);
  };
  switch (kind) {
  case OK1:
    fill(d, 5);
    return d;
  case PART:
    fill(d, 4);
    return d;
  case MISSING:
    return d;
  case PLAIN:
    file_raw(d);
    return d;
  case LOCKED:
    fill(W() + "/locked", 5);
    return W() + "/locked";
  case BELOW:
    fill(W() + "/shut/bin", 5);
    return W() + "/shut/bin";
  case EMPTY:
    return "";
  case LINKED:
    fill(d + "t", 5);
    link_raw(d + "t", d);
    return d;
  case LOOP:
    link_raw(d, d);
    return d;
  case SPACED:
    fill(d + " dir", 5);
    return d + " dir";
  case LONG:
    return W() + "/" + std::string(300, 'n');
  case RELATIVE:
    fill(d, 5);
    return "w/s" + std::to_string(k);
  case DOTTED:
    fill(d, 5);
    return W() + "/./ext/../s" + std::to_string(k) + "/";
  }
  return "";
}
void c17_paths(Ctx &cx, int first, bool th) {
  struct C {
    int k[3];
    int place[3]; // 0 explicit, 1 first variable, 2 second variable
    int extra;    // 0 no, 1 empty parts around, 2 unset variable first, 3 unset variable last
  };
  std::vector<C> cs;
  Strs none;
  for (int b = 0; b < NPTH; b++)
    for (int c = 0; c < NPTH; c++) {
      if (!th && b != OK1 && c != OK1 && first != OK1 && !(b == c))
        continue;
      for (int pl = 0; pl < 27; pl++)
        for (int x = 0; x < 4; x++) {
          if (x && !th && (b > PLAIN || c > PLAIN))
            continue;
          if (x >= 2 && (b > PART || c > PART))
            continue; // ends the process each time
          cs.push_back(C{{first, b, c}, {pl % 3, pl / 3 % 3, pl / 9}, x});
        }
    }
  Strs wants(cs.size());
  auto name = [&](const C &c) {
    std::string r;
    const char *pn[] = {" (explicit)", " (variable 1)", " (variable 2)"};
    for (int i = 0; i < 3; i++)
      r += (i ? ", " : "") + std::string(pthn[c.k[i]]) + pn[c.place[i]];
    return r + (c.extra == 1 ? ", empty parts" : c.extra ? ", unset variable" : "");
  };
  auto path_of = [&](int kind, int i) -> std::string {
    std::string d = W() + "/s" + std::to_string(i);
    return kind == SPACED ? d + " dir" : d;
  };
  run_cases(
      cx, (int)cs.size(),
      [&](int k) -> std::string {
        const C &c = cs[k];
        std::vector<fs::path> ex;
        std::string v[2];
        {
          Internal in;
          clear_w();
          if (c.extra == 1)
            v[0] = ":", v[1] = ":";
          for (int i = 0; i < 3; i++) {
            std::string p = make_path(c.k[i], i);
            if (c.place[i] == 0)
              ex.push_back(p);
            else
              v[c.place[i] - 1] += (v[c.place[i] - 1].empty() ? "" : ":") + p;
          }
          if (c.extra == 1)
            v[0] += "::", v[1] += ":";
          for (auto d : {"/locked", "/shut"})
            if (exists_raw(W() + d))
              mode_raw(W() + d, 0);
        }
        setenv("MC_V1", v[0].c_str(), 1);
        setenv("MC_V2", v[1].c_str(), 1);
        unsetenv("MC_UNSET");
        Strs vars{"MC_V1", "MC_V2"};
        if (c.extra == 2)
          vars.insert(vars.begin(), "MC_UNSET");
        if (c.extra == 3)
          vars.push_back("MC_UNSET");
        Toolchain tc = mk_tc(name_sets[0]);
        auto r = tc.Find(ToolchainFindConfig(vars, ex));
        Strs s;
        for (auto &p : r) { // however it is spelled
          auto n = (fs::path(g_root) / p).lexically_normal().string();
          while (n.size() > 1 && n.back() == '/')
            n.pop_back();
          s.push_back(n);
        }
        return join(s, "|");
      },
      [&](int k, const Case &c) {
        cx.states(1);
        cx.transitions(1);
        Strs want;
        for (int pl = 0; pl < 3; pl++)
          for (int i = 0; i < 3; i++)
            if (cs[k].place[i] == pl && (cs[k].k[i] == OK1 || cs[k].k[i] == LINKED || cs[k].k[i] == SPACED || cs[k].k[i] == RELATIVE || cs[k].k[i] == DOTTED))
              want.push_back(path_of(cs[k].k[i], i));
        if (cs[k].extra >= 2) {
          if (c.done || !c.res.exited || c.res.code == 0)
            cx.violation("unset search variable is accepted: " + name(cs[k]), c.out);
          return;
        }
        if (!c.done)
          cx.violation("toolchain search ends the process: " + name(cs[k]), c.res.outcome() + "\n" + show(c.res));
        else if (c.out != join(want, "|"))
          cx.violation("toolchain search result is wrong: " + name(cs[k]), "expected " + join(want, "|") + "\ngot " + c.out);
      });
  cx.outcome("paths");
  Internal in;
  clear_w();
}
// verification
struct Ans {
  int st;
  const char *out, *want; // want null: the query fails
};
const Ans answers[] = {{0, "13.2.0", "13.2.0"}, {0, "13\n", "13"}, {0, "x86_64\x1e-linux\n", "x86_64-linux"}, {1, "13\n", nullptr}, {127, "", nullptr}, {0, "", nullptr}, {0, "\n", nullptr}, {0, "a b\n", "a b"}};
const int n_ans = 8;
void c17_verify(Ctx &cx, int kind) {
  // kinds: 0 gcc 1 mingw 2 clang 3 custom 4 msvc 5 plain with callback 6 plain with failing callback 7 plain without callback 8 generic gcc
  struct C {
    int hits; // 0 none, 1 first, 2 second only, 3 both
    int space, a, b, env, set, how;
  };
  std::vector<C> cs;
  bool q = kind == 0 || kind == 1 || kind == 2 || kind == 8;
  for (int set = 0; set < 2; set++)
    for (int h = 0; h < 4; h++)
      for (int sp = 0; sp < 2; sp++)
        for (int a = 0; a < (q ? n_ans : 1); a++)
          for (int b = 0; b < (q ? n_ans : 1); b++)
            for (int e = 0; e < (kind == 4 ? 8 : 1); e++)
              for (int how = 0; how < 2; how++)
                cs.push_back({h, sp, a, b, e, set, how});
  auto dir = [&](const C &c, int i) { return W() + (c.space ? "/my dir" : "/d") + std::to_string(i); };
  auto name = [&](const C &c) {
    const char *kn[] = {"gcc", "mingw", "clang", "custom", "msvc", "callback", "failing callback", "no callback", "generic"};
    return std::string(kn[kind]) + " hits " + std::to_string(c.hits) + (c.space ? " spaces" : "") + " version " + std::to_string(c.a) + " target " + std::to_string(c.b) + " env " + std::to_string(c.env) + " names " + std::to_string(c.set) + (c.how ? " by variable" : "");
  };
  int cur = 0;
  static Toolchain *live;
  static std::string before;
  auto ex = [](const Toolchain &t) { return t.GetAssembler() + "|" + t.GetCCompiler() + "|" + t.GetCppCompiler() + "|" + t.GetArchiver() + "|" + t.GetLinker(); };
  run_cases(
      cx, (int)cs.size(),
      [&](int k) -> std::string {
        cur = k;
        const C &c = cs[k];
        const Strs &n = name_sets[c.set];
        {
          Internal in;
          clear_w();
          for (int i = 0; i < 2; i++) {
            mkdirs(dir(c, i));
            for (int j = 0; j < ((c.hits >> i & 1) ? 5 : 3); j++)
              file_raw(dir(c, i) + "/" + n[j]);
          }
        }
        custom_program = [&](const std::string &, const Strs &a, const std::string &, int &st, std::string &out, std::string &) {
          const C &c = cs[cur];
          std::string d = dir(c, c.hits & 1 ? 0 : 1);
          st = 127;
          if (a.size() == 2 && (a[0] == d + "/" + name_sets[c.set][2] || a[0] == d + "/" + name_sets[c.set][1])) {
            const Ans *w = a[1] == "-dumpversion" ? &answers[c.a] : a[1] == "-dumpmachine" ? &answers[c.b] : nullptr;
            if (w)
              st = w->st, out = w->out;
          }
          return true;
        };
        const char *ev[] = {"VSCMD_VER", "VSCMD_ARG_HOST_ARCH", "VSCMD_ARG_TGT_ARCH"};
        for (int i = 0; i < 3; i++)
          if (c.env >> i & 1)
            setenv(ev[i], ("val" + std::to_string(i)).c_str(), 1);
          else
            unsetenv(ev[i]);
        ToolchainExecutables e(n[0], n[1], n[2], n[3], n[4]);
        if (kind == 0)
          live = new Toolchain_gcc("t", e);
        else if (kind == 1)
          live = new Toolchain_mingw("t", e);
        else if (kind == 2)
          live = new Toolchain_custom(ToolchainId::Clang, "t", e);
        else if (kind == 3)
          live = new Toolchain_custom(ToolchainId::Custom, "t", e);
        else if (kind == 4)
          live = new Toolchain_msvc("t", e);
        else if (kind == 8)
          live = &Toolchain_generic::New(ToolchainId::Gcc, "t" + std::to_string(k), e);
        else
          live = new Toolchain(ToolchainId::Gcc, "t", e);
        if (kind == 5)
          live->SetToolchainInfoCb([](const ToolchainExecutables &x) -> env::optional<ToolchainCompilerInfo> {
            ToolchainCompilerInfo i;
            i.compiler_version = x.cpp_compiler + "," + x.linker;
            i.target_arch = x.assembler + "," + x.c_compiler + "," + x.archiver;
            return i;
          });
        if (kind == 6)
          live->SetToolchainInfoCb([](const ToolchainExecutables &) -> env::optional<ToolchainCompilerInfo> { return {}; });
        before = ex(*live);
        static bool once = false;
        if (!once) {
          once = true;
          atexit([] {
            if (live && before != live->GetAssembler() + "|" + live->GetCCompiler() + "|" + live->GetCppCompiler() + "|" + live->GetArchiver() + "|" + live->GetLinker())
              logev('O', "tool paths changed");
          });
        }
        setenv("MC_V1", (dir(c, 0) + ":" + dir(c, 1)).c_str(), 1);
        ToolchainFindConfig cfg = c.how ? ToolchainFindConfig({"MC_V1"}, {}) : ToolchainFindConfig({}, {dir(c, 0), dir(c, 1)});
        auto info = live->Verify(cfg);
        auto s = info.path.string() + "\n" + info.compiler_version + "\n" + info.target_arch + "\n" + ex(*live);
        live = nullptr;
        return s;
      },
      [&](int k, const Case &c) {
        const C &v = cs[k];
        cx.states(1);
        cx.transitions(1);
        const Strs &n = name_sets[v.set];
        std::string d = dir(v, v.hits & 1 ? 0 : 1), ver, arch;
        bool good = v.hits != 0;
        if (q) {
          good &= answers[v.a].want && answers[v.b].want;
          ver = answers[v.a].want ? answers[v.a].want : "";
          arch = answers[v.b].want ? answers[v.b].want : "";
        } else if (kind == 4) {
          good &= v.env == 7;
          ver = "val0";
          arch = "val1_val2";
        } else if (kind == 5) {
          ver = d + "/" + n[2] + "," + d + "/" + n[4];
          arch = d + "/" + n[0] + "," + d + "/" + n[1] + "," + d + "/" + n[3];
        } else
          good = false;
        std::string want = d + "\n" + ver + "\n" + arch + "\n";
        for (int i = 0; i < 5; i++)
          want += (i ? "|" : "") + d + "/" + n[i];
        cx.outcome(good ? "verified" : "refused");
        if (good) {
          if (!c.done)
            cx.violation("verification of a good toolchain is fatal: " + name(v), c.res.outcome() + "\n" + show(c.res));
          else if (c.out != want)
            cx.violation("verification reports wrong data: " + name(v), "expected " + esc(want) + "\ngot " + esc(c.out));
        } else {
          if (c.done)
            cx.violation("verification accepts a bad toolchain: " + name(v), c.out);
          else {
            if (!c.res.exited || c.res.code == 0)
              cx.violation("failing verification ends with " + c.res.outcome() + ": " + name(v), show(c.res));
            for (auto &e : c.res.ev)
              if (e.type == 'O')
                cx.violation("failing verification changes the tool paths: " + name(v), show(c.res));
          }
        }
      });
  custom_program = nullptr;
  clear_w();
}
// the search plugin
void c17_plugin(Ctx &cx) {
  const Strs ent{"gcc", "gcc-1", "xgcc", "g++", "GCC", "gcc.exe", ".gcc"};
  const Strs rx{"gcc", "gcc.*", "g\\+\\+", ".*", "g[c+]+", "(x)?gcc", "none"};
  // reference matches of each expression, in order of the entries
  const std::vector<std::set<std::string>> hit{{"gcc"}, {"gcc", "gcc-1", "gcc.exe"}, {"g++"}, {"gcc", "gcc-1", "xgcc", "g++", "GCC", "gcc.exe", ".gcc"}, {"gcc", "g++"}, {"gcc", "xgcc"}, {}};
  struct C {
    int rx, m1, m2, vars; // contents of the two directories; variables 0 both in one, 1 two variables, 2 with missing directory and unset variable, 3 second only
  };
  std::vector<C> cs;
  std::vector<int> ms{0, 127, 2 | 4 | 16 | 32 | 64};
  for (int i = 0; i < 7; i++)
    ms.push_back(1 << i), ms.push_back(127 & ~(1 << i));
  for (size_t r = 0; r < rx.size(); r++)
    for (int a : ms)
      for (int b : {0, 127, 1, 126})
        for (int v = 0; v < 4; v++)
          cs.push_back({(int)r, a, b, v});
  auto full = [&](int k) {
    const C &c = cs[k];
    std::vector<std::set<std::string>> w; // per directory, order inside is free
    for (int d = c.vars == 3 ? 1 : 0; d < 2; d++) {
      std::set<std::string> s;
      for (size_t i = 0; i < ent.size(); i++)
        if ((d ? c.m2 : c.m1) >> i & 1)
          if (hit[c.rx].count(ent[i]))
            s.insert(W() + "/d" + std::to_string(d) + "/" + ent[i]);
      w.push_back(s);
    }
    return w;
  };
  run_cases(
      cx, (int)cs.size(),
      [&](int k) -> std::string {
        const C &c = cs[k];
        {
          Internal in;
          clear_w();
          for (int d = 0; d < 2; d++) {
            mkdirs(W() + "/d" + std::to_string(d));
            for (size_t i = 0; i < ent.size(); i++)
              if ((d ? c.m2 : c.m1) >> i & 1)
                file_raw(W() + "/d" + std::to_string(d) + "/" + ent[i]);
          }
        }
        std::string a = W() + "/d0", b = W() + "/d1";
        setenv("MC_V1", c.vars == 0 ? (a + ":" + b).c_str() : c.vars == 3 ? b.c_str() : c.vars == 2 ? (W() + "/nodir:" + a + "::").c_str() : a.c_str(), 1);
        setenv("MC_V2", b.c_str(), 1);
        plugin::BuildccFind f(rx[c.rx], plugin::BuildccFind::Type::HostExecutable, {"MC_V1"});
        if (c.vars == 2)
          f.AddHostEnvVars({"MC_UNSET", "MC_V2"});
        if (c.vars == 1)
          f.AddHostEnvVar("MC_V2");
        bool r = f.Search();
        Strs s;
        for (auto &p : f.GetPathMatches())
          s.push_back(p.string());
        return std::string(r ? "1" : "0") + join(s, "|");
      },
      [&](int k, const Case &c) {
        cx.states(1);
        cx.transitions(1);
        auto w = full(k);
        std::string err;
        if (!c.done)
          err = c.res.outcome();
        else {
          Strs got = c.out.size() > 1 ? split_on(c.out.substr(1), '|') : Strs();
          size_t pos = 0, tot = 0;
          for (auto &s : w) {
            std::set<std::string> g(got.begin() + std::min(pos, got.size()), got.begin() + std::min(pos + s.size(), got.size()));
            if (g != s)
              err = "matches are wrong";
            pos += s.size();
            tot += s.size();
          }
          if (got.size() != tot)
            err = "number of matches is wrong";
          if ((c.out[0] == '1') != (tot > 0))
            err = "result flag is wrong";
        }
        if (!err.empty())
          cx.violation("search plugin: " + rx[cs[k].rx] + " over " + std::to_string(cs[k].m1) + "/" + std::to_string(cs[k].m2) + " variables " + std::to_string(cs[k].vars), err + ": " + c.out);
      });
  cx.outcome("plugin");
  clear_w();
}

// ------------------------------------------------------------------ C19
const Strs awkward{"plain", "a b", "q\"q", "s'q", "b\\s", "b\\\\n", "t\tt", "l\nl", "u\xc3\xa4\xe2\x82\xac", "c\x01x", "d$x", "{x}", "%41", "\\", "\"", "\"}, {", "/*", "\x7f", "a,b", "\xf0\x9f\x98\x80"};
std::string fname(const std::string &s) { // usable as a file name
  std::string r = s;
  for (auto &c : r)
    if (c == '/')
      c = '_';
  return r;
}
struct DB {
  std::string name, rootd = "p", buildd = "p/_b";
  std::vector<Strs> srcs; // per target
  std::vector<Strs> flags;
  bool dup = false;
  bool more = false; // precompiled headers, headers, libraries of several types, link dependencies
};
void db_body(const DB &d, bool generate) {
  ArgToolchain tc;
  auto &ai = Args::Init();
  ai.AddToolchain("gcc", "gcc", tc);
  const char *argv[] = {"script", "--root_dir", d.rootd.c_str(), "--build_dir", d.buildd.c_str(), "toolchain", "gcc", "--build", "--test"};
  ai.Parse(9, argv);
  Reg::Init();
  Toolchain_gcc gcc;
  std::vector<std::unique_ptr<BaseTarget>> ts;
  plugin::ClangCompileCommands ccc({});
  auto reg = Reg::Toolchain(tc.state);
  for (size_t i = 0; i < d.srcs.size(); i++) {
    std::string tn = "t" + std::to_string(i);
    if (d.more && i % 3 == 1)
      ts.push_back(std::make_unique<StaticTarget_gcc>(tn, gcc, ""));
    else if (d.more && i % 3 == 2)
      ts.push_back(std::make_unique<DynamicTarget_gcc>(tn, gcc, ""));
    else
      ts.push_back(std::make_unique<ExecutableTarget_gcc>(tn, gcc, ""));
    reg.Build(
        [&, i](BaseTarget &t) {
          for (int n = 0; n < (d.dup ? 2 : 1); n++)
            for (auto &s : d.srcs[i])
              t.AddSource(s);
          for (auto &f : d.flags[i])
            t.AddCommonCompileFlag(f);
          if (d.more) {
            if (i % 2 == 0)
              t.AddPch("h.h");
            t.AddHeader("h.h");
            t.AddIncludeDir("");
            t.AddLinkDependency("h.h");
            t.AddCompileDependency("h.h");
            t.AddPreprocessorFlag("-DP");
            t.AddCCompileFlag("-DC");
            t.AddCppCompileFlag("-DX");
            t.AddAsmCompileFlag("-DA");
          }
          t.Build();
        },
        *ts.back());
    ccc.AddTarget(ts.back().get());
  }
  Reg::Run([&] {
    if (generate)
      ccc.Generate();
  });
}
std::string db_path(const DB &d) { return g_root + "/" + d.buildd + "/compile_commands.json"; }
// compares the database with the project and the commands which were run
std::string db_check(const DB &d, const std::string &text, const std::vector<Cmd> &cm, const std::map<std::string, std::string> &known) {
  J j;
  try {
    j = J::parse(text);
  } catch (const std::exception &e) {
    return std::string("not JSON: ") + e.what();
  }
  if (!j.is_array())
    return "not a list";
  std::multiset<std::string> want, got;
  for (auto &t : d.srcs)
    for (auto &s : std::set<std::string>(t.begin(), t.end()))
      want.insert(fs::weakly_canonical(g_root + "/" + d.rootd + "/" + s).string());
  std::multiset<std::string> cmds;
  for (auto &c : cm)
    cmds.insert(c.cmd);
  for (auto &e : j) {
    for (auto k : {"directory", "command", "file"})
      if (!e.is_object() || !e.contains(k) || !e[k].is_string())
        return std::string("an entry lacks ") + k;
    std::string f = e["file"], c = e["command"], dir = e["directory"];
    got.insert(fs::path(f).lexically_normal().string());
    if (dir != g_root + "/" + d.buildd)
      return "directory is " + dir;
    if (!known.empty()) {
      auto it = known.find(f);
      bool ok = false;
      for (auto &[k, v] : known)
        ok |= v == c && k.substr(k.find('|') + 1) == f;
      if (!ok)
        return "command of " + f + " is not the one of the build: " + c;
      (void)it;
    } else {
      if (!cmds.count(c))
        return "command of " + f + " was not run: " + c;
      cmds.erase(cmds.find(c));
      if (c.find(fs::path(f).filename().string()) == std::string::npos)
        return "command of " + f + " is of another file: " + c;
    }
  }
  if (got != want)
    return "entries " + join(Strs(got.begin(), got.end()), " ") + " instead of " + join(Strs(want.begin(), want.end()), " ");
  return "";
}
bool accept_all(const std::string &, const Strs &, const std::string &, int &st, std::string &, std::string &) {
  st = 0;
  return true;
}
std::string dirty(const std::string &p) {
  write_raw(p, "OLD", ver_mtime(0));
  return "OLD";
}
void c19_content(Ctx &cx, const std::vector<DB> &ds) {
  for (auto &d : ds) {
    if (cx.stop())
      return;
    rm_rf(g_root + "/p");
    rm_rf(g_root + "/" + d.rootd);
    mkdirs(g_root + "/" + d.rootd);
    for (auto &t : d.srcs)
      for (auto &s : t) {
        std::string p = g_root + "/" + d.rootd + "/" + s;
        mkdirs(p.substr(0, p.rfind('/')));
        write_raw(p, "//\n", ver_mtime(0));
      }
    if (d.more)
      write_raw(g_root + "/" + d.rootd + "/h.h", "//\n", ver_mtime(0));
    custom_program = accept_all;
    Result r = run_once(cx, [&] { db_body(d, true); }, Cfg());
    custom_program = nullptr;
    cx.states(1);
    cx.transitions(1);
    std::string text;
    if (!r.ok())
      cx.violation("build with compilation database fails: " + esc(d.name), show(r));
    else if (!read_raw(db_path(d), text))
      cx.violation("no compilation database: " + esc(d.name), show(r));
    else {
      std::string e = db_check(d, text, commands(r), {});
      if (!e.empty())
        cx.violation("wrong compilation database: " + esc(d.name), e + "\n" + text);
    }
    cx.outcome("content");
    rm_rf(g_root + "/" + d.rootd);
  }
}
// histories: which runs rewrite the database
struct Hist {
  int src1 = 0;   // version of t0's first source
  int extra = 0;  // t0 has a second source
  int flag = 0;   // flag of t1
  int src2 = 0;   // version of t1's source
};
void c19_hist(Ctx &cx, int depth, int first) {
  auto mkdb = [](const Hist &h) {
    DB d;
    d.srcs = {h.extra ? Strs{"a.cpp", "n.cpp"} : Strs{"a.cpp"}, {"b.cpp"}};
    d.flags = {{"-DX=\"1\""}, {h.flag ? "-DF=\"2\\n\"" : "-DF=1"}};
    return d;
  };
  auto files = [](const Hist &h) {
    proj::put_file("p/a.cpp", "// a\n", h.src1);
    proj::put_file("p/n.cpp", "// n\n", 0);
    proj::put_file("p/b.cpp", "// b\n", h.src2);
  };
  custom_program = nullptr;
  std::string bdir = g_root + "/p/_b";
  struct St {
    Hist h, built;
    bool has_built = false, pending = false; // pending: the last run failed
    Tree t;
    std::map<std::string, std::string> cmds; // last commands per target|file
  };
  std::set<std::string> seen;
  // op: change (none, src1, extra, flag, src2, src1+flag) x failing command (none, each)
  std::function<void(const St &, int, const std::string &)> rec = [&](const St &st, int left, const std::string &path) {
    for (int ch = 0; ch < 6; ch++)
      for (int fail = 0; fail < 3; fail++) {
        if (cx.stop())
          return;
        if (left == depth && ch != first)
          continue;
        St n = st;
        Hist &h = n.h;
        if (ch == 1 || ch == 5)
          h.src1 ^= 1;
        if (ch == 2)
          h.extra ^= 1;
        if (ch == 3 || ch == 5)
          h.flag ^= 1;
        if (ch == 4)
          h.src2 ^= 1;
        mkdirs(bdir);
        restore(bdir, n.t);
        files(h);
        DB d = mkdb(h);
        std::string old = dirty(db_path(d));
        always_fail = [&](const std::string &c) { return fail == 1 ? c.find("a.cpp") != std::string::npos : fail == 2 ? c.find("b.cpp") != std::string::npos && c.find(" -c ") != std::string::npos : false; };
        Result r = run_once(cx, [&] { db_body(d, true); }, Cfg());
        always_fail = nullptr;
        cx.states(1);
        cx.transitions(1);
        std::string p = path + "/" + std::to_string(ch) + "f" + std::to_string(fail), text;
        read_raw(db_path(d), text);
        auto cm = commands(r);
        bool anyfail = false;
        for (auto &c : cm)
          anyfail |= c.status != 0;
        if (r.ok() == anyfail) {
          cx.violation("run result is wrong in a history with a compilation database " + p, show(r));
          return;
        }
        for (auto &c : cm)
          for (auto &s : {"a.cpp", "n.cpp", "b.cpp"})
            if (c.cmd.find(std::string("/p/") + s) != std::string::npos && c.cmd.find(" -c ") != std::string::npos)
              n.cmds[std::string("|") + g_root + "/p/" + s] = c.cmd;
        if (!r.ok()) {
          if (text != old)
            cx.violation("a failed run rewrites the compilation database " + p, text);
        } else if (cm.empty()) {
          if (text != old)
            cx.violation("a run which builds nothing rewrites the compilation database " + p, text);
        } else {
          std::string e = text == old ? "not rewritten" : db_check(d, text, {}, n.cmds);
          if (!e.empty())
            cx.violation("compilation database after a build is wrong " + p, e + "\n" + text + "\n" + show(r));
        }
        cx.outcome(std::string(r.ok() ? "ok" : "failed") + (cm.empty() ? " nothing" : " built"));
        n.t = snapshot(bdir);
        if (left > 1) {
          std::string key = std::to_string(tree_hash(n.t)) + std::to_string(h.src1) + std::to_string(h.extra) + std::to_string(h.flag) + std::to_string(h.src2) + "@" + std::to_string(left);
          if (seen.insert(key).second)
            rec(n, left - 1, p);
        }
      }
  };
  rec(St(), depth, "");
  rm_rf(g_root + "/p");
}
} // namespace

namespace mc {
std::vector<Unit> make_units(const std::string &prop, bool th, const std::string &) {
  std::vector<Unit> u;
  auto add = [&](const std::string &n, const std::function<void(Ctx &)> &f) { u.push_back({n, f}); };
  if (prop == "C17") {
    for (int s = 0; s < 2; s++)
      for (int f = 0; f < NENT; f++)
        add("contents" + std::to_string(s) + "." + entn[f], [s, f, th](Ctx &cx) { c17_contents(cx, s, f, th); });
    add("shared", c17_shared);
    add("many", c17_many);
    add("plugin", c17_plugin);
    for (int f = 0; f < NPTH; f++)
      add(std::string("paths.") + pthn[f], [f, th](Ctx &cx) { c17_paths(cx, f, th); });
    for (int k = 0; k < 9; k++)
      add("verify." + std::to_string(k), [k](Ctx &cx) { c17_verify(cx, k); });
  }
  if (prop == "C19") {
    auto one = [](const std::string &n, std::vector<Strs> srcs, std::vector<Strs> flags) {
      DB d;
      d.name = n;
      d.srcs = std::move(srcs);
      d.flags = std::move(flags);
      return d;
    };
    for (size_t a = 0; a < awkward.size(); a++) {
      std::vector<DB> ds;
      std::string x = awkward[a];
      ds.push_back(one("source " + x, {{fname(x) + ".cpp"}}, {{}}));
      ds.push_back(one("directory " + x, {{fname(x) + "/s.cpp"}}, {{}}));
      ds.push_back(one("flag " + x, {{"a.cpp"}}, {{"-D" + x}}));
      for (auto &y : awkward) {
        ds.push_back(one("source " + x + " flag " + y, {{fname(x) + ".cpp"}}, {{y}}));
        ds.push_back(one("two targets, source " + x + " source " + y, {{fname(x) + ".cpp", "z.cpp"}, {fname(y) + ".c"}}, {{x}, {y}}));
        if (y != x && th) {
          ds.push_back(one("sources " + x + " " + y, {{fname(x) + ".cpp", fname(y) + ".cpp"}}, {{}}));
          ds.push_back(one("flags " + x + " " + y, {{"a.cpp"}}, {{x, y}}));
        }
      }
      DB d = one("root " + x, {{"a.cpp", "d/b.c"}}, {{x}});
      d.rootd = "r" + fname(x);
      d.buildd = d.rootd + "/_b";
      ds.push_back(d);
      d = one("build directory " + x, {{"a.cpp", "d/b.c"}}, {{}});
      d.buildd = "p/_b" + fname(x);
      ds.push_back(d);
      d = one("every source twice " + x, {{"a.cpp", fname(x) + ".c"}, {"a.cpp"}}, {{}, {x}});
      d.dup = true;
      ds.push_back(d);
      add("content." + std::to_string(a), [ds](Ctx &cx) { c19_content(cx, ds); });
    }
    // many targets of many sources
    std::vector<DB> big;
    for (int nt : {1, 2, 3, 7, 12, 20})
      for (int ns : {0, 1, 2, 5, 12, 40})
        for (int more = 0; more < 2; more++) {
          if (ns * nt > 250)
            continue;
          DB d;
          d.name = std::to_string(nt) + " targets of " + std::to_string(ns) + " sources" + (more ? ", with headers" : "");
          d.more = more;
          const char *e[] = {".cpp", ".c", ".S", ".s", ".cc"};
          for (int t = 0; t < nt; t++) {
            Strs l;
            for (int k = 0; k < ns; k++)
              l.push_back((k % 3 ? "m" : "d/m") + std::to_string(t) + "_" + std::to_string(k) + e[k % 5]);
            d.srcs.push_back(l);
            d.flags.push_back({});
          }
          big.push_back(d);
        }
    add("content.many", [big](Ctx &cx) { c19_content(cx, big); });
    for (int f = 0; f < 6; f++)
      add("hist." + std::to_string(f), [th, f](Ctx &cx) { c19_hist(cx, th ? 5 : 4, f); });
  }
  return u;
}
} // namespace mc

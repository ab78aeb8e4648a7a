// C01-C04: histories of edits, builds, failures and crashes of targets.
#include "proj.h"
#include <algorithm>
using namespace mc;
using namespace proj;

namespace {

struct Clean {
  bool ok = false;
  std::map<std::string, std::string> art;
  std::vector<std::string> cmds;
};
struct Search {
  Ctx &cx;
  const Scn &sc;
  std::string bdir;
  std::map<V, Clean> cleans;
  explicit Search(Ctx &c, const Scn &s) : cx(c), sc(s), bdir(g_root + "/p/_b") {}

  void world(const Tree &b, const V &v) {
    mkdirs(bdir);
    sc.apply(v);
    restore(bdir, b);
  }
  const Clean &clean(const V &v) {
    auto it = cleans.find(v);
    if (it != cleans.end())
      return it->second;
    world({}, v);
    Result r = run_once(cx, [&] { sc.script(v); }, Cfg());
    Clean c;
    c.ok = r.ok();
    c.art = artifacts(sc, v);
    for (auto &x : commands(r))
      c.cmds.push_back(x.cmd);
    if (!c.ok)
      cx.violation("from-scratch build fails " + sc.name + vstr(sc, v), show(r));
    return cleans[v] = c;
  }
};

std::string diff(const std::map<std::string, std::string> &a, const std::map<std::string, std::string> &b) {
  std::string r;
  for (auto &[k, x] : a)
    if (!b.count(k) || b.at(k) != x)
      r += "  " + k + ": got " + x + "  expected " + (b.count(k) ? b.at(k) : "") + "\n";
  return r;
}

std::vector<V> product(const Scn &s, const std::vector<int> &ds, int cap) {
  std::vector<V> out{s.base};
  for (int d : ds) {
    std::vector<V> n;
    for (auto &v : out)
      for (int k = 0; k < std::min(s.dims[d].n, cap); k++) {
        V w = v;
        w[d] = (s.base[d] + k) % s.dims[d].n;
        n.push_back(w);
      }
    out = n;
  }
  return out;
}

struct St {
  Tree t;
  int last = -1;   // index of the vector of the last successful build, -1 none
  int faults = 0;  // faulty builds so far
  std::string hist;
  // what the next build at `pend` still has to do (C03)
};

// commands a build may run going from v to w (both successful), C02
bool allowed(const Scn &s, const V &v, const V &w, const std::string &cmd, std::string &why) {
  std::set<char> cats;
  std::set<std::string> srcs;
  bool app_changed = false, foo_changed = false, bar_changed = false;
  for (size_t i = 0; i < v.size(); i++) {
    if (v[i] == w[i])
      continue;
    auto &d = s.dims[i];
    cats.insert(d.cat);
    if (d.cat == 's' || d.cat == 'f' || d.cat == 'r')
      srcs.insert(d.what);
    if (d.cat == 'S')
      srcs.insert({"b.c", "d/b.c"});
    if (d.cat == 'm') // some sources are added, some taken away
      srcs.insert({"a.cpp", "b.c", "d/b.c", "s.S"});
    if (d.cat == 'f' || d.cat == 'F')
      foo_changed = true;
    else if (d.cat == 'r')
      bar_changed = true;
    else
      app_changed = true;
  }
  if (s.lang && s.lang(v) != s.lang(w))
    cats.insert('c'); // e.g. the precompiled header is for one language
  auto a = split_cmd(cmd);
  bool compile = std::find(a.begin(), a.end(), "-c") != a.end();
  std::string out;
  for (size_t i = 0; i + 1 < a.size(); i++)
    if (a[i] == "-o")
      out = a[i + 1];
  if (out.empty() && a.size() > 2)
    out = a[2]; // ar rcs OUT
  std::string tgt = out.find("/gcc/foo/") != std::string::npos ? "foo" : out.find("/gcc/bar/") != std::string::npos ? "bar" : "app";
  if (v == w) {
    why = "nothing changed";
    return false;
  }
  if (s.name == "L" || s.name == "L0") {
    int l = s.dim("libs");
    bool usefoo = w[l] <= 2, usebar = w[l] >= 1 && w[l] <= 3;
    if (tgt == "foo" && !foo_changed) {
      why = "library foo did not change";
      return false;
    }
    if (tgt == "bar" && !bar_changed) {
      why = "library bar did not change";
      return false;
    }
    if (tgt == "app" && !app_changed && !(foo_changed && usefoo) && !(bar_changed && usebar)) {
      why = "app neither changed nor consumes something rebuilt";
      return false;
    }
    if (tgt == "app" && compile && !app_changed) {
      why = "only libraries of app changed";
      return false;
    }
  }
  if (!compile)
    return true;
  std::set<char> c2 = cats;
  if (tgt == "app") {
    for (char x : {'f', 'F', 'r'})
      c2.erase(x);
    c2.erase('l');
    if (c2.empty()) {
      why = "only link inputs changed";
      return false;
    }
    if (c2.count('c'))
      return true;
  } else if (tgt == "foo") {
    if (c2.count('F'))
      return true;
  }
  // only sources changed: the command's input must be one of them
  std::string in = a.back();
  for (auto &x : srcs)
    if (in.size() > x.size() && in.compare(in.size() - x.size() - 1, x.size() + 1, "/" + x) == 0)
      return true;
  why = "source did not change";
  return false;
}

// full search over histories within the vectors vs
void search(Ctx &cx, const Scn &sc, const std::vector<V> &vs, const std::string &prop,
            const Cfg &cfg, const Budget &b, int max_faults) {
  Search se(cx, sc);
  std::vector<St> q;
  std::set<std::tuple<uint64_t, int, int>> seen;
  q.push_back({});
  long checks = 0;
  for (auto &v : vs) {
    se.clean(v);
    if (cx.violations_in_unit)
      return;
  }
  for (size_t qi = 0; qi < q.size(); qi++) {
    if (cx.stop())
      return;
    for (size_t vi = 0; vi < vs.size(); vi++) {
      const V v = vs[vi];
      const Clean &cl = se.clean(v);
      bool faulty = q[qi].faults < max_faults;
      Cfg c = faulty ? cfg : Cfg();
      Budget bb = faulty ? b : Budget();
      std::vector<std::string> defcmds; // commands of the fault free build
      bool first = true;
      explore(
          cx, [&] { se.world(q[qi].t, v); }, [&] { sc.script(v); }, c, bb,
          [&](const Result &r) {
            cx.transitions(1);
            Tree t = snapshot(se.bdir);
            std::string h = q[qi].hist + " -> " + vstr(sc, v);
            bool dev = false;
            for (auto &x : r.trace)
              dev |= x.pick != 0 && x.kind != K_SCHED; // a fault
            if (dev)
              h += "[" + show_choices(r.trace) + "]";
            auto cm = commands(r);
            for (auto &e : r.ev)
              if (e.type == 'X') {
                cx.violation("access outside the project " + e.s, h + "\n" + show(r));
                return false;
              }
            bool ok = r.ok();
            if (first) {
              first = false;
              for (auto &x : cm)
                defcmds.push_back(x.cmd);
            }
            if (ok) {
              auto art = artifacts(sc, v);
              if (prop != "C02" && art != cl.art) {
                cx.violation("artifact differs from clean build: " + sc.name + h,
                             "history:" + h + "\n" + diff(art, cl.art) + show(r));
                return false;
              }
              checks++;
            } else if (prop == "C02") {
              return true;
            } else if (!dev) {
              cx.violation("build without faults does not succeed: " + sc.name + h,
                           "history:" + h + "\n" + show(r));
              return false;
            }
            if (ok && prop == "C02" && q[qi].last >= 0) {
              const V &lv = vs[q[qi].last];
              std::string why;
              for (auto &x : cm)
                if (!allowed(sc, lv, v, x.cmd, why)) {
                  cx.violation("unnecessary command (" + why + ") " + sc.name + " " + vstr(sc, lv) + "->" + vstr(sc, v),
                               "history:" + h + "\ncommand: " + x.cmd + "\n" + show(r));
                  return false;
                }
              if (lv == v)
                for (auto &e : r.ev)
                  if (e.type == 'M') {
                    cx.violation("nothing changed but a file is written: " + e.s.substr(0, e.s.find(' ')) + " " + sc.name + vstr(sc, v),
                                 "history:" + h + "\n" + e.s + "\n" + show(r));
                    return false;
                  }
            }
            if (prop == "C03" && dev) {
              // what failed or was skipped has to run in the next build at v
              std::set<std::string> done;
              for (auto &x : cm)
                if (x.status == 0)
                  done.insert(x.cmd);
              Result r2 = run_once(cx, [&] { sc.script(v); }, Cfg());
              std::set<std::string> ran;
              for (auto &x : commands(r2))
                ran.insert(x.cmd);
              for (auto &x : defcmds)
                if (!done.count(x) && !ran.count(x)) {
                  cx.violation("failed or skipped step is not run again: " + sc.name + h,
                               "history:" + h + "\ncommand: " + x + "\n" + show(r) + "next build:\n" + show(r2));
                  return false;
                }
              if (!r2.ok() || artifacts(sc, v) != cl.art) {
                cx.violation("build after a failed one does not repair: " + sc.name + h,
                             "history:" + h + "\n" + diff(artifacts(sc, v), cl.art) + show(r) + "next build:\n" + show(r2));
                return false;
              }
            }
            cx.outcome(sc.name + vstr(sc, v) + r.outcome() + std::to_string(cm.size()));
            St n;
            n.last = ok ? (int)vi : (prop == "C02" ? -1 : q[qi].last);
            if (prop != "C02")
              n.last = 0;
            n.faults = q[qi].faults + (dev ? 1 : 0);
            if (seen.insert({tree_hash(t), n.last, n.faults}).second) {
              n.t = std::move(t);
              n.hist = h;
              q.push_back(std::move(n));
              cx.states(1);
              if (q.size() == 4)
                cx.sample(sc.name + ": " + h);
            }
            return true;
          });
      if (cx.violations_in_unit >= 1 || cx.stop())
        return;
    }
  }
}

std::string nm(const Scn &s, const std::vector<int> &ds) {
  std::string r = s.name;
  for (int d : ds)
    r += "." + s.dims[d].name;
  return r;
}

} // namespace

namespace mc {
std::vector<Unit> make_units(const std::string &prop, bool th, const std::string &) {
  std::vector<Unit> u;
  auto add = [&](const Scn &s, std::vector<int> ds, int cap, Cfg c, Budget b, int mf, const std::string &suf = "") {
    u.push_back({nm(s, ds) + suf, [&s, ds, cap, c, b, mf, prop](Ctx &cx) {
                   search(cx, s, product(s, ds, cap), prop, c, b, mf);
                 }});
  };
  const Scn &A = scn("A"), &A0 = scn("A0"), &L = scn("L"), &L0 = scn("L0"), &B = scn("B"), &AS = scn("AS"), &AD = scn("AD"), &M = scn("M"), &G = scn("G"), &T = scn("T"), &TG = scn("TG"), &X = scn("X"), &P = scn("P");
  auto idx = [](const Scn &s, std::vector<std::string> n) {
    std::vector<int> r;
    for (auto &x : n)
      r.push_back(s.dim(x));
    return r;
  };
  auto all = [](const Scn &s) {
    std::vector<int> r;
    for (size_t i = 0; i < s.dims.size(); i++)
      r.push_back((int)i);
    return r;
  };
  if (prop == "C01" || prop == "C02") {
    for (auto *s : {&M, &B, &L, &L0, &A, &A0, &AS, &AD}) {
      int n = (int)s->dims.size();
      if (s == &M && prop == "C02")
        continue;
      for (int i = 0; i < n; i++)
        add(*s, {i}, 9, Cfg(), Budget(), 0);
      if ((s == &AD || s == &B) && !th)
        continue;
      for (int i = 0; i < n; i++)
        for (int j = i + 1; j < n; j++)
          add(*s, {i, j}, ((s == &AS || s == &A0 || s == &L0) && !th) ? 2 : th ? 4 : 3, Cfg(), Budget(), 0);
    }
    for (const char *d : {"a", "hdr", "dep"}) // how far apart the times are
      u.push_back({std::string("A.times.") + d, [=, &A](Ctx &cx) {
                     for (int k : {100, 250})
                       for (int i = 0; i < (k == 100 ? 122 : 38); i++) {
                         V w = A.base;
                         w[A.dim(d)] = k + i;
                         search(cx, A, {A.base, w}, prop, Cfg(), Budget(), 0);
                         if (cx.violations_in_unit || cx.stop())
                           return;
                       }
                   }});
    for (int i = 0; i < (int)X.dims.size() - 1; i++) {
      add(X, {i}, 9, Cfg(), Budget(), 0);
      add(X, {(int)X.dims.size() - 1, i}, th ? 7 : 3, Cfg(), Budget(), 0);
    }
    for (int i = 0; i < (int)X.dims.size() - 2; i++)
      add(X, {(int)X.dims.size() - 2, i}, th ? 7 : 3, Cfg(), Budget(), 0);
    add(X, {X.dim("mix")}, 9, Cfg(), Budget(), 0);
    if (th)
      for (auto *s : {&A, &L}) {
        int n = (int)s->dims.size();
        for (int i = 0; i < n; i++)
          for (int j = i + 1; j < n; j++)
            for (int k = j + 1; k < n; k++)
              add(*s, {i, j, k}, 2, Cfg(), Budget(), 0);
      }
  }
  if (prop == "C03" || prop == "C04") {
    Cfg c;
    c.en[prop == "C03" ? K_FAIL : K_CRASH] = true;
    Budget b, b2;
    b.total = 1;
    b2.total = 2;
    Cfg ct = c;
    ct.torn_all = true;
    std::map<const Scn *, std::vector<int>> core{
        {&L, idx(L, {"a", "libs", "foo", "fflag", "flink"})},
        {&A, idx(A, {"a", "csrc", "hdr", "pch", "fcpp"})},
        {&AS, idx(AS, {"a", "csrc"})},
        {&M, idx(M, {"in", "tin", "a"})}};
    if (prop == "C04") {
      add(T, {0}, 2, ct, b, 1, ".torn");
      add(TG, {0}, 2, ct, b, 1, ".torn");
    } else {
      for (auto *s : {&L, &A})
        for (const char *d : {"a", "fcpp"})
          add(*s, {s->dim(d)}, 2, c, b2, 1, ".2fail");
    }
    { // faults while the other target is anywhere in its steps
      Cfg cs = c;
      cs.en[K_SCHED] = true;
      Budget bs;
      bs.total = 2;
      bs.per[K_SCHED] = bs.per[K_FAIL] = bs.per[K_CRASH] = 1;
      for (auto &ds : std::vector<std::vector<int>>{idx(P, {"hdr", "foo"}), idx(P, {"fpch", "fhdr"}), idx(P, {"a", "foo"}), idx(P, {"hdr", "fhdr"})}) {
        if (th) {
          add(P, ds, 2, cs, bs, 1, ".sched");
          continue;
        }
        V both = P.base; // edited together
        for (int d : ds)
          both[d] = 1;
        if (ds[0] == P.dim("hdr") ? ds[1] == P.dim("foo") : prop == "C03" && ds[0] == P.dim("fpch"))
          u.push_back({"P." + P.dims[ds[0]].name + P.dims[ds[1]].name + ".sched", [=, &P](Ctx &cx) { search(cx, P, {P.base, both}, prop, cs, bs, 1); }});
      }
    }
    add(X, {X.dim("mix")}, 3, c, b, 1);
    for (const char *d : {"b", "hdr", "pch", "fc", "csrc"})
      add(X, {X.dim("mix"), X.dim(d)}, 2, c, b, 1);
    add(X, {X.dim("typ")}, 3, c, b, 1);
    add(X, {X.dim("typ"), X.dim("a")}, 2, c, b, 1);
    if (prop == "C03")
      for (const char *d : {"s8", "hdr", "flink"})
        add(B, {B.dim(d)}, 2, c, b, 1);
    for (auto *s : {&L, &A, &A0, &AS, &M, &G}) {
      for (int i : all(*s))
        add(*s, {i}, th ? 4 : 2, c, b, 1);
      auto &k = core[s];
      for (size_t i = 0; i < k.size(); i++) {
        add(*s, {k[i]}, 2, c, b, 2, ".2builds");
        for (size_t j = i + 1; j < k.size(); j++)
          add(*s, {k[i], k[j]}, 2, c, b, 1);
      }
    }
    if (th)
      for (auto *s : {&L, &A, &AS, &M, &G}) {
        int n = (int)s->dims.size();
        for (int i = 0; i < n; i++) {
          add(*s, {i}, 2, c, b, 3, ".3builds");
          if (prop == "C03")
            add(*s, {i}, 2, c, b2, 1, ".2failures");
          for (int j = i + 1; j < n; j++)
            add(*s, {i, j}, 2, c, b, 1, ".pair");
        }
      }
    if (th && prop == "C04")
      for (auto *s : {&L, &M})
        add(*s, {s->dim("a")}, 2, ct, b, 1, ".torn");
  }
  return u;
}
} // namespace mc

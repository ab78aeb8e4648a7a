// C09: input files change at any moment while a build is running.
#include "proj.h"
#include <algorithm>
using namespace mc;
using namespace proj;

namespace {
struct Edit {
  int dim, val;
};

struct Run {
  Ctx &cx;
  const Scn &sc;
  std::string bdir = g_root + "/p/_b";
  std::map<V, std::map<std::string, std::string>> cleans;
  void world(const Tree &b, const V &v) {
    mkdirs(bdir);
    sc.apply(v);
    restore(bdir, b);
  }
  const std::map<std::string, std::string> &clean(const V &v) {
    auto it = cleans.find(v);
    if (it != cleans.end())
      return it->second;
    world({}, v);
    Result r = run_once(cx, [&] { sc.script(v); }, Cfg());
    if (!r.ok())
      cx.violation("from-scratch build fails " + sc.name + vstr(sc, v), show(r));
    return cleans[v] = artifacts(sc, v);
  }
};

// first: vector built before (empty: none); v: vector of the build during
// which the edits happen
void run(Ctx &cx, const Scn &sc, const V &first, const V &v, const std::vector<Edit> &edits, int nedits, bool sched) {
  Run rn{cx, sc};
  Tree start;
  if (!first.empty()) {
    rn.clean(first);
    rn.world({}, first);
    run_once(cx, [&] { sc.script(first); }, Cfg());
    start = snapshot(rn.bdir);
  }
  if (cx.violations_in_unit)
    return;
  Cfg cfg;
  cfg.en[K_EDIT] = true;
  cfg.en[K_SCHED] = sched;
  Budget b;
  b.total = nedits + (sched ? 1 : 0);
  b.per[K_EDIT] = nedits;
  b.per[K_SCHED] = sched ? 1 : 0;
  V cur;
  edit_count = [&] { return (int)edits.size(); };
  edit_apply = [&](int i) { // in the child
    cur[edits[i - 1].dim] = edits[i - 1].val;
    sc.apply(cur);
  };
  std::set<uint64_t> seen;
  explore(
      cx,
      [&] {
        rn.world(start, v);
        cur = v;
      },
      [&] {
        cur = v;
        // the script is written for v; only file contents change
        sc.script(v);
      },
      cfg, b, [&](const Result &r) {
        V fin = v;
        std::string h;
        for (auto &c : r.trace)
          if (c.kind == K_EDIT && c.pick) {
            auto &e = edits[c.pick - 1];
            fin[e.dim] = e.val;
            h += " " + sc.dims[e.dim].name + "=" + std::to_string(e.val);
          }
        cx.transitions(1);
        std::string what = sc.name + " from " + (first.empty() ? "nothing" : vstr(sc, first)) + " building " + vstr(sc, v) + " edits" + h;
        if (!r.ok()) {
          cx.violation("build fails when a file is edited meanwhile: " + what, show(r));
          return false;
        }
        Tree t = snapshot(rn.bdir);
        uint64_t key = tree_hash(t) ^ fnv(vstr(sc, fin));
        if (!seen.insert(key).second)
          return true;
        cx.states(1);
        rn.world(t, fin);
        Result r2 = run_once(cx, [&] { sc.script(fin); }, Cfg());
        auto art = artifacts(sc, fin);
        auto cl = rn.clean(fin);
        cx.outcome(what);
        if (!r2.ok() || art != cl) {
          std::string d;
          for (auto &[k, x] : cl)
            if (art[k] != x)
              d += "  " + k + ": got " + art[k] + "  expected " + x + "\n";
          cx.violation("edit lost: " + what, d + show(r, 200) + "next build:\n" + show(r2));
          return false;
        }
        if (cx.violations_in_unit)
          return false;
        cx.sample(what);
        return true;
      });
  edit_count = nullptr;
  edit_apply = nullptr;
}
} // namespace

namespace mc {
std::vector<Unit> make_units(const std::string &, bool th, const std::string &) {
  std::vector<Unit> u;
  std::map<std::string, std::vector<std::string>> files{
      {"A", {"a", "b", "s", "hdr", "hdr2", "pchc", "pchc2", "dep", "dep2"}},
      {"AS", {"a", "b", "hdr", "pchc", "dep"}},
      {"AD", {"a", "b", "hdr", "pchc", "dep"}},
      {"L", {"a", "foo", "fhdr", "bar", "extc", "ldep", "ldep2"}},
      {"G", {"in1", "in2", "in3", "fin", "tin"}},
      {"M", {"in", "tin", "a"}},
      {"T", {"a"}},
      {"TG", {"in"}}};
  for (auto &[name, fs] : files) {
    const Scn &s = scn(name);
    std::vector<V> base{s.base};
    if (name[0] == 'A') { // without a precompiled header too
      V v = s.base;
      v[s.dim("pch")] = 0;
      base.push_back(v);
    }
    for (auto &v : base)
      for (auto &f : fs) {
        int d = s.dim(f);
        std::vector<Edit> ed;
        for (int k = 1; k < std::min(s.dims[d].n, 3); k++)
          ed.push_back({d, k});
        // build before: none, the same, and every other file different
        std::vector<V> firsts{{}, v};
        for (auto &g : fs) {
          V w = v;
          w[s.dim(g)] = 1;
          firsts.push_back(w);
        }
        for (auto &w : firsts) {
          std::string n = name + "." + vstr(s, v) + "." + f + ".after" + (w.empty() ? "-none" : vstr(s, w));
          u.push_back({n, [&s, w, v, ed](Ctx &cx) { run(cx, s, w, v, ed, 1, false); }});
        }
        if (name == "T" || name == "TG" || th) {
          u.push_back({name + "." + vstr(s, v) + "." + f + ".2edits", [&s, v, ed](Ctx &cx) { run(cx, s, {}, v, ed, 2, false); }});
          u.push_back({name + "." + vstr(s, v) + "." + f + ".sched", [&s, v, ed](Ctx &cx) { run(cx, s, {}, v, ed, 1, true); }});
        }
      }
    if (th)
      for (auto &v : base)
        for (size_t i = 0; i < fs.size(); i++)
          for (size_t j = i + 1; j < fs.size(); j++) {
            std::vector<Edit> ed{{s.dim(fs[i]), 1}, {s.dim(fs[j]), 1}};
            u.push_back({name + "." + vstr(s, v) + "." + fs[i] + "+" + fs[j], [&s, v, ed](Ctx &cx) { run(cx, s, v, v, ed, 2, false); }});
          }
  }
  return u;
}
} // namespace mc

// C08: generator histories against a reference model of "must run / may run".
#include "proj.h"
#include <algorithm>
using namespace mc;
using namespace proj;

namespace {
struct Last {
  std::string fp; // fingerprint of the last success
  bool may = false, must = true;
  bool operator<(const Last &o) const {
    return std::tie(fp, may, must) < std::tie(o.fp, o.may, o.must);
  }
};
using Model = std::map<std::string, Last>;
std::string fp(const GenTask &t) {
  std::string r;
  for (auto &[p, v] : t.in)
    r += p + "@" + std::to_string(v) + ";";
  r += "|";
  for (auto &o : t.out)
    r += o + ";";
  return r + "|" + t.payload;
}
struct St {
  Tree t;
  Model m;
  int faults = 0;
  std::string hist;
};
std::string declared(const GenTask &t) {
  std::string r = t.id + "|";
  for (auto &[p, v] : t.in)
    r += p + ",";
  r += "|";
  for (auto &o : t.out)
    r += o + ",";
  return r + "|" + t.payload;
}

void search(Ctx &cx, const Scn &sc, const std::vector<V> &vs, const Cfg &cfg, const Budget &b, int max_faults) {
  std::string bdir = g_root + "/p/_b";
  std::map<size_t, std::map<std::string, std::string>> clean;
  auto world = [&](const Tree &t, const V &v) {
    mkdirs(bdir);
    sc.apply(v);
    restore(bdir, t);
  };
  for (size_t i = 0; i < vs.size(); i++) {
    world({}, vs[i]);
    Result r = run_once(cx, [&] { sc.script(vs[i]); }, Cfg());
    clean[i] = artifacts(sc, vs[i]);
    if (!r.ok()) {
      cx.violation("generators fail from scratch " + vstr(sc, vs[i]), show(r));
      return;
    }
    for (auto &[k, c] : clean[i])
      if (c == "<missing>") {
        cx.violation("output not generated " + k + " " + vstr(sc, vs[i]), show(r));
        return;
      }
    // template outputs have a known content
    int t = sc.dim("tval");
    std::string val = vs[i][t] == 3 ? "w0" : "v" + std::to_string(vs[i][t]), tin;
    read_raw(g_root + "/p/t.in", tin);
    size_t p;
    while ((p = tin.find("{val}")) != std::string::npos)
      tin.replace(p, 5, val);
    while ((p = tin.find("{current_root_dir}")) != std::string::npos)
      tin.replace(p, 18, g_root + "/p/");
    while ((p = tin.find("{{}}")) != std::string::npos)
      tin.replace(p, 4, "{}");
    std::string tin2 = tin;
    while ((p = tin2.find(g_root + "/p/")) != std::string::npos)
      tin2.replace(p, g_root.size() + 3, g_root + "/p");
    for (auto &[k, c] : clean[i])
      if ((k == "p/_b/tgen/t.txt" || k == "p/_b/tgen/alt.txt") && c != tin && c != tin2) {
        cx.violation("template output wrong " + vstr(sc, vs[i]), "got " + c + "\nexpected " + tin);
        return;
      }
  }
  std::vector<St> q(1);
  std::set<std::tuple<uint64_t, Model, int>> seen;
  for (size_t qi = 0; qi < q.size(); qi++) {
    if (cx.stop())
      return;
    for (size_t vi = 0; vi < vs.size(); vi++) {
      const V v = vs[vi];
      auto tasks = sc.tasks(v);
      bool faulty = q[qi].faults < max_faults;
      explore(
          cx, [&] { world(q[qi].t, v); }, [&] { sc.script(v); }, faulty ? cfg : Cfg(), faulty ? b : Budget(),
          [&](const Result &r) {
            cx.transitions(1);
            bool dev = false;
            for (auto &x : r.trace)
              dev |= x.pick != 0;
            Tree t = snapshot(bdir);
            std::string h = q[qi].hist + " -> " + vstr(sc, v);
            if (dev)
              h += "[" + show_choices(r.trace) + "]";
            auto bad = [&](const std::string &k) {
              cx.violation(k + " " + h, "history:" + h + "\n" + show(r));
              return false;
            };
            bool ok = r.ok();
            if (!dev && !ok)
              return bad("run without failures does not succeed");
            if (dev && ok)
              return bad("a failing generator step but the run succeeds");
            // observed: which tasks ran, which succeeded
            std::map<std::string, int> ran;
            std::map<std::string, bool> good;
            for (auto &e : r.ev) {
              if (e.type == 'C') {
                std::string id = e.s.substr(0, e.s.find('|'));
                ran[id]++;
                bool found = false;
                for (auto &x : tasks)
                  if (x.id == id) {
                    found = true;
                    if (declared(x) != e.s)
                      return bad("callback sees " + e.s + " instead of " + declared(x));
                  }
                if (!found)
                  return bad("unknown task invoked " + id);
              }
              if (e.type == 'c')
                good[e.s.substr(0, e.s.find('|'))] = e.s.find("|ok") != std::string::npos;
            }
            auto cm = commands(r);
            if (!cm.empty()) {
              ran["fgen/Generate"] = 1;
              bool g = true;
              for (auto &c : cm)
                g = g && c.status == 0;
              size_t want = v[sc.dim("fcmd")] >= 3 ? 3 : 2;
              if (ok && cm.size() != want)
                return bad("wrong number of commands");
              good["fgen/Generate"] = g && cm.size() == want;
            }
            // template generator tasks have no callback of ours: a write of the output
            for (auto &x : tasks)
              if (x.id.rfind("tgen/", 0) == 0)
                for (auto &e : r.ev)
                  if (e.type == 'M' && e.s == "open " + g_root + "/" + *x.out.begin()) {
                    ran[x.id]++;
                    good[x.id] = true;
                  }
            Model m;
            for (auto &x : tasks) {
              Last l;
              auto it = q[qi].m.find(x.id);
              if (it != q[qi].m.end())
                l = it->second;
              bool must = l.must || l.fp != fp(x);
              if (ran[x.id] > 1)
                return bad("task " + x.id + " invoked more than once");
              if (ran[x.id] && !must && !l.may)
                return bad("task " + x.id + " invoked although nothing changed");
              if (ok && must && !ran[x.id])
                return bad("task " + x.id + " not invoked although it has to");
              Last n;
              if (ran[x.id] && good[x.id]) {
                n.fp = fp(x);
                n.must = false;
                n.may = !ok;
              } else if (ran[x.id]) {
                n.must = true;
                n.may = true;
                n.fp = "";
              } else {
                n = l;
                n.may = l.may || !ok;
              }
              m[x.id] = n;
            }
            for (auto &[id, l] : q[qi].m)
              if (!m.count(id)) {
                // not declared in this run: forgotten if the run succeeded
                if (!ok) {
                  m[id] = l;
                  m[id].may = true;
                } 
              }
            // a task that was dropped and comes back unchanged may count as new
            if (ok && artifacts(sc, v) != clean[vi])
              return bad("output differs from a from-scratch run");
            cx.outcome(vstr(sc, v) + r.outcome() + std::to_string(ran.size()));
            St n;
            n.faults = q[qi].faults + dev;
            n.m = m;
            if (seen.insert({tree_hash(t), m, n.faults}).second) {
              n.t = std::move(t);
              n.hist = h;
              q.push_back(std::move(n));
              cx.states(1);
              if (q.size() == 4)
                cx.sample(h);
            }
            return true;
          });
      if (cx.violations_in_unit || cx.stop())
        return;
    }
  }
}
} // namespace

namespace mc {
std::vector<Unit> make_units(const std::string &, bool th, const std::string &) {
  std::vector<Unit> u;
  const Scn &G = scn("G");
  auto prod = [&](std::vector<int> ds, int cap) {
    std::vector<V> out{G.base};
    for (int d : ds) {
      std::vector<V> n;
      for (auto &v : out)
        for (int k = 0; k < std::min(G.dims[d].n, cap); k++) {
          V w = v;
          w[d] = (G.base[d] + k) % G.dims[d].n;
          n.push_back(w);
        }
      out = n;
    }
    return out;
  };
  {
    V many = G.base;
    many[G.dim("many")] = 1;
    auto vs = [=, &G](std::vector<const char *> ds) {
      std::vector<V> out{many};
      for (auto *d : ds) {
        std::vector<V> n;
        for (auto &v : out)
          for (int k = 0; k < G.dims[G.dim(d)].n; k++) {
            V w = v;
            w[G.dim(d)] = k;
            n.push_back(w);
          }
        out = n;
      }
      return out;
    };
    Cfg c;
    c.en[K_FAIL] = true;
    Budget b;
    b.total = 1;
    u.push_back({"many.min.fail", [=, &G](Ctx &cx) { auto l = vs({"min"});
                   if (!th)
                     l = {l[0], l[2]};
                   search(cx, G, l, c, b, 1); }});
    u.push_back({"many.min.two", [=, &G](Ctx &cx) { search(cx, G, vs({"min", "two"}), Cfg(), Budget(), 0); }});
    u.push_back({"many.many.in1", [=, &G](Ctx &cx) { search(cx, G, vs({"many", "in1"}), Cfg(), Budget(), 0); }});
  }
  auto add = [&](std::vector<int> ds, int cap, bool fail, int fb, int mf, std::string suf) {
    std::string nm = "G";
    for (int d : ds)
      nm += "." + G.dims[d].name;
    Cfg c;
    c.en[K_FAIL] = fail;
    Budget b;
    b.total = fb;
    u.push_back({nm + suf, [=, &G](Ctx &cx) { search(cx, G, prod(ds, cap), c, b, mf); }});
  };
  for (const char *d : {"outset", "pay", "pay2", "two"}) { // no task has inputs
    Cfg c;
    c.en[K_FAIL] = true;
    Budget b;
    b.total = 1;
    u.push_back({std::string("G.noin.") + d + ".fail", [=, &G](Ctx &cx) {
                   std::vector<V> l = prod({G.dim(d)}, 4);
                   for (auto &v : l)
                     v[G.dim("inset")] = 3;
                   search(cx, G, l, c, b, 1);
                 }});
  }
  int n = (int)G.dims.size();
  for (int i = 0; i < n; i++)
    add({i}, 9, true, 1, th ? 2 : 1, ".fail");
  for (int i = 0; i < n; i++) {
    add({i}, 2, true, 2, 1, ".2fail");
    for (int j = i + 1; j < n; j++) {
      add({i, j}, th ? 5 : 3, false, 0, 0, "");
      if (th)
        add({i, j}, 2, true, 1, 1, ".fail");
    }
  }
  if (th)
    for (int i = 0; i < n; i++)
      for (int j = i + 1; j < n; j++)
        for (int k = j + 1; k < n; k++)
          add({i, j, k}, 2, false, 0, 0, "");
  return u;
}
} // namespace mc

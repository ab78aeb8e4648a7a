// C10: build records. Round trips over all field contents of an alphabet on the
// record classes; every truncation and every structural damage of real records
// followed by real builds.
#include "bcc.h"
#include "schema/custom_generator_serialization.h"
#include "schema/target_serialization.h"
#include <algorithm>
#include <functional>
using namespace mc;
using namespace proj;
using namespace buildcc;
using internal::CustomGeneratorSchema;
using internal::CustomGeneratorSerialization;
using internal::PathInfoList;
using internal::PathList;
using internal::TargetSchema;
using internal::TargetSerialization;

namespace {
std::vector<std::string> alphabet(bool th) {
  std::vector<std::string> a{"", "x", "a b", " ", "\"", "\\", "'", "\n", "\t", "\r", "\x01", "\x1f", "\x7f",
                             "\xc3\xa9", "\xe6\x97\xa5", "\xf0\x9f\x98\x80", "{", "}", "[", "]", ",", ":", "-DX=\"a b\"",
                             "/p/a.cpp", "null", "0", "\\u0041", "\\\"", "//"};
  a.push_back(std::string("n\0ul", 4));
  a.push_back(std::string(5000, 'y'));
  if (th)
    for (int c = 1; c < 128; c++)
      a.push_back(std::string("_") + (char)c);
  return a;
}
// fields of a target record, through one interface
struct Field {
  std::string name;
  std::function<void(TargetSchema &, const std::vector<std::string> &)> set;
  std::function<std::vector<std::string>(const TargetSchema &)> get;
};
#define STRS(f)                                                                                                        \
  Field { #f, [](TargetSchema &s, const std::vector<std::string> &v) { s.f = v; }, [](const TargetSchema &s) { return s.f; } }
#define DIRS(f)                                                                                                        \
  Field {                                                                                                              \
    #f, [](TargetSchema &s, const std::vector<std::string> &v) { for (auto &x : v) s.f.Emplace(x); },                  \
        [](const TargetSchema &s) { return s.f.GetPaths(); }                                                           \
  }
#define INFOS(f)                                                                                                       \
  Field {                                                                                                              \
    #f, [](TargetSchema &s, const std::vector<std::string> &v) { for (auto &x : v) s.f.Emplace(x, x + "#"); },         \
        [](const TargetSchema &s) {                                                                                    \
          std::vector<std::string> r;                                                                                  \
          for (auto &i : s.f.GetPathInfos())                                                                           \
            r.push_back(i.path), r.push_back(i.hash);                                                                  \
          return r;                                                                                                    \
        }                                                                                                              \
  }
std::vector<Field> fields() {
  return {
      INFOS(sources),
      INFOS(headers),
      INFOS(pchs),
      INFOS(libs),
      STRS(external_libs),
      DIRS(include_dirs),
      DIRS(lib_dirs),
      STRS(preprocessor_flags),
      STRS(common_compile_flags),
      STRS(pch_compile_flags),
      STRS(pch_object_flags),
      STRS(asm_compile_flags),
      STRS(c_compile_flags),
      STRS(cpp_compile_flags),
      STRS(link_flags),
      INFOS(compile_dependencies),
      INFOS(link_dependencies),
      Field{"name",
            [](TargetSchema &s, const std::vector<std::string> &v) {
              s.name = v.empty() ? "" : v.size() > 1 ? v[0] + v[1] : v[0];
            },
            [](const TargetSchema &s) { return std::vector<std::string>{s.name}; }},
  };
}
std::string dump(const TargetSchema &s) {
  std::string r;
  for (auto &f : fields()) {
    r += f.name + ":";
    for (auto &x : f.get(s))
      r += " <" + esc(x.size() > 60 ? x.substr(0, 60) + std::to_string(x.size()) + "~" + std::to_string(std::hash<std::string>()(x)) : x) + ">";
    r += "\n";
  }
  r += "type " + std::to_string((int)s.type) + " pch " + std::to_string(s.pch_compiled) + " linked " + std::to_string(s.target_linked) + "\n";
  return r;
}
// store a schema through the interface the library itself uses
std::string round_trip(const TargetSchema &s) {
  std::string f = g_root + "/rec.bin";
  std::string want;
  {
    TargetSerialization t(f);
    if (s.pch_compiled)
      t.UpdatePchCompiled(s);
    for (auto &i : s.sources.GetPathInfos())
      t.AddSource(i.path, i.hash);
    if (s.target_linked)
      t.UpdateTargetCompiled();
    t.UpdateStore(s);
    want = dump(s);
    if (dump(t.GetStore()) != want)
      return "store differs from what was given\n" + dump(t.GetStore());
    if (!t.StoreToFile())
      return "not stored";
  }
  TargetSerialization t(f);
  if (t.IsLoaded())
    return "loaded before loading";
  if (!t.LoadFromFile() || !t.IsLoaded())
    return "stored record not loaded";
  if (dump(t.GetLoad()) != want)
    return "loaded record differs\n" + dump(t.GetLoad());
  return "";
}
void c10_fields(Ctx &cx, size_t fi, bool th) {
  auto A = alphabet(th);
  auto F = fields();
  std::vector<std::vector<std::string>> lists{{}};
  for (auto &a : A)
    lists.push_back({a});
  for (auto &a : A)
    for (auto &b : A)
      if (a.size() < 1000 || b.size() < 1000)
        lists.push_back({a, b});
  for (int n : {3, 8, 17, 64, 100, 300, 1500}) { // long lists, in several orders
    std::vector<std::string> l;
    for (int i = 0; i < n; i++)
      l.push_back("/some/where/e" + std::to_string(i * 7919 % n) + (i % 3 ? ".x" : ".longer extension"));
    lists.push_back(l);
    std::reverse(l.begin(), l.end());
    lists.push_back(l);
    std::sort(l.begin(), l.end());
    lists.push_back(l);
  }
  struct C {
    size_t l;
    int mode;
  };
  std::vector<C> cs;
  for (size_t l = 0; l < lists.size(); l++)
    for (int m = 0; m < (lists[l].size() < 2 ? 4 : 1); m++)
      cs.push_back({l, m});
  auto build = [&](const C &c) {
    TargetSchema s;
    // the other fields: empty (0, 1), or filled (2, 3)
    if (c.mode >= 2)
      for (size_t k = 0; k < F.size(); k++)
        if (k != fi)
          F[k].set(s, {F[k].name, "second " + F[k].name});
    s.type = c.mode == 0 ? TargetType::Executable : c.mode == 1 ? TargetType::StaticLibrary : c.mode == 2 ? TargetType::DynamicLibrary : TargetType::Executable;
    F[fi].set(s, lists[c.l]);
    s.target_linked = c.mode & 1;
    s.pch_compiled = c.mode == 2 || F[fi].name == "pchs" || !s.pchs.GetPathInfos().empty();
    return s;
  };
  run_cases(
      cx, (int)cs.size(), [&](int i) { return round_trip(build(cs[i])); },
      [&](int i, const Case &c) {
        cx.states(1);
        cx.transitions(1);
        if (!c.done || !c.out.empty()) {
          std::string v;
          for (auto &x : lists[cs[i].l])
            v += " <" + esc(x.substr(0, 60)) + ">";
          cx.violation("record does not round trip: " + F[fi].name + v + " mode " + std::to_string(cs[i].mode),
                       "stored:\n" + dump(build(cs[i])) + "got:\n" + (c.done ? c.out : c.res.outcome()));
        }
      });
  cx.outcome("round trip " + F[fi].name);
}
// text that a record cannot hold (not UTF-8): refused, or else stored exactly;
// never stored as something else
std::vector<std::string> invalid_text() {
  return {"\xff", "\x80", "\xc3", "\xc3\x28", "a\xe9z", "\xed\xa0\x80", "\xf5\x80\x80\x80", "\xc0\xaf", "-DX=\xfe", "ok\xe6\x97", "\xf0\x9f\x98"};
}
template <class F> std::string stored_or_refused(F f) {
  std::string e;
  try {
    e = f();
  } catch (const std::exception &) {
    return "";
  }
  return e == "not stored" ? "" : e;
}
std::string ground_trip(const CustomGeneratorSchema &s);
void c10_invalid(Ctx &cx) {
  auto A = invalid_text();
  auto F = fields();
  int nf = (int)F.size();
  // cases: every target field, then generator name, id, input, output; alone or behind valid text
  int n = (nf + 4) * (int)A.size() * 2;
  run_cases(
      cx, n,
      [&](int i) {
        const std::string &a = A[i / 2 % A.size()];
        int f = i / 2 / (int)A.size();
        bool second = i & 1;
        std::vector<std::string> l = second ? std::vector<std::string>{"valid", a} : std::vector<std::string>{a};
        if (f < nf) {
          TargetSchema s;
          F[f].set(s, l);
          s.pch_compiled = F[f].name == "pchs";
          return stored_or_refused([&] { return round_trip(s); });
        }
        CustomGeneratorSchema s;
        s.name = f == nf ? a : "n";
        CustomGeneratorSchema::IdInfo id;
        if (f == nf + 2)
          for (auto &x : l)
            id.inputs.Emplace(x, "h");
        if (f == nf + 3)
          for (auto &x : l)
            id.outputs.Emplace(x);
        s.internal_ids.try_emplace(f == nf + 1 ? a : "i", id);
        return stored_or_refused([&] { return ground_trip(s); });
      },
      [&](int i, const Case &c) {
        cx.states(1);
        cx.transitions(1);
        bool refused = !c.done && c.res.exited && c.res.code != 0;
        if (!refused && (!c.done || !c.out.empty()))
          cx.violation("text that is not UTF-8 is stored as something else: case " + std::to_string(i), c.done ? c.out : c.res.outcome());
      });
  cx.outcome("not UTF-8");
}
std::string gdump(const CustomGeneratorSchema &s) {
  std::map<std::string, std::string> m;
  for (auto &[k, v] : s.internal_ids) {
    std::string r;
    for (auto &i : v.inputs.GetPathInfos())
      r += " <" + i.path + "|" + i.hash + ">";
    r += " ->";
    for (auto &o : v.outputs.GetPaths())
      r += " <" + o + ">";
    r += " blob";
    for (auto b : v.userblob)
      r += " " + std::to_string(b);
    m[k] = r;
  }
  std::string r = "name <" + esc(s.name) + ">\n";
  for (auto &[k, v] : m)
    r += "<" + esc(k) + "> " + esc(v) + "\n";
  return r;
}
std::string ground_trip(const CustomGeneratorSchema &s) {
  std::string f = g_root + "/rec.json";
  {
    CustomGeneratorSerialization t(f);
    t.UpdateStore(s);
    if (!t.StoreToFile())
      return "not stored";
  }
  CustomGeneratorSerialization t(f);
  if (!t.LoadFromFile() || !t.IsLoaded())
    return "stored record not loaded";
  if (gdump(t.GetLoad()) != gdump(s))
    return "loaded record differs\n" + gdump(t.GetLoad());
  return "";
}
void c10_gen(Ctx &cx, bool th) {
  auto A = alphabet(th);
  std::vector<CustomGeneratorSchema> cs;
  auto add = [&](const std::string &name, std::vector<std::tuple<std::string, std::vector<std::string>, std::vector<std::string>, std::vector<uint8_t>>> ids) {
    CustomGeneratorSchema s;
    s.name = name;
    for (auto &[k, in, out, blob] : ids) {
      CustomGeneratorSchema::IdInfo i;
      for (auto &x : in)
        i.inputs.Emplace(x, x + "#");
      for (auto &x : out)
        i.outputs.Emplace(x);
      i.userblob = blob;
      s.internal_ids.try_emplace(k, i);
    }
    cs.push_back(s);
  };
  for (auto &a : A) {
    add(a, {});
    add("n", {{a, {}, {}, {}}});
    add("n", {{"i", {a}, {}, {}}});
    add("n", {{"i", {}, {a}, {}}});
    for (auto &b : A) {
      if (a.size() + b.size() > 6000)
        continue;
      add("n", {{a, {a}, {b}, {}}, {b, {b, a}, {a}, {1}}});
      add("n", {{"i", {a, b}, {}, {}}});
      add("n", {{"i", {}, {b, a}, {}}});
    }
  }
  for (int b = 0; b < 256; b++) {
    add("n", {{"i", {"x"}, {"y"}, {(uint8_t)b}}});
    add("n", {{"i", {"x"}, {"y"}, {(uint8_t)b, 0}}, {"j", {}, {}, {0, (uint8_t)b}}});
  }
  for (int n : {0, 1, 2, 3, 255, 256, 257, 4096})
    add("n", {{"i", {}, {}, std::vector<uint8_t>(n, 200)}, {"k", {}, {}, std::vector<uint8_t>(n, 0)}});
  for (int n : {3, 8, 17, 64, 100, 300, 1500}) {
    std::vector<std::string> l;
    for (int i = 0; i < n; i++)
      l.push_back("/some/where/e" + std::to_string(i));
    add("n", {{"i", l, {}, {}}});
    add("n", {{"i", {}, l, {}}});
    std::vector<std::tuple<std::string, std::vector<std::string>, std::vector<std::string>, std::vector<uint8_t>>> ids;
    for (int i = 0; i < n; i++)
      ids.push_back({"id" + std::to_string(i), {l[i], "x"}, {l[n - 1 - i]}, {(uint8_t)i, 1}});
    add("n", ids);
  }
  run_cases(
      cx, (int)cs.size(), [&](int i) { return ground_trip(cs[i]); },
      [&](int i, const Case &c) {
        cx.states(1);
        cx.transitions(1);
        if (!c.done || !c.out.empty())
          cx.violation("generator record does not round trip: case " + std::to_string(i), "stored:\n" + gdump(cs[i]) + "got:\n" + (c.done ? c.out : c.res.outcome()));
      });
  cx.outcome("round trip generators");
}

// ------------------------------------------------------- damaged records
// what a run did for the builder whose files are under dir
std::multiset<std::string> work(const Result &r, const std::string &dir, const std::string &rec, const std::string &gid) {
  std::multiset<std::string> w;
  for (auto &c : commands(r))
    if (c.cmd.find(dir + "/") != std::string::npos)
      w.insert(canon(c.cmd));
  for (auto &e : r.ev) {
    if (e.type == 'C' && e.s.rfind(gid + "/", 0) == 0)
      w.insert(e.s);
    if (gid != "-" && e.type == 'M' && e.s.rfind("open " + dir + "/", 0) == 0 && e.s.rfind("open " + rec, 0) != 0)
      w.insert(canon(e.s));
  }
  return w;
}
struct Damage {
  std::string what, content;
  bool must = true; // must be rejected; otherwise it only must not do harm
  bool missing = false;
  bool may_refuse = false; // a changed user payload may be refused with a fatal error
};
void json_damage(const json &root, const json &j, const json::json_pointer &p, const std::string &path, bool in_ids, std::vector<Damage> &out) {
  // replace this value by one of another kind
  static const std::vector<std::pair<std::string, json>> alts{
      {"null", nullptr}, {"true", true}, {"5", 5}, {"-1", -1}, {"1.5", 1.5}, {"string", "x"}, {"[]", json::array()}, {"{}", json::object()}, {"[null]", json::array({nullptr})}, {"[[]]", json::array({json::array()})}};
  auto kind = [](const json &v) { return v.is_number() ? 100 : (int)v.type(); };
  bool blob_el = path.find("/userblob/") != std::string::npos;
  if (path != "/type")
    for (auto &[n, a] : alts) {
      bool same = kind(a) == kind(j);
      if (same && !(a.is_array() && !a.empty()))
        continue; // a different value of the right kind is not structural damage
      if (a.is_array() && !a.empty() && j.is_array() && j.empty() && false)
        continue;
      if (blob_el && a.is_boolean())
        continue; // numbers and booleans convert
      json c = root;
      c[p] = a;
      out.push_back({"value " + path + " = " + n, c.dump(4), true});
    }
  if (j.is_object())
    for (auto &[k, v] : j.items()) {
      json c = root;
      c[p].erase(k);
      // the set of generator ids is content, every other key is required
      out.push_back({"key " + path + "/" + k + " missing", c.dump(4), path != "/ids"});
      if (path != "/ids") {
        json d = root;
        json val = d[p][k];
        d[p].erase(k);
        d[p][k + "x"] = val;
        out.push_back({"key " + path + "/" + k + " renamed", d.dump(4), true});
      }
      json_damage(root, v, p / k, path + "/" + k, in_ids || path == "/ids", out);
    }
  if (j.is_array()) {
    for (size_t i = 0; i < j.size(); i++)
      if (i < 2)
        json_damage(root, j[i], p / i, path + "/" + std::to_string(i), in_ids, out);
  }
}
struct Rec {
  std::string scn, dir, file, gid;
  V v;
};
void c10_damage(Ctx &cx, const Rec &rc, const std::string &mode, int part, int parts) {
  const Scn &sc = scn(rc.scn);
  std::string bdir = g_root + "/p/_b", dir = bdir + "/" + rc.dir, rec = dir + "/" + rc.file;
  V v = rc.v;
  auto world = [&](const Tree &t) {
    mkdirs(bdir);
    sc.apply(v);
    restore(bdir, t);
  };
  world({});
  Result r0 = run_once(cx, [&] { sc.script(v); }, Cfg());
  auto good = artifacts(sc, v);
  Tree built = snapshot(bdir);
  std::string content;
  if (!r0.ok() || !read_raw(rec, content)) {
    cx.violation("build from scratch fails or leaves no record " + rc.scn, show(r0));
    return;
  }
  auto full = work(r0, dir, rec, rc.gid);
  world(built);
  Result r1 = run_once(cx, [&] { sc.script(v); }, Cfg());
  if (!r1.ok() || !work(r1, dir, rec, rc.gid).empty()) {
    cx.violation("a rebuild with an intact record is not empty " + rc.scn + vstr(sc, v), show(r1));
    return;
  }
  std::vector<Damage> ds;
  if (mode == "trunc") {
    for (size_t n = 0; n < content.size(); n++)
      ds.push_back({"truncated to " + std::to_string(n) + " of " + std::to_string(content.size()), content.substr(0, n)});
  } else if (mode == "struct") {
    json j = json::parse(content, nullptr, false);
    if (!j.is_object()) {
      cx.error("the record is not a JSON object");
      return;
    }
    json_damage(j, j, json::json_pointer(), "", false, ds);
    ds.push_back({"missing", "", true, true});
    for (std::string s : {"", " ", "\n", "null", "[]", "{}", "0", "\"x\"", "true", "{", "}", "[{}]", "garbage", "\x01\x02"})
      ds.push_back({"content " + esc(s), s});
    for (std::string s : {"}", "{}", "x", "\x01", ",", "\"", "]"})
      ds.push_back({"followed by " + esc(s), content + s});
    for (std::string s : {"}", "{}", "x", "\x01", ",", "\"", "]"})
      ds.push_back({"preceded by " + esc(s), s + content});
    ds.push_back({"twice", content + content});
    ds.push_back({"zeroed", std::string(content.size(), '\0')});
    ds.push_back({"zero padded", content + std::string(100, '\0'), false}); // the parser ends at a zero byte
    for (size_t n : {(size_t)1, content.size() / 2, content.size() - 2})
      ds.push_back({"zeroed from " + std::to_string(n), content.substr(0, n) + std::string(content.size() - n, '\0')});
    ds.push_back({"preceded by blanks", "  \n" + content, false});
    ds.push_back({"followed by blanks", content + "\n \n", false});
  } else { // one byte replaced: whatever it means, no crash and no wrong output
    for (size_t n = 0; n < content.size(); n++)
      for (char c : {'\0', '{', '"', '\x80', '9'})
        if (content[n] != c && (c != '9' || !isdigit((unsigned char)content[n]) || true)) {
          std::string s = content;
          s[n] = c;
          size_t b = content.rfind("\"userblob\"", n);
          bool blob = b != std::string::npos && content.find(']', b) > n;
          ds.push_back({"byte " + std::to_string(n) + " replaced by " + std::to_string((int)(unsigned char)c), s, false, false, blob});
        }
  }
  std::set<std::string> seen;
  for (size_t i = 0; i < ds.size(); i++) {
    if ((int)(i % parts) != part || cx.stop())
      continue;
    auto &d = ds[i];
    Tree t = built;
    std::string rel = rec.substr(bdir.size() + 1);
    if (!t.count(rel)) {
      cx.error("record not in the snapshot");
      return;
    }
    if (d.missing)
      t.erase(rel);
    else
      t[rel].content = d.content;
    world(t);
    Result r = run_once(cx, [&] { sc.script(v); }, Cfg());
    cx.states(1);
    cx.transitions(1);
    std::string what = rc.scn + vstr(sc, v) + " " + rc.file + ": " + d.what;
    std::string det = "record:\n" + d.content.substr(0, 3000) + "\n" + show(r);
    if (d.may_refuse && r.exited && r.code == 1) {
      cx.outcome("refused");
      continue;
    }
    if (!r.ok()) {
      cx.violation("build fails on a damaged record: " + what, det);
      continue;
    }
    auto w = work(r, dir, rec, rc.gid);
    if (d.must && w != full) {
      std::string m = "done:\n";
      for (auto &x : w)
        m += "  " + x + "\n";
      m += "full:\n";
      for (auto &x : full)
        m += "  " + x + "\n";
      cx.violation("damaged record does not lead to a full rebuild: " + what, m + det);
      continue;
    }
    cx.outcome(w == full ? "full rebuild" : w.empty() ? "accepted" : "partial");
    if (artifacts(sc, v) != good) {
      cx.violation("damaged record leads to a wrong output: " + what, det);
      continue;
    }
    // and the next run has a good record again
    Tree after = snapshot(bdir);
    std::string key = after[rel].content;
    if (seen.insert(key).second) {
      world(after);
      Result r2 = run_once(cx, [&] { sc.script(v); }, Cfg());
      cx.transitions(1);
      if (!r2.ok() || !work(r2, dir, rec, rc.gid).empty() || artifacts(sc, v) != good)
        cx.violation("damaged record is not replaced by a good one: " + what, "after the rebuild:\n" + show(r2));
    }
  }
}
// awkward contents through real builds: the second build does nothing
void c10_behave(Ctx &cx, size_t fi, bool th) {
  static const char *names[] = {"pre", "com", "pchc", "pcho", "asm", "c", "cpp", "link", "extlib", "incdir", "libdir", "source", "header", "pch", "dep", "ldep"};
  auto A = alphabet(false);
  (void)th;
  std::string n = names[fi];
  bool path = fi >= 9;
  for (size_t i = 0; i < A.size(); i++) {
    std::string a = A[i];
    if (a.find('\0') != std::string::npos)
      continue; // not in a path or command line
    if (path && (a.empty() || a.size() > 200 || a.find('/') != std::string::npos))
      continue;
    if (a.find('{') != std::string::npos || a.find('}') != std::string::npos) {
      // braces are placeholders in commands only, values are inserted as they are
    }
    std::string bdir = g_root + "/p/_b";
    auto prep = [&] {
      mkdirs(g_root + "/p/inc");
      write_raw(g_root + "/p/a.cpp", "// a\n", ver_mtime(0));
      write_raw(g_root + "/p/pch.h", "// a\n", ver_mtime(0));
      if (n == "source")
        write_raw(g_root + "/p/" + a + ".cpp", "// x\n", ver_mtime(0));
      if (n == "header" || n == "pch")
        write_raw(g_root + "/p/" + a + ".h", "// x\n", ver_mtime(0));
      if (n == "dep" || n == "ldep")
        write_raw(g_root + "/p/" + a, "// x\n", ver_mtime(0));
      if (n == "incdir" || n == "libdir")
        mkdirs(g_root + "/p/" + a);
    };
    custom_program = [](const std::string &, const std::vector<std::string> &, const std::string &, int &st, std::string &, std::string &) {
      st = 0;
      return true;
    };
    auto script = [&] {
      ArgToolchain tc;
      args_init(tc);
      Toolchain_gcc gcc;
      ExecutableTarget_gcc t("app", gcc, "");
      Reg::Toolchain(tc.state).Build(
          [&](BaseTarget &t) {
            t.AddSource("a.cpp");
            t.AddPch("pch.h");
            switch (fi) {
            case 0: t.AddPreprocessorFlag(a); break;
            case 1: t.AddCommonCompileFlag(a); break;
            case 2: t.AddPchCompileFlag(a); break;
            case 3: t.AddPchObjectFlag(a); break;
            case 4: t.AddAsmCompileFlag(a); break;
            case 5: t.AddCCompileFlag(a); break;
            case 6: t.AddCppCompileFlag(a); break;
            case 7: t.AddLinkFlag(a); break;
            case 8: t.AddLibDep(a); break;
            case 9: t.AddIncludeDir(a); break;
            case 10: t.AddLibDir(a); break;
            case 11: t.AddSource(a + ".cpp"); break;
            case 12: t.AddHeader(a + ".h"); break;
            case 13: t.AddPch(a + ".h"); break;
            case 14: t.AddCompileDependency(a); break;
            case 15: t.AddLinkDependency(a); break;
            }
            t.Build();
          },
          t);
      Reg::Run();
    };
    rm_rf(g_root + "/p");
    prep();
    Result r = run_once(cx, script, Cfg());
    Result r2 = run_once(cx, script, Cfg());
    cx.states(1);
    cx.transitions(2);
    custom_program = nullptr;
    std::string what = n + " <" + esc(a.substr(0, 50)) + ">";
    if (!r.ok())
      cx.violation("build fails with " + what, show(r));
    else if (!r2.ok() || !commands(r2).empty())
      cx.violation("second build is not empty with " + what, show(r2));
    rm_rf(g_root + "/p");
  }
  cx.outcome("stable " + n);
}
} // namespace

namespace mc {
std::vector<Unit> make_units(const std::string &, bool th, const std::string &) {
  std::vector<Unit> u;
  for (size_t i = 0; i < fields().size(); i++)
    u.push_back({"fields." + fields()[i].name, [i, th](Ctx &cx) { c10_fields(cx, i, th); }});
  u.push_back({"fields.invalid", [](Ctx &cx) { c10_invalid(cx); }});
  u.push_back({"fields.generator", [th](Ctx &cx) { c10_gen(cx, th); }});
  for (size_t i = 0; i < 16; i++)
    u.push_back({"behave." + std::to_string(i), [i, th](Ctx &cx) { c10_behave(cx, i, th); }});
  std::vector<Rec> recs;
  auto filled = [](const std::string &s, std::map<std::string, int> m) {
    V v = scn(s).base;
    for (auto &[k, x] : m)
      v[scn(s).dim(k)] = x;
    return v;
  };
  V a1 = filled("A", {{"pch", 2}, {"fpre", 2}, {"fcom", 1}, {"fpchc", 1}, {"fpcho", 1}, {"fasm", 1}, {"fc", 1}, {"fcpp", 2}, {"flink", 1}, {"inc", 2}});
  recs.push_back({"T", "gcc/app", "app.bin", "-", scn("T").base});
  recs.push_back({"A", "gcc/app", "app.bin", "-", a1});
  recs.push_back({"A", "gcc/app", "app.bin", "-", filled("A", {{"pch", 0}})});
  recs.push_back({"L", "gcc/app", "app.bin", "-", filled("L", {{"libs", 1}, {"ext", 1}, {"ldir", 1}})});
  recs.push_back({"TG", "gen", "gen.json", "gen", scn("TG").base});
  V g1 = filled("G", {{"pay", 2}});
  recs.push_back({"G", "gen", "gen.json", "gen", g1});
  recs.push_back({"G", "fgen", "fgen.json", "fgen", g1});
  recs.push_back({"G", "tgen", "tgen.json", "tgen", g1});
  for (auto &r : recs) {
    std::string n = r.scn + "." + r.file + vstr(scn(r.scn), r.v);
    bool small = r.scn == "T" || r.scn == "TG";
    for (int k = 0; k < 4; k++) {
      u.push_back({"struct." + n + "." + std::to_string(k), [r, k](Ctx &cx) { c10_damage(cx, r, "struct", k, 4); }});
      u.push_back({"trunc." + n + "." + std::to_string(k), [r, k](Ctx &cx) { c10_damage(cx, r, "trunc", k, 4); }});
      if (small || th)
        u.push_back({"byte." + n + "." + std::to_string(k), [r, k](Ctx &cx) { c10_damage(cx, r, "byte", k, 4); }});
    }
  }
  return u;
}
} // namespace mc

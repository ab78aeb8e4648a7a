// A small project described by an input vector; used by the history harnesses.
#pragma once
#include "core.h"
#include <memory>

namespace proj {

using V = std::vector<int>;

struct Dim {
  std::string name;
  int n;             // number of values
  char cat;          // s source content/list, l link input, c compile input, p pch, o other target
  std::string what;  // source file for category s
};

struct GenTask {
  std::string id;                   // generator/id
  std::map<std::string, int> in;    // relative path -> version
  std::set<std::string> out;        // relative paths
  std::string payload;              // everything else the output depends on
};

struct Scn {
  std::string name;
  std::vector<Dim> dims;
  V base;
  std::function<void(const V &)> apply;  // write all input files
  std::function<void(const V &)> script; // the build script (in the child)
  std::vector<std::string> artifacts;    // relative to g_root
  std::function<std::vector<GenTask>(const V &)> tasks; // generator scenarios
  std::function<std::vector<std::string>(const V &)> outs; // artifacts depending on v
  std::function<int(const V &)> lang; // everything is compiled again when it changes
  // files of the project (relative) each target's commands are recognised by
  int dim(const std::string &n) const;
};

// file versions: 0 base, 1 other content and 1 ns newer, 2 other content and
// older, 3 same content as 0 but touched
void put_file(const std::string &rel, const std::string &content0, int ver);
void del_file(const std::string &rel);
int64_t ver_mtime(int ver);

const Scn &scn(const std::string &name);

std::map<std::string, std::string> artifacts(const Scn &s, const V &v);
std::string vstr(const Scn &s, const V &v);

} // namespace proj

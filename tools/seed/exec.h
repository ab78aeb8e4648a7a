// Command::Execute for the demonstrations: the library it uses to start
// processes is not installed here.
#pragma once
#include "buildcc.h"
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <sys/wait.h>
namespace buildcc::env {
bool Command::Execute(const std::string &command, const optional<fs::path> &wd,
                      std::vector<std::string> *out, std::vector<std::string> *) {
  std::string c = "{ " + command + " ; }";
  if (wd)
    c = "cd '" + wd->string() + "' && " + c;
  if (const char *log = getenv("DEMO_LOG"))
    if (FILE *f = fopen(log, "a")) {
      fprintf(f, "%s\n", command.c_str());
      fclose(f);
    }
  FILE *p = popen(c.c_str(), "r");
  if (!p)
    return false;
  std::string all;
  char b[4096];
  size_t n;
  while ((n = fread(b, 1, sizeof b, p)) > 0)
    all.append(b, n);
  int st = pclose(p);
  if (out) {
    std::istringstream is(all);
    std::string l;
    while (std::getline(is, l))
      out->push_back(l);
  }
  return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
} // namespace buildcc::env

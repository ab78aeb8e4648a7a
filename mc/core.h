// Exploration framework shared by all harnesses: units of work distributed over
// worker processes, depth first exploration of choice sequences with deviation
// budgets, collection of results.
#pragma once
#include "rt.h"
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Ctx {
  std::string unit;
  bool thorough = false;
  int worker = 0;
  // scratch directory of this worker is g_root
  void violation(const std::string &key, const std::string &detail);
  void error(const std::string &what); // internal error of the harness
  void sample(const std::string &s);
  void outcome(const std::string &s); // distinct observed outcomes
  void states(long n);
  void transitions(long n);
  void executions(long n);
  void traces(long n);
  bool stop() const; // enough violations found / time is up
  int violations_in_unit = 0;
};

struct Unit {
  std::string name;
  std::function<void(Ctx &)> run;
};

struct Budget {
  int total = 0;
  int per[K_N] = {1000, 1000, 1000, 1000, 1000};
};

// Explore every execution of body within the deviation budget. setup() runs
// before each execution (outside the child). seen() is called per execution
// and returns false to stop.
void explore(Ctx &cx, const std::function<void()> &setup,
             const std::function<void()> &body, const Cfg &cfg,
             const Budget &b, const std::function<bool(const Result &)> &seen);

// one default execution
Result run_once(Ctx &cx, const std::function<void()> &body, const Cfg &cfg,
                const std::vector<Choice> &prefix = {});
// run body in a child, returning what it wrote with put()
std::string run_pure(Ctx &cx, const std::function<void()> &body, Result *res = nullptr,
                     const Cfg *cfg = nullptr);
void put(const std::string &s); // in child: append to the result of run_pure

// run cases 0..n-1, many per child; a case that ends its process (fatal error)
// is reported with that outcome and the rest continues in a new child
struct Case {
  bool done = false; // returned normally
  std::string out;   // what it returned
  Result res;        // how its process ended, if it did
};
void run_cases(Ctx &cx, int n, const std::function<std::string(int)> &fn,
               const std::function<void(int, const Case &)> &seen, const Cfg *cfg = nullptr);

std::string show(const Result &r, size_t max_ev = 60);
std::string show_choices(const std::vector<Choice> &c);

struct Cmd { // one command of an execution
  int idx, begin, end; // event positions, end -1 if never finished
  int status = -1;
  bool observed = false;
  int tid = 0;
  std::string cwd, cmd, out;
};
std::vector<Cmd> commands(const Result &r);
std::vector<std::string> split_on(const std::string &s, char c);
std::string join(const std::vector<std::string> &v, const std::string &sep);
std::string esc(const std::string &s);

// supplied by each harness
std::vector<Unit> make_units(const std::string &prop, bool thorough,
                             const std::string &part);

} // namespace mc

// Runtime of the model checker: choice points, controlled scheduler, file
// system interposition, simulated commands, shared event log.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace mc {

// ---------------------------------------------------------------- choices
enum Kind : uint8_t { K_SCHED, K_FAIL, K_CRASH, K_EDIT, K_IO, K_N };
struct Choice {
  uint8_t kind;
  uint16_t n, pick;
};
struct Cfg {
  bool en[K_N] = {};
  bool torn_all = false;       // every byte prefix of a write is a crash point
  bool coarse_crash = false;   // torn positions only at a few places
  int fail_modes = 3;          // 1 untouched, 2 garbage, 3 removed
  int io_faults = 0;           // bit0 open, bit1 write, bit2 close, bit3 read, bit4 rename
  int timeout_s = 20;
  uint64_t sched_seed = 0;
  bool watch_reads = false;    // log file reads
  bool real_mtime = false;     // files the library writes keep the time of the system clock
};
int choose(Kind k, int n);

// ---------------------------------------------------------------- events
struct Event {
  char type;
  int tid;
  std::string s;
};
void logev(char type, const std::string &s);

struct Result {
  bool exited = false;
  int code = -1; // exit code
  int sig = 0;
  bool diverged = false;
  bool overflow = false;
  std::vector<Choice> trace;
  std::vector<Event> ev;
  bool ok() const { return exited && code == 0; }
  bool crashed() const { return exited && code == 137; }
  bool timeout() const { return !exited && sig == 14; }
  bool deadlock() const { return exited && code == 98; }
  std::string outcome() const;
};

// run body in a forked child; body acts as main() of a build script
Result run_child(const std::function<void()> &body,
                 const std::vector<Choice> &prefix, const Cfg &cfg);

// ---------------------------------------------------------------- world
extern std::string g_root; // scratch root of this worker (absolute)
void set_root(const std::string &);
std::string canon(const std::string &); // replace g_root by /R

struct FileState {
  std::string content;
  int64_t mtime_ns = 0;
  bool dir = false;
  bool operator==(const FileState &o) const {
    return content == o.content && mtime_ns == o.mtime_ns && dir == o.dir;
  }
};
using Tree = std::map<std::string, FileState>; // path relative to base

Tree snapshot(const std::string &base, bool normalise = true);
void restore(const std::string &base, const Tree &t);
uint64_t tree_hash(const Tree &t);
uint64_t fnv(const std::string &s, uint64_t h = 1469598103934665603ull);

void write_raw(const std::string &path, const std::string &content,
               int64_t mtime_ns); // not a point, no log
bool read_raw(const std::string &path, std::string &out);
bool exists_raw(const std::string &path);
void mkdirs(const std::string &path);
void rm_rf(const std::string &path); // only inside g_root's parent
int64_t content_mtime(const std::string &content);

// ---------------------------------------------------------------- hooks
// harness supplied
extern std::function<int()> edit_count;          // number of edits available
extern std::function<void(int)> edit_apply;      // apply edit i (1-based)
// returns true if it handled the command (custom simulated program)
extern std::function<bool(const std::string &cmd,
                          const std::vector<std::string> &argv,
                          const std::string &cwd, int &status,
                          std::string &out, std::string &err)>
    custom_program;
// which commands may fail under K_FAIL
extern std::function<bool(const std::string &cmd)> may_fail;
extern std::function<bool(const std::string &cmd)> always_fail;
int fail_choice(const std::string &what); // 0 ok

// generic points
void sched_point();
void crash_point();
void edit_point();

// ---------------------------------------------------------------- scheduler
bool active();
void spawn_task(const std::function<void()> &body); // new controlled thread
void wait_until(const std::function<bool()> &pred);  // block current thread
int self();
struct Internal { // suppress points
  Internal();
  ~Internal();
};
int hw_workers();
void *&tls_worker();
void hb_acquire(const void *);
void hb_release(const void *);
void set_controlled(bool);

std::vector<std::string> split_cmd(const std::string &cmd);

} // namespace mc

// Stand-in for tiny-process-library's process.hpp (the library is not installed
// here and no command may really run): commands are simulated by mc::Proc.
#ifndef TINY_PROCESS_LIBRARY_HPP_
#define TINY_PROCESS_LIBRARY_HPP_
#include <cstdint>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>

namespace mc {
struct Proc;
Proc *proc_start(const std::string &cmd, const std::string &cwd,
                 std::function<void(const char *, size_t)> out,
                 std::function<void(const char *, size_t)> err,
                 const std::unordered_map<std::string, std::string> *env);
int proc_wait(Proc *);
bool proc_try(Proc *, int &status);
void proc_kill(Proc *);
void proc_free(Proc *);
} // namespace mc

namespace TinyProcessLib {
struct Config {
  std::size_t buffer_size = 131072;
  bool inherit_file_descriptors = false;
  std::function<void()> on_stdout_close = nullptr;
  std::function<void()> on_stderr_close = nullptr;
};
class Process {
public:
  using id_type = int;
  using fd_type = int;
  using string_type = std::string;
  using environment_type = std::unordered_map<string_type, string_type>;
  using cb = std::function<void(const char *, size_t)>;

  Process(const string_type &command, const string_type &path = string_type(),
          cb out = nullptr, cb err = nullptr, bool = false, const Config & = {})
      : p_(mc::proc_start(command, path, std::move(out), std::move(err),
                          nullptr)) {}
  Process(const string_type &command, const string_type &path,
          const environment_type &env, cb out = nullptr, cb err = nullptr,
          bool = false, const Config & = {})
      : p_(mc::proc_start(command, path, std::move(out), std::move(err),
                          &env)) {}
  Process(const std::vector<string_type> &args,
          const string_type &path = string_type(), cb out = nullptr,
          cb err = nullptr, bool = false, const Config & = {})
      : p_(mc::proc_start(join(args), path, std::move(out), std::move(err),
                          nullptr)) {}
  Process(const Process &) = delete;
  Process &operator=(const Process &) = delete;
  ~Process() { mc::proc_free(p_); }
  id_type get_id() const noexcept { return 4242; }
  int get_exit_status() noexcept { return mc::proc_wait(p_); }
  bool try_get_exit_status(int &s) noexcept { return mc::proc_try(p_, s); }
  bool write(const char *, size_t) { return true; }
  bool write(const std::string &) { return true; }
  void close_stdin() noexcept {}
  void kill(bool = false) noexcept { mc::proc_kill(p_); }

private:
  static string_type join(const std::vector<string_type> &a) {
    string_type r;
    for (auto &s : a)
      r += (r.empty() ? "" : " ") +
           (s.find(' ') == string_type::npos ? s : "\"" + s + "\"");
    return r;
  }
  mc::Proc *p_;
};
} // namespace TinyProcessLib
#endif

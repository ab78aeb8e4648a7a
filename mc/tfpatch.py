"""Copy the installed Taskflow headers and give the executor's worker loop to
the controlled scheduler.  Graph semantics (join counters, subflows, modules,
runtimes, asyncs) stay Taskflow's own code."""
import os, re, shutil, sys


def replace_fn(src, sig, body):
    i = src.index(sig)
    j = src.index("{", i)
    d = 0
    k = j
    while True:
        if src[k] == "{":
            d += 1
        elif src[k] == "}":
            d -= 1
            if d == 0:
                break
        k += 1
    return src[:j] + body + src[k + 1:]


def for_each(dst):
    # make the algorithms available without a separate include, as the
    # Taskflow version the project pins does
    p = os.path.join(dst, "taskflow.hpp")
    s = open(p).read()
    s = s.replace('#include "algorithm/critical.hpp"', '#include "algorithm/critical.hpp"\n#include "algorithm/for_each.hpp"')
    open(p, "w").write(s)


def main(dst, src="/usr/include/taskflow", patch=True):
    if os.path.exists(dst):
        shutil.rmtree(dst)
    shutil.copytree(src, dst)
    for_each(dst)
    if not patch:
        return
    p = os.path.join(dst, "core/executor.hpp")
    s = open(p).read()
    assert "namespace tf {" in s
    s = s.replace("namespace tf {", "#include \"rt.h\"\nnamespace tf {\n", 1)
    s = replace_fn(s, "inline void Executor::_spawn(size_t N)", """{
  for(size_t id=0; id<N; ++id) {
    _workers[id]._id = id;
    _workers[id]._vtm = id;
    _workers[id]._executor = this;
    _workers[id]._waiter = nullptr;
  }
}""")
    s = replace_fn(s, "inline Executor::~Executor()", "{ wait_for_all(); }")
    s = replace_fn(s, "inline Worker* Executor::_this_worker()",
                   "{ Worker* w = (Worker*)mc::tls_worker(); return (w && w->_executor == this) ? w : nullptr; }")
    s = replace_fn(s, "void Executor::_corun_until(Worker& w, P&& stop_predicate)",
                   "{ (void)w; mc::wait_until(std::function<bool()>(stop_predicate)); }")
    one = """{
  node->_state.fetch_or(Node::READY, std::memory_order_release);
  mc::spawn_task([this, node]() {
    auto* w = new Worker; w->_id = 0; w->_vtm = 0; w->_executor = this; w->_thread = nullptr; w->_waiter = nullptr; w->_cache = nullptr;
    mc::tls_worker() = w;
    _invoke(*w, node);
  });
}"""
    many = "{ for(size_t i=0; i<nodes.size(); ++i) { _schedule(nodes[i]); } }"
    s = replace_fn(s, "inline void Executor::_schedule(Worker& worker, Node* node)", "{ (void)worker; _schedule(node); }")
    s = replace_fn(s, "inline void Executor::_schedule(Node* node)", one)
    s = replace_fn(s, "inline void Executor::_schedule(Worker& worker, const SmallVector<Node*>& nodes)", "{ (void)worker; _schedule(nodes); }")
    s = replace_fn(s, "inline void Executor::_schedule(const SmallVector<Node*>& nodes)", many)
    s = replace_fn(s, "inline void Executor::wait_for_all()", """{
  mc::wait_until([this]() {
    mc::Internal in_;
    std::lock_guard<std::mutex> lock(_topology_mutex);
    return _num_topologies == 0;
  });
  // observe the completion of all topologies (happens-before)
  mc::hb_acquire(&_num_topologies);
}""")
    for fn in ("inline void Executor::_increment_topology()", "inline void Executor::_decrement_topology_and_notify()",
               "inline void Executor::_decrement_topology()"):
        i = s.index(fn)
        j = s.index("{", i)
        s = s[:j + 1] + " mc::hb_release(&_num_topologies); mc::Internal in_;" + s[j + 1:]
    assert s.count("begin_invoke:") == 1
    s = s.replace("begin_invoke:", "begin_invoke: mc::sched_point();")
    s = s.replace("size_t N = std::thread::hardware_concurrency()", "size_t N = (size_t)mc::hw_workers()")
    assert "mc::hw_workers()" in s
    open(p, "w").write(s)

    # plain new/delete: no locking that depends on thread addresses, no
    # accidental synchronisation between unrelated tasks
    p = os.path.join(dst, "utility/object_pool.hpp")
    s = open(p).read()
    s = replace_fn(s, "T* ObjectPool<T, S>::animate(ArgsT&&... args)", "{ return new T(std::forward<ArgsT>(args)...); }")
    s = replace_fn(s, "void ObjectPool<T, S>::recycle(T* mem)", "{ delete mem; }")
    open(p, "w").write(s)

    p = os.path.join(dst, "core/taskflow.hpp")
    s = open(p).read()
    m = "    Future& operator = (Future&&) = default;\n"
    assert m in s
    s = s.replace(m, m + """
    void wait() const {
      mc::wait_until([this]() { mc::Internal in_; return this->std::future<T>::wait_for(std::chrono::seconds(0)) == std::future_status::ready; });
    }
    T get() { wait(); return std::future<T>::get(); }
""")
    s = s.replace("namespace tf {", "#include \"rt.h\"\nnamespace tf {\n", 1)
    open(p, "w").write(s)


if __name__ == "__main__":
    main(sys.argv[1])

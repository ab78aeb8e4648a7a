// Happens-before race detector: replaces the ThreadSanitizer runtime. Code of
// the repository is compiled with -fsanitize=thread and calls these functions;
// vector clocks follow task spawns, locks, atomics and thread ends, so a data
// race is found on any schedule in which the two accesses are unordered.
#include "rt.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <unordered_map>

namespace mc {
int race_tid();
bool race_live();
}
namespace {
using VC = std::vector<uint32_t>;
bool g_multi = false;
bool g_busy = false; // inside the detector (only one thread runs at a time)
struct Busy {
  bool o = g_busy;
  Busy() { g_busy = true; }
  ~Busy() { g_busy = o; }
};
std::vector<VC> &vcs() {
  static auto *v = new std::vector<VC>;
  return *v;
}
VC &vc(int t) {
  auto &v = vcs();
  if ((int)v.size() <= t)
    v.resize(t + 1);
  if ((int)v[t].size() <= t)
    v[t].resize(t + 1, 1);
  return v[t];
}
void join(VC &a, const VC &b) {
  if (a.size() < b.size())
    a.resize(b.size(), 0);
  for (size_t i = 0; i < b.size(); i++)
    a[i] = std::max(a[i], b[i]);
}
std::unordered_map<const void *, VC> &syncs() {
  static auto *m = new std::unordered_map<const void *, VC>;
  return *m;
}
struct Rec {
  uint32_t clk;
  uint16_t tid;
  uint8_t mask;
  bool w, at;
  void *pc;
};
struct Cell {
  Rec r[6];
  uint8_t n = 0;
};
struct Page {
  Cell *c[512] = {};
  ~Page() {
    for (auto *x : c)
      delete x;
  }
};
std::unordered_map<uintptr_t, Page *> &pages() {
  static auto *m = new std::unordered_map<uintptr_t, Page *>;
  return *m;
}
uintptr_t g_lastp = 0;
Page *g_last = nullptr;
Page *page(uintptr_t p, bool make) {
  if (p == g_lastp && g_last)
    return g_last;
  auto &m = pages();
  auto it = m.find(p);
  if (it == m.end()) {
    if (!make)
      return nullptr;
    it = m.emplace(p, new Page).first;
  }
  g_lastp = p;
  return g_last = it->second;
}
std::string where(void *pc) {
  Dl_info d;
  if (dladdr(pc, &d) && d.dli_sname) {
    int st;
    char *s = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
    std::string r = s ? s : d.dli_sname;
    free(s);
    return r;
  }
  char b[64];
  snprintf(b, sizeof b, "+%lx", (long)((char *)pc - (char *)d.dli_fbase));
  return b;
}
std::string off(void *pc) {
  Dl_info d;
  char b[64] = "?";
  if (dladdr(pc, &d))
    snprintf(b, sizeof b, "%lx", (long)((char *)pc - (char *)d.dli_fbase));
  return b;
}
int g_reports = 0;
void access(uintptr_t a, size_t n, bool w, bool at, void *pc) {
  if (!g_multi)
    return;
  int me = mc::race_tid();
  if (me < 0)
    return;
  mc::Internal in;
  Busy b;
  VC &v = vc(me);
  while (n > 0) {
    uintptr_t g = a >> 3;
    size_t o = a & 7, k = std::min(n, (size_t)8 - o);
    uint8_t mask = (uint8_t)(((1u << k) - 1) << o);
    Page *p = page(a >> 12, true);
    Cell *&cp = p->c[g & 511];
    if (!cp)
      cp = new Cell;
    Cell &c = *cp;
    int j = 0;
    for (int i = 0; i < c.n; i++) {
      Rec &r = c.r[i];
      bool before = r.tid == me || (r.tid < v.size() && r.clk <= v[r.tid]);
      if ((r.mask & mask) && !before && (r.w || w) && !(r.at && at)) {
        if (g_reports++ < 20) {
          std::string x = (r.w ? "write in " : "read in ") + where(r.pc);
          std::string y = (w ? "write in " : "read in ") + where(pc);
          if (y < x)
            std::swap(x, y);
          mc::logev('R', x + " / " + y + " @" + off(r.pc) + "," + off(pc));
        }
      }
      bool drop = before && (r.mask & ~mask) == 0 && (w || !r.w) && (r.at || !at);
      if (!drop)
        c.r[j++] = r;
    }
    if (j == 6) { // forget the oldest
      memmove(c.r, c.r + 1, 5 * sizeof(Rec));
      j = 5;
    }
    c.r[j] = {v[me], (uint16_t)me, mask, w, at, pc};
    c.n = j + 1;
    a += k;
    n -= k;
  }
}
void clear(uintptr_t a, size_t n) {
  if (!g_multi || !n)
    return;
  mc::Internal in;
  Busy b;
  uintptr_t e = a + n;
  while (a < e) {
    uintptr_t pe = std::min(e, ((a >> 12) + 1) << 12);
    auto it = pages().find(a >> 12);
    if (it != pages().end()) {
      if (pe - a == 4096) {
        delete it->second;
        pages().erase(it);
        g_last = nullptr;
      } else
        for (uintptr_t x = a; x < pe; x += 8) {
          Cell *&c = it->second->c[(x >> 3) & 511];
          if (c)
            c->n = 0;
        }
    }
    a = pe;
  }
}
} // namespace

extern "C" {
void mc_tsan_spawn(int parent, int child) {
  Busy b;
  g_multi = true;
  if (parent < 0)
    parent = 0;
  vc(child);
  join(vc(child), vc(parent));
  vc(parent)[parent]++;
}
void mc_tsan_acquire(int self, const void *a) {
  Busy b;
  if (!g_multi || self < 0)
    return;
  auto it = syncs().find(a);
  if (it != syncs().end())
    join(vc(self), it->second);
}
void mc_tsan_release(int self, const void *a) {
  Busy b;
  if (!g_multi || self < 0)
    return;
  join(syncs()[a], vc(self));
  vc(self)[self]++;
}
void mc_tsan_join(int self, int child) { join(vc(self), vc(child)); }
void mc_tsan_enable(int) {}
void mc_tsan_thread_start() {
  mc::Internal in;
  pthread_attr_t at;
  void *p;
  size_t n;
  if (pthread_getattr_np(pthread_self(), &at) == 0) {
    pthread_attr_getstack(&at, &p, &n);
    pthread_attr_destroy(&at);
    clear((uintptr_t)p, n);
  }
}

#define PC __builtin_return_address(0)
// block copies of the code under test (calls from shared libraries are theirs)
extern char __executable_start, etext;
static inline bool ours(const void *pc) { return g_multi && !g_busy && pc >= (void *)&__executable_start && pc < (void *)&etext; }
void *memcpy(void *d, const void *s, size_t n) {
  if (n && ours(PC)) {
    access((uintptr_t)s, n, false, false, PC);
    access((uintptr_t)d, n, true, false, PC);
  }
  void *r = d;
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
  return r;
}
void *memmove(void *d, const void *s, size_t n) {
  if (n && ours(PC)) {
    access((uintptr_t)s, n, false, false, PC);
    access((uintptr_t)d, n, true, false, PC);
  }
  void *r = d;
  if ((uintptr_t)d - (uintptr_t)s >= n)
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
  else {
    d = (char *)d + n - 1, s = (const char *)s + n - 1;
    asm volatile("std; rep movsb; cld" : "+D"(d), "+S"(s), "+c"(n)::"memory");
  }
  return r;
}
void *memset(void *d, int c, size_t n) {
  if (n && ours(PC))
    access((uintptr_t)d, n, true, false, PC);
  void *r = d;
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                                  \
  void __tsan_read##n(void *a) { access((uintptr_t)a, n, false, false, PC); }  \
  void __tsan_write##n(void *a) { access((uintptr_t)a, n, true, false, PC); }  \
  void __tsan_unaligned_read##n(void *a) {                                     \
    access((uintptr_t)a, n, false, false, PC);                                 \
  }                                                                            \
  void __tsan_unaligned_write##n(void *a) {                                    \
    access((uintptr_t)a, n, true, false, PC);                                  \
  }                                                                            \
  void __tsan_volatile_read##n(void *a) {}                                     \
  void __tsan_volatile_write##n(void *a) {}
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void *a, unsigned long n) {
  access((uintptr_t)a, n, false, false, PC);
}
void __tsan_write_range(void *a, unsigned long n) {
  access((uintptr_t)a, n, true, false, PC);
}
void __tsan_vptr_update(void **a, void *v) {
  if (*a != v)
    access((uintptr_t)a, 8, true, false, PC);
}
void __tsan_vptr_read(void **a) { access((uintptr_t)a, 8, false, false, PC); }

static void pre(const volatile void *a, size_t n, bool w, int mo, void *pc) {
  access((uintptr_t)a, n, w, true, pc);
  int me = mc::race_tid();
  if (!g_multi || me < 0)
    return;
  mc::Internal in;
  // release side before the operation
  if (w && mo >= 3)
    mc_tsan_release(me, (const void *)a);
}
static void post(const volatile void *a, bool r, int mo) {
  int me = mc::race_tid();
  if (!g_multi || me < 0)
    return;
  mc::Internal in;
  if (r && (mo == 1 || mo == 2 || mo == 4 || mo == 5))
    mc_tsan_acquire(me, (const void *)a);
}
#define AT(bits, T)                                                            \
  T __tsan_atomic##bits##_load(const volatile T *a, int mo) {                  \
    pre(a, sizeof(T), false, mo, PC);                                          \
    T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                \
    post(a, true, mo);                                                         \
    return v;                                                                  \
  }                                                                            \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) {               \
    pre(a, sizeof(T), true, mo, PC);                                           \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                  \
  }                                                                            \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) {               \
    pre(a, sizeof(T), true, mo, PC);                                           \
    T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                         \
    post(a, true, mo);                                                         \
    return r;                                                                  \
  }                                                                            \
  int __tsan_atomic##bits##_compare_exchange_strong(                           \
      volatile T *a, T *c, T v, int mo, int fmo) {                             \
    pre(a, sizeof(T), true, mo, PC);                                           \
    int r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST,      \
                                        __ATOMIC_SEQ_CST);                     \
    post(a, true, r ? mo : fmo);                                               \
    return r;                                                                  \
  }                                                                            \
  int __tsan_atomic##bits##_compare_exchange_weak(                             \
      volatile T *a, T *c, T v, int mo, int fmo) {                             \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo);    \
  }                                                                            \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v,        \
                                               int mo, int fmo) {              \
    __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo);          \
    return c;                                                                  \
  }
#define FOP(bits, T, op)                                                       \
  T __tsan_atomic##bits##_fetch_##op(volatile T *a, T v, int mo) {             \
    pre(a, sizeof(T), true, mo, PC);                                           \
    T r = __atomic_fetch_##op(a, v, __ATOMIC_SEQ_CST);                         \
    post(a, true, mo);                                                         \
    return r;                                                                  \
  }
#define ALL(bits, T)                                                           \
  AT(bits, T)                                                                  \
  FOP(bits, T, add) FOP(bits, T, sub) FOP(bits, T, and) FOP(bits, T, or)       \
      FOP(bits, T, xor) FOP(bits, T, nand)
ALL(8, uint8_t)
ALL(16, uint16_t)
ALL(32, uint32_t)
ALL(64, uint64_t)
static char g_fence;
void __tsan_atomic_thread_fence(int) {
  int me = mc::race_tid();
  if (!g_multi || me < 0)
    return;
  mc::Internal in;
  mc_tsan_acquire(me, &g_fence);
  mc_tsan_release(me, &g_fence);
}
void __tsan_atomic_signal_fence(int) {}
}

// memory may be reused by another thread without a race
static void *fresh(void *p) {
  if (!p)
    abort();
  if (g_multi && !g_busy && mc::race_live())
    clear((uintptr_t)p, malloc_usable_size(p));
  return p;
}
static void drop(void *p) {
  if (p && g_multi && !g_busy && mc::race_live())
    clear((uintptr_t)p, malloc_usable_size(p));
  free(p);
}
void *operator new(size_t n) { return fresh(malloc(n ? n : 1)); }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { drop(p); }
void operator delete[](void *p) noexcept { drop(p); }
void operator delete(void *p, size_t) noexcept { drop(p); }
void operator delete[](void *p, size_t) noexcept { drop(p); }
void *operator new(size_t n, std::align_val_t al) { return fresh(memalign((size_t)al, n ? n : 1)); }
void *operator new[](size_t n, std::align_val_t al) { return fresh(memalign((size_t)al, n ? n : 1)); }
void operator delete(void *p, std::align_val_t) noexcept { drop(p); }
void operator delete[](void *p, std::align_val_t) noexcept { drop(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { drop(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { drop(p); }
// exception objects come from malloc
extern "C" void *__cxa_allocate_exception(size_t n) noexcept {
  static auto *f = (void *(*)(size_t))dlsym(RTLD_NEXT, "__cxa_allocate_exception");
  void *p = f(n);
  if (p && g_multi && !g_busy && mc::race_live())
    clear((uintptr_t)p, n);
  return p;
}

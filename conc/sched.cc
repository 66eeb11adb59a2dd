// Controlled scheduler + happens-before race detector for code compiled with -fsanitize=thread but linked
// against this runtime instead of libtsan. Preloaded into the Python interpreter. While a run is active exactly one registered
// thread executes at a time; every synchronisation operation is a scheduling point; the driver enumerates all schedules up to
// equivalence (dynamic partial-order reduction with sleep sets), or all schedules within a delay bound.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <vector>
#include <string>
#include <algorithm>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;
#define EXPORT extern "C" __attribute__((visibility("default")))

static const int MAXT = 24;
static volatile bool g_active = false;     // a run is in progress
static __thread int t_id = -1;             // registered thread id
static __thread int t_in = 0;              // inside the runtime
static bool g_mem = false;                 // more than one thread is alive: record memory accesses

struct Guard { Guard() { t_in++; } ~Guard() { t_in--; } };

// ---------------------------------------------------------------- real functions
template <class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(name) ([] { static decltype(&::name) p = real<decltype(&::name)>(#name); return p; }())

static long raw_futex(u32 *a, int op, u32 v) {
  long r;
  register long r10 __asm__("r10") = 0;
  __asm__ volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(a), "S"(op), "d"(v), "r"(r10) : "rcx", "r11", "memory");
  return r;
}

// ---------------------------------------------------------------- operations
enum Kind { K_NONE, K_START, K_CREATE, K_JOIN, K_LOCK, K_UNLOCK, K_TRYLOCK, K_RLOCK, K_ALOAD, K_AWRITE, K_FWAIT, K_FWAKE, K_CWAIT, K_CSIGNAL, K_ONCE, K_YIELD };
static const char *KN[] = {"none", "start", "create", "join", "lock", "unlock", "trylock", "rdlock", "load", "rmw", "futex_wait", "futex_wake", "cond_wait", "cond_signal", "once", "yield"};
struct Op { int kind = K_NONE; void *obj = nullptr; u64 val = 0; };

static bool is_mutex(int k) { return k == K_LOCK || k == K_UNLOCK || k == K_TRYLOCK || k == K_RLOCK; }
static bool is_atomic(int k) { return k == K_ALOAD || k == K_AWRITE || k == K_FWAIT || k == K_FWAKE; }
// dependent and possibly co-enabled
static bool dependent(const Op &a, const Op &b) {
  if (a.obj != b.obj || !a.obj) return false;
  if (is_mutex(a.kind) && is_mutex(b.kind)) {
    if (a.kind == K_RLOCK && b.kind == K_RLOCK) return false;
    return !(a.kind == K_UNLOCK && b.kind == K_UNLOCK);
  }
  if (is_atomic(a.kind) && is_atomic(b.kind)) {
    bool ra = a.kind == K_ALOAD || a.kind == K_FWAIT, rb = b.kind == K_ALOAD || b.kind == K_FWAIT;
    return !(ra && rb);
  }
  if ((a.kind == K_CWAIT || a.kind == K_CSIGNAL) && (b.kind == K_CWAIT || b.kind == K_CSIGNAL)) return true;
  if (a.kind == K_ONCE && b.kind == K_ONCE) return true;
  return false;
}
static bool race_candidate(const Op &a, const Op &b) {
  if (!dependent(a, b)) return false;
  if ((a.kind == K_UNLOCK && (b.kind == K_LOCK || b.kind == K_RLOCK)) || (b.kind == K_UNLOCK && (a.kind == K_LOCK || a.kind == K_RLOCK))) return false;
  return true;
}

struct VC { u32 c[MAXT]; void clear() { memset(c, 0, sizeof c); } void join(const VC &o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

struct Thread {
  bool used = false, finished = false, reaped = false;
  Op pend;
  u32 sem = 0;
  bool woken = false;
  VC vc;
  pthread_t handle;
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr;
  int created_by = -1, create_step = -1, last_step = -1;
};
static Thread T[MAXT];
static int nT = 0, nlive = 0;
static char *stacks = nullptr;
static const size_t STK = 1 << 20;

// ---------------------------------------------------------------- trace and exploration state
struct Node {
  u32 enabled = 0, backtrack = 0, done = 0, sleep = 0;
  int chosen = -1, prev = -1;
  Op pend[MAXT];
};
static std::vector<Node> *nodes;       // along the current prefix and execution
static std::vector<int> *prefix;
struct Step { int t; Op op; int create = -1; int jt = -1; };
static std::vector<Step> *steps;
static bool redundant = false;
static int mode = 0;                   // 0 DPOR, 1 delay bound
static int delays_left = 0;
static u64 fail_mask = 0;
static int ncreate = 0;
static bool failed_create = false;
static char errbuf[16384];
static volatile bool g_err = false;
static u64 total_steps = 0, total_acc = 0;
static u64 max_threads = 0, races_seen = 0;
static int curfd = 2;

static void err(const char *fmt, ...) {
  if (g_err) return;
  g_err = true;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(errbuf, sizeof errbuf, fmt, ap);
  va_end(ap);
}

static void sem_wait_(u32 *s) {
  while (__atomic_load_n(s, __ATOMIC_ACQUIRE) == 0) raw_futex(s, FUTEX_WAIT_PRIVATE, 0);
  __atomic_store_n(s, 0, __ATOMIC_RELEASE);
}
static void sem_post_(u32 *s) {
  __atomic_store_n(s, 1, __ATOMIC_RELEASE);
  raw_futex(s, FUTEX_WAKE_PRIVATE, 1);
}

// ---------------------------------------------------------------- sync objects
struct Obj { void *p; VC vc; int owner; int readers; int depth; u32 ver; int state; };
static const u32 OBJN = 1 << 14;
static Obj *objs;
static u32 ver = 1;
static Obj *obj(void *p) {
  u64 h = ((u64)p * 0x9E3779B97F4A7C15ull) >> 40;
  for (u32 i = 0;; i++) {
    Obj &o = objs[(h + i) & (OBJN - 1)];
    if (o.ver != ver) {
      o.ver = ver; o.p = p; o.vc.clear(); o.owner = -1; o.readers = 0; o.depth = 0; o.state = 0;
      return &o;
    }
    if (o.p == p) return &o;
    if (i > OBJN / 2) { err("TOOL: too many synchronisation objects"); return &o; }
  }
}
static Obj *obj_find(void *p) {
  u64 h = ((u64)p * 0x9E3779B97F4A7C15ull) >> 40;
  for (u32 i = 0; i < 64; i++) {
    Obj &o = objs[(h + i) & (OBJN - 1)];
    if (o.ver != ver) return nullptr;
    if (o.p == p) return &o;
  }
  return nullptr;
}

// ---------------------------------------------------------------- shadow memory
struct Cell {
  u64 g; u32 ver; uint8_t wm[MAXT], rm[MAXT]; u32 wc[MAXT], rc[MAXT]; void *pc[MAXT]; bool atomic;
};
static const u32 CELLN = 1 << 17;
static Cell *cells;
static Cell *cell(u64 g, bool create) {
  u64 h = (g * 0x9E3779B97F4A7C15ull) >> 38;
  for (u32 i = 0;; i++) {
    Cell &c = cells[(h + i) & (CELLN - 1)];
    if (c.ver != ver) {
      if (!create) return nullptr;
      memset(&c, 0, sizeof c);
      c.ver = ver; c.g = g;
      return &c;
    }
    if (c.g == g) return &c;
    if (i > CELLN / 2) { err("TOOL: shadow memory exhausted"); return nullptr; }
  }
}
static std::string sym(void *pc) {
  Dl_info d;
  char b[512];
  if (dladdr(pc, &d) && d.dli_fname) {
    const char *f = strrchr(d.dli_fname, '/');
    snprintf(b, sizeof b, "%s+0x%lx%s%s", f ? f + 1 : d.dli_fname, (long)((char *)pc - (char *)d.dli_fbase), d.dli_sname ? " " : "", d.dli_sname ? d.dli_sname : "");
  } else snprintf(b, sizeof b, "%p", pc);
  return b;
}
static void access(void *addr, size_t size, bool write, void *pc) {
  int t = t_id;
  u64 a = (u64)addr, e = a + size;
  total_acc++;
  while (a < e) {
    u64 g = a >> 3;
    u64 end = (g + 1) << 3;
    if (end > e) end = e;
    uint8_t m = (uint8_t)(((1u << (end - a)) - 1) << (a & 7));
    Cell *c = cell(g, true);
    if (!c) return;
    for (int u = 0; u < nT; u++) {
      if (u == t) continue;
      if ((c->wm[u] & m) && c->wc[u] > T[t].vc.c[u]) {
        races_seen++;
        err("data race: thread %d %s %zu byte(s) at %s, unordered with a write by thread %d at %s", t, write ? "writes" : "reads", size, sym(pc).c_str(), u, sym(c->pc[u]).c_str());
      }
      if (write && (c->rm[u] & m) && c->rc[u] > T[t].vc.c[u]) {
        races_seen++;
        err("data race: thread %d writes %zu byte(s) at %s, unordered with a read by thread %d at %s", t, size, sym(pc).c_str(), u, sym(c->pc[u]).c_str());
      }
    }
    u32 now = T[t].vc.c[t];
    if (write) {
      if (c->wc[t] != now) { c->wc[t] = now; }
      c->wm[t] |= m;
      c->pc[t] = pc;
    } else {
      if (c->rc[t] != now) { c->rc[t] = now; }
      c->rm[t] |= m;
      if (!c->wm[t]) c->pc[t] = pc;
    }
    a = end;
  }
}
static void fresh(void *p, size_t n) {
  if (n > (1 << 20)) n = 1 << 20;
  for (u64 g = (u64)p >> 3, e = ((u64)p + n + 7) >> 3; g < e; g++) {
    Cell *c = cell(g, false);
    if (c) { memset(c->wm, 0, sizeof c->wm); memset(c->rm, 0, sizeof c->rm); memset(c->wc, 0, sizeof c->wc); memset(c->rc, 0, sizeof c->rc); }
  }
  for (u64 a = (u64)p & ~3ull; a < (u64)p + n && a < (u64)p + 512; a += 4) {
    Obj *o = obj_find((void *)a);
    if (o) { o->vc.clear(); o->owner = -1; o->state = 0; o->readers = 0; }
  }
}

static inline bool on() { return g_active && t_id >= 0 && t_in == 0 && !T[t_id].finished; }

#define ACC(write, size) do { if (g_mem && on()) { Guard g_; access(addr, size, write, __builtin_return_address(0)); } } while (0)
#define RW(n) EXPORT void __tsan_read##n(void *addr) { ACC(false, n); } EXPORT void __tsan_write##n(void *addr) { ACC(true, n); } \
  EXPORT void __tsan_unaligned_read##n(void *addr) { ACC(false, n); } EXPORT void __tsan_unaligned_write##n(void *addr) { ACC(true, n); } \
  EXPORT void __tsan_read##n##_pc(void *addr, void *) { ACC(false, n); } EXPORT void __tsan_write##n##_pc(void *addr, void *) { ACC(true, n); } \
  EXPORT void __tsan_volatile_read##n(void *addr) { ACC(false, n); } EXPORT void __tsan_volatile_write##n(void *addr) { ACC(true, n); } \
  EXPORT void __tsan_unaligned_volatile_read##n(void *addr) { ACC(false, n); } EXPORT void __tsan_unaligned_volatile_write##n(void *addr) { ACC(true, n); } \
  EXPORT void __tsan_read_write##n(void *addr) { ACC(true, n); } EXPORT void __tsan_unaligned_read_write##n(void *addr) { ACC(true, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void *addr, size_t n) { ACC(false, n); }
EXPORT void __tsan_write_range(void *addr, size_t n) { ACC(true, n); }
EXPORT void __tsan_vptr_update(void **addr, void *v) { if (*addr != v) ACC(true, sizeof(void *)); }
EXPORT void __tsan_vptr_read(void **addr) { ACC(false, sizeof(void *)); }
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_init() {}
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}
// block operations of the instrumented code (the module is linked with --wrap for these)
static inline void range(void *addr, size_t n, bool write, void *pc) { if (n && g_mem && on()) { Guard g_; access(addr, n, write, pc); } }
#define PC __builtin_return_address(0)
EXPORT void *__tsan_memcpy(void *d, const void *s, size_t n) { range((void *)s, n, false, PC); range(d, n, true, PC); return memcpy(d, s, n); }
EXPORT void *__tsan_memset(void *d, int v, size_t n) { range(d, n, true, PC); return memset(d, v, n); }
EXPORT void *__tsan_memmove(void *d, const void *s, size_t n) { range((void *)s, n, false, PC); range(d, n, true, PC); return memmove(d, s, n); }
EXPORT void *__wrap_memcpy(void *d, const void *s, size_t n) { range((void *)s, n, false, PC); range(d, n, true, PC); return memcpy(d, s, n); }
EXPORT void *__wrap_memset(void *d, int v, size_t n) { range(d, n, true, PC); return memset(d, v, n); }
EXPORT void *__wrap_memmove(void *d, const void *s, size_t n) { range((void *)s, n, false, PC); range(d, n, true, PC); return memmove(d, s, n); }
EXPORT int __wrap_memcmp(const void *d, const void *s, size_t n) { range((void *)s, n, false, PC); range((void *)d, n, false, PC); return memcmp(d, s, n); }
EXPORT size_t __wrap_strlen(const char *s) { size_t n = strlen(s); range((void *)s, n + 1, false, PC); return n; }

// ---------------------------------------------------------------- scheduler core
static bool enabled(int t) {
  Thread &x = T[t];
  if (!x.used || x.finished) return false;
  switch (x.pend.kind) {
  case K_LOCK: { Obj *o = obj(x.pend.obj); return (o->owner < 0 && o->readers == 0) || (o->owner == t && x.pend.val == 1); }
  case K_RLOCK: return obj(x.pend.obj)->owner < 0;
  case K_JOIN: return T[(int)x.pend.val].finished;
  case K_FWAIT: return x.woken || *(volatile u32 *)x.pend.obj != (u32)x.pend.val;
  case K_CWAIT: return x.woken;
  case K_ONCE: return obj(x.pend.obj)->state != 1;
  default: return true;
  }
}

static void dump_state(char *b, size_t n) {
  size_t k = 0;
  for (int i = 0; i < nT && k < n - 80; i++)
    k += snprintf(b + k, n - k, "thread %d: %s; ", i, T[i].finished ? "finished" : KN[T[i].pend.kind]);
}

static void fatal_out(const char *what) {
  // nothing can be unwound any more: report and leave
  std::string s = "FATAL ";
  s += what;
  s += "\nSCHEDULE";
  for (auto &x : *steps) { s += ' '; s += std::to_string(x.t); }
  s += "\n";
  ssize_t r = write(curfd, s.data(), s.size());
  (void)r;
  _exit(3);
}

// choose the next thread to run; cur is the thread that is giving up the token
static int choose(int cur) {
  int d = (int)steps->size();
  u32 en = 0;
  for (int i = 0; i < nT; i++) if (enabled(i)) en |= 1u << i;
  if (!en) {
    char b[2048];
    dump_state(b, sizeof b);
    std::string m = std::string("deadlock: no thread can run: ") + b;
    fatal_out(m.c_str());
  }
  if (d > 20000) fatal_out("TOOL: execution too long");
  int c = -1;
  if (d >= (int)nodes->size()) nodes->resize(d + 1);
  Node &nd = (*nodes)[d];
  if (d < (int)prefix->size()) {
    c = (*prefix)[d];
    if (!(en >> c & 1)) { err("TOOL: schedule cannot be replayed (step %d, thread %d)", d, c); c = __builtin_ctz(en); }
    if (mode == 1) { nd.enabled = en; nd.prev = cur; }
  } else {
    nd.enabled = en; nd.backtrack = 0; nd.done = 0; nd.sleep = 0; nd.prev = cur;
    if (mode == 0) {
      if (d > 0) {
        Node &p = (*nodes)[d - 1];
        for (int q = 0; q < nT; q++)
          if (((p.sleep | p.done) >> q & 1) && q != p.chosen && (en >> q & 1) && !dependent(p.pend[q], p.pend[p.chosen])) nd.sleep |= 1u << q;
      }
      u32 av = en & ~nd.sleep;
      if (!av) { redundant = true; av = en; }
      c = (cur >= 0 && (av >> cur & 1)) ? cur : __builtin_ctz(av);
      nd.backtrack = 1u << c;
    } else {
      c = (cur >= 0 && (en >> cur & 1)) ? cur : __builtin_ctz(en);
    }
  }
  nd.chosen = c;
  for (int i = 0; i < nT; i++) nd.pend[i] = T[i].pend;
  Step s;
  s.t = c;
  s.op = T[c].pend;
  if (s.op.kind == K_START) s.create = T[c].create_step;
  if (s.op.kind == K_JOIN) s.jt = (int)s.op.val;
  T[c].last_step = d;
  steps->push_back(s);
  total_steps++;
  return c;
}

static void point(Op op) {
  int me = t_id;
  T[me].pend = op;
  T[me].woken = false;
  int n = choose(me);
  if (n != me) {
    sem_post_(&T[n].sem);
    sem_wait_(&T[me].sem);
  }
  T[me].pend.kind = K_NONE;
}

static void acquire_(void *p) { T[t_id].vc.join(obj(p)->vc); }
static void release_(void *p) { obj(p)->vc.join(T[t_id].vc); T[t_id].vc.c[t_id]++; }

// ---------------------------------------------------------------- atomics
static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
struct At {
  bool a; void *p; int mo; bool w;
  At(const volatile void *q, bool write, int m) : a(g_mem && on()), p((void *)q), mo(m), w(write) {
    if (a) { t_in++; point(Op{write ? K_AWRITE : K_ALOAD, p, 0}); if (acq(mo)) acquire_(p); }
  }
  ~At() { if (a) { if (w && rel(mo)) release_(p); t_in--; } }
};
#define ATOM(bits, ty) \
  EXPORT ty __tsan_atomic##bits##_load(const volatile ty *a, int mo) { At x(a, false, mo); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  EXPORT void __tsan_atomic##bits##_store(volatile ty *a, ty v, int mo) { At x(a, true, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int mo) { At x(a, true, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT ty __tsan_atomic##bits##_fetch_add(volatile ty *a, ty v, int mo) { At x(a, true, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT ty __tsan_atomic##bits##_fetch_sub(volatile ty *a, ty v, int mo) { At x(a, true, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT ty __tsan_atomic##bits##_fetch_and(volatile ty *a, ty v, int mo) { At x(a, true, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT ty __tsan_atomic##bits##_fetch_or(volatile ty *a, ty v, int mo) { At x(a, true, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT ty __tsan_atomic##bits##_fetch_xor(volatile ty *a, ty v, int mo) { At x(a, true, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT ty __tsan_atomic##bits##_fetch_nand(volatile ty *a, ty v, int mo) { At x(a, true, mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int mo, int) { At x(a, true, mo); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int mo, int) { At x(a, true, mo); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  EXPORT ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *a, ty c, ty v, int mo, int) { At x(a, true, mo); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) {}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- memory
extern "C" void *__libc_malloc(size_t);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_memalign(size_t, size_t);
extern "C" void __libc_free(void *);
static inline bool mon() { return g_mem && on(); }
static void *alloc_hook(void *p, size_t n) { if (p && mon()) { Guard g; size_t u = malloc_usable_size(p); fresh(p, u > n ? u : n); } return p; }
EXPORT void *malloc(size_t n) { return alloc_hook(__libc_malloc(n), n); }
EXPORT void *calloc(size_t a, size_t b) { return alloc_hook(__libc_calloc(a, b), a * b); }
EXPORT void *memalign(size_t al, size_t n) { return alloc_hook(__libc_memalign(al, n), n); }
EXPORT void *aligned_alloc(size_t al, size_t n) { return alloc_hook(__libc_memalign(al, n), n); }
EXPORT int posix_memalign(void **p, size_t al, size_t n) { *p = alloc_hook(__libc_memalign(al, n), n); return *p ? 0 : ENOMEM; }
EXPORT void *realloc(void *q, size_t n) { return alloc_hook(__libc_realloc(q, n), n); }
EXPORT void free(void *p) {
  if (p && mon()) {
    Guard g;
    size_t n = malloc_usable_size(p);
    if (n > 65536) n = 65536;
    u64 e = ((u64)p + n) >> 3;
    for (u64 gr = (u64)p >> 3; gr < e; gr++) {
      Cell *c = cell(gr, false);
      if (!c) continue;
      for (int u = 0; u < nT; u++)
        if (u != t_id && ((c->wm[u] && c->wc[u] > T[t_id].vc.c[u]) || (c->rm[u] && c->rc[u] > T[t_id].vc.c[u])))
          err("data race: thread %d frees memory at %s, unordered with an access by thread %d at %s", t_id, sym(__builtin_return_address(0)).c_str(), u, sym(c->pc[u]).c_str());
    }
  }
  __libc_free(p);
}

// ---------------------------------------------------------------- threads
static void *trampoline(void *a) {
  int id = (int)(long)a;
  t_in = 1;
  t_id = id;
  sem_wait_(&T[id].sem);
  T[id].pend.kind = K_NONE;
  t_in = 0;
  void *r = T[id].fn(T[id].arg);
  t_in = 1;
  T[id].finished = true;
  nlive--;
  int n = choose(-1);
  t_id = -1;
  sem_post_(&T[n].sem);
  return r;
}

EXPORT int pthread_create(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  auto f = REAL(pthread_create);
  if (!on()) return f(th, attr, fn, arg);
  Guard g;
  g_mem = true;
  point(Op{K_CREATE, nullptr, 0});
  int k = ncreate++;
  if (k < 64 && (fail_mask >> k & 1)) { failed_create = true; return EAGAIN; }
  if (nT >= MAXT) { err("TOOL: too many threads"); return EAGAIN; }
  int id = nT++;
  Thread &x = T[id];
  x = Thread();
  x.used = true;
  x.fn = fn;
  x.arg = arg;
  x.pend = Op{K_START, nullptr, 0};
  x.create_step = (int)steps->size() - 1;
  x.vc = T[t_id].vc;
  x.vc.c[id] = 1;
  T[t_id].vc.c[t_id]++;
  nlive++;
  if ((u64)nlive > max_threads) max_threads = nlive;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, stacks + STK * id, STK);
  int r = f(th, &at, trampoline, (void *)(long)id);
  pthread_attr_destroy(&at);
  if (r) { err("TOOL: cannot create a thread: %d", r); nT--; nlive--; return r; }
  x.handle = *th;
  return 0;
}
static int tid_of(pthread_t h) {
  for (int i = nT - 1; i >= 0; i--) if (T[i].used && !T[i].reaped && pthread_equal(T[i].handle, h)) return i;
  return -1;
}
EXPORT int pthread_join(pthread_t h, void **ret) {
  auto f = REAL(pthread_join);
  if (!on()) return f(h, ret);
  Guard g;
  int id = tid_of(h);
  if (id > 0) {
    point(Op{K_JOIN, nullptr, (u64)id});
    T[t_id].vc.join(T[id].vc);
    T[id].reaped = true;
  }
  int r = f(h, ret);
  return r;
}
EXPORT int sched_yield() {
  if (mon()) { Guard g; point(Op{K_YIELD, nullptr, 0}); return 0; }
  return 0;
}

// ---------------------------------------------------------------- mutexes
static bool mine() { return g_active && t_id >= 0 && t_in == 0; }
static int lock_(void *m, bool recursive) {
  Guard g;
  point(Op{K_LOCK, m, recursive ? 1ull : 0ull});
  Obj *o = obj(m);
  o->owner = t_id;
  o->depth++;
  acquire_(m);
  return 0;
}
static bool is_recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) {
  if (mine()) return lock_(m, is_recursive(m));
  return REAL(pthread_mutex_lock)(m);
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (mine()) {
    Guard g;
    point(Op{K_TRYLOCK, m, 0});
    Obj *o = obj(m);
    if (o->owner >= 0 && !(o->owner == t_id && is_recursive(m))) return EBUSY;
    o->owner = t_id; o->depth++;
    acquire_(m);
    return 0;
  }
  return REAL(pthread_mutex_trylock)(m);
}
static int unlock_(void *m) {
  Obj *o = obj(m);
  if (o->depth > 0 && --o->depth > 0) return 0;
  release_(m);
  o->owner = -1;
  return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (g_active && t_id >= 0 && t_in == 0) {
    Obj *o = obj_find(m);
    if (o && o->owner == t_id) {
      Guard g;
      point(Op{K_UNLOCK, m, 0});
      return unlock_(m);
    }
  }
  return REAL(pthread_mutex_unlock)(m);
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *m) { return mine() ? lock_(m, false) : REAL(pthread_rwlock_wrlock)(m); }
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  if (!mine()) return REAL(pthread_rwlock_rdlock)(m);
  Guard g;
  point(Op{K_RLOCK, m, 0});
  obj(m)->readers++;
  acquire_(m);
  return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *m) {
  if (g_active && t_id >= 0 && t_in == 0) {
    Obj *o = obj_find(m);
    if (o && (o->owner == t_id || o->readers > 0)) {
      Guard g;
      point(Op{K_UNLOCK, m, 0});
      if (o->owner == t_id) return unlock_(m);
      o->readers--;
      release_(m);
      return 0;
    }
  }
  return REAL(pthread_rwlock_unlock)(m);
}
// condition variables
static int cwait(pthread_cond_t *c, pthread_mutex_t *m) {
  Guard g;
  point(Op{K_UNLOCK, m, 0});
  Obj *o = obj(m);
  release_(m);
  o->owner = -1; o->depth = 0;
  point(Op{K_CWAIT, c, 0});
  acquire_(c);
  point(Op{K_LOCK, m, 0});
  o = obj(m);
  o->owner = t_id; o->depth = 1;
  acquire_(m);
  return 0;
}
static int csig(pthread_cond_t *c, bool all) {
  Guard g;
  point(Op{K_CSIGNAL, c, 0});
  release_(c);
  for (int i = 0; i < nT; i++)
    if (T[i].used && !T[i].finished && T[i].pend.kind == K_CWAIT && T[i].pend.obj == c && !T[i].woken) { T[i].woken = true; if (!all) break; }
  return 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { Obj *o; return mine() && (o = obj_find(m)) && o->owner == t_id ? cwait(c, m) : REAL(pthread_cond_wait)(c, m); }
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { Obj *o; return mine() && (o = obj_find(m)) && o->owner == t_id ? cwait(c, m) : REAL(pthread_cond_timedwait)(c, m, ts); }
EXPORT int pthread_cond_signal(pthread_cond_t *c) { return mine() ? csig(c, false) : REAL(pthread_cond_signal)(c); }
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) { return mine() ? csig(c, true) : REAL(pthread_cond_broadcast)(c); }

EXPORT int pthread_once(pthread_once_t *o, void (*f)()) {
  if (!mine()) return REAL(pthread_once)(o, f);
  // 0 never run, 2 done
  if (*(volatile int *)o == 2) { Guard g; acquire_(o); return 0; }
  {
    Guard g;
    point(Op{K_ONCE, o, 0});
    Obj *x = obj(o);
    if (*(volatile int *)o == 2) { acquire_(o); return 0; }
    x->state = 1;
  }
  try { f(); } catch (...) { Guard g; obj(o)->state = 0; throw; }
  Guard g;
  *(volatile int *)o = 2;
  Obj *x = obj(o);
  x->state = 2;
  release_(o);
  return 0;
}
// static-local initialisation guards
EXPORT int __cxa_guard_acquire(long long int *gd) {
  volatile uint8_t *b = (volatile uint8_t *)gd;
  if (!mine()) {
    static auto f = real<int (*)(long long int *)>("__cxa_guard_acquire");
    return f(gd);
  }
  Guard g;
  if (*b == 1) { acquire_(gd); return 0; }
  point(Op{K_ONCE, gd, 0});
  if (*b == 1) { acquire_(gd); return 0; }
  obj(gd)->state = 1;
  return 1;
}
EXPORT void __cxa_guard_release(long long int *gd) {
  Obj *o = (g_active && t_id >= 0) ? obj_find(gd) : nullptr;
  if (!o || o->state != 1) {
    static auto f = real<void (*)(long long int *)>("__cxa_guard_release");
    return f(gd);
  }
  Guard g;
  *(volatile uint8_t *)gd = 1;
  o->state = 2;
  release_(gd);
  obj(gd);
}
EXPORT void __cxa_guard_abort(long long int *gd) {
  Obj *o = (g_active && t_id >= 0) ? obj_find(gd) : nullptr;
  if (!o || o->state != 1) {
    static auto f = real<void (*)(long long int *)>("__cxa_guard_abort");
    return f(gd);
  }
  o->state = 0;
}

// ---------------------------------------------------------------- futex through syscall()
EXPORT long syscall(long nr, ...) {
  va_list ap;
  va_start(ap, nr);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (nr == SYS_futex && mine()) {
    int op = (int)b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      Guard g;
      if (*(volatile u32 *)a != (u32)c) { errno = EAGAIN; return -1; }
      point(Op{K_FWAIT, (void *)a, (u64)(u32)c});
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      Guard g;
      point(Op{K_FWAKE, (void *)a, 0});
      int n = 0;
      for (int i = 0; i < nT; i++)
        if (T[i].used && !T[i].finished && T[i].pend.kind == K_FWAIT && T[i].pend.obj == (void *)a) { T[i].woken = true; n++; if (n >= c) break; }
      return n;
    }
  }
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// ---------------------------------------------------------------- driver interface
static void on_signal(int s) {
  char b[64];
  snprintf(b, sizeof b, "killed by signal %d", s);
  fatal_out(b);
}
static void on_alarm(int) { fatal_out("no progress: the execution does not terminate under this schedule"); }

EXPORT void sc_init(int fd) {
  curfd = fd;
  objs = (Obj *)mmap(nullptr, OBJN * sizeof(Obj), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  cells = (Cell *)mmap(nullptr, (size_t)CELLN * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  stacks = (char *)mmap(nullptr, STK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  nodes = new std::vector<Node>();
  prefix = new std::vector<int>();
  steps = new std::vector<Step>();
  nodes->reserve(20100);
  steps->reserve(20100);
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(s, on_signal);
  signal(SIGALRM, on_alarm);
}
EXPORT void sc_reset(int md) { mode = md; nodes->clear(); prefix->clear(); steps->clear(); }
EXPORT void sc_set_prefix(const int *p, int n) { prefix->assign(p, p + n); if (mode == 1) nodes->clear(); }

// start a controlled run; faults: bit k set = the k-th thread creation is refused
EXPORT void sc_begin(u64 faults) {
  ver++;
  for (int i = 0; i < MAXT; i++) T[i] = Thread();
  nT = 1; nlive = 1;
  T[0].used = true;
  T[0].vc.clear();
  T[0].vc.c[0] = 1;
  steps->clear();
  fail_mask = faults;
  ncreate = 0;
  failed_create = false;
  redundant = false;
  g_err = false;
  errbuf[0] = 0;
  g_mem = false;
  t_id = 0;
  t_in = 0;
  alarm(60);
  __atomic_store_n(&g_active, true, __ATOMIC_SEQ_CST);
}
// returns 0 ok, 1 error; all worker threads must have ended
EXPORT int sc_end() {
  t_in++;
  if (nlive > 1) {
    // let abandoned threads run to completion so that the next run starts clean
    bool left = false;
    for (int i = 1; i < nT; i++) if (!T[i].finished) left = true;
    if (left) err("worker threads are still running after the call returned");
    while (nlive > 1) {
      bool any = false;
      for (int i = 1; i < nT; i++) if (enabled(i)) any = true;
      if (!any) fatal_out("deadlock of worker threads left behind by the call");
      point(Op{K_YIELD, nullptr, 0});
      for (int i = 1; i < nT && nlive > 1; i++) {
        // hand the token to unfinished threads explicitly
        if (enabled(i)) {
          T[0].pend = Op{K_YIELD, nullptr, 0};
          Step s; s.t = i; s.op = T[i].pend; steps->push_back(s);
          sem_post_(&T[i].sem);
          sem_wait_(&T[0].sem);
          break;
        }
      }
    }
  }
  g_active = false;
  g_mem = false;
  t_id = -1;
  t_in--;
  alarm(0);
  return g_err ? 1 : 0;
}
EXPORT const char *sc_error() { return errbuf; }
EXPORT int sc_creates() { return ncreate; }
EXPORT int sc_failed_create() { return failed_create; }
EXPORT int sc_redundant() { return redundant; }
EXPORT int sc_nsteps() { return (int)steps->size(); }
EXPORT int sc_trace(int *out, int n) { int k = std::min(n, (int)steps->size()); for (int i = 0; i < k; i++) out[i] = (*steps)[i].t; return k; }
EXPORT u64 sc_total_steps() { return total_steps; }
EXPORT u64 sc_total_acc() { return total_acc; }
EXPORT u64 sc_max_threads() { return max_threads; }
EXPORT int sc_enabled(int d) { return (int)(*nodes)[d].enabled; }
EXPORT int sc_prev(int d) { return (*nodes)[d].prev; }
EXPORT int sc_describe(char *b, int n) {
  int k = 0;
  for (size_t i = 0; i < steps->size() && k < n - 64; i++) k += snprintf(b + k, n - k, "%d:%s ", (*steps)[i].t, KN[(*steps)[i].op.kind]);
  return k;
}

// dynamic partial-order reduction: analyse the execution just finished and set the prefix of the next one; 0 = all explored
EXPORT int sc_next() {
  int n = (int)steps->size();
  if (!redundant) {
    static std::vector<VC> *V = new std::vector<VC>();
    V->resize(n);
    std::vector<int> last(MAXT, -1);
    std::vector<int> idx(n);
    int cnt[MAXT] = {0};
    for (int j = 0; j < n; j++) {
      const Step &s = (*steps)[j];
      VC &v = (*V)[j];
      if (last[s.t] >= 0) v = (*V)[last[s.t]]; else v.clear();
      if (s.create >= 0) v.join((*V)[s.create]);
      if (s.jt >= 0 && last[s.jt] >= 0) v.join((*V)[last[s.jt]]);
      idx[j] = ++cnt[s.t];
      // races: i dependent with j, not ordered before j through other steps
      VC pre = v;
      for (int i = j - 1; i >= 0; i--) {
        const Step &r = (*steps)[i];
        if (r.t == s.t || !dependent(r.op, s.op)) continue;
        bool hb = pre.c[r.t] >= (u32)idx[i];
        if (!hb && race_candidate(r.op, s.op)) {
          // ordered through a later dependent step k, i < k < j ?
          bool via = false;
          for (int k = i + 1; k < j && !via; k++)
            if ((*steps)[k].t != s.t && (!is_mutex(s.op.kind) || (*steps)[k].op.kind != K_UNLOCK) && dependent((*steps)[k].op, s.op) && (*V)[k].c[r.t] >= (u32)idx[i] && k != i) via = true;
          if (!via) {
            Node &nd = (*nodes)[i];
            u32 e = 0;
            if (nd.enabled >> s.t & 1) e = 1u << s.t;
            else {
              for (int k = i + 1; k < j; k++) {
                int q = (*steps)[k].t;
                if ((nd.enabled >> q & 1) && pre.c[q] >= (u32)idx[k]) { e = 1u << q; break; }
              }
              if (!e) e = nd.enabled;
            }
            if (!(nd.backtrack & e)) nd.backtrack |= e;
          }
        }
      }
      for (int i = j - 1; i >= 0; i--) {
        const Step &r = (*steps)[i];
        if (r.t != s.t && dependent(r.op, s.op)) v.join((*V)[i]);
      }
      v.c[s.t] = idx[j];
      last[s.t] = j;
    }
  }
  // backtrack
  for (int d = n - 1; d >= 0; d--) {
    Node &nd = (*nodes)[d];
    nd.done |= 1u << nd.chosen;
    u32 c = nd.backtrack & ~nd.done & ~nd.sleep & nd.enabled;
    if (c) {
      int t = __builtin_ctz(c);
      prefix->resize(d + 1);
      for (int i = 0; i < d; i++) (*prefix)[i] = (*nodes)[i].chosen;
      (*prefix)[d] = t;
      nodes->resize(d + 1);
      return 1;
    }
  }
  return 0;
}

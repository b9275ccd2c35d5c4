// See mcsched.h.  This file is never instrumented.
#include "mcsched.h"

#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

#include "mc.h"

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
extern char __libc_single_threaded;
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
}

namespace {

constexpr int kMaxThreads = 16;
constexpr size_t kStack = 1 << 20;

struct VC {
  uint32_t c[kMaxThreads];
  void Clear() { __real_memset(c, 0, sizeof c); }
  void Join(const VC& o) {
    for (int i = 0; i < kMaxThreads; ++i) if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

enum Op : uint8_t { kRun, kLock, kCond, kJoin, kGuard, kFinished, kYieldOp };

struct Thread {
  void* sp;
  char* stack;
  void* (*fn)(void*);
  void* arg;
  Op op;             // what it waits for
  const void* obj;   // mutex / cond / thread index (kJoin) / guard
  bool signalled;    // kCond: woken up
  bool detached;
  VC vc;
  uint32_t ops;
  int untracked;
  uint64_t eh[2];
};

struct Mutex { const void* addr; uint64_t gen; int owner; int depth; VC vc; };
struct Atomic { const void* addr; uint64_t gen; VC vc; };

template <typename E, int kLog>
struct Table {  // open addressing, never shrinks, emptied by generation
  E* e = nullptr;
  uint64_t gen = 1;
  int n = 0;
  int log = kLog;
  void Init() {
    if (!e) e = static_cast<E*>(mmap(nullptr, sizeof(E) << log, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  }
  void Reset() { Init(); ++gen; n = 0; }
  static uint64_t Hash(uint64_t a) { a *= 0x9e3779b97f4a7c15ull; return a ^ (a >> 29); }
  E* Find(const void* a, bool* fresh) {
    uint64_t m = (1ull << log) - 1, i = (Hash(reinterpret_cast<uint64_t>(a)) >> 8) & m;
    for (;; i = (i + 1) & m) {
      if (e[i].gen != gen) {
        if (n > (3 << (log - 2))) { Grow(); return Find(a, fresh); }
        e[i].gen = gen; e[i].addr = a; ++n; *fresh = true;
        return &e[i];
      }
      if (e[i].addr == a) { *fresh = false; return &e[i]; }
    }
  }
  void Grow() {
    E* old = e; int ol = log;
    e = nullptr; ++log; Init();
    uint64_t m = (1ull << log) - 1;
    for (uint64_t k = 0; k < (1ull << ol); ++k) {
      if (old[k].gen != gen) continue;
      uint64_t i = (Hash(reinterpret_cast<uint64_t>(old[k].addr)) >> 8) & m;
      while (e[i].gen == gen) i = (i + 1) & m;
      __real_memcpy(&e[i], &old[k], sizeof(E));
    }
    munmap(old, sizeof(E) << ol);
  }
};

struct Access {
  uint32_t clock;
  uint8_t tid;
  uint8_t mask;
  uint8_t kind;  // 1 write, 2 atomic, 4 free
  uint8_t used;
  uint32_t pc;   // low half: executables are linked below 4 GB or at one base
};
constexpr int kSlots = 6;
struct Granule { const void* addr; uint64_t gen; Access a[kSlots]; };

Table<Mutex, 10> mutexes;
Table<Atomic, 12> atomics;
Table<Granule, 16> shadow;

Thread th[kMaxThreads];
int num_threads, cur;
bool active = false;       // inside Explore
int internal = 0;          // inside the runtime
bool abandoned;
void* main_sp;
sched::Options opt;
int preemptions_left, spurious_left, total_ops, switches, preempted;
char* guards[16];          // statics being initialised
int num_guards = 0;
int static_depth = 0;      // inside a function-local static's initialiser
char* stacks[kMaxThreads];
uint64_t state_base;

// ---- arena ---------------------------------------------------------------
char* arena;
constexpr size_t kArena = 8ull << 30;
size_t arena_used;

inline bool InArena(const void* p) {
  return arena && p >= arena && p < arena + kArena;
}
void* ArenaAlloc(size_t n, size_t align) {
  if (align < 16) align = 16;
  size_t at = (arena_used + 16 + align - 1) & ~(align - 1);
  size_t end = at + (n ? n : 1);
  if (end > kArena) { fprintf(stderr, "sched: arena exhausted\n"); abort(); }
  *reinterpret_cast<size_t*>(arena + at - 8) = n;
  arena_used = (end + 15) & ~size_t{15};
  return arena + at;
}

extern "C" void SchedSwitch(void** save, void* load);
asm(R"(
.text
.globl SchedSwitch
.type SchedSwitch,@function
SchedSwitch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size SchedSwitch,.-SchedSwitch
)");

extern "C" void* __cxa_get_globals();

struct Internal {
  Internal() { ++internal; }
  ~Internal() { --internal; }
};

[[noreturn]] void Abandon() {
  abandoned = true;
  void* dummy;
  SchedSwitch(&dummy, main_sp);
  __builtin_unreachable();
}

const char* Symbol(uintptr_t pc) {
  static char buf[4][700];
  static int k = 0;
  char* b = buf[k++ & 3];
  snprintf(b, 700, "0x%lx", (unsigned long)pc);
  char exe[300];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  if (n <= 0) return b;
  exe[n] = 0;
  // The executable is not position independent (see build.py).
  char cmd[500];
  snprintf(cmd, sizeof cmd, "addr2line -Cfse %s 0x%lx 2>/dev/null", exe, (unsigned long)(pc - 1));
  if (FILE* p = popen(cmd, "r")) {
    char l1[400] = "", l2[200] = "";
    if (fgets(l1, sizeof l1, p) && fgets(l2, sizeof l2, p)) {
      l1[strcspn(l1, "\n")] = 0;
      l2[strcspn(l2, "\n")] = 0;
      if (strlen(l1) > 160) l1[160] = 0;
      snprintf(b, 700, "%s (%s)", l2, l1);
    }
    pclose(p);
  }
  return b;
}

[[noreturn]] void Fail(const char* fmt, ...) {
  char b[2400];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  ++internal;
  mc::RecordFailure("schedule", 0, b);
  --internal;
  Abandon();
}

// ---- scheduling ----------------------------------------------------------
bool Enabled(int t) {
  Thread& x = th[t];
  switch (x.op) {
    case kRun: case kYieldOp: return true;
    case kFinished: return false;
    case kCond: return x.signalled;
    case kLock: {
      bool f;
      Mutex* m = mutexes.Find(x.obj, &f);
      if (f) { m->owner = -1; m->depth = 0; m->vc.Clear(); }
      return m->owner < 0;
    }
    case kJoin: return th[reinterpret_cast<intptr_t>(x.obj)].op == kFinished;
    case kGuard: return static_cast<const volatile char*>(x.obj)[1] == 0;
  }
  return false;
}

const char* OpName(Op o) {
  switch (o) {
    case kRun: return "runnable"; case kLock: return "waiting for a mutex"; case kCond: return "waiting for a condition";
    case kJoin: return "joining a thread"; case kGuard: return "waiting for a static"; case kYieldOp: return "yielding"; default: return "finished";
  }
}

// Picks and switches to the next thread.  The current thread has set its op.
void Schedule() {
  const bool cur_ok = Enabled(cur);
  int cand[kMaxThreads], n = 0;
  bool free_switch = !cur_ok || th[cur].op == kYieldOp;
  if (opt.policy == 0) {
    if (cur_ok) cand[n++] = cur;
    if (free_switch || preemptions_left > 0)
      for (int t = 0; t < num_threads; ++t)
        if (t != cur && Enabled(t)) cand[n++] = t;
    if (th[cur].op == kYieldOp && n > 1) {
      // A yielding thread goes last, so that waiting loops make progress.
      for (int i = 0; i + 1 < n; ++i) cand[i] = cand[i + 1];
      cand[n - 1] = cur;
    }
  } else {
    // The default first; a yielding thread goes last.
    for (int i = 1; i <= num_threads; ++i) {
      const int t = opt.policy == 1 ? (cur + i) % num_threads : opt.policy == 2 ? num_threads - i : i - 1;
      if (Enabled(t) && !(t == cur && th[cur].op == kYieldOp)) cand[n++] = t;
    }
    if (cur_ok && th[cur].op == kYieldOp) cand[n++] = cur;
    if (n > 1 && preemptions_left == 0) n = 1;
    free_switch = true;
  }
  if (n == 0) {
    char b[1200]; int k = 0;
    for (int t = 0; t < num_threads && k < 1100; ++t)
      k += snprintf(b + k, sizeof b - k, "%s thread %d %s", t ? ";" : "", t, OpName(th[t].op));
    bool all = true;
    for (int t = 0; t < num_threads; ++t) if (th[t].op != kFinished) all = false;
    if (all) Abandon();  // not reached: thread 0 leaves through Explore
    Fail("deadlock:%s", b);
  }
  if (++total_ops > opt.max_ops) Fail("schedule exceeds %d operations (livelock?)", opt.max_ops);
  int next;
  {
    Internal in;
    uint64_t h = state_base;
    for (int t = 0; t < num_threads; ++t) h = mc::Mix(h, th[t].ops * 8 + th[t].op);
    mc::State(h);
    mc::Step();
    next = cand[n > 1 ? mc::Choose(n, "thread") : 0];
    if (mc::Skipping()) Abandon();
  }
  if (opt.policy != 0 && next != cand[0]) { --preemptions_left; ++preempted; }
  if (next == cur) return;
  if (!free_switch) { --preemptions_left; ++preempted; }
  ++switches;
  const int me = cur;
  uint64_t* g = static_cast<uint64_t*>(__cxa_get_globals());
  th[me].eh[0] = g[0]; th[me].eh[1] = g[1];
  cur = next;
  g[0] = th[next].eh[0]; g[1] = th[next].eh[1];
  SchedSwitch(&th[me].sp, th[next].sp);
}

inline void Tick() { ++th[cur].vc.c[cur]; }

// A scheduling point before an operation of the current thread.
void Point() {
  ++th[cur].ops;
  th[cur].op = kRun;
  Schedule();
}
void BlockOn(Op op, const void* obj) {
  th[cur].op = op;
  th[cur].obj = obj;
  Schedule();
  th[cur].op = kRun;
}

extern "C" void SchedThreadStart() {
  Thread& t = th[cur];
  t.fn(t.arg);
  // pthread exit
  Tick();
  t.op = kFinished;
  Schedule();
  abort();
}

int Spawn(void* (*fn)(void*), void* arg) {
  if (num_threads >= kMaxThreads) Fail("too many threads");
  const int i = num_threads++;
  Thread& t = th[i];
  __real_memset(&t, 0, sizeof t);
  if (!stacks[i]) {
    stacks[i] = static_cast<char*>(mmap(nullptr, kStack + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(stacks[i], 4096, PROT_NONE);
  }
  t.fn = fn;
  t.arg = arg;
  t.op = kRun;
  char* top = stacks[i] + kStack;
  void** s = reinterpret_cast<void**>(top);
  *--s = nullptr;                         // fake return address of SchedThreadStart
  *--s = reinterpret_cast<void*>(&SchedThreadStart);
  for (int k = 0; k < 6; ++k) *--s = nullptr;
  --s;
  uint32_t mx; uint16_t cw;
  asm volatile("stmxcsr %0" : "=m"(mx));
  asm volatile("fnstcw %0" : "=m"(cw));
  reinterpret_cast<uint32_t*>(s)[0] = mx;
  reinterpret_cast<uint32_t*>(s)[1] = cw;
  t.sp = s;
  if (i > 0) {
    t.vc = th[cur].vc;
    Tick();
  }
  t.vc.c[i] = 1;
  return i;
}

// ---- race detection ------------------------------------------------------
void Report(const Access& o, bool w, bool at, uintptr_t addr, uintptr_t pc) {
  Internal in;
  const char* s1 = Symbol(pc);
  const char* s2 = Symbol(o.pc);
  Fail("data race: %s%s by thread %d at %s conflicts with unordered %s%s by thread %d at %s",
       at ? "atomic " : "", w ? "write" : "read", cur, s1, (o.kind & 2) ? "atomic " : "",
       (o.kind & 4) ? "free" : (o.kind & 1) ? "write" : "read", o.tid, s2);
}

inline void Touch8(uintptr_t g, uint8_t mask, uint8_t kind, uintptr_t pc) {
  bool fresh;
  Granule* e = shadow.Find(reinterpret_cast<void*>(g), &fresh);
  if (fresh) {
    for (int i = 0; i < kSlots; ++i) e->a[i].used = 0;
  }
  const VC& vc = th[cur].vc;
  const uint32_t now = vc.c[cur];
  int slot = -1, oldest = -1;
  for (int i = 0; i < kSlots; ++i) {
    Access& a = e->a[i];
    if (!a.used) { if (slot < 0) slot = i; continue; }
    if (a.kind & 4) {
      if (a.mask & mask) {
        Internal in;
        const char* s1 = Symbol(pc);
        const char* s2 = Symbol(a.pc);
        Fail("use after free: thread %d at %s touches memory freed by thread %d at %s", cur, s1, a.tid, s2);
      }
      continue;
    }
    if (!(a.mask & mask)) continue;
    if (a.tid == cur) {
      if (a.kind == kind && (a.mask & ~mask) == 0) slot = i;  // superseded
      else if (a.clock == now && a.kind == kind) { a.mask |= mask; return; }
      else if ((kind & 1) && (a.mask & ~mask) == 0 && !(a.kind & 2) == !(kind & 2)) slot = i;
      continue;
    }
    const bool ordered = a.clock <= vc.c[a.tid];
    if (!ordered && ((a.kind | kind) & 1) && !((a.kind & 2) && (kind & 2)))
      Report(a, kind & 1, kind & 2, g, pc);
    if (ordered && (kind & 1) && !(kind & 2) && (a.mask & ~mask) == 0) {
      // Everything that races with `a` later races with this write too.
      slot = i;
    } else if (oldest < 0) {
      oldest = i;
    }
  }
  if (slot < 0) slot = oldest >= 0 ? oldest : 0;
  Access& a = e->a[slot];
  a.used = 1; a.tid = cur; a.clock = now; a.mask = mask; a.kind = kind; a.pc = static_cast<uint32_t>(pc);
}

inline bool Tracking() { return active && !internal && opt.races && num_threads > 1 && th[cur].untracked == 0; }

inline void Touch(const void* p, size_t n, uint8_t kind, uintptr_t pc) {
  if (!Tracking() || n == 0) return;
  uintptr_t a = reinterpret_cast<uintptr_t>(p), end = a + n;
  for (uintptr_t g = a & ~7ull; g < end; g += 8) {
    const int lo = a > g ? a - g : 0, hi = end < g + 8 ? end - g : 8;
    Touch8(g, ((1u << hi) - 1) & ~((1u << lo) - 1), kind, pc);
  }
}
#define PC reinterpret_cast<uintptr_t>(__builtin_return_address(0))

void FreeBlock(void* p, uintptr_t pc) {
  // In the arena and active: no reuse; later accesses are errors.
  if (!active || internal || !opt.races || abandoned) return;
  size_t n = *reinterpret_cast<size_t*>(static_cast<char*>(p) - 8);
  if (num_threads > 1 && th[cur].untracked == 0) {
    Touch(p, n, 1, pc);
    uintptr_t a = reinterpret_cast<uintptr_t>(p), end = a + n;
    // Large blocks: mark the head only beyond 64 KB (cost).
    if (n > 65536) end = a + 65536;
    for (uintptr_t g = a & ~7ull; g < end; g += 8) {
      bool fresh;
      Granule* e = shadow.Find(reinterpret_cast<void*>(g), &fresh);
      if (fresh) for (int i = 0; i < kSlots; ++i) e->a[i].used = 0;
      const int hi = end < g + 8 ? end - g : 8;
      Access& x = e->a[0];
      x.used = 1; x.tid = cur; x.clock = th[cur].vc.c[cur]; x.mask = (1u << hi) - 1; x.kind = 4; x.pc = static_cast<uint32_t>(pc);
    }
  }
}

Mutex* GetMutex(const void* a) {
  bool f;
  Mutex* m = mutexes.Find(a, &f);
  if (f) { m->owner = -1; m->depth = 0; m->vc.Clear(); }
  return m;
}
VC* GetAtomic(const void* a) {
  bool f;
  Atomic* m = atomics.Find(a, &f);
  if (f) m->vc.Clear();
  return &m->vc;
}
inline bool On() { return active && !internal; }

void LockMutex(const void* m) {
  Point();
  if (GetMutex(m)->owner == cur) Fail("deadlock: thread %d locks a mutex it already holds", cur);
  while (GetMutex(m)->owner >= 0) BlockOn(kLock, m);
  Mutex* x = GetMutex(m);
  x->owner = cur;
  th[cur].vc.Join(x->vc);
}
void UnlockMutex(const void* m) {
  Mutex* x = GetMutex(m);
  if (x->owner != cur) Fail("thread %d unlocks a mutex it does not hold", cur);
  x->vc = th[cur].vc;
  x->owner = -1;
  Tick();
}

}  // namespace

namespace sched {

bool Explore(const Options& o, void (*body)(void*), void* arg) {
  ++internal;
  __libc_single_threaded = 0;
  opt = o;
  if (!arena) {
    arena = static_cast<char*>(mmap(nullptr, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  }
  arena_used = 0;
  mutexes.Reset();
  atomics.Reset();
  shadow.Reset();
  num_threads = 0;
  cur = 0;
  total_ops = switches = preempted = 0;
  preemptions_left = o.preemptions;
  spurious_left = o.spurious;
  abandoned = false;
  static_depth = 0;
  state_base = mc::PrefixHash();
  struct Start { void (*body)(void*); void* arg; } st{body, arg};
  Spawn([](void* p) -> void* {
    auto* s = static_cast<Start*>(p);
    s->body(s->arg);
    ++internal;
    --internal;
    // Wait for every other thread, then leave.
    for (;;) {
      bool all = true;
      for (int t = 1; t < num_threads; ++t) if (th[t].op != kFinished) all = false;
      if (all) break;
      int t = 1;
      while (th[t].op == kFinished) ++t;
      BlockOn(kJoin, reinterpret_cast<void*>(static_cast<intptr_t>(t)));
    }
    active = false;
    void* dummy;
    SchedSwitch(&dummy, main_sp);
    return nullptr;
  }, &st);
  uint64_t* g = static_cast<uint64_t*>(__cxa_get_globals());
  const uint64_t g0 = g[0], g1 = g[1];
  active = true;
  --internal;
  SchedSwitch(&main_sp, th[0].sp);
  active = false;
  internal = 0;
  for (int i = 0; i < num_guards; ++i) guards[i][1] = 0;  // abandoned half-way
  num_guards = 0;
  g[0] = g0; g[1] = g1;
  return !abandoned;
}

int ThreadId() { return cur; }
int NumThreadsCreated() { return num_threads - 1; }
int LiveThreads() {
  int n = 0;
  for (int t = 1; t < num_threads; ++t) if (th[t].op != kFinished) ++n;
  return n;
}
void Yield() {
  if (!On()) return;
  ++th[cur].ops;
  th[cur].op = kYieldOp;
  Schedule();
  th[cur].op = kRun;
}
Stats Current() { return {total_ops, preempted, num_threads, switches}; }
Untracked::Untracked() { ++th[cur].untracked; }
Untracked::~Untracked() { --th[cur].untracked; }

}  // namespace sched

// ---- allocation ----------------------------------------------------------
extern "C" {

static inline bool UseArena() { return active && internal == 0 && static_depth == 0; }

void* malloc(size_t n) {
  if (!UseArena()) return __libc_malloc(n);
  void* p = ArenaAlloc(n, 16);
  __real_memset(p, 0xFF, n);
  return p;
}
void free(void* p) {
  if (p == nullptr) return;
  if (InArena(p)) { FreeBlock(p, PC); return; }
  __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  if (!UseArena()) return __libc_calloc(a, b);
  void* p = ArenaAlloc(a * b, 16);
  __real_memset(p, 0, a * b);
  return p;
}
void* realloc(void* p, size_t n) {
  if (!InArena(p) && !UseArena()) return __libc_realloc(p, n);
  void* q = malloc(n);
  if (p) {
    size_t old = InArena(p) ? *reinterpret_cast<size_t*>(static_cast<char*>(p) - 8) : n;
    __real_memcpy(q, p, old < n ? old : n);
    free(p);
  }
  return q;
}
void* memalign(size_t al, size_t n) {
  if (!UseArena()) return __libc_memalign(al, n);
  void* p = ArenaAlloc(n, al);
  __real_memset(p, 0xFF, n);
  return p;
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) { *out = memalign(al, n); return 0; }

void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (Tracking()) { Touch(s, n, 0, PC); Touch(d, n, 1, PC); }
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (Tracking()) { Touch(s, n, 0, PC); Touch(d, n, 1, PC); }
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  if (Tracking()) Touch(d, n, 1, PC);
  return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
  if (Tracking()) { Touch(a, n, 0, PC); Touch(b, n, 0, PC); }
  return __real_memcmp(a, b, n);
}

// ---- threads -------------------------------------------------------------
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  if (!On()) { fprintf(stderr, "thread created outside Explore\n"); abort(); }
  Point();
  int i = Spawn(fn, arg);
  *t = static_cast<pthread_t>(i + 1);
  return 0;
}
int pthread_join(pthread_t t, void** r) {
  if (!On()) return 0;
  Point();
  const intptr_t i = static_cast<intptr_t>(t) - 1;
  if (i < 0 || i >= num_threads || th[i].detached) Fail("join of an unknown thread");
  if (i == cur) Fail("deadlock: thread %d joins itself", cur);
  while (th[i].op != kFinished) BlockOn(kJoin, reinterpret_cast<void*>(i));
  th[cur].vc.Join(th[i].vc);
  if (r) *r = nullptr;
  return 0;
}
int pthread_detach(pthread_t t) {
  if (!On()) return 0;
  th[static_cast<intptr_t>(t) - 1].detached = true;
  return 0;
}
pthread_t pthread_self(void) { return active ? static_cast<pthread_t>(cur + 1) : 1; }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sched_yield(void) { sched::Yield(); return 0; }
int nanosleep(const struct timespec*, struct timespec*) { sched::Yield(); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { sched::Yield(); return 0; }
int get_nprocs(void) { return opt.cpus; }

int pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (On() && GetMutex(m)->owner >= 0) Fail("mutex destroyed while held by thread %d", GetMutex(m)->owner);
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!On()) return 0;
  Touch(m, 1, 2, PC);  // locking freed or unpublished memory
  LockMutex(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!On()) return 0;
  Point();
  Mutex* x = GetMutex(m);
  if (x->owner >= 0) return EBUSY;
  x->owner = cur;
  th[cur].vc.Join(x->vc);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!On()) return 0;
  Touch(m, 1, 2, PC);
  UnlockMutex(m);
  return 0;
}
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
int pthread_cond_destroy(pthread_cond_t* c) {
  if (On())
    for (int t = 0; t < num_threads; ++t)
      if (th[t].op == kCond && th[t].obj == c && !th[t].signalled) Fail("condition destroyed while thread %d waits on it", t);
  return 0;
}
static int CondWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  Touch(c, 1, 2, PC);
  if (GetMutex(m)->owner != cur) Fail("condition wait without holding the mutex");
  ++th[cur].ops;
  bool now = false, timeout = false;
  {
    Internal in;
    if (timed) timeout = mc::Choose(2, "timeout") == 1;
    else if (spurious_left > 0 && mc::Choose(2, "spurious") == 1) { now = true; --spurious_left; }
    if (mc::Skipping()) Abandon();
  }
  UnlockMutex(m);
  th[cur].signalled = now || timeout;
  BlockOn(kCond, c);
  th[cur].signalled = false;
  while (GetMutex(m)->owner >= 0) BlockOn(kLock, m);
  Mutex* x = GetMutex(m);
  x->owner = cur;
  th[cur].vc.Join(x->vc);
  return timeout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!On()) { fprintf(stderr, "condition wait outside Explore\n"); abort(); }
  return CondWait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return CondWait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return CondWait(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c) {
  if (!On()) return 0;
  Touch(c, 1, 2, PC);
  Point();
  int w[kMaxThreads], n = 0;
  for (int i = 0; i < num_threads; ++i) {
    // With a policy the waiter is chosen by it, and any other costs a deviation.
    const int t = opt.policy == 1 ? (cur + 1 + i) % num_threads : opt.policy == 2 ? num_threads - 1 - i : i;
    if (th[t].op == kCond && th[t].obj == c && !th[t].signalled) w[n++] = t;
  }
  if (n == 0) return 0;
  if (opt.policy != 0 && preemptions_left == 0) n = 1;
  int k;
  {
    Internal in;
    k = n > 1 ? mc::Choose(n, "waiter") : 0;
    if (mc::Skipping()) Abandon();
    if (opt.policy != 0 && k > 0) --preemptions_left, ++preempted;
  }
  th[w[k]].signalled = true;
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!On()) return 0;
  Touch(c, 1, 2, PC);
  Point();
  for (int t = 0; t < num_threads; ++t)
    if (th[t].op == kCond && th[t].obj == c) th[t].signalled = true;
  return 0;
}

// ---- function-local statics -------------------------------------------------
int __cxa_guard_acquire(char* g) {
  // byte 0: initialised, byte 1: in progress
  if (!active || internal) {
    if (g[0]) return 0;
    g[1] = 1;
    return 1;
  }
  for (;;) {
    if (g[0]) {
      th[cur].vc.Join(*GetAtomic(g));
      return 0;
    }
    if (!g[1]) break;
    BlockOn(kGuard, g);
  }
  g[1] = 1;
  ++static_depth;
  if (num_guards < 16) guards[num_guards++] = g;
  return 1;
}
void __cxa_guard_release(char* g) {
  g[0] = 1;
  g[1] = 0;
  if (active && !internal) {
    if (static_depth > 0) --static_depth;
    for (int i = 0; i < num_guards; ++i)
      if (guards[i] == g) { guards[i] = guards[--num_guards]; break; }
    *GetAtomic(g) = th[cur].vc;
    Tick();
  }
}
void __cxa_guard_abort(char* g) {
  g[1] = 0;
  if (active && !internal && static_depth > 0) --static_depth;
}

// ---- plain accesses --------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACCESS(n)                                                        \
  void __tsan_read##n(void* p) { Touch(p, n, 0, PC); }                   \
  void __tsan_write##n(void* p) { Touch(p, n, 1, PC); }                  \
  void __tsan_unaligned_read##n(void* p) { Touch(p, n, 0, PC); }         \
  void __tsan_unaligned_write##n(void* p) { Touch(p, n, 1, PC); }        \
  void __tsan_volatile_read##n(void* p) { Touch(p, n, 0, PC); }          \
  void __tsan_volatile_write##n(void* p) { Touch(p, n, 1, PC); }         \
  void __tsan_read##n##_pc(void* p, void*) { Touch(p, n, 0, PC); }       \
  void __tsan_write##n##_pc(void* p, void*) { Touch(p, n, 1, PC); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
void __tsan_read_range(void* p, unsigned long n) { Touch(p, n, 0, PC); }
void __tsan_write_range(void* p, unsigned long n) { Touch(p, n, 1, PC); }
void __tsan_vptr_read(void** p) { Touch(p, 8, 0, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) Touch(p, 8, 1, PC); }

}  // extern "C"

// ---- atomics ----------------------------------------------------------------
namespace {
enum { relaxed, consume, acquire, release, acq_rel, seq_cst };
inline bool Acq(int m) { return m != relaxed && m != release; }
inline bool Rel(int m) { return m == release || m == acq_rel || m == seq_cst; }
inline void AtomicPoint(const volatile void* p, size_t n, bool w, uintptr_t pc) {
  if (!On()) return;
  if (opt.atomic_points) Point();
  Touch(const_cast<const void*>(p), n, w ? 3 : 2, pc);
}
template <typename T>
T Load(const volatile T* p, int mo, uintptr_t pc) {
  AtomicPoint(p, sizeof(T), false, pc);
  if (On() && Acq(mo)) th[cur].vc.Join(*GetAtomic(const_cast<const T*>(p)));
  return *p;
}
template <typename T>
void Store(volatile T* p, T v, int mo, uintptr_t pc) {
  AtomicPoint(p, sizeof(T), true, pc);
  if (On()) {
    VC* a = GetAtomic(const_cast<const T*>(p));
    if (Rel(mo)) { *a = th[cur].vc; Tick(); } else { a->Clear(); }
  }
  *p = v;
}
inline void RmwSync(const volatile void* p, int mo) {
  if (!On()) return;
  VC* a = GetAtomic(const_cast<const void*>(p));
  if (Acq(mo)) th[cur].vc.Join(*a);
  if (Rel(mo)) { a->Join(th[cur].vc); Tick(); }
}
template <typename T, typename F>
T Rmw(volatile T* p, int mo, uintptr_t pc, F f) {
  AtomicPoint(p, sizeof(T), true, pc);
  RmwSync(p, mo);
  T old = *p;
  *p = f(old);
  return old;
}
template <typename T>
bool Cas(volatile T* p, T* e, T d, int mo, int fmo, uintptr_t pc) {
  AtomicPoint(p, sizeof(T), true, pc);
  T old = *p;
  if (old == *e) { RmwSync(p, mo); *p = d; return true; }
  if (On() && Acq(fmo)) th[cur].vc.Join(*GetAtomic(const_cast<const T*>(p)));
  *e = old;
  return false;
}
}  // namespace

extern "C" {
#define ATOMIC(N, T)                                                                                         \
  T __tsan_atomic##N##_load(const volatile T* p, int mo) { return Load(p, mo, PC); }                          \
  void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { Store(p, v, mo, PC); }                          \
  T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { return Rmw(p, mo, PC, [v](T) { return v; }); }  \
  T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { return Rmw(p, mo, PC, [v](T o) { return (T)(o + v); }); } \
  T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { return Rmw(p, mo, PC, [v](T o) { return (T)(o - v); }); } \
  T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { return Rmw(p, mo, PC, [v](T o) { return (T)(o & v); }); } \
  T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { return Rmw(p, mo, PC, [v](T o) { return (T)(o | v); }); }  \
  T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { return Rmw(p, mo, PC, [v](T o) { return (T)(o ^ v); }); } \
  T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { return Rmw(p, mo, PC, [v](T o) { return (T)~(o & v); }); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int f) { return Cas(p, e, d, mo, f, PC); } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int f) { return Cas(p, e, d, mo, f, PC); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T d, int mo, int f) { Cas(p, &e, d, mo, f, PC); return e; }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (On()) Point(); }
void __tsan_atomic_signal_fence(int) {}
}

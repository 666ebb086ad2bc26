// Fibers, scheduler, memory model.
#include "rt.h"
#include <sys/mman.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
#include <stdlib.h>
#include <errno.h>
#include <dlfcn.h>

const char* fault_names[FK_N] = {"alloc", "dup", "fopen", "write", "fclose", "unlink", "decode", "squat", "atexit", "mkdir", "osread", "chdir", "close"};
const char* strat_names[] = {"serial", "random", "sync", "pct", "conflict", "stall"};

SimConf CONF; Violation VIOL; Stats STATS;
std::vector<Fault> FAULTS; std::vector<Switch> SWITCHES; bool REPLAYING = false;
bool COLLECT = false; std::map<int, std::vector<int>> OPCOUNTS; std::map<int, u64> OPSTEPS; std::map<uptr, std::vector<std::pair<int, int>>> ALLOCSITES;   // fault points, steps and allocations (by call site) of the collecting run
int CRASH_OP = -1; u64 CRASH_STEP = 0; bool CRASHED = false;
u64 EVHASH = 0, SCHEDHASH = 0, SEQ = 0;
std::unordered_map<u64, u32> COVER;
bool TRACE = false;

// ---- address map ---------------------------------------------------------------------------------------------------
static const uptr SHOFF = 0x200000000000ull;
static const uptr ARENA = 0x100000000000ull, ARENA_SZ = 1ull << 30;
static const uptr IMG = 0x108000000000ull, IMG_SLOT = 6ull << 30; static const int IMG_N = 6;
static const uptr STK = 0x110000000000ull, STK_STRIDE = 2ull << 20, STK_SZ = 1ull << 20; static const int MAXT = 16;
static inline u8* sh(uptr a) { return (u8*)((a >> 3) + SHOFF); }

extern "C" char __executable_start, _end;
extern "C" { __attribute__((weak)) extern char __start_libdata[], __stop_libdata[], __start_libbss[], __stop_libbss[]; }
static uptr exe_lo, exe_hi;

static bool shadow_ready = false;
static void map_shadow(uptr lo, uptr hi) {
  uptr a = ((lo >> 3) + SHOFF) & ~4095ull, b = (((hi + 7) >> 3) + SHOFF + 4095) & ~4095ull;
  void* p = mmap((void*)a, b - a, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
  if (p != (void*)a) { perror("mmap shadow"); _exit(3); }
}
static void early_init() {
  if (shadow_ready) return;
  shadow_ready = true;
  exe_lo = (uptr)&__executable_start & ~7ull; exe_hi = ((uptr)&_end + 7) & ~7ull;
  map_shadow(exe_lo, exe_hi);
  map_shadow(ARENA, ARENA + ARENA_SZ); map_shadow(STK, STK + STK_STRIDE * MAXT);
  auto mm = [](uptr a, uptr n, int prot) { if (mmap((void*)a, n, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) != (void*)a) { perror("mmap"); _exit(3); } };
  mm(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE);
  mm(IMG, IMG_SLOT * IMG_N, PROT_READ | PROT_WRITE);
  for (int i = 0; i < MAXT; i++) mm(STK + i * STK_STRIDE, STK_SZ, PROT_READ | PROT_WRITE);
}

// ---- fibers --------------------------------------------------------------------------------------------------------
asm(R"(
.text
.globl ctx_switch
.type ctx_switch,@function
ctx_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.globl ctx_load
ctx_load:
  movq %rdi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
extern "C" void ctx_switch(void** save, void* load);
extern "C" [[noreturn]] void ctx_load(void* load);

enum FState { F_READY, F_BLOCKED, F_DONE };
struct Fiber {
  int tid = 0; void* sp = nullptr; FState st = F_DONE; uptr waiting = 0; int err = 0;
  const std::function<void()>* body = nullptr; OpCtx op; int prio = 0; uptr minsp = 0;
  std::map<void*, std::vector<u8>*> tls; int held = 0; std::vector<Switch>* rep = nullptr; size_t repi = 0;
  bool want_yield = false; u64 parked = 0;   // stalled until this step of the segment
};
static Fiber fibers[MAXT];
static int nfib = 0;
static Fiber* cur = nullptr;
static void* main_sp = nullptr;
static int main_errno = 0;
static u64 gstep = 0, gnext = ~0ull, last_switch = 0;
static u64 rnd_next = ~0ull; static std::vector<u64> pct_pts; static size_t pct_i = 0; static int pct_low = 0;
static Rng srng(1);
static std::unordered_map<int, std::vector<Switch>> REP;
static const u64 OP_BUDGET = 40000000ull;
static inline u64 fair() { return CONF.strategy == ST_STALL ? 6000000ull : 400000ull; }
static int stalls_left = 0, rnd_stalls = 0;

int rt_tid() { return cur ? cur->tid : -1; }
int rt_nthreads() { return nfib; }
static OpCtx main_op;
OpCtx& rt_op() { return cur ? cur->op : main_op; }
int& rt_errno() { return cur ? cur->err : main_errno; }
bool rt_in_fiber() { return cur != nullptr; }
void rt_event(u64 v) { if (TRACE) { static bool on = getenv("EVLOG"); if (on) printf("ev %lx op %d steps %lu\n", (unsigned long)v, cur ? cur->op.id : -1, cur ? (unsigned long)cur->op.steps : 0ul); } EVHASH = hmix(EVHASH, v); SEQ++; }

static void recompute() {
  u64 n = gstep + OP_BUDGET - std::min<u64>(OP_BUDGET, cur->op.steps);
  if (nfib > 1) {
    n = std::min(n, last_switch + fair());
    if (REPLAYING) {
      if (cur->rep) { while (cur->repi < cur->rep->size() && (*cur->rep)[cur->repi].step <= cur->op.steps) cur->repi++;
        if (cur->repi < cur->rep->size()) n = std::min(n, gstep + ((*cur->rep)[cur->repi].step - cur->op.steps)); }
    } else {
      if (rnd_next < n) n = rnd_next;
      if (pct_i < pct_pts.size()) n = std::min(n, pct_pts[pct_i]);
    }
  }
  if (CRASH_OP >= 0 && cur->op.id == CRASH_OP && cur->op.steps < CRASH_STEP) n = std::min(n, gstep + (CRASH_STEP - cur->op.steps));
  gnext = n > gstep ? n : gstep + 1;
}
static void draw_random_gap() {
  if (CONF.strategy == ST_STALL && !REPLAYING) rnd_next = rnd_stalls-- > 0 ? gstep + 1 + srng.below(CONF.pct_len * 16) : ~0ull;
  else if (CONF.strategy == ST_RANDOM && CONF.p > 0 && !REPLAYING) {
    double u = srng.unit(); if (u < 1e-12) u = 1e-12;
    // geometric gap with mean 1/p
    double g = 1.0; { double l = __builtin_log(u) / __builtin_log(1.0 - CONF.p); g += l; }
    rnd_next = gstep + (u64)g;
  } else rnd_next = ~0ull;
}

static void fiber_entry();
static void goto_fiber(Fiber* t) {
  if (t == cur) return;
  Fiber* f = cur; cur = t; last_switch = gstep; STATS.switches++;
  recompute();
  if (f && f->st != F_DONE) ctx_switch(&f->sp, t->sp);
  else { void* dummy; ctx_switch(&dummy, t->sp); }
}
[[noreturn]] static void goto_main() { cur = nullptr; ctx_load(main_sp); }

static void record_switch(int op, u64 step, int to) {
  if (!REPLAYING) SWITCHES.push_back({op, step, to});
  SCHEDHASH = hmix(hmix(hmix(SCHEDHASH, (u64)op), step), (u64)to);
}
static int pick_runnable(int except) {  // strategy's choice among the others
  int c[MAXT], n = 0;
  for (int i = 0; i < nfib; i++) if (i != except && fibers[i].st == F_READY) c[n++] = i;
  if (!n) return -1;
  if (CONF.strategy == ST_STALL) { int m = 0, d[MAXT]; for (int i = 0; i < n; i++) if (fibers[c[i]].parked <= gstep) d[m++] = c[i]; if (m) return d[srng.below(m)]; if (except >= 0) return -1; }
  if (CONF.strategy == ST_PCT) { int b = c[0]; for (int i = 1; i < n; i++) if (fibers[c[i]].prio > fibers[b].prio) b = c[i]; return b; }
  return c[srng.below(n)];
}
static void voluntary(int to) {
  record_switch(cur->op.id, cur->op.steps, to);
  goto_fiber(&fibers[to]);
}
// The running fiber cannot go on (blocked or finished): choose another one.
static int nsegs = 0;   // segments of this run so far
static void forced(int opkey, u64 step) {
  int def = -1; for (int i = 0; i < nfib; i++) if (fibers[i].st == F_READY) { def = i; break; }
  if (def < 0) {
    bool any = false; std::string who;
    for (int i = 0; i < nfib; i++) if (fibers[i].st == F_BLOCKED) { any = true; char b[96]; snprintf(b, sizeof b, " thread %d waits for a lock in %s;", i, fibers[i].op.name); who += b; }
    if (any) { cur->st = F_READY; rt_fail("deadlock", "no thread can proceed:" + who); }
    goto_main();
  }
  int to = def;
  if (REPLAYING) {
    auto it = REP.find(opkey);
    if (it != REP.end()) for (auto& s : it->second) if (s.step == step && s.to < nfib && fibers[s.to].st == F_READY) { to = s.to; break; }
    if (to != def) SCHEDHASH = hmix(hmix(hmix(SCHEDHASH, (u64)opkey), step), (u64)to);
  } else if (CONF.strategy != ST_SERIAL) {
    int p = pick_runnable(-1);
    if (p >= 0) to = p;
    if (to != def) record_switch(opkey, step, to);
  }
  goto_fiber(&fibers[to]);
}

static int stall();
__attribute__((noinline)) static void slow_step() {
  Fiber* f = cur;
  if (f->op.steps >= OP_BUDGET) rt_fail("no-progress", std::string(f->op.name) + " did not return within " + std::to_string(OP_BUDGET) + " steps");
  if (CRASH_OP >= 0 && f->op.id == CRASH_OP && f->op.steps >= CRASH_STEP) { CRASHED = true; STATS.crashes++; goto_main(); }
  if (nfib > 1) {
    int to = -1;
    if (REPLAYING) {
      if (f->rep && f->repi < f->rep->size() && (*f->rep)[f->repi].step == f->op.steps) { int t = (*f->rep)[f->repi].to; f->repi++; if (t >= 0 && t < nfib && t != f->tid && fibers[t].st == F_READY) to = t; }
    } else {
      if (gstep >= rnd_next) { to = CONF.strategy == ST_STALL ? stall() : pick_runnable(f->tid); draw_random_gap(); }
      if (pct_i < pct_pts.size() && gstep >= pct_pts[pct_i]) { pct_i++; f->prio = --pct_low; int b = f->tid; for (int i = 0; i < nfib; i++) if (fibers[i].st == F_READY && fibers[i].prio > fibers[b].prio) b = i; if (b != f->tid) to = b; }
    }
    if (to < 0 && gstep >= last_switch + fair()) {  // nobody may be starved for ever
      for (int k = 1; k < nfib && to < 0; k++) { int i = (f->tid + k) % nfib; if (fibers[i].st == F_READY) to = i; }
      if (to < 0) last_switch = gstep;
      else { SCHEDHASH = hmix(SCHEDHASH, 77); goto_fiber(&fibers[to]); recompute(); return; }  // same rule in replay: not recorded
    }
    if (to >= 0) voluntary(to);
  }
  recompute();
}
// A stalled thread: it stops here and the others go on without it for a while, or until they cannot.
static int stall() {
  static const u64 len[] = {1000, 30000, 500000, ~0ull >> 1, ~0ull >> 1}; int to = pick_runnable(cur->tid);
  if (to < 0) return -1;
  cur->parked = gstep + len[srng.below(5)]; return to;
}
static inline void step() {
  cur->op.steps++; gstep++;
  if (__builtin_expect(gstep >= gnext, 0)) slow_step();
}
// A possible switch between two accesses of one step: it counts as a step of its own, so that every recorded switch has its own (op, step).
static void coin_switch(double p) {
  if (nfib < 2 || p <= 0) return;
  cur->op.steps++; gstep++;
  int to = -1;
  if (REPLAYING) {
    if (cur->rep) { auto& r = *cur->rep; while (cur->repi < r.size() && r[cur->repi].step < cur->op.steps) cur->repi++; if (cur->repi < r.size() && r[cur->repi].step == cur->op.steps) { int t = r[cur->repi++].to; if (t >= 0 && t < nfib && t != cur->tid && fibers[t].st == F_READY) to = t; } }
  } else if (CONF.strategy == ST_STALL) { if (stalls_left > 0 && srng.chance(p)) { to = stall(); if (to >= 0) stalls_left--; } }
  else if (srng.chance(p)) to = pick_runnable(cur->tid);
  if (to >= 0) { voluntary(to); recompute(); }
}
static std::unordered_map<uptr, u32> site_visits;
void rt_sync_point(void* pc) {
  if (!cur) return;
  step();
  if (CONF.strategy == ST_SYNC) coin_switch(CONF.p);
  else if (CONF.strategy == ST_STALL && nfib > 1) { u32 n = ++site_visits[(uptr)pc]; coin_switch(n <= 4 ? CONF.p : CONF.p * 16 / ((double)n * n)); }   // every place of the code gets its share, however often the others are passed
}
void rt_yield() {
  if (!cur) return;
  step();
  if (nfib > 1) for (int k = 1; k < nfib; k++) { int i = (cur->tid + k) % nfib; if (fibers[i].st == F_READY) { goto_fiber(&fibers[i]); recompute(); break; } }
}

static void fiber_entry() {
  Fiber* f = cur;
  (*f->body)();
  f->st = F_DONE;
  bool more = false; for (int i = 0; i < nfib; i++) if (fibers[i].st != F_DONE) more = true;
  if (!more) goto_main();
  forced(-(100 + f->tid) - 1000 * nsegs, 0);
  abort();
}

static void make_fiber(int i, const std::function<void()>* b) {
  Fiber& f = fibers[i];
  uptr lo = STK + i * STK_STRIDE, hi = lo + STK_SZ;
  if (f.minsp) { uptr a = f.minsp - 131072 > lo ? (f.minsp - 131072) & ~63ull : lo; memset((void*)a, 0xA5, hi - a); memset(sh(a), 0, (hi - a) >> 3); }
  else if (!f.minsp) { memset((void*)lo, 0xA5, STK_SZ); }
  f.minsp = hi;
  for (auto& t : f.tls) delete t.second;
  f.tls.clear();
  f.tid = i; f.st = F_READY; f.waiting = 0; f.err = 0; f.body = b; f.op = OpCtx(); f.held = 0; f.parked = 0; f.rep = nullptr; f.repi = 0;
  memset(f.op.counts, 0, sizeof f.op.counts); memset(f.op.firedk, 0, sizeof f.op.firedk);
  u64* s = (u64*)(hi - 64);
  *--s = 0;                                   // alignment: at entry rsp % 16 == 8
  *--s = (u64)(uptr)&fiber_entry;
  for (int k = 0; k < 6; k++) *--s = 0;
  f.sp = s;
}

bool rt_run_threads(const std::vector<std::function<void()>>& bodies) {
  nfib = (int)bodies.size(); nsegs++;
  if (nfib > MAXT) abort();
  for (int i = 0; i < nfib; i++) make_fiber(i, &bodies[i]);
  REP.clear();
  if (REPLAYING) { for (auto& s : SWITCHES) REP[s.op].push_back(s); for (auto& r : REP) std::stable_sort(r.second.begin(), r.second.end(), [](const Switch& a, const Switch& b) { return a.step < b.step; }); }
  gstep = 0; last_switch = 0; pct_pts.clear(); pct_i = 0; pct_low = 0; rnd_next = ~0ull;
  if (nfib > 1) {
    if (CONF.strategy == ST_PCT && !REPLAYING) {
      std::vector<int> pr; for (int i = 0; i < nfib; i++) pr.push_back(1 + i);
      for (int i = nfib - 1; i > 0; i--) std::swap(pr[i], pr[srng.below(i + 1)]);
      for (int i = 0; i < nfib; i++) fibers[i].prio = pr[i];
      for (int i = 0; i < CONF.pct_depth; i++) pct_pts.push_back(1 + srng.below(CONF.pct_len ? CONF.pct_len : 1000));
      std::sort(pct_pts.begin(), pct_pts.end());
    }
    stalls_left = CONF.pct_depth; rnd_stalls = srng.below(3); site_visits.clear(); draw_random_gap();
  }
  // entry: the first thread to run is a decision as well (keys -99, -1099, ... for the segments)
  int to = 0;
  if (nfib > 1) {
    int key = -99 - 1000 * nsegs;
    if (REPLAYING) { auto it = REP.find(key); if (it != REP.end() && it->second[0].to < nfib) to = it->second[0].to; }
    else if (CONF.strategy != ST_SERIAL) { to = pick_runnable(-1); if (to) record_switch(key, 0, to); }
  }
  static Fiber* start; start = &fibers[to];
  cur = start; gnext = gstep + 1;
  recompute();
  ctx_switch(&main_sp, start->sp);
  cur = nullptr;
  return !VIOL.set && !CRASHED;
}

__attribute__((noinline)) void rt_scrub() { char b[32768]; memset(b, CONF.fill, sizeof b); asm volatile("" ::"r"(b) : "memory"); }
void rt_begin_op(int id, int kind, const char* name) {
  OpCtx& o = cur->op;
  o.id = id; o.kind = kind; o.name = name; o.steps = 0; o.seq0 = SEQ; o.fired = 0; o.natural = 0; o.passthrough = false; o.oscalls.clear(); o.allow.clear();
  memset(o.counts, 0, sizeof o.counts); memset(o.firedk, 0, sizeof o.firedk);
  cur->rep = nullptr; cur->repi = 0;
  if (REPLAYING) { auto it = REP.find(id); if (it != REP.end()) cur->rep = &it->second; }
  STATS.ops++;
  // scheduling decision before the operation starts (step 0)
  if (nfib > 1) {
    if (REPLAYING) {
      if (cur->rep) for (auto& s : *cur->rep) if (s.step == 0) { if (s.to < nfib && s.to != cur->tid && fibers[s.to].st == F_READY) { SCHEDHASH = hmix(hmix(SCHEDHASH, (u64)id), (u64)s.to); goto_fiber(&fibers[s.to]); } break; }
    } else if (CONF.strategy != ST_SERIAL && CONF.strategy != ST_PCT && srng.chance(0.3)) {
      int to = pick_runnable(cur->tid);
      if (to >= 0) { SCHEDHASH = hmix(hmix(SCHEDHASH, (u64)id), (u64)to); SWITCHES.push_back({id, 0, to}); goto_fiber(&fibers[to]); }
    }
  }
  rt_event(0x1000 + (u64)id);
  recompute();
}
void rt_begin_special(int id, const char* name) { rt_begin_op(id, 0, name); }
void rt_end_op() {
  STATS.steps += cur->op.steps;
  if (cur->held) rt_fail("lock-held", std::string(cur->op.name) + " returned while still holding a lock");
  if (COLLECT) { OPCOUNTS[cur->op.id] = std::vector<int>(cur->op.counts, cur->op.counts + FK_N); OPSTEPS[cur->op.id] = cur->op.steps; }
}

bool rt_fault(int kind, int* arg) {
  if (!cur) return false;
  OpCtx& o = cur->op;
  int n = o.counts[kind]++;
  for (auto& f : FAULTS) if (f.op == o.id && f.kind == kind && (f.nth == n || (f.sticky && n > f.nth))) {
    o.fired++; o.firedk[kind]++; STATS.faults[kind]++; if (arg) *arg = f.arg; rt_event(0x2000 + kind);
    return true;
  }
  return false;
}
void rt_natural() { if (cur) cur->op.natural++; STATS.natural++; }

// ---- violations ----------------------------------------------------------------------------------------------------
static void set_viol(const std::string& cls, const std::string& msg, void* pc, int op, int kind) {
  if (VIOL.set) return;
  VIOL.set = true; VIOL.cls = cls; VIOL.msg = msg; VIOL.op = op; VIOL.kind = kind; VIOL.thread = cur ? cur->tid : -1;
  if (pc) VIOL.pcs.push_back((uptr)pc);
}
void rt_fail(const std::string& cls, const std::string& msg, void* pc) {
  set_viol(cls, msg, pc, cur ? cur->op.id : -1, cur ? cur->op.kind : 0);
  if (!cur) { fprintf(stderr, "internal: rt_fail outside a fiber: %s %s\n", cls.c_str(), msg.c_str()); _exit(3); }
  goto_main();
}
void rt_note(const std::string& cls, const std::string& msg, int op, int kind) { set_viol(cls, msg, nullptr, op, kind); }

static char altstk[65536];
static void on_signal(int sig, siginfo_t* si, void* uc) {
  if (!cur) { fprintf(stderr, "internal: signal %d outside simulation at %p\n", sig, si->si_addr); fflush(stderr); signal(sig, SIG_DFL); raise(sig); return; }
  uptr a = (uptr)si->si_addr;
  uptr lo = STK + cur->tid * STK_STRIDE;
  char b[160];
  void* pc = (void*)((uptr*)uc ? ((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP] : 0);
  uptr pcs = (uptr)pc;
  if (sig == SIGALRM || sig == SIGVTALRM) { rt_fail("no-progress", std::string(cur->op.name) + " runs without end"); }
  if (pcs < exe_lo || pcs >= exe_hi) pc = nullptr;
  if (a < lo && a >= lo - (STK_STRIDE - STK_SZ)) rt_fail("stack-overflow", std::string(cur->op.name) + ": unbounded recursion, the thread's stack of 1 MiB is used up", pc);
  if (sig == SIGSEGV || sig == SIGBUS) {
    if (a < 65536) snprintf(b, sizeof b, "%s: null pointer access", cur->op.name);
    else snprintf(b, sizeof b, "%s: access to an invalid address", cur->op.name);
    rt_fail(a < 65536 ? "mem-null" : "mem-wild", b, pc);
  }
  snprintf(b, sizeof b, "%s: signal %d", cur->op.name, sig);
  rt_fail("crash", b, pc);
}

// ---- heap ----------------------------------------------------------------------------------------------------------
struct Blk { uptr a; u32 size; u32 cap; int op; uptr pc; u8 state; u8 owner; };  // state 1 live 2 freed; owner 0 lib 1 user
static std::vector<Blk> blks; static uptr brk_ = ARENA;
static std::unordered_map<u32, std::vector<u32>> freel;   // reuse mode: capacity -> block indexes
static size_t live_lib = 0;
static uptr poisoned_hi = ARENA;
static void need_poison(uptr upto) { while (poisoned_hi < upto + 65536) { memset(sh(poisoned_hi), 0xfa, (4u << 20) >> 3); poisoned_hi += 4u << 20; if (poisoned_hi >= ARENA + ARENA_SZ) break; } }

static Blk* find_blk(uptr a) {  // block containing or nearest before a
  if (blks.empty() || a < ARENA || a >= brk_) return nullptr;
  size_t lo = 0, hi = blks.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (blks[m].a <= a) lo = m + 1; else hi = m; }
  return lo ? &blks[lo - 1] : nullptr;
}
static void unpoison(uptr a, size_t n) { memset(sh(a), 0, n >> 3); if (n & 7) *sh(a + n) = (u8)(n & 7); }
static uptr heap_alloc(size_t n, int owner, void* pc) {
  u32 cap = (u32)((n + 15) & ~15ull); if (!cap) cap = 16;
  if (CONF.reuse && owner == 0) {
    auto it = freel.find(cap);
    if (it != freel.end() && !it->second.empty()) {
      u32 i = it->second.back(); it->second.pop_back();
      Blk& b = blks[i]; b.size = (u32)n; b.state = 1; b.owner = owner; b.op = cur ? cur->op.id : -1; b.pc = (uptr)pc;
      memset(sh(b.a), 0xfa, cap >> 3); unpoison(b.a, n); memset((void*)b.a, CONF.fill, n); live_lib++;
      return b.a;
    }
  }
  uptr a = brk_ + 32;
  if (a + cap + 64 >= ARENA + ARENA_SZ) { if (cur) rt_fail("mem-growth", "more than 1 GiB allocated in one run"); abort(); }
  brk_ = a + cap; need_poison(brk_ + 64);
  blks.push_back({a, (u32)n, cap, cur ? cur->op.id : -1, (uptr)pc, 1, (u8)owner});
  unpoison(a, n);
  if (owner == 0) { memset((void*)a, CONF.fill, n); live_lib++; }
  return a;
}
void* lib_malloc(size_t n, void* pc) {
  if (cur) { rt_sync_point(pc); STATS.allocs++; }
  if (n > (1ull << 28)) { rt_errno() = ENOMEM; rt_natural(); return nullptr; }
  if (cur && COLLECT) ALLOCSITES[(uptr)pc].push_back({cur->op.id, cur->op.counts[FK_ALLOC]});
  if (cur && rt_fault(FK_ALLOC, nullptr)) { rt_errno() = ENOMEM; return nullptr; }
  return (void*)heap_alloc(n, 0, pc);
}
static void note_access(uptr a, bool w, void* pc);
void lib_free(void* p, void* pc) {
  if (!p) return;
  if (cur) rt_sync_point(pc);
  uptr a = (uptr)p;
  Blk* b = find_blk(a);
  char m[200];
  if (cur && nfib > 1 && b && b->a == a) { u32 n = std::min<u32>(b->size, 64); for (u32 i = 0; i < n; i += 8) note_access(a + i, true, pc); b = find_blk(a); }   // may switch: other threads allocate and free meanwhile
  if (!b || b->a != a) { snprintf(m, sizeof m, "free() of something that is not the start of an allocation (%s)", addr_desc(a).c_str()); if (cur) rt_fail("bad-free", m, pc); return; }
  if (b->state == 2) { snprintf(m, sizeof m, "block allocated in operation %d freed twice", b->op); if (cur) rt_fail("double-free", m, pc); return; }
  if (b->owner == 1 && cur) { snprintf(m, sizeof m, "the library freed memory of its caller"); rt_fail("bad-free", m, pc); }
  b->state = 2; STATS.frees++;
  if (b->owner == 0) live_lib--;
  memset(sh(a), 0xfd, b->cap >> 3);
  if (CONF.reuse && b->owner == 0) freel[b->cap].push_back((u32)(b - &blks[0]));
}
size_t rt_live_lib_blocks() { return live_lib; }
bool lib_block(uptr p, size_t* size, bool* live) {
  Blk* b = find_blk(p); if (!b || b->a != p) return false;
  if (size) *size = b->size; if (live) *live = b->state == 1; return b->owner == 0;
}
u8* user_alloc(size_t n) { return (u8*)heap_alloc(n, 1, nullptr); }
void user_free(void* p) { if (!p) return; Blk* b = find_blk((uptr)p); if (b && b->a == (uptr)p && b->state == 1) { b->state = 2; memset(sh(b->a), 0xfd, b->cap >> 3); } }
char* user_str(const std::string& s) { char* p = (char*)user_alloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }

static inline int region(uptr a) {  // 1 shadowed, 0 unknown, -1 null page
  if (a - ARENA < ARENA_SZ || a - IMG < IMG_SLOT * IMG_N || a - exe_lo < exe_hi - exe_lo) return 1;
  if (a - STK < STK_STRIDE * MAXT) return 1;
  return a < 65536 ? -1 : 0;
}
// an image lies in one or two pieces: a gap keeps large offsets affordable
struct ImgR { uptr a = 0, b = 0; size_t na = 0, nb = 0; }; static ImgR img_r[IMG_N];
static bool img_ok(uptr a, size_t n) { const ImgR& r = img_r[(a - IMG) / IMG_SLOT]; return (a - r.a < r.na && n <= r.na - (a - r.a)) || (a - r.b < r.nb && n <= r.nb - (a - r.b)); }
static inline bool sh_ok(uptr a, size_t n) {
  if (__builtin_expect(a - IMG < IMG_SLOT * IMG_N, 0)) return img_ok(a, n);
  if (n <= 8) {
    signed char s = *(signed char*)sh(a);
    if ((a & 7) + n <= 8) return s == 0 || (s > 0 && (i64)((a & 7) + n) <= s);
    if (s) return false;
    signed char t = *(signed char*)sh(a + n - 1);
    return t == 0 || (t > 0 && (i64)((a + n - 1) & 7) < t);
  }
  uptr e = a + n; uptr p = a;
  // all complete granules must be 0, the last may be partial
  u8* s = sh(p); u8* l = sh(e - 1);
  while (s < l) { if (*s) return false; s++; }
  signed char t = *(signed char*)l; (void)0;
  return t == 0 || (t > 0 && (i64)((e - 1) & 7) < t);
}
bool mem_ok(uptr a, size_t n) {
  if (!n) return true;
  int r = region(a); if (r < 0) return false; if (!r) return true;
  if (region(a + n - 1) != 1) return false;
  return sh_ok(a, n);
}
std::string addr_desc(uptr a) {
  char b[256];
  if (a < 65536) return "null pointer";
  if (a - ARENA < ARENA_SZ) {
    Blk* k = find_blk(a);
    if (!k) return "unallocated heap memory";
    // an address in the left redzone of the next block belongs to whichever is nearer
    const char* own = k->owner ? "caller's buffer" : "library block";
    long off = (long)(a - k->a);
    if (k->state == 2) snprintf(b, sizeof b, "offset %ld of a freed %s of %u bytes (allocated in operation %d)", off, own, k->size, k->op);
    else snprintf(b, sizeof b, "offset %ld of a %s of %u bytes (allocated in operation %d)", off, own, k->size, k->op);
    return b;
  }
  if (a - IMG < IMG_SLOT * IMG_N) { snprintf(b, sizeof b, "outside the mounted image's bytes"); return b; }
  if (a - STK < STK_STRIDE * MAXT) { snprintf(b, sizeof b, "a local variable's surroundings on a thread stack"); return b; }
  if (a - exe_lo < exe_hi - exe_lo) return "surroundings of a global variable";
  return "an address outside all known objects";
}
static void bad_access(uptr a, size_t n, bool w, void* pc) {
  std::string cls = "mem-oob"; 
  if (region(a) < 0) cls = "mem-null";
  else if (a - ARENA < ARENA_SZ) { Blk* k = find_blk(a); Blk* k2 = find_blk(a + n - 1); if (k && k->state == 2 && a < k->a + k->cap) cls = "mem-uaf"; else if (k && k->owner == 1 && k2 == k && w) cls = "buffer-overrun"; else if (k && k->owner == 1) cls = w ? "buffer-overrun" : "mem-oob"; }
  char b[512]; snprintf(b, sizeof b, "%s: %s of %zu bytes at %s", cur ? cur->op.name : "?", w ? "write" : "read", n, addr_desc(a).c_str());
  rt_fail(cls, b, pc);
}
// Conflicting accesses of different threads: who touched an 8-byte granule last.
struct Acc { uptr a; uptr pc; u32 gen; u8 tid; u8 w; };
static Acc acc[1 << 16]; static u32 accgen = 1;
static void note_access(uptr a, bool w, void* pc) {
  uptr g = a >> 3;
  Acc& e = acc[(g * 0x9E3779B97F4A7C15ull) >> 48];
  if (e.gen == accgen && e.a == g && e.tid != cur->tid && (e.w || w)) {
    STATS.conflicts++;
    u64 k = hmix(hmix(0x77, e.pc - exe_lo), (uptr)pc - exe_lo) ^ (e.w ? 1 : 0) ^ (w ? 2 : 0);
    bool isnew = false;
    if (!REPLAYING || true) { auto r = COVER.try_emplace(k, 0); r.first->second++; isnew = r.second; }
    (void)isnew;
    e.tid = cur->tid; e.w = w; e.pc = (uptr)pc;
    if (CONF.strategy == ST_CONFLICT) coin_switch(CONF.p);
    return;
  }
  if (e.gen == accgen && e.a == g) { if (w && !e.w) { e.w = 1; e.pc = (uptr)pc; } }
  else { e.gen = accgen; e.a = g; e.tid = cur->tid; e.w = w; e.pc = (uptr)pc; }
}
std::vector<std::pair<uptr, uptr>> RT_RO;
static void ro_check(uptr a, size_t n, void* pc) { for (auto& r : RT_RO) if (a < r.second && a + n > r.first) rt_fail("arg-write", std::string(cur->op.name) + ": write into a string that the caller passed as const", pc); }
static inline void access_(uptr a, size_t n, bool w, void* pc) {
  if (!cur) return;
  int r = region(a);
  if (__builtin_expect(TRACE, 0)) { static bool on = getenv("STEPLOG"); if (on) printf("  acc op %d pc %lx %s a %lx n %zu\n", cur->op.id, (unsigned long)pc, w ? "w" : "r", (unsigned long)a, n); }
  if (r == 1 && a - STK < STK_STRIDE * MAXT) {      // stacks are not shared: no scheduling point, but counted
    uptr sp = (uptr)__builtin_frame_address(0); if (sp < cur->minsp) cur->minsp = sp;
    step();
    if (!sh_ok(a, n)) bad_access(a, n, w, pc);
    return;
  }
  step();
  if (nfib > 1 && r == 1 && !(a - IMG < IMG_SLOT * IMG_N)) {
    note_access(a, w, pc);
    if (n > 8) for (size_t i = 64; i < n && i < 512; i += 64) note_access(a + i, w, pc);
  }
  if (r == 1) {
    if (!sh_ok(a, n)) bad_access(a, n, w, pc);
    if (w && !RT_RO.empty()) ro_check(a, n, pc);
    if (w && a - IMG < IMG_SLOT * IMG_N) rt_fail("image-write", std::string(cur->op.name) + ": write into the image's memory", pc);
  } else if (r < 0) bad_access(a, n, w, pc);
}
void rt_check(uptr a, size_t n, bool w, void* pc) { if (n) access_(a, n, w, pc); }
void rt_check_quiet(uptr a, size_t n, bool w, void* pc) {
  if (!n || !cur) return;
  int r = region(a);
  if (r < 0 || (r == 1 && !sh_ok(a, n))) bad_access(a, n, w, pc);
  if (w && a - IMG < IMG_SLOT * IMG_N) rt_fail("image-write", std::string(cur->op.name) + ": write into the image's memory", pc);
}
std::string rt_cstr(const char* s, void* pc) {
  std::string r; uptr a = (uptr)s;
  if (region(a) == 0) return std::string(s);
  rt_check(a, 1, false, pc);
  bool img = a - IMG < IMG_SLOT * IMG_N;
  for (;; a++) { if (img || (a & 7) == 0 || a == (uptr)s) rt_check_quiet(a, 1, false, pc); else { signed char t = *(signed char*)sh(a); if (t && (t < 0 || (i64)(a & 7) >= t)) rt_check_quiet(a, 1, false, pc); } if (!*(char*)a) break; r += *(char*)a; }
  if (r.size() > 64) for (size_t i = 0; i < r.size() / 64; i++) step();
  return r;
}

std::vector<LeakInfo> rt_unreachable(const std::vector<std::pair<uptr, size_t>>& roots) {
  std::vector<u8> mark(blks.size(), 0); std::vector<u32> q;
  auto scan = [&](uptr a, size_t n) {
    uptr e = a + n; a = (a + 7) & ~7ull;
    for (; a + 8 <= e; a += 8) { uptr v = *(uptr*)a; if (v - ARENA < ARENA_SZ) { Blk* b = find_blk(v); if (b && v < b->a + std::max<u32>(b->size, 1)) { u32 i = (u32)(b - &blks[0]); if (!mark[i] && b->state == 1 && b->owner == 0) { mark[i] = 1; q.push_back(i); } } } }
  };
  if (__start_libdata) scan((uptr)__start_libdata, __stop_libdata - __start_libdata);
  if (__start_libbss) scan((uptr)__start_libbss, __stop_libbss - __start_libbss);
  for (int i = 0; i < MAXT; i++) for (auto& t : fibers[i].tls) scan((uptr)t.second->data(), t.second->size());
  for (auto& r : roots) scan(r.first, r.second);
  while (!q.empty()) { u32 i = q.back(); q.pop_back(); scan(blks[i].a, blks[i].size); }
  std::vector<LeakInfo> out;
  for (size_t i = 0; i < blks.size(); i++) if (blks[i].owner == 0 && blks[i].state == 1 && !mark[i]) out.push_back({blks[i].a, blks[i].size, blks[i].op, blks[i].pc});
  return out;
}

// ---- locks ---------------------------------------------------------------------------------------------------------
struct Mtx { int state = 0; int owner = -1; int depth = 0; bool rec = false; int readers = 0; };  // state 0 never seen 1 ready 2 destroyed
static std::unordered_map<uptr, Mtx> mtx;
static std::unordered_map<uptr, bool> recattr;
static bool in_lib_static(uptr a) { return (__start_libdata && a >= (uptr)__start_libdata && a < (uptr)__stop_libdata) || (__start_libbss && a >= (uptr)__start_libbss && a < (uptr)__stop_libbss); }
static Mtx& get_mtx(uptr a, const char* what, void* pc) {
  Mtx& m = mtx[a];
  if (m.state == 0) { if (in_lib_static(a)) m.state = 1; else rt_fail("lock-misuse", std::string(what) + " on a lock that was never initialised", pc); }
  if (m.state == 2) rt_fail("lock-misuse", std::string(what) + " on a destroyed lock", pc);
  return m;
}
static void wake(uptr a) { for (int i = 0; i < nfib; i++) if (fibers[i].st == F_BLOCKED && fibers[i].waiting == a) { fibers[i].st = F_READY; fibers[i].waiting = 0; } }
static void block_on(uptr a) {
  STATS.lock_waits++;
  cur->op.steps++; gstep++;
  cur->st = F_BLOCKED; cur->waiting = a;
  Fiber* me = cur;
  if (nfib == 1) { cur->st = F_READY; rt_fail("deadlock", std::string(cur->op.name) + " waits for a lock that nobody will release"); }
  forced(me->op.id, me->op.steps);
  recompute();
}
#define PC __builtin_return_address(0)
#define E extern "C"
E int sim_pthread_mutex_init(void* m, void* at) { rt_sync_point(PC); uptr a = (uptr)m; rt_check_quiet(a, 40, true, PC); Mtx& x = mtx[a]; if (x.owner >= 0) rt_fail("lock-misuse", "a locked lock is initialised again", PC); x = Mtx(); x.state = 1; if (at && recattr.count((uptr)at)) x.rec = recattr[(uptr)at]; memset(m, 0, 40); return 0; }
E int sim_pthread_mutex_destroy(void* m) { rt_sync_point(PC); uptr a = (uptr)m; rt_check_quiet(a, 40, true, PC); Mtx& x = get_mtx(a, "destroy", PC); if (x.owner >= 0) rt_fail("lock-misuse", "a locked lock is destroyed", PC); x.state = 2; return 0; }
E int sim_pthread_mutex_lock(void* m) {
  rt_sync_point(PC); uptr a = (uptr)m; rt_check_quiet(a, 40, true, PC);
  for (;;) {
    Mtx& x = get_mtx(a, "lock", PC);
    if (x.owner < 0) { x.owner = cur->tid; x.depth = 1; cur->held++; break; }
    if (x.owner == cur->tid) { if (x.rec) { x.depth++; cur->held++; break; } rt_fail("deadlock", std::string(cur->op.name) + " locks a lock it already holds", PC); }
    block_on(a); rt_check_quiet(a, 40, true, PC);
  }
  return 0;
}
E int sim_pthread_mutex_trylock(void* m) {
  rt_sync_point(PC); uptr a = (uptr)m; rt_check_quiet(a, 40, true, PC); Mtx& x = get_mtx(a, "trylock", PC);
  if (x.owner < 0) { x.owner = cur->tid; x.depth = 1; cur->held++; return 0; }
  if (x.owner == cur->tid && x.rec) { x.depth++; cur->held++; return 0; }
  return EBUSY;
}
E int sim_pthread_mutex_unlock(void* m) {
  rt_sync_point(PC); uptr a = (uptr)m; rt_check_quiet(a, 40, true, PC); Mtx& x = get_mtx(a, "unlock", PC);
  if (x.owner != cur->tid) rt_fail("lock-misuse", std::string(cur->op.name) + (x.owner < 0 ? " unlocks a lock that is not locked" : " unlocks a lock held by another thread"), PC);
  cur->held--; if (--x.depth == 0) { x.owner = -1; wake(a); rt_sync_point(PC); }
  return 0;
}
E int sim_pthread_mutexattr_init(void* at) { recattr[(uptr)at] = false; return 0; }
E int sim_pthread_mutexattr_settype(void* at, int t) { recattr[(uptr)at] = t == 1; return 0; }
E int sim_pthread_mutexattr_destroy(void* at) { recattr.erase((uptr)at); return 0; }
// reader/writer locks
E int sim_pthread_rwlock_init(void* m, void*) { rt_sync_point(PC); Mtx& x = mtx[(uptr)m]; x = Mtx(); x.state = 1; memset(m, 0, 56); return 0; }
E int sim_pthread_rwlock_destroy(void* m) { rt_sync_point(PC); Mtx& x = get_mtx((uptr)m, "destroy", PC); if (x.owner >= 0 || x.readers) rt_fail("lock-misuse", "a locked lock is destroyed", PC); x.state = 2; return 0; }
E int sim_pthread_rwlock_rdlock(void* m) { rt_sync_point(PC); for (;;) { Mtx& x = get_mtx((uptr)m, "lock", PC); if (x.owner < 0) { x.readers++; cur->held++; return 0; } block_on((uptr)m); } }
E int sim_pthread_rwlock_wrlock(void* m) { rt_sync_point(PC); for (;;) { Mtx& x = get_mtx((uptr)m, "lock", PC); if (x.owner < 0 && !x.readers) { x.owner = cur->tid; cur->held++; return 0; } if (x.owner == cur->tid) rt_fail("deadlock", std::string(cur->op.name) + " locks a lock it already holds", PC); block_on((uptr)m); } }
E int sim_pthread_rwlock_unlock(void* m) { rt_sync_point(PC); Mtx& x = get_mtx((uptr)m, "unlock", PC); if (x.owner == cur->tid) x.owner = -1; else if (x.readers) x.readers--; else rt_fail("lock-misuse", "unlock of a lock that is not held", PC); cur->held--; wake((uptr)m); return 0; }
// spin locks behave like mutexes here
E int sim_pthread_spin_init(void* m, int) { rt_sync_point(PC); Mtx& x = mtx[(uptr)m]; x = Mtx(); x.state = 1; return 0; }
E int sim_pthread_spin_destroy(void* m) { rt_sync_point(PC); mtx[(uptr)m].state = 2; return 0; }
E int sim_pthread_spin_lock(void* m) { rt_sync_point(PC); for (;;) { Mtx& x = get_mtx((uptr)m, "lock", PC); if (x.owner < 0) { x.owner = cur->tid; cur->held++; return 0; } if (x.owner == cur->tid) rt_fail("deadlock", "spin lock taken twice", PC); block_on((uptr)m); } }
E int sim_pthread_spin_trylock(void* m) { rt_sync_point(PC); Mtx& x = get_mtx((uptr)m, "lock", PC); if (x.owner < 0) { x.owner = cur->tid; cur->held++; return 0; } return EBUSY; }
E int sim_pthread_spin_unlock(void* m) { rt_sync_point(PC); Mtx& x = get_mtx((uptr)m, "unlock", PC); if (x.owner != cur->tid) rt_fail("lock-misuse", "spin unlock by a thread that does not hold it", PC); x.owner = -1; cur->held--; wake((uptr)m); return 0; }
// condition variables: waiters are released in a batch and compete for the mutex again (spurious wake-ups are legal)
E int sim_pthread_cond_init(void* c, void*) { memset(c, 0, 48); return 0; }
E int sim_pthread_cond_destroy(void*) { return 0; }
E int sim_pthread_cond_wait(void* c, void* m) { sim_pthread_mutex_unlock(m); if (nfib == 1) rt_fail("deadlock", "waits for a condition nobody can signal", PC); block_on((uptr)c); return sim_pthread_mutex_lock(m); }
E int sim_pthread_cond_signal(void* c) { rt_sync_point(PC); wake((uptr)c); return 0; }
E int sim_pthread_cond_broadcast(void* c) { rt_sync_point(PC); wake((uptr)c); return 0; }
E int sim_pthread_once(int* o, void (*f)()) { rt_sync_point(PC); if (*o == 2) return 0; while (*o == 1) rt_yield(); if (*o == 0) { *o = 1; f(); *o = 2; } return 0; }
E unsigned long sim_pthread_self() { return 1 + (cur ? cur->tid : 0); }
static std::unordered_map<u64, void*> tsd; static u32 nkeys = 0;
E int sim_pthread_key_create(u32* k, void*) { *k = nkeys++; return 0; }
E void* sim_pthread_getspecific(u32 k) { auto it = tsd.find(((u64)rt_tid() << 32) | k); return it == tsd.end() ? nullptr : it->second; }
E int sim_pthread_setspecific(u32 k, const void* v) { tsd[((u64)rt_tid() << 32) | k] = (void*)v; return 0; }
E int sim_sched_yield() { rt_yield(); return 0; }

E int* sim___errno_location() { return &rt_errno(); }

struct EmuTls { uptr size, align; union { uptr off; void* p; }; void* templ; };
E void* __emutls_get_address(void* o) {
  EmuTls* e = (EmuTls*)o; if (!cur) abort();
  auto& v = cur->tls[o];
  if (!v) { v = new std::vector<u8>(e->size + 16, 0); if (e->templ) memcpy(v->data(), e->templ, e->size); }
  return v->data();
}

// ---- ASan outline interface ---------------------------------------------------------------------------------------
#define ACC(n) E void __asan_load##n(uptr a) { access_(a, n, false, PC); } E void __asan_store##n(uptr a) { access_(a, n, true, PC); } \
  E void __asan_load##n##_noabort(uptr a) { access_(a, n, false, PC); } E void __asan_store##n##_noabort(uptr a) { access_(a, n, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
E void __asan_loadN(uptr a, uptr n) { if (n) access_(a, n, false, PC); }
E void __asan_storeN(uptr a, uptr n) { if (n) access_(a, n, true, PC); }
E void* __asan_memcpy(void* d, const void* s, size_t n) { if (n) { access_((uptr)s, n, false, PC); access_((uptr)d, n, true, PC); } return memcpy(d, s, n); }
E void* __asan_memmove(void* d, const void* s, size_t n) { if (n) { access_((uptr)s, n, false, PC); access_((uptr)d, n, true, PC); } return memmove(d, s, n); }
E void* __asan_memset(void* d, int c, size_t n) { if (n) access_((uptr)d, n, true, PC); return memset(d, c, n); }
E void __asan_init() { early_init(); }
E void __asan_version_mismatch_check_v8() {}
E void __asan_handle_no_return() {}
struct AGlobal { uptr beg, size, size_rz, name, mod, dyn, loc, odr; };
static std::vector<AGlobal> aglobals;
static void poison_globals() { for (auto& g : aglobals) { memset(sh(g.beg), 0, g.size_rz >> 3); uptr e = g.beg + g.size; uptr q = (e + 7) & ~7ull; if (e & 7) *sh(e) = (u8)(e & 7); if (q < g.beg + g.size_rz) memset(sh(q), 0xf9, (g.beg + g.size_rz - q) >> 3); } }
E void __asan_register_elf_globals(uptr* flag, void* start, void* stop) { if (*flag) return; *flag = 1; for (AGlobal* g = (AGlobal*)start; g < (AGlobal*)stop; g++) if (g->beg) aglobals.push_back(*g); }
E void __asan_unregister_elf_globals(uptr*, void*, void*) {}
E void __asan_register_globals(void* g, uptr n) { for (uptr i = 0; i < n; i++) aglobals.push_back(((AGlobal*)g)[i]); }
E void __asan_unregister_globals(void*, uptr) {}
E void __asan_before_dynamic_init(const char*) {} E void __asan_after_dynamic_init() {}
#define SSH(x) E void __asan_set_shadow_##x(uptr a, uptr n) { memset((void*)a, 0x##x, n); }
SSH(00) SSH(01) SSH(02) SSH(03) SSH(04) SSH(05) SSH(06) SSH(07) SSH(f1) SSH(f2) SSH(f3) SSH(f5) SSH(f8)
E void __asan_poison_stack_memory(uptr a, uptr n) { memset(sh(a), 0xf8, (n + 7) >> 3); }
E void __asan_unpoison_stack_memory(uptr a, uptr n) { unpoison(a, n); }
E void __asan_alloca_poison(uptr a, uptr n) { memset(sh(a - 32), 0xca, 4); unpoison(a, n); uptr r = (a + n + 31) & ~31ull; for (uptr q = (a + n + 7) & ~7ull; q < r + 32; q += 8) *sh(q) = 0xcb; }
E void __asan_allocas_unpoison(uptr top, uptr bottom) { if (!top || top > bottom) return; memset(sh(top), 0, (bottom - top) >> 3); }
E int __asan_option_detect_stack_use_after_return = 0;
E uptr __asan_shadow_memory_dynamic_address = SHOFF;
E void __stack_chk_fail() { rt_fail("stack-smash", "stack protector value overwritten", PC); }
E void __ubsan_handle_out_of_bounds(void*, uptr) { rt_fail("mem-oob", "array index out of bounds", PC); }
E void __ubsan_handle_out_of_bounds_abort(void*, uptr) { rt_fail("mem-oob", "array index out of bounds", PC); }
E void __ubsan_handle_local_out_of_bounds() { rt_fail("mem-oob", "array index out of bounds", PC); }
E void __ubsan_handle_local_out_of_bounds_abort() { rt_fail("mem-oob", "array index out of bounds", PC); }
E void sim___assert_fail(const char* ex, const char* file, unsigned line, const char*) { const char* b = strrchr(file, '/'); char m[300]; snprintf(m, sizeof m, "%s: assertion failed in %s: %s", cur ? cur->op.name : "?", b ? b + 1 : file, ex); (void)line; rt_fail("assert", m, PC); }
E void sim_abort() { rt_fail("crash", std::string(cur->op.name) + ": abort() called", PC); }
E void sim_exit(int) { rt_fail("crash", std::string(cur->op.name) + ": exit() called", PC); }
E void sim__exit(int) { rt_fail("crash", std::string(cur->op.name) + ": _exit() called", PC); }

// ---- life cycle ---------------------------------------------------------------------------------------------------
static std::vector<u8> snap_data, snap_bss;
static u64 img_key[IMG_N];
static const size_t IMG_PAD = 4096;

void rt_init() {
  early_init();
  poison_globals();
  if (__start_libdata) snap_data.assign((u8*)__start_libdata, (u8*)__stop_libdata);
  if (__start_libbss) snap_bss.assign((u8*)__start_libbss, (u8*)__stop_libbss);
  stack_t ss{}; ss.ss_sp = altstk; ss.ss_size = sizeof altstk; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP, SIGVTALRM};
  for (int s : sg) sigaction(s, &sa, nullptr);
  for (int i = 0; i < IMG_N; i++) { img_key[i] = 0; img_r[i] = ImgR(); }
}
static void watchdog(int sec) { struct itimerval t{}; t.it_value.tv_sec = sec; setitimer(ITIMER_VIRTUAL, &t, nullptr); }
void rt_reset_run(const SimConf& c) {
  CONF = c; VIOL = Violation(); CRASHED = false; CRASH_OP = -1; EVHASH = 0xABCD; SCHEDHASH = 1; SEQ = 0; nsegs = 0;
  srng = Rng(c.sched_seed); OPCOUNTS.clear(); OPSTEPS.clear(); ALLOCSITES.clear();
  if (!REPLAYING) SWITCHES.clear();
  os_reset_run();
  watchdog(20);
}
void rt_start_life(int life) {
  if (__start_libdata) memcpy(__start_libdata, snap_data.data(), snap_data.size());
  if (__start_libbss) memcpy(__start_libbss, snap_bss.data(), snap_bss.size());
  poison_globals();
  uptr used = brk_ - ARENA;
  memset(sh(ARENA), 0xfa, (used + 4096) >> 3);
  need_poison(ARENA + 4096);
  if (used > (64u << 20)) madvise((void*)ARENA, used, MADV_DONTNEED);
  brk_ = ARENA; blks.clear(); freel.clear(); live_lib = 0;
  mtx.clear(); recattr.clear(); tsd.clear(); nkeys = 0; accgen++;
  CRASHED = false; CRASH_OP = -1; STATS.lives++;
  for (int i = 0; i < MAXT; i++) { for (auto& t : fibers[i].tls) delete t.second; fibers[i].tls.clear(); }
  os_start_life(life);
}
u8* rt_image_base(int slot) { return (u8*)(IMG + slot * IMG_SLOT + IMG_PAD); }
u8* rt_image_place(int slot, const std::vector<u8>& bytes, u64 key, size_t gapat, u64 gaplen) {
  uptr b = (uptr)rt_image_base(slot);
  if (bytes.size() + gaplen + 2 * IMG_PAD > IMG_SLOT) abort();
  if (img_key[slot] != key || !key) {
    ImgR& r = img_r[slot]; if (r.nb) { uptr p = r.b & ~4095ull; madvise((void*)p, r.b + r.nb - p, MADV_DONTNEED); }
    r.a = b; r.na = bytes.size(); r.b = r.nb = 0; if (gaplen) { r.na = gapat; r.b = b + gapat + gaplen; r.nb = bytes.size() - gapat; }
    memcpy((void*)r.a, bytes.data(), r.na); if (r.nb) memcpy((void*)r.b, bytes.data() + r.na, r.nb);
    img_key[slot] = key;
  }
  return (u8*)b;
}

std::string rt_sym(uptr pc) {
  char cmd[256], buf[512], exe[200]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n < 0) return "?"; exe[n] = 0;
  snprintf(cmd, sizeof cmd, "addr2line -f -e %s 0x%lx 2>/dev/null", exe, (unsigned long)(pc - 1));
  FILE* p = popen(cmd, "r"); if (!p) return "?";
  std::string fn, loc; if (fgets(buf, sizeof buf, p)) { fn = buf; fn.erase(fn.find_last_not_of("\n") + 1); } if (fgets(buf, sizeof buf, p)) { loc = buf; loc.erase(loc.find_last_not_of("\n") + 1); }
  pclose(p);
  auto s = loc.rfind('/'); if (s != std::string::npos) loc = loc.substr(s + 1);
  auto d = loc.find(" ("); if (d != std::string::npos) loc = loc.substr(0, d);
  return fn + " " + loc;
}

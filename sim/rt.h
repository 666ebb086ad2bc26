// Runtime of the simulator: fibers, scheduler, memory model, fault points, simulated OS.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <set>
#include <functional>
#include <algorithm>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;
typedef uintptr_t uptr;

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed) { next(); next(); }
  u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)below((u64)(b - a + 1)); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
static inline u64 hmix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 33); }

// ---- fault points -------------------------------------------------------------------------------------------------
enum FaultKind { FK_ALLOC, FK_DUP, FK_FOPEN, FK_WRITE, FK_FCLOSE, FK_UNLINK, FK_DECODE, FK_SQUAT, FK_ATEXIT, FK_MKDIR, FK_OSREAD, FK_CHDIR, FK_CLOSE, FK_N };
extern const char* fault_names[FK_N];
// Fires when the nth (0-based) point of this kind is passed in operation `op`; sticky: also at all later ones of that operation.
struct Fault { int op; int kind; int nth; int arg; bool sticky; };

// ---- scheduling decisions -----------------------------------------------------------------------------------------
struct Switch { int op; u64 step; int to; };   // at step `step` of op `op` control passes to thread `to`

enum Strategy { ST_SERIAL, ST_RANDOM, ST_SYNC, ST_PCT, ST_CONFLICT, ST_STALL, ST_N };
extern const char* strat_names[];

struct Violation {
  bool set = false;
  std::string cls;       // class, e.g. "mem-uaf"
  std::string msg;       // one-line description
  int op = -1;           // op id in which it was noticed
  int thread = -1;
  int kind = 0;          // op kind
  std::vector<uptr> pcs; // code addresses
};

struct SimConf {
  int strategy = ST_SERIAL;
  double p = 0.0;          // preemption probability parameter
  int pct_depth = 0; u64 pct_len = 0;
  u64 sched_seed = 0;
  u8 fill = 0xA5;          // pattern of fresh malloc memory
  bool reuse = false;      // freed memory may be handed out again (as a real allocator does)
  int nofile = 256;
  bool close0 = false;     // application runs with fd 0 closed
  i64 clock0 = 1700000000; int clock_step_us = 10; // simulated time that passes per library step batch
  int pid0 = 4242; bool pid_reuse = false;
  std::string tmpdir = "/tmp"; int tmpvar = 0;   // 0 TMPDIR 1 TMP 2 TEMP 3 none(/tmp)
  u64 disk_cap = ~0ull;
  int randmode = 0;        // rand(): 0 changes all the time, 1 always the same, n>1 a cycle of n numbers
};

struct OpCtx {             // the running call of a thread
  int id = -1; int kind = 0; const char* name = "";
  u64 steps = 0; u64 seq0 = 0;
  int counts[FK_N]; int fired = 0; int firedk[FK_N]; int natural = 0; int taken = 0;  // natural: EMFILE/ENOSPC/EEXIST-like failures that arose by themselves
  bool passthrough = false;            // the application addressed a host path/descriptor
  std::vector<std::string> oscalls; i64 osret = 0; int oserrno = 0;   // calls to the operating system and the result of the last one
  std::string allow;                   // existing object that the running call is entitled to write
};

struct Stats {
  u64 runs = 0, steps = 0, switches = 0, ops = 0, faults[FK_N] = {0}, natural = 0, conflicts = 0, lock_waits = 0, crashes = 0, lives = 0;
  u64 allocs = 0, decodes = 0, frees = 0;
  i64 simtime_us = 0;
};

// ---- runtime ------------------------------------------------------------------------------------------------------
void rt_init();                               // once per process
void rt_reset_run(const SimConf& c);          // fresh world (new file system, clock)
void rt_start_life(int life);                 // fresh process image: library globals, heap, descriptors
u8* rt_image_place(int slot, const std::vector<u8>& bytes, u64 key, size_t gapat, u64 gaplen);  // copies image bytes to the slot's address
u8* rt_image_base(int slot);

extern SimConf CONF; extern Violation VIOL; extern Stats STATS;
extern std::vector<Fault> FAULTS;             // faults of this run
extern std::vector<Switch> SWITCHES;          // replay: input; otherwise recorded
extern bool REPLAYING;
extern bool COLLECT; extern std::map<int, std::vector<int>> OPCOUNTS; extern std::map<int, u64> OPSTEPS; extern std::map<uptr, std::vector<std::pair<int, int>>> ALLOCSITES;  // dry-run fault point counts and steps per op
extern int CRASH_OP; extern u64 CRASH_STEP; extern bool CRASHED;  // crash at step of op
extern u64 EVHASH, SCHEDHASH, SEQ;
extern std::unordered_map<u64, u32> COVER;    // conflicting access pairs seen
extern bool TRACE;

bool rt_run_threads(const std::vector<std::function<void()>>& bodies);  // false if stopped by violation or crash
int rt_tid();
int rt_nthreads();
OpCtx& rt_op();
void rt_begin_op(int id, int kind, const char* name);
void rt_end_op();                             // checks lock state
[[noreturn]] void rt_fail(const std::string& cls, const std::string& msg, void* pc = nullptr);
void rt_note(const std::string& cls, const std::string& msg, int op = -1, int kind = 0);  // record without unwinding (main context)
void rt_event(u64 v);
int& rt_errno();
void rt_sync_point(void* pc);                 // scheduling point inside simulated services
void rt_scrub();                              // fills the unused stack below, so that nothing there depends on the host
void rt_yield();                              // the running thread offers the processor
bool rt_in_fiber();
void rt_begin_special(int id, const char* name);   // op context for exit handlers etc.
bool rt_fault(int kind, int* arg);            // asks whether a fault fires here (counts the point)
void rt_natural();                            // a resource limit hit by itself

void* lib_malloc(size_t n, void* pc);
void lib_free(void* p, void* pc);
void rt_check(uptr a, size_t n, bool write, void* pc); // access with scheduling point
void rt_check_quiet(uptr a, size_t n, bool write, void* pc);
std::string rt_cstr(const char* s, void* pc);  // checked read of a C string

// user memory (visible to the library with exact bounds)
u8* user_alloc(size_t n);
void user_free(void* p);
char* user_str(const std::string& s);
bool mem_ok(uptr a, size_t n);                // currently addressable for the library
std::string addr_desc(uptr a);
bool lib_block(uptr p, size_t* size, bool* live);
struct LeakInfo { uptr addr; size_t size; int op; uptr pc; };
std::vector<LeakInfo> rt_unreachable(const std::vector<std::pair<uptr, size_t>>& roots);
size_t rt_live_lib_blocks();
std::string rt_sym(uptr pc);

// simulated OS, application side
int os_app_open(const std::string& path, int flags, int mode);
int os_app_close(int fd);
bool os_fd_open(int fd); int os_fd_owner(int fd); int os_fd_creator(int fd);   // owner: 0 lib 1 app
std::string os_fd_path(int fd);
i64 os_fd_pos(int fd); int os_fd_flags(int fd);
bool os_look(const std::string& p, std::string& out);   // does it exist? (as a kernel resolves it)
std::vector<std::pair<std::string, bool>> os_list(const std::string& q); int os_dir_fd(void* d);
extern std::string OS_EXE;
std::string os_env(const char* name);
extern std::vector<std::pair<uptr, uptr>> RT_RO;   // strings of the caller that may not be written, not even for a moment
std::vector<int> os_lib_fds();
void os_set_nofile(int n);
int os_free_fds();
struct FNode { bool dir = false; std::string data, link; int life = 0; int op = -1; int by = 0; u64 id = 0; u32 mode = 0; bool foreign = false; };  // by: 0 lib 1 app 2 foreign
std::map<std::string, FNode>& os_fs();
void os_put_file(const std::string& path, const std::string& data, int by);
void os_put_dir(const std::string& path, int by);
void os_put_link(const std::string& path, const std::string& to, int by);
void os_clock_add(i64 us);
i64 os_now_us();
std::string os_norm(const std::string& p);
void os_run_atexit();                         // must be called inside a fiber
void os_end_of_process();                     // descriptors and handlers vanish
std::string os_cwd();
void os_reset_run(); void os_start_life(int life);
extern std::vector<std::string> OS_SQUATTED;
int os_atexit_count();
u64 os_disk_used();
int os_unlinks_failed();
void os_remove(const std::string& path);   // somebody else removes a file

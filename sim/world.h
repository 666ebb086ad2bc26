#pragma once
#include "scn.h"
#include "glue.h"
#include <errno.h>
#include <stdarg.h>

struct VFD { bool open = false, closing = false; int fd = -1, m = -1, gen = 0, node = -1; i64 pos = 0; bool real = false; std::string rpath; };
struct DIRS { bool open = false, closing = false; void* d = nullptr; int fd = -1, m = -1, node = -1; size_t idx = 0; std::vector<std::pair<long, size_t>> marks; struct dirent* last = nullptr; struct dirent copy; bool real = false; std::vector<std::pair<std::string, bool>> ents; };
struct Ev { bool end; std::string path; int node; const Kid* kid; };
struct TRV { bool open = false; u8* t = nullptr; int m = -1; std::vector<Ev> ev; size_t i = 0; bool dead = false, canprune = false; };
struct Mount { bool on = false, busy = false; int img = -1; u8* fs = nullptr; int gen = 0; std::vector<std::string> alias; char *a1 = nullptr, *a2 = nullptr; bool fresh = false; };
struct Extr { std::string name; const char* ptr; };
static const int NM = 4, NV = 96, ND = 48, NT = 24, NA = 16;
struct World {
  Mount m[NM]; u8* fsmem[NM] = {}; VFD v[NV]; DIRS d[ND]; TRV t[NT]; int app[NA]; std::string apppath[NA];
  Image* img[6] = {}; u8* base[6] = {}; std::map<int, u8> bad[6]; int life = 0, gen = 0; bool started = false;
  std::set<int> openfds; std::map<std::pair<int, std::string>, Extr> ext; std::set<std::string> extnames, gone;
  std::map<std::string, u64> foreign;   // files the library must leave alone -> content hash
  std::vector<int> closed; std::multiset<int> pinned;   // numbers a thread is using as those of foreign descriptors: nobody closes them meanwhile
  // interception model
  std::string vcwd; std::string workdir; bool entered = false; int em = -1; std::set<std::string> shadow; std::map<std::string, int> racy; std::set<std::string> racyfiles;   // enclosed paths that the threads of this segment may create
  bool concurrent = false; bool canstart = true; int clears = 0;
};
extern World W;

[[noreturn]] void failv(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
struct Arg { char* u; std::string c; Arg(const std::string& s) : u(user_str(s)), c(s) { RT_RO.push_back({(uptr)u, (uptr)u + c.size() + 1}); }
  void done() { for (size_t i = 0; i < RT_RO.size(); i++) if (RT_RO[i].first == (uptr)u) { RT_RO.erase(RT_RO.begin() + i); break; } if (memcmp(u, c.c_str(), c.size() + 1)) failv("arg-write", "%s changed the caller's string \"%s\"", rt_op().name, c.c_str()); user_free(u); } };
// One call into the library: did a fault or a resource limit strike in it, or does it need an unreadable block?
struct Call {
  int f0, n0, t0; bool need = false; int k0[FK_N];
  Call() { OpCtx& o = rt_op(); f0 = o.fired; n0 = o.natural; t0 = o.taken; memcpy(k0, o.firedk, sizeof k0); rt_errno() = 0; rt_scrub(); }
  void blocks(int img, const std::set<int>& s) { for (auto& b : W.bad[img]) if (s.count(b.first)) need = true; }
  int fired(int k) const { return rt_op().firedk[k] - k0[k]; }
  int fired() const { return rt_op().fired - f0; }
  int natural() const { return rt_op().natural - n0; }
  // a name that somebody else took in the last moment, now and then, is no reason to give up: there are others
  bool may_name() const { return need || fired() > fired(FK_SQUAT) || natural() > rt_op().taken - t0 || fired(FK_SQUAT) > 20; }
  bool may() const { return need || fired() > 0 || natural() > 0; }
};
struct Buf { u8* p; size_t n; Buf(size_t n_) : p(user_alloc(n_)), n(n_) { for (size_t i = 0; i < n; i++) p[i] = canary(i); } static u8 canary(size_t i) { return (u8)(0xC3 ^ (i * 37)); }
  bool untouched(size_t from) const { for (size_t i = from; i < n; i++) if (p[i] != canary(i)) return false; return true; } void done() { user_free(p); } };
// The calls an application makes: the library's own, or those of the sample that redirect an application's file calls.
struct Api {
  int (*open)(void*, const char*); int (*close)(int); ssize_t (*read)(int, void*, int64_t); int64_t (*lseek)(int, int64_t, int); int (*fstat)(int, struct stat*);
  int (*stat)(void*, const char*, struct stat*); int (*lstat)(void*, const char*, struct stat*); ssize_t (*readlink)(void*, const char*, char*, size_t);
  void* (*opendir)(void*, const char*); struct dirent* (*readdir)(void*); long (*telldir)(void*); void (*seekdir)(void*, long); void (*rewinddir)(void*); int (*closedir)(void*); int (*dirfd)(void*);
  int (*scandir)(void*, const char*, struct dirent***, int (*)(const struct dirent*), int (*)(const struct dirent**, const struct dirent**)); const char* (*extract)(void*, const char*, const char*);
};
extern const Api API_PLAIN, API_ENC;
bool exec_op(const Op& o);    // false: skipped
bool exec_k(const Op& o, const Api& A, const std::string* callpath);   // callpath: the path to pass, if not o.p
void segment_begin(const Seg& g); void post_checks_e(); bool fd_reserved(int fd); void note_foreign(const std::string& p);
typedef int (*SelFn)(const struct dirent*); typedef int (*CmpFn)(const struct dirent**, const struct dirent**);
SelFn sel_fn(int k); CmpFn cmp_fn(int k); bool sel_want(int k, const std::string& name, bool dir);
void check_read(const Image& im, int node, i64 pos, i64 want, const Buf& b, i64 got, const char* what);
bool exec_e(const Op& o);
void need_path(const Image& im, const Resolved& r, std::set<int>& s);
std::string lib_str(const char* p);
void check_stat(const Image& im, int node, const struct stat* st, const char* what);
void post_checks();
void want_errno(const Call& c, const char* what);
void reg_open(int fd, const char* what);
int type_mode(char t); int type_dt(char t);
void end_life_e();
u64 hash_str(const std::string& s);
std::vector<std::pair<uptr, size_t>> world_roots();

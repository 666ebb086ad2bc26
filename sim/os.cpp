// Simulated operating system and C library services used by the library and the sample.
#include <functional>
#include "rt.h"
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <dirent.h>
#include <ftw.h>
#include <stdlib.h>
#include <unistd.h>
#include <zlib.h>
#include <limits.h>

#define PC __builtin_return_address(0)
#define E extern "C"
#define INL __attribute__((always_inline)) static inline

static std::map<std::string, FNode> FS; static u64 next_id = 1; static int LIFE = 0;
struct FD { bool open = false; int owner = 1; int op = -1; std::string path; u64 id = 0; i64 pos = 0; int flags = 0; bool tty = false; };
static std::vector<FD> FDS; static int NOFILE = 256; static i64 clock_us = 0; static std::string CWD = "/"; static u64 disk_used = 0;
static std::vector<void (*)()> ATEXIT; static u64 rand_state = 1; static u64 sysrand = 1;
std::string OS_EXE = "/usr/bin/app";
std::vector<std::string> OS_SQUATTED; static int UNLINKS_FAILED = 0;
int os_unlinks_failed() { return UNLINKS_FAILED; }
static std::map<std::string, char*> ENV; 
struct SFile { int magic = 0x51F11E; int fd = -1; std::string buf; size_t rpos = 0; bool err = false, eof = false, wr = false; bool live = true; int op = -1; };
static std::vector<SFile*> SFILES; static SFile sf_err, sf_out;
E { void* sim_stderr = &sf_err; void* sim_stdout = &sf_out; void* sim_stdin = nullptr; char** sim_environ = nullptr; char** sim___environ = nullptr; }
struct SDir { int magic = 0x51D1; std::vector<std::pair<std::string, bool>> ents; size_t pos = 0; int fd = -1; struct dirent de; bool live = true; };
static std::vector<SDir*> SDIRS;

static int& ERR() { return rt_errno(); }
static void oscall() { clock_us += 10; STATS.simtime_us += 10; if (rt_in_fiber()) rt_sync_point(nullptr); }
static void logc(const std::string& s) { if (rt_in_fiber()) { rt_op().oscalls.push_back(s); if (TRACE) printf("      os %s\n", s.c_str()); } }
static bool passthru() { return rt_in_fiber() ? rt_op().passthrough : true; }

void os_reset_run() {
  FS.clear(); next_id = 1; OS_SQUATTED.clear(); disk_used = 0; clock_us = CONF.clock0 * 1000000; sysrand = 0x1234567;
  os_put_dir("/", 2); std::string t = os_norm(CONF.tmpdir); size_t p = 0; while ((p = t.find('/', p + 1)) != std::string::npos) os_put_dir(t.substr(0, p), 2);
  os_put_dir(t, 2); os_put_dir("/tmp", 2); os_put_dir("/home", 2); os_put_dir("/home/app", 2);
}
void os_start_life(int life) {
  OS_EXE = "/usr/bin/app"; if (CONF.sched_seed % 5 == 0) { size_t n = hmix(CONF.sched_seed, 77) % (CONF.sched_seed % 3 ? 300 : 4060); while (OS_EXE.size() < n) OS_EXE += OS_EXE.size() % 40 ? "x" : "/"; if (OS_EXE.back() == '/') OS_EXE += "y"; }
  RT_RO.clear(); UNLINKS_FAILED = 0; LIFE = life; FDS.assign(4096, FD()); NOFILE = CONF.nofile; ATEXIT.clear(); rand_state = 1; CWD = "/home/app"; ENV.clear();
  for (auto f : SFILES) delete f; SFILES.clear();
  for (auto d : SDIRS) delete d; SDIRS.clear();
  sf_err.buf.clear(); sf_out.buf.clear();
  for (int i = CONF.close0 ? 1 : 0; i < 3; i++) { FDS[i].open = true; FDS[i].tty = true; FDS[i].owner = 1; }
  const char* names[] = {"TMPDIR", "TMP", "TEMP"};
  if (CONF.tmpvar < 3) ENV[names[CONF.tmpvar]] = user_str(CONF.tmpdir);
  ENV["HOME"] = user_str("/home/app");
  if (CONF.sched_seed % 7 == 1) ENV["ENCLOSE_IO_USE_ORIGINAL_NODE"] = user_str("no");
  if (CONF.sched_seed % 7 == 2) ENV["ENCLOSE_IO_USE_ORIGINAL_RUBY"] = user_str("");
}
void os_end_of_process() { for (auto& f : FDS) f.open = false; ATEXIT.clear(); }
std::map<std::string, FNode>& os_fs() { return FS; }
std::string os_cwd() { return CWD; }
std::string os_env(const char* n) { auto it = ENV.find(n); return it == ENV.end() ? "" : it->second; }
void os_set_nofile(int n) { NOFILE = n; }
int os_free_fds() { int n = 0; for (int i = 0; i < NOFILE; i++) if (!FDS[i].open) n++; return n; }
void os_clock_add(i64 us) { clock_us += us; STATS.simtime_us += us > 0 ? us : 0; }
i64 os_now_us() { return clock_us; }
u64 os_disk_used() { return disk_used; }
int os_atexit_count() { return (int)ATEXIT.size(); }

std::string os_norm(const std::string& p0) {
  std::string p = p0.empty() ? p0 : (p0[0] == '/' ? p0 : CWD + "/" + p0);
  std::vector<std::string> c; std::string cur;
  for (size_t i = 0; i <= p.size(); i++) { if (i == p.size() || p[i] == '/') { if (cur == "..") { if (!c.empty()) c.pop_back(); } else if (!cur.empty() && cur != ".") c.push_back(cur); cur.clear(); } else cur += p[i]; }
  std::string r; for (auto& x : c) r += "/" + x;
  return r.empty() ? "/" : r;
}
// Resolves a path as a kernel does: every component but the last has to be an existing directory, also before "..". Gives 0 or an errno.
static FNode* node(const std::string& p);
static std::string parent(const std::string& p) { auto i = p.rfind('/'); return i == 0 || i == std::string::npos ? "/" : p.substr(0, i); }
static int look(const std::string& p0, std::string& out, bool follow = true) {
  if (p0.empty()) return ENOENT;
  if (p0.size() >= 4096) return ENAMETOOLONG;
  std::string p = p0[0] == '/' ? p0 : CWD + "/" + p0, comp; bool slash = false; std::string at; int links = 0;
  for (size_t i = 0; i <= p.size(); i++) {
    if (i < p.size() && p[i] != '/') { comp += p[i]; continue; }
    if (!comp.empty()) {
      FNode* d = node(at.empty() ? "/" : at); if (!d) return ENOENT; if (!d->dir) return ENOTDIR;
      if (comp.size() > 255) return ENAMETOOLONG;
      if (comp == "..") at = at.empty() ? at : at.substr(0, at.rfind('/')); else if (comp != ".") at += "/" + comp;
      comp.clear();
      FNode* n = at.empty() ? nullptr : node(at);
      if (n && !n->link.empty() && (i < p.size() || follow)) {
        if (++links > 40) return ELOOP;
        std::string rest = i < p.size() ? p.substr(i) : ""; p = (n->link[0] == '/' ? n->link : parent(at) + "/" + n->link) + rest; at.clear(); i = (size_t)-1; slash = false; continue;
      }
    }
    slash = i + 1 >= p.size() && p.back() == '/';
  }
  out = at.empty() ? "/" : at;
  if (slash) if (FNode* n = node(out)) if (!n->dir) return ENOTDIR;
  return 0;
}
bool os_look(const std::string& p, std::string& out) { return look(p, out) == 0 && node(out); }
static FNode* node(const std::string& p) { auto it = FS.find(p); return it == FS.end() ? nullptr : &it->second; }
static FNode* node_id(const std::string& p, u64 id) { FNode* n = node(p); if (n && n->id == id) return n; for (auto& x : FS) if (x.second.id == id) return &x.second; return nullptr; }
static FNode& create(const std::string& p, bool dir, int by, u32 mode) {
  FNode n; n.dir = dir; n.life = LIFE; n.op = rt_in_fiber() ? rt_op().id : -1; n.by = by; n.id = next_id++; n.mode = mode; n.foreign = by == 2;
  return FS[p] = n;
}
void os_put_file(const std::string& path, const std::string& data, int by) { FNode& n = create(path, false, by, 0644); n.data = data; disk_used += data.size(); }
void os_put_link(const std::string& path, const std::string& to, int by) { FNode& n = create(path, false, by, 0777); n.link = to; n.op = -1; }
void os_put_dir(const std::string& path, int by) { if (!node(path)) create(path, true, by, 0755); }
void os_remove(const std::string& p) { auto it = FS.find(p); if (it == FS.end()) return; disk_used -= std::min<u64>(disk_used, it->second.data.size()); FS.erase(it); }
// the process is no privileged one: it changes only directories it may write to
static bool locked(const FNode* d) { return (d->mode & 0300) != 0300; }
static int newby() { return passthru() ? 1 : 0; }
// May the running operation overwrite or remove this object?
static void guard_existing(const std::string& p, FNode* n, const char* what, void* pc) {
  if (passthru()) return;
  const std::string& al = rt_op().allow;   // the part of a name below a directory that the library made
  if (!al.empty() && n->by == 0 && n->life == LIFE && p.size() > al.size() && !p.compare(p.size() - al.size(), al.size(), al)) { FNode* d = node(p.substr(0, p.size() - al.size())); if (d && d->dir && d->by == 0 && d->life == LIFE) return; }
  if (n->by == 0 && n->life == LIFE) {
    if (std::string(what) == "removes") return;
    if (n->op == rt_op().id) return;
    rt_fail("file-clobber", std::string(rt_op().name) + " " + what + " " + p + ", which another call made", pc);
  }
  rt_fail("file-clobber", std::string(rt_op().name) + " " + what + " " + p + ", which " + (n->by == 0 ? "an earlier run left behind" : n->by == 1 ? "belongs to the application" : "belongs to another process"), pc);
}
static void maybe_squat(const std::string& p, bool dir) {
  int arg = 0;
  if (rt_op().passthrough) return;   // the application may well write to what another process has made
  if (!rt_fault(FK_SQUAT, &arg)) return;
  if (node(p)) return;
  FNode* par = node(parent(p)); if (!par || par->by == 0) return;   // nobody else works in a private directory
  FNode& n = create(p, dir, 2, 0644); n.op = -1; if (!dir) n.data = "foreign:" + p;
  OS_SQUATTED.push_back(p);
  rt_natural(); rt_op().taken++;
}

static int alloc_fd() { for (int i = 0; i < NOFILE && i < (int)FDS.size(); i++) if (!FDS[i].open) return i; return -1; }
static int take_fd(int owner) {
  int fd = alloc_fd(); if (fd < 0) { ERR() = EMFILE; rt_natural(); return -1; }
  FDS[fd] = FD(); FDS[fd].open = true; FDS[fd].owner = owner; FDS[fd].op = rt_in_fiber() ? rt_op().id : -1;
  return fd;
}
bool os_fd_open(int fd) { return fd >= 0 && fd < (int)FDS.size() && FDS[fd].open; }
int os_fd_owner(int fd) { return os_fd_open(fd) ? FDS[fd].owner : -1; }
int os_fd_creator(int fd) { return os_fd_open(fd) ? FDS[fd].op : -1; }
std::string os_fd_path(int fd) { return os_fd_open(fd) ? FDS[fd].path : ""; }
int os_fd_flags(int fd) { return os_fd_open(fd) ? FDS[fd].flags : -1; }
i64 os_fd_pos(int fd) { return os_fd_open(fd) ? FDS[fd].pos : -1; }
std::vector<int> os_lib_fds() { std::vector<int> r; for (size_t i = 0; i < FDS.size(); i++) if (FDS[i].open && FDS[i].owner == 0) r.push_back((int)i); return r; }

static int do_open(const std::string& path, int flags, u32 mode, int owner, void* pc) {
  if (path == "/dev/null" || path == "/dev/zero") { int fd = take_fd(owner); if (fd >= 0) { FDS[fd].tty = true; FDS[fd].flags = flags; FDS[fd].path = path; } return fd; }
  std::string p; if (int e = look(path, p, !(flags & O_NOFOLLOW) && (flags & (O_CREAT | O_EXCL)) != (O_CREAT | O_EXCL))) { ERR() = e; return -1; }
  if ((flags & O_CREAT) && path.back() == '/') { ERR() = EISDIR; return -1; }
  if (flags & O_CREAT) maybe_squat(p, false);
  FNode* n = node(p);
  if (n && (flags & O_CREAT) && (flags & O_EXCL)) { ERR() = EEXIST; rt_natural(); rt_op().taken++; return -1; }
  if (!n && !(flags & O_CREAT)) { ERR() = ENOENT; return -1; }
  FNode* par = node(parent(p));
  if (!par || !par->dir) { ERR() = par ? ENOTDIR : ENOENT; return -1; }
  if (n && !n->link.empty()) { ERR() = ELOOP; return -1; }
  if (n && n->dir && (flags & 3) != O_RDONLY) { ERR() = EISDIR; return -1; }
  if (n && !n->dir && (flags & O_DIRECTORY)) { ERR() = ENOTDIR; return -1; }
  if (n ? !n->dir && (((flags & 3) != O_WRONLY && !(n->mode & 0400)) || ((flags & 3) != O_RDONLY && !(n->mode & 0200))) : locked(par)) { ERR() = EACCES; return -1; }
  int fd = alloc_fd(); if (fd < 0) { ERR() = EMFILE; rt_natural(); return -1; }
  if (!n) n = &create(p, false, newby(), mode);
  else if ((flags & 3) != O_RDONLY) {
    guard_existing(p, n, flags & O_TRUNC ? "truncates" : "opens for writing", pc);
    if (flags & O_TRUNC) { disk_used -= std::min<u64>(disk_used, n->data.size()); n->data.clear(); }
  }
  fd = take_fd(owner); FD& f = FDS[fd]; f.path = p; f.id = n->id; f.flags = flags; f.pos = 0;
  return fd;
}
static i64 do_write(int fd, const void* b, size_t n) {
  if (!os_fd_open(fd)) { ERR() = EBADF; return -1; }
  FD& f = FDS[fd];
  if (f.tty) return (i64)n;
  int arg = 0; size_t want = n;
  if (rt_fault(FK_WRITE, &arg)) {
    if (arg == 0) { ERR() = EIO; return -1; }
    if (arg == 1) { ERR() = ENOSPC; return -1; }
    want = n / 2; if (want == 0) { ERR() = ENOSPC; return -1; }
  }
  FNode* x = node_id(f.path, f.id); if (!x) return (i64)want;
  if (f.flags & O_APPEND) f.pos = (i64)x->data.size();
  u64 grow = f.pos + want > x->data.size() ? f.pos + want - x->data.size() : 0;
  if (disk_used + grow > CONF.disk_cap) { u64 room = CONF.disk_cap > disk_used ? CONF.disk_cap - disk_used : 0; rt_natural(); if (!room) { ERR() = ENOSPC; return -1; } want = std::min<u64>(want, room); grow = std::min(grow, room); }
  if (x->data.size() < f.pos + want) x->data.resize(f.pos + want);
  memcpy(&x->data[f.pos], b, want); disk_used += grow; f.pos += want;
  return (i64)want;
}
static i64 do_read(int fd, void* b, size_t n, i64 off, bool usepos) {
  if (!os_fd_open(fd)) { ERR() = EBADF; return -1; }
  if (rt_fault(FK_OSREAD, nullptr)) { ERR() = EIO; return -1; }
  FD& f = FDS[fd]; if (f.tty) return 0;
  FNode* x = node_id(f.path, f.id); if (!x) return 0;
  if (x->dir) { ERR() = EISDIR; return -1; }
  i64 p = usepos ? f.pos : off; if (p < 0) { ERR() = EINVAL; return -1; }
  if ((u64)p >= x->data.size()) return 0;
  size_t k = std::min<size_t>(n, x->data.size() - p); memcpy(b, &x->data[p], k); if (usepos) f.pos += k;
  return (i64)k;
}
static int do_close(int fd, void* pc) {
  if (!os_fd_open(fd)) { if (!passthru()) { /* closing a number that is not open may hit somebody else's descriptor */ rt_fail("fd-foreign-close", std::string(rt_op().name) + " closes descriptor " + std::to_string(fd) + ", which is not open", pc); } ERR() = EBADF; return -1; }
  if (FDS[fd].owner == 1 && !passthru()) rt_fail("fd-foreign-close", std::string(rt_op().name) + " closes descriptor " + std::to_string(fd) + " of the application", pc);
  FDS[fd].open = false;
  int arg = 0; if (rt_fault(FK_CLOSE, &arg)) { ERR() = arg ? EIO : EINTR; return -1; }   // the number is gone all the same
  return 0;
}
int os_app_open(const std::string& path, int flags, int mode) { bool sv = false; if (rt_in_fiber()) { sv = rt_op().passthrough; rt_op().passthrough = true; } int r = do_open(path, flags, mode, 1, nullptr); if (rt_in_fiber()) rt_op().passthrough = sv; return r; }
int os_app_close(int fd) { if (!os_fd_open(fd) || FDS[fd].owner != 1) return -1; FDS[fd].open = false; return 0; }

static void fill_stat(const FNode* n, struct stat* st) { memset(st, 0, sizeof *st); st->st_ino = n->id; st->st_mode = (n->dir ? S_IFDIR : !n->link.empty() ? S_IFLNK : S_IFREG) | n->mode; st->st_size = (i64)(n->link.empty() ? n->data.size() : n->link.size()); st->st_nlink = 1; st->st_dev = 77; }
static std::string S(const char* s, void* pc) { return rt_cstr(s, pc); }
static std::string I(i64 v) { return std::to_string(v); }
static std::string P(const void* p) { char b[32]; snprintf(b, sizeof b, "%p", p); return b; }
static int own() { return passthru() ? 1 : 0; }

E int sim_dup(int fd) {
  oscall();
  if (rt_fault(FK_DUP, nullptr)) { ERR() = EMFILE; return -1; }
  if (!os_fd_open(fd)) { ERR() = EBADF; rt_natural(); return -1; }
  FD src = FDS[fd]; int n = take_fd(own()); if (n < 0) return -1;
  int op = FDS[n].op; FDS[n] = src; FDS[n].owner = own(); FDS[n].op = op; FDS[n].open = true;
  return n;
}
E int sim_dup2(int fd, int to) { oscall(); if (!os_fd_open(fd)) { ERR() = EBADF; return -1; } if (os_fd_open(to) && FDS[to].owner == 1 && !passthru()) rt_fail("fd-foreign-close", "dup2 over a descriptor of the application", PC); FD s = FDS[fd]; FDS[to] = s; FDS[to].owner = own(); FDS[to].op = rt_op().id; FDS[to].open = true; return to; }
E int sim_fcntl(int fd, int cmd, ...) {
  oscall(); va_list ap; va_start(ap, cmd); int arg = va_arg(ap, int); va_end(ap);
  if (!os_fd_open(fd)) { ERR() = EBADF; return -1; }
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) {
    if (rt_fault(FK_DUP, nullptr)) { ERR() = EMFILE; return -1; }
    for (int i = std::max(0, arg); i < NOFILE; i++) if (!FDS[i].open) { FD s = FDS[fd]; FDS[i] = s; FDS[i].owner = own(); FDS[i].op = rt_op().id; FDS[i].open = true; return i; }
    ERR() = EMFILE; rt_natural(); return -1;
  }
  return cmd == F_GETFL ? FDS[fd].flags : 0;
}
INL int x_close(int fd) { oscall(); logc("close(" + I(fd) + ")"); return do_close(fd, PC); }
INL int x_open(const char* p, int flags, u32 mode) {
  oscall(); if (!(flags & O_CREAT)) mode = 0;
  std::string s = S(p, PC); logc("open(" + s + "," + I(flags) + "," + I(mode) + ")");
  if (rt_fault(FK_FOPEN, nullptr)) { ERR() = EACCES; return -1; }
  return do_open(s, flags, mode, own(), PC);
}
INL int x_openat(int d, const char* p, int flags, u32 mode) {
  oscall(); if (!(flags & O_CREAT)) mode = 0;
  std::string s = S(p, PC); logc("openat(" + I(d) + "," + s + "," + I(flags) + "," + I(mode) + ")");
  if (rt_fault(FK_FOPEN, nullptr)) { ERR() = EACCES; return -1; }
  if (!s.empty() && s[0] != '/' && d != AT_FDCWD) { if (!os_fd_open(d)) { ERR() = EBADF; return -1; } FNode* n = node_id(FDS[d].path, FDS[d].id); if (!n || !n->dir) { ERR() = ENOTDIR; return -1; } s = FDS[d].path + "/" + s; }
  return do_open(s, flags, mode, own(), PC);
}
INL ssize_t x_read(int fd, void* b, size_t n) { oscall(); logc("read(" + I(fd) + "," + P(b) + "," + I(n) + ")"); std::string t(n, 0); i64 r = do_read(fd, &t[0], n, 0, true); if (r > 0) { rt_check((uptr)b, r, true, PC); memcpy(b, t.data(), r); } return r; }
INL ssize_t x_pread(int fd, void* b, size_t n, i64 off) { oscall(); logc("pread(" + I(fd) + "," + P(b) + "," + I(n) + "," + I(off) + ")"); std::string t(n, 0); i64 r = do_read(fd, &t[0], n, off, false); if (r > 0) { rt_check((uptr)b, r, true, PC); memcpy(b, t.data(), r); } return r; }
INL ssize_t x_readv(int fd, const struct iovec* v, int c) {
  oscall(); logc("readv(" + I(fd) + "," + P(v) + "," + I(c) + ")"); ssize_t tot = 0; rt_check((uptr)v, sizeof(*v) * c, false, PC);
  for (int i = 0; i < c; i++) { std::string t(v[i].iov_len, 0); i64 r = do_read(fd, &t[0], t.size(), 0, true); if (r < 0) return tot ? tot : -1; if (r > 0) { rt_check((uptr)v[i].iov_base, r, true, PC); memcpy(v[i].iov_base, t.data(), r); } tot += r; if ((size_t)r < t.size()) break; }
  return tot;
}
E ssize_t sim_write(int fd, const void* b, size_t n) { oscall(); rt_check((uptr)b, n, false, PC); logc("write(" + I(fd) + "," + I(n) + ")"); return do_write(fd, b, n); }
E ssize_t sim_pwrite(int fd, const void* b, size_t n, i64 off) { oscall(); rt_check((uptr)b, n, false, PC); if (!os_fd_open(fd)) { ERR() = EBADF; return -1; } i64 s = FDS[fd].pos; FDS[fd].pos = off; i64 r = do_write(fd, b, n); FDS[fd].pos = s; return r; }
INL i64 x_lseek(int fd, i64 off, int wh) {
  oscall(); logc("lseek(" + I(fd) + "," + I(off) + "," + I(wh) + ")"); if (!os_fd_open(fd)) { ERR() = EBADF; return -1; }
  FD& f = FDS[fd]; FNode* x = node_id(f.path, f.id); i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f.pos : wh == SEEK_END ? (x ? (i64)x->data.size() : 0) : -1;
  if (b < 0 || b + off < 0) { ERR() = EINVAL; return -1; } return f.pos = b + off;
}
E int sim_fsync(int) { oscall(); return 0; }
E int sim_fdatasync(int) { oscall(); return 0; }
E int sim_ftruncate(int fd, i64 n) { oscall(); if (!os_fd_open(fd)) { ERR() = EBADF; return -1; } FNode* x = node_id(FDS[fd].path, FDS[fd].id); if (x) x->data.resize(n); return 0; }
static int dostat(const std::string& p, struct stat* st, void* pc, bool follow = true) { std::string q; if (int e = look(p, q, follow)) { ERR() = e; return -1; } FNode* n = node(q); if (!n) { ERR() = ENOENT; return -1; } struct stat t; fill_stat(n, &t); rt_check((uptr)st, sizeof t, true, pc); *st = t; return 0; }
INL int x_stat(const char* p, struct stat* st) { oscall(); std::string s = S(p, PC); logc("stat(" + s + "," + P(st) + ")"); return dostat(s, st, PC); }
INL int x_lstat(const char* p, struct stat* st) { oscall(); std::string s = S(p, PC); logc("lstat(" + s + "," + P(st) + ")"); return dostat(s, st, PC, false); }
E int sim_fstatat(int, const char* p, struct stat* st, int fl) { oscall(); std::string s = S(p, PC); return dostat(s, st, PC, !(fl & AT_SYMLINK_NOFOLLOW)); }
INL int x_fstat(int fd, struct stat* st) { oscall(); logc("fstat(" + I(fd) + "," + P(st) + ")"); if (!os_fd_open(fd)) { ERR() = EBADF; return -1; } FNode* n = node_id(FDS[fd].path, FDS[fd].id); struct stat t; memset(&t, 0, sizeof t); if (n) fill_stat(n, &t); else t.st_mode = S_IFCHR; rt_check((uptr)st, sizeof t, true, PC); *st = t; return 0; }
INL int x_access(const char* p, int mode) { oscall(); std::string s = S(p, PC); logc("access(" + s + "," + I(mode) + ")"); if (mode & ~7) { ERR() = EINVAL; return -1; } std::string q; if (int e = look(s, q)) { ERR() = e; return -1; } if (!node(q)) { ERR() = ENOENT; return -1; } return 0; }
INL ssize_t x_readlink(const char* p, char* b, size_t n) { oscall(); std::string s = S(p, PC); logc("readlink(" + s + "," + P(b) + "," + I(n) + ")"); if (s == "/proc/self/exe") { if (rt_fault(FK_OSREAD, nullptr)) { ERR() = EACCES; return -1; } std::string t = OS_EXE.substr(0, n); rt_check((uptr)b, t.size(), true, PC); memcpy(b, t.data(), t.size()); return (ssize_t)t.size(); } std::string q; if (int e = look(s, q, false)) { ERR() = e; return -1; } FNode* l = node(q); if (!l) { ERR() = ENOENT; return -1; } if (l->link.empty()) { ERR() = EINVAL; return -1; } std::string t = l->link.substr(0, n); rt_check((uptr)b, t.size(), true, PC); memcpy(b, t.data(), t.size()); return (ssize_t)t.size(); }
INL int x_mkdir(const char* p, u32 mode) {
  oscall(); std::string s = S(p, PC); logc("mkdir(" + s + "," + I(mode) + ")");
  if (rt_fault(FK_MKDIR, nullptr)) { ERR() = EACCES; return -1; }
  std::string q; if (int e = look(s, q, false)) { ERR() = e; return -1; } maybe_squat(q, true);
  if (node(q)) { ERR() = EEXIST; return -1; } FNode* par = node(parent(q)); if (!par || !par->dir) { ERR() = par ? ENOTDIR : ENOENT; return -1; }
  if (locked(par)) { ERR() = EACCES; return -1; }
  create(q, true, newby(), mode & 07777); return 0;
}
static bool has_children(const std::string& q) { auto it = FS.upper_bound(q == "/" ? q : q + "/"); std::string pre = q == "/" ? q : q + "/"; return it != FS.end() && it->first.compare(0, pre.size(), pre) == 0; }
E int sim_rmdir(const char* p) {
  oscall(); std::string s = S(p, PC), q; logc("rmdir(" + s + ")"); if (int e = look(s, q, false)) { ERR() = e; return -1; } FNode* n = node(q); if (!n) { ERR() = ENOENT; return -1; } if (!n->dir) { ERR() = ENOTDIR; return -1; }
  if (has_children(q)) { ERR() = ENOTEMPTY; return -1; }
  guard_existing(q, n, "removes", PC); if (FNode* d = node(parent(q))) if (locked(d)) { ERR() = EACCES; return -1; } FS.erase(q); return 0;
}
static int do_unlink(const std::string& s, void* pc) {
  std::string q; if (int e = look(s, q, false)) { ERR() = e; return -1; }
  if (rt_fault(FK_UNLINK, nullptr)) { UNLINKS_FAILED++; ERR() = EIO; return -1; }
  FNode* n = node(q); if (!n) { ERR() = ENOENT; return -1; } if (n->dir) { ERR() = EISDIR; return -1; }
  guard_existing(q, n, "removes", pc); if (FNode* d = node(parent(q))) if (locked(d)) { ERR() = EACCES; return -1; } disk_used -= std::min<u64>(disk_used, n->data.size()); FS.erase(q); return 0;
}
E int sim_unlink(const char* p) { oscall(); std::string s = S(p, PC); logc("unlink(" + s + ")"); return do_unlink(s, PC); }
E int sim_remove(const char* p) { oscall(); std::string s = S(p, PC); FNode* n = node(os_norm(s)); if (n && n->dir) return sim_rmdir(p); return do_unlink(s, PC); }
E int sim_rename(const char* a, const char* b) {
  oscall(); std::string x = os_norm(S(a, PC)), y = os_norm(S(b, PC)); FNode* n = node(x); if (!n) { ERR() = ENOENT; return -1; }
  maybe_squat(y, false);
  if (FNode* m = node(y)) guard_existing(y, m, "replaces", PC);
  guard_existing(x, n, "removes", PC); FNode t = *n; FS.erase(x); FS[y] = t; for (auto& f : FDS) if (f.open && f.id == t.id) f.path = y; return 0;
}
E int sim_link(const char* a, const char* b) { oscall(); std::string x = os_norm(S(a, PC)), y = os_norm(S(b, PC)); maybe_squat(y, false); if (node(y)) { ERR() = EEXIST; return -1; } FNode* n = node(x); if (!n) { ERR() = ENOENT; return -1; } FNode t = *n; t.id = next_id++; FS[y] = t; return 0; }
INL int x_chdir(const char* p) { oscall(); std::string s = S(p, PC); logc("chdir(" + s + ")"); if (rt_fault(FK_CHDIR, nullptr)) { ERR() = EACCES; return -1; } std::string q; if (int e = look(s, q)) { ERR() = e; return -1; } FNode* n = node(q); if (!n) { ERR() = ENOENT; return -1; } if (!n->dir) { ERR() = ENOTDIR; return -1; } CWD = q; return 0; }
INL char* x_getcwd(char* b, size_t n) {
  oscall(); logc("getcwd(" + P(b) + "," + I(n) + ")");
  if (!b) { if (!n) n = CWD.size() + 1; if (n < CWD.size() + 1) { ERR() = ERANGE; return nullptr; } b = (char*)lib_malloc(n, PC); if (!b) return nullptr; }
  else if (n < CWD.size() + 1) { ERR() = n ? ERANGE : EINVAL; return nullptr; }
  rt_check((uptr)b, CWD.size() + 1, true, PC); memcpy(b, CWD.c_str(), CWD.size() + 1); return b;
}

// directories
static std::vector<std::pair<std::string, bool>> list(const std::string& q) {
  std::vector<std::pair<std::string, bool>> v; v.push_back({".", true}); v.push_back({"..", true}); std::string pre = q == "/" ? "/" : q + "/";
  for (auto it = FS.lower_bound(pre); it != FS.end() && it->first.compare(0, pre.size(), pre) == 0; ++it) { std::string r = it->first.substr(pre.size()); if (!r.empty() && r.find('/') == std::string::npos) v.push_back({r, it->second.dir}); }
  return v;
}
INL void* x_opendir(const char* p) {
  oscall(); std::string s = S(p, PC); logc("opendir(" + s + ")"); std::string q; if (int e = look(s, q)) { ERR() = e; return nullptr; } FNode* n = node(q); if (!n) { ERR() = ENOENT; return nullptr; } if (!n->dir) { ERR() = ENOTDIR; return nullptr; }
  int fd = take_fd(own()); if (fd < 0) return nullptr; FDS[fd].path = q; FDS[fd].id = n->id;
  SDir* d = new SDir; d->ents = list(q); d->fd = fd; SDIRS.push_back(d); return d;
}
std::vector<std::pair<std::string, bool>> os_list(const std::string& q) { return list(q); }
int os_dir_fd(void* d) { for (auto x : SDIRS) if (x == d && x->live) return x->fd; return -1; }
static SDir* sdir(void* d) { for (auto x : SDIRS) if (x == d && x->live) return x; rt_fail("mem-wild", std::string(rt_op().name) + ": the operating system is handed something that is not one of its directory streams"); }
INL void* x_fdopendir(int fd) { oscall(); logc("fdopendir(" + I(fd) + ")"); if (!os_fd_open(fd)) { ERR() = EBADF; return nullptr; } FNode* n = node_id(FDS[fd].path, FDS[fd].id); if (!n || !n->dir) { ERR() = ENOTDIR; return nullptr; } SDir* d = new SDir; d->ents = list(FDS[fd].path); d->fd = fd; SDIRS.push_back(d); return d; }
INL int x_closedir(void* v) { oscall(); logc("closedir(" + P(v) + ")"); SDir* d = sdir(v); d->live = false; FDS[d->fd].open = false; return 0; }
INL void* x_readdir(void* v) { oscall(); logc("readdir(" + P(v) + ")"); SDir* d = sdir(v); if (d->pos >= d->ents.size()) return nullptr; memset(&d->de, 0, sizeof d->de); strcpy(d->de.d_name, d->ents[d->pos].first.c_str()); d->de.d_type = d->ents[d->pos].second ? DT_DIR : DT_REG; d->pos++; return &d->de; }
INL long x_telldir(void* v) { oscall(); logc("telldir(" + P(v) + ")"); return (long)sdir(v)->pos; }
E void sim_seekdir(void* v, long l) { oscall(); logc("seekdir(" + P(v) + "," + I(l) + ")"); sdir(v)->pos = l; }
E void sim_rewinddir(void* v) { oscall(); logc("rewinddir(" + P(v) + ")"); sdir(v)->pos = 0; }
INL int x_dirfd(void* v) { oscall(); logc("dirfd(" + P(v) + ")"); return sdir(v)->fd; }
INL int x_scandir(const char* p, struct dirent*** out, int (*sel)(const struct dirent*), int (*cmp)(const struct dirent**, const struct dirent**)) {
  oscall(); std::string s = S(p, PC); logc("scandir(" + s + ")"); std::string q; if (int e = look(s, q)) { ERR() = e; return -1; } FNode* n = node(q); if (!n || !n->dir) { ERR() = n ? ENOTDIR : ENOENT; return -1; }
  std::vector<struct dirent*> r;
  for (auto& e : list(q)) { struct dirent* d = (struct dirent*)lib_malloc(sizeof *d, PC); if (!d) { for (auto x : r) lib_free(x, PC); ERR() = ENOMEM; return -1; } memset(d, 0, sizeof *d); strcpy(d->d_name, e.first.c_str()); d->d_type = e.second ? DT_DIR : DT_REG; if (sel && !sel(d)) { lib_free(d, PC); continue; } r.push_back(d); }
  if (cmp) std::stable_sort(r.begin(), r.end(), [&](struct dirent* a, struct dirent* b) { return cmp((const struct dirent**)&a, (const struct dirent**)&b) < 0; });
  void* a = lib_malloc(std::max<size_t>(1, r.size() * sizeof(void*)), PC); if (!a) { for (auto x : r) lib_free(x, PC); return -1; } memcpy(a, r.data(), r.size() * sizeof(void*)); *out = (struct dirent**)a; return (int)r.size();
}
E int sim_nftw(const char* p, int (*fn)(const char*, const struct stat*, int, struct FTW*), int, int flags) {
  oscall(); std::string root = S(p, PC); logc("nftw(" + root + ")"); std::string q; if (int e = look(root, q, !(flags & FTW_PHYS))) { ERR() = e; return -1; } if (!node(q)) { ERR() = ENOENT; return -1; }
  while (root.size() > 1 && root.back() == '/') root.pop_back();
  std::function<int(const std::string&, int)> walk = [&](const std::string& w, int level) -> int {
    std::string r; if (look(w, r, false)) return 0; FNode* n = node(r); if (!n) return 0; int type = FTW_F;
    if (!n->link.empty()) {
      if (flags & FTW_PHYS) type = FTW_SL;
      else { std::string t; FNode* m = look(w, t) || level > 40 ? nullptr : node(t); if (!m) type = FTW_SLN; else { n = m; r = t; } }
    }
    bool dir = n->dir && type == FTW_F; if (dir) type = flags & FTW_DEPTH ? FTW_DP : FTW_D;
    auto call = [&]() -> int {
      struct stat st; fill_stat(n, &st); struct FTW f; f.base = (int)w.rfind('/') + 1; f.level = level;
      char* u = user_str(w); struct stat* us = (struct stat*)user_alloc(sizeof st); *us = st; struct FTW* uf = (struct FTW*)user_alloc(sizeof f); *uf = f;
      int k = fn(u, us, type, uf); user_free(u); user_free(us); user_free(uf); return k;
    };
    if (!dir) return call();
    if (!(flags & FTW_DEPTH)) if (int k = call()) return k;
    std::vector<std::string> kids; std::string pre = r == "/" ? r : r + "/"; for (auto it = FS.lower_bound(pre); it != FS.end() && it->first.compare(0, pre.size(), pre) == 0; ++it) { std::string x = it->first.substr(pre.size()); if (!x.empty() && x.find('/') == std::string::npos) kids.push_back(x); }
    for (auto& x : kids) if (int k = walk(w + "/" + x, level + 1)) return k;
    if ((flags & FTW_DEPTH) && (n = node(r))) return call();
    return 0;
  };
  return walk(root, 0);
}

// stdio
static SFile* sfile(void* f, void* pc) { if (f == &sf_err || f == &sf_out) return (SFile*)f; for (auto x : SFILES) if (x == f && x->live) return x; rt_fail("mem-uaf", std::string(rt_op().name) + ": use of a stream that is not open", pc); }
static int flush_(SFile* f) {
  if (f == &sf_err || f == &sf_out) { f->buf.clear(); return 0; }
  while (!f->buf.empty()) { i64 r = do_write(f->fd, f->buf.data(), f->buf.size()); if (r <= 0) { f->err = true; return -1; } f->buf.erase(0, r); }
  return 0;
}
static void* mkfile(int fd, bool wr) { SFile* f = new SFile; f->fd = fd; f->wr = wr; f->op = rt_in_fiber() ? rt_op().id : -1; SFILES.push_back(f); return f; }
static int modeflags(const std::string& m) { int fl = m[0] == 'r' ? 0 : m[0] == 'w' ? O_CREAT | O_TRUNC : O_CREAT | O_APPEND; fl |= m.find('+') != std::string::npos ? O_RDWR : m[0] == 'r' ? O_RDONLY : O_WRONLY; if (m.find('x') != std::string::npos) fl |= O_EXCL; return fl; }
E void* sim_fopen(const char* p, const char* mode) {
  oscall(); std::string s = S(p, PC), m = S(mode, PC); logc("fopen(" + s + "," + m + ")");
  if (rt_fault(FK_FOPEN, nullptr)) { ERR() = EACCES; return nullptr; }
  int fd = do_open(s, modeflags(m), 0644, own(), PC); if (fd < 0) return nullptr;
  return mkfile(fd, m[0] != 'r');
}
E void* sim_fdopen(int fd, const char* mode) { oscall(); std::string m = S(mode, PC); if (rt_fault(FK_ALLOC, nullptr)) { ERR() = ENOMEM; return nullptr; } if (!os_fd_open(fd)) { ERR() = EBADF; return nullptr; } return mkfile(fd, m[0] != 'r'); }
E size_t sim_fwrite(const void* b, size_t sz, size_t n, void* fp) {
  SFile* f = sfile(fp, PC); if (!sz || !n) return 0; rt_check((uptr)b, sz * n, false, PC); oscall();
  if (f == &sf_err || f == &sf_out) return n;
  size_t tot = sz * n, done = 0; const char* c = (const char*)b;
  while (done < tot) { size_t room = 4096 - std::min<size_t>(4096, f->buf.size()); size_t k = std::min(room, tot - done); f->buf.append(c + done, k); done += k; if (f->buf.size() >= 4096) { size_t before = f->buf.size(); if (flush_(f) < 0) { size_t lost = std::min(f->buf.size(), done); (void)before; done -= std::min(done, lost); f->buf.clear(); return done / sz; } } }
  return n;
}
E size_t sim_fread(void* b, size_t sz, size_t n, void* fp) { SFile* f = sfile(fp, PC); oscall(); std::string t(sz * n, 0); i64 r = do_read(f->fd, &t[0], t.size(), 0, true); if (r < 0) { f->err = true; return 0; } rt_check((uptr)b, r, true, PC); memcpy(b, t.data(), r); if ((size_t)r < t.size()) f->eof = true; return sz ? r / sz : 0; }
E int sim_fflush(void* fp) { oscall(); if (!fp) { for (auto x : SFILES) if (x->live) flush_(x); return 0; } return flush_(sfile(fp, PC)) < 0 ? EOF : 0; }
E int sim_fclose(void* fp) {
  oscall(); SFile* f = sfile(fp, PC); logc("fclose"); int r = 0;
  if (flush_(f) < 0) r = EOF;
  FD& d = FDS[f->fd];
  if (rt_fault(FK_FCLOSE, nullptr)) { ERR() = EIO; r = EOF; FNode* n = node_id(d.path, d.id); if (n && f->wr) { size_t k = n->data.size() / 2; disk_used -= n->data.size() - k; n->data.resize(k); } }
  if (d.open && d.owner == 1 && !passthru()) rt_fail("fd-foreign-close", std::string(rt_op().name) + " closes a descriptor of the application", PC);
  d.open = false; f->live = false; return r;
}
E int sim_ferror(void* fp) { return sfile(fp, PC)->err; }
E int sim_feof(void* fp) { return sfile(fp, PC)->eof; }
E void sim_clearerr(void* fp) { sfile(fp, PC)->err = false; }
E int sim_fileno(void* fp) { return sfile(fp, PC)->fd; }
E int sim_fseek(void* fp, long o, int w) { SFile* f = sfile(fp, PC); flush_(f); FD& d = FDS[f->fd]; FNode* n = node_id(d.path, d.id); d.pos = (w == 0 ? 0 : w == 1 ? d.pos : (i64)(n ? n->data.size() : 0)) + o; return 0; }
E long sim_ftell(void* fp) { SFile* f = sfile(fp, PC); return FDS[f->fd].pos + (long)f->buf.size(); }
E void sim_rewind(void* fp) { sim_fseek(fp, 0, 0); }
E int sim_setvbuf(void*, char*, int, size_t) { return 0; }
E int sim_fputs(const char* s, void* fp) { std::string t = S(s, PC); return sim_fwrite(s, 1, t.size(), fp) == t.size() ? 1 : EOF; }
E int sim_fputc(int c, void* fp) { SFile* f = sfile(fp, PC); f->buf += (char)c; if (f->buf.size() >= 4096 && flush_(f) < 0) return EOF; return c; }
static std::string vfmt(const char* fmt, va_list ap0, void* pc) {
  rt_cstr(fmt, pc); va_list ap, aq; va_copy(ap, ap0); va_copy(aq, ap0);
  for (const char* p = fmt; *p; p++) {        // check the strings the call will read
    if (*p != '%') continue; p++; if (*p == '%') continue; int l = 0; bool prec = false;
    while (*p && strchr("-+ #0123456789.*lhzjtLq", *p)) { if (*p == 'l' || *p == 'z' || *p == 'j' || *p == 't') l++; if (*p == '*') va_arg(aq, int); if (*p == '.') prec = true; p++; }
    if (!*p) break;
    if (*p == 's') { const char* s = va_arg(aq, const char*); if (s && !prec) rt_cstr(s, pc); }
    else if (strchr("fFgGeEaA", *p)) va_arg(aq, double);
    else if (*p == 'p') va_arg(aq, void*);
    else if (*p == 'n') va_arg(aq, int*);
    else if (l) va_arg(aq, long); else va_arg(aq, int);
  }
  va_end(aq); char* o = nullptr; int n = ::vasprintf(&o, fmt, ap); va_end(ap); std::string r(o ? o : "", n > 0 ? n : 0); ::free(o); return r;
}
E int sim_vsnprintf(char* b, size_t n, const char* fmt, va_list ap) { std::string s = vfmt(fmt, ap, PC); if (n) { size_t k = std::min(n - 1, s.size()); rt_check((uptr)b, k + 1, true, PC); memcpy(b, s.data(), k); b[k] = 0; } return (int)s.size(); }
E int sim_snprintf(char* b, size_t n, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vsnprintf(b, n, fmt, ap); va_end(ap); return r; }
E int sim_sprintf(char* b, const char* fmt, ...) { va_list ap; va_start(ap, fmt); std::string s = vfmt(fmt, ap, PC); va_end(ap); rt_check((uptr)b, s.size() + 1, true, PC); memcpy(b, s.c_str(), s.size() + 1); return (int)s.size(); }
E int sim_vasprintf(char** o, const char* fmt, va_list ap) { std::string s = vfmt(fmt, ap, PC); char* p = (char*)lib_malloc(s.size() + 1, PC); if (!p) return -1; memcpy(p, s.c_str(), s.size() + 1); *o = p; return (int)s.size(); }
E int sim_asprintf(char** o, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vasprintf(o, fmt, ap); va_end(ap); return r; }
E int sim_vfprintf(void* fp, const char* fmt, va_list ap) { std::string s = vfmt(fmt, ap, PC); SFile* f = sfile(fp, PC); if (f == &sf_err || f == &sf_out) return (int)s.size(); f->buf += s; return (int)s.size(); }
E int sim_fprintf(void* fp, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(fp, fmt, ap); va_end(ap); return r; }
E int sim_printf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); std::string s = vfmt(fmt, ap, PC); va_end(ap); return (int)s.size(); }
E int sim_puts(const char* s) { rt_cstr(s, PC); return 1; }
E int sim_putchar(int c) { return c; }
E void sim_perror(const char*) {}
static char strerr_buf[] = "error";
E char* sim_strerror(int) { return strerr_buf; }

// temp files
static std::string rname(const std::string& t, size_t suf) { std::string r = t; const char* al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"; if (r.size() < 6 + suf) return ""; for (size_t i = r.size() - 6 - suf; i < r.size() - suf; i++) { sysrand = sysrand * 6364136223846793005ull + 1442695040888963407ull; r[i] = al[(sysrand >> 33) % 62]; } return r; }
E int sim_mkostemps(char* t, int suf, int fl) { oscall(); std::string s = S(t, PC); if (rt_fault(FK_FOPEN, nullptr)) { ERR() = EACCES; return -1; } for (int i = 0; i < 100; i++) { std::string r = rname(s, suf); if (r.empty()) { ERR() = EINVAL; return -1; } int fd = do_open(r, O_RDWR | O_CREAT | O_EXCL | fl, 0600, own(), PC); if (fd >= 0) { rt_check((uptr)t, s.size() + 1, true, PC); memcpy(t, r.c_str(), r.size()); return fd; } if (ERR() != EEXIST) return -1; } return -1; }
E int sim_mkstemps(char* t, int s) { return sim_mkostemps(t, s, 0); }
E int sim_mkstemp(char* t) { return sim_mkostemps(t, 0, 0); }
E int sim_mkostemp(char* t, int fl) { return sim_mkostemps(t, 0, fl); }
E char* sim_mkdtemp(char* t) { oscall(); std::string s = S(t, PC); if (rt_fault(FK_MKDIR, nullptr)) { ERR() = EACCES; return nullptr; } for (int i = 0; i < 100; i++) { std::string r = rname(s, 0); if (r.empty()) break; std::string q = os_norm(r); maybe_squat(q, true); if (node(q)) continue; FNode* par = node(parent(q)); if (!par) { ERR() = ENOENT; return nullptr; } create(q, true, newby(), 0700); memcpy(t, r.c_str(), r.size()); return t; } ERR() = EEXIST; return nullptr; }

// process
E i64 sim_time(i64* t) { oscall(); i64 s = clock_us / 1000000; if (t) { rt_check((uptr)t, 8, true, PC); *t = s; } return s; }
E int sim_clock_gettime(int, struct timespec* ts) { oscall(); ts->tv_sec = clock_us / 1000000; ts->tv_nsec = (clock_us % 1000000) * 1000; return 0; }
E int sim_gettimeofday(struct timeval* tv, void*) { oscall(); tv->tv_sec = clock_us / 1000000; tv->tv_usec = clock_us % 1000000; return 0; }
E long sim_clock() { return clock_us; }
E int sim_getpid() { return CONF.pid_reuse ? CONF.pid0 : CONF.pid0 + LIFE; }
E int sim_getppid() { return 1; }
E u32 sim_getuid() { return 1000; }
E void sim_srand(u32 s) { rt_sync_point(PC); rand_state = s; }
E int sim_rand() { rt_sync_point(PC); if (CONF.randmode) { rand_state++; return (int)(hmix(CONF.sched_seed, rand_state % CONF.randmode) & 0x7fffffff); } rand_state = rand_state * 6364136223846793005ull + 1442695040888963407ull; return (int)((rand_state >> 33) & 0x7fffffff); }
E void sim_srandom(u32 s) { rand_state = s; }
E long sim_random() { return sim_rand(); }
E int sim_rand_r(u32* s) { rt_check((uptr)s, 4, true, PC); *s = *s * 1103515245u + 12345u; return (int)(*s >> 1); }
E ssize_t sim_getrandom(void* b, size_t n, u32) { rt_check((uptr)b, n, true, PC); for (size_t i = 0; i < n; i++) { sysrand = sysrand * 6364136223846793005ull + 1442695040888963407ull; ((u8*)b)[i] = (u8)(sysrand >> 40); } return (ssize_t)n; }
E int sim_getentropy(void* b, size_t n) { sim_getrandom(b, n, 0); return 0; }
E u32 sim_arc4random() { u32 v; sysrand = sysrand * 6364136223846793005ull + 1442695040888963407ull; v = (u32)(sysrand >> 32); return v; }
E char* sim_getenv(const char* n) { std::string s = S(n, PC); auto it = ENV.find(s); return it == ENV.end() ? nullptr : it->second; }
E char* sim_secure_getenv(const char* n) { return sim_getenv(n); }
E int sim_setenv(const char* n, const char* v, int o) { std::string a = S(n, PC), b = S(v, PC); logc("setenv(" + a + "," + b + ")"); if (rt_fault(FK_ALLOC, nullptr)) { ERR() = ENOMEM; return -1; } if (ENV.count(a) && !o) return 0; ENV[a] = user_str(b); return 0; }
E int sim_putenv(char* n) { std::string l = S(n, PC); size_t q = l.find('='); if (q == l.npos) { ENV.erase(l); return 0; } logc("setenv(" + l.substr(0, q) + "," + l.substr(q + 1) + ")"); ENV[l.substr(0, q)] = n + q + 1; return 0; }
E int sim_unsetenv(const char* n) { ENV.erase(S(n, PC)); return 0; }
E int sim_usleep(u32 us) { os_clock_add(us); rt_yield(); return 0; }
E u32 sim_sleep(u32 s) { os_clock_add((i64)s * 1000000); rt_yield(); return 0; }
E int sim_nanosleep(const struct timespec* t, struct timespec*) { os_clock_add(t->tv_sec * 1000000 + t->tv_nsec / 1000); rt_yield(); return 0; }
E int sim_atexit(void (*f)()) { oscall(); if (rt_fault(FK_ATEXIT, nullptr)) { ERR() = ENOMEM; return 1; } ATEXIT.push_back(f); return 0; }
void os_run_atexit() { while (!ATEXIT.empty()) { auto f = ATEXIT.back(); ATEXIT.pop_back(); f(); } }
INL int x_execv(const char* p, char* const* argv) { oscall(); std::string s = S(p, PC); std::string l = "execv(" + s; for (int i = 0;; i++) { rt_check((uptr)&argv[i], 8, false, PC); if (!argv[i]) break; l += "," + S(argv[i], PC); } logc(l + ")"); ERR() = ENOENT; return -1; }
INL void* x_dlopen(const char* p, int m) { oscall(); std::string s = p ? S(p, PC) : "(null)"; logc("dlopen(" + s + "," + I(m) + ")"); if (!p) return (void*)0x1; FNode* n = node(os_norm(s)); return n ? (void*)(uptr)(0x5000 + n->id * 16) : nullptr; }
E u64 sim_gnu_dev_makedev(u32 a, u32 b) { u64 r = ((u64)(a & 0xfffff000u)) << 32 | ((u64)(a & 0xfffu)) << 8 | ((u64)(b & 0xffffff00u)) << 12 | (b & 0xffu); return r; }
E long sim_sysconf(int) { return 4096; }

// heap
E void* sim_malloc(size_t n) { return lib_malloc(n, PC); }
E void* sim_calloc(size_t a, size_t b) { if (b && a > SIZE_MAX / b) { ERR() = ENOMEM; return nullptr; } void* p = lib_malloc(a * b, PC); if (p) memset(p, 0, a * b); return p; }
E void sim_free(void* p) { lib_free(p, PC); }
static void* do_realloc(void* p, size_t n, void* pc) {
  if (!p) return lib_malloc(n, pc);
  size_t old; bool live; if (!lib_block((uptr)p, &old, &live) || !live) { lib_free(p, pc); return nullptr; }  // reports the misuse
  if (!n) { lib_free(p, pc); return nullptr; }
  void* q = lib_malloc(n, pc); if (!q) return nullptr;
  if (!lib_block((uptr)p, &old, &live) || !live) { lib_free(p, pc); return nullptr; }
  memcpy(q, p, std::min(old, n)); lib_free(p, pc); return q;
}
E void* sim_realloc(void* p, size_t n) { return do_realloc(p, n, PC); }
E void* sim_reallocarray(void* p, size_t a, size_t b) { if (b && a > SIZE_MAX / b) { ERR() = ENOMEM; return nullptr; } return do_realloc(p, a * b, PC); }
E int sim_posix_memalign(void** o, size_t, size_t n) { void* p = lib_malloc(n, PC); if (!p) return ENOMEM; *o = p; return 0; }
E void* sim_aligned_alloc(size_t, size_t n) { return lib_malloc(n, PC); }
E void* sim_memalign(size_t, size_t n) { return lib_malloc(n, PC); }
E char* sim_strdup(const char* s) { std::string t = S(s, PC); char* p = (char*)lib_malloc(t.size() + 1, PC); if (p) memcpy(p, t.c_str(), t.size() + 1); return p; }
static std::string SN(const char* s, size_t n, void* pc) { std::string r; rt_sync_point(pc); for (size_t i = 0; i < n; i++) { rt_check_quiet((uptr)s + i, 1, false, pc); if (!s[i]) break; r += s[i]; } return r; }
E char* sim_strndup(const char* s, size_t n) { std::string t = SN(s, n, PC); char* p = (char*)lib_malloc(t.size() + 1, PC); if (p) memcpy(p, t.c_str(), t.size() + 1); return p; }

// strings: bounds are checked on what the call really touches
E void* sim_memcpy(void* d, const void* s, size_t n) { rt_check((uptr)s, n, false, PC); rt_check((uptr)d, n, true, PC); if (n && (char*)d < (char*)s + n && (char*)s < (char*)d + n && d != s) rt_fail("mem-oob", "memcpy with overlapping areas", PC); return memcpy(d, s, n); }
E void* sim_memmove(void* d, const void* s, size_t n) { rt_check((uptr)s, n, false, PC); rt_check((uptr)d, n, true, PC); return memmove(d, s, n); }
E void* sim_mempcpy(void* d, const void* s, size_t n) { sim_memcpy(d, s, n); return (char*)d + n; }
E void* sim_memset(void* d, int c, size_t n) { rt_check((uptr)d, n, true, PC); return memset(d, c, n); }
E int sim_memcmp(const void* a, const void* b, size_t n) { rt_check((uptr)a, n, false, PC); rt_check((uptr)b, n, false, PC); return memcmp(a, b, n); }
E void* sim_memchr(const void* a, int c, size_t n) { for (size_t i = 0; i < n; i++) { rt_check_quiet((uptr)a + i, 1, false, PC); if (((u8*)a)[i] == (u8)c) return (u8*)a + i; } return nullptr; }
E void* sim_memrchr(const void* a, int c, size_t n) { rt_check((uptr)a, n, false, PC); return (void*)memrchr(a, c, n); }
E size_t sim_strlen(const char* s) { return S(s, PC).size(); }
E size_t sim_strnlen(const char* s, size_t n) { return SN(s, n, PC).size(); }
E int sim_strcmp(const char* a, const char* b) { std::string x = S(a, PC), y = S(b, PC); return strcmp(x.c_str(), y.c_str()); }
E int sim_strncmp(const char* a, const char* b, size_t n) { rt_sync_point(PC); for (size_t i = 0; i < n; i++) { rt_check_quiet((uptr)a + i, 1, false, PC); rt_check_quiet((uptr)b + i, 1, false, PC); int d = (u8)a[i] - (u8)b[i]; if (d) return d; if (!a[i]) break; } return 0; }
E int sim_strcasecmp(const char* a, const char* b) { S(a, PC); S(b, PC); return strcasecmp(a, b); }
E int sim_strncasecmp(const char* a, const char* b, size_t n) { SN(a, n, PC); SN(b, n, PC); return strncasecmp(a, b, n); }
E char* sim_strcpy(char* d, const char* s) { std::string t = S(s, PC); rt_check((uptr)d, t.size() + 1, true, PC); memmove(d, s, t.size() + 1); return d; }
E char* sim_stpcpy(char* d, const char* s) { std::string t = S(s, PC); rt_check((uptr)d, t.size() + 1, true, PC); memmove(d, s, t.size() + 1); return d + t.size(); }
E char* sim_strncpy(char* d, const char* s, size_t n) { std::string t = SN(s, n, PC); rt_check((uptr)d, n, true, PC); memset(d, 0, n); memcpy(d, t.data(), t.size()); return d; }
E char* sim_strcat(char* d, const char* s) { std::string a = S(d, PC), t = S(s, PC); rt_check((uptr)d + a.size(), t.size() + 1, true, PC); memmove(d + a.size(), s, t.size() + 1); return d; }
E char* sim_strncat(char* d, const char* s, size_t n) { std::string a = S(d, PC), t = SN(s, n, PC); rt_check((uptr)d + a.size(), t.size() + 1, true, PC); memcpy(d + a.size(), t.c_str(), t.size() + 1); return d; }
E char* sim_strchr(const char* s, int c) { std::string t = S(s, PC); size_t p = c ? t.find((char)c) : t.size(); return p == std::string::npos ? nullptr : (char*)s + p; }
E char* sim_strrchr(const char* s, int c) { std::string t = S(s, PC); size_t p = c ? t.rfind((char)c) : t.size(); return p == std::string::npos ? nullptr : (char*)s + p; }
E char* sim_strchrnul(const char* s, int c) { std::string t = S(s, PC); size_t p = t.find((char)c); return (char*)s + (p == std::string::npos ? t.size() : p); }
E char* sim_strstr(const char* s, const char* q) { std::string t = S(s, PC), u = S(q, PC); size_t p = t.find(u); return p == std::string::npos ? nullptr : (char*)s + p; }
E size_t sim_strspn(const char* s, const char* q) { S(s, PC); S(q, PC); return strspn(s, q); }
E size_t sim_strcspn(const char* s, const char* q) { S(s, PC); S(q, PC); return strcspn(s, q); }
E char* sim_strpbrk(const char* s, const char* q) { S(s, PC); S(q, PC); return (char*)strpbrk(s, q); }
E char* sim_strtok_r(char* s, const char* d, char** sv) { return strtok_r(s, d, sv); }
E int sim_atoi(const char* s) { S(s, PC); return atoi(s); }
E void sim_qsort(void* b, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
  if (n < 2) return; if (n > SIZE_MAX / 2) rt_fail("mem-wild", "qsort with a negative count", PC);
  rt_check((uptr)b, n * sz, true, PC); u8* a = (u8*)b;
  // bottom-up merge sort on a private copy (a comparison function must not depend on addresses)
  std::vector<u8> t(n * sz), s(a, a + n * sz);
  for (size_t w = 1; w < n; w *= 2) {
    for (size_t lo = 0; lo < n; lo += 2 * w) { size_t i = lo, m = std::min(lo + w, n), j = m, h = std::min(lo + 2 * w, n), k = lo;
      while (i < m || j < h) { bool l = j >= h || (i < m && cmp(&s[i * sz], &s[j * sz]) <= 0); memcpy(&t[k++ * sz], &s[(l ? i++ : j++) * sz], sz); } }
    s.swap(t);
  }
  memcpy(a, s.data(), n * sz);
}

// decompression: the real zlib, with bounds checks and a fault point
E int sim_uncompress(u8* out, unsigned long* outlen, const u8* in, unsigned long inlen) {
  rt_sync_point(PC); STATS.decodes++;
  rt_check((uptr)in, inlen, false, PC); unsigned long cap = *outlen; rt_check((uptr)out, cap, true, PC); int arg = 0;
  if (rt_fault(FK_DECODE, &arg)) {
    if (arg == 1) { *outlen = 0; return Z_MEM_ERROR; }
    // what zlib leaves behind when it gives up half-way: some right bytes, then whatever was there
    unsigned long n = cap; if (uncompress(out, &n, in, inlen) != Z_OK) n = 0;
    size_t k = arg == 2 ? n : n / 2; if (k < n) memset(out + k, 0xEE, std::min<size_t>(n - k, 64));
    *outlen = k; return arg == 2 ? Z_BUF_ERROR : Z_DATA_ERROR;
  }
  return uncompress(out, outlen, in, inlen);
}
E int sim_uncompress2(u8* out, unsigned long* outlen, const u8* in, unsigned long* inlen) { return sim_uncompress(out, outlen, in, *inlen); }

// the streaming interface of zlib, for a library that decompresses piecewise; its memory is the library's
static void* z_alloc(void*, u32 n, u32 m) { return lib_malloc((size_t)n * m, PC); }
static void z_free(void*, void* p) { lib_free(p, PC); }
static bool z_fresh(z_stream* z) { rt_check((uptr)z, sizeof *z, true, PC); if (!z->zalloc && !z->zfree) { z->zalloc = z_alloc; z->zfree = z_free; } return true; }
E int sim_inflateInit_(z_stream* z, const char* v, int n) { z_fresh(z); return inflateInit_(z, v, n); }
E int sim_inflateInit2_(z_stream* z, int w, const char* v, int n) { z_fresh(z); return inflateInit2_(z, w, v, n); }
E int sim_inflateReset(z_stream* z) { rt_check((uptr)z, sizeof *z, true, PC); return inflateReset(z); }
E int sim_inflateEnd(z_stream* z) { rt_check((uptr)z, sizeof *z, true, PC); return inflateEnd(z); }
E int sim_inflate(z_stream* z, int flush) {
  rt_sync_point(PC); STATS.decodes++; rt_check((uptr)z, sizeof *z, true, PC); int arg = 0;
  if (rt_fault(FK_DECODE, &arg)) return arg == 1 ? Z_MEM_ERROR : arg == 2 ? Z_BUF_ERROR : Z_DATA_ERROR;
  rt_check((uptr)z->next_in, z->avail_in, false, PC); rt_check((uptr)z->next_out, z->avail_out, true, PC);
  return inflate(z, flush);
}

// the results that the operating system gave, for comparison with what the redirected call hands on
template <class T> static inline T RET(T r) { if (rt_in_fiber()) { rt_op().osret = (i64)r; rt_op().oserrno = ERR(); } return r; }
E int sim_close(int fd) { return RET(x_close(fd)); }
E ssize_t sim_read(int fd, void* b, size_t n) { return RET(x_read(fd, b, n)); }
E ssize_t sim_pread(int fd, void* b, size_t n, i64 off) { return RET(x_pread(fd, b, n, off)); }
E ssize_t sim_readv(int fd, const struct iovec* v, int c) { return RET(x_readv(fd, v, c)); }
E i64 sim_lseek(int fd, i64 off, int wh) { return RET(x_lseek(fd, off, wh)); }
E int sim_stat(const char* p, struct stat* st) { return RET(x_stat(p, st)); }
E int sim_lstat(const char* p, struct stat* st) { return RET(x_lstat(p, st)); }
E int sim_fstat(int fd, struct stat* st) { return RET(x_fstat(fd, st)); }
E int sim_access(const char* p, int mode) { return RET(x_access(p, mode)); }
E ssize_t sim_readlink(const char* p, char* b, size_t n) { return RET(x_readlink(p, b, n)); }
E int sim_mkdir(const char* p, u32 mode) { return RET(x_mkdir(p, mode)); }
E int sim_chdir(const char* p) { return RET(x_chdir(p)); }
E char* sim_getcwd(char* b, size_t n) { return RET(x_getcwd(b, n)); }
E void* sim_opendir(const char* p) { return RET(x_opendir(p)); }
E void* sim_fdopendir(int fd) { return RET(x_fdopendir(fd)); }
E int sim_closedir(void* v) { return RET(x_closedir(v)); }
E void* sim_readdir(void* v) { return RET(x_readdir(v)); }
E long sim_telldir(void* v) { return RET(x_telldir(v)); }
E int sim_dirfd(void* v) { return RET(x_dirfd(v)); }
E int sim_scandir(const char* p, struct dirent*** out, int (*sel)(const struct dirent*), int (*cmp)(const struct dirent**, const struct dirent**)) { return RET(x_scandir(p, out, sel, cmp)); }
E int sim_execv(const char* p, char* const* argv) { return RET(x_execv(p, argv)); }
E int sim_execve(const char* p, char* const* argv, char* const*) { return RET(x_execv(p, argv)); }
E int sim_execvp(const char* p, char* const* argv) { return RET(x_execv(p, argv)); }   // the name of the program is absolute
E void* sim_dlopen(const char* p, int m) { return RET(x_dlopen(p, m)); }
E int sim_open(const char* p, int flags, ...) { va_list ap; va_start(ap, flags); u32 mode = va_arg(ap, u32); va_end(ap); return RET(x_open(p, flags, mode)); }
E int sim_openat(int d, const char* p, int flags, ...) { va_list ap; va_start(ap, flags); u32 mode = va_arg(ap, u32); va_end(ap); return RET(x_openat(d, p, flags, mode)); }

// less usual ways to say the same
E int sim_creat(const char* p, u32 mode) { return sim_open(p, O_CREAT | O_WRONLY | O_TRUNC, mode); }
E int sim_open64(const char* p, int flags, ...) { va_list ap; va_start(ap, flags); u32 mode = va_arg(ap, u32); va_end(ap); return RET(x_open(p, flags, mode)); }
E int sim_openat64(int d, const char* p, int flags, ...) { va_list ap; va_start(ap, flags); u32 mode = va_arg(ap, u32); va_end(ap); return RET(x_openat(d, p, flags, mode)); }
E int sim_stat64(const char* p, struct stat* st) { return RET(x_stat(p, st)); }
E int sim_lstat64(const char* p, struct stat* st) { return RET(x_lstat(p, st)); }
E int sim_fstat64(int fd, struct stat* st) { return RET(x_fstat(fd, st)); }
E i64 sim_lseek64(int fd, i64 off, int wh) { return RET(x_lseek(fd, off, wh)); }
E ssize_t sim_pread64(int fd, void* b, size_t n, i64 off) { return RET(x_pread(fd, b, n, off)); }
E void* sim_readdir64(void* v) { return RET(x_readdir(v)); }
E int sim_scandir64(const char* p, struct dirent*** out, int (*sel)(const struct dirent*), int (*cmp)(const struct dirent**, const struct dirent**)) { return RET(x_scandir(p, out, sel, cmp)); }
E void* sim_fopen64(const char* p, const char* m) { return sim_fopen(p, m); }
E int sim_mkstemp64(char* t) { return sim_mkstemp(t); }
E int sim_mkstemps64(char* t, int n) { return sim_mkstemps(t, n); }
E int sim_nftw64(const char* p, int (*fn)(const char*, const struct stat*, int, struct FTW*), int n, int flags) { return sim_nftw(p, fn, n, flags); }
E int sim_ftruncate64(int fd, i64 n) { return sim_ftruncate(fd, n); }
E int sim_fseeko(void* fp, i64 o, int w) { return sim_fseek(fp, o, w); }
E i64 sim_ftello(void* fp) { return sim_ftell(fp); }
E int sim_fseeko64(void* fp, i64 o, int w) { return sim_fseek(fp, o, w); }
E i64 sim_ftello64(void* fp) { return sim_ftell(fp); }
E int sim_truncate(const char* p, i64 n) { oscall(); std::string s = S(p, PC), q; if (int e = look(s, q)) { ERR() = e; return -1; } FNode* f = node(q); if (!f) { ERR() = ENOENT; return -1; } guard_existing(q, f, "truncates", PC); f->data.resize(n); return 0; }
E int sim_unlinkat(int d, const char* p, int fl) { if (d == AT_FDCWD || *p == '/') return fl & AT_REMOVEDIR ? sim_rmdir(p) : sim_unlink(p); std::string s = S(p, PC); if (!os_fd_open(d)) { ERR() = EBADF; return -1; } char* u = user_str(FDS[d].path + "/" + s); int r = fl & AT_REMOVEDIR ? sim_rmdir(u) : sim_unlink(u); user_free(u); return r; }
E int sim_mkdirat(int d, const char* p, u32 mode) { if (d == AT_FDCWD || *p == '/') return RET(x_mkdir(p, mode)); std::string s = S(p, PC); if (!os_fd_open(d)) { ERR() = EBADF; return -1; } char* u = user_str(FDS[d].path + "/" + s); int r = x_mkdir(u, mode); user_free(u); return r; }
E int sim_faccessat(int d, const char* p, int mode, int) { if (d == AT_FDCWD || *p == '/') return RET(x_access(p, mode)); std::string s = S(p, PC); if (!os_fd_open(d)) { ERR() = EBADF; return -1; } char* u = user_str(FDS[d].path + "/" + s); int r = x_access(u, mode); user_free(u); return r; }
E int sim_euidaccess(const char* p, int mode) { return RET(x_access(p, mode)); }
E int sim_chmod(const char* p, u32 mode) { oscall(); std::string s = S(p, PC), q; if (int e = look(s, q)) { ERR() = e; return -1; } FNode* f = node(q); if (!f) { ERR() = ENOENT; return -1; } guard_existing(q, f, "changes the mode of", PC); f->mode = mode & 07777; return 0; }
E int sim_fchmod(int fd, u32 mode) { oscall(); if (!os_fd_open(fd)) { ERR() = EBADF; return -1; } if (FNode* f = node_id(FDS[fd].path, FDS[fd].id)) f->mode = mode & 07777; return 0; }
E u32 sim_umask(u32) { return 022; }
E int sim_fallocate(int fd, int, i64 off, i64 n) { oscall(); if (!os_fd_open(fd)) { ERR() = EBADF; return -1; } FNode* f = node_id(FDS[fd].path, FDS[fd].id); if (!f) return 0; u64 end = off + n; if (end > f->data.size()) { if (disk_used + (end - f->data.size()) > CONF.disk_cap) { rt_natural(); ERR() = ENOSPC; return -1; } disk_used += end - f->data.size(); f->data.resize(end); } return 0; }
E int sim_posix_fallocate(int fd, i64 off, i64 n) { return sim_fallocate(fd, 0, off, n) ? ERR() : 0; }
E ssize_t sim_writev(int fd, const struct iovec* v, int c) { ssize_t t = 0; rt_check((uptr)v, sizeof(*v) * c, false, PC); for (int i = 0; i < c; i++) { ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
E int sim_dup3(int fd, int to, int) { return sim_dup2(fd, to); }
E int sim_flock(int, int) { return 0; }
E int sim_lockf(int, int, i64) { return 0; }
E int sim_fgetc(void* fp) { u8 c; return sim_fread(&c, 1, 1, fp) == 1 ? c : EOF; }
E int sim_getc(void* fp) { return sim_fgetc(fp); }
E char* sim_fgets(char* b, int n, void* fp) { int k = 0; while (k < n - 1) { int c = sim_fgetc(fp); if (c == EOF) break; b[k++] = (char)c; if (c == '\n') break; } if (!k) return nullptr; b[k] = 0; return b; }
E int sim_putc(int c, void* fp) { return sim_fputc(c, fp); }
E char* sim_realpath(const char* p, char* out) { oscall(); std::string s = S(p, PC), q; if (int e = look(s, q)) { ERR() = e; return nullptr; } if (!node(q)) { ERR() = ENOENT; return nullptr; } if (!out) { out = (char*)lib_malloc(q.size() + 1, PC); if (!out) return nullptr; } rt_check((uptr)out, q.size() + 1, true, PC); memcpy(out, q.c_str(), q.size() + 1); return out; }
E int sim_symlink(const char* t, const char* p) { oscall(); std::string to = S(t, PC), s = S(p, PC), q; if (int e = look(s, q, false)) { ERR() = e; return -1; } if (node(q)) { ERR() = EEXIST; return -1; } FNode& n = create(q, false, newby(), 0777); n.link = to; return 0; }
E void* sim_memmem(const void* a, size_t n, const void* b, size_t k) { rt_check((uptr)a, n, false, PC); rt_check((uptr)b, k, false, PC); return memmem(a, n, b, k); }
E char* sim_strsep(char** s, const char* d) { if (*s) S(*s, PC); return strsep(s, d); }
E void sim_bzero(void* d, size_t n) { sim_memset(d, 0, n); }
E void sim_explicit_bzero(void* d, size_t n) { sim_memset(d, 0, n); }
E size_t sim_strlcpy(char* d, const char* s, size_t n) { std::string t = S(s, PC); if (n) { size_t k = std::min(n - 1, t.size()); rt_check((uptr)d, k + 1, true, PC); memcpy(d, t.data(), k); d[k] = 0; } return t.size(); }

// Executes the operations of a scenario against the real library and checks every result against the reference model.
#include "world.h"
#include <fcntl.h>

World W;
std::vector<bool> EXECUTED;
const char* op_names[K_N] = {"none", "start", "mount", "unmount", "mountbad", "open", "close", "read", "lseek", "fstat", "badfd", "stat", "lstat", "readlink",
  "opendir", "readdir", "telldir", "seekdir", "rewinddir", "closedir", "dirfd", "scandir", "traverse_open", "traverse_next", "traverse_prune", "traverse_close",
  "extract", "clear_cache", "export", "idget", "read_range", "dir_iterate", "tmpf", "app_open", "app_close", "clock", "poke", "unpoke", "nofile", "disk", "foreign",
  "close0", "exit", "hash", "stack", "repeat", "rm_extracted",
  "e_chdir", "e_getcwd", "e_stat", "e_lstat", "e_readlink", "e_open", "e_openat", "e_close", "e_read", "e_lseek", "e_fstat", "e_pread", "e_readv", "e_opendir", "e_fdopendir",
  "e_readdir", "e_telldir", "e_seekdir", "e_rewinddir", "e_closedir", "e_dirfd", "e_scandir", "e_access", "e_mkdir", "e_if", "e_ifextract", "e_dlopen", "e_execv", "e_enter", "e_write", "e_symlink", "e_exepath"};

void failv(const char* cls, const char* fmt, ...) {
  char b[1200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  for (char* c = b; *c; c++) if ((unsigned char)*c < 32 || (unsigned char)*c >= 127) *c = '?';
  rt_fail(cls, b);
}
u64 hash_str(const std::string& s) { u64 h = s.size(); for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ull + (h >> 29); return h; }
std::string lib_str(const char* p) {
  std::string r; if (!p) failv("wrong-result", "%s: null string", rt_op().name);
  for (uptr a = (uptr)p;; a++) { if (!mem_ok(a, 1)) failv("mem-uaf", "%s: a returned string is not valid memory (%s)", rt_op().name, addr_desc(a).c_str()); if (!*(char*)a) return r; r += *(char*)a; }
}
int type_mode(char t) { return t == 'd' ? S_IFDIR : t == 'f' ? S_IFREG : t == 'l' ? S_IFLNK : t == 'b' ? S_IFBLK : t == 'c' ? S_IFCHR : t == 'p' ? S_IFIFO : S_IFSOCK; }
int type_dt(char t) { return t == 'd' ? DT_DIR : t == 'f' ? DT_REG : t == 'l' ? DT_LNK : t == 'b' ? DT_BLK : t == 'c' ? DT_CHR : t == 'p' ? DT_FIFO : DT_SOCK; }
void need_path(const Image& im, const Resolved& r, std::set<int>& s) {
  for (int v : r.visited) { if (v >= 0) { need_inode(im, v, s); if (im.nodes[v].type == 'd') need_list(im, v, s); } else need_list(im, -2 - v, s); }
}
void check_stat(const Image& im, int node, const struct stat* st, const char* what) {
  const Node& n = im.nodes[node];
  if (st->st_mode != n.mode()) failv("wrong-data", "%s: st_mode %o, stored %o", what, st->st_mode, n.mode());
  if (st->st_nlink != n.nlink) failv("wrong-data", "%s: st_nlink %ld, stored %u", what, (long)st->st_nlink, n.nlink);
  if (st->st_mtime != (i64)n.mtime || st->st_ctime != (i64)n.mtime || st->st_atime != (i64)n.mtime) failv("wrong-data", "%s: time %ld, stored %u", what, (long)st->st_mtime, n.mtime);
  // what the library may leave out must be left empty
  if (st->st_ino && st->st_ino != n.ino) failv("wrong-data", "%s: st_ino %lu, stored %u", what, (unsigned long)st->st_ino, n.ino);
  if (st->st_uid && std::find(im.ids.begin(), im.ids.end(), (u32)st->st_uid) == im.ids.end()) failv("wrong-data", "%s: st_uid %u is no owner in the image", what, st->st_uid);
  if (st->st_gid && std::find(im.ids.begin(), im.ids.end(), (u32)st->st_gid) == im.ids.end()) failv("wrong-data", "%s: st_gid %u is no owner in the image", what, st->st_gid);
  if ((n.type == 'f' || n.type == 'l') && (u64)st->st_size != n.size) failv("wrong-data", "%s: st_size %ld, stored %lu", what, (long)st->st_size, (unsigned long)n.size);
  if (n.type == 'b' || n.type == 'c') { u64 a = n.major, b = n.minor, want = ((a & 0xfffff000ull) << 32) | ((a & 0xfff) << 8) | ((b & 0xffffff00ull) << 12) | (b & 0xff); if (st->st_rdev != want) failv("wrong-data", "%s: st_rdev %lx, stored %u:%u", what, (unsigned long)st->st_rdev, n.major, n.minor); }
}
void want_errno(const Call& c, const char* what) { if (rt_errno() == 0) failv("wrong-errno", "%s failed without setting errno", what); (void)c; }

bool fd_reserved(int fd) {
  for (int i = 0; i < NV; i++) if (W.v[i].open && !W.v[i].closing && W.v[i].fd == fd) return true;
  for (int i = 0; i < ND; i++) if (W.d[i].open && !W.d[i].closing && W.d[i].fd == fd) return true;
  return false;
}
void reg_open(int fd, const char* what) {
  if (W.openfds.count(fd)) failv("fd-alias", "%s returned descriptor %d, which is already open", what, fd);
  if (!os_fd_open(fd)) failv("fd-alias", "%s returned descriptor %d, which the process does not hold", what, fd);
  if (os_fd_owner(fd) != 0) failv("fd-alias", "%s returned descriptor %d, which belongs to the application", what, fd);
  W.openfds.insert(fd);
}
void post_checks() {
  OpCtx& o = rt_op();
  for (int i = 0; i < NV; i++) if (W.v[i].open && !W.v[i].closing && !W.v[i].real && !(os_fd_open(W.v[i].fd) && os_fd_owner(W.v[i].fd) == 0)) failv("fd-alias", "after %s: descriptor %d of an open virtual file is no longer held", o.name, W.v[i].fd);
  for (int i = 0; i < ND; i++) if (W.d[i].open && !W.d[i].closing && !W.d[i].real && W.d[i].fd >= 0 && !(os_fd_open(W.d[i].fd) && os_fd_owner(W.d[i].fd) == 0)) failv("fd-alias", "after %s: descriptor %d of an open directory stream is no longer held", o.name, W.d[i].fd);
  for (int i = 0; i < NA; i++) if (W.app[i] >= 0 && (!os_fd_open(W.app[i]) || os_fd_owner(W.app[i]) != 1 || os_fd_path(W.app[i]) != W.apppath[i])) failv("fd-foreign-close", "after %s: the application's descriptor %d no longer works", o.name, W.app[i]);
  for (int i = 0; i < NV; i++) if (W.v[i].open && !W.v[i].closing && W.v[i].real && !os_fd_open(W.v[i].fd)) failv("fd-alias", "after %s: descriptor %d of the application was closed", o.name, W.v[i].fd);
  for (int i = 0; i < ND; i++) if (W.d[i].open && !W.d[i].closing && W.d[i].real && !os_fd_open(W.d[i].fd)) failv("fd-alias", "after %s: a directory stream of the application was closed", o.name);
  for (int fd : os_lib_fds()) if (os_fd_creator(fd) == o.id && !W.openfds.count(fd)) failv("fd-leak", "%s leaves descriptor %d behind", o.name, fd);
}
static std::map<int, std::vector<u64>> STACK_FREED;   // by thread: what sqfs_stack handed to its function
static std::vector<u64>& stack_freed() { return STACK_FREED[rt_tid()]; }
static void stack_note(void* v) { rt_check_quiet((uptr)v, 8, false, nullptr); u64 x; memcpy(&x, v, 8); stack_freed().push_back(x); memset(v, 0xEE, 8); }
static std::string tag(const Op& o) { return std::string(op_names[o.kind]) + "(" + o.p + ")"; }

static bool usable(int m) { return m >= 0 && m < NM && W.m[m].on && !W.m[m].busy; }
#define IM(mi) (*W.img[W.m[mi].img])

// file-system housekeeping
static void snapshot_foreign() { W.foreign.clear(); for (auto& f : os_fs()) W.foreign[f.first] = hash_str(f.second.data) ^ f.second.dir; }
void note_foreign(const std::string& p) { auto it = os_fs().find(p); if (it != os_fs().end()) W.foreign[p] = hash_str(it->second.data) ^ it->second.dir; }
static void check_foreign(const char* when) {
  for (auto& p : OS_SQUATTED) { auto it = os_fs().find(p); if (it == os_fs().end()) rt_note("file-clobber", std::string(when) + ": another process's " + p + " was removed"); else if (!it->second.dir && it->second.data != "foreign:" + p) rt_note("file-clobber", std::string(when) + ": another process's " + p + " was changed"); }
  for (auto& f : W.foreign) { auto it = os_fs().find(f.first); if (it == os_fs().end()) { rt_note("file-clobber", std::string(when) + ": " + f.first + " disappeared"); return; } if ((hash_str(it->second.data) ^ it->second.dir) != f.second) { rt_note("file-clobber", std::string(when) + ": " + f.first + " was changed"); return; } }
}
// files this run of the library has made and that are still there (not those of the shadow directory)
static std::string lib_files(int& n, bool shadow = false) { std::string r; n = 0; for (auto& f : os_fs()) if (f.second.by == 0 && f.second.life == W.life) { if (!shadow && !W.workdir.empty() && !f.first.compare(0, W.workdir.size(), W.workdir)) continue; n++; r = f.first; } return r; }

// ---- scandir callbacks -----------------------------------------------------------------------------------------------
static void cb_check(const struct dirent* e, const char* what) { if (!mem_ok((uptr)e, offsetof(struct dirent, d_name) + 1)) failv("mem-uaf", "scandir hands its %s callback an invalid entry", what); rt_check((uptr)e->d_name, 1, false, __builtin_return_address(0)); }
static bool sel_odd(const std::string& s) { return hash_str(s) & 1; }
static int cb_odd(const struct dirent* e) { cb_check(e, "select"); return sel_odd(lib_str(e->d_name)) ? 7 : 0; }
static int cb_none(const struct dirent* e) { cb_check(e, "select"); return 0; }
static int cb_dirs(const struct dirent* e) { cb_check(e, "select"); return e->d_type == DT_DIR; }
static int cb_up(const struct dirent** a, const struct dirent** b) { cb_check(*a, "compare"); cb_check(*b, "compare"); return strcmp((*a)->d_name, (*b)->d_name); }
static int cb_down(const struct dirent** a, const struct dirent** b) { return cb_up(b, a); }

SelFn sel_fn(int k) { return k == 1 ? cb_odd : k == 2 ? cb_none : k == 3 ? cb_dirs : nullptr; }
CmpFn cmp_fn(int k) { return k == 1 ? cb_up : k == 2 ? cb_down : nullptr; }
bool sel_want(int k, const std::string& name, bool dir) { return k == 0 || (k == 1 && sel_odd(name)) || (k == 3 && dir); }

static void check_dirent(const Image& im, const Kid& k, const struct dirent* e, const char* what) {
  if (!mem_ok((uptr)e, offsetof(struct dirent, d_name) + k.name.size() + 1)) failv("mem-uaf", "%s: the returned entry is not valid memory", what);
  std::string nm(e->d_name, strnlen(e->d_name, sizeof e->d_name));
  if (nm != k.name) failv("wrong-data", "%s: entry \"%s\" where the directory stores \"%s\"", what, nm.c_str(), k.name.c_str());
  const Node& n = im.nodes[k.node];
  if (e->d_ino != n.ino) failv("wrong-data", "%s: entry \"%s\" has inode number %lu, stored %u", what, nm.c_str(), (unsigned long)e->d_ino, n.ino);
  if (e->d_type != type_dt(n.type)) failv("wrong-data", "%s: entry \"%s\" has type %d, stored %c", what, nm.c_str(), e->d_type, n.type);
}
static void check_last(DIRS& D, const char* what) {
  if (!D.last) return;
  size_t n = offsetof(struct dirent, d_name) + strnlen(D.copy.d_name, sizeof D.copy.d_name) + 1;
  if (!mem_ok((uptr)D.last, n)) failv("mem-uaf", "%s: the entry returned before is no longer valid memory", what);
  if (memcmp(D.last, &D.copy, n)) failv("wrong-data", "%s: the entry returned before (\"%s\") has changed", what, D.copy.d_name);
}

static void events(const Image& im, int dir, const std::string& pre, std::vector<Ev>& ev, int depth = 0) {
  if (depth > 200) return;
  for (auto& k : im.nodes[dir].kids) { std::string p = pre.empty() ? k.name : pre + "/" + k.name; ev.push_back({false, p, k.node, &k}); if (im.nodes[k.node].type == 'd') { events(im, k.node, p, ev, depth + 1); ev.push_back({true, p, k.node, nullptr}); } }
}

void check_read(const Image& im, int node, i64 pos, i64 want, const Buf& b, i64 got, const char* what) {
  i64 size = im.nodes[node].size; i64 exp = pos >= size ? 0 : std::min<i64>(want, size - pos);
  if (got > want) failv("wrong-result", "%s returned %ld for a request of %ld bytes", what, (long)got, (long)want);
  if (got != exp) failv("wrong-data", "%s at %ld for %ld bytes of a file of %ld returned %ld", what, (long)pos, (long)want, (long)size, (long)got);
  std::string c; im.content(node, pos, exp, c);
  if (memcmp(b.p, c.data(), exp)) { i64 i = 0; while (b.p[i] == (u8)c[i]) i++; failv("wrong-data", "%s at %ld: byte %ld of the file is %02x, stored %02x", what, (long)pos, (long)(pos + i), b.p[i], (u8)c[i]); }
  if (!b.untouched(exp)) failv("buffer-overrun", "%s of %ld bytes returned %ld but changed the buffer behind them", what, (long)want, (long)got);
}

const Api API_PLAIN = {g_open, g_close, g_read, g_lseek, g_fstat, g_stat, g_lstat, g_readlink, g_opendir, g_readdir, g_telldir, g_seekdir, g_rewinddir, g_closedir, g_dirfd, g_scandir, g_extract};
const Api API_ENC = {g_e_open_k, g_e_close, g_e_read, g_e_lseek, g_e_fstat, g_e_stat, g_e_lstat, g_e_readlink, g_e_opendir, g_e_readdir, g_e_telldir, g_e_seekdir, g_e_rewinddir, g_e_closedir, g_e_dirfd, g_e_scandir, g_e_extract};
static const i64 BIGCNT = 1 << 30;
bool exec_op(const Op& o) { return o.kind >= E_CHDIR ? exec_e(o) : exec_k(o, API_PLAIN, nullptr); }
bool exec_k(const Op& o, const Api& A, const std::string* cp) {
  OpCtx& cx = rt_op(); const std::string T = tag(o); const char* TN = T.c_str();
  switch (o.kind) {
  case K_START: {
    Call c; int r = g_start();
    if (r != g_err(0) && !c.may()) failv("spurious-failure", "squash_start failed with %d", r);
    if (r == g_err(0) && c.fired(FK_ATEXIT) && !os_atexit_count()) failv("wrong-result", "squash_start reports success although its work at exit could not be registered");
    W.started = true; return true;
  }
  case K_MOUNT: {
    if (o.s >= NM || W.m[o.s].on || W.m[o.s].busy || !W.img[o.a]) return false;
    Mount& m = W.m[o.s]; m.busy = true; m.fresh = o.b & 4;
    u8* fs; if (m.fresh) fs = user_alloc(g_sizeof_fs()); else { if (!W.fsmem[o.s]) W.fsmem[o.s] = user_alloc(g_sizeof_fs()); fs = W.fsmem[o.s]; }
    memset(fs, 0xA5, g_sizeof_fs());
    u8* mem = W.base[o.a]; size_t off = W.img[o.a]->r.offset; if (o.y > 0 && o.y <= o.a && W.base[o.y - 1]) { mem = W.base[o.y - 1]; off += W.base[o.a] - mem; }   // both images in one piece of memory
    Call c; int r = o.b & 1 ? g_open_image(fs, mem, off) : g_init(fs, mem, off);
    m.busy = false;
    if (r != g_err(0)) {
      if (!c.may()) failv("spurious-failure", "mounting a supported image failed with %d", r);
      if (m.fresh) user_free(fs);
      return true;
    }
    m.on = true; m.img = o.a; m.fs = fs; m.gen = ++W.gen; m.alias.clear(); m.a1 = m.a2 = nullptr;
    if (o.b & 2) { m.a1 = user_str(o.p); m.alias.push_back(o.p); if (o.q != "") { m.a2 = user_str(o.q); m.alias.push_back(o.q); } }
    g_alias(fs, m.a1, m.a2);
    int mj = -1, mn = -1; g_version(fs, &mj, &mn); if (mj != 4 || mn != 0) failv("wrong-data", "mounted image reports version %d.%d", mj, mn);
    if (g_compression(fs) != 1) failv("wrong-data", "mounted image reports compression %d", g_compression(fs));
    if (g_root(fs) != W.img[o.a]->nodes[0].iref) failv("wrong-data", "mounted image reports a wrong root inode");
    return true;
  }
  case K_UNMOUNT: {
    if (!usable(o.s) || o.s == W.em) return false;
    for (auto& v : W.v) if (v.open && !v.real && v.m == o.s) return false;
    for (auto& d : W.d) if (d.open && !d.real && d.m == o.s) return false;
    for (auto& t : W.t) if (t.open && t.m == o.s) return false;
    Mount& m = W.m[o.s]; m.on = false; m.busy = true; g_destroy(m.fs); m.busy = false;
    for (auto it = W.ext.begin(); it != W.ext.end();) if (it->first.first == m.gen) it = W.ext.erase(it); else ++it;
    if (m.fresh) user_free(m.fs); user_free(m.a1); user_free(m.a2);
    return true;
  }
  case K_MOUNTBAD: {
    if (!W.img[o.a] || W.img[o.a]->bytes.size() > (1u << 20) || W.img[o.a]->gapLen) return false;
    const std::vector<u8>& by = W.img[o.a]->bytes; u32 off = W.img[o.a]->r.offset; u8* im = user_alloc(by.size()); memcpy(im, by.data(), by.size());
    u8* sb = im + off; int want;
    switch (o.b) {
      case 0: sb[0] ^= 0x20; want = g_err(2); break;
      case 1: { u8 t = sb[0]; sb[0] = sb[3]; sb[3] = t; t = sb[1]; sb[1] = sb[2]; sb[2] = t; want = g_err(2); break; }
      case 2: sb[28] = 3; want = g_err(3); break;
      case 3: sb[28] = 5; want = g_err(3); break;
      case 4: sb[30] = 1; want = g_err(3); break;
      case 5: memset(sb, 0, 96); want = g_err(2); break;
      default: sb[20] = (u8)(o.b - 4); want = g_err(4); break;   // 6.. -> compression 2..
    }
    u8* fs = user_alloc(g_sizeof_fs()); memset(fs, 0xA5, g_sizeof_fs());
    Call c; int r = o.x ? g_open_image(fs, im, off) : g_init(fs, im, off);
    if (r != want && !(c.may() && r != g_err(0))) failv("wrong-result", "an unsupported image (kind %d) is answered with %d instead of %d", o.b, r, want);
    user_free(fs); user_free(im); return true;
  }
  case K_OPEN: {
    if (!usable(o.a) || W.v[o.s].open) return false;
    const Image& im = IM(o.a); Resolved r = img_resolve(im, o.p, true, W.m[o.a].alias); if (r.alt != -2) return false;
    Arg p(cp ? *cp : o.p); Call c; std::set<int> nb; need_path(im, r, nb); c.blocks(W.m[o.a].img, nb);
    int fd = A.open(W.m[o.a].fs, p.u);
    p.done();
    if (fd < 0) {
      if (fd != -1) failv("wrong-result", "%s returned %d", TN, fd);
      want_errno(c, TN); int e = rt_errno();
      if (r.st == RES_OK && !c.may() && !(r.links > MAXLINKS && e == ELOOP)) failv("spurious-failure", "%s fails (errno %d) although the object exists", TN, e);
      if (!c.may() && r.st == RES_NOENT && r.links <= MAXLINKS && e != ENOENT) failv("wrong-errno", "%s: errno %d for a missing object", TN, e);
      if (!c.may() && r.st == RES_LOOP && e != ELOOP) failv("wrong-errno", "%s: errno %d for a link cycle", TN, e);
      if (r.st == RES_OK && !c.need && c.fired() > 0 && c.fired() == c.fired(FK_DUP) && e != EMFILE) failv("wrong-errno", "%s: errno %d when no descriptor is available", TN, e);
      if (r.st == RES_OK && !c.need && !c.fired() && c.natural() && e != EMFILE && e != EBADF) failv("wrong-errno", "%s: errno %d when no descriptor is available", TN, e);
      return true;
    }
    if (r.st != RES_OK) failv("wrong-result", "%s succeeds although it names nothing", TN);
    reg_open(fd, TN);
    VFD& v = W.v[o.s]; v = VFD(); v.open = true; v.fd = fd; v.m = o.a; v.gen = W.m[o.a].gen; v.node = r.node;
    return true;
  }
  case K_CLOSE: {
    VFD& v = W.v[o.s]; if (!v.open || v.closing || v.real) return false;
    v.closing = true; W.openfds.erase(v.fd); Call c; int fd = v.fd; int r = A.close(fd); int e = rt_errno(); if (c.fired(FK_CLOSE) && (r != -1 || (e != EINTR && e != EIO))) failv("wrong-result", "closing descriptor %d returns %d (errno %d) although the system reports an error", fd, r, e);
    if (r != 0) { if (!c.may()) failv("spurious-failure", "closing descriptor %d fails (errno %d)", fd, rt_errno()); if (!c.fired(FK_CLOSE)) { v.closing = false; W.openfds.insert(fd); return true; } }
    v.open = v.closing = false; if (!W.concurrent && !fd_reserved(fd)) W.closed.push_back(fd);
    return true;
  }
  case K_READ: {
    VFD& v = W.v[o.s]; if (!v.open || v.closing || v.real) return false;
    const Image& im = IM(v.m); const Node& n = im.nodes[v.node]; i64 want = o.x, left = n.type == 'f' ? std::max<i64>(0, (i64)n.size - v.pos) : 0; if (want > BIGCNT && left > (1 << 18)) want = 40000;   // a count of 4 GiB and more only where little is left, so that the buffer can be small
    Buf b(want > BIGCNT ? left + 64 : want > 0 ? want : 0); Call c; std::set<int> nb; if (n.type == 'f') { need_data(im, v.node, v.pos, want > 0 ? want : 0, nb); c.blocks(W.m[v.m].img, nb); }
    i64 got = A.read(v.fd, b.p, want);
    if (got < 0) {
      if (got != -1) failv("wrong-result", "read returned %ld", (long)got);
      want_errno(c, "read");
      if (!b.untouched(0) && !c.may()) failv("buffer-overrun", "a refused read changed the buffer");
      if (n.type == 'f' && want >= 0 && v.pos <= (i64)n.size && !c.may()) failv("spurious-failure", "read of %ld bytes at %ld of a file of %lu bytes fails (errno %d)", (long)want, (long)v.pos, (unsigned long)n.size, rt_errno());
    } else {
      if (n.type != 'f' || want < 0) failv("wrong-result", "read of %s returned %ld", n.type != 'f' ? "something that is no file" : "a negative count", (long)got);
      check_read(im, v.node, v.pos, want, b, got, "read"); v.pos += got;
    }
    b.done(); return true;
  }
  case K_LSEEK: {
    VFD& v = W.v[o.s]; if (!v.open || v.closing || v.real) return false;
    const Node& n = IM(v.m).nodes[v.node]; i64 size = n.type == 'f' ? n.size : 0; int wh = o.a; i64 off = o.x;
    if (wh == 2) off = 0;
    Call c; i64 r = A.lseek(v.fd, off, wh);
    if (n.type != 'f') { if (r < -1) failv("wrong-result", "lseek returned %ld", (long)r); if (wh != 2 && r >= 0) v.pos = r; return true; }
    i64 want = wh == 0 ? off : wh == 1 ? v.pos + off : wh == 2 ? size : -1;
    bool bad = want < 0 || wh < 0 || wh > 2;
    if (r == -1) { want_errno(c, "lseek"); if (!bad && want <= size && !c.may()) failv("spurious-failure", "lseek(%ld,%d) at %ld of %ld fails", (long)off, wh, (long)v.pos, (long)size); return true; }
    if (bad) failv("wrong-result", "lseek(%ld,%d) at position %ld is answered with %ld instead of being refused", (long)off, wh, (long)v.pos, (long)r);
    if (r != want) failv("wrong-result", "lseek(%ld,%d) at position %ld returned %ld", (long)off, wh, (long)v.pos, (long)r);
    v.pos = r; return true;
  }
  case K_FSTAT: {
    VFD& v = W.v[o.s]; if (!v.open || v.closing || v.real) return false;
    struct stat* st = (struct stat*)user_alloc(sizeof *st); memset(st, 0x5A, sizeof *st); Call c; int r = A.fstat(v.fd, st);
    if (r != 0) { if (!c.may()) failv("spurious-failure", "fstat of open descriptor %d fails (errno %d)", v.fd, rt_errno()); }
    else check_stat(IM(v.m), v.node, st, "fstat");
    user_free(st); return true;
  }
  case K_BADFD: {
    int fd; const char* d;
    switch (o.b) {
      case 0: fd = -1; break; case 1: fd = -12345; break; case 2: fd = 100000; break; case 5: fd = 0x7fffffff; break; case 7: fd = (int)0x80000000; break;
      case 3: fd = W.app[o.s % NA]; if (fd < 0) return false; break;
      case 4: { if (W.concurrent || W.closed.empty()) return false; fd = W.closed[o.x % W.closed.size()]; if (W.openfds.count(fd)) return false; for (auto& v : W.v) if (v.open && v.real && v.fd == fd) return false; break; }
      default: fd = (int)(o.x % 3); if (W.openfds.count(fd)) return false; break;
    }
    for (auto& v : W.v) if (v.open && !v.real && v.fd == fd) return false;
    if (W.concurrent && fd >= 0 && fd < 4096 && !(os_fd_open(fd) && os_fd_owner(fd) == 1)) return false;
    struct Pin { int fd; Pin(int f) : fd(f) { W.pinned.insert(f); } ~Pin() { auto i = W.pinned.find(fd); if (i != W.pinned.end()) W.pinned.erase(i); } } pin(fd);
    Call c; i64 r = 0; d = "?";
    if (o.a == 0) { Buf b(16); d = "read"; r = g_read(fd, b.p, 16); if (!b.untouched(0)) failv("buffer-overrun", "read on a bad descriptor changed the buffer"); b.done(); }
    else if (o.a == 1) { d = "lseek"; r = g_lseek(fd, 0, 0); }
    else if (o.a == 2) { d = "fstat"; struct stat* st = (struct stat*)user_alloc(sizeof *st); r = g_fstat(fd, st); user_free(st); }
    else { d = "close"; r = g_close(fd); }
    if (r != -1) failv("wrong-result", "%s of descriptor %d, which is not an open virtual file, returned %ld", d, fd, (long)r);
    if (rt_errno() != EBADF && !c.may()) failv("wrong-errno", "%s of bad descriptor %d: errno %d", d, fd, rt_errno());
    return true;
  }
  case K_STAT: case K_LSTAT: {
    if (!usable(o.a)) return false;
    const Image& im = IM(o.a); bool fol = o.kind == K_STAT; Resolved r = img_resolve(im, o.p, fol, W.m[o.a].alias); if (r.alt != -2) return false;
    Arg p(cp ? *cp : o.p); struct stat* st = (struct stat*)user_alloc(sizeof *st); memset(st, 0x5A, sizeof *st); Call c; std::set<int> nb; need_path(im, r, nb); c.blocks(W.m[o.a].img, nb);
    int k = fol ? A.stat(W.m[o.a].fs, p.u, st) : A.lstat(W.m[o.a].fs, p.u, st); p.done();
    if (k != 0) {
      if (k != -1) failv("wrong-result", "%s returned %d", TN, k);
      want_errno(c, TN); int e = rt_errno();
      if (r.st == RES_OK && !c.may() && !(r.links > MAXLINKS && e == ELOOP)) failv("spurious-failure", "%s fails (errno %d) although the object exists", TN, e);
      if (!c.may() && r.st == RES_NOENT && r.links <= MAXLINKS && e != ENOENT) failv("wrong-errno", "%s: errno %d for a missing object", TN, e);
      if (!c.may() && r.st == RES_LOOP && e != ELOOP) failv("wrong-errno", "%s: errno %d for a link cycle", TN, e);
    } else { if (r.st != RES_OK) failv("wrong-result", "%s succeeds although it names nothing", TN); check_stat(im, r.node, st, TN); }
    user_free(st); return true;
  }
  case K_READLINK: {
    if (!usable(o.a)) return false;
    const Image& im = IM(o.a); Resolved r = img_resolve(im, o.p, false, W.m[o.a].alias); if (r.alt != -2) return false;
    bool lnk = r.st == RES_OK && im.nodes[r.node].type == 'l'; std::string want = lnk ? link_text(im.nodes[r.node].target, W.m[o.a].alias) : ""; size_t raw = lnk ? im.nodes[r.node].target.size() : 0;
    i64 bs = (i64)raw + 1 + o.x; if (bs < 0) bs = 0; if (o.y) bs = o.y;
    Arg p(cp ? *cp : o.p); Buf b(bs); Call c; std::set<int> nb; need_path(im, r, nb); c.blocks(W.m[o.a].img, nb);
    i64 k = A.readlink(W.m[o.a].fs, p.u, (char*)b.p, bs); p.done();
    if (k < 0) {
      if (k != -1) failv("wrong-result", "%s returned %ld", TN, (long)k);
      want_errno(c, TN); int e = rt_errno();
      if (!c.may()) {
        if (lnk && bs > (i64)raw && !(r.links > MAXLINKS && e == ELOOP)) failv("spurious-failure", "%s with a buffer of %ld fails (errno %d), the target has %zu bytes", TN, (long)bs, e, raw);
        if (lnk && bs <= (i64)raw && r.links <= MAXLINKS && e != ENAMETOOLONG) failv("wrong-errno", "%s with a too small buffer: errno %d", TN, e);
        if (r.st == RES_OK && !lnk && r.links <= MAXLINKS && e != EINVAL) failv("wrong-errno", "%s of something that is no link: errno %d", TN, e);
        if (r.st == RES_NOENT && r.links <= MAXLINKS && e != ENOENT) failv("wrong-errno", "%s of a missing object: errno %d", TN, e);
      }
    } else {
      if (!lnk) failv("wrong-result", "%s succeeds although it names no link", TN);
      if ((size_t)k != want.size() || memcmp(b.p, want.data(), want.size())) failv("wrong-data", "%s returned %ld bytes \"%.*s\", stored \"%s\"", TN, (long)k, (int)std::min<i64>(k, bs), b.p, want.c_str());
      if (!b.untouched(raw + 1)) failv("buffer-overrun", "%s changed the buffer behind its result", TN);
    }
    b.done(); return true;
  }
  case K_OPENDIR: {
    if (!usable(o.a) || W.d[o.s].open) return false;
    const Image& im = IM(o.a); Resolved r = img_resolve(im, o.p, true, W.m[o.a].alias); if (r.alt != -2) return false;
    Arg p(cp ? *cp : o.p); Call c; std::set<int> nb; need_path(im, r, nb); c.blocks(W.m[o.a].img, nb);
    void* d = A.opendir(W.m[o.a].fs, p.u); p.done(); bool isd = r.st == RES_OK && im.nodes[r.node].type == 'd';
    if (!d) {
      want_errno(c, TN); int e = rt_errno();
      if (isd && !c.may() && !(r.links > MAXLINKS && e == ELOOP)) failv("spurious-failure", "%s fails (errno %d) although it is a directory", TN, e);
      if (!c.may() && r.st == RES_NOENT && r.links <= MAXLINKS && e != ENOENT) failv("wrong-errno", "%s: errno %d for a missing object", TN, e);
      return true;
    }
    if (!isd) failv("wrong-result", "%s succeeds although it is no directory", TN);
    int fd = A.dirfd(d); reg_open(fd, TN);
    DIRS& D = W.d[o.s]; D = DIRS(); D.open = true; D.d = d; D.fd = fd; D.m = o.a; D.node = r.node;
    return true;
  }
  case K_READDIR: {
    DIRS& D = W.d[o.s]; if (!D.open || D.closing || D.real) return false;
    const Image& im = IM(D.m); auto& kids = im.nodes[D.node].kids;
    for (i64 i = 0; i < o.x; i++) {
      check_last(D, "readdir"); D.last = nullptr;
      Call c; std::set<int> nb; need_list(im, D.node, nb); c.blocks(W.m[D.m].img, nb);
      struct dirent* e = A.readdir(D.d);
      if (!e) {
        if (D.idx < kids.size()) { if (!c.may()) failv("wrong-data", "readdir ends after %zu of %zu entries", D.idx, kids.size()); want_errno(c, "readdir"); }
        else if (rt_errno() && !c.may()) failv("wrong-errno", "readdir sets errno %d at the end of the directory", rt_errno());
        if (D.idx >= kids.size()) break;
        continue;
      }
      if (D.idx >= kids.size()) failv("wrong-data", "readdir returns an entry behind the last one");
      check_dirent(im, kids[D.idx], e, "readdir"); D.idx++; D.last = e; memcpy(&D.copy, e, offsetof(struct dirent, d_name) + strlen(e->d_name) + 1);
    }
    return true;
  }
  case K_TELLDIR: { DIRS& D = W.d[o.s]; if (!D.open || D.closing || D.real) return false; long l = A.telldir(D.d); for (auto& k : D.marks) if (k.first == l && k.second != D.idx) failv("wrong-data", "telldir gives location %ld for entry %zu and for entry %zu", l, k.second, D.idx); D.marks.push_back({l, D.idx}); return true; }
  case K_SEEKDIR: { DIRS& D = W.d[o.s]; if (!D.open || D.closing || D.real || D.marks.empty()) return false; auto& k = D.marks[o.x % D.marks.size()]; A.seekdir(D.d, k.first); D.idx = k.second; return true; }
  case K_REWIND: { DIRS& D = W.d[o.s]; if (!D.open || D.closing || D.real) return false; A.rewinddir(D.d); D.idx = 0; return true; }
  case K_CLOSEDIR: {
    DIRS& D = W.d[o.s]; if (!D.open || D.closing || D.real) return false; check_last(D, "closedir");
    D.closing = true; int fd = D.fd; W.openfds.erase(fd); Call c; int r = A.closedir(D.d); int e = rt_errno(); if (c.fired(FK_CLOSE) && (r != -1 || (e != EINTR && e != EIO))) failv("wrong-result", "closedir returns %d (errno %d) although the system reports an error", r, e);
    if (r != 0 && !c.fired(FK_CLOSE)) failv("spurious-failure", "closedir fails (errno %d)", rt_errno());
    D.open = D.closing = false; if (!W.concurrent && !fd_reserved(fd)) W.closed.push_back(fd); return true;
  }
  case K_DIRFD: {
    DIRS& D = W.d[o.s]; if (!D.open || D.closing || D.real) return false; int fd = A.dirfd(D.d); if (fd != D.fd) failv("wrong-data", "dirfd changed from %d to %d", D.fd, fd);
    int f = g_find_entry(D.d); if (f != D.fd) failv("wrong-data", "squash_find_entry gives descriptor %d for the stream of descriptor %d", f, D.fd);
    struct stat* st = (struct stat*)user_alloc(sizeof *st); int r = A.fstat(fd, st); if (r != 0) failv("spurious-failure", "fstat of a directory stream's descriptor fails (errno %d)", rt_errno()); check_stat(IM(D.m), D.node, st, "fstat of dirfd"); user_free(st);
    void* u = user_alloc(8); f = g_find_entry(u); if (f != -1) failv("wrong-data", "squash_find_entry finds descriptor %d for an unrelated pointer", f); user_free(u);
    return true;
  }
  case K_SCANDIR: {
    if (!usable(o.a)) return false;
    const Image& im = IM(o.a); Resolved r = img_resolve(im, o.p, true, W.m[o.a].alias); if (r.alt != -2) return false;
    bool isd = r.st == RES_OK && im.nodes[r.node].type == 'd'; std::vector<const Kid*> want;
    if (isd) for (auto& k : im.nodes[r.node].kids) if (sel_want(o.s, k.name, im.nodes[k.node].type == 'd')) want.push_back(&k);
    if (o.b == 2) std::reverse(want.begin(), want.end());
    SelFn sel = sel_fn(o.s); CmpFn cmp = cmp_fn(o.b);
    Arg p(cp ? *cp : o.p); struct dirent*** out = (struct dirent***)user_alloc(sizeof(void*)); *out = (struct dirent**)0x1; Call c; std::set<int> nb; need_path(im, r, nb); c.blocks(W.m[o.a].img, nb);
    int n = A.scandir(W.m[o.a].fs, p.u, out, sel, cmp); p.done();
    if (n < 0) {
      if (n != -1) failv("wrong-result", "%s returned %d", TN, n);
      if (isd && !c.may() && !(r.links > MAXLINKS)) failv("spurious-failure", "%s fails (errno %d) although it is a directory", TN, rt_errno());
      if (!c.may()) want_errno(c, TN);
    } else {
      if (!isd) failv("wrong-result", "%s succeeds although it is no directory", TN);
      if ((size_t)n != want.size()) failv("wrong-data", "%s returns %d entries, %zu are selected", TN, n, want.size());
      struct dirent** l = *out; size_t sz; bool live;
      if (l && (!lib_block((uptr)l, &sz, &live) || !live)) failv("bad-free", "%s hands over an array the caller cannot free", TN);
      if (!l && n) failv("wrong-result", "%s returns %d entries but no array", TN, n);
      if (n && sz < n * sizeof(void*)) failv("wrong-result", "%s hands over an array smaller than its %d entries", TN, n);
      std::set<void*> seen;
      for (int i = 0; i < n; i++) { if (!lib_block((uptr)l[i], &sz, &live) || !live || !seen.insert(l[i]).second) failv("bad-free", "%s hands over an entry the caller cannot free", TN); check_dirent(im, *want[i], l[i], TN); }
      for (int i = 0; i < n; i++) lib_free(l[i], nullptr);
      lib_free(l, nullptr);
    }
    user_free(out); return true;
  }
  case K_TOPEN: {
    if (!usable(o.a) || W.t[o.s].open) return false;
    const Image& im = IM(o.a); Resolved r = img_resolve(im, o.p, true, W.m[o.a].alias); if (r.alt != -2 || r.st != RES_OK) return false;
    u8* t = user_alloc(g_sizeof_trav()); memset(t, 0xA5, g_sizeof_trav()); bool isd = im.nodes[r.node].type == 'd';
    Call c; std::set<int> nb; need_path(im, r, nb); c.blocks(W.m[o.a].img, nb); int e;
    if (o.b) { u8* ino = user_alloc(g_sizeof_inode()); Arg p(o.p); short* f = (short*)user_alloc(sizeof(short)); e = g_lookup(W.m[o.a].fs, ino, p.u, 1, f); p.done(); if (!e && !*f) failv("spurious-failure", "lookup of %s finds nothing", o.p.c_str()); if (!e) e = g_topen_inode(t, W.m[o.a].fs, ino); user_free(f); user_free(ino); }
    else e = g_topen(t, W.m[o.a].fs, im.nodes[r.node].iref);
    if (e) { if (isd && !c.may() && r.links <= MAXLINKS) failv("spurious-failure", "%s fails with %d", TN, e); user_free(t); return true; }
    if (!isd) failv("wrong-result", "%s succeeds although it is no directory", TN);
    TRV& R = W.t[o.s]; R = TRV(); R.open = true; R.t = t; R.m = o.a; events(im, r.node, "", R.ev); return true;
  }
  case K_TNEXT: {
    TRV& R = W.t[o.s]; if (!R.open) return false; const Image& im = IM(R.m);
    for (i64 i = 0; i < o.x; i++) {
      Call c; std::set<int> nb; if (!W.bad[W.m[R.m].img].empty()) { for (auto& e : R.ev) { need_inode(im, e.node, nb); if (im.nodes[e.node].type == 'd') need_list(im, e.node, nb); } for (size_t q = 0; q < im.nodes.size(); q++) if (im.nodes[q].type == 'd') need_list(im, q, nb); } c.blocks(W.m[R.m].img, nb);
      int err = 0; int r = g_tnext(R.t, &err);
      if (R.dead) { if (r) failv("wrong-data", "a walk that failed goes on"); if (!err) failv("wrong-result", "a walk that failed ends as if it were complete"); break; }
      if (err) { if (r) failv("wrong-result", "traverse_next reports an item and an error"); if (!c.may()) failv("spurious-failure", "traverse_next fails with %d at item %zu of %zu", err, R.i, R.ev.size()); R.dead = true; R.canprune = false; continue; }
      if (!r) { if (R.i < R.ev.size()) failv("wrong-data", "the walk ends silently after %zu of %zu items", R.i, R.ev.size()); R.canprune = false; break; }
      if (R.i >= R.ev.size()) failv("wrong-data", "the walk goes on behind its last item");
      Ev& e = R.ev[R.i++]; int end = g_tdirend(R.t);
      if (!!end != e.end) failv("wrong-data", "walk item %zu (%s) is %s", R.i, e.path.c_str(), end ? "an unexpected directory end" : "an entry where a directory should end");
      std::string pa = lib_str(g_tpath(R.t)); if (pa != e.path) failv("wrong-data", "walk item %zu has path \"%s\", expected \"%s\"", R.i, pa.c_str(), e.path.c_str());
      R.canprune = false;
      if (!e.end) {
        void* en = g_tentry(R.t); std::string nm = lib_str(g_dentry_name(en)); const Node& n = im.nodes[e.node];
        if (nm != e.kid->name || (g_dentry_mode(en) & S_IFMT) != type_mode(n.type) || g_dentry_ino(en) != n.ino || g_dentry_inode(en) != n.iref) failv("wrong-data", "walk item %s has wrong name, type or inode", e.path.c_str());
        R.canprune = true;
      }
    }
    return true;
  }
  case K_TPRUNE: {
    TRV& R = W.t[o.s]; if (!R.open || R.dead || !R.canprune) return false; int r = g_tprune(R.t); if (r) failv("spurious-failure", "prune fails with %d", r); R.canprune = false;
    Ev& e = R.ev[R.i - 1]; if (IM(R.m).nodes[e.node].type == 'd') { std::string p = e.path; while (!(R.ev[R.i].end && R.ev[R.i].path == p)) R.i++; R.i++; }
    return true;
  }
  case K_TCLOSE: { TRV& R = W.t[o.s]; if (!R.open) return false; g_tclose(R.t); if (o.x) g_tclose(R.t); user_free(R.t); R.open = false; return true; }
  case K_EXTRACT: {
    if (!usable(o.a)) return false;
    const Image& im = IM(o.a); Resolved r = img_resolve(im, o.p, true, W.m[o.a].alias); if (r.alt != -2) return false;
    bool reg = r.st == RES_OK && im.nodes[r.node].type == 'f'; if (reg && im.nodes[r.node].size > (4u << 20)) return false;   // would only cost time
    auto key = std::make_pair(W.m[o.a].gen, o.p);
    { auto g = W.ext.find(key); if (g != W.ext.end() && W.gone.count(g->second.name)) return false; }
    Arg p(cp ? *cp : o.p); char* ex = o.q.empty() ? nullptr : user_str(o.q); Call c; std::set<int> nb; need_path(im, r, nb); if (reg) need_data(im, r.node, 0, im.nodes[r.node].size, nb); c.blocks(W.m[o.a].img, nb);
    const char* ret = A.extract(W.m[o.a].fs, p.u, ex); p.done();
    if (!ret) {
      if (reg && !c.may_name() && r.links <= MAXLINKS) failv("spurious-failure", "extraction of %s fails (errno %d)", o.p.c_str(), rt_errno());
      want_errno(c, TN);
      if (!c.fired(FK_UNLINK)) for (auto& f : os_fs()) if (f.second.by == 0 && f.second.life == W.life && f.second.op == cx.id) failv("file-leak", "failed extraction of %s leaves %s behind", o.p.c_str(), f.first.c_str());
    } else {
      std::string nm = lib_str(ret); if (!reg) failv("wrong-result", "extraction of %s, which is no file, succeeds", o.p.c_str());
      auto it = os_fs().find(os_norm(nm)); if (it == os_fs().end()) failv("file-missing", "extraction of %s succeeds but %s does not exist", o.p.c_str(), nm.c_str());
      if (it->second.by != 0 || it->second.life != W.life) failv("file-clobber", "extraction of %s returns %s, which it did not make", o.p.c_str(), nm.c_str());
      std::string cont; im.content(r.node, 0, im.nodes[r.node].size, cont);
      if (it->second.data != cont) failv("wrong-data", "extracted file of %s has %zu bytes and differs from the %zu bytes stored", o.p.c_str(), it->second.data.size(), cont.size());
      auto k = W.ext.find(key);
      if (k != W.ext.end()) { if (k->second.name != nm) failv("wrong-result", "extracting %s again gives %s instead of %s", o.p.c_str(), nm.c_str(), k->second.name.c_str()); }
      else {
        for (auto& x : W.ext) if (x.second.name == nm) failv("wrong-data", "%s and %s are extracted to the same file %s", o.p.c_str(), x.first.second.c_str(), nm.c_str());
        if (W.extnames.count(nm) && it->second.op != cx.id) failv("wrong-data", "%s is handed out a second time, for %s", nm.c_str(), o.p.c_str());
        if (it->second.op == cx.id && !o.q.empty() && (nm.size() < o.q.size() + 1 || nm.substr(nm.size() - o.q.size() - 1) != "." + o.q)) failv("wrong-result", "extraction with extension %s gives %s", o.q.c_str(), nm.c_str());
        W.ext[key] = {nm, ret}; W.extnames.insert(nm);
      }
    }
    if (ex) user_free(ex);
    return true;
  }
  case K_CLEAR: {
    if (W.concurrent) return false; Call c; g_clear(); W.ext.clear(); W.extnames.clear(); W.gone.clear();
    int left = 0; std::string f = lib_files(left); if (left > os_unlinks_failed()) failv("file-leak", "clearing the cache leaves %s behind", f.c_str());
    return true;
  }
  case K_RMEXT: {     // a cleaner of the temporary directory removes an extracted file
    if (W.concurrent || W.ext.empty() || CONF.randmode) return false;   /* with a stuck generator the name would be taken again at once */ auto it = W.ext.begin(); std::advance(it, o.x % W.ext.size()); if (!os_fs().count(os_norm(it->second.name))) return false;
    os_remove(os_norm(it->second.name)); W.gone.insert(it->second.name); return true;
  }
  case K_EXPORT: {
    if (!usable(o.a)) return false; const Image& im = IM(o.a); int nd = -1; for (size_t i = 0, k = o.x % im.nodes.size(); i < im.nodes.size(); i++) { int q = (k + i) % im.nodes.size(); if (im.nodes[q].ino) { nd = q; break; } }
    Call c; std::set<int> nb; if (im.nodes[nd].xportSB >= 0) nb.insert(im.nodes[nd].xportSB); c.blocks(W.m[o.a].img, nb);
    int ok = g_export_ok(W.m[o.a].fs); if (!!ok != im.r.xport) failv("wrong-data", "sqfs_export_ok says %d", ok);
    u64* id = (u64*)user_alloc(8); unsigned long long tmp = 0; (void)tmp; int e = g_export(W.m[o.a].fs, im.nodes[nd].ino, id);
    if (!im.r.xport) { if (e != g_err(5) && !c.may()) failv("wrong-result", "export lookup without a table returns %d", e); }
    else if (e) { if (!c.may()) failv("spurious-failure", "export lookup fails with %d", e); }
    else if (*id != im.nodes[nd].iref) failv("wrong-data", "inode number %u is looked up as %lx, stored %lx", im.nodes[nd].ino, (unsigned long)*id, (unsigned long)im.nodes[nd].iref);
    else {
      u8* ino = user_alloc(g_sizeof_inode()); Call c2; std::set<int> n2; need_inode(im, nd, n2); c2.blocks(W.m[o.a].img, n2); e = g_inode_get(W.m[o.a].fs, ino, *id);
      if (e) { if (!c2.may()) failv("spurious-failure", "inode of number %u cannot be read (%d)", im.nodes[nd].ino, e); }
      else { if (g_inode_no(ino) != im.nodes[nd].ino || (u32)g_inode_mode(ino) != im.nodes[nd].mode()) failv("wrong-data", "inode of number %u is wrong", im.nodes[nd].ino); struct stat* st = (struct stat*)user_alloc(sizeof *st); g_istat(W.m[o.a].fs, ino, st); check_stat(im, nd, st, "sqfs_stat"); user_free(st); }
      user_free(ino);
    }
    user_free(id); return true;
  }
  case K_IDGET: {
    if (!usable(o.a)) return false; const Image& im = IM(o.a); u32 idx = o.x % im.ids.size(); Call c; std::set<int> nb; nb.insert(im.idTabSB[idx / 2048]); c.blocks(W.m[o.a].img, nb);
    unsigned* id = (unsigned*)user_alloc(4); int e = g_id_get(W.m[o.a].fs, idx, id); if (e) { if (!c.may()) failv("spurious-failure", "owner table entry %u cannot be read (%d)", idx, e); } else if (*id != im.ids[idx]) failv("wrong-data", "owner table entry %u is %u, stored %u", idx, *id, im.ids[idx]);
    user_free(id); return true;
  }
  case K_RANGE: {
    if (!usable(o.a)) return false; const Image& im = IM(o.a); bool fol = !(o.s & 1); Resolved r = img_resolve(im, o.p, fol, W.m[o.a].alias); if (r.alt != -2 || r.st != RES_OK || r.links > MAXLINKS) return false;
    const Node& n = im.nodes[r.node]; Arg p(o.p); u8* ino = user_alloc(g_sizeof_inode()); short* f = (short*)user_alloc(2); Call c; std::set<int> nb; need_path(im, r, nb); c.blocks(W.m[o.a].img, nb);
    int e = g_lookup(W.m[o.a].fs, ino, p.u, fol, f); p.done();
    if (e) { if (!c.may()) failv("spurious-failure", "lookup of %s fails with %d", o.p.c_str(), e); }
    else {
      if (!*f) failv("wrong-result", "lookup of %s finds nothing", o.p.c_str());
      if ((u32)g_inode_mode(ino) != n.mode() || g_inode_no(ino) != n.ino) failv("wrong-data", "lookup of %s gives a wrong inode", o.p.c_str());
      if (g_inode_uidx(ino) != (int)n.uidx) failv("wrong-data", "%s: owner index %d, stored %u", o.p.c_str(), g_inode_uidx(ino), n.uidx);
      if (n.type == 'f') for (int rep = 0; rep < (o.b ? o.b : 1); rep++) {
        i64 off = rep == 0 ? o.x : (i64)(hmix(o.x, rep) % (n.size + 1)); i64 left = std::max<i64>(0, (i64)n.size - off), want = o.y > BIGCNT && left > (1 << 18) ? 40000 : o.y; Buf b(want > BIGCNT ? left + 64 : want); i64* k = (i64*)user_alloc(8); *k = want; Call c2; std::set<int> n2; need_data(im, r.node, off, want, n2); c2.blocks(W.m[o.a].img, n2);
        e = g_range(W.m[o.a].fs, ino, off, k, b.p);
        if (e) { if (off <= (i64)n.size && want > 0 && !c2.may()) failv("spurious-failure", "sqfs_read_range(%ld,%ld) fails with %d", (long)off, (long)want, e); }
        else { if (off > (i64)n.size) failv("wrong-result", "sqfs_read_range behind the end succeeds"); check_read(im, r.node, off, want, b, *k, "sqfs_read_range"); }
        user_free(k); b.done();
      }
      else if (n.type == 'l') {
        size_t* sz = (size_t*)user_alloc(sizeof(size_t)); Call c2; *sz = 0; e = g_readlink_md(W.m[o.a].fs, ino, nullptr, sz); if (e || *sz != n.target.size() + 1) failv("wrong-data", "sqfs_readlink reports size %zu", *sz);
        for (int rep = 0; rep < (o.b ? o.b : 1); rep++) {   // the whole target, or what a smaller buffer holds of it
          size_t len = n.target.size(), cap = rep == 0 ? len + 1 : hmix(o.x, 77 + rep) % (len + 3), k = cap ? std::min(cap - 1, len) : 0; Buf b(cap); *sz = cap; std::set<int> n2; need_inode(im, r.node, n2); Call c3; c3.blocks(W.m[o.a].img, n2); e = g_readlink_md(W.m[o.a].fs, ino, (char*)b.p, sz);
          if (e) { if (cap && !c3.may()) failv("spurious-failure", "sqfs_readlink fails with %d", e); } else if (!cap || memcmp(b.p, n.target.c_str(), k) || b.p[k]) failv("wrong-data", "sqfs_readlink returns a wrong target (buffer of %zu bytes)", cap);
          b.done();
        } user_free(sz);
      }
      if (!fol) {   // from the link on, to the object behind it
        Resolved q = img_resolve(im, o.p, true, W.m[o.a].alias); Arg p2(o.p); std::set<int> n2; need_path(im, q, n2); Call c5; c5.blocks(W.m[o.a].img, n2); e = g_follow(W.m[o.a].fs, p2.u, ino); p2.done();
        if (n.type != 'l') { if (!e) failv("wrong-result", "squash_follow_link(%s) succeeds although it is no link", o.p.c_str()); }
        else if (q.alt != -2) {}
        else if (e) { if (q.st == RES_OK && q.links <= MAXLINKS && !c5.may()) failv("spurious-failure", "squash_follow_link(%s) fails with %d", o.p.c_str(), e); }
        else { if (q.st != RES_OK) failv("wrong-result", "squash_follow_link(%s) succeeds although it leads nowhere", o.p.c_str()); const Node& t = im.nodes[q.node]; if ((u32)g_inode_mode(ino) != t.mode() || g_inode_no(ino) != t.ino) failv("wrong-data", "squash_follow_link(%s) gives a wrong inode", o.p.c_str()); }
      }
    }
    user_free(ino); user_free(f); return true;
  }
  case K_DITER: {
    if (!usable(o.a)) return false; const Image& im = IM(o.a); Resolved r = img_resolve(im, o.p, true, W.m[o.a].alias); if (r.alt != -2 || r.st != RES_OK || r.links > MAXLINKS || im.nodes[r.node].type != 'd') return false;
    auto& kids = im.nodes[r.node].kids; u8* ino = user_alloc(g_sizeof_inode()); u8* dir = user_alloc(g_sizeof_dir()); u8* en = user_alloc(g_sizeof_dentry()); memset(en, 0, g_sizeof_dentry()); u8* nm = user_alloc(g_name_len());
    Call c; std::set<int> nb; need_path(im, r, nb); need_list(im, r.node, nb); c.blocks(W.m[o.a].img, nb);
    int e = g_inode_get(W.m[o.a].fs, ino, im.nodes[r.node].iref); bool ok = true;
    if (e) { ok = false; if (!c.may()) failv("spurious-failure", "inode of %s cannot be read (%d)", o.p.c_str(), e); }
    size_t start = 0; i64 off = 0; if (o.x && !kids.empty()) { start = o.x % (kids.size() + 1); off = start ? kids[start - 1].nextoff : 0; }
    if (ok) { e = g_dir_open(W.m[o.a].fs, ino, dir, off); if (e) { ok = false; if (!c.may()) failv("spurious-failure", "sqfs_dir_open(%s) at offset %ld fails with %d", o.p.c_str(), (long)off, e); } }
    if (ok) { g_dentry_init(en, (char*)nm); size_t i = start; size_t lim = o.y ? o.y : kids.size() + 1;
      for (; lim--; i++) { int err = 0; int k = g_dir_next(W.m[o.a].fs, dir, en, &err); if (err) { if (!c.may()) failv("spurious-failure", "sqfs_dir_next fails with %d", err); break; } if (!k) { if (i < kids.size()) failv("wrong-data", "iterating %s from offset %ld ends after entry %zu of %zu", o.p.c_str(), (long)off, i, kids.size()); break; }
        if (i >= kids.size()) failv("wrong-data", "iterating %s yields an entry behind the last one", o.p.c_str());
        std::string s = lib_str(g_dentry_name(en)); const Node& n = im.nodes[kids[i].node]; if (s != kids[i].name || g_dentry_ino(en) != n.ino || g_dentry_inode(en) != n.iref || (g_dentry_mode(en) & S_IFMT) != type_mode(n.type)) failv("wrong-data", "iterating %s from offset %ld: entry %zu is %s (inode %u), stored %s (%u)", o.p.c_str(), (long)off, i, s.c_str(), g_dentry_ino(en), kids[i].name.c_str(), n.ino);
        static const char ty[] = " dflbcps"; if (ty[g_dentry_type(en) & 7] != n.type || g_dentry_type(en) > 7) failv("wrong-data", "entry %s has type %d", s.c_str(), g_dentry_type(en));
        if (g_dentry_off(en) != (i64)(i ? kids[i - 1].nextoff : 0)) failv("wrong-data", "entry %s starts at offset %ld, stored %ld", s.c_str(), (long)g_dentry_off(en), (long)(i ? kids[i - 1].nextoff : 0));
        if (g_dentry_next(en) != (i64)kids[i].nextoff) failv("wrong-data", "entry %s ends at offset %ld, stored %lu", s.c_str(), (long)g_dentry_next(en), (unsigned long)kids[i].nextoff); } }
    if (!e && g_inode_mode(ino)) for (int rep = 0; rep < 3; rep++) {   // a single component, looked up in this directory
      std::string w = kids.empty() ? "x" : kids[hmix(o.x, rep) % kids.size()].name; if (rep == 1) w = w.substr(0, 1 + hmix(o.y, 5) % w.size()); if (rep == 2) w += "-"[0] + (char)(hmix(o.y, 6) % 80); if (w.size() > 255) continue;
      int want = im.child(r.node, w); Buf q(w.size()); memcpy(q.p, w.data(), w.size()); short* f = (short*)user_alloc(2); memset(en, 0, g_sizeof_dentry()); g_dentry_init(en, (char*)nm); Call c4; c4.blocks(W.m[o.a].img, nb);
      int x = g_dir_lookup(W.m[o.a].fs, ino, (const char*)q.p, w.size(), en, f);
      if (x) { if (!c4.may()) failv("spurious-failure", "sqfs_dir_lookup(%s) in %s fails with %d", w.c_str(), o.p.c_str(), x); }
      else if (!*f != (want < 0)) failv("wrong-result", "sqfs_dir_lookup(%s) in %s: found %d", w.c_str(), o.p.c_str(), *f);
      else if (want >= 0 && (g_dentry_inode(en) != im.nodes[want].iref || g_dentry_name_size(en) != w.size() || lib_str(g_dentry_name(en)) != w)) failv("wrong-result", "sqfs_dir_lookup(%s) in %s gives another entry", w.c_str(), o.p.c_str());
      q.done(); user_free(f);
    }
    user_free(ino); user_free(dir); user_free(en); user_free(nm); return true;
  }
  case K_HASH: {   // the library's hash table, private to this call
    Rng g(o.x); size_t vs = o.a; u8* h = user_alloc(g_sizeof_hash()); memset(h, 0xA5, g_sizeof_hash()); u8* v = user_alloc(vs);
    Call c; if (g_hash_init(h, vs, 1u << (o.b & 3))) { if (!c.may()) failv("spurious-failure", "sqfs_hash_init fails"); user_free(h); user_free(v); return true; }
    std::map<u32, u64> ref; u32 keys = 1 + (u32)o.y / 3;
    auto val = [&](u32 k, u64 s, size_t i) { return (u8)(hmix(k, s + i / 8) >> (i & 7)); };
    for (i64 i = 0; i < o.y; i++) {
      u32 k = g.chance(0.7) ? g.below(keys) * (g.chance(0.5) ? 1 : 64) : (u32)g.next();
      if (ref.count(k) ? g.chance(0.6) : g.chance(0.15)) { Call q; if (g_hash_remove(h, k)) failv("spurious-failure", "sqfs_hash_remove fails"); ref.erase(k); }
      else if (!ref.count(k)) { u64 s = g.next(); for (size_t j = 0; j < vs; j++) v[j] = val(k, s, j); Call q; if (g_hash_add(h, k, v)) { if (!q.may()) failv("spurious-failure", "sqfs_hash_add fails"); } else ref[k] = s; }
      u32 w = !ref.empty() && g.chance(0.6) ? std::next(ref.begin(), g.below(ref.size()))->first : g.below(keys); u8* r = (u8*)g_hash_get(h, w);
      if (!r != !ref.count(w)) failv("wrong-result", "sqfs_hash_get(%u) %s", w, r ? "finds what is not there" : "finds nothing although it was added");
      if (r) for (size_t j = 0; j < vs; j++) if (r[j] != val(w, ref[w], j)) failv("wrong-data", "sqfs_hash_get(%u) gives another value than was added", w);
    }
    for (auto& e : ref) { u8* r = (u8*)g_hash_get(h, e.first); if (!r) failv("wrong-result", "sqfs_hash_get(%u) finds nothing although it was added", e.first); for (size_t j = 0; j < vs; j++) if (r[j] != val(e.first, e.second, j)) failv("wrong-data", "sqfs_hash_get(%u) gives another value than was added", e.first); }
    g_hash_destroy(h); user_free(h); user_free(v); return true;
  }
  case K_STACK: {   // the library's stack, private to this call; what is popped is handed to the given function, last in first out
    Rng g(o.x); size_t vs = o.a; u8* st = user_alloc(g_sizeof_stack()); memset(st, 0xA5, g_sizeof_stack()); void** v = (void**)user_alloc(8);
    bool fr = g.chance(0.7); std::vector<u64> ref, &freed = stack_freed(); freed.clear(); u64 next = 1;
    g_stack_init(st); if (g.chance(0.1)) { g_stack_destroy(st); user_free(st); user_free(v); return true; }   // never created
    Call c; if (g_stack_create(st, vs, o.b, fr ? stack_note : nullptr)) { if (!c.may()) failv("spurious-failure", "sqfs_stack_create fails"); g_stack_destroy(st); user_free(st); user_free(v); return true; }
    auto val = [&](u64 s, size_t i) { return i < 8 ? (u8)(s >> (8 * i)) : (u8)hmix(s, i); };
    auto chk = [&](u8* r, u64 s, const char* w) { rt_check_quiet((uptr)r, vs, true, nullptr); for (size_t j = 0; j < vs; j++) if (r[j] != val(s, j)) failv("wrong-data", "%s gives another value than was pushed", w); };
    double up = 0.35 + 0.5 * g.unit();
    for (i64 i = 0; i < o.y; i++) {
      if (g.chance(up)) { Call q; *v = nullptr; if (g_stack_push(st, v)) { if (!q.may()) failv("spurious-failure", "sqfs_stack_push fails"); } else { u8* r = (u8*)*v; if (!r) failv("wrong-result", "sqfs_stack_push gives no room"); rt_check_quiet((uptr)r, vs, true, nullptr); u64 s = next++ * 0x9E3779B97F4A7C15ull; for (size_t j = 0; j < vs; j++) r[j] = val(s, j); ref.push_back(s); } }
      else { Call q; size_t nf = freed.size(); if (!g_stack_pop(st) != ref.empty()) failv("wrong-result", "sqfs_stack_pop with %zu entries", ref.size()); if (!ref.empty()) { if (fr && (freed.size() != nf + 1 || freed.back() != ref.back())) failv("wrong-result", "sqfs_stack_pop does not hand the last entry to the given function exactly once"); ref.pop_back(); } }
      Call q; if (g_stack_size(st) != ref.size()) failv("wrong-result", "sqfs_stack_size gives %zu with %zu entries", g_stack_size(st), ref.size());
      if (!g_stack_top(st, v) != !ref.empty()) failv("wrong-result", "sqfs_stack_top with %zu entries", ref.size()); if (!ref.empty()) chk((u8*)*v, ref.back(), "sqfs_stack_top");
      size_t k = g.below(ref.size() + 2); if (!g_stack_at(st, k, v) != (k < ref.size())) failv("wrong-result", "sqfs_stack_at(%zu) with %zu entries", k, ref.size()); if (k < ref.size()) chk((u8*)*v, ref[k], "sqfs_stack_at");
    }
    size_t nf = freed.size(), n = ref.size(); g_stack_destroy(st);
    if (fr) { if (freed.size() != nf + n) failv("wrong-result", "sqfs_stack_destroy hands %zu of %zu entries to the given function", freed.size() - nf, n); for (size_t i = 0; i < n; i++) if (freed[nf + i] != ref[n - 1 - i]) failv("wrong-result", "sqfs_stack_destroy hands over a wrong entry"); }
    user_free(st); user_free(v); return true;
  }
  case K_TMPF: {
    if (W.concurrent) return false; std::set<std::string> before; for (auto& f : os_fs()) before.insert(f.first);
    Call c; const char* d = g_tmpdir(); if (!d) { if (!c.may()) failv("spurious-failure", "squash_tmpdir fails"); return true; }
    std::string ds = lib_str(d); std::string want = CONF.tmpvar < 3 ? CONF.tmpdir : "/tmp"; if (os_norm(ds) != os_norm(want)) failv("wrong-data", "squash_tmpdir gives %s instead of %s", ds.c_str(), want.c_str());
    char* ex = o.q.empty() ? nullptr : user_str(o.q); const char* f = g_tmpf(d, ex);
    if (!f) { if (!c.may()) failv("spurious-failure", "squash_tmpf fails"); }
    else { std::string fs = lib_str(f); if (before.count(os_norm(fs))) failv("file-clobber", "squash_tmpf gives the existing name %s", fs.c_str()); for (auto it = os_fs().begin(); it != os_fs().end();) if (!before.count(it->first) && it->second.by == 0) it = os_fs().erase(it); else ++it; lib_free((void*)f, nullptr); }
    lib_free((void*)d, nullptr); if (ex) user_free(ex); return true;
  }
  case K_APPOPEN: {
    int i = o.s % NA; if (W.app[i] >= 0) return false; std::string p = "/home/app/file" + std::to_string(i) + ".txt"; bool sv = cx.passthrough; cx.passthrough = true; int fd = os_app_open(p, O_RDWR | O_CREAT, 0644); cx.passthrough = sv; cx.natural = 0; if (fd < 0) return true;
    W.app[i] = fd; W.apppath[i] = p; note_foreign(p); return true;
  }
  case K_APPCLOSE: { int i = o.s % NA; if (W.app[i] < 0 || W.pinned.count(W.app[i])) return false; os_app_close(W.app[i]); W.app[i] = -1; return true; }
  case K_CLOCK: os_clock_add(o.x); return true;
  case K_POKE: { if (W.concurrent || !W.img[o.a]) return false; auto& sb = W.img[o.a]->sbs; if (sb.empty()) return false; int k = -1; for (size_t i = 0; i < sb.size(); i++) { int q = (o.x + i) % sb.size(); if (sb[q].comp && (!o.b || (o.b == 1 ? sb[q].kind == 'D' || sb[q].kind == 'F' : sb[q].kind != 'D' && sb[q].kind != 'F'))) { k = q; break; } } if (k < 0 || W.bad[o.a].count(k)) return false; u8* b = W.img[o.a]->at(W.base[o.a], sb[k].pos); W.bad[o.a][k] = *b; *b = 0xFF; return true; }
  case K_UNPOKE: { if (W.concurrent || !W.img[o.a]) return false; for (auto& b : W.bad[o.a]) *W.img[o.a]->at(W.base[o.a], W.img[o.a]->sbs[b.first].pos) = b.second; W.bad[o.a].clear(); return true; }
  case K_NOFILE: { if (W.concurrent) return false; int hi = 0; if (o.a) { for (int i = 0; i < 4096; i++) if (os_fd_open(i)) hi = i + 1; hi += (int)o.x; } else hi = (int)o.x; os_set_nofile(hi); return true; }
  case K_DISK: CONF.disk_cap = o.x < 0 ? ~0ull : os_disk_used() + o.x; return true;
  case K_FOREIGN: { std::string t = os_norm(CONF.tmpvar < 3 ? CONF.tmpdir : "/tmp"); std::string p = t + "/" + o.p; if (os_fs().count(p)) return false; os_put_file(p, "data of " + p, 2); note_foreign(p); return true; }
  case K_CLOSE0: { if (os_fd_owner(0) != 1 || W.pinned.count(0)) return false; for (int i = 0; i < NA; i++) if (W.app[i] == 0) return false; os_app_close(0); return true; }
  }
  return false;
}

// ---- running a scenario --------------------------------------------------------------------------------------------
static void do_op(const Op& o) {
  rt_begin_op(o.id, o.kind, op_names[o.kind]);
  if (TRACE) printf("    op %d thread %d: %s s=%d a=%d b=%d x=%ld y=%ld %s %s\n", o.id, rt_tid(), op_names[o.kind], o.s, o.a, o.b, (long)o.x, (long)o.y, o.p.c_str(), o.q.c_str());
  bool ex = exec_op(o);
  rt_op().passthrough = false; post_checks(); if (o.kind >= E_CHDIR) post_checks_e();
  rt_event(hmix(o.id, (u64)ex * 7 + rt_op().fired)); rt_event(rt_op().steps);
  rt_end_op();
  if (TRACE) printf("    op %d done: %s errno=%d steps=%lu fired=%d natural=%d\n", o.id, ex ? "ok" : "skipped", rt_errno(), (unsigned long)rt_op().steps, rt_op().fired, rt_op().natural);
  if (o.id >= 0 && o.id < (int)EXECUTED.size() && ex) EXECUTED[o.id] = true;
}
static std::map<u64, Image*> POOL;
static u64 recipe_hash(const ImageR& r) { return hash_str(img_to_text(r)); }
Image* pool_get(const ImageR& r) { u64 h = recipe_hash(r); auto it = POOL.find(h); if (it != POOL.end()) return it->second; Image* i = img_build(r); return POOL[h] = i; }
void pool_trim() { if (POOL.size() > 160) { for (auto& p : POOL) delete p.second; POOL.clear(); } }   // only while no image is in use
std::vector<std::pair<uptr, size_t>> world_roots() { return {}; }

static bool run_main(const std::vector<Op>& ops) { std::vector<std::function<void()>> b; b.push_back([&ops] { for (auto& o : ops) do_op(o); }); W.concurrent = false; return rt_run_threads(b); }

static void unpoke_all() { for (int i = 0; i < 6; i++) { for (auto& b : W.bad[i]) *W.img[i]->at(W.base[i], W.img[i]->sbs[b.first].pos) = b.second; W.bad[i].clear(); } }
static void run_scn_(const Scn& s, bool collect);
void run_scn(const Scn& s, bool collect) { run_scn_(s, collect); unpoke_all(); }
static void run_scn_(const Scn& s, bool collect) {
  REPLAYING = s.replay; FAULTS = s.faults; if (s.replay) SWITCHES = s.sw;
  rt_reset_run(s.conf); COLLECT = collect; STATS.runs++;
  int maxid = 0; for (auto& l : s.lives) for (auto& g : l.segs) for (auto& t : g.th) for (auto& o : t) maxid = std::max(maxid, o.id);
  EXECUTED.assign(maxid + 1, false);
  W = World(); for (int& a : W.app) a = -1;
  std::vector<Image*> ims; for (size_t i = 0; i < s.imgs.size() && i < 6; i++) ims.push_back(pool_get(s.imgs[i]));
  for (size_t i = 0; i < ims.size(); i++) { W.img[i] = ims[i]; W.base[i] = rt_image_place(i, ims[i]->bytes, hmix(ims[i]->key, (u64)(uptr)ims[i]), ims[i]->gapAt, ims[i]->gapLen); }
  u64 cap0 = CONF.disk_cap;
  for (size_t L = 0; L < s.lives.size() && !VIOL.set; L++) {
    { World n; for (int i = 0; i < 6; i++) { n.img[i] = W.img[i]; n.base[i] = W.base[i]; n.bad[i] = W.bad[i]; } n.life = L; W = n; for (int& a : W.app) a = -1; }
    rt_start_life(L); CONF.disk_cap = cap0;
    snapshot_foreign();
    bool crash_here = false; if (s.crash_op >= 0) for (auto& g : s.lives[L].segs) for (auto& t : g.th) for (auto& o : t) if (o.id == s.crash_op) crash_here = true;
    CRASH_OP = crash_here ? s.crash_op : -1; CRASH_STEP = s.crash_step;
    int eid = 900000 + 1000 * (int)L; bool go = true;
    { Op st; st.id = eid++; st.kind = K_START; std::vector<Op> v{st}; go = run_main(v); }
    for (auto& g : s.lives[L].segs) {
      if (!go) break;
      segment_begin(g);
      if (g.th.size() == 1) go = run_main(g.th[0]);
      else { std::vector<std::function<void()>> b; for (auto& t : g.th) b.push_back([&t] { for (auto& o : t) do_op(o); }); W.concurrent = true; go = rt_run_threads(b); W.concurrent = false; }
    }
    if (VIOL.set) break;
    if (CRASHED) { os_end_of_process(); check_foreign("after the crash"); for (int i = 0; i < 6; i++) for (auto& b : W.bad[i]) *W.img[i]->at(W.base[i], W.img[i]->sbs[b.first].pos) = b.second; for (auto& b : W.bad) b.clear(); CRASHED = false; continue; }
    // orderly end: everything is closed, then unmounted; then nothing may be left
    std::vector<Op> fin; auto add = [&](int k, int s_, int a = 0) { Op o; o.id = eid++; o.kind = k; o.s = s_; o.a = a; fin.push_back(o); };
    for (int i = 0; i < 6; i++) if (W.img[i]) add(K_UNPOKE, 0, i);
    add(K_NOFILE, 0); fin.back().x = 4000;
    for (int i = 0; i < ND; i++) if (W.d[i].open) add(W.d[i].real || W.em >= 0 ? E_CLOSEDIR : K_CLOSEDIR, i);
    for (int i = 0; i < NV; i++) if (W.v[i].open) add(W.v[i].real || W.em >= 0 ? E_CLOSE : K_CLOSE, i);
    for (int i = 0; i < NT; i++) if (W.t[i].open) add(K_TCLOSE, i);
    if (hmix(s.seed, L) & 1) add(K_CLEAR, 0);
    int em = W.em; 
    for (int i = 0; i < NM; i++) if (W.m[i].on && i != em) add(K_UNMOUNT, i);
    go = run_main(fin);
    if (!go) break;
    if (em >= 0) { W.em = -1; end_life_e(); Op o; o.id = eid++; o.kind = K_UNMOUNT; o.s = em; std::vector<Op> v{o}; go = run_main(v); if (!go) break; }
    for (int fd : os_lib_fds()) { rt_note("fd-leak", "descriptor " + std::to_string(fd) + " obtained in operation " + std::to_string(os_fd_creator(fd)) + " is still open after everything was closed", os_fd_creator(fd)); break; }
    auto leaks = rt_unreachable(world_roots());
    if (!leaks.empty()) { char b[200]; snprintf(b, sizeof b, "%zu block(s) leaked, first of %zu bytes, allocated in operation %d", leaks.size(), leaks[0].size, leaks[0].op); rt_note("mem-leak", b, leaks[0].op); if (VIOL.pcs.empty()) VIOL.pcs.push_back(leaks[0].pc); }
    if (rt_live_lib_blocks() > 64 + 8 * W.extnames.size()) rt_note("mem-growth", std::to_string(rt_live_lib_blocks()) + " blocks are still held after everything was closed and unmounted");
    if (VIOL.set) break;
    // normal exit
    { std::vector<std::function<void()>> b; int id = eid++; b.push_back([id] { rt_begin_op(id, K_ATEXIT, "exit"); os_run_atexit(); rt_op().kind = K_ATEXIT; rt_end_op(); }); go = rt_run_threads(b); }
    if (!go) break;
    bool ulf = false; for (auto& f : s.faults) if (f.kind == FK_ATEXIT) ulf = true;
    int left = 0; std::string f = lib_files(left, true); if (left > os_unlinks_failed() && ulf) { left = 0; for (auto& q : os_fs()) if (q.second.dir && q.second.by == 0 && q.second.life == W.life) { left++; f = q.first; } }   // files only have nobody to remove them then
    if (left > os_unlinks_failed()) rt_note("file-leak", "normal exit leaves " + f + " behind", -1, K_ATEXIT);
    check_foreign("after exit"); os_end_of_process();
  }
  COLLECT = false;
}

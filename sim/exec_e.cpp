// The calls of an application whose file calls are redirected as in /repo/sample: enclosed paths and virtual
// descriptors have to behave as the image (or as the shadow directory, where something was created), all others as
// the operating system.
#include "world.h"
#include <fcntl.h>
#include <sys/uio.h>

extern "C" ssize_t sim_write(int, const void*, size_t);
static const char SCOPE[] = "/__enclose_io_memfs__";
static const size_t SL = 21;
static bool is_path(const std::string& p) { return p.compare(0, SL, SCOPE) == 0; }
static bool enclosed(const std::string& p) { return is_path(p) || (!W.vcwd.empty() && p[0] != '/'); }
static std::string expand(const std::string& p) { return p[0] == '/' ? p : W.vcwd + p; }
static Image& em() { return *W.img[W.m[W.em].img]; }
static bool anybad() { return !W.bad[W.m[W.em].img].empty(); }
static std::string tmpd() { return os_norm(CONF.tmpvar < 3 ? CONF.tmpdir : "/tmp"); }
static std::string dirof(const std::string& p) { size_t i = p.rfind('/'); return i == 0 ? "/" : p.substr(0, i); }

struct Loc { std::string vp, np, rp, real; bool in = false, shadow = false, racy = false; };
static void find_workdir() {
  std::string t = tmpd(), w; int n = 0;
  for (auto& f : os_fs()) if (f.second.dir && f.second.by == 0 && f.second.life == W.life && dirof(f.first) == t) { n++; w = f.first; }
  if (n > 1) failv("shadow-twice", "after %s: %d shadow directories exist, the last is %s", rt_op().name, n, w.c_str());
  W.workdir = w;
}
static bool racy_path(const std::string& vp) {
  if (!W.concurrent) return false;
  if (W.racy.count(os_norm(vp))) return true;
  return false;
}
static bool above_root(const std::string& p) {   // as in the image, nothing is there
  int d = 0; std::string c; for (size_t i = 0; i <= p.size(); i++) { if (i < p.size() && p[i] != '/') { c += p[i]; continue; } if (c == "..") { if (d-- == 0) return true; } else if (!c.empty() && c != ".") d++; c.clear(); }
  return false;
}
static Loc locate(const std::string& vp) {
  Loc l; l.vp = vp; l.np = os_norm(vp);
  l.in = vp.size() > SL && vp[SL] == '/' && !above_root(vp) && (l.np == SCOPE || !l.np.compare(0, SL + 1, std::string(SCOPE) + "/"));
  if (l.in && !W.workdir.empty()) { l.rp = W.workdir + l.np.substr(SL) + (vp.back() == '/' ? "/" : ""); l.shadow = os_look(l.rp, l.real); }
  l.racy = l.in && racy_path(vp);
  return l;
}
static const FNode* fsnode(const std::string& p) { auto it = os_fs().find(p); return it == os_fs().end() ? nullptr : &it->second; }
static Resolved rimg(const std::string& vp, bool follow = true) { return img_resolve(em(), vp, follow, {}); }
static bool isdir(const Resolved& r) { return r.st == RES_OK && em().nodes[r.node].type == 'd'; }

// One call that has to reach the operating system exactly once, unchanged.
struct Pass {
  OpCtx& cx; size_t n0; Pass() : cx(rt_op()) { rt_errno() = 0; rt_scrub(); cx.passthrough = true; n0 = cx.oscalls.size(); }
  void check(const std::string& want, i64 r, bool failed) {
    cx.passthrough = false; int e = rt_errno();
    if (cx.oscalls.size() == n0) failv("pass-through", "%s does not reach the operating system (%s)", cx.name, want.c_str());
    if (cx.oscalls.size() != n0 + 1) failv("pass-through", "%s makes %zu calls to the operating system instead of %s: %s ...", cx.name, cx.oscalls.size() - n0, want.c_str(), cx.oscalls[n0].c_str());
    if (cx.oscalls[n0] != want) failv("pass-through", "%s reaches the operating system as %s instead of %s", cx.name, cx.oscalls[n0].c_str(), want.c_str());
    if (r != cx.osret) failv("pass-through", "%s returns %ld where the operating system answered %ld", cx.name, (long)r, (long)cx.osret);
    if (failed && e != cx.oserrno) failv("pass-through", "%s reports errno %d where the operating system reported %d", cx.name, e, cx.oserrno);
  }
};
static std::string I(i64 v) { return std::to_string(v); }
static std::string P(const void* p) { char b[32]; snprintf(b, sizeof b, "%p", p); return b; }

static std::string TGT[32];   // per thread: what the running call may create ("" nothing, "x" an extraction)
static int tix() { int t = rt_tid(); return t < 0 || t > 31 ? 31 : t; }

void segment_begin(const Seg& g) {
  W.racy.clear(); W.racyfiles.clear();
  if (g.th.size() < 2) return;
  for (auto& t : g.th) for (auto& o : t) {
    bool file = (o.kind == E_OPEN || o.kind == E_OPENAT) && o.a > 0;
    if (!file && o.kind != E_MKDIR) continue;
    if (o.p.empty() || !enclosed(o.p)) continue;
    std::string vp = os_norm(expand(o.p)); std::set<std::string> u;
    for (std::string q = vp; q.size() >= SL; q = dirof(q)) u.insert(q);
    for (auto& q : u) W.racy[q]++;
    if (file) W.racyfiles.insert(vp);
  }
}
void end_life_e() { g_e_setfs(nullptr); }
void post_checks_e() {
  OpCtx& o = rt_op(); find_workdir();
  const std::string& t = TGT[tix()];
  if (t == "x") return;
  for (auto& f : os_fs()) if (f.second.by == 0 && f.second.life == W.life && f.second.op == o.id) {
    const std::string& c = f.first; bool ok = false;
    if (!t.empty() && !W.workdir.empty()) { std::string full = W.workdir + t; ok = c == full || !full.compare(0, c.size() + 1, c + "/"); }
    if (!ok) failv("shadow-stray", "%s leaves %s behind", o.name, f.first.c_str());
  }
}
static void check_real_stat(const struct stat* st, const std::string& p, const char* what) {
  const FNode* n = fsnode(p); if (!n) return;
  if (st->st_ino != n->id || st->st_mode != ((n->dir ? S_IFDIR : S_IFREG) | n->mode)) failv("wrong-data", "%s does not show the object created there (%s)", what, p.c_str());
  if (!W.concurrent && (u64)st->st_size != n->data.size()) failv("wrong-data", "%s: size %ld, the object created there has %zu bytes", what, (long)st->st_size, n->data.size());
}
static void reg_real(int s, int fd, const std::string& path, const char* what, int flags) {
  if (os_fd_path(fd) != path) failv("wrong-result", "%s opens %s instead of %s", what, os_fd_path(fd).c_str(), path.c_str());
  if (os_fd_flags(fd) != flags) failv("wrong-result", "%s opens %s with flags %o instead of %o", what, path.c_str(), os_fd_flags(fd), flags);
  if (os_fd_owner(fd) == 0) reg_open(fd, what);
  VFD& v = W.v[s]; v = VFD(); v.open = true; v.fd = fd; v.real = true; v.rpath = path;
}
static void free_list(struct dirent** l, int n) { for (int i = 0; i < n; i++) lib_free(l[i], nullptr); lib_free(l, nullptr); }
static void want_list(struct dirent*** out, int n, const std::string& dir, const Op& o, const char* what) {
  std::vector<std::string> w, g; for (auto& e : os_list(dir)) if (sel_want(o.s, e.first, e.second)) w.push_back(e.first);
  size_t sz; bool live; struct dirent** l = *out;
  if (!lib_block((uptr)l, &sz, &live) || !live) failv("bad-free", "%s hands over an array the caller cannot free", what);
  for (int i = 0; i < n; i++) { if (!lib_block((uptr)l[i], &sz, &live) || !live) failv("bad-free", "%s hands over an entry the caller cannot free", what); g.push_back(l[i]->d_name); }
  if (o.b == 0) std::sort(g.begin(), g.end());
  std::sort(w.begin(), w.end()); if (o.b == 2) std::reverse(w.begin(), w.end());
  if (!W.concurrent && g != w) failv("wrong-data", "%s lists %zu objects of %s, %zu are there and selected", what, g.size(), dir.c_str(), w.size());
}
// Can the parent of np be had in the shadow directory? Every part is there already or a directory of the image.
static bool can_make(const std::string& np) {
  std::string d = dirof(np); if (d == SCOPE) return true;
  for (size_t i = SL + 1; i <= d.size(); i++) if (i == d.size() || d[i] == '/') {
    std::string q = d.substr(0, i); if (W.concurrent && W.racyfiles.count(q)) return false;
    const FNode* n = W.workdir.empty() ? nullptr : fsnode(W.workdir + q.substr(SL));
    if (n) { if (!n->dir || (n->mode & 0300) != 0300) return false; continue; }
    Resolved r = rimg(q); if (!isdir(r) || r.links > MAXLINKS) return false;
  }
  return true;
}
// Is there certainly no directory to make np in? (Nothing else is being created meanwhile.)
static bool no_parent(const std::string& np) {
  if (W.concurrent) return false;
  std::string d = dirof(np); if (d.size() <= SL) return false;
  for (size_t i = SL + 1; i <= d.size(); i++) if (i == d.size() || d[i] == '/') {
    std::string q = d.substr(0, i); const FNode* n = W.workdir.empty() ? nullptr : fsnode(W.workdir + q.substr(SL));
    if (n) { if (!n->dir && n->link.empty()) return true; if (!n->link.empty()) return false; continue; }
    Resolved r = rimg(q); if (r.alt != -2 || r.links > MAXLINKS) return false; if (!isdir(r)) return true;
  }
  return false;
}
static bool kvirt(int kind, const Op& o, const std::string* vp, const std::string* call) { Op k = o; k.kind = kind; k.a = W.em; k.b = 0; if (vp) k.p = *vp; return exec_k(k, API_ENC, call); }
static void pos_check(VFD& v, i64 want, const char* what) {
  i64 p = g_e_lseek(v.fd, 0, SEEK_CUR); if (p != want) failv("wrong-result", "%s leaves the position at %ld instead of %ld", what, (long)p, (long)want);
}
static bool do_open_create(const Op& o, const std::string& vp, int flags, int mode, int (*call)(const Op&, const char*, int, int), const char* TN);

static int call_open(const Op& o, const char* p, int flags, int mode) { bool m = flags & O_CREAT || o.x; return g_e_open(p, flags, m ? 3 : 2, mode); }
static int call_openat(const Op& o, const char* p, int flags, int mode) { bool m = flags & O_CREAT || o.x; return g_e_openat(o.b ? 987 : AT_FDCWD, p, flags, m ? 4 : 3, mode); }
static int k_open_at(void*, const char* p);
static thread_local int KOA_B, KOA_X;
static int k_open_at(void*, const char* p) { return g_e_openat(KOA_B ? 987 : AT_FDCWD, p, O_RDONLY, KOA_X ? 4 : 3, 0644); }
static int k_open_3(void*, const char* p) { return g_e_open(p, O_RDONLY, 3, 0600); }

bool exec_e(const Op& o) {
  OpCtx& cx = rt_op(); const std::string T = std::string(op_names[o.kind]) + "(" + o.p + ")"; const char* TN = T.c_str();
  TGT[tix()].clear();
  if (o.kind == E_ENTER) {
    if (W.entered) return false;
    os_put_dir("/home/app/dir", 1);
    for (auto f : {"/home/app/file0.txt", "/home/app/file1.txt", "/home/app/dir/inner.txt"}) if (!fsnode(f)) os_put_file(f, std::string("contents of ") + f, 1);
    for (auto f : {"/home/app/dir", "/home/app/file0.txt", "/home/app/file1.txt", "/home/app/dir/inner.txt"}) note_foreign(f);
    Op k = o; k.kind = K_MOUNT; k.b = 0; if (!exec_k(k, API_PLAIN, nullptr)) return false;
    if (W.m[o.s].on) { g_e_setfs(W.m[o.s].fs); W.em = o.s; W.entered = true; }
    return true;
  }
  if (!W.entered || W.em < 0) return false;
  // ---- calls on descriptors and streams ----
  switch (o.kind) {
  case E_CLOSE: case E_READ: case E_LSEEK: case E_FSTAT: case E_PREAD: case E_READV: case E_WRITE: {
    VFD& v = W.v[o.s]; if (!v.open || v.closing) return false;
    if (!v.real) {
      if (o.kind == E_WRITE) return false;
      if (o.kind == E_CLOSE) return exec_k([&] { Op k = o; k.kind = K_CLOSE; return k; }(), API_ENC, nullptr);
      if (o.kind == E_READ) return exec_k([&] { Op k = o; k.kind = K_READ; return k; }(), API_ENC, nullptr);
      if (o.kind == E_LSEEK) return exec_k([&] { Op k = o; k.kind = K_LSEEK; return k; }(), API_ENC, nullptr);
      if (o.kind == E_FSTAT) return exec_k([&] { Op k = o; k.kind = K_FSTAT; return k; }(), API_ENC, nullptr);
      const Image& im = em(); const Node& n = im.nodes[v.node]; i64 size = n.size;
      if (o.kind == E_PREAD) {
        i64 off = o.y, want = o.x; Buf b(want > 0 ? want : 0); Call c; std::set<int> nb; if (n.type == 'f' && off >= 0) { need_data(im, v.node, off, want > 0 ? want : 0, nb); c.blocks(W.m[v.m].img, nb); }
        i64 got = g_e_pread(v.fd, b.p, want, off);
        if (got < 0) {
          if (got != -1) failv("wrong-result", "pread returned %ld", (long)got);
          want_errno(c, "pread"); if (!b.untouched(0) && !c.may()) failv("buffer-overrun", "a refused pread changed the buffer");
          if (n.type == 'f' && want >= 0 && off >= 0 && off <= size && !c.may()) failv("spurious-failure", "pread of %ld bytes at %ld of a file of %ld bytes fails (errno %d)", (long)want, (long)off, (long)size, rt_errno());
        } else { if (n.type != 'f' || off < 0 || want < 0) failv("wrong-result", "pread at %ld returned %ld", (long)off, (long)got); check_read(im, v.node, off, want, b, got, "pread"); }
        b.done(); if (n.type == 'f') pos_check(v, v.pos, got < 0 ? "a failing pread" : "pread");
        return true;
      }
      Rng g(o.x); int cnt = g.range(0, 6); struct iovec* iov = (struct iovec*)user_alloc(sizeof(struct iovec) * std::max(cnt, 1)); std::vector<Buf*> bs; i64 tot = 0; bool big = g.chance(0.15);
      for (int i = 0; i < cnt; i++) { i64 l = g.chance(0.2) ? 0 : g.chance(0.5) ? g.range(1, 200) : g.range(1, big ? 200000 : 9000); bs.push_back(new Buf(l)); iov[i].iov_base = bs[i]->p; iov[i].iov_len = l; tot += l; }
      auto fin = [&] { for (auto b : bs) { b->done(); delete b; } bs.clear(); user_free((u8*)iov); };
      Call c; std::set<int> nb; if (n.type == 'f') { need_data(im, v.node, v.pos, tot, nb); c.blocks(W.m[v.m].img, nb); }
      i64 got = g_e_readv(v.fd, iov, cnt); int e = rt_errno();
      if (n.type != 'f') { if (got > 0) failv("wrong-result", "readv of something that is no file returned %ld", (long)got); fin(); return true; }
      i64 exp = v.pos >= size ? 0 : std::min<i64>(tot, size - v.pos);
      if (got < -1 || got > exp) failv("wrong-result", "readv of %ld bytes at %ld of a file of %ld bytes returned %ld", (long)tot, (long)v.pos, (long)size, (long)got);
      if (got == -1) { if (!e) failv("wrong-errno", "readv failed without setting errno"); if (cnt && v.pos <= size && !c.may()) failv("spurious-failure", "readv of %ld bytes at %ld of a file of %ld bytes fails (errno %d)", (long)tot, (long)v.pos, (long)size, e); }
      else {
        if (got != exp && !c.may()) failv("wrong-data", "readv of %ld bytes in %d parts at %ld of a file of %ld bytes returned %ld", (long)tot, cnt, (long)v.pos, (long)size, (long)got);
        std::string want; im.content(v.node, v.pos, got, want); i64 at = 0;
        for (int i = 0; i < cnt; i++) { i64 k = std::max<i64>(0, std::min<i64>(bs[i]->n, got - at)); if (k && memcmp(bs[i]->p, want.data() + at, k)) failv("wrong-data", "readv at %ld of a file of %ld bytes: part %d differs from what is stored", (long)v.pos, (long)size, i); if (!c.may() && !bs[i]->untouched(k)) failv("buffer-overrun", "readv changed a buffer behind the data"); at += bs[i]->n; }
      }
      if (got > 0) v.pos += got;
      fin(); pos_check(v, v.pos, got < 0 ? "a failing readv" : "readv"); return true;
    }
    int fd = v.fd;
    if (o.kind == E_CLOSE) {
      if (W.pinned.count(fd)) return false;
      v.closing = true; W.openfds.erase(fd); Pass p; int r = g_e_close(fd); p.check("close(" + I(fd) + ")", r, r < 0); v.open = v.closing = false;
      if (!W.concurrent && !fd_reserved(fd)) W.closed.push_back(fd);
      return true;
    }
    if (o.kind == E_READ) { Buf b(std::max<i64>(o.x, 0)); Pass p; i64 r = g_e_read(fd, b.p, b.n); p.check("read(" + I(fd) + "," + P(b.p) + "," + I(b.n) + ")", r, r < 0); b.done(); return true; }
    if (o.kind == E_LSEEK) { i64 off = std::max<i64>(-1000000, std::min<i64>(1000000, o.x)); Pass p; i64 r = g_e_lseek(fd, off, o.a); p.check("lseek(" + I(fd) + "," + I(off) + "," + I(o.a) + ")", r, r < 0); return true; }
    if (o.kind == E_FSTAT) { struct stat* st = (struct stat*)user_alloc(sizeof *st); Pass p; int r = g_e_fstat(fd, st); p.check("fstat(" + I(fd) + "," + P(st) + ")", r, r < 0); user_free((u8*)st); return true; }
    if (o.kind == E_PREAD) { Buf b(std::max<i64>(o.x, 0)); Pass p; i64 r = g_e_pread(fd, b.p, b.n, o.y); p.check("pread(" + I(fd) + "," + P(b.p) + "," + I(b.n) + "," + I(o.y) + ")", r, r < 0); b.done(); return true; }
    if (o.kind == E_READV) { struct iovec* iov = (struct iovec*)user_alloc(2 * sizeof(struct iovec)); Buf a(17), b(900); iov[0].iov_base = a.p; iov[0].iov_len = a.n; iov[1].iov_base = b.p; iov[1].iov_len = b.n; Pass p; i64 r = g_e_readv(fd, iov, 2); p.check("readv(" + I(fd) + "," + P(iov) + ",2)", r, r < 0); a.done(); b.done(); user_free((u8*)iov); return true; }
    { Buf b(o.x); cx.passthrough = true; sim_write(fd, b.p, b.n); cx.passthrough = false; b.done(); const FNode* n = fsnode(os_fd_path(fd)); if (n && n->by != 0) note_foreign(os_fd_path(fd)); return true; }
  }
  case E_READDIR: case E_TELLDIR: case E_SEEKDIR: case E_REWIND: case E_CLOSEDIR: case E_DIRFD: {
    DIRS& D = W.d[o.s]; if (!D.open || D.closing) return false;
    if (!D.real) { Op k = o; k.kind = o.kind == E_READDIR ? K_READDIR : o.kind == E_TELLDIR ? K_TELLDIR : o.kind == E_SEEKDIR ? K_SEEKDIR : o.kind == E_REWIND ? K_REWIND : o.kind == E_CLOSEDIR ? K_CLOSEDIR : K_DIRFD; return exec_k(k, API_ENC, nullptr); }
    std::string d = P(D.d);
    if (o.kind == E_READDIR) for (i64 i = 0; i < std::min<i64>(o.x, 20); i++) { Pass p; struct dirent* e = g_e_readdir(D.d); p.check("readdir(" + d + ")", (i64)e, false); if (!e) break; }
    else if (o.kind == E_TELLDIR) { Pass p; long l = g_e_telldir(D.d); p.check("telldir(" + d + ")", l, false); }
    else if (o.kind == E_SEEKDIR) { Pass p; g_e_seekdir(D.d, o.x % 3); p.check("seekdir(" + d + "," + I(o.x % 3) + ")", cx.osret, false); }
    else if (o.kind == E_REWIND) { Pass p; g_e_rewinddir(D.d); p.check("rewinddir(" + d + ")", cx.osret, false); }
    else if (o.kind == E_DIRFD) { Pass p; int r = g_e_dirfd(D.d); p.check("dirfd(" + d + ")", r, false); }
    else if (W.pinned.count(D.fd)) return false;
    else { D.closing = true; W.openfds.erase(D.fd); Pass p; int r = g_e_closedir(D.d); p.check("closedir(" + d + ")", r, false); D.open = D.closing = false; if (!W.concurrent && !fd_reserved(D.fd)) W.closed.push_back(D.fd); }
    return true;
  }
  case E_FDOPENDIR: {
    VFD& v = W.v[o.a]; DIRS& D = W.d[o.s]; if (!v.open || v.closing || D.open) return false;
    if (v.real) { Pass p; void* d = g_e_fdopendir(v.fd); p.check("fdopendir(" + I(v.fd) + ")", (i64)d, !d); if (d) { D = DIRS(); D.open = true; D.real = true; D.d = d; D.fd = v.fd; v.open = false; } return true; }
    bool dir = em().nodes[v.node].type == 'd'; Call c; void* d = g_e_fdopendir(v.fd);
    if (!d) { want_errno(c, "fdopendir"); if (dir && !c.may() && !anybad()) failv("spurious-failure", "fdopendir of a directory's descriptor fails (errno %d)", rt_errno()); return true; }
    if (!dir) failv("wrong-result", "fdopendir of something that is no directory succeeds");
    int fd = g_e_dirfd(d); if (fd != v.fd) failv("fd-alias", "fdopendir of descriptor %d gives a stream of descriptor %d", v.fd, fd);
    D = DIRS(); D.open = true; D.d = d; D.fd = fd; D.m = v.m; D.node = v.node; v.open = false; return true;
  }
  case E_GETCWD: {
    bool wd = o.b && o.a == 0 && o.x == 4096;   // getwd has a buffer of that size
    if (W.vcwd.empty()) {
      Buf b(o.x); char* arg = o.a ? nullptr : (char*)b.p; size_t n = o.a == 1 ? 0 : o.x; Pass p; char* r = wd ? g_e_getwd(arg) : g_e_getcwd(arg, n); p.check("getcwd(" + P(arg) + "," + I(n) + ")", (i64)r, !r); if (r && !arg) lib_free(r, nullptr); b.done(); return true;
    }
    std::string want = os_norm(W.vcwd); Buf b(o.x); char* arg = o.a ? nullptr : (char*)b.p; size_t n = o.a == 1 ? 0 : o.x; Call c; char* r = wd ? g_e_getwd(arg) : g_e_getcwd(arg, n); size_t len = W.vcwd.size() - 1;
    if (!r) {
      want_errno(c, "getcwd"); if (o.a == 0 && n > len && !c.may()) failv("spurious-failure", "getcwd with a buffer of %zu bytes fails (errno %d)", n, rt_errno());
      if (o.a == 1 && !c.may()) failv("spurious-failure", "getcwd fails (errno %d)", rt_errno());
      if (o.a == 0 && n && n <= len && !c.may() && rt_errno() != ERANGE) failv("wrong-errno", "getcwd with a too small buffer: errno %d", rt_errno());
    } else {
      if (o.a == 0 && r != arg) failv("wrong-result", "getcwd returns a pointer that is not the caller's buffer");
      std::string got = lib_str(r); if (os_norm(got) != want || got.empty() || (got.size() > 1 && got.back() == '/')) failv("wrong-data", "getcwd returns \"%s\", the working directory is \"%s\"", got.c_str(), want.c_str());
      if (o.a) { size_t sz; bool live; if (!lib_block((uptr)r, &sz, &live) || !live) failv("bad-free", "getcwd hands over memory the caller cannot free"); lib_free(r, nullptr); }
      else if (!b.untouched(got.size() + 1)) failv("buffer-overrun", "getcwd changed the buffer behind its result");
    }
    b.done(); return true;
  }
  default: break;
  }
  if (o.kind == E_EXEPATH) { if (o.x > (1 << 20)) return false;
    size_t cap = o.x > 0 ? o.x : 0; Buf b(cap); size_t* n = (size_t*)user_alloc(sizeof *n); *n = cap; Call c; int r = g_e_exepath(o.a == 1 ? nullptr : (char*)b.p, o.a == 2 ? nullptr : n); b.done();
    if (o.a || !cap) { if (r != -1) failv("wrong-result", "%s without a place for the answer gives %d", TN, r); user_free((u8*)n); return true; }
    if (r == -1) { if (!c.may()) failv("spurious-failure", "%s with %zu bytes fails", TN, cap); user_free((u8*)n); return true; }
    std::string want = OS_EXE.substr(0, cap - 1); if (r || *n != want.size() || memcmp(b.p, want.c_str(), want.size() + 1)) failv("wrong-result", "%s with %zu bytes gives %d and a name of %zu bytes that is not the program's", TN, cap, r, *n);
    if (!b.untouched(want.size() + 1)) failv("buffer-overrun", "%s changed the buffer behind its result", TN);
    user_free((u8*)n); return true;
  }
  if (o.kind == E_SYMLINK) {   // the application, working in the shadow directory, makes a link there: that is no redirected call
    std::vector<std::string> dirs; for (auto& f : os_fs()) if (f.second.dir && f.second.by == 0 && f.second.life == W.life && (f.second.mode & 0200)) dirs.push_back(f.first);
    if (W.workdir.empty() || dirs.empty()) return false;
    std::string at = dirs[o.x % dirs.size()] + "/" + o.p, k = "/home/app/keep"; if (os_fs().count(at)) return false;
    for (auto& d : {k, k + "/sub"}) if (!os_fs().count(d)) { os_put_dir(d, 2); note_foreign(d); }
    for (auto& f : {k + "/data", k + "/sub/data"}) if (!os_fs().count(f)) { os_put_file(f, "data of " + f, 2); note_foreign(f); }
    os_put_link(at, o.a == 0 ? k : o.a == 1 ? k + "/data" : o.a == 2 ? "/home/app/nowhere" : o.a == 3 ? "." : "../../home/app/keep/sub", 0); return true;
  }
  // ---- calls on paths ----
  if (o.p.empty()) return false;
  bool enc = enclosed(o.p); std::string vp = enc ? expand(o.p) : o.p;
  static const int fl[] = {O_RDONLY, O_CREAT | O_RDWR, O_CREAT | O_EXCL | O_RDWR, O_CREAT | O_WRONLY | O_TRUNC};
  int flags = fl[o.a & 3], mode = o.x ? 0644 : 0600;
  if (o.kind == E_IF) { Arg p(o.p); Call c; int r = g_e_if(p.u); int r2 = g_e_ispath(p.u); p.done(); if (!!r != enc) failv("wrong-result", "%s says %d", TN, r); if (!!r2 != is_path(o.p)) failv("wrong-result", "enclose_io_is_path(%s) says %d", o.p.c_str(), r2); return true; }
  if (o.kind == E_OPENAT && enc && !is_path(o.p) && o.b) enc = false;   // relative to a descriptor
  if (!enc) {
    Arg p(o.p); auto done = [&](const std::string& want, i64 r, bool failed, Pass& ps) { ps.check(want, r, failed); };
    switch (o.kind) {
    case E_STAT: case E_LSTAT: { struct stat* st = (struct stat*)user_alloc(sizeof *st); Pass s; int r = o.kind == E_STAT ? g_e_stat(nullptr, p.u, st) : g_e_lstat(nullptr, p.u, st); done(std::string(o.kind == E_STAT ? "stat(" : "lstat(") + o.p + "," + P(st) + ")", r, r < 0, s); user_free((u8*)st); break; }
    case E_ACCESS: { Pass s; int r = g_e_access(p.u, o.a); done("access(" + o.p + "," + I(o.a) + ")", r, r < 0, s); break; }
    case E_READLINK: { Buf b(o.x > 0 ? o.x : 16); Pass s; i64 r = g_e_readlink(nullptr, p.u, (char*)b.p, b.n); done("readlink(" + o.p + "," + P(b.p) + "," + I(b.n) + ")", r, r < 0, s); b.done(); break; }
    case E_MKDIR: { Pass s; int r = g_e_mkdir(p.u, o.a); done("mkdir(" + o.p + "," + I(o.a) + ")", r, r < 0, s); if (!r) note_foreign(os_norm(o.p)); break; }
    case E_CHDIR: { if (W.concurrent) return false; Pass s; int r = g_e_chdir(p.u); done("chdir(" + o.p + ")", r, r < 0, s); if (!r) W.vcwd.clear(); break; }
    case E_OPENDIR: { if (W.d[o.s].open) { p.done(); return false; } Pass s; void* d = g_e_opendir(nullptr, p.u); done("opendir(" + o.p + ")", (i64)d, !d, s); if (d) { DIRS& D = W.d[o.s]; D = DIRS(); D.open = true; D.real = true; D.d = d; D.fd = os_dir_fd(d); } break; }
    case E_SCANDIR: { struct dirent*** out = (struct dirent***)user_alloc(sizeof(void*)); *out = nullptr; Pass s; int r = g_e_scandir(nullptr, p.u, out, sel_fn(o.s), cmp_fn(o.b)); done("scandir(" + o.p + ")", r, r < 0, s); if (r >= 0) { want_list(out, r, os_norm(o.p), o, TN); free_list(*out, r); } user_free((u8*)out); break; }
    case E_OPEN: case E_OPENAT: {
      if (W.v[o.s].open) { p.done(); return false; }
      int dfd = o.b ? 987 : AT_FDCWD; Pass s; int fd = o.kind == E_OPEN ? call_open(o, p.u, flags, mode) : call_openat(o, p.u, flags, mode); std::string md = I(flags & O_CREAT ? mode : 0);
      done(o.kind == E_OPEN ? "open(" + o.p + "," + I(flags) + "," + md + ")" : "openat(" + I(dfd) + "," + o.p + "," + I(flags) + "," + md + ")", fd, fd < 0, s);
      if (fd >= 0) { std::string q = os_fd_path(fd); reg_real(o.s, fd, q, TN, flags); const FNode* n = fsnode(q); if (n && n->by != 0) note_foreign(q); }
      break;
    }
    case E_IFEXTRACT: { size_t n0 = cx.oscalls.size(); const char* r = g_e_extract(nullptr, p.u, nullptr); if (r != p.u) failv("wrong-result", "%s of a path outside the image does not give it back", TN); if (cx.oscalls.size() != n0) failv("pass-through", "%s of a path outside the image calls the operating system (%s)", TN, cx.oscalls[n0].c_str()); break; }
    case E_DLOPEN: { Pass s; void* r = g_e_dlopen(p.u, 1); done("dlopen(" + o.p + ",1)", (i64)r, false, s); break; }
    case E_EXECV: {
      int n = std::max<int>(1, o.x); char** av = (char**)user_alloc((n + 1) * sizeof(char*)); std::string w = "execv(" + o.p; std::vector<Arg*> as; for (int i = 0; i < n; i++) { as.push_back(new Arg("arg" + I(i))); av[i] = as[i]->u; w += ",arg" + I(i); } av[n] = nullptr;
      Pass s; int r = g_e_execv(p.u, av); done(w + ")", r, r < 0, s); for (auto a : as) { a->done(); delete a; } user_free((u8*)av); break;
    }
    default: p.done(); return false;
    }
    p.done(); return true;
  }
  if (vp.size() > (o.kind == E_CHDIR ? 2047 : 2048) && (o.p[0] != '/' || o.kind == E_CHDIR)) {   // longer than the library's paths can be: refused, and nothing is touched
    if (W.concurrent && o.kind == E_CHDIR) return false;
    if (((o.kind == E_OPEN || o.kind == E_OPENAT) && W.v[o.s].open) || (o.kind == E_OPENDIR && W.d[o.s].open)) return false;
    Arg p(o.p); struct stat* st = (struct stat*)user_alloc(sizeof *st); void** out = (void**)user_alloc(sizeof(void*)); *out = nullptr; char** av = (char**)user_alloc(sizeof(char*)); *av = nullptr; Buf b(16); bool bad = false; size_t n0 = cx.oscalls.size(); std::string cwd0 = os_cwd(); Call c;
    switch (o.kind) {
    case E_STAT: bad = g_e_stat(nullptr, p.u, st) != -1; break;
    case E_LSTAT: bad = g_e_lstat(nullptr, p.u, st) != -1; break;
    case E_ACCESS: bad = g_e_access(p.u, o.a) != -1; break;
    case E_READLINK: bad = g_e_readlink(nullptr, p.u, (char*)b.p, b.n) != -1; break;
    case E_MKDIR: bad = g_e_mkdir(p.u, o.a) != -1; break;
    case E_CHDIR: bad = g_e_chdir(p.u) != -1; break;
    case E_OPENDIR: bad = g_e_opendir(nullptr, p.u) != nullptr; break;
    case E_SCANDIR: bad = g_e_scandir(nullptr, p.u, (struct dirent***)out, sel_fn(o.s), cmp_fn(o.b)) != -1; break;
    case E_OPEN: bad = call_open(o, p.u, flags, mode) != -1; break;
    case E_OPENAT: bad = call_openat(o, p.u, flags, mode) != -1; break;
    case E_IFEXTRACT: bad = g_e_extract(nullptr, p.u, nullptr) != nullptr; break;
    case E_DLOPEN: bad = g_e_dlopen(p.u, 1) != nullptr; break;
    case E_EXECV: bad = g_e_execv(p.u, av) != -1; break;
    default: break;
    }
    int e = rt_errno(); p.done(); b.done(); user_free((u8*)st); user_free((u8*)out); user_free((u8*)av);
    if (bad) failv("wrong-result", "%s of a path of %zu characters, which cannot be looked up, succeeds", TN, vp.size());
    if (e != ENAMETOOLONG) failv("wrong-errno", "%s of a path of %zu characters: errno %d", TN, vp.size(), e);
    if (cx.oscalls.size() != n0 || os_cwd() != cwd0) failv("pass-through", "%s of a path of %zu characters calls the operating system (%s)", TN, vp.size(), cx.oscalls.size() > n0 ? cx.oscalls[n0].c_str() : "chdir");
    return true;
  }
  Loc l = locate(vp);
  if (o.kind == E_CHDIR) {
    if (W.concurrent) return false;
    std::string before = os_cwd(); Resolved ri = rimg(vp); Arg p(o.p); Call c; std::set<int> nb; need_path(em(), ri, nb); c.blocks(W.m[W.em].img, nb); int r = g_e_chdir(p.u); p.done();
    if (r != 0 && r != -1) failv("wrong-result", "%s returned %d", TN, r);
    if (r) want_errno(c, TN);
    bool sd = l.shadow && fsnode(l.real) && fsnode(l.real)->dir, ok = l.shadow ? sd : isdir(ri);
    if (!r && !ok) failv("wrong-result", "%s succeeds although it is no directory", TN);
    if (r && ok && !c.may() && !(!l.shadow && ri.links > MAXLINKS)) failv("spurious-failure", "%s fails (errno %d)", TN, rt_errno());
    if (!r && l.shadow && os_cwd() != l.real) failv("wrong-result", "%s into the shadow directory leaves the process in %s", TN, os_cwd().c_str());
    if (!r) { W.vcwd = vp; while (W.vcwd.size() > 1 && W.vcwd.back() == '/') W.vcwd.pop_back(); W.vcwd += "/"; }
    return true;
  }
  if (o.kind == E_MKDIR) {
    Resolved ri = rimg(vp); bool inimg = ri.st == RES_OK; std::string np = l.np; bool below = l.in && np.size() > SL; int uses = W.racy.count(np) ? W.racy[np] : 1;
    bool can = below && can_make(np), nopar = below && no_parent(np); if (below && !W.workdir.empty() && fsnode(W.workdir + np.substr(SL))) l.shadow = true;   // a slash at the end makes no difference here
    TGT[tix()] = below ? np.substr(SL) : l.in ? "/" : "";
    if (TGT[tix()] == "/") TGT[tix()] = "";
    Arg p(o.p); Call c; int r = g_e_mkdir(p.u, o.a); int e = rt_errno(); p.done(); find_workdir();
    if (TGT[tix()].empty() && !W.workdir.empty()) TGT[tix()] = "/.";   // only the shadow directory itself
    if (r != 0 && r != -1) failv("wrong-result", "%s returned %d", TN, r);
    bool odd = anybad() || ri.links > MAXLINKS || ri.st == RES_LOOP || ri.st == RES_ERR, lenient = odd || c.may(), onlymem = c.fired() == c.fired(FK_ALLOC) && !c.need && !c.natural();   // want of memory can be told apart from a missing file
    if (r == 0) {
      if (inimg && (!lenient || (!odd && onlymem))) failv("wrong-result", "%s succeeds although it exists in the image", TN);
      if (!l.in) failv("wrong-result", "%s succeeds although it lies outside the enclosed tree", TN);
      if (nopar && !c.may() && !anybad()) failv("wrong-result", "%s succeeds although there is no directory to make it in", TN);
      if (l.shadow) failv("wrong-result", "%s succeeds although it was created before", TN);
      const FNode* n = W.workdir.empty() ? nullptr : fsnode(W.workdir + np.substr(SL));
      if (!n || !n->dir) failv("wrong-result", "%s succeeds but there is no directory in the shadow directory (%s)", TN, W.workdir.c_str());
      if (n->op != cx.id) failv("wrong-result", "%s succeeds although another call made the directory", TN);
      if ((int)n->mode != (o.a & 07777)) failv("wrong-data", "%s makes a directory of mode %o instead of %o", TN, n->mode, o.a & 07777);
    } else {
      want_errno(c, TN);
      if (inimg && !lenient && e != EEXIST) failv("wrong-errno", "%s of something that exists in the image: errno %d", TN, e);
      if (!inimg && l.shadow && !lenient && e != EEXIST) failv("wrong-errno", "%s of something created before: errno %d", TN, e);
      if (!inimg && !l.shadow && can && !odd && !c.may_name() && uses <= 1) failv("spurious-failure", "%s fails (errno %d) although its parent is a directory", TN, e);
      if (inimg && !l.shadow && !l.racy && !lenient && !W.workdir.empty() && below && fsnode(W.workdir + np.substr(SL))) failv("wrong-result", "%s is refused, but hides what the image has there", TN);
    }
    return true;
  }
  if ((o.kind == E_OPEN || o.kind == E_OPENAT) && o.a) {
    if (W.v[o.s].open) return false;
    return do_open_create(o, vp, flags, mode, o.kind == E_OPEN ? call_open : call_openat, TN);
  }
  if (o.kind == E_EXECV) {
    int n = std::max<int>(1, o.x); char** av = (char**)user_alloc((n + 1) * sizeof(char*)); std::string w = "execv(" + OS_EXE + ",arg0," + vp; std::vector<Arg*> as; for (int i = 0; i < n; i++) { as.push_back(new Arg("arg" + I(i))); av[i] = as[i]->u; if (i) w += ",arg" + I(i); } av[n] = nullptr; w += ")";
    size_t n0 = cx.oscalls.size(); Arg p(o.p); Call c; int r = g_e_execv(p.u, av); p.done(); for (auto a : as) { a->done(); delete a; } user_free((u8*)av);
    int ex = 0; for (size_t i = n0; i < cx.oscalls.size(); i++) if (!cx.oscalls[i].compare(0, 6, "execv(")) { ex++; if (cx.oscalls[i] != w) failv("pass-through", "%s reaches the operating system as %s instead of %s", TN, cx.oscalls[i].c_str(), w.c_str()); }
    if (ex != 1 && !(ex == 0 && c.may())) failv("pass-through", "%s makes %d calls of execv", TN, ex);
    if (r != -1) failv("wrong-result", "%s returned %d", TN, r);
    if (ex && (os_env("ENCLOSE_IO_USE_ORIGINAL_RUBY") != "true" || os_env("ENCLOSE_IO_USE_ORIGINAL_NODE") != "true")) failv("pass-through", "%s runs the program without asking it to run the file itself", TN);
    want_errno(c, TN); return true;
  }
  if (o.kind == E_IFEXTRACT || o.kind == E_DLOPEN) {
    if (l.shadow || l.racy) return false;
    TGT[tix()] = "x"; Op k = o; k.kind = K_EXTRACT; k.a = W.em; k.p = vp;
    if (o.kind == E_IFEXTRACT) return exec_k(k, API_ENC, &o.p);
    Resolved r = rimg(vp); if (r.alt != -2) return false; bool reg = r.st == RES_OK && em().nodes[r.node].type == 'f'; if (reg && em().nodes[r.node].size > (4u << 20)) return false;
    size_t n0 = cx.oscalls.size(); Arg p(o.p); Call c; std::set<int> nb; need_path(em(), r, nb); if (reg) need_data(em(), r.node, 0, em().nodes[r.node].size, nb); c.blocks(W.m[W.em].img, nb);
    void* h = g_e_dlopen(p.u, 2); p.done(); std::string nm; int cnt = 0;
    for (size_t i = n0; i < cx.oscalls.size(); i++) { const std::string& s = cx.oscalls[i]; if (!s.compare(0, 7, "dlopen(")) { cnt++; nm = s.substr(7); } }
    if (cnt > 1) failv("pass-through", "%s makes %d calls of dlopen", TN, cnt);
    if (!cnt) { if (h) failv("wrong-result", "%s gives a handle although nothing was loaded", TN); if (reg && !c.may() && r.links <= MAXLINKS) failv("spurious-failure", "%s fails (errno %d)", TN, rt_errno()); return true; }
    if (nm == "(null),2)") failv("wrong-result", "%s of a file that could not be extracted loads the program itself", TN);
    if (!reg) failv("wrong-result", "%s loads %s although it names no file", TN, nm.c_str());
    if ((i64)h != cx.osret && nm.size()) failv("wrong-result", "%s does not return the handle of the operating system", TN);
    k.q.clear(); if (!exec_k(k, API_ENC, &o.p)) return true;
    auto it = W.ext.find({W.m[W.em].gen, vp}); if (it != W.ext.end() && it->second.name + ",2)" != nm) failv("wrong-result", "%s loads %s instead of the extracted %s", TN, nm.c_str(), it->second.name.c_str());
    return true;
  }
  bool sh = l.shadow; const FNode* sn = sh ? fsnode(l.real) : nullptr;
  if (l.racy || sh) {   // something was, or is just being, created there
    bool sure = sh;     // nothing is ever removed, so what was there stays
    Arg p(o.p); Call c;
    switch (o.kind) {
    case E_STAT: case E_LSTAT: { struct stat* st = (struct stat*)user_alloc(sizeof *st); memset(st, 0x5A, sizeof *st); int r = o.kind == E_STAT ? g_e_stat(nullptr, p.u, st) : g_e_lstat(nullptr, p.u, st); if (r != 0 && r != -1) failv("wrong-result", "%s returned %d", TN, r); if (sure) { if (r) failv("spurious-failure", "%s fails (errno %d) although %s was created", TN, rt_errno(), l.real.c_str()); check_real_stat(st, l.real, TN); } else if (r) want_errno(c, TN); user_free((u8*)st); break; }
    case E_ACCESS: { int r = g_e_access(p.u, o.a); if (r != 0 && r != -1) failv("wrong-result", "%s returned %d", TN, r); if (sure && r) failv("spurious-failure", "%s fails (errno %d) although %s was created", TN, rt_errno(), l.real.c_str()); break; }
    case E_READLINK: { Buf b(4200); i64 r = g_e_readlink(nullptr, p.u, (char*)b.p, b.n); if (sure) { if (r >= 0) failv("wrong-result", "%s succeeds on something created there", TN); if (rt_errno() != EINVAL) failv("wrong-errno", "%s of something created there: errno %d", TN, rt_errno()); } b.done(); break; }
    case E_OPEN: case E_OPENAT: {
      if (W.v[o.s].open) { p.done(); return false; }
      int fd = o.kind == E_OPEN ? call_open(o, p.u, flags, mode) : call_openat(o, p.u, flags, mode);
      if (fd < 0) { want_errno(c, TN); if (sure && !c.may()) failv("spurious-failure", "%s fails (errno %d) although %s was created", TN, rt_errno(), l.real.c_str()); break; }
      if (g_valid_vfd(fd)) { if (sure) failv("wrong-result", "%s opens the image's object although %s was created", TN, l.real.c_str()); Resolved r = rimg(vp); if (r.st != RES_OK) failv("wrong-result", "%s succeeds although it names nothing", TN); reg_open(fd, TN); VFD& v = W.v[o.s]; v = VFD(); v.open = true; v.fd = fd; v.m = W.em; v.gen = W.m[W.em].gen; v.node = r.node; }
      else { find_workdir(); reg_real(o.s, fd, W.workdir + (l.np.size() > SL ? l.np.substr(SL) : ""), TN, flags); }
      break;
    }
    case E_OPENDIR: {
      if (W.d[o.s].open) { p.done(); return false; }
      void* d = g_e_opendir(nullptr, p.u);
      if (!d) { want_errno(c, TN); if (sure && sn->dir && !c.may()) failv("spurious-failure", "%s fails (errno %d) although %s was created", TN, rt_errno(), l.real.c_str()); break; }
      DIRS& D = W.d[o.s]; int vfd = g_find_entry(d);
      if (vfd != -1) { if (sure) failv("wrong-result", "%s opens the image's object although %s was created", TN, l.real.c_str()); Resolved r = rimg(vp); if (!isdir(r)) failv("wrong-result", "%s succeeds although it is no directory", TN); reg_open(vfd, TN); D = DIRS(); D.open = true; D.d = d; D.fd = vfd; D.m = W.em; D.node = r.node; }
      else { find_workdir(); if (sure && !sn->dir) failv("wrong-result", "%s succeeds although a file was created there", TN); int fd = os_dir_fd(d); if (fd < 0) failv("wrong-result", "%s returns something that is no directory stream", TN); std::string q = W.workdir + (l.np.size() > SL ? l.np.substr(SL) : ""); if (os_fd_path(fd) != q) failv("wrong-result", "%s opens %s instead of %s", TN, os_fd_path(fd).c_str(), q.c_str()); W.openfds.insert(fd); D = DIRS(); D.open = true; D.real = true; D.d = d; D.fd = fd; }
      break;
    }
    case E_SCANDIR: {
      struct dirent*** out = (struct dirent***)user_alloc(sizeof(void*)); *out = nullptr; int r = g_e_scandir(nullptr, p.u, out, sel_fn(o.s), cmp_fn(o.b));
      if (r < -1) failv("wrong-result", "%s returned %d", TN, r);
      if (sure && r >= 0) { if (!sn->dir) failv("wrong-result", "%s succeeds although a file was created there", TN); want_list(out, r, l.real, o, TN); }
      if (sure && r < 0 && sn->dir && !c.may()) failv("spurious-failure", "%s fails (errno %d) although %s was created", TN, rt_errno(), l.real.c_str());
      if (r >= 0) free_list(*out, r);
      user_free((u8*)out); break;
    }
    default: p.done(); return false;
    }
    p.done(); return true;
  }
  switch (o.kind) {
  case E_STAT: return kvirt(K_STAT, o, &vp, &o.p);
  case E_LSTAT: return kvirt(K_LSTAT, o, &vp, &o.p);
  case E_READLINK: return kvirt(K_READLINK, o, &vp, &o.p);
  case E_OPENDIR: return kvirt(K_OPENDIR, o, &vp, &o.p);
  case E_OPEN: case E_OPENAT: { Op k = o; k.kind = K_OPEN; k.a = W.em; k.p = vp; Api A = API_ENC; if (o.kind == E_OPENAT) { KOA_B = o.b; KOA_X = o.x; A.open = k_open_at; } else if (o.x) A.open = k_open_3; return exec_k(k, A, &o.p); }
  case E_SCANDIR: { Op k = o; k.kind = K_SCANDIR; k.a = W.em; k.p = vp; return exec_k(k, API_ENC, &o.p); }
  case E_ACCESS: {
    Resolved r = rimg(vp); if (r.alt != -2) return false; Arg p(o.p); Call c; std::set<int> nb; need_path(em(), r, nb); c.blocks(W.m[W.em].img, nb); int k = g_e_access(p.u, o.a); int e = rt_errno(); p.done();
    if (k != 0 && k != -1) failv("wrong-result", "%s returned %d", TN, k);
    if (k == 0) { if (r.st != RES_OK) failv("wrong-result", "%s succeeds although it names nothing", TN); return true; }
    if (!e) failv("wrong-errno", "%s failed without setting errno", TN);
    if (r.st == RES_OK && !(o.a & 3) && !c.may() && r.links <= MAXLINKS) failv("spurious-failure", "%s fails (errno %d) although the object exists", TN, e);
    if (r.st == RES_NOENT && !c.may() && r.links <= MAXLINKS && e != ENOENT) failv("wrong-errno", "%s: errno %d for a missing object", TN, e);
    return true;
  }
  default: return false;
  }
}

static bool do_open_create(const Op& o, const std::string& vp, int flags, int mode, int (*call)(const Op&, const char*, int, int), const char* TN) {
  OpCtx& cx = rt_op(); Loc l = locate(vp); const std::string& np = l.np; bool below = l.in && np.size() > SL; int uses = W.racy.count(np) ? W.racy[np] : 1;
  Resolved ri = rimg(vp); bool inimg = ri.st == RES_OK, imgdir = isdir(ri); std::string rest = below ? np.substr(SL) : "";
  bool can = below && vp.back() != '/' && can_make(np), nopar = below && no_parent(np); const FNode* before = l.shadow ? fsnode(l.real) : nullptr; bool bdir = before && before->dir; size_t bsize = before ? before->data.size() : 0;
  TGT[tix()] = rest; cx.allow = rest;
  Arg p(o.p); Call c; int fd = call(o, p.u, flags, mode); int e = rt_errno(); p.done(); cx.allow.clear(); find_workdir();
  if (rest.empty() && !W.workdir.empty()) TGT[tix()] = "/.";
  bool lenient = c.fired() > (c.fired(FK_SQUAT) <= 20 ? c.fired(FK_SQUAT) : 0) || c.need || anybad() || ri.links > MAXLINKS || ri.st == RES_LOOP || ri.st == RES_ERR; bool excl = flags & O_EXCL; bool strict = !lenient || (c.fired() == c.fired(FK_ALLOC) && !c.need && !anybad() && ri.links <= MAXLINKS && ri.st == RES_OK);
  if (fd < 0) {
    if (fd != -1) failv("wrong-result", "%s returned %d", TN, fd);
    want_errno(c, TN);
    if (lenient || !can) return true;
    bool refuse = l.shadow ? bdir || excl : imgdir || (inimg && excl);
    if (refuse) { int w = (l.shadow ? excl : inimg && excl) ? EEXIST : EISDIR; if (e != w && uses <= 1 && !(bdir && (e == EEXIST || e == EISDIR)) && !(imgdir && (e == EEXIST || e == EISDIR))) failv("wrong-errno", "%s is refused with errno %d", TN, e); return true; }
    if (uses <= 1 && e != EMFILE) failv("spurious-failure", "%s cannot be created (errno %d) although its parent is a directory", TN, e);
    return true;
  }
  if (!below) failv("wrong-result", "%s creates something outside the enclosed tree", TN);
  if (nopar && !c.may() && !anybad()) failv("wrong-result", "%s succeeds although there is no directory to make it in", TN);
  if (l.shadow && excl) failv("wrong-result", "%s creates exclusively what was there already", TN);
  if (vp.back() == '/') failv("wrong-result", "%s makes a file under a name that only a directory can have", TN);
  if (l.shadow && bdir) failv("wrong-result", "%s opens a directory for writing", TN);
  if (!l.shadow && imgdir && strict && !l.racy) failv("wrong-result", "%s creates a file where the image has a directory", TN);
  if (!l.shadow && inimg && excl && strict && !l.racy) failv("wrong-result", "%s creates exclusively what the image has", TN);
  std::string q = W.workdir + rest; const FNode* n = fsnode(q);
  if (W.workdir.empty() || !n || n->dir) failv("wrong-result", "%s succeeds but there is no file in the shadow directory (%s)", TN, W.workdir.c_str());
  reg_real(o.s, fd, q, TN, flags);
  if (excl && n->op != cx.id) failv("wrong-result", "%s creates exclusively what another call made", TN);
  if (n->op == cx.id && (int)n->mode != mode) failv("wrong-data", "%s makes a file of mode %o instead of %o", TN, n->mode, mode);
  if (!W.concurrent && l.shadow && n->data.size() != (flags & O_TRUNC ? 0 : bsize)) failv("wrong-data", "%s leaves %zu bytes in the file", TN, n->data.size());
  return true;
}

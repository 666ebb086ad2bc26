#include "image.h"
#include <zlib.h>
#include <sys/stat.h>

u32 Node::mode() const {
  u32 t = type == 'd' ? S_IFDIR : type == 'f' ? S_IFREG : type == 'l' ? S_IFLNK : type == 'b' ? S_IFBLK : type == 'c' ? S_IFCHR : type == 'p' ? S_IFIFO : S_IFSOCK;
  return t | perm;
}

// ---- text form -----------------------------------------------------------------------------------------------------
static std::string esc(const std::string& s) { std::string r; char b[8]; for (unsigned char c : s) { if (c <= 32 || c >= 127 || c == '%') { snprintf(b, sizeof b, "%%%02x", c); r += b; } else r += (char)c; } return r.empty() ? "%-" : r; }
static std::string unesc(const std::string& s) { std::string r; if (s == "%-") return r; for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else r += s[i]; return r; }
std::string img_to_text(const ImageR& r) {
  char b[256];
  snprintf(b, sizeof b, "image %u %u %d %d %d %d %d %u %u %u %d %zu %d %lu %d %u %u\n", r.blocklog, r.offset, r.cmd, r.cdata, r.cfrag, r.xport, r.index, r.seed, r.nids, r.mdpad, r.frags, r.nodes.size(), r.gapat, (unsigned long)r.gap, r.junk, r.inostep, r.fragpad);
  std::string o = b;
  for (auto& n : r.nodes) {
    snprintf(b, sizeof b, "n %d %c %u %u %u %u %d %u %u %u %d ", n.parent, n.type, n.perm, n.uidx, n.gidx, n.mtime, n.ext, n.seed, n.major, n.minor, n.link);
    o += b; o += esc(n.name) + " " + esc(n.target) + " ";
    snprintf(b, sizeof b, "%u %c %zu", n.tail, n.tailk, n.runs.size()); o += b;
    for (auto& u : n.runs) { snprintf(b, sizeof b, " %c %u", u.k, u.n); o += b; }
    o += "\n";
  }
  return o;
}
bool img_from_lines(const std::vector<std::string>& L, ImageR& r) {
  r = ImageR();
  for (auto& l : L) {
    if (!l.compare(0, 6, "image ")) { int a, b, c, d, e, f; size_t n; if (sscanf(l.c_str(), "image %u %u %d %d %d %d %d %u %u %u %d %zu %d %lu %d %u %u", &r.blocklog, &r.offset, &a, &b, &c, &d, &e, &r.seed, &r.nids, &r.mdpad, &f, &n, &r.gapat, &r.gap, &r.junk, &r.inostep, &r.fragpad) < 12) return false; r.cmd = a; r.cdata = b; r.cfrag = c; r.xport = d; r.index = e; r.frags = f; }
    else if (!l.compare(0, 2, "n ")) {
      NodeR n; int ext; char nm[2048], tg[8192]; int used = 0; size_t nr;
      if (sscanf(l.c_str(), "n %d %c %u %u %u %u %d %u %u %u %d %2047s %8191s %u %c %zu%n", &n.parent, &n.type, &n.perm, &n.uidx, &n.gidx, &n.mtime, &ext, &n.seed, &n.major, &n.minor, &n.link, nm, tg, &n.tail, &n.tailk, &nr, &used) < 16) return false;
      n.ext = ext; n.name = unesc(nm); n.target = unesc(tg);
      const char* p = l.c_str() + used; for (size_t i = 0; i < nr; i++) { Run u; int k; if (sscanf(p, " %c %u%n", &u.k, &u.n, &k) < 2) return false; p += k; n.runs.push_back(u); }
      r.nodes.push_back(n);
    }
  }
  return !r.nodes.empty();
}

// ---- contents ------------------------------------------------------------------------------------------------------
static void fill_block(u8* o, u32 seed, u32 blk, char k, u32 len) {
  if (k == 'h') { memset(o, 0, len); return; }
  u64 x = hmix(hmix(seed, 0x5151), blk);
  if (k == 'u') { Rng r(x); for (u32 i = 0; i < len; i += 8) { u64 v = r.next(); u32 n = len - i < 8 ? len - i : 8; memcpy(o + i, &v, n); } return; }
  // compressible but different everywhere: a 64-byte pattern of this block with a running counter every 64 bytes
  u8 pat[64]; Rng r(x); for (int i = 0; i < 64; i++) pat[i] = 'a' + r.below(26);
  for (u32 i = 0; i < len; i++) o[i] = (i & 63) < 4 ? (u8)((i >> 6) >> ((i & 3) * 4) & 15) + '0' : pat[i & 63];
}
void Image::content(int node, u64 off, u64 len, std::string& out) const {
  const Node& n = nodes[node]; out.clear();
  if (off >= n.size) return;
  if (len > n.size - off) len = n.size - off;
  out.resize(len); std::vector<u8> tmp(bs);
  u64 p = off;
  while (p < off + len) {
    u32 b = p / bs; u32 in = p % bs; u64 bl = std::min<u64>(bs, n.size - (u64)b * bs); u32 take = std::min<u64>(bl - in, off + len - p);
    char k = b < n.blkKind.size() ? n.blkKind[b] : 'z';
    if (k == 'h') memset(&out[p - off], 0, take);
    else { fill_block(tmp.data(), n.seed, b, k, bl); memcpy(&out[p - off], tmp.data() + in, take); }
    p += take;
  }
}
int Image::child(int dir, const std::string& name) const {
  auto& k = nodes[dir].kids;
  auto it = std::lower_bound(k.begin(), k.end(), name, [](const Kid& a, const std::string& b) { return a.name < b; });
  return it != k.end() && it->name == name ? it->node : -1;
}

// ---- builder -------------------------------------------------------------------------------------------------------
static std::vector<u8> zcomp(const u8* p, size_t n) { uLongf l = compressBound(n); std::vector<u8> o(l); compress2(o.data(), &l, p, n, 6); o.resize(l); return o; }
struct MdW {
  Image& im; bool comp; char kind; std::vector<u8> out, buf; std::vector<int> sbs; std::vector<std::pair<u32, int>> starts;  // block start -> index in sbs
  std::vector<SB> pend; u64 raw = 0;
  MdW(Image& i, bool c, char k) : im(i), comp(c), kind(k) {}
  void flush() {
    if (buf.empty()) return;
    std::vector<u8> z; if (comp) z = zcomp(buf.data(), buf.size());
    bool c = comp && z.size() < buf.size(); const std::vector<u8>& d = c ? z : buf;
    u16 h = (u16)d.size() | (c ? 0 : 0x8000);
    pend.push_back({kind, (u32)out.size() + 2, (u32)out.size(), (u32)d.size(), c});
    out.push_back(h & 255); out.push_back(h >> 8); out.insert(out.end(), d.begin(), d.end()); buf.clear();
  }
  u32 block() { if (buf.size() == 8192) flush(); return out.size(); }
  u32 off() { if (buf.size() == 8192) flush(); return buf.size(); }
  void junk(int n) {   // full blocks that nothing refers to; the next thing written starts a block
    if (!buf.empty()) buf.resize(8192, 0);
    flush(); for (; n > 0; n--) { out.push_back(0); out.push_back(0xa0); out.insert(out.end(), 8192, 0x5a); }
  }
  size_t idx() { if (buf.size() == 8192) flush(); return pend.size(); }
  void put(const void* p, size_t n) { const u8* q = (const u8*)p; raw += n; while (n) { if (buf.size() == 8192) flush(); size_t k = std::min(n, 8192 - buf.size()); buf.insert(buf.end(), q, q + k); q += k; n -= k; } }
};
struct W { std::vector<u8> b; void u(u64 v, int n) { for (int i = 0; i < n; i++) b.push_back(v >> (8 * i)); } void s(const std::string& t) { b.insert(b.end(), t.begin(), t.end()); } };

struct Builder {
  Image& im; const ImageR& r; MdW iw, dw; std::vector<std::vector<int>> kids; std::vector<bool> done; u32 nextino = 1; int ijunk = 0, djunk = 0;
  struct FragE { u64 start; u32 size; }; std::vector<FragE> frags; std::vector<u8> fragbuf; std::vector<int> fragSB; std::vector<std::pair<int, u32>> fragPend;
  std::vector<u32> nfrag, nfoff; std::vector<u64> nstart; std::vector<std::vector<u32>> nhdr; std::vector<std::pair<size_t, size_t>> inoR, listR;
  Builder(Image& i) : im(i), r(i.r), iw(i, i.r.cmd, 'i'), dw(i, i.r.cmd, 'd') {}
  void raw(const void* p, size_t n) { im.bytes.insert(im.bytes.end(), (const u8*)p, (const u8*)p + n); }
  u64 here() { return im.bytes.size() + im.gapLen - r.offset; }
  void gap(int k, u64 twin = 0) { u64 to = r.gap == 1 ? (1ull << 32) + twin : r.gap; if (r.gapat == k && to > here() && !im.gapLen) { im.gapAt = im.bytes.size(); im.gapLen = to - here(); } }
  void flush_frag() {
    if (fragbuf.empty()) return;
    std::vector<u8> z; if (r.cfrag) z = zcomp(fragbuf.data(), fragbuf.size());
    bool c = r.cfrag && z.size() < fragbuf.size(); const std::vector<u8>& d = c ? z : fragbuf;
    frags.push_back({here(), (u32)d.size() | (c ? 0u : 1u << 24)});
    im.sbs.push_back({'F', (u32)im.bytes.size(), 0, (u32)d.size(), c}); fragSB.push_back(im.sbs.size() - 1);
    raw(d.data(), d.size()); fragbuf.clear();
  }
  void data(int id) {
    const NodeR& n = r.nodes[id]; Node& m = im.nodes[id]; u32 bs = im.bs;
    m.seed = hmix(hmix(r.seed, 77), n.seed);
    for (auto& u : n.runs) for (u32 i = 0; i < u.n; i++) m.blkKind.push_back(u.k);
    u32 full = m.blkKind.size(); u32 tail = n.tail % bs; m.size = (u64)full * bs + tail; bool isfrag = tail && n.tailk == 'f' && r.frags;
    m.tail = tail; m.tailk = tail ? (isfrag ? 'f' : 'b') : 0;
    if (tail) m.blkKind.push_back(n.tailk == 'h' ? 'h' : n.tailk == 'u' ? 'u' : 'z');
    if (tail && m.blkKind.back() == 'z' && isfrag && (n.seed & 1)) m.blkKind.back() = 'u';
    u32 stored = full + (tail && !isfrag ? 1 : 0); m.nblocks = stored; m.blockidx = stored >= 2048;
    nstart[id] = here(); std::vector<u8> b(bs);
    for (u32 k = 0; k < stored; k++) {
      u32 len = k < full ? bs : tail; char kd = m.blkKind[k];
      if (kd == 'h') { nhdr[id].push_back(0); m.blkSB.push_back(-1); continue; }
      fill_block(b.data(), m.seed, k, kd, len);
      std::vector<u8> z; if (kd == 'z' && r.cdata) z = zcomp(b.data(), len);
      bool c = kd == 'z' && r.cdata && z.size() < len;
      im.sbs.push_back({'D', (u32)im.bytes.size(), 0, c ? (u32)z.size() : len, c}); m.blkSB.push_back(im.sbs.size() - 1);
      nhdr[id].push_back((c ? (u32)z.size() : len) | (c ? 0u : 1u << 24));
      raw(c ? z.data() : b.data(), c ? z.size() : len);
    }
    if (isfrag) {
      if (fragbuf.size() + tail > bs || r.frags == 2) flush_frag();
      fill_block(b.data(), m.seed, full, m.blkKind[full], tail);
      nfrag[id] = r.fragpad + frags.size(); nfoff[id] = fragbuf.size(); fragbuf.insert(fragbuf.end(), b.begin(), b.begin() + tail); fragPend.push_back({id, (u32)frags.size()});
    } else nfrag[id] = 0xffffffffu;
  }
  void begin_ino(int id) { Node& m = im.nodes[id]; m.iref = ((u64)iw.block() << 16) | iw.off(); inoR[id].first = iw.idx(); }
  void put_ino(int id, const W& w) { if (r.junk == 1 && ijunk++ == (int)(r.seed % 4) * 10) iw.junk(9); begin_ino(id); iw.put(w.b.data(), w.b.size()); inoR[id].second = iw.pend.size() + (iw.buf.empty() ? 0 : 1); done[id] = true; }
  static int btype(char t) { return t == 'd' ? 1 : t == 'f' ? 2 : t == 'l' ? 3 : t == 'b' ? 4 : t == 'c' ? 5 : t == 'p' ? 6 : 7; }
  void base(W& w, int id, int type) { const NodeR& n = r.nodes[id]; w.u(type, 2); w.u(n.perm & 07777, 2); w.u(n.uidx, 2); w.u(n.gidx, 2); w.u(n.mtime, 4); w.u(im.nodes[id].ino, 4); }
  void leaf(int id) {
    const NodeR& n = r.nodes[id]; Node& m = im.nodes[id]; W w; int t = btype(n.type);
    if (n.type == 'f') {
      bool ext = n.ext || m.nlink > 1 || nstart[id] > 0xffffffffu || m.size > 0xffffffffu;
      if (!ext) { base(w, id, 2); w.u(nstart[id], 4); w.u(nfrag[id], 4); w.u(nfoff[id], 4); w.u(m.size, 4); }
      else { base(w, id, 9); w.u(nstart[id], 8); w.u(m.size, 8); u64 sp = 0; for (size_t q = 0; q < nhdr[id].size(); q++) if (!nhdr[id][q]) sp += im.bs; w.u(std::min<u64>(sp, m.size ? m.size - 1 : 0), 8); w.u(m.nlink, 4); w.u(nfrag[id], 4); w.u(nfoff[id], 4); w.u(0xffffffffu, 4); }
      for (u32 h : nhdr[id]) w.u(h, 4);
    } else if (n.type == 'l') { base(w, id, n.ext ? 10 : 3); w.u(m.nlink, 4); w.u(n.target.size(), 4); w.s(n.target); if (n.ext) w.u(0xffffffffu, 4); }
    else if (n.type == 'b' || n.type == 'c') { base(w, id, t + (n.ext ? 7 : 0)); w.u(m.nlink, 4); w.u(((n.major & 0xfff) << 8) | (n.minor & 0xff) | ((n.minor & 0xfff00) << 12), 4); if (n.ext) w.u(0xffffffffu, 4); }
    else { base(w, id, t + (n.ext ? 7 : 0)); w.u(m.nlink, 4); if (n.ext) w.u(0xffffffffu, 4); }
    put_ino(id, w);
  }
  void dir(int id, u32 parentIno) {
    const NodeR& n = r.nodes[id]; Node& m = im.nodes[id];
    for (auto& k : m.kids) if (im.nodes[k.node].type == 'd') dir(k.node, m.ino); else if (!done[k.node]) leaf(k.node);
    // listing
    if (r.junk == 2 && !m.kids.empty() && djunk++ == (int)(r.seed % 3)) dw.junk(9);
    u32 sblk = dw.block(), soff = dw.off(); size_t first = dw.idx(); u64 start = dw.raw; struct Idx { u32 index, blk; std::string name; }; std::vector<Idx> idx; u64 lastidx = 0;
    size_t i = 0;
    while (i < m.kids.size()) {
      size_t j = i; Node& h = im.nodes[m.kids[i].node]; u32 hb = h.iref >> 16; u64 run = dw.raw - start + 12; i64 hino = h.ino; u32 maxent = 256 - (r.seed % 3 ? 0 : r.seed % 200);
      while (j < m.kids.size() && j - i < maxent) {
        Node& c = im.nodes[m.kids[j].node]; if ((c.iref >> 16) != hb) break; i64 d = (i64)c.ino - hino; if (d < -32768 || d > 32767) break;
        if (j > i && run - lastidx > 8192 && run - (dw.raw - start) > 6000) break;   // mksquashfs starts a new header about every metadata block
        run += 8 + m.kids[j].name.size(); j++;
      }
      u64 pos = dw.raw - start;
      if (pos && m.kids.size() > 200) for (int k = -2; k <= 2; k++) if ((i64)i + k >= 0 && i + k < m.kids.size()) im.hotkids.push_back({id, (int)i + k});
      if (pos && pos - lastidx > 8192) { idx.push_back({(u32)pos, dw.block(), m.kids[i].name}); lastidx = pos; }
      W w; w.u(j - i - 1, 4); w.u(hb, 4); w.u((u32)hino, 4); dw.put(w.b.data(), w.b.size());
      for (size_t k = i; k < j; k++) { Node& c = im.nodes[m.kids[k].node]; W e; e.u(c.iref & 0xffff, 2); e.u((u16)(i16_(c.ino - hino)), 2); e.u(btype(c.type), 2); e.u(m.kids[k].name.size() - 1, 2); e.s(m.kids[k].name);
        m.kids[k].off = k == i ? pos : dw.raw - start; dw.put(e.b.data(), e.b.size()); m.kids[k].nextoff = dw.raw - start; }
      i = j;
    }
    u64 lsize = dw.raw - start; listR[id] = {first, m.kids.empty() ? first : dw.pend.size() + (dw.buf.empty() ? 0 : 1)};
    u32 nsub = 0; for (auto& k : m.kids) if (im.nodes[k.node].type == 'd') nsub++; m.nlink = 2 + nsub;
    W w; bool ext = n.ext || lsize + 3 > 65535 || (r.index && !idx.empty());
    if (!ext) { base(w, id, 1); w.u(sblk, 4); w.u(m.nlink, 4); w.u(lsize + 3, 2); w.u(soff, 2); w.u(parentIno, 4); }
    else { if (!r.index) idx.clear(); base(w, id, 8); w.u(m.nlink, 4); w.u(lsize + 3, 4); w.u(sblk, 4); w.u(parentIno, 4); w.u(idx.size(), 2); w.u(soff, 2); w.u(0xffffffffu, 4); for (auto& x : idx) { w.u(x.index, 4); w.u(x.blk, 4); w.u(x.name.size() - 1, 4); w.s(x.name); } }
    put_ino(id, w);
  }
  static int i16_(i64 v) { return (int)v; }
  u64 table(const std::vector<u8>& d, std::vector<int>& sb) {
    std::vector<u64> pos;
    for (size_t i = 0; i < d.size(); i += 8192) { size_t n = std::min<size_t>(8192, d.size() - i); std::vector<u8> z; if (r.cmd) z = zcomp(&d[i], n); bool c = r.cmd && z.size() < n; u16 h = (u16)(c ? z.size() : n) | (c ? 0 : 0x8000);
      pos.push_back(here()); u8 hb[2] = {(u8)h, (u8)(h >> 8)}; raw(hb, 2); im.sbs.push_back({'t', (u32)im.bytes.size(), (u32)im.bytes.size() - 2, (u32)(c ? z.size() : n), c}); sb.push_back(im.sbs.size() - 1); raw(c ? z.data() : &d[i], c ? z.size() : n); }
    u64 st = here(); for (u64 p : pos) raw(&p, 8); return st;
  }
  void build() {
    size_t N = r.nodes.size(); im.bs = 1u << r.blocklog; im.nodes.assign(N, Node()); kids.resize(N); done.assign(N, false); nfrag.assign(N, 0xffffffffu); nfoff.assign(N, 0); nstart.assign(N, 0); nhdr.resize(N); inoR.resize(N); listR.resize(N);
    for (size_t i = 0; i < N; i++) { const NodeR& n = r.nodes[i]; Node& m = im.nodes[i]; m.type = n.type; m.perm = n.perm & 07777; m.mtime = n.mtime; m.parent = i ? n.parent : -1; m.target = n.target; m.major = n.major & 0xfff; m.minor = n.minor & 0xfffff; m.rid = i; m.uidx = n.uidx; if (n.type == 'l') m.size = n.target.size(); m.nlink = n.type == 'f' || n.type == 'H' ? 1 : n.seed % 23 == 5 ? 70000 + n.seed % 9 : 1 + n.seed % 4; }
    for (size_t i = 1; i < N; i++) { const NodeR& n = r.nodes[i]; int tgt = i; if (n.type == 'H') { tgt = n.link; if (tgt < 0 || tgt >= (int)N || r.nodes[tgt].type == 'H' || r.nodes[tgt].type == 'd') continue; im.nodes[tgt].nlink++; } im.nodes[n.parent].kids.push_back({n.name, tgt, 0, 0}); }
    for (auto& m : im.nodes) { std::sort(m.kids.begin(), m.kids.end(), [](const Kid& a, const Kid& b) { return a.name < b.name; }); }
    // inode numbers: shuffled a little so that deltas go both ways
    std::vector<u32> nums; for (u32 i = 0; i < N; i++) if (r.nodes[i].type != 'H') nums.push_back(nums.size() + 1); u32 ninodes = nums.size(); if (!r.xport) { static const u32 from[] = {0, 0, 65000, 70000, 0x7fffff80, 0x90000000}; u32 f = from[hmix(r.seed, 91) % 6]; u32 m = r.inostep >= 32768 && N < 30000 ? (u32)(hmix(r.seed, 92) % 4) : 0; for (u32& n : nums) n = (m > 1 ? n % m * r.inostep + n / m : n * r.inostep) + f; }   // as in an image with many more inodes
    Rng g(hmix(r.seed, 5)); if (r.seed & 1) for (size_t i = nums.size(); i-- > 1;) std::swap(nums[i], nums[g.below(i + 1)]);
    size_t q = 0; for (u32 i = 0; i < N; i++) if (r.nodes[i].type != 'H') im.nodes[i].ino = nums[q++];
    im.bytes.assign(r.offset, 0xEE); im.bytes.resize(r.offset + 96, 0); bool opts = hmix(r.seed, 93) % 5 == 0;   // the options of the compressor follow the superblock
    if (opts) { u8 o[10] = {8, 0x80, 9, 0, 0, 0, 15, 0, 0, 0}; raw(o, 10); }
    gap(1);
    for (size_t i = 0; i < N; i++) if (r.nodes[i].type == 'f') { if (!im.sbs.empty()) gap(7, im.sbs[0].pos - r.offset); data(i); }
    flush_frag();
    dir(0, N + 1); iw.flush(); dw.flush();
    auto putmd = [&](MdW& w) { u64 st = here(); size_t b0 = im.sbs.size(); u32 base = im.bytes.size(); for (auto s : w.pend) { s.pos += base; s.hdr += base; im.sbs.push_back(s); } raw(w.out.data(), w.out.size()); return std::make_pair(st, b0); };
    gap(2); auto is = putmd(iw); gap(3, is.first); auto ds = putmd(dw); gap(4, is.first);
    for (size_t i = 0; i < N; i++) { for (size_t k = inoR[i].first; k < inoR[i].second; k++) im.nodes[i].inoSB.push_back(is.second + k); for (size_t k = listR[i].first; k < listR[i].second; k++) im.nodes[i].listSB.push_back(ds.second + k); }
    W ft; for (u32 i = 0; i < r.fragpad && !frags.empty(); i++) { ft.u(0, 8); ft.u(0, 8); } for (auto& f : frags) { ft.u(f.start, 8); ft.u(f.size, 4); ft.u(0, 4); }
    std::vector<int> ftSB, xSB; u64 fts = ~0ull, xts = ~0ull; 
    if (!frags.empty()) fts = table(ft.b, ftSB); else fts = here();
    for (auto& p : fragPend) { im.nodes[p.first].fragSB = fragSB[p.second]; im.nodes[p.first].fragTabSB = ftSB[(p.second + r.fragpad) / 512]; }
    gap(5, is.first); if (r.xport) { std::vector<u64> x(ninodes, 0); for (size_t i = 0; i < N; i++) if (r.nodes[i].type != 'H' && im.nodes[i].ino) x[im.nodes[i].ino - 1] = im.nodes[i].iref; W w; for (u64 v : x) w.u(v, 8); xts = table(w.b, xSB); for (size_t i = 0; i < N; i++) if (im.nodes[i].ino) im.nodes[i].xportSB = xSB[(im.nodes[i].ino - 1) / 1024]; }
    u32 nids = r.nids + r.mdpad; W iw2; for (u32 i = 0; i < nids; i++) { u32 v = (u32)hmix(r.seed, i); if (hmix(r.seed, 92) % 3) v &= 0x7fffffff; im.ids.push_back(v); iw2.u(v, 4); }
    gap(6, is.first); u64 its = table(iw2.b, im.idTabSB);
    u64 used = here(); W s;
    s.u(0x73717368, 4); s.u(ninodes, 4); s.u(r.seed, 4); s.u(im.bs, 4); s.u(frags.empty() ? 0 : r.fragpad + frags.size(), 4); s.u(1, 2); s.u(r.blocklog, 2); s.u((r.cmd ? 0 : 1) | (r.cdata ? 0 : 2) | (r.cfrag ? 0 : 8) | (r.frags ? 0 : 16) | (r.xport ? 128 : 0) | (opts ? 1024 : 0) | (hmix(r.seed, 94) & 0x60) | (hmix(r.seed, 95) % 3 ? 512 : 0), 2); s.u(nids, 2); s.u(4, 2); s.u(0, 2);
    s.u(im.nodes[0].iref, 8); s.u(used, 8); s.u(its, 8); s.u(~0ull, 8); s.u(is.first, 8); s.u(ds.first, 8); s.u(fts, 8); s.u(xts, 8);
    memcpy(&im.bytes[r.offset], s.b.data(), 96);
    while (im.bytes.size() % 4096) im.bytes.push_back(0);   // as mksquashfs pads; the library may not rely on it
    im.key = hmix(hmix(im.bytes.size(), r.seed), im.gapAt + im.gapLen); for (size_t i = 0; i < im.bytes.size(); i += 61) im.key = hmix(im.key, im.bytes[i]);
  }
};
Image* img_build(const ImageR& r) { Image* im = new Image; im->r = r; Builder b(*im); b.build(); return im; }

// ---- resolution ----------------------------------------------------------------------------------------------------
static std::vector<std::string> comps(const std::string& p) { std::vector<std::string> v; size_t i = 0; while (i < p.size()) { while (i < p.size() && p[i] == '/') i++; size_t j = i; while (j < p.size() && p[j] != '/') j++; if (j > i) v.push_back(p.substr(i, j - i)); i = j; } return v; }
std::string link_text(const std::string& t, const std::vector<std::string>& alias) { for (auto& a : alias) if (!a.empty() && t.size() >= a.size() && !t.compare(0, a.size(), a)) return t.substr(a.size() - 1); return t; }
// Lexical rule of the library: '..' removes the component before it, before anything is looked up.
static bool lexical(const std::string& p, std::vector<std::string>& out) { out.clear(); for (auto& c : comps(p)) { if (c == ".") continue; if (c == "..") { if (out.empty()) return false; out.pop_back(); } else out.push_back(c); } return true; }
// A link takes the place of its name: a relative target is taken from the directory the link was found in, an absolute one from the root.
static void walk(const Image& im, std::vector<std::string> c, bool follow, const std::vector<std::string>& al, Resolved& r) {
again:
  int cur = 0; r.visited.push_back(0);
  for (size_t i = 0; i < c.size(); i++) {
    if (im.nodes[cur].type != 'd') { r.st = RES_ERR; return; }
    int k = im.child(cur, c[i]);
    if (k < 0) { r.st = RES_NOENT; r.visited.push_back(-2 - cur); return; }   // the whole listing may be read
    r.visited.push_back(k);
    if (im.nodes[k].type == 'l' && (follow || i + 1 < c.size())) {
      if (++r.links > 300) { r.st = RES_LOOP; return; }
      if (im.nodes[k].target.size() > 2048) { r.st = RES_ERR; return; }   // longer than any path
      std::string t = link_text(im.nodes[k].target, al), np; std::vector<std::string> nc;
      if (t[0] != '/') for (size_t j = 0; j < i; j++) np += "/" + c[j];
      np += "/" + t;
      for (size_t j = i + 1; j < c.size(); j++) np += "/" + c[j];
      if (!lexical(np, nc)) { r.st = RES_NOENT; return; }
      c = nc; goto again;
    }
    cur = k;
  }
  r.st = RES_OK; r.node = cur;
}
// Physical rule ('..' of the directory reached), to recognise paths on which the two rules differ.
static bool physical(const Image& im, int cur, std::vector<std::string> c, bool follow, const std::vector<std::string>& al, int& budget, int& out) {
  for (size_t i = 0; i < c.size(); i++) {
    if (im.nodes[cur].type != 'd') return false;
    if (c[i] == ".") continue;
    if (c[i] == "..") { if (im.nodes[cur].parent < 0) return false; cur = im.nodes[cur].parent; continue; }
    int k = im.child(cur, c[i]); if (k < 0) return false;
    if (im.nodes[k].type == 'l' && (follow || i + 1 < c.size())) { if (--budget < 0 || im.nodes[k].target.size() > 2048) return false; std::string t = link_text(im.nodes[k].target, al); int o; if (!physical(im, t[0] == '/' ? 0 : cur, comps(t), true, al, budget, o)) return false; k = o; }
    cur = k;
  }
  out = cur; return true;
}
Resolved img_resolve(const Image& im, const std::string& path, bool follow, const std::vector<std::string>& al) {
  Resolved r; std::vector<std::string> c;
  if (!lexical(path, c)) { r.st = RES_NOENT; return r; }
  walk(im, c, follow, al, r);
  if (path.find("..") != std::string::npos || r.links) {
    int b = 300, o = -1; bool ok = physical(im, 0, comps(path), follow, al, b, o);
    if (ok != (r.st == RES_OK) || (ok && o != r.node)) r.alt = ok ? o : -1;   // ambiguous: both answers are accepted
  }
  return r;
}
void need_inode(const Image& im, int node, std::set<int>& s) { for (int b : im.nodes[node].inoSB) s.insert(b); }
void need_list(const Image& im, int node, std::set<int>& s) { need_inode(im, node, s); for (int b : im.nodes[node].listSB) s.insert(b); }
void need_data(const Image& im, int node, u64 off, u64 len, std::set<int>& s) {
  const Node& n = im.nodes[node]; need_inode(im, node, s); if (!len || off >= n.size) return;
  u64 e = std::min<u64>(n.size, off + len); 
  for (u64 b = off / im.bs; b * im.bs < e; b++) { if (b < n.blkSB.size()) { if (n.blkSB[b] >= 0) s.insert(n.blkSB[b]); } else { if (n.fragSB >= 0) s.insert(n.fragSB); if (n.fragTabSB >= 0) s.insert(n.fragTabSB); } }
}

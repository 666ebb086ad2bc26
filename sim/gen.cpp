// Scenario generation: images, operations, schedules and faults, each a function of (property, seed).
#include "world.h"

// ---- images ----------------------------------------------------------------------------------------------------------
enum Shape { SH_TINY, SH_FILES, SH_MD, SH_BIGDIR, SH_BIGFILE, SH_LINKS, SH_DEEP, SH_MIX, SH_MANYBIG, SH_HUGE, SH_N };
struct IB {   // image under construction
  bool cased = false; ImageR r; Rng g; std::map<int, std::set<std::string>> used; std::vector<int> dirs, files;
  IB(u64 s) : g(s) { NodeR n; n.type = 'd'; n.perm = 0755; n.parent = 0; n.mtime = g.next(); r.nodes.push_back(n); dirs.push_back(0); }
  std::string name(int dir, int len = 0) {
    static const char* w[] = {"a", "b", "lib", "node", "x.rb", "main.js", "README", ".hidden", "..x", "x..", "a.b.c", "...", "file", "data", "Z", "~tmp", "A-B_C", "sub", "t", "0", "\xc3\xa9t\xc3\xa9", "\xff", "a b", "%s%n", "\x01", "back\\slash", "\xe6\x97\xa5"};
    for (int i = 0;; i++) { std::string s; if (len) { while ((int)s.size() < len) s += (char)('a' + g.below(26)); } else { s = w[g.below(g.chance(0.8) ? 20 : 27)]; if (i > 1 || g.chance(0.4)) s += std::to_string(g.below(i > 20 ? 100000 : 100)); }
      if (cased && g.chance(0.25) && !used[dir].empty()) { s = *std::next(used[dir].begin(), g.below(used[dir].size())); for (char& c : s) if (isalpha(c) && g.chance(0.6)) c ^= 32; } if (s != "." && s != ".." && used[dir].insert(s).second) return s; }
  }
  int add(char type, int dir, const std::string& nm) {
    NodeR n; n.type = type; n.parent = dir; n.name = nm; n.perm = g.chance(0.5) ? 0644 : g.below(010000); n.mtime = g.next(); auto own = [&] { return g.below(r.nids + (r.mdpad && g.chance(0.4) ? r.mdpad : 0)); }; n.uidx = own(); n.gidx = own(); n.ext = g.chance(0.3); n.seed = g.next() & 0x7fffffff;
    if (type == 'b' || type == 'c') { n.major = g.below(g.chance(0.5) ? 256 : 4096); n.minor = g.below(g.chance(0.5) ? 256 : 1 << 20); }
    used[dir].insert(nm); r.nodes.push_back(n); int i = r.nodes.size() - 1; if (type == 'd') dirs.push_back(i); if (type == 'f') files.push_back(i); return i;
  }
  void content(int i, int maxblk) {
    NodeR& n = r.nodes[i]; n.runs.clear(); if (r.blocklog > 14) maxblk = std::min(maxblk, 2); int k = g.below(maxblk + 1); int left = k;
    while (left > 0) { Run u; u.k = "hzzup"[g.below(5)]; u.n = 1 + g.below(std::min(left, 6)); left -= u.n; n.runs.push_back(u); }
    u32 bs = 1u << r.blocklog; n.tail = g.chance(0.2) ? 0 : g.chance(0.3) ? 1 + g.below(20) : 1 + g.below((r.blocklog > 14 && g.chance(0.6) ? bs / 3 : bs) - 1); n.tailk = "ffffbbhu"[g.below(8)]; if (k == 0 && n.tailk == 'h') n.tailk = 'f';
  }
  int adir(double deep = 0.5) { return g.chance(deep) ? dirs.back() : dirs[g.below(dirs.size())]; }
  std::string path(int i) { std::string p; while (i) { p = "/" + r.nodes[i].name + p; i = r.nodes[i].parent; } return p.empty() ? "/" : p; }
  void link(int dir, const std::string& target) { int i = add('l', dir, name(dir)); r.nodes[i].target = target; r.nodes[i].perm = 0777; }
  std::string rel(int from, int to) { std::string p; int f = from; std::vector<int> up; int t = to; std::set<int> anc; for (int x = t;; x = r.nodes[x].parent) { anc.insert(x); if (!x) break; } while (!anc.count(f)) { p += "../"; f = r.nodes[f].parent; } std::string d; while (t != f) { d = r.nodes[t].name + (d.empty() ? "" : "/" + d); t = r.nodes[t].parent; } p += d; if (p.empty()) p = "."; if (p.size() > 1 && p.back() == '/') p.pop_back(); return p; }
};
static const char* ALIAS1 = "/opt/app/"; static const char* ALIAS2 = "/__alias__/";
static void add_links(IB& b, int n, bool aliases) {
  for (int k = 0; k < n; k++) {
    int d = b.adir(0.2); int to = b.g.below(b.r.nodes.size()); std::string t;
    switch (b.g.below(11)) {
      case 0: t = b.path(to); break;
      case 1: case 2: case 3: t = b.rel(d, to); break;
      case 4: t = "./" + b.rel(d, to); break;
      case 5: if (b.g.chance(0.4)) { int up = 1; for (int x = d; x; x = b.r.nodes[x].parent) up++; for (up += b.g.range(-1, 1); up > 0; up--) t += "../"; t += b.g.chance(0.6) ? b.path(to).substr(1) : b.g.chance(0.5) ? b.rel(d, to) : ""; break; }   // to or above the root
        t = b.g.chance(0.5) ? "nowhere" : "/no/where"; break;
      case 6: t = aliases ? std::string(b.g.chance(0.5) ? ALIAS1 : ALIAS2) + b.path(to).substr(1) : b.path(to); break;
      case 7: { std::string me = b.name(d), other = b.name(d); int i = b.add('l', d, me); b.r.nodes[i].target = b.g.chance(0.4) ? me + "/x" : b.g.chance(0.5) ? other : me; int j = b.add('l', d, other); b.r.nodes[j].target = me; continue; }
      case 8: { int len = b.g.chance(0.15) ? 40 : b.g.chance(0.3) ? b.g.range(29, 33) : b.g.range(2, 18); std::string prev = b.rel(d, to); for (int i = 0; i < len; i++) { std::string nm = b.name(d); int x = b.add('l', d, nm); b.r.nodes[x].target = prev; prev = (b.g.chance(0.3) ? "./" : "") + nm; } continue; }
      case 9: if (b.g.chance(0.3)) { t = std::string(b.g.chance(0.5) ? b.g.range(2100, 4095) : b.g.range(2030, 2048), '/'); std::string e = b.path(to); t = t.substr(0, t.size() - std::min(e.size(), t.size())) + e; break; } t = "//" + b.path(to).substr(1); break;
      default: { int dd = b.dirs[b.g.below(b.dirs.size())]; t = b.rel(d, dd); break; }
    }
    if (t.empty()) t = ".";
    b.link(d, t);
  }
}
// Links in front of all other inodes shift one inode so that a chosen byte of it lies at the edge of a metadata block.
static void align_inode(IB& b, bool wrap) {
  Rng& g = b.g; ImageR& r = b.r; Image* im = img_build(r); std::vector<int> c; for (size_t i = 0; i < im->nodes.size(); i++) { char t = r.nodes[i].type; if ((t == 'f' && im->nodes[i].nblocks > 0) || t == 'l' || (t == 'd' && g.chance(0.1))) c.push_back(i); }
  std::vector<int> big; for (int i : c) if (im->nodes[i].nblocks > 1) big.push_back(i);
  int f = c.empty() ? 0 : !big.empty() && g.chance(0.7) ? big[g.below(big.size())] : c[g.below(c.size())]; const Node& m = im->nodes[f]; NodeR& n = r.nodes[f]; int at = 16;
  if (n.type == 'f') { bool ext = n.ext || m.nlink > 1; at = ext ? 56 : 32; u32 k = m.nblocks ? g.chance(0.4) ? m.nblocks - 1 : g.chance(0.5) ? 0 : g.below(m.nblocks) : 0; if (g.chance(0.85)) at += 4 * k; else at = 16; }
  else if (n.type == 'l') at = g.chance(0.7) ? 24 : 24 + (int)g.below(n.target.size() + 1);
  int have = ((int)(m.iref & 0xffff) + at) % 8192, want = g.chance(0.6) ? 0 : g.chance(0.5) ? (int)g.below(4) : 8192 - (int)g.range(1, 5), need = (want - have + 2 * 8192) % 8192; delete im; if (need < 40) need += 8192;
  for (int q = 0; need > 0; q++) { int sz = need > 1000 ? 900 : need > 900 ? need / 2 : need; std::string nm = "!" + std::to_string(q); if (b.used[wrap ? 1 : 0].count(nm)) return; int l = b.add('l', wrap ? 1 : 0, nm); NodeR& t = r.nodes[l]; t.ext = false; t.target = std::string(sz - 24, "xyz"[q % 3]); need -= sz; }
}
static ImageR gen_image(int shape, u64 idx, bool wrap, bool aliases) {
  IB b(hmix(hmix(0x1111 + shape, idx), wrap * 2 + aliases)); Rng& g = b.g; ImageR& r = b.r;
  r.blocklog = g.chance(0.75) ? 12 : g.range(12, 14); r.offset = g.chance(0.5) ? 0 : g.chance(0.5) ? g.range(1, 64) : 4096 * g.range(1, 3);
  r.cmd = g.chance(0.8); r.cdata = g.chance(0.85); r.cfrag = g.chance(0.8); r.xport = g.chance(0.75); r.index = g.chance(0.8); r.seed = g.next() & 0xffffff; r.nids = 1 + g.below(5); r.mdpad = g.chance(0.12) ? 2000 + g.below(3000) : 0; r.frags = g.chance(0.9);
  b.cased = g.chance(0.3); if ((shape == SH_TINY || shape == SH_FILES || shape == SH_MIX) && g.chance(0.12)) r.blocklog = g.range(15, 18);
  if (wrap) b.add('d', 0, "__enclose_io_memfs__");
  auto fill = [&](int nd, int nf, int maxblk, int other) {
    for (int i = 0; i < nd; i++) { int p = b.adir(); b.add('d', p, b.name(p)); }
    for (int i = 0; i < nf; i++) { int p = b.adir(0.3); int f = b.add('f', p, b.name(p)); b.content(f, maxblk); }
    for (int i = 0; i < other; i++) { int p = b.adir(0.2); b.add("bcpsb"[g.below(5)], p, b.name(p)); }
    if (!b.files.empty()) for (int i = (int)g.below(3); i > 0; i--) { int p = b.adir(0.3); int t = b.files[g.below(b.files.size())]; int h = b.add('H', p, b.name(p)); r.nodes[h].link = t; }
  };
  if (wrap) { b.dirs.erase(b.dirs.begin()); }
  switch (shape) {
    case SH_TINY: fill(g.range(0, 3), g.range(1, 5), 3, g.range(0, 3)); add_links(b, g.range(0, 3), aliases); break;
    case SH_FILES: fill(g.range(1, 4), g.range(6, 20), 12, 1); add_links(b, g.range(0, 4), aliases); if (!b.dirs.empty()) b.add('d', b.dirs[0], b.name(b.dirs[0])); break;
    case SH_MD: {
      int nd = g.range(3, 9); for (int i = 0; i < nd; i++) { int p = b.adir(0.3); b.add('d', p, b.name(p, g.chance(0.3) ? g.chance(0.3) ? wrap ? 255 : 256 : g.range(100, 255) : 0)); }
      int n = g.range(30, 90); for (int i = 0; i < n; i++) { int p = b.adir(0.1); int k = g.below(10); if (k < 4) { int l = b.add('l', p, b.name(p, g.chance(0.5) ? g.range(60, 200) : 0)); int len = g.range(200, 900); std::string t; while ((int)t.size() < len) t += (char)('a' + g.below(26)); r.nodes[l].target = t; } else if (k < 8) { int f = b.add('f', p, b.name(p, g.chance(0.5) ? g.range(30, 150) : 0)); b.content(f, 2); if (g.chance(0.4)) { NodeR& nn = r.nodes[f]; nn.runs.insert(nn.runs.begin(), Run{'h', (u32)g.range(100, 900)}); } } else { int f = b.add('d', p, b.name(p)); (void)f; } }
      add_links(b, 3, aliases); break; }
    case SH_BIGDIR: {
      int d = b.adir(); d = g.chance(0.5) ? b.add('d', d, b.name(d)) : d; int n = g.chance(0.6) ? g.chance(0.25) ? g.range(2040, 2300) : g.range(1025, 1400) : g.chance(0.5) ? g.range(250, 270) : 1024; int f0 = -1; bool own = g.chance(0.3); if (own) r.frags = 2;   // more fragments than one metadata block of the table holds
      int style = g.below(4); bool hi = g.chance(0.3); std::string pad(style == 3 ? g.range(60, 150) : 0, 'k');   // 0 padded, 1 mixed, 2 names that begin other names, 3 long names
      for (int i = 0; i < n; i++) { char nm[40]; snprintf(nm, sizeof nm, style == 2 ? "%s%d" : "%s%05d", style == 2 ? "n" : g.chance(0.5) ? "entry-" : "e", style == 2 ? i : (int)(i * 7919 % 99991)); std::string s = pad + nm; if (hi && g.chance(0.5)) s = "\xc3\xa4" + s; if (style == 2 && g.chance(0.3)) s += std::string(g.range(1, 40), "-.aZ"[g.below(4)]); else if (style == 3 && g.chance(0.4)) s += std::string(g.range(1, 60), 'q'); else if (g.chance(0.02)) s += std::string(g.range(100, 200), 'q');
        if (s.size() > 255) s.resize(wrap ? 255 : 256); if (!b.used[d].insert(s).second) continue; if (f0 >= 0 && g.chance(own ? 0.1 : 0.6)) { int h = b.add('H', d, s); r.nodes[h].link = f0; } else if (g.chance(0.2)) b.add('d', d, s); else { int f = b.add('f', d, s); r.nodes[f].tail = own + g.below(50); r.nodes[f].tailk = 'f'; if (f0 < 0) f0 = f; } }
      b.add('d', d, b.name(d)); add_links(b, 2, aliases); break; }
    case SH_BIGFILE: case SH_MANYBIG: {
      bool many = shape == SH_MANYBIG; fill(2, many ? 1 : 3, 4, 0); int nf = many ? g.range(9, 14) : g.range(1, 2);
      for (int i = 0; i < nf; i++) { int p = b.adir(); if (g.chance(0.7)) { int l = b.add('l', p, g.chance(0.5) ? b.name(p) : std::string("-") + b.name(p)); std::string t; for (int q = g.range(1, 60); q > 0; q--) t += (char)('a' + g.below(26)); r.nodes[l].target = t; }
        int f = b.add('f', p, b.name(p)); NodeR& n = r.nodes[f]; n.runs.clear(); int total = g.chance(many ? 0.1 : 0.3) ? g.range(2040, 2060) : many ? g.range(2100, 2700) : g.chance(0.6) ? g.range(2300, 9000) : g.range(9000, 24000); int k = 0;
        while (k < total) { int h = std::min(total - k, g.chance(0.3) ? g.range(1, 5) : g.range(50, 1500)); n.runs.push_back({'h', (u32)h}); k += h; if (k < total) { int z = std::min(total - k, g.range(1, 3)); n.runs.push_back({"zup"[g.below(3)], (u32)z}); k += z; } }
        n.tail = g.chance(0.3) ? 0 : g.range(1, 4000); n.tailk = "ffb"[g.below(3)]; }
      break; }
    case SH_HUGE: {   // sizes and positions that 32 bits cannot hold: large blocks, nearly all of them holes
      r.blocklog = g.range(19, 20); u32 bs = 1u << r.blocklog; int nf = g.range(1, 2);
      for (int i = 0; i < 2; i++) { int p = b.adir(); int f = b.add('f', p, b.name(p)); r.nodes[f].tail = g.range(1, 5000); r.nodes[f].tailk = "fb"[g.below(2)]; }
      for (int i = 0; i < nf; i++) { int p = b.adir(); int f = b.add('f', p, b.name(p)); NodeR& n = r.nodes[f]; n.runs.clear();
        u32 g2 = (2048ull << 20) / bs, g4 = 2 * g2, total = g.chance(0.5) ? g4 + g.range(2100, 6000) : g.chance(0.7) ? g4 + g.range(1, 700) : g2 + g.range(1, 700); std::set<u32> at;   // where data is stored
        at.insert(g2 - g.range(0, 1)); if (total > g4) at.insert(g4 - g.range(0, 1)); if (g.chance(0.5)) at.insert(total - 1); if (total > g4 + 2000) for (int q = 0; q < 3; q++) at.insert(g4 + 1000 + g.below(total - g4 - 1000)); for (int q = g.range(0, 2); q > 0; q--) at.insert(g.below(total)); if (g.chance(0.5)) at.insert(0);
        u32 k = 0; for (u32 q : at) { if (q > k) n.runs.push_back({'h', q - k}); n.runs.push_back({"zup"[g.below(3)], 1}); k = q + 1; } if (k < total) n.runs.push_back({'h', total - k});
        n.tail = g.chance(0.3) ? 0 : g.range(1, 4000); n.tailk = "ffb"[g.below(3)]; }
      break; }
    case SH_LINKS: fill(g.range(3, 7), g.range(3, 6), 2, 1); add_links(b, g.range(8, 22), aliases); break;
    case SH_DEEP: {
      int d = b.dirs[0]; int depth = g.range(8, 40); for (int i = 0; i < depth; i++) { d = b.add('d', d, b.name(d, g.chance(0.1) ? g.range(10, 25) : 0)); if (g.chance(0.4)) { int f = b.add('f', d, b.name(d)); b.content(f, 1); } if (g.chance(0.2)) b.add('d', d, b.name(d)); }
      fill(1, 2, 2, 0); add_links(b, g.range(2, 6), aliases); break; }
    default: fill(g.range(3, 8), g.range(8, 30), 8, 4); add_links(b, g.range(3, 10), aliases); break;
  }
  if (shape != SH_BIGDIR && shape != SH_HUGE && g.chance(0.3)) align_inode(b, wrap);
  if (g.chance(0.08)) { r.gapat = g.range(1, 7); r.gap = r.gapat > 2 && g.chance(r.gapat == 7 ? 0.8 : 0.4) ? 1 : g.chance(0.4) ? (1ull << 32) - g.below(20000) : g.chance(0.3) ? (1ull << 31) - g.below(20000) : (1ull << 32) + g.below(1 << 30); }   // positions that 32 bits cannot hold
  if (g.chance(0.15)) r.junk = g.range(1, 2);
  if ((shape == SH_MANYBIG || shape == SH_BIGFILE) && g.chance(0.25)) { r.xport = false; r.inostep = g.chance(0.7) ? 65536 : 32768; }   // the caches are looked up by inode number
  else if (!r.xport && g.chance(0.25)) { static const u32 st[] = {2, 255, 32768, 65536, (1u << 20) + 1}; r.inostep = st[g.below(5)]; }
  if (g.chance(0.1)) r.fragpad = g.chance(0.4) ? 65500 + g.below(200) : g.chance(0.5) ? 500 + g.below(30) : g.below(3000);
  return r;
}

// ---- paths -----------------------------------------------------------------------------------------------------------
static std::string decorate(Rng& g, const Image& im, const std::string& p0, bool keepdots) {
  std::string p = p0;
  if (g.chance(0.12) && p.size() > 1) { std::string q; for (char c : p) { q += c; if (c == '/' && g.chance(0.35)) q += g.chance(0.5) ? "/" : "./"; } p = q; }
  if (!keepdots && g.chance(0.12)) { std::string q = g.chance(0.3) ? "/zz/.." : "/./.."; (void)q; size_t s = p.rfind('/'); if (s != std::string::npos) { static const char* ins[] = {"/nonesuch/..", "/a/b/../..", "//./", "/x/./..", "/..x/../", "/.../..", "/q//.."}; p = p.substr(0, s) + ins[g.below(7)] + "/" + p.substr(s + 1); } }
  if (g.chance(0.06) && p.size() > 1 && p[0] == '/') { size_t k = 0; while (k < p.size() && p[k] == '/') k++; std::string q = p.substr(k); if (!q.empty()) p = q; }
  (void)im; return p;
}
static std::string node_path(const Image& im, int n) { std::string p; int guard = 0; while (n > 0 && guard++ < 300) { int par = im.nodes[n].parent; std::string nm; for (auto& k : im.nodes[par].kids) if (k.node == n) { nm = k.name; break; } p = "/" + nm + p; n = par; } return p.empty() ? "/" : p; }
struct PathGen {
  const Image* im; std::vector<std::string> al; std::vector<int> bytype[128]; std::vector<int> dirs;
  void init(const Image* i, const std::vector<std::string>& a) { im = i; al = a; for (size_t k = 0; k < im->nodes.size(); k++) bytype[(int)im->nodes[k].type].push_back(k); }
  // random walk through the tree, through links too
  std::string walk(Rng& g) {
    std::string p; int cur = 0; int len = g.range(1, 6);
    for (int i = 0; i < len; i++) {
      const Node& n = im->nodes[cur]; if (n.type != 'd' || n.kids.empty()) break;
      const Kid* k = &n.kids[g.below(n.kids.size())]; if (g.chance(0.4)) for (int t = 0; t < 4; t++) { const Kid* q = &n.kids[g.below(n.kids.size())]; if (im->nodes[q->node].type == 'l' || im->nodes[q->node].type == 'd') { k = q; break; } }
      p += "/" + k->name; if (p.size() > 500) break;
      Resolved r = img_resolve(*im, p, true, al); if (r.st != RES_OK) break; cur = r.node;
      if (im->nodes[cur].type != 'd') break;
    }
    if (p.empty()) p = "/";
    if (g.chance(0.06)) p += p.back() == '/' ? "missing" : "/missing"; else if (g.chance(0.04)) { p += "x"; } else if (g.chance(0.05)) p += "/.."; else if (g.chance(0.04)) p += "/.";
    return p;
  }
  std::string of(Rng& g, char type) { if (!im->hotkids.empty() && g.chance(0.5)) { auto h = im->hotkids[g.below(im->hotkids.size())]; auto& k = im->nodes[h.first].kids[h.second]; if (im->nodes[k.node].type == type) { std::string p = node_path(*im, h.first); return (p == "/" ? "" : p) + "/" + k.name; } }
    auto& v = bytype[(int)type]; if (v.empty()) return walk(g); return node_path(*im, v[g.below(v.size())]); }
  std::string get(Rng& g, char want, bool plain = false) {
    std::string p; for (int t = 0; t < 6; t++) { if (want && g.chance(0.7)) p = of(g, want); else if (!want && !im->hotkids.empty() && g.chance(0.5)) p = of(g, "fd"[g.below(2)]); else p = walk(g); if (!want || want == '?') break; Resolved r = img_resolve(*im, p, want != 'l', al); if (g.chance(0.15)) break; if (r.st == RES_OK && im->nodes[r.node].type == want) break; }
    if (!plain) p = decorate(g, *im, p, false);
    if (p.size() > 700) p = "/";
    return p;
  }
};

// ---- profiles --------------------------------------------------------------------------------------------------------
struct Prof {
  std::vector<std::pair<int, int>> ops, shapes, faults;
  double conc = 0.5; int th_lo = 2, th_hi = 4, n_lo = 8, n_hi = 30; double faultp = 0; int maxf = 2; int segs_lo = 1, segs_hi = 3;
  double pressure = 0, poke = 0, crash = 0, disk = 0, close0 = 0, multi = 0.4, foreign = 0, app = 0; int lives_hi = 1; bool mountops = false; bool enclose = false; bool loopreps = false; double hot = 0.6;
};
static int pickw(Rng& g, const std::vector<std::pair<int, int>>& v) { int t = 0; for (auto& x : v) t += x.second; int k = g.below(t); for (auto& x : v) { k -= x.second; if (k < 0) return x.first; } return v.back().first; }

static Prof profile(const std::string& P) {
  Prof p; p.shapes = {{SH_TINY, 2}, {SH_FILES, 3}, {SH_MD, 2}, {SH_LINKS, 2}, {SH_MIX, 3}, {SH_BIGFILE, 1}, {SH_MANYBIG, 1}, {SH_BIGDIR, 1}, {SH_DEEP, 1}};
  std::vector<std::pair<int, int>> reads = {{K_OPEN, 14}, {K_CLOSE, 8}, {K_READ, 24}, {K_LSEEK, 10}, {K_FSTAT, 4}, {K_STAT, 8}, {K_LSTAT, 5}, {K_READLINK, 5}, {K_OPENDIR, 7}, {K_READDIR, 10}, {K_TELLDIR, 2}, {K_SEEKDIR, 2}, {K_REWIND, 1}, {K_CLOSEDIR, 4}, {K_DIRFD, 1}, {K_SCANDIR, 3}, {K_TOPEN, 3}, {K_TNEXT, 6}, {K_TPRUNE, 2}, {K_TCLOSE, 2}, {K_EXPORT, 2}, {K_IDGET, 2}, {K_RANGE, 6}, {K_DITER, 3}};
  auto with = [](std::vector<std::pair<int, int>> a, std::vector<std::pair<int, int>> b) { a.insert(a.end(), b.begin(), b.end()); return a; };
  std::vector<std::pair<int, int>> all = with(reads, {{K_BADFD, 5}, {K_EXTRACT, 8}, {K_CLEAR, 1}});
  std::vector<std::pair<int, int>> allf = {{FK_ALLOC, 6}, {FK_DECODE, 4}, {FK_DUP, 3}, {FK_WRITE, 3}, {FK_FCLOSE, 2}, {FK_FOPEN, 2}};
  if (P == "C01") { p.ops = reads; p.conc = 1; p.segs_hi = 2; p.n_lo = 6; p.n_hi = 24; p.shapes = {{SH_HUGE, 1}, {SH_FILES, 4}, {SH_MD, 3}, {SH_MIX, 3}, {SH_BIGFILE, 2}, {SH_MANYBIG, 3}, {SH_TINY, 1}, {SH_DEEP, 1}, {SH_BIGDIR, 1}}; p.multi = 0.25; }
  else if (P == "C02") { p.ops = {{K_OPEN, 30}, {K_CLOSE, 18}, {K_READ, 12}, {K_LSEEK, 6}, {K_FSTAT, 10}, {K_OPENDIR, 10}, {K_READDIR, 5}, {K_CLOSEDIR, 6}, {K_DIRFD, 3}, {K_BADFD, 8}, {K_APPOPEN, 4}, {K_APPCLOSE, 3}, {K_SCANDIR, 1}}; p.conc = 1; p.n_lo = 8; p.n_hi = 40; p.shapes = {{SH_TINY, 3}, {SH_FILES, 3}, {SH_MIX, 2}}; p.segs_hi = 2; p.faultp = 0.3; p.faults = {{FK_ALLOC, 3}, {FK_DUP, 3}, {FK_CLOSE, 3}}; p.multi = 0.3; }
  else if (P == "C03") { p.ops = {{K_OPEN, 14}, {K_CLOSE, 6}, {K_READ, 40}, {K_LSEEK, 26}, {K_FSTAT, 6}, {K_BADFD, 3}, {K_OPENDIR, 1}, {K_READDIR, 1}}; p.conc = 0.3; p.shapes = {{SH_HUGE, 1}, {SH_FILES, 5}, {SH_MIX, 3}, {SH_BIGFILE, 2}, {SH_MANYBIG, 1}, {SH_TINY, 2}}; p.faultp = 0.5; p.faults = {{FK_DECODE, 5}, {FK_ALLOC, 5}}; p.poke = 0.1; p.n_lo = 15; p.n_hi = 60; }
  else if (P == "C04") { p.ops = {{K_OPEN, 8}, {K_CLOSE, 4}, {K_READ, 24}, {K_LSEEK, 20}, {K_STAT, 6}, {K_LSTAT, 4}, {K_READLINK, 5}, {K_EXPORT, 6}, {K_IDGET, 6}, {K_RANGE, 20}, {K_DITER, 3}, {K_FSTAT, 2}, {K_READDIR, 2}, {K_OPENDIR, 1}}; p.conc = 0.1; p.shapes = {{SH_HUGE, 2}, {SH_FILES, 4}, {SH_MD, 4}, {SH_MIX, 3}, {SH_BIGFILE, 4}, {SH_MANYBIG, 2}, {SH_BIGDIR, 1}}; p.n_lo = 20; p.n_hi = 70; p.faultp = 0.25; p.faults = {{FK_DECODE, 5}, {FK_ALLOC, 3}}; p.multi = 0.5; }
  else if (P == "C05") { p.ops = {{K_OPENDIR, 12}, {K_READDIR, 30}, {K_TELLDIR, 10}, {K_SEEKDIR, 10}, {K_REWIND, 5}, {K_CLOSEDIR, 7}, {K_DIRFD, 3}, {K_SCANDIR, 16}, {K_DITER, 8}, {K_STAT, 3}, {K_READ, 2}, {K_OPEN, 2}}; p.conc = 0.3; p.shapes = {{SH_TINY, 3}, {SH_MIX, 4}, {SH_MD, 3}, {SH_BIGDIR, 4}, {SH_DEEP, 1}, {SH_LINKS, 1}}; p.faultp = 0.4; p.faults = {{FK_ALLOC, 6}, {FK_DECODE, 4}, {FK_DUP, 1}}; p.poke = 0.05; }
  else if (P == "C06") { p.ops = {{K_STAT, 24}, {K_LSTAT, 18}, {K_READLINK, 16}, {K_OPEN, 16}, {K_CLOSE, 8}, {K_FSTAT, 3}, {K_OPENDIR, 10}, {K_CLOSEDIR, 5}, {K_READDIR, 2}, {K_SCANDIR, 4}, {K_RANGE, 4}, {K_TOPEN, 2}, {K_TCLOSE, 1}}; p.conc = 0.3; p.shapes = {{SH_LINKS, 8}, {SH_DEEP, 3}, {SH_MIX, 3}, {SH_MD, 1}, {SH_BIGDIR, 2}}; p.faultp = 0.4; p.faults = {{FK_ALLOC, 6}, {FK_DECODE, 5}, {FK_DUP, 1}}; p.hot = 0.15; p.n_lo = 20; p.n_hi = 60; }
  else if (P == "C07") { p.ops = with(reads, {{K_POKE, 6}, {K_UNPOKE, 7}, {K_EXTRACT, 3}}); p.conc = 0.35; p.shapes = {{SH_HUGE, 1}, {SH_FILES, 4}, {SH_MD, 3}, {SH_MIX, 3}, {SH_BIGFILE, 2}, {SH_MANYBIG, 1}, {SH_TINY, 1}, {SH_LINKS, 1}}; p.poke = 0.6; p.faultp = 0.7; p.faults = {{FK_DECODE, 10}}; p.maxf = 4; p.n_lo = 20; p.n_hi = 60; }
  else if (P == "C08") { p.ops = with(all, {{K_TMPF, 2}, {K_HASH, 2}, {K_STACK, 3}}); p.conc = 0.35; p.faultp = 1; p.faults = {{FK_ALLOC, 10}}; p.maxf = 4; p.mountops = true; p.n_lo = 14; p.n_hi = 45; }
  else if (P == "C09") { p.ops = with(all, {{K_TMPF, 2}, {K_HASH, 2}, {K_STACK, 3}}); p.conc = 0.3; p.faultp = 0.7; p.faults = with(allf, {{FK_CLOSE, 3}, {FK_UNLINK, 1}}); p.maxf = 5; p.mountops = true; p.pressure = 0.15; p.disk = 0.1; p.poke = 0.15; p.n_lo = 20; p.n_hi = 70; p.loopreps = true; }
  else if (P == "C10") { p.ops = {{K_OPEN, 30}, {K_CLOSE, 14}, {K_READ, 10}, {K_FSTAT, 6}, {K_LSEEK, 3}, {K_BADFD, 24}, {K_OPENDIR, 10}, {K_READDIR, 4}, {K_CLOSEDIR, 5}, {K_DIRFD, 2}, {K_APPOPEN, 10}, {K_APPCLOSE, 6}, {K_EXTRACT, 4}, {K_SCANDIR, 4}}; p.conc = 0.3; p.shapes = {{SH_TINY, 3}, {SH_FILES, 3}, {SH_MIX, 2}}; p.pressure = 0.7; p.close0 = 0.3; p.faultp = 0.4; p.faults = {{FK_DUP, 8}, {FK_CLOSE, 6}, {FK_ALLOC, 3}}; p.app = 1; }
  else if (P == "C11") { p.ops = {{K_EXTRACT, 40}, {K_CLEAR, 4}, {K_CLOCK, 3}, {K_OPEN, 4}, {K_CLOSE, 3}, {K_READ, 4}, {K_STAT, 2}}; p.conc = 0.3; p.shapes = {{SH_FILES, 6}, {SH_MIX, 3}, {SH_TINY, 2}, {SH_LINKS, 1}}; p.faultp = 0.9; p.faults = {{FK_WRITE, 10}, {FK_FCLOSE, 6}, {FK_ALLOC, 6}, {FK_DECODE, 5}, {FK_FOPEN, 5}, {FK_DUP, 5}}; p.maxf = 3; p.disk = 0.35; p.pressure = 0.15; p.poke = 0.2; p.n_lo = 5; p.n_hi = 20; p.hot = 0.5; }
  else if (P == "C12") { p.ops = {{K_EXTRACT, 50}, {K_CLEAR, 8}, {K_RMEXT, 4}, {K_CLOCK, 5}, {K_OPEN, 2}, {K_CLOSE, 2}, {K_READ, 2}}; p.conc = 0.5; p.shapes = {{SH_FILES, 4}, {SH_MIX, 3}, {SH_TINY, 3}, {SH_LINKS, 2}}; p.faultp = 0.4; p.faults = {{FK_ALLOC, 6}, {FK_WRITE, 3}, {FK_FOPEN, 2}, {FK_UNLINK, 3}, {FK_CLOSE, 1}, {FK_ATEXIT, 1}}; p.multi = 0.8; p.mountops = true; p.foreign = 0.4; p.lives_hi = 2; p.hot = 0.75; p.n_lo = 5; p.n_hi = 22; }
  else if (P == "C13") { p.ops = {{K_EXTRACT, 50}, {K_CLEAR, 4}, {K_RMEXT, 3}, {K_CLOCK, 8}, {K_TMPF, 5}, {K_FOREIGN, 5}}; p.conc = 0.35; p.shapes = {{SH_TINY, 3}, {SH_MIX, 3}, {SH_FILES, 3}}; p.faultp = 0.6; p.faults = {{FK_SQUAT, 10}, {FK_ALLOC, 2}}; p.maxf = 3; p.foreign = 0.5; p.lives_hi = 3; p.crash = 0.7; p.hot = 0.3; p.n_lo = 4; p.n_hi = 25; p.multi = 0.5; }
  else if (P == "C14") { p.ops = all; p.conc = 0.9; p.faultp = 0.8; p.faults = with(allf, {{FK_CLOSE, 2}, {FK_UNLINK, 1}}); p.maxf = 3; p.pressure = 0.1; p.poke = 0.1; p.disk = 0.05; p.mountops = true; }
  else if (P == "C15") { p.ops = with(reads, {{K_MOUNT, 25}, {K_UNMOUNT, 25}, {K_MOUNTBAD, 14}}); p.conc = 0.4; p.faultp = 0.6; p.faults = {{FK_ALLOC, 8}, {FK_DECODE, 4}}; p.multi = 1; p.mountops = true; p.n_lo = 15; p.n_hi = 50; }
  else if (P == "C16") { p.ops = {{K_TOPEN, 14}, {K_TNEXT, 40}, {K_TPRUNE, 12}, {K_TCLOSE, 7}, {K_STAT, 3}, {K_READ, 2}, {K_OPEN, 2}, {K_READDIR, 2}, {K_OPENDIR, 1}}; p.conc = 0.35; p.shapes = {{SH_MIX, 5}, {SH_TINY, 3}, {SH_DEEP, 3}, {SH_MD, 3}, {SH_LINKS, 2}, {SH_BIGDIR, 1}}; p.faultp = 0.5; p.faults = {{FK_ALLOC, 6}, {FK_DECODE, 5}}; p.poke = 0.15; }
  else if (P == "C17" || P == "C18") {
    p.enclose = true; p.shapes = {{SH_FILES, 3}, {SH_MIX, 4}, {SH_TINY, 2}, {SH_LINKS, 2}, {SH_BIGDIR, 1}}; p.app = 0.5;
    p.ops = {{E_CHDIR, 6}, {E_GETCWD, 3}, {E_STAT, 8}, {E_LSTAT, 5}, {E_READLINK, 5}, {E_OPEN, 16}, {E_OPENAT, 5}, {E_CLOSE, 8}, {E_READ, 14}, {E_LSEEK, 8}, {E_FSTAT, 4}, {E_PREAD, 12}, {E_READV, 9}, {E_OPENDIR, 7}, {E_FDOPENDIR, 3}, {E_READDIR, 9}, {E_TELLDIR, 3}, {E_SEEKDIR, 2}, {E_REWIND, 2}, {E_CLOSEDIR, 4}, {E_DIRFD, 2}, {E_SCANDIR, 4}, {E_ACCESS, 6}, {E_MKDIR, 2}, {E_IF, 2}, {E_IFEXTRACT, 3}, {E_DLOPEN, 2}, {E_EXECV, 2}, {E_WRITE, 2}, {E_EXEPATH, 1}};
    p.conc = 0.35; p.faultp = 0.5; p.faults = {{FK_ALLOC, 5}, {FK_DECODE, 4}, {FK_DUP, 2}, {FK_OSREAD, 2}, {FK_CHDIR, 2}}; p.poke = 0.1; p.n_lo = 15; p.n_hi = 50;
    if (P == "C18") { p.ops = {{E_MKDIR, 30}, {E_OPEN, 20}, {E_WRITE, 8}, {E_CLOSE, 6}, {E_STAT, 10}, {E_LSTAT, 3}, {E_ACCESS, 5}, {E_OPENDIR, 5}, {E_READDIR, 5}, {E_CLOSEDIR, 3}, {E_SCANDIR, 3}, {E_CHDIR, 3}, {E_READ, 4}, {E_IFEXTRACT, 3}, {E_READLINK, 1}, {E_GETCWD, 1}, {E_SYMLINK, 2}}; p.conc = 0.6; p.faultp = 0.7; p.faults = {{FK_ALLOC, 6}, {FK_MKDIR, 6}, {FK_ATEXIT, 4}, {FK_SQUAT, 4}, {FK_FOPEN, 2}, {FK_WRITE, 1}}; p.foreign = 0.4; p.lives_hi = 2; p.crash = 0.2; p.n_lo = 5; p.n_hi = 25; }
  }
  else { p.ops = with(all, {{K_TMPF, 1}, {K_HASH, 1}, {K_STACK, 1}}); p.conc = 0.5; p.faultp = 0.6; p.faults = with(allf, {{FK_CLOSE, 1}, {FK_UNLINK, 1}}); p.maxf = 4; p.pressure = 0.1; p.disk = 0.1; p.poke = 0.15; p.mountops = true; p.close0 = 0.05; p.app = 0.2; }   // C19
  return p;
}

std::string describe(const std::string& P) {
  Prof p = profile(P); std::string o = "{\"calls\":{"; bool f = true; static const char* sh[] = {"tiny", "files", "metadata-heavy", "big-directory", "big-file", "links", "deep", "mix", "many-big-files", "beyond-4-GiB"};
  for (auto& x : p.ops) { o += std::string(f ? "" : ",") + "\"" + op_names[x.first] + "\":" + std::to_string(x.second); f = false; } f = true; o += "},\"image_shapes\":{";
  for (auto& x : p.shapes) { o += std::string(f ? "" : ",") + "\"" + sh[x.first] + "\":" + std::to_string(x.second); f = false; } f = true; o += "},\"fault_kinds\":{";
  for (auto& x : p.faults) { o += std::string(f ? "" : ",") + "\"" + fault_names[x.first] + "\":" + std::to_string(x.second); f = false; }
  char b[200]; snprintf(b, sizeof b, "},\"share_of_concurrent_segments\":%.2f,\"threads\":\"%d-%d\",\"process_lifetimes_up_to\":%d}", p.conc, p.th_lo, p.th_hi, p.lives_hi); return o + b;
}

// ---- operations ------------------------------------------------------------------------------------------------------
struct Gen {
  Rng g; Prof pr; Scn s; int nextid = 1; PathGen pg[6]; bool ali[6] = {}; std::vector<std::string> hot[6]; int mimg[NM];
  std::vector<int> ov, od, ot; int nimg = 0;
  Gen(u64 seed) : g(seed) { for (int& x : mimg) x = -1; }
  int vlo = 0, vn = NV, dlo = 0, dn = ND, tlo = 0, tn = NT; int myth = -1; bool conc = false;
  void range(int t) { if (t < 0) { vlo = 80; vn = 16; dlo = 40; dn = 8; tlo = 20; tn = 4; myth = -1; } else { vlo = t * 16; vn = 16; dlo = t * 8; dn = 8; tlo = t * 4; tn = 4; myth = t; } }
  int pick(std::vector<int>& v, int lo, int n) { std::vector<int> c; for (int x : v) if (!conc || (x >= lo && x < lo + n)) c.push_back(x); if (c.empty()) return lo + g.below(n); return c[g.below(c.size())]; }
  int fresh(std::vector<int>& v, int lo, int n) { for (int i = 0; i < 8; i++) { int x = lo + g.below(n); if (std::find(v.begin(), v.end(), x) == v.end()) return x; } return lo + g.below(n); }
  int mount() { std::vector<int> c; for (int i = 0; i < NM; i++) if (mimg[i] >= 0 && (!conc || !privm(i) || i == 3 - myth)) c.push_back(i); if (c.empty()) return 0; return c[g.below(c.size())]; }
  std::vector<std::string> warm; std::set<int> privmounts; bool privm(int i) { return privmounts.count(i); } std::string cwd;
  PathGen& PG(int m) { int k = mimg[m] >= 0 ? mimg[m] : 0; return pg[k]; }
  std::string path(int m, char want) {
    int k = mimg[m] >= 0 ? mimg[m] : 0;
    if (g.chance(pr.hot) && !hot[k].empty()) { for (int t = 0; t < 5; t++) { const std::string& p = hot[k][g.below(hot[k].size())]; if (!want || want == '?') return p; Resolved r = img_resolve(*pg[k].im, p, want != 'l', pg[k].al); if (r.st == RES_OK && pg[k].im->nodes[r.node].type == want) return p; } }
    return pg[k].get(g, want);
  }
  i64 len(u32 bs) { if (bs > 65536 && g.chance(0.9)) bs = 4096; switch (g.below(10)) { case 0: return g.below(3) ? 1 : 0; case 1: return g.below(20); case 2: return bs; case 3: return bs - 1; case 4: return bs + 1; case 5: return bs * g.range(2, 6) + g.below(100); case 6: return g.below(bs * 3); case 7: return 40000; default: return 1 + g.below(bs); } }
  i64 biglen(i64 l) { return g.chance(0.015) ? (g.chance(0.4) ? 0x7fffffffffffffffll : (1ll << g.range(31, 40)) + g.below(3)) : l; }
  std::map<int, std::string> vpath; // assumed object of a vfd slot
  i64 offs(const Image& im, const std::string& p) {
    u64 size = 5000; const Node* n = nullptr; Resolved r = img_resolve(im, p, true, {}); if (r.st == RES_OK && im.nodes[r.node].type == 'f') { n = &im.nodes[r.node]; size = n->size; }
    if (!warm.empty() && size > 2060ull * im.bs && g.chance(0.5)) return (i64)g.range(2048, (i64)(size / im.bs)) * im.bs + g.range(-2, 2);
    if (size > 1ull << 31 && g.chance(0.4)) return (1ll << (size > 1ull << 32 ? g.range(31, 32) : 31)) + g.range(-300, 300);
    switch (g.below(9)) { case 0: return 0; case 1: return size; case 2: return (i64)size - g.range(0, 5); case 3: return g.below(size + 1); case 4: return g.below(size / im.bs + 1) * im.bs + g.range(-2, 2);
      case 5: case 6: if (n && !n->blkKind.empty()) { for (int t = 0; t < 20; t++) { u32 b = g.below(n->blkKind.size()); if (n->blkKind[b] != 'h' || t > 15) return (i64)b * im.bs + g.range(-300, 300); } } return g.below(size + 1);
      case 7: return g.chance(0.5) ? (i64)size + g.range(1, 5000) : (i64)(g.below(size / im.bs / 2048 + 1) * 2048 + g.range(-1, 1)) * im.bs; default: return g.chance(0.2) ? -(i64)g.range(1, 9000) : (i64)g.below(size + 1); }
  }
  Op mk(int kind) {
    Op o; o.id = nextid++; o.kind = kind; int m = mount(); const Image& im = *PG(m).im;
    switch (kind) {
      case K_OPEN: o.s = fresh(ov, vlo, vn); o.a = m; o.p = path(m, g.chance(0.85) ? 'f' : 0); ov.push_back(o.s); vpath[o.s] = o.p; break;
      case K_CLOSE: o.s = pick(ov, vlo, vn); ov.erase(std::remove(ov.begin(), ov.end(), o.s), ov.end()); break;
      case K_READ: o.s = pick(ov, vlo, vn); o.x = biglen(len(im.bs)); if (g.chance(0.01)) o.x = -g.range(1, 100); break;
      case K_LSEEK: o.s = pick(ov, vlo, vn); o.a = g.chance(0.03) ? g.range(-1, 9) : g.below(3); { std::string p = vpath.count(o.s) ? vpath[o.s] : "/"; o.x = offs(im, p); if (o.a == 1) { o.x = g.chance(0.5) ? g.range(-5000, 5000) : g.chance(0.5) ? -(i64)o.x : o.x; } } break;
      case K_FSTAT: o.s = pick(ov, vlo, vn); break;
      case K_BADFD: o.a = g.below(4); o.b = g.below(8); o.s = g.below(NA); o.x = g.below(100); break;
      case K_STAT: case K_LSTAT: o.a = m; o.p = path(m, kind == K_LSTAT && g.chance(0.5) ? 'l' : 0); break;
      case K_READLINK: o.a = m; o.p = path(m, g.chance(0.85) ? 'l' : 0); o.x = g.chance(0.6) ? g.range(0, 40) : g.range(-6, 2); if (g.chance(0.1)) o.x = -100000; if (g.chance(0.15)) o.y = g.range(1, 64); if (g.chance(0.1)) o.y = 4096; break;
      case K_OPENDIR: o.s = fresh(od, dlo, dn); o.a = m; o.p = path(m, g.chance(0.9) ? 'd' : 0); od.push_back(o.s); break;
      case K_READDIR: o.s = pick(od, dlo, dn); o.x = g.chance(0.5) ? g.range(1, 4) : g.chance(0.6) ? g.range(1, 40) : 1600; if (pr.conc > 0.8 && o.x > 100) o.x = 60; break;
      case K_TELLDIR: case K_REWIND: case K_DIRFD: o.s = pick(od, dlo, dn); break;
      case K_SEEKDIR: o.s = pick(od, dlo, dn); o.x = g.below(100); break;
      case K_CLOSEDIR: o.s = pick(od, dlo, dn); od.erase(std::remove(od.begin(), od.end(), o.s), od.end()); break;
      case K_SCANDIR: o.a = m; o.p = path(m, g.chance(0.9) ? 'd' : 0); o.s = g.below(4); o.b = g.below(3); break;
      case K_TOPEN: o.s = fresh(ot, tlo, tn); o.a = m; o.p = g.chance(0.4) ? "/" : path(m, g.chance(0.93) ? 'd' : 0); o.b = g.below(2); ot.push_back(o.s); break;
      case K_TNEXT: o.s = pick(ot, tlo, tn); o.x = g.chance(0.6) ? g.range(1, 6) : g.chance(0.6) ? g.range(5, 60) : 4000; if (conc && o.x > 100) o.x = 100; break;
      case K_TPRUNE: o.s = pick(ot, tlo, tn); break;
      case K_TCLOSE: o.s = pick(ot, tlo, tn); o.x = g.chance(0.1); ot.erase(std::remove(ot.begin(), ot.end(), o.s), ot.end()); break;
      case K_EXTRACT: { o.a = m; o.p = path(m, g.chance(0.92) ? 'f' : 0); static const char* ex[] = {"", "so", "node", "rb"}; o.q = ex[g.below(4)]; break; }
      case K_EXPORT: o.a = m; o.x = g.below(100000); break;
      case K_IDGET: o.a = m; o.x = g.below(100000); break;
      case K_RANGE: o.a = m; o.s = g.chance(0.15); o.p = path(m, o.s ? 'l' : 'f'); o.x = std::max<i64>(0, offs(im, o.p)); o.y = biglen(std::max<i64>(1, len(im.bs))); o.b = g.range(1, 4); if (!warm.empty() && !o.s && g.chance(0.6)) { const std::string& w = warm[g.below(warm.size())]; Resolved wr = img_resolve(im, w, true, {}); if (wr.st == RES_OK && im.nodes[wr.node].type == 'f' && im.nodes[wr.node].size > 2060ull * im.bs) { u64 sz = im.nodes[wr.node].size; o.p = w; o.x = (i64)(sz - 1 - g.below(sz - 2047ull * im.bs)); if (g.chance(0.7)) o.y = g.range(1, 3000); } } break;   // the part that the index is needed for
      case K_DITER: o.a = m; o.p = path(m, 'd'); o.x = g.chance(0.5) ? 0 : g.below(2000); o.y = g.chance(0.5) ? 0 : g.range(1, 20); break;
      case K_STACK: o.x = g.below(1 << 30); o.a = g.range(8, 40); o.b = g.below(12); o.y = g.chance(0.7) ? g.range(1, 60) : g.range(60, 150); break;
      case K_HASH: o.x = g.below(1 << 30); o.a = g.range(1, 20); o.b = g.below(4); o.y = g.chance(0.5) ? g.range(1, 30) : g.range(1, 150); break;
      case K_TMPF: { static const char* ex[] = {"", "so", "x.y"}; o.q = ex[g.below(3)]; break; }
      case K_APPOPEN: case K_APPCLOSE: o.s = g.below(NA); break;
      case K_CLOCK: o.x = g.chance(0.4) ? g.range(0, 2000000) : g.chance(0.5) ? -(i64)g.range(0, 100000000) : g.range(0, 1000); break;
      case K_POKE: o.a = mimg[m] >= 0 ? mimg[m] : 0; o.x = g.below(100000); o.b = g.below(3); break;
      case K_UNPOKE: o.a = mimg[m] >= 0 ? mimg[m] : 0; break;
      case K_NOFILE: o.a = 1; o.x = g.range(0, 4); break;
      case K_DISK: o.x = g.chance(0.3) ? -1 : g.below(30000); break;
      case K_FOREIGN: { static const char* f[] = {"libsquash-1", "libsquash-846930886", "keep.me", "libsquash-1804289383", "libsquash-0.so"}; o.p = f[g.below(5)]; break; }
      case K_MOUNT: { int sl = conc ? 3 - myth : g.range(1, NM - 1); o.s = sl; o.a = g.below(nimg); o.b = (g.chance(0.5) ? 1 : 0) | (g.chance(0.5) ? 4 : 0); if (ali[o.a]) { o.b |= 2; o.p = ALIAS1; o.q = ALIAS2; } mimg[sl] = o.a; o.y = o.a && g.chance(0.3); break; }
      case K_UNMOUNT: o.s = conc ? 3 - myth : g.range(1, NM - 1); break;
      case K_RMEXT: o.x = g.below(100); break;
      case K_MOUNTBAD: o.a = g.below(nimg); o.b = g.below(11); o.x = g.below(2); break;
      default: e_op(o, m, im); break;
    }
    return o;
  }
  void e_op(Op& o, int m, const Image& im);
  std::vector<Op> ops(int n) { std::vector<Op> v; for (int i = 0; i < n; i++) { int k = pickw(g, pr.ops); if (conc && (k == K_POKE || k == K_UNPOKE || k == K_CLEAR || k == K_RMEXT || k == E_CHDIR || k == E_ENTER || ((k == K_MOUNT || k == K_UNMOUNT) && (myth > 2 || !privm(3 - myth))))) { i -= g.chance(0.5) ? 1 : 0; continue; }
      v.push_back(mk(k)); 
      if (pr.loopreps && v.size() > 3 && g.chance(0.15)) { size_t a = v.size() - g.range(1, 3); size_t e = v.size(); int reps = g.range(2, 6); for (int r = 0; r < reps; r++) for (size_t q = a; q < e; q++) { Op c = v[q]; c.id = nextid++; v.push_back(c); } i += reps; }
      if (!conc && g.chance(pr.pressure * 0.15)) { Op p = mk(K_NOFILE); v.push_back(p); if (g.chance(0.6)) { int q = g.range(2, 8); for (int k2 = 0; k2 < q; k2++) v.push_back(mk(pickw(g, pr.ops))); Op u; u.id = nextid++; u.kind = K_NOFILE; u.x = 400; v.push_back(u); } }
      if (!conc && g.chance(pr.poke * 0.12)) { v.push_back(mk(K_POKE)); if (g.chance(0.7)) { int q = g.range(1, 8); for (int k2 = 0; k2 < q; k2++) v.push_back(mk(pickw(g, pr.ops))); v.push_back(mk(K_UNPOKE)); } }
      if (!conc && g.chance(pr.disk * 0.12)) { v.push_back(mk(K_DISK)); int q = g.range(1, 6); for (int k2 = 0; k2 < q; k2++) v.push_back(mk(pickw(g, pr.ops))); Op u; u.id = nextid++; u.kind = K_DISK; u.x = -1; v.push_back(u); }
      if (!conc && g.chance(pr.foreign * 0.08)) v.push_back(mk(K_FOREIGN));
      if (!conc && pr.mountops && g.chance(0.06)) { v.push_back(mk(g.chance(0.5) ? K_MOUNT : K_UNMOUNT)); }
    } return v; }
};
void Gen::e_op(Op& o, int m, const Image& im) {
  (void)im;
  auto outside = [&]() -> std::string { static const char* p[] = {"/home/app/file0.txt", "/home/app/file1.txt", "/home/app", "/home/app/new.txt", "/nonexistent/x", "/home/app/dir", "/", "/home/app/dir/inner.txt", "/tmp"}; return p[g.below(9)]; };
  auto inside = [&](char want) -> std::string {
    std::string p = path(m, want); if (p[0] != '/') p = "/" + p; if (p.compare(0, 21, "/__enclose_io_memfs__")) p = "/__enclose_io_memfs__" + (p == "/" ? std::string() : p);
    if (cwd.size() && g.chance(0.6)) { if (p.size() > cwd.size() && !p.compare(0, cwd.size(), cwd)) { std::string q = p.substr(cwd.size()); while (!q.empty() && q[0] == '/') q = q.substr(1); if (!q.empty()) return g.chance(0.15) ? "./" + q : q; } else { std::string q; for (char c : cwd.substr(1)) if (c == '/') q += "../"; if (p.size() > 1) { q += p.substr(1); return q; } } }
    return p;
  };
  auto P = [&](char want) { double d = cwd.empty() ? 0.25 : 0.12; if (g.chance(d)) return outside(); if (g.chance(cwd.empty() ? 0.04 : 0.02)) return std::string("file0.txt"); return inside(want); };
  auto NEWP = [&]() { std::string p = inside(g.chance(0.8) ? 'd' : 0); if (g.chance(0.75)) { static const char* n[] = {"new1", "new2", "made", "out.log", "cache", ".x", "x.", "..."}; auto N = [&] { return n[g.below(g.chance(0.85) ? 5 : 8)]; }; if (g.chance(0.1)) p = inside('f'); while (p.size() > 1 && p.back() == '/') p.pop_back(); p += "/"; p += N(); if (g.chance(0.25)) { p += "/"; p += N(); } } return p; };
  switch (o.kind) {
    case E_CHDIR: if (g.chance(0.15)) { o.p = outside(); if (!conc) cwd.clear(); } else { o.p = inside(g.chance(0.9) ? 'd' : 0); if (!conc) { std::string a = o.p[0] == '/' ? o.p : cwd + o.p; Resolved r = img_resolve(*PG(m).im, a, true, {}); if (r.st == RES_OK && PG(m).im->nodes[r.node].type == 'd' && r.alt == -2) cwd = a + (a.back() == '/' ? "" : "/"); } } break;
    case E_GETCWD: o.x = g.chance(0.5) ? 4096 : !cwd.empty() && g.chance(0.7) ? std::max<i64>(1, (i64)os_norm(cwd).size() + g.range(-2, 3)) : g.range(1, 60); o.a = g.below(3); o.b = g.chance(0.3); break;
    case E_STAT: case E_LSTAT: case E_ACCESS: case E_IF: o.p = P(o.kind == E_LSTAT && g.chance(0.5) ? 'l' : 0); if (pr.faults.size() > 3 && s.prop == "C18" && g.chance(0.5)) o.p = NEWP(); o.a = g.below(8); break;
    case E_READLINK: o.p = P(g.chance(0.85) ? 'l' : 0); o.x = g.chance(0.7) ? g.range(0, 40) : g.range(-6, 2); break;
    case E_OPEN: case E_OPENAT: o.s = fresh(ov, vlo, vn); o.a = g.chance(0.8) ? 0 : g.range(1, 3); if (s.prop == "C18") o.a = g.chance(0.3) ? 0 : g.range(1, 3); o.p = o.a ? (g.chance(0.25) ? outside() : NEWP()) : (s.prop == "C18" && g.chance(0.5) ? NEWP() : P(g.chance(0.85) ? 'f' : 0)); o.b = g.chance(0.75) ? 0 : 1; o.x = g.chance(0.5); ov.push_back(o.s); vpath[o.s] = o.p; break;
    case E_CLOSE: o.s = pick(ov, vlo, vn); ov.erase(std::remove(ov.begin(), ov.end(), o.s), ov.end()); break;
    case E_READ: o.s = pick(ov, vlo, vn); o.x = len(im.bs); break;
    case E_EXEPATH: o.x = g.chance(0.7) ? g.range(0, 20) : g.chance(0.5) ? 4096 : g.range(1, 5000); o.a = g.chance(0.9) ? 0 : g.range(1, 2); break;
    case E_SYMLINK: o.p = "~l" + std::to_string(g.below(5)); o.x = g.below(1000); o.a = g.below(5); break;
    case E_WRITE: o.s = pick(ov, vlo, vn); o.x = g.range(1, 3000); break;
    case E_LSEEK: o.s = pick(ov, vlo, vn); o.a = g.below(3); { std::string p = vpath.count(o.s) ? vpath[o.s] : "/"; if (!p.empty() && p[0] != '/') p = cwd + p; o.x = offs(im, p); if (o.a == 1) o.x = g.chance(0.5) ? g.range(-5000, 5000) : -o.x; if (o.a == 2) o.x = 0; if (o.a == 0 && g.chance(0.06)) o.x = 3000000000ll + g.below(1000); } break;
    case E_FSTAT: o.s = pick(ov, vlo, vn); break;
    case E_PREAD: o.s = pick(ov, vlo, vn); o.x = len(im.bs); { std::string p = vpath.count(o.s) ? vpath[o.s] : "/"; if (!p.empty() && p[0] != '/') p = cwd + p; o.y = offs(im, p); } break;
    case E_READV: o.s = pick(ov, vlo, vn); o.x = g.next() & 0x7fffffff; break;
    case E_OPENDIR: o.s = fresh(od, dlo, dn); o.p = s.prop == "C18" && g.chance(0.5) ? NEWP() : P(g.chance(0.9) ? 'd' : 0); od.push_back(o.s); break;
    case E_FDOPENDIR: o.s = fresh(od, dlo, dn); o.a = pick(ov, vlo, vn); od.push_back(o.s); break;
    case E_READDIR: o.s = pick(od, dlo, dn); o.x = g.chance(0.5) ? g.range(1, 4) : g.chance(0.6) ? g.range(1, 40) : 1600; break;
    case E_SEEKDIR: o.s = pick(od, dlo, dn); o.x = g.below(100); break;
    case E_TELLDIR: case E_REWIND: case E_DIRFD: o.s = pick(od, dlo, dn); break;
    case E_CLOSEDIR: o.s = pick(od, dlo, dn); od.erase(std::remove(od.begin(), od.end(), o.s), od.end()); break;
    case E_SCANDIR: o.p = P(g.chance(0.9) ? 'd' : 0); o.s = g.below(4); o.b = g.below(3); break;
    case E_MKDIR: o.p = g.chance(0.12) ? outside() : NEWP(); o.a = g.chance(0.5) ? 0777 : 0700; if (!conc && g.chance(0.25)) { static const int md[] = {0500, 0555, 0755}; o.a = md[g.below(3)]; } break;
    case E_IFEXTRACT: case E_DLOPEN: { o.p = P(g.chance(0.9) ? 'f' : 0); static const char* ex[] = {"", "so", "node"}; o.q = ex[g.below(3)]; break; }
    case E_EXECV: o.p = P(g.chance(0.9) ? 'f' : 0); o.x = g.range(0, 4); break;
    default: break;
  }
  if (!o.p.empty() && o.kind != E_ENTER && o.kind != E_SYMLINK && o.p != "/" && g.chance(0.05)) o.p += g.chance(0.7) ? "/" : g.chance(0.7) ? "//" : "/.";
  if (o.kind != E_IF && !o.p.empty() && o.kind != E_ENTER && o.kind != E_SYMLINK && o.kind != E_EXEPATH && (o.kind == E_CHDIR ? g.chance(0.02) : cwd.size() > 1000 ? g.chance(0.5) : g.chance(0.03))) {   // paths around and beyond the longest the library can handle
    size_t want = 2048 + (g.chance(0.7) ? g.range(-3, 3) : g.chance(0.5) ? g.range(-300, 0) : g.range(0, 1500)); std::string pad; bool rel = o.p[0] != '/'; size_t have = o.p.size() + (rel ? cwd.size() : 0);
    if (rel && cwd.empty()) return; if (!rel && o.p.compare(0, 22, "/__enclose_io_memfs__/")) return;
    while (have + pad.size() + 2 <= want) pad += "./"; if (have + pad.size() < want) pad += "/"; if (rel && pad == "/") pad.clear();
    o.p.insert(rel ? 0 : 22, pad);
  }
}

Scn gen_scn(const std::string& prop, u64 seed, int tier) {
  Gen G(hmix(hmix(0xC0FFEE, seed), std::hash<std::string>()(prop) & 0)); { u64 h = 0; for (char c : prop) h = hmix(h, c); G.g = Rng(hmix(seed, h)); }
  Rng& g = G.g; Scn& s = G.s; Prof& p = G.pr; p = profile(prop); s.prop = prop; s.seed = seed;
  if ((prop == "C08" || prop == "C09" || prop == "C14" || prop == "C19") && g.chance(0.15)) { Prof q = p; p = profile("C17"); p.conc = q.conc; p.faultp = q.faultp; p.maxf = q.maxf; }   // the same guarantee for the calls of the sample
  int pool = tier ? 400 : 60;
  if (g.chance(0.5)) { auto all = p.ops; double q = 0.2 + 0.5 * g.unit(); for (auto& o : p.ops) { if (g.chance(q)) o.second = 0; else if (g.chance(0.3)) o.second *= 5; } int kinds = 0; for (auto& o : p.ops) kinds += o.second > 0; if (kinds < 3) p.ops = all; }   // only some kinds of calls, some of them often
  G.nimg = g.chance(p.multi) ? g.range(2, 3) : 1; std::string shapes;
  for (int i = 0; i < G.nimg; i++) { int sh = pickw(g, p.shapes); bool al = !p.enclose && g.chance(0.35); G.ali[i] = al; s.imgs.push_back(gen_image(sh, g.below(pool), p.enclose && i == 0, al)); static const char* nm[] = {"tiny", "files", "md", "bigdir", "bigfile", "links", "deep", "mix", "manybig", "huge"}; shapes += std::string(i ? "+" : "") + nm[sh]; std::vector<std::string> av; if (al) av = {ALIAS1, ALIAS2}; G.pg[i].init(pool_get(s.imgs[i]), av); int nh = sh == SH_MANYBIG ? 40 : sh == SH_BIGFILE || sh == SH_HUGE ? g.range(5, 9) : g.range(3, 9); for (int k = 0; k < nh; k++) G.hot[i].push_back(G.pg[i].get(g, "ffffddl?"[g.below(8)])); }
  if (shapes.find("manybig") != std::string::npos && (prop == "C01" || prop == "C04" || prop == "C07" || prop == "C08") && g.chance(0.7)) { for (auto& o : p.ops) { if (o.first == K_RANGE) o.second = std::max(o.second, 1) * 30; else if (o.first == K_LSEEK || o.first == K_READ || o.first == K_OPEN) o.second *= 2; else o.second = (o.second + 1) / 2; } p.n_lo = 25; p.n_hi = 50; p.hot = 0.95; }   // enough reads to fill and turn over the cache of block indexes
  if (!p.enclose) { auto im = pool_get(s.imgs[0]); int big = 0; std::vector<std::string> bp; for (size_t i = 0; i < im->nodes.size(); i++) if (im->nodes[i].type == 'f' && im->nodes[i].size > 2060ull * im->bs) { big++; bp.push_back(node_path(*im, i)); } if (big > 8 && g.chance(0.85)) { G.warm = bp; if (g.chance(0.7)) { G.hot[0] = bp; } } }
  SimConf& c = s.conf; c.sched_seed = g.next(); static const u8 fl[] = {0xA5, 0, 0xFF, 1}; c.fill = fl[g.below(4)]; c.reuse = g.chance(0.5); c.clock0 = 1600000000 + g.below(200000000); c.clock_step_us = g.chance(0.5) ? 10 : g.range(0, 100000); c.pid0 = g.range(2, 40000); c.pid_reuse = g.chance(0.5); c.tmpvar = g.below(4); static const char* td[] = {"/tmp", "/var/tmp/", "/tmp", "/home/app/t", "/var/tmp//"}; c.tmpdir = td[g.below(p.enclose ? 4 : 5)]; if (g.chance(0.12)) { i64 want = p.enclose ? g.range(20, 300) : g.range(20, 3500); c.tmpdir = "/v"; while ((i64)c.tmpdir.size() < want) c.tmpdir += "/" + std::string(g.range(1, 200), (char)('a' + g.below(26))); }
  if (g.chance(0.2)) c.randmode = g.range(1, 4);
  c.nofile = 400; c.close0 = g.chance(p.close0);
  int nl = g.range(1, p.lives_hi); bool anyconc = false;
  for (int L = 0; L < nl; L++) {
    Life life; G.cwd.clear(); G.ov.clear(); G.od.clear(); G.ot.clear(); for (int& x : G.mimg) x = -1; G.privmounts.clear();
    int nseg = g.range(p.segs_lo, p.segs_hi);
    std::vector<Op> pre; 
    { Seg sg; Op o; o.id = G.nextid++; if (p.enclose) { o.kind = E_ENTER; o.s = 0; o.a = 0; } else { o.kind = K_MOUNT; o.s = 0; o.a = 0; o.b = g.chance(0.5); if (G.ali[0]) { o.b |= 2; o.p = ALIAS1; o.q = ALIAS2; } } G.mimg[0] = 0; pre.push_back(o);
      if (!p.enclose) for (int i = 1; i < NM; i++) if (i < G.nimg || (p.mountops && g.chance(0.4)) || g.chance(0.08)) { Op q; q.id = G.nextid++; q.kind = K_MOUNT; q.s = i; q.a = i < G.nimg ? i : g.below(G.nimg); q.b = (g.chance(0.5) ? 1 : 0) | (g.chance(0.5) ? 4 : 0); if (G.ali[q.a]) { q.b |= 2; q.p = ALIAS1; q.q = ALIAS2; } G.mimg[i] = q.a; q.y = q.a && g.chance(0.3); pre.push_back(q); }
      if (g.chance(p.app)) for (int i = g.range(1, 4); i > 0; i--) { Op q; q.id = G.nextid++; q.kind = K_APPOPEN; q.s = g.below(NA); pre.push_back(q); }
      if (g.chance(p.foreign)) for (int i = g.range(1, 4); i > 0; i--) pre.push_back(G.mk(K_FOREIGN));
      if (c.close0 && g.chance(0.3)) { Op q; q.id = G.nextid++; q.kind = K_CLOSE0; pre.push_back(q); }
      sg.th.push_back(pre); life.segs.push_back(sg); }
    for (int k = 0; k < nseg; k++) {
      Seg sg; bool cc = g.chance(p.conc); if (k == nseg - 1 && p.conc >= 0.9 && !anyconc) cc = true;
      if (cc) {
        // setup in the main thread, then the threads, then perhaps an epilogue
        G.conc = false; G.vlo = 0; G.vn = NV; G.dlo = 0; G.dn = ND; G.tlo = 0; G.tn = NT;
        if (!G.warm.empty() && g.chance(0.6)) { Seg s0; std::vector<Op> w; for (auto& q : G.warm) { Op o; o.id = G.nextid++; o.kind = K_RANGE; o.a = 0; o.p = q; o.x = 2060ll * pool_get(s.imgs[0])->bs; o.y = 10; o.b = 1; w.push_back(o); } s0.th.push_back(w); life.segs.push_back(s0); }   // all indexes of the big files asked for once
        if (g.chance(0.7)) { Seg s0; s0.th.push_back(G.ops(g.range(1, 12))); life.segs.push_back(s0); }
        int nt = g.range(p.th_lo, p.th_hi); anyconc = true; G.conc = true; G.privmounts.clear(); if (p.mountops && g.chance(prop == "C15" ? 0.9 : 0.3)) for (int t = 0; t < nt && t < 3; t++) G.privmounts.insert(3 - t);
        int tot = g.range(p.n_lo, p.n_hi);
        for (int t = 0; t < nt; t++) { G.range(t); sg.th.push_back(G.ops(std::max(2, tot * 2 / (nt + 1)))); }
        G.conc = false; life.segs.push_back(sg);
        G.vlo = 0; G.vn = NV; G.dlo = 0; G.dn = ND; G.tlo = 0; G.tn = NT;
        if (g.chance(0.6)) { Seg s1; s1.th.push_back(G.ops(g.range(1, 8))); life.segs.push_back(s1); }
      } else {
        G.conc = false; G.vlo = 0; G.vn = NV; G.dlo = 0; G.dn = ND; G.tlo = 0; G.tn = NT;
        if (g.chance(0.7)) { G.vn = 12; G.dn = 6; G.tn = 4; }
        sg.th.push_back(G.ops(g.range(p.n_lo, p.n_hi))); life.segs.push_back(sg);
      }
    }
    s.lives.push_back(life);
  }
  s.profile = shapes;
  if (anyconc) {
    int k = g.below(12); c.strategy = k < 4 ? ST_RANDOM : k < 6 ? ST_SYNC : k < 8 ? ST_PCT : k < 10 ? ST_CONFLICT : ST_STALL;
    if (!G.warm.empty() && g.chance(0.65)) c.strategy = ST_STALL;
    static const double rp[] = {0.5, 0.2, 0.05, 0.02, 0.005, 0.001}; c.p = c.strategy == ST_RANDOM ? rp[g.below(6)] : c.strategy == ST_SYNC ? 0.2 + 0.6 * g.unit() : c.strategy == ST_CONFLICT ? 0.05 + 0.6 * g.unit() : c.strategy == ST_STALL ? 0.5 * g.unit() * g.unit() : 0;
    c.pct_depth = g.range(1, c.strategy == ST_STALL ? 12 : 6); c.pct_len = 1ull << g.range(8, 17);
  }
  return s;
}

// Second pass: faults at points the fault-free run passed; the faulted call is repeated afterwards without the fault.
void gen_faults(Scn& s, u64 seed) {
  Prof p = profile(s.prop); Rng g(hmix(s.seed * 31 + 7, seed));
  std::map<int, Op*> byid; std::vector<Op*> list; for (auto& l : s.lives) for (auto& sg : l.segs) for (auto& t : sg.th) for (auto& o : t) { byid[o.id] = &o; list.push_back(&o); }
  if (!p.enclose) for (Op* o : list) if (o->kind == E_ENTER) { if (s.prop != "C08") p.faults = profile("C17").faults; break; }   // see gen_scn
  struct Pt { int op, kind, n; }; std::map<int, std::vector<Pt>> pts;
  for (auto& c : OPCOUNTS) for (int k = 0; k < FK_N; k++) if (c.second[k] > 0) pts[k].push_back({c.first, k, c.second[k]});
  std::vector<std::pair<int, int>> fk; for (auto& f : p.faults) if (!pts[f.first].empty()) fk.push_back(f);
  std::set<int> faulted;
  if (!fk.empty()) {
    int n = g.range(1, p.maxf);
    for (int i = 0; i < n; i++) {
      int k = pickw(g, fk); auto& v = pts[k]; Pt q = v[g.below(v.size())];
      Fault f; f.op = q.op; f.kind = k; f.nth = g.chance(0.35) ? 0 : g.chance(0.4) ? q.n - 1 : g.below(q.n);
      if (k == FK_ALLOC && !ALLOCSITES.empty() && g.chance(0.4)) { auto it = ALLOCSITES.begin(); std::advance(it, g.below(ALLOCSITES.size())); auto& e = it->second[g.below(it->second.size())]; if (OPCOUNTS.count(e.first)) { f.op = q.op = e.first; f.nth = e.second; } }   // the places that seldom allocate get their share
      f.arg = k == FK_WRITE || k == FK_DECODE ? g.below(3) : k == FK_CLOSE ? g.chance(0.3) : 0; f.sticky = g.chance(k == FK_SQUAT ? 0.3 : 0.25);
      if (k == FK_SQUAT && f.sticky && g.chance(0.7)) f.sticky = false;
      s.faults.push_back(f); faulted.insert(q.op);
    }
  }
  if (p.crash > 0 && s.lives.size() > 1 && g.chance(p.crash)) {
    std::vector<int> c; for (auto& sg : s.lives[0].segs) for (auto& t : sg.th) for (auto& o : t) if (OPSTEPS.count(o.id) && (o.kind == K_EXTRACT || o.kind == E_MKDIR || o.kind == E_OPEN || g.chance(0.2))) c.push_back(o.id);
    if (!c.empty()) { s.crash_op = c[g.below(c.size())]; s.crash_step = 1 + g.below(OPSTEPS[s.crash_op] + 1); }
  }
  for (auto& l : s.lives) for (auto& sg : l.segs) for (auto& t : sg.th) { std::vector<Op> n; for (auto& o : t) { n.push_back(o); if (faulted.count(o.id) && g.chance(0.8)) { Op r = o; r.id = o.id + 50000; n.push_back(r); } } t = n; }
}

// ---- which violations speak about which property --------------------------------------------------------------------------
static bool in(const std::string& c, std::initializer_list<const char*> l) { for (auto x : l) if (c == x) return true; return false; }
bool relevant(const std::string& P, const Scn& s, const Violation& v) {
  const std::string& c = v.cls; int k = v.kind; (void)s;
  bool mem = !c.compare(0, 4, "mem-") && c != "mem-leak" && c != "mem-growth"; bool crash = mem || in(c, {"crash", "assert", "double-free", "bad-free", "stack-overflow", "stack-smash"});
  bool wrong = in(c, {"wrong-data", "wrong-result", "wrong-errno", "spurious-failure"}) || !c.compare(0, 6, "buffer") || c == "arg-write";
  bool leak = in(c, {"mem-leak", "mem-growth", "fd-leak", "file-leak"}); bool lock = in(c, {"deadlock", "lock-held", "lock-misuse", "no-progress"});
  bool dirop = (k >= K_OPENDIR && k <= K_SCANDIR) || k == K_DITER; bool trav = k >= K_TOPEN && k <= K_TCLOSE; bool ext = k == K_EXTRACT || k == K_CLEAR || k == K_TMPF || k == K_ATEXIT;
  if (P == "C01") return true;   // the differential rerun decides (main.cpp)
  if (P == "C02") return crash || wrong || lock || !c.compare(0, 3, "fd-");
  if (P == "C03") return crash || wrong || c == "no-progress";
  if (P == "C04") return crash || wrong || c == "no-progress";
  if (P == "C05") return (crash || wrong || c == "no-progress" || leak) && (dirop || k == K_STAT || leak || crash);
  if (P == "C06") return crash || wrong || c == "no-progress";
  if (P == "C07") return crash || wrong || lock;
  if (P == "C08") return crash || wrong || lock || leak || !c.compare(0, 3, "fd-");
  if (P == "C09") return leak || c == "lock-held" || c == "double-free" || crash || (k == K_STACK && wrong);   // what the stack loses or hands over twice, nobody or two will release
  if (P == "C10") return crash || wrong || !c.compare(0, 3, "fd-") || lock;
  if (P == "C11") return !lock && (ext || c == "file-leak" || crash || c == "fd-leak");
  if (P == "C12") return !lock;
  if (P == "C13") return ext || !c.compare(0, 5, "file-") || crash;
  if (P == "C14") return lock || crash;
  if (P == "C15") return true;
  if (P == "C16") return trav || crash;
  if (P == "C19") return mem || crash || !c.compare(0, 6, "buffer") || in(c, {"arg-write", "image-write", "bad-free", "wrong-data"});
  return true;
}

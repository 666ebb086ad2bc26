// Driver: seeded search over scenarios, replay of recorded ones, minimisation of violations.
#include "world.h"
#include <chrono>
#include <fstream>
#include <sstream>
#include <unordered_set>
#include <unistd.h>

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string jstr(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::string slurp(const std::string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }

struct Res { Violation v; u64 ev, sched; std::vector<Switch> sw; };
static Res run(const Scn& s, bool collect = false) { pool_trim(); run_scn(s, collect); Res r; r.v = VIOL; r.ev = EVHASH; r.sched = SCHEDHASH; r.sw = SWITCHES; return r; }
static bool same(const Violation& a, const Violation& b) { return a.set && b.set && a.cls == b.cls && a.kind == b.kind; }
static std::string where(const Violation& v) { std::string s; for (size_t i = 0; i < v.pcs.size() && i < 6; i++) s += (i ? " < " : "") + rt_sym(v.pcs[i]); return s; }

// violation made independent of the random generators: the recorded schedule becomes the input
static Scn frozen(const Scn& s, const Res& r) { Scn f = s; f.replay = true; f.sw = r.sw; return f; }

// The scenario of (property, seed, variant): variant 0 is fault-free, the others place faults at points the fault-free run passed.
static void vary(Scn& s, int v) {
  gen_faults(s, v);
  if (!s.faults.empty() || s.crash_op >= 0) return;
  s.conf.sched_seed = hmix(s.conf.sched_seed, v);
  if (s.conf.strategy == ST_RANDOM) s.conf.p = std::min(0.5, s.conf.p * (v == 1 ? 4 : 0.25)); else if (v == 2) { s.conf.strategy = ST_CONFLICT; s.conf.p = 0.3; }
}
static Scn scenario(const std::string& prop, u64 seed, int v, int tier, Res& r0) { Scn s = gen_scn(prop, seed, tier); if (v == 0) return s; r0 = run(s, true); vary(s, v); return s; }

struct Shrinker {
  Scn best; Violation target; double end; int tries = 0;
  bool attempt(Scn c) { if (now() > end) return false; tries++; c.replay = true; Res r = run(c); if (!same(r.v, target)) return false; best = c; best.sw = c.sw; target = r.v; return true; }
  template <class T> bool ddvec(std::vector<T>& (*get)(Scn&)) {   // removes chunks
    bool any = false; size_t n = get(best).size(); size_t ch = n;
    while (ch >= 1 && now() < end) { bool hit = false; for (size_t i = 0; i < get(best).size() && now() < end;) { Scn c = best; auto& v = get(c); size_t e = std::min(v.size(), i + ch); v.erase(v.begin() + i, v.begin() + e); if (attempt(c)) { any = hit = true; } else i += ch; } if (!hit || ch > get(best).size()) ch /= 2; if (!ch) break; }
    return any;
  }
  void go() {
    { Scn c = best; c.sw.clear(); c.conf.strategy = ST_SERIAL; attempt(c); }
    bool ch = true; int rounds = 0;
    while (ch && rounds++ < 4 && now() < end) {
      ch = false;
      for (size_t l = best.lives.size(); l-- > 0;) if (best.lives.size() > 1) { Scn c = best; c.lives.erase(c.lives.begin() + l); ch |= attempt(c); }
      for (size_t l = 0; l < best.lives.size(); l++) for (size_t g = best.lives[l].segs.size(); g-- > 0;) { Scn c = best; c.lives[l].segs.erase(c.lives[l].segs.begin() + g); ch |= attempt(c); }
      for (size_t l = 0; l < best.lives.size(); l++) for (size_t g = 0; g < best.lives[l].segs.size(); g++) {
        for (size_t t = best.lives[l].segs[g].th.size(); t-- > 0;) if (best.lives[l].segs[g].th.size() > 1) { Scn c = best; c.lives[l].segs[g].th[t].clear(); if (c.lives[l].segs[g].th[t].size() != best.lives[l].segs[g].th[t].size()) ch |= attempt(c); }
        for (size_t t = 0; t < best.lives[l].segs[g].th.size(); t++) {
          size_t n = best.lives[l].segs[g].th[t].size();
          for (size_t k = n; k >= 1 && now() < end; k /= 2) for (size_t i = 0; i < best.lives[l].segs[g].th[t].size() && now() < end;) { Scn c = best; auto& v = c.lives[l].segs[g].th[t]; v.erase(v.begin() + i, v.begin() + std::min(v.size(), i + k)); if (attempt(c)) ch = true; else i += k; }
        }
      }
      ch |= ddvec<Fault>(+[](Scn& s) -> std::vector<Fault>& { return s.faults; });
      ch |= ddvec<Switch>(+[](Scn& s) -> std::vector<Switch>& { return s.sw; });
      if (best.crash_op >= 0) { Scn c = best; c.crash_op = -1; ch |= attempt(c); }
      for (auto n = 0u; n < best.lives.size(); n++) for (auto& g : best.lives[n].segs) for (auto& t : g.th) for (auto& o : t) if (o.x > 1 && (o.kind == K_READ || o.kind == K_READDIR || o.kind == K_TNEXT) && now() < end) { int id = o.id; for (i64 x : {o.x / 16, o.x / 4, o.x / 2}) { Scn c = best; for (auto& l2 : c.lives) for (auto& g2 : l2.segs) for (auto& t2 : g2.th) for (auto& o2 : t2) if (o2.id == id) o2.x = std::max<i64>(1, x); if (attempt(c)) { ch = true; break; } } goto next; }
      next:;
    }
    // image nodes nothing refers to
    for (size_t im = 0; im < best.imgs.size() && now() < end; im++) for (size_t i = best.imgs[im].nodes.size(); i-- > 1 && now() < end;) {
      if (i >= best.imgs[im].nodes.size()) continue;
      bool leaf = true; for (auto& n : best.imgs[im].nodes) if ((&n != &best.imgs[im].nodes[0] && n.parent == (int)i) || n.link == (int)i) leaf = false; if (!leaf) continue;
      Scn c = best; auto& v = c.imgs[im].nodes; v.erase(v.begin() + i); for (auto& n : v) { if (n.parent > (int)i) n.parent--; if (n.link > (int)i) n.link--; } attempt(c);
    }
    for (auto& l : best.lives) { for (auto& g : l.segs) while (g.th.size() > 1 && g.th.back().empty()) g.th.pop_back(); }
    for (auto& l : best.lives) for (size_t g = l.segs.size(); g-- > 0;) { bool e = true; for (auto& t : l.segs[g].th) if (!t.empty()) e = false; if (e) { Scn c = best; (void)c; } }
  }
};

static void emit_stats(FILE* o, u64 seeds, u64 distinct_sched, u64 distinct_ev, double wall, u64 dchecks, u64 dbad) {
  fprintf(o, "{\"type\":\"stats\",\"seeds\":%lu,\"runs\":%lu,\"steps\":%lu,\"switches\":%lu,\"ops\":%lu,\"natural\":%lu,\"lock_waits\":%lu,\"crashes\":%lu,\"lives\":%lu,\"allocs\":%lu,\"decodes\":%lu,\"simtime_us\":%ld,\"conflict_pairs\":%zu,\"schedules\":%lu,\"histories\":%lu,\"determinism_checks\":%lu,\"determinism_failures\":%lu,\"wall\":%.3f,\"faults\":{",
          (unsigned long)seeds, (unsigned long)STATS.runs, (unsigned long)STATS.steps, (unsigned long)STATS.switches, (unsigned long)STATS.ops, (unsigned long)STATS.natural, (unsigned long)STATS.lock_waits, (unsigned long)STATS.crashes, (unsigned long)STATS.lives, (unsigned long)STATS.allocs, (unsigned long)STATS.decodes, (long)STATS.simtime_us, COVER.size(), (unsigned long)distinct_sched, (unsigned long)distinct_ev, (unsigned long)dchecks, (unsigned long)dbad, wall);
  for (int i = 0; i < FK_N; i++) fprintf(o, "%s\"%s\":%lu", i ? "," : "", fault_names[i], (unsigned long)STATS.faults[i]);
  fprintf(o, "}}\n"); fflush(o);
}

int main(int argc, char** argv) {
  std::map<std::string, std::string> a; std::vector<std::string> pos;
  for (int i = 1; i < argc; i++) { std::string s = argv[i]; if (s.size() > 2 && s[0] == '-' && s[1] == '-') { size_t e = s.find('='); if (e == std::string::npos) a[s.substr(2)] = "1"; else a[s.substr(2, e - 2)] = s.substr(e + 1); } else pos.push_back(s); }
  rt_init();
  if (pos.empty()) { fprintf(stderr, "usage: sim search|replay|gen ...\n"); return 2; }
  if (pos[0] == "replay") {
    Scn s; if (pos.size() < 2) return 2;
    std::string text = slurp(pos[1]); char rp[32]; unsigned long rs; int rv, rt, gq = 0; size_t at = text.find("\nregen ");
    if (at != std::string::npos && sscanf(text.c_str() + at, "\nregen %31s %lu %d %d", rp, &rs, &rv, &rt) == 4) { Res q; s = scenario(rp, rs, rv, rt, q); gq = 1; }
    else if (!scn_from_text(text, s)) { fprintf(stderr, "cannot read the replay file\n"); return 2; }
    (void)gq; TRACE = a.count("trace"); if (a.count("twice")) { run(s); printf("=====\n"); }
    Res r = run(s);
    if (!r.v.set) { printf("RESULT none events=%016lx\n", (unsigned long)r.ev); return 0; }
    printf("RESULT %s|%s|op %d thread %d|%s|events=%016lx\n", r.v.cls.c_str(), r.v.kind >= 0 && r.v.kind < K_N ? op_names[r.v.kind] : "?", r.v.op, r.v.thread, r.v.msg.c_str(), (unsigned long)r.ev);
    printf("AT %s\n", where(r.v).c_str());
    return 1;
  }
  std::string prop = a["prop"]; u64 base = strtoull(a["seed"].c_str(), 0, 10); int w = atoi(a["worker"].c_str()), nw = std::max(1, atoi(a["workers"].c_str())); double secs = a.count("secs") ? atof(a["secs"].c_str()) : 10; int tier = a["tier"] == "thorough"; u64 maxseeds = a.count("seeds") ? strtoull(a["seeds"].c_str(), 0, 10) : ~0ull;
  std::string dir = a.count("dir") ? a["dir"] : "."; int variants = a.count("variants") ? atoi(a["variants"].c_str()) : 3; int maxviol = a.count("maxviol") ? atoi(a["maxviol"].c_str()) : 3; bool all = a.count("all"); double shrink = a.count("shrink") ? atof(a["shrink"].c_str()) : 6;
  if (pos[0] == "describe") { printf("%s\n", describe(prop).c_str()); return 0; }
  if (pos[0] == "gen") { Scn s = gen_scn(prop, base, tier); if (a.count("variant")) { Res q; s = scenario(prop, base, atoi(a["variant"].c_str()), tier, q); } printf("%s", scn_to_text(s).c_str()); return 0; }
  if (pos[0] != "search") return 2;
  double t0 = now(), tend = t0 + secs; u64 seeds = 0, dchecks = 0, dbad = 0, skipped = 0; std::unordered_set<u64> scheds, evs; std::set<std::string> seen; int found = 0; u64 dig = 1, digest = a.count("digest") ? strtoull(a["digest"].c_str(), 0, 10) : 0;
  FILE* o = stdout;
  for (u64 i = 0; i < maxseeds && now() < tend && found < maxviol; i++) {
    u64 seed = base * 1000003ull + i * nw + w; seeds++;
    if (a.count("verbose")) { fprintf(stderr, "seed %lu\n", (unsigned long)seed); }
    alarm(120);
    Scn s0 = gen_scn(prop, seed, tier);
    for (int v = 0; v <= variants && now() < tend; v++) {
      Scn s = s0; Res r;
      if (v == 0) { r = run(s, true); }
      else {
        vary(s, v);
        if (s.faults.empty() && s.crash_op < 0) { bool conc = false; for (auto& l : s.lives) for (auto& g : l.segs) conc |= g.th.size() > 1; if (!conc) break; }
        r = run(s);
      }
      auto oc = OPCOUNTS; auto os = OPSTEPS; auto as = ALLOCSITES;
      scheds.insert(r.sched); evs.insert(r.ev); if (i < digest) dig = hmix(hmix(dig, r.ev), r.sched);
      if ((seeds & 63) == 1 && v <= 1) { dchecks++; Res q = run(s, v == 0); if (q.ev != r.ev || q.sched != r.sched || q.v.set != r.v.set) { dbad++; fprintf(o, "{\"type\":\"nondeterminism\",\"seed\":%lu,\"variant\":%d}\n", (unsigned long)seed, v); } }
      if (r.v.set) {
        std::string sig = r.v.cls + "|" + (r.v.kind >= 0 && r.v.kind < K_N ? op_names[r.v.kind] : "?") + "|" + (r.v.pcs.empty() ? "" : rt_sym(r.v.pcs[0]));
        if (a.count("verbose")) fprintf(stderr, "  seed %lu variant %d: %s: %s\n", (unsigned long)seed, v, r.v.cls.c_str(), r.v.msg.c_str());
        bool rel = all || relevant(prop, s, r.v);
        if (rel && prop == "C01" && !all) {   // does the violation need the interleaving?
          Scn q = s; q.conf.strategy = ST_SERIAL; q.sw.clear(); Res z = run(q); if (same(z.v, r.v)) rel = false;
        }
        if (!rel || seen.count(sig)) { skipped++; if (v == 0) break; continue; }
        seen.insert(sig); found++;
        Scn f = frozen(s, r); Res c = run(f); bool repro = same(c.v, r.v) && c.v.op == r.v.op && c.ev == r.ev;
        Shrinker sh; sh.best = f; sh.target = r.v; sh.end = std::min(now() + shrink, now() + shrink); int n0 = f.nops(); size_t sw0 = f.sw.size();
        if (same(c.v, r.v)) sh.go();
        char nm[200]; snprintf(nm, sizeof nm, "%s/%s-%lu-%d-%d.replay", dir.c_str(), prop.c_str(), (unsigned long)seed, v, found);
        Res fin = run(sh.best); if (!fin.v.set) { fin.v = r.v; fin.ev = r.ev; }
        std::ofstream fo(nm); fo << "# " << fin.v.cls << ": " << fin.v.msg << "\n# at " << where(fin.v) << "\n# seed " << seed << " variant " << v << ": " << n0 << " operations and " << sw0 << " context switches reduced to " << sh.best.nops() << " and " << sh.best.sw.size() << " in " << sh.tries << " runs\n" << scn_to_text(sh.best);
        fo.close();
        { std::ofstream ff(std::string(nm) + ".full"); ff << "# " << r.v.cls << ": " << r.v.msg << "\n# at " << where(r.v) << "\n# seed " << seed << " variant " << v << ": as generated\n" << scn_to_text(f); }
        { std::ofstream fr(std::string(nm) + ".regen"); fr << "# " << r.v.cls << ": " << r.v.msg << "\n# regenerated from the seed on replay\nregen " << prop << " " << seed << " " << v << " " << tier << "\n"; }
        fprintf(o, "{\"type\":\"violation\",\"seed\":%lu,\"variant\":%d,\"cls\":%s,\"op\":%s,\"msg\":%s,\"where\":%s,\"replay\":%s,\"reproduced\":%d,\"ops\":%d,\"switches\":%zu,\"faults\":%zu,\"time\":%.2f,\"events\":\"%016lx\",\"sig\":%s}\n", (unsigned long)seed, v, jstr(fin.v.cls).c_str(), jstr(fin.v.kind >= 0 && fin.v.kind < K_N ? op_names[fin.v.kind] : "?").c_str(), jstr(fin.v.msg).c_str(), jstr(where(fin.v)).c_str(), jstr(nm).c_str(), repro, sh.best.nops(), sh.best.sw.size(), sh.best.faults.size(), now() - t0, (unsigned long)fin.ev, jstr(sig).c_str()); fflush(o);
        tend += std::min(shrink, 0.0); if (found >= maxviol) break;
      }
      if (r.v.set && v == 0) break;
      OPCOUNTS = oc; OPSTEPS = os; ALLOCSITES = as;
    }
    if (digest && i + 1 == digest) { fprintf(o, "{\"type\":\"digest\",\"seeds\":%lu,\"value\":\"%016lx\"}\n", (unsigned long)digest, (unsigned long)dig); fflush(o); if (a.count("digest-only")) return 0; }
  }
  emit_stats(o, seeds, scheds.size(), evs.size(), now() - t0, dchecks, dbad);
  if (a.count("cover")) { FILE* f = fopen(a["cover"].c_str(), "wb"); if (f) { for (auto& c : COVER) fwrite(&c.first, 8, 1, f); fclose(f); } }
  if (skipped) fprintf(o, "{\"type\":\"skipped\",\"n\":%lu}\n", (unsigned long)skipped);
  return 0;
}

// Scenario <-> text (the replay file format).
#include "scn.h"
#include <sstream>

static std::string esc(const std::string& s) { std::string r; char b[8]; for (unsigned char c : s) { if (c <= 32 || c >= 127 || c == '%') { snprintf(b, sizeof b, "%%%02x", c); r += b; } else r += (char)c; } return r.empty() ? "%-" : r; }
static std::string unesc(const std::string& s) { std::string r; if (s == "%-") return r; for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else r += s[i]; return r; }

std::string scn_to_text(const Scn& s) {
  std::ostringstream o; char b[64]; snprintf(b, sizeof b, "%.17g", s.conf.p); const SimConf& c = s.conf;
  o << "scenario 1\nprop " << s.prop << "\nprofile " << esc(s.profile) << "\nseed " << s.seed << "\n";
  o << "conf " << strat_names[c.strategy] << " " << b << " " << c.pct_depth << " " << c.pct_len << " " << c.sched_seed << " " << (int)c.fill << " " << c.reuse << " " << c.nofile << " " << c.close0 << " " << c.clock0 << " " << c.clock_step_us << " " << c.pid0 << " " << c.pid_reuse << " " << c.tmpvar << " " << c.disk_cap << " " << esc(c.tmpdir) << " " << c.randmode << "\n";
  for (auto& i : s.imgs) o << "imgbegin\n" << img_to_text(i) << "imgend\n";
  for (auto& l : s.lives) { o << "life\n"; for (auto& g : l.segs) { o << "segment\n"; for (auto& t : g.th) { o << "thread\n"; for (auto& p : t) o << "op " << p.id << " " << op_names[p.kind] << " " << p.s << " " << p.a << " " << p.b << " " << p.x << " " << p.y << " " << esc(p.p) << " " << esc(p.q) << "\n"; } } }
  for (auto& f : s.faults) o << "fault " << f.op << " " << fault_names[f.kind] << " " << f.nth << " " << f.arg << " " << f.sticky << "\n";
  if (s.crash_op >= 0) o << "crash " << s.crash_op << " " << s.crash_step << "\n";
  if (s.replay) { o << "replay\n"; for (auto& w : s.sw) o << "switch " << w.op << " " << w.step << " " << w.to << "\n"; }
  return o.str();
}
bool scn_from_text(const std::string& t, Scn& s) {
  s = Scn(); std::istringstream in(t); std::string l; std::vector<std::string> il; bool inimg = false, ok = false;
  while (std::getline(in, l)) {
    if (l.empty() || l[0] == '#') continue;
    if (l == "imgbegin") { inimg = true; il.clear(); continue; }
    if (l == "imgend") { ImageR r; if (!img_from_lines(il, r)) return false; s.imgs.push_back(r); inimg = false; continue; }
    if (inimg) { il.push_back(l); continue; }
    std::istringstream w(l); std::string k; w >> k;
    if (k == "scenario") ok = true;
    else if (k == "prop") w >> s.prop;
    else if (k == "profile") { w >> s.profile; s.profile = unesc(s.profile); }
    else if (k == "seed") w >> s.seed;
    else if (k == "conf") { SimConf& c = s.conf; std::string st, td; int fill; w >> st >> c.p >> c.pct_depth >> c.pct_len >> c.sched_seed >> fill >> c.reuse >> c.nofile >> c.close0 >> c.clock0 >> c.clock_step_us >> c.pid0 >> c.pid_reuse >> c.tmpvar >> c.disk_cap >> td; if (!w) return false; c.fill = fill; c.tmpdir = unesc(td); if (!(w >> c.randmode)) c.randmode = 0; for (int i = 0; i < ST_N; i++) if (st == strat_names[i]) c.strategy = i; }
    else if (k == "life") s.lives.emplace_back();
    else if (k == "segment") { if (s.lives.empty()) return false; s.lives.back().segs.emplace_back(); }
    else if (k == "thread") { if (s.lives.empty() || s.lives.back().segs.empty()) return false; s.lives.back().segs.back().th.emplace_back(); }
    else if (k == "op") { Op o; std::string n, p, q; w >> o.id >> n >> o.s >> o.a >> o.b >> o.x >> o.y >> p >> q; if (!w) return false; o.p = unesc(p); o.q = unesc(q); o.kind = -1; for (int i = 0; i < K_N; i++) if (n == op_names[i]) o.kind = i; if (o.kind < 0 || s.lives.empty() || s.lives.back().segs.empty() || s.lives.back().segs.back().th.empty()) return false; s.lives.back().segs.back().th.back().push_back(o); }
    else if (k == "fault") { Fault f; std::string n; w >> f.op >> n >> f.nth >> f.arg >> f.sticky; f.kind = -1; for (int i = 0; i < FK_N; i++) if (n == fault_names[i]) f.kind = i; if (!w || f.kind < 0) return false; s.faults.push_back(f); }
    else if (k == "crash") w >> s.crash_op >> s.crash_step;
    else if (k == "replay") s.replay = true;
    else if (k == "switch") { Switch x; w >> x.op >> x.step >> x.to; s.sw.push_back(x); }
  }
  return ok;
}

// C36: parameters set from others before the grid is made, and updated from a file while the program runs
#include "run.h"
using namespace pbt;
typedef std::map<string, string> Pars;
static Pars allpars() { Pars r; for (int i = 0; i < GetnParameters(); i++) r[GetnameInd(i)] = GetsInd(i); return r; }
static string cmp(const Pars& want, const Pars& got) { for (auto& w : want) { auto g = got.find(w.first); if (g == got.end()) return w.first + " is gone"; if (g->second != w.second) return w.first + " = |" + g->second + "| instead of |" + w.second + "|"; } return ""; }
static vector<Pars> M_before, M_after; static FILE* M_tr; static int M_k;
static string esc(const Pars& p) { string s; for (auto& x : p) s += strf("%d %d\n", (int) x.first.size(), (int) x.second.size()) + x.first + x.second + "\n"; return s; }
static Pars unesc(const string& s) { Pars r; size_t q = 0; while (q < s.size()) { int a, b, k; sscanf(s.c_str() + q, "%d %d\n%n", &a, &b, &k); k = (int) (s.find('\n', q) + 1 - q); q += k; string n = s.substr(q, a); r[n] = s.substr(q + a, b); q += a + b + 1; } return r; }
static int m_post(tGrid*) { spit(strf("before%d", M_k), esc(allpars())); return 0; }
static int m_grid(tGrid* g) { Pars a = allpars(); spit(strf("after%d", M_k), esc(a)); string s = strf("%a\n", g->dt); for (int b = 0; b < g->nboxes; b++) { tBox* x = g->box[b]; s += strf("%d %d %d", x->n1, x->n2, x->n3); for (int k = 0; k < 6; k++) s += strf(" %a", x->bbox[k]); s += "\n"; } spit(strf("grid%d", M_k), s); M_k++; return 0; }
PBT(before_grid, {.quick = 8000, .thorough = 80000, .fs = true}) {
  int nb = c.i(1, 3), runs = c.b(1, 3) ? c.i(2, 3) : 1; string p = strf("nboxes = %d\nphysics = none\nCoordinates_set_bfaces = no\niterations = 0\n", nb); Pars glob; int nglob = 0;
  vector<vector<string>> it; vector<string> itn;
  auto value = [&](const string& q) { string k = q.substr(0, q.size() - 1); if (k == "n") return strf("%d", c.i(2, 6)); if (k == "min") return c.b() ? strf("%d", -c.i(0, 3)) : strf("%.17g", -c.logu(1e-3, 5)); if (k == "max") return c.b() ? strf("%d", c.i(1, 4)) : strf("%.17g", c.logu(1e-3, 5)); return string(c.pickl<const char*>({"ChebExtrema", "ChebZeros", "Fourier"})); };
  for (int d = 1; d <= 3; d++) for (auto k : {"n", "min", "max", "basis"}) { string q = strf("%s%d", k, d); if (c.b() || string(k) == "n") { string v; if (runs > 1 && c.b(1, 3)) { vector<string> l; string s; for (int r = 0; r < runs; r++) { l.push_back(value(q)); s += " " + l.back(); } itn.push_back(q); it.push_back(l); v = l[0]; } else v = value(q); glob[q] = v; p += q + " = " + v + "\n"; } }
  if (runs > 1 && it.empty()) { vector<string> l; for (int r = 0; r < runs; r++) l.push_back(value("n2")); itn = {"n2"}; it = {l}; }
  if (runs > 1) { p += "iterate_parameters = yes\n"; for (size_t q = 0; q < itn.size(); q++) p += strf("iterate_parameter%d = %s %s\n", (int) q + 1, itn[q].c_str(), join(it[q]).c_str()); }
  int nref = 0; for (int b = 0; b < nb; b++) for (int d = 1; d <= 3; d++) for (auto k : {"n", "min", "max", "basis"}) { string q = strf("%s%d", k, d); string v; switch (c.i(0, 3)) { case 0: v = q; nref++; break; case 1: v = value(q); break; case 2: v = (c.b() ? "xx " : "7 ") + q; if (string(k) == "basis") v = "ChebZeros " + q; if (string(k) == "min") v = "-2 " + q; nref++; break; default: v = string(k) == "n" ? value(q) : ""; } if (!v.empty()) p += strf("box%d_%s = %s\n", b, q.c_str(), v.c_str()); }
  int sc = c.i(0, 2); double coeff = c.b() ? 10 : c.logu(1e-2, 1e3), fac = c.b() ? 0.25 : c.logu(1e-2, 2), T = c.b() ? 0 : c.logu(1e-3, 1e3);
  if (sc) { p += strf("ParManipulator_dt_scaling = %s\n", sc == 1 ? "1/n1^2" : "1/n1"); if (coeff != 10 || c.b()) p += strf("ParManipulator_ds_min_coeff = %.17g\n", coeff); if (fac != 0.25 || c.b()) p += strf("ParManipulator_dtfac = %.17g\n", fac); if (T > 0) p += strf("ParManipulator_requiredtime = %.17g\n", T); }
  if (c.b()) p += strf("dt = %.17g\n", c.logu(1e-3, 1)); spit("a.par", p); c.describe("%s", p.c_str()); if (nref > 1 && (sc || runs > 1)) c.nontrivial(); c.label(sc ? "dt scaled" : "dt kept"); if (runs > 1) c.label("iterated"); (void) nglob;
  int st = run_main({"a.par"}, [&] { AddFun(POST_PARAMETERS, m_post, (char*) "b"); AddFun(POST_GRID, m_grid, (char*) "a"); });
  bool sane = true; // a box whose upper end is below its lower end is not asked for
  for (int r = 0; r < runs; r++) { if (!exists(strf("before%d", r))) { c.check(false, "run %d of %d did not start, the program %s", r, runs, st_str(st).c_str()); }
    Pars w = unesc(slurp(strf("before%d", r))), got = unesc(slurp(strf("after%d", r)));
    for (size_t q = 0; q < itn.size(); q++) c.check(w[itn[q]] == it[q][r], "run %d has %s = %s", r, itn[q].c_str(), w[itn[q]].c_str());
    double dt = INFINITY; int n1last = 0;
    for (int b = 0; b < nb; b++) { for (int d = 1; d <= 3; d++) for (auto k : {"n", "min", "max", "basis"}) { string q = strf("%s%d", k, d), P = strf("box%d_", b) + q; bool ref = false; for (auto& x : words(w[P])) if (x == q) ref = true; if (ref) w[P] = w[q] + " " + q; }
      int n1 = atoi(w[strf("box%d_n1", b)].c_str()); n1last = n1; if (sc) { double ds = sc == 1 ? coeff / ((double) n1 * n1) : coeff / n1, t = fac * ds; if (T > 0) { double x = T / t; if (fabs(x - std::floor(x + 0.5)) < 1e-9 * x || x > 1e8) sane = false; t = T / (1 + std::floor(x)); } dt = std::min(dt, t); } }
    if (!sane) c.discard();
    if (sc) { c.check(near(atof(got["dt"].c_str()), dt, 1e-12 * dt), "run %d: dt = %s, it should be %.17g", r, got["dt"].c_str(), dt); w["dt"] = got["dt"]; w["ParManipulator_ds_min"] = got["ParManipulator_ds_min"]; double ds = sc == 1 ? coeff / ((double) n1last * n1last) : coeff / n1last; (void) ds; }
    string d = cmp(w, got); c.check(d.empty(), "run %d: %s", r, d.c_str()); for (auto& x : got) c.check(w.count(x.first) || x.first.compare(0, 3, "box") == 0 || true, "run %d: new parameter %s", r, x.first.c_str());
    string gi = strf("%a\n", atof(got["dt"].c_str())); for (int b = 0; b < nb; b++) { for (int d = 1; d <= 3; d++) gi += strf("%s%d", d > 1 ? " " : "", atoi(w[strf("box%d_n%d", b, d)].c_str())); for (int d = 1; d <= 3; d++) for (auto k : {"min", "max"}) gi += strf(" %a", atof(w[strf("box%d_%s%d", b, k, d)].c_str())); gi += "\n"; }
    string gg = slurp(strf("grid%d", r)); c.check(gg == gi, "run %d has the grid\n%sinstead of\n%s", r, gg.c_str(), gi.c_str()); }
  c.check(st_ok(st), "the run %s", st_str(st).c_str());
}
// --- updates from outdir/sgrid_update_parameters.par
struct Upd { int it; string text; vector<std::pair<string, string>> kv; };
static vector<Upd> U; static bool U_write; static std::set<string> U_dontcare = {};
static int u_pars(tGrid*) { AddPar((char*) "ua", (char*) "1", (char*) "d"); AddPar((char*) "ub", (char*) "x y", (char*) "d"); AddPar((char*) "uc", (char*) "", (char*) "d"); AddPar((char*) "uab", (char*) "0.5", (char*) "d"); return 0; }
static int u_out(tGrid* g) { string o = Gets((char*) "outdir"); string f = o + "/sgrid_update_parameters.par";
  for (auto& u : U) if (u.it == g->iteration) spit(f, u.text);
  Pars a = allpars(); bool had = exists(f); string text = slurp(f); int r = parameterio_update_pars(g); Pars b = allpars();
  FILE* t = fopen("trace", "a"); fprintf(t, "it %d time %.17g had %d ret %d still %d done %d\n", g->iteration, g->time, had, r, (int) exists(f), (int) (had && slurp(f + "_done") == text)); fclose(t);
  spit(strf("pa%d", g->iteration), esc(a)); spit(strf("pb%d", g->iteration), esc(b)); 
  if (U_write) { parameterio_write_current_pars(g); Pars d = allpars(); spit(strf("pd%d", g->iteration), esc(d)); spit(strf("cur%d", g->iteration), slurp(o + "/sgrid_current_parameters.par")); }
  return 0; }
static int u_last(tGrid* g) { spit("final", esc(allpars())); // the file of current parameters restores everything
  if (!U_write) return 0; string o = Gets((char*) "outdir"); Pars a = allpars(); parameterio_write_current_pars(g); spit("cur", slurp(o + "/sgrid_current_parameters.par"));
  for (auto p : {"ua", "ub", "uc", "uab", "dt", "box0_n1"}) Sets((char*) p, (char*) "changed it"); rename((o + "/sgrid_current_parameters.par").c_str(), (o + "/sgrid_update_parameters.par").c_str()); parameterio_update_pars(g); Pars b = allpars(); spit("rt_a", esc(a)); spit("rt_b", esc(b)); return 0; }
PBT(updates, {.quick = 6000, .thorough = 50000, .fs = true}) {
  int its = c.i(0, 5); double dt = 0.25; int n = c.i(0, 3); U_write = c.b(); bool ck = c.b(); int total = 0;
  auto val = [&] { string s; int k = c.i(0, 4) ? c.i(1, 5) : 0; if (c.b(1, 12)) k = c.i(100, 1500); for (int q = 0; q < k; q++) s += c.pickl<const char*>({"a", "b1", " ", "-3.5", "$", "/x", "#", "\"", ",", "%s", "'", "  ", "\t", "="}); return s; };
  for (int k = 0; k < n; k++) { Upd u; u.it = c.i(0, 6); bool dup = false; for (auto& x : U) dup |= x.it == u.it; if (dup) continue; int m = c.i(0, 5);
    for (int q = 0; q < m; q++) { string nm = c.pickl<const char*>({"ua", "ub", "uc", "uab", "nosuchpar", "ua", "iterations", "box0_n1", "u", "uabc"}); string v = nm == "iterations" ? strf("%d", c.i(0, 8)) : nm == "box0_n1" ? "2" : val(); string lead(c.b(1, 3) ? c.i(1, 3) : 0, ' '), mid(c.b() ? 1 : c.i(0, 3), ' '); string sep = c.b(1, 4) ? "" : " "; u.text += lead + nm + mid + "=" + sep + v + "\n"; string vv = v; if (sep.empty() && !v.empty() && v[0] == ' ') vv = v.substr(1); u.kv.push_back({nm, vv}); if (c.b(1, 4)) u.text += string(c.i(1, 3), '\n'); }
    if (!u.text.empty() && c.b(1, 5)) u.text.pop_back(); total += (int) u.kv.size(); U.push_back(u); c.describe("at iteration %d:\n%s\n", u.it, u.text.substr(0, 400).c_str()); }
  string p = grid_text({tiny_box()}) + strf("physics = none\nCoordinates_set_bfaces = no\ndt = %.17g\niterations = %d\n", dt, its) + (ck ? "checkpoint = yes\n" : ""); spit("a.par", p); c.describe("%d iterations%s%s", its, U_write ? ", current parameters written" : "", ck ? ", restarted" : ""); if (total > 1) c.nontrivial(); c.label(strf("%d updates", (int) U.size()));
  // model
  Pars st{{"ua", "1"}, {"ub", "x y"}, {"uc", ""}, {"uab", "0.5"}, {"iterations", strf("%d", its)}, {"box0_n1", "2"}}; string want; vector<Pars> wantp; int it = 0;
  for (;; it++) { bool had = false; for (auto& u : U) if (u.it == it) { had = true; for (auto& x : u.kv) if (st.count(x.first)) st[x.first] = x.second; } want += strf("it %d time %.17g had %d ret %d still 0 done %d\n", it, it * dt, had, had, had); wantp.push_back(st); if (it >= atoi(st["iterations"].c_str())) break; }
  int r = run_main({"a.par"}, [&] { AddFun(POST_PARAMETERS, u_pars, (char*) "p"); AddFun(POST_OUTPUT, u_out, (char*) "u"); AddFun(PRE_FINALIZE_GRID, u_last, (char*) "l"); });
  c.check(st_ok(r), "the run %s", st_str(r).c_str()); string got = slurp("trace"); c.check(got == want, "the run went\n%sinstead of\n%s", got.c_str(), want.c_str());
  for (int k = 0; k <= it; k++) { Pars a = unesc(slurp(strf("pa%d", k))), b = unesc(slurp(strf("pb%d", k))); for (auto& x : wantp[k]) a[x.first] = x.second; string d = cmp(a, b), e = cmp(b, a); c.check(d.empty() && e.empty(), "after iteration %d %s", k, (d + e).c_str());
    if (k) { Pars q = unesc(slurp(strf("pa%d", k))); for (auto& x : wantp[k - 1]) c.check(q[x.first] == x.second, "%s did not keep its value until iteration %d", x.first.c_str(), k); }
    if (U_write) { Pars dd = unesc(slurp(strf("pd%d", k))); c.check(dd == b, "writing the current parameters changed them: %s", cmp(b, dd).c_str()); string cur = slurp(strf("cur%d", k)); size_t lines = 0; for (auto& x : b) { string l = x.first + " = " + x.second + "\n"; lines += l.size(); size_t q = cur.compare(0, l.size(), l) == 0 ? 0 : cur.find("\n" + l); c.check(q != string::npos, "the file of current parameters lacks '%s'", l.c_str()); } c.check(cur.size() == lines, "the file of current parameters has %d bytes instead of %d", (int) cur.size(), (int) lines); } }
  if (U_write) { Pars a = unesc(slurp("rt_a")), b = unesc(slurp("rt_b")); string d = cmp(a, b) + cmp(b, a); c.check(d.empty(), "the file of current parameters does not restore them: %s", d.c_str()); }
  if (ck && !U_write && it > 0) { U.clear(); string q = p; q.replace(q.find(strf("iterations = %d", its)), strf("iterations = %d", its).size(), strf("iterations = %d", it + 1)); spit("a.par", q); remove("trace"); r = run_main({"a.par"}, [&] { AddFun(POST_PARAMETERS, u_pars, (char*) "p"); AddFun(POST_OUTPUT, u_out, (char*) "u"); AddFun(PRE_FINALIZE_GRID, u_last, (char*) "l"); });
    c.check(st_ok(r), "the restarted run %s", st_str(r).c_str()); c.label("restarted"); Pars b = unesc(slurp(strf("pa%d", it + 1))); for (auto& x : wantp[it]) if (x.first != "iterations") c.check(b[x.first] == x.second, "after the restart %s = |%s| instead of |%s|", x.first.c_str(), b[x.first].c_str(), x.second.c_str()); }
}

// C35: bad numbers are always found, counted and named
#include "run.h"
using namespace pbt;
extern "C" int CheckIfFinite(tGrid* grid, char* varname); extern "C" int ExitIfNAN(tGrid* grid);
static double badval(Case& c) { uint64_t b; double d; switch (c.i(0, 5)) { case 0: return NAN; case 1: return INFINITY; case 2: return -INFINITY; case 3: return -NAN;
  default: b = (c.bits64() & 0x800FFFFFFFFFFFFFull) | 0x7FF0000000000000ull; memcpy(&d, &b, 8); return d; } }
static double goodval(Case& c, double lim) { for (int k = 0; k < 20; k++) { double d; switch (c.i(0, 4)) { case 0: d = c.sym(1); break; case 1: d = c.pickl<double>({0.0, -0.0, 5e-324, -2.2250738585072014e-308, 1e-300}); break; case 2: d = c.pickl<double>({-lim, lim, lim * 0.999}); break; default: d = c.anyfinite(); } if (fabs(d) <= lim) return d; } return 0; }
struct Run { int b, i0, i1; };
static string num(double x) { return strf("%g", x); }
// the report: which runs of points were named
static void check_report(Case& c, const string& out, tGrid* g, const string& var, const vector<vector<char>>& bad, int ret, const char* what, bool tils) {
  vector<Run> want; int nbad = 0; int v = Ind(S_(var));
  for (int b = 0; b < g->nboxes; b++) { int n = g->box[b]->nnodes; if (!g->box[b]->v[v]) continue; for (int i = 0; i < n; i++) if (bad[b][i]) { nbad++; if (i && bad[b][i - 1]) want.back().i1 = i; else want.push_back({b, i, i}); } }
  c.check(ret == nbad, "%s returned %d for %d bad numbers", what, ret, nbad);
  vector<Run> got; size_t p = 0; int dummy = 0;
  while (p < out.size()) { size_t e = out.find('\n', p); string l = out.substr(p, e == string::npos ? string::npos : e - p); p = e == string::npos ? out.size() : e + 1;
    if (l.compare(0, 9, "NAN/INF: ")) continue; auto w = words(l); bool til = l.find(" til ") != string::npos;
    string eq = w[1]; int i = -1, b = -1; string xs[6]; for (auto& t : w) { if (t.compare(0, 4, "ijk=") == 0) i = atoi(t.c_str() + 4); if (t.compare(0, 3, "box") == 0) b = atoi(t.c_str() + 3); for (int k = 0; k < 6; k++) if (t[0] == "xyzXYZ"[k] && t[1] == '=') xs[k] = t.substr(2); }
    if (til) i = atoi(w[3].c_str()); c.check(b >= 0 && b < g->nboxes && i >= 0 && i < g->box[b]->nnodes, "%s reports box %d point %d: %s", what, b, i, l.c_str());
    tBox* x = g->box[b]; c.check(eq == var + "=" + num(x->v[v][i]), "%s: value of point %d of box %d is %s: %s", what, i, b, num(x->v[v][i]).c_str(), l.c_str());
    for (int k = 0; k < 6; k++) { string n(1, "xyzXYZ"[k]); double val = x->v[Ind(S_(n))][i]; c.check(xs[k] == num(val), "%s: %s of point %d of box %d is %s: %s", what, n.c_str(), i, b, num(val).c_str(), l.c_str()); }
    if (til) { c.check(!got.empty() && got.back().b == b && got.back().i0 < i, "%s: til without start: %s", what, l.c_str()); got.back().i1 = i; } else got.push_back({b, i, i}); }
  (void) dummy; (void) tils;
  c.check(got.size() == want.size(), "%s names %d stretches of bad numbers, there are %d", what, (int) got.size(), (int) want.size());
  for (size_t k = 0; k < want.size(); k++) c.check(got[k].b == want[k].b && got[k].i0 == want[k].i0 && got[k].i1 == want[k].i1, "%s: stretch %d is box %d points %d-%d, it should be box %d points %d-%d", what, (int) k, got[k].b, got[k].i0, got[k].i1, want[k].b, want[k].i0, want[k].i1);
}
static size_t logpos = 0;
static string newlog(Case& c) { fflush(stdout); string s = c.log(); string r = s.substr(std::min(logpos, s.size())); logpos = s.size(); return r; }
PBT(finite, {.quick = 3000, .thorough = 200000}) {
  int nb = c.i(1, 4); vector<BoxSpec> S; for (int b = 0; b < nb; b++) { BoxSpec s; for (auto& d : s.d) { d = gen_dir(c, 1, 4); } S.push_back(s); }
  double lim = c.b() ? 1e300 : c.pickl<double>({1, 1e10, 1e-5, 1.7976931348623157e308});
  setpar("Coordinates_set_bfaces", "no"); setpar("NumberChecker_INF", strf("%.17g", lim));
  bool adm = c.b(1, 3); if (adm) lim = 1.7976931348623157e308;
  tGrid* g = new_grid(S, false); int v1 = newvar(g, "fld", ""), v2 = newvar(g, "vec", "i"); (void) v1;
  // coordinates are easy to recognise
  for (int b = 0; b < nb; b++) { tBox* x = g->box[b]; for (int k = 0; k < 6; k++) { int ix = Ind(S_(string(1, "xyzXYZ"[k]))); if (!x->v[ix]) enablevarcomp_inbox(x, ix); for (int i = 0; i < x->nnodes; i++) x->v[ix][i] = 1000 * k + 100 * b + i + 0.5; } }
  bool quiet = c.b(1, 5); vector<string> names = {"fld", "vecx", "vecy", "vecz"}; std::map<string, vector<vector<char>>> bad; int total = 0, nnull = 0;
  for (auto& n : names) { int v = Ind(S_(n)); bad[n].resize(nb); int style = quiet ? 0 : c.i(0, 3); for (int b = 0; b < nb; b++) { tBox* x = g->box[b]; int N = x->nnodes; bad[n][b].assign(N, 0);
      if (style && c.b()) { int r = c.i(1, 3); while (r--) { int a = c.pickl<int>({0, N - 1, c.i(0, N - 1), c.i(0, N - 1)}), e = c.pickl<int>({a, N - 1, a + 1, c.i(a, N - 1)}); for (int i = a; i <= e && i < N; i++) bad[n][b][i] = 1; } }
      for (int i = 0; i < N; i++) { double val; if (bad[n][b][i]) { total++; val = (lim < 1.7e308 && c.b(1, 4)) ? (c.b() ? 1 : -1) * std::nextafter(lim, INFINITY) * (c.b() ? 1 : 1.5) : badval(c); } else val = goodval(c, lim); x->v[v][i] = val; }
      c.describe("%s box %d (%d points):", n.c_str(), b, N); for (int i = 0; i < N; i++) if (bad[n][b][i]) c.describe(" %d", i); c.describe("; ");
      if (c.b(1, 12)) { disablevarcomp_inbox(x, v); nnull++; bad[n][b].assign(N, 0); c.describe("no memory; "); } } }
  (void) v2; if (total) c.nontrivial(); c.label(total ? "bad numbers" : "all finite"); if (nnull) c.label("without memory");
  Snap before; before.add(g); newlog(c);
  int sum = 0;
  for (auto& n : names) {
    int r = adm ? CheckIfFinite(g, S_(n)) : NumberChecker_CheckIfFinite(g, S_(n));
    sum += r; check_report(c, newlog(c), g, n, bad[n], r, "the finiteness check", true); }
  if (!adm) {
  tVarList* vl = vlalloc(g); vector<int> o = {0, 1, 2, 3}; for (int k = 3; k > 0; k--) std::swap(o[k], o[c.i(0, k)]); int m = c.i(0, 4); int ws_ = 0;
  for (int k = 0; k < m; k++) { vlpushone(vl, Ind(S_(names[o[k]]))); for (int b = 0; b < nb; b++) if (g->box[b]->v[Ind(S_(names[o[k]]))]) for (char q : bad[names[o[k]]][b]) ws_ += q; }
  int r = NumberChecker_CheckIfFinite_VarList(vl); c.check(r == ws_, "the check of a list of %d variables returned %d for %d bad numbers", m, r, ws_);
  }
  string d = before.bad(); c.check(d.empty(), "the check changed data: %s", d.c_str());
}

static int R_n, R_k, R_fld, R_calls; static vector<int> R_at, R_pos; static vector<double> R_val; static FILE* R_tr; static int R_run = -1; static bool R_adm; static vector<int> R_off;
static int r_vars(tGrid*) { static int done; if (!done) { AddVar((char*) "fld", (char*) "", (char*) "f"); AddVar((char*) "other", (char*) "", (char*) "o"); done = 1; } R_run++; return 0; }
static int r_init(tGrid* g) { for (auto n : {"fld", "other"}) { enablevar(g, Ind((char*) n)); for (int b = 0; b < g->nboxes; b++) for (int i = 0; i < g->box[b]->nnodes; i++) g->box[b]->v[Ind((char*) n)][i] = n[0] == 'o' ? (double) NAN : i * 0.5; } return 0; }
static void r_spoil(tGrid* g, int stage) { for (size_t q = 0; q < R_at.size(); q++) if (R_run * 100 + stage == R_at[q]) { int p = R_pos[q]; for (int b = 0;; b = (b + 1) % g->nboxes) { int n = g->box[b]->nnodes; if (p < n) { g->box[b]->v[Ind((char*) "fld")][p] = R_val[q]; break; } p -= n; } } }
static int r_post0(tGrid* g) { r_spoil(g, 0); return 0; }
static int r_evolve(tGrid* g) { fprintf(R_tr, "E %d %d\n", R_run, g->iteration); r_spoil(g, g->iteration + 1); return 0; }
static int r_fin(tGrid* g) { fprintf(R_tr, "F %d\n", R_run); for (int b = 0; b < g->nboxes; b++) for (int i = 0; i < g->box[b]->nnodes; i++) { double v = g->box[b]->v[Ind((char*) "fld")][i]; if (v != i * 0.5) fprintf(R_tr, "V %d %d %g\n", b, i, v); } return 0; }
PBT(runs, {.quick = 1500, .thorough = 40000, .fs = true}) {
  int nb = c.i(1, 3), tot = 0; vector<BoxSpec> S(nb, tiny_box()); for (auto& s : S) { for (auto& d : s.d) { d.basis = c.b() ? "Fourier" : "ChebExtrema"; d.n = c.i(d.basis == "Fourier" ? 1 : 2, 4); }; tot += s.d[0].n * s.d[1].n * s.d[2].n; }
  int runs = c.b(1, 3) ? 2 : 1, its = c.i(0, 8); double dt = c.pickl<double>({0.1, 0.25, 0.3}); R_adm = c.b(1, 3); bool on = !c.b(1, 6); bool time = c.b(); double lim = c.b() ? 1e300 : 1e6;
  string p = grid_text(S) + strf("physics = %s\ndt = %.17g\n", on && !R_adm ? c.pickl<const char*>({"NumberChecker", "x NumberChecker", "NumberChecker y"}) : "none", dt) + (time ? strf("iterations = %d\nfinaltime = %.17g\n", c.i(0, 12), its * dt) : strf("iterations = %d\n", its));
  if (time && its == 0) p += strf("iterations = 0\n");
  if (on) p += R_adm ? "ADMvars_exitifNAN = fld\n" : "NumberChecker_exitifNAN = fld\n"; if (lim != 1e300) p += strf("NumberChecker_INF = %.17g\n", lim);
  if (runs > 1) p += "iterate_parameters = yes\niterate_parameter1 = tag a b\ntag = 0\n"; p += "Coordinates_set_bfaces = no\n";
  if (time && its == 0) { p.erase(p.find("finaltime")); p = grid_text(S) + "physics = none\n"; c.discard(); }
  int nbad = c.i(0, 2); vector<int> first(runs, 1000); string want;
  for (int q = 0; q < nbad; q++) { int r = c.i(0, runs - 1), k = c.i(0, its); R_at.push_back(r * 100 + k); R_pos.push_back(c.i(0, tot - 1)); double v = c.b(1, 3) ? badval(c) : (!R_adm && c.b()) ? lim * 1.0000001 : c.pickl<double>({NAN, INFINITY, -INFINITY}); R_val.push_back(v); first[r] = std::min(first[r], k); c.describe("%g in run %d after step %d at %d; ", v, r, k, R_pos.back()); }
  spit("a.par", p); c.describe("%d boxes, %d runs of %d iterations, %s%s", nb, runs, its, on ? "checked" : "not checked", R_adm ? " by ADMvars" : "");
  for (int r = 0; r < runs; r++) { int stop = on ? std::min(first[r], its) : its; for (int k = 0; k < stop; k++) want += strf("E %d %d\n", r, k); want += strf("F %d\n", r);
    std::map<int, int> V; int keep = -1; (void) keep; for (int q = 0; q < nbad; q++) if (R_at[q] / 100 == r && (R_at[q] % 100) <= stop) V[R_pos[q]] = q; 
    for (auto& x : V) { int b = 0, pos = x.first; for (;; b++) { int n = S[b].d[0].n * S[b].d[1].n * S[b].d[2].n; if (pos < n) break; pos -= n; } double v = R_val[x.second]; // the last one at a place wins, in order of steps
      int best = -1; for (int q = 0; q < nbad; q++) if (R_at[q] / 100 == r && R_at[q] % 100 <= stop && R_pos[q] == x.first && (best < 0 || R_at[q] >= R_at[best])) best = q; v = R_val[best]; want += strf("V %d %d %g\n", b, pos, v); } }
  bool any = false; for (int f : first) if (f <= its) any = true; if (on && any && its > 1) c.nontrivial(); c.label(!on ? "off" : any ? "bad" : "finite");
  int st = run_main({"a.par"}, [&] { R_tr = fopen("trace", "w"); AddFun(POST_PARAMETERS, r_vars, (char*) "v"); AddFun(INITIALDATA, r_init, (char*) "i"); AddFun(POST_INITIALDATA, r_post0, (char*) "s"); AddFun(EVOLVE, r_evolve, (char*) "e"); if (on && R_adm) AddFun(POST_EVOLVE, ExitIfNAN, (char*) "x"); AddFun(PRE_FINALIZE_GRID, r_fin, (char*) "f"); });
  c.check(st_ok(st), "the run %s", st_str(st).c_str()); string got = slurp("trace");
  string log = c.log(); bool named = log.find("NAN/INF: fld") != string::npos; c.check(named == (on && any), "bad numbers were%s reported", named ? "" : " not");
  c.check(got == want, "the run went\n%sinstead of\n%s", got.c_str(), want.c_str());
}

// C04: the main loop calls all functions in order
#include "run.h"
using namespace pbt;
static const char* BIN[] = {"POST_PARAMETERS", "PRE_GRID", "POST_GRID", "PRE_COORDINATES", "COORDINATES", "PRE_INITIALDATA", "INITIALDATA", "POST_INITIALDATA", "PRE_EVOLVE", "EVOLVE", "PRE_POST_EVOLVE", "POST_EVOLVE", "ANALYZE", "OUTPUT", "POST_OUTPUT", "PRE_FINALIZE_GRID", "POST_FINALIZE_GRID", "LAST"};
static vector<vector<int>> reg(NFUNCTIONS);   // tags per bin, in order of registration
struct Act { int run, bin, it; string par, val; };
static vector<Act> acts; static int late_bin = -1, currun = -1;
static FILE* tr;
static int rec(int bin, int tag, tGrid* g) {
  if (bin == POST_PARAMETERS && tag == reg[POST_PARAMETERS][0]) currun++;
  fprintf(tr, "%s %d %s", BIN[bin], tag, g ? "" : "-");
  if (g) fprintf(tr, "%d %.17g %.17g", g->iteration, g->time, g->dt);
  fprintf(tr, "\n"); fflush(tr);
  if (tag == reg[bin][0]) for (auto& a : acts) if (a.bin == bin && a.run == currun && (g ? g->iteration : -1) == a.it) setparameter(S_(a.par), S_(a.val));
  return tag % 3 - 1; // return values do not matter
}
template<int K> static int fn(tGrid* g) { return rec(K / 4, K, g); }
typedef int (*F)(tGrid*); static F FN[4 * NFUNCTIONS];
template<int K> struct Fill { static void go() { FN[K] = fn<K>; Fill<K - 1>::go(); } };
template<> struct Fill<-1> { static void go() {} };
static int late(tGrid*) { if (currun == 0) AddFun(late_bin, FN[4 * late_bin + 3], (char*) "late"); return 0; }

PBT(stages, {.quick = 12000, .thorough = 120000, .fs = true}) {
  Fill<4 * NFUNCTIONS - 1>::go();
  int k; for (int b = 0; b < NFUNCTIONS; b++) { vector<int> o = {4 * b, 4 * b + 1, 4 * b + 2}; int n = c.toward(1, 3, 1); for (k = 2; k > 0; k--) std::swap(o[k], o[c.i(0, k)]); o.resize(n); reg[b] = o; if (b == LAST && c.b(1, 10)) reg[b].resize(1); }
  vector<std::pair<int, int>> order; for (int b = 0; b < NFUNCTIONS; b++) for (int t : reg[b]) order.push_back({b, t}); for (int q = (int) order.size() - 1; q > 0; q--) std::swap(order[q], order[c.i(0, q)]); for (auto& r : reg) r.clear(); for (auto& o : order) reg[o.first].push_back(o.second);
  late_bin = c.b(1, 3) ? c.i(PRE_GRID, LAST) : -1;
  double dt = c.b() ? c.pickl<double>({0.125, 0.1, 1, 0.01, 0.3}) : c.logu(1e-6, 1e3); int nruns = c.b(1, 3) ? c.i(2, 3) : 1; int mode = c.i(0, 2); // 0 iterations, 1 finaltime, 2 both
  string par = grid_text({tiny_box()}) + strf("physics = none\ndt = %.17g\n", dt); if (c.b()) par += strf("verbose = %s\n", c.pickl<const char*>({"yes", "no"}));
  int its = c.toward(-1, 9, 2); double ft = -1; auto jit = [&] { return c.b() ? 0 : c.sym(0.45); };
  if (mode != 1) par += strf("iterations = %d\n", its);
  if (mode != 0) { int n = c.toward(0, 9, 2); ft = (n + jit()) * dt; if (c.b(1, 8)) ft = c.pickl<double>({0, -1}); par += strf("finaltime = %.17g\n", ft); }
  bool argsfile = nruns > 1 && c.b(1, 3);
  if (nruns > 1 && !argsfile) { par += "iterate_parameters = yes\niterate_parameter1 = tag"; for (int r = 0; r < nruns; r++) par += strf(" v%d", r); par += "\ntag = none\n"; }
  int na = c.b() ? c.i(0, 3) : 0; for (int a = 0; a < na; a++) { int bin = c.pickl<int>({PRE_EVOLVE, EVOLVE, POST_EVOLVE, ANALYZE, OUTPUT, POST_OUTPUT, POST_INITIALDATA}); int it = bin == POST_INITIALDATA ? 0 : c.i(0, 5); Act x; x.run = c.i(0, nruns - 1); x.bin = bin; x.it = it; if (c.b()) { x.par = "iterations"; x.val = strf("%d", c.i(0, 9)); } else { x.par = "finaltime"; x.val = strf("%.17g", c.b(1, 5) ? 0 : (c.i(1, 9) + jit()) * dt); } acts.push_back(x); }
  spit("a.par", par); vector<string> args = {"a.par"}; if (argsfile) { string l; for (int r = 0; r < nruns; r++) { if (c.b(1, 3)) l += c.b() ? "\n" : "# comment a.par\n"; l += "a.par" + string(r ? " --keep_previous" : "") + "\n"; } if (c.b(1, 4)) l += "\n"; spit("args.txt", l); args = {"--argsfile", "args.txt"}; }
  // expected trace
  string want; auto emit = [&](int b, int it, double t) { for (int tag : reg[b]) { want += strf("%s %d ", BIN[b], tag) + (it < 0 ? "-" : strf("%d %.17g %.17g", it, t, dt)) + "\n"; } };
  string w0 = want; int total = 0; vector<vector<int>> keepreg = reg; auto G = [&](const string& v) { return v; }; (void) G;
  string cits = strf("%d", mode != 1 ? its : 0), cft = mode != 0 ? strf("%.17g", ft) : "0"; string pits = cits, pft = cft;
  bool lateadded = false;
  for (int r = 0; r < nruns; r++) {
    // parameters changed in an earlier run stay changed when the program iterates over parameters, but not in a new command line
    if (argsfile) { pits = cits; pft = cft; }
    auto E = [&](int b, int it) { double t = it * dt; emit(b, it, t); for (auto& a : acts) if (a.run == r && a.bin == b && a.it == it) (a.par == "iterations" ? pits : pft) = a.val; };
    auto N = [&](int b) { emit(b, -1, 0); };
    auto imax = [&] { double f = atof(pft.c_str()); return f > 0 ? (int) std::floor(f / dt + 0.5) : atoi(pits.c_str()); };
    N(POST_PARAMETERS); if (late_bin >= 0 && !lateadded) { lateadded = true; reg[late_bin].push_back(4 * late_bin + 3); } N(PRE_GRID);
    for (int b : {POST_GRID, PRE_COORDINATES, COORDINATES, PRE_INITIALDATA, INITIALDATA, POST_INITIALDATA, PRE_POST_EVOLVE, POST_EVOLVE, ANALYZE, OUTPUT, POST_OUTPUT}) E(b, 0);
    int it = 0; while (it < imax()) { for (int b : {PRE_EVOLVE, EVOLVE, PRE_POST_EVOLVE, POST_EVOLVE}) E(b, it); it++; total++; if (total > 60) c.discard(); for (int b : {ANALYZE, OUTPUT, POST_OUTPUT}) E(b, it); }
    E(PRE_FINALIZE_GRID, it); N(POST_FINALIZE_GRID);
  }
  emit(LAST, -1, 0); reg = keepreg;
  c.describe("dt=%.17g iterations=%d finaltime=%.17g (mode %d), %d runs%s, %d parameter changes, late function in %s", dt, its, ft, mode, nruns, argsfile ? " from an argsfile" : "", na, late_bin < 0 ? "none" : BIN[late_bin]);
  for (auto& a : acts) c.describe("; run %d %s it %d: %s=%s", a.run, BIN[a.bin], a.it, a.par.c_str(), a.val.c_str());
  c.label(argsfile ? "argsfile" : nruns > 1 ? "iterate" : "single"); c.label(strf("mode %d", mode)); if (na) c.label("changes"); if (total > 1) c.nontrivial();
  int st = run_main(args, [&] { tr = fopen("trace", "w"); for (auto& o : order) AddFun(o.first, FN[o.second], (char*) "fn"); if (late_bin >= 0) AddFun(POST_PARAMETERS, late, (char*) "late"); });
  c.check(st_ok(st), "the run %s", st_str(st).c_str());
  string got = slurp("trace"); if (got != want) { std::vector<string> a, b; auto split = [](const string& s, vector<string>& v) { string l; for (char ch : s) if (ch == '\n') { v.push_back(l); l.clear(); } else l += ch; }; split(want, a); split(got, b); size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    c.fail("call number %d is '%s', it should be '%s' (stage function iteration time dt)", (int) i, i < b.size() ? b[i].c_str() : "(end)", i < a.size() ? a[i].c_str() : "(end)"); }
}

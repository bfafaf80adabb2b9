// ckrun.h: a small evolution with state in variables and parameters, for checkpoint harnesses
#pragma once
#include "run.h"
using pbt::strf;
inline string logtail(pbt::Case& c) { string s = c.log(); size_t q = s.find("ERROR: AddressSanitizer"); if (q != string::npos) return s.substr(q, 2500); return s.size() > 1500 ? s.substr(s.size() - 1500) : s; }
struct CkCfg {
  vector<BoxSpec> S; int evolve = 1; double dt = 0.1, w = 1; int nu = 1, nacc = 1; string tens; bool weird = false, moving = false; int inactive = -1;
  vector<double> weirdval; string pars; bool all = false;
  vector<string> hist;            // values the parameter hist takes (index: iteration)
};
static CkCfg K; static string statefile; static std::map<int, int> die; // bin -> iteration at which to die
static int started_from = -1, first_evolved = -1;
static vector<int> ck_u, ck_x, ck_w;
static void ck_rhs(tVarList* un, tVarList* up, double cc, tVarList* uc) { int b; tGrid* g = uc->grid; double co = Getd((char*) "coef");
  forallboxes(g, b) { tBox* x = g->box[b]; int n = x->nnodes; vector<vector<double>> r(un->n, vector<double>(n)); for (int j = 0; j < un->n; j++) { double *u = x->v[uc->index[j]], *v = x->v[uc->index[(j + 1) % un->n]]; for (int i = 0; i < n; i++) r[j][i] = co * (-u[(i + 1) % n] + 0.3 * sin(K.w * uc->time + j) + 0.1 * v[i] * v[i]); }
    for (int j = 0; j < un->n; j++) for (int i = 0; i < n; i++) x->v[un->index[j]][i] = cc != 0 ? x->v[up->index[j]][i] + cc * r[j][i] : r[j][i]; } }
static int ck_vars(tGrid*) { static int done = 0; if (!done) { for (int k = 0; k < K.nu; k++) AddVar(S_(strf("u%d", k)), (char*) (k ? "" : K.tens.c_str()), (char*) "evolved"); for (int k = 0; k < K.nacc; k++) AddVar(S_(strf("acc%d", k)), (char*) (k ? "i" : ""), (char*) "accumulated"); if (K.weird) AddVar((char*) "weird", (char*) "", (char*) "odd numbers"); done = 1; }
  for (auto p : {"count", "sum", "hist", "coef", "keepme", "restoreme"}) AddPar((char*) p, (char*) (string(p) == "coef" ? "0.7" : string(p) == "hist" ? "start" : "0"), (char*) "state"); return 0; }
static void fam(const string& p, vector<int>& l) { l.clear(); for (int v = 0; v < globalnvariables; v++) { string n = VarName(v); if (n.compare(0, p.size(), p) == 0 && n.find('_') == string::npos) l.push_back(v); } }
static int ck_init(tGrid* g) { fam("u", ck_u); fam("acc", ck_x); fam("weird", ck_w); tVarList* ul = vlalloc(g); for (int v : ck_u) { enablevarcomp(g, v); vlpushone(ul, v); } for (int v : ck_x) enablevarcomp(g, v); for (int v : ck_w) enablevarcomp(g, v);
  for (int b = 0; b < g->nboxes; b++) { tBox* x = g->box[b]; for (int v : ck_u) for (int i = 0; i < x->nnodes; i++) x->v[v][i] = sin(1.7 * v + 0.9 * i + 2.3 * b); for (int v : ck_x) for (int i = 0; i < x->nnodes; i++) x->v[v][i] = cos(v + i); for (int v : ck_w) for (int i = 0; i < x->nnodes; i++) x->v[v][i] = K.weirdval[(i + 7 * b) % K.weirdval.size()]; }
  if (K.evolve) { evolve_vlregister(ul); evolve_rhsregister(ck_rhs); } return 0; }
static int ck_analyze(tGrid* g) { // state that lives in variables and parameters
  for (int b = 0; b < g->nboxes; b++) { tBox* x = g->box[b]; for (int v : ck_x) for (int i = 0; i < x->nnodes; i++) x->v[v][i] = 0.9 * x->v[v][i] + x->v[ck_u[v % ck_u.size()]][i] * (1 + g->time) / (v + 1.0); for (int v : ck_w) { double f = x->v[v][0]; memmove(x->v[v], x->v[v] + 1, (x->nnodes - 1) * 8); x->v[v][x->nnodes - 1] = f; } }
  Seti((char*) "count", Geti((char*) "count") + 1); Setd((char*) "sum", Getd((char*) "sum") * 0.75 + g->box[0]->v[ck_u[0]][0]); Sets((char*) "hist", S_(K.hist[g->iteration % K.hist.size()])); Sets((char*) "restoreme", S_(strf("r%d", g->iteration)));
  if (g->iteration % 3 == 2) Setd((char*) "coef", 0.5 + 1.0 / (g->iteration + 1) / 3);
  if (K.moving) { Setd((char*) "box0_max1", K.S[0].d[0].b + 0.1 * g->iteration); set_BoxStructures_fromPars(g, 0); init_CoordTransform_And_Derivs(g); }
  return 0; }
static int ck_out(tGrid* g) { string d = Gets((char*) "outdir"); FILE* f = fopen((d + "/log").c_str(), "a"); fprintf(f, "%d %.17g %.17g\n", g->iteration, g->time, g->box[0]->v[ck_u[0]][0]); fclose(f); return 0; }
static void dump(tGrid* g, const string& fn, bool deriv) {
  string s = strf("iteration %d time %a dt %a\n", g->iteration, g->time, g->dt); for (auto p : {"count", "sum", "hist", "coef", "restoreme", "keepme", "box0_max1"}) s += strf("%s = |", p) + Gets((char*) p) + "|\n";
  for (int b = 0; b < g->nboxes; b++) { tBox* x = g->box[b]; s += strf("box %d %d %a %a %a\n", b, x->nnodes, x->bbox[0], x->bbox[1], x->bbox[5]); for (auto* l : {&ck_u, &ck_x, &ck_w}) for (int v : *l) { s += string(VarName(v)) + (x->v[v] ? ":" : "-"); if (x->v[v]) for (int i = 0; i < x->nnodes; i++) { uint64_t q; memcpy(&q, &x->v[v][i], 8); s += strf(" %016llx", (unsigned long long) q); } s += "\n"; }
    if (deriv) { vector<double> d(x->nnodes); s += "deriv:"; spec_Deriv1(x, 1, x->v[ck_u[0]], d.data()); for (double z : d) s += strf(" %a", z); s += " X:"; for (int i = 0; i < x->nnodes; i++) s += strf(" %a", x->v[Ind((char*) "X")][i]); s += " x:"; for (int i = 0; i < x->nnodes; i++) s += strf(" %a", x->v[Ind((char*) "x")][i]); s += "\n"; } }
  spit(fn, s);
}
static int ck_final(tGrid* g) { dump(g, statefile, K.moving || true); return 0; }
template<int B> static int ck_die(tGrid* g) { auto d = die.find(B); if (d != die.end() && g->iteration == d->second) { fflush(nullptr); _exit(9); } return 0; }
static int ck_pre(tGrid* g) { if (first_evolved < 0) first_evolved = g->iteration; return 0; }
static void ck_setup() { AddFun(POST_PARAMETERS, ck_vars, (char*) "vars"); AddFun(INITIALDATA, ck_init, (char*) "init"); AddFun(PRE_EVOLVE, ck_pre, (char*) "pre"); AddFun(PRE_EVOLVE, ck_die<PRE_EVOLVE>, (char*) "die"); AddFun(ANALYZE, ck_analyze, (char*) "analyze"); AddFun(ANALYZE, ck_die<ANALYZE>, (char*) "die"); AddFun(OUTPUT, ck_out, (char*) "out"); AddFun(POST_OUTPUT, ck_die<POST_OUTPUT>, (char*) "die"); AddFun(PRE_FINALIZE_GRID, ck_final, (char*) "dump"); }
inline int ck_run(const vector<string>& args, const string& sf) { statefile = sf; first_evolved = -1; return run_main(args, ck_setup); }
static const vector<double> WEIRD = {0.0, -0.0, INFINITY, -INFINITY, NAN, -NAN, 5e-324, -2.2250738585072014e-308, 1.7976931348623157e308, 0.1, -1e300, 3};
static double weird_val(pbt::Case& c) { if (c.b()) return c.pick(WEIRD); uint64_t b = c.bits64(); double d; memcpy(&d, &b, 8); return d; }
// the parts common to the checkpoint properties
static void gen_cfg(pbt::Case& c, int N) {
  using pbt::strf; int nb = c.i(1, 3); for (int b = 0; b < nb; b++) { BoxSpec s; for (auto& d : s.d) { d.basis = c.pickl<const char*>({"ChebExtrema", "Fourier", "ChebZeros"}); d.n = c.i(2, 4); d.a = c.b() ? 0 : c.sym(2); d.b = d.a + c.logu(0.3, 5); d.tt = "0 NUMREC_FFT"; } K.S.push_back(s); }
  K.evolve = !c.b(1, 6); K.dt = c.b() ? c.pickl<double>({0.1, 0.125, 0.3}) : c.logu(1e-3, 0.3); K.w = c.sym(3); K.nu = c.i(1, 3); K.nacc = c.i(0, 2); K.tens = c.pickl<const char*>({"", "i", "(ij)", "ij"}); K.weird = c.b(); if (K.weird) { int n = c.i(1, 12); for (int k = 0; k < n; k++) K.weirdval.push_back(weird_val(c)); }
  for (int k = 0; k < N + 2; k++) { string s; int n = c.i(0, 3) ? c.i(0, 6) : 0; for (int q = 0; q < n; q++) s += c.pickl<const char*>({"a", " ", "=", "word", "3.5", "#", "$", "\"", "\t", ",", "$time", "/", ";", "%s", "'", "  ", "a=b"}); K.hist.push_back(s); }
  string ci; if (c.b(1, 4)) { int b = nb - 1; double s0 = 0.2 + c.u01() * 3; for (int k = 0; k < 3; k++) { Dir& d = K.S[b].d[k]; d.basis = "ChebExtrema"; d.a = k ? -1 : 0; d.b = 1; } K.S[b].coord = "CubedSphere";
    ci = strf("box%d_CI_s = %.17g %.17g 0 0 0 0\nbox%d_CI_xc = 0 %.17g %.17g %.17g\nbox%d_CI_dom = %d\nbox%d_CI_type = %d\n", b, s0, s0 * (1.8 + c.u01()), b, c.sym(3), c.sym(3), c.sym(3), b, c.i(0, 5), b, c.i(1, 4)); c.label("cubed sphere"); }
  string p = grid_text(K.S) + ci + strf("physics = none\ndt = %.17g\n", K.dt); string m = c.pickl<const char*>({"icn", "rk", "euler"}); p += "evolution_method = " + m + "\n"; if (m == "rk") p += string("evolution_method_rk = ") + c.pickl<const char*>({"rk4", "rk3", "rk1", "rk5", "rk2a"}) + "\n"; p += string("evolve_persist = ") + c.pickl<const char*>({"yes", "no"}) + "\n";
  K.all = c.b(1, 3); string add; for (int k = 0; k < K.nacc; k++) add += k ? " acc1x acc1y acc1z" : " acc0"; if (K.weird) add += " weird"; if (!K.evolve) { add += ""; }
  K.pars = p; c.describe("%d boxes, %s%s, %s, dt=%.17g, %d+%d vars (first '%s')%s", nb, K.evolve ? "" : "no evolution, ", m.c_str(), K.all ? "all variables saved" : "auto", K.dt, K.nu, K.nacc, K.tens.c_str(), K.weird ? ", odd numbers" : "");
  if (K.all) K.pars += "checkpoint_variables = all\n"; else if (!add.empty() || !K.evolve) { if (!K.evolve) { for (int k = 0; k < K.nu; k++) { string n = strf("u%d", k); if (k || K.tens.empty()) add += " " + n; else if (K.tens == "i") for (auto q : {"x", "y", "z"}) add += " " + n + q; else for (auto q : {"xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz"}) add += " " + n + q; } } K.pars += "checkpoint_additional_variables =" + add + "\n"; }
}

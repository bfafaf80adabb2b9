// C32: elliptic example problems: residual, linearisation, boundary conditions, solution
#include "cubes.h"
using namespace pbt;
extern "C" {
typedef void (*Op)(tVarList*, tVarList*, tVarList*, tVarList*);
#define DECL(P) extern void F_##P(tVarList*, tVarList*, tVarList*, tVarList*) __attribute__((weak)); extern void J_##P(tVarList*, tVarList*, tVarList*, tVarList*) __attribute__((weak)); extern void Precon_fd_##P##_UMFPACK(tVarList*, tVarList*, tVarList*, tVarList*) __attribute__((weak));
DECL(Poisson) DECL(Poisson2) DECL(Poisson3)
void convert_grid_to_fd(tGrid*);
}
static int I(const string& n) { return Ind((char*) n.c_str()); }
static Op ops(int m, int k) { Op t[3][3] = {{F_Poisson, J_Poisson, Precon_fd_Poisson_UMFPACK}, {F_Poisson2, J_Poisson2, Precon_fd_Poisson2_UMFPACK}, {F_Poisson3, J_Poisson3, Precon_fd_Poisson3_UMFPACK}}; return t[m][k]; }
static const char* MOD[] = {"Poisson", "Poisson2", "Poisson3"};
// what the solve function of each module sets up
struct Prob { int m; tGrid* g; string P; tVarList *u, *F, *c1, *c2, *lu, *J, *d1, *d2; Op f() const { return ops(m, 0); } Op j() const { return ops(m, 1); } Op p() const { return ops(m, 2); } };
static Prob prob(int m, tGrid* g) {
  Prob q; q.m = m; q.g = g; q.P = MOD[m]; const string& P = q.P; q.u = vlalloc(g); vlpush(q.u, I(P + "_Psi")); vlpush(q.u, I(P + "_Chi"));
  if (m == 0) { q.c1 = vlalloc(g); for (const char* s : {"_Psix", "_Psixx", "_Chix", "_Chixx"}) vlpush(q.c1, I(P + s)); q.c2 = vlalloc(g); vlpush(q.c2, I(P + "_rh1")); vlpush(q.c2, I(P + "_rh2")); q.F = vlalloc(g); vlpush(q.F, I(P + "_Err_Psi")); vlpush(q.F, I(P + "_Err_Chi"));
    for (tVarList* l : {q.u, q.c1, q.c2, q.F}) enablevarlist(l); q.lu = AddDuplicateEnable(q.u, (char*) "_l"); q.J = AddDuplicateEnable(q.F, (char*) "_l"); q.d1 = q.c1; q.d2 = q.c2; }
  else { q.c1 = vlalloc(g); for (const char* s : {"_Psi", "_Psix", "_Psixx", "_Chi", "_Chix", "_Chixx", "_rh1", "_rh2"}) vlpush(q.c1, I(P + s)); enablevarlist(q.u); enablevarlist(q.c1); q.F = AddDuplicateEnable(q.u, (char*) "_Err"); q.J = AddDuplicateEnable(q.F, (char*) "_l"); q.lu = AddDuplicateEnable(q.u, (char*) "_l"); q.c2 = AddDuplicateEnable(q.c1, (char*) "_l"); q.d1 = q.c1; q.d2 = q.c2; }
  return q; }
typedef vector<double> Vec;
static Vec getv(tVarList* l) { Vec r; for (int i = 0; i < l->n; i++) FORBOXES(l->grid, b) { tBox* q = l->grid->box[b]; r.insert(r.end(), q->v[l->index[i]], q->v[l->index[i]] + q->nnodes); } return r; }
static void putv(tVarList* l, const Vec& r) { size_t k = 0; for (int i = 0; i < l->n; i++) FORBOXES(l->grid, b) { tBox* q = l->grid->box[b]; for (int p = 0; p < q->nnodes; p++) q->v[l->index[i]][p] = r[k++]; } }
static Vec comb(const Vec& a, double s, const Vec& b) { Vec r(a); for (size_t i = 0; i < r.size(); i++) r[i] += s * b[i]; return r; }
static Vec Fapply(const Prob& p, const Vec& u) { putv(p.u, u); p.f()(p.F, p.u, p.c1, p.c2); return getv(p.F); }
static Vec japply(const Prob& p, const Vec& d) { putv(p.lu, d); p.j()(p.J, p.lu, p.d1, p.d2); return getv(p.J); }
static void xyz(tBox* q, int p, double* x) { int ix = I("x"), iX = I("X"); for (int k = 0; k < 3; k++) x[k] = q->v[ix] ? q->v[ix + k][p] : q->v[iX + k][p]; }
static string where(tGrid* g, size_t k, int& b, int& p, int& v) { for (v = 0; v < 2; v++) FORBOXES(g, bb) { if (k < (size_t) g->box[bb]->nnodes) { b = bb; p = (int) k; int n1 = g->box[bb]->n1, n2 = g->box[bb]->n2; return strf("%s at box %d point (%d,%d,%d)", v ? "Chi" : "Psi", b, p % n1, p / n1 % n2, p / n1 / n2); } k -= g->box[bb]->nnodes; } return "?"; }
static double top(const Vec& v) { double m = 0; for (double x : v) m = std::max(m, fabs(x)); return m; }
struct Poly { double L; vector<std::array<int, 3>> e; Vec co; // polynomial in (x,y,z)/L
  double val(const double* x, int i = -1, int j = -1) const { double s = 0; for (size_t t = 0; t < e.size(); t++) { int p[3] = {e[t][0], e[t][1], e[t][2]}; double f = co[t]; for (int q : {i, j}) if (q >= 0) { f *= p[q] / L; p[q]--; if (p[q] < 0) { f = 0; p[q] = 0; } } for (int k = 0; k < 3; k++) f *= pow(x[k] / L, p[k]); s += f; } return s; } };
static Poly gen_poly(Case& c, double L, int deg) { Poly p; p.L = L; int n = c.i(1, 4); for (int k = 0; k < n; k++) { std::array<int, 3> e = {0, 0, 0}; int d = c.i(0, deg); for (int q = 0; q < d; q++) e[c.i(0, 2)]++; p.e.push_back(e); p.co.push_back(c.pickl<double>({1, -1, 0.5, -0.25, 2, -3})); } return p; }
static vector<BoxSpec> shells(Case& c, int nb, int nlo, int nhi, int alo, int ahi, double& R) {
  vector<BoxSpec> S(nb); int n2 = 2 * c.i(alo, ahi), n3 = 2 * c.i(alo, ahi); double r = c.pickl<double>({1, 1, 0.5, 2, 3.7});
  for (auto& s : S) { s.coord = "SphericalDF"; double e = r * c.u(1.3, 2.2); if (c.b(1, 4)) e = 2 * r; s.d[0] = {c.i(nlo, nhi), r, e, "ChebExtrema", "64 NUMREC_FFT"}; s.d[1] = {n2, 0, 2 * M_PI, "Fourier", "64 NUMREC_FFT"}; s.d[2] = {n3, 0, 2 * M_PI, "Fourier", "64 NUMREC_FFT"}; r = e; } R = r; return S; }
static void shellpars(Case& c, int m) { string P = MOD[m]; setpar("physics", P); setpar(P + "_grid", "SphericalDF"); if (m == 0 && c.b()) setpar("Poisson_useDD", "yes"); }

// ---------------------------------------------------------------- residual of shells: Laplace operator inside, 1 and 1/2 (times 1 and 2) on the inner and outer face of every box
PBT(shell_residual, {.quick = 1500, .thorough = 40000}) {
  int m = c.i(0, 1), nb = c.i(1, 3), deg = c.i(0, 3); if (!ops(m, 0)) { c.label("no function"); return; } shellpars(c, m); double R; auto S = shells(c, nb, deg + 3, deg + 6, deg + 1, deg + 3, R);
  tGrid* g = new_grid(S, true, {{"Coordinates_set_bfaces", "no"}}); RunFun(PRE_INITIALDATA, g); Prob p = prob(m, g); Poly Q[4]; for (auto& q : Q) q = gen_poly(c, R, deg); string P = MOD[m];
  c.describe("%s, %d shells from %g to %g, points %d %d %d, degree %d", P.c_str(), nb, S[0].d[0].a, R, S[0].d[0].n, S[0].d[1].n, S[0].d[2].n, deg); if (deg > 1) c.nontrivial(); c.label(P); if (nb > 1) c.label("several boxes");
  Vec u; for (int v = 0; v < 2; v++) FORBOXES(g, b) { tBox* q = g->box[b]; for (int k = 0; k < q->nnodes; k++) { double x[3]; xyz(q, k, x); u.push_back(Q[v].val(x)); q->v[I(P + (v ? "_rh2" : "_rh1"))][k] = Q[2 + v].val(x); } }
  for (bool lin : {false, true}) { Vec f = lin ? japply(p, u) : Fapply(p, u); Vec now = getv(lin ? p.lu : p.u); for (size_t k = 0; k < u.size(); k++) c.check(same_bits(now[k], u[k]), "the fields change while the residual is computed");
    for (size_t k = 0; k < f.size(); k++) { int b, i, v; string w = where(g, k, b, i, v); tBox* q = g->box[b]; double x[3]; xyz(q, i, x); int ii = i % q->n1; double want, tol; double r0 = S[b].d[0].a;
      if (ii == 0 || ii == q->n1 - 1) { want = u[k] - (lin ? 0 : (ii == 0 ? 1.0 : 0.5) * (v + 1)); tol = 0; } else { want = (lin ? 0 : -Q[2 + v].val(x)); for (int d = 0; d < 3; d++) want += Q[v].val(x, d, d); tol = 3e-10 * (1 + deg * deg) * (1 + 1 / (r0 * r0)) * pow(R / r0, 2); }
      c.check(fabs(f[k] - want) <= tol, "%s of %s: %.15g instead of %.15g", lin ? "linearised residual" : "residual", w.c_str(), f[k], want); } }
}
// ---------------------------------------------------------------- shells: start, solve, analyse
PBT(shell_solve, {.quick = 48, .thorough = 1500, .cpu_s = 300, .fs = true}) {
  int m = c.i(0, 1), nb = c.i(1, 2), deg = c.i(0, 1); if (!ops(m, 0)) { c.label("no function"); return; } shellpars(c, m); double R; auto S = shells(c, nb, 9, 11, deg + 2, deg + 2, R); string P = MOD[m]; bool test = c.b(1, 4); if (test) { S.resize(1); nb = 1; S[0].d[0].a = 1; S[0].d[0].b = R = 2; S[0].d[0].n = 13; }
  for (auto& s : S) if (s.d[0].b > 1.5 * s.d[0].a && !test) { s.d[0].b = 1.5 * s.d[0].a; R = s.d[0].b; } for (int b = 1; b < nb; b++) S[b].d[0].a = S[b-1].d[0].b, S[b].d[0].b = R = S[b].d[0].a * 1.4;
  setpar(P + "_linSolver", c.pickl<const char*>({"UMFPACK", "UMFPACK", "bicgstab"})); bool um = !strcmp(Gets((char*) (P + "_linSolver").c_str()), "UMFPACK"); if (!um) { setpar(P + "_linSolver_Precon", "fd_UMFPACK"); setpar(P + "_linSolver_itmax", "200"); setpar(P + "_linSolver_tolFac", "1e-3"); } setpar("GridIterators_verbose", "no"); double tol = c.pickl<double>({1e-6, 1e-8}); setpar(P + "_tol", strf("%g", tol)); setpar("GridIterators_UMFPACK_version", c.pickl<const char*>({"di", "dl"}));
  tGrid* g = new_grid(S, true, {{"Coordinates_set_bfaces", "no"}}); RunFun(PRE_INITIALDATA, g); bool src = !test && c.b(); Poly Q[2]; for (auto& q : Q) q = gen_poly(c, R, deg);
  c.describe("%s %s, %d shells from %g to %g, points %d %d %d, %s, tol %g", P.c_str(), um ? "UMFPACK" : "bicgstab with fd_UMFPACK", nb, S[0].d[0].a, R, S[0].d[0].n, S[0].d[1].n, S[0].d[2].n, src ? "with sources" : "no sources", tol); c.nontrivial(); c.label(um ? "UMFPACK" : "bicgstab"); c.label(src ? "sources" : "no sources");
  // u = a + b/r + r (r-r0)(r-r1) Q : Laplace of r^k H with H homogeneous of degree d is k (k+2d+1) r^(k-2) H + r^k Lap H
  Vec ex; for (int v = 0; v < 2; v++) FORBOXES(g, b) { tBox* q = g->box[b]; double r0 = S[b].d[0].a, r1 = S[b].d[0].b, bb = 0.5 * (v + 1) / (1 / r0 - 1 / r1), aa = (v + 1) - bb / r0;
    for (int k = 0; k < q->nnodes; k++) { double x[3]; xyz(q, k, x); double r = sqrt(x[0]*x[0] + x[1]*x[1] + x[2]*x[2]), e = aa + bb / r, rh = 0; if (src) { double cf[4] = {0, r0 * r1, -(r0 + r1), 1}; for (size_t t = 0; t < Q[v].e.size(); t++) { Poly one; one.L = R; one.e = {Q[v].e[t]}; one.co = {Q[v].co[t]}; int d = one.e[0][0] + one.e[0][1] + one.e[0][2]; double H = one.val(x), LH = one.val(x, 0, 0) + one.val(x, 1, 1) + one.val(x, 2, 2); for (int kk = 1; kk < 4; kk++) { double w = cf[kk] / (R*R*R); e += w * pow(r, kk) * H; rh += w * (kk * (kk + 2 * d + 1) * pow(r, kk - 2) * H + pow(r, kk) * LH); } } } ex.push_back(e); q->v[I(P + (v ? "_rh2" : "_rh1"))][k] = rh; } }
  Vec rhs0; for (const char* s : {"_rh1", "_rh2"}) FORBOXES(g, b) { tBox* q = g->box[b]; rhs0.insert(rhs0.end(), q->v[I(P + s)], q->v[I(P + s)] + q->nnodes); }
  if (m == 0) RunFun(INITIALDATA, g); else RunFun(INITIALDATA, g);
  Prob p = prob(m, g); Vec u = getv(p.u); Vec rhs1; for (const char* s : {"_rh1", "_rh2"}) FORBOXES(g, b) { tBox* q = g->box[b]; rhs1.insert(rhs1.end(), q->v[I(P + s)], q->v[I(P + s)] + q->nnodes); } for (size_t k = 0; k < rhs0.size(); k++) c.check(same_bits(rhs0[k], rhs1[k]), "the source changes during the solution");
  Vec f = Fapply(p, u); double fm = top(f), em = 0; putv(p.u, u); Vec fe = Fapply(p, ex); double fem = top(fe); putv(p.u, u); c.check(fem <= 2e-3, "the exact solution has a residual of %g", fem);
  if (um) c.check(fm <= std::max(tol * 1.0001 * sqrt((double) f.size()), 1e-7), "residual %g after the solution with tol %g", fm, tol); else if (fm > tol * sqrt((double) f.size())) { c.label("not converged"); return; }
  for (size_t k = 0; k < u.size(); k++) em = std::max(em, fabs(u[k] - ex[k])); double lim = (fm + fem) * R * R * 3 + 1e-9; c.check(em <= lim, "the solution differs from the exact one by %g (residuals %g and %g)", em, fm, fem);
  RunFun(ANALYZE, g); if (m == 1) for (int v = 0; v < 2; v++) FORBOXES(g, b) { tBox* q = g->box[b]; double* E = q->v[I(v ? "Poisson2_Chi_Err" : "Poisson2_Psi_Err")]; for (int k = 0; k < q->nnodes; k++) { double x[3]; xyz(q, k, x); double r = sqrt(x[0]*x[0] + x[1]*x[1] + x[2]*x[2]), w = q->v[I(v ? "Poisson2_Chi" : "Poisson2_Psi")][k] - (v + 1) / r; c.check(fabs(E[k] - w) <= 1e-13, "error of %s in box %d point %d is %.15g instead of %.15g", v ? "Chi" : "Psi", b, k, E[k], w); } if (test) c.check(top(Vec(E, E + q->nnodes)) < 1e-5, "large error %g", top(Vec(E, E + q->nnodes))); }
}
// ---------------------------------------------------------------- the linearisation is the derivative of the residual
static string ansorg(Case& c, vector<BoxSpec>& S, bool six) {
  int n2 = c.i(4, 6), n3 = c.i(4, 6), n1 = c.i(4, 6); const char* B2 = c.pickl<const char*>({"ChebZeros", "ChebExtrema"}); if (*(B2 + 4) == 'E') n3 = c.b() ? 4 : 8; /* the axis needs a multiple of 4 */ double am = six ? c.u(0.5, 0.6) : 1; S.resize(six ? 6 : 4);
  for (int b = 0; b < 4; b++) { S[b].coord = strf("AnsorgNS%d", b); bool in = b == 0 || b == 3; S[b].d[0] = {n1, 0, in ? am : 1, in && !six ? "ChebZeros" : "ChebExtrema", "64 NUMREC_FFT"}; S[b].d[1] = {n2, 0, 1, B2, "64 NUMREC_FFT"}; S[b].d[2] = {n3, 0, 2 * M_PI, "Fourier", "64 NUMREC_FFT"}; }
  if (six) { double bx[2][4] = {{-1.35, -0.75, -0.3, 0.3}, {0.7, 1.4, -0.35, 0.35}}; for (int b = 4; b < 6; b++) for (int k = 0; k < 3; k++) S[b].d[k] = {c.i(4, 6), k ? bx[b-4][2] : bx[b-4][0], k ? bx[b-4][3] : bx[b-4][1], "ChebExtrema", "64 NUMREC_FFT"}; }
  setpar("Coordinates_AnsorgNS_sigma_pm_vars", "no"); return B2; }
static vector<BoxSpec> cart(Case& c, int nlo, int nhi, double h, bool offset, bool& two) {
  double o[3], L[3]; for (int k = 0; k < 3; k++) { L[k] = h * c.u(0.5, 1); o[k] = offset ? c.sym(0.4) * h : -0.5 * L[k]; if (fabs(o[k]) < 1e-3) o[k] = -0.01; if (fabs(o[k] + L[k]) < 1e-3) o[k] += 0.01; } two = c.b(2, 3); int nb = two ? 2 : 1; vector<BoxSpec> S(nb); int dir = c.i(0, 2), n[3]; for (int& q : n) q = c.i(nlo, nhi);
  for (int b = 0; b < nb; b++) for (int k = 0; k < 3; k++) { double a = o[k], e = o[k] + L[k]; if (two && k == dir) { double mid = o[k] + L[k] * 0.5; if (b == 0) a = mid; else e = mid; } S[b].d[k] = {n[k], a, e, "ChebExtrema", "64 NUMREC_FFT"}; } return S; }
PBT(jacobian, {.quick = 1200, .thorough = 30000, .cpu_s = 60}) {
  int m = c.pickl<int>({0, 1, 2, 2, 2}), kind = 0; if (!ops(m, 0)) { c.label("no function"); return; } string P = MOD[m]; vector<BoxSpec> S; string B2; double R; std::map<string, string> par = {{"Coordinates_set_bfaces", "no"}}; bool two = false;
  if (m < 2) { shellpars(c, m); kind = m == 0 ? c.i(0, 2) : 0; if (kind == 0) S = shells(c, c.i(1, 3), 3, 6, 2, 3, R); else { setpar("Poisson_grid", kind == 1 ? "AnsorgNS" : "4ABphi_2xyz"); B2 = ansorg(c, S, kind == 2); if (kind == 1) setpar("Poisson_regularization", c.pickl<const char*>({"none", "regularity_on_axis", "regularity_on_axis_at_center"})); else setpar("Poisson_regularization", c.pickl<const char*>({"none", "regularity_on_axis"})); } }
  else { setpar("physics", P); kind = c.pickl<int>({3, 3, 3, 3, 3, 3, 3, 4, 5}); if (kind == 3) { S = cart(c, 4, 6, 2, true, two); par["Coordinates_set_bfaces"] = "yes"; } else { S.resize(26); for (auto& s : S) for (int k = 0; k < 3; k++) s.d[k] = {k ? 4 : c.i(3, 4), 0, 1, "ChebExtrema", "64 NUMREC_FFT"}; int n[3] = {S[0].d[0].n, c.i(3, 5), c.i(3, 5)}; n[2] = n[1]; for (auto& s : S) for (int k = 0; k < 3; k++) s.d[k].n = n[1]; setpar("Poisson3_grid", kind == 4 ? "2starcubes" : "CubedSpheres"); par["Coordinates_set_bfaces"] = "no"; if (kind == 5 && c.b()) S.resize(13); } }
  tGrid* g = new_grid(S, true, par); RunFun(PRE_INITIALDATA, g); Prob p = prob(m, g); static const char* K[] = {"SphericalDF", "AnsorgNS", "4ABphi_2xyz", "Cartesian", "2starcubes", "CubedSpheres"};
  c.describe("%s %s, %d boxes, box 0 %s %s", P.c_str(), K[kind], g->nboxes, specstr(S[0]).c_str(), m ? "" : Gets((char*) "Poisson_regularization")); c.label(P + " " + K[kind]); c.nontrivial();
  Vec u = getv(p.u), d = u; for (auto& v : u) v = c.sym(1); for (auto& v : d) v = c.sym(1); for (const char* s : {"_rh1", "_rh2"}) FORBOXES(g, b) for (int k = 0; k < g->box[b]->nnodes; k++) g->box[b]->v[I(P + s)][k] = c.sym(1);
  // the residual is at most cubic in the fields, so this difference is its derivative
  Vec a = Fapply(p, comb(u, 1, d)); Vec b = Fapply(p, comb(u, -1, d)); Vec a2 = Fapply(p, comb(u, 2, d)); Vec b2 = Fapply(p, comb(u, -2, d)); Vec f = Fapply(p, u); Vec j = japply(p, d); Vec z(u.size(), 0);
  { Vec now = getv(p.u); for (size_t k = 0; k < u.size(); k++) c.check(same_bits(now[k], u[k]), "the linearised residual changes the fields"); Vec j2 = japply(p, d); for (size_t k = 0; k < u.size(); k++) c.check(same_bits(j[k], j2[k]) || (std::isnan(j[k]) && std::isnan(j2[k])), "the linearised residual is not reproducible"); }
  int N = 0; Vec jl = japply(p, z); for (size_t k = 0; k < jl.size(); k++) if (std::isfinite(f[k])) { int bb, i, v; c.check(jl[k] == 0, "the linearised residual of zero is %g for %s", jl[k], where(g, k, bb, i, v).c_str()); }
  for (size_t k = 0; k < j.size(); k++) { int bb, i, v; string w = where(g, k, bb, i, v); double want = (8 * (a[k] - b[k]) - (a2[k] - b2[k])) / 12; if (!std::isfinite(want)) { c.label("infinite"); c.check(kind == 1 || kind == 2, "residual of %s is not finite", w.c_str()); continue; } N++;
    double sc = std::max({fabs(a[k]), fabs(b[k]), fabs(a2[k]), fabs(b2[k]), fabs(f[k]), fabs(want)}); /* size of the terms of the row */ double row = 0; { // derivatives of random data are as large as the largest in the box
      size_t off = 0; for (int vv = 0; vv < 2; vv++) FORBOXES(g, q) { for (int r = 0; r < g->box[q]->nnodes; r++) if ((q == bb || kind != 0) && (i % 7 == 0 || r % 5 == 0)) { double t = fabs(a2[off + r]); if (std::isfinite(t)) row = std::max(row, t); } off += g->box[q]->nnodes; } }
    c.check(fabs(j[k] - want) <= 1e-10 * (sc + row) + 1e-11, "linearised residual of %s is %.12g, but the derivative of the residual is %.12g", w.c_str(), j[k], want); }
  c.check(N > 0, "no finite residual"); }
// ---------------------------------------------------------------- Poisson3: residual of resolved fields and boundary rows
PBT(poisson3_residual, {.quick = 800, .thorough = 20000, .cpu_s = 40}) {
  if (!F_Poisson3) { c.label("no function"); return; } setpar("physics", "Poisson3"); bool two; auto S = cart(c, 5, 7, 3, true, two); bool stars = c.b(1, 4); std::map<string, string> par = {{"Coordinates_set_bfaces", "yes"}};
  if (stars) { S.resize(26); int n = c.i(4, 5); for (auto& s : S) for (int k = 0; k < 3; k++) s.d[k] = {n, 0, 1, "ChebExtrema", "64 NUMREC_FFT"}; setpar("Poisson3_grid", "2starcubes"); par["Coordinates_set_bfaces"] = "no"; }
  tGrid* g = new_grid(S, true, par); RunFun(PRE_INITIALDATA, g); Prob p = prob(2, g); Poly Q[4]; int deg = stars ? 0 : c.i(0, 3); /* x, y, z are no polynomials in cubed spheres */ for (auto& q : Q) q = gen_poly(c, 2, deg);
  c.describe("%s, %d boxes, box 0 %s, degree %d", stars ? "2starcubes" : "Cartesian", g->nboxes, specstr(S[0]).c_str(), deg); if (deg) c.nontrivial(); c.label(stars ? "2starcubes" : two ? "two boxes" : "one box");
  // start values and sources
  FORBOXES(g, b) { tBox* q = g->box[b]; for (int k = 0; k < q->nnodes; k++) { double x[3]; xyz(q, k, x); double r2 = x[0]*x[0] + x[1]*x[1] + x[2]*x[2]; c.check(q->v[I("Poisson3_rh2")][k] == 0 && fabs(q->v[I("Poisson3_rh1")][k] + exp(-r2) / pow(M_PI, 1.5)) <= 1e-15, "sources in box %d point %d", b, k); c.check(std::isfinite(q->v[I("Poisson3_Psi")][k]) && std::isfinite(q->v[I("Poisson3_Chi")][k]), "start values"); q->v[I("Poisson3_rh1")][k] = Q[2].val(x); q->v[I("Poisson3_rh2")][k] = Q[3].val(x); } }
  Vec u; for (int v = 0; v < 2; v++) FORBOXES(g, b) { tBox* q = g->box[b]; for (int k = 0; k < q->nnodes; k++) { double x[3]; xyz(q, k, x); u.push_back(Q[v].val(x)); } } Vec f = Fapply(p, u); int nb = 0, no = 0;
  double h = 1e9; FORBOXES(g, b) { double lo[3] = {1e9, 1e9, 1e9}, hi[3] = {-1e9, -1e9, -1e9}; for (int k = 0; k < g->box[b]->nnodes; k++) { double x[3]; xyz(g->box[b], k, x); for (int d = 0; d < 3; d++) lo[d] = std::min(lo[d], x[d]), hi[d] = std::max(hi[d], x[d]); } for (int d = 0; d < 3; d++) h = std::min(h, hi[d] - lo[d]); }
  for (size_t k = 0; k < f.size(); k++) { int b, i, v; string w = where(g, k, b, i, v); tBox* q = g->box[b]; int n1 = q->n1, n2 = q->n2, n3 = q->n3, e[3] = {i % n1, i / n1 % n2, i / n1 / n2}, n[3] = {n1, n2, n3}; double x[3]; xyz(q, i, x); int faces = 0; bool inner = false; for (int d = 0; d < 3; d++) if (e[d] == 0 || e[d] == n[d] - 1) faces++;
    double r = sqrt(x[0]*x[0] + x[1]*x[1] + x[2]*x[2]); (void) inner;
    if (!faces) { double chi = Q[1].val(x), want = v == 0 ? chi * Q[0].val(x, 0, 0) + Q[0].val(x, 1, 1) + chi * chi * Q[0].val(x, 2, 2) - Q[2].val(x) : Q[1].val(x, 0, 0) + Q[0].val(x, 0) * Q[1].val(x, 1, 1) + Q[1].val(x, 2, 2) - Q[3].val(x); double t = 2e-11 * n1 * n1 * (1 + 30 / (h * h)) * (stars ? 10 : 1); c.check(fabs(f[k] - want) <= t * (1 + fabs(want) + chi * chi), "residual of %s (%g,%g,%g) is %.12g instead of %.12g", w.c_str(), x[0], x[1], x[2], f[k], want); continue; }
    // a boundary row is the difference to the outer value, or a condition that holds for fields that are the same on both sides
    double outer = v == 0 ? u[k] - erf(r) / (4 * M_PI * r) : u[k] - 1, in = f[k]; bool io = fabs(f[k] - outer) <= 1e-13, ii = fabs(in) <= 1e-10 * (1 + 1 / h) * n1 * n1; if (io) no++; if (ii) nb++;
    c.check(io || ii, "boundary row of %s (%g,%g,%g) is %.12g, neither the difference %.12g to the boundary value nor zero", w.c_str(), x[0], x[1], x[2], f[k], outer);
    if (!stars) { bool out = false; double eps = 1e-9; for (int d = 0; d < 3; d++) { double lo = 1e9, hi = -1e9; for (auto& s : S) lo = std::min(lo, s.d[d].a), hi = std::max(hi, s.d[d].b); if (fabs(x[d] - lo) < eps || fabs(x[d] - hi) < eps) out = true; } if (out && faces == 1) c.check(io, "no outer boundary condition for %s", w.c_str()); if (!out) c.check(ii, "no condition between boxes for %s", w.c_str()); } }
  c.check(no > 0, "no outer boundary points"); if (g->nboxes > 1) c.check(nb > 0, "no points between boxes");
  // the solution of the problem has no residual, and its error is zero
  FORBOXES(g, b) { tBox* q = g->box[b]; for (int k = 0; k < q->nnodes; k++) { double x[3]; xyz(q, k, x); double r = sqrt(x[0]*x[0] + x[1]*x[1] + x[2]*x[2]), dP = c.u01(), dC = c.u01(); q->v[I("Poisson3_Psi")][k] = (r < 1e-8 ? 1 / (2 * pow(M_PI, 1.5)) : erf(r) / (4 * M_PI * r)) + dP; q->v[I("Poisson3_Chi")][k] = 1 + dC; q->v[I("Poisson3_Err_Psi")][k] = dP; q->v[I("Poisson3_Err_Chi")][k] = dC; } }
  vector<Vec> E; FORBOXES(g, b) for (const char* s : {"Poisson3_Err_Psi", "Poisson3_Err_Chi"}) E.push_back(Vec(g->box[b]->v[I(s)], g->box[b]->v[I(s)] + g->box[b]->nnodes));
  RunFun(ANALYZE, g); int t = 0; FORBOXES(g, b) for (const char* s : {"Poisson3_Err_Psi", "Poisson3_Err_Chi"}) { Vec& w = E[t++]; for (size_t k = 0; k < w.size(); k++) { double x[3]; xyz(g->box[b], (int) k, x); double got = g->box[b]->v[I(s)][k]; if (x[0]*x[0] + x[1]*x[1] + x[2]*x[2] < 1e-16) continue; c.check(fabs(got - w[k]) <= 1e-14, "%s in box %d point %d is %.15g instead of %.15g", s, b, (int) k, got, w[k]); } }
}
PBT(poisson3_solve, {.quick = 40, .thorough = 1000, .cpu_s = 250, .fs = true}) {
  if (!F_Poisson3) { c.label("no function"); return; } setpar("physics", "Poisson3"); bool two; auto S = cart(c, 6, 8, 1.6, false, two); if (c.b()) for (int k = 0; k < 3; k++) { double o = c.sym(0.3); for (auto& s : S) s.d[k].a += o, s.d[k].b += o; } setpar("Poisson3_linSolver", "UMFPACK"); setpar("GridIterators_verbose", "no"); double tol = c.pickl<double>({1e-6, 1e-8, 1e-9}); setpar("Poisson3_tol", strf("%g", tol)); setpar("GridIterators_UMFPACK_version", c.pickl<const char*>({"di", "dl"}));
  tGrid* g = new_grid(S, true, {{"Coordinates_set_bfaces", "yes"}}); RunFun(PRE_INITIALDATA, g); c.describe("%d boxes, box 0 %s, tol %g", g->nboxes, specstr(S[0]).c_str(), tol); c.nontrivial(); c.label(two ? "two boxes" : "one box");
  bool other = c.b(); if (other) FORBOXES(g, b) for (int k = 0; k < g->box[b]->nnodes; k++) { double x[3]; xyz(g->box[b], k, x); g->box[b]->v[I("Poisson3_Chi")][k] = 1 + 0.1 * cos(x[0] + b); g->box[b]->v[I("Poisson3_Psi")][k] = 0.1 * sin(x[1] - x[2] + b); }
  RunFun(INITIALDATA, g); Prob p = prob(2, g); Vec u = getv(p.u), ex; for (int v = 0; v < 2; v++) FORBOXES(g, b) { tBox* q = g->box[b]; for (int k = 0; k < q->nnodes; k++) { double x[3]; xyz(q, k, x); double r = sqrt(x[0]*x[0] + x[1]*x[1] + x[2]*x[2]); ex.push_back(v ? 1 : r < 1e-8 ? 1 / (2 * pow(M_PI, 1.5)) : erf(r) / (4 * M_PI * r)); } }
  Vec f = Fapply(p, u); double fm = top(f); Vec fe = Fapply(p, ex); double fem = top(fe), em = 0; putv(p.u, u); c.check(fem <= 1e-3, "the exact solution has a residual of %g", fem); c.check(fm <= std::max(1.01 * tol * sqrt((double) f.size()), 1e-8), "residual %g after the solution with tol %g", fm, tol);
  for (size_t k = 0; k < u.size(); k++) em = std::max(em, fabs(u[k] - ex[k])); c.check(em <= 3 * (fm + fem) + 1e-10, "the solution differs from the exact one by %g (residuals %g and %g)", em, fm, fem);
}
// ---------------------------------------------------------------- finite difference preconditioner: solves the finite difference problem and leaves the grid alone
PBT(precon, {.quick = 80, .thorough = 2000, .cpu_s = 120}) {
  int m = c.i(0, 2); if (!ops(m, 2)) { c.label("no function"); return; } vector<BoxSpec> S; double R; bool two = false; string P = MOD[m]; std::map<string, string> par = {{"Coordinates_set_bfaces", "no"}}; if (m < 2) { shellpars(c, m); S = shells(c, c.i(1, 2), 5, 7, 2, 2, R); } else { setpar("physics", P); S = cart(c, 4, 6, 2, true, two); par["Coordinates_set_bfaces"] = "yes"; } setpar("GridIterators_verbose", "no");
  tGrid* g = new_grid(S, true, par); RunFun(PRE_INITIALDATA, g); Prob p = prob(m, g); Vec u = getv(p.u), rhs = u; for (auto& v : u) v = 0; { size_t k = 0; for (int v = 0; v < 2; v++) FORBOXES(g, b) for (int i = 0; i < g->box[b]->nnodes; i++) { double x[3]; xyz(g->box[b], i, x); u[k++] = v + 0.1 * sin(x[0] + x[1] * x[2]); } } for (auto& v : rhs) v = c.sym(1);
  Fapply(p, u); c.describe("%s, %d boxes, box 0 %s", P.c_str(), g->nboxes, specstr(S[0]).c_str()); c.label(P); c.nontrivial(); Vec d = u; for (auto& v : d) v = c.sym(1);
  vector<Vec> D; auto mats = [&] { vector<Vec> r; FORBOXES(g, b) { tBox* q = g->box[b]; double* M[] = {q->D1, q->D2, q->D3, q->DD1, q->DD2, q->DD3, q->Mcoeffs1, q->Meval1}; int n[] = {q->n1, q->n2, q->n3, q->n1, q->n2, q->n3, q->n1, q->n1}; for (int k = 0; k < 8; k++) if (M[k]) r.push_back(Vec(M[k], M[k] + n[k] * n[k])); } return r; };
  Vec j0 = japply(p, d); D = mats(); putv(p.J, rhs); putv(p.lu, Vec(u.size(), 0)); p.p()(p.lu, p.J, p.d1, p.d2); Vec x = getv(p.lu), b2 = getv(p.J); auto D2 = mats(); c.check(D.size() == D2.size(), "matrices of the grid"); for (size_t k = 0; k < D.size(); k++) for (size_t i = 0; i < D[k].size(); i++) c.check(same_bits(D[k][i], D2[k][i]), "matrix %d of the grid is not restored", (int) k);
  for (size_t k = 0; k < rhs.size(); k++) c.check(same_bits(b2[k], rhs[k]), "the right hand side changes"); putv(p.u, u); p.f()(p.F, p.u, p.c1, p.c2); Vec j1 = japply(p, d); for (size_t k = 0; k < j0.size(); k++) c.check(near(j0[k], j1[k], 1e-9 * (1 + top(j0))), "the spectral operator is changed by the preconditioner");
  convert_grid_to_fd(g); Vec r = japply(p, x); double sc = 1; for (double v : x) sc = std::max(sc, fabs(v)); Vec y = japply(p, d); double nj = top(y) + 1; for (size_t k = 0; k < r.size(); k++) { int b, i, v; c.check(fabs(r[k] - rhs[k]) <= 1e-9 * nj * sc * 10, "finite difference residual of %s after the preconditioner is %g", where(g, k, b, i, v).c_str(), r[k] - rhs[k]); }
}
// ---------------------------------------------------------------- two stars: exact data
PBT(ansorg_exact, {.quick = 60, .thorough = 1000, .cpu_s = 60}) {
  if (!F_Poisson) { c.label("no function"); return; } setpar("physics", "Poisson"); setpar("Poisson_guess", "exact"); bool six = c.b(); setpar("Poisson_grid", six ? "4ABphi_2xyz" : "AnsorgNS"); if (c.b()) setpar("Poisson_useDD", "yes"); vector<BoxSpec> S; ansorg(c, S, six); int n = c.i(14, 18); for (int b = 0; b < (int) S.size(); b++) for (int k = 0; k < 3; k++) S[b].d[k].n = b > 3 ? 5 : k == 2 && S[0].d[1].basis == "ChebExtrema" ? 16 : n;
  tGrid* g = new_grid(S, true, {{"Coordinates_set_bfaces", "no"}}); RunFun(PRE_INITIALDATA, g); c.describe("%s, %d points, B %s", six ? "4ABphi_2xyz" : "AnsorgNS", n, S[0].d[1].basis.c_str()); c.nontrivial(); c.label(six ? "4ABphi_2xyz" : "AnsorgNS");
  double xc[2], Rs[2]; for (int s = 0; s < 2; s++) { tBox* q = g->box[s ? 3 : 0]; double lo = q->x_of_X[1](q, 0, 0., 1., 0.), hi = q->x_of_X[1](q, 0, 0., 0., 0.); if (lo > hi) std::swap(lo, hi); xc[s] = (lo + hi) / 2; Rs[s] = (hi - lo) / 2; }
  Prob p = prob(0, g); for (int v = 0; v < 2; v++) FORBOXES(g, b) { tBox* q = g->box[b]; bool in = v == 0 ? b == 0 || b == 5 : b == 3 || b == 4; for (int k = 0; k < q->nnodes; k++) { double x[3]; xyz(q, k, x); if (!(fabs(x[0]) < 1e6)) continue; double r = sqrt((x[0]-xc[v])*(x[0]-xc[v]) + x[1]*x[1] + x[2]*x[2]), R = Rs[v], w = (v + 1) * (in ? (3 - r*r/(R*R)) / (2*R) : 1 / r), got = q->v[I(v ? "Poisson_Chi" : "Poisson_Psi")][k], rh = q->v[I(v ? "Poisson_rh2" : "Poisson_rh1")][k]; c.check(near(got, w, 1e-12 * (1 + w)), "%s in box %d point %d is %.15g instead of %.15g", v ? "Chi" : "Psi", b, k, got, w); c.check(near(rh, in ? -3 * (v + 1) / (R*R*R) : 0, 1e-12 / (R*R*R)), "source in box %d point %d is %g", b, k, rh); } }
  Vec u = getv(p.u), f = Fapply(p, u); double worst = 0, wf = 0; for (size_t k = 0; k < f.size(); k++) { int b, i, v; string w = where(g, k, b, i, v); tBox* q = g->box[b]; int e[3] = {i % q->n1, i / q->n1 % q->n2, i / q->n1 / q->n2}; double x[3]; xyz(q, i, x); double rho = hypot(x[1], x[2]); bool A = e[0] == 0 || (e[0] == q->n1 - 1 && (six || b == 1 || b == 2)), axis = b < 4 && (e[1] == 0 || e[1] == q->n2 - 1), face = A || (b > 3 && (e[1] == 0 || e[1] == q->n2 - 1 || e[2] == 0 || e[2] == q->n3 - 1)); if (axis || (face && b > 3)) continue; // the faces of the cubes: too few points to say how well the neighbour is interpolated
  if (!(hypot(x[0], rho) < 10) || (rho < 0.1 && b < 4)) { if (face && b < 4 && hypot(x[0], rho) < 10) c.check(fabs(f[k]) <= 0.1, "condition at the face for %s (%g,%g,%g) is %g", w.c_str(), x[0], x[1], x[2], f[k]); continue; } (face ? wf : worst) = std::max(face ? wf : worst, fabs(f[k])); c.check(fabs(f[k]) <= 0.1, "%s of the exact solution for %s (%g,%g,%g) is %g", face ? "condition at the face" : "residual", w.c_str(), x[0], x[1], x[2], f[k]); }
  RunFun(ANALYZE, g); for (int v = 0; v < 2; v++) FORBOXES(g, b) { tBox* q = g->box[b]; for (int k = 0; k < q->nnodes; k++) { double x[3]; xyz(q, k, x); if (!(fabs(x[0]) < 1e6)) continue; double E = q->v[I(v ? "Poisson_Err_Chi" : "Poisson_Err_Psi")][k]; c.check(fabs(E) <= 1e-12 * 10, "the error of the exact solution in box %d point %d is %g", b, k, E); } }
}

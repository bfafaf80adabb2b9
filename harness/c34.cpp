// C34: results do not depend on the number of threads
#include "pbt.hpp"
#pragma push_macro("PBT") // the problems of C32, without its tests
#undef PBT
#define PBT(name, ...) static void unused_##name(pbt::Case& c)
#include "c32.cpp"
#pragma pop_macro("PBT")
#include "coords.h"
#include <omp.h>
namespace lin {
#include "linop.h"
}
#include "run.h"
extern "C" {
#define WEAK __attribute__((weak))
void cart_partials(tBox*, double*, double*, double*, double*) WEAK;
void allDerivsOf_S(tBox*, int, int, int) WEAK; void FirstDerivsOf_S(tBox*, int, int) WEAK; void FirstDerivsOf_Sa(tBox*, int, int) WEAK; void allDerivsOf_Sa(tBox*, int, int, int) WEAK; void D_and_DD_of_S(tBox*, int, int, int) WEAK;
}
typedef std::map<string, Vec> Res;
static void same(Case& c, const Res& a, const Res& b, int t, const char* what) { c.check(a.size() == b.size(), "%s: %d results with %d threads instead of %d", what, (int) b.size(), t, (int) a.size());
  for (auto& x : a) { auto it = b.find(x.first); c.check(it != b.end() && it->second.size() == x.second.size(), "%s: no %s with %d threads", what, x.first.c_str(), t); bool sum = x.first[0] == '~'; double m = sum ? top(x.second) : 0; if (sum && x.first[1] == '~') m = fabs(b.at("scale")[0]);
    for (size_t k = 0; k < x.second.size(); k++) { double p = x.second[k], q = it->second[k]; if (sum) c.check(fabs(p - q) <= 1e-11 * (1 + m) || (std::isnan(p) && std::isnan(q)), "%s: %s [%d] is %.17g with one thread and %.17g with %d", what, x.first.c_str(), (int) k, p, q, t); else c.check(same_bits(p, q) || (std::isnan(p) && std::isnan(q)), "%s: %s [%d] is %.17g with one thread and %.17g with %d", what, x.first.c_str(), (int) k, p, q, t); } } }
static vector<int> threads(Case& c) { vector<int> t = {1}; int n = c.i(1, 2); for (int k = 0; k < n; k++) t.push_back(c.pickl<int>({2, 3, 4, 7, 8})); return t; }

// derivatives, expansions, integrals, interpolation and list operations on boxes of any coordinates
PBT(grid, {.quick = 1500, .thorough = 60000, .sched = true}) {
  Sys y = gen_sys(c, 4, 11); if (c.b(1, 4)) { y.s.coord = "Cartesian"; y.pars.clear(); } if (y.name[0] == 'A') y.s.d[2].n = 4 * c.i(1, 2); y.pars["Coordinates_set_bfaces"] = "no"; tGrid* g = nullptr; int nb = 1; if (y.s.coord == "Cartesian" || y.pars.size() == 1) nb = c.i(1, 2); vector<BoxSpec> S(nb, y.s); omp_set_num_threads(1); g = new_grid(S, true, y.pars);
  auto T = threads(c); c.describe("%d boxes %s, threads 1 %d", nb, y.str().c_str(), T[1]); c.label(y.s.coord); if (g->box[0]->nnodes > 100) c.nontrivial();
  int u = newvar(g, "hu"), w = newvar(g, "hw"), cf = newvar(g, "hc"), d = newvar(g, "hd", "i"), dd = newvar(g, "hdd", "(ij)"), v = newvar(g, "hv", "i"), dv = newvar(g, "hdv", "ij"), ddv = newvar(g, "hddv", "i(jk)"); Vec data[5]; for (auto& q : data) q = rnd(c, (size_t) g->box[0]->nnodes); double X[3]; for (int k = 0; k < 3; k++) X[k] = y.s.d[k].a + (y.s.d[k].b - y.s.d[k].a) * c.u01(); double ca = c.sym(3), cb = c.sym(3); int dir = c.i(1, 3);
  auto once = [&](int th) { omp_set_num_threads(th); Res R; FORBOXES(g, b) { tBox* B = g->box[b]; int N = B->nnodes; auto fill = [&](int i, int k) { std::copy(data[k].begin(), data[k].end(), B->v[i]); }; fill(u, 0); fill(w, 1); for (int k = 0; k < 3; k++) fill(v + k, 2 + k); for (int q = 0; q < 3; q++) std::fill_n(B->v[d+q], N, 7.); 
      auto keep = [&](const char* n, int i, int m) { for (int q = 0; q < m; q++) { Vec& r = R[strf("%s%d box %d", n, q, b)]; r.assign(B->v[i+q], B->v[i+q] + N); } };
      spec_Coeffs(B, B->v[u], B->v[cf]); keep("coefficients", cf, 1); R[strf("~interpolated value, box %d", b)] = {spec_interpolate(B, B->v[cf], X[0], X[1], X[2])}; spec_Eval(B, B->v[w], B->v[cf]); keep("values", w, 1); fill(w, 1);
      spec_Deriv1(B, dir, B->v[u], B->v[d]); keep("first derivative", d, 1); spec_Deriv2(B, dir, B->v[u], B->v[d]); keep("second derivative", d, 1); spec_analysis1(B, dir, B->v[u], B->v[cf]); keep("1d coefficients", cf, 1); spec_synthesis1(B, dir, B->v[d], B->v[cf]); keep("1d values", d, 1); spec_Integral1(B, dir, B->v[u], B->v[d]); keep("1d integral", d, 1); spec_filter1(B, dir, B->v[d]); keep("filtered", d, 1);
      { Vec o(9 * (size_t) N); double* p = o.data(); spec_allDerivs(B, B->v[u], p, p + N, p + 2*N, p + 3*N, p + 4*N, p + 5*N, p + 6*N, p + 7*N, p + 8*N); R[strf("all derivatives, box %d", b)] = o; }
      bool car = y.s.coord == "Cartesian", one = car || B->dX_dx[1][1], two = car || B->ddX_dxdx[1][1][1]; if (one && cart_partials) { cart_partials(B, B->v[u], B->v[d], B->v[d+1], B->v[d+2]); keep("gradient", d, 3); } if (one && FirstDerivsOf_S) { FirstDerivsOf_S(B, u, d); keep("gradient of scalar", d, 3); } if (two && allDerivsOf_S) { allDerivsOf_S(B, u, d, dd); keep("d", d, 3); keep("dd", dd, 6); } if (one && FirstDerivsOf_Sa) { FirstDerivsOf_Sa(B, v, dv); keep("dv", dv, 9); } if (two && allDerivsOf_Sa) { allDerivsOf_Sa(B, v, dv, ddv); keep("dv", dv, 9); keep("ddv", ddv, 18); }
      R[strf("~volume integral, box %d", b)] = {BoxVolumeIntegral(B, u)}; }
    tVarList *a = vlalloc(g), *bl = vlalloc(g), *r = vlalloc(g); vlpush(a, v); vlpush(a, u); vlpush(bl, d); vlpush(bl, w); vlpush(r, dd); auto all = [&](const char* n) { R[n] = getv(r); }; vldropn(r, 2);
    FORBOXES(g, b) { for (int q = 0; q < 3; q++) std::copy(data[4 - q].begin(), data[4 - q].end(), g->box[b]->v[d + q]); }
    vladd(r, ca, a, cb, bl); all("vladd"); vlcopy(r, bl); all("vlcopy"); vladdto(r, ca, a); all("vladdto"); vlaverage(r, a, bl); all("vlaverage"); vlsubtract(r, a, bl); all("vlsubtract"); vlsetconstant(r, ca); all("vlsetconstant"); vladd(r, ca, a, 0, NULL); all("vladd one list");
    R["~norm"] = {GridL2Norm(a)}; R["~product"] = {GridDotProduct(a, bl)}; vlfree(a); vlfree(bl); vlfree(r); return R; };
  Res one = once(1); same(c, one, once(1), 1, "second run"); for (size_t k = 1; k < T.size(); k++) { same(c, one, once(T[k]), T[k], "threads"); } }

// matrices of operators and their solution
PBT(matrix, {.quick = 5000, .thorough = 80000, .cpu_s = 60, .sched = true}) {
  auto P = lin::gen_prob(c, 40, true, true); tGrid* g = P.g; int N = lin::LO.U.N; lin::LO.row.assign(N, {}); double fill = c.pickl<double>({0.1, 0.4, 0.9}); Vec r = rnd(c, (size_t) N * N * 2);
  for (int i = 0; i < N; i++) { double s = 0; for (int k = 0; k < N; k++) if (k != i && fabs(r[(size_t) i * N + k]) < fill) { double e = r[(size_t) N * N + i * N + k]; s += fabs(e); lin::LO.row[i].push_back({k, e}); } lin::LO.row[i].push_back({i, s * 1.5 + 0.5}); }
  setpar("LinAlg_setABStozero_below", "0"); setpar("GridIterators_verbose", "no"); auto T = threads(c); c.describe("%s, threads %d", P.text.c_str(), T[1]); if (N > 8) c.nontrivial(); Vec b = rnd(c, N), x0 = rnd(c, N); for (int k = 1; k < 4; k++) setpar(strf("GridIterators_Preconditioner_BlockJacobi_nsb%d", k), strf("%d", c.pickl<int>({1, 2}))); 
  typedef int (*Solver)(tVarList*, tVarList*, tVarList*, tVarList*, tVarList*, int, double, double*, void (*)(tVarList*, tVarList*, tVarList*, tVarList*), void (*)(tVarList*, tVarList*, tVarList*, tVarList*));
  struct { const char* n; Solver f; } SV[] = {{"LAPACK", LAPACK_dgesv_wrapper}, {"UMFPACK", UMFPACK_solve_wrapper}, {"sorted UMFPACK", UMFPACK_solve_forSortedVars_wrapper}, {"SPQR", SuiteSparseQR_solve_wrapper}, {"bicgstab", bicgstab}, {"Jacobi", bicgstab_with_Jacobi_precon}, {"BlockJacobi", bicgstab_with_BlockJacobi_precon}, {"BlockJacobi", bicgstab_with_BlockJacobi_precon}, {"SOR", SOR_Iterator}};
  int sv = c.i(0, 8); c.label(SV[sv].n); if (sv == 2) setpar("GridIterators_UMFPACK_version", "di");
  auto once = [&](int th) { omp_set_num_threads(th); Res R; for (int k = 0; k < 4; k++) { tSparseVector** M = AllocateSparseVectorArray(N); (k == 0 ? SetMatrixLines_slowly : k == 1 ? SetMatrixLines_forSortedVars_slowly : k == 2 ? SetMatrixColumns_slowly : SetMatrixColumns_forSortedVars_slowly)(M, lin::lop, P.F, P.x, P.c1, P.c2, 0);
      Vec m((size_t) N * N, 0), e; for (int i = 0; i < N; i++) { e.push_back(M[i]->entries); for (int q = 0; q < M[i]->entries; q++) m[(size_t) i * N + M[i]->pos[q]] += M[i]->val[q]; } R[strf("matrix %d", k)] = m; R[strf("entries of matrix %d", k)] = e; }
    lin::put(g, P.xi, x0); lin::put(g, P.bi, b); double nr = -1; int it = SV[sv].f(P.x, P.b, P.r, P.c1, P.c2, 300, 1e-11, &nr, lin::lop, Preconditioner_I); R["~solution"] = lin::get(g, P.xi); R["status"] = {(double) (it < 0 ? it : it > 300 ? 1 : 0)}; if (sv >= 4) R["~iterations"] = {(double) it}; return R; };
  Res one = once(1); same(c, one, once(1), 1, "second run"); for (size_t k = 1; k < T.size(); k++) same(c, one, once(T[k]), T[k], SV[sv].n); }

// every unknown depends on every other: F_u = a_u sum x + d_u x_u
static Vec ra, rd;
extern "C" void rankop(tVarList* F, tVarList* x, tVarList*, tVarList*) { tGrid* g = x->grid; auto& U = lin::LO.U; double s = 0; for (int t = 0; t < 2; t++) FORBOXES(g, b) if (U.act[b]) for (int v = 0; v < U.nv; v++) { double *X = g->box[b]->v[x->index[v]], *f = g->box[b]->v[F->index[v]]; for (int p = 0, u = U.off[b] + v * U.nn[b]; p < U.nn[b]; p++, u++) if (t) f[p] = ra[u] * s + rd[u] * X[p]; else s += X[p]; } }
// the same for larger problems, many times, so that threads get into each other's way if they can
PBT(races, {.quick = 150, .thorough = 4000, .cpu_s = 300, .sched = true}) {
  int kind = c.pickl<int>({0, 0, 0, 1, 2, 3}), th = c.pickl<int>({4, 8, 8}); omp_set_num_threads(1); setpar("LinAlg_setABStozero_below", "0"); setpar("GridIterators_verbose", "no"); setpar("GridIterators_Preconditioner_type", c.pickl<const char*>({"spectral", "spectral SPQR"}));
  if (kind == 3) { BoxSpec q; for (auto& d : q.d) d = {c.i(9, 17), -1, 1, "ChebExtrema", "0 FFTW3"}; tGrid* g = new_grid({q}, true, {{"Coordinates_set_bfaces", "no"}}); int u = newvar(g, "hu"), cf = newvar(g, "hc"), w = newvar(g, "hw", "i"); tBox* B = g->box[0]; int N = B->nnodes; Vec r = rnd(c, N); std::copy(r.begin(), r.end(), B->v[u]); spec_Coeffs(B, B->v[u], B->v[cf]); c.describe("interpolation and derivatives, %s, %d threads", specstr(q).c_str(), th); c.label("grid"); c.nontrivial();
    Vec one; for (int t = 0; t < 2; t++) { omp_set_num_threads(t ? th : 1); uint64_t s = 88172645463325252ull; auto x = [&] { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (s >> 11) * (2.0 / 9007199254740992.0) - 1; }; for (int k = 0; k < 300; k++) { double X = x(), Y = x(), Z = x(), v = spec_interpolate(B, B->v[cf], X, Y, Z); if (!t) one.push_back(v); else c.check(fabs(v - one[k]) <= 1e-9, "the value at (%g,%g,%g) is %.15g with one thread and %.15g with %d", X, Y, Z, one[k], v, th); }
      Vec dd; static Vec d1; for (int k = 0; k < 20; k++) { cart_partials(B, B->v[u], B->v[w], B->v[w+1], B->v[w+2]); for (int q = 0; q < 3; q++) for (int p = 0; p < N; p++) { if (!t) { if (!k) d1.push_back(B->v[w+q][p]); } else c.check(same_bits(B->v[w+q][p], d1[(size_t) q * N + p]), "derivative %d at point %d is %.17g with one thread and %.17g with %d", q, p, d1[(size_t) q * N + p], B->v[w+q][p], th); } } } return; }
  if (kind == 0) { BoxSpec q; for (auto& d : q.d) d = {c.i(5, 8), -1, 1, "ChebZeros", ""}; tGrid* g = new_grid({q}, false, {{"Coordinates_set_bfaces", "no"}}); int nv = c.pickl<int>({1, 1, 2}), k = c.pickl<int>({0, 0, 0, 1, 1, 2, 3}); tVarList *x = vlalloc(g), *F = vlalloc(g), *e = vlalloc(g); for (int v = 0; v < nv; v++) { vlpushone(x, newvar(g, strf("hx%d", v).c_str())); vlpushone(F, newvar(g, strf("hf%d", v).c_str())); } lin::LO.U.init(g, nv); int N = lin::LO.U.N; 
    Vec r = rnd(c, 2 * (size_t) N); ra.clear(); rd.clear(); for (int i = 0; i < N; i++) { ra.push_back(0.5 + r[i] * 0.3); rd.push_back(3 + r[N + i]); } c.describe("full matrix %d, %d unknowns of %d variables, %d threads", k, N, nv, th); c.label("full matrix"); c.nontrivial();
    auto line = [&](int u) { return k % 2 ? u : lin::lop_line(u, 0, false); }; vector<int> un(N); for (int u = 0; u < N; u++) un[line(u)] = u; omp_set_num_threads(th);
    for (int t = 0; t < 6; t++) { tSparseVector** M = AllocateSparseVectorArray(N); (k == 0 ? SetMatrixLines_slowly : k == 1 ? SetMatrixLines_forSortedVars_slowly : k == 2 ? SetMatrixColumns_slowly : SetMatrixColumns_forSortedVars_slowly)(M, rankop, F, x, e, e, 0); Vec got(N);
      for (int i = 0; i < N; i++) { c.check(M[i]->entries == N, "%s %d of matrix %d has %d entries instead of %d with %d threads", k < 2 ? "line" : "column", i, k, M[i]->entries, N, th); std::fill(got.begin(), got.end(), NAN); for (int q = 0; q < N; q++) got[M[i]->pos[q]] = M[i]->val[q]; for (int j = 0; j < N; j++) { int l = un[k < 2 ? i : j], m = un[k < 2 ? j : i]; double w = l == m ? ra[l] + rd[l] : ra[l]; c.check(fabs(got[j] - w) <= 1e-13, "entry (%d,%d) of matrix %d is %.17g instead of %.17g with %d threads", k < 2 ? i : j, k < 2 ? j : i, k, got[j], w, th); } } FreeSparseVectorArray(M, N); } return; }
  auto P = lin::gen_prob(c, c.pickl<int>({60, 350, 500}), false, true); tGrid* g = P.g; int N = lin::LO.U.N; lin::LO.row.assign(N, {}); int dense = c.i(7, 40); Vec r = rnd(c, (size_t) N * 6 + 1); 
  for (int i = 0; i < N; i++) { std::map<int, double> m; if (i % dense == 0) for (int k = 0; k < N; k++) m[k] = (1 + fabs(r[k])) / N; else for (int k = 0; k < 5; k++) m[(i + 1 + k * k * 7) % N] = r[(size_t) i * 6 + k] * 0.2; m[i] = 3 + r[(size_t) i * 6 + 5]; for (auto& e : m) lin::LO.row[i].push_back(e); }
  for (int k = 1; k < 4; k++) setpar(strf("GridIterators_Preconditioner_BlockJacobi_nsb%d", k), strf("%d", c.i(1, 3))); Vec b = rnd(c, N); c.describe("%s: %s, %d threads", "block Jacobi", P.text.c_str(), th); c.label("block Jacobi"); if (N > 60) c.nontrivial();
    auto sol = [&] { Res R; lin::put(g, P.xi, Vec(N, 0)); lin::put(g, P.bi, b); double nr = -1; int it = bicgstab_with_BlockJacobi_precon(P.x, P.b, P.r, P.c1, P.c2, 8, 1e-14, &nr, lin::lop, Preconditioner_I); R["iterates"] = lin::get(g, P.xi); R["iterations"] = {(double) it}; R["residual"] = {nr}; return R; };
  Res one = sol(); same(c, one, sol(), 1, "second run"); omp_set_num_threads(th); for (int t = 0; t < 12; t++) same(c, one, sol(), th, "block Jacobi"); }

// the matrices of the example problems in all their coordinates
PBT(problems, {.quick = 100, .thorough = 3000, .cpu_s = 200, .sched = true}) {
  int m = c.i(0, 2), kind = 0; if (!ops(m, 0)) { c.label("no function"); return; } string P = MOD[m]; vector<BoxSpec> S; double R; std::map<string, string> par = {{"Coordinates_set_bfaces", "no"}}; bool two = false;
  if (m < 2) { shellpars(c, m); kind = m == 0 ? c.i(0, 2) : 0; if (kind == 0) S = shells(c, c.i(1, 2), 3, 4, 2, 2, R); else { setpar("Poisson_grid", kind == 1 ? "AnsorgNS" : "4ABphi_2xyz"); ansorg(c, S, kind == 2); for (int b = 0; b < (int) S.size(); b++) { for (int k = 0; k < 2 + (b > 3); k++) S[b].d[k].n = 4; if (b < 4) S[b].d[2].n = 4; } } }
  else { setpar("physics", P); S = cart(c, 4, 5, 2, true, two); par["Coordinates_set_bfaces"] = "yes"; kind = 3; }
  omp_set_num_threads(1); tGrid* g = new_grid(S, true, par); RunFun(PRE_INITIALDATA, g); Prob p = prob(m, g); static const char* K[] = {"SphericalDF", "AnsorgNS", "4ABphi_2xyz", "Cartesian"}; auto T = threads(c); if (T.size() > 2) T.pop_back();
  Vec u = getv(p.u); for (auto& v : u) v = c.sym(1); int N = (int) u.size(); c.describe("%s %s, %d boxes, box 0 %s, threads %d", P.c_str(), K[kind], g->nboxes, specstr(S[0]).c_str(), T[1]); c.label(P + " " + K[kind]); c.nontrivial(); Fapply(p, u);
  auto once = [&](int th) { omp_set_num_threads(th); Res r; r["~residual"] = Fapply(p, u); r["~linearised residual"] = japply(p, u); tSparseVector** M = AllocateSparseVectorArray(N); SetMatrixColumns_slowly(M, p.j(), p.J, p.lu, p.d1, p.d2, 0); Vec &e = r["~matrix"], &w = r["places"]; for (int i = 0; i < N; i++) { std::map<int, double> q; for (int k = 0; k < M[i]->entries; k++) q[M[i]->pos[k]] += M[i]->val[k]; for (auto& x : q) { w.push_back(x.first); e.push_back(x.second); } } FreeSparseVectorArray(M, N); return r; };
  Res one = once(1); for (size_t k = 1; k < T.size(); k++) same(c, one, once(T[k]), T[k], P.c_str()); }

// whole runs
PBT(run, {.quick = 80, .thorough = 1500, .cpu_s = 200, .fs = true, .sched = true}) {
  string dir = c.scratch(); int kind = c.i(0, 2), steps = c.i(1, 3), th = c.pickl<int>({2, 3, 4, 8}); string P; vector<BoxSpec> S; string t;
  if (kind == 0) { S.resize(1); S[0].coord = "SphericalDF"; S[0].d[0] = {c.i(5, 9), 1, 1 + c.u(0.5, 3), "ChebExtrema", "64 NUMREC_FFT"}; S[0].d[1] = {2 * c.i(3, 4), 0, 2 * M_PI, "Fourier", "64 NUMREC_FFT"}; S[0].d[2] = {2 * c.i(3, 4), 0, 2 * M_PI, "Fourier", "64 NUMREC_FFT"}; t = "ScalarWave"; }
  else if (kind == 1) { S.resize(1); for (auto& d : S[0].d) d = {c.i(5, 9), -c.u(1, 2), c.u(1, 2), "ChebExtrema", "64 NUMREC_FFT"}; t = "ScalarWave"; }
  else { S = shells(c, 1, 5, 6, 3, 3, *new double); t = c.b() ? "Poisson" : "Poisson2"; }
  P = "physics = " + t + "\niterations_none = 0\n" + grid_text(S); P += kind < 2 ? strf("amr_fac = 1\nfinaltime = %g\niterations = %d\ndt = 0.002\nevolution_method = %s\nevolution_method_rk = rk4\n0doutiter = 1\n0doutput = ScalarWave_psi ScalarWave_rho\n0doutputall = yes\n1doutiter = 1\n1doutput = ScalarWave_psi\n1doutputall = yes\n2doutiter = 1\n2doutput = ScalarWave_psi\n", 0.002 * steps, steps, c.pickl<const char*>({"icn", "rk", "euler"})) : t + "_grid = SphericalDF\n" + t + "_linSolver = UMFPACK\n" + t + "_itmax = 4\nGridIterators_verbose = no\n1doutiter = 1\n1doutput = " + t + "_Psi\n1doutputall = yes\niterations = 0\nfinaltime = 0\n";
  c.describe("%s run with %d threads, %s", t.c_str(), th, specstr(S[0]).c_str()); c.label(t); c.nontrivial(); Tree o[3]; 
  for (int k = 0; k < 3; k++) { string w = dir + strf("/w%d", k); mkdir(w.c_str(), 0755); FILE* f = fopen((w + "/run.par").c_str(), "w"); fputs(P.c_str(), f); fclose(f); int st = in_child([&] { if (chdir(w.c_str())) _exit(3); omp_set_num_threads(k == 2 ? th : 1); static vector<string> a = {"sgrid", "run.par"}; static char* av[] = {(char*) a[0].c_str(), (char*) a[1].c_str(), nullptr}; bool ex = c.exits([&] { libsgrid_main(2, av); }); fflush(nullptr); _exit(ex ? 50 : 0); }); c.check(st_ok(st), "run %d %s", k, st_str(st).c_str()); o[k] = tree(w + "/run"); }
  if (o[0].size() > 2) c.label("with output"); string e = tree_diff(o[0], o[1]); c.check(e.empty(), "two runs with one thread differ: %s", e.c_str()); e = tree_diff(o[0], o[2]); c.check(e.empty(), "with %d threads: %s", th, e.c_str()); }

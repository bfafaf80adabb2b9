// C24: linear solvers
#include "linop.h"
#include "coords.h"
using namespace pbt;
extern "C" { // internal routines: checked as long as they exist under these names
#define WEAK __attribute__((weak))
void copy_varlist_into_array(tVarList*, double*) WEAK; void copy_array_into_varlist(double*, tVarList*) WEAK; void copy_varlist_into_array_forSortedVars(tVarList*, double*) WEAK; void copy_array_into_varlist_forSortedVars(double*, tVarList*) WEAK; void copy_vl_into_array_outervlloop(tVarList*, double*) WEAK; void copy_array_into_vl_outervlloop(double*, tVarList*) WEAK;
void copy_varlistCompInSubbox_into_array(tVarList*, int, int, int, int, int, int, int, int, double*) WEAK; void copy_array_into_varlistCompInSubbox(double*, tVarList*, int, int, int, int, int, int, int, int) WEAK;
}
typedef int (*Solver)(tVarList*, tVarList*, tVarList*, tVarList*, tVarList*, int, double, double*, void (*)(tVarList*, tVarList*, tVarList*, tVarList*), void (*)(tVarList*, tVarList*, tVarList*, tVarList*));
enum { DIRECT, BICG, SOR, WT };
struct Sol { const char* name; Solver f; int kind; };
static const Sol SOLS[] = {{"LAPACK_dgesv_wrapper", LAPACK_dgesv_wrapper, DIRECT}, {"UMFPACK_solve_wrapper", UMFPACK_solve_wrapper, DIRECT}, {"UMFPACK_solve_forSortedVars_wrapper", UMFPACK_solve_forSortedVars_wrapper, DIRECT}, {"SuiteSparseQR_solve_wrapper", SuiteSparseQR_solve_wrapper, DIRECT},
  {"bicgstab", bicgstab, BICG}, {"bicgstab_with_fd_UMFPACK_precon", bicgstab_with_fd_UMFPACK_precon, BICG}, {"bicgstab_with_Jacobi_precon", bicgstab_with_Jacobi_precon, BICG}, {"bicgstab_with_BlockJacobi_precon", bicgstab_with_BlockJacobi_precon, BICG}, {"bicgstab_with_SOR_precon", bicgstab_with_SOR_precon, BICG}, {"SOR_Iterator", SOR_Iterator, SOR}, {"WTsolver", WTsolver, WT}};
struct Mat { int n; vector<ld> a; ld& operator()(int i, int j) { return a[(size_t) i * n + j]; } };
// inverse with pivoting; false if singular
static bool inverse(Mat A, Mat& B) { int n = A.n; B.n = n; B.a.assign((size_t) n * n, 0); for (int i = 0; i < n; i++) B(i, i) = 1;
  for (int k = 0; k < n; k++) { int p = k; for (int i = k; i < n; i++) if (fabsl(A(i, k)) > fabsl(A(p, k))) p = i; if (A(p, k) == 0) return false; if (p != k) for (int j = 0; j < n; j++) { std::swap(A(p, j), A(k, j)); std::swap(B(p, j), B(k, j)); }
    ld d = 1 / A(k, k); for (int j = 0; j < n; j++) { A(k, j) *= d; B(k, j) *= d; } for (int i = 0; i < n; i++) if (i != k && A(i, k) != 0) { ld f = A(i, k); for (int j = 0; j < n; j++) { A(i, j) -= f * A(k, j); B(i, j) -= f * B(k, j); } } } return true; }
static ld inf_norm(Mat& A) { ld m = 0; for (int i = 0; i < A.n; i++) { ld s = 0; for (int j = 0; j < A.n; j++) s += fabsl(A(i, j)); m = std::max(m, s); } return m; }
// kinds of operators; in "dominant" ones each diagonal entry exceeds the rest of its line
static const char* OPN[] = {"dominant", "random", "permuted", "badly scaled", "zero line", "zero column", "equal lines", "block diagonal"};
static void gen_op(Case& c, int kind) {
  int N = LO.U.N; LO.row.assign(N, {}); uint64_t s = c.bits64() | 1; auto r = [&] { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (s >> 11) * (1.0 / 9007199254740992.0); }; for (int k = 0; k < 9; k++) r();
  double fill = c.pickl<double>({0.1, 0.3, 0.9}); vector<int> pm(N); for (int i = 0; i < N; i++) pm[i] = i; if (kind == 2) for (int k = N; k > 1; k--) std::swap(pm[k-1], pm[(int) (r() * k)]); int sp = c.i(0, N - 1), sq = (sp + 1) % N;
  vector<double> sl(N, 1), sc(N, 1); if (kind == 3) for (int i = 0; i < N; i++) { sl[i] = pow(10, floor(r() * 9) - 4); sc[i] = pow(10, floor(r() * 9) - 4); }
  for (int u = 0; u < N; u++) { std::map<int, double> m; double sum = 0; for (int w = 0; w < N; w++) if (w != pm[u] && r() < fill && (kind != 7 || box_of(u) == box_of(w))) { double a = (r() - 0.5) * 2; sum += fabs(a); m[w] = a; }
    m[pm[u]] = (kind == 1 ? (r() - 0.5) * 2 + 2 * sqrt(fill * N) * (r() < 0.5 ? -1 : 1) * 0.5 : sum * (1.2 + r()) + 0.5 + r()) * (kind == 2 && r() < 0.5 ? -1 : 1);
    if (kind == 4 && u == sp) m.clear(); if (kind == 5) m.erase(sp); if (kind == 6 && u == sq && sq != sp) { m.clear(); for (auto& e : LO.row[sp]) m[e.first] = e.second; if (sq < sp) m.clear(); }
    for (auto& e : m) LO.row[u].push_back({e.first, e.second * sl[u] * sc[e.first]}); }
}
static void pars_of(Case& c, string& t) {
  auto S = [&](const char* k, const string& v, const char* dflt) { setpar(string("GridIterators_") + k, v); if (v != dflt) t += " " + string(k) + "=" + v; };
  S("verbose", c.pickl<string>({"no", "no", "no", "yes", "yes very"}), "no"); S("UMFPACK_version", c.pickl<string>({"di", "dl"}), "");
  S("Preconditioner_type", c.pickl<string>({"fd", "spectral", "fd SPQR", "spectral SPQR", "fd UMFPACK"}), ""); for (int k = 1; k < 4; k++) S(strf("Preconditioner_BlockJacobi_nsb%d", k).c_str(), strf("%d", c.pickl<int>({1, 1, 2, 3})), "1");
  S("Preconditioner_itmax", strf("%d", c.pickl<int>({1000, 3, 1})), "1000"); S("Preconditioner_reltol", c.pickl<string>({"0.001", "1e-10", "0.3"}), "0.001"); S("SOR_omega", c.pickl<string>({"1", "0.7", "1.2"}), "1"); S("SOR_matrix", c.pickl<string>({"SetMatrixLines_slowly", "SetMatrixLines_forSortedVars_slowly"}), "SetMatrixLines_slowly"); S("setABStozero_below", c.pickl<string>({"0", "0", "1e-14"}), "0"); setpar("LinAlg_setABStozero_below", "0");
}
static string shape(tGrid* g) { string s; FORBOXES(g, b) { tBox* B = g->box[b]; s += strf("%d %d %d %d %d|", B->n1, B->n2, B->n3, B->nnodes, B->inactive); const double* D[] = {B->D1, B->D2, B->D3, B->DD1, B->DD2, B->DD3}; int n[] = {B->n1, B->n2, B->n3}; for (int k = 0; k < 6; k++) if (D[k]) s.append((const char*) D[k], sizeof(double) * n[k%3] * n[k%3]); } return s + strf("%d", g->nboxes); }
static bool used = false;
static ld dot2(const vector<double>& a) { ld s = 0; for (double v : a) s += (ld) v * v; return s; }
struct Run { int ret; bool gone; double nr; vector<double> x; };

PBT(solve, {.quick = 6000, .thorough = 150000, .cpu_s = 60, .fs = true}) {
  const Sol& s = SOLS[c.i(0, 10)]; int kind = c.pickl<int>({0, 0, 0, 1, 2, 3, 4, 5, 6, 7}); if (s.kind == WT && c.b()) kind = 0;
  Prob P = gen_prob(c, 40, true, true); tGrid* g = P.g; int N = LO.U.N; gen_op(c, kind); string t; pars_of(c, t); bool nsv = strstr(s.name, "SortedVars"); if (nsv) { setpar("GridIterators_UMFPACK_version", "di"); }
  double bs = c.pickl<double>({1, 1, 1, 1e-4, 1e5}); auto rv = [&](int n, double f) { auto r = rnd(c, n); for (auto& v : r) v *= f; return r; }; Mat A{N, vector<ld>((size_t) N * N, 0)}, I; for (int u = 0; u < N; u++) for (auto& e : LO.row[u]) A(u, e.first) += lop_entry(g, P.c1, P.c2, u, e);
  auto resid = [&](const vector<double>& x, const vector<double>& b, vector<double>& r, vector<double>& mag) { r.assign(N, 0); mag.assign(N, 0); for (int u = 0; u < N; u++) { ld q = b[u], m = fabs(b[u]); for (int w = 0; w < N; w++) if (A(u, w) != 0) { q -= A(u, w) * x[w]; m += fabsl(A(u, w) * x[w]); } r[u] = (double) q; mag[u] = (double) m; } };
  vector<double> xe = rv(N, bs), b(N, 0), r, mag; bool consistent = c.b(3, 4); if (consistent) for (int u = 0; u < N; u++) { ld q = 0; for (int w = 0; w < N; w++) q += A(u, w) * xe[w]; b[u] = (double) q; } else b = rv(N, bs);
  int gk = c.i(0, 4); vector<double> x0 = gk == 0 ? vector<double>(N, 0) : gk == 1 ? xe : rv(N, bs * (gk == 2 ? 1000 : 1)); put(g, P.xi, x0); put(g, P.bi, b); for (int i : P.ri) FORBOXES(g, bb) { auto q = rnd(c, g->box[bb]->nnodes); std::copy(q.begin(), q.end(), g->box[bb]->v[i]); }
  bool sing = !inverse(A, I); double cond = sing ? INFINITY : (double) (inf_norm(A) * inf_norm(I)); int itmax = c.pickl<int>({0, 1, 2, 5, 300, 300, 300, 300, 1000}); double tol = bs * pow(10, -c.i(1, 12)); if (c.b(1, 15)) tol = 0;
  c.describe("%s on a %s operator (condition %.2g): %s, right hand side %g%s, guess %d, itmax %d, tol %g;%s", s.name, OPN[kind], cond, P.text.c_str(), bs, consistent ? "" : " (arbitrary)", gk, itmax, tol, t.c_str()); c.label(s.name); c.label(OPN[kind]);
  std::set<BV> ex; FORBOXES(g, bb) for (int l = 0; l < LO.U.nv; l++) if (LO.U.act[bb]) { ex.insert(BV(bb, P.xi[l])); ex.insert(BV(bb, P.ri[l])); } FORBOXES(g, bb) if (!LO.U.act[bb]) for (int l = 0; l < LO.U.nv; l++) ex.insert(BV(bb, P.ri[l])); Snap sn; sn.add(g, ex); string sh = shape(g);
  Solver f = s.f; if (c.b()) { static const char* named[] = {"LAPACK", "UMF", "Suite", "bicgstab"}; bool ok = false; for (auto q : named) if (!strncmp(s.name, q, strlen(q))) ok = true; if (!strcmp(s.name, "bicgstab_with_BlockJacobi_precon")) ok = false; if (ok) { f = get_linSolver_by_name(S_(s.name)); c.check(f == s.f, "get_linSolver_by_name(\"%s\") is another solver", s.name); } }
  double nr = -12345; int ret = -999; bool gone = c.exits([&] { ret = f(P.x, P.b, P.r, P.c1, P.c2, itmax, tol, &nr, lop, Preconditioner_I); });
  if (gone) { c.label("exit"); bool diag0 = false; for (int u = 0; u < N; u++) if (A(u, u) == 0) diag0 = true; // the documented cases: singular, or a vanishing diagonal where the preconditioner divides by it
    bool need = strstr(s.name, "SOR") || strstr(s.name, "Jacobi"); c.check(sing || cond > 1e11 || (need && diag0), "the solver exits on a matrix of condition %g", cond); return; }
  vector<double> x = get(g, P.xi); c.check(sn.bad().empty(), "%s was changed", sn.bad().c_str()); c.check(shape(g) == sh, "the grid was changed");
  resid(x, b, r, mag); ld mx = 0; for (double m : mag) mx = std::max<ld>(mx, m); double true2 = (double) sqrtl(dot2(r)), rn = s.kind == SOR ? true2 : true2 / sqrt(N); bool fin = true; for (double v : x) if (!std::isfinite(v)) fin = false;
  ld nA = inf_norm(A), nx = 0; for (double v : x) nx = std::max<ld>(nx, fabs(v)); double nb = 0; for (double v : b) nb = std::max(nb, fabs(v));
  bool wellc = kind == 0 || kind == 7; if (N > 3) c.nontrivial(); 
  if (s.kind == DIRECT) {
    if (ret < 0) { c.label("reported"); c.check(sing || cond > 1e9 || (kind == 3 && !strncmp(s.name, "Suite", 5)), "failure %d on a matrix of condition %g", ret, cond); return; }
    c.check(fin, "success, but the solution is not finite"); c.check(!(kind == 4 || kind == 5), "a singular system (%s) is passed off as solved", OPN[kind]);
    double back = 1e-13 * N * (double) (nA * nx + nb); for (int u = 0; u < N; u++) c.check(fabs(r[u]) <= back + 1e-14 * N, "solved, but the residual of line %d is %g (matrix %Lg, solution %Lg)", u, r[u], nA, nx);
    if (!sing && cond < 1e10) for (int u = 0; u < N; u++) { ld y = 0; for (int w = 0; w < N; w++) y += I(u, w) * b[w]; c.check(fabsl(y - x[u]) <= 1e-13L * N * cond * (nx + fabsl(y)) + 1e-13 * inf_norm(I), "unknown %d is %.15g instead of %.15Lg (condition %g)", u, x[u], y, cond); }
    return; }
  // iterative solvers
  bool says = ret >= 0 && ret <= itmax; double top = (double) mx; { vector<double> r0, m0; resid(x0, b, r0, m0); for (double m : m0) top = std::max(top, m); } // largest numbers that occurred at the ends
  double slop = 1e-14 * N * top;
  c.check(ret == ret && nr != -12345, "the norm of the residual is not set"); 
  if (says && nr <= tol) { c.label("solved"); c.check(rn <= tol * (1 + 1e-9) + slop, "reported as solved after %d of %d iterations with residual %g <= %g, but the residual is %g (matrix times solution up to %g)", ret, itmax, nr, tol, rn, top); c.check(ret > 0 || strcmp(s.name, "bicgstab") || x == x0, "no iterations were done, but the solution changed"); }
  else c.label("reported"); 
  if (ret >= 0) c.check(nr <= tol || ret > itmax || !(nr == nr), "%d of %d iterations are reported, as if it had converged, with residual %g > %g", ret, itmax, nr, tol);
  if (fin && std::isfinite(nr) && (says || s.kind != BICG || ret == -1)) { bool grew = !(nr < 1e3 * top); if (!grew) c.check(fabs(nr - rn) <= 1e-6 * nr + slop * 10, "the reported residual is %g, the real one %g", nr, rn); }
  if (ret == 0 && !strcmp(s.name, "bicgstab")) { vector<double> r0, m0; resid(x0, b, r0, m0); double n0 = sqrt((double) dot2(r0)); if (s.kind != SOR) n0 /= sqrt(N); c.check(n0 <= tol * (1 + 1e-9) + slop, "no iteration is done, although the residual of the guess is %g > %g", n0, tol); }
  // where it has to work
  double wtol = 1e-10 * (double) (nA * nx + nb);
  if (wellc && itmax >= 300 && tol >= wtol && tol >= 1e-11 * top && tol > 0) {
    bool must = s.kind == SOR ? Getd(S_("GridIterators_SOR_omega")) <= 1 : s.kind == BICG ? (strstr(s.name, "SOR") ? Getd(S_("GridIterators_SOR_omega")) <= 1 : true) && (!strcmp(s.name, "bicgstab_with_fd_UMFPACK_precon") || kind == 0 || kind == 7) : false; if (P.c2->n) must = false; if (s.kind == BICG && !strcmp(s.name, "bicgstab") && P.c1->n) must = false;
    if (must) { c.label("must converge"); c.check(says && nr <= tol, "no convergence in %d iterations (return value %d, residual %g > %g) on a diagonally dominant matrix", itmax, ret, nr, tol); } }
  if (kind == 7 || kind == 0) if (!sing && cond < 1e6 && strcmp(s.name, "bicgstab_with_fd_UMFPACK_precon") == 0 && itmax >= 5 && tol >= 1e-9 * (double) (nA * nx + nb) && tol >= 1e-9 * top) { c.label("exact preconditioner"); c.check(says && nr <= tol && ret <= 5, "with the exact inverse as preconditioner %d iterations are needed (residual %g > %g)", ret, nr, tol); }
}

// the preconditioner made from finite differences for an operator made from spectral derivatives
static double lapm = 0; static double cf[3] = {1, 1, 1};
extern "C" void lap(tVarList* F, tVarList* x, tVarList* c1, tVarList*) {
  tGrid* g = x->grid; FORBOXES(g, b) if (!g->box[b]->inactive) { tBox* B = g->box[b]; int N = B->nnodes; vector<double> d1(N), d2(N), d3(N);
    for (int v = 0; v < x->n; v++) { double* u = B->v[x->index[v]], *f = B->v[F->index[v]], *o = B->v[x->index[(v+1) % x->n]]; spec_Deriv2(B, 1, u, d1.data()); spec_Deriv2(B, 2, u, d2.data()); spec_Deriv2(B, 3, u, d3.data());
      for (int k = 0; k < B->n3; k++) for (int j = 0; j < B->n2; j++) for (int i = 0; i < B->n1; i++) { int p = i + B->n1 * (j + B->n2 * k); bool e = !i || !j || !k || i == B->n1 - 1 || j == B->n2 - 1 || k == B->n3 - 1; f[p] = e ? u[p] : cf[0] * d1[p] + cf[1] * d2[p] + cf[2] * d3[p] - lapm * u[p] + (v ? 0.3 : 0.1) * (x->n > 1 ? o[p] : 0); } } }
}
PBT(poisson, {.quick = 300, .thorough = 8000, .cpu_s = 100}) {
  int nb = c.i(1, 2); vector<BoxSpec> S(nb); for (auto& s : S) for (int k = 0; k < 3; k++) { double a = c.sym(2); s.d[k] = {c.i(3, 7), a, a + 0.5 + 2 * c.u01(), "ChebExtrema", ""}; }
  tGrid* g = new_grid(S, true, {{"Coordinates_set_bfaces", "no"}}); int nv = c.i(1, 2); lapm = c.u01() * 3; for (double& f : cf) f = 0.5 + c.u01(); vector<int> xi, bi, ri; for (int v = 0; v < nv; v++) { xi.push_back(newvar(g, strf("hx%d", v).c_str())); bi.push_back(newvar(g, strf("hb%d", v).c_str())); ri.push_back(newvar(g, strf("hr%d", v).c_str())); }
  auto mk = [&](const vector<int>& o) { tVarList* l = vlalloc(g); for (int i : o) vlpushone(l, i); return l; }; tVarList *x = mk(xi), *b = mk(bi), *r = mk(ri), *c0 = vlalloc(g); LO.U.init(g, nv); int N = LO.U.N, which = c.i(0, 6); string t; pars_of(c, t); setpar("GridIterators_verbose", "no"); int th = c.pickl<int>({1, 2, 4}); omp_set_num_threads(th);
  static const int W[] = {0, 1, 2, 3, 5, 6, 7}; const Sol& s = SOLS[W[which]]; if (which == 2) setpar("GridIterators_UMFPACK_version", "di"); 
  vector<double> xe = rnd(c, N); put(g, xi, xe); lap(b, x, c0, c0); vector<double> bv = get(g, bi); put(g, xi, rnd(c, N)); vector<double> y0 = rnd(c, N), y1; vector<double> keep = get(g, xi); string sh = shape(g); string spec0 = specstr(S[0]);
  c.describe("%s on %d box(es) %s, %d variables, %d unknowns, %d threads;%s", s.name, nb, spec0.c_str(), nv, N, th, t.c_str()); c.label(s.name); if (N > 60) c.nontrivial();
  put(g, xi, y0); lap(r, x, c0, c0); vector<double> l0 = get(g, ri); put(g, xi, keep); Snap sn; std::set<BV> ex; FORBOXES(g, q) for (int v = 0; v < nv; v++) { ex.insert(BV(q, xi[v])); ex.insert(BV(q, ri[v])); } sn.add(g, ex);
  double nr = -1, scale = 0; for (double v : bv) scale = std::max(scale, fabs(v)); double tol = 1e-8 * std::max(1., scale); int ret = s.f(x, b, r, c0, c0, 400, tol, &nr, lap, Preconditioner_I); c.check(sn.bad().empty(), "%s was changed", sn.bad().c_str()); c.check(shape(g) == sh, "the grid was changed");
  vector<double> got = get(g, xi); lap(r, x, c0, c0); vector<double> ax = get(g, ri); double res = 0; for (int u = 0; u < N; u++) res += (ax[u] - bv[u]) * (ax[u] - bv[u]); res = sqrt(res / N);
  bool easy = s.kind == DIRECT || which == 4; if (s.kind == DIRECT) c.check(ret == 0, "the direct solver failed: %d", ret); else if (easy) c.check(ret >= 0 && ret <= 60 && nr <= tol, "%d iterations with the finite difference preconditioner, residual %g", ret, nr);
  if (s.kind == DIRECT || (ret >= 0 && nr <= tol)) { c.check(res <= tol * 1.01 + 1e-9 * scale, "solved, but the residual is %g > %g", res, tol); if (s.kind == DIRECT) c.check(maxdiff(got.data(), xe.data(), N) <= 1e-7, "the solution is off by %g", maxdiff(got.data(), xe.data(), N)); } else c.label("reported");
  put(g, xi, y0); lap(r, x, c0, c0); y1 = get(g, ri); for (int u = 0; u < N; u++) c.check(same_bits(y1[u], l0[u]), "the operator gives %.17g instead of %.17g after the solve", y1[u], l0[u]);
}

// the routines below: direct solvers on matrices in all forms
PBT(direct, {.quick = 4000, .thorough = 80000, .cpu_s = 40}) {
  Prob P = gen_prob(c, 40, false, true); tGrid* g = P.g; int N = LO.U.N, kind = c.pickl<int>({0, 1, 2, 4, 5, 6}), how = c.i(0, 9); gen_op(c, kind); setpar("LinAlg_setABStozero_below", "0"); setpar("GridIterators_verbose", "no"); P.c1->n = P.c2->n = 0;
  static const char* nm[] = {"lapack_dgesv", "umfpack_di_solve_fromAlines", "umfpack_di_solve_forSortedVars_fromAlines", "umfpack_di_solve_fromAcolumns", "umfpack_di_solve_forSortedVars_fromAcolumns", "umfpack_dl_solve_fromAcolumns", "SuiteSparseQR_solve_fromAcolumns", "umfpack_di_solve_from_Ap_Ai_Ax", "umfpack_dl_solve_from_Ap_Ai_Ax", "block solvers"};
  c.describe("%s, %s operator: %s", nm[how], OPN[kind], P.text.c_str()); c.label(nm[how]); c.label(OPN[kind]); if (N > 3) c.nontrivial(); bool sorted = how == 2 || how == 4, lines = how < 3;
  Mat A{N, vector<ld>((size_t) N * N, 0)}, I; for (int u = 0; u < N; u++) for (auto& e : LO.row[u]) A(u, e.first) += e.second; bool sing = !inverse(A, I); double cond = sing ? INFINITY : (double) (inf_norm(A) * inf_norm(I));
  vector<int> L(N); for (int u = 0; u < N; u++) L[u] = lop_line(u, box_of(u), sorted); tSparseVector** M = AllocateSparseVectorArray(N); { vector<std::map<int, double>> m(N); for (int u = 0; u < N; u++) for (auto& e : LO.row[u]) if (lines) m[L[u]][L[e.first]] = e.second; else m[L[e.first]][L[u]] = e.second; for (int i = 0; i < N; i++) for (auto& e : m[i]) AddToSparseVector(M[i], e.first, e.second); }
  vector<double> b = rnd(c, N), x; put(g, P.bi, b); put(g, P.xi, rnd(c, N)); std::set<BV> ex; FORBOXES(g, q) if (LO.U.act[q]) for (int v : P.xi) ex.insert(BV(q, v)); Snap sn; sn.add(g, ex); int ret = -999; int nz = 0; for (int i = 0; i < N; i++) nz += M[i]->entries; vector<double> xa(N, 7);
  bool twice = false; bool gone = c.exits([&] { switch (how) { case 0: ret = lapack_dgesv(M, P.x, P.b, 0); break; case 1: ret = umfpack_di_solve_fromAlines(M, P.x, P.b, 0, 0); break; case 2: ret = umfpack_di_solve_forSortedVars_fromAlines(M, P.x, P.b, 0, 0); break; case 3: ret = umfpack_di_solve_fromAcolumns(M, P.x, P.b, 0, 0); break; case 4: ret = umfpack_di_solve_forSortedVars_fromAcolumns(M, P.x, P.b, 0, 0); break; case 5: ret = umfpack_dl_solve_fromAcolumns(M, P.x, P.b, 0, 0); break; case 6: ret = SuiteSparseQR_solve_fromAcolumns(M, P.x, P.b, 0, 0); break;
    case 7: { int *p, *i; double* a; allocate_umfpack_di_matrix(&p, &i, &a, N, nz); set_umfpack_di_matrix_from_columns(p, i, a, M, N, 0, 0); ret = umfpack_di_solve_from_Ap_Ai_Ax(p, i, a, P.x, P.b, 0); free_umfpack_di_matrix(p, i, a); break; }
    case 8: { long *p, *i; double* a; allocate_umfpack_dl_matrix(&p, &i, &a, N, nz); set_umfpack_dl_matrix_from_columns(p, i, a, M, N, 0, 0); ret = umfpack_dl_solve_from_Ap_Ai_Ax(p, i, a, P.x, P.b, 0); free_umfpack_dl_matrix(p, i, a); break; }
    case 9: { vector<double> bb(N); for (int u = 0; u < N; u++) bb[L[u]] = b[u]; int w = c.i(0, 2); twice = w > 0; long *p, *i; double* a; allocate_umfpack_dl_matrix(&p, &i, &a, N, nz); set_umfpack_dl_matrix_from_columns(p, i, a, M, N, 0, 0);
      if (w == 0) ret = umfpack_dl_solve_from_Ap_Ai_Ax_x_b(p, i, a, xa.data(), bb.data(), N, 0);
      if (w == 1) { vector<double> info(200, 0); tUMFPACK_A U; U.sys = 0; U.Ap = p; U.Ai = i; U.Ax = a; U.Info = info.data(); U.Numeric = nullptr; U.NumericInfo = 0; ret = umfpack_dl_numeric_from_tUMFPACK_A(&U, N, 0); if (ret == 0) for (int k = 0; k < 2; k++) ret = umfpack_dl_solve_from_tUMFPACK_A_x_b(U, xa.data(), bb.data(), 0); }
      if (w == 2) { tSPQR_A q; allocate_and_init_tSPQR_A_struct(&q, N, nz, 0); struct CS { size_t nrow, ncol, nzmax; void *p, *i, *nz, *x; }; CS* cs = (CS*) q.A; set_umfpack_dl_matrix_from_columns((long*) cs->p, (long*) cs->i, (double*) cs->x, M, N, 0, 0); ret = SuiteSparseQR_C_factorize_tSPQR_A(&q, 0); if (ret == 0) for (int k = 0; k < 2; k++) ret = SuiteSparseQR_solve_from_tSPQR_A_x_b(q, xa.data(), bb.data(), 0); free_tSPQR_A_struct(&q); if (sing || cond > 1e10) ret = -1; /* least squares by design */ }
      free_umfpack_dl_matrix(p, i, a); break; } } });
  if (gone || ret != 0) { c.label(gone ? "exit" : "reported"); c.check(sing || cond > 1e9, "%s %d on a matrix of condition %g", gone ? "exit" : "failure", ret, cond); return; }
  if (how == 9) { x.resize(N); for (int u = 0; u < N; u++) x[u] = xa[L[u]]; } else x = get(g, P.xi);
  c.check(sn.bad().empty(), "%s was changed", sn.bad().c_str()); c.check(kind != 4 && kind != 5, "a singular system (%s) is passed off as solved", OPN[kind]); ld nx = 0; for (double v : x) { c.check(std::isfinite(v), "solved, but not finite"); nx = std::max<ld>(nx, fabs(v)); }
  for (int u = 0; u < N; u++) { ld r = b[u]; for (int w = 0; w < N; w++) r -= A(u, w) * x[w]; c.evals(1); c.check(fabsl(r) <= 1e-13L * N * (inf_norm(A) * nx + 1), "solved, but the residual of line %d is %Lg", u, r); }
}

// norms, products and copies
PBT(arrays, {.quick = 4000, .thorough = 80000}) {
  Prob P = gen_prob(c, 200, false, true); tGrid* g = P.g; int N = LO.U.N, nv = LO.U.nv, how = c.i(0, 8); vector<double> x = rnd(c, N), y = rnd(c, N); double f = c.pickl<double>({1, 1e-100, 1e100}); for (auto& v : x) v *= f; FORBOXES(g, b) if (!LO.U.act[b]) for (int i : P.xi) for (int p = 0; p < LO.U.nn[b]; p++) g->box[b]->v[i][p] = NAN; put(g, P.xi, x); put(g, P.bi, y); c.describe("way %d: %s", how, P.text.c_str()); if (N > 4) c.nontrivial();
  vector<int> act; FORBOXES(g, b) if (LO.U.act[b]) act.push_back(b); ld s = 0; auto close = [&](double a, ld w, ld m, const char* t) { c.check(fabsl(a - w) <= 1e-14L * N * m + 1e-300L, "%s is %.17g instead of %.17Lg", t, a, w); };
  std::set<BV> ex; FORBOXES(g, q) if (LO.U.act[q]) for (int v : P.xi) ex.insert(BV(q, v)); Snap sn; Snap all; all.add(g, {}); sn.add(g, ex); vector<double> arr(N + 2, 777), want(N);
  if (how == 0) { ld m = 0; for (int u = 0; u < N; u++) { s += (ld) x[u] * y[u]; m += fabsl((ld) x[u] * y[u]); } close(GridDotProduct(P.x, P.b), s, m, "the product");  }
  if (how == 1) { s = sqrtl(dot2(x) / N); close(GridL2Norm(P.x), s, s, "the norm"); }
  if (how == 2) { int b = c.pick(act), v = c.i(0, nv - 1); ld t = 0, o = 0; for (int u = 0; u < N; u++) if (box_of(u) == b) { t += (ld) x[u] * x[u]; if ((u - LO.U.off[b]) / LO.U.nn[b] == v) o += (ld) x[u] * x[u]; } close(BoxL2Norm(b, P.x), sqrtl(t / (LO.U.nn[b] * nv)), sqrtl(t), "the norm in a box"); close(varBoxL2Norm(g->box[b], P.xi[v]), sqrtl(o / LO.U.nn[b]), sqrtl(o), "the norm of a variable in a box"); }
  if (how >= 3 && how <= 8 && how != 6) { int kind = c.i(0, 2); for (int u = 0; u < N; u++) { int b = box_of(u), v = (u - LO.U.off[b]) / LO.U.nn[b], p = (u - LO.U.off[b]) % LO.U.nn[b], o = 0; if (kind < 2) o = lop_line(u, b, kind); else { for (int l = 0; l < v; l++) for (int q : act) o += LO.U.nn[q]; for (int q : act) if (q < b) o += LO.U.nn[q]; o += p; } want[o] = x[u]; }
    void (*to)(tVarList*, double*) = kind == 0 ? copy_varlist_into_array : kind == 1 ? copy_varlist_into_array_forSortedVars : copy_vl_into_array_outervlloop; void (*back)(double*, tVarList*) = kind == 0 ? copy_array_into_varlist : kind == 1 ? copy_array_into_varlist_forSortedVars : copy_array_into_vl_outervlloop; if (!to || !back) c.discard();
    to(P.x, arr.data()); for (int i = 0; i < N; i++) c.check(same_bits(arr[i], want[i]), "entry %d of the array is %.17g instead of %.17g", i, arr[i], want[i]); c.check(arr[N] == 777, "written beyond the array"); c.check(all.bad().empty(), "%s was changed by copying it into an array", all.bad().c_str());
    put(g, P.xi, y); back(arr.data(), P.x); vector<double> z = get(g, P.xi); for (int u = 0; u < N; u++) c.check(same_bits(z[u], x[u]), "unknown %d is %.17g instead of %.17g after copying there and back", u, z[u], x[u]); c.check(sn.bad().empty(), "%s was changed", sn.bad().c_str()); }
  if (how == 6) { if (!copy_varlistCompInSubbox_into_array || !copy_array_into_varlistCompInSubbox) c.discard(); int b = c.pick(act), v = c.i(0, nv - 1), sb[3], ns[3]; tBox* B = g->box[b]; int n[3] = {B->n1, B->n2, B->n3}, lo[3], hi[3]; int M = 1; for (int k = 0; k < 3; k++) { ns[k] = c.i(1, 3); sb[k] = c.i(0, ns[k] - 1); lo[k] = sb[k] * n[k] / ns[k]; hi[k] = (sb[k] + 1) * n[k] / ns[k]; M *= hi[k] - lo[k]; }
    vector<double> a(M + 1, 777), nw = rnd(c, M + 1); copy_varlistCompInSubbox_into_array(P.x, v, b, sb[0], sb[1], sb[2], ns[0], ns[1], ns[2], a.data()); c.check(a[M] == 777, "written beyond the array"); int i = 0; vector<double> xn = x; for (int z = lo[2]; z < hi[2]; z++) for (int yy = lo[1]; yy < hi[1]; yy++) for (int xx = lo[0]; xx < hi[0]; xx++, i++) { int u = LO.U.id(b, v, xx + n[0] * (yy + n[1] * z)); c.check(same_bits(a[i], x[u]), "entry %d of the sub-box is %.17g instead of %.17g", i, a[i], x[u]); xn[u] = nw[i]; }
    copy_array_into_varlistCompInSubbox(nw.data(), P.x, v, b, sb[0], sb[1], sb[2], ns[0], ns[1], ns[2]); vector<double> z = get(g, P.xi); for (int u = 0; u < N; u++) c.check(same_bits(z[u], xn[u]), "unknown %d is %.17g instead of %.17g after setting a sub-box", u, z[u], xn[u]); c.check(sn.bad().empty(), "%s was changed", sn.bad().c_str()); }
  if (how == 7) { put(g, P.xi, x); Preconditioner_I(P.r, P.x, P.c1, P.c2); vector<double> z = get(g, P.ri); for (int u = 0; u < N; u++) c.check(same_bits(z[u], x[u]), "the trivial preconditioner changes a value"); }
}

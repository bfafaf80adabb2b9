// C11: spectral interpolation reproduces grid data and resolved functions
#include "grid.h"
using namespace pbt;
static double pt(Case& c, const Dir& d, double* tolx) { // a point of the interval
  int k = c.i(0, 4);
  if (k == 0) return d.a; if (k == 1) return d.basis == "Fourier" ? d.a : d.b;
  if (k == 2) return (double) gpoint(d, c.i(0, d.n - 1));
  return d.a + (d.b - d.a) * c.u01();
}
static double off(const BoxSpec& s) { double o = 1; for (int k = 0; k < 3; k++) o = std::max(o, std::max(fabs(s.d[k].a), fabs(s.d[k].b)) / (s.d[k].b - s.d[k].a)); return o; }

PBT(resolved_functions, {.quick = 5000, .thorough = 120000}) {
  BoxSpec s; int big = c.i(0, 5);
  for (int k = 0; k < 3; k++) s.d[k] = gen_dir(c, 1, big == k ? 30 : 8, big != 3);
  F3 f = gen_f3(c, s, false);
  c.describe("%s f=%s", specstr(s).c_str(), f.str().c_str());
  tGrid* g = new_grid({s}, false); tBox* b = g->box[0]; int N = b->nnodes, n[3] = {b->n1, b->n2, b->n3};
  vector<double> u = tabulate(f, s), co(N), u0 = u; double m = f.mag();
  double ns = n[0] + n[1] + n[2], tol = 2e-14 * ns * ns * ns * m * off(s);
  spec_Coeffs(b, u.data(), co.data());
  if (maxabs(u) > 0 && (n[0] > 2) + (n[1] > 2) + (n[2] > 2) >= 2) c.nontrivial();
  for (int q = 0; q < 12; q++) {
    double X = pt(c, s.d[0], 0), Y = pt(c, s.d[1], 0), Z = pt(c, s.d[2], 0);
    double got = spec_interpolate(b, co.data(), X, Y, Z); ld want = f.val(X, Y, Z);
    c.check(near(got, (double) want, tol), "spec_interpolate(%.17g,%.17g,%.17g) = %.15g instead of %.15Lg (tol %g)", X, Y, Z, got, want, tol);
  }
  // in planes and along lines
  for (int q = 0; q < 3; q++) {
    int pn = c.i(1, 3), p = c.i(0, n[pn-1] - 1); double P[3] = {pt(c, s.d[0], 0), pt(c, s.d[1], 0), pt(c, s.d[2], 0)};
    P[pn-1] = (double) gpoint(s.d[pn-1], p);
    vector<double> pc(N, 1e99);
    spec_Coeffs_inplaneN(b, pn, p, u.data(), pc.data());
    double got = spec_interpolate_inplaneN(b, pn, p, pc.data(), P[pn == 1 ? 1 : 0], P[pn == 3 ? 1 : 2]); ld want = f.val(P[0], P[1], P[2]);
    c.check(near(got, (double) want, tol), "spec_interpolate_inplaneN(N=%d,p=%d) at %.17g %.17g %.17g = %.15g instead of %.15Lg", pn, p, P[0], P[1], P[2], got, want);
    int dir = c.i(1, 3), o1 = dir == 1 ? 1 : 0, o2 = dir == 3 ? 1 : 2, i1 = c.i(0, n[o1] - 1), i2 = c.i(0, n[o2] - 1);
    vector<double> lc(N); spec_analysis1(b, dir, u.data(), lc.data());
    P[o1] = (double) gpoint(s.d[o1], i1); P[o2] = (double) gpoint(s.d[o2], i2); P[dir-1] = pt(c, s.d[dir-1], 0);
    got = spec_interpolate_in_dir_at_i1_i2(b, dir, i1, i2, lc.data(), P[dir-1]); want = f.val(P[0], P[1], P[2]);
    c.check(near(got, (double) want, tol), "spec_interpolate_in_dir_at_i1_i2(dir=%d,%d,%d) at %.17g = %.15g instead of %.15Lg", dir, i1, i2, P[dir-1], got, want);
    // one row of the interpolation matrix
    vector<double> BM(n[dir-1] + 1, 7.25); spec_Basis_times_CoeffMatrix_direc(b, dir, BM.data(), P[dir-1]);
    c.check(BM[n[dir-1]] == 7.25, "spec_Basis_times_CoeffMatrix_direc wrote too much");
    double sum = 0; int st[3] = {1, n[0], n[0] * n[1]}; for (int j = 0; j < n[dir-1]; j++) sum += BM[j] * u[i1 * st[o1] + i2 * st[o2] + j * st[dir-1]];
    c.check(near(sum, (double) want, tol), "spec_Basis_times_CoeffMatrix_direc(dir=%d) at %.17g gives %.15g instead of %.15Lg", dir, P[dir-1], sum, want);
    vector<double> B2(n[dir-1]); void (*gc)(double*, double*, int) = dir == 1 ? b->get_coeffs1 : dir == 2 ? b->get_coeffs2 : b->get_coeffs3;
    double (*bf)(void*, double, double, int, int, double) = dir == 1 ? b->basis1 : dir == 2 ? b->basis2 : b->basis3;
    spec_Basis_times_CoeffMatrix(s.d[dir-1].a, s.d[dir-1].b, n[dir-1], B2.data(), P[dir-1], gc, bf);
    for (int j = 0; j < n[dir-1]; j++) c.check(near(B2[j], BM[j], 1e-12 * n[dir-1] * n[dir-1] * off(s)), "spec_Basis_times_CoeffMatrix and _direc differ");
  }
  c.check(u == u0, "interpolation changed the function");
}

// any data are reproduced on the grid points
PBT(grid_data, {.quick = 3000, .thorough = 80000}) {
  BoxSpec s; for (int k = 0; k < 3; k++) s.d[k] = gen_dir(c, 1, 10, true);
  c.describe("%s", specstr(s).c_str());
  tGrid* g = new_grid({s}, true); tBox* b = g->box[0]; int N = b->nnodes;
  vector<double> u(N), co(N); double sc = c.b(1, 3) ? c.logu(1e-20, 1e20) : 1; for (auto& v : u) v = sc * c.sym(1);
  if (b->n1 > 1 && b->n2 > 1 && b->n3 > 1) c.nontrivial();
  spec_Coeffs(b, u.data(), co.data());
  double *X = b->v[Ind((char*) "X")], *Y = b->v[Ind((char*) "Y")], *Z = b->v[Ind((char*) "Z")];
  double ns = b->n1 + b->n2 + b->n3, tol = 1e-13 * ns * ns * ns * off(s) * sc;
  for (int q = 0; q < N; q++) { double got = spec_interpolate(b, co.data(), X[q], Y[q], Z[q]); c.check(near(got, u[q], tol), "point %d: %.17g instead of %.17g", q, got, u[q]); }
  c.evals(N);
  // lists of variables
  int m = c.i(0, 3); tVarList *vu = vlalloc(g), *vc = vlalloc(g); vector<vector<double>> want; for (int k = 0; k < m; k++) { int iu = newvar(g, strf("lu%d", k).c_str()), ic = newvar(g, strf("lc%d", k).c_str()); vlpushone(vu, iu); vlpushone(vc, ic); enablevar(g, iu); enablevar(g, ic); auto r = rnd(c, N); std::copy(r.begin(), r.end(), b->v[iu]); vector<double> w(N); spec_Coeffs(b, r.data(), w.data()); want.push_back(w); }
  spec_Coeffs_varlist(b, vu, vc); for (int k = 0; k < m; k++) { size_t at; double e = maxdiff(b->v[vc->index[k]], want[k].data(), N, &at); c.check(e <= 1e-14, "coefficients of variable %d of a list of %d are off by %g", k, m, e); }
  vector<vector<double>> u0; for (int k = 0; k < m; k++) { u0.push_back(all_of(b, vu->index[k])); std::fill_n(b->v[vu->index[k]], N, 7.5); } spec_Eval_varlist(b, vu, vc); for (int k = 0; k < m; k++) { size_t at; double e = maxdiff(b->v[vu->index[k]], u0[k].data(), N, &at); c.check(e <= 1e-12 * ns * ns, "variable %d of a list of %d comes back with an error of %g", k, m, e); }
}

// interpolating from a grid to another one with different resolution
PBT(grid_to_grid, {.quick = 1500, .thorough = 40000}) {
  BoxSpec s[2], t[2]; int nb = c.i(1, 2);
  for (int q = 0; q < nb; q++) for (int k = 0; k < 3; k++) {
    s[q].d[k] = gen_dir(c, 2, 8, true); t[q].d[k] = s[q].d[k]; t[q].d[k].n = std::max(dmin(t[q].d[k].basis), c.i(2, 9)); s[q].d[k].n = std::min(s[q].d[k].n, 17);
  }
  c.describe("%s -> %s", specstr(s[0]).c_str(), specstr(t[0]).c_str());
  vector<BoxSpec> S(s, s + nb), T(t, t + nb);
  tGrid* g2 = new_grid(S, true);
  for (int q = 0; q < nb; q++) set_box_pars(q, T[q]);
  tGrid* g1 = make_grid(0);
  RunFun(PRE_COORDINATES, g1); RunFun(COORDINATES, g1);
  AddVar((char*) "tmp1", (char*) "", (char*) "t"); AddVar((char*) "tmp2", (char*) "", (char*) "t"); AddVar((char*) "tmp3", (char*) "", (char*) "t");
  int vi = Ind((char*) "tmp1"), ti = Ind((char*) "tmp2"), oi = Ind((char*) "tmp3");
  for (tGrid* g : {g1, g2}) { g->nvariables < oi + 1 ? realloc_gridvariables(g, oi + 1) : (void) 0; enablevar(g, vi); enablevar(g, ti); enablevar(g, oi); }
  vector<F3> f; double tol = 0;
  for (int q = 0; q < nb; q++) {
    f.push_back(gen_f3(c, s[q], false)); vector<double> u = tabulate(f[q], s[q]);
    std::copy(u.begin(), u.end(), g2->box[q]->v[vi]); double ns = 0; for (int k = 0; k < 3; k++) ns += s[q].d[k].n;
    for (int i = 0; i < g1->box[q]->nnodes; i++) g1->box[q]->v[oi][i] = i;
  }
  c.nontrivial();
  spec_interpolate_Var_from_grid2_to_grid1(g1, g2, vi, ti);
  for (int q = 0; q < nb; q++) {
    vector<double> w = tabulate(f[q], t[q]); double ns = 0; for (int k = 0; k < 3; k++) ns += s[q].d[k].n; tol = 2e-14 * ns * ns * ns * f[q].mag() * off(s[q]);
    for (size_t i = 0; i < w.size(); i++) c.check(near(g1->box[q]->v[vi][i], w[i], tol), "box %d point %zu: %.15g instead of %.15g", q, i, g1->box[q]->v[vi][i], w[i]);
    for (size_t i = 0; i < w.size(); i++) c.check(g1->box[q]->v[oi][i] == (double) i, "another variable was changed");
  }
}

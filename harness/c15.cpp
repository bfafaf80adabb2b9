// C15: coordinate maps, their inverses and their derivatives are mutually consistent
#include "coords.h"
using namespace pbt;
extern "C" { __attribute__((weak)) int r_dr_dlam_of_lamAB_CubSph(tBox*, int, double, double, double, double*, double*); }

// the map everybody would write down, for the systems that have a textbook form
static bool textbook(const Sys& y, const double* X, double* r) {
  const string& n = y.name; double s = 0;
  if (n == "Polar") { r[0] = X[0]*cos(X[1]); r[1] = X[0]*sin(X[1]); r[2] = X[2]; return true; }
  double R = X[0], th = 0, ph = X[2];
  if (n == "Spherical") th = X[1];
  else if (n == "SphericalDF" || n == "compactSphericalDF") { int N = y.s.d[1].n; th = X[1] + PIl / ((1 + N % 2) * N); if (n[0] == 'c') R = y.r0 + tan(0.5 * (double) PIl * X[0]); }
  else if (n == "Spherical2") th = acos(X[1]);
  else if (n == "Spherical3") th = (double) PIl / 2 * (1 - sinh(y.c3 * X[1]) / sinh(y.c3));
  else if (n == "tan_stretch") { for (int k = 0; k < 3; k++) r[k] = y.ts == 0 ? X[k] : tan(X[k] * y.ts * (double) PIl / 2) * 2 / ((double) PIl * y.ts); return true; }
  else if (n == "CubedSphere" || n == "stretchedCubedSphere") {
    double q = sqrt(1 + X[1]*X[1] + X[2]*X[2]), a0 = y.cs[0], a1 = y.cs[1], pm = y.dom % 2 ? 1 : -1, a;
    if (y.type == 2 || y.type == 4) a0 /= q;
    if (y.type == 3 || y.type == 4) a1 /= q;
    if (n[0] == 'C') a = a0 + (a1 - a0) * X[0];
    else { double L = y.cs[1] - y.cs[0]; a = y.cs[0] / (1 - X[0] * L / y.cs[1]) / q; }
    a *= pm; double A = X[1] * a, B = X[2] * a;
    int dir = y.dom / 2;
    if (dir == 0) { r[0] = a; r[1] = A; r[2] = B; } else if (dir == 1) { r[1] = a; r[0] = A; r[2] = B; } else { r[2] = a; r[1] = A; r[0] = B; }
    for (int k = 0; k < 3; k++) r[k] += y.xc[k]; return true; }
  else return false;
  (void) s; r[0] = R*sin(th)*cos(ph); r[1] = R*sin(th)*sin(ph); r[2] = R*cos(th); return true;
}

PBT(maps, {.quick = 5000, .thorough = 250000}) {
  Sys y = gen_sys(c, 4, 7); c.describe("%s", y.str().c_str()); c.label(y.name);
  std::map<string, string> p = y.pars; p["Coordinates_set_bfaces"] = "no"; bool stored = !c.b(1, 4); if (!stored) p["CoordinateTransforms_stored"] = "no";
  tGrid* g = new_grid({y.s}, true, p); tBox* b = g->box[0];
  c.check(b->x_of_X[1] && b->dX_dx[1][1], "no map for %s", y.name.c_str());
  int m = c.i(1, 4); bool dd = b->ddX_dxdx[1][1][1] != 0; if (dd) c.label("second derivatives");
  for (int q = 0; q < m; q++) {
    double X[3], h[3]; y.point(c, X); y.steps(X, h);
    string at = strf("%s at X=(%.17g,%.17g,%.17g)", y.name.c_str(), X[0], X[1], X[2]);
    double r[3], J[3][3], K[3][3], w[3]; for (int k = 0; k < 3; k++) r[k] = map(b, k, X);
    if (textbook(y, X, w)) { double sc = fabs(w[0]) + fabs(w[1]) + fabs(w[2]) + 1e-300 + fabs(y.xc[0]) + fabs(y.xc[1]) + fabs(y.xc[2]); for (int k = 0; k < 3; k++) c.check(near(r[k], w[k], 1e-12 * sc), "%s: x%d=%.17g, the definition of the coordinates gives %.17g", at.c_str(), k + 1, r[k], w[k]); }
    if (y.name == "CubedSphere" && r_dr_dlam_of_lamAB_CubSph) { double rad, drad, d2 = 0; r_dr_dlam_of_lamAB_CubSph(b, -1, X[0], X[1], X[2], &rad, &drad); for (int k = 0; k < 3; k++) d2 += (r[k] - y.xc[k]) * (r[k] - y.xc[k]); double e = fd8([&](const double* P) { double p, t; r_dr_dlam_of_lamAB_CubSph(b, -1, P[0], P[1], P[2], &p, &t); return p; }, X, 0, h[0]), sc = fabs(y.xc[0]) + fabs(y.xc[1]) + fabs(y.xc[2]) + rad;
      c.check(near(rad, sqrt(d2), 1e-12 * sc), "%s: the radius is given as %.15g, the map gives %.15g", at.c_str(), rad, sqrt(d2)); c.check(near(drad, e, 1e-7 * (fabs(drad) + sc)), "%s: dr/dlam is given as %.15g instead of %.15g", at.c_str(), drad, e); }
    jac(b, X, h, J); double cond = inverse3(J, K); if (!(cond < 1e6)) { c.label("ill conditioned"); continue; }
    c.nontrivial(); double kn = norm3(K), jn = norm3(J);
    for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) {
      double v = b->dX_dx[i+1][k+1](b, -1, X[0], X[1], X[2]);
      c.check(near(v, K[i][k], y.tol * cond * kn), "%s: dX%d/dx%d=%.15g, the inverse of the Jacobian of the map gives %.15g", at.c_str(), i + 1, k + 1, v, K[i][k]);
      if (b->dx_dX[1][1]) { double u = b->dx_dX[i+1][k+1](b, -1, X[0], X[1], X[2]); c.check(near(u, J[i][k], y.tol * jn), "%s: dx%d/dX%d=%.15g, the map gives %.15g", at.c_str(), i + 1, k + 1, u, J[i][k]); }
    }
    if (dd || b->ddX_dxdx[3][1][1]) for (int i = 0; i < 3; i++) {
      if (!b->ddX_dxdx[i+1][1][1]) continue;
      double D[3][3]; // D[m][l] = d/dX_l of dX_i/dx_m
      for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) D[k][l] = fd8([&](const double* P) { return b->dX_dx[i+1][k+1](b, -1, P[0], P[1], P[2]); }, X, l, h[l]);
      double dn = norm3(D) * kn;
      for (int k = 0; k < 3; k++) for (int n = k; n < 3; n++) {
        double e1 = 0, e2 = 0; for (int l = 0; l < 3; l++) { e1 += D[k][l] * K[l][n]; e2 += D[n][l] * K[l][k]; }
        double v = b->ddX_dxdx[i+1][k+1][n+1](b, -1, X[0], X[1], X[2]), tol = 10 * y.tol * cond * (dn + kn * kn / y.size());
        c.check(near(v, e1, tol) && near(v, e2, tol), "%s: ddX%d/dx%ddx%d=%.15g, differentiating dX%d/dx%d gives %.15g and dX%d/dx%d gives %.15g (tolerance %g)", at.c_str(), i+1, k+1, n+1, v, i+1, k+1, e1, i+1, n+1, e2, tol);
      }
    }
    // the analytic inverse, where there is one
    if (b->XYZ_Of_xyz) { double Y[3] = {0, 0, 0}; int st = b->XYZ_Of_xyz(b, -1, r[0], r[1], r[2], Y, Y + 1, Y + 2);
      c.check(st == 0, "%s: the inverse map reports %d for a point of the box", at.c_str(), st);
      for (int k = 0; k < 3; k++) c.check(near(Y[k], X[k], 1e-11 * cond * (1 + kn * (fabs(r[0]) + fabs(r[1]) + fabs(r[2]))) ), "%s: the inverse map returns X%d=%.17g", at.c_str(), k + 1, Y[k]); }
  }
  // what is stored at the grid points is what the functions say
  double *XX = b->v[Ind("X")], *YY = b->v[Ind("Y")], *ZZ = b->v[Ind("Z")]; int d1[3] = {Ind("dXdx"), Ind("dYdx"), Ind("dZdx")}, d2[3] = {Ind("ddXddxx"), Ind("ddYddxx"), Ind("ddZddxx")}, ix = Ind("x");
  for (int k = 0; k < 3; k++) { c.check((b->v[d1[k]] != 0) == stored, "storage of first derivatives"); c.check((b->v[d2[k]] != 0) == (stored && dd), "storage of second derivatives"); }
  for (int q = 0; q < b->nnodes; q++) {
    double X[3] = {XX[q], YY[q], ZZ[q]}; c.evals(1);
    for (int k = 0; k < 3; k++) { double v = b->x_of_X[k+1](b, q, X[0], X[1], X[2]); c.check(near(b->v[ix + k][q], v, 1e-13 * (1 + fabs(v))), "%s: stored x%d at point %d is %.17g instead of %.17g", y.name.c_str(), k + 1, q, b->v[ix + k][q], v);
      if (y.interior(X)) c.check(near(v, map(b, k, X), 1e-12 * (fabs(v) + y.size())), "%s: x%d depends on the point index", y.name.c_str(), k + 1); }
    if (!stored || !y.interior(X)) continue;
    for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) { double v = b->dX_dx[i+1][k+1](b, -1, X[0], X[1], X[2]), u = b->v[d1[i] + k][q]; c.check(near(u, v, 1e-10 * (fabs(v) + fabs(u)) + 1e-11 / y.size()), "%s: stored dX%d/dx%d at (%.17g,%.17g,%.17g) is %.17g, the function gives %.17g", y.name.c_str(), i+1, k+1, X[0], X[1], X[2], u, v); }
    if (dd) for (int i = 0; i < 3; i++) { int t = 0; for (int k = 0; k < 3; k++) for (int n = k; n < 3; n++, t++) { double v = b->ddX_dxdx[i+1][k+1][n+1](b, -1, X[0], X[1], X[2]), u = b->v[d2[i] + t][q]; c.check(near(u, v, 1e-9 * (fabs(v) + fabs(u)) + 1e-8 / y.size() / y.size()), "%s: stored ddX%d/dx%ddx%d at (%.17g,%.17g,%.17g) is %.17g, the function gives %.17g", y.name.c_str(), i+1, k+1, n+1, X[0], X[1], X[2], u, v); } }
  }
}

// Cartesian derivatives of resolved functions
PBT(derivs, {.quick = 450, .thorough = 30000, .cpu_s = 60}) {
  Sys y = gen_sys(c, 13, 16, true); 
  std::map<string, string> p = y.pars; p["Coordinates_set_bfaces"] = "no"; bool stored = !c.b(1, 3); if (!stored) p["CoordinateTransforms_stored"] = "no";
  bool generic = stored && y.s.d[2].basis != "Fourier" && (y.name == "Polar" || y.name == "CubedSphere" || y.name == "stretchedCubedSphere") && c.b(1, 2);
  if (generic) p["box0_CoordinateTransforms_generic"] = "dXdx ddXdxdx";
  const char* useDD = c.pickl<const char*>({"no", "yes"}); p["Coordinates_useDD"] = useDD;
  F3 f = gen_low(c, y.s), f2 = gen_low(c, y.s);
  int rank = c.i(0, 2);
  c.describe("%s rank %d stored=%d generic=%d useDD=%s u=%s", y.str().c_str(), rank, stored, generic, useDD, f.str().c_str()); c.label(y.name); c.label(strf("rank %d", rank));
  tGrid* g = new_grid({y.s}, false, p); tBox* b = g->box[0]; int N = b->nnodes;
  for (int k = 1; k < 4; k++) AddVarToGrid(g, (char*) strf("temp%d", k).c_str(), (char*) "", (char*) "provided by physics modules");
  RunFun(PRE_COORDINATES, g); RunFun(COORDINATES, g);
  int nc = rank == 0 ? 1 : rank == 1 ? 3 : 6; double ca[6], cb[6]; for (int k = 0; k < nc; k++) { ca[k] = c.sym(2); cb[k] = c.sym(2); }
  vector<double> t1 = tabulate(f, y.s), t2 = tabulate(f2, y.s);
  const char* ti[3] = {"", "i", "(ij)"}; const char* tj[3] = {"i", "ij", "(ij)k"}; const char* tk[3] = {"(ij)", "i(jk)", "(ij)(kl)"};
  int iS = newvar(g, "hS", ti[rank]), id = newvar(g, "hdS", tj[rank]), idd = newvar(g, "hddS", tk[rank]);
  for (int k = 0; k < nc; k++) for (int q = 0; q < N; q++) b->v[iS + k][q] = ca[k] * t1[q] + cb[k] * t2[q];
  bool DD = b->ddX_dxdx[1][1][1] != 0 || y.name == "Cartesian"; int how = c.i(0, 5); if (y.norepeat && (how == 1 || how == 3)) how = 2; if (!DD && (how == 2 || how == 5 || (how == 3 && !strcmp(useDD, "yes")))) how = 1;
  // D_and_DD_of_* with useDD=no repeats first derivatives, otherwise it uses second derivatives of the map
  auto both = [&](int h) {
    if (rank == 0) { if (h == 0) FirstDerivsOf_S(b, iS, id); if (h == 1) FirstAndSecondDerivsOf_S(b, iS, id, idd); if (h == 2) allDerivsOf_S(b, iS, id, idd); if (h == 3) D_and_DD_of_S(b, iS, id, idd); }
    if (rank == 1) { if (h == 0) FirstDerivsOf_Sa(b, iS, id); if (h == 1) FirstAndSecondDerivsOf_Sa(b, iS, id, idd); if (h == 2) allDerivsOf_Sa(b, iS, id, idd); if (h == 3) D_and_DD_of_Sa(b, iS, id, idd); }
    if (rank == 2) { if (h == 0) FirstDerivsOf_Sab(b, iS, id); if (h == 1) FirstAndSecondDerivsOf_Sab(b, iS, id, idd); if (h == 2) allDerivsOf_Sab(b, iS, id, idd); if (h == 3) D_and_DD_of_Sab(b, iS, id, idd); } };
  vector<vector<double>> S0; for (int k = 0; k < nc; k++) S0.push_back(all_of(b, iS + k));
  bool second = true;
  if (how <= 3) { both(how); second = how != 0; }
  else { second = how == 5; for (int k = 0; k < nc; k++) { double** v = b->v; if (how == 4) cart_partials(b, v[iS+k], v[id+3*k], v[id+3*k+1], v[id+3*k+2]); else cart_partial_all(b, v[iS+k], v[id+3*k], v[id+3*k+1], v[id+3*k+2], v[idd+6*k], v[idd+6*k+1], v[idd+6*k+2], v[idd+6*k+3], v[idd+6*k+4], v[idd+6*k+5]); } }
  c.label(strf("how %d", how));
  for (int k = 0; k < nc; k++) c.check(S0[k] == all_of(b, iS + k), "the function was changed");
  double *XX = b->v[Ind("X")], *YY = b->v[Ind("Y")], *ZZ = b->v[Ind("Z")];
  int pts = c.i(3, 12); double worst1 = 0, worst2 = 0;
  for (int t = 0; t < pts; t++) {
    int q = c.i(0, N - 1); double X[3] = {XX[q], YY[q], ZZ[q]}, h[3]; if (!y.interior(X)) continue;
    y.steps(X, h); double J[3][3], K[3][3], H[3][3][3]; jac(b, X, h, J); double cond = inverse3(J, K); if (!(cond < 1e4)) continue;
    c.nontrivial(); c.evals(1);
    if (second) hess(b, X, h, H);
    for (int k = 0; k < nc; k++) {
      double u1[3], u2[3][3], sc1 = 0, sc2 = 0;
      auto U = [&](int a, int bb, int cc) { return (double) (ca[k] * f.val(X[0], X[1], X[2], a, bb, cc) + cb[k] * f2.val(X[0], X[1], X[2], a, bb, cc)); };
      u1[0] = U(1,0,0); u1[1] = U(0,1,0); u1[2] = U(0,0,1); u2[0][0] = U(2,0,0); u2[1][1] = U(0,2,0); u2[2][2] = U(0,0,2); u2[0][1] = u2[1][0] = U(1,1,0); u2[0][2] = u2[2][0] = U(1,0,1); u2[1][2] = u2[2][1] = U(0,1,1);
      double mag = (fabs(ca[k]) * (double) f.mag() + fabs(cb[k]) * (double) f2.mag());
      double L[3]; for (int d = 0; d < 3; d++) L[d] = (y.s.d[d].b - y.s.d[d].a) / 8;
      for (int m = 0; m < 3; m++) { for (int i = 0; i < 3; i++) sc1 = std::max(sc1, fabs(K[i][m]) * mag / L[i]); for (int n = 0; n < 3; n++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sc2 = std::max(sc2, fabs(K[i][m] * K[j][n]) * mag / L[i] / L[j]); }
      double ex[3];
      for (int m = 0; m < 3; m++) { ex[m] = 0; for (int i = 0; i < 3; i++) ex[m] += K[i][m] * u1[i];
        double v = b->v[id + 3 * k + m][q]; worst1 = std::max(worst1, fabs(v - ex[m]) / sc1);
        c.check(near(v, ex[m], y.tol1(generic) * sc1), "component %d: derivative %d at X=(%.17g,%.17g,%.17g) is %.15g instead of %.15g (scale %g)", k, m + 1, X[0], X[1], X[2], v, ex[m], sc1); }
      if (second) { int w = 0; for (int m = 0; m < 3; m++) for (int n = m; n < 3; n++, w++) {
        double e = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) e += K[i][m] * K[j][n] * u2[i][j];
        for (int a = 0; a < 3; a++) { double s = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) s += K[i][m] * K[j][n] * H[a][i][j]; e -= s * ex[a]; sc2 = std::max(sc2, fabs(s * ex[a])); }
        double v = b->v[idd + 6 * k + w][q]; worst2 = std::max(worst2, fabs(v - e) / sc2);
        c.check(near(v, e, y.tol2(generic, how == 1 || (how == 3 && !strcmp(useDD, "no"))) * sc2), "component %d: derivative %d%d at X=(%.17g,%.17g,%.17g) is %.15g instead of %.15g (scale %g)", k, m + 1, n + 1, X[0], X[1], X[2], v, e, sc2); } }
    }
  }
  if (getenv("C15_STAT")) { FILE* o = fopen("/tmp/try/stat", "a"); fprintf(o, "STAT %s how=%d gen=%d %g %g\n", y.name.c_str(), how == 3 ? (strcmp(useDD, "no") ? 2 : 1) : how, generic, worst1, worst2); fclose(o); }
}

// the matrix helpers used to turn one set of derivatives into another
PBT(transf, {.quick = 20000, .thorough = 1000000}) {
  double M[4][4], A[4][4], R[4][4], P[4][4], T[3][4][4], E[4][4][4], O[4][4][4], V[4][4][4];
  for (auto& r : M) for (double& x : r) x = c.sym(3);
  for (auto& r : A) for (double& x : r) x = c.sym(3);
  (void) T;
  double det = 0; int pm[6][4] = {{1,2,3,1},{2,3,1,1},{3,1,2,1},{1,3,2,-1},{2,1,3,-1},{3,2,1,-1}}; for (auto& q : pm) det += q[3] * M[1][q[0]] * M[2][q[1]] * M[3][q[2]];
  if (fabs(det) < 1e-3) c.discard();
  c.nontrivial(); c.describe("det=%g", det);
  c.check(near(DetOf3Dmatrix(M), det, 1e-12 * 100), "determinant %.15g instead of %.15g", DetOf3Dmatrix(M), det);
  double cond = 1e3 / fabs(det);
  int w = c.i(0, 2); for (auto& r : R) for (double& x : r) x = 7;
  if (w == 0) dXdx_from_dxdX(R, M); else if (w == 1) dxdX_from_dXdx(R, M); else inverse3Dmatrix_from_3Dmatrix(R, M);
  product_of_3Dmatrices(P, R, M);
  for (int i = 1; i < 4; i++) for (int j = 1; j < 4; j++) { double s = 0; for (int k = 1; k < 4; k++) s += M[i][k] * R[k][j]; c.check(near(s, i == j, 1e-13 * cond) && near(P[i][j], i == j, 1e-13 * cond), "inverse times matrix is not one: %d %d %.15g %.15g", i, j, s, P[i][j]); }
  double Tr[4][4]; transpose3Dmatrix_from_3Dmatrix(Tr, M);
  for (int i = 1; i < 4; i++) for (int j = 1; j < 4; j++) c.check(Tr[i][j] == M[j][i], "transpose %d %d", i, j);
  product_of_3Dmatrices(P, M, A); double Q[4][4]; dxdX_from_dxdU_dUdX(Q, M, A);
  for (int i = 1; i < 4; i++) for (int j = 1; j < 4; j++) { double s = 0; for (int k = 1; k < 4; k++) s += M[i][k] * A[k][j]; c.check(near(P[i][j], s, 1e-12) && near(Q[i][j], s, 1e-12), "product %d %d", i, j); }
  // second derivatives: quadratic maps composed at a point; x=f(U), U=g(X)
  double F[4][4][4], G[4][4][4]; for (int i = 1; i < 4; i++) for (int j = 1; j < 4; j++) for (int k = j; k < 4; k++) { F[i][j][k] = F[i][k][j] = c.sym(2); G[i][j][k] = G[i][k][j] = c.sym(2); }
  // only the upper half is to be used
  double F2[4][4][4], G2[4][4][4]; memcpy(F2, F, sizeof F); memcpy(G2, G, sizeof G); for (int i = 1; i < 4; i++) for (int j = 1; j < 4; j++) for (int k = 1; k < j; k++) F2[i][j][k] = G2[i][j][k] = NAN;
  ddxdXdX_from_dxdU_dUdX_ddxdUdU_ddUdXdX(E, M, A, F2, G2);
  for (int i = 1; i < 4; i++) for (int m = 1; m < 4; m++) for (int n = m; n < 4; n++) { double s = 0; for (int j = 1; j < 4; j++) { s += M[i][j] * G[j][m][n]; for (int k = 1; k < 4; k++) s += A[j][m] * A[k][n] * F[i][j][k]; } c.check(near(E[i][m][n], s, 1e-11), "second derivative of a composition %d %d%d: %.15g instead of %.15g", i, m, n, E[i][m][n], s); }
  // inverse map: dX/dx = R, ddx/dXdX = F  =>  composition with ddX/dxdx has no second derivative
  dXdx_from_dxdX(R, M); ddXdxdx_from_dXdx_ddxdXdX(O, R, F2);
  for (int i = 1; i < 4; i++) for (int j = 1; j < 4; j++) for (int k = 1; k < 4; k++) V[i][j][k] = O[i][std::min(j, k)][std::max(j, k)];
  for (int i = 1; i < 4; i++) for (int m = 1; m < 4; m++) for (int n = m; n < 4; n++) { double s = 0, sc = 1; for (int j = 1; j < 4; j++) { s += R[i][j] * F[j][m][n]; sc += fabs(R[i][j] * F[j][m][n]); for (int k = 1; k < 4; k++) { s += M[j][m] * M[k][n] * V[i][j][k]; sc += fabs(M[j][m] * M[k][n] * V[i][j][k]); } }
    c.check(near(s, 0, 1e-12 * cond * sc), "second derivatives of the inverse map %d %d%d: %.15g should vanish (scale %g)", i, m, n, s, sc); }
}

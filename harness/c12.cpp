// C12: spectral integrals are exact for resolved integrands
#include "grid.h"
using namespace pbt;
extern "C" void spec_definiteInt1(tBox*, int, double, double, double*, double*);
static ld full(const F1& f) { return f.integral(f.a, f.b); }
static double off(const BoxSpec& s) { double o = 1; for (int k = 0; k < 3; k++) o = std::max(o, std::max(fabs(s.d[k].a), fabs(s.d[k].b)) / (s.d[k].b - s.d[k].a)); return o; }

PBT(definite, {.quick = 4000, .thorough = 100000}) {
  BoxSpec s; int big = c.i(0, 5);
  for (int k = 0; k < 3; k++) s.d[k] = gen_dir(c, 1, big == k ? 30 : 8, big != 3);
  F3 f = gen_f3(c, s, true);
  c.describe("%s f=%s", specstr(s).c_str(), f.str().c_str());
  tGrid* g = new_grid({s}, true, {{"Coordinates_set_bfaces", "no"}}); tBox* b = g->box[0]; int N = b->nnodes, n[3] = {b->n1, b->n2, b->n3};
  vector<double> u = tabulate(f, s), u0 = u, U(N); double m = f.mag(), L[3], ns = n[0] + n[1] + n[2];
  for (int k = 0; k < 3; k++) L[k] = s.d[k].b - s.d[k].a;
  double tol = 1e-14 * ns * ns * m * off(s) + 1e-300;
  if (maxabs(u) > 0 && (n[0] > 1) + (n[1] > 1) + (n[2] > 1) >= 2) c.nontrivial();
  size_t R = f.f[0].size();
  for (int d = 0; d < 3; d++) { // integral along one direction, in every point of the line
    if (c.b(1, 4)) { U = u; spec_Integral1(b, d + 1, U.data(), U.data()); }
    else { U.assign(N, 4.5); spec_Integral1(b, d + 1, u.data(), U.data()); c.check(u == u0, "spec_Integral1 changed its argument"); }
    for (int q = 0; q < N; q++) {
      int ii[3] = {q % n[0], (q / n[0]) % n[1], q / (n[0] * n[1])}; ld w = 0;
      for (size_t r = 0; r < R; r++) { ld p = 1; for (int k = 0; k < 3; k++) p *= k == d ? full(f.f[k][r]) : f.f[k][r].val(gpoint(s.d[k], ii[k]), 0); w += p; }
      c.check(near(U[q], (double) w, tol * L[d]), "spec_Integral1 direction %d at %d: %.15g instead of %.15Lg", d + 1, q, U[q], w);
    }
    U.assign(N, 4.5); spec_2dIntegral(b, d + 1, u.data(), U.data());
    for (int q = 0; q < N; q++) {
      int ii[3] = {q % n[0], (q / n[0]) % n[1], q / (n[0] * n[1])}; ld w = 0;
      for (size_t r = 0; r < R; r++) { ld p = 1; for (int k = 0; k < 3; k++) p *= k != d ? full(f.f[k][r]) : f.f[k][r].val(gpoint(s.d[k], ii[k]), 0); w += p; }
      c.check(near(U[q], (double) w, tol * L[(d+1)%3] * L[(d+2)%3]), "spec_2dIntegral normal %d at %d: %.15g instead of %.15Lg", d + 1, q, U[q], w);
    }
  }
  ld w = 0; for (size_t r = 0; r < R; r++) w += full(f.f[0][r]) * full(f.f[1][r]) * full(f.f[2][r]);
  double V = L[0] * L[1] * L[2];
  double got = spec_3dIntegral(b, u.data(), U.data());
  c.check(near(got, (double) w, tol * V), "spec_3dIntegral: %.15g instead of %.15Lg", got, w);
  for (int q = 0; q < N; q++) c.check(near(U[q], (double) w, tol * V), "spec_3dIntegral: point %d has %.15g instead of %.15Lg", q, U[q], w);
  int vi = newvar(g, "fu"); std::copy(u.begin(), u.end(), b->v[vi]);
  got = BoxVolumeIntegral(b, vi); c.check(near(got, (double) w, tol * V), "BoxVolumeIntegral: %.15g instead of %.15Lg", got, w);
  c.check(near(GridVolumeIntegral(g, vi), (double) w, tol * V), "GridVolumeIntegral differs");
  for (int q = 0; q < N; q++) c.check(b->v[vi][q] == u[q], "BoxVolumeIntegral changed the variable");
  // surface integral with a flat or a constant physical metric
  double G[3][3], A[3][3]; for (auto& r : A) for (double& x : r) x = c.sym(1);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { G[i][j] = i == j; for (int k = 0; k < 3; k++) G[i][j] += A[k][i] * A[k][j]; }
  AddVarToGrid(g, (char*) "gm", (char*) "ij+ji", (char*) "metric"); int ig = Ind((char*) "gmxx"); enablevar(g, ig);
  for (int q = 0; q < N; q++) { int k = 0; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) b->v[ig + k++][q] = G[i][j]; }
  for (int d = 0; d < 3; d++) for (int useg = 0; useg < 2; useg++) {
    int p = (d + 1) % 3, q2 = (d + 2) % 3; double area = useg ? sqrt(fabs(G[p][p] * G[q2][q2] - G[p][q2] * G[q2][p])) : 1;
    U.assign(N, 4.5); spec_SurfaceIntegral(b, useg ? ig : -1, d + 1, u.data(), U.data());
    for (int q = 0; q < N; q++) {
      int ii[3] = {q % n[0], (q / n[0]) % n[1], q / (n[0] * n[1])}; ld w2 = 0;
      for (size_t r = 0; r < R; r++) { ld t = area; for (int k = 0; k < 3; k++) t *= k != d ? full(f.f[k][r]) : f.f[k][r].val(gpoint(s.d[k], ii[k]), 0); w2 += t; }
      c.check(near(U[q], (double) w2, 4 * tol * L[p] * L[q2] * (1 + area)), "spec_SurfaceIntegral normal %d metric %d at %d: %.15g instead of %.15Lg", d + 1, useg, q, U[q], w2);
    }
  }
}

PBT(indefinite, {.quick = 3000, .thorough = 80000}) {
  BoxSpec s; int big = c.i(0, 5);
  for (int k = 0; k < 3; k++) s.d[k] = gen_dir(c, 2, big == k ? 30 : 8, big != 3);
  F3 f = gen_f3(c, s, false, 1);
  c.describe("%s f=%s", specstr(s).c_str(), f.str().c_str());
  tGrid* g = new_grid({s}, false); tBox* b = g->box[0]; int N = b->nnodes, n[3] = {b->n1, b->n2, b->n3};
  vector<double> u = tabulate(f, s), u0 = u, U(N, 4.5), W(N, 4.5); double m = f.mag(), ns = n[0] + n[1] + n[2];
  int d = c.i(0, 2); double L = s.d[d].b - s.d[d].a, tol = 1e-14 * ns * ns * ns * m * off(s) * L + 1e-300; size_t R = f.f[0].size();
  if (maxabs(u) > 0) c.nontrivial(); c.label(s.d[d].basis);
  spec_Int1(b, d + 1, u.data(), U.data()); c.check(u == u0, "spec_Int1 changed its argument");
  double ra = s.d[d].a + L * c.u01(), rb = s.d[d].a + L * c.u01();
  bool four = s.d[d].basis == "Fourier";
  if (!four) spec_definiteInt1(b, d + 1, ra, rb, u.data(), W.data());
  int st[3] = {1, n[0], n[0] * n[1]};
  for (int q = 0; q < N; q++) {
    int ii[3] = {q % n[0], (q / n[0]) % n[1], q / (n[0] * n[1])}; int q0 = q - ii[d] * st[d]; ld w = 0, w2 = 0;
    // the integration constant is arbitrary: differences between points are integrals
    ld X0 = gpoint(s.d[d], 0), X1 = gpoint(s.d[d], ii[d]);
    for (size_t r = 0; r < R; r++) { ld p = f.f[d][r].integral(X0, X1), p2 = f.f[d][r].integral(ra, rb); for (int k = 0; k < 3; k++) if (k != d) { ld v = f.f[k][r].val(gpoint(s.d[k], ii[k]), 0); p *= v; p2 *= v; } w += p; w2 += p2; }
    double got = U[q] - U[q0];
    c.check(near(got, (double) w, tol), "spec_Int1 direction %d at %d: %.15g instead of %.15Lg", d + 1, q, got, w);
    if (!four) c.check(near(W[q], (double) w2, tol), "spec_definiteInt1 direction %d from %.17g to %.17g at %d: %.15g instead of %.15Lg", d + 1, ra, rb, q, W[q], w2);
  }
}

// volume integrals with the Jacobian of the coordinates
PBT(volume_with_jacobian, {.quick = 1500, .thorough = 30000}) {
  BoxSpec s; string co = c.pickl<const char*>({"Polar", "Spherical3", "SphericalDF", "PolarCE"});
  co = "Polar"; s.coord = co;
  double r0 = c.u(0.2, 2), r1 = r0 + c.u(0.2, 3), z0 = c.sym(2), z1 = z0 + c.u(0.2, 3);
  s.d[0] = {c.i(6, 12), r0, r1, c.b() ? "ChebExtrema" : "ChebZeros", "64 NUMREC_FFT"};
  s.d[1] = {c.i(6, 13), 0, 2 * PI, "Fourier", "64 NUMREC_FFT"};
  s.d[2] = {c.i(5, 9), z0, z1, "ChebExtrema", "64 NUMREC_FFT"};
  c.describe("%s", specstr(s).c_str()); c.nontrivial();
  tGrid* g = new_grid({s}, true, {{"Coordinates_set_bfaces", "no"}}); tBox* b = g->box[0]; int N = b->nnodes;
  int vi = newvar(g, "fu");
  double *x = b->v[Ind((char*) "x")], *y = b->v[Ind((char*) "y")], *z = b->v[Ind((char*) "z")];
  double al[6]; for (double& v : al) v = c.sym(1);
  for (int q = 0; q < N; q++) b->v[vi][q] = al[0] + al[1] * x[q] * x[q] + al[2] * y[q] * y[q] * z[q] + al[3] * x[q] * y[q] + al[4] * z[q] * z[q] + al[5] * x[q];
  double V = PI * (r1 * r1 - r0 * r0) * (z1 - z0), M2 = PI / 4 * (pow(r1, 4) - pow(r0, 4)), Z1 = (z1 * z1 - z0 * z0) / 2, Z2 = (z1 * z1 * z1 - z0 * z0 * z0) / 3;
  double want = al[0] * V + al[1] * M2 * (z1 - z0) + al[2] * M2 * Z1 + al[4] * PI * (r1 * r1 - r0 * r0) * Z2, got = BoxVolumeIntegral(b, vi);
  c.check(near(got, want, 1e-11 * (1 + V) * 200), "%s volume integral: %.15g instead of %.15g", co.c_str(), got, want);
  // lateral surface at the outer radius
  vector<double> U(N); spec_SurfaceIntegral(b, -1, 1, b->v[vi], U.data());
  if (s.d[0].basis == "ChebExtrema") for (int i : {0, s.d[0].n - 1}) {
    double r = i ? r1 : r0; want = 2 * PI * r * ((z1 - z0) * (al[0] + al[1] * r * r / 2) + al[2] * r * r / 2 * Z1 + al[4] * Z2);
    c.check(near(U[i], want, 1e-10 * (1 + r * r * r) * 50), "surface integral at r=%g: %.15g instead of %.15g", r, U[i], want);
  }
}

// sphericalDF: double-covered sphere, integrates u sin(theta) r^2
PBT(sphericalDF, {.quick = 1200, .thorough = 30000}) {
  BoxSpec s; s.coord = "SphericalDF"; int n2 = c.i(4, 20), n3 = c.i(1, 12);
  double r0 = c.u(0.3, 2), r1 = r0 + c.u(0.2, 3);
  s.d[0] = {c.i(4, 9), r0, r1, "ChebExtrema", "64 NUMREC_FFT"}; s.d[1] = {n2, 0, 2 * PI, "Fourier", "64 NUMREC_FFT"}; s.d[2] = {n3, 0, 2 * PI, "Fourier", "64 NUMREC_FFT"};
  tGrid* g = new_grid({s}, true, {{"Coordinates_set_bfaces", "no"}}); tBox* b = g->box[0]; int N = b->nnodes, n1 = b->n1;
  // u = R(r) * sum_j (a_j cos(j theta) + b_j sin(j theta)), j below the resolution
  int top = (n2 - 1) / 2; vector<double> A(top + 1), B(top + 1); for (auto& v : A) v = c.b() ? c.sym(1) : 0; for (auto& v : B) v = c.b() ? c.sym(1) : 0;
  double p0 = c.sym(1), p1 = c.sym(1), q1 = n3 > 2 ? c.sym(1) : 0; vector<double> u(N), U(N), W(N, 4.5);
  c.describe("%s top=%d", specstr(s).c_str(), top); c.nontrivial(); c.label(n2 % 2 ? "odd" : n2 % 4 ? "2 mod 4" : "0 mod 4");
  ld I = 0; for (int j = 0; j <= top; j++) { // int_0^pi cos(j t) sin t = 2/(1-j^2) for even j;  int sin(j t) sin t = pi/2 for j=1
    if (j % 2 == 0) I += A[j] * 2.0L / (1 - j * j); if (j == 1) I += B[j] * PIl / 2; }
  double add = 1.0 / ((1 + n2 % 2) * n2) * PI;
  for (int q = 0; q < N; q++) {
    double r = (double) gpoint(s.d[0], q % n1), th = (double) gpoint(s.d[1], (q / n1) % n2) + add, ph = (double) gpoint(s.d[2], q / (n1 * n2)); double a = 0;
    for (int j = 0; j <= top; j++) a += A[j] * cos(j * th) + B[j] * sin(j * th);
    u[q] = (p0 + p1 * r) * a * (1 + q1 * cos(ph));
  }
  double m = (fabs(p0) + fabs(p1) * r1) * (top + 1) * 4 * r1 * r1 * 10, tol = 1e-13 * (n2 + n3 + n1) * m;
  spec_sphericalDF2dIntegral(b, u.data(), U.data());
  for (int q = 0; q < N; q++) { double r = (double) gpoint(s.d[0], q % n1), want = (double) (2 * PIl * I) * (p0 + p1 * r) * r * r; c.check(near(U[q], want, tol), "2d integral at r=%g: %.15g instead of %.15g", r, U[q], want); }
  int i0 = c.i(0, n1 - 1); spec_sphericalDF2dIntegral_at_radial_index_i(b, u.data(), W.data(), i0);
  for (int q = 0; q < N; q++) if (q % n1 == i0) c.check(near(W[q], U[q], tol), "2d integral at radial index %d: %.15g instead of %.15g", i0, W[q], U[q]);
  double got = spec_sphericalDF3dIntegral(b, u.data(), W.data());
  double want = (double) (2 * PIl * I) * (p0 * (pow(r1, 3) - pow(r0, 3)) / 3 + p1 * (pow(r1, 4) - pow(r0, 4)) / 4);
  c.check(near(got, want, tol * 10 * r1), "3d integral: %.15g instead of %.15g", got, want);
}

// coords.h: random boxes in every coordinate system, finite differences of their maps
#pragma once
#include "grid.h"
extern "C" {
void dXdx_from_dxdX(double dXdx[4][4], double dxdX[4][4]); void dxdX_from_dXdx(double dxdX[4][4], double dXdx[4][4]);
void inverse3Dmatrix_from_3Dmatrix(double invM[4][4], double M[4][4]); void transpose3Dmatrix_from_3Dmatrix(double t[4][4], double M[4][4]);
double DetOf3Dmatrix(double M[4][4]); void product_of_3Dmatrices(double M[4][4], double A[4][4], double B[4][4]);
void ddXdxdx_from_dXdx_ddxdXdX(double a[4][4][4], double b[4][4], double c[4][4][4]); void dxdX_from_dxdU_dUdX(double a[4][4], double b[4][4], double c[4][4]);
void ddxdXdX_from_dxdU_dUdX_ddxdUdU_ddUdXdX(double a[4][4][4], double b[4][4], double c[4][4], double d[4][4][4], double e[4][4][4]);
}
struct Sys {
  string name; BoxSpec s; std::map<string, string> pars; double r0 = 0, c3 = 5, ts = 0, cs[2] = {0, 0}, xc[3] = {0, 0, 0}; int dom = 0, type = 0;
  double tol = 1e-10; double sa[3], sb[3], scale[3]; // singular points of the map below and above, and the length on which it varies
  double per = 0; // the second coordinate is singular at per*k - off
  double off = 0;
  double rep = 1e-5; // accuracy of repeated derivatives
  bool norepeat = false;
  double dist(int k, double X) const { double d = scale[k]; d = std::min(d, X - sa[k]); d = std::min(d, sb[k] - X); if (k == 1 && per) { double t = fabs(remainder(X + off, per)); d = std::min(d, t); } return d; }
  bool interior(const double* X) const { for (int k = 0; k < 3; k++) if (!(dist(k, X[k]) > 0.03 * scale[k])) return false; return true; }
  void steps(const double* X, double* h) const { for (int k = 0; k < 3; k++) h[k] = 0.02 * dist(k, X[k]); }
  void point(pbt::Case& c, double* X) const { for (int t = 0; t < 100; t++) { for (int k = 0; k < 3; k++) X[k] = s.d[k].a + (s.d[k].b - s.d[k].a) * c.u01(); if (interior(X)) return; } c.discard(); }
  double size() const { if (name == "CubedSphere" || name == "stretchedCubedSphere") return cs[1]; if (name == "Cartesian" || name == "tan_stretch") return s.d[0].b - s.d[0].a; if (name[0] == 'A') return 1; return name[0] == 'c' ? r0 + 1 : s.d[0].b; }
  double tol1(bool gen) const { return gen ? 1e-5 : 1e-8; }
  double tol2(bool gen, bool repeated) const { return repeated ? rep : gen ? 3e-3 : 1e-7; }
  string str() const { string o = name + " " + specstr(s); for (auto& p : pars) o += " " + p.first + "=" + p.second; return o; }
};
inline Dir mkdir_(pbt::Case& c, int n, double a, double b, bool fourier) { Dir d; d.n = n; d.a = a; d.b = b; d.basis = fourier ? "Fourier" : c.b(1, 4) ? "ChebZeros" : "ChebExtrema"; d.tt = c.b() ? "64 NUMREC_FFT" : "0 FFTW3"; return d; }
inline void cubed(pbt::Case& c, Sys& y, bool stretched) {
  y.dom = c.i(0, 5); y.type = stretched ? 4 : c.i(1, 4); double q = sqrt(3.0);
  y.cs[0] = c.logu(0.2, 5); double rat = 1.3 + c.u01() * 3;
  // an inner curved and an outer flat surface must not intersect
  y.cs[1] = y.cs[0] * (y.type == 3 ? q * rat : rat); 
  for (int k = 0; k < 3; k++) y.xc[k] = c.b() ? 0 : c.sym(4);
  y.pars["box0_CI_s"] = pbt::strf("%.17g %.17g 0 0 0 0", y.cs[0], y.cs[1]); y.pars["box0_CI_xc"] = pbt::strf("0 %.17g %.17g %.17g", y.xc[0], y.xc[1], y.xc[2]);
  y.pars["box0_CI_dom"] = pbt::strf("%d", y.dom); y.pars["box0_CI_type"] = pbt::strf("%d", y.type);
}
inline Sys gen_sys(pbt::Case& c, int lo, int hi, bool narrow = false) {
  static const char* N[] = {"Polar", "PolarCE", "SphericalDF", "compactSphericalDF", "Spherical", "Spherical2", "Spherical3", "tan_stretch", "AnsorgNS0", "AnsorgNS1", "AnsorgNS2", "AnsorgNS3", "CubedSphere", "stretchedCubedSphere", "CubedSphere"};
  Sys y; y.name = N[c.i(0, 14)]; y.s.coord = y.name; const double inf = 1e300, pi = (double) PIl;
  for (int k = 0; k < 3; k++) { y.sa[k] = -inf; y.sb[k] = inf; y.scale[k] = 1; }
  int n[3] = {c.i(lo, hi), c.i(lo, hi), c.i(lo, hi)};
  auto range = [&](double lo_, double hi_, double& a, double& b) { double L = hi_ - lo_; if (narrow) { double w = L * (0.15 + 0.15 * c.u01()); a = lo_ + (L - w) * (0.3 + 0.4 * c.u01()); b = a + w; } else if (c.b(1, 3)) { a = lo_; b = hi_; } else { a = lo_ + L * c.u01() * 0.6; b = a + (hi_ - a) * (0.2 + 0.8 * c.u01()); } };
  double a, b, r1 = c.logu(0.1, 10), r2 = r1 * (narrow ? 1.2 + 0.6 * c.u01() : 1.1 + 9 * c.u01()); if (!narrow && c.b(1, 4)) r1 = 0;
  auto phi = [&](int k) { bool f = c.b(2, 3); double u = 0, v = 2 * pi; if (!f) range(0, 2 * pi, u, v); y.s.d[k] = mkdir_(c, n[k], u, v, f); };
  const string& w = y.name;
  if (w == "Polar" || w == "PolarCE") {
    y.s.d[0] = mkdir_(c, n[0], r1, r2, false); y.sa[0] = 0; y.scale[0] = r2;
    if (w == "Polar") phi(1); else { range(0, 2 * pi, a, b); y.s.d[1] = mkdir_(c, n[1], a, b, false); y.sa[1] = 0; y.sb[1] = 2 * pi; }
    double z0 = c.sym(3); y.s.d[2] = mkdir_(c, n[2], z0, z0 + 0.5 + c.u01(), c.b());
  } else if (w == "SphericalDF" || w == "compactSphericalDF") {
    if (w == "SphericalDF") { y.s.d[0] = mkdir_(c, n[0], r1, r2, false); y.sa[0] = 0; y.scale[0] = r2; }
    else { y.r0 = c.logu(0.2, 5); double x0 = narrow ? 0.1 + 0.3 * c.u01() : 0, x1 = narrow ? x0 + 0.25 : 0.3 + 0.6 * c.u01(); y.s.d[0] = mkdir_(c, n[0], x0, x1, false); y.sa[0] = -2 / pi * atan(y.r0); y.sb[0] = 1; y.pars["compactSphericalDF_r0"] = pbt::strf("%.17g", y.r0); }
    int nn = n[1]; y.per = pi; y.off = pi / ((1 + nn % 2) * nn); bool f = c.b(1, narrow ? 3 : 2); a = 0; b = 2 * pi; if (!f) { range(0, pi, a, b); a -= y.off; b -= y.off; } y.norepeat = f;
    y.s.d[1] = mkdir_(c, nn, a, b, f); phi(2);
  } else if (w == "Spherical" || w == "Spherical2" || w == "Spherical3") {
    y.s.d[0] = mkdir_(c, n[0], r1, r2, false); y.sa[0] = 0; y.scale[0] = r2; double e = w == "Spherical" ? pi : 1, st = w == "Spherical" ? 0 : -1;
    if (w == "Spherical3") { y.c3 = narrow ? 1 + c.u01() : c.b(1, 2) ? 5 : 0.5 + 4 * c.u01(); y.pars["Coordinates_Spherical3_c"] = pbt::strf("%.17g", y.c3); y.scale[1] = 1 / y.c3; if (y.c3 < 1) y.scale[1] = 1; }
    range(st, e, a, b); y.s.d[1] = mkdir_(c, n[1], a, b, false); y.sa[1] = st; y.sb[1] = e; phi(2); y.tol = 1e-9;
  } else if (w == "tan_stretch") {
    y.ts = c.b(1, 5) ? 0 : 0.05 + 0.95 * c.u01(); y.pars["tan_stretch_s"] = pbt::strf("%.17g", y.ts);
    for (int k = 0; k < 3; k++) { double m = y.ts > 0 ? (narrow ? 0.5 : 0.9) / y.ts : 3; a = -m + m * c.u01(); b = a + (narrow ? 0.5 : 0.2 + 0.8 * c.u01()) * (m - a); y.s.d[k] = mkdir_(c, n[k], a, b, false); if (y.ts > 0) { y.sa[k] = -1 / y.ts; y.sb[k] = 1 / y.ts; y.scale[k] = 1 / y.ts; } }
  } else if (w[0] == 'A') {
    for (int k = 0; k < 2; k++) { if (narrow) { a = 0.35 + 0.1 * c.u01(); b = a + 0.2; } else { a = c.b() ? 0 : 0.3 * c.u01(); b = c.b() ? 1 : 0.4 + 0.5 * c.u01(); } y.s.d[k] = mkdir_(c, n[k], a, b, false); y.sa[k] = 0; y.sb[k] = 1; }
    y.s.d[2] = mkdir_(c, n[2], 0, 2 * pi, true); const char* v = c.pickl<const char*>({"AnsorgNS", "DDAnsorgNS", "NAnsorgNS", "NAnsorgNS DDAnsorgNS"}); y.pars["Coordinates_AnsorgNS_version"] = v;
    if (c.b()) y.pars["Coordinates_AnsorgNS_b"] = pbt::strf("%.17g", c.logu(0.5, 4)); y.tol = 1e-9; ;
  } else {
    cubed(c, y, w[0] == 's'); y.rep = 3e-3; double lo_ = narrow ? -0.4 : -1; y.s.d[0] = mkdir_(c, n[0], 0, 1, false);
    for (int k = 1; k < 3; k++) { a = lo_; b = -lo_; if (c.b(1, 4)) a = lo_ + 0.5 * c.u01(); if (c.b(1, 4)) b = 0.2 + (b - 0.2) * c.u01(); y.s.d[k] = mkdir_(c, n[k], a, b, false); }
    if (w[0] == 's') { y.sb[0] = y.cs[1] / (y.cs[1] - y.cs[0]); }

  }
  return y;
}
inline double map(tBox* b, int k, const double* X) { return b->x_of_X[k+1](b, -1, X[0], X[1], X[2]); }
template<class F> double fd8(F f, const double* X, int l, double h) { // 8th order
  static const double w[4] = {4./5, -1./5, 4./105, -1./280}; double s = 0, P[3] = {X[0], X[1], X[2]};
  for (int q = 1; q < 5; q++) { P[l] = X[l] + q * h; double u = f(P); P[l] = X[l] - q * h; s += w[q-1] * (u - f(P)); } return s / h; }
template<class F> double fd8_2(F f, const double* X, int l, double h) {
  static const double w[5] = {-205./72, 8./5, -1./5, 8./315, -1./560}; double P[3] = {X[0], X[1], X[2]}, s = w[0] * f(P);
  for (int q = 1; q < 5; q++) { P[l] = X[l] + q * h; double u = f(P); P[l] = X[l] - q * h; s += w[q] * (u + f(P)); } return s / h / h; }
inline void jac(tBox* b, const double* X, const double* h, double J[3][3]) { for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) J[k][l] = fd8([&](const double* P) { return map(b, k, P); }, X, l, h[l]); }
inline void hess(tBox* b, const double* X, const double* h, double H[3][3][3]) {
  for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) for (int m = l; m < 3; m++) {
    if (l == m) H[k][l][l] = fd8_2([&](const double* P) { return map(b, k, P); }, X, l, 2 * h[l]);
    else H[k][l][m] = H[k][m][l] = fd8([&](const double* Q) { return fd8([&](const double* P) { return map(b, k, P); }, Q, m, h[m]); }, X, l, h[l]); } }
inline double norm3(double M[3][3]) { double s = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) s = std::max(s, fabs(M[i][j])); return s; }
// inverse; returns the condition in units of the rows and columns
inline double inverse3(double J[3][3], double K[3][3]) {
  double det = 0, mag = 0; for (int i = 0; i < 3; i++) { int a = (i + 1) % 3, b = (i + 2) % 3; double t = J[0][i] * (J[1][a] * J[2][b] - J[1][b] * J[2][a]); det += t; mag += fabs(J[0][i]) * (fabs(J[1][a] * J[2][b]) + fabs(J[1][b] * J[2][a])); }
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { int a = (i + 1) % 3, b = (i + 2) % 3, p = (j + 1) % 3, q = (j + 2) % 3; K[j][i] = (J[a][p] * J[b][q] - J[a][q] * J[b][p]) / det; }
  return fabs(det) > 0 ? norm3(J) * norm3(K) * 3 + mag / fabs(det) : 1e300; }
// resolved functions of low degree
inline F3 gen_low(pbt::Case& c, const BoxSpec& s) { F3 f; int R = c.i(1, 3); for (int r = 0; r < R; r++) for (int k = 0; k < 3; k++) { F1 q; q.four = s.d[k].basis == "Fourier"; q.a = s.d[k].a; q.b = s.d[k].b; int m = c.i(1, 2); for (int t = 0; t < m; t++) q.m.push_back({c.i(0, q.four ? 4 : 3), (ld) c.pickl<double>({1, -1, 0.5, 2})}); f.f[k].push_back(q); } return f; }

// C10: spectral derivatives are exact for every resolved function
#include "grid.h"
using namespace pbt;

struct D9 { vector<double> d[10]; };
// tolerance of a derivative computed on a box: roundoff grows like n^(2 per derivative) and 1/L
static double scale_of(const BoxSpec& s, int k, int der) {
  double n = s.d[k].n, L = s.d[k].b - s.d[k].a; double r = s.d[k].basis == "Fourier" ? n * 3.2 / L * 2 : 2 * n * n / L;
  return der == 0 ? 1 : der == 1 ? r : r * r;
}
static double tolf(const BoxSpec& s, double m, int d1, int d2, int d3) {
  double ns = s.d[0].n + s.d[1].n + s.d[2].n; // X values of the grid carry roundoff as well
  double off = 1; for (int k = 0; k < 3; k++) off = std::max(off, std::max(fabs(s.d[k].a), fabs(s.d[k].b)) / (s.d[k].b - s.d[k].a));
  return 1e-14 * ns * off * m * scale_of(s, 0, d1) * scale_of(s, 1, d2) * scale_of(s, 2, d3) + 1e-300;
}
static void cmp(Case& c, const char* what, const vector<double>& got, const vector<double>& want, double tol) {
  size_t w = 0; double e = maxdiff(got.data(), want.data(), got.size(), &w);
  c.check(e <= tol, "%s: at point %zu %.15g instead of %.15g (tol %g)", what, w, got[w], want[w], tol);
}

PBT(spec_derivs, {.quick = 5000, .thorough = 120000}) {
  BoxSpec s; int big = c.i(0, 5);
  for (int k = 0; k < 3; k++) s.d[k] = gen_dir(c, 1, big == k ? 30 : 8, big != 3);
  F3 f = gen_f3(c, s, true);
  bool matrix = c.b(1, 3); string ord = "123";
  if (matrix) { for (int k = 0; k < 3; k++) s.d[k].tt = "100000 FFTW3"; ord = c.pickl<const char*>({"123", "132", "213", "231", "312", "321"}); }
  c.describe("order %s %s f=%s", ord.c_str(), specstr(s).c_str(), f.str().c_str());
  if (matrix && !findparameter((char*) "Spectral_second_deriv_order", 0)) setpar("Spectral_second_deriv_order", ord);
  tGrid* g = new_grid({s}, false);
  tBox* b = g->box[0]; int N = b->nnodes;
  c.label(matrix ? "matrix " + ord : "mixed");
  vector<double> u = tabulate(f, s), u0 = u, want[10];
  int od[10][3] = {{0,0,0},{1,0,0},{0,1,0},{0,0,1},{2,0,0},{1,1,0},{1,0,1},{0,2,0},{0,1,1},{0,0,2}};
  double m = f.mag(), nz = 0;
  for (int q = 1; q < 10; q++) { want[q] = tabulate(f, s, od[q][0], od[q][1], od[q][2]); if (q < 4 && maxabs(want[q]) > 0) nz++; }
  // the second derivative of the Nyquist mode comes from two first ones on the grid, which kill it
  bool nyq2[3] = {false, false, false};
  for (int k = 0; k < 3; k++) if (s.d[k].basis == "Fourier" && s.d[k].n % 2 == 0) for (auto& t : f.f[k]) for (auto& p : t.m) if (p.first == s.d[k].n - 1) nyq2[k] = true;
  if (nz >= 2) c.nontrivial();
  auto T = [&](int q) { return tolf(s, m, od[q][0], od[q][1], od[q][2]); };
  const char* nm[10] = {"", "d1", "d2", "d3", "d11", "d12", "d13", "d22", "d23", "d33"};
  for (int d = 1; d <= 3; d++) {
    vector<double> x(N, 5.5); spec_Deriv1(b, d, u.data(), x.data()); c.check(u == u0, "spec_Deriv1 changed its argument");
    cmp(c, strf("spec_Deriv1 direction %d", d).c_str(), x, want[d], T(d));
    int q2 = d == 1 ? 4 : d == 2 ? 7 : 9;
    vector<double> y(N, 5.5); spec_Deriv2(b, d, u.data(), y.data()); c.check(u == u0, "spec_Deriv2 changed its argument");
    if (!nyq2[d-1]) cmp(c, strf("spec_Deriv2 direction %d", d).c_str(), y, want[q2], T(q2));
    else { vector<double> z(N); spec_Deriv1(b, d, x.data(), z.data()); cmp(c, strf("spec_Deriv2 direction %d against twice spec_Deriv1", d).c_str(), y, z, T(q2)); }
  }
  vector<double> r[10]; for (int q = 1; q < 10; q++) r[q].assign(N, 5.5);
  spec_allDerivs(b, u.data(), r[1].data(), r[2].data(), r[3].data(), r[4].data(), r[5].data(), r[6].data(), r[7].data(), r[8].data(), r[9].data());
  c.check(u == u0, "spec_allDerivs changed its argument");
  for (int q = 1; q < 10; q++) {
    bool skip = false; for (int k = 0; k < 3; k++) if (od[q][k] == 2 && nyq2[k]) skip = true;
    if (!skip) cmp(c, strf("spec_allDerivs %s", nm[q]).c_str(), r[q], want[q], T(q));
  }
  c.evals(15 * N);
}

PBT(cheb_derivs, {.quick = 1500, .thorough = 40000}) {
  BoxSpec s; int big = c.i(0, 5);
  for (int k = 0; k < 3; k++) { s.d[k] = gen_dir(c, 2, big == k ? 30 : 8, big != 3); s.d[k].basis = "ChebExtrema"; }
  F3 f = gen_f3(c, s, true);
  c.describe("%s f=%s", specstr(s).c_str(), f.str().c_str());
  tGrid* g = new_grid({s}, false);
  tBox* b = g->box[0]; int N = b->nnodes;
  int od[10][3] = {{0,0,0},{1,0,0},{0,1,0},{0,0,1},{2,0,0},{1,1,0},{1,0,1},{0,2,0},{0,1,1},{0,0,2}};
  vector<double> u = tabulate(f, s), want[10], r[10]; double m = f.mag();
  for (int q = 1; q < 10; q++) { want[q] = tabulate(f, s, od[q][0], od[q][1], od[q][2]); r[q].assign(N, 5.5); }
  if (maxabs(want[1]) > 0 && maxabs(want[2]) > 0 && maxabs(want[3]) > 0) c.nontrivial();
  auto T = [&](int q) { return tolf(s, m, od[q][0], od[q][1], od[q][2]); };
  for (int d = 1; d <= 3; d++) { vector<double> x(N, 5.5); cheb_Deriv1(b, d, u.data(), x.data()); cmp(c, strf("cheb_Deriv1 %d", d).c_str(), x, want[d], T(d)); }
  cheb_allDerivs(b, u.data(), r[1].data(), r[2].data(), r[3].data(), r[4].data(), r[5].data(), r[6].data(), r[7].data(), r[8].data(), r[9].data());
  const char* nm[10] = {"", "d1", "d2", "d3", "d11", "d12", "d13", "d22", "d23", "d33"};
  for (int q = 1; q < 10; q++) cmp(c, strf("cheb_allDerivs %s", nm[q]).c_str(), r[q], want[q], T(q));
}

// a derivative must use the line it belongs to, whatever the other lines contain
PBT(random_data_linear, {.quick = 2500, .thorough = 40000}) {
  BoxSpec s; for (int k = 0; k < 3; k++) s.d[k] = gen_dir(c, 1, 9, true);
  c.describe("%s", specstr(s).c_str());
  tGrid* g = new_grid({s}, false);
  tBox* b = g->box[0]; int N = b->nnodes, n[3] = {b->n1, b->n2, b->n3};
  vector<double> u(N), x(N, 5.5); for (auto& v : u) v = c.sym(1);
  int d = c.i(1, 3), o[2] = {d == 1 ? 1 : 0, d == 3 ? 1 : 2};
  if (n[d-1] > 1 && n[o[0]] > 1 && n[o[1]] > 1) c.nontrivial();
  spec_Deriv1(b, d, u.data(), x.data());
  // direct differentiation matrix through the long double interpolant
  const Dir& D = s.d[d-1]; int m = D.n;
  vector<ld> M(m * m);
  for (int j = 0; j < m; j++) for (int i = 0; i < m; i++) {
    ld v = 0;
    if (D.basis == "Fourier") { ld K = 2 * PIl / ((ld) D.b - D.a); if (i != j) { ld t = PIl * (i - j) / m; v = (((i - j) % 2 + 2) % 2 ? -1 : 1) * K / 2 * (m % 2 ? 1 / sinl(t) : cosl(t) / sinl(t)); } }
    else {
      ld xi = gpoint(D, i), xj = gpoint(D, j);
      if (i == j) { for (int q = 0; q < m; q++) if (q != i) v += 1 / (xi - gpoint(D, q)); }
      else { v = 1 / (xj - xi) ; v = 1 / (xj - xi); ld p = 1 / (xj - xi); for (int q = 0; q < m; q++) if (q != i && q != j) p *= (xi - gpoint(D, q)) / (xj - gpoint(D, q)); v = p; }
    }
    M[i * m + j] = v;
  }
  double sc = scale_of(s, d - 1, 1) * 1e-13 * (m + 5) * std::max(1.0, std::max(fabs(D.a), fabs(D.b)) / (D.b - D.a));
  int str[3] = {1, n[0], n[0] * n[1]};
  for (int q = 0; q < N; q++) {
    int ii[3] = {q % n[0], (q / n[0]) % n[1], q / (n[0] * n[1])}; int base = q - ii[d-1] * str[d-1]; ld v = 0;
    for (int j = 0; j < m; j++) v += M[ii[d-1] * m + j] * u[base + j * str[d-1]];
    c.check(near(x[q], (double) v, sc), "spec_Deriv1 direction %d at %d: %.15g instead of %.15Lg", d, q, x[q], v);
  }
}

// finite difference bases: second order stencils
PBT(fd2, {.quick = 2500, .thorough = 40000}) {
  BoxSpec s; int k0 = c.i(0, 2);
  for (int k = 0; k < 3; k++) s.d[k] = gen_dir(c, 1, 5, true);
  s.d[k0].basis = c.b() ? "fd2_onesided" : "fd2_periodic"; s.d[k0].n = c.i(4, 12);
  c.describe("%s", specstr(s).c_str()); c.label(s.d[k0].basis); c.nontrivial();
  tGrid* g = new_grid({s}, false);
  tBox* b = g->box[0]; int N = b->nnodes, n[3] = {b->n1, b->n2, b->n3}, m = n[k0];
  vector<double> u(N), x(N, 5.5), y(N, 5.5); for (auto& v : u) v = c.sym(1);
  spec_Deriv1(b, k0 + 1, u.data(), x.data()); spec_Deriv2(b, k0 + 1, u.data(), y.data());
  bool per = s.d[k0].basis == "fd2_periodic"; double h = (s.d[k0].b - s.d[k0].a) / (per ? m : m - 1);
  int str[3] = {1, n[0], n[0] * n[1]};
  for (int q = 0; q < N; q++) {
    int ii[3] = {q % n[0], (q / n[0]) % n[1], q / (n[0] * n[1])}; int i = ii[k0], base = q - i * str[k0];
    auto U = [&](int j) { return u[base + (per ? (j + m) % m : j) * str[k0]]; };
    double d1, d2;
    if (per || (i > 0 && i < m - 1)) { d1 = (U(i + 1) - U(i - 1)) / (2 * h); d2 = (U(i + 1) - 2 * U(i) + U(i - 1)) / (h * h); }
    else if (i == 0) { d1 = (-3 * U(0) + 4 * U(1) - U(2)) / (2 * h); d2 = (2 * U(0) - 5 * U(1) + 4 * U(2) - U(3)) / (h * h); }
    else { d1 = (3 * U(i) - 4 * U(i - 1) + U(i - 2)) / (2 * h); d2 = (2 * U(i) - 5 * U(i - 1) + 4 * U(i - 2) - U(i - 3)) / (h * h); }
    c.check(near(x[q], d1, 1e-12 / h), "first derivative at %d (i=%d of %d): %.15g instead of %.15g", q, i, m, x[q], d1);
    c.check(near(y[q], d2, 1e-12 / h / h), "second derivative at %d (i=%d of %d): %.15g instead of %.15g", q, i, m, y[q], d2);
  }
}

// after convert_grid_to_fd first derivatives are centered differences on the same points
PBT(converted_to_fd, {.quick = 1500, .thorough = 30000}) {
  BoxSpec s; for (int k = 0; k < 3; k++) { s.d[k] = gen_dir(c, 3, 9, true); s.d[k].tt = "100000 FFTW3"; }
  c.describe("%s", specstr(s).c_str()); c.nontrivial();
  tGrid* g = new_grid({s}, false);
  convert_grid_to_fd(g);
  tBox* b = g->box[0]; int N = b->nnodes, n[3] = {b->n1, b->n2, b->n3};
  vector<double> u(N); for (auto& v : u) v = c.sym(1);
  int str[3] = {1, n[0], n[0] * n[1]};
  for (int d = 0; d < 3; d++) {
    vector<double> x(N, 5.5); spec_Deriv1(b, d + 1, u.data(), x.data()); int m = n[d]; bool per = s.d[d].basis == "Fourier";
    for (int q = 0; q < N; q++) {
      int ii[3] = {q % n[0], (q / n[0]) % n[1], q / (n[0] * n[1])}; int i = ii[d], base = q - i * str[d];
      int r = i + 1, l = i - 1; ld dx;
      if (per) { r %= m; l = (l + m) % m; dx = 2.0L * (s.d[d].b - s.d[d].a) / m; }
      else { if (r == m) r = i; if (l < 0) l = i; dx = gpoint(s.d[d], r) - gpoint(s.d[d], l); }
      double v = (double) ((u[base + r * str[d]] - u[base + l * str[d]]) / dx);
      c.check(near(x[q], v, 1e-11 * (double) (1 / dx)), "direction %d at %d: %.15g instead of %.15g", d + 1, q, x[q], v);
    }
  }
}

// C28: ODE integrators, quadrature, LU decomposition, attenuation functions (numerics and NumericUtils)
#include "sg.h"
#include <cfloat>
using namespace pbt; using std::string; using std::vector; typedef long double ld;
#define W __attribute__((weak))
extern "C" {
W double odeintegrate(double y[], int nvar, double x1, double x2, double eps, double h1, double hmin, int* nok, int* nbad, void (*derivs)(double, double[], double[]), void (*rkqs)(double[], double[], int, double*, double, double, double[], double*, double*, void (*)(double, double[], double[])), int kmax, int* kcount, double* xp, double** yp, double dxsav, int* status);
W double odeintegrateP(double y[], int nvar, double x1, double x2, double eps, double h1, double hmin, int* nok, int* nbad, int (*derivsP)(double x, const double* y, double* dy, void* p), void* par, void (*rkqsP)(double[], double[], int, double*, double, double, double[], double*, double*, int (*derP)(double x, const double* y, double* dy, void* p), void* p), int kmax, int* kcount, double* xp, double** yp, double dxsav, int* status);
W void rkqs(double y[], double dydx[], int n, double* x, double htry, double eps, double yscal[], double* hdid, double* hnext, void (*derivs)(double, double[], double[]));
W void rkqsP(double y[], double dydx[], int n, double* x, double htry, double eps, double yscal[], double* hdid, double* hnext, int (*derivsP)(double x, const double* y, double* dy, void* p), void* par);
W int lu_decomp(int n, double* A, int* p_idx, int* parity);
W void lu_solve(int n, double* A, int* p_idx, double b[]);
W double lu_det(int n, double* A, int parity);
W int ludcmpSing(double** a, int n, int* indx, double* d);
W void ludcmp(double** a, int n, int* indx, double* d);
W void lubksb(double** a, int n, int* indx, double b[]);
W double integral(double (*func)(double), double a, double b, double s, int max);
W double rombintegral(double (*func)(double), double a, double b, double eps, int max);
W double integral3D(double (*int_meth)(double (*f_int)(double), double a, double b, double eps, int max), double (*func)(double, double, double), double x1, double x2, double (*y1)(double), double (*y2)(double), double (*z1)(double, double), double (*z2)(double, double), double sx, double sy, double sz, int mx, int my, int mz);
W double integrate_simpson_1Dgrid(double* f, double dx, int i1, int i2);
W double integrate_trapez_1Dgrid(double* f, double dx, int i1, int i2);
W double Attenuation01(double x, double s, double p);
W double Att_0to1_x_x0_w_q_s(double x, double x0, double w, double q, double s);
W double dAtt_0to1_x_x0_w_q_s(double x, double x0, double w, double q, double s);
W double Att_1to0_x_x0_w_q_s(double x, double x0, double w, double q, double s);
W double dAtt_1to0_x_x0_w_q_s(double x, double x0, double w, double q, double s);
}
// ---------------------------------------------------------------- ODEs
// the unknowns are y = M u, where the u obey equations with known solutions
static struct Ode { int n; vector<int> kind; vector<double> a, b, u0, M, Mi; double x1; int calls; double blow; vector<double> seen; } O;
static void usol(double x, vector<double>& u) { double t = x - O.x1; for (int i = 0; i < O.n; i++) { double a = O.a[i], b = O.b[i], v = O.u0[i]; switch (O.kind[i]) { case 0: u[i] = v * exp(-a * t); break; case 1: u[i] = v * cos(a * t) - O.u0[i+1] * sin(a * t); u[i+1] = v * sin(a * t) + O.u0[i+1] * cos(a * t); i++; break; case 2: u[i] = v / (1 + a * v * t); break; case 3: u[i] = v + a * (sin(b * x) - sin(b * O.x1)) / b; break; case 4: u[i] = v + a * t; break; case 5: u[i] = v / (v + (1 - v) * exp(-a * t)); break; case 6: u[i] = v; break; } } }
static void urhs(double x, const vector<double>& u, vector<double>& d) { for (int i = 0; i < O.n; i++) { double a = O.a[i], b = O.b[i], v = u[i]; switch (O.kind[i]) { case 0: d[i] = -a * v; break; case 1: d[i] = -a * u[i+1]; d[i+1] = a * v; i++; break; case 2: d[i] = -a * v * v; break; case 3: d[i] = a * cos(b * x); break; case 4: d[i] = a; break; case 5: d[i] = a * v * (1 - v); break; case 6: d[i] = 0; break; } } }
static vector<double> mul(const vector<double>& M, const vector<double>& v) { int n = v.size(); vector<double> r(n, 0); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i] += M[i*n+j] * v[j]; return r; }
extern "C" {
static void fd_(double x, double y[], double dy[]) { if (++O.calls > 2000000) { fprintf(stderr, "too many evaluations\n"); abort(); } vector<double> yy(y + 1, y + 1 + O.n), d(O.n); urhs(x, mul(O.Mi, yy), d); d = mul(O.M, d); for (int i = 0; i < O.n; i++) dy[i+1] = d[i]; }
static int fdP(double x, const double* y, double* dy, void* p) { if (p != &O) abort(); fd_(x, (double*) y, dy); return 0; }
}
static vector<double> inv_upper(const vector<double>& M, int n) { vector<double> R(n * n, 0); for (int c = 0; c < n; c++) for (int i = n - 1; i >= 0; i--) { double s = i == c; for (int j = i + 1; j < n; j++) s -= M[i*n+j] * R[j*n+c]; R[i*n+c] = s / M[i*n+i]; } return R; }
PBT(ode, {.quick = 4000, .thorough = 200000}) {
  if (!odeintegrate) { c.describe("none"); return; } int n = O.n = c.i(1, 6); O.kind.clear(); O.calls = 0; O.a.assign(n, 0); O.b.assign(n, 1); O.u0.assign(n, 0); O.M.assign(n * n, 0); while ((int) O.kind.size() < n) { int k = c.i(0, 6); if (k == 1 && (int) O.kind.size() + 2 > n) k = 0; O.kind.push_back(k); if (k == 1) O.kind.push_back(1); }
  double len = c.pickl<double>({0.1, 1, 5, 20}); bool back = c.b(1, 3), blow = c.b(1, 10); for (int i = 0; i < n; i++) { int k = O.kind[i]; O.u0[i] = c.sym(2); O.a[i] = c.u01() * 2; O.b[i] = 0.3 + c.u01() * 3; if (k == 0 || k == 5) { O.a[i] *= back ? -1 : 1; } if (k == 2 || k == 5) O.u0[i] = 0.2 + c.u01() * 0.7; if (k == 2 && back) O.a[i] *= -1; if (k == 1) { O.u0[i+1] = c.sym(2); i++; } }
  int bi = -1; if (blow) { for (int i = 0; i < n; i++) if (O.kind[i] == 2) bi = i; if (bi >= 0) { O.u0[bi] = 1; O.a[bi] = (back ? 1 : -1) * 2 / len; /* singular half way */ } else blow = false; }
  for (int i = 0; i < n; i++) { O.M[i*n+i] = 1 + c.u01(); for (int j = i + 1; j < n; j++) if (c.b(1, 3)) O.M[i*n+j] = c.sym(0.5); } O.Mi = inv_upper(O.M, n); O.x1 = c.pickl<double>({0, 0, 1, -3, 100}); double x1 = O.x1, x2 = back ? x1 - len : x1 + len; if (c.b(1, 30)) x2 = x1, blow = false;
  double eps = c.pickl<double>({1e-4, 1e-6, 1e-9, 1e-11}), h1 = fabs(x2 - x1) * c.pickl<double>({1e-4, 1e-2, 0.3, 3}); if (h1 == 0) h1 = 0.1; h1 = std::min(h1, 0.4); /* one much too big step can be accepted, as the error is relative to the new values */ double hmin = blow ? len * 1e-9 : 0; int kmax = c.pickl<int>({0, 0, 1, 2, 10, 30}); bool P = odeintegrateP && c.b(); if (getenv("NOBACK")) if (back) c.discard();
  string t; for (int i = 0; i < n; i++) t += strf("%d:%.4g,%.4g ", O.kind[i], O.a[i], O.u0[i]); c.describe("%s %d unknowns (%s) from %g to %g, eps %g, h1 %g, kmax %d%s", P ? "odeintegrateP" : "odeintegrate", n, t.c_str(), x1, x2, eps, h1, kmax, blow ? ", blows up half way" : ""); c.label(back ? "backwards" : "forwards"); if (n > 1 && x2 != x1) c.nontrivial();
  vector<double> y(n + 1), xp(70, -9), buf((n + 1) * 70, -9); vector<double*> yp(n + 1); for (int i = 0; i <= n; i++) yp[i] = &buf[i * 70]; { auto v = mul(O.M, O.u0); for (int i = 0; i < n; i++) y[i+1] = v[i]; } int nok = 0, nbad = 0, kc = 0, st = -77; double xe = NAN; vector<double> y0 = y;
  bool gone = c.exits([&] { if (P) xe = odeintegrateP(y.data(), n, x1, x2, eps, h1, hmin, &nok, &nbad, fdP, &O, rkqsP, kmax, &kc, xp.data(), yp.data(), kmax > 1 ? fabs(x2 - x1) / (kmax - 1) : 0, &st); else xe = odeintegrate(y.data(), n, x1, x2, eps, h1, hmin, &nok, &nbad, fd_, rkqs, kmax, &kc, xp.data(), yp.data(), kmax > 1 ? fabs(x2 - x1) / (kmax - 1) : 0, &st); });
  if (blow) { c.label("blows up"); if (gone) { c.label("exit"); return; } bool fin = true; for (int i = 1; i <= n; i++) fin = fin && std::isfinite(y[i]); c.check(st != 0 || !fin, "status %d and x=%g, although the solution blows up at %g", st, xe, (x1 + x2) / 2); return; }
  if (!lu_decomp && (gone || st == -2)) { bool easy = len <= 5; for (int i = 0; i < n; i++) if (fabs(O.u0[i]) < 1e-3 || fabs(O.a[i]) < 1e-3) easy = false; /* steps are chosen for small relative errors of every unknown */ if (!easy) { c.label("gave up"); return; } } c.check(!gone, "the program ends"); c.check(st == 0, "status is %d", st); c.check(fabs(xe - x2) <= 1e-14 * (fabs(x1) + fabs(x2)), "the integration ends at %.17g instead of %.17g", xe, x2);
  vector<double> u(n); double fac = 500 * (1 + len) * eps; auto cmp = [&](double x, const vector<double>& v, const char* what) { usol(x, u); auto e = mul(O.M, u); double sc = 1; for (double q : u) sc = std::max(sc, fabs(q)); for (double q : O.u0) sc = std::max(sc, fabs(q)); for (int i = 0; i < n; i++) c.check(fabs(v[i] - e[i]) <= fac * sc * 3 + 1e-11 * sc, "%s: unknown %d at x=%g is %.15g instead of %.15g (eps %g)", what, i + 1, x, v[i], e[i], eps); };
  cmp(x2, vector<double>(y.begin() + 1, y.end()), "end"); c.check(kc >= 0 && kc <= kmax + 1, "%d points are stored, but kmax is %d", kc, kmax); if (kmax > 0 && x1 != x2) c.check(kc >= 1, "no points are stored"); for (int k = 1; k <= kc; k++) { vector<double> v(n); for (int i = 0; i < n; i++) v[i] = yp[i+1][k]; double lo = std::min(x1, x2), hi = std::max(x1, x2), w = 1e-13 * (fabs(x1) + fabs(x2) + 1); c.check(xp[k] >= lo - w && xp[k] <= hi + w, "stored point %d is at %g", k, xp[k]); if (k > 1 && x1 != x2) c.check((xp[k] - xp[k-1]) * (x2 - x1) >= 0, "stored points are not in order"); cmp(xp[k], v, "stored point"); }
}
// ---------------------------------------------------------------- dense linear algebra
static ld det_(vector<ld> A, int n, ld* growth = nullptr) { ld d = 1; for (int i = 0; i < n; i++) { ld m = 0; for (int j = 0; j < n; j++) m = std::max(m, fabsl(A[i*n+j])); if (m == 0) return 0; m = exp2l(ilogbl(m)); d *= m; for (int j = 0; j < n; j++) A[i*n+j] /= m; } for (int c = 0; c < n; c++) { int p = c; for (int i = c; i < n; i++) if (fabsl(A[i*n+c]) > fabsl(A[p*n+c])) p = i; if (A[p*n+c] == 0) return 0; if (p != c) { d = -d; for (int j = 0; j < n; j++) std::swap(A[p*n+j], A[c*n+j]); } d *= A[c*n+c]; for (int i = c + 1; i < n; i++) { ld f = A[i*n+c] / A[c*n+c]; for (int j = c; j < n; j++) A[i*n+j] -= f * A[c*n+j]; } } return d; }
PBT(lu, {.quick = 40000, .thorough = 2000000}) {
  int n = c.i(1, 9), kind = c.pickl<int>({0, 0, 0, 1, 2, 3, 4, 5, 6}); vector<double> A(n * n); for (auto& v : A) v = kind == 2 ? c.i(-2, 2) : c.sym(1); vector<int> perm(n); for (int i = 0; i < n; i++) perm[i] = i; for (int i = n - 1; i > 0; i--) std::swap(perm[i], perm[c.i(0, i)]); double fill = c.pickl<double>({1, 1, 0.5}); if (fill < 1) for (auto& v : A) if (c.u01() > fill) v = 0; if (kind == 0 || kind == 3 || kind == 6) for (int i = 0; i < n; i++) { double s = 0.3; for (int j = 0; j < n; j++) s += fabs(A[i*n+j]); A[i*n+perm[i]] = s * (c.b() ? 1 : -1); }
  if (kind == 3) for (int i = 0; i < n; i++) { double f = pow(10., c.i(-60, 60)); for (int j = 0; j < n; j++) A[i*n+j] *= f; } int zr = -1, zc = -1; if (kind == 4) { zr = c.i(0, n - 1); for (int j = 0; j < n; j++) A[zr*n+j] = c.b() ? 0. : -0.; } if (kind == 5) { zc = c.i(0, n - 1); for (int i = 0; i < n; i++) A[i*n+zc] = 0; } bool nan = kind == 6 && c.b(); if (nan) for (int k = c.i(1, 3); k > 0; k--) A[c.i(0, n * n - 1)] = c.pickl<double>({NAN, INFINITY});
  int how = c.i(0, 2); void* have[] = {(void*) lu_decomp, (void*) ludcmpSing, (void*) ludcmp}; if (!have[how]) how = 1; static const char* H[] = {"lu_decomp", "ludcmpSing", "ludcmp"}; static const char* K[] = {"dominant", "random", "integers", "scaled lines", "zero line", "zero column", "dominant or NaN"}; c.describe("%s, %d unknowns, %s", H[how], n, K[kind]); c.label(H[how]); c.label(K[kind]); if (n > 2) c.nontrivial();
  vector<bool> zrow(n, true), zcol(n, true); bool anyz = false; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (A[i*n+j] != 0) zrow[i] = zcol[j] = false; bool zz = false; for (int i = 0; i < n; i++) { anyz |= zrow[i] || zcol[i]; zz |= zrow[i]; } if (how == 2 && zz) { c.label("zero line: exit"); vector<double> B = A; vector<double*> r(n + 1); for (int i = 0; i < n; i++) r[i+1] = &B[i*n] - 1; vector<int> id(n + 1); double d; c.check(c.exits([&] { ludcmp(r.data(), n, id.data(), &d); }), "a singular matrix is not reported"); return; }
  vector<double> B(n * n + 20, 4242), b(n + 20, 4242); vector<int> id(n + 20, 4242); vector<double> x0(n); double* a = &B[10]; for (int i = 0; i < n * n; i++) a[i] = A[i]; for (int i = 0; i < n; i++) { x0[i] = c.b(1, 5) ? 0 : c.sym(1); } for (int i = 0; i < n; i++) { ld s = 0; for (int j = 0; j < n; j++) s += (ld) A[i*n+j] * x0[j]; b[10+i] = s; } vector<double> rhs(b.begin() + 10, b.begin() + 10 + n);
  int par = 0, ret = 0; double d = 0; vector<double*> r(n + 1); for (int i = 0; i < n; i++) r[i+1] = a + i * n - 1; if (how == 0) ret = lu_decomp(n, a, &id[10], &par); else if (how == 1) { ret = ludcmpSing(r.data(), n, &id[9], &d); par = d; } else { bool gone = false; if (nan) gone = c.exits([&] { ludcmp(r.data(), n, &id[9], &d); }); else ludcmp(r.data(), n, &id[9], &d); if (gone) { c.label("NaN"); return; } par = d; }
  for (int i = 0; i < 10; i++) c.check(B[i] == 4242 && B[10 + n*n + i] == 4242 && id[i] == 4242 && id[10 + n + i] == 4242, "written outside the arrays");
  if (nan) { c.label("NaN"); return; } if (anyz && how != 2) { c.label("flagged"); c.check(ret != 0, "a matrix with a zero line or column is not flagged"); if (ret > 0) c.check(ret <= n && zcol[ret-1], "column %d is not zero", ret); else c.check(-ret <= n && zrow[-ret-1], "line %d is not zero", -ret); for (int i = 0; i < n * n; i++) c.check(same_bits(a[i], A[i]), "the singular matrix was changed"); return; }
  c.check(ret == 0, "%d for a matrix without zero lines or columns", ret); int off = how == 0 || (how == 1 && lu_decomp) ? 0 : 1; c.check(par == 1 || par == -1, "parity %d", par); for (int i = 0; i < n; i++) c.check(id[10+i] - off >= i && id[10+i] - off < n, "index %d is %d", i, id[10+i]);
  // P A = L U
  vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; int sw = 1; for (int i = 0; i < n; i++) { int q = id[10+i] - off; if (q != i) { std::swap(p[i], p[q]); sw = -sw; } } c.check(sw == par, "parity is %d, but the permutation has %d", par, sw); for (int i = 0; i < n; i++) { ld rowm = 0; for (int j = 0; j < n; j++) rowm = std::max<ld>(rowm, fabs(A[p[i]*n+j])); for (int j = 0; j < n; j++) { ld s = 0, m = 0; for (int k = 0; k <= std::min(i, j); k++) { ld t = (k == i ? 1 : (ld) a[i*n+k]) * (ld) a[k*n+j]; s += t; m += fabsl(t); } c.check(fabsl(s - A[p[i]*n+j]) <= 1e-15 * (2 * n + 4) * (m + fabs(A[p[i]*n+j])) + 1e-299, "(LU)(%d,%d)=%.17Lg instead of %.17g", i, j, s, A[p[i]*n+j]); } }
  ld dd = par; bool rng = true; for (int i = 0; i < n; i++) { dd *= a[i*n+i]; rng = rng && fabsl(dd) < 1e290L && fabsl(dd) > 1e-290L; } if (how == 0 && (rng || dd == 0)) { double q = lu_det(n, a, par); c.check(fabsl(q - dd) <= 1e-13L * fabsl(dd), "det is %g instead of %Lg", q, dd); }
  vector<ld> L(A.begin(), A.end()); ld ex = det_(L, n); if (kind == 0 || kind == 3 || (kind == 6)) c.check(fabsl(dd - ex) <= 1e-9L * fabsl(ex), "det is %Lg instead of %Lg", dd, ex); if (kind == 2 && ex == 0) c.check(fabsl(dd) < 1e-8, "the determinant of a singular matrix is %Lg", dd); else if (kind == 2) c.check(fabsl(dd - ex) < 1e-6 * (1 + fabsl(ex)), "det is %Lg instead of %Lg", dd, ex);
  if (how == 0) lu_solve(n, a, &id[10], &b[10]); else lubksb(r.data(), n, &id[9], &b[9]); for (int i = 0; i < 10; i++) c.check(b[i] == 4242 && b[10+n+i] == 4242, "written outside the vector");
  if (kind == 0 || kind == 3 || kind == 6) for (int i = 0; i < n; i++) c.check(fabs(b[10+i] - x0[i]) <= 1e-11, "unknown %d is %.17g instead of %.17g", i, b[10+i], x0[i]); // dominant lines: well conditioned after scaling
}
// ---------------------------------------------------------------- quadrature
static struct { vector<double> p; int kind; double a, b; int calls; vector<double> yl, yh, zl, zh; int n[3]; double co[3][5]; } I;
static double poly(const vector<double>& p, double x) { double s = 0; for (int i = p.size() - 1; i >= 0; i--) s = s * x + p[i]; return s; }
static ld ipoly(const vector<double>& p, ld a, ld b) { ld s = 0; for (size_t i = 0; i < p.size(); i++) s += p[i] * (powl(b, i + 1) - powl(a, i + 1)) / (i + 1); return s; }
extern "C" { static double fi(double x) { I.calls++; return I.kind == 0 ? poly(I.p, x) : I.kind == 1 ? exp(I.p[0] * x) : 1 / (1 + I.p[0] * I.p[0] * x * x); }
static double f3(double x, double y, double z) { double r = 1; double q[] = {x, y, z}; for (int d = 0; d < 3; d++) { double s = 0; for (int i = 3; i >= 0; i--) s = s * q[d] + I.co[d][i]; r *= s; } return r; }
static double yl(double x) { return I.yl[0] + I.yl[1] * x; } static double yh(double x) { return I.yh[0] + I.yh[1] * x; } static double zl(double x, double y) { return I.zl[0] + I.zl[1] * x + I.zl[2] * y; } static double zh(double x, double y) { return I.zh[0] + I.zh[1] * x + I.zh[2] * y; } }
static ld gauss(std::function<ld(ld)> f, ld a, ld b) { static const ld X[] = {0.1834346424956498049394761L, 0.5255324099163289858177390L, 0.7966664774136267395915539L, 0.9602898564975362316835609L}, Wt[] = {0.3626837833783619829651504L, 0.3137066458778872873379622L, 0.2223810344533744705443560L, 0.1012285362903762591525314L}; ld s = 0, m = (a + b) / 2, h = (b - a) / 2; for (int i = 0; i < 4; i++) s += Wt[i] * (f(m + h * X[i]) + f(m - h * X[i])); return s * h; }
PBT(quadrature, {.quick = 8000, .thorough = 400000}) {
  if (!integral) { c.describe("no quadrature in this build"); return; } bool romb = c.b(); I.kind = c.i(0, 2); I.p.clear(); I.calls = 0; I.a = c.sym(3); I.b = I.a + (c.b(1, 8) ? 0 : c.sym(2)); int deg = c.i(0, 7); if (I.kind == 0) for (int i = 0; i <= deg; i++) I.p.push_back(c.sym(1)); else I.p.push_back(c.sym(1.5)); double eps = c.pickl<double>({1e-3, 1e-5, 1e-7}); int max = c.pickl<int>({5, 10, 20, 20}); ld ex = I.kind == 0 ? ipoly(I.p, I.a, I.b) : I.kind == 1 ? (I.p[0] == 0 ? (ld) I.b - I.a : (expl((ld) I.p[0] * I.b) - expl((ld) I.p[0] * I.a)) / I.p[0]) : (I.p[0] == 0 ? (ld) I.b - I.a : (atanl((ld) I.p[0] * I.b) - atanl((ld) I.p[0] * I.a)) / I.p[0]);
  static const char* K[] = {"polynomial", "exponential", "rational"}; c.describe("%s of a %s from %.9g to %.9g, eps %g, at most %d refinements", romb ? "rombintegral" : "integral", K[I.kind], I.a, I.b, eps, max); c.label(romb ? "rombintegral" : "integral"); if (I.kind || deg > 1) c.nontrivial(); ld mag = gauss([&](ld x) { return fabs(fi(x)); }, std::min(I.a, I.b), std::max(I.a, I.b)); I.calls = 0; double v = romb ? rombintegral(fi, I.a, I.b, eps, max) : integral(fi, I.a, I.b, eps, max); c.check(I.calls <= (1 << (max - 1)) + 1, "%d evaluations", I.calls); bool said = romb && c.log().find("not achieved") != string::npos; bool conv = romb ? !said : I.calls < (1 << (max - 1)) + 1;
  // the trapezoidal rule stops when two values agree; values that agree by accident are left out
  if (!romb) { ld t[3] = {0, 0, 0}, h = (ld) I.b - I.a; t[0] = 0.5L * h * (fi(I.a) + fi(I.b)); for (int k = 1, N = 1; k < max; k++, N *= 2) { ld s = 0; for (int i = 0; i < N; i++) s += fi(I.a + (i + 0.5L) * h / N); t[2] = t[1]; t[1] = t[0]; t[0] = 0.5L * (t[1] + h / N * s); if (fabsl(t[0] - t[1]) <= 1.0001L * eps * fabsl(t[1]) && (k < 3 || fabsl(t[0] - t[1]) < fabsl(t[1] - t[2]) / 8)) { c.label("accident"); c.discard(); } if (fabsl(t[0] - t[1]) < eps * fabsl(t[1])) break; } }
  if (conv) { c.label("converged"); ld tol = romb ? 300 * eps * (fabsl(ex) + 0.1 * mag) : 2 * eps * fabsl(ex) + 1e-13L * mag; c.check(fabsl(v - ex) <= tol + 1e-300L, "%.15g instead of %.15Lg", v, ex); } else c.label("not converged");
  if (romb && I.kind == 0 && deg <= 9) c.check(fabsl(v - ex) <= 1e-10L * mag * 10 + 1e-300L, "Romberg's method is not exact for degree %d: %.17g instead of %.17Lg", deg, v, ex); if (I.kind == 0 && deg <= 1) c.check(fabsl(v - ex) <= 1e-13L * mag, "the trapezoidal rule is not exact for a line: %.17g instead of %.17Lg", v, ex); if (max >= 20 && mag < 1e3 * fabsl(ex) && eps >= 1e-7) c.check(conv, "no convergence");
}
PBT(grids, {.quick = 20000, .thorough = 500000}) {
  if (!integrate_simpson_1Dgrid) { c.describe("no quadrature in this build"); return; } int i1 = c.i(0, 5), m = c.i(0, 20), i2 = i1 + m, deg = c.i(0, 3); bool simp = c.b(); double dx = c.u(0.01, 1), x0 = c.sym(2); vector<double> p; for (int i = 0; i <= deg; i++) p.push_back(c.sym(1)); vector<double> f(i2 + 4, NAN); ld mag = 0; for (int i = i1; i <= i2; i++) { f[i] = poly(p, x0 + dx * i); mag += fabs(f[i]); } bool useless = c.b(1, 8); (void) useless; c.describe("%s, %d intervals from %d, degree %d", simp ? "Simpson" : "trapezoidal", m, i1, deg); if (m > 2) c.nontrivial(); double v = simp ? integrate_simpson_1Dgrid(f.data(), dx, i1, i2) : integrate_trapez_1Dgrid(f.data(), dx, i1, i2); ld ex = ipoly(p, x0 + (ld) dx * i1, x0 + (ld) dx * i2);
  ld tr = 0; for (int i = i1; i < i2; i++) tr += 0.5L * dx * ((ld) f[i] + f[i+1]); ld tol = 1e-12L * (dx * mag + 1e-3); if (!simp) c.check(fabsl(v - tr) <= tol, "%.17g instead of %.17Lg", v, tr); if (deg <= 1 || (simp && m >= 3)) c.check(fabsl(v - ex) <= 1e-11L * (dx * mag + 1), "not exact for degree %d: %.17g instead of %.17Lg", deg, v, ex); else if (simp) c.check(fabsl(v - tr) <= tol || fabsl(v - ex) <= 1e-11L * (dx * mag + 1), "few points: %.17g instead of %.17Lg", v, tr);
}
PBT(volume, {.quick = 800, .thorough = 20000, .cpu_s = 40}) {
  if (!integral3D) { c.describe("no quadrature in this build"); return; } bool romb = c.b(3, 4); double x1 = c.sym(1), x2 = x1 + 0.2 + c.u01(); I.yl = {c.sym(1), c.sym(0.3)}; I.yh = {I.yl[0] + 0.5 + c.u01(), c.sym(0.2) + I.yl[1]}; I.zl = {c.sym(1), c.sym(0.3), c.sym(0.3)}; I.zh = {I.zl[0] + 0.5 + c.u01(), I.zl[1] + c.sym(0.1), I.zl[2] + c.sym(0.1)}; for (auto& r : I.co) for (auto& v : r) v = c.sym(0.2); for (auto& r : I.co) r[0] = 1; c.describe("integral3D with %s", romb ? "rombintegral" : "integral"); c.nontrivial();
  ld ex = gauss([&](ld x) { return gauss([&](ld y) { return gauss([&](ld z) { return (ld) f3(x, y, z); }, zl(x, y), zh(x, y)); }, yl(x), yh(x)); }, x1, x2); double e = romb ? 1e-8 : 3e-4; double v = integral3D(romb ? rombintegral : integral, f3, x1, x2, yl, yh, zl, zh, e, e * 0.3, e * 0.1, 12, 12, 12); c.check(fabsl(v - ex) <= 30 * e * (fabsl(ex) + 0.01), "%.12g instead of %.12Lg", v, ex);
}
// ---------------------------------------------------------------- attenuation functions
PBT(attenuation, {.quick = 20000, .thorough = 1000000}) {
  double x0 = c.pickl<double>({0, 1, -3, 50}), w = 0.05 + c.u01() * 5, q = 0.3 + c.u01() * 2, s = 0.3 + 4 * c.u01(), p = 0.02 + 0.96 * c.u01(); c.describe("x0 %g, w %g, q %g, s %g, p %g", x0, w, q, s, p); c.nontrivial(); double la = -1, lb = -1; int N = 40; for (int i = -3; i <= N + 3; i++) { double t = (i + 0.3 * c.sym(1)) / N; if (c.b(1, 10)) t = i <= N / 2 ? 0 : 1; if (t < (i - 0.5) / N || t > (i + 0.5) / N) t = (double) i / N; double x = x0 + w * t, a = Att_0to1_x_x0_w_q_s(x, x0, w, q, s), b = Att_1to0_x_x0_w_q_s(x, x0, w, q, s), A = Attenuation01(t, s, p), d = dAtt_0to1_x_x0_w_q_s(x, x0, w, q, s), e = dAtt_1to0_x_x0_w_q_s(x, x0, w, q, s);
    c.check(a >= 0 && a <= 1 && A >= 0 && A <= 1, "values %g, %g at %g", a, A, t); c.check(a >= la - 1e-15 && A >= lb - 1e-15, "not monotonic at %g: %g after %g, %g after %g", t, a, la, A, lb); la = a; lb = A; c.check(fabs(a + b - 1) <= 1e-15, "%g and %g at %g", a, b, t); if (t <= 0) c.check(A == 0, "%g at %g", A, t); if (t >= 1) c.check(A == 1, "%g at %g", A, t); if (x <= x0) c.check(a == 0 && d == 0, "%g, %g at the start", a, d); if (x >= x0 + w) c.check(a == 1 && d == 0, "%g, %g at the end", a, d);
    c.check(d == -e || fabs(d + e) <= 1e-14 * fabs(d), "derivatives %g and %g", d, e); c.check(d >= 0, "derivative %g", d); double h = 1e-3 * w; if (t > 0.05 && t < 0.95) { auto f = [&](double y) { return Att_0to1_x_x0_w_q_s(y, x0, w, q, s); }; double fd = (672 * (f(x + h) - f(x - h)) - 168 * (f(x + 2*h) - f(x - 2*h)) + 32 * (f(x + 3*h) - f(x - 3*h)) - 3 * (f(x + 4*h) - f(x - 4*h))) / (840 * h); c.check(fabs(fd - d) <= 1e-6 * (1 + s * (1 + q * q) * 30) / w, "the derivative at %g is %g instead of %g", t, d, fd); } }
  double half = Attenuation01(p, s, p); c.check(fabs(half - 0.5) <= 1e-12, "Attenuation01 is %g at its position", half); double hh = 1e-5 * std::min(p, 1 - p); double sl = (Attenuation01(p + hh, s, p) - Attenuation01(p - hh, s, p)) / (2 * hh); c.check(fabs(sl - s) <= 1e-4 * s, "the slope at the position is %g instead of %g", sl, s); double mid = x0 + w * 2 / M_PI * atan(q); c.check(fabs(Att_0to1_x_x0_w_q_s(mid, x0, w, q, s) - 0.5) < 1e-9 * (1 + fabs(x0) / w) * 10, "not 1/2 at %g", mid);
}

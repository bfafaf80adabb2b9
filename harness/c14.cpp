// C14: spherical harmonics, their derivatives, transforms (s2kit) and wave modes (ModeComputer)
#include "run.h"
#include <sstream>
#include <tuple>
using namespace pbt; typedef long double ld;
#define W __attribute__((weak))
extern "C" {
W double PLegendre(int l, int m, double x); W double* alloc_Plm_Tab(int lmax); W void set_PlmTab_for_l_GE_m(int lmax, int m, double x, double* P); W void set_PlmTab(int lmax, double x, double* Ptab); W double Plm_from_Tab(int lmax, double* Ptab, int l, int m);
W void set_YlmTabs(int lmax, double th, double ph, double* R, double* I); W void Ylm_from_Tabs(int lmax, double* R, double* I, int l, int m, double* ReYlm, double* ImYlm); W double Re_Ylm_slowly(int l, int m, double th, double ph); W double Im_Ylm_slowly(int l, int m, double th, double ph); W double Plm_slowly(int l, int m, double x);
W void SphHarm_dphi_forRealFunc(double* c, double* cdphi, int lmax); W void SphHarm_sin_theta_dtheta_forRealFunc(double* c, double* csdth, int lmax);
W double Re_sYlm(int l, int m, int s, double th, double ph); W double Im_sYlm(int l, int m, int s, double th, double ph); W double Wigner_d_function_PG(int l, int m, int s, double th); W double Wigner_d_function_WT(int l, int m, int s, double th);
W void PmlTableGen(int bw, int m, double* storeplm, double* workspace); W void makeweights(int bw, double* weights); W void Naive_AnalysisX(double* data, int bw, int m, double* weights, double* result, double* plmtable, double* workspace); W void Naive_SynthesizeX(double* coeffs, int bw, int m, double* result, double* plmtable);
W void P_eval(int m, double* coeffs, double* eval_args, double* result, double* workspace, int bw);
}
// associated Legendre functions, normalised such that int P^2 dx = 1, with the sign (-1)^m
static ld Nlm(int l, int m, ld th) { ld x = cosl(th), s = sinl(th), p = sqrtl(0.5L); for (int i = 1; i <= m; i++) p *= -s * sqrtl((2 * i + 1) / (2.0L * i)); if (l == m) return p; ld q = x * sqrtl(2 * m + 3) * p; for (int k = m + 2; k <= l; k++) { ld a = sqrtl((4.0L * k * k - 1) / ((ld) k * k - m * m)), b = sqrtl(((k - 1.0L) * (k - 1) - m * m) / (4.0L * (k - 1) * (k - 1) - 1)); ld r = a * (x * q - b * p); p = q; q = r; } return q; }
static ld fct(int n) { return tgammal(n + 1.0L); }
static void Y_(int l, int m, ld th, ld ph, ld& R, ld& I) { int a = abs(m); ld p = Nlm(l, a, th) / sqrtl(2 * M_PIl); R = p * cosl(a * ph); I = p * sinl(a * ph); if (m < 0) { int sg = a % 2 ? -1 : 1; R *= sg; I *= -sg; } }
static ld binom(int n, int k) { if (k < 0 || k > n) return 0; ld r = 1; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; return r; }
// Goldberg's sum for the spin-weighted harmonics
static void sY_(int l, int m, int s, ld th, ld ph, ld& R, ld& I) { R = I = 0; if (l < abs(s) || l < abs(m)) return; ld si = sinl(th / 2), co = cosl(th / 2), sum = 0; for (int r = 0; r <= l - s; r++) { ld b = binom(l - s, r) * binom(l + s, r + s - m); if (b == 0) continue; int e = 2 * r + s - m; sum += (r % 2 ? -1 : 1) * b * powl(co, e) * powl(si, 2 * l - e); } ld f = sqrtl(fct(l + m) * fct(l - m) / (fct(l + s) * fct(l - s)) * (2 * l + 1) / (4 * M_PIl)); f *= (l + m - s) % 2 ? -1 : 1; R = f * sum * cosl(m * ph); I = f * sum * sinl(m * ph); }
static void sYc(int l, int m, int s, ld th, ld ph, ld& R, ld& I) { static std::map<std::tuple<int, int, int, ld>, ld> T; auto k = std::make_tuple(l, m, s, th); auto it = T.find(k); if (it == T.end()) { ld r, i; sY_(l, m, s, th, 0, r, i); it = T.emplace(k, r).first; } R = it->second * cosl(m * ph); I = it->second * sinl(m * ph); }
static void gl(int n, vector<ld>& x, vector<ld>& w) { x.resize(n); w.resize(n); for (int i = 0; i < n; i++) { ld z = cosl(M_PIl * (i + 0.75L) / (n + 0.5L)); for (int it = 0; it < 100; it++) { ld p = 1, q = 0; for (int k = 0; k < n; k++) { ld r = q; q = p; p = ((2 * k + 1) * z * q - k * r) / (k + 1); } ld dp = n * (z * p - q) / (z * z - 1), d = p / dp; z -= d; w[i] = 2 / ((1 - z * z) * dp * dp); if (fabsl(d) < 1e-18L) break; } x[i] = z; } }
static double gen_th(Case& c) { int k = c.i(0, 9); return k == 0 ? 0. : k == 1 ? M_PI : k == 2 ? M_PI / 2 : k == 3 ? c.logu(1e-8, 1) : k == 4 ? M_PI - c.logu(1e-8, 1) : M_PI * c.u01(); }
PBT(harmonics, {.quick = 6000, .thorough = 300000}) {
  if (!set_YlmTabs || !alloc_Plm_Tab) { c.describe("none"); return; } int L = c.toward(0, 60, 8); double th = gen_th(c), ph = c.b(1, 5) ? 0 : c.sym(10), x = cos(th); c.describe("lmax %d, theta %.17g, phi %.17g", L, th, ph); if (L > 1) c.nontrivial(); int n = (L + 1) * (L + 2) / 2;
  double* P = alloc_Plm_Tab(L); double *R = (double*) malloc(n * 8), *I = (double*) malloc(n * 8); set_PlmTab(L, x, P); set_YlmTabs(L, th, ph, R, I); ld thx = acosl((ld) x); // the Legendre functions get cos(theta)
  ld cond = 1 / std::max<ld>(fabsl(sinl(th)), 1e-7L); double sumerr = 0;
  for (int l = 0; l <= L; l++) { double add = 0; for (int m = -l; m <= l; m++) { int a = abs(m); ld nm = sqrtl((2 * l + 1) / 2.0L * fct(l - a) / fct(l + a)); double pt = Plm_from_Tab(L, P, l, a); ld want = Nlm(l, a, thx) / nm; ld tol = 1e-14L * (l + 2) * (l + 2) / nm * (1 + l); c.check(fabsl(pt - want) <= tol, "P_%d^%d(%.17g) is %.17g instead of %.17Lg", l, a, x, pt, want);
      if (m >= 0 && (l + m) % 5 == 0) { double q = PLegendre(l, m, x); c.check(fabsl(q - want) <= tol, "PLegendre(%d,%d,%.17g) is %.17g instead of %.17Lg", l, m, x, q, want); }
      double yr, yi; Ylm_from_Tabs(L, R, I, l, m, &yr, &yi); ld er, ei; Y_(l, m, th, ph, er, ei); ld tl = 1e-14L * (l + 2) * (l + 2) * (1 + fabs(ph)) + std::min<ld>(cond * 1e-15L, 3e-8L) * (l + 1) * (l + 1) * (l + 1); c.check(fabsl(yr - er) <= tl && fabsl(yi - ei) <= tl, "Y_%d^%d is %.17g %+.17gi instead of %.17Lg %+.17Lgi", l, m, yr, yi, er, ei); add += yr * yr + yi * yi; }
    c.check(fabs(add * 4 * M_PI / (2 * l + 1) - 1) <= 1e-12 * (l + 2) * (l + 2), "the sum of |Y_%d^m|^2 is %.15g instead of %.15g", l, add, (2 * l + 1) / (4 * M_PI)); sumerr += add; }
  if (Re_Ylm_slowly) { int l = c.i(0, L), m = c.i(-l, l); double yr, yi; Ylm_from_Tabs(L, R, I, l, m, &yr, &yi); double r = Re_Ylm_slowly(l, m, th, ph), i = Im_Ylm_slowly(l, m, th, ph); c.check(near(r, yr, 1e-13) && near(i, yi, 1e-13), "slow: %.17g %.17g and %.17g %.17g", r, i, yr, yi); c.check(near(Plm_slowly(l, abs(m), x), Plm_from_Tab(L, P, l, abs(m)), 1e-13), "Plm_slowly"); }
  if (Re_sYlm && L <= 12) for (int l = 0; l <= L; l++) for (int m = -l; m <= l; m++) { double tl0 = std::min<ld>(cond * 1e-15L, 3e-8L) * 2000; double yr, yi; Ylm_from_Tabs(L, R, I, l, m, &yr, &yi); c.check(fabs(Re_sYlm(l, m, 0, th, ph) - yr) < 1e-11 + tl0 && fabs(Im_sYlm(l, m, 0, th, ph) - yi) < 1e-11 + tl0, "spin 0: (%d,%d) is %.15g %+.15gi instead of %.15g %+.15gi", l, m, Re_sYlm(l, m, 0, th, ph), Im_sYlm(l, m, 0, th, ph), yr, yi); }
  free(P); free(R); free(I);
}
PBT(derivatives, {.quick = 4000, .thorough = 200000}) { // of sums of harmonics of a real function
  if (!SphHarm_dphi_forRealFunc) { c.describe("none"); return; } int L = c.toward(0, 24, 4), n = (L + 1) * (L + 2) / 2; bool top = c.b(); int M = top ? L : L - 1; double *co = (double*) malloc(16 * n), *dp = (double*) malloc(16 * n), *dt = (double*) malloc(16 * n); vector<ld> C(2 * n); for (int l = 0, i = 0; l <= L; l++) for (int m = 0; m <= l; m++, i += 2) { co[i] = l <= M && !c.b(1, 4) ? c.sym(1) : 0; co[i+1] = m && l <= M && !c.b(1, 4) ? c.sym(1) : 0; } c.describe("lmax %d, the highest l is %d", L, M); c.label(top ? "full" : "top l empty"); if (L > 2) c.nontrivial();
  vector<double> c0(co, co + 2 * n); SphHarm_dphi_forRealFunc(co, dp, L); SphHarm_sin_theta_dtheta_forRealFunc(co, dt, L); for (int i = 0; i < 2 * n; i++) c.check(same_bits(c0[i], co[i]), "the coefficients were changed");
  // projection of the derivative on all harmonics up to lmax, by quadrature of finite sums
  auto f = [&](const double* q, ld th, ld ph) { ld s = 0; for (int l = 0, i = 0; l <= L; l++) for (int m = 0; m <= l; m++, i += 2) { ld R, I; Y_(l, m, th, ph, R, I); s += (m ? 2 : 1) * (q[i] * R - q[i+1] * I); } return s; };
  for (int k = 0; k < 6; k++) { ld th = 0.05L + 3 * c.u01(), ph = c.sym(3), h = 1e-3L / (1 + L); auto d8 = [&](auto g) { return (672 * (g(h) - g(-h)) - 168 * (g(2*h) - g(-2*h)) + 32 * (g(3*h) - g(-3*h)) - 3 * (g(4*h) - g(-4*h))) / (840 * h); }; ld fp = d8([&](ld e) { return f(co, th, ph + e); }), ft = sinl(th) * d8([&](ld e) { return f(co, th + e, ph); }); ld sc = (1 + L) * (1 + L) * 10;
    c.check(fabsl(f(dp, th, ph) - fp) <= 1e-11L * sc, "d/dphi is %.15Lg instead of %.15Lg", f(dp, th, ph), fp); if (!top || L == 0) c.check(fabsl(f(dt, th, ph) - ft) <= 1e-11L * sc, "sin(theta) d/dtheta is %.15Lg instead of %.15Lg", f(dt, th, ph), ft); }
  auto e = [](int l, int m) { return l <= m ? 0.L : sqrtl(((ld) l * l - m * m) / ((2.0L * l + 1) * (2.0L * l - 1))); }; auto at = [&](int l, int m) { return l * (l + 1) + 2 * m; };
  for (int l = 0; l <= L; l++) for (int m = 0; m <= l; m++) for (int q = 0; q < 2; q++) { ld w = 0; if (l > m) w += (l - 1) * e(l, m) * co[at(l-1, m) + q]; if (l < L) w -= (l + 2) * e(l + 1, m) * co[at(l+1, m) + q]; c.check(fabsl(dt[at(l, m) + q] - w) <= 1e-14L * (l + 3) * 2, "coefficient (%d,%d) %d of sin(theta) d/dtheta is %.17g instead of %.17Lg", l, m, q, dt[at(l, m) + q], w); }
  free(co); free(dp); free(dt);
}
PBT(spin_weighted, {.quick = 6000, .thorough = 300000}) {
  if (!Re_sYlm) { c.describe("none"); return; } int s = c.i(-4, 4), l = c.i(0, 14), m = c.i(-l, l); double th = gen_th(c), ph = c.sym(4); c.describe("l %d m %d s %d, theta %.17g phi %.17g", l, m, s, th, ph); if (l >= abs(s) && s) c.nontrivial(); ld R, I; sY_(l, m, s, th, ph, R, I); double r = Re_sYlm(l, m, s, th, ph), i = Im_sYlm(l, m, s, th, ph); double tol = 1e-13 * pow(2.2, l) + 1e-13; if (l < abs(s)) c.label("vanishes");
  c.check(fabsl(r - R) <= tol && fabsl(i - I) <= tol, "the value is %.15g %+.15gi instead of %.15Lg %+.15Lgi", r, i, R, I); double r2 = Re_sYlm(l, -m, -s, th, ph), i2 = Im_sYlm(l, -m, -s, th, ph); int sg = (s + m) % 2 ? -1 : 1; c.check(fabs(r2 - sg * r) <= tol && fabs(i2 + sg * i) <= tol, "conjugation: %.15g %+.15gi and %.15g %+.15gi", r, i, r2, i2);
  if (Wigner_d_function_PG && l >= abs(s)) { double a = Wigner_d_function_PG(l, m, s, th), b = Wigner_d_function_WT(l, m, s, th); c.check(fabs(a - b) <= 1e-7 * pow(2.2, l) * 1e-2 + 1e-9, "the two Wigner functions are %.15g and %.15g", a, b); }
  if (l >= abs(s) && l > s && th > 0.05 && th < 3.09) { // spin raising
    auto d8 = [&](auto g) { double h = 2e-3; return (672 * (g(h) - g(-h)) - 168 * (g(2*h) - g(-2*h)) + 32 * (g(3*h) - g(-3*h)) - 3 * (g(4*h) - g(-4*h))) / (840 * h); }; double si = sin(th), co = cos(th); double dr = d8([&](double e) { return Re_sYlm(l, m, s, th + e, ph); }), di = d8([&](double e) { return Im_sYlm(l, m, s, th + e, ph); }); double f = sqrt((double) (l - s) * (l + s + 1)); double er = -(dr - s * co / si * r - m / si * r), ei = -(di - s * co / si * i - m / si * i); c.check(fabs(er - f * Re_sYlm(l, m, s + 1, th, ph)) <= 1e-7 * (1 + l) / si && fabs(ei - f * Im_sYlm(l, m, s + 1, th, ph)) <= 1e-7 * (1 + l) / si, "spin raising gives %.12g %+.12gi instead of %.12g %+.12gi", er, ei, f * Re_sYlm(l, m, s + 1, th, ph), f * Im_sYlm(l, m, s + 1, th, ph)); }
  int l2 = c.i(0, 14), m2 = c.b() ? m : c.i(-l2, l2); if (abs(m2) > l2) m2 = 0; static vector<ld> x, w; if (x.empty()) gl(18, x, w); double sum = 0, sui = 0; int np = 32; for (size_t a = 0; a < x.size(); a++) for (int b = 0; b < np; b++) { double t = acosl(x[a]), p = 2 * M_PI * b / np; double u = Re_sYlm(l, m, s, t, p), v = Im_sYlm(l, m, s, t, p), U = Re_sYlm(l2, m2, s, t, p), V = Im_sYlm(l2, m2, s, t, p); sum += w[a] * 2 * M_PI / np * (u * U + v * V); sui += w[a] * 2 * M_PI / np * (u * V - v * U); } double want = l == l2 && m == m2 && l >= abs(s); double t2 = 3e-13 * pow(2.2, std::max(l, l2)) + 1e-12; c.check(fabs(sum - want) <= t2 && fabs(sui) <= t2, "the product of (%d,%d) and (%d,%d) is %.15g %+.15gi", l, m, l2, m2, sum, sui);
}
PBT(legendre_transform, {.quick = 3000, .thorough = 100000}) { // s2kit
  if (!PmlTableGen) { c.describe("none"); return; } int bw = c.toward(1, 64, 8), m = c.b() ? c.i(0, bw - 1) : c.i(0, std::min(bw - 1, 3)), n = 2 * bw, K = bw - m; c.describe("bandwidth %d, m %d", bw, m); if (K > 1) c.nontrivial(); vector<double> w(4 * bw), ws(18 * bw); double* P = (double*) malloc(8 * n * K); double* co = (double*) malloc(8 * K); double* sm = (double*) malloc(8 * n); double* re = (double*) malloc(8 * K);
  PmlTableGen(bw, m, P, ws.data()); makeweights(bw, w.data()); for (int q = 0; q < K; q++) for (int j = 0; j < n; j++) { ld th = M_PIl * (2 * j + 1) / (4 * bw), e = Nlm(m + q, m, th); c.check(fabsl(P[q*n+j] - e) <= 1e-13L * (m + q + 2) * 10, "P_%d^%d at point %d is %.15g instead of %.15Lg", m + q, m, j, P[q*n+j], e); }
  for (int d = 0; d < 2 * bw; d++) { ld s = 0; for (int j = 0; j < n; j++) { ld th = M_PIl * (2 * j + 1) / (4 * bw); s += w[j] * Nlm(d, 0, th); } ld e = d ? 0 : sqrtl(2.0L); c.check(fabsl(s - e) <= 1e-12L * (d + 1), "the weights integrate P_%d to %.15Lg", d, s); }
  double mx = 0; for (int q = 0; q < K; q++) { co[q] = c.b(1, 4) ? 0 : c.sym(1); mx = std::max(mx, fabs(co[q])); } Naive_SynthesizeX(co, bw, m, sm, P); for (int j = 0; j < n; j++) { ld th = M_PIl * (2 * j + 1) / (4 * bw), s = 0; for (int q = 0; q < K; q++) s += co[q] * Nlm(m + q, m, th); c.check(fabsl(s - sm[j]) <= 1e-12L * bw * K, "synthesis at point %d is %.15g instead of %.15Lg", j, sm[j], s); }
  double extra = c.b() ? c.sym(1) : 0; vector<double> keep(sm, sm + n); if (extra) { for (int j = 0; j < n; j++) sm[j] += extra * Nlm(bw, m, M_PIl * (2 * j + 1) / (4 * bw)); c.label("with l=bandwidth"); } Naive_AnalysisX(sm, bw, m, w.data(), re, P, ws.data()); for (int q = 0; q < K; q++) c.check(fabs(re[q] - co[q]) <= 1e-11 * bw, "analysis: coefficient l=%d is %.15g instead of %.15g", m + q, re[q], co[q]);
  if (P_eval) { vector<double> ea(n), rs(n); for (int j = 0; j < n; j++) ea[j] = M_PI * (2 * j + 1) / (2. * n); P_eval(m, co, ea.data(), rs.data(), ws.data(), bw); for (int j = 0; j < n; j++) c.check(fabs(rs[j] - keep[j]) <= 1e-11 * bw * K, "P_eval at point %d is %.15g instead of %.15g", j, rs[j], keep[j]); }
  free(P); free(co); free(sm); free(re);
}
// ---------------------------------------------------------------- the whole program: modes of data on spheres
struct Mode { int l, m; double R, I; };
PBT(wave_modes, {.quick = 250, .thorough = 8000, .cpu_s = 60, .fs = true}) {
  int s = c.pickl<int>({-2, -2, -2, 0, -1, 2, 1}), lmax = c.i(0, 4), LB = c.i(std::max(0, abs(s)), 4); static const char* GT[] = {"full", "bitant", "quadrant", "rotant", "octant", "allbox"}; int gt = c.i(0, 5); bool bi = gt == 1 || gt == 2 || gt == 4, rot = gt == 2 || gt == 3 || gt == 4, oct = gt == 4; int need = lmax + LB, n2 = 2 * (need + 1) + 2; n2 += c.i(0, 4); if (bi) n2 = (n2 + 3) / 4 * 4; else n2 += n2 % 2; int n3 = need + 2 + c.i(0, 5); n3 = oct ? (n3 + 3) / 4 * 4 : n3 + n3 % 2; int nth = bi ? n2 / 4 : n2 / 2, nph = oct ? n3 / 4 + 1 : rot ? n3 / 2 : n3; if (oct && nph > n3 / 2) c.discard();
  int rb = c.b() ? 1 : -1, rr = c.b() ? 1 : -1, ro = c.b() ? 1 : -1; bool dflt = c.b(); if (dflt) rb = rr = ro = 1; // for the real part; the imaginary part has the opposite sign of rb and ro
  vector<double> tR, tI; double t = 0; int nt = c.i(1, 4); for (int i = 0; i < nt; i++) { t += 0.1 + c.u01(); int k = c.i(0, 5); if (k != 1) tR.push_back(t); if (k != 2) tI.push_back(t); }
  if (tR.empty() || tI.empty()) c.discard(); vector<vector<Mode>> M(nt + 1); std::map<double, vector<Mode>> at; auto modes = [&](double tt) -> vector<Mode>& { auto& v = at[tt]; return v; }; { std::set<double> all(tR.begin(), tR.end()); all.insert(tI.begin(), tI.end()); for (double q : all) for (int l = abs(s); l <= LB; l++) for (int m = -l; m <= l; m++) if (!c.b(1, 3)) at[q].push_back({l, m, c.sym(1), c.sym(1)}); else at[q]; }
  auto psi0 = [&](double tt, ld th, ld ph, ld& R, ld& I) { R = I = 0; for (auto& q : modes(tt)) { ld y, z; sYc(q.l, q.m, s, th, ph, y, z); R += q.R * y - q.I * z; I += q.R * z + q.I * y; } };
  auto psi = [&](double tt, ld th, ld ph, ld& R, ld& I) { R = I = 0; int cnt = 0; for (int a = 0; a <= bi; a++) for (int b = 0; b <= rot; b++) for (int o = 0; o <= oct; o++) { ld x, y, T = a ? M_PIl - th : th, P = ph + (b ? M_PIl : 0); if (o) P = M_PIl - P; psi0(tt, T, P, x, y); R += (a ? rb : 1) * (b ? rr : 1) * (o ? ro : 1) * x; I += (a ? -rb : 1) * (b ? rr : 1) * (o ? -ro : 1) * y; cnt++; } R /= cnt; I /= cnt; };
  c.describe("spin %d, lmax %d, data up to l=%d, %s, %d x %d points, signs %d %d %d, %d/%d times", s, lmax, LB, GT[gt], n2, n3, rb, rr, ro, (int) tR.size(), (int) tI.size()); c.label(GT[gt]); c.nontrivial(); string dir = c.scratch();
  for (int im = 0; im < 2; im++) { string f = strf("# data on a sphere\n  SphericalDF:\n n2 = %d\n n3 = %d\n gridtype = %s\n ntheta = %d\n nphi = %d\n", n2, n3, GT[gt], nth, nph); int it = 0; for (double tt : im ? tI : tR) { f += strf("iteration = %d\ntime = %.17g\n", it++, tt); for (int k = 0; k < nph; k++) for (int j = 0; j < nth; j++) { ld R, I; psi(tt, M_PIl * (2 * j + 1) / n2, 2 * M_PIl * k / n3, R, I); f += strf("%.17g\n", (double) (im ? I : R)); } f += "\n"; } spit(dir + (im ? "/im" : "/re"), f); }
  bool faces = lmax == 0; string par = strf("physics = ModeComputer\nModeComputer_lmax = %d\nModeComputer_spinweight = %d\nModeComputer_Re_sphere_data = re\nModeComputer_Im_sphere_data = im\nModeComputer_outfile_prefix = p_\nnboxes = 1\niterations = 0\n%s", lmax, s, faces ? "" : "Coordinates_set_bfaces = no\n"); if (!dflt) par += strf("ModeComputer_Re_bitantsym = %d\nModeComputer_Im_bitantsym = %d\nModeComputer_Re_rotantsym = %d\nModeComputer_Im_rotantsym = %d\nModeComputer_Re_octantsym = %d\nModeComputer_Im_octantsym = %d\n", rb, -rb, rr, rr, ro, -ro); spit(dir + "/m.par", par);
  if (chdir(dir.c_str())) c.discard(); int st = run_main({"m.par"}, [] {}); c.check(st_ok(st), "the program %s", st_str(st).c_str());
  vector<double> common; for (double q : tR) if (std::find(tI.begin(), tI.end(), q) != tI.end()) common.push_back(q); static vector<ld> x, w; if (x.empty()) gl(12, x, w); int np = 20;
  vector<vector<ld>> pu(common.size()), pv(common.size()); for (size_t q = 0; q < common.size(); q++) for (size_t a = 0; a < x.size(); a++) for (int b = 0; b < np; b++) { ld u, v; psi(common[q], acosl(x[a]), 2 * M_PIl * b / np, u, v); pu[q].push_back(u); pv[q].push_back(v); }
  for (int l = 0; l <= lmax; l++) for (int m = -l; m <= l; m++) { string fn = strf("m/p_l%dm%d_s%d.t", l, m, s), tx = slurp(fn); c.check(!tx.empty(), "%s was not written", fn.c_str()); std::istringstream is(tx); string ln; size_t row = 0; while (std::getline(is, ln)) { if (ln.empty() || ln[0] == '#' || ln[0] == '"') continue; double tt, R, I; c.check(sscanf(ln.c_str(), "%lf %lf %lf", &tt, &R, &I) == 3, "line '%s'", ln.c_str()); c.check(row < common.size() && fabs(tt - common[row]) < 1e-13 * (1 + tt), "%s: time %.15g in line %d", fn.c_str(), tt, (int) row); ld er = 0, ei = 0; for (size_t a = 0; a < x.size(); a++) for (int b = 0; b < np; b++) { ld th = acosl(x[a]), p = 2 * M_PIl * b / np, u = pu[row][a * np + b], v = pv[row][a * np + b], y, z; sYc(l, m, s, th, p, y, z); er += w[a] * 2 * M_PIl / np * (y * u + z * v); ei += w[a] * 2 * M_PIl / np * (y * v - z * u); } c.check(fabsl(er - R) <= 2e-9 && fabsl(ei - I) <= 2e-9, "mode (%d,%d) at t=%g is %.11g %+.11gi instead of %.11Lg %+.11Lgi", l, m, tt, R, I, er, ei); row++; } c.check(row == common.size(), "%s has %d times instead of %d", fn.c_str(), (int) row, (int) common.size()); }
}

// C33: post-Newtonian orbits and their waves (PN_CircularOrbit_GWs)
#include "run.h"
#include <sstream>
#include <complex>
using namespace pbt; typedef std::complex<double> cd;
extern "C" {
void PN_CircOrbit_compute_constants(double m1, double m2); void PN_CircOrbit_derivs(double x, double y[], double dydx[]); double PN_CircOrbit_compute_r(double y[]); void PN_CircOrbit_xodeint(double m1, double m2, double t1, double t2, double y[]);
void compute_hcross_hplus(double time, double y[], double* hcross, double* hplus, double D, double theta, double phi, double m1, double m2, void* pars);
double Re_sYlm(int l, int m, int s, double th, double ph); double Im_sYlm(int l, int m, int s, double th, double ph); int PN_CircularOrbit_GWs(tGrid*);
extern double tsdamp;
}
#define P "PN_CircularOrbit_GWs_"
static const double GE = 0.57721566490153286061;
struct V3 { double a[3]; double& operator[](int i) { return a[i]; } double operator[](int i) const { return a[i]; } };
static V3 operator+(V3 a, V3 b) { return {{a[0]+b[0], a[1]+b[1], a[2]+b[2]}}; } static V3 operator*(double f, V3 a) { return {{f*a[0], f*a[1], f*a[2]}}; } static double dot(V3 a, V3 b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; } static V3 X(V3 a, V3 b) { return {{a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}}; } static double len(V3 a) { return sqrt(dot(a, a)); }
static V3 unit(Case& c) { for (;;) { V3 v{{c.sym(1), c.sym(1), c.sym(1)}}; double l = len(v); if (l > 0.1 && l < 1) return 1 / l * v; if (l == 0) return {{0, 0, 1}}; } }
struct Bin { double m1, m2, om, Phi; V3 S1, S2, L; double m() const { return m1 + m2; } double nu() const { return m1 * m2 / m() / m(); } double v() const { return cbrt(m() * om); } V3 c1() const { return 1 / (m1*m1) * S1; } V3 c2() const { return 1 / (m2*m2) * S2; }
  vector<double> y() const { return {0, om, S1[0], S1[1], S1[2], S2[0], S2[1], S2[2], L[0], L[1], L[2], Phi}; }
  Bin swapped() const { Bin b = *this; std::swap(b.m1, b.m2); std::swap(b.S1, b.S2); return b; } };
static V3 es1(V3 L) { double s = hypot(L[0], L[2]); return s == 0 ? V3{{1, 0, 0}} : V3{{L[2]/s, 0, -L[0]/s}}; }
static V3 nvec(const Bin& b) { V3 e = es1(b.L); return cos(b.Phi) * e + sin(b.Phi) * X(b.L, e); }
static void setn(Bin& b, V3 n) { V3 e = es1(b.L); b.Phi = atan2(dot(n, X(b.L, e)), dot(n, e)); }
struct Rot { V3 r[3]; V3 operator()(V3 v) const { return {{dot(r[0], v), dot(r[1], v), dot(r[2], v)}}; } };
static Rot rot(Case& c) { V3 a = unit(c), b = unit(c); V3 d = X(a, b); while (len(d) < 0.1) { b = V3{{b[1], b[2] + 1, -b[0]}}; d = X(a, b); } d = 1 / len(d) * d; return {{a, d, X(a, d)}}; }
static Bin turned(const Bin& b, const Rot& R) { Bin q = b; q.S1 = R(b.S1); q.S2 = R(b.S2); q.L = R(b.L); setn(q, R(nvec(b))); return q; }
static Bin gen(Case& c, double v0, double v1, bool spins = true) { Bin b; double M = c.b() ? 1 : c.logu(0.1, 10), q = c.b(1, 5) ? 0.5 : 0.05 + 0.9 * c.u01(); b.m1 = M * q; b.m2 = M - b.m1; double v = v0 + (v1 - v0) * c.u01(); b.om = v*v*v / M; b.Phi = c.sym(7); b.L = c.b(1, 4) ? V3{{0, 0, 1}} : unit(c); int k = spins ? c.i(0, 4) : 0; double x1 = 0.95 * c.u01(), x2 = 0.95 * c.u01(); V3 u1 = unit(c), u2 = unit(c); if (k == 0) x1 = x2 = 0; if (k == 1) u1 = (c.b() ? 1. : -1.) * b.L, u2 = (c.b() ? 1. : -1.) * b.L; if (k == 2) x2 = 0; b.S1 = x1 * b.m1 * b.m1 * u1; b.S2 = x2 * b.m2 * b.m2 * u2; return b; }
static string str(const Bin& b) { return strf("m %.6g %.6g omega %.6g (v=%.4g) S1 (%.4g,%.4g,%.4g) S2 (%.4g,%.4g,%.4g) L (%.4g,%.4g,%.4g) Phi %.4g", b.m1, b.m2, b.om, b.v(), b.S1[0], b.S1[1], b.S1[2], b.S2[0], b.S2[1], b.S2[2], b.L[0], b.L[1], b.L[2], b.Phi); }
static const char* EOM[] = {"BuonannoEtAl2003", "TaylorT4", "Kidder1995", "BuonannoEtAl2003_v2cut", "Kidder1995_v2cut", "BuonannoEtAl2003_v6cut", "Kidder1995_v6cut", "TaylorT4_bug"};
static void begin() { setpar("physics", "PN_CircularOrbit_GWs"); setpar("outdir", "."); static int n = 0; if (!n++) initialize_libraries(); }
static void flags(int mask) { for (int k = 1; k <= 7; k++) setpar(strf(P "OrbitOv%d", k), mask >> k & 1 ? "1" : "0"); }
struct Rate { double om, Phi; V3 S1, S2, L; };
static Rate rate(const Bin& b) { PN_CircOrbit_compute_constants(b.m1, b.m2); auto y = b.y(); vector<double> d(12); PN_CircOrbit_derivs(0, y.data(), d.data()); return {d[1], d[11], {{d[2], d[3], d[4]}}, {{d[5], d[6], d[7]}}, {{d[8], d[9], d[10]}}}; }
// the series of the frequency (Taylor T4), from the literature
static double series(const Bin& b, int mask, bool kidder, bool spin) {
  double nu = b.nu(), v = b.v(), a[8] = {1, 0, -743/336. - 11*nu/4, 4*M_PI, kidder ? 0 : 34103/18144. + 13661*nu/2016 + 59*nu*nu/18, -M_PI*(4159/672. + 189*nu/8), 16447322263/139708800. - 1712*GE/105 + 16*M_PI*M_PI/3 - 56198689*nu/217728 + 451*M_PI*M_PI*nu/48 + 541*nu*nu/896 - 5605*nu*nu*nu/2592 - 856/105.*log(16*v*v), M_PI*(-4415/4032. + 358675*nu/6048 + 91495*nu*nu/1512)};
  if (kidder) a[5] = a[6] = a[7] = 0;
  if (spin) { double l1 = dot(b.L, b.c1()), l2 = dot(b.L, b.c2()), q1 = b.m1*b.m1/b.m()/b.m(), q2 = b.m2*b.m2/b.m()/b.m(); a[3] -= (113*q1/12 + 25*nu/4)*l1 + (113*q2/12 + 25*nu/4)*l2; a[4] += nu/48*(721*l1*l2 - 247*dot(b.c1(), b.c2())); }
  double s = 1; for (int k = 2; k < 8; k++) if (mask >> k & 1) s += a[k] * pow(v, k); return 96/5. * nu * b.om * b.om * pow(v, 5) * s;
}
PBT(rates, {.quick = 20000, .thorough = 2000000}) {
  begin(); Bin b = gen(c, 0.02, 0.4); int e = c.i(0, 7), mask = c.b() ? 255 : c.i(0, 255); setpar(P "OrbitEOMtype", EOM[e]); flags(mask); c.describe("%s terms %x: %s", EOM[e], mask, str(b).c_str()); c.label(EOM[e]); c.nontrivial();
  Rate r = rate(b); double v = b.v(), m = b.m(), nu = b.nu(), N = 96/5.*nu*b.om*b.om*pow(v, 5), w1 = len(r.S1), w2 = len(r.S2), pr = pow(v, 5)/m; auto eq = [&](double got, double want, double tol, const char* w) { c.check(fabs(got - want) <= tol, "%s is %.16g instead of %.16g", w, got, want); };
  // lengths do not change, the sum of Newtonian angular momentum and spins is conserved by precession
  eq(dot(r.S1, b.S1), 0, 1e-14*(w1 + pr*len(b.S1))*len(b.S1) + 1e-300, "change of |S1|"); eq(dot(r.S2, b.S2), 0, 1e-14*(w2 + pr*len(b.S2))*len(b.S2) + 1e-300, "change of |S2|"); eq(dot(r.L, b.L), 0, 1e-13*pow(v, 6)/(m*m*m)*(4 + 3*b.m1/b.m2 + 3*b.m2/b.m1)*(len(b.S1) + len(b.S2)) + 1e-300, "change of |L|"); V3 dJ = nu*m*m/v*r.L + r.S1 + r.S2; eq(len(dJ), 0, 1e-13*(w1 + w2 + pr*(len(b.S1) + len(b.S2))) + 1e-300, "change of L_N+S1+S2 by precession");
  // precession equations
  V3 w = pr*nu/2*(4 + 3*b.m2/b.m1)*X(b.L, b.S1) + pow(v, 6)/(2*m*m*m)*X(b.S2 + (-3*dot(b.L, b.S2))*b.L, b.S1); for (int i = 0; i < 3; i++) eq(r.S1[i], w[i], 1e-13*(w1 + len(b.S1)*pr), "dS1/dt");
  // the separation vector turns with omega about L
  if (fabs(b.L[1]) < 0.999) { double h = 1e-5/(b.om + len(r.L)); auto at = [&](double s) { Bin q = b; q.L = b.L + s*h*r.L; q.L = 1/len(q.L)*q.L; q.Phi += s*h*r.Phi; return nvec(q); }; V3 d = 1/(12*h)*((8.)*(at(1) + (-1.)*at(-1)) + (-1.)*(at(2) + (-1.)*at(-2))); eq(dot(d, X(b.L, nvec(b))), b.om, 1e-8*(b.om + len(r.L)/(1 - fabs(b.L[1]))), "angular velocity in the orbital plane"); eq(dot(d, b.L) + dot(nvec(b), r.L), 0, 1e-8*(b.om + len(r.L)/(1 - fabs(b.L[1]))), "velocity out of the orbital plane"); }
  // symmetries
  Rate s = rate(b.swapped()); eq(s.om, r.om, 1e-12*(N + fabs(r.om)), "d omega/dt with exchanged bodies"); eq(s.Phi, r.Phi, 1e-12*fabs(r.Phi), "d Phi/dt with exchanged bodies"); for (int i = 0; i < 3; i++) { eq(s.S1[i], r.S2[i], 1e-13*(w2 + pr*len(b.S2)), "dS2/dt with exchanged bodies"); eq(s.S2[i], r.S1[i], 1e-13*(w1 + pr*len(b.S1)), "dS1/dt with exchanged bodies"); eq(s.L[i], r.L[i], 1e-13*(len(r.L) + b.om), "dL/dt with exchanged bodies"); }
  Rot R = rot(c); Bin tb = turned(b, R); s = rate(tb); eq(s.om, r.om, 1e-11*(N + fabs(r.om)), "d omega/dt after a rotation"); V3 x = R(r.S1), z = R(r.L), x2 = R(r.S2); for (int i = 0; i < 3; i++) { eq(s.S1[i], x[i], 1e-12*(w1 + pr*len(b.S1)), "dS1/dt after a rotation"); eq(s.S2[i], x2[i], 1e-12*(w2 + pr*len(b.S2)), "dS2/dt after a rotation"); eq(s.L[i], z[i], 1e-12*(len(r.L) + b.om), "dL/dt after a rotation"); }
  double k = 2.5; Bin kb = b; kb.m1 *= k; kb.m2 *= k; kb.om /= k; kb.S1 = k*k*b.S1; kb.S2 = k*k*b.S2; s = rate(kb); eq(s.om*k*k, r.om, 1e-11*(N + fabs(r.om)), "scaled d omega/dt"); for (int i = 0; i < 3; i++) eq(s.S1[i]/k, r.S1[i], 1e-12*(w1 + pr*len(b.S1)), "scaled dS1/dt"); eq(s.Phi*k, r.Phi, 1e-11*fabs(r.Phi), "scaled d Phi/dt");
  // the frequency
  double ser = series(b, mask, e == 2 || e == 4 || e == 6, true); auto mk = [&](int j) { return (mask >> j & 1) * 1.; };
  if (e == 0 || e == 2) eq(r.om, ser, 1e-12*N*(1 + 300*pow(v, 6)), "d omega/dt");
  if (e == 1 || e == 7) { Bin q = b; q.S1 = q.S2 = V3{{0, 0, 0}}; Rate r0 = rate(q); eq(r0.om, series(q, mask, false, false), 1e-12*N*(1 + 300*pow(v, 6)), "d omega/dt without spins"); flags(mask & 0x1c); Bin q1 = b, q2 = b; q1.S2 = q2.S1 = V3{{0, 0, 0}}; double mix = rate(b).om - rate(q1).om - rate(q2).om + rate(q).om; double l1 = dot(b.L, b.c1()), l2 = dot(b.L, b.c2()), want = mk(4)*N*pow(v, 4)*nu/48*(721*l1*l2 - 247*dot(b.c1(), b.c2())); if (e == 1) eq(mix, want, 1e-12*N, "spin-spin part of d omega/dt"); else c.label("without spin-spin part");
    flags(mask & 0xc); eq(rate(b).om, series(b, mask & 0xc, false, true), 1e-12*N, "spin-orbit part of d omega/dt"); flags(mask); setpar(P "OrbitEOMtype", EOM[8 - e]); // linear in the spins both are the same
    auto lin = [&](Bin bb) { double h = 1e-3; auto f = [&](double t) { Bin z = bb; z.S1 = t*bb.S1; z.S2 = t*bb.S2; return rate(z).om; }; return (8*(f(h) - f(-h)) - (f(2*h) - f(-2*h)))/(12*h); }; double o2 = lin(b); setpar(P "OrbitEOMtype", EOM[e]); eq(lin(b), o2, 1e-8*N, "part of d omega/dt that is linear in the spins"); }
  if (e >= 3 && e <= 6) { bool six = e > 4; double vc = six ? 0.6 : 0.651; Bin q = b; q.om = vc*vc*vc/m; Rate rc = rate(q); double Nc = 96/5.*nu*q.om*q.om*pow(vc, 5); if (mk(six ? 6 : 2)) eq(rc.om, 0, 1e-9*Nc, "d omega/dt at the cutoff"); if (mask == 255) { int o = six && e == 6 ? 6 : e == 4 ? 5 : 8; q.om = 1e-3/m*(0.125 + 0.875*c.u01()); double vs = q.v(); Nc = 96/5.*nu*q.om*q.om*pow(vs, 5); eq(rate(q).om, series(q, mask, e == 4 || e == 6, true), Nc*(o == 5 ? 100 : o == 6 ? 100 : 1e4)*pow(vs, o), "d omega/dt at small velocity"); } }
}
static void rk4(Bin& b, double t, int n) { auto y = b.y(); PN_CircOrbit_compute_constants(b.m1, b.m2); double h = t / n; auto f = [&](vector<double> z) { vector<double> d(12); double l = sqrt(z[8]*z[8]+z[9]*z[9]+z[10]*z[10]); for (int k = 8; k < 11; k++) z[k] /= l; PN_CircOrbit_derivs(0, z.data(), d.data()); return d; }; for (int s = 0; s < n; s++) { auto ad = [&](const vector<double>& d, double q) { auto z = y; for (int k = 1; k < 12; k++) z[k] += q*d[k]; return z; }; auto k1 = f(y), k2 = f(ad(k1, h/2)), k3 = f(ad(k2, h/2)), k4 = f(ad(k3, h)); for (int k = 1; k < 12; k++) y[k] += h/6*(k1[k] + 2*k2[k] + 2*k3[k] + k4[k]); }
  b.om = y[1]; for (int k = 0; k < 3; k++) b.S1[k] = y[2+k], b.S2[k] = y[5+k], b.L[k] = y[8+k]; b.Phi = y[11]; b.L = 1/len(b.L)*b.L; }
static void load(Bin& b, const vector<double>& y) { b.om = y[1]; for (int k = 0; k < 3; k++) b.S1[k] = y[2+k], b.S2[k] = y[5+k], b.L[k] = y[8+k]; b.Phi = y[11]; }
PBT(orbit, {.quick = 600, .thorough = 60000, .cpu_s = 60}) {
  begin(); Bin b = gen(c, 0.12, 0.25); int e = c.i(0, 7), mask = c.b(1, 4) ? 0 : c.b() ? 255 : c.i(0, 255) | 8 | 2; setpar(P "OrbitEOMtype", EOM[mask ? e : 0]); flags(mask); double m = b.m(), nu = b.nu(), v = b.v(), tc = 5/256.*m/nu*pow(v, -8), T = tc*(0.05 + 0.5*c.u01()); int parts = c.i(1, 5); c.describe("%s terms %x for %g: %s", EOM[e], mask, T, str(b).c_str()); c.label(mask ? EOM[e] : "Newtonian"); c.nontrivial(); double vd = c.b() ? 0.52 : v*1.03; setpar(P "vdamp", strf("%.17g", vd));
  { Bin q = b; q.L = b.L; if (hypot(b.L[0], b.L[2]) < 0.2) c.discard(); } double prec = pow(v, 5)/m*T; (void) prec;
  tsdamp = 1e100; auto y = b.y(); double t = c.b() ? 0 : c.sym(1e4), t0 = t; double s1 = len(b.S1), s2 = len(b.S2); Bin q = b; for (int p = 0; p < parts; p++) { double to = p == parts - 1 ? t0 + T : t0 + T*(p + c.u01())/parts; Bin o = q; double dt = to - t; bool gone = c.exits([&] { PN_CircOrbit_xodeint(b.m1, b.m2, t, to, y.data()); }); c.check(!gone, "the program ends"); load(q, y); double r = PN_CircOrbit_compute_r(y.data()); c.check(near(y[0], r, 1e-12*r), "the separation is %g instead of %g", y[0], r);
    c.check(fabs(len(q.S1) - s1) <= 1e-6*s1 && fabs(len(q.S2) - s2) <= 1e-6*s2, "lengths of the spins %.15g %.15g instead of %.15g %.15g", len(q.S1), len(q.S2), s1, s2); c.check(fabs(len(q.L) - 1) <= 1e-6, "|L| is %.15g", len(q.L)); if (dt > 1e-6*T) c.check(q.om > o.om, "omega changes from %.15g to %.15g", o.om, q.om); t = to; }
  double vend = q.v(); if (vend < vd*(1 - 1e-9)) c.check(tsdamp == 1e100 || fabs(vend/vd - 1) < 0.1, "the damping starts at %g with v=%g", tsdamp, vend); else { c.check(tsdamp >= t0 && tsdamp <= t0 + T*(1 + 1e-12), "the damping starts at %g", tsdamp); c.label("damped"); }
  if (mask == 0) { double om = b.om*pow(1 - T/tc, -3/8.); c.check(near(q.om, om, 1e-6*om), "Newtonian: omega is %.15g instead of %.15g", q.om, om); if (s1 == 0 && s2 == 0) { double ph = (pow(v, -5) - pow(m*om, -5/3.))/(32*nu); c.check(fabs(q.Phi - b.Phi - ph) <= 1e-6*ph + 1e-6, "Newtonian: the phase changes by %.12g instead of %.12g", q.Phi - b.Phi, ph); } }
  Bin z = b; rk4(z, T, 4000); double dph = fabs(z.Phi - b.Phi), sc = std::max(s1, s2); c.check(near(q.om, z.om, 3e-6*z.om), "omega is %.12g instead of %.12g", q.om, z.om); for (int i = 0; i < 3; i++) c.check(fabs(q.S1[i] - z.S1[i]) <= 1e-5*sc && fabs(q.S2[i] - z.S2[i]) <= 1e-5*sc && fabs(q.L[i] - z.L[i]) <= 1e-5, "after %g: S1 %g %g S2 %g %g L %g %g (component %d)", T, q.S1[i], z.S1[i], q.S2[i], z.S2[i], q.L[i], z.L[i], i); c.check(fabs(q.Phi - z.Phi) <= 1e-6*dph + 1e-5, "the phase is %.12g instead of %.12g", q.Phi, z.Phi);
  if (c.b()) { PN_CircOrbit_xodeint(b.m1, b.m2, t0 + T, t0, y.data()); load(q, y); c.check(near(q.om, b.om, 1e-5*b.om) && fabs(q.Phi - b.Phi) <= 3e-6*dph + 1e-5, "and back: omega %.12g instead of %.12g, phase %.12g instead of %.12g", q.om, b.om, q.Phi, b.Phi); for (int i = 0; i < 3; i++) c.check(fabs(q.L[i] - b.L[i]) < 1e-4, "and back: L"); }
}
// ---------------------------------------------------------------- waves
static double RS(const Bin& b) { auto y = b.y(); PN_CircOrbit_compute_constants(b.m1, b.m2); return PN_CircOrbit_compute_r(y.data()); }
static cd H(const Bin& b, double r, double th, double ph, double D = 1, double t = 0) { auto y = b.y(); y[0] = r; double hx, hp; compute_hcross_hplus(t, y.data(), &hx, &hp, D, th, ph, b.m1, b.m2, nullptr); return cd(hp, -hx); }
static void amp(int mask) { for (int k = 1; k <= 4; k++) setpar(strf(P "AmpOv%d", k), mask >> k & 1 ? "1" : "0"); }
static void frame(double th, double ph, V3& N, V3& et, V3& ep) { N = V3{{sin(th)*cos(ph), sin(th)*sin(ph), cos(th)}}; et = V3{{cos(th)*cos(ph), cos(th)*sin(ph), -sin(th)}}; ep = V3{{-sin(ph), cos(ph), 0}}; }
// waveform without spins, orbit in the xy-plane, from Blanchet, Iyer, Will and Wiseman, Class. Quantum Grav. 13, 575 (1996), without the tail, with powers of m/r instead of omega
static cd biww(const Bin& b, double g, int mask, double th, double ph) {
  double c1 = cos(th), s = sin(th), c2 = c1*c1, c4 = c2*c2, s2 = s*s, nu = b.nu(), dm = (b.m1 - b.m2)/b.m(); V3 n = nvec(b); double psi = atan2(n[1], n[0]) - ph + M_PI/2; auto C = [&](int k) { return cos(k*psi); }; auto S = [&](int k) { return sin(k*psi); };
  double p[4], x[4]; p[0] = -(1 + c2)*C(2); x[0] = -2*c1*S(2);
  p[1] = -s/8*dm*((5 + c2)*C(1) - 9*(1 + c2)*C(3)); x[1] = -0.75*s*c1*dm*(S(1) - 3*S(3));
  p[2] = 1/6.*((19 + 9*c2 - 2*c4) - nu*(19 - 11*c2 - 6*c4))*C(2) - 4/3.*s2*(1 + c2)*(1 - 3*nu)*C(4); x[2] = c1/3*((17 - 4*c2) - nu*(13 - 12*c2))*S(2) - 8/3.*(1 - 3*nu)*c1*s2*S(4);
  p[3] = s/192*dm*(((57 + 60*c2 - c4) - 2*nu*(49 - 12*c2 - c4))*C(1) - 13.5*((73 + 40*c2 - 9*c4) - 2*nu*(25 - 8*c2 - 9*c4))*C(3) + 312.5*(1 - 2*nu)*s2*(1 + c2)*C(5)); x[3] = s*c1/96*dm*(((63 - 5*c2) - 2*nu*(23 - 5*c2))*S(1) - 13.5*((67 - 15*c2) - 2*nu*(19 - 15*c2))*S(3) + 312.5*(1 - 2*nu)*s2*S(5));
  for (double* h : {p, x}) { h[3] -= 1.5*(1 - nu/3)*h[1]; h[2] -= (1 - nu/3)*h[0]; } double hp = p[0], hx = x[0]; for (int k = 1; k <= 3; k++) if (mask >> k & 1) hp += p[k]*pow(g, k/2.), hx += x[k]*pow(g, k/2.); double f = 2*b.m()*nu*g; return -cd(f*hp, -f*hx);
}
static void gl(int n, vector<double>& x, vector<double>& w) { x.resize(n); w.resize(n); for (int i = 0; i < n; i++) { double z = cos(M_PI*(i + 0.75)/(n + 0.5)); double dp = 1; for (int it = 0; it < 60; it++) { double p = 1, q = 0; for (int k = 0; k < n; k++) { double r = q; q = p; p = ((2*k + 1)*z*q - k*r)/(k + 1); } dp = n*(z*p - q)/(z*z - 1); z -= p/dp; } x[i] = z; w[i] = 2/((1 - z*z)*dp*dp); } }
template <class F> static cd mode(int l, int m, int s, const F& f) { static vector<double> x, w; if (x.empty()) gl(12, x, w); cd r = 0; for (int i = 0; i < 12; i++) for (int k = 0; k < 24; k++) { double th = acos(x[i]), ph = 2*M_PI*k/24; r += w[i]*2*M_PI/24*f(th, ph)*cd(Re_sYlm(l, m, s, th, ph), -Im_sYlm(l, m, s, th, ph)); } return r; }
PBT(wave, {.quick = 6000, .thorough = 500000}) {
  begin(); flags(255); Bin b = gen(c, 0.05, 0.4); double th = c.b(1, 6) ? c.pickl<double>({0, M_PI/2, M_PI}) : M_PI*c.u01(), ph = c.sym(7); int mask = c.b() ? 14 : 2*c.i(0, 15); amp(mask); tsdamp = 1e100; double r = RS(b); c.check(r > 0 || b.v() > 0.3, "separation %g", r); if (r < b.m()) c.discard(); double g = b.m()/r, D = c.logu(0.1, 100); c.describe("order %x, observer %.6g,%.6g: %s", mask, th, ph, str(b).c_str()); c.nontrivial(); c.label(len(b.S1) + len(b.S2) > 0 ? "spins" : "no spins");
  double sc = 2*b.m()*b.nu()*g*(1 + 20*g); cd h = H(b, r, th, ph); auto eq = [&](cd got, cd want, double tol, const char* w) { c.check(std::abs(got - want) <= tol*sc, "%s: h+ - i hx is %.15g %+.15gi instead of %.15g %+.15gi", w, got.real(), got.imag(), want.real(), want.imag()); };
  eq(H(b, r, th, ph, D)*D, h, 1e-13, "distance"); Bin sw = b.swapped(); sw.Phi += M_PI; eq(H(sw, r, th, ph), h, 1e-12, "bodies exchanged"); Bin kb = b; kb.m1 *= 3; kb.m2 *= 3; kb.om /= 3; kb.S1 = 9*b.S1; kb.S2 = 9*b.S2; eq(1/3.*H(kb, 3*r, th, ph), h, 1e-12, "masses scaled"); c.check(near(RS(kb), 3*r, 1e-12*3*r) && near(RS(b.swapped()), r, 1e-12*r), "separation after scaling and exchange: %g %g", RS(kb)/3, RS(b.swapped()));
  // every rotation of binary and observer: the polarisation turns with the tangent vectors
  Rot R = rot(c); Bin tb = turned(b, R); V3 N, et, ep, N2, et2, ep2; frame(th, ph, N, et, ep); N2 = R(N); double th2 = acos(std::max(-1., std::min(1., N2[2]))), ph2 = atan2(N2[1], N2[0]); double hy = hypot(tb.L[0], tb.L[2]), hy0 = hypot(b.L[0], b.L[2]); if (hypot(N2[0], N2[1]) > 1e-3 && (hy > 1e-3 || hy == 0) && (hy0 > 1e-3 || hy0 == 0)) { /* the ascending node is badly defined close to the y-axis */ frame(th2, ph2, N2, et2, ep2); cd e(dot(et2, R(et)), dot(ep2, R(et))); /* R(etheta) in the new frame */ eq(H(tb, r, th2, ph2)*(e*e), h, 1e-10, "turned"); } c.check(near(RS(tb), r, 1e-11*r), "separation after a rotation");
  // orders
  if (mask) { cd sum; amp(0); cd h0 = H(b, r, th, ph); sum = h0; for (int k = 1; k <= 4; k++) if (mask >> k & 1) { amp(1 << k); sum += H(b, r, th, ph) - h0; } amp(mask); eq(h, sum, 1e-12, "sum of the orders"); }
  // without spins
  Bin q = b; q.S1 = q.S2 = V3{{0, 0, 0}}; q.L = V3{{0, 0, 1}}; eq(H(q, r, th, ph), biww(q, g, mask, th, ph), 1e-11, "without spins");
  // damping
  double ts = c.sym(100)*b.m(), t = ts + c.sym(5)*12*b.m(); tsdamp = ts; eq(H(b, r, th, ph, 1, t), h/(1 + exp((t - ts)/(12*b.m()))), 1e-12, "damped"); tsdamp = 1e100;
  // spins along L: modes from Arun et al, Phys. Rev. D 79, 104023
  if (c.b(1, 4)) { c.label("modes"); q = b; q.L = V3{{0, 0, 1}}; q.S1 = V3{{0, 0, b.m1*b.m1*c.sym(0.9)}}; q.S2 = V3{{0, 0, b.m2*b.m2*c.sym(0.9)}}; amp(14); double nu = b.nu(), dm = (b.m1 - b.m2)/b.m(), x1 = q.c1()[2], x2 = q.c2()[2], xs = (x1 + x2)/2, xa = (x1 - x2)/2, m = b.m(), sig = (x1*(2*b.m1*b.m1/m/m + 3*nu) + x2*(2*b.m2*b.m2/m/m + 3*nu))/3; V3 n = nvec(q); double psi = atan2(n[1], n[0]); auto f = [&](double a, double p) { return H(q, r, a, p); };
    cd F = -8*sqrt(M_PI/5)*m*nu*g, h22 = F*std::polar(1., -2*psi)*(1 + g*(-107/42. + 55*nu/42 - (1 - nu/3)) + pow(g, 1.5)*(-4/3.*((1 - nu)*xs + dm*xa) - sig));
    cd h21 = F*std::polar(1., -psi)*cd(0, 1)*(sqrt(g)*dm/3 - g*(xa + dm*xs)/2 + pow(g, 1.5)*dm/3*(-17/28. + 5*nu/7 - 1.5*(1 - nu/3))), h32 = F*std::polar(1., -2*psi)*sqrt(5/7.)*(g*(1 - 3*nu)/3 + pow(g, 1.5)*4/3.*nu*xs);
    eq(mode(2, 2, -2, f), h22, 1e-10, "mode 2,2"); eq(mode(2, 1, -2, f), h21, 1e-10, "mode 2,1"); eq(mode(3, 2, -2, f), h32, 1e-10, "mode 3,2"); eq(mode(2, -2, -2, f), std::conj(h22), 1e-10, "mode 2,-2"); eq(mode(2, -1, -2, f), -std::conj(h21)*-1., 1e-10, "mode 2,-1"); }
}
// ---------------------------------------------------------------- the whole module
static void setbin(const Bin& b) { setpar(P "omega", strf("%.17g", b.om*b.m())); setpar(P "m1", strf("%.17g", b.m1)); setpar(P "m2", strf("%.17g", b.m2)); for (int k = 0; k < 3; k++) { setpar(strf(P "chi1%c", "xyz"[k]), strf("%.17g", b.c1()[k])); setpar(strf(P "chi2%c", "xyz"[k]), strf("%.17g", b.c2()[k])); setpar(strf(P "Ln%c", "xyz"[k]), strf("%.17g", b.L[k])); } setpar(P "Phi", strf("%.17g", b.Phi)); }
static tGrid* pngrid(int lmax, int Lmax) { setpar("physics", "PN_CircularOrbit_GWs"); setpar(P "lmax", strf("%d", lmax)); setpar(P "sphere_Lmax", strf("%d", Lmax)); BoxSpec s; for (auto& d : s.d) { d.n = 4; d.a = 1; d.b = 2; d.basis = "Fourier"; d.tt = "0 NUMREC_FFT"; } vector<BoxSpec> S = {s}; tGrid* g = new_grid(S, true, {{"Coordinates_set_bfaces", "no"}}); RunFun(INITIALDATA, g); return g; }
static vector<vector<double>> table(Case& c, const string& f, string* head = nullptr) { vector<vector<double>> T; std::istringstream in(slurp(f)); string l; c.check(exists(f), "file %s does not exist", f.c_str()); while (getline(in, l)) { if (l[0] == '#') { if (head && head->empty()) *head = l; continue; } vector<double> r; for (auto& w : words(l)) r.push_back(atof(w.c_str())); T.push_back(r); } return T; }
PBT(run, {.quick = 150, .thorough = 6000, .cpu_s = 120, .fs = true}) {
  Bin b = gen(c, 0.1, 0.3); if (hypot(b.L[0], b.L[2]) < 0.3) c.discard(); int e = c.i(0, 7), mask = c.pickl<int>({14, 14, 30, 0}), lmax = c.i(2, 6), Lmax = std::max(lmax, c.pickl<int>({8, 9})), rows = c.i(1, 4); double m = b.m(), v = b.v(), dt = m*(0.2 + 20*c.u01()), t1 = c.b() ? 0 : c.sym(100), D = c.logu(0.5, 20); bool back = c.b(1, 6), psi4 = c.b(), reim = c.b(), ob = c.b(); string of = c.pickl<const char*>({"S/m^2", "yvec", "S/m^2 Add_E_J", "yvec Add_Eb/mu_L/Mmu", "yvec Add_E_J Add_Eb/mu_L/Mmu"}); double th = M_PI*c.u01(), ph = c.sym(6), Tm = dt*(rows - 0.5); if (Tm > 0.5*5/256.*m/b.nu()*pow(v, -8)) c.discard();
  c.describe("%s, lmax %d Lmax %d, %d rows, dt %g%s%s, orbit file '%s': %s", EOM[e], lmax, Lmax, rows, dt, back ? " backwards" : "", psi4 ? ", psi4" : "", of.c_str(), str(b).c_str()); c.label(EOM[e]); if (psi4) c.label("psi4"); if (rows > 1) c.nontrivial();
  bool damped = c.b(1, 4); setpar(P "OrbitEOMtype", EOM[e]); setpar(P "vdamp", strf("%.17g", damped ? v*1.0001 : 0.6)); setpar(P "D", strf("%.17g", D)); setpar(P "t1", strf("%.17g", t1)); setpar(P "t2", strf("%.17g", t1 + (back ? -1 : 1)*Tm)); setpar(P "dt", strf("%.17g", dt)); setpar(P "computePsi4", psi4 ? "yes" : "no"); setpar(P "HmodeOutputFormat", reim ? "Re_Im" : "plus_cross"); setpar(P "orbitfile_format", of); if (ob) setpar(P "theta_h", strf("%.17g", th)), setpar(P "phi_h", strf("%.17g", ph)); flags(255); amp(mask); setbin(b); bool pre = c.b(1, 4); string hf = pre ? "waveh_" : "h_", pf = pre ? "w4" : "psi4_"; setpar(P "hfile_prefix", hf); setpar(P "Psi4file_prefix", pf);
  tGrid* g = pngrid(lmax, Lmax); RunFun(ANALYZE, g); double ts = tsdamp; if (ts > t1 + Tm) ts = 1e100; /* the step after the last row */ if (back) dt = -dt; string head; auto T = table(c, "orbit.t", &head); c.check((int) T.size() == rows, "orbit.t has %d rows instead of %d", (int) T.size(), rows); int cols = 13; bool EJ = of.find("E_J") != string::npos, EL = of.find("Eb") != string::npos, so = of.find("S/m^2") != string::npos; if (EJ) cols += 4; if (EL) cols += 4; if (ob) cols += 2; int hc = words(head).size() - 1 + (ob ? 1 : 0); c.check(hc == cols, "the header of orbit.t names %d columns instead of %d: %s", hc, cols, head.c_str());
  vector<cd> want4; Bin q = b; for (int i = 0; i < rows; i++) { auto& r = T[i]; double t = t1 + i*dt; c.check((int) r.size() == cols, "row %d has %d columns instead of %d", i, (int) r.size(), cols); if (i) rk4(q, dt, 60); c.check(near(r[0], t, 1e-11*(fabs(t1) + rows*fabs(dt))), "time %.17g instead of %.17g", r[0], t); double u1 = so ? 1/(b.m1*b.m1) : 1, u2 = so ? 1/(b.m2*b.m2) : 1, s1 = len(b.S1), s2 = len(b.S2); auto ry = [&](int k, double w, double tol) { c.check(fabs(r[k+1] - w) <= tol, "column %d in row %d is %.14g instead of %.14g", k + 2, i, r[k+1], w); };
    PN_CircOrbit_compute_constants(b.m1, b.m2); double sep = PN_CircOrbit_compute_r(q.y().data()); ry(0, sep, 1e-6*sep); ry(1, q.om, 2e-6*q.om); for (int k = 0; k < 3; k++) { ry(2 + k, q.S1[k]*u1, 1e-5*u1*s1); ry(5 + k, q.S2[k]*u2, 1e-5*u2*s2); ry(8 + k, q.L[k], 1e-5); } ry(11, q.Phi, 1e-5 + 1e-6*fabs(q.Phi - b.Phi)); Bin a = q; a.om = r[2]; for (int k = 0; k < 3; k++) a.S1[k] = r[3+k]/u1, a.S2[k] = r[6+k]/u2, a.L[k] = r[9+k]; a.Phi = r[12]; tsdamp = ts; double amp0 = 2*m*b.nu()*m/r[1]/D;
    if (ob) { cd h = H(a, r[1], th, ph, D, t); c.check(std::abs(cd(r[cols-2], -r[cols-1]) - h) <= 1e-9*amp0, "h at the observer in row %d is %g %g instead of %g %g", i, r[cols-2], r[cols-1], h.real(), -h.imag()); }
    if (EJ) { double J[3]; if (EL) { double Mm = m*m*b.nu(); for (int k = 0; k < 3; k++) { J[k] = r[18+k]*Mm + a.S1[k] + a.S2[k]; c.check(near(r[14+k], J[k], 1e-11*(fabs(J[k]) + m*m)), "J is not L+S in row %d: %.15g and %.15g", i, r[14+k], J[k]); } c.check(near(r[13], m + r[17]*m*b.nu(), 1e-12*m), "E is not M+Eb in row %d", i); } c.check(r[13] < m && r[13] > 0.8*m, "energy %g in row %d", r[13], i); }
    // the modes of this row; psi4 from the second derivative of the modes of h
    for (int l = 2; l <= lmax; l++) for (int mm = -l; mm <= l; mm++) { string fn = strf("%sl%dm%d_s-2.t", hf.c_str(), l, mm); auto M = table(c, fn); c.check((int) M.size() == rows && M[i].size() == 3, "%s has %d rows instead of %d", fn.c_str(), (int) M.size(), rows); c.check(near(M[i][0], t, 1e-11*(fabs(t1) + rows*fabs(dt))), "time in %s", fn.c_str()); auto modeof = [&](const Bin& z, double sp, double tt) { return mode(l, mm, -2, [&](double x, double y) { return H(z, sp, x, y, D, tt); }); }; if (l > 3 && l != lmax) continue; cd w = modeof(a, r[1], t); double wi = reim ? w.imag() : -w.imag(); c.check(std::abs(cd(M[i][1] - w.real(), M[i][2] - wi)) <= 1e-9*amp0, "mode %d,%d in row %d is %.12g %.12g instead of %.12g %.12g", l, mm, i, M[i][1], M[i][2], w.real(), wi);
      if (psi4 && (l == 2 || l == lmax)) { auto at = [&](double s) { Bin z = a; rk4(z, s, 20); PN_CircOrbit_compute_constants(b.m1, b.m2); return modeof(z, PN_CircOrbit_compute_r(z.y().data()), t + s); }; double h = 0.15*m*std::min(1., 0.06/(a.om*m)); cd dd = (-30.*w + 16.*(at(h) + at(-h)) - (at(2*h) + at(-2*h)))/(12*h*h); auto Q = table(c, strf("%sl%dm%d_s-2.t", pf.c_str(), l, mm)); c.check((int) Q.size() == rows, "psi4 has %d rows", (int) Q.size()); double fd = 1e-3*fabs(dt), sc4 = amp0*(a.om*a.om*30*(fd*fd*a.om*a.om*30 + 2e-4)) + 3e-9*amp0/std::min(fd*fd, 1.)*1e-4 + (1e-13*amp0)/(fd*fd); c.check(std::abs(cd(Q[i][1], Q[i][2]) - dd) <= sc4, "psi4 mode %d,%d in row %d is %.10g %.10g instead of %.10g %.10g", l, mm, i, Q[i][1], Q[i][2], dd.real(), dd.imag()); } } }
}
PBT(energy, {.quick = 200, .thorough = 10000, .cpu_s = 60, .fs = true}) {
  int e = c.i(0, 2); Bin b = gen(c, 0.003, 0.01); double x1 = c.b(1, 4) ? 0 : c.sym(0.9), x2 = c.b(1, 4) ? 0 : c.sym(0.9); b.S1 = x1*b.m1*b.m1*b.L; b.S2 = x2*b.m2*b.m2*b.L; c.describe("%s: %s", EOM[e], str(b).c_str()); c.nontrivial(); c.label(EOM[e]); double m = b.m(), nu = b.nu(), v = b.v(); bool first = true; tGrid* g = nullptr;
  auto EL = [&](double lo) { Bin q = b; q.om *= exp(lo); setpar(P "OrbitEOMtype", EOM[e]); setpar(P "orbitfile_format", "yvec Add_Eb/mu_L/Mmu"); setpar(P "t1", "0"); setpar(P "t2", "1e-3"); setpar(P "dt", "1"); setbin(q); if (first) { flags(255); amp(14); g = pngrid(2, 2); first = false; } RunFun(ANALYZE, g); auto T = table(c, "orbit.t"); c.check(T.size() == 1 && T[0].size() == 17, "orbit.t has the wrong shape"); V3 L{{T[0][14], T[0][15], T[0][16]}}; double l = dot(L, b.L); c.check(len(L + (-l)*b.L) < 1e-13*l, "L is not parallel"); return std::make_pair(T[0][13], l*m); };
  auto E0 = EL(0); double h = 0.03, dE = 0, dL = 0, w[4] = {672/840., -168/840., 32/840., -3/840.}; for (int k = 1; k <= 4; k++) { auto a = EL(k*h), z = EL(-k*h); dE += w[k-1]*(a.first - z.first)/h; dL += w[k-1]*(a.second - z.second)/h; } double res = (dE - b.om*dL)/dE; c.check(dE < 0, "the energy grows with the frequency"); if (getenv("PRW")) fprintf(stderr, "why %s v %g res %g = %g v^5, %g v^4, %g v^3, x1 %g x2 %g nu %g\n", EOM[e], v, res, res/pow(v, 5), res/pow(v, 4), res/pow(v, 3), x1, x2, nu); c.check(fabs(res) <= 40*pow(v, 5) + 1e-11, "dE and omega dL differ: (dE-omega dL)/dE = %g = %g v^4 = %g v^3 = %g v^2", res, res/pow(v, 4), res/pow(v, 3), res/v/v);
  if (e < 2 && x1 == 0 && x2 == 0) { double x = v*v, E = -0.5*x*(1 - (9 + nu)/12*x + (-81 + 57*nu - nu*nu)/24*x*x + (-675/64. + (34445/576. - 205*M_PI*M_PI/96)*nu - 155*nu*nu/96 - 35*nu*nu*nu/5184)*x*x*x); c.check(near(E0.first, E, 1e-14*fabs(E)*20), "energy %.17g instead of %.17g", E0.first, E); }
}

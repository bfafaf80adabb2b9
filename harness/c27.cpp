// C27: scalar root finders, bracketing and minimisers (numerics and NumericUtils)
#include "grid.h"
#include <cfloat>
using namespace pbt; using std::string; using std::vector;
#define W __attribute__((weak))
extern "C" {
W int newton1d_brak(double* x0, void (*fdf)(double x, void* par, double* f, double* df), double x1, double x2, void* par, int maxits, double xacc, int pr);
W int rtbisect(double* x0, double (*func)(double, void* par), double x1, double x2, void* par, int maxits, double xacc, int pr);
W int rt_brak(double (*func)(double x, void* par), void* par, double* x1, double* x2, int maxits);
W int rtbrent_brak(double* x0, double (*func)(double, void* par), double x1, double x2, void* par, int maxits, double xacc, int pr);
W int minbrent_brak(double (*f)(double x, void* p), void* par, double ax, double bx, double cx, int maxits, double tol, double* xmin, double* fmin, int pr);
W int min_brak(double (*func)(double x, void* p), void* par, double* ax, double* bx, double* cx, double* fa, double* fb, double* fc, int maxits);
W int zbrac_P(double (*func)(double, void* par), double* x1, double* x2, void* par);
W int zbrent_itsP(double* x0, double (*func)(double, void* par), double x1, double x2, void* par, int ITMAX, double tol);
W int rtsafe_itsP(double* x0, void (*funcd)(double x, double* f, double* df, void* par), double x1, double x2, void* par, int MAXIT, double xacc);
W double brent_with_pointer_to_pars(double ax, double bx, double cx, double (*f)(double, void* ppointer), double tol, double* xmin, void* parpointer);
W void mnbrak_with_pointer_to_pars(double* ax, double* bx, double* cx, double* fa, double* fb, double* fc, double (*func)(double, void* ppointer), void* parpointer);
W double brent(double ax, double bx, double cx, double (*f)(double), double tol, double* xmin);
W void mnbrak(double* ax, double* bx, double* cx, double* fa, double* fb, double* fc, double (*func)(double));
W void powell(double p[], double** xi, int n, double ftol, int* iter, double* fret, double (*func)(double[]));
}
// ---------------------------------------------------------------- functions
struct Func_ { int kind; vector<double> p; double scale, lo, hi, nanlo, nanhi; std::map<double, double> seen; vector<double> order; bool out; int n; };
static Func_ F;
// kinds: 0 product of (x-p_i), 1 sine, 2 tanh + const, 3 cubed monotone, 4 exponential, 5 piecewise linear (not smooth), 6 monotone without a root
static double raw(double x, double* df = nullptr) { double f = 0, d = 0; auto& p = F.p; switch (F.kind) {
  case 0: f = 1; for (double r : p) { d = d * (x - r) + f; f *= x - r; } break;
  case 1: f = sin(p[0] * x + p[1]) + p[2]; d = p[0] * cos(p[0] * x + p[1]); break;
  case 2: f = tanh(p[0] * (x - p[1])) + p[2]; d = p[0] / (cosh(p[0] * (x - p[1])) * cosh(p[0] * (x - p[1]))); break;
  case 3: { double y = x - p[0]; f = y * y * y + p[1] * y; d = 3 * y * y + p[1]; break; }
  case 4: f = exp(p[0] * (x - p[1])) - 1; d = p[0] * (f + 1); break;
  case 5: { int n = p.size() / 2; if (x <= p[0]) { f = p[n]; break; } f = p[2*n-1]; for (int i = 0; i + 1 < n; i++) if (x >= p[i] && x < p[i+1]) { d = (p[n+i+1] - p[n+i]) / (p[i+1] - p[i]); f = p[n+i] + d * (x - p[i]); break; } break; }
  case 6: f = 1 + exp(p[0] * (x - p[1])); d = p[0] * (f - 1); break; }
  if (df) *df = d * F.scale; return f * F.scale; }
static void log_(double x, double f) { F.n++; if (F.n > 20000) { fprintf(stderr, "too many evaluations\n"); abort(); } F.seen[x] = f; F.order.push_back(x); if (x < F.lo || x > F.hi || x != x) F.out = true; }
static double fv(double x) { double f = (x >= F.nanlo && x <= F.nanhi) ? NAN : raw(x); log_(x, f); return f; }
extern "C" {
static double fP(double x, void* p) { if (p != &F) abort(); return fv(x); }
static double f0(double x) { return fv(x); }
static void fdfP(double x, void* p, double* f, double* df) { if (p != &F) abort(); *f = fv(x); double t; raw(x, &t); *df = t; }
static void fdf2(double x, double* f, double* df, void* p) { fdfP(x, p, f, df); }
}
static string gen_fn(Case& c, bool smooth, double& a, double& b) { F = Func_(); F.nanlo = 1; F.nanhi = -1; F.lo = -HUGE_VAL; F.hi = HUGE_VAL; F.kind = c.pickl<int>(smooth ? std::initializer_list<int>{0, 0, 1, 2, 3, 4, 6} : std::initializer_list<int>{0, 0, 1, 2, 3, 4, 5, 5, 6}); F.scale = (c.b() ? 1 : -1) * c.pickl<double>({1, 1, 1, 1e-8, 1e8, 1e-150}); double off = c.pickl<double>({0, 0, 1, 100}); a = off + c.sym(3); b = off + c.sym(3); if (a == b) b = a + 1;
  switch (F.kind) { case 0: { int n = c.i(1, 5); for (int i = 0; i < n; i++) F.p.push_back(c.b(1, 8) ? a + (b - a) * c.i(0, 4) / 4. : off + c.sym(3.5)); break; } case 1: F.p = {1 + c.u01() * 5, c.sym(3), c.b() ? 0 : c.sym(0.9)}; break; case 2: F.p = {0.2 + c.u01() * 30, off + c.sym(2.5), c.b() ? 0 : c.sym(0.99)}; break; case 3: F.p = {off + c.sym(3), c.b(1, 4) ? 0 : c.u01()}; break; case 4: case 6: F.p = {(c.b() ? 1 : -1) * (0.2 + 3 * c.u01()), off + c.sym(2.5)}; break;
    case 5: { int n = c.i(2, 6); vector<double> x, y; for (int i = 0; i < n; i++) { x.push_back(off + c.sym(3)); y.push_back(c.b(1, 6) ? 0 : c.sym(1)); } std::sort(x.begin(), x.end()); for (int i = 1; i < n; i++) if (x[i] <= x[i-1]) x[i] = x[i-1] + 1e-3; F.p = x; F.p.insert(F.p.end(), y.begin(), y.end()); break; } }
  static const char* K[] = {"polynomial", "sine", "tanh", "cubic", "exponential", "broken line", "no root"}; string s = K[F.kind]; c.label(s); s += strf(" x %g (", F.scale); for (double v : F.p) s += strf("%.9g ", v); return s + ")"; }
static int sgn(double x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
// is there a sign change within w of x (and within [lo,hi])
static bool change(double x, double w) { double f = raw(x); if (f == 0) return true; for (int i = 1; i <= 64; i++) for (int s : {-1, 1}) { double y = x + s * w * i / 64.; y = std::min(std::max(y, F.lo), F.hi); if (sgn(raw(y)) != sgn(f)) return true; }
  if (F.kind == 0) for (double r : F.p) if (fabs(x - r) <= w) return true;   // a root of even multiplicity
  return false; }
PBT(roots, {.quick = 60000, .thorough = 3000000}) {
  int how = c.i(0, 4); bool smooth = how == 1 || how == 4; static const char* N[] = {"rtbrent_brak", "newton1d_brak", "rtbisect", "zbrent_itsP", "rtsafe_itsP"}; void* have[] = {(void*) rtbrent_brak, (void*) newton1d_brak, (void*) rtbisect, (void*) zbrent_itsP, (void*) rtsafe_itsP}; if (!have[how]) how = have[1] && smooth ? 1 : 3;
  double a, b; string t = gen_fn(c, smooth, a, b); F.lo = std::min(a, b); F.hi = std::max(a, b); double m = std::max(fabs(a), fabs(b)); double xacc = c.pickl<double>({1e-3, 1e-6, 1e-9, 1e-12, 1e-12}); xacc = std::max(xacc, 8 * DBL_EPSILON * m); bool tight = c.b(1, 12); if (tight) xacc = 0; int maxits = c.pickl<int>({0, 1, 3, 10, 1000, 1000, 1000, 1000}); double x0 = c.pickl<double>({NAN, a, b, 0.5 * (a + b), 0}); if (c.b()) x0 = a + (b - a) * c.u(-0.2, 1.2); double guess = x0; int nan = how == 1 || how == 2 || how == 4 ? c.i(0, 15) : 9; if (nan == 0) { F.nanlo = a + (b - a) * c.u01(); F.nanhi = F.nanlo + c.u01(); } if (nan == 1) { double& e = c.b() ? a : b; e = c.pickl<double>({NAN, INFINITY, -INFINITY}); } if (nan == 2) { (c.b() ? F.nanlo : F.nanhi) = 0; F.nanlo = c.b() ? a : b; F.nanhi = F.nanlo; }
  int pr = c.i(0, 1);
  c.describe("%s %s in [%.17g,%.17g], xacc %g, maxits %d, start %g%s", N[how], t.c_str(), a, b, xacc, maxits, guess, F.nanlo <= F.nanhi ? strf(", NaN in [%g,%g]", F.nanlo, F.nanhi).c_str() : ""); c.label(N[how]);
  double fa = std::isfinite(a) ? raw(a) : NAN, fb = std::isfinite(b) ? raw(b) : NAN; auto isn = [&](double x) { return x >= F.nanlo && x <= F.nanhi; }; if (isn(a)) fa = NAN; if (isn(b)) fb = NAN;
  int r = -12345678; if (how == 0) r = rtbrent_brak(&x0, fP, a, b, &F, maxits, xacc, pr); else if (how == 1) r = newton1d_brak(&x0, fdfP, a, b, &F, maxits, xacc, pr); else if (how == 2) r = rtbisect(&x0, fP, a, b, &F, maxits, xacc, pr); else if (how == 3) r = zbrent_itsP(&x0, fP, a, b, &F, maxits, xacc); else r = rtsafe_itsP(&x0, fdf2, a, b, &F, maxits, xacc);
  if (!(std::isfinite(a) && std::isfinite(b))) { c.label("infinite bracket"); c.check(r < 0, "%d for a bracket that is not finite", r); return; }
  c.check(!F.out, "the function is evaluated outside the bracket"); c.check(F.n <= maxits + 4, "%d evaluations for %d iterations", F.n, maxits);
  if (fa != fa || fb != fb) { c.label("NaN at an end"); c.check(r < 0, "%d although the function is NaN at the ends", r); return; }
  if (sgn(fa) == sgn(fb) && sgn(fa) != 0) { c.label("not bracketed"); c.check(r < 0, "%d although there is no sign change", r); return; }
  c.nontrivial(); if (r < 0) { bool sawnan = false; for (auto& e : F.seen) if (e.second != e.second) sawnan = true; if (sawnan) c.label("NaN reported"); else c.check(r < 0 && maxits < 60 && how == 3, "error %d for a bracketed root", r); c.label("reported"); return; }
  if (r > maxits) { c.label("too many iterations"); if (!tight) c.check(maxits < 60, "no convergence in %d iterations", maxits); return; }
  c.label("found"); double w = (how == 1 || how == 4 ? 9 : 1.0001) * xacc + 8 * (how == 0 || how == 3 ? 1e-14 : DBL_EPSILON) * (fabs(x0) + 0.02 * m); if (tight) w += 4 * DBL_EPSILON * m; c.check(x0 >= F.lo && x0 <= F.hi, "the root %.17g is outside", x0); c.check(change(x0, w), "no sign change within %g of %.17g, f=%g", w, x0, raw(x0));
  if (F.seen.count(x0) && F.seen[x0] != F.seen[x0]) c.fail("the function is NaN at the result");
}
PBT(bracket, {.quick = 40000, .thorough = 2000000}) {
  double a, b; string t = gen_fn(c, false, a, b); bool z = !rt_brak || c.b(1, 3); int maxits = z ? 50 : c.pickl<int>({0, 1, 5, 20, 60}); double x1 = a, x2 = b; if (c.b(1, 30)) x2 = b = a; bool nan = c.b(1, 12); if (nan) { F.nanlo = c.sym(5); F.nanhi = F.nanlo + c.u01() * 5; }
  c.describe("%s %s from [%.17g,%.17g], maxits %d", z ? "zbrac_P" : "rt_brak", t.c_str(), a, b, maxits); auto ev = [&](double x) { return x >= F.nanlo && x <= F.nanhi ? NAN : raw(x); }; double fa = ev(a), fb = ev(b); int r = z ? zbrac_P(fP, &x1, &x2, &F) : rt_brak(fP, &F, &x1, &x2, maxits);
  c.check(F.n <= maxits + 3, "%d evaluations", F.n); if (a == b) { c.label("equal"); c.check(r < 0, "%d for equal ends", r); return; }
  if (r >= 0) { double f1 = ev(x1), f2 = ev(x2); c.label("found"); c.nontrivial(); c.check(sgn(f1) * sgn(f2) < 0, "%d is returned, but f(%g)=%g f(%g)=%g", r, x1, f1, x2, f2); c.check(r <= maxits, "%d > %d", r, maxits); if (a < b) c.check(x1 <= a && x2 >= b, "[%g,%g] does not contain the first interval", x1, x2); else c.check(x1 >= a && x2 <= b, "[%g,%g] does not contain the first interval", x1, x2); } else c.label("reported");
  bool under = fabs(F.scale) < 1e-100; if (sgn(fa) * sgn(fb) < 0 && !(under)) { c.label("is a bracket"); if (maxits > 0) { c.check(r >= 0, "a bracket is not recognised: %d", r); c.check(x1 == a && x2 == b, "a bracket is changed to [%g,%g]", x1, x2); } }
  if (F.kind == 6) c.check(r < 0, "%d for a function without a root", r);
  if (F.kind == 3 && maxits >= 50 && !nan && !under) c.check(r >= 0, "a cubic is not bracketed");   // monotone, grows on both sides
}
// ---------------------------------------------------------------- minima
static double mraw(double x) { auto& p = F.p; double y = x - p[0], f = 0; switch (F.kind) { case 0: f = y * y; break; case 1: f = y * y * y * y + p[1] * y * y; break; case 2: f = cosh(std::min(fabs(p[1] * y), 600.)) - 1; break; case 3: f = fabs(y) + p[1] * std::max(y, 0.); break; case 4: f = -exp(-y * y * p[1]); break; case 5: f = p[1] * y * y - cos(p[2] * x); break; case 6: f = exp(std::min(y * p[1], 600.)) - p[1] * y; break; case 7: f = -y; break; case 8: f = exp(-y); break; case 9: f = y * y * y; break; } return f * F.scale + p[3]; }
static double mev(double x) { double f = x >= F.nanlo && x <= F.nanhi ? NAN : mraw(x); log_(x, f); return f; }
extern "C" { static double mP(double x, void* p) { if (p != &F) abort(); return mev(x); } static double m0(double x) { return mev(x); } }
static string gen_min(Case& c, bool unbounded) { F = Func_(); F.nanlo = 1; F.nanhi = -1; F.lo = -HUGE_VAL; F.hi = HUGE_VAL; F.kind = unbounded && c.b(1, 5) ? c.i(7, 9) : c.i(0, 6); F.scale = c.pickl<double>({1, 1, 1, 1e-6, 1e6}); double off = c.pickl<double>({0, 0, 1, 100}); F.p = {off + c.sym(3), 0.1 + c.u01() * 3, 1 + 6 * c.u01(), c.b(1, 3) ? c.sym(2) * F.scale : 0}; static const char* K[] = {"square", "quartic", "cosh", "kink", "Gaussian", "square with cosines", "exponential", "falling line", "falling exponential", "cubic"}; c.label(K[F.kind]); return strf("%s x %g (%.9g %.9g %.9g %.9g)", K[F.kind], F.scale, F.p[0], F.p[1], F.p[2], F.p[3]); }
PBT(minimum, {.quick = 60000, .thorough = 3000000}) {
  string t = gen_min(c, false); double b = F.p[0] + c.sym(2), a, d; // find a bracket here
  double h = 0.05 + c.u01(); { double x = b; for (int k = 0; k < 400; k++) { double f = mraw(x), l = mraw(x - h), r = mraw(x + h); if (l < f && l <= r) x -= h; else if (r < f) x += h; else break; } b = x; a = b - h * (1 + 0 * c.u01()); d = b + h; } if (!(mraw(a) >= mraw(b) && mraw(d) >= mraw(b))) c.discard(); if (c.b(1, 5)) { b = a + (d - a) * c.u01(); } bool ok = mraw(a) >= mraw(b) && mraw(d) >= mraw(b); double lo = a, hi = d, off0 = std::max(fabs(a), fabs(d)); F.lo = lo; F.hi = hi; if (c.b()) std::swap(a, d);
  double tol = c.pickl<double>({1e-2, 1e-4, 1e-6, 1e-8}); int how = c.i(0, 2); void* have[] = {(void*) minbrent_brak, (void*) brent_with_pointer_to_pars, (void*) brent}; if (!have[how]) how = 1; int maxits = how ? 100 : c.pickl<int>({0, 1, 5, 20, 300, 300, 300}); static const char* N[] = {"minbrent_brak", "brent_with_pointer_to_pars", "brent"}; c.describe("%s %s in (%.17g,%.17g,%.17g), tol %g, maxits %d", N[how], t.c_str(), a, b, d, tol, maxits); c.label(N[how]);
  double x = NAN, f = NAN; int r = 1; bool gone = c.exits([&] { if (how == 0) r = minbrent_brak(mP, &F, a, b, d, maxits, tol, &x, &f, c.i(0, 1)); else if (how == 1) f = brent_with_pointer_to_pars(a, b, d, mP, tol, &x, &F); else f = brent(a, b, d, m0, tol, &x); });
  if (gone) { c.label("exit"); c.check(how == 2 || (how == 1 && !minbrent_brak), "the program ends"); c.check(F.n >= 100, "the program ends after %d evaluations", F.n); c.fail("no convergence"); }
  c.check(!F.out, "the function is evaluated outside the bracket"); c.check(x >= lo && x <= hi, "the minimum %.17g is outside", x); c.check(same_bits(f, mraw(x)), "the value returned is %.17g, but f(%.17g)=%.17g", f, x, mraw(x)); c.check(f <= mraw(b), "the minimum is larger than the value in the middle"); c.check(F.n <= maxits + 2, "%d evaluations", F.n);
  for (auto& e : F.seen) c.check(f <= e.second, "f(%.17g)=%g is smaller than the minimum %g", e.first, e.second, f);
  c.check(r > 0, "error %d", r); bool conv = how == 0 ? r <= maxits : F.n < 100; if (how == 1 && minbrent_brak) { bool said = c.log().find("Too many") != string::npos; conv = !said; } if (!conv) { c.label("not converged"); c.check(maxits < 100, "no convergence in %d iterations", maxits); return; }
  c.label("converged"); if (ok) c.nontrivial(); // values that are not smaller are known close by on both sides
  double w = 4.01 * (tol * fabs(x) + 1e-10) + 1e-13 * off0, l = lo, rr = hi; for (auto& e : F.seen) { if (e.first < x) l = std::max(l, e.first); if (e.first > x) rr = std::min(rr, e.first); } c.check(x - l <= w || x - lo <= w, "no value within %g on the left of %.17g was looked at (next %.17g)", w, x, l); c.check(rr - x <= w || hi - x <= w, "no value within %g on the right of %.17g was looked at (next %.17g)", w, x, rr);
  if (ok && F.kind != 5) { double best = mraw(F.p[0]); double dx = fabs(x - F.p[0]); bool flat = f - best <= 1e-14 * (fabs(F.p[3]) + fabs(best)) + 1e-300; c.check(dx <= w || flat || F.kind == 4 || F.kind == 6 || F.kind == 2, "the minimum %.17g is %g away", x, dx); if (F.kind == 4 || F.kind == 6 || F.kind == 2) c.check(dx <= w || f - best <= 4e-15 * (fabs(F.p[3]) + F.scale * (1 + fabs(best))), "the minimum %.17g is %g away", x, dx); }
  if (how == 0 || true) c.check(F.n <= 120, "%d evaluations", F.n);
}
PBT(minbracket, {.quick = 40000, .thorough = 2000000}) {
  string t = gen_min(c, true); double a = F.p[0] + c.sym(5), b = F.p[0] + c.sym(5), cx = NAN, fa = NAN, fb = NAN, fc = NAN; if (a == b) b += 1; bool nan = c.b(1, 10); if (nan) { F.nanlo = F.p[0] + c.sym(8); F.nanhi = F.nanlo + c.u01() * 10; } int how = c.i(0, 2); void* have[] = {(void*) min_brak, (void*) mnbrak_with_pointer_to_pars, (void*) mnbrak}; if (!have[how]) how = 1; int maxits = how ? 1 << 30 : c.pickl<int>({0, 1, 5, 100, 100, 2000}); static const char* N[] = {"min_brak", "mnbrak_with_pointer_to_pars", "mnbrak"}; double a0 = a, b0 = b; c.describe("%s %s from %.17g, %.17g, maxits %d%s", N[how], t.c_str(), a, b, maxits, nan ? strf(", NaN in [%g,%g]", F.nanlo, F.nanhi).c_str() : ""); c.label(N[how]);
  int r = 1; if (how == 0) r = min_brak(mP, &F, &a, &b, &cx, &fa, &fb, &fc, maxits); else if (how == 1) mnbrak_with_pointer_to_pars(&a, &b, &cx, &fa, &fb, &fc, mP, &F); else mnbrak(&a, &b, &cx, &fa, &fb, &fc, m0);
  if (how == 0) c.check(F.n <= 2 * maxits + 3, "%d evaluations", F.n); bool isb = ((a < b && b < cx) || (a > b && b > cx)) && fb <= fa && fb <= fc && std::isfinite(a) && std::isfinite(cx); if (std::isfinite(cx)) for (auto& e : vector<std::pair<double, double>>{{a, fa}, {b, fb}, {cx, fc}}) { double v = e.first >= F.nanlo && e.first <= F.nanhi ? NAN : mraw(e.first); c.check(same_bits(v, e.second) || (v != v && e.second != e.second), "f(%.17g)=%.17g, but %.17g is returned", e.first, v, e.second); }
  if (how == 0 && r > 0 && r <= maxits) { c.label("found"); c.nontrivial(); c.check(isb, "%d is returned, but (%g,%g,%g) with (%g,%g,%g) is no bracket", r, a, b, cx, fa, fb, fc); } else if (how == 0) c.label("reported");
  if (how) { if (F.kind < 7 && !nan && F.kind != 4) { c.label("must find"); c.nontrivial(); c.check(isb, "(%g,%g,%g) with (%g,%g,%g) is no bracket", a, b, cx, fa, fb, fc); } }
  if (F.kind < 7 && F.kind != 4 && !nan && maxits >= 100) c.check(isb, "no bracket: (%g,%g,%g) with (%g,%g,%g), %d", a, b, cx, fa, fb, fc, r);
  if (F.kind >= 7 && F.kind != 9 && how == 0) c.check(r < 0 || r > maxits || fb == fc || F.kind == 8, "a bracket is claimed for a monotone function");
  (void) a0; (void) b0;
}
// ---------------------------------------------------------------- several dimensions
static struct { int n; vector<double> A, m; double low; int calls; double best; } Q;
extern "C" { static double qf(double* p) { double s = Q.low; Q.calls++; for (int i = 0; i < Q.n; i++) { double t = 0; for (int j = 0; j < Q.n; j++) t += Q.A[i*Q.n+j] * (p[j+1] - Q.m[j]); s += t * t; } Q.best = std::min(Q.best, s); return s; } }
PBT(several, {.quick = 3000, .thorough = 100000}) {
  if (!powell) { c.describe("no powell in this build"); return; } int n = Q.n = c.i(1, 5); Q.A = vector<double>(n * n); Q.m.assign(n, 0); Q.calls = 0; Q.best = HUGE_VAL; for (auto& v : Q.A) v = c.sym(0.3); for (int i = 0; i < n; i++) { Q.A[i*n+i] += 1 + c.u01(); Q.m[i] = c.sym(3); } Q.low = c.pickl<double>({0, 1, -1}); double ftol = c.pickl<double>({1e-4, 1e-8, 1e-12}); vector<double> p(n + 1), D((n + 1) * (n + 1)); vector<double*> row(n + 1); for (int i = 1; i <= n; i++) { p[i] = c.sym(5); row[i] = &D[i*(n+1)]; for (int j = 1; j <= n; j++) row[i][j] = i == j ? 1 : c.b(1, 5) ? c.sym(0.3) : 0; }
  c.describe("powell, %d dimensions, minimum %g, ftol %g", n, Q.low, ftol); if (n > 1) c.nontrivial(); double start = qf(p.data()), fret = NAN; int it = -1; vector<double> p0 = p; bool gone = c.exits([&] { powell(p.data(), row.data(), n, ftol, &it, &fret, qf); }); if (gone) { c.label("exit"); c.check(Q.low == 0 && c.log().find("maximum iterations") != string::npos, "the program ends"); return; } c.check(it >= 1 && it <= 200, "%d iterations", it); c.check(fret <= start, "the result %g is larger than the start %g", fret, start); double f = qf(p.data()); c.check(near(f, fret, 1e-12 * (1 + fabs(f))), "the value returned is %.17g, but f(p)=%.17g", fret, f); c.check(fret - Q.low <= 30 * (ftol * (1 + fabs(Q.low)) + 1e-7), "the result is %g above the minimum", fret - Q.low);
}
PBT(extrema, {.quick = 2500, .thorough = 60000}) { // of a function on a grid
  setpar("Coordinates_set_bfaces", "no"); BoxSpec s; double a = c.b() ? 0 : c.sym(2), q[3], k2[3], k4[3], mid[3], L[3], st[3]; bool cub = c.b(); double sg = c.b() ? 1 : -1, cr = c.b(1, 3) ? 0 : 0.4 * c.sym(1); if (cub) cr = 0; for (int k = 0; k < 3; k++) { auto& d = s.d[k]; d = gen_dir(c, 6, 9); d.basis = c.b() ? "ChebExtrema" : "ChebZeros"; d.a = c.sym(2); d.b = d.a + c.logu(0.3, 4); d.tt = ""; L[k] = d.b - d.a; mid[k] = d.a; q[k] = 0.15 + 0.7 * c.u01(); k2[k] = 0.5 + c.u01(); k4[k] = cub ? c.u01() * 2 : 0; st[k] = d.a + L[k] * (0.05 + 0.9 * c.u01()); }
  c.describe("%s, extremum at %g %g %g of the box, start %g %g %g, cross %g%s", specstr(s).c_str(), q[0], q[1], q[2], st[0], st[1], st[2], cr, cub ? ", quartic" : ""); c.label(sg > 0 ? "minimum" : "maximum"); c.nontrivial();
  tGrid* g = new_grid({s}, true); tBox* b = g->box[0]; int iu = newvar(g, "ext"); enablevar(g, iu); double* u = b->v[iu]; double* XX[3] = {b->v[Ind((char*) "X")], b->v[Ind((char*) "Y")], b->v[Ind((char*) "Z")]};
  auto f = [&](const double* X) { double y[3], r = a; for (int k = 0; k < 3; k++) { y[k] = (X[k] - mid[k]) / L[k] - q[k]; r += sg * (k2[k] * y[k] * y[k] + k4[k] * y[k] * y[k] * y[k] * y[k]); } return r + sg * cr * (y[0] * y[1] + y[1] * y[2]); };
  for (int i = 0; i < b->nnodes; i++) { double X[3] = {XX[0][i], XX[1][i], XX[2][i]}; u[i] = f(X); } Snap sn; sn.add(g);
  double x = st[0], y = st[1], z = st[2], F = 1e99; int r = box_extremum_of_F(b, iu, &x, &y, &z, &F), d = c.i(1, 3); double P[3] = {x, y, z}; c.check(r >= 0, "no extremum found: %d at %g %g %g", r, x, y, z);
  for (int k = 0; k < 3; k++) c.check(near(P[k], mid[k] + q[k] * L[k], 1e-6 * L[k]), "the extremum is at %.12g in direction %d, found %.12g", mid[k] + q[k] * L[k], k + 1, P[k]); c.check(near(F, a, 1e-9 * (1 + fabs(a))), "the extremum is %.12g, found %.12g", a, F);
  // along a line
  for (int k = 0; k < 3; k++) P[k] = st[k]; int o1 = d == 1 ? 1 : 0, o2 = d == 3 ? 1 : 2; double C = st[d-1]; auto slope = [&](double v) { double y[3]; P[d-1] = v; for (int k = 0; k < 3; k++) y[k] = (P[k] - mid[k]) / L[k] - q[k]; int k = d - 1; return 2 * k2[k] * y[k] + 4 * k4[k] * y[k] * y[k] * y[k] + cr * (k == 0 ? y[1] : k == 1 ? y[0] + y[2] : y[1]); };
  double lo = s.d[d-1].a, hi = s.d[d-1].b; if (slope(lo) < -1e-3 && slope(hi) > 1e-3) { for (int k = 0; k < 200; k++) { double m = 0.5 * (lo + hi); (slope(m) < 0 ? lo : hi) = m; } F = 1e99; r = box_extremum_of_F_in_dir(b, iu, d, P[o1], P[o2], &C, &F); P[d-1] = lo; c.check(r >= 0, "no extremum found along direction %d: %d", d, r); c.check(near(C, lo, 1e-7 * L[d-1]), "along direction %d the extremum is at %.12g, found %.12g", d, lo, C); c.check(near(F, f(P), 1e-9 * (1 + fabs(a))), "along direction %d the extremum is %.12g, found %.12g", d, f(P), F); c.label("line"); }
  c.check(sn.same(), "%s was changed", sn.bad().c_str());
}

// C09: spectral transforms are inverses of each other and all implementations agree
#include "grid.h"
using namespace pbt;

// value on point j (of n) of the function with coefficients co, by definition
static ld ref_eval(const string& basis, const vector<double>& co, int j) {
  int n = co.size(); ld s = 0;
  if (basis == "Fourier") {
    s = co[0];
    for (int k = 1; 2 * k <= n; k++) {
      ld ph = 2 * PIl * (ld) ((long) j * k % n) / n;
      if (2 * k == n) s += co[n-1] * cosl(ph); else s += 2 * (co[2*k-1] * cosl(ph) + co[2*k] * sinl(ph));
    }
    return s / n;
  }
  s = co[0] / 2.0L;
  for (int k = 1; k < n; k++) {
    ld ph = basis == "ChebExtrema" ? PIl * (ld) ((long) j * k % (2 * (n - 1))) / (n - 1) : PIl * (ld) ((long) (2 * j + 1) * k % (4 * n)) / (2 * n);
    s += co[k] * cosl(ph);
  }
  return s;
}
typedef void (*Tr)(double*, double*, int);
struct Impl { const char* name; const char* basis; Tr get, ev; int kind; }; // kind 1: power of 2 only
static const Impl impls[] = {
  {"cheb extrema sum", "ChebExtrema", cheb_coeffs_fromExtrema, cheb_eval_onExtrema, 0},
  {"cheb extrema numrecFFT", "ChebExtrema", cheb_coeffs_fromExtrema_numrecFFT, cheb_eval_onExtrema_numrecFFT, 1},
  {"cheb extrema FFTW3", "ChebExtrema", cheb_coeffs_fromExtrema_FFTW3, cheb_eval_onExtrema_FFTW3, 0},
  {"cheb zeros sum", "ChebZeros", cheb_coeffs_fromZeros, cheb_eval_onZeros, 0},
  {"cheb zeros numrecFFT", "ChebZeros", cheb_coeffs_fromZeros_numrecFFT, cheb_eval_onZeros_numrecFFT, 1},
  {"cheb zeros FFTW3", "ChebZeros", cheb_coeffs_fromZeros_FFTW3, cheb_eval_onZeros_FFTW3, 0},
  {"fourier sum", "Fourier", four_coeffs, four_eval, 0},
  {"fourier numrecFFT", "Fourier", four_coeffs_numrecFFT, four_eval_numrecFFT, 1},
  {"fourier FFTW3", "Fourier", four_coeffs_FFTW3, four_eval_FFTW3, 0},
};

PBT(line_transforms, {.quick = 3000, .thorough = 100000}) {
  string basis = c.pickl<const char*>({"ChebExtrema", "ChebZeros", "Fourier"});
  int n = c.b(1, 3) ? (1 << c.i(1, 7)) : c.b(1, 6) ? c.i(1, 130) : c.i(1, 40);
  if (basis == "ChebExtrema" && c.b()) n++;
  if (basis == "ChebExtrema" && n < 2) n = 2;
  bool p2 = is_power_of_two(basis == "ChebExtrema" ? n - 1 : n) && n > (basis == "ChebExtrema" ? 2 : 1);
  c.label(basis); if (p2) c.label("power of two");
  double sc = c.b(1, 3) ? c.logu(1e-20, 1e20) : 1;
  vector<double> u(n), co(n);
  int style = c.i(0, 2);
  for (auto& x : u) x = style == 0 ? 0 : sc * (style == 1 ? c.sym(1) : c.pickl<double>({0, 1, -1}));
  if (style == 0) u[c.i(0, n - 1)] = sc;
  double m = maxabs(u);
  c.describe("%s n=%d scale %g style %d", basis.c_str(), n, sc, style);
  if (m > 0 && n > 1) c.nontrivial();
  setpar("nboxes", "1"); setpar("box0_n1", strf("%d", (n + 3) / 4)); setpar("box0_n2", "1"); setpar("box0_n3", "1");
  setpar("FFTW3_planner_flags", "FFTW_ESTIMATE FFTW_UNALIGNED"); add_special_FFTW3_pars();
  init_FFTW3_plans(0);
  double tol = 2e-15 * n * n * (basis == "Fourier" ? 1 : 0.5) * m + 1e-300;
  double tolc = basis == "Fourier" ? tol : tol;
  vector<vector<double>> all;
  for (auto& I : impls) {
    if (basis != I.basis || (I.kind == 1 && !p2)) continue;
    vector<double> v = u, d(n + 1, 7.5), w(n + 1, 7.5); 
    I.get(d.data(), v.data(), n - 1);
    c.check(v == u, "%s n=%d: taking coefficients changed the function", I.name, n);
    c.check(d[n] == 7.5, "%s n=%d: wrote past the coefficients", I.name, n);
    vector<double> dd(d.begin(), d.begin() + n), dd0 = dd;
    for (int j = 0; j < n; j++) { double e = (double) fabsl(ref_eval(basis, dd, j) - u[j]); c.check(e <= tol, "%s n=%d: coefficients do not represent the function: point %d off by %g (tol %g)", I.name, n, j, e, tol); }
    I.ev(dd.data(), w.data(), n - 1);
    c.check(w[n] == 7.5, "%s n=%d: wrote past the values", I.name, n);
    c.check(dd == dd0, "%s n=%d: evaluation changed the coefficients", I.name, n);
    for (int j = 0; j < n; j++) c.check(near(w[j], u[j], tol), "%s n=%d: round trip: point %d is %.17g instead of %.17g", I.name, n, j, w[j], u[j]);
    all.push_back(dd);
    for (size_t q = 1; q < all.size(); q++) for (int j = 0; j < n; j++)
      c.check(near(all[q][j], all[0][j], tolc * 2), "%s n=%d: coefficient %d is %.17g, slow sum has %.17g", I.name, n, j, all[q][j], all[0][j]);
    c.evals(3 * n);
  }
  // the other way round: coefficients -> values -> coefficients
  for (auto& x : co) x = sc * c.sym(1);
  double mc = maxabs(co);
  for (auto& I : impls) {
    if (basis != I.basis || (I.kind == 1 && !p2)) continue;
    vector<double> d = co, w(n), e(n);
    I.ev(d.data(), w.data(), n - 1);
    double t2 = 2e-15 * n * n * mc;
    for (int j = 0; j < n; j++) c.check(near(w[j], (double) ref_eval(basis, co, j), t2), "%s n=%d: value on point %d is %.17g, the definition gives %.17Lg", I.name, n, j, w[j], ref_eval(basis, co, j));
    I.get(e.data(), w.data(), n - 1);
    for (int j = 0; j < n; j++) c.check(near(e[j], co[j], t2 * (basis == "Fourier" ? 1 : 2)), "%s n=%d: coefficient %d comes back as %.17g instead of %.17g", I.name, n, j, e[j], co[j]);
  }
}

PBT(box_transforms, {.quick = 3500, .thorough = 100000}) {
  BoxSpec s; int big = c.i(0, 5);
  for (int k = 0; k < 3; k++) { s.d[k] = gen_dir(c, 1, big == k ? 40 : 8, big != 3); }
  F3 f = gen_f3(c, s, true);
  c.describe("%s f=%s", specstr(s).c_str(), f.str().c_str());
  tGrid* g = new_grid({s}, false);
  tBox* b = g->box[0]; int N = b->nnodes, n1 = b->n1, n2 = b->n2, n3 = b->n3;
  vector<double> u = tabulate(f, s), co(N, 3.25), w(N, 3.25);
  double m = std::max((ld) maxabs(u), f.mag()), tol = 1e-14 * (n1 + n2 + n3) * (n1 + n2 + n3) * m + 1e-300;
  int nd = (n1 > 1) + (n2 > 1) + (n3 > 1);
  if (m > 0 && nd > 1 && !(n1 == n2 && n2 == n3)) c.nontrivial();
  c.label(strf("%d%d%d", b->TransformType1, b->TransformType2, b->TransformType3));
  // expected coefficients
  vector<double> want(N, 0);
  for (size_t r = 0; r < f.f[0].size(); r++)
    for (auto& p : f.f[0][r].m) for (auto& q : f.f[1][r].m) for (auto& t : f.f[2][r].m) {
      ld x = p.second * q.second * t.second; int id[3] = {p.first, q.first, t.first};
      for (int k = 0; k < 3; k++) {
        int n = s.d[k].n;
        if (s.d[k].basis == "Fourier") x *= (id[k] == 0 || (n % 2 == 0 && id[k] == n - 1)) ? n : n / 2.0L;
        else { if (id[k] % 2) x = -x; if (id[k] == 0) x *= 2; } // index 0 is the lower end
      }
      want[id[0] + n1 * (id[1] + n2 * id[2])] += (double) x;
    }
  double mw = maxabs(want), tolw = 1e-14 * (n1 + n2 + n3) * (n1 + n2 + n3) * std::max(mw, m) * 4 + 1e-300;
  for (int k = 0; k < 3; k++) if (s.d[k].basis == "Fourier") { tolw *= 2 * s.d[k].n; }
  vector<double> u0 = u;
  spec_Coeffs(b, u.data(), co.data());
  c.check(u == u0, "spec_Coeffs changed the function");
  size_t wh = 0; double e = maxdiff(co.data(), want.data(), N, &wh);
  c.check(e <= tolw, "spec_Coeffs: coefficient %zu is %.15g instead of %.15g (tol %g)", wh, co[wh], want[wh], tolw);
  spec_Eval(b, w.data(), co.data());
  e = maxdiff(w.data(), u.data(), N, &wh);
  double tu = tol; c.check(e <= tu * 8, "spec_Eval(spec_Coeffs(u)) differs from u at point %zu: %.17g, %.17g (tol %g)", wh, w[wh], u[wh], tu * 8);
  // direction by direction, in any order, in place or not
  int ord[3] = {1, 2, 3}; for (int k = 2; k > 0; k--) std::swap(ord[k], ord[c.i(0, k)]);
  vector<double> x = u;
  for (int k = 0; k < 3; k++) { if (c.b()) spec_analysis1(b, ord[k], x.data(), x.data()); else { vector<double> y(N, 1.5); spec_analysis1(b, ord[k], x.data(), y.data()); x = y; } }
  e = maxdiff(x.data(), want.data(), N, &wh); c.check(e <= tolw, "spec_analysis1 in order %d%d%d: coefficient %zu is %.15g instead of %.15g", ord[0], ord[1], ord[2], wh, x[wh], want[wh]);
  for (int k = 2; k >= 0; k--) { if (c.b()) spec_synthesis1(b, ord[k], x.data(), x.data()); else { vector<double> y(N, 1.5); spec_synthesis1(b, ord[k], y.data(), x.data()); x = y; } }
  e = maxdiff(x.data(), u.data(), N, &wh); c.check(e <= tu * 8, "spec_synthesis1 does not undo spec_analysis1 at %zu: %.17g, %.17g", wh, x[wh], u[wh]);
  // coefficient matrices of the box, and the matrix versions
  double* M[3] = {b->Mcoeffs1, b->Mcoeffs2, b->Mcoeffs3}, *E[3] = {b->Meval1, b->Meval2, b->Meval3};
  int dir = c.i(1, 3), n = s.d[dir-1].n;
  vector<double> y1(N), y2(N), y3(N);
  spec_analysis1(b, dir, u.data(), y1.data());
  spec_analysis1_diffmatrix(b, dir, M[dir-1], u.data(), y2.data());
  double my = maxabs(y1);
  e = maxdiff(y1.data(), y2.data(), N, &wh); c.check(e <= 1e-14 * n * n * (my + m), "direction %d: matrix and fast analysis differ at %zu: %.17g %.17g", dir, wh, y2[wh], y1[wh]);
  spec_synthesis1_diffmatrix(b, dir, E[dir-1], y3.data(), y1.data());
  e = maxdiff(y3.data(), u.data(), N, &wh); c.check(e <= 1e-14 * n * n * (my + m), "direction %d: matrix synthesis differs from u at %zu: %.17g %.17g", dir, wh, y3[wh], u[wh]);
  // one plane only
  int pn = c.i(1, 3), np = s.d[pn-1].n, p = c.i(0, np - 1);
  vector<double> pc(N, 9.25), pu(N, 9.25), full = u;
  spec_Coeffs_inplaneN(b, pn, p, u.data(), pc.data());
  for (int k = 1; k <= 3; k++) if (k != pn) spec_analysis1(b, k, full.data(), full.data());
  double mf = maxabs(full);
  for (int q = 0; q < N; q++) {
    int ii[3] = {q % n1, (q / n1) % n2, q / (n1 * n2)};
    if (ii[pn-1] == p) c.check(near(pc[q], full[q], 1e-13 * (n1 + n2 + n3) * (mf + m)), "spec_Coeffs_inplaneN(N=%d,p=%d) at %d: %.17g instead of %.17g", pn, p, q, pc[q], full[q]);
    else c.check(pc[q] == 9.25, "spec_Coeffs_inplaneN(N=%d,p=%d) wrote outside its plane at %d", pn, p, q);
  }
  spec_Eval_inplaneN(b, pn, p, pu.data(), pc.data());
  for (int q = 0; q < N; q++) {
    int ii[3] = {q % n1, (q / n1) % n2, q / (n1 * n2)};
    if (ii[pn-1] == p) c.check(near(pu[q], u[q], 8 * tu), "spec_Eval_inplaneN(N=%d,p=%d) at %d: %.17g instead of %.17g", pn, p, q, pu[q], u[q]);
    else c.check(pu[q] == 9.25, "spec_Eval_inplaneN(N=%d,p=%d) wrote outside its plane at %d", pn, p, q);
  }
  c.evals(8 * N);
}

// C13: spectral filters are projections that touch only what they name
#include "grid.h"
#include <array>
using namespace pbt;
extern "C" { void BSSN_ChooseAndApplyFilters(tVarList*); void BSSN_filter_unew(tVarList*, tVarList*); }

// sum over the modes of f that pass keep(m1,m2,m3), at the points of the box
template<class K> static vector<double> tab_keep(const F3& f, const BoxSpec& s, K keep) {
  int n[3] = {s.d[0].n, s.d[1].n, s.d[2].n}; vector<ld> a((size_t) n[0] * n[1] * n[2], 0);
  for (size_t r = 0; r < f.f[0].size(); r++)
    for (auto& p : f.f[0][r].m) for (auto& q : f.f[1][r].m) for (auto& w : f.f[2][r].m) {
      vector<ld> t[3]; const std::pair<int, ld>* mm[3] = {&p, &q, &w};
      for (int k = 0; k < 3; k++) { F1 g = f.f[k][r]; g.m = {*mm[k]}; for (int i = 0; i < n[k]; i++) t[k].push_back(g.val(gpoint(s.d[k], i), 0)); }
      size_t x = 0; for (int k = 0; k < n[2]; k++) for (int j = 0; j < n[1]; j++) for (int i = 0; i < n[0]; i++, x++) if (keep(p.first, q.first, w.first, i, j, k)) a[x] += t[0][i] * t[1][j] * t[2][k];
    }
  vector<double> u(a.size()); for (size_t x = 0; x < a.size(); x++) u[x] = (double) a[x]; return u;
}
PBT(matrix_filter, {.quick = 3000, .thorough = 60000}) {
  int nb = c.i(1, 2); vector<BoxSpec> S(nb); std::map<string, string> P = {{"Coordinates_set_bfaces", "no"}}; vector<std::array<int, 3>> fl(nb);
  for (int b = 0; b < nb; b++) for (int k = 0; k < 3; k++) { S[b].d[k] = gen_dir(c, 1, 10); fl[b][k] = c.b(1, 4) ? 0 : c.i(0, S[b].d[k].n); P[strf("box%d_filter%d", b, k + 1)] = strf("%d", fl[b][k]); }
  int B = c.i(0, nb - 1); BoxSpec s = S[B]; F3 f = gen_f3(c, s, true);
  c.describe("%s filters %d %d %d f=%s", specstr(s).c_str(), fl[B][0], fl[B][1], fl[B][2], f.str().c_str());
  tGrid* g = new_grid(S, true, P); int vi = newvar(g, "u"), wi = newvar(g, "w"); tBox* b = g->box[B];
  auto put = [&](const vector<double>& v) { std::copy(v.begin(), v.end(), b->v[vi]); };
  for (int bi = 0; bi < nb; bi++) for (int k = 0; k < g->box[bi]->nnodes; k++) g->box[bi]->v[wi][k] = k * 0.3 + bi;
  Snap sn; sn.add(g, {{B, vi}});
  vector<double> u = tabulate(f, s), v; double tol = 1e-14 * (f.mag() + 1e-300) * (s.d[0].n + s.d[1].n + s.d[2].n) * 20;
  bool removed = false;
  for (int k = 0; k < 3; k++) { // one direction
    put(u); spec_filter1(b, k + 1, b->v[vi]); int lim = s.d[k].n - fl[B][k];
    v = tab_keep(f, s, [&](int a, int bb, int cc, int, int, int) { int m = k == 0 ? a : k == 1 ? bb : cc; if (m >= lim) removed = true; return m < lim; });
    c.check(maxdiff(v.data(), b->v[vi], v.size()) <= tol, "spec_filter1 direction %d with n=%d filter=%d: off by %g", k + 1, s.d[k].n, fl[B][k], maxdiff(v.data(), b->v[vi], v.size()));
    if (fl[B][k] == 0) c.label("filter 0");
  }
  put(u); for (int k : {2, 1, 3}) spec_filter1(b, k, b->v[vi]);
  v = tab_keep(f, s, [&](int a, int bb, int cc, int, int, int) { return a < s.d[0].n - fl[B][0] && bb < s.d[1].n - fl[B][1] && cc < s.d[2].n - fl[B][2]; });
  c.check(maxdiff(v.data(), b->v[vi], v.size()) <= 3 * tol, "filters in all directions: off by %g", maxdiff(v.data(), b->v[vi], v.size()));
  // projection on arbitrary data
  vector<double> r = rnd(c, b->nnodes); put(r); for (int k : {1, 2, 3}) spec_filter1(b, k, b->v[vi]);
  v = all_of(b, vi); for (int k : {3, 1, 2}) spec_filter1(b, k, b->v[vi]);
  c.check(maxdiff(v.data(), b->v[vi], v.size()) <= 1e-12 * (1 + maxabs(v)), "filtering twice differs from filtering once by %g", maxdiff(v.data(), b->v[vi], v.size()));
  c.check(sn.same(), "a variable or box that was not named changed: %s", sn.bad().c_str());
  if (removed) c.nontrivial();
}

PBT(filter3d, {.quick = 3000, .thorough = 60000}) {
  int nb = c.i(1, 2); vector<BoxSpec> S(nb); for (auto& s : S) for (int k = 0; k < 3; k++) s.d[k] = gen_dir(c, 1, 9, true);
  int B = c.i(0, nb - 1); BoxSpec s = S[B]; F3 f = gen_f3(c, s, true); int nf[3]; for (int k = 0; k < 3; k++) nf[k] = c.b(1, 5) ? s.d[k].n : c.i(0, s.d[k].n + 1);
  c.describe("%s nf=%d %d %d f=%s", specstr(s).c_str(), nf[0], nf[1], nf[2], f.str().c_str());
  tGrid* g = new_grid(S, true, {{"Coordinates_set_bfaces", "no"}}); int vi = newvar(g, "u"), ci = newvar(g, "co"), wi = newvar(g, "w"); tBox* b = g->box[B];
  for (int bi = 0; bi < nb; bi++) for (int k = 0; k < g->box[bi]->nnodes; k++) g->box[bi]->v[wi][k] = k * 0.3 + bi;
  Snap sn; sn.add(g, {{B, vi}, {B, ci}});
  vector<double> u = tabulate(f, s); double tol = 1e-14 * (f.mag() + 1e-300) * (s.d[0].n + s.d[1].n + s.d[2].n) * 20; bool removed = false;
  auto keep = [&](int x, int y, int z, int, int, int) { bool k = x < nf[0] && y < nf[1] && z < nf[2]; if (!k) removed = true; return k; };
  vector<double> v = tab_keep(f, s, keep);
  std::copy(u.begin(), u.end(), b->v[vi]); spec_filter3d_inbox(b, vi, ci, nf[0], nf[1], nf[2]);
  c.check(maxdiff(v.data(), b->v[vi], v.size()) <= tol, "spec_filter3d_inbox(%d,%d,%d): off by %g", nf[0], nf[1], nf[2], maxdiff(v.data(), b->v[vi], v.size()));
  for (int k = 0; k < b->n3; k++) for (int j = 0; j < b->n2; j++) for (int i = 0; i < b->n1; i++) if (i >= nf[0] || j >= nf[1] || k >= nf[2]) c.check(b->v[ci][i + b->n1 * (j + b->n2 * k)] == 0, "coefficient (%d,%d,%d) survived", i, j, k);
  vector<double> r = rnd(c, b->nnodes); std::copy(r.begin(), r.end(), b->v[vi]);
  spec_filter3d_inbox(b, vi, ci, nf[0], nf[1], nf[2]); v = all_of(b, vi); auto co = all_of(b, ci); double cm = maxabs(co) + 1;
  spec_filter3d_inbox(b, vi, ci, nf[0], nf[1], nf[2]);
  c.check(maxdiff(v.data(), b->v[vi], v.size()) <= 1e-12 * (1 + maxabs(v)), "filtering twice differs from filtering once by %g", maxdiff(v.data(), b->v[vi], v.size()));
  c.check(maxdiff(co.data(), b->v[ci], co.size()) <= 1e-11 * cm, "filtering twice changes coefficients");
  c.check(sn.same(), "a variable or box that was not named changed: %s", sn.bad().c_str());
  if (removed) c.nontrivial();
}

static bool sph(const string& co) { return co != "Cartesian"; }
// filter depending on sin(theta), on mixtures of boxes with and without spherical coordinates
PBT(coordinate_dependent, {.quick = 2500, .thorough = 40000}) {
  int nb = c.i(1, 2); vector<BoxSpec> S(nb);
  for (auto& s : S) {
    s.coord = c.pickl<const char*>({"SphericalDF", "Spherical", "Spherical3", "Cartesian", "SphericalDF"});
    for (int k = 0; k < 3; k++) s.d[k] = gen_dir(c, 1, 9);
    if (!sph(s.coord)) continue;
    s.d[0].a = c.u(0.5, 2); s.d[0].b = s.d[0].a + c.u(0.2, 3); s.d[2] = {c.i(1, 16), 0, 2 * PI, "Fourier", "16 NUMREC_FFT"};
    if (s.coord == "SphericalDF") s.d[1] = {c.i(2, 12), 0, 2 * PI, "Fourier", "16 NUMREC_FFT"};
    else { s.d[1].a = c.u(0.05, 1); s.d[1].b = s.d[1].a + c.u(0.1, 2); }
  }
  vector<F3> F; for (auto& s : S) F.push_back(gen_f3(c, s, true));
  string ds; for (auto& s : S) ds += specstr(s) + "; "; c.describe("%s", ds.c_str());
  tGrid* g = new_grid(S, true, {{"Coordinates_set_bfaces", "no"}}); int wi = newvar(g, "w"), vi = newvar(g, "u", "i"), ti = newvar(g, "temp1");
  tVarList* vl = vlalloc(g); vlpushone(vl, vi); vlpushone(vl, vi + 2); // not the middle component
  std::set<std::pair<int, int>> ex; bool removed = false;
  FORBOXES(g, bi) { auto u = tabulate(F[bi], S[bi]); for (int q = 0; q < g->box[bi]->nnodes; q++) { g->box[bi]->v[vi][q] = u[q]; g->box[bi]->v[vi + 1][q] = u[q]; g->box[bi]->v[vi + 2][q] = -2 * u[q]; g->box[bi]->v[wi][q] = q; }
    ex.insert(BV(bi, ti)); if (sph(S[bi].coord)) ex.insert(BV(bi, vi)), ex.insert(BV(bi, vi + 2)); }
  Snap sn; sn.add(g, ex);
  for (int rep = 0; rep < 2; rep++) {
    coordinateDependentFilter(vl);
    FORBOXES(g, bi) { if (!sph(S[bi].coord)) continue; tBox* b = g->box[bi]; const BoxSpec& s = S[bi]; int n2 = s.d[1].n, n3 = s.d[2].n; vector<int> ks(n2), skip(n2);
      for (int j = 0; j < n2; j++) { int q = b->n1 * j; double st;
        if (s.coord == "SphericalDF") st = fabs(sin((double) gpoint(s.d[1], j) + PI / ((1 + n2 % 2) * n2)));
        else { double x = b->v[Ind("x")][q], y = b->v[Ind("y")][q], z = b->v[Ind("z")][q]; st = hypot(x, y) / sqrt(x * x + y * y + z * z); }
        double lim = (n3 / 2) * st; skip[j] = fabs(lim - round(lim)) < 1e-7; ks[j] = 2 * ((int) floor(lim) + 1) - 1; }
      auto v = tab_keep(F[bi], s, [&](int, int, int m, int, int j, int) { bool k = m < ks[j]; if (!k) removed = true; return k; });
      double tol = 1e-13 * (F[bi].mag() + 1e-300) * (n3 + 5);
      for (int q = 0; q < b->nnodes; q++) { int j = (q / b->n1) % n2; if (skip[j]) continue;
        c.check(near(b->v[vi][q], v[q], tol) && near(b->v[vi + 2][q], -2 * v[q], 2 * tol), "box %d (%s) theta index %d: value %.15g,%.15g instead of %.15g (cut at coefficient %d), pass %d", bi, s.coord.c_str(), j, b->v[vi][q], b->v[vi + 2][q], v[q], ks[j], rep + 1); } }
    c.check(sn.same(), "a variable or box that was not named changed: %s", sn.bad().c_str());
  }
  if (removed) c.nontrivial();
}

// filters that the evolution systems apply to the list they are given
PBT(evolution_filters, {.quick = 2500, .thorough = 40000}) {
  int nb = c.i(1, 2); vector<BoxSpec> S(nb); for (auto& s : S) for (int k = 0; k < 3; k++) s.d[k] = gen_dir(c, 1, 9);
  string type = c.pickl<const char*>({"simple", "X2/3", "XYZ2/3", "X2/3-1", "old_spec_filters", "none"}); std::map<string, string> P = {{"Coordinates_set_bfaces", "no"}};
  vector<F3> F; for (auto& s : S) F.push_back(gen_f3(c, s, true)); int fl[2][3];
  for (int b = 0; b < nb; b++) for (int k = 0; k < 3; k++) P[strf("box%d_filter%d", b, k + 1)] = strf("%d", fl[b][k] = c.i(0, S[b].d[k].n));
  double f2 = c.b() ? 2.0 / 3 : c.u(0.2, 1), f3 = c.b() ? 2.0 / 3 : c.u(0.2, 1); int s2 = c.toward(-1, 3, 0), s3 = c.toward(-1, 3, 0); bool ell = c.b(), no = c.b(1, 6);
  string ds; for (auto& s : S) ds += specstr(s) + "; "; c.describe("type %s frac %g %g shift %d %d ellipse %d %s", type.c_str(), f2, f3, s2, s3, ell, ds.c_str());
  tGrid* g = new_grid(S, true, P);
  setpar("BSSN_filter_vars", no ? "no" : "all"); setpar("BSSN_filter_type", type); setpar("BSSN_filter_n2frac", strf("%.17g", f2)); setpar("BSSN_filter_n3frac", strf("%.17g", f3));
  setpar("BSSN_filter_shift2", strf("%d", s2)); setpar("BSSN_filter_shift3", strf("%d", s3)); setpar("BSSN_filter_YZregion", ell ? "ellipse" : "square");
  int vi = newvar(g, "u"), wi = newvar(g, "w"), ti = newvar(g, "temp1"); tVarList* vl = vlalloc(g); vlpush(vl, vi);
  std::set<std::pair<int, int>> ex; FORBOXES(g, bi) { auto u = tabulate(F[bi], S[bi]); for (size_t q = 0; q < u.size(); q++) g->box[bi]->v[vi][q] = g->box[bi]->v[wi][q] = u[q]; ex.insert(BV(bi, vi)); ex.insert(BV(bi, ti)); }
  Snap sn; sn.add(g, ex); bool removed = false;
  for (int rep = 0; rep < 2; rep++) {
    BSSN_ChooseAndApplyFilters(vl);
    FORBOXES(g, bi) { const BoxSpec& s = S[bi]; int n[3] = {s.d[0].n, s.d[1].n, s.d[2].n}; bool amb = false;
      int jf = 2 * (int) (0.5 * f2 * n[1]) + s2 - 2, kf = 2 * (int) (0.5 * f3 * n[2]) + s3 - 2;
      if (ell && type == "simple" && !no && (jf == 0 || kf == 0)) continue; // 0/0 in the ellipse
      auto v = tab_keep(F[bi], s, [&](int x, int y, int z, int, int, int) { bool k = true;
        if (no) ; else if (type == "X2/3") k = x < n[0] / 3 * 2; else if (type == "X2/3-1") k = x < std::max(0, n[0] / 3 * 2 - 1);
        else if (type == "XYZ2/3") k = x < n[0] / 3 * 2 && y < n[1] / 3 * 2 && z < n[2] / 3 * 2;
        else if (type == "old_spec_filters") k = x < n[0] - fl[bi][0] && y < n[1] - fl[bi][1] && z < n[2] - fl[bi][2];
        else if (type == "simple") { if (ell) { double a = 2 * ((y + 1) / 2) / (double) jf, e = 2 * ((z + 1) / 2) / (double) kf, w = a * a + e * e; k = !(w > 1); if (fabs(w - 1) < 1e-12) amb = true; } else k = y <= jf && z <= kf; }
        if (!k) removed = true; return k; });
      if (amb) continue;
      double tol = 1e-13 * (F[bi].mag() + 1e-300) * (n[0] + n[1] + n[2] + 5), e = maxdiff(v.data(), g->box[bi]->v[vi], v.size());
      c.check(e <= tol, "filter %s in box %d: off by %g", type.c_str(), bi, e); }
    c.check(sn.same(), "a variable or box that was not named changed: %s", sn.bad().c_str());
  }
  if (removed) c.nontrivial(); c.label(type);
}

// real spherical harmonics, unnormalised
static ld Plm(int l, int m, ld x) { ld pmm = 1, s = sqrtl(std::max((ld) 0, 1 - x * x)); for (int k = 1; k <= m; k++) pmm *= s * (2 * k - 1) / (2.0L * k); if (l == m) return pmm;
  ld p1 = x * (2 * m + 1) * pmm; if (l == m + 1) return p1; ld p = 0; for (int q = m + 2; q <= l; q++) { p = (x * (2 * q - 1) * p1 - (q + m - 1) * pmm) / (q - m); pmm = p1; p1 = p; } return p; }
PBT(ylm, {.quick = 1500, .thorough = 25000}) {
  int bw = c.i(1, 7), n2 = 4 * bw, n3 = 2 * c.i(1, 9), shift = -c.i(0, std::min(2, bw)); int lmax = bw - 1 + shift;
  BoxSpec s; s.coord = "SphericalDF"; double r0 = c.u(0.3, 2); s.d[0] = {c.i(2, 5), r0, r0 + c.u(0.2, 3), "ChebExtrema", "64 NUMREC_FFT"}; s.d[1] = {n2, 0, 2 * PI, "Fourier", "64 NUMREC_FFT"}; s.d[2] = {n3, 0, 2 * PI, "Fourier", "64 NUMREC_FFT"};
  struct M { int l, m; bool sn; double a, b; }; vector<M> ms; int K = c.i(1, 4); int top = std::min(bw, 2 * bw - 1 - std::max(lmax, 0)); if (shift) top = 2 * bw - 1 - std::max(lmax, 0);
  for (int k = 0; k < K; k++) { int l = c.b() ? c.i(0, std::max(0, lmax)) : c.i(0, top), m = c.i(0, std::min(l, n3 / 2 - 1)); ms.push_back({l, m, m > 0 && c.b(), c.pickl<double>({1, -1, 2, 0.5}), c.sym(1)}); }
  string ds; for (auto& q : ms) ds += strf(" %g*(%d,%d%s)", q.a, q.l, q.m, q.sn ? "s" : "c"); c.describe("bw=%d n3=%d lmshift=%d modes%s", bw, n3, shift, ds.c_str());
  tGrid* g = new_grid({s}, true, {{"Coordinates_set_bfaces", "no"}}); tBox* b = g->box[0]; int vi = newvar(g, "u"), wi = newvar(g, "w"), ti = newvar(g, "temp1"); tVarList* vl = vlalloc(g); vlpush(vl, vi);
  bool removed = false; double mag = 0; auto val = [&](int q, bool filt) { ld r = gpoint(s.d[0], q % b->n1), th = gpoint(s.d[1], (q / b->n1) % n2) + PIl / n2, ph = gpoint(s.d[2], q / (b->n1 * n2)), a = 0;
    if (th > PIl) { th = 2 * PIl - th; ph += PIl; }
    for (auto& z : ms) if (!filt || z.l <= lmax) { ld t = z.a * (1 + z.b * r) * Plm(z.l, z.m, cosl(th)) * (z.sn ? sinl(z.m * ph) : cosl(z.m * ph)); a += t; mag = std::max(mag, (double) fabsl(t)); } else removed = true; return (double) a; };
  for (int q = 0; q < b->nnodes; q++) { b->v[vi][q] = val(q, false); b->v[wi][q] = q; }
  Snap sn; sn.add(g, {{0, vi}, {0, ti}});
  for (int rep = 0; rep < 2; rep++) { if (shift == 0 && c.b()) Naive_YlmFilter(vl); else Naive_YlmFilter_lmshift(vl, shift);
    for (int q = 0; q < b->nnodes; q++) { double w = val(q, true); c.check(near(b->v[vi][q], w, 1e-12 * (mag + 1e-300) * (bw + 1) * 20), "lmax=%d point theta %d phi %d: %.15g instead of %.15g (pass %d)", lmax, (q / b->n1) % n2, q / (b->n1 * n2), b->v[vi][q], w, rep + 1); } }
  auto r = rnd(c, b->nnodes); std::copy(r.begin(), r.end(), b->v[vi]); Naive_YlmFilter_lmshift(vl, shift); auto v = all_of(b, vi); Naive_YlmFilter_lmshift(vl, shift);
  c.check(maxdiff(v.data(), b->v[vi], v.size()) <= 1e-11 * (1 + maxabs(v)), "filtering twice differs from filtering once by %g", maxdiff(v.data(), b->v[vi], v.size()));
  c.check(sn.same(), "a variable that was not named changed: %s", sn.bad().c_str()); if (removed && lmax >= 0) c.nontrivial();
}

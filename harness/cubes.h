// cubes.h: random arrangements of cubed spheres and what they must cover
#pragma once
#include "grid.h"
extern "C" {
int convert_6boxes_to_CubedSphere(tGrid *grid, int b0, int type, int stretch, double *xc, double *Din, double *Dout);
int convert_1box_to_cube(tGrid *grid, int b0, double *xc, double dout);
int arrange_12CubSph_into_empty_cube(tGrid *grid, int b0, double *xc, double din, double dmid, double dout);
void set_oX_dummy();
}
struct Layer { int b0, type, nb; bool stretch; double xc[3]; double in[6], out[6]; bool deform; }; // type 0: one cube of half width out
struct Arr {
  string kind; bool conform = true; vector<Layer> L; double xc[3] = {0, 0, 0}; double a[8]; bool deformed = false, useF = false; double amp[2]; int nb = 0; double size = 1;
  string str() const { string t = kind; if (kind == "pieces") for (auto& l : L) t += pbt::strf(" type%d%s %.17g %.17g %.17g -> %.17g", l.type, l.stretch ? "s" : "", l.in[0], l.in[2], l.in[4], l.out[0]); return pbt::strf("%s, %d boxes, centre %.17g %.17g %.17g, radii %.17g %.17g %.17g %.17g %.17g %.17g %.17g%s", t.c_str(), nb, xc[0], xc[1], xc[2], a[0], a[1], a[2], a[3], a[4], a[5], a[6], deformed ? pbt::strf(", deformed %.3g %.3g%s", amp[0], amp[1], useF ? " with Ylm" : "").c_str() : ""); }
  void setup(tGrid* g) const {
    double X[4] = {0, xc[0], xc[1], xc[2]};
    if (deformed) for (auto& l : L) if (l.deform) for (int b = l.b0; b < l.b0 + l.nb; b++) enablevar_inbox(g->box[b], Ind((char*) "Coordinates_CubedSphere_sigma01_def"));
    int end;
    if (kind == "full") end = arrange_1box12CubSph_into_full_cube(g, 0, X, a[0], a[1], a[2]);
    else if (kind == "empty") end = arrange_12CubSph_into_empty_cube(g, 0, X, a[0], a[1], a[2]);
    else if (kind == "two") end = two_full_cubes_touching_at_x0(g, 0, a[0], a[1], a[2], a[3], a[4]);
    else if (kind == "sphere2") end = sphere_around_two_full_cubes_touching_at_x0(g, 0, a[0], a[1], a[2], a[3], a[4], a[5]);
    else if (kind == "spheres2") end = two_spheres_around_two_full_cubes(g, 0, a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
    else { int b = 0; for (auto& l : L) { double C[4] = {0, l.xc[0], l.xc[1], l.xc[2]}; Layer t = l; if (l.type == 0) b = convert_1box_to_cube(g, b, C, l.out[0]); else b = convert_6boxes_to_CubedSphere(g, b, l.type, l.stretch, C, t.in, t.out); } end = b; }
    if (end != g->nboxes) { fprintf(stderr, "arrangement ended at box %d of %d\n", end, g->nboxes); abort(); }
    if (deformed) for (auto& l : L) if (l.deform) for (int b = l.b0; b < l.b0 + l.nb; b++) {
      tBox* x = g->box[b]; int si = l.type == 3 ? 1 : 0; if (l.type == 4) continue; double* s = x->v[x->CI->iFS[si]]; int n1 = x->n1, n2 = x->n2, n3 = x->n3, i, j, k, p = si * (n1 - 1);
      double *Y = x->v[Ind((char*) "Y")], *Z = x->v[Ind((char*) "Z")];
      forplane1(i, j, k, n1, n2, n3, p) { int q = Index(i, j, k); s[q] *= shape(x->CI->dom, Y[q], Z[q]); }
      if (useF) x->CI->useF = 1;
    }
  }
  double shape(int dom, double A, double B) const { double n[3] = {1, 1, 1}; int s = dom % 2 ? 1 : -1; if (dom < 2) { n[0] = s; n[1] = s * A; n[2] = s * B; } else if (dom < 4) { n[1] = s; n[0] = s * A; n[2] = s * B; } else { n[2] = s; n[1] = s * A; n[0] = s * B; }
    return shape_n(n); }
  double shape_n(const double* n) const { double r = sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]), x = n[0] / r, y = n[1] / r, z = n[2] / r; return 1 + amp[0] * x * z + amp[1] * (2 * x * y + x * x - y * y); }
  // which box must hold p, -1 outside; margin: relative distance to the nearest border between boxes
  int where(const double* p, double* margin) const {
    double m = 1e300; auto near = [&](double v) { m = std::min(m, fabs(v)); };
    int found = -1;
    for (auto& l : L) {
      double d[3], mx = 0; for (int k = 0; k < 3; k++) { d[k] = p[k] - l.xc[k]; mx = std::max(mx, fabs(d[k])); }
      if (l.type == 0) { bool in = mx < l.out[0]; near((mx - l.out[0]) / size); if (in) found = l.b0; continue; }
      double r = sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]), q[3]; double q1[2] = {-1, -1}; int ax = 0;
      // the wedge through the faces of the (perhaps not cubic) inner or outer box
      const double* D = l.type == 2 ? l.out : l.in; for (int k = 0; k < 3; k++) { q[k] = d[k] / (d[k] < 0 ? D[2*k] : D[2*k+1]); if (fabs(q[k]) > q1[0]) { q1[1] = q1[0]; q1[0] = fabs(q[k]); ax = k; } else q1[1] = std::max(q1[1], fabs(q[k])); }
      int dom = 2 * ax + (d[ax] > 0); double sh = l.deform && deformed && l.type != 4 ? shape_n(d) : 1;
      auto inside = [&](int curved, const double* S) { if (curved) { near((r - S[dom] * sh) / size); return r < S[dom] * sh; } near((q1[0] * D[dom] - S[dom]) / size); return fabs(d[ax]) < S[dom]; };
      bool a = inside(l.type == 2 || l.type == 4, l.in), b = inside(l.type == 3 || l.type == 4, l.out);
      if (b && !a) { found = l.b0 + dom; near((q1[0] - q1[1]) * D[dom] / size); }
    }
    *margin = m; return found;
  }
  bool outer(const double* p, double tol) const { // on the outer border of the whole grid (or the inner one of a hollow one)
    double eps = tol; int in = 0, out = 0; double mm; (void) mm;
    for (int t = 0; t < 8; t++) { double u[3] = {t % 2 * 2 - 1., t / 2 % 2 * 2 - 1., t / 4 * 2 - 1.}, q[3]; for (int k = 0; k < 3; k++) q[k] = p[k] + eps * u[k] * (1 + 0.1 * k); if (where(q, &mm) >= 0) in++; else out++; }
    return in > 0 && out > 0;
  }
};
inline Arr gen_arr(pbt::Case& c, bool deform_ok) {
  Arr A; int k = c.i(0, 8); double q3 = sqrt(3.0); auto ratio = [&] { return 1.1 + 2 * c.u01(); };
  auto full = [&](int b0, double x, double y, double z, double din, double dmid, double dout, bool cube) {
    Layer l; l.xc[0] = x; l.xc[1] = y; l.xc[2] = z; l.stretch = false; l.deform = false; int b = b0;
    if (cube) { l.b0 = b; l.type = 0; l.nb = 1; for (int i = 0; i < 6; i++) l.in[i] = 0, l.out[i] = din; A.L.push_back(l); b++; }
    l.deform = true; l.b0 = b; l.type = 3; l.nb = 6; for (int i = 0; i < 6; i++) l.in[i] = din, l.out[i] = dmid; A.L.push_back(l); b += 6;
    l.b0 = b; l.type = 2; for (int i = 0; i < 6; i++) l.in[i] = dmid, l.out[i] = dout; A.L.push_back(l); };
  for (int i = 0; i < 8; i++) A.a[i] = 0;
  if (k == 0 || k == 1 || k == 5) {
    A.kind = k == 1 ? "empty" : "full"; for (int i = 0; i < 3; i++) A.xc[i] = c.b() ? 0 : c.sym(4);
    A.a[0] = c.logu(0.2, 3); A.a[1] = A.a[0] * q3 * ratio(); A.a[2] = A.a[1] * ratio(); full(0, A.xc[0], A.xc[1], A.xc[2], A.a[0], A.a[1], A.a[2], k != 1); A.size = A.a[2];
    if (deform_ok && c.b(1, 2)) { A.deformed = true; A.useF = c.b(); double r = std::min(1 - q3 * A.a[0] / A.a[1], A.a[2] / A.a[1] - 1) * 0.4; A.amp[0] = r * c.sym(1); A.amp[1] = 0.5 * r * c.sym(1); }
  } else if (k == 2 || k == 3 || k == 4) {
    double dc = A.a[0] = c.logu(0.3, 5); for (int i = 0; i < 2; i++) { A.a[2 + 2 * i] = dc / ratio(); A.a[1 + 2 * i] = A.a[2 + 2 * i] / q3 / ratio(); }
    A.kind = k == 2 ? "two" : k == 3 ? "sphere2" : "spheres2"; full(0, dc, 0, 0, A.a[1], A.a[2], dc, true); full(13, -dc, 0, 0, A.a[3], A.a[4], dc, true); A.size = 2 * dc;
    Layer l; for (int i = 0; i < 3; i++) l.xc[i] = 0; l.nb = 6; l.deform = false; l.stretch = false;
    if (k > 2) { A.a[5] = sqrt(6.0) * dc * ratio(); l.b0 = 26; l.type = 3; for (int i = 0; i < 6; i++) l.in[i] = i < 2 ? 2 * dc : dc, l.out[i] = A.a[5]; A.L.push_back(l); A.size = A.a[5]; }
    if (k > 3) { A.a[6] = A.a[5] * (1.5 + 10 * c.u01()); l.b0 = 32; l.type = 4; l.stretch = true; for (int i = 0; i < 6; i++) l.in[i] = A.a[5], l.out[i] = A.a[6]; A.L.push_back(l); A.size = A.a[6]; }
  } else { // single pieces: convert_6boxes directly, from the centre outwards
    A.kind = "pieces"; double x[3]; for (int i = 0; i < 3; i++) x[i] = c.b() ? 0 : c.sym(3); int b = 0; double r = c.logu(0.2, 3); int state; // 0 flat, 1 curved surface at r
    Layer l; l.deform = false; for (int i = 0; i < 3; i++) l.xc[i] = A.xc[i] = x[i];
    if (k == 6) { l.b0 = 0; l.type = 0; l.nb = 1; l.stretch = false; for (int i = 0; i < 6; i++) l.in[i] = 0, l.out[i] = r; A.L.push_back(l); b = 1; state = 0; } else state = c.b();
    int m = c.i(1, 3); bool cubic = true; double D[6]; for (int i = 0; i < 6; i++) D[i] = r;
    if (k == 8 && state == 0 && c.b()) { cubic = false; double h[3]; for (int i = 0; i < 3; i++) h[i] = r * (i == 0 ? 1 : 1.1 + c.u01()); for (int i = 0; i < 6; i++) D[i] = h[i / 2]; r = *std::max_element(D, D + 6); }
    for (int t = 0; t < m; t++) {
      l.b0 = b; l.nb = 6; l.stretch = false; int next = cubic || t ? c.i(0, 1) : 1; double rr; 
      double diag = state ? r : sqrt(D[0] * D[0] + D[2] * D[2] + D[4] * D[4]);
      if (next) rr = diag * ratio(); else rr = r * ratio();
      l.type = state ? (next ? 4 : 2) : (next ? 3 : 1); if (l.type == 4 && c.b()) l.stretch = true;
      for (int i = 0; i < 6; i++) l.in[i] = D[i], l.out[i] = D[i] = rr; r = rr; state = next; A.L.push_back(l); if (t && !cubic) A.conform = false; b += 6; A.a[t] = rr;
    }
    A.size = r;
  }
  if (A.kind.substr(0, 3) == "sph") A.conform = false;
  A.nb = A.L.back().b0 + A.L.back().nb;
  return A;
}
inline tGrid* arr_grid(const Arr& A, const vector<std::array<int, 3>>& n, std::map<string, string> pars) {
  vector<BoxSpec> s(A.nb); for (int b = 0; b < A.nb; b++) { s[b].coord = "Cartesian"; for (int k = 0; k < 3; k++) { s[b].d[k] = Dir(); s[b].d[k].n = n[b][k]; s[b].d[k].a = 0; s[b].d[k].b = 1; s[b].d[k].basis = "ChebExtrema"; s[b].d[k].tt = "0 FFTW3"; } }
  tGrid* g = new_grid(s, false, pars); A.setup(g); RunFun(PRE_COORDINATES, g); RunFun(COORDINATES, g); return g;
}

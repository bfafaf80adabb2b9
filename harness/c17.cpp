// C17: cubed-sphere grids tile space without gaps, and faces know their neighbours
#include "cubes.h"
using namespace pbt;
extern "C" int b_XYZ_of_xyz(tGrid*, double*, double*, double*, double, double, double);
static vector<std::array<int, 3>> sizes(Case& c, const Arr& A, int lo, int hi, bool same) {
  vector<std::array<int, 3>> n(A.nb); int m = c.i(lo, hi), mz = same && A.L[0].type && c.b(1, 3) ? c.i(lo, hi) : m; for (auto& v : n) for (int k = 0; k < 3; k++) v[k] = same ? (k ? m : mz) : c.i(lo, hi); return n; }
// the coordinates of p in box b, if b contains p
static bool in_box(tBox* b, const double* p, double* X, double slack) {
  double P[3] = {p[0], p[1], p[2]};
  if (!b->x_of_X[1]) for (int k = 0; k < 3; k++) X[k] = P[k];
  else { X[0] = 0.5; X[1] = X[2] = 0; int st = b->XYZ_Of_xyz ? b->XYZ_Of_xyz(b, -1, P[0], P[1], P[2], X, X + 1, X + 2) : 0; (void) st; }
  for (int k = 0; k < 3; k++) if (!(X[k] >= b->bbox[2*k] - slack && X[k] <= b->bbox[2*k+1] + slack)) return false;
  if (b->x_of_X[1]) for (int k = 0; k < 3; k++) { double v = b->x_of_X[k+1](b, -1, X[0], X[1], X[2]); if (!(fabs(v - p[k]) < 1e-8 * (1 + fabs(p[k])))) return false; }
  return true;
}
static void ident(Case& c, const Arr& A, tGrid* g) { // the boxes say what they are
  for (auto& l : A.L) for (int i = 0; i < l.nb; i++) { tBox* b = g->box[l.b0 + i]; c.evals(1);
    if (l.type == 0) { c.check(!b->x_of_X[1], "box%d is not Cartesian", b->b); continue; }
    c.check(b->CI->dom == i && b->CI->type == l.type, "box%d: domain %d type %d instead of %d %d", b->b, b->CI->dom, b->CI->type, i, l.type);
    for (int d = 1; d <= 3; d++) c.check(fabs(b->CI->xc[d] - l.xc[d-1]) <= 1e-13 * (1 + fabs(l.xc[d-1])), "box%d: centre %d is %.17g", b->b, d, b->CI->xc[d]); }
}
PBT(tiling, {.quick = 700, .thorough = 5000, .cpu_s = 60, .fs = true}) {
  Arr A = gen_arr(c, true); auto n = sizes(c, A, A.deformed ? 9 : 2, A.deformed ? 11 : 5, A.deformed); c.describe("%s", A.str().c_str());
  c.label(A.kind + (A.deformed ? " deformed" : "")); if (A.nb > 6) c.nontrivial();
  tGrid* g = arr_grid(A, n, {{"Coordinates_set_bfaces", "no"}, {"Coordinates_XYZ_of_xyz_Verbose", "no"}}); ident(c, A, g);
  double mm = A.deformed ? 0.03 : 1e-7; int out = 0, in = 0;
  for (int t = 0; t < 400; t++) {
    double p[3], m, X[3]; int w; const Layer& l = A.L[c.i(0, A.L.size() - 1)];
    if (c.b(1, 3)) { int b = l.b0 + c.i(0, l.nb - 1); tBox* x = g->box[b]; for (int k = 0; k < 3; k++) { double e = A.deformed ? 0.02 : 1e-9; X[k] = x->bbox[2*k] + (x->bbox[2*k+1] - x->bbox[2*k]) * (e + (1 - 2 * e) * c.u01()); }
      for (int k = 0; k < 3; k++) p[k] = x->x_of_X[1] ? x->x_of_X[k+1](x, -1, X[0], X[1], X[2]) : X[k]; w = A.where(p, &m); if (m < mm) continue;
      c.check(w == b, "%s: box%d holds X=(%.17g,%.17g,%.17g), x=(%.17g,%.17g,%.17g), which belongs to box%d", A.kind.c_str(), b, X[0], X[1], X[2], p[0], p[1], p[2], w); }
    else { double s = 1.1 * l.out[0]; if (c.b(1, 4)) s = 1.2 * l.in[0] + 0.01; for (int k = 0; k < 3; k++) p[k] = l.xc[k] + s * c.sym(1); w = A.where(p, &m); if (m < mm) continue; }
    (w < 0 ? out : in)++;
    string who; int cnt = 0; for (int b = 0; b < A.nb; b++) { c.evals(1); if (in_box(g->box[b], p, X, 0)) { cnt++; who += strf(" %d", b); } }
    c.check(cnt == (w >= 0) && (w < 0 || in_box(g->box[w], p, X, 0)), "%s: the point (%.17g,%.17g,%.17g) is in boxes%s instead of only in %d", A.kind.c_str(), p[0], p[1], p[2], who.empty() ? " (none)" : who.c_str(), w);
  }
  c.label(in ? "inside" : "none inside"); c.label(out ? "outside" : "none outside");
}
static void xyz_at(tBox* b, int i, double* p) { static const char* N[2][3] = {{"X", "Y", "Z"}, {"x", "y", "z"}}; for (int k = 0; k < 3; k++) p[k] = b->v[Ind((char*) N[b->x_of_X[1] != 0][k])][i]; }
static double dist(const double* a, const double* b) { double s = 0; for (int k = 0; k < 3; k++) s = std::max(s, fabs(a[k] - b[k])); return s; }
static int faces_of(tBox* b, int ind) { int n1 = b->n1, n2 = b->n2, i = ind % n1, j = ind / n1 % n2, k = ind / n1 / n2; return (i == 0) | (i == n1 - 1) << 1 | (j == 0) << 2 | (j == n2 - 1) << 3 | (k == 0) << 4 | (k == b->n3 - 1) << 5; }
static void check_bfaces(Case& c, const Arr& A, tGrid* g, bool same, bool ar, bool closed) {
  (void) closed;
  double tol = 1e-7 * A.size; char* nm = (char*) "oX"; int ioX = Ind(nm);
  for (int b = 0; b < A.nb; b++) {
    tBox* x = g->box[b]; vector<int> last(x->nnodes, -1); vector<vector<int>> cov(6, vector<int>(x->nnodes, 0));
    for (int fi = 0; fi < x->nbfaces; fi++) { tBface* f = x->bface[fi]; c.evals(1);
      c.check(f->b == b && f->fi == fi && f->grid == g && f->f >= 0 && f->f < 6, "box%d bface%d says it is bface%d on face %d of box%d", b, fi, f->fi, f->f, f->b);
      c.check(f->fpts && f->fpts->npoints[b] > 0, "box%d bface%d has no points", b, fi);
      for (int o = 0; o < A.nb; o++) if (o != b) c.check(f->fpts->npoints[o] == 0, "box%d bface%d has points of box%d", b, fi, o);
      c.check((f->ob >= 0) != (bool) f->outerbound, "box%d bface%d: other box %d and outerbound=%d", b, fi, f->ob, f->outerbound);
      c.check(!f->innerbound, "box%d bface%d is marked as inner boundary", b, fi);
      c.check(f->ob != b && f->ob < A.nb, "box%d bface%d has partner box%d", b, fi, f->ob);
      std::set<int> seen;
      for (int q = 0; q < f->fpts->npoints[b]; q++) { int i = f->fpts->point[b][q]; c.check(i >= 0 && i < x->nnodes && seen.insert(i).second, "box%d bface%d lists point %d twice or wrongly", b, fi, i);
        c.check(faces_of(x, i) >> f->f & 1, "box%d bface%d lists point %d, which is not on face %d", b, fi, i, f->f); cov[f->f][i]++; if (f->ob >= 0 && f->oXi == ioX) last[i] = fi; }
    }
    for (int f = 0; f < 6; f++) for (int i = 0; i < x->nnodes; i++) if (faces_of(x, i) >> f & 1) { double p[3]; xyz_at(x, i, p); c.check(cov[f][i], "box%d: the point %d (%.12g,%.12g,%.12g) on face %d is in no bface", b, i, p[0], p[1], p[2], f); }
    for (int fi = 0; fi < x->nbfaces; fi++) { tBface* f = x->bface[fi]; int np = f->fpts->npoints[b]; int* pt = f->fpts->point[b];
      if (f->ob < 0) { c.check(f->ofi < 0 && !f->touch && !f->same_fpts && f->oXi < 0, "box%d bface%d is outer boundary with ofi=%d touch=%d", b, fi, f->ofi, f->touch);
        for (int q = 0; q < np; q++) { double p[3]; xyz_at(x, pt[q], p);
 c.check(A.outer(p, 1e-6 * A.size), "box%d bface%d: the point (%.12g,%.12g,%.12g) is called outer boundary", b, fi, p[0], p[1], p[2]); }
        continue; }
      tBox* ob = g->box[f->ob]; tBface* of = f->ofi >= 0 && f->ofi < ob->nbfaces ? ob->bface[f->ofi] : 0;
      c.check(of != 0 || f->ofi < -1, "box%d bface%d: partner box%d has no bface %d", b, fi, f->ob, f->ofi);
      if (same || ar) c.check(of != 0, "box%d bface%d: partner face %d", b, fi, f->ofi);
      if (of) { c.check(of->ob == b, "box%d bface%d has partner box%d bface%d, whose partner is box%d", b, fi, f->ob, f->ofi, of->ob);
        if (f->same_fpts || (same && of->ofi >= 0 && A.conform)) c.check(of->ofi == fi, "box%d bface%d has partner box%d bface%d, whose partner is bface%d", b, fi, f->ob, f->ofi, of->ofi); }
      else { int bits = -f->ofi; c.check(bits % 2 == 0, "box%d bface%d: odd ofi %d", b, fi, f->ofi); for (int k = 0; k < 30; k++) { bool on = bits >> (k + 1) & 1, want = k < ob->nbfaces && ob->bface[k]->ob == b; c.check(on == want, "box%d bface%d: ofi %d is wrong about bface%d of box%d", b, fi, f->ofi, k, f->ob); } }
      // every point of it is on a face of the partner box
      for (int q = 0; q < np; q++) { double p[3], X[3]; xyz_at(x, pt[q], p); bool in = in_box(ob, p, X, 1e-6); bool edge = __builtin_popcount(faces_of(x, pt[q])) > 1;
        c.check(in, "box%d bface%d: its point %d (%.12g,%.12g,%.12g)%s is not in its partner box%d", b, fi, pt[q], p[0], p[1], p[2], edge ? " on an edge" : "", f->ob);
        if (f->same_fpts) { c.check(of && of->fpts->npoints[f->ob] == np, "box%d bface%d: same_fpts, but %d and %d points", b, fi, np, of ? of->fpts->npoints[f->ob] : -1); double o[3]; xyz_at(ob, of->fpts->point[f->ob][q], o);
          c.check(dist(o, p) < tol, "box%d bface%d: point %d of the list is (%.12g,%.12g,%.12g), in its partner box%d bface%d it is (%.12g,%.12g,%.12g)", b, fi, q, p[0], p[1], p[2], f->ob, f->ofi, o[0], o[1], o[2]); }
        else { c.check(f->oXi == ioX && f->oYi == ioX + 1 && f->oZi == ioX + 2, "box%d bface%d: no coordinates of the partner: %d %d %d", b, fi, f->oXi, f->oYi, f->oZi);
          if (last[pt[q]] == fi) { double o[3], O[3]; for (int k = 0; k < 3; k++) O[k] = x->v[ioX + k][pt[q]]; for (int k = 0; k < 3; k++) o[k] = ob->x_of_X[1] ? ob->x_of_X[k+1](ob, -1, O[0], O[1], O[2]) : O[k];
            c.check(dist(o, p) < tol, "box%d bface%d: at point %d (%.12g,%.12g,%.12g) the coordinates in box%d are of (%.12g,%.12g,%.12g)", b, fi, pt[q], p[0], p[1], p[2], f->ob, o[0], o[1], o[2]); }
          if (of && f->touch) for (int k = 0; k < 3; k++) { bool flag = k == 0 ? f->sameX : k == 1 ? f->sameY : f->sameZ; if (!flag) continue; bool found = false; double Xp[3] = {X[0], X[1], X[2]};
            char* ax[3] = {(char*) "X", (char*) "Y", (char*) "Z"}; double* v = ob->v[Ind(ax[k])]; for (int i = 0; i < ob->nnodes && !found; i++) if ((faces_of(ob, i) >> of->f & 1) && fabs(v[i] - Xp[k]) < 1e-6) found = true;
            c.check(found, "box%d bface%d: same%s is set, but at (%.12g,%.12g,%.12g) it is %.12g in box%d, where there is no grid point on face %d", b, fi, ax[k], p[0], p[1], p[2], Xp[k], f->ob, of->f); } }
        if (!edge) { c.check(!A.outer(p, 1e-6 * A.size), "box%d bface%d: the outer boundary point (%.12g,%.12g,%.12g) has a partner", b, fi, p[0], p[1], p[2]); }
      }
      if (of && of->ofi == fi) { c.check(f->touch == of->touch, "box%d bface%d and its partner do not agree on touching", b, fi); c.check(f->same_fpts == of->same_fpts, "box%d bface%d and its partner do not agree on same_fpts", b, fi);
        if (f->touch) c.check(f->setnormalderiv != of->setnormalderiv, "box%d bface%d and its partner box%d bface%d have both setnormalderiv=%d", b, fi, f->ob, f->ofi, f->setnormalderiv); }
      if (same) c.check(f->touch, "box%d bface%d does not touch its partner box%d", b, fi, f->ob);
    }
  }
}
PBT(faces, {.quick = 600, .thorough = 2500, .cpu_s = 120, .fs = true}) {
  Arr A = gen_arr(c, true); bool same = A.deformed || c.b(3, 4), ar = c.b() || !A.conform; auto n = sizes(c, A, A.useF ? 7 : A.nb > 20 ? 4 : 3, A.useF ? 8 : A.nb > 20 ? 5 : 7, same); 
  string order = c.pickl<const char*>({"setnormalderiv_order3", "none", "setnormalderiv_order0", "setnormalderiv_order1", "setnormalderiv_order2", "setnormalderiv_order3", "setnormalderiv_order4"});
  string opt = ar ? "populate_bfaces " + order : order; string sz; for (auto& v : n) { sz += strf(" %dx%dx%d", v[0], v[1], v[2]); if (same) break; }
  c.describe("%s, %s, sizes%s", A.str().c_str(), opt.c_str(), sz.c_str()); c.label(A.kind + (A.deformed ? " deformed" : "")); c.label(ar ? "populate_bfaces" : "oldWT"); c.label(same ? "same sizes" : "different sizes"); if (A.nb > 6) c.nontrivial();
  std::map<string, string> pars = {{"Coordinates_set_bfaces", "yes"}, {"Coordinates_verbose", "no"}, {"Coordinates_XYZ_of_xyz_Verbose", "no"}, {"Coordinates_bface_options", opt}};
  // it may say that it cannot connect boxes with different points
  if ((!same || (!A.conform && A.kind == "pieces")) && c.exits([&] { arr_grid(A, n, pars); })) { c.label("refused"); return; }
  tGrid* g = arr_grid(A, n, pars);
  check_bfaces(c, A, g, same, ar, true);
}

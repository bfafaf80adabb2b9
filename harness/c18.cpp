// C18: boundary conditions act on exactly the boundary points with the stated law
#include "cubes.h"
#include "coords.h"
using namespace pbt;
extern "C" {
int initialize_BoundaryPointLists(tGrid*); int free_BoundaryPointLists(tGrid*);
void set_boundary(tVarList*, tVarList*, double, tVarList*); void set_boundary_value(tPointList*, int, double); void set_boundary_constant(tPointList*, int, int);
void set_boundary_normalderiv_leftBound(tPointList*, int, int, double); void set_boundary_normalderiv_rightBound(tPointList*, int, int, double);
void boxface_normal_at_ijk(tBox*, int, int, double*); void boxface_outwarddir_at_ijk(tBox*, int, int, double*); void boxface_normal_at_XYZ(tBox*, int, double, double, double, double*); void boxface_outwarddir_at_XYZ(tBox*, int, double, double, double, double*);
void set_interbox_BCs_for_boxbfaces(tBox*, int, int, int*); void set_interbox_BC_onface(tBox*, int, int, int, int*, int); void set_interbox_BCs_for_bface(int, tBface*, int, int*);
}
static string P3(const double* p) { return strf("(%.17g,%.17g,%.17g)", p[0], p[1], p[2]); }
static void fill(Case& c, tGrid* g, int v) { FORBOXES(g, b) { tBox* x = g->box[b]; auto r = rnd(c, x->nnodes); for (int i = 0; i < x->nnodes; i++) x->v[v][i] = r[i]; } }
static int addv(tGrid* g, const string& n) { AddVarToGrid(g, S_(n), (char*) "", (char*) "harness"); int i = Ind(S_(n)); enablevar(g, i); return i; }
static void enable_(tGrid* g, int v) { enablevar(g, v); }
static bool spherical(const string& s) { return s == "SphericalDF" || s == "compactSphericalDF" || s == "Spherical" || s == "Spherical2" || s == "Spherical3"; }
static Sys regular(Case& c, bool sph) { // a box without singular points
  for (int t = 0; t < 60; t++) { Sys y = gen_sys(c, 4, 7, true); if (sph && !spherical(y.name)) continue; if (y.name[0] == 'A') continue; return y; }
  c.discard(); return Sys(); }
PBT(laws, {.quick = 6000, .thorough = 150000}) {
  static const char* OUT[] = {"", "radiative", "constant", "radiative_analytic", "radiative"}; static const char* EXC[] = {"", "constantExcision", "simpleExcision", "VonNeumannExcision", "selectedconstantExcision", "selectedVonNeumannExcision"};
  string bo = OUT[c.i(0, 4)], be = EXC[c.i(0, 5)]; int nb = c.i(1, 3); vector<Sys> S; vector<BoxSpec> sp; std::map<string, string> pars;
  for (int b = 0; b < nb; b++) {
    if (b == nb - 1 && c.b(1, 3)) { Sys y; y.name = "Cartesian"; y.s = BoxSpec(); for (int k = 0; k < 3; k++) { double a = 0.5 + c.u01(); y.s.d[k] = mkdir_(c, c.i(3, 6), a, a + 1 + c.u01(), false); } S.push_back(y); sp.push_back(y.s); continue; }
    Sys y = regular(c, c.b(2, 3)); for (int t = 0; t < 20 && b && (y.name == "compactSphericalDF" || y.name == "Spherical3" || y.name == "tan_stretch" || y.name.find("Cubed") != string::npos); t++) y = regular(c, c.b(2, 3));
    if (b && (y.name == "compactSphericalDF" || y.name == "Spherical3" || y.name == "tan_stretch" || y.name.find("Cubed") != string::npos)) c.discard(); // they need parameters of their own
    for (auto& p : y.pars) pars[p.first] = p.second; S.push_back(y); sp.push_back(y.s); }
  bool exc = !be.empty() && spherical(S[0].name); string words_ = bo; if (!be.empty()) words_ += " " + be; if (c.b(1, 8)) words_ = be + " " + bo;
  pars["boundary"] = words_; pars["Coordinates_set_bfaces"] = "no"; int nv = c.i(1, 3); string rc, se; vector<double> far(nv), speed(nv);
  vector<bool> radc(nv), sel(nv); bool suffix = c.b(1, 4); string suf = suffix ? c.pickl<string>({"_p", "_r", "_c"}) : "";
  for (int v = 0; v < nv; v++) { far[v] = c.b(1, 4) ? 0 : c.sym(2); speed[v] = c.b(1, 4) ? 1 : c.sym(2); radc[v] = c.b(1, 4); sel[v] = c.b(); if (radc[v]) rc += strf(" hu%d", v); if (sel[v]) se += strf(" hu%d%s", v, suf.c_str()); }
  if (bo.find("radiative") == 0) pars["boundary_radconstant"] = rc; if (be.find("selected") == 0) pars["boundary_selectedExcisionVars"] = se;
  c.describe("boundary='%s' radconstant='%s' selected='%s' %d boxes, first %s, last %s, variables hu%s", words_.c_str(), rc.c_str(), se.c_str(), nb, specstr(sp[0]).c_str(), specstr(sp.back()).c_str(), suf.c_str());
  c.label(bo.empty() ? "no outer" : bo); if (exc) c.label(be); if (!bo.empty() || exc) c.nontrivial();
  tGrid* g = new_grid(sp, false, pars);
  for (const char* n : {"temp1", "temp2", "temp3", "ADMvars_dgxxx", "ADMvars_dgxxy", "ADMvars_dgxxz"}) AddVarToGrid(g, (char*) n, (char*) "", (char*) "");
  RunFun(PRE_COORDINATES, g); RunFun(COORDINATES, g); for (const char* n : {"temp1", "temp2", "temp3", "ADMvars_dgxxx", "ADMvars_dgxxy", "ADMvars_dgxxz"}) enable_(g, Ind((char*) n));
  tVarList *un = vlalloc(g), *up = vlalloc(g), *uc = vlalloc(g); vector<int> dx;
  bool same = c.b(1, 3); // the current values may be the previous ones
  for (int v = 0; v < nv; v++) { string n = strf("hu%d%s", v, suf.c_str()); int i = addv(g, n); VarNameSetBoundaryInfo(S_(n), far[v], 1, speed[v]); vlpush(un, i); int p = addv(g, strf("hp%d", v)), q = same ? p : addv(g, strf("hc%d", v)); vlpush(up, p); vlpush(uc, q); }
  for (int k = 0; k < 6; k++) dx.push_back(addv(g, strf("hd%d", k)));
  initialize_BoundaryPointLists(g);
  vector<vector<vector<double>>> init(nv); // what radiative_analytic remembers
  int calls = c.i(1, 3); bool saved = false;
  for (int t = 0; t < calls; t++) {
    double time = t == 0 ? 0 : c.b(1, 5) ? 0 : 0.25 * t, cc = c.b(1, 3) ? 0 : c.sym(1.5); un->time = up->time = uc->time = time;
    for (int v = 0; v < nv; v++) { fill(c, g, un->index[v]); fill(c, g, up->index[v]); fill(c, g, uc->index[v]); }
    if (time == 0) { saved = true; for (int v = 0; v < nv; v++) { init[v].clear(); FORBOXES(g, b) init[v].push_back(all_of(g->box[b], up->index[v])); } } (void) saved;
    // the model
    vector<vector<vector<double>>> W(nv); std::set<BV> own; for (int v = 0; v < nv; v++) FORBOXES(g, b) { W[v].push_back(all_of(g->box[b], un->index[v])); own.insert(BV(b, un->index[v])); }
    for (int b = 0; b < nb; b++) for (const char* n : {"temp1", "temp2", "temp3", "ADMvars_dgxxx", "ADMvars_dgxxy", "ADMvars_dgxxz"}) own.insert(BV(b, Ind((char*) n)));
    tBox* L = g->box[nb - 1]; bool sph = spherical(S[nb - 1].name); auto onouter = [&](int i) { int a = i % L->n1, b = i / L->n1 % L->n2, k = i / L->n1 / L->n2; if (sph) return a == L->n1 - 1; return a == 0 || b == 0 || k == 0 || a == L->n1 - 1 || b == L->n2 - 1 || k == L->n3 - 1; };
    vector<vector<double>> tol(nv, vector<double>(L->nnodes, 0));
    double *x[3]; for (int k = 0; k < 3; k++) x[k] = L->v[Ind((char*) "x") + k];
    if (bo == "constant") for (int v = 0; v < nv; v++) for (int i = 0; i < L->nnodes; i++) if (onouter(i)) W[v][nb-1][i] = L->v[up->index[v]][i];
    if (bo.find("radiative") == 0) for (int v = 0; v < nv; v++) {
      double s = radc[v] ? 0 : speed[v]; double* u = L->v[uc->index[v]]; double** V = L->v; vector<double> z(L->nnodes, 0); cart_partials(L, u, V[dx[0]], V[dx[1]], V[dx[2]]); bool an = bo == "radiative_analytic"; vector<double> ui(L->nnodes, far[v]);
      if (an) { ui = init[v][nb-1]; cart_partials(L, ui.data(), V[dx[3]], V[dx[4]], V[dx[5]]); } else for (int k = 3; k < 6; k++) for (int i = 0; i < L->nnodes; i++) V[dx[k]][i] = 0;
      for (int i = 0; i < L->nnodes; i++) if (onouter(i)) { double r = sqrt(x[0][i]*x[0][i] + x[1][i]*x[1][i] + x[2][i]*x[2][i]), rhs = -s * (u[i] - ui[i]) / r, m = fabs(rhs); for (int k = 0; k < 3; k++) { double d = s * x[k][i] / r; rhs -= d * (V[dx[k]][i] - V[dx[k+3]][i]); m += fabs(d) * (fabs(V[dx[k]][i]) + fabs(V[dx[k+3]][i])); }
        W[v][nb-1][i] = cc != 0 ? L->v[up->index[v]][i] + cc * rhs : rhs; tol[v][i] = 1e-12 * (1 + m * (1 + fabs(cc))); } }
    tBox* B = g->box[0]; bool vn = be.find("VonNeumann") != string::npos;
    if (exc) for (int v = 0; v < nv; v++) for (int i = 0; i < B->nnodes; i += B->n1) { double* p = B->v[up->index[v]];
      if (be == "constantExcision") W[v][0][i] = p[i];
      if (be == "simpleExcision") W[v][0][i] = p[i] + (W[v][0][i+1] - p[i+1]);
      if (be == "selectedconstantExcision" && sel[v]) W[v][0][i] = p[i]; }
    for (int v = 0; v < nv; v++) { int q = IndLax(S_(strf("%s_initial", VarName(up->index[v])))); if (q >= 0) FORBOXES(g, b) own.insert(BV(b, q)); } // where radiative_analytic keeps its data
    Snap sn; sn.add(g, own);
    set_boundary(un, up, cc, uc);
    string bad = sn.bad(); c.check(bad.empty(), "set_boundary changed %s", bad.c_str());
    for (int v = 0; v < nv; v++) FORBOXES(g, b) { tBox* X = g->box[b]; bool vnb = exc && vn && b == 0 && (be == "VonNeumannExcision" || sel[v]);
      for (int i = 0; i < X->nnodes; i++) { if (vnb && i % X->n1 == 0) continue; double got = X->v[un->index[v]][i], w = W[v][b][i]; c.evals(1); double tt = b == nb - 1 ? tol[v][i] : 0; if (be == "simpleExcision" && exc && b == 0 && i % X->n1 == 0) tt = 1e-13 + (b == nb - 1 && X->n1 == 2 ? tol[v][i+1] : 0);
        c.check(same_bits(got, w) || fabs(got - w) <= tt || (tt == 0 && got == w), "call %d: hu%d%s in box%d at point (%d,%d,%d) of %dx%dx%d is %.17g, the law gives %.17g (c=%g, v=%g, far value %g)", t, v, suf.c_str(), b, i % X->n1, i / X->n1 % X->n2, i / X->n1 / X->n2, X->n1, X->n2, X->n3, got, w, cc, speed[v], far[v]); }
      if (vnb) { vector<double> u = all_of(X, un->index[v]), d(X->nnodes); spec_Deriv1(X, 1, u.data(), d.data()); double m = maxabs(u) / (X->bbox[1] - X->bbox[0]) * X->n1 * X->n1; for (int i = 0; i < X->nnodes; i += X->n1) c.check(fabs(d[i]) <= 1e-11 * m, "call %d: hu%d has normal derivative %g on the excision boundary (values up to %g)", t, v, d[i], maxabs(u)); }
    }
  }
}
// a given value or a given derivative on a list of points
PBT(values, {.quick = 3000, .thorough = 100000}) {
  int nb = c.i(1, 3); vector<BoxSpec> sp(nb); for (auto& s : sp) for (int k = 0; k < 3; k++) { Dir d = gen_dir(c, 3, 8); if (d.basis == "Fourier") d.basis = "ChebExtrema"; s.d[k] = d; }
  tGrid* g = new_grid(sp, false, {{"Coordinates_set_bfaces", "no"}}); AddVarToGrid(g, (char*) "temp1", (char*) "", (char*) ""); RunFun(PRE_COORDINATES, g); RunFun(COORDINATES, g); enable_(g, Ind((char*) "temp1"));
  int u = addv(g, "hu"), p = addv(g, "hp"); fill(c, g, u); fill(c, g, p); int how = c.i(0, 3), dir = c.i(1, 3); double val = c.sym(3); c.label(strf("how %d", how)); c.describe("%d boxes, %s in direction %d = %.17g", nb, how == 0 ? "value" : how == 1 ? "copy" : how == 2 ? "left derivative" : "right derivative", dir, val);
  tPointList* PL = AllocatePointList(g); vector<std::set<int>> in(nb); int tot = 0;
  for (int b = 0; b < nb; b++) { tBox* x = g->box[b]; int n[3] = {x->n1, x->n2, x->n3}; int m = c.i(0, 8); for (int t = 0; t < m; t++) { int q[3]; for (int k = 0; k < 3; k++) q[k] = c.i(0, n[k] - 1); if (how == 2) q[dir-1] = 0; if (how == 3) q[dir-1] = n[dir-1] - 1; int i = q[0] + n[0] * (q[1] + n[1] * q[2]); if (how >= 2 && in[b].count(i)) continue; AddToPointList(PL, b, i); in[b].insert(i); tot++; } }
  if (tot > 2) c.nontrivial(); vector<vector<double>> U; FORBOXES(g, b) U.push_back(all_of(g->box[b], u)); Snap sn; std::set<BV> own; for (int b = 0; b < nb; b++) { own.insert(BV(b, u)); own.insert(BV(b, Ind((char*) "temp1"))); } sn.add(g, own);
  if (how == 0) set_boundary_value(PL, u, val); if (how == 1) set_boundary_constant(PL, u, p); if (how == 2) set_boundary_normalderiv_leftBound(PL, dir, u, val); if (how == 3) set_boundary_normalderiv_rightBound(PL, dir, u, val);
  c.check(sn.bad().empty(), "%s was changed", sn.bad().c_str());
  FORBOXES(g, b) { tBox* x = g->box[b]; vector<double> v = all_of(x, u), d(x->nnodes); if (how >= 2) spec_Deriv1(x, dir, v.data(), d.data()); int n = dir == 1 ? x->n1 : dir == 2 ? x->n2 : x->n3; double m = (maxabs(v) + 1) / (x->bbox[2*dir-1] - x->bbox[2*dir-2]) * n * n + fabs(val);
    for (int i = 0; i < x->nnodes; i++) { c.evals(1); if (!in[b].count(i)) { c.check(same_bits(v[i], U[b][i]), "box%d point %d is not in the list, but was changed from %.17g to %.17g", b, i, U[b][i], v[i]); continue; }
      if (how == 0) c.check(v[i] == val, "box%d point %d is %.17g", b, i, v[i]); else if (how == 1) c.check(v[i] == x->v[p][i], "box%d point %d is %.17g instead of %.17g", b, i, v[i], x->v[p][i]); else c.check(fabs(d[i] - val) <= 1e-10 * m, "box%d (%s): the derivative in direction %d at point %d is %.17g instead of %.17g", b, specstr(sp[b]).c_str(), dir, i, d[i], val); } }
}
// normals and outward directions
PBT(normals, {.quick = 4000, .thorough = 150000}) {
  Sys y = gen_sys(c, 4, 7, c.b()); c.describe("%s", y.str().c_str()); c.label(y.name); std::map<string, string> p = y.pars; p["Coordinates_set_bfaces"] = "no"; if (c.b(1, 3)) p["CoordinateTransforms_stored"] = "no";
  tGrid* g = new_grid({y.s}, true, p); tBox* b = g->box[0]; int n[3] = {b->n1, b->n2, b->n3}; static char* N[3] = {(char*) "X", (char*) "Y", (char*) "Z"};
  for (int t = 0; t < 12; t++) {
    int f = c.i(0, 5), q[3], d = f / 2, sg = f % 2 ? 1 : -1; for (int k = 0; k < 3; k++) q[k] = k == d ? (f % 2) * (n[k] - 1) : c.i(0, n[k] - 1); int i = q[0] + n[0] * (q[1] + n[1] * q[2]); double X[3], h[3], J[3][3], K[3][3]; for (int k = 0; k < 3; k++) X[k] = b->v[Ind(N[k])][i];
    if (c.b(1, 3)) { i = -1; y.point(c, X); X[d] = b->bbox[f]; } if (!y.interior(X)) continue; y.steps(X, h); jac(b, X, h, J); if (!(inverse3(J, K) < 1e4)) continue; c.nontrivial(); c.evals(1);
    double a[4], o[4]; if (i >= 0) { boxface_normal_at_ijk(b, f, i, a); boxface_outwarddir_at_ijk(b, f, i, o); } else { boxface_normal_at_XYZ(b, f, X[0], X[1], X[2], a); boxface_outwarddir_at_XYZ(b, f, X[0], X[1], X[2], o); }
    string at = strf("%s face %d at X=%s, %s", y.name.c_str(), f, P3(X).c_str(), i >= 0 ? "grid point" : "any point");
    double col[3], row[3], cn = 0, rn = 0; for (int k = 0; k < 3; k++) { col[k] = sg * J[k][d]; row[k] = sg * K[d][k]; cn += col[k]*col[k]; rn += row[k]*row[k]; } cn = sqrt(cn); rn = sqrt(rn);
    for (int k = 0; k < 3; k++) { c.check(near(a[k+1], row[k] / rn, 1e-6), "%s: component %d of the normal is %.12g, it should be %.12g", at.c_str(), k + 1, a[k+1], row[k] / rn);
      double w = b->dx_dX[1][d+1] || !b->x_of_X[1] ? col[k] / cn : row[k] / rn; c.check(near(o[k+1], w, 1e-6), "%s: component %d of the outward direction is %.12g, it should be %.12g", at.c_str(), k + 1, o[k+1], w); }
    double s = 0; for (int k = 1; k < 4; k++) s += a[k] * a[k]; c.check(near(s, 1, 1e-12), "%s: the normal has length %.15g", at.c_str(), sqrt(s));
  }
}
// between boxes
static void xyz_at(tBox* b, int i, double* p) { static const char* N[2][3] = {{"X", "Y", "Z"}, {"x", "y", "z"}}; for (int k = 0; k < 3; k++) p[k] = b->v[Ind((char*) N[b->x_of_X[1] != 0][k])][i]; }
static double interp(tBox* b, const double* u, const double* X) { // at any point of a Chebyshev box
  int n[3] = {b->n1, b->n2, b->n3}; vector<double> w[3];
  for (int k = 0; k < 3; k++) { w[k].assign(n[k], 0); double s = 0; int hit = -1; double L = b->bbox[2*k+1] - b->bbox[2*k]; for (int i = 0; i < n[k]; i++) { double xi = 0.5 * (b->bbox[2*k] + b->bbox[2*k+1]) - 0.5 * L * cos(i * (double) PIl / (n[k] - 1)), e = X[k] - xi; if (fabs(e) < 1e-14 * L) hit = i; w[k][i] = (i % 2 ? -1 : 1) * (i == 0 || i == n[k] - 1 ? 0.5 : 1) / e; s += w[k][i]; }
    if (hit >= 0) { for (auto& v : w[k]) v = 0; w[k][hit] = 1; } else for (auto& v : w[k]) v /= s; }
  double r = 0; for (int z = 0; z < n[2]; z++) for (int y = 0; y < n[1]; y++) { double t = 0; for (int x = 0; x < n[0]; x++) t += w[0][x] * u[x + n[0] * (y + n[1] * z)]; r += t * w[1][y] * w[2][z]; }
  return r; }
static int interbox_law(Case& c, tGrid* g, bool same) {
  int F = addv(g, "hF"), P = addv(g, "hP"), D[4] = {0}; for (int k = 1; k < 4; k++) D[k] = addv(g, strf("hD%d", k)); fill(c, g, F); fill(c, g, P); for (int k = 1; k < 4; k++) fill(c, g, D[k]);
  vector<vector<double>> F0; FORBOXES(g, b) F0.push_back(all_of(g->box[b], F)); int mode = c.i(0, 3), face = c.i(0, 5), snd = c.i(-1, 1); // all of it, or one face with a given condition
  auto act = [&] { FORBOXES(g, b) { if (mode) set_interbox_BCs_for_boxbfaces(g->box[b], F, P, D); else set_interbox_BC_onface(g->box[b], F, face, P, D, snd); } };
  if (!mode && snd == 1) { bool any = false; FORBOXES(g, b) for (int fi = 0; fi < g->box[b]->nbfaces; fi++) { tBface* f = g->box[b]->bface[fi]; if (f->ob >= 0 && f->f == face && !f->touch) any = true; } if (any) { snd = 0; c.label("no normal derivative without touching"); } }
  if (!same && c.exits(act)) { c.label("refused to interpolate"); return 0; }
  std::set<BV> own; for (int b = 0; b < g->nboxes; b++) own.insert(BV(b, F)); Snap sn; sn.add(g, own); act(); c.check(sn.bad().empty(), "%s was changed", sn.bad().c_str());
  int law = 0;
  FORBOXES(g, b) { tBox* x = g->box[b]; vector<vector<tBface*>> at(x->nnodes); vector<int> many(x->nnodes, 0);
    for (int fi = 0; fi < x->nbfaces; fi++) { tBface* f = x->bface[fi]; for (int q = 0; q < f->fpts->npoints[b]; q++) many[f->fpts->point[b][q]]++; if (f->ob < 0 || (!mode && f->f != face)) continue; for (int q = 0; q < f->fpts->npoints[b]; q++) at[f->fpts->point[b][q]].push_back(f); }
    for (int i = 0; i < x->nnodes; i++) { double got = x->v[F][i]; c.evals(1);
      if (at[i].empty()) { c.check(same_bits(got, F0[b][i]), "box%d point %d is on no face with another box, but was set to %.17g", b, i, got); continue; }
      if (!mode && many[i] > 1) continue; // the coordinates of such a point are those of its last face
      bool ok = false; string why; double p[3], best = 1e300; xyz_at(x, i, p); int touchd = 0;
      for (tBface* f : at[i]) { tBox* o = g->box[f->ob]; double X[3] = {p[0], p[1], p[2]}; if (o->x_of_X[1]) o->XYZ_Of_xyz(o, -1, p[0], p[1], p[2], X, X + 1, X + 2); bool in = true; for (int k = 0; k < 3; k++) { if (!(X[k] > o->bbox[2*k] - 1e-6 && X[k] < o->bbox[2*k+1] + 1e-6)) in = false; X[k] = std::min(std::max(X[k], o->bbox[2*k]), o->bbox[2*k+1]); }
        if (!in) { why += strf(" (not in box%d)", f->ob); continue; } int nd = !mode && snd >= 0 ? snd : f->setnormalderiv; double w; touchd |= f->touch;
        if (!nd) w = x->v[P][i] - interp(o, o->v[P], X); else { double v[4]; boxface_normal_at_ijk(x, f->f, i, v); w = 0; for (int k = 1; k < 4; k++) w += v[k] * (x->v[D[k]][i] - interp(o, o->v[D[k]], X)); }
        best = std::min(best, fabs(got - w)); if (fabs(got - w) < 1e-6) ok = true; why += strf(" face %d with box%d: %.12g%s", f->f, f->ob, w, nd ? " (normal derivative)" : ""); law++; }
      c.check(ok, "box%d: the condition at point %d x=%s on %d faces with other boxes is %.12g%s, the law gives%s", b, i, P3(p).c_str(), (int) at[i].size(), got, same_bits(got, F0[b][i]) ? " (not set)" : "", why.c_str()); } }
  return law;
}
PBT(interbox, {.quick = 700, .thorough = 6000, .cpu_s = 120, .fs = true}) {
  Arr A = gen_arr(c, true); bool same = A.deformed || c.b(), ar = c.b() || !A.conform; int lo = A.useF ? 7 : A.nb > 20 ? 4 : 3, hi = A.useF ? 8 : A.nb > 20 ? 5 : 6, m = c.i(lo, hi); vector<std::array<int, 3>> n(A.nb); for (auto& v : n) for (int k = 0; k < 3; k++) v[k] = same ? m : c.i(lo, hi);
  string order = c.pickl<const char*>({"setnormalderiv_order3", "none", "setnormalderiv_order0", "setnormalderiv_order1", "setnormalderiv_order2", "setnormalderiv_order4"}), opt = ar ? "populate_bfaces " + order : order;
  c.describe("%s, %s, %s sizes from %d", A.str().c_str(), opt.c_str(), same ? "same" : "different", n[0][0]); c.label(A.kind + (A.deformed ? " deformed" : "")); c.label(same ? "same sizes" : "different sizes"); c.label(ar ? "populate_bfaces" : "oldWT");
  std::map<string, string> pars = {{"Coordinates_set_bfaces", "yes"}, {"Coordinates_verbose", "no"}, {"Coordinates_XYZ_of_xyz_Verbose", "no"}, {"Coordinates_bface_options", opt}};
  if ((!same || (!A.conform && A.kind == "pieces")) && c.exits([&] { arr_grid(A, n, pars); })) { c.label("refused"); return; }
  if (interbox_law(c, arr_grid(A, n, pars), same) > 20) c.nontrivial();
}
PBT(overlap, {.quick = 1200, .thorough = 20000, .cpu_s = 60, .fs = true}) { // boxes which reach into each other: values come from inside of the other box
  int nb = c.i(2, 3); vector<BoxSpec> S(nb); double at[3] = {c.sym(2), c.sym(2), c.sym(2)}; for (auto& s : S) for (int k = 0; k < 3; k++) { auto& d = s.d[k]; d.basis = "ChebExtrema"; d.tt = ""; d.n = c.i(3, 6); d.a = at[k]; d.b = at[k] + c.logu(0.5, 3); at[k] += (d.b - d.a) * (k == 0 ? 0.3 + 0.5 * c.u01() : c.b() ? 0 : 0.4 * c.sym(1)); }
  bool ar = c.b(); string opt = ar ? "populate_bfaces none" : "none"; for (auto& s : S) c.describe("%s; ", specstr(s).c_str()); c.describe("%s", opt.c_str()); c.label(ar ? "populate_bfaces" : "oldWT");
  std::map<string, string> pars = {{"Coordinates_set_bfaces", "yes"}, {"Coordinates_verbose", "no"}, {"Coordinates_XYZ_of_xyz_Verbose", "no"}, {"Coordinates_bface_options", opt}};
  if (c.exits([&] { new_grid(S, true, pars); })) { c.label("refused"); return; }
  tGrid* g = new_grid(S, true, pars); FORBOXES(g, b) for (int fi = 0; fi < g->box[b]->nbfaces; fi++) { tBface* f = g->box[b]->bface[fi]; if (f->ob >= 0 && !f->touch) { c.label("inside of another box"); break; } }
  if (interbox_law(c, g, false) > 20) c.nontrivial();
}

// C16: any physical point is located in the box that contains it
#include "cubes.h"
#include "coords.h"
using namespace pbt;
extern "C" {
int b_XYZ_of_xyz(tGrid*, double*, double*, double*, double, double, double);
int b_XYZ_of_xyz_inboxlist(tGrid*, int*, int, double*, double*, double*, double, double, double);
double nearestXYZ_of_xyz(tBox*, int*, double*, double*, double*, double, double, double);
double nearest_b_XYZ_of_xyz(tGrid*, int*, int*, double*, double*, double*, double, double, double);
double nearest_b_XYZ_of_xyz_inboxlist(tGrid*, int*, int, int*, int*, double*, double*, double*, double, double, double);
double nearestinnerXYZ_of_xyz(tBox*, int*, double*, double*, double*, double, double, double);
double nearestXYZ_of_xyz_inplane(tBox*, int*, double*, double*, double*, double, double, double, int, int);
int b_X_of_x_forgiven_YZ(tGrid*, double*, double, double, double); int b_X_of_x_forgiven_YZ_inboxlist(tGrid*, int*, int, double*, double, double, double);
int XYZ_on_face(tBox*, int*, double, double, double); int moveXYZ_off_face(tBox*, double*, double*, double*);
int find_i_Of_X(tBox*, double); int find_j_Of_Y(tBox*, double); int find_k_Of_Z(tBox*, double);
}
static void to_x(tBox* b, const double* X, double* p) { for (int k = 0; k < 3; k++) p[k] = b->x_of_X[1] ? b->x_of_X[k+1](b, -1, X[0], X[1], X[2]) : X[k]; }
static string P3(const double* p) { return strf("(%.17g,%.17g,%.17g)", p[0], p[1], p[2]); }
static double dist(const double* a, const double* b) { double s = 0; for (int k = 0; k < 3; k++) s = std::max(s, fabs(a[k] - b[k])); return s; }
// the answer names a box, and coordinates in it that map back to p
static void check_found(Case& c, tGrid* g, int b, const double* X, const double* p, double tol, const string& what) {
  c.check(b >= 0 && b < g->nboxes, "%s: %s is reported as not found (%d)", what.c_str(), P3(p).c_str(), b);
  tBox* x = g->box[b]; for (int k = 0; k < 3; k++) c.check(X[k] >= x->bbox[2*k] && X[k] <= x->bbox[2*k+1], "%s: %s is found in box%d at X=%s, which is outside its range [%.17g,%.17g] in direction %d", what.c_str(), P3(p).c_str(), b, P3(X).c_str(), x->bbox[2*k], x->bbox[2*k+1], k + 1);
  double q[3]; to_x(x, X, q); c.check(dist(p, q) <= tol, "%s: %s is found in box%d at X=%s, which is %s", what.c_str(), P3(p).c_str(), b, P3(X).c_str(), P3(q).c_str());
}
static vector<int> gen_list(Case& c, int nb) { vector<int> v, o; for (int b = 0; b < nb; b++) o.push_back(b); for (int i = nb - 1; i > 0; i--) std::swap(o[i], o[c.i(0, i)]); int m = c.i(1, nb); v.assign(o.begin(), o.begin() + m); return v; }
static bool has(const vector<int>& v, int b) { return std::find(v.begin(), v.end(), b) != v.end(); }
static vector<bool> deactivate(Case& c, tGrid* g) { // switch some boxes off
  vector<bool> on(g->nboxes, true); if (g->nboxes < 2 || !c.b(1, 4)) return on;
  intList* l = alloc_intList(); int m = c.i(1, g->nboxes - 1); for (int t = 0; t < m; t++) { int b = c.i(0, g->nboxes - 1); if (on[b]) { on[b] = false; push_intList(l, b); } }
  deactivate_boxes(g, l); free_intList(l); c.label("some boxes inactive"); return on; }

PBT(cubedspheres, {.quick = 1200, .thorough = 20000, .cpu_s = 60, .fs = true}) {
  Arr A = gen_arr(c, true); vector<std::array<int, 3>> n(A.nb); int m = c.i(A.deformed ? 9 : 2, A.deformed ? 11 : 4); for (auto& v : n) for (int k = 0; k < 3; k++) v[k] = A.deformed ? m : c.i(2, 4);
  c.describe("%s", A.str().c_str()); c.label(A.kind + (A.deformed ? " deformed" : ""));
  tGrid* g = arr_grid(A, n, {{"Coordinates_set_bfaces", "no"}, {"Coordinates_XYZ_of_xyz_Verbose", "no"}, {"Coordinates_XYZ_of_xyz_Guess", c.b() ? "yes" : "no"}});
  auto on = deactivate(c, g); double mm = A.deformed ? 0.03 : 1e-7, tol = 1e-9 * A.size; int in = 0, out = 0;
  for (int t = 0; t < 200; t++) {
    double p[3], mg, X[3]; const Layer& l = A.L[c.i(0, A.L.size() - 1)]; int w; bool edge = false; int kind = c.i(0, 9);
    if (kind == 0) { // somewhere on the surface of a box: some box must have it
      int b = l.b0 + c.i(0, l.nb - 1); tBox* x = g->box[b]; for (int k = 0; k < 3; k++) X[k] = x->bbox[2*k] + (x->bbox[2*k+1] - x->bbox[2*k]) * (c.b() ? c.u01() : (double) c.i(0, 1));
      to_x(x, X, p); edge = true; w = on[b] ? b : -1; if (!on[b]) continue; }
    else if (kind == 1) { // on a grid point
      int b = l.b0 + c.i(0, l.nb - 1); tBox* x = g->box[b]; if (!on[b]) continue; int i = c.i(0, x->nnodes - 1); X[0] = x->v[Ind((char*) "X")][i]; X[1] = x->v[Ind((char*) "Y")][i]; X[2] = x->v[Ind((char*) "Z")][i]; to_x(x, X, p); edge = true; w = b; }
    else if (kind == 2) { for (int k = 0; k < 3; k++) p[k] = l.xc[k]; int ax = c.i(0, 3); if (ax < 3) p[ax] += 1.1 * l.out[0] * c.sym(1); w = A.where(p, &mg); if (mg < mm) continue; } // centres and axes
    else { double s = 1.1 * l.out[0]; if (c.b(1, 4)) s = 1.2 * l.in[0] + 0.01; if (c.b(1, 8)) s = 20 * A.size; for (int k = 0; k < 3; k++) p[k] = l.xc[k] + s * c.sym(1); w = A.where(p, &mg); if (mg < mm) continue; }
    double G[3] = {c.u01(), c.sym(1), c.sym(1)}; for (int k = 0; k < 3; k++) X[k] = G[k];
    bool want = w >= 0 && on[w]; (want ? in : out)++; c.evals(1);
    int b = b_XYZ_of_xyz(g, X, X + 1, X + 2, p[0], p[1], p[2]);
    if (want) { check_found(c, g, b, X, p, tol, A.kind); c.check(on[b], "%s is found in the inactive box%d", P3(p).c_str(), b); if (!edge) c.check(b == w, "%s is found in box%d, it is in box%d", P3(p).c_str(), b, w); }
    else c.check(b < 0, "%s is found in box%d at X=%s, it is in no active box (%d)", P3(p).c_str(), b, P3(X).c_str(), w);
    vector<int> L = gen_list(c, A.nb); for (int k = 0; k < 3; k++) X[k] = G[k];
    int lb = b_XYZ_of_xyz_inboxlist(g, L.data(), L.size(), X, X + 1, X + 2, p[0], p[1], p[2]);
    if (w >= 0 && has(L, w)) { check_found(c, g, lb, X, p, tol, A.kind + " list"); c.check(has(L, lb), "box%d is not in the list", lb); if (!edge) c.check(lb == w, "%s is found in box%d, it is in box%d", P3(p).c_str(), lb, w); }
    else if (!edge) c.check(lb < 0, "%s is found in box%d of a list, it is in box %d", P3(p).c_str(), lb, w);
    else if (lb >= 0) check_found(c, g, lb, X, p, tol, A.kind + " list");
  }
  if (in && A.nb > 1) c.nontrivial();
}
// single boxes in all coordinates: the guess is found from the grid
PBT(anycoords, {.quick = 2500, .thorough = 80000, .cpu_s = 60}) {
  Sys y = gen_sys(c, 8, 12); c.describe("%s", y.str().c_str()); c.label(y.name);
  std::map<string, string> pr = y.pars; pr["Coordinates_set_bfaces"] = "no"; pr["Coordinates_XYZ_of_xyz_Verbose"] = "no"; bool guess = c.b(); pr["Coordinates_XYZ_of_xyz_Guess"] = guess ? "yes" : "no";
  tGrid* g = new_grid({y.s}, true, pr); tBox* b = g->box[0]; c.label(guess ? "guess from grid" : "guess given");
  for (int t = 0; t < 5; t++) {
    double X[3], p[3], G[3], h[3], J[3][3], K[3][3]; y.point(c, X); to_x(b, X, p); y.steps(X, h); jac(b, X, h, J); if (!(inverse3(J, K) < 1e5)) continue;
    for (int k = 0; k < 3; k++) G[k] = guess ? c.sym(100) : X[k] + 0.3 * y.dist(k, X[k]) * c.sym(1);
    string what = strf("%s X=%s, guess %s", y.name.c_str(), P3(X).c_str(), guess ? "from the grid" : P3(G).c_str());
    bool inside = true; for (int k = 0; k < 3; k++) if (!(X[k] > b->bbox[2*k] + 1e-6 && X[k] < b->bbox[2*k+1] - 1e-6)) inside = false;
    if (!inside) continue; c.nontrivial(); c.evals(1);
    // Newton's method needs a start from which the map is smooth up to the point; from elsewhere it may end in another sheet of the map
    bool close = true; if (guess) { double best = -1, Q[3] = {0, 0, 0}; static const char* N[2][3] = {{"X", "Y", "Z"}, {"x", "y", "z"}}; for (int k = 1; k < b->n3 - 1; k++) for (int j = 1; j < b->n2 - 1; j++) for (int i = 1; i < b->n1 - 1; i++) { int q = i + b->n1 * (j + b->n2 * k); double r = 0; for (int d = 0; d < 3; d++) { double v = b->v[Ind((char*) N[1][d])][q] - p[d]; r += v * v; } if (best < 0 || r < best) { best = r; for (int d = 0; d < 3; d++) Q[d] = b->v[Ind((char*) N[0][d])][q]; } }
      for (int d = 0; d < 3; d++) { double L = b->bbox[2*d+1] - b->bbox[2*d], v = X[d] - Q[d]; if (y.s.d[d].basis == "Fourier") v = remainder(v, L); if (fabs(v) > 0.3 * y.dist(d, X[d])) close = false; } }
    if (!close) { c.label("guess from grid is far"); double R[3] = {G[0], G[1], G[2]}; int w = b_XYZ_of_xyz(g, R, R + 1, R + 2, p[0], p[1], p[2]); if (w >= 0) check_found(c, g, w, R, p, 1e-6 * (y.size() + fabs(p[0]) + fabs(p[1]) + fabs(p[2])), what); else c.label("not found from far"); continue; }
    double R[3] = {G[0], G[1], G[2]}; int w = b_XYZ_of_xyz(g, R, R + 1, R + 2, p[0], p[1], p[2]); check_found(c, g, w, R, p, 1e-6 * (y.size() + fabs(p[0]) + fabs(p[1]) + fabs(p[2])), what);
    int L[1] = {0}; double S[3] = {G[0], G[1], G[2]}; w = b_XYZ_of_xyz_inboxlist(g, L, 1, S, S + 1, S + 2, p[0], p[1], p[2]); c.check(w == 0 && S[0] == R[0] && S[1] == R[1] && S[2] == R[2], "%s: the search in a list differs", what.c_str());
    // one coordinate, when two are known
    if (b->x_of_X[1] && fabs(J[0][0]) > 0.1 * norm3(J)) { double Q = guess ? X[0] + 0.1 * y.dist(0, X[0]) * c.sym(1) : G[0]; int st = b_X_of_x_forgiven_YZ(g, &Q, p[0], X[1], X[2]); double V[3] = {Q, X[1], X[2]}, q[3]; to_x(b, V, q);
      c.check(st == 0 && fabs(q[0] - p[0]) <= 1e-6 * (y.size() + fabs(p[0])) && Q >= b->bbox[0] && Q <= b->bbox[1], "%s: x=%.17g is found at X=%.17g (%d), which is x=%.17g", what.c_str(), p[0], Q, st, q[0]); c.label("X of x"); }
  }
}
// Cartesian boxes and shells side by side
PBT(blocks, {.quick = 4000, .thorough = 60000}) {
  int m[3] = {c.i(1, 3), c.i(1, 3), c.i(1, 2)}; vector<double> e[3]; for (int k = 0; k < 3; k++) { double v = c.sym(5); for (int i = 0; i <= m[k]; i++) { e[k].push_back(v); v += c.logu(0.05, 5); } }
  vector<BoxSpec> S; vector<std::array<int, 3>> id; for (int i = 0; i < m[0]; i++) for (int j = 0; j < m[1]; j++) for (int k = 0; k < m[2]; k++) if (!c.b(1, 6) || S.empty()) { BoxSpec s; int q[3] = {i, j, k}; for (int d = 0; d < 3; d++) s.d[d] = mkdir_(c, c.i(2, 6), e[d][q[d]], e[d][q[d]+1], c.b(1, 3)); S.push_back(s); id.push_back({i, j, k}); }
  c.describe("%d boxes", (int) S.size()); tGrid* g = new_grid(S, true, {{"Coordinates_set_bfaces", "no"}}); auto on = deactivate(c, g); if (S.size() > 1) c.nontrivial();
  for (int t = 0; t < 40; t++) { double p[3], X[3] = {0, 0, 0}; for (int d = 0; d < 3; d++) { double a = e[d].front(), z = e[d].back(); p[d] = c.b(1, 4) ? e[d][c.i(0, m[d])] : a + (z - a) * (1.2 * c.u01() - 0.1); }
    std::set<int> in; for (size_t b = 0; b < S.size(); b++) { bool ok = true; for (int d = 0; d < 3; d++) if (p[d] < S[b].d[d].a || p[d] > S[b].d[d].b) ok = false; if (ok) in.insert(b); }
    std::set<int> act; for (int b : in) if (on[b]) act.insert(b); c.evals(1); int w = b_XYZ_of_xyz(g, X, X + 1, X + 2, p[0], p[1], p[2]);
    if (act.empty()) c.check(w < 0, "%s is found in box%d, it is in none", P3(p).c_str(), w); else { check_found(c, g, w, X, p, 1e-9, "blocks"); c.check(act.count(w), "%s is found in box%d", P3(p).c_str(), w); c.check(X[0] == p[0] && X[1] == p[1] && X[2] == p[2], "%s became %s", P3(p).c_str(), P3(X).c_str()); }
    vector<int> L = gen_list(c, S.size()); X[0] = X[1] = X[2] = 0; w = b_XYZ_of_xyz_inboxlist(g, L.data(), L.size(), X, X + 1, X + 2, p[0], p[1], p[2]); int exp = -1; for (int b : L) if (in.count(b)) { exp = b; break; }
    c.check(exp < 0 ? w < 0 : w == exp, "%s is found in box %d of the list, it is first in %d", P3(p).c_str(), w, exp);
  }
}
static void pt(tBox* b, int i, double* p) { static const char* N[2][3] = {{"X", "Y", "Z"}, {"x", "y", "z"}}; for (int k = 0; k < 3; k++) p[k] = b->v[Ind((char*) N[b->x_of_X[1] != 0][k])][i]; }
static double d2(const double* a, const double* b) { double s = 0; for (int k = 0; k < 3; k++) s += (a[k] - b[k]) * (a[k] - b[k]); return sqrt(s); }
template<class Fn> static double brute(tBox* b, const double* p, Fn use) { double m = -1, q[3]; for (int k = 0; k < b->n3; k++) for (int j = 0; j < b->n2; j++) for (int i = 0; i < b->n1; i++) if (use(i, j, k)) { pt(b, i + b->n1 * (j + b->n2 * k), q); double r = d2(p, q); if (m < 0 || r < m) m = r; } return m; }
static void check_near(Case& c, tBox* b, int ind, const double* X, double r, double want, const double* p, const char* what) {
  c.evals(1); double s = 1e-13 * (want + fabs(p[0]) + fabs(p[1]) + fabs(p[2])) + 1e-300, q[3];
  c.check(ind >= 0 && ind < b->nnodes, "%s: box%d point %d", what, b->b, ind); pt(b, ind, q);
  c.check(fabs(r - want) <= s, "%s: the point of box%d nearest to %s is at %.17g, the distance returned is %.17g", what, b->b, P3(p).c_str(), want, r);
  c.check(fabs(d2(p, q) - want) <= s, "%s: point %d of box%d is %.17g away from %s, the nearest %.17g", what, ind, b->b, d2(p, q), P3(p).c_str(), want);
  static const char* N[3] = {"X", "Y", "Z"}; for (int k = 0; k < 3; k++) c.check(X[k] == b->v[Ind((char*) N[k])][ind], "%s: %s=%.17g is not that of point %d of box%d", what, N[k], X[k], ind, b->b); }
static void nearest_all(Case& c, tGrid* g, const vector<bool>& on, const double* p) {
  double best = -1, X[3], r; int ind, bb; vector<double> m; auto any = [](int, int, int) { return true; };
  for (int b = 0; b < g->nboxes; b++) { tBox* x = g->box[b]; double v = brute(x, p, any); m.push_back(v); if (on[b] && (best < 0 || v < best)) best = v;
    ind = -7; r = nearestXYZ_of_xyz(x, &ind, X, X + 1, X + 2, p[0], p[1], p[2]); check_near(c, x, ind, X, r, v, p, "nearestXYZ_of_xyz");
    if (x->n1 > 2 && x->n2 > 2 && x->n3 > 2) { ind = -7; r = nearestinnerXYZ_of_xyz(x, &ind, X, X + 1, X + 2, p[0], p[1], p[2]); check_near(c, x, ind, X, r, brute(x, p, [&](int i, int j, int k) { return i && j && k && i < x->n1 - 1 && j < x->n2 - 1 && k < x->n3 - 1; }), p, "nearestinnerXYZ_of_xyz"); }
    for (int d = 0; d < 3; d++) { int n = d == 0 ? x->n1 : d == 1 ? x->n2 : x->n3, s = c.i(0, n - 1); ind = -7; r = nearestXYZ_of_xyz_inplane(x, &ind, X, X + 1, X + 2, p[0], p[1], p[2], d + 1, s); check_near(c, x, ind, X, r, brute(x, p, [&](int i, int j, int k) { return (d == 0 ? i : d == 1 ? j : k) == s; }), p, "nearestXYZ_of_xyz_inplane"); } }
  ind = bb = -7; r = nearest_b_XYZ_of_xyz(g, &bb, &ind, X, X + 1, X + 2, p[0], p[1], p[2]); c.check(bb >= 0 && bb < g->nboxes && on[bb], "nearest_b_XYZ_of_xyz names box %d", bb); check_near(c, g->box[bb], ind, X, r, best, p, "nearest_b_XYZ_of_xyz");
  vector<int> L = gen_list(c, g->nboxes); best = -1; for (int b : L) if (best < 0 || m[b] < best) best = m[b];
  ind = bb = -7; r = nearest_b_XYZ_of_xyz_inboxlist(g, L.data(), L.size(), &bb, &ind, X, X + 1, X + 2, p[0], p[1], p[2]); c.check(has(L, bb), "nearest_b_XYZ_of_xyz_inboxlist names box %d", bb); check_near(c, g->box[bb], ind, X, r, best, p, "nearest_b_XYZ_of_xyz_inboxlist");
}
static void faces_etc(Case& c, tBox* x) { // faces and indices of coordinates
  int n[3] = {x->n1, x->n2, x->n3}, q[3]; double X[3]; int want = 0, f[6]; for (int k = 0; k < 3; k++) { int t = c.i(0, 3); q[k] = t; double L = x->bbox[2*k+1] - x->bbox[2*k]; X[k] = t < 2 ? x->bbox[2*k+t] : x->bbox[2*k] + L * (0.01 + 0.98 * c.u01()); if (t < 2) want++; }
  int nf = XYZ_on_face(x, f, X[0], X[1], X[2]); c.evals(1); c.check(nf == want, "%d faces instead of %d", nf, want); for (int i = 0; i < 6; i++) c.check((f[i] != 0) == (q[i/2] == i % 2), "box%d X=%s: face %d is reported as %d", x->b, P3(X).c_str(), i, f[i]);
  double Y[3] = {X[0], X[1], X[2]}; int mv = moveXYZ_off_face(x, Y, Y + 1, Y + 2); c.check(mv == want, "moveXYZ_off_face returns %d instead of %d", mv, want);
  for (int k = 0; k < 3; k++) { double L = x->bbox[2*k+1] - x->bbox[2*k]; if (q[k] > 1) c.check(Y[k] == X[k], "a coordinate not on a face moved from %.17g to %.17g", X[k], Y[k]); else c.check(Y[k] > x->bbox[2*k] + 1e-7 * L && Y[k] < x->bbox[2*k+1] - 1e-7 * L && fabs(Y[k] - X[k]) < 1e-5 * L, "box%d [%.17g,%.17g]: %.17g moved off the face to %.17g", x->b, x->bbox[2*k], x->bbox[2*k+1], X[k], Y[k]); }
  for (int k = 0; k < 3; k++) { int st = k == 0 ? 1 : k == 1 ? n[0] : n[0] * n[1], i = c.i(0, n[k] - 1); static const char* N[3] = {"X", "Y", "Z"}; double* v = x->v[Ind((char*) N[k])]; double a = v[i * st], gap = 1e300; for (int j = 0; j < n[k]; j++) if (j != i) gap = std::min(gap, fabs(v[j*st] - a)); if (gap < 1e-8) continue;
    auto find = [&](double t) { return k == 0 ? find_i_Of_X(x, t) : k == 1 ? find_j_Of_Y(x, t) : find_k_Of_Z(x, t); }; int r = find(a); c.check(r == i, "%s=%.17g is at index %d, found at %d", N[k], a, i, r); double o = gap < 1e299 ? a + 0.4 * gap : a + 1; r = find(o); c.check(r == -1, "%s=%.17g is not on the grid, found at %d", N[k], o, r); }
}
PBT(nearest, {.quick = 3500, .thorough = 60000, .cpu_s = 60, .fs = true}) {
  int kind = c.i(0, 2); tGrid* g; double lo = -3, hi = 3, ce[3] = {0, 0, 0};
  if (kind == 0) { Sys y = gen_sys(c, 3, 7); c.describe("%s", y.str().c_str()); c.label(y.name); std::map<string, string> pr = y.pars; pr["Coordinates_set_bfaces"] = "no"; g = new_grid({y.s}, true, pr); hi = 1.5 * y.size(); lo = -hi; for (int k = 0; k < 3; k++) ce[k] = y.xc[k]; }
  else if (kind == 1) { Arr A = gen_arr(c, false); vector<std::array<int, 3>> n(A.nb); for (auto& v : n) for (int k = 0; k < 3; k++) v[k] = c.i(2, 5); c.describe("%s", A.str().c_str()); c.label(A.kind); g = arr_grid(A, n, {{"Coordinates_set_bfaces", "no"}, {"Coordinates_XYZ_of_xyz_Verbose", "no"}}); hi = 1.3 * A.size; lo = -hi; for (int k = 0; k < 3; k++) ce[k] = A.xc[k]; }
  else { vector<BoxSpec> S; int m = c.i(1, 4); for (int b = 0; b < m; b++) { BoxSpec s; for (int k = 0; k < 3; k++) s.d[k] = gen_dir(c, 2, 6); S.push_back(s); } c.describe("%d Cartesian boxes", m); c.label("Cartesian"); g = new_grid(S, true, {{"Coordinates_set_bfaces", "no"}}); }
  auto on = deactivate(c, g); c.nontrivial();
  for (int t = 0; t < 4; t++) { double p[3]; if (c.b(1, 4)) { tBox* x = g->box[c.i(0, g->nboxes - 1)]; pt(x, c.i(0, x->nnodes - 1), p); } else for (int k = 0; k < 3; k++) p[k] = ce[k] + lo + (hi - lo) * c.u01(); if (!(fabs(p[0]) + fabs(p[1]) + fabs(p[2]) < 1e100)) continue; nearest_all(c, g, on, p); }
  for (int t = 0; t < 6; t++) faces_etc(c, g->box[c.i(0, g->nboxes - 1)]);
}

// C07: storage of variables on grids, and copies of grids
#include "grid.h"
#include <memory>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define ASAN 1
#endif
#ifdef ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static long inuse() { return (long) __sanitizer_get_current_allocated_bytes(); }
#else
static long inuse() { return 0; }
#endif
using namespace pbt;
struct M { // model of a grid
  tGrid* g; vector<std::map<int, vector<double>>> v; vector<bool> off;
  explicit M(tGrid* g_) : g(g_), v(g_->nboxes), off(g_->nboxes, false) { FORBOXES(g, b) for (int i = 0; i < g->nvariables; i++) if (g->box[b]->v[i]) v[b][i] = all_of(g->box[b], i); }
};
static vector<BoxSpec> gen_boxes(Case& c) {
  int nb = c.i(1, 4); vector<BoxSpec> s(nb);
  for (auto& b : s) for (auto& d : b.d) { d.basis = c.pickl<const char*>({"ChebExtrema", "Fourier", "ChebZeros"}); d.n = c.i(2, 5); d.a = c.i(-2, 1); d.b = d.a + c.i(1, 3); d.tt = "0 NUMREC_FFT"; }
  return s;
}
static tGrid* first_grid(Case& c, const vector<BoxSpec>& s) {
  static const char* TI[] = {"", "i", "(ij)", "ij"};
  AddVar((char*) "s0", (char*) "", (char*) "d"); int k = c.i(1, 4); for (int q = 0; q < k; q++) AddVar(S_(strf("w%d", q)), (char*) TI[c.i(0, 3)], (char*) "d");
  return new_grid(s, false, {{"dt", strf("%g", c.u(0.1, 2))}, {"Coordinates_set_bfaces", "no"}});
}
static void compare(Case& c, vector<std::unique_ptr<M>>& ms, const string& what) {
  vector<std::pair<uintptr_t, uintptr_t>> mem;
  for (size_t q = 0; q < ms.size(); q++) { M& m = *ms[q]; tGrid* g = m.g;
    FORBOXES(g, b) { tBox* box = g->box[b];
      c.check(box->grid == g && box->b == b && box->nnodes == box->n1 * box->n2 * box->n3, "after %s: box %d of grid %d: numbers", what.c_str(), b, (int) q);
      c.check(!!box->inactive == m.off[b], "after %s: grid %d box %d inactive=%d", what.c_str(), (int) q, b, box->inactive);
      for (int i = 0; i < g->nvariables; i++) {
        auto it = m.v[b].find(i); double* p = box->v[i];
        c.check((it != m.v[b].end()) == (p != nullptr), "after %s: %s in box %d of grid %d is %s", what.c_str(), i < globalnvariables ? VarName(i) : "?", b, (int) q, p ? "enabled" : "disabled");
        if (!p) continue;
        mem.push_back({(uintptr_t) p, (uintptr_t) (p + box->nnodes)});
        for (int k = 0; k < box->nnodes; k++) c.check(same_bits(p[k], it->second[k]), "after %s: %s[%d]=%.17g instead of %.17g in box %d of grid %d", what.c_str(), VarName(i), k, p[k], it->second[k], b, (int) q);
      } }
    int na = 0; FORBOXES(g, b) if (!m.off[b]) { c.check(IndexOf_ith_ActiveBox(g, na) == b, "after %s: active box number %d of grid %d is %d, it should be %d", what.c_str(), na, (int) q, IndexOf_ith_ActiveBox(g, na), b); na++; }
    c.check(IndexOf_ith_ActiveBox(g, na) == -1 && g->ninactive == g->nboxes - na, "after %s: ninactive=%d", what.c_str(), g->ninactive);
    int loops = 0, bi; forallboxes(g, bi) { c.check(!m.off[bi], "after %s: loop over active boxes visits box %d", what.c_str(), bi); loops++; } c.check(loops == na, "after %s: loop over active boxes visits %d instead of %d boxes", what.c_str(), loops, na);
  }
  std::sort(mem.begin(), mem.end()); for (size_t k = 1; k < mem.size(); k++) c.check(mem[k].first >= mem[k-1].second, "after %s: two enabled variables share memory", what.c_str());
}
template<class T> static bool eq(const T* a, const T* b, int n) { return !memcmp(a, b, n * sizeof(T)); }
// everything but the variables
static string structdiff(tGrid* a, tGrid* b) {
  if (a->nboxes != b->nboxes || a->ninactive != b->ninactive || a->nvariables != b->nvariables || a->iteration != b->iteration || !same_bits(a->time, b->time) || !same_bits(a->dt, b->dt)) return "numbers of the grid";
  FORBOXES(a, q) { tBox *x = a->box[q], *y = b->box[q]; string s = strf(" of box %d", q);
    if (x->n1 != y->n1 || x->n2 != y->n2 || x->n3 != y->n3 || x->nnodes != y->nnodes) return "numbers of points" + s;
    if (!eq(x->bbox, y->bbox, 6) || !eq(x->ibbox, y->ibbox, 6)) return "bounding box" + s;
    if (!eq(x->periodic, y->periodic, 4) || !eq(x->Attrib, y->Attrib, NATTRIBS) || !x->inactive != !y->inactive) return "attributes" + s;
    for (int k = 0; k < x->nnodes; k++) if (x->node[k].i != y->node[k].i || x->node[k].type != y->node[k].type) return "nodes" + s;
    int n[3] = {x->n1, x->n2, x->n3}; double *A[3][8] = {{x->D1, x->DD1, x->F1, x->Mcoeffs1, x->Meval1, x->Int1}, {x->D2, x->DD2, x->F2, x->Mcoeffs2, x->Meval2, x->Int2}, {x->D3, x->DD3, x->F3, x->Mcoeffs3, x->Meval3, x->Int3}},
                                                  *B[3][8] = {{y->D1, y->DD1, y->F1, y->Mcoeffs1, y->Meval1, y->Int1}, {y->D2, y->DD2, y->F2, y->Mcoeffs2, y->Meval2, y->Int2}, {y->D3, y->DD3, y->F3, y->Mcoeffs3, y->Meval3, y->Int3}};
    for (int d = 0; d < 3; d++) for (int k = 0; k < 6; k++) { if (A[d][k] == B[d][k]) return "shared matrices" + s; if (!eq(A[d][k], B[d][k], n[d] * n[d])) return strf("matrix %d of direction %d", k, d + 1) + s; }
    if (x->basis1 != y->basis1 || x->basis2 != y->basis2 || x->basis3 != y->basis3 || x->get_coeffs1 != y->get_coeffs1 || x->get_coeffs2 != y->get_coeffs2 || x->get_coeffs3 != y->get_coeffs3 || x->eval_onPoints1 != y->eval_onPoints1 || x->eval_onPoints2 != y->eval_onPoints2 || x->eval_onPoints3 != y->eval_onPoints3
      || x->coeffs_of_deriv1 != y->coeffs_of_deriv1 || x->coeffs_of_deriv2 != y->coeffs_of_deriv2 || x->coeffs_of_deriv3 != y->coeffs_of_deriv3 || x->coeffs_of_2ndderiv1 != y->coeffs_of_2ndderiv1 || x->coeffs_of_2ndderiv2 != y->coeffs_of_2ndderiv2 || x->coeffs_of_2ndderiv3 != y->coeffs_of_2ndderiv3
      || x->coeffs_of_int1 != y->coeffs_of_int1 || x->coeffs_of_int2 != y->coeffs_of_int2 || x->coeffs_of_int3 != y->coeffs_of_int3 || x->filter_coeffs1 != y->filter_coeffs1 || x->filter_coeffs2 != y->filter_coeffs2 || x->filter_coeffs3 != y->filter_coeffs3
      || x->TransformType1 != y->TransformType1 || x->TransformType2 != y->TransformType2 || x->TransformType3 != y->TransformType3) return "transforms" + s;
    if (!eq(x->x_of_X, y->x_of_X, 4) || x->XYZ_Of_xyz != y->XYZ_Of_xyz || !eq(x->Sing_d_dx, y->Sing_d_dx, 4) || !eq(&x->dX_dx[0][0], &y->dX_dx[0][0], 16) || !eq(&x->dx_dX[0][0], &y->dx_dX[0][0], 16) || !eq(&x->ddX_dxdx[0][0][0], &y->ddX_dxdx[0][0][0], 64) || x->isSing != y->isSing) return "coordinate functions" + s;
    if (x->CI[0].dom != y->CI[0].dom || x->CI[0].type != y->CI[0].type || !eq(x->CI[0].s, y->CI[0].s, 6) || !eq(x->CI[0].xc, y->CI[0].xc, 4)) return "coordinate information" + s;
    if (x->nbfaces != y->nbfaces) return "number of bfaces" + s;
    for (int f = 0; f < x->nbfaces; f++) { tBface *p = x->bface[f], *r = y->bface[f]; string t = strf(" of bface %d", f) + s;
      if (p == r || r->grid != b || p->b != r->b || p->f != r->f || p->fi != r->fi || p->ob != r->ob || p->ofi != r->ofi || p->oXi != r->oXi || p->oYi != r->oYi || p->oZi != r->oZi || p->same_fpts != r->same_fpts || p->touch != r->touch || p->setnormalderiv != r->setnormalderiv || p->outerbound != r->outerbound || p->innerbound != r->innerbound || p->fpts_off_face != r->fpts_off_face) return "fields" + t;
      if (!p->fpts != !r->fpts) return "points" + t; if (!p->fpts) continue; if (p->fpts == r->fpts || r->fpts->grid != b) return "point list" + t;
      FORBOXES(a, z) { if (p->fpts->npoints[z] != r->fpts->npoints[z]) return "number of points" + t; for (int k = 0; k < p->fpts->npoints[z]; k++) if (p->fpts->point[z][k] != r->fpts->point[z][k]) return "points" + t; } }
  }
  return "";
}
static void dress(Case& c, tGrid* g) { // bfaces, attributes, ...
  g->iteration = c.i(0, 9); g->time = c.sym(3);
  FORBOXES(g, b) { tBox* x = g->box[b]; int nf = c.i(0, 3);
    for (int f = 0; f < nf; f++) { int fi = add_empty_bface(x, c.i(0, 5)); tBface* p = x->bface[fi]; p->ob = c.i(-1, g->nboxes - 1); p->ofi = c.i(-3, 3); p->oXi = c.i(-1, 3); p->touch = c.i(0, 1); p->outerbound = c.i(0, 1); p->innerbound = c.i(0, 1); p->setnormalderiv = c.i(0, 1); int np = c.i(0, 4); for (int k = 0; k < np; k++) add_point_to_bface_inbox(x, fi, c.i(0, x->nnodes - 1), p->f); }
    x->Attrib[c.i(0, NATTRIBS - 1)] = c.i(0, 5); x->CI->dom = c.i(0, 3); x->CI->s[c.i(0, 5)] = c.u01(); }
}
PBT(history, {.quick = 2500, .thorough = 20000}) {
  auto S = gen_boxes(c); vector<std::unique_ptr<M>> ms; ms.emplace_back(new M(first_grid(c, S))); dress(c, ms[0]->g);
  int nops = c.i(1, 30), wr = 0, copies = 0; string log; compare(c, ms, "set up");
  for (int o = 0; o < nops; o++) {
    int q = c.i(0, (int) ms.size() - 1); M& m = *ms[q]; tGrid* g = m.g; int b = c.i(0, g->nboxes - 1); tBox* box = g->box[b];
    int i = c.i(0, std::min(g->nvariables, globalnvariables) - 1), i0 = i - VarComponent(i), n = VarNComponents(i); long u0 = 0, u1 = 0, want = 0; string what;
    auto on = [&](int bb, int v) { if (!m.v[bb].count(v)) { m.v[bb][v].assign(g->box[bb]->nnodes, 0.0); want += 8L * g->box[bb]->nnodes; } };
    auto offv = [&](int bb, int v) { if (m.v[bb].erase(v)) want -= 8L * g->box[bb]->nnodes; };
    switch (c.i(0, 16)) {
      case 0: what = strf("enablevar(g%d,%d)", q, i0); u0 = inuse(); enablevar(g, i0); u1 = inuse(); FORBOXES(g, bb) for (int j = 0; j < n; j++) on(bb, i0 + j); break;
      case 1: what = strf("enablevarcomp(g%d,%d)", q, i); u0 = inuse(); enablevarcomp(g, i); u1 = inuse(); FORBOXES(g, bb) on(bb, i); break;
      case 2: what = strf("enablevar_inbox(g%d,b%d,%d)", q, b, i0); u0 = inuse(); enablevar_inbox(box, i0); u1 = inuse(); for (int j = 0; j < n; j++) on(b, i0 + j); break;
      case 3: what = strf("enablevarcomp_inbox(g%d,b%d,%d)", q, b, i); u0 = inuse(); enablevarcomp_inbox(box, i); u1 = inuse(); on(b, i); break;
      case 4: what = strf("disablevar(g%d,%d)", q, i0); u0 = inuse(); disablevar(g, i0); u1 = inuse(); FORBOXES(g, bb) for (int j = 0; j < n; j++) offv(bb, i0 + j); break;
      case 5: what = strf("disablevarcomp(g%d,%d)", q, i); u0 = inuse(); disablevarcomp(g, i); u1 = inuse(); FORBOXES(g, bb) offv(bb, i); break;
      case 6: what = strf("disablevar_inbox(g%d,b%d,%d)", q, b, i0); u0 = inuse(); disablevar_inbox(box, i0); u1 = inuse(); for (int j = 0; j < n; j++) offv(b, i0 + j); break;
      case 7: what = strf("disablevarcomp_inbox(g%d,b%d,%d)", q, b, i); u0 = inuse(); disablevarcomp_inbox(box, i); u1 = inuse(); offv(b, i); break;
      case 8: { bool en = c.b(); tVarList* vl = vlalloc(g); int k = c.i(1, 4); what = strf("%sablevarlist(g%d", en ? "en" : "dis", q); vector<int> l; for (int z = 0; z < k; z++) { int v = c.i(0, std::min(g->nvariables, globalnvariables) - 1); vlpushone(vl, v); l.push_back(v); what += strf(",%d", v); } what += ")";
          if (en) enablevarlist(vl); else disablevarlist(vl); for (int v : l) FORBOXES(g, bb) { if (en) on(bb, v); else offv(bb, v); } vlfree(vl); break; }
      case 9: case 10: { if (m.v[b].empty()) { what = "nothing"; break; } auto it = m.v[b].begin(); std::advance(it, c.i(0, (int) m.v[b].size() - 1)); auto d = rnd(c, box->nnodes); it->second = d; memcpy(box->v[it->first], d.data(), d.size() * 8); what = strf("write g%d b%d %d", q, b, it->first); wr++; break; }
      case 11: { intList* l = alloc_intList(); int k = c.i(0, 3); bool act = c.b(); what = strf("%sactivate(g%d", act ? "" : "de", q); for (int z = 0; z < k; z++) { int bb = c.i(0, g->nboxes - 1); push_intList(l, bb); m.off[bb] = !act; what += strf(",%d", bb); } what += ")";
          if (act) activate_boxes(g, l); else deactivate_boxes(g, l); free_intList(l); if (c.b(1, 4)) { bool all = c.b(); if (all) activate_allboxes(g); else deactivate_allboxes(g); m.off.assign(g->nboxes, !all); what += all ? " all" : " none"; } break; }
      case 12: { if (ms.size() > 3) { what = "nothing"; break; } tGrid* e = make_empty_grid(g->nvariables, 0); M* x = new M(e); what = strf("make_empty_grid+copy_grid(g%d)", q);
          FORBOXES(e, bb) for (int v = 0; v < e->nvariables; v++) c.check(!e->box[bb]->v[v], "a variable of an empty grid has storage");
          if (c.b(1, 4)) { what += " (some vars on)"; int v = c.i(0, std::min(g->nvariables, globalnvariables) - 1); enablevarcomp(e, v); FORBOXES(e, bb) { x->v[bb][v].assign(e->box[bb]->nnodes, 0.0); for (int k = 0; k < e->box[bb]->nnodes; k++) { e->box[bb]->v[v][k] = k + 0.5; x->v[bb][v][k] = k + 0.5; } } }
          copy_grid(g, e, 0); FORBOXES(g, bb) for (auto& p : m.v[bb]) x->v[bb][p.first] = p.second; x->off = m.off; string d = structdiff(g, e); c.check(d.empty(), "copy_grid: %s differ", d.c_str()); ms.emplace_back(x); copies++; break; }
      case 13: { if (ms.size() < 2) { what = "nothing"; break; } what = strf("free_grid(g%d)", q); free_grid(g); ms.erase(ms.begin() + q); break; }
      case 14: { int r = c.i(0, (int) ms.size() - 1); M& t = *ms[r]; if (t.g->nvariables != g->nvariables || r == q) { what = "nothing"; break; } what = strf("copy_gridvar(%d,g%d,g%d)", i, q, r); copy_gridvar(i, g, t.g);
          FORBOXES(g, bb) if (m.v[bb].count(i) && t.v[bb].count(i)) { if (t.off[bb]) t.v[bb][i] = vector<double>(t.g->box[bb]->v[i], t.g->box[bb]->v[i] + t.g->box[bb]->nnodes); else t.v[bb][i] = m.v[bb][i]; } break; }
      case 15: { if (ms.size() > 3) { what = "nothing"; break; } // a second view of the same variables
          bool any = false; for (bool z : m.off) any |= z; if (any) { what = "nothing"; break; } what = strf("view of g%d", q); long a0 = inuse(); tGrid* e = make_empty_grid(g->nvariables, 0); copy_grid_withoutvars(g, e, 0); string d = structdiff(g, e); c.check(d.empty(), "copy_grid_withoutvars: %s differ", d.c_str());
          FORBOXES(e, bb) for (int v = 0; v < e->nvariables; v++) c.check(!e->box[bb]->v[v], "copy_grid_withoutvars enables variable %d", v);
          point_grid_tosamevars(g, e, 0); FORBOXES(e, bb) for (int v = 0; v < e->nvariables; v++) c.check(e->box[bb]->v[v] == g->box[bb]->v[v], "point_grid_tosamevars: variable %d", v);
          set_gridvars_toNULL(e, 0); FORBOXES(e, bb) for (int v = 0; v < e->nvariables; v++) c.check(!e->box[bb]->v[v], "set_gridvars_toNULL: variable %d", v); free_grid(e); c.check(inuse() == a0, "making, copying and freeing a grid leaves %ld bytes", inuse() - a0); break; }
      default: { int r = c.i(0, 2); what = strf("AddVarToGrid(g%d)", q); if (globalnvariables > 40 || g->nvariables != globalnvariables) { what = "nothing"; break; } for (auto& t : ms) if (t->g->nvariables != globalnvariables) r = -1; if (r < 0) { what = "nothing"; break; }
          AddVarToGrid(g, S_(strf("x%d", globalnvariables)), (char*) (r == 0 ? "" : r == 1 ? "i" : "(ij)"), (char*) "d"); c.check(g->nvariables == globalnvariables, "AddVarToGrid leaves %d variables on the grid", g->nvariables); for (auto& t : ms) if (t->g != g) realloc_gridvariables(t->g, globalnvariables); break; }
    }
    log += what + "; "; c.describe("%d boxes: %s", S.size() ? (int) S.size() : 0, log.c_str());
    if (what.compare(0, 6, "enable") == 0 || what.compare(0, 7, "disable") == 0) {
#ifdef ASAN
      if (what.find("varlist") == string::npos) c.check(u1 - u0 == want, "%s changes the memory in use by %ld bytes instead of %ld", what.c_str(), u1 - u0, want);
#endif
    }
    compare(c, ms, what);
  }
  if (wr && (copies || nops > 8)) c.nontrivial(); c.label(strf("copies=%d", copies));
}
// making and freeing a copy returns all memory
PBT(nothing_left, {.quick = 400, .thorough = 4000}) {
  auto S = gen_boxes(c); tGrid* g = first_grid(c, S); dress(c, g); int k = c.i(1, 3); for (int z = 0; z < k; z++) enablevar_inbox(g->box[c.i(0, g->nboxes - 1)], 0); printf("%d\n", k); fflush(stdout);
  tGrid* e = make_empty_grid(g->nvariables, 0); copy_grid(g, e, 0); free_grid(e); long a = inuse(); c.nontrivial(); c.describe("%d boxes", g->nboxes);
  e = make_empty_grid(g->nvariables, 0); copy_grid(g, e, 0); enablevar(e, c.i(0, 0)); if (c.b()) copy_grid(g, e, 0); free_grid(e); c.check(inuse() == a, "copying and freeing a grid leaves %ld bytes in use", inuse() - a);
}

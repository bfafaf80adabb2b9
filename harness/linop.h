// linop.h: linear operators on variable lists, as sgrid's solvers want them
#pragma once
#include "grid.h"
#include <omp.h>
extern "C" {
int umfpack_di_solve_forSortedVars_fromAlines(tSparseVector **Aline, tVarList *vlx, tVarList *vlb, double dropbelow, int pr) __attribute__((weak));
}
// unknown id: (box, var in list, point) -> u
struct Unk { vector<int> nn, off; int nv = 0, N = 0; vector<char> act;
  void init(tGrid* g, int nvars) { nv = nvars; N = 0; nn.clear(); off.clear(); act.clear(); FORBOXES(g, b) { nn.push_back(g->box[b]->nnodes); off.push_back(N); bool in = g->box[b]->inactive; act.push_back(!in); if (!in) N += nn[b] * nv; } }
  int id(int b, int v, int p) const { return off[b] + v * nn[b] + p; }
};
struct LinOp { Unk U; vector<vector<std::pair<int, double>>> row; // row[u] = list of (u', a)
  int apply_calls = 0;
};
static LinOp LO; static bool LO_poison = false; // poison: overwrite points of the list which are not unknowns of the block
// block restriction as documented: vlPars of the list of x
extern "C" inline void lop(tVarList* F, tVarList* x, tVarList* c1, tVarList* c2) {
  tGrid* g = x->grid; const Unk& U = LO.U; vector<const double*> X; 
  auto val = [&](int u) { int b = (int) g->nboxes - 1; while (b > 0 && (!U.act[b] || u < U.off[b])) b--; int r = u - U.off[b]; return std::make_pair(b, r); };
  auto one = [&](int b, int v, int p) { double s = 0; const double k1 = c1 && c1->n ? g->box[b]->v[c1->index[0]][p] : 1;
    for (auto& e : LO.row[U.id(b, v, p)]) { auto w = val(e.first); int v2 = w.second / U.nn[w.first], p2 = w.second % U.nn[w.first]; double k2 = c2 && c2->n ? g->box[w.first]->v[c2->index[0]][p2] : 1; double a = e.second * k1 * k2; s += a * g->box[w.first]->v[x->index[v2]][p2]; }
    g->box[b]->v[F->index[v]][p] = s; };
  if (x->vlPars) { tVarBoxSubboxIndices* q = (tVarBoxSubboxIndices*) x->vlPars; tBox* B = g->box[q->bi]; int n[3] = {B->n1, B->n2, B->n3}, s[3] = {q->sbi, q->sbj, q->sbk}, m[3] = {q->nsb1, q->nsb2, q->nsb3}, lo[3], hi[3];
    for (int k = 0; k < 3; k++) { lo[k] = s[k] * n[k] / m[k]; hi[k] = (s[k] + 1) * n[k] / m[k]; }
    for (int z = lo[2]; z < hi[2]; z++) for (int y = lo[1]; y < hi[1]; y++) for (int xx = lo[0]; xx < hi[0]; xx++) one(q->bi, q->vli, xx + n[0] * (y + n[1] * z)); return; }
  FORBOXES(g, b) if (U.act[b]) for (int v = 0; v < U.nv; v++) for (int p = 0; p < U.nn[b]; p++) one(b, v, p);
}
// the entry of the operator with the coefficients of the lists
inline double lop_entry(tGrid* g, tVarList* c1, tVarList* c2, int u, const std::pair<int, double>& e) {
  auto where = [&](int w) { int b = g->nboxes - 1; while (b > 0 && (!LO.U.act[b] || w < LO.U.off[b])) b--; return std::make_pair(b, (w - LO.U.off[b]) % LO.U.nn[b]); };
  auto r = where(u), k = where(e.first); double k1 = c1 && c1->n ? g->box[r.first]->v[c1->index[0]][r.second] : 1, k2 = c2 && c2->n ? g->box[k.first]->v[c2->index[0]][k.second] : 1; return e.second * k1 * k2; }
// the position of unknown u in the matrices: points outer, variables inner, or variables outer
inline int lop_line(int u, int b, bool sorted) { int r = u - LO.U.off[b], v = r / LO.U.nn[b], p = r % LO.U.nn[b]; return LO.U.off[b] + (sorted ? v * LO.U.nn[b] + p : p * LO.U.nv + v); }
struct Prob { tGrid* g; vector<int> xi, fi, bi, ri; tVarList *x, *F, *b, *r, *c1, *c2; string text; };
// boxes without coordinates, unknowns with names in any order
inline Prob gen_prob(pbt::Case& c, int maxN, bool coeffs, bool inact) {
  Prob P; int nb = c.i(1, 3), nv = c.i(1, 3); vector<BoxSpec> S(nb); int per = std::max(1, maxN / (nb * nv)); string t;
  for (auto& s : S) { int n[3]; do { for (int k = 0; k < 3; k++) n[k] = c.i(1, 6); } while (0); while (n[0] * n[1] * n[2] > per) { int k = n[0] >= n[1] && n[0] >= n[2] ? 0 : n[1] >= n[2] ? 1 : 2; n[k]--; } for (int k = 0; k < 3; k++) s.d[k] = {n[k], 0, 1, "ChebZeros", ""}; t += pbt::strf(" %dx%dx%d", n[0], n[1], n[2]); }
  P.g = new_grid(S, false, {{"Coordinates_set_bfaces", "no"}}); tGrid* g = P.g;
  auto add = [&](const char* nm) { int v = newvar(g, nm); return v; };
  vector<int> all; for (int v = 0; v < 4 * nv; v++) all.push_back(add(pbt::strf("hv%d", v).c_str())); // mixed
  bool mixed = c.b(); auto take = [&](vector<int>& o) { for (int v = 0; v < nv; v++) { int k = mixed ? c.i(0, all.size() - 1) : 0; o.push_back(all[k]); all.erase(all.begin() + k); } };
  take(P.xi); take(P.fi); take(P.bi); take(P.ri); int k1 = add("hc1"), k2 = add("hc2"); bool in = inact && nb > 1 && c.b(1, 4); int dead = in ? c.i(0, nb - 1) : -1;
  for (int i : {k1, k2}) FORBOXES(g, b) { auto r = rnd(c, g->box[b]->nnodes); for (size_t q = 0; q < r.size(); q++) g->box[b]->v[i][q] = 1.5 + r[q]; }
  if (dead >= 0) { intList* il = alloc_intList(); push_intList(il, dead); deactivate_boxes(g, il); free_intList(il); t += pbt::strf(" box%d inactive", dead); }
  auto mk = [&](const vector<int>& o) { tVarList* l = vlalloc(g); for (int i : o) vlpushone(l, i); return l; };
  P.x = mk(P.xi); P.F = mk(P.fi); P.b = mk(P.bi); P.r = mk(P.ri); P.c1 = mk({}); P.c2 = mk({}); if (coeffs && c.b()) { vlpushone(P.c1, k1); t += " c1"; } if (coeffs && c.b()) { vlpushone(P.c2, k2); t += " c2"; }
  LO.U.init(g, nv); int th = c.pickl<int>({1, 1, 2, 4}); omp_set_num_threads(th);
  P.text = pbt::strf("%d boxes%s, %d variables, %d unknowns, %d threads", nb, t.c_str(), nv, LO.U.N, th); return P;
}
inline void put(tGrid* g, const vector<int>& vi, const vector<double>& v) { for (int b = 0, u = 0; b < g->nboxes; b++) if (LO.U.act[b]) for (int i : vi) for (int p = 0; p < LO.U.nn[b]; p++) g->box[b]->v[i][p] = v[u++]; }
inline vector<double> get(tGrid* g, const vector<int>& vi) { vector<double> r; for (int b = 0; b < g->nboxes; b++) if (LO.U.act[b]) for (int i : vi) for (int p = 0; p < LO.U.nn[b]; p++) r.push_back(g->box[b]->v[i][p]); return r; }
inline int box_of(int u) { int b = (int) LO.U.off.size() - 1; while (b > 0 && (!LO.U.act[b] || u < LO.U.off[b])) b--; return b; }

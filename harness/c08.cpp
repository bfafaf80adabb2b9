// C08: integer lists, box lists, point lists and lists of bfaces against plain sequences
#include "grid.h"
extern "C" { void pushlist_intList(intList*, intList*); }
using namespace pbt;
typedef vector<int> V;
static bool same(intList* l, const V& m) { if (l->n != (int) m.size()) return false; for (int k = 0; k < l->n; k++) if (l->e[k] != m[k]) return false; return true; }
static string str(const V& m) { string s; for (int x : m) s += strf(" %d", x); return s; }
static string str(intList* l) { return str(V(l->e, l->e + l->n)); }
static void drop1(V& m, int x) { auto it = std::find(m.begin(), m.end(), x); if (it != m.end()) m.erase(it); }
static int prop(int v, void* p) { return v % 7 == *(int*) p; }
PBT(int_lists, {.quick = 15000, .thorough = 150000}) {
  const int N = 3; intList* l[N]; V m[N]; for (int k = 0; k < N; k++) l[k] = alloc_intList(); int nops = c.i(1, 40), R = c.pickl({3, 10, 1000000}); string log; int big = 0;
  auto val = [&] { return c.b(1, 20) ? c.pickl({-1, 2147483647, (int) -2147483647 - 1}) : c.i(0, R); };
  for (int o = 0; o < nops; o++) { int a = c.i(0, N - 1), b = (a + c.i(1, N - 1)) % N; int x = val(); string w; intList* L = l[a]; V& A = m[a]; V& B = m[b];
    switch (c.i(0, 13)) {
      case 0: case 1: w = strf("push(%d,%d)", a, x); push_intList(L, x); A.push_back(x); break;
      case 2: w = strf("pushlist(%d,%d)", a, b); if (A.size() + B.size() > 300) break; pushlist_intList(L, l[b]); A.insert(A.end(), B.begin(), B.end()); break;
      case 3: w = strf("unionpush(%d,%d)", a, x); unionpush_intList(L, x); if (std::find(A.begin(), A.end(), x) == A.end()) A.push_back(x); break;
      case 4: w = strf("unionpushlist(%d,%d)", a, b); unionpushlist_intList(L, l[b]); for (int y : B) if (std::find(A.begin(), A.end(), y) == A.end()) A.push_back(y); break;
      case 5: { int i = c.i(-2, (int) A.size() + 1); w = strf("dropindex(%d,%d)", a, i); dropindex_intList(L, i); if (i >= 0 && i < (int) A.size()) A.erase(A.begin() + i); break; }
      case 6: { int y = A.empty() || c.b(1, 4) ? x : c.pick(A); w = strf("drop(%d,%d)", a, y); drop_intList(L, y); drop1(A, y); break; }
      case 7: { int k = c.i(-1, (int) A.size() + 2); w = strf("droplastn(%d,%d)", a, k); droplastn_intList(L, k); if (k > 0) A.resize(std::max(0, (int) A.size() - k)); break; }
      case 8: w = strf("droplist(%d,%d)", a, b); droplist_intList(L, l[b]); for (int y : B) drop1(A, y); break;
      case 9: { w = strf("%d=duplicate(%d)", b, a); intList* d = duplicate_intList(L); free_intList(l[b]); l[b] = d; B = A; c.check(d != L && (A.empty() || d->e != L->e), "duplicate shares its entries"); break; }
      case 10: w = strf("clear(%d)", a); clear_intList(L); A.clear(); break;
      case 11: { int y = A.empty() || c.b(1, 3) ? x : c.pick(A); w = strf("search(%d,%d)", a, y); auto it = std::find(A.begin(), A.end(), y); int want = it == A.end() ? -1 : it - A.begin(); c.check(index_intList(L, y) == want, "index of %d in%s is %d", y, str(A).c_str(), index_intList(L, y)); c.check(in_intList(L, y) == (want >= 0), "in(%d) in%s", y, str(A).c_str()); break; }
      case 12: { int i0 = c.i(-1, (int) A.size() + 1), r = c.i(0, 6), want = -1; w = strf("index_prop(%d,%d,%d)", a, i0, r); for (int i = std::max(0, i0); i < (int) A.size(); i++) if (A[i] % 7 == r) { want = i; break; } c.check(index_prop_intList(L, i0, prop, &r) == want, "index_prop from %d in%s is %d instead of %d", i0, str(A).c_str(), index_prop_intList(L, i0, prop, &r), want); break; }
      default: w = strf("refill(%d)", a); for (int k = c.i(0, 30); k > 0; k--) { int y = val(); push_intList(L, y); A.push_back(y); } break;
    }
    log += w + " "; c.describe("%s", log.c_str()); for (int k = 0; k < N; k++) { c.check(same(l[k], m[k]), "after %s: list %d is%s instead of%s", w.c_str(), k, str(l[k]).c_str(), str(m[k]).c_str()); big |= m[k].size() > 1; }
  }
  for (int k = 0; k < N; k++) free_intList(l[k]); if (big && nops > 2) c.nontrivial();
}
static tGrid* grid(Case& c, int lo, int hi) {
  int nb = c.i(lo, hi); vector<BoxSpec> s(nb); for (auto& b : s) for (auto& d : b.d) { d.basis = "ChebExtrema"; d.n = c.i(2, 3); d.a = 0; d.b = 1; d.tt = "0 NUMREC_FFT"; }
  tGrid* g = new_grid(s, false); vector<int> off; FORBOXES(g, b) if (c.b(1, 5)) { intList* l = alloc_intList(); push_intList(l, b); deactivate_boxes(g, l); free_intList(l); } return g;
}
struct PL { vector<V> p; V bl; }; // bl: boxes in the order in which they first got a point
static void cmpl(Case& c, tPointList* L, const PL& m, tGrid* g, const string& w) {
  c.check(L->grid == g, "%s: grid", w.c_str());
  FORBOXES(g, b) { V got(L->point[b], L->point[b] + L->npoints[b]); c.check(got == m.p[b], "%s: points of box %d are%s instead of%s", w.c_str(), b, str(got).c_str(), str(m.p[b]).c_str()); }
  V bl(L->blist, L->blist + L->nblist); c.check(bl == m.bl, "%s: list of boxes is%s instead of%s", w.c_str(), str(bl).c_str(), str(m.bl).c_str());
  V seen, want; int b, pi, ijk; forPointList(L, b, pi, ijk) { seen.push_back(b); seen.push_back(pi); seen.push_back(ijk); }
  FORBOXES(g, q) if (!g->box[q]->inactive) for (size_t k = 0; k < m.p[q].size(); k++) { want.push_back(q); want.push_back(k); want.push_back(m.p[q][k]); }
  c.check(seen == want, "%s: loop over the point list visits%s instead of%s", w.c_str(), str(seen).c_str(), str(want).c_str());
  FORBOXES(g, q) { V s2; tBox* box = g->box[q]; forPointList_inbox(L, box, pi, ijk) s2.push_back(ijk); c.check(s2 == m.p[q], "%s: loop over points in box %d visits%s instead of%s", w.c_str(), q, str(s2).c_str(), str(m.p[q]).c_str()); }
}
PBT(point_lists, {.quick = 3000, .thorough = 25000}) {
  tGrid* g = grid(c, 1, 7); tPointList* L[2]; PL m[2]; for (int k = 0; k < 2; k++) { L[k] = AllocatePointList(g); m[k].p.resize(g->nboxes); } int nops = c.i(1, 40); string log; size_t big = 0;
  for (int o = 0; o < nops; o++) { int a = c.i(0, 1), b = c.i(0, g->nboxes - 1); V& P = m[a].p[b]; int x = c.i(0, c.pickl({3, 1000})); string w;
    switch (c.i(0, 7)) {
      default: w = strf("add(%d,b%d,%d)", a, b, x); AddToPointList(L[a], b, x); P.push_back(x); if (std::find(m[a].bl.begin(), m[a].bl.end(), b) == m[a].bl.end()) m[a].bl.push_back(b); break;
      case 4: { int y = P.empty() ? x : c.pick(P); w = strf("drop(%d,b%d,%d)", a, b, y); DropFromPointList(L[a], b, y); drop1(P, y); break; }
      case 5: { intList* d = alloc_intList(); w = strf("droplist(%d,b%d", a, b); for (int k = c.i(0, 4); k > 0; k--) { int y = P.empty() || c.b(1, 4) ? x + k : c.pick(P); push_intList(d, y); w += strf(",%d", y); } w += ")"; V D(d->e, d->e + d->n); DropListFromPointList(L[a], b, d); for (int y : D) drop1(P, y); free_intList(d); break; }
      case 6: { w = strf("%d=duplicate(%d)", 1 - a, a); FreePointList(L[1 - a]); L[1 - a] = c.b() ? DuplicatePointList(L[a]) : DuplicatePointList_for_grid(L[a], g); m[1 - a] = m[a]; break; }
      case 7: { w = strf("refill(%d,b%d)", a, b); for (int k = c.i(1, 40); k > 0; k--) { int y = c.i(0, 100000); AddToPointList(L[a], b, y); P.push_back(y); } if (std::find(m[a].bl.begin(), m[a].bl.end(), b) == m[a].bl.end()) m[a].bl.push_back(b); break; }
    }
    log += w + " "; c.describe("%d boxes: %s", g->nboxes, log.c_str()); big = std::max(big, m[a].bl.size());
    for (int k = 0; k < 2; k++) cmpl(c, L[k], m[k], g, "after " + w);
  }
  c.check(DuplicatePointList(nullptr) == nullptr, "duplicate of no list"); for (int k = 0; k < 2; k++) FreePointList(L[k]); if (big > 1) c.nontrivial();
}
// lists of boxes chosen by attribute or by neighbourhood
PBT(box_lists, {.quick = 3000, .thorough = 25000}) {
  tGrid* g = grid(c, 1, 8); int at = c.i(0, NATTRIBS - 1), v = c.i(0, 2); FORBOXES(g, b) g->box[b]->Attrib[at] = c.i(0, 2);
  vector<V> nb(g->nboxes); FORBOXES(g, b) for (int k = c.i(0, 5); k > 0; k--) { int ob = c.i(-1, g->nboxes - 1); int fi = add_empty_bface(g->box[b], c.i(0, 5)); g->box[b]->bface[fi]->ob = ob; nb[b].push_back(ob); }
  V pre; intList* l = alloc_intList(); for (int k = c.i(0, 3); k > 0; k--) { int x = c.i(0, g->nboxes - 1); push_intList(l, x); pre.push_back(x); }
  intList* l1 = alloc_intList(); V in; for (int k = c.i(0, 6); k > 0; k--) { int x = c.i(0, g->nboxes - 1); push_intList(l1, x); in.push_back(x); }
  int op = c.i(0, 5), b0 = c.i(0, g->nboxes - 1), ret = -1; V want = pre; const char* N[] = {"bladd_ifAttrib", "bladd_ifnotAttrib", "bl2_ifAttrib", "bl2_ifnotAttrib", "bladd_neighbors", "bladd_neighbors_of_neighbors"};
  auto neigh = [&](int b, V& w) { for (int x : nb[b]) if (x >= 0 && std::find(w.begin(), w.end(), x) == w.end()) w.push_back(x); };
  switch (op) {
    case 0: ret = bladd_ifAttrib(g, at, v, l); FORBOXES(g, b) if (!g->box[b]->inactive && g->box[b]->Attrib[at] == v) want.push_back(b); break;
    case 1: ret = bladd_ifnotAttrib(g, at, v, l); FORBOXES(g, b) if (!g->box[b]->inactive && g->box[b]->Attrib[at] != v) want.push_back(b); break;
    case 2: ret = bl2_ifAttrib(g, l1, at, v, l); for (int b : in) if (g->box[b]->Attrib[at] == v) want.push_back(b); break;
    case 3: ret = bl2_ifnotAttrib(g, l1, at, v, l); for (int b : in) if (g->box[b]->Attrib[at] != v) want.push_back(b); break;
    case 4: ret = bladd_neighbors(g->box[b0], l); neigh(b0, want); break;
    case 5: { ret = bladd_neighbors_of_neighbors(g->box[b0], l); V n1, n2; neigh(b0, n1); for (int b : n1) neigh(b, n2); for (int x : n1) drop1(n2, x); drop1(n2, b0); want.insert(want.end(), n2.begin(), n2.end()); break; }
  }
  c.describe("%s: %d boxes, box %d, attribute %d value %d, start with%s, from%s", N[op], g->nboxes, b0, at, v, str(pre).c_str(), str(in).c_str()); c.label(N[op]); if (want.size() > pre.size()) c.nontrivial();
  c.check(same(l, want), "%s gives%s instead of%s", N[op], str(l).c_str(), str(want).c_str()); c.check(ret == (int) want.size(), "%s returns %d for a list of %d", N[op], ret, (int) want.size()); c.check(same(l1, in), "%s changes its input list", N[op]);
  free_intList(l); free_intList(l1);
}
PBT(bface_lists, {.quick = 3000, .thorough = 25000}) {
  tGrid* g = grid(c, 1, 4); struct B { int id, f; bool has; V p; }; vector<vector<B>> m(g->nboxes); int id = 0, nops = c.i(1, 25); string log; int big = 0;
  for (int o = 0; o < nops; o++) { int b = c.i(0, g->nboxes - 1); tBox* x = g->box[b]; vector<B>& M = m[b]; string w; int f = c.i(0, 5);
    switch (c.i(0, 6)) {
      case 0: case 1: { w = strf("add_empty_bface(b%d,%d)", b, f); int fi = add_empty_bface(x, f); c.check(fi == (int) M.size(), "%s gives %d", w.c_str(), fi); x->bface[fi]->touch = ++id & 1; x->bface[fi]->ob = id; M.push_back({id, f, false, {}}); break; }
      case 2: case 3: case 4: { int fi = c.i(-1, (int) M.size()), p = c.i(0, x->nnodes - 1); w = strf("add_point(b%d,%d,%d,%d)", b, fi, p, f); int r = add_point_to_bface_inbox(x, fi, p, f); if (fi < 0 || fi >= (int) M.size()) { fi = M.size(); M.push_back({-1, f, false, {}}); c.check(x->bface && x->bface[r]->ob == -1, "new bface has a neighbour"); } c.check(r == fi, "%s gives %d instead of %d", w.c_str(), r, fi); M[fi].has = true; M[fi].p.push_back(p); if (M[fi].f != f) M[fi].f = -1; break; }
      case 5: { int fi = c.i(-1, (int) M.size()); w = strf("remove_bface(b%d,%d)", b, fi); int r = remove_bface(x, fi); bool is = fi >= 0 && fi < (int) M.size(); c.check(r == is, "%s gives %d", w.c_str(), r); if (is) M.erase(M.begin() + fi); break; }
      case 6: if (c.b(1, 4)) { w = strf("free_all_bfaces(b%d)", b); free_all_bfaces(x); M.clear(); } else { w = strf("remove_bfaces_with_NULL_fpts(b%d)", b); int r = remove_bfaces_with_NULL_fpts(x), n = 0; for (size_t k = 0; k < M.size();) if (!M[k].has) { M.erase(M.begin() + k); n++; } else k++; c.check(r == n, "%s gives %d instead of %d", w.c_str(), r, n); } break;
    }
    log += w + " "; c.describe("%d boxes: %s", g->nboxes, log.c_str());
    FORBOXES(g, q) { tBox* y = g->box[q]; c.check(y->nbfaces == (int) m[q].size(), "after %s: %d bfaces instead of %d in box %d", w.c_str(), y->nbfaces, (int) m[q].size(), q); big = std::max(big, y->nbfaces);
      for (int k = 0; k < y->nbfaces; k++) { tBface* p = y->bface[k]; B& t = m[q][k]; c.check(p->fi == k && p->b == q && p->grid == g && p->f == t.f && p->ob == t.id, "after %s: bface %d of box %d has fi=%d b=%d f=%d ob=%d, expected f=%d ob=%d", w.c_str(), k, q, p->fi, p->b, p->f, p->ob, t.f, t.id); c.check(!!p->fpts == t.has, "after %s: point list of bface %d", w.c_str(), k); if (t.has) FORBOXES(g, z) { V got(p->fpts->point[z], p->fpts->point[z] + p->fpts->npoints[z]); c.check(got == (z == q ? t.p : V()), "after %s: points of bface %d of box %d in box %d:%s instead of%s", w.c_str(), k, q, z, str(got).c_str(), str(z == q ? t.p : V()).c_str()); } } } }
  if (big > 2) c.nontrivial();
}

// C25: sparse matrices read from linear operators
#include "linop.h"
using namespace pbt;
typedef std::map<int, double> Row;
static vector<Row> dense(tSparseVector** A, int n, Case& c, const char* what, bool* sorted = nullptr) {
  vector<Row> M(n); for (int i = 0; i < n; i++) for (int e = 0; e < A[i]->entries; e++) { c.check(!M[i].count(A[i]->pos[e]), "%s: two entries of vector %d for position %d", what, i, A[i]->pos[e]); if (sorted && e && A[i]->pos[e] <= A[i]->pos[e-1]) *sorted = false; M[i][A[i]->pos[e]] = A[i]->val[e]; } return M; }
static void random_op(Case& c, double fill) {
  int N = LO.U.N; LO.row.assign(N, {}); uint64_t s = c.bits64() | 1; auto r = [&] { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (s >> 11) * (1.0 / 9007199254740992.0); }; for (int k = 0; k < 9; k++) r(); int kind = c.i(0, 2);
  for (int u = 0; u < N; u++) for (int w = 0; w < N; w++) { double p = kind == 0 ? fill : kind == 1 ? (abs(u - w) <= 2 ? 1 : fill * 0.1) : (u == w ? 1 : fill * 0.2); if (r() < p) { double a = (r() - 0.5) * 4; if (r() < 0.2) a *= 1e-6; if (r() < 0.05) a = 0; LO.row[u].push_back({w, a}); } }
}
PBT(extract, {.quick = 3000, .thorough = 60000}) {
  Prob P = gen_prob(c, 90, true, true); tGrid* g = P.g; random_op(c, c.pickl<double>({0.3, 0.05, 1})); double drop = c.pickl<double>({0, 0, 1e-5, 0.5}); setpar("LinAlg_setABStozero_below", strf("%.17g", drop));
  int how = c.i(0, 5), N = LO.U.N, bx = 0, v = 0, sb[3] = {0}, ns[3] = {1, 1, 1}; vector<int> act; FORBOXES(g, b) if (LO.U.act[b]) act.push_back(b); bx = c.pick(act); v = c.i(0, LO.U.nv - 1); for (int k = 0; k < 3; k++) { ns[k] = c.i(1, 3); sb[k] = c.i(0, ns[k] - 1); }
  static const char* nm[] = {"SetMatrixLines_slowly", "SetMatrixLines_forSortedVars_slowly", "SetMatrixColumns_slowly", "SetMatrixColumns_forSortedVars_slowly", "SetMatrixColumns_ForOneVarInOneBox_slowly", "SetMatrixColumns_ForOneVarInOneSubBox_slowly"};
  tBox* B = g->box[bx]; int n[3] = {B->n1, B->n2, B->n3}; string blk = how >= 4 ? strf(", variable %d in box%d", v, bx) : ""; if (how == 5) blk += strf(", sub-box %d/%d,%d/%d,%d/%d", sb[0], ns[0], sb[1], ns[1], sb[2], ns[2]);
  c.describe("%s: %s%s, entries below %g dropped", nm[how], P.text.c_str(), blk.c_str(), drop); c.label(nm[how]);
  FORBOXES(g, b) for (int l = 0; l < LO.U.nv; l++) for (int i : {P.xi[l], P.fi[l]}) { auto r = rnd(c, g->box[b]->nnodes); std::copy(r.begin(), r.end(), g->box[b]->v[i]); } // left from before
  // the block: list of unknowns in the order of the matrix
  vector<int> pos(N, -1); int M = 0;
  if (how < 4) { M = N; for (int u = 0; u < N; u++) pos[u] = lop_line(u, box_of(u), how & 1); }
  else { int lo[3] = {0}, hi[3] = {n[0], n[1], n[2]}; if (how == 5) for (int k = 0; k < 3; k++) { lo[k] = sb[k] * n[k] / ns[k]; hi[k] = (sb[k] + 1) * n[k] / ns[k]; }
    for (int z = lo[2]; z < hi[2]; z++) for (int y = lo[1]; y < hi[1]; y++) for (int x = lo[0]; x < hi[0]; x++) pos[LO.U.id(bx, v, x + n[0] * (y + n[1] * z))] = M++; }
  if (M == 0) c.label("empty sub-box");
  bool cols = how >= 2; vector<Row> W(M); double k = 0;
  for (int u = 0; u < N; u++) if (pos[u] >= 0) for (auto& e : LO.row[u]) if (pos[e.first] >= 0) { double a = lop_entry(g, P.c1, P.c2, u, e); if (!(fabs(a) > drop)) { k++; continue; } if (cols) W[pos[e.first]][pos[u]] = a; else W[pos[u]][pos[e.first]] = a; }
  std::set<BV> ex; FORBOXES(g, b) for (int l = 0; l < LO.U.nv; l++) { ex.insert(BV(b, P.xi[l])); ex.insert(BV(b, P.fi[l])); } Snap sn; sn.add(g, ex);
  tSparseVector** A = AllocateSparseVectorArray(M); for (int i = 0; i < M; i++) c.check(A[i] && A[i]->entries == 0, "a new sparse vector is not empty");
  switch (how) {
    case 0: SetMatrixLines_slowly(A, lop, P.F, P.x, P.c1, P.c2, 0); break;
    case 1: SetMatrixLines_forSortedVars_slowly(A, lop, P.F, P.x, P.c1, P.c2, 0); break;
    case 2: SetMatrixColumns_slowly(A, lop, P.F, P.x, P.c1, P.c2, 0); break;
    case 3: SetMatrixColumns_forSortedVars_slowly(A, lop, P.F, P.x, P.c1, P.c2, 0); break;
    case 4: SetMatrixColumns_ForOneVarInOneBox_slowly(A, v, bx, lop, P.F, P.x, P.c1, P.c2, 0); break;
    case 5: SetMatrixColumns_ForOneVarInOneSubBox_slowly(A, v, bx, sb[0], sb[1], sb[2], ns[0], ns[1], ns[2], lop, P.F, P.x, P.c1, P.c2, 0); break; }
  c.check(sn.bad().empty(), "%s was changed", sn.bad().c_str());
  bool srt = true; vector<Row> R = dense(A, M, c, nm[how], &srt); size_t tot = 0; if (cols) c.check(srt, "the entries of a column are not in ascending order");
  for (int i = 0; i < M; i++) { tot += W[i].size(); c.evals(1); for (auto& e : W[i]) { c.check(R[i].count(e.first), "%s %d: no entry at %d, where the operator has %.17g", cols ? "column" : "line", i, e.first, e.second); c.check(R[i][e.first] == e.second, "%s %d: the entry at %d is %.17g instead of %.17g", cols ? "column" : "line", i, e.first, R[i][e.first], e.second); }
    for (auto& e : R[i]) c.check(W[i].count(e.first), "%s %d: an entry %.17g at %d, where the operator has none", cols ? "column" : "line", i, e.second, e.first); }
  if (tot > 3 && M > 2) c.nontrivial();
  if (how < 4 && drop == 0) { // acts like the operator
    vector<double> x = rnd(c, N), xs(N), fs(N); for (int u = 0; u < N; u++) xs[pos[u]] = x[u]; put(g, P.xi, x); P.x->vlPars = nullptr; lop(P.F, P.x, P.c1, P.c2); vector<double> f = get(g, P.fi);
    if (cols) (c.b() ? SparseMatrixLinesTranspose_times_vector(A, N, xs.data(), fs.data()) : vector_times_SparseMatrixLines(xs.data(), A, N, fs.data())); else SparseMatrixLines_times_vector(A, N, xs.data(), fs.data());
    for (int u = 0; u < N; u++) { double s = 0; for (auto& e : LO.row[u]) s += fabs(lop_entry(g, P.c1, P.c2, u, e) * x[e.first]); c.check(fabs(f[u] - fs[pos[u]]) <= 1e-14 * N * s + 1e-300, "line %d: the matrix gives %.17g, the operator %.17g", pos[u], fs[pos[u]], f[u]); } }
  FreeSparseVectorArray(A, M);
}

// operators made from sgrid's own derivatives, which work on the copies of the grid
static int sp_nb = 0, sp_der = 0;
extern "C" void spop(tVarList* F, tVarList* x, tVarList* c1, tVarList*) {
  tGrid* g = x->grid; FORBOXES(g, b) if (!g->box[b]->inactive) { tBox* B = g->box[b]; int N = B->nnodes; vector<vector<double>> D(9, vector<double>(N));
    for (int v = 0; v < x->n; v++) { double* u = B->v[x->index[v]], *f = B->v[F->index[v]];
      if (sp_der == 0) cart_partials(B, u, D[0].data(), D[1].data(), D[2].data()); else if (sp_der == 1) { cart_partials(B, u, D[0].data(), D[1].data(), D[2].data()); for (int k = 0; k < 3; k++) { cart_partials(B, D[k].data(), D[3+2*(k%3)].data(), D[4].data(), D[8].data()); } } else { spec_Deriv2(B, 1, u, D[0].data()); spec_Deriv1(B, 2, u, D[1].data()); spec_allDerivs(B, u, D[2].data(), D[3].data(), D[4].data(), D[5].data(), D[6].data(), D[7].data(), D[8].data(), D[2].data(), D[2].data()); }
      double* k = c1->n ? B->v[c1->index[0]] : nullptr; double* o = B->v[x->index[(v+1) % x->n]], *y = g->box[(b+1) % g->nboxes]->v[x->index[v]]; int M = g->box[(b+1) % g->nboxes]->nnodes;
      for (int i = 0; i < N; i++) { double s = 0; for (int q = 0; q < 9; q++) s += (q + 1) * D[q][i]; f[i] = s * (k ? k[i] : 1) + 0.5 * o[i] - 0.25 * y[i % M]; } } }
}
#include "coords.h"
PBT(spectral, {.quick = 700, .thorough = 15000, .cpu_s = 60}) {
  Sys y = gen_sys(c, 3, 5, true); bool two = c.b(1, 3); vector<BoxSpec> S = {y.s}; if (two) { BoxSpec s; for (int k = 0; k < 3; k++) { s.d[k] = gen_dir(c, 3, 4); s.d[k].tt = "64 NUMREC_FFT"; } S.push_back(s); } std::map<string, string> p = y.pars; p["Coordinates_set_bfaces"] = "no"; if (c.b(1, 3)) p["CoordinateTransforms_stored"] = "no";
  tGrid* g = new_grid(S, true, p); int nv = c.i(1, 2); sp_der = c.i(0, 2); setpar("LinAlg_setABStozero_below", "0"); tVarList *x = vlalloc(g), *F = vlalloc(g), *c1 = vlalloc(g), *c2 = vlalloc(g); vector<int> xi, fi; for (int v = 0; v < nv; v++) { xi.push_back(newvar(g, strf("hx%d", v).c_str())); fi.push_back(newvar(g, strf("hf%d", v).c_str())); vlpushone(x, xi[v]); vlpushone(F, fi[v]); }
  if (c.b()) { int k = newvar(g, "hk"); FORBOXES(g, b) { auto r = rnd(c, g->box[b]->nnodes); std::copy(r.begin(), r.end(), g->box[b]->v[k]); } vlpushone(c1, k); }
  LO.U.init(g, nv); int N = LO.U.N, how = c.i(0, 3), th = c.pickl<int>({1, 2, 4}); omp_set_num_threads(th); c.describe("%s%s, %d variables, operator %d, %d unknowns, way %d, %d threads", y.str().c_str(), two ? (", " + specstr(S[1])).c_str() : "", nv, sp_der, N, how, th); c.label(y.name); if (N > 600) c.discard();
  tSparseVector** A = AllocateSparseVectorArray(N); if (how == 0) SetMatrixLines_slowly(A, spop, F, x, c1, c2, 0); if (how == 1) SetMatrixLines_forSortedVars_slowly(A, spop, F, x, c1, c2, 0); if (how == 2) SetMatrixColumns_slowly(A, spop, F, x, c1, c2, 0); if (how == 3) SetMatrixColumns_forSortedVars_slowly(A, spop, F, x, c1, c2, 0);
  vector<double> xv = rnd(c, N), xs(N), fs(N); for (int u = 0; u < N; u++) xs[lop_line(u, box_of(u), how & 1)] = xv[u]; put(g, xi, xv); spop(F, x, c1, c2); vector<double> f = get(g, fi);
  if (how < 2) SparseMatrixLines_times_vector(A, N, xs.data(), fs.data()); else SparseMatrixLinesTranspose_times_vector(A, N, xs.data(), fs.data()); if (N > 20) c.nontrivial();
  vector<double> S1(N, 0); double top = 0; for (int i = 0; i < N; i++) for (int e = 0; e < A[i]->entries; e++) { int w = A[i]->pos[e]; double a = fabs(A[i]->val[e]); if (how < 2) S1[i] += a * fabs(xs[w]); else S1[w] += a * fabs(xs[i]); } for (double s : S1) top = std::max(top, s);
  for (int u = 0; u < N; u++) { int l = lop_line(u, box_of(u), how & 1); c.evals(1); c.check(fabs(f[u] - fs[l]) <= 1e-12 * S1[l] + 1e-13 * top, "line %d: the matrix gives %.17g, the operator %.17g (sum of magnitudes %g)", l, fs[l], f[u], S1[l]); }
  FreeSparseVectorArray(A, N);
}

// sparse vectors and matrices against dense ones
PBT(sparse, {.quick = 12000, .thorough = 200000, .fs = true}) {
  int n = c.i(0, 24), m = n; vector<vector<double>> D(n, vector<double>(m, 0)); double fill = c.pickl<double>({0.1, 0.3, 0.7, 1, 0}); tSparseVector** A = AllocateSparseVectorArray(n); int nz = 0; bool ordered = c.b(3, 4); c.check(A || !n, "no memory");
  for (int i = 0; i < n; i++) { vector<int> p; for (int j = 0; j < m; j++) if (c.u01() < fill) p.push_back(j); if (!ordered) for (size_t k = p.size(); k > 1; k--) std::swap(p[k-1], p[c.i(0, k - 1)]);
    for (int j : p) { double a = c.b(1, 12) ? 0 : c.b(1, 5) ? c.sym(1) * 1e-7 : c.b(1, 10) ? c.anyfinite() : c.sym(3); D[i][j] = a; if (c.b()) AddToSparseVector(A[i], j, a); else AddToSparseVector_critical(A[i], j, a); nz++; c.check(A[i]->entries > 0 && A[i]->pos[A[i]->entries-1] == j && same_bits(A[i]->val[A[i]->entries-1], a), "the entry was not added"); } }
  c.describe("%dx%d matrix with %d entries%s", n, m, nz, ordered ? "" : ", not in order"); if (nz > 3) c.nontrivial();
  for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { double a = GetSparseVectorComponent(A[i], j); c.check(a == D[i][j], "component %d of vector %d is %.17g instead of %.17g", j, i, a, D[i][j]); }
  vector<double> x(n), f(n + 2, 777), gg(n + 2, 777), h(n + 2, 777); for (auto& v : x) v = c.b(1, 8) ? 0 : c.sym(2);
  SparseMatrixLines_times_vector(A, n, x.data(), f.data()); SparseMatrixLinesTranspose_times_vector(A, n, x.data(), gg.data()); vector_times_SparseMatrixLines(x.data(), A, n, h.data());
  for (int i = 0; i < n + 2; i++) { ld a = 0, b = 0, sa = 0, sb = 0; if (i < n) for (int j = 0; j < n; j++) { a += (ld) D[i][j] * x[j]; sa += fabsl((ld) D[i][j] * x[j]); b += (ld) D[j][i] * x[j]; sb += fabsl((ld) D[j][i] * x[j]); } else a = b = 777; if (sa > 1e307L || sb > 1e307L) continue; ld e = 1e-14L; c.evals(1);
    c.check(fabsl(f[i] - a) <= e * sa + 1e-300L, "A x: component %d is %.17g instead of %.17Lg", i, f[i], a); c.check(fabsl(gg[i] - b) <= e * sb + 1e-300L, "A^T x: component %d is %.17g instead of %.17Lg", i, gg[i], b); c.check(fabsl(h[i] - b) <= e * sb + 1e-300L, "x A: component %d is %.17g instead of %.17Lg", i, h[i], b); }
  // compressed columns
  double drop = c.pickl<double>({0, 1e-6, 0.5}); bool lines = c.b(); 
  if (n > 0 && (ordered || lines)) for (int dl = 0; dl < 2; dl++) { vector<long> p(n + 1, -7), q(nz + 1, -7); vector<double> v(nz + 1, -7); int *Ap, *Ai; double* Ax; long *Lp, *Li, r;
    if (dl) { allocate_umfpack_dl_matrix(&Lp, &Li, &Ax, n, nz + 1); r = lines ? set_umfpack_dl_matrix_from_lines(Lp, Li, Ax, A, n, drop, 0) : set_umfpack_dl_matrix_from_columns(Lp, Li, Ax, A, n, drop, 0); for (int i = 0; i <= n; i++) p[i] = Lp[i]; for (int i = 0; i < nz; i++) { q[i] = Li[i]; v[i] = Ax[i]; } free_umfpack_dl_matrix(Lp, Li, Ax); }
    else { allocate_umfpack_di_matrix(&Ap, &Ai, &Ax, n, nz + 1); r = lines ? set_umfpack_di_matrix_from_lines(Ap, Ai, Ax, A, n, drop, 0) : set_umfpack_di_matrix_from_columns(Ap, Ai, Ax, A, n, drop, 0); for (int i = 0; i <= n; i++) p[i] = Ap[i]; for (int i = 0; i < nz; i++) { q[i] = Ai[i]; v[i] = Ax[i]; } free_umfpack_di_matrix(Ap, Ai, Ax); }
    long want = 0; for (auto& w : D) for (double a : w) if (fabs(a) > drop) want++; c.check(r == want && p[n] == want && p[0] == 0, "%ld entries instead of %ld", r, want);
    for (int j = 0; j < n; j++) { long k = p[j]; for (int i = 0; i < n; i++) { double a = lines ? D[i][j] : D[j][i]; if (!(fabs(a) > drop)) continue; c.check(k < p[j+1] && q[k] == i && v[k] == a, "column %d of the compressed matrix: entry %ld is not %.17g in row %d", j, k, a, i); k++; } c.check(k == p[j+1], "column %d of the compressed matrix has too many entries", j); } }
  // the file
  if (n > 0) { int isc = c.i(0, 1); string fn = c.b() ? "m.mtx" : c.word(1, 8, "abcdefgh") + ".m"; c.check(write_SparseVectorArray_inMatrixMarketFormat(S_(fn), A, n, isc) == 0, "the matrix could not be written");
    string s = slurp(fn); vector<string> L; size_t k = 0; while (k < s.size()) { size_t e = s.find('\n', k); if (e == string::npos) e = s.size(); L.push_back(s.substr(k, e - k)); k = e + 1; }
    c.check(!L.empty() && L[0] == "%%MatrixMarket matrix coordinate real general", "no MatrixMarket header"); size_t l = 0; while (l < L.size() && L[l][0] == '%') l++; int nr, nc, ne; c.check(l < L.size() && sscanf(L[l].c_str(), "%d %d %d", &nr, &nc, &ne) == 3 && ne == nz && (int) (L.size() - l - 1) == nz && (isc ? nc : nr) == n && nr <= n && nc <= n, "the size line '%s' is wrong", l < L.size() ? L[l].c_str() : "");
    vector<vector<double>> E(n, vector<double>(n, 0)); std::set<std::pair<int, int>> seen;
    for (l++; l < L.size(); l++) { int r, q; double a; c.check(sscanf(L[l].c_str(), "%d %d %lf", &r, &q, &a) == 3 && r >= 1 && r <= nr && q >= 1 && q <= nc, "the line '%s' is wrong", L[l].c_str()); c.check(seen.insert({r, q}).second, "entry %d %d written twice", r, q); E[r-1][q-1] = a; }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double a = isc ? D[j][i] : D[i][j]; c.check(fabs(E[i][j] - a) <= 1e-14 * fabs(a) + 5e-324, "entry %d %d is %.17g in the file instead of %.17g", i + 1, j + 1, E[i][j], a); } }
  if (!c.b(1, 10)) FreeSparseVectorArray(A, n);
}

// C05: variable registry and variable lists
#include "grid.h"
using namespace pbt;
extern "C" { extern int sgrid_restarts; }
struct MV { string name, ti; int comp, nc; int sym[3]; double far, fall, prop; int cst; };
static const char* TI[] = {"", "i", "(ij)", "ij", "a", "(ab)", "[ij]", "i(jk)"};

static tGrid* small_grid(Case& c, int nb, string* desc = nullptr) {
  vector<BoxSpec> S(nb); for (auto& s : S) for (int k = 0; k < 3; k++) s.d[k] = {c.i(1, 4), 0, 1, "ChebZeros", ""};
  return new_grid(S, false, {{"Coordinates_set_bfaces", "no"}});
}

// registry: names, components, symmetries, indices stay consistent under any history
PBT(registry, {.quick = 4000, .thorough = 80000}) {
  bool early = c.b(1, 3); tGrid* g = nullptr; if (!early) g = small_grid(c, c.i(1, 2));
  vector<MV> M; int base = globalnvariables; auto read = [&](int i) { MV m; m.name = VarName(i); m.ti = VarTensorIndices(i); m.comp = VarComponent(i); m.nc = VarNComponents(i); for (int d = 0; d < 3; d++) m.sym[d] = VarSymmetry(i, d); m.far = VarFarLimit(i); m.fall = VarFallOff(i); m.prop = VarPropSpeed(i); m.cst = VarConstantFlag(i); return m; };
  for (int i = 0; i < base; i++) M.push_back(read(i));
  std::map<string, int> byname; for (int i = 0; i < base; i++) byname[M[i].name] = i;
  int nops = c.i(1, 25); string log; bool dup = false;
  for (int op = 0; op < nops; op++) {
    int k = c.i(0, 5);
    if (k <= 1) {
      string n = c.pickl<const char*>({"u", "ux", "g", "gx", "v_", "alpha"}); if (c.b(1, 2)) n += c.word(0, 2, "xyzt_p1"); string ti = TI[c.i(0, 7)];
      int nl; char* il[NINDEXLIST]; int sy[3 * NINDEXLIST]; tensorindexlist(S_(ti), &nl, il, sy);
      bool clash = false; for (int q = 0; q < nl; q++) if (byname.count(n + il[q])) clash = true;
      log += strf("add %s %s; ", n.c_str(), ti.c_str()); bool cst = c.b(1, 5);
      if (clash) { // refused, nothing half-way for the caller to use
        bool ex = c.exits([&] { AddVar(S_(n), S_(ti), (char*) "d"); }); c.describe("%s", log.c_str()); c.check(ex, "a second variable of the same name was accepted"); return; }
      if (cst && !g) AddConstantVar(S_(n), S_(ti), (char*) "d"); else { cst = false; if (g) AddVarToGrid(g, S_(n), S_(ti), (char*) "d"); else AddVar(S_(n), S_(ti), (char*) "d"); }
      for (int q = 0; q < nl; q++) { MV m; m.name = n + il[q]; m.ti = ti; m.comp = q; m.nc = nl; for (int d = 0; d < 3; d++) m.sym[d] = sy[3 * q + d]; m.far = m.fall = m.prop = 0; m.cst = cst; byname[m.name] = M.size(); M.push_back(m); }
    } else if (k == 2 && !M.empty()) {
      int i = c.i(0, M.size() - 1); double a = c.sym(3), b = c.sym(3), d = c.sym(3); VarNameSetBoundaryInfo(S_(M[i].name), a, b, d); M[i].far = a; M[i].fall = b; M[i].prop = d; log += "binfo " + M[i].name + "; ";
    } else if (k == 3 && !M.empty()) {
      int i = c.i(0, M.size() - 1); VarNameSetConstantFlag(S_(M[i].name)); int i0 = i - M[i].comp; for (int q = 0; q < M[i].nc; q++) M[i0 + q].cst = 1; log += "const " + M[i].name + "; ";
    } else if (k == 4 && !M.empty()) { // duplicates of whole variables and of single components
      tVarList* vl = vlalloc(g); vector<int> ids; int nv = c.i(1, 3); vl->time = 1.25;
      for (int q = 0; q < nv; q++) { int i = c.i(0, M.size() - 1); i -= M[i].comp; if (std::find(ids.begin(), ids.end(), i) != ids.end()) continue; vlpush(vl, i); for (int r = 0; r < M[i].nc; r++) ids.push_back(i + r); }
      string post = c.pickl<const char*>({"_p", "_q", "_r", "x"}); log += "dup" + post + "("; for (int i : ids) log += M[i].name + " "; log += "); "; dup = true;
      bool en = g && c.b(); tVarList* n = en ? AddDuplicateEnable(vl, S_(post)) : AddDuplicate(vl, S_(post)); vector<int> want;
      for (int i : ids) { string nn = M[i].name + post; if (byname.count(nn)) want.push_back(byname[nn]); else { MV m = M[i]; m.name = nn; want.push_back(M.size()); byname[nn] = M.size(); M.push_back(m); } }
      c.describe("%s", log.c_str()); c.check(n != vl && n->n == (int) want.size() && n->time == 1.25 && n->grid == g && vector<int>(n->index, n->index + n->n) == want, "AddDuplicate returns the wrong list");
      c.check(vector<int>(vl->index, vl->index + vl->n) == ids, "AddDuplicate changed its argument");
      if (en) FORBOXES(g, b) for (int i : want) c.check(g->box[b]->v[i] != nullptr, "AddDuplicateEnable left %s without memory", M[i].name.c_str());
      vlfree(n); vlfree(vl);
    } else if (k == 5 && !g) { g = small_grid(c, c.i(1, 2)); log += "grid; "; c.discard(); }
    c.describe("%s", log.c_str());
    c.check(globalnvariables == (int) M.size(), "%d variables instead of %d", globalnvariables, (int) M.size());
    if (g) c.check(g->nvariables == globalnvariables, "grid has %d variables, the database %d", g->nvariables, globalnvariables);
  }
  for (size_t i = 0; i < M.size(); i++) {
    MV m = read(i); const MV& w = M[i];
    c.check(m.name == w.name && m.ti == w.ti && m.comp == w.comp, "variable %d is %s[%s] component %d instead of %s[%s] component %d", (int) i, m.name.c_str(), m.ti.c_str(), m.comp, w.name.c_str(), w.ti.c_str(), w.comp);
    if ((int) i - w.comp >= 0 && M[i - w.comp].nc == w.nc && M[i - w.comp].comp == 0) c.check(m.nc == w.nc, "%s has %d components instead of %d", w.name.c_str(), m.nc, w.nc);
    c.check(!memcmp(m.sym, w.sym, sizeof w.sym), "%s has symmetry %d %d %d instead of %d %d %d", w.name.c_str(), m.sym[0], m.sym[1], m.sym[2], w.sym[0], w.sym[1], w.sym[2]);
    c.check(m.far == w.far && m.fall == w.fall && m.prop == w.prop && m.cst == w.cst, "%s has wrong boundary information or constant flag", w.name.c_str());
    if (c.b(1, 3)) Set_vdb_iStart_AtPar(S_(M[c.i(0, M.size() - 1)].name));
    c.check(Ind(S_(w.name)) == (int) i && IndLax(S_(w.name)) == (int) i, "Ind(%s) is %d instead of %d", w.name.c_str(), IndLax(S_(w.name)), (int) i);
    c.check(IndComponent0(i) == (int) i - w.comp, "IndComponent0(%s)", w.name.c_str());
    if (w.comp <= (int) i) c.check(VarNameComponent0(S_(w.name)) == M[i - w.comp].name, "VarNameComponent0(%s)", w.name.c_str());
  }
  c.check(IndLax((char*) "no_such_variable") == -1, "IndLax finds what is not there");
  if (dup && M.size() > (size_t) base + 3) c.nontrivial();
}

// lists of variables behave like sequences of indices
PBT(lists, {.quick = 5000, .thorough = 100000}) {
  tGrid* g = small_grid(c, 1); vector<int> v0; for (auto t : {"", "i", "(ij)", "", "ij"}) { string n = strf("q%d", (int) v0.size()); AddVarToGrid(g, S_(n), (char*) t, (char*) "d"); v0.push_back(globalnvariables - 1 - VarComponent(globalnvariables - 1)); }
  int lo = v0[0], hi = globalnvariables - 1; vector<tVarList*> L; vector<vector<int>> M; vector<double> T; L.push_back(vlalloc(g)); M.push_back({}); T.push_back(g->time);
  string log; int nops = c.i(1, 30); 
  for (int op = 0; op < nops; op++) {
    int a = c.i(0, L.size() - 1), k = c.i(0, 9);
    if (k == 0) { int v = c.i(lo, hi); vlpushone(L[a], v); M[a].push_back(v); log += strf("pushone %d %d; ", a, v); }
    else if (k <= 2) { int v = c.pick(v0); vlpush(L[a], v); for (int q = 0; q < VarNComponents(v); q++) M[a].push_back(v + q); log += strf("push %d %d; ", a, v); }
    else if (k == 3) { int b = c.i(0, L.size() - 1); if (a == b) continue; vlpushvl(L[a], L[b]); M[a].insert(M[a].end(), M[b].begin(), M[b].end()); log += strf("pushvl %d %d; ", a, b); }
    else if (k == 4) { int v = c.i(lo, hi); vldropone(L[a], v); auto it = std::find(M[a].begin(), M[a].end(), v); if (it != M[a].end()) M[a].erase(it); log += strf("dropone %d %d; ", a, v); }
    else if (k == 5) { int v = c.pick(v0); vldrop(L[a], v); for (int q = 0; q < VarNComponents(v); q++) { auto it = std::find(M[a].begin(), M[a].end(), v + q); if (it != M[a].end()) M[a].erase(it); } log += strf("drop %d %d; ", a, v); }
    else if (k == 6) { int n = c.i(-1, 5); vldropn(L[a], n); if (n > 0) M[a].resize(std::max(0, (int) M[a].size() - n)); log += strf("dropn %d %d; ", a, n); }
    else if (k == 7 && L.size() < 4) { L.push_back(vlduplicate(L[a])); M.push_back(M[a]); T.push_back(T[a]); log += strf("dup %d; ", a); }
    else if (k == 8) { T[a] = L[a]->time = c.sym(5); }
    else if (k == 9 && c.b(1, 3)) { int v = c.pick(v0); bool had = g->box[0]->v[v]; tVarList* vl = VLPtrEnable1(g, VarName(v)); c.check(vl->n == VarNComponents(v) && vl->index[0] == v && g->box[0]->v[v + vl->n - 1], "VLPtrEnable1"); VLDisableFree(vl); c.check(!g->box[0]->v[v], "VLDisableFree"); }
    c.describe("%s", log.c_str());
    for (size_t l = 0; l < L.size(); l++) c.check(L[l]->n == (int) M[l].size() && std::equal(M[l].begin(), M[l].end(), L[l]->index) && L[l]->time == T[l] && L[l]->grid == g, "list %d is wrong after operation %d", (int) l, op);
  }
  if (L.size() > 1) c.nontrivial(); for (auto l : L) vlfree(l);
}

// arithmetic on lists
static bool eq(double a, double b, double s) { return (a != a && b != b) || a == b || fabs(a - b) <= 4e-16 * s; }
PBT(arithmetic, {.quick = 6000, .thorough = 120000}) {
  int nb = c.i(1, 3); tGrid* g = small_grid(c, nb); int nl = c.i(2, 4), len = c.i(1, 3); vector<tVarList*> L; vector<vector<int>> id(nl); int vtot = 0;
  for (int l = 0; l < nl; l++) { L.push_back(vlalloc(g)); for (int q = 0; q < len; q++) { string n = strf("w%d_%d", l, q); AddVarToGrid(g, S_(n), (char*) "", (char*) ""); id[l].push_back(Ind(S_(n))); } 
    std::reverse(id[l].begin(), id[l].begin() + c.i(0, len)); for (int v : id[l]) vlpushone(L[l], v); }
  AddVarToGrid(g, (char*) "other", (char*) "i", (char*) ""); enablevar(g, Ind((char*) "otherx"));
  std::map<BV, vector<double>> M; bool inact = false; 
  for (int b = 0; b < nb; b++) if (c.b(1, 4)) { g->box[b]->inactive = 1; inact = true; }
  bool special = c.b(1, 4); vector<double> sp = {0.0, -0.0, NAN, INFINITY, -INFINITY, 1e308, -1e308, 5e-324, 1.0};
  for (auto l : L) vlenable(l);
  for (int b = 0; b < nb; b++) for (int v = 0; v < g->nvariables; v++) if (g->box[b]->v[v]) { auto r = rnd(c, g->box[b]->nnodes); if (special) for (auto& x : r) if (x > 0) x = sp[(int) (x * 97) % sp.size()]; std::copy(r.begin(), r.end(), g->box[b]->v[v]); M[BV(b, v)] = r; }
  vector<double> T(nl); for (int l = 0; l < nl; l++) T[l] = L[l]->time = c.sym(4);
  string log; int nops = c.i(1, 12);
  auto coef = [&] { return c.b(1, 4) ? 0.0 : c.b(1, 4) ? 1.0 : c.b(1, 4) ? -1.0 : c.sym(3); };
  auto each = [&](int l, auto f) { for (int b = 0; b < nb; b++) if (!g->box[b]->inactive) for (int q = 0; q < len; q++) { auto& R = M[BV(b, id[l][q])]; for (size_t i = 0; i < R.size(); i++) f(b, q, i, R[i]); } };
  auto at = [&](int b, int l, int q, size_t i) -> double { return M[BV(b, id[l][q])][i]; };
  std::map<BV, vector<double>> scale; // allowed rounding
  for (int op = 0; op < nops; op++) {
    int r = c.i(0, nl - 1), a = c.i(0, nl - 1), b2 = c.i(0, nl - 1), k = c.i(0, 9); std::map<BV, vector<double>> M0 = M; double tol = 0, S = 0; auto at0 = [&](int b, int l, int q, size_t i) { return M0[BV(b, id[l][q])][i]; };
    std::map<BV, vector<double>> sc;
    auto setv = [&](int b, int q, size_t i, double& x, double val, double s) { x = val; auto& z = sc[BV(b, id[r][q])]; z.resize(M[BV(b, id[r][q])].size()); z[i] = s; };
    vector<int> hide; // variables that must not be read: take their memory away
    if (k == 0) { double v = special ? c.pick(sp) : c.sym(3); log += strf("set %d=%g; ", r, v); vlsetconstant(L[r], v); each(r, [&](int, int, size_t, double& x) { x = v; }); }
    else if (k == 1) { log += strf("copy %d=%d; ", r, a); if (c.b()) vlcopy(L[r], L[a]); else vlcopygrid(g, L[r], L[a]); T[r] = T[a]; each(r, [&](int b, int q, size_t i, double& x) { x = at0(b, a, q, i); }); }
    else if (k == 2) { if (r == a) continue; log += strf("swap %d,%d; ", r, a); vlswap(L[r], L[a]); std::swap(T[r], T[a]); each(r, [&](int b, int q, size_t i, double& x) { x = at0(b, a, q, i); }); each(a, [&](int b, int q, size_t i, double& x) { x = at0(b, r, q, i); }); }
    else if (k == 3) { log += strf("avg %d=%d,%d; ", r, a, b2); vlaverage(L[r], L[a], L[b2]); T[r] = 0.5 * (T[a] + T[b2]); each(r, [&](int b, int q, size_t i, double& x) { double u = at0(b, a, q, i), v = at0(b, b2, q, i); setv(b, q, i, x, 0.5 * (u + v), fabs(u) + fabs(v)); }); }
    else if (k == 4) { log += strf("sub %d=%d-%d; ", r, a, b2); vlsubtract(L[r], L[a], L[b2]); T[r] = T[a] - T[b2]; each(r, [&](int b, int q, size_t i, double& x) { x = at0(b, a, q, i) - at0(b, b2, q, i); }); }
    else if (k <= 6) { double ca = coef(), cb = coef(); log += strf("add %d=%g*%d+%g*%d; ", r, ca, a, cb, b2);
      if (ca == 0 && a != r && (a != b2 || cb == 0)) hide.push_back(a); if (cb == 0 && b2 != r && (b2 != a || ca == 0)) hide.push_back(b2);
      vector<double*> save; for (int h : hide) for (int b = 0; b < nb; b++) for (int v : id[h]) { save.push_back(g->box[b]->v[v]); g->box[b]->v[v] = nullptr; }
      vladd(L[r], ca, L[a], cb, L[b2]); { size_t z = 0; if (hide.size() == 2 && hide[0] == hide[1]) hide.pop_back(), save.resize(save.size() / 2); for (int h : hide) for (int b = 0; b < nb; b++) for (int v : id[h]) g->box[b]->v[v] = save[z++]; }
      T[r] = ca == 0 ? (cb == 0 ? 0 : cb * T[b2]) : cb == 0 ? ca * T[a] : ca * T[a] + cb * T[b2];
      each(r, [&](int b, int q, size_t i, double& x) { double u = ca == 0 ? 0 : ca * at0(b, a, q, i), v = cb == 0 ? 0 : cb * at0(b, b2, q, i); setv(b, q, i, x, ca == 0 ? (cb == 0 ? 0.0 : v) : cb == 0 ? u : u + v, fabs(u) + fabs(v)); }); }
    else if (k == 7) { double ca = coef(); log += strf("addto %d+=%g*%d; ", r, ca, a); vladdto(L[r], ca, L[a]); if (ca != 0) { T[r] += ca * T[a]; each(r, [&](int b, int q, size_t i, double& x) { double u = at0(b, r, q, i), v = ca * at0(b, a, q, i); setv(b, q, i, x, u + v, fabs(u) + fabs(v)); }); } }
    else if (k == 8) { int q0 = c.i(0, len - 1), q1 = c.i(0, len - 1), ir = id[r][q0], ia = id[a][q1]; if (c.b()) { log += strf("varcopy %d=%d; ", ir, ia); varcopy(g, ir, ia); for (int b = 0; b < nb; b++) if (!g->box[b]->inactive) M[BV(b, ir)] = M0[BV(b, ia)]; }
      else { log += strf("varswap %d,%d; ", ir, ia); varswap(g, ir, ia); for (int b = 0; b < nb; b++) if (!g->box[b]->inactive) { M[BV(b, ir)] = M0[BV(b, ia)]; M[BV(b, ia)] = M0[BV(b, ir)]; } } }
    else { double ca = coef(), cb = coef(); int q0 = c.i(0, len - 1), q1 = c.i(0, len - 1), q2 = c.i(0, len - 1), ir = id[r][q0], ia = id[a][q1], ib = id[b2][q2]; log += strf("varadd %d=%g*%d+%g*%d; ", ir, ca, ia, cb, ib); varadd(g, ir, ca, ia, cb, ib);
      for (int b = 0; b < nb; b++) if (!g->box[b]->inactive) for (size_t i = 0; i < M[BV(b, ir)].size(); i++) { double u = ca == 0 ? 0 : ca * M0[BV(b, ia)][i], v = cb == 0 ? 0 : cb * M0[BV(b, ib)][i]; setv(b, q0, i, M[BV(b, ir)][i], ca == 0 ? (cb == 0 ? 0.0 : v) : cb == 0 ? u : u + v, fabs(u) + fabs(v)); } }
    c.describe("%s", log.c_str());
    for (auto& p : M) { tBox* B = g->box[p.first.first]; auto it = sc.find(p.first);
      for (size_t i = 0; i < p.second.size(); i++) { double got = B->v[p.first.second][i], w = p.second[i];
        bool ok = it == sc.end() ? (same_bits(got, w) || (w != w && got != got)) : eq(got, w, it->second[i]);
        c.check(ok, "after '%s': variable %s box %d point %d is %.17g instead of %.17g", log.c_str(), VarName(p.first.second), p.first.first, (int) i, got, w); p.second[i] = got; } }
    for (int l = 0; l < nl; l++) c.check(eq(L[l]->time, T[l], 10) , "after '%s': time of list %d is %.17g instead of %.17g", log.c_str(), l, L[l]->time, T[l]), T[l] = L[l]->time;
  }
  // norms
  int a = c.i(0, nl - 1), b2 = c.i(0, nl - 1); ld s = 0, d = 0, sa = 0; size_t n = 0; bool act = false;
  each(a, [&](int b, int q, size_t i, double& x) { s += (ld) x * x; ld t = (ld) x * at(b, b2, q, i); d += t; sa += fabsl(t); n++; act = true; });
  if (act && !special) { double w = sqrt((double) (s / n)); c.check(near(GridL2Norm(L[a]), w, 1e-14 * w), "GridL2Norm %.17g instead of %.17g", GridL2Norm(L[a]), w); c.check(near(GridDotProduct(L[a], L[b2]), (double) d, 1e-14 * (double) sa), "GridDotProduct");
    int bb = c.i(0, nb - 1), q = c.i(0, len - 1); ld t = 0, t1 = 0; for (int r = 0; r < len; r++) for (double x : M[BV(bb, id[a][r])]) t += (ld) x * x; for (double x : M[BV(bb, id[a][q])]) t1 += (ld) x * x; int N = g->box[bb]->nnodes;
    w = sqrt((double) (t / (N * len))); c.check(near(BoxL2Norm(bb, L[a]), w, 1e-14 * w), "BoxL2Norm"); w = sqrt((double) (t1 / N)); c.check(near(varBoxL2Norm(g->box[bb], id[a][q]), w, 1e-14 * w), "varBoxL2Norm"); }
  if (nops > 3) c.nontrivial(); if (inact) c.label("inactive box"); if (special) c.label("special values");
}

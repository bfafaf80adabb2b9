// C30: BSSN and Z4 formulations against the ADM equations
#include "adm.h"
using namespace pbt;
extern "C" {
extern tVarList* BSSNvars __attribute__((weak)); extern tVarList* Z4secondOvars __attribute__((weak));
int BSSN_startup(tGrid*) __attribute__((weak)); int BSSNtoADM(tGrid*) __attribute__((weak)); void BSSN_rhs(tVarList*, tVarList*, double, tVarList*) __attribute__((weak)); void BSSN_AlgConstr(tVarList*) __attribute__((weak)); void BSSN_ChooseAndApplyFilters(tVarList*) __attribute__((weak)); int BSSN_enforce_AlgConstr(tGrid*) __attribute__((weak));
int Z4secondO_startup(tGrid*) __attribute__((weak)); void Z4secondO_rhs(tVarList*, tVarList*, double, tVarList*) __attribute__((weak)); int set_K_initial(tGrid*) __attribute__((weak)); int SingleBH(tGrid*) __attribute__((weak)); }
static int I(const char* n) { return Ind((char*) n); }
static const char* PHYS = "ADMvars BSSN Z4secondO SingleBH";
static bool have() { return BSSN_startup && BSSN_rhs && &BSSNvars; }
static void pos(tBox* q, int p, ld* x) { const char* N[] = {"x", "y", "z"}; const char* X[] = {"X", "Y", "Z"}; for (int k = 0; k < 3; k++) x[k] = q->v[I(N[k])] ? q->v[I(N[k])][p] : q->v[I(X[k])][p]; }
static vector<BoxSpec> gen_boxes(Case& c, int nmin, int nmax, double lo, double hi, int most = 2) { vector<BoxSpec> S(c.i(1, most)); for (auto& s : S) for (auto& d : s.d) { d = {c.i(nmin, nmax), c.sym(1), 0, c.b() ? "ChebExtrema" : "ChebZeros", "64 NUMREC_FFT"}; d.b = d.a + c.u(lo, hi); } return S; }
static double extent(const vector<BoxSpec>& S) { double L = 0; for (auto& s : S) for (auto& d : s.d) L = std::max(L, std::max(fabs(d.a), fabs(d.b))); return L; }
static double width(const vector<BoxSpec>& S) { double w = 1e9; for (auto& s : S) for (auto& d : s.d) w = std::min(w, d.b - d.a); return w; }
static Poly cst(ld v, double L) { Poly p; p.L = L; p.e.push_back({0, 0, 0}); p.co.push_back(v); return p; }
static Poly norm(const Poly& a) { std::map<std::array<int, 3>, ld> m; for (size_t t = 0; t < a.e.size(); t++) m[a.e[t]] += a.co[t]; Poly r; r.L = a.L; for (auto& q : m) if (q.second != 0) { r.e.push_back(q.first); r.co.push_back(q.second); } return r; }
static Poly operator*(const Poly& a, const Poly& b) { Poly r; r.L = a.L; for (size_t i = 0; i < a.e.size(); i++) for (size_t j = 0; j < b.e.size(); j++) { r.e.push_back({a.e[i][0]+b.e[j][0], a.e[i][1]+b.e[j][1], a.e[i][2]+b.e[j][2]}); r.co.push_back(a.co[i] * b.co[j]); } return norm(r); }
static Poly operator+(const Poly& a, const Poly& b) { Poly r = a; r.L = std::max(a.L, b.L); r.e.insert(r.e.end(), b.e.begin(), b.e.end()); r.co.insert(r.co.end(), b.co.begin(), b.co.end()); return norm(r); }
static Poly operator*(ld s, Poly a) { for (ld& v : a.co) v *= s; return a; }
static Poly diff(const Poly& a, int k) { Poly r; r.L = a.L; for (size_t t = 0; t < a.e.size(); t++) if (a.e[t][k]) { auto e = a.e[t]; ld f = a.co[t] * e[k] / a.L; e[k]--; r.e.push_back(e); r.co.push_back(f); } return r; }
// polynomial BSSN data: det g = 1 and tr A = 0 hold exactly
struct BS { Poly g[6], A[6], gu[6], K, phi, lp, al, be[3], B[3], G[3], K0, RHS; ld al0; double L;
  const Poly& G2(const Poly* q, int i, int j) const { return q[ADMdata::at(i, j)]; }
  ADMpt phys(const ld* x) const { ADMpt o; memset(&o, 0, sizeof o); ld F = expl(4 * (phi.val(x) + lp.val(x))), f1[3], dF[3], ddF[3][3]; for (int a = 0; a < 3; a++) { f1[a] = phi.val(x, a) + lp.val(x, a); dF[a] = 4 * F * f1[a]; } for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) ddF[a][b] = F * (4 * (phi.val(x, a, b) + lp.val(x, a, b)) + 16 * f1[a] * f1[b]);
    o.al = al0 + al.val(x); for (int a = 0; a < 3; a++) { o.dal[a] = al.val(x, a); o.be[a] = be[a].val(x); for (int b = 0; b < 3; b++) { o.ddal[a][b] = al.val(x, a, b); o.dbe[a][b] = be[a].val(x, b); for (int d = 0; d < 3; d++) o.ddbe[a][b][d] = be[a].val(x, b, d); } }
    ld k = K.val(x), dk[3]; for (int a = 0; a < 3; a++) dk[a] = K.val(x, a);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { const Poly &p = G2(g, i, j), &q = G2(A, i, j); ld v = p.val(x), w = q.val(x) + v * k / 3; o.g[i][j] = F * v; o.K[i][j] = F * w; for (int a = 0; a < 3; a++) { ld dv = p.val(x, a); o.dg[i][j][a] = F * dv + dF[a] * v; o.dK[i][j][a] = F * (q.val(x, a) + dv * k / 3 + v * dk[a] / 3) + dF[a] * w; for (int b = 0; b < 3; b++) o.ddg[i][j][a][b] = F * p.val(x, a, b) + dF[a] * p.val(x, b) + dF[b] * dv + ddF[a][b] * v; } }
    o.geom(); return o; }
  // d/dt of the inverse conformal metric
  void dtgu(const ld* x, ld o[3][3]) const { ld r[3][3], u[3][3], b[3], db[3][3], a = al0 + al.val(x), div = 0; for (int i = 0; i < 3; i++) { b[i] = be[i].val(x); for (int k = 0; k < 3; k++) db[i][k] = be[i].val(x, k); div += db[i][i]; }
    ld gg[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { gg[i][j] = G2(g, i, j).val(x); u[i][j] = G2(gu, i, j).val(x); }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r[i][j] = -2 * a * G2(A, i, j).val(x) - 2 / 3.L * div * gg[i][j]; for (int k = 0; k < 3; k++) r[i][j] += b[k] * G2(g, i, j).val(x, k) + gg[k][j] * db[k][i] + gg[i][k] * db[k][j]; }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { o[i][j] = 0; for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) o[i][j] -= u[i][k] * r[k][l] * u[l][j]; } }
};
static BS gen_bs(Case& c, double L, bool psi) { BS D; D.L = L; Poly low[3]; for (auto& p : low) p = gen_poly(c, L, 1, 0.35) + (c.b() ? cst(c.sym(0.3), L) : Poly{(ld) L, {}, {}}); ld d[3] = {1, 1, 1}; if (c.b()) { d[0] = c.u(0.6, 1.6); d[1] = c.u(0.6, 1.6); d[2] = 1 / (d[0] * d[1]); } int pm[3] = {0, 1, 2}; std::swap(pm[0], pm[c.i(0, 2)]); std::swap(pm[1], pm[c.i(1, 2)]);
  Poly l[3][3]; for (auto& r : l) for (auto& p : r) p.L = L; for (int i = 0; i < 3; i++) l[i][i] = cst(1, L); l[1][0] = low[0]; l[2][0] = low[1]; l[2][1] = low[2];
  auto g3 = [&](int i, int j) { Poly s; s.L = L; for (int k = 0; k < 3; k++) s = s + d[k] * (l[i][k] * l[j][k]); return s; };
  for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) D.g[ADMdata::at(pm[i], pm[j])] = g3(i, j);
  auto g = [&](int i, int j) -> const Poly& { return D.g[ADMdata::at(i, j)]; };
  for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) { int a = (i + 1) % 3, b = (i + 2) % 3, p = (j + 1) % 3, q = (j + 2) % 3; D.gu[ADMdata::at(i, j)] = g(a, p) * g(b, q) + (-1) * (g(a, q) * g(b, p)); }
  Poly S[6], tr; tr.L = L; bool k = !c.b(1, 6); for (auto& p : S) p = gen_poly(c, L, 1, k ? 0.5 : 0, 2); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) tr = tr + D.gu[ADMdata::at(i, j)] * S[ADMdata::at(i, j)];
  for (int q = 0; q < 6; q++) D.A[q] = S[q] + (-1/3.L) * (D.g[q] * tr);
  D.K = gen_poly(c, L, 2, k ? 0.7 : 0); D.phi = gen_poly(c, L, 3, 0.15); D.lp = psi ? gen_poly(c, L, 3, 0.15) : cst(0, L); D.al0 = c.b() ? 1 : c.u(0.4, 1.8); D.al = gen_poly(c, L, 3, 0.1); bool sh = !c.b(1, 4); for (auto& p : D.be) p = gen_poly(c, L, 3, sh ? 0.5 : 0); for (auto& p : D.B) p = gen_poly(c, L, 2, 0.5); D.K0 = gen_poly(c, L, 2, 0.5); D.RHS = gen_poly(c, L, 2, 0.5);
  for (int i = 0; i < 3; i++) { D.G[i].L = L; for (int j = 0; j < 3; j++) D.G[i] = D.G[i] + (-1) * diff(D.gu[ADMdata::at(i, j)], j); }
  return D; }
static const int NEED = 9; // points that resolve the data (degree of A is 7, of G 3)
static bool onval(Case& c, const char* p) { bool y = c.b(); setpar(p, y ? "yes" : "no"); return y; }
static void put_psi(tGrid* g, const BS& D) { FORBOXES(g, b) { tBox* q = g->box[b]; for (int p = 0; p < q->nnodes; p++) { ld x[3]; pos(q, p, x); q->v[I("psi")][p] = (double) expl(D.lp.val(x)); for (int k = 0; k < 3; k++) q->v[I("dpsiopsix") + k][p] = (double) D.lp.val(x, k); for (int k = 0; k < 6; k++) { int i = S6[k][0], j = S6[k][1]; q->v[I("ddpsiopsixx") + k][p] = (double) (D.lp.val(x, i, j) + D.lp.val(x, i) * D.lp.val(x, j)); } } } }
static void adm_vars(tGrid* g) { for (const char* v : {"gxx", "Kxx", "alpha", "betax", "betadotx", "psi", "dpsiopsix", "ddpsiopsixx", "K_initial", "ADMvars_dgxxx", "ADMvars_ddgxxxx", "ADMvars_dKxxx", "temp1", "temp2", "temp3"}) enablevar(g, I(v)); psiandderivs->grid = g; K_initial->grid = g; }
static void put_adm(tGrid* g, const BS& D) { put_psi(g, D); FORBOXES(g, b) { tBox* q = g->box[b]; for (int p = 0; p < q->nnodes; p++) { ld x[3]; pos(q, p, x); ld q4 = expl(4 * D.phi.val(x)), F = q4 * expl(4 * D.lp.val(x)), k = D.K.val(x); for (int m = 0; m < 6; m++) { q->v[I("gxx") + m][p] = (double) (q4 * D.g[m].val(x)); q->v[I("Kxx") + m][p] = (double) (F * (D.A[m].val(x) + D.g[m].val(x) * k / 3)); }
  q->v[I("alpha")][p] = (double) (D.al0 + D.al.val(x)); for (int m = 0; m < 3; m++) { q->v[I("betax") + m][p] = (double) D.be[m].val(x); q->v[I("betadotx") + m][p] = (double) D.B[m].val(x); } q->v[I("K_initial")][p] = (double) D.K0.val(x); } } }
static vector<int> sample(Case& c, int n, int k) { vector<int> s; if (n <= k) { for (int i = 0; i < n; i++) s.push_back(i); return s; } for (int i = 0; i < k; i++) s.push_back(c.i(0, n - 1)); return s; }

PBT(conversion, {.quick = 700, .thorough = 15000, .cpu_s = 60}) {
  if (!have()) { c.label("no function"); return; }
  setpar("physics", PHYS); auto S = gen_boxes(c, NEED, NEED + 3, 0.6, 2); double L = extent(S); bool psi = c.b(2, 3); double w = c.b() ? 1 : c.pickl<double>({0, 0.5, 2, -1}); setpar("BSSN_alphaDensityWeight", strf("%.17g", w));
  BS D = gen_bs(c, L, psi); tGrid* g = new_grid(S, true, {{"Coordinates_set_bfaces", "no"}}); adm_vars(g); put_adm(g, D); c.describe("boxes %d %s%s w=%g", (int) S.size(), specstr(S[0]).c_str(), psi ? " psi" : "", w); c.nontrivial();
  vector<vector<double>> old; FORBOXES(g, b) for (const char* v : {"gxx", "Kxx"}) for (int m = 0; m < 6; m++) old.push_back(all_of(g->box[b], I(v) + m));
  BSSN_startup(g); double wd = width(S);
  FORBOXES(g, b) { tBox* q = g->box[b]; auto V = [&](const char* n, int k, int p) { return (ld) q->v[I(n) + k][p]; };
    for (int p = 0; p < q->nnodes; p++) { ld x[3], gt[3][3], At[3][3], gu[3][3], gm = 0; pos(q, p, x); for (int m = 0; m < 6; m++) { int i = S6[m][0], j = S6[m][1]; gt[i][j] = gt[j][i] = V("BSSN_gxx", m, p); At[i][j] = At[j][i] = V("BSSN_Axx", m, p); gm = std::max(gm, fabsl(gt[i][j])); } ld det = det3(gt), tr = 0, eps = 1e-13L * (1 + gm*gm*gm) * (1 + gm*gm); inv3(gt, gu);
      ld am = 0; for (auto& r : At) for (ld v : r) am = std::max(am, fabsl(v)); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) tr += gu[i][j] * At[i][j];
      c.check(fabsl(det - 1) <= eps, "det of the conformal metric is 1%+.3Lg", det - 1); ld k = D.K.val(x); c.check(fabsl(tr) <= eps * (1 + am + fabsl(k)), "trace of A is %Lg", tr);
      auto cmp = [&](const char* n, ld v, ld e, ld tol) { c.check(fabsl(v - e) <= tol * (1 + fabsl(e)), "%s at (%Lg,%Lg,%Lg) box %d: %.15Lg instead of %.15Lg", n, x[0], x[1], x[2], b, v, e); };
      for (int m = 0; m < 6; m++) { cmp("conformal metric", V("BSSN_gxx", m, p), D.g[m].val(x), eps); cmp("A", V("BSSN_Axx", m, p), D.A[m].val(x), eps * (1 + am + fabsl(k))); }
      cmp("phi", V("BSSN_phi", 0, p), D.phi.val(x), eps); cmp("K", V("BSSN_K", 0, p), k, eps * (1 + am + fabsl(k))); ld al = D.al0 + D.al.val(x), ka = al * expl(-6 * (ld) w * (D.phi.val(x) + D.lp.val(x))); cmp("densitised lapse", V("BSSN_alphaDensity", 0, p), ka, eps * 10);
      for (int m = 0; m < 3; m++) cmp("G", V("BSSN_Gx", m, p), D.G[m].val(x), 3e-12L * (1 + gm*gm*gm) * (1 + gm) * (1 + 1 / wd)); ld bd = 0; for (int m = 0; m < 3; m++) bd += D.be[m].val(x) * D.al.val(x, m); cmp("term that holds the lapse constant", V("BSSN_alphaRHSterm", 0, p), al * al * k - bd, 1e-11L * (1 + 1 / wd) * (1 + am)); } }
  FORBOXES(g, b) for (const char* v : {"gxx", "Kxx"}) for (int m = 0; m < 6; m++) { tBox* q = g->box[b]; for (int p = 0; p < q->nnodes; p++) q->v[I(v) + m][p] = 1e30; }
  BSSNtoADM(g); size_t t = 0; FORBOXES(g, b) for (const char* v : {"gxx", "Kxx"}) for (int m = 0; m < 6; m++, t++) { double s = maxabs(old[t]); for (int e = 0; e < 6; e++) s = std::max(s, maxabs(old[t / 6 * 6 + e])); double d = maxdiff(old[t].data(), g->box[b]->v[I(v) + m], old[t].size()); c.check(d <= 2e-12 * (s + (v[0] == 'K')), "%s component %d changed by %g in the round trip (size %g)", v, m, d, s); }
}
static tVarList* dup(tVarList* v, const char* s) { return AddDuplicateEnable(v, (char*) s); }
enum { G_ = 0, PHI_ = 6, A_ = 7, K_ = 13, GA_ = 14, AL_ = 17, BE_ = 18, B_ = 21, AD_ = 24 };
struct Flags { double lam, yo, lpp, hf, spp, sap, sgc, drv, w, stop; bool repl, dd, gentle, freeze, kzero, subK0, sliea, sRHS, sshift; string lapse, shift; };
static Flags gen_flags(Case& c, bool dens) { Flags f; f.lam = c.b() ? 1 : c.pickl<double>({0, 0.5, -1, 2}); f.yo = c.b() ? 0 : c.sym(2); f.lpp = c.b() ? 0 : c.i(-2, 4); f.hf = c.b() ? 2 : c.u(0.5, 3); f.spp = c.b() ? 0 : c.i(-2, 4); f.sap = c.b() ? 0 : c.i(-1, 2); f.sgc = c.b() ? 0.75 : c.u(0, 2); f.drv = c.b() ? 0 : c.u(0, 3); f.w = c.b() ? 1 : c.pickl<double>({0, 0.5, 2}); f.stop = c.b(2, 3) ? -1 : c.pickl<double>({0, 1, 2});
  f.repl = c.b(); f.dd = c.b(); f.gentle = c.b(1, 4); f.freeze = c.b(1, 6); f.kzero = false; f.subK0 = c.b(); int k = c.i(0, 3); f.lapse = k == 0 ? "constant" : k == 1 ? "1+log" : k == 2 ? "1+log2" : "harmonic"; f.sshift = c.b(); f.sliea = c.b(); f.sRHS = c.b(); f.shift = c.pickl<const char*>({"constant", "gamma0", "gamma2"});
  string l = f.lapse; vector<string> ex; if (f.sshift) ex.push_back("withshift"); if (f.sliea) ex.push_back("addliealpha"); if (f.sRHS) ex.push_back("addalphaRHSterm"); while (ex.size()) { int j = c.i(0, (int) ex.size() - 1); l = c.b() ? l + " " + ex[j] : ex[j] + " " + l; ex.erase(ex.begin() + j); }
  auto num = [](double v) { return strf("%.17g", v); }; setpar("BSSN_RtoRminusHfactor", num(f.lam)); setpar("BSSN_YoTermFactor", num(f.yo)); setpar("BSSN_lapsepsipower", num(f.lpp)); setpar("BSSN_lapseharmonicf", num(f.hf)); setpar("BSSN_shiftpsipower", num(f.spp)); setpar("BSSN_shiftalphapower", num(f.sap)); setpar("BSSN_shiftgammacoeff", num(f.sgc)); setpar("BSSN_shiftdriver", num(f.drv)); setpar("BSSN_alphaDensityWeight", num(f.w)); setpar("BSSN_shift_stop_time", num(f.stop));
  auto yn = [](bool b) { return b ? "yes" : "no"; }; setpar("BSSN_GReplacedBydg", yn(f.repl)); setpar("BSSN_useDD", yn(f.dd)); setpar("BSSN_GentlePhiRHS", yn(f.gentle)); setpar("BSSN_freezeGamma", yn(f.freeze)); setpar("BSSN_subtractK0", yn(f.subK0)); setpar("BSSN_lapse", l); setpar("BSSN_shift", f.shift); (void) dens; return f; }
static void put_bssn(tGrid* g, tVarList* u, const BS& D, double w) { FORBOXES(g, b) { tBox* q = g->box[b]; for (int p = 0; p < q->nnodes; p++) { ld x[3]; pos(q, p, x); auto set = [&](int k, ld v) { vlldataptr(u, q, k)[p] = (double) v; }; for (int m = 0; m < 6; m++) { set(G_ + m, D.g[m].val(x)); set(A_ + m, D.A[m].val(x)); } set(PHI_, D.phi.val(x)); set(K_, D.K.val(x)); for (int m = 0; m < 3; m++) { set(GA_ + m, D.G[m].val(x)); set(BE_ + m, D.be[m].val(x)); set(B_ + m, D.B[m].val(x)); } ld al = D.al0 + D.al.val(x); set(AL_, al); set(AD_, al * expl(-6 * (ld) w * (D.phi.val(x) + D.lp.val(x)))); q->v[I("K_initial")][p] = (double) D.K0.val(x); q->v[I("BSSN_alphaRHSterm")][p] = (double) D.RHS.val(x); } } }
static double now(Case& c, tGrid* g) { return g->time = c.b() ? 0 : c.pickl<double>({0.5, 1, 1.5, 3}); }

PBT(rhs, {.quick = 600, .thorough = 12000, .cpu_s = 60}) {
  if (!have()) { c.label("no function"); return; }
  setpar("physics", PHYS); auto S = gen_boxes(c, NEED, NEED + 2, 0.6, 2); double L = extent(S), wd = width(S); bool psi = c.b(2, 3); BS D = gen_bs(c, L, psi); Flags f = gen_flags(c, false); bool off = c.b(1, 3); Poly dG[3]; for (auto& p : dG) p = gen_poly(c, L, 2, off ? 0.5 : 0);
  tGrid* g = new_grid(S, true, {{"Coordinates_set_bfaces", "no"}}); adm_vars(g); put_adm(g, D); BSSN_startup(g); tVarList* u = BSSNvars; put_bssn(g, u, D, f.w); tVarList *n = dup(u, "_n"), *pre = dup(u, "_p"); double t = now(c, g);
  c.describe("boxes %d %s%s lapse %s shift %s stop %g t %g lambda %g Yo %g%s%s%s%s%s", (int) S.size(), specstr(S[0]).c_str(), psi ? " psi" : "", Gets((char*) "BSSN_lapse"), f.shift.c_str(), f.stop, t, f.lam, f.yo, f.repl ? " G replaced" : "", f.dd ? " DD" : "", f.gentle ? " gentle" : "", f.freeze ? " freeze" : "", off ? " G off" : ""); c.nontrivial(); c.label(f.lapse); c.label("shift " + f.shift);
  if (off) FORBOXES(g, b) for (int p = 0; p < g->box[b]->nnodes; p++) { ld x[3]; pos(g->box[b], p, x); for (int m = 0; m < 3; m++) vlldataptr(u, g->box[b], GA_ + m)[p] += (double) dG[m].val(x); }
  Snap sn; std::set<BV> ex; FORBOXES(g, b) for (int k = 0; k < g->nvariables; k++) { string nm = VarName(k); if (nm.find("ADMvars_d") == 0 || nm.find("BSSN_d") == 0 || nm.find("temp") == 0 || (nm.size() > 2 && nm.substr(nm.size() - 2) == "_n")) ex.insert(BV(b, k)); } sn.add(g, ex);
  BSSN_rhs(n, pre, 0, u); c.check(sn.same(), "BSSN_rhs changed %s", sn.bad().c_str());
  bool noncon = f.lapse != "constant", evsh = f.shift != "constant" || true; bool stopped = f.stop >= 0 && t >= f.stop; (void) evsh;
  FORBOXES(g, b) { tBox* q = g->box[b]; for (int p : sample(c, q->nnodes, 25)) { ld x[3]; pos(q, p, x); ADMpt o = D.phys(x); ld F = expl(4 * (D.phi.val(x) + D.lp.val(x))), k = D.K.val(x), gt[3][3], gu[3][3], A[3][3], gm = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { gt[i][j] = o.g[i][j] / F; A[i][j] = o.K[i][j] / F - gt[i][j] * k / 3; } inv3(gt, gu); for (auto& r : gu) for (ld v : r) gm = std::max(gm, fabsl(v)); for (auto& r : gt) for (ld v : r) gm = std::max(gm, fabsl(v));
    ld tol = 2e-12L * (1 + gm) * (1 + gm) * (1 + gm) * (1 + gm) * (1 + o.mag) * (1 + 1 / (wd * wd)) * (1 + 1 / F) * 40; auto cmp = [&](const char* nm, int kk, ld e) { ld v = vlldataptr(n, q, kk)[p]; c.check(fabsl(v - e) <= tol, "%s (variable %d) at (%Lg,%Lg,%Lg) box %d: %.13Lg instead of %.13Lg (tolerance %.2Lg)", nm, kk, x[0], x[1], x[2], b, v, e, tol); };
    ld dg[3][3], dK[3][3], tg = 0, tK = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { dg[i][j] = o.dtg(i, j); dK[i][j] = o.dtK(i, j); } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { tg += o.gu[i][j] * dg[i][j]; tK += o.gu[i][j] * dK[i][j]; for (int l = 0; l < 3; l++) tK -= o.Kud[i][j] * o.gu[j][l] * dg[l][i]; }
    ld df = tg / 12, al = o.al, lie = df + al * k / 6;
    // what G that is not the connection of the metric adds
    ld dRic[3][3], dR = 0, gG[3], ggG[3][3], Gd[3][3][3]; for (int i = 0; i < 3; i++) { gG[i] = off ? dG[i].val(x) : 0; for (int j = 0; j < 3; j++) ggG[i][j] = off ? dG[i].val(x, j) : 0; } for (int m = 0; m < 3; m++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) Gd[m][i][j] = (D.G2(D.g, m, i).val(x, j) + D.G2(D.g, m, j).val(x, i) - D.G2(D.g, i, j).val(x, m)) / 2;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { dRic[i][j] = 0; for (int m = 0; m < 3; m++) { dRic[i][j] += (gt[m][i] * ggG[m][j] + gt[m][j] * ggG[m][i]) / 2; if (!f.repl) dRic[i][j] += gG[m] * (Gd[i][j][m] + Gd[j][i][m]) / 2; } } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) dR += gu[i][j] * dRic[i][j] / F;
    ld H = o.ham + dR;
    for (int m = 0; m < 6; m++) { int i = S6[m][0], j = S6[m][1]; cmp("conformal metric", G_ + m, (dg[i][j] - 4 * df * o.g[i][j]) / F); cmp("A", A_ + m, -4 * df * A[i][j] + (dK[i][j] - dg[i][j] * k / 3 - o.g[i][j] * tK / 3) / F + al * (dRic[i][j] / F - gt[i][j] * dR / 3) + (ld) f.lam * al * H * gt[i][j] / 3); }
    cmp("K", K_, tK - al * o.ham); ld rphi = df; if (f.gentle) { if (fabsl(k * k - fabsl(H)) < 1e-3L * (1 + k * k)) continue; if (k * k > fabsl(H)) rphi = lie + al * (H - 2 / 3.L * k * k) / (4 * k), tol *= 1 + 1 / fabsl(k); } cmp("phi", PHI_, rphi);
    ld rG[3], divb = o.dbe[0][0] + o.dbe[1][1] + o.dbe[2][2]; for (int i = 0; i < 3; i++) { rG[i] = 0; static const ld w8[4] = {4/5.L, -1/5.L, 4/105.L, -1/280.L}; ld h = 2e-3L * L; for (int j = 0; j < 3; j++) { for (int m = 1; m <= 4; m++) for (int sg = -1; sg <= 1; sg += 2) { ld y[3] = {x[0], x[1], x[2]}, mm[3][3]; y[j] += sg * m * h; D.dtgu(y, mm); rG[i] -= sg * w8[m-1] / h * mm[i][j]; } rG[i] += 2 * al * gu[i][j] * o.mom[j]; rG[i] += o.be[j] * ggG[i][j]; if (!f.repl) rG[i] -= gG[j] * o.dbe[i][j]; } if (!f.repl) rG[i] += 2 / 3.L * divb * gG[i]; rG[i] -= (ld) f.yo * gG[i] * divb; if (f.freeze) rG[i] = 0; cmp("G", GA_ + i, rG[i]); }
    ld Ps = expl(D.lp.val(x)), r0 = (6 * f.sshift * lie - al * (k - f.subK0 * D.K0.val(x))) * powl(Ps, f.lpp), ra = noncon ? r0 * (f.lapse == "1+log" ? f.hf : f.lapse == "1+log2" ? 8 / 3.L / (3 - al) : al) : 0; if (f.sliea) for (int i = 0; i < 3; i++) ra += o.be[i] * o.dal[i]; if (f.sRHS) ra += D.RHS.val(x); cmp("lapse", AL_, ra);
    ld bF = f.sgc * powl(al, f.sap) / powl(Ps, f.spp); bool g0 = f.shift == "gamma0", g2 = f.shift == "gamma2"; for (int i = 0; i < 3; i++) { ld B = D.B[i].val(x); cmp("shift", BE_ + i, stopped ? 0 : (g2 + g0 * bF) * B); cmp("betadot", B_ + i, stopped ? 0 : (g0 + g2 * bF) * rG[i] - f.drv * B); } } }
}
PBT(step, {.quick = 600, .thorough = 12000, .cpu_s = 60}) {
  if (!have()) { c.label("no function"); return; }
  setpar("physics", PHYS); auto S = gen_boxes(c, 4, 7, 0.6, 2); double L = extent(S); bool psi = c.b(2, 3); BS D = gen_bs(c, L, psi); Flags f = gen_flags(c, true); int dens = c.i(0, 2); bool gzz = onval(c, "BSSN_recomputegzz"), azz = onval(c, "BSSN_recomputeAzz"), sub = onval(c, "BSSN_subtractA"), nrm = onval(c, "BSSN_normalizedetg"); double dt = (c.b() ? -1 : 1) * c.logu(1e-4, 0.1);
  tGrid* g = new_grid(S, true, {{"Coordinates_set_bfaces", "no"}}); adm_vars(g); put_adm(g, D); BSSN_startup(g); tVarList* u = BSSNvars; put_bssn(g, u, D, f.w); tVarList *n = dup(u, "_n"), *pre = dup(u, "_p"), *r = dup(u, "_r"); double t = now(c, g);
  // what the step starts from need not be what the right hand side is evaluated for
  FORBOXES(g, b) for (int k = 0; k < u->n; k++) { tBox* q = g->box[b]; auto v = rnd(c, q->nnodes); for (int p = 0; p < q->nnodes; p++) vlldataptr(pre, q, k)[p] = vlldataptr(u, q, k)[p] + 0.05 * v[p]; }
  c.describe("boxes %d %s%s lapse %s shift %s t %g dt %g densitised %d%s%s%s%s", (int) S.size(), specstr(S[0]).c_str(), psi ? " psi" : "", Gets((char*) "BSSN_lapse"), f.shift.c_str(), t, dt, dens, gzz ? " gzz" : "", azz ? " Azz" : "", sub ? " subtractA" : "", nrm ? " normalise" : ""); c.nontrivial(); if (dens) c.label("densitised lapse"); if (gzz) c.label("gzz recomputed");
  BSSN_rhs(r, pre, 0, u); if (dens) setpar("BSSN_densitizedLapse", dens == 1 ? "yes" : "1+log_withoutShift"); Snap sn; std::set<BV> ex; FORBOXES(g, b) for (int k = 0; k < g->nvariables; k++) { string nm = VarName(k); if (nm.find("ADMvars_d") == 0 || nm.find("BSSN_d") == 0 || nm.find("temp") == 0 || (nm.size() > 2 && nm.substr(nm.size() - 2) == "_n")) ex.insert(BV(b, k)); } sn.add(g, ex);
  BSSN_rhs(n, pre, dt, u); c.check(sn.same(), "BSSN_rhs changed %s", sn.bad().c_str()); bool noncon = f.lapse != "constant";
  FORBOXES(g, b) { tBox* q = g->box[b]; for (int p = 0; p < q->nnodes; p++) { ld x[3], e[25], G[3][3], A[3][3], gu[3][3], sz = 0; pos(q, p, x); for (int k = 0; k < 24; k++) { e[k] = (ld) vlldataptr(pre, q, k)[p] + (ld) dt * vlldataptr(r, q, k)[p]; sz += fabsl(e[k]); }
    if (gzz) e[5] = (1 + e[3] * e[2] * e[2] - 2 * e[1] * e[4] * e[2] + e[0] * e[4] * e[4]) / (e[0] * e[3] - e[1] * e[1]); // det = 1
    auto mat = [&](int at, ld M[3][3]) { for (int k = 0; k < 6; k++) M[S6[k][0]][S6[k][1]] = M[S6[k][1]][S6[k][0]] = e[at + k]; }; mat(G_, G); inv3(G, gu); ld det = det3(G), gm = 0, gw = 0; for (auto& o : gu) for (ld v : o) gm = std::max(gm, fabsl(v)); for (auto& o : G) for (ld v : o) gw = std::max(gw, fabsl(v)); if (det < 0.05L || gu[2][2] < 0.02L || gm > 100 || e[0] < 0.02L || e[0] * e[3] - e[1] * e[1] < 0.05L) continue; 
    auto trace = [&]() { ld s = 0; mat(A_, A); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) s += gu[i][j] * A[i][j]; return s; }; if (azz) { ld s = trace() - gu[2][2] * e[A_ + 5]; e[A_ + 5] = -s / gu[2][2]; } if (sub) { ld s = trace(); for (int k = 0; k < 6; k++) e[A_ + k] -= s / 3 * e[k]; } if (nrm) { ld a = cbrtl(1 / det); for (int k = 0; k < 6; k++) e[k] *= a; }
    ld fo = D.phi.val(x) + D.lp.val(x), al = D.al0 + D.al.val(x), ad = vlldataptr(u, q, AD_)[p], w = f.w, ra = vlldataptr(r, q, AL_)[p], rphi = vlldataptr(r, q, PHI_)[p], k = D.K.val(x); e[24] = vlldataptr(n, q, AD_)[p];
    if (dens) { ld rd = dens == 1 ? expl(-6 * w * fo) * ra - 6 * w * ad * rphi : ad * (f.hf / al * expl(f.lpp * D.lp.val(x)) - w) * (-al * (k - f.subK0 * D.K0.val(x))); if (!noncon) rd = 0; e[24] = (ld) vlldataptr(pre, q, AD_)[p] + dt * rd; e[17] = e[24] * expl(6 * w * (e[6] + D.lp.val(x))); sz += fabsl(e[24]) + fabsl(e[17]); }
    ld tol = 1e-13L * (1 + sz) * (1 + gm) * (1 + gm) * (1 + gw) * (1 + gw) * (1 + 1 / det) * (azz ? 1 / gu[2][2] : 1) * 30; if (dens) tol *= 1 + expl(6 * fabsl(w * fo)); for (int kk = 0; kk < 25; kk++) { ld v = vlldataptr(n, q, kk)[p]; c.check(fabsl(v - e[kk]) <= tol, "variable %d (%s) at (%Lg,%Lg,%Lg): %.15Lg instead of %.15Lg", kk, VarName(u->index[kk]), x[0], x[1], x[2], v, e[kk]); }
    if (gzz || nrm) { ld M[3][3]; for (int m = 0; m < 6; m++) M[S6[m][0]][S6[m][1]] = M[S6[m][1]][S6[m][0]] = vlldataptr(n, q, m)[p]; c.check(fabsl(det3(M) - 1) <= 1e-12L * (1 + gw) * (1 + gw) * (1 + gw) * 20, "det is 1%+.3Lg", det3(M) - 1); } } }
}
PBT(algebraic_constraints, {.quick = 1500, .thorough = 40000}) {
  if (!have() || !BSSN_AlgConstr) { c.label("no function"); return; }
  setpar("physics", PHYS); BoxSpec s; for (auto& d : s.d) d = {c.i(1, 4), 0, 1, "ChebZeros", "0 NUMREC_FFT"}; vector<BoxSpec> S(c.i(1, 2), s); bool sub = onval(c, "BSSN_subtractA"), nrm = onval(c, "BSSN_normalizedetg"), off = c.b(1, 5) && S.size() > 1; tGrid* g = new_grid(S, true, {{"Coordinates_set_bfaces", "no"}}); (void) off; adm_vars(g); enablevar(g, I("BSSN_gxx")); enablevar(g, I("BSSN_Axx")); int ig = I("BSSN_gxx"), iA = I("BSSN_Axx");
  c.describe("boxes %d %s%s%s", (int) S.size(), specstr(S[0]).c_str(), sub ? " subtractA" : "", nrm ? " normalise" : ""); c.nontrivial();
  FORBOXES(g, b) { tBox* q = g->box[b]; for (int p = 0; p < q->nnodes; p++) { ld M[3][3], sc = c.b() ? 1 : c.logu(0.01, 100); for (auto& r : M) for (ld& v : r) v = c.sym(0.5); for (int i = 0; i < 3; i++) M[i][i] += 1.3L; for (int k = 0; k < 6; k++) { ld v = 0; for (int m = 0; m < 3; m++) v += M[S6[k][0]][m] * M[S6[k][1]][m]; q->v[ig + k][p] = (double) (sc * v); q->v[iA + k][p] = c.sym(3); } } }
  vector<vector<double>> o; FORBOXES(g, b) for (int k = 0; k < 12; k++) o.push_back(all_of(g->box[b], k < 6 ? ig + k : iA + k - 6)); Snap sn; std::set<BV> ex; FORBOXES(g, b) for (int k = 0; k < 6; k++) { ex.insert(BV(b, ig + k)); ex.insert(BV(b, iA + k)); } sn.add(g, ex);
  BSSN_enforce_AlgConstr(g); c.check(sn.same(), "%s changed", sn.bad().c_str());
  FORBOXES(g, b) { tBox* q = g->box[b]; for (int p = 0; p < q->nnodes; p++) { ld G0[3][3], G1[3][3], gu[3][3], tr0 = 0, am = 3; for (int k = 0; k < 6; k++) { G0[S6[k][0]][S6[k][1]] = G0[S6[k][1]][S6[k][0]] = o[12 * b + k][p]; G1[S6[k][0]][S6[k][1]] = G1[S6[k][1]][S6[k][0]] = q->v[ig + k][p]; } ld d0 = det3(G0), s = nrm ? cbrtl(1 / d0) : 1, gm = 0; inv3(G0, gu); ld cond = 0, n0 = 0; for (auto& r : G0) for (ld v : r) gm = std::max(gm, fabsl(v)); for (auto& r : gu) for (ld v : r) n0 = std::max(n0, fabsl(v)); cond = gm * n0; if (cond > 1e4L) continue;
    for (int k = 0; k < 6; k++) c.check(fabsl(q->v[ig + k][p] - s * o[12 * b + k][p]) <= 1e-13L * cond * s * gm, "metric component %d: %.17g instead of %.17Lg", k, q->v[ig + k][p], s * o[12 * b + k][p]); if (nrm) c.check(fabsl(det3(G1) - 1) <= 1e-12L * cond * cond, "det is 1%+.3Lg", det3(G1) - 1);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) tr0 += gu[i][j] / s * o[12 * b + 6 + ADMdata::at(i, j)][p]; ld tr1 = 0; inv3(G1, gu); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) tr1 += gu[i][j] * q->v[iA + ADMdata::at(i, j)][p]; ld nn = n0 / s; if (sub) c.check(fabsl(tr1) <= 1e-12L * cond * cond * am * (nn + 1) * 10, "trace is %Lg", tr1);
    for (int k = 0; k < 6; k++) { ld e = o[12 * b + 6 + k][p] - (sub ? tr0 / 3 * s * o[12 * b + k][p] : 0); c.check(fabsl(q->v[iA + k][p] - e) <= 1e-13L * cond * cond * am * 20, "A component %d: %.17g instead of %.17Lg", k, q->v[iA + k][p], e); } } }
}
static bool cutout(int n, int kind, int k) { int cut = 2 * (n / 3); if (kind == 1) cut = std::max(0, cut - 1); return k >= cut; }
PBT(filters, {.quick = 1200, .thorough = 30000}) {
  if (!have() || !BSSN_ChooseAndApplyFilters) { c.label("no function"); return; }
  setpar("physics", PHYS); int type = c.i(0, 3); const char* T[] = {"X2/3", "X2/3-1", "XYZ2/3", "simple"}; bool none = c.b(1, 8); setpar("BSSN_filter_vars", none ? "no" : "all"); setpar("BSSN_filter_type", T[type]); vector<BoxSpec> S(c.i(1, 2)); for (auto& s : S) for (auto& d : s.d) d = gen_dir(c, 2, 14); double f2 = c.b() ? 2 / 3. : c.u(0.2, 1), f3 = c.b() ? 2 / 3. : c.u(0.2, 1); int s2 = c.b() ? 0 : c.i(-1, 3), s3 = c.b() ? 0 : c.i(-1, 3); bool ell = c.b(1, 3);
  setpar("BSSN_filter_n2frac", strf("%.17g", f2)); setpar("BSSN_filter_n3frac", strf("%.17g", f3)); setpar("BSSN_filter_shift2", strf("%d", s2)); setpar("BSSN_filter_shift3", strf("%d", s3)); setpar("BSSN_filter_YZregion", ell ? "ellipse" : "square");
  tGrid* g = new_grid(S, true, {{"Coordinates_set_bfaces", "no"}}); enablevar(g, I("temp1")); enablevar(g, I("temp2")); enablevar(g, I("temp3")); tVarList* vl = vlalloc(g); int nv = c.i(1, 3); vector<vector<vector<double>>> e(nv); vector<vector<double>> mg(nv); const char* nm[] = {"h_u", "h_v", "h_w"}; bool nt = false;
  c.describe("%s%s boxes %d %s frac %g %g shift %d %d%s", T[type], none ? " off" : "", (int) S.size(), specstr(S[0]).c_str(), f2, f3, s2, s3, ell ? " ellipse" : "");
  for (int v = 0; v < nv; v++) { int iv = newvar(g, nm[v]); vlpush(vl, iv); FORBOXES(g, b) { const BoxSpec& s = S[b]; F3 f = gen_f3(c, s, true), k; auto t = tabulate(f, s); std::copy(t.begin(), t.end(), g->box[b]->v[iv]);
      // Fourier modes: index 2j-1 and 2j; Nyquist cosine n-1
      int n[3] = {s.d[0].n, s.d[1].n, s.d[2].n}; double jf = 2 * (int) (0.5 * f2 * n[1]) + s2 - 2, kf = 2 * (int) (0.5 * f3 * n[2]) + s3 - 2;
      for (size_t r = 0; r < f.f[0].size(); r++) for (auto& a : f.f[0][r].m) for (auto& bb : f.f[1][r].m) for (auto& d : f.f[2][r].m) { int i = a.first, j = bb.first, l = d.first; bool cut; if (none) cut = false; else if (type <= 1) cut = cutout(n[0], type, i); else if (type == 2) cut = cutout(n[0], 0, i) || cutout(n[1], 0, j) || cutout(n[2], 0, l); else if (!ell) cut = j > jf || l > kf; else { double tj = 2 * ((j + 1) / 2), tk = 2 * ((l + 1) / 2); cut = (tj/jf)*(tj/jf) + (tk/kf)*(tk/kf) > 1; if (jf == 0 || kf == 0) c.discard(); double q = (tj/jf)*(tj/jf) + (tk/kf)*(tk/kf); if (fabs(q - 1) < 1e-12) c.discard(); } if (cut) nt = true; if (!cut) { F1 o[3]; const F1* src[3] = {&f.f[0][r], &f.f[1][r], &f.f[2][r]}; int md[3] = {i, j, l}; for (int z = 0; z < 3; z++) { o[z] = *src[z]; o[z].m = {{md[z], z == 0 ? a.second * bb.second * d.second : 1}}; k.f[z].push_back(o[z]); } } }
      e[v].push_back(k.f[0].empty() ? vector<double>(t.size(), 0) : tabulate(k, s)); mg[v].push_back((double) f.mag()); } }
  if (nt) c.nontrivial(); c.label(T[type]); BSSN_ChooseAndApplyFilters(vl);
  for (int v = 0; v < nv; v++) FORBOXES(g, b) { size_t at = 0; double d = maxdiff(e[v][b].data(), g->box[b]->v[vl->index[v]], e[v][b].size(), &at); c.check(d <= 1e-12 * (1 + mg[v][b]), "variable %d box %d point %d: %.14g after the filter instead of %.14g", v, b, (int) at, g->box[b]->v[vl->index[v]][at], e[v][b][at]); }
}
// Z4
PBT(z4, {.quick = 800, .thorough = 15000, .cpu_s = 60}) {
  if (!Z4secondO_rhs || !Z4secondO_startup || !&Z4secondOvars) { c.label("no function"); return; }
  setpar("physics", PHYS); int deg = c.i(1, 3); auto S = gen_boxes(c, deg + 1, deg + 4, 0.6, 2); double L = extent(S), wd = width(S); ADMdata D = gen_adm(c, L, deg); Poly th, Z[3], B[3], K0; bool zz = !c.b(1, 4); th = gen_poly(c, L, deg, zz ? 0.5 : 0); for (auto& p : Z) p = gen_poly(c, L, deg, zz ? 0.5 : 0); for (auto& p : B) p = gen_poly(c, L, deg, 0.5); K0 = gen_poly(c, L, deg, 0.5); double P = c.b() ? 1 : c.u(0.8, 1.3);
  bool dd = onval(c, "Z4secondO_useDD"), sub = onval(c, "Z4secondO_subtractK0"), ws = c.b(); double lam = c.b() ? 0 : c.sym(2), k1 = c.b() ? 0 : c.sym(2), k2 = c.b() ? 0 : c.sym(2), lpp = c.b() ? 0 : c.i(-2, 4), hf = c.b() ? 2 : c.u(0.5, 3), hm = c.b() ? 0 : c.sym(2); int lk = c.i(0, 2); auto num = [](double v) { return strf("%.17g", v); };
  setpar("Z4secondO_RtoRminusHfactor", num(lam)); setpar("Z4secondO_kappa1", num(k1)); setpar("Z4secondO_kappa2", num(k2)); setpar("Z4secondO_lapsepsipower", num(lpp)); setpar("Z4secondO_lapseharmonicf", num(hf)); setpar("Z4secondO_lapseharmonicm", num(hm)); string l = lk == 0 ? "constant" : lk == 1 ? "1+log" : "harmonic"; if (ws) l = c.b() ? l + " withshift" : "withshift " + l; bool defl = lk == 0 && !ws && c.b(); if (!defl) setpar("Z4secondO_lapse", l); if (c.b()) setpar("Z4secondO_shift", c.pickl<const char*>({"constant", "gamma0", "gamma2"}));
  tGrid* g = new_grid(S, true, {{"Coordinates_set_bfaces", "no"}}); adm_vars(g); Z4secondO_startup(g); tVarList* u = Z4secondOvars; tVarList *n = dup(u, "_n"), *pre = dup(u, "_p"), *r = dup(u, "_r"); c.describe("boxes %d %s deg %d lapse %s%s lambda %g kappa %g %g psi %g", (int) S.size(), specstr(S[0]).c_str(), deg, l.c_str(), dd ? " DD" : "", lam, k1, k2, P);
  bool ok = true; FORBOXES(g, b) { tBox* q = g->box[b]; for (int p = 0; p < q->nnodes; p++) { ld x[3]; pos(q, p, x); auto set = [&](int k, ld v) { vlldataptr(u, q, k)[p] = (double) v; }; for (int m = 0; m < 6; m++) { set(m, D.g0[m] + D.g[m].val(x)); set(6 + m, D.K[m].val(x)); } set(12, th.val(x)); set(16, D.al0 + D.al.val(x)); for (int m = 0; m < 3; m++) { set(13 + m, Z[m].val(x)); set(17 + m, D.be[m].val(x)); set(20 + m, B[m].val(x)); } q->v[I("psi")][p] = P; for (int m = 0; m < 3; m++) q->v[I("dpsiopsix") + m][p] = 0; for (int m = 0; m < 6; m++) q->v[I("ddpsiopsixx") + m][p] = 0; q->v[I("K_initial")][p] = (double) K0.val(x); ADMpt o = D.phys(x, false); if (det3(o.g) < 0.02L * powl(fabsl(o.g[0][0]), 3) || o.g[0][0] <= 0 || o.g[0][0]*o.g[1][1] - o.g[0][1]*o.g[0][1] <= 0) ok = false; } } if (!ok) c.discard(); c.nontrivial(); c.label(lk == 0 ? "constant" : lk == 1 ? "1+log" : "harmonic");
  Snap sn; std::set<BV> ex; FORBOXES(g, b) for (int k = 0; k < g->nvariables; k++) { string nm = VarName(k); if (nm.find("ADMvars_d") == 0 || nm.find("Z4secondO_d") == 0 || nm.find("temp") == 0 || (nm.size() > 2 && (nm.substr(nm.size() - 2) == "_n" || nm.substr(nm.size() - 2) == "_r"))) ex.insert(BV(b, k)); }
  FORBOXES(g, b) for (int k = 0; k < u->n; k++) { tBox* q = g->box[b]; auto v = rnd(c, q->nnodes); std::copy(v.begin(), v.end(), vlldataptr(pre, q, k)); } sn.add(g, ex); double dt = c.sym(1); Z4secondO_rhs(r, pre, 0, u); Z4secondO_rhs(n, pre, dt, u); c.check(sn.same(), "Z4secondO_rhs changed %s", sn.bad().c_str());
  FORBOXES(g, b) { tBox* q = g->box[b]; for (int k = 0; k < u->n; k++) for (int p = 0; p < q->nnodes; p++) { ld e = (ld) vlldataptr(pre, q, k)[p] + (ld) dt * (ld) vlldataptr(r, q, k)[p]; c.check(fabsl(vlldataptr(n, q, k)[p] - e) <= 1e-14L * (2 + fabsl(e) + fabsl(dt * (ld) vlldataptr(r, q, k)[p])) || dt == 0, "step of variable %d: %.17g instead of %.17Lg", k, vlldataptr(n, q, k)[p], e); }
    for (int p : sample(c, q->nnodes, 40)) { ld x[3]; pos(q, p, x); ADMpt o = D.phys(x, false); ld gm = 0; for (auto& w : o.gu) for (ld v : w) gm = std::max(gm, fabsl(v)); ld T = th.val(x), z[3], dz[3][3], cd[3][3], divZ = 0, Zda = 0, bT = 0; for (int i = 0; i < 3; i++) { z[i] = Z[i].val(x); bT += o.be[i] * th.val(x, i); for (int j = 0; j < 3; j++) dz[i][j] = Z[i].val(x, j); } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { cd[i][j] = dz[i][j]; for (int m = 0; m < 3; m++) cd[i][j] -= o.Gam[m][i][j] * z[m]; } for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { divZ += o.gu[i][j] * cd[i][j]; Zda += o.gu[i][j] * z[i] * o.dal[j]; }
      ld tol = 3e-12L * (1 + gm) * (1 + gm) * (1 + o.mag) * (1 + 1 / (wd * wd)) * (1 + fabsl(o.g[0][0])) * 40; auto cmp = [&](const char* nm, int kk, ld e) { ld v = vlldataptr(r, q, kk)[p]; c.check(fabsl(v - e) <= tol, "%s (variable %d) at (%Lg,%Lg,%Lg) box %d: %.13Lg instead of %.13Lg (tolerance %.2Lg)", nm, kk, x[0], x[1], x[2], b, v, e, tol); };
      for (int m = 0; m < 6; m++) { int i = S6[m][0], j = S6[m][1]; cmp("metric", m, o.dtg(i, j)); cmp("K", 6 + m, o.dtK(i, j) + o.al * (cd[i][j] + cd[j][i] - 2 * T * o.K[i][j])); }
      cmp("Theta", 12, o.al / 2 * (o.ham - lam * o.ham + 2 * divZ - 2 * T * o.trK) - Zda + bT - k1 * T);
      for (int i = 0; i < 3; i++) { ld e = o.al * (o.mom[i] + th.val(x, i)) - T * o.dal[i] - k2 * z[i]; for (int j = 0; j < 3; j++) { e -= 2 * o.al * o.Kud[j][i] * z[j]; e += o.be[j] * dz[i][j] + z[j] * o.dbe[j][i]; } cmp("Z", 13 + i, e); }
      ld ra = 0, r0 = -o.al * (o.trK - sub * K0.val(x) - hm * T) * powl(P, lpp); if (lk) ra = (lk == 1 ? hf : o.al) * r0; if (ws && lk) for (int i = 0; i < 3; i++) ra += o.be[i] * o.dal[i]; if (ws && !lk) { /* constant: nothing */ } cmp("lapse", 16, ra); for (int i = 0; i < 3; i++) { cmp("shift", 17 + i, 0); cmp("betadot", 20 + i, 0); } } }
}
// a black hole in its own stationary coordinates does not change
struct KS { ld M, a[3]; ld ring(const ld* x) const { ld aa = sqrtl(a[0]*a[0]+a[1]*a[1]+a[2]*a[2]), p2 = x[0]*x[0]+x[1]*x[1]+x[2]*x[2]; if (aa == 0) return sqrtl(p2); ld z = (a[0]*x[0]+a[1]*x[1]+a[2]*x[2]) / aa; return std::min(sqrtl(p2), hypotl(sqrtl(fabsl(p2 - z*z)) - aa, z)); } };
PBT(stationary, {.quick = 120, .thorough = 2500, .cpu_s = 60}) {
  if (!have() || !SingleBH || !Z4secondO_rhs) { c.label("no function"); return; }
  setpar("physics", PHYS); KS B; B.M = c.b(1, 3) ? 1 : c.logu(0.3, 3); int kd = c.i(0, 2); double M = (double) B.M; const char* nm[] = {"BHsx1", "BHsy1", "BHsz1"}; setpar("BHmass1", strf("%.17g", M)); for (int i = 0; i < 3; i++) { B.a[i] = (double) (kd == 0 || (kd == 1 && i != 2) ? 0 : c.sym(0.57) * B.M); setpar(nm[i], strf("%.17g", (double) B.a[i])); } setpar("SingleBH_type", "KerrSchild"); bool z4 = c.b(1, 3), conf = !z4 && c.b(); setpar("SingleBH_ConformalFactor", conf ? "yes" : "no"); onval(c, z4 ? "Z4secondO_useDD" : "BSSN_useDD"); if (!z4) onval(c, "BSSN_GReplacedBydg"); BoxSpec s; double half = M * c.u(0.2, 0.45); ld ctr[3];
  for (int t = 0;; t++) { for (ld& v : ctr) v = c.sym(6 * M); if (B.ring(ctr) > 3 * M || t > 20) break; } if (B.ring(ctr) <= 3 * M) { ctr[0] = 2.5L * M; ctr[1] = 2 * M; ctr[2] = -1.5L * M; } for (int k = 0; k < 3; k++) s.d[k] = {c.i(13, 15), (double) ctr[k] - half, (double) ctr[k] + half, c.b() ? "ChebExtrema" : "ChebZeros", "64 NUMREC_FFT"};
  tGrid* g = new_grid({s}, true, {{"Coordinates_set_bfaces", "no"}}); tBox* q = g->box[0]; bool xy = q->v[I("x")] != nullptr; for (const char* v : {"x", "y", "z"}) enablevar(g, I(v)); if (!xy) for (int p = 0; p < q->nnodes; p++) { const char* X[] = {"X", "Y", "Z"}; for (int k = 0; k < 3; k++) q->v[I("x") + k][p] = q->v[I(X[k])][p]; } adm_vars(g);
  c.describe("%s M=%g a=(%Lg,%Lg,%Lg)%s box around (%Lg,%Lg,%Lg) half width %g", z4 ? "Z4" : "BSSN", M, B.a[0], B.a[1], B.a[2], conf ? " psi" : "", ctr[0], ctr[1], ctr[2], half); c.nontrivial(); c.label(z4 ? "Z4" : "BSSN"); SingleBH(g); tVarList *u, *n; if (z4) { Z4secondO_startup(g); u = Z4secondOvars; n = dup(u, "_n"); Z4secondO_rhs(n, n, 0, u); } else { BSSN_startup(g); u = BSSNvars; n = dup(u, "_n"); BSSN_rhs(n, n, 0, u); }
  for (int k = 0; k < (z4 ? 16 : 17); k++) { double m = maxabs(all_of(q, n->index[k])); bool G = !z4 && k >= 14; c.check(m < (G ? 2e-5 : 4e-6) / M / (G ? M : 1), "d/dt of %s is %g for a stationary black hole", VarName(u->index[k]), m); if (getenv("PBT_SHOW")) fprintf(stderr, "%s %g\n", VarName(u->index[k]), m * M); }
}

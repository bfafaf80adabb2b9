// C31: scalar waves on flat and Kerr backgrounds
#include "grid.h"
#include <functional>
using namespace pbt;
extern "C" {
void Kerr(tGrid*, int, int, int, int, int) __attribute__((weak));
void Kerr3d(tGrid*, int, int, int, int, int, int, int, int, int, int, int) __attribute__((weak));
void ScalarOnKerr_evolve(tVarList*, tVarList*, double, tVarList*) __attribute__((weak));
void ScalarOnKerr_evolve_1stO(tVarList*, tVarList*, double, tVarList*) __attribute__((weak));
double ScalarOnKerr_Source(tBox*, double, double, double, double) __attribute__((weak));
int ScalarOnKerr_init_rho0_four3modes(tGrid*) __attribute__((weak));
void ScalarOnKerr_rho_from_rho0_four3modes(tBox*, double*, double) __attribute__((weak));
int ScalarOnKerr_startup(tGrid*) __attribute__((weak));
void ScalarWave_evolve(tVarList*, tVarList*, double, tVarList*) __attribute__((weak));
int ScalarWave_startup(tGrid*) __attribute__((weak));
int ScalarWave_analyze(tGrid*) __attribute__((weak));
}
// the Kerr metric in (ingoing) Kerr-Schild coordinates
struct Hole { ld M, a[3];
  ld rks(const ld* x) const { ld a2 = a[0]*a[0]+a[1]*a[1]+a[2]*a[2], p2 = x[0]*x[0]+x[1]*x[1]+x[2]*x[2], ax = a[0]*x[0]+a[1]*x[1]+a[2]*x[2], d = p2 - a2, w = sqrtl(d*d + 4*ax*ax); return sqrtl(d >= 0 ? (d + w) / 2 : 2*ax*ax / (w - d)); }
  void g(const ld* x, ld G[4][4]) const {
    ld r = rks(x), a2 = a[0]*a[0]+a[1]*a[1]+a[2]*a[2], ax = a[0]*x[0]+a[1]*x[1]+a[2]*x[2], H = M*r*r*r / (r*r*r*r + ax*ax);
    ld cr[3] = {a[1]*x[2]-a[2]*x[1], a[2]*x[0]-a[0]*x[2], a[0]*x[1]-a[1]*x[0]}, l[4] = {1, 0, 0, 0};
    for (int i = 0; i < 3; i++) l[i+1] = (r*x[i] - cr[i] + ax*a[i]/r) / (r*r + a2);
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) G[i][j] = (i == j ? (i ? 1 : -1) : 0) + 2*H*l[i]*l[j]; }
};
template<int N> static void inv(const ld A[N][N], ld B[N][N]) { ld m[N][2*N]; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { m[i][j] = A[i][j]; m[i][N+j] = i == j; }
  for (int k = 0; k < N; k++) { int p = k; for (int i = k; i < N; i++) if (fabsl(m[i][k]) > fabsl(m[p][k])) p = i; for (int j = 0; j < 2*N; j++) std::swap(m[k][j], m[p][j]); ld d = m[k][k]; for (int j = 0; j < 2*N; j++) m[k][j] /= d; for (int i = 0; i < N; i++) if (i != k) { ld f = m[i][k]; for (int j = 0; j < 2*N; j++) m[i][j] -= f * m[k][j]; } }
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) B[i][j] = m[i][N+j]; }
struct Geo { ld g[4][4], gu[4][4], dg[4][4][4], Gam[4][4][4], G[4], al, be[3], dal[3], dbe[3][3], h[3][3], hu[3][3], Gam3[3][3][3], G3[3], K[3][3], TrK; };
static Geo geo(const Hole& B, const ld* x) {
  Geo o; B.g(x, o.g); inv<4>(o.g, o.gu); ld st = B.rks(x), aa = sqrtl(B.a[0]*B.a[0] + B.a[1]*B.a[1] + B.a[2]*B.a[2]); if (aa > 0) { ld z = (B.a[0]*x[0]+B.a[1]*x[1]+B.a[2]*x[2]) / aa, p = sqrtl(fabsl(x[0]*x[0]+x[1]*x[1]+x[2]*x[2] - z*z)); st = std::min(st, hypotl(p - aa, z)); } st *= 0.004L; // distance to the ring singularity
   static const ld w[4] = {4/5.L, -1/5.L, 4/105.L, -1/280.L};
  memset(o.dg, 0, sizeof o.dg); memset(o.dal, 0, sizeof o.dal); memset(o.dbe, 0, sizeof o.dbe);
  auto lapse = [&](const ld* y, ld& al, ld* be) { ld G[4][4], U[4][4]; B.g(y, G); inv<4>(G, U); ld a2 = -1 / U[0][0]; al = sqrtl(a2); for (int i = 0; i < 3; i++) be[i] = a2 * U[0][i+1]; };
  lapse(x, o.al, o.be);
  for (int k = 0; k < 3; k++) for (int s = 1; s <= 4; s++) for (int sg = -1; sg <= 1; sg += 2) { ld y[3] = {x[0], x[1], x[2]}, G[4][4], al, be[3]; y[k] += sg * s * st; ld f = sg * w[s-1] / st; B.g(y, G); lapse(y, al, be);
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) o.dg[i][j][k+1] += f * G[i][j];
    o.dal[k] += f * al; for (int i = 0; i < 3; i++) o.dbe[i][k] += f * be[i]; }
  for (int a = 0; a < 4; a++) { o.G[a] = 0; for (int b = 0; b < 4; b++) for (int d = 0; d < 4; d++) { ld s = 0; for (int e = 0; e < 4; e++) s += o.gu[a][e] * (o.dg[e][b][d] + o.dg[e][d][b] - o.dg[b][d][e]) / 2; o.Gam[a][b][d] = s; o.G[a] += s * o.gu[b][d]; } }
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o.h[i][j] = o.g[i+1][j+1]; inv<3>(o.h, o.hu);
  for (int a = 0; a < 3; a++) { o.G3[a] = 0; for (int b = 0; b < 3; b++) for (int d = 0; d < 3; d++) { ld s = 0; for (int e = 0; e < 3; e++) s += o.hu[a][e] * (o.dg[e+1][b+1][d+1] + o.dg[e+1][d+1][b+1] - o.dg[b+1][d+1][e+1]) / 2; o.Gam3[a][b][d] = s; o.G3[a] += s * o.hu[b][d]; } }
  // K_ij = (L_beta gamma)_ij / (2 alpha) for a stationary metric
  o.TrK = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { ld s = 0; for (int k = 0; k < 3; k++) s += o.be[k] * o.dg[i+1][j+1][k+1] + o.h[k][j] * o.dbe[k][i] + o.h[i][k] * o.dbe[k][j]; o.K[i][j] = s / (2 * o.al); o.TrK += o.hu[i][j] * o.K[i][j]; }
  return o;
}
static Hole gen_hole(Case& c, bool flat = true) { Hole B; double M = flat && c.b(1, 10) ? 0 : c.b(1, 3) ? 1 : c.logu(0.2, 5); double S[3]; int k = c.i(0, 3); for (int i = 0; i < 3; i++) S[i] = k == 0 || (k == 1 && i != 2) ? 0 : c.sym(0.55) * M * M;
  setpar("BHmass", strf("%.17g", M)); setpar("BHsx", strf("%.17g", S[0])); setpar("BHsy", strf("%.17g", S[1])); setpar("BHsz", strf("%.17g", S[2])); B.M = M; for (int i = 0; i < 3; i++) B.a[i] = M > 0 ? (ld) S[i] / M : 0; return B; }
static vector<BoxSpec> gen_shells(Case& c, double r0, double r1, int nb, int deg, int n1min) {
  vector<BoxSpec> S(nb); int n2 = 2 * c.i(deg + 1, deg + 3), n3 = 2 * c.i(deg + 1, deg + 3); double r = r0;
  for (int b = 0; b < nb; b++) { auto& s = S[b]; s.coord = "SphericalDF"; double e = b == nb - 1 ? r1 : r + (r1 - r) * c.u(0.35, 0.65); s.d[0] = {c.i(n1min, n1min + 4), r, e, "ChebExtrema", "64 NUMREC_FFT"}; r = e; s.d[1] = {n2, 0, 2 * M_PI, "Fourier", "64 NUMREC_FFT"}; s.d[2] = {n3, 0, 2 * M_PI, "Fourier", "64 NUMREC_FFT"}; }
  return S; }
// a polynomial in (x,y,z)/L
struct Poly { ld L; vector<std::array<int, 3>> e; vector<ld> co;
  ld val(const ld* x, int i = -1, int j = -1) const { ld s = 0; for (size_t t = 0; t < e.size(); t++) { int p[3] = {e[t][0], e[t][1], e[t][2]}; ld f = co[t]; for (int q : {i, j}) if (q >= 0) { f *= p[q] / L; p[q]--; if (p[q] < 0) { f = 0; p[q] = 0; } } for (int k = 0; k < 3; k++) f *= powl(x[k] / L, p[k]); s += f; } return s; } };
static Poly gen_poly(Case& c, double L, int deg) { Poly p; p.L = L; int n = c.i(1, 4); for (int k = 0; k < n; k++) { std::array<int, 3> e = {0, 0, 0}; int d = c.i(0, deg); for (int q = 0; q < d; q++) e[c.i(0, 2)]++; p.e.push_back(e); p.co.push_back(c.pickl<double>({1, -1, 0.5, -0.25, 2, -3})); } return p; }

PBT(background, {.quick = 2500, .thorough = 60000}) {
  if (!Kerr || !Kerr3d) { c.label("no Kerr functions"); return; }
  setpar("physics", "ScalarOnKerr"); BoxSpec s; int nb = c.i(1, 2); for (auto& d : s.d) { d = {2, 0, 1, "ChebExtrema", "0 NUMREC_FFT"}; } s.d[0].n = c.i(2, 4); vector<BoxSpec> S(nb, s);
  tGrid* g = new_grid(S, true, {{"Coordinates_set_bfaces", "no"}}); Hole B = gen_hole(c); int ix = newvar(g, "pos", "i");
  const char* V4[] = {"ScalarOnKerr_gtt", "ScalarOnKerr_guptt", "ScalarOnKerr_Gammattt", "ScalarOnKerr_Gt"}; const char* V3[] = {"ScalarOnKerr3d_alpha", "ScalarOnKerr3d_betax", "ScalarOnKerr3d_gxx", "ScalarOnKerr3d_Kxx", "ScalarOnKerr3d_TrK", "ScalarOnKerr3d_gupxx", "ScalarOnKerr3d_Gammaxxx", "ScalarOnKerr3d_Gx", "ScalarOnKerr3d_dalphax", "ScalarOnKerr3d_dbetaxx"};
  int i4[4], i3[10]; for (int k = 0; k < 4; k++) enablevar(g, i4[k] = Ind(S_(V4[k]))); for (int k = 0; k < 10; k++) enablevar(g, i3[k] = Ind(S_(V3[k])));
  ld a2 = 0; for (ld q : B.a) a2 += q * q; double L = B.M > 0 ? (double) B.M : 1; string d;
  FORBOXES(g, b) for (int p = 0; p < g->box[b]->nnodes; p++) { double x[3]; for (int tries = 0;; tries++) { double R = L * c.logu(0.15, 300); for (double& q : x) q = c.b(1, 6) ? 0 : c.sym(R); ld y[3] = {x[0], x[1], x[2]}, r = B.rks(y), p2 = y[0]*y[0]+y[1]*y[1]+y[2]*y[2]; if (r > 0.05 * L && (a2 + p2) < 400 * r * r && p2 > 0) break; if (tries > 20) { x[0] = 1.5 * L; x[1] = -2 * L; x[2] = 3 * L; break; } } for (int k = 0; k < 3; k++) g->box[b]->v[ix + k][p] = x[k]; }
  c.describe("M=%.17Lg a=(%.17Lg,%.17Lg,%.17Lg) boxes %d", B.M, B.a[0], B.a[1], B.a[2], nb); if (B.M > 0) c.nontrivial(); if (a2 > 0) c.label("spin"); if (B.M == 0) c.label("flat");
  Snap sn; sn.add(g, {}); (void) sn;
  Kerr(g, ix, i4[0], i4[1], i4[2], i4[3]); Kerr3d(g, ix, i3[0], i3[1], i3[2], i3[3], i3[4], i3[5], i3[6], i3[7], i3[8], i3[9]);
  FORBOXES(g, b) for (int p = 0; p < g->box[b]->nnodes; p++) { tBox* q = g->box[b]; ld x[3]; for (int k = 0; k < 3; k++) x[k] = q->v[ix + k][p]; Geo o = geo(B, x); ld r = B.rks(x), p2 = x[0]*x[0]+x[1]*x[1]+x[2]*x[2], cond = 1 + (a2 + p2) / (r * r);
    auto cmp = [&](const char* what, int idx, const vector<ld>& w, ld scale) { ld m = scale; for (ld v : w) m = std::max(m, fabsl(v)); for (size_t k = 0; k < w.size(); k++) { double v = q->v[idx + k][p]; c.check(fabsl(v - w[k]) <= 2e-14L * cond * cond * m, "%s component %d (%s) at (%.17Lg,%.17Lg,%.17Lg), r=%.6Lg: %.17g instead of %.17Lg", what, (int) k, VarName(idx + k), x[0], x[1], x[2], r, v, w[k]); } };
    auto sym4 = [](const ld G[4][4]) { vector<ld> w; for (int i = 0; i < 4; i++) for (int j = i; j < 4; j++) w.push_back(G[i][j]); return w; };
    auto sym3 = [](const ld G[3][3]) { vector<ld> w; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) w.push_back(G[i][j]); return w; };
    ld gs = 0; for (auto& i : o.Gam) for (auto& j : i) for (ld v : j) gs = std::max(gs, fabsl(v)); gs += 1e-10L / r; // size of the Christoffel symbols
    ld ms = 0; for (auto& i : o.g) for (ld v : i) ms = std::max(ms, fabsl(v));
    cmp("4-metric", i4[0], sym4(o.g), ms); cmp("inverse 4-metric", i4[1], sym4(o.gu), ms);
    vector<ld> w; for (auto& G : o.Gam) { auto u = sym4(G); w.insert(w.end(), u.begin(), u.end()); } cmp("Christoffel symbols", i4[2], w, gs * ms); cmp("G^a", i4[3], {o.G[0], o.G[1], o.G[2], o.G[3]}, gs * ms * ms);
    cmp("lapse", i3[0], {o.al}, 1); cmp("shift", i3[1], {o.be[0], o.be[1], o.be[2]}, 1); cmp("3-metric", i3[2], sym3(o.h), ms); cmp("K_ij", i3[3], sym3(o.K), gs * ms); cmp("TrK", i3[4], {o.TrK}, gs * ms); cmp("inverse 3-metric", i3[5], sym3(o.hu), ms);
    w.clear(); for (auto& G : o.Gam3) { auto u = sym3(G); w.insert(w.end(), u.begin(), u.end()); } cmp("3-Christoffel symbols", i3[6], w, gs * ms); cmp("G^i", i3[7], {o.G3[0], o.G3[1], o.G3[2]}, gs * ms);
    cmp("lapse derivative", i3[8], {o.dal[0], o.dal[1], o.dal[2]}, gs); w.clear(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) w.push_back(o.dbe[i][j]); cmp("shift derivative", i3[9], w, gs * ms); }
}
// what is needed to call the right hand sides
struct Run { tGrid* g; tVarList *un, *up, *uc; Hole B; vector<vector<Geo>> G; };
static Run setup(Case& c, const vector<BoxSpec>& S, bool first) {
  Run R; R.g = new_grid(S, true, {{"Coordinates_set_bfaces", "no"}}); tGrid* g = R.g; R.B = Hole{(ld) Getd((char*) "BHmass"), {}}; const char* sp[] = {"BHsx", "BHsy", "BHsz"}; for (int i = 0; i < 3; i++) R.B.a[i] = (ld) Getd((char*) sp[i]) / R.B.M;
  for (const char* v : {"ScalarOnKerr_rho", "ScalarOnKerr_dpsix", "ScalarOnKerr_ddpsixx", "ScalarOnKerr_dPix", "ScalarOnKerr_gtt", "ScalarOnKerr_guptt", "ScalarOnKerr_Gammattt", "ScalarOnKerr_Gt", "ScalarOnKerr3d_gxx", "ScalarOnKerr3d_alpha", "ScalarOnKerr3d_betax", "ScalarOnKerr3d_Kxx", "ScalarOnKerr3d_TrK", "ScalarOnKerr3d_gupxx", "ScalarOnKerr3d_Gammaxxx", "ScalarOnKerr3d_Gx", "ScalarOnKerr3d_dalphax", "ScalarOnKerr3d_dbetaxx", "temp1", "temp2", "temp3"}) enablevar(g, Ind((char*) v));
  if (first) enablevar(g, Ind((char*) "ScalarOnKerr_dphixx"));
  R.uc = vlalloc(g); for (const char* v : {"ScalarOnKerr_psi", "ScalarOnKerr_Pi", "ScalarOnKerr_Up", "ScalarOnKerr_Um"}) vlpush(R.uc, Ind((char*) v)); if (first) { vlpush(R.uc, Ind((char*) "ScalarOnKerr_phix")); vlpush(R.uc, Ind((char*) "ScalarOnKerr_U0x")); } enablevarlist(R.uc);
  R.un = AddDuplicateEnable(R.uc, (char*) "_n"); R.up = AddDuplicateEnable(R.uc, (char*) "_p"); g->dt = 0.1; RunFun(PRE_INITIALDATA, g);
  Kerr(g, Ind((char*) "x"), Ind((char*) "ScalarOnKerr_gtt"), Ind((char*) "ScalarOnKerr_guptt"), Ind((char*) "ScalarOnKerr_Gammattt"), Ind((char*) "ScalarOnKerr_Gt"));
  Kerr3d(g, Ind((char*) "x"), Ind((char*) "ScalarOnKerr3d_alpha"), Ind((char*) "ScalarOnKerr3d_betax"), Ind((char*) "ScalarOnKerr3d_gxx"), Ind((char*) "ScalarOnKerr3d_Kxx"), Ind((char*) "ScalarOnKerr3d_TrK"), Ind((char*) "ScalarOnKerr3d_gupxx"), Ind((char*) "ScalarOnKerr3d_Gammaxxx"), Ind((char*) "ScalarOnKerr3d_Gx"), Ind((char*) "ScalarOnKerr3d_dalphax"), Ind((char*) "ScalarOnKerr3d_dbetaxx"));
  ScalarOnKerr_init_rho0_four3modes(g);
  FORBOXES(g, b) { vector<Geo> v; tBox* q = g->box[b]; for (int p = 0; p < q->nnodes; p++) { ld x[3] = {q->v[Ind((char*) "x")][p], q->v[Ind((char*) "y")][p], q->v[Ind((char*) "z")][p]}; v.push_back(geo(R.B, x)); } R.G.push_back(v); }
  return R; }
static ld source(ld M, ld t, const ld* x) { // the l=m=2 test source of the module
  ld r0 = 10 * M, r = sqrtl(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]), ct = x[2] / r, ph = atan2l(x[1], x[0]), Om = sqrtl(M / (r0*r0*r0)), Y = sqrtl(5 / (96 * PIl)) * 3 * (1 - ct*ct), q22 = 4 * PIl / (r0 * sqrtl(1 - 3 * M / r0)) * sqrtl(5 / (96 * PIl)) * 3;
  return -(q22 / r0) * expl(-(r - r0)*(r - r0) / (M*M)) / (sqrtl(PIl) * M) * cosl(2 * (Om * t - ph)) * Y; }
static void pos(tBox* q, int p, ld* x) { x[0] = q->v[Ind((char*) "x")][p]; x[1] = q->v[Ind((char*) "y")][p]; x[2] = q->v[Ind((char*) "z")][p]; }
PBT(second_order, {.quick = 500, .thorough = 10000, .cpu_s = 40}) {
  if (!ScalarOnKerr_evolve || !Kerr || !Kerr3d || !ScalarOnKerr_init_rho0_four3modes) { c.label("no function"); return; }
  setpar("physics", "ScalarOnKerr"); Hole B = gen_hole(c, false); double M = (double) B.M; bool scheel = c.b(); setpar("ScalarOnKerr_Pi_def", scheel ? "ScheelsPi" : "psidot"); if (c.b(1, 4)) setpar("ScalarOnKerr_reset_doubleCoveredPoints", "no"); if (c.b(1, 3)) setpar("Coordinates_useDD", "yes");
  int deg = c.i(1, 3), nb = c.i(1, 2); double r0 = M * c.u(1.6, 9), r1 = r0 + M * c.u(1.5, 8); auto S = gen_shells(c, r0, r1, nb, deg, deg + 3); Run R = setup(c, S, false); tGrid* g = R.g; Poly P[2]; for (auto& p : P) p = gen_poly(c, r1, deg); if (c.b(1, 8)) { P[1] = gen_poly(c, r1, 0); P[1].co[0] = 0; }
  double t = c.b(1, 3) ? 0 : c.sym(50 * M), dt = c.b(1, 3) ? c.logu(0.01, 1) : 0; R.uc->time = t; R.un->time = R.up->time = t;
  c.describe("M=%g a=(%Lg,%Lg,%Lg) %s boxes %d r %g..%g n %d %d %d deg %d t=%g dt=%g", M, B.a[0], B.a[1], B.a[2], scheel ? "ScheelsPi" : "psidot", nb, r0, r1, S[0].d[0].n, S[0].d[1].n, S[0].d[2].n, deg, t, dt); c.nontrivial(); c.label(scheel ? "ScheelsPi" : "psidot");
  vector<vector<double>> pre[2]; FORBOXES(g, b) { tBox* q = g->box[b]; for (int v = 0; v < 2; v++) { for (int p = 0; p < q->nnodes; p++) { ld x[3]; pos(q, p, x); q->v[R.uc->index[v]][p] = (double) P[v].val(x); } vector<double> d; for (int p = 0; p < q->nnodes; p++) { ld x[3]; pos(q, p, x); d.push_back((double) (x[0] * x[1] - (v + 1) * x[2] + b)); } memcpy(q->v[R.up->index[v]], d.data(), d.size() * 8); pre[v].push_back(d); } }
  if (getenv("PBT_FILL")) FORBOXES(g, b) for (int v = 0; v < 4; v++) for (int p = 0; p < g->box[b]->nnodes; p++) g->box[b]->v[R.un->index[v]][p] = 1e300;
  ScalarOnKerr_evolve(R.un, R.up, dt, R.uc);
  FORBOXES(g, b) { tBox* q = g->box[b]; int n1 = q->n1; for (int p = 0; p < q->nnodes; p++) { int i = p % n1; const Geo& o = R.G[b][p]; ld x[3]; pos(q, p, x); ld A = scheel ? o.al : -1, be[3], dal[3], dbe[3][3]; for (int k = 0; k < 3; k++) { be[k] = scheel ? o.be[k] : 0; dal[k] = scheel ? o.dal[k] : 0; for (int l = 0; l < 3; l++) dbe[k][l] = scheel ? o.dbe[k][l] : 0; }
    ld psd = -A * P[1].val(x), dpsd[3], mag = 0; for (int k = 0; k < 3; k++) psd += be[k] * P[0].val(x, k);
    for (int k = 0; k < 3; k++) { dpsd[k] = -A * P[1].val(x, k) - dal[k] * P[1].val(x); for (int l = 0; l < 3; l++) dpsd[k] += be[l] * P[0].val(x, k, l) + dbe[l][k] * P[0].val(x, l); }
    ld s = -source(B.M, t, x) - o.G[0] * psd; mag = fabsl(s); auto add = [&](ld v) { s += v; mag += fabsl(v); };
    for (int k = 0; k < 3; k++) { add(-o.G[k+1] * P[0].val(x, k)); add(2 * o.gu[0][k+1] * dpsd[k]); for (int l = 0; l < 3; l++) add(o.gu[k+1][l+1] * P[0].val(x, k, l)); }
    ld pdd = -s / o.gu[0][0], rPi = -pdd / A, rpsi = psd; for (int k = 0; k < 3; k++) rPi += be[k] * dpsd[k] / A;
    bool outer = b == nb - 1 && i == n1 - 1, face = (b > 0 && i == 0) || (b < nb - 1 && i == n1 - 1);
    if (outer) { ld r = sqrtl(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]), n[3] = {x[0]/r, x[1]/r, x[2]/r}, bn = 0, gnn = 0, Gn = 0, tr = 0, dn = 0; for (int k = 0; k < 3; k++) { bn += o.be[k] * n[k]; Gn += o.G[k+1] * n[k]; tr += o.gu[k+1][k+1]; dn += n[k] * P[1].val(x, k); for (int l = 0; l < 3; l++) gnn += o.gu[k+1][l+1] * n[k] * n[l]; } ld a2 = o.al * o.al, ap = (bn + sqrtl(bn*bn + a2*gnn)) / (a2*gnn); rPi = -(dn + (( tr - gnn)/r - Gn) / (2 * gnn) * P[1].val(x)) / ap; }
    if (face && dt != 0) continue; // the characteristic fields are only defined for right hand sides
    ld eps = 3e-9L * (mag + 1 + 3 * (deg * deg) * 3 / r0) * (face ? 30 : 1);
    for (int v = 0; v < 2; v++) { ld w = v ? rPi : rpsi; if (dt != 0) w = pre[v][b][p] + dt * w; double got = q->v[R.un->index[v]][p]; c.check(fabsl(got - w) <= eps, "%s at (%.8Lg,%.8Lg,%.8Lg) box %d point %d%s: %.12g instead of %.12Lg", v ? "rhs of Pi" : "rhs of psi", x[0], x[1], x[2], b, p, outer ? " (outer boundary)" : face ? " (between boxes)" : "", got, w); } } }
}
PBT(first_order, {.quick = 400, .thorough = 8000, .cpu_s = 40}) {
  if (!ScalarOnKerr_evolve_1stO || !Kerr || !Kerr3d || !ScalarOnKerr_init_rho0_four3modes) { c.label("no function"); return; }
  setpar("physics", "ScalarOnKerr"); Hole B = gen_hole(c, false); double M = (double) B.M; setpar("ScalarOnKerr_1stOrder_inSpace", "yes"); setpar("ScalarOnKerr_Pi_def", "ScheelsPi"); bool cp = c.b(1, 3); if (cp) setpar("ScalarOnKerr_outerBC", "constraintPreserving"); if (c.b(1, 4)) setpar("ScalarOnKerr_reset_doubleCoveredPoints", "no");
  int deg = c.i(1, 3), nb = c.i(1, 2); double r0 = M * c.u(1.6, 9), r1 = r0 + M * c.u(1.5, 8); auto S = gen_shells(c, r0, r1, nb, deg, deg + 3); Run R = setup(c, S, true); tGrid* g = R.g; Poly P[5]; for (auto& p : P) p = gen_poly(c, r1, deg); bool consistent = c.b();
  double t = c.b(1, 3) ? 0 : c.sym(50 * M), dt = c.b(1, 4) ? c.logu(0.01, 1) : 0; R.uc->time = R.un->time = R.up->time = t; int vi[5] = {0, 1, 4, 5, 6};
  auto F = [&](int v, const ld* x, int i = -1) -> ld { return v > 1 && consistent ? (i < 0 ? P[0].val(x, v - 2) : P[0].val(x, v - 2, i)) : P[v].val(x, i); };
  c.describe("M=%g a=(%Lg,%Lg,%Lg) %s%s boxes %d r %g..%g n %d %d %d deg %d t=%g dt=%g", M, B.a[0], B.a[1], B.a[2], consistent ? "phi=dpsi" : "phi free", cp ? " CP" : "", nb, r0, r1, S[0].d[0].n, S[0].d[1].n, S[0].d[2].n, deg, t, dt); c.nontrivial();
  vector<vector<double>> pre[5]; FORBOXES(g, b) { tBox* q = g->box[b]; for (int v = 0; v < 5; v++) { for (int p = 0; p < q->nnodes; p++) { ld x[3]; pos(q, p, x); q->v[R.uc->index[vi[v]]][p] = (double) F(v, x); } vector<double> d; for (int p = 0; p < q->nnodes; p++) { ld x[3]; pos(q, p, x); d.push_back((double) (x[0] * x[1] - (v + 1) * x[2] + b)); } memcpy(q->v[R.up->index[vi[v]]], d.data(), d.size() * 8); pre[v].push_back(d); } }
  ScalarOnKerr_evolve_1stO(R.un, R.up, dt, R.uc);
  FORBOXES(g, b) { tBox* q = g->box[b]; int n1 = q->n1; for (int p = 0; p < q->nnodes; p++) { int i = p % n1; const Geo& o = R.G[b][p]; ld x[3], w[5]; pos(q, p, x); ld Pi = F(1, x), mag = 0;
    w[0] = -o.al * Pi; for (int k = 0; k < 3; k++) w[0] += o.be[k] * P[0].val(x, k); ld s = o.al * o.TrK * Pi + o.al * source(B.M, t, x); mag = fabsl(s); auto add = [&](ld v) { s += v; mag += fabsl(v); };
    for (int k = 0; k < 3; k++) { add(o.be[k] * F(1, x, k)); add(o.al * o.G3[k] * F(2 + k, x)); for (int l = 0; l < 3; l++) { add(-o.al * o.hu[k][l] * F(2 + l, x, k)); add(-o.hu[k][l] * F(2 + k, x) * o.dal[l]); } } w[1] = s;
    for (int k = 0; k < 3; k++) { w[2+k] = -o.al * F(1, x, k) - Pi * o.dal[k]; for (int l = 0; l < 3; l++) w[2+k] += o.be[l] * F(2 + k, x, l) + F(2 + l, x) * o.dbe[l][k]; }
    bool outer = b == nb - 1 && i == n1 - 1, face = (b > 0 && i == 0) || (b < nb - 1 && i == n1 - 1); if ((outer || face) && dt != 0) continue;
    ld eps = 3e-9L * (mag + 1 + 9 * (deg * deg) / r0) * (face ? 30 : 1);
    if (outer) { ld r = sqrtl(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]), n[3] = {x[0]/r, x[1]/r, x[2]/r}, gnn = 0, cu[3]; for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) gnn += o.hu[k][l] * n[k] * n[l]; for (int k = 0; k < 3; k++) { cu[k] = 0; for (int l = 0; l < 3; l++) cu[k] += o.hu[k][l] * n[l] / sqrtl(gnn); }
      ld gc = 0, wc = 0, gp = q->v[R.un->index[1]][p]; for (int k = 0; k < 3; k++) { gc += cu[k] * q->v[R.un->index[4 + k]][p]; wc += cu[k] * w[2 + k]; }
      c.check(fabsl(gp + gc - (w[1] + wc)) <= 30 * eps, "outgoing mode at the outer boundary, (%.8Lg,%.8Lg,%.8Lg): %.12Lg instead of %.12Lg", x[0], x[1], x[2], gp + gc, w[1] + wc);
      if (!cp) { w[0] = -o.al * Pi; for (int k = 0; k < 3; k++) w[0] += o.be[k] * F(2 + k, x); } // there d_t psi is taken from phi
      if (!cp) c.check(fabsl(q->v[R.un->index[0]][p] - w[0]) <= eps, "rhs of psi at the outer boundary, (%.8Lg,%.8Lg,%.8Lg): %.12g instead of %.12Lg", x[0], x[1], x[2], q->v[R.un->index[0]][p], w[0]);
      if (!cp) c.check(fabsl(gp - gc + Pi / r) <= 30 * eps, "ingoing mode at the outer boundary, (%.8Lg,%.8Lg,%.8Lg): %.12Lg instead of %.12Lg", x[0], x[1], x[2], gp - gc, -Pi / r);
      continue; }
    for (int v = 0; v < 5; v++) { ld u = dt != 0 ? pre[v][b][p] + dt * w[v] : w[v]; double got = q->v[R.un->index[vi[v]]][p]; c.check(fabsl(got - u) <= eps, "rhs of %s at (%.8Lg,%.8Lg,%.8Lg) box %d point %d%s: %.12g instead of %.12Lg", VarName(R.uc->index[vi[v]]), x[0], x[1], x[2], b, p, face ? " (between boxes)" : "", got, u); } } }
}
PBT(source_modes, {.quick = 300, .thorough = 5000}) {
  if (!ScalarOnKerr_Source || !ScalarOnKerr_init_rho0_four3modes || !ScalarOnKerr_rho_from_rho0_four3modes) { c.label("no function"); return; }
  setpar("physics", "ScalarOnKerr"); Hole B = gen_hole(c, false); double M = (double) B.M; auto S = gen_shells(c, M * c.u(3, 9.5), M * c.u(10, 15), 1, c.i(2, 4), 4); if (c.b(1, 3)) S[0].d[2].n++; tGrid* g = new_grid(S, true, {{"Coordinates_set_bfaces", "no"}}); int iv = newvar(g, "rr"); tBox* q = g->box[0]; double t = c.sym(300 * M);
  c.describe("M=%g t=%g n3=%d", M, t, q->n3); c.nontrivial(); ScalarOnKerr_init_rho0_four3modes(g); ScalarOnKerr_rho_from_rho0_four3modes(q, q->v[iv], t);
  ld big = 0; vector<ld> w; for (int p = 0; p < q->nnodes; p++) { ld x[3]; pos(q, p, x); w.push_back(source(B.M, t, x)); big = std::max(big, fabsl(w[p])); double d = ScalarOnKerr_Source(q, t, (double) x[0], (double) x[1], (double) x[2]); ld amp = fabsl(source(B.M, 0, x)) ; (void) amp; c.check(fabsl(d - w[p]) <= 1e-12L * (1 / (M * M)), "source at point %d: %.15g instead of %.15Lg", p, d, w[p]); }
  for (int p = 0; p < q->nnodes; p++) c.check(fabsl(q->v[iv][p] - w[p]) <= 1e-12L * (big + 1 / (M * M)), "rotated source at point %d: %.15g instead of %.15Lg", p, q->v[iv][p], w[p]);
}
PBT(flat, {.quick = 1200, .thorough = 20000, .cpu_s = 40}) {
  if (!ScalarWave_evolve || !ScalarWave_startup || !ScalarWave_analyze) { c.label("no function"); return; }
  setpar("physics", "ScalarWave"); bool sph = c.b(); int deg = c.i(1, 4); vector<BoxSpec> S; if (sph) { double r0 = c.u(0.5, 3); S = gen_shells(c, r0, r0 + c.u(0.5, 4), c.i(1, 2), deg, deg + 2); } else { S.resize(c.i(1, 2)); for (auto& s : S) for (auto& d : s.d) { d = {c.i(deg + 1, deg + 5), c.sym(2), 0, c.b() ? "ChebExtrema" : "ChebZeros", "64 NUMREC_FFT"}; d.b = d.a + c.u(0.5, 3); } }
  double nl = c.b() ? 0 : c.sym(3), A = c.sym(2), sg = c.logu(0.2, 3), rr0 = c.u(0, 4), sx[3], x0[3]; for (int k = 0; k < 3; k++) { sx[k] = c.logu(0.3, 3); x0[k] = c.sym(2); } bool wsph = c.b();
  std::map<string, string> par = {{"Coordinates_set_bfaces", "no"}, {"ScalarWave_nonlinearity", strf("%.17g", nl)}, {"ScalarWave_A", strf("%.17g", A)}, {"ScalarWave_sigma", strf("%.17g", sg)}, {"ScalarWave_r0", strf("%.17g", rr0)}, {"ScalarWave_waveform", wsph ? "spherical" : "gauss"}, {"0doutiter", "1"}, {"0doutput", "ScalarWave_rho"}, {"0doutputmax", "ScalarWave_rho"}}; const char* xyz[] = {"x", "y", "z"}; for (int k = 0; k < 3; k++) { par[string("ScalarWave_sigma") + xyz[k]] = strf("%.17g", sx[k]); par[string("ScalarWave_") + xyz[k] + "0"] = strf("%.17g", x0[k]); }
  if (sph && c.b()) par["ScalarWave_reset_doubleCoveredPoints"] = "yes"; if (c.b(1, 3)) par["Coordinates_useDD"] = "yes"; setpar("boundary", "");
  tGrid* g = new_grid(S, true, par); c.describe("%s%s boxes %d nl=%g deg=%d waveform %s", specstr(S[0]).c_str(), par.count("ScalarWave_reset_doubleCoveredPoints") ? " reset" : "", (int) S.size(), nl, deg, wsph ? "spherical" : "gauss"); c.nontrivial(); c.label(sph ? "spherical" : "Cartesian");
  ScalarWave_startup(g); int ip = Ind((char*) "ScalarWave_psi"), id = Ind((char*) "ScalarWave_psidot");
  auto P3 = [&](tBox* q, int p, ld* x) { if (q->v[Ind((char*) "x")]) pos(q, p, x); else { x[0] = q->v[Ind((char*) "X")][p]; x[1] = q->v[Ind((char*) "Y")][p]; x[2] = q->v[Ind((char*) "Z")][p]; } };
  FORBOXES(g, b) { tBox* q = g->box[b]; for (int p = 0; p < q->nnodes; p++) { ld x[3]; P3(q, p, x); ld r = sqrtl(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]); int i = p % q->n1; ld f, df; if (wsph) { f = A * expl(-(r - rr0) * (r - rr0) / (2 * sg * sg)); df = -(r - rr0) / (sg * sg) * f; } else { ld e = 0; for (int k = 0; k < 3; k++) e += (x[k] - x0[k]) * (x[k] - x0[k]) / (sx[k] * sx[k]); f = A * expl(-e / 2); df = 0; for (int k = 0; k < 3; k++) df -= f * (x[k] - x0[k]) * x[k] / r / (sx[k] * sx[k]); } // f(r+t)/r
    if (i == 0 || i == q->n1 - 1) f = df = 0; if (r < 1e-6) continue; ld tol = 1e-12L * (fabsl(A) + 1) * (1 + 1 / r) * 20; c.check(fabsl(q->v[ip][p] - f / r) <= tol && fabsl(q->v[id][p] - df / r) <= tol * 10, "initial data at (%Lg,%Lg,%Lg): %.12g, %.12g instead of %.12Lg, %.12Lg", x[0], x[1], x[2], q->v[ip][p], q->v[id][p], f / r, df / r); } }
  tVarList* uc = vlalloc(g); vlpush(uc, ip); vlpush(uc, id); tVarList *un = AddDuplicateEnable(uc, (char*) "_n"), *up = AddDuplicateEnable(uc, (char*) "_p"); Poly Q[2]; double L = 1; FORBOXES(g, b) for (int p = 0; p < g->box[b]->nnodes; p++) { ld x[3]; P3(g->box[b], p, x); L = std::max(L, (double) sqrtl(x[0]*x[0]+x[1]*x[1]+x[2]*x[2])); } for (auto& p : Q) p = gen_poly(c, L, deg); double dt = c.b() ? c.logu(0.01, 1) : 0;
  FORBOXES(g, b) { tBox* q = g->box[b]; for (int p = 0; p < q->nnodes; p++) { ld x[3]; P3(q, p, x); q->v[ip][p] = (double) Q[0].val(x); q->v[id][p] = (double) Q[1].val(x); q->v[up->index[0]][p] = (double) x[0]; q->v[up->index[1]][p] = (double) -x[1]; } }
  bool pre = dt != 0; ld dis = 0; if (c.b(1, 3)) { // diffusion, with (dt of the grid)^order in front
    double fac = c.b(1, 5) ? -0.5 : c.logu(0.01, 2), ord = c.b() ? c.i(0, 4) : c.u(-1, 3); bool on = c.b(4, 5); g->dt = c.logu(0.05, 2); g->iteration = c.i(0, 3); setpar("evolve_DissipationFactor", strf("%.17g", fac)); setpar("evolve_Dissipation_dt_Order", strf("%.17g", ord)); setpar("evolve_Dissipation", on ? "yes" : "no"); if (on && fac > 0) { dis = fac * powl(g->dt, ord); c.label("diffusion"); }
    for (auto n : {"ADMvars_dgxxx", "ADMvars_dgxxy", "ADMvars_dgxxz", "ADMvars_ddgxxxx", "ADMvars_ddgxxxy", "ADMvars_ddgxxxz", "ADMvars_ddgxxyy", "ADMvars_ddgxxyz", "ADMvars_ddgxxzz"}) if (IndLax((char*) n) < 0) newvar(g, n); else enablevarcomp(g, IndLax((char*) n)); }
  ScalarWave_evolve(un, up, dt, uc);
  ld wmin = 1e9; for (auto& s : S) for (auto& d : s.d) wmin = std::min(wmin, (ld) (d.b - d.a)); ld cond = 1 + (deg + 5) * (deg + 5) * (deg + 5) * (deg + 5) / (wmin * wmin);
  FORBOXES(g, b) { tBox* q = g->box[b]; bool rs = par.count("ScalarWave_reset_doubleCoveredPoints"); for (int p = 0; p < q->nnodes; p++) { ld x[3]; P3(q, p, x); ld u = Q[0].val(x), w = -nl * u * u * u / (1 + u * u), v = Q[1].val(x); for (int k = 0; k < 3; k++) { w += Q[0].val(x, k, k) + dis * Q[1].val(x, k, k); v += dis * Q[0].val(x, k, k); } if (pre) { v = x[0] + dt * v; w = -x[1] + dt * w; } ld tol = 1e-11L * (20 + L) * cond * (1 + dis); c.check(fabsl(q->v[un->index[0]][p] - v) <= tol && fabsl(q->v[un->index[1]][p] - w) <= tol, "rhs at (%Lg,%Lg,%Lg)%s: %.12g, %.12g instead of %.12Lg, %.12Lg", x[0], x[1], x[2], rs ? " (double covered points reset)" : "", q->v[un->index[0]][p], q->v[un->index[1]][p], v, w); } }
  if (timeforoutput_index(g, Ind((char*) "ScalarWave_rho"))) { ScalarWave_analyze(g); c.label("energy");
    FORBOXES(g, b) { tBox* q = g->box[b]; for (int p = 0; p < q->nnodes; p++) { ld x[3]; P3(q, p, x); ld u = Q[0].val(x), v = Q[1].val(x), e = v * v; for (int k = 0; k < 3; k++) e += Q[0].val(x, k) * Q[0].val(x, k); e = e / 2 + nl * (u * u - logl(1 + u * u)) / 2; c.check(fabsl(q->v[Ind((char*) "ScalarWave_rho")][p] - e) <= 1e-10L * (100 + e) * sqrtl(cond), "energy density at (%Lg,%Lg,%Lg): %.12g instead of %.12Lg", x[0], x[1], x[2], q->v[Ind((char*) "ScalarWave_rho")][p], e); } } }
}

// C29: constraints of exact and of arbitrary initial data
#include "adm.h"
using namespace pbt;
extern "C" {
void ADMconstraints(tVarList*) __attribute__((weak)); int computeADMconstraints(tGrid*) __attribute__((weak)); int ADMvars_undo_conformal_split(tGrid*) __attribute__((weak)); int set_K_initial(tGrid*) __attribute__((weak));
int SingleBH(tGrid*) __attribute__((weak)); int TestID(tGrid*) __attribute__((weak));
double ADMvars_detg(double, double, double, double, double, double) __attribute__((weak));
double ADMvars_invg(double, double, double, double, double, double, double*, double*, double*, double*, double*, double*) __attribute__((weak)); }
static vector<BoxSpec> gen_boxes(Case& c, int nmin, int nmax, double lo, double hi) { vector<BoxSpec> S(c.i(1, 2)); for (auto& s : S) for (auto& d : s.d) { d = {c.i(nmin, nmax), c.sym(2), 0, c.b() ? "ChebExtrema" : "ChebZeros", "64 NUMREC_FFT"}; d.b = d.a + c.u(lo, hi); } return S; }
static int I(const char* n) { return Ind((char*) n); }
static void pos(tBox* q, int p, ld* x) { const char* N[] = {"x", "y", "z"}; const char* X[] = {"X", "Y", "Z"}; for (int k = 0; k < 3; k++) x[k] = q->v[I(N[k])] ? q->v[I(N[k])][p] : q->v[I(X[k])][p]; }
static double extent(tGrid* g) { double L = 0; FORBOXES(g, b) for (int p = 0; p < g->box[b]->nnodes; p++) { ld x[3]; pos(g->box[b], p, x); for (ld v : x) L = std::max(L, fabs((double) v)); } return L; }
static double width(const vector<BoxSpec>& S) { double w = 1e9; for (auto& s : S) for (auto& d : s.d) w = std::min(w, d.b - d.a); return w; }
static bool spd(const ld g[3][3]) { return g[0][0] > 0 && g[0][0]*g[1][1] - g[0][1]*g[0][1] > 0 && det3(g) > 0; }
static void sym(tBox* q, int idx, int p, ld o[3][3]) { for (int k = 0; k < 6; k++) o[S6[k][0]][S6[k][1]] = o[S6[k][1]][S6[k][0]] = q->v[idx + k][p]; }

// data that need not satisfy the constraints
PBT(constraints, {.quick = 1500, .thorough = 30000, .cpu_s = 40}) {
  if (!ADMconstraints) { c.label("no function"); return; }
  setpar("physics", "ADMvars"); int deg = c.i(1, 3); auto S = gen_boxes(c, deg + 1, deg + 4, 0.6, 3); bool norm = c.b(), tbt = c.b(), dd = c.b(), conf = c.b(2, 3), undo = conf && c.b(1, 3); int matter = c.i(0, 2);
  setpar("ADMvars_normalizedConstraints", norm ? "yes" : "no"); setpar("ADMvars_useDD", dd ? "yes" : "no"); if (norm) setpar("ADMvars_ConstraintNorm", tbt ? "TermByTerm" : "dumb");
  tGrid* g = new_grid(S, true, {{"Coordinates_set_bfaces", "no"}}); double L = extent(g), w = width(S); ADMdata D = gen_adm(c, L, deg);
  Poly mr = gen_poly(c, L, 2, 0.5), mj[3], ms[6]; for (auto& p : mj) p = gen_poly(c, L, 2, 0.5); for (auto& p : ms) p = gen_poly(c, L, 2, 0.5);
  for (const char* v : {"gxx", "Kxx", "alpha", "betax", "ham", "momx", "trK", "dtrK_dt", "psi", "dpsiopsix", "ddpsiopsixx", "K_initial"}) enablevar(g, I(v)); if (norm) { enablevar(g, I("normham")); enablevar(g, I("normmomx")); } if (matter) { enablevar(g, I("rho")); enablevar(g, I("jx")); } if (matter == 2) enablevar(g, I("Sxx"));
  psiandderivs->grid = g; bool ok = true; vector<vector<ADMpt>> Q;
  FORBOXES(g, b) { tBox* q = g->box[b]; vector<ADMpt> v; for (int p = 0; p < q->nnodes; p++) { ld x[3]; pos(q, p, x); ADMpt o = D.phys(x, conf); if (!spd(o.g)) ok = false; v.push_back(o);
    for (int k = 0; k < 6; k++) { q->v[I("gxx") + k][p] = (double) (D.g0[k] + D.g[k].val(x)); q->v[I("Kxx") + k][p] = (double) D.K[k].val(x); if (matter == 2) q->v[I("Sxx") + k][p] = (double) ms[k].val(x); }
    q->v[I("alpha")][p] = (double) o.al; for (int k = 0; k < 3; k++) { q->v[I("betax") + k][p] = (double) o.be[k]; q->v[I("dpsiopsix") + k][p] = conf ? (double) D.p.val(x, k) : 0; if (matter) q->v[I("jx") + k][p] = (double) mj[k].val(x); } if (matter) q->v[I("rho")][p] = (double) mr.val(x);
    q->v[I("psi")][p] = conf ? (double) expl(D.p.val(x)) : 1; for (int k = 0; k < 6; k++) { int i = S6[k][0], j = S6[k][1]; q->v[I("ddpsiopsixx") + k][p] = conf ? (double) (D.p.val(x, i, j) + D.p.val(x, i) * D.p.val(x, j)) : 0; } } Q.push_back(v); }
  c.describe("boxes %d %s deg %d%s%s%s matter %d norm %s", (int) S.size(), specstr(S[0]).c_str(), deg, dd ? " DD" : "", conf ? " psi" : "", undo ? " undone" : "", matter, norm ? tbt ? "TermByTerm" : "dumb" : "none");
  if (!ok) c.discard(); c.nontrivial(); c.label(strf("matter %d", matter)); if (conf) c.label("conformal factor");
  if (set_K_initial) { set_K_initial(g); FORBOXES(g, b) for (int p = 0; p < g->box[b]->nnodes; p++) { const ADMpt& o = Q[b][p]; double v = g->box[b]->v[I("K_initial")][p]; c.check(fabsl(v - o.trK) <= 1e-11L * (1 + o.mag), "K_initial %.15g instead of %.15Lg", v, o.trK); } }
  if (undo && ADMvars_undo_conformal_split) { ADMvars_undo_conformal_split(g); FORBOXES(g, b) { tBox* q = g->box[b]; for (int p = 0; p < q->nnodes; p++) { ld G[3][3]; sym(q, I("gxx"), p, G); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c.check(fabsl(G[i][j] - Q[b][p].g[i][j]) <= 1e-13L * (1 + fabsl(Q[b][p].g[0][0])), "physical metric %.17Lg instead of %.17Lg after undoing the split", G[i][j], Q[b][p].g[i][j]); double one = q->v[I("psi")][p]; for (int k = 0; k < 9; k++) c.check(q->v[I("dpsiopsix") + k][p] == 0, "a derivative of psi is left after undoing the split"); c.check(one == 1, "psi=%.17g after undoing the split", one); } }
    // now only a resolved metric has exact derivatives
    if (D.p.co.size()) return; }
  tVarList* u = vlalloc(g); for (const char* v : {"gxx", "Kxx", "alpha", "betax", "rho", "jx", "Sxx", "ham", "momx", "trK", "dtrK_dt"}) vlpush(u, I(v)); vlpush(u, I(norm ? "normham" : "ham")); vlpush(u, I(norm ? "normmomx" : "momx"));
  Snap sn; std::set<BV> ex; FORBOXES(g, b) for (int k = 0; k < g->nvariables; k++) { string n = VarName(k); if (n.find("ADMvars_d") == 0 || n == "ham" || n.find("mom") == 0 || n.find("norm") == 0 || n == "trK" || n == "dtrK_dt" || n.find("temp") == 0) ex.insert(BV(b, k)); } sn.add(g, ex);
  ADMconstraints(u); c.check(sn.same(), "ADMconstraints changed %s", sn.bad().c_str());
  FORBOXES(g, b) { tBox* q = g->box[b]; for (int p = 0; p < q->nnodes; p++) { ld x[3]; pos(q, p, x); const ADMpt& o = Q[b][p]; ld f = conf ? expl(4 * D.p.val(x)) : 1, gm = 0; (void) f; for (auto& r : o.gu) for (ld v : r) gm = std::max(gm, fabsl(v)); ld tol = 3e-12L * (1 + gm) * (1 + gm) * (1 + o.mag) * (1 + 1 / (w * w)) * (1 + fabsl(o.g[0][0])) * 40;
    ld hr = matter ? 16 * PIl * mr.val(x) : 0, H = o.ham - hr, m[3], S3 = 0; for (int k = 0; k < 3; k++) m[k] = o.mom[k] - (matter ? 8 * PIl * mj[k].val(x) : 0); if (matter == 2) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) S3 += o.gu[i][j] * ms[ADMdata::at(i, j)].val(x); S3 -= 3 * mr.val(x); }
    auto cmp = [&](const char* n, double v, ld e) { c.check(fabsl(v - e) <= tol, "%s at (%Lg,%Lg,%Lg) box %d: %.14g instead of %.14Lg (tolerance %.2Lg)", n, x[0], x[1], x[2], b, v, e, tol); };
    if (!norm) { cmp("ham", q->v[I("ham")][p], H); for (int k = 0; k < 3; k++) cmp("mom", q->v[I("momx") + k][p], m[k]); }
    else { double h = q->v[I("ham")][p], nh = q->v[I("normham")][p]; cmp("ham", h, H); 
      if (!tbt) { ld den = fabsl(o.R) + o.trK*o.trK + fabsl(o.K2) + fabsl(hr); if (den > 1e3L * tol) c.check(fabsl(nh - H / den) <= 10 * tol / den, "normham %.14g instead of %.14Lg", nh, H / den); }
      else if (fabs(h) > 10 * tol) c.check(nh * h > 0 && fabs(nh) <= 1.01, "normham=%g for ham=%g (exact %Lg, tolerance %Lg, R %Lg trK %Lg K2 %Lg)", nh, h, H, tol, o.R, o.trK, o.K2); // normalised by the sum of the terms
      ld den[3], dsum = 0, dh = o.trK*o.trK + fabsl(o.K2) + fabsl(hr); // the sizes of the terms
      { ld RA = 0, RB = 0, RC = 0, RD = 0, Gd[3][3][3]; memset(Gd, 0, sizeof Gd); for (int a = 0; a < 3; a++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int e = 0; e < 3; e++) Gd[a][i][j] += o.g[a][e] * o.Gam[e][i][j];
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int a = 0; a < 3; a++) for (int e = 0; e < 3; e++) { ld w = o.gu[i][j] * o.gu[a][e]; RA -= w * o.ddg[i][j][a][e]; RB += w * o.ddg[j][e][i][a]; for (int f = 0; f < 3; f++) { RC += w * o.Gam[f][i][a] * Gd[f][j][e]; RD -= w * o.Gam[f][i][j] * Gd[f][a][e]; } } dh += fabsl(RA) + fabsl(RB) + fabsl(RC) + fabsl(RD); }
      for (int k = 0; k < 3; k++) { ld t[6] = {0, 0, 0, 0, 0, 0}; for (int a = 0; a < 3; a++) for (int e = 0; e < 3; e++) { ld w = o.gu[a][e]; t[0] += w * o.dK[k][e][a]; t[3] += w * o.dK[a][e][k]; for (int d = 0; d < 3; d++) { t[1] -= w * o.Gam[d][a][k] * o.K[d][e]; t[2] -= w * o.Gam[d][a][e] * o.K[k][d]; t[4] -= w * o.Gam[d][k][a] * o.K[d][e]; t[5] -= w * o.Gam[d][k][e] * o.K[a][d]; } }
        ld mr_ = matter ? fabsl(8 * PIl * mj[k].val(x)) : 0; den[k] = tbt ? fabsl(t[0]) + fabsl(t[1]) + fabsl(t[2]) + fabsl(t[3]) + fabsl(t[4]) + fabsl(t[5]) + mr_ : fabsl(t[0] + t[1] + t[2]) + fabsl(t[3] + t[4] + t[5]) + mr_; dsum += den[k]; }
      if (tbt && dh > 1e3L * tol) c.check(fabsl(nh - H / dh) <= 10 * tol / dh, "normham %.14g instead of %.14Lg", nh, H / dh);
      for (int k = 0; k < 3; k++) { double mm = q->v[I("momx") + k][p], nm = q->v[I("normmomx") + k][p]; cmp("mom", mm, m[k]); if (fabs(mm) > 10 * tol) c.check(nm * mm > 0 && fabs(nm) <= 1.01, "normmom=%g for mom=%g", nm, mm); if (dsum > 1e3L * tol) c.check(fabsl(nm - m[k] / dsum) <= 10 * tol / dsum, "normmom %.14g instead of %.14Lg", nm, m[k] / dsum); } }
    cmp("trK", q->v[I("trK")][p], o.trK); ld d = -o.lapal + o.al * (o.R + o.trK*o.trK) + o.al * 4 * PIl * S3; for (int k = 0; k < 3; k++) d += o.be[k] * o.dtrK[k]; cmp("dtrK_dt", q->v[I("dtrK_dt")][p], d); } }
}
PBT(metric_algebra, {.quick = 3000, .thorough = 60000}) {
  if (!ADMvars_detg || !ADMvars_invg) { c.label("no function"); return; } ld A[3][3], g[3][3], u[3][3]; for (auto& r : A) for (ld& v : r) v = c.sym(2); for (int i = 0; i < 3; i++) A[i][i] += 1; ld s = c.logu(1e-3, 1e3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { g[i][j] = 0; for (int k = 0; k < 3; k++) g[i][j] += s * A[i][k] * A[j][k]; g[i][j] = (double) g[i][j]; }
  ld n = g[0][0] + g[1][1] + g[2][2]; if (det3(g) < 1e-6L * n * n * n) c.discard(); inv3(g, u); c.nontrivial(); double o[6], d = ADMvars_invg(g[0][0], g[0][1], g[0][2], g[1][1], g[1][2], g[2][2], o, o+1, o+2, o+3, o+4, o+5), d2 = ADMvars_detg(g[0][0], g[0][1], g[0][2], g[1][1], g[1][2], g[2][2]);
  c.check(fabsl(d - det3(g)) <= 1e-14L * n*n*n && fabsl(d2 - det3(g)) <= 1e-14L * n*n*n, "det %.17g, %.17g instead of %.17Lg", d, d2, det3(g)); for (int k = 0; k < 6; k++) c.check(fabsl(o[k] - u[S6[k][0]][S6[k][1]]) <= 1e-13L * n*n*n * n*n / (det3(g) * det3(g)) * 10 * n*n / det3(g) * n, "inverse metric component %d: %.17g instead of %.17Lg", k, o[k], u[S6[k][0]][S6[k][1]]); }
// Kerr in Kerr-Schild coordinates and Schwarzschild in isotropic coordinates
struct BH { ld M, a[3]; bool iso;
  ld r(const ld* x) const { ld p2 = x[0]*x[0]+x[1]*x[1]+x[2]*x[2]; if (iso) return sqrtl(p2); ld a2 = a[0]*a[0]+a[1]*a[1]+a[2]*a[2], ax = a[0]*x[0]+a[1]*x[1]+a[2]*x[2], d = p2 - a2, w = sqrtl(d*d + 4*ax*ax); return sqrtl(d >= 0 ? (d + w) / 2 : 2*ax*ax / (w - d)); }
  void get(const ld* x, ld G[3][3], ld& al, ld* be) const { ld R = r(x); if (iso) { ld m = M / (2*R), p = (1 + m)*(1 + m); p *= p; for (int i = 0; i < 3; i++) { be[i] = 0; for (int j = 0; j < 3; j++) G[i][j] = i == j ? p : 0; } al = (1 - m) / (1 + m); return; }
    ld a2 = a[0]*a[0]+a[1]*a[1]+a[2]*a[2], ax = a[0]*x[0]+a[1]*x[1]+a[2]*x[2], H = M*R*R*R / (R*R*R*R + ax*ax), cr[3] = {a[1]*x[2]-a[2]*x[1], a[2]*x[0]-a[0]*x[2], a[0]*x[1]-a[1]*x[0]}, l[3]; for (int i = 0; i < 3; i++) l[i] = (R*x[i] - cr[i] + ax*a[i]/R) / (R*R + a2);
    al = 1 / sqrtl(1 + 2*H); for (int i = 0; i < 3; i++) { be[i] = 2*H / (1 + 2*H) * l[i]; for (int j = 0; j < 3; j++) G[i][j] = (i == j) + 2*H*l[i]*l[j]; } } };
static BH gen_bh(Case& c) { BH B; B.iso = c.b(1, 3); B.M = c.b(1, 3) ? 1 : c.logu(0.2, 5); int k = c.i(0, 3); for (int i = 0; i < 3; i++) B.a[i] = (double) (k == 0 || (k == 1 && i != 2) ? 0 : c.sym(0.57) * B.M); const char* n[] = {"BHsx1", "BHsy1", "BHsz1"};
  B.M = (double) B.M; setpar("BHmass1", strf("%.17g", (double) B.M)); for (int i = 0; i < 3; i++) setpar(n[i], strf("%.17g", (double) B.a[i])); setpar("SingleBH_type", B.iso ? "isotropic" : "KerrSchild"); if (B.iso) for (ld& v : B.a) v = 0; return B; }
// distance to the nearest singularity of metric or conformal factor
static ld ring(const BH& B, const ld* x) { ld aa = sqrtl(B.a[0]*B.a[0]+B.a[1]*B.a[1]+B.a[2]*B.a[2]), p2 = x[0]*x[0]+x[1]*x[1]+x[2]*x[2]; if (aa == 0) return sqrtl(p2); ld z = (B.a[0]*x[0]+B.a[1]*x[1]+B.a[2]*x[2]) / aa; return std::min(sqrtl(p2), hypotl(sqrtl(fabsl(p2 - z*z)) - aa, z)); }
template<class F> static ld fdiff(F f, const ld* x, int k, ld h) { static const ld w[4] = {4/5.L, -1/5.L, 4/105.L, -1/280.L}; ld s = 0; for (int m = 1; m <= 4; m++) for (int sg = -1; sg <= 1; sg += 2) { ld y[3] = {x[0], x[1], x[2]}; y[k] += sg * m * h; s += sg * w[m-1] / h * f(y); } return s; }
PBT(black_hole, {.quick = 2500, .thorough = 60000}) {
  if (!SingleBH) { c.label("no function"); return; }
  setpar("physics", "ADMvars SingleBH"); BoxSpec s; for (auto& d : s.d) d = {2, 0, 1, "ChebExtrema", "0 NUMREC_FFT"}; s.d[0].n = c.i(2, 3); vector<BoxSpec> S(c.i(1, 2), s); BH B = gen_bh(c); bool conf = c.b(), one = c.b(1, 5), zero = c.b(1, 5); setpar("SingleBH_ConformalFactor", conf ? "yes" : "no"); if (one) setpar("SingleBH_initial_lapse", "one"); if (zero) setpar("SingleBH_initial_shift", "zero"); if (c.b()) for (const char* v : {"ADMvars_memory_for_g_K", "ADMvars_memory_for_psiandderivs"}) setpar(v, "no");
  tGrid* g = new_grid(S, true, {{"Coordinates_set_bfaces", "no"}}); enablevar(g, I("x")); enablevar(g, I("y")); enablevar(g, I("z")); ld a2 = 0; for (ld v : B.a) a2 += v*v; ld L = B.M;
  FORBOXES(g, b) for (int p = 0; p < g->box[b]->nnodes; p++) { double x[3]; for (int t = 0;; t++) { double R = (double) L * c.logu(0.2, 300); for (double& q : x) q = c.b(1, 6) ? 0 : c.sym(R); ld y[3] = {x[0], x[1], x[2]}, r = B.r(y), p2 = y[0]*y[0]+y[1]*y[1]+y[2]*y[2]; if (p2 > 0 && r > 0.05L * L && a2 + p2 < 400 * r * r && fabsl(r - L / 2) > 0.01L * L) break; if (t > 20) { x[0] = 1.5 * (double) L; x[1] = -2 * (double) L; x[2] = 3 * (double) L; break; } } g->box[b]->v[I("x")][p] = x[0]; g->box[b]->v[I("y")][p] = x[1]; g->box[b]->v[I("z")][p] = x[2]; }
  c.describe("%s M=%Lg a=(%Lg,%Lg,%Lg)%s%s%s boxes %d", B.iso ? "isotropic" : "Kerr-Schild", B.M, B.a[0], B.a[1], B.a[2], conf ? " psi" : "", one ? " lapse one" : "", zero ? " shift zero" : "", (int) S.size()); c.nontrivial(); if (a2 > 0) c.label("spin"); c.label(B.iso ? "isotropic" : "Kerr-Schild");
  SingleBH(g);
  FORBOXES(g, b) { tBox* q = g->box[b]; for (int p = 0; p < q->nnodes; p++) { ld x[3], G[3][3], al, be[3], gb[3][3], K[3][3]; for (int k = 0; k < 3; k++) x[k] = q->v[I("x") + k][p]; B.get(x, G, al, be); ld r = B.r(x), p2 = x[0]*x[0]+x[1]*x[1]+x[2]*x[2], cond = 1 + (a2 + p2) / (r*r), psi = q->v[I("psi")][p], p4 = psi*psi*psi*psi, big = G[0][0] + G[1][1] + G[2][2], eps = 1e-13L * cond * cond; sym(q, I("gxx"), p, gb); sym(q, I("Kxx"), p, K);
    string at = strf("at (%.12Lg,%.12Lg,%.12Lg), r=%.6Lg", x[0], x[1], x[2], r); c.check(spd(gb) && psi > 0, "conformal metric not positive definite or psi=%Lg %s", psi, at.c_str());
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c.check(fabsl(p4 * gb[i][j] - G[i][j]) <= eps * big, "physical metric %d%d %.16Lg instead of %.16Lg %s", i, j, p4 * gb[i][j], G[i][j], at.c_str());
    double la = q->v[I("alpha")][p]; ld wal = one ? 1 : al; c.check(fabsl(la - wal) <= eps, "lapse %.16g instead of %.16Lg %s", la, wal, at.c_str()); for (int k = 0; k < 3; k++) { double bb = q->v[I("betax") + k][p]; ld w = zero ? 0 : be[k]; c.check(fabsl(bb - w) <= eps, "shift %d %.16g instead of %.16Lg %s", k, bb, w, at.c_str()); }
    ld h = 0.004L * ring(B, x), Kw[3][3], ks = 0, tr = 0, gu[3][3]; inv3(G, gu); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { ld s = 0; for (int k = 0; k < 3; k++) { auto gf = [&](int u, int v) { return [&B, u, v](const ld* y) { ld A[3][3], l, bt[3]; B.get(y, A, l, bt); return A[u][v]; }; }; auto bf = [&](int u) { return [&B, u](const ld* y) { ld A[3][3], l, bt[3]; B.get(y, A, l, bt); return bt[u]; }; }; if (!B.iso) s += be[k] * fdiff(gf(i, j), x, k, h) + G[k][j] * fdiff(bf(k), x, i, h) + G[i][k] * fdiff(bf(k), x, j, h); } Kw[i][j] = B.iso ? 0 : s / (2 * al); ks = std::max(ks, fabsl(Kw[i][j])); tr += gu[i][j] * Kw[i][j]; } ks += big / r * 1e-3L;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c.check(fabsl(K[i][j] - Kw[i][j]) <= eps * 10 * big * ks * (1 + B.M / r), "K %d%d %.16Lg instead of %.16Lg %s", i, j, K[i][j], Kw[i][j], at.c_str());
    double ki = q->v[I("K_initial")][p]; c.check(fabsl(ki - tr) <= eps * 100 * big * big * ks * (1 + B.M / r), "K_initial %.16g instead of %.16Lg %s", ki, tr, at.c_str());
    // psi is a function: its value at this point from the stored value at other points is not known, so recompute it there
    auto run = [&](const ld* y) { double o[3], v; for (int k = 0; k < 3; k++) { o[k] = q->v[I("x") + k][p]; q->v[I("x") + k][p] = (double) y[k]; } (void) o; tBox* keep = q; SingleBH(g); v = keep->v[I("psi")][p]; for (int k = 0; k < 3; k++) q->v[I("x") + k][p] = o[k]; return (ld) v; };
    if (p == 0) { vector<double> sv; for (int k = 0; k < 10; k++) sv.push_back(q->v[I("psi") + k][p]); ld H = 0.02L * ring(B, x); vector<ld> d1(3); auto rat = [&](const ld* y, int k, ld hh) { ld z[3] = {x[0], x[1], x[2]}; z[k] = (double) (y[k] + hh); return z[k]; }; (void) rat;
      bool xc = c.b(1, 4); // the second derivatives need more calls
      for (int k = 0; k < 3; k++) { ld d = fdiff(run, x, k, H); c.check(fabsl(sv[1 + k] - d / sv[0]) <= 3e-10L / ring(B, x) * cond, "dpsiopsi %d is %.12g, but psi has %.12Lg %s", k, sv[1 + k], d / sv[0], at.c_str());
        if (xc) for (int l = k; l < 3; l++) { auto df = [&](const ld* y) { return fdiff(run, y, l, 2 * H); }; ld dd = fdiff(df, x, k, 2 * H); int n = 4 + ADMdata::at(k, l); c.check(fabsl(sv[n] - dd / sv[0]) <= 2e-6L / ring(B, x) / ring(B, x) * cond, "ddpsiopsi %d%d is %.12g, but psi has %.12Lg %s", k, l, sv[n], dd / sv[0], at.c_str()); } }
      SingleBH(g); } } }
}
// the computed constraints of the exact data converge to zero, and the program's own analysis says so
PBT(convergence, {.quick = 150, .thorough = 3000, .cpu_s = 60}) {
  if (!SingleBH || !computeADMconstraints) { c.label("no function"); return; }
  setpar("physics", "ADMvars SingleBH"); BH B = gen_bh(c); bool conf = c.b(), dd = c.b(); setpar("SingleBH_ConformalFactor", conf ? "yes" : "no"); setpar("ADMvars_useDD", dd ? "yes" : "no"); BoxSpec s; double M = (double) B.M; ld ctr[3]; double half = M * c.u(0.2, 0.5);
  for (int t = 0;; t++) { for (ld& v : ctr) v = c.sym(6 * M); if (ring(B, ctr) > 3 * M || t > 20) break; } if (ring(B, ctr) <= 3 * M) { ctr[0] = 2.5 * M; ctr[1] = 2 * M; ctr[2] = -1.5 * M; }
  for (int k = 0; k < 3; k++) s.d[k] = {c.i(13, 15), (double) ctr[k] - half, (double) ctr[k] + half, c.b() ? "ChebExtrema" : "ChebZeros", "64 NUMREC_FFT"};
  setpar("0doutiter", "1"); setpar("0doutput", "ham momx trK dtrK_dt"); tGrid* g = new_grid({s}, true, {{"Coordinates_set_bfaces", "no"}}); bool xy = g->box[0]->v[I("x")] != nullptr; enablevar(g, I("x")); enablevar(g, I("y")); enablevar(g, I("z")); if (!xy) for (int p = 0; p < g->box[0]->nnodes; p++) { const char* X[] = {"X", "Y", "Z"}; for (int k = 0; k < 3; k++) g->box[0]->v[I("x") + k][p] = g->box[0]->v[I(X[k])][p]; }
  c.describe("%s M=%g a=(%Lg,%Lg,%Lg)%s%s box around (%Lg,%Lg,%Lg) half width %g", B.iso ? "isotropic" : "Kerr-Schild", M, B.a[0], B.a[1], B.a[2], conf ? " psi" : "", dd ? " DD" : "", ctr[0], ctr[1], ctr[2], half); c.nontrivial();
  SingleBH(g); computeADMconstraints(g); tBox* q = g->box[0]; c.check(q->v[I("ham")] != nullptr, "no constraints computed"); double m[4] = {0, 0, 0, 0}; for (int p = 0; p < q->nnodes; p++) { m[0] = std::max(m[0], fabs(q->v[I("ham")][p])); for (int k = 0; k < 3; k++) m[1] = std::max(m[1], fabs(q->v[I("momx") + k][p])); m[2] = std::max(m[2], fabs(q->v[I("trK")][p] - q->v[I("K_initial")][p])); m[3] = std::max(m[3], fabs(q->v[I("dtrK_dt")][p])); if (q->v[I("ham")][p] != q->v[I("ham")][p]) m[0] = 1e300; }
  double t = 3e-6 / (M * M); c.check(m[0] < t && m[1] < t && m[2] < 1e-11 / M && m[3] < t, "constraints of exact data: ham %g mom %g, trK off by %g, its time derivative %g (should be below %g)", m[0], m[1], m[2], m[3], t); c.log(); if (getenv("PBT_SHOW")) fprintf(stderr, "%g %g %g %g\n", m[0]*M*M, m[1]*M*M, m[2]*M, m[3]*M*M);
}
PBT(waves, {.quick = 600, .thorough = 20000}) {
  if (!TestID || !computeADMconstraints) { c.label("no function"); return; }
  setpar("physics", "ADMvars TestID"); int nb = c.i(1, 2), type = c.i(0, 2); double A = c.sym(type == 1 ? 0.5 : 0.3); vector<BoxSpec> S(nb); for (auto& s : S) { s.d[0] = {c.i(24, 36), c.sym(2), 0, "Fourier", c.b() ? "64 NUMREC_FFT" : "0 FFTW3"}; s.d[0].b = s.d[0].a + c.u(0.5, 3); for (int k = 1; k < 3; k++) { s.d[k] = {c.i(2, 4), c.sym(1), 0, c.b() ? "Fourier" : "ChebExtrema", "64 NUMREC_FFT"}; s.d[k].b = s.d[k].a + 1; } }
  setpar("TestID_type", type == 0 ? "1dGaugeWave" : type == 1 ? "1dLinearWave" : "RandomNoise"); setpar("TestID_amplitude", strf("%.17g", A)); bool one = c.b(1, 5), zero = c.b(1, 5), dd = c.b(); setpar("ADMvars_useDD", dd ? "yes" : "no"); if (one) setpar("TestID_initial_lapse", "one"); if (zero) setpar("TestID_initial_shift", "zero"); setpar("0doutiter", "1"); setpar("0doutput", "ham momx trK dtrK_dt");
  tGrid* g = new_grid(S, true, {{"Coordinates_set_bfaces", "no"}}); FORBOXES(g, b) { tBox* q = g->box[b]; if (!q->v[I("x")]) { const char* X[] = {"X", "Y", "Z"}; for (int k = 0; k < 3; k++) { enablevarcomp_inbox(q, I("x") + k); memcpy(q->v[I("x") + k], q->v[I(X[k])], 8 * q->nnodes); } } }
  c.describe("type %d A=%g boxes %d %s", type, A, nb, specstr(S[0]).c_str()); c.nontrivial(); c.label(type == 0 ? "gauge wave" : type == 1 ? "linear wave" : "noise"); TestID(g); vector<vector<double>> noise; if (type == 2) FORBOXES(g, b) for (int k = 0; k < 6; k++) noise.push_back(all_of(g->box[b], I("gxx") + k));
  FORBOXES(g, b) { tBox* q = g->box[b]; double Lx = S[b].d[0].b - S[b].d[0].a; for (int p = 0; p < q->nnodes; p++) { ld x = q->v[I("x")][p], ph = 2 * PIl * x / Lx, a = A * sinl(ph), ac = A * cosl(ph); ld G[3][3], K[3][3]; sym(q, I("gxx"), p, G); sym(q, I("Kxx"), p, K); double al = q->v[I("alpha")][p]; c.check(spd(G), "metric not positive definite");
    c.check(q->v[I("psi")][p] == 1, "psi=%g", q->v[I("psi")][p]); for (int k = 0; k < 9; k++) c.check(q->v[I("dpsiopsix") + k][p] == 0, "psi has a derivative");
    if (type == 2) { ld e = 2.6e-7L / (S[b].d[0].n * S[b].d[0].n); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c.check(fabsl(G[i][j] - (i == j)) <= e && fabsl(K[i][j]) <= e, "noise of size %Lg", std::max(fabsl(G[i][j] - (i == j)), fabsl(K[i][j]))); continue; }
    // K_ij = -(d/dt g_ij)/(2 alpha) for waves a(x-t)
    ld w[3] = {type == 0 ? 1 + a : 1, type == 1 ? 1 + a : 1, type == 1 ? 1 - a : 1}, dt = -2 * PIl / Lx * ac, wk[3] = {type == 0 ? -dt / 2 / sqrtl(1 + a) : 0, type == 1 ? -dt / 2 : 0, type == 1 ? dt / 2 : 0}, wl = one || type == 1 ? 1 : sqrtl(1 + a), e = 1e-13L * (1 + 10 / Lx);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c.check(fabsl(G[i][j] - (i == j ? w[i] : 0)) <= e && fabsl(K[i][j] - (i == j ? wk[i] : 0)) <= e, "data %d%d at x=%Lg: g=%.15Lg K=%.15Lg instead of %.15Lg, %.15Lg", i, j, x, G[i][j], K[i][j], i == j ? w[i] : 0, i == j ? wk[i] : 0);
    c.check(fabsl(al - wl) <= e, "lapse %.15g instead of %.15Lg", al, wl); for (int k = 0; k < 3; k++) c.check(q->v[I("betax") + k][p] == 0, "there is a shift"); } }
  computeADMconstraints(g); FORBOXES(g, b) { tBox* q = g->box[b]; double Lx = S[b].d[0].b - S[b].d[0].a; for (int p = 0; p < q->nnodes; p++) { double h = fabs(q->v[I("ham")][p]); for (int k = 0; k < 3; k++) h = std::max(h, fabs(q->v[I("momx") + k][p]));
    if (type == 0) c.check(h <= 2e-8 * (1 + 1 / Lx) * (1 + 1 / Lx) , "constraint violation %g of the gauge wave", h);
    if (type == 1) { // R of diag(1,1+a,1-a) and K: exact
      ld x = q->v[I("x")][p], ph = 2 * PIl * x / Lx, k1 = 2 * PIl / Lx, a = A * sinl(ph), da = A * k1 * cosl(ph), dda = -A * k1 * k1 * sinl(ph), u = 1 + a, v = 1 - a; ADMpt o; memset(&o, 0, sizeof o); o.g[0][0] = 1; o.g[1][1] = u; o.g[2][2] = v; o.dg[1][1][0] = da; o.dg[2][2][0] = -da; o.ddg[1][1][0][0] = dda; o.ddg[2][2][0][0] = -dda; o.K[1][1] = da / 2; o.K[2][2] = -da / 2; o.dK[1][1][0] = dda / 2; o.dK[2][2][0] = -dda / 2; o.al = 1; o.geom();
      c.check(fabsl(q->v[I("ham")][p] - o.ham) <= 1e-9L * k1 * k1 * 10 && fabsl(q->v[I("momx")][p] - o.mom[0]) <= 1e-9L * k1 * k1 * 10, "linear wave: ham %.12g mom %.12g instead of %.12Lg, %.12Lg", q->v[I("ham")][p], q->v[I("momx")][p], o.ham, o.mom[0]); }
    } }
  if (type == 2) { TestID(g); int n = 0; FORBOXES(g, b) for (int k = 0; k < 6; k++) c.check(all_of(g->box[b], I("gxx") + k) == noise[n++], "the noise is not reproducible"); }
}
PBT(energy, {.quick = 150, .thorough = 2000, .cpu_s = 60}) {
  if (!SingleBH || !computeADMconstraints) { c.label("no function"); return; }
  setpar("physics", "ADMvars SingleBH"); BH B = gen_bh(c); if (!B.iso) { setpar("SingleBH_type", "isotropic"); B.iso = true; } double M = (double) B.M; bool conf = c.b(); setpar("SingleBH_ConformalFactor", conf ? "yes" : "no"); vector<BoxSpec> S(c.i(1, 2)); double r = M * c.u(60, 200); for (auto& s : S) { s.coord = "SphericalDF"; double e = r * c.u(1.3, 2); s.d[0] = {c.i(14, 17), r, e, "ChebExtrema", "64 NUMREC_FFT"}; r = e; s.d[1] = {2 * c.i(4, 8), 0, 2 * M_PI, "Fourier", "64 NUMREC_FFT"}; s.d[2] = {2 * c.i(3, 6), 0, 2 * M_PI, "Fourier", "64 NUMREC_FFT"}; }
  setpar("0doutiter", "1"); setpar("0doutput", "E_ADM"); tGrid* g = new_grid(S, true, {{"Coordinates_set_bfaces", "no"}}); c.describe("M=%g%s boxes %d %s", M, conf ? " psi" : "", (int) S.size(), specstr(S[0]).c_str()); c.nontrivial();
  SingleBH(g); computeADMconstraints(g); FORBOXES(g, b) { tBox* q = g->box[b]; for (int p = 0; p < q->nnodes; p++) { ld x[3]; pos(q, p, x); ld R = sqrtl(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]); double E = q->v[I("E_ADM")][p]; if (getenv("PBT_SHOW") && p < q->n1) fprintf(stderr, "%Lg: E/M-1=%g, M/r=%Lg\n", R / M, E / M - 1, M / R); c.check(fabsl(E / M - 1) <= 6 * M / R + 1e-6L, "ADM energy %.12g at r=%Lg for mass %g", E, R, M); } }
}

// C23: method of lines time integrators against their definitions
#include "grid.h"
using namespace pbt;
extern "C" int evolve(tGrid*);
struct Tab { int s; vector<vector<ld>> a; vector<ld> b; int order; };
static Tab table(const string& m) {
  if (m == "rk1" || m == "euler") return {1, {{}}, {1}, 1};
  if (m == "rk2") return {2, {{}, {1}}, {0.5L, 0.5L}, 2};
  if (m == "rk2a" || m == "midpoint") return {2, {{}, {0.5L}}, {0, 1}, 2};
  if (m == "rk3") return {3, {{}, {0.5L}, {-1, 2}}, {1/6.L, 2/3.L, 1/6.L}, 3};
  if (m == "rk3a") return {3, {{}, {1/3.L}, {0, 2/3.L}}, {0.25L, 0, 0.75L}, 3};
  if (m == "rk3b") return {3, {{}, {0.5L}, {0, 0.75L}}, {2/9.L, 1/3.L, 4/9.L}, 3};
  if (m == "rk4") return {4, {{}, {0.5L}, {0, 0.5L}, {0, 0, 1}}, {1/6.L, 1/3.L, 1/3.L, 1/6.L}, 4};
  if (m == "rk4a") return {4, {{}, {0.4L}, {-0.15L, 0.75L}, {19/44.L, -15/44.L, 10/11.L}}, {11/72.L, 25/72.L, 25/72.L, 11/72.L}, 4};
  return {6, {{}, {0.2L}, {3/40.L, 9/40.L}, {44/45.L, -56/15.L, 32/9.L}, {19372/6561.L, -25360/2187.L, 64448/6561.L, -212/729.L}, {9017/3168.L, -355/33.L, 46732/5247.L, 49/176.L, -5103/18656.L}}, {35/384.L, 0, 500/1113.L, 125/192.L, -2187/6784.L, 11/84.L}, 5};
}
// the system:  f_j = sum_k A_jk u_k + q_j u_j u_{j+1} + s_j cos(w t + p) , pointwise
struct Sys { int N; vector<double> A, q, s; double w, p; int cond;
  template<class T> void f(const T* u, T t, T* r) const { for (int j = 0; j < N; j++) { T x = 0; for (int k = 0; k < N; k++) x += (T) A[j * N + k] * u[k]; x += (T) q[j] * u[j] * u[(j + 1) % N]; x += (T) s[j] * std::cos((T) w * t + (T) p); r[j] = x; } }
  template<class T> void alg(T* u, const T* old) const { if (cond == 1) u[N - 1] = -u[0]; if (cond == 2) u[0] = old[0]; if (cond == 3) { T s2 = 0; for (int j = 0; j < N; j++) s2 += u[j] * u[j]; s2 = std::sqrt(s2); if (s2 > 1) for (int j = 0; j < N; j++) u[j] /= s2; } }
};
static Sys sy; static vector<double> times, algt; static int badlist;
static void rhs(tVarList* un, tVarList* up, double c, tVarList* uc) {
  times.push_back(uc->time); tGrid* g = uc->grid; if (un->n != sy.N || up->n != sy.N || uc->n != sy.N) badlist++; int b;
  forallboxes(g, b) { tBox* x = g->box[b]; for (int i = 0; i < x->nnodes; i++) { vector<double> u(sy.N), r(sy.N); for (int j = 0; j < sy.N; j++) u[j] = x->v[uc->index[j]][i]; sy.f<double>(u.data(), uc->time, r.data()); for (int j = 0; j < sy.N; j++) x->v[un->index[j]][i] = c != 0 ? x->v[up->index[j]][i] + c * r[j] : r[j]; } }
}
static void alg(tVarList* un, tVarList* up) {
  algt.push_back(un->time); tGrid* g = un->grid; int b;
  forallboxes(g, b) { tBox* x = g->box[b]; for (int i = 0; i < x->nnodes; i++) { vector<double> u(sy.N), o(sy.N); for (int j = 0; j < sy.N; j++) { u[j] = x->v[un->index[j]][i]; o[j] = x->v[up->index[j]][i]; } sy.alg<double>(u.data(), o.data()); for (int j = 0; j < sy.N; j++) x->v[un->index[j]][i] = u[j]; } }
}
// one step of the method for one point
static vector<ld> step(const string& m, const vector<ld>& u0, ld t, ld h, vector<ld>& T, vector<ld>& AT, bool conds) {
  int N = sy.N; vector<ld> u = u0, r(N); T.clear(); AT.clear();
  auto A = [&](vector<ld>& v, ld tt) { if (conds) { sy.alg<ld>(v.data(), u0.data()); AT.push_back(tt); } };
  if (m == "icn") { vector<ld> q(N); ld tc = t; for (int n = 0; n < 3; n++) { for (int j = 0; j < N; j++) q[j] = (u[j] + u0[j]) / 2; sy.f<ld>(q.data(), (tc + t) / 2, r.data()); T.push_back((tc + t) / 2); for (int j = 0; j < N; j++) u[j] = u0[j] + h * r[j]; tc = t + h; A(u, tc); } return u; }
  if (m == "Euler") { sy.f<ld>(u0.data(), t, r.data()); T.push_back(t); for (int j = 0; j < N; j++) u[j] = u0[j] + h * r[j]; A(u, t + h); return u; }
  if (m == "Euler debug") { sy.f<ld>(u0.data(), t, r.data()); T.push_back(t); u = r; A(u, t); return u; }
  Tab b = table(m); vector<vector<ld>> k(b.s, vector<ld>(N));
  for (int i = 0; i < b.s; i++) { ld c = 0; u = u0; for (int l = 0; l < (int) b.a[i].size(); l++) { c += b.a[i][l]; for (int j = 0; j < N; j++) u[j] += h * b.a[i][l] * k[l][j]; } A(u, t + c * h); sy.f<ld>(u.data(), t + c * h, k[i].data()); T.push_back(t + c * h); }
  u = u0; for (int i = 0; i < b.s; i++) for (int j = 0; j < N; j++) u[j] += h * b.b[i] * k[i][j]; A(u, t + h); return u;
}
static const vector<string> METH = {"icn", "Euler", "rk1", "rk2", "rk2a", "rk3", "rk3a", "rk3b", "rk4", "rk4a", "rk5", "midpoint", "euler"};
static void gen_sys(Case& c, int N) { sy.N = N; sy.A.resize(N * N); sy.q.resize(N); sy.s.resize(N); for (auto& x : sy.A) x = c.b(1, 3) ? 0 : c.sym(1); for (auto& x : sy.q) x = c.b(1, 3) ? 0 : c.sym(1); for (auto& x : sy.s) x = c.b(1, 3) ? 0 : c.sym(1); sy.w = c.b(1, 4) ? 0 : c.sym(3); sy.p = c.sym(3); sy.cond = 0; }
static void setm(const string& m) { if (m == "icn") setpar("evolution_method", "icn"); else if (m[0] == 'E') { setpar("evolution_method", "euler"); setpar("evolve_euler_debug", m != "Euler" ? "yes" : "no"); } else { setpar("evolution_method", "rk"); setpar("evolution_method_rk", m); } }
PBT(definition, {.quick = 12000, .thorough = 100000}) {
  int nb = c.i(1, 3); vector<BoxSpec> S(nb); for (auto& s : S) for (auto& d : s.d) { d.basis = "ChebExtrema"; d.n = c.i(2, 3); d.a = 0; d.b = 1; d.tt = "0 NUMREC_FFT"; }
  static const char* TI[] = {"", "i", "(ij)"}; AddVar((char*) "other", (char*) "i", (char*) "d"); int nv = c.i(1, 3); for (int k = 0; k < nv; k++) AddVar(S_(strf("u%d", k)), (char*) TI[c.i(0, 2)], (char*) "d"); AddVar((char*) "other2", (char*) "", (char*) "d");
  int evols = c.b(1, 4) ? c.i(2, 4) : 1; if (evols > 1) c.label("several evolutions"); int nv0 = globalnvariables;
  for (int ev = 0; ev < evols; ev++) { // several evolutions in one process, as with iterated parameters
  string m = c.pick(METH); if (m == "Euler" && c.b(1, 3)) m = "Euler debug";
  double t = c.b() ? 0 : c.sym(5), h = c.b(1, 12) ? 0 : c.logu(1e-3, 0.5); if (h == 0) h = 0.25; string persist = c.b() ? "yes" : "no"; bool conds = c.b();
  tGrid* g = new_grid(S, false, {{"evolve_persist", persist}}); setm(m); if (conds && c.b(1, 6)) g->box[0]->inactive = 0; vector<int> off; if (nb > 1 && c.b(1, 4)) { intList* l = alloc_intList(); int b = c.i(0, nb - 1); push_intList(l, b); deactivate_boxes(g, l); free_intList(l); off.push_back(b); }
  tVarList* u = vlalloc(g); for (int k = 0; k < nv; k++) if (k == 0 || c.b(2, 3)) { int i = IndLax(S_(strf("u%d", k))); for (int v = 0; i < 0 && v < globalnvariables; v++) if (string(VarName(v)).compare(0, 2, strf("u%d", k)) == 0 && VarComponent(v) == 0) i = v; vlpush(u, i); }
  enablevarlist(u); enablevar(g, IndComponent0(IndLax((char*) "otherx"))); enablevar(g, IndLax((char*) "other2")); gen_sys(c, u->n); if (conds) sy.cond = c.i(u->n > 1 ? 1 : 2, 3); if (m == "Euler debug" && sy.cond == 3) sy.cond = 2;
  vector<vector<vector<ld>>> ref(nb); // [box][point][j]
  FORBOXES(g, b) { tBox* x = g->box[b]; ref[b].assign(x->nnodes, vector<ld>(u->n)); for (int j = 0; j < u->n; j++) { auto d = rnd(c, x->nnodes); memcpy(x->v[u->index[j]], d.data(), d.size() * 8); for (int i = 0; i < x->nnodes; i++) ref[b][i][j] = d[i]; } auto d = rnd(c, x->nnodes); memcpy(x->v[IndLax((char*) "otherx")], d.data(), d.size() * 8); d = rnd(c, x->nnodes); memcpy(x->v[IndLax((char*) "other2")], d.data(), d.size() * 8); }
  // the conditions hold initially
  FORBOXES(g, b) { tBox* x = g->box[b]; for (int i = 0; i < x->nnodes; i++) { vector<double> v(u->n); for (int j = 0; j < u->n; j++) v[j] = x->v[u->index[j]][i]; auto o = v; sy.alg<double>(v.data(), o.data()); for (int j = 0; j < u->n; j++) { x->v[u->index[j]][i] = v[j]; ref[b][i][j] = v[j]; } } }
  evolve_vlregister(u); evolve_rhsregister(rhs); evolve_algebraicConditionsregister(conds ? alg : nullptr); g->dt = h; g->time = t; g->iteration = 0; int steps = c.i(1, 4); if (m == "Euler debug") steps = 1;
  int chg = c.b(1, 3) ? c.i(0, u->n - 1) : -1; if (ev) setpar("evolve_compute_change", ""); if (chg >= 0) setpar("evolve_compute_change", VarName(u->index[chg]));
  c.describe("%s%s dt=%.17g t=%.17g, %d steps, %d vars (%s...), %d boxes%s, persist=%s, cond=%d, change=%d, w=%g", ev ? "; then " : "", m.c_str(), h, t, steps, u->n, VarName(u->index[0]), nb, off.empty() ? "" : " (one inactive)", persist.c_str(), sy.cond, chg, sy.w); c.label(m); if (u->n > 1 && sy.w != 0) c.nontrivial();
  std::set<BV> ex; FORBOXES(g, b) for (int j = 0; j < u->n; j++) if (!g->box[b]->inactive) ex.insert(BV(b, u->index[j])); double mag = 1;
  for (int s = 0; s < steps; s++) { Snap sn; { std::set<BV> e2 = ex; FORBOXES(g, b) for (int v = nv0; v < g->nvariables; v++) e2.insert(BV(b, v)); sn.add(g, e2); }
    times.clear(); algt.clear(); vector<ld> T, AT; auto old = ref; RunFun(EVOLVE, g);
    FORBOXES(g, b) { tBox* x = g->box[b]; if (x->inactive) continue; for (int i = 0; i < x->nnodes; i++) { ref[b][i] = step(m, ref[b][i], t, h, T, AT, conds); for (ld z : ref[b][i]) mag = std::max(mag, (double) fabsl(z)); } if (!(mag < 50)) c.discard();
      for (int i = 0; i < x->nnodes; i++) for (int j = 0; j < u->n; j++) { double got = x->v[u->index[j]][i]; c.check(near(got, (double) ref[b][i][j], 1e-12 * mag * (s + 1)), "step %d: %s is %.17g, %s gives %.17Lg (difference %.3g)", s + 1, VarName(u->index[j]), got, m.c_str(), ref[b][i][j], got - (double) ref[b][i][j]); } }
    bool all_off = T.empty(); if (!all_off) { c.check(times.size() == T.size(), "step %d evaluates the right hand side %d times, %s does so %d times", s + 1, (int) times.size(), m.c_str(), (int) T.size());
      for (size_t k = 0; k < T.size(); k++) c.check(near(times[k], (double) T[k], 1e-13 * (1 + fabs(t) + h)), "step %d evaluates the right hand side number %d at t=%.17g instead of %.17Lg", s + 1, (int) k, times[k], T[k]);
      c.check(algt.size() == AT.size(), "step %d applies the algebraic conditions %d times instead of %d", s + 1, (int) algt.size(), (int) AT.size()); }
    c.check(badlist == 0, "right hand side called with a wrong list"); c.check(sn.same(), "step %d changes %s, which is not evolved", s + 1, sn.bad().c_str());
    c.check(u->grid == g && same_bits(g->time, t) && g->dt == h, "evolve changes the grid's time");
    for (const char* suf : {"_p", "_q", "_r"}) { int i = IndLax(S_(string(VarName(u->index[0])) + suf)); if (i < 0 || persist == "yes") continue; FORBOXES(g, b) c.check(!g->box[b]->v[i], "evolve_persist=no, but %s has storage after the step", VarName(i)); }
    if (chg >= 0) { int i = u->index[chg]; int ci = IndLax(S_(string(VarName(i)) + "_change")); c.check(ci >= 0, "no variable %s_change", VarName(i)); FORBOXES(g, b) { tBox* x = g->box[b]; if (x->inactive) continue; for (int q = 0; q < x->nnodes; q++) c.check(near(x->v[ci][q], (double) (ref[b][q][chg] - old[b][q][chg]), 3e-12 * mag * (s + 1)), "step %d: %s_change is %.17g, the change is %.17Lg", s + 1, VarName(i), x->v[ci][q], ref[b][q][chg] - old[b][q][chg]); } }
    g->iteration++; t += h; g->time = t;
  }
  free_grid(g); }
}
// the order of convergence, independent of any table
PBT(order, {.quick = 5000, .thorough = 40000}) {
  static const std::map<string, int> ORD = {{"icn", 2}, {"Euler", 1}, {"rk1", 1}, {"euler", 1}, {"rk2", 2}, {"rk2a", 2}, {"midpoint", 2}, {"rk3", 3}, {"rk3a", 3}, {"rk3b", 3}, {"rk4", 4}, {"rk4a", 4}, {"rk5", 5}};
  string m = c.pick(METH); int p = ORD.at(m); vector<BoxSpec> S(1); for (auto& d : S[0].d) { d.basis = "ChebExtrema"; d.n = 2; d.a = 0; d.b = 1; d.tt = "0 NUMREC_FFT"; }
  AddVar((char*) "u", (char*) "i", (char*) "d"); tGrid* g = new_grid(S, false); setm(m); tVarList* u = vlalloc(g); vlpush(u, IndLax((char*) "ux")); enablevarlist(u); gen_sys(c, 3); double T0 = c.sym(2); tBox* x = g->box[0]; vector<double> init[3]; for (auto& v : init) v = rnd(c, x->nnodes);
  evolve_vlregister(u); evolve_rhsregister(rhs); c.label(m); if (sy.w != 0) c.nontrivial(); c.describe("%s from t=%g, w=%g", m.c_str(), T0, sy.w);
  double L = 0.4; vector<double> e; int n = p >= 4 ? 2 : 4;
  vector<vector<ld>> ex(x->nnodes, vector<ld>(3)); Sys keep = sy; for (int i = 0; i < x->nnodes; i++) { for (int j = 0; j < 3; j++) ex[i][j] = init[j][i]; vector<ld> a, b; int M = 120; for (int s = 0; s < M; s++) ex[i] = step("rk5", ex[i], (ld) T0 + (ld) s * L / M, (ld) L / M, a, b, false); }
  for (int r = 0; r < 5; r++) { for (int j = 0; j < 3; j++) memcpy(x->v[u->index[j]], init[j].data(), init[j].size() * 8); g->dt = L / n; g->time = T0; for (int s = 0; s < n; s++) { g->iteration = r + s; g->time = T0 + s * g->dt; RunFun(EVOLVE, g); }
    double err = 0; for (int j = 0; j < 3; j++) for (int i = 0; i < x->nnodes; i++) err = std::max(err, (double) fabsl(x->v[u->index[j]][i] - ex[i][j])); e.push_back(err); n *= 2; }
  // the error must fall like dt^p over at least one halving;  errors near rounding decide nothing
  bool ok = e.back() < 3e-14; for (size_t k = 1; k < e.size(); k++) ok |= e[k] < 3e-14 || e[k] < e[k-1] * std::pow(2.0, -(p - 0.7));
  string es; for (double z : e) es += strf(" %.3g", z); c.check(ok && e.back() <= e[0] + 1e-14, "errors%s do not fall like dt^%d", es.c_str(), p);
}

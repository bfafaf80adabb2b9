// C26: Newton solvers
#include "linop.h"
using namespace pbt;
extern "C" { extern int (*Newton_do_before_linSolver)(tGrid*, tNewtonResults, tNewtonArgPointers); extern int (*Newton_do_after_step)(tVarList*, tVarList*, tVarList*, tVarList*); }
// ---------------------------------------------------------------- dense solver
static struct Sys_ { int n, kind, lo; vector<double> A, s, B; double kap, shift, cut; int calls; ld scale; } Y;
// kinds: 0 quadratic terms, 1 sines, 2 cubic with exponentials, 3 no root (the first line is at least shift), 4 double root, 5 NaN beyond cut
static double softplus(double d) { return std::max(d, 0.) + log1p(exp(-fabs(d))); }
static void Feval(const double* x, double* f, ld* mag = nullptr) { int n = Y.n; ld top = 0;
  for (int i = 0; i < n; i++) { double s = 0, m = 0, di = x[i] - Y.s[i], dj = x[(i+1)%n] - Y.s[(i+1)%n]; for (int j = 0; j < n; j++) { s += Y.A[i*n+j] * (x[j] - Y.s[j]); m += fabs(Y.A[i*n+j]) * (fabs(x[j]) + fabs(Y.s[j])); }
    switch (Y.kind) { case 0: case 3: case 5: s += Y.kap * (di * di + 0.3 * di * dj); m += Y.kap * (di * di + fabs(di * dj)); break; case 1: s += Y.kap * (1 - cos(di + 0.5 * dj)); m += Y.kap; break; case 2: s += 4 * Y.kap * (softplus(di) - log(2.) - di / 2) + Y.kap * di * dj * dj; m += Y.kap * (4 + 4 * fabs(di) + fabs(di * dj * dj)); break; case 4: if (i == 0) { s = s * fabs(s); m = m * m; } break; }
    if (Y.kind == 3 && i == 0) { s = Y.shift + di * di + 0.1 * dj * dj; m = Y.shift + m * m; }
    if (Y.kind == 5 && x[i] > Y.cut) s = NAN; f[i] = s; top = std::max<ld>(top, m); }
  if (mag) *mag = top; }
static void Fvec(int n, double* x, double* f, void* par) { if (par != &Y && par) abort(); Y.calls++; Feval(x + Y.lo, f + Y.lo); }
static void Fvec0(int n, double* x, double* f) { Fvec(n, x, f, nullptr); }
extern "C" { static void FvecP(int n, double* x, double* f, void* par) { Fvec(n, x, f, par); } }
PBT(dense, {.quick = 80000, .thorough = 3000000}) {
  int n = Y.n = c.i(1, 6), how = c.i(0, 3); Y.kind = c.pickl<int>({0, 0, 1, 1, 2, 3, 4, 5}); Y.lo = how == 0 ? 0 : how == 1 ? c.i(-2, 5) : 1; Y.A.assign(n * n, 0); Y.s.assign(n, 0); Y.kap = c.u01() * 2; Y.shift = 0.1 + c.u01(); Y.cut = 1e9; Y.calls = 0;
  double sc = c.pickl<double>({1, 1, 1, 1e-6, 1e4}); for (auto& v : Y.s) v = c.b(1, 6) ? 0 : c.sym(3) * sc; double ninv; { for (int i = 0; i < n; i++) { double t = 0; for (int j = 0; j < n; j++) if (j != i) { Y.A[i*n+j] = c.sym(1); t += fabs(Y.A[i*n+j]); } Y.A[i*n+i] = (t + 0.5 + c.u01()) * (c.b() ? 1 : -1); } ninv = 2; /* |A^-1| <= 1/0.5 in the maximum norm */ }
  bool near = c.b(); vector<double> x0(n), x; double rad = near ? std::min(0.2, 0.05 / (ninv * 4 * std::max(Y.kap, 0.1))) : c.pickl<double>({1, 10, 100}); if (near && Y.kind == 5) { Y.cut = 1e9; } for (int i = 0; i < n; i++) x0[i] = Y.s[i] + c.sym(1) * rad; if (c.b(1, 12)) x0 = Y.s; if (Y.kind == 5 && !near) Y.cut = Y.s[0] + c.sym(20);
  vector<double> f0(n), f(n); ld m0, m1; Feval(x0.data(), f0.data(), &m0); double tolf = c.pickl<double>({1e-6, 1e-8, 1e-10, 1e-12, 0}) * std::max(1., sc); int itmax = c.pickl<int>({0, 1, 2, 5, 50, 200, 200}); static const char* K[] = {"quadratic", "sines", "exponentials", "no root", "degenerate root", "NaN beyond a line"}; int check = -77;
  c.describe("%s, %d unknowns, %s, start %s, tolf %g, itmax %d", K[Y.kind], n, how == 0 || how == 1 ? strf("arrays from %d", Y.lo).c_str() : how == 2 ? "newton_linesrch_itsP" : "newton_linesrch_its", near ? "near the root" : "anywhere", tolf, itmax); c.label(K[Y.kind]); if (n > 1) c.nontrivial();
  vector<double> buf(n + 20, 4242); double* xp = buf.data() + 10; for (int i = 0; i < n; i++) xp[i] = x0[i]; int ret = -999; bool gone = c.exits([&] { ret = how < 2 ? newton_linesearch(n, xp - Y.lo, &check, FvecP, &Y, Y.lo, itmax, tolf) : how == 2 ? newton_linesrch_itsP(xp - 1, n, &check, FvecP, &Y, itmax, tolf) : newton_linesrch_its(xp - 1, n, &check, Fvec0, itmax, tolf); });
  x.assign(xp, xp + n); bool good = near && (Y.kind < 3 || Y.kind == 5) && sc <= 1; if (gone) { c.label("abort"); c.check(!good, "the program ends although the start is near the root"); return; }
  for (int i = 0; i < 10; i++) c.check(buf[i] == 4242 && buf[10 + n + i] == 4242, "written outside the array");
  Feval(x.data(), f.data(), &m1); double r = 0, r0 = 0; bool nan = false; for (double v : f) { if (!std::isfinite(v)) nan = true; r = std::max(r, fabs(v)); } for (double v : f0) r0 = std::max(r0, fabs(v)); bool nan0 = false; for (double v : f0) if (!std::isfinite(v)) nan0 = true;
  if (getenv("PRX")) { for (double v : x0) printf("x0 %.17g\n", v); for (double v : x) printf("x %.17g\n", v); for (double v : f) printf("f %.17g\n", v); printf("m1 %Lg ret %d check %d\n", m1, ret, check); }
  c.check(Y.calls <= (itmax + 2) * (n * 8 + 60) + 10, "%d evaluations", Y.calls);
  if (nan || nan0) { c.label("NaN"); c.check(ret < 0 || !nan || !itmax, "the function is NaN at the result, but %d iterations are reported", ret); if (nan0) return; }
  double lim = std::max(tolf * (1 + 1e-9), 1e-11 * (double) m1 * n);
  if (ret >= 0) { c.check(ret <= itmax, "%d of %d iterations", ret, itmax); c.check(check == 0 || check == 1, "check is %d", check); if (check == 0) { c.label("solved"); 
      if (!(r <= lim)) { if (Y.kind == 4) { c.label("degenerate"); lim = std::max(lim, 1e-9 * (double) m1); } }
      // a root to within roundoff: the line may cross zero when an unknown changes by 1e-9
      if (!(r <= lim)) { c.label("roundoff"); double t = 0; vector<double> y = x, h(n); for (int j = 0; j < n; j++) { double e = 1e-9 * std::max(1., fabs(x[j])), q = 0; for (int sg : {-1, 1}) { y[j] = x[j] + sg * e; Feval(y.data(), h.data()); for (int i = 0; i < n; i++) q = std::max(q, fabs(h[i] - f[i])); } y[j] = x[j]; t += q; } lim = std::max(lim, t); }
      c.check(r <= lim, "success after %d iterations, but the residual is %g (tolf %g, at the start %g)", ret, r, tolf, r0); c.check(Y.kind != 3, "success without a root"); } else { c.label("local minimum"); c.check(!good || tolf < 1e-12 * n * (1 + (double) m0), "a local minimum is reported near the root"); } }
  else c.label("reported");
  if (!nan) c.check(r <= r0 * sqrt(n) * (1 + 1e-12) + 1e-14 * m0 || r <= tolf, "the residual grew from %g to %g", r0, r);
  if (good && itmax >= 50 && tolf >= 1e-12 && tolf >= 1e-12 * n * (double) m0) { c.label("must converge"); c.check(ret >= 0 && check == 0, "no convergence from near the root: %d, check %d, residual %g", ret, check, r); for (int i = 0; i < n; i++) c.check(fabs(x[i] - Y.s[i]) <= 4 * ninv * tolf + 1e-12 * (fabs(Y.s[i]) + 1), "unknown %d is %.15g instead of %.15g", i, x[i], Y.s[i]); if (tolf > 0) c.check(ret <= 12, "%d iterations near the root", ret); }
}

// ---------------------------------------------------------------- grid solver
static struct Gs { vector<double> s; int kind; double kap, shift; int before, after, F, J; vector<int> xi; tVarList* u; int failat, lin, linfail; bool c1used; tVarList* dd; } G;
static double gterm(double a, double b) { return G.kind == 0 ? a * a + 0.3 * a * b : G.kind == 1 ? 1 - cos(a + 0.5 * b) : a * b * b + 0.5 * a * a; }
static void dterm(double a, double b, double& da, double& db) { if (G.kind == 0) { da = 2 * a + 0.3 * b; db = 0.3 * a; } else if (G.kind == 1) { da = sin(a + 0.5 * b); db = 0.5 * da; } else { da = b * b + a; db = 2 * a * b; } }
static vector<double> getl(tVarList* l) { vector<int> o; for (int i = 0; i < l->n; i++) o.push_back(l->index[i]); return get(l->grid, o); }
static void putl(tVarList* l, const vector<double>& v) { vector<int> o; for (int i = 0; i < l->n; i++) o.push_back(l->index[i]); put(l->grid, o, v); }
static vector<double> Aof(const vector<double>& d) { vector<double> r(LO.U.N, 0); for (int u = 0; u < LO.U.N; u++) for (auto& e : LO.row[u]) r[u] += e.second * d[e.first]; return r; }
static vector<double> Fof(const vector<double>& x) { int N = LO.U.N; vector<double> d(N); for (int u = 0; u < N; u++) d[u] = x[u] - G.s[u]; vector<double> r = Aof(d); for (int u = 0; u < N; u++) { r[u] += G.kap * gterm(d[u], d[(u+1)%N]); } if (G.shift != 0) for (int u = 0; u < N; u++) r[u] = G.shift + d[u] * d[u]; return r; }
static vector<double> Jof(const vector<double>& x, const vector<double>& v) { int N = LO.U.N; vector<double> r = Aof(v); if (G.shift != 0) r.assign(N, 0); for (int u = 0; u < N; u++) { double a = x[u] - G.s[u], b = x[(u+1)%N] - G.s[(u+1)%N], da, db; if (G.shift != 0) { r[u] = 2 * a * v[u]; continue; } dterm(a, b, da, db); r[u] += G.kap * (da * v[u] + db * v[(u+1)%N]); } return r; }
extern "C" {
static void gF(tVarList* F, tVarList* u, tVarList* c1, tVarList* c2) { G.F++; putl(F, Fof(getl(u))); }
static void gJ(tVarList* J, tVarList* du, tVarList* d1, tVarList* d2) { G.J++; putl(J, Jof(getl(d1), getl(du))); }
// a linear solver that sometimes fails
static int mylin(tVarList* x, tVarList* b, tVarList* r, tVarList* c1, tVarList* c2, int itmax, double tol, double* nr, void (*lop_)(tVarList*, tVarList*, tVarList*, tVarList*), void (*pre)(tVarList*, tVarList*, tVarList*, tVarList*)) {
  G.lin++; if (G.failat == 0 || G.lin == G.failat) { G.linfail++; for (int i = 0; i < x->n; i++) FORBOXES(x->grid, q) if (LO.U.act[q]) for (int p = 0; p < LO.U.nn[q]; p++) x->grid->box[q]->v[x->index[i]][p] = 1e3; *nr = 1; return -42; } return UMFPACK_solve_wrapper(x, b, r, c1, c2, itmax, tol, nr, lop_, pre); }
static int hbefore(tGrid*, tNewtonResults, tNewtonArgPointers) { G.before++; return 0; }
static int hafter(tVarList*, tVarList*, tVarList*, tVarList*) { G.after++; return 0; }
}
typedef int (*Lin)(tVarList*, tVarList*, tVarList*, tVarList*, tVarList*, int, double, double*, void (*)(tVarList*, tVarList*, tVarList*, tVarList*), void (*)(tVarList*, tVarList*, tVarList*, tVarList*));
PBT(grid, {.quick = 2500, .thorough = 60000, .cpu_s = 60}) {
  Prob P = gen_prob(c, 24, false, true); tGrid* g = P.g; int N = LO.U.N, nv = LO.U.nv; LO.row.assign(N, {}); G = Gs(); G.kind = c.i(0, 2); bool noroot = c.b(1, 8); G.kap = c.u01(); G.shift = noroot ? 0.1 + c.u01() : 0; G.s = rnd(c, N); double fill = c.pickl<double>({0.1, 0.5});
  for (int u = 0; u < N; u++) { double t = 0; for (int w = 0; w < N; w++) if (w != u && c.u01() < fill) { double a = c.sym(1); t += fabs(a); LO.row[u].push_back({w, a}); } LO.row[u].push_back({u, (t * 1.1 + 0.6 + c.u01()) * (c.b() ? 1 : -1)}); }
  bool near = c.b(3, 4); double rad = near ? 0.02 : 3; vector<double> x0(N); for (int u = 0; u < N; u++) x0[u] = G.s[u] + c.sym(1) * rad; if (c.b(1, 12)) x0 = G.s;
  static const char* ln[] = {"LAPACK_dgesv_wrapper", "UMFPACK_solve_wrapper", "SuiteSparseQR_solve_wrapper", "bicgstab", "bicgstab_with_Jacobi_precon", "bicgstab_with_fd_UMFPACK_precon", "failing solver"}; static const Lin lf[] = {LAPACK_dgesv_wrapper, UMFPACK_solve_wrapper, SuiteSparseQR_solve_wrapper, bicgstab, bicgstab_with_Jacobi_precon, bicgstab_with_fd_UMFPACK_precon, mylin};
  int li = c.i(0, 6); G.failat = c.i(0, 3); string step = c.pickl<string>({"full", "full", "backtrack", "backtrack optimal"}), at = c.pickl<string>({"donothing", "escapeMin", "quit", "AltLinSolver", "quit AltLinSolver", "escapeMin AltLinSolver"}), alts = c.pickl<string>({"", "LAPACK_dgesv_wrapper", "bicgstab UMFPACK_solve_wrapper", "SuiteSparseQR_solve_wrapper LAPACK_dgesv_wrapper"}), eos = c.pickl<string>({"Jdu", "no"});
  setpar("GridIterators_verbose", "no"); setpar("GridIterators_Newtonstep", step); setpar("GridIterators_Newton_atlocalMin", at); setpar("GridIterators_Newton_linSolvers", alts); setpar("GridIterators_Newton_EndOfStep", eos); setpar("LinAlg_setABStozero_below", "0"); setpar("GridIterators_Preconditioner_type", "spectral"); setpar("GridIterators_UMFPACK_version", c.pickl<string>({"di", "dl"}));
  vector<int> di; tVarList* du = AddDuplicateEnable(P.x, "_du"); G.xi = P.xi; put(g, P.xi, x0); bool hooks = c.b(); Newton_do_before_linSolver = hooks ? hbefore : nullptr; Newton_do_after_step = hooks ? hafter : nullptr; int itmax = c.pickl<int>({0, 1, 2, 4, 30, 30, 30}); double tol = c.pickl<double>({1e-3, 1e-6, 1e-9, 1e-11}), facs = c.pickl<double>({0, 1e-3, 1e-2}), ltol = c.pickl<double>({0, 1e-12, 0}); if (li >= 3 && li <= 5 && facs == 0) ltol = 1e-13; int litmax = c.pickl<int>({200, 200, 3});
  vector<double> f0 = Fof(x0); double n0 = 0; for (double v : f0) n0 += v * v; n0 = sqrt(n0 / N);
  c.describe("%s%s, kind %d%s, start %s (residual %g), %s steps, local minimum: %s%s, itmax %d, tol %g, linear itmax %d tolFac %g tol %g; %s", ln[li], li == 6 ? strf(" (call %d)", G.failat).c_str() : "", G.kind, noroot ? ", no root" : "", near ? "near" : "far", n0, step.c_str(), at.c_str(), alts.empty() ? "" : (" [" + alts + "]").c_str(), itmax, tol, litmax, facs, ltol, P.text.c_str()); c.label(ln[li]); if (N > 3) c.nontrivial();
  std::set<BV> ex; FORBOXES(g, b) for (int v = 0; v < nv; v++) { if (LO.U.act[b]) for (int i : {P.xi[v], P.fi[v], P.ri[v], du->index[v]}) ex.insert(BV(b, i)); } Snap sn; sn.add(g, ex);
  double nr = -1; int ret = -999; tVarList* uu = P.x; bool gone = c.exits([&] { ret = Newton(gF, gJ, uu, P.F, P.c1, P.c2, itmax, tol, &nr, 0, lf[li], Preconditioner_I, du, P.r, uu, P.c2, litmax, facs, ltol); });
  if (gone) { c.label("exit"); c.check(noroot || !near, "the program ends although the start is near the root"); return; }
  c.check(sn.bad().empty(), "%s was changed", sn.bad().c_str()); vector<double> x = get(g, P.xi), f = Fof(x); double r = 0; bool nan = false; for (double v : f) { r += v * v; if (!std::isfinite(v)) nan = true; } r = sqrt(r / N);
  if (nan) c.check(!(nr <= tol), "the residual is not finite, but %g is reported", nr); else c.check(fabs(nr - r) <= 1e-12 * r + 1e-15, "the reported residual is %g, the real one %g", nr, r);
  c.check(ret >= 0, "%d is returned", ret); if (ret < itmax) { c.label("solved"); c.check(nr <= tol && r <= tol * (1 + 1e-12) + 1e-15, "success after %d of %d iterations, but the residual is %g > %g", ret, itmax, r, tol); c.check(!noroot, "success without a root"); } else c.label(nr <= tol ? "last step" : "reported");
  if (noroot) c.check(!(nr <= tol), "a residual %g is reported, but there is no root", nr);
  if (hooks) { int st = std::min(ret, itmax); if (at.find("quit") == string::npos) { c.check(G.before == st, "the function before the linear solver was called %d times in %d steps", G.before, st); c.check(G.after == st, "the function after a step was called %d times in %d steps", G.after, st); } }
  bool direct = li <= 2; if (itmax == 0) for (int u = 0; u < N; u++) c.check(same_bits(x[u], x0[u]), "changed without iterations"); if (n0 <= tol && itmax > 0) { c.check(ret == 0, "%d steps although the start is a root", ret); for (int u = 0; u < N; u++) c.check(same_bits(x[u], x0[u]), "the root was changed"); }
  // quadratic convergence near the root
  if (near && !noroot && itmax >= 30 && litmax >= 200) { bool lin = direct || li == 5 || (li == 6 && G.failat > 0); if (lin || li == 3 || li == 4) {
      if (lin) { c.label("must converge"); bool alt = at.find("AltLin") != string::npos && !alts.empty(); bool quit = at.find("quit") != string::npos && li == 6 && G.linfail; 
        if (!quit) { c.check(nr <= tol && ret < itmax, "no convergence near the root: %d steps, residual %g", ret, nr); for (int u = 0; u < N; u++) c.check(fabs(x[u] - G.s[u]) <= 4 * sqrt(N) * tol + 1e-13, "unknown %d is %.15g instead of %.15g", u, x[u], G.s[u]); if (direct) c.check(ret <= 8, "%d Newton steps near the root", ret); if (alt) c.label("other solver tried"); } } } }
  // a linear solver that always fails must not pass
  if (li == 6 && G.failat == 0 && (at == "donothing" || at == "quit" || (at.find("AltLin") != string::npos && alts.empty() && at.find("escape") == string::npos)) && n0 > tol) { c.label("always failing"); c.check(!(nr <= tol) && ret >= itmax, "success with a linear solver that always fails"); for (int u = 0; u < N; u++) c.check(same_bits(x[u], x0[u]), "a failed linear solve changed unknown %d", u); if (at == "quit" && itmax > 0) c.check(G.lin == 1, "%d linear solves in a run that is to quit after the first failure", G.lin); }
}

// C19: restarts continue bit for bit
#include "ckrun.h"
using namespace pbt;
static string first_diff(const string& a, const string& b) { size_t i = 0; string la, lb; std::vector<string> A, B; auto split = [](const string& s, vector<string>& v) { string l; for (char ch : s) if (ch == '\n') { v.push_back(l); l.clear(); } else l += ch; if (!l.empty()) v.push_back(l); }; split(a, A); split(b, B); while (i < A.size() && i < B.size() && A[i] == B[i]) i++; la = i < A.size() ? A[i].substr(0, 300) : "(nothing)"; lb = i < B.size() ? B[i].substr(0, 300) : "(nothing)"; return "'" + lb + "' instead of '" + la + "'"; }
PBT(restart, {.quick = 1500, .thorough = 15000, .fs = true, .unpriv = true}) {
  int N = c.i(2, 9); gen_cfg(c, N); K.moving = K.all && c.b(1, 3) && K.S[0].d[0].basis != "none"; int rit = c.pickl<int>({1, 1, 1, 0, -1}); string p = K.pars; p += strf("checkpoint_restart_it = %d\n", rit);
  int di = 1; bool usedt = c.b(1, 4); if (c.b()) di = c.i(1, 4); double cfac = c.b() ? 1 + 0.3 / di : 1; if (usedt && c.b(1, 4)) { di = 1; cfac = c.u(0.1, 0.9); } if (usedt) p += strf("checkpoint_dt = %.17g\n", di * K.dt * cfac); else if (di > 1) p += strf("checkpoint_di = %d\n", di);
  bool ckdir = c.b(1, 5); if (ckdir) p += "checkpoint_outdir = ckd\ncheckpoint_indir = ckd\n"; bool prevp = c.b(1, 4); if (prevp) p += "checkpoint_previous = yes\n"; bool ft = c.b(1, 4); if (ft) p += strf("finaltime = %.17g\n", N * K.dt); else p += strf("iterations = %d\n", N);
  if (c.b(1, 3)) p += "checkpoint_no_read_parlist = checkpoint finaltime iterations outdir parameterfile iterate_parameters checkpoint_no_read_parlist keepme\n"; bool kl = p.find("parlist keepme") != string::npos;
  spit("ref.par", p + "checkpoint = no\n"); spit("a.par", p + "checkpoint = yes\n"); if (ckdir) mkdir("ckd", 0777);
  bool late = kl && c.b(); c.describe(", N=%d%s, di=%d%s, restart_it=%d%s%s%s", N, ft ? " (finaltime)" : "", di, usedt ? " (dt)" : "", rit, ckdir ? ", own checkpoint directory" : "", prevp ? ", previous=yes" : "", K.moving ? ", moving box" : "");
  int st = ck_run({"ref.par"}, "state.ref"); c.check(st_ok(st), "the uninterrupted run %s; it printed: %s", st_str(st).c_str(), logtail(c).c_str());
  // interrupted runs
  int have = -1, tries = 0; bool keep = false, dirty = false; int runs = 0; string keepval = "0"; int start0 = 0;
  while (true) {
    if (++tries > 6) break; bool last = tries == 6 || c.b(1, 3); die.clear(); vector<string> args = {"a.par"}; if (keep) args.push_back("--keep_previous"); keep = false; int from = have >= 0 ? have : 0; int stop = N; string how = "ends";
    if (late && runs > 0) { keepval = strf("k%d", runs); args.push_back("--modify-par:keepme=" + keepval); }
    if (have >= 0 && c.b(1, 3)) args.push_back("--modify-par:restoreme=wrong");
    if (!last) { if (c.b(1, 3)) { stop = c.i(from, N); if (ft) args.push_back(strf("--modify-par:finaltime=%.17g", stop * K.dt)); else args.push_back(strf("--modify-par:iterations=%d", stop)); if (stop % di || ckdir) dirty = true; if (stop == 0 && ft) { stop = 0; args.pop_back(); args.push_back("--modify-par:finaltime=0"); } how = strf("stops at %d", stop); } else { int bin = c.pickl<int>({PRE_EVOLVE, ANALYZE, POST_OUTPUT}); int it = c.i(0, N); die[bin] = it; how = strf("dies in stage %d at iteration %d", bin, it); dirty = true; } }
    c.describe("; run %d %s", tries, how.c_str()); runs++;
    st = ck_run(args, "state.new");
    bool died = WIFEXITED(st) && WEXITSTATUS(st) == 9; 
    if (st_refused(st)) { // only if the run before died while it was still starting up
      c.check(have >= 0 && dirty && !exists("a/checkpoint.0") && exists("a_previous/checkpoint.0"), "run %d was refused, it printed: %s", tries, logtail(c).c_str()); keep = true; c.label("refused"); tries--; if (runs > 12) c.discard(); if (late) keepval = keepval; continue; }
    c.check(died || st_ok(st), "run %d %s; it printed: %s", tries, st_str(st).c_str(), logtail(c).c_str());
    string f = ckdir ? "ckd/checkpoint.0" : exists("a/checkpoint.0") ? "a/checkpoint.0" : "a_previous/checkpoint.0"; int h = -1; if (exists(f)) { string s = slurp(f); size_t q = s.find("$iteration = "); c.check(q != string::npos, "no iteration in %s", f.c_str()); h = atoi(s.c_str() + q + 13); c.check(s.find("$END_variables") != string::npos, "%s is incomplete after run %d", f.c_str(), tries); c.check(h % di == 0 && h <= N && (h > 0 || rit <= 0), "checkpoint at iteration %d", h); c.check(h >= have, "the checkpoint goes back from iteration %d to %d", have, h); }
    else c.check(have < 0, "the checkpoint of iteration %d is lost after run %d", have, tries);
    if (!died && stop >= di && stop > from) c.check(h == stop / di * di, "after iteration %d the checkpoint is of iteration %d, di=%d", stop, h, di); if (h > 0) c.nontrivial();
    have = h; if (!died && !last && stop == N && c.b()) {} if (!died && last) { break; }
  }
  (void) start0;
  if (!exists("state.new")) c.discard(); string a = slurp("state.ref"), b = slurp("state.new"); if (late) { size_t q = a.find("keepme = |"); size_t e = a.find("|\n", q + 10); a.replace(q + 10, e - q - 10, keepval); }
  c.check(a == b, "after %d runs the state has %s", runs, first_diff(a, b).c_str());
  if (!dirty && have == N / di * di && N % di == 0) { c.label("outputs compared"); c.check(slurp("a/log") == slurp("ref/log"), "the output of the restarted runs is %s", first_diff(slurp("ref/log"), slurp("a/log")).c_str()); }
  c.label(strf("%d runs", runs)); c.label(strf("restart_it %d", rit)); if (!K.evolve) c.label("no evolution");
}
// another run's checkpoint
struct Other { vector<BoxSpec> A, B; vector<vector<F3>> f; vector<vector<BoxSpec>> mn; int nv; string pa, pb, pc; double dtA; int itA; string list; }; static Other O;
static int o_vars(tGrid*) { for (int k = 0; k < O.nv; k++) AddVar(S_(strf("f%d", k)), (char*) "", (char*) "data"); AddVar((char*) "g", (char*) "i", (char*) "other data"); AddVar((char*) "temp1", (char*) "", (char*) "temporary"); for (auto p : {"pa", "pb", "pc"}) AddPar((char*) p, (char*) "default", (char*) "a parameter"); return 0; }
static int o_initA(tGrid* g) { FORBOXES(g, b) for (int k = 0; k < O.nv; k++) { int i = Ind(S_(strf("f%d", k))); enablevarcomp_inbox(g->box[b], i); auto d = tabulate(O.f[b][k], O.A[b]); memcpy(g->box[b]->v[i], d.data(), d.size() * 8); } return 0; }
static int o_setA(tGrid* g) { if (g->iteration == O.itA) { Sets((char*) "pb", S_(O.pb)); Sets((char*) "pc", S_(O.pc)); } return 0; }
static int o_initB(tGrid* g) { Case& c = *cur; FORBOXES(g, b) { for (int k = 0; k < O.nv; k++) { enablevarcomp_inbox(g->box[b], Ind(S_(strf("f%d", k)))); for (int i = 0; i < g->box[b]->nnodes; i++) g->box[b]->v[Ind(S_(strf("f%d", k)))][i] = -99; } for (int q = 0; q < 3; q++) { enablevarcomp_inbox(g->box[b], Ind((char*) "gx") + q); for (int i = 0; i < g->box[b]->nnodes; i++) g->box[b]->v[Ind((char*) "gx") + q][i] = 17 + q; } enablevarcomp_inbox(g->box[b], Ind((char*) "temp1")); }
  tVarList* vl = vlalloc(g); for (int k = 0; k < O.nv; k++) vlpush(vl, Ind(S_(strf("f%d", k)))); int np0 = GetnParameters(); double t0 = g->time; int it0 = g->iteration; checkpoint_interpolate_Vars_get_Pars((char*) "A/checkpoint.0", vl, S_(O.list));
  auto want = [&](const char* p, const string& v) { c.check(string(Gets((char*) p)) == v, "parameter %s is '%s' instead of '%s'", p, Gets((char*) p), v.c_str()); }; bool hb = O.list.find("pb") != string::npos, hc = O.list.find("pc") != string::npos;
  want("pa", O.list.find("pa") != string::npos ? O.pa : "b's"); want("pb", hb ? O.pb : "b's"); want("pc", hc ? O.pc : "default"); want("outdir", "B"); want("parameterfile", "B.par"); c.check(GetnParameters() == np0, "%d parameters appear", GetnParameters() - np0); c.check(g->time == t0 && g->iteration == it0, "time or iteration change");
  FORBOXES(g, b) { tBox* x = g->box[b]; BoxSpec s = O.B[b]; for (int k = 0; k < 3; k++) { s.d[k].a = O.A[b].d[k].a; s.d[k].b = O.A[b].d[k].b; c.check(near(x->bbox[2 * k], s.d[k].a, 0) && near(x->bbox[2 * k + 1], s.d[k].b, 0), "box %d direction %d is [%g,%g], in the checkpoint it is [%g,%g]", b, k + 1, x->bbox[2*k], x->bbox[2*k+1], s.d[k].a, s.d[k].b); c.check((k == 0 ? x->n1 : k == 1 ? x->n2 : x->n3) == s.d[k].n, "number of points changes"); }
    double* X[3] = {x->v[Ind((char*) "X")], x->v[Ind((char*) "Y")], x->v[Ind((char*) "Z")]}; 
    for (int i = 0; i < x->nnodes; i++) { int I[3] = {i % x->n1, i / x->n1 % x->n2, i / x->n1 / x->n2}; for (int k = 0; k < 3; k++) { ld p = gpoint(s.d[k], I[k]); c.check(near(X[k][i], (double) p, 1e-13 * (fabs(s.d[k].a) + fabs(s.d[k].b))), "box %d: coordinate %d of point %d is %.17g, not %.17Lg", b, k + 1, i, X[k][i], p); } }
    for (int k = 0; k < O.nv; k++) { auto w = tabulate(O.f[b][k], s); double tol = 3e-12 * (1 + (double) O.f[b][k].mag()); size_t q = 0; double e = maxdiff(x->v[Ind(S_(strf("f%d", k)))], w.data(), w.size(), &q); c.check(e <= tol, "box %d: f%d at point %d is %.17g, the checkpoint has %.17g there", b, k, (int) q, x->v[Ind(S_(strf("f%d", k)))][q], w[q]); }
    for (int q = 0; q < 3; q++) for (int i = 0; i < x->nnodes; i++) c.check(x->v[Ind((char*) "gx") + q][i] == 17 + q, "a variable that is not in the list changes"); }
  spit("checked", "yes"); vlfree(vl); return 0; }
PBT(interpolate, {.quick = 800, .thorough = 8000, .fs = true, .unpriv = true}) {
  int nb = c.i(1, 3); O.nv = c.i(1, 3); bool same = c.b(1, 4);
  for (int b = 0; b < nb; b++) { BoxSpec a, q; for (int k = 0; k < 3; k++) { a.d[k] = gen_dir(c, 2, 7); q.d[k] = a.d[k]; if (!same) { q.d[k].n = std::max(dmin(a.d[k].basis), c.i(2, 8)); if (c.b()) { q.d[k].a = a.d[k].a + c.sym(1); q.d[k].b = q.d[k].a + c.logu(0.1, 5); } q.d[k].tt = c.pickl<const char*>({"64 NUMREC_FFT", "0 FFTW3", "0 NUMREC_FFT"}); } } O.A.push_back(a); O.B.push_back(q); vector<F3> f; for (int k = 0; k < O.nv; k++) f.push_back(gen_f3(c, a, false)); O.f.push_back(f); }
  O.itA = c.i(1, 3); O.pa = c.pickl<const char*>({"a's", "1 2 3", "x-y"}); O.pb = strf("it %d", O.itA); O.pc = "1.5"; O.list = c.pickl<const char*>({"", "pa", "pb pa", "pa pb pc", "pc"}); bool all = c.b(); c.describe("%d boxes, %d variables, A: %s, B: %s, parameters '%s'", nb, O.nv, specstr(O.A[0]).c_str(), specstr(O.B[0]).c_str(), O.list.c_str()); if (!same) c.nontrivial(); c.label(same ? "same grid" : "other grid");
  string addv; for (int k = 0; k < O.nv; k++) addv += strf(" f%d", k); spit("A.par", grid_text(O.A) + strf("Coordinates_set_bfaces = no\nphysics = none\ndt = 0.3\niterations = %d\npa = %s\ncheckpoint = yes\n", O.itA, O.pa.c_str()) + (all ? "checkpoint_variables = all\n" : "checkpoint_additional_variables =" + addv + "\n") + "extrapar = 7\n"); spit("B.par", grid_text(O.B) + "Coordinates_set_bfaces = no\nphysics = none\npa = b's\npb = b's\n" + "checkpoint = yes\n");
  int st = run_main({"A.par"}, [] { AddFun(POST_PARAMETERS, o_vars, (char*) "vars"); AddFun(INITIALDATA, o_initA, (char*) "init"); AddFun(ANALYZE, o_setA, (char*) "set"); }); c.check(st_ok(st), "the first run %s: %s", st_str(st).c_str(), logtail(c).c_str()); string ck = slurp("A/checkpoint.0");
  st = run_main({"B.par"}, [] { AddFun(POST_PARAMETERS, o_vars, (char*) "vars"); AddFun(POST_INITIALDATA, o_initB, (char*) "interpolate"); }); c.check(st_ok(st), "the second run %s: %s", st_str(st).c_str(), logtail(c).c_str()); c.check(exists("checked"), "the data were not interpolated"); c.check(ck == slurp("A/checkpoint.0"), "the checkpoint of the other run changes");
}
// checkpoint_DeltaT: run for that much longer, again and again
PBT(further, {.quick = 500, .thorough = 5000, .fs = true, .unpriv = true}) {
  int n1 = c.i(1, 4); gen_cfg(c, 14); if (c.b(1, 8)) K.hist[0] = string(c.i(5000, 9900), 'h'); string p = K.pars; p += strf("checkpoint_restart_it = %d\n", c.pickl<int>({1, 0, -1})); int runs = c.i(1, 3), add = c.i(1, 3), N = n1; spit("a.par", p + strf("checkpoint = yes\ncheckpoint_DeltaT = %.17g\niterations = %d\n", add * K.dt, n1)); bool ftm = c.b(1, 3); c.describe(", %d iterations, then %d times %d more", n1, runs, add); c.nontrivial();
  for (int r = 0; r <= runs; r++) { vector<string> a = {"a.par"}; if (ftm) a.push_back(strf("--modify-par:finaltime=%.17g", n1 * K.dt)); int st = ck_run(a, "state.new"); c.check(st_ok(st), "run %d %s; it printed: %s", r, st_str(st).c_str(), logtail(c).c_str()); if (r) N += add; string s = slurp("state.new"); c.check(s.compare(0, 11 + strf("%d ", N).size() - 1, strf("iteration %d ", N).substr(0, 11 + strf("%d ", N).size() - 1)) == 0, "run %d ends at '%s' instead of iteration %d", r, s.substr(0, 30).c_str(), N); }
  spit("ref.par", p + strf("checkpoint = no\niterations = %d\n", N)); int st = ck_run({"ref.par"}, "state.ref"); c.check(st_ok(st), "the uninterrupted run %s; it printed: %s", st_str(st).c_str(), logtail(c).c_str()); string a = slurp("state.ref"), b = slurp("state.new"); c.check(a == b, "the state has %s", first_diff(a, b).c_str());
  c.check(slurp("a/log") == slurp("ref/log"), "the output of the restarted runs is %s", first_diff(slurp("ref/log"), slurp("a/log")).c_str());
}

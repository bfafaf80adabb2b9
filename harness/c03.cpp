// C03: output directories over any sequence of runs
#include "run.h"
using namespace pbt;
static string token, crash; static vector<string> watch; static bool links, ckpt; static int nrun, nargs_watch;
static int hook(tGrid* g) { // writes results into the output directory
  string d = Gets((char*) "outdir"); string s = token + strf(" run %d\n", nrun);
  for (auto& w : watch) { char* v = GetsLax(S_(w)); s += w + "=" + (v ? join(words(v)) : string("(none)")) + "\n"; }
  for (int k = 2; k < 2 + nargs_watch; k++) { char* v = GetsLax(S_(strf("sgrid_arg%d", k))); s += strf("arg%d=%s\n", k, v ? v : "(none)"); }
  spit(d + "/data", s); spit(d + "/" + token, s); mkdir((d + "/sub").c_str(), 0777); spit(d + "/sub/x" + token, s); mkdir((d + "/sub/deep").c_str(), 0777); spit(d + "/sub/deep/y", s); mkdir((d + "/empty").c_str(), 0777);
  if (links) { if (symlink((string(pbt::cur->scratch()) + "/precious").c_str(), (d + "/link").c_str())) {} if (symlink("nowhere", (d + "/dangling").c_str())) {} }
  if (ckpt) spit(d + "/checkpoint.0", s);
  if (crash == "exit") { fflush(nullptr); _exit(9); }
  nrun++; return 0; }
struct Pm { string name; vector<string> vals; };
PBT(runs, {.quick = 2500, .thorough = 25000, .fs = true, .unpriv = true}) {
  string base = c.scratch(); Tree m; auto put = [&](const string& f, const string& s) { spit(f, s); m[f] = s; }; auto md = [&](const string& d) { mkdir(d.c_str(), 0777); m[d] = "<dir>"; };
  md("precious"); put("precious/keep", "valuable"); md("precious/in"); put("precious/in/k2", "valuable 2"); put("note.txt", "note");
  // parameter files
  struct PF { string path, out; string text; vector<Pm> lists; }; vector<PF> pf; int np = c.i(1, 2); static const vector<string> NAMES = {"a", "b", "sub/a", "p.params/q", "x.par.y", "a_previous", "ab", "c.d", "r.parr", "sub/a_v1", ".hid"};
  md("sub"); md("p.params");
  for (int k = 0; k < np; k++) { PF f; f.out = c.pick(NAMES); bool dup = false; for (auto& o : pf) dup |= o.out == f.out || o.out + "_previous" == f.out || f.out + "_previous" == o.out; if (dup) continue; f.path = f.out + ".par";
    string t = grid_text({tiny_box()}) + "physics = none\niterations = 1\n"; t += "p0 = 7\np1 = some words\np2 =\n";
    if (c.b(1, 3)) { t += "iterate_parameters = yes\n"; int nl = c.i(1, 3), nv = c.i(1, 3); for (int l = 0; l < nl; l++) { Pm p; p.name = strf("q%d", l); for (int v = 0; v < nv; v++) p.vals.push_back(c.pickl<const char*>({"v1", "v2", "0.5", "1e-3", "-2", "rk", "x.y"})); t += p.name + " = start\n" + strf("iterate_parameter%d = %s %s\n", l + 1, p.name.c_str(), join(p.vals).c_str()); f.lists.push_back(p); } 
      std::set<string> seen; bool rep = false; for (int v = 0; v < nv; v++) { string s; for (auto& l : f.lists) s += "_" + l.vals[v]; rep |= !seen.insert(s).second; } (void) rep; }
    put(f.path, t); f.text = t; pf.push_back(f); }
  // other things that are nobody's business
  for (auto& f : pf) { if (c.b(1, 3)) { md(f.out + "_previous_old"); put(f.out + "_previous_old/z", "z"); } if (c.b(1, 3)) { md(f.out + "2"); put(f.out + "2/z", "z"); } }
  int R = c.i(1, 5); bool interesting = false;
  for (int r = 0; r < R; r++) {
    PF& f = pf[c.i(0, (int) pf.size() - 1)]; token = strf("T%d", r); crash = c.b(1, 6) ? "exit" : ""; links = c.b(1, 3); ckpt = c.b(1, 4); bool keep = c.b(1, 5); nrun = 0; watch = {"p0", "p1", "p2", "q0", "q1", "q2", "newpar"}; nargs_watch = 0;
    std::map<string, string> pv = {{"p0", "7"}, {"p1", "some words"}, {"p2", ""}}; for (auto& l : f.lists) pv[l.name] = "start";
    string arg = f.path; bool abs = c.b(1, 4); if (c.b()) arg = f.out; if (c.b(1, 6) && arg[0] != '.') arg = "./" + arg; string pre = abs ? base + "/" : ""; if (abs) arg = pre + arg;
    vector<string> args = {arg}, rest; int no = c.i(0, 3); for (int o = 0; o < no; o++) { string p = c.pickl<const char*>({"p0", "p1", "p2", "newpar"}), v = c.pickl<const char*>({"3", "a b  c", "x=y", "-1.5e-3", "two words", ""}); if (c.b(1, 8)) { int L = c.i(100, 600); v = ""; while ((int) v.size() < L) v += "item" + strf("%d ", (int) v.size()); v.pop_back(); } rest.push_back("--modify-par:" + p + "=" + v); pv[p] = join(words(v)); }
    int nx = c.b(1, 3) ? c.i(1, 2) : 0; vector<string> xs; for (int k = 0; k < nx; k++) { xs.push_back(strf("extra%d", k)); rest.push_back(xs.back()); } nargs_watch = nx; if (keep) rest.insert(rest.begin() + c.i(0, (int) rest.size()), "--keep_previous");
    { vector<string> e; for (auto& x : rest) if (x.compare(0, 5, "extra") == 0) e.push_back(x); for (size_t k = 0; k < e.size(); k++) xs[k] = e[k]; }
    args.insert(args.end(), rest.begin(), rest.end());
    c.describe("%srun %d: sgrid %s%s%s%s", r ? "; " : "", r, join(args).c_str(), crash.empty() ? "" : " (dies during the run)", links ? " (makes links)" : "", ckpt ? " (writes a checkpoint)" : ""); for (auto& l : f.lists) c.describe(" [%s: %s]", l.name.c_str(), join(l.vals).c_str());
    // model
    auto results = [&](const string& d, int k) { string s = token + strf(" run %d\n", k); for (auto& w : watch) s += w + "=" + (pv.count(w) ? pv[w] : "(none)") + "\n"; for (int q = 0; q < nx; q++) s += strf("arg%d=%s\n", q + 2, xs[q].c_str());
      if (!m.count(d)) return; m[d + "/data"] = s; m[d + "/" + token] = s; m[d + "/sub"] = "<dir>"; m[d + "/sub/x" + token] = s; m[d + "/sub/deep"] = "<dir>"; m[d + "/sub/deep/y"] = s; m[d + "/empty"] = "<dir>"; if (links) { if (!m.count(d + "/link")) m[d + "/link"] = "<link>" + base + "/precious"; if (!m.count(d + "/dangling")) m[d + "/dangling"] = "<link>nowhere"; } if (ckpt) m[d + "/checkpoint.0"] = s; };
    bool refuse = false; string O = f.out, P = O + "_previous";
    if (!keep) { if (m.count(P + "/checkpoint.0") && !m.count(O + "/checkpoint.0")) refuse = true; else { if (m.count(O)) interesting = true; tree_rm(m, P); tree_mv(m, O, P); m[O] = "<dir>"; } } else { if (m.count(O)) interesting = true; m[O] = "<dir>"; }
    int st;
    if (!refuse) { m[O + "/" + f.path.substr(f.path.rfind('/') + 1)] = f.text;
      if (f.lists.empty()) results(O, 0);
      else { int K = crash.empty() ? (int) f.lists[0].vals.size() : 1; for (int k = 0; k < K; k++) { string D = f.out; for (auto& l : f.lists) { D += "_" + l.vals[k]; pv[l.name] = l.vals[k]; } if (!keep) { tree_rm(m, D + "_previous"); if (m.count(D)) interesting = true; tree_mv(m, D, D + "_previous"); } m[D] = "<dir>"; results(D, k); } } }
    st = run_main(args, [&] { AddFun(OUTPUT, [](tGrid* g) { return g->iteration == 1 ? hook(g) : 0; }, (char*) "results"); });
    if (refuse) { c.label("refused"); c.check(st_refused(st), "run %d: there is a checkpoint in %s but none in %s, the program %s", r, P.c_str(), O.c_str(), st_str(st).c_str()); }
    else if (!crash.empty()) c.check(WIFEXITED(st) && WEXITSTATUS(st) == 9, "run %d %s", r, st_str(st).c_str()); else c.check(st_ok(st), "run %d %s", r, st_str(st).c_str());
    string d = tree_diff(m, tree(".")); c.check(d.empty(), "after run %d: %s", r, d.c_str());
    c.label(f.lists.empty() ? "plain" : "iterate"); if (keep) c.label("keep_previous"); if (abs) c.label("absolute path"); if (links) c.label("links");
  }
  if (interesting) c.nontrivial();
}
// several command lines from a file
PBT(argsfile, {.quick = 800, .thorough = 8000, .fs = true, .unpriv = true}) {
  Tree m; auto put = [&](const string& f, const string& s) { spit(f, s); m[f] = s; }; int np = c.i(1, 3), L = c.i(1, 5); vector<std::map<string, string>> pp(np); static const char* N[] = {"a", "bb", "c.d"};
  vector<string> text(np); for (int k = 0; k < np; k++) { string t = grid_text({tiny_box()}) + "physics = none\niterations = 1\n"; for (int q = 0; q < 3; q++) if (c.b(2, 3)) { string v = c.pickl<const char*>({"1", "two words", "3.5", "-x"}); pp[k][strf("p%d", q)] = v; t += strf("p%d = %s\n", q, v.c_str()); } text[k] = t; put(string(N[k]) + ".par", t); }
  string file; vector<int> which; vector<std::map<string, string>> pv; vector<vector<string>> xs; vector<bool> kp; for (int l = 0; l < L; l++) { int k = c.i(0, np - 1); which.push_back(k); auto v = pp[k]; string s = N[k]; if (c.b()) s += ".par"; vector<string> x; bool keep = c.b(1, 5); if (keep) s += " --keep_previous"; int no = c.i(0, 2); for (int o = 0; o < no; o++) { string p = strf("p%d", c.i(0, 3)), val = c.pickl<const char*>({"9", "x=1", "-7e3"}); s += " --modify-par:" + p + "=" + val; v[p] = val; } if (c.b(1, 3)) { x.push_back("extra"); s += " extra"; } if (c.b(1, 4)) file += c.b() ? "# a.par\n" : "\n"; file += s + (l + 1 == L && c.b(1, 4) ? "" : "\n"); pv.push_back(v); xs.push_back(x); kp.push_back(keep); c.describe("%s%s", l ? " | " : "", s.c_str()); }
  put("args.txt", file); m["where"] = ""; if (L > 1) c.nontrivial(); c.label(strf("%d lines", L));
  for (int l = 0; l < L; l++) { string O = N[which[l]]; if (!kp[l]) { tree_rm(m, O + "_previous"); tree_mv(m, O, O + "_previous"); } m[O] = "<dir>"; m[O + "/" + O + ".par"] = text[which[l]]; string s = strf("line %d\n", l); for (int q = 0; q < 4; q++) { string p = strf("p%d", q); s += p + "=" + (pv[l].count(p) ? pv[l][p] : string("(none)")) + "\n"; } s += xs[l].empty() ? "(none)\n" : xs[l][0] + "\n"; m[O + "/data"] = s; m["where"] += O + "\n"; }
  int st = run_main({"--argsfile", "args.txt"}, [&] { AddFun(OUTPUT, [](tGrid* g) -> int { if (g->iteration != 1) return 0; string d = Gets((char*) "outdir"), s = strf("line %d\n", nrun++); for (int q = 0; q < 4; q++) { char* v = GetsLax(S_(strf("p%d", q))); s += strf("p%d=%s\n", q, v ? v : "(none)"); } char* x = GetsLax((char*) "sgrid_arg2"); s += strf("%s\n", x ? x : "(none)"); spit(d + "/data", s); spit("where", slurp("where") + d + "\n"); return 0; }, (char*) "results"); });
  c.check(st_ok(st), "the program %s", st_str(st).c_str()); string d = tree_diff(m, tree(".")); c.check(d.empty(), "after all lines: %s", d.c_str());
}

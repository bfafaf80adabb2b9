// C37: the stand-alone tools in utilities/
#include "sg.h"
#include <sys/wait.h>
#include <fcntl.h>
using namespace pbt;
static string util(const char* n) { char b[4096]; ssize_t k = readlink("/proc/self/exe", b, 4000); b[k > 0 ? k : 0] = 0; string s = b; return s.substr(0, s.rfind('/')) + "/util/" + n; }
struct Res { int st; string out, err; };
static Res run(Case& c, const char* tool, vector<string> a) {
  string exe = util(tool); a.insert(a.begin(), exe); vector<char*> v; for (auto& s : a) v.push_back(S_(s)); v.push_back(0); string cl = tool; for (size_t k = 1; k < a.size(); k++) cl += " " + a[k]; c.describe("[%s] ", cl.c_str());
  pid_t p = fork(); if (!p) { int o = open("stdout", O_WRONLY | O_CREAT | O_TRUNC, 0644), e = open("stderr", O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(o, 1); dup2(e, 2); execv(v[0], v.data()); _exit(120); }
  int st; waitpid(p, &st, 0); Res r{st, slurp("stdout"), slurp("stderr")}; c.check(WIFEXITED(st), "%s is killed by signal %d", tool, WTERMSIG(st)); c.check(WEXITSTATUS(st) != 120, "%s cannot be run", tool);
  c.check(WEXITSTATUS(st) != 99, "%s: memory error: %s", tool, r.err.substr(0, 600).c_str()); r.st = (signed char) WEXITSTATUS(st); return r;
}
static vector<string> lines(const string& s) { vector<string> r; size_t p = 0; while (p < s.size()) { size_t e = s.find('\n', p); r.push_back(s.substr(p, e == string::npos ? e : e - p)); p = e == string::npos ? s.size() : e + 1; } return r; }
// --- checkpoints
struct V { string name; int box; vector<double> d; };
struct CK { string time; vector<std::pair<string, string>> par; int nb; int n[4][3]; vector<V> v; bool tail = true; };
static const vector<string> NAMES = {"gxx", "gx", "gxxx", "g", "x", "ADMvars_dgxxx", "psi", "psi_p", "u", "box", "0", "X"};
static string head(const CK& k) { string s = strf("$BEGIN_checkpoint_header:  $bmin = 0 , $bmax = %d , $time = %s , $iteration = 7\n$END_checkpoint_header\n\n$BEGIN_parameter_database:  $number_of_parameters = %d\n", k.nb - 1, k.time.c_str(), (int) k.par.size());
  for (auto& p : k.par) s += p.first + " = " + p.second + "\n"; return s + "$END_parameter_database\n\n$BEGIN_variables:\n"; }
static string var(const V& v) { return strf("$variable = %s : box = %d , box->nnodes = %d\n", v.name.c_str(), v.box, (int) v.d.size()) + string((char*) v.d.data(), 8 * v.d.size()) + "\n"; }
static string text(const CK& k) { string s = head(k); for (auto& v : k.v) s += var(v); return s + "$END_variables\n\n"; }
static CK gen(Case& c, bool alldoubles) {
  CK k; k.nb = c.i(1, 4); k.time = strf("%.17g", c.b() ? c.i(0, 20) * .1 : c.u(0, 1e3)); int names = c.i(1, 5); vector<string> nm; for (int i = 0; i < names; i++) { string n = c.pick(NAMES); if (std::find(nm.begin(), nm.end(), n) == nm.end()) nm.push_back(n); }
  static const vector<string> vals = {"", "0", "1.5", "a b c", "  two spaces  ", "x = y", "-1", "yes", "$time", "box0_n1", "gxx gxy gxz"}; auto junk = [&] { int m = c.i(0, 5); for (int i = 0; i < m; i++) k.par.push_back({c.pickl<const char*>({"amr", "pi", "outdir", "box0_n11", "box1_n", "box10_n1", "checkpoint_variables", "finaltime", "xbox0_n1", "ABC"}), c.b(1, 6) ? string(c.i(0, 3000), 'w') : c.pick(vals)}); };
  junk(); vector<int> bo; for (int b = 0; b < k.nb; b++) bo.push_back(b); for (int b = 0; b < k.nb; b++) std::swap(bo[b], bo[c.i(0, k.nb - 1)]);
  for (int b : bo) { for (int q = 0; q < 3; q++) { k.n[b][q] = c.i(1, c.b(1, 6) ? 14 : 5); } int o = c.i(0, 2); for (int q = 0; q < 3; q++) { int r = (q + o) % 3; k.par.push_back({strf("box%d_n%d", b, r + 1), strf("%d", k.n[b][r])}); if (c.b(1, 4)) k.par.push_back({strf("box%d_nx%d", b, r), "17"}); } } junk();
  for (int b = 0; b < k.nb; b++) for (auto& n : nm) if (!c.b(1, 6)) { V v{n, b, vector<double>(k.n[b][0] * k.n[b][1] * k.n[b][2])}; int kind = alldoubles ? c.i(0, 3) : 0; uint64_t h = c.bits64();
    for (size_t i = 0; i < v.d.size(); i++) { h = h * 6364136223846793005ull + 1442695040888963407ull; uint64_t w = h ^ (h >> 29); if (kind == 0) v.d[i] = (double) (int64_t) w * 1e-15 + (i % 3 ? 0 : 1e-3 * (w % 7)); else if (kind == 1) memcpy(&v.d[i], &w, 8); else if (kind == 2) memset(&v.d[i], (w >> 40) % 3 ? 10 : 36, 8); else { static const char T[] = "$variable = gxx : box = 0 , box->nnodes = 1\n$END_variables\n\n"; for (int q = 0; q < 8; q++) ((char*) &v.d[i])[q] = T[(8 * i + q) % (sizeof T - 1)]; } } k.v.push_back(v); }
  c.describe("%d boxes, %d variables, %d parameters; ", k.nb, (int) k.v.size(), (int) k.par.size()); spit("in", text(k)); return k;
}
static void same(Case& c, const string& got, const string& want, const char* what) { if (got == want) return; size_t p = std::mismatch(got.begin(), got.begin() + std::min(got.size(), want.size()), want.begin()).first - got.begin(); c.fail("%s: the file has %d bytes instead of %d, first difference at byte %d: '%s' instead of '%s'", what, (int) got.size(), (int) want.size(), (int) p, got.substr(p, 60).c_str(), want.substr(p, 60).c_str()); }
PBT(prune, {.quick = 2000, .thorough = 20000, .fs = true}) {
  CK k = gen(c, true); string f; std::set<string> keep; int m = c.i(1, 6); bool any = false; for (int i = 0; i < m; i++) { string n = c.pick(NAMES); keep.insert(n); f += string(c.b(1, 5) ? c.i(1, 3) : 0, ' ') + n + (c.b(1, 5) ? " " : "") + (c.b(1, 6) ? "\tcomment" : ""); if (i + 1 < m || c.b()) f += "\n"; if (c.b(1, 8) && i + 1 < m) f += "\n"; } c.describe("keep %s; ", f.c_str());
  spit("vars", f); Res r = run(c, "prune_checkpoint", {"vars", "in", "out"}); c.check(r.st == 0, "prune_checkpoint returns %d", r.st); CK w = k; w.v.clear(); for (auto& v : k.v) if (keep.count(v.name)) { w.v.push_back(v); any = true; } if (any && w.v.size() < k.v.size()) c.nontrivial();
  same(c, slurp("out"), text(w), "pruned checkpoint"); same(c, slurp("in"), text(k), "input of prune_checkpoint"); same(c, slurp("vars"), f, "list of variables");
}
PBT(modify, {.quick = 2000, .thorough = 20000, .fs = true}) {
  CK k = gen(c, true), w = k; vector<vector<string>> o; double mul = 1, add = 0; string vn; if (c.b()) { string pn = c.b(3, 4) && !k.par.empty() ? k.par[c.i(0, (int) k.par.size() - 1)].first : c.pickl<const char*>({"nothere", "box0", "am"}); string pv = c.pickl<const char*>({"1", "-5", "", "a b", "somewhat longer than the value was", "-V"}); o.push_back({"-P", pn, pv}); for (auto& p : w.par) if (p.first == pn) { p.second = pv; c.nontrivial(); } }
  if (c.b(3, 4)) { vn = c.b(3, 4) && !k.v.empty() ? k.v[c.i(0, (int) k.v.size() - 1)].name : c.pick(NAMES); o.push_back({"-V", vn}); if (c.b()) { string s = c.pickl<const char*>({"2", "-1", "0.1", "1e-3", "0", "-2.5e1"}); o.push_back({"-M", s}); mul = atof(s.c_str()); } if (c.b()) { string s = c.pickl<const char*>({"0.5", "-1", "1e3", "-0.125"}); o.push_back({"-A", s}); add = atof(s.c_str()); } }
  for (size_t i = 0; i < o.size(); i++) std::swap(o[i], o[c.i(0, (int) o.size() - 1)]); vector<string> a; for (auto& x : o) a.insert(a.end(), x.begin(), x.end()); a.push_back("in"); a.push_back("out");
  Res r = run(c, "modify_checkpoint", a); c.check(r.st == 0, "modify_checkpoint returns %d", r.st); string got = slurp("out"), want = head(w); if (got.compare(0, want.size(), want)) { same(c, got.substr(0, want.size()), want, "beginning of the modified checkpoint"); }
  size_t p = want.size(); for (auto& v : w.v) { string t = var(v); size_t hl = t.find('\n') + 1; c.check(got.size() >= p + t.size(), "modified checkpoint is too short"); if (vn != v.name || (mul == 1 && add == 0)) same(c, got.substr(p, t.size()), t, (v.name + " in the modified checkpoint").c_str());
    else { same(c, got.substr(p, hl), t.substr(0, hl), "header of the modified variable"); c.nontrivial(); for (size_t i = 0; i < v.d.size(); i++) { double x; memcpy(&x, &got[p + hl + 8 * i], 8); double e = v.d[i]; if (mul != 1) e *= mul; if (add != 0) e += add; bool ok = e != e ? x != x : x == e || fabs(x - e) <= 4e-16 * (fabs(v.d[i] * mul) + fabs(add)); c.check(ok, "%s[%d] was %.17g, is %.17g instead of %.17g", v.name.c_str(), (int) i, v.d[i], x, e); } }
    p += t.size(); } same(c, got.substr(p), "$END_variables\n\n", "end of the modified checkpoint"); same(c, slurp("in"), text(k), "input of modify_checkpoint");
}
// extract, then dump as lines and planes
PBT(extract, {.quick = 1500, .thorough = 20000, .fs = true}) {
  CK k = gen(c, c.b()); string n = c.b(7, 8) && !k.v.empty() ? k.v[c.i(0, (int) k.v.size() - 1)].name : c.pick(NAMES); int b = c.i(0, k.nb - 1); bool A = c.b(1, 3); vector<string> a = {"-V", n, strf("%d", b)}; if (A) { if (c.b()) a.push_back("-A"); else a.insert(a.begin(), "-A"); } a.push_back("in"); a.push_back("out"); Res r = run(c, "extractvar_from_checkpoint", a); c.check(r.st == 0, "extractvar_from_checkpoint returns %d", r.st);
  const V* v = 0; for (auto& x : k.v) if (x.name == n && x.box == b) v = &x; string got = slurp("out"); if (!v) { c.check(got.empty(), "something is extracted although %s is not there", n.c_str()); c.check(r.out.find("could not find") != string::npos, "no message that %s is missing", n.c_str()); return; } c.nontrivial();
  int* m = k.n[b]; string want = strf("# \"time = %s\" , box%d: n1=%d n2=%d n3=%d , N=%d numbers , type=%s\n", k.time.c_str(), b, m[0], m[1], m[2], m[0] * m[1] * m[2], A ? "ascii" : "float"); same(c, got.substr(0, want.size()), want, "header of the extracted variable"); string body = got.substr(want.size());
  if (A) { auto L = lines(body); c.check(L.size() == v->d.size() + 1 && L.back().empty(), "%d lines instead of %d", (int) L.size(), (int) v->d.size() + 1); for (size_t i = 0; i < v->d.size(); i++) { char* e; double x = strtod(L[i].c_str(), &e), y = v->d[i]; c.check(!*e && (y != y ? x != x : x == y || fabs(x - y) <= 6e-6 * fabs(y)), "number %d is '%s' instead of %.17g", (int) i, L[i].c_str(), y); } return; }
  string w; for (double y : v->d) { float f = y; w += string((char*) &f, 4); } w += "\n"; if (body.size() == w.size()) for (size_t i = 0; i < v->d.size(); i++) if (v->d[i] != v->d[i]) memcpy(&w[4 * i], &body[4 * i], 4); same(c, body, w, "extracted variable");
}
PBT(slices, {.quick = 2000, .thorough = 20000, .fs = true}) {
  string f; int nb = c.i(1, 4), n[3]; vector<vector<float>> D; vector<string> T; vector<std::array<int, 3>> N; int mn[3] = {99, 99, 99}; bool vary = c.b(1, 4); for (int q = 0; q < 3; q++) n[q] = c.i(1, 9);
  for (int k = 0; k < nb; k++) { if (vary && k) for (int q = 0; q < 3; q++) n[q] = c.i(1, 9); for (int q = 0; q < 3; q++) mn[q] = std::min(mn[q], n[q]); T.push_back(strf("%.16g", c.b() ? c.i(0, 50) * .25 : c.u(0, 10))); vector<float> d(n[0] * n[1] * n[2]); uint64_t h = c.bits64(); int kind = c.i(0, 2); for (auto& x : d) { h = h * 6364136223846793005ull + 1442695040888963407ull; x = (double) (int64_t) (h ^ (h >> 31)) * 1e-17; if (kind == 1) { uint32_t u = h >> 30; memcpy(&x, &u, 4); } if (kind == 2) memset(&x, "\n \"n"[(h >> 33) % 4], 4); }
    f += strf("# \"time = %s\" , box%d: n1=%d n2=%d n3=%d , N=%d numbers , type=float\n", T[k].c_str(), c.i(0, 12), n[0], n[1], n[2], (int) d.size()) + string((char*) d.data(), 4 * d.size()) + "\n\n"; D.push_back(d); N.push_back({n[0], n[1], n[2]}); }
  spit("f", f); bool plane = c.b(); int fix = c.i(0, 2), at[3]; for (int q = 0; q < 3; q++) at[q] = c.i(0, mn[q] - 1); vector<string> a; string L = "ijk"; for (int q = 0; q < 3; q++) if (plane ? q == fix : q != fix) a.push_back(strf("-%c=%d", L[q], at[q])); a.push_back("f"); if (f.size() > 200) c.nontrivial(); if (vary) c.label("sizes differ");
  Res r = run(c, plane ? "sgrid3d_to_2d" : "sgrid3d_to_1d", a); c.check(r.st == 0, "returns %d: %s", r.st, r.out.substr(0, 200).c_str()); auto O = lines(r.out); size_t p = 0; auto next = [&]() -> string { c.check(p < O.size(), "output ends after %d lines", (int) p); return O[p++]; };
  auto num = [&](const string& s, float y, const string& what) { char* e; double x = strtod(s.c_str(), &e); c.check(!*e && (y != y ? x != x : x == y || fabs(x - y) <= 6e-6 * fabs(y)), "%s is '%s' instead of %.9g", what.c_str(), s.c_str(), y); };
  for (int k = 0; k < nb; k++) { string t = next(); size_t q = t.find("\"time="); c.check(q != string::npos && fabs(atof(t.c_str() + q + 6) - atof(T[k].c_str())) <= 6e-7, "time line '%s' for time %s", t.c_str(), T[k].c_str()); auto& m = N[k]; auto V = [&](int i, int j, int l) { return D[k][i + m[0] * (j + m[1] * l)]; };
    if (!plane) { for (int l = 0; l < m[fix]; l++) { int x[3] = {at[0], at[1], at[2]}; x[fix] = l; auto w = words(next()); c.check(w.size() == 2 && w[0] == strf("%d", l), "line %d of block %d", l, k); num(w[1], V(x[0], x[1], x[2]), strf("block %d: value at %d,%d,%d", k, x[0], x[1], x[2])); } c.check(next().empty(), "no empty line after block %d", k); }
    else { int d1 = fix == 0 ? 1 : 0, d2 = fix == 2 ? 1 : 2; for (int l2 = 0; l2 < m[d2]; l2++) { for (int l1 = 0; l1 < m[d1]; l1++) { int x[3] = {at[0], at[1], at[2]}; x[d1] = l1; x[d2] = l2; auto w = words(next()); c.check(w.size() == 3 && w[0] == strf("%d", l1) && w[1] == strf("%d", l2), "line %d,%d of block %d", l1, l2, k); num(w[2], V(x[0], x[1], x[2]), strf("block %d: value at %d,%d,%d", k, x[0], x[1], x[2])); } c.check(next().empty(), "no empty line after a row"); } c.check(next().empty(), "no empty line after block %d", k); } }
  while (p < O.size()) c.check(O[p++].empty(), "more output than data");
}
// --- floatdiff
struct Row { vector<string> w; };
static string ftext(const vector<Row>& r) { string s; for (auto& x : r) { for (size_t k = 0; k < x.w.size(); k++) s += (k ? "  " : "") + x.w[k]; s += "\n"; } return s; }
PBT(floatdiff, {.quick = 2000, .thorough = 20000, .fs = true}) {
  mkdir("a", 0755); mkdir("b", 0755); bool dirs = c.b(1, 3); int nf = dirs ? c.i(1, 3) : 1; double rt = c.b() ? 0 : c.pickl<double>({1e-12, 1e-6, 1e-3, .1, 1}), at = c.b() ? 0 : c.pickl<double>({1e-12, 1e-6, 1e-3, .1}); struct D { string file; int l, col; double x, y; }; vector<D> want; int others = 0, warn = 0, skipped = 0; std::set<string> colw;
  auto number = [&] { int k = c.i(0, 9); if (k == 0) return string("0"); if (k == 1) return string("-0.0"); if (k == 2) return strf("%d", c.i(-5, 5)); if (k == 3) return strf("%.16e", c.anyfinite()); if (k == 4) return string(c.pickl<const char*>({"nan", "inf", "-inf"})); return strf(c.pickl<const char*>({"%.16g", "%g", "%e", "%.3f"}), c.sym(10)); };
  vector<Row> AA, BB;
  vector<string> fn; for (int f = 0; f < nf; f++) { string name = strf("file%d.t", f); fn.push_back(name); vector<Row> A, B; int rows = c.i(0, 12), cols = c.i(1, 5); for (int r = 0; r < rows; r++) { Row R; R.w.push_back(strf("%d", r + 100)); int kind = c.i(0, 9); if (kind == 0) R.w = {strf("#row%d", r), "\"Time", "=", strf("%d\"", r)}; else for (int k = 0; k < cols; k++) R.w.push_back(number()); A.push_back(R); } B = A; bool small = false;
    int pm = c.pickl<int>({2, 4, 20}); for (int r = 0; r < rows; r++) if (B[r].w[0][0] != '#') { for (int k = 1; k < (int) B[r].w.size(); k++) if (c.b(1, pm)) { string o = B[r].w[k], s; int kind = c.i(0, 3); double x = atof(o.c_str()); if (kind == 0 || !std::isfinite(x)) s = number(); else if (kind == 1) s = strf("%.17e", x); else { static const double E[] = {1e-15, 1e-9, 1e-7, 1e-5, 1e-2, .5}; double e = E[c.i(0, 5)]; s = strf("%.17g", kind == 2 ? x * (1 + e) : x + e); } B[r].w[k] = s; double y = atof(s.c_str()); if (s == o) continue;
          if (x == 0 && y == 0) { skipped++; continue; } double ad = fabs(y - x), rd = x != 0 ? fabs((y - x) / x) : fabs((y - x) / y); auto edge = [](double v, double t) { return t > 0 && fabs(v - t) <= 1e-9 * t; }; if (edge(rd, rt) || edge(ad, at)) c.discard(); if (rd <= rt || ad <= at) { skipped++; continue; } want.push_back({name, r + 1, k, x, y}); }
        if (c.b(1, 25)) { bool more = c.b(); if (more) B[r].w.push_back("1.5"); else B[r].w.pop_back(); others++; size_t nc = std::min(A[r].w.size(), B[r].w.size()); colw.insert(strf("%s:L%dC%d", name.c_str(), r + 1, (int) nc + 1)); want.erase(std::remove_if(want.begin(), want.end(), [&](const D& d) { return d.file == name && d.l == r + 1 && d.col >= (int) nc; }), want.end()); } }
    int extra = c.b(1, 8) ? c.i(1, 3) : 0; if (extra) { auto& S = c.b() ? A : B; for (int k = 0; k < extra; k++) S.push_back({{strf("%d", 900 + k), "1"}}); others++; c.label("extra lines"); } (void) small;
    AA = A; BB = B;     spit("a/" + name, ftext(A)); spit("b/" + name, ftext(B)); c.describe("%d rows, %d columns; ", rows, cols); }
  if (dirs && c.b(1, 3)) { spit(c.b() ? "a/only" : "b/only", "1 2 3\n"); warn++; c.label("only in one"); }
  int det = c.i(0, 2); vector<string> a; if (rt || c.b(1, 4)) { a.push_back("-rt"); a.push_back(strf("%g", rt)); } if (at || c.b(1, 4)) { a.push_back("-at"); a.push_back(strf("%g", at)); } if (det != 1 || c.b(1, 4)) { a.push_back("-d"); a.push_back(strf("%d", det)); } string fa = dirs ? "a" : "a/file0.t", fb = dirs ? "b" : "b/file0.t"; bool pre = c.b(1, 4);
  if (pre) { c.label("diff output"); int e = system(("diff -r " + fa + " " + fb + " > dd 2>&1").c_str()); (void) e; a.push_back("--diff-out"); a.push_back("dd"); } else { a.push_back(fa); a.push_back(fb); }
  Res r = run(c, "floatdiff", a); if (!want.empty()) c.nontrivial(); size_t expn = want.size() + others; int st = expn ? 2 : warn ? 1 : 0; c.check(r.st == st, "floatdiff returns %d instead of %d (%d differences, %d other, %d warnings)\n%s%s", r.st, st, (int) want.size(), others, warn, r.out.substr(0, 300).c_str(), det ? "" : (ftext(AA) + ftext(BB)).c_str());
  auto O = lines(r.out); string cur = fn[0]; vector<D> got; std::set<string> gotcol; int gw = 0; for (auto& l : O) { if (l.compare(0, 5, "diff ") == 0) { cur = l.substr(l.rfind('/') + 1); continue; } int L, C; double x, y; if (sscanf(l.c_str(), "L%dC%d", &L, &C) != 2) { if (l.compare(0, 8, "Only in ") == 0) gw++; continue; } if (l.find("WARNING") != string::npos) { gotcol.insert(strf("%s:L%dC%d", cur.c_str(), L, C)); continue; } char s1[100], s2[100]; c.check(sscanf(l.c_str(), "L%dC%d %99s %99s", &L, &C, s1, s2) == 4, "line '%s'", l.c_str()); got.push_back({cur, L, C - 2, atof(s1), atof(s2)}); }
  if (det == 0) { c.check(got.empty() && gotcol.empty(), "differences are shown at detail level 0"); } else {
    // columns are counted from 0 = the mark of diff, so C2 is the second word
    for (auto& w : want) { bool ok = false; for (auto& g : got) if (g.file == w.file && g.l == w.l && g.col + 1 == w.col) { ok = true; auto eq = [](double p, double q) { return p != p ? q != q : p == q || fabs(p - q) <= 1e-14 * fabs(q); }; c.check(eq(g.x, w.x) && eq(g.y, w.y), "%s line %d column %d: %.17g %.17g is reported as %.17g %.17g", w.file.c_str(), w.l, w.col, w.x, w.y, g.x, g.y); } c.check(ok, "%s line %d column %d: %.17g against %.17g is not reported (rt %g, at %g)", w.file.c_str(), w.l, w.col, w.x, w.y, rt, at); }
    for (auto& g : got) { bool ok = false; for (auto& w : want) ok |= g.file == w.file && g.l == w.l && g.col + 1 == w.col; c.check(ok, "%s line %d column %d: %.17g against %.17g is reported (rt %g, at %g)", g.file.c_str(), g.l, g.col + 1, g.x, g.y, rt, at); } c.check(got.size() == want.size(), "%d differences reported instead of %d", (int) got.size(), (int) want.size()); c.check(gotcol == colw, "lines with different numbers of columns: %d instead of %d (%s; %s)", (int) gotcol.size(), (int) colw.size(), gotcol.empty() ? "" : gotcol.begin()->c_str(), colw.empty() ? "" : colw.begin()->c_str()); c.check(gw == warn, "%d warnings shown instead of %d", gw, warn); }
  if (expn) { int e1 = -1, e2 = -1; for (auto& l : O) sscanf(l.c_str(), "=> %d relevant difference(s), and %d warning(s)", &e1, &e2); c.check(e1 >= (int) want.size() + (int) colw.size() && e1 <= (int) expn + 3 && e2 == warn, "summary says %d differences and %d warnings", e1, e2); }
}

// C22: output files contain exactly the grid data they claim, when they are due
#include "run.h"
#include <array>
#include <complex>
using namespace pbt;
struct V { string name, ti; bool cst, wild; vector<int> off; };   // off: boxes without memory
static vector<V> vs; static uint64_t salt; static int nbx;
static double val(bool wild, const string& n, int b, int it, int i) {
  uint64_t h = salt ^ (b * 0x9E3779B97F4A7C15ull) ^ ((uint64_t) it << 40) ^ ((uint64_t) i * 0xBF58476D1CE4E5B9ull); for (char ch : n) h = (h ^ ch) * 1099511628211ull; h ^= h >> 29; h *= 0x94D049BB133111EBull; h ^= h >> 32;
  if (wild) switch (h % 7) { case 0: return -0.0; case 1: return 5e-324; case 2: return -1.5e300; case 3: return 1e-42; case 4: return 3.5e38; case 5: return INFINITY; default: break; }
  return ((h >> 11) * (1.0 / (1ull << 53)) * 2 - 1) * ((h & 3) ? 1 : 100); }
static vector<string> comps(const V& v) { vector<string> r; string n = v.name; if (v.ti.empty()) r = {n}; else if (v.ti == "i") r = {n + "x", n + "y", n + "z"}; else r = {n + "xx", n + "xy", n + "xz", n + "yy", n + "yz", n + "zz"}; return r; }
static std::map<int, std::map<string, string>> chg; // parameters changed after the step it
static int o_vars(tGrid*) { static int d; if (!d) { for (auto& v : vs) { AddVar(S_(v.name), S_(v.ti), (char*) "v"); if (v.cst) VarNameSetConstantFlag(S_(comps(v)[0])); } d = 1; } return 0; }
static void fill(tGrid* g, int it) { for (auto& v : vs) if (!v.cst || it == 0) for (auto& n : comps(v)) for (int b = 0; b < g->nboxes; b++) { double* u = g->box[b]->v[Ind(S_(n))]; if (u) for (int i = 0; i < g->box[b]->nnodes; i++) u[i] = val(v.wild, n, b, it, i); } }
static int o_init(tGrid* g) { for (auto& v : vs) { for (auto& n : comps(v)) for (int b = 0; b < g->nboxes; b++) { bool off = false; for (int q : v.off) off |= q == b; if (!off) enablevarcomp_inbox(g->box[b], Ind(S_(n))); } } fill(g, 0);
  FILE* f = fopen("coords", "w"); for (int b = 0; b < g->nboxes; b++) for (auto n : {"X", "Y", "Z", "x", "y", "z"}) { double* u = g->box[b]->v[Ind((char*) n)]; for (int i = 0; i < g->box[b]->nnodes; i++) fprintf(f, "%a ", u ? u[i] : 0.0); fprintf(f, "\n"); } fclose(f); return 0; }
static int o_post(tGrid* g) { fill(g, g->iteration + 1); return 0; }
static int o_chg(tGrid* g) { for (auto& x : chg[g->iteration]) Sets(S_(x.first), S_(x.second)); return 0; }
static string g16(double x) { return strf("%.16g", x); }
// weights of the integral of the interpolant
static vector<double> weights(const Dir& d) { int n = d.n; if (d.basis == "Fourier") return vector<double>(n, (d.b - d.a) / n);
  vector<vector<ld>> A(n, vector<ld>(n + 1)); ld h = ((ld) d.b - d.a) / 2; for (int k = 0; k < n; k++) { for (int j = 0; j < n; j++) { ld x = d.basis == "ChebExtrema" ? -cosl(j * PIl / (n - 1)) : -cosl((j + 0.5L) * PIl / n); A[k][j] = cosl(k * acosl(x)); } A[k][n] = k % 2 ? 0 : h * 2 / (1 - (ld) k * k); }
  for (int k = 0; k < n; k++) { int p = k; for (int r = k; r < n; r++) if (fabsl(A[r][k]) > fabsl(A[p][k])) p = r; std::swap(A[p], A[k]); for (int r = 0; r < n; r++) if (r != k) { ld f = A[r][k] / A[k][k]; for (int q = k; q <= n; q++) A[r][q] -= f * A[k][q]; } }
  vector<double> w(n); for (int k = 0; k < n; k++) w[k] = (double) (A[k][n] / A[k][k]); return w; }
static int due(int it, double dt, int di, double dto) { if (di > 0 && it % di == 0) return it / di + 1; if (dto > 0) { double T = it * dt; long m0 = (long) floor(T / dto + 0.5); if (dto < dt) return (int) m0 + 1; for (long m = std::max(0L, m0 - 1); m <= m0 + 1; m++) { double x = m * dto / dt; long k = (long) floor(x + 0.5 - 0); double fr = x - floor(x); if (fabs(fr - 0.5) < 1e-7) k = (long) floor(x) + 1; if (k == it) return (int) m + 1; } } return 0; }
static string be(double v, bool dbl) { string r; if (dbl) { uint64_t b; memcpy(&b, &v, 8); for (int k = 7; k >= 0; k--) r += (char) (b >> (8 * k)); } else { float f = (float) v; uint32_t b; memcpy(&b, &f, 4); for (int k = 3; k >= 0; k--) r += (char) (b >> (8 * k)); } return r; }

PBT(files, {.quick = 2800, .thorough = 80000, .fs = true}) {
  nbx = c.i(1, 3); salt = c.bits64(); vector<BoxSpec> S; string p; vector<vector<string>> rep(nbx); vector<vector<double>> org(nbx);
  for (int b = 0; b < nbx; b++) { BoxSpec s; for (auto& d : s.d) { d.basis = c.pickl<const char*>({"ChebExtrema", "ChebZeros", "Fourier"}); d.n = c.i(d.basis == "ChebExtrema" ? 2 : 1, 5); d.a = c.b() ? c.i(-2, 2) : c.sym(3); d.b = d.a + (c.b() ? 1 : c.logu(0.1, 5)); d.tt = "0 NUMREC_FFT"; } S.push_back(s); }
  p = grid_text(S) + "physics = none\nCoordinates_set_bfaces = no\n"; double dt = c.pickl<double>({0.25, 0.1, 0.3, 1, 0.7}); if (c.b(1, 4)) dt = c.logu(1e-4, 10); int its = c.i(0, 9); p += strf("dt = %.17g\n", dt);
  for (int b = 0; b < nbx; b++) for (int k = 0; k < 3; k++) { string cc(1, "XYZ"[k]); rep[b].push_back(cc); org[b].push_back(0); if (c.b(1, 4)) { rep[b][k] = string(1, "xyz"[c.i(0, 2)]); p += "outputReplace" + cc + strf("by_box%d = ", b) + rep[b][k] + "\n"; } if (c.b(1, 3)) { const Dir& d = S[b].d[k]; org[b][k] = c.b() ? d.a + c.u01() * (d.b - d.a) : c.pickl<double>({d.a, d.b, d.a - 1, d.b + 1}); p += "output" + cc + strf("0_box%d = %.17g\n", b, org[b][k]); } }
  int nv = c.i(1, 4); for (int k = 0; k < nv; k++) { V v; v.name = strf("%c%s", 'q' + k, c.b(1, 3) ? "_long9" : ""); v.ti = c.pickl<const char*>({"", "", "i", "(ij)"}); v.cst = c.b(1, 5); v.wild = c.b(1, 5); for (int b = 0; b < nbx; b++) if (c.b(1, 6)) v.off.push_back(b); vs.push_back(v); }
  struct O { int di; double dto; bool all; vector<string> names; }; vector<O> o(4); bool oall = c.b(1, 6); if (oall) p += "outputall = yes\n"; vector<string> cmd;
  for (int d = 0; d < 4; d++) { O& q = o[d]; q.di = c.b() ? c.pickl<int>({1, 2, 3, 5}) : c.pickl<int>({-1, 0, 7}); q.dto = c.b() ? -1 : dt * (c.b() ? c.pickl<double>({1, 1.5, 2, 2.5, 0.5, 3, 0.3, 3.5}) : c.logu(0.2, 5)); q.all = c.b(1, 4); if (q.di > 0 && q.dto > 0 && c.b()) q.dto = -1;
    p += strf("%ddoutiter = %d\n%ddouttime = %.17g\n", d, q.di, d, q.dto); if (q.all) p += strf("%ddoutputall = yes\n", d); q.all |= oall; string l;
    vector<int> ord(vs.size()); for (size_t k = 0; k < ord.size(); k++) ord[k] = (int) k; for (int k = (int) ord.size() - 1; k > 0; k--) std::swap(ord[k], ord[c.i(0, k)]);
    for (int k : ord) { if (c.b(1, 4)) continue; auto cs = comps(vs[k]); if (q.all) { string n = cs[c.i(0, (int) cs.size() - 1)]; q.names.push_back(n); } else for (auto& n : cs) if (n == cs[0] || c.b()) q.names.push_back(n); if (c.b(1, 8)) q.names.push_back(c.pickl<const char*>({"nosuchvar", "q_", "Qxx"})); }
    if (c.b(1, 5) && !q.all) q.names.push_back("x"); string sep = c.b(1, 3) ? "  " : " "; for (size_t k = 0; k < q.names.size(); k++) l += (k ? sep : "") + q.names[k]; if (c.b(1, 4)) cmd.push_back(strf("--modify-par:%ddoutput= ", d) + l); else p += strf("%ddoutput = ", d) + l + "\n"; }
  bool vtk = c.b(), dump = !vtk || c.b(), text = c.b(), dbl = c.b(), fake = c.b(1, 3), one = c.b(1, 3), addp = c.b(1, 3); { vector<string> w; if (vtk) w.push_back("vtk"); if (dump) w.push_back("dump"); if (text) w.push_back("text"); else if (c.b()) w.push_back("binary"); if (dbl) w.push_back("double"); else if (c.b()) w.push_back("float"); if (fake) w.push_back("fakepoints"); if (one) w.push_back("arrange_as_1d"); if (addp) w.push_back("addpoints"); for (int k = (int) w.size() - 1; k > 0; k--) std::swap(w[k], w[c.i(0, k)]); p += "3dformat = " + join(w) + "\n"; }
  int norm = c.i(0, 3); if (norm == 1) p += "0doutput_normtype = L2norm\n"; if (norm == 2) p += "0doutput_VolumeIntegralJacobian = one\n";
  if (c.b(1, 4)) { int n = c.i(1, 3); for (int k = 0; k < n; k++) { int d = c.i(0, 3); int at = c.i(0, 8); if (c.b()) chg[at][strf("%ddoutiter", d)] = strf("%d", c.i(-1, 4)); else chg[at][strf("%ddoutput", d)] = o[d].names.empty() ? "" : o[d].names[0]; } }
  int rst = c.b(1, 3) && its >= 2 && chg.empty() && cmd.empty() ? c.i(1, its - 1) : 0; if (rst) p += "checkpoint = yes\ncheckpoint_variables = all\n";
  c.describe("%s", p.c_str()); for (auto& x : cmd) c.describe("%s\n", x.c_str()); for (auto& v : vs) { c.describe("var %s '%s'%s%s", v.name.c_str(), v.ti.c_str(), v.cst ? " constant" : "", v.wild ? " wild" : ""); for (int b : v.off) c.describe(" not in box %d", b); c.describe("; "); } for (auto& x : chg) for (auto& y : x.second) c.describe("after step %d %s=%s; ", x.first, y.first.c_str(), y.second.c_str());
  auto go = [&](int n) { spit("a.par", p + strf("iterations = %d\n", n)); vector<string> a = {"a.par"}; for (auto& x : cmd) a.push_back(x); return run_main(a, [&] { AddFun(POST_PARAMETERS, o_vars, (char*) "v"); AddFun(INITIALDATA, o_init, (char*) "i"); AddFun(POST_EVOLVE, [](tGrid*) { return 0; }, (char*) "x"); AddFun(PRE_POST_EVOLVE, [](tGrid*) { return 0; }, (char*) "x"); AddFun(EVOLVE, o_post, (char*) "e"); AddFun(POST_OUTPUT, o_chg, (char*) "c"); }); };
  int st; if (rst) { st = go(rst); c.check(st_ok(st), "the first run %s", st_str(st).c_str()); c.label("restart"); c.describe("stopped after %d of %d", rst, its); } st = go(its); c.check(st_ok(st), "the run %s", st_str(st).c_str());
  // coordinates
  vector<vector<vector<double>>> X(nbx, vector<vector<double>>(6)); { string s = slurp("coords"); const char* q = s.c_str(); for (int b = 0; b < nbx; b++) { int n = S[b].d[0].n * S[b].d[1].n * S[b].d[2].n; for (int k = 0; k < 6; k++) for (int i = 0; i < n; i++) { char* e; X[b][k].push_back(strtod(q, &e)); q = e; } } }
  auto coord = [&](int b, const string& n) -> vector<double>& { return X[b][string("XYZxyz").find(n)]; };
  Tree want; Tree got = tree("a"); std::map<string, int> writes; std::map<string, string> lost; vector<std::tuple<string, double, double, bool>> zero; // 0d values
  auto tgot = got; std::map<string, vector<std::pair<string, double>>> z0; // file -> (time, value) with tolerance
  std::map<string, vector<double>> ztol; int nw = 0;
  for (int it = 0; it <= its; it++) { string tm = g16(it * dt);
    for (int d = 0; d < 4; d++) { int n = due(it, dt, o[d].di, o[d].dto); if (!n) continue;
      for (int b = 0; b < nbx; b++) { int n1 = S[b].d[0].n, n2 = S[b].d[1].n, n3 = S[b].d[2].n, N = n1 * n2 * n3; auto I = [&](int i, int j, int k) { return i + n1 * (j + n2 * k); };
        vector<string> list; for (auto& nm : o[d].names) { const V* v = nullptr; for (auto& q : vs) for (auto& cc : comps(q)) if (cc == nm) v = &q; if (nm == "x") { list.push_back(nm); continue; } if (!v || (v->cst && it)) continue; bool off = false; for (int q : v->off) off |= q == b; if (off) continue; if (o[d].all) for (auto& cc : comps(*v)) list.push_back(cc); else list.push_back(nm); }
        for (auto& nm : list) { nw++; const V* v = nullptr; for (auto& q : vs) for (auto& cc : comps(q)) if (cc == nm) v = &q; vector<double> u(N); for (int i = 0; i < N; i++) u[i] = v ? val(v->wild, nm, b, v->cst ? 0 : it, i) : coord(b, nm)[i];
          if (d == 0) { vector<ld> w(N); double V = 0; auto w1 = weights(S[b].d[0]), w2 = weights(S[b].d[1]), w3 = weights(S[b].d[2]); for (int i = 0; i < N; i++) w[i] = norm == 1 ? 1.0L / N : (ld) w1[i % n1] * w2[(i / n1) % n2] * w3[i / (n1 * n2)]; for (auto q : w) V += (double) q; ld a = 0, s2 = 0, s1 = 0; double mx = u[0], mn = u[0]; for (int i = 0; i < N; i++) { s2 += w[i] * u[i] * u[i]; a += w[i] * fabs(u[i]); s1 += w[i] * u[i]; mx = std::max(mx, u[i]); mn = std::min(mn, u[i]); }
            double sc = std::max(fabs(mx), fabs(mn)), tol = 1e-12 * sc + 1e-300; bool wild = v && v->wild; auto add = [&](const char* q, double x, double t) { string f = nm + "_" + q + strf(".%d", b); z0[f].push_back({tm, x}); ztol[f].push_back(t); };
            add("max", mx, 0); add("min", mn, 0); add("rms", (double) sqrtl(s2 / V), wild ? INFINITY : tol * 10); add("meanAbs", (double) (a / V), wild ? INFINITY : tol); add("mean", (double) (s1 / V), wild ? INFINITY : tol); add("VolInt", (double) s1, wild || norm == 1 ? INFINITY : tol * V); }
          else if (d == 3) {
            if (dump) { string& f = want[nm + strf(".XYZ%d", b)]; f += "# \"time = " + tm + strf("\" , box%d: n1=%d n2=%d n3=%d , N=%d numbers , type=float\n", b, n1, n2, n3, N); for (double x : u) { float fl = (float) x; f.append((char*) &fl, 4); } f += "\n\n"; }
            if (vtk) { string suf = !fake && addp ? "xyz" : "XYZ", dir = nm + "." + suf + strf("%d_vtk", b), fn = dir + "/" + nm + "." + suf + strf("%d_%08d.vtk", b, n - 1); want[dir] = "<dir>"; writes[fn]++; string& f = want[fn]; if (!f.empty()) lost[fn] = f; f = "";
              auto num = [&](double x, char end) { return text ? (dbl ? strf("%.16g%c", x, end) : strf("%.7g%c", (double) (float) x, end)) : be(x, dbl); }; string ty = dbl ? "double" : "float"; bool fk = fake; 
              f = "# vtk DataFile Version 2.0\nvariable " + nm + strf(", box %d, time ", b) + tm + (fk ? ", Note: uniform grid spacings below are fake" : "") + "\n" + (text ? "ASCII\n" : "BINARY") + "\n";
              int m1 = n1, m2 = n2, m3 = n3; const Dir* D = S[b].d; if (fk) { double o3[3], s3[3]; for (int k = 0; k < 3; k++) { o3[k] = D[k].a; s3[k] = fabs(D[k].b - D[k].a) / D[k].n; } if (one) { m1 = N; m2 = m3 = 1; for (int k = 0; k < 3; k++) { o3[k] = 0; s3[k] = 1; } } f += strf("DATASET STRUCTURED_POINTS\nDIMENSIONS %d %d %d\nORIGIN  %16.9e %16.9e %16.9e\nSPACING %16.9e %16.9e %16.9e\n\n", m1, m2, m3, o3[0], o3[1], o3[2], s3[0], s3[1], s3[2]); }
              else if (addp) { f += strf("DATASET STRUCTURED_GRID\nDIMENSIONS %d %d %d\nPOINTS %d ", n1, n2, n3, N) + ty + "\n"; for (int i = 0; i < N; i++) f += num(X[b][3][i], ' ') + num(X[b][4][i], ' ') + num(X[b][5][i], '\n'); f += "\n\n"; }
              else { f += strf("DATASET RECTILINEAR_GRID\nDIMENSIONS %d %d %d\n", n1, n2, n3); for (int k = 0; k < 3; k++) { f += strf("%c_COORDINATES %d ", "XYZ"[k], D[k].n) + ty + "\n"; int str = k == 0 ? 1 : k == 1 ? n1 : n1 * n2; for (int i = 0; i < D[k].n; i++) f += num(X[b][k][str * i], '\n'); f += "\n\n"; } }
              f += strf("POINT_DATA %d\nSCALARS ", N) + (!fk && addp ? nm : string("scalars")) + " " + ty + "\nLOOKUP_TABLE default\n"; for (double x : u) f += num(x, '\n'); } }
          else { // lines and planes through the points closest to the origin given: which ones is read from the file, then checked
            int best[3][2]; for (int k = 0; k < 3; k++) { vector<double> x; int str = k == 0 ? 1 : k == 1 ? n1 : n1 * n2; for (int i = 0; i < S[b].d[k].n; i++) x.push_back(X[b][k][i * str]); double mn = INFINITY; for (double q : x) mn = std::min(mn, fabs(q - org[b][k])); best[k][0] = best[k][1] = -1; for (int i = 0; i < (int) x.size(); i++) if (fabs(x[i] - org[b][k]) <= mn + 1e-12 * (1 + fabs(org[b][k]))) { if (best[k][0] < 0) best[k][0] = i; best[k][1] = i; } }
            for (int k = 0; k < 3; k++) { // direction of the line, or normal of the plane
              string f = d == 1 ? nm + strf(".%c%d", "XYZ"[k], b) : nm + "." + (k == 0 ? "YZ" : k == 1 ? "XZ" : "XY") + strf("%d", b); string& w = want[f]; auto candidates = [&](const vector<std::array<int, 3>>& cs, const std::function<string(const std::array<int, 3>&)>& mk) { for (auto& x : cs) { string t = mk(x); auto g = got.find(f); if (g != got.end() && g->second.compare(w.size(), t.size(), t) == 0) { w += t; return; } } w += mk(cs[0]); };
              vector<std::array<int, 3>> cs; for (int a = 0; a < 2; a++) for (int bb = 0; bb < 2; bb++) for (int e = 0; e < 2; e++) cs.push_back({best[0][a], best[1][bb], best[2][e]});
              auto R = [&](int q) -> vector<double>& { return coord(b, rep[b][q]); };
              if (d == 1) candidates(cs, [&](const std::array<int, 3>& q) { string t = "\"time = " + tm + "\" "; if (k == 0) t += strf(", j=%d, k=%d, Y=%.16g, Z=%.16g\n", q[1], q[2], X[b][1][I(0, q[1], q[2])], X[b][2][I(0, q[1], q[2])]); else if (k == 1) t += strf(", i=%d, k=%d, X=%.16g, Z=%.16g\n", q[0], q[2], X[b][0][I(q[0], 0, q[2])], X[b][2][I(q[0], 0, q[2])]); else t += strf(", i=%d, j=%d, X=%.16g, Y=%.16g\n", q[0], q[1], X[b][0][I(q[0], q[1], 0)], X[b][1][I(q[0], q[1], 0)]); for (int i = 0; i < S[b].d[k].n; i++) { auto r = q; r[k] = i; int id = I(r[0], r[1], r[2]); t += g16(R(k)[id]) + " " + g16(u[id]) + "\n"; } return t + "\n"; });
              else candidates(cs, [&](const std::array<int, 3>& q) { int str = k == 0 ? 1 : k == 1 ? n1 : n1 * n2; string t = "# \"time = " + tm + "\", " + strf("%c=%d, %c=%.16g\n", "ijk"[k], q[k], "XYZ"[k], X[b][k][q[k] * str]); int p1 = k == 0 ? 1 : 0, p2 = k == 2 ? 1 : 2; for (int s = 0; s < S[b].d[p2].n; s++) { for (int r = 0; r < S[b].d[p1].n; r++) { int ii[3]; ii[k] = q[k]; ii[p1] = r; ii[p2] = s; int id = I(ii[0], ii[1], ii[2]); t += g16(R(p1)[id]) + " " + g16(R(p2)[id]) + " " + g16(u[id]) + "\n"; } t += "\n"; } return t + "\n"; }); } } } } }
    for (auto& x : chg[it]) { int d = x.first[0] - '0'; if (x.first.find("iter") != string::npos) o[d].di = atoi(x.second.c_str()); else { o[d].names.clear(); for (auto& w : words(x.second)) o[d].names.push_back(w); } } }
  if (nw > 3 && its > 1) c.nontrivial(); if (vtk) c.label("vtk"); if (norm == 1) c.label("L2norm"); c.label(nw ? "output" : "no output"); if (!lost.empty()) c.label("same number twice");
  for (auto& z : z0) { auto it = got.find(z.first); c.check(it != got.end(), "%s is missing", z.first.c_str()); auto w = words(it->second); c.check(w.size() == 2 * z.second.size(), "%s has %d numbers instead of %d:\n%s", z.first.c_str(), (int) w.size(), 2 * (int) z.second.size(), it->second.c_str());
    for (size_t k = 0; k < z.second.size(); k++) { c.check(w[2 * k] == z.second[k].first, "%s: time %s instead of %s", z.first.c_str(), w[2 * k].c_str(), z.second[k].first.c_str()); double tol = ztol[z.first][k], x = atof(w[2 * k + 1].c_str()), y = z.second[k].second; c.check(tol == INFINITY || (tol == 0 ? w[2 * k + 1] == g16(y) : near(x, y, tol)), "%s at time %s: %s instead of %.16g", z.first.c_str(), w[2 * k].c_str(), w[2 * k + 1].c_str(), y); } got.erase(z.first); }
  for (auto it = got.begin(); it != got.end();) { const string& f = it->first; if (f.compare(0, 6, "stdout") == 0 || f.compare(0, 10, "checkpoint") == 0 || (f.size() > 4 && f.substr(f.size() - 4) == ".par") ) it = got.erase(it); else ++it; }
  string df = tree_diff(want, got); c.check(df.empty(), "%s", df.c_str());
  if (!lost.empty()) c.known("vtk-number-twice", "%s was written twice, the first output is lost", lost.begin()->first.c_str());
}
PBT(when, {.quick = 20000, .thorough = 1000000}) { // one output for every multiple of the interval, at the iteration closest to it
  static tGrid G; static bool once; if (!once) { once = true; memset(&G, 0, sizeof G); } double dt = c.b() ? c.pickl<double>({0.1, 0.25, 0.3, 1, 0.01, 0.07}) : c.logu(1e-6, 1e6); int di = c.b() ? c.i(-2, 9) : 0; double r = c.b() ? c.pickl<double>({1, 1.5, 2, 2.5, 3.5, 0.5, 7, 0.3, 0.1}) : c.logu(0.05, 50); double dto = c.b(1, 6) ? 0 : r * dt; int from = c.b() ? 0 : c.i(0, 100000); G.dt = dt;
  c.describe("dt=%.17g di=%d interval=%.17g from iteration %d", dt, di, dto, from); if (dto > dt) c.nontrivial(); vector<int> count; long last = -1;
  for (int it = from; it < from + 60; it++) { G.iteration = it; G.time = it * dt; int n = timeforoutput_di_dt(&G, di, dto), w = due(it, dt, di, dto); double x = dto > 0 ? fabs(it * dt / dto) : 0; (void) x; bool tie = false; if (dto > 0) { double f = (floor(it * dt / dto + 0.5) * dto / dt); tie = fabs(fabs(f - it) - 0.5) < 1e-5 && fabs(fabs(f - it) - 0.5) > 1e-8; if (dto < dt * 1.0001) { double q = it * dt / dto - floor(it * dt / dto); tie |= fabs(q - 0.5) < 1e-5; } }
    if (tie) continue; c.check(n == w, "iteration %d: output number %d, it should be %d", it, n, w); if (n) last = n; } (void) last; c.evals(60);
}
PBT(due_variables, {.quick = 4000, .thorough = 50000}) { // the query functions agree with what is output
  setpar("Coordinates_set_bfaces", "no"); tGrid* g = new_grid({tiny_box()}, false); vector<string> nm = {"u", "uu", "vx", "vy", "vz"}; newvar(g, "u"); newvar(g, "uu"); newvar(g, "v", "i");
  g->dt = c.pickl<double>({0.25, 0.1, 1}); g->iteration = c.i(0, 12); g->time = g->iteration * g->dt; static const char* L[] = {"0doutput", "1doutput", "2doutput", "3doutput", "0doutputmax", "1doutputX", "2doutputXZ", "2doutputZD", "0doutputVolInt", "1doutputD"}; int D[] = {0, 1, 2, 3, 0, 1, 2, 2, 0, 1};
  bool du[4]; std::set<string> want; for (int d = 0; d < 4; d++) { int di = c.b(1, 3) ? c.i(-1, 4) : -1; double dto = c.b(1, 3) ? g->dt * c.pickl<double>({1, 2, 3, 2.5}) : -1; setpar(strf("%ddoutiter", d), strf("%d", di)); setpar(strf("%ddouttime", d), strf("%.17g", dto)); du[d] = due(g->iteration, g->dt, di, dto); c.describe("%dd %d %g; ", d, di, dto); }
  for (int k = 0; k < 10; k++) { string l; if (c.b()) for (auto& n : nm) if (c.b(1, 3)) { l += (l.empty() ? "" : " ") + n; if (du[D[k]]) want.insert(n); } setpar(L[k], l); c.describe("%s=%s ", L[k], l.c_str()); }
  if (!want.empty()) c.nontrivial(); for (auto& n : nm) { int r = timeforoutput_index(g, Ind(S_(n))); c.check(!!r == !!want.count(n), "timeforoutput_index(%s) = %d", n.c_str(), r); }
  tVarList* vl = vlalloc(g); bool any = false; for (auto& n : nm) if (c.b(1, 3)) { vlpushone(vl, Ind(S_(n))); any |= want.count(n) > 0; } c.check(!!timeforoutput(g, vl) == any, "timeforoutput of %d variables is wrong", vl->n);
  c.check(!!timeforoutput_any(g) == (du[0] || du[1] || du[2] || du[3]), "timeforoutput_any is wrong");
}
PBT(quick, {.quick = 400, .thorough = 8000, .fs = true}) { // output at once, whatever the parameters say, which leaves everything as it was
  setpar("Coordinates_set_bfaces", "no"); int nb = c.i(1, 2); vector<BoxSpec> S(nb, tiny_box()); for (auto& s : S) for (auto& d : s.d) { d.basis = c.b() ? "ChebExtrema" : "Fourier"; d.n = c.i(d.basis == "Fourier" ? 1 : 2, 4); }
  tGrid* g = new_grid(S, true); vector<string> nm = {"u", "uu", "vx", "vy", "vz"}; newvar(g, "u"); newvar(g, "uu"); newvar(g, "v", "i"); for (auto& n : nm) { enablevar(g, Ind(S_(n))); FORBOXES(g, b) { auto r = rnd(c, g->box[b]->nnodes); std::copy(r.begin(), r.end(), g->box[b]->v[Ind(S_(n))]); } }
  std::map<string, string> was; for (int d = 0; d < 4; d++) { was[strf("%ddoutput", d)] = c.b() ? "u vy" : c.b() ? "" : "uu"; was[strf("%ddoutiter", d)] = strf("%d", c.i(-1, 5)); was[strf("%ddouttime", d)] = c.b() ? "-1" : "0.75"; } was["3dformat"] = c.pickl<const char*>({"dump", "vtk binary float", "vtk dump addpoints"});
  for (auto& x : was) setpar(x.first, x.second); g->dt = 0.25; g->iteration = c.i(0, 9); g->time = g->iteration * g->dt; double t0 = g->time; int it0 = g->iteration, fi = c.i(0, 99); double ft = c.b() ? fi * 0.25 : c.i(-50, 50) * 0.125;
  vector<string> names; tVarList* vl = vlalloc(g); for (auto& n : nm) if (c.b()) { names.push_back(n); vlpushone(vl, Ind(S_(n))); } int how = c.i(0, 2); if (how == 2) names = {c.b() ? "fresh" : "uu"}; string l; for (auto& n : names) l += (l.empty() ? "" : " ") + n; bool fresh = how == 2 && names[0] == "fresh";
  int bx = c.i(0, nb - 1); tBox* b = g->box[bx]; auto ar = rnd(c, b->nnodes); c.describe("%d boxes, '%s' as %s at time %g iteration %d", nb, l.c_str(), how == 0 ? "names" : how == 1 ? "list" : "array", ft, fi); if (!l.empty()) c.nontrivial();
  std::set<BV> ex; if (how == 2 && !fresh) ex.insert(BV(bx, Ind((char*) "uu"))); Snap sn; sn.add(g, ex); mkdir("q", 0777); mkdir("w", 0777); setpar("outdir", "q");
  if (how == 0) quick_Vars_output(b, S_(l), ft, fi); else if (how == 1) quick_VarList_output(b, vl, ft, fi); else quick_Array_output(b, ar.data(), S_(names[0]), ft, fi);
  c.check(sn.bad().empty(), "%s was changed", sn.bad().c_str()); c.check(g->time == t0 && g->iteration == it0, "time %g and iteration %d instead of %g and %d", g->time, g->iteration, t0, it0); for (auto& x : was) c.check(x.second == Gets(S_(x.first)), "%s is now '%s' instead of '%s'", x.first.c_str(), Gets(S_(x.first)), x.second.c_str());
  if (how == 2) { int k = Ind(S_(names[0])); if (fresh) { FORBOXES(g, q) c.check(!g->box[q]->v[k], "%s still has memory in box %d", names[0].c_str(), q); enablevar_inbox(b, k); } else c.check(all_of(b, k) == ar, "the array was not copied"); std::copy(ar.begin(), ar.end(), b->v[k]); }
  setpar("outdir", "w"); for (int d = 0; d < 4; d++) { setpar(strf("%ddoutput", d), l); setpar(strf("%ddoutiter", d), "1"); } setpar("3dformat", "vtk text double arrange_as_1d"); g->time = ft; g->iteration = fi; write_grid(g);
  Tree q = tree("q"), w = tree("w"); if (!l.empty()) c.check(!w.empty(), "no output"); string df = tree_diff(w, q); c.check(df.empty(), "%s", df.c_str());
}
PBT(reductions, {.quick = 400, .thorough = 8000, .fs = true}) { // norms and integrals in boxes of different coordinates
  setpar("Coordinates_set_bfaces", "no"); int nb = c.i(1, 3), norm = c.i(0, 3); vector<BoxSpec> S(nb, tiny_box());
  for (auto& s : S) { if (c.i(0, 2)) { s.coord = "SphericalDF"; double r0 = c.u(0.3, 2); s.d[0] = {c.i(5, 9), r0, r0 + c.u(0.2, 3), "ChebExtrema", "64 NUMREC_FFT"}; s.d[1] = {c.i(4, 14), 0, 2 * PI, "Fourier", "64 NUMREC_FFT"}; s.d[2] = {c.i(1, 7), 0, 2 * PI, "Fourier", "64 NUMREC_FFT"}; }
    else for (auto& d : s.d) { d.basis = c.pickl<const char*>({"ChebExtrema", "ChebZeros", "Fourier"}); d.n = c.i(d.basis == "ChebExtrema" ? 2 : 1, 6); d.a = c.sym(2); d.b = d.a + c.u(0.2, 3); d.tt = "64 NUMREC_FFT"; } }
  setpar("0doutput_normtype", norm == 3 ? "average" : "integral"); setpar("0doutput_VolumeIntegralJacobian", norm == 2 ? "one" : "dV"); tGrid* g = new_grid(S, true); newvar(g, "u"); enablevar(g, Ind((char*) "u")); g->dt = 0.5; g->iteration = c.i(0, 5); g->time = g->iteration * g->dt;
  for (auto n : {"0", "1", "2", "3"}) { setpar(strf("%soutput", n), ""); } for (int d = 0; d < 4; d++) { setpar(strf("%ddoutput", d), d ? "" : "u"); setpar(strf("%ddoutiter", d), "1"); setpar(strf("%ddouttime", d), "-1"); }
  vector<std::map<string, double>> want(nb); vector<double> tol(nb); string ds;
  FORBOXES(g, q) { tBox* b = g->box[q]; double* u = b->v[Ind((char*) "u")]; BoxSpec& s = S[q]; int N = b->nnodes, n1 = b->n1, n2 = b->n2, n3 = b->n3; bool sph = s.coord == "SphericalDF", pos = c.b(); ds += strf(" %s%s", s.coord.c_str(), pos ? "+" : ""); ld Vol = 0, I1 = 0, I2 = 0, Ia = 0; bool abs_ok = true;
    if (sph) { // u = R(r) A(theta) F(phi), the square of which is resolved
      int T = (n2 - 1) / 4; vector<std::complex<ld>> C(2 * T + 1); double top = 0; for (int j = 1; j <= T; j++) { double a = c.sym(1), bb = c.sym(1); C[T + j] = {a / 2, -bb / 2}; C[T - j] = {a / 2, bb / 2}; top += fabs(a) + fabs(bb); } double a0 = pos ? top + 0.25 : c.sym(1); C[T] = a0; double p0 = pos ? 1 : c.sym(1), p1 = pos ? c.u(0, 1) : c.sym(1), q1 = n3 > 4 ? c.sym(0.9) : 0; double add = PI / ((1 + n2 % 2) * n2);
      for (int i = 0; i < N; i++) { ld r = gpoint(s.d[0], i % n1), th = gpoint(s.d[1], (i / n1) % n2) + add, ph = gpoint(s.d[2], i / (n1 * n2)), a = 0; for (int j = -T; j <= T; j++) a += (C[T + j] * std::polar(1.0L, j * th)).real(); u[i] = (double) ((p0 + p1 * r) * a * (1 + q1 * cosl(ph))); }
      if (norm < 2) { auto ang = [](const vector<std::complex<ld>>& D) { int M = (int) D.size() / 2; ld s = 0; for (int j = -M; j <= M; j++) { if (j % 2 == 0) s += D[M + j].real() * 2 / (1 - (ld) j * j); else if (std::abs(j) == 1) s += (D[M + j] * std::complex<ld>(0, j * PIl / 2)).real(); } return s; }; vector<std::complex<ld>> D(4 * T + 1); for (int i = 0; i <= 2 * T; i++) for (int j = 0; j <= 2 * T; j++) D[i + j] += C[i] * C[j];
        auto P = [&](int k) { return (powl(s.d[0].b, k + 1) - powl(s.d[0].a, k + 1)) / (k + 1); }; Vol = 4 * PIl * P(2); I1 = 2 * PIl * ang(C) * (p0 * P(2) + p1 * P(3)); I2 = 2 * PIl * (1 + q1 * q1 / 2) * ang(D) * ((ld) p0 * p0 * P(2) + 2 * p0 * p1 * P(3) + (ld) p1 * p1 * P(4)); Ia = I1; abs_ok = pos; } }
    else { auto r = rnd(c, N); for (int i = 0; i < N; i++) u[i] = pos ? fabs(r[i]) + 0.1 : r[i]; }
    if (norm == 3) { Vol = 1; for (int i = 0; i < N; i++) { I1 += (ld) u[i] / N; I2 += (ld) u[i] * u[i] / N; Ia += fabsl(u[i]) / N; } }
    else if (!sph || norm == 2) { vector<double> w[3]; for (int d = 0; d < 3; d++) w[d] = weights(s.d[d]); for (int i = 0; i < N; i++) { ld f = (ld) w[0][i % n1] * w[1][(i / n1) % n2] * w[2][i / (n1 * n2)]; Vol += f; I1 += f * u[i]; I2 += f * u[i] * u[i]; Ia += f * fabs(u[i]); } }
    double mx = *std::max_element(u, u + N), mn = *std::min_element(u, u + N), big = std::max(fabs(mx), fabs(mn)); tol[q] = 1e-11 * (1 + big);
    want[q] = {{"max", mx}, {"min", mn}, {"mean", (double) (I1 / Vol)}, {"VolInt", (double) I1}}; if (abs_ok) want[q]["meanAbs"] = (double) (Ia / Vol); if (I2 > 1e-6 * Vol * big * big) want[q]["rms"] = sqrt((double) (I2 / Vol)); if (sph && norm < 2) c.nontrivial(); tol[q] *= std::max(1.0, (double) fabsl(Vol)); }
  c.describe("norm %d:%s", norm, ds.c_str()); c.label(norm == 3 ? "average" : norm == 2 ? "no Jacobian" : "integral"); mkdir("q", 0777); setpar("outdir", "q"); vector<vector<double>> was; FORBOXES(g, q) was.push_back(all_of(g->box[q], Ind((char*) "u"))); write_grid(g);
  FORBOXES(g, q) { c.check(all_of(g->box[q], Ind((char*) "u")) == was[q], "u of box %d was changed", q); for (auto& x : want[q]) { string fn = strf("q/u_%s.%d", x.first.c_str(), q); FILE* f = fopen(fn.c_str(), "r"); double t = 0, v = 0, more = 0; int n = f ? fscanf(f, "%lf %lf %lf", &t, &v, &more) : -1; if (f) fclose(f);
    c.check(n == 2 && t == g->time, "%s has %d numbers, time %g instead of %g", fn.c_str(), n, t, g->time); c.check(near(v, x.second, x.first == "max" || x.first == "min" ? 1e-15 * fabs(x.second) : tol[q]), "%s: %.15g instead of %.15g", fn.c_str(), v, x.second); } }
}

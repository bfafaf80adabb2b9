// grid.h: random grids and resolved functions on them
#pragma once
#include "sg.h"
typedef long double ld;
static const ld PIl = 3.14159265358979323846264338327950288L;
struct Dir { int n; double a, b; string basis, tt; };
struct BoxSpec { Dir d[3]; string coord = "Cartesian"; };

inline int dmin(const string& b) { return b == "Fourier" ? 1 : b == "ChebZeros" ? 1 : b == "ChebExtrema" ? 2 : 4; }
// points of a basis, in the order of the grid
inline ld gpoint(const Dir& d, int i) {
  ld a = d.a, b = d.b; int n = d.n;
  if (d.basis == "ChebExtrema") return 0.5L * (a + b) + 0.5L * (a - b) * cosl(i * PIl / (n - 1));
  if (d.basis == "ChebZeros") return 0.5L * (a + b) + 0.5L * (a - b) * cosl((i + 0.5L) * PIl / n);
  if (d.basis == "fd2_onesided") return a + i * (b - a) / (n - 1);
  return a + i * (b - a) / n; // Fourier, fd2_periodic
}
inline Dir gen_dir(pbt::Case& c, int lo, int hi, bool pow2 = false) {
  Dir d; d.basis = c.pickl<const char*>({"ChebExtrema", "Fourier", "ChebZeros"});
  d.n = c.i(lo, hi); if (d.n < dmin(d.basis)) d.n = dmin(d.basis);
  if (pow2 && c.b(1, 3)) { int p = 1 << c.i(2, 4); d.n = d.basis == "ChebExtrema" ? p + 1 : p; }
  d.a = c.b() ? c.pickl<double>({0, -1, 1, -0.5, 2}) : c.sym(5);
  d.b = d.a + (c.b(1, 3) ? c.pickl<double>({1, 2, 6.283185307179586, 0.25}) : c.logu(0.05, 20));
  d.tt = c.pickl<const char*>({"64 NUMREC_FFT", "0 FFTW3", "0 NUMREC_FFT", "8 FFTW3", "2 NUMREC_FFT"});
  return d;
}
inline string dirstr(const Dir& d) { return pbt::strf("%s n=%d [%.17g,%.17g] tt='%s'", d.basis.c_str(), d.n, d.a, d.b, d.tt.c_str()); }
inline string specstr(const BoxSpec& s) { return dirstr(s.d[0]) + " x " + dirstr(s.d[1]) + " x " + dirstr(s.d[2]) + (s.coord != "Cartesian" ? " " + s.coord : ""); }

inline void set_box_pars(int b, const BoxSpec& s) {
  using pbt::strf;
  for (int k = 0; k < 3; k++) {
    const Dir& d = s.d[k]; string p = strf("box%d_", b), q = strf("%d", k + 1);
    setpar(p + "n" + q, strf("%d", d.n)); setpar(p + "min" + q, strf("%.17g", d.a)); setpar(p + "max" + q, strf("%.17g", d.b));
    setpar(p + "basis" + q, d.basis); if (!d.tt.empty()) setpar(p + "TransformType" + q, d.tt);
  }
  setpar(strf("box%d_Coordinates", b), s.coord);
}
// what initialize_grid does up to the coordinates
inline tGrid* new_grid(const vector<BoxSpec>& bs, bool coords = true, const std::map<string, string>& pars = {}) {
  if (!findparameter((char*) "physics", 0)) setpar("physics", "none");
  setpar("outdir", "."); setpar("nboxes", pbt::strf("%d", (int) bs.size()));
  for (size_t b = 0; b < bs.size(); b++) set_box_pars(b, bs[b]);
  for (auto& p : pars) setpar(p.first, p.second);
  static int init = 0; if (!init++) initialize_libraries();
  RunFun(POST_PARAMETERS, 0); RunFun(PRE_GRID, 0);
  tGrid* g = make_grid(0);
  RunFun(POST_GRID, g);
  if (coords) { RunFun(PRE_COORDINATES, g); RunFun(COORDINATES, g); }
  return g;
}

// a function of one variable that is a finite sum of basis functions
struct F1 {
  bool four; ld a, b; vector<std::pair<int, ld>> m; // Cheb: degree; Fourier: 2j-1 cos(jK(X-a)), 2j sin
  ld val(ld X, int der) const {
    ld s = 0;
    if (four) {
      ld K = 2 * PIl / (b - a);
      for (auto& t : m) {
        int j = (t.first + 1) / 2; ld w = j * K, ph = w * (X - a); bool cosine = t.first % 2 || t.first == 0;
        ld v = der == 0 ? (cosine ? cosl(ph) : sinl(ph)) : der == 1 ? (cosine ? -w * sinl(ph) : w * cosl(ph)) : -w * w * (cosine ? cosl(ph) : sinl(ph));
        s += t.second * v;
      }
      return s;
    }
    ld sc = 2 / (b - a), x = (X - a) * sc - 1; int K = 0; for (auto& t : m) K = std::max(K, t.first);
    vector<ld> T(K + 2, 0), D(K + 2, 0), E(K + 2, 0); T[0] = 1; T[1] = x; D[1] = 1;
    for (int k = 2; k <= K; k++) { T[k] = 2 * x * T[k-1] - T[k-2]; D[k] = 2 * T[k-1] + 2 * x * D[k-1] - D[k-2]; E[k] = 4 * D[k-1] + 2 * x * E[k-1] - E[k-2]; }
    for (auto& t : m) s += t.second * (der == 0 ? T[t.first] : der == 1 ? D[t.first] * sc : E[t.first] * sc * sc);
    return s;
  }
  ld integral(ld X0, ld X1) const { // exact
    ld s = 0;
    if (four) {
      ld K = 2 * PIl / (b - a);
      for (auto& t : m) {
        int j = (t.first + 1) / 2; if (j == 0) { s += t.second * (X1 - X0); continue; }
        ld w = j * K; bool cosine = t.first % 2;
        s += t.second * (cosine ? (sinl(w * (X1 - a)) - sinl(w * (X0 - a))) : -(cosl(w * (X1 - a)) - cosl(w * (X0 - a)))) / w;
      }
      return s;
    }
    ld h = (b - a) / 2;
    auto P = [&](int k, ld x) -> ld { if (k == 0) return x; if (k == 1) return x * x / 2; ld t = acosl(x > 1 ? 1 : x < -1 ? -1 : x); return (cosl((k + 1) * t) / (k + 1) - cosl((k - 1) * t) / (k - 1)) / 2; };
    for (auto& t : m) s += t.second * h * (P(t.first, (X1 - a) / h - 1) - P(t.first, (X0 - a) / h - 1));
    return s;
  }
  ld mag() const { ld s = 0; for (auto& t : m) s += fabsl(t.second); return s; }
  string str() const { string s; for (auto& t : m) s += pbt::strf("%s%d*%.3Lg", s.empty() ? "" : "+", t.first, t.second); return s; }
};
// nyq: allow the cos mode at the Nyquist frequency;  less: stay that many modes below the resolution
inline F1 gen_f1(pbt::Case& c, const Dir& d, bool nyq, int less = 0) {
  F1 f; f.four = d.basis == "Fourier"; f.a = d.a; f.b = d.b; int top;
  if (f.four) { int n = d.n; top = (n % 2) ? n - 1 : (nyq ? n - 1 : n - 2); if (top < 0) top = 0; }
  else top = std::max(0, d.n - 1 - less);
  int k = c.i(1, 3);
  for (int q = 0; q < k; q++) { int mm = c.b(1, 4) ? top : c.i(0, top); f.m.push_back({mm, (ld) c.pickl<double>({1, -1, 0.5, -0.25, 2, -3})}); }
  return f;
}
struct F3 {
  vector<F1> f[3];
  ld val(ld X, ld Y, ld Z, int d1 = 0, int d2 = 0, int d3 = 0) const {
    ld s = 0; for (size_t r = 0; r < f[0].size(); r++) s += f[0][r].val(X, d1) * f[1][r].val(Y, d2) * f[2][r].val(Z, d3); return s; }
  ld mag() const { ld s = 0; for (size_t r = 0; r < f[0].size(); r++) s += f[0][r].mag() * f[1][r].mag() * f[2][r].mag(); return s; }
  string str() const { string s; for (size_t r = 0; r < f[0].size(); r++) s += pbt::strf("%s(%s)(%s)(%s)", r ? " + " : "", f[0][r].str().c_str(), f[1][r].str().c_str(), f[2][r].str().c_str()); return s; }
};
inline F3 gen_f3(pbt::Case& c, const BoxSpec& s, bool nyq, int less = 0) {
  F3 f; int R = c.i(1, 3);
  for (int r = 0; r < R; r++) for (int k = 0; k < 3; k++) f.f[k].push_back(gen_f1(c, s.d[k], nyq, less));
  return f;
}
// table of a separable function on the points of a box, with exact derivatives
inline vector<double> tabulate(const F3& f, const BoxSpec& s, int d1 = 0, int d2 = 0, int d3 = 0) {
  int n[3] = {s.d[0].n, s.d[1].n, s.d[2].n}; vector<double> u((size_t) n[0] * n[1] * n[2]); int dd[3] = {d1, d2, d3};
  vector<ld> t[3]; size_t R = f.f[0].size();
  vector<ld> acc(u.size(), 0);
  for (size_t r = 0; r < R; r++) {
    for (int k = 0; k < 3; k++) { t[k].assign(n[k], 0); for (int i = 0; i < n[k]; i++) t[k][i] = f.f[k][r].val(gpoint(s.d[k], i), dd[k]); }
    size_t q = 0; for (int z = 0; z < n[2]; z++) for (int y = 0; y < n[1]; y++) for (int x = 0; x < n[0]; x++) acc[q++] += t[0][x] * t[1][y] * t[2][z];
  }
  for (size_t q = 0; q < u.size(); q++) u[q] = (double) acc[q];
  return u;
}
inline double maxabs(const vector<double>& v) { double m = 0; for (double x : v) { if (x != x) return x; m = std::max(m, std::fabs(x)); } return m; }
inline double maxdiff(const double* a, const double* b, size_t n, size_t* where = nullptr) {
  double m = 0; for (size_t i = 0; i < n; i++) { double e = std::fabs(a[i] - b[i]); if (!(e <= m)) { m = e; if (where) *where = i; if (e != e) return e; } } return m; }

// a new enabled variable on a grid
inline int newvar(tGrid* g, const char* name, const char* ti = "") { AddVarToGrid(g, (char*) name, (char*) ti, (char*) "harness"); int i = IndLax((char*) name); if (i < 0) { for (i = globalnvariables - 1; strcmp(VarTensorIndices(i), ti) == 0 && VarComponent(i) > 0; i--); } enablevar(g, i); return i; }


#define FORBOXES(grid, bi) for (int bi = 0; bi < grid->nboxes; bi++)
inline vector<double> rnd(pbt::Case& c, size_t n) { vector<double> v(n); uint64_t s = c.bits64() | 1; for (int k = 0; k < 9; k++) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; } for (auto& x : v) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; x = (double) (int64_t) s / 9.3e18; } return v; }
inline vector<double> all_of(tBox* b, int vi) { return vector<double>(b->v[vi], b->v[vi] + b->nnodes); }
typedef std::pair<int, int> BV; // (box,var)
// bytes that must stay untouched
struct Snap { vector<std::pair<double*, vector<double>>> m; vector<BV> id;
  void add(tGrid* g, const std::set<BV>& except = {}) {
    FORBOXES(g, bi) { tBox* b = g->box[bi]; for (int i = 0; i < g->nvariables; i++) if (b->v[i] && !except.count(BV(bi, i))) { m.push_back({b->v[i], all_of(b, i)}); id.push_back(BV(bi, i)); } } }
  bool same() const { return bad().empty(); }
  string bad() const { for (size_t k = 0; k < m.size(); k++) if (memcmp(m[k].first, m[k].second.data(), m[k].second.size() * 8)) return pbt::strf("%s in box %d", VarName(id[k].second), id[k].first); return ""; }
};

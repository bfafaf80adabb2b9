// adm.h: 3+1 geometry in long double, as an oracle for the Einstein modules
#pragma once
#include "grid.h"
// a polynomial in (x,y,z)/L
struct Poly { ld L = 1; vector<std::array<int, 3>> e; vector<ld> co;
  ld val(const ld* x, int i = -1, int j = -1) const { ld s = 0; for (size_t t = 0; t < e.size(); t++) { int p[3] = {e[t][0], e[t][1], e[t][2]}; ld f = co[t]; for (int q : {i, j}) if (q >= 0) { f *= p[q] / L; p[q]--; if (p[q] < 0) { f = 0; p[q] = 0; } } for (int k = 0; k < 3; k++) f *= powl(x[k] / L, p[k]); s += f; } return s; } };
inline Poly gen_poly(pbt::Case& c, double L, int deg, double amp, int terms = 3) { Poly p; p.L = L; int n = c.i(0, terms); for (int k = 0; k < n; k++) { std::array<int, 3> e = {0, 0, 0}; int d = c.i(0, deg); for (int q = 0; q < d; q++) e[c.i(0, 2)]++; p.e.push_back(e); p.co.push_back(amp * c.sym(1)); } return p; }
inline ld det3(const ld g[3][3]) { return g[0][0] * (g[1][1]*g[2][2] - g[1][2]*g[2][1]) - g[0][1] * (g[1][0]*g[2][2] - g[1][2]*g[2][0]) + g[0][2] * (g[1][0]*g[2][1] - g[1][1]*g[2][0]); }
inline void inv3(const ld g[3][3], ld u[3][3]) { ld d = det3(g); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { int a = (j + 1) % 3, b = (j + 2) % 3, p = (i + 1) % 3, q = (i + 2) % 3; u[i][j] = (g[a][p]*g[b][q] - g[a][q]*g[b][p]) / d; } }
static const int S6[6][2] = {{0,0},{0,1},{0,2},{1,1},{1,2},{2,2}};
// everything at one point; d*[..][k] is the derivative in direction k
struct ADMpt {
  ld g[3][3], dg[3][3][3], ddg[3][3][3][3], K[3][3], dK[3][3][3], al, dal[3], ddal[3][3], be[3], dbe[3][3], ddbe[3][3][3];
  ld gu[3][3], Gam[3][3][3], Ric[3][3], R, Kud[3][3], trK, K2, ham, mom[3], dtrK[3], DDal[3][3], lapal, mag;
  void geom() {
    inv3(g, gu); mag = 0; ld Gd[3][3][3];
    for (int a = 0; a < 3; a++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) Gd[a][i][j] = (dg[a][i][j] + dg[a][j][i] - dg[i][j][a]) / 2;
    for (int a = 0; a < 3; a++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { Gam[a][i][j] = 0; for (int b = 0; b < 3; b++) Gam[a][i][j] += gu[a][b] * Gd[b][i][j]; }
    // d_k Gam^a_ij from d_k g^ab = -g^ac g^bd d_k g_cd
    ld dGam[3][3][3][3];
    for (int k = 0; k < 3; k++) for (int a = 0; a < 3; a++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { ld s = 0; for (int b = 0; b < 3; b++) { s += gu[a][b] * (ddg[b][i][j][k] + ddg[b][j][i][k] - ddg[i][j][b][k]) / 2; for (int d = 0; d < 3; d++) s -= gu[a][b] * dg[b][d][k] * Gam[d][i][j]; } dGam[a][i][j][k] = s; }
    R = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { ld s = 0; for (int a = 0; a < 3; a++) { s += dGam[a][i][j][a] - dGam[a][i][a][j]; mag += fabsl(dGam[a][i][j][a]); for (int b = 0; b < 3; b++) { s += Gam[a][a][b] * Gam[b][i][j] - Gam[a][j][b] * Gam[b][i][a]; mag += fabsl(Gam[a][j][b] * Gam[b][i][a]); } } Ric[i][j] = s; }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R += gu[i][j] * Ric[i][j];
    trK = K2 = 0; for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { Kud[i][j] = 0; for (int k = 0; k < 3; k++) Kud[i][j] += gu[i][k] * K[k][j]; } trK += Kud[i][i]; }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) K2 += Kud[i][j] * Kud[j][i];
    ham = R + trK * trK - K2; mag += fabsl(K2) + trK * trK;
    ld cd[3][3][3]; for (int a = 0; a < 3; a++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { cd[a][i][j] = dK[i][j][a]; for (int b = 0; b < 3; b++) cd[a][i][j] -= Gam[b][a][i] * K[b][j] + Gam[b][a][j] * K[i][b]; mag += fabsl(cd[a][i][j]); }
    for (int i = 0; i < 3; i++) { dtrK[i] = mom[i] = 0; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { dtrK[i] += gu[a][b] * cd[i][a][b]; mom[i] += gu[a][b] * cd[a][b][i]; } mom[i] -= dtrK[i]; }
    lapal = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { DDal[i][j] = ddal[i][j]; for (int a = 0; a < 3; a++) DDal[i][j] -= Gam[a][i][j] * dal[a]; lapal += gu[i][j] * DDal[i][j]; mag += fabsl(DDal[i][j]); } }
  // vacuum ADM evolution
  ld dtg(int i, int j) const { ld s = -2 * al * K[i][j]; for (int k = 0; k < 3; k++) s += be[k] * dg[i][j][k] + g[k][j] * dbe[k][i] + g[i][k] * dbe[k][j]; return s; }
  ld dtK(int i, int j) const { ld s = -DDal[i][j] + al * (Ric[i][j] + trK * K[i][j]); for (int k = 0; k < 3; k++) { s += be[k] * dK[i][j][k] + K[k][j] * dbe[k][i] + K[i][k] * dbe[k][j] - 2 * al * K[i][k] * Kud[k][j]; } return s; }
};
// smooth fields: conformal metric, physical K, lapse, shift and psi = exp(p)
struct ADMdata { Poly g[6], K[6], al, be[3], p; ld g0[6], al0;
  static int at(int i, int j) { static const int m[3][3] = {{0,1,2},{1,3,4},{2,4,5}}; return m[i][j]; }
  ADMpt phys(const ld* x, bool conf) const { ADMpt o; memset(&o, 0, sizeof o); ld f = conf ? expl(4 * p.val(x)) : 1, df[3] = {0, 0, 0}, ddf[3][3]; memset(ddf, 0, sizeof ddf);
    if (conf) for (int a = 0; a < 3; a++) { df[a] = 4 * f * p.val(x, a); for (int b = 0; b < 3; b++) ddf[a][b] = f * (4 * p.val(x, a, b) + 16 * p.val(x, a) * p.val(x, b)); }
    o.al = al0 + al.val(x); for (int a = 0; a < 3; a++) { o.dal[a] = al.val(x, a); o.be[a] = be[a].val(x); for (int b = 0; b < 3; b++) { o.ddal[a][b] = al.val(x, a, b); o.dbe[a][b] = be[a].val(x, b); for (int d = 0; d < 3; d++) o.ddbe[a][b][d] = be[a].val(x, b, d); } }
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { const Poly& q = g[at(i, j)]; ld v = g0[at(i, j)] + q.val(x); o.g[i][j] = f * v; o.K[i][j] = K[at(i, j)].val(x);
      for (int a = 0; a < 3; a++) { o.dK[i][j][a] = K[at(i, j)].val(x, a); o.dg[i][j][a] = f * q.val(x, a) + df[a] * v; for (int b = 0; b < 3; b++) o.ddg[i][j][a][b] = f * q.val(x, a, b) + df[a] * q.val(x, b) + df[b] * q.val(x, a) + ddf[a][b] * v; } }
    o.geom(); return o; } };
inline ADMdata gen_adm(pbt::Case& c, double L, int deg, double amp = 0.07) { ADMdata d; ld s = c.b(1, 3) ? c.logu(0.3, 3) : 1; // A A^T-like constant part
  ld D[3], O[3]; for (auto& v : D) v = s * (c.b() ? 1 : c.u(0.6, 1.6)); for (auto& v : O) v = c.b() ? 0 : s * c.sym(0.15); d.g0[0] = D[0]; d.g0[3] = D[1]; d.g0[5] = D[2]; d.g0[1] = O[0]; d.g0[2] = O[1]; d.g0[4] = O[2];
  for (auto& p : d.g) { p = gen_poly(c, L, deg, amp); for (auto& q : p.co) q *= s; } bool k = !c.b(1, 6); for (auto& p : d.K) p = gen_poly(c, L, deg, k ? 0.5 : 0); d.al0 = c.b() ? 1 : c.u(0.3, 2); d.al = gen_poly(c, L, deg, 0.08); bool sh = !c.b(1, 4); for (auto& p : d.be) p = gen_poly(c, L, deg, sh ? 0.4 : 0); d.p = gen_poly(c, L, 3, 0.15); return d; }

// C06: tensor index strings
#include "sg.h"
#include <array>
using namespace pbt;
static const vector<string> ALL = {"", "i", "ij", "ij+ji", "(ij)", "ij-ji", "[ij]", "ijk", "ijk+ikj", "i(jk)", "(ij)k", "ijk+jik", "ijk-jik", "[ij]k", "ijkl", "(ij)(kl)",
  "a", "ab", "ai", "ab+ba", "(ab)", "abc+acb", "a(bc)", "aij+aji", "a(ij)", "abc+bac", "(ab)c", "abi+bai", "(ab)i", "(ab)(ij)", "q", "qr", "qr+rq", "(qr)", "qrs+rqs", "(qr)s", "(qr)(st)", "iq", "iqr", "iqr+irq", "i(qr)",
  "ijkl+ijlk+jikl+jilk", "abij+abji+baij+baji", "qrst+qrts+rqst+rqts"};
struct Comp { string s; int sym[3]; };
// independent reading of an index string: letters, and pairs (p,q,sign) that may be exchanged
static vector<Comp> expand(const string& t) {
  string L; vector<std::array<int, 3>> pr; size_t e = t.find_first_of("+-");
  if (e != string::npos) { // sum form: every term is the first term with some pairs exchanged
    L = t.substr(0, e); size_t p = e;
    while (p < t.size()) { int sg = t[p] == '+' ? 1 : -1; size_t q = t.find_first_of("+-", p + 1); if (q == string::npos) q = t.size(); string w = t.substr(p + 1, q - p - 1); vector<int> d; for (size_t k = 0; k < L.size(); k++) if (w[k] != L[k]) d.push_back(k); if (d.size() == 2) pr.push_back({d[0], d[1], sg}); p = q; }
  } else { char open = 0; int st = 0; for (char ch : t) { if (ch == '(' || ch == '[') { open = ch; st = L.size(); } else if (ch == ')' || ch == ']') { pr.push_back({st, st + 1, open == '(' ? 1 : -1}); } else L += ch; } }
  vector<Comp> r; int n = L.size(); vector<int> ix(n, 0); auto kind = [&](char ch) { return strchr("abc", ch) ? 4 : strchr("qrst", ch) ? 2 : 3; };
  for (;;) {
    bool ok = true; for (auto& p : pr) { if (ix[p[0]] > ix[p[1]]) ok = false; if (p[2] < 0 && ix[p[0]] == ix[p[1]]) ok = false; }
    if (ok) { Comp c; int cnt[3] = {0, 0, 0}; for (int k = 0; k < n; k++) { int K = kind(L[k]); c.s += K == 4 ? "txyz"[ix[k]] : K == 2 ? "12"[ix[k]] : "xyz"[ix[k]]; int sp = K == 4 ? ix[k] - 1 : ix[k]; if (sp >= 0) cnt[sp]++; } for (int d = 0; d < 3; d++) c.sym[d] = cnt[d] % 2 ? -1 : 1; r.push_back(c); }
    int k = n - 1; while (k >= 0 && ++ix[k] == kind(L[k])) ix[k--] = 0; if (k < 0) break;
  }
  return r;
}
#include <array>
PBT(expansion, {.quick = 8000, .thorough = 60000}) {
  string t = c.pick(ALL), u = t; for (auto& ch : u) if (isalpha(ch) && c.b(1, 3)) ch = toupper(ch);
  string name = c.word(1, 20, "abgKxyz_ADM123"); auto want = expand(t); c.describe("AddVar(%s,\"%s\")", name.c_str(), u.c_str()); c.label("'" + t + "'"); if (want.size() > 1) c.nontrivial();
  int n0 = globalnvariables; if (c.b()) { AddVar((char*) "before", (char*) "i", (char*) ""); n0 = globalnvariables; }
  bool ex = c.exits([&] { AddVar(S_(name), S_(u), (char*) "d"); }); c.check(!ex, "index string %s is not accepted", u.c_str());
  c.check(globalnvariables - n0 == (int) want.size(), "%d components instead of %d", globalnvariables - n0, (int) want.size());
  for (size_t k = 0; k < want.size(); k++) { int i = n0 + k; c.check(VarName(i) == name + want[k].s, "component %d is %s instead of %s", (int) k, VarName(i), (name + want[k].s).c_str());
    for (int d = 0; d < 3; d++) c.check(VarSymmetry(i, d) == want[k].sym[d], "%s has sign %d under reflection in direction %d, it should be %d", VarName(i), VarSymmetry(i, d), d + 1, want[k].sym[d]);
    c.check(VarNComponents(i) == (int) want.size() && VarComponent(i) == (int) k && VarTensorIndices(i) == u, "component numbers of %s", VarName(i)); }
}
// strings that are no index strings are refused
PBT(refused, {.quick = 3000, .thorough = 30000}) {
  string t = c.word(1, 8, "ijkabqr()[]+-xz"); string l = t; if (std::find(ALL.begin(), ALL.end(), l) != ALL.end()) c.discard(); if (l == "ijkl+ijlk+jikl+jilk)") c.discard();
  c.describe("'%s'", t.c_str()); c.nontrivial(); int n0 = globalnvariables;
  bool ex = c.exits([&] { AddVar((char*) "v", S_(t), (char*) "d"); });
  c.check(ex || globalnvariables > n0, "neither refused nor accepted"); if (!ex) { // a new legal string has to obey the same convention
    for (int i = n0; i < globalnvariables; i++) { string s = VarName(i) + 1; int cnt[3] = {0, 0, 0}; for (char ch : s) if (strchr("xyz", ch)) cnt[ch - 'x']++; else if (strchr("12", ch)) cnt[ch - '1']++; for (int d = 0; d < 3; d++) c.check(VarSymmetry(i, d) == (cnt[d] % 2 ? -1 : 1), "sign of %s", VarName(i)); } }
}

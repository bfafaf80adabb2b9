// C21: binary arrays and text helpers
#include "sg.h"
using namespace pbt;
extern "C" { int fgotonext(FILE*, const char*); int fgetparameter(FILE*, const char*, char*); int extract_after_EQ(char*); int extrstr_before_after_EQ(const char*, char*, char*); int extrstr_before_after(const char*, char*, char*, char); int fscanline(FILE*, char*);
int find_before_after(const char*, char*, char*, const char*); int pfind_before_after(const char*, int, char*, char*, const char*); int sscan_word_at_p(const char*, int, char*); int fscanf1(FILE*, char*, char*); }
static const bool host_little = [] { unsigned u = 1; return *(unsigned char*) &u == 1; }();
struct Buf { char* p; size_t n; Buf(size_t k) : p((char*) malloc(k ? k : 1)), n(k) { memset(p, 0x5a, k ? k : 1); } ~Buf() { free(p); } };
// several arrays of numbers in one file
PBT(arrays, {.quick = 7000, .thorough = 150000, .fs = true}) {
  int parts = c.i(1, 5); struct P { size_t size, n; bool big, dbl; string host; }; vector<P> ps; string want;
  FILE* f = fopen("f", "wb"); for (int k = 0; k < parts; k++) {
    P p; p.size = c.pickl<int>({8, 4, 2, 1, 8, 16, 3}); p.n = c.b(1, 8) ? 0 : c.i(1, 40); p.big = c.b(); p.dbl = p.size == 8 && !p.big && c.b(); p.host.resize(p.size * p.n);
    if (p.size == 8) for (size_t i = 0; i < p.n; i++) { double v = c.b() ? c.anyfinite() : 0; uint64_t w = c.bits64(); if (v == 0) memcpy(&p.host[8 * i], &w, 8); else memcpy(&p.host[8 * i], &v, 8); }
    else for (size_t i = 0; i < p.host.size(); i++) p.host[i] = (char) c.i(0, 255);
    for (size_t i = 0; i < p.n; i++) { string e = p.host.substr(i * p.size, p.size); if (p.big == host_little) std::reverse(e.begin(), e.end()); want += e; }
    Buf b(p.host.size()); memcpy(b.p, p.host.data(), p.host.size()); size_t r = p.dbl ? fwrite_double_little((double*) b.p, p.n, f) : p.big ? SGRID_fwrite_big(b.p, p.size, p.n, f) : SGRID_fwrite_little(b.p, p.size, p.n, f);
    c.check(r == p.n, "writing %d numbers of %d bytes reports %d", (int) p.n, (int) p.size, (int) r); c.check(!memcmp(b.p, p.host.data(), p.host.size()), "writing changes the numbers"); ps.push_back(p); c.describe("%s%dx%d ", p.dbl ? "double " : p.big ? "big " : "little ", (int) p.n, (int) p.size); if (p.n > 1 && p.size > 1) c.nontrivial(); }
  fclose(f); string got = slurp("f"); c.check(got == want, "the bytes in the file are wrong (first difference at byte %d)", (int) (std::mismatch(got.begin(), got.begin() + std::min(got.size(), want.size()), want.begin()).first - got.begin()));
  size_t cut = c.b(1, 4) ? c.i(0, (int) want.size()) : want.size(); if (cut < want.size()) { spit("f", want.substr(0, cut)); c.label("truncated"); }
  f = fopen("f", "rb"); size_t pos = 0; for (auto& p : ps) { size_t avail = pos + p.host.size() <= cut ? p.n : pos < cut ? (cut - pos) / p.size : 0; bool dbl = p.size == 8 && !p.big && c.b(); Buf b(p.host.size()); size_t r = dbl ? fread_double_little((double*) b.p, p.n, f) : p.big ? SGRID_fread_big(b.p, p.size, p.n, f) : SGRID_fread_little(b.p, p.size, p.n, f);
    c.check(r == avail, "reading reports %d numbers where the file has %d", (int) r, (int) avail); c.check(!memcmp(b.p, p.host.data(), avail * p.size), "%d numbers of %d bytes (%s) are not read back", (int) p.n, (int) p.size, p.big ? "big" : "little"); pos += p.host.size(); if (avail < p.n) break; }
  fclose(f);
  c.check(SGRID_return_BYTE_ORDER_LITTLE() == (int) host_little, "byte order of the host");
}
// files of parameters, labels, lines and binary blocks, read by random sequences of the helpers
static const vector<string> NM = {"a", "ab", "a1", "$a", "box", "box->n", "$time", "$timestep", "n"};
static bool sp(char ch) { return isspace((unsigned char) ch); }
PBT(files, {.quick = 9000, .thorough = 200000, .fs = true}) {
  string t; int items = c.i(0, 25); auto ws = [&] { string s; int k = c.b(1, 5) ? c.i(2, 3) : 1; for (int i = 0; i < k; i++) s += c.pickl<const char*>({" ", "\n", " ", "\t", "\n", "\r\n"}); return s; }; auto val = [&] { return c.b(1, 3) ? string(c.pickl<const char*>({"3", "-1.5e-3", "x=y", "a", ",", "#"})) : c.word(1, 8); };
  for (int k = 0; k < items; k++) { int kind = c.i(0, 6); string n = c.pick(NM), v = val(); if (kind == 0) t += n + " = " + v; else if (kind == 1) t += n + "=" + v; else if (kind == 2) t += n + "= " + v; else if (kind == 3) t += n + " =" + v; else if (kind == 4) t += n + ws() + v; else if (kind == 5) t += v + (c.b(1, 3) ? " " + val() : ""); else t += c.pickl<const char*>({"$BEGIN:", "$END", "$BEGIN", "BEGIN:", "$END_x"}); if (k + 1 < items || c.b()) t += ws(); }
  spit("f", t); FILE* f = fopen("f", "rb"); size_t pos = 0; auto token = [&](string& o) { size_t q = pos; while (q < t.size() && sp(t[q])) q++; if (q >= t.size()) { pos = t.size(); return false; } size_t e = q; while (e < t.size() && !sp(t[e])) e++; o = t.substr(q, e - q); pos = e; return true; };
  c.describe("%d bytes: %s |", (int) t.size(), t.substr(0, 300).c_str()); bool hit = false; Buf b(70000);
  for (int k = 0, K = c.i(1, 12); k < K; k++) { int kind = c.i(0, 9); string s;
    if (kind < 2) { string l = c.pickl<const char*>({"$BEGIN:", "$END", "$BEGIN", "BEGIN:"}); c.describe(" goto %s", l.c_str()); bool ok = false; while (token(s)) if (s == l) { ok = true; break; } int r = fgotonext(f, l.c_str()); c.check((r != EOF) == ok, "fgotonext %s %s", l.c_str(), ok ? "does not find the label" : "finds a label that is not there"); hit |= ok; }
    else if (kind < 6) { string n = c.pick(NM), v; c.describe(" get %s", n.c_str()); bool ok = false, und = false; while (token(s)) { if (s == n) { ok = token(v); if (!ok) und = true; else if (v == "=") { ok = token(v); und = !ok; } else if (v[0] == '=') v = v.substr(1); break; } if (s == n + "=") { ok = token(v); und = !ok; break; } if (s.compare(0, n.size() + 1, n + "=") == 0) { ok = true; v = s.substr(n.size() + 1); break; } }
      int r = fgetparameter(f, n.c_str(), b.p); if (und) break; // a parameter without a value at the end of the file
      c.check((r != EOF) == ok, "fgetparameter %s %s", n.c_str(), ok ? "does not find it" : strf("finds '%s' although there is none", b.p).c_str()); c.check(string(b.p) == (ok ? v : ""), "fgetparameter %s gives '%s' instead of '%s'", n.c_str(), b.p, v.c_str()); hit |= ok; }
    else if (kind < 8) { c.describe(" line"); size_t e = t.find('\n', pos); bool eof = pos >= t.size(); s = t.substr(pos, e == string::npos ? e : e - pos); pos = e == string::npos ? t.size() : e + 1; int r = fscanline(f, b.p); if (eof) c.check(r == EOF, "fscanline at the end of the file returns %d", r); else { c.check(r == (int) s.size(), "fscanline returns %d for a line of %d characters", r, (int) s.size()); hit = true; } c.check(string(b.p) == s, "fscanline gives '%s' instead of '%s'", b.p, s.c_str()); }
    else if (kind == 8) { c.describe(" word"); bool ok = token(s); int r = fscanf1(f, (char*) "%s", b.p); c.check(r == (ok ? 1 : EOF), "fscanf1 returns %d", r); if (ok) c.check(s == b.p, "fscanf1 gives '%s' instead of '%s'", b.p, s.c_str()); hit |= ok; }
    else { int n = c.i(0, 9); c.describe(" %d bytes", n); size_t m = std::min<size_t>(n, t.size() - pos); size_t r = fread(b.p, 1, n, f); c.check(r == m && !memcmp(b.p, t.data() + pos, m), "the next bytes of the file are not where they should be"); pos += m; }
    if (pos < t.size()) c.check(ftell(f) == (long) pos, "file position is %ld instead of %d", ftell(f), (int) pos); }
  fclose(f); if (hit) c.nontrivial();
}
PBT(strings, {.quick = 10000, .thorough = 200000}) {
  static const string AL = "ab=; \t\nx,"; string s; int n = c.b(1, 6) ? c.i(0, 2) : c.i(0, 40); for (int k = 0; k < n; k++) s += AL[c.i(0, (int) AL.size() - 1)]; Buf str(s.size() + 1), B(s.size() + 2), A(s.size() + 2); memcpy(str.p, s.c_str(), s.size() + 1); c.describe("'%s'", s.c_str()); int kind = c.i(0, 5);
  auto expect = [&](const char* fn, int r, size_t q, size_t zl, size_t p = 0) { if (q == string::npos) { c.check(r == EOF, "%s returns %d where the delimiter is missing", fn, r); c.check(string(B.p) == s.substr(p) && !*A.p, "%s gives '%s' and '%s' where the delimiter is missing", fn, B.p, A.p); return; }
    c.nontrivial(); c.check(r == (int) q, "%s returns position %d instead of %d", fn, r, (int) q); c.check(string(B.p) == s.substr(p, q - p), "%s gives '%s' before the delimiter", fn, B.p); c.check(string(A.p) == s.substr(q + zl), "%s gives '%s' behind the delimiter", fn, A.p); };
  if (kind == 0) { char z = AL[c.i(0, (int) AL.size() - 1)]; c.label("char"); expect("extrstr_before_after", extrstr_before_after(str.p, B.p, A.p, z), s.find(z), 1); }
  if (kind == 1) { c.label("="); expect("extrstr_before_after_EQ", extrstr_before_after_EQ(str.p, B.p, A.p), s.find('='), 1); }
  if (kind == 2) { c.label("extract"); size_t q = s.find('='); int r = extract_after_EQ(str.p); c.check(r == (q == string::npos ? EOF : (int) q), "extract_after_EQ returns %d", r); c.check(string(str.p) == (q == string::npos ? "" : s.substr(q + 1)), "extract_after_EQ gives '%s'", str.p); if (q != string::npos) c.nontrivial(); return; }
  string z; int zl = c.i(1, 3); if (c.b() && !s.empty()) z = s.substr(c.i(0, (int) s.size() - 1), zl); else for (int k = 0; k < zl; k++) z += AL[c.i(0, (int) AL.size() - 1)]; Buf Z(z.size() + 1); memcpy(Z.p, z.c_str(), z.size() + 1);
  if (kind == 3) { c.label("string"); expect("find_before_after", find_before_after(str.p, B.p, A.p, Z.p), s.find(z), z.size()); }
  if (kind == 4) { c.label("string from p"); int p = c.i(0, (int) s.size() + 1); int r = pfind_before_after(str.p, p, B.p, A.p, Z.p); if (p >= (int) s.size()) c.check(r == EOF && !*B.p && !*A.p, "pfind_before_after beyond the end returns %d '%s' '%s'", r, B.p, A.p); else expect("pfind_before_after", r, s.find(z, p), z.size(), p); }
  if (kind == 5) { c.label("words"); vector<string> w = words(s), got; int p = 0; for (int k = 0; k <= (int) w.size() + 1; k++) { int q = sscan_word_at_p(str.p, p, B.p); if (q == EOF) break; c.check(q > p && q <= (int) s.size(), "sscan_word_at_p(%d) returns %d", p, q); c.check(q == (int) s.size() || sp(s[q]), "sscan_word_at_p(%d) returns %d, which is not the end of a word", p, q); got.push_back(B.p); p = q; }
    c.check(got == w, "words read one after the other: '%s'", join(got, "|").c_str()); if (w.size() > 1) c.nontrivial(); c.check(sscan_word_at_p(str.p, -1, B.p) == EOF, "sscan_word_at_p(-1)"); }
}

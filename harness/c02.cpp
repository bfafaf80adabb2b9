// C02: the parameter database behaves as a map with typed, list-aware reads
#include "sg.h"
using namespace pbt;

struct MP { string value, descr; };
struct Model { vector<string> order; std::map<string, MP> m; };

static string pi_word(const string& v, double* x) {
  static const std::map<string, double> t = {{"pi", PI}, {"-pi", -PI}, {"pi/2", PI / 2}, {"-pi/2", -PI / 2}, {"2*pi", 2 * PI}, {"-2*pi", -2 * PI}};
  auto it = t.find(v); if (it == t.end()) return ""; *x = it->second; return v;
}
static bool same_value(const string& want, const char* got) {
  if (want == got) return true;
  double x; if (pi_word(want, &x) != "") return atof(got) == x;
  return false;
}
static double num_of(const string& v) { double x; if (pi_word(v, &x) != "") return x; return atof(v.c_str()); }
static bool listhas(const string& v, const string& w) { for (auto& x : words(v)) if (x == w) return true; return false; }

static string gen_word(Case& c) {
  switch (c.i(0, 4)) {
    case 0: return c.pickl<const char*>({"FFT", "numFFT", "FFTnum", "num", "yes", "no", "y", "FF", "T", "FFT2"});
    case 1: return strf("%d", c.toward(-1000000, 1000000, 0));
    case 2: return strf("%.17g", c.anyfinite());
    case 3: return c.pickl<const char*>({"pi", "-pi", "pi/2", "-pi/2", "2*pi", "-2*pi"});
    default: return c.word(1, 6, "abAB01.-");
  }
}
static string gen_value(Case& c) { vector<string> v; int n = c.i(0, 4); for (int k = 0; k < n; k++) v.push_back(gen_word(c)); return join(v); }
static string gen_name(Case& c, const Model& M) {
  if (!M.order.empty() && c.b(3, 4)) return c.pick(M.order);
  return c.pickl<const char*>({"a", "ab", "abc", "b", "box0_n1", "box0_n11", "box0_n", "A", "amr", "x_y", "box10_n1", "box1_n1"}) + (c.b(1, 4) ? c.word(1, 3, "ab0") : string());
}

static void check_all(Case& c, Model& M, const char* when) {
  c.check(npdb == (int) M.order.size(), "%s: database has %d entries, expected %d", when, npdb, (int) M.order.size());
  for (size_t k = 0; k < M.order.size(); k++) {
    const string& n = M.order[k]; const string& v = M.m[n].value;
    c.check(n == GetnameInd(k), "%s: entry %d is '%s', expected '%s'", when, (int) k, GetnameInd(k), n.c_str());
    c.check(same_value(v, GetsInd(k)), "%s: '%s' is '%s', expected '%s'", when, n.c_str(), GetsInd(k), v.c_str());
    c.check(same_value(v, Gets(S_(n))), "%s: Gets('%s') = '%s', expected '%s'", when, n.c_str(), Gets(S_(n)), v.c_str());
    c.check(M.m[n].descr == pdb[k].description, "%s: description of '%s'", when, n.c_str());
    int idx = GetParIndex(S_(n)); c.check(idx == (int) k, "%s: index of '%s' is %d not %d", when, n.c_str(), idx, (int) k);
    double w = num_of(v);
    c.check(same_bits(GetCachedNumValByParIndex(idx), w) || (std::isnan(w) && std::isnan(GetCachedNumValByParIndex(idx))),
            "%s: cached number of '%s' ('%s') is %.17g", when, n.c_str(), v.c_str(), GetCachedNumValByParIndex(idx));
    c.check(same_bits(Getd(S_(n)), w) || (std::isnan(w) && std::isnan(Getd(S_(n)))), "%s: Getd('%s') = %.17g, text '%s'", when, n.c_str(), Getd(S_(n)), v.c_str());
    double x; if (pi_word(v, &x) == "") c.check(Geti(S_(n)) == atoi(v.c_str()), "%s: Geti('%s') = %d, text '%s'", when, n.c_str(), Geti(S_(n)), v.c_str());
    static const std::map<string, int> bw = {{"yes", 1}, {"Yes", 1}, {"YES", 1}, {"on", 1}, {"On", 1}, {"ON", 1}, {"true", 1}, {"True", 1}, {"TRUE", 1}, {"no", 0}, {"off", 0}, {"false", 0}, {"No", 0}, {"", 0}, {"0", 0}, {"1", 1}};
    auto it = bw.find(v);
    if (it != bw.end()) c.check(!!GetCachedBoolValByParIndex(idx) == it->second, "%s: cached truth value of '%s'='%s' is %d", when, n.c_str(), v.c_str(), GetCachedBoolValByParIndex(idx));
  }
}

PBT(db_histories, {.quick = 25000, .thorough = 600000}) {
  Model M; int n = c.i(1, 40); int nset = 0, napp = 0, nmiss = 0, ncopy = 0;
  struct { Case* c; void push_back(const string& s) { c->describe("%s; ", s.c_str()); } } trace{&c};
  tParameter* copy = NULL; int ncopied = 0; Model CM;
  for (int step = 0; step < n; step++) {
    string nm = gen_name(c, M); bool have = M.m.count(nm);
    int op = c.i(0, 15);
    switch (op) {
      case 0: case 1: case 2: { // declare
        string v = gen_value(c), d = c.word(0, 5); bool viaAdd = c.b();
        trace.push_back("declare " + nm + " = '" + v + "'");
        if (viaAdd) AddPar(S_(nm), S_(v), S_(d)); else makeparameter(S_(nm), S_(v), S_(d));
        if (!have) { M.order.push_back(nm); M.m[nm].value = v; } M.m[nm].descr = d; break; }
      case 3: { string v = gen_value(c), d = c.word(0, 5); trace.push_back("addormodify " + nm + " = '" + v + "'");
        AddOrModifyPar(S_(nm), S_(v), S_(d));
        if (!have) { M.order.push_back(nm); M.m[nm].descr = d; } M.m[nm].value = v; break; }
      case 4: case 5: { string v = c.b(1, 3) ? string(c.pickl<const char*>({"yes", "no", "on", "off", "true", "false", "Yes", "TRUE", "1", "0"})) : gen_value(c);
        trace.push_back("Sets " + nm + " = '" + v + "'"); nset++;
        bool ex = c.exits([&] { Sets(S_(nm), S_(v)); });
        c.check(ex == !have, "Sets of %s parameter '%s' %s", have ? "existing" : "missing", nm.c_str(), ex ? "exited" : "succeeded");
        if (have) M.m[nm].value = v; else nmiss++; break; }
      case 6: { int v = c.b() ? (int) c.bits64() : c.i(-5, 5); if (!have) break; Seti(S_(nm), v); trace.push_back(strf("Seti %s %d", nm.c_str(), v)); nset++;
        c.check(Geti(S_(nm)) == v, "Seti(%d) read back as %d", v, Geti(S_(nm)));
        c.check(GetCachedNumValByParIndex(GetParIndex(S_(nm))) == v, "Seti(%d) cached as %.17g", v, GetCachedNumValByParIndex(GetParIndex(S_(nm))));
        M.m[nm].value = Gets(S_(nm)); c.check(atoi(M.m[nm].value.c_str()) == v, "Seti text"); break; }
      case 7: { double v = c.anyfinite(); if (!have) break; Setd(S_(nm), v); trace.push_back(strf("Setd %s %.17g", nm.c_str(), v)); nset++;
        c.check(same_bits(Getd(S_(nm)), v), "Setd(%.17g) read back as %.17g", v, Getd(S_(nm)));
        c.check(same_bits(GetCachedNumValByParIndex(GetParIndex(S_(nm))), v), "Setd(%.17g) cached as %.17g", v, GetCachedNumValByParIndex(GetParIndex(S_(nm))));
        M.m[nm].value = Gets(S_(nm)); break; }
      case 8: case 9: { string w = gen_word(c); if (!have) break; double dummy; if (pi_word(M.m[nm].value, &dummy) != "") break; // translated text is not specified
        trace.push_back("Appends " + nm + " '" + w + "'"); napp++;
        Appends(S_(nm), S_(w));
        string old = M.m[nm].value;
        if (!listhas(old, w)) { // stored as old + space + w
          c.check(words(Gets(S_(nm))) == words(old + " " + w) || (old.empty() && same_value(w, Gets(S_(nm)))), "Appends('%s') to '%s' gave '%s'", w.c_str(), old.c_str(), Gets(S_(nm)));
          M.m[nm].value = old.empty() ? w : string(Gets(S_(nm)));
        }
        break; }
      case 10: case 11: { // membership
        string w = c.b(1, 3) ? gen_word(c) : have && !words(M.m[nm].value).empty() ? c.pick(words(M.m[nm].value)) : gen_word(c);
        if (c.b(1, 4) && w.size() > 1) w = c.b() ? w.substr(1) : w.substr(0, w.size() - 1);
        double x; if (have && pi_word(M.m[nm].value, &x) != "") break;
        int lax = GetvLax(S_(nm), S_(w)); int want = have && listhas(M.m[nm].value, w);
        c.check(!!lax == want, "is '%s' in list '%s'? answered %d", w.c_str(), have ? M.m[nm].value.c_str() : "(no such parameter)", lax);
        if (have) c.check(!!Getv(S_(nm), S_(w)) == want, "Getv differs from GetvLax");
        else { bool ex = c.exits([&] { Getv(S_(nm), S_(w)); }); c.check(ex, "Getv of missing parameter did not fail"); nmiss++; }
        break; }
      case 12: { // whole list
        if (!have) break; double x; if (pi_word(M.m[nm].value, &x) != "") break;
        vector<string> got; char* s; int guard = 0; string v = Gets(S_(nm));
        NextEntry(NULL);
        for (s = NextEntry(S_(v)); s && guard++ < 100; s = NextEntry(S_(v))) got.push_back(s);
        c.check(got == words(M.m[nm].value), "list '%s' iterated as %d entries: %s", v.c_str(), (int) got.size(), join(got, "|").c_str());
        if (c.b(1, 3) && words(v).size() > 1) { NextEntry(S_(v)); NextEntry(NULL); char* f = NextEntry(S_(v)); c.check(f && words(v)[0] == f, "restarted list does not begin at its first entry"); NextEntry(NULL); }
        break; }
      case 13: { c.check((GetsLax(S_(nm)) != NULL) == have, "GetsLax of '%s'", nm.c_str());
        bool ex = c.exits([&] { Gets(S_(nm)); }); c.check(ex == !have, "Gets of missing parameter"); 
        if (have) { int k = Set_pdb_iStart_AtPar(S_(nm)); c.check(M.order[k] == nm, "Set_pdb_iStart_AtPar"); } break; }
      case 14: { // copy
        if (c.b() || !copy) { if (!npdb) break; if (copy) free_pdb(copy, ncopied); copy = NULL;
          create_copy_of_pdb1_in_pdb2(pdb, npdb, npdbmax, &copy); ncopied = npdb; CM = M; ncopy++; trace.push_back("copy"); }
        else { // restore values into the live database
          trace.push_back("restore"); copy_pdb(copy, ncopied, pdb); for (int k = 0; k < ncopied; k++) { M.m[CM.order[k]] = CM.m[CM.order[k]]; } ncopy++; }
        break; }
      default: check_all(c, M, "mid");
    }
  }
  if (nset + napp > 0 && M.order.size() > 1) c.nontrivial();
  if (napp) c.label("append"); if (ncopy) c.label("copy"); if (nmiss) c.label("missing");
  check_all(c, M, "end");
  if (copy) { // the copy has not changed
    for (int k = 0; k < ncopied; k++) {
      c.check(CM.order[k] == copy[k].name && same_value(CM.m[CM.order[k]].value, copy[k].value) && CM.m[CM.order[k]].descr == copy[k].description, "copied database changed");
      double w = num_of(CM.m[CM.order[k]].value); c.check(copy[k].numericalvalue == w || std::isnan(w), "cached number in the copy");
    }
    free_pdb(copy, ncopied);
  }
  if (c.b(1, 3)) { free_global_parameter_database(); c.check(GetsLax((char*) "a") == NULL && GetnParameters() == 0, "freed database still has entries");
    if (!M.order.empty()) { makeparameter((char*) "fresh", (char*) "1", (char*) ""); c.check(GetnParameters() == 1 && Geti((char*) "fresh") == 1, "database unusable after free"); } }
}

PBT(db_numbers, {.quick = 30000, .thorough = 500000}) {
  // reals and integers survive storing, also as part of text
  makeparameter((char*) "p", (char*) "", (char*) ""); double d = c.anyfinite(); int i = (int) c.bits64();
  Setd((char*) "p", d); c.check(same_bits(Getd((char*) "p"), d), "Setd %.17g -> %.17g", d, Getd((char*) "p"));
  Seti((char*) "p", i); c.check(Geti((char*) "p") == i, "Seti %d -> %d", i, Geti((char*) "p"));
  string s = strf(c.b() ? "%.17g" : "%.16e", d); Sets((char*) "p", S_(s)); c.check(same_bits(Getd((char*) "p"), d) || d == 0, "text %s -> %.17g", s.c_str(), Getd((char*) "p"));
  c.describe("%.17g %d", d, i); if (d != 0) c.nontrivial(); c.evals(3);
}

PBT(par_from_string, {.quick = 20000, .thorough = 300000}) {
  // "name = value" strings: split at the delimiter, blanks trimmed
  string delim = c.pickl<const char*>({"=", ":"}); string n = c.word(1, 8, "ab1_ "), v = c.word(1, 10, "xy2 .-");
  auto trim = [](string s) { size_t a = s.find_first_not_of(' '); if (a == string::npos) return string(); size_t b = s.find_last_not_of(' '); return s.substr(a, b - a + 1); };
  if (trim(n) == "" || trim(v) == "") c.discard();
  string line = n + delim + v; char name[200], val[200]; memset(name, 'Q', 200); memset(val, 'Q', 200);
  int r = get_par_from_str(line.c_str(), name, delim.c_str(), val, 199);
  c.describe("'%s'", line.c_str()); c.nontrivial();
  c.check(r == 1 && trim(n) == name && trim(v) == val, "'%s' split into '%s' and '%s' (%d)", line.c_str(), name, val, r);
  string plain = c.word(1, 8, "abc "); r = get_par_from_str(plain.c_str(), name, delim.c_str(), val, 199);
  c.check(r == 0, "'%s' contains no delimiter", plain.c_str());
}

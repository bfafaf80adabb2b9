// C01: parameter files are read back exactly as written
#include "sg.h"
using namespace pbt;

static const char* NAMECH = "abcxyzABZ0189_:.-+/*";
static const char* VALCH  = "abcxyzABZ0189_:.-+/*()[],;'%$&@!~|<>\\^{}?";

static string ws(Case& c, bool need) {
  string s; int n = c.i(need ? 1 : 0, need ? 4 : 3);
  for (int k = 0; k < n; k++) s += c.pickl<char>({' ', ' ', '\t', '\n', '\r', '\f', '\v', '"', ' '});
  return s;
}
static string comment(Case& c) { // a comment including its newline
  string s = "#"; int n = c.b(1, 6) ? c.i(900, 1100) : c.i(0, 20);
  for (int k = 0; k < n; k++) s += c.pickl<char>({' ', 'x', '=', '#', '"', 'y', '\t', '1'});
  return s + "\n";
}
static string pi_translate(const string& v) {
  double x = 0;
  if (v == "pi") x = PI; else if (v == "-pi") x = -PI; else if (v == "pi/2") x = PI / 2; else if (v == "-pi/2") x = -PI / 2;
  else if (v == "2*pi") x = 2 * PI; else if (v == "-2*pi") x = -2 * PI; else return v;
  return strf("%.17g", x);
}
static bool value_ok(const string& want, const string& got) {
  if (want == got) return true;
  string t = pi_translate(want);
  return t != want && atof(t.c_str()) == atof(got.c_str()) && got.find(' ') == string::npos && got.find('i') == string::npos;
}

PBT(parfile_grammar, {.quick = 40000, .thorough = 1200000, .fs = true}) {
  string text; vector<string> order; std::map<string, string> want;
  int nitems = c.i(0, 12); bool clean = true; // clean: the next assignment is separated by white space
  int npads = 0, ndup = 0, nempty = 0, nmulti = 0;
  vector<string> pool;
  text += ws(c, false);
  for (int it = 0; it < nitems; it++) {
    int kind = c.i(0, 9);
    if (kind == 0) { text += comment(c); continue; }
    if (kind == 1) { text += ws(c, true); continue; }
    string name;
    if (!pool.empty() && c.b(1, 6)) { name = c.pick(pool); ndup++; }
    else if (!pool.empty() && c.b(1, 5)) name = c.pick(pool) + c.word(1, 2, NAMECH);
    else name = c.b(1, 12) ? c.word(200, 400, NAMECH) : c.word(1, 10, NAMECH);
    if (!want.count(name)) { order.push_back(name); pool.push_back(name); }
    vector<string> vw;
    if (c.b(1, 10)) vw.push_back(c.pickl<const char*>({"pi", "-pi", "pi/2", "-pi/2", "2*pi", "-2*pi"}));
    else { int nw = c.i(0, 4); for (int k = 0; k < nw; k++) vw.push_back(c.b(1, 15) ? c.word(300, 1200, VALCH) : c.word(1, 8, VALCH)); }
    if (vw.empty()) nempty++; if (vw.size() > 1) nmulti++;
    text += name + ws(c, false) + "=";
    int style = c.i(0, 3);
    for (size_t k = 0; k < vw.size(); k++) {
      if (k == 0) text += style == 1 ? string(c.b() ? " \"" : "\"") : ws(c, false);
      else if (c.b(1, 8)) { text += " "; text += comment(c); text += ws(c, false); }
      else text += style == 1 ? string(" ") : ws(c, true);
      text += vw[k];
    }
    if (style == 1 && !vw.empty()) text += "\"";
    want[name] = join(vw);
    // separator
    switch (c.i(0, 3)) {
      case 0: text += "\n"; break;
      case 1: text += ws(c, true); break;
      case 2: text += " " + comment(c); break;
      default: text += comment(c); break;  // a comment may directly follow a value
    }
  }
  if (c.b(1, 4)) { // pad so that the length is near a multiple of the reader's chunk
    int target = 1000 * c.i(1, 3) + c.i(-6, 6); npads++;
    if ((int) text.size() + 2 < target) { string pad(target - text.size() - 2, 'p'); text += "#" + pad + "\n"; }
  }
  if (c.b(1, 3)) while (!text.empty() && isspace((unsigned char) text.back())) text.pop_back(); // no final newline
  if (c.b(1, 6)) text += "# comment without newline";
  spit("t.par", text);
  int before = npdb;
  parse_parameter_file((char*) "t.par");
  c.describe("%s", text.substr(0, 600).c_str());
  if (!want.empty()) c.nontrivial();
  if (ndup) c.label("duplicate"); if (nempty) c.label("emptyvalue"); if (nmulti) c.label("multiword"); if (npads) c.label("padded");
  for (auto& kv : want) {
    char* got = GetsLax(S_(kv.first));
    c.check(got != NULL, "parameter '%s' is in the file but not in the database", kv.first.c_str());
    c.check(value_ok(kv.second, got), "parameter '%s' should be '%s' but is '%s'", kv.first.c_str(), kv.second.c_str(), got);
  }
  c.check(npdb - before == (int) want.size(), "file assigns %d different parameters, the database got %d", (int) want.size(), npdb - before);
  for (size_t k = 0; k < order.size(); k++)
    c.check(order[k] == GetnameInd(before + k), "parameter number %d is '%s', expected '%s'", (int) k, GetnameInd(before + k), order[k].c_str());
  // values of the file win over defaults of modules, and everything is still there afterwards
  for (auto& n : order) AddPar(S_(n), (char*) "a default", (char*) "d");
  makeparameter((char*) "q=unused", (char*) "x", (char*) "d");
  for (auto& kv : want) c.check(value_ok(kv.second, Gets(S_(kv.first))), "default replaced the value of '%s'", kv.first.c_str());
  c.check(npdb - before == (int) want.size() + 1, "a default created a second entry");
}

// a file that was read is not changed by rewriting it in canonical form
PBT(parfile_canonical_fixpoint, {.quick = 8000, .thorough = 200000, .fs = true}) {
  string text; int n = c.i(0, 120);
  for (int k = 0; k < n; k++) switch (c.i(0, 7)) {
    case 0: text += "="; text += c.word(1, 2, "vwz"); text += c.pickl<const char*>({" ", "\n", "\t"}); break;
    case 1: text += " "; break;
    case 2: text += "\n"; break;
    case 3: text += c.b(1, 4) ? "# c = d\n" : "\""; break;
    default: text += c.word(1, 3, "abc1"); text += c.b() ? " " : "";
  }
  text = "first = 0\n" + text;      // text before the first '=' has no defined meaning
  spit("t.par", text);
  parse_parameter_file((char*) "t.par");
  string out; vector<std::pair<string, string>> got;
  for (int k = 0; k < npdb; k++) { got.push_back({GetnameInd(k), GetsInd(k)}); if (!*GetnameInd(k) || words(GetnameInd(k)).size() != 1) c.discard(); }
  for (auto& kv : got) out += kv.first + " = " + kv.second + "\n";
  c.describe("%s", text.c_str()); if (npdb > 2) c.nontrivial();
  spit("u.par", out);
  npdb = 0;
  parse_parameter_file((char*) "u.par");
  c.check(npdb == (int) got.size(), "canonical rewrite has %d parameters instead of %d", npdb, (int) got.size());
  for (size_t k = 0; k < got.size(); k++)
    c.check(got[k].first == GetnameInd(k) && got[k].second == GetsInd(k), "parameter %d changed from '%s'='%s' to '%s'='%s'", (int) k,
            got[k].first.c_str(), got[k].second.c_str(), GetnameInd(k), GetsInd(k));
}

// arbitrary bytes: accepted or rejected, never a crash (run with AddressSanitizer)
PBT(parfile_bytes, {.quick = 15000, .thorough = 400000, .fs = true}) {
  string text; int n = c.b(1, 3) ? 1000 * c.i(1, 2) + c.i(-8, 8) : c.i(0, 60);
  int mode = c.i(0, 3);
  if (mode == 3) { // one repeated block, to reach sizes with few choices
    string blk = c.word(1, 6, "a= #\"\n1b"); while ((int) text.size() < n) text += blk; text.resize(n);
    text += c.word(0, 4, "a= #\"\n");
  } else if (n > 100) { string w(n, 'a'); text = w; int m = c.i(0, 8); for (int k = 0; k < m; k++) text[c.i(0, n - 1)] = "= #\"\n\t\0\xff"[c.i(0, 7)]; }
  else for (int k = 0; k < n; k++) text += mode == 0 ? (char) c.draw(256) : "ab1= =#\"\n\t \0"[c.i(0, 11)];
  spit("t.par", text);
  c.describe("%d bytes", (int) text.size());
  if (text.find('=') != string::npos) c.nontrivial();
  bool ex = c.exits([&] { parse_parameter_file((char*) "t.par"); });
  if (ex) c.label("rejected");
  else for (int k = 0; k < npdb; k++) { c.check(strlen(pdb[k].name) < 1 << 20 && strlen(pdb[k].value) < 1 << 20, "bad entry"); }
}

PBT(parfile_limits, {.quick = 16, .thorough = 60, .fs = true}) {
  // a missing file and an oversized file are rejected
  int kind = c.i(0, 2); c.nontrivial(); c.label(strf("kind%d", kind));
  bool ex;
  if (kind == 0) ex = c.exits([&] { parse_parameter_file((char*) "does_not_exist.par"); });
  else {
    string t = "a = 1\n#" + string(kind == 1 ? 1300000 : c.i(100000, 900000), 'x') + "\nb = 2\n";
    spit("t.par", t);
    ex = c.exits([&] { parse_parameter_file((char*) "t.par"); });
  }
  c.describe("kind %d", kind);
  c.check(ex == (kind != 2), kind == 2 ? "large but legal file rejected" : "bad file not rejected");
  if (kind == 2) c.check(string(Gets((char*) "b")) == "2" && npdb == 2, "large file misread");
}

// run.h: whole program runs, in forked children, inside the scratch directory of the case
#pragma once
#include "grid.h"
#include <sys/wait.h>
#include <dirent.h>
#include <limits.h>
// run the program;  setup() can register functions with AddFun.  Returns the wait status, exit status 50 = errorexit
inline int run_main(const vector<string>& args, const std::function<void()>& setup) {
  return pbt::in_child([&] {
    setup(); static vector<string> keep; keep = {"sgrid"}; keep.insert(keep.end(), args.begin(), args.end());
    static vector<char*> av; av.clear(); for (auto& s : keep) av.push_back((char*) s.c_str()); av.push_back(nullptr);
    bool ex = pbt::cur->exits([&] { libsgrid_main((int) keep.size(), av.data()); });
    fflush(nullptr); _exit(ex ? 50 : 0);
  });
}
inline string st_str(int st) { return WIFSIGNALED(st) ? pbt::strf("was killed by signal %d", WTERMSIG(st)) : pbt::strf("ended with status %d", WEXITSTATUS(st)); }
inline bool st_ok(int st) { return WIFEXITED(st) && WEXITSTATUS(st) == 0; }
inline bool st_refused(int st) { return WIFEXITED(st) && WEXITSTATUS(st) == 50; }
// directory tree: path -> contents; directories "<dir>", links "<link>target"
typedef std::map<string, string> Tree;
inline void tree_add(Tree& t, const string& d, const string& rel) {
  DIR* dir = opendir(d.c_str()); if (!dir) return;
  while (dirent* e = readdir(dir)) { string n = e->d_name; if (n == "." || n == "..") continue; string p = d + "/" + n, r = rel.empty() ? n : rel + "/" + n; struct stat st; if (lstat(p.c_str(), &st)) continue;
    if (S_ISLNK(st.st_mode)) { char b[PATH_MAX]; ssize_t k = readlink(p.c_str(), b, sizeof b); t[r] = "<link>" + string(b, k > 0 ? k : 0); }
    else if (S_ISDIR(st.st_mode)) { t[r] = "<dir>"; tree_add(t, p, r); } else t[r] = slurp(p); }
  closedir(dir);
}
inline Tree tree(const string& d) { Tree t; tree_add(t, d, ""); return t; }
inline string tree_diff(const Tree& want, const Tree& got) {
  auto show = [](const string& s) { string r = s.substr(0, 60); for (char& ch : r) if (ch < 32) ch = '|'; return r; };
  for (auto& w : want) { auto g = got.find(w.first); if (g == got.end()) return w.first + " is missing (it had '" + show(w.second) + "')"; if (g->second != w.second) return w.first + " contains '" + show(g->second) + "' instead of '" + show(w.second) + "'"; }
  for (auto& g : got) if (!want.count(g.first)) return g.first + " should not exist (contains '" + show(g.second) + "')";
  return "";
}
inline Tree sub(const Tree& t, const string& d) { Tree r; for (auto& x : t) if (x.first.compare(0, d.size() + 1, d + "/") == 0) r[x.first.substr(d.size() + 1)] = x.second; return r; }
inline void tree_rm(Tree& t, const string& d) { for (auto it = t.begin(); it != t.end();) if (it->first == d || it->first.compare(0, d.size() + 1, d + "/") == 0) it = t.erase(it); else ++it; }
inline bool tree_mv(Tree& t, const string& a, const string& b) { if (!t.count(a)) return false; Tree s = sub(t, a); string x = t[a]; tree_rm(t, a); t[b] = x; for (auto& y : s) t[b + "/" + y.first] = y.second; return true; }
inline string box_text(int b, const BoxSpec& s) {
  string r; using pbt::strf;
  for (int k = 0; k < 3; k++) { const Dir& d = s.d[k]; r += strf("box%d_n%d = %d\nbox%d_min%d = %.17g\nbox%d_max%d = %.17g\nbox%d_basis%d = %s\nbox%d_TransformType%d = %s\n", b, k + 1, d.n, b, k + 1, d.a, b, k + 1, d.b, b, k + 1, d.basis.c_str(), b, k + 1, d.tt.c_str()); }
  return r + strf("box%d_Coordinates = %s\n", b, s.coord.c_str());
}
inline string grid_text(const vector<BoxSpec>& S) { string r = pbt::strf("nboxes = %d\n", (int) S.size()); for (size_t b = 0; b < S.size(); b++) r += box_text((int) b, S[b]); return r; }
inline BoxSpec tiny_box() { BoxSpec s; for (auto& d : s.d) { d.n = 2; d.a = 0; d.b = 1; d.basis = "ChebExtrema"; d.tt = "0 NUMREC_FFT"; } return s; }

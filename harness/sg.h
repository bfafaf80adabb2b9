// sg.h: sgrid headers for C++ harnesses
#pragma once
#include "pbt.hpp"
#include <map>
#include <set>
#include <algorithm>
#include <unistd.h>
#include <sys/stat.h>
extern "C" {
#define vector NR_vector_decl
#include "sgrid.h"
#undef vector
double *nr_vector(long nl, long nh) __asm__("vector");
extern tParameter *pdb;
extern int pdb_iStart, npdb, npdbmax;
void free_global_parameter_database(void);
tParameter *findparameter(char *name, int fatal);
int findparameterindex(char *name, int fatal);
void setparameter(char *name, char *value);
void makeparameter(char *name, char *value, char *description);
void parse_parameter_file(char *parfile);
int iterate_parameters(int next);
int initialize_libraries(void);
int initialize_grid(tGrid *g);
int evolve_grid(tGrid *grid);
int finalize_grid(tGrid *g);
int libsgrid_main(int argc, char **argv);
void add_special_FFTW3_pars(void);
int is_power_of_two(int N);

}
using std::string; using std::vector;
inline char* S_(const string& s) { return (char*) s.c_str(); }
inline string slurp(const string& f) {
  string r; FILE* fp = fopen(f.c_str(), "rb"); if (!fp) return r;
  char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, fp)) > 0) r.append(b, k); fclose(fp); return r;
}
inline void spit(const string& f, const string& s) { FILE* fp = fopen(f.c_str(), "wb"); fwrite(s.data(), 1, s.size(), fp); fclose(fp); }
inline bool exists(const string& f) { struct stat st; return lstat(f.c_str(), &st) == 0; }
inline void setpar(const string& n, const string& v) { // silent "file value"
  if (findparameter(S_(n), 0)) setparameter(S_(n), S_(v)); else makeparameter(S_(n), S_(v), (char*) "harness");
}
inline vector<string> words(const string& s) {
  vector<string> r; string w; for (char ch : s) if (isspace((unsigned char) ch)) { if (!w.empty()) r.push_back(w); w.clear(); } else w += ch;
  if (!w.empty()) r.push_back(w); return r;
}
inline string join(const vector<string>& v, const string& sep = " ") { string r; for (size_t k = 0; k < v.size(); k++) r += (k ? sep : "") + v[k]; return r; }

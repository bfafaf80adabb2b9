// pbt.hpp: small property-based testing engine for the sgrid harnesses.
//
// * A case is a pure function of a sequence of choices.  In search mode the
//   choices come from a PRNG seeded by (seed, property, case number); in
//   replay mode they come from a list.  Shrinking edits the list.
// * Every case runs in a forked child, so that crashes, exits, runaway loops
//   and static state of the code under test stay inside the case.
// * The parent counts cases, labels, non-trivial and distinct ones.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <functional>

namespace pbt {

struct Case {
  // --- choices
  uint64_t draw(uint64_t n);                 // uniform in [0,n), 0 is simplest
  uint64_t raw53();                          // uniform in [0,2^53)
  int    i(int lo, int hi);                  // uniform, shrinks to lo
  int    toward(int lo, int hi, int simple); // uniform, shrinks to simple
  bool   b(int num = 1, int den = 2);        // true with prob num/den, shrinks to false
  double u01();                              // uniform [0,1)
  double u(double lo, double hi);            // uniform, shrinks to lo
  double sym(double a);                      // uniform in [-a,a], shrinks to 0
  double logu(double lo, double hi);         // log-uniform
  double anyfinite();                        // any finite double, all exponents
  uint64_t bits64();
  template<class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
  template<class T> T pickl(std::initializer_list<T> v) { return *(v.begin() + draw(v.size())); }
  std::string word(int minlen, int maxlen, const char* alphabet = nullptr);
  // --- results
  [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void known(const char* id, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
  [[noreturn]] void discard();
  void check(bool ok, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
  void nontrivial();
  void label(const std::string& l);
  void describe(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  void evals(int n);                         // n inner evaluations were made
  // --- running code that may exit()
  bool exits(const std::function<void()>& f);// true if f called exit()/abort()
  int  exit_code = 0;
  const char* scratch();                     // a directory of this worker, emptied per case
  std::string log();                         // what the case has printed so far
  const char* tier();                        // "quick" or "thorough"
};

struct Options {
  int quick = 1000, thorough = 10000;        // number of cases
  int cpu_s = 20;                            // CPU limit of a case; exceeding = not terminating
  bool fs = false;                           // needs an emptied scratch dir (chdir'ed into)
  bool unpriv = false;                       // run the case as an unprivileged user
  bool sched = false;                        // depends on the schedule of threads: one failure in 40 repetitions confirms it
  const char* hint = "";
};
typedef void (*Fn)(Case&);
struct Reg { Reg(const char* name, Options o, Fn f); };
// optional: called once in the parent before the cases are forked
extern void (*parent_init)();

// |a-b| <= tol*scale, false for NaN
inline bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
inline bool same_bits(double a, double b) { return std::memcmp(&a, &b, 8) == 0; }
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
int main_(int argc, char** argv);
// run a piece of code in a forked grandchild; returns wait status, 0 = ok
int in_child(const std::function<void()>& f);
extern Case* cur;
}

#define PBT(name, ...) \
  static void name(pbt::Case&); \
  static pbt::Reg reg_##name(#name, pbt::Options __VA_ARGS__, name); \
  static void name(pbt::Case& c)

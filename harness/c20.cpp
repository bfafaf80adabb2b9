// C20: death or write errors while a checkpoint is written
#include "ckrun.h"
#include <sys/resource.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <dlfcn.h>
using namespace pbt;
// faults: before or after the k-th file system operation, at a byte, or a full disk from a byte on
static int fault_it = -1, fault_op = -1, ops = 0; static bool armed = false, fault_after = false, full = false; static long fault_byte = -1, cmd_byte = -1; // cmd_byte: external commands die or find the disk full at this byte of a file
static void op(const char* what) { (void) what; if (armed && !fault_after && ops == fault_op) { syscall(SYS_exit_group, 9); } }
static void op_done() { if (armed) { if (fault_after && ops == fault_op) syscall(SYS_exit_group, 9); ops++; } }
extern "C" {
int rename(const char* a, const char* b) noexcept { op("rename"); int r = (int) syscall(SYS_rename, a, b); op_done(); return r; }
int remove(const char* a) noexcept { op("remove"); int r = (int) syscall(SYS_unlink, a); if (r) r = (int) syscall(SYS_rmdir, a); op_done(); return r; }
int unlink(const char* a) noexcept { op("unlink"); int r = (int) syscall(SYS_unlink, a); op_done(); return r; }
int system(const char* s) { op("system"); static int (*real)(const char*) = (int (*)(const char*)) dlsym(RTLD_NEXT, "system"); if (!s || !armed || cmd_byte < 0) { int r = real(s); if (s) op_done(); return r; }
  struct rlimit l, o; getrlimit(RLIMIT_FSIZE, &o); l = o; l.rlim_cur = cmd_byte; setrlimit(RLIMIT_FSIZE, &l); signal(SIGXFSZ, full ? SIG_IGN : SIG_DFL); int r = real(s); setrlimit(RLIMIT_FSIZE, &o); if (!full && r) syscall(SYS_exit_group, 9); op_done(); return r; }
FILE* fopen(const char* f, const char* m) { static FILE* (*real)(const char*, const char*) = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen"); bool w = m[0] != 'r'; if (w) op("fopen"); FILE* r = real(f, m); if (w) op_done(); return r; }
int fclose(FILE* f) { static int (*real)(FILE*) = (int (*)(FILE*)) dlsym(RTLD_NEXT, "fclose"); op("fclose"); int r = real(f); op_done(); return r; }
}
static int arm(tGrid* g) { // last function before checkpoint()
  FILE* f = fopen("trace", "a"); fclose(f);
  if (g->iteration != fault_it) return 0;
  fflush(nullptr); int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); close(fd); armed = true; ops = 0;
  if (fault_byte >= 0) { if (full) signal(SIGXFSZ, SIG_IGN); else signal(SIGXFSZ, SIG_DFL); struct rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = fault_byte; setrlimit(RLIMIT_FSIZE, &r); }
  return 0; }
static int disarm(tGrid* g) { if (armed && g->iteration == fault_it) { armed = false; struct rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = r.rlim_max; setrlimit(RLIMIT_FSIZE, &r); } return 0; }
static int traceit(tGrid* g) { int fd = open("trace", O_WRONLY | O_CREAT | O_APPEND, 0666); string s = strf("%d\n", g->iteration); if (write(fd, s.data(), s.size()) < 0) {} close(fd); return 0; }
static int run20(const vector<string>& a, const string& sf) { statefile = sf; return run_main(a, [] { ck_setup(); AddFun(PRE_EVOLVE, disarm, (char*) "disarm"); AddFun(PRE_EVOLVE, traceit, (char*) "trace"); AddFun(POST_OUTPUT, arm, (char*) "arm"); }); }
static int ck_iter(const string& f) { string s = slurp(f); size_t q = s.find("$iteration = "); return q == string::npos ? -2 : atoi(s.c_str() + q + 13); }
PBT(crash, {.quick = 3500, .thorough = 30000, .fs = true, .unpriv = true}) {
  int N = c.i(2, 7); gen_cfg(c, N); int rit = c.pickl<int>({1, 1, 0}); string p = K.pars + strf("checkpoint_restart_it = %d\niterations = %d\n", rit, N); int di = c.b() ? 1 : c.i(1, 3); if (di > 1) p += strf("checkpoint_di = %d\n", di); if (c.b(1, 3)) p += "checkpoint_previous = yes\n"; bool ckdir = c.b(1, 5); if (ckdir) { p += "checkpoint_outdir = ckd\ncheckpoint_indir = ckd\n"; mkdir("ckd", 0777); }
  spit("ref.par", p + "checkpoint = yes\n"); spit("a.par", p + "checkpoint = yes\n"); int st = run20({"ref.par"}, "state.ref"); c.check(st_ok(st), "the uninterrupted run %s; it printed: %s", st_str(st).c_str(), logtail(c).c_str()); 
  string rf = ckdir ? "ckd/checkpoint.0" : "ref/checkpoint.0"; size_t size = slurp(rf).size(); if (!size) c.discard(); if (ckdir) unlink("ckd/checkpoint.0"); unlink("trace"); c.describe(", N=%d, di=%d, restart_it=%d%s", N, di, rit, ckdir ? ", own checkpoint directory" : "");
  int have = -1, faults = c.i(1, 3), done = 0; bool hit = false;
  for (int f = 0; f <= faults; f++) {
    int lo = have < 0 ? (rit > 0 ? di : 0) : (have / di + 1) * di; bool faulty = f < faults && lo <= N; fault_it = -1; fault_op = -1; fault_byte = cmd_byte = -1; full = fault_after = false;
    if (faulty) { fault_it = lo + di * c.i(0, (N - lo) / di); int kind = c.i(0, 3); if (kind == 3) { cmd_byte = c.b(1, 3) ? c.i(0, 1) * 4096 : c.i(0, (int) size); full = c.b(); } else if (kind == 0) { fault_op = c.i(0, 4); fault_after = c.b(); } else { fault_byte = c.b(1, 4) ? (long) size - c.i(0, 40) : c.i(0, (int) size); if (c.b(1, 3)) fault_byte = fault_byte / 4096 * 4096; full = kind == 2; if (fault_byte < 0) fault_byte = 0; }
      c.describe("; run %d: %s at iteration %d", f + 1, kind == 3 ? strf("external commands %s at byte %ld", full ? "find the disk full" : "die", cmd_byte).c_str() : kind == 0 ? strf("dies %s operation %d", fault_after ? "after" : "before", fault_op).c_str() : strf("%s at byte %ld of %d", full ? "disk full" : "dies", fault_byte, (int) size).c_str(), fault_it); c.label(kind == 3 ? "external commands" : kind == 0 ? "dies at an operation" : full ? "disk full" : "dies at a byte"); }
    unlink("trace"); st = run20({"a.par"}, "state.new"); string tr = slurp("trace"), F = ckdir ? "ckd/checkpoint.0" : "a/checkpoint.0"; 
    bool died = !st_ok(st); if (!faulty) c.check(!died, "run %d %s; it printed: %s", f + 1, st_str(st).c_str(), logtail(c).c_str()); else if (died) { hit = true; c.check((WIFEXITED(st) && WEXITSTATUS(st) == 9) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGXFSZ) || (full && st_refused(st)), "run %d %s; it printed: %s", f + 1, st_str(st).c_str(), logtail(c).c_str()); }
    // which iterations were evolved
    string want; int from = have < 0 ? 0 : have; if (have > 0 && rit > 0) want = "0\n"; else if (have == 0 && rit > 0) want = ""; int upto = faulty && died ? fault_it : N; for (int i = from; i < upto; i++) want += strf("%d\n", i); 
    c.check(tr == want, "run %d evolved iterations %s, with a checkpoint of iteration %d it should be %s", f + 1, join(words(tr), ",").c_str(), have, join(words(want), ",").c_str());
    int lastgood = faulty ? (fault_it - di >= (rit > 0 ? di : 0) && fault_it - di > have ? fault_it - di : have) : N / di * di; if (!exists(F)) { c.check(lastgood < 0, "after run %d there is no checkpoint, the one of iteration %d had been completed", f + 1, lastgood); have = -1; }
    else { int h = ck_iter(F); string s = slurp(F); c.check(s.size() > 16 && s.find("$END_variables") != string::npos, "after run %d the checkpoint is truncated to %d bytes", f + 1, (int) s.size()); c.check(faulty ? h >= lastgood : h == lastgood || lastgood == 0, "after run %d the checkpoint is of iteration %d, the one of iteration %d had been completed", f + 1, h, lastgood); have = h; if (hit && h > 0) done++; }
    if (!faulty) break; if (!died) { }
  }
  if (hit && done) c.nontrivial(); if (have >= 0) c.label("restarted"); string a = slurp("state.ref"), b = slurp("state.new"); if (!exists("state.new")) c.discard(); c.check(a == b, "the final state differs from that of the uninterrupted run");
}

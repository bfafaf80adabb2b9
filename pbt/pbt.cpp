#include "pbt.hpp"
#include <map>
#include <set>
#include <algorithm>
#include <csetjmp>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <grp.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <time.h>

namespace pbt {
void (*parent_init)() = nullptr;
Case* cur = nullptr;

enum { RC_OK = 0, RC_FAIL = 77, RC_DISCARD = 78, RC_KNOWN = 79 };
enum { MAXCH = 1 << 17, MAXMSG = 1 << 16 };

struct Shm {               // written by the child, read by the worker
  uint32_t nch;
  uint32_t evals;
  uint32_t nontrivial;
  uint64_t ch[MAXCH];
  char msg[MAXMSG];
  char labels[4096];
  char desc[MAXMSG];
  char knownid[256];
};

struct PropRec { std::string name; Options o; Fn f; };
static std::vector<PropRec>& props() { static std::vector<PropRec> p; return p; }
Reg::Reg(const char* n, Options o, Fn f) { props().push_back({n, o, f}); }

// ---- state of the running case (in the child)
static Shm* S;
static bool replaying;
static const uint64_t* rin; static size_t rin_n, rpos;
static uint64_t rs[2];
static char scratch_dir[512];
static std::string logfile;
static sigjmp_buf exit_jmp; static volatile bool exit_armed; static volatile int exit_value;
static std::string g_tier = "quick";
static pid_t case_pid;

static uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; }
  return h;
}
static uint64_t rnd() { // xorshift128+
  uint64_t x = rs[0]; const uint64_t y = rs[1];
  rs[0] = y; x ^= x << 23; rs[1] = x ^ y ^ (x >> 17) ^ (y >> 26);
  return rs[1] + y;
}
uint64_t Case::draw(uint64_t n) {
  uint64_t v;
  if (n == 0) n = 1;
  if (replaying) v = rpos < rin_n ? rin[rpos++] : 0;
  else v = rnd() >> 1;
  if (replaying) { if (v >= n) v = n - 1; } else v %= n;
  if (S->nch < MAXCH) S->ch[S->nch++] = v;
  return v;
}
uint64_t Case::raw53() { return draw(1ull << 53); }
uint64_t Case::bits64() { uint64_t a = draw(1ull << 32), b = draw(1ull << 32); return (a << 32) | b; }
int Case::i(int lo, int hi) { return lo + (int) draw((uint64_t) ((int64_t) hi - lo + 1)); }
int Case::toward(int lo, int hi, int s) {
  int k = i(0, hi - lo); int v = s + k;
  return v <= hi ? v : lo + (v - hi - 1);
}
bool Case::b(int num, int den) { return draw(den) >= (uint64_t) (den - num); }
double Case::u01() { return raw53() * (1.0 / 9007199254740992.0); }
double Case::u(double lo, double hi) { return lo + (hi - lo) * u01(); }
double Case::sym(double a) {
  int64_t k = (int64_t) raw53();
  double m = (k >> 1) * (1.0 / 4503599627370496.0);
  return (k & 1) ? -a * m : a * m;
}
double Case::logu(double lo, double hi) { return lo * std::exp(u01() * std::log(hi / lo)); }
double Case::anyfinite() {
  for (;;) {
    switch (draw(4)) {
      case 0: return (double) i(-3, 3);
      case 1: return sym(1.0);
      case 2: { uint64_t x = bits64(); double d; memcpy(&d, &x, 8); if (std::isfinite(d)) return d; return 0; }
      default: return (b() ? -1 : 1) * std::ldexp(1.0 + u01(), toward(-1074, 1023, 0));
    }
  }
}
std::string Case::word(int lo, int hi, const char* alpha) {
  if (!alpha) alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
  int n = i(lo, hi), m = (int) strlen(alpha);
  std::string s; for (int k = 0; k < n; k++) s += alpha[draw(m)];
  return s;
}
std::string strf(const char* fmt, ...) {
  char buf[65536]; va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a); return buf;
}
static void finish(int rc) { fflush(nullptr); _exit(rc); }
void Case::fail(const char* fmt, ...) {
  va_list a; va_start(a, fmt); vsnprintf(S->msg, MAXMSG, fmt, a); va_end(a); finish(RC_FAIL); abort();
}
void Case::check(bool ok, const char* fmt, ...) {
  if (ok) return;
  va_list a; va_start(a, fmt); vsnprintf(S->msg, MAXMSG, fmt, a); va_end(a); finish(RC_FAIL);
}
void Case::known(const char* id, const char* fmt, ...) {
  snprintf(S->knownid, sizeof S->knownid, "%s", id);
  va_list a; va_start(a, fmt); vsnprintf(S->msg, MAXMSG, fmt, a); va_end(a); finish(RC_KNOWN); abort();
}
void Case::discard() { finish(RC_DISCARD); abort(); }
void Case::nontrivial() { S->nontrivial = 1; }
void Case::evals(int n) { S->evals += n; }
void Case::label(const std::string& l) {
  size_t n = strlen(S->labels);
  if (strstr((";" + std::string(S->labels)).c_str(), (";" + l + ";").c_str())) return;
  snprintf(S->labels + n, sizeof S->labels - n, "%s;", l.c_str());
}
void Case::describe(const char* fmt, ...) {
  size_t n = strlen(S->desc); va_list a; va_start(a, fmt);
  vsnprintf(S->desc + n, MAXMSG - n, fmt, a); va_end(a);
}
const char* Case::scratch() { return scratch_dir; }
const char* Case::tier() { return g_tier.c_str(); }
std::string Case::log() {
  fflush(nullptr);
  std::string r; FILE* f = fopen(logfile.c_str(), "rb"); if (!f) return r;
  char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) r.append(b, k);
  fclose(f); return r;
}
bool Case::exits(const std::function<void()>& f) {
  exit_armed = true;
  bool ex = false;
  if (sigsetjmp(exit_jmp, 1) == 0) f(); else { ex = true; exit_code = exit_value; }
  exit_armed = false;
  return ex;
}
int in_child(const std::function<void()>& f) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) { f(); finish(0); }
  int st = 0; waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == RC_FAIL) finish(RC_FAIL);      // message is in shm
  if (WIFEXITED(st) && WEXITSTATUS(st) == RC_KNOWN) finish(RC_KNOWN);
  return st;
}
}
using namespace pbt;

// ---- exit()/abort() of the code under test (linked with --wrap)
extern "C" {
void __real_exit(int) __attribute__((noreturn));
void __real_abort(void) __attribute__((noreturn));
void __wrap_exit(int code) __attribute__((noreturn));
void __wrap_abort(void) __attribute__((noreturn));
void __wrap_exit(int code) {
  if (exit_armed) { exit_value = code; siglongjmp(exit_jmp, 1); }
  if (case_pid) {
    std::string l = pbt::cur ? pbt::cur->log() : ""; if (l.size() > 1500) l = l.substr(l.size() - 1500);
    snprintf(S->msg, MAXMSG, "the code called exit(%d) where it should have succeeded; it printed: ...%s", code, l.c_str());
    finish(RC_FAIL);
  }
  __real_exit(code);
}
void __wrap_abort(void) { __wrap_exit(134); }
}

namespace pbt {
// ---- helpers of the parent
static void rm_contents(const std::string& d) {
  DIR* dir = opendir(d.c_str()); if (!dir) return;
  while (dirent* e = readdir(dir)) {
    std::string n = e->d_name; if (n == "." || n == "..") continue;
    std::string p = d + "/" + n; struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { rm_contents(p); rmdir(p.c_str()); }
    else unlink(p.c_str());
  }
  closedir(dir);
}
struct Outcome { int rc; std::string msg; std::vector<uint64_t> ch; };

static std::string sigdesc(int st, int cpu) {
  if (WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    if (s == SIGXCPU || (s == SIGKILL && cpu)) return strf("did not terminate within %d s of CPU time", cpu);
    return strf("crashed with signal %d (%s)", s, strsignal(s));
  }
  return strf("ended with unexpected exit status %d", WEXITSTATUS(st));
}
static std::string tail(const std::string& f, size_t n) {
  std::string r; FILE* fp = fopen(f.c_str(), "rb"); if (!fp) return r;
  fseek(fp, 0, SEEK_END); long len = ftell(fp); long from = len > (long) n ? len - (long) n : 0;
  fseek(fp, from, SEEK_SET); r.resize(len - from); size_t k = fread(&r[0], 1, r.size(), fp); r.resize(k); fclose(fp);
  for (char& ch : r) if ((unsigned char) ch < 9 || (unsigned char) ch > 126) ch = '?';
  return r;
}
// run one case in a child; choices from PRNG(seed) or from list
static Outcome run_case(const PropRec& p, const std::string& wdir, bool replay, const std::vector<uint64_t>& in, uint64_t seed) {
  S->nch = S->evals = S->nontrivial = 0; S->msg[0] = S->labels[0] = S->desc[0] = S->knownid[0] = 0;
  if (p.o.fs) rm_contents(wdir + "/d");
  logfile = wdir + "/log";
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(3); }
  if (pid == 0) {
    case_pid = getpid();
    snprintf(scratch_dir, sizeof scratch_dir, "%s/d", wdir.c_str());
    int fd = open(logfile.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0666);
    dup2(fd, 1); dup2(fd, 2); ::close(fd);
    int nul = open("/dev/null", O_RDONLY); dup2(nul, 0);
    struct rlimit rl = {(rlim_t) p.o.cpu_s, (rlim_t) p.o.cpu_s + 5}; setrlimit(RLIMIT_CPU, &rl);
    struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
    struct rlimit rf = {2ul << 30, 2ul << 30}; setrlimit(RLIMIT_FSIZE, &rf);
    if (p.o.fs && chdir(scratch_dir)) { perror("chdir"); _exit(3); }
    if (p.o.unpriv) {
      if (setgroups(0, nullptr) || setgid(65534) || setuid(65534)) { perror("setuid"); _exit(3); }
    }
    replaying = replay; rin = in.data(); rin_n = in.size(); rpos = 0;
    uint64_t x = seed; rs[0] = splitmix(x); rs[1] = splitmix(x) | 1;
    static Case c; cur = &c;
    p.f(c);
    finish(RC_OK);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Outcome o;
  o.ch.assign(S->ch, S->ch + S->nch);
  if (WIFEXITED(st) && (WEXITSTATUS(st) == RC_OK || WEXITSTATUS(st) == RC_DISCARD || WEXITSTATUS(st) == RC_FAIL || WEXITSTATUS(st) == RC_KNOWN)) {
    o.rc = WEXITSTATUS(st); o.msg = S->msg;
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {
    fprintf(stderr, "harness error in %s: %s\n", p.name.c_str(), tail(logfile, 500).c_str()); _exit(3);
  } else {
    o.rc = RC_FAIL; o.msg = sigdesc(st, p.o.cpu_s) + "; output: ..." + tail(logfile, 2500);
  }
  return o;
}

static std::string jesc(const std::string& s) {
  std::string r;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
    else if (ch == '\n') r += "\\n"; else if (ch == '\t') r += "\\t";
    else if (ch < 32 || ch > 126) r += strf("\\u%04x", ch);
    else r += ch;
  }
  return r;
}
static bool shorter(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}
static Outcome shrink(const PropRec& p, const std::string& wdir, Outcome best, double budget_s, int& tries) {
  struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
  auto elapsed = [&] { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec); };
  auto attempt = [&](std::vector<uint64_t> cand) {
    if (elapsed() > budget_s) return false;
    tries++;
    Outcome o = run_case(p, wdir, true, cand, 0);
    if (o.rc == RC_FAIL && shorter(o.ch, best.ch)) { best = o; return true; }
    return false;
  };
  bool progress = true;
  while (progress && elapsed() < budget_s) {
    progress = false;
    for (size_t len = std::max<size_t>(1, best.ch.size() / 2); len >= 1; len /= 2) {   // delete chunks
      for (size_t pos = 0; pos + len <= best.ch.size() && elapsed() < budget_s;) {
        std::vector<uint64_t> c2 = best.ch; c2.erase(c2.begin() + pos, c2.begin() + pos + len);
        if (attempt(c2)) progress = true; else pos += len;
      }
      if (len == 1) break;
    }
    for (size_t len = std::max<size_t>(1, best.ch.size() / 2); len >= 1; len /= 2) {   // zero chunks
      for (size_t pos = 0; pos + len <= best.ch.size() && elapsed() < budget_s; pos += len) {
        std::vector<uint64_t> c2 = best.ch; bool any = false;
        for (size_t k = pos; k < pos + len; k++) { any |= c2[k] != 0; c2[k] = 0; }
        if (any && attempt(c2)) progress = true;
      }
      if (len == 1) break;
    }
    for (size_t pos = 0; pos < best.ch.size() && elapsed() < budget_s; pos++) {        // minimise each
      uint64_t lo = 0;
      for (int it = 0; it < 54 && pos < best.ch.size(); it++) {
        uint64_t v = best.ch[pos]; if (v <= lo) break;
        uint64_t mid = lo + (v - lo) / 2;
        std::vector<uint64_t> c2 = best.ch; c2[pos] = mid;
        if (attempt(c2)) progress = true; else lo = mid + 1;
      }
    }
  }
  return best;
}

struct Agg {
  long cases = 0, discards = 0, nontrivial = 0, evals = 0;
  std::map<std::string, long> labels; std::set<uint64_t> distinct;
  std::vector<std::string> samples; std::map<std::string, std::pair<long, std::string>> known;
  long failidx = -1; Outcome fail;
};

int main_(int argc, char** argv) {
  // same addresses in every run
  if (!getenv("PBT_NOASLR")) {
    setenv("PBT_NOASLR", "1", 1);
    int old = personality(0xffffffff);
    if (old >= 0 && !(old & ADDR_NO_RANDOMIZE) && personality(old | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
  }
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  std::string out, replay, only, rdir = "."; uint64_t seed = 1; long ncases = -1; int jobs = 8; double scale = 1, shrink_s = 40;
  if (getenv("PBT_JOBS")) jobs = atoi(getenv("PBT_JOBS"));
  for (int k = 1; k < argc; k++) {
    std::string a = argv[k]; auto nx = [&] { return std::string(k + 1 < argc ? argv[++k] : ""); };
    if (a == "--tier") g_tier = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--out") out = nx(); else if (a == "--replay") replay = nx(); else if (a == "--only") only = nx();
    else if (a == "--n") ncases = atol(nx().c_str()); else if (a == "--jobs") jobs = atoi(nx().c_str());
    else if (a == "--replaydir") rdir = nx(); else if (a == "--scale") scale = atof(nx().c_str());
    else if (a == "--shrink") shrink_s = atof(nx().c_str());
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  setenv("OMP_NUM_THREADS", getenv("PBT_OMP") ? getenv("PBT_OMP") : "1", 1);
  setenv("OPENBLAS_NUM_THREADS", "1", 1);
  umask(0);
  char base[] = "/tmp/pbt.XXXXXX"; if (!mkdtemp(base)) { perror("mkdtemp"); return 2; }
  chmod(base, 0777);
  auto wdir_of = [&](int w) { std::string d = strf("%s/w%d", base, w); mkdir(d.c_str(), 0777); mkdir((d + "/d").c_str(), 0777); return d; };
  auto cleanup = [&] { rm_contents(base); rmdir(base); };
  S = (Shm*) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (parent_init) parent_init();

  if (!replay.empty()) {
    FILE* f = fopen(replay.c_str(), "r"); if (!f) { perror(replay.c_str()); return 2; }
    char name[256] = ""; std::vector<uint64_t> ch; char line[1 << 16];
    while (fgets(line, sizeof line, f)) {
      if (!strncmp(line, "sub ", 4)) sscanf(line + 4, "%255s", name);
      else if (!strncmp(line, "choices", 7)) { unsigned long long v; while (fscanf(f, "%llu", &v) == 1) ch.push_back(v); }
    }
    fclose(f);
    for (auto& p : props()) if (p.name == name) {
      std::string w = wdir_of(0);
      Outcome o = run_case(p, w, true, ch, 0); for (int k = 1; k < 40 && p.o.sched && o.rc != RC_FAIL; k++) o = run_case(p, w, true, ch, 0);
      printf("sub %s: %s\n%s\ncase: %s\n--- output tail\n%s\n", name, o.rc == RC_FAIL ? "FAILS" : o.rc == RC_KNOWN ? "known finding" : "passes", o.msg.c_str(), S->desc, tail(w + "/log", 3000).c_str());
      fflush(stdout);
      cleanup(); return o.rc == RC_FAIL ? 1 : 0;
    }
    fprintf(stderr, "no sub-property %s\n", name); cleanup(); return 2;
  }

  std::string js = "{\"subs\":["; bool anyfail = false, first = true;
  struct timespec T0; clock_gettime(CLOCK_MONOTONIC, &T0);
  for (auto& p : props()) {
    if (!only.empty() && ("," + only + ",").find("," + std::string(p.name) + ",") == std::string::npos) continue;
    long n = ncases >= 0 ? ncases : (long) ((g_tier == "thorough" ? p.o.thorough : p.o.quick) * scale);
    if (n < 1) continue;
    struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    uint64_t ph = hash_str(p.name);
    // shared: index of the smallest failing case so far
    volatile long* minfail = (long*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    *minfail = -1;
    std::vector<pid_t> kids;
    int W = (int) std::min<long>(jobs, n);
    fflush(nullptr);
    for (int w = 0; w < W; w++) {
      pid_t pid = fork();
      if (pid == 0) {
        Shm* mine = (Shm*) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        S = mine;
        std::string wd = wdir_of(w); Agg a; std::vector<uint64_t> none;
        for (long k = w; k < n; k += W) {
          if (*minfail >= 0 && *minfail < k) break;
          uint64_t sd = seed * 0x9e3779b97f4a7c15ull ^ ph ^ ((uint64_t) k * 0xd1342543de82ef95ull);
          Outcome o = run_case(p, wd, false, none, sd);
          a.cases++; a.evals += S->evals ? S->evals : 1;
          if (o.rc == RC_DISCARD) { a.discards++; continue; }
          if (S->nontrivial) {
            a.nontrivial++; uint64_t h = 0xcbf29ce484222325ull;
            for (uint64_t v : o.ch) { h ^= v; h *= 0x100000001b3ull; h ^= h >> 29; }
            a.distinct.insert(h);
            if (a.samples.size() < 2 && S->desc[0] && w < 3) a.samples.push_back(std::string(S->desc).substr(0, 1500));
          }
          std::string l = S->labels; size_t q = 0, e;
          while ((e = l.find(';', q)) != std::string::npos) { a.labels[l.substr(q, e - q)]++; q = e + 1; }
          if (o.rc == RC_KNOWN) { auto& kk = a.known[S->knownid]; kk.first++; kk.second = o.msg; }
          if (o.rc == RC_FAIL) {
            a.failidx = k; a.fail = o;
            if (*minfail < 0 || k < *minfail) *minfail = k;
            break;
          }
        }
        FILE* f = fopen((wd + "/agg").c_str(), "w");
        fprintf(f, "%ld %ld %ld %ld %ld\n", a.cases, a.discards, a.nontrivial, a.evals, a.failidx);
        fprintf(f, "%zu", a.distinct.size()); for (uint64_t h : a.distinct) fprintf(f, " %llu", (unsigned long long) h);
        auto puts_ = [&](const std::string& s) { fprintf(f, "\n%zu ", s.size()); fwrite(s.data(), 1, s.size(), f); };
        fprintf(f, "\n%zu", a.labels.size()); for (auto& kv : a.labels) { puts_(kv.first); fprintf(f, " %ld", kv.second); }
        fprintf(f, "\n%zu", a.samples.size()); for (auto& s : a.samples) puts_(s);
        fprintf(f, "\n%zu", a.known.size()); for (auto& kv : a.known) { puts_(kv.first); fprintf(f, " %ld", kv.second.first); puts_(kv.second.second); }
        puts_(a.fail.msg); fprintf(f, "\n%zu", a.fail.ch.size()); for (uint64_t v : a.fail.ch) fprintf(f, " %llu", (unsigned long long) v);
        fprintf(f, "\n"); fclose(f); _exit(0);
      }
      kids.push_back(pid);
    }
    bool harness_err = false;
    for (pid_t k : kids) { int st; while (waitpid(k, &st, 0) < 0 && errno == EINTR) {} if (st != 0) harness_err = true; }
    if (harness_err) { fprintf(stderr, "harness error in %s\n", p.name.c_str()); cleanup(); return 2; }
    Agg A;
    for (int w = 0; w < W; w++) {
      FILE* f = fopen((wdir_of(w) + "/agg").c_str(), "r"); if (!f) { fprintf(stderr, "lost worker\n"); cleanup(); return 2; }
      long a1, a2, a3, a4, a5; size_t m; unsigned long long v;
      auto gets_ = [&] { size_t len = 0; if (fscanf(f, "%zu", &len) != 1) len = 0; fgetc(f); std::string s(len, 0); size_t k = fread(&s[0], 1, len, f); s.resize(k); return s; };
      if (fscanf(f, "%ld %ld %ld %ld %ld", &a1, &a2, &a3, &a4, &a5) != 5) { cleanup(); return 2; }
      A.cases += a1; A.discards += a2; A.nontrivial += a3; A.evals += a4;
      if (fscanf(f, "%zu", &m) == 1) while (m--) if (fscanf(f, "%llu", &v) == 1) A.distinct.insert(v);
      if (fscanf(f, "%zu", &m) == 1) while (m--) { std::string s = gets_(); long k = 0; if (fscanf(f, "%ld", &k) == 1) A.labels[s] += k; }
      if (fscanf(f, "%zu", &m) == 1) while (m--) { std::string s = gets_(); if (A.samples.size() < 4) A.samples.push_back(s); }
      if (fscanf(f, "%zu", &m) == 1) while (m--) { std::string s = gets_(); long k = 0; if (fscanf(f, "%ld", &k) != 1) k = 0; std::string g = gets_(); A.known[s].first += k; A.known[s].second = g; }
      Outcome o; o.rc = RC_FAIL; o.msg = gets_(); if (fscanf(f, "%zu", &m) == 1) while (m--) if (fscanf(f, "%llu", &v) == 1) o.ch.push_back(v);
      fclose(f);
      if (a5 >= 0 && (A.failidx < 0 || a5 < A.failidx)) { A.failidx = a5; A.fail = o; }
    }
    munmap((void*) minfail, 4096);
    std::string failjs = "null";
    if (A.failidx >= 0) {
      std::string wd = wdir_of(0); int tries = 0;
      // confirm, shrink, confirm three times
      Outcome o = run_case(p, wd, true, A.fail.ch, 0); bool flaky = o.rc != RC_FAIL;
      std::string rf;
      int confirmed = 0;
      std::string desc;
      if (p.o.sched) { for (int k = 1; k < 40 && o.rc != RC_FAIL; k++) o = run_case(p, wd, true, A.fail.ch, 0); if (o.rc == RC_FAIL) { confirmed = 3; desc = S->desc; } else o = A.fail; }
      else if (!flaky) {
        o = shrink(p, wd, o, shrink_s, tries);
        for (int k = 0; k < 3; k++) { Outcome r = run_case(p, wd, true, o.ch, 0); if (r.rc == RC_FAIL) { confirmed++; o.msg = r.msg; desc = S->desc; } }
        if (confirmed < 3) { // fall back to the unshrunk case
          o = A.fail; confirmed = 0;
          for (int k = 0; k < 3; k++) { Outcome r = run_case(p, wd, true, o.ch, 0); if (r.rc == RC_FAIL) { confirmed++; o.msg = r.msg; desc = S->desc; } }
        }
      } else o = A.fail;
      bool real = confirmed == 3;
      rf = rdir + "/" + p.name + ".replay";
      FILE* f = fopen(rf.c_str(), "w");
      if (f) {
        fprintf(f, "# failing case of sub-property %s, seed %llu, case %ld, %d shrink attempts\n", p.name.c_str(), (unsigned long long) seed, A.failidx, tries);
        fprintf(f, "# %s\n", jesc(o.msg).c_str()); fprintf(f, "# case: %s\n", jesc(desc).c_str());
        fprintf(f, "sub %s\nchoices\n", p.name.c_str()); for (uint64_t v : o.ch) fprintf(f, "%llu\n", (unsigned long long) v);
        fclose(f);
      }
      if (real) anyfail = true;
      failjs = strf("{\"case\":%ld,\"confirmed\":%s,\"replay\":\"%s\",\"shrink_tries\":%d,\"msg\":\"", A.failidx, real ? "true" : "false", jesc(rf).c_str(), tries) + jesc(o.msg.substr(0, 3000)) + "\",\"desc\":\"" + jesc(desc.substr(0, 3000)) + "\"}";
      fprintf(stderr, "%s %s case %ld: %s\n  case: %s\n", real ? "FAIL" : "flaky", p.name.c_str(), A.failidx, o.msg.substr(0, 1500).c_str(), desc.substr(0, 1500).c_str());
    }
    struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
    double wall = (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec);
    fprintf(stderr, "%-34s %7ld cases %6ld discarded %7ld nontrivial %7zu distinct %6.1fs |", p.name.c_str(), A.cases, A.discards, A.nontrivial, A.distinct.size(), wall);
    for (auto& kv : A.labels) fprintf(stderr, " %s:%ld", kv.first.c_str(), kv.second);
    fprintf(stderr, "\n");
    if (!first) js += ","; first = false;
    js += strf("{\"name\":\"%s\",\"cases\":%ld,\"evaluations\":%ld,\"discards\":%ld,\"nontrivial\":%ld,\"distinct\":%zu,\"wall\":%.2f,\"fail\":", p.name.c_str(), A.cases, A.evals, A.discards, A.nontrivial, A.distinct.size(), wall) + failjs;
    js += ",\"labels\":{"; bool ff = true; for (auto& kv : A.labels) { js += (ff ? "" : ","); ff = false; js += "\"" + jesc(kv.first) + strf("\":%ld", kv.second); }
    js += "},\"samples\":["; ff = true; for (auto& s : A.samples) { js += (ff ? "" : ","); ff = false; js += "\"" + jesc(s) + "\""; }
    js += "],\"known\":{"; ff = true; for (auto& kv : A.known) { js += (ff ? "" : ","); ff = false; js += "\"" + jesc(kv.first) + strf("\":{\"count\":%ld,\"msg\":\"", kv.second.first) + jesc(kv.second.second) + "\"}"; }
    js += strf("},\"hint\":\"%s\"}", jesc(p.o.hint).c_str());
  }
  js += "]}\n";
  if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); if (f) { fputs(js.c_str(), f); fclose(f); } }
  cleanup();
  return anyfail ? 1 : 0;
}
}
int main(int argc, char** argv) { int r = pbt::main_(argc, argv); fflush(nullptr); _exit(r); }

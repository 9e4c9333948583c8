// Native replay of one counterexample: same harness, uninstrumented code.
#include "../vf.h"
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <new>
#include <signal.h>
#include <string>
#include <unistd.h>
#include <vector>
struct H { const char *name; void (*f)(); };
static std::vector<H> &hs() { static std::vector<H> v; return v; }
VfReg::VfReg(const char *name, void (*f)(), int, const char *) { hs().push_back({name, f}); }
static std::vector<double> reals; static std::vector<std::string> names; static std::vector<int> choices; static size_t ir, ic;
static double garbage = 777.125; static int expabort, thorough, fill_on = 1; static int outfd = 1;
static std::string wantlabel, wantkind;
static void say(const char *fmt, ...) { char b[600]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (n > 0) { ssize_t r = write(outfd, b, n < 600 ? n : 599); (void)r; } }
[[noreturn]] static void fin(int c) { _exit(c); }
static void viol(const char *label, const char *how, double a, double b) { say("REPLAY-VIOLATION label=%s %s a=%.17g b=%.17g\n", label, how, a, b); if (wantlabel == label) fin(10); }
extern "C" {
double vf_real(const char *) { if (ir >= reals.size()) { say("REPLAY-DIVERGED reals\n"); fin(3); } return reals[ir++]; }
int vf_choose(const char *, int n) { if (ic >= choices.size()) { say("REPLAY-DIVERGED choices\n"); fin(3); } int c = choices[ic++]; if (c >= n) { say("REPLAY-DIVERGED choice range\n"); fin(3); } return c; }
void vf_assume(bool c) { if (!c) { say("REPLAY-ASSUME-FAILED\n"); fin(4); } }
static bool cmp(int pred, double a, double b, double tol) {
  if (a != a || b != b) return false;
  switch (pred) { case VF_OEQ: return fabs(a - b) <= tol || a == b; case VF_OGT: return a > b; case VF_OGE: return a >= b - tol; case VF_OLT: return a < b; case VF_OLE: return a <= b + tol; case VF_ONE: return a != b; }
  return false;
}
static double tolOf(double a, double b, double r) { double s = fmax(1.0, fmax(fabs(a), fabs(b))); if (!std::isfinite(s)) return 0; return r * s; }
void vf_assume_rel(int pred, double a, double b) { if (!cmp(pred, a, b, tolOf(a, b, 1e-7))) { if (pred == VF_OEQ || pred == VF_OLE || pred == VF_OGE || fabs(a - b) > 1e-9) { say("REPLAY-ASSUME-FAILED %g %d %g\n", a, pred, b); fin(4); } } }
void vf_assert(bool c, const char *label) { if (!c) viol(label, "bool", 0, 0); }
void vf_assert_rel(int pred, double a, double b, const char *label) { if (!cmp(pred, a, b, tolOf(a, b, 1e-6))) viol(label, "rel", a, b); }
void vf_reach(const char *) {}
bool vf_is_sym(double) { return false; }
int vf_next_is(const char *n) { return ir < names.size() && names[ir] == n; }
bool vf_symbolic_mode() { return false; }
int vf_thorough() { return thorough; }
void vf_mode_fork(int) {}
void vf_expect_abort(int on) { expabort = on; }
double vf_fabs(double a) { return fabs(a); } double vf_sqrt(double a) { return sqrt(a); }
double vf_fmax(double a, double b) { return fmax(a, b); } double vf_fmin(double a, double b) { return fmin(a, b); }
void vf_garbage_fill(int on) { fill_on = on; }
void vf_exact(int) {}
void vf_hint_nonneg(double) {}
long vf_paths_hint() { return 0; }
void vf_note(const char *, ...) {}
const char *vf_str(double x) { static char b[64]; snprintf(b, 64, "%.17g", x); return b; }
}
static bool inrun = false;
static void fillg(void *p, size_t n) { if (!inrun || !fill_on || n > (1u << 22)) return; double *q = (double *)p; for (size_t i = 0; i < n / 8; i++) q[i] = garbage; }
void *operator new(size_t n) { void *p = malloc(n ? n : 1); fillg(p, n); return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); fillg(p, n); return p; }
void operator delete(void *p) noexcept { free(p); } void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); } void operator delete[](void *p, size_t) noexcept { free(p); }
static void oncrash(int sig) { if (expabort && sig == SIGABRT) fin(0); say("REPLAY-CRASH signal=%d\n", sig); if (wantkind == "crash") fin(10); fin(11); }
static void onexit_() { if (inrun) { if (expabort) fin(0); say("REPLAY-EXIT\n"); if (wantkind == "crash") fin(10); fin(11); } }
int main(int argc, char **argv) {
  if (argc < 2) return 2;
  if (argc > 2 && !strcmp(argv[2], "thorough")) thorough = 1;
  FILE *f = fopen(argv[1], "r");
  if (!f) return 2;
  char line[1000], h[200] = "";
  while (fgets(line, sizeof line, f)) {
    line[strcspn(line, "\n")] = 0;
    if (!strncmp(line, "harness ", 8)) strcpy(h, line + 8);
    else if (!strncmp(line, "kind ", 5)) wantkind = line + 5;
    else if (!strncmp(line, "label ", 6)) wantlabel = line + 6;
    else if (!strncmp(line, "garbage ", 8)) { garbage = atof(line + 8); if (!std::isfinite(garbage)) garbage = 777.125; }
    else if (!strncmp(line, "choices ", 8)) { char *p = line + 8; long n = strtol(p, &p, 10); for (long i = 0; i < n; i++) choices.push_back(strtol(p, &p, 10)); }
    else if (!strncmp(line, "reals ", 6)) { long n = atol(line + 6); for (long i = 0; i < n && fgets(line, sizeof line, f); i++) { char *e; double d = strtod(line, &e); while (*e == ' ') e++; { std::string nm(e); while (!nm.empty() && (unsigned char)nm.back() <= ' ') nm.pop_back(); names.push_back(nm); } reals.push_back(std::isfinite(d) ? d : 1.0); } }
  }
  fclose(f);
  outfd = dup(1);
  int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
  signal(SIGABRT, oncrash); signal(SIGSEGV, oncrash); signal(SIGBUS, oncrash); signal(SIGFPE, oncrash);
  alarm(120);
  atexit(onexit_);
  for (auto &x : hs()) if (!strcmp(x.name, h)) { inrun = true; x.f(); inrun = false; say("REPLAY-OK\n"); fin(0); }
  say("REPLAY-NO-HARNESS\n");
  inrun = false;
  return 2;
}

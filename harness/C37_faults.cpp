// vf-bounds: whole quasi-Newton runs of at most 2 (thorough 3) iterations on a 2-variable problem with one inequality or one equality, arbitrary objective values at every trial point, user evaluation failing once or from then on at any of the first 24 (thorough 40) calls; line search, second-order correction and restoration (soft and full) included; evaluations of the restoration problem (dense, sparse, mixed) at arbitrary points with each kind of user function failing
// vf-flags: -DHIOP_SPARSE -DHIOP_USE_COINHSL
// vf-sources: LinAlg/hiopLinSolverSymSparseMA57.cpp Optimization/hiopKKTLinSysSparse.cpp Optimization/hiopKKTLinSysSparseCondensed.cpp Optimization/hiopKKTLinSysSparseNormalEqn.cpp
#include "fr.hpp"
#include "alg.hpp"
#include <unistd.h>
#include <stdlib.h>
struct FP : DProb {
  int calls = 0, fail_at = -1, failed = 0; bool sticky = false; std::vector<DV> fv; bool symf = true; int n_restored = 0;
  FP(int kc) : DProb({K_BOTH, K_LOW}, {kc}, true, false) { xl[0] = 0; xu[0] = 4; xl[1] = -1; cu[0] = 3; if (kc == K_EQ) cl[0] = 3; A = {1, 1}; g = {1, 1}; x0 = {1, 1}; }
  bool bad() { int k = calls++; if (k == fail_at || (sticky && fail_at >= 0 && k >= fail_at)) { failed++; return true; } return false; }
  bool eval_f(const size_type&, const double* x, bool, double& o) {
    if (bad()) { o = 12345.; return false; }
    for (auto& e : fv) if (e[0] == x[0] && e[1] == x[1]) { o = e[2]; return true; }
    if (!symf) { o = (x[0]-1.5)*(x[0]-1.5)+(x[1]-2)*(x[1]-2)*0.5; return true; } o = R("f"); vf_assume_le(o, 1e4); vf_assume_le(-1e4, o); fv.push_back({x[0], x[1], o}); return true; }
  bool eval_grad_f(const size_type&, const double* x, bool, double* gr) { if (bad()) return false; gr[0] = 2 * (x[0] - 1.5); gr[1] = x[1] - 2; return true; }
  bool eval_cons(const size_type& n_, const size_type& m_, const size_type& nc, const index_type* idx, const double* x, bool nx, double* co) { if (nc == 0) return true; if (bad()) return false; return DProb::eval_cons(n_, m_, nc, idx, x, nx, co); }
  bool eval_cons(const size_type& n_, const size_type& m_, const double* x, bool nx, double* co) { if (bad()) return false; return DProb::eval_cons(n_, m_, x, nx, co); }
  bool eval_Jac_cons(const size_type& n_, const size_type& m_, const size_type& nc, const index_type* idx, const double* x, bool nx, double* J) { if (nc == 0) return true; if (bad()) return false; return DProb::eval_Jac_cons(n_, m_, nc, idx, x, nx, J); }
  bool eval_Jac_cons(const size_type& n_, const size_type& m_, const double* x, bool nx, double* J) { if (bad()) return false; return DProb::eval_Jac_cons(n_, m_, x, nx, J); }
};
static void faults(int kc, bool resto, int K, int mi) {
  vfs_concrete = 1; FP p(kc); NlpFix<FP> F(p);
  char fr[] = "/tmp/vf_frXXXXXX"; int fd = mkstemp(fr); FILE* fo = fdopen(fd, "w"); fprintf(fo, "max_iter 2\n"); fclose(fo);
  F.str("options_file_fr_prob", fr); F.nlp.options->SetIntegerValue("max_iter", mi); F.num("min_step_size", 0.4);
  if (resto) { F.str("force_resto", "yes"); p.x0 = {4, 6}; }
  F.init(); Alg A(&F.nlp);
  p.fail_at = vf_choose("fail_at", K + 1) - 1; p.sticky = p.fail_at < 0 || vf_choose("sticky", 2);
  auto st = A.run(); unlink(fr);
  vf_assert(st == A.getSolveStatus(), "returned status kept"); vf_assert(st != NlpSolve_Pending, "final status");
  if (p.failed) { bool e = st == Error_In_User_Function; if (!e) e = st == Error_In_FR; vf_assert(e, "failure reported"); vf_reach("failed"); }
  else { vf_assert(st != Error_In_User_Function, "no failure reported"); vf_reach("fine"); }
}
VF_HARNESS(ineq, 0, "failed,fine") { faults(K_UPP, false, vf_thorough() ? 40 : 24, vf_thorough() ? 3 : 2); }
VF_HARNESS(eq, 0, "failed,fine") { faults(K_EQ, false, vf_thorough() ? 40 : 24, vf_thorough() ? 3 : 2); }
VF_HARNESS(restoration, 0, "failed,fine") { faults(K_UPP, true, vf_thorough() ? 60 : 40, 2); }
// a failing function of the original problem makes the restoration problem's evaluation fail
VF_HARNESS(restoration_functions, 0, "objective,constraints,jacobian,hessian,callback,reset") {
  int c = vf_choose("cons", 3), kind = vf_choose("kind", 6); Ctx& C = *make(c, false, 0); View& v = *C.v; for (auto& t : C.xr) vf_assume_lt(0.5, t);
  DV y = symv(v.n, "y"), g, l = symv(v.m, "l"), s2 = symv(C.mi, "s2"); double f; bool ok;
  static const int bit[6] = {1, 4, 8, 16, 4, 4};
  if (kind == 3 && !C.var) return;
  if (kind >= 4) { for (int k = 0; k < C.me + C.mi; k++) vf_assume_le(dabs_(C.c(y, k)), 1e6); for (double t : s2) vf_assume_le(dabs_(t), 1e6); for (double t : C.p.cl) if (vf_is_sym(t)) vf_assume_le(dabs_(t), 1e6); ok = v.f(y, f); if (kind == 5) { ok = v.callback(0, y, s2, 0.5); vf_assert(ok, "goes on"); } }
  ok = v.failed(); vf_assert(!ok, "no failure noted before one happened");
  C.p.failing = bit[kind]; DV t(4000, 7.); bool cont = false;
  if (kind == 0) { ok = v.f(y, f); vf_reach("objective"); }
  if (kind == 1) { ok = v.cons(y, g); vf_reach("constraints"); }
  if (kind == 2) { ok = v.jac_ok(y); vf_reach("jacobian"); }
  if (kind == 3) { ok = v.hess_ok(y, l); vf_reach("hessian"); }
  if (kind == 4) { ok = v.callback(1, y, s2, 0.5) && !v.failed(); vf_reach("callback"); }
  if (kind == 5) { DV w = y; ok = v.force(w); vf_reach("reset"); }
  vf_assert(C.p.n_failed > 0, "the function was called"); vf_assert(!ok, "failure handed on");
}

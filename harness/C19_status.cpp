// vf-bounds: termination test from arbitrary error measures, tolerances, counters (every outcome); whole quasi-Newton runs of at most 2 (thorough 3) iterations with arbitrary objective values at every trial point; whole runs of 2-3 iterations of both solvers on fixed problems (2 variables, 1-2 constraints; plain, started next to a bound, large barrier parameter with every trial step accepted) with arbitrary objective values
#include "alg.hpp"
#include "runobs.hpp"
#include <unistd.h>
#include <stdlib.h>
static std::vector<int> KX{K_LOW}, KC{K_BOTH};
VF_HARNESS(termination, 0, "success,maxiter,reltol,acceptable,go_on") {
  DProb p(KX, KC, true, false); NlpFix<> F(p); F.init(); Alg A(&F.nlp);
  double err = vf_nonneg("err"), eo = A._err_nlp_optim = vf_nonneg("optim"), ec = A._err_nlp_complem = vf_nonneg("complem"), ev = A._err_cons_violation = vf_nonneg("viol"), ef = A._err_nlp_feas = vf_nonneg("feas");
  double tol = A.eps_tol = vf_in("tol", 1e-14, .1), dt = A.dual_tol_ = vf_in("dual_tol", 1e-14, 1.), ct = A.cons_tol_ = vf_in("cons_tol", 1e-14, 1.), mt = A.comp_tol_ = vf_in("comp_tol", 1e-14, 1.);
  double rt = 0; if (vf_choose("rel", 2)) rt = vf_in("rtol", 1e-12, .1);
  A.eps_rtol = rt;
  double o0 = A._err_nlp_optim0 = vf_nonneg("optim0"), f0 = A._err_nlp_feas0 = vf_nonneg("feas0"), c0 = A._err_nlp_complem0 = vf_nonneg("complem0");
  double at = A.eps_tol_accep = vf_in("acc", 1e-14, 1.);
  int na = A.accep_n_it = 1 + vf_choose("acc_n", 3), n0 = A.n_accep_iters_ = vf_choose("acc_have", 3); vf_assume(n0 < na);
  int mx = A.max_n_it = 3, it = vf_choose("iter", 5);
  A.solver_status_ = NlpSolve_Pending;
  bool stop = A.checkTermination(err, it, A.solver_status_);
  bool succ = err <= tol; if (succ) succ = eo <= dt; if (succ) succ = ev <= ct; if (succ) succ = ec <= mt;
  if (succ) { vf_assert(stop && A.solver_status_ == Solve_Success, "success"); vf_reach("success"); return; }
  vf_assert(A.solver_status_ != Solve_Success, "success only when all tolerances hold");
  if (it >= mx) { vf_assert(stop && A.solver_status_ == Max_Iter_Exceeded, "iteration limit"); vf_reach("maxiter"); return; }
  vf_assert(A.solver_status_ != Max_Iter_Exceeded, "iteration limit only at the limit");
  bool rel = rt > 0; if (rel) rel = eo <= rt * o0; if (rel) rel = ef <= rt * f0; if (rel) { double a = dmax(rt, 1e-6), b = dmin(1., c0); rel = ec <= a * b; }
  if (rel) { vf_assert(stop && A.solver_status_ == Solve_Success_RelTol, "relative tolerance"); vf_reach("reltol"); return; }
  vf_assert(A.solver_status_ != Solve_Success_RelTol, "relative tolerance only when it holds");
  bool acc = err <= at; int cnt = acc ? n0 + 1 : 0;
  vf_assert(A.n_accep_iters_ == cnt, "consecutive acceptable iterations counted");
  if (cnt >= na) { vf_assert(stop && A.solver_status_ == Solve_Acceptable_Level, "acceptable"); vf_reach("acceptable"); return; }
  vf_assert(!stop && A.solver_status_ == NlpSolve_Pending, "continues otherwise"); vf_reach("go_on");
}
// whole runs: fixed smooth data for gradients and constraints, arbitrary objective values
struct RunProb : DProb {
  int stop_at = -1, iters = 0; double last_inf_pr = 0, last_inf_du = 0, last_mu = 0;
  int fcall = 0; std::vector<DV> fv; // every evaluated point and its objective value
  RunProb() : DProb({K_BOTH, K_LOW}, {K_UPP}, true, false) {}
  void data() { xl[0] = 0; xu[0] = 4; xl[1] = -1; cu[0] = 3; A = {1, 1}; x0 = {1, 1}; }
  bool eval_f(const size_type&, const double* x, bool, double& o) { for (auto& e : fv) if (e[0] == x[0] && e[1] == x[1]) { o = e[2]; return true; } o = R("f" + std::to_string(fcall++)); vf_assume_le(o, 1e4); vf_assume_le(-1e4, o); fv.push_back({x[0], x[1], o}); return true; }
  bool eval_grad_f(const size_type&, const double* x, bool, double* gr) { gr[0] = 2 * (x[0] - 1.5); gr[1] = x[1] - 2; return true; }
  bool iterate_callback(int iter, double obj, double lb, int n_, const double* x, const double* zl, const double* zu, int mi, const double* s, int m_, const double* g, const double* lam, double ip, double id, double onp, double mu, double ad, double ap, int ls) {
    vf_assert(iter == iters, "iterations numbered from zero"); iters++;
    bool found = false; for (auto& e : fv) if (e[0] == x[0] && e[1] == x[1]) { found = true; vf_assert_eq(obj, e[2], "objective belongs to the iterate"); }
    vf_assert(found, "objective was evaluated at the iterate");
    vf_assert_eq(g[0], c(x, 0), "constraint value belongs to the iterate");
    last_inf_pr = ip; last_inf_du = id; last_mu = mu;
    return stop_at != iter;
  }
};
VF_HARNESS(run, 0, "max,stopped") {
  vfs_concrete = 1; RunProb p; p.data(); NlpFix<RunProb> F(p);
  int mi = vf_thorough() ? 3 : 2;
  char fr[] = "/tmp/vf_frXXXXXX"; int fd = mkstemp(fr); FILE* fo = fdopen(fd, "w"); fprintf(fo, "max_iter 2\n"); fclose(fo);
  F.str("options_file_fr_prob", fr);
  F.nlp.options->SetIntegerValue("max_iter", mi); F.num("min_step_size", 0.2);
  p.stop_at = vf_choose("stop", mi + 2) - 1;
  F.init(); Alg A(&F.nlp);
  auto st = A.run(); unlink(fr);
  vf_note("status %d", (int)st);
  vf_assert(st == A.getSolveStatus(), "returned status kept");
  vf_assert(st != NlpSolve_Pending, "final status");
  vf_assert(p.sol_calls == 1 && p.sol_status == st, "solution callback gets the status");
  if (p.stop_at >= 0 && p.iters > p.stop_at) { vf_assert(st == User_Stopped, "user stop"); vf_assert(p.iters == p.stop_at + 1, "stopped right there"); vf_reach("stopped"); }
  else { vf_assert(st != User_Stopped, "not stopped by the user"); if (st == Max_Iter_Exceeded) { vf_assert(p.iters == mi + 1, "limit"); vf_reach("max"); } }
}

VF_HARNESS(run_restoration, 0, "restored") {
  vfs_concrete = 1; RunProb p; p.data(); p.x0 = {4, 6}; NlpFix<RunProb> F(p);
  F.nlp.options->SetIntegerValue("max_iter", 2); F.num("min_step_size", 0.2); F.str("force_resto", "yes");
  F.init(); Alg A(&F.nlp);
  auto st = A.run();
  vf_assert(st == A.getSolveStatus(), "returned status kept"); vf_assert(st != NlpSolve_Pending, "final status");
  vf_assert(p.sol_calls == 1 && p.sol_status == st, "solution callback gets the status");
  vf_reach("restored");
}
VF_HARNESS(run_quasi, 0, "iterated") { int cfg = vf_choose("cfg", 3); obs_run(OB_CB, false, cfg, cfg == 2 ? 3 : 2); } // whole quasi-Newton runs
VF_HARNESS(run_newton, 0, "iterated") { int cfg = vf_choose("cfg", 3); obs_run(OB_CB, true, cfg, cfg == 2 ? 3 : 2); } // whole Newton runs

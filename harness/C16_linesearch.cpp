// vf-bounds: whole runs of 2-3 iterations of both solvers (one equality, optionally one inequality) with arbitrary objective values at every evaluated point; acceptance decision: up to 2 filter entries, arbitrary infeasibilities, barrier values, step lengths, slopes, eta_phi and thresholds
#include "alg.hpp"
#include "runobs.hpp"
#include <unistd.h>
#include <stdlib.h>
static std::vector<int> KX{K_LOW, K_FREE}, KC{K_EQ, K_BOTH};
static const double gamma_theta = 1e-5, gamma_phi = 1e-8, s_theta = 1.1, s_phi = 2.3;
// the rule, from the statement
static int rule(double theta, double theta_t, double phi, double phi_t, double alpha, double slope, double eta, double theta_min, const std::vector<std::pair<double, double>>& filt, bool& in_filter) {
  in_filter = false; for (auto& e : filt) if (theta_t >= e.first && phi_t >= e.second) in_filter = true;
  if (in_filter) return 0;
  bool suff = theta_t <= (1 - gamma_theta) * theta; if (!suff) suff = phi_t <= phi - gamma_phi * theta;
  if (theta >= theta_min) return suff ? 1 : 0;
  bool sw = false; if (slope < 0) sw = alpha * pow(-slope, s_phi) > pow(theta, s_theta);
  if (sw) return phi_t <= phi + eta * alpha * slope ? 3 : 0;
  return suff ? 2 : 0;
}
VF_HARNESS(acceptance, 0, "far,close,armijo,rejected") {
  DProb p(KX, KC, true, false); NlpFix<> F(p); double eta = vf_in("eta_phi", 1e-8, .01); F.num("eta_phi", eta); F.init();
  Alg A(&F.nlp);
  A.theta_min = vf_pos("theta_min");
  std::vector<std::pair<double, double>> f;
  int k = vf_choose("entries", 3); for (int i = 0; i < k; i++) { double t = vf_nonneg("ft"), ph = R("fp"); A.filter.add(t, ph); f.push_back({t, ph}); }
  double phi = A.logbar->f_logbar = R("phi"), phit = A.logbar->f_logbar_trial = R("phi_trial");
  double th = vf_nonneg("theta"), tht = vf_nonneg("theta_trial"), al = vf_in("alpha", 1e-9, 1.), sl = R("slope");
  bool comp = true; double s = sl;
  int r = A.accept_line_search_conditions(th, tht, al, comp, s);
  bool inf; int e = rule(th, tht, phi, phit, al, sl, eta, A.theta_min, f, inf);
  vf_assert((r > 0) == (e > 0), "accepted exactly when the rule says so");
  if (e > 0) vf_assert(r == e, "reported kind of acceptance decides whether the filter is augmented");
  vf_assert_eq(s, sl, "slope reused");
  vf_assert_eq(A.logbar->f_logbar, phi, "current barrier value untouched"); vf_assert(A.filter.entries.size() == f.size(), "filter untouched by the test");
  vf_reach(e == 0 ? "rejected" : e == 1 ? "far" : e == 2 ? "close" : "armijo");
}
// slope evaluated on demand with the search direction
VF_HARNESS(slope_on_demand, 0, "done") {
  DProb p({K_BOTH, K_LOW}, {}, true, false); NlpFix<> F(p); F.init();
  Alg A(&F.nlp);
  hiopNlpFormulation& N = F.nlp;
  interior(N, *A.it_curr); any_dir(N, *A.dir);
  hiopVector* g = N.alloc_primal_vec(); fill(g, "gr"); hiopVector *c = N.alloc_dual_eq_vec(), *d = N.alloc_dual_ineq_vec(); hiopMatrix *Jc = N.alloc_Jac_c(), *Jd = N.alloc_Jac_d();
  double mu = vf_pos("mu");
  A.logbar->kappa_d = 0; A.logbar->updateWithNlpInfo(*A.it_curr, mu, 0., *c, *d, *g, *Jc, *Jd);
  double sl = 0; for (int i = 0; i < 2; i++) { double v = D(g)[i]; if (N.get_ixl().local_data_const()[i] == 1.) v = v - mu / D(A.it_curr->sxl)[i]; if (N.get_ixu().local_data_const()[i] == 1.) v = v + mu / D(A.it_curr->sxu)[i]; sl = sl + v * D(A.dir->x)[i]; }
  A.theta_min = 1.; bool comp = false; double s = -77;
  double phi = A.logbar->f_logbar, phit = A.logbar->f_logbar_trial = R("phi_trial");
  A.accept_line_search_conditions(0., 1., 1., comp, s);
  vf_assert(comp, "slope computed"); vf_assert_eq(s, sl, "slope is the barrier gradient along the direction");
  vf_assert_eq(A.logbar->f_logbar, phi, "barrier value kept");
  vf_reach("done");
}
VF_HARNESS(moving_limits, 0, "rel,abs,none") {
  DProb p(KX, KC, true, false); NlpFix<> F(p);
  int k = vf_choose("mode", 3); double L = 0;
  if (k == 1) { L = vf_in("rel", 1e-6, 1.); F.num("moving_lim_rel", L); }
  if (k == 2) { L = vf_in("abs", 1e-6, 1e6); F.num("moving_lim_abs", L); }
  F.init(); Alg A(&F.nlp);
  any_dir(F.nlp, *A.dir);
  double a0 = vf_in("alpha", 1e-9, 1.), a = a0;
  bool r = A.ensure_moving_lims(*A.it_curr, *A.dir, a);
  double nx = 0; for (int i = 0; i < 2; i++) nx = dmax(nx, dabs_(D(A.dir->x)[i]));
  vf_assert_le(a, a0, "never lengthened"); vf_assert_lt(0, a, "still positive");
  if (k == 0) { vf_assert(!r, "no limit"); vf_assert_eq(a, a0, "no limit"); }
  if (k == 1) { vf_assert(r, "relative limit"); vf_assert_eq(a, L * a0, "relative limit"); }
  if (k == 2) { if (a0 * nx > L) vf_assert(r, "absolute limit active"); else { vf_assert(!r, "absolute limit inactive"); vf_assert_eq(a, a0, "absolute limit inactive"); } vf_assert_le(a * nx, L, "absolute limit respected"); }
  vf_reach(k == 1 ? "rel" : k == 2 ? "abs" : "none");
}
// whole quasi-Newton runs: concrete smooth data, arbitrary objective value at every evaluated point
struct LSP : DProb {
  hiopAlgFilterIPMBase* A = nullptr; bool on = false, fresh = true, nols = false; std::vector<DV> fv, tr;
  DV xp, dx, dp, dd; double keps = 0, thp = 0, php = 0, sl = 0, a0 = 0, mu = -1, al = 0; int cleared = 0, nrej = 0, acc = 0, aug = 0, soc = 0; bool insoc = false;
  std::vector<std::pair<double, double>> filt;
  LSP(bool ineq = false) : DProb({K_BOTH, K_LOW}, ineq ? std::vector<int>{K_EQ, K_UPP} : std::vector<int>{K_EQ}, true, true) { xl[0] = 0; xu[0] = 4; xl[1] = -1; cl[0] = cu[0] = 2.75; if (ineq) cu[1] = 6; A_(); }
  void A_() { DProb::A = {1, 1}; g = {1, 1}; h = {0, 0}; Q = {1, .5}; if (m > 1) { DProb::A.insert(DProb::A.end(), {1, 2}); Q.insert(Q.end(), {0.25, 0}); h = {2, 1}; } x0 = {1, 1}; }
  double theta(const double* x, double a) const { double v = dabs_(c(x, 0) - cl[0]); if (m > 1) v += dabs_(c(x, 1) - (dp[0] + a * dd[0])); return v; }
  int judge(double tht, double pht, double alpha) { bool inf; bool big = tht >= A->theta_max; int r = rule(thp, tht, php, pht, alpha, sl, A->nlp->options->GetNumeric("eta_phi"), A->theta_min, filt, inf); return big ? 0 : r; }
  bool eval_f(const size_type&, const double* x, bool, double& o) {
    if (on && A->solver_status_ != NlpSolve_Pending) on = false; // restoration
    if (on) {
      if (fresh) {
        fresh = false; tr.clear(); nrej = 0; insoc = false;
        if (A->_mu != mu) { if (filt.size()) cleared++; filt.clear(); mu = A->_mu; vf_assert(!A->filter.contains(A->theta_max * 0.5, 1e15), "the filter starts afresh with a new barrier parameter"); }
        xp = get(*A->it_curr->x); dx = get(*A->dir->x); dp = get(*A->it_curr->d); dd = get(*A->dir->d); thp = theta(xp.data(), 0); php = A->logbar->f_logbar; sl = A->logbar->directionalDerivative(*A->dir);
        double ap, ad; A->it_curr->fractionToTheBdry(*A->dir, A->_tau, ap, ad); a0 = al = ap;
      } else {
        int r = judge(theta(tr.back().data(), insoc ? A->_alpha_primal : al), A->logbar->f_logbar_trial, al);
        vf_assert(r == 0, "a trial that makes sufficient progress is taken");
        bool line = true; for (int i = 0; i < n && line; i++) { double want = xp[i] + al * 0.5 * dx[i]; line = dabs_(x[i] - want) <= 1e-9 * (1 + dabs_(want)); }
        if (line) { al = al * 0.5; nrej++; insoc = false; } else { insoc = true; soc++; }
      }
      if (!insoc) for (int i = 0; i < n; i++) { double want = xp[i] + al * dx[i]; vf_assert_le(dabs_(x[i] - want), 1e-9 * (1 + dabs_(want)), "trial lies on the direction, steps halve from the boundary limit"); }
      else { vf_assert(nrej == 0, "correction only at the first step length"); }
      tr.push_back(DV(x, x + n));
    }
    for (auto& e : fv) if (e[0] == x[0] && e[1] == x[1]) { o = e[2]; return true; }
    o = R("f"); vf_assume_le(o, 1e4); vf_assume_le(-1e4, o); fv.push_back({x[0], x[1], o}); return true; }
  bool eval_grad_f(const size_type&, const double* x, bool, double* gr) { gr[0] = 2 * (x[0] - 1.5); gr[1] = x[1] - 2; return true; }
  bool iterate_callback(int iter, double obj, double lb, int n_, const double* x, const double* zl, const double* zu, int mi, const double* s, int m_, const double* gg, const double* lam, double ip, double id, double onp, double mu_, double ad, double ap, int ls) {
    if (iter == 0) { on = true; fresh = true; return true; }
    if (!on) return false;
    acc++;
    if (nols) { vf_assert(tr.size() == 1, "one trial only"); fresh = true; return true; }
    double tht = theta(tr.back().data(), insoc ? A->_alpha_primal : al), pht = A->logbar->f_logbar_trial;
    for (int i = 0; i < n; i++) vf_assert_eq(x[i], tr.back()[i], "the accepted trial becomes the iterate");
    int r = judge(tht, pht, al);
    vf_assert(r > 0, "accepted step makes sufficient progress");
    bool sw = false; if (sl < 0) sw = al * pow(-sl, s_phi) > pow(thp, s_theta);
    double afin = insoc ? A->_alpha_primal : al;
    bool ar = pht <= php + A->nlp->options->GetNumeric("eta_phi") * al * sl;
    if (!insoc) { bool f = sw && ar; bool has = A->filter.contains(tht, pht); vf_assert(has == !f, "filter augmented unless the f-type conditions hold"); if (!f) { filt.push_back({tht, pht}); aug++; } }
    else { if (A->filter.contains(tht, pht)) filt.push_back({tht, pht}); }
    fresh = true; return true;
  }
};
struct LSM : MProb {
  LSP& o; LSM(LSP& o_) : MProb(o_, 1, std::vector<int>(o_.n * o_.m, 1)), o(o_) {}
  bool iterate_callback(int iter, double obj, double lb, int n_, const double* x, const double* zl, const double* zu, int mi, const double* s, int m_, const double* gg, const double* lam, double ip, double id, double onp, double mu, double ad, double ap, int ls) { return o.iterate_callback(iter, obj, lb, n_, x, zl, zu, mi, s, m_, gg, lam, ip, id, onp, mu, ad, ap, ls); }
};
template <class F_, class AL> static void lsgo(LSP& p, F_& F, bool soc_, bool nols, int mi, double minstep) {
  p.nols = nols; vfs_inertia = p.m;
  char fr[] = "/tmp/vf_frXXXXXX"; int fd = mkstemp(fr); FILE* fo = fdopen(fd, "w"); fprintf(fo, "max_iter 1\n"); fclose(fo);
  F.str("options_file_fr_prob", fr); F.nlp.options->SetIntegerValue("max_iter", mi); F.num("min_step_size", minstep);
  if (!soc_) F.nlp.options->SetIntegerValue("max_soc_iter", 0);
  if (p.keps > 0) F.num("kappa_eps", p.keps);
  if (nols) F.str("accept_every_trial_step", "yes");
  F.init(); AL A(&F.nlp); p.A = &A;
  auto st = A.run(); unlink(fr);
  if (!p.on) { vf_assert_lt(p.al * 0.5, minstep, "restoration only when the step became too small"); vf_reach("restoration"); }
  else { vf_assert(st == Max_Iter_Exceeded || st == Solve_Success, "ran through"); if (p.aug) vf_reach("augmented"); if (p.acc > p.aug) vf_reach("ftype"); }
  if (p.soc) vf_reach("corrected"); if (p.cleared) vf_reach("cleared");
}
static void lsrun(bool soc_, bool nols, int mi, double minstep, bool newton = false, bool ineq = false, double keps = 0) {
  vfs_concrete = 1; LSP p(ineq); p.keps = keps; if (keps > 0) p.cl[0] = p.cu[0] = 2.5;
  if (newton) { LSM q(p); NlpFix<LSM, hiopNlpMDS> F(q); F.str("Hessian", "analytical_exact"); F.str("duals_update_type", "linear"); lsgo<NlpFix<LSM, hiopNlpMDS>, AlgN>(p, F, soc_, nols, mi, minstep); }
  else { NlpFix<LSP> F(p); lsgo<NlpFix<LSP>, Alg>(p, F, soc_, nols, mi, minstep); }
}
VF_HARNESS(run, 0, "restoration,augmented") { lsrun(false, false, vf_thorough() ? 3 : 2, 0.2); }
VF_HARNESS(run_soc, 0, "restoration,augmented,corrected") { lsrun(true, false, vf_thorough() ? 3 : 2, 0.4); }
VF_HARNESS(run_no_linesearch, 0, "") { lsrun(false, true, 3, 0.2); }
VF_HARNESS(run_newton, 0, "restoration,augmented") { lsrun(false, false, vf_thorough() ? 3 : 2, 0.2, true, true); }
VF_HARNESS(run_newton_soc, 0, "restoration,augmented,corrected") { lsrun(true, false, 2, 0.4, true, false); }
VF_HARNESS(run_ineq, 0, "restoration,augmented") { lsrun(false, false, 2, 0.2, false, true); }
VF_HARNESS(run_mu, 0, "augmented,cleared") { lsrun(false, false, 3, 0.4, vf_choose("newton", 2), vf_choose("ineq", 2), 100.); } // the barrier parameter changes: the filter starts afresh

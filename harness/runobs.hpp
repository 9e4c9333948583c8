// whole solver runs observed through the iteration callback: what one iteration hands to the next
#ifndef RUNOBS_HPP
#define RUNOBS_HPP
#include "alg.hpp"
#include "sm.hpp"
#include "vfstub.h"
#include <unistd.h>
#include <stdlib.h>
enum { OB_STEP = 1, OB_DUAL = 2, OB_SLACK = 4, OB_MU = 8, OB_CB = 16, OB_RES = 32, OB_LOG = 64, OB_REG = 128, OB_MULT = 256, OB_DIR = 512 };
static inline void near_(double a, double b, const char* w, double rel = 1e-8) { double t = rel * (1 + dabs_(b)); vf_assert_le(a - b, t, w); vf_assert_le(b - a, t, w); }
// concrete smooth data, arbitrary objective value at every evaluated point
struct ObsP : DProb {
  hiopAlgFilterIPMBase* A = nullptr; int what; bool on = true, linear = true, newton = false; double t0 = 1.5; int seen_it = 0, adjusted = 0, reduced = 0;
  std::vector<DV> fv; DV px, pd, py, pz[4], ps[4]; double pmu = -1;
  ObsP(int what_, std::vector<int> kc) : DProb({K_BOTH, K_LOW}, kc, true, false), what(what_) {
    xl[0] = 0; xu[0] = 4; xl[1] = -1; DProb::A.assign(n * m, 0.); for (int j = 0; j < m; j++) { if (kc[j] == K_EQ) { cl[j] = cu[j] = 2.75; DProb::A[j * n] = 1; DProb::A[j * n + 1] = 0.5; } if (kc[j] & K_LOW) cl[j] = -2; if (kc[j] & K_UPP) cu[j] = 3; if (kc[j] != K_EQ) DProb::A[j * n] = DProb::A[j * n + 1] = 1; }
    g = {1, 1}; quad = true; h = {2, 1}; Q.assign(n * m, 0.); x0 = {1, 1}; }
  bool eval_f(const size_type&, const double* x, bool, double& o) {
    if (A && A->solver_status_ != NlpSolve_Pending) on = false; // restoration
    for (auto& e : fv) if (e[0] == x[0] && e[1] == x[1]) { o = e[2]; return true; }
    o = R("f"); vf_assume_le(o, 1e4); vf_assume_le(-1e4, o); fv.push_back({x[0], x[1], o}); return true; }
  bool eval_grad_f(const size_type&, const double* x, bool, double* gr) { gr[0] = 2 * (x[0] - t0); gr[1] = x[1] - 2; return true; }
  bool cb(int iter, double obj, double lb, const double* x, const double* zl, const double* zu, const double* s, const double* gg, const double* lam, double ip, double id, double onp, double mu, double ad, double ap, int ls) {
    if (iter == 0) on = true;
    if (!on) return false;
    hiopNlpFormulation& N = *A->nlp; hiopIterate& it = *A->it_curr; seen_it++;
    hiopVector* Z[4] = {it.zl, it.zu, it.vl, it.vu}; hiopVector* S[4] = {it.sxl, it.sxu, it.sdl, it.sdu}; hiopVector* DZ[4] = {A->dir->zl, A->dir->zu, A->dir->vl, A->dir->vu}; hiopVector* DS[4] = {A->dir->sxl, A->dir->sxu, A->dir->sdl, A->dir->sdu};
    const hiopVector* P[4] = {&N.get_ixl(), &N.get_ixu(), &N.get_idl(), &N.get_idu()}; const hiopVector* Bd[4] = {&N.get_xl(), &N.get_xu(), &N.get_dl(), &N.get_du()};
    DV X = get(*it.x), d = get(*it.d), dx = get(*A->dir->x), dd = get(*A->dir->d), yc = get(*it.yc), yd = get(*it.yd);
    int mi = d.size(), me = yc.size();
    if (iter > 0) {
      double tau = A->_tau, wp = 1, wd = 1;
      for (int b = 0; b < 4; b++) for (size_t i = 0; i < ps[b].size(); i++) if (D(const_cast<hiopVector*>(P[b]))[i] == 1.) { double v = D(DZ[b])[i]; if (v < 0) wd = dmin(wd, -tau * pz[b][i] / v); v = D(DS[b])[i]; if (v < 0) wp = dmin(wp, -tau * ps[b][i] / v); }
      if (what & OB_STEP) {
        near_(ad, wd, "dual step of the iteration is the largest one to the boundary"); vf_assert_le(ap, wp * (1 + 1e-9), "primal step of the iteration stays inside the boundary");
        for (int i = 0; i < n; i++) near_(X[i], px[i] + ap * dx[i], "new point is the old one plus the primal step");
        for (int i = 0; i < mi; i++) near_(d[i], pd[i] + ap * dd[i], "new inequality body is the old one plus the primal step"); }
      if (what & OB_DUAL) for (int b = 0; b < 4; b++) for (size_t i = 0; i < pz[b].size(); i++) {
        if (D(const_cast<hiopVector*>(P[b]))[i] != 1.) { vf_assert_eq(D(Z[b])[i], 0., "no multiplier without a bound"); continue; }
        double z = pz[b][i] + ad * D(DZ[b])[i], q = mu / D(S[b])[i], lo = q / A->kappa_Sigma, hi = q * A->kappa_Sigma; z = dmin(dmax(z, lo), hi);
        near_(D(Z[b])[i], z, "new bound multiplier is the dual step, kept in the neighbourhood"); }
      if (what & OB_MULT && linear) { DV y = yc, dy = get(*A->dir->yc), e = get(*A->dir->yd); y.insert(y.end(), yd.begin(), yd.end()); dy.insert(dy.end(), e.begin(), e.end()); for (size_t i = 0; i < y.size(); i++) near_(y[i], py[i] + ap * dy[i], "new constraint multiplier is the old one plus the step"); }
      if (what & OB_DIR) { // the Newton step of the current barrier problem, from the point it was taken at
        for (int b = 0; b < 4; b++) for (size_t i = 0; i < ps[b].size(); i++) if (D(const_cast<hiopVector*>(P[b]))[i] == 1.) { double dz = D(DZ[b])[i], ds = D(DS[b])[i], v = b < 2 ? dx[i] : dd[i], t = 1e-7 * (1 + pz[b][i] + dabs_(dz) * ps[b][i] + dabs_(ds) * pz[b][i] + mu); vf_assert_le(dabs_(pz[b][i] * ds + ps[b][i] * dz - (mu - ps[b][i] * pz[b][i])), t, "direction satisfies perturbed complementarity with the current barrier parameter"); near_(ds, b % 2 ? -v : v, "direction keeps slack = distance", 1e-6); }
        int q = 0; for (int j = 0; j < m; j++) { bool eq = kc[j] == K_EQ; double r = c(px.data(), j) - (eq ? cl[j] : pd[q]); for (int i = 0; i < n; i++) r = r + dc(px.data(), j, i) * dx[i]; if (!eq) r = r - dd[q++]; near_(r, 0, "direction satisfies the linearized constraints", 1e-6); } }
      if (what & OB_MU) { vf_assert_le(mu, pmu, "barrier parameter never increases"); if (mu < pmu) reduced++; }
      if (what & OB_REG && newton) vf_assert_eq(A->pd_perturb_->mu_, mu, "regularization of the iteration used its barrier parameter");
    }
    if (what & OB_MU) { double t = dmax(A->nlp->options->GetNumeric("tau_min"), 1 - mu); vf_assert_eq(A->_tau, t, "tau belongs to the barrier parameter"); vf_assert_eq(A->_mu, mu, "reported barrier parameter"); }
    if (what & OB_SLACK) for (int b = 0; b < 4; b++) for (size_t i = 0; i < S[b]->get_local_size(); i++) { if (D(const_cast<hiopVector*>(P[b]))[i] != 1.) continue;
      double v = b < 2 ? X[i] : d[i], bd = D(const_cast<hiopVector*>(Bd[b]))[i], w = b % 2 ? bd - v : v - bd, sl = D(S[b])[i]; if (!(sl > 0)) vf_note("it %d b %d i %d sl %g x %.17g bd %.17g", iter, b, (int)i, sl, v, bd); vf_assert_lt(0, sl, "slack positive"); vf_assert_le(dabs_(sl - w) / sl, 1e-6, "slack is the distance to the bound"); double ub = b == 0 ? xl[i] : b == 1 ? xu[i] : 0; if (b < 2 && bd != ub) adjusted++; }
    double f = 0; bool found = false; for (auto& e : fv) if (e[0] == X[0] && e[1] == X[1]) { f = e[2]; found = true; }
    if (what & OB_CB) {
      vf_assert(found, "objective was evaluated at the iterate"); vf_assert_eq(obj, f, "objective belongs to the iterate");
      for (int i = 0; i < n; i++) { vf_assert_eq(x[i], X[i], "reported point"); vf_assert_eq(zl[i], D(Z[0])[i], "reported lower bound multiplier"); vf_assert_eq(zu[i], D(Z[1])[i], "reported upper bound multiplier"); }
      int e = 0, q = 0; for (int j = 0; j < m; j++) { vf_assert_eq(gg[j], c(x, j), "constraint value belongs to the iterate"); vf_assert_eq(lam[j], kc[j] == K_EQ ? yc[e++] : yd[q++], "reported constraint multiplier"); }
      for (int i = 0; i < mi; i++) vf_assert_eq(s[i], d[i], "reported inequality slack variable");
      vf_assert_eq(ap, A->_alpha_primal, "reported primal step"); vf_assert_eq(ad, A->_alpha_dual, "reported dual step"); }
    if (what & (OB_RES | OB_CB)) { // the error measures from the user's functions
      double feas = 0, opt = 0, one = 0; DV gr(n); eval_grad_f(n, X.data(), true, gr.data()); int e = 0, q = 0; for (int i = 0; i < n; i++) gr[i] = gr[i] - D(Z[0])[i] + D(Z[1])[i];
      for (int j = 0; j < m; j++) { bool eq = kc[j] == K_EQ; double r = c(X.data(), j) - (eq ? cl[j] : d[q]); feas = dmax(feas, dabs_(r)); one += dabs_(r); double y = eq ? yc[e] : yd[q]; for (int i = 0; i < n; i++) gr[i] = gr[i] + y * dc(X.data(), j, i); if (eq) e++; else { double t = -y - D(Z[2])[q] + D(Z[3])[q]; opt = dmax(opt, dabs_(t)); q++; } }
      for (int i = 0; i < n; i++) opt = dmax(opt, dabs_(gr[i]));
      near_(ip, feas, "reported infeasibility is that of the iterate"); near_(id, opt, "reported dual infeasibility is that of the iterate"); }
    if (what & OB_LOG && found) {
      double v = f, kd = A->logbar->kappa_d;
      for (int b = 0; b < 4; b++) for (size_t i = 0; i < S[b]->get_local_size(); i++) { auto on_ = [&](int k) { return D(const_cast<hiopVector*>(P[k]))[i] == 1.; }; if (!on_(b)) continue; v = v - mu * log(D(S[b])[i]); if (!on_(b ^ 1)) v = v + kd * mu * D(S[b])[i]; }
      vf_assert_le(dabs_(lb - v), 1e-6, "reported barrier objective is that of the iterate and barrier parameter"); }
    for (int b = 0; b < 4; b++) { pz[b] = get(*Z[b]); ps[b] = get(*S[b]); } px = X; pd = d; py = yc; py.insert(py.end(), yd.begin(), yd.end()); pmu = mu;
    return true;
  }
  bool iterate_callback(int iter, double obj, double lb, int n_, const double* x, const double* zl, const double* zu, int mi, const double* s, int m_, const double* gg, const double* lam, double ip, double id, double onp, double mu, double ad, double ap, int ls) { return cb(iter, obj, lb, x, zl, zu, s, gg, lam, ip, id, onp, mu, ad, ap, ls); }
};
struct ObsM : MProb {
  ObsP& o; ObsM(ObsP& o_) : MProb(o_, 1, std::vector<int>(o_.n * o_.m, 1)), o(o_) {}
  bool iterate_callback(int iter, double obj, double lb, int n_, const double* x, const double* zl, const double* zu, int mi, const double* s, int m_, const double* gg, const double* lam, double ip, double id, double onp, double mu, double ad, double ap, int ls) { return o.cb(iter, obj, lb, x, zl, zu, s, gg, lam, ip, id, onp, mu, ad, ap, ls); }
};
struct AlgN : hiopAlgFilterIPMNewton { AlgN(hiopNlpFormulation* n) : hiopAlgFilterIPMNewton(n) {} };
template <class F, class AL> static void obs_go(ObsP& p, F& fx, int mi, int cfg) {
  char fr[] = "/tmp/vf_frXXXXXX"; int fd = mkstemp(fr); FILE* fo = fdopen(fd, "w"); fprintf(fo, "max_iter 1\n"); fclose(fo);
  fx.str("options_file_fr_prob", fr); fx.nlp.options->SetIntegerValue("max_iter", mi); fx.nlp.options->SetIntegerValue("max_soc_iter", 0); fx.num("min_step_size", 0.4);
  if (cfg == 1) { fx.num("kappa1", 1e-16); fx.num("tau_min", 0.99999); p.x0 = {0, 1}; p.t0 = -2; } // starts next to a bound and is drawn to it: slacks get adjusted
  if (cfg == 2) { fx.num("mu0", 16.); fx.str("accept_every_trial_step", "yes"); }   // large barrier parameter: reduced right away
  if (cfg == 3) { fx.str("accept_every_trial_step", "yes"); fx.num("tau_min", 0.99999); for (int j = 0; j < p.m; j++) if (p.kc[j] == K_EQ) { p.cl[j] = p.cu[j] = -1; p.DProb::A[j * p.n + 1] = 0; } } // an equality pulls a variable through its bound: slacks get adjusted on the way
  fx.init(); AL A(&fx.nlp); p.A = &A; vfs_inertia = p.m;
  auto st = A.run(); unlink(fr); vf_note("status %d seen %d", (int)st, p.seen_it);
  if (p.seen_it > 1) vf_reach("iterated"); if (p.reduced) vf_reach("reduced"); if (p.adjusted) vf_reach("adjusted");
}
static inline void obs_run(int what, bool newton, int cfg, int mi) {
  vfs_concrete = 1; int k = cfg == 3 ? 1 + vf_choose("cons", 2) : vf_choose("cons", 3); ObsP p(what, k == 0 ? std::vector<int>{K_UPP} : k == 1 ? std::vector<int>{K_EQ} : std::vector<int>{K_BOTH, K_EQ}); p.newton = newton;
  if (newton) { ObsM q(p); NlpFix<ObsM, hiopNlpMDS> F(q); F.str("Hessian", "analytical_exact"); F.str("duals_update_type", "linear"); obs_go<NlpFix<ObsM, hiopNlpMDS>, AlgN>(p, F, mi, cfg); }
  else { NlpFix<ObsP> F(p); p.linear = vf_choose("linear", 2); F.str("duals_update_type", p.linear ? "linear" : "lsq"); obs_go<NlpFix<ObsP>, Alg>(p, F, mi, cfg); }
}
#endif

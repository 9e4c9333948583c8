// vf-bounds: one barrier update from arbitrary mu, kappa_mu, theta_mu choice, tau_min and tolerances; sequences of 3 updates (thorough 6); elastic tightening modes on a 1-variable, 1-inequality problem; whole runs of 2-3 iterations of both solvers on fixed problems (2 variables, 1-2 constraints; plain, started next to a bound, large barrier parameter with every trial step accepted) with arbitrary objective values
#include "alg.hpp"
#include "runobs.hpp"
static std::vector<int> KX{K_LOW}, KC{K_BOTH};
struct U { double mu, tau; bool ok; };
static U upd(Alg& A, double mu, bool elastic) { U u; u.mu = mu; u.tau = A._tau; A._mu = mu; u.ok = A.update_log_barrier_params(*A.it_curr, A._mu, A._tau, elastic, A._mu, A._tau); u.mu = A._mu; u.tau = A._tau; return u; }
static void rules(const U& u, double mu0, double tau0, double kmu, double thmu, double taumin, double floor_) {
  vf_assert_le(u.mu, mu0, "never increased");
  if (!u.ok) { vf_assert_eq(u.mu, mu0, "unchanged when it cannot decrease"); vf_assert_eq(u.tau, tau0, "tau unchanged"); return; }
  vf_assert_lt(u.mu, mu0, "strictly decreased");
  vf_assert_lt(0, u.mu, "positive");
  vf_assert_le(floor_, u.mu, "not below the floor");
  double lin = kmu * mu0, sup = pow(mu0, thmu), r = dmin(lin, sup);
  vf_assert_eq(u.mu, dmax(r, floor_), "smaller of the linear and superlinear rules, not below the floor");
  double t = dmax(taumin, 1 - u.mu);
  vf_assert_eq(u.tau, t, "tau is max(tau_min, 1-mu)"); vf_assert(0 < u.tau, "tau positive"); vf_assert(u.tau < 1, "tau below one");
}
VF_HARNESS(update, 0, "decreased,stuck") {
  DProb p(KX, KC, true, false); NlpFix<> F(p);
  double kmu = vf_in("kappa_mu", 1e-8, .999), taumin = vf_in("tau_min", .9, .99999), tol = vf_in("tolerance", 1e-12, .1), ctol = vf_in("comp_tol", 1e-12, 1.);
  double thmu = vf_choose("theta_mu", 2) ? 1.5 : 1.2;
  F.num("kappa_mu", kmu); F.num("tau_min", taumin); F.num("theta_mu", thmu);
  int sc = vf_choose("scaled", 2); if (sc) F.str("scaling_type", "gradient");
  F.init(); Alg A(&F.nlp); double os = 1;
  if (sc) { hiopVectorPar g(1), c(0), d(1); g.local_data()[0] = vf_in("gr", 101., 1e6); d.setToConstant(0.); hiopMatrix *Jc = F.nlp.alloc_Jac_c(), *Jd = F.nlp.alloc_Jac_d(); Jc->setToZero(); Jd->setToConstant(.5);
    vf_assert(F.nlp.apply_scaling(c, d, g, *Jc, *Jd), "scaled"); os = F.nlp.get_obj_scale(); vf_assert_eq(os * g.local_data()[0], 100., "objective scale"); }
  A.eps_tol = tol; A.comp_tol_ = ctol;
  double floor_ = dmin(tol, ctol / os) / 11.;
  double mu = vf_in("mu", 1e-15, 1000.), tau0 = A._tau;
  int N = vf_thorough() ? 3 : 2; bool ok = true;
  for (int i = 0; i < N && ok; i++) { tau0 = A._tau; U u = upd(A, mu, false); rules(u, mu, tau0, kmu, thmu, taumin, floor_); ok = u.ok; mu = u.mu; }
  vf_reach(ok ? "decreased" : "stuck");
}
// iterating reaches the floor and then reports that it cannot decrease (default parameters)
VF_HARNESS(monotone_to_floor, 0, "done") {
  DProb p(KX, KC, true, false); NlpFix<> F(p); F.init(); Alg A(&F.nlp);
  double mu = vf_in("mu", 1e-9, 1e-7), floor_ = dmin(F.nlp.options->GetNumeric("tolerance"), F.nlp.options->GetNumeric("comp_tol")) / 11.;
  bool ok = true; int k = 0;
  for (; k < 8 && ok; k++) { U u = upd(A, mu, false); ok = u.ok; vf_assert_le(u.mu, mu, "never increased"); mu = u.mu; }
  vf_assert(!ok, "stops"); vf_assert_le(mu, floor_ + 1e-15, "at the floor"); vf_assert_le(floor_, mu + 1e-15, "at the floor");
  vf_reach("done");
}
// elastic modes tighten the bounds between the initial and the final relaxation, never beyond
VF_HARNESS(elastic, 0, "done") {
  DProb p(KX, KC, true, false); NlpFix<> F(p);
  static const char* modes[] = {"tighten_bound", "correct_it", "correct_it_adjust_bound"};
  static const char* strat[] = {"mu_scaled", "mu_projected"};
  int m = vf_choose("mode", 3), st = vf_choose("strategy", 2);
  F.str("elastic_mode", modes[m]); F.str("elastic_bound_strategy", strat[st]);
  double r0 = 1e-2, r1 = 1e-8; F.num("elastic_mode_bound_relax_initial", r0); F.num("elastic_mode_bound_relax_final", r1); F.num("bound_relax_perturb", r0);
  F.init(); Alg A(&F.nlp); hiopNlpFormulation& N = F.nlp;
  double mu = vf_in("mu", 1e-7, 1.); vf_assume_lt(0, mu);
  // interior point of the tightest bounds, far enough away
  D(A.it_curr->x)[0] = p.xl[0] + vf_in("s0", 1., 10.); D(A.it_curr->d)[0] = p.cl[0] + (p.cu[0] - p.cl[0]) * 0.5; vf_assume_le(p.cl[0] + 2., p.cu[0]);
  A.it_curr->determineSlacks(); fill_pos(A.it_curr->zl, N.get_ixl(), "zl"); fill_pos(A.it_curr->vl, N.get_idl(), "vl"); fill_pos(A.it_curr->vu, N.get_idu(), "vu");
  A.it_trial->copyFrom(*A.it_curr);
  double tau0 = A._tau; U u = upd(A, mu, true);
  rules(u, mu, tau0, F.nlp.options->GetNumeric("kappa_mu"), F.nlp.options->GetNumeric("theta_mu"), F.nlp.options->GetNumeric("tau_min"), 1e-8 / 11.);
  double rel = D(N.get_xl())[0], bnd = p.xl[0], a = dmax(1., dabs_(bnd));
  vf_assert_le(rel, bnd, "relaxed bound not tighter than the user's"); vf_assert_le(bnd - r0 * a * 1.0000001, rel, "not relaxed by more than the initial amount"); vf_assert_le(rel, bnd - r1 * a * 0.9999999, "relaxed at least by the final amount");
  vf_reach("done");
}
VF_HARNESS(run_quasi, 0, "iterated") { int cfg = vf_choose("cfg", 3); obs_run(OB_MU, false, cfg, cfg == 2 ? 3 : 2); } // whole quasi-Newton runs
VF_HARNESS(run_newton, 0, "iterated") { int cfg = vf_choose("cfg", 3); obs_run(OB_MU, true, cfg, cfg == 2 ? 3 : 2); } // whole Newton runs

// vf-bounds: 3 variables of every bound kind in turn (free/lower/upper/both), 2 inequalities + 1 equality; 7 variables with 8 constraints and one symbolic position; arbitrary interior iterates, mu > 0, kappa_d >= 0; log is an uninterpreted function (equalities between log terms are structural); whole runs of 2-3 iterations of both solvers on fixed problems (2 variables, 1-2 constraints; plain, started next to a bound, large barrier parameter with every trial step accepted) with arbitrary objective values
#include "fix.hpp"
#include "runobs.hpp"
static double sum_logs(const hiopVector& s, const hiopVector& p) { double r = 0; for (int i = 0; i < s.get_local_size(); i++) if (D(p)[i] == 1.) r = r + log(D(s)[i]); return r; }
struct S {
  DProb p; NlpFix<> F; hiopIterate it; hiopVector *c, *d, *g; hiopMatrix *Jc, *Jd; double mu, kd, f; hiopLogBarProblem* lb;
  S(std::vector<int> kx, std::vector<int> kc) : p(kx, kc, true, false), F(p), it((F.init(), &F.nlp)) {
    free_slacks(F.nlp, it);
    c = F.nlp.alloc_dual_eq_vec(); d = F.nlp.alloc_dual_ineq_vec(); g = F.nlp.alloc_primal_vec(); Jc = F.nlp.alloc_Jac_c(); Jd = F.nlp.alloc_Jac_d();
    fill(c, "cv"); fill(d, "dv"); fill(g, "gr"); f = R("f"); mu = vf_pos("mu");
    lb = new hiopLogBarProblem(&F.nlp);
    kd = vf_choose("kd", 2) ? vf_pos("kappa_d") : 0.;
    lb->kappa_d = kd;
    lb->updateWithNlpInfo(it, mu, f, *c, *d, *g, *Jc, *Jd);
  }
  double value(const hiopIterate& w) {
    hiopNlpFormulation& n = F.nlp;
    double v = f - mu * (sum_logs(*w.sxl, n.get_ixl()) + sum_logs(*w.sxu, n.get_ixu()) + sum_logs(*w.sdl, n.get_idl()) + sum_logs(*w.sdu, n.get_idu()));
    auto damp = [&](const hiopVector* s, const hiopVector& a, const hiopVector& b) { for (int i = 0; i < s->get_local_size(); i++) if (D(a)[i] == 1. && D(b)[i] == 0.) v = v + kd * mu * D(*s)[i]; };
    damp(w.sxl, n.get_ixl(), n.get_ixu()); damp(w.sxu, n.get_ixu(), n.get_ixl()); damp(w.sdl, n.get_idl(), n.get_idu()); damp(w.sdu, n.get_idu(), n.get_idl());
    return v;
  }
};
static std::vector<int> kx3() { return vf_thorough() ? kinds(3, "kx", {0, 1, 2, 3}) : std::vector<int>{vf_choose("kx0", 4), vf_choose("kx1", 4), K_BOTH}; }
static std::vector<int> kc3() { int a = 1 + vf_choose("kc", 3); return {a, K_EQ, 1 + a % 3}; }
static void value_gradient_of(S& s) {
  hiopNlpFormulation& n = s.F.nlp;
  vf_assert_eq(s.lb->f_logbar, s.value(s.it), "barrier value");
  auto gr = [&](const hiopVector* got, const hiopVector* base, const hiopVector* sl, const hiopVector* su, const hiopVector& il, const hiopVector& iu, const char* lab) {
    for (int i = 0; i < got->get_local_size(); i++) {
      double e = base ? D(*base)[i] : 0.;
      bool l = D(il)[i] == 1., u = D(iu)[i] == 1.;
      if (l) e = e - s.mu / D(*sl)[i];
      if (u) e = e + s.mu / D(*su)[i];
      if (l && !u) e = e + s.kd * s.mu;   // derivative of kd*mu*(x-l)
      if (u && !l) e = e - s.kd * s.mu;   // derivative of kd*mu*(u-x)
      vf_assert_eq(D(*got)[i], e, lab);
    }
  };
  gr(s.lb->_grad_x_logbar, s.g, s.it.sxl, s.it.sxu, n.get_ixl(), n.get_ixu(), "gradient with respect to x");
  gr(s.lb->_grad_d_logbar, nullptr, s.it.sdl, s.it.sdu, n.get_idl(), n.get_idu(), "gradient with respect to d");
}
VF_HARNESS(value_gradient, 0, "done") { S s(kx3(), kc3()); value_gradient_of(s); vf_reach("done"); }
static void trial_of(S& s) {
  hiopNlpFormulation& n = s.F.nlp;
  hiopIterate tr(&n);
  auto pos2 = [&](hiopVector* v, const hiopVector& p, const char* b) { fill_pos(v, p, b); };
  pos2(tr.sxl, n.get_ixl(), "tsxl"); pos2(tr.sxu, n.get_ixu(), "tsxu"); pos2(tr.sdl, n.get_idl(), "tsdl"); pos2(tr.sdu, n.get_idu(), "tsdu");
  double f2 = R("f2"), f1 = s.f;
  s.lb->updateWithNlpInfo_trial_funcOnly(tr, f2, *s.c, *s.d);
  s.f = f2;
  vf_assert_eq(s.lb->f_logbar_trial, s.value(tr), "trial barrier value");
  s.f = f1;
  vf_assert_eq(s.lb->f_logbar, s.value(s.it), "current barrier value kept");
  hiopIterate dir(&n); any_dir(n, dir);
  double e = 0;
  for (int i = 0; i < n.n(); i++) e = e + D(s.lb->_grad_x_logbar)[i] * D(dir.x)[i];
  for (int i = 0; i < n.m_ineq(); i++) e = e + D(s.lb->_grad_d_logbar)[i] * D(dir.d)[i];
  vf_assert_eq(s.lb->directionalDerivative(dir), e, "directional derivative is gradient dot direction");
  // damping terms added to other gradients
  hiopVector* gx = n.alloc_primal_vec(); fill(gx, "gx"); DV g0 = get(*gx); double beta = R("beta");
  s.lb->addNonLogBarTermsToGrad_x(beta, *gx);
  for (int i = 0; i < n.n(); i++) vf_assert_eq(D(gx)[i], g0[i] + beta * s.kd * s.mu * (D(n.get_ixl())[i] - D(n.get_ixu())[i]), "damping in the x gradient");
  hiopVector* gd = n.alloc_dual_ineq_vec(); fill(gd, "gd"); DV d0 = get(*gd);
  s.lb->addNonLogBarTermsToGrad_d(beta, *gd);
  for (int i = 0; i < n.m_ineq(); i++) vf_assert_eq(D(gd)[i], d0[i] + beta * s.kd * s.mu * (D(n.get_idl())[i] - D(n.get_idu())[i]), "damping in the d gradient");
}
VF_HARNESS(trial_and_directional, 0, "done") { S s(kx3(), kc3()); trial_of(s); vf_reach("done"); }
VF_HARNESS(large, 0, "done") { // every position in turn is symbolic, the others are fixed numbers
  vf_focus(7, vf_choose("focus", 7)); vf_fones_ = 1; // logarithms of the fixed slacks are exact
  static const int KX[] = {K_LOW, K_BOTH, K_FREE, K_UPP, K_BOTH, K_LOW, K_UPP}, KC[] = {K_EQ, K_LOW, K_EQ, K_BOTH, K_UPP, K_EQ, K_BOTH, K_LOW};
  S s(std::vector<int>(KX, KX + 7), std::vector<int>(KC, KC + 8));
  value_gradient_of(s);
  trial_of(s);
  vf_reach("done");
}
VF_HARNESS(run_quasi, 0, "iterated") { int cfg = vf_choose("cfg", 3); obs_run(OB_LOG, false, cfg, cfg == 2 ? 3 : 2); } // whole quasi-Newton runs
VF_HARNESS(run_newton, 0, "iterated") { int cfg = vf_choose("cfg", 3); obs_run(OB_LOG, true, cfg, cfg == 2 ? 3 : 2); } // whole Newton runs

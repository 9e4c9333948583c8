// vf-bounds: 2 variables and 2 inequalities of every bound kind (and 7 with 8 and one symbolic position), all bound values, perturbations and equality factors, sequences of 3 re-relaxations interleaved with bound adjustments, with and without problem scaling
#include "sm.hpp"
static std::vector<int> some(const char* b) { std::vector<int> a = {K_LOW, K_UPP, K_BOTH, K_FREE}; int k = vf_choose(b, 4); return {a[k], a[(k + 1) % 4]}; }
static double W(double p, double b) { return p * dmax(1., dabs_(b)); }
static void same(hiopNlpFormulation& N, const DV& xl, const DV& xu, const DV& dl, const DV& du, double p, const DV& s) {
  for (int i = 0; i < (int)xl.size(); i++) {
    if (D(N.get_ixl())[i] == 1.) vf_assert_eq(D(N.get_xl())[i], xl[i] - W(p, xl[i]), "lower bound");
    if (D(N.get_ixu())[i] == 1.) vf_assert_eq(D(N.get_xu())[i], xu[i] + W(p, xu[i]), "upper bound");
  }
  for (int i = 0; i < (int)dl.size(); i++) {
    if (D(N.get_idl())[i] == 1.) vf_assert_eq(D(N.get_dl())[i], s[i] * (dl[i] - W(p, dl[i])), "lower side of inequality");
    if (D(N.get_idu())[i] == 1.) vf_assert_eq(D(N.get_du())[i], s[i] * (du[i] + W(p, du[i])), "upper side of inequality");
  }
}
VF_HARNESS(initial, 0, "relaxed") {
  DProb p(some("kx"), some("kc"), true, false); int el = vf_choose("elastic", 2);
  double per = vf_in("per", 1e-12, 100.), ini = vf_in("ini", 1e-8, 0.1);
  NlpFix<> F(p); F.num("bound_relax_perturb", per); F.num("elastic_mode_bound_relax_initial", ini); if (el) F.str("elastic_mode", "tighten_bound"); F.init();
  same(F.nlp, p.xl, p.xu, p.cl, p.cu, el ? ini : per, {1., 1.});
  // every originally feasible point stays feasible
  vf_reach("relaxed");
}
VF_HARNESS(again, 0, "tightened") {
  DProb p(some("kx"), some("kc"), true, false);
  double per = vf_in("per", 1e-12, 100.);
  NlpFix<> F(p); F.num("bound_relax_perturb", per); F.init(); auto& N = F.nlp; int m = N.m_ineq();
  int adj = vf_choose("adjust", 2);
  for (int k = 0; k < 3; k++) {
    if (adj && k == 1) { hiopIterate it(&N); free_slacks(N, it); N.adjust_bounds(it); }
    double q = vf_in(nm("q", k).c_str(), 0., 10.); N.reset_bounds(q);
    same(N, p.xl, p.xu, p.cl, p.cu, q, DV(m, 1.));
  }
  vf_reach("tightened");
}
// the same with scaled constraints: the bounds of the scaled problem are relaxed before they are scaled
VF_HARNESS(scaled, 0, "scaled") {
  DProb p({K_BOTH, K_FREE}, {K_LOW, K_BOTH, K_EQ}, true, false);
  NlpFix<> F(p); F.num("bound_relax_perturb", 0.01); F.str("scaling_type", "gradient"); F.init(); auto& N = F.nlp;
  hiopVector *c = N.alloc_dual_eq_vec(), *d = N.alloc_dual_ineq_vec(), *g = N.alloc_primal_vec(); hiopMatrix *Jc = N.alloc_Jac_c(), *Jd = N.alloc_Jac_d();
  c->setToZero(); d->setToZero(); g->setToConstant(1.);
  double* jc = dynamic_cast<hiopMatrixDenseRowMajor*>(Jc)->local_data(); double* jd = dynamic_cast<hiopMatrixDenseRowMajor*>(Jd)->local_data();
  double v[6] = {400., 1., 2., 3., -1600., 0.}; for (int i = 0; i < 4; i++) jd[i] = v[i]; jc[0] = v[4]; jc[1] = v[5];
  int sc = vf_choose("rows", 2); if (sc) { jd[2] = 0.; jd[3] = -800.; }
  bool ok = N.apply_scaling(*c, *d, *g, *Jc, *Jd); vf_assert(ok, "scaling applied");
  DV s = {0.25, sc ? 0.125 : 1.};
  same(N, p.xl, p.xu, {p.cl[0], p.cl[1]}, {p.cu[0], p.cu[1]}, 0.01, s);
  vf_assert_eq(D(N.get_crhs())[0], p.cl[2] * 0.0625, "right-hand side scaled");
  double q = vf_in("q", 0., 10.); N.reset_bounds(q);
  same(N, p.xl, p.xu, {p.cl[0], p.cl[1]}, {p.cu[0], p.cu[1]}, q, s);
  vf_reach("scaled");
}
VF_HARNESS(equalities, 0, "widened") {
  DProb p({K_FREE, K_LOW}, vf_choose("order", 2) ? std::vector<int>{K_EQ, K_LOW, K_EQ} : std::vector<int>{K_BOTH, K_EQ, K_UPP}, true, false);
  double f = vf_in("eqf", 1e-15, 1.); double per = vf_choose("brp", 2) ? vf_in("per", 1e-9, 1.) : 0.;
  SProb q(p, {1, 1, 1, 1, 1, 1}); hiopNlpSparseIneq N(q); N.options->SetIntegerValue("verbosity_level", 0); N.options->SetNumericValue("bound_relax_perturb", per); N.options->SetNumericValue("eq_relax_factor", f); N.options->SetStringValue("scaling_type", "none");
  bool ok = N.finalizeInitialization(); vf_assert(ok && N.m_ineq() == 3 && N.m_eq() == 0, "init");
  for (int i = 0; i < 3; i++) {
    double l = p.cl[i], u = p.cu[i];
    if (p.kc[i] == K_EQ) { l = l - W(f, p.cl[i]); u = u + W(f, p.cu[i]); }
    if (p.kc[i] & 1 || p.kc[i] == K_EQ) vf_assert_eq(D(N.get_dl())[i], l - W(per, l), "lower side");
    if (p.kc[i] & 2 || p.kc[i] == K_EQ) vf_assert_eq(D(N.get_du())[i], u + W(per, u), "upper side");
    vf_assert(N.cons_ineq_mapping_->local_data()[i] == i, "order kept");
  }
  vf_reach("widened");
}
VF_HARNESS(large, 0, "tightened") { // 7 variables, 8 constraints
  int f = vf_choose("focus", 8); vf_focus(8, f); int rot = vf_choose("kinds", 2);
  std::vector<int> kx(7), kc(8); for (int i = 0; i < 7; i++) kx[i] = (i * 3 + rot * 2 + i / 3 + 1) % 4; for (int i = 0; i < 8; i++) kc[i] = 1 + (i * 2 + rot + i / 4) % 3;
  DProb p(kx, kc, true, false); vf_focus(0, 0);
  double per = vf_in("per", 1e-12, 100.);
  NlpFix<> F(p); F.num("bound_relax_perturb", per); F.init(); auto& N = F.nlp;
  same(N, p.xl, p.xu, p.cl, p.cu, per, DV(8, 1.));
  double q = vf_in("q", 0., 10.); N.reset_bounds(q);
  same(N, p.xl, p.xu, p.cl, p.cu, q, DV(8, 1.));
  vf_reach("tightened");
}

// vf-bounds: 2 variables and 2 inequalities with arbitrary bounds, and one arbitrary pair among 8 variables and 7 inequalities (any real below 1e20 / above -1e20, and IEEE infinities), dense and inequality-only sparse formulations
#include "sm.hpp"
// a lower/upper pair: symbolic, or with an infinite side
static void pair(double& l, double& u, const char* b, int i, int mode) {
  double a = R(std::string(b) + "l" + std::to_string(i)), c = R(std::string(b) + "u" + std::to_string(i));
  vf_assume_lt(a, 1e20); vf_assume_lt(-1e20, c); vf_assume_le(a, c);
  const double inf = std::numeric_limits<double>::infinity();
  l = mode == 1 || mode == 3 ? -inf : a; u = mode == 2 || mode == 3 ? inf : c;
}
static void counts(hiopNlpFormulation& N, const DV& xl, const DV& xu) {
  size_type lo = 0, up = 0, lu = 0; int n = xl.size();
  for (int i = 0; i < n; i++) {
    bool a = -1e20 < xl[i], b = xu[i] < 1e20;
    vf_assert_eq(D(N.get_ixl())[i], a ? 1. : 0., "lower pattern"); vf_assert_eq(D(N.get_ixu())[i], b ? 1. : 0., "upper pattern");
    lo += a; up += b; lu += a && b;
  }
  vf_assert(N.n_low() == lo && N.n_low_local() == lo, "count of lower bounds"); vf_assert(N.n_upp() == up && N.n_upp_local() == up, "count of upper bounds");
  vf_assert(N.n_bnds_lu_ == lu, "count of two-sided bounds");
  vf_assert(N.n_complem() == lo + up + N.n_ineq_low_ + N.n_ineq_upp_, "count of complementarity pairs");
}
static void icounts(hiopNlpFormulation& N, const DV& l, const DV& u) {
  size_type lo = 0, up = 0, lu = 0;
  for (size_t i = 0; i < l.size(); i++) {
    bool a = -1e20 < l[i], b = u[i] < 1e20;
    vf_assert_eq(D(N.get_idl())[i], a ? 1. : 0., "lower pattern of inequalities"); vf_assert_eq(D(N.get_idu())[i], b ? 1. : 0., "upper pattern of inequalities");
    lo += a; up += b; lu += a && b;
  }
  vf_assert(N.m_ineq_low() == lo && N.m_ineq_upp() == up && N.n_ineq_lu_ == lu, "counts of inequality sides");
}
// free sides have zero slacks and multipliers after every initialization
static void zeros(hiopNlpFormulation& N) {
  hiopIterate it(&N); fill(it.x, "x"); fill(it.d, "d");
  it.determineSlacks(); it.setBoundsDualsToConstant(1.);
  for (int k = 0; k < 2; k++) {
    if (k) { it.determineDualsBounds_d(0.5); it.adjustDuals_primalLogHessian(0.1, 1e10); }
    struct { hiopVector *s, *z; const hiopVector& p; } t[4] = {{it.sxl, it.zl, N.get_ixl()}, {it.sxu, it.zu, N.get_ixu()}, {it.sdl, it.vl, N.get_idl()}, {it.sdu, it.vu, N.get_idu()}};
    for (auto& q : t) for (int i = 0; i < q.s->get_local_size(); i++) if (D(q.p)[i] == 0.) { vf_assert_eq(D(q.s)[i], 0., "free side has no slack"); vf_assert_eq(D(q.z)[i], 0., "free side has no multiplier"); }
    if (!k) { // keep determineDualsBounds_d away from division by zero
      for (int i = 0; i < it.sdl->get_local_size(); i++) { if (D(N.get_idl())[i] == 1.) vf_assume_lt(1e-3, D(it.sdl)[i]); if (D(N.get_idu())[i] == 1.) vf_assume_lt(1e-3, D(it.sdu)[i]); }
      for (int i = 0; i < it.sxl->get_local_size(); i++) { if (D(N.get_ixl())[i] == 1.) vf_assume_lt(1e-3, D(it.sxl)[i]); if (D(N.get_ixu())[i] == 1.) vf_assume_lt(1e-3, D(it.sxu)[i]); }
    }
  }
}
VF_HARNESS(variables, 0, "classified") {
  DProb p({K_FREE, K_FREE}, {}, true, false);
  int m0 = vf_choose("m0", 4), m1 = vf_choose("m1", 2);
  pair(p.xl[0], p.xu[0], "x", 0, m0); pair(p.xl[1], p.xu[1], "x", 1, m1 ? 3 : 0);
  NlpFix<> F(p); F.str("fixed_var", "relax"); F.init();
  counts(F.nlp, p.xl, p.xu); vf_reach("classified");
}
VF_HARNESS(inequalities, 0, "classified") {
  DProb p({K_FREE, K_LOW}, {K_FREE, K_FREE}, true, false);
  int m0 = vf_choose("m0", 4), m1 = vf_choose("m1", 2);
  pair(p.cl[0], p.cu[0], "c", 0, m0); pair(p.cl[1], p.cu[1], "c", 1, m1 ? 3 : 0);
  if (m0 == 0) vf_assume_lt(p.cl[0], p.cu[0]);
  if (!m1) vf_assume_lt(p.cl[1], p.cu[1]);
  NlpFix<> F(p); F.init();
  icounts(F.nlp, p.cl, p.cu); counts(F.nlp, {-INF, p.xl[1]}, {INF, INF}); vf_reach("classified");
}
VF_HARNESS(ineqonly, 0, "classified") {
  DProb p({K_FREE, K_FREE}, {K_FREE, K_FREE}, true, false);
  int m0 = vf_choose("m0", 3);
  pair(p.cl[0], p.cu[0], "c", 0, m0); pair(p.cl[1], p.cu[1], "c", 1, 0);
  for (int i = 0; i < 2; i++) if (i || !m0) { vf_assume_lt(p.cl[i], p.cu[i]); }
  SProb q(p, {1, 1, 1, 1}); hiopNlpSparseIneq N(q); N.options->SetIntegerValue("verbosity_level", 0); N.options->SetNumericValue("bound_relax_perturb", 0.0);
  bool ok = N.finalizeInitialization(); vf_assert(ok, "init");
  vf_assert(N.m_eq() == 0 && N.m_ineq() == 2, "all constraints are inequalities");
  icounts(N, p.cl, p.cu); vf_reach("classified");
}
VF_HARNESS(sides, 0, "clean") {
  std::vector<int> all = {K_FREE, K_LOW, K_UPP, K_BOTH};
  DProb p(kinds(1, "kx", all), kinds(1, "kc", all), true, false); NlpFix<> F(p); F.init();
  zeros(F.nlp); vf_reach("clean");
}
// 8 variables and 7 inequalities of fixed kinds around one pair of arbitrary bounds
VF_HARNESS(large, 0, "classified") {
  int w = vf_choose("what", 2), pos = vf_choose("position", 8), mode = vf_choose("mode", 4), rot = vf_choose("kinds", 2); const double inf = std::numeric_limits<double>::infinity();
  if (w && pos > 6) return;
  std::vector<int> kx(8), kc(7); for (int i = 0; i < 8; i++) kx[i] = (i * 3 + rot * 2 + i / 3) % 4; for (int i = 0; i < 7; i++) kc[i] = 1 + (i * 2 + rot + i / 4) % 3;
  vf_focus(100, -1); DProb p(kx, kc, true, false); vf_focus(0, 0);
  for (int i = 0; i < 8; i += 3) { if (kx[i] == K_FREE) p.xl[i] = -inf; if (kx[i] == K_FREE || kx[i] == K_LOW) p.xu[i] = i % 2 ? 1e20 : inf; }
  if (w) { pair(p.cl[pos], p.cu[pos], "c", 0, mode == 3 ? 0 : mode); if (mode == 0 || mode == 3) vf_assume_lt(p.cl[pos], p.cu[pos]); } else pair(p.xl[pos], p.xu[pos], "x", 0, mode);
  NlpFix<> F(p); F.str("fixed_var", "relax"); F.init();
  counts(F.nlp, p.xl, p.xu); icounts(F.nlp, p.cl, p.cu); vf_reach("classified");
}

// vf-bounds: 2 variables of every bound kind, 1 equality and 1 inequality of every kind (and none); 6 variables with 7 constraints and one symbolic position; arbitrary iterates, function values, gradients and Jacobians, mu > 0, kappa_d >= 0; whole runs of 2-3 iterations of both solvers on fixed problems (2 variables, 1-2 constraints; plain, started next to a bound, large barrier parameter with every trial step accepted) with arbitrary objective values
#include "fix.hpp"
#include "runobs.hpp"
struct S {
  DProb p; NlpFix<> F; hiopIterate it; hiopVector *c, *d, *g; hiopMatrix *Jc, *Jd; double mu, kd; hiopLogBarProblem* lb; hiopResidual* r;
  int n, me, mi; hiopNlpFormulation& N;
  DV xl, xu, dl, du, crhs;
  S(std::vector<int> kx, std::vector<int> kc, bool lin = false) : p(kx, kc, true, false), F(p), it((F.init(), &F.nlp)), N(F.nlp) {
    free_slacks(N, it);
    c = N.alloc_dual_eq_vec(); d = N.alloc_dual_ineq_vec(); g = N.alloc_primal_vec(); Jc = N.alloc_Jac_c(); Jd = N.alloc_Jac_d();
    fill(c, "cv"); fill(d, "dv"); fill(g, "gr"); mu = lin ? 0.5 : vf_pos("mu");
    if (lin) one();
    n = N.n(); me = N.m_eq(); mi = N.m_ineq();
    for (int i = 0; i < me; i++) for (int j = 0; j < n; j++) J(Jc)[i * n + j] = R("Jc" + std::to_string(i) + "_" + std::to_string(j));
    for (int i = 0; i < mi; i++) for (int j = 0; j < n; j++) J(Jd)[i * n + j] = R("Jd" + std::to_string(i) + "_" + std::to_string(j));
    lb = new hiopLogBarProblem(&N);
    kd = vf_choose("kd", 2) ? vf_pos("kappa_d") : 0.;
    lb->kappa_d = kd;
    lb->updateWithNlpInfo(it, mu, 0., *c, *d, *g, *Jc, *Jd);
    r = new hiopResidual(&N);
    xl = get(N.get_xl()); xu = get(N.get_xu()); dl = get(N.get_dl()); du = get(N.get_du()); crhs = get(N.get_crhs());
  }
  // one symbolic entry
  void one() {
    struct { hiopVector* v; const hiopVector* p; } b[13] = {{g, 0}, {c, 0}, {d, 0}, {it.x, 0}, {it.d, 0}, {it.yd, 0}, {it.yc, 0}, {it.zl, &N.get_ixl()}, {it.sxu, &N.get_ixu()}, {it.zu, &N.get_ixu()}, {it.sdl, &N.get_idl()}, {it.vl, &N.get_idl()}, {it.vu, &N.get_idu()}};
    auto& q = b[vf_choose("block", 13)]; int i = vf_choose("entry", q.v->get_local_size());
    if (!q.p) D(q.v)[i] = R("value"); else if (D(*q.p)[i] == 1.) D(q.v)[i] = vf_pos("value");
  }
  double* J(hiopMatrix* m) { return dynamic_cast<hiopMatrixDenseRowMajor*>(m)->local_data(); }
  bool on(const hiopVector& pt, int i) { return D(pt)[i] == 1.; }
};
static double amax(double m, double v) { return dmax(m, dabs_(v)); }
static void blocks(S& s, bool soc, const DV& csoc, const DV& dsoc) {
  hiopNlpFormulation& N = s.N; hiopIterate& it = s.it;
  double o = 0, bo = 0, o1 = 0, bo1 = 0, fe = 0, fe1 = 0, co = 0, bco = 0;
  for (int i = 0; i < s.n; i++) {
    double v = D(s.g)[i];
    for (int k = 0; k < s.me; k++) v = v + s.J(s.Jc)[k * s.n + i] * D(it.yc)[k];
    for (int k = 0; k < s.mi; k++) v = v + s.J(s.Jd)[k * s.n + i] * D(it.yd)[k];
    v = v - D(it.zl)[i] + D(it.zu)[i];
    double w = v + s.kd * s.mu * (D(N.get_ixl())[i] - D(N.get_ixu())[i]);
    vf_assert_eq(D(s.r->get_rx())[i], -w, "stationarity in x");
    o = amax(o, v); o1 = o1 + dabs_(v); bo = amax(bo, w); bo1 = bo1 + dabs_(w);
  }
  for (int i = 0; i < s.mi; i++) {
    double v = D(it.yd)[i] + D(it.vl)[i] - D(it.vu)[i];
    double w = v - s.kd * s.mu * (D(N.get_idl())[i] - D(N.get_idu())[i]);
    vf_assert_eq(D(s.r->get_rd())[i], w, "stationarity in d");
    o = amax(o, v); o1 = o1 + dabs_(v); bo = amax(bo, w); bo1 = bo1 + dabs_(w);
  }
  for (int k = 0; k < s.me; k++) { double v = soc ? csoc[k] : s.crhs[k] - D(s.c)[k]; vf_assert_eq(D(s.r->get_ryc())[k], v, "equality feasibility"); fe = amax(fe, v); fe1 = fe1 + dabs_(v); }
  for (int k = 0; k < s.mi; k++) { double v = soc ? dsoc[k] : D(it.d)[k] - D(s.d)[k]; vf_assert_eq(D(s.r->get_ryd())[k], v, "inequality body feasibility"); fe = amax(fe, v); fe1 = fe1 + dabs_(v); }
  for (int i = 0; i < s.n; i++) {
    bool l = s.on(N.get_ixl(), i), u = s.on(N.get_ixu(), i);
    vf_assert_eq(D(s.r->get_rxl())[i], l ? D(it.x)[i] - D(it.sxl)[i] - s.xl[i] : 0., "lower bound feasibility");
    vf_assert_eq(D(s.r->get_rxu())[i], u ? s.xu[i] - D(it.x)[i] - D(it.sxu)[i] : 0., "upper bound feasibility");
    vf_assert_eq(D(s.r->get_rszl())[i], l ? s.mu - D(it.sxl)[i] * D(it.zl)[i] : 0., "complementarity zl");
    vf_assert_eq(D(s.r->get_rszu())[i], u ? s.mu - D(it.sxu)[i] * D(it.zu)[i] : 0., "complementarity zu");
    if (l) { double q = D(it.sxl)[i] * D(it.zl)[i]; co = amax(co, q); bco = amax(bco, s.mu - q); }
    if (u) { double q = D(it.sxu)[i] * D(it.zu)[i]; co = amax(co, q); bco = amax(bco, s.mu - q); }
  }
  for (int i = 0; i < s.mi; i++) {
    bool l = s.on(N.get_idl(), i), u = s.on(N.get_idu(), i);
    vf_assert_eq(D(s.r->get_rdl())[i], l ? D(it.d)[i] - D(it.sdl)[i] - s.dl[i] : 0., "lower inequality feasibility");
    vf_assert_eq(D(s.r->get_rdu())[i], u ? s.du[i] - D(it.d)[i] - D(it.sdu)[i] : 0., "upper inequality feasibility");
    vf_assert_eq(D(s.r->get_rsvl())[i], l ? s.mu - D(it.sdl)[i] * D(it.vl)[i] : 0., "complementarity vl");
    vf_assert_eq(D(s.r->get_rsvu())[i], u ? s.mu - D(it.sdu)[i] * D(it.vu)[i] : 0., "complementarity vu");
    if (l) { double q = D(it.sdl)[i] * D(it.vl)[i]; co = amax(co, q); bco = amax(bco, s.mu - q); }
    if (u) { double q = D(it.sdu)[i] * D(it.vu)[i]; co = amax(co, q); bco = amax(bco, s.mu - q); }
  }
  double no, nf, nc, cv, lo, lf, lc;
  s.r->getNlpErrors(no, nf, nc, cv); s.r->getBarrierErrors(lo, lf, lc);
  vf_assert_eq(no, o, "nlp optimality norm"); vf_assert_eq(nf, fe, "nlp feasibility norm"); vf_assert_eq(nc, co, "nlp complementarity norm");
  vf_assert_eq(lo, bo, "barrier optimality norm"); vf_assert_eq(lf, fe, "barrier feasibility norm"); vf_assert_eq(lc, bco, "barrier complementarity norm");
  vf_assert_eq(s.r->get_theta(), fe1, "one-norm infeasibility"); vf_assert_eq(s.r->get_nrmOne_bar_feasib(), fe1, "one-norm infeasibility"); vf_assert_eq(s.r->getInfeasInfNorm(), fe, "infeasibility");
  vf_assert_eq(s.r->get_nrmOne_nlp_optim(), o1, "one-norm optimality"); vf_assert_eq(s.r->get_nrmOne_bar_optim(), bo1, "one-norm barrier optimality");
}
static std::vector<int> kxs() { return {vf_choose("kx0", 4), vf_choose("kx1", 4)}; }
static std::vector<int> kcs() { int a = vf_choose("kc", 4); return a == 0 ? std::vector<int>{K_EQ} : std::vector<int>{a, K_EQ}; }
VF_HARNESS(update, 0, "done") {
  S s(kxs(), kcs());
  s.r->update(s.it, 0., *s.c, *s.d, *s.g, *s.Jc, *s.Jd, *s.lb);
  blocks(s, false, {}, {});
  // violation of the original constraints
  double cv = 0;
  for (int k = 0; k < s.me; k++) cv = amax(cv, s.crhs[k] - D(s.c)[k]);
  for (int k = 0; k < s.mi; k++) { if (s.on(s.N.get_idl(), k)) cv = dmax(cv, s.dl[k] - D(s.d)[k]); if (s.on(s.N.get_idu(), k)) cv = dmax(cv, D(s.d)[k] - s.du[k]); }
  double a, b, c, d; s.r->getNlpErrors(a, b, c, d);
  vf_assert_eq(d, cv, "constraint violation norm");
  hiopResidual q(&s.N); q.copyFrom(*s.r);
  double e[4], f[3], f2[3]; q.getNlpErrors(e[0], e[1], e[2], e[3]); q.getBarrierErrors(f[0], f[1], f[2]); s.r->getBarrierErrors(f2[0], f2[1], f2[2]);
  vf_assert_eq(e[0], a, "copied norms"); vf_assert_eq(e[1], b, "copied norms"); vf_assert_eq(e[2], c, "copied norms"); vf_assert_eq(e[3], d, "copied constraint violation");
  for (int k = 0; k < 3; k++) vf_assert_eq(f[k], f2[k], "copied norms");
  hiopVector *x[12] = {q.rx, q.rd, q.rxl, q.rxu, q.rdl, q.rdu, q.ryc, q.ryd, q.rszl, q.rszu, q.rsvl, q.rsvu}, *y[12] = {s.r->rx, s.r->rd, s.r->rxl, s.r->rxu, s.r->rdl, s.r->rdu, s.r->ryc, s.r->ryd, s.r->rszl, s.r->rszu, s.r->rsvl, s.r->rsvu};
  for (int k = 0; k < 12; k++) eqv(*x[k], get(*y[k]), "copied blocks");
  vf_reach("done");
}
VF_HARNESS(repeated, 0, "done") { // a second update must not depend on the first
  S s({K_LOW, K_BOTH}, {K_EQ, K_UPP});
  s.r->update(s.it, 0., *s.c, *s.d, *s.g, *s.Jc, *s.Jd, *s.lb);
  hiopVector* b[12] = {s.it.x, s.it.d, s.it.yc, s.it.yd, s.c, s.d, s.g, s.it.x, s.it.x, s.it.x, s.it.x, s.it.x};
  for (int k = 0; k < 7; k++) for (int i = 0; i < b[k]->get_local_size(); i++) D(b[k])[i] = R("second" + std::to_string(k) + "_" + std::to_string(i));
  s.lb->updateWithNlpInfo(s.it, s.mu, 0., *s.c, *s.d, *s.g, *s.Jc, *s.Jd);
  s.r->update(s.it, 0., *s.c, *s.d, *s.g, *s.Jc, *s.Jd, *s.lb);
  blocks(s, false, {}, {});
  vf_reach("done");
}
VF_HARNESS(soc, 0, "done") {
  S s(kxs(), kcs());
  hiopVector *cs = s.N.alloc_dual_eq_vec(), *ds = s.N.alloc_dual_ineq_vec(); fill(cs, "csoc"); fill(ds, "dsoc");
  s.r->update_soc(s.it, *cs, *ds, *s.g, *s.Jc, *s.Jd, *s.lb);
  blocks(s, true, get(*cs), get(*ds));
  vf_reach("done");
}
VF_HARNESS(infeas_onenorm, 0, "done") {
  S s(kxs(), kcs());
  double v = s.r->compute_nlp_infeasib_onenorm(s.it, *s.c, *s.d), e = 0;
  for (int k = 0; k < s.me; k++) { double q = s.crhs[k] - D(s.c)[k]; vf_assert_eq(D(s.r->get_ryc())[k], q, "equality feasibility"); e = e + dabs_(q); }
  for (int k = 0; k < s.mi; k++) { double q = D(s.it.d)[k] - D(s.d)[k]; vf_assert_eq(D(s.r->get_ryd())[k], q, "inequality body feasibility"); e = e + dabs_(q); }
  vf_assert_eq(v, e, "trial infeasibility");
  vf_reach("done");
}
// larger problems: one entry of one block at a time is symbolic, the others are fixed numbers
VF_HARNESS(large, 0, "done") {
  vf_mode_fork(1);
  vf_focus(6, -1);
  static const int KX[] = {K_LOW, K_BOTH, K_FREE, K_UPP, K_BOTH, K_LOW}, KC[2][7] = {{K_EQ, K_LOW, K_EQ, K_BOTH, K_UPP, K_EQ, K_BOTH}, {K_UPP, K_LOW, K_LOW, K_EQ, K_BOTH, K_UPP, K_LOW}};
  int a = vf_choose("cons", 2);
  S s(std::vector<int>(KX, KX + 6), std::vector<int>(KC[a], KC[a] + 7), true);
  s.r->update(s.it, 0., *s.c, *s.d, *s.g, *s.Jc, *s.Jd, *s.lb);
  blocks(s, false, {}, {});
  vf_reach("done");
}
VF_HARNESS(run_quasi, 0, "iterated") { int cfg = vf_choose("cfg", 3); obs_run(OB_RES, false, cfg, cfg == 2 ? 3 : 2); } // whole quasi-Newton runs
VF_HARNESS(run_newton, 0, "iterated") { int cfg = vf_choose("cfg", 3); obs_run(OB_RES, true, cfg, cfg == 2 ? 3 : 2); } // whole Newton runs

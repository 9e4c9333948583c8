// vf-bounds: vectors of 1..2 (thorough 3) entries (all patterns) and 9 entries with one symbolic position, arbitrary positive entries, arbitrary directions, any tau in (0,1); iterates (3 constraints/variables) with every pair of the eight slack/multiplier blocks carrying arbitrary directions; 6 variables with 7 constraints and one arbitrary entry; whole runs of 2-3 iterations of both solvers on fixed problems (2 variables, 1-2 constraints; plain, started next to a bound, large barrier parameter with every trial step accepted) with arbitrary objective values
#include "fix.hpp"
#include "runobs.hpp"
static double tau_() { double t = R("tau"); vf_assume_lt(0, t); vf_assume_lt(t, 1); return t; }
// alpha is the largest value in (0,1] with x + alpha d >= (1-tau) x for the selected entries
static void largest(double a, const DV& x, const DV& d, const DV& sel, double tau) {
  vf_assert_lt(0, a, "step positive"); vf_assert_le(a, 1, "step at most one");
  bool block = false;
  for (size_t i = 0; i < x.size(); i++) if (sel[i] == 1.) {
    vf_assert_le((1 - tau) * x[i], x[i] + a * d[i], "keeps (1-tau) of the value");
  }
  if (a < 1) { // some selected entry blocks exactly
    for (size_t i = 0; i < x.size(); i++) if (sel[i] == 1. && x[i] + a * d[i] == (1 - tau) * x[i]) block = true;
    vf_assert(block, "largest such step");
  }
}
VF_HARNESS(vector, 0, "done") {
  vf_mode_fork(1);
  int n = 1 + vf_choose("n", vf_thorough() ? 3 : 2);
  double tau = tau_();
  bool wp = vf_choose("masked", 2);
  DV sel = wp ? pat(n, "sel") : DV(n, 1.);
  HV x(n, "x"), d(n, "d"), S(sel);
  for (int i = 0; i < n; i++) if (sel[i] == 1.) vf_assume_lt(0, x.s[i]);
  double a = wp ? x.v.fractionToTheBdry_w_pattern_local(d.v, tau, S.v) : x.v.fractionToTheBdry_local(d.v, tau);
  largest(a, x.s, d.s, sel, tau);
  x.unchanged(); d.unchanged(); S.unchanged();
  vf_reach("done");
}
VF_HARNESS(longer, 0, "done") {
  vf_mode_fork(1);
  int n = 9, p = vf_choose("pos", n);
  double tau = tau_();
  DV x(n, 2.), d(n, 1.), sel(n, 1.);
  x[p] = vf_pos("x"); d[p] = R("d");
  HV X(x), Dd(d), S(sel);
  double a = vf_choose("masked", 2) ? X.v.fractionToTheBdry_w_pattern_local(Dd.v, tau, S.v) : X.v.fractionToTheBdry_local(Dd.v, tau);
  largest(a, x, d, sel, tau);
  vf_reach("done");
}
VF_HARNESS(iterate, 0, "done") {
  vf_mode_fork(1);
  DProb p({K_FREE, K_BOTH}, {K_BOTH, K_EQ}, true, false);
  NlpFix<> F(p); F.init();
  hiopNlpFormulation& nlp = F.nlp;
  hiopIterate it(&nlp), dir(&nlp);
  free_slacks(nlp, it);
  any_dir(nlp, dir);
  // any two of the eight slack / multiplier blocks carry arbitrary directions, the others do not block
  int s1 = vf_choose("block1", 8), s2 = vf_choose("block2", 8);
  if (s2 < s1) return;
  hiopVector* blk[8] = {dir.sxl, dir.sxu, dir.sdl, dir.sdu, dir.zl, dir.zu, dir.vl, dir.vu};
  const hiopVector* bp[8] = {&nlp.get_ixl(), &nlp.get_ixu(), &nlp.get_idl(), &nlp.get_idu(), &nlp.get_ixl(), &nlp.get_ixu(), &nlp.get_idl(), &nlp.get_idu()};
  for (int k = 0; k < 8; k++) if (k != s1 && k != s2) for (int i = 0; i < blk[k]->get_local_size(); i++) if (D(*bp[k])[i] == 1.) D(blk[k])[i] = 1.;
  double tau = tau_(), ap = -1, ad = -1;
  it.fractionToTheBdry(dir, tau, ap, ad);
  DV sp, dp, sd, dd, one;
  auto add = [&](DV& a, DV& b, const hiopVector* s, const hiopVector* ds, const hiopVector& pt) { for (int i = 0; i < s->get_local_size(); i++) if (D(pt)[i] == 1.) { a.push_back(D(*s)[i]); b.push_back(D(*ds)[i]); } };
  add(sp, dp, it.sxl, dir.sxl, nlp.get_ixl()); add(sp, dp, it.sxu, dir.sxu, nlp.get_ixu()); add(sp, dp, it.sdl, dir.sdl, nlp.get_idl()); add(sp, dp, it.sdu, dir.sdu, nlp.get_idu());
  add(sd, dd, it.zl, dir.zl, nlp.get_ixl()); add(sd, dd, it.zu, dir.zu, nlp.get_ixu()); add(sd, dd, it.vl, dir.vl, nlp.get_idl()); add(sd, dd, it.vu, dir.vu, nlp.get_idu());
  largest(ap, sp, dp, DV(sp.size(), 1.), tau);
  largest(ad, sd, dd, DV(sd.size(), 1.), tau);
  vf_reach("done");
}
VF_HARNESS(trial, 0, "done") {
  DProb p({K_LOW, K_BOTH, K_FREE}, {K_EQ, K_UPP, K_BOTH, K_EQ}, true, false);
  NlpFix<> F(p); F.init();
  hiopNlpFormulation& nlp = F.nlp;
  hiopIterate it(&nlp), dir(&nlp), tr(&nlp);
  free_slacks(nlp, it); any_dir(nlp, dir); free_slacks(nlp, tr);
  double ap = R("ap"), ad = R("ad");
  tr.takeStep_primals(it, dir, ap, ad);
  tr.takeStep_duals(it, dir, ap, ad);
  auto chk = [&](hiopVector* t, hiopVector* a, hiopVector* b, double al, const char* l) { for (int i = 0; i < t->get_local_size(); i++) vf_assert_eq(D(t)[i], D(a)[i] + al * D(b)[i], l); };
  chk(tr.x, it.x, dir.x, ap, "x uses the primal step"); chk(tr.d, it.d, dir.d, ap, "d uses the primal step");
  chk(tr.yc, it.yc, dir.yc, ap, "yc uses the primal step"); chk(tr.yd, it.yd, dir.yd, ap, "yd uses the primal step");
  chk(tr.zl, it.zl, dir.zl, ad, "zl uses the dual step"); chk(tr.zu, it.zu, dir.zu, ad, "zu uses the dual step");
  chk(tr.vl, it.vl, dir.vl, ad, "vl uses the dual step"); chk(tr.vu, it.vu, dir.vu, ad, "vu uses the dual step");
  // slacks are then re-derived as distances
  tr.determineSlacks();
  for (int i = 0; i < 3; i++) {
    vf_assert_eq(D(tr.sxl)[i], p.kx[i] & 1 ? D(tr.x)[i] - p.xl[i] : 0., "lower slack"); vf_assert_eq(D(tr.sxu)[i], p.kx[i] & 2 ? p.xu[i] - D(tr.x)[i] : 0., "upper slack");
  }
  int ci[2] = {1, 2};
  for (int i = 0; i < 2; i++) {
    int k = p.kc[ci[i]];
    vf_assert_eq(D(tr.sdl)[i], k & 1 ? D(tr.d)[i] - p.cl[ci[i]] : 0., "lower inequality slack"); vf_assert_eq(D(tr.sdu)[i], k & 2 ? p.cu[ci[i]] - D(tr.d)[i] : 0., "upper inequality slack");
  }
  vf_reach("done");
}
VF_HARNESS(iterate_large, 0, "done") { // 6 variables, 7 constraints: one entry of one block has an arbitrary value and direction
  vf_mode_fork(1); vf_focus(100, -1); vf_fones_ = 1;
  static const int KX[6] = {K_LOW, K_BOTH, K_FREE, K_UPP, K_BOTH, K_LOW}, KC[7] = {K_EQ, K_BOTH, K_LOW, K_EQ, K_UPP, K_LOW, K_BOTH};
  DProb p(std::vector<int>(KX, KX + 6), std::vector<int>(KC, KC + 7), true, false); NlpFix<> F(p); F.init(); hiopNlpFormulation& n = F.nlp;
  hiopIterate it(&n), dir(&n); free_slacks(n, it); any_dir(n, dir);
  hiopVector *v[8] = {it.sxl, it.sxu, it.sdl, it.sdu, it.zl, it.zu, it.vl, it.vu}, *w[8] = {dir.sxl, dir.sxu, dir.sdl, dir.sdu, dir.zl, dir.zu, dir.vl, dir.vu};
  const hiopVector* pt[8] = {&n.get_ixl(), &n.get_ixu(), &n.get_idl(), &n.get_idu(), &n.get_ixl(), &n.get_ixu(), &n.get_idl(), &n.get_idu()};
  int b = vf_choose("block", 8), pos = vf_choose("entry", 6), o = vf_choose("others", 3); if (pos >= v[b]->get_local_size() || D(*pt[b])[pos] != 1.) return;
  // the other entries move away from zero, or one of them in the other half blocks at a quarter of the step
  for (int k = 0; k < 8; k++) for (int i = 0; i < w[k]->get_local_size(); i++) if (D(*pt[k])[i] == 1.) D(w[k])[i] = o == 0 ? 1. : o == 1 ? (k == (b + 4) % 8 ? -1. - i : 0.) : (k == (b + 1) % 8 ? -0.25 : 0.5);
  D(v[b])[pos] = vf_pos("value"); D(w[b])[pos] = R("move");
  double tau = tau_(), ap = -1, ad = -1;
  it.fractionToTheBdry(dir, tau, ap, ad);
  for (int h = 0; h < 2; h++) { DV s, d; for (int k = 4 * h; k < 4 * h + 4; k++) for (int i = 0; i < v[k]->get_local_size(); i++) if (D(*pt[k])[i] == 1.) { s.push_back(D(v[k])[i]); d.push_back(D(w[k])[i]); } largest(h ? ad : ap, s, d, DV(s.size(), 1.), tau); }
  vf_reach("done");
}
VF_HARNESS(run_quasi, 0, "iterated") { int cfg = vf_choose("cfg", 3); obs_run(OB_STEP, false, cfg, cfg == 2 ? 3 : 2); } // whole quasi-Newton runs
VF_HARNESS(run_newton, 0, "iterated") { int cfg = vf_choose("cfg", 3); obs_run(OB_STEP, true, cfg, cfg == 2 ? 3 : 2); } // whole Newton runs

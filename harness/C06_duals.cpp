// vf-bounds: vectors of 1..3 entries with all patterns, 9 with one symbolic position; arbitrary positive slacks, any multipliers, mu > 0, kappa >= 1; iterate level for two-sided, one-sided and free bounds, and 6 variables with 7 constraints and one arbitrary entry; whole runs of 2-3 iterations of both solvers on fixed problems (2 variables, 1-2 constraints; plain, started next to a bound, large barrier parameter with every trial step accepted) with arbitrary objective values
#include "fix.hpp"
#include "runobs.hpp"
static void one(double r, double z, double s, double mu, double kap) {
  double lo = mu / (kap * s), hi = kap * mu / s;
  vf_assert_le(lo, r, "not below mu/(kappa s)"); vf_assert_le(r, hi, "not above kappa mu / s");
  if (z < lo) vf_assert_eq(r, lo, "moved to the lower end"); else if (z > hi) vf_assert_eq(r, hi, "moved to the upper end"); else vf_assert_eq(r, z, "inside: unchanged");
}
static double kap_() { double k = R("kappa"); vf_assume_le(1, k); return k; }
VF_HARNESS(vector, 0, "done") {
  vf_mode_fork(1);
  int n = 1 + vf_choose("n", vf_thorough() ? 3 : 2);
  DV sel = pat(n, "sel");
  HV z(n, "z"), s(n, "s"), S(sel);
  for (int i = 0; i < n; i++) vf_assume_lt(0, s.s[i]);
  double mu = vf_pos("mu"), kap = kap_();
  z.v.adjustDuals_plh(s.v, S.v, mu, kap);
  DV r = get(z.v);
  for (int i = 0; i < n; i++) if (sel[i] == 1.) one(r[i], z.s[i], s.s[i], mu, kap); else vf_assert_eq(r[i], z.s[i], "entry without a bound untouched");
  s.unchanged(); S.unchanged();
  vf_reach("done");
}
VF_HARNESS(longer, 0, "done") {
  vf_mode_fork(1);
  int n = 9, p = vf_choose("pos", n);
  DV z(n, 1.), s(n, 1.), sel(n, 1.);
  z[p] = R("z"); s[p] = vf_pos("s"); sel[(p + 1) % n] = 0; z[(p + 1) % n] = R("zfree");
  HV Z(z), Sl(s), S(sel);
  double mu = 1., kap = 1e10;
  Z.v.adjustDuals_plh(Sl.v, S.v, mu, kap);
  DV r = get(Z.v);
  for (int i = 0; i < n; i++) if (i == p) one(r[i], z[i], s[i], mu, kap); else vf_assert_eq(r[i], z[i], "other entries");
  vf_reach("done");
}
VF_HARNESS(iterate, 0, "done") {
  vf_mode_fork(1);
  DProb p({K_BOTH, K_FREE}, {K_BOTH, K_EQ}, true, false);
  NlpFix<> F(p); F.init();
  hiopNlpFormulation& nlp = F.nlp;
  hiopIterate it(&nlp);
  free_slacks(nlp, it);
  hiopIterate o(&nlp); o.copyFrom(it);
  double mu = vf_pos("mu"), kap = kap_();
  it.adjustDuals_primalLogHessian(mu, kap);
  auto chk = [&](hiopVector* r, hiopVector* z, hiopVector* s, const hiopVector& pt) { for (int i = 0; i < r->get_local_size(); i++) if (D(pt)[i] == 1.) one(D(r)[i], D(z)[i], D(s)[i], mu, kap); else vf_assert_eq(D(r)[i], D(z)[i], "no bound: untouched"); };
  chk(it.zl, o.zl, o.sxl, nlp.get_ixl()); chk(it.zu, o.zu, o.sxu, nlp.get_ixu()); chk(it.vl, o.vl, o.sdl, nlp.get_idl()); chk(it.vu, o.vu, o.sdu, nlp.get_idu());
  eqv(*it.x, get(*o.x), "x untouched"); eqv(*it.d, get(*o.d), "d untouched"); eqv(*it.yc, get(*o.yc), "yc untouched"); eqv(*it.yd, get(*o.yd), "yd untouched");
  eqv(*it.sxl, get(*o.sxl), "slacks untouched"); eqv(*it.sxu, get(*o.sxu), "slacks untouched"); eqv(*it.sdl, get(*o.sdl), "slacks untouched"); eqv(*it.sdu, get(*o.sdu), "slacks untouched");
  vf_reach("done");
}
VF_HARNESS(iterate_large, 0, "done") { // 6 variables, 7 constraints: one arbitrary slack and multiplier
  vf_mode_fork(1); vf_focus(100, -1);
  static const int KX[6] = {K_LOW, K_BOTH, K_FREE, K_UPP, K_BOTH, K_LOW}, KC[7] = {K_EQ, K_BOTH, K_LOW, K_EQ, K_UPP, K_LOW, K_BOTH};
  DProb p(std::vector<int>(KX, KX + 6), std::vector<int>(KC, KC + 7), true, false); NlpFix<> F(p); F.init(); hiopNlpFormulation& n = F.nlp;
  hiopIterate it(&n); free_slacks(n, it);
  hiopVector *v[4] = {it.sxl, it.sxu, it.sdl, it.sdu}, *w[4] = {it.zl, it.zu, it.vl, it.vu}; const hiopVector* pt[4] = {&n.get_ixl(), &n.get_ixu(), &n.get_idl(), &n.get_idu()};
  int b = vf_choose("block", 4), pos = vf_choose("entry", 6), o = vf_choose("others", 2); if (pos >= v[b]->get_local_size() || D(*pt[b])[pos] != 1.) return;
  if (o) for (int k = 0; k < 4; k++) for (int i = 0; i < w[k]->get_local_size(); i++) if (D(*pt[k])[i] == 1.) D(w[k])[i] = i % 2 ? 4096. : 1. / 4096; // outside the neighbourhood
  D(v[b])[pos] = vf_pos("slack"); D(w[b])[pos] = R("mult");
  hiopIterate old(&n); old.copyFrom(it); hiopVector* z0[4] = {old.zl, old.zu, old.vl, old.vu};
  double mu = 0.5, kap = 32.; it.adjustDuals_primalLogHessian(mu, kap);
  for (int k = 0; k < 4; k++) for (int i = 0; i < w[k]->get_local_size(); i++) if (D(*pt[k])[i] == 1.) one(D(w[k])[i], D(z0[k])[i], D(v[k])[i], mu, kap); else vf_assert_eq(D(w[k])[i], 0., "no bound: untouched");
  for (int i = 0; i < 6; i++) vf_assert_eq(D(it.x)[i], D(old.x)[i], "x untouched");
  vf_reach("done");
}
VF_HARNESS(run_quasi, 0, "iterated") { int cfg = vf_choose("cfg", 3); obs_run(OB_DUAL, false, cfg, cfg == 2 ? 3 : 2); } // whole quasi-Newton runs
VF_HARNESS(run_newton, 0, "iterated") { int cfg = vf_choose("cfg", 3); obs_run(OB_DUAL, true, cfg, cfg == 2 ? 3 : 2); } // whole Newton runs

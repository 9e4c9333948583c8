// vf-bounds: iterates with 2 variables and 1 inequality (6 and 5 with one arbitrary entry beside several tiny slacks); every slack possibly negative, zero, tiny or large (|value| <= 1e4), multipliers in (0,1e4] or exactly zero as at a starting point, mu in (0,1e4]; one block at a time arbitrary for the rule, all blocks for the bookkeeping; machine epsilon constants as in the code; whole runs of 2-3 iterations of both solvers on fixed problems (2 variables, 1-2 constraints; plain, started next to a bound, large barrier parameter with every trial step accepted) with arbitrary objective values
#include "fix.hpp"
#include "runobs.hpp"
static const double EPS = std::numeric_limits<double>::epsilon();
static void rule(double r, double s0, double z, double bnd, double mu) {
  double small = EPS * dmin(1., mu), s = dmax(s0, 0.);
  vf_assert(r > 0., "slack strictly positive");
  vf_assert(s0 <= r, "slack not decreased");
  if (s0 >= small) vf_assert_eq(r, s0, "safe slack unchanged");
  else {
    double lim = s + pow(EPS, 0.75) * dmax(1., dabs_(bnd)), w = dmax(mu / z, small);
    const double big = 1099511627776.; // magnified so that the native replay resolves the tiny correction
    vf_assert_eq(r * big, dmin(w, lim) * big, "tiny slack moved by the documented rule");
    vf_assert_le(r * big, lim * big, "increase is limited");
  }
}
VF_HARNESS(one_block, 0, "done") { // hiopIterate::adjust_small_slacks for each slack block through the public entry point
  vf_mode_fork(1);
  DProb p({K_BOTH}, {K_BOTH}, true, false);
  NlpFix<> F(p); F.init();
  hiopNlpFormulation& n = F.nlp;
  hiopIterate cur(&n), it(&n);
  int b = vf_choose("block", 4);
  double mu = R("mu"); vf_assume_lt(0, mu); vf_assume_le(mu, 1e4);
  hiopVector* cz[4] = {cur.zl, cur.zu, cur.vl, cur.vu};
  for (int k = 0; k < 4; k++) D(cz[k])[0] = 1.;
  double z = R("z"); vf_assume_lt(0, z); vf_assume_le(z, 1e4); D(cz[b])[0] = z;
  double gap = R("gap"); vf_assume_le(-1e4, gap); vf_assume_le(gap, 1e4); // signed distance to the bound
  double bnd = b == 0 ? p.xl[0] : b == 1 ? p.xu[0] : b == 2 ? p.cl[0] : p.cu[0];
  // only one side is looked at: the other sides are kept far away
  if (b < 2) { vf_assume_eq(p.cl[0], 0); vf_assume_eq(p.cu[0], 100); vf_assume_le(p.xl[0] + 100, p.xu[0]); vf_assume_le(gap, 50); D(it.d)[0] = 50; D(it.x)[0] = b == 0 ? bnd + gap : bnd - gap; }
  else { vf_assume_eq(p.xl[0], 0); vf_assume_eq(p.xu[0], 100); vf_assume_le(p.cl[0] + 100, p.cu[0]); vf_assume_le(gap, 50); D(it.x)[0] = 50; D(it.d)[0] = b == 2 ? bnd + gap : bnd - gap; }
  int cnt = it.compute_safe_slacks(cur, mu);
  hiopVector* sl[4] = {it.sxl, it.sxu, it.sdl, it.sdu};
  rule(D(sl[b])[0], gap, z, bnd, mu);
  vf_assert((cnt > 0) == (gap < EPS * dmin(1., mu)), "adjustment count");
  vf_reach("done");
}
VF_HARNESS(at_bound, 0, "done") { // iterates exactly on (or beyond) bounds of either sign and of small or large magnitude
  vf_mode_fork(1);
  static const double B[] = {-1000., -0.5, 0., 0.25, 3000.};
  int b = vf_choose("block", 4); double bnd = B[vf_choose("bound", 5)], gap = -vf_choose("beyond", 2) * 1.;
  DProb p({K_BOTH}, {K_BOTH}, true, false);
  p.xl[0] = p.cl[0] = b & 1 ? bnd - 1024 : bnd; p.xu[0] = p.cu[0] = b & 1 ? bnd : bnd + 1024;
  NlpFix<> F(p); F.init();
  hiopNlpFormulation& n = F.nlp;
  hiopIterate cur(&n), it(&n);
  hiopVector* cz[4] = {cur.zl, cur.zu, cur.vl, cur.vu}; for (int k = 0; k < 4; k++) D(cz[k])[0] = 1.;
  double mu = vf_in("mu", 1e-9, 1e4), z = vf_in("z", 1e-9, 1e4); D(cz[b])[0] = z;
  double at = b & 1 ? bnd - gap : bnd + gap, mid = b & 1 ? bnd - 512 : bnd + 512;
  D(it.x)[0] = b < 2 ? at : mid; D(it.d)[0] = b < 2 ? mid : at;
  int cnt = it.compute_safe_slacks(cur, mu);
  hiopVector* sl[4] = {it.sxl, it.sxu, it.sdl, it.sdu};
  rule(D(sl[b])[0], gap, z, bnd, mu);
  for (int k = 0; k < 4; k++) if (k != b) vf_assert_eq(D(sl[k])[0], (k < 2) == (b < 2) ? 1024. - gap : 512., "safe slack of the other bounds unchanged");
  vf_assert(cnt == 1, "adjustment count");
  vf_reach("done");
}
VF_HARNESS(patterns, 0, "done") { // entries of missing bounds stay zero, the others follow the rule
  vf_mode_fork(1);
  int kx = vf_choose("kx", 4), kc = 1 + vf_choose("kc", 3), tiny = vf_choose("tiny", 2);
  DProb p({K_LOW, kx}, {kc}, true, false);
  NlpFix<> F(p); F.init();
  hiopNlpFormulation& n = F.nlp;
  hiopIterate cur(&n), it(&n);
  fill_pos(cur.zl, n.get_ixl(), "zl"); fill_pos(cur.zu, n.get_ixu(), "zu"); fill_pos(cur.vl, n.get_idl(), "vl"); fill_pos(cur.vu, n.get_idu(), "vu");
  double mu = 0.5;
  // first variable at (tiny=1) or well inside its lower bound; second variable and the inequality inside
  D(it.x)[0] = tiny ? p.xl[0] : p.xl[0] + 1;
  D(it.x)[1] = kx == 0 ? 3. : kx == 2 ? p.xu[1] - 1 : kx == 1 ? p.xl[1] + 1 : (p.xl[1] + p.xu[1]) / 2;
  D(it.d)[0] = kc == 2 ? p.cu[0] - 1 : kc == 1 ? p.cl[0] + 1 : (p.cl[0] + p.cu[0]) / 2;
  it.compute_safe_slacks(cur, mu);
  rule(D(it.sxl)[0], tiny ? 0. : 1., D(cur.zl)[0], p.xl[0], mu);
  vf_assert_eq(D(it.sxu)[0], 0, "missing bound: no slack");
  vf_assert_eq(D(it.sxl)[1], kx & 1 ? D(it.x)[1] - p.xl[1] : 0., "other slack"); vf_assert_eq(D(it.sxu)[1], kx & 2 ? p.xu[1] - D(it.x)[1] : 0., "other slack");
  vf_assert_eq(D(it.sdl)[0], kc & 1 ? D(it.d)[0] - p.cl[0] : 0., "other slack"); vf_assert_eq(D(it.sdu)[0], kc & 2 ? p.cu[0] - D(it.d)[0] : 0., "other slack");
  vf_reach("done");
}
VF_HARNESS(adjust_bounds, 0, "done") { // bounds re-derived from slacks: slack = distance exactly
  DProb p(kinds(2, "kx", {0, 1, 2, 3}), {K_EQ, 1 + vf_choose("kc", 3)}, true, false);
  NlpFix<> F(p); F.init();
  hiopNlpFormulation& n = F.nlp;
  hiopIterate it(&n); free_slacks(n, it);
  n.adjust_bounds(it);
  for (int i = 0; i < 2; i++) {
    int k = p.kx[i];
    if (k & 1) vf_assert_eq(D(n.get_xl())[i], D(it.x)[i] - D(it.sxl)[i], "lower bound = x - slack"); else vf_assert(D(n.get_xl())[i] <= -1e20, "missing bound left alone");
    if (k & 2) vf_assert_eq(D(n.get_xu())[i], D(it.x)[i] + D(it.sxu)[i], "upper bound = x + slack"); else vf_assert(D(n.get_xu())[i] >= 1e20, "missing bound left alone");
  }
  int k = p.kc[1];
  if (k & 1) vf_assert_eq(D(n.get_dl())[0], D(it.d)[0] - D(it.sdl)[0], "lower inequality bound"); else vf_assert(D(n.get_dl())[0] <= -1e20, "missing bound left alone");
  if (k & 2) vf_assert_eq(D(n.get_du())[0], D(it.d)[0] + D(it.sdu)[0], "upper inequality bound"); else vf_assert(D(n.get_du())[0] >= 1e20, "missing bound left alone");
  vf_reach("done");
}
VF_HARNESS(large, 0, "done") { // 6 variables, 5 inequalities: several slacks at (or beyond) their bound, one arbitrary, the others inside
  vf_mode_fork(1);
  static const int KX[6] = {K_LOW, K_BOTH, K_FREE, K_UPP, K_BOTH, K_LOW}, KC[5] = {K_BOTH, K_LOW, K_UPP, K_LOW, K_BOTH};
  vf_focus(100, -1); DProb p(std::vector<int>(KX, KX + 6), std::vector<int>(KC, KC + 5), true, false); vf_focus(0, 0);
  for (int i = 0; i < 6; i++) { if (KX[i] & 1) p.xl[i] = i - 4.; if (KX[i] & 2) p.xu[i] = (KX[i] & 1 ? i - 4. : 10. * i) + 64; } for (int i = 0; i < 5; i++) { if (KC[i] & 1) p.cl[i] = 16. * i - 32; if (KC[i] & 2) p.cu[i] = 16. * i + 32; }
  NlpFix<> F(p); F.init(); hiopNlpFormulation& n = F.nlp;
  hiopIterate cur(&n), it(&n);
  const hiopVector* pt[4] = {&n.get_ixl(), &n.get_ixu(), &n.get_idl(), &n.get_idu()};
  hiopVector* cz[4] = {cur.zl, cur.zu, cur.vl, cur.vu}; hiopVector* sl[4] = {it.sxl, it.sxu, it.sdl, it.sdu};
  for (int b = 0; b < 4; b++) for (int i = 0; i < cz[b]->get_local_size(); i++) D(cz[b])[i] = D(*pt[b])[i] == 1. ? 1 << (i + b) % 4 : 0.;
  int b = vf_choose("block", 4), pos = vf_choose("position", 6); if (pos >= sl[b]->get_local_size() || D(*pt[b])[pos] != 1.) return;
  int set = vf_choose("tiny", 4); // which other entries sit at a bound
  double gap[4][6]; for (int q = 0; q < 4; q++) for (int i = 0; i < 6; i++) gap[q][i] = 0;
  double mu = 0.5, g = vf_in("gap", -2, 2), z = vf_in("z", 1e-9, 1e4); D(cz[b])[pos] = z;
  const DV lo[2] = {p.xl, p.cl}, up[2] = {p.xu, p.cu}; int cnt0 = 0;
  for (int w = 0; w < 2; w++) for (int i = 0; i < (w ? 5 : 6); i++) {
    int k = w ? KC[i] : KX[i]; bool tiny = set == 1 ? i % 2 == 0 : set == 2 ? i == 4 : set == 3; double& v = w ? D(it.d)[i] : D(it.x)[i];
    if (w == b / 2 && i == pos) { v = b & 1 ? up[w][i] - g : lo[w][i] + g; if (k == K_BOTH) gap[2 * w + (b & 1 ? 0 : 1)][i] = 64 - g; gap[b][i] = g; continue; }
    double s = tiny ? (i % 3 ? 0. : -1.) : 3.; v = k == 0 ? 7. : k & 1 ? lo[w][i] + s : up[w][i] - s;
    if (k & 1) { gap[2 * w][i] = s; if (k & 2) gap[2 * w + 1][i] = 64 - s; } else if (k & 2) gap[2 * w + 1][i] = s;
    if (k && tiny) cnt0++;
  }
  int cnt = it.compute_safe_slacks(cur, mu);
  for (int q = 0; q < 4; q++) for (int i = 0; i < sl[q]->get_local_size(); i++) {
    if (D(*pt[q])[i] != 1.) { vf_assert_eq(D(sl[q])[i], 0., "missing bound: no slack"); continue; }
    rule(D(sl[q])[i], gap[q][i], D(cz[q])[i], q & 1 ? up[q / 2][i] : lo[q / 2][i], mu);
  }
  vf_assert((cnt > 0) == (cnt0 + (g < EPS * mu) > 0), "adjustment count");
  vf_reach("done");
}
VF_HARNESS(zero_dual, 0, "done") { // a starting point: the multipliers are still zero, one slack may be tiny, the others are safe
  vf_mode_fork(1);
  DProb p({K_BOTH, K_BOTH}, {K_BOTH, K_BOTH}, true, false);
  for (int i = 0; i < 2; i++) { p.xl[i] = p.cl[i] = 0; p.xu[i] = p.cu[i] = 64; }
  NlpFix<> F(p); F.init();
  hiopIterate cur(&F.nlp), it(&F.nlp);
  int b = vf_choose("block", 4), own = vf_choose("own", 2);
  double mu = R("mu"); vf_assume_lt(0, mu); vf_assume_le(mu, 1e4);
  hiopVector* cz[4] = {cur.zl, cur.zu, cur.vl, cur.vu}; for (int k = 0; k < 4; k++) for (int i = 0; i < 2; i++) D(cz[k])[i] = 0;
  double z = 0; if (own) { z = R("z"); vf_assume_lt(0, z); vf_assume_le(z, 1e4); D(cz[b])[0] = z; }
  double gap = R("gap"); vf_assume_le(-32, gap); vf_assume_le(gap, 32);
  for (int i = 0; i < 2; i++) D(it.x)[i] = D(it.d)[i] = 16;
  D(b < 2 ? it.x : it.d)[0] = b % 2 ? 64 - gap : gap;
  it.compute_safe_slacks(cur, mu);
  hiopVector* sl[4] = {it.sxl, it.sxu, it.sdl, it.sdu};
  double bnd = b % 2 ? 64 : 0;
  if (own) rule(D(sl[b])[0], gap, z, bnd, mu); else rule(D(sl[b])[0], gap, mu * 9.3132257461547852e-10, bnd, mu); // no multiplier: the largest admissible increase
  for (int k = 0; k < 4; k++) { vf_assert_eq(D(sl[k])[1], k % 2 ? 48 : 16, "safe slack unchanged"); if (k != b) vf_assert_eq(D(sl[k])[0], k == (b ^ 1) ? 64 - gap : k % 2 ? 48 : 16, "safe slack unchanged"); }
  vf_reach("done");
}
VF_HARNESS(run_quasi, 0, "iterated") { int cfg = vf_choose("cfg", 4); obs_run(OB_SLACK, false, cfg, cfg == 3 ? 6 : cfg == 2 ? 3 : 2); } // whole quasi-Newton runs
VF_HARNESS(run_newton, 0, "iterated") { int cfg = vf_choose("cfg", 4); obs_run(OB_SLACK, true, cfg, cfg == 3 ? 6 : cfg == 2 ? 3 : 2); } // whole Newton runs

// vf-bounds: one entry with arbitrary bounds in [-1e4,1e4] (at least 1/1024 apart), kappa1 in [1e-6,10], kappa2 in [1e-3,0.499], any point, every bound kind; the same beside an entry of every kind and position; vectors of 9 with the arbitrary entry at every position; tolerance 1e-9 (the code itself uses a 2e-306 shift); iterate level with 2 variables and 2 inequalities
#include "fix.hpp"
static const double SM = 1e-9;
struct BV { DV l, u, il, iu; std::vector<int> k; };
static BV bnds(int n, const char* p, bool all) {
  BV b; b.l.assign(n, -1e20); b.u.assign(n, 1e20); b.il.assign(n, 0); b.iu.assign(n, 0);
  for (int i = 0; i < n; i++) {
    int k = all ? vf_choose(nm("kind", i).c_str(), 4) : (i + 3) % 4;
    b.k.push_back(k);
    if (k & 1) { b.l[i] = vf_in(nm("l", i).c_str(), -1e4, 1e4); b.il[i] = 1; }
    if (k & 2) { b.u[i] = vf_in(nm("u", i).c_str(), -1e4, 1e4); b.iu[i] = 1; }
    if (k == 3) vf_assume_le(b.l[i] + 1. / 1024, b.u[i]);
  }
  return b;
}
static void check_one(double r, double x, double l, double u, int k, double k1, double k2) {
  double ml = 0, mu = 0;
  if (k & 1) ml = k1 * dmax(1., dabs_(l));
  if (k & 2) mu = k1 * dmax(1., dabs_(u));
  if (k == 3) { double w = k2 * (u - l); ml = dmin(ml, w); mu = dmin(mu, w); }
  if (k & 1) { vf_assert_lt(l, r, "strictly above the lower bound"); vf_assert_le(l + ml - SM, r, "respects the lower fraction rule"); }
  if (k & 2) { vf_assert_lt(r, u, "strictly below the upper bound"); vf_assert_le(r, u - mu + SM, "respects the upper fraction rule"); }
  bool inl = !(k & 1) || x >= l + ml, inu = !(k & 2) || x <= u - mu;
  if (inl && inu) { vf_assert_le(r, x + SM, "point far enough inside is unchanged"); vf_assert_le(x - SM, r, "point far enough inside is unchanged"); }
  if (!inl) { vf_assert_le(r, l + ml + SM, "moved no further than the rule"); }
  if (!inu && (k != 3 || inl)) { vf_assert_le(u - mu - SM, r, "moved no further than the rule"); }
  if (k == 0) vf_assert_eq(r, x, "free entry unchanged");
}
VF_HARNESS(one, 0, "done") {
  vf_mode_fork(1);
  BV b = bnds(1, "b", true);
  double k1 = vf_in("kappa1", 1e-6, 10), k2 = vf_in("kappa2", 1e-3, 0.499);
  HV x(1, "x"), L(b.l), U(b.u), IL(b.il), IU(b.iu);
  bool ok = x.v.projectIntoBounds_local(L.v, IL.v, U.v, IU.v, k1, k2);
  vf_assert(ok, "consistent bounds are accepted");
  check_one(get(x.v)[0], x.s[0], b.l[0], b.u[0], b.k[0], k1, k2);
  L.unchanged("bounds unchanged"); U.unchanged("bounds unchanged"); IL.unchanged("patterns unchanged"); IU.unchanged("patterns unchanged");
  vf_reach("done");
}
VF_HARNESS(two, 0, "done") { // an arbitrary entry after (or before) one of every kind and position
  vf_mode_fork(1);
  int p = vf_choose("sympos", 2), q = 1 - p, kq = vf_choose("otherkind", 4), w = vf_choose("otherpoint", 3);
  BV b; b.l.assign(2, -1e20); b.u.assign(2, 1e20); b.il.assign(2, 0); b.iu.assign(2, 0); b.k.assign(2, 0);
  b.k[q] = kq; if (kq & 1) { b.l[q] = -3; b.il[q] = 1; } if (kq & 2) { b.u[q] = 5; b.iu[q] = 1; }
  int k = vf_choose("kind", 4); b.k[p] = k;
  if (k & 1) { b.l[p] = vf_in("l", -1e4, 1e4); b.il[p] = 1; }
  if (k & 2) { b.u[p] = vf_in("u", -1e4, 1e4); b.iu[p] = 1; }
  if (k == 3) vf_assume_le(b.l[p] + 1. / 1024, b.u[p]);
  double k1 = 0.0625, k2 = 0.015625;
  DV x(2); x[p] = R("x"); x[q] = w == 0 ? -10 : w == 1 ? 1 : 20;
  HV X(x), L(b.l), U(b.u), IL(b.il), IU(b.iu);
  bool ok = X.v.projectIntoBounds_local(L.v, IL.v, U.v, IU.v, k1, k2);
  vf_assert(ok, "consistent bounds are accepted");
  for (int i = 0; i < 2; i++) check_one(get(X.v)[i], x[i], b.l[i], b.u[i], b.k[i], k1, k2);
  vf_reach("done");
}
VF_HARNESS(longer, 0, "done") { // every entry of a longer vector is treated: all but one entry known to be far inside
  int n = 9; vf_mode_fork(1);
  int p = vf_choose("pos", n), k = 1 + vf_choose("kind", 3);
  DV l(n, -1.), u(n, 1.), il(n, 1.), iu(n, 1.), x(n, 0.);
  il[p] = k & 1; iu[p] = k >> 1; l[p] = k & 1 ? vf_in("l", -1e4, 1e4) : -1e20; u[p] = k & 2 ? vf_in("u", -1e4, 1e4) : 1e20; if (k == 3) vf_assume_le(l[p] + 1. / 1024, u[p]); x[p] = R("x");
  HV X(x), L(l), U(u), IL(il), IU(iu);
  bool ok = X.v.projectIntoBounds_local(L.v, IL.v, U.v, IU.v, 0.0625, 0.015625);
  vf_assert(ok, "consistent bounds are accepted");
  DV r = get(X.v);
  for (int i = 0; i < n; i++) if (i != p) vf_assert_eq(r[i], 0., "interior entries unchanged");
  check_one(r[p], x[p], l[p], u[p], k, 0.0625, 0.015625);
  vf_reach("done");
}
VF_HARNESS(inconsistent, 0, "done") {
  int n = 3, p = vf_choose("pos", n);
  HV x(n, "x"); DV l(n), u(n);
  for (int i = 0; i < n; i++) { l[i] = R(nm("l", i)); u[i] = R(nm("u", i)); if (i == p) vf_assume_lt(u[i], l[i]); else vf_assume_le(l[i] + 1, u[i]); }
  vf_mode_fork(1);
  HV L(l), U(u), I(DV(n, 1.));
  vf_assert(!x.v.projectIntoBounds_local(L.v, I.v, U.v, I.v, 1e-2, 1e-2), "lower > upper is reported as failure");
  vf_reach("done");
}
VF_HARNESS(iterate, 0, "done") { // the iterate uses the variable bounds for x and the inequality bounds for d
  vf_mode_fork(1);
  DProb p({3, vf_choose("kx1", 4)}, {3, 1 + vf_choose("kc1", 2)}, true, false);
  if (vf_choose("which", 2)) { p.xl[0] = -1; p.xu[0] = 4; p.cl[0] = 2; p.cu[0] = 3; if (p.kx[1] & 1) p.xl[1] = -9; if (p.kx[1] & 2) p.xu[1] = -7; }
  else { p.cl[0] = 2; p.cu[0] = 3; if (p.kc[1] & 1) p.cl[1] = -9; if (p.kc[1] & 2) p.cu[1] = -7; if (p.kx[1] & 1) p.xl[1] = -9; if (p.kx[1] & 2) p.xu[1] = -7; }
  NlpFix<> F(p); F.init();
  hiopIterate it(&F.nlp);
  fill(it.x, "x"); fill(it.d, "d");
  DV x = get(*it.x), d = get(*it.d);
  double k1 = 0.0625, k2 = 0.015625;
  it.projectPrimalsXIntoBounds(k1, k2);
  it.projectPrimalsDIntoBounds(k1, k2);
  for (int i = 0; i < 2; i++) check_one(D(it.x)[i], x[i], p.xl[i], p.xu[i], p.kx[i], k1, k2);
  for (int i = 0; i < 2; i++) check_one(D(it.d)[i], d[i], p.cl[i], p.cu[i], p.kc[i], k1, k2);
  vf_reach("done");
}

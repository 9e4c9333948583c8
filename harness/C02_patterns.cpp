// vf-bounds: vectors of 0..3 entries (thorough 4), every 0/1 pattern; vectors of 9 with one arbitrary entry at every position and 22 patterns, arbitrary real contents and scalars; a modelled second rank for the reductions
#include "hc.hpp"
static int N() { int m = vf_thorough() ? 5 : 4, k = vf_choose("n", m + 1); return k == m ? big(9) : k; }
static double scal() { int k = vf_choose("scalar", 4); return k == 0 ? 0.0 : k == 1 ? 1.0 : k == 2 ? -1.0 : R("a"); }
VF_HARNESS(masked_update, 0, "done") {
  int n = N();
  DV p = pat(n, "p"); HV P(p), y(n, "y"), x(n, "x"), z(n, "z");
  double a = scal();
  DV e = y.s;
  switch (vf_choose("op", 8)) {
  case 0: y.v.axpy_w_pattern(a, x.v, P.v); for (int i = 0; i < n; i++) if (p[i]) e[i] = y.s[i] + a * x.s[i]; break;
  case 1: for (int i = 0; i < n; i++) if (p[i]) vf_assume_ne(z.s[i], 0); y.v.axdzpy_w_pattern(a, x.v, z.v, P.v); for (int i = 0; i < n; i++) if (p[i]) e[i] = y.s[i] + a * x.s[i] / z.s[i]; break;
  case 2: for (int i = 0; i < n; i++) if (p[i]) vf_assume_ne(x.s[i], 0); y.v.componentDiv_w_selectPattern(x.v, P.v); for (int i = 0; i < n; i++) e[i] = p[i] ? y.s[i] / x.s[i] : 0.0; break;
  case 3: y.v.addConstant_w_patternSelect(a, P.v); for (int i = 0; i < n; i++) if (p[i]) e[i] = y.s[i] + a; break;
  case 4: y.v.setToConstant_w_patternSelect(a, P.v); for (int i = 0; i < n; i++) e[i] = p[i] ? a : 0.0; break;
  case 5: y.v.copy_from_w_pattern(x.v, P.v); for (int i = 0; i < n; i++) if (p[i]) e[i] = x.s[i]; break;
  case 6: for (int i = 0; i < n; i++) if (p[i]) vf_assume_ne(x.s[i], 0); y.v.addLogBarrierGrad(a, x.v, P.v); for (int i = 0; i < n; i++) if (p[i]) e[i] = y.s[i] + a / x.s[i]; break;
  case 7: y.v.selectPattern(P.v); for (int i = 0; i < n; i++) if (!p[i]) e[i] = 0; break;
  }
  eqv(y.v, e, "masked update");
  P.unchanged(); x.unchanged(); z.unchanged();
  vf_reach("done");
}
// entries outside the pattern may hold zero or anything: no operation may read them as divisor
VF_HARNESS(masked_zero_divisors, 0, "done") {
  int n = N();
  DV p = pat(n, "p"), zs = symv(n, "z"); HV P(p), y(n, "y"), x(n, "x");
  for (int i = 0; i < n; i++) { if (!p[i]) zs[i] = 0.0; else vf_assume_ne(zs[i], 0); }
  HV z(zs);
  double a = scal();
  DV e = y.s;
  switch (vf_choose("op", 3)) {
  case 0: y.v.axdzpy_w_pattern(a, x.v, z.v, P.v); for (int i = 0; i < n; i++) if (p[i]) e[i] = y.s[i] + a * x.s[i] / zs[i]; break;
  case 1: y.v.componentDiv_w_selectPattern(z.v, P.v); for (int i = 0; i < n; i++) e[i] = p[i] ? y.s[i] / zs[i] : 0.0; break;
  case 2: y.v.addLogBarrierGrad(a, z.v, P.v); for (int i = 0; i < n; i++) if (p[i]) e[i] = y.s[i] + a / zs[i]; break;
  }
  eqv(y.v, e, "masked update, zero divisors outside the pattern");
  vf_reach("done");
}
static double g_pd; static int g_pi;
static double peerd(int, int, double, int) { return g_pd; }
static int peeri(int, int, int, int) { return g_pi; }
VF_HARNESS(masked_inspect, 0, "done") {
  int n = N();
  bool d = vf_choose("distributed", 2);
  if (d) { vfs_mpi_peer_d = peerd; vfs_mpi_peer_i = peeri; vfs_mpi_rank = vf_choose("rank", 2); }
  index_type part[3] = {0, vfs_mpi_rank ? 1 : n, n + 1};
  hiopVectorPar* xp = d ? new hiopVectorPar(n + 1, part, MPI_COMM_WORLD) : new hiopVectorPar(n);
  hiopVectorPar* pp = (hiopVectorPar*)xp->alloc_clone();
  DV s = symv(n, "x"), p = pat(n, "p"); put(*xp, s); put(*pp, p);
  g_pd = R("peer"); g_pi = vf_choose("peer_flag", 2);
  switch (vf_choose("op", 3)) {
  case 0: {
    for (double v : s) vf_assume(v < 1e300); vf_assume(g_pd < 1e300);
    double e = std::numeric_limits<double>::max(); if (d) e = g_pd;
    for (int i = 0; i < n; i++) if (p[i]) e = dmin(e, s[i]);
    vf_assert_eq(xp->min_w_pattern(*pp), e, "masked minimum"); break; }
  case 1: { bool e = true; for (int i = 0; i < n; i++) if (p[i] && s[i] <= 0) e = false; if (d && !g_pi) e = false;
    vf_assert((xp->allPositive_w_patternSelect(*pp) != 0) == e, "masked all-positive"); break; }
  case 2: { bool e = true; for (int i = 0; i < n; i++) if (!p[i] && s[i] != 0) e = false; if (d && !g_pi) e = false;
    vf_assert((xp->matchesPattern(*pp) != 0) == e, "matches pattern"); break; }
  }
  eqv(*xp, s, "vector unchanged"); eqv(*pp, p, "pattern unchanged");
  vf_reach("done");
}
// packed copies driven by a pattern
#include "packscatter.inc"

// vf-bounds: 2 variables, up to 2 equalities and 2 inequalities of every kind (dense, mixed dense-sparse and sparse problems with several patterns), arbitrary reference points (also zero), trial points, elastic variables, user functions with curvature, multipliers, barrier parameters and infeasibilities; termination test with one filter entry
// vf-flags: -DHIOP_SPARSE -DHIOP_USE_COINHSL
// vf-sources: LinAlg/hiopLinSolverSymSparseMA57.cpp Optimization/hiopKKTLinSysSparse.cpp Optimization/hiopKKTLinSysSparseCondensed.cpp Optimization/hiopKKTLinSysSparseNormalEqn.cpp
#include "fr.hpp"
static const double z2(double x) { return x * x; }
VF_HARNESS(functions, 0, "checked") {
  int c = vf_choose("cons", 5), zero = vf_choose("zero", 2); Ctx& C = *make(c, zero); View& v = *C.v;
  for (int i = 0; i < C.n; i++) { vf_assert_eq(v.lo[v.X[i]], C.p.xl[i], "lower bounds inherited"); vf_assert_eq(v.up[v.X[i]], C.p.xu[i], "upper bounds inherited"); }
  for (auto* g : {&v.PE, &v.NE, &v.PI, &v.NI}) for (int k : *g) { vf_assert(v.lo[k] == 0. && v.up[k] >= 1e20, "elastic variables nonnegative"); }
  for (int k = 0; k < C.me; k++) { vf_assert_eq(v.cl[k], C.p.cl[C.eqs[k]], "equality right-hand side"); vf_assert_eq(v.cu[k], C.p.cl[C.eqs[k]], "equality right-hand side"); }
  for (int k = 0; k < C.mi; k++) { vf_assert_eq(v.cl[C.me + k], C.p.cl[C.ins[k]], "inequality lower bound"); vf_assert_eq(v.cu[C.me + k], C.p.cu[C.ins[k]], "inequality upper bound"); }
  DV y = symv(v.n, "y"), g, cc; double f, zeta = std::sqrt(C.mu0);
  bool ok = v.grad(y, g); vf_assert(ok, "gradient evaluated"); double rho = g[(C.me ? v.PE : v.PI)[0]]; vf_assert(rho > 0., "positive penalty");
  ok = v.f(y, f); vf_assert(ok, "objective evaluated");
  double e = 0; for (auto* q : {&v.PE, &v.NE, &v.PI, &v.NI}) for (int k : *q) { e = e + rho * y[k]; vf_assert_eq(g[k], rho, "gradient of the penalty"); }
  for (int i = 0; i < C.n; i++) { double t = y[v.X[i]] - C.xr[i]; e = e + 0.5 * zeta * z2(C.dr[i]) * z2(t); vf_assert_eq(g[v.X[i]], zeta * z2(C.dr[i]) * t, "gradient of the proximal term"); }
  vf_assert_eq(f, e, "objective");
  ok = v.cons(y, cc); vf_assert(ok, "constraints evaluated");
  for (int k = 0; k < C.me; k++) vf_assert_eq(cc[k], C.c(y, k) - y[v.PE[k]] + y[v.NE[k]], "equality bodies");
  for (int k = 0; k < C.mi; k++) vf_assert_eq(cc[C.me + k], C.c(y, C.me + k) - y[v.PI[k]] + y[v.NI[k]], "inequality bodies");
  // a second evaluation elsewhere is not affected by the first
  DV w = symv(v.n, "w"); ok = v.cons(w, cc); for (int k = 0; k < C.me; k++) vf_assert_eq(cc[k], C.c(w, k) - w[v.PE[k]] + w[v.NE[k]], "equality bodies");
  ok = v.grad(w, g); for (int i = 0; i < C.n; i++) vf_assert_eq(g[v.X[i]], zeta * z2(C.dr[i]) * (w[v.X[i]] - C.xr[i]), "gradient of the proximal term");
  vf_reach("checked");
}
VF_HARNESS(derivatives, 0, "checked") {
  int c = vf_choose("cons", 5), pt = vf_choose("pattern", 3); Ctx& C = *make(c, false, pt); View& v = *C.v; for (auto& t : C.xr) vf_assume_lt(0.5, t);
  DV y = symv(v.n, "y"), J = v.jac(y);
  for (int k = 0; k < v.m; k++) for (int j = 0; j < v.n; j++) {
    double e = 0; for (int i = 0; i < C.n; i++) if (v.X[i] == j && C.nz(k < C.me ? C.eqs[k] : C.ins[k - C.me], i)) e = C.dc(y, k, i);
    if (k < C.me) { if (j == v.PE[k]) e = -1; if (j == v.NE[k]) e = 1; } else { if (j == v.PI[k - C.me]) e = -1; if (j == v.NI[k - C.me]) e = 1; }
    vf_assert_eq(J[k * v.n + j], e, "Jacobian");
  }
  if (C.var) {
    DV l = symv(v.m, "l"), H = v.hess(y, l); double zeta = std::sqrt(C.mu0);
    for (int a = 0; a < v.n; a++) for (int b = 0; b < v.n; b++) {
      double e = 0; if (a == b) for (int i = 0; i < C.n; i++) if (v.X[i] == a) { e = zeta * z2(C.dr[i]); for (int k = 0; k < v.m; k++) e = e + l[k] * C.p.Q[(k < C.me ? C.eqs[k] : C.ins[k - C.me]) * C.n + i]; }
      vf_assert_eq(H[a * v.n + b], e, "Hessian");
    }
  }
  vf_reach("checked");
}
static void elastic(Ctx& C, const DV& y, const DV& s, double mu, double rho) {
  View& v = *C.v;
  for (int k = 0; k < C.me + C.mi; k++) {
    double q = y[k < C.me ? v.PE[k] : v.PI[k - C.me]], r = y[k < C.me ? v.NE[k] : v.NI[k - C.me]], rhs = k < C.me ? C.p.cl[C.eqs[k]] : s[k - C.me];
    vf_assert_lt(0., q, "p positive"); vf_assert_lt(0., r, "n positive");
    vf_assert_eq(C.c(y, k) - q + r, rhs, "constraints hold"); vf_assert_eq(mu * (q + r), 2. * rho * q * r, "p and n balance the penalty and the barrier");
  }
}
VF_HARNESS(start, 0, "checked") {
  int c = vf_choose("cons", 3), zero = vf_choose("zero", 2); Ctx& C = *make(c, zero); View& v = *C.v;
  for (int k = 0; k < C.me + C.mi; k++) { double t = k < C.me ? D(C.a->_c)[k] - C.p.cl[C.eqs[k]] : D(C.a->_d)[k - C.me] - C.s[k - C.me]; vf_assume_le(dabs_(t), 1e8); }
  DV x0, zl, zu, lam, s, vl, vu, g; bool ok = v.grad(DV(v.n, 0.), g); double rho = g[(C.me ? v.PE : v.PI)[0]];
  ok = v.warm(x0, zl, zu, lam, s, vl, vu); vf_assert(ok, "starting point");
  for (int i = 0; i < C.n; i++) vf_assert_eq(x0[v.X[i]], C.xr[i], "starts at the reference point");
  eqd(s, C.s, "slacks of the current point"); elastic(C, x0, C.s, C.mu0, rho);
  for (auto* q : {&v.PE, &v.NE, &v.PI, &v.NI}) for (int k : *q) { vf_assert_eq(zl[k] * x0[k], C.mu0, "complementarity of p and n"); vf_assert_eq(zu[k], 0., "no upper multiplier"); }
  auto* it = C.a->it_curr; for (int i = 0; i < C.n; i++) { vf_assert_eq(zl[v.X[i]], dmin(rho, D(it->zl)[i]), "zl"); vf_assert_eq(zu[v.X[i]], dmin(rho, D(it->zu)[i]), "zu"); }
  for (int i = 0; i < C.mi; i++) { vf_assert_eq(vl[i], dmin(rho, D(it->vl)[i]), "vl"); vf_assert_eq(vu[i], dmin(rho, D(it->vu)[i]), "vu"); }
  vf_reach("checked");
}
// the elastic variables are reset for the current x when the restoration itself gets stuck
VF_HARNESS(reset, 0, "checked") {
  int c = vf_choose("cons", 3); Ctx& C = *make(c, false, 0, {K_FREE, K_LOW}); View& v = *C.v; for (auto& t : C.xr) vf_assume_lt(0.5, t);
  DV y = symv(v.n, "y"), g, s2 = symv(C.mi, "s2"); bool ok = v.grad(DV(v.n, 0.), g); double rho = g[(C.me ? v.PE : v.PI)[0]], mu2 = vf_in("mu2", 1e-8, 1e4);
  for (int k = 0; k < C.me + C.mi; k++) vf_assume_le(dabs_(C.c(y, k)), 1e6); for (double t : s2) vf_assume_le(dabs_(t), 1e6); for (double t : C.p.cl) if (vf_is_sym(t)) vf_assume_le(dabs_(t), 1e6);
  double f; ok = v.f(y, f); ok = v.callback(0, y, s2, mu2); vf_assert(ok, "restoration continues at its first iterate");
  DV w = y; ok = v.force(w); vf_assert(ok, "update"); for (int i = 0; i < C.n; i++) vf_assert_eq(w[v.X[i]], y[v.X[i]], "x unchanged");
  elastic(C, w, s2, mu2, rho); vf_reach("checked");
}
// when the restoration stops, and with what
VF_HARNESS(stop, 0, "stopped,continued") {
  int c = vf_choose("cons", 4), iter = vf_choose("iter", 2); Ctx& C = *make(c, false, 0, {K_FREE, K_FREE}); View& v = *C.v; for (auto& t : C.xr) vf_assume_lt(0.5, t);
  double tf = vf_nonneg("theta_f"), pf = R("phi_f"); C.a->filter.reinitialize(1e9); C.a->filter.add(tf, pf); C.a->logbar->mu = C.mu; C.a->logbar->kappa_d = 0.;
  DV y = symv(v.n, "y"), s2(C.mi); double f; bool ok;
  for (int k = 0; k < C.mi; k++) { s2[k] = vf_in(nm("s2", k).c_str(), -1e5, 1e5); if (D(C.N->get_idl())[k] == 1.) vf_assume_le(C.p.cl[C.ins[k]] + 0.5, s2[k]); if (D(C.N->get_idu())[k] == 1.) vf_assume_le(s2[k] + 0.5, C.p.cu[C.ins[k]]); }
  double th = 0, inf = 0; for (int k = 0; k < C.me + C.mi; k++) { double t = dabs_(C.c(y, k) - (k < C.me ? C.p.cl[C.eqs[k]] : s2[k - C.me])); th = th + t; inf = dmax(inf, t); }
  ok = v.f(y, f); DV g; v.cons(y, g); v.grad(y, g); double mu2 = vf_in("mu2", 1e-8, 1e4);
  hiopIterate t(C.N); for (int i = 0; i < C.n; i++) D(t.x)[i] = y[v.X[i]]; put(*t.d, s2); t.determineSlacks();
  DV x; for (int i : v.X) x.push_back(y[i]); hiopLogBarProblem lb(C.N); lb.mu = C.mu; lb.kappa_d = 0.;
  lb.updateWithNlpInfo_trial_funcOnly(t, C.p.f(x.data()), *C.a->_c, *C.a->_d); double phi = lb.f_logbar_trial;
  ok = v.callback(iter, y, s2, mu2);
  bool failed = v.failed(); vf_assert(!failed, "no failure noted");
  bool stop = iter > 0; if (stop && !(inf <= 0.5 * C.feas)) stop = false; if (stop && th >= tf && phi >= pf) stop = false; if (stop && th >= 1e9) stop = false;
  vf_assert(ok == !stop, "stops exactly when infeasibility is reduced and the filter accepts");
  if (stop) { eqd(v.solx(), x, "returned x"); eqd(v.sold(), s2, "returned d"); vf_reach("stopped"); }
  else { ok = v.grad(y, g); double zeta = std::sqrt(mu2); for (int i = 0; i < C.n; i++) vf_assert_eq(g[v.X[i]], zeta * z2(C.dr[i]) * (x[i] - C.xr[i]), "proximal weight follows mu"); vf_reach("continued"); }
}

// vf-bounds: 2 variables, constraint arrangements with equalities and inequalities in any order (up to 3; 3 arrangements of 7), all gradients and Jacobians at the starting point, all points, functions (with curvature), bounds and multipliers, scaling options; dense, mixed dense-sparse and sparse problems, two-call and one-call evaluation
#include "sm.hpp"
struct CP : DProb {
  using DProb::DProb; using DProb::get_starting_point;
  DV i_zl, i_zu, i_s, i_g, i_lam; double i_obj = 0;
  bool iterate_callback(int, double o, double, int, const double* x, const double* zl, const double* zu, int mi, const double* s, int, const double* gg, const double* l, double, double, double, double, double, double, int) {
    i_obj = o; i_zl.assign(zl, zl + n); i_zu.assign(zu, zu + n); i_s.assign(s, s + mi); i_g.assign(gg, gg + m); i_lam.assign(l, l + m); return true;
  }
};
struct Map { std::vector<int> eq, in; Map(const DProb& p) { for (int j = 0; j < p.m; j++) (p.kc[j] == K_EQ ? eq : in).push_back(j); } };
static std::vector<int> arr() { int k = vf_choose("arr", 5); return k == 0 ? std::vector<int>{K_EQ, K_LOW} : k == 1 ? std::vector<int>{K_BOTH, K_EQ} : k == 2 ? std::vector<int>{K_UPP, K_EQ, K_LOW} : k == 3 ? std::vector<int>{K_EQ} : std::vector<int>{K_LOW}; }
static void setJ(hiopMatrix* M, const DV& v) { // same values in every matrix format: rows of 2 entries
  if (auto* d = dynamic_cast<hiopMatrixDenseRowMajor*>(M)) { for (size_t i = 0; i < v.size(); i++) d->local_data()[i] = v[i]; return; }
}
// a scaled problem: bodies, derivatives, bounds and what comes back to the user are consistent with one factor per function
template <class N, class P> static void consistent(N& nlp, CP& p, P* q, bool hess) {
  Map mp(p); int ne = mp.eq.size(), ni = mp.in.size(), n = p.n;
  hiopIterate it(&nlp); hiopVector *c = nlp.alloc_dual_eq_vec(), *d = nlp.alloc_dual_ineq_vec(), *g = nlp.alloc_primal_vec(); hiopMatrix *Jc = nlp.alloc_Jac_c(), *Jd = nlp.alloc_Jac_d();
  double f; put(*it.x, p.x0); // the starting point
  auto ev = [&]() {
    bool a = nlp.eval_f(*it.x, true, f), b = nlp.eval_grad_f(*it.x, false, *g), e = nlp.eval_c_d(*it.x, false, *c, *d), h = nlp.eval_Jac_c_d(*it.x, false, *Jc, *Jd); vf_assert(a && b && e && h, "evaluated");
  };
  ev();
  bool on = nlp.apply_scaling(*c, *d, *g, *Jc, *Jd);
  if (!on) { vf_reach("not scaled"); return; }
  double of = nlp.get_obj_scale(); vf_assert_lt(0, of, "objective factor is positive");
  DV sc(p.m); // per-constraint factors as applied to the bodies
  { DV one(p.m, 1.); hiopVector *a = nlp.alloc_dual_eq_vec(), *b = nlp.alloc_dual_ineq_vec(); a->setToConstant(1.); b->setToConstant(1.); nlp.nlp_transformations_.apply_to_cons_eq(*a, ne); nlp.nlp_transformations_.apply_to_cons_ineq(*b, ni);
    for (int k = 0; k < ne; k++) sc[mp.eq[k]] = D(a)[k]; for (int k = 0; k < ni; k++) sc[mp.in[k]] = D(b)[k]; }
  for (int j = 0; j < p.m; j++) vf_assert_lt(0, sc[j], "constraint factor is positive");
  DV x = symv(n, "x"); put(*it.x, x); ev();
  vf_assert_eq(f, of * p.f(x.data()), "objective scaled");
  for (int i = 0; i < n; i++) vf_assert_eq(D(g)[i], of * p.df(x.data(), i), "gradient scaled");
  DV jc = dense_of(Jc), jd = dense_of(Jd);
  for (int k = 0; k < ne; k++) { int j = mp.eq[k]; vf_assert_eq(D(c)[k], sc[j] * p.c(x.data(), j), "equality body scaled"); vf_assert_eq(D(nlp.get_crhs())[k], sc[j] * p.cl[j], "right-hand side scaled"); for (int i = 0; i < n; i++) vf_assert_eq(jc[k * n + i], sc[j] * p.dc(x.data(), j, i), "equality Jacobian scaled"); }
  for (int k = 0; k < ni; k++) { int j = mp.in[k]; vf_assert_eq(D(d)[k], sc[j] * p.c(x.data(), j), "inequality body scaled"); if (p.kc[j] & 1) vf_assert_eq(D(nlp.get_dl())[k], sc[j] * p.cl[j], "lower side scaled"); if (p.kc[j] & 2) vf_assert_eq(D(nlp.get_du())[k], sc[j] * p.cu[j], "upper side scaled"); for (int i = 0; i < n; i++) vf_assert_eq(jd[k * n + i], sc[j] * p.dc(x.data(), j, i), "inequality Jacobian scaled"); }
  for (int i = 0; i < n; i++) { if (p.kx[i] & 1) vf_assert_eq(D(nlp.get_xl())[i], p.xl[i], "variable bounds kept"); if (p.kx[i] & 2) vf_assert_eq(D(nlp.get_xu())[i], p.xu[i], "variable bounds kept"); }
  fill(it.zl, "zl"); fill(it.zu, "zu"); fill(it.yc, "yc"); fill(it.yd, "yd"); fill(it.d, "s");
  DV y(p.m), sl(ni); for (int k = 0; k < ne; k++) y[mp.eq[k]] = D(it.yc)[k]; for (int k = 0; k < ni; k++) { y[mp.in[k]] = D(it.yd)[k]; sl[k] = D(it.d)[k] / sc[mp.in[k]]; }
  if (hess) { // Hessian of the scaled Lagrangian
    hiopMatrix* H = nlp.alloc_Hess_Lagr(); double o = R("objfactor"); bool ok = nlp.eval_Hess_Lagr(*it.x, false, o, *it.yc, *it.yd, true, *H); vf_assert(ok, "Hessian evaluated"); DV h = dense_of(H);
    for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) { double v = 0; if (i == k) { v = o * of * p.h[i]; for (int j = 0; j < p.m; j++) v = v + y[j] * sc[j] * p.Q[j * n + i]; } vf_assert_eq(h[i * n + k], v, "Hessian scaled"); }
  }
  // unscaled quantities for the user: (of f, sc c, y, z) satisfy the scaled conditions iff (f, c, sc y/of, z/of) satisfy the unscaled ones
  DV uy(p.m), body(p.m); for (int j = 0; j < p.m; j++) { uy[j] = sc[j] * y[j] / of; body[j] = p.c(x.data(), j); }
  DV uzl(n), uzu(n); for (int i = 0; i < n; i++) { uzl[i] = D(it.zl)[i] / of; uzu[i] = D(it.zu)[i] / of; }
  for (int rep = 0; rep < 2; rep++) { // before and after the final callback
    DV a(n), b(n), l(p.m); nlp.get_dual_solutions(it, a.data(), b.data(), l.data());
    eqd(a, uzl, "returned multipliers of the lower bounds"); eqd(b, uzu, "returned multipliers of the upper bounds"); eqd(l, uy, "returned multipliers of the constraints");
    if (rep) break;
    nlp.user_callback_iterate(0, f, 0., *it.x, *it.zl, *it.zu, *it.d, *c, *d, *it.yc, *it.yd, 0, 0, 0, 0, 0, 0, 0);
    if (!q) { vf_assert_eq(p.i_obj, p.f(x.data()), "iterate callback objective"); eqd(p.i_g, body, "iterate callback bodies"); eqd(p.i_lam, uy, "iterate callback multipliers"); eqd(p.i_zl, uzl, "iterate callback zl"); eqd(p.i_zu, uzu, "iterate callback zu"); eqd(p.i_s, sl, "iterate callback slacks"); }
    nlp.user_callback_solution(Solve_Success, *it.x, *it.zl, *it.zu, *c, *d, *it.yc, *it.yd, f);
    vf_assert_eq(p.sol_obj, p.f(x.data()), "objective returned"); eqd(p.sol_g, body, "constraint bodies returned"); eqd(p.sol_lam, uy, "solution callback multipliers of the constraints"); eqd(p.sol_zl, uzl, "solution callback zl"); eqd(p.sol_zu, uzu, "solution callback zu"); eqd(p.sol_x, x, "x returned");
  }
  vf_reach("scaled");
}
template <class N> static void opts(N& n, int mode) {
  n.options->SetIntegerValue("verbosity_level", 0); n.options->SetStringValue("scaling_type", "gradient"); n.options->SetNumericValue("bound_relax_perturb", 0.0);
  if (mode == 1) { n.options->SetNumericValue("scaling_max_obj_grad", 25.); n.options->SetNumericValue("scaling_min_grad", 0.25); }
  if (mode == 2) { n.options->SetNumericValue("scaling_max_con_grad", 12.5); n.options->SetNumericValue("scaling_max_grad", 25.); }
}
// a starting point with concrete derivatives (norms and targets such that the factors are powers of two, on which doubles are exact)
static void concrete(DProb& p) {
  int k = vf_choose("derivs", 5);
  double G[5][2] = {{400., 1.}, {0.78125, -0.25}, {0., 0.}, {-12800., 3.}, {50., 12.5}}; for (int i = 0; i < 2; i++) p.g[i] = G[k][i] - p.h[i] * p.x0[i];
  double A[5][6] = {{1., 1.5625, 400., 0., 1., -1.5625}, {800., 0., 0., 0., -1600., 5.}, {3200., 1., 1., 1.5625, 0., 0.}, {0., 0., 0., 1.5625, 1., 200.}, {1.5625, -1., 0., 1.5625, 1., 0.}};
  for (int j = 0; j < p.m; j++) for (int i = 0; i < 2; i++) p.A[j * 2 + i] = A[k][j * 2 + i] - p.Q[j * 2 + i] * p.x0[i];
}
VF_HARNESS(dense, 0, "scaled,not scaled") { CP p({K_BOTH, K_LOW}, arr(), vf_choose("calls", 2), true); concrete(p); hiopNlpDenseConstraints N(p); opts(N, vf_choose("opts", 3)); bool ok = N.finalizeInitialization(); vf_assert(ok, "init"); consistent(N, p, (MProb*)nullptr, false); }
VF_HARNESS(mds, 0, "scaled,not scaled") { CP p({K_BOTH, K_LOW}, arr(), vf_choose("calls", 2), true); concrete(p); MProb q(p, 1, {1, 1, 1, 1, 1, 1}); hiopNlpMDS N(q); opts(N, vf_choose("opts", 3)); bool ok = N.finalizeInitialization(); vf_assert(ok, "init"); consistent(N, p, &q, true); }
VF_HARNESS(sparse, 0, "scaled,not scaled") { CP p({K_BOTH, K_LOW}, arr(), vf_choose("calls", 2), true); concrete(p); SProb q(p, {1, 1, 1, 1, 1, 1}); hiopNlpSparse N(q); opts(N, vf_choose("opts", 3)); bool ok = N.finalizeInitialization(); vf_assert(ok, "init"); consistent(N, p, &q, true); }
// the documented default rule: gradients above scaling_max_grad are brought down to it, others are left alone; for every derivative
static void ruleof(bool two, bool own) {
  DProb p({K_FREE, K_FREE}, two ? std::vector<int>{K_LOW, K_EQ, K_EQ, K_UPP} : std::vector<int>{K_LOW, K_EQ}, true, false); NlpFix<> F(p); F.str("scaling_type", "gradient"); double mx = vf_in("max_grad", 1e-3, 1e3), mn = vf_choose("min", 2) ? vf_in("min_grad", 1e-6, 0.5) : 0.; F.num("scaling_max_grad", mx); F.num("scaling_min_grad", mn); double mo = own && vf_choose("obj", 2) ? vf_in("max_obj", 1e-3, 1e3) : 0.; F.num("scaling_max_obj_grad", mo); F.init(); auto& N = F.nlp;
  hiopVector *c = N.alloc_dual_eq_vec(), *d = N.alloc_dual_ineq_vec(), *g = N.alloc_primal_vec(); hiopMatrix *Jc = N.alloc_Jac_c(), *Jd = N.alloc_Jac_d(); c->setToZero(); d->setToZero();
  int R_ = two ? 2 : 1; DV jc(2 * R_, 0.), jd(2 * R_, 0.);
  if (two) { D(g)[0] = R("gr0"); D(g)[1] = 0; bool e = vf_choose("kind", 2); for (int k = 0; k < 2; k++) { if (e || (vf_thorough() && !k)) jc[2 * k + k] = R(nm("jc", k)); if (!e || (vf_thorough() && k)) jd[2 * k + 1 - k] = R(nm("jd", k)); } } // one derivative per row, rows of one kind vary
  else { for (int i = 0; i < 2; i++) D(g)[i] = R(nm("gr", i)); jc = symv(2, "jc"); jd = symv(2, "jd"); }
  setJ(Jc, jc); setJ(Jd, jd);
  double ng = dmax(dabs_(D(g)[0]), dabs_(D(g)[1])); DV nc(R_), nd(R_); for (int k = 0; k < R_; k++) { nc[k] = dmax(dabs_(jc[2 * k]), dabs_(jc[2 * k + 1])); nd[k] = dmax(dabs_(jd[2 * k]), dabs_(jd[2 * k + 1])); }
  bool on = N.apply_scaling(*c, *d, *g, *Jc, *Jd);
  double ot = mo > 0 ? mo : mx;
  if (!on) { vf_assert(ng < ot, "nothing to scale"); for (int k = 0; k < R_; k++) { vf_assert(nc[k] < mx, "nothing to scale"); vf_assert(nd[k] < mx, "nothing to scale"); } vf_assert_eq(N.get_obj_scale(), 1., "factor one"); vf_reach("not scaled"); return; }
  auto fac = [&](double n, double t) { double v = n > t ? t / n : 1.; return mn > 0. && v < mn ? mn : v; };
  double wo = mo > 0 ? (ng > 0 ? mo / ng : 1.) : fac(ng, mx); if (mo > 0 && mn > 0 && wo < mn) wo = mn;
  vf_assert_eq(N.get_obj_scale(), wo, "objective factor");
  c->setToConstant(1.); d->setToConstant(1.); N.nlp_transformations_.apply_to_cons_eq(*c, R_); N.nlp_transformations_.apply_to_cons_ineq(*d, R_);
  for (int k = 0; k < R_; k++) { vf_assert_eq(D(c)[k], fac(nc[k], mx), "equality factor"); vf_assert_eq(D(d)[k], fac(nd[k], mx), "inequality factor"); }
  vf_reach("scaled");
}
VF_HARNESS(rule, 0, "scaled,not scaled") { ruleof(false, true); }
VF_HARNESS(rule_rows, 0, "scaled,not scaled") { ruleof(true, vf_thorough()); }
// more constraints, three variables: derivatives at the starting point with norms that give exact factors
static const int LK[3][7] = {{K_EQ, K_LOW, K_EQ, K_UPP, K_BOTH, K_EQ, K_LOW}, {K_LOW, K_UPP, K_BOTH, K_LOW, K_EQ, K_EQ, K_EQ}, {K_EQ, K_EQ, K_EQ, K_EQ, K_EQ, K_EQ, K_EQ}};
static std::vector<int> larr() { const int* a = LK[vf_choose("arr", 3)]; return std::vector<int>(a, a + 7); }
static void lconcrete(DProb& p) {
  static const double G[3] = {1., -800., 3.}, A[21] = {1., 1.5625, 400., 0., -1600., 5., 12.5, 3200., 1., 0.5, 0., 1., -6400., 0., 1., 2., -3., 100., 200., 1., -1.};
  for (int i = 0; i < 3; i++) p.g[i] = G[i] - p.h[i] * p.x0[i];
  for (int j = 0; j < p.m; j++) for (int i = 0; i < 3; i++) p.A[j * 3 + i] = A[j * 3 + i] - p.Q[j * 3 + i] * p.x0[i];
}
VF_HARNESS(dense_large, 0, "scaled") { CP p({K_BOTH, K_LOW, K_UPP}, larr(), vf_choose("calls", 2), true); lconcrete(p); hiopNlpDenseConstraints N(p); opts(N, 0); bool ok = N.finalizeInitialization(); vf_assert(ok, "init"); consistent(N, p, (MProb*)nullptr, false); }
VF_HARNESS(mds_large, 0, "scaled") { CP p({K_BOTH, K_LOW, K_UPP}, larr(), vf_choose("calls", 2), true); lconcrete(p); MProb q(p, 2, std::vector<int>(21, 1)); hiopNlpMDS N(q); opts(N, 0); bool ok = N.finalizeInitialization(); vf_assert(ok, "init"); consistent(N, p, &q, true); }
VF_HARNESS(sparse_large, 0, "scaled") { CP p({K_BOTH, K_LOW, K_UPP}, larr(), vf_choose("calls", 2), true); lconcrete(p); SProb q(p, std::vector<int>(21, 1)); hiopNlpSparse N(q); opts(N, 0); bool ok = N.finalizeInitialization(); vf_assert(ok, "init"); consistent(N, p, &q, true); }

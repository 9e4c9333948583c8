// vf-bounds: 3 constraints in every arrangement of equalities and inequalities (2 variables), 6 arrangements of 8 constraints (5 variables), all bound values, points, multipliers and polynomial functions; dense, mixed dense-sparse and sparse problems, two-call and one-call evaluation
#include "sm.hpp"
typedef hiopInterfaceBase::NonlinearityType NT;
// arrangement of 3 constraints: 0 equality, 1 lower, 2 both
static std::vector<int> arr() {
  std::vector<int> r;
  for (int i = 0; i < 3; i++) { int k = vf_choose(nm("kc", i).c_str(), 2); r.push_back(k == 0 ? K_EQ : i == 0 ? K_LOW : i == 1 ? K_UPP : K_BOTH); }
  return r;
}
struct Map { std::vector<int> eq, in; Map(const DProb& p) { for (int j = 0; j < p.m; j++) (p.kc[j] == K_EQ ? eq : in).push_back(j); } };
static NT ty(int i) { return i == 0 ? hiopInterfaceBase::hiopLinear : i == 1 ? hiopInterfaceBase::hiopQuadratic : hiopInterfaceBase::hiopNonlinear; }
VF_HARNESS(classify, 0, "both kinds,all equal,no equality") {
  DProb p({K_FREE, K_FREE}, {K_FREE, K_FREE, K_FREE}, true, false);
  int one = vf_choose("sides", 3);
  for (int i = 0; i < 3; i++) {
    p.cl[i] = vf_in(nm("cl", i).c_str(), -1e4, 1e4); p.cu[i] = vf_in(nm("cu", i).c_str(), -1e4, 1e4); vf_assume_le(p.cl[i], p.cu[i]); p.ct[i] = ty(i);
  }
  if (one == 1) p.cl[1] = -INF;
  if (one == 2) { p.cu[1] = INF; p.cl[2] = -INF; }
  NlpFix<> F(p); F.init(); auto& N = F.nlp;
  int ne = 0, ni = 0;
  for (int j = 0; j < 3; j++) {
    if (p.cl[j] == p.cu[j]) {
      vf_assert(N.cons_eq_mapping_->local_data()[ne] == j, "equality refers to the user constraint"); vf_assert(N.get_cons_eq_type()[ne] == ty(j), "equality type");
      vf_assert_eq(N.get_crhs().local_data_const()[ne], p.cl[j], "right-hand side"); ne++;
    } else {
      vf_assert(N.cons_ineq_mapping_->local_data()[ni] == j, "inequality refers to the user constraint"); vf_assert(N.get_cons_ineq_type()[ni] == ty(j), "inequality type");
      vf_assert_eq(D(N.get_dl())[ni], p.cl[j], "lower side"); vf_assert_eq(D(N.get_du())[ni], p.cu[j], "upper side"); ni++;
    }
  }
  vf_assert(N.m_eq() == ne && N.m_ineq() == ni && ne + ni == 3, "every constraint exactly once");
  if (ne == 3) vf_reach("all equal"); else if (ne == 0) vf_reach("no equality"); else vf_reach("both kinds");
}
// bodies, Jacobians and Hessian multipliers; first=1 evaluates the Jacobian before the bodies
template <class N> static void evals(N& nlp, DProb& p, const std::vector<int>& mask, int first, bool hess, const std::vector<int>* lam_order, DV* lam_seen, double* of_seen) {
  Map mp(p); int ne = mp.eq.size(), ni = mp.in.size(), n = p.n;
  hiopVector *x = nlp.alloc_primal_vec(), *c = nlp.alloc_dual_eq_vec(), *d = nlp.alloc_dual_ineq_vec(); hiopMatrix *Jc = nlp.alloc_Jac_c(), *Jd = nlp.alloc_Jac_d();
  fill(x, "x"); DV xs = get(*x);
  auto bodies = [&]() { bool ok = nlp.eval_c_d(*x, true, *c, *d); vf_assert(ok, "bodies evaluated"); };
  auto jac = [&]() { bool ok = nlp.eval_Jac_c_d(*x, !first, *Jc, *Jd); vf_assert(ok, "Jacobian evaluated"); };
  if (first) { jac(); bodies(); } else { bodies(); jac(); }
  // a second evaluation at another point
  DV x2 = symv(n, "xx"); put(*x, x2); bodies(); jac();
  eqd(p.last_x, first < 0 ? xs : x2, "the user sees the point");
  for (int k = 0; k < ne; k++) vf_assert_eq(D(c)[k], p.c(x2.data(), mp.eq[k]), "equality body");
  for (int k = 0; k < ni; k++) vf_assert_eq(D(d)[k], p.c(x2.data(), mp.in[k]), "inequality body");
  DV dc = dense_of(Jc), dd = dense_of(Jd);
  for (int i = 0; i < n; i++) {
    for (int k = 0; k < ne; k++) vf_assert_eq(dc[k * n + i], mask[mp.eq[k] * n + i] ? p.dc(x2.data(), mp.eq[k], i) : 0., "equality Jacobian row");
    for (int k = 0; k < ni; k++) vf_assert_eq(dd[k * n + i], mask[mp.in[k] * n + i] ? p.dc(x2.data(), mp.in[k], i) : 0., "inequality Jacobian row");
  }
  if (hess) {
    hiopMatrix* H = nlp.alloc_Hess_Lagr(); hiopVector *yc = nlp.alloc_dual_eq_vec(), *yd = nlp.alloc_dual_ineq_vec(); fill(yc, "yc"); fill(yd, "yd"); double of = R("objfactor");
    bool ok = nlp.eval_Hess_Lagr(*x, false, of, *yc, *yd, true, *H); vf_assert(ok, "Hessian evaluated");
    DV want(p.m); for (int k = 0; k < ne; k++) want[mp.eq[k]] = D(yc)[k]; for (int k = 0; k < ni; k++) want[mp.in[k]] = D(yd)[k];
    for (int k = 0; k < p.m; k++) vf_assert_eq((*lam_seen)[k], want[(*lam_order)[k]], "Hessian multiplier order");
    vf_assert_eq(*of_seen, of, "objective factor");
    DV h = dense_of(H);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
      double v = 0; if (i == j) { v = of * p.h[i]; for (int k = 0; k < p.m; k++) v = v + want[k] * p.Q[k * n + i]; }
      vf_assert_eq(h[i * n + j], v, "Hessian of the Lagrangian");
    }
  }
  vf_reach("evaluated");
}
// longer arrangements of constraints (5 variables, 8 constraints)
static std::vector<int> big() {
  static const int A[6][8] = {{4, 1, 4, 2, 3, 4, 4, 1}, {1, 2, 4, 4, 4, 3, 1, 4}, {4, 4, 4, 4, 4, 1, 2, 3}, {3, 2, 1, 3, 2, 4, 1, 3}, {4, 4, 4, 4, 4, 4, 4, 4}, {1, 2, 3, 1, 2, 3, 1, 2}};
  const int* a = A[vf_choose("long", 6)]; return std::vector<int>(a, a + 8);
}
static std::vector<int> bigmask() { std::vector<int> r(40, 1); for (int k = 0; k < 40; k += 3) r[k] = 0; for (int k = 4; k < 40; k += 5) r[k] = 1; return r; }
VF_HARNESS(dense_large, 0, "evaluated") {
  DProb p(std::vector<int>(5, K_FREE), big(), vf_choose("calls", 2)); NlpFix<> F(p); F.init();
  evals(F.nlp, p, std::vector<int>(40, 1), vf_choose("first", 2), false, nullptr, nullptr, nullptr);
}
VF_HARNESS(mds_large, 0, "evaluated") {
  DProb p(std::vector<int>(5, K_FREE), big(), vf_choose("calls", 2)); std::vector<int> mk = bigmask(); for (int j = 0; j < 8; j++) for (int i = 3; i < 5; i++) mk[j * 5 + i] = 1; MProb q(p, 3, mk);
  hiopNlpMDS N(q); N.options->SetIntegerValue("verbosity_level", 0); N.options->SetStringValue("scaling_type", "none"); N.options->SetNumericValue("bound_relax_perturb", 0.0);
  bool ok = N.finalizeInitialization(); vf_assert(ok, "init");
  auto o = q.order(); evals(N, p, mk, vf_choose("first", 2), true, &o, &q.lam, &q.of);
}
VF_HARNESS(sparse_large, 0, "evaluated") {
  DProb p(std::vector<int>(5, K_FREE), big(), vf_choose("calls", 2)); std::vector<int> mk = bigmask(); SProb q(p, mk);
  hiopNlpSparse N(q); N.options->SetIntegerValue("verbosity_level", 0); N.options->SetStringValue("scaling_type", "none"); N.options->SetNumericValue("bound_relax_perturb", 0.0);
  bool ok = N.finalizeInitialization(); vf_assert(ok, "init");
  auto o = q.order(); evals(N, p, mk, vf_choose("first", 2), true, &o, &q.lam, &q.of);
}
VF_HARNESS(dense, 0, "evaluated") {
  DProb p({K_FREE, K_FREE}, arr(), vf_choose("calls", 2)); NlpFix<> F(p); F.init();
  evals(F.nlp, p, std::vector<int>(6, 1), vf_choose("first", 2), false, nullptr, nullptr, nullptr);
}
VF_HARNESS(mds, 0, "evaluated") {
  DProb p({K_FREE, K_FREE}, arr(), vf_choose("calls", 2)); std::vector<int> mk = {1, 1, 0, 1, 1, 1}; MProb q(p, 1, mk);
  hiopNlpMDS N(q); N.options->SetIntegerValue("verbosity_level", 0); N.options->SetStringValue("scaling_type", "none"); N.options->SetNumericValue("bound_relax_perturb", 0.0);
  bool ok = N.finalizeInitialization(); vf_assert(ok, "init");
  auto o = q.order(); evals(N, p, mk, vf_choose("first", 2), true, &o, &q.lam, &q.of);
}
VF_HARNESS(sparse, 0, "evaluated") {
  DProb p({K_FREE, K_FREE}, arr(), vf_choose("calls", 2)); std::vector<int> mk = {1, 0, 0, 1, 1, 1}; SProb q(p, mk);
  hiopNlpSparse N(q); N.options->SetIntegerValue("verbosity_level", 0); N.options->SetStringValue("scaling_type", "none"); N.options->SetNumericValue("bound_relax_perturb", 0.0);
  bool ok = N.finalizeInitialization(); vf_assert(ok, "init");
  auto o = q.order(); evals(N, p, mk, vf_choose("first", 2), true, &o, &q.lam, &q.of);
}
// callbacks and starting multipliers
struct CbProb : DProb {
  using DProb::DProb; using DProb::get_starting_point;
  DV u_zl, u_zu, u_lam, u_d, i_x, i_zl, i_zu, i_s, i_g, i_lam; double i_obj = 0; bool with_duals = false; DV fx;
  bool get_starting_point(const size_type& nn, const size_type& mm, double* x, bool& da, double* zl, double* zu, double* l, bool& sa, double* s) {
    da = with_duals; sa = false; if (!with_duals) return false;
    for (int i = 0; i < n; i++) { x[i] = x0[i]; zl[i] = u_zl[i]; zu[i] = u_zu[i]; } for (int j = 0; j < m; j++) l[j] = u_lam[j];
    return true;
  }
  bool get_warmstart_point(const size_type& nn, const size_type& mm, double* x, double* zl, double* zu, double* l, double* s, double* vl, double* vu) {
    for (int i = 0; i < n; i++) { x[i] = x0[i]; zl[i] = u_zl[i]; zu[i] = u_zu[i]; } for (int j = 0; j < m; j++) l[j] = u_lam[j];
    return true;
  }
  bool iterate_callback(int it, double o, double, int nn, const double* x, const double* zl, const double* zu, int mi, const double* s, int mm, const double* gg, const double* l, double, double, double, double, double, double, int) {
    vf_assert(nn == n && mm == m, "sizes"); i_obj = o; i_x.assign(x, x + n); i_zl.assign(zl, zl + n); i_zu.assign(zu, zu + n); i_s.assign(s, s + mi); i_g.assign(gg, gg + m); i_lam.assign(l, l + m); return true;
  }
};
static void called(const std::vector<int>& kx, const std::vector<int>& kc) {
  CbProb p(kx, kc, true, false); int nv = p.n, mc = p.m; Map mp(p); NlpFix<CbProb> F(p); F.init(); auto& N = F.nlp; int ne = mp.eq.size(), ni = mp.in.size();
  hiopIterate it(&N); fill(it.x, "x"); fill(it.zl, "zl"); fill(it.zu, "zu"); fill(it.yc, "yc"); fill(it.yd, "yd"); fill(it.d, "s");
  hiopVector *c = N.alloc_dual_eq_vec(), *d = N.alloc_dual_ineq_vec(); fill(c, "c"); fill(d, "d"); double obj = R("obj");
  DV g(mc), l(mc); for (int k = 0; k < ne; k++) { g[mp.eq[k]] = D(c)[k]; l[mp.eq[k]] = D(it.yc)[k]; } for (int k = 0; k < ni; k++) { g[mp.in[k]] = D(d)[k]; l[mp.in[k]] = D(it.yd)[k]; }
  DV zl(nv), zu(nv), la(mc); N.get_dual_solutions(it, zl.data(), zu.data(), la.data());
  eqd(la, l, "multipliers returned"); eqd(zl, get(*it.zl), "lower bound multipliers"); eqd(zu, get(*it.zu), "upper bound multipliers");
  DV xu(nv); N.user_x(*it.x, xu.data()); eqd(xu, get(*it.x), "solution returned");
  N.user_callback_iterate(1, obj, 0., *it.x, *it.zl, *it.zu, *it.d, *c, *d, *it.yc, *it.yd, 0, 0, 0, 0, 0, 0, 0);
  eqd(p.i_lam, l, "iterate callback multipliers"); eqd(p.i_g, g, "iterate callback bodies"); eqd(p.i_x, get(*it.x), "iterate callback x"); eqd(p.i_s, get(*it.d), "iterate callback slacks"); vf_assert_eq(p.i_obj, obj, "iterate callback objective");
  eqd(p.i_zl, get(*it.zl), "iterate callback zl"); eqd(p.i_zu, get(*it.zu), "iterate callback zu");
  N.user_callback_solution(Solve_Success, *it.x, *it.zl, *it.zu, *c, *d, *it.yc, *it.yd, obj);
  eqd(p.sol_lam, l, "solution callback multipliers"); eqd(p.sol_g, g, "solution callback bodies"); eqd(p.sol_x, get(*it.x), "solution callback x"); eqd(p.sol_zl, get(*it.zl), "solution callback zl"); eqd(p.sol_zu, get(*it.zu), "solution callback zu"); vf_assert_eq(p.sol_obj, obj, "solution callback objective"); vf_assert(p.sol_status == Solve_Success, "status");
  // starting multipliers
  p.with_duals = true; p.u_zl = symv(nv, "uzl"); p.u_zu = symv(nv, "uzu"); p.u_lam = symv(mc, "ulam");
  bool da = false, sa = false; int w = vf_choose("warm", 2);
  bool ok = w ? N.get_warmstart_point(*it.x, *it.zl, *it.zu, *it.yc, *it.yd, *it.d, *it.vl, *it.vu) : N.get_starting_point(*it.x, da, *it.zl, *it.zu, *it.yc, *it.yd, sa, *it.d);
  vf_assert(ok && (w || da) && !sa, "starting point obtained");
  for (int k = 0; k < ne; k++) vf_assert_eq(D(it.yc)[k], p.u_lam[mp.eq[k]], "starting equality multiplier");
  for (int k = 0; k < ni; k++) vf_assert_eq(D(it.yd)[k], p.u_lam[mp.in[k]], "starting inequality multiplier");
  eqd(get(*it.x), p.x0, "starting point"); eqd(get(*it.zl), p.u_zl, "starting zl"); eqd(get(*it.zu), p.u_zu, "starting zu");
  vf_reach("called");
}
VF_HARNESS(callbacks, 0, "called") { called({K_BOTH, K_FREE}, arr()); }
VF_HARNESS(callbacks_large, 0, "called") { called({K_BOTH, K_FREE, K_LOW, K_UPP, K_BOTH, K_FREE}, big()); }

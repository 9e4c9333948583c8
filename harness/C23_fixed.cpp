// vf-bounds: 3 variables, every fixed/free arrangement with at least one fixed and one free (9 variables, 6 arrangements with one symbolic position), all bounds (tolerance tests on arbitrary bound pairs), points, gradients and Jacobians (1 equality, 1 inequality), all tolerances and perturbations; one rank, two-call evaluation
#include "fix.hpp"
typedef hiopInterfaceBase::NonlinearityType NT;
static NT ty(int i) { return i == 0 ? hiopInterfaceBase::hiopLinear : i == 1 ? hiopInterfaceBase::hiopQuadratic : hiopInterfaceBase::hiopNonlinear; }
struct FP : DProb {
  using DProb::DProb; using DProb::get_starting_point;
  DV i_x, i_zl, i_zu; int i_n = -1;
  bool iterate_callback(int, double, double, int nn, const double* x, const double* zl, const double* zu, int, const double*, int, const double*, const double*, double, double, double, double, double, double, int) {
    i_n = nn; vf_assert(nn == n, "callback has the user's size"); i_x.assign(x, x + n); i_zl.assign(zl, zl + n); i_zu.assign(zu, zu + n); return true;
  }
  int sol_n = -1;
  void solution_callback(hiopSolveStatus st, size_type nn, const double* x, const double* zl, const double* zu, size_type mm, const double* gg, const double* lam, double obj) { sol_n = nn; vf_assert(nn == n, "callback has the user's size"); DProb::solution_callback(st, nn, x, zl, zu, mm, gg, lam, obj); }
};
static std::vector<int> arrangement() {
  int k = vf_choose("fixed", 6) + 1; std::vector<int> r; // 1..6: neither none nor all
  for (int i = 0; i < 3; i++) r.push_back((k >> i) & 1 ? K_EQ : i == 0 ? K_BOTH : i == 1 ? K_LOW : K_UPP);
  return r;
}
static void removed(const std::vector<int>& kx) {
  FP p(kx, {K_EQ, K_LOW}, true, true); int nu = p.n; for (int i = 0; i < nu; i++) p.vt[i] = ty(i % 3);
  double relax = vf_choose("relax", 2) ? vf_in("brp", 0.001, 0.1) : 0.;
  NlpFix<FP> F(p); F.str("fixed_var", "remove"); F.num("bound_relax_perturb", relax); F.init(); auto& N = F.nlp;
  std::vector<int> id; for (int i = 0; i < nu; i++) if (p.kx[i] != K_EQ) id.push_back(i);
  int n = id.size();
  vf_assert(N.n() == n && N.n_local() == n, "number of remaining variables");
  int lo = 0, up = 0, lu = 0;
  for (int k = 0; k < n; k++) {
    int i = id[k]; bool a = p.kx[i] & 1, b = p.kx[i] & 2;
    vf_assert_eq(D(N.get_ixl())[k], a ? 1. : 0., "lower pattern"); vf_assert_eq(D(N.get_ixu())[k], b ? 1. : 0., "upper pattern"); vf_assert(N.get_var_type()[k] == ty(i % 3), "variable type");
    if (a) vf_assert_eq(D(N.get_xl())[k], p.xl[i] - relax * dmax(1., dabs_(p.xl[i])), "lower bound");
    if (b) vf_assert_eq(D(N.get_xu())[k], p.xu[i] + relax * dmax(1., dabs_(p.xu[i])), "upper bound");
    lo += a; up += b; lu += a && b;
  }
  vf_assert(N.n_low() == lo && N.n_upp() == up && N.n_bnds_lu_ == lu, "bound counts");
  hiopIterate it(&N); hiopVector *c = N.alloc_dual_eq_vec(), *d = N.alloc_dual_ineq_vec(), *g = N.alloc_primal_vec(); hiopMatrix *Jc = N.alloc_Jac_c(), *Jd = N.alloc_Jac_d();
  // starting point
  bool da, sa; bool ok = N.get_starting_point(*it.x, da, *it.zl, *it.zu, *it.yc, *it.yd, sa, *it.d); vf_assert(ok, "starting point");
  for (int k = 0; k < n; k++) vf_assert_eq(D(it.x)[k], p.x0[id[k]], "starting point of the remaining variables");
  fill(it.x, "x"); fill(it.zl, "zl"); fill(it.zu, "zu"); fill(it.yc, "yc"); fill(it.yd, "yd"); fill(it.d, "d");
  DV full(nu), zl(nu, 0.), zu(nu, 0.); for (int i = 0; i < nu; i++) full[i] = p.xl[i]; for (int k = 0; k < n; k++) { full[id[k]] = D(it.x)[k]; zl[id[k]] = D(it.zl)[k]; zu[id[k]] = D(it.zu)[k]; }
  double f; int first = vf_choose("order", 2);
  auto ef = [&](bool nw) { bool k = N.eval_f(*it.x, nw, f); vf_assert(k, "f"); eqd(p.last_x, full, "the user sees the full point"); };
  auto eg = [&](bool nw) { bool k = N.eval_grad_f(*it.x, nw, *g); vf_assert(k, "grad"); eqd(p.last_x, full, "the user sees the full point"); };
  auto ec = [&](bool nw) { bool k = N.eval_c_d(*it.x, nw, *c, *d); vf_assert(k, "c"); eqd(p.last_x, full, "the user sees the full point"); };
  auto ej = [&](bool nw) { bool k = N.eval_Jac_c_d(*it.x, nw, *Jc, *Jd); vf_assert(k, "J"); eqd(p.last_x, full, "the user sees the full point"); };
  if (first) { ec(true); ej(false); eg(false); ef(false); } else { ef(true); ec(false); eg(false); ej(false); }
  vf_assert_eq(f, p.f(full.data()), "objective"); vf_assert_eq(D(c)[0], p.c(full.data(), 0), "equality body"); vf_assert_eq(D(d)[0], p.c(full.data(), 1), "inequality body");
  auto m = [](hiopMatrix* M) { return dynamic_cast<hiopMatrixDenseRowMajor*>(M)->local_data(); };
  vf_assert(Jc->n() == n && Jd->n() == n, "Jacobian width");
  for (int k = 0; k < n; k++) {
    vf_assert_eq(D(g)[k], p.df(full.data(), id[k]), "gradient of the remaining variables");
    vf_assert_eq(m(Jc)[k], p.dc(full.data(), 0, id[k]), "equality Jacobian column"); vf_assert_eq(m(Jd)[k], p.dc(full.data(), 1, id[k]), "inequality Jacobian column");
  }
  DV sol(nu, 0.); N.user_x(*it.x, sol.data()); eqd(sol, full, "solution returned has full length");
  N.user_callback_iterate(0, 0., 0., *it.x, *it.zl, *it.zu, *it.d, *c, *d, *it.yc, *it.yd, 0, 0, 0, 0, 0, 0, 0);
  eqd(p.i_x, full, "iterate callback has the full point"); eqd(p.i_zl, zl, "iterate callback zl"); eqd(p.i_zu, zu, "iterate callback zu");
  DV az(nu), bz(nu), la(2); N.get_dual_solutions(it, az.data(), bz.data(), la.data()); eqd(az, zl, "returned zl"); eqd(bz, zu, "returned zu");
  N.user_callback_solution(Solve_Success, *it.x, *it.zl, *it.zu, *c, *d, *it.yc, *it.yd, f);
  eqd(p.sol_x, full, "solution callback has the full point"); eqd(p.sol_zl, zl, "solution callback zl"); eqd(p.sol_zu, zu, "solution callback zu");
  vf_reach("reduced");
}
VF_HARNESS(remove, 0, "reduced") { removed(arrangement()); }
// 9 variables: runs of fixed and free variables in several arrangements; the values of one position are symbolic
VF_HARNESS(remove_large, 0, "reduced") {
  static const char* A[] = {"FfffFFfFf", "fFFFffFfF", "ffffffffF", "FFFFfFFFF", "fFfFfFfFf", "FFFffffff"};
  const char* a = A[vf_choose("fixed", 6)]; std::vector<int> k; static const int W[] = {K_BOTH, K_LOW, K_FREE, K_UPP};
  for (int i = 0; i < 9; i++) k.push_back(a[i] == 'F' ? K_EQ : W[(i + i / 4) % 4]);
  vf_focus(9, vf_choose("focus", 9)); removed(k);
}
// which variables count as fixed: arbitrary pairs of bounds and tolerance; one variable is certainly fixed, one certainly free
static bool isfixed(double l, double u, double tol) { return u < 1e20 && u - l <= tol * dmax(1., dabs_(u)); }
static void anypair(DProb& p, int mode) {
  double inf = std::numeric_limits<double>::infinity();
  p.xl[0] = p.xu[0] = R("e");
  vf_assume_lt(-1e20, p.xl[0]); vf_assume_lt(p.xl[0], 1e20);
  p.xl[1] = R("l"); p.xu[1] = mode == 1 ? INF : mode == 2 ? inf : R("u"); vf_assume_lt(-1e10, p.xl[1]); vf_assume_lt(p.xl[1], 1e10);
  if (mode == 0) { vf_assume_le(p.xl[1], p.xu[1]); vf_assume_lt(p.xu[1], 1e10); }
  if (vf_choose("free", 2)) { p.xl[2] = -inf; p.xu[2] = inf; }
}
VF_HARNESS(relax, 0, "the pair is fixed,the pair is not fixed,relaxed by the bounds relaxer") {
  DProb p({K_FREE, K_FREE, K_FREE}, {}, true, false); int mode = vf_choose("mode", 3); anypair(p, mode);
  double tol = vf_in("tol", 1e-30, 0.01), per = vf_in("per", 1e-14, 0.1);
  int byrelax = vf_choose("by bounds relaxer", 2); double brp = byrelax ? vf_in("brp", 1e-9, 0.1) : 0.;
  NlpFix<> F(p); F.str("fixed_var", vf_choose("none", 2) && byrelax ? "none" : "relax"); F.num("fixed_var_tolerance", tol); F.num("fixed_var_perturb", per); F.num("bound_relax_perturb", brp); F.init(); auto& N = F.nlp;
  vf_assert(N.n() == 3, "no variable removed");
  for (int i = 0; i < 3; i++) {
    double l = p.xl[i], u = p.xu[i];
    if (byrelax) { if (l > -1e20) vf_assert_eq(D(N.get_xl())[i], l - brp * dmax(1., dabs_(l)), "lower bound relaxed"); if (u < 1e20) vf_assert_eq(D(N.get_xu())[i], u + brp * dmax(1., dabs_(u)), "upper bound relaxed"); continue; }
    bool fx = i == 0 || (i == 1 && isfixed(l, u, tol));
    double w = fx ? per * dmax(1., dabs_(u)) : 0.;
    if (l > -1e20) vf_assert_eq(D(N.get_xl())[i], l - w, fx ? "fixed variable widened below" : "lower bound kept");
    if (u < 1e20) vf_assert_eq(D(N.get_xu())[i], u + w, fx ? "fixed variable widened above" : "upper bound kept");
    if (i == 1) { if (fx) vf_reach("the pair is fixed"); else vf_reach("the pair is not fixed"); }
  }
  if (byrelax) vf_reach("relaxed by the bounds relaxer");
}
VF_HARNESS(removetol, 0, "the pair is fixed,the pair is not fixed") {
  DProb p({K_FREE, K_FREE, K_FREE}, {}, true, false); int mode = vf_choose("mode", 3); anypair(p, mode);
  double tol = vf_in("tol", 1e-30, 0.01);
  NlpFix<> F(p); F.str("fixed_var", "remove"); F.num("fixed_var_tolerance", tol); F.init(); auto& N = F.nlp;
  bool fx = isfixed(p.xl[1], p.xu[1], tol);
  vf_assert(N.n() == (fx ? 1 : 2), "number of remaining variables");
  hiopVector* x = N.alloc_primal_vec(); fill(x, "x"); double f; bool ok = N.eval_f(*x, true, f); vf_assert(ok, "f");
  vf_assert(p.last_x[0] == p.xl[0], "fixed entry");
  if (fx) { vf_assert(p.last_x[1] >= p.xl[1] && p.last_x[1] <= p.xu[1], "fixed entry within its bounds"); vf_assert_eq(p.last_x[2], D(x)[0], "remaining entry"); vf_reach("the pair is fixed"); }
  else { vf_assert_eq(p.last_x[1], D(x)[0], "remaining entry"); vf_assert_eq(p.last_x[2], D(x)[1], "remaining entry"); vf_reach("the pair is not fixed"); }
}

// vf-bounds: up to 2 variables of every bound kind, up to 2 equalities and 2 inequalities of every kind, inequality slacks and multipliers in [1e-8,1e8], arbitrary symmetric Hessian (5 variables with 3 arrangements of up to 7 constraints for fixed matrices), Jacobians, interior iterate, residual and nonnegative regularization vectors; linear solves by contract; whole runs of 2-3 iterations on fixed problems (2 variables, 1-2 constraints) with arbitrary objective values
#include "kkt.hpp"
#include "hiopKKTLinSysDense.hpp"
#include "hiopHessianLowRank.hpp"
#include "runobs.hpp"
struct K {
  DProb p; NlpFix<> F; hiopNlpFormulation& N; hiopIterate it, dir; hiopResidual r; hiopVector* g; hiopMatrix *Jc, *Jd; hiopMatrixDenseRowMajor H;
  AnyDelta pert; AcceptAll fa; int n, me, mi; DV h, jc, jd, wx, wd, cc, cd;
  K(std::vector<int> kx, std::vector<int> kc, int reg) : p(kx, kc, true, false), F(p), N((F.init(), F.nlp)), it(&N), dir(&N), r(&N), H(N.n(), N.n()) {
    vfs_inertia = 0;
    n = N.n(); me = N.m_eq(); mi = N.m_ineq();
    free_slacks(N, it); moderate(N, it); int fm = vf_fmod_; if (fm) vf_focus(0, 0); any_resid(N, r); if (fm) vf_focus(fm, -1); for (auto v : {dir.x, dir.d, dir.yc, dir.yd, dir.sxl, dir.sxu, dir.sdl, dir.sdu, dir.zl, dir.zu, dir.vl, dir.vu}) v->setToConstant(0.125);
    g = N.alloc_primal_vec(); fill(g, "gr"); Jc = N.alloc_Jac_c(); Jd = N.alloc_Jac_d();
    jc = symv(me * n, "Jc"); jd = symv(mi * n, "Jd"); h.resize(n * n);
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) h[i * n + j] = h[j * n + i] = R("H" + std::to_string(i) + "_" + std::to_string(j));
    auto cp = [](hiopMatrix* m, const DV& v) { double* d = dynamic_cast<hiopMatrixDenseRowMajor*>(m)->local_data(); for (size_t i = 0; i < v.size(); i++) d[i] = v[i]; };
    cp(Jc, jc); cp(Jd, jd); cp(&H, h);
    pert.initialize(&N); pert.any(reg);
    wx = get(*pert.get_curr_delta_wx()); wd = get(*pert.get_curr_delta_wd()); cc = get(*pert.get_curr_delta_cc()); cd = get(*pert.get_curr_delta_cd());
  }
  template <class L> void setup(L& k) { k.set_PD_perturb_calc(&pert); k.set_fact_acceptor(&fa); bool ok = k.update(&it, g, Jc, Jd, &H); vf_assert(ok, "factorization accepted"); }
  Lhs lhs() { return newton_lhs(N, it, dir, n, me, mi, h, jc, jd, wx, wd, cc, cd); }
  template <class L> void run() { L k(&N); setup(k); bool ok = k.computeDirections(&r, &dir); vf_assert(ok, "directions computed"); newton_check(lhs(), r); vf_reach("directions"); }
};
static const std::vector<std::vector<int>>& conf() {
  static std::vector<std::vector<int>> c = {{K_EQ, K_LOW}, {K_BOTH}, {K_EQ}, {}, {K_UPP, K_EQ, K_EQ}, {K_LOW, K_EQ, K_UPP}};
  return c;
}
static std::vector<int> somex() { return vf_thorough() ? kinds(2, "kx", {K_FREE, K_LOW, K_UPP, K_BOTH}) : vf_choose("kx", 2) ? std::vector<int>{K_BOTH, K_FREE} : std::vector<int>{K_LOW, K_UPP}; }
VF_HARNESS(xycyd, 0, "directions") { int c = vf_choose("cons", 6), reg = vf_choose("reg", 2); auto kx = somex(); if (conf()[c].size() == 3) kx = {K_BOTH}; K k(kx, conf()[c], reg); k.run<hiopKKTLinSysDenseXYcYd>(); }
VF_HARNESS(xdycyd, 0, "directions") { int c = vf_choose("cons", 6), reg = vf_choose("reg", 2); auto kx = somex(); if (conf()[c].size() == 3) kx = {K_BOTH}; K k(kx, conf()[c], reg); k.run<hiopKKTLinSysDenseXDYcYd>(); }
// the mat-vec used by the iterative refinement is the same Newton operator
VF_HARNESS(oper, 0, "applied") {
  int c = vf_choose("cons", 6); K k(somex(), conf()[c], 1);
  hiopKKTLinSysDenseXYcYd s(&k.N); k.setup(s);
  any_dir(k.N, k.dir, "D");
  hiopMatVecKKTFullOpr op(&s, &k.it);
  hiopVectorCompoundPD x(&k.dir), y(&k.r);
  bool ok = op.times_vec(y, x); vf_assert(ok, "product");
  newton_check(k.lhs(), k.r);
  vf_reach("applied");
}
// the reported error of a direction is a norm of what is left: at least the largest entry of every block, at most their sum
VF_HARNESS(error, 0, "norm") {
  K k({K_BOTH}, {K_EQ, K_BOTH}, vf_choose("reg", 2));
  hiopKKTLinSysDenseXYcYd s(&k.N); s.set_PD_perturb_calc(&k.pert); s.set_fact_acceptor(&k.fa);
  s.iter_ = &k.it; s.grad_f_ = k.g; s.Jac_c_ = k.Jc; s.Jac_d_ = k.Jd; s.Hess_ = &k.H;
  any_dir(k.N, k.dir, "D");
  // leave an error in one block only
  int b = vf_choose("block", 13); double e = vf_real("err");
  Lhs L = k.lhs(); DV* bl[12] = {&L.x, &L.d, &L.yc, &L.yd, &L.xl, &L.xu, &L.dl, &L.du, &L.szl, &L.szu, &L.svl, &L.svu};
  hiopVector* rr[12] = {k.r.rx, k.r.rd, k.r.ryc, k.r.ryd, k.r.rxl, k.r.rxu, k.r.rdl, k.r.rdu, k.r.rszl, k.r.rszu, k.r.rsvl, k.r.rsvu};
  for (int i = 0; i < 12; i++) put(*rr[i], *bl[i]);
  if (b < 12) rr[b]->local_data()[0] = (*bl[b])[0] + e;
  vf_assert_eq(s.errorKKT(&k.r, &k.dir), b < 12 ? dabs_(e) : 0., "solve error");
  vf_reach("norm");
}
// quasi-Newton systems: the Hessian is the BFGS matrix of the stored pairs
struct LR {
  DProb p; NlpFix<> F; hiopNlpDenseConstraints& N; hiopIterate it, dir; hiopResidual r; hiopVector* g; hiopMatrixDense *Jc, *Jd; hiopHessianLowRank h;
  AnyDelta pert; int n, me, mi; DV jc, jd, B;
  LR(std::vector<int> kx, std::vector<int> kc, int lmax, int K, bool con) : p(kx, kc, true, false), F(p), N((F.str("sigma_update_strategy", "sigma0"), F.init(), F.nlp)), it(&N), dir(&N), r(&N), h(&N, lmax) {
    n = N.n(); me = N.m_eq(); mi = N.m_ineq(); DV z(n, 0.);
    for (auto v : {it.x, it.d, it.yc, it.yd, it.sxl, it.sxu, it.sdl, it.sdu, it.zl, it.zu, it.vl, it.vu}) v->setToZero();
    g = N.alloc_primal_vec(); g->setToZero(); Jc = dynamic_cast<hiopMatrixDense*>(N.alloc_Jac_c()); Jd = dynamic_cast<hiopMatrixDense*>(N.alloc_Jac_d()); Jc->setToZero(); Jd->setToZero();
    h.update(it, *g, *Jc, *Jd);
    B.assign(n * n, 0.); std::vector<DV> S, Y;
    for (int k = 0; k < K; k++) { DV s(n), y(n); for (int i = 0; i < n; i++) { s[i] = (i + k) % 2 ? -0.5 : 1. + k; y[i] = s[i] * (2. + i + k); D(it.x)[i] = D(it.x)[i] + s[i]; D(g)[i] = D(g)[i] + y[i]; } h.update(it, *g, *Jc, *Jd); if (lmax) { S.push_back(s); Y.push_back(y); if ((int)S.size() > lmax) { S.erase(S.begin()); Y.erase(Y.begin()); } } }
    for (int i = 0; i < n; i++) B[i * n + i] = h.sigma;
    for (size_t k = 0; k < S.size(); k++) { DV bs(n, 0.); double sbs = 0, sy = 0; for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) bs[i] = bs[i] + B[i * n + j] * S[k][j]; sbs = sbs + bs[i] * S[k][i]; sy = sy + S[k][i] * Y[k][i]; }
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) B[i * n + j] = B[i * n + j] - bs[i] * bs[j] / sbs + Y[k][i] * Y[k][j] / sy; }
    // current point and derivatives
    if (con) {
      int q = 0; auto f = [&q](hiopVector* v, const hiopVector* pt) { for (int i = 0; i < v->get_local_size(); i++) v->local_data()[i] = !pt || pt->local_data_const()[i] == 1. ? 0.5 + (q++ % 5) : 0.; };
      f(it.x, nullptr); f(it.d, nullptr); f(it.yc, nullptr); f(it.yd, nullptr); f(it.sxl, &N.get_ixl()); f(it.sxu, &N.get_ixu()); f(it.sdl, &N.get_idl()); f(it.sdu, &N.get_idu()); f(it.zl, &N.get_ixl()); f(it.zu, &N.get_ixu()); f(it.vl, &N.get_idl()); f(it.vu, &N.get_idu());
      for (int i = 0; i < me * n; i++) jc.push_back(1. - 2. * i); for (int i = 0; i < mi * n; i++) jd.push_back(3. * i - 1.);
    } else { free_slacks(N, it); moderate(N, it); jc = symv(me * n, "Jc"); jd = symv(mi * n, "Jd"); }
    for (int i = 0; i < me * n; i++) Jc->local_data()[i] = jc[i]; for (int i = 0; i < mi * n; i++) Jd->local_data()[i] = jd[i];
    any_resid(N, r); for (auto v : {dir.x, dir.d, dir.yc, dir.yd, dir.sxl, dir.sxu, dir.sdl, dir.sdu, dir.zl, dir.zu, dir.vl, dir.vu}) v->setToConstant(0.125);
    pert.initialize(&N); pert.any(0);
  }
  Lhs lhs() { DV z(n, 0.), e(me, 0.), q(mi, 0.); return newton_lhs(N, it, dir, n, me, mi, B, jc, jd, z, q, e, q); }
};
static void lr_run(bool con, int lmax, int K, std::vector<int> kx, std::vector<int> kc) {
  LR L(kx, kc, lmax, K, con);
  hiopKKTLinSysLowRank s(&L.N); s.set_PD_perturb_calc(&L.pert);
  bool ok = s.update(&L.it, L.g, L.Jc, L.Jd, &L.h); vf_assert(ok, "update"); ok = s.computeDirections(&L.r, &L.dir); vf_assert(ok, "directions computed");
  newton_check(L.lhs(), L.r); vf_reach("directions");
}
VF_HARNESS(lowrank0, 0, "directions") { vf_exact(1); vfs_concrete = 2; int c = vf_choose("cons", 4); lr_run(false, 0, 0, somex(), conf()[c]); }
VF_HARNESS(lowrank, 0, "directions") { vf_exact(1); vfs_concrete = 1; int c = vf_choose("cons", 6), lmax = 1 + vf_choose("lmax", 2), K = 1 + vf_choose("K", vf_thorough() ? 4 : 2); auto kx = somex(); lr_run(true, lmax, K, kx, conf()[c]); }
// the solve of the reduced quasi-Newton system: inaccurate or failing factorizations are refined or reported
VF_HARNESS(refine, 0, "accepted,reported") {
  vf_exact(1); vfs_concrete = 2; if (vf_choose("kind", 2)) vfs_inexact = 1; else vfs_fail = 1; int n = 1 + vf_choose("n", 2);
  DProb p({K_FREE}, {K_EQ, K_EQ}, true, false); NlpFix<> F(p); F.init(); hiopKKTLinSysLowRank s(&F.nlp);
  DV a(4); a[0] = 2.; a[3] = 4.; a[1] = a[2] = n == 2 && vf_choose("off", 2) ? 1. : 0.; if (n == 1) a.resize(1);
  DV b = symv(n, "b");
  hiopMatrixDenseRowMajor M(n, n); for (int i = 0; i < n * n; i++) M.local_data()[i] = a[i]; hiopVectorPar v(n); put(v, b);
  int rc = s.solveWithRefin(M, v);
  if (rc == 0) { for (int i = 0; i < n; i++) { double q = -b[i]; for (int j = 0; j < n; j++) q = q + a[i * n + j] * v.local_data()[j]; vf_assert(dabs_(q) <= 1e-8, "accepted solution has a small residual"); } vf_reach("accepted"); }
  else vf_reach("reported");
}
// the iteratively refined solve: the computed direction (whichever object receives it) satisfies the Newton system; other objects are untouched
static void same(hiopIterate& a, double v, const char* l) { for (auto w : {a.x, a.d, a.yc, a.yd, a.sxl, a.sxu, a.sdl, a.sdu, a.zl, a.zu, a.vl, a.vu}) for (int i = 0; i < w->get_local_size(); i++) vf_assert_eq(w->local_data()[i], v, l); }
template <class L> static void refined(const std::vector<int>& kc) {
  vf_exact(1); vfs_concrete = 1; auto kx = somex();
  K k(kx, kc, 0); int q = 0;
  auto f = [&q](hiopVector* v, const hiopVector* pt) { for (int i = 0; i < v->get_local_size(); i++) v->local_data()[i] = !pt || pt->local_data_const()[i] == 1. ? 0.5 + (q++ % 5) : 0.; };
  auto& N = k.N; auto& it = k.it; f(it.x, nullptr); f(it.d, nullptr); f(it.yc, nullptr); f(it.yd, nullptr); f(it.sxl, &N.get_ixl()); f(it.sxu, &N.get_ixu()); f(it.sdl, &N.get_idl()); f(it.sdu, &N.get_idu()); f(it.zl, &N.get_ixl()); f(it.zu, &N.get_ixu()); f(it.vl, &N.get_idl()); f(it.vu, &N.get_idu());
  for (int i = 0; i < k.me * k.n; i++) k.jc[i] = 1. - 2. * i; for (int i = 0; i < k.mi * k.n; i++) k.jd[i] = 3. * i - 1.; for (int i = 0; i < k.n; i++) for (int j = 0; j < k.n; j++) k.h[i * k.n + j] = i == j ? 2. + i : 0.5;
  for (int i = 0; i < k.me * k.n; i++) dynamic_cast<hiopMatrixDenseRowMajor*>(k.Jc)->local_data()[i] = k.jc[i]; for (int i = 0; i < k.mi * k.n; i++) dynamic_cast<hiopMatrixDenseRowMajor*>(k.Jd)->local_data()[i] = k.jd[i]; for (int i = 0; i < k.n * k.n; i++) k.H.local_data()[i] = k.h[i];
  // one symbolic residual entry per variable class keeps the norms tractable
  hiopVector* rr[12] = {k.r.rx, k.r.rd, k.r.ryc, k.r.ryd, k.r.rxl, k.r.rxu, k.r.rdl, k.r.rdu, k.r.rszl, k.r.rszu, k.r.rsvl, k.r.rsvu};
  int b = vf_choose("block", 12); for (int i = 0; i < 12; i++) for (int j = 0; j < rr[i]->get_local_size(); j++) { double& v = rr[i]->local_data()[j]; if (!(vf_is_sym(v) || v != 0.)) continue; if (i == b && j == 0) { vf_assume_le(-1e6, v); vf_assume_le(v, 1e6); } else v = 0.25 * (1 + (i + 3 * j) % 7); }
  L s(&N); s.set_logbar_mu(0.0078125); k.setup(s);
  hiopIterate other(&N); for (auto v : {other.x, other.d, other.yc, other.yd, other.sxl, other.sxu, other.sdl, other.sdu, other.zl, other.zu, other.vl, other.vu}) v->setToConstant(0.375);
  if (vf_choose("first", 2)) { bool ok = s.compute_directions_w_IR(&k.r, &other); vf_assert(ok, "first direction computed"); for (auto v : {other.x, other.d, other.yc, other.yd, other.sxl, other.sxu, other.sdl, other.sdu, other.zl, other.zu, other.vl, other.vu}) v->setToConstant(0.375); vf_reach("second"); } else vf_reach("first");
  bool ok = s.compute_directions_w_IR(&k.r, &k.dir); vf_assert(ok, "directions computed");
  newton_check(k.lhs(), k.r); same(other, 0.375, "a direction computed earlier is not modified");
}
VF_HARNESS(refined_xycyd, 0, "first,second") { refined<hiopKKTLinSysDenseXYcYd>(conf()[vf_choose("cons", 2)]); }
VF_HARNESS(refined_xdycyd, 0, "first,second") { refined<hiopKKTLinSysDenseXDYcYd>(conf()[vf_choose("cons", 2)]); }
// 5 variables and 7 constraints: fixed matrices and iterates, arbitrary right-hand sides
static const std::vector<int>& lconf() { static std::vector<std::vector<int>> c = {{K_EQ, K_LOW, K_EQ, K_UPP, K_BOTH, K_EQ, K_LOW}, {K_LOW, K_UPP, K_BOTH, K_LOW, K_UPP}, {K_EQ, K_EQ, K_EQ, K_EQ}}; return c[vf_choose("cons", 3)]; }
static std::vector<int> lx() { return {K_LOW, K_BOTH, K_FREE, K_UPP, K_BOTH}; }
VF_HARNESS(xycyd_large, 0, "directions") { vf_exact(1); vfs_concrete = 1; vf_focus(6, -1); K k(lx(), lconf(), 1); k.run<hiopKKTLinSysDenseXYcYd>(); }
VF_HARNESS(xdycyd_large, 0, "directions") { vf_exact(1); vfs_concrete = 1; vf_focus(6, -1); K k(lx(), lconf(), 1); k.run<hiopKKTLinSysDenseXDYcYd>(); }
VF_HARNESS(run_directions, 0, "iterated") { int cfg = 2 * vf_choose("cfg", 2); obs_run(OB_DIR, false, cfg, 3); } // whole runs

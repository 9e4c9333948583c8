// vf-bounds: 2 variables of every bound kind, up to 2 equalities and 2 inequalities of every kind (dense, mixed dense-sparse and sparse with several patterns; 6 variables with 7 constraints for fixed Jacobians), arbitrary gradients, Jacobians, bound multipliers, slacks, directions and step lengths; updater fresh or reused; linear solves by contract (by elimination for the magnitude rule); whole runs of 2-3 iterations of both solvers on fixed problems (2 variables, 1-2 constraints; plain, started next to a bound, large barrier parameter with every trial step accepted) with arbitrary objective values
// vf-flags: -DHIOP_SPARSE -DHIOP_USE_COINHSL
// vf-sources: LinAlg/hiopLinSolverSymSparseMA57.cpp Optimization/hiopKKTLinSysSparse.cpp Optimization/hiopKKTLinSysSparseCondensed.cpp Optimization/hiopKKTLinSysSparseNormalEqn.cpp
#include "kktsp.hpp"
#include "vfstub.h"
#include "hiopDualsUpdater.hpp"
#include "runobs.hpp"
static const std::vector<std::vector<int>>& conf() { static std::vector<std::vector<int>> c = {{K_EQ, K_LOW}, {K_BOTH}, {K_EQ}, {}, {K_UPP, K_EQ, K_LOW}, {K_EQ, K_EQ}}; return c; }
static std::vector<int> kxs(int c) { const int kk[4] = {K_BOTH, K_FREE, K_LOW, K_UPP}; return {kk[c % 4], kk[(c + 2) % 4]}; }
struct Dense1 : DProb { Dense1(const std::vector<int>& kx, const std::vector<int>& kc) : DProb(kx, kc, true, false) {} };
// normal equations of min |r_x|^2 + |r_d|^2 (residuals of the stationarity conditions)
static void normal_eq(hiopIterate& it, const DV& g, const DV& jc, const DV& jd, int n, int me, int mi, const char* label) {
  DV rx(n), rd(mi);
  for (int i = 0; i < n; i++) {
    double v = g[i] - D(it.zl)[i] + D(it.zu)[i];
    for (int k = 0; k < me; k++) v = v + jc[k * n + i] * D(it.yc)[k];
    for (int k = 0; k < mi; k++) v = v + jd[k * n + i] * D(it.yd)[k];
    rx[i] = v;
  }
  for (int k = 0; k < mi; k++) rd[k] = -D(it.yd)[k] - D(it.vl)[k] + D(it.vu)[k];
  for (int k = 0; k < me; k++) { double v = 0; for (int i = 0; i < n; i++) v = v + jc[k * n + i] * rx[i]; vf_assert_eq(v, 0., label); }
  for (int k = 0; k < mi; k++) { double v = -rd[k]; for (int i = 0; i < n; i++) v = v + jd[k * n + i] * rx[i]; vf_assert_eq(v, 0., label); }
}
// data of one call: arbitrary, or powers of two (the past)
template <class NLP> struct Data {
  NLP& N; hiopIterate it; hiopVector* g; hiopMatrix *Jc, *Jd; int n, me, mi; DV gr, jc, jd;
  Data(NLP& N_) : N(N_), it(&N_), n(N_.n()), me(N_.m_eq()), mi(N_.m_ineq()) { free_slacks(N, it); g = N.alloc_primal_vec(); fill(g, "gr"); gr = get(*g); Jc = N.alloc_Jac_c(); Jd = N.alloc_Jac_d(); }
};
static void put_de(hiopMatrix* M, const DV& v) { auto* d = dynamic_cast<hiopMatrixDense*>(M); for (size_t i = 0; i < v.size(); i++) d->local_data()[i] = v[i]; }
struct DFix {
  DProb p; NlpFix<DProb, hiopNlpDenseConstraints> F; Data<hiopNlpDenseConstraints> d; hiopDualsLsqUpdate* u;
  DFix(int c, std::function<void(NlpFix<DProb, hiopNlpDenseConstraints>&)> opt = nullptr) : p(kxs(c), conf()[c], true, false), F(p), d((opt ? opt(F) : void(), F.init(), F.nlp)) {
    vfs_inertia = 0; vfs_concrete = 0;
    d.jc = symv(d.me * d.n, "Jc"); d.jd = symv(d.mi * d.n, "Jd"); put_de(d.Jc, d.jc); put_de(d.Jd, d.jd);
    u = F.nlp.alloc_duals_lsq_updater();
  }
  void past() { // an earlier call on the same updater
    hiopIterate o(&F.nlp); for (auto v : {o.x, o.d, o.yc, o.yd, o.zl, o.zu, o.vl, o.vu, o.sxl, o.sxu, o.sdl, o.sdu}) v->setToConstant(0.5);
    hiopVector* g0 = F.nlp.alloc_primal_vec(); g0->setToConstant(2.);
    hiopMatrix *c0 = F.nlp.alloc_Jac_c(), *d0 = F.nlp.alloc_Jac_d(); DV a(d.me * d.n, 0.), b(d.mi * d.n, 0.);
    for (int k = 0; k < d.me; k++) a[k * d.n + k % d.n] = 2.; for (int k = 0; k < d.mi; k++) b[k * d.n + (k + 1) % d.n] = 4.;
    put_de(c0, a); put_de(d0, b); vfs_concrete = 1; bool ok = u->go(o, *g0, *c0, *d0); vf_assert(ok, "earlier update"); vfs_concrete = 0;
  }
};
static void unchanged(hiopIterate& a, hiopIterate& b, bool y) {
  eqd(get(*a.x), get(*b.x), "x unchanged"); eqd(get(*a.d), get(*b.d), "d unchanged"); eqd(get(*a.zl), get(*b.zl), "zl unchanged"); eqd(get(*a.zu), get(*b.zu), "zu unchanged"); eqd(get(*a.vl), get(*b.vl), "vl unchanged"); eqd(get(*a.vu), get(*b.vu), "vu unchanged");
  eqd(get(*a.sxl), get(*b.sxl), "sxl unchanged"); eqd(get(*a.sxu), get(*b.sxu), "sxu unchanged"); eqd(get(*a.sdl), get(*b.sdl), "sdl unchanged"); eqd(get(*a.sdu), get(*b.sdu), "sdu unchanged");
  if (y) { eqd(get(*a.yc), get(*b.yc), "yc unchanged"); eqd(get(*a.yd), get(*b.yd), "yd unchanged"); }
}
VF_HARNESS(dense, 0, "lsq") {
  int c = vf_choose("cons", 6), again = vf_choose("again", 2); DFix f(c); if (again) f.past();
  hiopIterate old(&f.F.nlp); old.copyFrom(f.d.it);
  bool ok = f.u->go(f.d.it, *f.d.g, *f.d.Jc, *f.d.Jd); vf_assert(ok, "update succeeds");
  normal_eq(f.d.it, f.d.gr, f.d.jc, f.d.jd, f.d.n, f.d.me, f.d.mi, "normal equations"); unchanged(f.d.it, old, false); vf_reach("lsq");
}
VF_HARNESS(dense_fails, 0, "ok,failed,initial failed") {
  int c = vf_choose("cons", 6), again = vf_choose("again", 2), ini = vf_choose("initial", 2);
  DFix f(c, [](auto& F) { F.num("duals_lsq_ini_max", 1e8); }); if (again) f.past(); vfs_fail = 1;
  hiopIterate old(&f.F.nlp); old.copyFrom(f.d.it);
  bool ok = ini ? f.u->compute_initial_duals_eq(f.d.it, *f.d.g, *f.d.Jc, *f.d.Jd) : f.u->go(f.d.it, *f.d.g, *f.d.Jc, *f.d.Jd);
  if (!ok) {
    unchanged(f.d.it, old, !ini);
    if (ini) for (auto v : {f.d.it.yc, f.d.it.yd}) for (int i = 0; i < v->get_local_size(); i++) vf_assert_eq(D(v)[i], 0., "zero multipliers when they cannot be computed");
    vf_reach(ini ? "initial failed" : "failed");
  } else if (!ini) { normal_eq(f.d.it, f.d.gr, f.d.jc, f.d.jd, f.d.n, f.d.me, f.d.mi, "normal equations"); vf_reach("ok"); }
}
// the magnitude rule of the initial multipliers
VF_HARNESS(initial, 0, "kept,discarded") {
  int c = vf_choose("cons", 6); double mx = vf_in("max", 1e-6, 1e10);
  DFix f(c, [&](auto& F) { F.num("duals_lsq_ini_max", mx); });
  if (c == 4 || c == 0 || c == 5) { for (size_t i = 0; i < f.d.jc.size(); i++) f.d.jc[i] = ldexp(1., i % 3) * (i % 2 ? -1 : 1); for (size_t i = 0; i < f.d.jd.size(); i++) f.d.jd[i] = ldexp(1., (i + 1) % 3); put_de(f.d.Jc, f.d.jc); put_de(f.d.Jd, f.d.jd); vf_exact(1); vfs_concrete = 1; } else vfs_concrete = 2;
  hiopIterate ref(&f.F.nlp); ref.copyFrom(f.d.it);
  bool ok = f.u->go(ref, *f.d.g, *f.d.Jc, *f.d.Jd); vf_assert(ok, "update succeeds");
  ok = f.u->compute_initial_duals_eq(f.d.it, *f.d.g, *f.d.Jc, *f.d.Jd); vf_assert(ok, "initialization succeeds");
  double nrm = 0; DV yc = get(*ref.yc), yd = get(*ref.yd); for (double v : yc) nrm = dmax(nrm, dabs_(v)); for (double v : yd) nrm = dmax(nrm, dabs_(v));
  normal_eq(ref, f.d.gr, f.d.jc, f.d.jd, f.d.n, f.d.me, f.d.mi, "normal equations");
  if (nrm > mx) { for (double& v : yc) v = 0; for (double& v : yd) v = 0; vf_reach("discarded"); } else vf_reach("kept");
  eqd(get(*f.d.it.yc), yc, "initial yc"); eqd(get(*f.d.it.yd), yd, "initial yd");
}
// expected bound multipliers after a step: dual step, then back into the barrier neighbourhood
static DV adjusted(const hiopVector* z, const hiopVector* dz, const hiopVector* s, const hiopVector& pt, double a, double mu, double kap) {
  DV r = get(*z); for (size_t i = 0; i < r.size(); i++) if (pt.local_data_const()[i] == 1.) { r[i] = r[i] + a * dz->local_data_const()[i]; double si = s->local_data_const()[i]; r[i] = dmax(mu / (kap * si), dmin(r[i], kap * mu / si)); } return r;
}
static void step(bool lsq) {
  int c = vf_choose("cons", 6), blk = vf_choose("block", 4);
  double tol = vf_in("tol", 1e-10, 1e10), inf = vf_nonneg("infeasibility");
  DFix f(c, [&](auto& F) { if (lsq) F.num("recalc_lsq_duals_tol", tol); }); hiopNlpDenseConstraints& N = f.F.nlp; auto& d = f.d;
  double ap = vf_pos("ap"), ad = vf_pos("ad"), mu = vf_pos("mu"), kap = 1024.; vf_assume_le(ap, 1.); vf_assume_le(ad, 1.);
  hiopIterate it(&N), dir(&N); it.copyFrom(d.it); hiopIterate& plus = d.it; // d.it: primals already advanced (arbitrary slacks)
  // one block of bound multipliers arbitrary, the others powers of two
  hiopVector* zs[4] = {it.zl, it.zu, it.vl, it.vu}; const hiopVector* pt[4] = {&N.get_ixl(), &N.get_ixu(), &N.get_idl(), &N.get_idu()};
  any_dir(N, dir); hiopVector* ds[4] = {dir.zl, dir.zu, dir.vl, dir.vu}; hiopVector* ss[4] = {plus.sxl, plus.sxu, plus.sdl, plus.sdu};
  for (int b = 0; b < 4; b++) if (b != blk) for (int i = 0; i < zs[b]->get_local_size(); i++) if (D(*pt[b])[i] == 1.) { D(zs[b])[i] = 0.5; D(ds[b])[i] = 0.; D(ss[b])[i] = 2. * mu; } 
  fill(plus.yc, "ycp"); fill(plus.yd, "ydp"); for (auto v : {plus.zl, plus.zu, plus.vl, plus.vu}) fill(v, "old");
  for (int b = 0; b < 4; b++) { hiopVector* o[4] = {plus.zl, plus.zu, plus.vl, plus.vu}; for (int i = 0; i < o[b]->get_local_size(); i++) if (D(*pt[b])[i] != 1.) D(o[b])[i] = 0.; }
  DV yc = get(*it.yc), yd = get(*it.yd), e[4]; for (size_t i = 0; i < yc.size(); i++) yc[i] = yc[i] + ap * D(dir.yc)[i]; for (size_t i = 0; i < yd.size(); i++) yd[i] = yd[i] + ap * D(dir.yd)[i];
  for (int b = 0; b < 4; b++) e[b] = adjusted(zs[b], ds[b], ss[b], *pt[b], ad, mu, kap);
  hiopVector *cv = N.alloc_dual_eq_vec(), *dv = N.alloc_dual_ineq_vec(); double fv = 0;
  hiopIterate itc(&N), dc(&N); itc.copyFrom(it); dc.copyFrom(dir); DV px = get(*plus.x), pd = get(*plus.d);
  hiopDualsNewtonLinearUpdate newton(&N); hiopDualsUpdater* u = lsq ? (hiopDualsUpdater*)f.u : &newton;
  bool ok = u->go(it, plus, fv, *cv, *dv, *d.g, *d.Jc, *d.Jd, dir, ap, ad, mu, kap, inf); vf_assert(ok, "update succeeds");
  eqd(get(*plus.zl), e[0], "zl after the update"); eqd(get(*plus.zu), e[1], "zu after the update"); eqd(get(*plus.vl), e[2], "vl after the update"); eqd(get(*plus.vu), e[3], "vu after the update");
  eqd(get(*plus.x), px, "x unchanged"); eqd(get(*plus.d), pd, "d unchanged"); unchanged(it, itc, true); unchanged(dir, dc, true);
  if (!lsq || inf > tol) { eqd(get(*plus.yc), yc, "yc takes the Newton step"); eqd(get(*plus.yd), yd, "yd takes the Newton step"); vf_reach("newton"); }
  else { normal_eq(plus, d.gr, d.jc, d.jd, d.n, d.me, d.mi, "normal equations"); vf_reach("recomputed"); }
}
VF_HARNESS(update, 0, "newton,recomputed") { step(true); }
VF_HARNESS(newton, 0, "newton") { step(false); }
// mixed dense-sparse and sparse problems; w: 0 fresh, 1 reused
template <class Prob, class NLP, class... A> static void structured(int c, const std::vector<int>& mask, A... a) {
  DProb p(kxs(c), conf()[c], true, false); Prob q(p, a..., mask); NlpFix<Prob, NLP> F(q); F.num("duals_lsq_ini_max", 1e10); F.init(); NLP& N = F.nlp; vfs_inertia = -1; vfs_concrete = 0;
  Data<NLP> d(N); int n = d.n; std::vector<int> oc, od; for (int j = 0; j < p.m; j++) for (int i = 0; i < n; i++) (p.kc[j] == K_EQ ? oc : od).push_back(q.nz(j, i));
  auto* mp = dynamic_cast<MProb*>((hiopInterfaceBase*)&q); put_pattern(d.Jc, oc); put_pattern(d.Jd, od);
  auto any = [&](std::vector<int>& on, const char* b, DV& v, DV& v0) { v.assign(on.size(), 0.); v0 = v; for (size_t i = 0; i < on.size(); i++) if (on[i] || (mp && (int)i % n >= mp->ns)) { v[i] = R(std::string(b) + std::to_string(i)); v0[i] = ldexp(1., i % 3); } };
  DV c0, d0; any(oc, "Jc", d.jc, c0); any(od, "Jd", d.jd, d0);
  hiopDualsLsqUpdate* u = N.alloc_duals_lsq_updater(); int w = vf_choose("again", 2), ini = p.m < 2 ? vf_choose("initial", 2) : 0;
  if (w) { put_dense(d.Jc, c0); put_dense(d.Jd, d0); hiopIterate o(&N); o.copyFrom(d.it); hiopVector* g0 = N.alloc_primal_vec(); g0->setToConstant(2.); int sv = vfs_inertia; bool ok = u->go(o, *g0, *d.Jc, *d.Jd); vf_assert(ok, "earlier update"); vfs_inertia = sv; }
  put_dense(d.Jc, d.jc); put_dense(d.Jd, d.jd); hiopIterate old(&N); old.copyFrom(d.it);
  if (ini) { d.it.yc->setToZero(); d.it.yd->setToZero(); }
  bool ok = ini ? u->compute_initial_duals_eq(d.it, *d.g, *d.Jc, *d.Jd) : u->go(d.it, *d.g, *d.Jc, *d.Jd); vf_assert(ok, "update succeeds");
  unchanged(d.it, old, false);
  if (ini) { bool z = true; for (auto v : {d.it.yc, d.it.yd}) for (int i = 0; i < v->get_local_size(); i++) { if (vf_is_sym(D(v)[i]) || D(v)[i] != 0.) z = false; vf_assert(dabs_(D(v)[i]) <= 1e10, "magnitude limit"); } if (z) return; }
  normal_eq(d.it, d.gr, d.jc, d.jd, n, d.me, d.mi, "normal equations"); vf_reach("lsq");
}
static std::vector<int> mask(int c, int pt) { std::vector<int> k(conf()[c].size() * 2, 1); if (pt) for (size_t i = 0; i < k.size(); i++) k[i] = (i / 2 + i + pt) % 2; return k; }
VF_HARNESS(sparse, 0, "lsq") { int c = vf_choose("cons", 6), pt = conf()[c].size() ? vf_choose("pattern", 3) : 0; structured<SProb, hiopNlpSparse>(c, mask(c, pt)); }
VF_HARNESS(mds, 0, "lsq") { int c = vf_choose("cons", 6), pt = conf()[c].size() ? vf_choose("pattern", 3) : 0, ns = vf_choose("ns", 3); structured<MProb, hiopNlpMDS>(c, mask(c, pt), ns); }
// 6 variables and 7 constraints: fixed Jacobians, arbitrary gradients and bound multipliers
VF_HARNESS(large, 0, "lsq") {
  static const std::vector<std::vector<int>> C = {{K_EQ, K_LOW, K_EQ, K_UPP, K_BOTH, K_LOW, K_UPP}, {K_LOW, K_UPP, K_BOTH, K_LOW, K_UPP}, {K_EQ, K_EQ, K_EQ, K_EQ}};
  vf_exact(1); auto& kc = C[vf_choose("cons", 3)]; int m = kc.size(), n = 6, form = vf_choose("form", 3), again = vf_choose("again", 2), pt = form ? vf_choose("pattern", 2) : 0; std::vector<int> kx = {K_LOW, K_BOTH, K_FREE, K_UPP, K_BOTH, K_LOW}, mk(m * n, 1);
  if (pt) for (int k = 0; k < m * n; k++) mk[k] = k % 4 != 1; if (form == 2) for (int j = 0; j < m; j++) for (int i = 4; i < n; i++) mk[j * n + i] = 1;
  DV J0(m * n), J1(m * n); for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) { J0[j * n + i] = mk[j * n + i] ? (i == j ? 4. : ((i * 5 + j * 3) % 7 - 3) / 4.) : 0.; J1[j * n + i] = mk[j * n + i] ? (i == j ? 2. : ((i * 2 + j) % 3 - 1) / 2.) : 0.; }
  auto split = [&](const DV& J, bool eq) { DV r; for (int j = 0; j < m; j++) if ((kc[j] == K_EQ) == eq) for (int i = 0; i < n; i++) r.push_back(J[j * n + i]); return r; };
  auto run = [&](auto& N, bool dense) {
    vfs_inertia = -1; vfs_concrete = 1; if (dense) vfs_inertia = 0;
    typedef typename std::remove_reference<decltype(N)>::type NLP; Data<NLP> d(N); hiopDualsLsqUpdate* u = N.alloc_duals_lsq_updater();
    d.jc = split(J0, true); d.jd = split(J0, false); DV c1 = split(J1, true), d1 = split(J1, false);
    if (!dense) { std::vector<int> oc, od; for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) (kc[j] == K_EQ ? oc : od).push_back(mk[j * n + i]); put_pattern(d.Jc, oc); put_pattern(d.Jd, od); }
    auto set = [&](const DV& a, const DV& b) { if (dense) { put_de(d.Jc, a); put_de(d.Jd, b); } else { put_dense(d.Jc, a); put_dense(d.Jd, b); } };
    if (again) { set(c1, d1); hiopIterate o(&N); for (auto v : {o.x, o.d, o.yc, o.yd, o.zl, o.zu, o.vl, o.vu, o.sxl, o.sxu, o.sdl, o.sdu}) v->setToConstant(0.5); hiopVector* g0 = N.alloc_primal_vec(); g0->setToConstant(2.); bool ok = u->go(o, *g0, *d.Jc, *d.Jd); vf_assert(ok, "earlier update"); }
    set(d.jc, d.jd); hiopIterate old(&N); old.copyFrom(d.it);
    bool ok = u->go(d.it, *d.g, *d.Jc, *d.Jd); vf_assert(ok, "update succeeds");
    normal_eq(d.it, d.gr, d.jc, d.jd, n, d.me, d.mi, "normal equations"); unchanged(d.it, old, false); vf_reach("lsq");
  };
  DProb p(kx, kc, true, false);
  if (form == 0) { NlpFix<> F(p); F.init(); run(F.nlp, true); }
  else if (form == 1) { SProb q(p, mk); NlpFix<SProb, hiopNlpSparse> F(q); F.init(); run(F.nlp, false); }
  else { MProb q(p, 4, mk); NlpFix<MProb, hiopNlpMDS> F(q); F.init(); run(F.nlp, false); }
}
VF_HARNESS(run_quasi, 0, "iterated") { int cfg = vf_choose("cfg", 3); obs_run(OB_MULT, false, cfg, cfg == 2 ? 3 : 2); } // whole quasi-Newton runs
VF_HARNESS(run_newton, 0, "iterated") { int cfg = vf_choose("cfg", 3); obs_run(OB_MULT, true, cfg, cfg == 2 ? 3 : 2); } // whole Newton runs

// the restoration problems (dense, sparse, mixed) behind one dense view, created by a solver stopped at an arbitrary point
#pragma once
#include "kktsp.hpp"
#include "vfstub.h"
#include "hiopFRProb.hpp"
static const std::vector<std::vector<int>>& conf() { static std::vector<std::vector<int>> c = {{K_EQ, K_LOW}, {K_BOTH}, {K_EQ}, {K_UPP, K_EQ}, {K_EQ, K_LOW, K_EQ}}; return c; }
struct Dn { DProb& p; Dn(DProb& p_) : p(p_) {} };
// uniform view of the three restoration problems: evaluation with dense matrices, positions of the parts
struct View {
  int n, m, nx, me, mi; std::vector<int> X, PE, NE, PI, NI; DV lo, up, cl, cu;
  virtual ~View() {}
  bool strict = true, last = true; void chk(bool ok, const char* w) { if (strict) vf_assert(ok, w); last = ok; }
  bool jac_ok(const DV& y) { strict = false; last = true; jac(y); strict = true; return last; }
  bool hess_ok(const DV& y, const DV& l) { strict = false; last = true; hess(y, l); strict = true; return last; }
  virtual bool f(const DV& y, double& v) = 0; virtual bool grad(const DV& y, DV& g) = 0; virtual bool cons(const DV& y, DV& c) = 0; virtual DV jac(const DV& y) = 0; virtual DV hess(const DV& y, const DV& l) { return {}; }
  virtual bool warm(DV& x0, DV& zl, DV& zu, DV& lam, DV& s, DV& vl, DV& vu) = 0; virtual bool force(DV& y) = 0; virtual bool callback(int it, const DV& y, const DV& s, double mu) = 0;
  virtual bool failed() = 0; virtual DV solx() = 0; virtual DV sold() = 0;
};
template <class FR> struct VB : View {
  FR* fr; DV z;
  void open(FR* f_, int nx_, int me_, int mi_, int ns) {
    fr = f_; nx = nx_; me = me_; mi = mi_; size_type a, b; bool ok = fr->get_prob_sizes(a, b); vf_assert(ok && a == nx + 2 * (me + mi) && b == me + mi, "sizes"); n = a; m = b;
    int k = 0; for (int i = 0; i < ns; i++) X.push_back(k++); for (int i = 0; i < me; i++) PE.push_back(k++); for (int i = 0; i < me; i++) NE.push_back(k++); for (int i = 0; i < mi; i++) PI.push_back(k++); for (int i = 0; i < mi; i++) NI.push_back(k++); for (int i = ns; i < nx; i++) X.push_back(k++);
    std::vector<hiopInterfaceBase::NonlinearityType> t(n + m); lo.assign(n, 7.); up = lo; cl.assign(m, 7.); cu = cl;
    ok = fr->get_vars_info(n, lo.data(), up.data(), t.data()); vf_assert(ok, "vars info"); ok = fr->get_cons_info(m, cl.data(), cu.data(), t.data()); vf_assert(ok, "cons info"); z.assign(n + m, 0.);
  }
  bool f(const DV& y, double& v) { return fr->eval_f(n, y.data(), true, v); }
  bool grad(const DV& y, DV& g) { g.assign(n, 7.); return fr->eval_grad_f(n, y.data(), true, g.data()); }
  bool cons(const DV& y, DV& c) { c.assign(m, 7.); return fr->eval_cons(n, m, y.data(), true, c.data()); }
  bool warm(DV& x0, DV& zl, DV& zu, DV& lam, DV& s, DV& vl, DV& vu) { for (auto v : {&x0, &zl, &zu}) v->assign(n, 7.); lam.assign(m, 7.); for (auto v : {&s, &vl, &vu}) v->assign(mi, 7.); return fr->get_warmstart_point(n, m, x0.data(), zl.data(), zu.data(), lam.data(), s.data(), vl.data(), vu.data()); }
  bool force(DV& y) { return fr->force_update_x(n, y.data()); }
  bool callback(int it, const DV& y, const DV& s, double mu) { return fr->iterate_callback(it, 0., 0., n, y.data(), z.data(), z.data(), mi, s.data(), m, z.data(), z.data(), 0., 0., 0., mu, 1., 1., 1); }
  bool failed() { return fr->base_eval_failed(); }
  DV solx() { return get(fr->get_fr_sol_x()); } DV sold() { return get(fr->get_fr_sol_d()); }
};
struct VDense : VB<hiopFRProbDense> {
  VDense(hiopAlgFilterIPMBase& a, int nx, int me, int mi) { open(new hiopFRProbDense(a), nx, me, mi, nx); }
  DV jac(const DV& y) { DV J(m * n, 7.); bool ok = fr->eval_Jac_cons(n, m, y.data(), true, J.data()); chk(ok, "Jacobian evaluated"); return J; }
};
static DV dense_trip(int m, int n, int nnz, const int* i, const int* j, const double* v, bool sym) { DV r(m * n, 0.); for (int k = 0; k < nnz; k++) { vf_assert(i[k] >= 0 && i[k] < m && j[k] >= 0 && j[k] < n, "index range"); if (k && !sym) vf_assert(i[k - 1] < i[k] || (i[k - 1] == i[k] && j[k - 1] < j[k]), "sorted"); double& t = r[i[k] * n + j[k]]; t = t + v[k]; if (sym && i[k] != j[k]) { double& u = r[j[k] * n + i[k]]; u = u + v[k]; } } return r; }
struct VSparse : VB<hiopFRProbSparse> {
  int e, q, h; std::vector<int> ji, jj, hi, hj;
  VSparse(hiopAlgFilterIPMBase& a, int nx, int me, int mi) { open(new hiopFRProbSparse(a), nx, me, mi, nx); int t; bool ok = fr->get_sparse_blocks_info(t, e, q, h); vf_assert(ok && t == n, "blocks info"); ji.assign(e + q, -1); jj = ji; hi.assign(h, -1); hj = hi; ok = fr->eval_Jac_cons(n, m, nullptr, true, e + q, ji.data(), jj.data(), nullptr); vf_assert(ok, "Jacobian structure"); ok = fr->eval_Hess_Lagr(n, m, nullptr, true, 1., nullptr, true, h, hi.data(), hj.data(), nullptr); vf_assert(ok, "Hessian structure"); }
  DV jac(const DV& y) { DV v(e + q, 7.); bool ok = fr->eval_Jac_cons(n, m, y.data(), true, e + q, nullptr, nullptr, v.data()); chk(ok, "Jacobian evaluated"); for (int k = 0; k < e + q; k++) vf_assert((ji[k] < me) == (k < e), "equality and inequality nonzeros"); return dense_trip(m, n, e + q, ji.data(), jj.data(), v.data(), false); }
  DV hess(const DV& y, const DV& l) { DV v(h, 7.); bool ok = fr->eval_Hess_Lagr(n, m, y.data(), true, 1., l.data(), true, h, nullptr, nullptr, v.data()); chk(ok, "Hessian evaluated"); return dense_trip(n, n, h, hi.data(), hj.data(), v.data(), true); }
};
struct VMds : VB<hiopFRProbMDS> {
  int ns, nd, e, q, h, sd; std::vector<int> ji, jj, hi, hj;
  VMds(hiopAlgFilterIPMBase& a, int nx, int me, int mi, int xs) { open(new hiopFRProbMDS(a), nx, me, mi, xs); bool ok = fr->get_sparse_dense_blocks_info(ns, nd, e, q, h, sd); vf_assert(ok && ns == xs + 2 * (me + mi) && nd == nx - xs && sd == 0, "blocks info"); ji.assign(e + q, -1); jj = ji; hi.assign(h, -1); hj = hi; ok = fr->eval_Jac_cons(n, m, nullptr, true, ns, nd, e + q, ji.data(), jj.data(), nullptr, nullptr); vf_assert(ok, "Jacobian structure"); size_type z0 = 0; ok = fr->eval_Hess_Lagr(n, m, nullptr, true, 1., nullptr, true, ns, nd, h, hi.data(), hj.data(), nullptr, nullptr, z0, nullptr, nullptr, nullptr); vf_assert(ok, "Hessian structure"); }
  DV jac(const DV& y) { DV v(e + q, 7.), De(m * nd, 7.); bool ok = fr->eval_Jac_cons(n, m, y.data(), true, ns, nd, e + q, nullptr, nullptr, v.data(), De.data()); chk(ok, "Jacobian evaluated"); DV s = dense_trip(m, ns, e + q, ji.data(), jj.data(), v.data(), false), r(m * n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) r[i * n + j] = j < ns ? s[i * ns + j] : De[i * nd + j - ns]; return r; }
  DV hess(const DV& y, const DV& l) { DV v(h, 7.), De(nd * nd, 7.); size_type z0 = 0; bool ok = fr->eval_Hess_Lagr(n, m, y.data(), true, 1., l.data(), true, ns, nd, h, nullptr, nullptr, v.data(), De.data(), z0, nullptr, nullptr, nullptr); chk(ok, "Hessian evaluated"); DV s = dense_trip(ns, ns, h, hi.data(), hj.data(), v.data(), true), r(n * n, 0.); for (int i = 0; i < ns; i++) for (int j = 0; j < ns; j++) r[i * n + j] = s[i * ns + j]; for (int i = 0; i < nd; i++) for (int j = 0; j < nd; j++) r[(ns + i) * n + ns + j] = De[(i <= j ? i * nd + j : j * nd + i)]; return r; }
};
// a solver stopped at an arbitrary point, and the restoration problem it creates
struct Ctx {
  DProb p; hiopNlpFormulation* N = nullptr; hiopAlgFilterIPMBase* a = nullptr; View* v = nullptr; int var, n, me, mi; DV xr, s, dr; double mu, feas, mu0; std::vector<int> eqs, ins; std::vector<int> msk;
  template <class F> void ready(F& fx) { fx.num("kappa_resto", 0.5); fx.init(); N = &fx.nlp; }
  bool nz(int j, int i) { return msk[j * n + i]; }
  Ctx(const std::vector<int>& kx, int c, int var_, bool zero, int pt) : p(kx, conf()[c], true, true), var(var_) {
    n = p.n; msk.assign(p.m * n, 1); if (var && pt) for (size_t i = 0; i < msk.size(); i++) msk[i] = (i / 2 + i + pt) % 2;
    if (var == 2) for (int j = 0; j < p.m; j++) msk[j * n + 1] = 1; // dense columns
    for (int j = 0; j < p.m; j++) (p.kc[j] == K_EQ ? eqs : ins).push_back(j); me = eqs.size(); mi = ins.size();
    if (var == 0) { auto* f = new NlpFix<DProb, hiopNlpDenseConstraints>(p); ready(*f); a = new hiopAlgFilterIPMQuasiNewton(&f->nlp); }
    if (var == 1) { auto* q = new SProb(p, msk); auto* f = new NlpFix<SProb, hiopNlpSparse>(*q); ready(*f); a = new hiopAlgFilterIPMNewton(&f->nlp); }
    if (var == 2) { auto* q = new MProb(p, 1, msk); auto* f = new NlpFix<MProb, hiopNlpMDS>(*q); ready(*f); a = new hiopAlgFilterIPMNewton(&f->nlp); }
    fill(a->it_curr->x, "xr"); if (zero) D(a->it_curr->x)[0] = 0.; xr = get(*a->it_curr->x); fill(a->it_curr->d, "s"); s = get(*a->it_curr->d);
    fill_pos(a->it_curr->zl, N->get_ixl(), "zl"); fill_pos(a->it_curr->zu, N->get_ixu(), "zu"); fill_pos(a->it_curr->vl, N->get_idl(), "vl"); fill_pos(a->it_curr->vu, N->get_idu(), "vu");
    bool ok = N->eval_c_d(*a->it_curr->x, true, *a->_c, *a->_d); vf_assert(ok, "evaluation");
    hiopVector& x = *a->it_curr->x; ok = N->eval_Jac_c_d(x, true, *a->_Jac_c, *a->_Jac_d); vf_assert(ok, "evaluation");
    if (var) { ok = N->eval_Hess_Lagr(x, true, 1., *a->it_curr->yc, *a->it_curr->yd, true, *a->_Hess_Lagr); vf_assert(ok, "evaluation"); }
    mu = vf_in("mu", 1e-8, 1e4); feas = vf_in("feas", 0., 1e4); a->_mu = mu; a->resid->nrmInf_bar_feasib = feas; a->resid->nrmOne_bar_feasib = feas;
    for (double t : xr) dr.push_back(1. / dmax(1., dabs_(t))); mu0 = dmax(mu, feas);
    if (var == 0) v = new VDense(*a, n, me, mi); if (var == 1) v = new VSparse(*a, n, me, mi); if (var == 2) v = new VMds(*a, n, me, mi, 1);
  }
  double c(const DV& y, int k) { int j = k < me ? eqs[k] : ins[k - me]; DV x; for (int i : v->X) x.push_back(y[i]); return p.c(x.data(), j); }
  // derivative of the user constraint; masked columns are not part of the problem (the harness keeps their coefficients zero)
  double dc(const DV& y, int k, int i) { int j = k < me ? eqs[k] : ins[k - me]; DV x; for (int t : v->X) x.push_back(y[t]); return p.dc(x.data(), j, i); }
  void mask0() { for (int j = 0; j < p.m; j++) for (int i = 0; i < n; i++) if (!msk[j * n + i]) { p.A[j * n + i] = 0; p.Q[j * n + i] = 0; } }
};
static Ctx* make(int c, bool zero = false, int pt = 0, std::vector<int> kx = {K_BOTH, K_LOW}) { int var = vf_choose("variant", 3); return new Ctx(kx, c, var, zero, pt); }

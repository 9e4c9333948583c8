// A symbolic dense-constraints NLP and the solver objects around it.
#ifndef FIX_HPP
#define FIX_HPP
#include "hc.hpp"
#include "hiopNlpFormulation.hpp"
#include "hiopIterate.hpp"
#include "hiopResidual.hpp"
#include "hiopLogBarProblem.hpp"
#include "hiopMatrixMDS.hpp"
static const double INF = 1e20;
enum { K_FREE = 0, K_LOW = 1, K_UPP = 2, K_BOTH = 3, K_EQ = 4 };
// polynomial user functions:  f = sum g_i x_i + h_i/2 x_i^2 ; c_j = sum A_ji x_i + q_ji/2 x_i^2
struct DProb : hiopInterfaceDenseConstraints {
  int n, m;
  DV xl, xu, cl, cu, x0;
  std::vector<int> kx, kc;
  DV g, h, A, Q;
  bool two_call, quad;
  int n_f = 0, n_grad = 0, n_c = 0, n_jac = 0;
  DV last_x;
  std::vector<hiopInterfaceBase::NonlinearityType> vt, ct;
  NonlinearityType ptype = hiopInterfaceBase::hiopNonlinear;
  DProb(const std::vector<int>& kx_, const std::vector<int>& kc_, bool two = true, bool quad_ = true) : n(kx_.size()), m(kc_.size()), kx(kx_), kc(kc_), two_call(two), quad(quad_) {
    g = symv(n, "g"); h = quad ? symv(n, "h") : DV(n, 0.); A = symv(n * m, "A"); Q = quad ? symv(n * m, "q") : DV(n * m, 0.); x0 = symv(n, "u");
    xl.assign(n, -INF); xu.assign(n, INF); cl.assign(m, -INF); cu.assign(m, INF);
    mk(n, kx, xl, xu, "x"); mk(m, kc, cl, cu, "c");
    vt.assign(n, hiopInterfaceBase::hiopNonlinear); ct.assign(m, hiopInterfaceBase::hiopNonlinear);
  }
  // bounds: finite in [-1e4,1e4], two-sided ones at least 1/1024 apart
  static void mk(int n, const std::vector<int>& k, DV& l, DV& u, const char* b) {
    for (int i = 0; i < n; i++) {
      if (k[i] & 1) l[i] = vf_in((std::string(b) + "l" + std::to_string(i)).c_str(), -1e4, 1e4);
      if (k[i] & 2) u[i] = vf_in((std::string(b) + "u" + std::to_string(i)).c_str(), -1e4, 1e4);
      if (k[i] == K_BOTH) { if (vf_fixed(nm(b, i).c_str())) u[i] = l[i] + dabs_(u[i]) + 1; else vf_assume_le(l[i] + 1. / 1024, u[i]); }
      if (k[i] == K_EQ) l[i] = u[i] = vf_in((std::string(b) + "e" + std::to_string(i)).c_str(), -1e4, 1e4);
    }
  }
  double f(const double* x) const { double r = 0; for (int i = 0; i < n; i++) r = r + g[i] * x[i] + (quad ? h[i] * x[i] * x[i] * 0.5 : 0.); return r; }
  double df(const double* x, int i) const { return g[i] + (quad ? h[i] * x[i] : 0.); }
  double c(const double* x, int j) const { double r = 0; for (int i = 0; i < n; i++) r = r + A[j * n + i] * x[i] + (quad ? Q[j * n + i] * x[i] * x[i] * 0.5 : 0.); return r; }
  double dc(const double* x, int j, int i) const { return A[j * n + i] + (quad ? Q[j * n + i] * x[i] : 0.); }
  bool get_prob_sizes(size_type& n_, size_type& m_) { n_ = n; m_ = m; return true; }
  bool get_prob_info(NonlinearityType& t) { t = ptype; return true; }
  bool get_vars_info(const size_type& n_, double* l, double* u, NonlinearityType* t) { for (int i = 0; i < n; i++) { l[i] = xl[i]; u[i] = xu[i]; t[i] = vt[i]; } return true; }
  bool get_cons_info(const size_type& m_, double* l, double* u, NonlinearityType* t) { for (int i = 0; i < m; i++) { l[i] = cl[i]; u[i] = cu[i]; t[i] = ct[i]; } return true; }
  void seen(const double* x) { last_x.assign(x, x + n); }
  int failing = 0, n_failed = 0; // bits: 1 objective, 2 gradient, 4 constraints, 8 Jacobian, 16 Hessian
  bool fails(int bit) { if (failing & bit) { n_failed++; return true; } return false; }
  bool eval_f(const size_type& n_, const double* x, bool, double& o) { if (fails(1)) return false; seen(x); n_f++; o = f(x); return true; }
  bool eval_grad_f(const size_type& n_, const double* x, bool, double* gr) { if (fails(2)) return false; seen(x); n_grad++; for (int i = 0; i < n; i++) gr[i] = df(x, i); return true; }
  bool eval_cons(const size_type& n_, const size_type& m_, const size_type& nc, const index_type* idx, const double* x, bool, double* co) {
    if (!two_call) return false;
    if (nc && fails(4)) return false;
    seen(x); n_c++;
    for (int k = 0; k < nc; k++) co[k] = c(x, idx[k]);
    return true;
  }
  bool eval_cons(const size_type& n_, const size_type& m_, const double* x, bool, double* co) { if (fails(4)) return false; seen(x); n_c++; for (int k = 0; k < m; k++) co[k] = c(x, k); return true; }
  bool eval_Jac_cons(const size_type& n_, const size_type& m_, const size_type& nc, const index_type* idx, const double* x, bool, double* J) {
    if (!two_call) return false;
    if (nc && fails(8)) return false;
    seen(x); n_jac++;
    for (int k = 0; k < nc; k++) for (int i = 0; i < n; i++) J[k * n + i] = dc(x, idx[k], i);
    return true;
  }
  bool eval_Jac_cons(const size_type& n_, const size_type& m_, const double* x, bool, double* J) { if (fails(8)) return false; seen(x); n_jac++; for (int k = 0; k < m; k++) for (int i = 0; i < n; i++) J[k * n + i] = dc(x, k, i); return true; }
  bool get_starting_point(const size_type& n_, double* x) { for (int i = 0; i < n; i++) x[i] = x0[i]; return true; }
  // results
  int sol_calls = 0; DV sol_x, sol_zl, sol_zu, sol_g, sol_lam; double sol_obj = 0; hiopSolveStatus sol_status;
  void solution_callback(hiopSolveStatus st, size_type nn, const double* x, const double* zl, const double* zu, size_type mm, const double* gg, const double* lam, double obj) {
    sol_calls++; sol_status = st; sol_x.assign(x, x + nn); sol_zl.assign(zl, zl + nn); sol_zu.assign(zu, zu + nn); sol_g.assign(gg, gg + mm); sol_lam.assign(lam, lam + mm); sol_obj = obj;
  }
  bool has_low(int i) const { return kx[i] & 1 || kx[i] == K_EQ; }
};
struct Opt { std::string name; std::string s; double d; int kind; };
static inline void setopts(hiopNlpFormulation& nlp) {
  nlp.options->SetIntegerValue("verbosity_level", 0);
}
// a finalized problem; scaling and bound relaxation off unless set
template <class P = DProb, class N = hiopNlpDenseConstraints> struct NlpFix {
  P& p; N nlp;
  NlpFix(P& p_) : p(p_), nlp(p_) {
    nlp.options->SetIntegerValue("verbosity_level", 0);
    nlp.options->SetStringValue("scaling_type", "none");
    nlp.options->SetNumericValue("bound_relax_perturb", 0.0);
  }
  void num(const char* o, double v) { nlp.options->SetNumericValue(o, v); vf_assert_eq(nlp.options->GetNumeric(o), v, "option accepted"); }
  void str(const char* o, const char* v) { bool ok = nlp.options->SetStringValue(o, v); vf_assert(ok, "option accepted"); }
  void init() { bool ok = nlp.finalizeInitialization(); vf_assert(ok, "finalizeInitialization"); }
};
// bound-kind choices
static inline std::vector<int> kinds(int n, const char* b, std::vector<int> allowed) {
  std::vector<int> r;
  for (int i = 0; i < n; i++) r.push_back(allowed[vf_choose(nm(b, i).c_str(), (int)allowed.size())]);
  return r;
}
// fill an iterate with a strictly interior symbolic point (slacks derived) and positive multipliers
static inline void fill(hiopVector* v, const char* b) { double* d = v->local_data(); for (int i = 0; i < v->get_local_size(); i++) d[i] = R(nm(b, i)); }
static inline void fill_pos(hiopVector* v, const hiopVector& pat, const char* b) {
  double* d = v->local_data(); const double* p = pat.local_data_const();
  for (int i = 0; i < v->get_local_size(); i++) d[i] = p[i] == 1. ? vf_pos(nm(b, i).c_str()) : 0.;
}
static inline void fill_pat(hiopVector* v, const hiopVector& pat, const char* b) {
  double* d = v->local_data(); const double* p = pat.local_data_const();
  for (int i = 0; i < v->get_local_size(); i++) d[i] = p[i] == 1. ? R(nm(b, i)) : 0.;
}
static inline double* D(hiopVector* v) { return v->local_data(); }
static inline const double* D(const hiopVector& v) { return v.local_data_const(); }
static inline void fill_in(hiopVector* v, const char* b, const hiopVector& l, const hiopVector& u, const hiopVector& il, const hiopVector& iu) {
  for (int i = 0; i < v->get_local_size(); i++) {
    double x = R(nm(b, i)); bool a = D(il)[i] == 1., c = D(iu)[i] == 1.;
    if (vf_fixed(nm(b, i).c_str())) x = a && c ? (D(l)[i] + D(u)[i]) / 2 : a ? D(l)[i] + dabs_(x) : c ? D(u)[i] - dabs_(x) : x;
    D(v)[i] = x;
  }
}
static inline void interior(hiopNlpFormulation& nlp, hiopIterate& it) {
  fill_in(it.x, "x", nlp.get_xl(), nlp.get_xu(), nlp.get_ixl(), nlp.get_ixu()); fill_in(it.d, "d", nlp.get_dl(), nlp.get_du(), nlp.get_idl(), nlp.get_idu());
  it.determineSlacks();
  int n = it.x->get_local_size(), mi = it.d->get_local_size();
  for (int i = 0; i < n; i++) { if (D(nlp.get_ixl())[i] == 1.) vf_assume_lt(0, D(it.sxl)[i]); if (D(nlp.get_ixu())[i] == 1.) vf_assume_lt(0, D(it.sxu)[i]); }
  for (int i = 0; i < mi; i++) { if (D(nlp.get_idl())[i] == 1.) vf_assume_lt(0, D(it.sdl)[i]); if (D(nlp.get_idu())[i] == 1.) vf_assume_lt(0, D(it.sdu)[i]); }
  fill_pos(it.zl, nlp.get_ixl(), "zl"); fill_pos(it.zu, nlp.get_ixu(), "zu"); fill_pos(it.vl, nlp.get_idl(), "vl"); fill_pos(it.vu, nlp.get_idu(), "vu");
  fill(it.yc, "yc"); fill(it.yd, "yd");
}
// free slack values (not tied to x): strictly positive
static inline void free_slacks(hiopNlpFormulation& nlp, hiopIterate& it) {
  fill_pos(it.sxl, nlp.get_ixl(), "sxl"); fill_pos(it.sxu, nlp.get_ixu(), "sxu"); fill_pos(it.sdl, nlp.get_idl(), "sdl"); fill_pos(it.sdu, nlp.get_idu(), "sdu");
  fill_pos(it.zl, nlp.get_ixl(), "zl"); fill_pos(it.zu, nlp.get_ixu(), "zu"); fill_pos(it.vl, nlp.get_idl(), "vl"); fill_pos(it.vu, nlp.get_idu(), "vu");
  fill(it.x, "x"); fill(it.d, "d"); fill(it.yc, "yc"); fill(it.yd, "yd");
}
// arbitrary direction with the pattern the solver guarantees
static inline void any_dir(hiopNlpFormulation& nlp, hiopIterate& it, const char* pfx = "D") {
  std::string p(pfx);
  fill(it.x, (p + "x").c_str()); fill(it.d, (p + "d").c_str()); fill(it.yc, (p + "yc").c_str()); fill(it.yd, (p + "yd").c_str());
  fill_pat(it.sxl, nlp.get_ixl(), (p + "sxl").c_str()); fill_pat(it.sxu, nlp.get_ixu(), (p + "sxu").c_str()); fill_pat(it.sdl, nlp.get_idl(), (p + "sdl").c_str()); fill_pat(it.sdu, nlp.get_idu(), (p + "sdu").c_str());
  fill_pat(it.zl, nlp.get_ixl(), (p + "zl").c_str()); fill_pat(it.zu, nlp.get_ixu(), (p + "zu").c_str()); fill_pat(it.vl, nlp.get_idl(), (p + "vl").c_str()); fill_pat(it.vu, nlp.get_idu(), (p + "vu").c_str());
}
#endif

// mixed dense-sparse and sparse problems built on the functions of DProb (diagonal Hessians, masked Jacobians)
#ifndef SM_HPP
#define SM_HPP
#include "fix.hpp"
#include "hiopMatrixSparseTriplet.hpp"
template <class I> struct PBase : I {
  DProb& d; std::vector<int> mask; DV lam; double of = 0; int n_h = 0;
  PBase(DProb& d_, const std::vector<int>& mk) : d(d_), mask(mk) {}
  bool nz(int j, int i) const { return mask[j * d.n + i]; }
  double dc(const double* x, int j, int i) const { return d.dc(x, j, i); }
  bool get_prob_sizes(size_type& n, size_type& m) { return d.get_prob_sizes(n, m); }
  bool get_prob_info(hiopInterfaceBase::NonlinearityType& t) { return d.get_prob_info(t); }
  bool get_vars_info(const size_type& n, double* l, double* u, hiopInterfaceBase::NonlinearityType* t) { return d.get_vars_info(n, l, u, t); }
  bool get_cons_info(const size_type& m, double* l, double* u, hiopInterfaceBase::NonlinearityType* t) { return d.get_cons_info(m, l, u, t); }
  bool eval_f(const size_type& n, const double* x, bool nx, double& o) { return d.eval_f(n, x, nx, o); }
  bool eval_grad_f(const size_type& n, const double* x, bool nx, double* g) { return d.eval_grad_f(n, x, nx, g); }
  bool eval_cons(const size_type& n, const size_type& m, const size_type& nc, const index_type* idx, const double* x, bool nx, double* c) { return d.eval_cons(n, m, nc, idx, x, nx, c); }
  bool eval_cons(const size_type& n, const size_type& m, const double* x, bool nx, double* c) { return d.eval_cons(n, m, x, nx, c); }
  bool get_starting_point(const size_type& n, double* x) { return d.get_starting_point(n, x); }
  void solution_callback(hiopSolveStatus st, size_type nn, const double* x, const double* zl, const double* zu, size_type mm, const double* gg, const double* lm, double obj) { d.solution_callback(st, nn, x, zl, zu, mm, gg, lm, obj); }
  // sparse part of the rows: columns [0,ns)
  void rows(int nc, const index_type* idx, const double* x, int ns, int nnz, index_type* ir, index_type* jc, double* M, double* De) {
    int k = 0;
    for (int r = 0; r < nc; r++) {
      int j = idx ? idx[r] : r;
      for (int i = 0; i < ns; i++) if (nz(j, i)) { if (ir) { ir[k] = r; jc[k] = i; } if (M) M[k] = dc(x, j, i); k++; }
      if (De) for (int i = ns; i < d.n; i++) De[r * (d.n - ns) + i - ns] = dc(x, j, i);
    }
    vf_assert(k == nnz, "sparse Jacobian size");
  }
  int count(bool eq, int ns) const { int k = 0; for (int j = 0; j < d.m; j++) if ((d.kc[j] == K_EQ) == eq) for (int i = 0; i < ns; i++) k += nz(j, i) ? 1 : 0; return k; }
  // diagonal of the Hessian of obj*f + sum_k l_k c_{o_k}
  double hess(int i, const double* l, const std::vector<int>& o) const { double v = of * (d.quad ? d.h[i] : 0.); for (size_t k = 0; k < o.size(); k++) v = v + l[k] * (d.quad ? d.Q[o[k] * d.n + i] : 0.); return v; }
};
struct MProb : PBase<hiopInterfaceMDS> {
  int ns, nd; bool lam_user_order = false;
  MProb(DProb& d_, int ns_, const std::vector<int>& mk) : PBase(d_, mk), ns(ns_), nd(d_.n - ns_) {}
  bool get_sparse_dense_blocks_info(int& a, int& b, int& e, int& q, int& ss, int& sd) { a = ns; b = nd; e = count(true, ns); q = count(false, ns); ss = ns; sd = 0; return true; }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const size_type& nc, const index_type* idx, const double* x, bool, const size_type& a, const size_type& b, const size_type& nnz, index_type* ir, index_type* jc, double* M, double* De) {
    if (!d.two_call) return false;
    vf_assert(a == ns && b == nd, "block sizes"); if (M && nc && d.fails(8)) return false; rows(nc, idx, x, ns, nnz, ir, jc, M, De); return true;
  }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const double* x, bool, const size_type& a, const size_type& b, const size_type& nnz, index_type* ir, index_type* jc, double* M, double* De) { if (M && d.fails(8)) return false; rows(d.m, nullptr, x, ns, nnz, ir, jc, M, De); return true; }
  // the order of the multipliers is documented: [equalities, inequalities]
  std::vector<int> order() const { std::vector<int> o; for (int e = 1; e >= 0; e--) for (int j = 0; j < d.m; j++) if ((d.kc[j] == K_EQ) == (e == 1)) o.push_back(j); return o; }
  bool eval_Hess_Lagr(const size_type& n, const size_type& m, const double* x, bool, const double& obj, const double* l, bool, const size_type& a, const size_type& b, const size_type& nnz, index_type* ir, index_type* jc, double* M, double* H, size_type& nsd, index_type*, index_type*, double*) {
    if (M && d.fails(16)) return false; n_h++; of = obj; lam.assign(l, l + d.m); auto o = order();
    for (int i = 0; i < ns; i++) { if (ir) ir[i] = jc[i] = i; if (M) M[i] = hess(i, l, o); }
    if (H) for (int i = 0; i < nd; i++) for (int j = 0; j < nd; j++) H[i * nd + j] = i == j ? hess(ns + i, l, o) : 0.;
    nsd = 0; return true;
  }
};
struct SProb : PBase<hiopInterfaceSparse> {
  SProb(DProb& d_, const std::vector<int>& mk) : PBase(d_, mk) {}
  bool get_sparse_blocks_info(size_type& nx, size_type& e, size_type& q, size_type& h) { nx = d.n; e = count(true, d.n); q = count(false, d.n); h = d.n; return true; }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const size_type& nc, const index_type* idx, const double* x, bool, const size_type& nnz, index_type* ir, index_type* jc, double* M) {
    if (!d.two_call) return false;
    if (M && nc && d.fails(8)) return false; rows(nc, idx, x, d.n, nnz, ir, jc, M, nullptr); return true;
  }
  bool eval_Jac_cons(const size_type& n, const size_type& m, const double* x, bool, const size_type& nnz, index_type* ir, index_type* jc, double* M) { if (M && d.fails(8)) return false; rows(d.m, nullptr, x, d.n, nnz, ir, jc, M, nullptr); return true; }
  std::vector<int> order() const { std::vector<int> o; for (int j = 0; j < d.m; j++) o.push_back(j); return o; }
  bool eval_Hess_Lagr(const size_type& n, const size_type& m, const double* x, bool, const double& obj, const double* l, bool, const size_type& nnz, index_type* ir, index_type* jc, double* M) {
    if (M && d.fails(16)) return false; n_h++; of = obj; lam.assign(l, l + d.m); auto o = order();
    for (int i = 0; i < d.n; i++) { if (ir) ir[i] = jc[i] = i; if (M) M[i] = hess(i, l, o); }
    return true;
  }
};
// dense values of the matrices the solver works with
static inline DV dense_of(hiopMatrix* M) {
  int m = M->m(), n = M->n(); DV r(m * n, 0.);
  if (auto* d = dynamic_cast<hiopMatrixDenseRowMajor*>(M)) { for (int i = 0; i < m * n; i++) r[i] = d->local_data()[i]; return r; }
  if (auto* b = dynamic_cast<hiopMatrixMDS*>(M)) {
    auto* s = b->sp_mat(); int ns = s->n();
    for (int k = 0; k < s->numberOfNonzeros(); k++) { double& t = r[s->i_row()[k] * n + s->j_col()[k]]; t = t + s->M()[k]; }
    for (int i = 0; i < m; i++) for (int j = ns; j < n; j++) r[i * n + j] = b->de_local_data()[i * (n - ns) + j - ns];
    return r;
  }
  if (auto* b = dynamic_cast<hiopMatrixSymBlockDiagMDS*>(M)) {
    auto* s = b->sp_mat(); int ns = s->n(), nd = n - ns;
    for (int k = 0; k < s->numberOfNonzeros(); k++) { int i = s->i_row()[k], j = s->j_col()[k]; double& t = r[i * n + j]; t = t + s->M()[k]; if (i != j) { double& u = r[j * n + i]; u = u + s->M()[k]; } }
    for (int i = 0; i < nd; i++) for (int j = 0; j < nd; j++) r[(ns + i) * n + ns + j] = b->de_local_data()[i <= j ? i * nd + j : j * nd + i];
    return r;
  }
  bool sym = dynamic_cast<hiopMatrixSymSparseTriplet*>(M) != nullptr;
  auto* s = dynamic_cast<hiopMatrixSparse*>(M); vf_assert(s != nullptr, "matrix type");
  for (int k = 0; k < s->numberOfNonzeros(); k++) { int i = s->i_row()[k], j = s->j_col()[k]; double& t = r[i * n + j]; t = t + s->M()[k]; if (sym && i != j) { double& u = r[j * n + i]; u = u + s->M()[k]; } }
  return r;
}
#endif

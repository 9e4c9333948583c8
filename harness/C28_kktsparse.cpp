// vf-bounds: up to 3 variables of every bound kind, up to 3 constraints of every kind (6 variables with 7 constraints for fixed matrices) with arbitrary sparsity patterns, arbitrary values of Hessians with several sparsity patterns, fresh and reused KKT objects, refactorizations; inequality slacks and multipliers in [1e-8,1e8], arbitrary Jacobians, interior iterate, residual and nonnegative regularization vectors; linear solves by contract
// vf-flags: -DHIOP_SPARSE -DHIOP_USE_COINHSL
// vf-sources: LinAlg/hiopLinSolverSymSparseMA57.cpp Optimization/hiopKKTLinSysSparse.cpp Optimization/hiopKKTLinSysSparseCondensed.cpp Optimization/hiopKKTLinSysSparseNormalEqn.cpp
#include "kktsp.hpp"
#include "vfstub.h"
#include "hiopKKTLinSysSparse.hpp"
#include "hiopKKTLinSysSparseCondensed.hpp"
#include "hiopKKTLinSysSparseNormalEqn.hpp"
typedef KS<SProb, hiopNlpSparse> K;
typedef KS<SProb, hiopNlpSparseIneq> KI;
static const std::vector<std::vector<int>>& conf() { static std::vector<std::vector<int>> c = {{K_EQ, K_LOW}, {K_BOTH}, {K_EQ}, {}, {K_UPP, K_EQ, K_EQ}, {K_LOW, K_EQ, K_UPP}}; return c; }
static std::vector<int> xk(int n, int sh) { const int kk[4] = {K_BOTH, K_FREE, K_LOW, K_UPP}; std::vector<int> kx; for (int i = 0; i < n; i++) kx.push_back(kk[(i + sh) % 4]); return kx; }
// upper triangle patterns: full, diagonal, empty diagonal entry / off-diagonal only
static std::vector<int> hp(int n, int w) { std::vector<int> h(n * n, 0); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) h[i * n + j] = w == 0 ? 1 : w == 1 ? i == j : (i + j) % 2; return h; }
static std::vector<int> jp(int m, int n, int pt) { std::vector<int> k(m * n, 1); if (pt) for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) k[j * n + i] = pt == 1 ? (i + j) % 2 == 0 : (i + j) % 2 == 1 || j == 2; return k; }
template <class L> static void direction(int n, int hist) {
  int c = vf_choose("cons", 6), reg = vf_choose("reg", 2), sh = vf_thorough() ? vf_choose("kx", 4) : c % 4; int m = conf()[c].size();
  int pt = m ? vf_choose("pattern", 3) : 0, hw = vf_choose("hess", 3);
  K k(xk(n, sh), conf()[c], reg, hp(n, hw), false, false, jp(m, n, pt)); L sys(&k.N); sys.set_safe_mode(false); k.run(sys, hist);
}
VF_HARNESS(xycyd, 0, "directions") { direction<hiopKKTLinSysCompressedSparseXYcYd>(2, 0); }
VF_HARNESS(xycyd_again, 0, "directions") { direction<hiopKKTLinSysCompressedSparseXYcYd>(1, 1); }
VF_HARNESS(xycyd_reused, 0, "directions") { direction<hiopKKTLinSysCompressedSparseXYcYd>(2, 2); }
VF_HARNESS(xdycyd, 0, "directions") { direction<hiopKKTLinSysCompressedSparseXDYcYd>(2, 0); }
VF_HARNESS(xdycyd_again, 0, "directions") { direction<hiopKKTLinSysCompressedSparseXDYcYd>(1, 1); }
VF_HARNESS(xdycyd_reused, 0, "directions") { direction<hiopKKTLinSysCompressedSparseXDYcYd>(2, 2); }
// the full (unreduced) system with an exact nonsymmetric solver behind the linear solver interface
struct Exact : hiopLinSolverNonSymSparse {
  DV A; int fact = 0;
  Exact(int n, int nnz, hiopNlpFormulation* N) : hiopLinSolverNonSymSparse(n, nnz, N) { sys_mat_owned_ = true; }
  int matrixChanged() { int n = M_->n(); A.assign(n * n, 0.); for (int k = 0; k < M_->numberOfNonzeros(); k++) { int i = M_->i_row()[k], j = M_->j_col()[k]; vf_assert(i >= 0 && i < n && j >= 0 && j < n, "entry in range"); A[i * n + j] = A[i * n + j] + M_->M()[k]; } fact++; return 0; }
  bool solve(hiopVector& x) { vf_assert(fact > 0, "solve after a factorization"); vfs_linsolve(M_->n(), A.data(), x.local_data()); return true; }
};
static void full_run(K& k, int n, int hist);
static void full(int n, int hist) {
  int c = vf_choose("cons", 6), reg = vf_choose("reg", 2), sh = vf_thorough() ? vf_choose("kx", 4) : c % 4; int m = conf()[c].size();
  int pt = m ? vf_choose("pattern", 3) : 0, hw = vf_choose("hess", 3);
  K k(xk(n, sh), conf()[c], reg, hp(n, hw), false, false, jp(m, n, pt)); full_run(k, n, hist);
}
static void full_run(K& k, int n, int hist) {
  hiopKKTLinSysSparseFull sys(&k.N); sys.set_safe_mode(false);
  auto* H = dynamic_cast<hiopMatrixSparse*>(k.H); auto *C = dynamic_cast<hiopMatrixSparse*>(k.Jc), *D_ = dynamic_cast<hiopMatrixSparse*>(k.Jd);
  int nd = k.mi, b = k.N.m_ineq_low() + k.N.m_ineq_upp() + k.N.n_low() + k.N.n_upp(), st = n + k.me + k.mi + nd;
  sys.linSys_ = new Exact(st + 2 * b, H->numberOfNonzeros() + H->numberOfOffDiagNonzeros() + 2 * C->numberOfNonzeros() + 2 * D_->numberOfNonzeros() + 2 * (nd + 2 * b) + b + st, &k.N);
  k.clean_dir(); k.run(sys, hist);
}
VF_HARNESS(full, 0, "directions") { full(2, 0); }
VF_HARNESS(full_again, 0, "directions") { full(1, 1); }
VF_HARNESS(full_reused, 0, "directions") { full(1, 2); }
// condensed: equalities handled as two-sided inequalities, no dual regularization
static void condensed(int n, int hist) {
  int c = vf_choose("cons", 6), reg = vf_choose("reg", 2), sh = vf_thorough() ? vf_choose("kx", 4) : c % 4; int m = conf()[c].size(); if (!m) return;
  int pt = vf_choose("pattern", 3), hw = vf_choose("hess", 3);
  KI k(xk(n, sh), conf()[c], reg, hp(n, hw), true, false, jp(m, n, pt)); hiopKKTLinSysCondensedSparse sys(&k.N); sys.set_safe_mode(false); k.run(sys, hist);
}
VF_HARNESS(condensed, 0, "directions") { condensed(2, 0); }
VF_HARNESS(condensed_again, 0, "directions") { condensed(1, 1); }
VF_HARNESS(condensed_reused, 0, "directions") { condensed(2, 2); }
// normal equations: linear programs and diagonal quadratic programs, whose Jacobian and Hessian never change
static void normal(int n, int hist) {
  int c = vf_choose("cons", 6), reg = vf_choose("reg", 2), sh = vf_thorough() ? vf_choose("kx", 4) : c % 4; int m = conf()[c].size(); if (!m) return;
  int pt = vf_choose("pattern", 3);
  K k(xk(n, sh), conf()[c], reg, hp(n, 1), false, true, jp(m, n, pt));
  k.pert.hook = [&] { for (int i = 0; i < n; i++) { double v = k.h[i * n + i]; vf_assume_le(1e-8, v); } };
  hiopKKTLinSysSparseNormalEqn sys(&k.N); sys.set_safe_mode(false); k.run(sys, hist);
}
VF_HARNESS(normal, 0, "directions") { normal(2, 0); }
VF_HARNESS(normal_again, 0, "directions") { normal(1, 1); }
VF_HARNESS(normal_reused, 0, "directions") { normal(2, 2); }
VF_HARNESS(deep, 1, "directions") { int w = vf_choose("system", 5), h = vf_choose("past", 3); w == 0 ? direction<hiopKKTLinSysCompressedSparseXYcYd>(3, h) : w == 1 ? direction<hiopKKTLinSysCompressedSparseXDYcYd>(3, h) : w == 2 ? full(2, h) : w == 3 ? condensed(3, h) : normal(3, h); }
// 6 variables, up to 7 constraints: fixed matrices, iterates and regularization, arbitrary right-hand sides
static const std::vector<int>& lc() { static const std::vector<std::vector<int>> C = {{K_EQ, K_LOW, K_EQ, K_UPP, K_BOTH, K_EQ, K_LOW}, {K_LOW, K_UPP, K_BOTH, K_LOW, K_UPP}, {K_EQ, K_EQ, K_EQ, K_EQ}}; return C[vf_choose("cons", 3)]; }
static const std::vector<int> LX = {K_LOW, K_BOTH, K_FREE, K_UPP, K_BOTH, K_LOW};
static std::vector<int> ljp(int m) { int pt = vf_choose("pattern", 3); std::vector<int> r(m * 6, 1); for (int k = 0; k < m * 6; k++) r[k] = pt == 0 || (pt == 1 ? k % 4 != 0 : k % 5 == 1 || k / 6 == k % 6); return r; }
static std::vector<int> lhp() { int w = vf_choose("hess", 2); std::vector<int> h(36, 0); for (int i = 0; i < 6; i++) for (int j = i; j < 6; j++) h[i * 6 + j] = w == 0 ? 1 : (i * 5 + j) % 3 != 1; return h; }
static void fixed_data() { vf_exact(1); vf_focus(100, -1); }
template <class L> static void ldirection() { fixed_data(); auto& c = lc(); auto h = lhp(); K k(LX, c, 1, h, false, false, ljp(c.size())); L sys(&k.N); sys.set_safe_mode(false); k.run(sys, vf_choose("past", 3)); }
VF_HARNESS(xycyd_large, 0, "directions") { ldirection<hiopKKTLinSysCompressedSparseXYcYd>(); }
VF_HARNESS(xdycyd_large, 0, "directions") { ldirection<hiopKKTLinSysCompressedSparseXDYcYd>(); }
VF_HARNESS(condensed_large, 0, "directions") { fixed_data(); auto& c = lc(); auto h = lhp(); KI k(LX, c, 1, h, true, false, ljp(c.size())); hiopKKTLinSysCondensedSparse sys(&k.N); sys.set_safe_mode(false); k.run(sys, vf_choose("past", 3)); }
VF_HARNESS(normal_large, 0, "directions") { fixed_data(); auto& c = lc(); K k(LX, c, 1, hp(6, 1), false, true, ljp(c.size())); for (int i = 0; i < 6; i++) k.h[i * 7] = k.h0[i * 7] = 1. + i; hiopKKTLinSysSparseNormalEqn sys(&k.N); sys.set_safe_mode(false); k.run(sys, vf_choose("past", 3)); }
VF_HARNESS(full_large, 0, "directions") { fixed_data(); auto& c = lc(); auto h = lhp(); K k(LX, c, 1, h, false, false, ljp(c.size())); full_run(k, 6, vf_choose("past", 3)); }

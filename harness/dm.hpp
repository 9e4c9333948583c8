// dense matrices with symbolic entries
#ifndef DM_HPP
#define DM_HPP
#include "hc.hpp"
struct DM {
  hiopMatrixDenseRowMajor M; int m, n; DV s;
  DM(int m_, int n_, const std::string& b, int extra = 0) : M(m_, n_, NULL, MPI_COMM_SELF, m_ + extra), m(m_), n(n_), s(symv(m_ * n_, b)) { for (int i = 0; i < m * n; i++) M.local_data()[i] = s[i]; }
  double operator()(int i, int j) const { return s[i * n + j]; }
  double& at(int i, int j) { return s[i * n + j]; }
  void is(const DV& e, const char* l) { vf_assert(M.m() == m && M.n() == n, "shape kept"); for (int i = 0; i < m * n; i++) vf_assert_eq(M.local_data_const()[i], e[i], l); }
  void unchanged(const char* l = "operand unchanged") { is(s, l); }
};
static inline double scal(const char* n) { int k = vf_choose("scalar", 4); return k == 0 ? 0.0 : k == 1 ? 1.0 : k == 2 ? -1.0 : vf_real(n); }
#endif

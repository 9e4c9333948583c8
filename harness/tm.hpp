// sparse triplet matrices with every pattern and symbolic values
#ifndef TM_HPP
#define TM_HPP
#include "dm.hpp"
#include "hiopMatrixSparseTriplet.hpp"
typedef hiopMatrixSparseTriplet T; typedef hiopMatrixSymSparseTriplet S;
static int bits(int k) { int r = 0; while (k) { r += k & 1; k >>= 1; } return r; }
// the dense matrix denoted by nonzeros [from,to)
static DV den(const T& M, int from = 0, int to = -1) { int m = M.m(), n = M.n(); if (to < 0) to = M.numberOfNonzeros(); DV r(m * n, 0.); for (int k = from; k < to; k++) { int i = M.i_row()[k], j = M.j_col()[k]; vf_assert(i >= 0 && i < m && j >= 0 && j < n, "indices inside the matrix"); r[i * n + j] = r[i * n + j] + M.M()[k]; } return r; }
template <class MT> static void fillm(MT& M, const std::vector<std::pair<int, int>>& ij, const DV& v) { for (size_t k = 0; k < ij.size(); k++) { M.i_row()[k] = ij[k].first; M.j_col()[k] = ij[k].second; M.M()[k] = v[k]; } }
typedef std::vector<std::pair<int, int>> IJ;
static IJ ijs(int m, int n, int mask, bool upper = false) { IJ r; int b = 0; for (int i = 0; i < m; i++) for (int j = upper ? i : 0; j < n; j++, b++) if (mask >> b & 1) r.push_back({i, j}); return r; }
// a general matrix with every pattern
struct G { int m, n; IJ ij; DV v; T M; DV s;
  G(int m_, int n_, const std::string& b, int mask) : m(m_), n(n_), ij(ijs(m, n, mask)), v(symv(ij.size(), b)), M(m, n, ij.size()) { fillm(M, ij, v); s = DV(m * n, 0.); for (size_t k = 0; k < ij.size(); k++) s[ij[k].first * n + ij[k].second] = v[k]; }
  G(int m_, int n_, const std::string& b, const IJ& p) : m(m_), n(n_), ij(p), v(symv(ij.size(), b)), M(m, n, ij.size()) { fillm(M, ij, v); s = DV(m * n, 0.); for (size_t k = 0; k < ij.size(); k++) s[ij[k].first * n + ij[k].second] = v[k]; }
  G(int m_, int n_, const std::string& b) : G(m_, n_, b, vf_choose((b + "pat").c_str(), 1 << (m_ * n_))) {}
  double operator()(int i, int j) const { return s[i * n + j]; }
  void unchanged() { vf_assert(M.numberOfNonzeros() == (int)ij.size(), "nonzeros kept"); for (size_t k = 0; k < ij.size(); k++) { vf_assert(M.i_row()[k] == ij[k].first && M.j_col()[k] == ij[k].second, "operand pattern unchanged"); vf_assert_eq(M.M()[k], v[k], "operand unchanged"); } }
  void is(const DV& e, const char* l) { eqd(den(M), e, l); } };
// a few patterns of larger matrices: full, scattered with empty rows and columns, one long row, near the diagonal
static IJ somepat(int m, int n, int k, bool upper = false) { IJ r; for (int i = 0; i < m; i++) for (int j = upper ? i : 0; j < n; j++) if (k == 0 || (k == 1 && (i * 3 + j * 5) % 4 == 1 && i != 2) || (k == 2 && i == m / 2) || (k == 3 && (i == j || j == i + 1 || (j == 0 && i % 2)))) r.push_back({i, j}); return r; }
struct Y { int n; IJ ij; DV v; S M; DV s;
  Y(int n_, const std::string& b, const IJ& p) : n(n_), ij(p), v(symv(ij.size(), b)), M(n, ij.size()) { fillm(M, ij, v); s = DV(n * n, 0.); for (size_t k = 0; k < ij.size(); k++) s[ij[k].first * n + ij[k].second] = s[ij[k].second * n + ij[k].first] = v[k]; }
  Y(int n_, const std::string& b) : n(n_), ij(ijs(n, n, vf_choose((b + "pat").c_str(), 1 << (n_ * (n_ + 1) / 2)), true)), v(symv(ij.size(), b)), M(n, ij.size()) { fillm(M, ij, v); s = DV(n * n, 0.); for (size_t k = 0; k < ij.size(); k++) s[ij[k].first * n + ij[k].second] = s[ij[k].second * n + ij[k].first] = v[k]; }
  double operator()(int i, int j) const { return s[i * n + j]; }
  void unchanged() { for (size_t k = 0; k < ij.size(); k++) { vf_assert(M.i_row()[k] == ij[k].first && M.j_col()[k] == ij[k].second, "operand pattern unchanged"); vf_assert_eq(M.M()[k], v[k], "operand unchanged"); } } };
#endif

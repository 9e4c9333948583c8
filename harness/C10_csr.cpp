// vf-bounds: compressed-row matrices up to 2 x 3 and 3 x 3, every sparsity pattern (also without any entry), arbitrary values and scalars (0, 1, -1 as separate cases), symbolic phase followed by two numeric phases with different values; shapes 5x6, 7x3, 2x8, 5x5 with four patterns
#include "tm.hpp"
#include "hiopMatrixSparseCSRSeq.hpp"
#include <algorithm>
typedef hiopMatrixSparseCSRSeq K;
// the dense matrix denoted by a compressed-row matrix; rows sorted and free of duplicates
static DV dk(const hiopMatrixSparseCSR& c) { const K& M = dynamic_cast<const K&>(c); int m = M.m(), n = M.n(); DV r(m * n, 0.); const int *p = M.i_row(), *q = M.j_col(); vf_assert(p[0] == 0 && p[m] == M.numberOfNonzeros(), "row pointers");
  for (int i = 0; i < m; i++) { vf_assert(p[i] <= p[i + 1], "row pointers"); for (int k = p[i]; k < p[i + 1]; k++) { vf_assert(q[k] >= 0 && q[k] < n && (k == p[i] || q[k - 1] < q[k]), "sorted columns"); r[i * n + q[k]] = M.M()[k]; } } return r; }
static void again(G& g, const std::string& b) { g.v = symv(g.ij.size(), b); g.s = DV(g.m * g.n, 0.); for (size_t k = 0; k < g.ij.size(); k++) { g.M.M()[k] = g.v[k]; g.s[g.ij[k].first * g.n + g.ij[k].second] = g.v[k]; } }
static DV tr(const DV& a, int m, int n) { DV r(m * n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) r[j * m + i] = a[i * n + j]; return r; }
struct KG : G { K k; KG(int m_, int n_, const std::string& b, const IJ& p) : G(m_, n_, b, p) { k.form_from_symbolic(M); k.form_from_numeric(M); } KG(int m_, int n_, const std::string& b) : G(m_, n_, b) { k.form_from_symbolic(M); k.form_from_numeric(M); }
  void second(const std::string& b) { again(*this, b); k.form_from_numeric(M); } void kept() { eqd(dk(k), s, "operand unchanged"); } };
static void shape(int& m, int& n) { switch (vf_choose("shape", 5)) { case 0: m = 2; n = 2; break; case 1: m = 1; n = 3; break; case 2: m = 3; n = 1; break; case 3: m = 2; n = 3; break; default: m = 3; n = 2; } }
VF_HARNESS(from_triplet, 0, "done,empty") { int m, n; shape(m, n); KG A(m, n, "A"); eqd(dk(A.k), A.s, "conversion from triplets"); vf_assert(A.k.check_csr_is_ordered(), "ordered"); A.second("B"); eqd(dk(A.k), A.s, "numerical update"); A.unchanged(); if (A.ij.empty()) vf_reach("empty"); vf_reach("done");
  // reuse of the same object for a matrix of another shape
  if (vf_choose("reform", 2)) { G C(2, 2, "C", 0x9); A.k.form_from_symbolic(C.M); A.k.form_from_numeric(C.M); eqd(dk(A.k), C.s, "formed again"); } }
VF_HARNESS(transpose, 0, "triplet,csr,empty") { int m, n; shape(m, n); KG A(m, n, "A"); K t; bool c = vf_choose("csr", 2);
  if (c) { t.form_transpose_from_symbolic(A.k); t.form_transpose_from_numeric(A.k); } else { t.form_transpose_from_symbolic(A.M); t.form_transpose_from_numeric(A.M); }
  vf_assert(t.m() == n && t.n() == m, "shape of the transpose"); eqd(dk(t), tr(A.s, m, n), "transpose"); A.second("B");
  for (int rep = 0; rep < 2; rep++) { if (c) t.form_transpose_from_numeric(A.k); else t.form_transpose_from_numeric(A.M); eqd(dk(t), tr(A.s, m, n), "transpose after a value change"); }
  A.kept(); A.unchanged(); if (A.ij.empty()) vf_reach("empty"); vf_reach(c ? "csr" : "triplet"); }
VF_HARNESS(diagonal, 0, "form,set,add") { int n = 1 + vf_choose("n", 3); HV d(n, "d"), e(n, "e"); K t;
  switch (vf_choose("op", 3)) {
  case 0: { t.form_diag_from_symbolic(d.v); t.form_diag_from_numeric(d.v); DV x(n * n, 0.); for (int i = 0; i < n; i++) x[i * n + i] = d.s[i]; eqd(dk(t), x, "diagonal matrix"); t.form_diag_from_numeric(e.v); for (int i = 0; i < n; i++) x[i * n + i] = e.s[i]; eqd(dk(t), x, "diagonal matrix updated"); d.unchanged(); vf_reach("form"); break; }
  case 1: { int m; shape(m, n); KG A(m, n, "A"); double c = R("c"); A.k.set_diagonal(c); DV x = A.s; for (auto& p : A.ij) if (p.first == p.second) x[p.first * n + p.first] = c; eqd(dk(A.k), x, "diagonal set"); vf_reach("set"); break; }
  case 2: { n = 2 + vf_choose("three", 2) * vf_thorough(); KG A(n, n, "A"); double c = scal("c"); HV g(n, "g"); DV x = A.s; bool sc = vf_choose("scalar_op", 2); for (auto& p : A.ij) if (p.first == p.second) { double& q = x[p.first * n + p.first]; q = q + (sc ? c : c * g.s[p.first]); } if (sc) A.k.addDiagonal(c); else A.k.addDiagonal(c, g.v); eqd(dk(A.k), x, "diagonal added"); g.unchanged(); vf_reach("add"); break; }
  } }
VF_HARNESS(product, 0, "done") { // M = b*M + a*X*Y
  double a = scal("a"), b = scal("b"); int m = 2, k = 2, n = 2; switch (vf_choose("shape", 4)) { case 0: break; case 1: m = 1; k = 3; break; case 2: k = 1; n = 3; break; case 3: n = 1; k = 3; break; }
  vf_assume(!(n == 1) || vf_thorough() || (!vf_is_sym(a) && !vf_is_sym(b)));
  KG X(m, k, "X"), Y(k, n, "Y"); auto* M = X.k.times_mat_alloc(Y.k); X.k.times_mat_symbolic(*M, Y.k); vf_assert(M->m() == m && M->n() == n, "shape of the product");
  auto prod = [&](const DV& x, const DV& y, double s) { DV r(m * n, 0.); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) for (int l = 0; l < k; l++) r[i * n + j] = r[i * n + j] + s * (x[i * k + l] * y[l * n + j]); return r; };
  X.k.times_mat_numeric(0., *M, 1., Y.k); DV p1 = prod(X.s, Y.s, 1.); eqd(dk(*M), p1, "product");
  X.second("Z"); X.k.times_mat_numeric(b, *M, a, Y.k); DV p2 = prod(X.s, Y.s, a); for (int i = 0; i < m * n; i++) p2[i] = p2[i] + b * p1[i]; eqd(dk(*M), p2, "product accumulated"); X.kept(); Y.kept(); delete M; vf_reach("done"); }
VF_HARNESS(xdy, 0, "done") { // X*D*X' as the condensed systems form it
  int n = 2 + vf_choose("n", 2); KG X(2, n, "X"); HV d(n, "d"); K t; t.form_transpose_from_symbolic(X.k); t.form_transpose_from_numeric(X.k); auto* M = X.k.times_mat_alloc(t); X.k.times_mat_symbolic(*M, t); DV e(4, 0.); bool rows = vf_choose("rows", 2);
  if (rows) t.scale_rows(d.v); else X.k.scale_cols(d.v);
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int l = 0; l < n; l++) e[i * 2 + j] = e[i * 2 + j] + X(i, l) * d.s[l] * X(j, l);
  X.k.times_mat_numeric(0., *M, 1., t); eqd(dk(*M), e, "X*D*X'"); d.unchanged(); delete M; vf_reach("done"); }
VF_HARNESS(sum, 0, "done") { int m = 2, n = 2; if (vf_choose("shape", 2)) { m = 1; n = 3; } KG X(m, n, "X"), Y(m, n, "Y"); double a = scal("a"), b = scal("b"); auto* M = X.k.add_matrix_alloc(Y.k); X.k.add_matrix_symbolic(*M, Y.k);
  for (int rep = 0; rep < 2; rep++) { X.k.add_matrix_numeric(*M, a, Y.k, b); DV e(m * n); for (int i = 0; i < m * n; i++) e[i] = a * X.s[i] + b * Y.s[i]; eqd(dk(*M), e, "sum"); vf_assert(M->numberOfNonzeros() == [&] { int c = 0; for (int i = 0; i < m * n; i++) { bool h = false; for (auto& p : X.ij) h |= p.first * n + p.second == i; for (auto& p : Y.ij) h |= p.first * n + p.second == i; c += h; } return c; }(), "entries of the sum"); X.kept(); Y.kept(); X.second("XX"); Y.second("YY"); }
  delete M; vf_reach("done"); }
VF_HARNESS(misc, 0, "done") { int m, n; shape(m, n); KG A(m, n, "A"); DV e = A.s; int nz = A.ij.size();
  switch (vf_choose("op", 9)) {
  case 0: { double r = 0; for (double q : A.s) r = dmax(r, dabs_(q)); vf_assert_eq(A.k.max_abs_value(), r, "largest magnitude"); A.kept(); break; }
  case 1: { HV d(n, "d"); A.k.scale_cols(d.v); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) e[i * n + j] = e[i * n + j] * d.s[j]; eqd(dk(A.k), e, "columns scaled"); d.unchanged(); break; }
  case 2: { HV d(m, "d"); A.k.scale_rows(d.v); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) e[i * n + j] = e[i * n + j] * d.s[i]; eqd(dk(A.k), e, "rows scaled"); d.unchanged(); break; }
  case 3: { double c = R("c"); A.k.setToConstant(c); for (auto& p : A.ij) e[p.first * n + p.second] = c; eqd(dk(A.k), e, "constant"); break; }
  case 4: A.k.setToZero(); eqd(dk(A.k), DV(m * n, 0.), "zero"); break;
  case 5: { auto* c = A.k.new_copy(); auto& q = dynamic_cast<K&>(*c); A.k.setToZero(); vf_assert(q.m() == m && q.n() == n, "shape"); eqd(dk(q), A.s, "copy"); delete c; break; }
  case 6: { auto* c = A.k.alloc_clone(); c->copyFrom(A.k); eqd(dk(dynamic_cast<K&>(*c)), A.s, "copied"); A.kept(); A.second("B"); c->copyFrom(A.k); eqd(dk(dynamic_cast<K&>(*c)), A.s, "copied"); delete c; break; }
  case 7: { std::vector<int> p(m + 1), q(nz + 1); DV v(nz + 1); A.k.copy_to(p.data(), q.data(), v.data()); for (int i = 0; i <= m; i++) vf_assert(p[i] == A.k.i_row()[i], "arrays copied"); for (int k = 0; k < nz; k++) { vf_assert(q[k] == A.ij[k].second, "arrays copied"); vf_assert_eq(v[k], A.v[k], "arrays copied"); } break; }
  case 8: { vf_assert(A.k.isfinite(), "finite"); if (nz) { int k = vf_choose("where", nz); A.k.M()[k] = vf_choose("nan", 2) ? NAN : INFINITY; vf_assert(!A.k.isfinite(), "not finite"); } break; }
  } vf_reach("done"); }
VF_HARNESS(no_rows, 0, "done") { // a Jacobian without rows, as a problem without constraints of that kind has it
  int n = 2 + vf_choose("n", 2); KG A(0, n, "A"); K t; if (vf_choose("csr", 2)) { t.form_transpose_from_symbolic(A.k); t.form_transpose_from_numeric(A.k); } else { t.form_transpose_from_symbolic(A.M); t.form_transpose_from_numeric(A.M); } eqd(dk(t), DV(), "empty transpose");
  auto* M = t.times_mat_alloc(A.k); t.times_mat_symbolic(*M, A.k); HV d(0, "d"); t.scale_cols(d.v); t.times_mat_numeric(0., *M, 1., A.k); eqd(dk(*M), DV(n * n, 0.), "product without terms");
  KG H(n, n, "H"); auto* S = M->add_matrix_alloc(H.k); M->add_matrix_symbolic(*S, H.k); M->add_matrix_numeric(*S, 1., H.k, 1.); eqd(dk(*S), H.s, "sum with the empty product"); delete S; delete M; vf_reach("done"); }

// the same operations on larger shapes and a chain of products as the condensed systems form it
VF_HARNESS(large, 0, "done") {
  static const int shp[4][2] = {{5, 6}, {7, 3}, {2, 8}, {5, 5}}; int h = vf_choose("shape", 4), m = shp[h][0], n = shp[h][1], pk = vf_choose("pattern", 4), op = vf_choose("op", 5); KG A(m, n, "A", somepat(m, n, pk)); double a = R("a"), b = R("b");
  if (op == 0) { eqd(dk(A.k), A.s, "conversion from triplets"); K t; bool c = vf_choose("csr", 2); if (c) { t.form_transpose_from_symbolic(A.k); t.form_transpose_from_numeric(A.k); } else { t.form_transpose_from_symbolic(A.M); t.form_transpose_from_numeric(A.M); } eqd(dk(t), tr(A.s, m, n), "transpose"); A.second("B"); eqd(dk(A.k), A.s, "numerical update"); if (c) t.form_transpose_from_numeric(A.k); else t.form_transpose_from_numeric(A.M); eqd(dk(t), tr(A.s, m, n), "transpose after a value change"); }
  else if (op == 1) { int k = 4; KG Y(n, k, "Y", somepat(n, k, vf_choose("patY", 4))); auto* M = A.k.times_mat_alloc(Y.k); A.k.times_mat_symbolic(*M, Y.k); DV p(m * k, 0.); for (int rep = 0; rep < 2; rep++) { double be = rep ? b : 0.; A.k.times_mat_numeric(be, *M, a, Y.k); for (int i = 0; i < m; i++) for (int j = 0; j < k; j++) { double r = 0; for (int l = 0; l < n; l++) r = r + A(i, l) * Y(l, j); p[i * k + j] = rep ? b * p[i * k + j] + a * r : a * r; } eqd(dk(*M), p, "product"); A.second("Z"); } Y.kept(); delete M; }
  else if (op == 2) { KG Y(m, n, "Y", somepat(m, n, vf_choose("patY", 4))); auto* M = A.k.add_matrix_alloc(Y.k); A.k.add_matrix_symbolic(*M, Y.k); for (int rep = 0; rep < 2; rep++) { A.k.add_matrix_numeric(*M, a, Y.k, b); DV e(m * n); for (int i = 0; i < m * n; i++) e[i] = a * A.s[i] + b * Y.s[i]; eqd(dk(*M), e, "sum"); A.second("B"); } delete M; }
  else if (op == 3) { HV d(n, "d"), g(m, "g"); DV e = A.s; A.k.scale_cols(d.v); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) e[i * n + j] = e[i * n + j] * d.s[j]; eqd(dk(A.k), e, "columns scaled"); A.k.scale_rows(g.v); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) e[i * n + j] = e[i * n + j] * g.s[i]; eqd(dk(A.k), e, "rows scaled"); if (m == n) { HV q(n, "q"); A.k.addDiagonal(a, q.v); for (auto& p : A.ij) if (p.first == p.second) e[p.first * n + p.first] = e[p.first * n + p.first] + a * q.s[p.first]; eqd(dk(A.k), e, "diagonal added"); } }
  else { // H + J' D J + diag, twice with new values
    HV d(m, "d"), q(n, "q"); IJ hp = somepat(n, n, vf_choose("patH", 3), true); for (int i = 0; i < n; i++) if (std::find(hp.begin(), hp.end(), std::make_pair(i, i)) == hp.end()) hp.push_back({i, i}); std::sort(hp.begin(), hp.end()); KG H(n, n, "H", hp); K t, dg; t.form_transpose_from_symbolic(A.M); auto* P = t.times_mat_alloc(A.k); t.times_mat_symbolic(*P, A.k); auto* S = P->add_matrix_alloc(H.k); P->add_matrix_symbolic(*S, H.k);
    for (int rep = 0; rep < 2; rep++) { t.form_transpose_from_numeric(A.M); t.scale_cols(d.v); t.times_mat_numeric(0., *P, 1., A.k); P->add_matrix_numeric(*S, 1., H.k, 1.); DV e = H.s; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int l = 0; l < m; l++) e[i * n + j] = e[i * n + j] + A(l, i) * d.s[l] * A(l, j); eqd(dk(*S), e, "condensed matrix"); A.second("B"); } delete S; delete P; }
  vf_reach("done");
}

// vf-bounds: dense complex matrices up to 2 x 3, sparse complex triplets up to 2 x 3 (general, every pattern) and 3 x 3 (symmetric upper storage, every pattern; thorough 4 x 4), every increasing index set, Kron reduction of symmetric matrices with 1-2 kept and 0-2 eliminated nodes in every interleaving and the patterns of the harness; shapes 5x6, 7x3, 2x9 with three patterns; arbitrary complex values; UMFPACK by contract (any solution of A x = b, factorizations may fail)
// vf-sources: Utils/hiopKronReduction.cpp
#include "dm.hpp"
#include "hiopMatrixComplexDense.hpp"
#include "hiopMatrixComplexSparseTriplet.hpp"
#include "hiopLinSolverUMFPACKZ.hpp"
#include "hiopKronReduction.hpp"
typedef std::complex<double> Z; typedef std::vector<Z> ZV; typedef hiopMatrixComplexDense CD; typedef hiopMatrixComplexSparseTriplet CT;
typedef std::vector<std::pair<int, int>> IJ;
extern "C" { extern int vfs_fail; void vfs_umf_n(int); }
extern "C" int vfs_umf_failed; static bool umf_failed() { return vfs_umf_failed; }
static Z mul(Z a, Z b) { return Z(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
static Z add(Z a, Z b) { return Z(a.real() + b.real(), a.imag() + b.imag()); }
static Z sub(Z a, Z b) { return Z(a.real() - b.real(), a.imag() - b.imag()); }
static Z cz(const std::string& b) { return Z(R(b + "r"), R(b + "i")); }
static Z czs(const char* b) { std::string s = b; switch (vf_choose((s + "kind").c_str(), 4)) { case 0: return Z(0., 0.); case 1: return Z(1., 0.); case 2: return Z(-1., 0.); } Z z = cz(b); return z; }
static ZV czv(int n, const std::string& b) { ZV r(n); for (int i = 0; i < n; i++) r[i] = cz(nm(b, i)); return r; }
static void eqz(Z a, Z b, const char* l) { vf_assert_eq(a.real(), b.real(), l); vf_assert_eq(a.imag(), b.imag(), l); }
static void eqz(const Z* a, const ZV& b, const char* l) { for (size_t i = 0; i < b.size(); i++) eqz(a[i], b[i], l); }
static IJ ijs(int m, int n, int mask, bool upper = false) { IJ r; int b = 0; for (int i = 0; i < m; i++) for (int j = upper ? i : 0; j < n; j++, b++) if (mask >> b & 1) r.push_back({i, j}); return r; }
struct Dn { int m, n; CD M; ZV s; Dn(int m_, int n_, const std::string& b) : m(m_), n(n_), M(m_, n_), s(czv(m_ * n_, b)) { for (int i = 0; i < m * n; i++) M.local_buffer()[i] = s[i]; }
  Z operator()(int i, int j) const { return s[i * n + j]; } void is(const ZV& e, const char* l) { vf_assert(M.m() == m && M.n() == n, "shape"); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) eqz(M.get_M()[i][j], e[i * n + j], l); } void unchanged() { is(s, "operand unchanged"); } };
static ZV den(const CT& M) { int m = M.m(), n = M.n(); ZV r(m * n, Z(0., 0.)); for (int k = 0; k < M.numberOfNonzeros(); k++) { int i = M.storage()->i_row()[k], j = M.storage()->j_col()[k]; vf_assert(i >= 0 && i < m && j >= 0 && j < n, "indices inside the matrix"); r[i * n + j] = add(r[i * n + j], M.storage()->M()[k]); } return r; }
static void ordered(const CT& M) { for (int k = 1; k < M.numberOfNonzeros(); k++) { int a = M.storage()->i_row()[k - 1], b = M.storage()->i_row()[k]; vf_assert(a < b || (a == b && M.storage()->j_col()[k - 1] < M.storage()->j_col()[k]), "entries ordered by row, then column"); } }
struct Sp { int m, n; IJ ij; ZV v; CT M; ZV s; bool up;
  Sp(int m_, int n_, const std::string& b, const IJ& ij_, bool up_ = false) : m(m_), n(n_), ij(ij_), v(czv(ij.size(), b)), M(m_, n_, ij.size()), s(m_ * n_, Z(0., 0.)), up(up_) { std::vector<int> r, c; for (auto& p : ij) { r.push_back(p.first); c.push_back(p.second); }
    M.copyFrom(r.data(), c.data(), v.data()); for (size_t k = 0; k < ij.size(); k++) { s[ij[k].first * n + ij[k].second] = v[k]; if (up) s[ij[k].second * n + ij[k].first] = v[k]; } }
  Sp(int m_, int n_, const std::string& b) : Sp(m_, n_, b, ijs(m_, n_, vf_choose((b + "pat").c_str(), 1 << (m_ * n_)))) {}
  Z operator()(int i, int j) const { return s[i * n + j]; }
  void unchanged() { vf_assert(M.numberOfNonzeros() == (int)ij.size(), "nonzeros kept"); for (size_t k = 0; k < ij.size(); k++) { vf_assert(M.storage()->i_row()[k] == ij[k].first && M.storage()->j_col()[k] == ij[k].second, "operand pattern unchanged"); eqz(M.storage()->M()[k], v[k], "operand unchanged"); } } };
static std::vector<int> subset(int n, const char* b) { int k = vf_choose(b, 1 << n); std::vector<int> r; for (int i = 0; i < n; i++) if (k >> i & 1) r.push_back(i); return r; }
static void shape(int& m, int& n) { switch (vf_choose("shape", 4)) { case 0: m = 2; n = 2; break; case 1: m = 1; n = 3; break; case 2: m = 3; n = 1; break; default: m = 2; n = 3; } }
VF_HARNESS(dense, 0, "done") {
  int m, n; shape(m, n); Dn A(m, n, "A"); ZV e = A.s;
  switch (vf_choose("op", 10)) {
  case 0: { Dn B(m, n, "B"); A.M.copyFrom(B.M); A.is(B.s, "copied"); B.unchanged(); break; }
  case 1: { ZV b = czv(m * n, "b"); A.M.copyFrom(b.data()); A.is(b, "copied"); break; }
  case 2: { Dn B(3, n, "B"); std::vector<int> idx(m); for (int i = 0; i < m; i++) idx[i] = vf_choose(nm("row", i).c_str(), 3); A.M.copyRowsFrom(B.M, idx.data(), m); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) e[i * n + j] = B(idx[i], j); A.is(e, "rows copied"); B.unchanged(); break; }
  case 3: { A.M.setToZero(); A.is(ZV(m * n, Z(0., 0.)), "zero"); break; }
  case 4: { double c = R("c"); A.M.setToConstant(c); A.is(ZV(m * n, Z(c, 0.)), "constant"); break; }
  case 5: { Z c = cz("c"); A.M.setToConstant(c); A.is(ZV(m * n, c), "constant"); break; }
  case 6: { A.M.negate(); for (auto& q : e) q = Z(-q.real(), -q.imag()); A.is(e, "negated"); break; }
  case 7: { Dn B(m, n, "B"); Z a = czs("a"); A.M.addMatrix(a, B.M); for (int i = 0; i < m * n; i++) e[i] = add(e[i], mul(a, B.s[i])); A.is(e, "sum"); B.unchanged(); break; }
  case 8: { Dn B(m, n, "B"); double a = scal("a"); ((hiopMatrix&)A.M).addMatrix(a, (const hiopMatrix&)B.M); for (int i = 0; i < m * n; i++) e[i] = add(e[i], Z(a * B.s[i].real(), a * B.s[i].imag())); A.is(e, "sum"); B.unchanged(); break; }
  case 9: { CD* c = A.M.new_copy(); vf_assert(c->m() == m && c->n() == n, "copy shape"); for (int i = 0; i < m * n; i++) eqz(c->local_buffer()[i], e[i], "copied"); A.M.setToZero(); for (int i = 0; i < m * n; i++) eqz(c->local_buffer()[i], e[i], "copy is independent"); CD* q = c->alloc_clone(); vf_assert(q->m() == m && q->n() == n && q->local_buffer() != c->local_buffer(), "clone shape"); delete q; delete c; break; }
  }
  vf_reach("done");
}
VF_HARNESS(dense_matvec, 0, "done") {
  int m, n; shape(m, n); Dn A(m, n, "A"); Z a = czs("a"), b = czs("b"); ZV x = czv(n, "x"), y = czv(m, "y"), e(m), x0 = x;
  for (int i = 0; i < m; i++) { Z r(0., 0.); for (int j = 0; j < n; j++) r = add(r, mul(A(i, j), x[j])); e[i] = add(mul(b, y[i]), mul(a, r)); }
  A.M.timesVec(b, y.data(), a, x.data()); eqz(y.data(), e, "matrix-vector product"); eqz(x.data(), x0, "operand unchanged"); A.unchanged(); vf_reach("done");
}
VF_HARNESS(norms, 0, "dense,sparse,symmetric,asymmetric,finite,not finite") { // magnitudes r satisfy r >= 0 and r^2 = re^2 + im^2
  switch (vf_choose("op", 4)) {
  case 0: { Dn A(1, 2, "A"); double r = A.M.max_abs_value(); bool hit = false; vf_assert_le(0, r, "norm not negative"); for (Z z : A.s) { double q = z.real() * z.real() + z.imag() * z.imag(); vf_assert_le(q, r * r, "norm bounds every entry"); if (r * r - q <= 0) hit = true; } vf_assert(hit, "norm attained"); A.unchanged(); vf_reach("dense"); break; }
  case 1: { Sp A(1, 2, "A"); double r = A.M.max_abs_value(); bool hit = A.v.empty() && r == 0; vf_assert_le(0, r, "norm not negative"); for (Z z : A.v) { double q = z.real() * z.real() + z.imag() * z.imag(); vf_assert_le(q, r * r, "norm bounds every entry"); if (r * r - q <= 0) hit = true; } vf_assert(hit, "norm attained"); A.unchanged(); vf_reach("sparse"); break; }
  case 2: { int n = 2 + vf_choose("n", 2); Dn A(n, n, "A"); bool sy = true; if (vf_choose("symmetric", 2)) for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) A.M.get_M()[i][j] = A.M.get_M()[j][i]; else { int i = vf_choose("i", n), j = vf_choose("j", n); vf_assume(i < j); for (int k = 0; k < n; k++) for (int l = 0; l < k; l++) A.M.get_M()[k][l] = A.M.get_M()[l][k]; A.M.get_M()[j][i] = add(A.M.get_M()[i][j], Z(vf_choose("im", 2) ? Z(0., 1e-3) : Z(-1e-3, 0.))); sy = false; }
    vf_assert(A.M.assertSymmetry() == sy, "symmetry test"); vf_reach(sy ? "symmetric" : "asymmetric"); break; }
  case 3: { Dn A(2, 2, "A"); vf_assert(A.M.isfinite(), "finite matrix"); vf_reach("finite"); int k = vf_choose("where", 4); double bad = vf_choose("nan", 2) ? std::numeric_limits<double>::quiet_NaN() : -std::numeric_limits<double>::infinity(); A.M.local_buffer()[k] = vf_choose("im", 2) ? Z(A.s[k].real(), bad) : Z(bad, A.s[k].imag()); vf_assert(!A.M.isfinite(), "matrix with a non-finite entry"); vf_reach("not finite"); break; }
  }
}
VF_HARNESS(dense_plus_sparse, 0, "general,upper") {
  Z a = czs("a"); int n = 2 + vf_choose("n", 2);
  if (vf_choose("op", 2)) { Sp X(n, n, "X", ijs(n, n, n == 2 ? vf_choose("pat", 16) : vf_choose("pat", 8) * 73)); Dn A(n, n, "A"); ZV e = A.s; for (int i = 0; i < n * n; i++) e[i] = add(e[i], mul(a, X.s[i])); A.M.addSparseMatrix(a, X.M); A.is(e, "sum with a sparse matrix"); X.unchanged(); vf_reach("general"); }
  else { Sp X(n, n, "X", ijs(n, n, vf_choose("pat", 1 << (n * (n + 1) / 2)), true)); Dn A(n, n, "A"); ZV e = A.s; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) e[i * n + j] = add(e[i * n + j], mul(a, X(i, j))); A.M.addSparseSymUpperTriangleToSymDenseMatrixUpperTriangle(a, X.M); A.is(e, "sum of upper triangles"); X.unchanged(); vf_reach("upper"); }
}
VF_HARNESS(sparse_products, 0, "vector,matrix") {
  double a = scal("a"), b = scal("b"); int m, n; shape(m, n); Sp A(m, n, "A");
  if (vf_choose("op", 2)) { ZV x = czv(n, "x"), y = czv(m, "y"), e(m), x0 = x; for (int i = 0; i < m; i++) { Z r(0., 0.); for (int j = 0; j < n; j++) r = add(r, mul(A(i, j), x[j])); e[i] = add(mul(Z(b, 0.), y[i]), mul(Z(a, 0.), r)); }
    A.M.timesVec(b, y.data(), a, x.data()); eqz(y.data(), e, "matrix-vector product"); eqz(x.data(), x0, "operand unchanged"); vf_reach("vector"); }
  else { int k = 1 + vf_choose("k", 2); Dn X(m, k, "X"), W(n, k, "W"); ZV e = W.s; for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) { Z r(0., 0.); for (int q = 0; q < m; q++) r = add(r, mul(A(q, i), X(q, j))); e[i * k + j] = add(mul(Z(b, 0.), W(i, j)), mul(Z(a, 0.), r)); }
    A.M.transTimesMat(b, W.M, a, X.M); W.is(e, "transposed product"); X.unchanged(); vf_reach("matrix"); }
  A.unchanged();
}
VF_HARNESS(sparse_fill, 0, "done") {
  int m, n; shape(m, n); Sp A(m, n, "A"); Z c;
  switch (vf_choose("op", 4)) { case 0: c = Z(0., 0.); A.M.setToZero(); break; case 1: { double d = R("d"); c = Z(d, 0.); A.M.setToConstant(d); break; } case 2: c = cz("c"); A.M.setToConstant(c); break;
  default: { hiopMatrix* q = A.M.alloc_clone(); CT* t = dynamic_cast<CT*>(q); vf_assert(t && t->m() == m && t->n() == n && t->numberOfNonzeros() == (int)A.ij.size() && t->storage() != A.M.storage(), "clone shape"); delete q; A.unchanged(); vf_reach("done"); return; } }
  A.v = ZV(A.v.size(), c); A.unchanged(); vf_reach("done");
}
VF_HARNESS(storage, 0, "done") { // arbitrary triplets, also unordered and duplicated
  int m = 2, n = 2, nz = vf_choose("nnz", vf_thorough() ? 5 : 4); std::vector<int> r(nz), c(nz); ZV v = czv(nz, "v"), e(m * n, Z(0., 0.)); for (int k = 0; k < nz; k++) { int p = vf_choose(nm("pos", k).c_str(), 4); r[k] = p / 2; c[k] = p % 2; e[p] = add(e[p], v[k]); }
  CT M(m, n, nz); M.copyFrom(r.data(), c.data(), v.data()); M.storage()->sort_indexes(); vf_assert(M.numberOfNonzeros() == nz, "sorting keeps the entries"); eqz(den(M).data(), e, "sorting keeps the matrix");
  for (int k = 1; k < nz; k++) { int a = M.storage()->i_row()[k - 1], b = M.storage()->i_row()[k]; vf_assert(a < b || (a == b && M.storage()->j_col()[k - 1] <= M.storage()->j_col()[k]), "sorted by row, then column"); }
  M.storage()->sum_up_duplicates(); ordered(M); eqz(den(M).data(), e, "summing duplicates keeps the matrix"); int distinct = 0; for (int p = 0; p < 4; p++) for (int k = 0; k < nz; k++) if (r[k] * 2 + c[k] == p) { distinct++; break; } vf_assert(M.numberOfNonzeros() == distinct, "one entry per position"); vf_reach("done");
}
static void is_slice(CT* s, const Sp& A, const std::vector<int>& r, const std::vector<int>& c, bool upper, const char* l) {
  int m = r.size(), n = c.size(); vf_assert(s->m() == m && s->n() == n, "slice shape"); ZV d = den(*s); int nz = 0; for (int i = 0; i < m; i++) for (int j = upper ? i : 0; j < n; j++) for (auto& p : A.ij) if ((p.first == r[i] && p.second == c[j]) || (A.up && p.second == r[i] && p.first == c[j])) { nz++; break; }
  vf_assert(s->numberOfNonzeros() == nz, "nonzeros of the slice"); ordered(*s);
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) eqz(d[i * n + j], upper && j < i ? Z(0., 0.) : A(r[i], c[j]), l); delete s;
}
VF_HARNESS(slice, 0, "done") { int m = 2, n = 3; if (vf_thorough()) m = 3; Sp A(m, n, "A"); auto r = subset(m, "rows"), c = subset(n, "cols"); is_slice(A.M.new_slice(r.data(), r.size(), c.data(), c.size()), A, r, c, false, "sub-matrix"); A.unchanged(); vf_reach("done"); }
static Sp symm(int n) { int full = n * (n + 1) / 2; if (n <= 3) return Sp(n, n, "A", ijs(n, n, vf_choose("pat", 1 << full), true), true); int k = vf_choose("pat", 2 * full + 2); int mask = k < full ? 1 << k : k < 2 * full ? ((1 << full) - 1) & ~(1 << (k - full)) : k == 2 * full ? (1 << full) - 1 : 0; return Sp(n, n, "A", ijs(n, n, mask, true), true); }
VF_HARNESS(slice_symmetric, 0, "done") { int n = 3 + vf_choose("size", 2); Sp A = symm(n); auto r = subset(n, "rows"), c = subset(n, "cols"); is_slice(A.M.new_sliceFromSym(r.data(), r.size(), c.data(), c.size()), A, r, c, false, "sub-matrix of a symmetric matrix"); A.unchanged(); vf_reach("done"); }
VF_HARNESS(slice_symmetric_to_symmetric, 0, "done") { int n = 3 + vf_choose("size", 2); Sp A = symm(n); auto r = subset(n, "rows"); is_slice(A.M.new_sliceFromSymToSym(r.data(), r.size()), A, r, r, true, "symmetric sub-matrix"); A.unchanged(); vf_reach("done"); }
VF_HARNESS(large, 0, "done") {
  static const int shp[3][2] = {{5, 6}, {7, 3}, {2, 9}}; int h = vf_choose("shape", 3), m = shp[h][0], n = shp[h][1], pk = vf_choose("pattern", 3), op = vf_choose("op", 4); Z a = cz("a"), b = cz("b");
  auto some = [&](int m, int n, bool up) { IJ r; for (int i = 0; i < m; i++) for (int j = up ? i : 0; j < n; j++) if (pk == 0 || (pk == 1 && (i * 3 + j * 5) % 4 == 1 && i != 2) || (pk == 2 && (i == j || j == i + 2 || i == m / 2))) r.push_back({i, j}); return r; };
  if (op == 0) { Dn A(m, n, "A"); ZV x = czv(n, "x"), y = czv(m, "y"), e(m); for (int i = 0; i < m; i++) { Z r(0., 0.); for (int j = 0; j < n; j++) r = add(r, mul(A(i, j), x[j])); e[i] = add(mul(b, y[i]), mul(a, r)); } A.M.timesVec(b, y.data(), a, x.data()); eqz(y.data(), e, "matrix-vector product"); Dn B(m, n, "B"); ZV s = A.s; A.M.addMatrix(a, B.M); for (int i = 0; i < m * n; i++) s[i] = add(s[i], mul(a, B.s[i])); A.is(s, "sum"); }
  else if (op == 1) { Sp A(m, n, "A", some(m, n, false)); double al = R("al"), be = R("be"); int k = 2; Dn X(m, k, "X"), W(n, k, "W"); ZV e = W.s; for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) { Z r(0., 0.); for (int q = 0; q < m; q++) r = add(r, mul(A(q, i), X(q, j))); e[i * k + j] = add(mul(Z(be, 0.), W(i, j)), mul(Z(al, 0.), r)); } A.M.transTimesMat(be, W.M, al, X.M); W.is(e, "transposed product"); A.unchanged(); }
  else { int N = m; Sp A = op == 2 ? Sp(N, N, "A", some(N, N, true), true) : Sp(m, n, "A", some(m, n, false)); std::vector<int> r, c; int k = vf_choose("subset", 4), M = op == 2 ? N : m, Q = op == 2 ? N : n; for (int i = 0; i < M; i++) if (k == 0 || (k == 1 && i % 2) || (k == 2 && i != 1) || (k == 3 && i > M / 2)) r.push_back(i); for (int j = 0; j < Q; j++) if (k == 0 || (k == 1 && j % 3 != 1) || (k == 2 && j < Q / 2 + 1) || (k == 3 && j % 2 == 0)) c.push_back(j);
    if (op == 3) is_slice(A.M.new_slice(r.data(), r.size(), c.data(), c.size()), A, r, c, false, "sub-matrix"); else { is_slice(A.M.new_sliceFromSym(r.data(), r.size(), c.data(), c.size()), A, r, c, false, "sub-matrix of a symmetric matrix"); is_slice(A.M.new_sliceFromSymToSym(r.data(), r.size()), A, r, r, true, "symmetric sub-matrix"); } A.unchanged(); }
  vf_reach("done");
}
VF_HARNESS(umfpack, 0, "vector,matrix,failure,solve failure") {
  int n = 1 + vf_choose("n", 2); IJ p = n == 1 ? ijs(1, 1, 1) : ijs(2, 2, vf_choose("pat", 3) == 0 ? 15 : vf_choose("tri", 2) ? 11 : 6); vfs_umf_n(n); vfs_fail = 1; Sp A(n, n, "A", p); hiopLinSolverUMFPACKZ ls(A.M); if (ls.matrixChanged() < 0) { vf_assert(umf_failed(), "a failure is reported only if there is one");  vf_reach("failure"); return; }
  if (vf_choose("matrix", 2)) { int k = 1 + vf_choose("nrhs", 2); Sp B(n, k, "B"); Dn X(n, k, "X"); if (!ls.solve(B.M, X.M)) { vf_assert(umf_failed(), "a failure is reported only if there is one"); vf_reach("solve failure"); return; } vf_assert(!umf_failed(), "failures and singular matrices are reported"); for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) { Z r(0., 0.); for (int q = 0; q < n; q++) r = add(r, mul(A(i, q), X.M.get_M()[q][j])); eqz(r, B(i, j), "solution of the system"); } B.unchanged(); vf_reach("matrix"); }
  else { ZV b = czv(n, "b"), x(n), b0 = b; if (!ls.solve(b.data(), x.data())) { vf_assert(umf_failed(), "a failure is reported only if there is one"); vf_reach("solve failure"); return; } vf_assert(!umf_failed(), "failures and singular matrices are reported"); for (int i = 0; i < n; i++) { Z r(0., 0.); for (int q = 0; q < n; q++) r = add(r, mul(A(i, q), x[q])); eqz(r, b[i], "solution of the system"); } eqz(b.data(), b0, "operand unchanged"); vf_reach("vector"); }
  A.unchanged();
}
VF_HARNESS(kron, 0, "done,failure") {
  int na = 1 + vf_choose("kept", 2), nb = vf_choose("eliminated", 3), n = na + nb, sel = vf_choose("which", 1 << n); std::vector<int> ka, kb; for (int i = 0; i < n; i++) (sel >> i & 1 ? ka : kb).push_back(i); vf_assume((int)ka.size() == na);
  int drop = vf_choose("absent", n * (n + 1) / 2 + 1) - 1; IJ up = ijs(n, n, (1 << (n * (n + 1) / 2)) - 1, true); if (drop >= 0) up.erase(up.begin() + drop); ZV v = czv(up.size(), "Y"); ZV Y(n * n, Z(0., 0.)); IJ all; for (size_t k = 0; k < up.size(); k++) Y[up[k].first * n + up[k].second] = Y[up[k].second * n + up[k].first] = v[k]; std::vector<int> r, c; ZV w;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (auto& p : up) if (p == std::make_pair(std::min(i, j), std::max(i, j))) { r.push_back(i); c.push_back(j); w.push_back(Y[i * n + j]); }
  CT M(n, n, r.size()); M.copyFrom(r.data(), c.data(), w.data()); CD red(na, na); for (int i = 0; i < na * na; i++) red.local_buffer()[i] = cz(nm("old", i)); vfs_umf_n(nb); vfs_fail = 1;
  hiopKronReduction K; bool ok = K.go(ka, kb, M, red); vf_assert(ok == !umf_failed(), "failures and singular blocks are reported"); if (!ok) { vf_reach("failure"); return; }
  const CD& map = K.map_nonaux_to_aux(); vf_assert(map.m() == nb && map.n() == na, "shape of the map"); Z** P = map.local_data();
  for (int i = 0; i < nb; i++) for (int j = 0; j < na; j++) { Z s(0., 0.); for (int k = 0; k < nb; k++) s = add(s, mul(Y[kb[i] * n + kb[k]], P[k][j])); eqz(s, Z(-Y[kb[i] * n + ka[j]].real(), -Y[kb[i] * n + ka[j]].imag()), "map solves the equations of the eliminated nodes"); }
  for (int i = 0; i < na; i++) for (int j = 0; j < na; j++) { Z s = Y[ka[i] * n + ka[j]]; for (int k = 0; k < nb; k++) s = add(s, mul(Y[ka[i] * n + kb[k]], P[k][j])); eqz(red.get_M()[i][j], s, "Schur complement"); }
  ZV u = czv(na, "u"), o = czv(nb, "o"), u0 = u; vf_assert(K.apply_nonaux_to_aux(u, o), "map applied"); for (int i = 0; i < nb; i++) { Z s(0., 0.); for (int j = 0; j < na; j++) s = add(s, mul(P[i][j], u[j])); eqz(o[i], s, "values of the eliminated nodes"); } eqz(u.data(), u0, "operand unchanged");
  for (size_t k = 0; k < r.size(); k++) eqz(M.storage()->M()[k], w[k], "operand unchanged"); vf_reach("done");
}

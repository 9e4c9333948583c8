// vf-bounds: sparse triplet matrices with up to 2 x 3 (products), 3 x 3 (symmetric, conversion) entries, every sparsity pattern (also empty), arbitrary values, scalars (with 0, 1, -1 as separate cases), every placement inside the destination; shapes 6x7, 9x3, 2x9, 5x5 with four patterns
#include "tm.hpp"
static void shape(int& m, int& n) { switch (vf_choose("shape", vf_thorough() ? 5 : 4)) { case 0: m = 2; n = 2; break; case 1: m = 1; n = 3; break; case 2: m = 3; n = 1; break; case 3: m = 2; n = 3; break; default: m = 3; n = 3; } }
VF_HARNESS(matvec, 0, "done") {
  int m, n; shape(m, n); double a = scal("a"), b = scal("b"); G A(m, n, "A"); bool t = vf_choose("transposed", 2), raw = vf_choose("raw", 2);
  HV x(t ? m : n, "x"), y(t ? n : m, "y"); DV e(t ? n : m);
  for (int i = 0; i < (t ? n : m); i++) { double r = 0; for (int j = 0; j < (t ? m : n); j++) r = r + (t ? A(j, i) : A(i, j)) * x.s[j]; e[i] = b * y.s[i] + a * r; }
  if (raw) { if (t) A.M.transTimesVec(b, y.v.local_data(), a, x.v.local_data_const()); else A.M.timesVec(b, y.v.local_data(), a, x.v.local_data_const()); }
  else if (t) A.M.transTimesVec(b, y.v, a, x.v); else A.M.timesVec(b, y.v, a, x.v);
  eqv(y.v, e, "matrix-vector product"); x.unchanged(); A.unchanged(); vf_reach("done");
}
VF_HARNESS(sym_matvec, 0, "done") {
  int n = vf_choose("n", 2) + 2; double a = scal("a"), b = scal("b"); Y A(n, "A"); HV x(n, "x"), y(n, "y"); DV e(n); int op = vf_choose("op", 4);
  for (int i = 0; i < n; i++) { double r = 0; for (int j = 0; j < n; j++) r = r + A(i, j) * x.s[j]; e[i] = b * y.s[i] + a * r; }
  if (op == 0) A.M.timesVec(b, y.v, a, x.v); if (op == 1) A.M.timesVec(b, y.v.local_data(), a, x.v.local_data_const()); if (op == 2) A.M.transTimesVec(b, y.v, a, x.v); if (op == 3) A.M.transTimesVec(b, y.v.local_data(), a, x.v.local_data_const());
  eqv(y.v, e, "symmetric matrix-vector product"); x.unchanged(); A.unchanged(); vf_reach("done");
}
VF_HARNESS(abt, 0, "done") { // W = b*W + a*A*B'
  double a = scal("a"), b = scal("b"); int n = vf_choose("n", 2) + 2, m2 = 1 + vf_choose("m2", 2); vf_assume(!(n == 3 && m2 == 2) || vf_thorough()); G A(2, n, "A"), B(m2, n, "B"); DM W(2, m2, "W"); DV e(2 * m2);
  for (int i = 0; i < 2; i++) for (int j = 0; j < m2; j++) { double r = 0; for (int k = 0; k < n; k++) r = r + A(i, k) * B(j, k); e[i * m2 + j] = b * W(i, j) + a * r; }
  A.M.timesMatTrans(b, W.M, a, B.M); W.is(e, "A*B'"); A.unchanged(); B.unchanged(); vf_reach("done");
}
VF_HARNESS(weighted, 0, "self,other") { // only the upper triangle of the designated block of W is updated
  double a = scal("a"); int m = 2, n = 2 + vf_choose("n", 2); G A(m, n, "A"); HV d(n, "d"); for (double q : d.s) vf_assume_ne(q, 0);
  if (vf_choose("op", 2)) {
    int N = 4, st = vf_choose("start", N - m + 1); DM W(N, N, "W"); DV e = W.s;
    for (int i = 0; i < m; i++) for (int j = i; j < m; j++) { double r = 0; for (int k = 0; k < n; k++) r = r + A(i, k) * A(j, k) / d.s[k]; double& t = e[(st + i) * N + st + j]; t = t + a * r; }
    A.M.addMDinvMtransToDiagBlockOfSymDeMatUTri(st, a, d.v, W.M); W.is(e, "M*inv(D)*M'"); vf_reach("self");
  } else {
    int m2 = 1 + vf_choose("m2", 2); vf_assume(!(n == 3 && m2 == 2) || vf_thorough()); G B(m2, n, "B"); int N = 5, r0 = vf_choose("row", N), c0 = vf_choose("col", N); vf_assume(r0 + m <= N && c0 + m2 <= N && r0 + m - 1 <= c0); DM W(N, N, "W"); DV e = W.s;
    for (int i = 0; i < m; i++) for (int j = 0; j < m2; j++) { double r = 0; for (int k = 0; k < n; k++) r = r + A(i, k) * B(j, k) / d.s[k]; double& t = e[(r0 + i) * N + c0 + j]; t = t + a * r; }
    A.M.addMDinvNtransToSymDeMatUTri(r0, c0, a, d.v, B.M, W.M); W.is(e, "M*inv(D)*N'"); B.unchanged(); vf_reach("other");
  }
  d.unchanged(); A.unchanged();
}
VF_HARNESS(into_dense, 0, "transposed,symmetric,diagonal") {
  double a = scal("a"); int N = 4; 
  switch (vf_choose("op", 3)) {
  case 0: { G A(2, 2, "A"); int r0 = vf_choose("row", 3), c0 = vf_choose("col", 3); DM W(N, N, "W"); DV e = W.s; for (auto& p : A.ij) vf_assume(p.second + r0 <= p.first + c0);
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (j + r0 <= i + c0) { double& t = e[(j + r0) * N + i + c0]; t = t + a * A(i, j); }
    A.M.transAddToSymDenseMatrixUpperTriangle(r0, c0, a, W.M); W.is(e, "transposed block added"); A.unchanged(); vf_reach("transposed"); break; }
  case 1: { Y A(3, "A"); int st = vf_choose("start", 2); DM W(N, N, "W"); DV e = W.s; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) { double& t = e[(i + st) * N + j + st]; t = t + a * A(i, j); }
    A.M.addUpperTriangleToSymDenseMatrixUpperTriangle(st, a, W.M); W.is(e, "upper triangle added"); A.unchanged(); vf_reach("symmetric"); break; }
  case 2: { Y A(3, "A"); int L = 3 + vf_choose("len", 2), st = vf_choose("start", 2), k = vf_choose("num", 5) - 1; HV v(L, "v"); int c = k < 0 ? L : k; vf_assume(c <= 3 && st + c <= L); DV e = v.s; for (int i = 0; i < c; i++) e[st + i] = e[st + i] + a * A(i, i);
    A.M.startingAtAddSubDiagonalToStartingAt(0, a, v.v, st, k); eqv(v.v, e, "diagonal added"); A.unchanged(); vf_reach("diagonal"); break; }
  }
}
VF_HARNESS(scale_norm, 0, "done") {
  int m, n; shape(m, n); G A(m, n, "A"); DV e = A.s; int nz = A.ij.size();
  switch (vf_choose("op", 9)) {
  case 0: vf_assert_eq(A.M.max_abs_value(), [&] { double r = 0; for (double q : A.s) r = dmax(r, dabs_(q)); return r; }(), "largest magnitude"); A.unchanged(); break;
  case 1: { HV r(m, "r"); A.M.row_max_abs_value(r.v); DV x(m, 0.); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) x[i] = dmax(x[i], dabs_(A(i, j))); eqv(r.v, x, "largest magnitude per row"); A.unchanged(); break; }
  case 2: { HV r(m, "r"); A.M.scale_row(r.v, false); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) e[i * n + j] = e[i * n + j] * r.s[i]; A.is(e, "rows scaled"); r.unchanged(); break; }
  case 3: { HV r(m, "r"); for (double q : r.s) vf_assume_ne(q, 0); A.M.scale_row(r.v, true); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) e[i * n + j] = e[i * n + j] / r.s[i]; A.is(e, "rows scaled"); r.unchanged(); break; }
  case 4: { double c = scal("c"); A.M.setToConstant(c); for (int k = 0; k < nz; k++) e[A.ij[k].first * n + A.ij[k].second] = c; A.is(e, "constant"); break; }
  case 5: { A.M.setToZero(); A.is(DV(m * n, 0.), "zero"); break; }
  case 6: { hiopMatrixSparse* c = A.M.new_copy(); T& t = *dynamic_cast<T*>(c); vf_assert(t.m() == m && t.n() == n && t.numberOfNonzeros() == nz, "shape copied"); eqd(den(t), A.s, "copied"); A.M.setToZero(); eqd(den(t), A.s, "copy is independent"); hiopMatrixSparse* q = t.alloc_clone(); vf_assert(q->m() == m && q->n() == n && q->numberOfNonzeros() == nz, "clone shape"); delete q; delete c; break; }
  case 7: { DM W(m, n, "W"); A.M.copy_to(W.M); W.is(A.s, "copied into a dense matrix"); A.unchanged(); break; }
  case 8: { std::vector<int> a(nz + 1), b(nz + 1); DV v(nz + 1); A.M.copy_to(a.data(), b.data(), v.data()); for (int k = 0; k < nz; k++) { vf_assert(a[k] == A.ij[k].first && b[k] == A.ij[k].second, "triplets copied"); vf_assert_eq(v[k], A.v[k], "triplets copied"); } A.unchanged(); break; }
  }
  vf_reach("done");
}
// rows of a matrix, in increasing order of their index
VF_HARNESS(copy_rows, 0, "selected,block") {
  int m = 3, n = 2; G A(m, n, "A");
  if (vf_choose("op", 2)) {
    int sel = vf_choose("rows", 8); std::vector<index_type> ix; for (int i = 0; i < m; i++) if (sel >> i & 1) ix.push_back(i); int nz = 0; for (auto& p : A.ij) nz += sel >> p.first & 1; if (ix.empty()) return;
    T B(ix.size(), n, nz); B.copyRowsFrom(A.M, ix.data(), ix.size()); DV e; for (int i : ix) for (int j = 0; j < n; j++) e.push_back(A(i, j)); eqd(den(B), e, "selected rows"); for (int k = 1; k < nz; k++) vf_assert(B.i_row()[k - 1] < B.i_row()[k] || (B.i_row()[k - 1] == B.i_row()[k] && B.j_col()[k - 1] < B.j_col()[k]), "rows stay sorted"); A.unchanged(); vf_reach("selected");
  } else { // a block of rows of A is written to the nonzeros of B starting at a given position
    int r0 = vf_choose("src", 3), k = 1 + vf_choose("num", 3), d0 = vf_choose("dest", 3); vf_assume(r0 + k <= m && d0 + k <= 4); int nz = 0; for (auto& p : A.ij) nz += p.first >= r0 && p.first < r0 + k; int at = vf_choose("nnz_at", 3), tot = std::max((int)A.ij.size(), at + nz + 1);
    T B(4, 3, tot); IJ ij; for (int q = 0; q < tot; q++) ij.push_back({q % 4, q % 3}); DV bv = symv(tot, "B"); fillm(B, ij, bv);
    B.copyRowsBlockFrom(A.M, r0, k, d0, at); DV e(12, 0.); for (int i = 0; i < k; i++) for (int j = 0; j < n; j++) e[(d0 + i) * 3 + j] = A(r0 + i, j);
    eqd(den(B, at, at + nz), e, "row block"); for (int q = 0; q < tot; q++) if (q < at || q >= at + nz) { vf_assert(B.i_row()[q] == ij[q].first && B.j_col()[q] == ij[q].second, "other nonzeros untouched"); vf_assert_eq(B.M()[q], bv[q], "other nonzeros untouched"); } A.unchanged(); vf_reach("block");
  }
}
VF_HARNESS(sub_blocks, 0, "submatrix,diagonal,pattern") { // nonzeros [at, at+nz) of B become the given block, all others stay
  int N = 4, at = vf_choose("nnz_at", 2); IJ ij; DV bv; T* B = nullptr; DV e(N * N, 0.); int nz = 0;
  auto mk = [&](int k, int least) { nz = k; int tot = std::max(at + nz + 1, least); B = new T(N, N, tot); for (int q = 0; q < tot; q++) ij.push_back({q % 4, (q * 3 + 1) % 4}); bv = symv(tot, "B"); fillm(*B, ij, bv); };
  int r0 = vf_choose("row", 3), c0 = vf_choose("col", 3), op = vf_choose("op", 8);
  if (op < 2) { int m = 2, n = op ? 1 : 2; G A(m, n, "A"); bool od = vf_choose("offdiag_only", 2); int k = 0; for (auto& p : A.ij) k += !(od && p.first == p.second); mk(k, A.ij.size()); vf_assume(r0 + (op ? n : m) <= N && c0 + (op ? m : n) <= N);
    if (op) B->copySubmatrixFromTrans(A.M, r0, c0, at, od); else B->copySubmatrixFrom(A.M, r0, c0, at, od);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (!(od && i == j)) e[op ? (r0 + j) * N + c0 + i : (r0 + i) * N + c0 + j] = A(i, j); A.unchanged(); vf_reach("submatrix"); }
  else if (op == 2) { int k = vf_choose("num", 3); mk(k, 0); double v = R("v"); B->copyDiagMatrixToSubblock(v, r0, c0, at, k); for (int i = 0; i < k; i++) e[(r0 + i) * N + c0 + i] = v; vf_reach("diagonal"); }
  else if (op == 3) { int k = vf_choose("num", 3); mk(k, 0); double sc = scal("s"); HV d(k + vf_choose("longer", 2), "d"); B->copySubDiagonalFrom(r0, k, d.v, at, sc); for (int i = 0; i < k; i++) e[(r0 + i) * N + r0 + i] = sc * d.s[i]; d.unchanged(); vf_reach("diagonal"); }
  else if (op == 4) { int k = vf_choose("num", 3); mk(k, 0); double v = R("v"); B->setSubDiagonalTo(r0, k, v, at); for (int i = 0; i < k; i++) e[(r0 + i) * N + r0 + i] = v; vf_reach("diagonal"); }
  else { int L = 2; int pk = vf_choose("pattern", 4); DV p(L); for (int i = 0; i < L; i++) p[i] = pk >> i & 1; HV ix(p); int k = bits(pk); mk(k, 0); double v = R("v"); HV d(L, "d"); int q = 0;
    if (op == 5) { B->setSubmatrixToConstantDiag_w_colpattern(v, r0, c0, at, k, ix.v); for (int i = 0; i < L; i++) if (pk >> i & 1) e[(r0 + i) * N + c0 + q++] = v; }
    if (op == 6) { B->setSubmatrixToConstantDiag_w_rowpattern(v, r0, c0, at, k, ix.v); for (int i = 0; i < L; i++) if (pk >> i & 1) e[(r0 + q++) * N + c0 + i] = v; }
    if (op == 7) { B->copyDiagMatrixToSubblock_w_pattern(d.v, r0, c0, at, k, ix.v); for (int i = 0; i < L; i++) if (pk >> i & 1) { e[(r0 + q) * N + c0 + q] = d.s[i]; q++; } }
    d.unchanged(); ix.unchanged(); vf_reach("pattern"); }
  eqd(den(*B, at, at + nz), e, "block written");
  for (int q = 0; q < (int)ij.size(); q++) if (q < at || q >= at + nz) { vf_assert(B->i_row()[q] == ij[q].first && B->j_col()[q] == ij[q].second, "other nonzeros untouched"); vf_assert_eq(B->M()[q], bv[q], "other nonzeros untouched"); }
  delete B;
}
// the same operations on larger shapes
VF_HARNESS(large, 0, "done") {
  static const int shp[4][2] = {{6, 7}, {9, 3}, {2, 9}, {5, 5}}; int h = vf_choose("shape", 4), m = shp[h][0], n = shp[h][1], pk = vf_choose("pattern", 4), op = vf_choose("op", 10); double a = R("a"), b = R("b"); G A(m, n, "A", somepat(m, n, pk)); DV e = A.s;
  if (op < 2) { HV x(op ? m : n, "x"), y(op ? n : m, "y"); for (int rep = 0; rep < 2; rep++) { DV r = y.s; for (double& q : r) q = b * q; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { if (op) r[j] = r[j] + a * A(i, j) * x.s[i]; else r[i] = r[i] + a * A(i, j) * x.s[j]; } put(y.v, y.s); if (op) A.M.transTimesVec(b, y.v, a, x.v); else A.M.timesVec(b, y.v, a, x.v); eqv(y.v, r, "matrix-vector product"); if (!rep) { A.v = symv(A.ij.size(), "V"); fillm(A.M, A.ij, A.v); A.s.assign(m * n, 0.); for (size_t k = 0; k < A.ij.size(); k++) A.s[A.ij[k].first * n + A.ij[k].second] = A.v[k]; e = A.s; } } }
  else if (op == 2 || op == 3 || op == 4) { HV d(n, "d"); for (double q : d.s) vf_assume_ne(q, 0); int m2 = 3; G B(m2, n, "B", somepat(m2, n, vf_choose("patB", 4))); 
    for (int rep = 0; rep < 2; rep++) { // twice, with new values: cached structure must not hold values
      if (op == 2) { DM W(m, m2, "W"); DV w(m * m2); for (int i = 0; i < m; i++) for (int j = 0; j < m2; j++) { double r = 0; for (int k = 0; k < n; k++) r = r + A(i, k) * B(j, k); w[i * m2 + j] = b * W(i, j) + a * r; } A.M.timesMatTrans(b, W.M, a, B.M); W.is(w, "A*B'"); }
      else if (op == 3) { int N = m + 2, st = 1; DM W(N, N, "W"); DV w = W.s; for (int i = 0; i < m; i++) for (int j = i; j < m; j++) { double& t = w[(st + i) * N + st + j]; for (int k = 0; k < n; k++) t = t + a * A(i, k) * A(j, k) / d.s[k]; } A.M.addMDinvMtransToDiagBlockOfSymDeMatUTri(st, a, d.v, W.M); W.is(w, "M*inv(D)*M'"); }
      else { int N = m + m2 + 1, c0 = m + 1; DM W(N, N, "W"); DV w = W.s; for (int i = 0; i < m; i++) for (int j = 0; j < m2; j++) { double& t = w[i * N + c0 + j]; for (int k = 0; k < n; k++) t = t + a * A(i, k) * B(j, k) / d.s[k]; } A.M.addMDinvNtransToSymDeMatUTri(0, c0, a, d.v, B.M, W.M); W.is(w, "M*inv(D)*N'"); }
      if (!rep) { A.v = symv(A.ij.size(), "V"); fillm(A.M, A.ij, A.v); A.s.assign(m * n, 0.); for (size_t k = 0; k < A.ij.size(); k++) A.s[A.ij[k].first * n + A.ij[k].second] = A.v[k]; e = A.s; } } B.unchanged(); d.unchanged(); }
  else if (op == 5) { int N = m + n + 1; DM W(N, N, "W"); DV w = W.s; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double& t = w[j * N + n + 1 + i]; t = t + a * A(i, j); } A.M.transAddToSymDenseMatrixUpperTriangle(0, n + 1, a, W.M); W.is(w, "transposed block added");
    Y H(n, "H", somepat(n, n, pk, true)); DM V(n + 2, n + 2, "U"); DV v = V.s; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { double& t = v[(i + 1) * (n + 2) + j + 1]; t = t + a * H(i, j); } H.M.addUpperTriangleToSymDenseMatrixUpperTriangle(1, a, V.M); V.is(v, "upper triangle added"); HV x(n, "x"), y(n, "y"); DV r(n); for (int i = 0; i < n; i++) { r[i] = b * y.s[i]; for (int j = 0; j < n; j++) r[i] = r[i] + a * H(i, j) * x.s[j]; } H.M.timesVec(b, y.v, a, x.v); eqv(y.v, r, "symmetric matrix-vector product"); H.unchanged(); }
  else if (op == 6) { bool inv = vf_choose("inverse", 2); HV r(m, "r"); for (double q : r.s) vf_assume_ne(q, 0); DV w = e; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) w[i * n + j] = inv ? w[i * n + j] / r.s[i] : w[i * n + j] * r.s[i]; A.M.scale_row(r.v, inv); A.is(w, "rows scaled"); vf_reach("done"); return; }
  else if (op == 7) { std::vector<index_type> ix; for (int i = 0; i < m; i++) if (i % 3 != 1) ix.push_back(i); int nz = 0; for (auto& p : A.ij) nz += p.first % 3 != 1; T B(ix.size(), n, nz); B.copyRowsFrom(A.M, ix.data(), ix.size()); DV w; for (int i : ix) for (int j = 0; j < n; j++) w.push_back(A(i, j)); eqd(den(B), w, "selected rows"); DM W(m, n, "W"); A.M.copy_to(W.M); W.is(A.s, "copied into a dense matrix"); }
  else if (op == 8) { // Jacobian and Hessian of the restoration problem, values given twice
    int mc = m, md = 2, N = n + 2 * mc + 2 * md; G D(md, n, "D", somepat(md, n, 1 + vf_choose("patD", 2))); int nz = A.ij.size() + D.ij.size() + 2 * mc + 2 * md; T J(mc + md, N, nz); std::vector<int> ia(nz), ja(nz); DV v(nz); J.set_Jac_FR(A.M, D.M, ia.data(), ja.data(), nullptr); J.set_Jac_FR(A.M, D.M, nullptr, nullptr, v.data()); A.v = symv(A.ij.size(), "V"); fillm(A.M, A.ij, A.v); A.s.assign(m * n, 0.); for (size_t k = 0; k < A.ij.size(); k++) A.s[A.ij[k].first * n + A.ij[k].second] = A.v[k]; J.set_Jac_FR(A.M, D.M, nullptr, nullptr, v.data());
    DV w((mc + md) * N, 0.); for (int i = 0; i < mc; i++) { for (int j = 0; j < n; j++) w[i * N + j] = A(i, j); w[i * N + n + i] = -1.; w[i * N + n + mc + i] = 1.; } for (int i = 0; i < md; i++) { int r = mc + i; for (int j = 0; j < n; j++) w[r * N + j] = D(i, j); w[r * N + n + 2 * mc + i] = -1.; w[r * N + n + 2 * mc + md + i] = 1.; } eqd(den(J), w, "restoration Jacobian"); for (int k = 0; k < nz; k++) { vf_assert(ia[k] == J.i_row()[k] && ja[k] == J.j_col()[k], "pattern handed to the caller"); vf_assert_eq(v[k], J.M()[k], "values handed to the caller"); }
    Y H(n, "H", somepat(n, n, pk, true)); HV d(n, "d"); int nd = 0; for (auto& p : H.ij) nd += p.first != p.second; S Q(n + 3, nd + n); std::vector<int> hi(nd + n), hj(nd + n); DV hv(nd + n); Q.set_Hess_FR(H.M, hi.data(), hj.data(), nullptr, d.v); Q.set_Hess_FR(H.M, nullptr, nullptr, hv.data(), d.v); int M = n + 3; DV q(M * M, 0.); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) q[i * M + j] = i == j ? H(i, i) + d.s[i] : H(i, j); eqd(den(Q), q, "restoration Hessian"); A.unchanged(); vf_reach("done"); return; }
  else { hc_focus = 0; int nz = A.ij.size(), f = nz ? vf_choose("at", 3) * (nz - 1) / 2 : 0; for (int k = 0; k < nz; k++) A.v[k] = k == f ? R("v") : (k * 5 % 7 - 3.5); fillm(A.M, A.ij, A.v); A.s.assign(m * n, 0.); for (int k = 0; k < nz; k++) A.s[A.ij[k].first * n + A.ij[k].second] = A.v[k]; double g = 0; DV w(m, 0.); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { g = dmax(g, dabs_(A(i, j))); w[i] = dmax(w[i], dabs_(A(i, j))); } vf_assert_eq(A.M.max_abs_value(), g, "largest magnitude"); HV r(m, "r"); A.M.row_max_abs_value(r.v); eqv(r.v, w, "largest magnitude per row"); vf_reach("done"); return; }
  A.unchanged(); eqd(den(A.M), e, "operand unchanged"); vf_reach("done");
}
// [Jac -I I] rows of the restoration problem, and its Hessian
VF_HARNESS(restoration, 0, "jacobian,hessian") {
  if (vf_choose("op", 2)) {
    int mc = vf_choose("mc", 3), md = vf_choose("md", 2), n = 2; vf_assume(mc + md > 0); auto full = [&](int m, const char* b) { return m == 0 ? 0 : vf_choose(b, 1 << (m * n)); }; G C(mc, n, "C", full(mc, "cpat")), D(md, n, "D", full(md, "dpat")); int N = n + 2 * mc + 2 * md, nz = C.ij.size() + D.ij.size() + 2 * mc + 2 * md;
    T J(mc + md, N, nz); std::vector<int> a(nz), b(nz); DV v(nz); J.set_Jac_FR(C.M, D.M, a.data(), b.data(), nullptr); C.M.setToConstant(0.); fillm(C.M, C.ij, C.v); J.set_Jac_FR(C.M, D.M, nullptr, nullptr, v.data());
    DV e((mc + md) * N, 0.); for (int i = 0; i < mc; i++) { for (int j = 0; j < n; j++) e[i * N + j] = C(i, j); e[i * N + n + i] = -1.; e[i * N + n + mc + i] = 1.; }
    for (int i = 0; i < md; i++) { int r = mc + i; for (int j = 0; j < n; j++) e[r * N + j] = D(i, j); e[r * N + n + 2 * mc + i] = -1.; e[r * N + n + 2 * mc + md + i] = 1.; }
    eqd(den(J), e, "restoration Jacobian"); for (int k = 0; k < nz; k++) { vf_assert(a[k] == J.i_row()[k] && b[k] == J.j_col()[k], "pattern handed to the caller"); vf_assert_eq(v[k], J.M()[k], "values handed to the caller"); if (k) vf_assert(a[k - 1] < a[k] || (a[k - 1] == a[k] && b[k - 1] < b[k]), "sorted"); }
    C.unchanged(); D.unchanged(); vf_reach("jacobian");
  } else {
    int n = 3; Y H(n, "H"); HV d(n, "d"); int nd = 0; for (auto& p : H.ij) nd += p.first != p.second; int nz = nd + n, N = n + 2; S Q(N, nz); std::vector<int> a(nz), b(nz); DV v(nz);
    vf_assert(H.M.numberOfOffDiagNonzeros() == nd, "off-diagonal count"); Q.set_Hess_FR(H.M, a.data(), b.data(), nullptr, d.v); Q.set_Hess_FR(H.M, nullptr, nullptr, v.data(), d.v);
    DV e(N * N, 0.); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) e[i * N + j] = i == j ? H(i, i) + d.s[i] : H(i, j); eqd(den(Q), e, "restoration Hessian"); for (int k = 0; k < nz; k++) { vf_assert(a[k] == Q.i_row()[k] && b[k] == Q.j_col()[k], "pattern handed to the caller"); vf_assert_eq(v[k], Q.M()[k], "values handed to the caller"); if (k) vf_assert(a[k - 1] < a[k] || (a[k - 1] == a[k] && b[k - 1] < b[k]), "sorted"); }
    H.unchanged(); d.unchanged(); vf_reach("hessian");
  }
}
VF_HARNESS(order, 0, "sorted,diagonal") {
  if (vf_choose("op", 2)) { int n = 2; IJ ij = ijs(n, n, vf_choose("pat", 16)); int nz = ij.size(); for (int k = 0; k + 1 < nz; k++) std::swap(ij[k], ij[k + vf_choose("perm", nz - k)]); DV v = symv(nz, "v"); T A(n, n, nz); fillm(A, ij, v); DV e = den(A); A.sort(); eqd(den(A), e, "same matrix after sorting"); for (int k = 1; k < nz; k++) vf_assert(A.i_row()[k - 1] < A.i_row()[k] || (A.i_row()[k - 1] == A.i_row()[k] && A.j_col()[k - 1] < A.j_col()[k]), "sorted by row, then column"); vf_reach("sorted"); }
  else { int m = 2 + vf_choose("m", 2); G A(m, 3, "A"); bool diag = m == 3; for (auto& p : A.ij) diag = diag && p.first == p.second; vf_assert(A.M.is_diagonal() == diag, "diagonal detected"); if (m == 3) { HV d(3, "d"); A.M.extract_diagonal(d.v); eqv(d.v, {A(0, 0), A(1, 1), A(2, 2)}, "diagonal extracted"); vf_reach("diagonal"); } A.unchanged(); }
}
// conversion of a lower-triangular KKT matrix with possibly repeated diagonal entries to compressed rows
VF_HARNESS(to_csr, 0, "done") {
  int n = 3, op = vf_choose("off", 8), dp = vf_choose("diag", 8), xp = vf_choose("extra", 8); vf_assume((xp & ~dp) == 0); IJ off, dg, ij; int b = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++, b++) if (op >> b & 1) off.push_back({i, j}); for (int i = 0; i < n; i++) if (dp >> i & 1) dg.push_back({i, i});
  int ord = vf_choose("order", 3); if (ord == 2) std::reverse(off.begin(), off.end()); if (ord == 1) { ij = dg; ij.insert(ij.end(), off.begin(), off.end()); } else { ij = off; ij.insert(ij.end(), dg.begin(), dg.end()); }
  int nu = ij.size(); for (int i = 0; i < n; i++) if (xp >> i & 1) ij.push_back({i, i}); int nz = ij.size(); DV v = symv(nz, "v"); T A(n, n, nz); fillm(A, ij, v); DV e = den(A);
  int cn = 0, *rp = nullptr, *jc = nullptr, *c2t = nullptr, *x2c = nullptr; double* cv = nullptr; std::unordered_map<int, int> mp; A.convert_to_csr_arrays(cn, &rp, &jc, &cv, &c2t, &x2c, mp);
  vf_assert(cn == nu && rp[0] == 0 && rp[n] == cn, "row pointers"); DV g(n * n, 0.); int nx = 0;
  for (int i = 0; i < n; i++) for (int k = rp[i]; k < rp[i + 1]; k++) { vf_assert(k == rp[i] || jc[k - 1] < jc[k], "columns sorted, no repetition"); g[i * n + jc[k]] = cv[k]; int t = c2t[k]; vf_assert(t >= 0 && t < nz && ij[t].first == i && ij[t].second == jc[k], "map to triplets"); double val = v[t]; auto it = mp.find(k); bool ex = jc[k] == i && (xp >> i & 1); vf_assert((it != mp.end()) == ex, "extra diagonals mapped"); if (ex) { nx++; vf_assert(ij[it->second].first == i && ij[it->second].second == i && it->second >= 0 && it->second != t, "map of the extra diagonals"); val = val + v[it->second]; vf_assert(x2c[i] == k, "position of the diagonal"); } vf_assert_eq(cv[k], val, "values from the maps"); }
  for (int i = 0; i < n; i++) if (!(xp >> i & 1)) vf_assert(x2c[i] == -1, "no extra diagonal"); vf_assert(nx == bits(xp), "all extra diagonals mapped");
  eqd(g, e, "same matrix"); delete[] rp; delete[] jc; delete[] cv; delete[] c2t; delete[] x2c; vf_reach("done");
}

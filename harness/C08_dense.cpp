// vf-bounds: dense matrices with up to 3 rows and columns (thorough 4), including empty shapes, arbitrary contents, scalars (with 0, 1, -1 as separate cases) and index arguments; shapes 9x7, 7x9, 6x1, 1x11; a two-rank column partition with an arbitrary peer contribution for the reductions
#include "dm.hpp"
static int SZ(const char* n) { return vf_choose(n, vf_thorough() ? 5 : 4); }
VF_HARNESS(matvec, 0, "done") {
  int m = SZ("m"), n = SZ("n"); double a = scal("a"), b = scal("b"); DM A(m, n, "A"); bool t = vf_choose("transposed", 2);
  HV x(t ? m : n, "x"), y(t ? n : m, "y"); DV e(t ? n : m);
  for (int i = 0; i < (t ? n : m); i++) { double r = 0; for (int j = 0; j < (t ? m : n); j++) r = r + (t ? A(j, i) : A(i, j)) * x.s[j]; e[i] = b * y.s[i] + a * r; }
  if (t) A.M.transTimesVec(b, y.v, a, x.v); else A.M.timesVec(b, y.v, a, x.v);
  eqv(y.v, e, "matrix-vector product"); x.unchanged(); A.unchanged(); vf_reach("done");
}
VF_HARNESS(matmat, 0, "times,transtimes,timestrans") {
  int T = vf_thorough() ? 4 : 3; int m = vf_choose("m", T), n = vf_choose("n", T), k = vf_choose("k", T); double a = scal("a"), b = scal("b");
  int op = vf_choose("op", 4);
  if (op == 0) { DM A(m, n, "A"), X(n, k, "X"), W(m, k, "W"); if (n == 0 || m == 0 || k == 0) return; DV e(m * k);
    for (int i = 0; i < m; i++) for (int j = 0; j < k; j++) { double r = 0; for (int l = 0; l < n; l++) r = r + A(i, l) * X(l, j); e[i * k + j] = b * W(i, j) + a * r; }
    A.M.timesMat(b, W.M, a, X.M); W.is(e, "A*X"); A.unchanged(); X.unchanged(); vf_reach("times"); }
  if (op == 1) { DM A(m, n, "A"), X(m, k, "X"), W(n, k, "W"); if (k == 0) return; DV e(n * k);
    for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) { double r = 0; for (int l = 0; l < m; l++) r = r + A(l, i) * X(l, j); e[i * k + j] = b * W(i, j) + a * r; }
    A.M.transTimesMat(b, W.M, a, X.M); W.is(e, "A'*X"); A.unchanged(); X.unchanged(); vf_reach("transtimes"); }
  if (op >= 2) { DM A(m, n, "A"), X(k, n, "X"), W(m, k, "W"); DV e(m * k);
    for (int i = 0; i < m; i++) for (int j = 0; j < k; j++) { double r = 0; for (int l = 0; l < n; l++) r = r + A(i, l) * X(j, l); e[i * k + j] = b * W(i, j) + a * r; }
    if (op == 2) A.M.timesMatTrans(b, W.M, a, X.M); else A.M.timesMatTrans_local(b, W.M, a, X.M); W.is(e, "A*X'"); A.unchanged(); X.unchanged(); vf_reach("timestrans"); }
}
VF_HARNESS(diag_add, 0, "done") {
  int n = SZ("n"); DM A(n, n, "A"); DV e = A.s; double a = scal("a");
  switch (vf_choose("op", 5)) {
  case 0: { HV d(n, "d"); A.M.addDiagonal(a, d.v); for (int i = 0; i < n; i++) e[i * n + i] = e[i * n + i] + a * d.s[i]; d.unchanged(); break; }
  case 1: A.M.addDiagonal(a); for (int i = 0; i < n; i++) e[i * n + i] = e[i * n + i] + a; break;
  case 2: { int st = vf_choose("start", 4), k = vf_choose("len", 4); vf_assume(st + k <= n); HV d(k, "d"); A.M.addSubDiagonal(a, st, d.v); for (int i = 0; i < k; i++) e[(st + i) * n + st + i] = e[(st + i) * n + st + i] + a * d.s[i]; d.unchanged(); break; }
  case 3: { int st = vf_choose("start", 4), src = vf_choose("src", 3), k = vf_choose("num", 4) - 1, L = vf_choose("len", 4); vf_assume(st < n && src <= L); HV d(L, "d"); int c = k < 0 ? L - src : k; vf_assume(src + c <= L); A.M.addSubDiagonal(st, a, d.v, src, k); for (int i = 0; i < c && st + i < n; i++) e[(st + i) * n + st + i] = e[(st + i) * n + st + i] + a * d.s[src + i]; d.unchanged(); break; }
  case 4: { int st = vf_choose("start", 4), k = vf_choose("num", 4); vf_assume(st < n && st + k <= n); A.M.addSubDiagonal(st, k, a); for (int i = 0; i < k; i++) e[(st + i) * n + st + i] = e[(st + i) * n + st + i] + a; break; }
  }
  A.is(e, "diagonal update"); vf_reach("done");
}
VF_HARNESS(add_scale, 0, "done") {
  int m = SZ("m"), n = SZ("n"); DM A(m, n, "A"); DV e = A.s; double a = scal("a");
  switch (vf_choose("op", 4)) {
  case 0: { DM X(m, n, "X"); A.M.addMatrix(a, X.M); for (int i = 0; i < m * n; i++) e[i] = e[i] + a * X.s[i]; X.unchanged(); break; }
  case 1: { HV r(m, "r"); A.M.scale_row(r.v, false); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) e[i * n + j] = e[i * n + j] * r.s[i]; r.unchanged(); break; }
  case 2: { HV r(m, "r"); for (int i = 0; i < m; i++) vf_assume_ne(r.s[i], 0); A.M.scale_row(r.v, true); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) e[i * n + j] = e[i * n + j] / r.s[i]; r.unchanged(); break; }
  case 3: A.M.setToConstant(a); for (auto& v : e) v = a; break;
  }
  A.is(e, "sum or scaling"); vf_reach("done");
}
VF_HARNESS(norms, 0, "done") {
  int m = SZ("m"), n = SZ("n"); DM A(m, n, "A");
  if (vf_choose("op", 2)) { double r = A.M.max_abs_value(), e = 0; for (int i = 0; i < m * n; i++) e = dmax(e, dabs_(A.s[i])); vf_assert_eq(r, e, "largest magnitude"); }
  else { HV r(m, "r"); A.M.row_max_abs_value(r.v); DV e(m); for (int i = 0; i < m; i++) { e[i] = 0; for (int j = 0; j < n; j++) e[i] = dmax(e[i], dabs_(A(i, j))); } eqv(r.v, e, "largest magnitude per row"); }
  A.unchanged(); vf_reach("done");
}
VF_HARNESS(rows, 0, "copyrows,indexed,replace,get,append,shift") {
  int m = SZ("m"), n = SZ("n"); DM A(m, n, "A", 1); DV e = A.s;
  switch (vf_choose("op", 6)) {
  case 0: { int ms = SZ("ms"), k = SZ("k"), d = SZ("dest"); vf_assume(k <= ms && d + k <= m && (k == 0 || d < m)); vf_assume(m > 0 && ms > 0); DM S(ms, n, "S"); A.M.copyRowsFrom(S.M, k, d); for (int i = 0; i < k * n; i++) e[d * n + i] = S.s[i]; S.unchanged(); vf_reach("copyrows"); break; }
  case 1: { int ms = SZ("ms"); vf_assume(m <= ms); DM S(ms, n, "S"); std::vector<int> ix(m + 1); for (int i = 0; i < m; i++) { ix[i] = vf_choose("row", ms); for (int j = 0; j < n; j++) e[i * n + j] = S(ix[i], j); } A.M.copyRowsFrom(S.M, ix.data(), m); S.unchanged(); vf_reach("indexed"); break; }
  case 2: { vf_assume(m > 0); int r = vf_choose("row", m), L = SZ("len"); HV v(L, "v"); A.M.replaceRow(r, v.v); for (int j = 0; j < n && j < L; j++) e[r * n + j] = v.s[j]; v.unchanged(); vf_reach("replace"); break; }
  case 3: { vf_assume(m > 0); int r = vf_choose("row", m); HV v(n, "v"); A.M.getRow(r, v.v); for (int j = 0; j < n; j++) vf_assert_eq(v.v.local_data()[j], A(r, j), "row read"); vf_reach("get"); break; }
  case 4: { HV v(n, "v"); A.M.appendRow(v.v); A.m++; for (double q : v.s) e.push_back(q); v.unchanged(); vf_reach("append"); break; }
  case 5: { int sh = vf_choose("shift", 2 * m + 1) - m; A.M.shiftRows(sh); bool nop = sh == 0 || std::abs(sh) == m || m <= 1; 
    if (!nop) for (int i = 0; i < m; i++) { int src = i - sh; if (src >= 0 && src < m) for (int j = 0; j < n; j++) e[i * n + j] = A(src, j); else for (int j = 0; j < n; j++) e[i * n + j] = A.M.local_data()[i * n + j]; }
    vf_reach("shift"); break; }
  }
  A.is(e, "rows placed");
}
VF_HARNESS(blocks, 0, "into,from") {
  int m = SZ("m"), n = SZ("n"), p = SZ("p"), q = SZ("q"), i0 = SZ("i0"), j0 = SZ("j0"); int op = vf_choose("op", 2); DM A(m, n, "A"); DV e = A.s;
  if (op == 0) { vf_assume(i0 + p <= m && j0 + q <= n); vf_assume(i0 < m && j0 < n); DM S(p, q, "S"); A.M.copyBlockFromMatrix(i0, j0, S.M); for (int i = 0; i < p; i++) for (int j = 0; j < q; j++) e[(i0 + i) * n + j0 + j] = S(i, j); S.unchanged(); vf_reach("into"); }
  else { vf_assume(m + i0 <= p && n + j0 <= q); vf_assume(i0 < p); DM S(p, q, "S"); A.M.copyFromMatrixBlock(S.M, i0, j0); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) e[i * n + j] = S(i0 + i, j0 + j); S.unchanged(); vf_reach("from"); }
  A.is(e, "block placed");
}
VF_HARNESS(whole, 0, "done") {
  int m = SZ("m"), n = SZ("n"); DM A(m, n, "A"), B(m, n, "B");
  switch (vf_choose("op", 5)) {
  case 0: A.M.copyFrom(B.M); A.is(B.s, "copy"); break;
  case 1: if (m) { A.M.copyFrom(B.M.local_data()); A.is(B.s, "copy from array"); } break;
  case 2: { DV buf(m * n + 1, 7.); A.M.copy_to(buf.data()); for (int i = 0; i < m * n; i++) vf_assert_eq(buf[i], A.s[i], "copy to array"); vf_assert(buf[m * n] == 7., "array end untouched"); break; }
  case 3: { hiopMatrixDense* c = A.M.new_copy(); vf_assert(c->m() == m && c->n() == n, "copy shape"); for (int i = 0; i < m * n; i++) vf_assert_eq(c->local_data()[i], A.s[i], "copy content"); if (m * n) { c->local_data()[0] = 5; } A.unchanged("copy is independent"); delete c; break; }
  case 4: { hiopMatrixDense* c = A.M.alloc_clone(); vf_assert(c->m() == m && c->n() == n && c->get_local_size_n() == n, "clone shape"); c->copyFrom(B.M); for (int i = 0; i < m * n; i++) vf_assert_eq(c->local_data()[i], B.s[i], "clone content"); A.unchanged("clone is independent"); delete c; break; }
  }
  B.unchanged(); vf_reach("done");
}
VF_HARNESS(symmetric, 0, "trans,upper,tri") {
  int N = 1 + SZ("N"), m = SZ("m"), n = SZ("n"); DM W(N, N, "W"); DV e = W.s; double a = scal("a");
  switch (vf_choose("op", 5)) {
  case 0: { int r = vf_choose("r", N + 1), c = vf_choose("c", N + 1); vf_assume(n + r <= N && m + c <= N); vf_assume(m == 0 || n == 0 || n - 1 + r <= c); DM A(m, n, "A"); A.M.transAddToSymDenseMatrixUpperTriangle(r, c, a, W.M); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) e[(r + j) * N + c + i] = e[(r + j) * N + c + i] + a * A(i, j); A.unchanged(); vf_reach("trans"); break; }
  case 1: { int r = vf_choose("r", N + 1); vf_assume(n + r <= N); DM A(n, n, "A"); A.M.addUpperTriangleToSymDenseMatrixUpperTriangle(r, a, W.M); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) e[(r + i) * N + r + j] = e[(r + i) * N + r + j] + a * A(i, j); A.unchanged(); vf_reach("upper"); break; }
  case 2: W.M.symmetrize(); for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) e[i * N + j] = W(j, i); vf_reach("tri"); break;
  case 3: W.M.overwriteLowerTriangleWithUpper(); for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) e[i * N + j] = W(j, i); break;
  case 4: W.M.overwriteUpperTriangleWithLower(); for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) e[j * N + i] = W(i, j); break;
  }
  W.is(e, "symmetric insertion");
}
// the same operations on larger shapes
VF_HARNESS(large, 0, "done") {
  static const int shp[4][2] = {{9, 7}, {7, 9}, {6, 1}, {1, 11}}; int h = vf_choose("shape", 4), m = shp[h][0], n = shp[h][1]; double a = vf_choose("unit", 2) ? 1. : R("a"), b = R("b"); DM A(m, n, "A"); DV e = A.s; int op = vf_choose("op", 16);
  auto prod = [&](const DV& x, bool t) { DV r(t ? n : m, 0.); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { if (t) r[j] = r[j] + A(i, j) * x[i]; else r[i] = r[i] + A(i, j) * x[j]; } return r; };
  if (op < 2) { HV x(op ? m : n, "x"), y(op ? n : m, "y"); DV r = prod(x.s, op); for (size_t i = 0; i < r.size(); i++) r[i] = b * y.s[i] + a * r[i]; if (op) A.M.transTimesVec(b, y.v, a, x.v); else A.M.timesVec(b, y.v, a, x.v); eqv(y.v, r, "matrix-vector product"); x.unchanged(); }
  else if (op < 5) { int k = 5; DM X(op == 2 ? n : op == 3 ? m : k, op < 4 ? k : n, "X"), W(op == 3 ? n : m, k, "W"); DV w(W.m * k);
    for (int i = 0; i < W.m; i++) for (int j = 0; j < k; j++) { double r = 0; for (int l = 0; l < (op == 3 ? m : n); l++) r = r + (op == 3 ? A(l, i) : A(i, l)) * (op == 4 ? X(j, l) : X(l, j)); w[i * k + j] = b * W(i, j) + a * r; }
    if (op == 2) A.M.timesMat(b, W.M, a, X.M); else if (op == 3) A.M.transTimesMat(b, W.M, a, X.M); else A.M.timesMatTrans(b, W.M, a, X.M); W.is(w, "matrix product"); X.unchanged(); }
  else if (op == 5) { DM X(m, n, "X"); A.M.addMatrix(a, X.M); for (int i = 0; i < m * n; i++) e[i] = e[i] + a * X.s[i]; X.unchanged(); }
  else if (op == 6) { HV r(m, "r"); A.M.scale_row(r.v, false); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) e[i * n + j] = e[i * n + j] * r.s[i]; r.unchanged(); }
  else if (op == 7) { int k = m / 2 + 1, d = m - k; DM S(k + 1, n, "S"); A.M.copyRowsFrom(S.M, k, d); for (int i = 0; i < k * n; i++) e[d * n + i] = S.s[i]; S.unchanged(); }
  else if (op == 8) { DM S(m + 2, n, "S"); std::vector<int> ix(m); for (int i = 0; i < m; i++) { ix[i] = (m + 1 - i + m) % (m + 2); for (int j = 0; j < n; j++) e[i * n + j] = S(ix[i], j); } A.M.copyRowsFrom(S.M, ix.data(), m); S.unchanged(); }
  else if (op == 9) { int p = m / 2, q = n / 2 + 1, i0 = m - p - (m > 6), j0 = n - q; DM S(p, q, "S"); A.M.copyBlockFromMatrix(i0, j0, S.M); for (int i = 0; i < p; i++) for (int j = 0; j < q; j++) e[(i0 + i) * n + j0 + j] = S(i, j); }
  else if (op == 10) { DM S(m + 3, n + 2, "S"); A.M.copyFromMatrixBlock(S.M, 2, 1); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) e[i * n + j] = S(2 + i, 1 + j); }
  else if (op == 11) { int sh = vf_choose("shift", 2 * m + 1) - m; A.M.shiftRows(sh); bool nop = sh == 0 || std::abs(sh) == m || m <= 1; if (!nop) for (int i = 0; i < m; i++) { int src = i - sh; for (int j = 0; j < n; j++) e[i * n + j] = src >= 0 && src < m ? A(src, j) : A.M.local_data()[i * n + j]; } }
  else if (op == 12) { int N = m + n + 2, r = vf_choose("r", 2); DM W(N, N, "W"); DV w = W.s; A.M.transAddToSymDenseMatrixUpperTriangle(r, n + 1 + r, a, W.M); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) w[(r + j) * N + n + 1 + r + i] = w[(r + j) * N + n + 1 + r + i] + a * A(i, j); W.is(w, "symmetric insertion"); }
  else if (op == 13) { int N = n + 3, r = vf_choose("r", 4); DM S(n, n, "S"), W(N, N, "W"); DV w = W.s; S.M.addUpperTriangleToSymDenseMatrixUpperTriangle(r, a, W.M); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) w[(r + i) * N + r + j] = w[(r + i) * N + r + j] + a * S(i, j); W.is(w, "symmetric insertion"); HV d(n, "d"); S.M.addDiagonal(a, d.v); DV f = S.s; for (int i = 0; i < n; i++) f[i * n + i] = f[i * n + i] + a * d.s[i]; S.is(f, "diagonal update"); }
  else if (op == 14) { DM S(m, m, "S"); DV f = S.s; int st = m / 2, k = m - st; HV d(k + 2, "d"); S.M.addSubDiagonal(st, a, d.v, 1, k); for (int i = 0; i < k; i++) f[(st + i) * m + st + i] = f[(st + i) * m + st + i] + a * d.s[1 + i]; S.is(f, "diagonal update"); S.M.symmetrize(); for (int i = 0; i < m; i++) for (int j = 0; j < i; j++) f[i * m + j] = f[j * m + i]; S.is(f, "symmetrized"); }
  else { // norms: one arbitrary entry at any of some places
    hc_focus = vf_choose("focus", 6) * (m * n - 1) / 5; DM B(m, n, "B"); double g = 0; DV w(m, 0.); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { g = dmax(g, dabs_(B(i, j))); w[i] = dmax(w[i], dabs_(B(i, j))); } vf_assert_eq(B.M.max_abs_value(), g, "largest magnitude"); hc_focus = -1; HV r(m, "r"); B.M.row_max_abs_value(r.v); eqv(r.v, w, "largest magnitude per row"); }
  A.is(e, "matrix content"); vf_reach("done");
}
// the Jacobian and Hessian of the restoration problem
VF_HARNESS(restoration_blocks, 0, "done") {
  int n = SZ("n"), me = vf_choose("me", 3), mi = vf_choose("mi", 3); DM E(me, n, "E"), I(mi, n, "I"), H(n, n, "H"); int N = n + 2 * me + 2 * mi, M = me + mi;
  bool cl = vf_choose("clone", 2);
  hiopMatrixDenseRowMajor J0(M, N); hiopMatrixDense* J = cl ? J0.alloc_clone() : &J0; J->setToConstant(3.);
  J->set_Jac_FR(E.M, I.M);
  for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) {
    double e = 0; if (j < n) e = i < me ? E(i, j) : I(i - me, j);
    else { int k = j - n; if (i < me) e = k == i ? -1 : k == me + i ? 1 : 0; else { int r = i - me; e = k == 2 * me + r ? -1 : k == 2 * me + mi + r ? 1 : 0; } }
    vf_assert_eq(J->local_data()[i * N + j], e, "[J -I I]"); }
  HV d(n, "d"); DM G(n, n, "G"); G.M.set_Hess_FR(H.M, d.v); DV e = H.s; for (int i = 0; i < n; i++) e[i * n + i] = e[i * n + i] + d.s[i]; G.is(e, "Hessian plus diagonal");
  E.unchanged(); I.unchanged(); H.unchanged(); vf_reach("done");
}
// two ranks, columns split 2 + 2; the other rank contributes arbitrary partial results
static DV PX; static int PK; static double peer(int call, int k, double mine, int op) { while ((int)PX.size() <= PK) PX.push_back(R("peer")); return PX[PK++]; }
VF_HARNESS(distributed, 0, "done") {
  int part[3] = {0, 2, 4}; vfs_mpi_peer_d = peer; PK = 0; PX.clear();
  int rank = vf_choose("rank", 2); vfs_mpi_rank = rank; int m = 1 + vf_choose("m", 2), nl = 2; double a = scal("a"), b = scal("b");
  hiopMatrixDenseRowMajor A(m, 4, part, MPI_COMM_WORLD); DV As = symv(m * nl, "A"); for (int i = 0; i < m * nl; i++) A.local_data()[i] = As[i];
  hiopVectorPar x(4, part, MPI_COMM_WORLD); DV xs = symv(nl, "x"); put(x, xs);
  switch (vf_choose("op", 4)) {
  case 0: { HV y(m, "y"); A.timesVec(b, y.v, a, x); DV e(m); for (int i = 0; i < m; i++) { double r = 0; for (int j = 0; j < nl; j++) r = r + As[i * nl + j] * xs[j]; e[i] = (rank == 0 ? b * y.s[i] : 0.) + a * r + PX[i]; } eqv(y.v, e, "sum of the ranks, beta*y once"); vf_assert(PK == m, "one contribution each"); break; }
  case 1: { HV y(m, "y"); hiopVectorPar z(4, part, MPI_COMM_WORLD); DV zs = symv(nl, "z"); put(z, zs); A.transTimesVec(b, z, a, y.v); DV e(nl); for (int j = 0; j < nl; j++) { double r = 0; for (int i = 0; i < m; i++) r = r + As[i * nl + j] * y.s[i]; e[j] = b * zs[j] + a * r; } eqv(z, e, "local columns only"); vf_assert(PK == 0, "no reduction"); break; }
  case 2: { hiopMatrixDenseRowMajor X(2, 4, part, MPI_COMM_WORLD); DV Xs = symv(2 * nl, "X"); for (int i = 0; i < 2 * nl; i++) X.local_data()[i] = Xs[i]; DM W(m, 2, "W"); A.timesMatTrans(b, W.M, a, X); DV e(m * 2); for (int i = 0; i < m; i++) for (int k = 0; k < 2; k++) { double r = 0; for (int j = 0; j < nl; j++) r = r + As[i * nl + j] * Xs[k * nl + j]; e[i * 2 + k] = (rank == 0 ? b * W(i, k) : 0.) + a * r + PX[i * 2 + k]; } W.is(e, "sum of the ranks, beta*W once"); break; }
  case 3: { double r = A.max_abs_value(), e = 0; for (double v : As) e = dmax(e, dabs_(v)); vf_assert_eq(r, dmax(e, PX[0]), "largest over the ranks"); HV rv(m, "r"); A.row_max_abs_value(rv.v); for (int i = 0; i < m; i++) { double q = dmax(dabs_(As[i * nl]), dabs_(As[i * nl + 1])); vf_assert_eq(rv.v.local_data()[i], dmax(q, PX[1 + i]), "per row over the ranks"); } break; }
  }
  vf_reach("done");
}

// vf-bounds: mixed dense-sparse matrices with up to 2 rows, 2 sparse and 2 dense columns (every sparse pattern), symmetric block-diagonal matrices with a 2x2 sparse and a 2x2 dense block, arbitrary values and scalars (0, 1, -1 as separate cases), every placement inside the destination; shapes 5x(4+3), 3x(7+2), 6x(2+5), 2x(1+9) with four patterns
#include "tm.hpp"
#include "hiopMatrixMDS.hpp"
static T& sp(hiopMatrixMDS& M) { return *dynamic_cast<T*>(M.mSp); }
static T& sp(hiopMatrixSymBlockDiagMDS& M) { return *dynamic_cast<T*>(M.mSp); }
struct MD { int m, ns, nd, n; IJ ij; DV v, dv; hiopMatrixMDS M; DV s;
  MD(int m_, int ns_, int nd_, const std::string& b, int mask) : m(m_), ns(ns_), nd(nd_), n(ns + nd), ij(ijs(m, ns, mask)), v(symv(ij.size(), b + "s")), dv(symv(m * nd, b + "d")), M(m, ns, nd, ij.size(), "DEFAULT"), s(m * n, 0.) { load(); for (size_t k = 0; k < ij.size(); k++) s[ij[k].first * n + ij[k].second] = v[k]; for (int i = 0; i < m; i++) for (int j = 0; j < nd; j++) s[i * n + ns + j] = dv[i * nd + j]; }
  MD(int m_, int ns_, int nd_, const std::string& b, const IJ& p) : m(m_), ns(ns_), nd(nd_), n(ns + nd), ij(p), v(symv(ij.size(), b + "s")), dv(symv(m * nd, b + "d")), M(m, ns, nd, ij.size(), "DEFAULT"), s(m * n, 0.) { load(); for (size_t k = 0; k < ij.size(); k++) s[ij[k].first * n + ij[k].second] = v[k]; for (int i = 0; i < m; i++) for (int j = 0; j < nd; j++) s[i * n + ns + j] = dv[i * nd + j]; }
  MD(int m_, int ns_, int nd_, const std::string& b) : MD(m_, ns_, nd_, b, vf_choose((b + "pat").c_str(), 1 << (m_ * ns_))) {}
  void load() { fillm(sp(M), ij, v); for (int i = 0; i < m * nd; i++) M.de_local_data()[i] = dv[i]; }
  double operator()(int i, int j) const { return s[i * n + j]; }
  static DV dense(hiopMatrixMDS& M) { int m = M.m(), ns = M.n_sp(), nd = M.n_de(), n = ns + nd; DV r(m * n, 0.), q = den(sp(M)); for (int i = 0; i < m; i++) { for (int j = 0; j < ns; j++) r[i * n + j] = q[i * ns + j]; for (int j = 0; j < nd; j++) r[i * n + ns + j] = M.de_local_data()[i * nd + j]; } return r; }
  void is(const DV& e, const char* l) { vf_assert(M.m() == m && M.n() == n, "shape kept"); eqd(dense(M), e, l); }
  void unchanged() { is(s, "operand unchanged"); } };
struct SD { int ns, nd, n; IJ ij; DV v, dv; hiopMatrixSymBlockDiagMDS M; DV s;
  SD(int ns_, int nd_, const std::string& b) : ns(ns_), nd(nd_), n(ns + nd), ij(ijs(ns, ns, vf_choose((b + "pat").c_str(), 1 << (ns * (ns + 1) / 2)), true)), v(symv(ij.size(), b + "s")), dv(nd * nd), M(ns, nd, ij.size(), "DEFAULT"), s(n * n, 0.) { for (int i = 0; i < nd; i++) for (int j = i; j < nd; j++) dv[i * nd + j] = dv[j * nd + i] = R(nm(b + "d", i * nd + j)); fillm(sp(M), ij, v); for (int i = 0; i < nd * nd; i++) M.de_local_data()[i] = dv[i]; for (size_t k = 0; k < ij.size(); k++) s[ij[k].first * n + ij[k].second] = s[ij[k].second * n + ij[k].first] = v[k]; for (int i = 0; i < nd; i++) for (int j = 0; j < nd; j++) s[(ns + i) * n + ns + j] = dv[i * nd + j]; }
  double operator()(int i, int j) const { return s[i * n + j]; }
  static DV dense(hiopMatrixSymBlockDiagMDS& M) { int ns = M.n_sp(), nd = M.n_de(), n = ns + nd; DV r(n * n, 0.), q = den(sp(M)); for (int i = 0; i < ns; i++) for (int j = i; j < ns; j++) r[i * n + j] = r[j * n + i] = q[i * ns + j]; for (int i = 0; i < nd; i++) for (int j = 0; j < nd; j++) r[(ns + i) * n + ns + j] = M.de_local_data()[i * nd + j]; return r; }
  void is(const DV& e, const char* l) { vf_assert(M.m() == n && M.n() == n, "shape kept"); eqd(dense(M), e, l); } };
static void shape(int& m, int& ns, int& nd) { switch (vf_choose("shape", 4)) { case 0: m = 2; ns = 2; nd = 2; break; case 1: m = 1; ns = 2; nd = 1; break; case 2: m = 2; ns = 1; nd = 2; break; default: m = 2; ns = 2; nd = 0; } }
VF_HARNESS(matvec, 0, "done") {
  int m, ns, nd; shape(m, ns, nd); double a = scal("a"), b = scal("b"); MD A(m, ns, nd, "A"); int n = A.n; bool t = vf_choose("transposed", 2); HV x(t ? m : n, "x"), y(t ? n : m, "y"); DV e(t ? n : m);
  for (int i = 0; i < (t ? n : m); i++) { double r = 0; for (int j = 0; j < (t ? m : n); j++) r = r + (t ? A(j, i) : A(i, j)) * x.s[j]; e[i] = b * y.s[i] + a * r; }
  if (t) A.M.transTimesVec(b, y.v, a, x.v); else A.M.timesVec(b, y.v, a, x.v);
  eqv(y.v, e, "matrix-vector product"); x.unchanged(); A.unchanged(); vf_reach("done");
}
VF_HARNESS(sym_matvec, 0, "done") {
  double a = scal("a"), b = scal("b"); SD A(2, vf_choose("nd", 3), "A"); int n = A.n; HV x(n, "x"), y(n, "y"); DV e(n);
  for (int i = 0; i < n; i++) { double r = 0; for (int j = 0; j < n; j++) r = r + A(i, j) * x.s[j]; e[i] = b * y.s[i] + a * r; }
  if (vf_choose("transposed", 2)) A.M.transTimesVec(b, y.v, a, x.v); else A.M.timesVec(b, y.v, a, x.v);
  eqv(y.v, e, "symmetric matrix-vector product"); x.unchanged(); A.is(A.s, "operand unchanged"); vf_reach("done");
}
VF_HARNESS(abt, 0, "done") {
  double a = scal("a"), b = scal("b"); int m2 = 1 + vf_choose("m2", 2); MD A(2, 2, 1, "A"), B(m2, 2, 1, "B"); DM W(2, m2, "W"); DV e(2 * m2);
  for (int i = 0; i < 2; i++) for (int j = 0; j < m2; j++) { double r = 0; for (int k = 0; k < A.n; k++) r = r + A(i, k) * B(j, k); e[i * m2 + j] = b * W(i, j) + a * r; }
  A.M.timesMatTrans(b, W.M, a, B.M); W.is(e, "A*B'"); A.unchanged(); B.unchanged(); vf_reach("done");
}
VF_HARNESS(into_dense, 0, "transposed,symmetric") {
  double a = scal("a"); int N = 6;
  if (vf_choose("op", 2)) { MD A(2, 2, 2, "A"); int r0 = vf_choose("row", 2), c0 = vf_choose("col", 5); vf_assume(c0 + 2 <= N && r0 + 4 <= N && r0 + 3 <= c0); DM W(N, N, "W"); DV e = W.s;
    for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) { double& t = e[(r0 + j) * N + c0 + i]; t = t + a * A(i, j); }
    A.M.transAddToSymDenseMatrixUpperTriangle(r0, c0, a, W.M); W.is(e, "transposed block added"); A.unchanged(); vf_reach("transposed"); }
  else { SD A(2, 2, "A"); int st = vf_choose("start", 3); DM W(N, N, "W"); DV e = W.s; for (int i = 0; i < 4; i++) for (int j = i; j < 4; j++) { double& t = e[(st + i) * N + st + j]; t = t + a * A(i, j); }
    A.M.addUpperTriangleToSymDenseMatrixUpperTriangle(st, a, W.M); W.is(e, "upper triangle added"); A.is(A.s, "operand unchanged"); vf_reach("symmetric"); }
}
VF_HARNESS(scale_norm, 0, "general,symmetric") {
  if (vf_choose("sym", 2)) { SD A(2, 2, "A"); int N = 4; switch (vf_choose("op", 4)) {
    case 0: { double r = 0; for (double q : A.s) r = dmax(r, dabs_(q)); vf_assert_eq(A.M.max_abs_value(), r, "largest magnitude"); A.is(A.s, "operand unchanged"); break; }
    case 1: { double c = scal("c"); A.M.setToConstant(c); DV e(N * N, 0.); for (auto& p : A.ij) e[p.first * N + p.second] = e[p.second * N + p.first] = c; for (int i = 2; i < 4; i++) for (int j = 2; j < 4; j++) e[i * N + j] = c; A.is(e, "constant"); break; }
    case 2: A.M.setToZero(); A.is(DV(N * N, 0.), "zero"); break;
    case 3: { auto* c = dynamic_cast<hiopMatrixSymBlockDiagMDS*>(A.M.new_copy()); eqd(SD::dense(*c), A.s, "copied"); A.M.setToZero(); eqd(SD::dense(*c), A.s, "copy is independent"); auto* q = c->alloc_clone(); vf_assert(q->n() == N, "clone shape"); delete q; delete c; break; } }
    vf_reach("symmetric"); return; }
  int m, ns, nd; shape(m, ns, nd); MD A(m, ns, nd, "A"); int n = A.n; DV e = A.s;
  switch (vf_choose("op", 7)) {
  case 0: { double r = 0; for (double q : A.s) r = dmax(r, dabs_(q)); vf_assert_eq(A.M.max_abs_value(), r, "largest magnitude"); A.unchanged(); break; }
  case 1: { HV r(m, "r"); A.M.row_max_abs_value(r.v); DV x(m, 0.); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) x[i] = dmax(x[i], dabs_(A(i, j))); eqv(r.v, x, "largest magnitude per row"); A.unchanged(); break; }
  case 2: case 3: { bool inv = vf_choose("inv", 2); HV r(m, "r"); if (inv) for (double q : r.s) vf_assume_ne(q, 0); A.M.scale_row(r.v, inv); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) e[i * n + j] = inv ? e[i * n + j] / r.s[i] : e[i * n + j] * r.s[i]; A.is(e, "rows scaled"); r.unchanged(); break; }
  case 4: { double c = scal("c"); A.M.setToConstant(c); for (auto& p : A.ij) e[p.first * n + p.second] = c; for (int i = 0; i < m; i++) for (int j = ns; j < n; j++) e[i * n + j] = c; A.is(e, "constant"); break; }
  case 5: A.M.setToZero(); A.is(DV(m * n, 0.), "zero"); break;
  case 6: { auto* c = dynamic_cast<hiopMatrixMDS*>(A.M.new_copy()); eqd(MD::dense(*c), A.s, "copied"); A.M.setToZero(); eqd(MD::dense(*c), A.s, "copy is independent"); auto* q = c->alloc_clone(); vf_assert(q->n() == n && q->m() == m, "clone shape"); delete q; delete c; break; }
  }
  vf_reach("general");
}
VF_HARNESS(copy_rows, 0, "done") {
  int m = 3, ns = 2, nd = 2; MD A(m, ns, nd, "A"); int n = A.n, sel = 1 + vf_choose("rows", 7); std::vector<index_type> ix; for (int i = 0; i < m; i++) if (sel >> i & 1) ix.push_back(i); int nz = 0; for (auto& p : A.ij) nz += sel >> p.first & 1;
  hiopMatrixMDS B(ix.size(), ns, nd, nz, "DEFAULT"); B.copyRowsFrom(A.M, ix.data(), ix.size()); DV e; for (int i : ix) for (int j = 0; j < n; j++) e.push_back(A(i, j)); eqd(MD::dense(B), e, "selected rows"); A.unchanged(); vf_reach("done");
}
VF_HARNESS(restoration, 0, "jacobian,hessian") {
  if (vf_choose("op", 2)) { int mc = 1 + vf_choose("mc", 2), md = 1, ns = 2, nd = 2; MD C(mc, ns, nd, "C"), D(md, ns, nd, "D"); int Ns = ns + 2 * mc + 2 * md, nz = C.ij.size() + D.ij.size() + 2 * (mc + md), N = Ns + nd; hiopMatrixMDS J(mc + md, Ns, nd, nz, "DEFAULT"); std::vector<int> a(nz), b(nz); DV v(nz), w((mc + md) * nd);
    J.set_Jac_FR(C.M, D.M, a.data(), b.data(), v.data(), w.data()); DV e((mc + md) * N, 0.);
    for (int i = 0; i < mc + md; i++) { MD& K = i < mc ? C : D; int q = i < mc ? i : i - mc; for (int j = 0; j < ns; j++) e[i * N + j] = K(q, j); for (int j = 0; j < nd; j++) e[i * N + Ns + j] = K(q, ns + j); int P = i < mc ? ns + i : ns + 2 * mc + q, Q = i < mc ? ns + mc + i : ns + 2 * mc + md + q; e[i * N + P] = -1.; e[i * N + Q] = 1.; }
    eqd(MD::dense(J), e, "restoration Jacobian"); for (int k = 0; k < nz; k++) { vf_assert(a[k] == J.sp_irow()[k] && b[k] == J.sp_jcol()[k], "pattern handed to the caller"); vf_assert_eq(v[k], J.sp_M()[k], "values handed to the caller"); } for (size_t i = 0; i < w.size(); i++) vf_assert_eq(w[i], J.de_local_data()[i], "dense values handed to the caller"); C.unchanged(); D.unchanged(); vf_reach("jacobian"); }
  else { SD H(2, 2, "H"); HV ds(2, "ds"), dd(2, "dd"); int nd = 0; for (auto& p : H.ij) nd += p.first != p.second; int nz = nd + 2, Ns = 4, N = Ns + 2; hiopMatrixSymBlockDiagMDS Q(Ns, 2, nz, "DEFAULT"); std::vector<int> a(nz), b(nz); DV v(nz), w(4); Q.set_Hess_FR(H.M, a.data(), b.data(), v.data(), w.data(), ds.v, dd.v);
    DV e(N * N, 0.); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { e[i * N + j] = H(i, j) + (i == j ? ds.s[i] : 0.); e[(Ns + i) * N + Ns + j] = H(2 + i, 2 + j) + (i == j ? dd.s[i] : 0.); } eqd(SD::dense(Q), e, "restoration Hessian"); for (int k = 0; k < nz; k++) { vf_assert(a[k] == Q.sp_irow()[k] && b[k] == Q.sp_jcol()[k], "pattern handed to the caller"); vf_assert_eq(v[k], Q.sp_M()[k], "values handed to the caller"); } for (int i = 0; i < 4; i++) vf_assert_eq(w[i], Q.de_local_data()[i], "dense values handed to the caller"); H.is(H.s, "operand unchanged"); vf_reach("hessian"); }
}

VF_HARNESS(large, 0, "done") {
  static const int shp[4][3] = {{5, 4, 3}, {3, 7, 2}, {6, 2, 5}, {2, 1, 9}}; int h = vf_choose("shape", 4), m = shp[h][0], ns = shp[h][1], nd = shp[h][2], op = vf_choose("op", 6); MD A(m, ns, nd, "A", somepat(m, ns, vf_choose("pattern", 4))); int n = A.n; double a = R("a"), b = R("b");
  if (op < 2) { HV x(op ? m : n, "x"), y(op ? n : m, "y"); DV r = y.s; for (double& q : r) q = b * q; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { if (op) r[j] = r[j] + a * A(i, j) * x.s[i]; else r[i] = r[i] + a * A(i, j) * x.s[j]; } if (op) A.M.transTimesVec(b, y.v, a, x.v); else A.M.timesVec(b, y.v, a, x.v); eqv(y.v, r, "matrix-vector product"); x.unchanged(); }
  else if (op == 2) { int m2 = 3; MD B(m2, ns, nd, "B", somepat(m2, ns, vf_choose("patB", 4))); DM W(m, m2, "W"); DV e(m * m2); for (int i = 0; i < m; i++) for (int j = 0; j < m2; j++) { double r = 0; for (int k = 0; k < n; k++) r = r + A(i, k) * B(j, k); e[i * m2 + j] = b * W(i, j) + a * r; } A.M.timesMatTrans(b, W.M, a, B.M); W.is(e, "A*B'"); B.unchanged(); }
  else if (op == 3) { int N = m + n + 1; DM W(N, N, "W"); DV e = W.s; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double& t = e[j * N + n + 1 + i]; t = t + a * A(i, j); } A.M.transAddToSymDenseMatrixUpperTriangle(0, n + 1, a, W.M); W.is(e, "transposed block added"); }
  else if (op == 4) { HV r(m, "r"); DV e = A.s; A.M.scale_row(r.v, false); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) e[i * n + j] = e[i * n + j] * r.s[i]; A.is(e, "rows scaled"); vf_reach("done"); return; }
  else { std::vector<index_type> ix; for (int i = 0; i < m; i++) if (i % 3 != 1) ix.push_back(i); int nz = 0; for (auto& p : A.ij) nz += p.first % 3 != 1; hiopMatrixMDS B(ix.size(), ns, nd, nz, "DEFAULT"); B.copyRowsFrom(A.M, ix.data(), ix.size()); DV e; for (int i : ix) for (int j = 0; j < n; j++) e.push_back(A(i, j)); eqd(MD::dense(B), e, "selected rows"); }
  A.unchanged(); vf_reach("done");
}

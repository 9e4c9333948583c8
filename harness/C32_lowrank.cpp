// vf-bounds: 2 variables, up to 1 equality and 1 inequality, memory length 0..4 (thorough 5), histories of up to 6 (thorough 7) pairs (concrete steps, one symbolic entry per new pair); every initial scaling rule; 5 variables, memory up to 4 (thorough 6), up to 6 (thorough 8) pairs with one arbitrary entry; all nonnegative diagonal terms on the diagonal; all right-hand sides and weighting matrices of up to 2 rows
#include "fix.hpp"
#include "hiopHessianLowRank.hpp"
struct Q {
  DProb p; NlpFix<> F; hiopNlpDenseConstraints& N; hiopHessianLowRank* h; hiopIterate it; hiopVector* g; hiopMatrixDense *Jc, *Jd; int n, me, mi;
  Q(std::vector<int> kx, std::vector<int> kc, int lmax, const char* strat = "sigma0") : p(kx, kc, true, false), F(p), N((F.str("sigma_update_strategy", strat), F.init(), F.nlp)), it(&N) {
    vfs_inertia = 0;
    n = N.n(); me = N.m_eq(); mi = N.m_ineq();
    g = N.alloc_primal_vec(); Jc = dynamic_cast<hiopMatrixDense*>(N.alloc_Jac_c()); Jd = dynamic_cast<hiopMatrixDense*>(N.alloc_Jac_d());
    h = new hiopHessianLowRank(&N, lmax);
    for (auto v : {it.x, it.d, it.yc, it.yd, it.sxl, it.sxu, it.sdl, it.sdu, it.zl, it.zu, it.vl, it.vu}) v->setToZero();
    g->setToZero(); Jc->setToZero(); Jd->setToZero();
  }
  bool upd() { return h->update(it, *g, *Jc, *Jd); }
  // store a pair (x moves by s, gradient by y)
  void pair(const DV& s, const DV& y) { for (int i = 0; i < n; i++) { D(it.x)[i] = D(it.x)[i] + s[i]; D(g)[i] = D(g)[i] + y[i]; } upd(); }
};
static double dot(const DV& a, const DV& b) { double r = 0; for (size_t i = 0; i < a.size(); i++) r = r + a[i] * b[i]; return r; }
static const double EPS = std::numeric_limits<double>::epsilon();
static const char* STRAT[5] = {"sty", "sty_inv", "snrm_ynrm", "sty_srnm_ynrm", "sigma0"};
// one update from arbitrary data: the pair, its acceptance, the stored rows, D and the scaling
VF_HARNESS(update, 0, "accepted,skipped curvature,skipped step") {
  int st = vf_choose("strategy", 5); bool con = vf_choose("constrained", 2);
  vf_exact(1);
  Q q({K_FREE, K_FREE}, con ? std::vector<int>{K_EQ, K_LOW} : std::vector<int>{}, 1 - vf_choose("nomem", 2), STRAT[st]);
  // previous point: x, gradient and Jacobians concrete; current one arbitrary
  DV x0 = {1., -2.}, g0 = {0.5, 3.}, jc0 = {1., 2.}, jd0 = {-1., 0.5};
  put(*q.it.x, x0); put(*q.g, g0); if (con) { for (int i = 0; i < 2; i++) { q.Jc->local_data()[i] = jc0[i]; q.Jd->local_data()[i] = jd0[i]; } D(q.it.yc)[0] = 4.; D(q.it.yd)[0] = -8.; }
  q.upd();
  vf_assert(q.h->l_curr == 0, "first update only stores the iterate");
  static const double ST[5][2] = {{0.75, 1.}, {-1., 0.75}, {0., 0.}, {0x1p-55, -0x1p-50}, {0., 0x1p-40}};
  int si = vf_choose("s", 5), gi = vf_choose("g", 3);
  DV s = {ST[si][0], ST[si][1]}, dg = {R("dg"), gi == 0 ? 3. : gi == 1 ? -0.5 : 0.}, y = dg;
  for (int i = 0; i < 2; i++) { D(q.it.x)[i] = x0[i] + s[i]; D(q.g)[i] = g0[i] + dg[i]; }
  if (con) {
    DV dc = {0.5, -1.}, dd = {2., 0.25}; double yc = 2., yd = -0.5;
    switch (vf_choose("sym", 4)) { case 0: dc[0] = R("djc"); break; case 1: dd[1] = R("djd"); break; case 2: yc = R("yc"); break; default: yd = R("yd"); }
    D(q.it.yc)[0] = yc; D(q.it.yd)[0] = yd;
    for (int i = 0; i < 2; i++) { q.Jc->local_data()[i] = jc0[i] + dc[i]; q.Jd->local_data()[i] = jd0[i] + dd[i]; y[i] = y[i] + dc[i] * yc + dd[i] * yd; }
  }
  double sg0 = q.h->sigma;
  q.upd();
  double sy = dot(s, y), s2 = dot(s, s), y2 = dot(y, y);
  int lm = q.h->l_max;
  bool moved = q.h->sigma != sg0 || q.h->l_curr == 1;
  if (lm && q.h->l_curr == 1) {
    vf_reach("accepted");
    vf_assert(q.h->St_->m() == 1 && q.h->Yt_->m() == 1 && q.h->D_->get_size() == 1, "one pair stored");
    for (int i = 0; i < 2; i++) { vf_assert_eq(q.h->St_->local_data()[i], s[i], "step"); vf_assert_eq(q.h->Yt_->local_data()[i], y[i], "gradient change of the Lagrangian"); }
    vf_assert_eq(D(q.h->D_)[0], sy, "curvature"); vf_assert_lt(0., sy, "accepted pairs have positive curvature");
    vf_assert_le(s2 * y2 * EPS, sy * sy, "sufficient curvature");
    double e = st == 0 ? sy / s2 : st == 1 ? y2 / sy : st == 2 ? sqrt(s2 / y2) : st == 3 ? 0.5 * (sy / s2 + y2 / sy) : q.h->sigma0;
    e = e > 1e8 ? 1e8 : e < 1e-8 ? 1e-8 : e;
    vf_assert_eq(q.h->sigma, e, "scaling rule");
  } else if (lm) {
    vf_assert_eq(q.h->sigma, sg0, "skipped pair leaves the scaling");
    vf_assert(q.h->St_->m() == 0 && q.h->D_->get_size() == 0, "skipped pair is not stored");
    if (dabs_(s[0]) >= 100 * EPS || dabs_(s[1]) >= 100 * EPS) { vf_assert(!(sy > 0) || sy * sy <= s2 * y2 * EPS, "only pairs without sufficient curvature are skipped"); vf_reach("skipped curvature"); }
    else vf_reach("skipped step");
  } else vf_assert(q.h->l_curr == 0 && q.h->St_->m() == 0, "no memory");
  (void)moved;
  // the current data are the reference of the next pair
  for (int i = 0; i < 2; i++) { vf_assert_eq(D(q.h->it_prev_->x)[i], x0[i] + s[i], "previous iterate"); vf_assert_eq(D(q.h->grad_f_prev_)[i], g0[i] + dg[i], "previous gradient"); if (con) { vf_assert_eq(q.h->Jac_c_prev_->local_data()[i], q.Jc->local_data()[i], "previous Jacobian"); vf_assert_eq(q.h->Jac_d_prev_->local_data()[i], q.Jd->local_data()[i], "previous Jacobian"); } }
}
// BFGS matrix of the stored pairs by its recursive definition
struct Bfgs { double B[4]; Bfgs(double sg) { B[0] = B[3] = sg; B[1] = B[2] = 0; }
  void add(const DV& s, const DV& y) {
    double bs[2] = {B[0] * s[0] + B[1] * s[1], B[2] * s[0] + B[3] * s[1]}, sbs = bs[0] * s[0] + bs[1] * s[1], sy = dot(s, y);
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) B[i * 2 + j] = B[i * 2 + j] - bs[i] * bs[j] / sbs + y[i] * y[j] / sy;
  } };
static const double SS[7][2] = {{1., 0.5}, {-0.5, 2.}, {1., -1.}, {0.25, 1.}, {2., 0.75}, {-1., 0.125}, {0.5, 1.5}};
// a history of K accepted pairs with memory lmax; steps concrete, gradient changes arbitrary
struct Hist { Q q; std::vector<DV> s, y; int K, lmax;
  Hist(int K_, int lmax_, int strat, bool bounds, int symy) : q(bounds ? std::vector<int>{K_LOW, K_UPP} : std::vector<int>{K_FREE, K_FREE}, {}, lmax_, STRAT[strat]), K(K_), lmax(lmax_) {
    q.upd();
    for (int k = 0; k < K; k++) {
      DV sv = {SS[k][0], SS[k][1]}, yv;
      if (k >= K - symy) { // y = a s + b s_perp with a >= 1, |b| <= 4 : sufficient curvature for every choice
        double a = vf_in(nm("a", k).c_str(), 0.5, 4.), b = vf_in(nm("b", k).c_str(), -4., 4.);
        yv = {a * sv[0] - b * sv[1], a * sv[1] + b * sv[0]};
      } else yv = {sv[0] * 2., sv[1] * 1.5};
      s.push_back(sv); y.push_back(yv);
      q.pair(sv, yv);
    }
    vf_assert(q.h->l_curr == std::min(K, lmax), "all pairs with sufficient curvature are stored, at most the memory length");
  }
  int first() { return std::max(0, K - lmax); } };
// multiplication: BFGS formula, symmetry and secant condition; the most recent pairs are kept in order, L and D belong to them
VF_HARNESS(product, 0, "full,shifted") {
  vf_exact(1);
  int lmax = 1 + vf_choose("lmax", vf_thorough() ? 5 : 4), K = lmax > 3 ? lmax + 1 + vf_choose("K", 2) : 1 + vf_choose("K", 4);
  Hist H(K, lmax, vf_choose("strategy", 2) ? 4 : 0, false, K == 1);
  Q& q = H.q; int f = H.first(), l = K - f;
  vf_assert(q.h->St_->m() == l && q.h->Yt_->m() == l && q.h->D_->get_size() == l && q.h->L_->m() == l && q.h->L_->n() == l, "representation sizes");
  for (int k = 0; k < l; k++) {
    for (int i = 0; i < 2; i++) { vf_assert_eq(q.h->St_->local_data()[k * 2 + i], H.s[f + k][i], "stored step"); vf_assert_eq(q.h->Yt_->local_data()[k * 2 + i], H.y[f + k][i], "stored gradient change"); }
    vf_assert_eq(D(q.h->D_)[k], dot(H.s[f + k], H.y[f + k]), "diagonal D");
    for (int j = 0; j < l; j++) vf_assert_eq(q.h->L_->local_data()[k * l + j], j < k ? dot(H.s[f + k], H.y[f + j]) : 0., "triangular L");
  }
  Bfgs B(q.h->sigma); for (int k = f; k < K; k++) B.add(H.s[k], H.y[k]);
  HV y(2, "u"); DV x = symv(2, "v"); HV xv(x); double al = 1., be = 0.; int c = vf_choose("scal", 2); if (c) { al = R("alpha"); be = R("beta"); }
  DV u = y.s; q.h->timesVec(be, y.v, al, xv.v);
  for (int i = 0; i < 2; i++) vf_assert_eq(y.v.local_data()[i], be * u[i] + al * (B.B[2 * i] * x[0] + B.B[2 * i + 1] * x[1]), "product with the BFGS matrix");
  HV sl(H.s[K - 1]), r(DV{7., 7.}); q.h->timesVec(0., r.v, 1., sl.v); eqv(r.v, H.y[K - 1], "secant condition");
  q.h->timesVec_noLogBarrierTerm(0., r.v, 1., sl.v); eqv(r.v, H.y[K - 1], "secant condition without log-barrier term");
  vf_reach(K > lmax ? "shifted" : "full");
}
static DV anyDx(Q& q) { DV d(2, 0.); int c = vf_choose("Dx", 3); for (int i = 0; i < 2; i++) if (c == 2 || (c == 1 && i == 0)) d[i] = vf_in(nm("Dx", i).c_str(), 0., 100.); return d; }
// solve: (B + Dx) x = rhs, for every memory fill
VF_HARNESS(solve, 0, "solved") {
  vf_exact(1);
  vfs_concrete = 2;
  int lmax = vf_choose("lmax", 3), K = lmax ? 1 + vf_choose("K", 3) : 1;
  Hist H(K, lmax, 4, false, 0); Q& q = H.q;
  DV dx = anyDx(q); HV Dx(dx); q.h->updateLogBarrierDiagonal(Dx.v);
  HV rhs(2, "r"), x(DV{3., 4.}); q.h->solve(rhs.v, x.v); rhs.unchanged();
  Bfgs B(q.h->sigma); for (int k = H.first(); k < K; k++) B.add(H.s[k], H.y[k]);
  const double* X = x.v.local_data();
  for (int i = 0; i < 2; i++) vf_assert_eq((B.B[2 * i] + (i == 0 ? dx[0] : 0.)) * X[0] + (B.B[2 * i + 1] + (i == 1 ? dx[1] : 0.)) * X[1], rhs.s[i], "inverse times matrix");
  vf_reach("solved");
}
// weighted product: W = beta W + alpha X (B + Dx)^{-1} X'
VF_HARNESS(weighted, 0, "computed") {
  vf_exact(1);
  vfs_concrete = 2;
  int lmax = vf_choose("lmax", 3), K = lmax ? 1 + vf_choose("K", 3) : 1, k = 1 + vf_choose("rows", 2);
  Hist H(K, lmax, 4, false, 0); Q& q = H.q;
  DV dx = {0.5, 0.}; if (vf_choose("symDx", 2)) dx[0] = vf_in("Dx0", 0., 100.);
  HV Dx(dx); q.h->updateLogBarrierDiagonal(Dx.v);
  double al = R("alpha"), be = R("beta");
  DV X = symv(k * 2, "X"), W0(k * k); for (int i = 0; i < k; i++) for (int j = i; j < k; j++) W0[i * k + j] = W0[j * k + i] = R("W" + std::to_string(i) + std::to_string(j));
  hiopMatrixDenseRowMajor XM(k, 2), W(k, k); for (int i = 0; i < 2 * k; i++) XM.local_data()[i] = X[i]; for (int i = 0; i < k * k; i++) W.local_data()[i] = W0[i];
  delete[] q.h->_buff_kxk; delete[] q.h->_buff_2lxk; q.h->_buff_kxk = new double[k * k]; q.h->_buff_2lxk = new double[k * 2 * (lmax + 1)];
  q.h->symMatTimesInverseTimesMatTrans(be, W, al, XM);
  Bfgs B(q.h->sigma); for (int i = H.first(); i < K; i++) B.add(H.s[i], H.y[i]);
  double a = B.B[0] + dx[0], b = B.B[1], c = B.B[2], d = B.B[3] + dx[1], det = a * d - b * c;
  for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) {
    double z0 = (d * X[j * 2] - b * X[j * 2 + 1]) / det, z1 = (a * X[j * 2 + 1] - c * X[j * 2]) / det;
    vf_assert_eq(W.local_data()[i * k + j], be * W0[i * k + j] + al * (X[i * 2] * z0 + X[i * 2 + 1] * z1), "weighted product with the inverse");
  }
  vf_reach("computed");
}
// pairs of any size: short steps keep the secant condition and the inverse
VF_HARNESS(small, 0, "tiny,normal") {
  vf_exact(1); vfs_concrete = 2;
  Q q({K_FREE, K_FREE}, {}, 1, "sigma0"); q.upd();
  int c = vf_choose("scale", 3); double sc = c == 0 ? 0x1p-40 : c == 1 ? 0x1p-24 : 0x1p10;
  DV s = {0.75 * sc, 1. * sc}, y = {2. * s[0], vf_in("t", 0.5, 2.) * s[1]}; q.pair(s, y);
  vf_assert(q.h->l_curr == 1, "pair stored");
  HV sl(s), r(DV{7., 7.}); q.h->timesVec(0., r.v, 1., sl.v); eqd(DV{r.v.local_data()[0] / sc, r.v.local_data()[1] / sc}, DV{y[0] / sc, y[1] / sc}, "secant condition");
  HV dx(DV{0., 0.}), x(DV{3., 4.}), rhs(y); q.h->updateLogBarrierDiagonal(dx.v); q.h->solve(rhs.v, x.v); eqd(DV{x.v.local_data()[0] / sc, x.v.local_data()[1] / sc}, DV{s[0] / sc, s[1] / sc}, "inverse secant condition");
  vf_reach(c == 0 ? "tiny" : "normal");
}
// 5 variables, memory up to 6, histories of up to 8 pairs: fixed steps, the last gradient change has one arbitrary entry
VF_HARNESS(large, 0, "full,shifted") {
  vf_exact(1); vfs_concrete = 2; const int n = 5;
  static const int LK[7][2] = {{1, 1}, {2, 2}, {3, 3}, {3, 5}, {4, 6}, {6, 6}, {6, 8}}; int c = vf_choose("history", vf_thorough() ? 7 : 5), lmax = LK[c][0], K = LK[c][1];
  Q q({K_LOW, K_UPP, K_FREE, K_BOTH, K_LOW}, {}, lmax); q.upd();
  std::vector<DV> S, Y; int w = vf_choose("entry", n);
  for (int k = 0; k < K; k++) {
    DV s(n), y(n); for (int i = 0; i < n; i++) { s[i] = ((i * 3 + k * 5) % 7 - 2.5) / 2.; y[i] = s[i] * (1. + (i + k) % 3); }
    if (k == K - 1) { double t = vf_in("t", 0.25, 4.); y[w] = s[w] * t; }
    q.pair(s, y); S.push_back(s); Y.push_back(y);
  }
  int f = std::max(0, K - lmax), l = K - f; vf_assert(q.h->l_curr == l, "all pairs with sufficient curvature are stored, at most the memory length");
  for (int k = 0; k < l; k++) for (int i = 0; i < n; i++) { vf_assert_eq(q.h->St_->local_data()[k * n + i], S[f + k][i], "stored step"); vf_assert_eq(q.h->Yt_->local_data()[k * n + i], Y[f + k][i], "stored gradient change"); }
  DV B(n * n, 0.); for (int i = 0; i < n; i++) B[i * n + i] = q.h->sigma;
  for (int k = f; k < K; k++) { DV bs(n, 0.); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) bs[i] = bs[i] + B[i * n + j] * S[k][j]; double sbs = dot(bs, S[k]), sy = dot(S[k], Y[k]); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) B[i * n + j] = B[i * n + j] - bs[i] * bs[j] / sbs + Y[k][i] * Y[k][j] / sy; }
  DV x = symv(n, "v"), dx(n); for (int i = 0; i < n; i++) dx[i] = 0.5 * (i % 3); HV xv(x), y(DV(n, 7.)), Dx(dx);
  q.h->timesVec_noLogBarrierTerm(0., y.v, 1., xv.v);
  DV e(n, 0.); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) e[i] = e[i] + B[i * n + j] * x[j];
  eqv(y.v, e, "product with the BFGS matrix");
  HV sl(S[K - 1]); q.h->timesVec_noLogBarrierTerm(0., y.v, 1., sl.v); eqv(y.v, Y[K - 1], "secant condition");
  q.h->updateLogBarrierDiagonal(Dx.v); HV sol(DV(n, 3.)); q.h->solve(xv.v, sol.v); const double* X = sol.v.local_data();
  for (int i = 0; i < n; i++) { double v = dx[i] * X[i]; for (int j = 0; j < n; j++) v = v + B[i * n + j] * X[j]; vf_assert_eq(v, x[i], "inverse times matrix"); }
  vf_reach(K > lmax ? "shifted" : "full");
}

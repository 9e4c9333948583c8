// KKT linear systems of mixed dense-sparse and sparse problems: arbitrary data, optionally on a KKT object with a past
#ifndef KKTSP_HPP
#define KKTSP_HPP
#include "sm.hpp"
#include "kkt.hpp"
// writes v (dense row-major, only where the pattern is present) into the matrix
static inline void put_dense(hiopMatrix* M, const DV& v) {
  int m = M->m(), n = M->n();
  if (auto* b = dynamic_cast<hiopMatrixMDS*>(M)) {
    auto* s = const_cast<hiopMatrixSparse*>(b->sp_mat()); int ns = s->n();
    for (int k = 0; k < s->numberOfNonzeros(); k++) s->M()[k] = v[s->i_row()[k] * n + s->j_col()[k]];
    for (int i = 0; i < m; i++) for (int j = ns; j < n; j++) b->de_local_data()[i * (n - ns) + j - ns] = v[i * n + j];
  } else if (auto* b = dynamic_cast<hiopMatrixSymBlockDiagMDS*>(M)) {
    auto* s = const_cast<hiopMatrixSparse*>(b->sp_mat()); int ns = s->n(), nd = n - ns;
    for (int k = 0; k < s->numberOfNonzeros(); k++) s->M()[k] = v[s->i_row()[k] * n + s->j_col()[k]];
    for (int i = 0; i < nd; i++) for (int j = 0; j < nd; j++) b->de_local_data()[i * nd + j] = v[(ns + i) * n + ns + j];
  } else { auto* s = dynamic_cast<hiopMatrixSparse*>(M); for (int k = 0; k < s->numberOfNonzeros(); k++) s->M()[k] = v[s->i_row()[k] * n + s->j_col()[k]]; }
}
static inline void put_pattern(hiopMatrix* M, const std::vector<int>& on) { // on: dense row-major 0/1 over the columns of M
  auto* b = dynamic_cast<hiopMatrixMDS*>(M); hiopMatrixSparse* s = b ? const_cast<hiopMatrixSparse*>(b->sp_mat()) : dynamic_cast<hiopMatrixSparse*>(M);
  int k = 0, n = M->n(); for (int i = 0; i < (int)s->m(); i++) for (int j = 0; j < (int)s->n(); j++) if (on[i * n + j]) { s->i_row()[k] = i; s->j_col()[k] = j; k++; }
  vf_assert(k == s->numberOfNonzeros(), "pattern size");
}
// Prob: MProb or SProb; N: the formulation
template <class Prob, class NLP> struct KS {
  DProb p; Prob q; NlpFix<Prob, NLP> F; NLP& N; hiopIterate it, it0, dir; hiopResidual r; hiopVector* g; hiopMatrix *Jc, *Jd, *H;
  AnyDelta pert; AcceptAll fa; int n, me, mi, reg; bool constant; DV h, jc, jd, h0, jc0, jd0, wx, wd, cc, cd; std::vector<int> onc, ond;
  // hoff: the off-diagonal Hessian entries present (upper triangle, dense row-major), ignored for MDS
  template <class... A> KS(std::vector<int> kx, std::vector<int> kc, int reg_, const std::vector<int>& hpat, bool dual0, bool constant_, A... a) : p(kx, kc, true, false), q(p, a...), F(q), N((F.init(), F.nlp)), it(&N), it0(&N), dir(&N), r(&N), reg(reg_), constant(constant_) {
    vfs_inertia = 0; vfs_concrete = 1;
    n = N.n(); me = N.m_eq(); mi = N.m_ineq();
    free_slacks(N, it); moderate(N, it); int fm = vf_fmod_; if (fm) vf_focus(0, 0); any_resid(N, r); if (fm) vf_focus(fm, -1);
    it0.copyFrom(it); // the past iterate: powers of two
    auto pw = [](hiopVector* v, const hiopVector* pat, int s) { for (int i = 0; i < v->get_local_size(); i++) v->local_data()[i] = !pat || pat->local_data_const()[i] == 1. ? ldexp(1., (s + i) % 3) : 0.; };
    pw(it0.sxl, &N.get_ixl(), 0); pw(it0.sxu, &N.get_ixu(), 1); pw(it0.sdl, &N.get_idl(), 2); pw(it0.sdu, &N.get_idu(), 0); pw(it0.zl, &N.get_ixl(), 1); pw(it0.zu, &N.get_ixu(), 2); pw(it0.vl, &N.get_idl(), 0); pw(it0.vu, &N.get_idu(), 1); pw(it0.x, nullptr, 0); pw(it0.d, nullptr, 1); pw(it0.yc, nullptr, 0); pw(it0.yd, nullptr, 1);
    for (auto v : {dir.x, dir.d, dir.yc, dir.yd, dir.sxl, dir.sxu, dir.sdl, dir.sdu, dir.zl, dir.zu, dir.vl, dir.vu}) v->setToConstant(0.125);
    g = N.alloc_primal_vec(); fill(g, "gr"); Jc = N.alloc_Jac_c(); Jd = N.alloc_Jac_d();
    bool relax = std::is_same<NLP, hiopNlpSparseIneq>::value;
    for (int j = 0; j < p.m; j++) for (int i = 0; i < n; i++) { bool eq = p.kc[j] == K_EQ && !relax; (eq ? onc : ond).push_back(q.nz(j, i)); }
    put_pattern(Jc, onc); put_pattern(Jd, ond);
    auto any = [](int m, int n, const std::vector<int>& on, const char* b, int s, DV& v, DV& v0) { v.assign(m * n, 0.); v0 = v; for (int i = 0; i < m * n; i++) if (on[i]) { v[i] = R(std::string(b) + std::to_string(i)); v0[i] = ldexp(1., (i + s) % 3); } };
    int ns = n, off = 0; auto* mp = dynamic_cast<MProb*>((hiopInterfaceBase*)&q);
    std::vector<int> oc = onc, od = ond, oh(n * n, 0);
    if (mp) { ns = mp->ns; for (int i = 0; i < n; i++) for (int j = ns; j < n; j++) { if (i < me) oc[i * n + j] = 1; if (i < mi) od[i * n + j] = 1; } for (int j = 0; j < me; j++) for (int i = ns; i < n; i++) oc[j * n + i] = 1; for (int j = 0; j < mi; j++) for (int i = ns; i < n; i++) od[j * n + i] = 1; }
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) if (mp ? i == j || i >= ns : hpat[i * n + j] != 0) { oh[i * n + j] = 1; off += 1; }
    any(me, n, oc, "Jc", 0, jc, jc0); any(mi, n, od, "Jd", 1, jd, jd0); any(n, n, oh, "H", 2, h, h0);
    if (mp) { H = N.alloc_Hess_Lagr(); auto* s = const_cast<hiopMatrixSparse*>(((const hiopMatrixSymBlockDiagMDS*)dynamic_cast<hiopMatrixSymBlockDiagMDS*>(H))->sp_mat()); for (int i = 0; i < ns; i++) s->i_row()[i] = s->j_col()[i] = i; }
    else { auto* s = new hiopMatrixSymSparseTriplet(n, off); int k = 0; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) if (oh[i * n + j]) { s->i_row()[k] = i; s->j_col()[k] = j; k++; } H = s; }
    for (auto* v : {&h, &h0}) for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) (*v)[i * n + j] = (*v)[j * n + i];
    pert.initialize(&N); pert.dual0 = dual0;
  }
  template <class L> void past(L& k) { // an earlier iteration, with a refactorization
    AcceptSecond f(pert, 0); k.set_PD_perturb_calc(&pert); k.set_fact_acceptor(&f);
    if (!constant) { put_dense(Jc, jc0); put_dense(Jd, jd0); put_dense(H, h0); } else { put_dense(Jc, jc); put_dense(Jd, jd); put_dense(H, h); }
    pert.first(); f.k = 1; // concrete regularization
    bool ok = k.update(&it0, g, Jc, Jd, H); vf_assert(ok, "factorization accepted (past)");
    hiopResidual r0(&N); for (auto v : {r0.rx, r0.rd, r0.ryc, r0.ryd}) v->setToConstant(0.5); for (auto v : {r0.rxl, r0.rxu, r0.rdl, r0.rdu, r0.rszl, r0.rszu, r0.rsvl, r0.rsvu}) v->setToZero();
    ok = k.computeDirections(&r0, &dir); vf_assert(ok, "directions computed (past)");
  }
  template <class L> void now(L& k, bool again) {
    put_dense(Jc, jc); put_dense(Jd, jd); put_dense(H, h);
    AcceptSecond f2(pert, reg); if (!again) pert.any(reg);
    k.set_PD_perturb_calc(&pert); k.set_fact_acceptor(again ? (hiopFactAcceptor*)&f2 : &fa);
    bool ok = k.update(&it, g, Jc, Jd, H); vf_assert(ok, "factorization accepted");
    wx = get(*pert.get_curr_delta_wx()); wd = get(*pert.get_curr_delta_wd()); cc = get(*pert.get_curr_delta_cc()); cd = get(*pert.get_curr_delta_cd());
  }
  template <class L> void check(L& k) {
    bool ok = k.computeDirections(&r, &dir); vf_assert(ok, "directions computed");
    newton_check(newton_lhs(N, it, dir, n, me, mi, h, jc, jd, wx, wd, cc, cd), r); vf_reach("directions");
  }
  // the direction object has zeros where there is no bound, as it has in the solver
  void clean_dir() { dir.sxl->selectPattern(N.get_ixl()); dir.zl->selectPattern(N.get_ixl()); dir.sxu->selectPattern(N.get_ixu()); dir.zu->selectPattern(N.get_ixu()); dir.sdl->selectPattern(N.get_idl()); dir.vl->selectPattern(N.get_idl()); dir.sdu->selectPattern(N.get_idu()); dir.vu->selectPattern(N.get_idu()); }
  template <class L> void run(L& k, int hist) { if (constant && hist == 2) { h = h0; jc = jc0; jd = jd0; } if (hist == 2) past(k); now(k, hist >= 1); check(k); }
};
#endif

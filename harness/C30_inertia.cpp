// vf-bounds: every sequence of up to 3 factorization reports (quick; thorough 5) from {singular, 0..m+1 negative pivots} before the loop ends or is cut, and the full give-up sequence; dense factor of order 1..4 (thorough 5) with every 1x1/2x2 pivot pattern and arbitrary pivots; every dense KKT form and Hessian kind for the required count
#include "fix.hpp"
#include "hiopPDPerturbation.hpp"
#include "hiopFactAcceptor.hpp"
#include "hiopKKTLinSys.hpp"
#include "hiopLinSolverSymDenseLapack.hpp"
#include "vfstub.h"
static std::vector<int> KX{K_LOW, K_FREE}, KC{K_EQ, K_BOTH};
struct Delta { double w, d, c, e; };
static Delta cur(const hiopPDPerturbation& P) { // without constraints the dual part is only visible in the calculator's state
  auto at = [](const hiopVector* v, double scalar) { return v->get_local_size() ? D(*v)[0] : scalar; };
  return {D(*P.get_curr_delta_wx())[0], at(P.get_curr_delta_wd(), P.delta_wd_curr_db_), at(P.get_curr_delta_cc(), P.delta_cc_curr_db_), at(P.get_curr_delta_cd(), P.delta_cd_curr_db_)};
}
struct FakeKKT : hiopKKTLinSysCurvCheck {
  std::vector<Delta> built; std::vector<int> reports; std::vector<int> script; int cap; int nreq; bool cut = false; bool pending = false;
  FakeKKT(hiopNlpFormulation* n, int cap_, int nreq_) : hiopKKTLinSysCurvCheck(n), cap(cap_), nreq(nreq_) {}
  bool update(const hiopIterate*, const hiopVector*, const hiopMatrix*, const hiopMatrix*, hiopMatrix*) { return factorize(); }
  bool computeDirections(const hiopResidual*, hiopIterate*) { return true; }
  bool test_direction(const hiopIterate*, hiopMatrix*) { return true; }
  bool build_kkt_matrix(const hiopPDPerturbation& P) {
    built.push_back(cur(P)); pending = true;
    vf_assert_eq(D(*delta_wx_)[0], built.back().w, "current regularization visible to the linear system");
    return true;
  }
  int factorizeWithCurvCheck() {
    vf_assert(pending, "every factorization is of a freshly built matrix"); pending = false;
    int k = reports.size(), r;
    if (script.size()) r = script[std::min<size_t>(k, script.size() - 1)];
    else if (k >= cap) { cut = true; r = nreq; }
    else r = vf_choose("report", nreq + 3) - 1;
    reports.push_back(r);
    return r;
  }
};
// the loop's outcome is decided by the reports; each retry must have changed the regularization
static void judge(FakeKKT& K, bool ok, int req, bool ends_early_ok) {
  int n = K.reports.size();
  vf_assert(n == (int)K.built.size(), "one matrix per factorization");
  if (ok) vf_assert(n > 0 && K.reports.back() == req, "success only with the required inertia");
  for (int i = 0; i + 1 < n; i++) {
    vf_assert(K.reports[i] != req, "a factorization with the required inertia is kept");
    Delta a = K.built[i], b = K.built[i + 1];
    bool changed = a.w != b.w || a.c != b.c;
    vf_assert(changed, "regularization changed before refactorization");
    if (K.reports[i] >= 0 || req == 0) { bool up = b.w > a.w || b.c > a.c; vf_assert(up, "regularization increased on wrong inertia"); }
  }
  if (!ok) vf_assert(n == 0 || K.reports.back() != req, "failure not reported for a factorization with the required inertia");
}
VF_HARNESS(loop, 0, "done") {
  bool cons = vf_choose("constrained", 2);
  DProb p(KX, cons ? KC : std::vector<int>{}, true, false); NlpFix<> F(p); F.init();
  int req = cons ? F.nlp.m_eq() + F.nlp.m_ineq() : 0;
  FakeKKT K(&F.nlp, vf_thorough() ? 5 : 3, req);
  hiopPDPerturbationPrimalFirstScalar P; P.initialize(&F.nlp); double mu = vf_in("mu", 1e-9, 10.); P.set_mu(mu);
  hiopFactAcceptorIC A(&P, req); K.set_PD_perturb_calc(&P); K.set_fact_acceptor(&A);
  for (int s = 0; s < (vf_thorough() ? 2 : 1); s++) { K.reports.clear(); K.built.clear(); bool ok = K.factorize(); judge(K, ok, req, false); vf_assert(ok, "some correction always possible with the default limits"); }
  vf_reach("done");
}
// the regularization limit: the loop reports failure instead of looping on or accepting
VF_HARNESS(limit, 0, "ok,failed,failed_singular,failed_free,failed_unconstrained") {
  int kind = vf_choose("acceptor", 4); bool cons = kind < 3, ic = kind != 2; // inertia test on wrong inertia / on singularity, curvature test, no constraints
  bool free_uncons = kind == 2 && vf_choose("unconstrained", 2); if (free_uncons) cons = false;
  DProb p(KX, cons ? KC : std::vector<int>{}, true, false); NlpFix<> F(p);
  double wmax = vf_in("wmax", 1e-4, 1e3); F.num("delta_w_max_bar", wmax); F.init();
  int req = cons ? 2 : 0;
  FakeKKT K(&F.nlp, vf_thorough() ? 6 : 5, req);
  hiopPDPerturbationPrimalFirstScalar P; P.initialize(&F.nlp); P.set_mu(1e-4);
  hiopFactAcceptorIC A(&P, req); hiopFactAcceptorInertiaFreeDWD B(&P, req); K.set_PD_perturb_calc(&P); K.set_fact_acceptor(ic ? (hiopFactAcceptor*)&A : &B);
  if (kind == 0) K.script = vf_choose("then_good", 2) ? std::vector<int>{1, 1, 1, 1, 2} : vf_choose("kind", 2) ? std::vector<int>{3} : std::vector<int>{-1, 1};
  else if (kind == 3) K.script = vf_choose("then_good", 2) ? std::vector<int>{-1, 1, -1, 0} : std::vector<int>{-1};
  else K.script = vf_choose("then_good", 2) ? std::vector<int>{-1, -1, -1, -1, req} : ic && vf_choose("kind", 2) ? std::vector<int>{1, -1} : std::vector<int>{-1};
  bool ok = K.factorize();
  judge(K, ok, req, true);
  for (Delta& d : K.built) vf_assert_le(d.w, wmax, "never factorized with more than the maximum");
  vf_reach(ok ? "ok" : kind == 0 ? "failed" : kind == 1 ? "failed_singular" : kind == 2 ? "failed_free" : "failed_unconstrained");
}
// the second limit: a direction rejected by the curvature test cannot be regularized further
VF_HARNESS(limit_curvature, 0, "ok,failed") {
  bool cons = vf_choose("constrained", 2);
  DProb p(KX, cons ? KC : std::vector<int>{}, true, false); NlpFix<> F(p);
  double wmax = vf_in("wmax", 1e-4, 1e3); F.num("delta_w_max_bar", wmax); F.init();
  hiopPDPerturbationPrimalFirstScalar P; P.initialize(&F.nlp); P.set_mu(1e-4); vf_assert(P.compute_initial_deltas(), "initial");
  hiopFactAcceptorInertiaFreeDWD B(&P, cons ? 2 : 0);
  for (int i = 0; i < 4; i++) {
    double before = cur(P).c; int r = B.requireReFactorization(F.nlp, vf_choose("report", 2) ? 2 : 0, true); Delta d = cur(P);
    if (r == -1) { vf_assert(before > 0., "dual regularization tried before giving up"); vf_reach("failed"); return; }
    vf_assert(r == 1, "re-regularized"); vf_assert_le(d.w, wmax, "the refactorization stays within the maximum");
  }
  vf_reach("ok");
}
VF_HARNESS(give_up, 0, "done") {
  DProb p(KX, KC, true, false); NlpFix<> F(p); F.init();
  FakeKKT K(&F.nlp, 0, 2);
  hiopPDPerturbationPrimalFirstScalar P; P.initialize(&F.nlp); double mu = vf_in("mu", 1e-9, 10.); P.set_mu(mu);
  hiopFactAcceptorIC A(&P, 2); K.set_PD_perturb_calc(&P); K.set_fact_acceptor(&A);
  static const std::vector<int> s[] = {{1}, {-1}, {0}, {3}, {-1, 1}, {-1, -1, 1}, {1, -1}};
  K.script = s[vf_choose("script", 7)];
  bool ok = K.factorize();
  vf_assert(!ok, "gives up"); vf_assert(K.reports.size() <= 12, "bounded number of factorizations"); vf_assert(K.reports.size() >= 3, "several corrections attempted");
  judge(K, ok, 2, true);
  vf_reach("done");
}
// curvature-free acceptance: only singular (or indefinite, when definiteness is required) matrices and rejected directions are re-regularized
VF_HARNESS(inertia_free, 0, "done") {
  bool cons = vf_choose("constrained", 2);
  DProb p(KX, cons ? KC : std::vector<int>{}, true, false); NlpFix<> F(p); F.init();
  int req = cons ? 2 : 0;
  hiopPDPerturbationPrimalFirstScalar P; P.initialize(&F.nlp); P.set_mu(vf_in("mu", 1e-9, 10.)); vf_assert(P.compute_initial_deltas(), "initial");
  hiopFactAcceptorInertiaFreeDWD A(&P, req);
  for (int i = 0; i < 2; i++) {
    int rep = vf_choose("report", 5) - 1; bool force = vf_choose("force", 2);
    Delta a = cur(P); if (!cons) a.c = a.e = 0;
    int r = A.requireReFactorization(F.nlp, rep, force);
    Delta b = cur(P); if (!cons) b.c = b.e = 0;
    bool same = a.w == b.w && a.c == b.c;
    if (rep >= 0 && !force) { vf_assert(r == 0, "accepted"); vf_assert(same, "accepted without change"); }
    else { vf_assert(r == 1, "rejected"); vf_assert(!same, "rejected with more regularization"); if (rep >= 0) { bool up = b.w > a.w; vf_assert(up, "wrong curvature raises the primal regularization"); } }
  }
  FakeKKT K(&F.nlp, 0, req); K.set_PD_perturb_calc(&P); K.set_fact_acceptor(&A);
  K.script = vf_choose("singular", 2) ? std::vector<int>{-1, 0} : std::vector<int>{1};
  Delta a = cur(P); bool ok = K.factorize_inertia_free();
  vf_assert(ok, "re-regularized"); vf_assert(K.reports.back() >= 0, "ends with a nonsingular factorization"); bool up = K.built[0].w > a.w; vf_assert(up, "regularization raised before the matrix is rebuilt");
  vf_reach("done");
}
// inertia from the block-diagonal factor of LAPACK
VF_HARNESS(dense_inertia, 0, "pos,singular") {
  DProb p(KX, {}, true, false); NlpFix<> F(p); F.init();
  int n = 1 + vf_choose("n", vf_thorough() ? 5 : 4);
  hiopLinSolverSymDenseLapack S(n, &F.nlp);
  double* A = S.sysMatrix().local_data();
  vfs_dsytrf_custom = 1; vfs_info = 0;
  int neg = 0; bool sing = false;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A[i * n + j] = i == j ? 0. : 77. + i * 8 + j;
  const double T = 1e-14;
  for (int k = 0; k < n;) {
    if (k + 1 < n && vf_choose("block", 2)) {
      double a = R("d"), c = R("d"), s = R("s"); vf_assume_ne(s, 0); vf_assume(a * c - s * s < 0); // Bunch-Kaufman: a 2x2 pivot is indefinite
      A[k * n + k] = a; A[(k + 1) * n + k + 1] = c; A[k * n + k + 1] = s; // lower triangle in column-major storage
      vfs_ipiv[k] = vfs_ipiv[k + 1] = -(k + 2);
      double as = dabs_(s), q = (a * c - s * s) / as; 
      vf_assume(q < -2 * T); vf_assume(as > 2 * T); neg++; k += 2;
    } else {
      double d = R("d"); A[k * n + k] = d; vfs_ipiv[k] = k + 1;
      if (d < -T) neg++; else if (d < T) sing = true;
      k++;
    }
  }
  int r = S.matrixChanged();
  if (sing) { vf_assert(r == -1, "tiny pivot reported as singular"); vf_reach("singular"); }
  else { vf_assert(r == neg, "number of negative eigenvalues"); vf_reach("pos"); }
}
VF_HARNESS(dense_failures, 0, "done") {
  DProb p(KX, {}, true, false); NlpFix<> F(p); F.init();
  int n = 1 + vf_choose("n", 3);
  hiopLinSolverSymDenseLapack S(n, &F.nlp);
  double* A = S.sysMatrix().local_data(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) A[i * n + j] = i == j ? vf_pos("d") : 0.;
  for (int i = 0; i < n; i++) vfs_ipiv[i] = i + 1;
  vfs_dsytrf_custom = 1; vfs_info = vf_choose("info", 3) - 1;
  int r = S.matrixChanged();
  if (vfs_info != 0) vf_assert(r == -1, "failed factorization reported as singular"); 
  vf_reach("done");
}

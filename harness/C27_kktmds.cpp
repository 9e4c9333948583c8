// vf-bounds: up to 2 sparse and 2 dense variables of every bound kind, up to 3 constraints of every kind (7 variables with 7 constraints for fixed matrices) with arbitrary sparsity patterns, fresh and reused KKT objects, refactorizations; inequality slacks and multipliers in [1e-8,1e8], arbitrary diagonal sparse Hessian block, dense Hessian block, Jacobians, interior iterate, residual and nonnegative regularization vectors; linear solves by contract; whole runs of 2-3 iterations on fixed problems (2 variables, 1-2 constraints) with arbitrary objective values
#include "kktsp.hpp"
#include "hiopKKTLinSysMDS.hpp"
#include "runobs.hpp"
typedef KS<MProb, hiopNlpMDS> K;
static const std::vector<std::vector<int>>& conf() { static std::vector<std::vector<int>> c = {{K_EQ, K_LOW}, {K_BOTH}, {K_EQ}, {}, {K_UPP, K_EQ, K_EQ}, {K_LOW, K_EQ, K_UPP}}; return c; }
static void direction(int ns, int nd, int hist) {
  int c = vf_choose("cons", 6), reg = vf_choose("reg", 2); int n = ns + nd; std::vector<int> kx;
  const int kk[4] = {K_BOTH, K_FREE, K_LOW, K_UPP}; int sh = vf_thorough() ? vf_choose("kx", 4) : c % 4; for (int i = 0; i < n; i++) kx.push_back(kk[(i + sh) % 4]);
  if (nd == 0 && conf()[c].empty()) return; // nothing dense to factorize
  int m = conf()[c].size(), pt = vf_choose("pattern", 3); std::vector<int> mask(m * n, 1); if (pt) for (int j = 0; j < m; j++) for (int i = 0; i < ns; i++) mask[j * n + i] = pt == 1 ? (i + j) % 2 == 0 : (i + j) % 2 == 1 || j == 2;
  K k(kx, conf()[c], reg, {}, false, false, ns, mask);
  // (1,1) sparse block nonzero
  auto w = [&](int i) { double v = k.h[i * n + i]; if (kx[i] & 1) v = v + D(k.it.zl)[i] / D(k.it.sxl)[i]; if (kx[i] & 2) v = v + D(k.it.zu)[i] / D(k.it.sxu)[i]; return v; };
  k.pert.hook = [&] { for (int i = 0; i < ns; i++) vf_assume_ne(w(i) + D(*k.pert.get_curr_delta_wx())[i], 0.); };
  hiopKKTLinSysCompressedMDSXYcYd sys(&k.N); k.run(sys, hist);
}
VF_HARNESS(fresh, 0, "directions") { direction(1 + vf_choose("ns", 2), 1, 0); }
VF_HARNESS(sparse_only, 0, "directions") { direction(2, 0, 0); }
VF_HARNESS(dense_only, 0, "directions") { direction(0, 2, 0); }
VF_HARNESS(refactorized, 0, "directions") { direction(1, 1, 1); }
VF_HARNESS(reused, 0, "directions") { direction(2, 1, 2); }
VF_HARNESS(deep, 1, "directions") { direction(2, 2, vf_choose("past", 3)); }
// curvature check: the negative eigenvalues of the dense system plus those of the eliminated diagonal block, or "singular"
struct Count : hiopFactAcceptor { int neg = -99; Count() : hiopFactAcceptor(nullptr) {} int requireReFactorization(const hiopNlpFormulation&, const int& n, const bool = false) { neg = n; return 0; } };
VF_HARNESS(inertia, 0, "counted,singular") {
  int ns = 1 + vf_choose("ns", 2), nd = vf_choose("nd", 2), n = ns + nd; const int kk[4] = {K_BOTH, K_FREE, K_LOW, K_UPP}; int cc = vf_choose("cons", 2), sh = vf_thorough() ? vf_choose("kx", 4) : 2 * cc + nd; std::vector<int> kx; for (int i = 0; i < n; i++) kx.push_back(kk[(i + sh) % 4]);
  std::vector<int> kc = cc ? std::vector<int>{K_LOW} : std::vector<int>{K_EQ, K_BOTH};
  K k(kx, kc, 1, {}, false, false, ns, std::vector<int>(kc.size() * n, 1)); Count cn;
  int dim = nd + kc.size(); vfs_inertia = vf_choose("dense negative eigenvalues", dim + 2); if (vfs_inertia > dim) vfs_inertia = -3; // singular
  bool sing = vfs_inertia == -3;
  put_dense(k.Jc, k.jc); put_dense(k.Jd, k.jd); put_dense(k.H, k.h); k.pert.any(1);
  int neg = 0, zero = 0;
  for (int i = 0; i < ns; i++) {
    double v = k.h[i * n + i]; if (kx[i] & 1) v = v + D(k.it.zl)[i] / D(k.it.sxl)[i]; if (kx[i] & 2) v = v + D(k.it.zu)[i] / D(k.it.sxu)[i]; v = v + D(*k.pert.get_curr_delta_wx())[i];
    for (double e : {0., 1e-14, -1e-14}) vf_assume_ne(v, e);
    if (v < -1e-14) neg++; else if (v < 1e-14) zero++;
  }
  hiopKKTLinSysCompressedMDSXYcYd sys(&k.N); sys.set_PD_perturb_calc(&k.pert); sys.set_fact_acceptor(&cn);
  bool ok = sys.update(&k.it, k.g, k.Jc, k.Jd, k.H); vf_assert(ok, "factorization accepted");
  vf_assert(cn.neg == (sing || zero ? -1 : vfs_inertia + neg), "negative eigenvalues of the mixed dense-sparse system");
  vf_reach(sing || zero ? "singular" : "counted");
}
// 7 variables, 7 constraints: fixed matrices, iterates and regularization, arbitrary right-hand sides
VF_HARNESS(large, 0, "directions") {
  vf_exact(1); vf_focus(100, -1);
  static const std::vector<std::vector<int>> C = {{K_EQ, K_LOW, K_EQ, K_UPP, K_BOTH, K_EQ, K_LOW}, {K_LOW, K_UPP, K_BOTH, K_LOW, K_UPP}, {K_EQ, K_EQ, K_EQ, K_EQ}}; auto& kc = C[vf_choose("cons", 3)];
  int ns = vf_choose("ns", 2) ? 5 : 3, pt = vf_choose("pattern", 3); std::vector<int> mask(kc.size() * 7, 1); for (size_t k = 0; k < mask.size(); k++) if ((int)(k % 7) < ns) mask[k] = pt == 0 || (pt == 1 ? k % 3 != 0 : k % 4 == 1);
  K k({K_LOW, K_BOTH, K_FREE, K_UPP, K_BOTH, K_LOW, K_FREE}, kc, 1, {}, false, false, ns, mask);
  hiopKKTLinSysCompressedMDSXYcYd sys(&k.N); k.run(sys, vf_choose("past", 3));
}
VF_HARNESS(run_directions, 0, "iterated") { int cfg = 2 * vf_choose("cfg", 2); obs_run(OB_DIR, true, cfg, 3); } // whole runs

// vf-bounds: systems of dimension 1 and 2; operators whose every product is an arbitrary vector (a superset of all linear operators), arbitrary preconditioners, right-hand sides and initial guesses in [-100,100], tolerances in (0,1], up to 2 iterations; exact solution property: symmetric positive definite systems of dimension 1..2 (conjugate gradients: and 4, 5) from a family of concrete matrices
#include "hc.hpp"
#include "hiopKrylovSolver.hpp"
#include "hiopLinearOperator.hpp"
static DV bounded(int n, const char* b) { DV r(n); for (int i = 0; i < n; i++) r[i] = vf_in(nm(b, i).c_str(), -100., 100.); return r; }
// every product returns an arbitrary vector; the calls are recorded
struct AnyOp : hiopLinearOperator {
  const char* b; std::vector<DV> in, out; AnyOp(const char* b_) : b(b_) {}
  bool times_vec(hiopVector& y, const hiopVector& x) { DV i = get(x), o = bounded((int)i.size(), b); in.push_back(i); out.push_back(o); put(y, o); return true; }
  bool trans_times_vec(hiopVector& y, const hiopVector& x) { return times_vec(y, x); }
};
struct MatOp : hiopLinearOperator {
  DV a; int calls = 0; MatOp(const DV& a_) : a(a_) {}
  bool times_vec(hiopVector& y, const hiopVector& x) { calls++; DV i = get(x), o(i.size(), 0.); size_t n = i.size(); for (size_t r = 0; r < n; r++) for (size_t c = 0; c < n; c++) o[r] = o[r] + a[r * n + c] * i[c]; put(y, o); return true; }
  bool trans_times_vec(hiopVector& y, const hiopVector& x) { return times_vec(y, x); }
};
static double n2(const DV& v) { double s = 0; for (double x : v) s = s + x * x; vf_hint_nonneg(s); return sqrt(s); }
template <class S> static void any(int n, int maxit) {
  AnyOp A("A"), M("M"); hiopVectorPar x0v(n); int given = vf_choose("x0", 2); DV x0(n, 0.);
  if (given) { x0 = bounded(n, "x0_"); put(x0v, x0); }
  S s(n, &A, vf_choose("prec", 2) ? &M : nullptr, nullptr, given ? &x0v : nullptr);
  double tol = vf_in("tol", 1e-6, 1.); s.set_tol(tol); s.set_max_num_iter(maxit);
  DV b = bounded(n, "b"); hiopVectorPar v(n); put(v, b);
  bool ok = s.solve(&v); DV x = get(v);
  int per = std::is_same<S, hiopPCGSolver>::value ? 1 : 2;
  vf_assert((int)M.in.size() <= per * maxit, "preconditioner applications within the iteration cap");
  vf_assert((int)A.in.size() <= 2 + 2 * per * maxit, "operator applications within the iteration cap");
  if (!ok) { vf_assert(s.get_convergence_flag() != 0, "failure is flagged"); vf_reach("failure"); return; }
  vf_assert(s.get_convergence_flag() == 0, "success is flagged"); vf_assert_le(s.get_sol_num_iter(), maxit, "iterations within the cap");
  double nb = n2(b);
  if (A.in.empty()) { for (int i = 0; i < n; i++) { vf_assert_eq(b[i], 0., "trivial success only for a zero right-hand side"); vf_assert_eq(x[i], 0., "zero solution"); } vf_reach("zero"); return; }
  for (int k = (int)A.in.size() - 1; k >= 0; k--) {
    bool same = true; for (int i = 0; i < n && same; i++) if (!(A.in[k][i] == x[i])) same = false;
    if (!same) continue;
    DV r(n); for (int i = 0; i < n; i++) r[i] = b[i] - A.out[k][i];
    vf_assert_le(n2(r), tol * nb, "true residual within the tolerance");
    vf_assert_eq(s.get_sol_abs_resid(), n2(r), "reported residual"); vf_assert_eq(s.get_sol_rel_resid() * nb, n2(r), "reported relative residual");
    vf_reach("success"); return;
  }
  vf_assert(false, "returned vector has no verified residual");
}
VF_HARNESS(pcg1, 0, "failure,success,zero") { any<hiopPCGSolver>(1, 1 + vf_choose("maxit", 2)); }
VF_HARNESS(pcg2, 0, "failure,success,zero") { any<hiopPCGSolver>(2, 1); }
VF_HARNESS(bicg1, 0, "failure,success,zero") { any<hiopBiCGStabSolver>(1, 1 + vf_choose("maxit", vf_thorough() ? 2 : 1)); }
VF_HARNESS(bicg2, 1, "failure,success,zero") { any<hiopBiCGStabSolver>(2, 1); }
// exact arithmetic: conjugate gradients solve symmetric positive definite systems within n iterations, BiCGStab too unless it breaks down; solver objects can be reused
template <class S> static void spd(bool cg) {
  vf_exact(1); int n = 1 + vf_choose("n", cg || vf_thorough() ? 2 : 1);
  static const DV M2[4] = {{2., 0., 0., 2.}, {2., 1., 1., 3.}, {1., -0.5, -0.5, 4.}, {3., 0., 0., 0.5}};
  int m = vf_choose("A", 4); DV a = n == 2 ? M2[m] : DV{m + 0.5};
  MatOp A(a), P(n == 2 ? DV{1. / a[0], 0., 0., 1. / a[3]} : DV{1. / a[0]});
  S s(n, &A, vf_choose("prec", 2) ? &P : nullptr, nullptr); s.set_tol(1e-9); s.set_max_num_iter(n);
  for (int rep = 0; rep < 2; rep++) {
    DV b(n); int w = vf_choose("b", 3); for (int i = 0; i < n; i++) b[i] = i == w ? vf_in("t", -100., 100.) : 1. - 3. * i;
    hiopVectorPar v(n); put(v, b); s.set_x0(0.); A.calls = 0; bool ok = s.solve(&v);
    if (cg) vf_assert(ok, "conjugate gradients converge within n iterations");
    if (ok) { DV x = get(v); for (int i = 0; i < n; i++) { double r = -b[i]; for (int j = 0; j < n; j++) r = r + a[i * n + j] * x[j]; vf_assert(dabs_(r) <= 1e-6, "residual"); } vf_reach(rep ? "again" : "solved"); }
    else break;
  }
}
VF_HARNESS(cg_exact, 0, "solved,again") { spd<hiopPCGSolver>(true); }
VF_HARNESS(bicg_exact, 0, "solved,again") { spd<hiopBiCGStabSolver>(false); }
// BiCGStab on 2x2 systems with one product per half step: one iteration
VF_HARNESS(bicg_exact2, 0, "solved,failed") {
  vf_exact(1); static const DV M2[3] = {{2., 0., 0., 2.}, {1., -0.5, -0.5, 4.}, {2., 1., -1., 2.}};
  DV a = M2[vf_choose("A", 3)]; MatOp A(a); hiopBiCGStabSolver s(2, &A, nullptr, nullptr); s.set_tol(1e-6); s.set_max_num_iter(1);
  DV b = {vf_in("t", -100., 100.), 1.}; if (vf_choose("swap", 2)) std::swap(b[0], b[1]); hiopVectorPar v(2); put(v, b); bool ok = s.solve(&v); DV x = get(v), r(2);
  for (int i = 0; i < 2; i++) r[i] = b[i] - a[2 * i] * x[0] - a[2 * i + 1] * x[1];
  if (ok) { vf_assert_le(r[0] * r[0] + r[1] * r[1], 1e-12 * (b[0] * b[0] + b[1] * b[1]) * (1 + 1e-6), "true residual within the tolerance"); vf_reach("solved"); }
  else { vf_assert_eq(s.get_sol_abs_resid() * s.get_sol_abs_resid(), r[0] * r[0] + r[1] * r[1], "reported residual of the best iterate"); vf_assert_le(r[0] * r[0] + r[1] * r[1], b[0] * b[0] + b[1] * b[1], "not worse than the initial guess"); vf_reach("failed"); }
}
// longer vectors: diagonally dominant fixed matrices, one symbolic entry of the right-hand side
VF_HARNESS(cg_large, 0, "solved,again") {
  vf_exact(1); int n = vf_choose("n", 2) ? 5 : 4, w = vf_choose("b", n); DV a(n * n), pd(n * n, 0.);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i * n + j] = i == j ? 2. + i % 2 : (i * j) % 2 ? 0.5 : 0.;
  for (int i = 0; i < n; i++) pd[i * n + i] = 1. / a[i * n + i];
  MatOp A(a), P(pd); hiopPCGSolver s(n, &A, vf_choose("prec", 2) ? &P : nullptr, nullptr); s.set_tol(1e-9); s.set_max_num_iter(n);
  for (int rep = 0; rep < 2; rep++) {
    DV b(n); for (int i = 0; i < n; i++) b[i] = i == w ? vf_in("t", -100., 100.) : 0.; if (rep) b[(w + 1) % n] = 1.;
    hiopVectorPar v(n); put(v, b); s.set_x0(0.); bool ok = s.solve(&v); vf_assert(ok, "conjugate gradients converge within n iterations");
    DV x = get(v); for (int i = 0; i < n; i++) { double r = -b[i]; for (int j = 0; j < n; j++) r = r + a[i * n + j] * x[j]; vf_assert(dabs_(r) <= 1e-6, "residual"); } vf_reach(rep ? "again" : "solved");
  }
}

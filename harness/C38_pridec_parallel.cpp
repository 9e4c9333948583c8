// vf-bounds: 2..4 ranks, 1..4 recourse terms per rank pattern (quick: up to 3 ranks with 3 terms and 2 outer iterations), every distinguishable completion order of the workers with up to two idle polls of the root in a row, eager and rendezvous sends, both communication schemes; arbitrary recourse values and gradients (one iteration), fixed ones (several)
#include "hc.hpp"
#include "mpiw.hpp"
#include "hiopAlgPrimalDecomp.hpp"
#include "hiopInterfacePrimalDecomp.hpp"
struct Term { double f; DV g; };
static int S, N, NC, ITERS, W_; static std::vector<Term> T; static std::vector<std::vector<int>> ev, eg; static std::vector<DV> X; static DV OBJ; static std::vector<int> IDX;
static double xk(int k, int i) { static const double v[4][3] = {{1, 2, -1}, {.5, -2, 4}, {3, 1, .25}, {-1, 8, 2}}; return v[k][i]; }
// one rank's problem; the terms depend on the point linearly so that a wrong point is seen
struct Prob : hiopInterfacePriDecProblem {
  int me, nsolve = 0, nf = 0, ng = 0; RecourseApproxEvaluator* e = nullptr; Prob(int m) : me(m) {}
  hiopSolveStatus solve_master(hiopVector& x, const bool& inc, const double&, const double*, const double*, const char*) override {
    vf_assert(me == 0, "only the root solves the master problem"); vf_assert(inc == (nsolve > 0), "the first master problem has no recourse model, the others have"); int it = nsolve - 1; 
    if (inc) { vf_assert(e != nullptr, "model is set");
      for (int t = 0; t < S; t++) { vf_assert(ev[it][t] == 1, "every recourse term is evaluated once per iteration"); vf_assert(eg[it][t] == 1, "every recourse gradient is evaluated once per iteration"); }
      double f = 0; DV g(NC, 0.); for (int t = 0; t < S; t++) { f += T[t].f; for (int i = 0; i < NC; i++) { double d = xk(it, IDX[i]); f += (t + 1) * d; g[i] += T[t].g[i] + d; } }
      vf_assert_eq(e->get_rval(), f / S, "recourse value is the average of the terms");
      for (int i = 0; i < NC; i++) { vf_assert_eq(e->get_rgrad()->local_data()[i], g[i] / S, "recourse gradient is the average of the terms"); vf_assert_eq(e->get_x0()->local_data()[i], xk(it, IDX[i]), "reference point"); } }
    for (int i = 0; i < N; i++) x.local_data()[i] = xk(nsolve, i);
    nsolve++; return ITERS + 1 == nsolve ? Solve_Acceptable_Level : Solve_Success; }
  int point(int n, const double* x) { vf_assert(n == NC, "number of coupling variables"); for (int k = 0; k <= ITERS; k++) { bool s = true; for (int i = 0; i < NC; i++) s = s && x[i] == xk(k, IDX[i]); if (s) return k; } return -1; }
  bool eval_f_rterm(size_type t, const int& n, const double* x, double& v) override { vf_assert(me != 0, "only workers evaluate"); vf_assert(t >= 0 && t < S, "term exists"); int k = point(n, x); vf_assert(k >= 0, "evaluated at an iterate"); v = T[t].f; for (int i = 0; i < NC; i++) v += (t + 1) * x[i]; ev[k][t]++; nf++; return true; }
  bool eval_grad_rterm(size_type t, const int& n, double* x, hiopVector& g) override { vf_assert(t >= 0 && t < S, "term exists"); int k = point(n, x); vf_assert(k >= 0, "evaluated at an iterate"); for (int i = 0; i < NC; i++) g.local_data()[i] = T[t].g[i] + x[i]; eg[k][t]++; ng++; return true; }
  size_type get_num_rterms() const override { return S; } size_type get_num_vars() const override { return N; } void get_solution(double* x) const override { for (int i = 0; i < N; i++) x[i] = xk(nsolve - 1, i); } double get_objective() override { return 64. - nsolve; }
  bool set_recourse_approx_evaluator(const int n, RecourseApproxEvaluator* ev_) override { vf_assert(n == NC, "number of coupling variables"); e = ev_; return true; }
};
static void world(int ranks, int s, int n, int nc, int iters, bool sym) {
  vf_exact(1); S = s; N = n; NC = nc; ITERS = iters; bool local = vf_choose("accum_local", 2), eager = vf_choose("eager", 2); int verb = ranks == 2 ? 12 * vf_choose("verbose", 2) : 0; IDX.clear(); for (int i = 0; i < nc; i++) IDX.push_back(nc == n ? i : n - 1 - i);
  T.clear(); for (int t = 0; t < s; t++) { Term q; q.f = sym ? R(nm("f", t)) : 1 << t; for (int i = 0; i < nc; i++) q.g.push_back(sym ? R(nm("g", 10 * t + i)) : 1 << (t + 3 * i)); T.push_back(q); }
  ev.assign(iters + 1, std::vector<int>(s, 0)); eg = ev;
  std::vector<int> fin(ranks, 0);
  mpiw::run(ranks, eager, 2, [&](int me) {
    Prob p(me); hiopSolveStatus st;
    { hiopAlgPrimalDecomposition* a = NC == N ? new hiopAlgPrimalDecomposition(&p) : new hiopAlgPrimalDecomposition(&p, NC, IDX.data()); a->set_local_accum(local ? "yes" : "no"); a->set_max_iteration(ITERS); a->set_tolerance(1e-14); a->set_acceptable_tolerance(1e-14); a->set_verbosity(verb); st = a->run(); fin[me] = a->getNumIterations() + 1;
      if (me == 0) { vf_assert(st == Solve_Acceptable_Level, "status of the last master problem"); vf_assert(p.nsolve == ITERS + 1, "one master problem per iteration"); vf_assert_eq(a->getObjective(), 64. - p.nsolve, "objective"); } else vf_assert(st == Solve_Success, "status of a worker");
      delete a; }
    if (me == 0) vf_reach(local ? "local" : "global"); });
  for (int r = 0; r < ranks; r++) vf_assert(fin[r] == ITERS, "all ranks do the same number of iterations");
  vf_reach(eager ? "eager" : "rendezvous");
}
VF_HARNESS(values, 0, "local,global,eager,rendezvous") { int c = vf_choose("size", vf_thorough() ? 5 : 3); static const int r[] = {2, 3, 3, 3, 4}, s[] = {2, 2, 3, 4, 4}; world(r[c], s[c], 2, 1 + vf_choose("all coupled", 2), 1, true); }
VF_HARNESS(iterations, 0, "local,global,eager,rendezvous") { int c = vf_choose("size", vf_thorough() ? 4 : 3); static const int r[] = {2, 2, 3, 3}, s[] = {1, 3, 2, 3}; world(r[c], s[c], 3, 2 + vf_choose("all coupled", 2), 2, false); }

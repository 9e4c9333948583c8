// vf-bounds: master problems of 3 (thorough 4) variables, every ordered list of 1..3 coupling variables, arbitrary reference data; one or two coupling variables for the curvature rules with arbitrary values, gradients, steps, bounds and ratio, one update (histories of two: concrete gradients); serial runs of up to 3 outer iterations with two terms and arbitrary values
#include "hc.hpp"
#include "hiopAlgPrimalDecomp.hpp"
#include "hiopInterfacePrimalDecomp.hpp"
#include <unistd.h>
typedef hiopInterfacePriDecProblem::RecourseApproxEvaluator RA;
static std::vector<int> order(int n, int nc) { std::vector<int> r, left; for (int i = 0; i < n; i++) left.push_back(i); for (int i = 0; i < nc; i++) { int k = vf_choose("index", left.size()); r.push_back(left[k]); left.erase(left.begin() + k); } return r; }
static DV rv(const char* p, int n) { DV r; for (int i = 0; i < n; i++) r.push_back(R(nm(p, i))); return r; }
static hiopVector* hv(const DV& v, int extra = 0) { hiopVector* x = LinearAlgebraFactory::create_vector("DEFAULT", v.size() + extra); for (size_t i = 0; i < v.size(); i++) x->local_data()[i] = v[i]; for (int i = 0; i < extra; i++) x->local_data()[v.size() + i] = 77.; return x; }
VF_HARNESS(model, 0, "done") {
  int n = 3, nc = 1 + vf_choose("nc", 3), how = vf_choose("constructor", 3); std::vector<int> ix; if (how == 2) for (int i = 0; i < nc; i++) ix.push_back(i); else ix = order(n, nc);
  DV g = rv("g", nc), h = rv("h", nc), x0 = rv("x0", nc), x = rv("x", n), gr = rv("grad", n), hs = rv("hess", nc); double v = R("rval"), f = R("f"), f0 = f; RA* e; hiopVector *G = hv(g, vf_choose("longer", 2)), *H = hv(h), *X0 = hv(x0);
  if (how == 0) { e = new RA(nc, 5, ix.data(), "DEFAULT"); } else if (how == 1) e = new RA(nc, 5, ix.data(), v, *G, *H, *X0, "DEFAULT"); else e = new RA(nc, 5, v, *G, *H, *X0, "DEFAULT");
  if (how == 0) { if (vf_choose("set twice", 2)) { hiopVector* t = hv(rv("old", nc)); e->set_rval(R("oldv")); e->set_rgrad(nc, *t); e->set_rhess(nc, *t); e->set_x0(nc, *t); double d = 0; e->eval_f(n, x.data(), true, d); delete t; } e->set_rval(v); e->set_rgrad(nc, *G); e->set_rhess(nc, *H); e->set_x0(nc, *X0); }
  vf_assert(e->get_S() == 5, "number of terms"); vf_assert_eq(e->get_rval(), v, "value"); for (int i = 0; i < nc; i++) { vf_assert_eq(e->get_rgrad()->local_data()[i], g[i], "gradient data"); vf_assert_eq(e->get_rhess()->local_data()[i], h[i], "curvature data"); vf_assert_eq(e->get_x0()->local_data()[i], x0[i], "reference point"); }
  DV x1 = x; for (int rep = 0; rep < 2; rep++) {
    if (rep) { x = rv("xb", n); x1 = x; f = f0 = R("fb"); gr = rv("gradb", n); }
    double q = v; DV eg = gr; for (int i = 0; i < nc; i++) { double d = x[ix[i]] - x0[i]; q += g[i] * d + .5 * h[i] * d * d; eg[ix[i]] += g[i] + h[i] * d; }
    bool newx = vf_choose("new_x", 2); int ord = rep == 0 ? vf_choose("order", 2) : 0;
    for (int k = 0; k < 2; k++) if ((k == 0) == (ord == 0)) { vf_assert(e->eval_f(n, x.data(), newx, f), "evaluation succeeds"); vf_assert_eq(f, f0 + q, "value is added: constant, linear and quadratic term"); } else { DV gg = gr; vf_assert(e->eval_grad(n, x.data(), newx, gg.data()), "evaluation succeeds"); for (int i = 0; i < n; i++) vf_assert_eq(gg[i], eg[i], "gradient of the model is added on the coupling variables"); }
    hiopVector *xx = hv(x), *hh = hv(hs); vf_assert(e->eval_hess(n, *xx, newx, *hh), "evaluation succeeds"); for (int i = 0; i < nc; i++) vf_assert_eq(hh->local_data()[i], hs[i] + h[i], "curvature is added"); delete xx; delete hh;
    for (int i = 0; i < n; i++) vf_assert_eq(x[i], x1[i], "the point is not changed"); }
  for (int i = 0; i < nc; i++) { vf_assert_eq(e->get_x0()->local_data()[i], x0[i], "evaluation does not change the model"); vf_assert_eq(e->get_rgrad()->local_data()[i], g[i], "evaluation does not change the model"); }
  delete e; delete G; delete H; delete X0; vf_reach("done");
}
// ---- curvature coefficient
typedef hiopAlgPrimalDecomposition::HessianApprox HA;
static double dot(const DV& a, const DV& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
static double clamp(double a, double lo, double hi) { return a < lo ? lo : a > hi ? hi : a; }
struct Mod { double amin, amax, ratio, alpha, f, fm, lin, ss; DV x, g, s, y;
  double alpha_f() { double gg = dot(g, g); if (f == 0.) alpha = gg > 0. && ratio > 0. ? amax : amin; else if (f < 0.) alpha = amin; else alpha = clamp(ratio * gg / (2. * f), amin, amax); return alpha; }
  void step(const DV& xn, const DV& gn, double fn) { fm = f; f = fn; s = y = xn; for (size_t i = 0; i < xn.size(); i++) { s[i] = xn[i] - x[i]; y[i] = gn[i] - g[i]; } lin = dot(g, s); ss = dot(s, s); x = xn; g = gn; }
  double mod() { return fm + lin + .5 * alpha * ss; }
  void upd(double b, double bm) { double num = bm + fm - f - b, den = fm + bm - mod() - b; bool up, down; if (den == 0.) { up = num < 0.; down = num > 0.; } else { double rho = num / den; up = rho < .25; down = rho > .75; } if (up) ratio = ratio / .75; else if (down) ratio = ratio * .75; ratio = clamp(ratio, .5, 5.); } };
static Mod begin(HA& h, int n, bool conc) {
  Mod m; m.amin = conc ? .25 : vf_pos("alpha_min"); m.amax = conc ? 16. : vf_pos("alpha_max"); vf_assume_lt(m.amin, m.amax); m.ratio = h.ratio_; h.set_alpha_min(m.amin); h.set_alpha_max(m.amax); m.alpha = h.alpha_; m.f = R("f0"); m.x = conc ? DV(n, 1.) : rv("x0", n); m.g = conc ? DV(n, 2.) : rv("g0", n);
  hiopVector *X = hv(m.x), *G = hv(m.g); h.initialize(m.f, *X, *G); delete X; delete G; return m; }
static void inside(Mod& m, double a, const char* l) { vf_assert_le(m.amin, a, l); vf_assert_le(a, m.amax, l); }
static void coefficient(int n, bool conc) {
  vf_mode_fork(1); vf_exact(1); hiopOptionsPriDec o("/nonexistent"); static const double rr[] = {1., 0., .25, 8.}; HA h(n, rr[conc ? 3 * vf_choose("initial ratio", 2) : vf_choose("initial ratio", 4)], nullptr, &o, MPI_COMM_SELF); Mod m = begin(h, n, conc);
  hiopVector* G = hv(m.g); double a = h.get_alpha_f(*G); vf_assert_eq(a, m.alpha_f(), "coefficient from value and gradient"); inside(m, a, "coefficient within its bounds"); vf_assert_eq(h.ratio_, m.ratio, "ratio is not changed"); delete G;
  for (int it = 0; it < (conc && vf_thorough() ? 2 : 1); it++) {
    DV xn = conc ? DV(n, it ? -1. : 3.) : rv("x1", n), gn = conc ? DV(n, it ? .5 : -1.) : rv("g1", n); double fn = R(nm("f", 1 + it)), bm = conc && it ? 3. : R(nm("bm", it)), b = conc && it ? 1. + vf_choose("base", 3) : R(nm("b", it)), val = R(nm("val", it)); hiopVector *X = hv(xn), *Gn = hv(gn); h.update_hess_coeff(*X, *Gn, fn); m.step(xn, gn, fn);
    vf_assert_eq(h.compute_base(val), val - m.mod(), "objective of the base case");
    h.update_ratio(b, bm); m.upd(b, bm); vf_assert_eq(h.ratio_, m.ratio, "trust ratio rule"); vf_assert_le(.5, h.ratio_, "trust ratio within its bounds"); vf_assert_le(h.ratio_, 5., "trust ratio within its bounds");
    a = h.get_alpha_f(*Gn); vf_assert_eq(a, m.alpha_f(), "coefficient from value and gradient"); inside(m, a, "coefficient within its bounds");
    double c = h.check_convergence_fcn(b, bm), e = m.lin + .5 * m.alpha * m.ss + b - bm; vf_assert_eq(c, e < 0. ? -e : e, "predicted decrease");
    delete X; delete Gn; } vf_reach("done"); }
VF_HARNESS(coefficient1, 0, "done") { coefficient(1, false); }
VF_HARNESS(history, 0, "done") { coefficient(vf_thorough() ? 1 + vf_choose("n", 2) : 2, true); }
VF_HARNESS(other_rules, 0, "done") {
  vf_mode_fork(1); vf_exact(1); hiopOptionsPriDec o("/nonexistent"); int n = 1 + vf_choose("n", 2); HA h(n, nullptr, &o, MPI_COMM_SELF); Mod m = begin(h, n, false); DV xn = rv("x1", n), gn = rv("g1", n); hiopVector *X = hv(xn), *G = hv(gn); h.update_hess_coeff(*X, *G, R("f1")); m.step(xn, gn, 0.);
  int rule = vf_choose("rule", 4);
  if (rule == 0) { double ss = m.ss; vf_hint_nonneg(ss); vf_assume_lt(0., ss); double a = h.get_alpha_BB(); inside(m, a, "coefficient within its bounds"); vf_assert_eq(a, clamp(dot(m.s, m.y) / ss, m.amin, m.amax), "Barzilai-Borwein coefficient"); }
  else if (rule == 1) { double a0 = h.alpha_ = R("alpha"), t = h.tr_ratio_ = vf_pos("t"), a = h.get_alpha_tr(); inside(m, a, "coefficient within its bounds"); vf_assert_eq(a, clamp(a0 * t, m.amin, m.amax), "scaled coefficient"); }
  else if (rule == 2) { double a = h.alpha_ = vf_pos("alpha"); double gg = dot(m.g, m.g); vf_hint_nonneg(gg); vf_assume_lt(0., gg); double c = h.check_convergence_grad(*G), e = 0; for (int i = 0; i < n; i++) { double d = m.y[i] - a * m.s[i]; e += d * d; } vf_assert_le(0., c, "gradient measure is not negative"); vf_assert_eq(c * c * gg, e, "gradient measure"); }
  else { double rho = R("rho"), rk1 = R("rk1"), rk = R("rk"), q = R("q"), t = vf_pos("ratio"), t0 = t; double lo = vf_pos("lo"), hi = vf_pos("hi"); vf_assume_lt(lo, hi); h.set_alpha_ratio_min(lo); h.set_alpha_ratio_max(hi); h.update_ratio_tr(rho, rk1, rk, q, t);
    double dec = rk1 - rk; double e = t0; if ((rho > 0. && rho < .25 && dec > 0.) || (rho < 0. && dec < 0.) || (rho > 1.333 && dec < 0.)) e = t0 / .75; else if (rho > .75 && rho < 1.333 && dec > 0. && q > .1) e = t0 * .75; vf_assert_eq(t, clamp(e, lo, hi), "trust ratio rule without the base case"); }
  delete X; delete G; vf_reach("done"); }
// ---- serial runs
static double px(int k) { static const double v[] = {1, 3, -1, 2, .5}; return v[k]; }
struct Prob : hiopInterfacePriDecProblem { int n, nc, S, nsolve = 0; std::vector<int> ix; DV obj; std::vector<DV> f; RA* e = nullptr; Mod m; double tol, atol; int maxit, acc, cnt = 0; double base, basem; bool stop = false; int status; std::string file;
  double f_of(int it) { double s = 0; for (double v : f[it]) s += v; return s / S; }
  DV g_of(int it) { return DV(nc, it % 2 ? -1. : 2.); }
  hiopSolveStatus solve_master(hiopVector& x, const bool& inc, const double&, const double*, const double*, const char* of) override {
    vf_assert(!stop, "no iteration after the termination criteria are met"); vf_assert(inc == (nsolve > 0), "the first master problem has no recourse model, the others have"); vf_assert(of && file == of, "options file of the master problem");
    if (inc) { int it = nsolve - 1; vf_assert(e && (int)f.size() == nsolve, "model at the last iterate"); DV xc(nc, px(it)), g = g_of(it); double a, convg = 1e20, fv = f_of(it);
      if (it == 0) { m.f = fv; m.x = xc; m.g = g; a = m.alpha_f(); base = obj[0]; } else { m.step(xc, g, fv); basem = base; base = obj[it] - m.mod(); m.upd(base, basem); a = m.alpha_f(); double c = m.lin + .5 * a * m.ss + base - basem; c = c < 0. ? -c : c; double ee = 0; for (int i = 0; i < nc; i++) { double d = m.y[i] - a * m.s[i]; ee += d * d; } double gg = dot(g, g); bool small = c < tol || ee < tol * tol * gg, ok = c <= atol || ee <= atol * atol * gg; cnt = ok ? cnt + 1 : 0; stop = small || cnt == acc; }
      stop = stop || it == maxit - 1;
      vf_assert_eq(e->get_rval(), fv, "recourse value is the average of the terms"); for (int i = 0; i < nc; i++) { vf_assert_eq(e->get_rgrad()->local_data()[i], g[i], "recourse gradient is the average of the terms"); vf_assert_eq(e->get_rhess()->local_data()[i], a, "curvature of the model"); vf_assert_eq(e->get_x0()->local_data()[i], px(it), "reference point"); } }
    for (int i = 0; i < n; i++) x.local_data()[i] = 64. + i; for (int i = 0; i < nc; i++) x.local_data()[ix[i]] = px(nsolve);
    obj.push_back(R(nm("obj", nsolve))); nsolve++; return status == 0 ? Solve_Success : status == 1 ? Solve_Acceptable_Level : Infeasible_Problem; }
  bool eval_f_rterm(size_type t, const int& k, const double* x, double& v) override { vf_assert(k == nc && t >= 0 && t < S, "term"); for (int i = 0; i < nc; i++) vf_assert(x[i] == px(nsolve - 1), "terms are evaluated at the coupling part of the iterate"); if ((int)f.size() < nsolve) f.push_back(DV()); vf_assert((int)f.back().size() == t && (int)f.size() == nsolve, "every recourse term is evaluated once per iteration"); v = R(nm("r", 10 * nsolve + t)); f.back().push_back(v); return true; }
  bool eval_grad_rterm(size_type t, const int& k, double* x, hiopVector& g) override { for (int i = 0; i < nc; i++) { vf_assert(x[i] == px(nsolve - 1), "terms are evaluated at the coupling part of the iterate"); g.local_data()[i] = g_of(nsolve - 1)[i] + (t ? 1. : -1.); } return true; }
  size_type get_num_rterms() const override { return S; } size_type get_num_vars() const override { return n; } void get_solution(double* x) const override { for (int i = 0; i < n; i++) x[i] = 128. + i; } double get_objective() override { return obj.back(); }
  bool set_recourse_approx_evaluator(const int k, RA* v) override { vf_assert(k == nc, "number of coupling variables"); e = v; return true; } };
static void serial(int maxit, int acc, int n, int nc, int status, bool file) {
  vf_mode_fork(1); vf_exact(1); Prob p; p.n = n; p.nc = nc; p.S = 2; p.ix.clear(); for (int i = 0; i < nc; i++) p.ix.push_back(nc == n ? i : n - 1 - i); p.tol = .0625; p.atol = acc == 1 || maxit < 3 ? .09375 : 1.; p.acc = acc; p.maxit = maxit; p.m.amin = .5; p.m.amax = 8.; p.m.ratio = 1.; p.status = status; p.file = file ? "my_master.options" : "hiop_pridec_master.options";
  // the options are read by the constructor from the file in the working directory
  char d[] = "/tmp/vfpdXXXXXX", old[4096]; if (!mkdtemp(d) || !getcwd(old, sizeof old) || chdir(d)) abort(); if (file) { FILE* f = fopen("hiop_pridec.options", "w"); fprintf(f, "tolerance 0.0625\nacceptable_tolerance %.17g\nacceptable_iterations %d\nmax_iter %d\nalpha_min 0.5\nalpha_max 8.0\nverbosity_level 0\noptions_file_master_prob my_master.options\n", p.atol, acc, maxit); fclose(f); }
  hiopAlgPrimalDecomposition* a = nc == n ? new hiopAlgPrimalDecomposition(&p) : new hiopAlgPrimalDecomposition(&p, nc, p.ix.data()); unlink("hiop_pridec.options"); if (chdir(old)) abort(); rmdir(d);
  if (!file) { a->set_tolerance(p.tol); a->set_acceptable_tolerance(p.atol); a->set_acceptable_count(acc); a->set_max_iteration(maxit); a->set_alpha_min(.5); a->set_alpha_max(8.); a->set_verbosity(0); if (maxit < 3) { a->set_initial_alpha_ratio(2.); p.m.ratio = 2.; } }
  hiopSolveStatus st = a->run(); vf_assert(p.stop, "runs until the termination criteria are met"); vf_assert(st == (p.status == 0 ? Solve_Success : p.status == 1 ? Solve_Acceptable_Level : Infeasible_Problem), "status of the last master problem"); vf_assert(a->getNumIterations() == p.nsolve - 2, "number of iterations"); vf_assert_eq(a->getObjective(), p.obj.back(), "objective"); hiopVector* x = hv(DV(n, 0.)); a->getSolution(*x); for (int i = 0; i < n; i++) vf_assert(x->local_data()[i] == 128. + i, "solution"); delete x; delete a; vf_reach("done"); }
VF_HARNESS(serial1, 0, "done") { serial(1, 1 + vf_choose("acc", 2), 2 + vf_choose("n", 2), 2, vf_choose("status", 3), vf_choose("options file", 2)); }
VF_HARNESS(serial2, 0, "done") { int c = vf_choose("configuration", 4); serial(2, 1 + c % 2, 2 + c / 2, 1 + c % 2, c < 3 ? c : 0, c == 1 || c == 2); }
VF_HARNESS(serial3, 1, "done") { serial(3, 1 + vf_choose("acc", 2), 2, 1, 0, false); }

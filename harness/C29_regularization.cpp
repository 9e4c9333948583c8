// vf-bounds: every history of initial/wrong-inertia/singular outcomes up to 6 calls (thorough 8) with arbitrary parameters, and up to 4 outer systems of 3 corrections each (thorough 5) with the default parameters; arbitrary mu > 0 per system; 5 variables, 3 equalities and 4 inequalities; whole runs of 2-3 iterations of both solvers on fixed problems (2 variables, 1-2 constraints; plain, started next to a bound, large barrier parameter with every trial step accepted) with arbitrary objective values
#include "fix.hpp"
#include "hiopPDPerturbation.hpp"
#include "runobs.hpp"
struct Params { double w0, wmin, wmax, kminus, kplusbar, kplus, cbar, kc; };
static double same(const hiopVector* v, const char* what) { const double* d = v->local_data_const(); for (int i = 1; i < v->get_local_size(); i++) vf_assert_eq(d[i], d[0], what); return d[0]; }
struct Obs { double w, c; };
static Obs look(hiopPDPerturbation& P) {
  Obs o; o.w = same(P.get_curr_delta_wx(), "one primal value"); vf_assert_eq(same(P.get_curr_delta_wd(), "one primal value"), o.w, "variable and slack regularization equal");
  o.c = same(P.get_curr_delta_cc(), "one dual value"); vf_assert_eq(same(P.get_curr_delta_cd(), "one dual value"), o.c, "equality and inequality regularization equal");
  vf_assert_le(0, o.w, "primal regularization nonnegative"); vf_assert_le(0, o.c, "dual regularization nonnegative");
  vf_assert(P.check_consistency(), "consistent");
  return o;
}
static void defaults(NlpFix<>& F, Params& q) {
  hiopOptions& o = *F.nlp.options;
  q.w0 = o.GetNumeric("delta_0_bar"); q.wmin = o.GetNumeric("delta_w_min_bar"); q.wmax = o.GetNumeric("delta_w_max_bar"); q.kminus = o.GetNumeric("kappa_w_minus");
  q.kplusbar = o.GetNumeric("kappa_w_plus_bar"); q.kplus = o.GetNumeric("kappa_w_plus"); q.cbar = o.GetNumeric("delta_c_bar"); q.kc = o.GetNumeric("kappa_c");
}
static void arbitrary(NlpFix<>& F, Params& q) {
  q.wmin = vf_in("wmin", 1e-8, 1.); q.w0 = vf_in("w0", 1e-8, 1e3); q.wmax = vf_in("wmax", 1e-8, 1e6); vf_assume_le(q.wmin, q.w0); vf_assume_le(q.w0, q.wmax);
  q.kminus = vf_in("kminus", 1. / 64, .75); q.kplusbar = vf_in("kplusbar", 1.25, 1000.); q.kplus = vf_in("kplus", 1.25, 1000.); q.cbar = vf_in("cbar", 1e-9, 1.); q.kc = 0.25;
  F.num("delta_w_min_bar", q.wmin); F.num("delta_0_bar", q.w0); F.num("delta_w_max_bar", q.wmax); F.num("kappa_w_minus", q.kminus); F.num("kappa_w_plus_bar", q.kplusbar);
  F.num("kappa_w_plus", q.kplus); F.num("delta_c_bar", q.cbar);
}
struct Dual { double cmin, kplus; };
static double firstv(const Params& q, double l) { return l == 0. ? q.w0 : dmax(q.wmin, l * q.kminus); }
static double nextv(const Params& q, double w, double l) { if (w == 0.) return firstv(q, l); return (l == 0. || 1e5 * l < w) ? q.kplusbar * w : q.kplus * w; }
static std::vector<int> KX{K_LOW, K_FREE, K_BOTH, K_UPP, K_FREE}, KC{K_EQ, K_BOTH, K_EQ, K_LOW, K_UPP, K_EQ, K_LOW};
// primal-first: the whole rule, stated on what the caller can see
struct PF {
  hiopPDPerturbation& P; Params q; double mu = 0, dc = 0, w = 0, c = 0, lw = 0; bool alive = true;
  PF(hiopPDPerturbation& P_, const Params& q_) : P(P_), q(q_) {}
  void newmu(const char* n) { mu = vf_in(n, 1e-9, 10.); P.set_mu(mu); dc = q.cbar * pow(mu, q.kc); }
  void outer() {
    if (w > 0.) lw = w;
    bool r = P.compute_initial_deltas();
    Obs o = look(P);
    if (r) {
      vf_assert(o.c == 0. || o.c == dc, "initial dual regularization is zero or the power of mu");
      if (o.w != 0.) vf_assert_eq(o.w, firstv(q, lw), "initial primal regularization is zero or the first value");
      vf_assert_le(o.w, q.wmax, "initial primal regularization within the maximum");
    } else { vf_assert_lt(q.wmax, firstv(q, lw), "initial regularization refused only beyond the maximum"); alive = false; }
    w = o.w; c = o.c;
  }
  void wrong() {
    double nx = nextv(q, w, lw);
    bool r = P.compute_perturb_wrong_inertia();
    Obs o = look(P);
    if (nx <= q.wmax) {
      vf_assert(r, "wrong inertia corrected while within the maximum");
      vf_assert_eq(o.w, nx, "wrong inertia grows the primal regularization by the documented factor"); vf_assert_eq(o.c, c, "wrong inertia keeps the dual regularization");
    } else if (c == 0.) {
      vf_assert(r, "falls back to dual regularization"); lw = 0;
      vf_assert_eq(o.c, dc, "dual regularization added when the primal one is exhausted"); vf_assert_eq(o.w, q.w0, "primal regularization restarts at the first value");
    } else { vf_assert(!r, "exceeding the maximum is reported"); alive = false; lw = 0; }
    w = o.w; c = o.c;
  }
  void singular() {
    double nx = nextv(q, w, lw);
    bool r = P.compute_perturb_singularity();
    Obs o = look(P);
    if (r) {
      vf_assert_le(o.w, q.wmax, "primal regularization within the maximum");
      vf_assert(o.c == 0. || o.c == dc, "dual regularization is zero or the power of mu");
      bool grew = o.w == nx, kept = o.w == w;
      vf_assert(grew || kept, "primal regularization unchanged or grown by the documented factor");
      if (kept && !grew) vf_assert(c == 0. && o.c > 0., "a singular system changes some regularization");
    } else { vf_assert_lt(q.wmax, nx, "refused only beyond the maximum"); alive = false; lw = 0; }
    w = o.w; c = o.c;
  }
};
VF_HARNESS(history, 0, "done,refused") {
  DProb p(KX, KC, true, false); NlpFix<> F(p); F.init(); Params q; arbitrary(F, q);
  hiopPDPerturbationPrimalFirstScalar P; vf_assert(P.initialize(&F.nlp), "initialize");
  PF m(P, q); m.newmu("mu0"); m.outer();
  int depth = vf_thorough() ? 7 : 5;
  for (int i = 0; i < depth && m.alive; i++) switch (vf_choose("call", 3)) {
    case 0: m.newmu("mu"); m.outer(); break;
    case 1: m.wrong(); break;
    case 2: m.singular(); break;
  }
  vf_reach(m.alive ? "done" : "refused");
}
// long runs: the degeneracy conclusions need three suspicious systems
VF_HARNESS(degeneracy, 0, "done") {
  DProb p(KX, KC, true, false); NlpFix<> F(p); F.init(); Params q; defaults(F, q);
  hiopPDPerturbationPrimalFirstScalar P; vf_assert(P.initialize(&F.nlp), "initialize");
  PF m(P, q);
  int N = vf_thorough() ? 5 : 4;
  static const int seqs[][3] = {{0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {2, 1, 0}, {2, 2, 0}, {2, 2, 1}, {2, 2, 2}, {1, 2, 0}, {2, 1, 2}};
  for (int i = 0; i < N && m.alive; i++) {
    m.newmu(nm("mu", i).c_str()); m.outer();
    const int* s = seqs[vf_choose("system", 9)];
    for (int k = 0; k < 3 && s[k] && m.alive; k++) if (s[k] == 1) m.wrong(); else m.singular();
  }
  vf_reach("done");
}
// dual-first (normal equations): dual part grows first, the primal one when it is exhausted
VF_HARNESS(dual_first, 0, "done,refused") {
  DProb p(KX, KC, true, false); NlpFix<> F(p); F.init(); Params q; arbitrary(F, q);
  hiopPDPerturbationDualFirstScalar P; vf_assert(P.initialize(&F.nlp), "initialize");
  double mu = 0, w = 0, c = 0, lw = 0, lc = 0; bool alive = true;
  const double cmin = 1e-20, kcplus = 10.;
  auto cfirst = [&](double l) { return l == 0. ? dmax(cmin, q.cbar * pow(mu, q.kc)) : dmax(cmin, l * q.kminus); };
  auto cnext = [&](double c, double l) { if (c == 0.) return cfirst(l); return (l == 0. || 1e5 * l < c) ? q.kplusbar * c : kcplus * c; };
  auto outer = [&] {
    mu = vf_in("mu", 1e-9, 10.); P.set_mu(mu); if (w > 0.) lw = w; if (c > 0.) lc = c;
    bool r = P.compute_initial_deltas(); Obs o = look(P);
    vf_assert(r, "initial"); vf_assert_eq(o.w, 0., "initial primal regularization"); vf_assert_eq(o.c, 0., "initial dual regularization");
    w = o.w; c = o.c;
  };
  auto fix = [&] {
    double nc = cnext(c, lc);
    bool r = vf_choose("kind", 2) ? P.compute_perturb_wrong_inertia() : P.compute_perturb_singularity();
    Obs o = look(P);
    if (nc <= q.wmax) { vf_assert(r, "dual regularization grown while within the maximum"); vf_assert_eq(o.c, nc, "dual regularization grows by the documented factor"); vf_assert_eq(o.w, w, "primal regularization kept"); }
    else if (w == 0.) {
      lc = 0; double nw = firstv(q, lw), c0 = cfirst(0);
      if (nw <= q.wmax && c0 <= q.wmax) { vf_assert(r, "falls back to primal regularization"); vf_assert_eq(o.w, nw, "primal regularization starts at the first value"); vf_assert_eq(o.c, c0, "dual regularization restarts"); }
      else { vf_assert(!r, "exceeding the maximum is reported"); alive = false; }
    } else { vf_assert(!r, "exceeding the maximum is reported"); alive = false; }
    w = o.w; c = o.c;
  };
  outer();
  int depth = vf_thorough() ? 6 : 4;
  for (int i = 0; i < depth && alive; i++) if (vf_choose("call", 3) == 0) outer(); else fix();
  vf_reach(alive ? "done" : "refused");
}
// randomized variants: every entry within [0.9,1] of the scalar rule, never negative
VF_HARNESS(randomized, 0, "done") {
  DProb p(KX, KC, true, false); NlpFix<> F(p); F.init(); Params q; arbitrary(F, q);
  bool dual = vf_choose("dual_first", 2);
  hiopPDPerturbationPrimalFirstRand A; hiopPDPerturbationDualFirstRand B; hiopPDPerturbation& P = dual ? (hiopPDPerturbation&)B : A;
  vf_assert(P.initialize(&F.nlp), "initialize");
  double mu = vf_in("mu", 1e-9, 10.); P.set_mu(mu); double dc = q.cbar * pow(mu, q.kc);
  auto within = [&](const hiopVector* v, double s) { for (int i = 0; i < v->get_local_size(); i++) { vf_assert_le(0.9 * s, D(*v)[i], "at least 0.9 of the rule"); vf_assert_le(D(*v)[i], s, "at most the rule"); } };
  auto all = [&](double w, double c) { within(P.get_curr_delta_wx(), w); within(P.get_curr_delta_wd(), w); within(P.get_curr_delta_cc(), c); within(P.get_curr_delta_cd(), c); };
  vf_assert(P.compute_initial_deltas(), "initial"); all(0, 0);
  if (!dual) {
    bool sing = vf_choose("singular_first", 2); double c = sing ? dc : 0.;
    if (sing) { vf_assert(P.compute_perturb_singularity(), "singular"); all(0, c); }
    vf_assert(P.compute_perturb_wrong_inertia(), "wrong inertia"); all(q.w0, c);
    vf_assume_le(q.kplusbar * q.w0, q.wmax);
    vf_assert(P.compute_perturb_wrong_inertia(), "wrong inertia"); all(q.kplusbar * q.w0, c);
  } else {
    double c0 = dmax(1e-20, dc); vf_assume_le(q.kplusbar * c0, q.wmax); vf_assume_le(c0, q.wmax);
    vf_assert(P.compute_perturb_wrong_inertia(), "wrong inertia"); all(0, c0);
    vf_assert(P.compute_perturb_wrong_inertia(), "wrong inertia"); all(0, q.kplusbar * c0);
  }
  vf_reach("done");
}
VF_HARNESS(run_newton, 0, "iterated") { int cfg = vf_choose("cfg", 3); obs_run(OB_REG, true, cfg, cfg == 2 ? 3 : 2); } // whole Newton runs

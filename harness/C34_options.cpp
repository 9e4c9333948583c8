// vf-bounds: every registered numeric option (arbitrary real value, NaN, infinities), every integer option (values at and around both ends of its range), every string option (every documented value in three spellings, unknown values); sequences of two settings per option from file or program, sequences of two (relevant options: three) settings of different options; option files of the listed shapes
#include "hc.hpp"
#include "hiopOptions.hpp"
#include "hiopLogger.hpp"
#include <map>
#include <cctype>
#include <cstdlib>
#include <unistd.h>
#include <climits>
static const char* NOFILE = "/nonexistent/hiop.options";
static std::string* warned; static size_t wlen; static char* wbuf; static FILE* wf;
template <class O> struct Opt { O o; hiopLogger lg; Opt(const char* file = NOFILE) : o(file), lg(&o, (wf = open_memstream(&wbuf, &wlen))) { o.SetLog(&lg); drain(); }
  bool drain() { fflush(wf); bool r = wlen > 0; rewind(wf); fflush(wf); wlen = 0; return r; } };
struct Snap { std::map<std::string, double> num; std::map<std::string, int> in; std::map<std::string, std::string> str; };
static Snap snap(hiopOptions& o) { Snap s; for (auto& p : o.mOptions_) { if (auto* q = dynamic_cast<hiopOptions::OptionNum*>(p.second)) s.num[p.first] = o.GetNumeric(p.first.c_str()); else if (dynamic_cast<hiopOptions::OptionInt*>(p.second)) s.in[p.first] = o.GetInteger(p.first.c_str()); else s.str[p.first] = o.GetString(p.first.c_str()); } return s; }
static void same(hiopOptions& o, const Snap& a, const std::string& but, const char* l) { Snap b = snap(o); for (auto& p : a.num) if (p.first != but) vf_assert_eq(b.num[p.first], p.second, l); for (auto& p : a.in) if (p.first != but) vf_assert(b.in[p.first] == p.second, l); for (auto& p : a.str) if (p.first != but) vf_assert(b.str[p.first] == p.second, l); }
// documented ranges and defaults; where the documentation and the description in the code differ, the narrower range must be accepted and everything outside of the wider one rejected
struct N { const char* name; double def, lo, hi, wlo, whi; };
static const double I = -1;
static const N nlp[] = {
  {"mu0", 1., 1e-16, 1000.}, {"kappa_mu", .2, 1e-8, .999}, {"theta_mu", 1.5, 1., 2.}, {"eta_phi", 1e-8, 0., .01}, {"tolerance", 1e-8, 1e-14, 1e-1}, {"cons_tol", 1e-4, 1e-16, 1e10}, {"dual_tol", 1., 1e-16, 1e10}, {"comp_tol", 1e-4, 1e-16, 1e10}, {"rel_tolerance", 0., 0., .1},
  {"tau_min", .99, .9, .99999}, {"kappa_eps", 10., 1e-6, 1e3}, {"kappa1", 1e-2, 1e-16, 1e-1, 1e-16, 1.}, {"kappa2", 1e-2, 1e-15, .49999, 1e-16, .49999}, {"smax", 100., 1., 1e7}, {"recalc_lsq_duals_tol", 1e-6, 0., 1e10}, {"duals_lsq_ini_max", 1e3, 1e-16, 1e10}, {"acceptable_tolerance", 1e-6, 1e-14, 1e-1},
  {"sigma0", 1., 0., 1e7}, {"min_step_size", 1e-16, 0., 1e6}, {"moving_lim_abs", 0., 0., 1e8}, {"moving_lim_rel", 0., 0., 1.}, {"theta_max_fact", 1e4, 0., 1e7}, {"theta_min_fact", 1e-4, 0., 1e7}, {"fixed_var_tolerance", 1e-15, 1e-30, .01}, {"fixed_var_perturb", 1e-8, 1e-14, .1},
  {"scaling_max_grad", 100., 1e-20, 1e20}, {"scaling_max_obj_grad", 0., 0., 1e20}, {"scaling_max_con_grad", 0., 0., 1e20}, {"scaling_min_grad", 1e-8, 0., 1e20}, {"ir_outer_tol_factor", 1e-2, 1e-20, 1.}, {"ir_outer_tol_min", 1e-6, 1e-20, 1e20}, {"bound_relax_perturb", 1e-8, 0., 1e20}, {"eq_relax_factor", 1e-8, 1e-15, 1.},
  {"kappa_soc", .99, 0., 1e20}, {"kappa_resto", .9, 0., 1.}, {"ir_inner_tol", 1e-12, 1e-16, 1e-1}, {"ir_inner_tol_min", 1e-6, 1e-16, 1e-1}, {"ir_inner_tol_factor", 1e-2, 1e-20, 1.}, {"neg_curv_test_fact", 1e-11, 0., 1e20}, {"delta_w_min_bar", 1e-20, 0., 1000.}, {"delta_w_max_bar", 1e20, 1e-40, 1e40}, {"delta_0_bar", 1e-4, 0., 1e40},
  {"kappa_w_minus", 1. / 3, 1e-20, 1.}, {"kappa_w_plus", 8., 1., 1e40}, {"kappa_w_plus_bar", 100., 1., 1e40}, {"delta_c_bar", 1e-8, 1e-20, 1e40}, {"kappa_c", .25, 0., 1e40}, {"elastic_mode_bound_relax_initial", 1e-2, 1e-8, 1e-1, 1e-16, 1e-1}, {"elastic_mode_bound_relax_final", 1e-12, 1e-16, 1e-1}};
static const N pri[] = {{"alpha_max", 1e6, 1., 1e14}, {"alpha_min", 1e-5, 1e-8, 1e3}, {"tolerance", 1e-5, 1e-14, 1e-1}, {"acceptable_tolerance", 1e-3, 1e-14, 1e-1}};
struct J { const char* name; int def, lo, hi, wlo, whi; };
static const J nlpi[] = {{"max_iter", 3000, 1, 1000000}, {"acceptable_iterations", 10, 1, 1000000}, {"secant_memory_len", 6, 0, 256}, {"verbosity_level", 3, 0, 12}, {"ir_outer_maxit", 8, 0, 100}, {"max_soc_iter", 4, 1, 1000000, 0, 1000000}, {"ir_inner_restart", 20, 1, 100, 0, 100}, {"ir_inner_conv_cond", 0, 0, 2}, {"ir_inner_maxit", 50, 0, 1000}, {"checkpoint_save_every_N_iter", 10, 1, 1000000}};
static const J prii[] = {{"acceptable_iterations", 25, 1, 1000000}, {"max_iter", -1, 1, 1000000, 1, 1000000000}, {"verbosity_level", 2, 0, 12}};
struct T { const char* name; const char* def; const char* vals; }; // def "": not checked (derived, or documented differently)
static const T nlps[] = {
  {"duals_update_type", "lsq", "lsq linear"}, {"duals_init", "lsq", "lsq zero"}, {"accept_every_trial_step", "no", "no yes"}, {"sigma_update_strategy", "sty", "sigma0 sty sty_inv snrm_ynrm sty_srnm_ynrm"}, {"fixed_var", "none", "none relax remove"}, {"warm_start", "no", "no yes"}, {"scaling_type", "", "none gradient"}, {"force_resto", "no", "no yes"},
  {"Hessian", "quasinewton_approx", "quasinewton_approx analytical_exact"}, {"KKTLinsys", "auto", "auto xycyd xdycyd full condensed normaleqn"}, {"linear_solver_sparse", "auto", "auto ma57 pardiso strumpack resolve ginkgo"}, {"duals_init_linear_solver_sparse", "auto", "auto ma57 pardiso strumpack resolve ginkgo"}, {"ginkgo_exec", "reference", "cuda hip reference"}, {"ginkgo_trisolve", "syncfree", "syncfree sparselib"},
  {"linear_solver_sparse_ordering", "", "metis symamd-cuda symamd-eigen symrcm amd-ssparse colamd-ssparse"}, {"resolve_factorization", "klu", "klu"}, {"resolve_refactorization", "glu", "glu rf"}, {"ir_inner_gs_scheme", "mgs", "mgs cgs2 mgs_two_synch mgs_pm"}, {"linsol_mode", "stable", "stable speculative forcequick"}, {"fact_acceptor", "inertia_correction", "inertia_correction inertia_free"}, {"normaleqn_regularization_priority", "dual_first", "primal_first dual_first"},
  {"regularization_method", "", "randomized"}, {"time_kkt", "off", "on off"}, {"elastic_mode", "none", "none tighten_bound correct_it correct_it_adjust_bound"}, {"elastic_bound_strategy", "mu_projected", "mu_projected mu_scaled"}, {"write_kkt", "no", "no yes"}, {"print_options", "no", "no yes short"}, {"compute_mode", "", "auto cpu hybrid gpu"}, {"mem_space", "default", "default"}, {"callback_mem_space", "default", "default"}, {"checkpoint_save", "no", "yes no"}, {"checkpoint_load_on_start", "no", "yes no"}};
static const T pris[] = {{"mem_space", "default", "default"}, {"print_options", "no", "yes no"}, {"accum_local", "no", "yes no"}};
static std::vector<std::string> words(const char* s) { std::vector<std::string> r; std::string w; for (const char* p = s;; p++) if (*p == ' ' || !*p) { if (!w.empty()) r.push_back(w); w.clear(); if (!*p) break; } else w += *p; return r; }
// the rules that keep tolerances consistent: the others may not be tighter than 'tolerance'
static bool tolname(const std::string& n) { return n == "acceptable_tolerance" || n == "dual_tol" || n == "cons_tol" || n == "comp_tol"; }
template <class O, int K> static void numeric(const N (&tab)[K]) {
  Opt<O> w; O& o = w.o; int k = vf_choose("option", K); const N& t = tab[k]; std::string name = t.name; bool two = t.wlo != 0 || t.whi != 0; double wlo = two ? t.wlo : t.lo, whi = two ? t.whi : t.hi; double tol = o.GetNumeric("tolerance");
  vf_assert_eq(o.GetNumeric(t.name), t.def, "documented default"); vf_assert(!o.is_user_defined(t.name), "a default is not user defined"); Snap s0 = snap(o); double cur = t.def; bool infile = false;
  for (int step = 0; step < 2; step++) {
    bool file = vf_choose("file", 2); double v; int kind = step ? 0 : vf_choose("kind", 4); if (kind == 0) v = R(nm("v", step)); else v = kind == 1 ? std::numeric_limits<double>::quiet_NaN() : kind == 2 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
    w.drain(); o.SetNumericValue(t.name, v, file); double got = o.GetNumeric(t.name);
    if (infile && !file) { vf_assert_eq(got, cur, "a setting of the option file is not overwritten by the program"); vf_assert(w.drain(), "ignored setting is reported"); continue; }
    if (file) infile = true;
    bool in = kind == 0 && v >= t.lo && v <= t.hi, out = kind != 0 || v < wlo || v > whi;
    if (in) { double e = tolname(name) && v < tol ? tol : v; vf_assert_eq(got, e, "valid value is set"); vf_assert(o.is_user_defined(t.name), "user-defined option"); if (tolname(name) && v < tol) vf_assert(w.drain(), "adjusted setting is reported"); cur = e; }
    else if (out) { vf_assert_eq(got, cur, "invalid value is ignored"); vf_assert(w.drain(), "invalid value is reported"); }
    else cur = got;
  }
  same(o, s0, name, "other options unchanged"); vf_reach("done");
}
VF_HARNESS(numeric_nlp, 0, "done") { numeric<hiopOptionsNLP>(nlp); }
VF_HARNESS(numeric_pridec, 0, "done") { numeric<hiopOptionsPriDec>(pri); }
template <class O, int K> static void integer(const J (&tab)[K]) {
  Opt<O> w; O& o = w.o; const J& t = tab[vf_choose("option", K)]; bool two = t.wlo != 0 || t.whi != 0; int wlo = two ? t.wlo : t.lo, whi = two ? t.whi : t.hi; if (t.def >= 0) vf_assert(o.GetInteger(t.name) == t.def, "documented default"); vf_assert(!o.is_user_defined(t.name), "a default is not user defined"); Snap s0 = snap(o); int cur = o.GetInteger(t.name); bool infile = false; bool ckpt = std::string(t.name).find("checkpoint") == 0;
  const int val[] = {t.lo, t.hi, t.lo - 1, t.hi + 1, t.lo + 1, t.hi - 1, wlo - 1, whi + 1, INT_MIN, INT_MAX, (t.lo + t.hi) / 2};
  for (int step = 0; step < 2; step++) {
    bool file = vf_choose("file", 2); int v = val[vf_choose("value", 11)]; o.SetIntegerValue("verbosity_level", 3, true); if (std::string(t.name) == "verbosity_level" && infile) { o.SetIntegerValue(t.name, cur, true); } w.drain(); bool loud = o.GetInteger("verbosity_level") >= 1; s0.in["verbosity_level"] = 3; if (std::string(t.name) == "verbosity_level") { infile = true; cur = o.GetInteger(t.name); }
    o.SetIntegerValue(t.name, v, file); int got = o.GetInteger(t.name);
    if (infile && !file) { vf_assert(got == cur, "a setting of the option file is not overwritten by the program"); if (loud) vf_assert(w.drain(), "ignored setting is reported"); continue; }
    if (file) infile = !ckpt;
    if (v >= t.lo && v <= t.hi) { vf_assert(got == v, "valid value is set"); if (!ckpt) vf_assert(o.is_user_defined(t.name), "user-defined option"); cur = v; }
    else if (v < wlo || v > whi) { vf_assert(got == cur, "invalid value is ignored"); if (loud) vf_assert(w.drain(), "invalid value is reported"); }
    else cur = got;
  }
  same(o, s0, t.name, "other options unchanged"); vf_reach("done");
}
VF_HARNESS(integer_nlp, 0, "done") { integer<hiopOptionsNLP>(nlpi); }
VF_HARNESS(integer_pridec, 0, "done") { integer<hiopOptionsPriDec>(prii); }
static std::string spell(std::string s, int how) { for (size_t i = 0; i < s.size(); i++) if (how == 1 || (how == 2 && i % 2)) s[i] = toupper(s[i]); return s; }
template <class O, int K> static void strings(const T (&tab)[K]) { // options that are not subject to consistency rules
  Opt<O> w; O& o = w.o; const T& t = tab[vf_choose("option", K)]; std::string name = t.name; if (t.def[0]) vf_assert(o.GetString(t.name) == t.def, "documented default"); vf_assert(!o.is_user_defined(t.name), "a default is not user defined");
  { auto* q = dynamic_cast<hiopOptions::OptionStr*>(o.mOptions_[name]); bool ok = false; for (auto& r : q->range) if (r == q->val) ok = true; vf_assert(ok, "the default is a valid value"); }
  bool ruled = name == "KKTLinsys" || name == "Hessian" || name == "linear_solver_sparse" || name == "compute_mode", ckpt = name.find("checkpoint") == 0; auto vs = words(t.vals); Snap s0 = snap(o); std::string cur = o.GetString(t.name); bool infile = false;
  for (int step = 0; step < 2; step++) {
    bool file = vf_choose("file", 2); int k = vf_choose("value", (int)vs.size() + 3); bool ok = k < (int)vs.size(); std::string v = ok ? spell(vs[k], vf_choose("spelling", 3)) : k == (int)vs.size() ? "bogus" : k == (int)vs.size() + 1 ? "" : vs[0] + "x"; w.drain();
    o.SetStringValue(t.name, v.c_str(), file); std::string got = o.GetString(t.name);
    if (infile && !file) { vf_assert(got == cur, "a setting of the option file is not overwritten by the program"); vf_assert(w.drain(), "ignored setting is reported"); continue; }
    if (file) infile = !ckpt;
    if (ok) { if (!ruled) vf_assert(got == vs[k], "valid value is set"); else if (got != vs[k] && !(name == "compute_mode" && vs[k] == "auto")) vf_assert(w.drain(), "adjusted setting is reported"); if (!ckpt) vf_assert(o.is_user_defined(t.name), "user-defined option"); cur = got; }
    else { vf_assert(got == cur, "invalid value is ignored"); vf_assert(w.drain(), "invalid value is reported"); }
  }
  if (!ruled) same(o, s0, name, "other options unchanged"); vf_reach("done");
}
VF_HARNESS(string_nlp, 0, "done") { strings<hiopOptionsNLP>(nlps); }
VF_HARNESS(string_pridec, 0, "done") { strings<hiopOptionsPriDec>(pris); }
VF_HARNESS(file_names, 0, "done") { // options without a list of values take any value as it is
  bool p = vf_choose("pridec", 2); const char* names[] = {"options_file_fr_prob", "checkpoint_file", "options_file_master_prob"}; const char* vals[] = {"/tmp/MyRun/FR.options", "a", "Chk_#.ROOT"}; std::string v = vals[vf_choose("value", 3)]; bool file = vf_choose("file", 2), in = vf_choose("internal", 2);
  if (p) { Opt<hiopOptionsPriDec> w; if (in) w.o.set_val(names[2], v.c_str()); else w.o.SetStringValue(names[2], v.c_str(), file); vf_assert(w.o.GetString(names[2]) == v, "value read back is the one set"); }
  else { Opt<hiopOptionsNLP> w; int k = vf_choose("option", 2); if (in) w.o.set_val(names[k], v.c_str()); else w.o.SetStringValue(names[k], v.c_str(), file); vf_assert(w.o.GetString(names[k]) == v, "value read back is the one set"); }
  vf_reach("done");
}
VF_HARNESS(unknown, 0, "done") { // unknown names and wrong kinds change nothing and are reported
  Opt<hiopOptionsNLP> w; hiopOptionsNLP& o = w.o; Snap s = snap(o); bool file = vf_choose("file", 2); double v = R("v"); w.drain();
  switch (vf_choose("what", 9)) { case 0: o.SetNumericValue("no_such_option", v, file); break; case 1: o.SetIntegerValue("no_such_option", 1, file); break; case 2: o.SetStringValue("no_such_option", "yes", file); break; case 3: o.SetNumericValue("max_iter", v, file); break; case 4: o.SetNumericValue("Hessian", v, file); break; case 5: o.SetIntegerValue("tolerance", 1, file); break; case 6: o.SetIntegerValue("fixed_var", 1, file); break; case 7: o.SetStringValue("tolerance", "1e-4", file); break; default: o.SetStringValue("max_iter", "5", file); }
  vf_assert(w.drain(), "reported"); same(o, s, "", "options unchanged"); vf_assert(!o.is_user_defined("no_such_option") && !o.is_user_defined("tolerance") && !o.is_user_defined("max_iter") && !o.is_user_defined("Hessian") && !o.is_user_defined("fixed_var"), "not user defined"); vf_reach("done");
}
VF_HARNESS(tolerances, 0, "done,adjusted") { // the other tolerances given by the user are not tighter than 'tolerance', in every order of setting
  bool p = vf_choose("pridec", 2); std::vector<std::string> names = {"tolerance", "acceptable_tolerance"}; if (!p) { names.push_back("dual_tol"); names.push_back("cons_tol"); names.push_back("comp_tol"); }
  Opt<hiopOptionsNLP>* a = p ? nullptr : new Opt<hiopOptionsNLP>; Opt<hiopOptionsPriDec>* b = p ? new Opt<hiopOptionsPriDec> : nullptr; hiopOptions& o = p ? (hiopOptions&)b->o : (hiopOptions&)a->o; auto drain = [&] { return p ? b->drain() : a->drain(); };
  std::map<std::string, double> m; std::map<std::string, bool> user; for (auto& n : names) m[n] = o.GetNumeric(n.c_str()); int other = 1 + vf_choose("other", (int)names.size() - 1);
  for (int step = 0; step < 3; step++) { std::string n = names[vf_choose("which", 2) ? other : 0]; double v = R(nm("v", step)); vf_assume(v >= 1e-14 && v <= 1e-1); drain(); o.SetNumericValue(n.c_str(), v); m[n] = v; user[n] = true; bool adj = false; for (auto& k : names) if (k != "tolerance" && user[k] && m[k] < m["tolerance"]) { m[k] = m["tolerance"]; adj = true; } for (auto& k : names) vf_assert_eq(o.GetNumeric(k.c_str()), m[k], "consistent tolerances"); if (adj) { vf_assert(drain(), "adjustment is reported"); vf_reach("adjusted"); } }
  vf_reach("done");
}
VF_HARNESS(moving_limits, 0, "done,disabled") {
  Opt<hiopOptionsNLP> w; hiopOptionsNLP& o = w.o; double r = 0, a = 0;
  for (int step = 0; step < 3; step++) { double v = R(nm("v", step)); vf_assume(v >= 0 && v <= 1); if (vf_choose("rel", 2)) { o.SetNumericValue("moving_lim_rel", v); r = v; } else { o.SetNumericValue("moving_lim_abs", v); a = v; } if (r * a != 0) { r = 0; vf_assert(w.drain(), "adjustment is reported"); vf_reach("disabled"); } vf_assert_eq(o.GetNumeric("moving_lim_rel"), r, "relative limit"); vf_assert_eq(o.GetNumeric("moving_lim_abs"), a, "absolute limit"); }
  vf_reach("done");
}
// documented compatibility rules between the string options, for a build without CUDA, HIP, RAJA
struct Model { std::map<std::string, std::string> v; std::map<std::string, bool> user; 
  void fix() { std::string k0 = v["KKTLinsys"]; if (v["Hessian"] == "quasinewton_approx" && user["Hessian"] && (k0 == "xycyd" || k0 == "xdycyd" || k0 == "full" || k0 == "normaleqn")) v["KKTLinsys"] = "auto"; if (v["Hessian"] == "analytical_exact") v["duals_update_type"] = "linear";
    std::string k = v["KKTLinsys"], s = v["linear_solver_sparse"]; if (k == "full" && s != "resolve" && s != "pardiso" && s != "strumpack") s = "auto"; if (k == "condensed" && s != "cusolver-chol") s = "auto"; if (s == "resolve" || s == "cusolver-chol") s = "auto"; v["linear_solver_sparse"] = s; v["compute_mode"] = "cpu"; if (k == "full" || s == "strumpack") v["fact_acceptor"] = "inertia_free"; } };
static void rules(int steps, bool files, const std::vector<std::pair<const char*, const char*>>& ops) {
  Opt<hiopOptionsNLP> w; hiopOptionsNLP& o = w.o; Model m; const char* names[] = {"Hessian", "KKTLinsys", "duals_update_type", "linear_solver_sparse", "fact_acceptor", "compute_mode", "fixed_var"}; for (auto n : names) m.v[n] = o.GetString(n); std::map<std::string, bool> infile;
  for (int step = 0; step < steps; step++) {
    auto& op = ops[vf_choose("set", ops.size())]; bool file = files && vf_choose("file", 2); w.drain(); o.SetStringValue(op.first, op.second, file); auto before = m.v; 
    if (!infile[op.first] || file) { m.v[op.first] = op.second; before = m.v; m.user[op.first] = true; if (file) infile[op.first] = true; m.fix(); }
    bool silent = true; for (auto n : names) { vf_assert(o.GetString(n) == m.v[n], "consistent options"); if (m.user[n] && before[n] != m.v[n] && !(std::string(n) == "compute_mode" && before[n] == "auto")) silent = false; } if (!silent) vf_assert(w.drain(), "a changed user choice is reported"); for (auto n : names) vf_assert(o.is_user_defined(n) == m.user[n], "user-defined options");
    Snap s = snap(o); o.SetLog(&w.lg); same(o, s, "", "checking consistency again changes nothing");
  }
  vf_reach("done");
}
VF_HARNESS(rules2, 0, "done") { rules(2, true, {{"Hessian", "quasinewton_approx"}, {"Hessian", "analytical_exact"}, {"KKTLinsys", "auto"}, {"KKTLinsys", "xycyd"}, {"KKTLinsys", "xdycyd"}, {"KKTLinsys", "full"}, {"KKTLinsys", "condensed"}, {"KKTLinsys", "normaleqn"}, {"duals_update_type", "lsq"}, {"duals_update_type", "linear"}, {"linear_solver_sparse", "auto"}, {"linear_solver_sparse", "ma57"}, {"linear_solver_sparse", "pardiso"}, {"linear_solver_sparse", "strumpack"}, {"linear_solver_sparse", "resolve"}, {"linear_solver_sparse", "cusolver-chol"}, {"linear_solver_sparse", "ginkgo"}, {"fact_acceptor", "inertia_correction"}, {"fact_acceptor", "inertia_free"}, {"compute_mode", "auto"}, {"compute_mode", "cpu"}, {"compute_mode", "hybrid"}, {"compute_mode", "gpu"}, {"fixed_var", "remove"}, {"fixed_var", "relax"}}); }
VF_HARNESS(rules3, 0, "done") { rules(3, false, {{"Hessian", "quasinewton_approx"}, {"Hessian", "analytical_exact"}, {"KKTLinsys", "xycyd"}, {"KKTLinsys", "full"}, {"KKTLinsys", "condensed"}, {"KKTLinsys", "normaleqn"}, {"duals_update_type", "lsq"}, {"duals_update_type", "linear"}, {"linear_solver_sparse", "ma57"}, {"linear_solver_sparse", "strumpack"}, {"linear_solver_sparse", "pardiso"}, {"fact_acceptor", "inertia_correction"}, {"fact_acceptor", "inertia_free"}}); }
VF_HARNESS(files, 0, "done") {
  struct L { const char* line; const char* name; double num; int in; const char* str; }; // what the line sets (kind by the option)
  static const L ls[] = {{"tolerance 1e-5", "tolerance", 1e-5}, {"   tolerance\t2e-5   trailing words", "tolerance", 2e-5}, {"tolerance 5", nullptr}, {"tolerance abc", nullptr}, {"tolerance", nullptr}, {"tolerance 1e-5x", nullptr}, {"# tolerance 1e-5", nullptr}, {"  # tolerance 1e-5", nullptr}, {"", nullptr}, {"   ", nullptr}, {"max_iter 17", "max_iter", 0, 17}, {"max_iter 1e3", nullptr}, {"max_iter 2.5", nullptr}, {"max_iter 0", nullptr}, {"max_iter -4", nullptr}, {"max_iter yes", nullptr}, {"fixed_var Remove", "fixed_var", 0, 0, "remove"}, {"fixed_var maybe", nullptr}, {"no_such_option 3", nullptr}, {"options_file_fr_prob /tmp/My.Options", "options_file_fr_prob", 0, 0, "/tmp/My.Options"}, {"tolerance nan", nullptr}, {"tolerance inf", nullptr}};
  int k1 = vf_choose("line1", 22), k2 = vf_choose("line2", 22); bool nl = vf_choose("final newline", 2); char path[] = "/tmp/vfoptXXXXXX"; int fd = mkstemp(path); FILE* f = fdopen(fd, "w"); fprintf(f, "%s\n%s%s", ls[k1].line, ls[k2].line, nl ? "\n" : ""); fclose(f); hiopOptionsNLP d(NOFILE), o(path); unlink(path); Snap s = snap(d); std::string n;
  for (int k : {k1, k2}) if (ls[k].name) { n = ls[k].name; if (n == "tolerance") s.num[n] = ls[k].num; else if (n == "max_iter") s.in[n] = ls[k].in; else s.str[n] = ls[k].str; vf_assert(o.is_user_defined(ls[k].name), "user-defined option"); }
  same(o, s, "", "options of the file"); double v = R("v"); vf_assume(v >= 1e-14 && v <= 1e-1); o.SetNumericValue("tolerance", v); bool inf = o.mOptions_["tolerance"]->specifiedInFile; vf_assert_eq(o.GetNumeric("tolerance"), inf ? s.num["tolerance"] : v, "file overrides the program"); if (ls[k1].name && std::string(ls[k1].name) == "tolerance") vf_assert(inf, "file setting recorded"); vf_reach("done");
}

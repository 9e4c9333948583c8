// vf-bounds: problems of 2 variables and up to 3 constraints (dense, mixed dense-sparse, sparse; sparse also through the Fortran layer), every argument of every callback symbolic or each of both flag values; whole runs of at most 2 iterations with arbitrary objective values
// vf-flags: -DHIOP_SPARSE -DHIOP_USE_COINHSL
// vf-sources: LinAlg/hiopLinSolverSymSparseMA57.cpp Optimization/hiopKKTLinSysSparse.cpp Optimization/hiopKKTLinSysSparseCondensed.cpp Optimization/hiopKKTLinSysSparseNormalEqn.cpp Interface/hiopFortranInterface.c
#include "sm.hpp"
#include "vfstub.h"
#include "chiopInterface.hpp"
// the structures as the user's C compiler sees them
namespace cu {
#include "hiopInterface.h"
}
#undef HC_ARGS
struct Rec { const char* who = ""; int calls = 0, n = -1, m = -1, nx = -1, nl = -1, ns = -1, nd = -1, nnz = -1, nsd = -1; const double *x = 0, *l = 0; double of = 0; void* ud = 0; void hit(const char* w) { who = w; calls++; } } rec;
struct C1 : DProb { std::vector<DV> fv; bool memo = false; int fixed = 0; C1(const std::vector<int>& kx, const std::vector<int>& kc) : DProb(kx, kc, false, true) {}
  bool eval_f(const size_type& n_, const double* x, bool nx, double& o) { if (!memo) return DProb::eval_f(n_, x, nx, o); for (auto& e : fv) if (e[0] == x[0] && e[1] == x[1]) { o = e[2]; return true; } o = R("f"); vf_assume_le(o, 1e4); vf_assume_le(-1e4, o); fv.push_back({x[0], x[1], o}); return true; }
  void concrete() { memo = true; g = {1, -1}; h = {1, 2}; A = {1, 1, 1, -1}; A.resize(n * m); Q.assign(n * m, 0.); xl[0] = 0; xu[0] = 4; xl[1] = -1; xu[1] = INF; x0 = {1, 1}; for (int j = 0; j < m; j++) { if (kc[j] == K_UPP) cu[j] = 3; if (kc[j] == K_EQ) cl[j] = cu[j] = 2; } } };
static DProb* P; static MProb* M; static SProb* S; static int tag;
static std::vector<hiopInterfaceBase::NonlinearityType> T(8);
#define HIT(w) { rec = Rec(); rec.who = w; rec.ud = ud; rec.calls = 1; }
static int c_start(int n, double* x, void* ud) { HIT("start"); rec.n = n; P->get_starting_point(n, x); return 0; }
static int c_sizes(int* n, int* m, void* ud) { HIT("sizes"); P->get_prob_sizes(*n, *m); return 0; }
static int c_vars(int n, double* l, double* u, void* ud) { HIT("vars"); rec.n = n; P->get_vars_info(n, l, u, T.data()); return 0; }
static int c_cons(int m, double* l, double* u, void* ud) { HIT("cons"); rec.m = m; P->get_cons_info(m, l, u, T.data()); return 0; }
static int c_f(int n, double* x, int nx, double* o, void* ud) { HIT("f"); rec.n = n; rec.x = x; rec.nx = nx; P->eval_f(n, x, nx, *o); return 0; }
static int c_g(int n, double* x, int nx, double* o, void* ud) { HIT("g"); rec.n = n; rec.x = x; rec.nx = nx; P->eval_grad_f(n, x, nx, o); return 0; }
static int c_c(int n, int m, double* x, int nx, double* o, void* ud) { HIT("c"); rec.n = n; rec.m = m; rec.x = x; rec.nx = nx; P->eval_cons(n, m, x, nx, o); return 0; }
static int d_jac(int n, int m, double* x, int nx, double* J, void* ud) { HIT("j"); rec.n = n; rec.m = m; rec.x = x; rec.nx = nx; P->eval_Jac_cons(n, m, x, nx, J); return 0; }
static int m_blocks(int* a, int* b, int* c, int* d, int* e, int* f, void* ud) { HIT("b"); M->get_sparse_dense_blocks_info(*a, *b, *c, *d, *e, *f); return 0; }
static int m_jac(int n, int m, double* x, int nx, int ns, int nd, int nnz, int* i, int* j, double* v, double* De, void* ud) { HIT("j"); rec.n = n; rec.m = m; rec.x = x; rec.nx = nx; rec.ns = ns; rec.nd = nd; rec.nnz = nnz; M->eval_Jac_cons(n, m, x, nx, ns, nd, nnz, i, j, v, De); return 0; }
static int m_hess(int n, int m, double* x, int nx, double of, double* l, int nl, int ns, int nd, int nnz, int* i, int* j, double* v, double* H, int nsd, int* i2, int* j2, double* v2, void* ud) { HIT("h"); rec.n = n; rec.m = m; rec.x = x; rec.nx = nx; rec.of = of; rec.l = l; rec.nl = nl; rec.ns = ns; rec.nd = nd; rec.nnz = nnz; rec.nsd = nsd; M->eval_Hess_Lagr(n, m, x, nx, of, l, nl, ns, nd, nnz, i, j, v, H, nsd, i2, j2, v2); return 0; }
static int s_blocks(int* a, int* b, int* c, int* d, void* ud) { HIT("b"); S->get_sparse_blocks_info(*a, *b, *c, *d); return 0; }
static int s_jac(int n, int m, double* x, int nx, int nnz, int* i, int* j, double* v, void* ud) { HIT("j"); rec.n = n; rec.m = m; rec.x = x; rec.nx = nx; rec.nnz = nnz; S->eval_Jac_cons(n, m, x, nx, nnz, i, j, v); return 0; }
static int s_hess(int n, int m, double* x, int nx, double of, double* l, int nl, int nnz, int* i, int* j, double* v, void* ud) { HIT("h"); rec.n = n; rec.m = m; rec.x = x; rec.nx = nx; rec.of = of; rec.l = l; rec.nl = nl; rec.nnz = nnz; S->eval_Hess_Lagr(n, m, x, nx, of, l, nl, nnz, i, j, v); return 0; }
static const std::vector<std::vector<int>>& conf() { static std::vector<std::vector<int>> c = {{K_EQ, K_UPP}, {K_BOTH}, {K_LOW, K_EQ, K_EQ}}; return c; }
static void called(const char* w, bool ok, void* ud) { vf_assert(ok, "success handed on"); vf_assert(rec.calls == 1 && std::string(rec.who) == w, "the callback is called once"); vf_assert(rec.ud == ud, "user data handed on"); }
static bool same(const DV& a, const DV& b) { for (size_t i = 0; i < a.size(); i++) vf_assert_eq(a[i], b[i], "results handed on"); return true; }
// the part all three problem classes share, C++ side `I` against the reference `ref`
template <class I, class Q> static void common(I& I_, Q& ref, C1& p, void* ud) {
  hiopInterfaceBase& i = I_; int n, m; rec = Rec(); bool ok = i.get_prob_sizes(n, m); called("sizes", ok, ud); vf_assert(n == p.n && m == p.m, "sizes");
  DV a(n, 7.), b(n, 7.), c(m, 7.), d(m, 7.); std::vector<hiopInterfaceBase::NonlinearityType> t(8, hiopInterfaceBase::hiopLinear);
  rec = Rec(); ok = i.get_vars_info(n, a.data(), b.data(), t.data()); called("vars", ok, ud); same(a, p.xl); same(b, p.xu); vf_assert(rec.n == n, "n"); for (int k = 0; k < n; k++) vf_assert(t[k] == hiopInterfaceBase::hiopNonlinear, "variables treated as nonlinear");
  t.assign(8, hiopInterfaceBase::hiopLinear); rec = Rec(); ok = i.get_cons_info(m, c.data(), d.data(), t.data()); called("cons", ok, ud); same(c, p.cl); same(d, p.cu); vf_assert(rec.m == m, "m"); for (int k = 0; k < m; k++) vf_assert(t[k] == hiopInterfaceBase::hiopNonlinear, "constraints treated as nonlinear");
  rec = Rec(); ok = i.get_starting_point(n, a.data()); called("start", ok, ud); same(a, p.x0); vf_assert(rec.n == n, "n");
  DV x = symv(n, "x"); double v = 7, w; int nx = vf_choose("new_x", 2);
  auto chk = [&]() { vf_assert(rec.n == n, "n"); vf_assert(rec.x == x.data(), "point handed on"); vf_assert((rec.nx != 0) == (nx != 0), "new_x handed on"); };
  rec = Rec(); ok = i.eval_f(n, x.data(), nx, v); called("f", ok, ud); chk(); p.eval_f(n, x.data(), nx, w); vf_assert_eq(v, w, "objective");
  rec = Rec(); ok = i.eval_grad_f(n, x.data(), nx, a.data()); called("g", ok, ud); chk(); p.eval_grad_f(n, x.data(), nx, b.data()); same(a, b);
  rec = Rec(); ok = i.eval_cons(n, m, x.data(), nx, c.data()); called("c", ok, ud); chk(); vf_assert(rec.m == m, "m"); p.eval_cons(n, m, x.data(), nx, d.data()); same(c, d);
  // only the one-call form exists: the other has to say so
  index_type id[3] = {0, 1, 2}; rec = Rec(); ok = i.eval_cons(n, m, m, id, x.data(), nx, c.data()); vf_assert(!ok && rec.calls == 0, "two-call evaluation not offered");
}
template <class U> static void fill_c(U& u, C1& p) { u.user_data = &tag; u.get_starting_point = c_start; u.get_prob_sizes = c_sizes; u.get_vars_info = c_vars; u.get_cons_info = c_cons; u.eval_f = c_f; u.eval_grad_f = c_g; u.eval_cons = c_c; P = &p; }
static void fill_s(cu::cHiopSparseProblem& u, C1& p) { u.user_data_ = &tag; u.get_starting_point_ = c_start; u.get_prob_sizes_ = c_sizes; u.get_vars_info_ = c_vars; u.get_cons_info_ = c_cons; u.eval_f_ = c_f; u.eval_grad_f_ = c_g; u.eval_cons_ = c_c; u.get_sparse_blocks_info_ = s_blocks; u.eval_Jac_cons_ = s_jac; u.eval_Hess_Lagr_ = s_hess; P = &p; }
static std::vector<int> mask(const C1& p, int pt) { std::vector<int> k(p.n * p.m, 1); if (pt) for (size_t i = 0; i < k.size(); i++) k[i] = (i / 2 + i + pt) % 2; return k; }
static const std::vector<int> KX = {K_BOTH, K_LOW};
VF_HARNESS(dense, 0, "checked") {
  C1 p(KX, conf()[vf_choose("cons", 3)]); cu::cHiopDenseProblem u; memset(&u, 0, sizeof u); fill_c(u, p); u.eval_Jac_cons = d_jac;
  hiop_dense_create_problem((cHiopDenseProblem*)&u); auto& i = *(cppUserProblemDense*)u.hiopinterface; common(i, p, p, &tag);
  int n = p.n, m = p.m, nx = vf_choose("new_x2", 2); DV x = symv(n, "x"), J(n * m, 7.), K(n * m); rec = Rec(); bool ok = i.eval_Jac_cons(n, m, x.data(), nx, J.data()); called("j", ok, &tag); vf_assert(rec.n == n && rec.m == m && rec.x == x.data() && (rec.nx != 0) == (nx != 0), "arguments"); p.eval_Jac_cons(n, m, x.data(), nx, K.data()); same(J, K);
  vf_assert(u.user_data == &tag && u.eval_f == c_f && u.eval_Jac_cons == d_jac, "user's structure kept"); hiop_dense_destroy_problem((cHiopDenseProblem*)&u); vf_reach("checked");
}
VF_HARNESS(mds, 0, "checked") {
  C1 p(KX, conf()[vf_choose("cons", 3)]); int pt = vf_choose("pattern", 3), nsp = 1 + vf_choose("nsparse", 2); auto mk = mask(p, pt); for (int j = 0; j < p.m; j++) for (int i = nsp; i < p.n; i++) mk[j * p.n + i] = 1; MProb r(p, nsp, mk); M = &r;
  cu::cHiopMDSProblem u; memset(&u, 0, sizeof u); fill_c(u, p); u.get_sparse_dense_blocks_info = m_blocks; u.eval_Jac_cons = m_jac; u.eval_Hess_Lagr = m_hess;
  hiop_mds_create_problem((cHiopMDSProblem*)&u); auto& i = *(cppUserProblemMDS*)u.hiopinterface; common(i, r, p, &tag);
  int a[6], b[6]; rec = Rec(); bool ok = i.get_sparse_dense_blocks_info(a[0], a[1], a[2], a[3], a[4], a[5]); called("b", ok, &tag); r.get_sparse_dense_blocks_info(b[0], b[1], b[2], b[3], b[4], b[5]); for (int k = 0; k < 6; k++) vf_assert(a[k] == b[k], "block sizes");
  int n = p.n, m = p.m, nx = vf_choose("new_x2", 2), ns = b[0], nd = b[1], q = b[2] + b[3], h = b[4]; DV x = symv(n, "x"), l = symv(m, "l"), v(q, 7.), v2(q), De(m * nd, 7.), D2(m * nd), H(nd * nd, 7.), H2(nd * nd), w(h, 7.), w2(h); std::vector<int> I(q, 9), I2(q), J(q, 9), J2(q), hi(h, 9), hi2(h), hj(h, 9), hj2(h);
  rec = Rec(); ok = i.eval_Jac_cons(n, m, x.data(), nx, ns, nd, q, I.data(), J.data(), v.data(), De.data()); called("j", ok, &tag); vf_assert(rec.n == n && rec.m == m && rec.x == x.data() && (rec.nx != 0) == (nx != 0) && rec.ns == ns && rec.nd == nd && rec.nnz == q, "arguments");
  r.eval_Jac_cons(n, m, x.data(), nx, ns, nd, q, I2.data(), J2.data(), v2.data(), D2.data()); same(v, v2); same(De, D2); vf_assert(I == I2 && J == J2, "indexes");
  double of = R("of"); int nl = vf_choose("new_l", 2), z0 = 0, z1 = 0; rec = Rec(); ok = i.eval_Hess_Lagr(n, m, x.data(), nx, of, l.data(), nl, ns, nd, h, hi.data(), hj.data(), w.data(), H.data(), z0, nullptr, nullptr, nullptr); called("h", ok, &tag);
  vf_assert(rec.n == n && rec.m == m && rec.x == x.data() && (rec.nx != 0) == (nx != 0) && rec.ns == ns && rec.nd == nd && rec.nnz == h && rec.l == l.data() && (rec.nl != 0) == (nl != 0) && rec.nsd == 0, "arguments"); vf_assert_eq(rec.of, of, "objective factor");
  r.eval_Hess_Lagr(n, m, x.data(), nx, of, l.data(), nl, ns, nd, h, hi2.data(), hj2.data(), w2.data(), H2.data(), z1, nullptr, nullptr, nullptr); same(w, w2); same(H, H2); vf_assert(hi == hi2 && hj == hj2, "indexes");
  rec = Rec(); ok = i.eval_Jac_cons(n, m, m, nullptr, x.data(), nx, ns, nd, q, I.data(), J.data(), v.data(), De.data()); vf_assert(!ok && rec.calls == 0, "two-call evaluation not offered");
  hiop_mds_destroy_problem((cHiopMDSProblem*)&u); vf_reach("checked");
}
static void sparse_checks(cppUserProblemSparse& i, SProb& r, C1& p, void* ud, bool fortran) {
  int a[4], b[4]; rec = Rec(); bool ok = i.get_sparse_blocks_info(a[0], a[1], a[2], a[3]); if (!fortran) called("b", ok, ud); r.get_sparse_blocks_info(b[0], b[1], b[2], b[3]); for (int k = 0; k < 4; k++) vf_assert(a[k] == b[k], "block sizes");
  int n = p.n, m = p.m, nx = vf_choose("new_x2", 2), q = b[1] + b[2], h = b[3]; DV x = symv(n, "x"), l = symv(m, "l"), v(q, 7.), v2(q), w(h, 7.), w2(h); std::vector<int> I(q, 9), I2(q), J(q, 9), J2(q), hi(h, 9), hi2(h), hj(h, 9), hj2(h);
  auto args = [&](int nnz) { vf_assert(rec.n == n && rec.m == m && rec.x == x.data() && (rec.nx != 0) == (nx != 0) && rec.nnz == nnz, "arguments"); };
  rec = Rec(); ok = i.eval_Jac_cons(n, m, x.data(), nx, q, I.data(), J.data(), nullptr); called("j", ok, ud); args(q);
  rec = Rec(); ok = i.eval_Jac_cons(n, m, x.data(), nx, q, nullptr, nullptr, v.data()); called("j", ok, ud); args(q);
  r.eval_Jac_cons(n, m, x.data(), nx, q, I2.data(), J2.data(), v2.data()); same(v, v2); vf_assert(I == I2 && J == J2, "indexes");
  double of = R("of"); int nl = vf_choose("new_l", 2); auto ha = [&]() { args(h); vf_assert(rec.l == l.data() && (rec.nl != 0) == (nl != 0), "multipliers"); vf_assert_eq(rec.of, of, "objective factor"); };
  rec = Rec(); ok = i.eval_Hess_Lagr(n, m, x.data(), nx, of, l.data(), nl, h, hi.data(), hj.data(), nullptr); called("h", ok, ud); ha();
  rec = Rec(); ok = i.eval_Hess_Lagr(n, m, x.data(), nx, of, l.data(), nl, h, nullptr, nullptr, w.data()); called("h", ok, ud); ha();
  r.eval_Hess_Lagr(n, m, x.data(), nx, of, l.data(), nl, h, hi2.data(), hj2.data(), w2.data()); same(w, w2); vf_assert(hi == hi2 && hj == hj2, "indexes");
  rec = Rec(); ok = i.eval_Jac_cons(n, m, m, nullptr, x.data(), nx, q, I.data(), J.data(), v.data()); vf_assert(!ok && rec.calls == 0, "two-call evaluation not offered");
}
VF_HARNESS(sparse, 0, "checked") {
  C1 p(KX, conf()[vf_choose("cons", 3)]); int pt = vf_choose("pattern", 3); SProb r(p, mask(p, pt)); S = &r;
  cu::cHiopSparseProblem u; memset(&u, 0, sizeof u); fill_s(u, p);
  hiop_sparse_create_problem((cHiopSparseProblem*)&u); auto& i = *(cppUserProblemSparse*)u.hiopinterface_; common(i, r, p, &tag); sparse_checks(i, r, p, &tag, false);
  hiop_sparse_destroy_problem((cHiopSparseProblem*)&u); vf_reach("checked");
}
// whole runs give what the same run through the C++ interface gives
static void ends(hiopAlgFilterIPMBase& b, hiopSolveStatus st, C1& p, const double* sol, double obj, int niters, int status) {
  DV s(p.n, 7.); b.getSolution(s.data()); for (int i = 0; i < p.n; i++) vf_assert_eq(sol[i], s[i], "solution"); vf_assert_eq(obj, b.getObjective(), "objective value");
  bool seen = false; for (auto& e : p.fv) if (e[0] == sol[0] && e[1] == sol[1]) { seen = true; vf_assert_eq(obj, e[2], "objective value belongs to the solution"); } vf_assert(seen, "solution was evaluated");
  if (niters >= 0) { vf_assert(niters == b.getNumIterations(), "iterations"); vf_assert(status == (int)st, "status"); vf_assert(st == b.getSolveStatus(), "status"); }
}
template <class N> static void opts(N& n) { n.options->SetIntegerValue("verbosity_level", 0); n.options->SetIntegerValue("max_iter", 2); n.options->SetNumericValue("min_step_size", 0.4); n.options->SetStringValue("accept_every_trial_step", "yes"); }
VF_HARNESS(dense_run, 0, "run") {
  vfs_concrete = 1; C1 p(KX, {K_UPP}); p.concrete(); cu::cHiopDenseProblem u; memset(&u, 0, sizeof u); fill_c(u, p); u.eval_Jac_cons = d_jac; DV sol(2, 7.); u.solution = sol.data();
  hiop_dense_create_problem((cHiopDenseProblem*)&u); opts(*(hiopNlpDenseConstraints*)u.refcppHiop); hiop_dense_solve_problem((cHiopDenseProblem*)&u);
  hiopNlpDenseConstraints N(p); N.options->SetStringValue("duals_update_type", "linear"); N.options->SetStringValue("duals_init", "zero"); N.options->SetStringValue("fixed_var", "relax"); opts(N); hiopAlgFilterIPMQuasiNewton a(&N); auto st = a.run();
  ends(a, st, p, sol.data(), u.obj_value, u.niters, u.status); vf_reach("run");
}
VF_HARNESS(mds_run, 0, "run") {
  vfs_concrete = 1; vfs_inertia = 2; C1 p(KX, {K_UPP, K_EQ}); p.concrete(); MProb r(p, 1, std::vector<int>(4, 1)); M = &r; cu::cHiopMDSProblem u; memset(&u, 0, sizeof u); fill_c(u, p); u.get_sparse_dense_blocks_info = m_blocks; u.eval_Jac_cons = m_jac; u.eval_Hess_Lagr = m_hess; DV sol(2, 7.); u.solution = sol.data();
  hiop_mds_create_problem((cHiopMDSProblem*)&u); opts(*(hiopNlpMDS*)u.refcppHiop); hiop_mds_solve_problem((cHiopMDSProblem*)&u);
  hiopNlpMDS N(r); N.options->SetStringValue("duals_update_type", "linear"); N.options->SetStringValue("duals_init", "zero"); N.options->SetStringValue("Hessian", "analytical_exact"); N.options->SetStringValue("KKTLinsys", "xdycyd"); N.options->SetStringValue("compute_mode", "hybrid"); N.options->SetNumericValue("mu0", 1e-1); opts(N); hiopAlgFilterIPMNewton a(&N); auto st = a.run();
  ends(a, st, p, sol.data(), u.obj_value, -1, 0); vf_reach("run");
}
VF_HARNESS(sparse_run, 0, "run") {
  vfs_concrete = 1; vfs_inertia = 2; C1 p(KX, {K_UPP, K_EQ}); p.concrete(); SProb r(p, std::vector<int>(4, 1)); S = &r; cu::cHiopSparseProblem u; memset(&u, 0, sizeof u); fill_s(u, p); DV sol(2, 7.); u.solution_ = sol.data();
  hiop_sparse_create_problem((cHiopSparseProblem*)&u); opts(*(hiopNlpSparse*)u.refcppHiop_); hiop_sparse_solve_problem((cHiopSparseProblem*)&u);
  hiopNlpSparse N(r); N.options->SetStringValue("Hessian", "analytical_exact"); N.options->SetStringValue("KKTLinsys", "xdycyd"); N.options->SetStringValue("compute_mode", "cpu"); N.options->SetNumericValue("mu0", 1e-1); opts(N); hiopAlgFilterIPMNewton a(&N); auto st = a.run();
  ends(a, st, p, sol.data(), u.obj_value_, u.niters_, u.status_); vf_reach("run");
}
// the Fortran layer: 1-based indexes, everything by reference, a separate call for the structure
namespace fu {
typedef int hiop_size_type_; using cu::cHiopSparseProblem; using cu::cHiopDenseProblem;
#include "hiopFortranInterface.h"
}
extern "C" {
void* hiopsparseprob_(int*, int*, int*, int*, int*, double*, double*, double*, double*, double*, fu::f_eval_f_cb, fu::f_eval_c_cb, fu::f_eval_grad_cb, fu::f_eval_jac_sparse_cb, fu::f_eval_hess_sparse_cb);
void hiopsparsesolve_(void**, double*, double*); void deletehiopsparseprob_(void**);
void* hiopdenseprob_(int*, int*, double*, double*, double*, double*, double*, fu::f_eval_f_cb, fu::f_eval_c_cb, fu::f_eval_grad_cb, fu::f_eval_jac_dense_cb);
void hiopdensesolve_(void**, double*, double*); void deletehiopdenseprob_(void**);
}
static void* const ud = nullptr;
static void f_f(int* n, double* x, int* nx, double* o) { HIT("f"); rec.n = *n; rec.x = x; rec.nx = *nx; P->eval_f(*n, x, *nx, *o); }
static void f_g(int* n, double* x, int* nx, double* o) { HIT("g"); rec.n = *n; rec.x = x; rec.nx = *nx; P->eval_grad_f(*n, x, *nx, o); }
static void f_c(int* n, int* m, double* x, int* nx, double* o) { HIT("c"); rec.n = *n; rec.m = *m; rec.x = x; rec.nx = *nx; P->eval_cons(*n, *m, x, *nx, o); }
static void f_dj(int* n, int* m, double* x, int* nx, double* J) { HIT("j"); rec.n = *n; rec.m = *m; rec.x = x; rec.nx = *nx; P->eval_Jac_cons(*n, *m, x, *nx, J); }
static void f_sj(int* task, int* n, int* m, double* x, int* nx, int* nnz, int* i, int* j, double* v) { HIT("j"); rec.n = *n; rec.m = *m; rec.x = x; rec.nx = *nx; rec.nnz = *nnz;
  vf_assert(*task == 0 || *task == 1, "task"); if (*task == 1) { S->eval_Jac_cons(*n, *m, x, *nx, *nnz, nullptr, nullptr, v); return; } S->eval_Jac_cons(*n, *m, x, *nx, *nnz, i, j, nullptr); for (int k = 0; k < *nnz; k++) { i[k]++; j[k]++; } }
static void f_sh(int* task, int* n, int* m, double* of, double* x, int* nx, double* l, int* nl, int* nnz, int* i, int* j, double* v) { HIT("h"); rec.n = *n; rec.m = *m; rec.x = x; rec.nx = *nx; rec.of = *of; rec.l = l; rec.nl = *nl; rec.nnz = *nnz;
  vf_assert(*task == 0 || *task == 1, "task"); if (*task == 1) { S->eval_Hess_Lagr(*n, *m, x, *nx, *of, l, *nl, *nnz, nullptr, nullptr, v); return; } S->eval_Hess_Lagr(*n, *m, x, *nx, *of, l, *nl, *nnz, i, j, nullptr); for (int k = 0; k < *nnz; k++) { i[k]++; j[k]++; } }
struct FArgs { int n, m, e = 0, q = 0, h = 0; DV xl, xu, cl, cu, x0; FArgs(C1& p) : n(p.n), m(p.m), xl(p.xl), xu(p.xu), cl(p.cl), cu(p.cu), x0(p.x0) {} void clobber() { n = m = e = q = h = 77; for (auto v : {&xl, &xu, &cl, &cu, &x0}) v->assign(v->size(), 99.); } };
// sizes, bounds and the starting point are copies: the caller's arrays may change afterwards
template <class I> static void fcommon(I& i, C1& p) {
  int n, m; bool ok = i.get_prob_sizes(n, m); vf_assert(ok && n == p.n && m == p.m, "sizes"); DV a(n, 7.), b(n, 7.), c(m, 7.), d(m, 7.); std::vector<hiopInterfaceBase::NonlinearityType> t(8);
  ok = i.get_vars_info(n, a.data(), b.data(), t.data()); vf_assert(ok, "success"); same(a, p.xl); same(b, p.xu); ok = i.get_cons_info(m, c.data(), d.data(), t.data()); vf_assert(ok, "success"); same(c, p.cl); same(d, p.cu); ok = i.get_starting_point(n, a.data()); vf_assert(ok, "success"); same(a, p.x0);
  DV x = symv(n, "x"); double v = 7, w; int nx = vf_choose("new_x", 2); auto chk = [&](const char* wh) { vf_assert(ok && rec.calls == 1 && std::string(rec.who) == wh, "called once"); vf_assert(rec.n == n && rec.x == x.data() && (rec.nx != 0) == (nx != 0), "arguments"); };
  hiopInterfaceBase& ib = i; rec = Rec(); ok = ib.eval_f(n, x.data(), nx, v); chk("f"); p.eval_f(n, x.data(), nx, w); vf_assert_eq(v, w, "objective"); rec = Rec(); ok = ib.eval_grad_f(n, x.data(), nx, a.data()); chk("g"); p.eval_grad_f(n, x.data(), nx, b.data()); same(a, b);
  rec = Rec(); ok = ib.eval_cons(n, m, x.data(), nx, c.data()); chk("c"); vf_assert(rec.m == m, "m"); p.eval_cons(n, m, x.data(), nx, d.data()); same(c, d);
}
VF_HARNESS(fortran_dense, 0, "checked") {
  C1 p(KX, conf()[vf_choose("cons", 3)]); P = &p; FArgs f(p); void* h = hiopdenseprob_(&f.n, &f.m, f.xl.data(), f.xu.data(), f.cl.data(), f.cu.data(), f.x0.data(), f_f, f_c, f_g, f_dj); f.clobber();
  auto& i = *(cppUserProblemDense*)((fu::FDenseProb*)h)->c_prob->hiopinterface; fcommon(i, p);
  int n = p.n, m = p.m, nx = vf_choose("new_x2", 2); DV x = symv(n, "x"), J(n * m, 7.), K(n * m); rec = Rec(); bool ok = i.eval_Jac_cons(n, m, x.data(), nx, J.data()); vf_assert(ok && rec.calls == 1 && rec.n == n && rec.m == m && rec.x == x.data() && (rec.nx != 0) == (nx != 0), "arguments"); p.eval_Jac_cons(n, m, x.data(), nx, K.data()); same(J, K);
  deletehiopdenseprob_(&h); vf_assert(!h, "handle cleared"); vf_reach("checked");
}
VF_HARNESS(fortran_sparse, 0, "checked") {
  C1 p(KX, conf()[vf_choose("cons", 3)]); P = &p; int pt = vf_choose("pattern", 3); SProb r(p, mask(p, pt)); S = &r; FArgs f(p); int nn; r.get_sparse_blocks_info(nn, f.e, f.q, f.h);
  void* h = hiopsparseprob_(&f.n, &f.m, &f.e, &f.q, &f.h, f.xl.data(), f.xu.data(), f.cl.data(), f.cu.data(), f.x0.data(), f_f, f_c, f_g, f_sj, f_sh); f.clobber();
  auto& i = *(cppUserProblemSparse*)((fu::FSparseProb*)h)->c_prob_->hiopinterface_; fcommon(i, p); sparse_checks(i, r, p, nullptr, true);
  deletehiopsparseprob_(&h); vf_assert(!h, "handle cleared"); vf_reach("checked");
}
VF_HARNESS(fortran_run, 0, "dense,sparse") {
  vfs_concrete = 1; vfs_inertia = 2; bool sp = vf_choose("sparse", 2); C1 p(KX, sp ? std::vector<int>{K_UPP, K_EQ} : std::vector<int>{K_UPP}); p.concrete(); P = &p; FArgs f(p); double obj = 7; DV sol(2, 7.);
  if (!sp) { vfs_inertia = 0; void* h = hiopdenseprob_(&f.n, &f.m, f.xl.data(), f.xu.data(), f.cl.data(), f.cu.data(), f.x0.data(), f_f, f_c, f_g, f_dj); auto* u = ((fu::FDenseProb*)h)->c_prob; opts(*(hiopNlpDenseConstraints*)u->refcppHiop); hiopdensesolve_(&h, &obj, sol.data());
    vf_assert_eq(obj, u->obj_value, "objective value"); for (int i = 0; i < 2; i++) vf_assert_eq(sol[i], u->solution[i], "solution"); vf_reach("dense"); deletehiopdenseprob_(&h); }
  else { SProb r(p, std::vector<int>(4, 1)); S = &r; int nn; r.get_sparse_blocks_info(nn, f.e, f.q, f.h); void* h = hiopsparseprob_(&f.n, &f.m, &f.e, &f.q, &f.h, f.xl.data(), f.xu.data(), f.cl.data(), f.cu.data(), f.x0.data(), f_f, f_c, f_g, f_sj, f_sh); auto* u = ((fu::FSparseProb*)h)->c_prob_; opts(*(hiopNlpSparse*)u->refcppHiop_); hiopsparsesolve_(&h, &obj, sol.data());
    vf_assert_eq(obj, u->obj_value_, "objective value"); for (int i = 0; i < 2; i++) vf_assert_eq(sol[i], u->solution_[i], "solution"); vf_reach("sparse"); deletehiopsparseprob_(&h); }
  bool seen = false; for (auto& e : p.fv) if (e[0] == sol[0] && e[1] == sol[1]) { seen = true; vf_assert_eq(obj, e[2], "objective value belongs to the solution"); } vf_assert(seen, "solution was evaluated");
}

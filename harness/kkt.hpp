// fixtures for the KKT linear systems: arbitrary regularization, accept-everything factorizations, full-space Newton blocks
#ifndef KKT_HPP
#define KKT_HPP
#include <functional>
#include "fix.hpp"
#include "hiopKKTLinSys.hpp"
#include "hiopPDPerturbation.hpp"
#include "hiopFactAcceptor.hpp"
struct AnyDelta : hiopPDPerturbationPrimalFirstScalar {
  bool compute_initial_deltas() { return true; }
  bool check_consistency() { return true; }
  void first() { double c = 0.25; int k = 0; for (auto v : {delta_wx_curr_, delta_wd_curr_, delta_cc_curr_, delta_cd_curr_}) { v->setToConstant(dual0 && k >= 2 ? 0. : c); c = 2 * c; k++; } deltas_curr_update_ = Initialized; if (hook) hook(); }
  std::function<void()> hook; // called once new regularizations are in place
  bool dual0 = false; // no dual regularization
  void any(int mode) { // 0: none, 1: arbitrary nonnegative vectors
    for (auto v : {delta_wx_curr_, delta_wd_curr_, delta_cc_curr_, delta_cd_curr_}) v->setToZero();
    deltas_curr_update_ = PDUpdate;
    if (mode) more();
    if (hook) hook();
  }
  void more() {
    auto f = [](hiopVector* v, const char* b) { for (int i = 0; i < v->get_local_size(); i++) v->local_data()[i] = vf_nonneg(nm(b, i).c_str()); };
    f(delta_wx_curr_, "dwx"); f(delta_wd_curr_, "dwd"); if (!dual0) { f(delta_cc_curr_, "dcc"); f(delta_cd_curr_, "dcd"); }
  }
};
struct AcceptAll : hiopFactAcceptor {
  AcceptAll() : hiopFactAcceptor(nullptr) {}
  int requireReFactorization(const hiopNlpFormulation&, const int&, const bool = false) { return 0; }
};
// rejects the first factorization (made with other regularizations) and accepts the second
struct AcceptSecond : hiopFactAcceptor {
  AnyDelta& p; int reg, k = 0;
  AcceptSecond(AnyDelta& p_, int r) : hiopFactAcceptor(nullptr), p(p_), reg(r) { p.first(); }
  int requireReFactorization(const hiopNlpFormulation&, const int&, const bool = false) { if (k++ == 0) { p.any(reg); return 1; } return 0; }
};
// slacks and multipliers of the inequalities within [1e-8,1e8] (hiopVectorPar::invert refuses |v| < 1e-35)
static inline void moderate(hiopNlpFormulation& N, hiopIterate& it) {
  for (auto v : {it.sdl, it.sdu, it.vl, it.vu}) for (int i = 0; i < v->get_local_size(); i++) {
    const hiopVector& p = v == it.sdl || v == it.vl ? N.get_idl() : N.get_idu();
    if (p.local_data_const()[i] == 1.) { vf_assume_le(1e-8, v->local_data()[i]); vf_assume_le(v->local_data()[i], 1e8); }
  }
}
static inline void any_resid(hiopNlpFormulation& N, hiopResidual& r) {
  fill(r.rx, "rx"); fill(r.rd, "rd"); fill(r.ryc, "ryc"); fill(r.ryd, "ryd");
  fill_pat(r.rxl, N.get_ixl(), "rxl"); fill_pat(r.rxu, N.get_ixu(), "rxu"); fill_pat(r.rdl, N.get_idl(), "rdl"); fill_pat(r.rdu, N.get_idu(), "rdu");
  fill_pat(r.rszl, N.get_ixl(), "rszl"); fill_pat(r.rszu, N.get_ixu(), "rszu"); fill_pat(r.rsvl, N.get_idl(), "rsvl"); fill_pat(r.rsvu, N.get_idu(), "rsvu");
}
// left-hand side of the full Newton system at (dir); H, Jc, Jd given as dense row-major values
struct Lhs { DV x, d, yc, yd, xl, xu, dl, du, szl, szu, svl, svu; };
static inline Lhs newton_lhs(hiopNlpFormulation& N, const hiopIterate& it, const hiopIterate& dir, int n, int me, int mi, const DV& H, const DV& Jc, const DV& Jd, const DV& wx, const DV& wd, const DV& cc, const DV& cd) {
  Lhs L;
  auto d = [](hiopVector* v) { return v->local_data(); };
  auto on = [](const hiopVector& p, int i) { return p.local_data_const()[i] == 1.; };
  for (int i = 0; i < n; i++) {
    double v = wx[i] * d(dir.x)[i];
    for (int j = 0; j < n; j++) v = v + H[i * n + j] * d(dir.x)[j];
    for (int k = 0; k < me; k++) v = v + Jc[k * n + i] * d(dir.yc)[k];
    for (int k = 0; k < mi; k++) v = v + Jd[k * n + i] * d(dir.yd)[k];
    L.x.push_back(v - d(dir.zl)[i] + d(dir.zu)[i]);
    L.xl.push_back(on(N.get_ixl(), i) ? d(dir.sxl)[i] - d(dir.x)[i] : d(dir.sxl)[i]);
    L.xu.push_back(on(N.get_ixu(), i) ? d(dir.sxu)[i] + d(dir.x)[i] : d(dir.sxu)[i]);
    L.szl.push_back(on(N.get_ixl(), i) ? d(it.sxl)[i] * d(dir.zl)[i] + d(it.zl)[i] * d(dir.sxl)[i] : d(dir.zl)[i]);
    L.szu.push_back(on(N.get_ixu(), i) ? d(it.sxu)[i] * d(dir.zu)[i] + d(it.zu)[i] * d(dir.sxu)[i] : d(dir.zu)[i]);
  }
  for (int i = 0; i < mi; i++) {
    L.d.push_back(wd[i] * d(dir.d)[i] - d(dir.yd)[i] - d(dir.vl)[i] + d(dir.vu)[i]);
    L.dl.push_back(on(N.get_idl(), i) ? d(dir.sdl)[i] - d(dir.d)[i] : d(dir.sdl)[i]);
    L.du.push_back(on(N.get_idu(), i) ? d(dir.sdu)[i] + d(dir.d)[i] : d(dir.sdu)[i]);
    L.svl.push_back(on(N.get_idl(), i) ? d(it.sdl)[i] * d(dir.vl)[i] + d(it.vl)[i] * d(dir.sdl)[i] : d(dir.vl)[i]);
    L.svu.push_back(on(N.get_idu(), i) ? d(it.sdu)[i] * d(dir.vu)[i] + d(it.vu)[i] * d(dir.sdu)[i] : d(dir.vu)[i]);
    double v = -d(dir.d)[i] - cd[i] * d(dir.yd)[i];
    for (int j = 0; j < n; j++) v = v + Jd[i * n + j] * d(dir.x)[j];
    L.yd.push_back(v);
  }
  for (int k = 0; k < me; k++) {
    double v = -cc[k] * d(dir.yc)[k];
    for (int j = 0; j < n; j++) v = v + Jc[k * n + j] * d(dir.x)[j];
    L.yc.push_back(v);
  }
  return L;
}
static inline void eqb(hiopVector* r, const DV& v, const char* l) { for (size_t i = 0; i < v.size(); i++) vf_assert_eq(v[i], r->local_data()[i], l); }
static inline void newton_check(const Lhs& L, const hiopResidual& r) {
  eqb(r.rxl, L.xl, "lower slack of x"); eqb(r.rxu, L.xu, "upper slack of x"); eqb(r.rdl, L.dl, "lower slack of d"); eqb(r.rdu, L.du, "upper slack of d");
  eqb(r.rszl, L.szl, "complementarity zl"); eqb(r.rszu, L.szu, "complementarity zu"); eqb(r.rsvl, L.svl, "complementarity vl"); eqb(r.rsvu, L.svu, "complementarity vu");
  eqb(r.ryc, L.yc, "equality rows"); eqb(r.ryd, L.yd, "inequality rows"); eqb(r.rd, L.d, "stationarity in d"); eqb(r.rx, L.x, "stationarity in x");
}
#endif

// vf-bounds: vectors of up to 3 parts with 0-2 entries each (4 layouts; total length up to 3, thorough 4) and of three parts with 4, 2 and 3 entries (one arbitrary entry per part), arbitrary contents, selection patterns and scalars; also the 12-part vectors built from an iterate and a residual
#include "hc.hpp"
#include "hiopVectorCompoundPD.hpp"
#include "hiopVectorIntCompoundPD.hpp"
#include "fix.hpp"
typedef hiopVectorCompoundPD C;
static std::vector<int> layout() { switch (vf_choose("layout", vf_thorough() ? 6 : 5)) { case 0: return {2, 1}; case 1: return {1, 1}; case 2: return {1, 0, 1}; case 3: return {2}; case 4: hc_focus = 1 + vf_choose("focus", 3) * 7 / 2; return {4, 2, 3}; // three parts, nine entries, one of them arbitrary
  default: return {1, 2, 1}; } }
struct CV { C c; std::vector<hiopVectorPar*> p; hiopVectorPar w; DV s; // compound and concatenated
  CV(const std::vector<int>& L, const DV& x) : c(true), w((int)x.size()), s(x) { int k = 0; for (int n : L) { auto* q = new hiopVectorPar(n); for (int i = 0; i < n; i++) q->local_data()[i] = x[k++]; p.push_back(q); c.addVector(q); } put(w, x); vf_assert(c.get_size() == (int)x.size() && c.get_num_parts() == (int)L.size(), "size of the compound"); }
  CV(const std::vector<int>& L, const std::string& b) : CV(L, symv(tot(L), b)) {}
  static int tot(const std::vector<int>& L) { int n = 0; for (int k : L) n += k; return n; }
  static DV of(const C& c) { DV r; for (int i = 0; i < c.get_num_parts(); i++) for (double d : ::get(c.getVector(i))) r.push_back(d); return r; }
  void same(const char* l) { eqd(of(c), ::get(w), l); }
  void unchanged() { eqd(of(c), s, "operand unchanged"); } };
static void ne0(const DV& v) { for (double d : v) vf_assume_ne(d, 0); }
static void pos(const DV& v) { for (double d : v) vf_assume_lt(0, d); }
VF_HARNESS(unary, 0, "done") {
  auto L = layout(); CV a(L, "a"); double c = R("c"); int n = a.s.size();
  switch (vf_choose("op", 16)) {
  case 0: a.c.setToZero(); a.w.setToZero(); break;
  case 1: a.c.setToConstant(c); a.w.setToConstant(c); break;
  case 2: a.c.component_min(c); a.w.component_min(c); break;
  case 3: a.c.component_max(c); a.w.component_max(c); break;
  case 4: a.c.component_abs(); a.w.component_abs(); break;
  case 5: a.c.component_sgn(); a.w.component_sgn(); break;
  case 6: for (double d : a.s) vf_assume_le(0, d); a.c.component_sqrt(); a.w.component_sqrt(); break;
  case 7: a.c.scale(c); a.w.scale(c); break;
  case 8: a.c.addConstant(c); a.w.addConstant(c); break;
  case 9: a.c.negate(); a.w.negate(); break;
  case 10: ne0(a.s); for (double d : a.s) vf_assume_lt(1e-30, dabs_(d)); a.c.invert(); a.w.invert(); break;
  case 11: { CV p(L, pat(n, "p")); a.c.setToConstant_w_patternSelect(c, p.c); a.w.setToConstant_w_patternSelect(c, p.w); p.unchanged(); break; }
  case 12: { CV p(L, pat(n, "p")); a.c.addConstant_w_patternSelect(c, p.c); a.w.addConstant_w_patternSelect(c, p.w); break; }
  case 13: { CV p(L, pat(n, "p")); a.c.selectPattern(p.c); a.w.selectPattern(p.w); break; }
  case 14: { CV p(L, pat(n, "p")), q(L, n > 5 ? DV(n, 1. - p.s[2]) : pat(n, "q")); double al = R("al"), ct = R("ct"); a.c.addLinearDampingTerm(p.c, q.c, al, ct); a.w.addLinearDampingTerm(p.w, q.w, al, ct); break; }
  case 15: { auto* k = dynamic_cast<C*>(a.c.new_copy()); eqd(CV::of(*k), a.s, "copied"); a.c.setToZero(); eqd(CV::of(*k), a.s, "copy is independent"); auto* z = dynamic_cast<C*>(k->alloc_clone()); vf_assert(z->get_size() == n && z->get_num_parts() == (int)L.size(), "clone shape"); delete z; delete k; a.w.setToZero(); break; }
  }
  a.same("element-wise operation"); vf_reach("done");
}
VF_HARNESS(binary, 0, "done") {
  auto L = layout(); CV a(L, "a"), x(L, "x"); int n = a.s.size(); double c = vf_choose("scalar", 2) ? R("c") : 0.; bool one = false;
  switch (vf_choose("op", 15)) {
  case 0: a.c.copyFrom(x.c); a.w.copyFrom(x.w); break;
  case 1: { CV p(L, pat(n, "p")); a.c.copy_from_w_pattern(x.c, p.c); a.w.copy_from_w_pattern(x.w, p.w); break; }
  case 2: a.c.componentMult(x.c); a.w.componentMult(x.w); break;
  case 3: ne0(x.s); a.c.componentDiv(x.c); a.w.componentDiv(x.w); break;
  case 4: { CV p(L, pat(n, "p")); ne0(x.s); a.c.componentDiv_w_selectPattern(x.c, p.c); a.w.componentDiv_w_selectPattern(x.w, p.w); break; }
  case 5: a.c.component_min(x.c); a.w.component_min(x.w); break;
  case 6: a.c.component_max(x.c); a.w.component_max(x.w); break;
  case 7: a.c.axpy(c, x.c); a.w.axpy(c, x.w); break;
  case 8: { CV p(L, pat(n, "p")); a.c.axpy_w_pattern(c, x.c, p.c); a.w.axpy_w_pattern(c, x.w, p.w); break; }
  case 9: { CV z(L, "z"); a.c.axzpy(c, x.c, z.c); a.w.axzpy(c, x.w, z.w); z.unchanged(); break; }
  case 10: { CV z(L, "z"); ne0(z.s); a.c.axdzpy(c, x.c, z.c); a.w.axdzpy(c, x.w, z.w); z.unchanged(); break; }
  case 11: { CV z(L, "z"), p(L, pat(n, "p")); ne0(z.s); a.c.axdzpy_w_pattern(c, x.c, z.c, p.c); a.w.axdzpy_w_pattern(c, x.w, z.w, p.w); z.unchanged(); p.unchanged(); break; }
  case 12: { CV p(L, pat(n, "p")); pos(x.s); a.c.addLogBarrierGrad(c, x.c, p.c); a.w.addLogBarrierGrad(c, x.w, p.w); break; }
  case 13: { CV p(L, pat(n, "p")); pos(a.s); pos(x.s); double mu = vf_pos("mu"), ka = vf_in("kappa", 1., 1e10); a.c.adjustDuals_plh(x.c, p.c, mu, ka); a.w.adjustDuals_plh(x.w, p.w, mu, ka); break; }
  case 14: { C b(true); hiopVectorIntCompoundPD ib; int k = 0; hiopVectorIntSeq iw(n); for (int m : L) { auto* q = new hiopVectorIntSeq(m); for (int i = 0; i < m; i++) { int t = vf_choose("idx", m); q->local_data()[i] = t; iw.local_data()[k + i] = k + t; } ib.addVector(q); k += m; } a.c.copy_from_indexes(x.c, ib); a.w.copy_from_indexes(x.w, iw); break; }
  }
  a.same("element-wise operation of two vectors"); x.unchanged(); vf_reach("done");
}
VF_HARNESS(reduce, 0, "done") {
  auto L = layout(); CV a(L, "a"); int n = a.s.size();
  switch (vf_choose("op", 21)) {
  case 0: { if (n > 5) { vf_reach("done"); return; } double r = a.c.twonorm(), e = a.w.twonorm(); vf_assert_le(0, r, "2-norm"); vf_assert_eq(r * r, e * e, "2-norm"); break; }
  case 1: { CV x(L, "x"); vf_assert_eq(a.c.dotProductWith(x.c), a.w.dotProductWith(x.w), "dot product"); break; }
  case 2: vf_assert_eq(a.c.infnorm(), a.w.infnorm(), "largest magnitude"); break;
  case 3: vf_assert_eq(a.c.infnorm_local(), a.w.infnorm_local(), "largest magnitude"); break;
  case 4: vf_assert_eq(a.c.onenorm(), a.w.onenorm(), "1-norm"); break;
  case 5: vf_assert_eq(a.c.onenorm_local(), a.w.onenorm_local(), "1-norm"); break;
  case 6: vf_assert_eq(a.c.min(), a.w.min(), "smallest"); break;
  case 7: { CV p(L, pat(n, "p")); vf_assert_eq(a.c.min_w_pattern(p.c), a.w.min_w_pattern(p.w), "smallest selected"); break; }
  case 8: { CV p(L, pat(n, "p")); pos(a.s); vf_assert_eq(a.c.logBarrier_local(p.c), a.w.logBarrier_local(p.w), "log-barrier"); break; }
  case 9: vf_assert_eq(a.c.sum_local(), a.w.sum_local(), "sum"); break;
  case 10: { CV p(L, pat(n, "p")), q(L, n > 5 ? DV(n, 1. - p.s[2]) : pat(n, "q")); double mu = R("mu"), k = R("kd"); vf_assert_eq(a.c.linearDampingTerm_local(p.c, q.c, mu, k), a.w.linearDampingTerm_local(p.w, q.w, mu, k), "damping term"); break; }
  case 11: vf_assert(!a.c.allPositive() == !a.w.allPositive(), "all positive"); break;
  case 12: { CV p(L, pat(n, "p")); vf_assert(!a.c.allPositive_w_patternSelect(p.c) == !a.w.allPositive_w_patternSelect(p.w), "selected positive"); break; }
  case 13: { CV x(L, "x"); double tau = vf_in("tau", 0.5, 0.9999); pos(a.s); vf_assert_eq(a.c.fractionToTheBdry_local(x.c, tau), a.w.fractionToTheBdry_local(x.w, tau), "fraction to the boundary"); break; }
  case 14: { CV x(L, "x"), p(L, pat(n, "p")); double tau = vf_in("tau", 0.5, 0.9999); for (int i = 0; i < n; i++) if (p.s[i] != 0) vf_assume_lt(0, a.s[i]); vf_assert_eq(a.c.fractionToTheBdry_w_pattern_local(x.c, tau, p.c), a.w.fractionToTheBdry_w_pattern_local(x.w, tau, p.w), "fraction to the boundary"); break; }
  case 15: { CV p(L, pat(n, "p")); vf_assert(a.c.matchesPattern(p.c) == a.w.matchesPattern(p.w), "matches pattern"); break; }
  case 16: vf_assert(a.c.is_zero() == a.w.is_zero(), "all zero"); break;
  case 17: { int k = vf_choose("where", n), what = vf_choose("what", 4); if (what) { double v = what == 1 ? NAN : what == 2 ? INFINITY : -INFINITY; int q = k; for (size_t i = 0; i < L.size(); i++) { if (q < L[i]) { a.p[i]->local_data()[q] = v; break; } q -= L[i]; } a.w.local_data()[k] = v; } vf_assert(a.c.isnan_local() == a.w.isnan_local(), "nan"); vf_assert(a.c.isinf_local() == a.w.isinf_local(), "inf"); vf_assert(a.c.isfinite_local() == a.w.isfinite_local(), "finite"); return; }
  case 18: { double v = R("v"); vf_assert(a.c.numOfElemsLessThan(v) == a.w.numOfElemsLessThan(v), "count below"); break; }
  case 19: { double v = R("v"); vf_assert(a.c.numOfElemsAbsLessThan(v) == a.w.numOfElemsAbsLessThan(v), "count of small entries"); break; }
  case 20: vf_assert(a.c.get_local_size() == n, "local size"); break;
  }
  a.unchanged(); vf_reach("done");
}
VF_HARNESS(project, 0, "success,failure") {
  std::vector<int> L = vf_choose("layout", 2) ? std::vector<int>{1, 1} : std::vector<int>{2}; CV a(L, "a"), l(L, "l"), u(L, "u"), p(L, pat(2, "p")), q(L, pat(2, "q")); double k1 = vf_in("k1", 0.001, 1.), k2 = vf_in("k2", 0.001, 0.49);
  bool bad = vf_choose("reversed", 2); if (!bad) for (int i = 0; i < 2; i++) vf_assume_le(l.s[i] + 1.0 / 1024, u.s[i]); else vf_assume_lt(u.s[0], l.s[0]);
  if (bad) { vf_assume(p.s[0] == 1 && q.s[0] == 1 && p.s[1] == 1 && q.s[1] == 0); }
  bool r = a.c.projectIntoBounds_local(l.c, p.c, u.c, q.c, k1, k2), e = a.w.projectIntoBounds_local(l.w, p.w, u.w, q.w, k1, k2); vf_assert(r == e, "projection outcome"); if (e) { a.same("projected into the bounds"); vf_reach("success"); } else vf_reach("failure");
}
// the parts of an iterate and of a residual correspond, in the order of the KKT blocks
VF_HARNESS(blocks, 0, "done") {
  DProb p({K_BOTH, K_LOW}, {K_EQ, K_UPP}, true, false); NlpFix<> F(p); F.init(); hiopIterate it(&F.nlp), i2(&F.nlp); hiopResidual r(&F.nlp);
  hiopVector* iv[12] = {it.x, it.d, it.yc, it.yd, it.sxl, it.sxu, it.sdl, it.sdu, it.zl, it.zu, it.vl, it.vu}; hiopVector* rv[12] = {r.rx, r.rd, r.ryc, r.ryd, r.rxl, r.rxu, r.rdl, r.rdu, r.rszl, r.rszu, r.rsvl, r.rsvu}; DV a, b;
  for (int k = 0; k < 12; k++) { for (int i = 0; i < iv[k]->get_local_size(); i++) { D(iv[k])[i] = R(nm("i" + std::to_string(k) + "_", i)); a.push_back(D(iv[k])[i]); } for (int i = 0; i < rv[k]->get_local_size(); i++) { D(rv[k])[i] = R(nm("r" + std::to_string(k) + "_", i)); b.push_back(D(rv[k])[i]); } }
  C ci(&it), cr(&r); vf_assert(ci.get_num_parts() == 12 && cr.get_num_parts() == 12 && ci.get_size() == (int)a.size() && cr.get_size() == (int)b.size(), "sizes"); eqd(CV::of(ci), a, "parts of the iterate"); eqd(CV::of(cr), b, "parts of the residual");
  C* n = dynamic_cast<C*>(ci.alloc_clone()); n->copy_from_resid(&r); eqd(CV::of(*n), b, "copied from a residual"); n->copy_from_iterate(&it); eqd(CV::of(*n), a, "copied from an iterate"); delete n;
  ci.axpy(1., cr); for (size_t i = 0; i < a.size(); i++) a[i] = a[i] + b[i]; eqd(CV::of(ci), a, "the compound is a view"); DV c; for (auto* v : iv) for (double d : ::get(*v)) c.push_back(d); eqd(c, a, "the compound is a view"); vf_reach("done");
}

// vf-bounds: local vectors of 0..3 and 9 entries (thorough also 17) with arbitrary real contents and scalars (operations that split cases: one arbitrary entry at every position of the long vectors); two-rank partitions with an arbitrary peer contribution for reductions; scalars -1, 0, 1 as separate cases
#include "hc.hpp"
static int N() { int k = vf_choose("n", vf_thorough() ? 6 : 5); return k == 4 ? 9 : k == 5 ? 17 : k; }
static int Ns() { int k = vf_choose("n", vf_thorough() ? 6 : 5); return k == 4 ? big(9) : k == 5 ? big(17) : k; } // for operations that split cases per entry: long vectors have one arbitrary entry at any position
static double scal(const char* n) { int k = vf_choose("scalar", 4); return k == 0 ? 0.0 : k == 1 ? 1.0 : k == 2 ? -1.0 : vf_real(n); }

VF_HARNESS(elementwise, 0, "done") {
  int n = N();
  HV y(n, "y"), x(n, "x");
  DV e = y.s;
  switch (vf_choose("op", 14)) {
  case 0: y.v.componentMult(x.v); for (int i = 0; i < n; i++) e[i] = y.s[i] * x.s[i]; break;
  case 1: for (int i = 0; i < n; i++) vf_assume_ne(x.s[i], 0); y.v.componentDiv(x.v); for (int i = 0; i < n; i++) e[i] = y.s[i] / x.s[i]; break;
  case 2: y.v.component_min(x.v); for (int i = 0; i < n; i++) e[i] = dmin(y.s[i], x.s[i]); break;
  case 3: y.v.component_max(x.v); for (int i = 0; i < n; i++) e[i] = dmax(y.s[i], x.s[i]); break;
  case 4: { double c = R("c"); y.v.component_min(c); for (int i = 0; i < n; i++) e[i] = dmin(y.s[i], c); break; }
  case 5: { double c = R("c"); y.v.component_max(c); for (int i = 0; i < n; i++) e[i] = dmax(y.s[i], c); break; }
  case 6: y.v.component_abs(); for (int i = 0; i < n; i++) e[i] = dabs_(y.s[i]); break;
  case 7: y.v.component_sgn(); for (int i = 0; i < n; i++) e[i] = y.s[i] > 0 ? 1 : y.s[i] < 0 ? -1 : 0; break;
  case 8: for (int i = 0; i < n; i++) vf_assume_le(0, y.s[i]); y.v.component_sqrt();
    for (int i = 0; i < n; i++) { double r = y.v.local_data()[i]; vf_assert_le(0, r, "sqrt nonnegative"); vf_assert_eq(r * r, y.s[i], "sqrt squared"); }
    vf_reach("done"); return;
  case 9: y.v.negate(); for (int i = 0; i < n; i++) e[i] = -y.s[i]; break;
  case 10: for (int i = 0; i < n; i++) { vf_assume(dabs_(y.s[i]) >= 1e-30); } y.v.invert(); for (int i = 0; i < n; i++) e[i] = 1 / y.s[i]; break;
  case 11: y.v.setToZero(); for (int i = 0; i < n; i++) e[i] = 0; break;
  case 12: { double c = R("c"); y.v.setToConstant(c); for (int i = 0; i < n; i++) e[i] = c; break; }
  case 13: { double c = R("c"); y.v.addConstant(c); for (int i = 0; i < n; i++) e[i] = y.s[i] + c; break; }
  }
  eqv(y.v, e, "element-wise result");
  x.unchanged();
  vf_reach("done");
}
VF_HARNESS(blas1, 0, "done") {
  int n = N();
  double a = scal("a");
  HV y(n, "y"), x(n, "x"), z(n, "z");
  DV e = y.s;
  switch (vf_choose("op", 5)) {
  case 0: y.v.scale(a); for (int i = 0; i < n; i++) e[i] = a * y.s[i]; break;
  case 1: y.v.axpy(a, x.v); for (int i = 0; i < n; i++) e[i] = y.s[i] + a * x.s[i]; break;
  case 2: y.v.axzpy(a, x.v, z.v); for (int i = 0; i < n; i++) e[i] = y.s[i] + a * x.s[i] * z.s[i]; break;
  case 3: for (int i = 0; i < n; i++) vf_assume_ne(z.s[i], 0); y.v.axdzpy(a, x.v, z.v); for (int i = 0; i < n; i++) e[i] = y.s[i] + a * x.s[i] / z.s[i]; break;
  case 4: { if (n > 4) return; // alpha*this + sign*ct with sign=1 left only, -1 right only
    DV l = pat(n, "l"), r = pat(n, "r"); HV L(l), U(r); double ct = R("ct");
    y.v.addLinearDampingTerm(L.v, U.v, a, ct);
    for (int i = 0; i < n; i++) e[i] = a * y.s[i] + (l[i] - r[i]) * ct;
    L.unchanged(); U.unchanged(); break; }
  }
  eqv(y.v, e, "axpy family result");
  x.unchanged(); z.unchanged();
  vf_reach("done");
}
VF_HARNESS(copies, 0, "done") {
  int n = N();
  HV y(n, "y"), x(n, "x");
  double a = R("a");
  switch (vf_choose("op", 7)) {
  case 0: y.v.copyFrom(x.v); eqv(y.v, x.s, "copyFrom"); break;
  case 1: y.v.copyFrom(x.v.local_data_const()); eqv(y.v, x.s, "copyFrom array"); break;
  case 2: y.v.copy_from_vectorpar(x.v); eqv(y.v, x.s, "copy_from_vectorpar"); break;
  case 3: x.v.copy_to_vectorpar(y.v); eqv(y.v, x.s, "copy_to_vectorpar"); break;
  case 4: x.v.copyTo(y.v.local_data()); eqv(y.v, x.s, "copyTo"); break;
  case 5: { hiopVector* c = x.v.new_copy(); eqv(*c, x.s, "new_copy"); vf_assert(c->get_size() == n, "size"); c->addConstant(a); delete c; break; }
  case 6: { hiopVector* c = x.v.alloc_clone(); vf_assert(c->get_size() == n && c->get_local_size() == n && c->local_data() != x.v.local_data(), "clone"); c->setToConstant(a); delete c; break; }
  }
  x.unchanged();
  vf_reach("done");
}
// ---- reductions, one rank and two ranks
static double g_peer[8]; static int g_peeri; static int g_lastop; static int g_np;
static double peerd(int, int k, double, int op) { g_lastop = op; g_np++; return g_peer[k]; }
static int peeri(int, int k, int, int op) { g_lastop = op; g_np++; return g_peeri; }
struct Dist { // a distributed vector whose local part has n entries
  index_type part[3]; hiopVectorPar* v; DV s;
  Dist(int n, const char* b, bool dist, int rank) {
    part[0] = 0; part[1] = rank == 0 ? n : 2; part[2] = n + 2;
    v = dist ? new hiopVectorPar(n + 2, part, MPI_COMM_WORLD) : new hiopVectorPar(n);
    s = symv(n, b); put(*v, s);
  }
  ~Dist() { delete v; }
};
static bool setup_dist(int& rank) {
  bool d = vf_choose("distributed", 2); rank = 0;
  g_np = 0;
  if (d) { rank = vf_choose("rank", 2); vfs_mpi_rank = rank; vfs_mpi_peer_d = peerd; vfs_mpi_peer_i = peeri; }
  return d;
}
VF_HARNESS(reductions, 0, "done,dist") {
  int n = Ns(), rk; bool d = setup_dist(rk);
  Dist X(n, "x", d, rk), Y(n, "y", d, rk);
  hiopVectorPar& x = *X.v;
  double r = R("peer");
  DV s = X.s;
  vf_assert(x.get_size() == (d ? n + 2 : n) && x.get_local_size() == n, "sizes");
  switch (vf_choose("op", 11)) {
  case 0: { vf_assume_le(0, r); g_peer[0] = r; double t = x.twonorm(), e = 0; for (double v : s) e += v * v; if (d) e += r; vf_assert_le(0, t, "2-norm nonnegative"); vf_assert_eq(t * t, e, "2-norm"); break; }
  case 1: { g_peer[0] = r; double e = 0; for (int i = 0; i < n; i++) e += s[i] * Y.s[i]; vf_assert_eq(x.dotProductWith(*Y.v), d ? e + r : e, "dot product"); eqv(*Y.v, Y.s, "operand unchanged"); break; }
  case 2: { vf_assume_le(0, r); g_peer[0] = r; double e = d ? r : 0; for (double v : s) e = dmax(e, dabs_(v)); vf_assert_eq(x.infnorm(), e, "inf-norm"); break; }
  case 3: { double e = 0; for (double v : s) e = dmax(e, dabs_(v)); vf_assert_eq(x.infnorm_local(), e, "local inf-norm"); break; }
  case 4: { vf_assume_le(0, r); g_peer[0] = r; double e = d ? r : 0; for (double v : s) e += dabs_(v); vf_assert_eq(x.onenorm(), e, "1-norm"); break; }
  case 5: { double e = 0; for (double v : s) e += dabs_(v); vf_assert_eq(x.onenorm_local(), e, "local 1-norm"); break; }
  case 6: { double e = 0; for (double v : s) e += v; vf_assert_eq(x.sum_local(), e, "local sum"); break; }
  case 7: { if (n == 0 && !d) return; g_peer[0] = r; double e = d ? r : s[0]; for (double v : s) e = dmin(e, v); vf_assume(r < 1e300); for (double v : s) vf_assume(v < 1e300); vf_assert_eq(x.min(), e, "min"); break; }
  case 8: { double tol = R("tol"); g_peeri = vf_choose("peer_count", 3); int c = 0; for (double v : s) if (v < tol) c++; vf_assert(x.numOfElemsLessThan(tol) == c + (d ? g_peeri : 0), "count below"); break; }
  case 9: { double tol = R("tol"); g_peeri = vf_choose("peer_count", 3); int c = 0; for (double v : s) if (dabs_(v) < tol) c++; vf_assert(x.numOfElemsAbsLessThan(tol) == c + (d ? g_peeri : 0), "count abs below"); break; }
  case 10: { g_peeri = vf_choose("peer_flag", 2);
      switch (vf_choose("pred", 3)) {
      case 0: { bool e = true; for (double v : s) if (v <= 0) e = false; vf_assert((x.allPositive() != 0) == (e && (!d || g_peeri)), "allPositive"); break; }
      case 1: { bool e = true; for (double v : s) if (v != 0) e = false; vf_assert((x.is_zero() != 0) == (e && (!d || g_peeri)), "is_zero"); break; }
      case 2: { bool e = true; for (int i = 0; i < n; i++) if (s[i] != Y.s[i]) e = false; vf_assert((x.is_equal(*Y.v) != 0) == (e && (!d || g_peeri)), "is_equal"); break; }
      } break; }
  }
  eqv(x, s, "reduction leaves the vector unchanged");
  if (d) vf_reach("dist");
  vf_reach("done");
}
VF_HARNESS(special_values, 0, "done") {
  int n = 1 + vf_choose("n", 3);
  HV x(n, "x");
  int k = vf_choose("where", n + 1), what = vf_choose("what", 3);
  double bad = what == 0 ? NAN : what == 1 ? INFINITY : -INFINITY;
  if (k < n) x.v.local_data()[k] = bad;
  vf_assert(x.v.isnan_local() == (k < n && what == 0), "isnan");
  vf_assert(x.v.isinf_local() == (k < n && what != 0), "isinf");
  vf_assert(x.v.isfinite_local() == (k == n), "isfinite");
  vf_reach("done");
}
VF_HARNESS(logs, 0, "done") {
  int n = Ns();
  HV x(n, "x"); DV p = pat(n, "p"); HV P(p);
  for (int i = 0; i < n; i++) if (n > 4 && i != hc_focus) x.s[i] = fabs(x.s[i]); else if (p[i] == 1) vf_assume_lt(0, x.s[i]);
  put(x.v, x.s); double e = 0;
  for (int i = 0; i < n; i++) if (p[i] == 1) e += log(x.s[i]);
  vf_assert_eq(x.v.logBarrier_local(P.v), e, "log barrier sum");
  DV l = n > 4 ? p : pat(n, "l"), u = pat(n, "u"); HV L(l), U(u);
  double mu = R("mu"), kd = R("kd"), t = 0;
  for (int i = 0; i < n; i++) if (l[i] == 1 && u[i] == 0) t += x.s[i];
  vf_assert_eq(x.v.linearDampingTerm_local(L.v, U.v, mu, kd), t * mu * kd, "linear damping term");
  x.unchanged(); P.unchanged(); L.unchanged(); U.unchanged();
  vf_reach("done");
}
VF_HARNESS(nonlin_arrays, 0, "done") {
  typedef hiopInterfaceBase::NonlinearityType NT;
  HV x(4, "x");
  NT src[4] = {hiopInterfaceBase::hiopLinear, hiopInterfaceBase::hiopNonlinear, hiopInterfaceBase::hiopQuadratic, hiopInterfaceBase::hiopLinear}, d[4];
  int st = vf_choose("st", 5), en = st + vf_choose("len", 5 - st), ss = vf_choose("ss", 4);
  for (int i = 0; i < 4; i++) d[i] = hiopInterfaceBase::hiopQuadratic;
  if (vf_choose("which", 2)) {
    if (ss + en - st > 4) return;
    x.v.set_array_from_to(d, st, en, src, ss);
    for (int i = 0; i < 4; i++) vf_assert(d[i] == (i >= st && i < en ? src[ss + i - st] : hiopInterfaceBase::hiopQuadratic), "array copy");
  } else {
    x.v.set_array_from_to(d, st, en, src[ss]);
    for (int i = 0; i < 4; i++) vf_assert(d[i] == (i >= st && i < en ? src[ss] : hiopInterfaceBase::hiopQuadratic), "array set");
  }
  vf_reach("done");
}

// vf-bounds: vectors of 0..4 entries with arbitrary contents, every offset, count and index list in range (all injective maps for split/merge up to 4 entries), vectors of 17 with four index lists; integer vectors of 0..3 entries with values in a small range
#include "hc.hpp"
#include <algorithm>
static hiopVectorIntSeq* ints(const std::vector<int>& v) { hiopVectorIntSeq* r = new hiopVectorIntSeq(v.size()); for (size_t i = 0; i < v.size(); i++) r->local_data()[i] = v[i]; return r; }
VF_HARNESS(offset_copies, 0, "done") {
  int n = vf_choose("n", 5), m = vf_choose("m", 5);
  HV y(n, "y"), x(m, "x"); DV e = y.s;
  switch (vf_choose("op", 6)) {
  case 0: { if (m > n) return; int st = vf_choose("st", n - m + 1); y.v.copyFromStarting(st, x.v); for (int i = 0; i < m; i++) e[st + i] = x.s[i]; break; }
  case 1: { if (m > n) return; int st = vf_choose("st", n - m + 1), nv = vf_choose("nv", m + 1); y.v.copyFromStarting(st, x.v.local_data_const(), nv); for (int i = 0; i < nv; i++) e[st + i] = x.s[i]; break; }
  case 2: { if (m < n) return; int st = vf_choose("st", m - n + 1); y.v.copy_from_starting_at(x.v.local_data_const(), st, n); for (int i = 0; i < n; i++) e[i] = x.s[st + i]; break; }
  case 3: { if (n == 0 || m == 0) return; int sd = vf_choose("sd", n), ss = vf_choose("ss", m + 1); if (ss < m && n - sd > m - ss) return; y.v.startingAtCopyFromStartingAt(sd, x.v, ss); if (ss < m) for (int i = sd; i < n; i++) e[i] = x.s[ss + i - sd]; break; }
  case 4: { if (m < n) return; int st = vf_choose("st", m - n + 1); x.v.copyToStarting(st, y.v); for (int i = 0; i < n; i++) e[i] = x.s[st + i]; break; }
  case 5: { if (m > n) return; int st = vf_choose("st", n - m + 1); x.v.copyToStarting(y.v, st); for (int i = 0; i < m; i++) e[st + i] = x.s[i]; break; }
  }
  eqv(y.v, e, "offset copy"); x.unchanged("source unchanged");
  vf_reach("done");
}
VF_HARNESS(range_copies, 0, "done") {
  int n = vf_choose("n", 5), m = vf_choose("m", 5);
  HV y(n, "y"), x(m, "x"); DV e = y.s;
  int ss = vf_choose("ss", m + 1), sd = vf_choose("sd", n + 1), ne = vf_choose("ne", 6) - 1;
  if (ne >= 0 && (ss + ne > m || sd + ne > n)) return;
  int k = ne < 0 ? std::min(m - ss, n - sd) : ne;
  x.v.startingAtCopyToStartingAt(ss, y.v, sd, ne);
  for (int i = 0; i < k; i++) e[sd + i] = x.s[ss + i];
  eqv(y.v, e, "range copy"); x.unchanged("source unchanged");
  vf_reach("done");
}
// long vectors: a few shapes of index lists
VF_HARNESS(long_copies, 0, "done") {
  int n = 17; std::vector<int> ix; int k = vf_choose("list", 4); for (int i = 0; i < n; i++) if (k == 0 || (k == 1 && i % 3) || (k == 2 && i > 8) || (k == 3 && i < 11)) ix.push_back(k < 2 ? n - 1 - i : i);
  int m = ix.size(); hiopVectorIntSeq* I = ints(ix); HV x(n, "x"), y(m, "y"); DV g(m), rest; std::vector<int> jx; for (int i = 0; i < m; i++) g[i] = x.s[ix[i]]; for (int i = 0; i < n; i++) if (std::find(ix.begin(), ix.end(), i) == ix.end()) { jx.push_back(i); rest.push_back(x.s[i]); } hiopVectorIntSeq* J = ints(jx);
  y.v.copy_from_indexes(x.v, *I); eqv(y.v, g, "gather"); y.v.setToZero(); y.v.copy_from_indexes(x.v.local_data_const(), *I); eqv(y.v, g, "gather array");
  HV z(n - m, "z"), w(n, "w"); y.v.setToZero(); x.v.copy_to_two_vec_w_pattern(y.v, *I, z.v, *J); eqv(y.v, g, "split first"); eqv(z.v, rest, "split second"); w.v.copy_from_two_vec_w_pattern(y.v, *I, z.v, *J); eqv(w.v, x.s, "merge of split is the identity"); x.unchanged();
  double c = R("c"); x.v.axpy(c, y.v, *I); DV e = x.s; for (int i = 0; i < m; i++) e[ix[i]] = e[ix[i]] + c * g[i]; eqv(x.v, e, "indexed axpy");
  HV a(n, "a"), b(n + 5, "b"); DV f = b.s; int st = vf_choose("st", 3) * 5 / 2; b.v.copyFromStarting(st, a.v); for (int i = 0; i < n; i++) f[st + i] = a.s[i]; eqv(b.v, f, "offset copy");
  HV q(n, "q"); b.v.copyToStarting(st, q.v); eqv(q.v, a.s, "offset copy"); HV r(n + 5, "r"); DV h = r.s; b.v.startingAtCopyToStartingAt(st, r.v, 1, 14); for (int i = 0; i < 14; i++) h[1 + i] = f[st + i]; eqv(r.v, h, "range copy");
  DV p(n, 0.); for (int i : ix) p[i] = 1; HV P(p), d(m + 3, "d"); DV t = d.s; a.v.copyToStartingAt_w_pattern(d.v, 2, P.v); int kk = 2; for (int i = 0; i < n; i++) if (p[i]) t[kk++] = a.s[i]; eqv(d.v, t, "pack by pattern"); a.unchanged();
  vf_reach("done");
}
VF_HARNESS(index_copies, 0, "done") {
  int n = vf_choose("n", 4), m = 1 + vf_choose("m", 3);
  std::vector<int> ix(n); for (int i = 0; i < n; i++) ix[i] = vf_choose("ix", m);
  hiopVectorIntSeq* I = ints(ix);
  HV x(m, "x");
  switch (vf_choose("op", 3)) {
  case 0: { HV y(n, "y"); y.v.copy_from_indexes(x.v, *I); DV e(n); for (int i = 0; i < n; i++) e[i] = x.s[ix[i]]; eqv(y.v, e, "gather"); break; }
  case 1: { HV y(n, "y"); y.v.copy_from_indexes(x.v.local_data_const(), *I); DV e(n); for (int i = 0; i < n; i++) e[i] = x.s[ix[i]]; eqv(y.v, e, "gather array"); break; }
  case 2: { if (n > m) return; HV a(n, "a"); double c = R("c"); x.v.axpy(c, a.v, *I); DV e = x.s; for (int i = 0; i < n; i++) e[ix[i]] = e[ix[i]] + c * a.s[i]; eqv(x.v, e, "indexed axpy"); a.unchanged(); vf_reach("done"); return; }
  }
  x.unchanged("source unchanged");
  for (int i = 0; i < n; i++) vf_assert(I->local_data()[i] == ix[i], "indexes unchanged");
  vf_reach("done");
}
VF_HARNESS(split_merge, 0, "done") {
  int n = vf_choose("n", 5);
  // any assignment of the n places to the two parts, in any order
  std::vector<int> c, d, perm; std::vector<bool> used(n, false);
  for (int i = 0; i < n; i++) { int k = vf_choose("place", n - i), j = -1; for (int t = 0; t < n; t++) if (!used[t] && k-- == 0) j = t; used[j] = true; perm.push_back(j); }
  int nc = vf_choose("nc", n + 1);
  c.assign(perm.begin(), perm.begin() + nc); d.assign(perm.begin() + nc, perm.end());
  hiopVectorIntSeq *C = ints(c), *D = ints(d);
  HV w(n, "w"), vc(nc, "c"), vd(n - nc, "d");
  w.v.copy_to_two_vec_w_pattern(vc.v, *C, vd.v, *D);
  w.unchanged("split source");
  DV ec(nc), ed(n - nc); for (int i = 0; i < nc; i++) ec[i] = w.s[c[i]]; for (int i = 0; i < n - nc; i++) ed[i] = w.s[d[i]];
  eqv(vc.v, ec, "split first"); eqv(vd.v, ed, "split second");
  HV w2(n, "v"); w2.v.copy_from_two_vec_w_pattern(vc.v, *C, vd.v, *D);
  eqv(w2.v, w.s, "merge of split is the identity");
  put(vc.v, vc.s); put(vd.v, vd.s);
  w2.v.copy_from_two_vec_w_pattern(vc.v, *C, vd.v, *D);
  for (int i = 0; i < nc; i++) vf_assert_eq(w2.v.local_data()[c[i]], vc.s[i], "merge first");
  for (int i = 0; i < n - nc; i++) vf_assert_eq(w2.v.local_data()[d[i]], vd.s[i], "merge second");
  vc.unchanged(); vd.unchanged();
  vf_reach("done");
}
// global offset into a distributed destination: each rank places its part behind the offset or at the start of its range
VF_HARNESS(distributed_offset, 0, "done") {
  int rank = vf_choose("rank", 2); vfs_mpi_rank = rank;
  index_type dpart[3] = {0, 2, 4}; hiopVectorPar dst(4, dpart, MPI_COMM_WORLD);
  DV s = symv(2, "d"); put(dst, s);
  int st = vf_choose("st", 4);
  // source distributed consistently with the destination range [st, 4)
  int lo = std::max<int>(st, dpart[rank]), hi = dpart[rank + 1], len = std::max(0, hi - lo);
  int tot = 4 - st, b = std::max(0, 2 - st); index_type spart[3] = {0, b, tot};
  hiopVectorPar src(tot, spart, MPI_COMM_WORLD); DV x = symv(src.get_local_size(), "x"); put(src, x);
  vf_assert((int)x.size() == len, "consistent partition");
  src.copyToStarting(dst, st);
  DV e = s; for (int i = 0; i < len; i++) e[lo - dpart[rank] + i] = x[i];
  eqv(dst, e, "distributed offset copy");
  eqv(src, x, "source unchanged");
  vf_reach("done");
}
static int N() { int m = vf_thorough() ? 5 : 4, k = vf_choose("n", m + 1); return k == m ? big(9) : k; }
#include "packscatter.inc"
VF_HARNESS(int_vectors, 0, "done") {
  int n = vf_choose("n", 4);
  std::vector<int> v(n), w(n); for (int i = 0; i < n; i++) { v[i] = vf_choose("v", 3) - 1; w[i] = 7 + i; }
  hiopVectorIntSeq *A = ints(v), *B = ints(w);
  std::vector<int> e = w; int c = vf_choose("c", 3) - 1, d = vf_choose("d", 4) - 1;
  switch (vf_choose("op", 6)) {
  case 0: B->set_to_zero(); for (int& x : e) x = 0; break;
  case 1: B->set_to_constant(c); for (int& x : e) x = c; break;
  case 2: B->linspace(c, d); for (int i = 0; i < n; i++) e[i] = c + i * d; break;
  case 3: B->copy_from(A->local_data_const()); e = v; break;
  case 4: B->copy_from_vectorseq(*A); e = v; break;
  case 5: A->copy_to_vectorseq(*B); e = v; break;
  }
  vf_assert(B->get_local_size() == n, "size");
  for (int i = 0; i < n; i++) { vf_assert(B->local_data()[i] == e[i], "integer vector"); vf_assert(A->local_data()[i] == v[i], "integer source unchanged"); }
  vf_reach("done");
}

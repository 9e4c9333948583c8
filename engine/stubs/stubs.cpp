// Reference stand-ins for BLAS (plain loops, executed symbolically) and contract models of LAPACK,
// MPI and UMFPACK.  Used both in the symbolic and in the replay build.
#include "../vf.h"
#include "vfstub.h"
#include <math.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <vector>
struct dcomplex { double re, im; };
static inline int up(char c) { return c >= 'a' ? c - 32 : c; }
extern "C" {
int vfs_inertia = -1, vfs_fail = 0, vfs_concrete = 0, vfs_nfact = 0, vfs_nsolve = 0, vfs_last_n = 0, vfs_dsytrf_custom = 0, vfs_ipiv[64], vfs_info = 0, vfs_inexact = 0;
double vfs_last_A[64 * 64];
double ddot_(int *n, double *x, int *ix, double *y, int *iy) { double s = 0; for (int i = 0; i < *n; i++) s += x[i * *ix] * y[i * *iy]; return s; }
double dnrm2_(int *n, double *x, int *ix) { double s = 0; for (int i = 0; i < *n; i++) s += x[i * *ix] * x[i * *ix]; vf_hint_nonneg(s); return sqrt(s); }
void dscal_(int *n, double *a, double *x, int *ix) { for (int i = 0; i < *n; i++) x[i * *ix] = *a * x[i * *ix]; }
void daxpy_(int *n, double *a, double *x, int *ix, double *y, int *iy) { for (int i = 0; i < *n; i++) y[i * *iy] += *a * x[i * *ix]; }
void dcopy_(int *n, double *x, int *ix, double *y, int *iy) { for (int i = 0; i < *n; i++) y[i * *iy] = x[i * *ix]; }
void dgemv_(char *tr, int *m, int *n, double *al, double *a, int *lda, const double *x, int *ix, double *be, double *y, int *iy) {
  int t = up(*tr) != 'N', ly = t ? *n : *m, lx = t ? *m : *n;
  for (int i = 0; i < ly; i++) {
    double s = 0;
    for (int j = 0; j < lx; j++) s += (t ? a[j + i * *lda] : a[i + j * *lda]) * x[j * *ix];
    double v = *be == 0.0 ? 0.0 : *be * y[i * *iy];
    y[i * *iy] = v + *al * s;
  }
}
void dgemm_(char *ta, char *tb, int *m, int *n, int *k, double *al, double *a, int *lda, double *b, int *ldb, double *be, double *c, int *ldc) {
  int A = up(*ta) != 'N', B = up(*tb) != 'N';
  for (int i = 0; i < *m; i++) for (int j = 0; j < *n; j++) {
    double s = 0;
    for (int l = 0; l < *k; l++) s += (A ? a[l + i * *lda] : a[i + l * *lda]) * (B ? b[j + l * *ldb] : b[l + j * *ldb]);
    double v = *be == 0.0 ? 0.0 : *be * c[i + j * *ldc];
    c[i + j * *ldc] = v + *al * s;
  }
}
double dlange_(char *nm, int *m, int *n, double *a, int *lda, double *) {
  double r = 0; int c = up(*nm);
  if (c == 'M') { for (int j = 0; j < *n; j++) for (int i = 0; i < *m; i++) { double v = vf_fabs(a[i + j * *lda]); r = vf_fmax(r, v); } }
  else if (c == 'I') { for (int i = 0; i < *m; i++) { double s = 0; for (int j = 0; j < *n; j++) s += vf_fabs(a[i + j * *lda]); r = vf_fmax(r, s); } }
  else if (c == '1' || c == 'O') { for (int j = 0; j < *n; j++) { double s = 0; for (int i = 0; i < *m; i++) s += vf_fabs(a[i + j * *lda]); r = vf_fmax(r, s); } }
  else { for (int j = 0; j < *n; j++) for (int i = 0; i < *m; i++) r += a[i + j * *lda] * a[i + j * *lda]; r = sqrt(r); }
  return r;
}
// ---- complex
void zscal_(int *n, dcomplex *a, dcomplex *x, int *ix) { for (int i = 0; i < *n; i++) { dcomplex t = x[i * *ix]; x[i * *ix].re = a->re * t.re - a->im * t.im; x[i * *ix].im = a->re * t.im + a->im * t.re; } }
void zaxpy_(int *n, dcomplex *a, dcomplex *x, int *ix, dcomplex *y, int *iy) { for (int i = 0; i < *n; i++) { dcomplex t = x[i * *ix]; y[i * *iy].re += a->re * t.re - a->im * t.im; y[i * *iy].im += a->re * t.im + a->im * t.re; } }
void zgemv_(char *tr, int *m, int *n, dcomplex *al, dcomplex *a, int *lda, const dcomplex *x, int *ix, dcomplex *be, dcomplex *y, int *iy) {
  int t = up(*tr) != 'N', cj = up(*tr) == 'C', ly = t ? *n : *m, lx = t ? *m : *n;
  for (int i = 0; i < ly; i++) {
    double sr = 0, si = 0;
    for (int j = 0; j < lx; j++) {
      dcomplex v = t ? a[j + i * *lda] : a[i + j * *lda], w = x[j * *ix];
      if (cj) v.im = -v.im;
      sr += v.re * w.re - v.im * w.im; si += v.re * w.im + v.im * w.re;
    }
    dcomplex o = y[i * *iy];
    double r = 0, q = 0;
    if (!(be->re == 0.0 && be->im == 0.0)) { r = be->re * o.re - be->im * o.im; q = be->re * o.im + be->im * o.re; }
    y[i * *iy].re = r + al->re * sr - al->im * si;
    y[i * *iy].im = q + al->re * si + al->im * sr;
  }
}
double zlange_(char *nm, int *m, int *n, dcomplex *a, int *lda, double *) {
  double r = 0; int c = up(*nm);
  for (int j = 0; j < *n; j++) { for (int i = 0; i < *m; i++) { dcomplex v = a[i + j * *lda]; double d = sqrt(v.re * v.re + v.im * v.im); if (c == 'M') r = vf_fmax(r, d); else abort(); } }
  return r;
}
long double logl(long double x) { return log((double)x); }
double cabs(double _Complex z) { double re = __real__ z, im = __imag__ z; return sqrt(re * re + im * im); }
double _Complex __divdc3(double a, double b, double c, double d) { double n = c * c + d * d; double _Complex z; __real__ z = (a * c + b * d) / n; __imag__ z = (b * c - a * d) / n; return z; }
double _Complex __muldc3(double a, double b, double c, double d) { double _Complex z; __real__ z = a * c - b * d; __imag__ z = a * d + b * c; return z; }
// ---- LAPACK by contract
static std::map<double *, std::vector<double>> facts;
static void keep(int n, double *a, int lda, char uplo) {
  std::vector<double> M(n * n);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { // entry (i,j), column major; use the stored triangle only
    int r = i, c = j;
    if (up(uplo) == 'L') { if (r < c) { r = j; c = i; } } else { if (r > c) { r = j; c = i; } }
    M[i * n + j] = a[r + c * lda];
  }
  facts[a] = M;
  vfs_last_n = n; vfs_nfact++;
  if (n <= 64) for (int i = 0; i < n * n; i++) vfs_last_A[i] = M[i];
}
static void symsolve(int n, const std::vector<double> &M, double *b) { // b := x with M x = b
  std::vector<double> x(n);
  bool conc = vfs_concrete; if (conc) for (int i = 0; i < n * n; i++) if (vf_is_sym(M[i])) conc = false;
  if (!vf_symbolic_mode()) conc = vfs_concrete && vf_next_is("lapack_c"); // the recorded run says which way it went
  if (conc && vfs_concrete == 1) (void)vf_real("lapack_c");
  if (conc) { // elimination with partial pivoting; the right-hand side may be symbolic
    std::vector<double> A(M), y(b, b + n); std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i;
    for (int k = 0; k < n; k++) {
      int m = k; for (int i = k + 1; i < n; i++) if (fabs(A[p[i] * n + k]) > fabs(A[p[m] * n + k])) m = i;
      std::swap(p[k], p[m]); double d = A[p[k] * n + k]; if (d == 0.) vf_assume(false);
      for (int i = k + 1; i < n; i++) { double f = A[p[i] * n + k] / d; if (f == 0.) continue; for (int j = k; j < n; j++) A[p[i] * n + j] -= f * A[p[k] * n + j]; y[p[i]] = y[p[i]] - f * y[p[k]]; }
    }
    for (int k = n - 1; k >= 0; k--) { double s = y[p[k]]; for (int j = k + 1; j < n; j++) s = s - A[p[k] * n + j] * x[j]; x[k] = s / A[p[k] * n + k]; }
    for (int i = 0; i < n; i++) b[i] = x[i];
    vfs_nsolve++;
    return;
  }
  if (vfs_concrete == 2) { // symbolic elimination, first nonzero pivot; singular systems are excluded
    std::vector<double> A(M), y(b, b + n); std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i;
    for (int k = 0; k < n; k++) {
      int m = k; while (m < n && A[p[m] * n + k] == 0.) m++;
      if (m == n) { vf_assume(false); return; }
      std::swap(p[k], p[m]); double d = A[p[k] * n + k];
      for (int i = k + 1; i < n; i++) { double f = A[p[i] * n + k] / d; if (!vf_is_sym(f) && f == 0.) continue; for (int j = k; j < n; j++) A[p[i] * n + j] = A[p[i] * n + j] - f * A[p[k] * n + j]; y[p[i]] = y[p[i]] - f * y[p[k]]; }
    }
    for (int k = n - 1; k >= 0; k--) { double s = y[p[k]]; for (int j = k + 1; j < n; j++) s = s - A[p[k] * n + j] * x[j]; x[k] = s / A[p[k] * n + k]; }
    for (int i = 0; i < n; i++) b[i] = x[i];
    vfs_nsolve++;
    return;
  }
  for (int i = 0; i < n; i++) x[i] = vf_real("lapack_x");
  if (!vf_symbolic_mode()) { // replay: solve numerically (the recorded solution is only as exact as the recorded doubles)
    std::vector<double> A(M), y(b, b + n), z(n); bool ok = true; double big = 0; for (double v : A) big = fmax(big, fabs(v));
    for (int k = 0; k < n && ok; k++) {
      int m = k; for (int i = k + 1; i < n; i++) if (fabs(A[i * n + k]) > fabs(A[m * n + k])) m = i;
      if (!(fabs(A[m * n + k]) > 1e-12 * big)) { ok = false; break; }
      for (int j = 0; j < n; j++) std::swap(A[k * n + j], A[m * n + j]);
      std::swap(y[k], y[m]);
      for (int i = k + 1; i < n; i++) { double f = A[i * n + k] / A[k * n + k]; for (int j = k; j < n; j++) A[i * n + j] -= f * A[k * n + j]; y[i] -= f * y[k]; }
    }
    if (ok) { for (int k = n - 1; k >= 0; k--) { double s = y[k]; for (int j = k + 1; j < n; j++) s -= A[k * n + j] * z[j]; z[k] = s / A[k * n + k]; } for (int i = 0; i < n; i++) b[i] = z[i]; vfs_nsolve++; return; }
  }
  for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += M[i * n + j] * x[j]; vf_assume_eq(s, b[i]); }
  for (int i = 0; i < n; i++) b[i] = x[i];
  vfs_nsolve++;
}
void vfs_linsolve(int n, const double *M, double *b) { std::vector<double> A(M, M + n * n); symsolve(n, A, b); }
void dsytrf_(char *uplo, int *n, double *a, int *lda, int *ipiv, double *work, int *lwork, int *info) {
  *info = 0;
  if (*lwork == -1) { work[0] = *n > 0 ? *n : 1; return; }
  keep(*n, a, *lda, *uplo);
  if (vfs_dsytrf_custom) { for (int i = 0; i < *n; i++) ipiv[i] = vfs_ipiv[i]; *info = vfs_info; return; }
  int N = *n, neg;
  if (vfs_inertia >= 0) neg = vfs_inertia > N ? N : vfs_inertia;
  else if (vfs_inertia == -1) neg = vf_choose("inertia", N + 1);
  else if (vfs_inertia == -3) { *info = 1; neg = 0; }
  else { int c = vf_choose("inertia", N + 2); if (c == N + 1) { *info = 1; neg = 0; } else neg = c; }
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (i != j) { if ((up(*uplo) == 'L') == (i > j)) a[i + j * *lda] = 0.125; }
  for (int i = 0; i < N; i++) { ipiv[i] = i + 1; a[i + i * *lda] = i < neg ? -1.0 : 1.0; }
  if (*info > 0) a[0] = 0.0;
}
void dsytrs_(char *, int *n, int *nrhs, double *a, int *, int *, double *b, int *ldb, int *info) {
  *info = 0;
  auto it = facts.find(a);
  if (it == facts.end() || (int)it->second.size() != *n * *n) { vf_assert(false, "solve without a factorization of this matrix"); return; }
  for (int k = 0; k < *nrhs; k++) symsolve(*n, it->second, b + k * *ldb);
}
void dpotrf_(char *uplo, int *n, double *a, int *lda, int *info) {
  *info = 0;
  keep(*n, a, *lda, *uplo);
  if (vfs_fail && vf_choose("dpotrf", 2)) { *info = 1; facts.erase(a); return; }
}
void dpotrs_(char *, int *n, int *nrhs, double *a, int *, double *b, int *ldb, int *info) {
  *info = 0;
  auto it = facts.find(a);
  if (it == facts.end() || (int)it->second.size() != *n * *n) { vf_assert(false, "solve without a factorization of this matrix"); return; }
  for (int k = 0; k < *nrhs; k++) symsolve(*n, it->second, b + k * *ldb);
}
// ---- HSL MA57 by contract: symmetric triplets (one triangle, 1-based, duplicates are summed)
struct ma57m { int n = 0; std::vector<int> i, j; };
static std::map<int *, ma57m> ma57s;
void ma57id_(double *cntl, int *icntl) { for (int i = 0; i < 5; i++) cntl[i] = 0.; for (int i = 0; i < 20; i++) icntl[i] = 0; }
void ma57ad_(int *n, int *ne, int *irn, int *jcn, int *, int *kp, int *, int *, int *info, double *) {
  ma57m m; m.n = *n; for (int k = 0; k < *ne; k++) { vf_assert(irn[k] >= 1 && irn[k] <= *n && jcn[k] >= 1 && jcn[k] <= *n, "MA57 indexes in range"); m.i.push_back(irn[k] - 1); m.j.push_back(jcn[k] - 1); }
  ma57s[kp] = m; for (int k = 0; k < 40; k++) info[k] = 0; info[8] = info[9] = 2;
}
static std::vector<double> ma57dense(const ma57m &m, const double *a) { std::vector<double> M(m.n * m.n, 0.); for (size_t k = 0; k < m.i.size(); k++) { int i = m.i[k], j = m.j[k]; M[i * m.n + j] = M[i * m.n + j] + a[k]; if (i != j) M[j * m.n + i] = M[j * m.n + i] + a[k]; } return M; }
void ma57bd_(int *n, int *, double *a, double *fact, int *, int *, int *, int *, int *kp, int *, int *, double *, int *info, double *) {
  auto it = ma57s.find(kp); if (it == ma57s.end() || it->second.n != *n) { vf_assert(false, "factorization before analysis"); return; }
  facts[fact] = ma57dense(it->second, a); vfs_last_n = *n; vfs_nfact++; if (*n <= 64) for (int i = 0; i < *n * *n; i++) vfs_last_A[i] = facts[fact][i];
  int N = *n, neg = 0; info[0] = 0;
  if (vfs_inertia >= 0) neg = vfs_inertia > N ? N : vfs_inertia;
  else if (vfs_inertia == -1) neg = vf_choose("inertia", N + 1);
  else if (vfs_inertia == -3) { info[0] = 4; neg = 0; }
  else { int c = vf_choose("inertia", N + 2); if (c == N + 1) { info[0] = 4; neg = 0; } else neg = c; }
  info[23] = neg; info[24] = info[0] ? N - 1 : N;
}
void ma57dd_(int *, int *n, int *ne, double *a, int *irn, int *jcn, double *fact, int *, int *, int *, double *rhs, double *x, double *, double *, int *, int *, double *, int *info, double *) {
  info[0] = 0; auto it = facts.find(fact); if (it == facts.end() || (int)it->second.size() != *n * *n) { vf_assert(false, "solve without a factorization of this matrix"); return; }
  ma57m m; m.n = *n; for (int k = 0; k < *ne; k++) { m.i.push_back(irn[k] - 1); m.j.push_back(jcn[k] - 1); }
  auto M = ma57dense(m, a); for (size_t k = 0; k < M.size(); k++) vf_assert_eq(M[k], it->second[k], "the matrix passed to the refining solve is the factored one");
  for (int i = 0; i < *n; i++) x[i] = rhs[i];
  symsolve(*n, it->second, x);
}
void ma57cd_(int *, int *n, double *fact, int *, int *, int *, int *, double *rhs, int *, double *, int *, int *, int *, int *info) { info[0] = 0; auto it = facts.find(fact); if (it == facts.end()) { vf_assert(false, "solve without a factorization of this matrix"); return; } symsolve(*n, it->second, rhs); }
void ma57ed_(int *, int *, int *, double *, int *, double *, int *, int *, int *, int *, int *, int *) { vf_assert(false, "ma57ed not expected"); }
// FC_GLOBAL(dposvx) : solves A X = B
void dposvx_(char *, char *uplo, int *n, int *nrhs, double *a, int *lda, double *af, int *ldaf, char *equed, double *, double *b, int *ldb, double *x, int *ldx,
             double *rcond, double *ferr, double *berr, double *, int *, int *info) {
  *info = 0; *equed = 'N'; *rcond = 0.5;
  keep(*n, a, *lda, *uplo);
  for (int i = 0; i < *n; i++) for (int j = 0; j < *n; j++) af[i + j * *ldaf] = 0.125;
  if (vfs_fail) { int c = vf_choose("dposvx", 3); if (c == 1) { *info = 1; *rcond = 0; return; } if (c == 2) { *info = *n + 1; *rcond = 1e-17; } }
  if (vfs_inexact && vf_choose("inexact", 2)) { for (int i = 0; i < *n; i++) x[i] = vf_real("dposvx_x"); ferr[0] = berr[0] = 0.; return; }
  for (int k = 0; k < *nrhs; k++) {
    for (int i = 0; i < *n; i++) x[i + k * *ldx] = b[i + k * *ldb];
    symsolve(*n, facts[a], x + k * *ldx);
    ferr[k] = berr[k] = 0.0;
  }
}
// ---- MPI (one rank, optionally with a modelled peer)
vfs_peer_d vfs_mpi_peer_d = nullptr; vfs_peer_i vfs_mpi_peer_i = nullptr;
int vfs_mpi_calls = 0, vfs_mpi_rank = 0;
char ompi_mpi_comm_null[1024], ompi_mpi_comm_self[1024], ompi_mpi_comm_world[1024], ompi_mpi_double[1024], ompi_mpi_int[1024], ompi_mpi_op_land[1024],
    ompi_mpi_op_max[1024], ompi_mpi_op_min[1024], ompi_mpi_op_sum[1024], ompi_request_null[1024], ompi_mpi_char[1024], ompi_mpi_long_long_int[1024], ompi_mpi_long[1024], ompi_mpi_unsigned_long[1024];
int MPI_Init(int *, char ***) { return 0; }
int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Finalize() { return 0; }
static int peer() { return vfs_mpi_peer_d || vfs_mpi_peer_i; }
vfs_mpi_hooks *vfs_mpi = nullptr;
int MPI_Comm_rank(void *c, int *r) { *r = c == ompi_mpi_comm_self ? 0 : vfs_mpi ? vfs_mpi->rank() : vfs_mpi_rank; return 0; }
int MPI_Comm_size(void *c, int *r) { *r = c == ompi_mpi_comm_self ? 1 : vfs_mpi ? vfs_mpi->size : peer() ? 2 : 1; return 0; }
double MPI_Wtime() { static double t = 1.0; t += 0.001; return t; }
int MPI_Barrier(void *) { if (vfs_mpi) vfs_mpi->bcast(nullptr, 0, -1); return 0; }
static int opc(void *op) { return op == ompi_mpi_op_sum ? 0 : op == ompi_mpi_op_min ? 1 : op == ompi_mpi_op_max ? 2 : 3; }
int MPI_Allreduce(const void *s, void *r, int n, void *ty, void *op, void *comm) {
  int o = opc(op), c = vfs_mpi_calls++;
  bool two = peer() && comm != ompi_mpi_comm_self;
  if (s == (void *)1) s = r; // MPI_IN_PLACE
  if (ty == ompi_mpi_double) {
    const double *a = (const double *)s; double *b = (double *)r;
    for (int k = 0; k < n; k++) {
      double v = a[k];
      if (two && vfs_mpi_peer_d) { double p = vfs_mpi_peer_d(c, k, v, o); v = o == 0 ? v + p : o == 1 ? vf_fmin(v, p) : o == 2 ? vf_fmax(v, p) : v; }
      b[k] = v;
    }
  } else if (ty == ompi_mpi_int) {
    const int *a = (const int *)s; int *b = (int *)r;
    for (int k = 0; k < n; k++) {
      int v = a[k];
      if (two && vfs_mpi_peer_i) { int p = vfs_mpi_peer_i(c, k, v, o); v = o == 0 ? v + p : o == 1 ? (v < p ? v : p) : o == 2 ? (v > p ? v : p) : (v && p); }
      b[k] = v;
    }
  } else { // long long (hiop index type) and friends: 8 bytes
    const long *a = (const long *)s; long *b = (long *)r;
    for (int k = 0; k < n; k++) {
      long v = a[k];
      if (two && vfs_mpi_peer_i) { long p = vfs_mpi_peer_i(c, k, (int)v, o); v = o == 0 ? v + p : o == 1 ? (v < p ? v : p) : o == 2 ? (v > p ? v : p) : (v && p); }
      b[k] = v;
    }
  }
  return 0;
}
static int esz(void *ty, int n) { return n * (ty == ompi_mpi_int ? 4 : ty == ompi_mpi_char ? 1 : 8); }
int MPI_Reduce(const void *s, void *r, int n, void *ty, void *op, int root, void *comm) { return vfs_mpi && comm != ompi_mpi_comm_self ? vfs_mpi->reduce(s, r, n, ty == ompi_mpi_double, opc(op), root) : MPI_Allreduce(s, r, n, ty, op, comm); }
int MPI_Bcast(void *b, int n, void *ty, int root, void *c) { if (vfs_mpi && c != ompi_mpi_comm_self) vfs_mpi->bcast(b, esz(ty, n), root); return 0; }
int MPI_Allgather(const void *s, int n, void *ty, void *r, int, void *, void *) { memcpy(r, s, (size_t)n * (ty == ompi_mpi_int ? 4 : 8)); return 0; }
int MPI_Isend(const void *b, int n, void *ty, int to, int tag, void *, void **rq) { *rq = vfs_mpi ? vfs_mpi->post(1, (void *)b, esz(ty, n), to, tag) : nullptr; return 0; }
int MPI_Irecv(void *b, int n, void *ty, int from, int tag, void *, void **rq) { *rq = vfs_mpi ? vfs_mpi->post(0, b, esz(ty, n), from, tag) : nullptr; return 0; }
int MPI_Test(void **rq, int *f, void *) { *f = !vfs_mpi || *rq == ompi_request_null || vfs_mpi->test(*rq); if (vfs_mpi && *f) *rq = ompi_request_null; return 0; }
int MPI_Wait(void **rq, void *) { if (vfs_mpi && *rq != ompi_request_null) { vfs_mpi->wait(*rq); *rq = ompi_request_null; } return 0; }
int MPI_Send(const void *b, int n, void *ty, int to, int tag, void *c) { if (vfs_mpi) { void *r; MPI_Isend(b, n, ty, to, tag, c, &r); MPI_Wait(&r, nullptr); } return 0; }
int MPI_Recv(void *b, int n, void *ty, int from, int tag, void *c, void *) { if (vfs_mpi) { void *r; MPI_Irecv(b, n, ty, from, tag, c, &r); MPI_Wait(&r, nullptr); } return 0; }
// ---- UMFPACK (complex, packed) by contract
int vfs_umf_failed = 0; static bool umf_singular = false; // the last factorization ended with the warning "singular matrix" (status 1)
struct UMat { int n; std::vector<int> p, i; std::vector<double> x; };
void umfpack_zi_defaults(double *c) { for (int i = 0; i < 20; i++) c[i] = 0; }
void umfpack_zi_report_control(const double *) {}
void umfpack_zi_report_status(const double *, int) {}
void umfpack_zi_report_info(const double *, const double *) {}
void umfpack_di_free_symbolic(void **p) { *p = nullptr; }
void umfpack_di_free_numeric(void **p) { *p = nullptr; }
int umfpack_zi_triplet_to_col(int nr, int nc, int nz, const int *Ti, const int *Tj, const double *Tx, const double *, int *Ap, int *Ai, double *Ax, double *, int *) {
  int k = 0;
  for (int j = 0; j < nc; j++) {
    Ap[j] = k;
    for (int i = 0; i < nr; i++) {
      bool any = false; double re = 0, im = 0;
      for (int t = 0; t < nz; t++) if (Ti[t] == i && Tj[t] == j) { any = true; re += Tx[2 * t]; im += Tx[2 * t + 1]; }
      if (any) { Ai[k] = i; Ax[2 * k] = re; Ax[2 * k + 1] = im; k++; }
    }
  }
  Ap[nc] = k;
  return 0;
}
int umfpack_zi_symbolic(int, int, const int *, const int *, const double *, const double *, void **S, const double *, double *) { static int d; *S = &d; if (vfs_fail && vf_choose("umf_sym", 2)) { vfs_umf_failed = 1; return -1; } return 0; }
int umfpack_zi_numeric(const int *Ap, const int *Ai, const double *Ax, const double *, void *, void **N, const double *, double *) { static int d; *N = &d; int k = vfs_fail ? vf_choose("umf_num", 3) : 0; umf_singular = k == 2; if (k) vfs_umf_failed = 1; return k == 1 ? -1 : k == 2 ? 1 : 0; }
int umfpack_zi_solve(int sys, const int *Ap, const int *Ai, const double *Ax, const double *, double *X, double *, const double *B, double *, void *N, const double *, double *);
static int umf_n = 0;
void vfs_umf_n(int n) { umf_n = n; }
int umfpack_zi_solve(int, const int *Ap, const int *Ai, const double *Ax, const double *, double *X, double *, const double *B, double *, void *, const double *, double *) {
  int n = umf_n;
  if (vfs_fail && vf_choose("umf_solve", 2)) { vfs_umf_failed = 1; return -1; }
  if (umf_singular) { for (int i = 0; i < 2 * n; i++) X[i] = vf_real("umf_any"); return 1; }
  std::vector<double> x(2 * n), br(B, B + 2 * n);
  for (int i = 0; i < 2 * n; i++) x[i] = vf_real("umf_x");
  for (int i = 0; i < n; i++) {
    double re = 0, im = 0;
    for (int j = 0; j < n; j++) for (int k = Ap[j]; k < Ap[j + 1]; k++) if (Ai[k] == i) { re += Ax[2 * k] * x[2 * j] - Ax[2 * k + 1] * x[2 * j + 1]; im += Ax[2 * k] * x[2 * j + 1] + Ax[2 * k + 1] * x[2 * j]; }
    vf_assume_eq(re, br[2 * i]); vf_assume_eq(im, br[2 * i + 1]);
  }
  for (int i = 0; i < 2 * n; i++) X[i] = x[i];
  vfs_nsolve++;
  return 0;
}
}

// Controls of the library stubs, for harnesses.
#ifndef VFSTUB_H
#define VFSTUB_H
extern "C" {
// LAPACK: how symmetric indefinite factorizations report. -2: nondeterministic (singular, or any inertia);
// -1: any inertia, never singular; k>=0: exactly k negative pivots.
extern int vfs_inertia;
extern int vfs_inexact;         // 1: dposvx may return an arbitrary (inaccurate) solution
extern int vfs_fail;            // 1: Cholesky/LU type factorizations may fail (nondeterministic)
extern int vfs_concrete;        // 1: systems with a concrete matrix are solved by elimination instead of by contract; 2: all systems are eliminated symbolically (singular ones excluded)
extern int vfs_nfact, vfs_nsolve; // call counters
extern int vfs_last_n;          // order of the last factored matrix
extern double vfs_last_A[64*64];// last factored matrix, full symmetric, row major
extern int vfs_dsytrf_custom;   // 1: dsytrf leaves A and fills ipiv via vfs_ipiv (for checking the inertia computation itself)
extern int vfs_ipiv[64];
extern int vfs_info;
// solves M x = b (b := x) the way the LAPACK stand-ins do: by contract, or by elimination when vfs_concrete says so
void vfs_linsolve(int n, const double* M, double* b);
// MPI: size 1 by default.  With a peer installed, world size is 2 and the peer's contribution of the
// k-th element of a reduction is given by the callback.
typedef double (*vfs_peer_d)(int call, int k, double mine, int op);   // op: 0 sum, 1 min, 2 max
typedef int (*vfs_peer_i)(int call, int k, int mine, int op);         // op: 3 land
extern vfs_peer_d vfs_mpi_peer_d;
extern vfs_peer_i vfs_mpi_peer_i;
extern int vfs_mpi_calls, vfs_mpi_rank;
// a world of several ranks (coroutines of one process), see harness/mpiw.hpp
struct vfs_mpi_hooks { int size; int (*rank)(); void* (*post)(int send, void* buf, int bytes, int peer, int tag); int (*test)(void* rq); void (*wait)(void* rq); void (*bcast)(void* buf, int bytes, int root); int (*reduce)(const void* s, void* r, int n, int dbl, int op, int root); };
extern vfs_mpi_hooks* vfs_mpi;
}
#endif

#ifndef UMFPACK_H_STUB
#define UMFPACK_H_STUB
#define UMFPACK_CONTROL 20
#define UMFPACK_INFO 90
#define UMFPACK_A 0
#define UMFPACK_ERROR_n_nonpositive (-6)
#define UMFPACK_OK 0
extern "C" {
void umfpack_zi_defaults(double *);
void umfpack_zi_report_control(const double *);
void umfpack_zi_report_status(const double *, int);
void umfpack_zi_report_info(const double *, const double *);
void umfpack_di_free_symbolic(void **);
void umfpack_di_free_numeric(void **);
int umfpack_zi_triplet_to_col(int, int, int, const int *, const int *, const double *, const double *, int *, int *, double *, double *, int *);
int umfpack_zi_symbolic(int, int, const int *, const int *, const double *, const double *, void **, const double *, double *);
int umfpack_zi_numeric(const int *, const int *, const double *, const double *, void *, void **, const double *, double *);
int umfpack_zi_solve(int, const int *, const int *, const double *, const double *, double *, double *, const double *, double *, void *, const double *, double *);
void vfs_umf_n(int);
}
#endif

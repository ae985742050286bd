// Stand-in for AOCL-Sparse's header (not installed here).
#pragma once
#ifdef AOCLDA_ILP64
typedef long long int aoclsparse_int;
#else
typedef int aoclsparse_int;
#endif
typedef enum aoclsparse_status_ {
    aoclsparse_status_success = 0,
    aoclsparse_status_not_implemented = 1,
    aoclsparse_status_invalid_pointer = 2,
    aoclsparse_status_invalid_size = 3,
    aoclsparse_status_internal_error = 4,
    aoclsparse_status_invalid_value = 5,
    aoclsparse_status_memory_error = 8,
    aoclsparse_status_numerical_error = 9,
    aoclsparse_status_maxit = 12
} aoclsparse_status;
typedef struct _aoclsparse_itsol_handle *aoclsparse_itsol_handle;
typedef enum aoclsparse_itsol_rci_job_ {
    aoclsparse_rci_interrupt = -1,
    aoclsparse_rci_stop = 0,
    aoclsparse_rci_start = 1,
    aoclsparse_rci_mv = 2,
    aoclsparse_rci_precond = 3,
    aoclsparse_rci_stopping_criterion = 4
} aoclsparse_itsol_rci_job;
#ifdef __cplusplus
extern "C" {
#endif
aoclsparse_status aoclsparse_itsol_d_init(aoclsparse_itsol_handle *);
aoclsparse_status aoclsparse_itsol_s_init(aoclsparse_itsol_handle *);
aoclsparse_status aoclsparse_itsol_option_set(aoclsparse_itsol_handle, const char *, const char *);
aoclsparse_status aoclsparse_itsol_d_rci_input(aoclsparse_itsol_handle, aoclsparse_int, const double *);
aoclsparse_status aoclsparse_itsol_s_rci_input(aoclsparse_itsol_handle, aoclsparse_int, const float *);
aoclsparse_status aoclsparse_itsol_d_rci_solve(aoclsparse_itsol_handle, aoclsparse_itsol_rci_job *, double **, double **, double *, double *);
aoclsparse_status aoclsparse_itsol_s_rci_solve(aoclsparse_itsol_handle, aoclsparse_itsol_rci_job *, float **, float **, float *, float *);
void aoclsparse_itsol_destroy(aoclsparse_itsol_handle *);
#ifdef __cplusplus
}
#endif

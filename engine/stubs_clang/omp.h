// Declarations of the OpenMP API used by AOCL-DA (clang's omp.h is not installed here).
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { unsigned char _x[4]; } omp_lock_t;
int omp_get_max_threads(void);
int omp_get_thread_num(void);
int omp_get_num_threads(void);
int omp_get_max_active_levels(void);
void omp_set_max_active_levels(int);
int omp_get_active_level(void);
int omp_get_level(void);
int omp_in_parallel(void);
void omp_set_num_threads(int);
int omp_get_num_procs(void);
int omp_get_nested(void);
void omp_set_nested(int);
double omp_get_wtime(void);
int omp_get_thread_limit(void);
int omp_get_ancestor_thread_num(int);
int omp_get_team_size(int);
int omp_get_dynamic(void);
void omp_set_dynamic(int);
void omp_init_lock(omp_lock_t *);
void omp_destroy_lock(omp_lock_t *);
void omp_set_lock(omp_lock_t *);
void omp_unset_lock(omp_lock_t *);
int omp_test_lock(omp_lock_t *);
#ifdef __cplusplus
}
#endif

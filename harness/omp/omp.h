// declarations only: the executor models these functions (clang 18 ships no omp.h here)
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { void *p; } omp_lock_t;
int omp_get_thread_num(void); int omp_get_num_threads(void); int omp_get_max_threads(void); int omp_get_num_procs(void);
void omp_set_num_threads(int); double omp_get_wtime(void); void omp_set_dynamic(int); void omp_set_nested(int); int omp_in_parallel(void);
#ifdef __cplusplus
}
#endif

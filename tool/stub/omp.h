// declaration-only stand-in used for parsing (the analysis never runs anything)
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_num_threads(void); int omp_get_max_threads(void); int omp_get_thread_num(void); int omp_in_parallel(void);
void omp_set_num_threads(int); int omp_get_num_procs(void); double omp_get_wtime(void); int omp_get_dynamic(void); void omp_set_dynamic(int); int omp_get_nested(void); void omp_set_nested(int);
#ifdef __cplusplus
}
#endif

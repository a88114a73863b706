/* declarations of the OpenMP runtime for the AST extraction only (clang here ships no omp.h) */
#ifndef DV_OMP_H
#define DV_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_max_threads(void); int omp_get_num_threads(void); int omp_get_thread_num(void); int omp_in_parallel(void);
int omp_get_num_procs(void); void omp_set_num_threads(int); void omp_set_dynamic(int); int omp_get_thread_limit(void);
double omp_get_wtime(void); double omp_get_wtick(void);
typedef enum omp_sched_t { omp_sched_static = 1, omp_sched_dynamic = 2, omp_sched_guided = 3, omp_sched_auto = 4 } omp_sched_t;
void omp_set_schedule(omp_sched_t, int); void omp_get_schedule(omp_sched_t *, int *);
#ifdef __cplusplus
}
#endif
#endif

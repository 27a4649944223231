/* declarations only: enough for the sources to be parsed with clang, nothing here is linked or run */
#ifndef VERIF_OMP_H
#define VERIF_OMP_H
extern int omp_get_max_threads(void);
extern int omp_get_num_threads(void);
extern int omp_get_thread_num(void);
extern int omp_get_num_procs(void);
extern void omp_set_num_threads(int);
extern int omp_in_parallel(void);
extern double omp_get_wtime(void);
typedef struct { void *p; } omp_lock_t;
extern void omp_init_lock(omp_lock_t *);
extern void omp_destroy_lock(omp_lock_t *);
extern void omp_set_lock(omp_lock_t *);
extern void omp_unset_lock(omp_lock_t *);
#endif

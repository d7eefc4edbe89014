// The part of the OpenMP runtime interface that code under test may use (clang has no omp.h of its own here).
#ifndef VP_OMP_H_
#define VP_OMP_H_
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_thread_num(void);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_in_parallel(void);
void omp_set_num_threads(int);
void omp_set_dynamic(int);
int omp_get_dynamic(void);
int omp_get_nested(void);
int omp_get_num_procs(void);
int omp_get_num_devices(void);
int omp_get_max_active_levels(void);
int omp_get_thread_limit(void);
int omp_get_num_teams(void);
int omp_get_team_num(void);
int omp_get_level(void);
int omp_get_active_level(void);
typedef struct {
    void* p;
} omp_lock_t;
void omp_init_lock(omp_lock_t*);
void omp_destroy_lock(omp_lock_t*);
void omp_set_lock(omp_lock_t*);
void omp_unset_lock(omp_lock_t*);
#ifdef __cplusplus
}
#endif
#endif

#pragma once
// declarations only: clang here ships no omp.h, and the analysis never links
extern "C" { int omp_get_thread_num(); int omp_get_num_threads(); int omp_get_max_threads(); void omp_set_num_threads(int); int omp_get_num_procs(); double omp_get_wtime(); typedef struct { int _x[1]; } omp_lock_t; void omp_init_lock(omp_lock_t*); void omp_set_lock(omp_lock_t*); void omp_unset_lock(omp_lock_t*); void omp_destroy_lock(omp_lock_t*); void omp_set_dynamic(int); void omp_set_nested(int); int omp_in_parallel(); }

#pragma once
extern "C" {
    static inline int omp_get_max_threads(void) { return 1; }
    static inline int omp_get_thread_num(void) { return 0; }
    static inline int omp_get_num_procs(void) { return 1; }
}

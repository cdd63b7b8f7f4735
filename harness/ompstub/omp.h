// stand-in for OpenMP: the number of threads and the number of the running thread are set by the harness
#pragma once
extern "C" long sym_param(const char* name, long dflt);
struct omp_stub { static int& threads() { static int n = (int)sym_param("threads", 1); return n; } static int& self() { static int i = 0; return i; } static int& reversed() { static int r = 0; return r; } };
static inline int omp_get_num_threads() { return omp_stub::threads(); }
static inline int omp_get_max_threads() { return omp_stub::threads(); }
static inline int omp_get_thread_num() { return omp_stub::self(); }

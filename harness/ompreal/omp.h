// OpenMP runtime interface; the engine implements it for the analysis, omprt.cc for native replays
#pragma once
extern "C" { int omp_get_num_threads(void); int omp_get_max_threads(void); int omp_get_thread_num(void); int omp_in_parallel(void); }

// Native replays of OpenMP code: the calls g++ -fopenmp generates, on real threads. They run in the engine's order (one at a time, switched at
// barriers and at their end); with OMPRT_FREE set they run freely (for the thread sanitizer).
#include "sym.h"
#include "omp.h"
#ifndef __clang__
#include <pthread.h>
#include <algorithm>
#include <vector>
#include <cstdlib>
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER, crit = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER; static pthread_barrier_t bar;
static std::vector<int> order, status; static int turn = -1, T = 1; static bool par = false; static thread_local int self = 0;
static bool freely() { static bool f = getenv("OMPRT_FREE") != nullptr; return f; }
static void next() { for (;;) { for (int t : order) if (status[t] == 0) { turn = t; pthread_cond_broadcast(&cv); return; } bool done = true; for (int s : status) if (s != 2) done = false; if (done) { turn = -1; return; } for (int& s : status) if (s == 1) s = 0; } }
static void await() { while (turn != self) pthread_cond_wait(&cv, &mu); }
extern "C" {
int omp_get_num_threads(void) { return par ? T : 1; }
int omp_get_max_threads(void) { return (int)sym_param("threads", 3); }
int omp_get_thread_num(void) { return par ? self : 0; }
int omp_in_parallel(void) { return par; }
struct Job { void (*fn)(void*); void* data; int id; };
static void* run(void* p) { Job* j = (Job*)p; self = j->id;
  if (freely()) { j->fn(j->data); return nullptr; }
  pthread_mutex_lock(&mu); await(); pthread_mutex_unlock(&mu); j->fn(j->data); pthread_mutex_lock(&mu); status[self] = 2; next(); pthread_mutex_unlock(&mu); return nullptr; }
void GOMP_parallel(void (*fn)(void*), void* data, unsigned, unsigned) {
  T = (int)sym_param("threads", 3); order.resize(T); for (int i = 0; i < T; i++) order[i] = i; for (int s = (int)sym_param("sched", 0); s > 0; s--) std::next_permutation(order.begin(), order.end());
  status.assign(T, 0); turn = order[0]; par = true; pthread_barrier_init(&bar, nullptr, T); std::vector<pthread_t> th(T); std::vector<Job> jobs(T);
  for (int i = 0; i < T; i++) { jobs[i] = {fn, data, i}; pthread_create(&th[i], nullptr, run, &jobs[i]); } for (auto& t : th) pthread_join(t, nullptr);
  pthread_barrier_destroy(&bar); par = false; }
void GOMP_barrier(void) { if (!par) return; if (freely()) { pthread_barrier_wait(&bar); return; } pthread_mutex_lock(&mu); status[self] = 1; next(); await(); pthread_mutex_unlock(&mu); }
void GOMP_critical_start(void) { if (par && freely()) pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { if (par && freely()) pthread_mutex_unlock(&crit); }
void GOMP_atomic_start(void) { GOMP_critical_start(); }
void GOMP_atomic_end(void) { GOMP_critical_end(); }
}
#endif

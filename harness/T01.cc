// the range each thread is given: in bounds, disjoint, covering
#define QDP_USE_OMP_THREADS 1
#include "omp.h"
#include "qdp_dispatch.h"
#include "sym.h"
struct Arg { int lo, hi, calls, id; }; static Arg seen;
static void body(int lo, int hi, int id, Arg* a) { seen.lo = lo; seen.hi = hi; seen.id = id; seen.calls++; (void)a; }
static Arg run(int n, int T, int id) { seen.calls = 0; seen.lo = seen.hi = 0; seen.id = id; omp_stub::threads() = T; omp_stub::self() = id; Arg a = {0, 0, 0, 0}; QDP::dispatch_to_threads(n, a, body); return seen; }
static int split(int n, int T) { return n <= T + 1 ? (int)sym_concrete((uint32_t)n) : n; } // few sites: one path per count
static void ok(const Arg& r, int n, int id) { sym_assert(r.calls <= 1, "at most one call per thread"); sym_assert((r.lo >= 0) & (r.hi <= n) & (r.lo <= r.hi), "range in bounds"); sym_assert(r.id == id, "the thread is told its own number"); }
void harness_main() {
  int kind = (int)sym_param("kind", 0);
  if (kind == 0) { // every thread count up to `max`, every site count, every site: exactly one thread has the site
    int T = sym_choose("T", 1, (int)sym_param("max", 6)); int n = (int)sym_int("n", 31), s = (int)sym_int("s", 31); sym_assume(s < n); n = split(n, T); int cnt = 0;
    for (int id = 0; id < T; id++) { Arg r = run(n, T, id); ok(r, n, id); cnt += (r.lo <= s) & (s < r.hi); }
    sym_assert(cnt == 1, "every site belongs to exactly one thread");
  } else if (kind == 1) { // no sites: no work
    int T = sym_choose("T", 1, 64), id = sym_choose("id", 0, 63); if (id >= T) { sym_cover("end"); return; } Arg r = run(0, T, id); sym_assert(r.lo >= r.hi, "no site, no work");
  } else if (kind == 2) { // many threads, few sites: all pairs
    int T = sym_choose("T", 1, (int)sym_param("max", 40)); int n = (int)sym_int("n", (unsigned)sym_param("bits", 10)), s = (int)sym_int("s", (unsigned)sym_param("bits", 10)); sym_assume(s < n); n = split(n, T); int cnt = 0;
    for (int id = 0; id < T; id++) { Arg r = run(n, T, id); ok(r, n, id); cnt += (r.lo <= s) & (s < r.hi); }
    sym_assert(cnt == 1, "every site belongs to exactly one thread");
  } else { // one thread of any count with any number: in bounds
    static const int Ts[] = {2, 3, 7, 16, 48, 64, 128, 255, 256}; int T = Ts[sym_choose("T", 0, 8)]; int n = (int)sym_int("n", 31); static const int num[] = {0, 1, 1, 1}, den[] = {1, 4, 2, 1}; sym_assume(n > T); int q = sym_choose("id", 0, 3); int id = (T - 1) * num[q] / den[q]; Arg r = run(n, T, id); ok(r, n, id);
    if (id + 1 < T) { Arg r2 = run(n, T, id + 1); ok(r2, n, id + 1); int s = (int)sym_int("s", 31); sym_assert(!((r.lo <= s) & (s < r.hi) & (r2.lo <= s) & (s < r2.hi)), "two threads never share a site"); }
  }
  sym_cover("end");
}

// the default allocator: aligned, inside its own memory, disjoint, released once. operator new[] is replaced while a flag is up, so that the alignment of the memory
// underneath, and the request sizes, are symbolic
#include "qh.h"
#include <new>
struct Under { char* p; uint64_t n; int live, released; };
static Under und[16]; static int nund = 0, hook = 0, arena = 0; static bool alien = false;
static const uint64_t MOD = 4096; static char* arenas[8];
void* operator new[](size_t n) { if (!hook) return ::operator new(n);
  uint64_t off = 16 * (uint64_t)sym_int("underlying_alignment", 8); // any multiple of 16 modulo 4096
  char* p = arenas[arena] + off; und[nund].p = p; und[nund].n = n; und[nund].live = 1; nund++; return p; }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new[](n); }
void operator delete[](void* p) noexcept { if (!hook) { ::operator delete(p); return; } bool hit = false; for (int i = 0; i < nund; i++) { int h = (und[i].p == (char*)p) & und[i].live; hit = hit | h; und[i].live -= h; und[i].released += h; } sym_assert(hit, "only live memory is released, at the address it was obtained at"); }
void operator delete[](void* p, size_t) noexcept { operator delete[](p); }
struct Blk { char* p; uint64_t n; int u; };
void harness_main() {
  qh_start_param(1, 1, 1, 1); int kind = (int)sym_param("kind", 0); Allocator::QDPDefaultAllocator& A = Allocator::theQDPAllocator::Instance(); const uint64_t AL = QDP_ALIGNMENT_SIZE;
  if (kind == 0) { // symbolic sizes and alignments: addresses only; every order of release
    const int N = (int)sym_param("n", 3); Blk b[4]; for (int i = 0; i < N; i++) arenas[i] = (char*)sym_alloc_at(16, 1ull << 20, 0) + ((uint64_t)(i + 1) << 40);
    hook = 1; for (int i = 0; i < N; i++) { uint64_t n = sym_int("size", 36); arena = i; b[i].n = n; b[i].u = nund; b[i].p = (char*)A.allocate(n, i == 1 ? Allocator::FAST : Allocator::DEFAULT); }
    if (nund == N) {
      for (int i = 0; i < N; i++) { Under& u = und[b[i].u]; sym_assert((uint64_t)b[i].p % AL == 0, "aligned as configured"); sym_assert((b[i].p >= u.p) & (b[i].p + b[i].n <= u.p + u.n), "the requested bytes lie inside the memory obtained"); }
      int ord = sym_choose("order", 0, N == 3 ? 5 : 1); static const int P[6][3] = {{0, 1, 2}, {1, 0, 2}, {0, 2, 1}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
      for (int k = 0; k < N; k++) { int i = P[ord][k]; if (N == 2 && i == 2) continue; A.free(b[i].p); for (int j = 0; j < N; j++) { bool gone = false; for (int m = 0; m <= k; m++) gone = gone | (P[ord][m] == j); sym_assert(und[b[j].u].live == !gone, "releasing one block releases its memory and no other"); } }
      for (int i = 0; i < N; i++) sym_assert(und[b[i].u].released == 1, "released exactly once");
      int which = P[ord][N - 1]; arena = which; int before = nund; uint64_t n2 = sym_int("size", 36); char* again = (char*)A.allocate(n2, Allocator::DEFAULT); sym_assert(nund == before + 1, "new memory for a new block"); sym_assert((uint64_t)again % AL == 0, "aligned as configured"); A.free(again); sym_assert(und[before].live == 0, "released"); sym_cover("hooked");
    }
    hook = 0;
  } else if (kind == 1) { // real memory: every byte of every live block can be written and keeps its value
    int N = (int)sym_param("n", 4); Blk b[8]; static const int sz[] = {0, 1, 15, 16, 17, 33, 64};
    for (int i = 0; i < N; i++) { int n = sz[(i * 3 + 1 + sym_choose("size", 0, 1) * 3) % 7]; b[i].n = n; b[i].p = (char*)A.allocate(n, Allocator::DEFAULT); sym_assert((uint64_t)b[i].p % AL == 0, "aligned as configured"); for (int k = 0; k < n; k++) b[i].p[k] = (char)(i * 37 + k); for (int j = 0; j < i; j++) sym_assert(b[i].p != b[j].p, "blocks are distinct"); }
    int victim = sym_choose("victim", 0, N - 1); A.free(b[victim].p); b[victim].n = 0;
    char* q = (char*)A.allocate(24, Allocator::FAST); for (int k = 0; k < 24; k++) q[k] = 0x55;
    for (int i = 0; i < N; i++) for (uint64_t k = 0; k < b[i].n; k++) sym_assert(b[i].p[k] == (char)(i * 37 + k), "another block's bytes are untouched");
    for (int k = 0; k < 24; k++) sym_assert(q[k] == 0x55, "another block's bytes are untouched");
    for (int i = N - 1; i >= 0; i--) if (i != victim) A.free(b[i].p); A.free(q);
  } else if (kind == 2) { // a second release, or the release of memory that is not ours, is refused
    char* p = (char*)A.allocate(40, Allocator::DEFAULT); char* q = (char*)A.allocate(40, Allocator::DEFAULT); int how = sym_choose("how", 0, 2); A.free(p);
    int off = sym_choose("offset", 1, 39); sym_cover("end"); sym_allow_abort(1); A.free(how == 0 ? p : how == 1 ? q + off : (char*)&A); sym_fail("a release that names no live block went through");
  } else { // lattice fields obtain their sites from the allocator: distinct fields do not overlap, and each is aligned
    { LatticeInteger a, b; LatticeColorMatrix u; LatticeReal r; a = 3; b = 4; u = 1; r = 2.5; sym_assert(((uint64_t)a.getF() % AL == 0) & ((uint64_t)b.getF() % AL == 0) & ((uint64_t)u.getF() % AL == 0) & ((uint64_t)r.getF() % AL == 0), "fields are aligned");
      for (int s = 0; s < Layout::vol(); s++) { sym_assert(a.elem(s).elem().elem().elem() == 3, "fields do not overlap"); sym_assert(b.elem(s).elem().elem().elem() == 4, "fields do not overlap"); }
      LatticeInteger* d = new LatticeInteger(a); delete d; LatticeInteger c = b; for (int s = 0; s < Layout::vol(); s++) { sym_assert(a.elem(s).elem().elem().elem() == 3, "releasing a copy leaves the original"); sym_assert(c.elem(s).elem().elem().elem() == 4, "a copy has its own sites"); } }
  }
  sym_cover("end");
}

// Native side: replays recorded symbol values against the really compiled library.
#include "sym.h"
#include <cmath>
#include <deque>
#include <map>
#include <string>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <csignal>
struct Ent { std::string name; unsigned w; uint64_t v; };
static std::deque<Ent> q; static std::map<std::string, long> params; static std::deque<Ent> obs; static int fails = 0, obsBad = 0, obsOk = 0; static bool allowAbort = false;
static void load() {
  static bool done = false; if (done) return; done = true;
  const char* f = getenv("SYM_REPLAY"); if (!f) return; std::ifstream in(f); std::string l;
  while (std::getline(in, l)) { if (l.size() < 2 || l[0] == '#') continue; std::istringstream s(l); std::string k; s >> k;
    if (k == "P") { std::string n; long v; s >> n >> v; params[n] = v; }
    else if (k == "S") { Ent e; std::string h; s >> e.name >> e.w >> h; e.v = strtoull(h.c_str(), 0, 16); q.push_back(e); }
    else if (k == "O" || k == "F") { Ent e; std::string h; s >> e.name >> h; e.w = k == "F"; e.v = strtoull(h.c_str(), 0, 16); obs.push_back(e); } }
}
static uint64_t next(const char* n, unsigned w) { load(); if (q.empty()) return 0; Ent e = q.front(); q.pop_front(); if (e.w != w) { printf("SYMDESYNC %s %s\n", n, e.name.c_str()); fflush(stdout); _exit(79); } return e.v; }
static void finish() { printf("SYMDONE fails=%d obs_ok=%d obs_bad=%d\n", fails, obsOk, obsBad); fflush(stdout); _exit(fails ? 77 : obsBad ? 78 : 0); }
extern "C" {
uint64_t sym_int(const char* n, unsigned w) { return next(n, w); }
float sym_f32(const char* n) { uint32_t v = (uint32_t)next(n, 32); float f; memcpy(&f, &v, 4); return f; }
double sym_f64(const char* n) { uint64_t v = next(n, 64); double f; memcpy(&f, &v, 8); return f; }
void sym_assume(int c) { if (!c) { printf("SYMASSUME violated\n"); fflush(stdout); _exit(80); } }
void sym_assert(int c, const char* m) { if (!c) { fails++; printf("SYMFAIL %s\n", m); fflush(stdout); } }
static bool close_(double a, double b, double t) { if (std::isnan(a) && std::isnan(b)) return true; if (a == b) return true; return std::fabs(a - b) <= t * (1 + std::fabs(a) + std::fabs(b)); }
void sym_feq32(float a, float b, const char* m) { if (!close_(a, b, 1e-4)) { fails++; printf("SYMFAIL %s (%g vs %g)\n", m, a, b); fflush(stdout); } }
void sym_feq64(double a, double b, const char* m) { if (!close_(a, b, 1e-5)) { fails++; printf("SYMFAIL %s (%g vs %g)\n", m, a, b); fflush(stdout); } }
uint64_t sym_concrete(uint64_t v) { return v; }
void sym_cover(const char*) {}
long sym_param(const char* n, long d) { load(); auto i = params.find(n); return i == params.end() ? d : i->second; }
static void chk(const char* n, uint64_t v, double d, bool f) { load(); if (obs.empty()) return; Ent e = obs.front(); obs.pop_front(); double x; memcpy(&x, &e.v, 8);
  bool ok = e.name == n && (f ? close_(d, x, 1e-4) : v == e.v); if (ok) obsOk++; else { obsBad++; printf("SYMOBS %s native %lx (%g) predicted %s %lx (%g)\n", n, (unsigned long)v, d, e.name.c_str(), (unsigned long)e.v, x); fflush(stdout); } }
void sym_observe(const char* n, uint64_t v) { chk(n, v, 0, false); }
void sym_observef(const char* n, double v) { chk(n, bits64(v), v, true); }
void sym_allow_abort(int on) { allowAbort = on; }
void sym_fail(const char* m) { fails++; printf("SYMFAIL %s\n", m); fflush(stdout); finish(); }
void sym_end(void) { finish(); }
void* sym_alloc_at(uint64_t n, uint64_t mod, uint64_t rem) { char* p = (char*)malloc(n + 2 * mod); uintptr_t a = ((uintptr_t)p + mod - 1) / mod * mod + rem; return (void*)a; }
void sym_trace(const char*, uint64_t) {}
}
static void ended(int code) { printf("SYMEND code=%d fails=%d\n", code, fails); fflush(stdout); _exit(fails ? 77 : code); }
static void onExit() { ended(allowAbort ? 81 : 82); }
static void onSig(int s) { ended(s == SIGABRT ? (allowAbort ? 81 : 82) : 83); }
int main() { atexit(onExit); signal(SIGABRT, onSig);
#ifndef __SANITIZE_ADDRESS__
  signal(SIGSEGV, onSig); signal(SIGFPE, onSig); signal(SIGBUS, onSig); signal(SIGILL, onSig);
#endif
  harness_main(); finish(); }

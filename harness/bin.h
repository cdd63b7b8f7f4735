// byte-level oracles for the binary streams
#pragma once
#include "qf.h"
#include <vector>
#include <list>
#include <map>
#include <complex>
typedef std::string str;
static inline void symv(char& x, const char* n) { x = (char)sym_int(n, 8); }
static inline void symv(bool& x, const char* n) { x = sym_int(n, 1) != 0; }
#define SYMV(T) static inline void symv(T& x, const char* n) { x = (T)sym_int(n, 8 * sizeof(T)); }
SYMV(short) SYMV(unsigned short) SYMV(int) SYMV(unsigned int) SYMV(long) SYMV(unsigned long) SYMV(long long)
static inline void symv(float& x, const char* n) { x = sym_f32(n); }
static inline void symv(double& x, const char* n) { x = sym_f64(n); }
template<class T> static inline void symv(std::complex<T>& x, const char* n) { T a, b; symv(a, n); symv(b, n); x = std::complex<T>(a, b); }
template<class T> static inline void symv(OScalar<T>& x, const char* n) { symfill(x, n); }
template<class T> static inline bool same(const T& a, const T& b) { return a == b; }
static inline bool same(float a, float b) { return bits32(a) == bits32(b); }
static inline bool same(double a, double b) { return bits64(a) == bits64(b); }
template<class T> static inline bool same(const std::complex<T>& a, const std::complex<T>& b) { return same(a.real(), b.real()) & same(a.imag(), b.imag()); }
template<class T> static inline bool same(const OScalar<T>& a, const OScalar<T>& b) { bool ok = true; for (int i = 0; i < (int)Words<T>::n; i++) ok = ok & samew(word(a.elem(), i), word(b.elem(), i)); return ok; }
// expected bytes: words most significant byte first
struct Bytes { unsigned char b[4096]; int n = 0; void put(uint64_t v, int w) { for (int i = w - 1; i >= 0; i--) b[n++] = (unsigned char)(v >> (8 * i)); } };
#define PUTV(T) static inline void put(Bytes& o, T x) { o.put((uint64_t)x, sizeof(T)); }
PUTV(char) PUTV(bool) PUTV(short) PUTV(unsigned short) PUTV(int) PUTV(unsigned int) PUTV(long) PUTV(unsigned long) PUTV(long long)
static inline void put(Bytes& o, float x) { o.put(bits32(x), 4); }
static inline void put(Bytes& o, double x) { o.put(bits64(x), 8); }
template<class T> static inline void put(Bytes& o, const std::complex<T>& x) { put(o, x.real()); put(o, x.imag()); }
template<class T> static inline void putsite(Bytes& o, const T& x) { for (int i = 0; i < (int)Words<T>::n; i++) put(o, word(x, i)); }
template<class T> static inline void put(Bytes& o, const OScalar<T>& x) { putsite(o, x.elem()); }
static inline bool equal(const Bytes& o, const str& s) { if ((int)s.size() != o.n) return false; bool ok = true; for (int i = 0; i < o.n; i++) ok = ok & ((unsigned char)s[i] == o.b[i]); return ok; }
static inline uint32_t crc(const Bytes& o, int from = 0) { return QDPUtil::crc32(0, o.b + from, o.n - from); }
// a scratch file: real in the native replay, in memory in the engine
static inline str scratch(const char* nm) { str s = nm; return s; }

// byte order
#include "qh.h"
#include "qdp_byteorder.h"
#include <vector>
using QDPUtil::byte_swap; using QDPUtil::big_endian;
static void swaps(size_t size, size_t n) {
  enum { G = 16 }; const int M = (int)(size * n) + 2 * G; unsigned char* m = (unsigned char*)malloc(M); unsigned char o[16 * 40 + 2 * G]; for (int i = 0; i < M; i++) { m[i] = (unsigned char)sym_int("b", 8); o[i] = m[i]; }
  byte_swap(m + G, size, n);
  for (int i = 0; i < M; i++) { int k = i - G; bool in = k >= 0 && k < (int)(size * n); int w = in ? k / (int)size : 0, b = in ? k % (int)size : 0; sym_assert(m[i] == (in ? o[G + w * size + (size - 1 - b)] : o[i]), in ? "the bytes of a word are reversed" : "nothing else changes"); }
  byte_swap(m + G, size, n); for (int i = 0; i < M; i++) sym_assert(m[i] == o[i], "swapping twice is the identity"); free(m); }
template<class T> static void word(T x) { T y = x; byte_swap(&y, sizeof(T), 1); T z = 0; for (size_t i = 0; i < sizeof(T); i++) { z = (T)((z << 8) | ((x >> (8 * i)) & 0xff)); if (sizeof(T) == 1) z = x; } sym_assert(y == z, "reversed word"); }
void harness_main() {
  int kind = (int)sym_param("kind", 0);
  if (kind == 0) { static const int sz[] = {1, 2, 4, 8, 16}; for (int s : sz) { for (int n = 0; n <= 9; n++) swaps(s, n); swaps(s, 33); } }
  else if (kind == 1) { word<uint16_t>((uint16_t)sym_int("h", 16)); word<uint32_t>((uint32_t)sym_int("w", 32)); word<uint64_t>(sym_int("d", 64));
    int one = 1; unsigned char c; memcpy(&c, &one, 1); sym_assert(big_endian() == (c == 0), "host order"); uint32_t x = (uint32_t)sym_int("x", 32), y = x; if (!big_endian()) byte_swap(&y, 4, 1); unsigned char b[4]; memcpy(b, &y, 4); sym_assert((((uint32_t)b[0] << 24) | (b[1] << 16) | (b[2] << 8) | b[3]) == x, "most significant byte first"); }
  else { // unaligned words, and words that straddle each other's place
    int off = sym_choose("off", 0, 7); int s = 1 << sym_choose("size", 0, 4); unsigned char* m = (unsigned char*)malloc(64), o[64]; for (int i = 0; i < 64; i++) { m[i] = (unsigned char)sym_int("b", 8); o[i] = m[i]; } 
    if (s == 2) off &= ~1; if (s == 4) off &= ~3; byte_swap(m + off, s, 2); for (int i = 0; i < 64; i++) { int k = i - off; sym_assert(m[i] == (k >= 0 && k < 2 * s ? o[off + k / s * s + s - 1 - k % s] : o[i]), "reversal at an offset"); } free(m); }
  sym_cover("end");
}

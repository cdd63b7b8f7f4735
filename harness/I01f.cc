// the stdio forms of big-endian transfer: the library's source is compiled with its stream calls redirected to a buffer
#include <cstdio>
#include <cstdlib>
#include <iostream>
static unsigned char disk[256]; static size_t at_ = 0, avail = sizeof(disk);
static size_t my_fread(void* p, size_t s, size_t n, FILE*) { size_t k = 0; unsigned char* q = (unsigned char*)p; while (k < n && at_ + s <= avail) { for (size_t i = 0; i < s; i++) q[k * s + i] = disk[at_ + i]; at_ += s; k++; } return k; }
static size_t my_fwrite(const void* p, size_t s, size_t n, FILE*) { size_t k = 0; const unsigned char* q = (const unsigned char*)p; while (k < n && at_ + s <= avail) { for (size_t i = 0; i < s; i++) disk[at_ + i] = q[k * s + i]; at_ += s; k++; } return k; }
#include "qdp_byteorder.h"
#define fread my_fread
#define fwrite my_fwrite
#include "../lib/qdp_byteorder.cc"
#undef fread
#undef fwrite
#include "sym.h"
void harness_main() {
  static const int sz[] = {1, 2, 4, 8, 16};
  for (int s : sz) for (int n = 0; n <= 3; n++) for (int fit = 0; fit < 2; fit++) { // the stream takes or holds everything, or one word less
    int len = s * n, words = fit ? n : n > 0 ? n - 1 : 0; unsigned char* m = (unsigned char*)malloc(len + 1), o[64]; for (int i = 0; i < len; i++) { m[i] = (unsigned char)sym_int("b", 8); o[i] = m[i]; }
    at_ = 0; avail = s * words; sym_assert(QDPUtil::bfwrite(m, s, n, (FILE*)0) == (size_t)words, "words written"); for (int i = 0; i < len; i++) sym_assert(m[i] == o[i], "writing leaves the caller's data as it was");
    for (int i = 0; i < s * words; i++) sym_assert(disk[i] == o[i / s * s + s - 1 - i % s], "words are written most significant byte first");
    for (int i = 0; i < len; i++) m[i] = (unsigned char)sym_int("g", 8); unsigned char g[64]; for (int i = 0; i < len; i++) g[i] = m[i];
    at_ = 0; sym_assert(QDPUtil::bfread(m, s, n, (FILE*)0) == (size_t)words, "words read"); for (int i = 0; i < len; i++) sym_assert(m[i] == (i < s * words ? o[i] : g[i]), "the words come back, the others stay"); free(m); }
  sym_observe("end", 1); sym_cover("end"); }

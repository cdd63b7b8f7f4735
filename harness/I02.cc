// CRC-32
#include "qh.h"
using QDPUtil::crc32;
typedef uint32_t u32;
// one byte, bit by bit, reflected polynomial, on the inverted register
static u32 step(u32 crc, unsigned char b) { u32 r = ~crc ^ b; for (int i = 0; i < 8; i++) r = (r >> 1) ^ (0xEDB88320u & (0u - (r & 1))); return ~r; }
void harness_main() {
  int kind = (int)sym_param("kind", 0), n = (int)sym_param("n", 19);
  if (kind == 0) { u32 c = (u32)sym_int("crc", 32); unsigned char b = (unsigned char)sym_int("b", 8); u32 r = crc32(c, &b, 1); sym_observe("crc", r); sym_assert(r == step(c, b), "one byte is one step of the reflected CRC-32"); sym_assert(crc32(c, &b, 0) == c, "no byte changes nothing"); char s = (char)b; sym_assert(crc32(c, &s, 1) == r, "signed bytes"); sym_assert(crc32(0, (const unsigned char*)0, 0) == 0, "initial value"); }
  else if (kind == 1) { unsigned char m[64]; for (int i = 0; i < n; i++) m[i] = (unsigned char)sym_int("m", 8); u32 c = (u32)sym_int("crc", 32); { u32 r = c; for (int i = 0; i < n; i++) r = step(r, m[i]); sym_assert(crc32(c, m, n) == r, "a sequence is steps of the reflected CRC-32"); }
    for (int off = 0; off < 4; off++) { u32 r = c; for (int len = 0; len + off <= n; len++) { sym_assert(crc32(c, m + off, len) == r, "a sequence is its bytes one after another"); if (len + off < n) r = crc32(r, m + off + len, 1); } } }
  else if (kind == 2) { unsigned char m[64]; for (int i = 0; i < n; i++) m[i] = (unsigned char)sym_int("m", 8); u32 w = crc32(0, m, n); for (int k = 0; k <= n; k++) { sym_assert(crc32(crc32(0, m, k), m + k, n - k) == w, "two pieces give the same result as one"); sym_assert(crc32(crc32(0, (const char*)m, k), (const char*)m + k, n - k) == w, "also through the signed interface"); } }
  else if (kind == 4) { // long sequences, a few unknown bytes
    int sel = sym_choose("len", 0, 5); int n = sel == 0 ? 100 : sel == 1 ? 256 : sel == 2 ? 1023 : sel == 3 ? 4099 : sel == 4 ? 5553 : 65537; unsigned char* m = (unsigned char*)malloc(n); for (int i = 0; i < n; i++) m[i] = (unsigned char)(i * 131 + (i >> 8));
    bool shrt = n < 400; for (int k = 0; k < 5; k++) m[k == 0 ? (shrt ? 0 : n - 9) : k == 1 ? n - 1 : k == 2 ? (shrt ? n / 2 : n - 30) : k == 3 ? n - 6 : shrt ? 17 : n - 65] = (unsigned char)sym_int("m", 8); u32 c = shrt ? (u32)sym_int("crc", 32) : 0x9e3779b9u, r = c; for (int i = 0; i < n; i++) r = step(r, m[i]); sym_assert(crc32(c, m, n) == r, "a long sequence is steps of the CRC");
    int at[4] = {1, n / 2 + 1, n - 5, n & ~63}; u32 w = crc32(0, m, n); for (int k = 0; k < 4; k++) sym_assert(crc32(crc32(0, m, at[k]), m + at[k], n - at[k]) == w, "two pieces of a long sequence"); free(m); }
  else { unsigned char t[9] = {'1', '2', '3', '4', '5', '6', '7', '8', '9'}; sym_assert(crc32(0, t, 9) == 0xCBF43926u, "check value");
    // any single-byte change is detected
    unsigned char a[9], b[9]; int p = sym_choose("pos", 0, 8); for (int i = 0; i < 9; i++) a[i] = b[i] = (unsigned char)sym_int("m", 8); b[p] = (unsigned char)sym_int("other", 8); if (p >= 7) sym_assert((crc32(0, a, 9) == crc32(0, b, 9)) == (a[p] == b[p]), "a changed byte changes the checksum"); }
  sym_cover("end");
}

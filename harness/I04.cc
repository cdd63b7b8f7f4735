// Checksums of binary streams over histories of writes, reads and resets; the source data is not modified.
#include "bin.h"
static uint32_t stepb(uint32_t crc, unsigned char b) { uint32_t r = ~crc ^ b; for (int i = 0; i < 8; i++) r = (r >> 1) ^ (0xEDB88320u & (0u - (r & 1))); return ~r; }
static uint32_t ref(const Bytes& e, int from) { uint32_t c = 0; for (int i = from; i < e.n; i++) c = stepb(c, e.b[i]); return c; }
static const int kInt = 0x01020304; static const double kArr[2] = {1.5, -2.25}; 
struct Item { int t; int i; double d; unsigned char c[3]; str s; short a[3]; };
static void doWrite(BinaryWriter& w, Item& x, Bytes& e) {
  switch (x.t) {
    case 0: symv(x.i, "i"); { int o = x.i; write(w, x.i); sym_assert(x.i == o, "source"); } put(e, x.i); break;
    case 1: symv(x.d, "d"); { double o = x.d; w.write(x.d); sym_assert(same(x.d, o), "source"); } put(e, x.d); break;
    case 2: for (int j = 0; j < 3; j++) { symv(x.a[j], "a"); put(e, x.a[j]); } { short o[3]; memcpy(o, x.a, 6); w.writeArray((char*)x.a, 2, 3); sym_assert(o[0] == x.a[0] && o[1] == x.a[1] && o[2] == x.a[2], "source array"); } break;
    case 3: { int n = 2; for (int j = 0; j < n; j++) { char c = (char)sym_int("s", 8); sym_assume(c != '\n' && c != 0); x.s += c; e.put((unsigned char)c, 1); } e.put('\n', 1); str o = x.s; write(w, x.s); sym_assert(o.size() == x.s.size(), "source string"); break; }
    case 4: { x.s = "d"; x.s += (char)sym_int("s", 8); writeDesc(w, x.s); e.put(2, 4); e.put('d', 1); e.put((unsigned char)x.s[1], 1); break; }
    case 5: w.write(kInt); put(e, kInt); w.writeArray((const char*)kArr, 8, 2); put(e, kArr[0]); put(e, kArr[1]); sym_assert(kInt == 0x01020304 && kArr[0] == 1.5 && kArr[1] == -2.25, "constants"); break;
    default: x.c[0] = 7; w.writeArrayPrimaryNode((char*)x.c, 1, 0); w.writeArrayPrimaryNode((char*)x.c, 1, 1); e.put(7, 1); }
}
static void doRead(BinaryReader& r, const Item& x, Bytes& e) {
  switch (x.t) {
    case 0: { int v = 0; read(r, v); sym_assert(v == x.i, "int"); put(e, v); break; }
    case 1: { double v = 0; r.read(v); sym_assert(same(v, x.d), "double"); put(e, x.d); break; }
    case 2: { short a[3]; r.readArray((char*)a, 2, 3); for (int j = 0; j < 3; j++) { sym_assert(a[j] == x.a[j], "array"); put(e, x.a[j]); } break; }
    case 3: { str s; read(r, s, 10); sym_assert(s.size() == 2, "string"); sym_assert((s[0] == x.s[0]) & (s[1] == x.s[1]), "string"); for (char c : x.s) e.put((unsigned char)c, 1); e.put('\n', 1); break; }
    case 4: { str s; readDesc(r, s); sym_assert(s.size() == 2 && s[0] == 'd', "desc"); sym_assert(s[1] == x.s[1], "desc"); e.put(2, 4); e.put('d', 1); e.put((unsigned char)x.s[1], 1); break; }
    case 5: { int v; double a[2]; read(r, v); r.readArrayPrimaryNode((char*)a, 8, 2); sym_assert(v == kInt && a[0] == kArr[0] && a[1] == kArr[1], "constants"); put(e, v); put(e, a[0]); put(e, a[1]); break; }
    default: { unsigned char c[1]; r.readArrayPrimaryNode((char*)c, 1, 0); r.readArray((char*)c, 1, 1); sym_assert(c[0] == 7, "byte"); e.put(7, 1); } }
}
void harness_main() {
  qh_start(2, 1, 1, 1); int where = (int)sym_param("where", 0), N = (int)sym_param("n", 3); str f = scratch("I04.dat"); Bytes e; int pre = 0;
  BinaryBufferWriter b0; BinaryFileWriter f0; BinaryFileReaderWriter f1; BinaryBufferReaderWriter b1; BinaryWriter* w = &b0; BinaryReader* r = nullptr; BinaryBufferReader b2; BinaryFileReader f2;
  std::string start("xy"); BinaryBufferWriter bs(start); BinaryBufferReaderWriter brws(std::string("")); 
  if (where == 1) { f0.open(f); w = &f0; } else if (where == 2) { f0.open(f); f0.close(); f1.open(f); w = &f1; } else if (where == 3) w = &b1; else if (where == 4) w = &bs; else if (where == 5) w = &brws;
  sym_assert(w->getChecksum() == 0, "nothing written yet"); Item it[4]; bool rs[4]; int from = 0;
  for (int i = 0; i < N; i++) { it[i].t = sym_choose("op", 0, 6); doWrite(*w, it[i], e); sym_assert(w->getChecksum() == ref(e, from), "the writer's checksum is that of the bytes since the start or last reset"); rs[i] = sym_choose("reset", 0, 1); if (rs[i]) { w->resetChecksum(); from = e.n; sym_assert(w->getChecksum() == 0, "reset"); } }
  str img; if (where == 0) img = b0.str(); else if (where == 3) img = b1.str(); else if (where == 4) img = bs.str(); else if (where == 5) img = brws.str(); if (where != 1 && where != 2) sym_assert(equal(e, img), "bytes emitted");
  BinaryBufferReader b3(img); sym_assert(b3.getChecksum() == 0, "nothing read yet");
  if (where == 1) { f0.close(); f2.open(f); r = &f2; } else if (where == 2) { f1.flush(); f1.rewind(); r = &f1; } else if (where == 3) { b1.rewind(); r = &b1; } else if (where == 4) r = &b3; else if (where == 5) { brws.resetChecksum(); r = &brws; } else { b2.open(img); r = &b2; }
  sym_assert(r->getChecksum() == 0, "a reader starts from nothing"); Bytes g; from = 0;
  for (int i = 0; i < N; i++) { doRead(*r, it[i], g); sym_assert(r->getChecksum() == ref(g, from), "the reader's checksum is that of the bytes since the start or last reset"); sym_assert(r->getChecksum() == r->getChecksum(), "asking changes nothing"); if (rs[i]) { r->resetChecksum(); from = g.n; sym_assert(r->getChecksum() == 0, "reset"); } }
  sym_cover("end");
}

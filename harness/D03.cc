// MapObjectDisk: histories of inserts, overwrites, lookups, flushes, closes and reopens.
#include "mapref.h"
#include "fakexml.h"
#include "qdp_map_obj_disk.h"
#include "bin.h"
#ifndef KIND
#define KIND 0
#endif
#if KIND == 0 || KIND == 2
typedef int K; static K key(const char* n) { return (K)sym_int(n, 32); }
typedef int V; static V val(const char* n) { return (V)sym_int(n, 32); }
#elif KIND == 1
typedef multi1d<int> K; static K key(const char* n) { int l = sym_choose("len", 1, 2); K s(l); for (int i = 0; i < l; i++) s[i] = (int)sym_int(n, 32); return s; }
typedef multi1d<int> V; static V val(const char* n) { V v(2); v[0] = (int)sym_int(n, 32); v[1] = (int)sym_int(n, 32); return v; }
#endif
typedef MapObjectDisk<K, V> Db; typedef MapRef<K, V> Ref;
static const std::ios_base::openmode RW = std::ios_base::in | std::ios_base::out, NEW = RW | std::ios_base::trunc;
static str file; static str ud;
static void check(Db& m, const Ref& r, bool look) {
  sym_assert((int)m.size() == r.n, "the size is the number of keys"); std::vector<K> ks; m.keys(ks); sym_assert((int)ks.size() == r.n, "enumeration lists every key"); bool seen[8] = {false}; for (size_t i = 0; i < ks.size(); i++) { int p = r.find(ks[i]); sym_assert(p >= 0, "an enumerated key was inserted"); if (p < 0) return; sym_assert(!seen[p], "a key is enumerated once"); seen[p] = true; }
  for (int i = r.n - 1; i >= 0; i--) { V v; int e = m.get(r.k[i], v); sym_assert(e == 0 && m.exist(r.k[i]), "a key inserted before is found"); if (!e) sym_assert(v == r.v[i], "the last value inserted for the key"); }
  if (look) { K a = key("absent"); if (r.find(a) < 0) { V v = val("w"), w = v; sym_assert(m.get(a, v) != 0 && v == w && !m.exist(a), "an absent key is reported absent"); } }
  str u; sym_assert(m.getUserdata(u) == 0 && u == ud, "user data survives"); }
static void step(Db*& m, Ref& r, int op) {
  if (op == 0) { K k = key("k"); V v = val("v"); sym_assert(m->insert(k, v) == 0, "insert succeeds"); r.put(k, v); }
  else if (op == 1) { if (r.n) { int i = sym_choose("which", 0, r.n - 1); V v; sym_assert(m->get(r.k[i], v) == 0 && v == r.v[i], "lookup between inserts"); } }
  else if (op == 2) { if (r.n) { int i = sym_choose("which", 0, r.n - 1); V v = val("v"); sym_assert(m->insert(r.k[i], v) == 0, "overwriting succeeds"); r.v[i] = v; } }
  else if (op == 3) m->flush();
  else if (op == 4) { m->close(); K k = key("k"); V v = val("v"); sym_assert(m->get(k, v) != 0 && m->insert(k, v) != 0, "a closed store refuses lookups and inserts"); m->open(file, RW); }
  else if (op == 5) { delete m; m = new Db; sym_assert(m->fileExists(file), "the file exists"); m->open(file, RW); }
  else { m->close(); m->open(file, NEW); r.n = 0; } }
#if KIND == 2
#include "qdp_map_obj_disk_multiple.h"
static void multiple() {
  std::vector<str> f(2); f[0] = scratch("a.db"); f[1] = scratch("b.db"); Ref r[2]; MapObjectDiskMultiple<K, V> m; sym_assert(!m.fileExists(f), "the files do not exist yet");
  for (int i = 0; i < 2; i++) { Db d; d.insertUserdata(i ? "second" : "first"); d.open(f[i], NEW); for (int j = 0; j < 2; j++) { K k = key("k"); V v = val("v"); d.insert(k, v); r[i].put(k, v); } if (i == 0) sym_assert(!m.fileExists(f), "one file does not exist yet"); }
  sym_assert(m.fileExists(f), "the files exist"); m.open(f); K a = key("q"); int p = r[0].find(a), q = r[1].find(a); V v; int e = m.get(a, v); sym_assert((e == 0) == (p >= 0 || q >= 0) && m.exist(a) == (e == 0), "a key is found when one of the stores has it"); if (e == 0) sym_assert(v == (p >= 0 ? r[0].v[p] : r[1].v[q < 0 ? 0 : q]), "the value in the first store that has the key");
  std::vector<K> ks; m.keys(ks); int n = r[0].n; for (int i = 0; i < r[1].n; i++) if (r[0].find(r[1].k[i]) < 0) n++; sym_assert((int)ks.size() == n, "the union of the keys"); for (size_t i = 0; i < ks.size(); i++) sym_assert(r[0].find(ks[i]) >= 0 || r[1].find(ks[i]) >= 0, "every key listed is in a store"); str u; sym_assert(m.getUserdata(u) == 0 && u == "first", "user data of the first store"); m.flush(); m.close(); m.close(); sym_assert(m.get(a, v) != 0, "nothing is found once closed"); }
#endif
void harness_main() {
  qh_start_param(1, 1, 1, 1);
#if KIND == 2
  multiple(); sym_cover("end"); return;
#endif
  int L = (int)sym_param("L", 4), dbg = (int)sym_param("debug", 0); file = scratch("store.db"); ud = ""; int n = (int)sym_param("userlen", 1); for (int i = 0; i < n; i++) { int c = (int)sym_int("u", 8); sym_assume(c != 0); ud += (char)c; }
  Db* m = new Db; m->setDebug(dbg); Ref r; sym_assert(!m->fileExists(file), "no file yet"); m->insertUserdata(ud); m->open(file, NEW); sym_assert(m->insertUserdata("late") != 0, "user data is fixed once the store is open");
  { K k = key("k"); V v = val("v"); m->insert(k, v); r.put(k, v); }
  int first = (int)sym_param("first", 0); for (int s = 0; s < L; s++) step(m, r, s == 0 ? first : sym_choose("op", 0, 6));
  check(*m, r, true); m->close(); sym_assert(MapObjDiskEnv::getMetaData(file) == ud, "user data can be read without opening the store"); 
  { Db o; o.open(file, std::ios_base::in); check(o, r, false); } delete m; sym_cover("end");
}

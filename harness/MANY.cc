// key-value stores with many keys, long keys and large values: one long history, every value unknown
#include "mapref.h"
#include "fakexml.h"
#ifndef KIND
#define KIND 0
#endif
#include "qdp_map_obj_memory.h"
#include "qdp_map_obj_disk.h"
#include "bin.h"
enum { NK = 40 };
#if KIND % 3 == 0
typedef int K; static K key(int i) { return (i * 37) % 101 - 50; }
typedef int V; static V val() { return (V)sym_int("v", 32); }
#elif KIND % 3 == 1
#if KIND == 1
typedef std::string K; static K key(int i) { K s; int l = 1 + (i * 7) % 67; for (int j = 0; j < l; j++) s += (char)('a' + (i + j) % 26); s += (char)('A' + i % 26); s += (char)('0' + i / 26); return s; }
#else
typedef multi1d<int> K; static K key(int i) { K s(1 + (i * 7) % 21); for (int j = 0; j < s.size(); j++) s[j] = i + j * j; return s; }
#endif
typedef multi1d<int> V; static V val() { V v(KIND == 1 ? 150 : 33); for (int j = 0; j < v.size(); j++) v[j] = j % 16 ? j : (int)sym_int("v", 32); return v; }
#else
typedef multi1d<int> K; static K key(int i) { K s(1 + i % 5); for (int j = 0; j < s.size(); j++) s[j] = j == 0 ? i / 5 : 1 << (j * 7); return s; }
typedef double V; static V val() { return (V)(int)sym_int("v", 16); }
#endif
struct Model { bool live[NK]; V v[NK]; int n; Model() : n(0) { for (int i = 0; i < NK; i++) live[i] = false; } void put(int i, const V& x) { if (!live[i]) { live[i] = true; n++; } v[i] = x; } void del(int i) { if (live[i]) { live[i] = false; n--; } } };
template<class M> static void check(M& m, const Model& r) {
  sym_assert((int)m.size() == r.n, "size"); std::vector<K> ks; m.keys(ks); sym_assert((int)ks.size() == r.n, "enumeration lists every live key");
  for (int i = 0; i < NK; i++) { int hits = 0; K k = key(i); for (size_t j = 0; j < ks.size(); j++) hits += ks[j] == k; sym_assert(hits == (r.live[i] ? 1 : 0), "a live key is listed once"); V v = val(), w = v; int e = m.get(k, v); sym_assert((e == 0) == r.live[i], "presence"); sym_assert(m.exist(k) == r.live[i], "presence"); sym_assert(v == (r.live[i] ? r.v[i] : w), "the last value inserted for the key"); } }
void harness_main() {
  qh_start_param(1, 1, 1, 1); Model r;
#if KIND < 3
  MapObjectMemory<K, V> m; for (int i = 0; i < NK; i++) if (i % 8 != 7) { V v = val(); m.insert(key(i), v); r.put(i, v); }
  check(m, r); for (int i = 0; i < NK; i += 3) { V v = val(); m.insert(key(i), v); r.put(i, v); } for (int i = 1; i < NK; i += 5) { m.erase(key(i)); r.del(i); } check(m, r);
  for (int i = NK - 1; i >= 0; i -= 4) { V v = val(); m.insert(key(i), v); r.put(i, v); } check(m, r);
#else
  str file = scratch("many.db"), ud; for (int i = 0; i < 300; i++) ud += i % 40 == 39 ? '\n' : (char)('a' + i % 26); typedef MapObjectDisk<K, V> Db; const std::ios_base::openmode RW = std::ios_base::in | std::ios_base::out;
  Db* m = new Db; m->insertUserdata(ud); m->open(file, RW | std::ios_base::trunc);
  for (int i = 0; i < NK; i++) if (i % 8 != 7) { V v = val(); sym_assert(m->insert(key(i), v) == 0, "insert"); r.put(i, v); if (i % 9 == 4) { V w; sym_assert(m->get(key(i / 2), w) == (r.live[i / 2] ? 0 : m->get(key(i / 2), w)), "lookup between inserts"); } }
  check(*m, r); for (int i = 0; i < NK; i += 3) { V v = val(); m->insert(key(i), v); r.put(i, v); } check(*m, r); delete m; m = new Db; m->open(file, RW); check(*m, r);
  for (int i = NK - 1; i >= 0; i -= 4) { V v = val(); m->insert(key(i), v); r.put(i, v); } m->flush(); check(*m, r); m->close(); m->open(file, RW); for (int i = 2; i < NK; i += 7) { V v = val(); m->insert(key(i), v); r.put(i, v); } m->close();
  { Db o; o.open(file, std::ios_base::in); check(o, r); str u; sym_assert(o.getUserdata(u) == 0 && u == ud, "user data"); } sym_assert(MapObjDiskEnv::getMetaData(file) == ud, "user data"); delete m;
#endif
  sym_cover("end");
}

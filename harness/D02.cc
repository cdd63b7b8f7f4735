// MapObjectMemory: histories with arbitrary keys and values.
#include "mapref.h"
#include "fakexml.h"
#include "qdp_map_obj_memory.h"
#ifndef KIND
#define KIND 0
#endif
#if KIND == 0
typedef int K; static K key(const char* n) { return (K)sym_int(n, 32); }
typedef int V; static V val(const char* n) { return (V)sym_int(n, 32); }
#elif KIND == 1
typedef std::string K; static K key(const char* n) { int l = sym_choose("len", 0, 2); K s; for (int i = 0; i < l; i++) { int c = (int)sym_int(n, 8); sym_assume(c != 0); s += (char)c; } return s; }
typedef multi1d<int> V; static V val(const char* n) { V v(2); v[0] = (int)sym_int(n, 32); v[1] = (int)sym_int(n, 32); return v; }
#elif KIND == 2
typedef multi1d<int> K; static K key(const char* n) { int l = sym_choose("len", 1, 2); K s(l); for (int i = 0; i < l; i++) s[i] = (int)sym_int(n, 32); return s; }
typedef double V; static V val(const char* n) { return (V)(int)sym_int(n, 16); }
#endif
typedef MapObjectMemory<K, V> Db; typedef MapRef<K, V> Ref;
static void check(const Db& m, const Ref& r) {
  sym_assert((int)m.size() == r.n, "the size is the number of live keys"); std::vector<K> ks, k2(3); std::vector<V> vs; m.keys(k2); m.keysAndValues(ks, vs); sym_assert((int)ks.size() == r.n && (int)vs.size() == r.n && (int)k2.size() == r.n, "enumeration lists as many keys as there are");
  bool seen[8] = {false}; for (size_t i = 0; i < ks.size(); i++) { int p = r.find(ks[i]); sym_assert(p >= 0, "an enumerated key is live"); if (p < 0) return; sym_assert(!seen[p], "a key is enumerated once"); seen[p] = true; sym_assert(vs[i] == r.v[p], "enumerated value"); sym_assert(r.find(k2[i]) >= 0, "an enumerated key is live"); }
  int n = 0; for (Db::const_iterator it = m.begin(); it != m.end(); ++it, ++n) { int p = r.find(it->first); sym_assert(p >= 0 && (*it).second == r.v[p < 0 ? 0 : p], "iteration visits live keys with their values"); } sym_assert(n == r.n, "iteration visits every key once");
  for (int i = 0; i < r.n; i++) { V v; int e = m.get(r.k[i], v); sym_assert(e == 0, "a live key is found"); if (!e) sym_assert(v == r.v[i], "the last value inserted for the key"); sym_assert(m.exist(r.k[i]), "a live key exists"); sym_assert(m[r.k[i]] == r.v[i], "subscript of a live key"); }
  K a = key("absent"); if (r.find(a) < 0) { V v = val("w"), w = v; sym_assert(m.get(a, v) != 0 && v == w && !m.exist(a), "an absent key is reported absent"); sym_assert((int)m.size() == r.n, "looking up does not insert"); } }
void harness_main() {
  Db m; Ref r; int L = (int)sym_param("L", 3); m.insertUserdata("data"); MapObject<K, V>& b = m;
  for (int i = 0; i < 2; i++) { K k = key("k"); V v = val("v"); sym_assert(b.insert(k, v) == 0, "insert succeeds"); r.put(k, v); }
  int first = (int)sym_param("first", 0);
  for (int s = 0; s < L; s++) {
    int op = s == 0 ? first : sym_choose("op", 0, 5);
    if (op == 0) { K k = key("k"); V v = val("v"); sym_assert(b.insert(k, v) == 0, "insert succeeds"); r.put(k, v); }
    else if (op == 1) { K k = key("k"); m.erase(k); r.del(k); }
    else if (op == 2) { m.clear(); r.n = 0; b.flush(); }
    else if (op == 3) { K k = key("k"); int p = r.find(k); V v = val("v"); if (p < 0) { sym_allow_abort(1); m[k] = v; sym_fail("subscript of an absent key was not refused"); } m[k] = v; r.v[p] = v; }
    else if (op == 4) { std::vector<std::pair<K, V> > w; for (int i = 0; i < (int)sym_param("range", 1); i++) { K k = key("k"); V v = val("v"); w.push_back(std::make_pair(k, v)); r.put(w[i].first, w[i].second); } m.insert(w.begin(), w.end()); }
    else { Db c(m); Ref q = r; K k = key("k"); V v = val("v"); c.insert(std::make_pair(k, v)); if (r.n) c.erase(r.k[0]); c.clear(); check(m, r); }
    if (s == L - 1) check(m, r);
  }
  std::string u; sym_assert(m.getUserdata(u) == 0 && u == "data", "user data"); sym_cover("end");
}

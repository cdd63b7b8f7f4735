// Reference for the key-value stores: the list of live keys, oldest first, and their values.
#pragma once
#include "qh.h"
template<class K, class V> struct MapRef { K k[8]; V v[8]; int n = 0;
  int find(const K& x) const { for (int i = 0; i < n; i++) if (k[i] == x) return i; return -1; }
  void put(const K& x, const V& y) { int i = find(x); if (i < 0) { i = n++; k[i] = x; } v[i] = y; }
  void del(const K& x) { int i = find(x); if (i < 0) return; for (n--; i < n; i++) { k[i] = k[i + 1]; v[i] = v[i + 1]; } } };

// seed arithmetic modulo 2^47
#include "qh.h"
#include "seed.h"
void harness_main() {
  qh_start_param(2, 1, 1, 1); int kind = (int)sym_param("kind", 0); int N = Layout::sitesOnNode();
  if (kind == 0) { Seed a, b; symseed(a.elem(), "a"); symseed(b.elem(), "b"); Seed c = a * b; sym_assert(limbs(c.elem()), "limbs of a product are normalised"); sym_assert(value(c.elem()) == product(a.elem(), b.elem()), "product modulo 2^47");
    Seed d; d = a; d = d * b; sym_assert(sameseed(d, c), "product into an operand"); sym_observe("p", value(c.elem())); }
  else if (kind == 1) { LatticeSeed a, b; Seed k; symseeds(a, "a"); symseeds(b, "b"); symseed(k.elem(), "k"); LatticeSeed c = a * b, d = a * k;
    for (int s = 0; s < N; s++) { sym_assert(value(c.elem(s)) == product(a.elem(s), b.elem(s)) && limbs(c.elem(s)), "lattice product"); sym_assert(value(d.elem(s)) == product(a.elem(s), k.elem()), "lattice times scalar seed"); }
    LatticeSeed e; e = k; for (int s = 0; s < N; s++) sym_assert(value(e.elem(s)) == value(k.elem()), "broadcast"); }
  else if (kind == 2) { // a multiplier of the generator, against plain 64-bit multiplication
    static const uint64_t cs[] = {1, 2, 4096, 1ull << 24, 1ull << 36, 3, 1ull << 46}; 
    for (uint64_t m : cs) { Seed a, b; symseed(a.elem(), "a"); setseed(b.elem(), m); Seed c = a * b, d = b * a; uint64_t w = (value(a.elem()) * m) & MASK47; sym_assert(value(c.elem()) == w && value(d.elem()) == w, "product with a constant"); } }
  else if (kind == 3) { Seed a, b; symseed(a.elem(), "a"); symseed(b.elem(), "b"); Boolean e = a == b, n = a != b; bool same = value(a.elem()) == value(b.elem()); sym_assert(toBool(e) == same, "equality"); sym_assert(toBool(n) == !same, "inequality");
    LatticeSeed x, y; symseeds(x, "x"); symseeds(y, "y"); LatticeBoolean q = x == y, r = x != y, t = x == a; for (int s = 0; s < N; s++) { bool z = value(x.elem(s)) == value(y.elem(s)); sym_assert(word(q.elem(s), 0) == z, "lattice equality"); sym_assert(word(r.elem(s), 0) == !z, "lattice inequality"); sym_assert(word(t.elem(s), 0) == (value(x.elem(s)) == value(a.elem())), "equality with a scalar"); } }
  else if (kind == 4) { Seed a, b; symseed(a.elem(), "a"); symseed(b.elem(), "b"); int n = sym_choose("n", 0, 12); Seed c = a << n; sym_assert(limbs(c.elem()) && value(c.elem()) == ((value(a.elem()) << n) & MASK47), "left shift");
    Seed d = a | b; sym_assert(value(d.elem()) == (value(a.elem()) | value(b.elem())), "bitwise or"); int m = sym_range("m", 0, 0x7fffffff); Seed e = a | m; sym_assert(value(e.elem()) == (value(a.elem()) | (uint64_t)m), "or with an integer"); Seed f = Seed(a << 12) | (m & 4095); sym_assert(value(f.elem()) == ((value(a.elem()) * 4096 + (m & 4095)) & MASK47), "appending a limb");
    LatticeSeed x; symseeds(x, "x"); LatticeSeed y = x << n; for (int s = 0; s < N; s++) sym_assert(value(y.elem(s)) == ((value(x.elem(s)) << n) & MASK47), "lattice left shift"); }
  else if (kind == 5) { int m = sym_range("m", 0, 0x7fffffff); Seed a = m; sym_assert(limbs(a.elem()) && value(a.elem()) == (uint64_t)m, "constructed from an integer"); Seed b; b = m; sym_assert(sameseed(a, b), "assigned an integer"); Integer im = m; Seed c; c = im; sym_assert(sameseed(a, c), "assigned an Integer");
    LatticeSeed x; x = m; for (int s = 0; s < N; s++) sym_assert(value(x.elem(s)) == (uint64_t)m, "lattice assigned an integer"); LatticeInteger li; symfill(li, "li"); for (int s = 0; s < N; s++) sym_assume(word(li.elem(s), 0) >= 0); x = li; for (int s = 0; s < N; s++) sym_assert(value(x.elem(s)) == (uint64_t)word(li.elem(s), 0), "lattice assigned a lattice of integers");
    zero_rep(x); for (int s = 0; s < N; s++) sym_assert(value(x.elem(s)) == 0, "zero"); LatticeSeed y; symseeds(y, "y"); LatticeBoolean bb; symfill(bb, "bb"); copymask(x, bb, y); for (int s = 0; s < N; s++) sym_assert(value(x.elem(s)) == (word(bb.elem(s), 0) ? value(y.elem(s)) : 0), "masked copy");
    Seed k = peekSite(y, lexcoord(0)); sym_assert(value(k.elem()) == value(y.elem(Layout::linearSiteIndex(lexcoord(0)))), "single site"); Seed z = a; sym_assert(sameseed(a, z), "copy"); z = k; sym_assert(sameseed(k, z), "assignment"); }
  else { Seed a, b, c; symseed(a.elem(), "a"); RNG::setrn(a); RNG::savern(b); sym_assert(sameseed(a, b), "the saved seed is the one that was set"); RNG::savern(c); sym_assert(sameseed(a, c), "saving leaves it alone"); symseed(b.elem(), "b"); RNG::setrn(b); RNG::savern(c); sym_assert(sameseed(b, c), "setting again"); sym_assert(!sameseed(a, b) || sameseed(a, c), "");
    RNG::initRNG(); RNG::savern(c); sym_assert(sameseed(b, c), "initialising the tables keeps the seed"); sym_assert(value(RNG::ran_mult.elem()) == MULT, "the multiplier"); RNG::initDefaultRNG(); RNG::savern(c); sym_assert(value(c.elem()) == 11, "the default seed"); }
  sym_cover("end");
}

// uniform deviates
#include "qh.h"
#include "seed.h"
template<class T> static void one(T& x, const char* m) {
  Seed S, e; symseed(S.elem(), "S"); RNG::setrn(S); random(x); RNG::savern(e); Seed n = S * RNG::ran_mult; sym_assert(sameseed(e, n), "one draw is one multiplication"); double v = word(x.elem(), 0);
  uint64_t b = value(n.elem()); double fr = (double)b * (1.0 / 140737488355328.0); sym_assert(v >= 0 && v <= 1, m); double d = v - fr; sym_assert(d <= 1.0 / 16777216 && d >= -1.0 / 16777216, "the seed's fraction to single precision"); sym_assert(v < 1 || b >= MASK47 - (1ull << 23), "below one unless the fraction rounds to one"); }
void harness_main() {
  qh_start_param(2, 1, 1, 1); int kind = (int)sym_param("kind", 0);
  if (kind < 2) { // through the seed-to-number conversion, which sees every seed
    Seed S, k; symseed(S.elem(), "S"); setseed(k.elem(), 1); double fr = (double)value(S.elem()) * (1.0 / 140737488355328.0); double v; uint64_t b = value(S.elem());
    if (kind == 0) { Seed a = S, c = S; v = RNG::sranf(a, c, k); sym_assert(sameseed(a, S) && sameseed(c, S), "multiplier one keeps the seeds"); } else { Real r = seedToFloat(S); v = word(r.elem(), 0); }
    sym_observef("v", v); sym_assert(v >= 0, "not negative"); sym_assert(v <= 1, "not above one"); double d = v - fr; sym_assert(d <= 1.0 / 16777216, "close to the fraction"); sym_assert(d >= -1.0 / 16777216, "close to the fraction from below"); sym_assert(v < 1 || b >= MASK47 - (1ull << 23), "below one unless the fraction rounds to one"); sym_assert(v > 0 || b == 0, "positive unless the seed is zero"); }
  else if (kind == 2) { Seed a, c, k; symseed(a.elem(), "a"); symseed(c.elem(), "c"); symseed(k.elem(), "k"); Seed p = a * k, q = c * k; float w = frac(c); float v = RNG::sranf(a, c, k); sym_assert(sameseed(a, p), "one multiplication of the seed"); sym_assert(sameseed(c, q), "one multiplication of the skewed seed"); sym_assert(samew(v, w), "the deviate is the skewed seed's fraction"); }
  else { Seed S, e; symseed(S.elem(), "S"); Seed n = S * RNG::ran_mult; float w = frac(n); RNG::setrn(S); Real x; random(x); RNG::savern(e); sym_assert(sameseed(e, n), "one draw is one multiplication"); sym_assert(samew(word(x.elem(), 0), (decltype(0 + word(x.elem(), 0)))w), "the deviate is the new seed's fraction"); RNG::setrn(S); RealD y; random(y); RNG::savern(e); sym_assert(sameseed(e, n), "one draw is one multiplication"); sym_assert(samew(word(y.elem(), 0), (double)w), "the deviate is the new seed's fraction"); }
  sym_cover("end");
}

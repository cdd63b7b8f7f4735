// assignments touch exactly the sites of the target subset
#include "qf.h"
static TableFunc f; static Set st; static int vol; static bool in[64];
template<class F> static void untouched(const F& d, const F& d0) { for (int s = 0; s < vol; s++) if (!in[s]) samesite(d.elem(s), d0.elem(s), "a site outside the subset keeps its bits"); }
#define W(x, s) word(x.elem(s), 0)
// OP: a C++ compound operator; RHS: an expression over fields; E: the same over words at site s
#define CASE(D, D0, SUB, OP, RHS, EXPR) { D = D0; D[SUB] OP RHS; untouched(D, D0); for (int s = 0; s < vol; s++) if (in[s]) { auto x = W(D0, s); x OP EXPR; eqw(W(D, s), x, "a site of the subset gets the value: " #OP " " #RHS); } }
#define CASES(D, D0, SUB, OP, A, B, SC, LIT) CASE(D, D0, SUB, OP, A, W(A, s)) CASE(D, D0, SUB, OP, SC, word(SC.elem(), 0)) CASE(D, D0, SUB, OP, LIT, LIT)
void harness_main() {
  qh_start_param(2, 1, 1, 2); vol = Layout::vol(); int kind = (int)sym_param("kind", 0);
  symtable(f, 2, "col"); int c = (int)sym_param("colour", 1); st.make(f); const Subset& sub = st[c]; for (int s = 0; s < vol; s++) in[s] = in_table(f, s, c);
  if (kind == 0) { // reals
    LatticeReal a, b, d, d0; symfill(a, "a"); symfill(b, "b"); symfill(d0, "d"); Real r; symfill(r, "r");
    CASES(d, d0, sub, =, a, b, r, 2.5f) CASES(d, d0, sub, +=, a, b, r, 2.5f) CASES(d, d0, sub, -=, a, b, r, 2.5f) CASES(d, d0, sub, *=, a, b, r, 2.5f)
    CASE(d, d0, sub, /=, a, W(a, s)) CASE(d, d0, sub, =, a * b + r, W(a, s) * W(b, s) + word(r.elem(), 0)) CASE(d, d0, sub, +=, a - r * b, W(a, s) - word(r.elem(), 0) * W(b, s)) CASE(d, d0, sub, -=, a * b, W(a, s) * W(b, s)) CASE(d, d0, sub, *=, a + b, W(a, s) + W(b, s)) CASE(d, d0, sub, =, -a, -W(a, s)) CASE(d, d0, sub, =, r + r, word(r.elem(), 0) + word(r.elem(), 0))
    CASE(d, d0, sub, +=, d, W(d0, s)) CASE(d, d0, sub, =, d + a * d, W(d0, s) + W(a, s) * W(d0, s))
    { d = d0; d[sub] = zero; untouched(d, d0); for (int s = 0; s < vol; s++) if (in[s]) eqw(W(d, s), 0.f, "zeroed"); d = d0; zero_rep(d, sub); untouched(d, d0); for (int s = 0; s < vol; s++) if (in[s]) eqw(W(d, s), 0.f, "zero_rep on a subset"); }
    { LatticeReal e = d0; e = a; samefield(e, a, "whole assignment"); e = zero; for (int s = 0; s < vol; s++) eqw(W(e, s), 0.f, "zero"); e = d0; zero_rep(e); for (int s = 0; s < vol; s++) eqw(W(e, s), 0.f, "zero_rep"); e = 1.5; for (int s = 0; s < vol; s++) eqw(W(e, s), 1.5f, "literal"); e = r; for (int s = 0; s < vol; s++) eqw(W(e, s), word(r.elem(), 0), "scalar");
      for (int s = 0; s < vol; s++) in[s] = true; 
#define WHOLE(OP, RHS, EXPR) { LatticeReal g = d0; g OP RHS; for (int s = 0; s < vol; s++) { auto x = W(d0, s); x OP EXPR; eqw(W(g, s), x, "whole lattice " #OP " " #RHS); } }
      WHOLE(+=, a, W(a, s)) WHOLE(-=, a, W(a, s)) WHOLE(*=, a, W(a, s)) WHOLE(/=, a, W(a, s)) WHOLE(+=, r, word(r.elem(), 0)) WHOLE(-=, r, word(r.elem(), 0)) WHOLE(*=, r, word(r.elem(), 0)) WHOLE(=, a - b, W(a, s) - W(b, s)) WHOLE(+=, a * b, W(a, s) * W(b, s)) WHOLE(-=, 3.0f, 3.0f) WHOLE(*=, 3.0f, 3.0f) WHOLE(+=, 3.0f, 3.0f) }
  } else if (kind == 1) { // integers: every compound operator
    LatticeInteger a, b, d, d0; symfill(a, "a"); symfill(b, "b"); symfill(d0, "d"); Integer r; symfill(r, "r");
    for (int s = 0; s < vol; s++) { sym_assume(W(a, s) > 0); sym_assume(W(a, s) < 20); sym_assume(W(b, s) > 0); sym_assume(W(b, s) < 1000); sym_assume(W(d0, s) >= 0); sym_assume(W(d0, s) < 1000); } sym_assume(word(r.elem(), 0) > 0); sym_assume(word(r.elem(), 0) < 16);
    CASES(d, d0, sub, =, a, b, r, 3) CASES(d, d0, sub, +=, a, b, r, 3) CASES(d, d0, sub, -=, a, b, r, 3) CASES(d, d0, sub, *=, a, b, r, 3) CASES(d, d0, sub, |=, a, b, r, 3) CASES(d, d0, sub, &=, a, b, r, 3) CASES(d, d0, sub, ^=, a, b, r, 3) CASES(d, d0, sub, <<=, a, b, r, 3) CASES(d, d0, sub, >>=, a, b, r, 3)
    CASE(d, d0, sub, /=, 7, 7) CASE(d, d0, sub, %=, 7, 7) CASE(d, d0, sub, /=, r, word(r.elem(), 0)) CASE(d, d0, sub, %=, r, word(r.elem(), 0))
    CASE(d, d0, sub, =, a + b, W(a, s) + W(b, s)) CASE(d, d0, sub, +=, a * b, W(a, s) * W(b, s)) CASE(d, d0, sub, -=, a & b, (W(a, s) & W(b, s))) CASE(d, d0, sub, |=, a ^ b, (W(a, s) ^ W(b, s))) CASE(d, d0, sub, ^=, a | b, (W(a, s) | W(b, s))) CASE(d, d0, sub, &=, a - b, W(a, s) - W(b, s))
#define WHOLEI(OP, RHS, EXPR) { LatticeInteger g = d0; g OP RHS; for (int s = 0; s < vol; s++) { auto x = W(d0, s); x OP EXPR; eqw(W(g, s), x, "whole lattice integers " #OP " " #RHS); } }
    WHOLEI(|=, a, W(a, s)) WHOLEI(&=, a, W(a, s)) WHOLEI(^=, a, W(a, s)) WHOLEI(<<=, r, word(r.elem(), 0)) WHOLEI(>>=, a, W(a, s)) WHOLEI(%=, 7, 7) WHOLEI(+=, a, W(a, s)) WHOLEI(-=, 5, 5) WHOLEI(*=, r, word(r.elem(), 0))
  } else if (kind == 2) { // masks
    LatticeReal a, d, d0; LatticeBoolean m; symfill(a, "a"); symfill(d0, "d"); symfill(m, "m"); LatticeInteger p, q; symfill(p, "p"); symfill(q, "q");
    d = d0; copymask(d, m, a); for (int s = 0; s < vol; s++) sym_assert(bits32(W(d, s)) == (W(m, s) ? bits32(W(a, s)) : bits32(W(d0, s))), "copy under a mask");
    d = d0; copymask(d[sub], m, a); untouched(d, d0); for (int s = 0; s < vol; s++) if (in[s]) sym_assert(bits32(W(d, s)) == (W(m, s) ? bits32(W(a, s)) : bits32(W(d0, s))), "copy under a mask on a subset");
    d = d0; d[sub] = where(m, a, d0); untouched(d, d0); for (int s = 0; s < vol; s++) if (in[s]) sym_assert(bits32(W(d, s)) == (W(m, s) ? bits32(W(a, s)) : bits32(W(d0, s))), "selection assigned on a subset");
    LatticeBoolean t, t0; symfill(t0, "t"); t = t0; t[sub] = p < q; untouched(t, t0); for (int s = 0; s < vol; s++) if (in[s]) eqw(W(t, s), W(p, s) < W(q, s), "comparison assigned on a subset");
    t = t0; t[sub] |= m; untouched(t, t0); for (int s = 0; s < vol; s++) if (in[s]) eqw(W(t, s), (bool)(W(t0, s) | W(m, s)), "boolean or on a subset");
    t = t0; t[sub] &= m; untouched(t, t0); for (int s = 0; s < vol; s++) if (in[s]) eqw(W(t, s), (bool)(W(t0, s) & W(m, s)), "boolean and on a subset");
  } else if (kind == 3) { // composite site objects
    LatticeColorMatrix u, v, d, d0; symfill(u, "u"); symfill(v, "v"); symfill(d0, "d"); LatticeComplex z; symfill(z, "z"); ColorMatrix k; symfill(k, "k"); Complex w; symfill(w, "w");
#define CM(OP, RHS, SITE) { d = d0; d[sub] OP RHS; untouched(d, d0); for (int s = 0; s < vol; s++) if (in[s]) { ColorMatrix x; x.elem() = d0.elem(s); ColorMatrix us, vs; us.elem() = u.elem(s); vs.elem() = v.elem(s); Complex zs; zs.elem() = z.elem(s); ColorMatrix ds; ds.elem() = d0.elem(s); x OP SITE; eqsite(d.elem(s), x.elem(), "matrix site " #OP " " #RHS); } }
    CM(=, u, us) CM(+=, u, us) CM(-=, u + v, us + vs) CM(=, z * u, zs * us) CM(+=, w * u, w * us) CM(=, k, k) CM(-=, k, k) CM(*=, z, zs) CM(=, transpose(u), transpose(us)) CM(=, adj(d) + u, adj(ds) + us) CM(=, 1, 1)
    { d = d0; d[sub] = zero; untouched(d, d0); for (int s = 0; s < vol; s++) if (in[s]) for (int i = 0; i < 18; i++) eqw(word(d.elem(s), i), 0.f, "zeroed matrices"); }
  } else { // subset-sized fields
    LatticeReal a, b, d, d0; symfill(a, "a"); symfill(b, "b"); symfill(d0, "d"); int n = sub.numSiteTable(); const int* tab = sub.siteTable().slice();
    typedef OSubLattice<PScalar<PScalar<RScalar<REAL> > > > SL;
    { SL v(sub, a); for (int j = 0; j < n; j++) samesite(v.getF()[j], a.elem(tab[j]), "gathered field"); SL w(v); v = b; for (int j = 0; j < n; j++) { samesite(v.getF()[j], b.elem(tab[j]), "assigned from a field"); samesite(w.getF()[j], a.elem(tab[j]), "copy is independent"); } w = v; for (int j = 0; j < n; j++) samesite(w.getF()[j], b.elem(tab[j]), "assigned from a subset field"); v = a + b; for (int j = 0; j < n; j++) eqw(word(v.getF()[j], 0), W(a, tab[j]) + W(b, tab[j]), "assigned from an expression"); v = zero; for (int j = 0; j < n; j++) eqw(word(v.getF()[j], 0), 0.f, "zeroed"); Real x = sum(w); float y = 0; for (int j = 0; j < n; j++) y += W(b, tab[j]); eqw(word(x.elem(), 0), y, "sum of a subset field"); SL u; u.setSubset(sub); u = a; u += b; for (int j = 0; j < n; j++) eqw(word(u.getF()[j], 0), W(a, tab[j]) + W(b, tab[j]), "accumulated"); }
  }
  sym_cover("end");
}

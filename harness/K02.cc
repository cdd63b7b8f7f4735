// products of colour matrices with matrices, vectors and spinors, and accumulations, on fields over subsets, with aliasing; KIND selects the group
#include "gam.h"
#ifndef CMAT
#define CMAT LatticeColorMatrix
#define CVEC LatticeColorVector
#define FERM LatticeFermion
#define HALF LatticeHalfFermion
#define PROP LatticePropagator
#define SMAT ColorMatrix
#define REALT Real
#define COMPLEXT Complex
#endif
#ifndef KIND
#define KIND 0
#endif
typedef REALT R_; typedef COMPLEXT C_; typedef WordType<R_>::Type_t F; typedef Ten<F> TT;
static TableFunc f; static Set st; static R_ a; static C_ c; static F ar, cr, ci;
static TT rs(const TT& x) { return scal(x, ar, F(0)); }
static TT cs(const TT& x) { return scal(x, cr, ci); }
// three fields of the same type; every aliasing of destination and operands: 0 none, 1 d is x, 2 d is y, 3 x is y, 4 all the same
template<class T, class OP, class FORM> static void form3(OLattice<T>& X0, OLattice<T>& Y0, OLattice<T>& D0, OP op, FORM fm, const char* m) {
  const Subset& sub = st[0]; int N = Layout::sitesOnNode();
  for (int al = 0; al < 5; al++) {
    OLattice<T> x(X0), y(Y0), d(D0); OLattice<T> *px = &x, *py = &y, *pd = &d; if (al == 1) pd = px; if (al == 2) pd = py; if (al >= 3) py = px; if (al == 4) pd = px;
    OLattice<T> xi(*px), yi(*py), di(*pd);
    op(*pd, *px, *py, sub);
    for (int s = 0; s < N; s++) {
      if (!in_table(f, s, 0)) samesite(pd->elem(s), di.elem(s), m);
      else teq(ldsite<F>(pd->elem(s)), fm(ldsite<F>(di.elem(s)), ldsite<F>(xi.elem(s)), ldsite<F>(yi.elem(s))), m);
      if (px != pd) samesite(px->elem(s), xi.elem(s), m); if (py != pd) samesite(py->elem(s), yi.elem(s), m); } } }
#define M3(OP, EXPR, FORM) form3(X, Y, D, [&](CMAT& d, const CMAT& x, const CMAT& y, const Subset& sub) { d[sub] OP EXPR; }, [&](const TT& D, const TT& X, const TT& Y) -> TT { return FORM; }, "matrix d[subset] " #OP " " #EXPR);
// a matrix field times a field of another type, the destination possibly the second operand: 0 none, 1 d is v
template<class T, class OP, class FORM> static void formv(CMAT& U, OLattice<T>& V0, OLattice<T>& D0, OP op, FORM fm, const char* m) {
  const Subset& sub = st[0]; int N = Layout::sitesOnNode(); CMAT u(U);
  for (int al = 0; al < 2; al++) {
    OLattice<T> v(V0), d(D0); OLattice<T>* pd = al ? &v : &d; OLattice<T> di(*pd); op(*pd, u, v, sub);
    for (int s = 0; s < N; s++) { if (!in_table(f, s, 0)) samesite(pd->elem(s), di.elem(s), m); else teq(ldsite<F>(pd->elem(s)), fm(ldsite<F>(di.elem(s)), ldsite<F>(U.elem(s)), ldsite<F>(V0.elem(s))), m);
      samesite(u.elem(s), U.elem(s), m); if (!al) samesite(v.elem(s), V0.elem(s), m); } } }
#define MV(OP, EXPR, FORM) formv(U, V, D, [&](VT& d, const CMAT& u, const VT& v, const Subset& sub) { d[sub] OP EXPR; }, [&](const TT& D, const TT& U, const TT& V) -> TT { return FORM; }, "d[subset] " #OP " " #EXPR);
template<class VT> static void vectors() {
  CMAT U; VT V, D; symfill(U, "u"); symfill(V, "v"); symfill(D, "d");
  MV(=, u * v, U * V) MV(=, adj(u) * v, dag(U) * V) MV(+=, u * v, D + U * V) MV(-=, u * v, D - U * V) MV(+=, adj(u) * v, D + dag(U) * V) MV(-=, adj(u) * v, D - dag(U) * V)
  MV(=, u * (u * v), U * (U * V)) MV(=, transpose(u) * v, tr_(U) * V) MV(=, a * (u * v), rs(U * V)) MV(=, v + u * v, V + U * V) MV(=, u * v - v, U * V - V) }
void harness_main() {
  qh_start_param(3, 1, 1, 1); some_table(f); st.make(f); if (st[0].hasOrderedRep()) sym_cover("ordered"); else sym_cover("scattered");
  symfill(a, "a"); symfill(c, "c"); ar = word(a, 0); cr = word(c, 0); ci = word(c, 1);
  CMAT X, Y, D; symfill(X, "x"); symfill(Y, "y"); symfill(D, "d");
#if KIND == 0
  M3(=, x * y, X * Y) M3(=, adj(x) * y, dag(X) * Y) M3(=, x * adj(y), X * dag(Y)) M3(=, adj(x) * adj(y), dag(X) * dag(Y))
#elif KIND == 1
  M3(+=, x * y, D + X * Y) M3(+=, adj(x) * y, D + dag(X) * Y) M3(+=, x * adj(y), D + X * dag(Y)) M3(+=, adj(x) * adj(y), D + dag(X) * dag(Y))
#elif KIND == 2
  M3(-=, x * y, D - X * Y) M3(-=, adj(x) * y, D - dag(X) * Y) M3(-=, x * adj(y), D - X * dag(Y)) M3(-=, adj(x) * adj(y), D - dag(X) * dag(Y))
#elif KIND == 3
  M3(+=, x, D + X) M3(-=, x, D - X) M3(+=, adj(x), D + dag(X)) M3(-=, adj(x), D - dag(X)) M3(=, x, X) M3(=, adj(x), dag(X)) M3(=, x + y, X + Y) M3(=, x - y, X - Y) M3(=, a * x, rs(X)) M3(=, x * a, rs(X)) M3(*=, a, rs(D)) M3(=, c * x, cs(X)) M3(=, x * c, cs(X))
  M3(=, a * x + y, rs(X) + Y) M3(+=, a * x, D + rs(X)) M3(-=, a * x, D - rs(X)) M3(=, transpose(x), tr_(X)) M3(=, conj(x), cj(X))
#elif KIND == 4
  M3(+=, a * (x * y), D + rs(X * Y)) M3(-=, a * (x * y), D - rs(X * Y)) M3(=, a * (x * y), rs(X * Y)) M3(+=, a * (adj(x) * y), D + rs(dag(X) * Y)) M3(+=, a * (x * adj(y)), D + rs(X * dag(Y))) M3(+=, a * (adj(x) * adj(y)), D + rs(dag(X) * dag(Y)))
  M3(=, x * y * adj(x), X * Y * dag(X)) M3(=, x * y - y * x, X * Y - Y * X) M3(=, adj(x * y), dag(X * Y)) M3(=, x + y * x, X + Y * X)
#elif KIND == 5
  vectors<CVEC>();
#elif KIND == 6
  vectors<FERM>();
#elif KIND == 7
  vectors<HALF>();
#elif KIND == 8
  { typedef PROP VT; CMAT U; VT V, D; symfill(U, "u"); symfill(V, "v"); symfill(D, "d"); MV(=, u * v, U * V) MV(=, adj(u) * v, dag(U) * V) MV(=, v * u, V * U) MV(=, v * adj(u), V * dag(U)) }
#elif KIND == 9
  // site-level products, with no field around them
  SMAT x, y, d; symfill(x, "x"); symfill(y, "y"); TT XX = ld<F>(x), YY = ld<F>(y);
  d = x * y; teq(ld<F>(d), XX * YY, "x * y"); d = adj(x) * y; teq(ld<F>(d), dag(XX) * YY, "adj(x) * y"); d = x * adj(y); teq(ld<F>(d), XX * dag(YY), "x * adj(y)"); d = adj(x) * adj(y); teq(ld<F>(d), dag(XX) * dag(YY), "adj(x) * adj(y)");
  d = x; d = d * y; teq(ld<F>(d), XX * YY, "d = d * y"); d = x; d = y * d; teq(ld<F>(d), YY * XX, "d = y * d"); d = x; d = adj(d) * d; teq(ld<F>(d), dag(XX) * XX, "d = adj(d) * d"); d = x; d += y * x; teq(ld<F>(d), XX + YY * XX, "d += y * x"); d = x; d -= y * d; teq(ld<F>(d), XX - YY * XX, "d -= y * d");
  { TT t = trace_(XX * YY); C_ z = trace(x * y); sym_feq(word(z, 0), t.v[0].r, "trace(x * y)"); sym_feq(word(z, 1), t.v[0].i, "trace(x * y)"); t = trace_(dag(XX) * YY); z = trace(adj(x) * y); sym_feq(word(z, 0), t.v[0].r, "trace(adj(x) * y)"); sym_feq(word(z, 1), t.v[0].i, "trace(adj(x) * y)");
    R_ r = realTrace(x * y); t = trace_(XX * YY); sym_feq(word(r, 0), t.v[0].r, "realTrace(x * y)"); }
  sym_cover("ordered"); sym_cover("scattered");
#endif
  sym_cover("end"); }

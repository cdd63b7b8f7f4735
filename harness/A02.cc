// colour and spin algebra of site objects against index formulas
#include "tens.h"
#ifdef A02_F
typedef A02_F F;
#else
typedef WordType<Real>::Type_t F;
#endif
typedef Ten<F> TT;
#define T_(x) ld<F>(x)
#define EQ(R, EXPR, FORM) { R t_; t_ = EXPR; teq(T_(t_), FORM, #EXPR); }
#define UPD(X, OP, RHS, FORM) { auto t_ = X; t_ OP RHS; teq(T_(t_), FORM, #X " " #OP " " #RHS); }
// linear operations of any type
template<class T, bool M> static void linear() {
  T A, B; Complex z; Real r; symfill(A, "A"); symfill(B, "B"); symfill(z, "z"); symfill(r, "r"); TT a = T_(A), b = T_(B), c = T_(z), s = T_(r); sym_assume(s.v[0].r != 0); sym_assume(c.v[0].r * c.v[0].r + c.v[0].i * c.v[0].i > 0);
  EQ(T, +A, a) EQ(T, -A, scal(a, F(-1), F(0))) EQ(T, A + B, a + b) EQ(T, A - B, a - b) EQ(T, z * A, c * a) EQ(T, A * z, a * c) EQ(T, r * A, s * a) EQ(T, A * r, a * s) EQ(T, adj(z) * A, cj(c) * a) EQ(T, A * adj(z), cj(c) * a) EQ(T, 2 * A, a + a) EQ(T, A * 3, a + a + a) EQ(T, conj(A), cj(a)) EQ(T, timesI(A), scal(a, F(0), F(1))) EQ(T, timesMinusI(A), scal(a, F(0), F(-1)))
  EQ(T, z * A + r * B, c * a + s * b) EQ(T, z * (A - B), c * (a - b)) EQ(T, -A + B * z, b * c - a)
  UPD(A, =, B, b) UPD(A, +=, B, a + b) UPD(A, -=, B, a - b) UPD(A, *=, z, c * a) UPD(A, *=, r, s * a) UPD(A, +=, z * B, a + c * b) UPD(A, -=, r * B, a - s * b) UPD(A, =, zero, a - a) UPD(A, +=, A, a + a) UPD(A, -=, A, a - a) UPD(A, *=, 3, a + a + a)
  { T t; zero_rep(t); teq(T_(t), a - a, "zero_rep"); T u(A); teq(T_(u), a, "copy construction"); }
  { T t; t = A / r; teq(s * T_(t), a, "A / real"); t = A; t /= r; teq(s * T_(t), a, "A /= real"); t = A / z; teq(c * T_(t), a, "A / complex"); t = A; t /= z; teq(c * T_(t), a, "A /= complex"); t = A / 4; teq(T_(t) + T_(t) + T_(t) + T_(t), a, "A / 4"); }
  EQ(Complex, localInnerProduct(A, B), ip_(a, b)) EQ(Real, localInnerProductReal(A, B), re_(ip_(a, b))) EQ(Real, localNorm2(A), re_(ip_(a, a)))
  { ComplexD t; t = innerProduct(A, B); teq(T_(t), ip_(a, b), "innerProduct"); RealD q; q = norm2(A); teq(T_(q), re_(ip_(a, a)), "norm2"); q = innerProductReal(A, B); teq(T_(q), re_(ip_(a, b)), "innerProductReal"); t = innerProduct(A + B, A - B); teq(T_(t), ip_(a + b, a - b), "innerProduct of expressions"); }
  { auto x = real(A); typedef typename UnaryReturn<T, FnReal>::Type_t RT; RT t, u; t = real(A); u = imag(A); teq(T_(t), re_(a), "real"); teq(T_(u), im_(a), "imag"); (void)x; if constexpr (!M) { T w; w = cmplx(t, u); teq(T_(w), a, "cmplx"); w = cmplx(u, t); teq(T_(w), scal(cj(a), F(0), F(1)), "cmplx swapped"); } }
}
template<class T> static void matrix() { // square matrices in the spaces they have
  T A, B; symfill(A, "A"); symfill(B, "B"); Complex z; symfill(z, "z"); TT a = T_(A), b = T_(B), c = T_(z), one = unit(a);
  EQ(T, A * B, a * b) EQ(T, adj(A) * B, dag(a) * b) EQ(T, A * adj(B), a * dag(b)) EQ(T, adj(A) * adj(B), dag(a) * dag(b)) EQ(T, adj(A), dag(a)) EQ(T, transpose(A), tr_(a)) EQ(T, transpose(A) * B, tr_(a) * b) EQ(T, A * transpose(B), a * tr_(b)) EQ(T, conj(A) * B, cj(a) * b) EQ(T, adj(A * B), dag(a * b)) EQ(T, adj(adj(A)), a)
  EQ(Complex, trace(A), trace_(a)) EQ(Real, realTrace(A), re_(trace_(a))) EQ(Real, imagTrace(A), im_(trace_(a))) EQ(Complex, trace(A * B), trace_(a * b)) EQ(Complex, trace(adj(A) * B), trace_(dag(a) * b)) EQ(Complex, trace(A * adj(B)), trace_(a * dag(b))) EQ(Complex, trace(adj(A) * adj(B)), trace_(dag(a) * dag(b))) EQ(Real, real(trace(adj(A) * B)), re_(trace_(dag(a) * b))) EQ(Real, realTrace(A * B), re_(trace_(a * b))) EQ(Real, imagTrace(A * B), im_(trace_(a * b)))
  { Complex t; t.elem() = traceMultiply(A.elem(), B.elem()); teq(T_(t), trace_(a * b), "traceMultiply"); }
  UPD(A, =, z, c * one) UPD(A, +=, z, a + c * one) UPD(A, -=, z, a - c * one) UPD(A, =, 1, one) UPD(A, =, B * A, b * a) UPD(A, =, adj(A), dag(a)) UPD(A, +=, A * B, a + a * b) UPD(A, -=, adj(B) * A, a - dag(b) * a) UPD(A, +=, B * adj(A), a + b * dag(a)) UPD(A, =, transpose(A), tr_(a))
  EQ(T, A + z, a + c * one) EQ(T, z + A, a + c * one) EQ(T, A - z, a - c * one) EQ(T, z - A, c * one - a) EQ(T, A + 1, a + one) EQ(T, A - 1, a - one) EQ(T, 1 - A, one - a)
  EQ(T, timesI(A - adj(A)), scal(a - dag(a), F(0), F(1)))
}
template<class M, class V> static void matvec(bool acc) { // matrix M acting on object V
  M A; V B; symfill(A, "A"); symfill(B, "B"); TT a = T_(A), b = T_(B);
  EQ(V, A * B, a * b) EQ(V, adj(A) * B, dag(a) * b) EQ(V, transpose(A) * B, tr_(a) * b) EQ(V, conj(A) * B, cj(a) * b) EQ(V, -(A * B), scal(a * b, F(-1), F(0)))
  if (acc) { UPD(B, =, A * B, a * b) UPD(B, +=, A * B, b + a * b) UPD(B, -=, adj(A) * B, b - dag(a) * b) }
}
template<class M, class V> static void vecmat() { // object V times M from the right
  M A; V B; symfill(A, "A"); symfill(B, "B"); TT a = T_(A), b = T_(B); EQ(V, B * A, b * a) EQ(V, B * adj(A), b * dag(a)) EQ(V, adj(B) * A, dag(b) * a) EQ(V, adj(B) * adj(A), dag(b) * dag(a)) EQ(V, adj(A) * adj(B), dag(a) * dag(b)) EQ(V, A * adj(B), a * dag(b))
}
template<class M, class V> static void addmat() { M A; V B; symfill(A, "A"); symfill(B, "B"); TT a = T_(A), b = T_(B), one = unit(b); EQ(V, A + B, a * one + b) EQ(V, B - A, b - a * one) EQ(V, A - B, a * one - b) UPD(B, +=, A, b + a * one) UPD(B, -=, A, b - a * one) }
void harness_main() {
  qh_start_param(2, 1, 1, 1); int kind = (int)sym_param("kind", 0);
  switch (kind) {
  case 0: linear<ColorMatrix, true>(); linear<ColorVector, false>(); break;
  case 1: linear<SpinVector, false>(); linear<SpinMatrix, true>(); linear<HalfFermion, false>(); break;
  case 2: linear<Fermion, false>(); linear<StaggeredFermion, false>(); break;
  case 3: linear<Propagator, true>(); break;
  case 4: matrix<ColorMatrix>(); matrix<Complex>(); matrix<StaggeredPropagator>(); break;
  case 5: matrix<SpinMatrix>(); break;
  case 6: { Propagator A, B; symfill(A, "A"); symfill(B, "B"); TT a = T_(A), b = T_(B); switch ((int)sym_param("sub", 0)) { case 0: EQ(Propagator, A * B, a * b) break; case 1: EQ(Propagator, adj(A) * B, dag(a) * b) break; case 2: EQ(Propagator, A * adj(B), a * dag(b)) break; case 3: EQ(Propagator, adj(A) * adj(B), dag(a) * dag(b)) break;
    case 4: { EQ(Propagator, adj(A), dag(a)) EQ(Propagator, transpose(A), tr_(a)) EQ(Complex, trace(A), trace_(a)) EQ(Real, realTrace(A), re_(trace_(a))) EQ(Real, imagTrace(A), im_(trace_(a))) EQ(Complex, trace(A * B), trace_(a * b)) EQ(Complex, trace(adj(A) * B), trace_(dag(a) * b)) EQ(Complex, trace(A * adj(B)), trace_(a * dag(b))) Complex t; t.elem() = traceMultiply(A.elem(), B.elem()); teq(T_(t), trace_(a * b), "traceMultiply"); Complex z; symfill(z, "z"); UPD(A, =, z, T_(z) * unit(a)) UPD(A, +=, z, a + T_(z) * unit(a)) UPD(A, -=, 1, a - unit(a)) break; }
    } break; }
  case 7: matvec<ColorMatrix, ColorVector>(true); matvec<ColorMatrix, Fermion>(true); matvec<ColorMatrix, HalfFermion>(true); matvec<ColorMatrix, StaggeredFermion>(true); break;
  case 8: matvec<SpinMatrix, SpinVector>(true); matvec<SpinMatrix, Fermion>(true); break;
  case 9: matvec<ColorMatrix, Propagator>(false); vecmat<ColorMatrix, Propagator>(); addmat<ColorMatrix, Propagator>(); break;
  case 10: matvec<SpinMatrix, Propagator>(false); vecmat<SpinMatrix, Propagator>(); addmat<SpinMatrix, Propagator>(); break;
  case 11: { Propagator A; Fermion B; symfill(A, "A"); symfill(B, "B"); TT a = T_(A), b = T_(B); EQ(Fermion, A * B, a * b) EQ(Fermion, adj(A) * B, dag(a) * b) ColorMatrix U; SpinMatrix G; symfill(U, "U"); symfill(G, "G"); EQ(Propagator, U * G, T_(U) * T_(G)) EQ(Propagator, G * U, T_(U) * T_(G)) EQ(Propagator, adj(U) * G, dag(T_(U)) * T_(G)) EQ(Propagator, U * adj(G), T_(U) * dag(T_(G))) ColorVector V; SpinVector S; symfill(V, "V"); symfill(S, "S"); EQ(Fermion, V * S, T_(V) * T_(S)) EQ(Fermion, S * V, T_(V) * T_(S)) EQ(Fermion, G * V * S, T_(G) * T_(S) * T_(V)) break; }
  case 12: { // actions confined to one index space
    Propagator A, B; symfill(A, "A"); symfill(B, "B"); TT a = T_(A), b = T_(B); SpinMatrix S; ColorMatrix C; S = traceColor(A); teq(T_(S), trace_c(a), "traceColor"); C = traceSpin(A); teq(T_(C), trace_s(a), "traceSpin"); EQ(Propagator, transposeSpin(A), tr_s(a)) EQ(Propagator, transposeColor(A), tr_c(a)) EQ(Complex, traceSpin(traceColor(A)), trace_(a)) EQ(Complex, traceColor(traceSpin(A)), trace_(a)) EQ(SpinMatrix, traceColor(A * B), trace_c(a * b)) EQ(ColorMatrix, traceSpin(A * B), trace_s(a * b)) S.elem() = traceColorMultiply(A.elem(), B.elem()); teq(T_(S), trace_c(a * b), "traceColorMultiply"); C.elem() = traceSpinMultiply(A.elem(), B.elem()); teq(T_(C), trace_s(a * b), "traceSpinMultiply");
    SpinMatrix G; ColorMatrix U; symfill(G, "G"); symfill(U, "U"); EQ(Complex, traceSpin(G), trace_(T_(G))) EQ(Complex, traceColor(U), trace_(T_(U))) EQ(SpinMatrix, transposeSpin(G), tr_(T_(G))) C.elem() = traceSpinMultiply(A.elem(), G.elem()); teq(T_(C), trace_s(a * T_(G)), "traceSpinMultiply with a spin matrix"); break; }
  case 13: { // outer products and inner products in one space
    Fermion A, B; symfill(A, "A"); symfill(B, "B"); TT a = T_(A), b = T_(B); EQ(Propagator, outerProduct(A, B), a * dag(b)) EQ(ColorMatrix, traceSpin(outerProduct(A, B)), trace_s(a * dag(b))) { ColorMatrix t; t.elem() = traceSpinOuterProduct(A.elem(), B.elem()); teq(T_(t), trace_s(a * dag(b)), "traceSpinOuterProduct"); }
    ColorVector V, W; symfill(V, "V"); symfill(W, "W"); TT v = T_(V), w = T_(W); EQ(ColorMatrix, outerProduct(V, W), v * dag(w)) EQ(Complex, localColorInnerProduct(V, W), dag(v) * w) EQ(Complex, colorVectorContract(V, W), tr_(v) * w) { TT x(1, 1, 3, 1); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) if (int e = eps3(i, j, k)) { Cx_<F> p = v.at(0, 0, j, 0) * w.at(0, 0, k, 0); x.at(0, 0, i, 0) = e > 0 ? x.at(0, 0, i, 0) + p : x.at(0, 0, i, 0) - p; } EQ(ColorVector, colorCrossProduct(V, W), x) ColorVector X; symfill(X, "X"); TT q = T_(X), e(1, 1, 1, 1); for (int i = 0; i < 3; i++) e.v[0] = e.v[0] + x.at(0, 0, i, 0) * q.at(0, 0, i, 0); EQ(Complex, colorContract(V, W, X), e) }
    SpinVector S, U; symfill(S, "S"); symfill(U, "U"); EQ(SpinMatrix, outerProduct(S, U), T_(S) * dag(T_(U))) SpinMatrix G, H; symfill(G, "G"); symfill(H, "H"); EQ(SpinMatrix, localColorInnerProduct(G, H), dag(T_(G)) * T_(H)) break; }
  case 14: { ColorMatrix A, B, C; symfill(A, "A"); symfill(B, "B"); symfill(C, "C"); TT a = T_(A), b = T_(B), g = T_(C), e(1, 1, 1, 1);
    for (int i1 = 0; i1 < 3; i1++) for (int j1 = 0; j1 < 3; j1++) for (int k1 = 0; k1 < 3; k1++) if (int s1 = eps3(i1, j1, k1)) for (int i2 = 0; i2 < 3; i2++) for (int j2 = 0; j2 < 3; j2++) for (int k2 = 0; k2 < 3; k2++) if (int s2 = eps3(i2, j2, k2)) { Cx_<F> p = a.at(0, 0, i1, i2) * b.at(0, 0, j1, j2) * g.at(0, 0, k1, k2); e.v[0] = s1 * s2 > 0 ? e.v[0] + p : e.v[0] - p; }
    EQ(Complex, colorContract(A, B, C), e) break; }
  case 15: { // quark contractions: the colour contraction with two spin indices summed
    Propagator A, B; symfill(A, "A"); symfill(B, "B"); TT a = T_(A), b = T_(B); int which = (int)sym_param("sub", 0);
    auto col = [&](int s1, int s1c, int s2, int s2c, TT& t, int x, int y) { for (int i1 = 0; i1 < 3; i1++) for (int j1 = 0; j1 < 3; j1++) for (int k1 = 0; k1 < 3; k1++) if (int e1 = eps3(i1, j1, k1)) for (int i2 = 0; i2 < 3; i2++) for (int j2 = 0; j2 < 3; j2++) for (int k2 = 0; k2 < 3; k2++) if (int e2 = eps3(i2, j2, k2)) { Cx_<F> p = a.at(s1, s1c, i1, i2) * b.at(s2, s2c, j1, j2); Cx_<F>& o = t.at(x, y, k2, k1); o = e1 * e2 > 0 ? o + p : o - p; } };
    TT t(4, 4, 3, 3); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) for (int k = 0; k < 4; k++) switch (which) { case 13: col(k, i, k, j, t, i, j); break; case 14: col(k, i, j, k, t, i, j); break; case 23: col(i, k, k, j, t, i, j); break; case 24: col(i, k, j, k, t, i, j); break; case 12: col(k, k, i, j, t, i, j); break; case 34: col(i, j, k, k, t, i, j); break; }
    switch (which) { case 13: EQ(Propagator, quarkContract13(A, B), t) { ColorMatrix m; m.elem().elem() = traceSpinQuarkContract13(A.elem(), B.elem()).elem(); teq(T_(m), trace_s(t), "traceSpinQuarkContract13"); } break; case 14: EQ(Propagator, quarkContract14(A, B), t) break; case 23: EQ(Propagator, quarkContract23(A, B), t) break; case 24: EQ(Propagator, quarkContract24(A, B), t) break; case 12: EQ(Propagator, quarkContract12(A, B), t) break; case 34: EQ(Propagator, quarkContract34(A, B), t) break; }
    break; }
  case 16: { // products under a trace, with operands in fewer spaces
    ColorMatrix U; SpinMatrix G; Complex z; Propagator A; symfill(U, "U"); symfill(G, "G"); symfill(z, "z"); symfill(A, "A"); TT u = T_(U), g = T_(G), c = T_(z), a = T_(A);
#define TM(R, FN, X, Y, FORM) { R t; t.elem() = FN(X.elem(), Y.elem()); teq(T_(t), FORM, #FN " of " #X " and " #Y); }
    TM(Complex, traceMultiply, U, z, trace_(u * c)) TM(Complex, traceMultiply, z, U, trace_(c * u)) TM(Complex, traceMultiply, G, z, trace_(g * c)) TM(Complex, traceMultiply, z, G, trace_(c * g)) TM(Complex, traceMultiply, A, z, trace_(a * c)) TM(Complex, traceMultiply, A, U, trace_(a * u)) TM(Complex, traceMultiply, U, A, trace_(u * a)) TM(Complex, traceMultiply, A, G, trace_(a * g)) TM(Complex, traceMultiply, G, A, trace_(g * a))
    TM(Complex, traceColorMultiply, z, U, trace_(c * u)) TM(SpinMatrix, traceColorMultiply, A, U, trace_c(a * u)) TM(SpinMatrix, traceColorMultiply, U, A, trace_c(u * a)) TM(SpinMatrix, traceColorMultiply, A, A, trace_c(a * a))
    TM(Complex, traceSpinMultiply, z, G, trace_(c * g)) TM(ColorMatrix, traceSpinMultiply, A, G, trace_s(a * g)) TM(ColorMatrix, traceSpinMultiply, G, A, trace_s(g * a)) TM(ColorMatrix, traceSpinMultiply, A, A, trace_s(a * a))
    break; }
  case 17: { // inner products of a matrix and a multiple of the unit matrix; outer products of scalars
    ColorMatrix U; SpinMatrix G; Complex z, w; Real r, q; symfill(U, "U"); symfill(G, "G"); symfill(z, "z"); symfill(w, "w"); symfill(r, "r"); symfill(q, "q"); TT u = T_(U), g = T_(G), c = T_(z), d = T_(w), x = T_(r), y = T_(q);
    EQ(Complex, localInnerProduct(U, z), trace_(dag(u) * c)) EQ(Complex, localInnerProduct(z, U), trace_(cj(c) * u)) EQ(Complex, localInnerProduct(G, z), trace_(dag(g) * c)) EQ(Complex, localInnerProduct(z, G), trace_(cj(c) * g))
    EQ(Real, localInnerProductReal(z, U), re_(trace_(cj(c) * u))) EQ(Real, localInnerProductReal(z, G), re_(trace_(cj(c) * g)))
    EQ(Complex, outerProduct(z, w), c * cj(d)) EQ(Complex, outerProduct(z, r), c * x) EQ(Complex, outerProduct(r, z), x * cj(c)) EQ(Real, outerProduct(r, q), x * y)
    break; }
  }
  sym_cover("end");
}

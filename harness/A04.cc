// spin projection and reconstruction against (1 + s gamma_mu)
#ifdef AGGREGATE
#include "qdp.h"
// the optional specialised implementations, in the order their headers need
#include "scalarsite_generic/generic_mv_switchbox.h"
#include "scalarsite_generic/generic_spin_proj_inlines.h"
#include "scalarsite_generic/generic_spin_recon_inlines.h"
#include "scalarsite_generic/generic_spin_proj.h"
#include "scalarsite_generic/generic_spin_recon.h"
#include "scalarsite_generic/generic_fused_spin_proj.h"
#include "scalarsite_generic/generic_fused_spin_recon.h"
#include "scalarsite_generic/qdp_generic_spin_project_evaluates.h"
#include "scalarsite_generic/qdp_generic_fused_spin_proj_evaluates.h"
#include "scalarsite_generic/qdp_generic_fused_spin_recon_evaluates.h"
#endif
#include "gam.h"
typedef WordType<Real>::Type_t F; typedef Ten<F> TT;
#define T_(x) ld<F>(x)
#define L_(x) ldsite<F>((x).elem(s))
static TT proj(int mu, int sg) { TT g = gen_<F>(mu, false), u = unit(g); return sg > 0 ? u + g : u - g; } // 1 + s gamma
static TT top(const TT& x) { TT t(2, 1, x.cr, x.cc); EACH(t) t.at(a, b, c, d) = x.at(a, b, c, d); return t; }
static TT rec(const TT& h, int mu, int sg) { TT g = gen_<F>(mu, false), t(4, 1, h.cr, h.cc); EACH(t) if (a < 2) t.at(a, b, c, d) = h.at(a, b, c, d); else { Cx_<F> v = {0, 0}; for (int k = 0; k < 2; k++) v = v + g.at(a, k, 0, 0) * h.at(k, b, c, d); t.at(a, b, c, d) = sg > 0 ? v : Cx_<F>{-v.r, -v.i}; } return t; }
template<int MU, int S> struct Op;
#define DEF(MU, SS, NAME) template<> struct Op<MU, SS> { enum { mu = MU, sg = SS }; template<class X> static auto p(const X& x) { return spinProjectDir##NAME(x); } template<class X> static auto r(const X& x) { return spinReconstructDir##NAME(x); } };
DEF(0, 1, 0Plus) DEF(0, -1, 0Minus) DEF(1, 1, 1Plus) DEF(1, -1, 1Minus) DEF(2, 1, 2Plus) DEF(2, -1, 2Minus) DEF(3, 1, 3Plus) DEF(3, -1, 3Minus)
// site objects; V four-spinor, H half-spinor
template<class V, class H, class O> static void site_() {
  V A, t; H h, q; symfill(A, "A"); symfill(h, "h"); TT a = T_(A), b = T_(h), P = proj(O::mu, O::sg), r = rec(b, O::mu, O::sg); teq(P * r, r + r, "reconstruction lies in the projected space");
  q = O::p(A); teq(T_(q), top(P * a), "projection"); t = O::r(q); teq(T_(t), P * a, "reconstruction of a projection"); t = O::r(O::p(A)); teq(T_(t), P * a, "reconstruct(project)"); t = O::r(h); teq(T_(t), r, "reconstruction"); t = A; t += O::r(h); teq(T_(t), a + r, "accumulated reconstruction"); t = A; t -= O::r(h); teq(T_(t), a - r, "subtracted reconstruction"); q = spinProject(A, O::mu, O::sg); teq(T_(q), top(P * a), "spinProject"); t = spinReconstruct(h, O::mu, O::sg); teq(T_(t), r, "spinReconstruct"); q = O::p(A + A); teq(T_(q), top(P * (a + a)), "projection of an expression"); t = O::r(h + h); teq(T_(t), r + r, "reconstruction of an expression");
}
template<class V, class H> static void all8() { site_<V, H, Op<0, 1>>(); site_<V, H, Op<0, -1>>(); site_<V, H, Op<1, 1>>(); site_<V, H, Op<1, -1>>(); site_<V, H, Op<2, 1>>(); site_<V, H, Op<2, -1>>(); site_<V, H, Op<3, 1>>(); site_<V, H, Op<3, -1>>(); }
typedef OLattice<PSpinVector<PColorVector<RComplex<REAL>, Nc>, 2>> LatticeHalf;
template<class O> static void field(const Subset& sub, const TableFunc& f, int which) {
  LatticeFermion A, t, t0; LatticeHalf h, q, q0; LatticeColorMatrix u; int N = Layout::sitesOnNode(); TT P = proj(O::mu, O::sg);
  symfill(A, "A"); symfill(h, "h"); symfill(u, "u"); symfill(t0, "t0"); symfill(q0, "q0");
#define HALF(EXPR, FORM) { q = q0; q[sub] = EXPR; for (int s = 0; s < N; s++) { if (!in_table(f, s, which)) samesite(q.elem(s), q0.elem(s), "outside the subset: " #EXPR); else teq(L_(q), FORM, #EXPR); } }
#define FULL(OP, EXPR, FORM) { t = t0; t[sub] OP EXPR; for (int s = 0; s < N; s++) { if (!in_table(f, s, which)) samesite(t.elem(s), t0.elem(s), "outside the subset: " #OP " " #EXPR); else teq(L_(t), FORM, #OP " " #EXPR); } }
  HALF(O::p(A), top(P * L_(A))) HALF(spinProject(A, O::mu, O::sg), top(P * L_(A))) HALF(adj(u) * O::p(A), dag(L_(u)) * top(P * L_(A))) HALF(u * O::p(A), L_(u) * top(P * L_(A)))
  FULL(=, O::r(h), rec(L_(h), O::mu, O::sg)) FULL(+=, O::r(h), L_(t0) + rec(L_(h), O::mu, O::sg)) FULL(=, O::r(u * h), rec(L_(u) * L_(h), O::mu, O::sg)) FULL(+=, O::r(u * h), L_(t0) + rec(L_(u) * L_(h), O::mu, O::sg)) FULL(-=, O::r(u * h), L_(t0) - rec(L_(u) * L_(h), O::mu, O::sg)) FULL(=, spinReconstruct(h, O::mu, O::sg), rec(L_(h), O::mu, O::sg)) FULL(=, O::r(O::p(A)), P * L_(A)) FULL(=, O::r(u * O::p(A)), P * (L_(u) * L_(A))) FULL(+=, O::r(adj(u) * O::p(A)), L_(t0) + P * (dag(L_(u)) * L_(A)))
}
template<class V, bool mat> static void chiral() { V A, t; symfill(A, "A"); TT a = T_(A), g = gam_<F>(15, false), u = unit(g); F h = F(0.5); t = chiralProjectPlus(A); teq(T_(t), scal((u + g) * a, h, F(0)), "chiralProjectPlus"); t = chiralProjectMinus(A); teq(T_(t), scal((u - g) * a, h, F(0)), "chiralProjectMinus"); t = chiralProjectPlus(A) + chiralProjectMinus(A); teq(T_(t), a, "chiral projectors sum to one"); t = chiralProjectPlus(A + A) - A; teq(T_(t), g * a, "chiral projection of an expression"); t = A; t = chiralProjectMinus(t); teq(T_(t), scal((u - g) * a, h, F(0)), "chiralProjectMinus in place"); }
void harness_main() {
  qh_start_param(3, 1, 1, 1); int kind = (int)sym_param("kind", 0);
  if (kind == 0) all8<Fermion, HalfFermion>();
  else if (kind == 1) { typedef OScalar<PSpinVector<PScalar<RComplex<REAL>>, 2>> HS; all8<SpinVector, HS>(); }
  else if (kind == 2) { chiral<SpinVector, false>(); chiral<Fermion, false>(); chiral<SpinMatrix, true>(); chiral<Propagator, true>(); }
  else { // fields on arbitrary subsets: kind 3..6 is the direction
    TableFunc f; f.nc = 2; for (int i = 0; i < Layout::vol(); i++) f.tab[i] = sym_choose("col", 0, 1); Set st; st.make(f); int c = sym_choose("which", 0, 1);
    if (st[c].hasOrderedRep()) sym_cover("ordered"); else sym_cover("scattered");
    switch (kind - 3) { case 0: field<Op<0, 1>>(st[c], f, c); field<Op<0, -1>>(st[c], f, c); break; case 1: field<Op<1, 1>>(st[c], f, c); field<Op<1, -1>>(st[c], f, c); break; case 2: field<Op<2, 1>>(st[c], f, c); field<Op<2, -1>>(st[c], f, c); break; case 3: field<Op<3, 1>>(st[c], f, c); field<Op<3, -1>>(st[c], f, c); break; } }
  sym_cover("end");
}

From 68fda95b78ddcbc22fa3e7551a6e7dec377cb221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 01/31] fix: a copied or assigned Set refers to its own site
 tables

---
 include/qdp_subset.h |  3 +++
 lib/qdp_subset.cc    | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/include/qdp_subset.h b/include/qdp_subset.h
index 38aa4e9..f7d6657 100644
--- a/include/qdp_subset.h
+++ b/include/qdp_subset.h
@@ -101,6 +101,9 @@ public:
   //! Constructor from a function object
   Set(const SetFunc& fn) {make(fn);}
 
+  //! Copy constructor. The subsets of the copy refer to the copy's own site tables
+  Set(const Set& s) {*this = s;}
+
   //! Constructor from a function object
   void make(const SetFunc& fn);
 
diff --git a/lib/qdp_subset.cc b/lib/qdp_subset.cc
index 68913b7..1ad9b8e 100644
--- a/lib/qdp_subset.cc
+++ b/lib/qdp_subset.cc
@@ -159,9 +159,19 @@ namespace QDP
   // = operator
   Set& Set::operator=(const Set& s)
   {
+    if (this == &s)
+      return *this;
+
     sub = s.sub;
     lat_color = s.lat_color;
     sitetables = s.sitetables;
+
+    // The subsets must refer to the tables of this set and not to those of the source
+    for(int cb=0; cb < sub.size(); ++cb)
+    {
+      sub[cb].sitetable = &(sitetables[cb]);
+      sub[cb].set = this;
+    }
     return *this;
   }
 
-- 
2.43.0


From 75aeb9fb806911d20345dee52ccea57f493b61b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:25 +0000
Subject: [PATCH 02/31] fix: array forms of norm2, innerProduct and sumMulti
 compile and return per-element sums

---
 include/qdp_scalar_specific.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/qdp_scalar_specific.h b/include/qdp_scalar_specific.h
index fe40026..98fe90f 100644
--- a/include/qdp_scalar_specific.h
+++ b/include/qdp_scalar_specific.h
@@ -838,7 +838,7 @@ sumMulti(const QDPExpr<RHS,OLattice<T> >& s1, const Set& ss)
  * slices
  */
 template<class T>
-multi2d<typename UnaryReturn<OScalar<T>, FnSumMulti>::Type_t>
+multi2d<typename UnaryReturn<OScalar<T>, FnSum>::Type_t>
 sumMulti(const multi1d< OScalar<T> >& s1, const Set& ss)
 {
   multi2d<typename UnaryReturn<OScalar<T>, FnSum>::Type_t>  dest(s1.size(),ss.numSubsets());
@@ -873,7 +873,7 @@ sumMulti(const multi1d< OScalar<T> >& s1, const Set& ss)
  * version is fine.
  */
 template<class T>
-multi2d<typename UnaryReturn<OLattice<T>, FnSumMulti>::Type_t>
+multi2d<typename UnaryReturn<OLattice<T>, FnSum>::Type_t>
 sumMulti(const multi1d< OLattice<T> >& s1, const Set& ss)
 {
   multi2d<typename UnaryReturn<OLattice<T>, FnSum>::Type_t>  dest(s1.size(),ss.numSubsets());
@@ -937,7 +937,7 @@ norm2(const multi1d< OScalar<T> >& s1)
 
   for(int n=0; n < s1.size(); ++n)
   {
-    OScalar<T>& ss1 = s1[n];
+    const OScalar<T>& ss1 = s1[n];
     d.elem() += localNorm2(ss1.elem());
   }
 
@@ -1059,8 +1059,8 @@ innerProduct(const multi1d< OScalar<T1> >& s1, const multi1d< OScalar<T2> >& s2)
 
   for(int n=0; n < s1.size(); ++n)
   {
-    OScalar<T1>& ss1 = s1[n];
-    OScalar<T2>& ss2 = s2[n];
+    const OScalar<T1>& ss1 = s1[n];
+    const OScalar<T2>& ss2 = s2[n];
     d.elem() += localInnerProduct(ss1.elem(),ss2.elem());
   }
 
@@ -1180,8 +1180,8 @@ innerProductReal(const multi1d< OScalar<T1> >& s1, const multi1d< OScalar<T2> >&
 
   for(int n=0; n < s1.size(); ++n)
   {
-    OScalar<T1>& ss1 = s1[n];
-    OScalar<T2>& ss2 = s2[n];
+    const OScalar<T1>& ss1 = s1[n];
+    const OScalar<T2>& ss2 = s2[n];
     d.elem() += localInnerProductReal(ss1.elem(),ss2.elem());
   }
 
-- 
2.43.0


From cd49559940d7d2a37bce324320a2ad182b74ff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:45 +0000
Subject: [PATCH 03/31] fix: isnormal of a matrix tests normality, not infinity

---
 include/qdp_primmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qdp_primmatrix.h b/include/qdp_primmatrix.h
index 466f590..722831b 100644
--- a/include/qdp_primmatrix.h
+++ b/include/qdp_primmatrix.h
@@ -807,7 +807,7 @@ isnormal(const PMatrix<T1,N,C>& l)
 
   for(int i=0; i < N; ++i)
     for(int j=0; j < N; ++j)
-      d &= isinf(l.elem(i,j));
+      d &= isnormal(l.elem(i,j));
 
   return d;
 }
-- 
2.43.0


From 4f98c2f0be01f10cd4c58a8f7203eabf284ec0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:29 +0000
Subject: [PATCH 04/31] fix: dividing a complex by an integer divides in the
 promoted type

---
 include/qdp_reality.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/qdp_reality.h b/include/qdp_reality.h
index 18da0a1..b6fe897 100644
--- a/include/qdp_reality.h
+++ b/include/qdp_reality.h
@@ -2014,7 +2014,8 @@ operator/(const RComplex<T1>& l, const RScalar<T2>& r)
 {
   typedef typename BinaryReturn<RComplex<T1>, RScalar<T2>, OpDivide>::Type_t  Ret_t;
 
-  T2 tmp = T2(1.0) / r.elem();
+  typedef typename BinaryReturn<T1, T2, OpDivide>::Type_t  D;
+  D tmp = D(1.0) / r.elem();
 
   return Ret_t(l.real() * tmp, 
 	       l.imag() * tmp);
-- 
2.43.0


From 43be3c17b1f52dfbc0f18fecb1b8201b50d5df18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:53 +0000
Subject: [PATCH 05/31] fix: the imaginary trace of a real object is zero

---
 include/qdp_reality.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qdp_reality.h b/include/qdp_reality.h
index b6fe897..c2e4619 100644
--- a/include/qdp_reality.h
+++ b/include/qdp_reality.h
@@ -1188,7 +1188,7 @@ imagTrace(const RScalar<T1>& s1)
 //  return trace_imag(s1.elem());
 
   /*! NOTE: removed trace here !!!!!  */
-  return s1.elem();
+  return imag(s1);
 }
 
 //! RScalar = trace(RScalar * RScalar)
-- 
2.43.0


From 44daceca7e1955a41d77d2314ebc334ec4161d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:29 +0000
Subject: [PATCH 06/31] fix: LatticeHalfFermion = LatticeColorMatrix *
 LatticeHalfFermion with the destination as operand

---
 .../qdp_scalarsite_generic_linalg_wrapper.h      | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/scalarsite_generic/qdp_scalarsite_generic_linalg_wrapper.h b/include/scalarsite_generic/qdp_scalarsite_generic_linalg_wrapper.h
index c1da599..adf6ab1 100644
--- a/include/scalarsite_generic/qdp_scalarsite_generic_linalg_wrapper.h
+++ b/include/scalarsite_generic/qdp_scalarsite_generic_linalg_wrapper.h
@@ -44,12 +44,16 @@ void ordered_linalg_evaluate_userfunc(int lo, int hi, int myId, ordered_linalg_u
    // Ordered Way - loop through sites and save a table lookup
    for(int i=low; i < high; i++) { 
       
+     // r may be the same field as d
+     PSpinVector<PColorVector<RComplexFloat, 3>, 2> t;
+
      _inline_generic_mult_su3_mat_vec(l.elem(i).elem(),
 				      r.elem(i).elem(0),
-				      d.elem(i).elem(0));
+				      t.elem(0));
      _inline_generic_mult_su3_mat_vec(l.elem(i).elem(),
 				      r.elem(i).elem(1),
-				      d.elem(i).elem(1));
+				      t.elem(1));
+     d.elem(i) = t;
    }
   
 }
@@ -87,12 +91,16 @@ void unordered_linalg_evaluate_userfunc(int lo, int hi, int myId,  unordered_lin
    for(int j=lo; j < hi; j++) { 
      int i = tab[j];
       
+     // r may be the same field as d
+     PSpinVector<PColorVector<RComplexFloat, 3>, 2> t;
+
      _inline_generic_mult_su3_mat_vec(l.elem(i).elem(),
 				      r.elem(i).elem(0),
-				      d.elem(i).elem(0));
+				      t.elem(0));
      _inline_generic_mult_su3_mat_vec(l.elem(i).elem(),
 				      r.elem(i).elem(1),
-				      d.elem(i).elem(1));
+				      t.elem(1));
+     d.elem(i) = t;
    } 
 }
 
-- 
2.43.0


From 9b5011866823597c6f992790bed75a4331b0931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:29 +0000
Subject: [PATCH 07/31] fix: double precision SSE LatticeColorMatrix products
 with the destination as operand

---
 .../qdp_scalarsite_linalg_double.cc           | 34 ++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc b/lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc
index 193f035..ff57805 100644
--- a/lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc
+++ b/lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc
@@ -20,6 +20,16 @@ namespace QDP {
 // Specialization to optimize the case   
 //    LatticeColorMatrix[ Subset] = LatticeColorMatrix * LatticeColorMatrix
 
+  // The kernels store parts of the destination before they have read all of the
+  // operands, so an operand which is also the destination is read from a copy
+  inline
+  REAL64* ssed_3mat_operand(REAL64* m, const REAL64* dm, REAL64* tmp)
+  {
+    if( m != dm ) return m;
+    for(int i=0; i < 18; i++) tmp[i] = m[i];
+    return tmp;
+  }
+
 // Threading hoist
   struct ordered_ssed_3mat_args {
     REAL64* lm;
@@ -40,7 +50,14 @@ namespace QDP {
     REAL64* rm = &(a->rm[index]);
     REAL64* dm = &(a->dm[index]);
 
-    func(dm,lm,rm, n_3mat);
+    if( lm == dm || rm == dm ) {
+      for(int i=0; i < n_3mat; i++, lm+=18, rm+=18, dm+=18) {
+	REAL64 tmp[18] QDP_ALIGN16;
+	func(dm, ssed_3mat_operand(lm,dm,tmp), ssed_3mat_operand(rm,dm,tmp), 1);
+      }
+    }
+    else
+      func(dm,lm,rm, n_3mat);
   }
 
   struct unordered_ssed_3mat_args { 
@@ -68,7 +85,8 @@ namespace QDP {
       REAL64 *lm = (REAL64 *)&(a->l.elem(i).elem().elem(0,0).real());
       REAL64 *rm = (REAL64 *)&(a->r.elem(i).elem().elem(0,0).real());
       REAL64 *dm = (REAL64 *)&(a->d.elem(i).elem().elem(0,0).real());
-      func(dm,lm, rm, 1);
+      REAL64 tmp[18] QDP_ALIGN16;
+      func(dm, ssed_3mat_operand(lm,dm,tmp), ssed_3mat_operand(rm,dm,tmp), 1);
     }
   }
       
@@ -279,7 +297,14 @@ void evaluate(OLattice< DCol >& d,
     REAL64* dm = &(a->dm[index]);
     REAL64* c  = a->c; // The const
 
-    func(dm,c,lm,rm, n_3mat);
+    if( lm == dm || rm == dm ) {
+      for(int i=0; i < n_3mat; i++, lm+=18, rm+=18, dm+=18) {
+	REAL64 tmp[18] QDP_ALIGN16;
+	func(dm, c, ssed_3mat_operand(lm,dm,tmp), ssed_3mat_operand(rm,dm,tmp), 1);
+      }
+    }
+    else
+      func(dm,c,lm,rm, n_3mat);
   }
 
   struct unordered_ssed_3mat_const_args { 
@@ -309,7 +334,8 @@ void evaluate(OLattice< DCol >& d,
       REAL64 *lm = (REAL64 *)&(a->l.elem(i).elem().elem(0,0).real());
       REAL64 *rm = (REAL64 *)&(a->r.elem(i).elem().elem(0,0).real());
       REAL64 *dm = (REAL64 *)&(a->d.elem(i).elem().elem(0,0).real());
-      func(dm,a->c, lm, rm, 1);
+      REAL64 tmp[18] QDP_ALIGN16;
+      func(dm, a->c, ssed_3mat_operand(lm,dm,tmp), ssed_3mat_operand(rm,dm,tmp), 1);
     }
   }
       
-- 
2.43.0


From 28c7bd3c6e44d12fac5a90df161e1e2349dfda3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:26 +0000
Subject: [PATCH 08/31] fix: peekColor and peekSpin of expressions did not
 compile

---
 include/qdp_newops.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/qdp_newops.h b/include/qdp_newops.h
index b128af4..acbf017 100644
--- a/include/qdp_newops.h
+++ b/include/qdp_newops.h
@@ -157,7 +157,8 @@ peekColor(const QDPType<T1,C1> & l, int row, int col)
 
 template<class T1,class C1>
 inline typename MakeReturn<UnaryNode<FnPeekColorMatrix,
-  typename CreateLeaf<QDPExpr<T1,C1> >::Leaf_t>, C1>::Expression_t
+  typename CreateLeaf<QDPExpr<T1,C1> >::Leaf_t>,
+  typename UnaryReturn<C1,FnPeekColorMatrix >::Type_t >::Expression_t
 peekColor(const QDPExpr<T1,C1> & l, int row, int col)
 {
   typedef UnaryNode<FnPeekColorMatrix,
@@ -206,7 +207,8 @@ peekColor(const QDPType<T1,C1> & l, int row)
 
 template<class T1,class C1>
 inline typename MakeReturn<UnaryNode<FnPeekColorVector,
-  typename CreateLeaf<QDPExpr<T1,C1> >::Leaf_t>, C1>::Expression_t
+  typename CreateLeaf<QDPExpr<T1,C1> >::Leaf_t>,
+  typename UnaryReturn<C1,FnPeekColorVector >::Type_t >::Expression_t
 peekColor(const QDPExpr<T1,C1> & l, int row)
 {
   typedef UnaryNode<FnPeekColorVector,
@@ -254,7 +256,8 @@ peekSpin(const QDPType<T1,C1> & l, int row, int col)
 
 template<class T1,class C1>
 inline typename MakeReturn<UnaryNode<FnPeekSpinMatrix,
-  typename CreateLeaf<QDPExpr<T1,C1> >::Leaf_t>, C1>::Expression_t
+  typename CreateLeaf<QDPExpr<T1,C1> >::Leaf_t>,
+  typename UnaryReturn<C1,FnPeekSpinMatrix >::Type_t >::Expression_t
 peekSpin(const QDPExpr<T1,C1> & l, int row, int col)
 {
   typedef UnaryNode<FnPeekSpinMatrix,
@@ -303,7 +306,8 @@ peekSpin(const QDPType<T1,C1> & l, int row)
 
 template<class T1,class C1>
 inline typename MakeReturn<UnaryNode<FnPeekSpinVector,
-  typename CreateLeaf<QDPExpr<T1,C1> >::Leaf_t>, C1>::Expression_t
+  typename CreateLeaf<QDPExpr<T1,C1> >::Leaf_t>,
+  typename UnaryReturn<C1,FnPeekSpinVector >::Type_t >::Expression_t
 peekSpin(const QDPExpr<T1,C1> & l, int row)
 {
   typedef UnaryNode<FnPeekSpinVector,
-- 
2.43.0


From f61de098afa1350ae1de46d96df1fce8ba7e8b04 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 09/31] fix: RANNYU kept the carry out of the top limb instead
 of the limb itself

The state is a 48-bit integer in four 12-bit limbs; the top limb must be
reduced modulo 4096. The shift left values outside the documented range
and deviates above one.
---
 lib/qdp_rannyu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/qdp_rannyu.cc b/lib/qdp_rannyu.cc
index a7d294a..75a28ee 100644
--- a/lib/qdp_rannyu.cc
+++ b/lib/qdp_rannyu.cc
@@ -47,7 +47,7 @@ namespace QDP
 	ll[2] = ii[2] & 4095;
 	ii[1] = ii[1] + (ii[2] >> 12);
 	ll[1] = ii[1] & 4095;
-	ll[0] = (ii[0] + (ii[1] >> 12)) >> 12;
+	ll[0] = (ii[0] + (ii[1] >> 12)) & 4095;
 	ran = twom12*((double)ll[0] + twom12*((double)ll[1] + twom12*((double)ll[2] + twom12*((double)ll[3]))));
       }
     }
-- 
2.43.0


From 0dfa4e0f9b5bb73a2864dde2278beb73059a542b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 10/31] fix: RANNYU ignored a seed set before the first draw
 and saved an empty one

---
 lib/qdp_rannyu.cc | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/lib/qdp_rannyu.cc b/lib/qdp_rannyu.cc
index 75a28ee..972aa81 100644
--- a/lib/qdp_rannyu.cc
+++ b/lib/qdp_rannyu.cc
@@ -29,6 +29,19 @@ namespace QDP
       bool inited = false;
       
       double twom12 = 1/4096.0;
+
+      // Initialize the global seed if needed
+      void init()
+      {
+	if (! inited)
+	{
+	  ran_seed.resize(4);
+	  for(int i=0; i < 4; ++i)
+	    ran_seed[i] = __default_seed[i];
+
+	  inited = true;
+	}
+      }
     }
 
     // Hide the actual RNG
@@ -58,16 +71,7 @@ namespace QDP
     {
       double ran;
 
-      // Initialize the global seed if needed
-      if (! inited)
-      {
-	ran_seed.resize(4);
-	for(int i=0; i < 4; ++i)
-	  ran_seed[i] = __default_seed[i];
-
-	inited = true;
-      }
-
+      init();
       __rand(ran, ran_seed);
       return ran;
     }
@@ -83,12 +87,14 @@ namespace QDP
       }
 	
       ran_seed = iseed;
+      inited = true;
     }
 
 
     //! Recover the seed
     multi1d<int> savern()
     {
+      init();
       return ran_seed;
     }
 
-- 
2.43.0


From 5b03f98dbcd79f10ba2694f4c95dd28c603b5b9e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 11/31] fix: random on a subset without sites set the global
 seed to garbage

The seed was taken from a local variable that only the site loop sets: a
subset without sites (or an OpenMP thread without iterations) made it
undefined, and nodes without sites of the subset fell out of step with
the others. Advance the seed independently of the subset.
---
 include/qdp_parscalar_specific.h | 15 +++++++--------
 include/qdp_scalar_specific.h    | 11 ++++++-----
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/qdp_parscalar_specific.h b/include/qdp_parscalar_specific.h
index 7e91f24..2b41ebb 100644
--- a/include/qdp_parscalar_specific.h
+++ b/include/qdp_parscalar_specific.h
@@ -534,15 +534,14 @@ random(OLattice<T>& d, const Subset& s)
 			skewed_seed.elem() = RNG::ran_seed.elem() * RNG::lattice_ran_mult->elem(i);
 			fill_random(d.elem(i), seed, skewed_seed, RNG::ran_mult_n);
 		}
-
-		int myId = qdpThreadNum();
-		if( myId < nodeSites ) {
-#pragma omp critical (random)
-		{
-			RNG::ran_seed = seed;	 // The seed from any site is the same as the new global seed
-		}
-		}
 	}
+
+	// The seed from any site is the same as the new global seed, also when the subset has no site on this node
+	T dummy;
+	Seed seed = RNG::ran_seed;
+	Seed skewed_seed = seed;
+	fill_random(dummy, seed, skewed_seed, RNG::ran_mult_n);
+	RNG::ran_seed = seed;
 }
 
 
diff --git a/include/qdp_scalar_specific.h b/include/qdp_scalar_specific.h
index 98fe90f..1024fce 100644
--- a/include/qdp_scalar_specific.h
+++ b/include/qdp_scalar_specific.h
@@ -353,13 +353,14 @@ random(OLattice<T>& d, const Subset& s)
       skewed_seed.elem() = RNG::ran_seed.elem() * RNG::lattice_ran_mult->elem(i);
       fill_random(d.elem(i), seed, skewed_seed, RNG::ran_mult_n);
     }
-
-#pragma omp critical (random)
-    {
-      RNG::ran_seed = seed;  // The seed from any site is the same as the new global seed
-    }
   }
 
+  // The seed from any site is the same as the new global seed, also when the subset has no site
+  T dummy;
+  Seed seed = RNG::ran_seed;
+  Seed skewed_seed = seed;
+  fill_random(dummy, seed, skewed_seed, RNG::ran_mult_n);
+  RNG::ran_seed = seed;
 }
 
 
-- 
2.43.0


From 0e3cf61c5defc27f4964984046d067c23039123e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 12/31] fix: checksum of a binary buffer constructed from a
 string started from garbage

---
 lib/qdp_io.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index 7b434db..df4f0e0 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -917,7 +917,7 @@ namespace QDP
   BinaryBufferReader::BinaryBufferReader() {checksum=0;}
 
   // Construct from a string
-  BinaryBufferReader::BinaryBufferReader(const std::string& s) {open(s);}
+  BinaryBufferReader::BinaryBufferReader(const std::string& s) {checksum=0;open(s);}
 
   BinaryBufferReader::~BinaryBufferReader() {}
 
@@ -1347,7 +1347,7 @@ namespace QDP
   BinaryBufferWriter::BinaryBufferWriter() {checksum=0;}
 
   // Construct from a string
-  BinaryBufferWriter::BinaryBufferWriter(const std::string& s) {open(s);}
+  BinaryBufferWriter::BinaryBufferWriter(const std::string& s) {checksum=0;open(s);}
 
   BinaryBufferWriter::~BinaryBufferWriter() {}
 
@@ -1540,7 +1540,7 @@ namespace QDP
   BinaryBufferReaderWriter::BinaryBufferReaderWriter() {checksum=0;}
 
   // Construct from a string
-  BinaryBufferReaderWriter::BinaryBufferReaderWriter(const std::string& s) {open(s);}
+  BinaryBufferReaderWriter::BinaryBufferReaderWriter(const std::string& s) {checksum=0;open(s);}
 
   BinaryBufferReaderWriter::~BinaryBufferReaderWriter() {}
 
-- 
2.43.0


From f5e29f17867179b9f5ef6eaf822412e3eaeaf8d0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 13/31] fix: binary writers byte-swapped the caller's data in
 place

Writing an object that lies in read-only memory (a constant with static
storage) was a crash, and the data was briefly wrong for other readers.
---
 lib/qdp_io.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/qdp_io.cc b/lib/qdp_io.cc
index df4f0e0..8874154 100644
--- a/lib/qdp_io.cc
+++ b/lib/qdp_io.cc
@@ -1170,11 +1170,13 @@ namespace QDP
       else
       {
 	/* little-endian */
-	/* Swap and write and swap */
-	QDPUtil::byte_swap(const_cast<char *>(output), size, nmemb);
-	internalChecksum() = QDPUtil::crc32(internalChecksum(), output, size*nmemb);
-	getOstream().write(output, size*nmemb);
-	QDPUtil::byte_swap(const_cast<char *>(output), size, nmemb);
+	/* Swap and write a copy: the data may be in read-only memory */
+	char *swapped = new char[size*nmemb];
+	memcpy(swapped, output, size*nmemb);
+	QDPUtil::byte_swap(swapped, size, nmemb);
+	internalChecksum() = QDPUtil::crc32(internalChecksum(), swapped, size*nmemb);
+	getOstream().write(swapped, size*nmemb);
+	delete[] swapped;
       }
     }
   }
-- 
2.43.0


From ff00c61bd4bddc9e7163d96a75995d3e1690eb09 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 14/31] fix: random, gaussian, copymask and binary IO of a
 field on a subset did not compile

---
 include/qdp_outersubtype.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/qdp_outersubtype.h b/include/qdp_outersubtype.h
index c3d5e6b..408018a 100644
--- a/include/qdp_outersubtype.h
+++ b/include/qdp_outersubtype.h
@@ -98,9 +98,10 @@ class OSubLattice: public QDPSubType<T, OLattice<T> >
 
 public:
   //OSubLattice(OLattice<T>& a, const Subset& ss): F(a.getF()), s(ss), ownsMemory(false) {}
-  OSubLattice(OLattice<T>& a, const Subset& ss): F(a.getF()), s(&(const_cast<Subset&>(ss))), ownsMemory(false) {}
+  OSubLattice(OLattice<T>& a, const Subset& ss): F(a.getF()), ownsMemory(false), s(&(const_cast<Subset&>(ss))), L(&a) {}
   OSubLattice(const OSubLattice& a) {
     ownsMemory = a.ownsMemory; 
+    L = a.L;
     s = a.s;
     if (a.ownsMemory) {
       //std::cout << "OSubLattice copy ctor, must copy\n";
@@ -114,7 +115,7 @@ public:
 
 
 #if 1
-  OSubLattice(): s(NULL), F(NULL), ownsMemory(false) {}
+  OSubLattice(): F(NULL), ownsMemory(false), s(NULL), L(NULL) {}
 
 
   void setSubset( const Subset& ss ) {
@@ -129,7 +130,7 @@ public:
   }
 
 
-  OSubLattice(const Subset& ss , OLattice<T>& a): s(&(const_cast<Subset&>(ss))), ownsMemory(true) {
+  OSubLattice(const Subset& ss , OLattice<T>& a): ownsMemory(true), s(&(const_cast<Subset&>(ss))), L(NULL) {
     alloc_mem();
     const int *tab = s->siteTable().slice();
     for( int j = 0 ; j < s->numSiteTable() ; ++j ) {
@@ -215,6 +216,12 @@ public:
   bool getOwnsMemory() { return ownsMemory; }
   T* getF() {return F;}
   T* getF() const {return F;}
+  //! The lattice field this is a view of
+  OLattice<T>& field() const {
+    if (L == NULL)
+      QDP_error_exit("OSubLattice: not a view of an OLattice");
+    return *L;
+  }
   //const Subset& subset() const {return s;}
   const Subset& subset() const {return *s;}
 
@@ -222,6 +229,7 @@ private:
   T* F;
   bool ownsMemory;
   Subset* s;
+  OLattice<T>* L;    // the field, if this is a view
 
   //C&      F;
   //const Subset& s;
-- 
2.43.0


From c64e7e26a6c252bc9794ab5070e882c911ea3d65 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:53:03 +0000
Subject: [PATCH 15/31] fix: assigning a multi2d..multi5d or multiNd to itself
 lost its contents

---
 include/qdp_multi.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 0034bdd..733fa1f 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -680,6 +680,9 @@ public:
   //! Equal operator uses underlying = of T
   multi2d<T>& operator=(const multi2d<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size2(), s1.size1());   // always resize
 
       for(int i=0; i < sz; ++i)
@@ -779,6 +782,9 @@ public:
   //! Equal operator uses underlying = of T
   multi3d<T>& operator=(const multi3d<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size3(), s1.size2(), s1.size1());
 
       for(int i=0; i < sz; ++i)
@@ -874,6 +880,9 @@ public:
   //! Equal operator uses underlying = of T
   multi4d<T>& operator=(const multi4d<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size4(),s1.size3(),s1.size2(),s1.size1());
 
       for(int i=0; i < sz; ++i)
@@ -971,6 +980,9 @@ public:
   //! Equal operator uses underlying = of T
   multi5d<T>& operator=(const multi5d<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size5(),s1.size4(),s1.size3(),s1.size2(),s1.size1());
 
       for(int i=0; i < sz; ++i)
@@ -1072,6 +1084,9 @@ public:
   //! Equal operator uses underlying = of T
   multiNd<T>& operator=(const multiNd<T>& s1)
     {
+      if (this == &s1)
+	return *this;
+
       resize(s1.size());
 
       for(int i=0; i < sz; ++i)
-- 
2.43.0


From 4cc194c897298dc1ade3e02e51b9e8f6450af953 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:53:03 +0000
Subject: [PATCH 16/31] fix: multiNd(j,i..) used the strides of the reversed
 extents

---
 include/qdp_multi.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 733fa1f..4db1f2c 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -1142,7 +1142,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*j];
+      return F[i+nz[1]*j];
     }
 
   //! Return const ref to an element
@@ -1154,7 +1154,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*j];
+      return F[i+nz[1]*j];
     }
 
   //! Return ref to an element
@@ -1166,7 +1166,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k))];
+      return F[i+nz[2]*(j+nz[1]*(k))];
     }
 
   //! Return const ref to an element
@@ -1178,7 +1178,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k))];
+      return F[i+nz[2]*(j+nz[1]*(k))];
     }
 
   //! Return ref to an element
@@ -1190,7 +1190,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k+nz[2]*l))];
+      return F[i+nz[3]*(j+nz[2]*(k+nz[1]*l))];
     }
 
   //! Return const ref to an element
@@ -1202,7 +1202,7 @@ public:
 	exit(1);
       }
 
-      return F[i+nz[0]*(j+nz[1]*(k+nz[2]*l))];
+      return F[i+nz[3]*(j+nz[2]*(k+nz[1]*l))];
     }
 
   //! Return ref to an element via indices packed in a multi1d array
-- 
2.43.0


From 18d81a3219dd391c3664541c2f1a2279452beae1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:53:03 +0000
Subject: [PATCH 17/31] fix: multi5d with sizes, scalar minus multi1d and
 concat of non-int arrays did not compile

---
 include/qdp_multi.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 4db1f2c..49b880f 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -291,7 +291,7 @@ private:
 template<typename T>
 inline multi1d<T> concat(const multi1d<T>& l, const multi1d<T>& r)
 {
-  multi1d<int> nz(l.size() + r.size());
+  multi1d<T> nz(l.size() + r.size());
   int j = 0;
   for(int i=0; i < l.size(); ++i)
     nz[j++] = l[i];
@@ -440,8 +440,9 @@ template< typename T>
 inline
 multi1d<T> operator-(const T& s, const multi1d<T>& a)
 {
-  multi1d<T> c(-a); 
-  c+=s;
+  multi1d<T> c(a.size()); 
+  c = s;
+  c-=a;
   return c;
 }
 //! Array - scalar
@@ -938,7 +939,7 @@ template<class T> class multi5d
 public:
   multi5d() {F=0;n1=n2=n3=n4=n5=sz=0;copymem=false;}
   multi5d(T *f, int ns5, int ns4, int ns3, int ns2, int ns1) {F=f; n1=ns1; n2=ns2; n3=ns3; n4=ns4; n5=ns5; sz=n1*n2*n3*n4*n5; copymem=true;}
-  explicit multi5d(int ns4, int ns3, int ns2, int ns1) {copymem=false;F=0;resize(ns4,ns3,ns2,ns1);}
+  explicit multi5d(int ns5, int ns4, int ns3, int ns2, int ns1) {copymem=false;F=0;resize(ns5,ns4,ns3,ns2,ns1);}
   ~multi5d() {if (! copymem) {delete[] F;}}
 
   //! Copy constructor
-- 
2.43.0


From 90bd8525493f7f6828fd5e0e712b72249f1d65d2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:53:03 +0000
Subject: [PATCH 18/31] fix: copying an empty multiNd read past its empty array
 of extents

---
 include/qdp_multi.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/qdp_multi.h b/include/qdp_multi.h
index 49b880f..7ab0d9b 100644
--- a/include/qdp_multi.h
+++ b/include/qdp_multi.h
@@ -1038,7 +1038,7 @@ private:
 template<class T> class multiNd
 {
 public:
-  multiNd() {F=0;}
+  multiNd() {F=0;sz=0;}
   explicit multiNd(const multi1d<int>& _nz) {F=0;resize(_nz);}
   ~multiNd() {delete[] F;}
 
@@ -1056,8 +1056,8 @@ public:
     {
       delete[] F; 
       nz = _nz;
-      sz = nz[0];
-      for(int i=1; i < nz.size(); ++i)
+      sz = (nz.size() > 0) ? 1 : 0;
+      for(int i=0; i < nz.size(); ++i)
 	sz *= nz[i];
       F = new(std::nothrow) T[sz];
       if ( F==0x0 ) { 
-- 
2.43.0


From 8c18a21d624c6078c91f21174207d76b77564696 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:12:06 +0000
Subject: [PATCH 19/31] fix: every use of MapObjectDisk divided by zero
 converting stream positions

---
 include/qdp_map_obj_disk.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index 480da10..72a29bb 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -8,7 +8,7 @@
 #define __qdp_map_obj_disk_h__
 
 #include "qdp_map_obj.h"
-#include <limits>
+#include <array>
 #include <unordered_map>
 
 namespace QDP
@@ -210,9 +210,9 @@ namespace QDP
   typename MapObjectDisk<K,V>::priv_pos_type_t
   MapObjectDisk<K,V>::convertToPrivate(const pos_type& input) const
   {
-    const pos_type max_uint64 = pos_type(std::numeric_limits<uint64_t>::max()) + pos_type(1u);
-    uint64_t less = uint64_t(input % max_uint64);
-    uint64_t more = input / max_uint64;
+    // A stream position fits in the least significant word
+    uint64_t less = uint64_t(off_type(input));
+    uint64_t more = 0;
     // NOTE comment on priv_pos_type_t
     return (QDPUtil::big_endian() ? priv_pos_type_t{more, less} : priv_pos_type_t{less, more});
   }
@@ -222,12 +222,8 @@ namespace QDP
   typename MapObjectDisk<K,V>::pos_type 
   MapObjectDisk<K,V>::convertFromPrivate(const priv_pos_type_t& input) const
   {
-    const pos_type max_uint64 = pos_type(std::numeric_limits<uint64_t>::max()) + pos_type(1u);
     // NOTE comment on priv_pos_type_t
-    if (!QDPUtil::big_endian())
-      return pos_type(input[0]) + pos_type(input[1]) * max_uint64;
-    else
-      return pos_type(input[1]) + pos_type(input[0]) * max_uint64;
+    return pos_type(off_type(QDPUtil::big_endian() ? input[1] : input[0]));
   }
 
 
-- 
2.43.0


From b4d27cab96a899c77e4ac812d414217d5962698e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:16:43 +0000
Subject: [PATCH 20/31] fix: MapObjectDisk wrote a new record over an old one
 after a lookup or overwrite

---
 include/qdp_map_obj_disk.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index 72a29bb..2639400 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -579,6 +579,9 @@ namespace QDP
       else {
 	// Key does not exist
 
+	// New records go at the end: a lookup or an overwrite may have moved the position
+	streamer.seekEnd(0);
+
 	// Make note of current writer position
 	pos_type pos = streamer.currentPosition();
       
-- 
2.43.0


From d4de112697db4479f9435ffc2c83aa6270b10820 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:16:43 +0000
Subject: [PATCH 21/31] fix: MapObjectDisk kept the keys of the file it had
 closed

---
 include/qdp_map_obj_disk.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/qdp_map_obj_disk.h b/include/qdp_map_obj_disk.h
index 2639400..f931c12 100644
--- a/include/qdp_map_obj_disk.h
+++ b/include/qdp_map_obj_disk.h
@@ -418,6 +418,8 @@ namespace QDP
       break;
     }
 
+    // The positions belong to the file just closed
+    src_map.clear();
     state = INIT;
   }
   
-- 
2.43.0


From c5d4fa5595fe452b768d91536640dcabdcab0193 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:20:22 +0000
Subject: [PATCH 22/31] fix: MapObjectDiskMultiple could not be closed twice
 and took missing files for present ones

---
 include/qdp_map_obj_disk_multiple.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/qdp_map_obj_disk_multiple.h b/include/qdp_map_obj_disk_multiple.h
index 3dfe3aa..26e648a 100644
--- a/include/qdp_map_obj_disk_multiple.h
+++ b/include/qdp_map_obj_disk_multiple.h
@@ -52,9 +52,9 @@ namespace QDP
     bool fileExists(const std::vector<std::string>& files) const
     {
       bool ret = true;
-      for(int i=0; i < dbs_.size(); ++i)
+      for(int i=0; i < files.size(); ++i)
       {
-	ret = dbs_[i]->fileExists(files[i]);
+	ret = ! MapObjDiskEnv::checkForNewFile(files[i], std::ios_base::in);
 	if (! ret)
 	  return ret;
       }
@@ -71,6 +71,7 @@ namespace QDP
 	dbs_[i]->close();
 	delete dbs_[i];
       }
+      dbs_.clear();
     }
 
 
-- 
2.43.0


From 024cd25a684e8dbc18db94740a613d42f992ac66 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 23/31] fix: uniquify_list read past the end of an empty list

---
 lib/qdp_util.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/qdp_util.cc b/lib/qdp_util.cc
index 21cb785..bc07713 100644
--- a/lib/qdp_util.cc
+++ b/lib/qdp_util.cc
@@ -129,6 +129,10 @@ uniquify_list(const multi1d<int>& ll)
 {
   multi1d<int> d(ll.size());
 
+  // There is no first element to prime the search with
+  if (ll.size() == 0)
+    return d;
+
   // Enter the first element as unique to prime the search
   int ipos = 0;
   int num = 0;
-- 
2.43.0


From 8625e50b619d45138b30408587ff7dfaf8c66847 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 24/31] fix: thread ranges overflowed int on large local
 volumes

---
 include/qdp_dispatch.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qdp_dispatch.h b/include/qdp_dispatch.h
index fa38077..be6570e 100644
--- a/include/qdp_dispatch.h
+++ b/include/qdp_dispatch.h
@@ -39,14 +39,14 @@ void dispatch_to_threads(int numSiteTable, Arg a, void (*func)(int,int,int, Arg*
       int active_threads_num = threads_num > numSiteTable ? numSiteTable : threads_num;
 
       if( myId < numSiteTable ) {
-    	  int low = (numSiteTable*myId)/active_threads_num;
+    	  int low = (int)(((long long)numSiteTable*myId)/active_threads_num);
 
       	  // NB: high can never be too high since for the last thread
       	  // myId + 1 = (threads_num - 1) + 1 = threads_num.
       	  // So numSiteTable*(myId+1) will always be a strict multiple of threads_num
       	  // and so truncation issues will not bite.
       	  // I am addig in the parentheses tho to force the precedence
-      	  int high =(numSiteTable*(myId+1))/active_threads_num;
+      	  int high = (int)(((long long)numSiteTable*(myId+1))/active_threads_num);
  
       	  func(low, high, myId, &a);
       }
-- 
2.43.0


From 429aeccce8f6eee6ac3b353c58a1e9494fe00701 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:31:08 +0000
Subject: [PATCH 25/31] fix: the message-passing build did not compile without
 libxml2

---
 include/qdp_parscalar_specific.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/qdp_parscalar_specific.h b/include/qdp_parscalar_specific.h
index 2b41ebb..ddfbca4 100644
--- a/include/qdp_parscalar_specific.h
+++ b/include/qdp_parscalar_specific.h
@@ -2492,6 +2492,7 @@ void read(BinaryReader& bin, OScalar<T>& d)
 //! Decompose a lexicographic site into coordinates
 multi1d<int> crtesn(int ipos, const multi1d<int>& latt_size);
 
+#if defined(QDP_USE_LIBXML2)
 //! XML output
 template<class T>	 
 XMLWriter& operator<<(XMLWriter& xml, const OLattice<T>& d)
@@ -2548,6 +2549,7 @@ XMLWriter& operator<<(XMLWriter& xml, const OLattice<T>& d)
 	xml.closeTag(); // OLattice
 	return xml;
 }
+#endif
 
 
 //! Write a lattice quantity
-- 
2.43.0


From 7f5066fc95b46c38a88d07407b3ad42f005a5972 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 26/31] fix: Layout::create accepted machine grids that do not
 divide the lattice

---
 lib/qdp_parscalar_layout.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/qdp_parscalar_layout.cc b/lib/qdp_parscalar_layout.cc
index 8f925a3..f799313 100644
--- a/lib/qdp_parscalar_layout.cc
+++ b/lib/qdp_parscalar_layout.cc
@@ -295,6 +295,11 @@ namespace QDP
       {
 	_layout.logical_coord[i] = phys_coord[i];
 	_layout.logical_size[i] = phys_size[i];
+
+	// Each node must hold a multiple of the smallest size allowed
+	if (nrow[i] % _layout.logical_size[i] != 0)
+	  QDP_error_exit("Layout::create - problem size in direction %d not divisible by the logical machine size", i);
+
 	_layout.subgrid_nrow[i] = _layout.nrow[i] / _layout.logical_size[i];
 
 	_layout.subgrid_vol *= _layout.subgrid_nrow[i];
-- 
2.43.0


From 8279065e86ff1baa8cf54a6e9dcd348def07bcc9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 27/31] fix: the reductions of a bool over the nodes accessed
 it as an int

---
 include/qdp_parscalar_specific.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qdp_parscalar_specific.h b/include/qdp_parscalar_specific.h
index ddfbca4..6e61852 100644
--- a/include/qdp_parscalar_specific.h
+++ b/include/qdp_parscalar_specific.h
@@ -195,7 +195,7 @@ namespace QDPInternal
   //! Global And
   inline void globalCheckAnd(void* inout, void* in)
   {
-    *(unsigned int*)inout = *(unsigned int*)inout & *(unsigned int*)in;
+    *(bool*)inout = *(bool*)inout && *(bool*)in;
   }
 
   //! Wrapper to get a functional global And
@@ -209,7 +209,7 @@ namespace QDPInternal
   //! Global Or
   inline void globalCheckOr(void* inout, void* in)
   {
-    *(unsigned int*)inout = *(unsigned int*)inout | *(unsigned int*)in;
+    *(bool*)inout = *(bool*)inout || *(bool*)in;
   }
 
   //! Wrapper to get a functional global Or
-- 
2.43.0


From ce4d57e91d11e0687651b91403ec229c3a0eee1a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 28/31] fix: the ready signal of writeOLattice overran the
 buffer of small sites

---
 lib/qdp_parscalar_specific.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/qdp_parscalar_specific.cc b/lib/qdp_parscalar_specific.cc
index 3298c3b..1da4ff0 100644
--- a/lib/qdp_parscalar_specific.cc
+++ b/lib/qdp_parscalar_specific.cc
@@ -400,7 +400,8 @@ namespace QDP {
       if (node != old_node)
       {
 	// On non-grid machines, use a clear-to-send like protocol
-	QDPInternal::clearToSend(recv_buf,sizeof(int),node);
+	int ready = 0;   // recv_buf may be smaller than an int
+	QDPInternal::clearToSend(&ready,sizeof(int),node);
 	old_node = node;
       }
     
@@ -454,7 +455,8 @@ namespace QDP {
 
     // Send nodes must wait for a ready signal from the master node
     // to prevent message pileups on the master node
-    QDPInternal::clearToSend(recv_buf,sizeof(int),node);
+    int ready = 0;   // recv_buf may be smaller than an int
+    QDPInternal::clearToSend(&ready,sizeof(int),node);
   
     // Copy to buffer: be really careful since max(linear) could vary among nodes
     if (Layout::nodeNumber() == node)
@@ -524,7 +526,8 @@ namespace QDP {
       if (node != old_node)
       {
 	// On non-grid machines, use a clear-to-send like protocol
-	QDPInternal::clearToSend(recv_buf,sizeof(int),node);
+	int ready = 0;   // recv_buf may be smaller than an int
+	QDPInternal::clearToSend(&ready,sizeof(int),node);
 	old_node = node;
       }
     
@@ -868,7 +871,8 @@ namespace QDP {
 	// to prevent message pileups on the master node
 	if (node != old_node){
 	  // On non-grid machines, use a clear-to-send like protocol
-	  QDPInternal::clearToSend(recv_buf,sizeof(int),node);
+	  int ready = 0;   // recv_buf may be smaller than an int
+  QDPInternal::clearToSend(&ready,sizeof(int),node);
 	  old_node = node;}
     
 	// Copy to buffer: be really careful since max(linear) could vary among nodes
-- 
2.43.0


From fed5378af1d4df080375751e48d9f95b1c3fde64 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 29/31] fix: lattice files were scrambled in the cb3d layout
 with time spread over nodes

---
 lib/qdp_parscalar_specific.cc | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/lib/qdp_parscalar_specific.cc b/lib/qdp_parscalar_specific.cc
index 1da4ff0..634bcd7 100644
--- a/lib/qdp_parscalar_specific.cc
+++ b/lib/qdp_parscalar_specific.cc
@@ -373,12 +373,24 @@ namespace QDP {
   };
 
 
+//-----------------------------------------------------------------------------
+  //! Number of successive sites in the order of crtesn that live on one node
+  static int segmentSize()
+  {
+#if QDP_USE_CB3D_LAYOUT == 1
+    return Layout::subgridLattSize()[Nd-1];   // time runs fastest
+#else
+    return Layout::subgridLattSize()[0];
+#endif
+  }
+
+
 //-----------------------------------------------------------------------------
 // Write a lattice quantity
   void writeOLattice(BinaryWriter& bin, 
 		     const char* output, size_t size, size_t nmemb)
   {
-    const int xinc = Layout::subgridLattSize()[0];
+    const int xinc = segmentSize();
 
     size_t sizemem = size*nmemb;
     size_t tot_size = sizemem*xinc;
@@ -494,7 +506,7 @@ namespace QDP {
     const multi1d<int>& lat_color = set.latticeColoring();
     const int color = sub.color();
 
-    const int xinc = Layout::subgridLattSize()[0];
+    const int xinc = segmentSize();
 
     size_t sizemem = size*nmemb;
     size_t max_tot_size = sizemem*xinc;
@@ -586,7 +598,7 @@ namespace QDP {
   void readOLattice(BinaryReader& bin, 
 		    char* input, size_t size, size_t nmemb)
   {
-    const int xinc = Layout::subgridLattSize()[0];
+    const int xinc = segmentSize();
 
     size_t sizemem = size*nmemb;
     size_t tot_size = sizemem*xinc;
@@ -685,7 +697,7 @@ namespace QDP {
     const multi1d<int>& lat_color = set.latticeColoring();
     const int color = sub.color();
 
-    const int xinc = Layout::subgridLattSize()[0];
+    const int xinc = segmentSize();
 
     size_t sizemem = size*nmemb;
     size_t max_tot_size = sizemem*xinc;
@@ -789,7 +801,7 @@ namespace QDP {
 			   size_t size, size_t nmemb,
 			   int start_lexico, int stop_lexico)
     {
-      const int xinc = Layout::subgridLattSize()[0];
+      const int xinc = segmentSize();
 
       if ((stop_lexico % xinc) != 0)
       {
@@ -845,7 +857,7 @@ namespace QDP {
 			    size_t size, size_t nmemb,
 			    int start_lexico, int stop_lexico)
     {
-      const int xinc = Layout::subgridLattSize()[0];
+      const int xinc = segmentSize();
 
       if ((stop_lexico % xinc) != 0)
       {
-- 
2.43.0


From 9c324a49e31f52eaeeee2f655b6a7d1df0253476 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:46:37 +0000
Subject: [PATCH 30/31] fix: gaussian() of a scalar object did not exist
 (declared for a type that cannot be used)

---
 include/qdp_outer.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/qdp_outer.h b/include/qdp_outer.h
index 2bae99e..22877cf 100644
--- a/include/qdp_outer.h
+++ b/include/qdp_outer.h
@@ -1459,12 +1459,12 @@ void random(OScalar<T>& d);
 
 //! dest  = gaussian
 template<class T>
-void gaussian(OSubScalar<T>& d)
+void gaussian(OScalar<T>& d)
 {
   OScalar<T>  r1, r2;
 
-  random(OSubScalar<T>(r1,d.subset()));
-  random(OSubScalar<T>(r2,d.subset()));
+  random(r1);
+  random(r2);
 
   fill_gaussian(d.elem(), r1.elem(), r2.elem());
 }
-- 
2.43.0


From 562b2c4b5dd13068a626ababa4fa0eec17e2c6b1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:53:49 +0000
Subject: [PATCH 31/31] fix: files of the cb3d layouts were written with time
 running fastest

crtesn() and local_site() decompose the lexicographic index that orders sites
in files and archives. In the 3d checkerboarded layouts they were redefined to
let time run fastest, so lattice fields, time slices and NERSC archives could
not be exchanged with the other layouts, and time slices picked wrong sites.
Keep that order for the layout itself under names of its own.
---
 include/qdp_util.h            |  8 ++++++++
 lib/qdp_layout.cc             | 14 ++++++--------
 lib/qdp_parscalar_layout.cc   |  4 ++--
 lib/qdp_parscalar_specific.cc | 24 ++++++------------------
 lib/qdp_scalar_layout.cc      |  4 ++--
 5 files changed, 24 insertions(+), 30 deletions(-)

diff --git a/include/qdp_util.h b/include/qdp_util.h
index 935d995..f69128f 100644
--- a/include/qdp_util.h
+++ b/include/qdp_util.h
@@ -16,6 +16,14 @@ multi1d<int> crtesn(int ipos, const multi1d<int>& latt_size);
 //! Calculates the lexicographic site index from the coordinate of a site
 int local_site(const multi1d<int>& coord, const multi1d<int>& latt_size);
 
+#if QDP_USE_CB3D_LAYOUT == 1
+//! Decompose the index of a site into coordinates, time running fastest
+multi1d<int> crtesn_time_fastest(int ipos, const multi1d<int>& latt_size);
+
+//! Calculates the site index from the coordinate of a site, time running fastest
+int local_site_time_fastest(const multi1d<int>& coord, const multi1d<int>& latt_size);
+#endif
+
 //! Unique-ify a list
 multi1d<int> uniquify_list(const multi1d<int>& ll);
 
diff --git a/lib/qdp_layout.cc b/lib/qdp_layout.cc
index 711aa62..8b2abe5 100644
--- a/lib/qdp_layout.cc
+++ b/lib/qdp_layout.cc
@@ -68,7 +68,8 @@ namespace QDP {
 
 #if QDP_USE_CB3D_LAYOUT == 1
 
-	multi1d<int> crtesn(int ipos, const multi1d<int>& latt_size)
+	//! Decompose the index of a site into coordinates, time running fastest
+	multi1d<int> crtesn_time_fastest(int ipos, const multi1d<int>& latt_size)
 	{
 		multi1d<int> coord(latt_size.size());
 		int Ndim=latt_size.size() - 1; // Last elem latt size
@@ -94,12 +95,12 @@ namespace QDP {
 		return coord;
 	}
   
-	//! Calculates the lexicographic site index from the coordinate of a site
+	//! Calculates the site index from the coordinate of a site, time running fastest
 	/*! 
 	* Nothing specific about the actual lattice size, can be used for 
 	* any kind of latt size 
 	*/
-	int local_site(const multi1d<int>& coord, const multi1d<int>& latt_size)
+	int local_site_time_fastest(const multi1d<int>& coord, const multi1d<int>& latt_size)
 	{
 		int order = 0;
 
@@ -119,7 +120,8 @@ namespace QDP {
 	}
 
 
-#else
+#endif
+
 	// Usual lattice decomposition -- x fastest, t slowest
 	//! Decompose a lexicographic site into coordinates
 	multi1d<int> crtesn(int ipos, const multi1d<int>& latt_size)
@@ -162,8 +164,4 @@ namespace QDP {
 		return order;
 	}
 
-#endif
-
-
-
 } // namespace QDP;
diff --git a/lib/qdp_parscalar_layout.cc b/lib/qdp_parscalar_layout.cc
index f799313..a20bd60 100644
--- a/lib/qdp_parscalar_layout.cc
+++ b/lib/qdp_parscalar_layout.cc
@@ -573,7 +573,7 @@ QDPXX_MESSAGE("Using a 3D checkerboard (red/black) layout")
       for(int i=1; i < Nd; ++i)
 	subgrid_cb_coord[i] = coord[i] % subgrid_cb_nrow[i];
     
-      return local_site(subgrid_cb_coord, subgrid_cb_nrow) + cb*subgrid_vol_cb;
+      return local_site_time_fastest(subgrid_cb_coord, subgrid_cb_nrow) + cb*subgrid_vol_cb;
     }
 
 
@@ -611,7 +611,7 @@ QDPXX_MESSAGE("Using a 3D checkerboard (red/black) layout")
       coord *= Layout::subgridLattSize();
     
       int cb = linearsite / subgrid_vol_cb;
-      multi1d<int> tmp_coord = crtesn(linearsite % subgrid_vol_cb, subgrid_cb_nrow);
+      multi1d<int> tmp_coord = crtesn_time_fastest(linearsite % subgrid_vol_cb, subgrid_cb_nrow);
 
       
 
diff --git a/lib/qdp_parscalar_specific.cc b/lib/qdp_parscalar_specific.cc
index 634bcd7..1da4ff0 100644
--- a/lib/qdp_parscalar_specific.cc
+++ b/lib/qdp_parscalar_specific.cc
@@ -373,24 +373,12 @@ namespace QDP {
   };
 
 
-//-----------------------------------------------------------------------------
-  //! Number of successive sites in the order of crtesn that live on one node
-  static int segmentSize()
-  {
-#if QDP_USE_CB3D_LAYOUT == 1
-    return Layout::subgridLattSize()[Nd-1];   // time runs fastest
-#else
-    return Layout::subgridLattSize()[0];
-#endif
-  }
-
-
 //-----------------------------------------------------------------------------
 // Write a lattice quantity
   void writeOLattice(BinaryWriter& bin, 
 		     const char* output, size_t size, size_t nmemb)
   {
-    const int xinc = segmentSize();
+    const int xinc = Layout::subgridLattSize()[0];
 
     size_t sizemem = size*nmemb;
     size_t tot_size = sizemem*xinc;
@@ -506,7 +494,7 @@ namespace QDP {
     const multi1d<int>& lat_color = set.latticeColoring();
     const int color = sub.color();
 
-    const int xinc = segmentSize();
+    const int xinc = Layout::subgridLattSize()[0];
 
     size_t sizemem = size*nmemb;
     size_t max_tot_size = sizemem*xinc;
@@ -598,7 +586,7 @@ namespace QDP {
   void readOLattice(BinaryReader& bin, 
 		    char* input, size_t size, size_t nmemb)
   {
-    const int xinc = segmentSize();
+    const int xinc = Layout::subgridLattSize()[0];
 
     size_t sizemem = size*nmemb;
     size_t tot_size = sizemem*xinc;
@@ -697,7 +685,7 @@ namespace QDP {
     const multi1d<int>& lat_color = set.latticeColoring();
     const int color = sub.color();
 
-    const int xinc = segmentSize();
+    const int xinc = Layout::subgridLattSize()[0];
 
     size_t sizemem = size*nmemb;
     size_t max_tot_size = sizemem*xinc;
@@ -801,7 +789,7 @@ namespace QDP {
 			   size_t size, size_t nmemb,
 			   int start_lexico, int stop_lexico)
     {
-      const int xinc = segmentSize();
+      const int xinc = Layout::subgridLattSize()[0];
 
       if ((stop_lexico % xinc) != 0)
       {
@@ -857,7 +845,7 @@ namespace QDP {
 			    size_t size, size_t nmemb,
 			    int start_lexico, int stop_lexico)
     {
-      const int xinc = segmentSize();
+      const int xinc = Layout::subgridLattSize()[0];
 
       if ((stop_lexico % xinc) != 0)
       {
diff --git a/lib/qdp_scalar_layout.cc b/lib/qdp_scalar_layout.cc
index 61dc62a..50b097f 100644
--- a/lib/qdp_scalar_layout.cc
+++ b/lib/qdp_scalar_layout.cc
@@ -380,7 +380,7 @@ QDPXX_MESSAGE("Using a 2 checkerboard (red/black) layout but in 3D. Time running
       int cb = linearsite / vol_cb;
 
       // This now uses crtesn with the t running fastest
-      multi1d<int> coord = crtesn(linearsite % vol_cb, cb_nrow);
+      multi1d<int> coord = crtesn_time_fastest(linearsite % vol_cb, cb_nrow);
 
       int cbb = cb;
       for(int m=1; m<coord.size()-1; ++m) // Nd-1 checkerboard
@@ -412,7 +412,7 @@ QDPXX_MESSAGE("Using a 2 checkerboard (red/black) layout but in 3D. Time running
       cb = cb & 1;
 
       // Use funky local site 
-      return local_site(cb_coord, cb_nrow) + cb*vol_cb;
+      return local_site_time_fastest(cb_coord, cb_nrow) + cb*vol_cb;
     }
   }
 
-- 
2.43.0


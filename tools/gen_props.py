#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

NOTEST = "The existing tests are BLAS/matrix-kernel comparisons on one lattice; "

prop("L01", "Site numbering is a bijection between coordinates and linear sites",
 "For every lattice shape a layout accepts, mapping a coordinate to its linear site and back returns the coordinate, every linear site from 0 to the volume minus one is hit exactly once, and the coordinate lattice field agrees with this numbering. In the checkerboarded layouts each checkerboard occupies one contiguous half, and lexicographic numbering (first coordinate fastest) is exactly invertible.",
 ["inputs", "configurations"], "all coordinates of all lattice shapes, for each of the compile-time layouts",
 NOTEST + "they use one hypercubic lattice in one layout and never compare the two directions of the mapping.",
 ["lib/qdp_scalar_layout.cc", "lib/qdp_layout.cc", "include/qdp_layout.h"],
 [("linearSiteIndex/siteCoords", "lib/qdp_scalar_layout.cc"), ("crtesn/local_site", "lib/qdp_layout.cc"), ("latticeCoordinate", "include/qdp_scalar_specific.h")])

prop("L02", "Subsets of a set partition the lattice by the user's colouring",
 "For any user colouring function, a site belongs to the subset of a colour exactly when the function returns that colour at its coordinate: every site is listed in exactly one subset's site table, once, in increasing order. The contiguous-range description of a subset (first site, last site, ordered flag) describes the same sites as its table. The predefined even/odd, red/black and whole-lattice subsets follow coordinate parity.",
 ["inputs", "configurations"], "all colouring functions (any assignment of colours to sites) on small lattices, the predefined colourings on many shapes",
 NOTEST + "no test creates a user set, and tests cover no irregular colouring for which the contiguous shortcut must be refused.",
 ["lib/qdp_subset.cc", "include/qdp_subset.h", "lib/qdp_scalar_specific.cc"],
 [("Set::make", "lib/qdp_scalar_specific.cc"), ("initDefaultSets", "lib/qdp_subset.cc"), ("Subset", "include/qdp_subset.h")])

prop("L03", "A copied set stays valid independently of the original",
 "Copying or assigning a set yields a set with the same colours and sites, and the copy keeps working after the original is remade with another colouring or destroyed. A copied subset names the same sites for as long as its set is alive and not remade.",
 ["histories"], "all sequences of make, copy, assign, remake and destroy up to a small length over arbitrary colourings",
 NOTEST + "no test copies a set.",
 ["lib/qdp_subset.cc", "include/qdp_subset.h"],
 [("Set copy/assign", "lib/qdp_subset.cc"), ("Subset copy/assign", "lib/qdp_subset.cc")])

prop("M01", "Nearest-neighbour shifts move every site by one with periodic wrap",
 "Shifting a field forward or backward in a direction gives, at every site, the value of the argument at the neighbouring coordinate in that direction with periodic wrap-around. This holds for every element type, for expression arguments, in subset assignments, and shifting forward and then backward is the identity.",
 ["inputs", "configurations"], "every field value, direction, sign, site and a family of lattice shapes including extents 1 and 2",
 NOTEST + "shifts are only exercised through plaquettes on one lattice, where index permutation errors can cancel.",
 ["lib/qdp_map.cc", "lib/qdp_scalar_specific.cc", "include/qdp_scalar_specific.h", "include/qdp_map.h"],
 [("ArrayBiDirectionalMap/NearestNeighborMap", "lib/qdp_map.cc"), ("Map::operator()", "include/qdp_scalar_specific.h")])

prop("M02", "User-defined maps gather from exactly the site the user function names",
 "For any user site-to-site function, a communication map built from it yields at each site the value of the source field at the function's image of that site; direction-indexed and sign-indexed maps select the function for that direction and sign. When the function is a permutation, the backward map undoes the forward map.",
 ["inputs"], "every site function on small lattices (arbitrary symbolic image per site), every field value, every direction/sign",
 NOTEST + "no test builds a user map, and none can cover all functions.",
 ["lib/qdp_scalar_specific.cc", "lib/qdp_map.cc", "include/qdp_map.h", "include/qdp_scalar_specific.h"],
 [("Map::make", "lib/qdp_scalar_specific.cc"), ("ArrayMap/BiDirectionalMap/ArrayBiDirectionalMap", "lib/qdp_map.cc")])

prop("E01", "Assignments touch exactly the sites of the target subset",
 "An assignment or compound assignment restricted to a subset changes exactly the sites of that subset and gives each the value of the right-hand side evaluated at that site; every other site keeps its old value bit for bit. This includes zeroing, filling, copying under a mask and assignments from scalars.",
 ["inputs", "programs"], "every field value and every colouring on small lattices, all assignment operators",
 NOTEST + "they only use whole-lattice or predefined subsets with sampled values and do not look outside the subset.",
 ["include/qdp_scalar_specific.h", "include/qdp_qdpsubtype.h", "include/qdp_outer.h"],
 [("evaluate(dest, op, rhs, subset)", "include/qdp_scalar_specific.h"), ("zero_rep/copymask", "include/qdp_scalar_specific.h")])

prop("E02", "Field expressions evaluate site by site to the scalar formula",
 "A data-parallel expression assigned to a field gives at each site the value the same formula gives on that site's scalar objects, for every operator and function; broadcasting a scalar object over the lattice behaves as that object at every site. The result does not depend on whether the destination also appears, unshifted, in the expression, nor on splitting the expression with temporaries.",
 ["inputs", "programs"], "every field value for a representative set of expressions over all element types",
 NOTEST + "aliasing and mixed-type expressions are not tested.",
 ["include/QDPOperators.h", "include/qdp_scalar_specific.h", "include/qdp_newops.h", "include/qdp_outer.h"],
 [("evaluate", "include/qdp_scalar_specific.h"), ("operators", "include/QDPOperators.h")])

prop("R01", "Global sums add every selected site exactly once",
 "Sums, squared norms, inner products, and their real and component-wise variants over the lattice or a subset equal the sum over exactly the sites of that subset of the per-site quantity, in the order-independent (exact arithmetic) sense. Sums over all colours of a set give, per colour, the sum over that colour's subset, and array forms equal the element-wise results.",
 ["inputs", "configurations"], "every field value, arbitrary colourings and predefined subsets, on small lattices",
 NOTEST + "they compare kernels against each other with a tolerance on random data, so a dropped or doubled site on unusual subsets goes unseen.",
 ["include/qdp_scalar_specific.h", "include/qdp_globalfuncs.h"],
 [("sum/norm2/innerProduct/innerProductReal/sumMulti", "include/qdp_scalar_specific.h")])

prop("R02", "Global extremes and lattice predicates consider every site",
 "The global maximum and minimum of a real field equal the largest and smallest site value, wherever they occur and whatever the signs. The lattice predicates report a NaN or an infinity in any component of any site, and finiteness and normality only when every component of every site has it.",
 ["inputs"], "every real field value on small lattices",
 NOTEST + "no test calls the extreme reductions.",
 ["include/qdp_scalar_specific.h", "include/qdp_primmatrix.h", "include/qdp_primvector.h", "include/qdp_reality.h"],
 [("globalMax/globalMin/isnan/isinf/isfinite/isnormal", "include/qdp_scalar_specific.h")])

prop("A01", "Complex arithmetic obeys the field definitions",
 "Addition, subtraction, multiplication, division, conjugation, negation, multiplication by i and minus i, real and imaginary parts, squared modulus, inner products and mixed real-complex operations on complex numbers agree with the textbook definitions, in value, in-place and fused (conjugate-times) forms.",
 ["inputs"], "all operand values (over the reals)",
 NOTEST + "only a complex multiply in double precision is sampled.",
 ["include/qdp_reality.h", "include/qdp_simpleword.h"],
 [("RComplex/RScalar operators", "include/qdp_reality.h")])

prop("A02", "Matrix and vector algebra in colour and spin space is linear algebra",
 "Products of matrices and vectors, adjoint-product variants, sums, scalar multiples, transpose, conjugate, adjoint, trace, real and imaginary trace, squared norms, inner and outer products on colour and spin objects equal the index formulas, at every nesting level; partial traces, transposes and determinants-like contractions act only on their own index space.",
 ["inputs", "programs"], "all operand values (over the reals), for every object type colour x spin",
 NOTEST + "they sample matrix products through the optimised kernels only.",
 ["include/qdp_primmatrix.h", "include/qdp_primvector.h", "include/qdp_primcolormat.h", "include/qdp_primspinmat.h", "include/qdp_primscalar.h", "include/qdp_globalfuncs.h"],
 [("PMatrix/PVector/PScalar operators", "include/qdp_primmatrix.h"), ("quarkContractXX", "include/qdp_primspinmat.h"), ("colorContract", "include/qdp_primcolormat.h")])

prop("A03", "Spin basis matrices satisfy the Dirac algebra consistently",
 "The sixteen gamma-matrix products act on spinors and spin matrices, from the left and right, as fixed matrices with the documented binary encoding: the generators anticommute, square to one and are hermitian, and each encoded product equals the product of its generators in order. The compile-time, run-time and alternative-basis forms agree with their own generators.",
 ["inputs"], "all spinor and spin-matrix values (over the reals), all sixteen products, left and right action, both bases",
 NOTEST + "no test touches the gamma algebra.",
 ["include/qdp_primgamma.h", "include/qdp_primspinmat.h", "include/qdp_primspinvec.h"],
 [("GammaConst/GammaType/GammaConstDP/GammaTypeDP", "include/qdp_primgamma.h")])

prop("A04", "Spin projection and reconstruction implement the chiral projectors",
 "For each direction and sign, projecting a four-spinor to a half-spinor and reconstructing it equals applying one plus-or-minus the gamma matrix of that direction, and accumulating reconstruction adds exactly that. The specialised, fused (with link multiplication) and field-wise forms agree with the definition on every site of any subset.",
 ["inputs", "configurations"], "all spinor and link values (over the reals), all directions and signs, all subset shapes",
 NOTEST + "no test calls projections.",
 ["include/qdp_primspinvec.h", "include/scalarsite_generic/generic_spin_proj_inlines.h", "include/scalarsite_generic/generic_fused_spin_proj.h", "include/scalarsite_generic/generic_fused_spin_recon.h", "include/scalarsite_generic/generic_spin_recon_inlines.h"],
 [("spinProjectDir*/spinReconstructDir*", "include/qdp_primspinvec.h"), ("fused evaluates", "include/scalarsite_generic")])

prop("K01", "Optimised vector kernels equal the generic expression",
 "Every expression for which an optimised kernel is selected (scaled additions and subtractions, scalings, sums, with real and complex coefficients, with chiral projection, in fresh-destination and in-place forms) gives at each selected site the value of the plain definition and leaves other sites alone, whether the subset is contiguous or scattered.",
 ["inputs", "configurations", "programs"], "all coefficient and spinor values (over the reals), contiguous and scattered subsets, both site-kernel back ends",
 "The tests compare a few double-precision kernels with tolerances on random data over whole checkerboards; scattered subsets, aliasing and most kernels are not reached.",
 ["include/scalarsite_generic/qdp_scalarsite_generic_blas.h", "include/scalarsite_generic/qdp_scalarsite_generic_blas_g5.h", "include/scalarsite_generic/qdp_scalarsite_generic_cblas.h", "lib/qdp_scalarsite_specific.cc"],
 [("evaluate specialisations", "include/scalarsite_generic")])

prop("K02", "Optimised SU(3) matrix kernels equal the generic matrix product",
 "Products of three-by-three colour matrices with matrices, vectors and half-vectors, with any factor adjointed, and their add and subtract accumulating forms give the index formula on every selected site, whichever specialised implementation is selected, also when the destination aliases an operand.",
 ["inputs", "configurations"], "all matrix and vector values (over the reals), all adjoint combinations, aliasing patterns",
 "The tests sample matrix-matrix kernels in double precision with random data and never alias operands.",
 ["include/scalarsite_generic/qdp_scalarsite_generic_linalg.h", "lib/scalarsite_sse/qdp_scalarsite_linalg_double.cc", "include/scalarsite_generic/generic_mult_nn.h"],
 [("evaluate specialisations for colour matrices", "include/scalarsite_generic/qdp_scalarsite_generic_linalg.h")])

prop("K03", "Double-precision SIMD kernels equal their scalar definition",
 "Each hand-vectorised double-precision kernel (vector updates, scalings, squared norms, complex and real inner products, small matrix products in all adjoint forms, matrix accumulation and scaling) equals its scalar formula for every input length it may be called with, reading and writing only within the arrays it is given.",
 ["inputs"], "all vector and matrix values (over the reals), a range of lengths covering each remainder of the unrolling",
 "The tests use random data on one length and a tolerance; remainders of the unrolled loops and out-of-range accesses are not checked.",
 ["lib/scalarsite_sse/sse_blas_vaxpy4_double.cc", "lib/scalarsite_sse/sse_blas_local_vcdot_double.cc", "lib/scalarsite_sse/sse_linalg_m_eq_mm_double.cc"],
 [("vaxpyz4/vaxpbyz4/vscal4/local_sumsq/local_vcdot/ssed_m_eq_*", "lib/scalarsite_sse")])

prop("C01", "Element access reads and writes exactly the named element",
 "Peeking a site, colour or spin component returns that component; poking it changes that component at that place only and nothing else. Extracting a field to a per-site array and inserting it back is the identity on the selected sites and follows site order.",
 ["inputs"], "all field values, all index combinations, all sites of small lattices",
 NOTEST + "no test enumerates components or looks for collateral changes.",
 ["include/qdp_scalar_specific.h", "include/qdp_primvector.h", "include/qdp_primmatrix.h", "include/qdp_globalfuncs.h"],
 [("peekSite/pokeSite/peekColor/pokeColor/peekSpin/pokeSpin", "include/qdp_scalar_specific.h"), ("QDP_extract/QDP_insert", "include/qdp_scalar_specific.h")])

prop("C02", "Conditionals, comparisons and masks select per site",
 "Comparisons and logical operations on fields give, per site, the truth value of the scalar comparison; selecting between two expressions by a mask gives at each site the operand named by that site's mask value, and masked copies change exactly the sites whose mask is true.",
 ["inputs"], "all masks and all field values on small lattices",
 NOTEST + "no test uses masks.",
 ["include/qdp_newops.h", "include/qdp_outer.h", "include/qdp_scalar_specific.h", "include/qdp_reality.h"],
 [("where/copymask", "include/qdp_outer.h")])

prop("G01", "Random-seed arithmetic is exact modulo 2^47",
 "Seeds are 47-bit integers held in four limbs; multiplying seeds is exact multiplication modulo 2^47, comparison is exact equality, raising to integer powers and seed shifts follow, and reading back a seed set by the user returns it.",
 ["inputs"], "all pairs of 47-bit seeds",
 NOTEST + "the generator is used only through sampled fields, where a lost carry on rare limb patterns cannot be seen.",
 ["include/qdp_primseed.h", "lib/qdp_random.cc"],
 [("PSeed multiply/compare", "include/qdp_primseed.h")])

prop("G02", "Random fields are the site-ordered pieces of one sequential stream",
 "Filling a field with random numbers gives each site the numbers a single sequential generator would produce for it in lexicographic site order, so fields do not depend on the memory layout, and the seed afterwards equals the sequential generator's seed. Setting the seed restores the stream exactly, and subset fills give the selected sites the same numbers as a full fill and advance the seed as much, even when the subset is empty.",
 ["inputs", "configurations", "histories"], "all seeds, small lattices in each layout, all splits of a fill into subset fills",
 NOTEST + "they only consume random numbers.",
 ["lib/qdp_random.cc", "include/qdp_scalar_specific.h", "include/qdp_random.h"],
 [("RNG::sranf/initDefaultRNG/setrn/savern", "lib/qdp_random.cc"), ("random(OLattice)", "include/qdp_scalar_specific.h")])

prop("G03", "Uniform deviates lie in the unit interval and are the seed's fraction",
 "Every uniform deviate generated from any seed is at least zero and at most one (one only by rounding), equals the seed's 47-bit fraction to single precision, and drawing one advances the seed by exactly one multiplication.",
 ["inputs"], "all 2^47 seeds, in IEEE arithmetic",
 NOTEST + "sampling cannot reach the rare seeds that round up to one.",
 ["include/qdp_primseed.h", "lib/qdp_random.cc"],
 [("seedToFloat", "include/qdp_primseed.h")])

prop("G04", "The portable scalar generator follows its documented recurrence",
 "The stand-alone scalar generator advances a 48-bit linear congruential state exactly as documented, returns values in the half-open unit interval, and saving then restoring the state reproduces the following numbers, also when the state is set before the first draw.",
 ["inputs", "histories"], "all states; all sequences of set, save and draw up to a small length",
 NOTEST + "no test uses this generator.",
 ["lib/qdp_rannyu.cc", "include/qdp_rannyu.h"],
 [("RANNYU::random/setrn/savern", "lib/qdp_rannyu.cc")])

prop("G05", "Gaussian deviates are the Box-Muller transform of uniform deviates",
 "Every real component of a normally distributed object is sqrt(-2 ln u1) cos(2 pi u2), and the two parts of a complex component are sqrt(-2 ln u1) times cosine and sine of 2 pi u2, where u1 and u2 are the numbers two successive uniform fills give that component; each component depends on no other component's numbers. A gaussian fill of a scalar object or a field draws exactly these two fills.",
 ["inputs"], "all uniform deviates in (0,1], every element type; all seeds for the fills",
 NOTEST + "they draw gaussian fields from one seed and never look at their values.",
 ["include/qdp_reality.h", "include/qdp_outer.h", "include/qdp_scalar_specific.h", "include/qdp_primmatrix.h", "include/qdp_primvector.h"],
 [("fill_gaussian", "include/qdp_reality.h"), ("gaussian(OScalar)", "include/qdp_outer.h"), ("gaussian(OLattice)", "include/qdp_scalar_specific.h")])

prop("I01", "Byte swapping reverses each word and nothing else",
 "Byte swapping an array of words reverses the bytes of each word in place (or into the destination), leaves neighbouring memory alone, and applied twice is the identity; the host-order test agrees with the machine. The stdio transfer forms move words most significant byte first and leave the data being written as it was.",
 ["inputs"], "all contents, word sizes 1 to 16, all small word counts",
 NOTEST + "no test calls the swap routines directly.",
 ["lib/qdp_byteorder.cc", "include/qdp_byteorder.h"],
 [("byte_swap/big_endian/bfread/bfwrite", "lib/qdp_byteorder.cc")])

prop("I02", "The checksum is the standard CRC-32 and composes over chunks",
 "The checksum of a byte sequence is the reflected CRC-32 of the standard polynomial with pre- and post-inversion, and feeding a sequence in any two pieces gives the same result as in one piece.",
 ["inputs"], "all byte contents up to a bounded length, all split points",
 NOTEST + "no test calls it; a wrong table entry needs the specific byte.",
 ["lib/qdp_crc32.cc"],
 [("crc32 table and update", "lib/qdp_crc32.cc")])

prop("I03", "Binary writing then reading returns the value written",
 "For every supported value type (integers of each width, floating point, booleans, strings without newline or NUL within the length given, strings with a length, complex and site objects, and one- to five-dimensional arrays, vectors, lists, pairs and maps), writing to a binary buffer or file and reading back yields an identical value, consuming exactly the bytes written, with multi-byte words stored big-endian.",
 ["inputs", "programs"], "all values of each type within small container sizes, any order of several writes followed by the same reads",
 NOTEST + "no test exercises binary input or output.",
 ["lib/qdp_io.cc", "include/qdp_io.h"],
 [("BinaryReader/BinaryWriter read/write overloads", "lib/qdp_io.cc")])

prop("I04", "Binary stream checksums cover exactly the bytes transferred",
 "After any sequence of writes the writer's checksum equals the CRC-32 of the bytes emitted since the start or last reset, and a reader that reads them back reports the same checksum, for buffers and files alike; writing never modifies the source data.",
 ["inputs", "histories"], "all contents and all short sequences of writes, reads and resets",
 NOTEST + "no test looks at stream checksums.",
 ["lib/qdp_io.cc", "include/qdp_io.h"],
 [("BinaryWriter::writeArrayPrimaryNode / getChecksum", "lib/qdp_io.cc")])

prop("I05", "Lattice fields are stored in lexicographic order and read back intact",
 "Writing a lattice field produces the big-endian site values in lexicographic coordinate order independent of the memory layout, and reading restores every site. The sub-lattice, single-site and time-slice forms transfer exactly the named sites and leave the others alone.",
 ["inputs", "configurations"], "all field values, small lattice shapes, each layout, arbitrary subsets, sites and slices",
 NOTEST + "no test writes or reads a field.",
 ["include/qdp_scalar_specific.h", "lib/qdp_scalar_specific.cc", "include/qdp_disk_map_slice.h", "include/qdp_outersubtype.h"],
 [("read/write(OLattice)", "include/qdp_scalar_specific.h"), ("LatticeTimeSliceIO/TimeSliceIO", "include/qdp_disk_map_slice.h")])

prop("I06", "Gauge archives round-trip and checksum independently of layout",
 "Writing the links of a gauge configuration in the archive format and reading them back gives the same links, the unstored row being the complex conjugate cross product of the stored ones; links are stored in lexicographic site order, and the archive checksum is the modular sum of the stored 32-bit words.",
 ["inputs"], "all stored link values on a small lattice (over the reals), both stored-row formats",
 NOTEST + "no test reads or writes a configuration.",
 ["lib/qdp_scalar_specific.cc"],
 [("readArchiv/writeArchiv/computeChecksum", "lib/qdp_scalar_specific.cc")])

prop("D01", "Multi-dimensional arrays address distinct in-range elements",
 "In one- to five-dimensional and run-time-dimensional arrays, distinct in-range index tuples name distinct elements inside the allocated storage in row-major order, reads return the last value written at that index, and resizing, copying, assigning and slicing preserve contents and never alias the source, except for declared views of foreign storage, which share it and refuse to be resized.",
 ["inputs", "histories"], "all extents within a bound and all index tuples; short histories of resize, copy, assign and write",
 NOTEST + "arrays are used only incidentally.",
 ["include/qdp_multi.h", "include/qdp_arrays.h"],
 [("multi1d..multi5d, multiNd", "include/qdp_multi.h"), ("Array1dO etc", "include/qdp_arrays.h")])

prop("D02", "The in-memory key-value store behaves as a map",
 "After any history of inserts, overwrites, erasures and clears, looking up a key returns the last value inserted for exactly that key or reports absence, the size is the number of live keys, and enumeration lists each live key once with its value.",
 ["histories", "inputs"], "all histories of bounded length with arbitrary keys and values",
 NOTEST + "no test uses the key-value stores.",
 ["include/qdp_map_obj_memory.h", "include/qdp_map_obj.h"],
 [("MapObjectMemory", "include/qdp_map_obj_memory.h")])

prop("D03", "The on-disk key-value store returns the last value stored for each key",
 "After any history of inserts of fixed-size values, overwrites, lookups, flushes, closes and reopens, looking up a key in the disk store returns the last value inserted for it, no insert damages another key's value, and the user data string survives. Reading several stores together finds each key in the store that holds it.",
 ["histories", "inputs"], "all histories of bounded length with arbitrary keys and values",
 NOTEST + "no test uses the disk store.",
 ["include/qdp_map_obj_disk.h", "lib/qdp_map_obj_disk.cc"],
 [("MapObjectDisk::insert/get/open/close", "include/qdp_map_obj_disk.h")])

prop("U01", "Utility helpers meet their contracts",
 "Duplicate removal keeps exactly the distinct values, the bounded string length never reads past its bound and equals the true length when shorter, and the floating-point classification functions agree with IEEE-754 for every bit pattern.",
 ["inputs"], "all inputs within small sizes, all bit patterns",
 NOTEST + "none of these is tested.",
 ["lib/qdp_util.cc", "lib/qdp_strnlen.cc", "include/qdp_simpleword.h"],
 [("uniquify_list", "lib/qdp_util.cc"), ("strnlen", "lib/qdp_strnlen.cc"), ("isnan/isinf/isfinite/isnormal", "include/qdp_reality.h")])

prop("U02", "Allocator blocks are aligned, disjoint and released exactly once",
 "Every block handed out by the default allocator is aligned as configured, holds the requested number of bytes inside its own memory, overlaps no other live block, and can be freed in any order, after which its memory is released exactly once.",
 ["inputs", "histories"], "all request sizes within a bound, all underlying alignments, all free orders of a few blocks",
 NOTEST + "allocation is only used incidentally.",
 ["lib/qdp_default_allocator.cc", "include/qdp_default_allocator.h"],
 [("QDPDefaultAllocator::allocate/free", "lib/qdp_default_allocator.cc")])

prop("T01", "Threaded loops compute what the serial loop computes for any thread count",
 "Splitting a site loop over any number of threads gives the threads ranges that are in bounds, disjoint, and together cover every site exactly once, and no two threads touch the same memory with a write between two barriers outside a critical section, so every threaded assignment, reduction, masked copy, shift, random fill and optimised kernel gives the result of the serial formula under every schedule.",
 ["inputs", "configurations"], "all site counts and thread counts of 32-bit range for the ranges; small thread counts, race freedom and several thread orders, all field values for whole operations",
 NOTEST + "they run single-threaded.",
 ["include/qdp_dispatch.h", "include/qdp_scalar_specific.h", "include/scalarsite_generic/qdp_scalarsite_generic_blas.h", "lib/qdp_generic_threadbind.cc"],
 [("dispatch_to_threads", "include/qdp_dispatch.h"), ("threaded evaluates", "include/qdp_scalar_specific.h")])

NOPAR = "The message-passing build is not built or tested here at all; "
prop("T02", "The parallel layout agrees with the serial one on every node",
 "In the message-passing build, node and local index together number the lattice bijectively: each coordinate lives on exactly one node at one local index, and the inverse lookup from node and index returns the coordinate. Subsets made from a colouring function list on each node exactly that node's sites of the colour. A machine grid that does not divide the lattice is refused.",
 ["inputs", "configurations"], "all coordinates of a family of lattice shapes, machine grids and node orders, in each layout",
 NOPAR + "an error needs a particular pair of lattice and machine grid.",
 ["lib/qdp_parscalar_layout.cc", "lib/qdp_parscalar_specific.cc"],
 [("linearSiteIndex/nodeNumber/siteCoords", "lib/qdp_parscalar_layout.cc"), ("Set::make", "lib/qdp_parscalar_specific.cc")])

prop("T03", "Shifts and maps deliver the right site across nodes",
 "In the message-passing build, shifting a field or applying a user-defined map gives every site on every node the value at the named source site of the whole lattice, whichever nodes hold the two; all nodes' communication calls match, so no node waits for ever.",
 ["inputs", "configurations", "schedules"], "all field values, all directions and signs, permutation and gather maps, several machine grids and node orders in each layout",
 NOPAR + "an exchanged pair of send and receive sites only shows when particular maps cross nodes.",
 ["lib/qdp_parscalar_specific.cc", "include/qdp_parscalar_specific.h", "lib/qdp_map.cc"],
 [("Map::make", "lib/qdp_parscalar_specific.cc"), ("Map::operator()/FnMap", "include/qdp_parscalar_specific.h")])

prop("T04", "Reductions, site access and broadcasts agree on all nodes",
 "In the message-passing build every global reduction (sums, norms, inner products, extremes, predicates, over the lattice, subsets and all colours of a set) gives every node the value over the whole lattice; peeking a site gives every node that site's value, poking changes it on its node only, and a broadcast gives every node the primary node's object or string.",
 ["inputs", "configurations", "schedules"], "all field values on small lattices over several machine grids, colourings that leave nodes without sites included",
 NOPAR + "a reduction that forgets the other nodes is right on one node.",
 ["include/qdp_parscalar_specific.h", "lib/qdp_parscalar_specific.cc"],
 [("sum/norm2/innerProduct/sumMulti/globalMax", "include/qdp_parscalar_specific.h"), ("QDPInternal::globalSum/broadcast", "include/qdp_parscalar_specific.h")])

prop("T05", "Files and random fields do not depend on how nodes share the lattice",
 "In the message-passing build, writing a field (whole, one site, a subset, a time slice) or gauge links produces the bytes of the whole lattice in file order whichever nodes hold the sites, reading gives each node its sites, checksums and values read agree on all nodes, and random fields are the site-ordered pieces of the one sequential stream with the same seed left on every node.",
 ["inputs", "configurations", "schedules"], "all field values and seeds on small lattices over several machine grids, each layout",
 NOPAR + "an error needs a lattice spread over nodes in a particular direction.",
 ["lib/qdp_parscalar_specific.cc", "include/qdp_parscalar_specific.h", "lib/qdp_io.cc", "lib/qdp_random.cc"],
 [("readOLattice/writeOLattice/readArchiv/writeArchiv/computeChecksum", "lib/qdp_parscalar_specific.cc"), ("random(OLattice)", "include/qdp_parscalar_specific.h"), ("BinaryReader/BinaryWriter", "lib/qdp_io.cc")])

prop("X01", "Structured text and scientific record formats round-trip",
 "Writing values as XML, HDF5, QIO records or formatted text and reading them back yields the values written.",
 ["inputs"], "all values of each type",
 "The existing build disables these formats.",
 ["lib/qdp_xmlio.cc", "lib/qdp_hdf5.cc", "lib/qdp_qdpio.cc"],
 [("XMLReader/XMLWriter", "lib/qdp_xmlio.cc")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")

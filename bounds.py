"""What each check covers (BOUNDS) and what it takes for granted beyond the common assumptions (ASSUME)."""
SMALL = "lattices of 2 to 8 sites"
BOUNDS = {
"L01": "16 lattice shapes of up to 128 sites in the generic, lexico, cb3d and cb32 layouts; the lexicographic index functions for all extents up to 4 (symbolic extents and coordinates)",
"L02": "every colouring (symbolic colour of every site) with up to 4 colours on lattices of up to 6 sites (8 in the thorough tier); predefined sets on 6 shapes; four fixed colourings of 128 and 180 sites",
"L03": "every colouring of two sets on a 4-site lattice; every single operation of copy, assign, self-assign, remake, destroy, subset copy and subset assign",
"M01": "field values arbitrary; all directions, signs and sites on 7 shapes (extents 1 to 4) in four layouts; arbitrary 2-colourings for subset targets; lattices of 128, 180 and 240 sites",
"M02": "site functions arbitrary (symbolic image of every site) on lattices of up to 8 sites; arrays of up to 3 functions; one scattering permutation on lattices of 128 to 240 sites",
"E01": "field values and 2-colourings arbitrary on " + SMALL + "; all assignment operators, masks, zeroing, fills on representative element types; in addition lattices of 128 and 180 sites (thorough 1024) with four fixed subsets and all values arbitrary",
"E02": "field values arbitrary over the reals on 3- and 4-site lattices; all unary, binary and ternary operators and functions with field and scalar operands, nested and aliased forms",
"R01": "field values arbitrary over the reals, colourings arbitrary with 2 or 3 colours, on lattices of up to 5 sites; array lengths 2 and 3; in addition lattices of 128 and 180 sites (thorough 1024) with four fixed subsets and all values arbitrary",
"R02": "all IEEE single and double values on lattices of up to 6 sites; one unknown value among 128 and 180 sites",
"A01": "operands arbitrary over the reals, single and double precision builds (identities of polynomials and rational functions, no rounding)",
"A02": "operands arbitrary over the reals for all pairs of colour/spin objects; matrices up to 4x4",
"A03": "spinors and spin matrices arbitrary over the reals; all 16 products, both bases, run-time and compile-time forms",
"A04": "spinors and links arbitrary over the reals; all directions and signs; ordered and scattered subsets of a 4-site lattice",
"K01": "coefficients and spinors arbitrary over the reals; whole lattice, ordered and scattered subsets of a 4-site lattice; generic and SSE back ends; 17 sites (thorough 45)",
"K02": "matrices and vectors arbitrary over the reals; all adjoint combinations, aliasing patterns, ordered and scattered subsets of a 4-site lattice; generic and SSE back ends; 9 sites",
"K03": "vector lengths 0 to 3 sites, arbitrary values over the reals; cache-blocked and SSE3 variants",
"C01": "all sites and component indices of 4-site lattices, arbitrary values; collateral changes looked for in every other word; three sites of lattices of 128 and 180 sites, extraction of four subsets",
"C02": "IEEE values arbitrary, masks arbitrary on 4-site lattices; four fixed masks on 128 and 180 sites",
"G01": "all pairs of 47-bit seeds (bit-precise)",
"G02": "all seeds; lattices of 3 to 24 sites in four layouts; arbitrary 2-colourings on 3 and 4 sites; IEEE arithmetic; thorough: 34 to 72 sites",
"G03": "all 2^47 seeds in IEEE arithmetic",
"G04": "all 48-bit states; sequences of up to 3 draws with set and save in between",
"G05": "deviates arbitrary over the reals (logarithm, root, sine and cosine uninterpreted) for every element type; all seeds on a 2-site lattice for the fills",
"I01": "all contents; word sizes 1 to 16, 0 to 9 and 33 words; 3 words through the stdio forms",
"I02": "all contents up to 37 bytes, all split points, all start values; sequences of 100 to 65537 bytes with a few unknown bytes",
"I03": "all values; containers of up to 3 and of 17 and 67 elements (nested and multi-dimensional ones up to 3 per extent); strings of up to 5 and of 17 and 67 bytes",
"I04": "all contents; all sequences of 2 (thorough 3) of write, array write, string, reset and seek operations on buffers and files",
"I05": "all field values; lattices of 4 to 32 sites in four layouts; all sites, slices and 2-colourings; thorough: 60 to 240 sites",
"I06": "all links over the reals (third row) and bit for bit (stored rows); lattices of 2 to 4 sites; 12- and 18-word formats, single and double precision files; thorough: 32 sites",
"D01": "extents up to 3 (symbolic), histories of 2 (thorough 3) operations",
"D02": "all histories of up to 2 (thorough 3) operations over arbitrary keys and values, integer and string keys; one long history over 40 keys with arbitrary values",
"D03": "all histories of up to 3 (thorough 4) operations over arbitrary keys and values; two stores read together; one long history over 40 keys with arbitrary values and reopening",
"U01": "arrays of up to 4 arbitrary integers; strings of up to 4 bytes with every bound; all IEEE bit patterns; strings of 40 bytes and lists of 20 integers with one unknown entry",
"U02": "all request sizes below 2^36 bytes and all underlying alignments symbolic; all free orders of 3 blocks; alignments 16, 64 and 128",
"T01": "all 31-bit site counts (nonlinear part by integer reasoning) for up to 8 threads (thorough 14); every OpenMP region of the single-node build as compiled (clang -fopenmp) for 2 to 7 threads on 3- to 48-site lattices, one order of the threads per job; data races per byte between barriers",
"T02": "4 lattice shapes with 1 to 6 nodes in three layouts, both node orders; 5 grids that do not divide the lattice; arbitrary colourings per node on small lattices",
"T03": "field values arbitrary on 8 to 24 sites over 2 to 6 nodes, three layouts; nearest-neighbour shifts and a family of user permutations and gathers",
"T04": "field values arbitrary on 2 to 8 sites over 2 to 6 nodes; two colourings, one leaving nodes without sites",
"T05": "field values, links and seeds arbitrary on 4 to 16 sites over 2 to 6 nodes, three layouts",
}
REALS = "floating-point operations are taken as exact real arithmetic: rounding is not part of the property"
ASSUME = {k: [REALS] for k in "A01 A02 A03 A04 K01 K02 K03 E02 R01 T01 T04 G05".split()}
FILES = "files are an in-memory stand-in for fstream in the symbolic run (the native replay uses real files)"
for k in "I03 I04 D03".split(): ASSUME[k] = [FILES]
for k in "T02 T03 T04 T05".split(): ASSUME[k] = ASSUME.get(k, []) + ["QMP and DML are replaced by a simulation with rendezvous semantics: nodes run one after the other until all messages are known, then the call sequences are matched"]
ASSUME["T01"] += ["threads run one after the other, switched at barriers, with a race check on every byte accessed at a concrete address: a race-free region has no other schedules than the orders of its critical sections; an access at a symbolic address is not part of the race check"]
ASSUME["G02"] = ["seed multiplication is the library's own, which G01 decides"]

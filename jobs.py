"""The jobs of every check: which harness, on which configuration of the library, with which bounds."""
CORE = """qdp_map.cc qdp_subset.cc qdp_random.cc qdp_layout.cc qdp_io.cc qdp_byteorder.cc qdp_util.cc qdp_stdio.cc qdp_profile.cc qdp_strnlen.cc
 qdp_crc32.cc qdp_stopwatch.cc qdp_rannyu.cc qdp_scalar_init.cc qdp_scalar_layout.cc qdp_scalar_specific.cc qdp_scalarsite_specific.cc
 qdp_default_allocator.cc qdp_generic_threadbind.cc""".split()
CONFIGS = {c: {"lib": CORE} for c in ("generic", "lexico", "cb3d", "cb32", "dp")}
SSE_LIB = CORE + ["scalarsite_sse/" + f for f in """qdp_scalarsite_linalg_double.cc sse_blas_local_sumsq_double.cc sse_blas_local_vcdot_double.cc sse_blas_local_vcdot_real_double.cc
 sse_blas_vaxmbyz4_double.cc sse_blas_vaxmyz4_double.cc sse_blas_vaxpbyz4_double.cc sse_blas_vaxpy4_double.cc sse_blas_vaypx4_double.cc sse_blas_vscal4_double.cc sse_linalg_m_eq_hh_double.cc
 sse_linalg_m_eq_hm_double.cc sse_linalg_m_eq_mh_double.cc sse_linalg_m_eq_mm_double.cc sse_linalg_m_eq_scal_m_double.cc sse_linalg_m_peq_m_double.cc""".split()]
for c in ("sse", "ssedp"): CONFIGS[c] = {"lib": SSE_LIB, "defs": ["-DQDP_SCALARSITE_SSE_LINALG_H", "-msse2"]}
import os
QMP = ["-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness/qmpstub")]
PARLIB = [f.replace("qdp_scalar_", "qdp_parscalar_") for f in CORE]
for c in ("par_generic", "par_lexico", "par_cb3d"): CONFIGS[c] = {"lib": PARLIB, "defs": QMP}
from bounds import BOUNDS, ASSUME
JOBS = []
COMMON_ASSUME = ["compiler front end (clang 18 -O1) and libstdc++ headers are trusted", "allocation never fails", "single-threaded execution"]
def J(prop, name, src, cfg="generic", mode="real", p=None, covers=(), tier="both", timeout=240, qto=20000, defs=(), libdefs=(), lib=None, extra=(), traces=2):
    assert not any(j["prop"] == prop and j["name"] == name for j in JOBS), name
    JOBS.append(dict(prop=prop, name=name, src=src, cfg=cfg, mode=mode, p=p or {}, covers=["end"] + list(covers) if covers is not None else [], tier=tier, timeout=timeout, qto=qto, defs=list(defs), libdefs=list(libdefs), lib=lib, extra=list(extra), traces=traces))
def shp(s): return dict(zip(("lx", "ly", "lz", "lt"), s))

for cfg, ss in {"generic": [(2, 2, 2, 4), (4, 2, 2, 2), (2, 3, 5, 1), (6, 4, 1, 3), (2, 1, 1, 1)], "lexico": [(3, 2, 2, 5), (1, 4, 3, 2), (5, 1, 1, 1)], "cb3d": [(2, 2, 2, 3), (4, 1, 3, 5), (6, 5, 2, 1)], "cb32": [(4, 2, 2, 2), (4, 4, 2, 6), (8, 2, 4, 2)]}.items():
    for s in ss: J("L01", f"{cfg}_%d%d%d%d" % s, "L01.cc", cfg=cfg, p=shp(s))
J("L01", "lex_symbolic", "L01lex.cc", p={"max": 4})
J("L01", "lex_symbolic3d", "L01lex.cc", cfg="cb3d", p={"max": 4})
J("L02", "tab2_lex8", "L02.cc", cfg="lexico", p=dict(shp((2, 2, 1, 2)), nc=2), covers=["ordered", "scattered"], tier="thorough")
J("L02", "tab2_lex6", "L02.cc", cfg="lexico", p=dict(shp((3, 2, 1, 1)), nc=2), covers=["ordered", "scattered"])
J("L02", "tab3_cb4", "L02.cc", p=dict(shp((2, 1, 2, 1)), nc=3), covers=["ordered"])
J("L02", "tab4_lex3", "L02.cc", cfg="lexico", p=dict(shp((3, 1, 1, 1)), nc=4))
J("L02", "tab2_cb6", "L02.cc", p=dict(shp((2, 1, 1, 3)), nc=2), covers=["scattered"])
J("L02", "tab1", "L02.cc", p=dict(shp((2, 1, 1, 3)), nc=1))
for cfg, ss in {"generic": [(2, 2, 2, 2), (4, 3, 2, 1)], "lexico": [(3, 2, 2, 1), (4, 2, 2, 2)], "cb3d": [(4, 2, 1, 3)], "cb32": [(4, 2, 2, 2)]}.items():
    for s in ss: J("L02", f"pre_{cfg}_%d%d%d%d" % s, "L02pre.cc", cfg=cfg, p=shp(s))
for op in range(6): J("L03", f"op{op}", "L03.cc", cfg="lexico", p=dict(shp((2, 1, 1, 2)), op=op))
J("L03", "op0_same_size", "L03.cc", p=dict(shp((2, 1, 1, 2)), op=0, gnc=2)); J("L03", "op1_same_size", "L03.cc", p=dict(shp((2, 1, 1, 2)), op=1, gnc=2)); J("L03", "op5_same_size", "L03.cc", p=dict(shp((2, 1, 1, 2)), op=5, gnc=2))
for cfg, s in [("generic", (2, 2, 2, 2)), ("generic", (4, 2, 1, 3)), ("lexico", (3, 1, 4, 2)), ("cb3d", (2, 3, 1, 3)), ("cb32", (4, 2, 2, 2))]: J("M01", f"plain_{cfg}_%d%d%d%d" % s, "M01.cc", cfg=cfg, p=dict(shp(s), kind=0))
for cfg, s in [("generic", (2, 3, 1, 2)), ("lexico", (3, 2, 1, 2))]:
    for k in (1, 2, 3): J("M01", f"kind{k}_{cfg}_%d%d%d%d" % s, "M01.cc", cfg=cfg, p=dict(shp(s), kind=k))
for cfg, s in [("generic", (2, 2, 1, 2)), ("lexico", (3, 1, 2, 1)), ("cb3d", (2, 1, 3, 1))]:
    for k in range(6): J("M02", f"kind{k}_{cfg}_%d%d%d%d" % s, "M02.cc", cfg=cfg, p=dict(shp(s), kind=k), tier="thorough" if cfg == "cb3d" and k == 3 else "both")
for cfg, s in [("lexico", (2, 1, 1, 2)), ("generic", (2, 2, 1, 1)), ("lexico", (5, 1, 1, 1))]:
    for k in range(5): J("E01", f"kind{k}_{cfg}_%d%d%d%d" % s, "E01.cc", cfg=cfg, p=dict(shp(s), kind=k), tier="both" if s != (5, 1, 1, 1) else "thorough")
for cfg, s in [("lexico", (3, 1, 1, 1)), ("generic", (2, 2, 1, 1))]:
    for k in range(5): J("E02", f"kind{k}_{cfg}_%d%d%d%d" % s, "E02.cc", cfg=cfg, p=dict(shp(s), kind=k))
for cfg, s in [("lexico", (2, 1, 1, 2)), ("generic", (2, 2, 1, 1)), ("lexico", (5, 1, 1, 1))]:
    for k in range(8): J("R01", f"kind{k}_{cfg}_%d%d%d%d" % s, "R01.cc", cfg=cfg, p=dict(shp(s), kind=k, nc=3 if cfg == "lexico" and s[0] == 2 and k in (0, 4) else 2), tier="both" if s != (5, 1, 1, 1) else "thorough")
for cfg, s in [("lexico", (2, 1, 1, 2)), ("generic", (2, 1, 1, 3)), ("lexico", (3, 1, 2, 1)), ("generic", (2, 1, 1, 1))]:
    for k in range(6):
        if k < 3 or s[0] == 3 and s[2] == 2 or s[3] == 1 : J("R02", f"kind{k}_{cfg}_%d%d%d%d" % s, "R02.cc", cfg=cfg, mode="fpa", p=dict(shp(s), kind=k), tier="both" if k != 1 or s in ((2, 1, 1, 1), (2, 1, 1, 2)) else "thorough")
for cfg in ("generic", "dp"):
    for k in range(5): J("A01", f"kind{k}_{cfg}", "A01.cc", cfg=cfg, p=dict(kind=k))
for k in range(15):
    for sub in range(5) if k == 6 else [0]: J("A02", f"kind{k}" + (f"_{sub}" if k == 6 else ""), "A02.cc", p=dict(kind=k, sub=sub))
for k in (16, 17): J("A02", f"kind{k}", "A02.cc", p=dict(kind=k))
for sub in (13, 14, 23, 24, 12, 34): J("A02", f"contract{sub}", "A02.cc", p=dict(kind=15, sub=sub))
for k in range(5): J("A03", f"kind{k}", "A03.cc", p=dict(kind=k))
J("A03", "field", "A03.cc", p=dict(kind=5))
for agg in (0, 1):
    for k in range(7): J("A04", f"{'agg' if agg else 'std'}{k}", "A04.cc", cfg="lexico", p=dict(kind=k), defs=["-DAGGREGATE"] if agg else [], covers=["ordered", "scattered"] if k > 2 else [])
for k in range(12):
    for few in (1, 0):
        t = dict(covers=["ordered", "scattered"], traces=1, tier="both" if few else "thorough"); nm = f"kind{k}" + ("" if few else "_all")
        J("K01", nm, "K01.cc", cfg="lexico", p=dict(few=few), defs=[f"-DKIND={k}"], **t)
        J("K01", "sse_" + nm, "K01.cc", cfg="sse", p=dict(shp((2, 1, 1, 2)), few=few), defs=[f"-DKIND={k}", "-DFERM=LatticeDiracFermionD", "-DREALT=RealD", "-DCOMPLEXT=ComplexD"], **t)
for n in range(3): J("K01", f"norms{n}", "K01n.cc", p=dict(n=n))
for tag, ld in [("", []), ("_large", ["-DL2BY2=1"]), ("_sse3", ["-DQDP_USE_SSE3=1", "-msse3"])]:
    for n in (0, 1, 2, 3):
        for k, nm in enumerate(("vec", "mat")):
            if k == 0 or tag != "_large": J("K03", f"{nm}{n}{tag}", "K03.cc", cfg="sse", p=dict(kind=k, n=n), libdefs=ld, tier="both" if n in (0, 2) else "thorough")
    if tag != "_large": J("K03", "cmul" + tag, "K03.cc", cfg="sse", p=dict(kind=2), libdefs=ld)
K02SSE = "-DCMAT=LatticeColorMatrixD -DCVEC=LatticeColorVectorD -DFERM=LatticeDiracFermionD -DHALF=LatticeHalfFermionD -DPROP=LatticeDiracPropagatorD -DSMAT=ColorMatrixD -DREALT=RealD -DCOMPLEXT=ComplexD".split()
for k in range(10):
    for few in (1, 0):
        if k == 9 and not few: continue
        t = dict(covers=["ordered", "scattered"], traces=1, tier="both" if few else "thorough"); nm = f"kind{k}" + ("" if few else "_all")
        J("K02", nm, "K02.cc", cfg="lexico", p=dict(few=few), defs=[f"-DKIND={k}"], **t)
        J("K02", "sse_" + nm, "K02.cc", cfg="sse", p=dict(shp((2, 1, 1, 2)), few=few), defs=[f"-DKIND={k}"] + K02SSE, **t)
for k in range(6):
    J("C01", f"kind{k}", "C01.cc", cfg="lexico", p=dict(few=1 if k < 5 else 0), defs=[f"-DKIND={k}"], covers=[])
    J("C01", f"kind{k}_cb", "C01.cc", p=dict(shp((2, 1, 2, 1)), few=1), defs=[f"-DKIND={k}"], tier="both" if k in (3, 4, 5) else "thorough")
for k in range(8):
    J("C02", f"kind{k}", "C02.cc", cfg="lexico", mode="fpa", defs=[f"-DKIND={k}"])
    J("C02", f"kind{k}_cb", "C02.cc", mode="fpa", p=shp((2, 1, 2, 1)), defs=[f"-DKIND={k}"], tier="thorough")
for k in range(7): J("G01", f"kind{k}", "G01.cc", cfg="lexico", mode="fpa", p=dict(kind=k))
for cfg, s in [("lexico", (3, 1, 1, 1)), ("generic", (2, 1, 1, 2))]:
    for k in (0, 1, 3, 4): J("G02", f"kind{k}_{cfg}", "G02.cc", cfg=cfg, mode="fpa", p=dict(shp(s), few=1), defs=[f"-DKIND={k}"], tier="both" if cfg == "lexico" or k == 3 else "thorough")
for cfg, s in [("generic", (2, 3, 1, 2)), ("lexico", (3, 2, 1, 2)), ("generic", (4, 2, 3, 1)), ("cb3d", (2, 3, 1, 3)), ("cb32", (4, 2, 2, 2))]: J("G02", f"kind2_{cfg}_%d%d%d%d" % s, "G02.cc", cfg=cfg, mode="fpa", p=shp(s), defs=["-DKIND=2"])
for k in range(3): J("G05", f"leaf{k}", "G05.cc", p=dict(kind=k))
J("G05", "fill", "G05.cc", cfg="lexico", mode="fpa", p=dict(kind=3))
for k in range(4): J("G03", f"kind{k}", "G03.cc", cfg="lexico", mode="fpa", p=dict(kind=k))
J("G03", "kind3_dp", "G03.cc", cfg="dp", mode="fpa", p=dict(kind=3))
for k in range(5): J("G04", f"kind{k}", "G04.cc", cfg="lexico", mode="fpa", p=dict(kind=k))
for k in range(3): J("I01", f"kind{k}", "I01.cc", cfg="lexico", mode="fpa", p=dict(kind=k))
J("I01", "stdio", "I01f.cc", cfg="lexico", mode="fpa", lib=[f for f in CORE if f != "qdp_byteorder.cc"])
for k in range(5): J("I02", f"kind{k}", "I02.cc", cfg="lexico", mode="fpa", p=dict(kind=k, n=37))
for k in range(12): J("I03", f"kind{k}", "I03.cc", cfg="lexico", mode="fpa", defs=[f"-DKIND={k}"])
for wh in range(6): J("I04", f"stream{wh}", "I04.cc", cfg="lexico", mode="fpa", p=dict(where=wh, n=2)); J("I04", f"long{wh}", "I04.cc", cfg="lexico", mode="fpa", p=dict(where=wh, n=3), tier="thorough")
for cfg, s in [("generic", (2, 2, 1, 2)), ("lexico", (3, 1, 2, 1)), ("cb32", (4, 2, 2, 2))]:
    for k in range(5):
        if k in (2, 4) and s[0] * s[1] * s[2] * s[3] > 8: continue
        J("I05", f"kind{k}_{cfg}_%d%d%d%d" % s, "I05.cc", cfg=cfg, mode="fpa", p=dict(shp(s)), defs=[f"-DKIND={k}"], tier="both" if (k > 1 or cfg != "lexico") and (k != 4 or cfg == "lexico") else "thorough")
J("I05", "kind4_generic_2211", "I05.cc", mode="fpa", p=shp((2, 2, 1, 1)), defs=["-DKIND=4"])
for k in range(4):
    for cfg, z in [("generic", (2, 1, 1, 2)), ("lexico", (1, 3, 1, 1)), ("cb3d", (2, 1, 1, 2)), ("dp", (2, 1, 1, 1))]: J("I06", f"data{k}_{cfg}", "I06.cc", cfg=cfg, p=shp(z), defs=[f"-DKIND={k}"], tier="both" if cfg == "generic" or (cfg == "dp" and k == 1) else "thorough")
DISK = CORE + ["qdp_map_obj_disk.cc"]
for k in range(3):
    for o in range(6):
        J("D02", f"kind{k}_op{o}", "D02.cc", cfg="lexico", mode="fpa", defs=[f"-DKIND={k}"], p=dict(L=2 if k == 0 else 1, first=o), tier="quick" if (k, o) != (2, 5) else "thorough"); J("D02", f"kind{k}_op{o}_long", "D02.cc", cfg="lexico", mode="fpa", defs=[f"-DKIND={k}"], p=dict(L=3 if k == 0 else 2, first=o, range=2), tier="thorough", timeout=800)
for k in range(2):
    for o in range(7):
        J("D03", f"kind{k}_op{o}", "D03.cc", cfg="lexico", mode="fpa", lib=DISK, defs=[f"-DKIND={k}"], p=dict(shp((1, 1, 1, 1)), L=3 if k == 0 else 2, first=o), tier="quick"); J("D03", f"kind{k}_op{o}_long", "D03.cc", cfg="lexico", mode="fpa", lib=DISK, defs=[f"-DKIND={k}"], p=dict(shp((1, 1, 1, 1)), L=4 if k == 0 else 3, first=o), tier="thorough", timeout=800)
J("D03", "kind0_debug", "D03.cc", cfg="lexico", mode="fpa", lib=DISK, defs=["-DKIND=0"], p=dict(shp((1, 1, 1, 1)), L=1, debug=2, first=4, userlen=2)); J("D03", "kind0_nouser", "D03.cc", cfg="lexico", mode="fpa", lib=DISK, defs=["-DKIND=0"], p=dict(shp((1, 1, 1, 1)), L=1, first=5, userlen=0))
for k in range(6): J("D02" if k < 3 else "D03", f"many{k % 3}", "MANY.cc", cfg="lexico", mode="fpa", lib=DISK, defs=[f"-DKIND={k}"])
J("D03", "multiple", "D03.cc", cfg="lexico", mode="fpa", lib=DISK, defs=["-DKIND=2"], p=shp((1, 1, 1, 1)))
for k in range(18):
    J("D01", f"kind{k}", "D01.cc", cfg="lexico", mode="real" if k == 2 else "fpa", defs=[f"-DKIND={k}", "-DCTOR5", "-DSMINUS", "-DEMPTYN"], p=dict(L=2, max=3) if k == 0 else {}, tier="thorough" if k in (7, 15, 16) else "both")
    if k == 7: J("D01", "kind19", "D01.cc", cfg="lexico", mode="fpa", defs=["-DKIND=19"])
J("D01", "kind0_long", "D01.cc", cfg="lexico", mode="fpa", defs=["-DKIND=0"], p=dict(L=3, max=3), tier="thorough", timeout=850)

for k in range(5): J("U01", f"kind{k}", "U01.cc", cfg="lexico", mode="fpa", p=dict(shp((1, 1, 1, 1)), kind=k))
for al in ("", 64, 128):
    d = [f"-DQDP_AC_ALIGNMENT_SIZE={al}"] if al else []
    for k in range(4):
        J("U02", f"kind{k}" + (f"_al{al}" if al else ""), "U02.cc", cfg="lexico", mode="fpa", p=dict(shp((2, 1, 1, 1)), kind=k), defs=d, libdefs=d, covers=["hooked"] if k == 0 else [], tier="both" if al != 64 else "thorough")
OMP = ["-I" + __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "harness/ompstub")]
for k in (0, 1, 3): J("T01", f"dispatch{k}", "T01.cc", cfg="lexico", mode="fpa", p=dict(kind=k, max=8), defs=OMP)
J("T01", "dispatch2", "T01.cc", cfg="lexico", mode="fpa", p=dict(kind=0, max=14), defs=OMP, tier="thorough", timeout=800)
OMPR = ["-fopenmp", "-DQDP_USE_OMP_THREADS=1", "-include", "cstdio", "-I" + OMP[0][2:].replace("ompstub", "ompreal"), "-include", "omp.h"]
def OJ(name, src, cfg, p, thr, sched=0, tier="both", mode="real", defs=(), libdefs=(), **k): J("T01", "omp_" + name, src, cfg=cfg, mode=mode, p=dict(p, threads=thr, sched=sched), defs=list(defs), libdefs=OMPR + list(libdefs), extra=["omprt.cc"], tier=tier, **k)
FERMD = ["-DFERM=LatticeDiracFermionD", "-DREALT=RealD", "-DCOMPLEXT=ComplexD"]
for k in range(5): OJ(f"assign{k}", "E01.cc", "lexico", dict(shp((2, 1, 1, 2) if k != 2 else (3, 1, 1, 1)), kind=k, split=1), 3 if k != 2 else 2, k % 2); OJ(f"expr{k}", "E02.cc", "lexico", dict(shp((3, 1, 1, 1)), kind=k), 2, k & 1)
for k in range(8): OJ(f"sum{k}", "R01.cc", "lexico", dict(shp((3, 1, 1, 1)), kind=k, nc=2), 2 if k & 1 else 5, k & 1)
for k in range(6): OJ(f"max{k}", "R02.cc", "lexico", dict(shp((3, 1, 1, 1)), kind=k), 2, k & 1, mode="fpa")
for k in range(12): OJ(f"vec{k}", "K01.cc", "sse", dict(shp((2, 1, 1, 2)), few=1), 3, (0, 5)[k & 1], defs=[f"-DKIND={k}"] + FERMD, traces=1)
for k in range(12): OJ(f"gvec{k}", "K01.cc", "lexico", dict(few=1), 3, (0, 5)[k & 1], defs=[f"-DKIND={k}"], traces=1, tier="both" if k > 8 else "thorough")
for k in range(10): OJ(f"mat{k}", "K02.cc", "lexico", dict(few=1), 3, (0, 5)[k & 1], defs=[f"-DKIND={k}"], traces=1, tier="thorough"); OJ(f"sse_mat{k}", "K02.cc", "sse", dict(shp((2, 1, 1, 2)), few=1), 3, (0, 5)[k & 1], traces=1, defs=[f"-DKIND={k}"] + K02SSE, tier="both" if k in (0, 4, 8) else "thorough")
for k in range(7): OJ(f"proj{k}", "A04.cc", "lexico", dict(kind=k), 3, (0, 5)[k & 1], tier="both" if k > 4 else "thorough")
for k in (0, 1, 3, 4): OJ(f"random{k}", "G02.cc", "lexico", dict(shp((3, 1, 1, 1)), few=1), 3, (0, 3)[k & 1], mode="fpa", defs=[f"-DKIND={k}"])
OJ("seeds", "G02.cc", "lexico", shp((3, 2, 1, 2)), 5, 77, mode="fpa", defs=["-DKIND=2"]); OJ("gaussian", "G05.cc", "lexico", dict(kind=3), 2, 1, mode="fpa")
for k in range(6): OJ(f"mask{k}", "C01.cc", "lexico", dict(few=1), 2, k & 1, defs=[f"-DKIND={k}"], tier="both" if k > 2 else "thorough")
OJ("masked", "C02.cc", "lexico", {}, 2, 1, mode="fpa", defs=["-DKIND=5"]); OJ("masked2", "C02.cc", "lexico", {}, 2, 1, mode="fpa", defs=["-DKIND=6"])
for k in range(4): OJ(f"shift{k}", "M01.cc", "lexico", dict(shp((3, 2, 1, 2)), kind=k), 4, 23 * (k & 1))
for k in range(6): OJ(f"map{k}", "M02.cc", "lexico", dict(shp((3, 1, 1, 1)), kind=k), 3, 4)
for k in range(8): OJ(f"big{k}", "BIG.cc", "lexico" if k & 1 else "generic", shp((4, 3, 2, 2)), 7, 5039 if k & 1 else 0, mode="fpa" if k == 7 else "real", defs=[f"-DKIND={k}"])
for k in range(3): OJ(f"norms{k}", "K01n.cc", "generic", dict(n=k), 3, 5)

for k, pr in enumerate(("L02", "E01", "R01", "M01", "M02", "C01", "C02", "R02")):
    for cfg, s in [("generic", (4, 4, 2, 4)), ("lexico", (5, 3, 4, 3)), ("generic", (8, 8, 4, 4)), ("cb3d", (4, 3, 4, 5)), ("cb32", (4, 4, 4, 8))]:
        if pr in ("C01", "C02", "R02", "E01", "R01", "L02") and cfg[:2] == "cb": continue
        J(pr, f"big_{cfg}_%d%d%d%d" % s, "BIG.cc", cfg=cfg, mode="fpa" if pr == "R02" else "real", p=shp(s), defs=[f"-DKIND={k}"], tier="thorough" if s[0] == 8 or cfg == "cb32" else "both", timeout=600 if s[0] == 8 else 120)
for k in (0, *range(2, 12)): J("K01", f"mid{k}", "K01.cc", cfg="lexico", p=dict(shp((17, 1, 1, 1)), few=1), defs=[f"-DKIND={k}"], covers=["ordered", "scattered"], traces=1)
for k in (0, *range(2, 12)): J("K01", f"big{k}", "K01.cc", cfg="lexico", p=dict(shp((5, 3, 1, 3)), few=1), defs=[f"-DKIND={k}"], covers=["ordered", "scattered"], traces=1, tier="thorough", timeout=800)
for k in range(9): J("K02", f"big{k}", "K02.cc", cfg="lexico", p=dict(shp((9, 1, 1, 1)), few=1), defs=[f"-DKIND={k}"], covers=["ordered", "scattered"], traces=1)
for cfg, s in [("generic", (4, 3, 2, 3)), ("lexico", (17, 1, 1, 2)), ("cb3d", (4, 3, 3, 2))]:
    for k in (0, 1, 3): J("G02", f"big{k}_{cfg}", "G02.cc", cfg=cfg, mode="fpa", p=dict(shp(s), few=1), defs=[f"-DKIND={k}"], tier="thorough")
for k in range(5): J("I05", f"kind{k}_cb3d", "I05.cc", cfg="cb3d", mode="fpa", p=shp((2, 1, 2, 2)), defs=[f"-DKIND={k}"], tier="both" if k not in (1, 4) else "thorough")
for cfg, s in [("generic", (4, 4, 2, 4)), ("lexico", (5, 3, 4, 3)), ("cb3d", (4, 3, 4, 5))]:
    for k in (0, 3): J("I05", f"big{k}_{cfg}", "I05.cc", cfg=cfg, mode="fpa", p=dict(shp(s)), defs=[f"-DKIND={k}"], tier="thorough")
for k in range(4): J("I06", f"big{k}", "I06.cc", p=shp((4, 2, 2, 2)), defs=[f"-DKIND={k}"], tier="thorough")
# message-passing build: lattice shape, machine grid
def PJ(prop, name, src, cfg, sh, grid, kind, order=0, **k): J(prop, name + f"_{cfg[4:]}_%d%d%d%d" % sh + "_on_%d%d%d%d" % grid + ("t" if order else ""), src, cfg=cfg, p=dict(shp(sh), g0=grid[0], g1=grid[1], g2=grid[2], g3=grid[3], order=order, **k.pop("p", {}), **({} if kind is None else dict(kind=kind))), **k)
for sh, grid, o in [((4, 2, 2, 2), (2, 1, 1, 2), 0), ((2, 4, 3, 2), (1, 2, 3, 1), 1), ((6, 2, 1, 2), (3, 2, 1, 1), 1), ((4, 2, 2, 4), (1, 1, 1, 1), 0)]:
    for cfg in ("par_generic", "par_lexico", "par_cb3d"):
        for k in (0, 2): PJ("T02", f"kind{k}", "T02.cc", cfg, sh, grid, k, o)
for sh, grid in [((6, 2, 1, 2), (4, 1, 1, 1)), ((6, 2, 1, 1), (2, 1, 1, 1)), ((4, 2, 2, 2), (4, 1, 1, 1)), ((2, 3, 2, 2), (1, 2, 1, 2)), ((3, 2, 1, 2), (1, 1, 1, 2))]:
    for cfg in ("par_generic", "par_lexico", "par_cb3d"): PJ("T02", "uneven", "T02.cc", cfg, sh, grid, 0, p=dict(mayreject=1), covers=None)
for cfg, sh, grid, o in [("par_lexico", (4, 2, 1, 3), (2, 1, 1, 3), 0), ("par_generic", (4, 2, 1, 2), (2, 2, 1, 1), 1), ("par_cb3d", (2, 2, 3, 2), (1, 2, 3, 1), 0)]:
    for k in range(7): PJ("T03", f"kind{k}", "T03.cc", cfg, sh, grid, k, o, p=dict(mayreject=1) if k == 4 else {})
for cfg, sh, grid, o in [("par_lexico", (2, 1, 1, 3), (2, 1, 1, 3), 0), ("par_generic", (4, 2, 1, 1), (2, 1, 1, 1), 1)]:
    for k in range(8):
        small = {5: ((4, 1, 1, 1), (2, 1, 1, 1)), 6: ((4, 1, 1, 1), (2, 1, 1, 1))}.get(k, (sh, grid)) if cfg == "par_generic" else {5: ((2, 1, 1, 2), (2, 1, 1, 1)), 6: ((2, 1, 1, 1), (2, 1, 1, 1))}.get(k, (sh, grid))
        PJ("T04", f"kind{k}", "T04.cc", cfg, small[0], small[1], k, o, mode="fpa" if k in (4, 5, 6, 7) else "real")
    PJ("T04", "kind0_onenode", "T04.cc", cfg, sh, grid, 0, o, p=dict(onenode=1))
for cfg, sh, grid, o in [("par_lexico", (2, 1, 1, 3), (2, 1, 1, 3), 0), ("par_generic", (4, 2, 1, 2), (2, 1, 1, 2), 1), ("par_cb3d", (4, 1, 1, 2), (1, 1, 1, 2), 0)]:
    for k in range(8):
        arch = k in (4, 7)
        PJ("T05", f"kind{k}", "T05.cc", cfg, (2, 1, 1, 2) if arch else sh, (1, 1, 1, 2) if arch else grid, k, o, mode="fpa")
# OpenMP threads within each of several nodes
for src, kinds, sh, grid in [("T04.cc", range(8), (4, 1, 1, 2), (1, 1, 1, 2)), ("T03.cc", range(4), (3, 2, 1, 2), (1, 2, 1, 1)), ("T02.cc", (0, 2), (4, 3, 1, 2), (1, 1, 1, 2))]:
    for k in kinds:
        sh2 = ((2, 1, 1, 2) if k == 5 else (3, 1, 1, 2)) if src == "T04.cc" and k in (5, 6) else sh
        OJ(f"{src[:3]}_{k}", src, "par_lexico", dict(shp(sh2), g0=grid[0], g1=grid[1], g2=grid[2], g3=grid[3], order=k & 1, kind=k), 3, (0, 5)[k & 1], mode="fpa" if src == "T04.cc" and k > 3 else "real")

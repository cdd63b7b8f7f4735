#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--job NAME] [--keep]
Compiles /repo's current sources to LLVM IR together with this property's harnesses, explores them with the
symbolic executor (build/symx), replays any counterexample against the same sources compiled natively, and
writes evidence/<PROPERTY>.json."""
import sys, os, json, threading, subprocess, tempfile, shutil, time, re, hashlib, argparse
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
import jobs as JT
import resource
try:    # deep terms recurse in the engine
    _h = resource.getrlimit(resource.RLIMIT_STACK)[1]; resource.setrlimit(resource.RLIMIT_STACK, (_h if _h != resource.RLIM_INFINITY and _h < 1 << 30 else 1 << 30, _h))
except (ValueError, OSError): pass

IRFLAGS = ["-std=c++17", "-fno-pic", "-O1", "-emit-llvm", "-c", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-w",
           "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DSYM_ENGINE"]
NATFLAGS = ["-O1", "-msse2", "-w", "-c"]
INC = ["-include", "cstring", "-include", "cstdint"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr,null", "-fno-sanitize-recover=undefined", "-g"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

class Fail(Exception): pass

def setup():
    r = sh(["make", "-C", os.path.join(V, "engine"), "-j4"])
    if r.returncode: raise Fail("engine build failed:\n" + r.stderr[-3000:])
    b = os.path.join(V, "build"); os.makedirs(b, exist_ok=True)
    for n in ("inst", "runtime", "modelfs"):
        src, out = f"{V}/harness/{n}.cc", f"{b}/{n}.bc"
        if os.path.exists(out) and os.path.getmtime(out) > max(os.path.getmtime(src), os.path.getmtime(f"{V}/harness/model/fstream")): continue
        r = sh(["clang++", "-std=c++17", "-O1", "-fno-builtin", "-fno-vectorize", "-fno-slp-vectorize", "-emit-llvm", "-c", "-w"]
               + ([f"-I{V}/harness/model"] if n == "modelfs" else []) + [src, "-o", out + f".{os.getpid()}"])
        if r.returncode: raise Fail("runtime build failed:\n" + r.stderr[-3000:])
        os.rename(out + f".{os.getpid()}", out)

class Build:
    """Fresh IR and native objects of the library and harnesses, in a scratch directory."""
    def __init__(self, tmp): self.tmp = tmp; self.cache = {}; self.lock = threading.Lock()
    def incl(self, cfg): return [f"-I{V}/config/{cfg}", f"-I{REPO}/include", f"-I{V}/harness"]
    def cfgdefs(self, cfg): return JT.CONFIGS[cfg].get("defs", [])
    def key(self, kind, src, cfg, defs): return hashlib.sha1(repr((kind, src, cfg, defs)).encode()).hexdigest()[:12]
    def compile(self, kind, src, cfg, defs):
        out = f"{self.tmp}/{kind}_{os.path.basename(src)}_{self.key(kind, src, cfg, defs)}.o"
        d = self.cfgdefs(cfg) + defs
        if kind == "ir": cmd = ["clang++"] + IRFLAGS + [f"-I{V}/harness/model", "-include", "prelude.h"] + INC + self.incl(cfg) + d + JT.CONFIGS[cfg].get("irflags", []) + [src, "-o", out]
        elif kind == "nat": cmd = ["g++"] + NATFLAGS + INC + self.incl(cfg) + d + [src, "-o", out]
        elif kind == "tsan": cmd = ["g++"] + NATFLAGS + ["-fsanitize=thread", "-g1"] + INC + self.incl(cfg) + d + [src, "-o", out]
        else: cmd = ["g++"] + NATFLAGS + ASAN + INC + self.incl(cfg) + d + [src, "-o", out]
        r = sh(cmd, cwd=f"{REPO}/lib")
        if r.returncode: raise Fail(f"compilation failed: {' '.join(cmd)}\n{r.stderr[-3000:]}")
        return out
    def sources(self, job):
        c = JT.CONFIGS[job["cfg"]]
        lib = job["lib"] if job["lib"] is not None else c["lib"]
        return [(f"{REPO}/lib/{s}", job["cfg"], job["libdefs"]) for s in lib] + [(f"{V}/harness/{job['src']}", job["cfg"], job["defs"] + job["libdefs"])] + \
               [(f"{V}/harness/{x}", job["cfg"], job["defs"] + job["libdefs"]) for x in job["extra"]]
    def prepare(self, kind, jobs, pool):
        futs = {}
        for j in jobs:
            for s in self.sources(j):
                k = (kind, s[0], s[1], tuple(s[2]))
                if k not in self.cache and k not in futs: futs[k] = pool.submit(self.compile, kind, s[0], s[1], s[2])
        for k, f in futs.items(): self.cache[k] = f.result()
    def objs(self, kind, job): return [self.cache[(kind, s[0], s[1], tuple(s[2]))] for s in self.sources(job)]
    def link_ir(self, job):
        k = self.key("ir", job["src"], job["cfg"], job["defs"] + job["libdefs"] + (job["lib"] or []) + job["extra"]); out = f"{self.tmp}/h_{k}.bc"
        if not os.path.exists(out):
            r = sh(["llvm-link-18"] + self.objs("ir", job) + [f"{V}/build/{n}.bc" for n in ("runtime", "inst", "modelfs")] + ["-o", out + ".l"])
            if r.returncode: raise Fail("llvm-link: " + r.stderr[-2000:])
            r = sh(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list=harness_main", out + ".l", "-o", out + ".t"])
            if r.returncode: raise Fail("opt: " + r.stderr[-2000:])
            os.rename(out + ".t", out); os.remove(out + ".l")
        return out
    def link_nat(self, job, kind):
        k = self.key(kind, job["src"], job["cfg"], job["defs"] + job["libdefs"] + (job["lib"] or []) + job["extra"]); out = f"{self.tmp}/{kind}_{k}"
        if not os.path.exists(out):
            sn = f"{self.tmp}/sym_{kind}.o"
            with self.lock:
                if not os.path.exists(sn):
                    r = sh(["g++", "-O1", "-c", "-w"] + (ASAN if kind == "asan" else ["-fsanitize=thread"] if kind == "tsan" else []) + [f"-I{V}/harness", f"{V}/harness/sym_native.cc", "-o", sn])
                    if r.returncode: raise Fail("sym_native: " + r.stderr[-2000:])
            r = sh(["g++"] + (["-fsanitize=address,undefined"] if kind == "asan" else ["-fsanitize=thread"] if kind == "tsan" else []) + ["-Wl,--gc-sections"] + self.objs(kind, job) + [sn, "-lpthread", "-o", out + ".t"])
            if r.returncode: raise Fail("native link: " + r.stderr[-3000:])
            os.rename(out + ".t", out)
        return out

def replay(exe, rep, tmp, env=None, wrap=()):
    d = tempfile.mkdtemp(dir=tmp); e = dict(os.environ); e["SYM_REPLAY"] = rep; e["ASAN_OPTIONS"] = "exitcode=84:detect_leaks=0:alloc_dealloc_mismatch=1"; e["UBSAN_OPTIONS"] = "exitcode=84"; e.update(env or {})
    try: r = subprocess.run(list(wrap) + [exe], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60)
    except subprocess.TimeoutExpired: shutil.rmtree(d, ignore_errors=True); return 124, "timeout"
    shutil.rmtree(d, ignore_errors=True); return r.returncode, r.stdout[-3000:]

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--job"); ap.add_argument("--keep", action="store_true"); ap.add_argument("-v", action="store_true"); ap.add_argument("--nonative", action="store_true")
    a = ap.parse_args(); t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.prop == "setup": setup(); return 0
    setup()
    jl = [j for j in JT.JOBS if j["prop"] == a.prop and (j["tier"] == "both" or j["tier"] == a.tier) and (not a.job or re.search(a.job, j["name"]))]
    if not jl: print("no jobs for", a.prop); return 2
    tmp = tempfile.mkdtemp(prefix="verif_" + a.prop + "_")
    try: return run(a, jl, tmp, t0, seed)
    finally:
        if not a.keep: shutil.rmtree(tmp, ignore_errors=True)
        else: print("kept", tmp)

def run(a, jl, tmp, t0, seed):
    B = Build(tmp); pool = ThreadPoolExecutor(8)
    B.prepare("ir", jl, pool)
    bcs = {}
    for j in jl: bcs[j["name"]] = None
    groups = {}
    for j in jl: groups.setdefault((j["src"], j["cfg"], tuple(j["defs"]), tuple(j["libdefs"]), tuple(j["lib"] or []), tuple(j["extra"])), []).append(j)
    for g, bc in zip(groups.values(), pool.map(lambda g: B.link_ir(g[0]), list(groups.values()))):
        for j in g: bcs[j["name"]] = bc
    t1 = time.time()
    natf = None
    def runjob(j):
        d = f"{tmp}/run_{j['name']}"; os.makedirs(d + "/t"); os.makedirs(d + "/r")
        to = j["timeout"] if a.tier == "quick" else j["timeout"] * 4
        cmd = [f"{V}/build/symx", "--bc", bcs[j["name"]], "--out", d + "/o.json", "--mode", j["mode"], "--timeout", str(to), "--qto", str(j["qto"]), "--trace-dir", d + "/t", "--max-traces", str(j["traces"]), "--replay-dir", d + "/r", "--seed", str(seed)]
        for k, v in j["p"].items(): cmd += ["-p", f"{k}={v}"]
        if stop.is_set(): return j, None, "stopped"
        with open(d + "/err", "w") as ef:
            pr = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, start_new_session=True); end = time.time() + to + 60; err = None
            while True:
                try: pr.wait(0.2); break
                except subprocess.TimeoutExpired: pass
                if stop.is_set() or time.time() > end:
                    err = "stopped" if stop.is_set() else "hard timeout"; os.killpg(pr.pid, 9); pr.wait(); break
        if err is None: err = open(d + "/err", errors="replace").read()
        try: o = json.load(open(d + "/o.json"))
        except Exception: o = None
        if o and a.tier == "quick": confirm(j, o)
        return j, o, err
    # quick tier: once the real code has confirmed one counterexample, the other jobs are not needed
    stop = threading.Event(); clock = threading.Lock()
    known = [k for k in json.load(open(f"{V}/known_findings.json")).get("findings", []) if k["property"] == a.prop]
    isknown = lambda j, v: next((k for k in known if k["job"] == j["name"] and k["kind"] == v["kind"] and k["msg"] == v["msg"]), None)
    def confirm(j, o):
        vs = [v for v in o["violations"] if v["kind"] in ("assert", "abort", "fail") and not isknown(j, v)]
        if not vs: return
        with clock:
            if stop.is_set(): return
            try:
                with ThreadPoolExecutor(4) as p2: B.prepare("nat", [j], p2)
                rc, txt = replay(B.link_nat(j, "nat"), vs[0]["replay"], tmp)
                if rc in (77, 82, 83): stop.set()
            except Fail: pass
    res = list(pool.map(runjob, sorted(jl, key=lambda j: -j["timeout"])))
    t2 = time.time()
    skipped = [j["name"] for j, o, e in res if o is None and e == "stopped"]; res = [r for r in res if not (r[1] is None and r[2] == "stopped")]
    if skipped:   # only the jobs with counterexamples are looked at further
        a.nonative = True
    problems, violations, validated, mism = [], [], 0, []
    # traces of the engine against the natively compiled code; counterexamples likewise
    need_nat = [j for j, o, e in res if o and (o["violations"] or (o["traces"] and not a.nonative))]
    if need_nat:
        B.prepare("nat", need_nat, pool)
    def post(t):
        j, o, err = t; out = []; val = 0; mis = []
        if o is None: return j, out, val, mis
        if o["violations"] or (o["traces"] and not a.nonative):
            exe = B.link_nat(j, "nat")
            for tr in o["traces"] if not a.nonative else []:
                rc, txt = replay(exe, tr, tmp)
                if rc in (0, 81): val += 1
                else: mis.append((j["name"], rc, txt[-400:], open(tr).read()[:300]))
        return j, out, val, mis
    # native links first, one per distinct program
    seen = {}
    for j in need_nat: seen.setdefault((j["src"], j["cfg"], tuple(j["defs"]), tuple(j["libdefs"]), tuple(j["lib"] or []), tuple(j["extra"])), j)
    list(pool.map(lambda j: B.link_nat(j, "nat"), seen.values()))
    for j, out, val, mis in pool.map(post, res): validated += val; mism += mis
    for j, o, err in res:
        if o is None: problems.append(f"{j['name']}: engine gave no result: {err[-500:]}"); continue
        if a.v: print(j["name"], {k: (v if not isinstance(v, list) else len(v)) for k, v in o.items() if k not in ("asserts",)})
        for s in o["stops"]: problems.append(f"{j['name']}: {s}")
        if o["asserts_unknown"]: problems.append(f"{j['name']}: {o['asserts_unknown']} assertions undecided")
        if not o["violations"]:
            for c in j["covers"]:
                if not o["covers"].get(c): problems.append(f"{j['name']}: cover '{c}' not reached (vacuous)")
        for v in o["violations"]:
            if v["kind"] == "race" and a.tier == "quick" and any(x[1]["kind"] == "race" and x[2] for x in violations): continue   # one confirmed race is enough
            exe = B.link_nat(j, "nat"); ok = None; txt = ""
            if v["kind"] in ("assert", "abort", "fail"):
                rc, txt = replay(exe, v["replay"], tmp)
                if rc == 77 or (v["kind"] == "abort" and rc in (82, 83, 84, -6, -11)) or rc in (82, 83) : ok = f"native exit {rc}"
                if not ok and v["kind"] == "assert":
                    for fill in ("85", "170", "1", "255"):
                        rc, txt2 = replay(exe, v["replay"], tmp, env={"MALLOC_PERTURB_": fill})
                        if rc in (77, 82, 83): ok = f"native exit {rc} with MALLOC_PERTURB_={fill}"; txt = txt2; break
            if v["kind"] == "race":   # real threads, unordered, under the thread sanitizer
                try:
                    B.prepare("tsan", [j], pool); tx = B.link_nat(j, "tsan")
                    for _ in range(6):
                        rc, txt2 = replay(tx, v["replay"], tmp, env={"OMPRT_FREE": "1", "TSAN_OPTIONS": "exitcode=86"}, wrap=("setarch", "-R"))
                        if rc != 86 and "setarch" in txt2: rc, txt2 = replay(tx, v["replay"], tmp, env={"OMPRT_FREE": "1", "TSAN_OPTIONS": "exitcode=86"})
                        if rc == 86 or "data race" in txt2: ok = "thread sanitizer report on real threads"; txt = txt2; break
                        txt = txt2
                except Fail as e: txt += str(e)[-500:]
            if not ok and v["kind"] != "race":
                try:
                    B.prepare("asan", [j], pool); ax = B.link_nat(j, "asan"); rc, txt2 = replay(ax, v["replay"], tmp)
                    if rc in (84, 77): ok = f"sanitizer run exit {rc}"; txt = txt2
                except Fail as e: txt += str(e)[-500:]
            if not ok and v["kind"] != "race":
                rc, txt2 = replay(exe, v["replay"], tmp, wrap=("valgrind", "-q", "--error-exitcode=85"))
                if rc == 85 or "uninitialised" in txt2 or "Invalid" in txt2: ok = "valgrind memcheck report"; txt = txt2
            if not ok and v["kind"] == "loop" :
                rc, txt2 = replay(exe, v["replay"], tmp)
                if rc == 124: ok = "native run does not terminate"
            violations.append((j, v, ok, txt))
    rc = 0; nviol = 0; printed = set()
    rdir = f"{V}/build/replays"; os.makedirs(rdir, exist_ok=True)
    for j, v, ok, txt in violations:
        kf = isknown(j, v)
        if kf and ok:
            line = f"KNOWN-FINDING: property={a.prop} {kf['what']}"
            if line not in printed: print(line); printed.add(line)
            continue
        if ok:
            rp = f"{rdir}/{a.prop}-{j['name']}-{os.path.basename(v['replay'])}"
            with open(rp, "w") as f:
                f.write(f"# property {a.prop} job {j['name']} harness {j['src']} config {j['cfg']} defs {j['defs']}\n# {v['kind']}: {v['msg']}\n# at {v['where']}\n# confirmed: {ok}\n")
                f.write("".join("# | " + l + "\n" for l in txt.splitlines()[-15:])); f.write(open(v["replay"]).read())
            print(f"  {j['name']}: {v['kind']}: {v['msg']} @ {v['where'][:300]} ({ok})")
            print(f"VIOLATION property={a.prop} replay={rp}"); nviol += 1; rc = 1
        else:
            problems.append(f"{j['name']}: counterexample not confirmed natively: {v['kind']} {v['msg']} @ {v['where'][:200]} :: {txt[-300:]}")
    for m in mism: problems.append(f"trace mismatch {m}")
    fns = {}; 
    for j, o, err in res:
        if o:
            for n, c in o["functions"]: fns[n] = fns.get(n, 0) + c
    S = lambda k: sum((o or {}).get(k, 0) for j, o, e in res)
    asserts = {}
    for j, o, e in res:
        for k, n in ((o or {}).get("asserts") or {}).items(): asserts[k] = asserts.get(k, 0) + n
    repo_fns = sorted((n for n in fns if "QDP" in n or not n.startswith(("std::", "__gnu", "void std::", "bool std::", "operator", "_GLOBAL", "harness_main"))), key=lambda n: -fns[n])
    ev = {"property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": "model_checking",
      "coverage": {"states": S("paths") + S("forks"), "transitions": S("steps"), "traces_validated_against_impl": validated,
        "samples": [{"job": j["name"], "harness": j["src"], "config": j["cfg"], "params": j["p"], "paths": (o or {}).get("paths"), "asserted": dict(list(((o or {}).get("asserts") or {}).items())[:12])} for j, o, e in res[:40]],
        "meaning": "states: symbolic path states explored; transitions: LLVM IR instructions executed symbolically; each path stands for all input values satisfying its path condition",
        "paths": S("paths"), "solver": "z3 (linked as library)", "queries": S("queries"), "unsat": S("unsat"), "sat": S("sat"), "unknown": S("unknown"), "answered_by_cache": S("cached"), "answered_by_domain_enumeration_of_formula": S("by_domain"), "answered_by_polynomial_normal_form": S("by_simplifier"), "answered_by_modular_normal_form": S("by_modular"),
        "assertions_discharged_by_solver": S("asserts_solved"), "assertions_folded_to_constants": S("asserts_folded"), "assertions_undecided": S("asserts_unknown"), "assertion_sites": asserts,
        "solver_seconds": round(S("solver_time"), 3), "solver_max_query_seconds": max([(o or {}).get("solver_max", 0) for j, o, e in res]),
        "functions_encoded": len(fns), "repo_functions_encoded": [n[:160] for n in repo_fns[:80]],
        "bounds": JT.BOUNDS.get(a.prop, ""), "jobs": len(jl), "compile_seconds": round(t1 - t0, 1), "engine_seconds": round(t2 - t1, 1), "trace_mismatches": len(mism), "jobs_skipped_after_confirmed_violation": skipped, "inconclusive": problems[:20]},
      "assumptions": JT.ASSUME.get(a.prop, []) + JT.COMMON_ASSUME, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(f"{V}/evidence", exist_ok=True)
    if not a.job: json.dump(ev, open(f"{V}/evidence/{a.prop}.json", "w"), indent=1)
    for p in problems: print("INCONCLUSIVE:", p)
    print(f"{a.prop}: {len(jl)} jobs, {S('paths')} paths, {S('steps')} instrs, {S('queries')} queries ({S('solver_time'):.1f}s), {S('asserts_solved')}+{S('asserts_folded')} asserts, {validated} traces ok, {nviol} violations, {time.time()-t0:.1f}s")
    if rc == 0 and problems: return 2
    return rc

if __name__ == "__main__":
    try: sys.exit(main())
    except Fail as e: print("ERROR:", e); sys.exit(2)

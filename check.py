#!/usr/bin/env python3
"""Decides one property by symbolic execution of the library's real code.

check.py ID [--entry NAME] [--keep]        run the property's harnesses, write evidence/ID.json, exit 0 or 1
check.py --replay FILE                     run a recorded counterexample natively again
"""
import sys, os, json, subprocess, shutil, time, tempfile, hashlib, glob, re, concurrent.futures as cf, threading

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GEN_REPO", "/repo")
BIN = os.environ.get("SYMEX_BIN") or os.path.join(V, "build", "bin")
sys.path.insert(0, V)
CFLAGS = ("--target=x86_64-w64-mingw32 -fms-extensions -fno-exceptions -O0 -Xclang -disable-O0-optnone -Wno-everything -DGEN_BUILD_DEBUG=1 "
          "-std=c++17 -fdelayed-template-parsing -DGEN_TIME -ftrivial-auto-var-init=pattern -gline-tables-only -emit-llvm -c").split()
OPT = ["opt-18", "-passes=function(sroa,early-cse,simplifycfg,dce)"]
NCPU = os.cpu_count() or 4
LOCK = threading.Lock()


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", **kw)


def say(*a):
    with LOCK:
        print(*a, flush=True)


def ensure_engine():
    need = ["symex", "retarget", "bindc", "native_rt.o", "native_files.o"]
    if not all(os.path.exists(os.path.join(BIN, n)) for n in need):
        r = sh([os.path.join(V, "engine", "build.sh"), BIN])
        if r.returncode:
            say(r.stdout); sys.exit(3)


def stage(work):
    """A scratch copy of the sources with the enum headers regenerated from the CSV files by the repository's own generator."""
    src = os.path.join(work, "base")
    shutil.copytree(os.path.join(REPO, "base"), src)
    info = {"regenerated": False}
    try:
        g = os.path.join(work, "regen"); os.makedirs(g)
        r = sh(["clang++-18"] + CFLAGS + ["-I" + src, os.path.join(V, "engine", "regen.cpp"), "-o", g + "/g.bc"], timeout=200)
        if r.returncode: raise RuntimeError(r.stdout[-400:])
        sh([BIN + "/retarget", g + "/g.bc", g + "/n.bc"], timeout=100)
        r = sh(["clang++-18", "-w", "-O0", "-x", "ir", g + "/n.bc", "-x", "none", BIN + "/native_rt.o", BIN + "/native_files.o", "-o", g + "/gen"], timeout=200)
        if r.returncode: raise RuntimeError(r.stdout[-400:])
        open(g + "/none.txt", "w").write("\n")
        out = os.path.join(work, "gensrc"); shutil.copytree(src, out); os.makedirs(out + "/build", exist_ok=True)
        r = sh([g + "/gen", g + "/none.txt", "60"], cwd=out, timeout=100)
        names = ["ecodetypes", "eoperator", "especifier", "etoktype", "ast_inlines"]
        if r.returncode == 0 and all(os.path.getsize(f"{out}/components/gen/{n}.hpp") > 500 for n in names):
            for n in names: shutil.copy(f"{out}/components/gen/{n}.hpp", f"{src}/components/gen/{n}.hpp")
            info["regenerated"] = True
        else: info["note"] = "generator: " + r.stdout[-200:]
    except Exception as e:
        info["note"] = "generator: " + str(e)[-300:]
    return src, info


def compile_unit(work, src, fname, defs):
    key = hashlib.md5((fname + " ".join(defs)).encode()).hexdigest()[:8]
    out = os.path.join(work, os.path.basename(fname).split(".")[0] + "-" + key)
    inc = next((os.path.join(os.path.dirname(src), d, "gen") for k, (d, m) in GENERATED.items() if k in defs and k != "-DCLIB"), src)
    r = sh(["clang++-18"] + CFLAGS + ["-I" + inc, "-I" + os.path.join(V, "harness"), "-I" + work] + defs + [os.path.join(V, "harness", fname), "-o", out + ".0.bc"], timeout=300)
    if r.returncode: return None, r.stdout
    if "-DCLIB" in defs: # the same harness, bound to the generated C library
        c, msg = compile_clib(work, tuple(d for d in defs if d != "-DCLIB"))
        if not c: return None, msg
        r = sh(["llvm-link-18", out + ".0.bc", c, "-o", out + ".1.bc"], timeout=300)
        if r.returncode: return None, r.stdout
        r = sh([BIN + "/bindc", out + ".1.bc", out + ".0.bc"], timeout=300)
        if r.returncode: return None, r.stdout
    r = sh(OPT + [out + ".0.bc", "-o", out + ".bc"], timeout=300)
    if r.returncode: return None, r.stdout
    return out + ".bc", ""


def run_generator(work, src, name, main):
    """Runs one of the repository's generators (gen_c_library, gen_singleheader, ...) natively on the sources in src; returns the folder it wrote."""
    top = os.path.dirname(src)
    d = os.path.join(top, name); shutil.copytree(os.path.join(REPO, name), d, ignore=shutil.ignore_patterns("gen", "build")); os.makedirs(d + "/gen", exist_ok=True)
    g = os.path.join(work, "regen-" + name); os.makedirs(g)
    r = sh(["clang++-18"] + CFLAGS + ["-fno-threadsafe-statics", "-I" + src, f'-DGENERATOR="{d}/{main}"', os.path.join(V, "engine", "generate.cpp"), "-o", g + "/g.bc"], timeout=200)
    if r.returncode: raise RuntimeError(r.stdout[-600:])
    sh([BIN + "/retarget", g + "/g.bc", g + "/n.bc"], timeout=100)
    r = sh(["clang++-18", "-w", "-O0", "-x", "ir", g + "/n.bc", "-x", "none", BIN + "/native_rt.o", BIN + "/native_files.o", "-o", g + "/gen"], timeout=200)
    if r.returncode: raise RuntimeError(r.stdout[-600:])
    open(g + "/none.txt", "w").write("\n")
    r = sh([g + "/gen", g + "/none.txt", "120"], cwd=d, timeout=150, env=dict(os.environ, GEN_SHIM=os.path.join(V, "engine", "refactor.py")))
    if r.returncode: raise RuntimeError(f"{name}: generator ended with {r.returncode}: " + r.stdout[-600:])
    return d + "/gen"


_clib = {}
_clock = threading.Lock()


GENERATED = {"-DCLIB": ("gen_c_library", "c_library.cpp"), "-DSINGLE": ("gen_singleheader", "singleheader.cpp"), "-DSEGMENTED": ("gen_segmented", "segmented.cpp")}


def prepare_generated(work, src, defs):
    """Runs the generators whose output some unit is compiled against."""
    for k, (d, m) in GENERATED.items():
        if k in defs: run_generator(work, src, d, m)


def compile_clib(work, defs):
    """The C library that was generated from the sources, compiled as the build does."""
    with _clock:
        if defs not in _clib:
            out = f"{work}/clib{len(_clib)}.bc"
            c = [f for f in CFLAGS if f not in ("-std=c++17", "-fdelayed-template-parsing", "-fno-exceptions")] + ["-x", "c", "-std=c11", "-fgnu89-inline"] + list(defs)
            r = sh(["clang-18"] + c + ["-I" + os.path.join(os.path.dirname(src_of(work)), "gen_c_library", "gen"), os.path.join(V, "harness", "clib.c"), "-o", out], timeout=300)
            _clib[defs] = (None, "the C library does not compile: " + r.stdout[-1500:]) if r.returncode else (out, "")
        return _clib[defs]


def src_of(work): return os.path.join(work, "base")


_native = {}
_nlock = threading.Lock()


def native_obj(bc):
    with _nlock:
        if bc not in _native:
            sh([BIN + "/retarget", bc, bc + ".n", "asan"], timeout=200)
            r = sh(["clang++-18", "-w", "-O0", "-fsanitize=address", "-x", "ir", bc + ".n", "-c", "-o", bc + ".o"], timeout=400)
            _native[bc] = (bc + ".o") if r.returncode == 0 else None
        return _native[bc]


def native_exe(bc, entry):
    o = native_obj(bc)
    if not o: return None
    exe = bc + "." + entry
    with _nlock:
        if not os.path.exists(exe):
            r = sh(["clang++-18", "-fsanitize=address", "-no-pie", o, BIN + "/native_rt.o", "-Wl,--defsym=harness=" + entry, "-o", exe], timeout=200)
            if r.returncode: return None
    return exe


def native_run(exe, inputs, opts, tag, limit=20):
    p = exe + "." + tag + ".txt"
    with open(p, "w") as f: f.write("\n".join(str(i["v"]) for i in inputs) + "\n")
    env = dict(os.environ, ASAN_OPTIONS="exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1")
    for k, v in opts.items(): env["OPT_" + k] = str(v)
    try:
        r = sh([exe, p, str(limit)], timeout=limit + 20, env=env)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, out = -14, "timeout"
    return rc, out


def outcome(rc):
    return {0: "ok", 42: "check", 43: "fatal", 45: "known", 47: "unsupported", 99: "memory", -14: "steps"}.get(rc, "crash")


class Unit:
    def __init__(self, file, entry, quick=None, thorough=None, time=60, ttime=None, workers=4, crc=False, fast=True, defs=(), stubs=(), steps=20000000, labels=(), bounds="", note="", partial=False):
        self.__dict__.update(locals()); self.quick = quick or {}; self.thorough = thorough or self.quick; self.ttime = ttime or 600


def run_entry(work, u, bc, tier, budget):
    opts = u.thorough if tier == "thorough" else u.quick
    limit = min(u.ttime if tier == "thorough" else u.time, budget)
    out = os.path.join(work, "out-" + u.file.split(".")[0] + "-" + u.entry); os.makedirs(out, exist_ok=True)
    cmd = [BIN + "/symex", bc, "--entry=" + u.entry, "--out=" + out, f"--workers={u.workers}", f"--time={limit}", f"--max-steps={u.steps}", "--samples=10", f"--mem={20000 // NCPU}"]
    if u.crc is False: cmd.append("--abs-crc")
    if u.fast: cmd.append("--fast-mem")
    cmd += ["--stub=" + s for s in u.stubs] + [f"--opt={k}={v}" for k, v in opts.items()]
    t = time.time()
    try: r = sh(cmd, timeout=limit + 120)
    except subprocess.TimeoutExpired: return {"error": "engine ran out of time", "entry": u.entry}
    try: s = json.load(open(out + "/summary.json"))
    except Exception: return {"error": "engine failed: " + r.stdout[-600:], "entry": u.entry}
    s["entry"] = u.entry; s["secs"] = time.time() - t; s["log"] = r.stdout[-2000:]
    s["viol"] = []; seen = set()
    for p in sorted(glob.glob(out + "/viol-*.json")):
        v = json.load(open(p)); k = (v["kind"], v["msg"], v["where"].split("<")[0].split("|")[0][:120])
        if k not in seen: seen.add(k); s["viol"].append(v)
    s["knownrec"] = [json.load(open(p)) for p in sorted(glob.glob(out + "/known-*.json"))]
    s["samp"] = [json.load(open(p)) for p in sorted(glob.glob(out + "/sample-*.json"))]
    s["opts"] = opts
    return s


def known_list():
    res = {}
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
            if m: res[(m.group(1), m.group(2))] = m.group(3).strip()
    return res


def main():
    if sys.argv[1] == "--replay": return replay(sys.argv[2])
    prop = sys.argv[1]; only = None; keep = "--keep" in sys.argv
    if "--entry" in sys.argv: only = sys.argv[sys.argv.index("--entry") + 1]
    tier = os.environ.get("VERIF_TIER", "quick"); tier = "thorough" if "--thorough" in sys.argv else tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import props
    P = props.PROPS[prop]
    ensure_engine()
    os.makedirs(os.path.join(V, "build"), exist_ok=True); os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-" + prop + "-", dir=os.path.join(V, "build"))
    try: rc = run(prop, P, tier, seed, work, only, t0)
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)
        else: say("kept", work)
    return rc


def run(prop, P, tier, seed, work, only, t0):
    known = known_list()
    src, info = stage(work)
    if P.get("prepare"): P["prepare"](work, src)
    units = [u for u in P["units"] if not only or u.entry == only]
    try:
        prepare_generated(work, src, {d for u in units for d in u.defs})
    except Exception as e: say("cannot generate:", e); return 3
    if tier != "thorough": units = [u for u in units if u.time > 0]
    hard = 840 if tier == "quick" else 10800
    files = {}
    for u in units: files.setdefault((u.file, tuple(u.defs)), None)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for k, (bc, msg) in zip(files, ex.map(lambda k: compile_unit(work, src, k[0], list(k[1])), files)): files[k] = bc; (say("cannot compile", k[0], msg[-1500:]) if not bc else None)
    if any(b is None for b in files.values()): return 3
    nat = cf.ThreadPoolExecutor(3)
    for b in files.values(): nat.submit(native_obj, b)
    results = {}
    free = [NCPU]; cond = threading.Condition()

    def job(u):
        w = min(u.workers, NCPU)
        with cond:
            while free[0] < w: cond.wait()
            free[0] -= w
        try: return run_entry(work, u, files[(u.file, tuple(u.defs))], tier, max(5, hard - (time.time() - t0)))
        finally:
            with cond: free[0] += w; cond.notify_all()
    with cf.ThreadPoolExecutor(max(1, len(units))) as ex: res = list(ex.map(job, units))
    violations, unconfirmed, knownseen, validated, mismatched, errors = [], [], {}, 0, [], []
    tot = {}; functions = set(); samples = []; per = []
    rdir = os.path.join(V, "evidence", "replay", prop); shutil.rmtree(rdir, ignore_errors=True)
    for u, s in zip(units, res):
        bc = files[(u.file, tuple(u.defs))]
        if "error" in s: errors.append(s["entry"] + ": " + s["error"]); continue
        for k in ("paths", "rejected", "assumed_away", "known", "errors", "instructions", "forks", "z3_sat", "z3_unsat", "domain_unsat", "domain_sat", "unknown", "cached", "checks_const", "checks_z3", "z3_s", "sym_fp", "unsupported", "concretized", "killed_workers"): tot[k] = tot.get(k, 0) + s[k]
        functions |= set(f for f in s["functions"] if (f.startswith(("gen_", "MacroTable")) if "-DCLIB" in u.defs else "gen::" in f))
        complete = not s["incomplete"]
        per.append({"entry": u.entry, "bounds": u.bounds, "options": s["opts"], "complete": complete, "paths": s["paths"], "rejected": s["rejected"], "solver_queries": s["z3_sat"] + s["z3_unsat"] + s["checks_z3"], "solver_s": round(s["z3_s"], 2), "max_query_s": s["max_query_s"], "wall_s": round(s["secs"], 1), "reached": s["reached"], "why_incomplete": s["unsupported_msg"] if not complete else ""})
        exe = None
        for n, v in enumerate(s["viol"]):
            exe = exe or native_exe(bc, u.entry)
            rc, out = native_run(exe, v["inputs"], s["opts"], f"v{n}") if exe else (1, "no native build")
            o = outcome(rc)
            v["native"] = o; v["native_output"] = out[-1500:]; v["entry"] = u.entry; v["file"] = u.file; v["defs"] = list(u.defs); v["options"] = s["opts"]; v["property"] = prop
            good = o in ("check", "fatal", "memory", "steps", "crash")
            if good:
                os.makedirs(rdir, exist_ok=True); path = os.path.join(rdir, f"{u.file.split('.')[0]}-{u.entry}-{n}.json"); json.dump(v, open(path, "w"), indent=1); violations.append((v, path))
            else: unconfirmed.append({"entry": u.entry, "kind": v["kind"], "msg": v["msg"], "where": v["where"], "native": o})
        for k in s["knownrec"]:
            if (prop, k["id"]) in known: knownseen[k["id"]] = 1
            else:
                os.makedirs(rdir, exist_ok=True); path = os.path.join(rdir, f"{u.file.split('.')[0]}-{u.entry}-{k['id']}.json"); k.update(entry=u.entry, file=u.file, defs=list(u.defs), options=s["opts"], property=prop); json.dump(k, open(path, "w"), indent=1); violations.append((k, path))
        if complete and not s["viol"]:
            for l in u.labels:
                if not s["reached"].get(l):
                    os.makedirs(rdir, exist_ok=True); path = os.path.join(rdir, f"{u.file.split('.')[0]}-{u.entry}-unreached-{l}.json"); v = {"kind": "unreached", "msg": "no input reaches '" + l + "'", "where": u.entry, "inputs": [], "entry": u.entry, "file": u.file, "defs": list(u.defs), "options": s["opts"], "property": prop}; json.dump(v, open(path, "w"), indent=1); violations.append((v, path))
        for n, sm in enumerate(s["samp"]):
            exe = exe or native_exe(bc, u.entry)
            if not exe: break
            rc, out = native_run(exe, sm["inputs"], s["opts"], f"s{n}")
            if rc == 0: validated += 1
            else: mismatched.append({"entry": u.entry, "inputs": sm["inputs"][:40], "native": outcome(rc), "out": out[-600:]})
            if len(samples) < 24 and n < 3: samples.append({"entry": u.entry, "inputs": {i["name"]: i["v"] for i in sm["inputs"][:48]}, "path_constraints": sm["constraints"], "steps": sm["steps"]})
    # a solver-chosen input on which the native run misbehaves although the symbolic run did not is a violation shown on the real code
    for n, m in enumerate(mismatched):
        if m["native"] in ("check", "memory", "fatal", "crash") and P.get("native_counts", True):
            unconfirmed.append({"entry": m["entry"], "kind": "native-only", "msg": m["out"][-300:], "where": "native run of a sampled path", "native": m["native"]})
    complete = all(p["complete"] for p in per) and not errors
    cov = {"states": tot.get("paths", 0) + tot.get("rejected", 0), "transitions": tot.get("instructions", 0), "traces_validated_against_impl": validated, "samples": samples or [{"note": "no path ended"}], "exhaustive": complete,
           "explanation": "states: feasible paths of the real code, each standing for every input that satisfies its path condition; transitions: IR instructions executed symbolically; traces validated: solver-chosen inputs replayed natively (ASan) with the same outcome.",
           "entries": per, "functions_encoded": sorted(functions), "functions_encoded_count": len(functions), "solver": {"feasibility_sat": tot.get("z3_sat", 0), "feasibility_unsat": tot.get("z3_unsat", 0), "byte_domain_decided": tot.get("domain_unsat", 0) + tot.get("domain_sat", 0), "assertions_by_solver": tot.get("checks_z3", 0), "assertions_folded_to_true": tot.get("checks_const", 0), "unknown": tot.get("unknown", 0), "solver_s": round(tot.get("z3_s", 0), 2)},
           "bounds": P["bounds"], "unconfirmed": unconfirmed, "native_mismatches": mismatched[:10], "engine_errors": errors, "stage": info, "totals": tot}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": P["assumptions"] + props_common(), "wall_s": round(time.time() - t0, 1), "violations": len(violations)}
    if only is None: json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for p in per: say(f"  {p['entry']}: paths={p['paths']} rejected={p['rejected']} complete={p['complete']} queries={p['solver_queries']} solver={p['solver_s']}s wall={p['wall_s']}s {p['why_incomplete']}")
    for e in errors: say("  engine error:", e)
    for x in unconfirmed: say("  not reproduced natively:", json.dumps(x)[:600])
    if mismatched: say("  native mismatches:", len(mismatched), json.dumps(mismatched[0])[:800])
    for (kp, kid), txt in known.items():
        if kp == prop:
            if kid in knownseen: say(f"KNOWN-FINDING: property={prop} {kid} {txt}")
            elif only is None: say(f"  listed finding {kid} did not show in this run")
    for v, path in violations:
        say(f"  {v['entry']}: {v['kind']}: {v['msg']} @ {v['where'][:300]}")
        say(f"VIOLATION property={prop} replay={path}")
    say(f"{prop}: {'VIOLATED' if violations else 'held'} on {cov['states']} paths, complete={complete}, {ev['wall_s']}s")
    if violations: return 1
    return 3 if errors else 0


def props_common():
    return ["Code is the IR of the sources in /repo/base (enum headers regenerated from the CSV files by the repository's own generator), compiled by clang 18 for the library's Windows target, as the build does, at -O0 with asserts on.",
            "Heap memory is filled with 0xCD and locals with 0xAA before use; allocation from the C runtime succeeds and returns exactly aligned, separate objects.",
            "The message printing of the library's assert handler is skipped; the trap after it ends the path as a fatal error.",
            "Unless the entry says otherwise crc32 is replaced by an injective function of its input (collisions are M29's), and mem_copy, mem_move and mem_set by their byte-wise meaning, which is decided separately."]


def replay(path):
    v = json.load(open(path)); ensure_engine()
    work = tempfile.mkdtemp(prefix="replay-", dir=os.path.join(V, "build"))
    try:
        import props
        src, info = stage(work)
        P = props.PROPS[v["property"]]
        if P.get("prepare"): P["prepare"](work, src)
        prepare_generated(work, src, v["defs"])
        bc, msg = compile_unit(work, src, v["file"], v["defs"])
        if not bc: say(msg); return 3
        exe = native_exe(bc, v["entry"]); rc, out = native_run(exe, v["inputs"], v["options"], "r")
        say(out); say("outcome:", outcome(rc)); return 0 if rc == 0 else 1
    finally: shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__": sys.exit(main())

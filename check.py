#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough] : decide one property of /repo's current tree by deductive verification."""
import os, sys, json, time, re, subprocess, shutil, tempfile, multiprocessing, traceback, fnmatch
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(ROOT, "contracts"), os.path.join(ROOT, "dv")]
sys.setrecursionlimit(20000)
import lib
from registry import PROPS
REPO = lib.REPO
LIMIT = {"quick": 560, "thorough": 3000}

def run_contract(job):
    (modname, fname, tuname, args, flags, budget, timeout) = job
    import importlib
    M = importlib.import_module(modname)
    label = "%s.%s(%s)%s" % (modname, fname, ",".join(getattr(a, "sfx", str(a)) for a in args), " ".join([""] + list(flags)))
    r = lib.Result(label)
    tu = TUS[(tuname, tuple(flags))]
    if isinstance(tu, Exception):
        r.failures.append(("compile", label, "the wrapper unit does not compile against the current sources: " + str(tu)[-1500:], None)); r.obligations = 1
        return r
    c = lib.Ctx(tu, label, budget, timeout)
    try:
        getattr(M, fname)(c, *args)
    except lib.LimitExceeded as x:
        c.ex.count("supported"); c.ex.failures.append(lib.Failure("undecided", c.ex.ctx, "limit: %s" % x, None, []))
    except Exception as x:
        c.ex.count("supported"); c.ex.failures.append(lib.Failure("unsupported", c.ex.ctx, "%s: %s\n%s" % (type(x).__name__, x, traceback.format_exc()[-900:]), None, []))
    try: return c.done()
    except Exception as x:
        r.failures.append(("unsupported", label, "internal: %s" % x, None)); return r

def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMIT: tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]; t0 = time.time()
    evdir = os.path.join(ROOT, "evidence"); os.makedirs(evdir, exist_ok=True)
    rpath = os.path.join(evdir, "replay-%s.txt" % pid)
    if os.path.exists(rpath): os.remove(rpath)
    work = tempfile.mkdtemp(prefix="ilv-%s-" % pid)
    try: return decide(pid, P, tier, seed, t0, evdir, rpath, work)
    finally: shutil.rmtree(work, ignore_errors=True)

def decide(pid, P, tier, seed, t0, evdir, rpath, work):
    global TUS
    jobs = []
    for j in P["contracts"]:
        m, f, tu = j["mod"], j["fn"], j["tu"]
        if j.get("tier") == "thorough" and tier == "quick": continue
        variants = [j.get("flags", ())]
        if tier == "thorough" and P.get("release", True) and not j.get("norelease"): variants.append(tuple(j.get("flags", ())) + ("-DNDEBUG",))
        for fl in variants:
            for a in j.get("args", [()]): jobs.append((m, f, tu, a, fl, j.get("budget", 240 if tier == "quick" else 900), 8000 if tier == "quick" else 20000))
    import concurrent.futures as cf
    TUS = {}
    keys = sorted({(j[2], tuple(j[4])) for j in jobs})
    def comp(k):
        try: return k, lib.TU(k[0], k[1], work)
        except Exception as x: return k, x
    with cf.ThreadPoolExecutor(8) as ex:
        for k, t in ex.map(comp, keys): TUS[k] = t
    results = []; pending = []
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(8, maxtasksperchild=4) as pool:
        hs = [(j, pool.apply_async(run_contract, (j,))) for j in jobs]
        for j, h in hs:
            try: results.append(h.get(max(1, LIMIT[tier] - (time.time() - t0))))
            except multiprocessing.TimeoutError:
                r = lib.Result("%s.%s" % (j[0], j[1])); r.obligations = 1; r.failures.append(("undecided", r.name, "time budget exhausted", None)); results.append(r)
            except Exception as x:
                r = lib.Result("%s.%s" % (j[0], j[1])); r.obligations = 1; r.failures.append(("unsupported", r.name, "worker died: %r" % x, None)); results.append(r)
        # a failed proof may be the solver's incompleteness (time, nonlinear arithmetic): attempted once more, with more time
        lim = LIMIT[tier] + 60
        soft = [i for i, r in enumerate(results) if r.failures and not any(f[0] == "compile" for f in r.failures)]
        left = lim - (time.time() - t0)
        if soft and len(soft) <= 8 and left > 60:
            again = [(i, pool.apply_async(run_contract, (hs[i][0][:5] + (left, 3 * hs[i][0][6]),))) for i in soft]
            for i, h in again:
                try: r = h.get(max(1, lim + 20 - (time.time() - t0)))
                except Exception: continue
                if len(r.failures) < len(results[i].failures) or not r.failures: results[i] = r
        pool.terminate()
    ign = [re.compile(x) for x in P.get("ignore", [])]
    ALWAYS = ("compile", "unsupported", "undecided")
    relevant, other, known = [], [], []
    kf = [k for k in load_known() if k.get("property") == pid and k.get("status") != "fixed" and k.get("obligation")]
    for r in results:
        for f in r.failures:
            if f[0] not in ALWAYS and any(x.match(f[0]) for x in ign): other.append((r.name, f)); continue
            hit = [k for k in kf if re.search(k["obligation"], f[0]) and re.search(k["where"], f[1])]
            (known if hit else relevant).append((r.name, f, hit))
        for v in r.vacuous: relevant.append((r.name, ("vacuous", r.name, v, None), []))
        if r.obligations == 0 and not r.failures: relevant.append((r.name, ("vacuous", r.name, "no obligation was generated", None), []))
    # bounded stand-ins (never counted as proved)
    bounded = []
    for b in P.get("bounded", []):
        rc, out, secs = run_driver(pid, b["driver"], b.get("args", []), seed, work, b.get("secs", 120) if tier == "quick" else b.get("secs", 120) * 4, tier)
        bounded.append({"what": b["what"], "bound": b["bound"], "seconds": round(secs, 1), "result": "ok" if rc == 0 else "failed", "output": out.strip().split("\n")[-1][:400]})
        if rc not in (0,): relevant.append((b["driver"], ("bounded", b["what"], out[-3000:], "concrete" if rc != 99 else None), []))
    code = 0; line = None
    hard = False
    for k in kf: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if relevant:
        code = 1; text = []
        text.append("property %s: %d obligation(s) not discharged\n" % (pid, len(relevant)))
        rep = ""
        if any(f[0] == "bounded" and f[3] for n, f, h in relevant): hard = True
        drvs = P.get("replay", [])
        if drvs and not hard:
            with cf.ThreadPoolExecutor(8) as ex:
                for drv, (rc, out, secs) in zip(drvs, ex.map(lambda d: run_driver(pid, d[0], d[1:], seed, work, 150, tier), drvs)):
                    if rc not in (0, 99): hard = True; rep = "FAILING INPUT found by replaying on the real code (driver %s, exit %d):\n%s\n" % (drv[0], rc, out[-6000:]) + rep
                    else: rep += "no failing input found by the replay driver %s (exit %d, %.1fs)\n%s\n" % (drv[0], rc, secs, out[-1500:])
        text.append(rep)
        for n, f, h in relevant[:60]:
            text.append("contract %s\n  failed obligation: %s\n  at: %s\n  %s\n  verifier counterexample: %s\n" % (n, f[0], f[1], f[2], f[3]))
        open(rpath, "w").write("\n".join(text))
        line = "VIOLATION property=%s replay=%s" % (pid, rpath) + ("" if hard else " no-failing-input-found")
    ob = sum(r.obligations for r in results); di = sum(max(0, r.discharged) for r in results)
    funcs = sorted(set().union(*[r.funcs for r in results]) if results else [])
    loops = sorted({"%s %s: %s" % (l[0], l[1], ", ".join(map(str, l[2:]))) for r in results for l in r.loops})
    kinds = {}
    for r in results:
        for k, v in r.obls.items(): kinds[k] = kinds.get(k, 0) + v
    posts = {}
    for r in results:
        for k, v in r.posts.items(): posts[k] = posts.get(k, 0) + v
    try:
        import z3; zv = z3.get_version_string()
    except Exception: zv = "?"
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P.get("level", "proof"), "wall_s": round(time.time() - t0, 2), "violations": 1 if code else 0,
          "assumptions": TRUSTED + P.get("assumptions", []) + sorted(set().union(*[r.assumed for r in results]) if results else []),
          "coverage": {"obligations": ob, "discharged": di, "checker_cmd": "python3-vt check.py %s %s (back ends: z3 %s via API, cvc5 1.1.2 for obligations z3 leaves unknown)" % (pid, tier, zv),
                       "trusted_base": ["clang 18 front end and opt passes sroa,mem2reg,instsimplify,dce (C++ to LLVM IR)", "dv/ verification-condition generator", "z3", "cvc5"],
                       "contracts": [{"contract": r.name, "obligations": r.obligations, "discharged": r.discharged, "calls_specified": r.cases, "calls_with_reachable_return": r.reached, "solver_queries": r.queries, "solver_s": round(r.solver_s, 2), "wall_s": round(r.wall, 2), "by_cvc5": r.cvc5} for r in results],
                       "functions_verified": funcs, "functions_verified_count": len(funcs), "loops": loops, "obligation_kinds": kinds, "postconditions": posts,
                       "wrapper_units": {" ".join((k[0],) + k[1]): {"functions_in_ir": getattr(t, "nfun", 0)} for k, t in TUS.items()},
                       "failed_elsewhere": [(n, f[0], f[1]) for n, f in other][:20], "known_findings": [k["what"] for k in kf], "solver_s": round(sum(r.solver_s for r in results), 2), "by_z3": di - sum(r.cvc5 for r in results), "by_cvc5": sum(r.cvc5 for r in results)}}
    if bounded: ev["coverage"]["bounded"] = bounded
    json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
    print("%s: %d contracts, %d obligations, %d discharged, %d functions, %.1fs (solver %.1fs)%s" % (pid, len(results), ob, di, len(funcs), time.time() - t0, ev["coverage"]["solver_s"], "; %d obligations of other properties failed" % len(other) if other else ""))
    for n, f, h in relevant[:12]: print("  undischarged %s | %s | %s" % (f[0], f[1][:200], f[2][:200].replace("\n", " ")))
    if line: print(line)
    return code

TRUSTED = ["malloc/operator new return a fresh, 16-byte aligned block smaller than 2^47 bytes, or null/abort (x86-64 user address space)",
           "the wrapper units instantiate templates at double and at an opaque class type known only by the contracts of its special members; other element types are covered by parametricity",
           "memcpy of zero bytes accepts null pointers"]

def run_driver(pid, name, args, seed, work, secs, tier):
    """compile a concrete driver against /repo and run it; rc 0 = nothing found, 99 = could not run"""
    src = os.path.join(ROOT, "replay", name + ".cpp"); exe = os.path.join(work, name + "-" + pid)
    t0 = time.time()
    cmd = ["g++", "-std=c++11", "-g", "-O1", "-w", "-include", "cstdint", "-include", "climits", "-fno-access-control", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=nonnull-attribute", "-I" + REPO, "-I" + os.path.join(ROOT, "replay"), "-I/usr/include/mkl", src, "-o", exe]
    if not os.path.exists(exe):
        try: p = subprocess.run(cmd, capture_output=True, text=True, timeout=280)
        except subprocess.TimeoutExpired: return 99, "driver compilation timed out", time.time() - t0
        if p.returncode: return 99, "driver does not compile against the current sources:\n" + p.stderr[-2000:], time.time() - t0
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1")
    try:
        p = subprocess.run([exe, pid, str(seed), tier] + list(args), capture_output=True, text=True, errors="replace", timeout=secs, env=env, cwd=work)
        return p.returncode, p.stdout[-6000:] + p.stderr[-4000:], time.time() - t0
    except subprocess.TimeoutExpired as x:
        return 98, "the driver did not terminate within %d s (last output follows)\n%s" % (secs, ((x.stdout or b"")[-2000:]).decode("utf-8", "replace") if isinstance(x.stdout, bytes) else x.stdout), time.time() - t0

if __name__ == "__main__":
    sys.exit(main())

"""Incremental z3 front end: entailment checks of path conditions, with monotonicity lemmas for products."""
import time, subprocess, tempfile, os
import z3
from term import *

class Stats:
    def __init__(s):
        s.queries = 0; s.time = 0.0; s.obligations = 0; s.discharged = 0; s.by = {}; s.lemmas = 0; s.slow = []; s.cvc5 = 0

class Model:
    def __init__(s, m, facts):
        s.m = m; s.val = {c.id: True for c in facts if isinstance(c, Term)}; s.keep = [c for c in facts if isinstance(c, Term)]; s.monos = set()
        for c in s.keep: s.monos |= monos_of(c)
    def holds(s, c):
        v = s.val.get(c.id)
        if v is None:
            if not monos_of(c) <= s.monos: v = False
            else: v = bool(z3.is_true(s.m.eval(z(c), model_completion=True)))
            s.val[c.id] = v; s.keep.append(c)
        return v
    def satisfies(s, p, pc, cond):
        if not s.holds(cond): return False
        new = 0
        for c in reversed(pc):
            if not isinstance(c, Term): return False
            if c.id not in s.val:
                new += 1
                if new > 30: return False
            if not s.holds(c): return False
        return True

class Prover:
    gtimeout = 4000
    def __init__(s, timeout=8000, seed=0):
        s.timeout = timeout; s.st = Stats(); s.seed = seed
        s.reset()
    def reset(s):
        s.sol = z3.Solver(); s.sol.set("timeout", s.timeout); s.stack = []; s.lv = []; s.cache = {}
    def _isterm(s, x): return isinstance(x, Term)
    def sync(s, pc):
        i = 0
        st = s.stack
        while i < len(st) and i < len(pc) and st[i] is pc[i]: i += 1
        if len(st) > i:
            s.sol.pop(len(st) - i); del st[i:]; del s.lv[i:]
        for c in pc[i:]:
            s.sol.push(); s.sol.add(z(c) if s._isterm(c) else c); st.append(c)
            ms, done = s.lv[-1] if s.lv else (frozenset(), frozenset())
            m = monos_of(c) if s._isterm(c) else frozenset()
            if not m <= ms and not s.nolemmas:
                ms = ms | m; new = [l for l in nl_lemmas(ms) if l.id not in done]
                for l in new: s.sol.add(z(l))
                done = done | {l.id for l in new}
            s.lv.append((ms, done))
    nolemmas = False
    def lemmas(s, facts):
        if s.nolemmas: return []
        ms = set()
        for f in facts:
            if s._isterm(f): ms |= monos_of(f)
        if not ms: return []
        return nl_lemmas(ms)
    def check(s, pc, extra, timeout=None):
        """satisfiability of pc and extra: 'sat'/'unsat'/'unknown'; leaves s.model"""
        t0 = time.time(); s.st.queries += 1
        s.sync(pc)
        s.sol.push()
        try:
            ex = [e for e in extra]
            for e in ex: s.sol.add(z(e) if s._isterm(e) else e)
            ms, done = s.lv[-1] if s.lv else (frozenset(), frozenset())
            m = frozenset().union(*[monos_of(e) for e in ex if s._isterm(e)])
            lem = [] if m <= ms or s.nolemmas else [l for l in nl_lemmas(ms | m) if l.id not in done]
            for l in lem: s.sol.add(z(l))
            s.st.lemmas += len(lem)
            s.sol.set("timeout", timeout or s.timeout)
            r = str(s.sol.check())
            s.model = s.sol.model() if r == "sat" else None
            s.reason = s.sol.reason_unknown() if r == "unknown" else ""
        finally:
            s.sol.pop()
        s.st.time += time.time() - t0
        return r
    # models of earlier queries answer satisfiable queries without a search ("sat" is the inconclusive answer for every caller of quick)
    models = (); qfree = None
    def quick(s, pc, cond, timeout=None):
        if not s._isterm(cond): return s.check(pc, [cond], timeout)
        if cond is FALSE: return "unsat"
        if s.qfree is not None:      # branch decisions without the quantified facts: fewer paths are pruned, none wrongly
            q = [c for c in pc if not (s._isterm(c) and has_forall(c))]
            if len(q) < len(pc): return s.qfree.quick(q, cond, timeout)
        for M in s.models:
            if M.satisfies(s, pc, cond): s.st.hits = getattr(s.st, "hits", 0) + 1; return "sat"
        r = s.check(pc, [cond], timeout)
        if r == "sat": s.models = [Model(s.model, list(pc) + [cond])] + list(s.models)[:5]
        return r
    def feasible(s, pc, cond):
        """False only if pc and cond is unsatisfiable"""
        if s._isterm(cond):
            if cond is FALSE: return False
        r = s.quick(pc, cond, 1500)
        return r != "unsat"
    def valid(s, pc, goal, timeout=None):
        """'yes' | 'no' (model) | 'unknown'"""
        if s._isterm(goal):
            if goal is TRUE: return "yes"
            key = (len(pc), pc[-1].id if pc and s._isterm(pc[-1]) else None, goal.id)
            ng = not_(goal)
            if any(c is goal for c in pc): return "yes"
        else: ng = z3.Not(goal)
        r = s.check(pc, [ng], timeout)
        return {"unsat": "yes", "sat": "no", "unknown": "unknown"}[r]
    def ground(s, pc, goal):
        """quantified facts replaced by their ground instances at the terms that occur ("unsat" is conclusive)"""
        q = [c for c in pc if not (s._isterm(c) and has_forall(c))]
        if len(q) == len(pc) and not has_forall(goal): return s.qfree.check(pc, [not_(goal)], s.gtimeout)
        ng = not_(goal)
        return s.qfree.check(q, ([] if has_forall(ng) else [ng]) + [i for i in instances(pc, goal, 600) if not has_forall(i)], s.gtimeout)
    def prove(s, pc, goal, timeout=None):
        if s.qfree is not None and s._isterm(goal) and s.ground(pc, goal) == "unsat": return "yes"
        r = s.valid(pc, goal)
        if r == "unknown" and s._isterm(goal):
            inst = instances(pc, goal)
            if inst and s.check(pc, [not_(goal)] + inst) == "unsat": return "yes"
        if r == "unknown":
            r = s.retry(pc, goal)
        if r == "no" and s._isterm(goal):
            m0 = s.model
            q = s.nonlinear(pc, goal)
            if q == "unsat": return "yes"
            if q != "sat": s.model = m0
        return r
    def nonlinear(s, pc, goal):
        """the refutation used abstract products: decide again with their definitions"""
        facts = list(pc) + [not_(goal)]
        ms = set()
        for f in facts:
            if s._isterm(f): ms |= monos_of(f)
        if not ms: return "sat"
        t0 = time.time()
        q = z3.Solver(); q.set("timeout", min(s.timeout, 6000))
        q.add(*[z(c) if s._isterm(c) else c for c in facts]); q.add(*[z(l) for l in s.lemmas(facts)])
        done = set()
        def define(m):
            if m in done: return
            done.add(m)
            if not isinstance(m[0], Term):
                d, r = mk("divt", (m[1], m[2])), mk("modt", (m[1], m[2]))
                a, b, zd, zr = z(m[1]), z(m[2]), z(d), z(r)
                q.add(z3.Implies(b >= 1, z3.And(a == zd * b + zr, 0 <= zr, zr < b)))
            else:
                e = z(m[0])
                for x in m[1:]: e = e * z(x)
                q.add(monoz(m) == e)
        for m in ms: define(m)
        for f in s.lemmas(facts):
            for m in monos_of(f): define(m)
        r = str(q.check()); s.st.time += time.time() - t0; s.st.queries += 1
        if r == "sat": s.model = q.model()
        if r == "unknown":
            x = cvc5_unsat(list(q.assertions()), 10)
            if x == "unsat": s.st.cvc5 += 1; return "unsat"
        return r
    def retry(s, pc, goal):
        """fresh solver instances and cvc5"""
        t0 = time.time()
        facts = [z(c) if s._isterm(c) else c for c in pc]
        ng = z(not_(goal)) if s._isterm(goal) else z3.Not(goal)
        lem = [z(l) for l in s.lemmas(list(pc) + [goal])]
        for seed in (7, 23):
            q = z3.SolverFor("AUFNIRA") if seed == 23 and False else z3.Solver()
            q.set("timeout", s.timeout * 2); q.set("random_seed", seed)
            if seed == 23: q.set("smt.arith.solver", 2)
            q.add(*facts); q.add(*lem); q.add(ng)
            r = q.check()
            if r == z3.unsat: s.st.time += time.time() - t0; return "yes"
            if r == z3.sat: s.model = q.model(); s.st.time += time.time() - t0; return "no"
        r = cvc5_unsat(facts + lem + [ng], 20)
        s.st.time += time.time() - t0
        if r == "unsat": s.st.cvc5 += 1; return "yes"
        return "unknown"

_hf = {}
def has_forall(t):
    r = _hf.get(t.id)
    if r is None:
        r = t.op == "forall" or t.op in ("and", "or", "not") and any(isinstance(a, Term) and has_forall(a) for a in t.args)
        _hf[t.id] = r
    return r
def apps_of(t, out, seen):
    if t.id in seen: return
    seen.add(t.id); op, A = t.op, t.args
    if op in ("const", "true", "false", "var", "bvar"): return
    if op in ("app", "bapp"):
        if len(A) == 2: out.setdefault(A[0], {})[A[1].id] = A[1]
        for a in A[1:]: apps_of(a, out, seen)
    elif op == "sum":
        for m, c in A:
            for a in m: apps_of(a, out, seen)
    elif op == "forall": return
    else:
        for a in A:
            if isinstance(a, Term): apps_of(a, out, seen)
_ac = {}
def apps_cached(t):
    r = _ac.get(t.id)
    if r is None:
        out = {}; apps_of(t, out, set()); r = _ac[t.id] = (t, [(n, list(d.values())) for n, d in out.items()])
    return r[1]
_qc = {}
def patterns(c):
    """(function, rest, coefficient) for the applications of the bound variable in a one-variable quantified fact"""
    r = _qc.get(c.id)
    if r is None:
        h, body = c.args[0][0], c.args[1]; r = []
        for f, args in apps_cached(body):
            for a in args:
                d = pd(a); co = d.get((h,), 0)
                if co not in (1, -1) or any(h in m and m != (h,) for m in d): continue
                rest = sub(a, scale(h, co))
                if h.args[0] in syms(rest): continue
                if not any(x[0] == f and x[1] is rest and x[2] == co for x in r): r.append((f, rest, co))
        r = _qc[c.id] = (c, r)
    return r[1]
_ic = {}
def instances(pc, goal, limit=300):
    """ground instances of the one-variable quantified facts at the arguments that occur (matching modulo linear arithmetic)"""
    ng = not_(goal)
    if ng.op == "forall": pc = list(pc) + [ng]
    qs = [c for c in pc if isinstance(c, Term) and c.op == "forall" and len(c.args[0]) == 1]
    if not qs: return []
    out = []; done = set(); ground = {}; todo = [c for c in list(pc) + [goal] if isinstance(c, Term)]
    for rnd in range(2):
        for c in todo:
            for f, args in apps_cached(c):
                g = ground.setdefault(f, {})
                for a in args: g[a.id] = a
        new = []
        for c in qs:
            h, body = c.args[0][0], c.args[1]
            for f, rest, co in patterns(c):
                for g in list(ground.get(f, {}).values()):
                    i = scale(sub(g, rest), co); k = (c.id, i.id)
                    if k in done: continue
                    done.add(k); x = _ic.get(k)
                    if x is None: x = _ic[k] = subst(body, {h: i})
                    new.append(x)
                    if len(done) >= limit: return out + new
        if not new: break
        out += new; todo = new
    return out
def cvc5_unsat(asserts, secs):
    q = z3.Solver(); q.add(*asserts)
    txt = "(set-logic ALL)\n" + q.to_smt2()
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % (secs * 1000), "-"], input=txt, capture_output=True, text=True, timeout=secs + 5)
        o = p.stdout.strip().split("\n")[0] if p.stdout.strip() else "?"
        return o
    except Exception: return "unknown"

_nl = {}
LARGE = 8
def nl_lemmas(ms):
    """valid facts about products: for monomials a*s and b*s (and s, 0): s>=0 and a<=b => a*s<=b*s, ..."""
    key = frozenset(ms)
    r = _nl.get(key)
    if r is not None: return r
    out = []
    prods = [m for m in ms if isinstance(m[0], Term)]
    for m in ms:
        if not isinstance(m[0], Term):
            op, a, b = m
            if op == "divt" or op == "modt":
                q, r_ = mk("divt", (a, b)), mk("modt", (a, b))
                out.append(implies(ge(b, ONE), and_(le(ZERO, r_), lt(r_, b), eq(a, add(mul(q, b), r_)))))
                prods_extra = frompd({tuple(sorted((q, b), key=lambda x: x.id)): 1}) if len(pd(b)) == 1 else None
                for mm in pd(mul(q, b)):
                    if len(mm) > 1: prods.append(mm)
    prods = list(dict.fromkeys(prods))
    # make sub-monomials available
    allm = list(prods)
    # group by factor
    fac = {}
    for m in prods:
        for i, a in enumerate(m):
            if i and m[i - 1] is a: continue
            rest = m[:i] + m[i + 1:]
            fac.setdefault(a, []).append(frompd({rest: 1}))
    seen = set()
    def emit(x):
        if x is not TRUE and x.id not in seen: seen.add(x.id); out.append(x)
    for s, rs in fac.items():
        rs = list(dict.fromkeys(rs))
        spos = ge(s, ZERO)
        for a in rs:
            pa = mul(a, s)
            emit(implies(and_(spos, ge(a, ZERO)), ge(pa, ZERO)))
            emit(implies(and_(spos, ge(a, ONE)), ge(pa, s)))
            emit(implies(eq(a, ZERO), eq(pa, ZERO)))
            emit(implies(eq(a, ONE), eq(pa, s)))
            emit(implies(and_(spos, le(a, const(-1))), le(pa, neg(s))))
            emit(implies(eq(s, ZERO), eq(pa, ZERO)))
        for i in range(len(rs)):
            for j in range(len(rs)):
                if i == j: continue
                a, b = rs[i], rs[j]
                pa, pb = mul(a, s), mul(b, s)
                if i < j: emit(implies(eq(a, b), eq(pa, pb)))
                emit(implies(and_(spos, le(a, b)), le(pa, pb)))
                emit(implies(and_(spos, lt(a, b)), le(add(pa, s), pb)))
                if any(x.op in ("divt", "modt") for x in (a, b)):
                    emit(implies(and_(spos, le(b, add(a, ONE))), le(pb, add(pa, s))))
                    emit(implies(and_(spos, le(add(a, const(2)), b)), le(add(pa, s, s), pb)))
    # sums a+b vs c: small groups in full, larger ones only around quotients
    for s, rs in fac.items():
        rs = list(dict.fromkeys(rs))
        if len(rs) < 3: continue
        isq = [any(x.op == "divt" for m in pd(a) for x in m) for a in rs]
        small = len(rs) <= 6
        if not small and len(rs) > LARGE: continue
        spos = ge(s, ZERO)
        for i in range(len(rs)):
            for j in range(i + 1, len(rs)):
                for k in range(len(rs)):
                    if k in (i, j): continue
                    nq = isq[i] + isq[j] + isq[k]
                    if not small and nq != 1: continue
                    a, b, c = rs[i], rs[j], rs[k]
                    pa, pb, pc = mul(a, s), mul(b, s), mul(c, s)
                    emit(implies(and_(spos, le(add(a, b), c)), le(add(pa, pb), pc)))
                    emit(implies(and_(spos, lt(add(a, b), c)), le(add(pa, pb, s), pc)))
                    emit(implies(and_(spos, le(c, add(a, b))), le(pc, add(pa, pb))))
                    emit(implies(and_(spos, le(c, add(a, b, ONE))), le(pc, add(pa, pb, s))))
                    if nq == 1: emit(implies(and_(spos, le(add(a, b, const(2)), c)), le(add(pa, pb, s, s), pc)))
    _nl[key] = out
    return out

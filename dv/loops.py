"""Loop cut points: inductive loop summaries (closed forms for counters, parallel-store summaries for array writes,
history facts for every earlier iteration, candidate invariants filtered inductively). Everything inferred here is
re-verified: the summary is assumed at an arbitrary iteration t and re-established at t+1 by the prover."""
import itertools
from term import *
import term as T_
from mem import *
from exec import *
import llir
from solver import instances as solver_instances

def num(name):
    i = name.rfind("!")
    try: return int(name[i + 1:]) if i >= 0 else -1
    except ValueError: return -1

def isnew(name, mark, allowed):
    if name in allowed: return False
    base = name.split(".")[0] if "!" in name and "." in name[name.rfind("!"):] else name
    return num(base) > mark

def hasnew(t, mark, allowed): return any(isnew(n, mark, allowed) for n in syms(t))

class LoopCtx: pass

def vget(st, key, depth):
    if key[0] == "phi": return st.frames[depth - 1].env.get(key[1])
    return st.mem[key[1]].cells.get((key[2], key[3]))

def same(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.blk is b.blk and a.off is b.off
    return False

def start_state(ex, st, lp, phis, vals, regs, facts):
    n = st.clone(); fr = n.frames[-1]; depth = len(n.frames)
    for k, v in vals.items():
        if k[0] == "phi": fr.env[k[1]] = v
        else:
            bs = n.wr(n.blocks[k[1]]); bs.cells[(k[2], k[3])] = v
    for (bid, ro), c in regs.items():
        bs = n.wr(n.blocks[bid])
        for r in bs.regions:
            if r.off == ro: r.content = c
    n.conds = []
    n.flags["phidone"] = frozenset(phis); n.flags["justentered"] = True
    n.assume(*facts)
    return n

def diff(st0, st1, depth):
    """cells and regions changed between two states (blocks alive in both)"""
    cells = set(); regs = set()
    for bid, b1 in st1.mem.items():
        b0 = st0.mem.get(bid)
        if b0 is None:
            if b1.alive and st1.blocks[bid].kind == "heap": raise Unsupported("allocation surviving a loop iteration")
            continue
        if b0 is b1: continue
        if b0.alive != b1.alive: raise Unsupported("release inside a loop")
        for k in set(b0.cells) | set(b1.cells):
            x, y = b0.cells.get(k), b1.cells.get(k)
            if x is None and y is not None and not any(q[0] < k[0] + k[1] and k[0] < q[0] + q[1] for q in b0.cells):
                cells.add((bid,) + k + ("new",)); continue
            if x is None or y is None: raise Unsupported("cell shape changes in a loop")
            if not same(x, y): cells.add((bid,) + k)
        for r1 in b1.regions:
            r0 = [r for r in b0.regions if r.off == r1.off]
            if not r0:
                fresh_regs = st0.flags.setdefault("newregions", {}); fresh_regs[(bid, r1.off)] = r1
                continue
            if r0[0].content is not r1.content: regs.add((bid, r1.off))
    return cells, regs

def enter(ex, st, lp):
    depth = len(st.frames); fr = st.frames[-1]; ex.nloops += 1
    # initial phi values
    phis = {}
    for ins in fr.fn.blocks[lp.header]:
        if ins.op != "phi": break
        for v, pb in ins.x:
            if pb == fr.prev: phis[ins.res] = ex.val(st, fr, v); break
        else: raise Unsupported("phi at loop entry")
    # constant trip count: unroll
    if probe_const(ex, st, lp, phis):
        st.flags[("unroll", depth, fr.blk)] = 0
        return None
    return summarize(ex, st, lp, phis, depth)

class quiet:
    def __init__(s, ex): s.ex = ex
    def __enter__(s): s.old = s.ex.checking; s.ex.checking = False
    def __exit__(s, *a): s.ex.checking = s.old

def probe_const(ex, st, lp, phis):
    if not any(isinstance(v, Term) and (v.op == "const") or isinstance(v, Ptr) and is_const(v.off) for v in phis.values()): return False
    n = start_state(ex, st, lp, phis, {("phi", k): v for k, v in phis.items()}, {}, [])
    # walk deterministically until the first branch that can leave the loop
    old = getattr(ex, "probe", None); ex.probe = (len(st.frames), lp, [])
    try:
        with quiet(ex):
            ob = list(ex.outs_abort)
            ex.run_probe(n, len(st.frames), lp)
            ex.outs_abort[:] = ob
        return ex.probe[2] == [True]
    except (Unsupported, DeadPath): return False
    finally: ex.probe = old

def run_probe(ex, st, depth, lp):
    steps = 0
    while steps < 400:
        steps += 1
        if not st.frames or len(st.frames) < depth: return
        fr = st.frames[-1]
        if len(st.frames) == depth and fr.blk not in lp.blocks: return
        lps = find_loops(fr.fn)
        if fr.ip == 0 and fr.blk in lps and not st.flags.pop("justentered", None): return
        if fr.ip == 0: ex.phis(st, fr)
        nxt = None
        code = fr.fn.blocks[fr.blk]
        # intercept exit branches
        t = code[-1]
        if len(st.frames) == depth and t.op == "br" and any(x not in lp.blocks for x in t.x):
            pre = [i for i in code[fr.ip:-1] if i.op != "phi"]
            # only the instructions the exit condition depends on
            need_ = {a.v for a in t.args if getattr(a, "k", None) == "local"}; sl = []
            for i in reversed(pre):
                if i.res in need_:
                    sl.append(i); need_ |= {a.v for a in i.args if getattr(a, "k", None) == "local"}
            if not any(i.op in ("call", "invoke") for i in sl) and not (any(i.op == "load" for i in sl) and any(i.op in ("call", "store") for i in pre)):
                for i in reversed(sl):
                    ex.simple(st, fr, i) if i.op != "select" else fr.env.__setitem__(i.res, fresh("sel"))
                c = ex.val(st, fr, t.args[0])
                ex.probe[2].append(c is TRUE or c is FALSE); return
        nxt = ex.block(st, fr)
        if nxt is None or len(nxt) != 1: return
        st = nxt[0]
Engine.run_probe = run_probe
Engine.probe = None

def summarize(ex, st, lp, phis, depth):
    fr = st.frames[-1]
    snap_abort = list(ex.outs_abort)
    # ---- discovery of modified variables
    mod_cells = set(); mod_regs = set()
    for rnd in range(6):
        mark = T_._cnt[0]
        vals = {}
        for k, v in phis.items(): vals[("phi", k)] = havoc(ex, st, v)
        for (b, o, z_) in mod_cells: vals[("cell", b, o, z_)] = havoc(ex, st, st.mem[b].cells[(o, z_)])
        regs = {r: Base(fresh_name("M")) for r in mod_regs}
        n = start_state(ex, st, lp, phis, vals, regs, [])
        for k, v in vals.items():
            if isinstance(v, Term) and not v.b and v.op == "var": pass
        with quiet(ex):
            terms, backs, exits = ex.run([n.clone()], depth, lp, None)
        ex.outs_abort[:] = snap_abort
        mc = set(); mr = set(); n.flags["newregions"] = newr = {}
        for b in backs:
            c, r = diff(n, b, depth); mc |= {x for x in c if len(x) == 3}; mr |= r
            for x in c:
                if len(x) == 4: ex_newcell(st, n, b, x)
        for (bid, ro), r1 in newr.items():
            # storage typed for the first time inside the loop: give the entry state the same (unwritten) region
            nr = Region(ro, r1.length, r1.es, Base(fresh_name("raw"), {(-1, 0, "b"): FALSE})); nr.fields = r1.fields
            st.wr(st.blocks[bid]).regions.append(nr); mr.add((bid, ro))
        if mc <= mod_cells and mr <= mod_regs: break
        mod_cells |= mc; mod_regs |= mr
    else: raise Unsupported("loop modifies too much")
    if not backs:
        # the body never comes back: not really a loop
        n = start_state(ex, st, lp, phis, {("phi", k): v for k, v in phis.items()}, {}, [])
        n.conds = list(st.conds)
        terms, backs2, exits2 = ex.run([n.clone()], depth, lp, None)
        if backs2: raise Unsupported("loop")
        return exits2
    # ---- classify
    init = {("phi", k): v for k, v in phis.items()}
    for (b, o, z_) in mod_cells: init[("cell", b, o, z_)] = st.mem[b].cells[(o, z_)]
    loopsyms = set()
    for v in vals.values(): loopsyms |= syms(v.off if isinstance(v, Ptr) else v)
    lin = {}; non = set()
    for k, cur in vals.items():
        deltas = set(); ok = True
        for b in backs:
            nx = next_phi(ex, b, k, depth, lp) if k[0] == "phi" else vget(b, k, depth)
            if isinstance(cur, Ptr):
                if not isinstance(nx, Ptr) or nx.blk is not cur.blk: raise Unsupported("loop-varying pointer target")
                d = sub(nx.off, cur.off)
            elif isinstance(nx, Ptr): raise Unsupported("loop variable changes kind")
            elif cur.b: d = ZERO if nx is cur else None
            else: d = sub(nx, cur)
            if d is None: ok = False; break
            if has_mod(d):
                d = ex.unmod(b, d)
                if has_mod(d): d = nowrap(d)
            d = subst(d, b.defs) if b.defs else d
            deltas.add(d)
        if ok and len(deltas) == 1:
            d = deltas.pop()
            if not (syms(d) & loopsyms) and not hasnew(d, mark, ()) and not any(n.startswith("M!") and n.split(".")[0] in {c.name for c in regs.values()} for n in syms(d)):
                lin[k] = d; continue
        non.add(k)
    # ---- hypothesized state at iteration t
    t = fresh("t"); fns = {}
    def vals_at(tt):
        r = {}
        for k, v in init.items():
            if k in lin:
                if isinstance(v, Ptr): r[k] = Ptr(v.blk, add(v.off, mul(lin[k], tt)), v.hint or (abs(cval(lin[k])) if is_const(lin[k]) else 0))
                elif v.b: r[k] = v
                else: r[k] = add(v, mul(lin[k], tt))
            else:
                f = fns.setdefault(k, fresh_name("f"))
                if isinstance(v, Ptr): r[k] = Ptr(v.blk, app(f, tt), v.hint)
                elif v.b: r[k] = bapp(f, tt)
                else: r[k] = app(f, tt)
        return r
    vt = vals_at(t); v0 = vals_at(ZERO)
    facts = [ge(t, ZERO)]
    for k in non:
        a, b = v0[k], init[k]
        facts.append(eq(a.off, b.off) if isinstance(a, Ptr) else eq(a, b))
    widths = {}
    for ins in fr.fn.blocks[lp.header]:
        if ins.op == "phi" and ins.ty.k == "int": widths[("phi", ins.res)] = ins.ty.n
    for k in vt:
        if k[0] == "cell": widths[k] = 8 * k[3]
        if k in widths and isinstance(vt[k], Term) and not vt[k].b: facts.append(ex.rng(vt[k], widths[k]))
    mark = T_._cnt[0]
    allowed = {t.args[0]}
    regs = {r: Base(fresh_name("M")) for r in mod_regs}
    Mnames = {c.name: r for r, c in regs.items()}
    mark = T_._cnt[0]
    n = start_state(ex, st, lp, phis, vt, regs, facts)
    with quiet(ex): terms, backs, exits = ex.run([n.clone()], depth, lp, None)
    ex.outs_abort[:] = snap_abort
    ne_ = ne_bounds(ex, st, n, backs, vals_at, lin, t, facts, mark, allowed, depth)
    if ne_:
        facts += [f(t) for f in ne_]
        n = start_state(ex, st, lp, phis, vt, regs, facts)
        with quiet(ex): terms, backs, exits = ex.run([n.clone()], depth, lp, None)
        ex.outs_abort[:] = snap_abort
    old = {r: region_of(st, r).content for r in mod_regs}
    known = {r: frozenset(region_of(n, r).fields) for r in mod_regs}
    # ---- closed forms of array contents
    guesses = {}
    for r in mod_regs:
        guesses[r] = None if ex.noclosed else guess_region(ex, st, r, regs, old, known, backs, t, mark, allowed, Mnames, facts)
    hav = {r for r in mod_regs if guesses[r] is None}
    perm_idx = {r: 0 for r in mod_regs}
    cand = None; settled = not ex.checking
    attempt = 0
    while True:
        attempt += 1
        if attempt > 24: raise Unsupported("loop summary does not stabilize")
        L = {}; Lf = {}
        for r in mod_regs:
            if r in hav:
                L[r] = regs[r]; Lf[r] = None
            else:
                layers = guesses[r][perm_idx[r]]
                def mkl(tt, layers=layers, r=r):
                    c = old[r]
                    for (vs, f, ix, vv, g) in layers:
                        c = For(c, [(v, tt if T is None else T) for v, T in vs], f, ix, vv, known[r], g)
                    return c
                Lf[r] = mkl; L[r] = mkl(t)
        # ---- history: what every completed iteration satisfied
        def hist(use):
            alts = []
            for b in backs:
                cs = []
                for c in b.conds:
                    c = subst(c, b.defs) if b.defs else c
                    c2 = resolve_M(ex, n, c, Mnames, L, hav)
                    if c2 is None or hasnew(c2, mark, allowed): continue
                    cs.append(c2)
                for k in non:
                    nx = next_phi(ex, b, k, depth, lp) if k[0] == "phi" else vget(b, k, depth)
                    f1 = vals_at(add(t, ONE))[k]
                    e = eq(f1.off, nx.off) if isinstance(nx, Ptr) else eq(f1, nx)
                    e = subst(e, b.defs) if b.defs else e
                    e = resolve_M(ex, n, e, Mnames, L, hav)
                    if e is None or hasnew(e, mark, allowed | set(fns.values())): continue
                    cs.append(e)
                alts.append(and_(*cs))
            return or_(*alts)
        C = hist(True)
        hfacts = history_facts(C, t)
        # ---- candidate invariants
        ctx = LoopCtx(); ctx.ex, ctx.st, ctx.t, ctx.vals_at, ctx.lin, ctx.non, ctx.init, ctx.lp, ctx.fr, ctx.C = ex, st, t, vals_at, lin, non, init, lp, fr, C
        ctx.Lf = Lf; ctx.old = old; ctx.widths = widths; ctx.hav = hav; ctx.depth = depth; ctx.regs = regs; ctx.mod_regs = mod_regs
        if cand is None:
            cand = []
            for h in ex.hints + [auto_bounds]:
                for f in h(ctx) or []:
                    b0 = f(ZERO)
                    st0 = st.clone(); st0.assume(*[x for x in facts[1:] if True and not (syms(x) & {t.args[0]})])
                    if b0 is TRUE or ex.known(st0, b0): cand.append(f)
            # candidates over the contents of memory: functions of (state, loop variables, iteration)
            scand = []
            for h in ex.sinv:
                for f in h(ctx) or []:
                    st0 = st.clone()
                    try: b0 = f(st0, init, ZERO)
                    except Unsupported: continue
                    if b0 is TRUE or holds(ex, st0.pc, b0): scand.append(f)
        ifacts = [f(t) for f in cand]
        # ---- final run, with obligations
        snapF, snapO, snapN = len(ex.failures), dict(ex.obls), (ex.p.st.obligations, ex.p.st.discharged)
        n2 = start_state(ex, st, lp, phis, vt, L, facts + hfacts + ifacts)
        for f in scand: n2.assume(f(n2, vt, t))
        mod2 = T_._cnt[0]
        if scand and not settled:
            with quiet(ex): terms2, backs2, exits2 = ex.run([n2.clone()], depth, lp, None)
        else: terms2, backs2, exits2 = ex.run([n2.clone()], depth, lp, None)
        redo = False
        # invariants inductive?
        bad = set(); sbad = set()
        defs1 = vals_at(add(t, ONE))
        for b in backs2:
            c, r = diff(n2, b, depth)
            for k in list(non):
                nx = next_phi(ex, b, k, depth, lp) if k[0] == "phi" else vget(b, k, depth)
                f1 = defs1[k]
                if isinstance(f1, Ptr) != isinstance(nx, Ptr) or (isinstance(nx, Ptr) and nx.blk is not f1.blk): raise Unsupported("loop variable")
                b.assume(eq(f1.off, nx.off) if isinstance(nx, Ptr) else eq(f1, nx))     # definition of the sequence
            for x in c:
                if len(x) == 3 and ("cell",) + x not in init: mod_cells.add(x); raise Unsupported("late cell")
            for x in r:
                if x not in mod_regs: raise Unsupported("late region")
            for i, f in enumerate(cand):
                if i in bad: continue
                if not holds(ex, b.pc, f(add(t, ONE))) if ex.p.qfree is not None else ex.p.prove(b.pc, f(add(t, ONE))) != "yes": bad.add(i)
            if scand:
                nxv = {k: next_phi(ex, b, k, depth, lp) if k[0] == "phi" else vget(b, k, depth) for k in init}
                for i, f in enumerate(scand):
                    if i in sbad: continue
                    q = b.clone(); g = f(q, nxv, add(t, ONE))
                    if not holds(ex, q.pc, g): sbad.add(i)
        if bad or sbad:
            cand = [f for i, f in enumerate(cand) if i not in bad]; scand = [f for i, f in enumerate(scand) if i not in sbad]; redo = True
        if not redo:
            for b in backs2:
                for k, d in lin.items():
                    nx = next_phi(ex, b, k, depth, lp) if k[0] == "phi" else vget(b, k, depth)
                    f1 = defs1[k]
                    e = eq(nx.off, f1.off) if isinstance(nx, Ptr) else eq(nx, f1)
                    if e is not TRUE and ex.p.prove(b.pc, e) != "yes":
                        lin2 = True; del lin[k]; non.add(k); redo = True; break
                if redo: break
                if not redo and C is not TRUE and ex.p.prove(b.pc, C) != "yes":
                    raise Unsupported("loop history not re-established")
                for r in mod_regs:
                    if r in hav: continue
                    if not region_equal(ex, b, r, region_of(b, r).content, Lf[r](add(t, ONE)), region_of(b, r).fields, known[r]):
                        perm_idx[r] += 1
                        if perm_idx[r] >= len(guesses[r]): hav.add(r)
                        redo = True; break
                if redo: break
            if redo and non and any(k not in vt or k in non for k in vt):
                vt = vals_at(t); v0 = vals_at(ZERO)
                facts = [ge(t, ZERO)]
                for k in non:
                    a, b_ = v0[k], init[k]; facts.append(eq(a.off, b_.off) if isinstance(a, Ptr) else eq(a, b_))
                for k in vt:
                    if k in widths and isinstance(vt[k], Term) and not vt[k].b: facts.append(ex.rng(vt[k], widths[k]))
        if not redo and scand and not settled: settled = redo = True
        if redo:
            del ex.failures[snapF:]; ex.obls = snapO; ex.p.st.obligations, ex.p.st.discharged = snapN
            ex.outs_abort[:] = snap_abort
            continue
        break
    if ex.checking:
        ex.count("loop:inductive"); ex.p.st.discharged += 1
        term_ok = all(terminates(ex, b, t, n2) for b in backs2)
        ex.loopinfo.append((ex.dn(fr.fn.name), lp.header, "closed-form" if not hav else "havoc", "terminates" if term_ok else "termination-unproved"))
        if hav: ex.loopinfo[-1] += ("havoc %d" % len(hav),)
    # ---- exits
    out = []
    for e in exits2:
        out += resolve_trip(ex, e, t, depth, st, Lf, old, mod_regs, facts)
    for e in out:
        e.conds = list(st.conds) + e.conds
        q = [x for x in hfacts if x.op == "forall"]
        e.conds += [subst(x, e.defs) if e.defs else x for x in q]
    return out

def holds(ex, pc, g):
    """inductive filter for quantified candidates: cheap, incomplete"""
    if g is TRUE: return True
    if g.op == "and": return all(holds(ex, pc, x) for x in g.args)
    if g.op == "forall":
        g = subst(g.args[1], {v: fresh("sk") for v in g.args[0]})
    if ex.p.qfree is not None: return ex.p.ground(pc, g) == "unsat"
    r = ex.p.valid(pc, g, 1500)
    if r != "unknown": return r == "yes"
    inst = solver_instances(pc, g)
    return bool(inst) and ex.p.check(pc, [not_(g)] + inst, 4000) == "unsat"

def ex_newcell(st, n, b, x):
    pass

def havoc(ex, st, v):
    if isinstance(v, Ptr):
        es = {r.es for r in st.mem[v.blk.id].regions if r.es} if v.blk is not None and v.blk.id in st.mem else set()
        # discovery only: a pointer into an array is assumed to step by whole elements
        if len(es) == 1: return Ptr(v.blk, add(v.off, scale(fresh("x"), es.pop())), v.hint)
        return Ptr(v.blk, fresh("x"), v.hint)
    if v.b: return freshb("x")
    return fresh("x")

def next_phi(ex, b, k, depth, lp):
    fr = b.frames[depth - 1]
    for ins in fr.fn.blocks[lp.header]:
        if ins.op == "phi" and ins.res == k[1]:
            for v, pb in ins.x:
                if pb == fr.prev: return ex.val(b, fr, v)
    raise Unsupported("phi")

def region_of(st, r):
    for x in st.mem[r[0]].regions:
        if x.off == r[1]: return x

def layers_over(c, base):
    out = []
    while c is not base:
        if isinstance(c, Base): return None
        out.append(c); c = c.prev
    return list(reversed(out))

def guess_region(ex, st, r, regs, old, known, backs, t, mark, allowed, Mnames, facts):
    """list of alternative layer lists [(vars, field, idx, val, guard)] or None"""
    perpath = []
    for b in backs:
        ls = layers_over(region_of(b, r).content, regs[r])
        if ls is None: return None
        if not ls: perpath.append((b, [])); continue
        items = []
        for l in ls:
            if isinstance(l, Store): items.append(([], l.field, l.idx, l.val, TRUE))
            elif isinstance(l, For): items.append((list(l.vars), l.field, l.idx, l.val, l.guard))
            else:
                for f in known[r]:
                    u = fresh("u")
                    st2 = b.clone(); st2.assume(le(ZERO, u), lt(u, sub(l.hi, l.lo)))
                    try: v = ex.rdc(st2, l.src, f, add(l.lo, u, l.shift))
                    except Unsupported: return None
                    items.append(([(u, sub(l.hi, l.lo))], f, add(l.lo, u), v, TRUE))
        # keep only the last write to a syntactically identical location
        res = []
        for i, it in enumerate(items):
            if not it[0] and any(not j[0] and j[1] == it[1] and j[2] is it[2] for j in items[i + 1:]): continue
            res.append(it)
        perpath.append((b, res))
    multi = len(perpath) > 1
    if multi:
        sig = [[(i[1], i[2].id, i[3].id if isinstance(i[3], Term) else id(i[3]), tuple((v.id, T.id) for v, T in i[0]), i[4].id) for i in its] for b, its in perpath]
        if all(x == sig[0] for x in sig): multi = False; perpath = perpath[:1]
    out = []
    for b, items in perpath:
        guard0 = TRUE
        if multi:
            guard0 = and_(*[subst(c, b.defs) if b.defs else c for c in b.conds])
        for vs, f, ix, vv, g in items:
            if isinstance(vv, Ptr): return None
            tp = fresh("s"); al = set(allowed) | {tp.args[0]} | {v.args[0] for v, _ in vs}
            m = {t: tp}
            D = b.defs
            fix = lambda x: subst(subst(x, D) if D else x, m)
            vs2 = [(tp, None)] + [(v, fix(T)) for v, T in vs]
            ix, vv, g = fix(ix), fix(vv), and_(fix(guard0), fix(g))
            st2 = st.clone(); st2.assume(*facts); st2.assume(le(ZERO, tp), lt(tp, t)); st2.assume(*[fix(c) for c in b.conds])
            for v, T in vs2[1:]: st2.assume(le(ZERO, v), lt(v, T))
            try:
                ix, vv, g = (resolve_old(ex, st2, x, Mnames, old) for x in (ix, vv, g))
            except Unsupported: return None
            if any(x is None for x in (ix, vv, g)): return None
            for x in [ix, vv, g] + [T for v, T in vs2[1:]]:
                if hasnew(x, mark, al) or any(nm.split(".")[0] in Mnames for nm in syms(x)): 
                    return None
            out.append((vs2, f, ix, vv, g))
    alts = [out]
    byf = {}
    for it in out: byf.setdefault(it[1], []).append(it)
    if any(len(v) > 1 for v in byf.values()) and len(out) <= 6:
        alts.append(list(reversed(out)))
        if len(out) <= 4:
            for p in itertools.permutations(out):
                if list(p) not in alts: alts.append(list(p))
            alts = alts[:8]
    return alts

def _Mreads(t, Mnames):
    found = []
    def fn(name, args, b):
        base = name.split(".")[0]
        if base in Mnames: found.append((name, args, b))
        return None
    mapapps(t, fn)
    return found

def parse_field(name):
    _, fo, rest = name.split(".")
    return int(fo), int(rest[:-1]), rest[-1]

def resolve_old(ex, st, t, Mnames, old):
    if not any(nm.split(".")[0] in Mnames for nm in syms(t)): return t
    def fn(name, args, b):
        base = name.split(".")[0]
        if base in Mnames:
            return ex.rdc(st, old[Mnames[base]], parse_field(name), args[0])
        return None
    return mapapps(t, fn)

def resolve_M(ex, st, t, Mnames, L, hav):
    if not any(nm.split(".")[0] in Mnames for nm in syms(t)): return t
    if any(Mnames[nm.split(".")[0]] in hav for nm in syms(t) if nm.split(".")[0] in Mnames): return None
    def fn(name, args, b):
        base = name.split(".")[0]
        if base in Mnames:
            return ex.rdc(st, L[Mnames[base]], parse_field(name), args[0])
        return None
    try: return mapapps(t, fn)
    except Unsupported: return None

def has_app(t):
    return any("." in n or n.startswith("f!") for n in syms(t))

def history_facts(C, t):
    if C is TRUE: return []
    out = []
    tm1 = sub(t, ONE)
    out.append(implies(ge(t, ONE), subst(C, {t: tm1})))
    out.append(implies(ge(t, ONE), subst(C, {t: ZERO})))
    if has_app(C):
        s = fresh("h")
        out.append(forall((s,), implies(and_(le(ZERO, s), lt(s, t)), subst(C, {t: s}))))
    return out

def auto_bounds(ctx):
    """simple linear candidates for variables without closed form: stays within entry value / loop-invariant bounds, >= 0"""
    out = []
    for k in ctx.non:
        v0 = ctx.init[k]
        g = (lambda tt, k=k: ctx.vals_at(tt)[k])
        val = (lambda tt, g=g: g(tt).off if isinstance(g(tt), Ptr) else g(tt))
        i = v0.off if isinstance(v0, Ptr) else v0
        if i.b: continue
        out.append(lambda tt, val=val, i=i: ge(val(tt), i))
        out.append(lambda tt, val=val, i=i: le(val(tt), i))
        out.append(lambda tt, val=val: ge(val(tt), ZERO))
        out.append(lambda tt, val=val, i=i: le(val(tt), add(i, tt)))
        out.append(lambda tt, val=val, i=i: ge(val(tt), sub(i, tt)))
    return out

def nowrap(d):
    """guess for the step of a machine integer: the one without wrap-around (the closed form is proved afterwards)"""
    best = None
    for q in (0, 1, -1):
        for w in (0, 1, 2):
            x = mapmods(d, lambda x, r, c: (add(r, const(q * c)) if r is not None else None if x.b else x.args[1] if w == 1 else x.args[2] if w == 0 else x.args[2].args[2] if x.args[2].op == "ite" else None))
            if is_const(x) and (best is None or abs(cval(x)) < abs(cval(best))): best = x
    return best if best is not None else d

def ne_bounds(ex, st, n, backs, vals_at, lin, t, facts, mark, allowed, depth):
    """a loop that continues while a counter differs from a bound ahead of it does not run past that bound: t <= bound,
    established at entry and kept by every iteration (proved here, jointly with the closed forms)"""
    out = []
    cands = []
    for b in backs:
        for c in b.conds:
            if c.op != "not" or c.args[0].op != "eq": continue
            d = pd(c.args[0].args[0]); k = d.get((t,), 0)
            if not k or any(t.args[0] in syms(a) for m in d for a in m if a is not t): continue
            p0 = {m: -x if k > 0 else x for m, x in d.items() if m != (t,)}
            if any(x % abs(k) for x in p0.values()): continue
            c0 = frompd({m: x // abs(k) for m, x in p0.items()})
            if b.defs: c0 = subst(c0, b.defs)
            if hasnew(c0, mark, allowed) or t.args[0] in syms(c0): continue
            cands.append(c0)
    for c0 in dict.fromkeys(cands):
        st0 = st.clone(); st0.assume(*[x for x in facts[1:] if not (syms(x) & {t.args[0]})])
        if not ex.known(st0, ge(c0, ZERO)): continue
        ok = True
        for b in backs:
            q = b.clone(); q.assume(le(t, c0))
            if not ex.known(q, le(add(t, ONE), c0)): ok = False; break
        if ok: out.append(lambda tt, c0=c0: le(tt, c0))
    return out

def terminates(ex, b, t, n):
    """a conjunct of the continue condition is linear in the iteration number with the bound eventually violated"""
    for c in b.conds:
        if c.op == "le":
            d = pd(c.args[0]); k = d.get((t,), 0)
            if k > 0 and not any(t in m and m != (t,) for m in d) and not any(t.args[0] in syms(a) for m in d for a in m if a is not t): return True
    for c in b.conds:
        if c.op == "not" and c.args[0].op == "eq":
            # i != bound with unit step, and the bound provably ahead
            p = c.args[0].args[0]; d = pd(p); k = d.get((t,), 0)
            if abs(k) >= 1 and not any(t.args[0] in syms(a) for m in d for a in m if a is not t):
                p0 = frompd({m: x for m, x in d.items() if m != (t,)})
                if abs(k) == 1 and ex.p.prove(n.pc, le(scale(p0, k), ZERO)) == "yes": return True
    return False

def region_equal(ex, b, r, c1, c2, fields, known):
    old = ex.strides
    try: return region_equal_(ex, b, r, c1, c2, fields, known)
    finally: ex.strides = old

def region_equal_(ex, b, r, c1, c2, fields, known):
    """contents equal at an arbitrary index"""
    if c1 is c2: return True
    # first over an arbitrary common ancestor (cheap), then over the actual one
    seen = set(); a = c1
    while not isinstance(a, Base): seen.add(id(a)); a = a.prev
    a = c2
    while not isinstance(a, Base) and id(a) not in seen: a = a.prev
    anc = None if isinstance(a, Base) else (a, Base(fresh_name("anc")))
    for f in list(fields):
        b, k = anyindex(ex, b, c1, c2, anc[0] if anc else None)
        try:
            if anc is not None:
                x = ex.rdc(b, c1, f, k, anc); y = ex.rdc(b, c2, f, k, anc)
                if x is y or not (isinstance(x, Ptr) or isinstance(y, Ptr)) and ex.p.valid(b.pc, eq(x, y), 1500) == "yes": continue
            x = ex.rdc(b, c1, f, k); y = ex.rdc(b, c2, f, k)
        except Unsupported:
            return False
        if x is y: continue
        if isinstance(x, Ptr) or isinstance(y, Ptr): return False
        if ex.p.prove(b.pc, eq(x, y)) != "yes":
            return False
    return True

def anyindex(ex, b, c1, c2, stop):
    """an arbitrary index; when the contents are written with symbolic strides it is given by its quotients and remainders
    (every integer is q * s + r with 0 <= r < s, for s >= 1), so that reading the contents needs no symbolic division"""
    best = ([], ZERO)
    for c in (c1, c2):
        while not isinstance(c, Base) and c is not stop:
            if isinstance(c, For):
                try: s = ex.forstrides(b, c)
                except Unsupported: s = ([], ZERO)
                if len(s[0]) > len(best[0]): best = s
            c = c.prev
    sgs, off = best
    for g in getattr(ex, "gridstrides", ()):       # stride hints of the contract: a longer decomposition of the same index
        if sgs and len(sgs) < len(g) and sgs == g[:len(sgs)]: sgs = g; break
    if not sgs or not all(ex.known(b, ge(x, ONE)) for x in sgs): return b, fresh("k")
    b = b.clone(); k = fresh("k")
    for x in reversed(sgs): r = fresh("r"); b.assume(le(ZERO, r), lt(r, x)); k = add(mul(k, x), r)
    ex.strides = tuple(sgs)
    return b, add(k, off)

def resolve_trip(ex, e, t, depth, st, Lf, old, mod_regs, facts):
    """try to express the trip count t in closed form at exit state e"""
    cands = []
    for c in e.conds:
        p = None
        if c.op in ("le", "eq"): p = c.args[0]
        elif c.op == "and":
            for x in c.args:
                if x.op in ("le", "eq"): _cand(x.args[0], t, cands)
            continue
        if p is not None: _cand(p, t, cands)
    for c in dict.fromkeys(cands):
        if ex.known(e, eq(t, c)): return [settrip(ex, e, t, c, Lf, old, mod_regs)]
    if ex.known(e, eq(t, ZERO)): return [settrip(ex, e, t, ZERO, Lf, old, mod_regs)]
    for c in dict.fromkeys(cands):
        a = e.clone(); a.assume(ge(c, ONE)); b = e.clone(); b.assume(le(c, ZERO))
        ok = (lambda q, g: ex.p.ground(q.pc, g) == "unsat") if ex.p.qfree is not None else (lambda q, g: ex.p.valid(q.pc, g) == "yes")
        if ok(a, eq(t, c)) and ok(b, eq(t, ZERO)):
            res = []
            if ex.p.feasible(a.pc, TRUE): a.conds.append(ge(c, ONE)); res.append(settrip(ex, a, t, c, Lf, old, mod_regs))
            if ex.p.feasible(b.pc, TRUE): b.conds.append(le(c, ZERO)); res.append(settrip(ex, b, t, ZERO, Lf, old, mod_regs))
            return res
    return [e]

def _cand(p, t, cands):
    d = pd(p); k = d.get((t,), 0)
    if abs(k) == 1 and not any(t.args[0] in syms(a) for m in d for a in m if a is not t):
        p0 = frompd({m: x for m, x in d.items() if m != (t,)})
        c = scale(p0, -k)
        cands += [c, add(c, ONE), sub(c, ONE)] if False else [c]

def sub_val(v, m):
    if isinstance(v, Ptr): return Ptr(v.blk, subst(v.off, m), v.hint)
    if isinstance(v, Agg): return Agg([sub_val(x, m) for x in v.vals])
    if isinstance(v, Term): return subst(v, m)
    return v

def sub_content(c, m, stop):
    chain = []
    while c is not stop and not isinstance(c, Base): chain.append(c); c = c.prev
    for l in reversed(chain):
        if isinstance(l, Store): c = Store(c, l.field, subst(l.idx, m), sub_val(l.val, m))
        elif isinstance(l, Copy): c = Copy(c, subst(l.lo, m), subst(l.hi, m), l.src, subst(l.shift, m))
        else: c = For(c, [(v, subst(T, m)) for v, T in l.vars], l.field, subst(l.idx, m), sub_val(l.val, m), l.known, subst(l.guard, m))
    return c

def settrip(ex, e, t, c, Lf, old, mod_regs):
    m = {t: c}
    e.assume(eq(t, c)); e.defs = dict(e.defs); 
    c2 = subst(c, e.defs) if e.defs else c
    e.defs[t] = c2
    for f in e.frames: f.env = {k: sub_val(v, m) for k, v in f.env.items()}
    for r in mod_regs:
        bs = e.wr(e.blocks[r[0]])
        for x in bs.regions:
            if x.off == r[1]: x.content = sub_content(x.content, m, old[r])
    nm = t.args[0]
    for bid, bs in list(e.mem.items()):
        for k, v in bs.cells.items():
            s_ = syms(v.off if isinstance(v, Ptr) else v) if isinstance(v, (Ptr, Term)) else ()
            if nm in s_:
                b2 = e.wr(e.blocks[bid])
                for k2, v2 in list(b2.cells.items()): b2.cells[k2] = sub_val(v2, m)
                break
    e.conds = [subst(x, m) for x in e.conds]
    return e

"""Bit-precise verification-condition generator for pure integer functions: the whole function becomes one bit-vector term.
Paths are merged at joins; a loop is unrolled until the solver proves that no further iteration is feasible, so the result
covers every execution (a loop that is not exhausted within LIMIT iterations is reported as undecided)."""
import time
import z3
from llir import loops, succs, size_of
LIMIT = 140
class BVUnsupported(Exception): pass

class BVEngine:
    def __init__(s, mod, oblige, timeout=20000, dn=None):
        s.m, s.oblige, s.timeout, s.dn = mod, oblige, timeout, dn or (lambda x: x)
        s.inlined = set(); s.aborts = []; s.queries = 0; s.time = 0.0; s.depth = 0
        s.sol = z3.SolverFor("QF_BV"); s.sol.set("timeout", timeout)
    def check(s, *fs):
        t0 = time.time(); s.queries += 1
        s.sol.push(); s.sol.add(*fs); r = s.sol.check(); s.model = s.sol.model() if r == z3.sat else None; s.sol.pop(); s.time += time.time() - t0
        return str(r)
    def call(s, name, args, guard):
        f = s.m.funcs.get(name)
        if f is None or not f.defined: raise BVUnsupported("external function " + s.dn(name))
        if s.depth > 60: raise BVUnsupported("recursion")
        s.inlined.add(name); s.depth += 1
        try: return s.body(f, args, guard)
        finally: s.depth -= 1
    def body(s, f, args, guard):
        L = loops(f)
        L = L if isinstance(L, dict) else {l.header: l for l in L}
        # reverse post-order in which loop bodies precede loop exits
        seen, post = set(), []
        inl = {b: [h for h in L if b in L[h].blocks] for b in f.order}
        def dfs(b):
            st = [(b, iter(order(b)))]; seen.add(b)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen: seen.add(y); st.append((y, iter(order(y)))); break
                else: post.append(x); st.pop()
        def order(b): return sorted(succs(f, b), key=lambda y: len(set(inl[b]) & set(inl[y])))
        dfs(f.order[0]); rpo = {b: i for i, b in enumerate(reversed(post))}
        nest = {b: sorted(inl[b], key=lambda h: -len(L[h].blocks)) for b in f.order}
        def key(b, its):
            k = []
            for h in nest[b]: k += [rpo[h], its.get(h, 0)]
            return tuple(k + [rpo[b]])
        work = {}
        env0 = {p[1]: a for p, a in zip(f.params, args)}
        work[key(f.order[0], {})] = [f.order[0], {}, guard, env0]
        rets = []
        while work:
            k = min(work); b, its, g, env = work.pop(k)
            env = dict(env); fork = []
            for ins in f.blocks[b]:
                if ins.op == "phi": continue
                if ins.op == "jmp": fork = [(g, ins.x)]
                elif ins.op == "br":
                    c = s.val(env, ins.args[0]) == 1; fork = [(z3.And(g, c), ins.x[0]), (z3.And(g, z3.Not(c)), ins.x[1])]
                elif ins.op == "switch":
                    v = s.val(env, ins.args[0]); rest = []
                    for cv, t in ins.x[1]: c = v == z3.BitVecVal(cv, v.size()); fork.append((z3.And(g, c, *rest), t)); rest.append(z3.Not(c))
                    fork.append((z3.And(g, *rest), ins.x[0]))
                elif ins.op == "ret": rets.append((g, s.val(env, ins.args[0]) if ins.args else None))
                elif ins.op == "unreachable": pass
                else:
                    g = s.step(ins, env, g)
                    if g is None: break
            for g2, t in fork:
                g2 = z3.simplify(g2)
                if z3.is_false(g2): continue
                it2 = {h: n for h, n in its.items() if h in inl[t]}
                if t in L:
                    if b in L[t].blocks:
                        it2[t] = its.get(t, 0) + 1
                        if s.check(g2) == "unsat": continue
                        if it2[t] > LIMIT: s.oblige(False, g2, "bounded:loop-exhausted", "loop of %s not exhausted after %d iterations" % (s.dn(f.name), LIMIT)); continue
                    else: it2[t] = 0
                e2 = dict(env)
                for p in f.blocks[t]:
                    if p.op != "phi": break
                    for v, pb in p.x:
                        if pb == b: e2[p.res] = s.val(env, v, p.ty.n if p.ty.k == "int" else None)
                kk = key(t, it2)
                w = work.get(kk)
                if w is None: work[kk] = [t, it2, g2, e2]
                else:
                    m = {}
                    for n in set(w[3]) | set(e2):
                        x, y = w[3].get(n), e2.get(n)
                        m[n] = x if y is None or x is y else y if x is None else x if (not z3.is_expr(x) or x.eq(y)) else z3.If(g2, y, x)
                    w[2] = z3.Or(w[2], g2); w[3] = m
        if not rets: return None, z3.BoolVal(False)
        g, v = rets[0]
        for g2, v2 in rets[1:]:
            v = None if v is None else z3.If(g2, v2, v); g = z3.Or(g, g2)
        return (z3.simplify(v) if v is not None else None), z3.simplify(g)
    def val(s, env, o, n=None):
        if o.k == "local":
            return env[o.v]
        if o.k == "int": return z3.BitVecVal(int(o.v), o.ty.n)
        if o.k in ("undef", "zero") and o.ty.k == "int": return z3.BitVecVal(0, o.ty.n)
        return None
    def step(s, ins, env, g):
        op, A = ins.op, ins.args
        V = lambda i: s.val(env, A[i])
        def ob(c, what, d=""): s.oblige(c, g, what, d or ins.line)
        if op in ("add", "sub", "mul"):
            a, b = V(0), V(1); n = a.size()
            r = a + b if op == "add" else a - b if op == "sub" else a * b
            if "nsw" in ins.x:
                x, y = z3.SignExt(n, a), z3.SignExt(n, b)
                e = x + y if op == "add" else x - y if op == "sub" else x * y
                ob(e == z3.SignExt(n, r), "arith:overflow")
            if "nuw" in ins.x:
                x, y = z3.ZeroExt(n, a), z3.ZeroExt(n, b)
                e = x + y if op == "add" else x - y if op == "sub" else x * y
                ob(e == z3.ZeroExt(n, r), "arith:overflow")
            env[ins.res] = z3.simplify(r)
        elif op in ("sdiv", "srem", "udiv", "urem"):
            a, b = V(0), V(1); n = a.size(); ob(b != 0, "arith:div-zero")
            if op[0] == "s": ob(z3.Not(z3.And(a == z3.BitVecVal(1 << (n - 1), n), b == z3.BitVecVal(-1, n))), "arith:overflow")
            env[ins.res] = {"sdiv": lambda: a / b, "srem": lambda: z3.SRem(a, b), "udiv": lambda: z3.UDiv(a, b), "urem": lambda: z3.URem(a, b)}[op]()
        elif op in ("shl", "lshr", "ashr"):
            a, b = V(0), V(1); n = a.size(); ob(z3.ULT(b, n), "arith:shift")
            env[ins.res] = z3.simplify(a << b if op == "shl" else z3.LShR(a, b) if op == "lshr" else a >> b)
        elif op in ("and", "or", "xor"):
            a, b = V(0), V(1); env[ins.res] = z3.simplify(a & b if op == "and" else a | b if op == "or" else a ^ b)
        elif op == "icmp":
            a, b = V(0), V(1)
            c = {"eq": lambda: a == b, "ne": lambda: a != b, "slt": lambda: a < b, "sle": lambda: a <= b, "sgt": lambda: a > b, "sge": lambda: a >= b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b), "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b)}[ins.x]()
            env[ins.res] = z3.simplify(z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
        elif op == "select": env[ins.res] = z3.If(V(0) == 1, V(1), V(2))
        elif op == "zext": a = V(0); env[ins.res] = z3.ZeroExt(ins.ty.n - a.size(), a)
        elif op == "sext": a = V(0); env[ins.res] = z3.SignExt(ins.ty.n - a.size(), a)
        elif op == "trunc": env[ins.res] = z3.Extract(ins.ty.n - 1, 0, V(0))
        elif op == "freeze": env[ins.res] = V(0)
        elif op == "extractvalue": env[ins.res] = env[A[0].v][ins.x[0]]
        elif op == "alloca": env[ins.res] = None
        elif op == "call":
            nm = ins.x
            if nm in ("@abort", "@_ZSt9terminatev"): s.aborts.append(g); return None
            if nm.startswith("@llvm.") and ".with.overflow." in nm:
                a, b = V(0), V(1); n = a.size(); k = nm[6:].split(".")[0]
                E = z3.SignExt if k[0] == "s" else z3.ZeroExt
                x, y = E(n, a), E(n, b); e = x + y if k[1:] == "add" else x - y if k[1:] == "sub" else x * y
                r = z3.Extract(n - 1, 0, e); env[ins.res] = (r, z3.If(e == E(n, r), z3.BitVecVal(0, 1), z3.BitVecVal(1, 1)))
            elif nm.startswith("@llvm."):
                k = nm[6:].split(".")[0]
                if k == "abs": a = V(0); env[ins.res] = z3.If(a < 0, -a, a)
                elif k in ("smax", "smin", "umax", "umin"):
                    a, b = V(0), V(1); c = a > b if k[0] == "s" else z3.UGT(a, b); env[ins.res] = z3.If(c, a, b) if k.endswith("ax") else z3.If(c, b, a)
                elif k in ("ctlz", "cttz", "ctpop"):
                    a = V(0); n = a.size()
                    if k == "ctpop": r = sum((z3.ZeroExt(n - 1, z3.Extract(i, i, a)) for i in range(n)), z3.BitVecVal(0, n))
                    else:
                        r = z3.BitVecVal(n, n)
                        for i in (range(n) if k == "ctlz" else range(n - 1, -1, -1)): r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(n - 1 - i if k == "ctlz" else i, n), r)
                    env[ins.res] = r
                elif k in ("lifetime", "dbg", "assume"): pass
                else: raise BVUnsupported(nm)
            else:
                v, g2 = s.call(nm, [V(i[0]) if False else s.val(env, i[1][0]) for i in enumerate(ins.args)], g)
                if ins.res is not None: env[ins.res] = v
                return g2
        else: raise BVUnsupported(op + ": " + ins.line)
        return g

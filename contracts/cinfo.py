"""Contracts of il::Info (a sequence of records length|key|0|tag|value in a byte block, inline below 24 bytes) and il::Status."""
from lib import *
from calgo import ints
from cstring import Str, SV, BY, I8, TOP, signed
I32, I64 = llir.IntT(32), llir.IntT(64)
MAXI = 23; LIM = 1 << 28
class Inf(Str):
    def __init__(s, c): s.c = c; c.ex.byteobjs = {"%class.il::Info": 1}; c.ex.byteobjs.update({t: 1 for t in c.tu.mod.types if t.startswith("%union.anon")}); c.ex.cstrs = []; c.ex.handlers["@strlen"] = h_strlen; s.isz, s.ssz, s.o_ok, s.o_chk, s.o_err, s.o_info = c.tu.K("info"); assert s.isz == 24
    def raw(s, st, name="a", size=24, at=0):
        c = s.c; a = SV(); a.obj = c.obj(st, name, size); a.at = at; a.ptr = Ptr(a.obj, const(at)); a.sptr = Ptr(a.obj, ZERO)
        r = Region(at, const(24), 1, Base(fresh_name(name))); r.fields[BY] = True; st.mem[a.obj.id].regions.append(r); return a
    def pre(s, st, name, case, size=24, at=0):
        """any legal record: at most 23 bytes inline, or more on the heap"""
        c = s.c; a = s.raw(st, name, size, at); a.case = case; a.base = None; a.n = c.nonneg(st, name + ".n", LIM)
        if case == "small":
            st.assume(le(a.n, const(MAXI))); a.data = Ptr(a.obj, const(at), 1); c.setcells(st, a.obj, {(at + 23, 1): a.n}); a.content0 = st.mem[a.obj.id].regions[0].content; a.cap = const(MAXI)
        else:
            a.cap = c.nonneg(st, name + ".cap", MAXALLOC); st.assume(gt(a.n, const(MAXI)), le(a.n, a.cap))
            a.base = c.ex.alloc(st, name + ".data", "heap", a.cap, 16); st.flags[("alloc", a.base.id)] = "new[]"; r = Region(0, None, 1, Base(fresh_name(name + ".d"))); r.fields[BY] = True
            st.mem[a.base.id].regions.append(r); st.owned.add(a.base.id); a.content0 = r.content; a.data = Ptr(a.base, ZERO, 1)
            c.setcells(st, a.obj, {(at, 8): a.data, (at + 8, 8): a.n, (at + 16, 8): sub(add(a.cap, scale(const(128), TOP)), const(1 << 64))})
        return a
    def ub(s, a):
        def f(q, k):
            b = s.rd(q, a.content0, k); return ite(lt(b, ZERO), add(b, const(256)), b)
        return f
    def posts(s, o, a):
        c, ex = s.c, s.c.ex; at = a.at; tag = ex.load_nc(o, Ptr(a.obj, const(at + 23), 1), I8, 1); d = ex.decide(o, ge(tag, ZERO))
        for small in ([d] if d is not None else [True, False]):
            p = o if d is not None else o.clone()
            if d is None: p.assume(ge(tag, ZERO) if small else lt(tag, ZERO))
            b = SV(); b.obj = a.obj; b.small = small
            if small: b.n = tag; b.data = Ptr(a.obj, const(at), 1); b.base = None; c.post(p, le(b.n, const(MAXI)), "post:legal", "inline size")
            else:
                dp = p.mem[a.obj.id].cells.get((at, 8))
                if not isinstance(dp, Ptr) or dp.blk is None: c.fail(p, "post:legal", "no storage"); continue
                if not p.mem[dp.blk.id].alive or dp.blk.kind != "heap": c.fail(p, "post:legal", "storage %s" % dp.blk); continue
                b.data = Ptr(dp.blk, dp.off, 1); b.base = dp.blk; b.n = ex.load_nc(p, Ptr(a.obj, const(at + 8), 1), I64, 8)
                u = ex.uns(p, ex.load_nc(p, Ptr(a.obj, const(at + 16), 1), I64, 8), 64); b.cap = mod(u, 128 * TOP)
                c.post(p, and_(eq(dp.off, ZERO), lt(const(MAXI), b.n), le(b.n, b.cap), le(b.cap, dp.blk.size)), "post:legal", "size at most capacity, capacity inside the block")
            yield p, b
CASES = ("small", "large")
def big(n): return FALSE
def copies(c):
    S = Inf(c); same = lambda v: (lambda q, k: S.rd(q, v.content0, k))
    st = c.state(); a = S.raw(st)
    for o in c.call(st, "i_ctor0", [a.ptr]):
        for p, b in S.posts(o, a): c.post(p, eq(b.n, ZERO), "post:size", "empty"); S.own(p, b)
    for case in CASES:
        for f in ("ctorcopy", "ctormove", "assign", "moveassign"):
            for dc in (CASES + ("self",) if "assign" in f else ("raw",)):
                st = c.state(); v = S.pre(st, "v", case); a = v if dc == "self" else S.raw(st) if dc == "raw" else S.pre(st, "a", dc); st0 = st.clone()
                for o in c.call(st, "i_" + f, [a.ptr, v.ptr]):
                    for p, b in S.posts(o, a):
                        S.seq(p, b, [(v.n, same(v))])
                        if dc == "self": S.own(p, b)
                        elif "move" in f:
                            for p2, w in S.posts(p, v): S.own(p2, b, w)
                        else: S.own(p, b, v); c.unchanged(p, st0, v.obj); (c.unchanged(p, st0, v.base) if v.base is not None else None)
        for f in ("dtor", "clear", "isempty"):
            st = c.state(); a = S.pre(st, "a", case); st0 = st.clone()
            for o in c.call(st, "i_" + f, [a.ptr]):
                if f == "dtor": c.noleak(o, [])
                elif f == "clear":
                    for p, b in S.posts(o, a): c.post(p, eq(b.n, ZERO), "post:size", "empty"); S.own(p, b)
                else: c.post(o, iff(o.val, eq(a.n, ZERO)), "post:empty", "empty"); c.unchanged(o, st0, a.obj)
def le32(b, o): return add(b(o), scale(b(add(o, ONE)), 1 << 8), scale(b(add(o, const(2))), 1 << 16), scale(b(add(o, const(3))), 1 << 24))
def byteof(v, i): return mod(div(v, 1 << (8 * i)), 256)
VK = {"int": 8, "integer": 8, "double": 8, "string": None}
TAG = {"int": 0, "integer": 0, "double": 1, "string": 2}
def value(c, S, st, kind):
    """(argument, length in the record, byte function)"""
    if kind == "int": v = c.int(st, "v", 32); return v, const(8), lambda q, i: byteof(v, i)
    if kind == "integer": v = c.int(st, "v"); u = c.ex.uns(st, v, 64); return v, const(8), lambda q, i: byteof(u, i)
    if kind == "double": v = fresh("v"); w = c.ex.bitsof(st, v); u = c.ex.uns(st, w, 64); return v, const(8), lambda q, i: byteof(u, i)
    p, n, f = S.cstr(st, "v"); st.assume(lt(n, const(LIM))); c.ex.cstrs.append((p, n)); return p, add(n, ONE), f
def key(c, S, st): p, n, f = S.cstr(st, "key"); st.assume(lt(n, const(LIM))); c.ex.cstrs.append((p, n)); return p, n, f
def recorded(c, S, p, b, n0, kn, kf, kind, vl, vf, old):
    """the record appended at n0, the ones before it as they were"""
    ub = lambda q, k: (lambda x: ite(lt(x, ZERO), add(x, const(256)), x))(S.byte(q, b.data, k))
    n = add(kn, vl, const(6)); c.post(p, eq(b.n, add(n0, n)), "post:size", "one more record")
    q = c.fork(p); k = c.skolem(q, ZERO, n0); c.post(q, eq(S.byte(q, b.data, k), old(q, k)), "post:kept", "the earlier records")
    for i in range(4): c.post(p, eq(ub(p, add(n0, const(i))), byteof(n, i)), "post:length", "length of the record")
    q = c.fork(p); k = c.skolem(q, ZERO, add(kn, ONE)); c.post(q, eq(S.byte(q, b.data, add(n0, const(4), k)), kf(q, k)), "post:key", "key of the record")
    t = add(n0, kn, const(5)); c.post(p, eq(ub(p, t), const(TAG[kind])), "post:tag", "type of the value")
    if kind == "string": q = c.fork(p); k = c.skolem(q, ZERO, vl); c.post(q, eq(S.byte(q, b.data, add(t, ONE, k)), vf(q, k)), "post:value", "bytes of the value")
    else:
        for i in range(8): c.post(p, eq(ub(p, add(t, ONE, const(i))), vf(p, i)), "post:value", "byte %d of the value" % i)
def sets(c, kind):
    S = Inf(c)
    for case in CASES:
        st = c.state(); a = S.pre(st, "a", case); kp, kn, kf = key(c, S, st); v, vl, vf = value(c, S, st, kind); st0 = st.clone()
        for o in c.call(st, "i_set" + kind, [a.ptr, kp, v]):
            for p, b in S.posts(o, a): recorded(c, S, p, b, a.n, kn, kf, kind, vl, vf, lambda q, k: S.rd(q, a.content0, k)); S.own(p, b); c.unchanged(p, st0, kp.blk)
def h_strlen(ex, st, a, ins):
    """strlen: the length of the zero-terminated string the contract supplies at this address, or of a literal"""
    for p, n in ex.cstrs:
        if a[0].blk is p.blk and a[0].off is p.off: return n
    p = a[0]
    if p.blk is not None and p.blk.kind == "global" and is_const(p.off):
        for i in range(cval(p.off), 4096):
            if ex.load_nc(st, Ptr(p.blk, const(i), 1), I8, 1) is ZERO: return const(i - cval(p.off))
    raise Unsupported("strlen of an unknown string")
# ---------- retrieval: records start at the offsets s with start(s); n(s) bytes, key of kl(s) bytes
class Records:
    """ghost description of the records; its defining facts are instantiated at the offsets that occur (no quantifier over offsets)"""
    def __init__(s, c, S, st, a, kp, kn):
        s.nm = fresh_name("rec"); s.c, s.a, s.kn = c, a, kn; s.s0 = None; s.at = []
        kr = st.mem[kp.blk.id].regions[0].content; s.K = lambda t: c.ex.rdc(st, kr, BY, add(kp.off, t)); s.B = lambda k: c.ex.rdc(st, a.content0, BY, k)
        st.assume(or_(eq(a.n, ZERO), s.start(ZERO))); s.inst(st, ZERO)
    def facts(s, x):
        St, N, KL, M, D, B, K, kn, n = s.start, s.n(x), s.kl(x), s.match(x), s.diff(x), s.B, s.K, s.kn, s.a.n; U = lambda k: (lambda b: ite(lt(b, ZERO), add(b, const(256)), b))(B(k))
        # the length, least significant byte first; below 24 it is its first byte
        f = [le(ZERO, x)] + ([eq(signed32(le32(U, x)), N)] if s.a.case == "large" else [eq(B(x), N)] + [eq(B(add(x, const(i))), ZERO) for i in (1, 2, 3)])
        f += [ ge(KL, ZERO), ge(N, add(KL, const(7))), le(add(x, N), n), or_(eq(add(x, N), n), St(add(x, N))), eq(B(add(x, const(4), KL)), ZERO),
             # match: the record carries the key searched for; otherwise the lengths differ, or some byte does
             implies(M, eq(KL, kn)),
             implies(and_(not_(M), eq(KL, kn)), and_(le(ZERO, D), lt(D, kn), ne(B(add(x, const(4), D)), K(D))))]
        if s.s0 is None: f.append(not_(M))
        elif s.s0 is not x: f += [implies(lt(x, s.s0), and_(not_(M), le(add(x, N), s.s0)))]      # the first match is at s0, and records do not overlap
        return [implies(St(x), y) for y in f] + [and_(le(const(-128), B(add(x, const(i)))), le(B(add(x, const(i))), const(127))) for i in range(4)]
    def inst2(s, st, x, t):
        """the byte t of the key of the record at x"""
        b = s.B(add(x, const(4), t)); st.assume(implies(and_(s.start(x), le(ZERO, t), lt(t, s.kl(x))), ne(b, ZERO)), implies(and_(s.start(x), s.match(x), le(ZERO, t), lt(t, s.kn)), eq(b, s.K(t))), implies(and_(le(ZERO, t), lt(t, s.kn)), ne(s.K(t), ZERO)))
    def inst(s, st, x):
        st.assume(*s.facts(x))
        if all(x is not y for y in s.at): s.at.append(x)
    def start(s, x): return bapp(s.nm + ".start", x)
    def n(s, x): return app(s.nm + ".n", x)
    def kl(s, x): return app(s.nm + ".kl", x)
    def match(s, x): return bapp(s.nm + ".match", x)
    def diff(s, x): return app(s.nm + ".diff", x)
def signed32(u): return ite(ge(u, const(1 << 31)), sub(u, const(1 << 32)), u)
def found(c, case, present):
    """a state with a legal record and a key; present: some record has it, the first one at s0"""
    S = Inf(c); st = c.state(); a = S.pre(st, "a", case); kp, kn, kf = key(c, S, st); R = Records(c, S, st, a, kp, kn)
    if present: R.s0 = c.nonneg(st, "s0"); st.assume(R.start(R.s0), R.match(R.s0)); R.inst(st, R.s0); R.inst(st, ZERO)
    lim = R.s0 if present else a.n
    def hint(ctx):
        out = []; ks = ints(ctx); simple = lambda x: x.op != "sum" and not is_const(x)
        xs = [x for x in R.at if simple(x) and x is not R.s0 and ctx.ex.known(ctx.st, R.start(x))][-2:]      # inside of the record at x
        def g(f):      # with the facts about the records instantiated at the values of the loop variables
            def h(st, v, tt):
                for k in ks:
                    if xs:
                        for x in xs: R.inst2(st, x, v[k])
                    else: R.inst(st, v[k])
                return f(v)
            return h
        for k in ks:
            if xs: 
                out += [lambda v, k=k: le(v[k], kn)]
                for x in xs: out += [lambda v, k=k, x=x: le(v[k], R.kl(x)), lambda v, k=k, x=x: or_(le(v[k], R.diff(x)), lt(R.diff(x), ZERO), eq(R.B(add(x, const(4), R.diff(x))), R.K(R.diff(x))))]
            else:
                out += [lambda v, k=k: or_(eq(v[k], a.n), R.start(v[k])), lambda v, k=k: le(v[k], lim)]
                for f, w in ctx.init.items():      # once the key has been found
                    no = (lambda v, f=f: not_(v[f])) if isinstance(w, Term) and w.b else (lambda v, f=f: eq(v[f], ZERO)) if w is ZERO and ctx.widths.get(f) == 8 else None
                    if no: out += [lambda v, k=k, no=no: or_(no(v), eq(v[k], kn)), lambda v, k=k, no=no: or_(no(v), eq(v[k], lim))] + ([no] if not present else [])
        return [g(f) for f in out]
    c.ex.sinv = [hint]; c.ex.p.qfree = Prover(timeout=3000); c.ex.p.gtimeout = 25000
    return S, st, a, kp, kn, R, R.s0
def searches(c, case, present):
    S, st, a, kp, kn, R, s0 = found(c, case, present == "present"); st0 = st.clone()
    for o in c.call(st, "i_search", [a.ptr, kp]):
        c.post(o, eq(o.val, add(s0, kn, const(5)) if s0 is not None else const(-1)), "post:search", "position of the value of the first record with this key, or -1"); c.unchanged(o, st0, a.obj); c.unchanged(o, st0, a.data.blk); c.unchanged(o, st0, kp.blk)
SEARCH = "il::Info::search(char const*) const"
def gets(c):
    """reading the value at a position, and by key (the search by its contract, verified above)"""
    S = Inf(c); ex = c.ex
    for case in CASES:
        for f, tag in (("tointeger", 0), ("todouble", 1), ("ascstring", 2), ("isinteger", 0), ("isdouble", 1), ("isstring", 2)):
            for bykey in (False, True) if not f.startswith("is") else (False,):
                st = c.state(); a = S.pre(st, "a", case); i = c.int(st, "i"); ub = S.ub(a); t = ub(st, i); inside = and_(le(ZERO, i), le(add(i, const(9) if f in ("tointeger", "todouble") else ONE), a.n)); args = [a.ptr, i]
                if bykey:
                    kp, kn, kf = key(c, S, st); args[1] = kp; st.assume(or_(eq(i, const(-1)), inside))
                    def h(ex_, q, av, ins): return i
                    ex.handlers[SEARCH] = h; none = lt(i, ZERO)
                else: st.assume(inside); none = FALSE; ex.handlers.pop(SEARCH, None)
                if f in ("tointeger", "todouble") and not bykey: st.assume(inside)
                bs = [ub(st, add(i, const(1 + k))) for k in range(8)] if f in ("tointeger", "todouble") else []
                u = add(*[scale(b, 1 << (8 * k)) for k, b in enumerate(bs)]) if bs else ZERO; st0 = st.clone()
                for o in c.call(st, "i_" + ("k" if bykey else "") + f, args, abort_ok=lambda o: or_(none, ne(t, const(tag))) if not f.startswith("is") else FALSE):
                    if f.startswith("is"): c.post(o, iff(o.val, eq(t, const(tag))), "post:type", "kind of the value")
                    else:
                        c.post(o, and_(not_(none), eq(t, const(tag))), "post:other-type-aborts", "a value of this type is there")
                        if f == "tointeger": c.post(o, eq(o.val, ite(ge(u, const(1 << 63)), sub(u, const(1 << 64)), u)), "post:value", "the integer stored")
                        elif f == "todouble": c.post(o, eq(ex.bitsof(o, o.val), ite(ge(u, const(1 << 63)), sub(u, const(1 << 64)), u)), "post:value", "the floating point value stored")
                        else: ptr_is(c, o, o.val, Ptr(a.data.blk, add(a.data.off, i, ONE)), "post:value")
                    c.unchanged(o, st0, a.obj); c.unchanged(o, st0, a.data.blk)
        st = c.state(); a = S.pre(st, "a", case); i = c.int(st, "i")
        for o in c.call(st, "i_found", [a.ptr, i]): c.post(o, iff(o.val, ge(i, ZERO)), "post:found", "found")
    ex.handlers.pop(SEARCH, None)
# ---------- il::Status
class Sta(Inf):
    def pret(s, st, name, case):
        a = s.pre(st, name, case, s.ssz, s.o_info); c = s.c; a.ok, a.chk = freshb(name + ".ok"), freshb(name + ".chk"); a.err = c.nonneg(st, name + ".err", 1 << 15)
        c.setcells(st, a.obj, {(s.o_ok, 1): ite(a.ok, ONE, ZERO), (s.o_chk, 1): ite(a.chk, ONE, ZERO), (s.o_err, 2): a.err}); return a
    def flags(s, o, a):
        ex = s.c.ex; g = lambda off, w: ex.load_nc(o, Ptr(a.obj, const(off), w), llir.IntT(8 * w), w)
        return ne(g(s.o_ok, 1), ZERO), ne(g(s.o_chk, 1), ZERO), g(s.o_err, 2)
    def is_(s, o, a, ok=None, chk=None, err=None):
        c = s.c; k, h, e = s.flags(o, a)
        if ok is not None: c.post(o, iff(k, ok), "post:ok", "ok or error as set")
        if chk is not None: c.post(o, iff(h, chk), "post:check", "the obligation to check")
        if err is not None: c.post(o, eq(e, err), "post:error", "the error set")
def status(c, case):
    S = Sta(c); same = lambda v: (lambda q, k: S.rd(q, v.content0, k))
    def info(o, a, v=None, n=None):
        for p, b in S.posts(o, a):
            if v is not None: S.seq(p, b, [(v.n, same(v))])
            yield p, b
    st = c.state(); a = S.raw(st, "a", S.ssz, S.o_info)
    for o in c.call(st, "t_ctor0", [a.sptr]):
        S.is_(o, a, TRUE, FALSE)
        for p, b in info(o, a): c.post(p, eq(b.n, ZERO), "post:size", "no record"); S.own(p, b)
    for f in ("ctormove", "moveassign"):
        for dc in CASES if f == "moveassign" else ("raw",):
            st = c.state(); v = S.pret(st, "v", case); a = S.raw(st, "a", S.ssz, S.o_info) if dc == "raw" else S.pret(st, "a", dc)
            for o in c.call(st, "t_" + f, [a.sptr, v.sptr], abort_ok=lambda o: a.chk if dc != "raw" else FALSE):
                if dc != "raw": c.post(o, not_(a.chk), "post:overwriting-unchecked-aborts", "an unchecked status is not overwritten"); ptr_is(c, o, o.val, a.sptr, "post:returns-this")
                S.is_(o, a, v.ok, None, v.err); c.post(o, implies(v.chk, S.flags(o, a)[1]), "post:check", "the obligation to check is transferred"); S.is_(o, v, None, FALSE)
                for p, b in info(o, a, v):
                    for p2, w in S.posts(p, v): S.own(p2, b, w)
    st = c.state(); a = S.pret(st, "a", case)
    for o in c.call(st, "t_dtor", [a.sptr], abort_ok=lambda o: a.chk): c.post(o, not_(a.chk), "post:unchecked-aborts", "an unchecked status is not destroyed"); c.noleak(o, [])
    for f in ("setok", "seterror", "rearm", "ok", "abort", "ignore", "error"):
        st = c.state(); a = S.pret(st, "a", case); e = c.nonneg(st, "e", 1 << 15); setting = f in ("setok", "seterror", "rearm", "error"); st0 = st.clone()
        bad = a.chk if setting else or_(not_(a.chk), not_(a.ok)) if f == "abort" else not_(a.chk)
        for o in c.call(st, "t_" + f, [a.sptr] + ([e] if f == "seterror" else []), abort_ok=lambda o: bad):
            c.post(o, not_(bad), "post:illegal-aborts", "legal state")
            S.is_(o, a, TRUE if f == "setok" else FALSE if f == "seterror" else a.ok, TRUE if f in ("setok", "seterror", "rearm") else FALSE, e if f == "seterror" else a.err if f != "setok" else None)
            if f == "ok": c.post(o, iff(o.val, a.ok), "post:ok", "ok exactly when it was set so")
            if f == "error": c.post(o, eq(o.val, a.err), "post:error", "the error set"); c.unchanged(o, st0, a.obj)
            for p, b in info(o, a, None if f in ("seterror", "setok") else a):
                if f == "seterror": c.post(p, eq(b.n, ZERO), "post:size", "the records of the previous error are dropped")
                S.own(p, b)
    for kind in ("int", "integer", "double", "string"):
        st = c.state(); a = S.pret(st, "a", case); kp, kn, kf = key(c, S, st); v, vl, vf = value(c, S, st, kind); st0 = st.clone(); bad = or_(not_(a.chk), a.ok)
        for o in c.call(st, "t_set" + kind, [a.sptr, kp, v], abort_ok=lambda o: bad):
            c.post(o, not_(bad), "post:illegal-aborts", "only an unchecked error carries information"); S.is_(o, a, a.ok, a.chk, a.err)
            for p, b in S.posts(o, a): recorded(c, S, p, b, a.n, kn, kf, kind, vl, vf, lambda q, k: S.rd(q, a.content0, k)); S.own(p, b)
    st = c.state(); a = S.pret(st, "a", case); kp, kn, kf = key(c, S, st); l = c.int(st, "line"); bad = or_(not_(a.chk), a.ok)
    for o in c.call(st, "t_source", [a.sptr, kp, l], abort_ok=lambda o: bad):
        c.post(o, not_(bad), "post:illegal-aborts", "only an unchecked error carries information"); S.is_(o, a, a.ok, a.chk, a.err)
        for p, b in S.posts(o, a):
            c.post(p, eq(b.n, add(a.n, const(11 + 6 + 1 + 11 + 14), kn)), "post:size", "two more records"); q = c.fork(p); k = c.skolem(q, ZERO, a.n); c.post(q, eq(S.byte(q, b.data, k), S.rd(q, a.content0, k)), "post:kept", "the earlier records"); S.own(p, b)
    def hget(ex, q, av, ins): return app("stored", av[1].off)
    for f in ("tointeger", "todouble", "ascstring"):
        st = c.state(); a = S.pret(st, "a", case); kp, kn, kf = key(c, S, st); r = fresh("r"); rp = Ptr(a.data.blk, r, 1); st0 = st.clone(); seen = []
        name = {"tointeger": "il::Info::toInteger(char const*) const", "todouble": "il::Info::toDouble(char const*) const", "ascstring": "il::Info::asCString(char const*) const"}[f]
        c.ex.handlers[name] = lambda ex, q, av, ins: (seen.append((av[0], av[1])), rp if f == "ascstring" else r)[1]
        for o in c.call(st, "t_" + f, [a.sptr, kp], abort_ok=lambda o: a.ok):
            c.post(o, not_(a.ok), "post:illegal-aborts", "only an error carries information")
            if seen: ptr_is(c, o, seen[-1][0], a.ptr, "post:info"); ptr_is(c, o, seen[-1][1], kp, "post:info")
            if f == "ascstring": ptr_is(c, o, o.val, rp, "post:info")
            else: c.post(o, eq(o.val, r), "post:info", "the value the record gives for the key")
            c.unchanged(o, st0, a.obj)
        c.ex.handlers.pop(name)
def domains(c):
    st = c.state(); e = c.nonneg(st, "e", 1 << 15)
    for o in c.call(st, "e_domain", [e]): c.post(o, eq(o.val, div(e, 256)), "post:domain", "the domain is the upper byte of the error")

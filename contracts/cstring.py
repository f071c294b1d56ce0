"""Contracts of il::String and il::StringView (sequence of bytes, NUL termination, storage, comparison, search, encoding)."""
from lib import *
from csmall import srcsame
BY = (0, 1, "i"); MAXS = 22; TOP = 1 << 56
I8 = llir.IntT(8)
class SV: pass
class Str:
    def __init__(s, c): s.c = c; c.ex.byteobjs = {"%class.il::String": 1}
    def raw(s, st, name="a"):
        c = s.c; a = SV(); a.obj = c.obj(st, name, 24); a.ptr = Ptr(a.obj, ZERO)
        r = Region(0, const(24), 1, Base(fresh_name(name))); r.fields[BY] = True; st.mem[a.obj.id].regions.append(r); return a
    def pre(s, st, name, case, q=None, n=None, content=None):
        """any legal string: inline (at most 22 bytes) or on the heap; content: its bytes, when they are given"""
        c = s.c; K = (lambda: {BY: lambda i: ite(eq(i, a.n), ZERO, content(i))} if content else {}); a = s.raw(st, name); a.case = case; a.n = c.nonneg(st, name + ".n") if n is None else n; a.q = c.nonneg(st, name + ".q", 4) if q is None else const(q); a.base = None
        if case == "small":
            st.assume(le(a.n, const(MAXS))); a.cap = const(MAXS); a.data = Ptr(a.obj, ZERO, 1)
            st.mem[a.obj.id].regions[0].content.consts.update(K()); c.setcells(st, a.obj, {(23, 1): add(a.n, scale(a.q, 32))}); a.content0 = st.mem[a.obj.id].regions[0].content
        else:
            a.cap8 = c.int(st, name + ".cap8"); a.cap = scale(a.cap8, 8); st.assume(ge(a.cap8, const(3)), le(a.cap, const(MAXALLOC - 2)), le(a.n, a.cap))
            a.base = c.ex.alloc(st, name + ".data", "heap", add(a.cap, ONE), 16); r = Region(0, None, 1, Base(fresh_name(name + ".d"), K())); r.fields[BY] = True
            st.mem[a.base.id].regions.append(r); st.owned.add(a.base.id); a.content0 = r.content; a.data = Ptr(a.base, ZERO, 1)
            c.setcells(st, a.obj, {(0, 8): a.data, (8, 8): a.n, (16, 8): sub(add(a.cap8, scale(add(scale(a.q, 32), const(128)), TOP)), const(1 << 64))})
        st.assume(eq(c.ex.rdc(st, a.content0, BY, a.n), ZERO)); return a
    def rd(s, q, content, k):
        b = s.c.ex.rdc(q, content, BY, k); q.assume(le(const(-128), b), le(b, const(127))); return b
    def b0(s, a): return lambda q, k: s.rd(q, a.content0, k)
    def byte(s, o, p, k): return s.c.ex.load_nc(o, Ptr(p.blk, add(p.off, k), 1), I8, 1)
    def posts(s, o, a):
        """the legal string in a after the call: (state, description); obligations of the representation invariant"""
        c, ex = s.c, s.c.ex; tag = ex.load_nc(o, Ptr(a.obj, const(23), 1), I8, 1); d = ex.decide(o, ge(tag, ZERO))
        for small in ([d] if d is not None else [True, False]):
            p = o if d is not None else o.clone()
            if d is None: p.assume(ge(tag, ZERO) if small else lt(tag, ZERO))
            b = SV(); b.obj = a.obj; b.small = small
            if small:
                b.n = mod(tag, 32); b.q = div(tag, 32); b.cap = const(MAXS); b.data = Ptr(a.obj, ZERO, 1); b.base = None
                c.post(p, le(b.n, const(MAXS)), "post:legal", "inline size"); ex.dropovl(p, Ptr(a.obj, ZERO), const(23), p.mem[a.obj.id].regions[0])
            else:
                cells = p.mem[a.obj.id].cells; dp = cells.get((0, 8))
                if not isinstance(dp, Ptr) or dp.blk is None: c.fail(p, "post:legal", "no storage"); continue
                if not p.mem[dp.blk.id].alive or dp.blk.kind != "heap": c.fail(p, "post:legal", "storage %s" % dp.blk); continue
                b.data = Ptr(dp.blk, dp.off, 1); b.base = dp.blk; b.n = ex.load_nc(p, Ptr(a.obj, const(8), 1), llir.IntT(64), 8)
                u = ex.uns(p, ex.load_nc(p, Ptr(a.obj, const(16), 1), llir.IntT(64), 8), 64); cap8 = mod(u, TOP); b.cap = scale(cap8, 8); b.q = mod(div(tag, 32), 4)
                c.post(p, and_(eq(dp.off, ZERO), le(ZERO, b.n), le(b.n, b.cap), gt(b.cap, const(MAXS)), lt(b.cap, dp.blk.size), eq(mod(div(tag, 16), 2), ZERO)), "post:legal", "size at most capacity, capacity inside the block")
            c.post(p, eq(s.byte(p, b.data, b.n), ZERO), "post:terminated", "a NUL follows the last byte")
            yield p, b
    def seq(s, o, b, pieces, what="post:bytes"):
        """the bytes are the concatenation of pieces [(length, fn(state, index))]"""
        c = s.c; pos = ZERO
        for ln, fn in pieces:
            if ln is ZERO: continue
            q = c.fork(o); k = c.skolem(q, ZERO, ln); c.post(q, eq(s.byte(q, b.data, add(pos, k)), fn(q, k)), what, "byte"); pos = add(pos, ln)
        c.post(o, eq(b.n, pos), "post:size", "size of the result")
    def own(s, o, *bs): s.c.noleak(o, [Ptr(b.base, ZERO) for b in bs if b.base is not None])
    def buf(s, st, name, n, extra=0, kind="ro", content=None):
        """read-only bytes, n of them readable"""
        c = s.c; nb = c.nonneg(st, name + ".nb"); off = c.nonneg(st, name + ".off"); st.assume(le(add(off, n, const(extra)), nb), lt(nb, const(MAXALLOC)))
        b = c.ex.alloc(st, name, kind, nb, 1); r = Region(0, None, 1, Base(fresh_name(name), {BY: lambda i: content(sub(i, off))} if content else {})); r.fields[BY] = True; st.mem[b.id].regions.append(r)
        return Ptr(b, off, 1), (lambda q, k, cc=r.content, off=off: s.rd(q, cc, add(off, k)))
    def view(s, st, name, kind="ext", of=None, n=None, content=None):
        """a legal view; kind ext: anywhere, null: default constructed, alias: inside the string of"""
        c = s.c; v = SV(); v.kind = kind; v.q = c.nonneg(st, name + ".q", 4); v.n = ZERO if kind == "null" else c.nonneg(st, name + ".n", MAXALLOC) if n is None else n
        if kind == "null": v.data = NULL; v.byte = lambda q, k: ZERO
        elif kind == "ext": v.data, v.byte = s.buf(st, name, v.n, content=content)
        else:
            j = c.nonneg(st, name + ".j"); st.assume(le(add(j, v.n), of.n)); v.data = Ptr(of.data.blk, add(of.data.off, j), 1); f = s.b0(of); v.byte = lambda q, k: f(q, add(j, k))
        v.obj = s.viewobj(st, name, v.data, v.n, v.q); v.ptr = Ptr(v.obj, ZERO); return v
    def viewobj(s, st, name, data, n, q):
        c = s.c; o = c.obj(st, name, 24); c.setcells(st, o, {(0, 8): data, (8, 8): Ptr(data.blk, add(data.off, n), 1) if data.blk is not None else NULL, (16, 1): scale(q, 32)}); return o
    def cstr(s, st, name, kind="ro", n=None, content=None):
        """a NUL-terminated string; (ptr, length, byte)"""
        c = s.c; n = c.nonneg(st, name + ".len") if n is None else n; p, f = s.buf(st, name, n, 1, kind, content); st.assume(eq(f(st, n), ZERO)); k = fresh("ck"); st.assume(forall((k,), implies(and_(le(ZERO, k), lt(k, n)), ne(f(st, k), ZERO))))
        return p, n, f
    def lit(s, st, m):
        """a char array of m bytes ending with NUL"""
        c = s.c; b = c.ex.alloc(st, "lit", "ro", const(m), 1); r = Region(0, const(m), 1, Base(fresh_name("lit"))); r.fields[BY] = True; st.mem[b.id].regions.append(r)
        f = lambda q, k: s.rd(q, r.content, k); st.assume(eq(f(st, const(m - 1)), ZERO)); return Ptr(b, ZERO, 1), f
    def viewat(s, o, obj):
        cs = o.mem[obj.id].cells; return cs.get((0, 8)), cs.get((8, 8)), s.c.ex.load_nc(o, Ptr(obj, const(16)), I8, 1)
def signed(x): return ite(ge(x, const(128)), sub(x, const(256)), x)
def valid(r): return and_(le(ZERO, r), le(r, const(0x10FFFF)), not_(and_(le(const(0xD800), r), le(r, const(0xDFFF)))))
RUNES = [(0, 0x80), (0x80, 0x800), (0x800, 0x10000), (0x10000, 0x110000)]
def utf8(r, L):
    """the standard encoding of the code point r on L bytes"""
    cont = lambda sh: sub(add(const(0x80), mod(div(r, 1 << sh), 64)), const(256))
    if L == 1: return [r]
    lead = {2: 0xC0, 3: 0xE0, 4: 0xF0}[L]
    return [sub(add(const(lead), div(r, 1 << (6 * (L - 1)))), const(256))] + [cont(6 * (L - 1 - i)) for i in range(1, L)]
def rune(c, st, L, name="r"):
    r = c.int(st, name, 32); lo, hi = RUNES[L - 1]; st.assume(le(const(lo), r), lt(r, const(hi)), valid(r)); return r
def pick(bs, L): 
    def f(q, k):
        i = mod(k, L); e = bs[L - 1]
        for d in range(L - 2, -1, -1): e = ite(eq(i, const(d)), bs[d], e)
        return e
    return f
def mx(*qs):
    m = qs[0]
    for x in qs[1:]: m = ite(gt(x, m), x, m)
    return m
CASES = ("small", "large")

def ctors(c):
    S = Str(c)
    def run(st, fn, args, a, pieces, q=None, frame=()):
        st0 = st.clone()
        for o in c.call(st, fn, args):
            for p, b in S.posts(o, a):
                S.seq(p, b, pieces); S.own(p, b)
                if q is not None: c.post(p, eq(b.q, q), "post:type", "kind of string")
                for x in frame: c.unchanged(p, st0, x)
    st = c.state(); a = S.raw(st); run(st, "s_ctor0", [a.ptr], a, [], ZERO)
    st = c.state(); a = S.raw(st); ch = c.nonneg(st, "c", 128); run(st, "s_ctorchar", [a.ptr, ch], a, [(ONE, lambda q, k: ch)], ZERO)
    for m in (1, 6, 23, 24, 40):
        st = c.state(); a = S.raw(st); l, f = S.lit(st, m); run(st, "s_lit%d" % m, [a.ptr, l], a, [(const(m - 1), f)], ONE)
        for t in (0, 1):
            st = c.state(); a = S.raw(st); l, f = S.lit(st, m); run(st, "s_tlit%d" % m, [a.ptr, const(32 * t), l], a, [(const(m - 1), f)], const(t))
    st = c.state(); a = S.raw(st); n = c.nonneg(st, "n"); p, f = S.buf(st, "s", n); q = c.nonneg(st, "q", 4); run(st, "s_ctordata", [a.ptr, scale(q, 32), p, n], a, [(n, f)], q, [p.blk])
    for kind in ("ext", "null"):
        st = c.state(); a = S.raw(st); v = S.view(st, "v", kind); run(st, "s_ctorview", [a.ptr, v.ptr], a, [(v.n, v.byte)], v.q, [v.obj])
    for case in CASES:
        st = c.state(); a = S.raw(st); v = S.pre(st, "v", case); st0 = st.clone()
        for o in c.call(st, "s_ctorcopy", [a.ptr, v.ptr]):
            for p, b in S.posts(o, a): S.seq(p, b, [(v.n, S.b0(v))]); S.own(p, b, v); c.post(p, eq(b.q, v.q), "post:type", "kind"); srcsame(c, S, p, st0, v)
def moves(c):
    S = Str(c)
    def moved(o, a, v):
        for p, b in S.posts(o, a):
            S.seq(p, b, [(v.n, S.b0(v))]); c.post(p, eq(b.q, v.q), "post:type", "kind")
            for p2, w in S.posts(p, v): S.own(p2, b, w)
    for case in CASES:
        st = c.state(); a = S.raw(st); v = S.pre(st, "v", case)
        for o in c.call(st, "s_ctormove", [a.ptr, v.ptr]): moved(o, a, v)
        for dc in CASES:
            st = c.state(); a = S.pre(st, "a", dc); v = S.pre(st, "v", case)
            for o in c.call(st, "s_moveassign", [a.ptr, v.ptr]): moved(o, a, v); ptr_is(c, o, o.val, a.ptr, "post:returns-this")
        st = c.state(); a = S.pre(st, "a", case)
        for o in c.call(st, "s_moveassign", [a.ptr, a.ptr]):
            for p, b in S.posts(o, a): S.seq(p, b, [(a.n, S.b0(a))]); S.own(p, b)
def assigns(c):
    S = Str(c)
    for dc in CASES:
        for case in CASES:
            st = c.state(); a = S.pre(st, "a", dc); v = S.pre(st, "v", case); st0 = st.clone()
            for o in c.call(st, "s_assign", [a.ptr, v.ptr]):
                ptr_is(c, o, o.val, a.ptr, "post:returns-this")
                for p, b in S.posts(o, a): S.seq(p, b, [(v.n, S.b0(v))]); S.own(p, b, v); c.post(p, eq(b.q, v.q), "post:type", "kind"); srcsame(c, S, p, st0, v)
        st = c.state(); a = S.pre(st, "a", dc)
        for o in c.call(st, "s_assign", [a.ptr, a.ptr]):
            for p, b in S.posts(o, a): S.seq(p, b, [(a.n, S.b0(a))]); S.own(p, b); c.post(p, eq(b.q, a.q), "post:type", "kind")
        for m in (1, 6, 23, 24, 40):
            st = c.state(); a = S.pre(st, "a", dc); l, f = S.lit(st, m)
            for o in c.call(st, "s_asglit%d" % m, [a.ptr, l]):
                for p, b in S.posts(o, a): S.seq(p, b, [(const(m - 1), f)]); S.own(p, b); c.post(p, eq(b.q, ONE), "post:type", "kind")
def storage(c):
    S = Str(c)
    for case in CASES:
        st = c.state(); a = S.pre(st, "a", case); r = c.nonneg(st, "r")
        for o in c.call(st, "s_reserve", [a.ptr, r], abort_ok=lambda o: gt(r, const(1 << 46))):
            for p, b in S.posts(o, a): S.seq(p, b, [(a.n, S.b0(a))]); S.own(p, b); c.post(p, eq(b.q, a.q), "post:type", "kind"); c.post(p, and_(ge(b.cap, r), ge(b.cap, a.cap), implies(le(r, a.cap), eq(b.cap, a.cap))), "post:capacity", "room for r bytes")
        st = c.state(); a = S.pre(st, "a", case)
        for o in c.call(st, "s_clear", [a.ptr]):
            for p, b in S.posts(o, a): S.seq(p, b, []); S.own(p, b); c.post(p, eq(b.cap, a.cap), "post:capacity", "capacity is kept")
        st = c.state(); a = S.pre(st, "a", case)
        for o in c.call(st, "s_dtor", [a.ptr]): S.own(o)
def observers(c):
    S = Str(c)
    for case in CASES:
        for f in ("size", "capacity", "type", "isempty", "issmall", "isutf8", "isascii", "data", "cstr", "Data"):
            st = c.state(); a = S.pre(st, "a", case); st0 = st.clone()
            for o in c.call(st, "s_" + f, [a.ptr]):
                if f in ("data", "cstr", "Data"): ptr_is(c, o, o.val, a.data, "post:data")
                else:
                    w = {"size": a.n, "capacity": a.cap, "type": scale(a.q, 32), "isempty": eq(a.n, ZERO), "issmall": TRUE if case == "small" else FALSE, "isutf8": le(a.q, ONE), "isascii": eq(a.q, ZERO)}[f]
                    c.post(o, iff(o.val, w) if w.b else eq(o.val, w), "post:" + f, f)
                srcsame(c, S, o, st0, a)
def appends(c, which):
    S = Str(c); big = const(1 << 58)
    for case in CASES:
        old = lambda a: (a.n, S.b0(a))
        def fin(o, a, pieces, q=None, frame=(), st0=None):
            for p, b in S.posts(o, a):
                S.seq(p, b, [old(a)] + pieces); S.own(p, b); c.post(p, implies(le(b.n, a.cap), eq(b.cap, a.cap)), "post:capacity", "no reallocation while there is room")
                if q is not None: c.post(p, eq(b.q, q), "post:type", "kind")
                for x in frame: c.unchanged(p, st0, x)
        if which == "char":
            st = c.state(); a = S.pre(st, "a", case); ch = c.nonneg(st, "c", 128)
            for o in c.call(st, "s_appchar", [a.ptr, ch]): fin(o, a, [(ONE, lambda q, k: ch)], a.q)
            st = c.state(); a = S.pre(st, "a", case); ch = c.nonneg(st, "c", 128); n = c.nonneg(st, "n", big)
            for o in c.call(st, "s_appnchar", [a.ptr, n, ch]): fin(o, a, [(n, lambda q, k: ch)], a.q)
        if which == "rune":
            for L in (1, 2, 3, 4):
                st = c.state(); a = S.pre(st, "a", case); r = rune(c, st, L); bs = utf8(r, L)
                for o in c.call(st, "s_apprune", [a.ptr, r]): fin(o, a, [(ONE, lambda q, k, d=d: bs[d]) for d in range(L)], a.q if L == 1 else mx(a.q, ONE))
        if which == "nrune":
            for L in (1, 2, 3, 4):
                st = c.state(); a = S.pre(st, "a", case); n = c.nonneg(st, "n", big); r = rune(c, st, L); bs = utf8(r, L)
                for o in c.call(st, "s_appnrune", [a.ptr, n, r]): fin(o, a, [(scale(n, L), pick(bs, L))], None)
        if which == "lit":
            for m in (1, 6, 23, 24, 40):
                st = c.state(); a = S.pre(st, "a", case); l, f = S.lit(st, m)
                for o in c.call(st, "s_applit%d" % m, [a.ptr, l]): fin(o, a, [(const(m - 1), f)], mx(a.q, ONE))
                st = c.state(); a = S.pre(st, "a", case); l, f = S.lit(st, m); q = c.nonneg(st, "q", 4)
                for o in c.call(st, "s_apptlit%d" % m, [a.ptr, scale(q, 32), l]): fin(o, a, [(const(m - 1), f)], mx(a.q, q))
        if which == "data":
            for al in (False, True):
                st = c.state(); a = S.pre(st, "a", case); q = c.nonneg(st, "q", 4); v = S.view(st, "v", "alias" if al else "ext", a); st0 = st.clone()
                for o in c.call(st, "s_appdata", [a.ptr, scale(q, 32), v.data, v.n]): fin(o, a, [(v.n, v.byte)], mx(a.q, q), () if al else (v.data.blk,), st0)
            for o_ in CASES:
                st = c.state(); a = S.pre(st, "a", case); v = S.pre(st, "v", o_); st0 = st.clone()
                for o in c.call(st, "s_appstr", [a.ptr, v.ptr]):
                    for p, b in S.posts(o, a): S.seq(p, b, [old(a), (v.n, S.b0(v))]); S.own(p, b, v); srcsame(c, S, p, st0, v)
            st = c.state(); a = S.pre(st, "a", case)
            for o in c.call(st, "s_appstr", [a.ptr, a.ptr]): fin(o, a, [old(a)], a.q)
        if which in ("view", "view2", "view3"):
            m = {"view": 1, "view2": 2, "view3": 3}[which]; ks = ("ext", "null", "alias")
            combos = [(x,) for x in ks] if m == 1 else [("ext", "ext"), ("ext", "alias"), ("alias", "ext"), ("alias", "alias"), ("null", "ext")] if m == 2 else [("ext",) * 3, ("alias", "ext", "alias"), ("ext", "alias", "ext")]
            for cb in combos:
                st = c.state(); a = S.pre(st, "a", case); vs = [S.view(st, "v%d" % i, x, a) for i, x in enumerate(cb)]; st0 = st.clone()
                for o in c.call(st, "s_app" + which, [a.ptr] + [v.ptr for v in vs]): fin(o, a, [(v.n, v.byte) for v in vs], mx(a.q, *[v.q for v in vs]), [v.obj for v in vs] + [v.data.blk for v in vs if v.kind == "ext"], st0)
def joins(c, m):
    S = Str(c); st = c.state(); a = S.raw(st, "r"); vs = [S.view(st, "v%d" % i, "ext") for i in range(m)]; st0 = st.clone()
    for o in c.call(st, "s_join%d" % m, [a.ptr] + [v.ptr for v in vs]):
        for p, b in S.posts(o, a): S.seq(p, b, [(v.n, v.byte) for v in vs]); S.own(p, b); c.post(p, eq(b.q, mx(*[v.q for v in vs])), "post:type", "kind")

def bytesof(name): 
    """an arbitrary byte sequence"""
    f = fresh_name(name + ".s"); return lambda i: app(f, i)
def bytefacts(st, f):
    k = fresh("bk"); st.assume(forall((k,), and_(le(const(-128), f(k)), le(f(k), const(127)))))
def eqpairs(c, S, case, kind):
    """pre-states of a comparison of a string (or view) with a string, C string or counted bytes: arbitrary, and with equal contents"""
    for same in (False, True):
        st = c.state()
        if same:
            f = bytesof("w"); bytefacts(st, f); n = c.nonneg(st, "n", MAXALLOC); x = dict(n=n, content=f)
            if kind in ("cs",): k = fresh("ck"); st.assume(eq(f(n), ZERO), forall((k,), implies(and_(le(ZERO, k), lt(k, n)), ne(f(k), ZERO))))
        else: f = None; x = {}
        if case == "view": a = S.view(st, "a", "ext", **x); ab = a.byte
        elif case == "nullview": a = S.view(st, "a", "null"); ab = a.byte
        else: a = S.pre(st, "a", case, **x); ab = S.b0(a)
        if same and case == "nullview": st.assume(eq(n, ZERO))
        yield same, st, a, ab, f, x
def compare(c):
    S = Str(c)
    def check(st, fn, args, same, neg, na, ab, nb, bb, frame):
        st0 = st.clone()
        for o in c.call(st, fn, args):
            r = not_(o.val) if neg else o.val
            if same: c.post(o, r, "post:equal", "equal sequences compare equal")
            else:
                q = c.fork(o); q.assume(r); k = c.skolem(q, ZERO, na); c.post(q, and_(eq(na, nb), eq(ab(q, k), bb(q, k))), "post:different", "only equal sequences compare equal")
            for x in frame: c.unchanged(o, st0, x)
    for case in CASES:
        for o_ in CASES:
            for same, st, a, ab, f, x in eqpairs(c, S, case, "str"):
                b = S.pre(st, "b", o_, **x); check(st, "s_eqss", [a.ptr, b.ptr], same, False, a.n, ab, b.n, S.b0(b), [a.obj, b.obj, a.data.blk, b.data.blk])
        for fn, neg, rev in (("s_eqcs", 0, 1), ("s_eqsc", 0, 0), ("s_neqcs", 1, 1), ("s_neqsc", 1, 0), ("s_isequal", 0, 0)):
            for same, st, a, ab, f, x in eqpairs(c, S, case, "cs"):
                p, m, bb = S.cstr(st, "b", **x); check(st, fn, [p, a.ptr] if rev else [a.ptr, p], same, neg, a.n, ab, m, bb, [a.obj, a.data.blk])
        for same, st, a, ab, f, x in eqpairs(c, S, case, "data"):
            m = x["n"] if same else c.nonneg(st, "m", MAXALLOC); p, bb = S.buf(st, "b", m, content=f); check(st, "s_isequaln", [a.ptr, p, m], same, 0, a.n, ab, m, bb, [a.obj, a.data.blk])
    for case in ("view", "nullview"):
        for same, st, a, ab, f, x in eqpairs(c, S, case, "cs"):
            p, m, bb = S.cstr(st, "b", **x); check(st, "v_eqc", [a.ptr, p], same, 0, a.n, ab, m, bb, [a.obj])
def affixes(c):
    """prefix and suffix tests"""
    S = Str(c)
    for case in CASES:
        for end in (0, 1):
            for kind in ("ext", "null", "same"):
                st = c.state(); same = kind == "same"
                if same:
                    f, g = bytesof("w"), bytesof("rest"); bytefacts(st, f); bytefacts(st, g); vn = c.nonneg(st, "vn"); m = c.nonneg(st, "m", MAXALLOC); st.assume(le(vn, m))
                    off = sub(m, vn) if end else ZERO; a = S.pre(st, "a", case, n=m, content=lambda i: ite(and_(le(off, i), lt(i, add(off, vn))), f(sub(i, off)), g(i))); v = S.view(st, "v", n=vn, content=f)
                else: a = S.pre(st, "a", case); v = S.view(st, "v", kind)
                st0 = st.clone(); ab = S.b0(a)
                for o in c.call(st, "s_endswith" if end else "s_startswith", [a.ptr, v.ptr]):
                    if same or kind == "null": c.post(o, o.val, "post:affix", "a prefix (suffix) is found")
                    else:
                        q = c.fork(o); q.assume(o.val); k = c.skolem(q, ZERO, v.n); c.post(q, and_(le(v.n, a.n), eq(v.byte(q, k), ab(q, add(k, sub(a.n, v.n) if end else ZERO)))), "post:no-affix", "only a prefix (suffix) is found")
                    for x in (a.obj, a.data.blk, v.obj): c.unchanged(o, st0, x)
        st = c.state(); a = S.pre(st, "a", case); ch = c.int(st, "c", 8); st0 = st.clone()
        for o in c.call(st, "s_endswithc", [a.ptr, ch]):
            c.post(o, iff(o.val, and_(gt(a.n, ZERO), eq(S.b0(a)(o, sub(a.n, ONE)), ch))), "post:affix", "last byte"); srcsame(c, S, o, st0, a)
def cnt_hint(cnt, byte, ch):
    """candidate invariant: the counter holds the number of matches among the bytes already visited"""
    def h(ctx):
        t = ctx.t; ctx.st.assume(eq(cnt(ZERO), ZERO), eq(cnt(add(t, ONE)), add(cnt(t), ite(eq(byte(ctx.st, t), ch), ONE, ZERO))))
        return [lambda tt, k=k: eq(ctx.vals_at(tt)[k], cnt(tt)) for k in ctx.non if isinstance(ctx.init[k], Term) and not ctx.init[k].b]
    return h
def counts(c):
    S = Str(c)
    for case in CASES + ("view", "null"):
        st = c.state(); ch = c.nonneg(st, "c", 128)
        if case in CASES: a = S.pre(st, "a", case); byte = S.b0(a)
        else: a = S.view(st, "a", "ext" if case == "view" else "null"); byte = a.byte
        g = fresh_name("cnt"); c.ex.hints = [cnt_hint(lambda i: app(g, i), byte, ch)]; st0 = st.clone()
        for o in c.call(st, "s_count" if case in CASES else "v_count", [a.ptr, ch] if case in CASES else [ch, a.ptr]):
            o.assume(eq(app(g, ZERO), ZERO)); c.post(o, eq(o.val, app(g, a.n)), "post:count", "number of occurrences"); c.unchanged(o, st0, a.obj)
        c.ex.hints = []
def below_hint(bound):
    """candidate invariant: a counter does not pass the bound"""
    return lambda ctx: [lambda tt, k=k: le(ctx.vals_at(tt)[k], bound) for k in ctx.vals_at(ZERO) if isinstance(ctx.init[k], Term) and not ctx.init[k].b]
def searches(c, case):
    S = Str(c)
    for kind in ("ext", "null", "same"):
        st = c.state(); same = kind == "same"
        if same:
            f, g = bytesof("w"), bytesof("rest"); bytefacts(st, f); bytefacts(st, g); vn = c.nonneg(st, "vn", MAXALLOC); m = c.nonneg(st, "m", MAXALLOC); k0 = c.nonneg(st, "k0"); st.assume(le(add(k0, vn), m))
            x = dict(n=m, content=lambda i: ite(and_(le(k0, i), lt(i, add(k0, vn))), f(sub(i, k0)), g(i))); v = S.view(st, "v", n=vn, content=f); c.ex.hints = [below_hint(k0)]
        else: x = {}; v = S.view(st, "v", kind)
        if case in CASES: a = S.pre(st, "a", case, **x); ab = S.b0(a)
        else: a = S.view(st, "a", "ext", **x); ab = a.byte
        st0 = st.clone()
        for o in c.call(st, "s_search" if case in CASES else "v_search", [a.ptr, v.ptr] if case in CASES else [v.ptr, a.ptr]):
            if same: c.post(o, and_(le(ZERO, o.val), le(o.val, k0)), "post:found", "an occurrence is found, not after any other")
            elif kind == "null": c.post(o, eq(o.val, ZERO), "post:found", "the empty sequence is everywhere")
            else:
                c.post(o, ge(o.val, const(-1)), "post:search", "position or -1"); q = c.fork(o); q.assume(ge(o.val, ZERO)); k = c.skolem(q, ZERO, v.n)
                c.post(q, and_(le(add(o.val, v.n), a.n), eq(v.byte(q, k), ab(q, add(o.val, k)))), "post:occurrence", "there is an occurrence at the reported position")
            for x in (a.obj, a.data.blk, v.obj): c.unchanged(o, st0, x)
        c.ex.hints = []
def cont(b): return lt(b, const(-64))
def strviews(c):
    """views of strings: the very bytes of the string"""
    S = Str(c)
    for case in CASES:
        for f in ("s_view", "s_asview"):
            st = c.state(); a = S.pre(st, "a", case); r = c.obj(st, "r", 24); st0 = st.clone()
            for o in c.call(st, f, [Ptr(r, ZERO), a.ptr]):
                d, z_, t = S.viewat(o, r); ptr_is(c, o, d, a.data, "post:view-begin"); ptr_is(c, o, z_, Ptr(a.data.blk, add(a.data.off, a.n)), "post:view-end"); c.post(o, eq(mod(t, 256), scale(a.q, 32)), "post:view-type", "kind"); srcsame(c, S, o, st0, a)
        for f, q_ in [("s_subview", None)] + [("s_substring", x) for x in range(4)]:
            st = c.state(); a = S.pre(st, "a", case, q_); i, j = c.int(st, "i"), c.int(st, "j"); sub_ = f == "s_substring"; st0 = st.clone(); legal = and_(le(ZERO, i), le(i, j), le(j, a.n))
            ab = S.b0(a); r = S.raw(st, "r") if sub_ else None; ro = r.obj if sub_ else c.obj(st, "r", 24)
            def may(o):
                q = o.clone(); q.assume(legal); return or_(not_(legal), and_(eq(a.q, ONE), or_(cont(ab(o, i)), cont(ab(o, j)))))
            for o in c.call(st, f, [Ptr(ro, ZERO), a.ptr, i, j], abort_ok=may):
                c.post(o, legal, "bounds:abort-out-of-range", "range leaves the string"); o.assume(legal)
                if sub_:
                    for p, b in S.posts(o, r): S.seq(p, b, [(sub(j, i), lambda q, k: ab(q, add(i, k)))]); S.own(p, b, a); c.post(p, eq(b.q, a.q), "post:type", "kind"); srcsame(c, S, p, st0, a)
                else:
                    d, z_, t = S.viewat(o, ro); ptr_is(c, o, d, Ptr(a.data.blk, add(a.data.off, i)), "post:view-begin"); ptr_is(c, o, z_, Ptr(a.data.blk, add(a.data.off, j)), "post:view-end"); c.post(o, eq(mod(t, 256), scale(a.q, 32)), "post:view-type", "kind"); srcsame(c, S, o, st0, a)
        st = c.state(); a = S.pre(st, "a", case); i = c.int(st, "i"); ok = and_(le(ZERO, i), le(i, a.n), le(a.q, ONE)); st0 = st.clone()
        for o in c.call(st, "s_boundary", [a.ptr, i], abort_ok=lambda o: not_(ok)): c.post(o, ok, "bounds:abort-out-of-range", "position outside the string"); c.post(o, iff(o.val, not_(cont(S.b0(a)(o, i)))), "post:boundary", "not a continuation byte"); srcsame(c, S, o, st0, a)
def strview_methods(c):
    S = Str(c)
    st = c.state(); r = c.obj(st, "r", 24)
    for o in c.call(st, "v_ctor0", [Ptr(r, ZERO)]): d, z_, t = S.viewat(o, r); c.post(o, TRUE if d.blk is None and z_.blk is None else FALSE, "post:view-begin", "empty"); c.post(o, eq(t, ZERO), "post:view-type", "kind")
    st = c.state(); r = c.obj(st, "r", 24); n = c.int(st, "n"); m = c.nonneg(st, "m"); st.assume(le(n, m)); p, f = S.buf(st, "s", m); q = c.nonneg(st, "q", 4)
    for o in c.call(st, "v_ctor", [Ptr(r, ZERO), scale(q, 32), p, n], abort_ok=lambda o: lt(n, ZERO)):
        c.post(o, ge(n, ZERO), "bounds:abort-out-of-range", "negative length"); d, z_, t = S.viewat(o, r); ptr_is(c, o, d, p, "post:view-begin"); ptr_is(c, o, z_, Ptr(p.blk, add(p.off, n)), "post:view-end"); c.post(o, eq(mod(t, 256), scale(q, 32)), "post:view-type", "kind")
    for m in (1, 6, 24):
        st = c.state(); r = c.obj(st, "r", 24); p, f = S.lit(st, m)
        for o in c.call(st, "v_lit%d" % m, [Ptr(r, ZERO), p]): d, z_, t = S.viewat(o, r); ptr_is(c, o, d, p, "post:view-begin"); ptr_is(c, o, z_, Ptr(p.blk, add(p.off, const(m - 1))), "post:view-end")
    st = c.state(); r = c.obj(st, "r", 24); p, n, f = S.cstr(st, "s")
    for o in c.call(st, "v_view", [Ptr(r, ZERO), p]): d, z_, t = S.viewat(o, r); ptr_is(c, o, d, p, "post:view-begin"); ptr_is(c, o, z_, Ptr(p.blk, add(p.off, n)), "post:view-end")
    for kind in ("ext", "null"):
        for f in ("size", "isempty", "type", "data", "cstr"):
            st = c.state(); v = S.view(st, "v", kind); st0 = st.clone()
            for o in c.call(st, "v_" + f, [v.ptr]):
                if f in ("data", "cstr"): ptr_is(c, o, o.val, v.data, "post:view-begin") if v.data.blk is not None else c.post(o, TRUE if o.val.blk is None else FALSE, "post:view-begin", "no data")
                elif f == "isempty": c.post(o, iff(o.val, eq(v.n, ZERO)), "post:view-size", "empty")
                else: c.post(o, eq(mod(o.val, 256), scale(v.q, 32)) if f == "type" else eq(o.val, v.n), "post:view-" + f, f)
                c.unchanged(o, st0, v.obj)
        for f in ("removeprefix", "removesuffix"):
            st = c.state(); v = S.view(st, "v", kind); i = c.int(st, "i"); ok = and_(le(ZERO, i), le(i, v.n))
            for o in c.call(st, "v_" + f, [v.ptr, i], abort_ok=lambda o: not_(ok)):
                c.post(o, ok, "bounds:abort-out-of-range", "position outside the view")
                if kind == "ext": d, z_, t = S.viewat(o, v.obj); pre_ = f == "removeprefix"; ptr_is(c, o, d, Ptr(v.data.blk, add(v.data.off, i if pre_ else ZERO)), "post:view-begin"); ptr_is(c, o, z_, Ptr(v.data.blk, add(v.data.off, v.n if pre_ else i)), "post:view-end")
        st = c.state(); v = S.view(st, "v", kind); i, j = c.int(st, "i"), c.int(st, "j"); r = c.obj(st, "r", 24); ok = and_(le(ZERO, i), le(i, j), le(j, v.n)); st0 = st.clone()
        for o in c.call(st, "v_subview", [Ptr(r, ZERO), v.ptr, i, j], abort_ok=lambda o: not_(ok)):
            c.post(o, ok, "bounds:abort-out-of-range", "range leaves the view"); c.unchanged(o, st0, v.obj)
            if kind == "ext": d, z_, t = S.viewat(o, r); ptr_is(c, o, d, Ptr(v.data.blk, add(v.data.off, i)), "post:view-begin"); ptr_is(c, o, z_, Ptr(v.data.blk, add(v.data.off, j)), "post:view-end"); c.post(o, eq(mod(t, 256), scale(v.q, 32)), "post:view-type", "kind")
def inset(b, *rs): return or_(*[and_(le(const(lo), b), le(b, const(hi))) for lo, hi in rs])
SPACE, DIGIT, HEXA = [(32, 32), (9, 13)], [(48, 57)], [(48, 57), (97, 102), (65, 70)]
def straccess(c):
    """accessors and character classes at a position: abort outside the view"""
    S = Str(c)
    for kind in ("ext", "null"):
        for f in ("at", "back", "hasspace", "hasdigit", "hashexa", "hasnewline", "startsdigit", "startsnewline"):
            st = c.state(); v = S.view(st, "v", kind); i = c.int(st, "i"); st0 = st.clone(); args = [v.ptr]
            if f.startswith("starts"): i = ZERO
            else: args.append(i)
            ok = TRUE if f == "startsnewline" else and_(le(ZERO, i), lt(i, v.n)); byte = v.byte
            for o in c.call(st, "v_" + f, args, abort_ok=lambda o: not_(ok), expect_return=kind == "ext" or ok is TRUE):
                c.post(o, ok, "bounds:abort-out-of-range", "returned for a position outside the view"); o.assume(ok); b = byte(o, i)
                if f == "at": addr_is(c, o, o.val, Ptr(v.data.blk, add(v.data.off, i)), v.data.off, v.n)
                elif f == "back": addr_is(c, o, o.val, Ptr(v.data.blk, add(v.data.off, sub(v.n, add(i, ONE)))), v.data.off, v.n)
                elif kind == "null": c.post(o, not_(o.val), "post:class", "nothing there")
                elif "newline" in f: c.post(o, iff(o.val, and_(lt(i, v.n), or_(eq(b, const(10)), and_(eq(b, const(13)), lt(add(i, ONE), v.n), eq(byte(o, add(i, ONE)), const(10)))))), "post:class", "line end")
                else: c.post(o, iff(o.val, inset(b, *{"hasspace": SPACE, "hasdigit": DIGIT, "startsdigit": DIGIT, "hashexa": HEXA}[f])), "post:class", "character class")
                c.unchanged(o, st0, v.obj)
def scans(c):
    """forward scans stop at the first position with the property"""
    S = Str(c)
    for kind in ("ext", "null"):
        for f in ("nextchar", "nextdigit", "trimprefix", "remws"):
            st = c.state(); v = S.view(st, "v", kind); i = c.nonneg(st, "i"); ch = c.int(st, "c", 8); r = c.obj(st, "r", 24); st0 = st.clone()
            args = {"nextchar": [v.ptr, i, ch], "nextdigit": [v.ptr, i], "trimprefix": [v.ptr], "remws": [Ptr(r, ZERO), v.ptr]}[f]
            stop = {"nextchar": lambda b: eq(b, ch), "nextdigit": lambda b: inset(b, *DIGIT)}.get(f, lambda b: and_(ne(b, const(32)), ne(b, const(9))))
            for o in c.call(st, "v_" + f, args):
                if f.startswith("next"):
                    c.post(o, or_(eq(o.val, const(-1)), and_(le(i, o.val), lt(o.val, v.n))), "post:scan", "a position of the view or -1")
                    if kind == "null": continue
                    q = c.fork(o); q.assume(ge(o.val, ZERO)); c.post(q, stop(v.byte(q, o.val)), "post:scan", "the position has the property")
                    q = c.fork(o); k = c.skolem(q, i, v.n); q.assume(or_(lt(o.val, ZERO), lt(k, o.val))); c.post(q, not_(stop(v.byte(q, k))), "post:scan", "no earlier position has it"); c.unchanged(o, st0, v.obj)
                else:
                    d, z_, t = S.viewat(o, v.obj if f == "trimprefix" else r)
                    if kind == "null": c.post(o, TRUE if d.blk is None and z_.blk is None else FALSE, "post:scan", "nothing to trim"); continue
                    ptr_is(c, o, z_, Ptr(v.data.blk, add(v.data.off, v.n)), "post:view-end"); j = sub(d.off, v.data.off); c.post(o, and_(TRUE if d.blk is v.data.blk else FALSE, le(ZERO, j), le(j, v.n)), "post:scan", "begin inside the view")
                    q = c.fork(o); q.assume(lt(j, v.n)); c.post(q, stop(v.byte(q, j)), "post:scan", "starts with no blank"); q = c.fork(o); k = c.skolem(q, ZERO, j); c.post(q, not_(stop(v.byte(q, k))), "post:scan", "only blanks are dropped")
    st = c.state(); n = c.nonneg(st, "n"); p, f = S.buf(st, "s", n)
    for o in c.call(st, "u_isascii", [p, n]):
        q = c.fork(o); q.assume(o.val); k = c.skolem(q, ZERO, n); c.post(q, ge(f(q, k), ZERO), "post:ascii", "only ASCII bytes")
    st = c.state(); n = c.nonneg(st, "n"); p, f = S.buf(st, "s", n); k = fresh("k"); st.assume(forall((k,), implies(and_(le(ZERO, k), lt(k, n)), ge(f(st, k), ZERO))))
    for o in c.call(st, "u_isascii", [p, n]): c.post(o, o.val, "post:ascii", "ASCII bytes")

def runes(c):
    """UTF-8: validity of code points, standard form, decoding, stepping"""
    S = Str(c)
    st = c.state(); r = c.int(st, "r", 32)
    for o in c.call(st, "u_isrune", [r]): c.post(o, iff(o.val, valid(r)), "post:valid", "valid code point")
    for case in CASES:
        for n_ in (0, 1):
            st = c.state(); a = S.pre(st, "a", case); r = c.int(st, "r", 32); n = c.nonneg(st, "n", 1 << 58)
            for o in c.call(st, "s_appnrune" if n_ else "s_apprune", [a.ptr, n, r] if n_ else [a.ptr, r], abort_ok=lambda o: not_(valid(r))): c.post(o, valid(r), "post:valid", "an invalid code point is refused")
    for L in (1, 2, 3, 4):
        for end in (0, 1):
            st = c.state(); r = rune(c, st, L); bs = utf8(r, L); v = S.view(st, "v"); i = c.nonneg(st, "i"); e = add(i, const(L)); st.assume(eq(e, v.n) if end else lt(e, v.n))
            for d in range(L): st.assume(eq(v.byte(st, add(i, const(d))), bs[d]))
            if not end: st.assume(not_(cont(v.byte(st, e))))
            for o in c.call(st.clone(), "v_rune", [v.ptr, i]): c.post(o, eq(o.val, r), "post:decode", "the code point is read back")
            for o in c.call(st, "v_nextrune", [v.ptr, i]): c.post(o, eq(o.val, e), "post:step", "the step is the encoded length")
def roundtrip(c, case, L):
    S = Str(c)
    for f in ("u_roundtrip", "u_step"):
        st = c.state(); a = S.pre(st, "a", case); r = rune(c, st, L)
        for o in c.call(st, f, [a.ptr, r]): c.post(o, eq(o.val, r if f == "u_roundtrip" else const(L)), "post:roundtrip", "decode after encode" if f == "u_roundtrip" else "step after encode")

# ---------- UTF-16 strings: 11 units inline, unit 11 holds 11 - size (top bits clear); heap: data, size, capacity with bit 63 set
WD = (0, 2, "i"); I16 = llir.IntT(16); MAXU = 11
class U16(Str):
    def __init__(s, c): s.c = c; c.ex.byteobjs = {"%class.il::UTF16String": 2}
    def raw(s, st, name="a"):
        c = s.c; a = SV(); a.obj = c.obj(st, name, 24); a.ptr = Ptr(a.obj, ZERO)
        r = Region(0, const(24), 2, Base(fresh_name(name))); r.fields[WD] = True; st.mem[a.obj.id].regions.append(r); return a
    def rd(s, q, content, k):
        b = s.c.ex.rdc(q, content, WD, k); q.assume(le(const(-32768), b), le(b, const(32767))); return b
    def byte(s, o, p, k): return s.c.ex.load_nc(o, Ptr(p.blk, add(p.off, scale(k, 2)), 2), I16, 2)
    def pre(s, st, name, case, n=None, content=None):
        c = s.c; a = s.raw(st, name); a.case = case; a.n = c.nonneg(st, name + ".n", 1 << 60) if n is None else n; a.base = None
        K = lambda: {WD: lambda i: ite(eq(i, a.n), ZERO, content(i))} if content else {}
        if case == "small":
            st.assume(le(a.n, const(MAXU))); a.cap = const(MAXU); a.data = Ptr(a.obj, ZERO, 2)
            st.mem[a.obj.id].regions[0].content.consts.update(K()); c.setcells(st, a.obj, {(22, 2): sub(const(MAXU), a.n)}); a.content0 = st.mem[a.obj.id].regions[0].content
            st.assume(or_(eq(a.n, const(MAXU)), eq(s.rd(st, a.content0, a.n), ZERO)))
        else:
            a.cap = c.nonneg(st, name + ".cap"); st.assume(gt(a.cap, const(MAXU)), le(scale(a.cap, 2), const(MAXALLOC - 4)), le(a.n, a.cap))
            a.base = c.ex.alloc(st, name + ".data", "heap", scale(add(a.cap, ONE), 2), 16); r = Region(0, None, 2, Base(fresh_name(name + ".d"), K())); r.fields[WD] = True
            st.mem[a.base.id].regions.append(r); st.owned.add(a.base.id); a.content0 = r.content; a.data = Ptr(a.base, ZERO, 2)
            c.setcells(st, a.obj, {(0, 8): a.data, (8, 8): a.n, (16, 8): sub(a.cap, const(1 << 63))}); st.assume(eq(s.rd(st, a.content0, a.n), ZERO))
        return a
    def posts(s, o, a):
        c, ex = s.c, s.c.ex; tag = ex.load_nc(o, Ptr(a.obj, const(22), 1), I16, 2); hi = div(ex.uns(o, tag, 16), 1 << 14); d = ex.decide(o, eq(hi, ZERO))
        for small in ([d] if d is not None else [True, False]):
            p = o if d is not None else o.clone()
            if d is None: p.assume(eq(hi, ZERO) if small else ne(hi, ZERO))
            b = SV(); b.obj = a.obj; b.small = small
            if small:
                b.n = sub(const(MAXU), tag); b.cap = const(MAXU); b.data = Ptr(a.obj, ZERO, 2); b.base = None
                c.post(p, and_(le(ZERO, b.n), le(b.n, const(MAXU))), "post:legal", "inline size"); ex.dropovl(p, Ptr(a.obj, ZERO), const(24), p.mem[a.obj.id].regions[0])
            else:
                cells = p.mem[a.obj.id].cells; dp = cells.get((0, 8))
                if not isinstance(dp, Ptr) or dp.blk is None: c.fail(p, "post:legal", "no storage"); continue
                if not p.mem[dp.blk.id].alive or dp.blk.kind != "heap": c.fail(p, "post:legal", "storage %s" % dp.blk); continue
                b.data = Ptr(dp.blk, dp.off, 2); b.base = dp.blk; b.n = ex.load_nc(p, Ptr(a.obj, const(8), 1), llir.IntT(64), 8)
                u = ex.uns(p, ex.load_nc(p, Ptr(a.obj, const(16), 1), llir.IntT(64), 8), 64); b.cap = mod(u, 1 << 62)
                c.post(p, and_(eq(dp.off, ZERO), le(ZERO, b.n), le(b.n, b.cap), gt(b.cap, const(MAXU)), le(scale(add(b.cap, ONE), 2), dp.blk.size), eq(hi, const(2))), "post:legal", "size at most capacity, capacity inside the block")
            c.post(p, eq(s.byte(p, b.data, b.n), ZERO), "post:terminated", "a NUL follows the last unit")
            yield p, b
    def ubuf(s, st, name, content=None, n=None):
        """a NUL-terminated sequence of 16-bit units"""
        c = s.c; n = c.nonneg(st, name + ".len") if n is None else n; nb = c.nonneg(st, name + ".nb"); st.assume(le(scale(add(n, ONE), 2), nb), lt(nb, const(MAXALLOC)))
        b = c.ex.alloc(st, name, "ro", nb, 2); r = Region(0, None, 2, Base(fresh_name(name))); r.fields[WD] = True; st.mem[b.id].regions.append(r)
        f = lambda q, k: s.rd(q, r.content, k); st.assume(eq(f(st, n), ZERO)); k = fresh("ck"); st.assume(forall((k,), implies(and_(le(ZERO, k), lt(k, n)), ne(c.ex.rdc(st, r.content, WD, k), ZERO)))); return Ptr(b, ZERO, 2), n, f
def sg16(x): return ite(ge(x, const(32768)), sub(x, const(65536)), x)
def utf16(r, L):
    if L == 1: return [sg16(r)]
    a = sub(r, const(0x10000)); return [sub(add(const(0xD800), div(a, 1024)), const(65536)), sub(add(const(0xDC00), mod(a, 1024)), const(65536))]
def rune16(c, st, L):
    r = c.int(st, "r", 32); st.assume(valid(r), lt(r, const(0x10000)) if L == 1 else ge(r, const(0x10000))); return r
def ustrings(c):
    """UTF-16 strings hold the units they are given"""
    S = U16(c)
    st = c.state(); a = S.raw(st)
    for o in c.call(st, "x_ctor0", [a.ptr]):
        for p, b in S.posts(o, a): S.seq(p, b, []); S.own(p, b)
    st = c.state(); a = S.raw(st); p_, n, f = S.ubuf(st, "s")
    for o in c.call(st, "x_ctorcstr", [a.ptr, p_]):
        for p, b in S.posts(o, a): S.seq(p, b, [(n, f)]); S.own(p, b)
    for case in CASES:
        st = c.state(); a = S.raw(st); v = S.pre(st, "v", case); st0 = st.clone()
        for o in c.call(st, "x_ctorcopy", [a.ptr, v.ptr]):
            for p, b in S.posts(o, a): S.seq(p, b, [(v.n, S.b0(v))]); S.own(p, b, v); srcsame(c, S, p, st0, v)
        def moved(o, a, v):
            for p, b in S.posts(o, a):
                S.seq(p, b, [(v.n, S.b0(v))])
                for p2, w in S.posts(p, v): S.own(p2, b, w)
        st = c.state(); a = S.raw(st); v = S.pre(st, "v", case)
        for o in c.call(st, "x_ctormove", [a.ptr, v.ptr]): moved(o, a, v)
        for dc in CASES:
            st = c.state(); a = S.pre(st, "a", dc); v = S.pre(st, "v", case)
            for o in c.call(st, "x_moveassign", [a.ptr, v.ptr]): moved(o, a, v)
            st = c.state(); a = S.pre(st, "a", dc); v = S.pre(st, "v", case); st0 = st.clone()
            for o in c.call(st, "x_assign", [a.ptr, v.ptr]):
                for p, b in S.posts(o, a): S.seq(p, b, [(v.n, S.b0(v))]); S.own(p, b, v); srcsame(c, S, p, st0, v)
        for f in ("x_assign", "x_moveassign"):
            st = c.state(); a = S.pre(st, "a", case)
            for o in c.call(st, f, [a.ptr, a.ptr]):
                for p, b in S.posts(o, a): S.seq(p, b, [(a.n, S.b0(a))]); S.own(p, b)
        st = c.state(); a = S.pre(st, "a", case)
        for o in c.call(st, "x_dtor", [a.ptr]): S.own(o)
        for f in ("size", "capacity", "issmall", "isempty", "data", "wstr"):
            st = c.state(); a = S.pre(st, "a", case); st0 = st.clone()
            for o in c.call(st, "x_" + f, [a.ptr]):
                if f in ("data", "wstr"): ptr_is(c, o, o.val, a.data, "post:data")
                else:
                    w = {"size": a.n, "capacity": a.cap, "isempty": eq(a.n, ZERO), "issmall": TRUE if case == "small" else FALSE}[f]; c.post(o, iff(o.val, w) if w.b else eq(o.val, w), "post:" + f, f)
                srcsame(c, S, o, st0, a)
        st = c.state(); a = S.pre(st, "a", case); r = c.nonneg(st, "r", 1 << 62)
        for o in c.call(st, "x_reserve", [a.ptr, r], abort_ok=lambda o: gt(r, const(1 << 46))):
            for p, b in S.posts(o, a): S.seq(p, b, [(a.n, S.b0(a))]); S.own(p, b); c.post(p, and_(ge(b.cap, r), ge(b.cap, a.cap)), "post:capacity", "room for r units")
def uappends(c, which):
    S = U16(c); big = const(1 << 58)
    for case in CASES:
        def fin(o, a, pieces, *keep):
            for p, b in S.posts(o, a): S.seq(p, b, [(a.n, S.b0(a))] + pieces); S.own(p, b, *keep)
        if which == "char":
            st = c.state(); a = S.pre(st, "a", case); ch = c.nonneg(st, "c", 128)
            for o in c.call(st, "x_appchar", [a.ptr, ch]): fin(o, a, [(ONE, lambda q, k: ch)])
            st = c.state(); a = S.pre(st, "a", case); ch = c.nonneg(st, "c", 128); n = c.nonneg(st, "n", big)
            for o in c.call(st, "x_appnchar", [a.ptr, n, ch]): fin(o, a, [(n, lambda q, k: ch)])
        if which == "rune":
            for L in (1, 2):
                st = c.state(); a = S.pre(st, "a", case); r = rune16(c, st, L); us = utf16(r, L)
                for o in c.call(st, "x_apprune", [a.ptr, r]): fin(o, a, [(ONE, lambda q, k, d=d: us[d]) for d in range(L)])
            st = c.state(); a = S.pre(st, "a", case); r = c.int(st, "r", 32)
            for o in c.call(st, "x_apprune", [a.ptr, r], abort_ok=lambda o: not_(valid(r))): c.post(o, valid(r), "post:valid", "an invalid code point is refused")
        if which == "str":
            for vc in CASES:
                st = c.state(); a = S.pre(st, "a", case); v = S.pre(st, "v", vc); st0 = st.clone()
                for o in c.call(st, "x_appstr", [a.ptr, v.ptr]): fin(o, a, [(v.n, S.b0(v))], v); srcsame(c, S, o, st0, v)
            st = c.state(); a = S.pre(st, "a", case)
            for o in c.call(st, "x_appstr", [a.ptr, a.ptr]): fin(o, a, [(a.n, S.b0(a))])
            st = c.state(); a = S.pre(st, "a", case); p_, n, f = S.ubuf(st, "s")
            for o in c.call(st, "x_appcstr", [a.ptr, p_]): fin(o, a, [(n, f)])
def urunes(c):
    """UTF-16: standard form, decoding, stepping, validity, equality"""
    S = U16(c)
    for case in CASES:
        st = c.state(); a = S.pre(st, "a", case); r = c.int(st, "r", 32)
        for o in c.call(st, "x_valid", [a.ptr, r]): c.post(o, iff(o.val, valid(r)), "post:valid", "valid code point")
        for L in (1, 2):
            for f in ("x_rune", "x_nextrune"):
                st = c.state(); r = rune16(c, st, L); us = utf16(r, L); a = S.pre(st, "a", case); i = c.nonneg(st, "i"); st.assume(le(add(i, const(L)), a.n)); st0 = st.clone()
                for d in range(L): st.assume(eq(S.b0(a)(st, add(i, const(d))), us[d]))
                for o in c.call(st, f, [a.ptr, i]): c.post(o, eq(o.val, r) if f == "x_rune" else eq(o.val, add(i, const(L))), "post:decode" if f == "x_rune" else "post:step", "decode" if f == "x_rune" else "step"); srcsame(c, S, o, st0, a)
            for f in ("x_roundtrip", "x_step"):
                st = c.state(); a = S.pre(st, "a", case); r = rune16(c, st, L)
                for o in c.call(st, f, [a.ptr, r]): c.post(o, eq(o.val, r if f == "x_roundtrip" else const(L)), "post:roundtrip", "decode after encode" if f == "x_roundtrip" else "step after encode")
        for vc in CASES:
            st = c.state(); a = S.pre(st, "a", case); v = S.pre(st, "v", vc); st0 = st.clone()
            for o in c.call(st, "x_eq", [a.ptr, v.ptr]):
                q = c.fork(o); q.assume(o.val); k = c.skolem(q, ZERO, a.n); c.post(q, and_(eq(a.n, v.n), eq(S.b0(a)(q, k), S.b0(v)(q, k))), "post:different", "only equal sequences compare equal"); srcsame(c, S, o, st0, a); srcsame(c, S, o, st0, v)
            g = fresh_name("w.s"); f = lambda i: app(g, i); st = c.state(); k = fresh("bk"); st.assume(forall((k,), and_(le(const(-32768), f(k)), le(f(k), const(32767))))); n = c.nonneg(st, "n", MAXALLOC); a = S.pre(st, "a", case, n, f); v = S.pre(st, "v", vc, n, f)
            for o in c.call(st, "x_eq", [a.ptr, v.ptr]): c.post(o, o.val, "post:equal", "equal sequences compare equal")

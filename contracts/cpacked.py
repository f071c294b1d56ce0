"""Contracts of the packed matrices: il::LowerArray2D, il::UpperArray2D (double and an arbitrary class type), il::BandArray2C, il::TriDiagonal.
The layout is not fixed by the contracts: they ask that every legal pair has its own cell inside the storage."""
from lib import *
class S3: pass
LIM = 1 << 29
def half(c, st, n):
    """ghost: n (n + 1) = 2 h (a product of consecutive integers is even)"""
    h = fresh("half"); st.assume(eq(mul(n, add(n, ONE)), scale(h, 2))); return h
def order(st, a, b):
    """arithmetic facts about two integers: a < b => (b - a - 1) a, .. are non-negative products"""
    for x, y in ((a, b), (b, a)): st.assume(implies(and_(ge(x, ZERO), lt(x, y)), ge(mul(sub(sub(y, x), ONE), x), ZERO)))
class Packed:
    def __init__(s, c, e, kind):
        s.c, s.e, s.kind = c, e, kind; s.sfx = kind + e.sfx; s.sizeof, s.o_data, s.o_size, s.o_cap = c.tu.K(s.sfx)
    def pre(s, st, name, case):
        c, e = s.c, s.e; a = S3(); a.case = case; a.obj = c.ex.alloc(st, name, "obj", const(s.sizeof), 8); a.ptr = Ptr(a.obj, ZERO)
        if case == "null": a.n = a.cap = a.h = a.hc = ZERO; a.data = NULL; a.base = None; cells = {(x, 8): NULL for x in (s.o_data, s.o_size, s.o_cap)}
        else:
            a.n, a.cap, slack = c.nonneg(st, name + ".n"), c.nonneg(st, name + ".cap"), c.nonneg(st, name + ".slack"); st.assume(le(a.n, a.cap), lt(a.cap, const(LIM)), ge(a.cap, ONE))
            a.h, a.hc = half(c, st, a.n), half(c, st, a.cap); st.assume(le(ZERO, a.h), le(a.h, a.hc))       # consequences of n <= cap
            nb = add(scale(a.hc, e.es), slack); st.assume(lt(nb, const(MAXALLOC)))
            a.base = heaparray(c, st, e, name + ".data", nb, ZERO, a.h); c.ex.addrfacts(st, a.base); st.flags[("alloc", a.base.id)] = "new" if e.opaque else "new[]"; a.data = Ptr(a.base, ZERO, e.es); p = lambda n: Ptr(a.base, scale(n, e.es), e.es)
            cells = {(s.o_data, 8): a.data, (s.o_size, 8): p(a.n), (s.o_cap, 8): p(a.cap)}
        c.setcells(st, a.obj, cells); a.content0 = None if a.base is None else st.mem[a.base.id].regions[0].content; return a
    def raw(s, st, name="a"):
        a = S3(); a.obj = s.c.ex.alloc(st, name, "obj", const(s.sizeof), 8); a.ptr = Ptr(a.obj, ZERO); return a
    def post(s, o, a):
        c, e = s.c, s.e; b = S3(); b.obj = a.obj; b.ptr = a.ptr
        try: d, z_, p = (c.ex.load_nc(o, Ptr(a.obj, const(x)), llir.PTR, 8) for x in (s.o_data, s.o_size, s.o_cap))
        except DeadPath: return None
        b.data, b.base = d, d.blk
        if z_.blk is not d.blk or p.blk is not d.blk: c.fail(o, "inv:pointers", "size/capacity pointers leave the data block"); return None
        n, m = sub(z_.off, d.off), sub(p.off, d.off); b.n, b.cap = div(n, e.es), div(m, e.es)
        if d.blk is None: c.post(o, and_(eq(d.off, ZERO), eq(n, ZERO), eq(m, ZERO)), "inv:null-empty", "no storage means empty"); b.h = ZERO; return b
        if not o.mem[d.blk.id].alive: c.fail(o, "own:dangling", "data points to released storage"); return None
        c.post(o, and_(eq(mod(n, e.es), ZERO), eq(mod(m, e.es), ZERO), le(ZERO, b.n), le(b.n, b.cap), eq(d.off, ZERO)), "inv:size<=capacity", "0 <= size <= capacity")
        b.h, hc = half(c, o, b.n), half(c, o, b.cap)
        c.post(o, le(scale(hc, e.es), d.blk.size), "inv:storage", "capacity (capacity + 1) / 2 elements fit in the storage")
        if e.opaque:
            q = o.clone(); k = fresh("k"); q.assume(le(ZERO, k), lt(scale(k, e.es), d.blk.size)); l = alive(c, q, e, Ptr(d.blk, ZERO), k)
            c.post(q, iff(l, lt(k, b.h)), "life:live-iff-below-size", "exactly the n (n + 1) / 2 elements are alive")
        return b
    def legal(s, a, i, j):
        return and_(le(ZERO, j), le(j, i), lt(i, a.n)) if s.kind == "L" else and_(le(ZERO, i), le(i, j), lt(j, a.n))
    def pair(s, st, n):
        i, j = s.c.int(st, "i"), s.c.int(st, "j"); return i, j
def facts(c, st, n, *js):
    half(c, st, n)
    for j in js:
        half(c, st, j)
        st.assume(ge(mul(sub(n, j), sub(sub(n, j), ONE)), ZERO))
        for x in (j,): st.assume(implies(and_(ge(x, ZERO), lt(x, n)), and_(ge(mul(x, sub(sub(n, ONE), x)), ZERO), ge(mul(x, x), ZERO))))
def element(P, c, st, a, i, j, f="at"):
    """address of (i, j) as the code computes it, on the normal outcomes"""
    return c.call(st, P.sfx + "_" + f, [a.ptr, i, j], abort_ok=lambda o: not_(P.legal(a, i, j)), expect_return=a.case != "null")
KINDS = ("L", "U")
def accesses(c, e, kind):
    P = Packed(c, e, kind)
    for case in ("null", "heap"):
        for f in ("at", "At"):
            st = c.state(); a = P.pre(st, "a", case); i, j = c.int(st, "i"), c.int(st, "j"); facts(c, st, a.n, i, j); order(st, i, j); st0 = st.clone(); ok = P.legal(a, i, j)
            for o in element(P, c, st, a, i, j, f):
                c.post(o, ok, "bounds:abort-out-of-range", "returned for an illegal pair"); o.assume(ok); c.unchanged(o, st0, a.obj)
                if a.base is None: continue
                c.unchanged(o, st0, a.base)
                if not isinstance(o.val, Ptr) or o.val.blk is not a.base: c.fail(o, "bounds:element-inside", "%r is not inside the storage" % (o.val,)); continue
                c.post(o, and_(le(ZERO, o.val.off), lt(o.val.off, scale(a.h, e.es)), eq(mod(o.val.off, e.es), ZERO)), "bounds:element-inside", "the cell is one of the n (n + 1) / 2 elements")
                p1 = o.val; i2, j2 = c.int(o, "i2"), c.int(o, "j2"); o.assume(P.legal(a, i2, j2), or_(ne(i2, i), ne(j2, j))); facts(c, o, a.n, i2, j2); order(o, i2, j2); order(o, j, j2); order(o, i, i2)
                for x, y in ((j, j2), (j2, j)):
                    d = sub(y, x); o.assume(implies(and_(ge(d, ONE), ge(x, ZERO), lt(y, a.n)), ge(mul(sub(d, ONE), sub(scale(sub(a.n, x), 2), d)), ZERO)))
                    o.assume(implies(and_(ge(d, ONE), ge(x, ZERO)), ge(mul(sub(d, ONE), add(x, y)), ZERO)))
                for o2 in c.call(o, P.sfx + "_" + f, [a.ptr, i2, j2]):
                    c.post(o2, ne(o2.val.off, p1.off) if isinstance(o2.val, Ptr) and o2.val.blk is p1.blk else FALSE, "post:distinct-cells", "two legal pairs share a cell")
def same(P, c, o, a, v, st0, src=True):
    b = P.post(o, a); e = P.e
    if b is None: return None
    c.post(o, eq(b.n, v.n), "post:size", "size of the source"); o.assume(eq(b.n, v.n)); o.assume(eq(b.h, v.h))
    if v.base is not None:
        q = o.clone(); k = c.skolem(q, ZERO, v.h)
        if c.ex.p.check(q.pc, [TRUE], 2000) != "unsat":
            if b.base is None: c.fail(o, "post:elements", "elements expected")
            else: c.post(q, eq(read(c, q, e, b.data, k), c.ex.rdc(st0, v.content0, e.field, k)), "post:elements", "stored element %s" % show(k))
        if b.base is not None and src:
            q = o.clone(); i, j = c.int(q, "i"), c.int(q, "j"); q.assume(P.legal(v, i, j)); facts(c, q, v.n, i, j); order(q, i, j); b.case = "heap"
            for q1 in c.call(q, P.sfx + "_at", [v.ptr, i, j], expect_return=False):
                pv = q1.val
                for q2 in c.call(q1, P.sfx + "_at", [b.ptr, i, j], expect_return=False):
                    c.post(q2, eq(q2.val.off, pv.off), "post:same-cell", "(i, j) is the same cell in the copy")
    return b
def copies(c, e, kind):
    P = Packed(c, e, kind); big = lambda n: ge(scale(n, e.es), const(MAXALLOC))
    for sc in ("null", "heap"):
        st = c.state(); v = P.pre(st, "v", sc); a = P.raw(st); st0 = st.clone()
        for o in c.call(st, P.sfx + "_ctorcopy", [a.ptr, v.ptr], abort_ok=lambda o: big(v.h)):
            b = same(P, c, o, a, v, st0)
            if b is None: continue
            c.unchanged(o, st0, v.obj); c.noleak(o, [b.data, v.data])
            if v.base is not None: c.unchanged(o, st0, v.base)
        st = c.state(); v = P.pre(st, "v", sc); a = P.raw(st); st0 = st.clone()
        for o in c.call(st, P.sfx + "_ctormove", [a.ptr, v.ptr]): movedto(P, c, o, a, v, st0)
        for dc in ("null", "heap"):
            st = c.state(); a = P.pre(st, "a", dc); v = P.pre(st, "v", sc); order(st, a.n, v.n); st0 = st.clone()
            for o in c.call(st, P.sfx + "_assign", [a.ptr, v.ptr], abort_ok=lambda o: big(v.h)):
                b = same(P, c, o, a, v, st0)
                if b is None: continue
                c.unchanged(o, st0, v.obj); c.noleak(o, [b.data, v.data])
                if v.base is not None: c.unchanged(o, st0, v.base)
            st = c.state(); a = P.pre(st, "a", dc); v = P.pre(st, "v", sc); st0 = st.clone()
            for o in c.call(st, P.sfx + "_moveassign", [a.ptr, v.ptr]): movedto(P, c, o, a, v, st0)
        for f in ("assign", "moveassign"):
            st = c.state(); a = P.pre(st, "a", sc); st0 = st.clone()
            for o in c.call(st, P.sfx + "_" + f, [a.ptr, a.ptr]):
                P.post(o, a); c.unchanged(o, st0, a.obj); c.noleak(o, [a.data])
                if a.base is not None: c.unchanged(o, st0, a.base)
        st = c.state(); a = P.pre(st, "a", sc)
        for o in c.call(st, P.sfx + "_dtor", [a.ptr]): c.noleak(o, [])
def movedto(P, c, o, a, v, st0):
    b = same(P, c, o, a, v, st0, src=False); w = P.post(o, v)
    if b is None or w is None: return
    c.post(o, eq(w.n, ZERO), "post:source-empty", "the moved-from matrix is empty"); c.noleak(o, [b.data, w.data])
def ctors(c, e, kind):
    P = Packed(c, e, kind)
    for f in ("ctor0", "ctorn"):
        st = c.state(); a = P.raw(st); n = ZERO; args = [a.ptr]
        if f == "ctorn": n = c.nonneg(st, "n"); st.assume(lt(n, const(LIM))); args.append(n)
        h = half(c, st, n); st.assume(ge(h, ZERO), implies(gt(n, ZERO), ge(h, ONE)))
        for o in c.call(st, P.sfx + "_" + f, args, abort_ok=lambda o: ge(scale(h, e.es), const(MAXALLOC))):
            b = P.post(o, a)
            if b is None: continue
            c.post(o, eq(b.n, n), "post:size", "size n"); c.noleak(o, [b.data])
            if e.opaque and b.base is not None:
                q = o.clone(); k = c.skolem(q, ZERO, h); c.post(q, eq(read(c, q, e, b.data, k), DEFVAL), "post:elements", "default values")
    for case in ("null", "heap"):
        for f in ("size", "capacity", "Data"):
            st = c.state(); a = P.pre(st, "a", case); st0 = st.clone()
            for o in c.call(st, P.sfx + "_" + f, [a.ptr]):
                if f == "Data": ptr_is(c, o, o.val, a.data, "post:Data")
                else: c.post(o, eq(o.val, a.n if f == "size" else a.cap), "post:" + f, f)
                c.unchanged(o, st0, a.obj)

# ---------- banded matrix over an il::Array2C, tridiagonal matrix over an il::Array
from carray2d import Grid
from carray import ArrayClass
def shiftoff(G, off, sizeof, names):
    for x in names: setattr(G, x, getattr(G, x) + off)
    G.sizeof = sizeof; return G
class BandClass:
    def __init__(s, c):
        s.c = c; k = c.tu.K("Band"); s.o_n0, s.o_n1, s.o_l, s.o_r, s.o_c = k[1:6]; s.G = shiftoff(Grid(c, DOUBLE, "C"), k[6], k[0], ["o_data", "o_size", "o_cap", "o_al", "o_r", "o_mod", "o_shift"])
    def pre(s, st, name, case):
        c = s.c; b = s.G.pre(st, name, case); b.n1, b.l, b.r = c.nonneg(st, name + ".n1", 1 << 40), c.nonneg(st, name + ".left", 1 << 40), c.nonneg(st, name + ".right", 1 << 40)
        b.n0 = c.nonneg(st, name + ".n0", 1 << 40); b.cr = c.nonneg(st, name + ".capright")
        if b.base is None: st.assume(eq(b.n0, ZERO))
        else: st.assume(eq(b.size[0], b.n0), le(add(b.l, b.r, ONE), b.size[1]))
        c.setcells(st, b.obj, {(s.o_n0, 8): b.n0, (s.o_n1, 8): b.n1, (s.o_l, 8): b.l, (s.o_r, 8): b.r, (s.o_c, 8): b.cr}); return b
    def post(s, o, b, n0, n1, l, r):
        g = s.G.post(o, b)
        if g is None: return None
        v = [s.c.ex.load_nc(o, Ptr(b.obj, const(x)), llir.IntT(64), 8) for x in (s.o_n0, s.o_n1, s.o_l, s.o_r)]; want = (n0, n1, l, r)
        s.c.post(o, and_(*[eq(x, y) for x, y in zip(v, want)]), "post:size", "extents and widths")
        if g.base is None: s.c.post(o, eq(n0, ZERO), "inv:band", "no storage only without rows")
        else: s.c.post(o, implies(gt(n0, ZERO), and_(eq(g.size[0], n0), ge(g.size[1], add(l, r, ONE)))), "inv:band", "a row holds the whole band")
        g.n0, g.n1, g.l, g.r = want; g.obj, g.ptr = b.obj, b.ptr; return g
    def legal(s, b, i, k): return and_(le(ZERO, i), lt(i, b.n0), le(ZERO, add(i, k)), lt(add(i, k), b.n1), le(k, b.r), ge(k, sub(ZERO, b.l)))
def small(c, st, k): st.assume(lt(k, const(1 << 61)), gt(k, const(-(1 << 61))))
def fill_contract(c, G, off):
    """callers of Array2C(n0, n1, x) see its contract (verified on its body by carray2d.ctors): n0 x n1 elements, all equal to x; returns the ghost record"""
    rec = {}
    def h(ex, st, a, ins):
        n0, n1 = a[1], a[2]; x = ex.load_nc(st, a[3], llir.DOUBLE, 8); obj = a[0].blk; ex.oblige(st, eq(a[0].off, const(off)), "pre:Array2C", "constructs the element matrix")
        ex.oblige(st, and_(ge(n0, ZERO), ge(n1, ZERO)), "pre:Array2C", "non-negative extents"); st.assume(ge(n0, ZERO), ge(n1, ZERO)); out = []
        none = st.clone(); none.assume(eq(n0, ZERO), eq(n1, ZERO)); big = st.clone(); big.assume(ge(scale(mul(n0, n1), 8), const(MAXALLOC))); big.kind = "abort"; out.append((big, None))
        cells = lambda d, p: {(G.o_data, 8): d, (G.o_size, 8): p[0], (G.o_size + 8, 8): p[1], (G.o_cap, 8): p[2], (G.o_cap + 8, 8): p[3], (G.o_al, 2): ZERO, (G.o_r, 2): ZERO, (G.o_mod, 2): ZERO, (G.o_shift, 2): ZERO}
        c.setcells(none, obj, cells(NULL, [NULL] * 4)); out.append((none, None))
        st.assume(or_(gt(n0, ZERO), gt(n1, ZERO))); c0, c1 = c.nonneg(st, "cap0"), c.nonneg(st, "cap1"); nb = c.nonneg(st, "nb")
        st.assume(le(n0, c0), le(n1, c1), ge(c0, ONE), ge(c1, ONE), le(scale(mul(c0, c1), 8), nb), lt(nb, const(MAXALLOC)), implies(gt(n1, ZERO), eq(c1, n1)), implies(gt(n0, ZERO), eq(c0, n0)))
        b = ex.alloc(st, "grid", "heap", nb, 16); st.owned.add(b.id); nm = fresh_name("grid"); r = Region(0, None, 8, Base(nm)); r.fields[DOUBLE.field] = True; st.mem[b.id].regions.append(r); c.ex.addrfacts(st, b)
        c.setcells(st, obj, cells(Ptr(b, ZERO, 8), [Ptr(b, scale(v, 8), 8) for v in (n0, n1, c0, c1)])); rec["grid"] = (r.content, x, n0, n1, c1); out.append((st, None))
        return [z for z in out if ex.p.check(z[0].pc, [TRUE], 2000) != "unsat"]
    c.ex.handlers["il::Array2C<double>::Array2C(long, long, double const&)"] = h; return rec
def band(c, part):
    B = BandClass(c); G = B.G; e = G.e
    if part == "ctors":
        for f in ("ctor2", "ctor4"):
            st = c.state(); a = G.raw(st); lim = 1 << 40; n0 = c.nonneg(st, "n0", lim); l = c.nonneg(st, "left", lim); args = [a.ptr, n0, l]; n1, r = n0, l
            if f == "ctor4": n1, r = c.nonneg(st, "n1", lim), c.nonneg(st, "right", lim); args = [a.ptr, n0, n1, l, r]
            w = add(scale(l, 2), r, ONE); rec = fill_contract(c, G, c.tu.K("Band")[6])
            for o in c.call(st, "Bd_" + f, args, abort_ok=lambda o: ge(scale(mul(n0, w), 8), const(MAXALLOC))):
                g = B.post(o, a, n0, n1, l, r)
                if g is None: continue
                c.noleak(o, [g.data])
                if g.base is None: continue
                q = o.clone(); i, k = c.int(q, "i"), c.int(q, "k"); q.assume(B.legal(g, i, k)); B0, x0, m0, m1, c1 = rec["grid"]; j = add(l, k)
                q.assume(implies(and_(le(ZERO, i), lt(i, m0), le(ZERO, j), lt(j, m1)), eq(c.ex.rdc(q, B0, DOUBLE.field, add(mul(i, c1), j)), x0)))
                for q1 in c.call(q, "Bd_at", [a.ptr, i, k], expect_return=False):
                    x = c.ex.load_nc(q1, q1.val, llir.DOUBLE, 8); c.post(q1, eq(x, ZERO), "post:elements", "a new band matrix is zero")
        return
    for case in ("null", "heap"):
        if part == "accesses":
            for f in ("at", "At"):
                st = c.state(); a = B.pre(st, "a", case); i, k = c.int(st, "i"), c.int(st, "k"); small(c, st, k); st0 = st.clone(); ok = B.legal(a, i, k)
                for o in c.call(st, "Bd_" + f, [a.ptr, i, k], abort_ok=lambda o: not_(ok), expect_return=case == "heap"):
                    c.post(o, ok, "bounds:abort-out-of-range", "returned for an illegal pair"); o.assume(ok); c.unchanged(o, st0, a.obj)
                    if a.base is None: continue
                    c.unchanged(o, st0, a.base); p = o.val
                    if not isinstance(p, Ptr) or p.blk is not a.base: c.fail(o, "bounds:element-inside", "%r is not inside the storage" % (p,)); continue
                    c.post(o, and_(le(ZERO, p.off), le(add(p.off, const(8)), scale(mul(a.cap[0], a.cap[1]), 8))), "bounds:element-inside", "the cell lies inside the storage")
                    i2, k2 = c.int(o, "i2"), c.int(o, "k2"); o.assume(B.legal(a, i2, k2), or_(ne(i2, i), ne(k2, k)))
                    for x, y in ((i, i2), (i2, i)): o.assume(implies(lt(x, y), ge(mul(sub(sub(y, x), ONE), a.cap[1]), ZERO)))
                    for o2 in c.call(o, "Bd_" + f, [a.ptr, i2, k2]): c.post(o2, ne(o2.val.off, p.off) if isinstance(o2.val, Ptr) and o2.val.blk is p.blk else FALSE, "post:distinct-cells", "two legal pairs share a cell")
            for f, w in (("left", "l"), ("right", "r"), ("capright", "cr"), ("size", None), ("Data", None)):
                st = c.state(); a = B.pre(st, "a", case); st0 = st.clone(); d = c.int(st, "d")
                if f == "size": st.assume(le(ZERO, d), le(d, ONE))
                for o in c.call(st, "Bd_" + f, [a.ptr] + ([d] if f == "size" else [])):
                    if f == "Data": ptr_is(c, o, o.val, a.data, "post:Data")
                    else: c.post(o, eq(o.val, getattr(a, w) if w else ite(eq(d, ZERO), a.n0, a.n1)), "post:" + f, f)
                    c.unchanged(o, st0, a.obj)
            st = c.state(); a = B.pre(st, "a", case)
            for o in c.call(st, "Bd_dtor", [a.ptr]): c.noleak(o, [])
        else:
            for dc in ("raw", "null", "heap"):
                st = c.state(); v = B.pre(st, "v", case); a = G.raw(st) if dc == "raw" else B.pre(st, "a", dc); st0 = st.clone()
                for o in c.call(st, "Bd_ctorcopy" if dc == "raw" else "Bd_assign", [a.ptr, v.ptr], abort_ok=lambda o: FALSE if v.base is None else ge(scale(mul(v.size[0], v.size[1]), 8), const(MAXALLOC))):
                    g = B.post(o, a, v.n0, v.n1, v.l, v.r)
                    if g is None: continue
                    c.noleak(o, [g.data, v.data]); c.unchanged(o, st0, v.obj)
                    if v.base is None: continue
                    c.unchanged(o, st0, v.base); q = o.clone(); i, k = c.int(q, "i"), c.int(q, "k"); q.assume(B.legal(v, i, k))
                    for q1 in c.call(q, "Bd_at", [v.ptr, i, k], expect_return=False):
                        x = c.ex.load_nc(q1, q1.val, llir.DOUBLE, 8)
                        for q2 in c.call(q1, "Bd_at", [a.ptr, i, k], expect_return=False): c.post(q2, eq(c.ex.load_nc(q2, q2.val, llir.DOUBLE, 8), x), "post:elements", "(i, k) has the value of the source")
class TriClass:
    def __init__(s, c):
        s.c = c; k = c.tu.K("Tri"); s.o_n = k[1]; s.A = shiftoff(ArrayClass(c, DOUBLE), k[2], k[0], ["o_data", "o_size", "o_cap", "o_al", "o_r", "o_mod", "o_shift"])
    def pre(s, st, name, case):
        a = s.A.pre(st, name, case); a.n = s.c.nonneg(st, name + ".n", 1 << 60); st.assume(eq(a.size, scale(a.n, 3))); s.c.setcells(st, a.obj, {(s.o_n, 8): a.n}); return a
    def post(s, o, a, n):
        b = s.A.post(o, a)
        if b is None: return None
        b.n = s.c.ex.load_nc(o, Ptr(a.obj, const(s.o_n)), llir.IntT(64), 8); s.c.post(o, eq(b.n, n), "post:size", "number of rows"); s.c.post(o, eq(b.size, scale(n, 3)), "inv:tri", "three cells per row"); return b
def tri(c):
    T = TriClass(c); A = T.A
    st = c.state(); a = A.raw(st); n = c.nonneg(st, "n", 1 << 59)
    for o in c.call(st, "Td_ctorn", [a.ptr, n], abort_ok=lambda o: ge(scale(n, 24), const(MAXALLOC))):
        b = T.post(o, a, n)
        if b is not None: c.noleak(o, [b.data])
    for case in ("null", "heap"):
        legal = lambda i, k: and_(le(ZERO, i), lt(i, a.n), le(const(-1), k), le(k, ONE))
        for f in ("at", "At"):
            st = c.state(); a = T.pre(st, "a", case); i, k = c.int(st, "i"), c.int(st, "k"); st0 = st.clone()
            for o in c.call(st, "Td_" + f, [a.ptr, i, k], abort_ok=lambda o: not_(legal(i, k)), expect_return=case == "heap"):
                c.post(o, legal(i, k), "bounds:abort-out-of-range", "returned for an illegal pair"); o.assume(legal(i, k)); c.unchanged(o, st0, a.obj)
                if a.base is None: continue
                p = o.val; c.unchanged(o, st0, a.base)
                if not isinstance(p, Ptr) or p.blk is not a.base: c.fail(o, "bounds:element-inside", "%r is not inside the storage" % (p,)); continue
                c.post(o, and_(le(ZERO, p.off), lt(p.off, scale(a.size, 8))), "bounds:element-inside", "the cell lies inside the storage")
                i2, k2 = c.int(o, "i2"), c.int(o, "k2"); o.assume(legal(i2, k2), or_(ne(i2, i), ne(k2, k)))
                o.assume(or_(eq(k, const(-1)), eq(k, ZERO), eq(k, ONE)), or_(eq(k2, const(-1)), eq(k2, ZERO), eq(k2, ONE)))
                for v in (-1, 0, 1):
                    for w in (-1, 0, 1):
                        q = o.clone(); q.assume(eq(k, const(v)), eq(k2, const(w)), eq(mul(k, a.n), scale(a.n, v)), eq(mul(k2, a.n), scale(a.n, w)))
                        if v == w: q.assume(ne(i, i2))
                        for o2 in c.call(q, "Td_" + f, [a.ptr, i2, k2]): c.post(o2, ne(o2.val.off, p.off) if isinstance(o2.val, Ptr) and o2.val.blk is p.blk else FALSE, "post:distinct-cells", "two legal pairs share a cell")
        for f, i, k in (("lower", 1, -1), ("diag", 0, 0), ("upper", 0, 1)):
            st = c.state(); a = T.pre(st, "a", case)
            if case == "null": continue
            st.assume(gt(a.n, const(i)))
            for o in c.call(st, "Td_" + f, [a.ptr]):
                p = o.val
                for o2 in c.call(o, "Td_At", [a.ptr, const(i), const(k)]): ptr_is(c, o2, p, o2.val, "post:diagonal")
        st = c.state(); a = T.pre(st, "a", case)
        for o in c.call(st, "Td_size", [a.ptr]): c.post(o, eq(o.val, a.n), "post:size", "size")
        st = c.state(); a = T.pre(st, "a", case)
        for o in c.call(st, "Td_dtor", [a.ptr]): c.noleak(o, [])
        for dc in ("raw", "null", "heap"):
            st = c.state(); v = T.pre(st, "v", case); a = A.raw(st) if dc == "raw" else T.pre(st, "a", dc); st0 = st.clone()
            for o in c.call(st, "Td_ctorcopy" if dc == "raw" else "Td_assign", [a.ptr, v.ptr], abort_ok=lambda o: ge(scale(add(v.size, const(40000)), 8), const(MAXALLOC))):
                b = T.post(o, a, v.n)
                if b is None: continue
                c.noleak(o, [b.data, v.data]); c.unchanged(o, st0, v.obj)
                if v.base is not None: A.check_seq(o, b, v.size, lambda q, k: A.val0(v, q, k)); c.unchanged(o, st0, v.base)

"""Contracts of il::Array3D<T>, il::Array3C<T> (construction, copy, move, observers, element access), for a trivial element
type and for an arbitrary class type."""
from lib import *
from carray2d import by_contract, S2, keepalign, retself, frame, defval
import carray2d, contextlib

D3 = (0, 1, 2)
def allof(xs): return and_(*xs)
def prod(xs): return mul(mul(xs[0], xs[1]), xs[2])
def gridlive(G, cap, n, shift=ZERO):
    """live cells: k = shift + (o * cap[1] + m) * cap[contiguous] + i with i, m, o inside the sizes"""
    def f(ex, st, k):
        st2 = st.clone(); st2.assume(ge(cap[G.ci], ONE), ge(cap[1], ONE))
        q, r = ex.split(st2, sub(k, shift), cap[G.ci]); q2, r2 = ex.split(st2, q, cap[1])
        return and_(allof([ge(x, ONE) for x in n]), le(ZERO, q2), lt(q2, n[G.oi]), le(ZERO, r2), lt(r2, n[1]), lt(r, n[G.ci]), le(ZERO, r))
    f.stateful = True
    return f

class Grid(carray2d.Grid):
    """il::Array3D (the first index is contiguous) or il::Array3C (the last one)"""
    def __init__(s, c, e, major):
        by_contract(c); s.c, s.e, s.major = c, e, major; s.sfx = major + e.sfx; s.ci = 0 if major == "D" else 2; s.oi = 2 - s.ci
        s.sizeof, s.o_data, s.o_size, s.o_cap, s.o_al, s.o_r, s.o_mod, s.o_shift = c.tu.K(s.sfx)
    def idx(s, a, x): return add(mul(add(mul(x[s.oi], a.cap[1]), x[1]), a.cap[s.ci]), x[s.ci])
    def pre(s, st, name, case):
        c, e = s.c, s.e; a = S2(); a.case = case; a.obj = c.ex.alloc(st, name, "obj", const(s.sizeof), 8); a.ptr = Ptr(a.obj, ZERO); a.cls = s
        a.al = a.r = a.mod = a.shift = ZERO
        if case in ("null", "nullal"):
            a.size = a.cap = (ZERO,) * 3; a.data = NULL; a.base = None
            if case == "nullal": a.m, _, a.l, a.mod, a.r, a.al = s.alfields(st, name)
            p = lambda n: Ptr(None, scale(n, e.es))
        else:
            n = [c.nonneg(st, name + ".n%d" % d) for d in D3]; cap = [c.nonneg(st, name + ".cap%d" % d) for d in D3]; slack = c.nonneg(st, name + ".slack")
            st.assume(*[le(n[d], cap[d]) for d in D3])
            if case == "aligned":
                m, r, l, a.mod, a.r, a.al = s.alfields(st, name)
                a.shift = c.nonneg(st, name + ".shift"); st.assume(lt(a.shift, m))
                q = c.nonneg(st, name + ".lanes"); a.colq, a.l = q, l
                st.assume(or_(eq(cap[s.ci], mul(q, l)), le(cap[1], ONE), le(cap[s.oi], ONE)))
            nb = add(scale(add(a.shift, prod(cap)), e.es), slack); st.assume(lt(nb, const(MAXALLOC)), *[lt(x, const(1 << 46)) for x in cap])
            st.assume(or_(allof([eq(x, ZERO) for x in cap]), allof([ge(x, ONE) for x in cap])), le(mul(cap[s.ci], cap[1]), const(1 << 46)), lt(mul(cap[1], cap[s.oi]), const(1 << 46)))
            a.size, a.cap = tuple(n), tuple(cap); c.ex.gridstrides = list(getattr(c.ex, "gridstrides", ())) + [[cap[s.ci], cap[1]]]
            a.base = c.ex.alloc(st, name + ".data", "heap", nb, 16); nm = fresh_name(name)
            consts = {LIVE: gridlive(s, cap, n, a.shift)} if e.opaque else {}
            rg = Region(0, None, e.es, Base(nm, consts)); rg.fields[e.field] = True
            if e.opaque: rg.fields[LIVE] = True
            st.mem[a.base.id].regions.append(rg); st.owned.add(a.base.id)
            c.ex.addrfacts(st, a.base)
            a.data = Ptr(a.base, scale(a.shift, e.es), e.es)
            if case == "aligned": st.assume(eq(modt(add(a.base.addr, scale(a.shift, e.es)), a.mod), a.r))
            p = lambda n: Ptr(a.base, add(a.data.off, scale(n, e.es)), e.es)
        cells = {(s.o_data, 8): a.data, (s.o_al, 2): a.al, (s.o_r, 2): a.r, (s.o_mod, 2): a.mod, (s.o_shift, 2): a.shift}
        for d in D3: cells[(s.o_size + 8 * d, 8)] = p(a.size[d]); cells[(s.o_cap + 8 * d, 8)] = p(a.cap[d])
        c.setcells(st, a.obj, cells)
        a.content0 = None if a.base is None else st.mem[a.base.id].regions[0].content
        return a
    def val0(s, a, st, x): return s.c.ex.rdc(st, a.content0, s.e.field, add(a.shift, s.idx(a, x)))
    def post(s, o, a):
        c, e = s.c, s.e; b = S2(); b.cls = s; b.obj = a.obj; b.ptr = a.ptr
        try:
            d = c.ex.load_nc(o, Ptr(a.obj, const(s.o_data)), llir.PTR, 8)
            ps = [c.ex.load_nc(o, Ptr(a.obj, const(f + 8 * k)), llir.PTR, 8) for f in (s.o_size, s.o_cap) for k in D3]
        except DeadPath: return None
        b.al, b.r, b.mod, b.shift = (c.ex.load_nc(o, Ptr(a.obj, const(x)), llir.IntT(16), 2) for x in (s.o_al, s.o_r, s.o_mod, s.o_shift))
        b.data = d
        if any(p.blk is not d.blk for p in ps): c.fail(o, "inv:pointers", "size/capacity pointers leave the data block"); return None
        offs = [sub(p.off, d.off) for p in ps]
        b.base = d.blk
        b.size = tuple(div(x, e.es) for x in offs[:3]); b.cap = tuple(div(x, e.es) for x in offs[3:])
        if d.blk is None:
            c.post(o, and_(eq(d.off, ZERO), *[eq(x, ZERO) for x in offs]), "inv:null-empty", "null data means empty"); c.post(o, eq(b.shift, ZERO), "inv:null-empty", "no shift")
        else:
            if not o.mem[d.blk.id].alive: c.fail(o, "own:dangling", "data points to released storage"); return None
            c.post(o, and_(*[eq(mod(x, e.es), ZERO) for x in offs]), "inv:pointers", "sizes are whole elements")
            c.post(o, and_(*[and_(le(ZERO, b.size[x]), le(b.size[x], b.cap[x])) for x in D3]), "inv:size<=capacity", "0 <= size <= capacity")
            c.post(o, and_(eq(d.off, scale(b.shift, e.es)), ge(b.shift, ZERO)), "inv:base", "data - shift is the allocated pointer")
            c.post(o, or_(allof([eq(x, ZERO) for x in b.cap]), allof([ge(x, ONE) for x in b.cap])), "inv:capacity", "no capacity is zero unless all are")
            c.post(o, le(add(d.off, scale(prod(b.cap), e.es)), d.blk.size), "inv:storage", "the capacity lies inside the storage")
            if e.opaque:
                # an arbitrary cell: when there is capacity, cell number k is shift + (x * cap[1] + y) * cap[contiguous] + z (Euclidean division)
                q1 = o.clone(); x, y, z_ = fresh("k"), fresh("y"), fresh("z"); S, M = b.cap[s.ci], b.cap[1]
                q1.assume(ge(S, ONE), ge(M, ONE), le(ZERO, y), lt(y, M), le(ZERO, z_), lt(z_, S)); k = add(b.shift, add(mul(add(mul(x, M), y), S), z_))
                q1.assume(le(ZERO, k), lt(scale(k, e.es), d.blk.size))
                with s.strided(b):
                    l = alive(c, q1, e, Ptr(d.blk, ZERO), k)
                    g = and_(*[and_(le(ZERO, u), lt(u, b.size[w])) for u, w in ((x, s.oi), (y, 1), (z_, s.ci))])
                c.post(q1, iff(l, g), "life:live-iff-in-grid", "exactly the elements of the grid are alive")
                q2 = o.clone(); k = fresh("k"); q2.assume(le(ZERO, k), lt(scale(k, e.es), d.blk.size), le(S, ZERO))
                if c.ex.p.check(q2.pc, [TRUE], 2000) != "unsat": c.post(q2, not_(alive(c, q2, e, Ptr(d.blk, ZERO), k)), "life:live-iff-in-grid", "nothing is alive without capacity")
        if e.opaque: c.post(o, and_(eq(b.mod, ZERO), eq(b.al, ZERO), eq(b.r, ZERO), eq(b.shift, ZERO)), "align:fields", "no alignment for class types"); return b
        q = o.clone()
        if c.ex.known(q, eq(b.mod, ZERO)): c.post(q, and_(eq(b.al, ZERO), eq(b.r, ZERO), eq(b.shift, ZERO)), "align:fields", "unaligned arrays have no shift")
        else:
            c.post(q, and_(gt(b.mod, ZERO), ge(b.r, ZERO), lt(b.r, b.mod), gt(b.al, ZERO), le(b.mod, const(32767))), "align:fields", "alignment fields are legal")
            if d.blk is not None:
                c.ex.addrfacts(q, d.blk)
                c.post(q, eq(modt(add(d.blk.addr, d.off), b.mod), b.r), "align:residue", "first element has the requested residue")
        return b
    @contextlib.contextmanager
    def strided(s, b):
        """reads split cell numbers by the strides of the grid b"""
        s.c.ex.strides = (b.cap[s.ci], b.cap[1])
        try: yield
        finally: s.c.ex.strides = ()
    def value(s, o, b, x):
        with s.strided(b): return read(s.c, o, s.e, b.data, s.idx(b, x))
    def check_cells(s, o, b, n, spec, what="post:elements"):
        q = o.clone(); x = tuple(fresh(z) for z in "ijk")
        for d in D3: q.assume(le(ZERO, x[d]), lt(x[d], n[d]))
        if s.c.ex.p.check(q.pc, [TRUE], 2000) == "unsat": return
        if b.data.blk is None: s.c.fail(o, what, "elements expected in a null array"); return
        s.c.post(q, eq(s.value(q, b, x), spec(q, x)), what, "element (i, j, k)")
    def sizes(s, b, n): return allof([eq(b.size[d], n[d]) for d in D3])

def toobig(n, es):
    """the request needs 2^46 bytes or more: the allocation may abort"""
    n = [ite(ge(x, ONE), x, ONE) for x in n]
    return or_(ge(prod(n), const(1 << 40)), *[ge(x, const(1 << 40)) for x in n] + [ge(mul(n[0], n[1]), const(1 << 40)), ge(mul(n[1], n[2]), const(1 << 40))])

def ctors(c, e, m):
    G = Grid(c, e, m)
    st = c.state(); a = G.raw(st)
    for o in c.call(st, G.sfx + "_ctor0", [a.ptr]):
        b = G.post(o, a)
        if b: c.post(o, G.sizes(b, (ZERO,) * 3), "post:size", "empty"); c.noleak(o, [b.data])
    for f in ("ctorn", "ctornx"):
        st = c.state(); a = G.raw(st); n = [c.nonneg(st, x) for x in ("n0", "n1", "n2")]; args = [a.ptr] + n; spec = (lambda q, x: DEFVAL) if e.opaque else None
        if f != "ctorn": x, v = elemblock(c, st, e); args.append(x); spec = lambda q, x, v=v: v
        st0 = st.clone()
        for o in c.call(st, G.sfx + "_" + f, args, abort_ok=lambda o: toobig(n, e.es)):
            b = G.post(o, a)
            if b is None: continue
            c.post(o, G.sizes(b, n), "post:size", "requested sizes"); c.noleak(o, [b.data])
            c.post(o, implies(allof([ge(x, ONE) for x in n]), allof([eq(b.cap[d], n[d]) for d in D3])), "post:capacity", "capacity is the size")
            c.post(o, eq(b.mod, ZERO), "align:none", "no alignment requested")
            if spec: G.check_cells(o, b, n, spec)
            if f != "ctorn": c.unchanged(o, st0, args[4].blk)

def aligned_ctors(c, e, m, *which):
    G = Grid(c, e, m)
    for f in which:
        st = c.state(); a = G.raw(st); n = [c.nonneg(st, x) for x in ("n0", "n1", "n2")]
        mm, rr, ll, M, R, A = G.alfields(st, "x")
        args = [a.ptr] + n; v = None
        if "x" in f: x, v = elemblock(c, st, e); args.append(x)
        if f.endswith("r"): args += [A, R, M]
        else: args += [A]; M, R = A, ZERO
        for o in c.call(st, G.sfx + "_" + f, args, abort_ok=lambda o: toobig(n, e.es)):
            b = G.post(o, a)
            if b is None: continue
            c.post(o, G.sizes(b, n), "post:size", "requested sizes"); c.noleak(o, [b.data])
            c.post(o, and_(eq(b.mod, M), eq(b.r, R), eq(b.al, A)), "align:recorded", "the requested alignment is recorded")
            if v is not None: G.check_cells(o, b, n, lambda q, x: v)

def moved_post(c, G, o, a, v):
    b = G.post(o, a)
    if b is None: return
    c.post(o, and_(*[and_(eq(b.size[k], v.size[k]), eq(b.cap[k], v.cap[k])) for k in D3] + [eq(b.shift, v.shift)]), "post:size", "sizes and capacities are moved"); keepalign(c, o, b, v)
    w = G.post(o, v)
    if w is not None: c.post(o, and_(*[eq(x, ZERO) for x in w.size + w.cap]), "post:source-empty", "the moved-from array is empty")
    if v.base is not None: G.check_cells(o, b, v.size, lambda q, x: G.val0(v, q, x))
    c.noleak(o, [b.data] + ([w.data] if w is not None else []))

def regime(st, a, v, words):
    for w in words:
        if w == "fit": st.assume(*[le(v.size[d], a.cap[d]) for d in D3])
        elif w.startswith("grow"): d = int(w[4:]); st.assume(gt(v.size[d], a.cap[d]), *[le(v.size[k], a.cap[k]) for k in range(d)])
        elif w == "full": st.assume(*[ge(v.size[d], ONE) for d in D3])
        elif w == "flat": st.assume(or_(*[eq(v.size[d], ZERO) for d in D3]))
        else: raise ValueError(w)

def copies(c, e, m, part):
    """part: "ctor:<case of the source>[,regime]", "self", "move:<case of the target>" or "<case of the target>,<case of the source>" """
    G = Grid(c, e, m)
    if part.startswith("ctor:"):
        for sc in [part[5:].split(",")[0]]:
            st = c.state(); v = G.pre(st, "v", sc); a = G.raw(st); regime(st, a, v, part.split(",")[1:]); st0 = st.clone()
            for o in c.call(st, G.sfx + "_ctorcopy", [a.ptr, v.ptr], abort_ok=lambda o: toobig(v.size, e.es)):
                b = G.post(o, a)
                if b is None: continue
                c.post(o, G.sizes(b, v.size), "post:size", "sizes of the source"); keepalign(c, o, b, v)
                if v.base: G.check_cells(o, b, v.size, lambda q, x: G.val0(v, q, x)); c.unchanged(o, st0, v.base)
                c.unchanged(o, st0, v.obj); c.noleak(o, [b.data, v.data])
            st = c.state(); v = G.pre(st, "v", sc); a = G.raw(st)
            for o in c.call(st, G.sfx + "_ctormove", [a.ptr, v.ptr]): moved_post(c, G, o, a, v)
    elif part == "self":
        for dc in G.cases():
            for f in ("assign", "moveassign"):
                st = c.state(); a = G.pre(st, "a", dc); st0 = st.clone()
                for o in c.call(st, G.sfx + "_" + f, [a.ptr, a.ptr]):
                    G.post(o, a); retself(c, o, a); c.unchanged(o, st0, a.obj)
                    if a.base: c.unchanged(o, st0, a.base)
                    c.noleak(o, [a.data])
    elif part.startswith("move:"):
        for sc in G.cases():
            st = c.state(); a = G.pre(st, "a", part[5:]); v = G.pre(st, "v", sc)
            for o in c.call(st, G.sfx + "_moveassign", [a.ptr, v.ptr]): moved_post(c, G, o, a, v); retself(c, o, a)
    else:
        dc, sc = part.split(",")[:2]; rest = part.split(",")[2:]       # the remaining words split the domain into complementary regimes
        st = c.state(); a = G.pre(st, "a", dc); v = G.pre(st, "v", sc)
        regime(st, a, v, rest)
        st0 = st.clone()
        for o in c.call(st, G.sfx + "_assign", [a.ptr, v.ptr], abort_ok=lambda o: toobig(v.size, e.es)):
            b = G.post(o, a)
            if b is None: continue
            c.post(o, G.sizes(b, v.size), "post:size", "sizes of the source"); keepalign(c, o, b, v)
            if v.base: G.check_cells(o, b, v.size, lambda q, x: G.val0(v, q, x)); c.unchanged(o, st0, v.base)
            c.unchanged(o, st0, v.obj); c.noleak(o, [b.data, v.data]); retself(c, o, a)

def dtor(c, e, m):
    G = Grid(c, e, m)
    for case in G.cases():
        st = c.state(); a = G.pre(st, "a", case)
        for o in c.call(st, G.sfx + "_dtor", [a.ptr]): c.noleak(o, [])

def observers(c, e, m):
    G = Grid(c, e, m)
    for case in G.cases():
        for f in ("size", "capacity", "stride"):
            for d in (0, 1, 2, None):
                st = c.state(); a = G.pre(st, "a", case)
                if d is None: d = c.int(st, "d"); st.assume(or_(lt(d, ZERO), ge(d, const(3))))
                else: d = const(d)
                st0 = st.clone(); ok = and_(le(ZERO, d), lt(d, const(3)))
                for o in c.call(st, G.sfx + "_" + f, [a.ptr, d], abort_ok=lambda o: not_(ok), expect_return=is_const(d)):
                    c.post(o, ok, "bounds:abort-out-of-range", "dimension out of range")
                    w = {"size": a.size, "capacity": a.cap}.get(f)
                    if w is None: w = [None] * 3; w[G.ci] = ONE; w[1] = a.cap[G.ci]; w[G.oi] = mul(a.cap[1], a.cap[G.ci])
                    c.post(o, eq(o.val, ite(eq(d, ZERO), w[0], ite(eq(d, ONE), w[1], w[2]))), "post:" + f, f); frame(c, o, st0, a)
        st = c.state(); a = G.pre(st, "a", case); st0 = st.clone()
        for o in c.call(st, G.sfx + "_alignment", [a.ptr]): c.post(o, eq(o.val, a.al), "post:alignment", "alignment"); frame(c, o, st0, a)
        for f in ("data", "Data"):
            st = c.state(); a = G.pre(st, "a", case); st0 = st.clone()
            for o in c.call(st, G.sfx + "_" + f, [a.ptr]): ptr_is(c, o, o.val, a.data, "post:data"); frame(c, o, st0, a)

def accesses(c, e, m):
    G = Grid(c, e, m)
    for case in G.cases():
        for f in ("at", "At"):
            st = c.state(); a = G.pre(st, "a", case); x = tuple(c.int(st, z) for z in "ijk"); st0 = st.clone()
            ok = allof([and_(le(ZERO, x[d]), lt(x[d], a.size[d])) for d in D3])
            for o in c.call(st, G.sfx + "_" + f, [a.ptr] + list(x), abort_ok=lambda o: not_(ok), expect_return=a.base is not None):
                c.post(o, ok, "bounds:abort-out-of-range", "returned for an index out of range")
                if a.base is not None:
                    k = G.idx(a, x); addr_is(c, o, o.val, carray2d.at(a, e, k), a.data.off, scale(prod(a.cap), e.es))
                    c.post(o, and_(le(ZERO, k), lt(k, prod(a.cap))), "post:inside", "the element lies inside the storage")
                    distinct(c, o, G, a, x)
                frame(c, o, st0, a)

def distinct(c, o, G, a, x):
    """two in-range index triples with the same element number are the same triple: with rows numbered Q = outer * cap[1] + middle the
    element number is Q * cap[contiguous] + inner, so first the row and the inner index agree, then the outer and the middle index"""
    S, M = a.cap[G.ci], a.cap[1]
    q = o.clone(); y = tuple(fresh(z) for z in "ijk"); Q, R = fresh("row"), fresh("row")
    for d in D3: q.assume(le(ZERO, y[d]), lt(y[d], a.size[d]))
    q2 = q.clone()
    c.post(q, and_(eq(G.idx(a, x), add(mul(add(mul(x[G.oi], M), x[1]), S), x[G.ci]))), "post:distinct-cells", "element number")
    q.assume(ge(Q, ZERO), ge(R, ZERO), eq(add(mul(Q, S), x[G.ci]), add(mul(R, S), y[G.ci])))       # Q, R: the rows of x and y
    c.post(q, and_(eq(Q, R), eq(x[G.ci], y[G.ci])), "post:distinct-cells", "distinct indices, distinct cells")
    q2.assume(eq(add(mul(x[G.oi], M), x[1]), add(mul(y[G.oi], M), y[1])))
    c.post(q2, and_(eq(x[1], y[1]), eq(x[G.oi], y[G.oi])), "post:distinct-cells", "distinct indices, distinct cells")

"""Contracts of il::Array2D<T>, il::Array2C<T> (column and row major) and of their views and edits, for a trivial element type
and for an arbitrary class type."""
from lib import *
import itertools

class S2: pass
def by_contract(c):
    """callers of safeUpperRound(long, long) see its contract (verified on its body by carith.rounds), not its body"""
    def h(ex, st, a, ins):
        x, b = a[0], a[1]
        ex.oblige(st, and_(ge(x, ZERO), gt(b, ZERO)), "pre:safeUpperRound", "a >= 0 and b > 0")
        st.assume(ge(x, ZERO), gt(b, ZERO)); bad = st.clone()
        R, q = fresh("round"), fresh("lanes"); st.assume(ge(q, ZERO), eq(R, mul(q, b)), ge(R, x), lt(R, add(x, b)), le(R, const((1 << 63) - 1)))
        ex.store(st, a[-1], llir.IntT(8), ZERO)
        out = [(st, R)]
        bad.assume(gt(add(x, b), const(1 << 62)))
        if ex.p.check(bad.pc, [TRUE], 2000) != "unsat": ex.store(bad, a[-1], llir.IntT(8), ONE); out.append((bad, ZERO))
        return out
    c.ex.handlers["il::safeUpperRound(long, long, il::io_t, bool&)"] = h
def outdim(c, st):
    d = c.int(st, "d"); st.assume(or_(lt(d, ZERO), ge(d, const(2)))); return d

def gridlive(stride, nc, ns, shift=ZERO):
    """live cells of a grid: k = shift + j * stride + i with i < nc, j < ns"""
    def f(ex, st, k):
        st2 = st.clone(); st2.assume(ge(stride, ONE))
        q, r = ex.split(st2, sub(k, shift), stride)
        return and_(ge(nc, ONE), ge(ns, ONE), le(ZERO, q), lt(q, ns), lt(r, nc), le(ZERO, r))
    f.stateful = True
    return f

class Grid:
    """il::Array2D (col major, c = 0 is the contiguous index) or il::Array2C (c = 1)"""
    def __init__(s, c, e, major):
        by_contract(c); s.c, s.e, s.major = c, e, major; s.sfx = major + e.sfx; s.ci = 0 if major == "D" else 1; s.si = 1 - s.ci
        k = c.tu.K(s.sfx); s.sizeof, s.o_data, s.o_size, s.o_cap, s.o_al, s.o_r, s.o_mod, s.o_shift = k
        s.vk = c.tu.K(s.sfx + "V")
    def cases(s): return ["null", "heap"] + ([] if s.e.opaque else ["aligned", "nullal"])
    def idx(s, a, i, j):
        """element number of (i, j) relative to data"""
        x = (i, j); return add(mul(x[s.si], a.cap[s.ci]), x[s.ci])
    def alfields(s, st, name):
        c, e = s.c, s.e
        m, r, al = (c.int(st, name + x, 64) for x in (".mod", ".r", ".al"))
        st.assume(ge(m, ONE), le(scale(m, e.align), const(32767)), ge(r, ZERO), lt(r, m), ge(al, ONE), le(al, m))
        M, R, A = scale(m, e.align), scale(r, e.align), scale(al, e.align)
        st.assume(eq(modt(M, A), ZERO), eq(modt(R, A), ZERO))
        return m, r, al, M, R, A
    def pre(s, st, name, case):
        c, e = s.c, s.e; a = S2(); a.case = case; a.obj = c.ex.alloc(st, name, "obj", const(s.sizeof), 8); a.ptr = Ptr(a.obj, ZERO); a.cls = s
        a.al = a.r = a.mod = a.shift = ZERO
        if case in ("null", "nullal"):
            a.size = a.cap = (ZERO, ZERO); a.data = NULL; a.base = None
            if case == "nullal": a.m, _, a.l, a.mod, a.r, a.al = s.alfields(st, name)
            p = lambda n: Ptr(None, scale(n, e.es))
        else:
            n = [c.nonneg(st, name + ".n0"), c.nonneg(st, name + ".n1")]; cap = [c.nonneg(st, name + ".cap0"), c.nonneg(st, name + ".cap1")]
            slack = c.nonneg(st, name + ".slack")
            st.assume(le(n[0], cap[0]), le(n[1], cap[1]))
            if case == "aligned":
                m, r, l, a.mod, a.r, a.al = s.alfields(st, name)
                a.shift = c.nonneg(st, name + ".shift"); st.assume(lt(a.shift, m))
                q = c.nonneg(st, name + ".lanes"); a.colq, a.l = q, l
                st.assume(or_(eq(cap[s.ci], mul(q, l)), le(cap[s.si], ONE)))
            nb = add(scale(add(a.shift, mul(cap[0], cap[1])), e.es), slack); st.assume(lt(nb, const(MAXALLOC)), lt(cap[0], const(1 << 46)), lt(cap[1], const(1 << 46)))
            a.size, a.cap = tuple(n), tuple(cap)
            a.base = c.ex.alloc(st, name + ".data", "heap", nb, 16); nm = fresh_name(name)
            consts = {LIVE: gridlive(cap[s.ci], n[s.ci], n[s.si], a.shift)} if e.opaque else {}
            rg = Region(0, None, e.es, Base(nm, consts)); rg.fields[e.field] = True
            if e.opaque: rg.fields[LIVE] = True
            st.mem[a.base.id].regions.append(rg); st.owned.add(a.base.id)
            c.ex.addrfacts(st, a.base)
            a.data = Ptr(a.base, scale(a.shift, e.es), e.es)
            if case == "aligned": st.assume(eq(modt(add(a.base.addr, scale(a.shift, e.es)), a.mod), a.r))
            p = lambda n: Ptr(a.base, add(a.data.off, scale(n, e.es)), e.es)
        cells = {(s.o_data, 8): a.data, (s.o_size, 8): p(a.size[0]), (s.o_size + 8, 8): p(a.size[1]), (s.o_cap, 8): p(a.cap[0]), (s.o_cap + 8, 8): p(a.cap[1]),
                 (s.o_al, 2): a.al, (s.o_r, 2): a.r, (s.o_mod, 2): a.mod, (s.o_shift, 2): a.shift}
        c.setcells(st, a.obj, cells)
        a.content0 = None if a.base is None else st.mem[a.base.id].regions[0].content
        return a
    def raw(s, st, name="a"):
        a = S2(); a.cls = s; a.obj = s.c.ex.alloc(st, name, "obj", const(s.sizeof), 8); a.ptr = Ptr(a.obj, ZERO); return a
    def val0(s, a, st, i, j): return s.c.ex.rdc(st, a.content0, s.e.field, add(a.shift, s.idx(a, i, j)))
    def post(s, o, a):
        c, e = s.c, s.e; b = S2(); b.cls = s; b.obj = a.obj; b.ptr = a.ptr
        try: d, z0, z1, p0, p1 = (c.ex.load_nc(o, Ptr(a.obj, const(x)), llir.PTR, 8) for x in (s.o_data, s.o_size, s.o_size + 8, s.o_cap, s.o_cap + 8))
        except DeadPath: return None
        b.al, b.r, b.mod, b.shift = (c.ex.load_nc(o, Ptr(a.obj, const(x)), llir.IntT(16), 2) for x in (s.o_al, s.o_r, s.o_mod, s.o_shift))
        b.data = d; ps = (z0, z1, p0, p1)
        if any(p.blk is not d.blk for p in ps): c.fail(o, "inv:pointers", "size/capacity pointers leave the data block"); return None
        offs = [sub(p.off, d.off) for p in ps]
        b.base = d.blk
        b.size = tuple(div(x, e.es) for x in offs[:2]); b.cap = tuple(div(x, e.es) for x in offs[2:])
        if d.blk is None:
            c.post(o, and_(eq(d.off, ZERO), *[eq(x, ZERO) for x in offs]), "inv:null-empty", "null data means empty"); c.post(o, eq(b.shift, ZERO), "inv:null-empty", "no shift")
        else:
            if not o.mem[d.blk.id].alive: c.fail(o, "own:dangling", "data points to released storage"); return None
            c.post(o, and_(*[eq(mod(x, e.es), ZERO) for x in offs]), "inv:pointers", "sizes are whole elements")
            c.post(o, and_(*[and_(le(ZERO, b.size[x]), le(b.size[x], b.cap[x])) for x in (0, 1)]), "inv:size<=capacity", "0 <= size <= capacity")
            c.post(o, and_(eq(d.off, scale(b.shift, e.es)), ge(b.shift, ZERO)), "inv:base", "data - shift is the allocated pointer")
            c.post(o, le(add(d.off, scale(mul(b.cap[0], b.cap[1]), e.es)), d.blk.size), "inv:storage", "the capacity lies inside the storage")
            if e.opaque:
                q = o.clone(); k = fresh("k"); q.assume(le(ZERO, k), lt(scale(k, e.es), d.blk.size))
                q1 = q.clone(); q1.assume(ge(b.cap[s.ci], ONE))
                l = alive(c, q1, e, Ptr(d.blk, ZERO), k)
                g = gridlive(b.cap[s.ci], b.size[s.ci], b.size[s.si], b.shift)(c.ex, q1, k)
                c.post(q1, iff(l, g), "life:live-iff-in-grid", "exactly the elements of the grid are alive")
                q2 = q.clone(); q2.assume(le(b.cap[s.ci], ZERO))
                if c.ex.p.check(q2.pc, [TRUE], 2000) != "unsat": c.post(q2, not_(alive(c, q2, e, Ptr(d.blk, ZERO), k)), "life:live-iff-in-grid", "nothing is alive without capacity")
        if e.opaque: c.post(o, and_(eq(b.mod, ZERO), eq(b.al, ZERO), eq(b.r, ZERO), eq(b.shift, ZERO)), "align:fields", "no alignment for class types"); return b
        q = o.clone()
        if c.ex.known(q, eq(b.mod, ZERO)): c.post(q, and_(eq(b.al, ZERO), eq(b.r, ZERO), eq(b.shift, ZERO)), "align:fields", "unaligned arrays have no shift")
        else:
            c.post(q, and_(gt(b.mod, ZERO), ge(b.r, ZERO), lt(b.r, b.mod), gt(b.al, ZERO), le(b.mod, const(32767))), "align:fields", "alignment fields are legal")
            if d.blk is not None:
                c.ex.addrfacts(q, d.blk)
                c.post(q, eq(modt(add(d.blk.addr, d.off), b.mod), b.r), "align:residue", "first element has the requested residue")
                l = div(b.al, e.align) if e.align > 1 else b.al
                c.post(q, or_(le(b.cap[s.si], ONE), eq(modt(b.cap[s.ci], l), ZERO)), "align:column", "every column (row) starts at a multiple of the alignment")
        return b
    def value(s, o, b, i, j): return read(s.c, o, s.e, b.data, s.idx(b, i, j))
    def check_cells(s, o, b, n, spec, what="post:elements", where=None):
        """for all (i, j) in n (and where): element equals spec"""
        q = o.clone(); i, j = fresh("i"), fresh("j"); q.assume(le(ZERO, i), lt(i, n[0]), le(ZERO, j), lt(j, n[1]))
        if where is not None: q.assume(where(i, j))
        if s.c.ex.p.check(q.pc, [TRUE], 2000) == "unsat": return
        if b.data.blk is None: s.c.fail(o, what, "elements expected in a null array"); return
        s.c.post(q, eq(s.value(q, b, i, j), spec(q, i, j)), what, "element (i, j)")
    def sizes(s, b, n, p): return and_(eq(b.size[0], n), eq(b.size[1], p))

def toobig(n, p, es, lanes=None):
    """the request needs 2^46 bytes or more: the allocation may abort"""
    n1, p1 = ite(ge(n, ONE), n, ONE), ite(ge(p, ONE), p, ONE)
    return or_(ge(mul(n, p), const(1 << 40)), ge(n, const(1 << 40)), ge(p, const(1 << 40)))

def both(c, e, f):
    for m in ("D", "C"): f(c, e, Grid(c, e, m))

def defval(e): return (lambda q, i, j: DEFVAL) if e.opaque else None
def keepalign(c, o, b, a): c.post(o, and_(eq(b.mod, a.mod), eq(b.r, a.r), eq(b.al, a.al)), "align:kept", "alignment kept")
def retself(c, o, a):
    if not (isinstance(o.val, Ptr) and o.val.blk is a.obj and o.val.off is ZERO): c.fail(o, "post:returns-this", "operator= returns *this")

def ctors(c, e, m):
    G = Grid(c, e, m)
    st = c.state(); a = G.raw(st)
    for o in c.call(st, G.sfx + "_ctor0", [a.ptr]):
        b = G.post(o, a); c.post(o, G.sizes(b, ZERO, ZERO), "post:size", "empty"); c.noleak(o, [b.data])
    for f in ("ctorn", "ctornx") + (("ctornemp",) if m == "D" else ()):
        st = c.state(); a = G.raw(st); n, p = c.nonneg(st, "n"), c.nonneg(st, "p"); args = [a.ptr, n, p]; spec = defval(e)
        if f != "ctorn": x, v = elemblock(c, st, e); args.append(x); spec = lambda q, i, j, v=v: v
        st0 = st.clone()
        for o in c.call(st, G.sfx + "_" + f, args, abort_ok=lambda o: toobig(n, p, e.es)):
            b = G.post(o, a)
            if b is None: continue
            c.post(o, G.sizes(b, n, p), "post:size", "requested sizes"); c.noleak(o, [b.data])
            c.post(o, implies(and_(ge(n, ONE), ge(p, ONE)), and_(eq(b.cap[0], n), eq(b.cap[1], p))), "post:capacity", "capacity is the size")
            c.post(o, eq(b.mod, ZERO), "align:none", "no alignment requested")
            if spec: G.check_cells(o, b, (n, p), spec)
            if f != "ctorn": c.unchanged(o, st0, args[3].blk)

def lists(c, e, m):
    """brace construction: outer list of ns inner lists of nc elements each (ragged lists abort)"""
    G = Grid(c, e, m)
    for ns in (0, 1, 2):
        st = c.state(); a = G.raw(st)
        ob = c.ex.alloc(st, "outer", "ro", const(max(16 * ns, 1)), 16); inner = []
        for q in range(ns):
            n = c.nonneg(st, "len%d" % q); nb = c.nonneg(st, "lb%d" % q); st.assume(le(scale(n, e.es), nb), lt(nb, const(1 << 40)))
            blk = heaparray(c, st, e, "inner%d" % q, nb, ZERO, n, kind="ro"); inner.append((n, blk, st.mem[blk.id].regions[0].content))
            st.mem[ob.id].cells[(16 * q, 8)] = Ptr(blk, ZERO, e.es); st.mem[ob.id].cells[(16 * q + 8, 8)] = n
        lo = c.obj(st, "list", 16); c.setcells(st, lo, {(0, 8): Ptr(ob, ZERO), (8, 8): const(ns)}); st0 = st.clone()
        nc = inner[0][0] if ns else ZERO
        rect = and_(*[eq(x[0], nc) for x in inner])
        for o in c.call(st, G.sfx + "_ctorlist", [a.ptr, Ptr(lo, ZERO)], abort_ok=lambda o: not_(rect)):
            b = G.post(o, a)
            if b is None: continue
            c.post(o, or_(rect, eq(nc, ZERO)), "post:ragged", "a ragged list is refused")
            c.post(o, and_(eq(b.size[G.ci], nc), eq(b.size[G.si], const(ns))), "post:size", "sizes of the list"); c.noleak(o, [b.data])
            for q_ in range(ns):
                q = o.clone(); k = c.skolem(q, ZERO, nc)
                if c.ex.p.check(q.pc, [TRUE], 2000) == "unsat": continue
                ij = (k, const(q_)) if G.ci == 0 else (const(q_), k)
                c.post(q, eq(G.value(q, b, *ij), c.ex.rdc(q, inner[q_][2], e.field, k)), "post:elements", "element of list %d" % q_)

def aligned_ctors(c, e, m):
    G = Grid(c, e, m)
    for f in ("ctornal", "ctornalr", "ctornxal", "ctornxalr"):
        st = c.state(); a = G.raw(st); n, p = c.nonneg(st, "n"), c.nonneg(st, "p")
        mm, rr, ll, M, R, A = G.alfields(st, "x")
        args = [a.ptr, n, p]; v = None
        if "x" in f: x, v = elemblock(c, st, e); args.append(x)
        if f.endswith("r"): args += [A, R, M]
        else: args += [A]; M, R = A, ZERO
        for o in c.call(st, G.sfx + "_" + f, args, abort_ok=lambda o: toobig(n, p, e.es)):
            b = G.post(o, a)
            if b is None: continue
            c.post(o, G.sizes(b, n, p), "post:size", "requested sizes"); c.noleak(o, [b.data])
            c.post(o, and_(eq(b.mod, M), eq(b.r, R), eq(b.al, A)), "align:recorded", "the requested alignment is recorded")
            if v is not None: G.check_cells(o, b, (n, p), lambda q, i, j: v)

def copies(c, e, m, part="all"):
    G = Grid(c, e, m)
    if part in ("all", "ctor"):
        for sc in G.cases():
            st = c.state(); v = G.pre(st, "v", sc); a = G.raw(st); st0 = st.clone()
            for o in c.call(st, G.sfx + "_ctorcopy", [a.ptr, v.ptr], abort_ok=lambda o: toobig(v.size[0], v.size[1], e.es)):
                b = G.post(o, a)
                if b is None: continue
                c.post(o, G.sizes(b, *v.size), "post:size", "sizes of the source"); keepalign(c, o, b, v)
                if v.base: G.check_cells(o, b, v.size, lambda q, i, j: G.val0(v, q, i, j)); c.unchanged(o, st0, v.base)
                c.unchanged(o, st0, v.obj); c.noleak(o, [b.data, v.data])
            st = c.state(); v = G.pre(st, "v", sc); a = G.raw(st); st0 = st.clone()
            for o in c.call(st, G.sfx + "_ctormove", [a.ptr, v.ptr]): moved_post(c, G, o, a, v)
    for dc in G.cases():
        if part not in ("all", dc): continue
        for sc in G.cases():
            st = c.state(); a = G.pre(st, "a", dc); v = G.pre(st, "v", sc); st0 = st.clone()
            for o in c.call(st, G.sfx + "_assign", [a.ptr, v.ptr], abort_ok=lambda o: toobig(v.size[0], v.size[1], e.es)):
                b = G.post(o, a)
                if b is None: continue
                same = and_(eq(a.mod, v.mod), eq(a.r, v.r), eq(a.al, v.al), le(v.size[0], a.cap[0]), le(v.size[1], a.cap[1]))
                c.post(o, G.sizes(b, *v.size), "post:size", "sizes of the source"); keepalign(c, o, b, v)
                c.post(o, implies(same, and_(eq(b.cap[0], a.cap[0]), eq(b.cap[1], a.cap[1]))), "post:capacity", "capacity kept when enough")
                if v.base: G.check_cells(o, b, v.size, lambda q, i, j: G.val0(v, q, i, j)); c.unchanged(o, st0, v.base)
                c.unchanged(o, st0, v.obj); c.noleak(o, [b.data, v.data]); retself(c, o, a)
            st = c.state(); a = G.pre(st, "a", dc); v = G.pre(st, "v", sc); st0 = st.clone()
            for o in c.call(st, G.sfx + "_moveassign", [a.ptr, v.ptr]): moved_post(c, G, o, a, v); retself(c, o, a)
        for f in ("assign", "moveassign"):
            st = c.state(); a = G.pre(st, "a", dc); st0 = st.clone()
            for o in c.call(st, G.sfx + "_" + f, [a.ptr, a.ptr]):
                G.post(o, a); retself(c, o, a); c.unchanged(o, st0, a.obj)
                if a.base: c.unchanged(o, st0, a.base)
                c.noleak(o, [a.data])
def moved_post(c, G, o, a, v):
    b = G.post(o, a)
    if b is None: return
    c.post(o, and_(*[and_(eq(b.size[k], v.size[k]), eq(b.cap[k], v.cap[k])) for k in (0, 1)] + [eq(b.shift, v.shift)]), "post:size", "sizes and capacities are moved"); keepalign(c, o, b, v)
    w = G.post(o, v)
    if w is not None: c.post(o, and_(*[eq(x, ZERO) for x in w.size + w.cap]), "post:source-empty", "the moved-from array is empty")
    if v.base is not None: G.check_cells(o, b, v.size, lambda q, i, j: G.val0(v, q, i, j))
    c.noleak(o, [b.data] + ([w.data] if w is not None else []))

def mn(x, y): return ite(lt(x, y), x, y)
def resizes(c, e, m, part="all", only=None):
    G = Grid(c, e, m)
    for case in G.cases():
        if part not in ("all", case): continue
        for f in ("resize",) + (("resizex", "resizeemp") if m == "D" else ()):
            if only not in (None, f): continue
            st = c.state(); a = G.pre(st, "a", case); n, p = c.nonneg(st, "n"), c.nonneg(st, "p"); args = [a.ptr, n, p]; spec = defval(e)
            if f != "resize": x, v = elemblock(c, st, e); args.append(x); spec = lambda q, i, j, v=v: v
            st0 = st.clone()
            fits = and_(le(n, a.cap[0]), le(p, a.cap[1]))
            for o in c.call(st, G.sfx + "_" + f, args, abort_ok=lambda o: and_(not_(fits), toobig(n, p, e.es))):
                b = G.post(o, a)
                if b is None: continue
                c.post(o, G.sizes(b, n, p), "post:size", "new sizes"); keepalign(c, o, b, a)
                c.post(o, implies(fits, and_(eq(b.cap[0], a.cap[0]), eq(b.cap[1], a.cap[1]))), "post:capacity", "no reallocation while there is room")
                if a.base is not None: G.check_cells(o, b, (mn(n, a.size[0]), mn(p, a.size[1])), lambda q, i, j: G.val0(a, q, i, j), "post:survivors")
                if spec: G.check_cells(o, b, (n, p), spec, "post:new-elements", lambda i, j: or_(ge(i, a.size[0]), ge(j, a.size[1])))
                c.noleak(o, [b.data])
                if f != "resize": c.unchanged(o, st0, args[3].blk)
        if only not in (None, "reserve"): continue
        st = c.state(); a = G.pre(st, "a", case); n, p = c.nonneg(st, "n", 1 << 46), c.nonneg(st, "p", 1 << 46); fits = and_(le(n, a.cap[0]), le(p, a.cap[1]))
        big_ = lambda x, y: ite(lt(x, y), y, x)
        for o in c.call(st, G.sfx + "_reserve", [a.ptr, n, p], abort_ok=lambda o: and_(not_(fits), toobig(big_(n, a.cap[0]), big_(p, a.cap[1]), e.es))):
            b = G.post(o, a)
            if b is None: continue
            c.post(o, G.sizes(b, *a.size), "post:size", "sizes unchanged"); keepalign(c, o, b, a)
            c.post(o, and_(ge(b.cap[0], n), ge(b.cap[1], p), ge(b.cap[0], a.cap[0]), ge(b.cap[1], a.cap[1])), "post:capacity", "capacity at least the request")
            c.post(o, implies(fits, and_(eq(b.cap[0], a.cap[0]), eq(b.cap[1], a.cap[1]))), "post:capacity", "nothing is done when there is room")
            if a.base is not None: G.check_cells(o, b, a.size, lambda q, i, j: G.val0(a, q, i, j), "post:survivors")
            c.noleak(o, [b.data])
        if m == "C":
            st = c.state(); a = G.pre(st, "a", case); x, v = elemblock(c, st, e); st0 = st.clone()
            for o in c.call(st, G.sfx + "_set", [a.ptr, x]):
                b = G.post(o, a)
                if b is None: continue
                c.post(o, and_(G.sizes(b, *a.size), eq(b.cap[0], a.cap[0]), eq(b.cap[1], a.cap[1])), "post:size", "sizes unchanged"); keepalign(c, o, b, a)
                G.check_cells(o, b, a.size, lambda q, i, j: v, "post:new-elements") if a.base else None
                c.noleak(o, [b.data])

def dtor(c, e, m):
    G = Grid(c, e, m)
    for case in G.cases():
        st = c.state(); a = G.pre(st, "a", case)
        for o in c.call(st, G.sfx + "_dtor", [a.ptr]): c.noleak(o, [])

def frame(c, o, st0, a):
    c.unchanged(o, st0, a.obj)
    if a.base is not None: c.unchanged(o, st0, a.base)
def at(a, e, k): return Ptr(None, scale(k, e.es)) if a.base is None else Ptr(a.base, add(a.data.off, scale(k, e.es)))

def observers(c, e, m):
    G = Grid(c, e, m)
    for case in G.cases():
        for f, d in itertools.product(("size", "capacity", "stride"), (0, 1, None)):
            st = c.state(); a = G.pre(st, "a", case); d = outdim(c, st) if d is None else const(d); st0 = st.clone(); ok = and_(le(ZERO, d), lt(d, const(2)))
            for o in c.call(st, G.sfx + "_" + f, [a.ptr, d], abort_ok=lambda o: not_(ok), expect_return=is_const(d)):
                c.post(o, ok, "bounds:abort-out-of-range", "dimension out of range")
                w = {"size": a.size, "capacity": a.cap, "stride": (ONE, a.cap[G.ci]) if G.ci == 0 else (a.cap[G.ci], ONE)}[f]
                c.post(o, eq(o.val, ite(eq(d, ZERO), w[0], w[1])), "post:" + f, f); frame(c, o, st0, a)
        st = c.state(); a = G.pre(st, "a", case); st0 = st.clone()
        for o in c.call(st, G.sfx + "_alignment", [a.ptr]): c.post(o, eq(o.val, a.al), "post:alignment", "alignment"); frame(c, o, st0, a)
        for f in ("data", "Data"):
            st = c.state(); a = G.pre(st, "a", case); st0 = st.clone()
            for o in c.call(st, G.sfx + "_" + f, [a.ptr]): ptr_is(c, o, o.val, a.data, "post:data"); frame(c, o, st0, a)

def distinct(c, o, G, cap, n, i, j, what="post:distinct-cells"):
    """two in-range index pairs with the same element number are the same pair"""
    q = o.clone(); i2, j2 = fresh("i"), fresh("j"); x, y = (i, j), (i2, j2)
    q.assume(le(ZERO, i2), lt(i2, n[0]), le(ZERO, j2), lt(j2, n[1]), eq(add(mul(x[G.si], cap), x[G.ci]), add(mul(y[G.si], cap), y[G.ci])))
    c.post(q, and_(eq(i, i2), eq(j, j2)), what, "distinct indices, distinct cells")

def accesses(c, e, m):
    G = Grid(c, e, m)
    for case in G.cases():
        for f in ("at", "At"):
            st = c.state(); a = G.pre(st, "a", case); i, j = c.int(st, "i"), c.int(st, "j"); st0 = st.clone()
            ok = and_(le(ZERO, i), lt(i, a.size[0]), le(ZERO, j), lt(j, a.size[1]))
            for o in c.call(st, G.sfx + "_" + f, [a.ptr, i, j], abort_ok=lambda o: not_(ok), expect_return=a.base is not None):
                c.post(o, ok, "bounds:abort-out-of-range", "returned for an index out of range")
                if a.base is not None:
                    k = G.idx(a, i, j); addr_is(c, o, o.val, at(a, e, k), a.data.off, scale(mul(a.cap[0], a.cap[1]), e.es))
                    c.post(o, and_(le(ZERO, k), lt(k, mul(a.cap[0], a.cap[1]))), "post:inside", "the element lies inside the storage")
                    distinct(c, o, G, a.cap[G.ci], a.size, i, j)
                frame(c, o, st0, a)
        for f in ("datai", "Datai"):
            st = c.state(); a = G.pre(st, "a", case); i = c.int(st, "i"); st0 = st.clone(); ok = and_(le(ZERO, i), lt(i, a.size[G.si]))
            for o in c.call(st, G.sfx + "_" + f, [a.ptr, i], abort_ok=lambda o: not_(ok), expect_return=a.base is not None):
                c.post(o, ok, "bounds:abort-out-of-range", "returned for an index out of range")
                if a.base is not None: addr_is(c, o, o.val, at(a, e, mul(i, a.cap[G.ci])), a.data.off, scale(mul(a.cap[0], a.cap[1]), e.es))
                frame(c, o, st0, a)

def view_at(c, o, G, r):
    k = G.vk; return tuple(c.ex.load_nc(o, Ptr(r, const(x)), llir.PTR, 8) for x in (k[1], k[2], k[2] + 8, k[3]))
def view_is(c, o, G, r, a, k0, n0, n1):
    e = G.e; d, s0, s1, sd = view_at(c, o, G, r)
    stride = a.cap[G.ci]; off = lambda n: at(a, e, add(k0, n))
    ptr_is(c, o, d, at(a, e, k0), "post:view-begin"); ptr_is(c, o, s0, off(n0), "post:view-size"); ptr_is(c, o, s1, off(n1), "post:view-size"); ptr_is(c, o, sd, off(stride), "post:view-stride")

def views(c, e, m):
    G = Grid(c, e, m)
    for case in G.cases():
        for f in ("view", "edit"):
            st = c.state(); a = G.pre(st, "a", case); r = c.obj(st, "r", G.vk[0]); st0 = st.clone()
            for o in c.call(st, G.sfx + "_" + f, [Ptr(r, ZERO), a.ptr], abort_ok=lambda o: eq(a.cap[G.ci], ZERO), expect_return=a.base is not None):
                view_is(c, o, G, r, a, ZERO, *a.size); frame(c, o, st0, a)
        for f in ("viewr",) + (("editr",) if m == "D" else ()):
            st = c.state(); a = G.pre(st, "a", case); r = c.obj(st, "r", G.vk[0]); b0, e0, b1, e1 = (c.int(st, x) for x in ("b0", "e0", "b1", "e1")); st0 = st.clone()
            legal = and_(le(ZERO, b0), le(b0, e0), le(e0, a.size[0]), le(ZERO, b1), le(b1, e1), le(e1, a.size[1]))
            for o in c.call(st, G.sfx + "_" + f, [Ptr(r, ZERO), a.ptr, b0, e0, b1, e1], abort_ok=lambda o: or_(not_(legal), eq(b0, e0), eq(b1, e1)), expect_return=a.base is not None):
                c.post(o, legal, "bounds:abort-out-of-range", "range leaves the array")
                if a.base is not None: view_is(c, o, G, r, a, G.idx(a, b0, b1), sub(e0, b0), sub(e1, b1))
                frame(c, o, st0, a)
        for f in ("viewc",) + (("editc",) if m == "D" else ()):
            st = c.state(); a = G.pre(st, "a", case); r = c.obj(st, "r", 24); b, z_, j = (c.int(st, x) for x in ("b", "e", "j")); st0 = st.clone()
            legal = and_(le(ZERO, b), le(b, z_), le(z_, a.size[G.ci]), le(ZERO, j), lt(j, a.size[G.si]))
            for o in c.call(st, G.sfx + "_" + f, [Ptr(r, ZERO), a.ptr, b, z_, j] if m == "D" else [Ptr(r, ZERO), a.ptr, b, z_, j], abort_ok=lambda o: or_(not_(legal), eq(b, z_)), expect_return=a.base is not None):
                c.post(o, legal, "bounds:abort-out-of-range", "range leaves the array")
                if a.base is not None:
                    k0 = add(mul(j, a.cap[G.ci]), b)
                    d, x = c.ex.load_nc(o, Ptr(r, ZERO), llir.PTR, 8), c.ex.load_nc(o, Ptr(r, const(8)), llir.PTR, 8)
                    ptr_is(c, o, d, at(a, e, k0), "post:view-begin"); ptr_is(c, o, x, at(a, e, add(k0, sub(z_, b))), "post:view-size")
                frame(c, o, st0, a)

class View:
    """a view (edit) of n0 x n1 elements with a stride at least the contiguous extent, inside one block"""
    def __init__(s, c, st, G, name, kind="obj", null=False):
        e = G.e; s.G = G; s.obj = c.obj(st, name, G.vk[0]); s.ptr = Ptr(s.obj, ZERO); k = G.vk
        if null: s.size = (ZERO, ZERO); s.stride = ZERO; s.base = None; s.data = NULL; p = lambda n: NULL
        else:
            s.size = tuple(c.nonneg(st, name + ".n%d" % i) for i in (0, 1)); s.stride = c.int(st, name + ".stride"); off = c.nonneg(st, name + ".off"); nb = c.nonneg(st, name + ".bytes")
            st.assume(ge(s.stride, ONE), le(s.size[G.ci], s.stride), lt(nb, const(MAXALLOC)))
            st.assume(*[lt(x, const(1 << 47)) for x in s.size + (s.stride, off)])
            st.assume(implies(and_(ge(s.size[0], ONE), ge(s.size[1], ONE)), le(scale(add(off, mul(sub(s.size[G.si], ONE), s.stride), s.size[G.ci]), e.es), nb)))
            s.base = c.ex.alloc(st, name + ".cells", kind, nb, 16)
            r = Region(0, None, e.es, Base(fresh_name(name), {LIVE: TRUE} if e.opaque else {})); r.fields[e.field] = True
            if e.opaque: r.fields[LIVE] = True
            st.mem[s.base.id].regions.append(r); s.data = Ptr(s.base, scale(off, e.es), e.es); s.off = off
            p = lambda n: Ptr(s.base, add(s.data.off, scale(n, e.es)), e.es); s.content0 = r.content
        c.setcells(st, s.obj, {(k[1], 8): s.data, (k[2], 8): p(s.size[0]), (k[2] + 8, 8): p(s.size[1]), (k[3], 8): p(s.stride)})
        s.cap = (s.stride, None) if G.ci == 0 else (None, s.stride)

def viewmethods(c, e, m):
    G = Grid(c, e, m)
    st = c.state(); r = c.obj(st, "r", G.vk[0])
    for o in c.call(st, G.sfx + "V_ctor0", [Ptr(r, ZERO)]):
        for p in view_at(c, o, G, r): ptr_is(c, o, p, NULL, "post:view-begin")
    for f in ("V_ctor4", "E_ctor6"):
        st = c.state(); r = c.obj(st, "r", G.vk[0]); v = View(c, st, G, "v"); n0, n1, sd = (c.int(st, x) for x in ("n0", "n1", "s")); st.assume(*[lt(x, const(1 << 50)) for x in (n0, n1, sd)])
        ok = and_(ge(n0, ZERO), ge(n1, ZERO), ge(sd, ONE)); st0 = st.clone()
        for o in c.call(st, G.sfx + f, [Ptr(r, ZERO), v.data, n0, n1, sd], abort_ok=lambda o: not_(ok)):
            c.post(o, ok, "bounds:abort-out-of-range", "negative extents")
            for p, n in zip(view_at(c, o, G, r), (ZERO, n0, n1, sd)): ptr_is(c, o, p, at(v, e, n), "post:view-size")
            frame(c, o, st0, v)
    for null in (False, True):
        for f in ("V_at", "E_At"):
            st = c.state(); v = View(c, st, G, "v", null=null); i, j = c.int(st, "i"), c.int(st, "j"); st0 = st.clone()
            ok = and_(le(ZERO, i), lt(i, v.size[0]), le(ZERO, j), lt(j, v.size[1]))
            for o in c.call(st, G.sfx + f, [v.ptr, i, j], abort_ok=lambda o: not_(ok), expect_return=not null):
                c.post(o, ok, "bounds:abort-out-of-range", "returned for an index out of range")
                if not null:
                    k = G.idx(v, i, j); addr_is(c, o, o.val, at(v, e, k), ZERO, v.base.size)
                    c.post(o, and_(le(ZERO, o.val.off), le(add(o.val.off, const(e.es)), v.base.size)), "post:inside", "the element lies inside the viewed storage")
                    distinct(c, o, G, v.stride, v.size, i, j)
                frame(c, o, st0, v)
        for f, d in itertools.product(("V_size", "V_stride"), (0, 1, None)):
            st = c.state(); v = View(c, st, G, "v", null=null); d = outdim(c, st) if d is None else const(d); st0 = st.clone(); ok = and_(le(ZERO, d), lt(d, const(2)))
            for o in c.call(st, G.sfx + f, [v.ptr, d], abort_ok=lambda o: not_(ok), expect_return=is_const(d)):
                c.post(o, ok, "bounds:abort-out-of-range", "dimension out of range")
                w = v.size if f == "V_size" else (ONE, v.stride) if G.ci == 0 else (v.stride, ONE)
                c.post(o, eq(o.val, ite(eq(d, ZERO), w[0], w[1])), "post:view-size", f); frame(c, o, st0, v)
        for f in ("V_data", "E_Data"):
            st = c.state(); v = View(c, st, G, "v", null=null); st0 = st.clone()
            for o in c.call(st, G.sfx + f, [v.ptr]): ptr_is(c, o, o.val, v.data, "post:view-begin"); frame(c, o, st0, v)
        for f in ("E_editr",) + (("V_viewr",) if m == "D" else ()):
            st = c.state(); v = View(c, st, G, "v", null=null); r = c.obj(st, "r", G.vk[0]); b0, e0, b1, e1 = (c.int(st, x) for x in ("b0", "e0", "b1", "e1")); st0 = st.clone()
            legal = and_(le(ZERO, b0), le(b0, e0), le(e0, v.size[0]), le(ZERO, b1), le(b1, e1), le(e1, v.size[1]))
            for o in c.call(st, G.sfx + f, [Ptr(r, ZERO), v.ptr, b0, e0, b1, e1], abort_ok=lambda o: or_(not_(legal), eq(b0, e0), eq(b1, e1)), expect_return=not null):
                c.post(o, legal, "bounds:abort-out-of-range", "range leaves the view")
                if not null: view_is(c, o, G, r, v, G.idx(v, b0, b1), sub(e0, b0), sub(e1, b1))
                frame(c, o, st0, v)
    if m == "D":
        st = c.state(); v = View(c, st, G, "v", kind="ro"); w = View(c, st, G, "w"); st0 = st.clone(); ok = and_(eq(v.size[0], w.size[0]), eq(v.size[1], w.size[1]))
        for o in c.call(st, G.sfx + "V_copy", [v.ptr, w.ptr], abort_ok=lambda o: not_(ok)):
            c.post(o, ok, "bounds:abort-out-of-range", "copy between views of different sizes")
            q = o.clone(); i, j = c.skolem(q, ZERO, v.size[0], "i"), c.skolem(q, ZERO, v.size[1], "j")
            c.post(q, eq(read(c, q, e, w.data, G.idx(w, i, j)), c.ex.rdc(q, v.content0, e.field, add(v.off, G.idx(v, i, j)))), "post:view-copy", "element copied")
            q = o.clone(); k = fresh("k"); q.assume(ge(k, ZERO), le(scale(add(k, ONE), e.es), w.base.size))
            t = sub(k, w.off); qq, rr = c.ex.split(q, t, w.stride)
            q.assume(not_(and_(le(ZERO, qq), lt(qq, w.size[G.si]), lt(rr, w.size[G.ci]), le(ZERO, rr))))
            c.post(q, eq(read(c, q, e, Ptr(w.base, ZERO, e.es), k), c.ex.rdc(q, w.content0, e.field, k)), "post:view-frame", "nothing outside the edit changes")
            c.unchanged(o, st0, v.base)

"""Contracts of il::SmallArray<T, N> and il::StaticArray<T, N> (instances N = 1, 4 and N = 0, 1, 3, 5)."""
from lib import *

class SA: pass
def big(n, es): return ge(scale(n, es), const(MAXALLOC))
def view_at(c, o, r): return c.ex.load_nc(o, Ptr(r, ZERO), llir.PTR, 8), c.ex.load_nc(o, Ptr(r, const(8)), llir.PTR, 8)

class Small:
    def __init__(s, c, e, n):
        s.c, s.e, s.n = c, e, n; s.sfx = "S%d%s" % (n, e.sfx); s.sizeof, s.o_data, s.o_size, s.o_cap, s.o_small, _ = c.tu.K(s.sfx)
    def cases(s): return ["inline", "heap"]
    def inline(s, st, blk, size=None):
        """the inline storage: raw, or holding size elements"""
        e = s.e; nm = fresh_name("inl"); cs = {}
        if e.opaque: cs = {LIVE: FALSE if size is None else (lambda i: and_(le(ZERO, i), lt(i, size)))}
        r = Region(s.o_small, const(s.n * e.es), e.es, Base(nm, cs)); r.fields[e.field] = True
        if e.opaque: r.fields[LIVE] = True
        st.mem[blk.id].regions.append(r); return r
    def raw(s, st, name="a"):
        a = SA(); a.obj = s.c.ex.alloc(st, name, "obj", const(s.sizeof), 8); a.ptr = Ptr(a.obj, ZERO); s.inline(st, a.obj); return a
    def pre(s, st, name, case):
        c, e = s.c, s.e; a = SA(); a.case = case; a.obj = c.ex.alloc(st, name, "obj", const(s.sizeof), 8); a.ptr = Ptr(a.obj, ZERO)
        a.size = c.nonneg(st, name + ".size")
        if case == "inline":
            a.cap = const(s.n); st.assume(le(a.size, a.cap)); rg = s.inline(st, a.obj, a.size); a.base = None; a.data = Ptr(a.obj, const(s.o_small), e.es); a.content0 = rg.content; a.shift = ZERO
        else:
            a.cap = c.nonneg(st, name + ".cap"); slack = c.nonneg(st, name + ".slack"); st.assume(le(a.size, a.cap)); nb = add(scale(a.cap, e.es), slack); st.assume(lt(nb, const(MAXALLOC)))
            s.inline(st, a.obj); a.base = heaparray(c, st, e, name + ".data", nb, ZERO, a.size); c.ex.addrfacts(st, a.base); a.data = Ptr(a.base, ZERO, e.es); a.content0 = st.mem[a.base.id].regions[0].content
        p = lambda n: Ptr(a.data.blk, add(a.data.off, scale(n, e.es)), e.es)
        c.setcells(st, a.obj, {(s.o_data, 8): a.data, (s.o_size, 8): p(a.size), (s.o_cap, 8): p(a.cap)})
        return a
    def val0(s, a, st, i): return s.c.ex.rdc(st, a.content0, s.e.field, i)
    def post(s, o, a):
        c, e = s.c, s.e; b = SA(); b.obj = a.obj; b.ptr = a.ptr
        try: d, z_, p = (c.ex.load_nc(o, Ptr(a.obj, const(x)), llir.PTR, 8) for x in (s.o_data, s.o_size, s.o_cap))
        except DeadPath: return None
        if d.blk is None or z_.blk is not d.blk or p.blk is not d.blk: c.fail(o, "inv:pointers", "size/capacity pointers leave the data block"); return None
        b.data = d; n, m = sub(z_.off, d.off), sub(p.off, d.off)
        c.post(o, and_(eq(mod(n, e.es), ZERO), eq(mod(m, e.es), ZERO)), "inv:pointers", "size and capacity are whole elements")
        b.size, b.cap = div(n, e.es), div(m, e.es)
        c.post(o, and_(le(ZERO, b.size), le(b.size, b.cap)), "inv:size<=capacity", "0 <= size <= capacity")
        if d.blk is a.obj:
            c.post(o, and_(eq(d.off, const(s.o_small)), eq(b.cap, const(s.n))), "inv:storage", "inline storage has the inline capacity"); b.base = None; dlo = b.size
        else:
            if not o.mem[d.blk.id].alive: c.fail(o, "own:dangling", "data points to released storage"); return None
            if d.blk.kind != "heap": c.fail(o, "own:foreign", "data points into %s" % d.blk); return None
            b.base = d.blk; c.post(o, and_(eq(d.off, ZERO), le(add(d.off, scale(b.cap, e.es)), d.blk.size)), "inv:storage", "the capacity lies inside the storage"); dlo = ZERO
            if e.opaque:
                q = o.clone(); k = fresh("k"); q.assume(le(ZERO, k), lt(scale(k, e.es), d.blk.size))
                c.post(q, iff(alive(c, q, e, Ptr(d.blk, ZERO), k), lt(k, b.size)), "life:live-iff-below-size", "exactly the elements below size are alive")
        if e.opaque:
            for k in range(s.n):
                c.post(o, iff(alive(c, o, e, Ptr(a.obj, const(s.o_small)), const(k)), lt(const(k), dlo)), "life:live-iff-below-size", "inline element %d alive iff in use" % k)
        return b
    def value(s, o, b, k): return read(s.c, o, s.e, b.data, k)
    def check_seq(s, o, b, n, spec, what="post:elements", lo=ZERO):
        q = o.clone(); k = s.c.skolem(q, lo, n)
        if s.c.ex.p.check(q.pc, [TRUE], 2000) == "unsat": return
        s.c.post(q, eq(s.value(q, b, k), spec(q, k)), what, "element %s" % show(k))
    def own(s, o, *bs):
        """heap blocks: exactly those of the listed objects"""
        s.c.noleak(o, [b.data for b in bs if b is not None and b.base is not None])

def cap0(S, n): return ite(le(n, const(S.n)), const(S.n), n)
def ctors(c, e, N):
    S = Small(c, e, N)
    st = c.state(); a = S.raw(st)
    for o in c.call(st, S.sfx + "_ctor0", [a.ptr]):
        b = S.post(o, a)
        if b: c.post(o, and_(eq(b.size, ZERO), eq(b.cap, const(N))), "post:size", "empty"); S.own(o, b)
    for f in ("ctorn", "ctornx", "ctorlist"):
        st = c.state(); a = S.raw(st); n = c.nonneg(st, "n"); args = [a.ptr, n]; src = x = None
        if f == "ctorlist":
            nb = c.nonneg(st, "lbytes"); st.assume(le(scale(n, e.es), nb), lt(nb, const(MAXALLOC))); src = heaparray(c, st, e, "list", nb, ZERO, n, kind="ro")
            l = c.obj(st, "list", 16); c.setcells(st, l, {(0, 8): Ptr(src, ZERO, e.es), (8, 8): n}); args = [a.ptr, Ptr(l, ZERO)]; s0 = st.mem[src.id].regions[0].content
            spec = lambda q, k: c.ex.rdc(q, s0, e.field, k)
        elif f == "ctorn": spec = (lambda q, k: DEFVAL) if e.opaque else None
        else: x, v = elemblock(c, st, e); args.append(x); spec = lambda q, k: v
        st0 = st.clone()
        for o in c.call(st, S.sfx + "_" + f, args, abort_ok=lambda o: big(n, e.es)):
            b = S.post(o, a)
            if b is None: continue
            c.post(o, and_(eq(b.size, n), eq(b.cap, cap0(S, n))), "post:size", "size n, capacity n or inline"); S.own(o, b)
            if spec: S.check_seq(o, b, n, spec)
            if src: c.unchanged(o, st0, src)
            if x is not None: c.unchanged(o, st0, x.blk)
def retself(c, o, a):
    if not (isinstance(o.val, Ptr) and o.val.blk is a.obj and o.val.off is ZERO): c.fail(o, "post:returns-this", "operator= returns *this")
def moved_post(c, S, o, a, v):
    b = S.post(o, a); w = S.post(o, v)
    if b is None: return
    c.post(o, and_(eq(b.size, v.size), eq(b.cap, v.cap)), "post:size", "size and capacity are moved")
    S.check_seq(o, b, v.size, lambda q, k: S.val0(v, q, k))
    if w is not None: c.post(o, and_(eq(w.size, ZERO), eq(w.cap, const(S.n))), "post:source-empty", "the moved-from array is empty"); S.own(o, b, w)
def srcsame(c, S, o, st0, v):
    """the source of a copy is unchanged"""
    c.unchanged(o, st0, v.obj)
    if v.base is not None: c.unchanged(o, st0, v.base)
def copies(c, e, N):
    S = Small(c, e, N)
    for sc in S.cases():
        st = c.state(); v = S.pre(st, "v", sc); a = S.raw(st); st0 = st.clone()
        for o in c.call(st, S.sfx + "_ctorcopy", [a.ptr, v.ptr]):
            b = S.post(o, a)
            if b is None: continue
            c.post(o, and_(eq(b.size, v.size), eq(b.cap, cap0(S, v.size))), "post:size", "size and capacity of the copy")
            S.check_seq(o, b, v.size, lambda q, k: S.val0(v, q, k)); srcsame(c, S, o, st0, v); S.own(o, b, v)
        st = c.state(); v = S.pre(st, "v", sc); a = S.raw(st)
        for o in c.call(st, S.sfx + "_ctormove", [a.ptr, v.ptr]): moved_post(c, S, o, a, v)
        for dc in S.cases():
            st = c.state(); a = S.pre(st, "a", dc); v = S.pre(st, "v", sc); st0 = st.clone()
            for o in c.call(st, S.sfx + "_assign", [a.ptr, v.ptr]):
                b = S.post(o, a)
                if b is None: continue
                c.post(o, and_(eq(b.size, v.size), eq(b.cap, ite(gt(v.size, a.cap), v.size, a.cap))), "post:size", "size of the source, capacity kept when enough")
                S.check_seq(o, b, v.size, lambda q, k: S.val0(v, q, k)); srcsame(c, S, o, st0, v); S.own(o, b, v); retself(c, o, a)
            st = c.state(); a = S.pre(st, "a", dc); v = S.pre(st, "v", sc)
            for o in c.call(st, S.sfx + "_moveassign", [a.ptr, v.ptr]): moved_post(c, S, o, a, v); retself(c, o, a)
        for f in ("assign", "moveassign"):
            st = c.state(); a = S.pre(st, "a", sc); st0 = st.clone()
            for o in c.call(st, S.sfx + "_" + f, [a.ptr, a.ptr]): S.post(o, a); retself(c, o, a); srcsame(c, S, o, st0, a); S.own(o, a)
def resizes(c, e, N):
    S = Small(c, e, N)
    for case in S.cases():
        for f in ("resize", "reserve"):
            st = c.state(); a = S.pre(st, "a", case); n = c.nonneg(st, "n")
            for o in c.call(st, S.sfx + "_" + f, [a.ptr, n], abort_ok=lambda o: and_(gt(n, a.cap), big(n, e.es))):
                b = S.post(o, a)
                if b is None: continue
                c.post(o, eq(b.size, n if f == "resize" else a.size), "post:size", "size"); c.post(o, eq(b.cap, ite(gt(n, a.cap), n, a.cap)), "post:capacity", "capacity grows only when needed")
                S.check_seq(o, b, (ite(lt(n, a.size), n, a.size) if f == "resize" else a.size), lambda q, k: S.val0(a, q, k), "post:survivors")
                if f == "resize" and e.opaque: S.check_seq(o, b, n, lambda q, k: DEFVAL, "post:new-elements", lo=a.size)
                S.own(o, b)
def appends(c, e, N):
    S = Small(c, e, N)
    for case in S.cases():
        for f in ("append", "appendvar"):
            for al in ("ext", "alias"):
                st = c.state(); a = S.pre(st, "a", case)
                if al == "ext": x, v = elemblock(c, st, e)
                else: j = c.nonneg(st, "j"); st.assume(lt(j, a.size)); x = Ptr(a.data.blk, add(a.data.off, scale(j, e.es)), e.es); v = S.val0(a, st, j)
                st0 = st.clone()
                for o in c.call(st, S.sfx + "_" + f, [a.ptr, x], abort_ok=lambda o: big(add(scale(a.size, 2), ONE), e.es)):
                    b = S.post(o, a)
                    if b is None: continue
                    c.post(o, eq(b.size, add(a.size, ONE)), "post:size", "size grows by one"); c.post(o, implies(lt(a.size, a.cap), eq(b.cap, a.cap)), "post:capacity", "no reallocation while there is room")
                    S.check_seq(o, b, a.size, lambda q, k: S.val0(a, q, k), "post:survivors"); c.post(o, eq(S.value(o, b, a.size), v), "post:appended", "the appended value is last"); S.own(o, b)
                    if al == "ext": c.unchanged(o, st0, x.blk)
def dtor(c, e, N):
    S = Small(c, e, N)
    for case in S.cases():
        st = c.state(); a = S.pre(st, "a", case)
        for o in c.call(st, S.sfx + "_dtor", [a.ptr]):
            S.own(o)
            if e.opaque:
                for k in range(N): c.post(o, not_(alive(c, o, e, Ptr(a.obj, const(S.o_small)), const(k))), "life:destroyed", "every element is destroyed")
def observers(c, e, N):
    S = Small(c, e, N)
    for case in S.cases():
        for f in ("size", "capacity", "data", "Data"):
            st = c.state(); a = S.pre(st, "a", case); st0 = st.clone()
            for o in c.call(st, S.sfx + "_" + f, [a.ptr]):
                if f in ("size", "capacity"): c.post(o, eq(o.val, a.size if f == "size" else a.cap), "post:" + f, f)
                else: ptr_is(c, o, o.val, a.data, "post:" + f)
                srcsame(c, S, o, st0, a)
def accesses_of(c, S, pre, cases, back=True, zero=False):
    e = S.e
    for case in cases:
        for f in ("at", "At"):
            st = c.state(); a = pre(st, "a", case); i = c.int(st, "i"); st0 = st.clone(); ok = and_(le(ZERO, i), lt(i, a.size))
            for o in c.call(st, S.sfx + "_" + f, [a.ptr, i], abort_ok=lambda o: not_(ok), expect_return=not zero):
                c.post(o, ok, "bounds:abort-out-of-range", "returned for an index out of range"); addr_is(c, o, o.val, Ptr(a.data.blk, add(a.data.off, scale(i, e.es))), a.data.off, scale(a.size, e.es)); srcsame(c, S, o, st0, a)
        for f in ("back", "Back") if back else ():
            st = c.state(); a = pre(st, "a", case); st0 = st.clone(); ok = gt(a.size, ZERO)
            for o in c.call(st, S.sfx + "_" + f, [a.ptr], abort_ok=lambda o: not_(ok)):
                c.post(o, ok, "bounds:abort-out-of-range", "returned on an empty array"); addr_is(c, o, o.val, Ptr(a.data.blk, add(a.data.off, scale(sub(a.size, ONE), e.es))), a.data.off, scale(a.size, e.es)); srcsame(c, S, o, st0, a)
def views_of(c, S, pre, cases, zero=False):
    e = S.e
    for case in cases:
        for f in ("view", "edit"):
            st = c.state(); a = pre(st, "a", case); r = c.obj(st, "r", 24); st0 = st.clone()
            for o in c.call(st, S.sfx + "_" + f, [Ptr(r, ZERO), a.ptr]):
                d, z_ = view_at(c, o, r); ptr_is(c, o, d, a.data, "post:view-begin"); ptr_is(c, o, z_, Ptr(a.data.blk, add(a.data.off, scale(a.size, e.es))), "post:view-end"); srcsame(c, S, o, st0, a)
        for f in ("viewr", "editr"):
            st = c.state(); a = pre(st, "a", case); r = c.obj(st, "r", 24); i, j = c.int(st, "b"), c.int(st, "e"); st0 = st.clone(); legal = and_(le(ZERO, i), le(i, j), le(j, a.size))
            for o in c.call(st, S.sfx + "_" + f, [Ptr(r, ZERO), a.ptr, i, j], abort_ok=lambda o: or_(not_(legal), eq(i, j)), expect_return=not zero):
                c.post(o, legal, "bounds:abort-out-of-range", "range leaves the array"); d, z_ = view_at(c, o, r)
                ptr_is(c, o, d, Ptr(a.data.blk, add(a.data.off, scale(i, e.es))), "post:view-begin"); ptr_is(c, o, z_, Ptr(a.data.blk, add(a.data.off, scale(j, e.es))), "post:view-end"); srcsame(c, S, o, st0, a)
def accesses(c, e, N): S = Small(c, e, N); accesses_of(c, S, S.pre, S.cases())
def views(c, e, N): S = Small(c, e, N); views_of(c, S, S.pre, S.cases())

class Static:
    def __init__(s, c, e, n): s.c, s.e, s.n = c, e, n; s.sfx = "T%d%s" % (n, e.sfx); s.sizeof, s.o_data, s.o_size, _ = c.tu.K(s.sfx)
    def pre(s, st, name, case=None, live=True):
        c, e = s.c, s.e; a = SA(); a.obj = c.ex.alloc(st, name, "obj", const(s.sizeof), 8); a.ptr = Ptr(a.obj, ZERO); a.base = None; a.size = const(s.n); a.data = Ptr(a.obj, const(s.o_data), e.es)
        r = Region(s.o_data, const(max(s.n, 1) * e.es), e.es, Base(fresh_name(name), {LIVE: TRUE if live else FALSE} if e.opaque else {})); r.fields[e.field] = True
        if e.opaque: r.fields[LIVE] = True
        st.mem[a.obj.id].regions.append(r); a.content0 = r.content
        if live: c.setcells(st, a.obj, {(s.o_size, 8): const(s.n)})
        return a
    def val0(s, a, st, i): return s.c.ex.rdc(st, a.content0, s.e.field, i)
    def check(s, o, a, spec, live=True):
        c, e = s.c, s.e
        for k in range(s.n):
            if e.opaque: c.post(o, alive(c, o, e, a.data, const(k)) if live else not_(alive(c, o, e, a.data, const(k))), "life:live", "element %d" % k)
            if spec: c.post(o, eq(read(c, o, e, a.data, const(k)), spec(o, const(k))), "post:elements", "element %d" % k)
def static(c, e, N):
    S = Static(c, e, N)
    for f in ("ctor0", "ctorx", "ctorlist", "ctorcopy", "assign"):
        st = c.state(); a = S.pre(st, "a", live=f == "assign"); args = [a.ptr]; ok = TRUE; spec = None; fr = []
        if f == "ctor0": spec = (lambda q, k: DEFVAL) if e.opaque else None
        if f == "ctorx": x, v = elemblock(c, st, e); args.append(x); spec = lambda q, k: v; fr = [x.blk]
        if f == "ctorlist":
            n = c.nonneg(st, "n"); nb = c.nonneg(st, "lbytes"); st.assume(le(scale(n, e.es), nb), lt(nb, const(MAXALLOC))); src = heaparray(c, st, e, "list", nb, ZERO, n, kind="ro"); ok = eq(n, const(N))
            l = c.obj(st, "list", 16); c.setcells(st, l, {(0, 8): Ptr(src, ZERO, e.es), (8, 8): n}); args = [a.ptr, Ptr(l, ZERO)]; s0 = st.mem[src.id].regions[0].content; fr = [src]
            spec = lambda q, k: c.ex.rdc(q, s0, e.field, k)
        if f in ("ctorcopy", "assign"): v_ = S.pre(st, "v"); args.append(v_.ptr); spec = lambda q, k: S.val0(v_, q, k); fr = [v_.obj]
        st0 = st.clone()
        for o in c.call(st, S.sfx + "_" + f, args, abort_ok=lambda o: not_(ok)):
            c.post(o, ok, "post:length", "a list of another length is refused"); S.check(o, a, spec); c.noleak(o, [])
            for b in fr: c.unchanged(o, st0, b)
    st = c.state(); a = S.pre(st, "a")
    for o in c.call(st, S.sfx + "_dtor", [a.ptr]): S.check(o, a, None, False)
    for f in ("size", "data", "Data"):
        st = c.state(); a = S.pre(st, "a"); st0 = st.clone()
        for o in c.call(st, S.sfx + "_" + f, [a.ptr]):
            if f == "size": c.post(o, eq(o.val, const(N)), "post:size", "size")
            else: ptr_is(c, o, o.val, a.data, "post:data")
            c.unchanged(o, st0, a.obj)
def saccesses(c, e, N): S = Static(c, e, N); accesses_of(c, S, S.pre, [None], back=N > 0, zero=N == 0)
def sviews(c, e, N): S = Static(c, e, N); views_of(c, S, S.pre, [None], zero=N == 0)

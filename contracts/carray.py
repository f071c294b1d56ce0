"""Contracts of il::Array<T>, il::ArrayView<T>, il::ArrayEdit<T> for a trivial element type (double) and for an arbitrary
class type (Obj, known only by the contracts of its special members)."""
from lib import *

class ArrState:
    """abstract state of one il::Array in a symbolic state"""
    pass

class ArrayClass:
    def __init__(s, c, e):
        s.c, s.e = c, e; s.sfx = "A" + e.sfx
        k = c.tu.K(s.sfx)
        s.sizeof, s.o_data, s.o_size, s.o_cap, s.o_al, s.o_r, s.o_mod, s.o_shift = k[:8]
    def cases(s, aligned=None):
        r = ["null", "heap"]
        if not s.e.opaque and aligned is not False: r.append("aligned")
        return r
    def pre(s, st, name, case, kind="obj"):
        """allocate an il::Array satisfying the representation invariant"""
        c, e = s.c, s.e
        a = ArrState(); a.cls = s
        a.obj = c.ex.alloc(st, name, "obj", const(s.sizeof), 8); a.ptr = Ptr(a.obj, ZERO); a.case = case
        z = lambda o: (o, 2)
        if case == "null":
            a.size = a.cap = ZERO; a.data = NULL; a.base = None; a.al = a.r = a.mod = a.shift = ZERO
            cells = {(s.o_data, 8): NULL, (s.o_size, 8): NULL, (s.o_cap, 8): NULL}
        else:
            a.size = c.nonneg(st, name + ".size"); a.cap = c.nonneg(st, name + ".cap"); slack = c.nonneg(st, name + ".slack")
            st.assume(le(a.size, a.cap))
            if case == "aligned":
                m, r, al = (c.int(st, name + x, 64) for x in (".mod", ".r", ".al"))
                sh = c.nonneg(st, name + ".shift")
                st.assume(ge(m, ONE), le(scale(m, e.align), const(32767)), ge(r, ZERO), lt(r, m), ge(al, ONE), le(al, m), lt(sh, m))
                a.mod, a.r, a.al, a.shift = scale(m, e.align), scale(r, e.align), scale(al, e.align), sh
                st.assume(eq(modt(a.mod, a.al), ZERO), eq(modt(a.r, a.al), ZERO))
            else: a.al = a.r = a.mod = a.shift = ZERO
            nb = add(scale(add(a.shift, a.cap), e.es), slack)
            st.assume(lt(nb, const(MAXALLOC)))
            a.base = heaparray(c, st, e, name + ".data", nb, ZERO, a.size)
            c.ex.addrfacts(st, a.base)
            a.data = Ptr(a.base, scale(a.shift, e.es), e.es)
            if case == "aligned": st.assume(eq(modt(add(a.base.addr, scale(a.shift, e.es)), a.mod), a.r))
            p = lambda n: Ptr(a.base, add(a.data.off, scale(n, e.es)), e.es)
            cells = {(s.o_data, 8): a.data, (s.o_size, 8): p(a.size), (s.o_cap, 8): p(a.cap)}
        cells.update({z(s.o_al): a.al, z(s.o_r): a.r, z(s.o_mod): a.mod, z(s.o_shift): a.shift})
        c.setcells(st, a.obj, cells)
        a.content0 = None if a.base is None else st.mem[a.base.id].regions[0].content
        a.st0 = st
        return a
    def raw(s, st, name="a"):
        a = ArrState(); a.cls = s; a.obj = s.c.ex.alloc(st, name, "obj", const(s.sizeof), 8); a.ptr = Ptr(a.obj, ZERO)
        return a
    def val0(s, a, st, i):
        """element i of the array in its pre-state (i in range)"""
        return s.c.ex.rdc(st, a.content0, s.e.field, add(a.shift, i))
    def post(s, o, a, what="inv"):
        """check the representation invariant of the object a.obj in state o and return its abstract state"""
        c, e = s.c, s.e
        b = ArrState(); b.cls = s; b.obj = a.obj; b.ptr = a.ptr
        cells = o.mem[a.obj.id].cells
        try: d, z_, p = (c.ex.load_nc(o, Ptr(a.obj, const(x)), llir.PTR, 8) for x in (s.o_data, s.o_size, s.o_cap))
        except DeadPath: return None
        sh = lambda x: c.ex.load_nc(o, Ptr(a.obj, const(x)), llir.IntT(16), 2)
        b.al, b.r, b.mod, b.shift = (sh(x) for x in (s.o_al, s.o_r, s.o_mod, s.o_shift))
        b.data = d
        if d.blk is None:
            ok = d.off is ZERO and z_.blk is None and p.blk is None
            if not ok: c.fail(o, "inv:pointers", "null data with non-null size or capacity pointer")
            b.size = div(sub(z_.off, d.off), e.es); b.cap = div(sub(p.off, d.off), e.es); b.base = None
            c.post(o, and_(eq(z_.off, ZERO), eq(p.off, ZERO), eq(b.shift, ZERO)), "inv:null-empty", "null data means empty")
            c.post(o, implies(gt(b.mod, ZERO), eq(b.r, ZERO)), "inv:null-empty", "null data cannot satisfy a nonzero residue")
            return b
        if z_.blk is not d.blk or p.blk is not d.blk: c.fail(o, "inv:pointers", "size/capacity pointers leave the data block"); return None
        b.base = d.blk
        if not o.mem[d.blk.id].alive: c.fail(o, "own:dangling", "data points to released storage"); return None
        n, m = sub(z_.off, d.off), sub(p.off, d.off)
        c.post(o, and_(eq(mod(n, e.es), ZERO), eq(mod(m, e.es), ZERO)), "inv:pointers", "size and capacity are whole elements")
        b.size, b.cap = div(n, e.es), div(m, e.es)
        c.post(o, and_(le(ZERO, b.size), le(b.size, b.cap)), "inv:size<=capacity", "0 <= size <= capacity")
        c.post(o, and_(eq(d.off, scale(b.shift, e.es)), ge(b.shift, ZERO)), "inv:base", "data - shift is the allocated pointer")
        c.post(o, le(add(d.off, scale(b.cap, e.es)), d.blk.size), "inv:storage", "the capacity lies inside the storage")
        if e.opaque:
            q = o.clone(); k = fresh("k"); q.assume(le(ZERO, k), lt(scale(k, e.es), d.blk.size))
            pt = Ptr(d.blk, scale(k, e.es), e.es)
            l = alive(c, q, e, Ptr(d.blk, ZERO), k)
            c.post(q, iff(l, and_(le(b.shift, k), lt(k, add(b.shift, b.size)))), "life:live-iff-below-size", "exactly the elements below size are alive")
            c.post(o, eq(b.mod, ZERO), "inv:align", "no alignment for class types")
        q = o.clone()
        if q.mem and c.ex.known(q, eq(b.mod, ZERO)): c.post(q, and_(eq(b.al, ZERO), eq(b.r, ZERO), eq(b.shift, ZERO)), "align:fields", "unaligned arrays have no shift")
        else:
            c.post(q, and_(gt(b.mod, ZERO), ge(b.r, ZERO), lt(b.r, b.mod), gt(b.al, ZERO), le(b.mod, const(32767))), "align:fields", "alignment fields are legal")
            c.ex.addrfacts(q, d.blk)
            c.post(q, eq(modt(add(d.blk.addr, d.off), b.mod), b.r), "align:residue", "first element has the requested residue")
        return b
    def value(s, o, b, k): return read(s.c, o, s.e, b.data, k)
    def check_seq(s, o, b, n, spec, what="post:elements", lo=ZERO):
        """for all lo<=k<n: element k equals spec(k)"""
        q = o.clone(); k = s.c.skolem(q, lo, n)
        if s.c.ex.p.check(q.pc, [TRUE], 2000) == "unsat": return
        if b.data.blk is None: s.c.fail(o, what, "elements expected in a null array"); return
        x = s.value(q, b, k); y = spec(q, k)
        s.c.post(q, eq(x, y), what, "element %s" % show(k))

def big(n, es): return ge(scale(n, es), const(MAXALLOC))

def alias_cases(A, case): return ["ext"] if case == "null" else ["ext", "alias"]
def argument(c, st, A, a, alias, rv=False):
    """an element argument: external object, or element j of the array itself. returns (ptr, value, j)"""
    if alias == "ext":
        p, v = elemblock(c, st, A.e, "x", "obj" if rv else "obj"); return p, v, None
    j = c.nonneg(st, "j"); st.assume(lt(j, a.size))
    p = Ptr(a.base, add(a.data.off, scale(j, A.e.es)), A.e.es)
    return p, A.val0(a, st, j), j

def defval(e): return DEFVAL if e.opaque else None

# ------------------------------------------------------------------ contracts
def ctors(c, e):
    A = ArrayClass(c, e)
    st = c.state(); a = A.raw(st)
    for o in c.call(st, A.sfx + "_ctor0", [a.ptr]):
        b = A.post(o, a); c.post(o, and_(eq(b.size, ZERO), eq(b.cap, ZERO)), "post:size", "empty"); c.noleak(o, [b.data])
    for f in ("ctorn", "ctornx", "ctornemp", "ctorview"):
        st = c.state(); a = A.raw(st); n = c.nonneg(st, "n"); args = [a.ptr, n]; src = None
        if f == "ctorview":
            nb = c.nonneg(st, "vbytes"); st.assume(le(scale(n, e.es), nb), lt(nb, const(MAXALLOC)))
            src = heaparray(c, st, e, "view", nb, ZERO, n, kind="ro"); args = [a.ptr, Ptr(src, ZERO, e.es), n]
            spec = lambda q, k, s0=st.mem[src.id].regions[0].content: c.ex.rdc(q, s0, e.field, k)
        elif f == "ctorn": spec = (lambda q, k: DEFVAL) if e.opaque else None
        else:
            x, v = elemblock(c, st, e); args.append(x); spec = lambda q, k, v=v: v
        st0 = st
        for o in c.call(st, A.sfx + "_" + f, args, abort_ok=lambda o: big(n, e.es)):
            b = A.post(o, a)
            if b is None: continue
            c.post(o, and_(eq(b.size, n), eq(b.cap, n)), "post:size", "size and capacity are n"); c.noleak(o, [b.data])
            if spec: A.check_seq(o, b, n, spec)
            c.post(o, eq(b.mod, ZERO), "align:none", "no alignment requested")
            if src: c.unchanged(o, st0, src)
            elif len(args) > 2: c.unchanged(o, st0, args[2].blk)
    st = c.state(); a = A.raw(st); n = c.nonneg(st, "n")
    nb = c.nonneg(st, "lbytes"); st.assume(le(scale(n, e.es), nb), lt(nb, const(MAXALLOC)))
    src = heaparray(c, st, e, "list", nb, ZERO, n, kind="ro")
    lo = c.obj(st, "list", 16); c.setcells(st, lo, {(0, 8): Ptr(src, ZERO, e.es), (8, 8): n}); st0 = st
    s0 = st.mem[src.id].regions[0].content
    for o in c.call(st, A.sfx + "_ctorlist", [a.ptr, Ptr(lo, ZERO)], abort_ok=lambda o: big(n, e.es)):
        b = A.post(o, a)
        if b is None: continue
        c.post(o, and_(eq(b.size, n), eq(b.cap, n)), "post:size", "size and capacity are the list length"); c.noleak(o, [b.data])
        A.check_seq(o, b, n, lambda q, k: c.ex.rdc(q, s0, e.field, k)); c.unchanged(o, st0, src)

def aligned_ctors(c, e):
    A = ArrayClass(c, e)
    for f in ("ctornal", "ctornalr", "ctornxal", "ctornxalr"):
        st = c.state(); a = A.raw(st); n = c.nonneg(st, "n")
        al, m, r = (c.int(st, x) for x in ("al", "m", "r"))
        st.assume(ge(al, ONE), ge(m, ONE), ge(r, ZERO), lt(r, m), le(scale(m, e.align), const(32767)), le(al, m))
        ual, um, ur = scale(al, e.align), scale(m, e.align), scale(r, e.align)
        st.assume(eq(modt(um, ual), ZERO), eq(modt(ur, ual), ZERO))
        args = [a.ptr, n]; v = None
        if "x" in f: x, v = elemblock(c, st, e); args.append(x)
        if f.endswith("r"): args += [ual, ur, um]
        else: args += [ual]; um, ur = ual, ZERO
        for o in c.call(st, A.sfx + "_" + f, args, abort_ok=lambda o: or_(big(add(n, const(40000)), e.es), lt(ual, const(1)))):
            b = A.post(o, a)
            if b is None: continue
            c.post(o, and_(eq(b.size, n), eq(b.cap, n)), "post:size", "size and capacity are n"); c.noleak(o, [b.data])
            c.post(o, implies(gt(n, ZERO), and_(eq(b.mod, um), eq(b.r, ur), eq(b.al, ual))), "align:recorded", "the requested alignment is recorded")
            if v is not None: A.check_seq(o, b, n, lambda q, k: v)

def copies(c, e):
    A = ArrayClass(c, e)
    for sc in A.cases():
        st = c.state(); v = A.pre(st, "v", sc); a = A.raw(st); st0 = st.clone()
        for o in c.call(st, A.sfx + "_ctorcopy", [a.ptr, v.ptr], abort_ok=lambda o: FALSE if sc == "null" else big(add(v.size, const(40000)), e.es)):
            b = A.post(o, a)
            if b is None: continue
            c.post(o, and_(eq(b.size, v.size), eq(b.cap, v.size)), "post:size", "size and capacity of the copy")
            c.post(o, and_(eq(b.mod, v.mod), eq(b.r, v.r), eq(b.al, v.al)), "align:kept", "the copy keeps the alignment")
            if sc != "null": A.check_seq(o, b, v.size, lambda q, k: A.val0(v, q, k)); c.unchanged(o, st0, v.base)
            c.unchanged(o, st0, v.obj); c.noleak(o, [b.data, v.data])
        st = c.state(); v = A.pre(st, "v", sc); a = A.raw(st); st0 = st.clone()
        for o in c.call(st, A.sfx + "_ctormove", [a.ptr, v.ptr]):
            moved_post(c, A, o, a, v, st0)
    for dc in A.cases():
        for sc in A.cases():
            st = c.state(); a = A.pre(st, "a", dc); v = A.pre(st, "v", sc); st0 = st.clone()
            for o in c.call(st, A.sfx + "_assign", [a.ptr, v.ptr], abort_ok=lambda o: big(add(v.size, const(40000)), e.es)):
                b = A.post(o, a)
                if b is None: continue
                same = and_(eq(a.mod, v.mod), eq(a.r, v.r), eq(a.al, v.al))
                c.post(o, eq(b.size, v.size), "post:size", "size of the source")
                c.post(o, implies(same, eq(b.cap, ite(gt(v.size, a.cap), v.size, a.cap))), "post:capacity", "capacity kept when enough, else the source size")
                c.post(o, and_(eq(b.mod, v.mod), eq(b.r, v.r), eq(b.al, v.al)), "align:kept", "alignment of the source")
                if sc != "null": A.check_seq(o, b, v.size, lambda q, k: A.val0(v, q, k)); c.unchanged(o, st0, v.base)
                c.unchanged(o, st0, v.obj); c.noleak(o, [b.data, v.data]); retself(c, o, a)
            st = c.state(); a = A.pre(st, "a", dc); v = A.pre(st, "v", sc); st0 = st.clone()
            for o in c.call(st, A.sfx + "_moveassign", [a.ptr, v.ptr]):
                moved_post(c, A, o, a, v, st0); retself(c, o, a)
        for f in ("assign", "moveassign"):
            st = c.state(); a = A.pre(st, "a", dc); st0 = st.clone()
            for o in c.call(st, A.sfx + "_" + f, [a.ptr, a.ptr]):
                b = A.post(o, a); retself(c, o, a); c.unchanged(o, st0, a.obj)
                if a.base: c.unchanged(o, st0, a.base)
                c.noleak(o, [a.data])
def retself(c, o, a):
    if not (isinstance(o.val, Ptr) and o.val.blk is a.obj and o.val.off is ZERO): c.fail(o, "post:returns-this", "operator= returns *this")
def moved_post(c, A, o, a, v, st0):
    b = A.post(o, a)
    if b is None: return
    c.post(o, and_(eq(b.size, v.size), eq(b.cap, v.cap), eq(b.shift, v.shift)), "post:size", "size and capacity are moved")
    c.post(o, and_(eq(b.mod, v.mod), eq(b.r, v.r), eq(b.al, v.al)), "align:kept", "alignment is moved")
    w = A.post(o, v)
    if w is not None: c.post(o, and_(eq(w.size, ZERO), eq(w.cap, ZERO)), "post:source-empty", "the moved-from array is empty")
    if v.base is not None:
        A.check_seq(o, b, v.size, lambda q, k: A.val0(v, q, k))
    c.noleak(o, [b.data] + ([w.data] if w is not None else []))

def resizes(c, e):
    A = ArrayClass(c, e)
    for case in A.cases():
        for f in ("resize", "resizex", "resizeemp"):
            for al in ([None] if f == "resize" else alias_cases(A, case)):
                st = c.state(); a = A.pre(st, "a", case); n = c.nonneg(st, "n"); args = [a.ptr, n]; v = defval(e)
                if al: x, v, j = argument(c, st, A, a, al); args.append(x)
                st0 = st.clone()
                for o in c.call(st, A.sfx + "_" + f, args, abort_ok=lambda o: and_(gt(n, a.cap), big(add(n, const(40000)), e.es))):
                    b = A.post(o, a)
                    if b is None: continue
                    c.post(o, eq(b.size, n), "post:size", "new size"); c.post(o, eq(b.cap, ite(gt(n, a.cap), n, a.cap)), "post:capacity", "capacity grows to the size only when needed")
                    c.post(o, and_(eq(b.mod, a.mod), eq(b.r, a.r), eq(b.al, a.al)), "align:kept", "alignment kept")
                    if a.base is not None:
                        A.check_seq(o, b, ite(lt(n, a.size), n, a.size), lambda q, k: A.val0(a, q, k), "post:survivors")
                    if v is not None: A.check_seq(o, b, n, lambda q, k: v, "post:new-elements", lo=a.size)
                    c.noleak(o, [b.data])
                    if al == "ext": c.unchanged(o, st0, x.blk)
        st = c.state(); a = A.pre(st, "a", case); n = c.nonneg(st, "n")
        for o in c.call(st, A.sfx + "_reserve", [a.ptr, n], abort_ok=lambda o: and_(gt(n, a.cap), big(add(n, const(40000)), e.es))):
            b = A.post(o, a)
            if b is None: continue
            c.post(o, eq(b.size, a.size), "post:size", "size unchanged"); c.post(o, eq(b.cap, ite(gt(n, a.cap), n, a.cap)), "post:capacity", "capacity at least n, otherwise unchanged")
            c.post(o, and_(eq(b.mod, a.mod), eq(b.r, a.r), eq(b.al, a.al)), "align:kept", "alignment kept")
            if a.base is not None: A.check_seq(o, b, a.size, lambda q, k: A.val0(a, q, k), "post:survivors")
            c.noleak(o, [b.data])

def appends(c, e):
    A = ArrayClass(c, e)
    for case in A.cases():
        for f in ("append", "appendmove", "appendemp"):
            for al in alias_cases(A, case):
                st = c.state(); a = A.pre(st, "a", case); x, v, j = argument(c, st, A, a, al, f == "appendmove"); st0 = st.clone()
                for o in c.call(st, A.sfx + "_" + f, [a.ptr, x], abort_ok=lambda o: big(add(scale(a.size, 2), const(40000)), e.es)):
                    b = A.post(o, a)
                    if b is None: continue
                    c.post(o, eq(b.size, add(a.size, ONE)), "post:size", "size grows by one")
                    c.post(o, implies(lt(a.size, a.cap), eq(b.cap, a.cap)), "post:capacity", "no reallocation while there is room")
                    c.post(o, and_(eq(b.mod, a.mod), eq(b.r, a.r), eq(b.al, a.al)), "align:kept", "alignment kept")
                    if a.base is not None:
                        if f == "appendmove" and al == "alias" and e.opaque:
                            A.check_seq(o, b, a.size, lambda q, k: ite(eq(k, j), moved(A.val0(a, q, k)), A.val0(a, q, k)), "post:survivors")
                        else: A.check_seq(o, b, a.size, lambda q, k: A.val0(a, q, k), "post:survivors")
                    if b.data.blk is not None: c.post(o, eq(A.value(o, b, a.size), v), "post:appended", "the appended value is last")
                    c.noleak(o, [b.data])
                    if al == "ext" and f != "appendmove": c.unchanged(o, st0, x.blk)
        for al in alias_cases(A, case):
            st = c.state(); a = A.pre(st, "a", case); x, v, j = argument(c, st, A, a, al); st0 = st.clone()
            for o in c.call(st, A.sfx + "_set", [a.ptr, x]):
                b = A.post(o, a)
                if b is None: continue
                c.post(o, and_(eq(b.size, a.size), eq(b.cap, a.cap)), "post:size", "size and capacity unchanged")
                if a.base is not None: A.check_seq(o, b, a.size, lambda q, k: v, "post:new-elements")
                c.noleak(o, [b.data])

def dtor(c, e):
    A = ArrayClass(c, e)
    for case in A.cases():
        st = c.state(); a = A.pre(st, "a", case)
        for o in c.call(st, A.sfx + "_dtor", [a.ptr]): c.noleak(o, [])

def observers(c, e):
    A = ArrayClass(c, e)
    for case in A.cases():
        for f in ("size", "capacity", "alignment"):
            st = c.state(); a = A.pre(st, "a", case); st0 = st.clone()
            for o in c.call(st, A.sfx + "_" + f, [a.ptr]):
                c.post(o, eq(o.val, {"size": a.size, "capacity": a.cap, "alignment": a.al}[f]), "post:" + f, f); c.unchanged(o, st0, a.obj)
        for f in ("data", "Data", "begin", "cbegin", "Begin", "end", "cend", "End"):
            st = c.state(); a = A.pre(st, "a", case); st0 = st.clone()
            for o in c.call(st, A.sfx + "_" + f, [a.ptr]):
                want = a.data if f.lower() in ("data", "begin", "cbegin") else (NULL if a.base is None else Ptr(a.base, add(a.data.off, scale(a.size, e.es))))
                ptr_is(c, o, o.val, want, "post:" + f); c.unchanged(o, st0, a.obj)


def accesses(c, e):
    """every index value: in range -> that element, otherwise abort; nothing is read or written on the way"""
    A = ArrayClass(c, e)
    for case in A.cases():
        for f in ("at", "At"):
            st = c.state(); a = A.pre(st, "a", case); i = c.int(st, "i"); st0 = st.clone()
            ok = and_(le(ZERO, i), lt(i, a.size))
            for o in c.call(st, A.sfx + "_" + f, [a.ptr, i], abort_ok=lambda o: not_(ok), expect_return=case != "null"):
                c.post(o, ok, "bounds:abort-out-of-range", "returned for an index out of range")
                if a.base is not None: addr_is(c, o, o.val, Ptr(a.base, add(a.data.off, scale(i, e.es))), a.data.off, scale(a.size, e.es))
                frame(c, o, st0, a)
        for f in ("back", "Back"):
            st = c.state(); a = A.pre(st, "a", case); st0 = st.clone(); ok = gt(a.size, ZERO)
            for o in c.call(st, A.sfx + "_" + f, [a.ptr], abort_ok=lambda o: not_(ok), expect_return=case != "null"):
                c.post(o, ok, "bounds:abort-out-of-range", "returned on an empty array")
                if a.base is not None: addr_is(c, o, o.val, Ptr(a.base, add(a.data.off, scale(sub(a.size, ONE), e.es))), a.data.off, scale(a.size, e.es))
                frame(c, o, st0, a)
def frame(c, o, st0, a):
    c.unchanged(o, st0, a.obj)
    if a.base is not None: c.unchanged(o, st0, a.base)

def view_at(c, o, r): return c.ex.load_nc(o, Ptr(r, ZERO), llir.PTR, 8), c.ex.load_nc(o, Ptr(r, const(8)), llir.PTR, 8)

def views(c, e):
    A = ArrayClass(c, e)
    for case in A.cases():
        for f in ("view", "edit"):
            st = c.state(); a = A.pre(st, "a", case); r = c.obj(st, "r", 24); st0 = st.clone()
            for o in c.call(st, A.sfx + "_" + f, [Ptr(r, ZERO), a.ptr]):
                d, z_ = view_at(c, o, r)
                ptr_is(c, o, d, a.data, "post:view-begin"); ptr_is(c, o, z_, NULL if a.base is None else Ptr(a.base, add(a.data.off, scale(a.size, e.es))), "post:view-end"); frame(c, o, st0, a)
        for f in ("viewr", "editr"):
            st = c.state(); a = A.pre(st, "a", case); r = c.obj(st, "r", 24); i, j = c.int(st, "b"), c.int(st, "e"); st0 = st.clone()
            legal = and_(le(ZERO, i), le(i, j), le(j, a.size))
            for o in c.call(st, A.sfx + "_" + f, [Ptr(r, ZERO), a.ptr, i, j], abort_ok=lambda o: or_(not_(legal), eq(i, j)), expect_return=case != "null"):
                c.post(o, legal, "bounds:abort-out-of-range", "range leaves the array")
                d, z_ = view_at(c, o, r)
                if a.base is not None:
                    ptr_is(c, o, d, Ptr(a.base, add(a.data.off, scale(i, e.es))), "post:view-begin"); ptr_is(c, o, z_, Ptr(a.base, add(a.data.off, scale(j, e.es))), "post:view-end")
                frame(c, o, st0, a)

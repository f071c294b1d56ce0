"""Contracts of il::Deque<T>: a ring over an il::Array<T>; abstract state = the sequence from front to back."""
from lib import *
from carray import ArrayClass, moved_post, retself
class DequeClass(ArrayClass):
    def __init__(s, c, e):
        ArrayClass.__init__(s, c, e); s.qx = "Q" + e.sfx; s.asize = s.sizeof; s.qsize, off, s.o_f, s.o_b = c.tu.K(s.qx); assert off == 0
        s.sizeof = s.qsize
    def preq(s, st, name, case):
        """case = (storage null|heap, empty|used)"""
        q = s.pre(st, name, case[0]); c = s.c
        if case[1] == "empty": q.f = q.b = const(-1); q.n = ZERO
        else:
            q.f, q.b = c.nonneg(st, name + ".front"), c.nonneg(st, name + ".back"); st.assume(lt(q.f, q.size), lt(q.b, q.size))
            q.n = add(sub(q.b, q.f), ONE, ite(le(q.f, q.b), ZERO, q.size))
        c.setcells(st, q.obj, {(s.o_f, 8): q.f, (s.o_b, 8): q.b}); return q
    def slot(s, q, i): j = add(q.f, i); return ite(lt(j, q.size), j, sub(j, q.size))
    def postq(s, o, q):
        r = s.post(o, q)
        if r is None: return None
        c = s.c; r.f, r.b = (c.ex.load_nc(o, Ptr(q.obj, const(x)), llir.IntT(64), 8) for x in (s.o_f, s.o_b))
        used = and_(le(ZERO, r.f), lt(r.f, r.size), le(ZERO, r.b), lt(r.b, r.size)); none = and_(eq(r.f, const(-1)), eq(r.b, const(-1)))
        c.post(o, or_(used, none), "inv:ring", "front and back are both inside the storage, or both -1"); o.assume(or_(used, none))
        r.n = ite(lt(r.f, ZERO), ZERO, add(sub(r.b, r.f), ONE, ite(le(r.f, r.b), ZERO, r.size))); return r
    def at0(s, q, st, i): return s.val0(q, st, s.slot(q, i))
    def at(s, o, q, i): return s.value(o, q, s.slot(q, i))
    def seq(s, o, r, n, spec, what="post:elements"):
        q = o.clone(); i = s.c.skolem(q, ZERO, n)
        if s.c.ex.p.check(q.pc, [TRUE], 2000) == "unsat": return
        if r.data.blk is None: s.c.fail(o, what, "elements expected in a deque without storage"); return
        s.c.post(q, eq(s.at(q, r, i), spec(q, i)), what, "element %s" % show(i))
CASES = [("null", "empty"), ("heap", "empty"), ("heap", "used")]
def ctors(c, e):
    Q = DequeClass(c, e)
    for f in ("ctor0", "ctorn"):
        st = c.state(); q = Q.raw(st); n = ZERO; args = [q.ptr]
        if f == "ctorn": n = c.nonneg(st, "n"); args.append(n)
        for o in c.call(st, Q.qx + "_" + f, args, abort_ok=lambda o: big_(n, e)):
            r = Q.postq(o, q)
            if r is not None: c.post(o, and_(eq(r.n, ZERO), eq(r.size, n)), "post:size", "empty, with the requested room"); c.noleak(o, [r.data])
    for case in CASES:
        st = c.state(); v = Q.preq(st, "v", case); q = Q.raw(st); st0 = st.clone()
        for o in c.call(st, Q.qx + "_ctorcopy", [q.ptr, v.ptr], abort_ok=lambda o: big_(v.size, e)): same(c, Q, o, q, v, st0)
        for dcase in CASES:
            st = c.state(); q = Q.preq(st, "q", dcase); v = Q.preq(st, "v", case); st0 = st.clone()
            for o in c.call(st, Q.qx + "_assign", [q.ptr, v.ptr], abort_ok=lambda o: big_(v.size, e)): same(c, Q, o, q, v, st0)
        st = c.state(); q = Q.preq(st, "q", case)
        for o in c.call(st, Q.qx + "_dtor", [q.ptr]): c.noleak(o, [])
def same(c, Q, o, q, v, st0):
    r = Q.postq(o, q)
    if r is None: return
    c.post(o, eq(r.n, v.n), "post:size", "size of the source")
    if v.base is not None: Q.seq(o, r, v.n, lambda s, i: Q.at0(v, s, i)); c.unchanged(o, st0, v.base)
    c.unchanged(o, st0, v.obj); c.noleak(o, [r.data, v.data])
def big_(n, e): return ge(scale(add(n, const(40000)), e.es), const(MAXALLOC))
def pushes(c, e):
    Q = DequeClass(c, e)
    for case in CASES:
        for f in ("pushfront", "pushfrontemp", "pushback", "pushbackemp"):
            for al in ("ext", "alias") if case[1] == "used" else ("ext",):
                st = c.state(); q = Q.preq(st, "q", case)
                if al == "ext": x, v = elemblock(c, st, e, "x")
                else: j = c.nonneg(st, "j"); st.assume(lt(j, q.n)); x = Ptr(q.base, add(q.data.off, scale(Q.slot(q, j), e.es)), e.es); v = Q.at0(q, st, j)
                st0 = st.clone()
                for o in c.call(st, Q.qx + "_" + f, [q.ptr, x], abort_ok=lambda o: eq(q.n, q.size), expect_return=case[0] != "null"):
                    c.post(o, lt(q.n, q.size), "post:full-aborts", "a full deque takes no element"); o.assume(lt(q.n, q.size))
                    r = Q.postq(o, q)
                    if r is None: continue
                    c.post(o, eq(r.size, q.size), "post:capacity", "the room stays"); c.post(o, eq(r.n, add(q.n, ONE)), "post:size", "one more element"); o.assume(eq(r.n, add(q.n, ONE)), eq(r.size, q.size)); c.noleak(o, [r.data])
                    d = ONE if f.startswith("pushfront") else ZERO
                    if q.base is not None: Q.seq(o, r, q.n, lambda s, i: Q.at0(q, s, i), "post:kept") if d is ZERO else kept(c, Q, o, r, q)
                    if r.base is not None: c.post(o, eq(Q.at(o, r, ZERO if d is ONE else q.n), v), "post:pushed", "the new element is at its end")
                    if al == "ext": c.unchanged(o, st0, x.blk)
def kept(c, Q, o, r, q):
    s = o.clone(); i = c.skolem(s, ZERO, q.n); c.post(s, eq(Q.at(s, r, add(i, ONE)), Q.at0(q, s, i)), "post:kept", "the others follow in order")
def pops(c, e):
    Q = DequeClass(c, e)
    for case in CASES:
        for f in ("popfront", "popback"):
            st = c.state(); q = Q.preq(st, "q", case); st0 = st.clone()
            for o in c.call(st, Q.qx + "_" + f, [q.ptr], abort_ok=lambda o: eq(q.n, ZERO), expect_return=case[1] == "used"):
                c.post(o, gt(q.n, ZERO), "post:empty-aborts", "nothing to pop"); o.assume(gt(q.n, ZERO)); r = Q.postq(o, q)
                if r is None: continue
                c.post(o, and_(eq(r.n, sub(q.n, ONE)), eq(r.size, q.size)), "post:size", "one element less"); o.assume(eq(r.n, sub(q.n, ONE)), eq(r.size, q.size)); c.noleak(o, [r.data])
                if q.base is not None: Q.seq(o, r, sub(q.n, ONE), lambda s, i: Q.at0(q, s, add(i, ONE) if f == "popfront" else i), "post:kept")
def observers(c, e):
    Q = DequeClass(c, e)
    for case in CASES:
        for f in ("size", "capacity", "front", "Front", "back", "Back"):
            st = c.state(); q = Q.preq(st, "q", case); st0 = st.clone(); num = f in ("size", "capacity")
            for o in c.call(st, Q.qx + "_" + f, [q.ptr], abort_ok=lambda o: FALSE if num else eq(q.n, ZERO), expect_return=num or case[1] == "used"):
                if num: c.post(o, eq(o.val, q.n if f == "size" else q.size), "post:" + f, f)
                else:
                    c.post(o, gt(q.n, ZERO), "post:empty-aborts", "no end of an empty deque")
                    if q.base is not None and case[1] == "used": addr_is(c, o, o.val, Ptr(q.base, add(q.data.off, scale(q.f if f.lower() == "front" else q.b, e.es))), q.data.off, scale(q.size, e.es))
                c.unchanged(o, st0, q.obj)
                if q.base is not None: c.unchanged(o, st0, q.base)
        st = c.state(); q = Q.preq(st, "q", case); n = c.nonneg(st, "n"); fresh_ = and_(eq(q.size, ZERO), eq(q.n, ZERO))
        for o in c.call(st, Q.qx + "_reserve", [q.ptr, n], abort_ok=lambda o: or_(not_(fresh_), big_(n, e)), expect_return=case[1] == "empty"):
            r = Q.postq(o, q)
            if r is None: continue
            c.post(o, eq(r.n, q.n), "post:size", "the number of elements stays"); c.post(o, ge(r.size, n), "post:capacity", "room for n elements"); c.noleak(o, [r.data])
            if q.base is not None: Q.seq(o, r, q.n, lambda s, i: Q.at0(q, s, i), "post:kept")

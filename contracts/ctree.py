"""Contracts of il::Tree<T, n>: an il::Array of nodes {value, flag}; abstract state = for every node its value and the set of
its children (bit 2 + i of the flag), with the invariant that the i-th child of a node with that bit lies inside the array."""
from lib import *
from carray import ArrayClass
from csmall import Small, SA
def bit(f, i): return eq(mod(div(f, 1 << i), 2), ONE)
class TreeClass(ArrayClass):
    def __init__(s, c, x):
        s.x = x; k = c.tu.K("T" + x); s.tsize, off, s.n, es, s.o_value, s.o_flag, s.fz = k; assert off == 0
        s.fflag = (s.o_flag, s.fz, "i")
        e = Elem("N" + x, es, VAL if x[0] == "o" else (s.o_value, 8, "d"), x[0] == "o", 8); s.T = "W" + x
        ArrayClass.__init__(s, c, e); c.ex.recstride = es; s.ve = OBJ if x[0] == "o" else DOUBLE
    def flag0(s, st, a, k, content=None):
        """flag of node k in the pre-state: a nonnegative number below 4 * 2^n"""
        v = s.c.ex.rdc(st, content if content is not None else a.content0, s.fflag, k); s.mask(st, v); return v
    def mask(s, st, v): st.assume(le(ZERO, v), lt(v, const(4 << s.n)))
    def pret(s, st, name="t", special=None):
        """a tree of at least one node; special = (index, flag) of the node looked at"""
        a = s.pre(st, name, "heap"); st.assume(ge(a.size, ONE), lt(a.size, const(1 << 50)))
        r = st.mem[a.base.id].regions[0]; r.fields[s.fflag] = True
        if special is not None: r.content = Store(r.content, s.fflag, special[0], special[1]); a.content0 = r.content
        return a
    def flag(s, o, a, k): return s.c.ex.load_nc(o, Ptr(a.data.blk, add(a.data.off, scale(k, s.e.es), const(s.o_flag)), s.fz), llir.IntT(8 * s.fz), s.fz)
    def ufl(s, o, a, k): return s.c.ex.uns(o, s.flag(o, a, k), 8 * s.fz)
    def spot(s, st, a, name="s"): k = s.c.nonneg(st, name); st.assume(lt(k, a.size)); return k
def T(c, x): return TreeClass(c, x)
def navigate(c, x):
    t = T(c, x); n = const(t.n)
    st = c.state(); a = t.pret(st); st0 = st.clone()
    for o in c.call(st, t.T + "_root", [a.ptr]): c.post(o, eq(o.val, ZERO), "post:root", "the root is node 0")
    for f in ("parent", "child", "roundtrip", "injective"):
        st = c.state(); s_ = c.nonneg(st, "s"); fl = c.int(st, "flag"); a = t.pret(st, special=(s_, fl)); t.mask(st, fl); st.assume(lt(s_, a.size)); st0 = st.clone(); i = c.nonneg(st, "i", n)
        if f == "parent":
            for o in c.call(st, t.T + "_parent", [a.ptr, s_], abort_ok=lambda o: eq(s_, ZERO)):
                c.post(o, gt(s_, ZERO), "post:root-aborts", "the root has no parent"); o.assume(gt(s_, ZERO))
                r = o.val; c.post(o, and_(le(ZERO, r), lt(r, s_), le(add(scale(r, t.n), ONE), s_), le(s_, add(scale(r, t.n), n))), "post:parent", "the node is one of the children positions of its parent"); c.unchanged(o, st0, a.obj)
            continue
        some = ge(fl, const(4))
        for o in c.call(st, t.T + "_child", [a.ptr, s_, i], abort_ok=lambda o: not_(some)):
            c.post(o, some, "post:leaf-aborts", "a leaf has no child"); o.assume(some); ch = o.val; c.unchanged(o, st0, a.obj); c.unchanged(o, st0, a.base)
            if f == "child":
                c.post(o, gt(ch, s_), "post:child", "a child comes after its parent")
                continue
            if f == "roundtrip":
                q = o.clone()
                for o2 in c.call(q, t.T + "_parent", [a.ptr, ch]): c.post(o2, eq(o2.val, s_), "post:parent-of-child", "the parent of the i-th child is the node")
            else:
                q = o.clone(); s2 = c.nonneg(q, "s2"); j = c.nonneg(q, "j", n); q.assume(lt(s2, a.size))
                for o2 in c.call(q, t.T + "_child", [a.ptr, s2, j], abort_ok=lambda o: TRUE):
                    c.post(o2, implies(or_(lt(s_, s2), lt(s2, s_), lt(i, j), lt(j, i)), or_(lt(ch, o2.val), lt(o2.val, ch))), "post:distinct-children", "different nodes or positions have different children")
def flags(c, x):
    t = T(c, x)
    for f in ("hasany", "has"):
        for i in range(t.n):
            st = c.state(); s_ = c.nonneg(st, "s"); fl = c.int(st, "flag"); a = t.pret(st, special=(s_, fl)); t.mask(st, fl); st.assume(lt(s_, a.size)); st0 = st.clone()
            for o in c.call(st, t.T + "_" + f, [a.ptr, s_] + ([const(i)] if f == "has" else [])):
                got = gt(c.ex.uns(o, o.val, 32), ZERO); want = bit(fl, 2 + i) if f == "has" else ge(fl, const(4))
                c.post(o, iff(got, want), "post:" + f, "exactly the children added are reported"); c.unchanged(o, st0, a.obj); c.unchanged(o, st0, a.base)
            if f == "hasany": break
        st = c.state(); a = t.pret(st); s_ = c.int(st, "s"); out = or_(lt(s_, ZERO), ge(s_, a.size)); st.assume(out)
        for o in c.call(st, t.T + "_" + f, [a.ptr, s_] + ([ZERO] if f == "has" else []), abort_ok=lambda o: TRUE, expect_return=False): c.post(o, FALSE, "post:outside-aborts", "no such node")
    for case in ("value", "set"):
        st = c.state(); a = t.pret(st); s_ = t.spot(st, a); k = c.nonneg(st, "other"); st.assume(lt(k, a.size)); fk = t.flag0(st, a, k); t.flag0(st, a, s_)
        args = [a.ptr, s_]; st0 = st.clone(); v = None
        if case == "set": p, v = elemblock(c, st, t.ve, "x"); args.append(p); st0 = st.clone()
        for o in c.call(st, t.T + "_" + case, args):
            if case == "value":
                ptr_is(c, o, o.val, Ptr(a.base, add(a.data.off, scale(s_, t.e.es), const(t.o_value))), "post:value"); c.unchanged(o, st0, a.obj); c.unchanged(o, st0, a.base); continue
            c.unchanged(o, st0, a.obj); c.unchanged(o, st0, p.blk)
            b = t.post(o, a)
            if b is None: continue
            q = o.clone(); c.post(q, eq(read(c, q, t.e, b.data, s_), v), "post:value", "the value of the node is the one given")
            q = o.clone(); f1 = t.ufl(q, b, k)
            for i in range(t.n): c.post(q, iff(bit(f1, 2 + i), bit(fk, 2 + i)), "post:children-kept", "setting a value changes no child")
            c.post(q, and_(le(ZERO, f1), lt(f1, const(4 << t.n))), "inv:flag", "no other bit")
            q.assume(or_(lt(k, s_), lt(s_, k))); c.post(q, eq(read(c, q, t.e, b.data, k), t.val0(a, q, k)), "post:others-kept", "other values stay")
def adds(c, x):
    t = T(c, x); n = const(t.n)
    for i in range(t.n) if t.n <= 4 else (0, 6, t.n - 1):
        st = c.state(); a = t.pret(st); s_ = t.spot(st, a); k = c.nonneg(st, "k"); st.assume(lt(k, a.size)); fk = t.flag0(st, a, k); fs = t.flag0(st, a, s_); st0 = st.clone()
        ch = add(scale(s_, t.n), const(i + 1)); grow = ge(ch, a.size)
        for o in c.call(st, t.T + "_add", [a.ptr, s_, const(i)], abort_ok=lambda o: and_(grow, ge(scale(add(ch, ONE, a.cap, a.cap), t.e.es), const(MAXALLOC)))):
            b = t.post(o, a)
            if b is None: continue
            c.post(o, ge(b.size, a.size), "post:size", "no node is lost"); c.post(o, lt(ch, b.size), "post:child-inside", "the new child is a node of the tree"); o.assume(lt(ch, b.size), ge(b.size, a.size)); c.noleak(o, [b.data])
            q = o.clone(); f1 = t.ufl(q, b, k); here = eq(k, s_)
            for j in range(t.n): c.post(q, iff(bit(f1, 2 + j), or_(here, bit(fk, 2 + j)) if j == i else bit(fk, 2 + j)), "post:children", "the children of every old node are the ones before, and the one added")
            c.post(q, and_(le(ZERO, f1), lt(f1, const(4 << t.n))), "inv:flag", "no other bit")
            c.post(q, eq(read(c, q, t.e, b.data, k), t.val0(a, q, k)), "post:value-kept", "values stay")
            q = o.clone(); m = c.skolem(q, a.size, b.size)
            if c.ex.p.check(q.pc, [TRUE], 2000) != "unsat": c.post(q, lt(t.ufl(q, b, m), const(4)), "post:new-leaf", "new nodes have no child")
    st = c.state(); a = t.pret(st); s_ = t.spot(st, a); i = c.int(st, "i"); st.assume(or_(lt(i, ZERO), ge(i, n)))
    for o in c.call(st, t.T + "_add", [a.ptr, s_, i], abort_ok=lambda o: TRUE, expect_return=False): c.post(o, FALSE, "post:outside-aborts", "no such child")
def children(c, x):
    """case analysis over every combination of children"""
    t = T(c, x); S = TreeSmall(c, t)
    for m in range(1 << t.n):
        for low in (0, 1, 2, 3) if m < 2 else (1,):
            st = c.state(); s_ = c.nonneg(st, "s"); a = t.pret(st, special=(s_, const(4 * m + low))); st.assume(lt(s_, a.size)); r = S.raw(st, "r"); st0 = st.clone()
            for o in c.call(st, t.T + "_children", [r.ptr, a.ptr, s_]):
                b = S.post(o, r)
                if b is None: continue
                want = [i for i in range(t.n) if m >> i & 1]
                c.post(o, eq(b.size, const(len(want))), "post:children-count", "as many as were added"); o.assume(eq(b.size, const(len(want))))
                for j, w in enumerate(want): c.post(o, eq(S.value(o, b, const(j)), const(w)), "post:children", "child %d" % j)
                c.unchanged(o, st0, a.obj); c.unchanged(o, st0, a.base); c.noleak(o, [b.data, a.data])
class TreeSmall(Small):
    def __init__(s, c, t):
        s.c, s.n = c, t.n; s.e = Elem("l", 8, (0, 8, "i"), False, 8); s.sfx = "S"; s.sizeof, s.o_data, s.o_size, s.o_cap, s.o_small = c.tu.K("S" + t.x)
def ctors(c, x):
    t = T(c, x)
    for f in ("ctor0", "ctorn"):
        for d in (None,) if f == "ctor0" else (0, 1, 2, 5):
            st = c.state(); a = t.raw(st); args = [a.ptr] + ([] if d is None else [const(d)])
            for o in c.call(st, t.T + "_" + f, args):
                b = t.post(o, a)
                if b is None: continue
                c.post(o, eq(b.size, ONE), "post:size", "one node"); o.assume(eq(b.size, ONE)); c.noleak(o, [b.data]); f1 = t.ufl(o, b, ZERO); c.post(o, lt(f1, const(4)), "post:leaf", "the root has no child")
                if d is not None: c.post(o, ge(b.cap, const((t.n ** (d + 1) - 1) // (t.n - 1))), "post:capacity", "room for the nodes of the levels asked for")

"""Contracts of the array algorithms (il/algorithm/algorithmArray.h) for double (a total order without NaN) and il::int_t."""
from lib import *
from carray import ArrayClass
LONG = Elem("l", 8, (0, 8, "i"), False, 8)
def habs(x): return ite(ge(x, ZERO), x, sub(ZERO, x))
def ident(x): return x
def at0(c, A, a, st, h=ident): return lambda i: h(A.val0(a, st, i))
def ints(ctx): return [k for k, v in ctx.init.items() if isinstance(v, Term) and not v.b]
def ext_hint(lo, f):
    """candidate invariants: an accumulator bounds everything visited, is one of the visited elements, sits at a recorded position"""
    def hint(ctx):
        ks = ints(ctx); out = []
        for b in (lambda tt: add(lo, tt), lambda tt: add(lo, tt, ONE)):
            for k in ks:
                for cmp in (le, ge):
                    def g(st, v, tt, k=k, b=b, cmp=cmp):
                        q = fresh("q"); return forall((q,), implies(and_(le(lo, q), lt(q, b(tt))), cmp(v[k], f(st)(q))))
                    out.append(g)
                def w(st, v, tt, k=k, b=b):
                    q = fresh("q"); return not_(forall((q,), implies(and_(le(lo, q), lt(q, b(tt))), ne(v[k], f(st)(q)))))
                out.append(w)
                for k2 in ks:
                    if k2 != k: out.append(lambda st, v, tt, k=k, k2=k2, b=b: and_(le(lo, v[k]), lt(v[k], b(tt)), eq(f(st)(v[k]), v[k2])))
        return out
    return hint
def attained(o, lo, hi, f, r):
    q = fresh("q"); return not_(forall((q,), implies(and_(le(lo, q), lt(q, hi)), ne(r, f(q)))))
EXT = [("min", ge, ident, 0), ("max", le, ident, 0), ("maxabs", le, habs, 0), ("imin", ge, ident, 1), ("imax", le, ident, 1), ("imaxabs", le, habs, 1), ("minmax", None, ident, 2)]
def extrema(c, e, which):
    A = ArrayClass(c, e); ty = llir.DOUBLE if e.field[2] == "d" else llir.IntT(64)
    for nm, cmp, h, kind in EXT:
        if nm != which: continue
        for case in ("heap", "null"):
            for rng in (False, True):
                st = c.state(); a = A.pre(st, "a", case); args = [a.ptr]
                if rng: lo, hi = c.int(st, "b"), c.int(st, "e"); args += [lo, hi]
                else: lo, hi = ZERO, a.size
                legal = and_(le(ZERO, lo), lt(lo, hi), le(hi, a.size))
                if a.base is not None and e.field[2] == "i" and h is habs:
                    q = fresh("q"); st.assume(forall((q,), gt(A.val0(a, st, q), const(-(1 << 63)))))
                r = None
                if kind == 2: r = c.obj(st, "r", 16); args = [Ptr(r, ZERO)] + args
                f = (lambda s: (lambda i: h(A.val0(a, s, i)))) if a.base is not None else None
                c.ex.sinv = [ext_hint(lo, f)] if f else []; st0 = st.clone()
                for o in c.call(st, A.sfx + "_" + nm + ("r" if rng else ""), args, abort_ok=lambda o: not_(legal), expect_return=case == "heap"):
                    c.post(o, legal, "bounds:abort-out-of-range", "returned for an empty or illegal range"); o.assume(legal)
                    if f is None: continue
                    g = f(o)
                    if kind == 2: res = [(c.ex.load_nc(o, Ptr(r, ZERO), ty, 8), ge), (c.ex.load_nc(o, Ptr(r, const(8)), ty, 8), le)]
                    elif kind == 1: c.post(o, and_(le(lo, o.val), lt(o.val, hi)), "post:position", "position inside the range"); o.assume(and_(le(lo, o.val), lt(o.val, hi))); res = [(g(o.val), cmp)]
                    else: res = [(o.val, cmp)]
                    for v, cm in res:
                        if kind != 1: c.post(o, attained(o, lo, hi, g, v), "post:attained", "the extremum is an element of the range")
                        q = c.fork(o); k = c.skolem(q, lo, hi); c.post(q, cm(f(q)(k), v), "post:bound", "no element of the range is beyond")
                    c.unchanged(o, st0, a.obj); c.unchanged(o, st0, a.base)
        c.ex.sinv = []

# ---------- sorting: ordered, a permutation (the weight of any value is unchanged), the rest untouched
class Sorting:
    """ghost cell: total weight of the elements, under an arbitrary weight of values; changed by every store"""
    def __init__(s, c, e):
        s.c, s.e = c, e; s.ghost = None
        ty = "double" if e.field[2] == "d" else "long"; s.ty = ty
        s.auxname = "void il::sort_aux<%s>(il::Range, il::io_t, il::Array<%s>&)" % (ty, ty)
        s.aux = [k for k, v in c.tu.demangle.items() if v == s.auxname or v.lstrip("@") == s.auxname]
        c.ex.onstore = s.onstore; c.ex.noclosed = True; c.ex.p.qfree = Prover(timeout=3000); s.measure = None
        c.ex.handlers[s.auxname] = s.h_aux
        c.ex.handlers["void std::sort<%s*>(%s*, %s*)" % (ty, ty, ty)] = s.h_std
    def weight(s, x): return app("weight", x)
    def setghost(s, st):
        s.ghost = s.c.ex.alloc(st, "weights", "obj", const(8), 8); st.mem[s.ghost.id].cells[(0, 8)] = ZERO
    def total(s, o): return o.mem[s.ghost.id].cells[(0, 8)]
    def onstore(s, st, blk, r, f, idx, v):
        if s.ghost is None or blk is not s.blk or f != s.e.field: return
        old = s.c.ex.rdc(st, r.content, f, idx); bs = st.wr(s.ghost)
        bs.cells[(0, 8)] = add(bs.cells[(0, 8)], sub(s.weight(v), s.weight(old)))
    def cur(s, st, a): return lambda i: s.c.ex.rdc(st, s.region(st, a).content, s.e.field, add(a.shift, i))
    def region(s, st, a): return [r for r in st.mem[a.base.id].regions if r.off == 0][0]
    def apply(s, st, blk, lo, n):
        """the effect promised by the contract: [lo, lo+n) of the block becomes an ordered permutation of itself"""
        ex, f = s.c.ex, s.e.field; bs = st.wr(blk); r = [x for x in bs.regions if x.off == 0]
        if not r and ex.known(st, le(n, ZERO)): return
        r = r[0]; old = r.content
        nm = fresh_name("srt"); new = Base(nm); pm = fresh_name("perm")
        N = lambda k: new.at(f, k); k = fresh("k"); hi = add(lo, n)
        st.assume(forall((k,), implies(and_(le(lo, k), lt(add(k, ONE), hi)), le(N(k), N(add(k, ONE))))))
        k = fresh("k"); P = lambda k: app(pm + ".p", k)
        st.assume(forall((k,), implies(and_(le(lo, k), lt(k, hi)), and_(le(lo, P(k)), lt(P(k), hi), eq(N(k), ex.rdc(st, old, f, P(k)))))))
        k = fresh("k"); V = lambda k: app(pm + ".i", k)
        st.assume(forall((k,), implies(and_(le(lo, k), lt(k, hi)), and_(le(lo, V(k)), lt(V(k), hi), eq(P(V(k)), k), eq(N(V(k)), ex.rdc(st, old, f, k))))))
        r.content = Copy(old, lo, hi, new, ZERO)
    def h_aux(s, ex, st, a, ins):
        b, e_, v = a[0], a[1], a[-1]; d = ex.load_nc(st, v, llir.PTR, 8); z_ = ex.load_nc(st, Ptr(v.blk, add(v.off, const(8))), llir.PTR, 8)
        n = div(sub(z_.off, d.off), 8)
        ex.oblige(st, and_(le(ZERO, b), le(b, e_), le(e_, n)), "pre:sort_aux", "legal range")
        if s.measure is not None: ex.oblige(st, lt(sub(e_, b), s.measure), "term:sort_aux", "the recursion is on a smaller range")
        st.assume(le(ZERO, b), le(b, e_), le(e_, n))
        if d.blk is not None: s.apply(st, d.blk, add(div(d.off, 8), b), sub(e_, b))
        return None
    def h_std(s, ex, st, a, ins):
        p, q = a[0], a[1]; ex.assumed.add("std::sort(first, last) sorts (external standard library function, assumed contract)")
        if p.blk is None or q.blk is None:
            ex.oblige(st, eq(p.off, q.off) if p.blk is q.blk else FALSE, "pre:std::sort", "one range"); return None
        ok = TRUE if p.blk is q.blk else FALSE
        ex.oblige(st, ok, "pre:std::sort", "one range")
        if ok is FALSE: raise DeadPath()
        n = div(sub(q.off, p.off), 8); ex.oblige(st, and_(le(p.off, q.off), le(ZERO, p.off), le(q.off, p.blk.size)), "pre:std::sort", "range inside the storage")
        s.apply(st, p.blk, div(p.off, 8), n); return None
def sort_hint(S, a, lo, hi):
    def hint(ctx):
        ks = ints(ctx); out = []
        at = lambda st: S.cur(st, a)
        last = sub(hi, ONE)
        def fa(body): 
            def g(st, v, tt):
                q = fresh("q"); return forall((q,), body(at(st), v, tt, q))
            out.append(g)
        # outside of the range nothing changes; nor does the last element while partitioning
        e0 = at(ctx.st)
        fa(lambda A, v, tt, q: implies(or_(lt(q, lo), ge(q, hi)), eq(A(q), e0(q))))
        fa(lambda A, v, tt, q: implies(or_(lt(q, lo), ge(q, last)), eq(A(q), e0(q))))
        out.append(lambda st, v, tt: eq(at(st)(last), e0(last)))
        # insertion: ordered up to the running position
        for k in ks:
            for x in (0, 1, -1): fa(lambda A, v, tt, q, k=k, x=x: implies(and_(le(lo, q), lt(q, add(v[k], const(x - 1)))), le(A(q), A(add(q, ONE)))))
            I = ctx.init[k]
            fa(lambda A, v, tt, q, k=k, I=I: implies(and_(le(lo, q), lt(q, I), ne(q, sub(v[k], ONE))), le(A(q), A(add(q, ONE)))))
            out.append(lambda st, v, tt, k=k, I=I: implies(and_(lt(v[k], I), lt(lo, v[k])), le(at(st)(sub(v[k], ONE)), at(st)(add(v[k], ONE)))))
            fa(lambda A, v, tt, q, k=k, I=I: implies(or_(lt(q, lo), gt(q, I)), eq(A(q), e0(q))))
            out.append(lambda st, v, tt, k=k: le(v[k], last)); out.append(lambda st, v, tt, k=k: le(lo, v[k]))
            # partition: smaller ones first, then the others
            for k2 in ks:
                if k2 == k: continue
                out.append(lambda st, v, tt, k=k, k2=k2: le(v[k], v[k2]))
                for c1, c2 in ((lt, ge), (le, gt), (le, ge)):
                    fa(lambda A, v, tt, q, k=k, k2=k2, c1=c1: implies(and_(le(lo, q), lt(q, v[k])), c1(A(q), A(last))))
                    fa(lambda A, v, tt, q, k=k, k2=k2, c2=c2: implies(and_(le(v[k], q), lt(q, v[k2])), c2(A(q), A(last))))
        return out
    return hint
def sortposts(c, S, q, cur, lo, hi):
    p = c.fork(q); k = c.skolem(p, lo, sub(hi, ONE)); c.post(p, le(cur(p)(k), cur(p)(add(k, ONE))), "post:ordered", "adjacent elements in order")
def sorts_aux(c, e):
    """the recursive worker on its body, recursive calls by this very contract"""
    A = ArrayClass(c, e); S = Sorting(c, e)
    for case in ("heap", "null"):
        st = c.state(); a = A.pre(st, "a", case); b, e_ = c.int(st, "b"), c.int(st, "e"); st.assume(le(ZERO, b), le(b, e_), le(e_, a.size)); S.measure = sub(e_, b)
        S.blk = a.base; S.setghost(st)
        c.ex.sinv = [sort_hint(S, a, b, e_)] if a.base is not None else []; st0 = st.clone()
        for o in c.call(st, A.sfx + "_sortaux" if not S.aux else S.aux[0].lstrip("@"), [b, e_, a.ptr]):
            if a.base is None: continue
            cur = lambda s: S.cur(s, a)
            sortposts(c, S, o, cur, b, e_)
            c.post(o, eq(S.total(o), ZERO), "post:permutation", "the weight of every value is unchanged")
            q = c.fork(o); k = c.skolem(q, ZERO, a.size); q.assume(or_(lt(k, b), ge(k, e_))); c.post(q, eq(cur(q)(k), S.cur(st0, a)(k)), "post:rest", "the rest of the array is untouched")
            c.unchanged(o, st0, a.obj)
    c.ex.sinv = []
def sorts(c, e):
    """the entry points, by the contract of the worker (verified on its body above)"""
    A = ArrayClass(c, e); S = Sorting(c, e)
    for case in ("heap", "null"):
        st = c.state(); a = A.pre(st, "a", case); S.blk = a.base; S.setghost(st); st0 = st.clone()
        for o in c.call(st, A.sfx + "_sort", [a.ptr]):
            c.unchanged(o, st0, a.obj); c.post(o, eq(S.total(o), ZERO), "post:permutation", "the weight of every value is unchanged")
            if a.base is not None: sortedperm(c, o, lambda s: S.cur(s, a), S.cur(st0, a), a.size)
        S.ghost = None
        for f in ("sortc", "sortcc"):
            st = c.state(); a = A.pre(st, "a", case); r = A.raw(st, "r"); st0 = st.clone()
            for o in c.call(st, A.sfx + "_" + f, [r.ptr, a.ptr]):
                c.unchanged(o, st0, a.obj)
                if a.base is not None: c.unchanged(o, st0, a.base)
                b = A.post(o, r)
                if b is None: continue
                if a.base is not None and b.base is None: c.post(o, eq(a.size, ZERO), "post:size", "nothing to copy")
                c.post(o, eq(b.size, a.size), "post:size", "size of the sorted copy"); c.noleak(o, [Ptr(x.base, ZERO) for x in (a, b) if x.base is not None])
                if a.base is not None and b.base is not None: sortedperm(c, o, lambda s: S.cur(s, b), S.cur(st0, a), a.size)
    st = c.state(); blk = c.ex.alloc(st, "s", "obj", const(56), 8); nm = fresh_name("s"); r = Region(0, const(56), 8, Base(nm)); r.fields[e.field] = True; st.mem[blk.id].regions.append(r); st0 = st.clone()
    at = lambda s: (lambda i: c.ex.rdc(s, [x for x in s.mem[blk.id].regions if x.off == 0][0].content, e.field, i))
    for o in c.call(st, A.sfx + "_sorts", [Ptr(blk, ZERO)]): sortedperm(c, o, at, at(st0), const(7))
def sortedperm(c, o, cur, old, n):
    q = c.fork(o); k = c.skolem(q, ZERO, sub(n, ONE)); c.post(q, le(cur(q)(k), cur(q)(add(k, ONE))), "post:ordered", "adjacent elements in order")
    q = c.fork(o); k = c.skolem(q, ZERO, n); j = fresh("j"); c.post(q, not_(forall((j,), implies(and_(le(ZERO, j), lt(j, n)), ne(cur(q)(k), old(j))))), "post:permutation", "every element comes from the original array")
    q = c.fork(o); k = c.skolem(q, ZERO, n); j = fresh("j"); c.post(q, not_(forall((j,), implies(and_(le(ZERO, j), lt(j, n)), ne(cur(q)(j), old(k))))), "post:permutation", "every element of the original array is there")
def bsearch(c, e):
    A = ArrayClass(c, e); c.ex.p.qfree = Prover(timeout=3000)
    for case in ("heap", "null"):
        st = c.state(); a = A.pre(st, "a", case); x = fresh("x") if e.field[2] == "d" else c.int(st, "x")
        f = (lambda i: A.val0(a, st, i)) if a.base is not None else None
        if f:
            k, l = fresh("k"), fresh("l"); st.assume(forall((k, l), implies(and_(le(ZERO, k), le(k, l), lt(l, a.size)), le(f(k), f(l)))))
            def hint(ctx):
                out = []
                for k in ints(ctx):
                    V = lambda v, k=k: v[k]
                    out += [lambda s, v, tt, V=V: le(ZERO, V(v)), lambda s, v, tt, V=V: le(V(v), a.size), lambda s, v, tt, V=V: lt(V(v), a.size)]
                    for d in (0, 1):
                        w = lambda v, d=d, V=V: sub(V(v), const(d))
                        out += [lambda s, v, tt, w=w: or_(lt(w(v), ZERO), le(f(w(v)), x)), lambda s, v, tt, w=w: or_(le(w(v), ZERO), le(f(w(v)), x)), lambda s, v, tt, w=w: or_(lt(w(v), ZERO), lt(f(w(v)), x)), lambda s, v, tt, w=w: or_(le(w(v), ZERO), lt(f(w(v)), x))]
                        w = lambda v, d=d, V=V: add(V(v), const(d))
                        out += [lambda s, v, tt, w=w, cm=cm: or_(ge(w(v), a.size), cm(f(w(v)), x)) for cm in (gt, ge)]
                    for k2 in ints(ctx):
                        if k2 != k: out += [lambda s, v, tt, k=k, k2=k2: le(v[k], v[k2]), lambda s, v, tt, k=k, k2=k2: lt(v[k], v[k2]), lambda s, v, tt, k=k, k2=k2: le(v[k], add(v[k2], ONE)),
                                            lambda s, v, tt, k=k, k2=k2: or_(eq(a.size, ZERO), lt(v[k], v[k2]))]
                return out
            c.ex.sinv = [hint]
        st0 = st.clone()
        for o in c.call(st, A.sfx + "_bsearch", [a.ptr, x]):
            c.post(o, and_(le(const(-1), o.val), lt(o.val, a.size)), "post:position", "-1 or a position")
            c.unchanged(o, st0, a.obj)
            if f is None: continue
            c.unchanged(o, st0, a.base)
            q = c.fork(o); q.assume(ge(o.val, ZERO)); c.post(q, eq(f(o.val), x), "post:found", "the element at the reported position is the one searched for")
            q = c.fork(o); q.assume(lt(o.val, ZERO)); k = c.skolem(q, ZERO, a.size); c.post(q, ne(f(k), x), "post:not-found", "-1 only when there is no such element")
        c.ex.sinv = []

"""Contracts of il/core/memory/allocate.h."""
from lib import *
TYPES = ["c", "s", "i", "d", "s12", "s16", "s24", "s40"]
def plain(c, t):
    es, al = c.tu.K(t)
    for sg in ("legal", "negative"):
        st = c.state(); n = c.int(st, "n")
        if sg == "negative":
            if "-DNDEBUG" in c.tu.extra: continue
            st.assume(lt(n, ZERO))
        else: st.assume(ge(n, ZERO))
        for o in c.call(st, t + "_alloc", [n], abort_ok=lambda o: or_(lt(n, ZERO), ge(scale(n, es), const(MAXALLOC))), expect_return=sg == "legal"):
            c.post(o, ge(n, ZERO), "bounds:abort-negative", "a negative request returns")
            p = o.val
            if p.blk is None: c.post(o, eq(n, ZERO), "post:not-null", "null for a positive request"); c.noleak(o, []); continue
            block_ok(c, o, p, n, es); c.post(o, eq(p.off, ZERO), "post:base", "the returned pointer is the block"); c.noleak(o, [p])
def block_ok(c, o, p, n, es):
    if not o.mem[p.blk.id].alive or p.blk.kind != "heap": return c.fail(o, "post:block", "not a live allocated block")
    c.post(o, and_(ge(p.off, ZERO), le(add(p.off, scale(n, es)), p.blk.size)), "post:block-holds-n", "all n elements lie in the block")
def aligned(c, t):
    es, al = c.tu.K(t)
    st = c.state(); n = c.nonneg(st, "n"); m, r = c.int(st, "m"), c.int(st, "r")
    st.assume(ge(m, ONE), ge(r, ZERO), lt(r, m), le(scale(m, al), const(1 << 20)))
    um, ur = scale(m, al), scale(r, al)
    sh = c.obj(st, "shift", 8); st.mem[sh.id].cells[(0, 8)] = c.int(st, "shift0")
    def ok(o):
        # no block, or no element of the block malloc returned has the residue
        big = ge(add(scale(n, es), um), const(MAXALLOC))
        if es <= al: return big
        bl = [b for b in o.blocks.values() if b.kind == "heap"]
        if not bl: return big
        q = o; c.ex.addrfacts(q, bl[-1]); a = bl[-1].addr
        d = modt(sub(add(ur, um), modt(a, um)), um)
        return or_(big, ne(mod(ite(ge(ur, modt(a, um)), sub(ur, modt(a, um)), sub(add(ur, um), modt(a, um))), es), ZERO))
    for o in c.call(st, t + "_alloca", [n, ur, um, Ptr(sh, ZERO)], abort_ok=ok):
        p = o.val; s = c.ex.load_nc(o, Ptr(sh, ZERO), llir.IntT(64), 8)
        if p.blk is None: c.post(o, eq(n, ZERO), "post:not-null", "null for a positive request"); continue
        block_ok(c, o, p, n, es); c.noleak(o, [p])
        c.post(o, and_(ge(s, ZERO), eq(p.off, scale(s, es))), "post:base", "p - shift is the block")
        c.ex.addrfacts(o, p.blk)
        c.post(o, eq(modt(add(p.blk.addr, p.off), um), ur), "align:residue", "the address has the requested residue")
def free(c, t):
    es, al = c.tu.K(t)
    st = c.state(); nb = c.nonneg(st, "bytes"); st.assume(lt(nb, const(MAXALLOC))); b = c.ex.alloc(st, "b", "heap", nb, 16); st.mem[b.id].regions.append(Region(0, None, None, Base(fresh_name("b")))); st.owned.add(b.id)
    for o in c.call(st, t + "_free", [Ptr(b, ZERO)]): c.noleak(o, [])
    st = c.state()
    for o in c.call(st, t + "_free", [NULL]): c.noleak(o, [])

"""Contracts of il/core/math/safe_arithmetic.h: for every operand, the exact mathematical result or the error flag."""
from lib import *
W = {"i": 32, "l": 64, "ll": 64, "ui": 32, "ul": 64, "ull": 64}
def errflag(c, st):
    b = c.obj(st, "error", 1); st.mem[b.id].cells[(0, 1)] = c.int(st, "error0", 8); return b
def errval(c, o, b): return ne(c.ex.load_nc(o, Ptr(b, ZERO), llir.IntT(8), 1), ZERO)
def run(c, fn, st, args, exact, n, signed, legal=None, complete=True):
    """exact result when representable (and legal), else the error flag"""
    e = errflag(c, st)
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
    for o in c.call(st, fn, args + [Ptr(e, ZERO)]):
        rep = and_(le(const(lo), exact), le(exact, const(hi)))
        if legal is not None: rep = and_(legal, rep)
        er = errval(c, o, e)
        r = o.val if signed else c.ex.uns(o, o.val, n)
        c.post(o, implies(not_(er), rep), "post:error-when-not-representable", "reports success on an unrepresentable result")
        if complete is True: c.post(o, implies(er, not_(rep)), "post:no-spurious-error", "reports an error on a representable result")
        elif complete is not None: c.post(o, implies(er, not_(complete)), "post:no-spurious-error", "reports an error although every partial result is representable")
        c.post(o, implies(not_(er), eq(r, exact)), "post:exact", "the result is not the exact one")

def arg(c, st, sfx, name, sign=None):
    n = W[sfx]; x = c.int(st, name, n)
    if sign == "+": st.assume(gt(x, ZERO))
    elif sign == "-": st.assume(lt(x, ZERO))
    elif sign == "0": st.assume(eq(x, ZERO))
    return x
def sums(c):
    for s in ("i", "l", "ll"):
        for f in ("sum", "diff"):
            st = c.state(); a, b = arg(c, st, s, "a"), arg(c, st, s, "b")
            run(c, "%s_%s" % (s, f), st, [a, b], add(a, b) if f == "sum" else sub(a, b), W[s], True)
    for s in ("ui", "ul", "ull"):
        for sa in "+-":
            for sb in "+-":
                st = c.state(); a, b = (c.int(st, x, W[s]) for x in "ab")
                st.assume(*(ge(x, ZERO) if y == "+" else lt(x, ZERO) for x, y in ((a, sa), (b, sb))))
                ua, ub = c.ex.uns(st, a, W[s]), c.ex.uns(st, b, W[s])
                run(c, "%s_sum" % s, st, [a, b], add(ua, ub), W[s], False)
def prods(c):
    for s in ("i", "l", "ll"):
        for sa in "+-0":
            for sb in "+-0":
                st = c.state(); a, b = arg(c, st, s, "a", sa), arg(c, st, s, "b", sb)
                run(c, s + "_prod", st, [a, b], mul(a, b), W[s], True)
    for s in ("ui", "ul", "ull"):
        for sa in "+-":
            for sb in "+-":
                st = c.state(); a, b = (c.int(st, x, W[s]) for x in "ab")
                st.assume(*(ge(x, ZERO) if y == "+" else lt(x, ZERO) for x, y in ((a, sa), (b, sb))))
                ua, ub = c.ex.uns(st, a, W[s]), c.ex.uns(st, b, W[s])
                run(c, "%s_prod" % s, st, [a, b], mul(ua, ub), W[s], False)
    st = c.state(); a = c.nonneg(st, "a"); run(c, "l_prod2", st, [a], scale(a, 2), 64, True)
def rep(n, x): return and_(le(const(-(1 << (n - 1))), x), le(x, const((1 << (n - 1)) - 1)))
def by_contract(c):
    """callers of the two-factor product see its contract (verified on its body by prods), not its body"""
    for s, ty in (("i", "int"), ("l", "long"), ("ll", "long long")):
        def h(ex, st, a, ins, n=W[s]):
            p = mul(a[0], a[1]); ok = rep(n, p); r = c.int(st, "product", n); e = c.int(st, "error", 8)
            st.assume(ite(ok, and_(eq(r, p), eq(e, ZERO)), eq(e, ONE)))
            ex.store(st, a[-1], llir.IntT(8), e); return r
        c.ex.handlers["il::safeProduct(%s, %s, il::io_t, bool&)" % (ty, ty)] = h
def prods3(c, s):
    """three and four factors: success implies exactness; an error only when a partial product is not representable"""
    by_contract(c)
    for k in (3, 4):
        st = c.state(); xs = [arg(c, st, s, "abcd"[i]) for i in range(k)]
        ab = mul(xs[0], xs[1]); n = W[s]
        if k == 3: ex, parts = mul(ab, xs[2]), [ab, mul(ab, xs[2])]
        else: cd = mul(xs[2], xs[3]); ex, parts = mul(ab, cd), [ab, cd, mul(ab, cd)]
        run(c, "%s_prod%d" % (s, k), st, xs, ex, n, True, complete=and_(*[rep(n, p) for p in parts]))
def quotients(c):
    for s in ("i", "l", "ll"):
        n = W[s]
        for sa in "+-0":
            for sb in "+-0":
                st = c.state(); a, b = arg(c, st, s, "a", sa), arg(c, st, s, "b", sb)
                aa, bb = (neg(a) if sa == "-" else a), (neg(b) if sb == "-" else b)
                q = fresh("q"); r = fresh("r")
                if sb != "0":
                    # exact truncated quotient defined by its characteristic inequality
                    st.assume(eq(aa, add(mul(q, bb), r)), le(ZERO, r), lt(r, bb), ge(q, ZERO), le(q, aa))
                    ex = neg(q) if (sa == "-") != (sb == "-") else q
                    run(c, s + "_div", st, [a, b], ex, n, True)
                else: run(c, s + "_div", st, [a, b], ZERO, n, True, legal=FALSE)
def rounds(c):
    for s in ("i", "l", "ll"):
        n = W[s]
        for za in ("+", "0"):
            st = c.state(); a, b = arg(c, st, s, "a", za), arg(c, st, s, "b", "+")
            q = fresh("q")           # the least multiple of b that is >= a
            st.assume(ge(q, ZERO), ge(mul(q, b), a), lt(mul(q, b), add(a, b)))
            run(c, s + "_round", st, [a, b], mul(q, b), n, True)
        # outside the domain: stops in debug builds
def converts(c):
    for s in ("i", "l", "ll"):
        n = W[s]
        for sa in "+-0":
            st = c.state(); a = arg(c, st, s, "a", sa); run(c, s + "_s2u", st, [a], a, n, False)
            st = c.state(); a = arg(c, st, s, "a", sa); run(c, s + "_u2s", st, [a], c.ex.uns(st, a, n), n, True)

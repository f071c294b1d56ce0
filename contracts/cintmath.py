"""Contracts of the integer helpers of il/math.h. Bit-level functions: bit-vector conditions over the whole word.
Integer powers: polynomial identities over mathematical integers, for each exponent that can be representable."""
import z3
from lib import *
import bv as B

def bvrun(c, fn, args, pre, post, abort_ok=None):
    """post(result) -> [(name, z3 condition)]"""
    c.fn = fn; c.ex.ctx = c.name + ":" + fn; c.res.cases += 1
    st = c.ex.p.st
    def oblige(cond, g, what, detail=""):
        c.ex.count(what); cond = z3.BoolVal(cond) if isinstance(cond, bool) else cond
        r = E.check(pre, g, z3.Not(cond))
        if r == "unsat": return True
        c.ex.failures.append(Failure(what, c.ex.ctx, "%s [%s]" % (detail, "refuted" if r == "sat" else "undecided"), E.model, [])); return False
    E = B.BVEngine(c.tu.mod, oblige, dn=lambda n: c.tu.demangle.get(n, n))
    E.sol.add(pre)
    v, g = E.call("@" + fn, args, z3.BoolVal(True))
    c.ex.inlined |= E.inlined
    for a in E.aborts: oblige(z3.BoolVal(False) if abort_ok is None else abort_ok, a, "post:no-abort", "the call aborts on a legal input")
    if E.check(g) != "sat": c.res.vacuous.append(fn + ": no feasible return")
    else: c.res.reached += 1
    for nm, q in post(v):
        c.res.posts[fn + " / " + nm] = c.res.posts.get(fn + " / " + nm, 0) + 1
        oblige(q, g, nm, "")
    oblige(z3.Or(g, *E.aborts), z3.BoolVal(True), "post:returns", "some input neither returns nor aborts")
    st.queries += E.queries; st.time += E.time

def powers(c):
    for n, sfx in ((32, "32"), (64, "64")):
        x = z3.BitVec("x", n); top = z3.BitVecVal(1 << (n - 1), n); ispow = lambda r: z3.And(r != 0, (r & (r - 1)) == 0)
        bvrun(c, "prev" + sfx, [x], x != 0, lambda r: [("post:power-of-two", ispow(r)), ("post:at-most-x", z3.ULE(r, x)), ("post:greatest", z3.UGT(r, z3.LShR(x, 1)))])
        bvrun(c, "prev" + sfx, [x], x == 0, lambda r: [("post:zero", r == 0)])
        bvrun(c, "next" + sfx, [x], z3.And(x != 0, z3.ULE(x, top)), lambda r: [("post:power-of-two", ispow(r)), ("post:at-least-x", z3.UGE(r, x)), ("post:least", z3.Or(r == 1, z3.ULT(z3.LShR(r, 1), x)))])
        w = lambda r: z3.ZeroExt(n - 32, r) if n > 32 else r
        one = z3.BitVecVal(1, n)
        bvrun(c, "nlog" + sfx, [x], z3.ULE(x, top), lambda r: [("post:range", z3.And(r >= 0, r < n)), ("post:2^k>=x", z3.UGE(one << w(r), x)), ("post:least", z3.Or(r == 0, z3.ULT(one << (w(r) - 1), x)))])
def absolutes(c):
    for n, sfx in ((32, "i"), (64, "l")):
        x = z3.BitVec("x", n)
        bvrun(c, "abs_" + sfx, [x], x != z3.BitVecVal(1 << (n - 1), n), lambda r: [("post:abs", z3.And(r >= 0, z3.Or(r == x, r == -x)))])
def floors(c):
    for f, n in (("floor_i", 32), ("floor_l", 64)):
        st = c.state(); a = c.nonneg(st, "a"); b = c.int(st, "b", n); st.assume(ge(b, ONE))
        q = fresh("q"); st.assume(ge(q, ZERO), le(mul(q, b), a), lt(a, add(mul(q, b), b)))
        for o in c.call(st, f, [a, b]): c.post(o, eq(o.val, mul(q, b)), "post:floor", "greatest multiple of b at most a")
def iroot(v, k):
    lo, hi = 0, 1 << 64
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= v: lo = m
        else: hi = m - 1
    return lo
def power_poly(c, fn, n, k, args):
    """base in the exact range where base^k fits in n bits; the result is the monomial base^k"""
    M = (1 << (n - 1)) - 1
    B = iroot(M, k) if k else M; lo = -B if k else -(M + 1)
    if k and (-(B + 1)) ** k >= -(M + 1) and (-(B + 1)) ** k <= M: lo = -(B + 1)
    if k == 1: lo = -(M + 1)
    c.ex.p.nolemmas = True       # the power bounds below are the only facts needed about products
    st = c.state(); x = c.int(st, "x", n); st.assume(le(const(lo), x), le(x, const(B)))
    A = max(abs(lo), B); m = x
    for j in range(2, k + 1):      # |x| <= A  implies  |x^j| <= A^j (exact bounds for odd and even powers)
        m = mul(m, x)
        st.assume(le(const(lo ** j if j % 2 else 0), m), le(m, const(B ** j if j % 2 else A ** j)))
    ex = ONE
    for j in range(k): ex = mul(ex, x)
    for o in c.call(st, fn, [x] + args): c.post(o, eq(o.val, ex), "post:power", "base^%d" % k)
def ipow_static(c, sfx):
    for k in list(range(18)) + [20, 24, 29, 30, 31, 32]: power_poly(c, "ipow_%s_%d" % (sfx, k), 32 if sfx == "i" else 64, k, [])
def ipow_dynamic(c, sfx):
    n = 32 if sfx == "i" else 64
    for k in range(0, n): power_poly(c, "ipow_" + sfx, n, k, [const(k)])
    # larger exponents: only -1, 0 and 1 have a representable power
    e = z3.BitVec("n", 64)
    for b in (-1, 0, 1):
        r0 = lambda r, b=b: [("post:power", r == (z3.BitVecVal(b, n) if b >= 0 else z3.If((e & 1) == 1, z3.BitVecVal(-1, n), z3.BitVecVal(1, n))))]
        bvrun(c, "ipow_" + sfx, [z3.BitVecVal(b, n), e], e >= 1, r0)
    bvrun(c, "ipow_" + sfx, [z3.BitVecVal(0, n), e], e == 0, lambda r: [("post:power", r == 1)])

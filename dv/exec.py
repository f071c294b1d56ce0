"""Symbolic executor / verification-condition generator over LLVM IR, function by function, loops cut at inferred invariants."""
import time
import llir
from llir import Type, IntT, size_of, field_off, loops as find_loops
from term import *
from mem import *
from solver import Prover
import math

MAXALLOC = 1 << 47     # trusted: the allocator never returns a block of 2^47 bytes or more (x86-64 user address space)

class Frame:
    __slots__ = ("fn", "env", "blk", "ip", "prev", "ret", "allocas")
    def __init__(s, fn): s.fn = fn; s.env = {}; s.blk = None; s.ip = 0; s.prev = None; s.ret = None; s.allocas = []
    def clone(s):
        f = Frame(s.fn); f.env = dict(s.env); f.blk, f.ip, f.prev, f.ret = s.blk, s.ip, s.prev, s.ret; f.allocas = list(s.allocas)
        return f

class State:
    def __init__(s):
        s.frames = []; s.mem = {}; s.pc = []; s.conds = []; s.defs = {}; s.flags = {}; s.kind = None; s.val = None; s.blocks = {}; s.trace = []; s.ranged = set(); s.owned = set()
    def clone(s):
        n = State(); n.frames = [f.clone() for f in s.frames]; n.mem = dict(s.mem); n.pc = list(s.pc); n.conds = list(s.conds)
        n.defs = dict(s.defs); n.flags = dict(s.flags); n.kind = s.kind; n.val = s.val; n.blocks = dict(s.blocks); n.trace = list(s.trace); n.ranged = set(s.ranged); n.owned = set(s.owned)
        return n
    def assume(s, *cs):
        for c in cs:
            if c is TRUE: continue
            if isinstance(c, Term) and c.op == "and":
                s.assume(*c.args); continue
            s.pc.append(c)
    def wr(s, blk):
        b = s.mem[blk.id] = s.mem[blk.id].clone()
        return b
    def rd(s, blk): return s.mem[blk.id]
    @property
    def dead(s): return FALSE in s.pc

class Failure:
    def __init__(s, ob, where, detail, model, pc): s.ob, s.where, s.detail, s.model, s.pc = ob, where, detail, model, pc

class LimitExceeded(Exception): pass

class Engine:
    byteobjs = {}
    recstride = 0
    def __init__(s, mod, prover=None, deadline=None):
        s.m = mod; s.p = prover or Prover(); s.checking = True; s.handlers = {}; s.contracts = {}
        s.failures = []; s.obls = {}; s.nob = 0; s.where = ""; s.ctx = ""; s.inlined = set(); s.nloops = 0; s.assumed = set(); s.loopinfo = []
        s.onstore = None; s.noclosed = False; s.hints = []; s.sinv = []; s.fnstack = []; s.deadline = deadline; s.globals = {}; s.maxpaths = 3000; s.terms_unknown = 0; s.demangle = {}
        s.decided = {}
        s.opaque = {}       # sizeof-based registry for opaque element types
        install_builtins(s)

    # ---------- obligations
    def oblige(s, st, cond, what, detail=""):
        if cond is TRUE:
            if s.checking: s.count(what)
            return True
        if not s.checking:
            st.assume(cond); return True
        if s.deadline and time.time() > s.deadline: raise LimitExceeded("time budget")
        r = s.p.prove(st.pc, cond)
        s.count(what)
        if r == "yes":
            s.p.st.discharged += 1
            st.assume(cond)
            return True
        s.fail(st, what, detail or show(cond)[:600], s.p.model if r == "no" else None, r)
        st.assume(cond)
        return False
    def count(s, what):
        s.p.st.obligations += 1; s.obls[what] = s.obls.get(what, 0) + 1
    def fail(s, st, what, detail, model=None, status="no"):
        if s.checking:
            w = s.ctx + " @ " + " > ".join([s.dn(f.fn.name) for f in st.frames]) if st is not None and st.frames else s.ctx
            s.failures.append(Failure(what, w, "%s [%s]" % (detail, "refuted" if status == "no" else "undecided"), model, list(st.pc) if st is not None else []))
    def dn(s, name):
        return s.demangle.get(name, name)

    # ---------- decisions
    def decide(s, st, cond):
        if cond is TRUE: return True
        if cond is FALSE: return False
        key = (tuple(id(c) for c in st.pc[-3:]), len(st.pc), cond.id)
        pcs = st.pc
        nc = not_(cond)
        for c in pcs:
            if c is cond: return True
            if c is nc: return False
        if s.p.quick(pcs, nc, 1000) == "unsat": return True
        if s.p.quick(pcs, cond, 1000) == "unsat": return False
        return None
    def known(s, st, cond):
        if cond is TRUE: return True
        if cond is FALSE: return False
        for c in st.pc:
            if c is cond: return True
        return s.p.quick(st.pc, not_(cond), 1000) == "unsat"

    # ---------- integer helpers (values are mathematical integers in the signed range of their width)
    def rng(s, x, n): return and_(le(const(-(1 << (n - 1))), x), le(x, const((1 << (n - 1)) - 1)))
    def wrap(s, st, p, n):
        if is_const(p):
            v = cval(p) & ((1 << n) - 1)
            return const(v - (1 << n) if v >> (n - 1) else v)
        if s.known(st, s.rng(p, n)): return p
        h = 1 << (n - 1)
        # one-off wraps are common (unsigned conversions)
        return add(mod(add(p, const(h)), 1 << n), const(-h))
    def unmod(s, st, t):
        """remove wrap-arounds that cannot happen under the current path condition"""
        if not has_mod(t): return t
        def f(x, r, c):
            if r is None:
                d = s.decide(st, x.args[0])
                return x.args[1] if d is True else x.args[2] if d is False else None
            for q in (0, 1, -1):
                r2 = add(r, const(q * c))
                if s.known(st, and_(ge(r2, ZERO), lt(r2, const(c)))): return r2
            return None
        return mapmods(t, f)
    def uns(s, st, x, n):
        if is_const(x): return const(cval(x) & ((1 << n) - 1))
        d = s.decide(st, ge(x, ZERO))
        if d is True: return x
        if d is False: return add(x, const(1 << n))
        return ite(ge(x, ZERO), x, add(x, const(1 << n)))
    def sgn(s, st, u, n):
        """unsigned value in [0,2^n) -> signed canonical"""
        h = 1 << (n - 1)
        if is_const(u): v = cval(u) & ((1 << n) - 1); return const(v - (1 << n) if v >= h else v)
        d = s.decide(st, lt(u, const(h)))
        if d is True: return u
        if d is False: return sub(u, const(1 << n))
        return ite(lt(u, const(h)), u, sub(u, const(1 << n)))
    def newint(s, st, name, n):
        x = fresh(name); st.assume(s.rng(x, n)); return x

    # ---------- memory
    def alloc(s, st, name, kind, size, align=1, ty=None):
        b = Block(name, kind, size, align, ty); st.mem[b.id] = BState(); st.blocks[b.id] = b
        return b
    def addrfacts(s, st, b):
        key = ("addr", b.id)
        if key in st.flags: return
        st.flags[key] = True
        st.assume(ge(b.addr, const(4096)), le(add(b.addr, b.size), const(1 << 47)))
        if b.align > 1:
            q = var("addrq!%d" % b.id); st.assume(eq(b.addr, scale(q, b.align)))
        for key2 in list(st.flags):
            pass
    def regof(s, bs, coff, off):
        """region covering offset term off"""
        for r in bs.regions:
            if coff is not None:
                if coff >= r.off and (r.length is None or not is_const(r.length) or coff < r.off + cval(r.length)): return r
            else: return r
        return None
    def findregion(s, st, ptr, size, hint):
        """-> region or None for cell access"""
        bs = st.mem[ptr.blk.id]
        coff = cval(ptr.off) if is_const(ptr.off) else None
        if coff is not None and ptr.blk.kind == "heap" and not bs.regions and not bs.cells and not hint and size is not None and not is_const(ptr.blk.size):
            # storage of symbolic length first used at a constant offset: typed as an array of its elements
            g = 0
            for m, c in pd(ptr.blk.size).items():
                if m != (): g = math.gcd(g, abs(c))
            if g and g % size == 0 and pd(ptr.blk.size).get((), 0) % g == 0:
                bs = st.wr(ptr.blk); r = Region(0, None, g, Base(fresh_name("raw"), {(-1, 0, "b"): FALSE})); bs.regions.append(r); return r
        if coff is not None:
            for r in bs.regions:
                if coff >= r.off and (r.length is None or not is_const(r.length) or coff < r.off + cval(r.length)):
                    if size is None or r.length is None or not is_const(r.length) or coff + size <= r.off + cval(r.length): return r
            if ptr.blk.kind in ("stack", "obj", "global") or (not hint and size is not None):
                return None
        else:
            c0 = pd(ptr.off).get((), 0)
            cands = []
            for r in bs.regions:
                if r.length is None: cands.append(r)
                else:
                    hi = add(const(r.off), r.length)
                    if len(bs.regions) == 1 or s.known(st, and_(le(const(r.off), ptr.off), lt(ptr.off, hi))): cands.append(r)
            if len(cands) == 1: return cands[0]
            if cands: return cands[0]
        if ptr.blk.kind == "heap" and not bs.regions and not bs.cells:
            bs = st.wr(ptr.blk)
            r = Region(0, None, None, Base(fresh_name("raw"), {(-1, 0, "b"): FALSE}))
            bs.regions.append(r)
            return r
        if coff is not None: return None
        raise Unsupported("symbolic offset into %s" % ptr.blk)
    def settype(s, st, ptr, r, size, hint):
        if r.es is not None: return r
        g = 0
        for m, c in pd(ptr.off).items():
            if m != (): g = math.gcd(g, abs(c))
        es = hint or g or size
        if g and s.recstride and g % s.recstride == 0 and size is not None and size < s.recstride: es = s.recstride     # a field of a record, in an array of records
        if g and es and g % es: es = math.gcd(g, es)
        if not es: raise Unsupported("element size of %s" % ptr.blk)
        bs = st.wr(ptr.blk)
        for r2 in bs.regions:
            if r2.off == r.off: r2.es = es; return r2
    def index(s, r, off):
        rel = sub(off, const(r.off)); q = {}; fo = 0
        for m, c in pd(rel).items():
            if m == ():
                a, fo = divmod(c, r.es)
                if a: q[()] = a
            else:
                if c % r.es: raise Unsupported("offset %s not a multiple of element size %d" % (show(off), r.es))
                q[m] = c // r.es
        return frompd(q), fo
    def access(s, st, ptr, size, what):
        if ptr.blk is None:
            s.oblige(st, FALSE, "mem:null", what); st.assume(FALSE); raise DeadPath()
        bs = st.mem.get(ptr.blk.id)
        if not bs.alive:
            s.oblige(st, FALSE, "mem:use-after-free", "%s of %s" % (what, ptr.blk)); raise DeadPath()
        s.oblige(st, and_(ge(ptr.off, ZERO), le(add(ptr.off, size if isinstance(size, Term) else const(size)), ptr.blk.size)), "mem:bounds", "%s at %r size %s of block size %s" % (what, ptr, size, show(ptr.blk.size)))
    def load(s, st, ptr, ty):
        size = size_of(ty)
        s.access(st, ptr, size, "load")
        return s.load_nc(st, ptr, ty, size)
    def load_nc(s, st, ptr, ty, size):
        if ty.k == "struct" or ty.k == "array":
            n = len(ty.fields) if ty.k == "struct" else ty.n
            vs = []
            for i in range(n):
                o = field_off(ty, i) if ty.k == "struct" else i * size_of(ty.elem)
                ft = ty.fields[i] if ty.k == "struct" else ty.elem
                vs.append(s.load_nc(st, Ptr(ptr.blk, add(ptr.off, const(o)), ptr.hint), ft, size_of(ft)))
            return Agg(vs)
        r = s.findregion(st, ptr, size, ptr.hint)
        if r is not None and r.length is not None and r.es == 1 and ty.k == "double":      # bit pattern of a floating value held in bytes
            return s.ofbits(s.load_nc(st, ptr, IntT(64), 8))
        if r is None or (r.length is not None and s.celloverlay(st, ptr, size)):
            return s.loadcell(st, ptr, ty, size)
        if r.es == 1 and size in (2, 4, 8) and ty.k == "int" and (0, 1, "i") in r.fields:
            tot = ZERO
            for k in range(size): tot = add(tot, scale(s.uns(st, s.load_nc(st, Ptr(ptr.blk, add(ptr.off, const(k)), 1), IntT(8), 1), 8), 1 << (8 * k)))
            return s.sgn(st, tot, 8 * size)
        r = s.settype(st, ptr, r, size, ptr.hint)
        idx, fo = s.index(r, ptr.off)
        kind = fieldkind(ty)
        f = s.fieldof(r, fo, size, kind)
        if f[2] == "p":
            v = s.rdc(st, r.content, f, idx)
            if isinstance(v, Ptr): return v
            raise Unsupported("pointer loaded from symbolic region")
        v = s.rdc(st, r.content, f, idx)
        if ty.k == "int":
            if ty.n == 1: return ne(v, ZERO)
            s.ranged(st, v, ty.n)
        return v
    def bitsof(s, st, v):
        """the 64 bits (as a signed integer) of a floating value: an injective uninterpreted function"""
        if v.op == "app" and v.args[0] == "fpofbits": return v.args[1]
        b = app("fpbits", v); s.ranged(st, b, 64); return b
    def ofbits(s, b): return b.args[1] if b.op == "app" and b.args[0] == "fpbits" else app("fpofbits", b)
    def ranged(s, st, v, n):
        if v.op == "const" or (v.id, n) in st.ranged: return
        st.ranged.add((v.id, n))
        st.assume(s.rng(v, n))
    def fieldof(s, r, fo, size, kind):
        f = (fo, size, kind)
        if f not in r.fields:
            for g in r.fields:
                if g[0] < 0: continue
                if g[0] < fo + size and fo < g[0] + g[1] and (g[0], g[1]) != (fo, size):
                    raise Unsupported("mixed-size access to region field %s vs %s" % (f, g))
                if (g[0], g[1]) == (fo, size) and g[2] != kind:
                    if {g[2], kind} <= {"i", "d"}: return g
                    raise Unsupported("mixed-kind access")
            r.fields[f] = True
        return f
    def celloverlay(s, st, ptr, size):
        if not is_const(ptr.off): return False
        o = cval(ptr.off)
        for (co, cs) in st.mem[ptr.blk.id].cells:
            if co < o + size and o < co + cs: return True
        return False
    def loadcell(s, st, ptr, ty, size):
        o = cval(ptr.off); bs = st.mem[ptr.blk.id]
        v = bs.cells.get((o, size))
        if v is not None:
            if ty.k == "ptr":
                if isinstance(v, Ptr): return v
                if isinstance(v, Term) and is_const(v) and cval(v) == 0: return NULL
                return s.inttoptr(st, v)
            if isinstance(v, Ptr): return s.ptrtoint(st, v)
            if ty.k == "int" and ty.n == 1: return v if v.b else ne(v, ZERO)
            if v.b: return ite(v, ONE, ZERO)
            return v
        # composite
        ov = sorted((k, x) for k, x in bs.cells.items() if k[0] < o + size and o < k[0] + k[1])
        if ov:
            if any(isinstance(x, Ptr) for k, x in ov): raise Unsupported("partial pointer load")
            tot = ZERO; pos = o
            for (co, cs), x in ov:
                if x.b: x = ite(x, ONE, ZERO)
                u = s.uns(st, x, cs * 8)
                a, b = max(co, o), min(co + cs, o + size)
                piece = mod(div(u, 1 << (8 * (a - co))), 1 << (8 * (b - a))) if (a, b) != (co, co + cs) else u
                if a > pos:
                    g = fresh("uninit"); st.assume(between(ZERO, g, const(1 << (8 * (a - pos))))); tot = add(tot, scale(g, 1 << (8 * (pos - o))))
                tot = add(tot, scale(piece, 1 << (8 * (a - o)))); pos = b
            if pos < o + size:
                g = fresh("uninit"); st.assume(between(ZERO, g, const(1 << (8 * (o + size - pos))))); tot = add(tot, scale(g, 1 << (8 * (pos - o))))
            r = s.sgn(st, tot, size * 8)
            if ty.k == "int" and ty.n == 1: return ne(r, ZERO)
            if ty.k == "ptr": raise Unsupported("pointer from bytes")
            return r
        if ty.k == "ptr":
            if st.flags.get("undef_ptr_ok"): return Ptr(None, fresh("undefptr"))
            s.oblige(st, FALSE, "mem:uninitialized", "uninitialized pointer read from %s+%d" % (ptr.blk, o)); raise DeadPath()
        v = fresh("uninit")
        if ty.k == "int":
            if ty.n == 1: v = freshb("uninit")
            else: st.assume(s.rng(v, 8 * size))
        bs = st.wr(ptr.blk); bs.cells[(o, size)] = v
        return v
    def store(s, st, ptr, ty, v):
        size = size_of(ty)
        s.access(st, ptr, size, "store")
        s.store_nc(st, ptr, ty, v, size)
    def store_nc(s, st, ptr, ty, v, size):
        if isinstance(v, Agg) or ty.k in ("struct", "array"):
            n = len(ty.fields) if ty.k == "struct" else ty.n
            for i in range(n):
                o = field_off(ty, i) if ty.k == "struct" else i * size_of(ty.elem)
                ft = ty.fields[i] if ty.k == "struct" else ty.elem
                s.store_nc(st, Ptr(ptr.blk, add(ptr.off, const(o)), ptr.hint), ft, v.vals[i], size_of(ft))
            return
        if ptr.blk.kind == "ro": s.oblige(st, FALSE, "frame:read-only", "store to %s" % ptr.blk); raise DeadPath()
        r = s.findregion(st, ptr, size, ptr.hint)
        if r is not None and r.length is not None and r.es == 1 and ty.k == "double": return s.store_nc(st, ptr, IntT(64), s.bitsof(st, v), 8)
        if r is not None and r.length is not None and r.es in (1, 2) and size > r.es and not any(f[1] > r.es for f in r.fields): r = s.regionovl(st, ptr, r, size); 
        if r is None:
            o = cval(ptr.off)
            bs = st.wr(ptr.blk)
            s.splitcells(st, bs, o, size)
            bs.cells[(o, size)] = v
            return
        if r.length is not None and s.celloverlay(st, ptr, size):
            o = cval(ptr.off); bs = st.wr(ptr.blk)
            if all(isinstance(x, Term) for k, x in bs.cells.items() if k[0] < o + size and o < k[0] + k[1]):
                s.splitcells(st, bs, o, size); bs.cells[(o, size)] = v
                return
            s.splitcells(st, bs, o, size)
            r = s.findregion(st, ptr, size, ptr.hint)
        r = s.settype(st, ptr, r, size, ptr.hint)
        if r.length is not None and st.mem[ptr.blk.id].cells: s.dropovl(st, ptr, const(size), r)
        idx, fo = s.index(r, ptr.off)
        f = s.fieldof(r, fo, size, fieldkind(ty))
        bs = st.wr(ptr.blk)
        if isinstance(v, Term) and v.b and f[2] != "b": v = ite(v, ONE, ZERO)
        for r2 in bs.regions:
            if r2.off == r.off:
                if s.onstore is not None: s.onstore(st, ptr.blk, r2, f, idx, v)
                r2.content = Store(r2.content, f, idx, v)
    def regionovl(s, st, ptr, r, size):
        return None     # wide store over a byte region: becomes an overlay cell
    def dropovl(s, st, ptr, length, r):
        """a byte store with symbolic position into a region that has overlay cells: explode overlapping cells into bytes"""
        bs = st.wr(ptr.blk); lo = ptr.off; hi = add(ptr.off, length)
        for (co, cs), v in list(bs.cells.items()):
            if not (r.off <= co and (r.length is None or co + cs <= r.off + cval(r.length))): continue
            if s.known(st, or_(le(hi, const(co)), ge(lo, const(co + cs)))): continue
            del bs.cells[(co, cs)]
            w = r.es if r.es in (1, 2) else 1
            if (co - r.off) % w or cs % w: raise Unsupported("overlay cell not aligned with the elements")
            for k in range(cs // w):
                if isinstance(v, Ptr): byte = fresh("ptrbyte"); st.assume(s.rng(byte, 8 * w))
                else:
                    x = ite(v, ONE, ZERO) if v.b else v
                    byte = s.sgn(st, mod(div(s.uns(st, x, cs * 8), 1 << (8 * w * k)), 1 << (8 * w)), 8 * w) if cs > w else x
                for r2 in bs.regions:
                    if r2.off == r.off: r2.fields[(0, w, "i")] = True; r2.content = Store(r2.content, (0, w, "i"), const((co - r.off) // w + k), byte)
    def splitcells(s, st, bs, o, size):
        for (co, cs), v in list(bs.cells.items()):
            if co < o + size and o < co + cs and (co, cs) != (o, size):
                del bs.cells[(co, cs)]
                if isinstance(v, Ptr): continue
                x = ite(v, ONE, ZERO) if v.b else v
                u = None
                if co < o:
                    u = s.uns(st, x, cs * 8); bs.cells[(co, o - co)] = s.sgn(st, mod(u, 1 << (8 * (o - co))), 8 * (o - co))
                if co + cs > o + size:
                    u = u if u is not None else s.uns(st, x, cs * 8); k = o + size - co; w = co + cs - o - size
                    bs.cells[(o + size, w)] = s.sgn(st, mod(div(u, 1 << (8 * k)), 1 << (8 * w)), 8 * w)

    # ---------- reading layered contents
    def rdc(s, st, c, f, idx, anc=None):
        stack = []      # (cond, val)
        res = None
        while True:
            if anc is not None and c is anc[0]: c = anc[1]
            if isinstance(c, Base):
                cf = c.consts.get(f)
                res = cf(s, st, idx) if getattr(cf, "stateful", False) else c.at(f, idx); break
            if isinstance(c, Store):
                if c.field == f:
                    e = eq(c.idx, idx)
                    d = True if e is TRUE else False if e is FALSE else s.decide(st, e)
                    if d is True: res = c.val; break
                    if d is None: stack.append((e, c.val))
                c = c.prev; continue
            if isinstance(c, Copy):
                g, i2 = s.copymatch(st, c, idx); d = s.decide(st, g)
                if d is True: 
                    c, idx = c.src, add(i2, c.shift); continue
                if d is None: 
                    st2 = st.clone(); st2.assume(g)
                    v = s.rdc(st2, c.src, f, add(i2, c.shift), anc); stack.append((g, v))
                c = c.prev; continue
            if isinstance(c, For):
                if f not in c.known and f[0] >= 0: raise Unsupported("field %s first seen after a summarized loop" % (f,))
                if c.field == f:
                    g, v = s.formatch(st, c, idx)
                    if g is not FALSE:
                        d = s.decide(st, g)
                        if d is True: res = v; break
                        if d is None: stack.append((g, v))
                c = c.prev; continue
            raise Exception(c)
        for g, v in reversed(stack):
            if isinstance(v, Ptr) or isinstance(res, Ptr): raise Unsupported("conditional pointer content")
            res = (or_(and_(g, v), and_(not_(g), res)) if v.b else ite(g, v, res))
        return res
    def formatch(s, st, c, k):
        """condition and value for index k under parallel-store layer c"""
        live = [(v, T) for v, T in c.vars]
        for v, T in live:
            if not (syms(T) & frozenset(x.args[0] for x, _ in live)) and s.decide(st, ge(T, ONE)) is False: return FALSE, None
        coefs = []; A = c.idx
        names = {v.args[0]: v for v, T in live}
        cd = {v: {} for v, T in live}; ad = {}
        for m, co in pd(c.idx).items():
            vs = [a for a in m if a.op == "var" and a.args[0] in names]
            others = [a for a in m if a not in vs]
            if any(syms(a) & set(names) for a in others) or len(vs) > 1: raise Unsupported("nonlinear loop index")
            if vs: cd[vs[0]][tuple(others)] = co
            else: ad[m] = co
        A = frompd(ad); cl = [(v, T, frompd(cd[v])) for v, T in live]
        sol = {}; conds = []
        side = [ge(T, ONE) for v, T in live if not (syms(T) & set(names))]
        if c.guard is not TRUE: side += [g for g in (c.guard.args if c.guard.op == "and" else [c.guard]) if not (syms(g) & set(names))]
        s.solve(st, cl, A, k, sol, conds, side, names)
        cs = list(conds)
        for v, T in live:
            if v not in sol: raise Unsupported("unsolved loop index")
            cs += [le(ZERO, sol[v]), lt(sol[v], subst(T, sol))]
        if c.guard is not TRUE: cs.append(subst(c.guard, sol))
        return and_(*cs), subst(c.val, sol)
    strides = ()
    def copymatch(s, st, c, k):
        """condition for index k to lie in the copied interval, and k itself (written from the start of the interval where strides are known)"""
        for sg in s.strides:
            kq, kr = s.splitsyn(k, sg)
            if kq is ZERO: continue
            Aq, Ar = s.splitsyn(c.lo, sg); n = sub(c.hi, c.lo)
            st2 = st.clone(); st2.assume(ge(n, ONE))
            if s.known(st2, and_(le(ZERO, kr), lt(kr, sg))) and s.known(st2, and_(le(ZERO, Ar), le(add(Ar, n), sg))):
                return and_(s.eqsplit(st2, kq, Aq), le(Ar, kr), lt(kr, add(Ar, n))), add(c.lo, sub(kr, Ar))
            break
        return and_(le(c.lo, k), lt(k, c.hi)), k
    def eqsplit(s, st, k, A):
        """k == A, quotient by quotient where the remainders are known to be in range"""
        for sg in s.strides:
            kq, kr = s.splitsyn(k, sg); Aq, Ar = s.splitsyn(A, sg)
            if (kq is not ZERO or Aq is not ZERO) and s.known(st, and_(le(ZERO, kr), lt(kr, sg), le(ZERO, Ar), lt(Ar, sg))): return and_(s.eqsplit(st, kq, Aq), eq(kr, Ar))
        return eq(k, A)
    def forstrides(s, st, c):
        """symbolic strides of a parallel-store layer, innermost first, and the offset of its first index when it is not a multiple of them"""
        names = {v.args[0] for v, T in c.vars}; cd = {v: {} for v, T in c.vars}; ad = {}
        for m, co in pd(c.idx).items():
            vs = [a for a in m if a.op == "var" and a.args[0] in names]
            if len(vs) > 1: return [], ZERO
            if vs: cd[vs[0]][tuple(a for a in m if a not in vs)] = co
            else: ad[m] = co
        A = frompd(ad); cl = [(v, T, frompd(cd[v])) for v, T in c.vars if cd[v]]; sgs = []; off = ZERO
        unit = [x for x in cl if is_const(x[2]) and abs(cval(x[2])) == 1]
        rest = [x for x in cl if x not in unit]
        while rest and not all(is_const(x[2]) for x in rest):
            sg = s.commonatom([x[2] for x in rest])
            if sg is None: return [], ZERO
            if not sgs and unit:
                v, T, co = unit[0]; Ar = s.splitsyn(A, sg)[1]; lo, hi = (Ar, add(Ar, sub(T, ONE))) if cval(co) == 1 else (sub(Ar, sub(T, ONE)), Ar)
                if not (syms(T) & names) and cval(co) == 1 and not s.known(st, and_(le(ZERO, lo), lt(hi, sg))): off = Ar
            sgs.append(sg); rest = [(v, T, s.divatom(co, sg)) for v, T, co in rest]
            rest = [x for x in rest if not (is_const(x[2]) and abs(cval(x[2])) == 1)]
        return sgs, off
    def solve(s, st, cl, A, k, sol, conds, side, names):
        if not cl:
            conds.append(eq(k, A)); return
        free = [x for x in cl if x[2] is ZERO]
        if free:
            # index does not depend on this variable: the last iteration wins
            v, T, co = free[-1]
            sol[v] = sub(T, ONE)
            return s.solve(st, [x for x in cl if x is not free[-1]], A, k, sol, conds, side, names)
        unit = [x for x in cl if is_const(x[2]) and abs(cval(x[2])) == 1]
        if len(cl) == 1:
            v, T, co = cl[0]
            d = sub(k, A)
            if unit:
                for sg in s.strides:
                    kq, kr = s.splitsyn(k, sg)
                    if kq is ZERO or syms(T) & set(names): continue
                    Aq, Ar = s.splitsyn(A, sg); lo, hi = (Ar, add(Ar, sub(T, ONE))) if cval(co) == 1 else (sub(Ar, sub(T, ONE)), Ar)
                    st2 = st.clone(); st2.assume(*side); st2.assume(ge(T, ONE))
                    if s.known(st2, and_(le(ZERO, kr), lt(kr, sg))) and s.known(st2, and_(le(ZERO, lo), lt(hi, sg))):
                        conds.append(s.eqsplit(st2, kq, Aq)); sol[v] = scale(sub(kr, Ar), cval(co)); return
                    break
                sol[v] = scale(d, cval(co)); return
            if is_const(co):
                c = cval(co)
                if c < 0: d = neg(d)
                sol[v] = div(d, abs(c)); conds.append(eq(mod(d, abs(c)), ZERO)); return
            # symbolic stride
            sg = s.commonatom([co])
            if sg is None: raise Unsupported("stride")
            kq, kr = s.split(st, k, sg); Aq, Ar = s.split(st, A, sg)
            conds.append(eq(kr, Ar))
            return s.solve(st, [(v, T, s.divatom(co, sg))], Aq, kq, sol, conds, side, names)
        if len(unit) > 1: raise Unsupported("two unit loop indices")
        rest = [x for x in cl if x not in unit]
        sg = s.commonatom([x[2] for x in rest])
        if sg is None:
            raise Unsupported("no common stride")
        st2 = st.clone(); st2.assume(*side)
        kq, kr = s.split(st2, k, sg)
        if unit:
            u, T, co = unit[0]
            Aq, Ar = s.splitsyn(A, sg)
            if syms(T) & set(names): hi = T
            lo_e = Ar if cval(co) == 1 else sub(Ar, sub(T, ONE)); hi_e = add(Ar, sub(T, ONE)) if cval(co) == 1 else Ar
            if not s.known(st2, and_(le(ZERO, lo_e), lt(hi_e, sg))) and s.known(st2, and_(le(ZERO, add(lo_e, sg)), lt(hi_e, ZERO))):
                Aq, Ar = sub(Aq, ONE), add(Ar, sg)
            elif not s.known(st2, and_(le(ZERO, lo_e), lt(hi_e, sg))):
                if not (cval(co) == 1 and s.known(st2, le(T, sg)) and not (syms(T) & set(names))): raise Unsupported("inner index not within stride")
                kq, kr = s.split(st2, sub(k, A), sg); Aq, Ar = ZERO, ZERO       # measure the index from the start of the block
            sol[u] = scale(sub(kr, Ar), cval(co))
        else:
            Aq, Ar = s.split(st2, A, sg); conds.append(eq(kr, Ar))
        s.solve(st2, [(v, T, s.divatom(co, sg)) for v, T, co in rest], Aq, kq, sol, conds, side, names)
    def commonatom(s, cos):
        sets = []
        for co in cos:
            for m in pd(co):
                sets.append(set(m))
        i = set.intersection(*sets)
        if not i: return None
        return sorted(i, key=lambda a: a.id)[0]
    def divatom(s, co, a):
        d = {}
        for m, c in pd(co).items():
            l = list(m); l.remove(a); d[tuple(l)] = c
        return frompd(d)
    def splitsyn(s, k, sg):
        q = {}; r = {}
        for m, c in pd(k).items():
            if sg in m:
                l = list(m); l.remove(sg); q[tuple(l)] = q.get(tuple(l), 0) + c
            else: r[m] = c
        return frompd(q), frompd(r)
    def split(s, st, k, sg):
        q, r = s.splitsyn(k, sg)
        if s.known(st, and_(le(ZERO, r), lt(r, sg))): return q, r
        if s.known(st, and_(le(ZERO, add(r, sg)), lt(r, ZERO))): return sub(q, ONE), add(r, sg)
        return add(q, divt(r, sg)), modt(r, sg)     # meaningful when sg >= 1 (every use is guarded by a non-empty range)

    # ---------- pointers
    def ptrtoint(s, st, p):
        if p.blk is None: return p.off
        s.addrfacts(st, p.blk)
        return add(p.blk.addr, p.off)
    def inttoptr(s, st, v):
        if is_const(v) and cval(v) == 0: return NULL
        for m, c in pd(v).items():
            if len(m) == 1 and c == 1 and m[0].op == "var" and m[0].args[0].startswith("addr!"):
                b = st.blocks[int(m[0].args[0][5:])]
                return Ptr(b, sub(v, b.addr))
        raise Unsupported("inttoptr")
    def ptrcmp(s, st, pr, a, b):
        if a.blk is b.blk:
            x, y = a.off, b.off
            if pr == "eq": return eq(x, y)
            if pr == "ne": return ne(x, y)
            return {"ult": lt, "ule": le, "ugt": gt, "uge": ge, "slt": lt, "sle": le, "sgt": gt, "sge": ge}[pr](x, y)
        if pr in ("eq", "ne"):
            n = a if a.blk is None else b if b.blk is None else None
            if n is not None and not (is_const(n.off)):
                # null + symbolic offset compared with a block
                pass
            return FALSE if pr == "eq" else TRUE
        n, o = (a, b) if a.blk is None else (b, a)
        if n.blk is None and n.off is ZERO:
            lt_ = a is n       # null < block
            return TRUE if pr in (("ult", "ule") if lt_ else ("ugt", "uge")) else FALSE
        raise Unsupported("ordering of pointers into different blocks")

    # ---------- operands
    def val(s, st, fr, o):
        k = o.k
        if k == "local":
            v = fr.env.get(o.v)
            if v is None: raise Unsupported("undefined local " + o.v)
            return v
        if k == "int":
            if o.ty.k == "int" and o.ty.n == 1: return TRUE if o.v else FALSE
            n = o.ty.n; v = o.v & ((1 << n) - 1)
            return const(v - (1 << n) if v >> (n - 1) else v)
        if k == "null": return NULL
        if k == "global": return s.globalptr(st, o.v)
        if k == "undef" or k == "zero":
            return s.zeroval(st, o.ty, k == "undef")
        if k == "fp": return s.fpconst(st, o.v)
        if k == "gep":
            et, ops, fl = o.v
            return s.gep(st, fr, et, ops)
        if k == "agg": return Agg([s.val(st, fr, x) for x in o.v])
        if k == "str": return Agg([const(c - 256 if c > 127 else c) for c in o.v])
        if k == "cast":
            op, v, t = o.v
            x = s.val(st, fr, v)
            if op == "ptrtoint": return s.ptrtoint(st, x)
            if op == "inttoptr": return s.inttoptr(st, x)
            return x
        raise Unsupported("operand " + k)
    def zeroval(s, st, ty, undef):
        if ty.k == "int":
            if ty.n == 1: return freshb("undef") if undef else FALSE
            return s.newint(st, "undef", ty.n) if undef else ZERO
        if ty.k == "ptr": return NULL
        if ty.k in ("double", "float", "fp80"): return fresh("undeffp") if undef else s.fpconst(st, "0.0")
        if ty.k == "struct": return Agg([s.zeroval(st, f, undef) for f in ty.fields])
        if ty.k == "array": return Agg([s.zeroval(st, ty.elem, undef) for i in range(ty.n)])
        raise Unsupported("zero " + ty.k)
    def fpconst(s, st, txt):
        if txt.startswith("0x") and txt[2] not in "KLMHR":
            import struct
            v = struct.unpack(">d", bytes.fromhex(txt[2:].rjust(16, "0")))[0]; nm = repr(v)
        elif txt.startswith("0x"): nm = txt; v = None
        else: v = float(txt); nm = repr(v)
        if v == 0: return ZERO      # the order embedding of the doubles into the integers is symmetric, with both zeros at 0
        c = app("fp:" + nm)
        if v is not None and v == v:
            reg = st.flags.setdefault("fpc", {})
            if nm not in reg:
                reg = dict(reg); st.assume(lt(c, ZERO) if v < 0 else gt(c, ZERO))
                for n2, v2 in reg.items():
                    c2 = app("fp:" + n2)
                    st.assume(lt(c, c2) if v < v2 else gt(c, c2) if v > v2 else eq(c, c2))
                reg[nm] = v; st.flags["fpc"] = reg
        return c
    def globalptr(s, st, name):
        g = s.globals.get(name)
        if name in s.m.funcs: return Ptr(Block("fn:" + name, "fn", ZERO), ZERO)
        if g is None:
            if name not in s.m.globals: raise Unsupported("global " + name)
            ty, init, cst = s.m.globals[name]
            b = Block(name, "global", const(size_of(ty))); s.globals[name] = g = b
        if g.id not in st.mem:
            ty, init, cst = s.m.globals[name]
            st.mem[g.id] = BState(); st.blocks[g.id] = g
            bs = st.mem[g.id]
            if ty.k == "array" and ty.elem.k == "int":
                es = size_of(ty.elem); vals = None
                if init is not None and init.k == "str": vals = [c - 256 if c > 127 else c for c in init.v]
                elif init is not None and init.k == "zero": vals = [0] * ty.n
                elif init is not None and init.k == "agg" and all(x.k == "int" for x in init.v): vals = [x.v for x in init.v]
                r = Region(0, const(size_of(ty)), es, Base(fresh_name("glob")))
                r.fields[(0, es, "i")] = True
                if vals is not None and cst:
                    c = r.content
                    def cf(idx, vals=vals, nm=r.content.name):
                        if is_const(idx) and 0 <= cval(idx) < len(vals): return const(vals[cval(idx)])
                        e = const(vals[-1])
                        if len(vals) > 70: return app(nm, idx)
                        for j in range(len(vals) - 2, -1, -1): e = ite(eq(idx, const(j)), const(vals[j]), e)
                        return e
                    r.content = Base(r.content.name, {(0, es, "i"): cf})
                bs.regions.append(r)
            elif init is not None and init.k != "str" and cst:
                s.store_nc(st, Ptr(g, ZERO), ty, s.val(st, None, init), size_of(ty))
            g.ty = ty
        return Ptr(g, ZERO)
    def gep(s, st, fr, et, ops):
        p = s.val(st, fr, ops[0])
        if not isinstance(p, Ptr): raise Unsupported("gep base")
        off = p.off; hint = p.hint
        i0 = s.val(st, fr, ops[1]); es = size_of(et)
        if i0 is not ZERO:
            off = add(off, scale(i0, es))
        if len(ops) == 2 and (es > 1 or not hint): hint = es
        elif len(ops) > 2 and i0 is not ZERO: hint = es
        t = et
        for o in ops[2:]:
            if t.k == "struct":
                k = o.v; off = add(off, const(field_off(t, k))); t = t.fields[k]
            else:
                iv = s.val(st, fr, o); t = t.elem; off = add(off, scale(iv, size_of(t))); hint = size_of(t)
        return Ptr(p.blk, s.unmod(st, off), hint)

    # ---------- instruction semantics
    def binop(s, st, op, a, b, n, fl):
        if n == 1:
            if op == "and": return and_(a, b)
            if op == "or": return or_(a, b)
            if op == "xor": return not_(iff(a, b))
            a, b = (ite(x, ONE, ZERO) for x in (a, b))
            raise Unsupported("i1 " + op)
        if op in ("add", "sub", "mul"):
            r = add(a, b) if op == "add" else sub(a, b) if op == "sub" else mul(a, b)
            if "nsw" in fl:
                s.oblige(st, s.rng(r, n), "arith:overflow", "%s %s %s" % (show(a), op, show(b)))
                return r
            if s.known(st, s.rng(r, n)): return r
            if op in ("add", "sub"):
                # work with the values whose wrap is easiest
                h = 1 << (n - 1)
                if s.known(st, and_(le(const(-3 * h), r), lt(r, const(3 * h)))):
                    return ite(ge(r, const(h)), sub(r, const(2 * h)), ite(lt(r, const(-h)), add(r, const(2 * h)), r)) if not s.known(st, ge(r, const(-h))) else ite(ge(r, const(h)), sub(r, const(2 * h)), r)
            return s.wrap(st, r, n)
        if op in ("sdiv", "srem"):
            s.oblige(st, ne(b, ZERO), "arith:div-zero", show(b))
            s.oblige(st, not_(and_(eq(a, const(-(1 << (n - 1)))), eq(b, const(-1)))), "arith:overflow", "sdiv")
            if "exact" in fl and is_const(b) and op == "sdiv":
                d = pd(a); c = cval(b)
                if all(k % c == 0 for k in d.values()): return frompd({m: k // c for m, k in d.items()})
            if is_const(b) and cval(b) != 0:
                c = abs(cval(b)); sg = 1 if cval(b) > 0 else -1
                if s.known(st, ge(a, ZERO)): q = div(a, c)
                elif s.known(st, le(a, ZERO)): q = neg(div(neg(a), c))
                else: q = ite(ge(a, ZERO), div(a, c), neg(div(neg(a), c)))
                q2 = scale(q, sg)
                return q2 if op == "sdiv" else sub(a, scale(q2, cval(b)))
            sa = s.decide(st, ge(a, ZERO)); sb = s.decide(st, ge(b, ZERO))
            ab = lambda x, sg: x if sg is True else neg(x) if sg is False else ite(ge(x, ZERO), x, neg(x))
            aa, bb = ab(a, sa), ab(b, sb)
            q, r = divt(aa, bb), modt(aa, bb)      # |a| / |b|, truncation towards zero
            if op == "srem": return ab2(a, sa, r)
            if sa is not None and sb is not None: return q if sa == sb else neg(q)
            return ite(iff(ge(a, ZERO), ge(b, ZERO)), q, neg(q))
        if op in ("udiv", "urem"):
            s.oblige(st, ne(b, ZERO), "arith:div-zero", show(b))
            ua, ub = s.uns(st, a, n), s.uns(st, b, n)
            if is_const(ub) and cval(ub) > 0: r = div(ua, cval(ub)) if op == "udiv" else mod(ua, cval(ub))
            else: r = divt(ua, ub) if op == "udiv" else modt(ua, ub)
            return s.sgn(st, r, n)
        if op == "shl":
            if not is_const(b):
                if is_const(a):
                    return s.shl_sym(st, a, b, n, fl)
                raise Unsupported("shl by symbolic amount")
            k = cval(b)
            r = scale(a, 1 << k)
            if "nsw" in fl: s.oblige(st, s.rng(r, n), "arith:overflow", "shl"); return r
            return s.wrap(st, r, n)
        if op == "lshr":
            if not is_const(b): raise Unsupported("lshr by symbolic amount")
            if cval(b) == 0: return a
            return div(s.uns(st, a, n), 1 << cval(b))
        if op == "ashr":
            if not is_const(b): raise Unsupported("ashr by symbolic amount")
            return div(a, 1 << cval(b))
        if op in ("and", "or", "xor"):
            x = s.bitand(st, a, b, n)
            if op == "and": return x
            r = sub(add(a, b), x) if op == "or" else sub(add(a, b), scale(x, 2))
            return r      # identity holds for two's complement values
        raise Unsupported(op)
    def pow2(s, st, k):
        """2^k for symbolic k with 0<=k<=62"""
        t = app("pow2", k)
        if ("pow2", k.id) not in st.flags:
            st.flags[("pow2", k.id)] = True
            st.assume(ge(t, ONE))
            st.assume(implies(ge(k, ONE), eq(t, scale(app("pow2", sub(k, ONE)), 2))))
            st.assume(implies(eq(k, ZERO), eq(t, ONE)))
            st.assume(eq(app("pow2", add(k, ONE)), scale(t, 2)))
            st.assume(implies(le(k, const(62)), le(t, const(1 << 62))))
            st.assume(ge(t, add(k, ONE)), ge(app("pow2", sub(k, ONE)), ZERO))
            for j in range(0, 8):
                st.assume(implies(le(const(j), k), le(const(1 << j), t)), implies(le(k, const(j)), le(t, const(1 << j))))
            for j in (15, 16, 24, 30, 31, 32, 40, 48, 55, 56, 60, 61, 62):
                st.assume(implies(le(const(j), k), le(const(1 << j), t)), implies(le(k, const(j)), le(t, const(1 << j))))
        return t
    def shl_sym(s, st, a, b, n, fl):
        if not s.known(st, and_(ge(b, ZERO), lt(b, const(n)))):
            s.oblige(st, and_(ge(b, ZERO), lt(b, const(n))), "arith:shift", "shift amount %s" % show(b))
        r = mul(a, s.pow2(st, b))
        if "nsw" in fl: s.oblige(st, s.rng(r, n), "arith:overflow", "shl"); return r
        return s.wrap(st, r, n)
    def bitand(s, st, a, b, n):
        if is_const(a): a, b = b, a
        if is_const(b):
            m = cval(b) & ((1 << n) - 1)
            if is_const(a):
                v = cval(a) & m; return const(v - (1 << n) if v >> (n - 1) else v)
            if m == 0: return ZERO
            if m == (1 << n) - 1: return a
            tot = ZERO; i = 0
            # signed value works with floor div/mod except for the top run
            while i < n:
                if (m >> i) & 1:
                    j = i
                    while j < n and (m >> j) & 1: j += 1
                    if j == n: tot = add(tot, scale(div(a, 1 << i), 1 << i))     # sign-carrying top run
                    else: tot = add(tot, scale(mod(div(a, 1 << i), 1 << (j - i)), 1 << i))
                    i = j
                else: i += 1
            return tot
        if a is b: return a
        # disjoint?
        for k in (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 32, 48, 56):
            for x, y in ((a, b), (b, a)):
                if is_const(mod(y, 1 << k)) and mod(y, 1 << k) is ZERO and s.known(st, and_(ge(x, ZERO), lt(x, const(1 << k)))): return ZERO
        if a.id > b.id: a, b = b, a
        t = app("band%d" % n, a, b)
        if ("band", t.id) not in st.flags:
            st.flags[("band", t.id)] = True
            st.assume(implies(ge(a, ZERO), and_(le(ZERO, t), le(t, a))), implies(ge(b, ZERO), and_(le(ZERO, t), le(t, b))), s.rng(t, n))
            # mask of the form pow2(k)-1
            for x, y in ((a, b), (b, a)):
                q = add(y, ONE)
                if q.op == "app" and q.args[0] == "pow2": st.assume(implies(ge(x, ZERO), eq(t, modt(x, q))))
        return t
    def icmp(s, st, pr, a, b, ty):
        if ty.k == "ptr": return s.ptrcmp(st, pr, a, b)
        n = ty.n
        if n == 1:
            if pr == "eq": return iff(a, b)
            if pr == "ne": return not_(iff(a, b))
            a, b = ite(a, ONE, ZERO), ite(b, ONE, ZERO)
        if pr == "eq": return eq(a, b)
        if pr == "ne": return ne(a, b)
        if pr[0] == "s": return {"slt": lt, "sle": le, "sgt": gt, "sge": ge}[pr](a, b)
        # unsigned comparison on canonical signed values
        if pr in ("ugt", "uge"): a, b, pr = b, a, {"ugt": "ult", "uge": "ule"}[pr]
        if pr == "ult" and a is ZERO: return ne(b, ZERO)
        if pr == "ult" and b is ONE: return eq(a, ZERO)
        if pr == "ule" and a is ONE: return ne(b, ZERO)
        if pr == "ule" and b is ZERO: return eq(a, ZERO)
        c = lt if pr == "ult" else le
        da, db = s.decide(st, ge(a, ZERO)), s.decide(st, ge(b, ZERO))
        if da is not None and db is not None:
            if da == db: return c(a, b)
            return TRUE if da else FALSE
        if db is True: return and_(ge(a, ZERO), c(a, b))
        if da is True: return or_(lt(b, ZERO), c(a, b))
        return or_(and_(ge(a, ZERO), lt(b, ZERO)), and_(iff(ge(a, ZERO), ge(b, ZERO)), c(a, b)))
    def fcmp(s, st, pr, a, b):
        s.assumed.add("floating-point comparisons are modelled as a total order (no NaN; +0 and -0 identified; negation is the mirror)")
        p = pr[1:]
        if pr == "true": return TRUE
        if pr == "false": return FALSE
        if pr == "ord": return TRUE
        if pr == "uno": return FALSE
        return {"eq": eq, "ne": ne, "lt": lt, "le": le, "gt": gt, "ge": ge}[p](a, b)

    # ---------- main loop
    def call(s, st, name, args):
        """run function `name` (IR name without @) from st to completion; returns list of terminal states"""
        fn = s.m.funcs["@" + name]
        st = st.clone()
        s.push(st, fn, args, None)
        s.outs_abort = []
        outs, _, _ = s.run([st], 0, None, None)
        outs = outs + s.outs_abort; s.outs_abort = []
        return outs
    def push(s, st, fn, args, retvar):
        if len(st.frames) > 60: raise Unsupported("call depth")
        f = Frame(fn); f.ret = retvar
        for (t, nm, at), v in zip(fn.params, args): f.env[nm] = v
        f.blk = fn.order[0]; f.ip = 0
        st.frames.append(f); s.inlined.add(fn.name)
    def run(s, work, depth, loop, stopframe):
        """explore; with loop given, collect back-edge states and states that leave the loop"""
        terms = []; backs = []; exits = []; work = list(work); npaths = 0
        while work:
            st = work.pop()
            npaths += 1
            if npaths > s.maxpaths: raise LimitExceeded("path limit")
            if s.deadline and time.time() > s.deadline: raise LimitExceeded("time budget")
            try:
                while True:
                    # leave conditions
                    if loop is not None:
                        if len(st.frames) < depth: exits.append(st); break
                        if len(st.frames) == depth:
                            fr = st.frames[-1]
                            if fr.ip == 0 and fr.blk == loop.header and fr.prev in loop.latches and not st.flags.get("justentered"): backs.append(st); break
                            if fr.blk not in loop.blocks: exits.append(st); break
                    if not st.frames: terms.append(st); break
                    fr = st.frames[-1]
                    lps = find_loops(fr.fn)
                    if fr.ip == 0 and fr.blk in lps:
                        lp = lps[fr.blk]
                        if st.flags.pop("justentered", None): pass
                        elif fr.prev not in lp.latches or st.flags.get(("unroll", len(st.frames), fr.blk)) is None:
                            res = s.enter_loop(st, lp)
                            if res is None:    # unroll concretely
                                pass
                            else:
                                work += res; break
                        else:
                            k = ("unroll", len(st.frames), fr.blk); st.flags[k] += 1
                            if st.flags[k] > 130: raise Unsupported("loop not unrollable")
                    if fr.ip == 0: s.phis(st, fr)
                    nxt = s.block(st, fr)
                    if nxt is None: terms.append(st) if loop is None else terms.append(st); break
                    if len(nxt) == 1 and nxt[0] is st: continue
                    work += nxt; break
            except DeadPath: continue
            except Unsupported as e:
                if s.checking: s.count("supported"); s.fail(st, "unsupported", str(e), None, "unknown")
                else: raise
        return terms, backs, exits
    def phis(s, st, fr):
        b = fr.fn.blocks[fr.blk]; i = 0; new = {}
        while i < len(b) and b[i].op == "phi":
            ins = b[i]
            if fr.prev is not None and ins.res not in (st.flags.get("phidone") or ()):
                for v, pb in ins.x:
                    if pb == fr.prev: new[ins.res] = s.val(st, fr, v); break
                else: raise Unsupported("phi")
            i += 1
        fr.env.update(new); fr.ip = i
        st.flags.pop("phidone", None)
    def goto(s, st, fr, b): fr.prev, fr.blk, fr.ip = fr.blk, b, 0
    def branch(s, st, cond):
        """-> (true_state or None, false_state or None)"""
        if cond is TRUE: return st, None
        if cond is FALSE: return None, st
        nc = not_(cond)
        for c in st.pc:
            if c is cond: return st, None
            if c is nc: return None, st
        ft = s.p.feasible(st.pc, cond); ff = s.p.feasible(st.pc, nc) if ft else True
        if ft and ff:
            o = st.clone()
            st.assume(cond); st.conds.append(cond); o.assume(nc); o.conds.append(nc)
            return st, o
        if ft: st.assume(cond); st.conds.append(cond); return st, None
        st.assume(nc); st.conds.append(nc); return None, st
    def block(s, st, fr):
        """execute from fr.ip until control leaves the block or a call/return happens; returns list of states, None = terminal"""
        code = fr.fn.blocks[fr.blk]
        while True:
            ins = code[fr.ip]; op = ins.op; fr.ip += 1
            if op == "call":
                r = s.docall(st, fr, ins)
                if r is None: continue
                return r
            if op == "jmp": s.goto(st, fr, ins.x); return [st]
            if op == "br":
                c = s.val(st, fr, ins.args[0]); a, b = ins.x
                t, f = s.branch(st, c); out = []
                if t is not None: s.goto(t, t.frames[-1], a); out.append(t)
                if f is not None: s.goto(f, f.frames[-1], b); out.append(f)
                return out
            if op == "switch":
                v = s.val(st, fr, ins.args[0]); d, cases = ins.x; out = []; cur = st
                for cv, lab in cases:
                    n = ins.ty.n; cv &= (1 << n) - 1; cv = cv - (1 << n) if cv >> (n - 1) else cv
                    t, f = s.branch(cur, eq(v, const(cv)))
                    if t is not None: s.goto(t, t.frames[-1], lab); out.append(t)
                    cur = f
                    if cur is None: break
                if cur is not None: s.goto(cur, cur.frames[-1], d); out.append(cur)
                return out
            if op == "ret":
                v = s.val(st, fr, ins.args[0]) if ins.args else None
                for b in fr.allocas:
                    if b.id in st.mem:
                        if b.haslive: s.check_no_live(st, b)
                        bs = st.wr(b); bs.alive = False
                st.frames.pop()
                if not st.frames: st.kind = "return"; st.val = v; return None
                if fr.ret is not None: st.frames[-1].env[fr.ret] = v
                return [st]
            if op == "unreachable":
                s.oblige(st, FALSE, "flow:unreachable", "unreachable/missing return reached"); raise DeadPath()
            if op == "select":
                c = s.val(st, fr, ins.args[0]); a = s.val(st, fr, ins.args[1]); b = s.val(st, fr, ins.args[2])
                if isinstance(a, Term) and isinstance(b, Term) and (a.b or True):
                    fr.env[ins.res] = ite(c, a, b) if not a.b else or_(and_(c, a), and_(not_(c), b)); continue
                t, f = s.branch(st, c); out = []
                if t is not None: t.frames[-1].env[ins.res] = a; out.append(t)
                if f is not None: f.frames[-1].env[ins.res] = b; out.append(f)
                if len(out) == 1 and out[0] is st: continue
                return out
            s.simple(st, fr, ins)
    def simple(s, st, fr, ins):
        op = ins.op; V = lambda i: s.val(st, fr, ins.args[i])
        if op in llir.BIN:
            if op[0] == "f" :
                fr.env[ins.res] = app(op, V(0), V(1)); s.assumed.add("floating-point arithmetic is uninterpreted")
            else: fr.env[ins.res] = s.binop(st, op, V(0), V(1), ins.ty.n, ins.x)
        elif op == "icmp": fr.env[ins.res] = s.icmp(st, ins.x, V(0), V(1), ins.ty)
        elif op == "fcmp": fr.env[ins.res] = s.fcmp(st, ins.x, V(0), V(1))
        elif op == "load": fr.env[ins.res] = s.load(st, s.asptr(V(0)), ins.ty)
        elif op == "store": s.store(st, s.asptr(V(1)), ins.ty, V(0))
        elif op == "getelementptr": fr.env[ins.res] = s.gep(st, fr, ins.ty, ins.args)
        elif op == "alloca":
            n = size_of(ins.ty)
            b = s.alloc(st, fr.fn.name[1:30] + "." + ins.res, "stack", const(n), 16, ins.ty); fr.allocas.append(b)
            s.autoregions(st, b, ins.ty, 0); b.haslive = s.has_opaque(ins.ty)
            fr.env[ins.res] = Ptr(b, ZERO)
        elif op in llir.CAST:
            a = V(0); t = ins.ty; ft = ins.args[0].ty
            if op == "zext":
                fr.env[ins.res] = (ite(a, ONE, ZERO) if ft.n == 1 else s.uns(st, a, ft.n))
            elif op == "sext": fr.env[ins.res] = ite(a, const(-1), ZERO) if ft.n == 1 else a
            elif op == "trunc":
                if t.n == 1: fr.env[ins.res] = ne(mod(a, 2), ZERO)
                else: fr.env[ins.res] = s.wrap(st, a, t.n)
            elif op == "ptrtoint": fr.env[ins.res] = s.ptrtoint(st, a)
            elif op == "inttoptr": fr.env[ins.res] = s.inttoptr(st, a)
            elif op == "bitcast": fr.env[ins.res] = a
            elif op in ("fptosi", "fptoui"):
                r = app(op, a); fr.env[ins.res] = r; s.ranged(st, r, t.n)
            else: fr.env[ins.res] = app(op, a)
        elif op == "freeze": fr.env[ins.res] = V(0)
        elif op == "fneg": fr.env[ins.res] = sub(ZERO, V(0))
        elif op == "extractvalue":
            a = V(0)
            for i in ins.x: a = a.vals[i]
            fr.env[ins.res] = a
        elif op == "insertvalue":
            a = V(0); b = V(1)
            def ins_(a, ix):
                vs = list(a.vals)
                vs[ix[0]] = b if len(ix) == 1 else ins_(vs[ix[0]], ix[1:])
                return Agg(vs)
            fr.env[ins.res] = ins_(a, ins.x)
        else: raise Unsupported("instruction " + op)
    def asptr(s, p):
        if isinstance(p, Ptr): return p
        raise Unsupported("non-pointer address")
    def has_opaque(s, ty):
        if ty.k == "array": return s.has_opaque(ty.elem)
        if ty.k == "struct": return ty.name in s.opaque or any(s.has_opaque(f) for f in ty.fields or [])
        return False
    def autoregions(s, st, b, ty, off):
        """declare regions for array members (symbolically indexable) of a stack/object block"""
        if ty.k == "array" and ty.elem.k in ("int", "double", "float") and ty.n > 1:
            r = Region(off, const(size_of(ty)), size_of(ty.elem) , Base(fresh_name("arr"), {(-1, 0, "b"): FALSE})); st.mem[b.id].regions.append(r)
            if ty.elem.k == "int" and ty.elem.n == 8: r.es = None
        elif ty.k == "array":
            if (ty.elem.k == "struct" and ty.elem.name in s.opaque):
                st.mem[b.id].regions.append(Region(off, const(size_of(ty)), size_of(ty.elem), Base(fresh_name("arr"), {(-1, 0, "b"): FALSE})))
            elif ty.n <= 8:
                for i in range(ty.n): s.autoregions(st, b, ty.elem, off + i * size_of(ty.elem))
        elif ty.k == "struct":
            if ty.name in s.byteobjs:
                st.mem[b.id].regions.append(Region(off, const(size_of(ty)), s.byteobjs[ty.name], Base(fresh_name("arr"))))
                return
            if ty.name in s.opaque:
                st.mem[b.id].regions.append(Region(off, const(size_of(ty)), size_of(ty), Base(fresh_name("arr"), {(-1, 0, "b"): FALSE})))
                return
            for i, f in enumerate(ty.fields or []): s.autoregions(st, b, f, off + field_off(ty, i))

    # ---------- calls
    def docall(s, st, fr, ins):
        name = ins.x
        if name[0] != "@":
            p = fr.env.get(name)
            if isinstance(p, Ptr) and p.blk is not None and p.blk.kind == "fn": name = p.blk.name[3:].split("#")[0]
            else: raise Unsupported("indirect call")
        args = []
        h = s.handler(name)
        for a, at in ins.args:
            args.append(None if a is None else s.val(st, fr, a))
        if h is not None:
            res = h(s, st, args, ins)
            if res is None:
                return None
            if isinstance(res, list):
                out = []
                for st2, v in res:
                    if st2.kind is not None: out.append(st2)
                    else:
                        if ins.res is not None: st2.frames[-1].env[ins.res] = v
                        out.append(st2)
                live = []
                for x in out:
                    if x.kind is not None:
                        x.frames_at = [f.fn.name for f in x.frames]
                        s.pending_term(x)
                    else: live.append(x)
                return live
            if ins.res is not None: fr.env[ins.res] = res
            return None
        fn = s.m.funcs.get(name)
        if fn is None or not fn.defined: raise Unsupported("external function " + s.dn(name))
        for i, (a, at) in enumerate(ins.args):
            for x in at:
                if isinstance(x, tuple) and x[0] == "byval":
                    # private copy for the callee
                    t = x[1]; b = s.alloc(st, "byval", "stack", const(size_of(t)), 16, t); s.autoregions(st, b, t, 0)
                    copybytes(s, st, Ptr(b, ZERO), args[i], const(size_of(t))); args[i] = Ptr(b, ZERO)
        if sum(1 for f in st.frames if f.fn is fn) > 3: raise Unsupported("recursion in " + s.dn(name))
        s.push(st, fn, args, ins.res)
        return [st]
    def pending_term(s, st):
        if s.checking: s.outs_abort.append(st)
    def handler(s, name):
        h = s.handlers.get(name)
        if h is not None: return h
        d = s.dn(name)
        return s.handlers.get(d)

    # ---------- loops: see loops.py
    def enter_loop(s, st, lp):
        import loops
        return loops.enter(s, st, lp)

class DeadPath(Exception): pass

def tiles(fs, es):
    o = 0
    for f in sorted(fs):
        if f[0] != o or f[1] <= 0: return False
        o += f[1]
    return o == es
def ab2(a, sa, r): return r if sa is True else neg(r) if sa is False else ite(ge(a, ZERO), r, neg(r))
def fieldkind(ty):
    return {"int": "i", "double": "d", "float": "d", "ptr": "p", "fp80": "d"}[ty.k]

# ---------- builtins
def copybytes(ex, st, dst, src, n, move=False):
    if is_const(n) and cval(n) == 0: return
    if n is not None and not is_const(n) and ex.known(st, eq(n, ZERO)): return
    # zero-length copies with null pointers are accepted (see DESIGN)
    if dst.blk is None or src.blk is None:
        ex.oblige(st, eq(n, ZERO), "mem:null", "memcpy with null pointer"); return
    ex.access(st, src, n, "memcpy source"); ex.access(st, dst, n, "memcpy destination")
    if dst.blk is src.blk and not move:
        ex.oblige(st, or_(le(add(src.off, n), dst.off), le(add(dst.off, n), src.off), eq(n, ZERO)), "mem:overlap", "memcpy overlap")
    if is_const(n):
        sb = st.mem[src.blk.id]
        if is_const(src.off) and is_const(dst.off) and is_const(src.blk.size) and is_const(dst.blk.size) and (src.blk.kind in ("stack", "obj", "global", "ro") and dst.blk.kind in ("stack", "obj")):
            so, do, ln = cval(src.off), cval(dst.off), cval(n)
            for bs_, bl_ in ((sb, src.blk), (st.mem[dst.blk.id], dst.blk)):
                for r in bs_.regions:
                    if r.length is None:
                        r.length = const(cval(bl_.size) - r.off)
            cells = {}
            for (co, cs), v in sb.cells.items():
                if co >= so and co + cs <= so + ln: cells[(co - so + do, cs)] = v
                elif co < so + ln and so < co + cs: raise Unsupported("memcpy splits a cell")
            db = st.wr(dst.blk)
            ex.splitcells(st, db, do, ln)
            for k in list(db.cells):
                if k[0] >= do and k[0] + k[1] <= do + ln: del db.cells[k]
            db.cells.update(cells)
            for r in sb.regions:
                if r.off < so + ln and (r.length is None or r.off + cval(r.length) > so):
                    for r2 in db.regions:
                        if r2.off - do <= r.off - so and r2.length is not None and r2.off - do + cval(r2.length) >= r.off - so + cval(r.length):
                            if r.es is None: break
                            if r2.es is None: r2.es = r.es
                            if r2.es != r.es: raise Unsupported("memcpy between regions of different element size")
                            lo = (r.off - so - (r2.off - do)) // r.es; cnt = cval(r.length) // r.es
                            r2.fields.update(r.fields)
                            r2.content = Copy(r2.content, const(lo), const(lo + cnt), r.content, const(-lo))
                            break
                    else:
                        if any(x.off < do + ln and x.off + cval(x.length) > do for x in db.regions if x.length is not None):
                            raise Unsupported("memcpy region mismatch")
                        nr = Region(r.off - so + do, r.length, r.es, r.content); nr.fields = dict(r.fields); db.regions.append(nr)
            return
    rs = ex.findregion(st, src, None, src.hint); rd = ex.findregion(st, dst, None, dst.hint)
    if rs is None or rd is None:
        # constant cell area <-> region: element-wise
        if is_const(n): return copy_mixed(ex, st, dst, src, cval(n))
        raise Unsupported("memcpy of cells with symbolic length")
    if rs.es is None and rd.es is None:
        h = src.hint or dst.hint or 1
        g = 0
        for t in (n, src.off, dst.off):
            for m, c in pd(t).items(): g = math.gcd(g, abs(c))
        rs = ex.settype(st, src, rs, None, h if g % h == 0 else g); 
    if rs.es is None: rs = ex.settype(st, src, rs, None, rd.es)
    if rd.es is None: rd = ex.settype(st, dst, ex.findregion(st, dst, None, dst.hint), None, rs.es)
    if rs.es != rd.es: raise Unsupported("memcpy between regions of different element size")
    if rs.length is not None and st.mem[src.blk.id].cells: 
        ex.dropovl(st, src, n, rs); rs = ex.findregion(st, src, None, src.hint)
    if rd.length is not None and st.mem[dst.blk.id].cells: ex.dropovl(st, dst, n, rd)
    si, sf = ex.index(rs, src.off); di, df = ex.index(rd, dst.off)
    if sf or df: raise Unsupported("memcpy inside an element")
    es = rs.es; cnt = {}
    for m, c in pd(n).items():
        if c % es: raise Unsupported("memcpy length %s not a multiple of element size %d" % (show(n), es))
        cnt[m] = c // es
    cnt = frompd(cnt)
    for f in list(rs.fields): rd.fields.setdefault(f, True)
    for f in list(rd.fields): rs.fields.setdefault(f, True)
    bs = st.wr(dst.blk)
    if cnt is ONE and len(rs.fields) > 1 and tiles(rs.fields, es):     # one record whose fields are all known: field by field
        vals = [(f, ex.rdc(st, rs.content, f, si)) for f in rs.fields]; bs = st.wr(dst.blk)
        for r2 in bs.regions:
            if r2.off == rd.off:
                for f, v in vals: r2.content = Store(r2.content, f, di, v)
        return
    for r2 in bs.regions:
        if r2.off == rd.off:
            r2.content = Copy(r2.content, di, add(di, cnt), rs.content, sub(si, di))
def copy_mixed(ex, st, dst, src, n):
    sb = st.mem[src.blk.id]
    rs = ex.findregion(st, src, None, src.hint); rd = ex.findregion(st, dst, None, dst.hint)
    if rs is not None and rs.es and n % rs.es == 0 and rs.fields:
        for e in range(n // rs.es):
            for f in list(rs.fields):
                if f[0] < 0: continue
                ty = {"i": IntT(8 * f[1]), "d": llir.DOUBLE if f[1] == 8 else llir.FLOAT, "p": llir.PTR}[f[2]]
                o = const(e * rs.es + f[0])
                v = ex.load_nc(st, Ptr(src.blk, add(src.off, o), src.hint), ty, f[1])
                ex.store_nc(st, Ptr(dst.blk, add(dst.off, o), dst.hint or rs.es), ty, v, f[1])
        return
    if rs is None and is_const(src.off):
        so = cval(src.off)
        for (co, cs), v in sorted(sb.cells.items()):
            if co >= so and co + cs <= so + n:
                ty = llir.PTR if isinstance(v, Ptr) else IntT(8 * cs)
                if rd is not None and rd.es:
                    for f in rd.fields:
                        if f[0] == co - so and f[1] == cs and f[2] == "d": ty = llir.DOUBLE
                ex.store_nc(st, Ptr(dst.blk, add(dst.off, const(co - so)), dst.hint), ty, v, cs)
        return
    raise Unsupported("mixed memcpy")

def install_builtins(ex):
    H = ex.handlers; ex.outs_abort = []
    def h_abort(ex, st, a, ins):
        st.kind = "abort"; return [(st, None)]
    for n in ("@abort", "@_ZSt9terminatev", "@exit", "@__assert_fail"): H[n] = h_abort
    def mk_alloc(kind, nullable):
        def h(ex, st, a, ins):
            n = ex.uns(st, a[0], 64)
            out = []
            fail = st.clone()
            st.assume(lt(n, const(MAXALLOC)))
            if ex.p.check(st.pc, [TRUE], 2000) != "unsat":
                b = ex.alloc(st, "heap", "heap", n, 16); st.owned.add(b.id); st.flags[("alloc", b.id)] = kind
                st.assume(ge(n, ZERO))
                out.append((st, Ptr(b, ZERO)))
            fail.flags["oom"] = True
            if nullable: out.append((fail, NULL))
            else: fail.kind = "abort"; out.append((fail, None))
            return out
        return h
    H["@malloc"] = mk_alloc("malloc", True)
    H["@_Znwm"] = mk_alloc("new", False); H["@_Znam"] = mk_alloc("new[]", False)
    def mk_free(kind):
        def h(ex, st, a, ins):
            p = a[0]
            if p.blk is None:
                ex.oblige(st, eq(p.off, ZERO), "mem:free-invalid", "free of a non-null offset pointer"); return None
            bs = st.mem[p.blk.id]
            if not bs.alive: ex.oblige(st, FALSE, "mem:double-free", str(p.blk)); raise DeadPath()
            if p.blk.kind != "heap": ex.oblige(st, FALSE, "mem:free-invalid", "free of non-heap %s" % p.blk); raise DeadPath()
            ex.oblige(st, eq(p.off, ZERO), "mem:free-invalid", "free of interior pointer %r" % p)
            if st.flags.get(("alloc", p.blk.id), "malloc") != kind: ex.oblige(st, FALSE, "mem:free-mismatch", "allocated with %s, released with %s" % (st.flags.get(("alloc", p.blk.id), "malloc"), kind))
            ex.check_no_live(st, p.blk)
            b = st.wr(p.blk); b.alive = False; st.owned.discard(p.blk.id)
            return None
        return h
    H["@free"] = mk_free("malloc")
    for n in ("@_ZdlPv", "@_ZdlPvm"): H[n] = mk_free("new")
    for n in ("@_ZdaPv", "@_ZdaPvm"): H[n] = mk_free("new[]")
    def h_memcpy(ex, st, a, ins): copybytes(ex, st, a[0], a[1], ex.uns(st, a[2], 64)); return a[0]
    def h_memmove(ex, st, a, ins): copybytes(ex, st, a[0], a[1], ex.uns(st, a[2], 64), True); return a[0]
    for n in ("@llvm.memcpy.p0.p0.i64", "@memcpy"): H[n] = h_memcpy
    for n in ("@llvm.memmove.p0.p0.i64", "@memmove"): H[n] = h_memmove
    def h_memset(ex, st, a, ins):
        n = ex.uns(st, a[2], 64); p = a[0]; v = a[1]
        if n is ZERO: return p
        ex.access(st, p, n, "memset")
        if is_const(n) and is_const(p.off) and p.blk.kind in ("stack", "obj") and is_const(v) and cval(v) == 0 and p.blk.ty is not None and p.off is ZERO:
            ex.store_nc(st, p, p.blk.ty, ex.zeroval(st, p.blk.ty, False), size_of(p.blk.ty)); return p
        r = ex.findregion(st, p, None, p.hint or 1)
        if r is None: raise Unsupported("memset of cells")
        r = ex.settype(st, p, r, 1, 1)
        i, fo = ex.index(r, p.off)
        if r.es != 1: raise Unsupported("memset of wide elements")
        if r.length is not None and st.mem[p.blk.id].cells: ex.dropovl(st, p, n, r)
        bs = st.wr(p.blk)
        for r2 in bs.regions:
            if r2.off == r.off:
                r2.fields[(0, 1, "i")] = True; u = fresh("u"); vv = ex.wrap(st, v, 8)
                r2.content = For(r2.content, [(u, n)], (0, 1, "i"), add(i, u), vv, frozenset(r2.fields))
        return p
    H["@llvm.memset.p0.i64"] = h_memset; H["@memset"] = h_memset
    def mk_ovf(fn, signed):
        def h(ex, st, a, ins):
            x, y = (a[0], a[1]) if signed else (ex.uns(st, a[0], 64), ex.uns(st, a[1], 64)); r = fn(x, y); lo, hi = (const(-(1 << 63)), const((1 << 63) - 1)) if signed else (ZERO, const((1 << 64) - 1))
            return Agg([ex.wrap(st, r, 64), not_(and_(le(lo, r), le(r, hi)))])
        return h
    for nm, fn in (("add", add), ("sub", sub), ("mul", mul)):
        for sg in "su": H["@llvm.%s%s.with.overflow.i64" % (sg, nm)] = mk_ovf(fn, sg == "s")
    def h_nop(ex, st, a, ins): return None
    for n in ("@llvm.lifetime.start.p0", "@llvm.lifetime.end.p0", "@llvm.dbg.declare", "@llvm.dbg.value", "@llvm.assume", "@llvm.experimental.noalias.scope.decl"): H[n] = h_nop
    def h_trap(ex, st, a, ins):
        ex.oblige(st, FALSE, "flow:unreachable", "trap"); raise DeadPath()
    H["@llvm.trap"] = h_trap

def check_no_live(ex, st, blk):
    """no live opaque element may remain in a released block"""
    LIVE = (-1, 0, "b")
    for r in st.mem[blk.id].regions:
        if LIVE in r.fields:
            k = fresh("kf"); st2 = st.clone(); st2.assume(ge(k, ZERO), lt(scale(k, r.es), blk.size))
            v = ex.rdc(st2, r.content, LIVE, k)
            ok = ex.oblige(st2, not_(v), "life:released-live", "released storage %s still holds a live element" % blk)
Engine.check_no_live = check_no_live

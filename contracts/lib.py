"""Contract library: compiles a wrapper unit from /repo's current sources, builds symbolic pre-states from representation
invariants, runs the verification-condition generator on the real code and checks the postconditions."""
import os, sys, subprocess, time, hashlib, tempfile, re
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, "dv"))
import llir
from llir import size_of
from term import *
from mem import *
from exec import *
from solver import Prover

REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "/usr/lib/llvm-18/bin/clang++" if os.path.exists("/usr/lib/llvm-18/bin/clang++") else "clang++"
OPT = "/usr/bin/opt" if os.path.exists("/usr/bin/opt") else "/usr/lib/llvm-18/bin/opt"
LIVE = (-1, 0, "b")

class CompileError(Exception): pass

class TU:
    def __init__(s, name, extra=(), workdir=None):
        s.name = name; src = os.path.join(ROOT, "tu", name + ".cpp"); s.extra = list(extra)
        wd = workdir or tempfile.mkdtemp(prefix="ilv")
        tag = name + "".join(re.sub(r"\W", "_", e) for e in extra)
        a, b = os.path.join(wd, tag + ".a.ll"), os.path.join(wd, tag + ".b.ll")
        s.cmd = [CLANG, "-std=c++11", "-include", "cstdint", "-include", "climits", "-I" + REPO, "-I/usr/include/mkl", "-O0", "-Xclang", "-disable-O0-optnone", "-w",
               "-fno-exceptions", "-fno-rtti", "-fno-threadsafe-statics", "-fno-discard-value-names", "-fno-access-control", "-Wno-invalid-offsetof"] + s.extra + ["-S", "-emit-llvm", src, "-o", a]
        p = subprocess.run(s.cmd, capture_output=True, text=True)
        if p.returncode: raise CompileError(p.stderr[-3000:])
        p = subprocess.run([OPT, "-passes=sroa,mem2reg,instsimplify,dce", "-S", a, "-o", b], capture_output=True, text=True)
        if p.returncode: raise CompileError(p.stderr[-3000:])
        txt = open(b).read()
        s.mod = llir.parse(txt)
        names = [n[1:] for n in list(s.mod.funcs)]
        d = subprocess.run(["llvm-cxxfilt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        s.demangle = {"@" + n: x for n, x in zip(names, d)}
        s.nfun = len(names)
    def K(s, name):
        """layout constants emitted by the wrapper unit"""
        ty, init, cst = s.mod.globals["@K_" + name]
        n = ty.n; vs = []
        if init.k == "zero": return [0] * n
        for x in init.v: vs.append(x.v)
        return vs

class Result:
    """outcome of one contract (picklable)"""
    def __init__(s, name): 
        s.name = name; s.obligations = s.discharged = s.queries = s.cvc5 = s.lemmas = 0; s.solver_s = s.wall = 0.0; s.failures = []; s.obls = {}; s.funcs = set(); s.assumed = set(); s.loops = []; s.posts = {}
        s.vacuous = []; s.error = None; s.cases = 0; s.reached = 0

class Ctx:
    """one contract verification: engine + bookkeeping"""
    def __init__(s, tu, name, budget=120, timeout=8000):
        s.tu = tu; s.name = name; s.res = Result(name); s.t0 = time.time()
        s.ex = Engine(tu.mod, Prover(timeout=timeout), deadline=time.time() + budget); s.ex.demangle = tu.demangle
        s.ex.opaque = {"%struct.Obj"}; install_obj(s.ex)
        s.fn = name
    # ---- states
    def state(s): return State()
    def int(s, st, name, n=64): return s.ex.newint(st, name, n)
    def nonneg(s, st, name, hi=None):
        v = s.int(st, name); st.assume(ge(v, ZERO))
        if hi is not None: st.assume(lt(v, hi if isinstance(hi, Term) else const(hi)))
        return v
    def obj(s, st, name, size, ty=None): 
        b = s.ex.alloc(st, name, "obj", const(size), 16, ty)
        return b
    def setcells(s, st, blk, cells):
        bs = st.wr(blk)
        for (o, z_), v in cells.items(): bs.cells[(o, z_)] = v
    def T(s, st, name):
        """an il struct type by IR name"""
        return s.tu.mod.types[name]
    # ---- running
    def call(s, st, fn, args, abort_ok=None, expect_return=True):
        s.fn = fn; s.ex.ctx = s.name + ":" + fn; s.res.cases += 1
        nf = len(s.ex.failures)
        outs = s.ex.call(st, fn, args)
        rets = []
        reach = False
        for o in outs:
            if o.kind == "abort":
                if o.flags.get("oom"): continue
                ok = abort_ok(o) if abort_ok is not None else FALSE
                s.post(o, ok, "post:no-abort", "the call aborts on a legal input")
            elif o.kind == "return": rets.append(o)
        if expect_return:
            for o in rets:
                if s.ex.p.check(o.pc, [TRUE], 3000) != "unsat": reach = True; break
            if not reach and len(s.ex.failures) == nf:
                s.res.vacuous.append("%s: no feasible normal return" % fn)
            if reach: s.res.reached += 1
        return rets
    def post(s, o, cond, what, detail=""):
        k = what
        s.res.posts[s.fn + " / " + k] = s.res.posts.get(s.fn + " / " + k, 0) + 1
        s.ex.ctx = s.name + ":" + s.fn
        return s.ex.oblige(o, cond, what, detail)
    def fail(s, o, what, detail=""): 
        s.res.posts[s.fn + " / " + what] = s.res.posts.get(s.fn + " / " + what, 0) + 1
        s.ex.ctx = s.name + ":" + s.fn; s.ex.oblige(o, FALSE, what, detail)
    def skolem(s, o, lo, hi, name="k"):
        k = fresh(name); o.assume(le(lo, k), lt(k, hi)); return k
    def fork(s, o): return o.clone()
    def unchanged(s, o, st0, blk, what="frame:unchanged"):
        """every byte and every region content of blk is the one of st0"""
        b0, b1 = st0.mem[blk.id], o.mem[blk.id]
        if b0 is b1: s.ex.count(what); s.ex.p.st.discharged += 1; return
        if not b1.alive: return s.fail(o, what, "%s was released" % blk)
        for k, v in b0.cells.items():
            w = b1.cells.get(k)
            if w is None and not isinstance(v, Ptr) and s.ex.findregion(o, Ptr(blk, const(k[0])), k[1], k[1]) is not None:
                w = s.ex.load_nc(o, Ptr(blk, const(k[0]), k[1]), llir.IntT(8 * k[1]), k[1])     # the cell was folded into the bytes around it
            if w is None: s.fail(o, what, "cell %s of %s overwritten" % (k, blk)); continue
            if isinstance(v, Ptr) or isinstance(w, Ptr):
                if not (isinstance(v, Ptr) and isinstance(w, Ptr) and v.blk is w.blk): s.fail(o, what, "pointer cell %s of %s changed" % (k, blk)); continue
                s.post(o, eq(v.off, w.off), what, "cell %s of %s" % (k, blk))
            else: s.post(o, eq(v, w), what, "cell %s of %s" % (k, blk))
        for r1 in b1.regions:
            for r0 in b0.regions:
                if r0.off == r1.off:
                    if r0.content is r1.content: continue
                    for f in list(r1.fields):
                        q = o.clone(); k = fresh("k"); q.assume(ge(k, ZERO), lt(scale(k, r1.es), blk.size if r1.length is None else r1.length))
                        for (co, cz) in b0.cells:      # bytes held by a scalar cell before are compared above
                            if isinstance(r1.off, int) and r1.es <= cz: q.assume(or_(le(add(scale(k, r1.es), const(r1.off + r1.es)), const(co)), le(const(co + cz), add(scale(k, r1.es), const(r1.off)))))
                        x = s.ex.rdc(q, r1.content, f, k); y = s.ex.rdc(q, r0.content, f, k)
                        if isinstance(x, Ptr) or isinstance(y, Ptr):
                            if x is not y: s.fail(o, what, "pointer content of %s changed" % blk)
                        else: s.post(q, eq(x, y), what, "element of %s" % blk)
    def noleak(s, o, keep, what="own:no-leak"):
        """heap blocks still owned are exactly those reachable through the listed objects"""
        ids = {p.blk.id for p in keep if p is not None and p.blk is not None}
        left = [o.blocks[b].name for b in o.owned if b not in ids]
        if left: s.fail(o, what, "blocks never released: %s" % left)
        else: s.ex.count(what); s.ex.p.st.discharged += 1; s.res.posts[s.fn + " / " + what] = s.res.posts.get(s.fn + " / " + what, 0) + 1
        for p in keep:
            if p is not None and p.blk is not None and not o.mem[p.blk.id].alive: s.fail(o, "own:dangling", "the object keeps the released block %s" % p.blk)
    def done(s):
        r = s.res; p = s.ex.p.st
        r.obligations, r.discharged, r.queries, r.solver_s, r.cvc5, r.lemmas = p.obligations, p.discharged, p.queries, p.time, p.cvc5, p.lemmas
        r.discharged = r.obligations - sum(1 for f in s.ex.failures)
        r.failures = [(f.ob, f.where, f.detail, modeltext(f.model)) for f in s.ex.failures]
        r.obls = dict(s.ex.obls); r.funcs = {s.tu.demangle.get(x, x) for x in s.ex.inlined}; r.assumed = set(s.ex.assumed); r.loops = list(dict.fromkeys(s.ex.loopinfo)); r.wall = time.time() - s.t0
        return r

def modeltext(m):
    if m is None: return None
    try:
        out = []
        for d in m.decls():
            if d.arity() == 0 and not d.name().startswith(("prod<", "addrq!")): out.append("%s=%s" % (d.name(), m[d]))
        return ", ".join(sorted(out))[:1500]
    except Exception: return None

# ---------- the opaque element type: contracts of its special members over ghost state (live, val)
VAL = (0, 8, "i")
def moved(v): return app("moved", v)
DEFVAL = app("objdefault")
def objloc(ex, st, p, what):
    ex.access(st, p, 16, what)
    r = ex.findregion(st, p, 16, 16)
    if r is None: raise Unsupported("opaque element outside a typed region")
    if r.es is None: r = ex.settype(st, p, r, 16, ex.recstride or 16)
    if r.es == 16:
        i, fo = ex.index(r, p.off)
        if fo: raise Unsupported("misplaced opaque element")
        f = (LIVE, VAL)
    else:
        i, fo = ex.index(r, p.off); f = ((-1 - fo, 0, "b"), (fo, 8, "i"))
    for x in f: r.fields[x] = True
    return r, i, f
def olive(ex, st, p, what):
    r, i, f = objloc(ex, st, p, what); return ex.rdc(st, r.content, f[0], i)
def oval(ex, st, p):
    r, i, f = objloc(ex, st, p, "element"); return ex.rdc(st, r.content, f[1], i)
def oset(ex, st, p, live=None, val=None):
    r, i, f = objloc(ex, st, p, "element")
    if p.blk.kind == "ro": ex.oblige(st, FALSE, "frame:read-only", "write to %s" % p.blk); raise DeadPath()
    bs = st.wr(p.blk)
    for r2 in bs.regions:
        if r2.off == r.off:
            if live is not None: r2.content = Store(r2.content, f[0], i, live)
            if val is not None: r2.content = Store(r2.content, f[1], i, val)
def need(ex, st, p, live, what):
    l = olive(ex, st, p, what)
    if live: ex.oblige(st, l, "life:use-of-dead", what + " of an element that is not alive")
    else: ex.oblige(st, not_(l), "life:construct-over-live", what + " on storage that holds a live element")
def install_obj(ex, cls="Obj"):
    H = ex.handlers
    def ctor0(ex, st, a, ins): need(ex, st, a[0], False, "default construction"); oset(ex, st, a[0], TRUE, DEFVAL)
    def ctorl(ex, st, a, ins): need(ex, st, a[0], False, "construction"); oset(ex, st, a[0], TRUE, app("objof", a[1]))
    def ctorc(ex, st, a, ins):
        need(ex, st, a[1], True, "copy construction from"); need(ex, st, a[0], False, "copy construction")
        oset(ex, st, a[0], TRUE, oval(ex, st, a[1]))
    def ctorm(ex, st, a, ins):
        need(ex, st, a[1], True, "move construction from"); need(ex, st, a[0], False, "move construction")
        v = oval(ex, st, a[1]); oset(ex, st, a[1], None, moved(v)); oset(ex, st, a[0], TRUE, v)
    def asg(ex, st, a, ins):
        need(ex, st, a[1], True, "assignment from"); need(ex, st, a[0], True, "assignment to")
        oset(ex, st, a[0], None, oval(ex, st, a[1])); return a[0]
    def asgm(ex, st, a, ins):
        need(ex, st, a[1], True, "move assignment from"); need(ex, st, a[0], True, "move assignment to")
        v = oval(ex, st, a[1]); oset(ex, st, a[1], None, moved(v)); oset(ex, st, a[0], None, v); return a[0]
    def dtor(ex, st, a, ins): need(ex, st, a[0], True, "destruction"); oset(ex, st, a[0], FALSE, None)
    def oeq(ex, st, a, ins):
        need(ex, st, a[0], True, "comparison"); need(ex, st, a[1], True, "comparison")
        return eq(oval(ex, st, a[0]), oval(ex, st, a[1]))
    H["%s::%s()" % (cls, cls)] = ctor0; H["%s::%s(long)" % (cls, cls)] = ctorl
    H["%s::%s(%s const&)" % (cls, cls, cls)] = ctorc; H["%s::%s(%s&&)" % (cls, cls, cls)] = ctorm
    H["%s::operator=(%s const&)" % (cls, cls)] = asg; H["%s::operator=(%s&&)" % (cls, cls)] = asgm; H["%s::~%s()" % (cls, cls)] = dtor
    H["operator==(%s const&, %s const&)" % (cls, cls)] = oeq

# ---------- element kinds
class Elem:
    def __init__(s, sfx, es, field, opaque, align): s.sfx, s.es, s.field, s.opaque, s.align = sfx, es, field, opaque, align
DOUBLE = Elem("d", 8, (0, 8, "d"), False, 8)
OBJ = Elem("o", 16, VAL, True, 8)

def elemblock(c, st, e, name="x", kind="obj"):
    """a single element living outside the containers; returns (ptr, value)"""
    b = c.ex.alloc(st, name, kind, const(e.es), 8)
    if e.opaque:
        v = fresh(name + ".val"); r = Region(0, const(e.es), e.es, Base(fresh_name(name), {LIVE: TRUE, VAL: v})); r.fields[LIVE] = True; r.fields[VAL] = True
        st.mem[b.id].regions.append(r)
        return Ptr(b, ZERO), v
    v = fresh(name + ".val"); st.mem[b.id].cells[(0, 8)] = v
    return Ptr(b, ZERO), v
def elemval(c, o, e, ptr):
    if e.opaque: return oval(c.ex, o, ptr)
    return c.ex.load_nc(o, ptr, {"d": llir.DOUBLE, "i": llir.IntT(8 * e.field[1])}[e.field[2]], e.field[1])
def elemlive(c, o, e, ptr): return olive(c.ex, o, ptr, "element")

def heaparray(c, st, e, name, nbytes, livelo=None, livehi=None, kind="heap"):
    """a heap block holding elements; live in [livelo,livehi) for opaque elements"""
    b = c.ex.alloc(st, name, kind, nbytes, 16)
    nm = fresh_name(name)
    if e.opaque:
        r = Region(0, None, e.es, Base(nm, {LIVE: (lambda i: and_(le(livelo, i), lt(i, livehi)))})); r.fields[LIVE] = True
    else: r = Region(0, None, e.es, Base(nm))
    r.fields[e.field] = True
    st.mem[b.id].regions.append(r)
    if kind == "heap": st.owned.add(b.id)
    return b

def read(c, o, e, ptr, idx):
    """element value at ptr + idx (specification-level read: bounds are not checked)"""
    p = Ptr(ptr.blk, add(ptr.off, scale(idx, e.es)), e.es)
    return elemval(c, o, e, p)
def alive(c, o, e, ptr, idx):
    p = Ptr(ptr.blk, add(ptr.off, scale(idx, e.es)), e.es)
    r = c.ex.findregion(o, p, e.es, e.es)
    if r.es is None: r = c.ex.settype(o, p, r, e.es, e.es)
    i, fo = c.ex.index(r, p.off); r.fields[LIVE] = True
    return c.ex.rdc(o, r.content, LIVE, i)

def ptr_is(c, o, p, want, what):
    if not isinstance(p, Ptr) or p.blk is not want.blk: c.fail(o, what, "%r is not %r" % (p, want)); return
    c.post(o, eq(p.off, want.off), what, "%r expected %r" % (p, want))
def addr_is(c, o, p, want, lo, nbytes):
    """the address of the very element asked for; in any case an address inside the object's elements"""
    ptr_is(c, o, p, want, "post:element-address")
    if not isinstance(p, Ptr) or p.blk is not want.blk: c.fail(o, "bounds:element-inside", "%r is not %r" % (p, want)); return
    c.post(o, or_(eq(p.off, want.off), and_(le(lo, p.off), lt(p.off, add(lo, nbytes)))), "bounds:element-inside", "the address returned lies outside the elements")

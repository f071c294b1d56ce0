"""Hash-consed integer/boolean terms with polynomial normal form; conversion to z3."""
import math
from functools import reduce
import z3

class Term:
    __slots__ = ("op", "args", "id", "b", "_d", "_syms")
    def __repr__(s): return show(s)

_tab = {}
def mk(op, args, b=False):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = Term(); t.op, t.args, t.b = op, args, b; t.id = len(_tab); t._d = None; t._syms = None
        _tab[key] = t
    return t

_cnt = [0]
def fresh_name(p):
    _cnt[0] += 1
    return "%s!%d" % (p, _cnt[0])

def const(n): return mk("const", (int(n),))
ZERO, ONE = const(0), const(1)
def var(name): return mk("var", (name,))
def fresh(p="v"): return var(fresh_name(p))
def bvar(name): return mk("bvar", (name,), True)
def freshb(p="b"): return bvar(fresh_name(p))
TRUE, FALSE = mk("true", (), True), mk("false", (), True)

def app(f, *args): return mk("app", (f,) + tuple(args))
def bapp(f, *args): return mk("bapp", (f,) + tuple(args), True)

# ---- polynomials
def pd(t):
    """dict mono(tuple of atoms) -> coef"""
    if t._d is None:
        if t.op == "const": t._d = {(): t.args[0]} if t.args[0] else {}
        elif t.op == "sum": t._d = dict(t.args)
        else: t._d = {(t,): 1}
    return t._d

def frompd(d):
    items = [(m, c) for m, c in d.items() if c]
    if not items: return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == (): return const(c)
        if len(m) == 1 and c == 1: return m[0]
    items.sort(key=lambda x: (len(x[0]), tuple(a.id for a in x[0])))
    return mk("sum", tuple(items))

def is_const(t): return t.op == "const"
def cval(t): return t.args[0]

def add(*ts):
    d = {}
    for t in ts:
        for m, c in pd(t).items():
            d[m] = d.get(m, 0) + c
    return frompd(d)
def scale(t, k):
    if k == 1: return t
    return frompd({m: c * k for m, c in pd(t).items()})
def neg(t): return scale(t, -1)
def sub(a, b): return add(a, scale(b, -1))
def mul(a, b):
    if a.op == "const": return scale(b, a.args[0])
    if b.op == "const": return scale(a, b.args[0])
    d = {}
    for m1, c1 in pd(a).items():
        for m2, c2 in pd(b).items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            d[m] = d.get(m, 0) + c1 * c2
    return frompd(d)

def le0(p):      # p <= 0
    d = pd(p)
    if not d or (len(d) == 1 and () in d): return TRUE if d.get((), 0) <= 0 else FALSE
    g = reduce(math.gcd, [abs(c) for m, c in d.items() if m != ()])
    if g > 1:
        c0 = d.get((), 0)
        nd = {m: c // g for m, c in d.items() if m != ()}
        nd[()] = -((-c0) // g)      # ceil(c0/g)
        p = frompd(nd)
    return mk("le", (p,), True)
def eq0(p):
    d = pd(p)
    if not d or (len(d) == 1 and () in d): return TRUE if d.get((), 0) == 0 else FALSE
    g = reduce(math.gcd, [abs(c) for m, c in d.items() if m != ()])
    if g > 1:
        if d.get((), 0) % g: return FALSE
        p = frompd({m: c // g for m, c in d.items()})
    d = pd(p)
    m0 = min((m for m in d if m != ()), key=lambda m: (len(m), tuple(a.id for a in m)))
    if d[m0] < 0: p = neg(p)
    return mk("eq", (p,), True)
def le(a, b): return le0(sub(a, b))
def lt(a, b): return le0(add(sub(a, b), ONE))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)
def eq(a, b):
    if a.b: return iff(a, b)
    return eq0(sub(a, b))
def ne(a, b): return not_(eq(a, b))

def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "not": return a.args[0]
    if a.op == "le": return le0(sub(ONE, a.args[0]))
    return mk("not", (a,), True)
def and_(*xs):
    out = []; seen = set()
    for x in xs:
        if isinstance(x, (list, tuple)): x = and_(*x)
        ys = x.args if x.op == "and" else (x,)
        for y in ys:
            if y is FALSE: return FALSE
            if y is TRUE or y.id in seen: continue
            if not_(y).id in seen: return FALSE
            seen.add(y.id); out.append(y)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk("and", tuple(out), True)
def or_(*xs):
    out = []; seen = set()
    for x in xs:
        if isinstance(x, (list, tuple)): x = or_(*x)
        ys = x.args if x.op == "or" else (x,)
        for y in ys:
            if y is TRUE: return TRUE
            if y is FALSE or y.id in seen: continue
            if not_(y).id in seen: return TRUE
            seen.add(y.id); out.append(y)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return mk("or", tuple(out), True)
def implies(a, b): return or_(not_(a), b)
def iff(a, b):
    if a is b: return TRUE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return not_(b)
    if b is FALSE: return not_(a)
    if a.id > b.id: a, b = b, a
    return mk("iff", (a, b), True)
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.b: return and_(implies(c, a), implies(not_(c), b))
    if c.op == "not": c, a, b = c.args[0], b, a
    return mk("ite", (c, a, b))
def forall(vs, body):
    if body is TRUE: return TRUE
    return mk("forall", (tuple(vs), body), True)
def between(lo, x, hi): return and_(le(lo, x), lt(x, hi))

def div(a, c):
    """floor division by positive constant c"""
    if c == 1: return a
    if is_const(a): return const(cval(a) // c)
    d = pd(a); q = {}; r = {}
    for m, k in d.items():
        qq, rr = divmod(k, c)
        if m and 2 * rr > c: qq += 1; rr -= c
        if qq: q[m] = qq
        if rr: r[m] = rr
    r = frompd(r); q = frompd(q)
    if is_const(r): return add(q, const(cval(r) // c))
    return add(q, mk("div", (r, c)))
def mod(a, c):
    if c == 1: return ZERO
    if is_const(a): return const(cval(a) % c)
    r = frompd({m: (k % c if not m or 2 * (k % c) <= c else k % c - c) for m, k in pd(a).items()})
    if is_const(r): return const(cval(r) % c)
    return mk("mod", (r, c))
def divt(a, b):   # floor division by positive symbolic term
    if is_const(b) and cval(b) > 0: return div(a, cval(b))
    if a is ZERO: return ZERO
    return mk("divt", (a, b))
def modt(a, b):
    if is_const(b) and cval(b) > 0: return mod(a, cval(b))
    if a is ZERO: return ZERO
    return mk("modt", (a, b))

def rebuild(t, f):
    op, A = t.op, t.args
    if op in ("const", "var", "bvar", "true", "false"): return t
    if op == "sum":
        r = ZERO; parts = []
        for m, c in A:
            p = const(c)
            for a in m: p = mul(p, f(a))
            parts.append(p)
        return add(*parts)
    if op == "app": return app(A[0], *[f(x) for x in A[1:]])
    if op == "bapp": return bapp(A[0], *[f(x) for x in A[1:]])
    if op == "ite": return ite(f(A[0]), f(A[1]), f(A[2]))
    if op == "div": return div(f(A[0]), A[1])
    if op == "mod": return mod(f(A[0]), A[1])
    if op == "divt": return divt(f(A[0]), f(A[1]))
    if op == "modt": return modt(f(A[0]), f(A[1]))
    if op == "le": return le0(f(A[0]))
    if op == "eq": return eq0(f(A[0]))
    if op == "not": return not_(f(A[0]))
    if op == "and": return and_(*[f(x) for x in A])
    if op == "or": return or_(*[f(x) for x in A])
    if op == "iff": return iff(f(A[0]), f(A[1]))
    if op == "forall": return forall(A[0], f(A[1]))
    raise Exception(op)

def subst(t, m):
    """m: dict Term->Term (vars or atoms)"""
    memo = {}
    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = m.get(x)
            if r is None: r = rebuild(x, go)
            memo[x.id] = r
        return r
    return go(t)

_hm = {}
def is_wrapite(t):
    if t.op != "ite" or t.b or t.args[1].b: return False
    d = sub(t.args[1], t.args[2] if t.args[2].op != "ite" else t.args[2].args[2])
    return is_const(d) and abs(cval(d)) >= 256 and abs(cval(d)) & (abs(cval(d)) - 1) == 0
def has_mod(t):
    """contains a wrap-around of a machine integer, or a case distinction"""
    r = _hm.get(t.id)
    if r is None:
        if t.op == "mod" and t.args[1] >= 256 and t.args[1] & (t.args[1] - 1) == 0 or is_wrapite(t): r = True
        elif t.op == "sum": r = any(has_mod(a) for m, c in t.args for a in m)
        else: r = any(has_mod(a) for a in t.args if isinstance(a, Term))
        _hm[t.id] = r
    return r
def mapmods(t, fn):
    memo = {}
    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = rebuild(x, go) if has_mod(x) else x
            if r.op == "mod" and r.args[1] >= 256 and r.args[1] & (r.args[1] - 1) == 0:
                y = fn(r, r.args[0], r.args[1])
                if y is not None: r = y
            elif is_wrapite(r):
                y = fn(r, None, None)
                if y is not None: r = y
            memo[x.id] = r
        return r
    return go(t)

def mapapps(t, fn):
    """bottom-up rewriting of app/bapp nodes: fn(name,args,is_bool) -> Term or None"""
    memo = {}
    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = rebuild(x, go)
            if r.op in ("app", "bapp"):
                y = fn(r.args[0], r.args[1:], r.op == "bapp")
                if y is not None: r = y
            memo[x.id] = r
        return r
    return go(t)

EMPTY = frozenset()
def syms(t):
    """free variable and function symbol names"""
    if t._syms is None:
        op, A = t.op, t.args
        if op in ("var", "bvar"): r = frozenset((A[0],))
        elif op in ("const", "true", "false"): r = EMPTY
        elif op == "sum":
            s = set()
            for m, c in A:
                for a in m: s |= syms(a)
            r = frozenset(s)
        elif op in ("app", "bapp"):
            s = {A[0]}
            for a in A[1:]: s |= syms(a)
            r = frozenset(s)
        elif op == "forall": r = syms(A[1]) - frozenset(v.args[0] for v in A[0])
        else:
            s = set()
            for a in A:
                if isinstance(a, Term): s |= syms(a)
            r = frozenset(s)
        t._syms = r
    return t._syms

def show(t, depth=0):
    op, A = t.op, t.args
    if depth > 12: return "..."
    s = lambda x: show(x, depth + 1)
    if op == "const": return str(A[0])
    if op in ("var", "bvar"): return A[0]
    if op == "sum":
        out = []
        for m, c in A:
            ms = "*".join(s(a) for a in m)
            out.append(str(c) if not m else ms if c == 1 else "%d*%s" % (c, ms))
        return "(" + " + ".join(out) + ")"
    if op in ("app", "bapp"): return "%s(%s)" % (A[0], ", ".join(s(a) for a in A[1:]))
    if op == "le": return "%s <= 0" % s(A[0])
    if op == "eq": return "%s == 0" % s(A[0])
    if op == "forall": return "forall %s. %s" % (",".join(s(v) for v in A[0]), s(A[1]))
    return "%s(%s)" % (op, ", ".join(s(a) if isinstance(a, Term) else str(a) for a in A))

# ---- z3
_z = {}
_fun = {}
monos = {}      # z3 name -> mono   (registry of degree >= 2 monomials)
_monosof = {}
def monos_of(t):
    """set of monos (deg>=2) and divt/modt pairs occurring in t"""
    r = _monosof.get(t.id)
    if r is None:
        op, A = t.op, t.args
        if op in ("const", "var", "bvar", "true", "false"): r = EMPTY
        elif op == "sum":
            s = set()
            for m, c in A:
                if len(m) > 1: s.add(m)
                for a in m: s |= monos_of(a)
            r = frozenset(s)
        else:
            s = set()
            if op == "divt" or op == "modt": s.add((op, A[0], A[1]))
            if op == "forall":
                bn = frozenset(v.args[0] for v in A[0])
                for x in monos_of(A[1]):
                    if not any(isinstance(a, Term) and syms(a) & bn for a in x): s.add(x)
                r = frozenset(s); _monosof[t.id] = r
                return r
            for a in (A[1:] if op in ("app", "bapp") else A):
                if isinstance(a, Term): s |= monos_of(a)
            r = frozenset(s)
        _monosof[t.id] = r
    return r

def zfun(name, n, b):
    k = (name, n, b)
    f = _fun.get(k)
    if f is None:
        f = _fun[k] = z3.Function(name, *([z3.IntSort()] * n + [z3.BoolSort() if b else z3.IntSort()]))
    return f

def monoz(m):
    nm = "prod<" + "*".join(str(a.id) for a in m) + ">"
    monos[nm] = m
    return z3.Int(nm)

def z(t):
    r = _z.get(t.id)
    if r is not None: return r
    op, A = t.op, t.args
    if op == "const": r = z3.IntVal(A[0])
    elif op == "var": r = z3.Int(A[0])
    elif op == "bvar": r = z3.Bool(A[0])
    elif op == "true": r = z3.BoolVal(True)
    elif op == "false": r = z3.BoolVal(False)
    elif op == "sum":
        parts = []
        for m, c in A:
            if m == (): parts.append(z3.IntVal(c)); continue
            x = z(m[0]) if len(m) == 1 else monoz(m)
            parts.append(x if c == 1 else x * z3.IntVal(c))
        r = parts[0] if len(parts) == 1 else z3.Sum(parts)
    elif op in ("app", "bapp"):
        f = zfun(A[0], len(A) - 1, op == "bapp")
        r = f(*[z(x) for x in A[1:]]) if len(A) > 1 else f()
    elif op == "ite": r = z3.If(z(A[0]), z(A[1]), z(A[2]))
    elif op == "div": r = z(A[0]) / z3.IntVal(A[1])
    elif op == "mod": r = z(A[0]) % z3.IntVal(A[1])
    elif op == "divt": r = z3.Int("divt<%d,%d>" % (A[0].id, A[1].id))
    elif op == "modt": r = z3.Int("modt<%d,%d>" % (A[0].id, A[1].id))
    elif op in ("le", "eq"):
        pos = []; ng = []
        for m, c in pd(A[0]).items():
            (pos if c > 0 else ng).append((m, abs(c)))
        l, rr = z(frompd(dict(pos))), z(frompd(dict(ng)))
        r = (l <= rr) if op == "le" else (l == rr)
    elif op == "not": r = z3.Not(z(A[0]))
    elif op == "and": r = z3.And(*[z(x) for x in A])
    elif op == "or": r = z3.Or(*[z(x) for x in A])
    elif op == "iff": r = z(A[0]) == z(A[1])
    elif op == "forall":
        bn = frozenset(v.args[0] for v in A[0])
        r = z3.ForAll([z(v) for v in A[0]], zb(A[1], bn, {}))
    else: raise Exception(op)
    _z[t.id] = r
    return r

def zb(t, bn, memo):
    """as z(), inside a quantifier over names bn: products with bound variables become real products"""
    r = memo.get(t.id)
    if r is not None: return r
    if not (syms(t) & bn): return z(t)
    op, A = t.op, t.args
    g = lambda x: zb(x, bn, memo)
    if op == "sum":
        parts = []
        for m, c in A:
            if m == (): parts.append(z3.IntVal(c)); continue
            x = g(m[0])
            if len(m) > 1:
                if any(syms(a) & bn for a in m):
                    for a in m[1:]: x = x * g(a)
                else: x = monoz(m)
            parts.append(x if c == 1 else x * z3.IntVal(c))
        r = parts[0] if len(parts) == 1 else z3.Sum(parts)
    elif op in ("app", "bapp"): r = zfun(A[0], len(A) - 1, op == "bapp")(*[g(x) for x in A[1:]])
    elif op == "ite": r = z3.If(g(A[0]), g(A[1]), g(A[2]))
    elif op == "div": r = g(A[0]) / z3.IntVal(A[1])
    elif op == "mod": r = g(A[0]) % z3.IntVal(A[1])
    elif op == "divt": r = g(A[0]) / g(A[1])
    elif op == "modt": r = g(A[0]) % g(A[1])
    elif op in ("le", "eq"):
        r = (g(A[0]) <= 0) if op == "le" else (g(A[0]) == 0)
    elif op == "not": r = z3.Not(g(A[0]))
    elif op == "and": r = z3.And(*[g(x) for x in A])
    elif op == "or": r = z3.Or(*[g(x) for x in A])
    elif op == "iff": r = g(A[0]) == g(A[1])
    elif op == "forall":
        r = z3.ForAll([z(v) for v in A[0]], zb(A[1], bn | frozenset(v.args[0] for v in A[0]), {}))
    else: r = z(t)
    memo[t.id] = r
    return r

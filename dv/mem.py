"""Block-based symbolic memory: blocks of scalar cells plus regions (symbolic arrays with layered updates)."""
from term import *

class Unsupported(Exception): pass

class Ptr:
    __slots__ = ("blk", "off", "hint")
    def __init__(s, blk, off, hint=0): s.blk, s.off, s.hint = blk, off, hint
    def __repr__(s): return "&%s+%s" % (s.blk.name if s.blk else "null", show(s.off))

NULL = Ptr(None, ZERO)

class Agg:
    __slots__ = ("vals",)
    def __init__(s, vals): s.vals = vals

_bid = [0]
class Block:
    __slots__ = ("id", "name", "kind", "size", "addr", "align", "ty", "haslive")
    def __init__(s, name, kind, size, align=1, ty=None):
        s.haslive = False
        _bid[0] += 1; s.id = _bid[0]; s.name = "%s#%d" % (name, s.id); s.kind = kind; s.size = size
        s.addr = var("addr!%d" % s.id); s.align = align; s.ty = ty
    def __repr__(s): return s.name

# ---- content of a region: persistent layer chain
class Base:
    """unknown or constant initial contents; field key -> uninterpreted function"""
    __slots__ = ("name", "consts", "alias")
    def __init__(s, name, consts=None): s.name = name; s.consts = consts or {}
    def at(s, field, idx):
        c = s.consts.get(field)
        if c is not None:
            return c(idx) if callable(c) else c
        c = s.consts.get("*")
        if c is not None: 
            r = c(field, idx)
            if r is not None: return r
        return (bapp if field[2] == "b" else app)("%s.%s" % (s.name, fkey(field)), idx)
def fkey(f): return "%s.%s%s" % f
class Store:
    __slots__ = ("prev", "field", "idx", "val")
    def __init__(s, prev, field, idx, val): s.prev, s.field, s.idx, s.val = prev, field, idx, val
class Copy:
    __slots__ = ("prev", "lo", "hi", "src", "shift")   # for lo<=i<hi : src[i+shift], every field
    def __init__(s, prev, lo, hi, src, shift): s.prev, s.lo, s.hi, s.src, s.shift = prev, lo, hi, src, shift
class For:
    """parallel store: for all vars in [0,T): field[idx]=val"""
    __slots__ = ("prev", "vars", "field", "idx", "val", "known", "guard")
    def __init__(s, prev, vars, field, idx, val, known, guard=TRUE):
        s.prev, s.vars, s.field, s.idx, s.val, s.known, s.guard = prev, vars, field, idx, val, known, guard

class Region:
    __slots__ = ("off", "length", "es", "content", "fields")
    # off: constant byte offset in block; length: byte length (Term) or None = to the end; es: element size or None
    def __init__(s, off, length, es, content): s.off, s.length, s.es, s.content = off, length, es, content; s.fields = {}
    def clone(s):
        r = Region(s.off, s.length, s.es, s.content); r.fields = s.fields   # field registry is shared (monotone)
        return r

class BState:
    __slots__ = ("cells", "regions", "alive")
    def __init__(s): s.cells = {}; s.regions = []; s.alive = True
    def clone(s):
        b = BState(); b.cells = dict(s.cells); b.regions = [r.clone() for r in s.regions]; b.alive = s.alive
        return b

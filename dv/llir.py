"""Parser for the subset of textual LLVM IR that clang -O0 + sroa/mem2reg emits for the InsideLoop headers."""
import re

class Type:
    __slots__ = ("k", "n", "elem", "fields", "name", "packed", "_sz", "_al", "_offs")
    def __init__(s, k, n=0, elem=None, fields=None, name=None, packed=False):
        s.k, s.n, s.elem, s.fields, s.name, s.packed = k, n, elem, fields, name, packed
        s._sz = s._al = s._offs = None
    def __repr__(s):
        if s.k == "int": return "i%d" % s.n
        if s.k == "array": return "[%d x %r]" % (s.n, s.elem)
        if s.k == "struct": return s.name or ("{" + ",".join(map(repr, s.fields or [])) + "}")
        return s.k

VOID, PTR, DOUBLE, FLOAT, FP80, LABEL, META = (Type(x) for x in ("void", "ptr", "double", "float", "fp80", "label", "metadata"))
_ints = {}
def IntT(n):
    if n not in _ints: _ints[n] = Type("int", n)
    return _ints[n]

TOK = re.compile(r'''\s*(?:(?P<str>c?"(?:[^"\\]|\\.)*")|(?P<loc>[%@$](?:"(?:[^"\\]|\\.)*"|[-\w.$]+))|(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[KLMHR]?[0-9A-Fa-f]+)|(?P<meta>![\w.]*(?:\([^)]*\))?)|(?P<word>[A-Za-z_][\w.]*)|(?P<attr>\#\d+)|(?P<p>\.\.\.|[\[\]{}()<>,=*:;|]))''')
HEX = re.compile(r'\s*(0x[KLMHR]?[0-9A-Fa-f]+)')

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        if s[i].isspace(): i += 1; continue
        if s[i] == ';': break
        m = HEX.match(s, i)
        if not m: m = TOK.match(s, i)
        if not m: raise SyntaxError("token at: " + s[i:i+40])
        out.append(m.group(0).strip()); i = m.end()
    return out

class Operand:
    """k: local/global/int/fp/null/undef/zero/gep/cast/agg"""
    __slots__ = ("k", "v", "ty")
    def __init__(s, k, v, ty): s.k, s.v, s.ty = k, v, ty
    def __repr__(s): return "%r %s:%s" % (s.ty, s.k, s.v)

class Instr:
    __slots__ = ("op", "res", "ty", "args", "x", "line")
    def __init__(s, op, res, ty, args, x, line): s.op, s.res, s.ty, s.args, s.x, s.line = op, res, ty, args, x, line
    def __repr__(s): return s.line

class Func:
    def __init__(s, name, ret, params, defined):
        s.name, s.ret, s.params, s.defined = name, ret, params, defined   # params: [(type,name,attrs)]
        s.blocks = {}; s.order = []; s.demangled = name
        s._loops = None

class Module:
    def __init__(s): s.types = {}; s.funcs = {}; s.globals = {}

ATTRWORDS = set("noundef nonnull noalias nocapture readonly readnone writeonly signext zeroext inreg returned immarg nofree noreturn nounwind noinline dso_local weak_odr linkonce_odr internal private external hidden protected local_unnamed_addr unnamed_addr comdat fastcc tail musttail notail ccc inrange allocalign allocptr willreturn mustprogress noinit weak linkonce available_externally swiftself nest writable dead_on_unwind default constant global externally_initialized thread_local common appending extern_weak dso_preemptable".split())
PARENATTR = set("align dereferenceable dereferenceable_or_null byval sret memory allocsize captures range nofpclass elementtype".split())

class P:
    def __init__(s, toks, mod): s.t, s.i, s.m = toks, 0, mod
    def peek(s, k=0): return s.t[s.i + k] if s.i + k < len(s.t) else None
    def next(s):
        v = s.t[s.i]; s.i += 1; return v
    def eat(s, v):
        if s.peek() == v: s.i += 1; return True
        return False
    def expect(s, v):
        if s.next() != v: raise SyntaxError("expected %s in %s at %d" % (v, " ".join(s.t), s.i))
    def type(s):
        t = s.next()
        if t == "void": r = VOID
        elif t == "ptr": r = PTR
        elif t == "double": r = DOUBLE
        elif t == "float": r = FLOAT
        elif t == "x86_fp80": r = FP80
        elif t == "label": r = LABEL
        elif t == "metadata": r = META
        elif t[0] == "i" and t[1:].isdigit(): r = IntT(int(t[1:]))
        elif t == "[":
            n = int(s.next()); s.expect("x"); e = s.type(); s.expect("]"); r = Type("array", n, e)
        elif t == "{":
            fs = []
            while not s.eat("}"):
                fs.append(s.type()); s.eat(",")
            r = Type("struct", fields=fs)
        elif t == "<":
            if s.peek() == "{":
                s.next(); fs = []
                while not s.eat("}"):
                    fs.append(s.type()); s.eat(",")
                s.expect(">"); r = Type("struct", fields=fs, packed=True)
            else:
                n = int(s.next()); s.expect("x"); e = s.type(); s.expect(">"); r = Type("vector", n, e)
        elif t[0] == "%":
            r = s.m.types.get(t)
            if r is None: r = s.m.types[t] = Type("struct", name=t)
        else: raise SyntaxError("type? " + t + " in " + " ".join(s.t[:30]))
        while s.peek() == "(":      # function type
            d = 0
            while True:
                x = s.next()
                if x == "(": d += 1
                if x == ")":
                    d -= 1
                    if d == 0: break
            r = Type("func", elem=r)
        return r
    def attrs(s):
        out = []
        while s.peek() is not None:
            p = s.peek()
            if p in ATTRWORDS: out.append(s.next())
            elif p in PARENATTR:
                s.next()
                if p == "align" and s.peek() != "(": out.append((p, s.next())); continue
                s.expect("(")
                if p in ("byval", "sret", "elementtype"):
                    out.append((p, s.type())); s.expect(")")
                else:
                    v = []
                    while s.peek() != ")": v.append(s.next())
                    s.next(); out.append((p, v))
            elif p and p[0] == "#": s.next()
            else: break
        return out
    def value(s, ty):
        t = s.next()
        if t[0] == "%": return Operand("local", t, ty)
        if t[0] == "@": return Operand("global", t, ty)
        if t in ("true", "false"): return Operand("int", int(t == "true"), ty)
        if t == "null": return Operand("null", 0, ty)
        if t in ("undef", "poison"): return Operand("undef", 0, ty)
        if t == "zeroinitializer": return Operand("zero", 0, ty)
        if t in ("getelementptr",):
            fl = []
            while s.peek() in ("inbounds", "nuw", "nusw"): fl.append(s.next())
            s.expect("("); et = s.type(); s.expect(",")
            ops = []
            while True:
                a = s.type(); s.attrs(); ops.append(s.value(a))
                if not s.eat(","): break
            s.expect(")")
            return Operand("gep", (et, ops, fl), ty)
        if t in ("ptrtoint", "inttoptr", "bitcast"):
            s.expect("("); a = s.type(); v = s.value(a); s.expect("to"); b = s.type(); s.expect(")")
            return Operand("cast", (t, v, b), ty)
        if t in ("sub", "add", "mul", "xor", "and", "or"):
            fl = []
            while s.peek() in ("nsw", "nuw"): fl.append(s.next())
            s.expect("("); a = s.type(); v = s.value(a); s.expect(","); b = s.type(); w = s.value(b); s.expect(")")
            return Operand("cbin", (t, v, w), ty)
        if t.startswith('c"'): return Operand("str", cstr(t), ty)
        if t in ("[", "{", "<"):
            close = {"[": "]", "{": "}", "<": ">"}[t]
            if t == "<" and s.peek() == "{":   # packed struct
                s.next(); vs = []
                while not s.eat("}"):
                    a = s.type(); vs.append(s.value(a)); s.eat(",")
                s.expect(">"); return Operand("agg", vs, ty)
            vs = []
            while not s.eat(close):
                a = s.type(); vs.append(s.value(a)); s.eat(",")
            return Operand("agg", vs, ty)
        if ty.k in ("double", "float", "fp80"): return Operand("fp", t, ty)
        if re.fullmatch(r"-?\d+", t): return Operand("int", int(t), ty)
        if t == "asm": raise SyntaxError("asm")
        raise SyntaxError("value? " + t + " in " + " ".join(s.t))

def cstr(t):
    b = t[2:-1]; out = bytearray(); i = 0
    while i < len(b):
        if b[i] == "\\":
            if b[i+1] == "\\": out.append(92); i += 2
            else: out.append(int(b[i+1:i+3], 16)); i += 3
        else: out += b[i].encode("latin1"); i += 1
    return bytes(out)

BIN = set("add sub mul sdiv udiv srem urem shl lshr ashr and or xor fadd fsub fmul fdiv frem".split())
CAST = set("trunc zext sext ptrtoint inttoptr bitcast sitofp uitofp fptosi fptoui fpext fptrunc addrspacecast".split())
FLAGS = set("nsw nuw exact nneg disjoint nnan ninf nsz arcp contract afn reassoc fast samesign".split())

def parse(text):
    m = Module(); f = None; cur = None
    lines = text.split("\n"); i = 0
    # types first
    for ln in lines:
        if ln.startswith("%") and " = type " in ln:
            name, rest = ln.split(" = type ", 1)
            ty = m.types.get(name)
            if ty is None: ty = m.types[name] = Type("struct", name=name)
            if rest.strip() == "opaque": continue
            p = P(tokenize(rest), m); b = p.type()
            ty.fields, ty.packed = b.fields, b.packed
            if b.k != "struct": raise SyntaxError(ln)
    while i < len(lines):
        ln = lines[i]; i += 1
        if not ln: continue
        if f is None:
            if ln.startswith("@"):
                parse_global(ln, m)
            elif ln.startswith("declare") or ln.startswith("define"):
                p = P(tokenize(ln), m); d = p.next() == "define"
                p.attrs(); ret = p.type(); 
                while p.peek()[0] != "@": p.next()
                name = p.next(); p.expect("(")
                params = []
                while not p.eat(")"):
                    if p.eat("..."): p.eat(","); continue
                    t = p.type(); at = p.attrs(); nm = None
                    if p.peek() and p.peek()[0] == "%": nm = p.next()
                    params.append((t, nm, at)); p.eat(",")
                fn = Func(name, ret, params, d); m.funcs[name] = fn
                if d: f = fn; cur = None
            continue
        if ln == "}": f = None; continue
        mm = re.match(r'^("(?:[^"])*"|[-\w.$]+):', ln)
        if mm:
            cur = "%" + mm.group(1); f.blocks[cur] = []; f.order.append(cur); continue
        s = ln.strip()
        if not s or s.startswith(";"): continue
        if s.startswith("switch") and "[" in s and "]" not in s:
            while "]" not in lines[i]: s += " " + lines[i].strip(); i += 1
            s += " " + lines[i].strip(); i += 1
        if cur is None: cur = "%entry0"; f.blocks[cur] = []; f.order.append(cur)
        ins = parse_instr(s, m)
        if ins is not None: f.blocks[cur].append(ins)
    return m

def parse_global(ln, m):
    # @name = [linkage] [attrs] constant|global TYPE INIT, ...
    p = P(tokenize(ln), m); name = p.next(); p.expect("=")
    const = False; ext = False
    while True:
        t = p.peek()
        if t in ("constant", "global"): const = p.next() == "constant"; break
        if t in ("alias", "ifunc"): return
        if t in ("external", "extern_weak"): ext = True
        if t == "comdat" or t is None: return
        p.next()
        if p.peek() == "(":
            while p.next() != ")": pass
    try: ty = p.type()
    except SyntaxError: return
    init = None
    if not ext and p.peek() not in (None, ","):
        try: init = p.value(ty)
        except (SyntaxError, KeyError, TypeError): init = None
    m.globals[name] = (ty, init, const)

def strip_meta(s):
    # drop trailing ", !dbg !12" like metadata
    return re.sub(r',\s*!\w+(?:\.\w+)*\s+![\w]+', '', s)

def parse_instr(s, m):
    s = strip_meta(s); line = s
    p = P(tokenize(s), m); res = None
    if p.peek()[0] == "%" and p.peek(1) == "=": res = p.next(); p.next()
    op = p.next()
    if op in ("tail", "musttail", "notail"): op = p.next()
    if op in BIN:
        fl = []
        while p.peek() in FLAGS: fl.append(p.next())
        t = p.type(); a = p.value(t); p.expect(","); b = p.value(t)
        return Instr(op, res, t, [a, b], fl, line)
    if op == "fneg":
        while p.peek() in FLAGS: p.next()
        t = p.type(); return Instr(op, res, t, [p.value(t)], None, line)
    if op in CAST:
        fl = []
        while p.peek() in FLAGS: fl.append(p.next())
        t = p.type(); a = p.value(t); p.expect("to"); t2 = p.type()
        return Instr(op, res, t2, [a], fl, line)
    if op in ("icmp", "fcmp"):
        while p.peek() in FLAGS: p.next()
        pr = p.next(); t = p.type(); a = p.value(t); p.expect(","); b = p.value(t)
        return Instr(op, res, t, [a, b], pr, line)
    if op == "alloca":
        p.eat("inalloca"); t = p.type(); cnt = None
        if p.eat(",") and p.peek() != "align":
            ct = p.type(); cnt = p.value(ct)
        return Instr(op, res, t, [], cnt, line)
    if op == "load":
        p.eat("volatile"); t = p.type(); p.expect(","); pt = p.type(); a = p.value(pt)
        return Instr(op, res, t, [a], None, line)
    if op == "store":
        p.eat("volatile"); t = p.type(); v = p.value(t); p.expect(","); pt = p.type(); a = p.value(pt)
        return Instr(op, None, t, [v, a], None, line)
    if op == "getelementptr":
        fl = []
        while p.peek() in ("inbounds", "nuw", "nusw"): fl.append(p.next())
        et = p.type(); ops = []
        while p.eat(","):
            t = p.type(); ops.append(p.value(t))
        return Instr(op, res, et, ops, fl, line)
    if op == "br":
        if p.peek() == "label": p.next(); return Instr("jmp", None, None, [], p.next(), line)
        t = p.type(); c = p.value(t); p.expect(","); p.expect("label"); a = p.next(); p.expect(","); p.expect("label"); b = p.next()
        return Instr("br", None, None, [c], (a, b), line)
    if op == "switch":
        t = p.type(); v = p.value(t); p.expect(","); p.expect("label"); d = p.next(); p.expect("["); cases = []
        while not p.eat("]"):
            ct = p.type(); cv = p.value(ct); p.expect(","); p.expect("label"); cases.append((cv.v, p.next()))
        return Instr("switch", None, t, [v], (d, cases), line)
    if op == "ret":
        t = p.type()
        return Instr("ret", None, t, [] if t is VOID else [p.value(t)], None, line)
    if op == "unreachable": return Instr(op, None, None, [], None, line)
    if op == "phi":
        while p.peek() in FLAGS: p.next()
        t = p.type(); inc = []
        while True:
            p.expect("["); v = p.value(t); p.expect(","); b = p.next(); p.expect("]"); inc.append((v, b))
            if not p.eat(","): break
        return Instr(op, res, t, [], inc, line)
    if op == "select":
        while p.peek() in FLAGS: p.next()
        t = p.type(); c = p.value(t); p.expect(","); t1 = p.type(); a = p.value(t1); p.expect(","); t2 = p.type(); b = p.value(t2)
        return Instr(op, res, t1, [c, a, b], None, line)
    if op == "freeze":
        t = p.type(); return Instr(op, res, t, [p.value(t)], None, line)
    if op == "extractvalue":
        t = p.type(); a = p.value(t); idx = []
        while p.eat(","): idx.append(int(p.next()))
        return Instr(op, res, t, [a], idx, line)
    if op == "insertvalue":
        t = p.type(); a = p.value(t); p.expect(","); t2 = p.type(); b = p.value(t2); idx = []
        while p.eat(","): idx.append(int(p.next()))
        return Instr(op, res, t, [a, b], idx, line)
    if op == "call":
        while p.peek() in FLAGS: p.next()
        p.attrs(); t = p.type(); p.attrs()
        if t.k == "func": t = t.elem
        callee = p.next(); p.expect("("); args = []
        while not p.eat(")"):
            at_t = p.type()
            if at_t is META:
                d = 0
                while not (d == 0 and p.peek() in (",", ")")):
                    x = p.next()
                    if x == "(": d += 1
                    elif x == ")": d -= 1
                p.eat(","); args.append((None, [])); continue
            at = p.attrs(); args.append((p.value(at_t), at)); p.eat(",")
        return Instr("call", res, t, args, callee, line)
    raise SyntaxError("instr? " + line)

# ---- layout (x86-64 data layout)
def align_of(t):
    if t._al is None:
        if t.k == "int": a = 1 if t.n <= 8 else 2 if t.n <= 16 else 4 if t.n <= 32 else 8 if t.n <= 64 else 16
        elif t.k in ("ptr", "double"): a = 8
        elif t.k == "float": a = 4
        elif t.k == "fp80": a = 16
        elif t.k in ("array",): a = align_of(t.elem)
        elif t.k == "vector": a = size_of(t)
        elif t.k == "struct": a = 1 if t.packed else max([align_of(f) for f in t.fields] or [1])
        else: raise SyntaxError("align " + repr(t))
        t._al = a
    return t._al

def size_of(t):
    if t._sz is None:
        if t.k == "int": z = {1: 1}.get(t.n, (t.n + 7) // 8); z = (z + align_of(t) - 1) // align_of(t) * align_of(t)
        elif t.k in ("ptr", "double"): z = 8
        elif t.k == "float": z = 4
        elif t.k == "fp80": z = 16
        elif t.k in ("array", "vector"): z = t.n * size_of(t.elem)
        elif t.k == "struct":
            if t.fields is None: raise SyntaxError("opaque " + repr(t))
            o = 0; offs = []
            for f in t.fields:
                a = 1 if t.packed else align_of(f)
                o = (o + a - 1) // a * a; offs.append(o); o += size_of(f)
            a = align_of(t); z = (o + a - 1) // a * a; t._offs = offs
        else: raise SyntaxError("size " + repr(t))
        t._sz = z
    return t._sz

def field_off(t, i):
    size_of(t); return t._offs[i]

# ---- loops
class Loop:
    def __init__(s, header): s.header = header; s.blocks = {header}; s.latches = []

def succs(f, b):
    t = f.blocks[b][-1]
    if t.op == "jmp": return [t.x]
    if t.op == "br": return list(t.x)
    if t.op == "switch": return [t.x[0]] + [c[1] for c in t.x[1]]
    return []

def loops(f):
    if f._loops is not None: return f._loops
    order = f.order; entry = order[0]
    preds = {b: [] for b in order}
    for b in order:
        for s in succs(f, b): preds[s].append(b)
    reach = set(); st = [entry]
    while st:
        b = st.pop()
        if b in reach: continue
        reach.add(b); st += succs(f, b)
    dom = {b: set(reach) for b in reach}; dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b not in reach or b == entry: continue
            ps = [dom[p] for p in preds[b] if p in reach]
            nd = set.intersection(*ps) | {b} if ps else {b}
            if nd != dom[b]: dom[b] = nd; ch = True
    L = {}
    for b in order:
        if b not in reach: continue
        for s in succs(f, b):
            if s in dom[b]:
                lp = L.setdefault(s, Loop(s)); lp.latches.append(b)
                w = [b]
                while w:
                    x = w.pop()
                    if x in lp.blocks: continue
                    lp.blocks.add(x); w += [q for q in preds[x] if q in reach]
    f._loops = L
    return L

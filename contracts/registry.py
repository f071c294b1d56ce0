from lib import DOUBLE, OBJ
D, O = (DOUBLE,), (OBJ,)
def A(fn, args): return {"mod": "carray", "fn": fn, "tu": "array", "args": args}
ARR_SEQ = [A(f, [D, O]) for f in ("ctors", "copies", "resizes", "appends", "dtor", "observers")]
def B(mod, tu, fn, *args): return {"mod": mod, "fn": fn, "tu": tu, "args": [a if isinstance(a, (list, tuple)) else [a] for a in args] or [()]}
def G(fn, args): return {"mod": "carray2d", "fn": fn, "tu": "array2d", "args": args}
def g2(es, *rest): return [(e, m) + r for m in ("D", "C") for e in es for r in (rest or [()])]
R4 = ("resize", "resizex", "resizeemp", "reserve")
def RES(o=True, d=True):
    """2D resizing contracts, most expensive first (they run in parallel)"""
    j = []
    if d: j += [(DOUBLE, "D", "aligned", f) for f in ("resizex", "resizeemp", "resize", "reserve")] + [(DOUBLE, "C", "aligned", f) for f in ("resize", "reserve")]
    if o: j += [(OBJ, "D", "heap", f) for f in R4] + [(OBJ, "C", "heap", f) for f in ("resize", "reserve")]
    if d: j += [(DOUBLE, m, q) for m in "DC" for q in ("heap", "nullal", "null")]
    if o: j += [(OBJ, m, "null") for m in "DC"]
    return G("resizes", j)
def CPY(o=True, d=True):
    j = []
    if d: j += [(DOUBLE, m, q) for q in ("aligned", "heap", "nullal", "ctor", "null") for m in "DC"]
    if o: j += [(OBJ, m, q) for q in ("heap", "ctor", "null") for m in "DC"]
    return G("copies", j)
ROUND = {"mod": "carith", "fn": "rounds", "tu": "arith", "args": [()]}
ARR2 = [RES(), CPY(), G("aligned_ctors", g2(D))] + [G(f, g2(D + O)) for f in ("ctors", "lists", "dtor", "observers", "accesses")] + [ROUND]
def S(fn, args): return {"mod": "csmall", "fn": fn, "tu": "small", "args": args}
SM_ALL = [(e, n) for e in (OBJ, DOUBLE) for n in (1, 4)]
SM_O = [(OBJ, 1), (OBJ, 4)]
ST_ALL = [(DOUBLE, 0), (DOUBLE, 1), (DOUBLE, 5), (OBJ, 3)]
SMALL = [S(f, SM_ALL) for f in ("copies", "resizes", "appends", "ctors", "dtor", "observers")] + [S("static", ST_ALL)]
def STR(fn, *args): return {"mod": "cstring", "fn": fn, "tu": "string", "args": [a if isinstance(a, tuple) else (a,) for a in args] or [()]}
def U16(fn, *args): return {"mod": "cstring", "fn": fn, "tu": "utf16", "args": [a if isinstance(a, tuple) else (a,) for a in args] or [()]}
from calgo import LONG
def ALGO(fn, *args): return {"mod": "calgo", "fn": fn, "tu": "algo", "args": [tuple({"D": DOUBLE, "L": LONG}.get(x, x) for x in (a if isinstance(a, tuple) else (a,))) for a in args]}
def A3(fn, args): return {"mod": "carray3d", "fn": fn, "tu": "array3d", "args": args}
REG = ["heap,heap,%s,%s" % (r, z) for z in ("full", "flat") for r in ("fit", "grow0", "grow1", "grow2")]
CPY3 = A3("copies", [(OBJ, m, r) for r in REG[:4] for m in "DC"] + [(OBJ, m, r) for r in ("ctor:heap,full", "ctor:heap,flat", "null,heap,full", "null,heap,flat", "move:heap") for m in "DC"] + [(OBJ, m, r) for r in REG[4:] for m in "DC"]
  + [(DOUBLE, m, r) for r in REG[1:4] + ["ctor:heap,full", "ctor:heap,flat", "null,heap,full", "null,heap,flat", "nullal,heap,full", "nullal,heap,flat"] + REG[:1] + REG[4:] + ["move:" + k for k in ("null", "heap", "nullal", "aligned")] for m in "DC"]
  + [(e, m, r) for r in ("self", "ctor:null", "heap,null", "null,null", "move:null") for m in "DC" for e in (OBJ, DOUBLE)] + [(DOUBLE, m, r) for r in ("ctor:nullal", "heap,nullal", "nullal,null", "null,nullal", "nullal,nullal", "aligned,null", "aligned,nullal") for m in "DC"])
PROPS = {
 "C01": {"contracts": [B("carith", "arith", f) for f in ("sums", "prods", "quotients", "rounds", "converts")] + [B("carith", "arith", "prods3", "i", "l", "ll")], "release": False, "replay": [["arith"]]},
 "C02": {"contracts": [B("calloc", "alloc", f, "c", "s", "i", "d", "s12", "s16", "s24", "s40") for f in ("plain", "aligned", "free")], "replay": [["alloc"]]},
 "C24": {"contracts": [B("cintmath", "arith", f) for f in ("powers", "absolutes", "floors")] + [B("cintmath", "arith", f, "i", "l") for f in ("ipow_static", "ipow_dynamic")], "release": False, "replay": [["arith"]]},
 "C03": {"contracts": ARR_SEQ + [A("aligned_ctors", [D])], "ignore": ["life:", "own:", "align:"], "replay": [["array"]]},
 "C04": {"contracts": [RES(d=False), CPY(d=False)] + [G(f, g2(O)) for f in ("ctors", "lists", "dtor")] + [A(f, [O]) for f in ("ctors", "copies", "resizes", "appends", "dtor")] + [S(f, SM_O) for f in ("copies", "resizes", "appends", "ctors", "dtor")] + [S("static", [(OBJ, 3)])], "ignore": ["post:", "align:"], "replay": [["array"], ["array2d"], ["small"]]},
 "C25": {"contracts": SMALL, "ignore": ["life:", "own:"], "replay": [["small"]]},
 "C08": {"contracts": ARR2, "ignore": ["life:", "own:", "align:"], "replay": [["array2d"]]},
 "C05": {"contracts": [A("accesses", [D, O]), A("views", [D, O])] + [G(f, g2(D + O)) for f in ("observers", "accesses", "views", "viewmethods")] + [S(f, SM_ALL) for f in ("accesses", "views")] + [S(f, ST_ALL) for f in ("saccesses", "sviews")] + [STR(f) for f in ("strviews", "strview_methods", "straccess")], "ignore": ["life:", "own:", "align:", "post:"], "release": False, "replay": [["array"], ["array2d"], ["small"], ["string"]]},
 "C06": {"contracts": [A("views", [D, O])] + [G(f, g2(D + O)) for f in ("views", "viewmethods")] + [S("views", SM_ALL), S("sviews", ST_ALL), STR("strviews"), STR("strview_methods")], "ignore": ["life:", "own:", "align:", "post:boundary"], "release": False, "replay": [["array"], ["array2d"], ["small"], ["string"]]},
 "C15": {"contracts": [STR("appends", "nrune", "view3", "view2", "rune"), STR("joins", 6, 5, 4, 3, 2), STR("appends", "char", "lit", "data", "view")] + [STR(f) for f in ("ctors", "moves", "assigns", "storage", "observers")] + [U16("ustrings"), U16("uappends", "char", "rune", "str")], "ignore": ["align:", "post:type"], "release": False, "replay": [["string"]]},
 "C16": {"contracts": [STR("appends", "nrune", "rune"), STR("roundtrip", *[(c, L) for c in ("small", "large") for L in (1, 2, 3, 4)]), STR("runes"), U16("uappends", "rune"), U16("urunes")], "ignore": ["own:", "align:", "post:type", "post:capacity", "post:data"], "release": False, "replay": [["string"]],
  "bounded": [{"driver": "string", "what": "il::toUtf8, il::toUtf16 and UTF16String::Append(n, cp), which are not under contract", "bound": "25 s of random code points after prefixes of at most 25 characters, repeat counts of at most 5 (the last line of the output gives the numbers)"}]},
 "C17": {"contracts": [STR("searches", "large", "small", "view")] + [STR(f) for f in ("compare", "affixes", "counts", "scans")] + [U16("urunes")], "ignore": ["own:", "align:", "post:decode", "post:step", "post:valid", "post:roundtrip"], "release": False, "replay": [["string"]]},
 "C20": {"contracts": [ALGO("sorts_aux", "D", "L")] + [ALGO("extrema", *[(e, n) for n in ("maxabs", "imaxabs", "minmax", "min", "max", "imin", "imax") for e in "DL"])] + [ALGO(f, "D", "L") for f in ("sorts", "bsearch")], "ignore": ["own:", "align:"], "release": False, "replay": [["algo"]]},
 "C14": {"contracts": [B("cdeque", "deque", f, DOUBLE, OBJ) for f in ("ctors", "pushes", "pops", "observers")], "ignore": ["align:"], "release": False, "replay": [["deque"]]},
 "C10": {"contracts": [B("cpacked", "packed", f, *[(e, k) for e in (DOUBLE, OBJ) for k in "LU"]) for f in ("copies", "accesses", "ctors")] + [B("cpacked", "packed", "band", "copies", "accesses", "ctors"), B("cpacked", "packed", "tri")], "ignore": ["align:"], "release": False, "replay": [["packed"]]},
 "C19": {"contracts": [B("cinfo", "info", "searches", ("small", "present"), ("large", "present"), ("small", "absent"), ("large", "absent")), B("cinfo", "info", "status", "small", "large"), B("cinfo", "info", "sets", "int", "integer", "double", "string"), B("cinfo", "info", "copies"), B("cinfo", "info", "gets"), B("cinfo", "info", "domains")], "ignore": ["align:"], "release": False, "replay": [["info"]]},
 "C09": {"contracts": [A3("aligned_ctors", [(DOUBLE, "D", "ctornxalr"), (DOUBLE, "C", "ctornalr")]), CPY3, dict(A3("aligned_ctors", [(DOUBLE, m, f) for f in ("ctornxal", "ctornal") for m in "DC"] + [(DOUBLE, "C", "ctornxalr"), (DOUBLE, "D", "ctornalr")]), tier="thorough")] + [A3(f, g2(O + D)) for f in ("ctors", "accesses", "dtor", "observers")] + [ROUND], "ignore": ["align:"], "release": False, "replay": [["array3d"]],
  "bounded": [{"driver": "array3d", "what": "copy construction and copy assignment from an aligned Array3D/Array3C (not within the reach of the solvers)", "bound": "25 s of random histories over three arrays with extents of at most 14 (the last line of the output gives the number of histories and calls)"}]},
 "C26": {"contracts": [B("ctree", "tree", "adds", "d8", "d4", "o4", "d3", "d2", "o2"), B("ctree", "tree", "children", "d4", "o4", "d3", "d2", "o2")] + [B("ctree", "tree", f, "d2", "d3", "d4", "d8", "o2", "o4") for f in ("navigate", "flags", "ctors")], "ignore": ["align:"], "release": False, "replay": [["tree"]]},
 "C07": {"contracts": [RES(o=False), CPY(o=False), G("aligned_ctors", g2(D)), G("dtor", g2(D)), ROUND] + [A(f, [D]) for f in ("aligned_ctors", "copies", "resizes", "appends", "dtor")], "ignore": ["post:", "life:"], "replay": [["array"], ["array2d"]]},
}
NOT_APPLICABLE = {
 "C11": "il::Map is not under contract: (1) the guarantee is false on this revision in ways whose repair is a redesign, not a small fix (see DESIGN.md section 6: the in-place Rehash drops tombstones and makes keys unreachable, copy assignment releases or leaks, the iteration spots are shifted by one), and (2) the probing loop needs a quantified invariant over the whole table (every slot between a key's home and its position is occupied or a tombstone, for a triangular probe sequence modulo a power of two), which the instantiation used here for quantified invariants does not decide. A contract that assumes this invariant would decide nothing",
 "C13": "il::MapArray is a vector of pairs over il::Map and stands on the contract of il::Map (C11), which could not be established; on this revision Set of an existing key appends a second entry, so the property is also false (recorded in DESIGN.md section 6)",
 "C18": "il::Dynamic is a type tag and eight bytes that hold either a scalar or an owning pointer to one of more than ten boxed types, among them Array<Dynamic>, Map<String, Dynamic> and MapArray<String, Dynamic>: its destructor and copies are recursive through Map, whose contract (C11) could not be established, so the ownership and deep-copy obligations of every operation rest on it. On this revision the property is also false for some stored types (mis-tagged unsigned arrays, Array2D payloads neither copied nor released, self assignment: DESIGN.md section 6)",
 "C12": "il::Set<T> does not compile in this revision for any element type, so there is no code to put under contract",
 "C21": "the functions are dominated by C stdio calls whose contracts would all be assumed; what remains after assuming them decides nothing about the file round trip",
 "C22": "a recursive-descent parser over std::string-like buffers with file I/O: no contract short of a formal TOML grammar expresses the property, and that grammar would be a model, not code",
 "C23": "floating-point accuracy (residuals) has no decision procedure within reach of the verifier, and the work is done by external BLAS/LAPACK routines",
}

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=list(files),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
H="il/container/"
p("C01","Checked integer arithmetic is exact or reports an error",
  "Every checked integer operation (sum, difference and product of two values, doubling of a non-negative value, quotient, round-up to a multiple, and conversion between integer types) returns the exact mathematical result and clears the error flag whenever that result is representable. Whenever it is not representable (or the divisor is zero) it sets the error flag. A product of three or four factors that reports success is exact, and it succeeds whenever every partial product is representable. No operation executes undefined behaviour on the way.",
  ["inputs"],"all operand values of every overload (int, long, long long and their unsigned counterparts; conversions between each pair provided)",
  "The tests sample a few operands near the limits; the guarantee ranges over 2^64 to 2^192 operand combinations.",
  ["il/core/math/safe_arithmetic.h"],[("overflow pre-checks against the type limits","il/core/math/safe_arithmetic.h:30-607")],
  observe=["the result and the error flag of il::safeSum, safeDifference, safeProduct, safeProduct2Positive, safeDivision, safeUpperRound, safeConvert, safeUpperConvert"])
p("C02","Array allocation is never short, misaligned or silently wrapped",
  "A request for n elements of a type either yields a block in which all n elements lie, with the requested alignment offset when one is asked for, or the program aborts. No size computation wraps around, and the block can be released through the reported base.",
  ["inputs"],"every n in [0, 2^63) and every legal alignment modulus and remainder",
  "Overflowing sizes and most alignment remainders are never tried by tests (they would need exabytes or particular malloc addresses).",
  ["il/core/memory/allocate.h"],[("size limit and checked product before malloc","il/core/memory/allocate.h:36-95")],
  observe=["pointer and shift returned by il::allocateArray"])
p("C03","The dynamic array behaves as a finite sequence",
  "For any legal array, any size and capacity and any contents, construction, copy, move, assignment, resizing, reserving and appending leave exactly the specified sequence: surviving elements keep their values and order, new elements get the given value, size and capacity are as specified, the source of a copy is unchanged. An argument may refer to an element of the array itself, and no operation touches memory outside its arrays.",
  ["inputs","histories"],"all reachable array states (any size <= capacity) and all arguments, one operation at a time, hence every history",
  "Tests use a handful of sizes up to about ten; the guarantee covers every size, capacity, content and operation order, and aliasing arguments.",
  [H+"1d/Array.h","il/core/memory/allocate.h"],[("representation invariant data<=size<=capacity","il/container/1d/Array.h:970-996"),("growth in one private routine","il/container/1d/Array.h:936-966")],
  state=[("data_, size_, capacity_","begin, end of elements, end of storage","il/container/1d/Array.h:38-40")],
  observe=["size(), capacity(), element values through the public accessors"])
p("C04","Container elements are constructed and destroyed exactly once",
  "For an arbitrary element type, the 1D and 2D dynamic arrays and the small array construct an element only in raw storage, read, assign or destroy only live elements, and keep exactly the elements below their size alive. No live element is lost, destroyed twice or used after destruction, and no storage is leaked or released twice, whatever sequence of operations is executed.",
  ["inputs","histories"],"all container states and all operations on them, for an opaque element type with non-trivial constructor, destructor and assignments",
  "Tests count a few constructor calls on arrays of about five elements; leaks and double destruction in other size/capacity combinations are invisible to them.",
  [H+"1d/Array.h",H+"1d/SmallArray.h",H+"2d/Array2D.h",H+"2d/Array2C.h"],[("placement new / explicit destructor loops","il/container/1d/Array.h:500-966"),("same in SmallArray","il/container/1d/SmallArray.h")],
  observe=["constructor/destructor calls of the element type, malloc/free"])
p("C05","Debug builds stop out-of-range accesses before they touch memory",
  "In a debug build every element access, first/last access and range-taking accessor of the arrays, views, multi-dimensional arrays and strings either addresses an element inside the object or aborts before any memory outside it is read or written. In-range accesses never abort.",
  ["inputs"],"all indices (negative, huge, overflowing), all container states",
  "Tests try one or two bad indices per class; an off-by-one or sign error in any index dimension shows for other values.",
  [H+"1d/Array.h",H+"1d/ArrayView.h",H+"1d/SmallArray.h",H+"1d/StaticArray.h",H+"2d/Array2D.h",H+"2d/Array2C.h",H+"2d/Array2DView.h",H+"2d/Array2CView.h",H+"3d/Array3D.h",H+"string/String.h"],
  [("IL_EXPECT_MEDIUM unsigned comparisons","il/core/core.h:75-135")],
  observe=["abort versus the address of the returned reference"])
p("C06","Views and edits alias exactly the chosen elements",
  "A view, edit or sub-range of an array, 2D array, string or another view has exactly the requested extents and element (i) or (i,j) of it is the very element of the original at the shifted position. Writing through an edit changes that element and no other.",
  ["inputs"],"all container states, all legal ranges, all indices",
  "Tests check one or two fixed ranges of small arrays.",
  [H+"1d/Array.h",H+"1d/ArrayView.h",H+"1d/SmallArray.h",H+"2d/Array2D.h",H+"2d/Array2C.h",H+"2d/Array2DView.h",H+"2d/Array2CView.h",H+"string/String.h"],
  [("pointer plus extents/strides in the view objects","il/container/1d/ArrayView.h; il/container/2d/Array2DView.h")],
  observe=["addresses and extents exposed by the view"])
p("C07","Requested alignment survives every operation",
  "An array or 2D array created with an alignment keeps that alignment of its first element (and of every column or row for 2D arrays) through construction, copy, move, assignment, resizing, reserving and appending as long as it holds storage, and the storage is released through the pointer that was allocated.",
  ["inputs","histories"],"all sizes, alignments, moduli, remainders and malloc results",
  "malloc usually returns 16-byte aligned blocks, so tests pass for most wrong shifts; sizes and remainders tried are few.",
  [H+"1d/Array.h",H+"2d/Array2D.h",H+"2d/Array2C.h","il/core/memory/allocate.h"],[("shift_ and align_r_/align_mod_ bookkeeping","il/container/1d/Array.h:41-44")],
  observe=["address of the first element modulo the alignment"])
p("C08","2D arrays map (i,j) to its own element through every operation",
  "In column-major and row-major 2D arrays element (i,j) is a distinct cell for each in-range pair, and construction, copy, move, assignment, reserving and resizing leave every surviving element at the same (i,j) with its value, give new cells the given value, report the requested sizes and stay inside the allocated storage.",
  ["inputs","histories"],"all sizes, capacities and strides, all contents",
  "Resizing has three memory-movement regimes depending on four sizes and capacities; tests try a few tiny combinations.",
  [H+"2d/Array2D.h",H+"2d/Array2C.h"],[("stride/capacity bookkeeping and copy loops","il/container/2d/Array2D.h:530-1380")],
  observe=["operator()(i,j), size(d), capacity(d)"])
p("C09","3D arrays map (i,j,k) to its own element",
  "In 3D arrays element (i,j,k) is a distinct cell inside the storage for every in-range triple, sizes are as requested, and construction with a value, copy and move preserve every element.",
  ["inputs"],"all sizes and contents","Tests use fixed sizes below ten.",
  [H+"3d/Array3D.h",H+"3d/Array3C.h"],[("stride formula in the accessors","il/container/3d/Array3D.h")],observe=["operator()(i,j,k)"])
p("C10","Packed matrix layouts address one distinct cell per element",
  "Lower/upper triangular, tridiagonal and banded matrices map each legal index pair to a cell inside their storage, two different legal pairs never share a cell, and copies carry every stored element in storage of their own.",
  ["inputs"],"all orders n and all index pairs","Tests do not cover these layouts beyond tiny orders.",
  [H+"2d/LowerArray2D.h",H+"2d/UpperArray2D.h",H+"2d/TriDiagonal.h",H+"2d/BandArray2C.h"],[("closed-form packed index","il/container/2d/LowerArray2D.h:260")],observe=["addresses returned by the accessors"])
p("C11","The hash map behaves as a finite map over any history",
  "After any history of insertions, assignments, removals, reservations, copies, moves and clears, a lookup finds a key exactly when it was inserted and not removed since, and yields its latest value; the number of elements is the number of such keys, and iterating visits each of them exactly once. This holds for every hash function (any collisions) and every table size.",
  ["inputs","histories"],"all table states (any occupancy, tombstones, collisions), all keys, all hash functions",
  "Tests run a few insertions with well-spread integer keys; probe-chain corruption needs particular collisions, removals and rehashes.",
  [H+"hash/Map.h",H+"hash/HashFunction.h"],[("open addressing with empty/tombstone markers","il/container/hash/Map.h"),("rehash on growth","il/container/hash/Map.h")],
  state=[("bucket_, p_, nb_elements_, nb_tombstones_","slots, log2 capacity, live entries, deleted markers","il/container/hash/Map.h")],
  observe=["search, found, value, nbElements, iteration"])
p("C12","The hash set behaves as a finite set over any history",
  "After any history of insertions, membership is reported exactly for the inserted keys and the element count is the number of distinct inserted keys.",
  ["inputs","histories"],"all table states and keys","There is no test of the set.",
  [H+"hash/Set.h"],[("open addressing","il/container/hash/Set.h")],observe=["search, found, nbElements"])
p("C13","The insertion-ordered map keeps order and latest value",
  "The array-backed map keeps its entries in first-insertion order, a lookup finds a key exactly when it was inserted and yields the value stored for it last, and inserting an existing key does not create a second entry.",
  ["inputs","histories"],"all histories and keys","Only exercised indirectly by a few tests.",
  [H+"hash/MapArray.h"],[("index map plus entry array","il/container/hash/MapArray.h")],observe=["search, key(i), value(i), nbElements"])
p("C14","The deque is a faithful double-ended queue",
  "For any history of pushes and pops at both ends, the deque holds exactly the sequence a mathematical double-ended queue would hold: front, back and size agree with it, whatever the ring position and fill level, and no element is overwritten, lost or touched outside the storage: a push beyond the capacity and a pop of an empty deque abort instead.",
  ["inputs","histories"],"all ring positions, fill levels and capacities","There is no unit test of the deque; wrap-around at a full ring needs particular histories.",
  [H+"deque/Deque.h"],[("front_/back_ ring indices over a power-of-anything buffer","il/container/deque/Deque.h")],observe=["front(), back(), size()"])
p("C15","Strings hold exactly the appended bytes, terminated, in any mode",
  "Construction, copy, move, assignment, reserving and appending (bytes, strings, views, runes, repeated characters, possibly from the string itself) leave a string whose bytes are exactly the expected concatenation, followed by a NUL, with size at most capacity, whichever of the inline or heap representations is in use before and after. Sources of copies are unchanged and no heap block is leaked or released twice.",
  ["inputs","histories"],"all lengths (inline, boundary, heap), capacities and contents","Tests use a few strings around the inline limit; each operation has up to nine representation transitions.",
  [H+"string/String.h"],[("small/large union with tag byte","il/container/string/String.h")],observe=["size(), capacity(), data(), asCString()"])
p("C16","Unicode code points survive UTF-8 and UTF-16 encoding",
  "Every valid code point (0..0x10FFFF without surrogates) is encoded into its unique standard UTF-8 or UTF-16 form, decoding that form yields the code point again, stepping to the next code point advances by exactly the encoded length, and the validity predicate accepts exactly the valid code points.",
  ["inputs"],"all 1,112,064 code points and all 32-bit integers for the predicate","Tests try four code points.",
  [H+"string/String.h",H+"string/UTF16String.h",H+"string/unicode.h"],[("bit slicing in Append/rune/nextRune","il/container/string/String.h")],observe=["bytes appended, toRune/nextRune results"])
p("C17","String comparison and search agree with the byte sequences",
  "Equality of strings, views and literals holds exactly when lengths and bytes agree; prefix and suffix tests, character counts and substring search report exactly what the byte sequences say, and no byte outside the operands is read.",
  ["inputs"],"all pairs of byte strings","Tests compare a few literals.",
  [H+"string/String.h",H+"string/algorithmString.h"],[("byte-wise loops","il/container/string/String.h; il/container/string/algorithmString.h")],observe=["operator==, startsWith, endsWith, search, count"])
p("C18","Dynamic values round-trip and own what they hold",
  "A dynamic value reports exactly the type it was given and gives back exactly the value stored, copies are deep and independent, assignment releases the previous content, and nothing is leaked or released twice.",
  ["inputs","histories"],"all stored types and values and all assignments between them","Tests store one sample value per type.",
  [H+"dynamic/Dynamic.h",H+"dynamic/Type.h"],[("type tag with boxed payload","il/container/dynamic/Dynamic.h")],observe=["type(), is<T>(), to<T>()"])
p("C19","Status and Info report the recorded outcome",
  "A status reports ok or error exactly as set, an unchecked status is the only kind that stops the program at destruction or overwriting, moving transfers the obligation to check, and an attached information record gives back each value under the key it was stored with.",
  ["inputs","histories"],"all record contents and keys","Two tests with three keys.",
  [H+"info/Status.h",H+"info/Info.h"],[("to_check_ flag; flat key/value byte buffer","il/container/info/Status.h; il/container/info/Info.h")],observe=["ok(), search, toInteger, toDouble"])
p("C20","Array algorithms agree with their mathematical definitions",
  "Minimum, maximum, largest absolute value, their positions, binary search and sorting over an array or sub-range return the mathematically defined result for every length and content (no NaN): extrema are attained bounds, search returns a matching position exactly when one exists, sorting yields an ordered permutation and leaves the rest of the array untouched. No access leaves the range.",
  ["inputs"],"all lengths, contents, sub-ranges","Tests use arrays of about five elements.",
  ["il/algorithm/algorithmArray.h"],[("single-pass loops, quicksort with insertion sort","il/algorithm/algorithmArray.h")],observe=["returned values, array contents"])
p("C21","Saving and loading arrays preserves them",
  "Saving an array in the numpy format and loading it back gives the same shape and element values.",
  ["inputs"],"all shapes and contents","Tests use one array per type.",
  ["il/io/numpy/numpy.h","il/io/numpy/numpy.cpp"],[("npy header writer and parser","il/io/numpy/numpy.cpp")],observe=["il::save, il::load"])
p("C22","TOML documents are parsed to the values they denote",
  "Parsing a valid TOML document of the supported subset gives the table of values it denotes, saving and re-parsing a table gives the same table, and an invalid document is reported as an error with its line.",
  ["inputs"],"all documents","About twenty small documents are tried.",
  ["il/io/toml/toml.h","il/io/toml/toml.cpp"],[("recursive-descent parser","il/io/toml/toml.cpp")],observe=["il::load of a .toml file"])
p("C23","Dense and sparse linear algebra solve the stated problems",
  "Products, factorizations and solvers return results whose residual is within floating-point accuracy of the mathematical definition.",
  ["inputs"],"all matrices","Tests use small well-conditioned matrices.",
  ["il/linearAlgebra"],[("BLAS/LAPACK/MKL calls","il/linearAlgebra/dense")],observe=["il::dot, il::linearSolve, ..."])
p("C24","Integer power, power-of-two and log helpers are exact",
  "The integer helpers (absolute value, next and previous power of two, ceiling of log2, rounding down to a multiple for non-negative values, integer powers) return their mathematical value on their whole documented domain.",
  ["inputs"],"all operands in the domain (32 and 64 bit)","There is no direct test.",
  ["il/math.h"],[("bit smearing, doubling loops","il/math.h")],observe=["returned values"])
p("C25","Small and static arrays behave as finite sequences",
  "A small array behaves as a finite sequence through construction, copy, move, assignment, resizing, reserving and appending on both sides of its inline capacity, and a static array returns exactly the elements it was given.",
  ["inputs","histories"],"all sizes on both sides of the inline limit, all contents","Tests use inline capacities of 4 or 5 and a few sizes.",
  [H+"1d/SmallArray.h",H+"1d/StaticArray.h"],[("inline buffer until n elements, then heap","il/container/1d/SmallArray.h")],observe=["size(), capacity(), elements"])
p("C26","Tree navigation is consistent",
  "In the n-ary tree the parent of the i-th child of a node is that node, distinct nodes have distinct children, and reported children are exactly the ones added.",
  ["inputs"],"all spots and child numbers","One test.",
  [H+"tree/Tree.h"],[("heap-style index arithmetic","il/container/tree/Tree.h")],observe=["parent, child, hasChild, children"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")

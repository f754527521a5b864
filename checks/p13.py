"""P13: sparse results are well-formed compressed lists."""
import re
from vlib import *
from mat import *
import p06, p08, p10, walk

# obligations of the value analyses that are about the structure of the result, not about its values
STRUCT = re.compile(r":(?!.*(operand|rows$|cols$|size$|length$|exact$|inner$|content|scratch|refuses|count$|count |(v|V) value|append v value|values|insertion value|result v|:v$))")

class Structure:
    """passes on the structural obligations only"""
    structural = True
    def __init__(s, c): s.c = c
    def __getattr__(s, k): return getattr(s.c, k)
    def keep(s, key): return bool(STRUCT.search(key))
    def ok(s, key, *a):
        if s.keep(key): s.c.ok(key, *a)
    def viol(s, key, *a):
        if s.keep(key): s.c.viol(key, *a)
    def undecided(s, key, *a):
        if s.keep(key) or ":" not in key: s.c.undecided(key, *a)
    def ob(s, key, *a):
        if s.keep(key): s.c.ob(key, *a)
    def guard(s, key): return _Guard(s, key)

def run(c):
    c.rules = ["for every operation with a sparse result, the offsets, keys and counts it stores are summarised as closed forms over symbolic shapes and patterns: offset 0 is 0, offset j+1 is offset j plus the number of elements appended in line j, one offset per line plus one, as many keys as values as counted, keys taken from the line's candidates",
               "whole-object operations (construction, copy, assignment, move, swap, resize, shrink) keep the three arrays and counts together"]
    c.assumptions = ["operands are well-formed", "machine arithmetic on values is irrelevant here", "a parameter constructor's or resize's arrays are filled by the caller"]
    c.floor = 300
    s = Structure(c)
    sums, prods, conv = VERIF + "/drivers/sums.cpp", VERIF + "/drivers/products.cpp", VERIF + "/drivers/convert.cpp"
    jobs = [((sums,), {"defs": ["PART%d" % p, "VP_OWNS"], "tag": "s%d" % p, "flags": ["-fno-access-control"]}) for p in (2, 4)] + [((prods,), {"defs": ["PART%d" % p, "VP_OWNS"], "tag": "p%d" % p, "flags": ["-fno-access-control"]}) for p in (3, 5)] + \
           [((conv,), {"defs": ["PART=%d" % p, "VP_OWNS"], "tag": "c%d" % p, "flags": ["-fno-access-control"]}) for p in (2, 3, 4)]
    mods = c.loads(jobs)
    try: mods.append(c.load(VERIF + "/drivers/sparse.cpp", tag="w", defs=["VP_OWNS"], flags=["-fno-access-control"]))
    except Broken as e: c.undecided("whole objects", str(e)[:200])
    for k, mod in enumerate(mods):
        for name, fn in sorted(mod.items()):
            if not name.startswith("drv_"): continue
            with c.guard(name):
                if not sparse_result(fn): continue
                parts = name.split("_")
                if k < 2: p06.one(s, name, fn, parts[1], parts[2], parts[3])
                elif k < 4: p08.one(s, name, fn)
                elif k < 7: (p10.converter if parts[1] in ("mc", "mm") else p10.one)(s, name, fn)
                else: whole_object(c, name, fn)

def sparse_result(fn):
    S = summarise(fn)
    return any(p[0] in ("C", "E") and len(p[1]) == 10 for p in S.probes) or not S.probes

def whole_object(c, name, fn):
    op = name.split("_")[2]; row = op.endswith("r") and op not in ("ctor",)
    D = Drv(fn, ["A", "B"], row=row)
    w = where_in(fn, "SparseMatrix.h", "SparseStorage.h", "Storage.h")
    eq = lambda k, got, want, msg: check_eq(c, name + ":" + k, D.N(got), D.N(want), msg, w)
    C = D.m("C")
    if op in ("ctor", "ctorr", "resize", "resizer"):
        r, cc, k = (P(("arg", x)) for x in ("r", "c", "k"))
        want = mk_ite(cmp_int("eq", k, ZERO), r * cc, k)
        eq("nnz", D.probe("C", "nnz"), want, "number of stored elements"); eq("nk", D.probe("C", "nk"), want, "number of keys")
        eq("so", D.probe("C", "so"), (r if row else cc) + 1, "number of offsets"); return
    if op == "default":
        for f in ("nnz", "nk"): eq(f, D.probe("C", f), ZERO, "count of an empty matrix")
        return
    if op == "shrink":
        k = P(("arg", "k"))
        eq("nnz", D.probe("C", "nnz"), k, "number of stored elements"); eq("nk", D.probe("C", "nk"), k, "number of keys")
        eq("so", D.probe("C", "so"), n("A.so"), "number of offsets")
        for f in ("v", "k"):
            with c.guard(name + ":" + f): check_content(c, name + ":" + f, D, "C." + f, k, spec([("e", k)], iv("e"), el("A." + f, iv("e"))))
        c.ob(name + ":o", D.regions["C.o"].base == D.regions["A.o"].base and not D.effects_on("A.o"), "the offsets stay", w)
        return
    for tag, src in [("C", "A")] if op != "swap" else [("C", "B"), ("E", "A")]:
        for f, m in (("nnz", "number of stored elements"), ("nk", "number of keys"), ("so", "number of offsets"), ("r", "rows"), ("c", "columns")):
            eq(tag + " " + f, D.probe(tag, f), n(src + "." + f), m)
        sizes = {"v": n(src + ".nnz"), "k": n(src + ".nnz"), "o": n(src + ".so")}
        for f, z in sizes.items():
            key = "%s:%s %s" % (name, tag, f)
            if op in ("copy", "assign"):
                with c.guard(key): check_content(c, key, D, tag + "." + f, D.N(z), spec([("e", D.N(z))], iv("e"), el(src + "." + f, iv("e"))))
            else:
                a, b = D.probes[tag][f], D.probes[src][f]
                c.ob(key, a == b and not D.effects_on(src + "." + f), "the %s array is handed over" % {"v": "value", "k": "key", "o": "offset"}[f], w)
from vlib import _Guard

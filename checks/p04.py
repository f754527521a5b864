"""P04: a matrix's reported shape always matches its storage."""
import json, re
from vlib import *
from mat import *
import own as ow

DRV = VERIF + "/drivers/shapes.cpp"
FIELDS = {"dense": ["rows", "columns", "size", "storage length"],
          "zero": ["rows", "columns", "size"],
          "sparse": ["rows", "columns", "size", "number of stored elements", "number of offsets"],
          "sub": ["rows", "columns", "size", "storage length", "leading dimension (rows)", "leading dimension (columns)", "data pointer"],
          "blocked": ["rows", "columns", "size", "storage length", "unblocked rows", "unblocked columns"]}

def kind(t): return "zero" if "zz" in t else "sub" if "sub" in t else "blocked" if t == "bm" else "sparse" if re.search(r"s[df]", t) and len(t) <= 3 else "dense"

def run(c):
    c.rules = ["every constructor, copy, move, assignment, self-assignment, swap, resize and conversion of the matrix types is summarised over symbolic shapes: the reported rows, columns, size and storage length after it are the ones requested or those the source reported before it",
               "a refused resize has changed no field of the matrix (other than its caches, which P15 judges) on any of its paths"]
    c.assumptions = ["operands are well-formed (the reported size is rows times columns)", "moved-from objects are not read", "memory can be allocated (a failed allocation is another matter)"]
    c.floor = 330
    for mod in c.loads([((DRV,), {"defs": ["PART%d" % p], "tag": "s%d" % p}) for p in (1, 2, 3, 4)]):
        for name, fn in sorted(mod.items()):
            if not name.startswith("drv_sh_"): continue
            with c.guard(name): one(c, name, fn)
    off = c.load(DRV, tag="s6", defs=["PART6"], flags=["-fno-access-control"])
    fs = json.load(open(c.compile(DRV, tag="s5", defs=["PART5"], opts=["--prefix=drv_", "--keep-new"])))["functions"]
    for raw in fs:
        if not raw["name"].startswith("drv_ref_"): continue
        c.functions += 1
        with c.guard(raw["name"]): refusal(c, raw["name"], raw, caches(off[raw["name"].replace("_ref_", "_off_")]))

def caches(fn):
    """the bytes of the caches of norm and occupations: a refused resize may forget what was cached (P15 judges them)"""
    out = set()
    for tag, vs, *_ in ir.summarise(fn).probes:
        a, b = (fn.resolve(v) for v in vs)
        if not (a.is_const() and b.is_const()): raise Undecided("place of the caches")
        out |= set(range(int(a.const()), int(a.const() + b.const())))
    return out

def refusal(c, name, raw, skip):
    out = [p for p in ow.Own(raw, allocfails=False).paths if p.how == "leaves by an exception"]
    w = where_in(raw, "DenseMatrix.h", "Dimension.h", "/Storage.h")
    if not out: c.undecided(name, "no path refuses"); return
    bad = {k[1] for p in out for k, v in p.mem.items() if k[0] == ("arg", 0) and v != ("init",) + k and k[1] not in skip}
    c.ob(name, not bad, "%d refusing paths change no field of the matrix" % len(out) if not bad else "a refused resize leaves the matrix with a changed field (bytes %s of the object)" % ", ".join(map(str, sorted(bad, key=str))), w)

def settled(D, p, block, order):
    """read fields of the result where they were last stored: calls into other objects are taken not to touch the matrix"""
    isb = is_ptr_atom(D.fn)
    def fa(a):
        if not isinstance(a, tuple): return P(a)
        if a[0] != "ld": return P(rebuild(a, lambda q: settled(D, q, block, order)))
        b, o = base_and_offset(a[1], isb); b = norm_base(b, isb)
        if b is None or b[0] != "obj" and b != ("arg", "C"): return P(a)
        es = [e for e in D.S.effects if e.base == b and e.addr == o and e.order < order]
        if not es:
            if b[0] == "obj": raise Undecided("field never written")
            return P(a)
        e = max(es, key=lambda e: e.order)
        if e.kind != "store" or e.loops or e.size != a[2] or not D.fn.dominates(e.block, block): raise Undecided("field written on some paths only")
        return e.value if isinstance(e.value, type(ONE)) else P(e.value)
    return map_atoms(p, fa)

def one(c, name, fn):
    t, op = re.match(r"drv_sh_(.+)_([a-z]+)$", name).groups()
    to, fr = t.split("_") if op == "conv" else (t, t)
    K, F = kind(to), kind(fr)
    D = Drv(fn, ["A", "B"])
    w = where_in(fn, "DenseMatrix.h", "SparseMatrix.h", "ZeroMatrix.h", "Dimension.h", "/Storage.h", "SparseStorage.h")
    names = lambda k: ["v%d" % i for i in range(len(FIELDS[k]))]
    def f(tag, i): return n("%s.v%d" % (tag, i))
    wf = {("n", tag + ".v2"): f(tag, 0) * f(tag, 1) for tag in D.probes}
    if F in ("dense", "blocked"): wf.update({("n", tag + ".v3"): f(tag, 0) * f(tag, 1) for tag in D.probes})
    at = {p[0]: p for p in D.S.probes}
    def eq(tag, i, want, msg):
        got = D.probe(tag, "v%d" % i)
        if op != "swap" and (K == "blocked" or to != fr):
            _, vs, b, o, _ = at[tag]
            got = settled(D, vs[i], b, o)
        got, want = subst(D.N(got), wf), subst(D.N(want), wf)
        check_eq(c, "%s:%s %s" % (name, tag, FIELDS[K][i]), got, want, msg + " " + FIELDS[K][i], w)
    def same(tag, src, msg):
        for i in range(len(FIELDS[K])): eq(tag, i, f(src, i), msg)
    def shape(r, cc, msg, tag="C", storage=True):
        eq(tag, 0, r, msg); eq(tag, 1, cc, msg); eq(tag, 2, r * cc, msg)
        if storage and K in ("dense", "blocked", "sub"): eq(tag, 3, r * cc, msg)
    r, cc = P(("arg", "r")), P(("arg", "c"))
    if op in ("copy", "assign", "selfassign", "move", "moveassign", "selfmove"):
        same("C", "A", {"copy": "a copy reports the source's", "assign": "an assigned matrix reports the source's", "selfassign": "self-assignment keeps the", "move": "a moved-to matrix reports the source's",
                        "moveassign": "a move-assigned matrix reports the source's", "selfmove": "self-move keeps the"}[op])
    elif op == "swap": same("C", "B", "swap exchanges"); same("E", "A", "swap exchanges")
    elif op == "default":
        for i in range(3): eq("C", i, ZERO, "a default matrix has no")
        if K == "dense": eq("C", 3, ZERO, "a default matrix has no")
    elif op in ("ctor", "external", "filled", "resize", "resizefilled", "ctorn", "resizen"):
        shape(r, cc, "the matrix reports the requested")
        if K == "sparse":
            k = P(("arg", "k"))
            eq("C", 3, mk_ite(cmp_int("eq", k, ZERO), r * cc, k) if op[-1] == "n" else r * cc, "the matrix has room for the requested")
            eq("C", 4, (r if to.startswith("r") else cc) + 1, "the matrix has one offset per line plus one:")
        if K == "sub":
            row = to.startswith("r")
            if F == "sub": eq("C", 4, f("A", 0), "a sub-matrix takes the parent's"); eq("C", 5, f("A", 1), "a sub-matrix takes the parent's")
        if K == "blocked": eq("C", 4, P(("arg", "p")), "the matrix reports the requested"); eq("C", 5, P(("arg", "q")), "the matrix reports the requested")
    elif op == "nested":
        shape(r, cc, "the matrix reports the requested")
        eq("C", 4, f("A", 4), "a nested sub-matrix takes its parent's"); eq("C", 5, f("A", 5), "a nested sub-matrix takes its parent's")
    elif op == "conv":
        shape(f("A", 0), f("A", 1), "a conversion reports the source's")
        if K == "sparse": eq("C", 4, f("A", 0 if to.endswith("r") else 1) + 1, "a conversion has one offset per line plus one: ")
    elif op == "sublist":
        shape(f("A", 0), f("A", 1), "the matrix reports the list's")
    else: raise Undecided("unknown operation " + op)

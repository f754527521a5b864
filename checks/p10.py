"""P10: conversion between representations keeps every element at its position."""
from vlib import *
from mat import *
from compact import Compact
from transp import transposition
import itertools, walk, cells

def kind(x): return x.rstrip("r")
def isrow(x): return x.endswith("r")
def esz(x): return 4 if "f" in x else 8
T = P(("arg", "t"))

def run(c):
    c.rules = ["the store effects of every conversion are summarised as polynomials over symbolic shapes, values and sparsity patterns and compared with: element (i,j) of the result is element (i,j) of the source (where the filter accepts it), zero elsewhere",
               "sparse results: the accepted elements of a line are appended in order, each with its own key, and the offsets count them",
               "sub-matrix sources: the iteration is shown by induction to visit the rectangle's elements in order", "no store reaches the source"]
    c.assumptions = ["sources are well-formed (P04, P13)", "distinct objects do not overlap", "machine arithmetic is read as exact real arithmetic (rounding to the target's element type is not modelled)",
                     "the number of elements a filter accepts is what getNbOfSignificantElements returns (P14, P15)"]
    c.floor = 300
    src = VERIF + "/drivers/convert.cpp"
    for mod in c.loads([((src,), {"defs": ["PART=%d" % p], "tag": "convert%d" % p}) for p in (1, 2, 3, 4)]):
        for name, fn in sorted(mod.items()):
            if not name.startswith("drv_"): continue
            with c.guard(name): (converter if name[4:6] in ("mc", "mm") else one)(c, name, fn)
            with c.guard(name + ":exact"): exact(c, name, fn)

def exact(c, name, fn):
    """values are narrowed only into a single-precision result, and never before the filter has seen them"""
    tgt = name.split("_")[3:] or name.split("_")[2:]
    narrow = any("f" in t for t in tgt); n_ = 0
    wide = "f" not in name.split("_")[2] and name[4] not in "x"
    def src(v, depth=4):
        I = fn.inst.get(v.get("v")) if isinstance(v, dict) else None
        if I is None or depth == 0: return None
        if I["op"] == "fptrunc" or (wide and I["op"] == "load" and I["ty"] == "float"): return I
        if I["op"] in ("fpext", "call", "fneg"):
            for o in I["ops"]:
                r = src(o, depth - 1)
                if r: return r
    for b in fn.live:
        for I in insts(fn, b):
            if I["op"] in ("fptosi", "fptoui"): c.viol(name + ":exact", "a value is truncated to an integer", inst_loc(I)); return
            if I["op"] == "fptrunc" and not narrow: c.viol(name + ":exact", "a value is narrowed to single precision although the result is not", inst_loc(I)); return
            if I["op"] == "fcmp" and any(src(o) for o in I["ops"]): c.viol(name + ":exact", "the filter is applied to a narrowed value", inst_loc(I)); return
            n_ += 1
    c.ok(name + ":exact", "%d instructions: no narrowing beyond the result's element type" % n_)

def accept(x, filtered): return cmp_fp("olt", T, x) if filtered else TRUE

def one(c, name, fn):
    parts = name.split("_"); op, a = parts[1], parts[2]
    if op == "tr": r = a
    else: r = parts[3]
    sub = op[0] == "x"; filt = op[1] == "f"
    facts = []
    if op == "cp": facts = [(("n", "C.r"), n("A.r")), (("n", "C.c"), n("A.c"))]
    D = Drv(fn, ["PA"] if sub else ["A", "C"] if op == "cp" else ["A"], facts, row=isrow(a))
    w = where_in(fn, "DenseMatrix.h", "SparseMatrix.h", "ZeroMatrix.h", "Transposition.h", "Copy.h")
    if D.refuses(): c.viol(name + ":returns", "the conversion never returns normally", w); return
    if sub: R, K = P(("arg", "m")), P(("arg", "n"))
    elif op == "tr": R, K = n("A.c"), n("A.r")
    else: R, K = n("A.r"), n("A.c")
    C = D.m("C")
    if op != "cp":
        with c.guard(name + ":shape"):
            check_eq(c, name + ":rows", D.N(C.r), R, "rows of the result", w)
            check_eq(c, name + ":cols", D.N(C.c), K, "columns of the result", w)
            check_eq(c, name + ":size", D.N(C.size), R * K, "size of the result", w)
            if C.kind == "dense": check_eq(c, name + ":length", D.N(C.f("ss")), R * K, "storage length of the result", w)
    operands_unchanged(c, name, D, (("A", "A2"),))
    if C.kind == "zero": return
    i, j = iv("i"), iv("j")
    # element (i,j) of the source
    if sub:
        ar, ac = P(("arg", "r")), P(("arg", "c"))
        eA = lambda i, j: el("PA.p", (i + ar) * n("PA.c") + j + ac) if isrow(a) else el("PA.p", i + ar + n("PA.r") * (j + ac))
    elif kind(a)[0] == "d":
        e0 = lambda i, j: el("A.p", i * n("A.c") + j) if isrow(a) else el("A.p", i + n("A.r") * j)
        eA = (lambda i, j: e0(j, i)) if op == "tr" else e0
    if sub and C.kind == "dense":
        row = isrow(a); ld = n("PA.c") if row else n("PA.r")
        off = ar * ld + ac if row else ac * ld + ar
        S, N = (K, R) if row else (R, K)
        pp = D.probes["PA"]["p"]; base = P(pp[0]) + pp[1]; es = int(D.probes["PA"]["esz"].const())
        for l in fn.loops:
            if fn.loops[l]["btc"]["k"] != "cnc": continue
            W = walk.Walk(D, l, base + es * off, ld, S, N, es)
            wl = where_in(fn, "StripedIterator.h") or w
            if W.status == "viol": c.viol(name + ":walk", W.msg, wl); return
            if W.status != "ok": c.undecided(name + ":walk", W.msg, wl); return
            c.ok(name + ":walk", "visits every element of the rectangle once, in order", wl)
            W.apply(D, l, S, N)
    if C.kind == "dense":
        at = (lambda i, j: i * K + j) if isrow(r) else (lambda i, j: i + R * j)
        if kind(a)[0] == "z": want = []
        elif kind(a)[0] == "s":
            p = lambda l: el("A.o", l) + iv("e")
            L = R if isrow(a) else K
            pos = at(i, el("A.k", p(i))) if isrow(a) else at(el("A.k", p(j)), j)
            v = i if isrow(a) else j
            x = el("A.v", p(v))
            want = spec([("i" if isrow(a) else "j", L), ("e", el("A.o", v + 1) - el("A.o", v))], pos, x, accept(x, filt))
        else: want = spec([("i", R), ("j", K)], at(i, j), eA(i, j), accept(eA(i, j), filt))
        dense_content(c, name + ":content", D, C.reg(), R * K, want, w)
        return
    # sparse result
    L, M = (R, K) if isrow(r) else (K, R)
    if kind(a)[0] == "d" or sub:
        val = (lambda l, e: eA(l, e)) if isrow(r) else (lambda l, e: eA(e, l))
        Cp = Compact(c, name, D, L, lambda l: M, val, lambda l, e: e, lambda l, e: accept(val(l, e), True), where=w)
        Cp.run(); count_source(c, name, D, w)
    elif op == "tr" or isrow(a) != isrow(r): transposed(c, name, D, L, w, op, filt)
    else:
        p = lambda l, e: el("A.o", l) + e
        facts = {("el", "A.o", ZERO): ZERO, ("el", "A.o", L): n("A.nnz")}
        Compact(c, name, D, L, lambda l: el("A.o", l + 1) - el("A.o", l), lambda l, e: el("A.v", p(l, e)), lambda l, e: el("A.k", p(l, e)),
                lambda l, e: accept(el("A.v", p(l, e)), filt), facts=facts, where=w).run()

def given(D, tag):
    """take the driver's precondition (its early return) as given"""
    g = D.Nd(D.probes[tag]["@guard"])
    pre = set(next(iter(g))) if len(g) == 1 else set()
    Nd = D.Nd
    D.Nd = lambda g: frozenset(frozenset(c - pre) for c in Nd(g))

def converter(c, name, fn):
    """the converter's functors: double parts above the single-precision significance threshold, single-precision parts between the two thresholds"""
    parts = name.split("_"); a = parts[2]; tgt = parts[3:]
    D = Drv(fn, ["A"], heap=True); given(D, "t")
    lo, hi = D.probe("t", "v0"), D.probe("t", "v1")
    w = where_in(fn, "MatrixConverter.h")
    x_above = lambda x: cmp_fp("olt", hi, P(("fabs", x)))
    x_within = lambda x: dnf_and(cmp_fp("olt", lo, P(("fabs", x))), cmp_fp("ole", P(("fabs", x)), hi))
    R, K = n("A.r"), n("A.c"); i, j = iv("i"), iv("j")
    for tag, t in zip(("C", "E"), tgt):
        C = D.m(tag)
        check_eq(c, name + ":%s rows" % tag, D.N(C.r), R, "rows of the result", w)
        check_eq(c, name + ":%s cols" % tag, D.N(C.c), K, "columns of the result", w)
        if C.kind == "zero": continue
        multi = len(tgt) == 2
        want = TRUE if t[0] == "d" and not multi else None
        f = (lambda x: TRUE) if want is not None else x_above if tag == "C" and t.endswith("d") else x_within
        eA = lambda i, j: el("A.p", i + R * j)
        if C.kind == "dense": dense_content(c, name + ":%s content" % tag, D, C.reg(), R * K, spec([("i", R), ("j", K)], i + R * j, eA(i, j), f(eA(i, j))), w)
        else:
            Compact(c, name + ":" + tag, D, K, lambda l: R, lambda l, e: eA(e, l), lambda l, e: e, lambda l, e: f(eA(e, l)), where=w, out=tag).run()
            cs = [x for x in D.S.calls if x.callee == ("vp_count" if f is x_above else "vp_count2")]
            args = [D.N(y) for y in cs[0].args] if len(cs) == 1 else None
            ok = args is not None and args == [P(("arg", "A"))] + ([hi] if f is x_above else [lo, hi])
            (c.ob(name + ":%s count" % tag, ok, "the storage is sized by counting the source with the same filter", w) if args else c.undecided(name + ":%s count" % tag, "%d counting calls" % len(cs), w))
    operands_unchanged(c, name, D, (("A", "A2"),))

def count_source(c, name, D, w):
    """the storage is sized by counting the same source with the same filter"""
    cs = [x for x in D.S.calls if x.callee.startswith("vp_count")]
    if len(cs) != 1: c.undecided(name + ":count", "%d counting calls" % len(cs), w); return
    args = cs[0].args
    sub = "PA" in D.kinds
    a0 = D.N(args[0]).single()
    ok = (a0 is not None and (a0[0] == "obj" if sub else a0 == ("arg", "A"))) and D.N(args[1]) == T
    c.ob(name + ":count", ok, "the storage is sized by counting the source with the given filter (counted: %s with %s)" % (show(D.N(args[0])), show(D.N(args[1]))), w)

def outside(D, reg, size):
    """a store which leaves the buffer for a small shape"""
    try:
        r = D.regions[reg]
        for e in D.effects_on(reg):
            if e.kind != "store" or e.size != r.esize: continue
            loops = [(v, D.N(x)) for v, x in e.loops]
            addr = D.N(e.addr); addr = Poly({m: q / r.esize for m, q in addr.t.items()})
            g = D.discharge(D.Nd(e.guard), loops)
            if g != TRUE: continue
            x = cells.Store(loops, addr, ZERO, g, inst_loc(e.I))
            syms = sorted(cells.symbols([x, cells.Store([], size, ZERO)]), key=repr)
            if len(syms) > 4: continue
            for xs in sorted(itertools.product((0, 1, 2, 3), repeat=len(syms)), key=sum):
                env = {a: P(v) for a, v in zip(syms, xs)}
                n = cells.number(size, env)
                got = [a for a in cells.fill([x], env, False) if not 0 <= a < n]
                if got: return "for %s element %s of %s is written" % (", ".join("%s=%s" % (show(P(a)), v) for a, v in zip(syms, xs)), got[0], n), x.where
    except Undecided: return None
    return None

def dense_content(c, key, D, reg, size, want, w):
    with c.guard(key):
        try: base, got = D.content(reg, D.N(size))
        except Undecided:
            bad = outside(D, reg, D.N(size))
            if bad: c.viol(key, bad[0], bad[1] or w); return
            raise
        if base == "old":
            c.viol(key, "not every element is assigned: " + (explain([("assigns only", x) for x in got]) or "no assignment"), w); return
        d = compare(got, want)
        if not d: c.ok(key, "content = " + ("; ".join(x.show() for x in want[:2]) or "0"), w); return
        op = {o for x in d for pp in x[1].polys() for o in opaque_in(pp)} | {o for x in d for a in dnf_atoms(x[1].guard) if isinstance(a, tuple) for o in opaque_in(P(a))}
        (c.undecided if op else c.viol)(key, "content differs from the specification: " + explain(d), d[0][1].where or w)

def transposed(c, name, D, L, w, op, filt):
    """through the counting transposition; a conversion appends what it produced"""
    La = n("A.c") if not isrow(name.split("_")[2]) else n("A.r")
    O, V, K = transposition(c, name, D, L, La, w)
    if op == "tr":
        for r, x in (("o", O), ("v", V), ("k", K)): c.ob(name + ":result " + r, x == "C." + r, "the result holds the distributed %s" % {"o": "offsets", "v": "values", "k": "keys"}[r], w)
        for f, want in (("so", L + 1), ("nnz", n("A.nnz")), ("nk", n("A.nnz"))):
            check_eq(c, name + ":" + f, D.probe("C", f), D.N(want), {"so": "number of offsets", "nnz": "number of values", "nk": "number of keys"}[f], w)
        return
    p = lambda l, e: el(O, l) + e
    facts = {("el", O, ZERO): ZERO, ("el", O, L): n("A.nnz")}
    Compact(c, name, D, L, lambda l: el(O, l + 1) - el(O, l), lambda l, e: el(V, p(l, e)), lambda l, e: el(K, p(l, e)),
            lambda l, e: accept(el(V, p(l, e)), filt), facts=facts, where=w).run()

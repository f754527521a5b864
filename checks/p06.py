"""P06: sums and differences are element-wise, for every pair of representations, both orientations."""
from vlib import *
from mat import *
from merge import Merge

NM = {"dd": "dense double", "df": "dense float", "sd": "sparse double", "sf": "sparse float", "zz": "zero"}

def terms(D, t, sign, row):
    """contributions of matrix t, in storage order of a dense result with t's shape"""
    m = D.m(t); N, L = D.lineN(t)
    if m.kind == "dense": return spec([("p", N * L)], iv("p"), sign * el(m.reg(), iv("p")))
    if m.kind == "sparse":
        o, k, v = m.reg("o"), m.reg("k"), m.reg("v")
        b = el(o, iv("l"))
        j = b + iv("j")
        return spec([("l", N), ("j", el(o, iv("l") + 1) - b)], el(k, j) + L * iv("l"), sign * el(v, j))
    return []

def run(c):
    c.rules = ["for A+B, A-B, A+=B, A-=B over every pair of representations the store effects of the compiled operation on the result's storage are summarised as polynomials over symbolic shapes, values and sparsity patterns and compared with the element-wise definition",
               "the result's shape fields equal the operands' shape", "no store reaches an operand's storage and the operands' fields are unchanged", "combinations that are not implemented have no normally returning path"]
    c.assumptions = ["operands have equal shape and are well-formed (P04, P13)", "distinct objects do not overlap", "machine arithmetic is read as exact real arithmetic (reassociation is not distinguished)"]
    c.floor = 300
    mods = c.loads([((VERIF + "/drivers/sums.cpp",), {"defs": ["PART%d" % p], "tag": "sums%d" % p}) for p in (1, 2, 3, 4)])
    for mod in mods:
        for name, fn in sorted(mod.items()):
            if not name.startswith("drv_"): continue
            _, op, a, b = name.split("_")
            one(c, name, fn, op, a, b)

def one(c, name, fn, op, a, b):
    row = a.startswith("r")
    D = None
    with c.guard(name):
        D = Drv(fn, ["A", "B"], same_shape("A", "B"), row=row)
    if D is None: return
    if op in ("ads", "sus"):
        kinds = (a.strip("r"), b.strip("r"))
        if D.refuses():
            # only the documented combinations may refuse
            may = kinds[0][0] == "s" and kinds[1][0] in "sd" or kinds[0] == "zz"
            c.ob(name + ":refuses", may, "the operation never returns normally"); return
    elif D.refuses():
        c.viol(name + ":refuses", "the operation never returns normally"); return
    if "C" not in D.kinds: c.undecided(name, "no result observed"); return
    C = D.m("C")
    sgn = 1 if op in ("add", "ads") else -1
    with c.guard(name + ":rows"): check_eq(c, name + ":rows", C.r, n("A.r"), "rows of the result")
    with c.guard(name + ":cols"): check_eq(c, name + ":cols", C.c, n("A.c"), "columns of the result")
    with c.guard(name + ":size"): check_eq(c, name + ":size", C.size, n("A.r") * n("A.c"), "size of the result")
    operands_unchanged(c, name, D, (("A", "A2"), ("B", "B2")) if op in ("add", "sub") else (("B", "B2"),))
    if C.kind == "dense":
        want = spec([], ZERO, ZERO)
        if op in ("add", "sub"):
            want = terms(D, "A", 1, row) + terms(D, "B", sgn, row)
            check_content(c, name + ":content", D, C.reg(), C.size, want)
        else:
            want = terms(D, "B", sgn, row)
            check_incr(c, name + ":content", D, C, want)
    elif C.kind == "sparse":
        sparse_result(c, name, D, op, sgn, row)
    elif C.kind == "zero":
        c.ob(name + ":content", a.strip("r") == "zz" and (op in ("ads", "sus") or b.strip("r") == "zz"), "zero result only for zero operands")

def check_incr(c, key, D, C, want):
    check_content(c, key, D, C.reg(), C.size, want, base_want="old")

def sparse_result(c, name, D, op, sgn, row):
    ka, kb = D.kinds.get("A"), D.kinds.get("B")
    C = D.m("C")
    if ka == "sparse" and kb == "sparse" and op in ("add", "sub"):
        with c.guard(name + ":merge"): Merge(c, name, D, sgn).run()
        return
    # one operand is zero: the other one, negated where it is subtracted
    src, sg = ("A", 1) if ka == "sparse" else ("B", sgn)
    S = D.m(src)
    with c.guard(name + ":nnz"): check_eq(c, name + ":nnz", D.probe("C", "nnz"), n(src + ".nnz"), "number of elements")
    with c.guard(name + ":nk"): check_eq(c, name + ":nk", D.probe("C", "nk"), n(src + ".nnz"), "number of keys")
    with c.guard(name + ":so"): check_eq(c, name + ":so", D.probe("C", "so"), D.lineN("A")[0] + 1, "number of offsets")
    for f, sz, s_ in (("v", n(src + ".nnz"), sg), ("k", n(src + ".nnz"), 1), ("o", D.lineN("A")[0] + 1, 1)):
        if op in ("ads", "sus"):
            with c.guard(name + ":" + f):
                ef = D.effects_on("C." + f)
                c.ob(name + ":" + f, not ef, "adding zero stores nothing")
        else: check_content(c, name + ":" + f, D, "C." + f, sz, spec([("e", sz)], iv("e"), s_ * el(src + "." + f, iv("e"))))

"""P07: a multiple matrix stands for the sum of its halves in every operation."""
from vlib import *
from mat import *
import algebra, p06
from algebra import Alg, same, operation

DRV = VERIF + "/drivers/algebra.cpp"
FILES = ("BinaryFunctors.h", "MatrixMultExp.h", "Multiplication.h", "Norm.h", "DynamicMatrixFunctions.h", "DenseMatrix.h", "MultipleMatrix.h")
MULT = ("ms", "md")

def run(c):
    c.rules = ["every elementary operation of two plain matrices is replaced by one that adds up formal values; what A+B, A-B, A+=B, A-=B, A*B, the norms and the conversions make of a multiple matrix is then a formal sum, which has to be the one obtained from the sum of the halves, for every pair of kinds with at least one multiple matrix, statically and through the dynamic functors",
               "the shapes handed on are the operands' shapes and the operands keep their values", "with the real element-wise operations the content of conversions, sums and differences is the element-wise sum over both halves",
               "a multiple matrix takes its halves over only on paths on which their shapes agree, and keeps what it had on the paths which refuse"]
    c.assumptions = ["the elementary operations of plain matrices are right (P06, P08, P10, P14)", "both halves are set", "the operands have equal shapes (P06), the halves of one multiple matrix too"]
    c.floor = 500
    jobs = [((DRV,), {"tag": "alg-" + p, "defs": ["PART" + p], "flags": algebra.FLAGS + (["-DBLASBOOSTER_CORE_FAILURE_TO_EXCEPTION"] if p == "BUILD" else [])}) for p in ("SUMS", "ASSIGN", "MUL", "ONE", "BUILD")]
    jobs += [((DRV,), {"tag": "dyn-" + k, "defs": ["PARTDYN", "DA=" + k, "DTA=" + t], "flags": algebra.FLAGS}) for k, t in sorted(algebra.DT.items())]
    jobs += [((VERIF + "/drivers/multiple.cpp",), {"tag": "multiple", "flags": ["-fno-access-control"]})]
    for mod in c.loads(jobs):
        for name, fn in sorted(mod.items()):
            if not name.startswith("drv_"): continue
            p = name.split("_")
            if c_real(name): real(c, name, fn)
            elif p[1] in ("ctor", "reset"): building(c, name, fn)
            elif p[1] in ("norm1", "norm2", "normx", "conv", "shape"): single(c, name, fn, p)
            elif p[2] in MULT or p[3] in MULT: operation(c, name, fn, FILES)

def c_real(name):
    """drivers of multiple.cpp name both halves"""
    p = name.split("_")
    return p[1] == "conv" and len(p) == 5 or any(len(x) == 5 and x[0] == "m" for x in p[2:])

def single(c, name, fn, p):
    w = where_in(fn, *FILES)
    with c.guard(name):
        D = Alg(fn); A = D.field("A", 0) + D.field("A", 1); one = D.field("A", 2)
        env = {D.field("A", 3).single(): one}
        if p[1] == "shape":
            if "s" not in D.probes: c.viol(name, "never returns normally", w); return
            for k, what in enumerate(("getNbRows", "getNbColumns", "getSize")):
                own = [D.arg(x, 8 * (k + 1)) for x in ("A1", "A2")]
                if k == 2: own += [subst(x, {}) for x in (D.arg("A1", 8) * D.arg("A1", 16), D.arg("A2", 8) * D.arg("A2", 16))]
                got = D.field("s", k)
                if got in own: c.ok(name + ":" + what, "%s is a half's" % what, w)
                else: same(c, name + ":" + what, got, own[0], what, w)
            for k in (3, 4): same(c, name + ":half%d" % k, D.field("s", k), ONE, "getMatrix%d is the half given" % (k - 2), w)
            return
        tag = "n" if p[1] != "conv" else "C"
        if tag not in D.probes: c.viol(name, "never returns normally", w); return
        if tag == "n":
            k = {"norm1": 1, "norm2": 2, "normx": 3}[p[1]]
            same(c, name + ":norm", D.field("n", 0), P(("norm", P(k), A)), algebra.OPS[p[1]] + " of " + algebra.NM[p[2]], w)
        else:
            same(c, name + ":value", D.field("C", 0), A, "conversion of " + algebra.NM[p[2]], w)
            same(c, name + ":shape", subst(D.field("C", 2), env), one, "shape of the conversion", w)
        same(c, name + ":kept", D.field("A2", 0) + D.field("A2", 1), A, "the operand afterwards", w)

def equal_shapes(D, fn, g):
    """does the path condition include that rows and columns of the halves agree?"""
    need = [cmp_int("eq", D.arg("A1", o), D.arg("A2", o)) for o in (8, 16)]
    return all(any(all(l in cl for l in d) for d in q) for cl in g for q in need)

def building(c, name, fn):
    w = where_in(fn, "MultipleMatrix.h")
    with c.guard(name):
        D = Alg(fn)
        if "m" not in D.probes: c.viol(name, "halves of equal shape are refused", w); return
        g = fn.strict_guard(D.probes["m"][1])
        unknown = {a for a in dnf_atoms(g) if isinstance(a, tuple) and a[0] not in ("eq", "lt", "slt", "ult")}
        if equal_shapes(D, fn, g): c.ok(name + ":refused", "reached only if the halves' rows and columns agree", w)
        elif unknown: c.undecided(name + ":refused", "the condition under which the halves are taken is not understood", w)
        else: c.viol(name + ":refused", "halves of different shape are accepted", w)
        for k in (0, 1):
            v = D.field("m", k)
            if v == ONE: c.ok(name + ":half%d" % (k + 1), "the half taken is the one given", w)
            elif v == ZERO: c.viol(name + ":half%d" % (k + 1), "half %d is not the one given" % (k + 1), w)
            elif name.split("_")[1] == "ctor": c.undecided(name + ":half%d" % (k + 1), "which half is taken is not understood", w)
        if name.split("_")[1] != "reset": return
        blk = {i["id"]: b for b in fn.live for i in fn.blocks[b]["insts"]}
        go = D.probes["go"][2]
        es = [e for e in D.S.effects if e.base == ("arg", "M") and e.order > go]
        for e in es:
            ge = fn.strict_guard(blk[e.I["id"]])
            key = name + ":kept %s" % e.addr
            if equal_shapes(D, fn, ge): c.ok(key, "changed only once the halves' shapes are known to agree", inst_loc(e.I))
            elif D.fn is fn and not {a for a in dnf_atoms(ge) if isinstance(a, tuple) and a[0] not in ("eq", "lt", "slt", "ult")}: c.viol(key, "the matrix is changed before halves of different shape are refused", inst_loc(e.I))
            else: c.undecided(key, "when the matrix is changed is not understood", inst_loc(e.I))
        got = [e for e in es if e.kind == "store" and e.value in (P(("arg", "A1")), P(("arg", "A2")))]
        for x in ("A1", "A2"):
            n_ = [e for e in got if e.value == P(("arg", x))]
            if n_: c.ok(name + ":takes " + x, "the new half is taken", w)
            else: c.undecided(name + ":takes " + x, "no plain store of the new half", w)

def real(c, name, fn):
    """real element-wise operations on both halves"""
    p = name.split("_"); op = p[1]; w = where_in(fn, *FILES)
    first = len(p[2]) == 5 and p[2][0] == "m"
    with c.guard(name):
        ins = ["A", "B"] + ([] if op == "conv" else ["E"])
        D = Drv(fn, ins, same_shape("A", "B") + (same_shape("A", "E") if "E" in ins else []))
        if D.refuses() or "C" not in D.kinds: c.viol(name + ":result", "never returns normally", w); return
        C = D.m("C")
        check_eq(c, name + ":rows", C.r, n("A.r"), "rows", w); check_eq(c, name + ":cols", C.c, n("A.c"), "columns", w)
        sg = -1 if op in ("sub", "sus") else 1; h = sg if op != "conv" and not first else 1
        want = p06.terms(D, "A", h, False) + p06.terms(D, "B", h, False)
        if op in ("add", "sub"): want += p06.terms(D, "E", sg if first else 1, False)
        operands_unchanged(c, name, D, (("A", "A2"), ("B", "B2")) + ((("E", "E2"),) if op in ("add", "sub") else ()))
        if C.kind == "dense": check_content(c, name + ":content", D, C.reg(), C.size, want, w, base_want="old" if op in ("ads", "sus") else None)
        else: c.undecided(name + ":content", "the result is not dense")

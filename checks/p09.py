"""P09: a product expression multiplies its operands in the written order with the chosen method."""
from vlib import *
from mat import *
import algebra, p02, p08
from algebra import Alg, same, operation

FILES = ("MatrixMultExp.h", "Multiplication_TheBestPolicy.h", "Multiplication_Native.h", "Multiplication.h", "DenseMatrix.h", "SparseMatrix.h", "DynamicMatrixFunctions.h", "BinaryFunctors.h")
BEST = ["IFACE=TheBestPolicy", "VP_OWNS"]


def run(c):
    c.rules = ["with every product of two plain matrices replaced by one that records its formal operands, what (A*B).execute<Method>() returns for every pair of matrix kinds is the formal sum of the products of the operands' parts in the written order, of the shape of the product; statically, through the dynamic functor, and for chains",
               "the automatic method's result is, element by element, sum over k of A(i,k)*B(k,j) for the same type combinations as the native method; where a back end is configured it is told the operands' true shapes and data",
               "evaluating an expression, or constructing a matrix from one, gives element by element that product and leaves the operands unchanged"]
    c.assumptions = ["the elementary products are right (P08, P02)", "the dynamic dispatch reaches the functor for the operands' types (P16)", "inner dimensions agree", "with Intel MKL the automatic method multiplies mixed float and double operands in single precision by design"]
    c.floor = 500
    src = VERIF + "/drivers/products.cpp"; alg = VERIF + "/drivers/algebra.cpp"; be = VERIF + "/drivers/backends.cpp"
    jobs = [((alg,), {"tag": "alg-MUL", "defs": ["PARTMUL"], "flags": algebra.FLAGS}), ((alg,), {"tag": "alg-CHAIN", "defs": ["PARTCHAIN"], "flags": algebra.FLAGS})]
    jobs += [((alg,), {"tag": "dyn-" + k, "defs": ["PARTDYN", "DA=" + k, "DTA=" + t], "flags": algebra.FLAGS}) for k, t in sorted(algebra.DT.items())]
    na = len(jobs)
    jobs += [((src,), {"tag": "best%d" % p, "defs": BEST + ["PART%d" % p], "flags": ["-fno-access-control"]}) for p in (1, 2, 3, 4, 6)]
    jobs += [((src,), {"tag": "native6", "defs": ["VP_OWNS", "PART6"], "flags": ["-fno-access-control"]})]
    npr = len(jobs)
    jobs += [((be,), {"tag": "best-" + b, "defs": [b, "BEST", w], "inc": [VERIF + "/stubs/backends"], "opts": ["--opaque=MatrixI.*SparseE.*C[12]I.*Sparse"] if b == "INTELMKL" else []}) for b, w in (("OPENBLAS", "WITH_OPENBLAS"), ("INTELMKL", "WITH_INTELMKL"))]
    mods = c.loads(jobs)
    for k, mod in enumerate(mods):
        for name, fn in sorted(mod.items()):
            if not name.startswith("drv_"): continue
            p = name.split("_")
            if k < na:
                if p[1] in ("mul", "dynmul"): operation(c, name, fn, FILES)
                elif p[1] == "chain": chain(c, name, fn)
            elif k < npr:
                with c.guard(name): p08.one(c, name, fn)
            else:
                b = ("OpenBLAS", "IntelMKL")[k - npr]
                if "row" in p or p[1] == "csrmul" or p[1] == "csrmm" and p[2] == "f": continue
                with c.guard("best:%s:%s" % (b, name[4:])):
                    if p[1] == "gemm" and p[2] in ("fd", "df") and b == "IntelMKL": mixed(c, "best:%s:%s" % (b, name[4:]), name, fn)
                    elif p[1] == "gemm" and p[2] in ("fd", "df"): native(c, name, fn)
                    else: p02.one(c, b, name, fn)

def chain(c, name, fn):
    side, *ks = name.split("_")[2:]; w = where_in(fn, *FILES)
    with c.guard(name):
        D = Alg(fn)
        parts = [[D.field(t, 0), D.field(t, 1)][:algebra.halves(k)] for t, k in zip("ABE", ks)]
        if "C" not in D.probes: c.viol(name + ":value", "the chain never returns normally", w); return
        t = lambda x, y: P(("times", x, y))
        want = ZERO
        def mul(X, Y): return [t(x, y) for x in X for y in Y]
        # the inner result is one plain matrix when its partial products add up to one, a multiple matrix of two parts otherwise
        got = D.field("C", 0) + D.field("C", 1)
        same(c, name + ":value", expand(got), sum_(mul(mul(*parts[:2]), parts[2]) if side == "l" else mul(parts[0], mul(*parts[1:]))), "%s for %s" % ("(A * B) * E" if side == "l" else "A * (B * E)", ", ".join(algebra.NM[k] for k in ks)), w)
        for tag, x in zip("ABE", "ABE"):
            for k in (0, 1): same(c, name + ":%s%d" % (x, k), D.field(tag + "2", k), D.field(tag, k), "the operand afterwards", w)

def sum_(xs):
    r = ZERO
    for x in xs: r = r + x
    return r

def expand(p):
    """products of sums as sums of products"""
    def fa(a):
        if isinstance(a, tuple) and a[0] == "times":
            x, y = expand(a[1]), expand(a[2])
            r = ZERO
            for m, k in x.t.items():
                for q, l in y.t.items(): r = r + P(("times", Poly({m: 1}), Poly({q: 1}))) * (k * l)
            return r
        return P(a)
    return map_atoms(p, fa)

def mixed(c, key, name, fn):
    """operands of different precision: one of them is handed over in the other's precision"""
    w = where_in(fn, "Multiplication_")
    D = Drv(fn, ["A", "B", "C0"], [(("n", "B.r"), n("A.c"))])
    calls = [p for p in D.S.probes if p[0] == "gemm"]
    if len(calls) != 1: c.undecided(key + ":calls", "%d back-end calls" % len(calls)); return
    p = calls[0]; v = dict(zip(p02.GEMM, p[1])); R, K, L = n("A.r"), n("A.c"), n("B.c")
    rets = [b for b in fn.live if fn.term(b)["op"] == "ret"]
    c.ob(key + ":calls", all(fn.dominates(p[2], b) for b in rets) and bool(rets), "one back-end call on every path to the end", w)
    C = D.m("C")
    for k, got, want in (("rows", C.r, R), ("cols", C.c, L), ("length", C.f("ss"), R * L)):
        with c.guard(key + ":" + k): check_eq(c, key + ":" + k, got, want, k + " of the result", w)
    for t in ("ta", "tb"): p02.check_flag(c, key + ":" + t, v[t], w)
    for f, x in (("M", R), ("N", L), ("K", K), ("lda", R), ("ldb", K), ("ldc", R), ("alpha", ONE), ("beta", ZERO)):
        with c.guard(key + ":" + f): p02.eqv(c, key + ":" + f, D, v[f], x, f, w)
    es = P(v["esz"])
    if not es.is_const(): c.undecided(key + ":data", "the routine's precision is not understood"); return
    es = int(es.const()); raw = {x[0]: x[1] for x in D.S.probes}; isb = is_ptr_atom(fn)
    def buf(ptr, size):
        b, off = base_and_offset(D.N(P(ptr)), isb); b = norm_base(b, isb)
        if b is None or not off.is_zero(): raise Undecided("which buffer is meant is not understood")
        if b not in D.names:
            D.names[b] = "Q%d" % len(D.names); D.regions[D.names[b]] = Region(D.names[b], b, size)
        return D.regions[D.names[b]]
    for f, t, size in (("a", "A", R * K), ("b", "B", K * L)):
        with c.guard(key + ":" + f):
            if fn.resolve(P(v[f])) == fn.resolve(P(raw[t][5])):
                c.ob(key + ":" + f, P(raw[t][0]) == P(es), "%s's own data in the routine's precision" % t, w); continue
            r = buf(v[f], es)
            if r.esize != es: c.viol(key + ":" + f, "data of %d bytes an element for a routine of %d" % (r.esize, es), w); continue
            base, got = D.content(r.name, size, before=p[3])
            d = compare(got, spec([("i", size)], iv("i"), el(t + ".v" if t + ".v" in D.regions else t + ".p", iv("i"))))
            if base == "old": c.undecided(key + ":" + f, "what is handed over is not filled")
            elif d: p08.report_content(c, key + ":" + f, d, w)
            else: c.ok(key + ":" + f, "%s's elements in the other precision" % t, w)
    with c.guard(key + ":c"):
        if fn.resolve(P(v["c"])) == fn.resolve(P(raw["C"][5])): c.ob(key + ":c", P(raw["C"][0]) == P(es), "written to the result itself", w)
        else:
            r = buf(v["c"], es)
            base, got = D.content(C.reg(), R * L, after=p[3], follow=False)
            d = compare(got, spec([("i", R * L)], iv("i"), el(r.name, iv("i"))))
            if base == "old": c.viol(key + ":c", "the back end's result is not taken over", w)
            elif d: p08.report_content(c, key + ":c", d, w)
            else: c.ok(key + ":c", "the back end's result is taken over element by element", w)
    operands_unchanged(c, key, D, (("A", "A2"), ("B", "B2")))

def native(c, name, fn):
    """no back end for this pair of types: the native product"""
    p08.one(c, "drv_mul_" + {"fd": "df_dd_dd", "df": "dd_df_dd"}[name.split("_")[2]], fn)

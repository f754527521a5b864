"""P02: back ends are told the operands' true shapes, strides, coefficients and data."""
from vlib import *
from mat import *

GEMM = ["ta", "tb", "M", "N", "K", "alpha", "a", "lda", "b", "ldb", "beta", "c", "ldc", "esz"]
MUL = ["what", "esC", "c", "rC", "cC", "ldC", "esA", "a", "rA", "cA", "ldA", "esB", "b", "rB", "cB", "ldB"]
CSR = ["ta", "M", "N", "K", "alpha", "d0", "d3", "v", "key", "ob", "oe", "b", "ldb", "beta", "c", "ldc"]
BACK = {"OPENBLAS": "OpenBLAS", "INTELMKL": "IntelMKL", "EIGEN": "Eigen", "BLAZE": "Blaze"}
SZ = {"d": 8, "f": 4}

def wide(p):
    """an int read from (the low half of) a size is that size"""
    if not isinstance(p, Poly): return p
    return map_atoms(p, lambda a: P(("ld", a[1], 8)) if isinstance(a, tuple) and a[0] == "ld" and len(a) > 2 and a[2] == 4 else P(a))

def run(c):
    c.rules = ["the values the back end's entry point receives (pointer arguments are followed to the value they point at) equal, as polynomials over the operands' symbolic shapes: N, N, rows(A), columns(B), columns(A), 1, data(A), ld(A), data(B), ld(B), 0, data(C), ld(C), with C resized to rows(A) x columns(B) before",
               "exactly one back-end product is made on every path", "a sub-matrix operand is refused at compile time or passed with its parent's leading dimension",
               "sparse products: general, one-based compressed rows of A"]
    c.assumptions = ["inner dimensions agree", "sizes fit the back end's int", "Eigen and Blaze compute the products of the maps they are given (recording stand-ins take their place)"]
    c.floor = 150
    src = VERIF + "/drivers/backends.cpp"
    inc = [VERIF + "/stubs/backends"]
    mods = c.loads([((src,), {"defs": [b], "tag": b, "inc": inc, "opts": ["--opaque=MatrixI.*SparseE.*C[12]I.*Sparse"] if b == "INTELMKL" else []}) for b in BACK])
    for b, mod in zip(BACK, mods):
        for name, fn in sorted(mod.items()):
            if name.startswith("drv_"):
                with c.guard(b.lower() + ":" + name[4:]): one(c, BACK[b], name, fn)
    def sub(b):
        try: return c.load(src, defs=[b, "SUBS"], tag=b + "-sub", inc=inc)
        except Broken as e: return str(e)
    with cf.ThreadPoolExecutor(4) as ex: subs = dict(zip(BACK, ex.map(sub, BACK)))
    for b, mod in subs.items():
        key = "%s:sub" % b.lower()
        if isinstance(mod, str): c.ok(key, "a product of sub-matrices does not compile: " + (re.findall(r"error: (.*)", mod) or [""])[0][:120]); continue
        for name, fn in sorted(mod.items()):
            if name.startswith("drv_sub"):
                with c.guard(b.lower() + ":" + name[4:]): submat(c, BACK[b], name, fn)

def fields(D, names, tag, c, key):
    ps = [p for p in D.S.probes if p[0] == tag]
    if len(ps) != 1: return None
    if D.S and any(len(x) for x in [D.S.calls and [] or []]): pass
    return dict(zip(names, ps[0][1])), ps[0]

def eqv(c, key, D, got, want, what, where):
    got = D.N(wide(got)) if isinstance(got, Poly) else got
    check_eq(c, key, got, D.N(P(want)), what, where)

def one(c, back, name, fn):
    _, op, *ns = name.split("_")
    if op == "csrmul": csrmul(c, back.lower() + ":" + name[4:], fn, where_in(fn, "Multiplication_")); return
    row = ns[0] == "row"; ts = ns[-1]
    where = where_in(fn, "Multiplication_")
    key = back.lower() + ":" + name[4:]
    D = Drv(fn, ["A", "B", "C0"], [(("n", "B.r"), n("A.c"))])
    tag = {"gemm": "mul" if back in ("Eigen", "Blaze") else "gemm", "csrmm": "csrmm"}[op]
    names = {"gemm": GEMM, "mul": MUL, "csrmm": CSR}[tag]
    calls = [p for p in D.S.probes if p[0] == tag]
    if len(calls) != 1:
        c.viol(key + ":calls", "%d back-end calls" % len(calls), where) if len(calls) == 0 else c.undecided(key + ":calls", "several back-end calls")
        return
    p = calls[0]
    rets = [b for b in fn.live if fn.term(b)["op"] == "ret"]
    c.ob(key + ":calls", all(fn.dominates(p[2], b) for b in rets) and bool(rets), "one back-end call on every path to the end", where)
    v = dict(zip(names, p[1]))
    raw = {x[0]: x[1] for x in D.S.probes}
    same = lambda x, y: (P(x) == P(y)) if not isinstance(x, str) else x == y
    def ptr(k, got, tagm, what):
        want = raw[tagm][5]
        got, want = fn.resolve(P(got)), fn.resolve(P(want))
        if got == want: c.ok(k, what, where)
        elif tagm == "C":
            g2 = P(raw["C0"][5])
            if got == fn.resolve(g2): c.viol(k, "the result's data is taken before the result is resized", where)
            elif {a[0] for a in got.atoms() if isinstance(a, tuple)} <= {"ld", "arg"} and not got.single() is None and got in (fn.resolve(P(raw[t][5])) for t in ("A", "B") if len(raw[t]) == 6): c.viol(k, "%s: instead %s" % (what, show(got)), where)
            else: c.undecided(k, "%s: %s or %s" % (what, show(got)[:100], show(want)[:100]))
        else: check_eq(c, k, got, want, what, where)
    R, K, L = n("A.r"), n("A.c"), n("B.c")
    C = D.m("C")
    if op == "gemm":
        with c.guard(key + ":shape"): check_eq(c, key + ":shape", C.r, R, "the result is given rows(A) rows", where); check_eq(c, key + ":shape2", C.c, L, "the result is given columns(B) columns", where); check_eq(c, key + ":length", C.f("ss"), R * L, "the result's storage has the product's length", where)
    ez = [SZ[x] for x in (ts if len(ts) == 2 else ts * 2)]; ezC = max(ez)
    if row: rowmajor(c, key, D, v, raw, tag, (R, K, L), ez, where); operands_unchanged(c, key, D, (("A", "A2"), ("B", "B2"))); return
    if tag in ("gemm", "csrmm"):
        if op == "csrmm":
            # the result is resized before the call: the call sees the shape C has there
            for t in ("ta",): c.ob(key + ":" + t, v[t] in (P(78), P(110)), "%s is 'N'" % t, where)
            c.ob(key + ":desc", v["d0"] in (P(71), P(103)) and v["d3"] in (P(70), P(102)), "A is described as general and one-based", where)
        else:
            for t in ("ta", "tb"): check_flag(c, key + ":" + t, v[t], where)
        eqv(c, key + ":M", D, v["M"], R, "M is rows(A)", where)
        eqv(c, key + ":N", D, v["N"], L, "N is columns(B)", where)
        eqv(c, key + ":K", D, v["K"], K, "K is the inner dimension", where)
        check_eq(c, key + ":alpha", v["alpha"], P(1), "alpha is 1", where)
        check_eq(c, key + ":beta", v["beta"], P(0), "beta is 0", where)
        if op == "gemm":
            check_eq(c, key + ":esz", v["esz"], P(ezC), "the routine of the operands' precision", where)
            ptr(key + ":a", v["a"], "A", "A's data"); eqv(c, key + ":lda", D, v["lda"], R, "lda is A's leading dimension", where)
        else:
            with c.guard(key + ":rows"): lists(c, key, D, v, where)
        ptr(key + ":b", v["b"], "B", "B's data"); eqv(c, key + ":ldb", D, v["ldb"], K, "ldb is B's leading dimension", where)
        ptr(key + ":c", v["c"], "C", "C's data after the resize"); eqv(c, key + ":ldc", D, v["ldc"], R, "ldc is C's leading dimension", where)
    else:
        what = v["what"][1] if isinstance(v["what"], tuple) else str(v["what"])
        c.ob(key + ":order", "column-major" in what, "%s maps for column-major matrices" % what, where)
        for t, r, cc, e in (("A", R, K, ez[0]), ("B", K, L, ez[1]), ("C", R, L, ezC)):
            eqv(c, key + ":r" + t, D, v["r" + t], r, "rows of the map of " + t, where)
            eqv(c, key + ":c" + t, D, v["c" + t], cc, "columns of the map of " + t, where)
            eqv(c, key + ":ld" + t, D, v["ld" + t], r, "leading dimension of the map of " + t, where)
            check_eq(c, key + ":es" + t, v["es" + t], P(e), "element size of the map of " + t, where)
            ptr(key + ":" + t.lower(), v[t.lower()], t, "data of the map of " + t)
    operands_unchanged(c, key, D, (("A", "A2"), ("B", "B2")))

def rowmajor(c, key, D, v, raw, tag, shape, ez, where):
    """a row-major product: maps of row-major order, or the column-major product of the exchanged operands"""
    R, K, L = shape; N_ = lambda x: D.N(wide(P(v[x])))
    data = lambda t: D.fn.resolve(P(raw[t][5])); got = lambda x: D.fn.resolve(P(v[x]))
    if tag == "mul":
        what = v["what"][1] if isinstance(v["what"], tuple) else str(v["what"])
        right = "row-major" in what and [N_(x) for x in ("rA", "cA", "ldA", "rB", "cB", "ldB", "rC", "cC", "ldC")] == [D.N(x) for x in (R, K, K, K, L, L, R, L, L)] and [got(x) for x in "abc"] == [data(x) for x in "ABC"]
        if not right: right = "column-major" in what and [N_(x) for x in ("rA", "cA", "ldA", "rB", "cB", "ldB", "rC", "cC", "ldC")] == [D.N(x) for x in (L, K, L, K, R, K, L, R, L)] and [got(x) for x in "abc"] == [data(x) for x in "BAC"]
    else:
        right = P(v["ta"]) == P(v["tb"]) == P(78) and [N_(x) for x in ("M", "N", "K", "lda", "ldb", "ldc")] == [D.N(x) for x in (L, R, K, L, K, L)] and [got(x) for x in "abc"] == [data(x) for x in "BAC"] and P(v["alpha"]) == P(1) and P(v["beta"]) == P(0)
    c.ob(key + ":order", right, "row-major operands are %shanded over as such (or as the exchanged column-major product)" % ("" if right else "not "), where)

def check_flag(c, key, got, where):
    if not isinstance(got, Poly) or not got.is_const(): c.undecided(key, "the transposition flag is not a constant")
    else: c.ob(key, int(got.const()) in (78, 110), "no transposition: %s" % chr(int(got.const())), where)

def csrmul(c, key, fn, where):
    """C^T = B^T A^T on the compressed columns of the operands, first counting, then filling"""
    D = Drv(fn, ["A", "B"], [(("n", "B.r"), n("A.c"))])
    calls = [p for p in D.S.probes if p[0] == "csrmul"]; raw = {p[0]: p[1] for p in D.S.probes}
    names = ["ta", "rq", "M", "N", "K", "a", "ka", "oa", "b", "kb", "ob", "c", "kc", "oc", "nz"]
    if len(calls) != 2: c.undecided(key + ":calls", "%d back-end calls" % len(calls)); return
    for k, p in enumerate(sorted(calls, key=lambda p: p[3])):
        v = dict(zip(names, p[1])); K = key + ":%d" % (k + 1)
        check_flag(c, K + ":ta", v["ta"], where)
        with c.guard(K + ":request"): check_eq(c, K + ":request", P(v["rq"]), P(k + 1), "request %d" % (k + 1), where)
        for f, w, what in (("M", n("B.c"), "columns(B)"), ("N", n("A.c"), "the inner dimension"), ("K", n("A.r"), "rows(A)")):
            with c.guard(K + ":" + f): eqv(c, K + ":" + f, D, v[f], w, "%s is %s" % (f, what), where)
        for f, t in (("a", "B"), ("b", "A")):
            with c.guard(K + ":" + f): check_eq(c, K + ":" + f, D.fn.resolve(P(v[f])), D.fn.resolve(P(raw[t][7])), "the values of " + t, where)
        for f in ("ka", "oa", "kb", "ob"):
            with c.guard(K + ":" + f): oneup(c, K + ":" + f, D, v[f], raw["B" if f[1] == "a" else "A"][8 if f[0] == "k" else 9], "entry of the list", where)
    operands_unchanged(c, key, D, (("A", "A2"), ("B", "B2")))

def oneup(c, key, D, ptr, src, what, where):
    """the list handed over holds the source list's entries plus one"""
    st = [e for e in D.S.effects if e.loops and e.base in arms(D.fn.resolve(P(ptr))) and e.kind == "store"]
    if not st: c.undecided(key, "the list handed over is not followed"); return
    e = st[-1]; i = P(e.loops[0][0])
    if len(e.loops) != 1 or e.addr != P(4) * i: c.undecided(key, "the list handed over is not filled entry by entry"); return
    rest = e.value - P(int(e.value.const())); a = rest.single()
    if a is None or a[0] != "ld": c.undecided(key, "entries are %s" % show(e.value)[:100]); return
    good = e.value.const() == 1 and (src is None or D.fn.resolve(a[1]) == D.fn.resolve(P(src)) + P(8) * i) and subst(a[1], {e.loops[0][0]: P(0)}) + P(8) * i == a[1]
    c.ob(key, good, "each %s handed over is one more than the operand's: %s" % (what, show(e.value)[:120]), where)

def arms(p):
    a = p.single()
    if a is not None and a[0] == "ite": return arms(P(a[2])) | arms(P(a[3]))
    return {a} if a is not None else set()

def lists(c, key, D, v, where):
    """key and offset lists handed over are those of the row-major A, one-based"""
    ob_, oe = P(v["ob"]), P(v["oe"])
    c.ob(key + ":ends", oe - ob_ == P(4), "row ends start one entry after row begins", where)
    for f, what in (("key", "column"), ("ob", "row offset")): oneup(c, key + ":" + f, D, v[f], None, what, where)

def submat(c, back, name, fn):
    key = back.lower() + ":" + name[4:]; where = where_in(fn, "Multiplication_")
    D = Drv(fn, ["PA", "PB", "PC"])
    tag = "mul" if back in ("Eigen", "Blaze") else "gemm"
    calls = [p for p in D.S.probes if p[0] == tag]
    if not calls: c.ok(key, "never reaches the back end"); return
    if len(calls) > 1: c.undecided(key, "several back-end calls"); return
    v = dict(zip(GEMM if tag == "gemm" else MUL, calls[0][1]))
    m, k, l = (P(("arg", x)) for x in "mkn")
    if tag == "gemm":
        for f, w in (("M", m), ("N", l), ("K", k), ("lda", n("PA.r")), ("ldb", n("PB.r")), ("ldc", n("PC.r"))): eqv(c, key + ":" + f, D, v[f], w, f, where)
    else:
        for t, r, cc, p in (("A", m, k, "PA"), ("B", k, l, "PB"), ("C", m, l, "PC")):
            eqv(c, key + ":r" + t, D, v["r" + t], r, "rows", where); eqv(c, key + ":c" + t, D, v["c" + t], cc, "columns", where); eqv(c, key + ":ld" + t, D, v["ld" + t], n(p + ".r"), "leading dimension of the map of " + t, where)

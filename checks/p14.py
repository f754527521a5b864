"""P14: norms and occupation counts follow their definitions."""
from vlib import *
from mat import *
import walk

def flat(p):
    """SUM over lines of SUM over positions of a term that depends on the linear index only -> one SUM"""
    p = P(p)
    for _ in range(8):
        for a in all_atoms(p):
            if not (isinstance(a, tuple) and a[0] == "sum"): continue
            inner = a[3].single()
            if inner is None or inner[0] != "sum": continue
            y, x, S, N, t = inner[1], a[1], inner[2], a[2], inner[3]
            k, q = ("iv", "fk"), ("iv", "fq")
            if x in all_atoms(P(S)): continue
            for (u, v, s_) in ((x, y, S), (y, x, N)):                # linear index v + u*s_
                f = subst(t, {u: ZERO, v: P(k)})
                if subst(f, {k: P(u) * s_ + P(v)}) == t:
                    p = subst(p, {a: mk_sum(k, S * N, f)}); break
            else: continue
            break
        else: return p
    return p

def want(op, i, n_, x, sq=True):
    if op == "one": return mk_sum(i, n_, P(("fabs", x)))
    if op == "two": return P(("sqrt", mk_sum(i, n_, x * x)))
    if op == "max": return P(("maxred", ("bnd", 1), P(n_), subst(P(("fabs", x)), {i: P(("bnd", 1))}), ZERO))
    if op == "cnt": return mk_sum(i, n_, mk_ite(cmp_fp("olt", P(("arg", "t")), x), ONE, ZERO))

NAMES = {"one": "one-norm", "two": "two-norm", "max": "max-norm", "cnt": "number of significant elements"}

def run(c):
    c.rules = ["the value every norm and counting function returns is summarised as an expression over symbolic shapes and element values and compared with the definition (dense, sparse, zero, sub-matrix, blocked and dynamic arguments, both orientations and precisions)",
               "sub-matrices: the iteration is shown by induction to visit every element of the rectangle exactly once, and the accumulated term is compared with the definition",
               "no element value or accumulator is narrowed to single precision for a double matrix or truncated to an integer", "no store reaches the matrix"]
    c.assumptions = ["matrices are well-formed (P04, P13)", "machine arithmetic is read as exact real arithmetic; the order of summation is free"]
    c.floor = 150
    src = VERIF + "/drivers/norms.cpp"
    plain, blocked, dev = c.loads([((src,), {"tag": "norms"}), ((src,), {"defs": ["BLOCKED"], "tag": "blocked"}), ((VERIF + "/drivers/deviation.cpp",), {"tag": "deviation"})])
    for name, fn in sorted(dev.items()):
        if name.startswith("drv_"):
            with c.guard(name): deviation(c, name, fn)
    for mod, pick in ((plain, lambda x: True), (blocked, lambda x: x.endswith("_bd"))):
        for name, fn in sorted(mod.items()):
            if name.startswith("drv_") and pick(name):
                with c.guard(name): one(c, name, fn)

def deviation(c, name, fn):
    """how far two matrices of the same shape are apart"""
    D = Drv(fn, ["A", "B"], row=name.endswith("r"))
    w = where_in(fn, "Core/StatisticalErrorInformation.h")
    rs = [p for p in D.S.probes if p[0] == "r"]
    if len(rs) != 1: c.viol(name + ":returns", "the function does not return normally exactly once", w); return
    got = flat(D.N(rs[0][1][0])); size = n("A.r") * n("A.c"); ia = iv("i").single()
    d = el("A.p", P(ia)) - el("B.p", P(ia))
    if "devmax" in name: wt = P(("maxred", ("bnd", 1), size, subst(P(("fabs", d)), {ia: P(("bnd", 1))}), ZERO))
    else: wt = P(("sqrt", D.N(P(("inv", size)) * mk_sum(ia, size, d * d))))
    got, wt = canon(got), canon(wt); x = got.single()
    if "devrms" in name and x is not None and x[0] == "ite":        # nothing is promised for empty matrices
        empty = cmp_int("eq", size, ZERO)
        if x[1] == empty: got = x[3] if isinstance(x[3], Poly) else P(x[3])
        elif x[1] == dnf_not(empty): got = x[2] if isinstance(x[2], Poly) else P(x[2])
    for b in fn.live:
        bad = [I for I in insts(fn, b) if I["op"] in ("fptosi", "fptoui", "fptrunc") or (I["op"] in ("fsub", "fadd", "fmul", "phi") and I.get("ty") == "float" and (I["op"] != "phi" or any(l["header"] == b for l in fn.loops.values())))]
        if bad: c.viol(name + ":exact", "a difference is computed or kept in single precision or truncated", inst_loc(bad[0]) or w); break
    else: c.ok(name + ":exact", "no narrowing of differences", w)
    operands_unchanged(c, name, D, (("A", "A2"), ("B", "B2")))
    check(c, name, got, wt, "largest deviation" if "devmax" in name else "root mean square deviation", w)

def one(c, name, fn):
    _, op, k = name.split("_")
    sub = k.startswith("x")
    D = Drv(fn, ["PA"] if sub else ["A"], row=k.endswith("r"))
    rs = [p for p in D.S.probes if p[0] == "r"]
    w = where_in(fn, "Core/Norm.h", "Core/Occupation.h")
    if len(rs) != 1: c.viol(name + ":returns", "the function does not return normally exactly once", w); return
    got = flat(D.N(rs[0][1][0]))
    i = iv("i"); ia = i.single()
    # narrowing
    tys = {"d": 8, "f": 4}
    for b in fn.live:
        for I in insts(fn, b):
            if I["op"] in ("fptosi", "fptoui"): c.viol(name + ":exact", "a value is truncated to an integer", inst_loc(I)); break
            if I["op"] == "phi" and I.get("ty") == "float" and op != "cnt" and any(l["header"] == b for l in fn.loops.values()): c.viol(name + ":exact", "a running total is kept in single precision", w); break
            if I["op"] in ("fmul", "fadd") and I.get("ty") == "float" and op != "cnt": c.viol(name + ":exact", "a term is computed in single precision", inst_loc(I) or w); break
            if I["op"] == "fptrunc" and ("f" not in k or op in ("one", "two")) and op != "cnt": c.viol(name + ":exact", "a double value is narrowed to single precision", inst_loc(I)); break
    else: c.ok(name + ":exact", "no narrowing of values or accumulators", w)
    if not sub:
        operands_unchanged(c, name, D, (("A", "A2"),))
        if k.endswith("zz"): check(c, name, got, ZERO, NAMES[op], w); return
        size = n("A.r") * n("A.c")
        if k == "bd": x = el("A.p", 2 * i)
        elif k.lstrip("y")[0] == "d": x = el("A.p", i)
        else: x, size = el("A.v", i), n("A.nnz")
        wt = want(op, ia, size, x)
        if k == "bd" and op != "two": wt = subst(wt, {}) if op == "cnt" else (mk_sum(ia, size, x) if op == "one" else P(("maxred", ("bnd", 1), size, subst(x, {ia: P(("bnd", 1))}), ZERO)))
        check(c, name, got, wt, NAMES[op], w)
        return
    # sub-matrix: recognise the walk
    m_, n_, r_, c_ = (P(("arg", x)) for x in "mnrc")
    row = k.endswith("r")
    ld = n("PA.c") if row else n("PA.r")
    off = r_ * ld + c_ if row else c_ * ld + r_
    S, N = (n_, m_) if row else (m_, n_)
    el_at = lambda b, q: el("PA.p", off + b * ld + q)
    bi, qi = iv("wb"), iv("wq")
    term = {"one": P(("fabs", el_at(bi, qi))), "two": el_at(bi, qi) * el_at(bi, qi), "max": P(("fabs", el_at(bi, qi))),
            "cnt": mk_ite(cmp_fp("olt", P(("arg", "t")), el_at(bi, qi)), ONE, ZERO)}[op]
    po = [a for a in all_atoms(got) if isinstance(a, tuple) and a[0] == "phiout"]
    if not po:
        full = mk_sum(qi.single(), S, term); full = mk_sum(bi.single(), N, full)
        if op == "two": full = P(("sqrt", full))
        check(c, name, got, full, NAMES[op], w); return
    if len(po) != 1: raise Undecided("value not understood: " + show(got))
    acc = po[0][1]
    l = fn.bloop[fn.iblock[acc]]
    pp = D.probes["PA"]["p"]; base = P(pp[0]) + pp[1]
    W = walk.Walk(D, l, base + 8 * off, ld, S, N, 8)
    wl = inst_loc(fn.inst[acc]) or w
    if W.status == "ok": c.ok(name + ":walk", "visits every element of the rectangle once", wl)
    else: (c.viol if W.status == "viol" else c.undecided)(name + ":walk", W.msg, where_in(fn, "StripedIterator.h", "DenseMatrix.h", "Storage.h") or wl)
    if W.status != "ok": return
    red = fn.reduction(acc)
    if red is None: raise Undecided("accumulation not recognised")
    kind_, init, t, _ = red
    t = D.N(subst(t, W.env))
    check_eq(c, name + ":term", t, term, "accumulated term of the %s" % NAMES[op], wl)
    check_eq(c, name + ":init", D.N(init), ZERO, "initial value", wl)
    c.ob(name + ":fold", kind_ == ("max" if op == "max" else "sum"), "accumulated by %s" % kind_, wl)
    out = P(po[0]); out = P(("sqrt", out)) if op == "two" else out
    check_eq(c, name + ":value", got, out, "returned value", w, known=("phiout",))

def canon(p):
    """|x - y| is |y - x|; 1/(x*y) is 1/x * 1/y"""
    def fa(a):
        if not isinstance(a, tuple): return P(a)
        a = rebuild(a, canon)
        a = a if isinstance(a, tuple) else P(a).single()
        if a[0] == "fabs" and isinstance(a[1], Poly) and a[1].t and a[1].t[min(a[1].t, key=str)] < 0: return P(("fabs", -a[1]))
        if a[0] == "inv" and isinstance(a[1], Poly) and len(a[1].t) == 1:
            (m, k), = a[1].t.items(); r = P(1 / k)
            for x in m: r = r * P(("inv", P(x)))
            return r
        return P(a)
    return map_atoms(P(p), fa)

def square(p):
    """the square of a product of roots"""
    if len(p.t) != 1: return None
    (m, k), = p.t.items(); r = P(k * k)
    for a in m:
        x = a[1].single() if isinstance(a, tuple) and a[0] == "inv" and isinstance(a[1], Poly) else None
        if isinstance(a, tuple) and a[0] == "sqrt": r = r * a[1]
        elif x is not None and x[0] == "sqrt": r = r * P(("inv", x[1]))
        else: r = r * P(a) * P(a)
    return r

def check(c, name, got, wt, what, w):
    """definite only if the value is understood: a fold of element values or a constant"""
    if got == wt or ("devrms" in name and square(got) is not None and canon(square(got)) == canon(square(wt))): c.ok(name + ":value", "%s: %s" % (what, show(wt)), w); return
    op = opaque_in(got)
    nested = [a for a in all_atoms(got) if isinstance(a, tuple) and a[0] in ("sum", "maxred")]
    if op or len(nested) > (3 if "devrms" in name else 2): c.undecided(name + ":value", "%s is %s instead of %s [%s]" % (what, show(got), show(wt), (op or ["nested folds"])[:2]), w)
    else: c.viol(name + ":value", "%s is %s instead of %s" % (what, show(got), show(wt)), w)

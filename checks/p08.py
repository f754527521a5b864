"""P08: native products compute sum over k of A(i,k)*B(k,j)."""
from vlib import *
from mat import *
from compact import unroll

def kind(x): return x.rstrip("r")
def isrow(x): return x.endswith("r")

def elem(D, t, name, i, j, base=None):
    """element (i,j) of the dense matrix t (base: (row, column) of a sub-matrix in its parent t)"""
    r, c = D.N(n(t + ".r")), D.N(n(t + ".c"))
    if base: i, j = i + base[0], j + base[1]
    return el(t + ".p", i * c + j if isrow(name) else i + r * j)

def run(c):
    c.rules = ["for every native product the store effects on the result are summarised as polynomials over symbolic shapes, values and sparsity patterns and compared with sum over k of A(i,k)*B(k,j) on a zeroed (or fully assigned) result of shape rows(A) x columns(B)",
               "sparse results: the scratch line accumulates exactly that sum, and every non-zero entry of it is appended once, with its own index and line offsets",
               "no store reaches an operand", "with assertions enabled the product returns only if the inner dimensions agree"]
    c.assumptions = ["operands are well-formed (P04, P13) and inner dimensions agree", "distinct objects do not overlap", "machine arithmetic is read as exact real arithmetic"]
    c.floor = 150
    src = VERIF + "/drivers/products.cpp"
    jobs = [((src,), {"defs": ["PART%d" % p, "VP_OWNS"], "tag": "products%d" % p, "flags": ["-fno-access-control"]}) for p in (1, 2, 3, 4, 5)]
    jobs += [((src,), {"defs": ["PART%d" % p, "VP_OWNS"], "tag": "asserted%d" % p, "flags": ["-UNDEBUG"], "opts": []}) for p in (1, 2, 3)]
    mods = c.loads(jobs)
    for mod in mods[:5]:
        for name, fn in sorted(mod.items()):
            if not name.startswith("drv_"): continue
            with c.guard(name): one(c, name, fn)
    for mod in mods[5:]:
        for name, fn in sorted(mod.items()):
            if not name.startswith("drv_mul"): continue
            _, _, a, b, r = name.split("_")
            if kind(a)[0] == kind(b)[0] == "d" and (isrow(a) or isrow(b) or isrow(r)): continue      # the cursor version has no check
            with c.guard(name + ":inner"): inner(c, name, fn)

def inner(c, name, fn):
    D = Drv(fn, ["A", "B"])
    want = cmp_int("eq", n("A.c"), n("B.r")); ((l,),) = want
    rets = [b for b in fn.live if fn.term(b)["op"] == "ret"]
    if not rets: c.undecided(name + ":inner", "never returns"); return
    for b in rets:
        g = D.Nd(fn.strict_guard(b))
        bad = [x for x in g if l not in x]
        op = [o for a in dnf_atoms(g) for o in opaque_in(P(a))]
        if not bad: c.ok(name + ":inner", "returns only if columns(A) = rows(B)", inst_loc(fn.term(b)))
        elif op: c.undecided(name + ":inner", "return condition not understood: " + show_dnf(g))
        else: c.viol(name + ":inner", "the product can return although columns(A) and rows(B) differ (returns if %s)" % show_dnf(g), inst_loc(fn.term(b)))

def one(c, name, fn):
    _, op, a, b, r = name.split("_")
    m_, k_, n_ = (P(("arg", x)) for x in "mkn")
    i, j, k = iv("i"), iv("j"), iv("k")
    if op in ("exe", "con"): D = Drv(fn, ["A", "B"], [(("n", "B.r"), n("A.c"))], row=isrow(a)); op = "mul"
    elif op == "mul": D = Drv(fn, ["A", "B", "C0"], [(("n", "B.r"), n("A.c"))], row=isrow(a))
    elif op == "sub": D = Drv(fn, ["PA", "PB", "C0"])
    elif op == "sua": D = Drv(fn, ["PA", "B", "C0"], [(("n", "B.r"), k_)])
    elif op == "sux": D = Drv(fn, ["PB", "A", "C0"], [(("n", "A.c"), k_)])
    if D.refuses(): c.viol(name + ":returns", "the product never returns normally"); return
    at = (P(("arg", "ar")), P(("arg", "ac"))); bt = (P(("arg", "br")), P(("arg", "bc")))
    if op == "mul": R, K, L = n("A.r"), n("A.c"), n("B.c"); eA = lambda i, k: elem(D, "A", a, i, k); eB = lambda k, j: elem(D, "B", b, k, j)
    if op == "sub": R, K, L = m_, k_, n_; eA = lambda i, k: elem(D, "PA", a, i, k, at); eB = lambda k, j: elem(D, "PB", b, k, j, bt)
    if op == "sua": R, K, L = m_, k_, n("B.c"); eA = lambda i, k: elem(D, "PA", a, i, k, at); eB = lambda k, j: elem(D, "B", b, k, j)
    if op == "sux": R, K, L = n("A.r"), k_, n_; eA = lambda i, k: elem(D, "A", a, i, k); eB = lambda k, j: elem(D, "PB", b, k, j, bt)
    C = D.m("C")
    with c.guard(name + ":rows"): check_eq(c, name + ":rows", C.r, R, "rows of the result")
    with c.guard(name + ":cols"): check_eq(c, name + ":cols", C.c, L, "columns of the result")
    with c.guard(name + ":size"): check_eq(c, name + ":size", C.size, R * L, "size of the result")
    if C.kind == "dense":
        with c.guard(name + ":length"): check_eq(c, name + ":length", C.f("ss"), R * L, "storage length of the result")
    operands_unchanged(c, name, D, (("A", "A2"), ("B", "B2"), ("PA", "PA2"), ("PB", "PB2")))
    ka, kb = kind(a), kind(b)
    if C.kind == "zero":
        c.ob(name + ":content", "zz" in (ka, kb), "a zero result needs a zero operand"); return
    if "zz" in (ka, kb): c.undecided(name + ":content", "unexpected result for a zero operand"); return
    if C.kind == "dense":
        at_ = (lambda i, j: i * L + j) if isrow(r) else (lambda i, j: i + R * j)
        if ka[0] == kb[0] == "d" or ka[0] == "x": want = spec([("i", R), ("j", L), ("k", K)], at_(i, j), eA(i, k) * eB(k, j))
        elif ka[0] == "s" and kb[0] == "d":
            p = el("A.o", k) + iv("e"); q = el("A.o", i) + iv("e")
            want = spec([("i", R), ("e", el("A.o", i + 1) - el("A.o", i)), ("j", L)], at_(i, j), el("A.v", q) * eB(el("A.k", q), j)) if isrow(a) else spec([("k", K), ("e", el("A.o", k + 1) - el("A.o", k)), ("j", L)], at_(el("A.k", p), j), el("A.v", p) * eB(k, j))
        elif ka[0] == "d" and kb[0] == "s":
            p = el("B.o", j) + iv("e"); q = el("B.o", k) + iv("e")
            want = spec([("k", K), ("e", el("B.o", k + 1) - el("B.o", k)), ("i", R)], at_(i, el("B.k", q)), eA(i, k) * el("B.v", q)) if isrow(b) else spec([("j", L), ("e", el("B.o", j + 1) - el("B.o", j)), ("i", R)], at_(i, j), eA(i, el("B.k", p)) * el("B.v", p))
        else: c.undecided(name + ":content", "no specification"); return
        check_content(c, name + ":content", D, C.reg(), R * L, want)
        return
    if isrow(a): compact(c, name, D, L, K, R, "A", "B")        # lines are rows: those of A select lines of B
    else: compact(c, name, D, R, K, L, "B", "A")

def compact(c, name, D, R, K, L, OUT, IN):
    """sparse result: line j of the result is scratch line j without its zeros"""
    fn = D.fn
    if not is_named(D, "C.o"): raise Undecided("offsets not recognised")
    app = [e for e in D.S.effects if e.kind == "store" and e.base in D.names and D.names[e.base][0] in "TC" and len(e.loops) == 2 and el_of(D.N(e.value)) is not None and el_of(D.N(e.value))[1].startswith("T")]
    app = [e for e in app if not any(a == ("el", D.names[e.base]) + x[2:] for a in all_atoms(D.N(e.value)) if isinstance(a, tuple) and a[0] == "el" for x in [a] if a[1] == D.names[e.base])]
    if len(app) != 1: raise Undecided("appending store not recognised")
    e = app[0]; w = inst_loc(e.I)
    (lj, ej), (li, ei) = e.loops
    J, I_ = P(lj), P(li)
    scr = el_of(D.N(e.value))[1]
    # a scratch line which is cleared again while it is read: what is read at each position was not cleared yet
    V = Vd = lambda x: x
    inside = [x for x in D.effects_on(scr) if x.loops[:1] == [(lj, ej)] or lj in {v for v, _ in x.loops}]
    reset = [x for x in inside if x.order > e.order]
    if len(el_of(D.N(e.value))) > 3 and len(el_of(D.N(e.value))[3]) > 1 and not reset: raise Undecided("the scratch line is written while it is read")
    if reset:
        es = D.regions[scr].esize; g0 = dnf_not(cmp_fp("oeq", P(("el", scr, I_, (J,))), ZERO))
        def V(q):
            def fa(a):
                if isinstance(a, tuple) and a[0] == "el" and a[1] == scr and len(a) > 3 and len(a[3]) == 2 and a[2] == P(a[3][1]): return P(("el", scr, a[2], (P(a[3][0]) if not isinstance(a[3][0], Poly) else a[3][0],)))
                return P(rebuild(a, V)) if isinstance(a, tuple) else P(a)
            return map_atoms(q, fa)
        Vd = lambda g: renorm_dnf(frozenset(frozenset((rebuild(a, V), pol) for a, pol in c) for c in g))
        if len(reset) != 1: raise Undecided("the scratch line is written after it was read")
        r = reset[0]; gr = Vd(D.discharge(D.Nd(r.guard), [(v, D.N(y)) for v, y in r.loops]))
        if r.kind != "store" or r.loops != e.loops or not D.N(r.value).is_zero() or Poly({m: k / es for m, k in D.N(r.addr).t.items()}) != I_ or gr not in (TRUE, g0): raise Undecided("the scratch line is written after it was read")
    # the scratch line
    lo = iv("a"); p = el(OUT + ".o", J) + iv("b"); kb = el(OUT + ".k", p); q = el(IN + ".o", kb) + lo
    want = spec([("b", el(OUT + ".o", J + 1) - el(OUT + ".o", J)), ("a", el(IN + ".o", kb + 1) - el(IN + ".o", kb))], el(IN + ".k", q), el(IN + ".v", q) * el(OUT + ".v", p))
    with c.guard(name + ":scratch"):
        D2 = D
        effs = [x for x in D.effects_on(scr) if lj in {v for v, _ in x.loops}]
        init = [x for x in D.effects_on(scr) if x not in effs]
        first = min(x.order for x in effs)
        if any(x.order > first for x in init): raise Undecided("scratch written outside the line loop")
        if reset:
            b0, g0 = D.content(scr, R, before=first, follow=False)
            if b0 != "zero" or g0: raise Undecided("the scratch line starts with %s" % b0)
            effs = [x for x in effs if x not in reset]
        last = max(x.order for x in effs)
        base, got = D.content(scr, R, after=max([x.order for x in init], default=None), before=reset[0].order if reset else None, fixed=(lj,), follow=False)
        if base == "old" and not reset: c.viol(name + ":scratch", "the scratch line is not reset for every line of the result", w)
        else:
            d = compare(got, want)
            if d: report_content(c, name + ":scratch", d, w)
            else: c.ok(name + ":scratch", "line j of the product is accumulated from a zeroed line", w)
        c.ob(name + ":scratch order", last < e.order, "the line is complete before it is appended", w)
    # positions: number of non-zeros before
    nz = mk_ite(dnf_not(cmp_fp("oeq", P(("el", scr, I_, (J,))), ZERO)), ONE, ZERO)
    line = lambda jj: mk_sum(li, R, subst(nz, {lj: jj}))
    before = mk_sum(lj, J, line(J)) if True else None
    pos = before + mk_sum(li, I_, nz)
    tot = mk_sum(lj, L, line(J))
    with c.guard(name + ":append"):
        check_eq(c, name + ":lines", D.N(ej), L, "lines of the result", w)
        check_eq(c, name + ":line length", D.N(ei), R, "length of a line", w)
    known = ("ld(",)
    for f, val in (("v", P(("el", scr, I_, (J,)))), ("k", I_)):
        with c.guard(name + ":append " + f):
            cand = [x for x in D.S.effects if x.kind == "store" and x.loops == e.loops and x.base is not None and x.base in D.names and D.names[x.base] != scr and x.base in feeding(D, "C." + f)]
            if len(cand) != 1: raise Undecided("%d stores feed the result's %s" % (len(cand), f))
            x = cand[0]; es = D.regions[D.names[x.base]].esize; w = inst_loc(x.I)
            check_eq(c, name + ":append %s value" % f, V(D.N(x.value)), val, "what is appended", w)
            check_eq(c, name + ":append %s position" % f, V(Poly({m: k / es for m, k in D.N(x.addr).t.items()})), pos, "where it is appended", w)
            g = Vd(D.discharge(D.Nd(x.guard), [(v, D.N(y)) for v, y in x.loops]))
            c.ob(name + ":append %s condition" % f, g == dnf_not(cmp_fp("oeq", P(("el", scr, I_, (J,))), ZERO)), "appended exactly if the entry is not zero: " + show_dnf(g), w)
    with c.guard(name + ":nnz"): check_eq(c, name + ":nnz", V(D.probe("C", "nnz")), tot, "number of stored elements")
    with c.guard(name + ":nk"): check_eq(c, name + ":nk", V(D.probe("C", "nk")), tot, "number of keys")
    with c.guard(name + ":so"): check_eq(c, name + ":so", D.probe("C", "so"), L + 1, "number of offsets")
    with c.guard(name + ":offsets"):
        got = []
        for x in D.effects_on("C.o"):
            if x.kind != "store" or len(x.loops) > 1: raise Undecided("offsets are not written line by line")
            got.append((x, Poly({m: k / 8 for m, k in D.N(x.addr).t.items()}), V(unroll(D.N(x.value)))))
        # one store per line (its start) and one for the end; or a zero and one end per line
        lp = [g for g in got if g[0].loops]; sg = [g for g in got if not g[0].loops]
        if len(lp) != 1 or len(sg) != 1 or D.N(lp[0][0].loops[0][1]) != L or lp[0][0].loops[0][0] != lj: raise Undecided("offsets are not written line by line")
        x, ad, v = lp[0]; w = inst_loc(x.I)
        starts = ad == J or sg[0][1] == L
        check_eq(c, name + ":offset position", ad, J if starts else J + 1, "position of a line's offset", w)
        check_eq(c, name + ":offset value", v, before if starts else unroll(before + line(J)), "offset of a line", w)
        check_eq(c, name + ":last offset position", sg[0][1], L if starts else ZERO, "position of the remaining offset", inst_loc(sg[0][0].I))
        check_eq(c, name + ":last offset value", sg[0][2], tot if starts else ZERO, "the remaining offset", inst_loc(sg[0][0].I))
        for y, _, _ in got: c.ob(name + ":offset unconditional", D.discharge(D.Nd(y.guard), [(v, D.N(z)) for v, z in y.loops]) == TRUE, "offsets are stored for every line", inst_loc(y.I))
    for f in ("v", "k"):
        with c.guard(name + ":result " + f):
            src = feeding(D, "C." + f)
            if D.regions["C." + f].base in src: continue
            end = D.probe("C", "nnz")
            base, got = D.content("C." + f, end if V(end) == tot else tot, follow=False)
            (sb,) = src
            d = compare(got, spec([("e", end if V(end) == tot else tot)], iv("e"), el(D.names[sb], iv("e"))))
            if d: report_content(c, name + ":result " + f, d, "")
            else: c.ok(name + ":result " + f, "the result holds exactly the appended elements")

def feeding(D, rn):
    """the buffers whose content becomes the result's"""
    base = D.regions[rn].base
    out = set()
    for e in D.S.effects:
        if e.base == base and e.kind == "copy":
            b, _ = base_and_offset(e.value, is_ptr_atom(D.fn)); out.add(norm_base(b, is_ptr_atom(D.fn)))
    return out or {base}
def is_named(D, rn): return rn in D.regions and D.regions[rn].base is not None
def el_of(p):
    a = p.single()
    return a if a is not None and a[0] == "el" else None
def report_content(c, key, d, w):
    op = set()
    for x in d:
        for pp in x[1].polys(): op |= set(opaque_in(pp))
        for a in dnf_atoms(x[1].guard): op |= set(opaque_in(P(a)))
    msg = "differs from the specification: " + explain(d)
    if op: c.undecided(key, msg + " [opaque: %s]" % ", ".join(sorted(op)[:3]), w)
    else: c.viol(key, msg, d[0][1].where or w)

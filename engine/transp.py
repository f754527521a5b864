"""Transposition of a sparse matrix by counting: offsets from the key histogram, then one insertion per element."""
from mat import *

def insertion(D):
    """(V, K, O, cnt, v effect, k effect) of the loop that distributes the source's elements, or None"""
    for x in D.S.effects:
        if x.kind != "store" or x.base not in D.names or len(x.loops) != 2: continue
        V = D.names[x.base]
        if V.startswith("A."): continue
        val = D.N(x.value).single()
        if not (val is not None and val[0] == "el" and val[1] == "A.v"): continue
        es = D.regions[V].esize
        ad = Poly({m: k / es for m, k in D.N(x.addr).t.items()})
        parts = [m[0] for m in ad.t if len(m) == 1]
        regs = {a[1] for a in parts if isinstance(a, tuple) and a[0] == "el"}
        if len(regs) < 1 or not any(a for a in all_atoms(ad) if isinstance(a, tuple) and a[0] == "el" and a[1] not in ("A.o", "A.v", "A.k")): continue
        return x, V, ad
    return None

def always(c, D, key, g, what, w):
    if g == TRUE: c.ok(key, "every element is %s" % what, w); return
    op = [o for a in dnf_atoms(g) if isinstance(a, tuple) for o in opaque_in(P(a))]
    (c.undecided if op else c.viol)(key, "an element is %s only if %s" % (what, show_dnf(g)), w)

def transposition(c, name, D, L, La, w):
    """checks that D transposes the sparse matrix A with La lines into one with L lines; returns (offsets, values, keys) region names"""
    f = insertion(D)
    if f is None: raise Undecided("no insertion loop")
    x, V, ad = f; wi = inst_loc(x.I)
    (i, ei), (e, ee) = [(v, D.N(q)) for v, q in x.loops]
    at = lambda r, q: P(("el", r, q))
    p = at("A.o", P(i)) + P(e)
    def eq(key, got, want, msg, wh): check_eq(c, name + ":" + key, got, want, msg, wh)
    eq("insertion lines", ei, La, "lines of the source that are distributed", wi)
    eq("insertion elements", ee, at("A.o", P(i) + 1) - at("A.o", P(i)), "elements of a line that are distributed", wi)
    eq("insertion value", D.N(x.value), at("A.v", p), "value that is inserted", wi)
    g = D.discharge(D.Nd(x.guard), [(i, ei), (e, ee)])
    always(c, D, name + ":insertion always", g, "inserted", wi)
    # the position: offset of the element's key + number already inserted there
    k = at("A.k", p)
    vs = [a for a in ad.atoms() if isinstance(a, tuple) and a[0] == "el" and a[1] not in ("A.o", "A.v", "A.k")]
    os = [a for a in vs if len(a) == 3]; cs = [a for a in vs if len(a) > 3]
    if len(os) != 1 or len(cs) != 1: raise Undecided("insertion position not understood: " + show(ad))
    O, T = os[0][1], cs[0][1]
    eq("insertion offset", os[0][2], k, "line whose offset is used", wi)
    eq("insertion counter", cs[0][2], k, "line whose counter is used", wi)
    eq("insertion position", ad, P(os[0]) + P(cs[0]), "position of the insertion", wi)
    # the keys
    ks = [y for y in D.S.effects if y.kind == "store" and y.base in D.names and [v for v, _ in y.loops] == [i, e] and D.names[y.base] not in (V, O, T)]
    if len(ks) != 1: raise Undecided("%d further stores in the insertion loop" % len(ks))
    y = ks[0]; K = D.names[y.base]; wk = inst_loc(y.I)
    eq("key position", Poly({m: q / D.regions[K].esize for m, q in D.N(y.addr).t.items()}), ad, "position of the key", wk)
    eq("key value", D.N(y.value), P(i), "key that is inserted", wk)
    always(c, D, name + ":key always", D.discharge(D.Nd(y.guard), [(i, ei), (e, ee)]), "its key stored", wk)
    # the counters start at zero and count every insertion, afterwards
    tc = [y for y in D.S.effects if y.base is not None and D.names.get(y.base) == T]
    cnt = [y for y in tc if [v for v, _ in y.loops] == [i, e]]
    if len(cnt) != 1 or cnt[0].kind != "store": raise Undecided("%d counter updates" % len(cnt))
    q = cnt[0]; wc = inst_loc(q.I)
    eq("counter position", Poly({m: v / D.regions[T].esize for m, v in D.N(q.addr).t.items()}), k, "counter that is advanced", wc)
    eq("counter step", unversion(D.N(q.value), T), at(T, k) + 1, "new value of the counter", wc)
    always(c, D, name + ":counter always", D.discharge(D.Nd(q.guard), [(i, ei), (e, ee)]), "its counter advanced", wc)
    with c.guard(name + ":counters zero"):
        base, got = D.content(T, D.N(L), before=q.order)
        if any(y.order > q.order for y in tc): raise Undecided("counters are reset")
        c.ob(name + ":counters zero", base == "zero" and not got, "the counters of all %s lines start at zero" % show(L), wc)
    # the offsets: zero, histogram of the keys, running sum
    oe = sorted([y for y in D.S.effects if y.base is not None and D.names.get(y.base) == O], key=lambda y: y.order)
    es = D.regions[O].esize
    pre = [y for y in oe if y.kind == "store" and len(y.loops) == 1 and len([a for a in D.N(y.value).atoms() if isinstance(a, tuple) and a[0] == "el" and a[1] == O]) == 2]
    if len(pre) != 1: raise Undecided("%d running sums over the offsets" % len(pre))
    y = pre[0]; wp = inst_loc(y.I); (v, ext), = [(v, D.N(q)) for v, q in y.loops]
    with c.guard(name + ":histogram"):
        base, got = D.content(O, D.N(L + 1), before=y.order)
        want = spec([("i", La), ("e", at("A.o", iv("i") + 1) - at("A.o", iv("i")))], at("A.k", at("A.o", iv("i")) + iv("e")) + 1, ONE)
        d = compare(got, want)
        if base == "zero" and not d: c.ok(name + ":histogram", "entry k+1 counts the elements with key k", w)
        else:
            op = {o for z in d for pp in z[1].polys() for o in opaque_in(pp)}
            (c.undecided if op else c.viol)(name + ":histogram", "the counts differ from the number of elements per key: %s %s" % ("" if base == "zero" else "not zeroed", explain(d)), (d and d[0][1].where) or w)
    ad = Poly({m: q / es for m, q in D.N(y.addr).t.items()}); s0 = ad - P(v)
    some = {a for cc in cmp_int("eq", D.N(L + 1), ZERO) for a, pol in cc}
    s0 = cond_poly(s0, lambda a: False if a in some else None); ad = s0 + P(v)
    ext = cond_poly(ext, lambda a: False if a in some else None)
    if v in all_atoms(s0): raise Undecided("running sum not in order")
    eq("running sum", cond_poly(unversion(D.N(y.value), O), lambda a: False if a in some else None), at(O, ad) + at(O, ad - 1), "entry of the running sum", wp)
    if D.discharge(D.Nd(y.guard), [(v, ext)]) != TRUE: raise Undecided("conditional running sum")
    if s0 in (ONE, D.N(minmax("umin", [L + 1, P(2)])), D.N(minmax("umin", [L + 1, ONE]))): c.ok(name + ":running sum start", "starts at the first entry that has a predecessor", wp)
    else: (c.undecided if opaque_in(s0) else c.viol)(name + ":running sum start", "the running sum starts at index %s" % show(s0), wp)
    eq("running sum end", s0 + ext, D.N(L + 1), "end of the running sum", wp)
    if any(z.order > y.order for z in oe): raise Undecided("offsets are written after the running sum")
    if y.order > x.order: c.viol(name + ":order", "elements are inserted before the offsets are summed", wp)
    return O, V, K

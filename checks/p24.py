"""P24: fillers write every element, and only elements of the matrix, with the value the filler defines."""
from vlib import *
from mat import *
import walk, cells
from p10 import given
V = P(("arg", "v"))

def isrow(k): return k.endswith("r")
def mark(p): return P(("el", "VALUE", P(p)))

def run(c):
    c.rules = ["the store effects of every filler and of filling construction, assignment and resizing are summarised over symbolic shapes and compared with the definition: a constant everywhere, the constant on the diagonal and zero elsewhere, consecutive numbers in storage order, the Hilbert matrix, the given lists",
               "sub-matrices: exactly the elements of the rectangle are written (walk decided by induction)", "nothing outside the matrix's own storage is written, and the shape stays as it is"]
    c.assumptions = ["matrices are well-formed (P04, P13)", "machine arithmetic is read as exact real arithmetic", "initializer lists are rectangular and not empty"]
    c.floor = 150
    mod = c.load(VERIF + "/drivers/fill.cpp", tag="fill", defs=["PARTSUB"])
    for name, fn in sorted(mod.items()):
        if not name.startswith("drv_"): continue
        with c.guard(name): (sub if name.split("_")[2].startswith("sub") else sparse if name.split("_")[2].startswith("s") else dense)(c, name, fn)

def only_own(c, name, D, own, w):
    """stores reach the matrix's data, its own fields or local memory only"""
    fields = {("arg", a) for a in own[1]}
    bases = {D.regions[r].base for r in own[0] if r in D.regions}
    bad, und = [], []
    for e in D.S.effects:
        b = e.base
        if b in bases or b in fields or isinstance(b, tuple) and b[0] in ("alloc", "obj"): continue
        if b is None or isinstance(b, tuple) and b[0] in ("phi", "ite"): und.append(e)
        else: bad.append(e)
    if bad: c.viol(name + ":only", "stores outside the matrix: %s" % show(bad[0].addr), inst_loc(bad[0].I) or w)
    elif und: c.undecided(name + ":only", "store to an address that is not understood", inst_loc(und[0].I) or w)
    else: c.ok(name + ":only", "only the matrix itself is written", w)

def shape(c, name, D, C, R, K, w):
    for f, got, want in (("rows", C.r, R), ("columns", C.c, K), ("size", C.size, R * K)):
        check_eq(c, name + ":" + f, D.N(got), want, f + " afterwards", w)

def expected(op, k, R, K):
    i, j = iv("i"), iv("j")
    at = (lambda i, j: i * K + j) if isrow(k) else (lambda i, j: i + R * j)
    allof = lambda x: [S_([("i", R), ("j", K)], at(i, j), x)]
    if op == "number": return [S_([("x", R * K)], iv("x"), iv("x") + 1)]
    if op == "hilbert": return allof(P(("inv", i + j + 1)))
    if op == "diagonal": return allof(ZERO) + [S_([("i", R)], at(i, i), V)]
    return allof(ZERO if op == "zero" else V)

def dense(c, name, fn):
    _, _, k, op = name.split("_")
    D = Drv(fn, ["A"] if op not in ("ctor", "list") else [], row=isrow(k), facts=[(("n", "A.c"), n("A.r"))] if op == "diagonal" else [])
    w = where_in(fn, "MatrixFiller.h", "DenseMatrix.h")
    C = D.m("C")
    if op == "diagonal": given(D, "C")
    if op in ("ctor", "resize"): R, K = P(("arg", "r")), P(("arg", "c"))
    elif op == "zero": R, K = n("Z.r"), n("Z.c")
    elif op == "list": R, K = D.probe("L", "v0"), D.probe("L", "v1")
    else: R, K = n("A.r"), n("A.c")
    if op == "diagonal": K = R
    shape(c, name, D, C, R, K, w)
    check_eq(c, name + ":length", D.N(C.f("ss")), R * K, "storage length afterwards", w)
    reg = region(D, "C.p")
    if op == "list":
        i, j = iv("i"), iv("j")
        l0 = P(("ld", P(("arg", "l")), 8))
        x = P(("ld", P(("ld", l0 + 16 * i, 8)) + 8 * j, 8))
        want = [S_([("i", R), ("j", K)], i * K + j if isrow(k) else i + R * j, x)]
    else: want = expected(op, k, R, K)
    content(c, name + ":content", D, reg, R * K, want, 4 if "f" in k else 8, w)
    only_own(c, name, D, ({"A.p", "C.p", reg}, ("A",)), w)

def region(D, r):
    """the region that has the base of the given one"""
    if r in D.regions: return r
    raise Undecided("the matrix's data are not found")

def sparse(c, name, fn):
    _, _, k, op = name.split("_")
    D = Drv(fn, ["A"] if op != "ctor" else [])
    w = where_in(fn, "MatrixFiller.h", "SparseMatrix.h")
    C = D.m("C")
    if op == "ctor": R, K = P(("arg", "r")), P(("arg", "c"))
    else: R, K = n("A.r"), n("A.c")
    shape(c, name, D, C, R, K, w)
    nnz = D.N(C.f("nnz"))
    x = iv("x")
    content(c, name + ":content", D, "C.v" if op == "ctor" else "A.v", nnz, [S_([("x", nnz)], x, x + 1 if op == "number" else V)], 4 if "f" in k else 8, w)
    if op == "number":
        # the keys and offsets of a matrix without gaps
        i, j = iv("i"), iv("j")
        for f in "ko":
            pp = D.probes["A"][f]; base = P(pp[0]) + pp[1]
            want = [S_([("j", K), ("i", R)], i + R * j, i)] if f == "k" else [S_([("j", K)], j, R * j), S_([], K, R * K)]
            stores(c, name + (":keys" if f == "k" else ":offsets"), D, D.effects_on("A." + f), base, 8, want, w)
    only_own(c, name, D, ({"A.v", "A.k", "A.o", "C.v", "C.k", "C.o"}, ("A",)), w)

def sub(c, name, fn):
    _, _, k, op = name.split("_")
    row = isrow(k); es = 4 if "f" in k else 8
    D = Drv(fn, ["PA"], row=row)
    w = where_in(fn, "MatrixFiller.h", "DenseMatrix.h")
    m_, n_, r_, c_ = (P(("arg", x)) for x in "mnrc")
    if op == "diagonal": n_ = m_; D.assume[("arg", "n")] = m_; given(D, "PA")
    ld = n("PA.c") if row else n("PA.r")
    off = r_ * ld + c_ if row else c_ * ld + r_
    S, N = (n_, m_) if row else (m_, n_)
    pp = D.probes["PA"]["p"]; base = P(pp[0]) + pp[1]
    for l in list(fn.loops):
        if not any(("btc", l) in all_atoms(x) for e in D.S.effects for _, x in e.loops): continue
        W = walk.Walk(D, l, base + es * off, ld, S, N, es)
        wl = where_in(fn, "StripedIterator.h") or w
        if W.status == "viol": c.viol(name + ":walk", W.msg, wl); return
        if W.status != "ok": c.undecided(name + ":walk", W.msg, wl); return
        c.ok(name + ":walk", "visits every element of the rectangle once", wl)
        for e in D.S.effects:
            if e.base is not None and e.base[0] == "phi": e.addr = e.addr + P(e.base); e.base = None
        W.apply(D, l, S, N)
    i, j = iv("i"), iv("j")
    at = (lambda i, j: off + i * ld + j) if row else (lambda i, j: off + i + j * ld)
    want = []
    if op == "diagonal": want += [S_([("i", m_), ("j", m_)], at(i, j), ZERO), S_([("i", m_)], at(i, i), V)]
    else: want.append(S_([("i", m_), ("j", n_)], at(i, j), P(("inv", i + j + 1)) if op == "hilbert" else V))
    stores(c, name + ":content", D, D.S.effects, base, es, want, w, {("n", "PA.r"): 7, ("n", "PA.c"): 8, ("arg", "r"): 1, ("arg", "c"): 2})

def stores(c, key, D, effs, base, es, want, w, fixed=None):
    """what the stores leave behind against the expected stores; a store elsewhere is reported"""
    got = []
    for e in sorted(effs, key=lambda e: e.order):
        full = e.addr if e.base is None else P(e.base) + e.addr
        full = D.N(full) - D.N(base)
        if is_foreign(full): c.viol(key + ":only", "stores outside the matrix: %s" % show(full), inst_loc(e.I) or w); continue
        loops = [(v, D.N(x)) for v, x in e.loops]; g = D.Nd(e.guard); f = D.facts(loops, g)
        full = cond_poly(full, f); loops = [(v, cond_poly(x, f)) for v, x in loops]
        if e.kind == "store": val = cond_poly(D.N(e.value), f)
        elif e.kind == "set" and D.N(e.value).is_zero():
            v = ("iv", "set%d" % e.I["id"]); k = D.N(e.nbytes)
            loops.append((v, Poly({m: q / es for m, q in k.t.items()}))); full = full + es * P(v); val = ZERO
        else: raise Undecided("block operation on the data")
        got.append(cells.Store(loops, Poly({m: q / es for m, q in full.t.items()}), val, D.discharge(g, loops), inst_loc(e.I)))
    as_contrib = lambda s: Contrib(s.loops, s.addr, 1, tuple(mark(s.value).t)[0], s.guard, s.where).simplify()
    if len(got) == len(want) and all(not compare([as_contrib(x)], [as_contrib(y)], False) for x, y in zip(got, want)):
        c.ok(key, "; ".join(x.show() for x in got), w); return
    wl = next((x.where for x in got if x.where), w)
    d = cells.differ(got, want, fixed)
    if d: c.viol(key, d + " (written: %s)" % "; ".join(x.show() for x in got[:3]), wl)
    else: c.undecided(key, "not the expected form, no difference for small shapes: " + "; ".join(x.show() for x in got[:3]), wl)

def content(c, key, D, reg, size, want, es, w):
    """every element of the buffer, whatever it held before"""
    with c.guard(key):
        try:
            base, got = D.content(reg, D.N(size))
            w0 = [Contrib(s.loops, s.addr, k, m, s.guard) for s in want for m, k in s.value.t.items() if not s.value.is_zero()]
            if base == "zero" and not compare(got, w0): c.ok(key, "; ".join(s.show() for s in want), w); return
        except Undecided: pass
        stores(c, key, D, D.effects_on(reg), ZERO if D.regions[reg].base is None else P(D.regions[reg].base), es, want, w)

def S_(loops, addr, value): return cells.Store([(("iv", v), P(e)) for v, e in loops], addr, value)

def is_foreign(p): return any(isinstance(a, tuple) and (a[0] in ("alloc", "obj") or a[0] == "phi") for a in p.atoms())

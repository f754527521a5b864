"""P03: call operator, cursors and iterators address the same element."""
from vlib import *
from mat import *
import walk, cells
from p24 import stores, S_

V, I, J, K, T_ = (P(("arg", x)) for x in "vijkt")

def isrow(k): return k.endswith("r")
def esz(k): return 4 if "f" in k else 8

def run(c):
    c.rules = ["the address delivered by the call operator is data + row + column*ld (row*ld + column for row-major) with the matrix's own leading dimension, the parent's for a sub-matrix",
               "cursors in all four directions: begin, end, step forward and back; the loop from begin to end visits exactly the elements of its row or column",
               "storage iterators: from begin to end every element once, in order; one step of the striped iterator, forward and back, from every kind of position (inside a line, at a line's end, at the matrix's ends), and the states of begin, end, rbegin and rend including empty sub-matrices",
               "the arrays of a sparse matrix: begin is the first, end one past the last stored element"]
    c.assumptions = ["matrices are well-formed (P04, P13)", "positions are in range (asserted by the code)", "fewer than 2^31 lines (the iterator counts lines in an int)"]
    c.floor = 1500
    src = VERIF + "/drivers/access.cpp"
    for mod in c.loads([((src,), {"defs": ["PART=%d" % p], "tag": "access%d" % p}) for p in (1, 2, 3)]):
        for name, fn in sorted(mod.items()):
            if not name.startswith("drv_"): continue
            _, what, k, op = name.split("_")
            with c.guard(name):
                if what == "step": step(c, name, fn, k, op)
                elif k[0] == "s": arrays(c, name, fn)
                else: one(c, name, fn, k, op)

def one(c, name, fn, k, op):
    row = isrow(k); es = esz(k); sub = k[0] in "xy"
    D = Drv(fn, ["PA" if sub else "A"], row=row)
    w = where_in(fn, "Cursor.h", "CursorBase.h", "StridedCursorBase.h", "StripedIterator.h", "DenseMatrix.h", "Storage.h")
    t = "PA" if sub else "A"
    pp = D.probes[t]["p"]; base = P(pp[0]) + pp[1]
    ld = n(t + ".c") if row else n(t + ".r")
    a = lambda x: P(("arg", x))
    if sub: R, C = a("m"), a("n")
    else: R, C = n("A.r"), n("A.c")
    r0 = sum((a(x) for x in ({"x": ["r"], "y": ["r", "r1"]}.get(k[0], []))), ZERO)
    c0 = sum((a(x) for x in ({"x": ["c"], "y": ["c", "c1"]}.get(k[0], []))), ZERO)
    pos = (lambda i, j: (r0 + i) * ld + c0 + j) if row else (lambda i, j: (c0 + j) * ld + r0 + i)
    ad = lambda i, j: base + es * pos(P(i), P(j))
    S, N = (C, R) if row else (R, C)              # line length, number of lines
    el_ = (lambda b, q: ad(b, q)) if row else (lambda b, q: ad(q, b))
    def eq(key, tag, f, want, msg): check_eq(c, name + ":" + key, D.N(D.probe(tag, f)), D.N(want), msg, w)
    if op == "at":
        eq("call", "e", "v0", ad(I, J), "address of element (i,j)"); eq("const call", "e", "v1", ad(I, J), "address of element (i,j), const")
        eq("data", "e", "v2", ad(0, 0), "data pointer"); eq("const data", "e", "v3", ad(0, 0), "data pointer, const")
        if row: eq("ld", "e", "v5", ld, "leading dimension")
        else: eq("ld", "e", "v4", ld, "leading dimension")
        return
    if op == "ends":
        for f in (0, 2): eq("begin%d" % f, "it", "v%d" % f, base, "first element"); eq("end%d" % f, "it", "v%d" % (f + 1), base + es * R * C, "one past the last element")
        return
    if op == "it":
        btc = [l for l in fn.loops if any(("btc", l) in all_atoms(x) for e in D.S.effects for _, x in e.loops)]
        if sub:
            if not btc: raise Undecided("the iteration is not understood")
            for l in btc:
                W = walk.Walk(D, l, el_(0, 0), ld, S, N, es)
                wl = where_in(fn, "StripedIterator.h") or w
                if W.status != "ok": (c.viol if W.status == "viol" else c.undecided)(name + ":walk", W.msg, wl); return
                c.ok(name + ":walk", "visits every element of the rectangle once, in order", wl)
        else: stores(c, name + ":walk", D, D.S.effects, base, es, [S_([("i", S * N)], iv("i"), V)], w)
        return
    if op in ("str", "cpy"): striped(c, name, D, el_, S, N, ld, es, w); return
    # cursors
    d = op[-2:]
    byrow = d == "rc" or d == ("nj" if row else "jn")          # the outer cursor names a row
    first = (lambda x: ad(x, 0)) if byrow else (lambda x: ad(0, x))
    at = (lambda x: ad(K, x)) if byrow else (lambda x: ad(x, K))
    cnt = C if byrow else R
    eq("outer", "o", "v0", K, "index of the outer cursor"); eq("outer+1", "o1", "v0", K + 1, "index after ++"); eq("outer-1", "o2", "v0", K, "index after ++ and --")
    eq("begin", "o", "v1", first(K), "first element"); eq("end", "o", "v2", at(cnt), "one past the last element")
    eq("begin+1", "o1", "v1", first(K + 1), "first element of the next line"); eq("begin-1", "o2", "v1", first(K), "first element")
    eq("==", "o2", "v2", ONE, "equality of cursors at the same place"); eq("!=", "o2", "v3", ZERO, "inequality of cursors at the same place")
    eq("first", "i", "v0", at(0), "element of the inner cursor"); eq("second", "i1", "v0", at(1), "element after ++"); eq("back", "i2", "v0", at(0), "element after ++ and --")
    if byrow == row: eq("index", "i", "v1", at(T_), "element [t] of a cursor along the line")
    if op[0] != "c" or len(op) == 2:
        x = iv("x")
        rel = pos(K, x) if byrow else pos(x, K)
        stores(c, name + ":walk", D, D.S.effects, base, es, [S_([("x", cnt)], rel, V)], w,
               {("n", "PA.r"): 9, ("n", "PA.c"): 8, ("arg", "r"): 1, ("arg", "c"): 2, ("arg", "r1"): 1, ("arg", "c1"): 0} if sub else None)

def striped(c, name, D, el_, S, N, ld, es, w):
    def eq(key, tag, f, want, msg, asm=None):
        got = D.N(D.probe(tag, f)); want = D.N(want)
        if asm: got, want = walk.settle(subst(got, asm), asm), walk.settle(subst(want, asm), asm)
        check_eq(c, name + ":" + key, got, want, msg, w)
    Sa, Na = S.single(), N.single()
    some = {Sa: P(("arg", "s1")) + 1, Na: P(("arg", "n1")) + 1}
    U = P(("arg", "u1"))
    for x in ("", "c"):
        kind_ = "const " if x else ""
        for tag, ptr, q, b in (("b", el_(0, 0), ZERO, ZERO), ("e", el_(N - 1, S), ZERO, N), ("rb", el_(N - 1, S - 1), S - 1, N - 1), ("re", el_(0, 0) - es, None, P(-1))):
            eq("%s%s" % (kind_, tag), x + tag, "v0", ptr, "%s: pointer" % tag, some)
            if q is not None: eq("%s%s:position" % (kind_, tag), x + tag, "v1", q, "%s: position in the line" % tag, some)
            eq("%s%s:line" % (kind_, tag), x + tag, "v2", b, "%s: line" % tag, some)
            eq("%s%s:length" % (kind_, tag), x + tag, "v3", S - 1, "%s: line length - 1" % tag)
            eq("%s%s:gap" % (kind_, tag), x + tag, "v4", ld - S + 1, "%s: gap + 1" % tag)
            eq("%s%s:lines" % (kind_, tag), x + tag, "v5", N, "%s: number of lines" % tag)
        for z, nm in ((Sa, "empty lines"), (Na, "no lines")):
            e0 = {z: ZERO}
            f = lambda tag: subst(D.N(D.probe(x + tag, "v0")), e0)
            check_eq(c, name + ":%s%s" % (kind_, nm), f("e"), f("b"), "end of an empty sub-matrix (begin)", w)
            check_eq(c, name + ":%s%s reversed" % (kind_, nm), f("re"), f("rb"), "rend of an empty sub-matrix (rbegin)", w)
    for i in range(6): eq("converted:v%d" % i, "q", "v%d" % i, D.probe("b", "v%d" % i), "field of the converted iterator")

def step(c, name, fn, k, op):
    D = Drv(fn, [])
    es = esz(k); a = lambda x: P(("arg", x))
    w = where_in(fn, "StripedIterator.h")
    U, W_ = a("u1"), a("u2")
    if op == "eq":
        g = D.probe("i", "v0"), D.probe("i", "v1")
        for nm, env, want in (("same", {("arg", "y"): a("x")}, 1), ("different", {("arg", "y"): a("x") + 1 + U}, 0)):
            for f, wt in ((g[0], want), (g[1], 1 - want)):
                x = walk.settle(subst(D.N(f), env), env)
                check_eq(c, name + ":" + nm, x, P(wt), "comparison of iterators at %s elements" % nm, w)
        check_eq(c, name + ":dereference", D.N(D.probe("i", "v2")), D.N(a("p") + es * a("x")), "element", w)
        return
    p, q, b, S, sep, B = (a(x) for x in ("p", "q", "b", "S", "sep", "B"))
    if op == "inc":
        cases = [("inside a line", {("arg", "S"): q + 2 + U}, (p + es, q + 1, b)),
                 ("at the end of a line", {("arg", "S"): q + 1, ("arg", "B"): b + 2 + U}, (p + es * (sep + 1), ZERO, b + 1)),
                 ("at the last element", {("arg", "S"): q + 1, ("arg", "B"): b + 1}, (p + es, ZERO, b + 1))]
    else:
        cases = [("inside a line", {("arg", "q"): U + 1, ("arg", "S"): U + 2 + W_}, (p - es, U, b)),
                 ("at the start of a line", {("arg", "q"): ZERO, ("arg", "b"): U + 1, ("arg", "B"): U + 2 + W_, ("arg", "S"): a("S1") + 1}, (p - es * (sep + 1), a("S1"), U)),
                 ("at the first element", {("arg", "q"): ZERO, ("arg", "b"): ZERO, ("arg", "B"): a("B1") + 1, ("arg", "S"): a("S1") + 1}, (p - es, None, None)),
                 ("at the end", {("arg", "q"): ZERO, ("arg", "b"): a("B1") + 1, ("arg", "B"): a("B1") + 1, ("arg", "S"): a("S1") + 1}, (p - es, a("S1"), a("B1")))]
    for nm, env, want in cases:
        for f, wt, what in zip(("v0", "v1", "v2"), want, ("pointer", "position in the line", "line")):
            if wt is None: continue
            got = walk.settle(subst(D.N(D.probe("i", f)), env), env)
            check_eq(c, name + ":%s:%s" % (nm, what), got, wt, "%s after a step %s" % (what, nm), w)
        for f, wt in (("v3", S - 1), ("v4", sep + 1), ("v5", B)):
            check_eq(c, name + ":%s:%s" % (nm, f), subst(D.N(D.probe("i", f)), env), subst(wt, env), "constant field", w)

def arrays(c, name, fn):
    D = Drv(fn, ["A"], row=name.split("_")[2].endswith("r"))
    w = where_in(fn, "SparseStorage.h", "Storage.h")
    es = esz(name.split("_")[2])
    for tag, f, e, cnt in (("it", "v", es, n("A.nnz")), ("key", "k", 8, n("A.nnz")), ("off", "o", 8, D.N(n("A.so")))):
        pp = D.probes["A"][f]; base = P(pp[0]) + pp[1]
        for i, want in enumerate((base, base + e * cnt, base, base + e * cnt)):
            check_eq(c, name + ":%s%d" % (tag, i), D.N(D.probe(tag, "v%d" % i)), D.N(want), "%s of the %s" % ("first" if i % 2 == 0 else "one past the last", tag), w)

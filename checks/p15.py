"""P15: cached norms and counts are recomputed or served correctly."""
from vlib import *
from mat import *
import walk

FLAGS = ["-fno-access-control"]
U = P(("arg", "u1"))

def vals(fn):
    """tag -> the observed values"""
    out = {}
    for b in sorted(fn.live):
        for I in fn.blocks[b]["insts"]:
            if I.get("callee") == "vp_probe" and I["op"] == "call":
                o = I["ops"]; tag = o[0].get("str")
                out[tag] = [plain_ld(fn.val(x, b)) for x in o[1:]]
    return out

def plain_ld(p):
    """loads by address only (a flag is one byte of a copied word)"""
    p = P(p)
    for _ in range(20):
        m = {a: P(("ld", a[1], 0) + a[3:]) for a in all_atoms(p) if isinstance(a, tuple) and a[0] == "ld" and len(a) > 2 and a[2] != 0}
        if not m: return p
        p = subst(p, m)
    return p

def calls(fn, name):
    return [(b, I) for b in sorted(fn.live) for I in fn.blocks[b]["insts"] if I["op"] in ("call", "invoke") and I.get("callee") == name]

def cached(p, env):
    """a flag or count atom set to a number, decided conditions resolved"""
    return walk.settle(subst(P(p), env), env)

def run(c):
    c.rules = ["a norm query on an up-to-date cache returns the cached value and changes nothing; otherwise it computes the norm of this very matrix, returns and keeps it",
               "comparisons with a bound decide strictly by that norm (and by the occupation)",
               "a count query consults the table only under a key made of the given filter's own kind and bounds, and otherwise counts with the given filter",
               "the order of the table's keys tells any two filters of different kind or different bounds apart, for all order types of the bounds",
               "occupation is the count divided by the size",
               "after every operation that replaces the content (resize, assignment, compound assignment, value assignment, swap, move, copy, load, product, conversion) the cache is empty or the one of the object the content came from"]
    c.assumptions = ["elements written one by one through references, iterators or sub-matrices do not invalidate the cache (no part of the statement)",
                     "the table of counts behaves as a map ordered by the filters' order"]
    c.floor = 1200
    with c.guard("order of filters"):
        import p12
        p12.less(c, p12.load(c))
    src = VERIF + "/drivers/caches.cpp"
    jobs = [((src,), {"defs": ["PART=%d" % p], "flags": FLAGS, "tag": "caches%d" % p}) for p in (1, 2, 3, 4, 5, 6, 7)]
    jobs += [((src,), {"defs": ["PART=2", "KEY=InclusiveBound", "KEYA=lowerThreshold_", "KEYB=upperThreshold_"], "flags": FLAGS, "tag": "caches2i"})]
    kinds = ["1", "2", "3", "4", "5", "OpenBLAS", "IntelMKL", "2i"]
    for kind, mod in zip(kinds, c.loads(jobs)):
        for name, fn in sorted(mod.items()):
            if not name.startswith("drv_"): continue
            suffix = "/range" if kind == "2i" else "/" + kind if not kind.isdigit() else ""
            with c.guard(name + suffix):
                key = name + suffix
                what = name.split("_")[1]
                if what in "qzc":
                    cut = next((I for b in fn.live for I in insts(fn, b) if I["op"] in ("fptrunc", "fptosi", "fptoui")), None)
                    if cut: c.viol(key + ":exact", "a bound or a norm is narrowed or truncated before it is compared or returned", inst_loc(cut) or where_in(fn, "NormPolicy.h", "OccupationPolicy.h", "ZeroMatrix.h")); continue
                if what == "q": query(c, key, fn, name.split("_")[3])
                elif what == "z": zero(c, key, fn, name.split("_")[2])
                elif what == "c": count(c, key, fn, name.split("_")[3])
                else: change(c, key, fn, name.split("_")[3])

def eq(c, key, got, want, msg, w, known=()):
    check_eq(c, key, got, want, msg, w, known)

def strict(c, key, fn, q, x, v, larger, env, w):
    """q is 1 exactly if x > v (larger) or x < v"""
    for nm, vv, truth in (("below the value", x - 1 - U, larger), ("equal to the value", x, False), ("above the value", x + 1 + U, not larger)):
        got = decide(subst(cached(q, env), {v.single(): vv}))
        check_eq(c, "%s:bound %s" % (key, nm), got, P(int(truth)), "answer for a bound %s" % nm, w)

def decide(p):
    """resolve comparisons of floating-point values whose order is given"""
    for _ in range(20):
        done = True
        for a in all_atoms(p):
            if isinstance(a, tuple) and a[0] in ("ite", "bool"):
                t = False
                for conj in a[1]:
                    r = True
                    for l, pol in conj:
                        s = walk.sign(l[1]) if l[0] in ("flt", "fle", "feq") and isinstance(l[1], Poly) else None
                        if s is None: r = None; break
                        if ((s < 0) if l[0] == "flt" else (s <= 0) if l[0] == "fle" else s == 0) != pol: r = False
                    if r is None: t = None; break
                    t = t or r
                if t is None: continue
                p = subst(p, {a: (a[2] if t else a[3]) if a[0] == "ite" else P(int(t))}); done = False; break
        if done: break
    return p

def query(c, key, fn, op):
    w = where_in(fn, "NormPolicy.h")
    V = vals(fn); A, C = V["A"], V["C"]; q = V.get("q", [None])[0]
    f = A[0].single()
    known_ = tuple(str(x) for x in A[:3]) + ("call(",)
    nc = calls(fn, "vp_norm")
    new = [P(("call", I["id"])) for _, I in nc]
    for b, I in nc: eq(c, "%s:norm of %d" % (key, new.index(P(("call", I["id"])))), fn.val(I["ops"][0], b), P(("arg", "A")), "the matrix whose norm is computed", w)
    eq(c, key + ":counts", C[2], A[2], "table of counts after the query", w, known_)
    for up in (1, 0):
        env = {f: P(up)}; st = "cached" if up else "not cached"
        g = lambda x: cached(x, env)
        if op == "uptodate":
            eq(c, "%s:%s" % (key, st), g(q), P(up), "whether the norm is up to date", w, known_)
        else:
            known = A[1] if up else None
            if not up:
                x = g(C[1]) if op == "update" else None
                cand = [y for y in new if g(C[1]) == y]
                if not cand: check_eq(c, "%s:%s:kept" % (key, st), g(C[1]), new[0] if new else P(("norm",)), "norm kept by the query", w, known_); continue
                known = cand[0]
            eq(c, "%s:%s:up to date" % (key, st), g(C[0]), ONE, "state after the query", w, known_)
            eq(c, "%s:%s:kept" % (key, st), g(C[1]), known, "norm kept after the query", w, known_)
            if op == "norm": eq(c, "%s:%s" % (key, st), g(q), known, "norm returned", w, known_)
            if op in ("larger", "smaller"): strict(c, "%s:%s" % (key, st), fn, q, known, P(("arg", "v")), op == "larger", env, w)
            continue
        eq(c, "%s:%s:state" % (key, st), g(C[0]), P(up), "state after the query", w, known_)

def zero(c, key, fn, op):
    w = where_in(fn, "ZeroMatrix.h")
    q = vals(fn)["q"][0]
    if op in ("norm", "count", "occ"): eq(c, key, q, ZERO, "value for a zero matrix", w); return
    strict(c, key, fn, q, ZERO, P(("arg", "v")), op.endswith("larger"), {}, w)

def table_of(p):
    """the virtual table a pointer points into"""
    g = [a for a in all_atoms(P(p)) if isinstance(a, tuple) and a[0] == "g"]
    rest = subst(P(p), {a: ZERO for a in g + [("gep",)]})
    return P(g[0]) if len(g) == 1 and rest.is_const() else P(p)

def count(c, key, fn, op):
    w = where_in(fn, "OccupationPolicy.h")
    eff = Drv(fn, []).S.effects
    def through(p):
        """what was stored in the freshly made key"""
        p = P(p)
        for _ in range(10):
            m = {}
            for a in all_atoms(p):
                if isinstance(a, tuple) and a[0] == "ld":
                    st = [e for e in eff if e.base and e.base[0] == "alloc" and e.kind == "store" and not e.loops and P(e.base) + e.addr == a[1]]
                    if len(st) == 1: m[a] = P(st[0].value)
            if not m: return p
            p = subst(p, m)
        return p
    V = vals(fn)
    has, at, cnt = calls(fn, "vp_map_has"), calls(fn, "vp_map_at"), calls(fn, "vp_count")
    A = P(("arg", "A")); v = P(("arg", "v"))
    if op == "count": kind, a_, b_ = V["v"][2], V["v"][0], V["v"][1]; c._keyfields = (kind, a_, b_); base = V["A"][2]
    else:
        kf = getattr(c, "_keyfields", None)
        if kf is None: raise Undecided("the filter's fields are not known")
        kind, a_, b_ = kf
    table = None
    for nm, cs in (("asked", has), ("entry", at)):
        for i, (b, I) in enumerate(cs):
            o = [through(fn.val(x, b)) for x in I["ops"]]
            eq(c, "%s:%s %d kind" % (key, nm, i), table_of(o[1]), table_of(kind), "kind of the filter in the key", w)
            eq(c, "%s:%s %d lower" % (key, nm, i), plain_ld(o[2]), a_, "first bound in the key", w)
            eq(c, "%s:%s %d upper" % (key, nm, i), plain_ld(o[3]), b_, "second bound in the key", w)
            if table is None: table = o[0]
            eq(c, "%s:%s %d table" % (key, nm, i), o[0], table, "table", w)
            if (o[0] - A).atoms() if hasattr(o[0] - A, "atoms") else not (o[0] - A).is_const(): c.viol("%s:%s %d own" % (key, nm, i), "the table is not this matrix's", w)
    for i, (b, I) in enumerate(cnt):
        o = [fn.val(x, b) for x in I["ops"]]
        eq(c, "%s:counted %d" % (key, i), o[0], A, "matrix counted", w)
        eq(c, "%s:counted %d lower" % (key, i), plain_ld(o[1]), a_, "first bound of the counting filter", w)
        eq(c, "%s:counted %d upper" % (key, i), plain_ld(o[2]), b_, "second bound of the counting filter", w)
    fresh = [P(("call", I["id"])) for _, I in cnt]
    entry = [P(("call", I["id"])) for _, I in at]
    served = [P(("ld", e, 0)) for e in entry]
    for e in eff:
        if e.kind == "store" and e.base and P(e.base) in entry:
            if P(e.value) in fresh and e.addr.is_zero(): c.ok(key + ":kept", "the count made", w)
            else: check_eq(c, key + ":kept", P(e.value), fresh[0] if fresh else ZERO, "count kept in the table", w)
    q = V["q"][0]
    hs = [P(("call", I["id"])) for _, I in has]
    following = [P(("call", I["id"])) for _, I in calls(fn, "vp_map_next")]
    for there in (1, 0):
        env = {h.single(): P(there) for h in hs}
        got = cached(q, env)
        nm = "%s:%s" % (key, "in the table" if there else "not in the table")
        # the entry of the next larger filter served although nothing compares its key with the one asked for
        if not there and any(a[0] == "ld" and P(a[1]) in following for a in all_atoms(got)) and "'bv'" not in str(got):
            c.viol(nm, "the query returns the count kept for another filter: %s" % str(got)[:120], w); continue
        good = fresh + (served if there else [])
        if op == "count":
            if got in good: c.ok(nm, "the count of this filter", w)
            elif walk.definite(got, [x.single() for x in good]): c.viol(nm, "the query returns %s" % str(got), w)
            else: c.undecided(nm, "the value returned is %s" % str(got)[:120], w)
            continue
        x = next((y for y in good if y.single() in all_atoms(got)), None)
        if x is None: c.undecided(nm, "the count is not found in %s" % str(got)[:120], w); continue
        sz = size_of(fn)
        check_eq(c, nm + ":size", subst(plain_ld(sz), {V["A"][3].single(): V["A"][4] * V["A"][5]}), V["A"][4] * V["A"][5], "number the count is divided by", w, ("*(",))
        occ = x * P(("inv", sz))
        if op == "occ": check_eq(c, nm, got, occ, "occupation", w)
        else: strict(c, nm, fn, q, occ, P(("arg", "b")), op.endswith("larger"), env, w)

def size_of(fn):
    """the matrix's size as it is read in this function"""
    q = P(("arg", "A"))
    xs = set()
    def inv(p):
        for a in all_atoms(P(p)):
            if isinstance(a, tuple) and a[0] == "inv": xs.add(a[1])
    for t, vs in vals(fn).items():
        for v in vs: inv(v)
    if len(xs) != 1: raise Undecided("the occupation is not a quotient")
    return xs.pop()

def change(c, key, fn, op):
    w = where_in(fn, "DenseMatrix.h", "SparseMatrix.h", "BinaryFunctors.h", "NormPolicy.h", "Multiplication_Native.h")
    V = vals(fn)
    if "S" in V: c.ok(key, "the content stays", w); return
    src = {"C": "B", "D": "A"}
    for t in ("C", "D"):
        if t not in V: continue
        got = V[t]; o = V.get(src[t]) if op in ("cassign", "massign", "copy", "move", "swap") else None
        f = got[0]; seen = [a for x in V for y in V[x][:3] if x in ("A", "B") for a in [P(y).single()] if a]
        who = "" if t == "C" else "other "
        if op == "reset": pass
        elif f.is_zero(): c.ok(key + ":%snorm" % who, "no norm is cached", w)
        elif o is not None and f == o[0] or o is not None and (f - o[0]).is_zero():
            check_eq(c, key + ":%snorm" % who, got[1], o[1], "cached norm", w)
        elif f.is_const() or walk.definite(f, seen): c.viol(key + ":%snorm" % who, "the norm cached before the operation is still served (state %s)" % str(f)[:100], w)
        elif op != "resize" and served(V, f, o and o[0]): c.viol(key + ":%snorm" % who, "for %s the norm cached before the operation is still served" % served(V, f, o and o[0]), w)
        else: c.undecided(key + ":%snorm" % who, "the state of the norm is %s" % str(f)[:100], w)
        m = got[2]
        if m.is_zero() or o is not None and m == o[2]: c.ok(key + ":%scounts" % who, "the table of counts is empty or that of the source", w)
        elif m.is_const() or walk.definite(m, seen): c.viol(key + ":%scounts" % who, "the counts cached before the operation are still served (%s)" % str(m)[:100], w)
        elif op != "resize" and served(V, m, o and o[2]): c.viol(key + ":%scounts" % who, "for %s the counts cached before the operation are still served" % served(V, m, o and o[2]), w)
        else: c.undecided(key + ":%scounts" % who, "the table is %s" % str(m)[:100], w)

def served(V, p, right):
    """square matrices for which the state afterwards is one left over from before (a condition on shapes alone)"""
    if "A" not in V: return None
    A = V["A"]
    offs = set()
    for x in (A[4], A[5]):
        a = P(x).single()
        if a is None or a[0] != "ld": return None
        offs.add(subst(a[1], {("arg", "A"): ZERO}))
    for n in (1, 2):
        env = {}
        for q in all_atoms(p):
            if isinstance(q, tuple) and q[0] == "ld" and any(subst(q[1], {r: ZERO}) in offs for r in all_atoms(q[1]) if isinstance(r, tuple) and r[0] == "arg"): env[q] = P(n)
        for x, v in ((A[3], n * n), (A[4], n), (A[5], n), (A[0], 1), (A[2], 7)):
            a = P(x).single()
            if a is not None: env[a] = P(v)
        if "B" in V:
            for x, v in ((V["B"][0], 0), (V["B"][2], 9)):
                a = P(x).single()
                if a is not None and a not in env: env[a] = P(v)
        got = walk.settle(p, env); want = walk.settle(right, env) if right is not None else ZERO
        if got.is_const() and want.is_const() and not got.is_zero() and got != want: return "%d x %d matrices" % (n, n)
    return None

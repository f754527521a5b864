"""P19: blocking partitions a matrix completely and without overlap; blocked products sum the products of matching blocks."""
import itertools
from vlib import *
from mat import *
from ir import ZERO, TRUE, FALSE, all_atoms, subst, P, mk_sum, mk_ite, dnf_and, cmp_int, polys_in
from cells import ev

INC = [VERIF + "/stubs/gtest"]
F = dict(flags=["-fno-access-control"])

# ---- small helpers -------------------------------------------------------------------------------------------------------------
def probe1(S, fn, tag, k):
    r = [[fn.resolve(v) if isinstance(v, Poly) else v for v in vs] for t, vs, b, o, I in S.probes if t == tag]
    if len(r) != 1 or len(r[0]) != k: raise Undecided("the result is not probed exactly once")
    return r[0]

def names(vals, tag, fields):
    """bind the atoms a probe shows to names"""
    env = {}
    for f, v in zip(fields, vals):
        s = v.single() if isinstance(v, Poly) else None
        if isinstance(s, tuple) and s[0] in ("ld", "udiv"): env.setdefault(s, n(tag + "." + f))
    return env

def nm(p, env):
    """rename, innermost first, until nothing changes"""
    for _ in range(6):
        q = subst(p, env)
        q = subst(q, {a: P(tuple(nm(x, env) if isinstance(x, Poly) else x for x in a)) for a in q.atoms() if isinstance(a, tuple) and a[0] in ("fn", "ld", "udiv", "sum") and a not in env}) if any(isinstance(a, tuple) and a[0] in ("fn",) for a in q.atoms()) else q
        if q == p: return q
        p = q
    return p

def ci(p):
    """an integer constant, or None"""
    return int(p.const()) if p.is_const() and p.const() == int(p.const()) else None

def within(p, env):
    """p with the literals of env decided, also inside sums"""
    for _ in range(4):
        e2 = {}
        for a in all_atoms(p):
            if isinstance(a, tuple) and a[0] == "ite":
                t = [all((a2 in env and env[a2] == pol) for a2, pol in cl) for cl in a[1]]
                f = [any((a2 in env and env[a2] != pol) for a2, pol in cl) for cl in a[1]]
                if any(t): e2[a] = a[2]
                elif all(f): e2[a] = a[3]
        if not e2: return p
        p = subst(p, e2)
    return p

def opaque(p): return [a for a in all_atoms(p) if isinstance(a, tuple) and a[0] in ("call", "phi", "phiout", "undef", "gep") or a is None]
def dnf_atoms(g): return {x for cc in g for (x, _) in cc}

def eq(c, key, got, want, msg, where):
    if got == want: c.ok(key, "%s: %s" % (msg, show(want)), where)
    elif opaque(got - want) or any(isinstance(a, tuple) and (a[0] == "ite" or a[0] == "ld" and (len(a) > 3 or any(isinstance(x, tuple) and x[0] in ("alloc", "obj") for x in all_atoms(a[1])))) for a in all_atoms(got - want)): c.undecided(key, "%s: %s instead of %s" % (msg, show(got), show(want)), where)
    else: c.viol(key, "%s: %s instead of %s" % (msg, show(got), show(want)), where)

BF = ["r", "c", "s", "ur", "uc", "size", "p"]

def blocked(S, fn, tag, env, fields=BF):
    v = probe1(S, fn, tag, 7); env.update(names(v, tag, fields))
    env[("n", tag + ".size")] = env[("n", tag + ".s")] = n(tag + ".r") * n(tag + ".c")
    return v

def shape(c, S, fn, name, tag, want, env, where):
    v = [nm(x, env) for x in probe1(S, fn, tag, 7)[:6]]
    for f, x, w in zip(("block rows", "block columns", "blocks", "rows", "columns", "stored blocks"), v, want): eq(c, "%s-%s" % (name, f.replace(" ", "-")), x, w, "number of " + f, where)

def grid(loops, nr, nc, env):
    """the loops of a walk over all blocks: (row variable, column variable), or None with the reason"""
    if len(loops) != 2: return None, "blocks are not visited by two nested loops"
    ext = [nm(x, env) for _, x in loops]
    for a, b in ((0, 1), (1, 0)):
        if ext[a] == nr and ext[b] == nc: return (loops[a][0], loops[b][0]), None
    return None, "the loops run over %s and %s blocks instead of %s and %s" % (show(ext[0]), show(ext[1]), show(nr), show(nc))

# ---- cutting -------------------------------------------------------------------------------------------------------------------
def cutting(c, fn):
    S = ir.summarise(fn); env = {}
    A = probe1(S, fn, "A", 6); env.update(names(A, "A", DENSE)); env[("n", "A.s")] = env[("n", "A.ss")] = n("A.r") * n("A.c")
    L = probe1(S, fn, "lists", 4); env.update(names(L, "L", ["rp", "rn", "cp", "cn"]))
    B = probe1(S, fn, "B", 7); where = where_in(fn, "BlockedMatrixGenerator.h")
    N, M = n("L.rn"), n("L.cn")
    shape(c, S, fn, "cut", "B", [N, M, N * M, n("A.r"), n("A.c"), N * M], env, where)
    base = B[6].single()
    es = [e for e in S.effects if e.base == base]
    if len(es) != 1: c.undecided("cut-blocks", "the blocks are stored by %d stores" % len(es), where); return
    e = es[0]
    if e.guard != TRUE: c.undecided("cut-blocks", "blocks are stored under a condition", where); return
    g, why = grid(e.loops, N, M, env)
    if g is None:
        bad = len(e.loops) == 2 and not any(opaque(x) for _, x in e.loops)
        (c.viol if bad else c.undecided)("cut-every-block", why, where); return
    c.ok("cut-every-block", "one block for every pair of list entries", where)
    i, j = g; I, J = n("i"), n("j"); ren = {i: I, j: J}
    def z(p): return subst(nm(fn.resolve(p), env), ren)
    eq(c, "cut-position", z(e.addr), 8 * (I + N * J), "position of block (i, j) in the blocked matrix", where)
    v = fn.resolve(e.value).single()
    if not (isinstance(v, tuple) and v[0] == "fn" and v[1] == "convert"): c.undecided("cut-content", "a block is not the conversion of one part of the matrix: %s" % show(e.value)[:200], where); return
    def sums(lst, upto):
        b = ("bv", "s"); return mk_sum(b, upto, P(("ld", n(lst) + 8 * P(b), 8)))
    # the same sums, built from the lists that were probed
    def part(ptr, upto):
        b = ("b1",); return b, P(("ld", ptr + 8 * P(b), 8))
    data, r, cc, ld, t = [within(fn.resolve(x), {("eq", L[1]): False, ("eq", L[3]): False}) for x in v[2:]]
    R = lambda k: P(("ld", L[0] + 8 * k, 8)); C = lambda k: P(("ld", L[2] + 8 * k, 8))
    b = ("iv", "b")
    want = A[5] + 8 * mk_sum(b, P(i), R(P(b))) + 8 * A[1] * mk_sum(b, P(j), C(P(b)))
    eq(c, "cut-origin", data, want, "block (i, j) starts after the rows of the blocks above it and the columns of the blocks left of it", where)
    eq(c, "cut-rows", r, R(P(i)), "rows of block (i, j)", where)
    eq(c, "cut-columns", cc, C(P(j)), "columns of block (i, j)", where)
    eq(c, "cut-stride", ld, A[1], "distance between the columns of a block", where)
    eq(c, "cut-threshold", t, P(("arg", "t")), "conversion threshold", where)

# ---- joining -------------------------------------------------------------------------------------------------------------------
def joining(c, fn):
    S = ir.summarise(fn); env = {}
    B = blocked(S, fn, "B", env); where = where_in(fn, "DenseMatrix.h")
    C = [nm(x, env) for x in probe1(S, fn, "C", 6)]
    for f, x, w in zip(("element size", "rows", "columns", "size", "stored elements"), C, [P(8), n("B.ur"), n("B.uc"), n("B.ur") * n("B.uc"), n("B.ur") * n("B.uc")]): eq(c, "join-" + f.replace(" ", "-"), x, w, f, where)
    cp = [(vs, b, o, I) for t, vs, b, o, I in S.probes if t == "copy"]
    if len(cp) != 1: c.undecided("join-blocks", "blocks are copied at %d places" % len(cp), where); return
    vs, b, o, I = cp[0]
    vs = [fn.resolve(x) for x in vs]
    loops = [(v, fn.resolve(x)) for v, x in fn.block_loops(b)] if hasattr(fn, "block_loops") else None
    if loops is None:
        call = [e for e in S.calls if e.callee == "vp_fn_data" and e.order < o]
        if not call: raise Undecided("no block is read before it is copied")
        loops = call[-1].loops
        if call[-1].guard != TRUE or fn.resolve(vs[0]).single() is None: raise Undecided("blocks are copied under a condition")
    N, M = n("B.r"), n("B.c")
    g, why = grid(loops, N, M, env)
    if g is None:
        bad = len(loops) == 2 and not any(opaque(x) for _, x in loops)
        (c.viol if bad else c.undecided)("join-every-block", why, where); return
    c.ok("join-every-block", "every block is copied", where)
    i, j = g
    size = B[6]
    def block_index(p):
        """(row, column) of the block at an address B.p + 8*(x + rows*y)"""
        d = p - size; row = B[0].single()
        x, y = ZERO, ZERO
        for m, k in d.t.items():
            if k % 8: return None
            if m.count(row) == 1: y = y + Poly({tuple(a for a in m if a != row): k // 8})
            elif row in m: return None
            else: x = x + Poly({m: k // 8})
        return x, y
    def z(p):
        """rows(block(i, j)) is the height of block row i, columns(block(i, j)) the width of block column j"""
        out = p
        for _ in range(4):
            env2 = {}
            for a in all_atoms(out):
                if isinstance(a, tuple) and a[0] == "fn" and a[1] in ("rows", "columns"):
                    s = a[2].single()
                    if not (isinstance(s, tuple) and s[0] == "ld"): continue
                    q = block_index(s[1])
                    if q is None: continue
                    env2[a] = P(("H", q[0])) if a[1] == "rows" else P(("W", q[1]))
            if not env2: break
            out = subst(out, env2)
        # with no block columns nothing is copied
        return within(out, {("eq", B[1]): False, ("eq", B[0]): False}) if any(isinstance(a, tuple) and a[0] == "ite" for a in all_atoms(out)) else out
    blk = P(("ld", size + 8 * P(i) + 8 * B[0] * P(j), 8))
    eq(c, "join-source", vs[0], P(("fn", "data", blk)), "what is copied is block (i, j)", where)
    bb = ("iv", "b")
    H = lambda k: P(("H", k)); W = lambda k: P(("W", k))
    own = probe1(S, fn, "C", 6)[5]
    for key, got, want, msg in (("join-target", vs[3], own + 8 * mk_sum(bb, P(i), H(P(bb))) + 8 * B[3] * mk_sum(bb, P(j), W(P(bb))), "block (i, j) goes below the blocks above it and right of the blocks left of it"),
                                ("join-rows", vs[1], H(P(i)), "rows taken from the block"), ("join-columns", vs[2], W(P(j)), "columns taken from the block"),
                                ("join-target-rows", vs[4], H(P(i)), "rows written"), ("join-target-columns", vs[5], W(P(j)), "columns written"), ("join-stride", z(vs[6]), B[3], "distance between columns of the result")):
        eq(c, key, z(got), want, msg, where)

class Wrong(Exception): pass

# ---- products ------------------------------------------------------------------------------------------------------------------
def lit_value(a, env):
    if a[0] in ("eq", "lt"):
        v = ci(subst(a[1], env))
        if v is None: return None
        return v == 0 if a[0] == "eq" else v < 0
    return None

def holds(g, env, facts):
    """is a guard true at this point; facts: literals assumed"""
    unknown = None
    for cl in g:
        st = True
        for a, pol in cl:
            v = lit_value(a, env)
            if v is None: v = facts(a, env)
            if v is None: st = None; unknown = a
            elif v != pol: st = False; break
        if st: return True
    if unknown is not None: raise Undecided("whether a block is computed depends on %s" % (unknown,))
    return False

def product(c, name, fn, K):
    """for K inner blocks and any block (i, j): the products summed there"""
    S = ir.summarise(fn); env = {}
    A = blocked(S, fn, "A", env); B = blocked(S, fn, "B", env)
    where = where_in(fn, "BlockedMatrix.h", "Multiplication")
    N, M = n("A.r"), n("B.c")
    key = "%s-%d" % (name, K)
    if K == 1: shape(c, S, fn, name, "C", [N, M, N * M, n("A.ur"), n("B.uc"), N * M], env, where)
    out = probe1(S, fn, "C", 7)[6]
    es = [e for e in S.effects if e.kind in ("store", "copy", "set") and (P(e.base) == out or out.single() == e.base)]
    if not es: c.undecided(key, "no block of the result is stored", where); return
    kk = {("n", "A.c"): P(K), ("n", "B.r"): P(K)}
    # the same for the raw atoms
    raw = {A[1].single(): P(K), B[0].single(): P(K)}
    rename = {A[0].single(): N, B[1].single(): M, A[3].single(): n("A.ur")}
    def z(p): return subst(subst(fn.resolve(p), raw), rename)
    def facts(a, env):
        if a[0] == "eq":
            p = a[1]
            if p.t and p.atoms() <= N.atoms() | M.atoms() and (all(q > 0 for q in p.t.values()) or all(q < 0 for q in p.t.values())): return False
            if any(isinstance(t, tuple) and t[0] == "alloc" for t in all_atoms(p)): return False
        return None
    state = {}          # result block -> list of (left, right)
    i0, j0 = n("i"), n("j")
    def block(p, tag, ptr, rows):
        d = subst(subst(p, raw), rename) - subst(subst(ptr, raw), rename); x, y = ZERO, ZERO
        r = subst(subst(rows, raw), rename); rs = r.single(); rc = ci(r)
        for m, k in d.t.items():
            if k % 8: raise Undecided("a block is not addressed by its number: %s" % show(p))
            if rc is None and rs in m: y = y + Poly({tuple(a for a in m if a != rs): k // 8})
            else: x = x + Poly({m: k // 8})
        if rc is not None:
            q = {}                                # p = 8*(x + K*y): split by divisibility; the row part is a number below K, or a variable of the walk
            x, y = ZERO, ZERO
            for m, k in d.t.items():
                k //= 8
                if m == (): x = x + k % rc; y = y + k // rc
                elif k % rc == 0: y = y + Poly({m: k // rc})
                else: raise Undecided("the row of a block is %s" % show(d))
        return x, y
    def value(v, env, at, prev):
        s = v.single()
        if isinstance(s, tuple) and s[0] == "fn" and s[1] == "mul":
            l, r = [subst(x, env).single() for x in s[2:]]
            for x, own, other in ((l, A, B), (r, B, A)):
                if not (isinstance(x, tuple) and x[0] == "ld"): raise Undecided("a factor is not a block: %s" % show(P(x)))
                if own[6].single() not in x[1].atoms() and other[6].single() in x[1].atoms(): raise Wrong("a block of the wrong matrix is a factor")
            return [(block(l[1], "A", A[6], A[0]), block(r[1], "B", B[6], B[0]))]
        if isinstance(s, tuple) and s[0] == "fn" and s[1] == "add": return value(s[2], env, at, prev) + value(s[3], env, at, prev)
        if isinstance(s, tuple) and s[0] == "ite": return value(s[2] if holds(s[1], env, facts) else s[3], env, at, prev)
        if isinstance(s, tuple) and s[0] == "phi": return fold(s[1], env, at, prev)
        if isinstance(s, tuple) and s[0] == "ld":
            a = subst(subst(subst(s[1], raw), rename), env)
            if a == at:
                if prev is None: raise Undecided("a block is read before it is computed")
                return list(prev)
        raise Undecided("a result block is %s" % show(v)[:160])
    def fold(i, env, at, prev):
        """value of a loop variable at the iteration given in env"""
        l = fn.bloop[fn.iblock[i]]; ph = fn.inst[i]
        it = env.get(("iv", l))
        it = ci(it) if it is not None else None
        if it is None: raise Undecided("a running value is used outside its loop")
        init = [(b, o) for b, o in ph["ops"] if b not in fn.lblocks[l] and b in fn.live]; lat = [(b, o) for b, o in ph["ops"] if b in fn.lblocks[l]]
        if len(init) != 1 or len(lat) != 1: raise Undecided("a running value has several sources")
        if it == 0: return value(z(fn.val(init[0][1], init[0][0])), env, at, prev)
        e2 = dict(env); e2[("iv", l)] = P(it - 1)
        return value(z(fn.val(lat[0][1], lat[0][0])), e2, at, prev)
    cur = None
    for e in sorted(es, key=lambda e: e.order):
        if e.kind != "store": raise Undecided("blocks of the result are moved")
        vs = [(v, z(x)) for v, x in e.loops]
        iv_ = [v for v, x in vs if x == N]; jv = [v for v, x in vs if x == M]
        if len(iv_) != 1 or len(jv) != 1:
            definite = not any(opaque(x) for _, x in vs) and all(ci(x) is not None or x in (N, M) or x.atoms() <= {("n", "A.r"), ("n", "B.c")} for _, x in vs)
            (c.viol if definite else c.undecided)(key, "the result's blocks are not all visited: the loops run over %s" % ", ".join(show(x) for _, x in vs), where); return
        e0 = {iv_[0]: i0, jv[0]: j0}
        rest = [(v, x) for v, x in vs if v not in e0]
        adr = subst(z(e.addr), e0)
        wantp = 8 * (i0 + N * j0)
        inner = []
        def runs(k, env):
            if k == len(rest): inner.append(dict(env)); return
            x = ci(subst(rest[k][1], env))
            if x is None: raise Undecided("a loop runs %s times" % show(rest[k][1]))
            for q in range(x): runs(k + 1, {**env, rest[k][0]: P(q)})
        runs(0, e0)
        for env2 in inner:
            if not holds(frozenset(frozenset((tuple(z(x) if isinstance(x, Poly) else x for x in a), pol) for a, pol in cl) for cl in e.guard), env2, facts): continue
            a = subst(adr, env2)
            if a != wantp:
                if opaque(a) : raise Undecided("which block is stored is computed")
                c.viol(key, "block %s of the result is stored instead of block (i, j)" % show(a), where); return
            cur = value(z(e.value), env2, subst(z(out), env2) + a, cur)
    if cur is None: c.viol(key, "with %d inner blocks nothing is stored" % K, where); return
    want = sorted((str((i0, P(k))), str((P(k), j0))) for k in range(K))
    got = sorted((str(l), str(r)) for l, r in cur)
    if got == want: c.ok(key, "block (i, j) = sum of A(i, k) * B(k, j), k < %d" % K, where)
    else: c.viol(key, "block (i, j) sums the products %s with %d inner blocks" % ([("A(%s, %s)" % tuple(map(show, l)), "B(%s, %s)" % tuple(map(show, r))) for l, r in cur][:4], K), where)

# ---- tables --------------------------------------------------------------------------------------------------------------------
def table(c, name, fn, cells):
    S = ir.summarise(fn); env = {}
    B = blocked(S, fn, "B", env); where = where_in(fn, "GenerateTypeMatrix.h")
    T = [nm(x, env) for x in probe1(S, fn, "T", 6)]
    N, M = n("B.r"), n("B.c")
    for f, x, w in zip(("rows", "columns", "size", "elements"), T[1:5], (N, M, N * M, N * M)): eq(c, "%s-%s" % (name, f), x, w, f, where)
    base = probe1(S, fn, "T", 6)[5].single(); esz = ci(T[0])
    es = [e for e in S.effects if e.base == base]
    seen = {}
    for e in es:
        ln = [(v, nm(fn.resolve(x), env)) for v, x in e.loops]
        if e.kind != "store" or len(ln) != 1 or ln[0][1] != N * M: c.undecided(name, "the table is not filled by one walk over all blocks", where); return
        v = ln[0][0]; a = fn.resolve(e.addr); off = ci(a - esz * P(v))
        if off is None: c.viol(name, "entry %s is filled for block %s" % (show(a), show(P(v))), where) if not opaque(a) else c.undecided(name, "which entry is filled is computed", where); return
        seen.setdefault(off, []).append((e, v))
    for off, what in cells:
        if off not in seen: c.viol("%s-%s" % (name, what), "the table's %s are not filled" % what, where); continue
        blk = lambda v: P(("ld", B[6] + 8 * P(v), 8))
        vals = [(fn.resolve(e.value), P(("fn", what, blk(v)))) for e, v in seen[off]]
        # one case per type of block: together they cover every type
        if all(g == w for g, w in vals):
            gs = frozenset().union(*[e.guard for e, _ in seen[off]])
            if gs == TRUE or total_cases(gs): c.ok("%s-%s" % (name, what), "entry of block k = its %s" % what, where)
            else: c.undecided("%s-%s" % (name, what), "the entry is filled under a condition", where)
        else:
            g, w = [x for x in vals if x[0] != x[1]][0]
            eq(c, "%s-%s" % (name, what), g, w, "entry of block k", where)

def total_cases(g):
    """cases on one quantity: each value excluded by the last case has its own"""
    eqs = {a for cl in g for a, pol in cl}
    if any(a[0] != "eq" for a in eqs) or len(eqs) > 16: return False
    key = {str(a[1] - (a[1].t.get((), 0))) for a in eqs}
    if len(key) > 1: return False
    for true in [None] + sorted(eqs, key=str):
        if not any(all((a == true) == pol for a, pol in cl) for cl in g): return False
    return True

def counts(c, fn):
    S = ir.summarise(fn); env = {}
    B = blocked(S, fn, "B", env); where = where_in(fn, "GenerateTypeMatrix.h")
    inc = [e for e in S.effects if e.kind == "store" and e.loops and any(isinstance(a, tuple) and a[0] == "fn" and a[1] == "type" for a in all_atoms(fn.resolve(e.addr)))]
    if len(inc) != 1: c.undecided("counts", "types are counted at %d places" % len(inc), where); return
    e = inc[0]; ln = [(v, nm(fn.resolve(x), env)) for v, x in e.loops]
    if len(ln) != 1: c.undecided("counts-every-block", "the blocks are not walked by one loop", where); return
    eq(c, "counts-every-block", ln[0][1], n("B.r") * n("B.c"), "blocks counted", where)
    blk = P(("ld", B[6] + 8 * P(ln[0][0]), 8))
    eq(c, "counts-entry", fn.resolve(e.addr), 8 * P(("fn", "type", blk)), "entry that counts block k", where)
    v = fn.resolve(e.value); own = [a for a in v.atoms() if isinstance(a, tuple) and a[0] == "ld"]
    if len(own) == 1 and v.t == {(own[0],): 1, (): 1}: c.ok("counts-by-one", "each block counts once", where)
    elif len(own) == 1 and set(v.t) <= {(own[0],), ()}: c.viol("counts-by-one", "each block counts %s" % show(v), where)
    else: c.undecided("counts-by-one", "an entry becomes %s" % show(v), where)
    size = 8 * ci(probe1(S, fn, "out", 2)[1])
    first = [x for x in S.effects if x.base == e.base and x.order < e.order]
    zero = set()
    for x in first:
        a = fn.resolve(x.addr)
        if x.kind == "set" and ci(a) is not None and ci(fn.resolve(x.value)) == 0:
            l = getattr(x, "size", None); l = ci(fn.resolve(l)) if isinstance(l, Poly) else None
            if l is None and getattr(x, "elem", None) is not None: l = None
            zero |= set(range(ci(a), ci(a) + (l if l is not None else size)))
        elif x.kind == "store" and ci(fn.resolve(x.value)) == 0:
            if ci(a) is not None: zero |= set(range(ci(a), ci(a) + 8))
            elif len(x.loops) == 1 and ci(fn.resolve(x.loops[0][1])) is not None:
                for q in range(ci(fn.resolve(x.loops[0][1]))):
                    y = ci(subst(a, {x.loops[0][0]: P(q)}))
                    if y is not None: zero |= set(range(y, y + 8))
        else: c.undecided("counts-from-zero", "the counters are set by %s" % x.kind, where); return
    if e.base[0] not in ("obj", "arg", "alloc"): c.undecided("counts-from-zero", "the counters are not a local array", where)
    elif e.base[0] == "arg": c.undecided("counts-from-zero", "the counters are the caller's", where)
    else: c.ob("counts-from-zero", zero >= set(range(size)), "the counters start from zero" if zero >= set(range(size)) else "counting starts from memory that was never set (%d of %d bytes are)" % (len(zero), size), where)

# ---- block sizes ---------------------------------------------------------------------------------------------------------------
def order(c, fn):
    S = ir.summarise(fn); v = probe1(S, fn, "v", 2); r = probe1(S, fn, "r", 2); where = where_in(fn, "BlockSizeGenerator.h")
    size = v[1]; num, den = size.single()[1:3] if isinstance(size.single(), tuple) and size.single()[0] == "udiv" else (None, None)
    if num is None: raise Undecided("the length of the list is %s" % show(size))
    env = {("eq", num): False, ("eq", -num): False, ("eq", num - 8): False, ("eq", 8 - num): False}
    def z(p): return within(fn.resolve(p), env)
    base = z(r[0]); cnt = z(r[1])
    eq(c, "order-length", cnt, size, "number of indices", where)
    es = [e for e in S.effects if z(P(e.base)) == base or P(e.base) == base]
    last = [e for e in es if e.kind == "store" and len(e.loops) == 1 and z(e.loops[0][1]) == size and z(e.addr) == 8 * P(e.loops[0][0])]
    if not last: c.undecided("order-indices", "the list of indices is not filled by one walk", where); return
    f = last[-1]
    eq(c, "order-indices", z(f.value), P(f.loops[0][0]), "entry k before sorting", where)
    after = [e for e in es if e.order > f.order]
    if after: c.undecided("order-permuted", "indices are changed after they are filled in", where); return
    touch = [e for e in S.calls if any(base.single() in all_atoms(z(a)) for a in e.args) and not re_quiet(e.callee)]
    bad = [e for e in touch if not e.callee.startswith(("_ZSt4sort", "_ZSt11stable_sort", "_ZSt12stable_sort"))]
    if bad: c.undecided("order-permuted", "the indices are handed to %s" % bad[0].callee[:60], where); return
    for e in touch:
        b, en = z(e.args[0]), z(e.args[1])
        if (b, en) != (base, base + 8 * size): c.undecided("order-permuted", "%s to %s is sorted" % (show(b), show(en)), where); return
    c.ok("order-permuted", "the indices are only sorted: each occurs exactly once", where)

def re_quiet(n): return n.startswith(("vp_probe", "_ZdlPv", "vp_dealloc", "llvm."))

def leaves(fn, o, b):
    """the values a web of loop and join variables may hold: [(operand, block it comes from)]"""
    out, seen, work = [], set(), [(o, b)]
    while work:
        o, b = work.pop()
        if isinstance(o, dict) and "v" in o and fn.inst.get(o["v"], {}).get("op") == "phi":
            if o["v"] in seen: continue
            seen.add(o["v"])
            for pb, x in fn.inst[o["v"]]["ops"]:
                if pb in fn.live: work.append((x, pb))
        else: out.append((o, b))
    return out

def sizes(c, fn):
    S = ir.summarise(fn); v = probe1(S, fn, "v", 2); r = probe1(S, fn, "r", 2); G = probe1(S, fn, "G", 2); where = where_in(fn, "BlockSizeGenerator.h")
    cnt = v[1]; calls = [e for e in S.calls if e.callee.startswith("vp_set_")]
    fin = [e for e in S.effects if len(e.loops) == 1 and e.kind == "store" and len(opaque(fn.resolve(e.value))) == 2]
    base = {P(e.base) for e in fin if P(e.base) == r[0] or e.base == r[0].single()}
    fin = [e for e in fin if P(e.base) in base]
    byid = {("call", e.I["id"]): e for e in calls}
    if len(fin) != 1: c.undecided("sizes-result", "block sizes are stored at %d places" % len(fin), where); return
    f = fin[0]; val = fn.resolve(f.value); k = f.loops[0][0]
    at = [(a, m) for m, a in val.t.items() for a in [a]]
    ps = [byid.get(m[0]) for m, q in val.t.items() if q == 1 and len(m) == 1]; ns = [byid.get(m[0]) for m, q in val.t.items() if q == -1 and len(m) == 1]
    if len(val.t) != 2 or len(ps) != 1 or len(ns) != 1 or None in ps + ns or any(e.callee != "vp_set_at" for e in ps + ns): c.undecided("sizes-result", "a block size is %s" % show(val)[:120], where); return
    hi, lo = ps[0], ns[0]; obj = fn.resolve(lo.args[0])
    if fn.resolve(hi.args[0]) != obj: c.undecided("sizes-result", "borders of two sets are combined", where); return
    adr = fn.resolve(f.addr)
    if (adr - 8 * P(k)) != ZERO and not opaque(adr): c.viol("sizes-position", "block size %s is stored at %s" % (show(P(k)), show(adr)), where)
    elif adr == 8 * P(k): c.ok("sizes-position", "block k at position k", where)
    else: c.undecided("sizes-position", "stored at %s" % show(adr), where)
    eq(c, "sizes-upper", fn.resolve(hi.args[1]), P(k) + 1, "a block ends at border", where)
    eq(c, "sizes-lower", fn.resolve(lo.args[1]), P(k), "a block begins at border", where)
    mine = [e for e in calls if fn.resolve(e.args[0]) == obj]
    grow = [e for e in mine if e.callee == "vp_set_insert"]; er = [e for e in mine if e.callee in ("vp_set_erase",)]; new = [e for e in mine if e.callee == "vp_set_new"]
    if er: c.undecided("sizes-borders-kept", "a border is taken out again", where)
    elif len(new) != 1 or new[0].loops: c.undecided("sizes-borders-kept", "the borders are started %d times" % len(new), where)
    else: c.ok("sizes-borders-kept", "no border is ever taken out", where)
    last = max(e.order for e in grow + er + new)
    def total(p):
        """p + 1 is the number of borders"""
        q = (p + 1).single(); e = byid.get(q)
        if e is None:
            q = p.single(); e = byid.get(q)
            return False if e is not None and e.callee == "vp_set_size" else None
        return e.callee == "vp_set_size" and fn.resolve(e.args[0]) == obj and e.order > last
    for key, p, msg in (("sizes-number", r[1], "one block fewer than borders"), ("sizes-filled", fn.resolve(f.loops[0][1]), "every block size is filled in")):
        t = total(p)
        # the loop may run over the length of the list itself
        if t is None and opaque(p) == []: t = False
        (c.undecided(key, "%s: %s" % (msg, show(p)), where) if t is None else c.ob(key, t, msg if t else "%s: there are %s" % (msg, show(p)), where))
    first = []; inner = []
    for e in grow:
        x = fn.resolve(e.args[1]); s = x.single()
        if e.order < min(q.order for q in calls if q.callee != "vp_set_insert" and q.callee != "vp_set_new") and len(e.loops) <= 1 and e.guard == TRUE: first.append((e, x))
        else: inner.append((e, x))
    start = []
    for e, x in first:
        ld = x.single()
        if isinstance(ld, tuple) and ld[0] == "ld" and len(e.loops) == 1:
            k2, ext = e.loops[0][0], ci(fn.resolve(e.loops[0][1]))
            if ext is None: raise Undecided("how many borders there are at the start is computed")
            for q in range(ext):
                a = subst(ld[1], {k2: P(q)})
                w = [s for s in S.effects if s.kind == "store" and P(s.base) + fn.resolve(s.addr) == a and s.order < e.order]
                if len(w) != 1: raise Undecided("a border at the start is not understood")
                start.append(fn.resolve(w[0].value))
        else: start.append(x)
    if not start: raise Undecided("no borders at the start")
    if any(opaque(x) for x in start): c.undecided("sizes-outer-borders", "the first borders are computed", where)
    else: c.ob("sizes-outer-borders", set(start) == {ZERO, cnt + 1}, "the outer borders are %s" % ", ".join(sorted(show(x) for x in set(start))), where)
    # borders added later are positions between two neighbours: a sorted index plus one
    idx = [e for e in S.calls if e.callee.startswith(("_ZSt4sort", "_ZSt11stable_sort", "_ZSt12stable_sort"))]
    for e, x in inner:
        key = "sizes-inner-border"
        if len(idx) != 1: c.undecided(key, "positions are not sorted exactly once", where); continue
        lst = fn.resolve(idx[0].args[0])
        lv = leaves(fn, e.I["ops"][1], e.block if hasattr(e, "block") else fn.iblock[e.I["id"]])
        for o, b in lv:
            if "undef" in o: continue
            val = fn.val(o, b); m = [a for a in val.atoms() if a != ()]
            ld = [a for a in all_atoms(val) if isinstance(a, tuple) and a[0] == "call" and fn.inst.get(a[1], {}).get("op") == "load"]
            src = fn.inst[ld[0][1]] if len(ld) == 1 else None
            off = val - P(ld[0]) if src is not None else None
            pa = fn.val(src["ops"][0], fn.iblock[src["id"]]) if src is not None else None
            if src is None:
                l2 = [a for a in val.atoms() if isinstance(a, tuple) and a[0] == "ld"]
                if len(l2) == 1: off = val - P(l2[0]); pa = l2[0][1]
            if pa is None or lst.single() not in pa.atoms() and not (lst.atoms() & pa.atoms()): c.undecided(key, "a border is %s" % show(val)[:160], where); continue
            if off == P(1): c.ok(key, "a border added later lies after one of the positions", where)
            elif ci(off) is not None: c.viol(key, "a border is put %d after its position" % ci(off), where)
            else: c.undecided(key, "a border is %s" % show(val)[:160], where); continue
            smallest(c, fn, S, calls, obj, val, b, G, where)

def smallest(c, fn, S, calls, obj, L, b, G, where):
    """a border is chosen only where both parts keep the smallest block size"""
    key = "sizes-smallest"
    mn = G[0]
    def find(callee, pred):
        return [P(("call", e.I["id"])) for e in calls if e.callee == callee and fn.val(e.I["ops"][0], fn.iblock[e.I["id"]]) == obj and pred(fn.val(e.I["ops"][1], fn.iblock[e.I["id"]]))]
    lows = find("vp_set_lower", lambda x: x == L); ups = find("vp_set_upper", lambda x: x == L)
    left = [L - p for q in lows for p in find("vp_set_at", lambda x: x == q - 1)]
    right = [p - L for q in ups for p in find("vp_set_at", lambda x: x == q)] + [p - L for q in lows for p in find("vp_set_at", lambda x: x == q)]
    if len(left) != 1 or len(right) != 1: c.undecided(key, "the neighbouring borders are not looked up", where); return
    l, r = left[0], right[0]
    lo, up = (L - l).single(), (r + L).single()
    g = fn.strict_guard(b)
    um = [a for cl in g for a, _ in cl for p in polys_in(a) for a in all_atoms(p) if isinstance(a, tuple) and a[0] == "umin" and {x for x in a[1:] if isinstance(x, Poly)} == {l, r}]
    worst = "ok"
    for cl in g:
        own, other = [], []
        for a, pol in cl:
            ps = list(polys_in(a)); d = None
            if a[0] == "lt":
                p = a[1]; p2 = subst(p, {u: P(("MIN",)) for u in um})
                al, be = -p2.t.get((lo,), 0), p2.t.get((up,), 0); mi = p2.t.get((("MIN",),), 0); ga = p2.t.get((mn.single(),), 0)
                k = ci(p2 - al * l - be * r - mi * P(("MIN",)) - ga * mn)
                if k is not None and (al or be or mi): d = lambda x, y, m, v=(al, be, mi, ga, k): v[0] * x + v[1] * y + v[2] * min(x, y) + v[3] * m + v[4] < 0
            if d: own.append((d, pol))
            else: other.append(a)
        bad = [(x, y, m) for x in range(1, 4) for y in range(1, 4) for m in range(1, 4) if (x < m or y < m) and all(f(x, y, m) == pol for f, pol in own)]
        if not bad: continue
        rel = set().union(*[all_atoms(x) for x in (l, r)]) - {a for a in all_atoms(L)}
        loose = [a for a in other if mn.single() in set().union(set(), *[all_atoms(p) for p in polys_in(a)])]
        # other conditions on the two parts: only the comparison with the largest part seen so far, which starts at nothing
        for a in other:
            at = set().union(set(), *[all_atoms(p) for p in polys_in(a)])
            if not (at & rel): continue
            ph = [x for x in at if isinstance(x, tuple) and x[0] == "phi"]
            okay = len(ph) == 1 and all(("c" in o and o["c"] == 0) or "undef" in o or isinstance(fn.val(o, pb).single(), tuple) and fn.val(o, pb).single()[0] == "umin" for o, pb in leaves(fn, {"v": ph[0][1]}, fn.iblock[ph[0][1]]))
            if not okay: loose.append(a)
        if loose: worst = "undecided" if worst == "ok" else worst
        else: worst = "viol"; case = bad[0]
    if worst == "ok": c.ok(key, "both parts of a divided block have at least the smallest block size", where)
    elif worst == "viol": c.viol(key, "a block is divided although a part is smaller than the smallest block size (parts %d and %d, smallest %d)" % case, where)
    else: c.undecided(key, "when a block is divided is not understood", where)

def heap(S, fn, p, order=None, depth=0):
    """value of a load from a one-element list, from the store that filled it"""
    p = fn.resolve(p)
    if depth > 6: return p
    env = {}
    for a in p.atoms():
        if isinstance(a, tuple) and a[0] == "ld":
            s = a[1].single()
            if isinstance(s, tuple) and s[0] == "ite": env[a] = mk_ite(s[1], heap(S, fn, P(("ld", s[2], a[2])), order, depth + 1), heap(S, fn, P(("ld", s[3], a[2])), order, depth + 1)); continue
            w = [e for e in S.effects if e.kind in ("store", "copy") and e.base == s and all(ci(fn.resolve(x)) == 1 for _, x in e.loops)]
            if len(w) == 1 and w[0].kind == "store" and subst(fn.resolve(w[0].addr), {v: ZERO for v, _ in w[0].loops}) == ZERO: env[a] = heap(S, fn, subst(fn.resolve(w[0].value), {v: ZERO for v, _ in w[0].loops}), None, depth + 1)
    return subst(p, env) if env else p

def use(c, mod):
    cut = lambda p: P(("fn", "cut", p))
    fn = mod["drv_limits"]
    with c.guard("limits"):
        S = ir.summarise(fn); v = probe1(S, fn, "G", 5); where = where_in(fn, "BlockSizeGenerator.h")
        eq(c, "limits-smallest", v[0], P(("arg", "a")), "smallest block size", where); eq(c, "limits-largest", v[1], P(("arg", "b")), "largest block size", where)
    fn = mod["drv_mult"]
    with c.guard("mult"):
        S = ir.summarise(fn); A = probe1(S, fn, "A", 6); B = probe1(S, fn, "B", 6); where = where_in(fn, "BlockSizeGenerator.h")
        for t, w, msg in (("r", (A[1],), "rows of the left matrix"), ("k", (A[2], B[1]), "columns of the left matrix"), ("c", (B[2],), "columns of the right matrix")):
            x = probe1(S, fn, t, 2)
            if x[0] != P(1): c.undecided("mult-" + t, "the list is not the one computed", where); continue
            got = heap(S, fn, x[1])
            if any(got == cut(q - 1) for q in w): c.ok("mult-" + t, "blocks of the " + msg, where)
            else: eq(c, "mult-" + t, got, cut(w[0] - 1), "blocks of the " + msg, where)
    fn = mod["drv_one"]
    with c.guard("one"):
        S = ir.summarise(fn); A = probe1(S, fn, "A", 6); where = where_in(fn, "BlockSizeGenerator.h")
        for t, q, msg in (("r", A[1], "rows"), ("c", A[2], "columns")):
            x = probe1(S, fn, t, 2)
            if x[0] != P(1): c.undecided("one-" + t, "the list is not the one computed", where); continue
            def cases(p):
                s = p.single()
                return cases(s[2]) + cases(s[3]) if isinstance(s, tuple) and s[0] == "ite" else [p]
            vals = cases(heap(S, fn, x[1]))
            for g in vals:
                if g in (q, cut(q - 1)): c.ok("one-" + t, "the %s are one block or divided" % msg, where)
                else: eq(c, "one-" + t, g, cut(q - 1), "blocks of the " + msg, where)

def run(c):
    c.rules = ["block (i, j) of a cut matrix is converted from the part that starts after the blocks above and left of it, with the listed shape; every pair of list entries has its block",
               "joining copies every block to the place that follows from the heights and widths of the blocks before it",
               "for one to three inner blocks and any outer shape, result block (i, j) is exactly the sum of A(i, k) * B(k, j)",
               "block sizes are differences of consecutive elements of an ordered set that starts as {0, n} and receives only positions between two neighbours; a block is divided only where both parts keep the smallest size",
               "tables of types, shapes and norms hold at each position the value of the block there; counting starts from zero"]
    c.assumptions = ["blocks of one block row have equally many rows, blocks of one block column equally many columns", "matrices have at least one row and column, and at least one block", "positions looked up in the sorted list lie inside it",
                     "std::set and std::sort behave as the standard says", "more than three inner blocks behave as two and three do (the loop is uniform)"]
    c.floor = 40
    D = VERIF + "/drivers/blocks.cpp"
    mods = c.loads([((D,), dict(defs=["PART" + p], tag="b" + p, **F)) for p in ("GEN", "JOIN", "MUL", "TABLE")] +
                   [((VERIF + "/drivers/blocksize.cpp",), dict(defs=["PART" + p], tag="s" + p, inc=INC, opts=["--opaque=^_ZSt(4sort|1[12]stable_sort)"], **F)) for p in ("ORDER", "SIZES", "USE")])
    g, j, m, t, o, s, u = mods
    with c.guard("cut"):
        if g: cutting(c, g["drv_generate"])
    with c.guard("join"):
        if j: joining(c, j["drv_join"])
    for name in ("drv_mul", "drv_expr"):
        for K in (1, 2, 3):
            with c.guard("%s-%d" % (name[4:], K)):
                try:
                    if m: product(c, name[4:], m[name], K)
                except Wrong as e: c.viol("%s-%d" % (name[4:], K), str(e), "include/BlasBooster/Core/Multiplication_Native.h")
    for name, cells in (("drv_types", [(0, "type")]), ("drv_sizes", [(0, "rows"), (8, "columns")]), ("drv_norms", [(0, "norm")])):
        with c.guard("table-" + name[4:]):
            if t: table(c, "table-" + name[4:], t[name], cells)
    with c.guard("counts"):
        if t: counts(c, t["drv_counts"])
    with c.guard("order"):
        if o: order(c, o["drv_order"])
    with c.guard("sizes"):
        if s: sizes(c, s["drv_sizes"])
    with c.guard("use"):
        if u: use(c, u)

"""Walks over a rectangle inside a larger matrix: a loop whose state (pointer, position in the line, line)
visits every element of N lines of S elements, ld elements apart, exactly once.
The claim is established inductively: the state at (line b, position q) is guessed from the initial values and
the three transitions (inside a line, to the next line, past the end) are checked symbolically."""
from mat import *

B, Q = ("iv", "wb"), ("iv", "wq")        # line, position
U, W, X = ("iv", "wu"), ("iv", "ww"), ("iv", "wx")   # slack: all non-negative

def sign(p):
    """definite sign of a polynomial over non-negative atoms, or None"""
    if p.is_zero(): return 0
    k = p.t.get((), 0)
    if any(a for m in p.t for a in m if not isinstance(a, tuple) or a[0] in ("ite", "ld", "phi")): return None
    if all(v > 0 for v in p.t.values()) and k > 0: return 1
    if all(v < 0 for v in p.t.values()) and k < 0: return -1
    return None

def lit(atom):
    """truth of an integer comparison atom (op, p): p op 0"""
    if atom[0] not in ("eq", "lt", "le", "ult", "ule", "slt", "sle"): return None
    s = sign(atom[1])
    if s is None: return None
    return s == 0 if atom[0] == "eq" else s < 0 if atom[0].endswith("lt") else s <= 0

def truth(g):
    """truth of a DNF under lit, or None"""
    best = False
    for conj in g:
        v = True
        for a, pol in conj:
            t = lit(a)
            if t is None: v = None if v is not False else False
            elif t != pol: v = False
        if v is True: return True
        if v is None: best = None
    return best

def settle(p, env):
    """substitute and resolve the decided ites (innermost first)"""
    p = subst(P(p), env)
    for _ in range(50):
        done = True
        for a in all_atoms(p):
            if isinstance(a, tuple) and a[0] == "ite":
                t = truth(a[1])
                if t is None: continue
                p = subst(p, {a: a[2] if t else a[3]}); done = False; break
            if isinstance(a, tuple) and a[0] == "bool" and len(a) == 2:
                t = truth(a[1])
                if t is None: continue
                p = subst(p, {a: P(int(t))}); done = False; break
        if done: return p
    return p

def definite(p, known=()): return not any(isinstance(a, tuple) and a[0] in ("ite", "phi", "ld", "call", "phiout") and a not in known for a in all_atoms(p))

class Walk:
    """status: ok / viol / undecided; env maps the loop's phis to their value at (line B, position Q)"""
    def __init__(s, D, l, base, ld, S, N, es):
        s.status, s.msg, s.env = "undecided", "", {}
        try: s.go(D, l, P(base), P(ld), P(S), P(N), es)
        except Undecided as e: s.msg = str(e)
    def go(s, D, l, base, ld, S, N, es):
        fn = D.fn; L = fn.loops[l]; h = L["header"]; body = fn.lblocks[l]
        blk = fn.blocks[h] if isinstance(fn.blocks, dict) else next(b for b in fn.blocks if b["id"] == h)
        phis = [i for i in blk["insts"] if i["op"] == "phi"]
        init, nxt = {}, {}
        for i in phis:
            a = ("phi", i["id"])
            for b, o in i["ops"]:
                if b not in fn.live: continue
                v = D.N(fn.val(o, b)); d = nxt if b in body else init
                if a in d and d[a] != v: raise Undecided("several back edges")
                d[a] = v
        ptr = [("phi", i["id"]) for i in phis if init[("phi", i["id"])] == base]
        if len(ptr) != 1: raise Undecided("the walking pointer does not start at the first element")
        ptr = ptr[0]; b, q = P(B), P(Q)
        exits = [(x, y) for x in body for y in fn.succs(x) if y not in body]
        if len(exits) != 1: raise Undecided("several exits")
        stay = dnf_not(D.Nd(fn.edge_cond(*exits[0])))
        Sa, Na, la = S.single(), N.single(), ld.single()
        if None in (Sa, Na, la): raise Undecided("shape is not symbolic")
        # assumptions of the three transitions: q < S, b < N, S <= ld
        inside = {Sa: q + 2 + P(U), Na: b + 1 + P(W), la: q + 2 + P(U) + P(X)}
        newl = {Sa: q + 1, Na: b + 2 + P(W), la: q + 1 + P(X)}
        last = {Sa: q + 1, Na: b + 1, la: q + 1 + P(X)}
        if Sa == Na:                  # a square rectangle: the line is expressed by the number of lines left
            inside = {Sa: q + 2 + P(U), la: q + 2 + P(U) + P(X), B: q + 1 + P(U) - P(W)}
            newl = {Sa: q + 1, la: q + 1 + P(X), B: q - 1 - P(W)}
            last = {Sa: q + 1, la: q + 1 + P(X), B: q}
        fixed = {a for a in all_atoms(base) if isinstance(a, tuple) and a[0] == "ld"}
        at = lambda bb, qq: base + es * (bb * ld + qq)
        st = {ptr: at(b, q)}
        # counters: any of these functions of the position that is inductive
        cand = lambda v0: [("column", lambda bb, qq: v0 + qq), ("line", lambda bb, qq: v0 + bb), ("column down", lambda bb, qq: v0 - qq), ("line down", lambda bb, qq: v0 - bb),
                           ("index", lambda bb, qq: v0 + bb * S + qq), ("index down", lambda bb, qq: v0 - bb * S - qq), ("line start", lambda bb, qq: v0 + bb * ld * es), ("line start elements", lambda bb, qq: v0 + bb * ld)]
        others = [a for a in init if a != ptr and definite(init[a])]
        used = set()
        work = [nxt[ptr]] + [P(("g", stay))]
        seen = set()
        while work:
            x = work.pop()
            for a in all_atoms(x):
                if a in nxt and a not in seen: seen.add(a); work.append(nxt[a])
        ctr = [a for a in others if a in seen and a != ptr]
        opts = [[(a, f) for f in cand(init[a])] for a in ctr]
        if len(ctr) > 3: raise Undecided("too many loop variables")
        import itertools
        best = None
        for ch in itertools.product(*opts):
            env = dict(st); fs = {ptr: at}
            for a, (nm, f) in ch: env[a] = f(b, q); fs[a] = f
            bad = []; und = []
            for case, asm, nx in (("inside a line", inside, (b, q + 1)), ("at the end of a line", newl, (b + 1, ZERO)), ("after the last element", last, None)):
                e2 = {k: subst(v, asm) for k, v in env.items()}
                sub = lambda p: settle(subst(p, e2), asm)
                t = truth_of(stay, e2, asm, D, base)
                bb, qq = nx or (None, None)
                if t is None: und.append((case, "whether the loop continues"))
                elif t is False: bad.append((0, "the walk stops %s although elements remain" % case))
                for a in fs:
                    got = sub(nxt[a])
                    if qq is None:
                        if a != ptr: continue
                        # the state after the last element must end the loop
                        e3 = {k: sub(nxt[k]) for k in fs}
                        t = truth_of(stay, e3, asm, D, base)
                        if t is None:         # a wider parent matrix is one of the cases
                            wide = {X: P(X) + 1}
                            t = True if truth_of(stay, {k: subst(v, wide) for k, v in e3.items()}, {k: subst(v, wide) for k, v in asm.items()}, D, base) is True else None
                        if t is None: und.append((case, "whether the loop ends"))
                        elif t: bad.append((0, "the walk does not stop after the last element: pointer %s" % show(e3[ptr])))
                        continue
                    want = settle(subst(fs[a](bb, qq), asm), asm)
                    if got != want:
                        (bad if definite(got, fixed) else und).append((0 if a == ptr else 1, "%s: %s becomes %s, should be %s" % (case, "the pointer" if a == ptr else "a counter", show(got), show(want))))
            for z in (Sa, Na):
                e0 = {z: ZERO}
                t = truth_of(stay, {a: subst(init[a], e0) for a in fs}, e0, D, base)
                if t is None: und.append(("empty", "whether an empty rectangle is skipped"))
                elif t: bad.append((0, "an empty rectangle is not skipped"))
            sc = (len(und), len(bad))
            if best is None or sc < best[0]: best = (sc, bad, und, env)
            if sc == (0, 0): break
        if best is None: raise Undecided("no state")
        (_, bad, und, env) = best
        # other loop variables that follow the position (not needed for the walk itself)
        if not bad and not und:
            for a in init:
                if a in env or not definite(init[a], fixed | {x for x in all_atoms(init[a]) if isinstance(x, tuple) and x[0] in ("ld", "alloc", "ite")}): continue
                for nm, f in cand(init[a]) + [("scaled %d" % k, lambda bb, qq, k=k, v0=init[a]: v0 + k * (bb * S + qq)) for k in (4, 8, 16)]:
                    ok = True
                    for case, asm, (bb, qq) in (("", inside, (b, q + 1)), ("", newl, (b + 1, ZERO))):
                        e2 = {k: subst(v, asm) for k, v in list(env.items()) + [(a, f(b, q))]}
                        if settle(subst(nxt[a], e2), asm) != settle(f(bb, qq), asm): ok = False
                    if ok: env[a] = f(b, q); break
        if bad: s.status, s.msg = "viol", bad[0][1]
        elif und: s.status, s.msg = "undecided", "%s: %s" % und[0]
        else: s.status, s.env = "ok", env

    def apply(s, D, l, S, N):
        """rewrite the summary: the loop becomes two nested counted loops"""
        import ir
        fn = D.fn
        b, q = P(B), P(Q); ix = b * P(S) + q
        env = dict(s.env)
        for e in D.S.effects:
            if not any(("btc", l) in all_atoms(x) or v == ("iv", l) for v, x in e.loops): continue
            loops = []
            for v, x in e.loops:
                if v == ("iv", l): loops += [(B, P(N)), (Q, P(S))]; env[v] = ix
                else: loops.append((v, x))
            e.loops = loops
            sub = lambda p: subst(p, env) if isinstance(p, Poly) else p
            e.addr = sub(e.addr); e.value = sub(e.value) if e.value is not None else None
            e.guard = renorm_dnf(subst_dnf(e.guard, env))
        # values read in the body are addressed through the walking pointer
        return env

def truth_of(g, env, asm, D, base):
    out = []
    for conj in g:
        c2 = []
        for a, pol in conj:
            if not (isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], Poly)): c2.append((a, pol)); continue
            p = settle(subst(a[1], env), asm)
            c2.append(((a[0], p), pol))
        out.append(frozenset(c2))
    return truth(frozenset(out))

"""The merge rule: C = A +- B for two compressed lists, decided by an inductive step argument on the merge loop.

Cursor positions are recovered as symbols: every header variable of the merge loop must be  base + size * position
with one common position per operand; the three outcomes of the key comparison are analysed separately."""
from mat import *

def case_dnf(g, case):
    """evaluate the comparison literals of guard g under a scenario: ka-kb  <, >, == 0 (sign None: not both lines have
    elements left), and, for a loop which runs until both lines are used up, which of them are; case = (kd, sign, ends)
    with ends = [(position - end, used up?)]"""
    kd, sg, ends = case
    out = FALSE
    for c in g:
        r = TRUE
        for (a, pol) in c:
            t = None
            if a[0] in ("lt", "eq") and sg is not None:
                for x, s_ in ((kd, sg), (-kd, -sg)):
                    if a[0] == "lt" and a[1] == x: t = s_ < 0
                    elif a[0] == "lt" and a[1] == x - 1: t = s_ <= 0     # x < 1
                    elif a[0] == "lt" and a[1] == x + 1: t = s_ < 0
                    elif a[0] == "eq" and a[1] == x: t = s_ == 0
            if a[0] in ("lt", "eq"):
                for d, e in ends:
                    if a[0] == "eq" and a[1] in (d, -d): t = e
                    elif a[0] == "lt" and a[1] == d: t = not e
                    elif a[0] == "lt" and a[1] == -d: t = False          # never past the end
                    elif a[0] == "lt" and a[1] == -d - 1: t = e
                    elif a[0] == "lt" and a[1] == d - 1: t = True
            if t is None: r = dnf_and(r, lit(a, pol))
            elif t != pol: r = FALSE
        out = dnf_or(out, r)
    return out

def case_poly(p, case):
    def fa(a):
        if isinstance(a, tuple) and a[0] == "ite":
            g = case_dnf(a[1], case)
            x, y = case_poly(a[2], case), case_poly(a[3], case)
            if g == TRUE: return x
            if not g: return y
            return mk_ite(g, x, y)
        return P(a)
    return map_atoms(p, fa)

class Merge:
    def __init__(s, c, name, D, sgn):
        s.c, s.name, s.D, s.fn, s.sgn = c, name, D, D.fn, sgn
        s.A, s.B, s.C = D.m("A"), D.m("B"), D.m("C")
        s.N, s.L = D.lineN("A")
    def ob(s, what, got, want, msg, where=""): check_eq(s.c, s.name + ":" + what, got, want, msg, where, known=("btc(", "*("))
    def run(s):
        D, fn = s.D, s.fn
        un = []
        for l in fn.loops:
            if not fn.exits(l): continue
            x = (fn.extent(l, fn.loops[l]["header"]) - 1).single()
            if x is not None and x[0] == "btc" and x[1] == l: un.append(l)
        if len(un) != 1: raise Undecided("expected one merge loop, found %d" % len(un))
        W = un[0]; par = fn.loops[W]["parent"]
        if par == -1: raise Undecided("the merge loop is not inside a loop over the lines")
        hd = fn.loops[W]["header"]
        i = P(("iv", par))
        oA, oB = (lambda x: el("A.o", x)), (lambda x: el("B.o", x))
        # header variables -> positions
        pos = {"A": P(("n", "pa")), "B": P(("n", "pb"))}; outp = {t: P(("n'", "p%s'" % t.lower(), i)) for t in "AB"}
        env, back = {}, {}
        kdiff = el("A.k", pos["A"]) - el("B.k", pos["B"])
        phis = [I for I in fn.blocks[hd]["insts"] if I["op"] == "phi"]
        seen = {"A": [], "B": []}
        todo = []
        for I in phis:
            a = ("phi", I["id"])
            if fn.ival(I["id"]) != P(a): continue                   # induction variable
            ini = [fn.val(o, b) for b, o in I["ops"] if b not in fn.lblocks[W] and b in fn.live]
            lat = [(b, o) for b, o in I["ops"] if b in fn.lblocks[W]]
            if len(ini) != 1: raise Undecided("merge loop with several entries")
            ini = D.N(ini[0]); hit = None
            for t in "AB":
                for f in ("k", "v"):
                    rg = D.regions[t + "." + f]
                    base, off = base_and_offset(ini, is_ptr_atom(fn))
                    if base is not None and D.N(P(rg.base)) == P(base) or base == rg.base: hit = (t, f, P(rg.base), P(rg.esize), off)
                if hit is None and ini == oA(i) and t == "A" or hit is None and ini == oB(i) and t == "B": hit = (t, "", ZERO, ONE, ini)
            if hit is None:
                todo.append(I); continue
            t, f, base, es, off = hit
            env[a] = base + es * pos[t]
            seen[t].append(f)
            s.ob("start %s%s" % (t, I["id"]), off, es * (oA if t == "A" else oB)(i), "line %s of %s starts at its own offset" % (f or "position", t), inst_loc(I))
            back[I["id"]] = (t, f, base, es, lat)
        if todo or not seen["A"] or not seen["B"]: raise Undecided("merge loop variables not recognised")
        Nn = lambda p: D.N(subst(D.N(subst(p, env)), env))
        Nd = lambda g: D.Nd(subst_dnf(D.Nd(subst_dnf(g, env)), env))
        # exits
        ends = {"A": pos["A"] - oA(i + 1), "B": pos["B"] - oB(i + 1)}
        got = set(); single = False
        for e, cnt in fn.exits(W):
            out = [x for x in fn.succs(e) if x not in fn.lblocks[W]]
            g = Nd(fn.edge_cond(e, out[0]))
            t = [t for t in "AB" if g == cmp_int("eq", ends[t], ZERO)]
            # two exits folded into one condition
            if not t and g == dnf_or(cmp_int("eq", ends["A"], ZERO), cmp_int("eq", ends["B"], ZERO)): t = ["A", "B"]
            if not t and g == dnf_and(cmp_int("eq", ends["A"], ZERO), cmp_int("eq", ends["B"], ZERO)) and len(fn.exits(W)) == 1: t = ["A", "B"]; single = True
            if not t:
                op = set(x for a in dnf_atoms(g) for x in opaque_in(P(a)))
                (s.c.undecided if op else s.c.viol)(s.name + ":exit", "the merge stops on %s, not at the end of the line of A or B" % show_dnf(g), inst_loc(fn.term(e))); 
                got.add("?")
            got |= set(t)
        if got == {"A", "B"}: s.c.ok(s.name + ":exit", "the merge stops when the line of A %s the line of B is used up" % ("and" if single else "or"))
        elif "?" not in got: s.c.viol(s.name + ":exit", "the merge does not stop at the end of both lines", inst_loc(fn.term(fn.exits(W)[0][0])))
        # effects
        tmpv, tmpk = s.temps()
        rv, rk = D.regions[tmpv], D.regions[tmpk]
        eff = [e for e in D.S.effects if e.base in (rv.base, rk.base)]
        inW = [e for e in eff if fn.bloop[e.block] != -1 and W in fn.loopchain(e.block)]
        rest = [e for e in eff if e not in inW]
        PC = None
        start = s.emitted(par, W, tmpv)
        # one step
        steps = [("A first", -1, 1, 0, (False, False)), ("B first", 1, 0, 1, (False, False)), ("same key", 0, 1, 1, (False, False))]
        if single: steps += [("rest of A", None, 1, 0, (False, True)), ("rest of B", None, 0, 1, (True, False))]
        for nm, sg, da, db, used in steps:
            case = (kdiff, sg, [(ends[t], u) for t, u in zip("AB", used)] if single else [])
            if sg is None: sg = -1 if da else 1
            for pid, (t, f, base, es, lat) in back.items():
                vals = {case_poly(Nn(fn.val(o, b)), case) for b, o in lat if True}
                # several latches: keep those reachable in this case
                if len(lat) > 1:
                    vals = {case_poly(Nn(fn.val(o, b)), case) for b, o in lat if case_dnf(Nd(fn.guard(b)), case)}
                if len(vals) != 1: raise Undecided("merge step with several outcomes")
                (v,) = vals
                s.ob("%s: %s%s%d" % (nm, t, f, pid), v, base + es * (pos[t] + (da if t == "A" else db)), "%s: the %s cursor of %s" % (nm, f or "position", t), inst_loc(fn.inst[pid]))
            for reg, region, want in ((rv, "values", {-1: [el("A.v", pos["A"])], 1: [s.sgn * el("B.v", pos["B"])], 0: [el("A.v", pos["A"]) + s.sgn * el("B.v", pos["B"])]}[sg]),
                                      (rk, "keys", {-1: [el("A.k", pos["A"])], 1: [el("B.k", pos["B"])], 0: [el("A.k", pos["A"]), el("B.k", pos["B"])]}[sg])):
                st = [(e, case_dnf(Nd(e.guard), case)) for e in inW if e.base == reg.base]
                st = [(e, g) for e, g in st if g]
                key = "%s: %s stored" % (nm, region)
                # the comparison may be split over several stores, all of which must apply unconditionally in this case
                if len(st) != 1 or st[0][1] != TRUE:
                    if any(x for e, g in st for a in dnf_atoms(g) for x in opaque_in(P(a))) or len(st) > 1: raise Undecided("merge step stores " + region + " under a further condition")
                    s.c.viol(s.name + ":" + key, "nothing is stored in this case" if not st else "stored only if " + show_dnf(st[0][1]), inst_loc(st[0][0].I) if st else ""); continue
                e = st[0][0]
                v = case_poly(Nn(e.value), case)
                w = inst_loc(e.I)
                s.ob(key, v, want[1] if len(want) > 1 and v == want[1] else want[0], nm + ": " + region + " stored", w)
                addr = Poly({m: x / reg.esize for m, x in D.N(e.addr).t.items()})
                s.ob(key + " at", fn.resolve(addr), start + P(("iv", W)), nm + ": position written", w)
        # the rest of the line
        btc = P(("btc", W) + fn.outer_ivs(W))
        def outenv(p):
            return {a: back[a[1]][2] + back[a[1]][3] * P(("n'", "p%s'" % back[a[1]][0].lower(), a[3])) for a in all_atoms(p) if isinstance(a, tuple) and a[0] == "phiout" and a[2] == W and a[1] in back}
        def No(p):
            p = D.N(subst(p, outenv(p))); return D.N(subst(p, outenv(p)))
        def Ng(g):
            for _ in range(2):
                en = {}
                for a in dnf_atoms(g): en.update(outenv(P(a)))
                g = D.Nd(subst_dnf(g, en))
            return g
        for nm, fix, t in () if single else (("rest of B", {outp["A"].single(): oA(i + 1)}, "B"), ("rest of A", {outp["B"].single(): oB(i + 1)}, "A")):
            for reg, f in ((rv, "v"), (rk, "k")):
                got = []
                for e in rest:
                    if e.base != reg.base or e.kind != "store": continue
                    if par not in fn.loopchain(e.block): raise Undecided("store outside the line loop")
                    lp = [(v, subst(No(x), fix)) for v, x in e.loops if v != ("iv", par)]
                    g = D.Nd(subst_dnf(Ng(e.guard), fix))
                    g = D.discharge(g, lp)
                    if not g or any(x.is_zero() for _, x in lp): continue
                    addr = fn.resolve(Poly({m: x / reg.esize for m, x in D.N(e.addr).t.items()}))
                    for cf, m, gg, xl in expand(subst(No(e.value), fix), g):
                        got.append(Contrib(lp + xl, subst(No(addr), fix), cf, m, gg, inst_loc(e.I)))
                o = oA if t == "A" else oB
                ext = o(i + 1) - outp[t]
                want = spec([("t", ext)], No(start) + btc + iv("t"), (1 if t == "A" or f == "k" else s.sgn) * el(t + "." + f, outp[t] + iv("t")))
                d = compare(got, want)
                key = s.name + ":%s %s" % (nm, "values" if f == "v" else "keys")
                if not d: s.c.ok(key, "the unmerged rest of the line is appended")
                else: report(s.c, key, d)
        # offsets
        if single:
            more = [e for e in rest if e.kind == "store"]
            if more: raise Undecided("elements are stored after a merge which uses up both lines")
            s.c.ok(s.name + ":rest", "the merge itself appends the unmerged rest of a line")
        tot = btc if single else btc + (oA(i + 1) - outp["A"]) + (oB(i + 1) - outp["B"])
        zero, step = [], []
        for e in D.effects_on("C.o"):
            if e.kind != "store": raise Undecided("offsets are not written one by one")
            addr = Poly({m: x / 8 for m, x in D.N(e.addr).t.items()})
            (step if e.loops else zero).append((addr, e))
        if len(zero) != 1 or len(step) != 1: raise Undecided("unexpected stores to the offsets")
        s.ob("first offset", zero[0][0], ZERO, "position of the first offset", inst_loc(zero[0][1].I))
        s.ob("first offset value", D.N(zero[0][1].value), ZERO, "first offset", inst_loc(zero[0][1].I))
        e = step[0][1]; w = inst_loc(e.I)
        if len(e.loops) != 1: raise Undecided("offset stored inside a nested loop")
        s.ob("lines", D.N(e.loops[0][1]), s.N, "number of lines", w)
        s.ob("offset position", step[0][0], i + 1, "position of a line's end offset", w)
        s.c.ob(s.name + ":offset unconditional", D.discharge(D.Nd(e.guard), [(v, D.N(x)) for v, x in e.loops]) == TRUE, "every line stores its offset", w)
        s.ob("offset value", No(fn.resolve(e.value)), No(start) + tot, "end offset of a line", w)
        # result arrays: the first nnz elements of the temporaries
        nnz = mk_sum(("iv", par), s.N, tot)
        s.ob("nnz", No(fn.resolve(D.probes["C"]["nnz"])), nnz, "number of stored elements")
        s.ob("nk", No(fn.resolve(D.probes["C"]["nk"])), nnz, "number of keys")
        for f, tmp in (("v", tmpv), ("k", tmpk)):
            if D.regions["C." + f].base == D.regions[tmp].base: continue
            rn = s.moved.get(f, "C." + f); r = D.regions[rn]
            r.esize = r.esize or D.regions[tmp].esize
            nnzraw = D.N(D.probes["C"]["nnz"])
            base, got = D.content(rn, nnzraw)
            d = compare(got, spec([("e", nnzraw)], iv("e"), el(tmp, iv("e"))))
            if d: report(s.c, s.name + ":result " + f, d)
            else: s.c.ok(s.name + ":result " + f, "the result holds exactly the emitted elements")
    def temps(s):
        """the buffers the merge writes: those of the result or temporaries copied into it"""
        D = s.D; out = []; s.moved = {}
        for f in ("v", "k"):
            base = D.regions["C." + f].base
            isb = is_ptr_atom(s.fn); nb = lambda p: norm_base(base_and_offset(p if isinstance(p, Poly) else P(p), isb)[0], isb)
            if isinstance(base, tuple) and base[0] == "ite":
                # copied into smaller memory on some paths only: what is copied is what is kept on the others
                two = [nb(p) for p in base[2:4]]
                cp = [k for k in (0, 1) if any(e.base == two[k] and e.kind == "copy" and nb(e.value) == two[1 - k] for e in D.S.effects)]
                if cp:
                    if len(cp) > 1: raise Undecided("result kept in several buffers")
                    tmp = [rn for b, rn in D.names.items() if norm_base(b, isb) == two[1 - cp[0]]]
                    if len(tmp) != 1 or two[cp[0]] not in D.names: raise Undecided("buffer of the merge not recognised")
                    s.moved[f] = D.names[two[cp[0]]]; out.append(tmp[0]); continue
            src = {base_and_offset(e.value, is_ptr_atom(s.fn))[0] for e in D.S.effects if e.base == base and e.kind == "copy"}
            src.discard(None)
            if len(src) > 1: raise Undecided("result copied from several buffers")
            b = next(iter(src)) if src else base
            if b not in D.names: raise Undecided("buffer of the merge not recognised")
            out.append(D.names[b])
        for rn in out: D.regions[rn].esize = D.regions[rn].esize or 8
        return out
    def emitted(s, par, W, tmpv):
        """number of elements emitted before the current line: closed form of the output cursor at the merge loop's start"""
        D, fn = s.D, s.fn
        i = P(("iv", par))
        for e in D.effects_on("C.o"):
            if e.loops and e.kind == "store":
                v = fn.resolve(e.value)
                # prefix sum part
                out = ZERO
                for m, k in v.t.items():
                    if any(isinstance(a, tuple) and a[0] == "sum" for a in m): out = out + Poly({m: k})
                return D.N(out)
        raise Undecided("no offsets stored")

def report(c, key, d):
    op = set()
    for x in d:
        for pp in x[1].polys(): op |= set(o for o in opaque_in(pp) if not o.startswith("btc"))
        for a in dnf_atoms(x[1].guard): op |= set(o for o in opaque_in(P(a)) if not o.startswith("btc"))
    msg = "differs from the specification: " + explain(d)
    if op: c.undecided(key, msg + " [opaque: %s]" % ", ".join(sorted(op)[:3]))
    else: c.viol(key, msg, d[0][1].where or "")

"""P25: generated matrices have the requested shape, every element is drawn anew from the requested range, and nothing but the settings decides what is drawn."""
from vlib import *
from mat import *
from p24 import stores, S_
import copy, math

INC = [VERIF + "/stubs/rng", VERIF + "/stubs", REPO + "/src"]
DRAW = {"vp_get_real": "real", "vp_get_int": "int", "vp_get_bool": "bool", "vp_get_raw": "raw", "vp_get_other": "other"}
OUTSIDE = {"vp_get_device": "a random device", "time": "the clock", "clock": "the clock", "gettimeofday": "the clock", "clock_gettime": "the clock", "rand": "a generator shared by the whole program",
           "random": "a generator shared by the whole program", "drand48": "a generator shared by the whole program", "getpid": "the process number", "pthread_self": "the thread",
           "_ZNSt6chrono3_V212system_clock3nowEv": "the clock", "_ZNSt6chrono3_V212steady_clock3nowEv": "the clock"}

def run(c):
    c.rules = ["the shape of the generated matrix is the requested one", "every element of the matrix receives a value made from numbers drawn in the same turn: a sign of which both values occur equally often and ten to the power of minus a number from the requested range",
               "the engine is made once per call from the seed of the settings, every number is drawn from it, no other source is asked and no state is kept between calls", "constructing a generator keeps the requested shape and settings"]
    c.assumptions = ["engines and distributions are replaced by unknown functions: a uniform distribution returns numbers from the range it was made with", "equal seeds give equal sequences (standard engines)"]
    c.floor = 12
    mod = c.load(VERIF + "/drivers/generate.cpp", tag="gen", inc=INC, opts=["--devirt"], flags=["-fno-access-control"])
    for name, fn in sorted(mod.items()):
        if not name.startswith("drv_"): continue
        with c.guard(name): (generate if name.endswith("call") else make)(c, name, fn)

def make(c, name, fn):
    D = Drv(fn, [], row=False); w = where_in(fn, "MatrixFactory.h", "MatrixGenerator.h")
    pr = {p[0]: [D.fn.resolve(P(x)) for x in p[1]] for p in D.S.probes}
    if not {"G", "S", "S2"} <= set(pr): c.viol(name + ":returns", "the constructor does not return normally", w); return
    for k, what, want in ((0, "rows reported", "r"), (1, "columns reported", "c"), (2, "rows", "r"), (3, "columns", "c")):
        check_eq(c, name + ":%d" % k, pr["G"][k], P(("arg", want)), what, w)
    for k, what in enumerate(("seed", "smallest exponent", "largest exponent")):
        a, b = pr["S2"][k], pr["S"][k]
        if what == "seed": a, b = low(a), low(b)
        if opaque_in(a - b) and not all(isinstance(q, tuple) and q[0] in ("ld", "arg") for q in all_atoms(a)): c.undecided(name + ":" + what, what + " is " + show(a), w)
        else: c.ob(name + ":" + what, a == b, "%s kept: %s" % (what, show(a)), w)

def low(p):
    """a member copied together with what follows it"""
    return map_atoms(p, lambda a: P(("ld", a[1], 4)) if isinstance(a, tuple) and a[0] == "ld" and len(a) == 3 and a[2] == 8 else P(a))

def generate(c, name, fn):
    D = Drv(fn, [], row=False); w = where_in(fn, "MatrixGenerator.cpp", "MatrixGenerator.h")
    pr = {p[0]: [fn.resolve(P(x)) for x in p[1]] for p in D.S.probes}
    C = D.m("C")
    if "G2" not in pr: c.viol(name + ":returns", "generating a matrix does not return normally", w); return
    R, K = pr["G"]
    for f, got, want in (("rows", C.r, R), ("columns", C.c, K), ("size", C.size, R * K), ("length", C.f("ss"), R * K)):
        got = D.N(got)
        if any(str(a).startswith("('n', 'C.") for a in all_atoms(got)): c.undecided(name + ":" + f, f + " not followed", w)
        else: check_eq(c, name + ":" + f, got, want, f + " of the generated matrix", w)
    cut = [I for b in fn.live for I in insts(fn, b) if I["op"] in ("fptrunc", "fptosi", "fptoui")]
    if cut: c.viol(name + ":exact", "a number is narrowed or truncated", inst_loc(cut[0]) or w)
    else: c.ok(name + ":exact", "no number is narrowed or truncated", w)
    seed, lo, hi = pr["S"]
    for k in "GS":
        for x, y in zip(pr[k], pr[k + "2"]): c.ob(name + ":const", x == y, "the generator is unchanged", w)
    S = D.S
    calls = {x.I["id"]: x for x in S.calls}
    args = lambda x: [fn.resolve(P(a)) for a in x.args]
    # what decides the numbers
    src = [(x, OUTSIDE[x.callee]) for x in S.calls if x.callee in OUTSIDE]
    if src: c.viol(name + ":source", "the numbers depend on %s" % src[0][1], inst_loc(src[0][0].I) or w)
    else: c.ok(name + ":source", "no source of numbers beside the seed", w)
    kept = [x for x in S.calls if x.callee == "__cxa_guard_acquire"]
    glob = [e for e in S.effects if isinstance(e.base, tuple) and e.base[0] == "g" and e.kind == "store"]
    if kept or glob: c.viol(name + ":state", "state is kept between calls", inst_loc((kept or glob)[0].I) or w)
    else: c.ok(name + ":state", "no state is kept between calls", w)
    rng = [x for x in S.calls if x.callee in ("vp_get_rng", "vp_get_rngcopy")]
    draws = [x for x in S.calls if x.callee in DRAW]
    made = [x for x in rng if x.callee == "vp_get_rng"]
    if not draws: c.viol(name + ":draws", "no numbers are drawn", w) if not made else c.undecided(name + ":draws", "no draw is recognised", w); return
    engines = {("call", x.I["id"]) for x in rng}
    inloop = [x for x in rng if x.loops]
    if inloop and any(P(args(d)[0]).single() in {("call", x.I["id"]) for x in inloop} for d in draws): c.viol(name + ":engine", "an engine is made or copied anew for every element: the same numbers again", inst_loc(inloop[0].I) or w)
    else:
        for x in made:
            a = args(x)[0]
            if a != seed and any(isinstance(q, tuple) and q[0] == "ld" and len(q) > 3 for q in all_atoms(a)): c.undecided(name + ":seed", "seed not followed: " + show(a), w)
            elif a == seed: c.ok(name + ":seed", "seeded with the seed of the settings", inst_loc(x.I) or w)
            elif opaque_in(a) and not any(isinstance(q, tuple) and q[0] == "call" and q[1] in calls and calls[q[1]].callee in OUTSIDE for q in all_atoms(a)): c.undecided(name + ":seed", "seed not understood: " + show(a), w)
            elif any(P(args(d)[0]).single() == ("call", x.I["id"]) for d in draws) or any(x2.callee == "vp_get_rngcopy" for x2 in rng): c.viol(name + ":seed", "the engine is seeded with %s instead of the seed of the settings" % show(a), inst_loc(x.I) or w)
        for d in draws:
            e = P(args(d)[0]).single()
            if e in engines: c.ok(name + ":from", "drawn from the engine of this call", inst_loc(d.I) or w)
            else: c.undecided(name + ":from", "engine not followed: " + show(args(d)[0]), inst_loc(d.I) or w)
    # what every element becomes
    reg = "C.p"
    effs = D.effects_on(reg)
    mark = P(("arg", "DRAWN"))
    seen = 0
    fake = []; chain = {}
    isdraw = lambda p: {q[1] for q in p if isinstance(q, tuple) and q[0] == "call" and q[1] in calls and calls[q[1]].callee in DRAW}
    for e in sorted(effs, key=lambda e: e.order):
        if e.kind == "store":
            v = fn.resolve(P(e.value)); used = isdraw(inside(deep(fn, v))) | isdraw(dnf_atoms(e.guard))
            at = (tuple(e.loops), e.addr, e.base)
            if at in chain: q = chain[at]; q[1] = dnf_or(q[1], e.guard); q[2] = mk_ite(e.guard, v, q[2]); q[3] |= used; q[0].I = e.I; continue
            if used:
                e = copy.copy(e); chain[at] = [e, e.guard, v, used]
        fake.append(e)
    for e, g, v, used in chain.values():
        seen += 1
        if isdraw(dnf_atoms(dnf_not(g))): c.viol(name + ":always", "for some of the numbers drawn an element is not written", inst_loc(e.I) or w); continue
        element(c, name, fn, e, v, {k: calls[k] for k in used}, args, lo, hi, inst_loc(e.I) or w)
        e.value = mark; e.guard = g
    if not seen: raise Undecided("no element receives a drawn number")
    first = min(e.order for e, *_ in chain.values())
    if len(fake) > len(chain) and len(chain) == 1:       # what is filled in before is overwritten if the drawn numbers cover everything
        (e, *_), = chain.values()
        n_ = D.N(e.loops[0][1]) if len(e.loops) == 1 else None
        if n_ == R * K and D.N(e.addr) == 8 * P(("iv", e.loops[0][0][1])) and e.guard == TRUE: fake = [x for x in fake if x.order >= first]
    if any(str(a).startswith("('n', 'C.") for x in (C.r, C.c, C.size, C.f("ss")) for a in all_atoms(D.N(x))): c.undecided(name + ":content", "the shape is not followed", w); return
    base = ZERO if D.regions[reg].base is None else P(D.regions[reg].base)
    stores(c, name + ":content", D, fake, base, 8, [S_([("x", R * K)], iv("x"), mark)], w)

PURE = {"exp10": 10.0, "__exp10": 10.0, "exp2": 2.0, "exp": math.e, "pow": None}

def deep(fn, p):
    """calls of mathematical functions as terms"""
    def fa(a):
        if isinstance(a, tuple) and a[0] == "call" and a[1] in fn.inst:
            I = fn.inst[a[1]]; f = (I.get("callee") or "").replace("llvm.", "").split(".")[0]
            if f in PURE or f in ("ldexp", "copysign", "fabs"): return P(("fn", f) + tuple(deep(fn, fn.resolve(fn.val(o, fn.iblock[a[1]]))) for o in I["ops"] if "fn" not in o)[:2])
        return P(rebuild(a, lambda q: deep(fn, q)) if isinstance(a, tuple) else a)
    return map_atoms(P(p), fa)

def element(c, name, fn, e, v, draws, args, lo, hi, w):
    loops = [i for i, _ in e.loops]
    for k, d in draws.items():
        own = [i for i, _ in d.loops]
        if own == loops: c.ok(name + ":fresh", "drawn anew for every element", inst_loc(d.I) or w)
        elif len(own) < len(loops): c.viol(name + ":fresh", "one number is drawn for several elements", inst_loc(d.I) or w); return
        else: c.undecided(name + ":fresh", "drawn in a loop of its own", w)
    if any(DRAW[d.callee] in ("raw", "other") for d in draws.values()):
        bad = next(d for d in draws.values() if DRAW[d.callee] in ("raw", "other"))
        if DRAW[bad.callee] == "other": c.viol(name + ":range", "drawn from a distribution that is not uniform over the requested range", inst_loc(bad.I) or w)
        else: c.undecided(name + ":range", "made from raw engine output", w)
        return
    v = deep(fn, v)
    # the outcomes of the discrete draws
    cases = [{}]
    for k, d in draws.items():
        if d.callee == "vp_get_real": continue
        a = args(d)
        if d.callee == "vp_get_bool":
            if not a[1].is_const(): c.undecided(name + ":sign", "odds not understood", w); return
            if abs(float(a[1].const()) - 0.5) > 1e-12: c.viol(name + ":sign", "the two signs are not equally likely", inst_loc(d.I) or w); return
            xs = [0, 1]
        else:
            if not (a[1].is_const() and a[2].is_const()): c.undecided(name + ":sign", "range of the sign draw not understood", w); return
            x0, x1 = int(a[1].const()), int(a[2].const())
            if x1 < x0: c.viol(name + ":sign", "the sign is drawn from the empty range %d..%d" % (x0, x1), inst_loc(d.I) or w); return
            if x1 - x0 > 64: c.undecided(name + ":sign", "range of the sign draw", w); return
            xs = range(x0, x1 + 1)
        cases = [{**q, k: x} for q in cases for x in xs]
    out = []
    for q in cases:
        x = subst_case(v, {("call", k): P(z) for k, z in q.items()})
        m = magnitude(x, draws, args)
        if m is None and len(x.t) != 1 and known(x, draws): c.viol(name + ":value", "the value is %s" % show(x), w); return
        if m is None: c.undecided(name + ":value", "the value is not understood: " + show(x), w); return
        out.append(m)
    signs = sum(1 for s, *_ in out if s > 0), sum(1 for s, *_ in out if s < 0)
    c.ob(name + ":sign", signs[0] == signs[1] > 0, "%d of %d outcomes of the sign draw are positive" % (signs[0], len(out)), w)
    for s, base, a, b in out:
        if abs(abs(s) - 1) > 1e-12: c.viol(name + ":value", "a factor of %g" % s, w); return
        # base^(a..b): ten to minus hi .. minus lo
        k = math.log10(base)
        if abs(k - 1) > 1e-12:
            if abs(k + 1) < 1e-12: a, b = -a, -b
            elif a == -lo and b == -hi or a == -hi and b == -lo or a == lo and b == hi: c.viol(name + ":value", "powers of %g instead of ten" % base, w); return
            else:
                c.undecided(name + ":value", "powers of %g" % base, w); return
        if not ({show(a), show(b)} == {show(-lo), show(-hi)} and a != b): c.viol(name + ":range", "magnitudes range from 10^(%s) to 10^(%s), requested: 10^(%s) to 10^(%s)" % (show(a), show(b), show(-lo), show(-hi)), w); return
    c.ok(name + ":value", "plus or minus ten to the power of minus a number from the requested range", w)

def subst_case(p, env):
    p = subst(P(p), env)
    def lit(a):
        if a[0] in ("eq", "lt", "feq", "flt", "ult", "slt") and isinstance(a[1], Poly) and a[1].is_const():
            k = a[1].const()
            return k == 0 if a[0] in ("eq", "feq") else k < 0
        if a[0] == "b" and isinstance(a[1], Poly) and a[1].is_const(): return a[1].const() != 0
        if a[0] == "bv" and ("call", a[1]) in env: return env[("call", a[1])].const() != 0
        return None
    def fa(a):
        if isinstance(a, tuple) and a[0] in ("ite", "bool"):
            terms = []; known = True
            for cj in a[1]:
                r = [(lit(l[0]), l[1]) for l in cj]
                if any(x is not None and x != pol for x, pol in r): continue
                if any(x is None for x, pol in r): known = False
                terms.append(cj)
            if not terms: return subst_case(a[3], env) if a[0] == "ite" else ZERO
            if known: return subst_case(a[2], env) if a[0] == "ite" else ONE
        return P(rebuild(a, lambda q: subst_case(q, env)) if isinstance(a, tuple) else a)
    return map_atoms(p, fa)

def magnitude(x, draws, args):
    """(factor, base, exponent at the lower end of the draw, exponent at the upper end)"""
    if len(x.t) != 1: return None
    (m, k), = x.t.items()
    if len(m) != 1: return None
    a, sg = m[0], 1
    if isinstance(a, tuple) and a[0] == "inv":
        y = P(a[1]); sg = -1
        if len(y.t) != 1: return None
        (m2, k2), = y.t.items()
        if len(m2) != 1: return None
        a = m2[0]; k = k / k2
    if not (isinstance(a, tuple) and a[0] == "fn"): return None
    f = a[1]
    if f == "pow":
        b, t = P(a[2]), P(a[3])
        if not b.is_const() or b.const() <= 0: return None
        base = float(b.const())
    elif f in PURE: base, t = PURE[f], P(a[2])
    else: return None
    t = t * sg
    real = [q for q in all_atoms(t) if isinstance(q, tuple) and q[0] == "call"]
    if len(set(real)) != 1 or real[0][1] not in draws or draws[real[0][1]].callee != "vp_get_real": return None
    if any(sum(1 for z in mm if z == real[0]) > 1 for mm in t.t): return None
    if opaque_in(subst(t, {real[0]: P(("arg", "x"))})): return None
    ar = args(draws[real[0][1]])
    return float(k), base, subst(t, {real[0]: ar[1]}), subst(t, {real[0]: ar[2]})

def dnf_atoms(g): return {q for cj in g for l in cj for x in l[0][1:] if isinstance(x, Poly) for q in all_atoms(x)} | {("call", l[0][1]) for cj in g for l in cj if l[0][0] == "bv"}

def known(x, draws): return all(isinstance(q, tuple) and (q[0] in ("fn", "ld", "arg", "inv") or q[0] == "call" and q[1] in draws) for q in all_atoms(x))

def inside(p):
    """atoms, those of conditions included"""
    r = set(all_atoms(p))
    for q in list(r):
        if isinstance(q, tuple) and q[0] in ("ite", "bool"): r |= dnf_atoms(q[1])
    return r

"""P26: the automatic conversion takes the first representation, in the order of the type list, that the thresholds admit."""
from vlib import *
from mat import *
from p23 import Unknown
from fractions import Fraction
import random

TYPES = ["zz", "sf", "df", "sd", "mss", "msd", "dd"]
NAMES = {"zz": "Matrix<Zero>", "sf": "Matrix<Sparse,float>", "df": "Matrix<Dense,float>", "sd": "Matrix<Sparse,double>", "mss": "MultipleMatrix<Sparse double, Sparse float>", "msd": "MultipleMatrix<Sparse double, Dense float>", "dd": "Matrix<Dense,double>"}
OPERANDS = {"DD": "dense", "XD": "part", "SD": "sparse", "DF": "single"}

def run(c):
    c.rules = ["a representation is found admissible exactly if the share of elements above the significance threshold of double precision does not exceed the representation's occupation threshold of double precision, and likewise in single precision; decided for all combinations of signs of the compared quantities",
               "the converter returns the conversion into the first type of the list that is admissible, made from the caller's matrix and thresholds; decided for all combinations of signs of the fourteen differences in which a type is admissible"]
    c.assumptions = ["significance thresholds are not negative, matrices are not empty, and no operand is NaN", "sums and quotients of occupations are compared as real numbers"]
    c.floor = 20
    src = VERIF + "/drivers/represent.cpp"
    jobs = [((src,), {"tag": "adm" + o, "defs": ["PARTCHECK", "OPERAND=" + o], "flags": ["-fno-access-control"]}) for o in OPERANDS]
    jobs += [((src,), {"tag": "cho" + o, "defs": ["PARTCHOOSE", "OPERAND=" + o], "flags": ["-fno-access-control"]}) for o in ("DD", "XD")]
    for (a, k), mod in zip(jobs, c.loads(jobs)):
        o = k["tag"][3:]
        for name, fn in sorted(mod.items()):
            if not name.startswith("drv_"): continue
            key = name[4:] + ":" + OPERANDS[o]
            with c.guard(key): one(c, key, name, fn)

class Setting:
    def __init__(s, fn):
        S = ir.summarise(fn); pr = {p[0]: [fn.resolve(P(x)) for x in p[1]] for p in S.probes}
        s.fn, s.pr = fn, pr
        s.A, s.size = pr["A"][0], pr["A"][1]; s.t = pr["t"][0]
        s.sig = {"f": pr["sig"][0], "d": pr["sig"][1]}
        s.thr = {(k, p): pr[k][i] for k in TYPES for i, p in enumerate("fd")}
        s.order = TYPES
        s.inv = P(("inv", s.size))
        s.cnt = {p: P(("fn", "count", s.A, P(4), s.sig[p], ZERO)) for p in "fd"}
        s.X = {kp: v - s.cnt[kp[1]] * s.inv for kp, v in s.thr.items()}        # not negative: within the threshold
        s.names = list(s.X)

    def form(s, p):
        """(k, sign): the sign of p is that of sign * X[k]"""
        for k in s.names:
            for q in (s.X[k], s.thr[k] * s.size - s.cnt[k[1]]):
                for sg in (1, -1):
                    if (p - P(sg) * q).is_zero(): return k, sg
        return None

def truth(st, used):
    """columns of the table of all signs of the used differences"""
    n = 3 ** len(used); col = {}; full = (1 << n) - 1
    for i, k in enumerate(used):
        w = 3 ** i
        for j, sg in enumerate((-1, 0, 1)):
            x = ((1 << w) - 1) << (w * j); m = 3 * w
            while m < n:
                r = min(m, n - m)
                x |= x << m; m *= 2
            col[k, sg] = x & full
    return col, full

def sign_set(l):
    return {"flt": (-1,), "fle": (-1, 0), "feq": (0,), "lt": (-1,), "le": (-1, 0), "eq": (0,), "slt": (-1,), "sle": (-1, 0)}.get(l[0])

def table(st, dnf, col, full):
    out = 0
    for conj in dnf:
        t = full
        for l, pol in conj:
            x = literal(st, l, col, full)
            t &= x if pol else full & ~x
        out |= t
    return out

def literal(st, l, col, full):
    if l[0] in ("b", "bv"): raise Unknown(str(l)[:80])
    ss = sign_set(l)
    if ss is None: raise Unknown(str(l)[:80])
    p = st.fn.resolve(P(l[1]))
    for sg in (1, -1):                                                        # thresholds below zero and empty matrices are out of scope
        for s in st.sig.values():
            if (p - P(sg) * s).is_zero() and ss == ((-1,) if sg == 1 else (-1, 0)): return 0 if sg == 1 else full
        if (p - P(sg) * st.size).is_zero(): return full if (-sg if sg == 1 else -1) in ss and sg == -1 else 0
    f = st.form(p)
    if not f or (f[0], 0) not in col: raise Unknown(show(p)[:100])
    x = 0
    for sg in ss: x |= col[f[0], sg * f[1]]
    return x

def literals(p):
    for a in all_atoms(P(p)):
        if isinstance(a, tuple) and a[0] in ("ite", "bool"):
            for conj in a[1]:
                for l, _ in conj: yield l

def split(st, p, col, full, under):
    """[(value, table of the cases)]"""
    a = p.single()
    if isinstance(a, tuple) and a[0] == "ite":
        t = table(st, a[1], col, full)
        yield from split(st, P(a[2]), col, full, under & t); yield from split(st, P(a[3]), col, full, under & full & ~t)
    elif isinstance(a, tuple) and a[0] == "bool":
        t = table(st, a[1], col, full)
        yield P(1), under & t; yield ZERO, under & full & ~t
    elif isinstance(a, tuple) and a[0] in ("umin", "umax") and len(a) == 3:         # conjunction and disjunction of truth values
        for u, t in split(st, P(a[1]), col, full, under):
            if answer(u) is None: yield p, t; continue
            if answer(u) == (a[0] == "umax"): yield u, t
            else: yield from split(st, P(a[2]), col, full, t)
    else: yield p, under

def one(c, key, name, fn):
    st = Setting(fn); w = where_in(fn, "MatrixConverter.h", "Threshold.h", "OccupationPolicy.h")
    if "r" not in st.pr: c.viol(key + ":returns", "the function does not return normally", w); return
    got = st.pr["r"][0]; kind = name.split("_")[2] if name.startswith("drv_adm_") else None

    used = set()
    for l in literals(got):
        try: f = st.form(fn.resolve(P(l[1])))
        except Exception: f = None
        if f: used.add(f[0])
    want = [(kind, p) for p in "fd"] if kind else [k for k in st.names]
    used = sorted(used | set(want))
    why = None
    try:
        if len(used) > 14: raise Unknown("too many differences")
        col, full = truth(st, used)
        adm = lambda k: (col[(k, "f"), 0] | col[(k, "f"), 1]) & (col[(k, "d"), 0] | col[(k, "d"), 1])
        bad = None
        for v, t in split(st, got, col, full, full):
            if not t: continue
            if kind:
                r = answer(v)
                if r is None: raise Unknown("the result is %s" % show(v)[:80])
                b = t & (full & ~adm(kind) if r else adm(kind))
                if b: bad = bad or (b, "found %s" % ("admissible" if r else "inadmissible"))
            else:
                r = conversion(st, v)
                if r is None: raise Unknown("the result is %s" % show(v)[:80])
                before = 0; n = full
                for k in st.order:
                    a = adm(k); first = a & ~before; before |= a
                    if k == r: n &= ~first
                b = t & n & before
                if b: bad = bad or (b, "converted into " + NAMES[r])
        if bad is None:
            c.ok(key, "for all %d combinations of signs" % 3 ** len(used), w); return
        c.viol(key, "%s: %s" % (describe(st, bad[0], used, col), bad[1]), w); return
    except Unknown as e: why = str(e)
    x = kept(st, got) or sample(st, got, kind)
    if x: c.viol(key, x, w)
    else: c.undecided(key, "not followed: " + why, w)

def answer(v):
    return {0: False, 1: True}.get(v.const()) if v.is_const() else None

def conversion(st, v):
    a = v.single()
    if not (isinstance(a, tuple) and a[:2] == ("fn", "convert")): return None
    if not (P(a[3]) - st.A).is_zero() or not (P(a[4]) - st.t).is_zero(): return None
    return TYPES[int(P(a[2]).const())]

def describe(st, bits, used, col):
    i = (bits & -bits).bit_length() - 1
    out = []
    for k in used:
        s = next(s for s in (-1, 0, 1) if col[k, s] >> i & 1)
        out.append("%s.%s %s" % (k[0], {"f": "single", "d": "double"}[k[1]], {-1: "above", 0: "at", 1: "below"}[s]))
    return "occupation relative to its threshold: " + ", ".join(out)

class Point:
    def __init__(s, st, seed):
        R = random.Random(seed); s.st = st; s.env = {}
        shape = st.pr["A"][2:4]
        for p in shape + [st.size]:
            for a in all_atoms(p): s.env[a] = Fraction(R.randint(1, 4))
        a = st.size.single()
        if a is not None and not any(a in all_atoms(p) for p in shape): s.env[a] = s.value(shape[0]) * s.value(shape[1])
        n = int(s.value(st.size)); s.mags = [Fraction(R.choice((0, 0, 1, 2, 3, 4))) for _ in range(n)]
        lo, hi = sorted(R.sample(range(0, 5), 2))
        for p, v in (("d", lo), ("f", hi)): s.env[st.sig[p].single()] = Fraction(v)
        for v in st.thr.values(): s.env[v.single()] = Fraction(R.randint(0, n), n)

    def value(s, p):
        r = Fraction(0)
        for mono, k in P(p).t.items():
            x = Fraction(k)
            for a in mono: x *= s.atom(a)
            r += x
        return r

    def atom(s, a):
        if a in s.env: return s.env[a]
        if isinstance(a, tuple):
            if a[0] == "inv": return 1 / s.value(a[1])
            if a[0] == "fabs": return abs(s.value(a[1]))
            if a[0] == "ite": return s.value(a[2] if s.holds(a[1]) else a[3])
            if a[0] in ("umin", "umax"): return (min if a[0] == "umin" else max)(s.value(x) for x in a[1:])
            if a[0] == "bool": return Fraction(int(s.holds(a[1])))
            if a[:2] == ("fn", "count") and (P(a[2]) - s.st.A).is_zero():
                k, lo, hi = int(P(a[3]).const()), s.value(a[4]), s.value(a[5])
                return Fraction(sum(1 for m in s.mags if (m >= lo if k < 4 and k & 2 else m > lo) and (k == 4 or (m <= hi if k & 1 else m < hi))))
        raise Unknown(str(a)[:80])

    def holds(s, dnf):
        for conj in dnf:
            t = True
            for l, pol in conj:
                ss = sign_set(l)
                if ss is None: raise Unknown(str(l)[:80])
                v = s.value(s.st.fn.resolve(P(l[1])))
                if (((v > 0) - (v < 0)) in ss) != pol: t = False; break
            if t: return True
        return False

    def leaf(s, p):
        while True:
            a = P(p).single()
            if isinstance(a, tuple) and a[0] == "ite": p = a[2] if s.holds(a[1]) else a[3]
            else: return P(p)

def kept(st, got):
    """the result depends on what a static object was given by an earlier call"""
    S = ir.summarise(st.fn)
    seen = {g for l in literals(got) for a in all_atoms(st.fn.resolve(P(l[1]))) if isinstance(a, tuple) and a[0] == "ld" for g in all_atoms(P(a[1])) if isinstance(g, tuple) and g[0] == "g"}
    for e in S.effects:
        g = {a for a in all_atoms(st.fn.resolve(P(e.addr))) if isinstance(a, tuple) and a[0] == "g"} & seen
        if not g or e.value is None: continue
        v = all_atoms(st.fn.resolve(P(e.value)))
        if st.t.single() in v or st.A.single() in v: return "the result depends on a static object that keeps what an earlier call was given"
    return None

def sample(st, got, kind):
    """the symbolic result at sample matrices and settings"""
    for seed in range(600):
        try:
            pt = Point(st, seed)
            occ = {p: Fraction(sum(1 for m in pt.mags if m > pt.value(st.sig[p])), len(pt.mags)) for p in "fd"}
            adm = [k for k in st.order if all(occ[p] <= pt.value(st.thr[k, p]) for p in "fd")]
            say = "magnitudes %s, significance %s (single) and %s (double)" % (",".join(str(m) for m in sorted(pt.mags)), pt.value(st.sig["f"]), pt.value(st.sig["d"]))
            if kind:
                v = pt.value(got)
                if bool(v) != (kind in adm): return "%s, occupation thresholds %s and %s: %s" % (say, pt.value(st.thr[kind, "f"]), pt.value(st.thr[kind, "d"]), "admissible" if v else "not admissible")
            elif adm:
                v = pt.leaf(got); r = conversion(st, v)
                if r is None:
                    a = v.single()
                    if isinstance(a, tuple) and a[:2] == ("fn", "convert"): return "%s is converted with other thresholds or from another matrix" % NAMES[TYPES[int(P(a[2]).const())]]
                    if v.is_zero(): return "%s: nothing is returned although %s is admissible" % (say, NAMES[adm[0]])
                    return None
                if r != adm[0]: return "%s: converted into %s although %s is the first admissible" % (say, NAMES[r], NAMES[adm[0]])
        except (Unknown, ZeroDivisionError, KeyError): continue
    return None

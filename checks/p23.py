"""P23: name tables, approximate equality, ranges and the scoped timer."""
import re
from fractions import Fraction
from vlib import *
from mat import *

UTILS = VERIF + "/stubs/utils"
SRC = VERIF + "/drivers/utils.cpp"
ALWAYS = frozenset([frozenset()])

def run(c):
    c.rules = ["an enum parser: after a registration lookup by name gives the enumerator and lookup by enumerator the name; two registrations do not disturb each other; a new partner replaces the old one",
               "the tracker's table holds every identifier exactly once under its own name, in both directions",
               "approximate equality is |v1 - v2| <= the larger accuracy, boundary included, for every pair of types that compiles (all values, symbolically)",
               "a range begins and ends where it was told to, and a loop over it visits every element once",
               "a scoped timer reads the clock when built and when destroyed and prints label and difference in seconds once, and nothing before"]
    c.assumptions = ["std::map, std::string and the output streams are replaced by small stand-ins with the standard's semantics (stubs/utils)",
                     "floating-point differences are treated as exact real numbers"]
    c.floor = 60
    for part, kw in (("TABLE", dict(inc=[UTILS], flags=["-fno-access-control"])), ("TIMER", dict(inc=[UTILS])), ("RANGE", {}), ("EQUAL", {}), ("EQUALZ", {})):
        try: mod = c.load(SRC, tag="utils-" + part.lower(), defs=["PART" + part], **kw)
        except Broken as e:
            c.undecided("driver:" + part, str(e)[:400]); continue
        for name, fn in sorted(mod.items()):
            if not name.startswith("drv_"): continue
            with c.guard(name): dict(TABLE=table, TIMER=timer, RANGE=ranges, EQUAL=equal, EQUALZ=equal)[part](c, name, fn)
    tracker(c)

def definite(p): return all(isinstance(a, tuple) and (a[0] in ("arg", "str", "g", "undef", "obj") or a[0] == "ld" and definite(a[1])) for a in all_atoms(P(p)))

def same(c, key, got, want, w):
    if (got - want).is_zero(): c.ok(key, str(want), w)
    elif definite(got): c.viol(key, "is %s instead of %s" % (str(got)[:80], want), w)
    else: c.undecided(key, "is %s, expected %s" % (str(got)[:80], want), w)

def table(c, name, fn):
    w = "include/BlasBooster/Utilities/EnumParser.h"
    D = Drv(fn, [], row=False)
    op = name.split("_")[-1]
    a, b, s, t = (P(("arg", x)) for x in ("a", "b", "s", "t"))
    want = {"one": dict(name=s, value=a), "two": dict(name=s, value=a, name2=t, value2=b), "rename": dict(name2=t, value2=a), "revalue": dict(name2=s, value2=b)}[op]
    for tag, x in want.items():
        key = name + ":" + tag
        if tag not in D.probes: c.viol(key, "the lookup never returns", w); continue
        g = D.probes[tag]["@guard"]
        extra = [l for conj in g for l in conj if not (l[0][0] == "eq" and definite(l[0][1]))]
        if extra: c.undecided(key + ":found", "lookup depends on %s" % str(extra)[:100], w)
        elif g != ALWAYS and any(pol for conj in g for l, pol in conj): c.viol(key + ":found", "the lookup returns only if %s" % str(g)[:120], w)
        else: c.ok(key + ":found", "returns", w)
        same(c, key, P([vs[0] for t_, vs, *_ in D.S.probes if t_ == tag][0]), x, w)

def tracker(c):
    w = "include/BlasBooster/Utilities/Tracker.h"
    with c.guard("tracker-table"):
        m = re.search(r"enum class TrackerID[^{]*\{(.*?)\}", open(REPO + "/include/BlasBooster/Utilities/Tracker.h").read(), re.S)
        ids = [re.sub(r"//.*|/\*.*?\*/|=.*", "", x).strip() for x in re.sub(r"//[^\n]*|/\*.*?\*/", "", m.group(1), flags=re.S).split(",")] if m else []
        ids = [i for i in ids if re.fullmatch(r"\w+", i) and i != "size"]
        if not ids: c.undecided("tracker-table", "the identifiers are not found"); return
        try: mod = c.load(None, tag="utils-tracker", text=open(SRC).read().replace("IDS", " ".join("ID(%s)" % i for i in ids)), defs=["PARTTRACKER", "VP_RECORD"], inc=[UTILS])
        except Broken as e: c.undecided("tracker-table", str(e)[:300]); return
        D = Drv(mod["drv_tracker_names"], [], row=False)
        got, num = {"name": [], "value": []}, {}
        for tag, vs, b, o, I in D.S.probes:
            if tag == "end": continue
            x, v = (str(P(y)) for y in vs[:2])
            x = x[4:-1] if x.startswith("str(") else x
            if tag == "id": num[x] = v; continue
            if D.fn.guard(b) != ALWAYS or D.fn.loopchain(b): c.undecided("tracker-table:" + tag, "conditional entry", w); return
            got[tag].append((x, v))
        for i in ids:
            for tag in got:
                mine = [e for e in got[tag] if e[0] == i or e[1] == num[i]]
                # the last entry under a key counts
                keyed = [e for e in mine if (e[0] == i if tag == "name" else e[1] == num[i])]
                key = "tracker-table:%s:%s" % (i, tag)
                if not keyed: c.viol(key, "no entry", w)
                elif keyed[-1] != (i, num[i]): c.viol(key, "maps %s to %s" % (keyed[-1] if tag == "name" else keyed[-1][::-1]), w)
                else: c.ok(key, "own partner", w)

def ranges(c, name, fn):
    w = "include/BlasBooster/Utilities/range.h"
    D = Drv(fn, [], row=False)
    a, b = P(("arg", "a")), P(("arg", "b"))
    if name.endswith("walk"):
        E = D.S.effects
        key = name + ":all"
        if len(E) == 1 and E[0].base == ("arg", "a") and len(E[0].loops) == 1 and E[0].guard == ALWAYS:
            e = E[0]; v, x = e.loops[0]
            ok = (D.N(e.addr) - 8 * P(v)).is_zero() and (D.N(x) - P(("arg", "n"))).is_zero()
            if ok: c.ok(key, "every element once", w)
            elif definite(x) and all(q == v for q in all_atoms(e.addr)): c.viol(key, "element %s for %s < %s instead of all n" % (D.N(e.addr), v, D.N(x)), w)
            else: c.undecided(key, str(e.addr), w)
        elif not E: c.viol(key, "nothing is visited", w)
        else: c.undecided(key, "%d stores" % len(E), w)
        return
    vs = [v for tag, v, *_ in D.S.probes if tag == "r"][0]
    for n_, (got, want) in enumerate(zip(vs, (a, b, a, b))): same(c, "%s:%d" % (name, n_), P(got), want, w)

def timer(c, name, fn):
    w = "include/BlasBooster/Utilities/ScopedTimer.h"
    D = Drv(fn, [], row=False)
    now, out, body = [], [], None
    for e in sorted(D.S.calls, key=lambda e: e.order):
        if re.search(r"chrono.*3nowEv", e.callee): now.append(e)
        elif e.callee == "vp_out": out.append(e)
        elif e.callee == "vp_body": body = e
        else: continue
        if e.guard != ALWAYS or e.loops: c.undecided(name + ":straight", "%s is called under a condition or in a loop" % e.callee, w); return
    if body is None: c.undecided(name, "the scope's body is not found", w); return
    kind = lambda e: int(str(P(e.args[0])))
    early = [e for e in out if e.order < body.order]
    c.ob(name + ":quiet", not early, "nothing is printed before the end of the scope", w)
    label = [e for e in out if kind(e) == 1]
    if len(label) == 1: same(c, name + ":label", P(label[0].args[1]), P(("arg", "s")), w)
    else: c.viol(name + ":label", "the label is printed %d times" % len(label), w)
    nums = [e for e in out if kind(e) in (3, 4)]
    if len(nums) != 1: c.viol(name + ":time", "%d numbers are printed" % len(nums), w); return
    v = P(nums[0].args[1])
    b0 = [e for e in now if e.order < body.order]; b1 = [e for e in now if e.order > body.order]
    wants = [P(("call", y.I["id"])) - P(("call", x.I["id"])) for x in b0 for y in b1]
    wants = [x * Fraction(1, 10**9) for x in wants]
    if any((v - x).is_zero() for x in wants): c.ok(name + ":time", "seconds since construction", w)
    elif all(isinstance(a, tuple) and a[0] in ("call", "arg", "udiv", "sdiv") for a in all_atoms(v)) and kind(nums[0]) == 3:
        c.viol(name + ":time", "prints %s: not the seconds between construction and destruction" % str(v)[:120], w)
    else: c.undecided(name + ":time", "prints %s" % str(v)[:120], w)

class Unknown(Exception): pass

def evaluate(p, env, D):
    """the value of an expression at a sample point"""
    r = Fraction(0)
    for mono, k in P(p).t.items():
        x = Fraction(k)
        for a in mono: x *= atom(a, env, D)
        r += x
    return r

def atom(a, env, D):
    if isinstance(a, tuple):
        if a[0] == "ld":
            k = str(a[1])
            if k in env: return env[k]
        if a[0] in ("fabs", "abs"): return abs(evaluate(a[1], env, D))
        if a[0] == "ite": return evaluate(a[2] if holds(a[1], env, D) else a[3], env, D)
        if a[0] == "bool": return Fraction(int(holds(a[1], env, D)))
        if a[0] == "call":
            e = [e for e in D.S.calls if e.I["id"] == a[1]]
            if e and e[0].callee in ("cabs", "hypot"):
                x, y = (evaluate(q, env, D) for q in e[0].args[:2])
                if x == 0: return abs(y)
                if y == 0: return abs(x)
            if e and e[0].callee in ("fabs",): return abs(evaluate(e[0].args[0], env, D))
    raise Unknown(str(a)[:60])

def holds(dnf, env, D):
    r = False
    for conj in dnf:
        t = True
        for l, pol in conj:
            if l[0] not in ("flt", "fle", "feq", "eq", "lt", "le", "slt", "sle"): raise Unknown(str(l)[:60])
            v = evaluate(l[1], env, D)
            t = t and ((v == 0 if l[0] in ("feq", "eq") else v <= 0 if l[0].endswith("le") else v < 0) == pol)
        r = r or t
    return r

def equal(c, name, fn):
    w = "include/BlasBooster/Utilities/EqualWithinNumericalAccuracy.h"
    D = Drv(fn, [], row=False)
    ta, tb = name.split("_")[2:]
    acc = [v for tag, v, *_ in D.S.probes if tag == "acc"][0]
    acc = [Fraction(P(x).const()) if not all_atoms(P(x)) else None for x in acc[:2]]
    if None in acc: c.undecided(name, "the accuracies are not constants", w); return
    K = max(acc)
    E = [e for e in D.S.effects if e.base == ("arg", "r")]
    if len(E) != 1 or E[0].guard != ALWAYS: c.undecided(name, "the result is not one value", w); return
    got = P(E[0].value)
    A, B = P(("ld", P(("arg", "a")), 8 if ta in "dz" else 4)), P(("ld", P(("arg", "b")), 8 if tb in "dz" else 4))
    g = got.single()
    lit = None
    if isinstance(g, tuple) and g[0] == "ite" and str(P(g[2])) == "1" and P(g[3]).is_zero() and len(g[1]) == 1 and len(list(g[1])[0]) == 1: lit = list(list(g[1])[0])[0]
    ok = False
    if lit and lit[0][0] == "flt" and not lit[1]: lit = (("fle", -P(lit[0][1])), True)
    if lit and lit[1]:
        l = lit[0]
        if l[0] == "eq" and K == 0 and ta == tb == "i": ok = (P(l[1]) - (A - B)).is_zero() or (P(l[1]) + (A - B)).is_zero()
        if l[0] == "fle":
            for q in all_atoms(P(l[1])):
                if not (P(l[1]) - (P(q) - K)).is_zero() or not isinstance(q, tuple): continue
                if q[0] == "fabs": ok = (P(q[1]) - (A - B)).is_zero() or (P(q[1]) + (A - B)).is_zero()
                if q[0] == "call":
                    e = [e for e in D.S.calls if e.I["id"] == q[1]][0]
                    im = (P(("ld", P(("arg", "a")) + 8, 8)) if ta == "z" else ZERO) - (P(("ld", P(("arg", "b")) + 8, 8)) if tb == "z" else ZERO)
                    ok = e.callee in ("cabs", "hypot") and any(all((P(x) - s * y).is_zero() for x, y, s in zip(e.args, (A - B, im), sg)) for sg in ((1, 1), (-1, -1), (1, -1), (-1, 1)))
    if ok: c.ok(name, "|a - b| <= %s" % float(K), w)
    bad = None; z = "z" in ta + tb
    h = K if K else Fraction(1)
    pts = [(x, x + d) for x in (Fraction(0), Fraction(1), Fraction(-3), Fraction(1000)) for d in (0, h, -h, h / 2, -h / 2, 2 * h, -2 * h, h * Fraction(1001, 1000), 10**6 * h, -10**6 * h)]
    pts += [(x, -x) for x in (Fraction(1), Fraction(-3), h)]
    if "i" in ta + tb: pts = [(x, y) for x in map(Fraction, range(-3, 4)) for y in map(Fraction, range(-3, 4))]
    for x, y in pts:
        for im, other in ((0, 0), (0, 5), (1, 0), (1, 2)) if z else ((0, 0),):
            o = Fraction(other)
            if im: env = {"a": o, "b": o, "8 + a": x, "8 + b": y}
            else: env = {"a": x, "b": y, "8 + a": o, "8 + b": o}
            re_ = env["a"] - env["b"]; ia = (env["8 + a"] if ta == "z" else 0) - (env["8 + b"] if tb == "z" else 0)
            if re_ and ia: continue
            try: r = evaluate(got, env, D)
            except Unknown: continue
            if bool(r) != (abs(re_ or ia) <= K): bad = (x, y, im, bool(r)); break
        if bad: break
    if bad: c.viol(name + ":at", "values %s and %s%s apart with accuracy %s: result is %s" % (float(bad[0]), float(bad[1]), " (imaginary)" if bad[2] else "", float(K), bad[3]), w)
    elif not ok: c.undecided(name, "result is %s" % str(got)[:100], w)


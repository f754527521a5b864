"""P12: value filters accept exactly their range, reject impossible ranges and are strictly ordered."""
import itertools, json
from vlib import *
import orders

TWO = {"ei", "ii", "ee", "fi"}
def valid(k, lo, hi):
    if k in ("en", "fn"): return lo[0] * lo[1] >= 0
    a, b = lo[0] * lo[1], hi[0] * hi[1]
    if a < 0 or b < 0: return False
    return a <= b if k == "ii" else a < b
def accepts(k, lo, hi, m):
    a, b = lo[1], hi[1]
    if k == "end": return m > 0
    return {"en": a < m, "fn": a < m, "ei": a < m <= b, "fi": a < m <= b, "ii": a <= m <= b, "ee": a < m < b}[k]

VALS = [(1, r) if r else (0, 0) for r in range(4)] + [(-1, r) for r in range(1, 4)]

def where(fn, pick=lambda i: True):
    for b in fn["blocks"]:
        for i in reversed(b["insts"]):
            for l in i.get("loc") or []:
                if "/include/BlasBooster/" in l["file"] and pick(i): return "%s:%d (%s)" % (l["file"].split("/include/")[1], l["line"], l["fn"])
    return ""

def load(c):
    js = c.compile(VERIF + "/drivers/filters.cpp", opts=["--cut-throws", "--devirt"])
    fns = {f["name"]: f for f in json.load(open(js))["functions"]}
    c.functions += len(fns)
    return fns

def run(c):
    c.rules = ["for every filter type the compiled predicate is interpreted abstractly over all order types of (value, lower bound, upper bound, zero), including not-a-number values, and equals the documented range in each",
               "construction is left by an exception exactly for the documented impossible bounds, in every order type",
               "the ordering of filters, for all pairs of filter types and all order types of their bounds, is irreflexive, asymmetric, transitive, and relates any two filters that differ"]
    c.assumptions = ["bounds are numbers (not NaN)"]
    c.floor = 40
    fns = load(c)
    for name, f in sorted(fns.items()):
        if name.startswith("drv_acc_"):
            with c.guard(name): acc(c, name, f)
    less(c, fns)

def show(v): return "NaN" if v == orders.NAN else "%s%s" % ("-" if v[0] < 0 else "", "0" if v[1] == 0 else "%g" % v[1] if isinstance(v[1], orders.Fraction) else "r%d" % v[1])

def acc(c, name, f):
    k = name.split("_")[2]
    cut = next((i for b in f["blocks"] for i in b["insts"] if i["op"] in ("fptosi", "fptoui")), None)
    if cut: c.viol(name + ":range", "a value or a bound is truncated to an integer before it is compared", where(f, lambda i: i is cut)); return
    bad = badc = None; n = 0
    vals = VALS; cs = orders.constants(f); orders.FIXED.clear()
    if cs:                                            # the magnitudes around the constants stand for all
        if len(cs) > 2: raise Undecided("many constants")
        m = orders.around(cs); vals = [(0, 0)] + [(s, x) for x in m for s in (1, -1)]
        orders.FIXED.update({x: (1 if float(x) > 0 else -1, abs(orders.Fraction(float(x)))) for x in cs})
    for lo, hi in itertools.product(vals, vals):
        for x in vals + [orders.NAN]:
            n += 1
            want = valid(k, lo, hi) if k != "end" else True
            outs = orders.run(f, [lo, hi, x])
            for pr, how in outs:
                if (how == "ret") != want:
                    if badc is None: badc = "lower %s, upper %s: %s" % (show(lo), show(hi), "rejected" if how == "raise" else "accepted")
                elif how == "ret":
                    got = bool(pr[-1][1][0])
                    w = x != orders.NAN and accepts(k, lo, hi, x[1])
                    if got != w and bad is None: bad = "value %s with lower bound %s, upper bound %s is %s" % (show(x), show(lo), show(hi), "accepted" if got else "rejected")
    c.ob(name + ":range", bad is None, bad or "range matches in %d order types" % n, where(f, lambda i: i["op"] == "fcmp"))
    c.ob(name + ":bounds", badc is None, badc or "impossible bounds are rejected, possible ones accepted", where(f))

def less(c, fns):
    kinds = {"en", "ei", "ii", "ee", "fn", "fi"}
    R = [(1, r) if r else (0, 0) for r in range(6)]
    def members(k): return [(k, a, b) for a in R for b in (R if k in TWO else [(0, 0)]) if valid(k, a, b)]
    rel = {}; und = set()
    for a, b in itertools.product(sorted(kinds), repeat=2):
        f = fns.get("drv_less_%s_%s" % (a, b))
        if f is None: continue
        with c.guard("less_%s_%s" % (a, b)):
            r = {}
            for x in members(a):
                for y in members(b):
                    res = {bool(pr[-1][1][0]) for pr, how in orders.run(f, [x[1], x[2], y[1], y[2]]) if how == "ret"}
                    if len(res) != 1: raise Undecided("not decided by the order of the bounds")
                    r[x, y] = res.pop()
            rel[a, b] = r
    def sh(x): return "%s(%s%s)" % (x[0], show(x[1]), "," + show(x[2]) if x[0] in TWO else "")
    get = lambda x, y: rel[x[0], y[0]][x, y]
    for (a, b), r in sorted(rel.items()):
        key = "less_%s_%s" % (a, b); w = where(fns["drv_" + key])
        if (b, a) in rel:
            bad = next(("%s and %s are each less than the other" % (sh(x), sh(y)) for (x, y), v in r.items() if v and get(y, x)), None)
            c.ob(key + ":asymmetric", bad is None, bad or "never both ways", w)
            bad = next(("%s and %s are told equal" % (sh(x), sh(y)) for (x, y), v in r.items() if x != y and not v and not get(y, x)), None)
            c.ob(key + ":distinguishes", bad is None, bad or "different filters are ordered", w)
    for ks in itertools.product(sorted(kinds), repeat=3):
        if not ((ks[0], ks[1]) in rel and (ks[1], ks[2]) in rel and (ks[0], ks[2]) in rel): continue
        bad = None
        r1, r2, r3 = rel[ks[0], ks[1]], rel[ks[1], ks[2]], rel[ks[0], ks[2]]
        for x in members(ks[0]):
            for y in members(ks[1]):
                if not r1[x, y]: continue
                for z in members(ks[2]):
                    if r2[y, z] and not r3[x, z]: bad = "%s < %s < %s" % (sh(x), sh(y), sh(z)); break
                if bad: break
            if bad: break
        c.ob("less_%s_%s_%s:transitive" % ks, bad is None, bad or "transitive", where(fns["drv_less_%s_%s" % ks[:2]]))
    for name, f in sorted(fns.items()):
        if name.startswith("drv_cmp_"):
            with c.guard(name):
                a, b = name.split("_")[2:]
                bad = None
                for x in members(a):
                    for y in members(b):
                        res = {bool(pr[-1][1][0]) for pr, how in orders.run(f, [x[1], x[2], y[1], y[2]]) if how == "ret"}
                        if res != {get(x, y)}: bad = "the comparator disagrees with < for %s, %s" % (sh(x), sh(y))
                c.ob(name, bad is None, bad or "the comparator orders by <", where(f))

"""P11: every threshold query returns the setting of its own name; copies carry every setting."""
from vlib import *
from content import *
import itertools
from cells import ev
from mat import check_eq, insts

FIELDS = {"sig": "significance threshold", "zz": "zero", "sf": "sparse float", "df": "dense float", "sd": "sparse double", "dd": "dense double",
          "mss": "multiple (sparse double, sparse float)", "msd": "multiple (sparse double, dense float)", "minb": "minimum block size", "maxb": "maximum block size"}
HOW = {"get": "of a table made from settings", "cpy": "of a copied table", "asg": "of a table assigned to", "src": "of a fresh table assigned to"}

def settled(p):
    """a word of an argument as it was on entry"""
    def ok(a): return isinstance(a, tuple) and a[0] in ("ld", "int2fp", "fp", "cast", "sitofp") and all(all(isinstance(x, tuple) and x[0] in ("arg", "a") or ok(x) for x in q.atoms()) for q in polys_in(a))
    return all(ok(a) for a in p.atoms())

def leaves(p):
    """words of the arguments as they were on entry; None if there is anything else"""
    out = set()
    for a in all_atoms(p):
        if not isinstance(a, tuple): return None
        if a[0] == "ld":
            if not settled(P(a)): return None
            out.add(a)
        elif a[0] not in ("arg", "a", "ite", "smin", "smax", "umin", "umax"): return None
    return out

def witness_values(got, want):
    """settings for which the two differ; None if none of the small ones does or the values are not closed forms"""
    la, lb = leaves(got), leaves(want)
    if la is None or lb is None: return None
    place = lambda a: repr(a[1])                     # the word's address; its width does not matter
    at = sorted({place(a) for a in la | lb})
    if len(at) > 6: return None
    some = False
    for xs in sorted(itertools.product((1, 2, 3, 0), repeat=len(at)), key=sum):
        val = dict(zip(at, xs)); env = {a: P(val[place(a)]) for a in la | lb}
        x, y = ev(got, env), ev(want, env)
        if not (x.is_const() and y.is_const()): return None
        if x != y: return "for %s it is %s instead of %s" % (", ".join(sorted({"%s=%s" % (show(P(a)), val[place(a)]) for a in la | lb})), show(x), show(y))
    return None

def narrowed(fn):
    """a conversion to a smaller type than the setting's own"""
    for b in fn.live:
        for I in insts(fn, b):
            if I["op"] in ("fptrunc", "fptosi", "fptoui"): return I
            if I["op"] in ("ashr", "and") and I["ops"][1].get("c") in (8, 16, 24, 40, 48, 56, 255, 65535): return I
            if I["op"] in ("trunc", "sext", "zext") and re.search(r"\bi(8|16)\b", str(I.get("ty", "")) + " " + str(I.get("srcty", ""))): return I
    return None

def run(c):
    c.rules = ["the value returned by each query, followed through construction, copy construction and assignment of the table, is the word of the settings record at the member of that query's name"]
    c.assumptions = ["BRAINTWISTER_RECORD (not installed) declares one member per entry; the record stand-in in /verif/stubs does so"]
    c.floor = 60
    mod = c.load(VERIF + "/drivers/threshold.cpp", opts=["--words=512", "--cut-throws"])
    for name, fn in sorted(mod.items()):
        if not name.startswith("drv_"): continue
        _, how, q = name.split("_", 2)
        with c.guard(name):
            m = plain(fn)
            p = m.probes.get("r")
            if p is None: c.undecided(name, "no value observed"); continue
            what = "%s%s %s" % (FIELDS[q.split("_")[0]], {"_f": ", single precision", "_d": ", double precision"}.get(q[-2:], ""), HOW[how])
            where = where_in(fn, "Threshold.h")
            if p["v0"] != p["v1"] and settled(p["v0"]) and settled(p["v1"]):
                c.viol(name, "%s: the value is %s instead of %s" % (what, show(p["v1"]), show(p["v0"])), where)
            elif narrowed(fn): c.viol(name, "%s: the value is narrowed to a smaller type" % what, inst_loc(narrowed(fn)) or where)
            elif p["v0"] != p["v1"] and witness_values(p["v1"], p["v0"]): c.viol(name, "%s: %s" % (what, witness_values(p["v1"], p["v0"])), where)
            else: check_eq(c, name, p["v1"], p["v0"], what, where)
            c.ob(name + ":returns", bool(m.S.rets) or any(fn.term(b)["op"] == "ret" for b in fn.live), "the query returns")

"""P05: buffers are released exactly once, external memory never."""
from vlib import *
import own as ow

def run(c):
    c.rules = ["typestate data flow over every path (exceptional ones included) of one operation followed by the destruction of all objects: every buffer allocated, and every buffer an input's destructor would have released, is released exactly once; nothing else is released"]
    c.assumptions = ["distinct parameters are distinct objects", "an object owns what its destructor releases", "nodes of standard containers are left to the standard library"]
    c.floor = 45
    js = c.compile(VERIF + "/drivers/owner.cpp", tag="own", defs=["VP_THROWING"], opts=["--prefix=drv_", "--keep-new"])
    fs = {f["name"]: f for f in json.load(open(js))["functions"]}
    c.functions += len(fs)
    dtor = {}
    for t in ("sv", "sh", "sp", "dd", "sd"):
        try: dtor[t] = ow.Own(fs["drv_own_%s_dtor" % t]).paths
        except ow.TooMany: c.undecided("dtor " + t, "too many paths")
    for name, raw in sorted(fs.items()):
        if not name.startswith("drv_own_"): continue
        t, op = name.split("_")[2:4]
        with c.guard(name):
            try: one(c, name, raw, t, op, dtor)
            except ow.TooMany: c.undecided(name, "too many paths")

# inputs destroyed at the end, by operation: argument number -> type
def inputs(t, op):
    if op in ("assign", "moveassign", "swap"): return {0: t, 1: t}
    if op in ("dtor", "copy", "move", "selfassign", "selfmove", "resize", "load", "shrink", "fill", "inc", "incs"): return {0: t}
    if op == "product": return {2: t}
    return {}

def where(raw):
    return where_in(raw, "SparseStorage.h", "/Storage.h", "Matrix.h", "Memory.h")

def one(c, name, raw, t, op, dtor):
    o = ow.Own(raw); ins = inputs(t, op)
    at = {i["id"]: i for b in raw["blocks"] for i in b["insts"]}
    def loc(i):
        for l in at[i].get("loc") or []:
            if "/include/BlasBooster/" in l["file"]: return "%s:%d" % (l["file"].replace(REPO + "/", ""), l["line"])
        return where(raw)
    bad = None; n = 0
    if not o.paths: c.undecided(name, "no path leaves the function"); return
    for p in o.paths:
        # what the inputs own on entry, in every case the path leaves open
        cases = [(p, ())]
        for k, ty in ins.items():
            if ty not in dtor: raise Undecided("destructor")
            nx = []
            for q, exp in cases:
                for d in dtor[ty]:
                    r = [q.copy()]
                    for f, val in d.facts.items():
                        f = ow.rename(f, {0: k})
                        r = [y for x in r for tv, y in o.truth(x, f) if tv == val]
                    for x in r: nx.append((x, exp + tuple(ow.rename(v, {0: k}) for v, _ in d.freed)))
            cases = nx
        for q, exp in cases:
            n += 1
            isnull = lambda v: v == ow.NULL or q.facts.get(("eq", v, ow.NULL)) is True
            # q: entry ownership decided; releases on this path
            left = [v for v in exp if not isnull(v)] + list(p.allocs)
            if len(set(left)) < len(left): left = sorted(set(left), key=left.index)
            for v, i in p.freed:
                if isnull(v): continue
                if v in left: left.remove(v)
                elif bad is None:
                    if v[0] == "op": raise Undecided("an unknown pointer is released")
                    again = v in exp or v in p.allocs
                    bad = ("released twice: " if again else "memory that is not owned is released: ") + sh(v, at, loc) + " on a path that " + p.how, loc(i)
            if left and bad is None:
                v = left[0]
                bad = ("never released: " + sh(v, at, loc) + " on a path that " + p.how, loc(v[1]) if v[0] == "buf" else where(raw))
    if bad: c.viol(name, bad[0], bad[1])
    else: c.ok(name, "on %d paths (%d ownership cases) every buffer is released exactly once" % (len(o.paths), n), where(raw))

def sh(v, at, loc):
    if v[0] == "buf": return "the buffer allocated at " + loc(v[1])
    if v[0] == "init": return "the buffer of operand %s at offset %s" % (v[1][1] if v[1][0] == "arg" else v[1], v[2])
    return str(v)

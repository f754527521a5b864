"""Matrix-level view of a driver summary: probe layouts, well-formedness assumptions, content helpers."""
from content import *

DENSE = ["esz", "r", "c", "s", "ss", "p"]
SPARSE = ["esz", "r", "c", "s", "nnz", "so", "nk", "v", "k", "o"]
ZERO_ = ["r", "c", "s"]
KIND = {6: "dense", 10: "sparse", 3: "zero"}

class Mat:
    """one probed matrix"""
    def __init__(s, M, tag): s.M, s.tag, s.kind = M, tag, M.kinds[tag]
    def f(s, field): return s.M.probe(s.tag, field)
    @property
    def r(s): return s.f("r")
    @property
    def c(s): return s.f("c")
    @property
    def size(s): return s.f("s")
    def reg(s, x=None): return s.tag + "." + (x or ("p" if s.kind == "dense" else "v"))

class Drv(Model):
    """inputs: tags of well-formed input matrices; same: list of (poly name, poly) facts"""
    def __init__(s, fn, inputs=(), facts=(), row=False, heap=False):
        s.kinds = {}; s.row = row
        def layout(tag, k):
            s.kinds[tag] = KIND[k]
            l = {6: DENSE, 10: SPARSE, 3: ZERO_}[k]
            return l
        # pointer fields carry their element size
        def lay2(tag, k, vals):
            if k not in KIND: return ["v%d" % i for i in range(k)]
            l = layout(tag, k); out = []
            for f in l: out.append(f + (":8" if f in ("k", "o") else ":%d" % int(vals[0].const()) if f in ("p", "v") else ""))
            return out
        super().__init__(fn, lay2, {}, "heap" if heap else None)
        a = {}
        for t in inputs:
            k = s.kinds.get(t)
            if k is None: continue
            r, c = n(t + ".r"), n(t + ".c")
            a[("n", t + ".s")] = r * c
            if k == "dense": a[("n", t + ".ss")] = r * c
            if k == "sparse":
                a[("n", t + ".nk")] = n(t + ".nnz")
                a[("n", t + ".so")] = (r if row else c) + 1
        s.assume = {}
        for k, v in list(a.items()) + list(facts): s.assume[k] = P(v)
        # facts may rewrite inside the assumed values
        f = dict((k, P(v)) for k, v in facts)
        s.assume = {k: subst(v, f) for k, v in s.assume.items()}
    def m(s, tag): return Mat(s, tag)
    def lineN(s, t):   # number of lines and line length of a matrix with shape of tag t
        r, c = s.N(n(t + ".r")), s.N(n(t + ".c"))
        return (r, c) if s.row else (c, r)
    def refuses(s): return not s.S.rets and not any(s.fn.term(b)["op"] == "ret" for b in s.fn.live)

def same_shape(a, b): return [(("n", b + ".r"), n(a + ".r")), (("n", b + ".c"), n(a + ".c"))]

def explain(diff):
    return "; ".join("%s %s" % (d[0], d[1].show()) + (" (coefficient should be %s)" % d[2] if d[0] == "coef" else "") for d in diff[:4])

def check_content(c, key, D, reg, size, want, where=None, base_want=None):
    """content of a region equals the specification: list of contributions on a zero base
    (base_want 'old': the increments on top of the old content)"""
    with c.guard(key):
        base, got = D.content(reg, D.N(size))
        w = where or (got[0].where if got else "")
        if base_want == "old":
            if base != "old": c.viol(key, "the previous content is overwritten", w); return
        elif base == "old":
            # no effect at all, or increments on unknown content
            if not is_zero_size(size): 
                c.viol(key, "not every element is assigned before use: " + ("no assignment" if not got else explain([("adds", x) for x in got])), w); return
        d = compare(got, want)
        if not d: c.ok(key, "content = " + "; ".join(x.show() for x in want[:3]), w); return
        op = set()
        for x in d:
            q = x[1]
            for pp in q.polys(): op |= set(opaque_in(pp))
            for a in dnf_atoms(q.guard): op |= set(opaque_in(P(a))) if isinstance(a, tuple) else set()
        msg = "content differs from the specification: " + explain(d)
        if op: c.undecided(key, msg + " [opaque: %s]" % ", ".join(sorted(op)[:3]), w)
        else: c.viol(key, msg, d[0][1].where or w)

def is_zero_size(p): return False

def check_eq(c, key, got, want, msg, where="", known=()):
    """polynomial equality; opaque mismatch is undecided"""
    if got == want: c.ok(key, "%s: %s" % (msg, show(want)), where); return
    op = [x for x in opaque_in(got - want) if not x.startswith(tuple(known))] if known else opaque_in(got - want)
    if op: c.undecided(key, "%s: %s instead of %s [opaque %s]" % (msg, show(got), show(want), op[:2]), where)
    else:
        import cells
        if any(isinstance(a, tuple) and a[0] == "ite" for a in all_atoms(got - want)) and cells.agree_value(got, want): c.undecided(key, "%s: %s differs in form from %s, but not for small shapes" % (msg, show(got), show(want)), where)
        else: c.viol(key, "%s: %s instead of %s" % (msg, show(got), show(want)), where)

def operands_unchanged(c, name, D, pairs):
    """fields probed before and after are equal, and no store reaches the operands' storage"""
    for t, t2 in pairs:
        if t not in D.kinds: continue
        if t2 in D.kinds:
            for f in D.probes[t]:
                if f.startswith("@"): continue
                x, y = D.probes[t][f], D.probes[t2].get(f)
                with c.guard(name + ":%s.%s" % (t, f)):
                    if isinstance(x, tuple): c.ob(name + ":operand %s.%s" % (t, f), x == y, "the operand's %s pointer is unchanged" % f)
                    else: check_eq(c, name + ":operand %s.%s" % (t, f), D.N(y), D.N(x), "operand field %s" % f)
        for rn in D.regions:
            if rn.startswith(t + ".") and D.regions[rn].base is not None:
                ef = D.effects_on(rn)
                c.ob(name + ":operand store %s" % rn, not ef, "stores to the operand's storage: " + "; ".join(inst_loc(e.I) for e in ef[:3]) if ef else "no store reaches the operand's storage", inst_loc(ef[0].I) if ef else "")

def insts(fn, b):
    """instructions of a block"""
    return fn.blocks[b]["insts"]

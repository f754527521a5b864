"""Whole-matrix algebra: what a compound operation computes out of elementary ones, as a formal sum of values and shapes (drivers/algebra.cpp)."""
import ir
from content import *
from mat import *
from vlib import where_in

SRC = "algebra.cpp"
FLAGS = ["-fno-access-control"]
NM = {"zz": "zero", "sf": "sparse float", "sd": "sparse double", "df": "dense float", "dd": "dense double", "ms": "sparse double + sparse float", "md": "sparse double + dense float"}
DT = {"zz": "ZZ", "sf": "SF", "sd": "SD", "df": "DF", "dd": "DD", "ms": "MS", "md": "MD"}
OPS = {"add": "A + B", "sub": "A - B", "ads": "A += B", "sus": "A -= B", "mul": "A * B", "norm1": "norm<NormOne>", "norm2": "norm<NormTwo>", "normx": "norm<NormMax>"}

class Alg:
    """values of the probes of one driver, in terms of the operands' values (v) and shapes (s)"""
    def __init__(s, fn):
        s.fn, s.S = fn, ir.summarise(fn)
        s.calls = {("call", e.I["id"]): e for e in s.S.calls}
        s.probes = {t: (vs, b, o) for t, vs, b, o, I in s.S.probes}
        s.isb = is_ptr_atom(fn)
        s.stores = {}
        for e in s.S.effects: s.stores.setdefault(e.base, []).append(e)
    def val(s, p, order):
        """follow loads from objects made on the way to what was stored there last; formal products by what they are applied to"""
        def fa(a):
            if not isinstance(a, tuple): return P(a)
            if a[0] == "ld":
                ad = s.val(a[1], order); b, o = base_and_offset(ad, s.isb); b = norm_base(b, s.isb)
                if b is not None and b[0] in ("alloc", "obj") and o.is_const():
                    es = [e for e in s.stores.get(b, []) if e.order < order and not (e.kind == "store" and e.addr.is_const() and not e.loops and (e.addr.const() + e.size <= o.const() or e.addr.const() >= o.const() + a[2]))]
                    if es:
                        e = max(es, key=lambda e: e.order)
                        if e.kind == "store" and e.addr == o and e.size == a[2] and not e.loops and e.guard == TRUE: return s.val(e.value, e.order)
                        if e.kind == "set" and e.guard == TRUE and not e.loops and e.addr.is_const() and e.nbytes.is_const() and e.addr.const() <= o.const() and o.const() + a[2] <= e.addr.const() + e.nbytes.const() and e.value.is_zero(): return ZERO
                        if e.kind == "copy" and e.guard == TRUE and not e.loops and e.addr.is_const() and e.nbytes.is_const() and e.addr.const() <= o.const() and o.const() + a[2] <= e.addr.const() + e.nbytes.const():
                            return s.val(P(("ld", e.value + o - e.addr, a[2])), e.order)
                        return P(("unknown", "object changed in several ways"))
                return P(("ld", ad) + tuple(a[2:]))
            if a in s.calls:
                e = s.calls[a]
                nm = {"vp_times": "times", "vp_shape": "shape", "vp_norm": "norm"}.get(e.callee)
                if nm: return P((nm,) + tuple(s.val(x, e.order) for x in e.args))
                return P(a)
            return P(rebuild(a, lambda q: s.val(q, order)))
        return map_atoms(p, fa)
    def field(s, tag, k):
        vs, b, o = s.probes[tag]
        return s.val(vs[k], o)
    def arg(s, name, off): return P(("ld", P(("arg", name)) + off, 8))

def closed(p):
    """built from operands' values only"""
    for a in all_atoms(p):
        if isinstance(a, tuple) and a[0] == "ld" and not any(isinstance(x, tuple) and x[0] == "arg" for x in all_atoms(a[1])): return False
        if isinstance(a, tuple) and a[0] not in ("ld", "arg", "times", "shape", "norm"): return False
    return True

def conditions(p):
    """literals that decide between values"""
    out = set()
    for a in all_atoms(p):
        if isinstance(a, tuple) and a[0] == "ite":
            for cl in a[1]:
                for x, pol in cl: out.add(x)
    return out

def wrong(got, want):
    """differs whatever the conditions turn out to be, for some number of rows and columns"""
    if not conditions(got): return closed(got)
    marks = {abs(int(a[1].t.get((), 0))) + d for a in conditions(got) if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], Poly) for d in (-1, 0, 1)}
    for N in [5, 1000] + sorted(m for m in marks if m > 2)[:12]:
        def dim(p):
            def fa(a): return P(N) if isinstance(a, tuple) and a[0] == "ld" and a[1].t.get((), 0) in (8, 16) and len(a[1].t) == 2 else P(a)
            return map_atoms(p, fa)
        known, open_ = {}, []
        for a in conditions(got):
            q = dim(a[1]) if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], Poly) else None
            if a[0] in ("eq", "lt", "slt", "ult") and q is not None and q.is_const(): known[a] = q.const() == 0 if a[0] == "eq" else q.const() < 0
            else: open_.append(a)
        if len(open_) > 8: return False
        bad = True
        for k in range(2 ** len(open_)):
            f = dict(known); f.update({a: bool(k >> i & 1) for i, a in enumerate(open_)})
            leaf = cond_poly(got, lambda a: f.get(a))
            if leaf == want or not closed(leaf) or conditions(leaf): bad = False; break
        if bad: return True
    return False

def same(c, key, got, want, msg, where):
    if got == want: c.ok(key, "%s: %s" % (msg, want), where)
    elif wrong(got, want): c.viol(key, "%s: %s instead of %s" % (msg, got, want), where)
    else: c.undecided(key, "%s: %s is not understood" % (msg, str(got)[:200]), where)

def halves(k): return 2 if k[0] == "m" else 1

def operation(c, name, fn, files):
    """one binary operation: result, shape, operands afterwards"""
    op, a, b = name.split("_")[1:]
    dyn = op.startswith("dyn"); op = op[3:] if dyn else op
    w = where_in(fn, *files)
    with c.guard(name):
        D = Alg(fn)
        title = ("dynamic " if dyn else "") + "%s for %s and %s" % (OPS[op], NM[a], NM[b])
        if "C" not in D.probes:
            c.viol(name + ":result", "%s never returns normally" % title, w); return
        A = [D.field("A", 0), D.field("A", 1)]; B = [D.field("B", 0), D.field("B", 1)]
        total = lambda x: x[0] + x[1]
        one = D.field("A", 2); env = {}
        for t in ("A", "B"):
            for k in (2, 3):
                q = D.field(t, k).single()
                if q is not None: env[q] = one
        if op == "mul":
            want = ZERO
            for x in A[:halves(a)]:
                for y in B[:halves(b)]: want = want + P(("times", x, y))
            shape = P(("shape", one, one))
        else:
            want = total(A) + (total(B) if op in ("add", "ads") else -total(B)); shape = one
        got = D.field("C", 0) + D.field("C", 1)
        same(c, name + ":value", got, want, title, w)
        for k in (2, 3): same(c, name + ":shape%d" % k, subst(D.field("C", k), env), shape, "shape of " + title, w)
        if op in ("add", "sub", "mul"):
            same(c, name + ":A", D.field("A2", 0) + D.field("A2", 1), total(A), "left operand after " + title, w)
            for k in (2, 3): same(c, name + ":A%d" % k, subst(D.field("A2", k), env), one, "left operand's shape after " + title, w)
        else:
            same(c, name + ":A", D.field("A2", 0) + D.field("A2", 1), want, "left operand after " + title, w)
            if "same" in D.probes: same(c, name + ":same", D.field("same", 0), ONE, "the result is the left operand itself, " + title, w)
        for k in (0, 1): same(c, name + ":B%d" % k, D.field("B2", k), B[k], "right operand after " + title, w)
        for k in (2, 3): same(c, name + ":B%d" % k, subst(D.field("B2", k), env), one, "right operand's shape after " + title, w)

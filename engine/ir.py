"""Value-flow summaries over the normalised IR exported by irx.

Nothing here executes the analysed program: a function is turned into
  - probes   (what the API reports at an observation point, as polynomials)
  - effects  (element stores: region, affine address, value, loops, guard)
  - calls    (opaque external calls with their arguments)
Integers, pointers and real numbers are all kept as multivariate polynomials
over atoms (arguments, loop induction variables, element loads, ...); widening
and narrowing casts are the identity, unsigned division is exact.
"""
import json
from fractions import Fraction as Fr
from itertools import permutations, product

# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ("t", "_k")
    def __init__(self, t=None):
        self.t = {m: c for m, c in (t or {}).items() if c != 0}
        self._k = None
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(((m, c) for m, c in self.t.items()), key=lambda x: (len(x[0]), repr(x[0]))))
        return self._k
    def __hash__(self): return hash(self.key())
    def __eq__(self, o): return isinstance(o, Poly) and self.t == o.t
    def __repr__(self): return show(self)
    def __add__(self, o):
        o = P(o); t = dict(self.t)
        for m, c in o.t.items(): t[m] = t.get(m, 0) + c
        return Poly(t)
    __radd__ = __add__
    def __neg__(self): return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o): return self + (-P(o))
    def __rsub__(self, o): return P(o) - self
    def __mul__(self, o):
        o = P(o); t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2, key=repr)); t[m] = t.get(m, 0) + c1 * c2
        return Poly(t)
    __rmul__ = __mul__
    def is_const(self): return all(m == () for m in self.t)
    def const(self): return self.t.get((), Fr(0))
    def is_zero(self): return not self.t
    def atoms(self):
        s = set()
        for m in self.t: s.update(m)
        return s
    def single(self):
        """the atom if the polynomial is exactly one atom, else None"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1: return m[0]
        return None
    def coeff(self, atom):
        """(coefficient polynomial of atom^1, rest); None when not linear in atom"""
        a, r = {}, {}
        for m, c in self.t.items():
            n = m.count(atom)
            if n == 0: r[m] = c
            elif n == 1:
                l = list(m); l.remove(atom); a[tuple(l)] = a.get(tuple(l), 0) + c
            else: return None
        return Poly(a), Poly(r)
    def primitive(self):
        """divided by the common factor of its integer coefficients"""
        import math
        g = 0
        for c in self.t.values():
            if c.denominator != 1: return self
            g = math.gcd(g, int(c))
        return self if g <= 1 else Poly({m: c / g for m, c in self.t.items()})
    def divmono(self, q):
        """exact division by a single-monomial polynomial q, or None"""
        if len(q.t) != 1: return None
        (m, c), = q.t.items(); out = {}
        for n, d in self.t.items():
            l = list(n)
            for a in m:
                if a not in l: return None
                l.remove(a)
            out[tuple(l)] = out.get(tuple(l), 0) + d / c
        return Poly(out)

def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, (int, Fr)): return Poly({(): Fr(x)})
    return Poly({(x,): Fr(1)})
ZERO, ONE = P(0), P(1)

def map_atoms(p, f):
    """rebuild a polynomial replacing each atom by the polynomial f(atom)"""
    out = ZERO
    for m, c in p.t.items():
        q = P(c)
        for a in m: q = q * f(a)
        out = out + q
    return out

def subst(p, env):
    """deep substitution: env maps atoms to polynomials; nested keys are rewritten too"""
    if not env: return p
    memo = {}
    def fa(a):
        if a in env: return env[a]
        if a in memo: return memo[a]
        if isinstance(a, tuple) and a[0] in BINDERS:
            e2 = {k: v for k, v in env.items() if k != a[1]}
            t, n = subst(a[3], e2), subst(a[2], env)
            if a[0] == "sum": r = mk_sum(a[1], n, t) if t != a[3] else (P((a[0], a[1], n, t)) if not n.is_zero() else ZERO)
            else: r = P((a[0], a[1], n, t, subst(a[4], env)))
        elif isinstance(a, tuple) and a[0] == "ite":
            r = mk_ite(renorm_dnf(subst_dnf(a[1], env)), subst(a[2], env), subst(a[3], env))
        elif isinstance(a, tuple) and a[0] == "udiv":
            r = udiv(subst(a[1], env), subst(a[2], env))
        elif isinstance(a, tuple) and a[0] in ("umax", "umin", "smax", "smin"):
            r = minmax(a[0], [subst(x, env) for x in a[1:]])
        else: r = P(rebuild(a, lambda q: subst(q, env)))
        s = r.single()
        if s is not None and s != a and s in env: r = env[s]
        memo[a] = r
        return r
    return map_atoms(p, fa)

def rebuild(a, f):
    """apply f to every Poly nested inside the atom tuple a"""
    if isinstance(a, Poly): return f(a)
    if isinstance(a, tuple): return tuple(rebuild(x, f) for x in a)
    if isinstance(a, frozenset): return frozenset(rebuild(x, f) for x in a)
    return a

def polys_in(a):
    if isinstance(a, Poly):
        yield a
        for b in a.atoms(): yield from polys_in(b)
    elif isinstance(a, (tuple, frozenset)):
        for x in a: yield from polys_in(x)

def all_atoms(p):
    out = set()
    def go(q):
        for a in q.atoms():
            if a in out: continue
            out.add(a)
            for x in (a if isinstance(a, tuple) else ()): walk(x)
    def walk(x):
        if isinstance(x, Poly): go(x)
        elif isinstance(x, (tuple, frozenset)):
            for y in x: walk(y)
    go(p); return out

BINDERS = ("sum", "maxred", "minred")
def bnd_depth(p):
    d = 0
    for a in all_atoms(p):
        if isinstance(a, tuple) and a[0] == "bnd": d = max(d, a[1])
    return d

import itertools as _it
_fresh = _it.count()
def mk_sum(var, n, term):
    """sum of term over var = 0 .. n-1 with a canonical bound variable; constant factors are pulled out"""
    if term.is_zero() or P(n).is_zero(): return ZERO
    if var not in all_atoms(term): return term * n
    if len(term.t) > 1:
        out = ZERO
        for m, c in term.t.items(): out = out + mk_sum(var, n, Poly({m: c}))
        return out
    (m, c), = term.t.items()
    if len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == "ite":
        _, g, x, y = m[0]
        if y.is_const() and x.is_const():
            k = x - y
            if k.is_const() and not k.is_zero() and (k != ONE or not y.is_zero()):
                return y * n * c + P(c) * k * mk_sum(var, n, P(("ite", g, ONE, ZERO)))
            if k == ONE and y.is_zero():                # count one of a condition and its complement
                h = counted_as(g)
                if h is not None: return P(n) * c - P(c) * mk_sum(var, n, P(("ite", h, ONE, ZERO)))
    out = [a for a in m if a != var and not (isinstance(a, tuple) and var in all_atoms(P(a)))]
    inn = [a for a in m if a not in out]
    t = Poly({tuple(sorted(inn, key=repr)): Fr(1)})
    if var[0] == "bnd":
        fresh = ("iv", "bnd", next(_fresh)); t = subst(t, {var: P(fresh)}); var = fresh
    b = ("bnd", 1 + bnd_depth(t))
    return Poly({tuple(sorted(out, key=repr)): c}) * P(("sum", b, P(n), subst(t, {var: P(b)})))

def counted_as(g):
    """the complement of g if that is the one to count"""
    if len(g) == 1:
        (cj,) = g
        if len(cj) != 1: return None
        ((a, pol),) = cj
        if a[0] in ("eq", "feq") and pol or a[0] in ("lt", "flt") and not pol: return frozenset([frozenset([(a, not pol)])])
        return None
    if len(g) > 1 and all(len(cj) == 1 for cj in g): return frozenset([frozenset((a, not p) for cj in g for a, p in cj)])
    return None

def sum_term(a, x):
    """summand of the sum atom a at index x"""
    return subst(a[3], {a[1]: P(x)})

def fold_sums(p):
    """SUM{b<n} t(b) + t(n)  ->  SUM{b<n+1} t(b)"""
    for _ in range(4):
        done = True
        for a in p.atoms():
            if isinstance(a, tuple) and a[0] == "sum":
                c = p.coeff(a)
                if c is None or not c[0].is_const(): continue
                t = sum_term(a, a[2]) * c[0]
                if t.t and all(c[1].t.get(m) == k for m, k in t.t.items()):
                    p = c[1] - t + c[0] * P(("sum", a[1], a[2] + 1, a[3])); done = False; break
        if done: break
    return p

NAMES = {}
def show_atom(a):
    if a in NAMES: return NAMES[a]
    if not isinstance(a, tuple): return str(a)
    k = a[0]
    if k == "arg": return a[1]
    if k == "iv": return "i%s" % (a[1],)
    if k == "bnd": return "b%s" % (a[1],)
    if k == "n": return a[1]
    if k == "el": return "%s[%s]%s" % (a[1], show(a[2]), "@" + ",".join(map(show, a[3])) if len(a) > 3 else "")
    if k == "ld": return "*(%s):%s%s" % (show(a[1]), a[2], "@" + ",".join(map(show, a[3])) if len(a) > 3 else "")
    if k == "sum": return "SUM{%s<%s}(%s)" % (show_atom(a[1]), show(a[2]), show(a[3]))
    return k + "(" + ",".join(show(x) if isinstance(x, Poly) else show_atom(x) if isinstance(x, tuple) else str(x) for x in a[1:]) + ")"
def show(p):
    if not isinstance(p, Poly): return show_dnf(p) if isinstance(p, frozenset) else str(p)
    if not p.t: return "0"
    out = []
    for m, c in p.key():
        s = "*".join(show_atom(a) for a in m)
        if not m: out.append(str(c))
        elif c == 1: out.append(s)
        elif c == -1: out.append("-" + s)
        else: out.append("%s*%s" % (c, s))
    return " + ".join(out).replace("+ -", "- ")

# ---------------------------------------------------------------- guards (DNF)
TRUE = frozenset([frozenset()])
FALSE = frozenset()
def lit_neg(l): return (l[0], not l[1])
def dnf_and(a, b):
    out = set()
    for x in a:
        for y in b:
            z = x | y
            if any(lit_neg(l) in z for l in z): continue
            out.add(z)
    return dnf_simplify(frozenset(out))
def dnf_or(a, b): return dnf_simplify(a | b)
def dnf_simplify(d):
    d = set(d); changed = True
    if len(d) > 64: return frozenset(d)
    while changed:
        changed = False
        for x in list(d):
            for y in list(d):
                if x is y or x not in d or y not in d: continue
                if x < y: d.discard(y); changed = True; continue
                if len(x) <= len(y):
                    # x = r + {l}, y >= r + {!l}: drop l from y
                    for l in x:
                        r = x - {l}
                        if lit_neg(l) in y and r <= (y - {lit_neg(l)}):
                            d.discard(y); d.add(y - {lit_neg(l)}); changed = True
                            break
    return frozenset(d)
def dnf_not(d):
    out = TRUE
    for conj in d:
        neg = frozenset(frozenset([lit_neg(l)]) for l in conj)
        out = dnf_and(out, neg) if conj else FALSE
    return out
def show_lit(l):
    a, pol = l
    k = a[0]
    if k in ("lt", "eq", "flt", "fle", "feq", "ford"):
        op = {"lt": "<", "eq": "==", "flt": "<.", "fle": "<=.", "feq": "==.", "ford": " ordered "}[k]
        s = "%s %s 0" % (show(a[1]), op)
    else: s = show_atom(a)
    return s if pol else "!(%s)" % s
def show_dnf(d):
    if d == TRUE: return "true"
    if not d: return "false"
    return " | ".join(" & ".join(sorted(show_lit(l) for l in c)) for c in sorted(d, key=repr))

def subst_dnf(g, env):
    return frozenset(frozenset((rebuild(a, lambda q: subst(q, env)), pol) for (a, pol) in c) for c in g)

def renorm_lit(a, pol):
    k = a[0]
    if k == "eq": return cmp_int("eq", a[1], ZERO) if pol else cmp_int("ne", a[1], ZERO)
    if k == "lt":
        r = cmp_int("slt", a[1], ZERO)
        return r if pol else dnf_not(r)
    if k == "feq":
        r = cmp_fp("oeq", a[1], ZERO); return r if pol else dnf_not(r)
    if k in ("flt", "fle"):
        if a[1].is_const():
            t = a[1].const() < 0 if k == "flt" else a[1].const() <= 0
            return TRUE if t == pol else FALSE
    return lit(a, pol)

def renorm_dnf(g):
    out = FALSE
    for c in g:
        r = TRUE
        for (a, pol) in c: r = dnf_and(r, renorm_lit(a, pol))
        out = dnf_or(out, r)
    return out


# ---------------------------------------------------------------- functions
class Effect:
    def __init__(s, **k): s.__dict__.update(k)
    def __repr__(s):
        return "%s[%s] %s <- %s  loops=%s guard=%s" % (show_atom(s.base) if s.base is not None else "?", show(s.addr), s.kind, show(s.value) if s.value is not None else "?",
            [(show_atom(i), show(e)) for i, e in s.loops], show_dnf(s.guard))

class Undecided(Exception): pass

def inst_loc(i):
    for l in i.get("loc", []):
        if "/repo/" in l["file"] or l["file"].startswith("include") or "BlasBooster" in l["file"]:
            return "%s:%d (%s)" % (l["file"].replace("/repo/", ""), l["line"], l["fn"])
    for l in i.get("loc", []):
        return "%s:%d (%s)" % (l["file"], l["line"], l["fn"])
    return "?"

class Fn:
    def __init__(self, j, hyp=None):
        self.j = j; self.name = j["name"]
        self.args = j["args"]
        self.blocks = {b["id"]: b for b in j["blocks"]}
        self.inst = {}; self.iblock = {}; self.order = {}
        n = 0
        for b in j["blocks"]:
            for i in b["insts"]:
                self.inst[i["id"]] = i; self.iblock[i["id"]] = b["id"]
        self.loops = {l["id"]: l for l in j["loops"]}
        self.bloop = {b["id"]: b["loop"] for b in j["blocks"]}
        self.lblocks = {l["id"]: set(l["blocks"]) for l in j["loops"]}
        self._val = {}; self._stores = None; self._reach = {}; self._busy = set(); self._bool = {}; self._guard = {}; self._ext = {}; self._closed = {}; self._roots = {}; self._written = {}
        self.entry = j["blocks"][0]["id"]
        self._reach_ret()
        self._rpo()
        self._dom()
        for b in self.rpo:
            for i in self.blocks[b]["insts"]:
                self.order[i["id"]] = n; n += 1
        self.alias = {}          # atom -> Poly (assumptions)
        self.zero_phis(hyp)
    def zero_phis(self, hyp):
        """integer loop variables which are zero at every start of the loop body (proved by induction, all at once)"""
        if hyp is not None:
            for i in hyp: self._closed[i] = ZERO
            return
        cand = []
        for l, L in self.loops.items():
            if L["header"] not in self.live: continue
            for I in self.blocks[L["header"]]["insts"]:
                if I["op"] != "phi" or not I["ty"].startswith("i") or I["ty"] == "i1": continue
                out = [o for b, o in I["ops"] if b not in self.lblocks[l]]
                lat = [o for b, o in I["ops"] if b in self.lblocks[l]]
                if len(lat) == 1 and "v" in lat[0] and self.bloop[self.iblock[lat[0]["v"]]] != l and all(o.get("c") == 0 or "v" in o and self.inst[o["v"]]["op"] == "phi" for o in out): cand.append(I["id"])
        while cand:
            t = Fn(self.j, cand)
            bad = []
            for i in cand:
                l = self.bloop[self.iblock[i]]
                ok = True
                for b, o in self.inst[i]["ops"]:
                    if b not in self.live: continue
                    try: v = t.resolve(t.val(o, b))
                    except (Undecided, RecursionError): v = None
                    if v is not None and v.single() and v.single()[0] == "ite": v = ZERO if v.single()[2] == ZERO == v.single()[3] else v
                    if v != ZERO: ok = False
                if not ok: bad.append(i)
            if not bad: break
            cand = [i for i in cand if i not in bad]
        for i in cand: self._closed[i] = ZERO
    # -- cfg
    def term(self, b): return self.blocks[b]["insts"][-1]
    def _reach_ret(self):
        rets = [b for b in self.blocks if self.term(b)["op"] == "ret"]
        seen = set(rets); work = list(rets)
        while work:
            b = work.pop()
            for p in self.blocks[b]["preds"]:
                if p in seen: continue
                t = self.term(p)
                if t["op"] == "invoke" and t["unwind"] == b and t["normal"] != b: continue
                seen.add(p); work.append(p)
        self.live = seen
    def succs(self, b):
        t = self.term(b)
        ss = self.blocks[b]["succs"]
        if t["op"] == "invoke": ss = [t["normal"]]
        return [s for s in ss if s in self.live]
    def preds(self, b):
        return [p for p in self.blocks[b]["preds"] if p in self.live and b in self.succs(p)]
    def _rpo(self):
        seen, post = set(), []
        # successors that leave more loops are visited first, so that loop bodies precede what follows the loop
        def ss(b):
            return sorted(self.succs(b), key=lambda x: len([l for l in self.loopchain(b) if x in self.lblocks[l]]))
        st = [(self.entry, iter(ss(self.entry)))]; seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(ss(s)))); break
            else:
                post.append(b); st.pop()
        self.rpo = post[::-1]; self.rpon = {b: k for k, b in enumerate(self.rpo)}
    def _dom(self):
        idom = {self.entry: self.entry}; ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.preds(b) if p in idom]
                if not ps: continue
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while self.rpon[x] > self.rpon[y]: x = idom[x]
                        while self.rpon[y] > self.rpon[x]: y = idom[y]
                    n = x
                if idom.get(b) != n: idom[b] = n; ch = True
        self.idom = idom
    def dominates(self, a, b):
        while True:
            if a == b: return True
            if b == self.entry or b not in self.idom: return False
            b = self.idom[b]
    def loopchain(self, b):
        l = self.bloop[b]; out = []
        while l != -1: out.append(l); l = self.loops[l]["parent"]
        return out[::-1]
    # -- loops
    def exits(self, l):
        """live exiting blocks with the exit successor"""
        L = self.lblocks[l]; out = []
        for k, b in enumerate(self.loops[l]["exiting"]):
            if b not in self.live: continue
            if any(s not in L for s in self.succs(b)): out.append((b, self.loops[l]["exitcounts"][k]))
        return out
    def extent(self, l, b):
        """number of executions of block b per entry of loop l"""
        ex = self.exits(l)
        outer = self.outer_ivs(l)
        if len(ex) != 1:
            btc = self.scev(self.loops[l].get("btc"), self.loops[l]["header"]) if ex else None
            if btc is None: btc = P(("btc", l) + outer)
            if all(self.dominates(b, e) for e, _ in ex): return btc + 1
            if all(e != b and self.dominates(e, b) for e, _ in ex): return btc
            return P(("trip", l, b) + outer)
        e, cnt = ex[0]
        p = self.scev(cnt, e)
        if p is None: p = self.stride_count(l, e)
        if p is None: p = P(("btc", l) + outer)
        if e != b and self.dominates(e, b): return p
        return p + 1
    def stride_count(self, l, e):
        """exit when  a*iv + b == 0  with a symbolic stride a that divides b exactly: -b/a iterations"""
        if (l, "sc") in self._ext: return self._ext[(l, "sc")]
        self._ext[(l, "sc")] = None
        out = [x for x in self.succs(e) if x not in self.lblocks[l]]
        t = self.term(e)
        if t["op"] != "br" or len(t["ops"]) != 3 or len(out) != 1: return None
        g = self.edge_cond(e, out[0])
        if len(g) != 1: return None
        (c,) = g
        if len(c) != 1: return None
        ((a, pol),) = c
        if a[0] != "eq" or not pol: return None
        p = a[1]
        # cursors of this loop in closed form, without asking for this loop's extent
        for i in [x[1] for x in all_atoms(p) if isinstance(x, tuple) and x[0] == "phi" and self.iblock.get(x[1]) == self.loops[l]["header"]]:
            r = self.reduction(i)
            if r is None or r[0] != "sum" or ("iv", l) in all_atoms(r[2]) or any(isinstance(x, tuple) and x[0] == "phi" for x in all_atoms(r[2])): return None
            p = subst(p, {("phi", i): r[1] + r[2] * self.iv(l)})
        q = p.coeff(("iv", l))
        if q is None or q[0].is_zero() or ("iv", l) in all_atoms(q[1]): return None
        n = (-q[1]).divmono(q[0])
        if n is None and len(q[0].t) == 1: return None
        self._ext[(l, "sc")] = n
        return n
    def iv(self, l): return P(("iv", l))
    def outer_ivs(self, l):
        return tuple(P(("iv", x)) for x in self.loopchain(self.loops[l]["header"]) if x != l)
    # -- scev
    def scev(self, s, ctx=None):
        if s is None: return None
        k = s["k"]
        if k == "const": return None if s.get("big") else P(s["v"])
        if k in ("add", "mul"):
            out = ZERO if k == "add" else ONE
            for o in s["ops"]:
                v = self.scev(o, ctx)
                if v is None: return None
                out = out + v if k == "add" else out * v
            return out
        if k == "cast":
            o = s["ops"][0]
            if o["k"] == "unk" and self.is_bool(o["val"]):
                return mk_ite(self.boolv(o["val"]), P(-1) if s.get("op") == "sext" else ONE, ZERO)
            if self.of_bits(o): return None               # arithmetic modulo 2: the instruction itself is read instead
            return self.scev(o, ctx)
        if k == "unk": return self.val(s["val"], ctx)
        if k == "addrec":
            ops = [self.scev(o, ctx) for o in s["ops"]]
            if any(o is None for o in ops) or s["loop"] == -1: return None
            l = s["loop"]
            i = self.iv(l) if ctx is None or ctx in self.lblocks[l] else self.extent(l, self.loops[l]["header"]) - 1
            out, binom = ops[0], ONE
            for n, o in enumerate(ops[1:], 1):
                binom = binom * (i - (n - 1)) * Fr(1, n)
                out = out + o * binom
            return out
        if k == "udiv":
            a, b = self.scev(s["ops"][0], ctx), self.scev(s["ops"][1], ctx)
            if a is None or b is None: return None
            return self.udiv(a, b)
        if k in ("umax", "smax", "umin", "smin"):
            ops = [self.scev(o, ctx) for o in s["ops"]]
            if any(o is None for o in ops): return None
            return self.minmax(k, ops)
        return None
    def of_bits(self, s): return s["k"] == "unk" and self.is_bool(s["val"]) or any(self.of_bits(o) for o in s.get("ops", ()))
    def udiv(self, a, b): return udiv(a, b)
    def minmax(self, k, ops): return minmax(k, ops)
    # -- values
    def val(self, o, ctx):
        """polynomial of operand o as seen from block ctx (None: no context)"""
        if "v" in o:
            i = o["v"]
            p = self.ival(i)
            if ctx is not None: p = self.close(p, i, ctx)
            return p
        if "c" in o: return P(o["c"])
        if "f" in o:
            try: return P(Fr(o["f"]))
            except Exception: return P(("fconst", o["f"]))
        if "a" in o: return P(("arg", self.args[o["a"]]["name"] or "a%d" % o["a"]))
        if "null" in o: return ZERO
        if "undef" in o: return P(("undef",))
        if "fn" in o: return P(("fn", o["fn"]))
        if "str" in o: return P(("str", o["str"]))
        if "g" in o: return P(("g", o["g"]))
        if "gepc" in o: return P(("gep",) ) + self.val(o["gepc"], ctx)
        if "zeroinit" in o: return ZERO
        return P(("const", json.dumps(o, sort_keys=True)))
    def close(self, p, i, ctx):
        """value of instruction i (polynomial p in its own loop) seen from block ctx outside that loop"""
        chain = self.loopchain(self.iblock[i])
        inner = [l for l in chain if ctx not in self.lblocks[l]]
        for l in reversed(inner):
            p = self.close_loop(p, i, l)
        return p
    def close_loop(self, p, i, l):
        p = self.resolve(p)
        iv = ("iv", l)
        at = all_atoms(p)
        hd = self.loops[l]["header"]
        raw = [a for a in at if isinstance(a, tuple) and a[0] == "phi" and self.iblock.get(a[1]) == hd]
        if raw: p = subst(p, {a: P(("phiout", a[1], l) + self.outer_ivs(l)) for a in raw})
        if iv in all_atoms(p):
            e = self.extent(l, self.iblock[i])
            p = fold_sums(subst(p, {iv: e - 1}))
        return p
    def resolve(self, p):
        """replace fold variables (loop header phis) by their closed forms"""
        for _ in range(8):
            env = {}
            for a in all_atoms(p):
                if isinstance(a, tuple) and a[0] == "phi" and a[1] in self.inst:
                    c = self.closed(a[1])
                    if c is not None: env[a] = c
            if not env: break
            p = subst(p, env)
        return p
    def closed(self, i):
        """closed form of header phi i in terms of its loop's induction variable, or None"""
        if i in self._closed: return self._closed[i]
        self._closed[i] = None
        c = self._closed_form(i)
        if c is None and self._busy: del self._closed[i]      # asked too early: ask again later
        else: self._closed[i] = c
        return c
    def _closed_form(self, i):
        r = self.reduction(i)
        if r is None:
            c = self.last_value(i)
            if c is not None: return c
        if r is None: return self.wrap_counter(i) if self.inst[i]["ty"].startswith("i") and self.bloop[self.iblock[i]] != -1 and self.iblock[i] == self.loops[self.bloop[self.iblock[i]]]["header"] else None
        kind, init, term, _ = r
        l = self.bloop[self.iblock[i]]
        term = self.resolve(term)      # init is resolved later: it may be a cursor of an enclosing loop
        if ("phi", i) in all_atoms(term) or any(isinstance(a, tuple) and a[0] == "phi" and self.iblock.get(a[1]) == self.iblock[i] for a in all_atoms(term)):
            return None
        iv = ("iv", l)
        if kind == "sum": c = self.closed_sum(i, l, init, term)
        else:
            b = ("bnd", 1 + bnd_depth(term))
            c = P((kind + "red", b, P(iv), subst(term, {iv: P(b)}), init))
        return c
    def closed_sum(self, i, l, init, term):
        """init + sum of the steps; steps that differ in the last iteration (wrap-around of a nested walk) are split off"""
        iv = ("iv", l)
        hd = self.loops[l]["header"]
        H = self.resolve(self.extent(l, hd) - 1)                 # the header's last iteration
        ph = self.inst[i]
        lb = [b for b, o in ph["ops"] if b in self.lblocks[l]][0]
        if self.resolve(self.extent(l, lb)) == H:                # the step is not taken in the header's last iteration
            term = cond_poly(term, lits_fact([(next(iter(next(iter(cmp_int("eq", P(iv), H)))))[0], False)])) if not H.is_const() else term
        extra = ZERO
        for c in (H, H - 1):
            if c.is_const(): continue
            g = cmp_int("eq", P(iv), c)
            ((a, _),) = next(iter(g))
            y = cond_poly(term, lambda q: False if q == a else None)
            if y == term: continue
            if c == H - 1:
                x = subst(cond_poly(term, lambda q: True if q == a else None), {iv: c})
                extra = extra + mk_ite(dnf_and(cmp_int("eq", P(iv), H), cmp_int("ne", H, ZERO)), x - subst(y, {iv: c}), ZERO)
            term = y
        return init + mk_sum(iv, P(iv), term) + extra
    def last_value(self, i):
        """the value of the previous iteration, whatever it was before"""
        ph = self.inst[i]; l = self.bloop[self.iblock[i]]
        if l == -1 or self.iblock[i] != self.loops[l]["header"]: return None
        init = {self.val(o, b) for b, o in ph["ops"] if b not in self.lblocks[l] and b in self.live}
        lat = [(b, o) for b, o in ph["ops"] if b in self.lblocks[l]]
        if len(lat) != 1 or len(init) != 1: return None
        v = self.resolve(self.val(lat[0][1], lat[0][0])); me = ("phi", i); iv = ("iv", l); stay = FALSE
        def varies(a): return a == iv or isinstance(a, tuple) and a[0] in ("phi", "phiout", "call")
        s = v.single()
        if s and s[0] == "ite":
            for g, keep, y in ((s[1], s[2], s[3]), (dnf_not(s[1]), s[3], s[2])):
                if keep == P(me) and not any(varies(b) for a in {x for cc in g for (x, _) in cc} for q in polys_in(a) for b in all_atoms(q)): stay, v = g, y; break
        at = all_atoms(v)
        # only formal functions of the position and memory nothing writes to: nothing that other iterations could change
        if me in at or not any(isinstance(a, tuple) and (a[0] == "fn" or a[0] == "ld" and len(a) == 3) for a in at) or any(isinstance(a, tuple) and a[0] == "ld" and len(a) > 3 for a in at) or any(isinstance(a, tuple) and a[0] in ("phi", "phiout", "call") for a in at): return None
        return mk_ite(dnf_or(stay, cmp_int("eq", P(iv), ZERO)), init.pop(), subst(v, {iv: P(iv) - 1}))
    def wrap_counter(self, i):
        """q = 0, 1, .., K, 0: a counter reset in the loop's last iteration"""
        ph = self.inst[i]; l = self.bloop[self.iblock[i]]
        init = [self.resolve(self.val(o, b)) for b, o in ph["ops"] if b not in self.lblocks[l] and b in self.live]
        lat = [(b, o) for b, o in ph["ops"] if b in self.lblocks[l]]
        if len(lat) != 1 or any(x != ZERO for x in init): return None
        s = self.val(lat[0][1], lat[0][0]).single()
        me = P(("phi", i))
        if not s or s[0] != "ite": return None
        for g, x, y in ((s[1], s[2], s[3]), (dnf_not(s[1]), s[3], s[2])):
            if x != ZERO or y != me + 1: continue
            H = self.resolve(self.extent(l, self.loops[l]["header"]) - 1)
            for K, wrapped in ((H, False), (H - 1, True)):
                if self.resolve_dnf(g) == self.resolve_dnf(cmp_int("eq", me, K)):
                    lb = self.resolve(self.extent(l, lat[0][0]))
                    if wrapped and lb == H: return mk_ite(cmp_int("eq", self.iv(l), H), ZERO, self.iv(l))
                    if not wrapped and lb == H + 1: return self.iv(l)
        return None
    def resolve_dnf(self, g):
        env = {}
        for a in {x for c in g for (x, _) in c}:
            for q in polys_in(a):
                for x in all_atoms(q):
                    if isinstance(x, tuple) and x[0] == "phi" and x[1] in self._closed and self._closed[x[1]] is not None: env[x] = self._closed[x[1]]
        return renorm_dnf(subst_dnf(g, env)) if env else g
    def reduction(self, i):
        """(kind, init, term, guard) of a loop-header phi that is a fold, or None"""
        ph = self.inst[i]
        l = self.bloop[self.iblock[i]]
        if l == -1 or self.iblock[i] != self.loops[l]["header"]: return None
        init = None; lat = []
        for b, o in ph["ops"]:
            if b in self.lblocks[l]: lat.append((b, o))
            elif b in self.live:
                v = self.val(o, b)
                if init is not None and init != v: return None
                init = v
        if len(lat) != 1 or init is None: return None
        me = ("phi", i)
        v = self.val(lat[0][1], lat[0][0])
        c = v.coeff(me)
        if c is not None and c[0] == ONE and me not in all_atoms(c[1]): return ("sum", init, c[1], None)
        s = v.single()
        if s and s[0] == "ite":
            # max/min: ite(guard, a, b)
            _, g, a, b = s
            mm = self._fold_minmax(me, g, a, b)
            if mm: return (mm[0], init, mm[1], None)
            ca, cb = a.coeff(me), b.coeff(me)
            if ca and cb and ca[0] == ONE and cb[0] == ONE and me not in all_atoms(P(("g", g))):
                return ("sum", init, mk_ite(g, ca[1], cb[1]), None)
        if s and s[0] in ("fmax", "fmin") and P(me) in s[1:]:
            t = [x for x in s[1:] if x != P(me)]
            if len(t) == 1 and me not in all_atoms(t[0]): return (s[0][1:], init, t[0], None)
        return None
    def _fold_minmax(self, me, g, a, b):
        if len(g) != 1: return None
        (conj,) = g
        if len(conj) != 1: return None
        ((atom, pol),) = conj
        if atom[0] not in ("flt", "fle", "lt"): return None
        d = atom[1]                      # d < 0
        pm = P(me)
        for x, y, inv in ((a, b, False), (b, a, True)):
            if y == pm and me not in all_atoms(x):
                t = x
                up = (pol != inv)        # condition under which t is chosen holds positively
                if d == pm - t: return ("max", t) if up else ("min", t)
                if d == t - pm: return ("min", t) if up else ("max", t)
        return None
    def ival(self, i):
        if self._stores is None: self.gather_stores()
        if i in self._val: return self._val[i]
        if i in self._busy: return P(("phi", i))
        self._busy.add(i)
        try: p = self._ival(self.inst[i], i)
        finally: self._busy.discard(i)
        if not self._busy or self.inst[i]["op"] != "phi": self._val[i] = p
        return p
    def _ival(self, I, i):
        op = I["op"]; b = self.iblock[i]
        s = I.get("scev")
        if s is not None and not (s["k"] == "unk" and s["val"].get("v") == i):
            p = self.scev(s, b)
            if p is not None: return p
        V = lambda n: self.val(I["ops"][n], b)
        if op == "load":
            ps = self.scev(I["ptrscev"], b)
            if ps is None: ps = V(0)
            # memory rewritten inside an enclosing loop: the value belongs to that loop's iteration
            ver = () if I["ty"] == "ptr" else self.version(I["ops"][0], b)
            if not ver: ver = self.rewritten(i, b, ps)
            return P(("ld", ps, I["size"]) + ver)
        if op == "phi":
            l = self.bloop[b]
            if l != -1 and self.loops[l]["header"] == b: return P(("phi", i))
            inc = [(pb, o) for pb, o in I["ops"] if pb in self.live and b in self.succs(pb)]
            if not inc: return P(("undef",))
            vs = [self.val(o, pb) for pb, o in inc]
            if all(v == vs[0] for v in vs): return vs[0]
            if I["ty"] == "i1":
                return P(("bool", self.boolv({"v": i})))
            gs = [self.edge_guard(pb, b) for pb, _ in inc]
            # relative to the immediate dominator
            base = self.guard_from(self.idom[b], b)
            if len(vs) == 2 or all(g is not None for g in gs):
                out = vs[-1]
                for v, (pb, _) in list(zip(vs, inc))[-2::-1]:
                    out = mk_ite(self.rel_guard(self.idom[b], pb, b), v, out)
                return out
            return P(("phi", i))
        if op in ("fadd", "add"): return V(0) + V(1)
        if op in ("fsub", "sub"): return V(0) - V(1)
        if op in ("fmul", "mul"): return V(0) * V(1)
        if op == "fneg": return -V(0)
        if op == "shl":
            k = V(1)
            return V(0) * P(2 ** int(k.const())) if k.is_const() else P(("op", "shl", V(0), k))
        if op in ("lshr", "ashr"):
            k = V(1)
            return self.udiv(V(0), P(2 ** int(k.const()))) if k.is_const() else P(("op", op, V(0), k))
        if op in ("udiv", "sdiv"): return self.udiv(V(0), V(1))
        if op == "fdiv":
            q = V(1)
            if q.is_const() and q.const() != 0: return V(0) * P(1 / q.const())
            return V(0) * P(("inv", q))
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "fptrunc", "fpext", "uitofp", "sitofp", "freeze"):
            if self.is_bool(I["ops"][0]): return mk_ite(self.boolv(I["ops"][0]), ONE if op != "sext" else P(-1), ZERO)
            return V(0)
        if op in ("fptosi", "fptoui"): return P(("fptoi", V(0)))
        if op == "select":
            if I["ty"] == "i1": return P(("bool", self.boolv({"v": i})))
            return mk_ite(self.boolv(I["ops"][0]), V(1), V(2))
        if op in ("icmp", "fcmp"): return P(("bool", self.boolv({"v": i})))
        if op in ("and", "or", "xor") and I["ty"] == "i1": return P(("bool", self.boolv({"v": i})))
        if op in ("urem", "srem", "and", "or", "xor", "frem"): return P(("op", op, V(0), V(1)))
        if op == "getelementptr":
            return P(("gepop", i))
        if op in ("call", "invoke"):
            c = I.get("callee")
            if c is None: return P(("call", i))
            if c == "vp_allocate" or c.startswith("_Zna") or c.startswith("_Znw"): return P(("alloc", i))
            if c.startswith("vp_fn"): return P(("fn", c.split("_", 2)[2]) + tuple(V(k) for k in range(len(I["ops"]))))      # a formal function of its arguments
            n = c
            for pre, k in (("llvm.fabs", "fabs"), ("llvm.sqrt", "sqrt")):
                if n.startswith(pre): return P((k, V(0)))
            if n in ("fabs", "fabsf"): return P(("fabs", V(0)))
            if n in ("sqrt", "sqrtf"): return P(("sqrt", V(0)))
            if n.startswith("llvm.fmuladd") or n.startswith("llvm.fma"): return V(0) * V(1) + V(2)
            for k in ("umax", "umin", "smax", "smin"):
                if n.startswith("llvm." + k): return self.minmax(k, [V(0), V(1)])
            for pre, k in (("llvm.maxnum", "fmax"), ("fmax", "fmax"), ("llvm.minnum", "fmin"), ("fmin", "fmin")):
                if n.startswith(pre): return P((k,) + tuple(sorted([V(0), V(1)], key=lambda p: repr(p.key()))))
            if n.startswith("llvm.abs"): return P(("fabs", V(0)))
            return P(("call", i))
        if op == "alloca": return P(("obj", i))
        if op == "insertvalue":
            return P(("ins", V(0), V(1), tuple(I["idx"])))
        if op == "extractvalue":
            return P(("ext", V(0), tuple(I["idx"])))
        return P((op, i))
    def roots(self, o):
        """the pointers an address is computed from"""
        k = json.dumps(o, sort_keys=True)
        if k in self._roots: return self._roots[k]
        out, seen, work = set(), set(), [o]
        while work:
            x = work.pop()
            if "v" not in x: out.add(json.dumps(x, sort_keys=True)); continue
            i = x["v"]
            if i in seen: continue
            seen.add(i); I = self.inst[i]
            if I["op"] in ("getelementptr", "bitcast"): work.append(I["ops"][0])
            elif I["op"] == "phi": work += [y for b, y in I["ops"] if b in self.live]
            elif I["op"] == "select": work += I["ops"][1:]
            elif I["op"] == "load": out.add(self.val(x, None))
            else: out.add(i)
        out.discard(json.dumps({"null": True}))
        self._roots[k] = out
        return out
    def written(self, l):
        """roots of everything stored to inside loop l"""
        if l not in self._written:
            out = set()
            for b in self.lblocks[l]:
                if b not in self.live: continue
                for I in self.blocks[b]["insts"]:
                    if I["op"] == "store": out |= self.roots(I["ops"][1])
                    elif I["op"] in ("call", "invoke") and (I.get("callee") or "").startswith("llvm.mem"): out |= self.roots(I["ops"][0])
            self._written[l] = out
        return self._written[l]
    def gather_stores(self):
        """stores outside loops to a fixed place of an argument or a local object"""
        def place(v):
            if v["k"] == "const" and not v.get("big"): return P(v["v"])
            if v["k"] == "add":
                ps = [place(o) for o in v["ops"]]
                return None if None in ps else sum(ps[1:], ps[0])
            if v["k"] == "unk" and "a" in v["val"]: return self.val(v["val"], None)
            return None
        self._stores = {}
        for sb in self.live:
            if self.bloop[sb] != -1: continue
            for k, I in enumerate(self.blocks[sb]["insts"]):
                q = place(I["ptrscev"]) if I["op"] == "store" and I.get("ptrscev") else None
                if q is not None: self._stores.setdefault(q, []).append((I["id"], sb, k))
    def rewritten(self, i, b, ps):
        """stores to this very address that the load comes after (something opaque lies in between, or it would have been forwarded)"""
        if self.bloop[b] != -1: return ()
        mine = self._stores.get(ps)
        if not mine: return ()
        at = next(k for k, I in enumerate(self.blocks[b]["insts"]) if I["id"] == i)
        hit = tuple(P(("st", x)) for x, sb, k in mine if (sb == b and k < at) or self.reaches(sb, b))
        return (hit,) if hit else ()
    def reaches(self, a, b):
        """a path of at least one edge"""
        if a not in self._reach:
            seen = set(); todo = list(self.succs(a))
            while todo:
                x = todo.pop()
                if x in seen: continue
                seen.add(x); todo += self.succs(x)
            self._reach[a] = seen
        return b in self._reach[a]
    def version(self, o, b):
        ls = [l for l in self.loopchain(b) if self.written(l) & self.roots(o)]
        return (tuple(P(("iv", l)) for l in ls),) if ls else ()
    def is_bool(self, o):
        return "v" in o and self.inst[o["v"]]["ty"] == "i1"
    # -- booleans
    def boolv(self, o):
        if "c" in o: return TRUE if o["c"] != 0 else FALSE
        if "v" not in o: return lit(("b", self.val(o, None)), True)
        i = o["v"]
        if i in self._bool: return self._bool[i]
        I = self.inst[i]; b = self.iblock[i]; op = I["op"]
        r = None
        if op == "icmp":
            x = self.scev(I["opscev"][0], b) if I["opscev"][0] else None
            y = self.scev(I["opscev"][1], b) if I["opscev"][1] else None
            if x is None: x = self.val(I["ops"][0], b)
            if y is None: y = self.val(I["ops"][1], b)
            r = cmp_int(I["pred"], x, y)
            if I["pred"] in ("eq", "ne") and self.distinct(x - y): r = FALSE if I["pred"] == "eq" else TRUE
        elif op == "fcmp":
            r = cmp_fp(I["pred"], self.val(I["ops"][0], b), self.val(I["ops"][1], b))
        elif op == "and": r = dnf_and(self.boolv(I["ops"][0]), self.boolv(I["ops"][1]))
        elif op == "or": r = dnf_or(self.boolv(I["ops"][0]), self.boolv(I["ops"][1]))
        elif op == "xor" and I["ops"][1].get("c") in (1, -1): r = dnf_not(self.boolv(I["ops"][0]))
        elif op == "freeze": r = self.boolv(I["ops"][0])
        elif op == "select":
            c = self.boolv(I["ops"][0])
            r = dnf_or(dnf_and(c, self.boolv(I["ops"][1])), dnf_and(dnf_not(c), self.boolv(I["ops"][2])))
        elif op == "trunc":
            v = self.val(I["ops"][0], b)
            s = v.single()
            if s and s[0] == "ite" and s[2] == ONE and s[3] == ZERO: r = s[1]
            elif v.is_const(): r = TRUE if v.const() % 2 else FALSE
            else: r = lit(("b", v), True)
        elif op == "phi":
            self._bool[i] = lit(("bphi", i), True)
            l = self.bloop[b]
            if not (l != -1 and self.loops[l]["header"] == b):
                r = FALSE
                for pb, oo in I["ops"]:
                    if pb not in self.live or b not in self.succs(pb): continue
                    r = dnf_or(r, dnf_and(self.rel_guard(self.idom[b], pb, b), self.boolv(oo)))
        if r is None: r = lit(("bv", i), True)
        self._bool[i] = r
        return r
    def distinct(self, d):
        """is d the difference of two different objects (or of an object and null)?"""
        def obj(a):
            return isinstance(a, tuple) and (a[0] in ("obj",) or a[0] == "arg" and any(x["name"] == a[1] and x["ty"] == "ptr" for x in self.args))
        ms = [(m, c) for m, c in d.t.items() if m != ()]
        if any(len(m) != 1 or not obj(m[0]) for m, c in ms): return False
        if len(ms) == 2: return sorted(c for m, c in ms) == [-1, 1]
        return len(ms) == 1 and abs(ms[0][1]) == 1 and d.const() == 0
    # -- control
    def edge_cond(self, p, b):
        """condition on the edge p->b (only edges that can still return are considered)"""
        t = self.term(p)
        ss = self.succs(p)
        if self.strict and t["op"] == "br": ss = self.blocks[p]["succs"]
        if len(set(ss)) <= 1: return TRUE
        if t["op"] == "br" and len(t["ops"]) == 3:
            c = self.boolv(t["ops"][0])
            # br cond, iffalse, iftrue in operand order
            tb = t["ops"][2]["bb"]
            return c if tb == b else dnf_not(c)
        if t["op"] == "switch":
            v = self.val(t["ops"][0], p)
            cs = [c for c, bb in t["cases"] if bb == b]
            if cs:
                r = FALSE
                for c in cs: r = dnf_or(r, cmp_int("eq", v, P(c)))
                if t["default"] == b: return TRUE
                return r
            r = TRUE
            for c, bb in t["cases"]:
                if bb in self.live: r = dnf_and(r, dnf_not(cmp_int("eq", v, P(c))))
            return r
        return lit(("edge", p, b), True)
    def edge_guard(self, p, b):
        return True
    def guard_from(self, a, b): return None
    def rel_guard(self, top, p, b):
        """condition, starting from block top (a dominator), of taking edge p->b; loops in between are skipped"""
        memo = {}
        tl = self.loopchain(top)
        def g(x):
            if x == top: return TRUE
            if x in memo: return memo[x]
            memo[x] = FALSE
            r = FALSE
            for q in self.preds(x):
                r = dnf_or(r, dnf_and(g(q), self.ectx(q, x)))
            # a loop header reached by its back edge: ignore the back edge
            memo[x] = r
            return r
        return dnf_and(g(p), self.ectx(p, b))
    def ectx(self, q, x):
        """edge condition, treating loop exits and back edges as unconditional"""
        lq = self.bloop[q]
        if lq != -1:
            if x not in self.lblocks[lq]: return TRUE if len(self.exits(lq)) == 1 else lit(("exit", q, x), True)
            if x == self.loops[lq]["header"]: return FALSE
            ex = self.exits(lq)
            if len(ex) == 1 and ex[0][0] == q: return TRUE
        return self.edge_cond(q, x)
    strict = False
    def strict_guard(self, b):
        """guard of b outside loops including the branches whose other side never returns (checks that throw or abort)"""
        old, self.strict, self._guard = self._guard, True, {}
        try: return self.guard(b)
        finally: self.strict, self._guard = False, old
    def guard(self, b):
        """guard of block b inside its innermost loop iteration plus the guards of the enclosing loops"""
        if b in self._guard: return self._guard[b]
        l = self.bloop[b]
        top = self.entry if l == -1 else self.loops[l]["header"]
        memo = {}
        L = self.lblocks.get(l)
        def g(x):
            if x == top: return TRUE
            if x in memo: return memo[x]
            memo[x] = FALSE
            r = FALSE
            for q in self.preds(x):
                if L is not None and q not in L: continue
                r = dnf_or(r, dnf_and(g(q), self.ectx(q, x)))
            memo[x] = r
            return r
        r = g(b)
        if l != -1:
            par = self.loops[l]["parent"]
            h = self.loops[l]["header"]
            outer = FALSE
            for q in self.preds(h):
                if q in self.lblocks[l]: continue
                lq = self.bloop[q]
                outer = dnf_or(outer, dnf_and(self.guard(q), self.edge_cond(q, h) if not (lq != -1 and h not in self.lblocks[lq]) and not (lq != -1 and len(self.exits(lq)) == 1 and self.exits(lq)[0][0] == q) else TRUE))
            r = dnf_and(r, outer)
        self._guard[b] = r
        return r

def cond_dnf(g, f):
    """guard g with the literals f decides (f(atom) -> True/False/None) replaced by their truth value"""
    out = FALSE
    for c in g:
        r = TRUE
        for (a, pol) in c:
            t = f(a)
            if t is None:
                b = rebuild(a, lambda q: cond_poly(q, f))
                r = dnf_and(r, lit(a, pol) if b == a else renorm_lit(b, pol))
            elif t != pol: r = FALSE
        out = dnf_or(out, r)
    return out

def cond_poly(p, f):
    """polynomial p with conditional values whose condition f decides replaced by the chosen branch"""
    if not any(isinstance(a, tuple) and (a[0] == "ite" or _has_ite(a)) for a in p.atoms()): return p
    def fa(a):
        if not isinstance(a, tuple): return P(a)
        if a[0] == "ite":
            g = cond_dnf(a[1], f)
            if g == TRUE: return cond_poly(a[2], f)
            if not g: return cond_poly(a[3], f)
            return mk_ite(g, cond_poly(a[2], f), cond_poly(a[3], f))
        if a[0] in BINDERS: return P(a)
        if _has_ite(a):
            if a[0] == "udiv": return udiv(cond_poly(a[1], f), cond_poly(a[2], f))
            return P(rebuild(a, lambda q: cond_poly(q, f)))
        return P(a)
    return map_atoms(p, fa)
_ITE = {}
def _has_ite(a):
    r = _ITE.get(a)
    if r is None: r = _ITE[a] = any(isinstance(x, tuple) and x[0] == "ite" for x in all_atoms(P(a)))
    return r
def lits_fact(c):
    """f for cond_poly: the literals of a conjunction hold"""
    d = dict(c)
    return lambda a: d.get(a)

def combine_ites(p):
    """c*ite(g,a,b) + c'*ite(g,x,y) -> ite(g, c*a+c'*x, c*b+c'*y)"""
    for _ in range(6):
        by = {}
        for m, c in p.t.items():
            if len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == "ite": by.setdefault(m[0][1], []).append((m[0], c))
        g = next((g for g, l in by.items() if len(l) > 1), None)
        if g is None: return p
        x, y, rest = ZERO, ZERO, p
        for a, c in by[g]:
            x = x + a[2] * c; y = y + a[3] * c; rest = rest - P(a) * c
        p = rest + mk_ite(g, combine_ites(x), combine_ites(y))
    return p

def nonneg(p): return all(c >= 0 for c in p.t.values())
def minmax(k, ops):
    s = sorted(set(ops), key=lambda p: repr(p.key()))
    if len(s) > 1:
        # sizes are never negative
        def dominated(x, y): return nonneg(y - x)          # x <= y
        if k[1:] == "max": s = [x for x in s if not any(dominated(x, y) and x != y for y in s)]
        else: s = [x for x in s if not any(dominated(y, x) and x != y for y in s)]
    if len(s) == 1: return s[0]
    return P((k,) + tuple(s))

def udiv(a, b):
    a = combine_ites(a)
    x = a.single()
    if x is not None and x[0] == "ld" and len(x) == 3 and x[2] == 8 and b.is_const() and b.const() == 1 << 32: return P(("ld", x[1] + 4, 4))
    if b.is_const() and b.const() == 1 << 32: return ZERO     # 32-bit counters packed into 64-bit words: see "casts"
    if b.is_const() and b.const() != 0:
        q = Poly({m: c / b.const() for m, c in a.t.items()})
        if a.is_const(): return P(Fr(int(a.const()) // int(b.const()))) if q.const().denominator != 1 else q
        if all(c.denominator == 1 for c in q.t.values()): return q
        return P(("udiv", a, b))
    d = a.divmono(b)
    if d is not None: return d
    return P(("udiv", a, b))

def lit(atom, pol): return frozenset([frozenset([(atom, pol)])])

def canon_sign(p):
    """(p normalised so that the leading coefficient is positive, flipped?)"""
    if not p.t: return p, False
    c = p.key()[-1][1]
    return (p, False) if c > 0 else (-p, True)

def cmp_int(pred, a, b):
    d = combine_ites(a - b)
    pred = pred[1:] if pred[0] in "us" and pred not in ("eq", "ne") else pred
    if pred in ("eq", "ne", "lt", "gt", "le", "ge") and not d.is_const():
        it = [x for x in d.atoms() if isinstance(x, tuple) and x[0] == "ite"]
        if len(it) == 1 and len(it[0][1]) <= 2 and it[0][2].is_const() + it[0][3].is_const() > 0 and not (it[0][2].is_const() and it[0][3].is_const() and d == P(it[0])):
            x = it[0]
            return dnf_or(dnf_and(x[1], cmp_int(pred, subst(d, {x: x[2]}), ZERO)), dnf_and(dnf_not(x[1]), cmp_int(pred, subst(d, {x: x[3]}), ZERO)))
    if pred in ("eq", "ne"):
        if d.is_const(): r = TRUE if d.is_zero() else FALSE
        elif isinstance(d.single(), tuple) and d.single()[0] == "alloc": r = FALSE   # operator new and the tracked allocation throw or return memory
        else: r = lit(("eq", canon_sign(d.primitive())[0]), True)
        return r if pred == "eq" else dnf_not(r)
    if pred == "lt": x, neg = d, False
    elif pred == "gt": x, neg = -d, False
    elif pred == "ge": x, neg = d, True
    elif pred == "le": x, neg = -d, True
    else: return lit(("cmp", pred, a, b), True)
    if x.is_const(): r = TRUE if x.const() < 0 else FALSE
    else:
        # unsigned: p < 1 is p == 0 (sizes); 0 < p is p != 0
        if (x + 0).const() == -1 and not (x + 1).is_zero() and all(c > 0 for c in (x + 1).t.values()):
            r = lit(("eq", canon_sign(x + 1)[0]), True)
        elif x.const() == 0 and all(c < 0 for c in x.t.values()):
            r = dnf_not(lit(("eq", canon_sign(x)[0]), True))
        else: r = lit(("lt", x.primitive()), True)
    return dnf_not(r) if neg else r

def cmp_fp(pred, a, b):
    if pred == "true": return TRUE
    if pred == "false": return FALSE
    d = a - b
    if pred in ("oeq", "une", "ueq", "one"): r = lit(("feq", canon_sign(d)[0]), True); return r if pred in ("oeq", "ueq") else dnf_not(r)
    # numbers only: not-a-number operands are told apart in orders.py, not here
    if pred in ("olt", "ult"): return lit(("flt", d), True)
    if pred in ("ogt", "ugt"): return lit(("flt", -d), True)
    if pred in ("ole", "ule"): return lit(("flt", -d), False)
    if pred in ("oge", "uge"): return lit(("flt", d), False)
    if pred == "ord": return lit(("ford", d), True)
    if pred == "uno": return lit(("ford", d), False)
    return lit(("fcmp", pred, a, b), True)

def mk_ite(g, a, b):
    if a == b: return a
    if g == TRUE: return a
    if not g: return b
    if len(g) == 1:
        (c,) = g
        a = cond_poly(a, lits_fact(c))
        if len(c) == 1: b = cond_poly(b, lits_fact([lit_neg(x) for x in c]))
        if a == b: return a
    # ite(v == k & .., x, y): y when it has the value x at v = k
    if len(g) == 1:
        (c,) = g
        eqs = [(a_, p_) for a_, p_ in c if a_[0] == "eq" and p_]
        if len(eqs) == 1 and all(a_[0] == "eq" and not p_ and (a_[1] - eqs[0][0][1]).is_const() for a_, p_ in c if (a_, p_) != eqs[0]):
            q = eqs[0][0][1]
            vs = [m for m in q.t if m != ()]
            if len(vs) == 1 and len(vs[0]) == 1 and q.t[vs[0]] == 1 and subst(b, {vs[0][0]: P(-q.const())}) == a: return b
    # ite(p == 0, x, y) with y - x a multiple of p: y
    if len(g) == 1:
        (c,) = g
        if len(c) == 1:
            ((atom, pol),) = c
            if atom[0] == "eq":
                zero, other = (a, b) if pol else (b, a)
                q = (other - zero).divmono(atom[1]) if len(atom[1].t) == 1 else None
                if q is not None: return other
                if other - zero == atom[1] or zero - other == atom[1]: return other
            # max(0,x)-like normalisations
    # ite(g, a, ite(h, a, z)): ite(g or h, a, z)
    bb = b.single()
    if bb is not None and bb[0] == "ite" and bb[2] == a:
        gh = dnf_or(g, bb[1])
        if gh == TRUE: return a
        if len(gh) < len(g) + len(bb[1]): return mk_ite(gh, a, bb[3])
    return P(("ite", g, a, b))

# ---------------------------------------------------------------- summaries
class Summary:
    pass

def base_and_offset(p, isbase):
    """split an address polynomial into (base atom, byte offset polynomial)"""
    bases = [a for a in p.atoms() if isbase(a)]
    lin = []
    for a in bases:
        c = p.coeff(a)
        if c is not None and c[0] == ONE: lin.append((a, c[1]))
    if len(lin) == 1: return lin[0]
    return (None, p)

def is_ptr_atom(fn):
    def f(a):
        k = a[0]
        if k in ("alloc", "obj"): return True
        if k == "n": return a[1].endswith(".p")
        if k == "arg":
            for x in fn.args:
                if x["name"] == a[1]: return x["ty"] == "ptr"
            return False
        if k in ("phi", "phiout", "call"):
            return fn.inst[a[1]]["ty"] == "ptr"
        if k == "ld": return a in fn.ptr_loads
        if k == "fn": return a[1] in fn.ptr_fns
        if k == "ite": return any(base_and_offset(x, f)[0] is not None for x in (a[2], a[3]))
        return False
    return f

def summarise(fn, names=None):
    """names: {tag: [field names]} binds the arguments of vp_probe(tag, ...) """
    fn.ptr_loads = set()
    fn.ptr_fns = {I["callee"].split("_", 2)[2] for I in fn.inst.values() if I["op"] in ("call", "invoke") and (I.get("callee") or "").startswith("vp_fn") and I["ty"] == "ptr"}
    for i, I in fn.inst.items():
        if I["op"] == "load" and I["ty"] == "ptr":
            fn.ptr_loads.add(fn.ival(i).single())
    isb = is_ptr_atom(fn)
    S = Summary(); S.fn = fn; S.probes = []; S.effects = []; S.calls = []; S.rets = []; S.throws = []
    for b in fn.rpo:
        for I in fn.blocks[b]["insts"]:
            op = I["op"]
            if op in ("call", "invoke"):
                c = I.get("callee") or ""
                if c.startswith("vp_probe"):
                    tag = I["ops"][0].get("str")
                    vs = []
                    for n, o in enumerate(I["ops"][1:], 1):
                        p = fn.scev(I["argscev"][n], b) if I["argscev"][n] else None
                        if p is None: p = fn.val(o, b)
                        vs.append(p)
                    S.probes.append((tag, vs, b, fn.order[I["id"]], I))
                    continue
                if c.startswith("llvm.mem"):
                    dst = fn.scev(I["argscev"][0], b); n = fn.scev(I["argscev"][2], b)
                    if dst is None: dst = fn.val(I["ops"][0], b)
                    if n is None: n = fn.val(I["ops"][2], b)
                    dst = fn.resolve(dst); n = fn.resolve(n)
                    base, off = base_and_offset(dst, isb)
                    loops = [(("iv", l), fn.extent(l, b)) for l in fn.loopchain(b)]
                    if c.startswith("llvm.memset"):
                        S.effects.append(Effect(base=base, addr=off, kind="set", value=fn.val(I["ops"][1], b), nbytes=n, loops=loops, guard=fn.guard(b), I=I, block=b, order=fn.order[I["id"]], size=None))
                    else:
                        src = fn.scev(I["argscev"][1], b)
                        if src is None: src = fn.val(I["ops"][1], b)
                        src = fn.resolve(src)
                        S.effects.append(Effect(base=base, addr=off, kind="copy", value=src, nbytes=n, loops=loops, guard=fn.guard(b), I=I, block=b, order=fn.order[I["id"]], size=None))
                    continue
                if I.get("intrinsic"): continue
                args = []
                for n, o in enumerate(I["ops"]):
                    p = fn.scev(I["argscev"][n], b) if I["argscev"][n] else None
                    if p is None: p = fn.val(o, b)
                    args.append(p)
                S.calls.append(Effect(callee=c, args=args, guard=fn.guard(b), loops=[(("iv", l), fn.extent(l, b)) for l in fn.loopchain(b)], I=I, block=b, order=fn.order[I["id"]], base=None, addr=ZERO, value=None, kind="call"))
            elif op == "store":
                p = fn.scev(I["ptrscev"], b)
                if p is None: p = fn.val(I["ops"][1], b)
                base, off = base_and_offset(fn.resolve(p), isb)
                v = fn.scev(I["valscev"], b) if I.get("valscev") else None
                if v is None: v = fn.val(I["ops"][0], b)
                v = fn.resolve(v)
                S.effects.append(Effect(base=base, addr=off, kind="store", value=v, loops=[(("iv", l), fn.extent(l, b)) for l in fn.loopchain(b)], guard=fn.guard(b), I=I, block=b, order=fn.order[I["id"]], size=I["size"], vty=I["vty"]))
            elif op == "ret":
                if I["ops"]:
                    p = fn.scev(I["retscev"], b) if I.get("retscev") else None
                    if p is None: p = fn.val(I["ops"][0], b) if I["ty"] != "i1" else None
                    S.rets.append((p, b, I))
    return S

def load_module(path):
    j = json.load(open(path))
    return {f["name"]: Fn(f) for f in j["functions"]}

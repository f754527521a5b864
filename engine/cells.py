"""Do two lists of stores (closed forms over symbolic shapes) leave the same content?  A difference is shown by a small shape."""
import itertools
from content import *

class Store:
    """R[addr] <- value  for all loops [(iv, extent)], where guard; in the order of the list"""
    def __init__(s, loops, addr, value, guard=TRUE, where=""): s.loops, s.addr, s.value, s.guard, s.where = list(loops), P(addr), P(value), guard, where
    def show(s): return "[%s] %s  for %s" % (show(s.addr), show(s.value), ", ".join("%s<%s" % (show(P(v)), show(e)) for v, e in s.loops) or "-")

FOLDS = ("ite", "umax", "umin", "smax", "smin", "udiv")

def symbols(stores):
    out = set()
    for s in stores:
        ivs = {v for v, _ in s.loops}
        for p in [s.addr] + [e for _, e in s.loops]: out |= all_atoms(p) - ivs
        for cj in s.guard:
            for a, _ in cj:
                for x in a[1:]:
                    if isinstance(x, Poly): out |= all_atoms(x) - ivs
    out = {a for a in out if not (isinstance(a, tuple) and a[0] in FOLDS)}
    bad = [a for a in out if not (isinstance(a, tuple) and a[0] in ("n", "arg"))]
    if bad: raise Undecided("address or condition is not a closed form: " + show(P(bad[0])))
    return out

def number(p, env):
    q = subst(p, env)
    if not q.is_const(): raise Undecided("value is not known: " + show(q))
    return q.const()

def fill(stores, env, strict, limit=20000):
    cells = {}; writer = {}
    for k, s in enumerate(stores):
        def go(ls, e):
            if not ls:
                g = renorm_dnf(subst_dnf(s.guard, e))
                if g == FALSE: return
                if g != TRUE: raise Undecided("condition of a store is not known: " + show_dnf(g))
                a = number(s.addr, e)
                v = subst(s.value, e)
                if strict and a in cells and writer[a] != k and cells[a] != v and {x for x, _ in stores[writer[a]].loops} & {x for x, _ in s.loops}: raise Undecided("stores of one loop overlap")
                cells[a] = v; writer[a] = k
                if len(cells) > limit: raise Undecided("too many elements")
                return
            v, x = ls[0]
            for i in range(int(number(x, e))): go(ls[1:], {**e, v: P(i)})
        go(s.loops, env)
    return cells

def differ(got, want, fixed=None, values=(0, 1, 2, 3), scale=1):
    """None if no small shape shows a difference, else a description"""
    fixed = fixed or {}
    syms = sorted((symbols(got) | symbols(want)) - set(fixed), key=repr)
    if len(syms) > 5: raise Undecided("too many free sizes")
    f = {k: P(v) for k, v in fixed.items()}
    for xs in sorted(itertools.product(values, repeat=len(syms)), key=sum):
        env = {**f, **{a: P(x) for a, x in zip(syms, xs)}}
        a, b = fill(got, env, True), fill(want, env, False)
        if a == b: continue
        for i in sorted(set(a) | set(b)):
            if a.get(i) == b.get(i): continue
            sh = ", ".join("%s=%s" % (show(P(s)), show(env[s])) for s in syms)
            t = lambda d: "not written" if i not in d else show(d[i])
            return "for %s element %s is %s instead of %s" % (sh, i, t(a), t(b))
    return None

PATTERNS = (lambda l, k, m, L: True, lambda l, k, m, L: (k + l) % 2 == 0, lambda l, k, m, L: l == L - 1 and k == m - 1 or l == 0 and k == 0, lambda l, k, m, L: False)

def sparse_tables(tags, env, pattern):
    """offsets and keys of small sparse matrices, valid for every shape that occurs, in either orientation"""
    t = {}
    ds = [int(v.const()) for k, v in env.items() if k[0] == "n" and k[1].endswith((".r", ".c"))]
    if tags and not ds: raise Undecided("no shape is known")
    for x, g in enumerate(tags):
        L, m = max(ds), min(ds)
        n = 0
        for l in range(L):
            t[("el", g + ".o", P(l))] = P(n)
            for k in range(m):
                if pattern(l + x, k, m, L + x): t[("el", g + ".k", P(n))] = P(k); n += 1
        t[("el", g + ".o", P(L))] = P(n)
        if m == L or m == 0: t[("n", g + ".nnz")] = t[("n", g + ".nk")] = P(n)
    return t

def ev(p, env):
    for _ in range(6):
        q = subst(p, env)
        if q == p: break
        p = q
    return p

def evaluable(cs):
    """symbols to choose and sparse matrices to make up"""
    syms, tags = set(), set()
    def look(p, ivs):
        for a in all_atoms(p):
            if isinstance(a, tuple) and a[0] in ("n", "arg") and a not in ivs:
                if a[0] == "n" and a[1].endswith((".nnz", ".nk")): tags.add(a[1].rsplit(".", 1)[0])
                else: syms.add(a)
            elif isinstance(a, tuple) and a[0] == "el" and a[1].endswith((".o", ".k")): tags.add(a[1].rsplit(".", 1)[0])
    for x in cs:
        ivs = {v for v, _ in x.loops}
        for p in [x.addr] + [e for _, e in x.loops]: look(p, ivs)
        for cj in x.guard:
            for a, _ in cj:
                for y in a[1:]:
                    if isinstance(y, Poly): look(y, ivs)
    if tags and not any(a[0] == "n" and a[1].endswith((".r", ".c")) for a in syms): syms |= {("n", tags and min(tags) + ".r")}
    return sorted(syms, key=repr), sorted(tags)

def agree_value(got, want):
    """the same for a single number; integer comparisons in conditions only"""
    try:
        for p in (got, want):
            if any(xl for _, _, _, xl in expand(P(p), TRUE)): return None
        look = [Contrib([], P(got) + P(want), 0, ())]
        syms, tags = evaluable(look)
        if len(syms) > 4: return None
        some = False
        for xs in itertools.product((0, 1, 2, 3, 5), repeat=len(syms)):
            for pat in (PATTERNS if tags else PATTERNS[:1]):
                env = {a: P(x) for a, x in zip(syms, xs)}
                if tags and len(set(xs)) > 1 and 0 not in xs: continue
                env.update(sparse_tables(tags, env, pat))
                a, b = ev(P(got), env), ev(P(want), env)
                if a == b: some = True; continue
                return False if a.is_const() and b.is_const() else None
        return True if some else None
    except Undecided: return None

def agree(got, want, values=(0, 1, 2, 3), limit=100000):
    """two contribution lists (R[addr] += coef*mono) that differ in form: True if they agree for all small shapes and sparsity patterns,
    False if one shows a difference, None if that cannot be told"""
    try:
        syms, tags = evaluable(list(got) + list(want))
        if len(syms) > 4: return None
        some = False
        marks = sorted({abs(int(c)) + d for x in list(got) + list(want) for cj in x.guard for a, _ in cj if a[0] in ("eq", "lt", "slt", "ult")
                        for y in a[1:] if isinstance(y, Poly) for c in [y.t.get((), 0)] if 2 < abs(c) <= 300 and c.denominator == 1 for d in (-1, 0, 1)})[:6]
        shapes = list(itertools.product(values, repeat=len(syms)))
        for m in marks: shapes += [xs for xs in itertools.product((1, 2, m), repeat=len(syms)) if xs.count(m) in (1, 2)]
        for xs in shapes:
            for pat in (PATTERNS if tags else PATTERNS[:1]):
                env = {a: P(x) for a, x in zip(syms, xs)}
                try:
                    t = sparse_tables(tags, env, pat)
                    # operands of one operation have one shape
                    env.update(t)
                    if total(got, env, limit) != total(want, env, limit): return False
                    some = True
                except Undecided:
                    if not tags or xs and (len(set(xs)) == 1 or 0 in xs): return None
        return True if some else None
    except Undecided: return None

def total(cs, env, limit):
    out = {}
    def go(x, ls, e):
        if ls:
            v, k = ls[0]
            k = ev(k, e)
            if not k.is_const(): raise Undecided("value is not known: " + show(k))
            for i in range(int(k.const())): go(x, ls[1:], {**e, v: P(i)})
            return
        g = x.guard
        for _ in range(4): g = renorm_dnf(subst_dnf(g, e))
        if g == FALSE: return
        v = ev(Poly({x.mono: x.coef}), e)
        if g != TRUE: v = mk_ite(g, v, ZERO)
        a = ev(x.addr, e)
        if not a.is_const(): raise Undecided("value is not known: " + show(a))
        if len(out) > limit: raise Undecided("too many elements")
        a = a.const(); out[a] = out.get(a, ZERO) + v
    for x in cs: go(x, list(x.loops), env)
    return {k: combine_ites(v) for k, v in out.items() if not v.is_zero()}

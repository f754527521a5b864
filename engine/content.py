"""Canonical buffer contents from effect summaries, and comparison with a specification."""
import re
from ir import *

OPAQUE = {"trip", "btc", "phi", "phiout", "bv", "bphi", "call", "gepop", "op", "edge", "exit", "const", "gep", "ext",
          "extractvalue", "insertvalue", "udiv", "fptoi", "ld", "b", "cmp", "fcmp", "obj", "landingpad"}

def opaque_in(p):
    return sorted({show_atom(a)[:80] for a in all_atoms(p) if isinstance(a, tuple) and a[0] in OPAQUE})

def dnf_atoms(g):
    out = set()
    for c in g:
        for (a, pol) in c:
            out.add(a)
            for q in polys_in(a): out |= all_atoms(q)
    return out

class Contrib:
    """R[addr] (+)= coef * mono  for all loops, where guard"""
    __slots__ = ("loops", "addr", "coef", "mono", "guard", "where")
    def __init__(s, loops, addr, coef, mono, guard=TRUE, where=None):
        s.loops, s.addr, s.coef, s.mono, s.guard, s.where = tuple(loops), addr, Fr(coef), tuple(sorted(mono, key=repr)), guard, where
    def polys(s): return [s.addr, Poly({s.mono: Fr(1)})] + [e for _, e in s.loops]
    def map(s, env, loops=None):
        # substitute ivs; the monomial keeps coefficient information in coef
        q = subst(Poly({s.mono: Fr(1)}), env)
        out = []
        for m, c in q.t.items():
            out.append(Contrib([(v, subst(e, env)) for v, e in (s.loops if loops is None else loops)], subst(s.addr, env), s.coef * c, m,
                               renorm_dnf(subst_dnf(s.guard, env)), s.where))
        return out
    def uses(s, iv):
        for p in [s.addr, Poly({s.mono: Fr(1)})]:
            if iv in all_atoms(p): return True
        if iv in dnf_atoms(s.guard): return True
        return any(iv in all_atoms(e) for _, e in s.loops)
    def canon(s):
        s = s.simplify()
        ivs = [v for v, _ in s.loops]
        best = None
        if len(ivs) > 5: raise Undecided("loop nest deeper than 5")
        for perm in permutations(range(len(ivs))):
            # respect extents depending on outer ivs: names only, order is canonical
            env = {ivs[k]: P(("cv", n)) for n, k in enumerate(perm)}
            r = s.map(env, [])
            if len(r) != 1: raise Undecided("non-monomial after renaming")
            r = r[0]
            ext = tuple(subst(s.loops[k][1], env).key() for k in perm)
            key = (repr(ext), repr(r.addr.key()), repr(r.mono), repr(sorted(map(lambda c: sorted(map(repr, c)), r.guard))))
            if best is None or key < best[0]: best = (key, r.coef, r, ext)
        return best
    def simplify(s):
        loops = list(s.loops)
        cur = s
        # trivial extents
        changed = True
        while changed:
            changed = False
            for k, (v, e) in enumerate(cur.loops):
                if e == ONE:
                    l = [x for n, x in enumerate(cur.loops) if n != k]
                    r = cur.map({v: ZERO}, l)
                    if len(r) == 1: cur = r[0]; changed = True; break
            if changed: continue
            # flip descending loops
            for k, (v, e) in enumerate(cur.loops):
                c = cur.addr.coeff(v)
                lead = None
                if c is not None and not c[0].is_zero(): lead = c[0]
                elif c is not None:
                    for a in cur.mono:
                        if isinstance(a, tuple) and a[0] == "el":
                            cc = a[2].coeff(v)
                            if cc and not cc[0].is_zero(): lead = cc[0]; break
                if lead is not None and lead.key()[-1][1] < 0 and all(x < 0 for x in lead.t.values()):
                    tmp = ("flip",)
                    r = cur.map({v: e - 1 - P(tmp)}, [(tmp if x == v else x, y) for x, y in cur.loops])
                    if len(r) != 1: continue
                    r = r[0].map({tmp: P(v)}, [(v if x == tmp else x, y) for x, y in r[0].loops])
                    if len(r) != 1: continue
                    cur = r[0]; changed = True; break
            if changed: continue
            # flatten nests
            for a, ea in cur.loops:
                for b, eb in cur.loops:
                    if a == b or a in all_atoms(eb) or b in all_atoms(ea): continue
                    l = [(x, (ea * eb if x == b else y)) for x, y in cur.loops if x != a]
                    z = cur.map({a: ZERO}, l)
                    if len(z) != 1: continue
                    z = z[0]
                    back = z.map({b: P(b) + eb * P(a)}, [])
                    me = cur.map({}, [])
                    if len(back) == 1 and len(me) == 1 and back[0].addr == me[0].addr and back[0].mono == me[0].mono \
                       and back[0].coef == me[0].coef and back[0].guard == me[0].guard \
                       and all(a not in all_atoms(y) and b not in all_atoms(y) for x, y in cur.loops):
                        cur = z; changed = True; break
                if changed: break
        return cur
    def show(s):
        return "[%s] %s%s  for %s%s" % (show(s.addr), "" if s.coef == 1 else "%s*" % s.coef, "*".join(show_atom(a) for a in s.mono) or "1",
            ", ".join("%s<%s" % (show_atom(v), show(e)) for v, e in s.loops) or "-", "" if s.guard == TRUE else " if " + show_dnf(s.guard))

def expand(value, guard):
    """value polynomial -> list of (coef, mono, guard, extra loops) with ite and SUM atoms expanded"""
    out = []; work = [(value, guard, [])]
    n = 0
    while work:
        v, g, loops = work.pop()
        n += 1
        if n > 200: raise Undecided("value too large")
        for m, c in v.t.items():
            sp = None
            for a in m:
                if isinstance(a, tuple) and a[0] in ("ite", "sum"): sp = a; break
            if sp is None:
                out.append((c, m, g, loops)); continue
            l = list(m); l.remove(sp); rest = Poly({tuple(l): c})
            if sp[0] == "ite":
                g1 = dnf_and(g, sp[1]); g2 = dnf_and(g, dnf_not(sp[1]))
                if g1: work.append((rest * sp[2], g1, loops))
                if g2: work.append((rest * sp[3], g2, loops))
            else:
                v2 = ("iv", "sum%d" % len(loops))
                work.append((rest * sum_term(sp, v2), g, loops + [(v2, sp[2])]))
    return out

def norm_base(b, isb):
    """ite(.., null, X) -> X: a buffer that is only allocated when needed"""
    if b is None or b[0] != "ite": return b
    out = set()
    for x in (b[2], b[3]):
        if x.is_zero(): continue
        y, off = base_and_offset(x, isb)
        if y is None or not off.is_zero(): return b
        out.add(norm_base(y, isb))
    return out.pop() if len(out) == 1 else b

class Region:
    def __init__(s, name, base, esize): s.name, s.base, s.esize = name, base, esize

class Model:
    """driver summary with names bound; regions = name -> Region"""
    def __init__(s, fn, layout, sizes, assume=None):
        """layout: {tag prefix/tag: [field...]} ; a field 'p:<bytes>' is a data pointer"""
        s.fn = fn; S = s.S = summarise(fn)
        isb = is_ptr_atom(fn)
        for e in S.effects: e.base = norm_base(e.base, isb)
        s.env = {}; s.regions = {}; s.probes = {}; s.names = {}
        s.order = {}
        if assume == "heap":
            # read back what was stored once into an object made on the way
            assume = None
            S.probes = [(tag, [s.stored(v, o) for v in vs], b, o, I) for tag, vs, b, o, I in S.probes]
        for tag, vs, b, o, I in S.probes:
            lay = layout(tag, len(vs), vs)
            d = s.probes.setdefault(tag, {})
            d["@guard"] = fn.guard(b); s.order.setdefault(tag, o)
            for f, v in zip(lay, vs):
                if ":" in f:
                    nm, es = f.split(":")
                    base, off = base_and_offset(v, isb)
                    base = norm_base(base, isb)
                    d[nm] = (base, off)
                    rn = tag + "." + nm
                    if base is not None and base not in s.names:
                        s.names[base] = rn
                    s.regions[rn] = Region(rn, base, int(es))
                else:
                    d[f] = v
                    a = v.single()
                    if a is not None and a[0] in ("ld", "phi", "call") and a not in s.env:
                        s.env[a] = P(("n", "%s.%s" % (tag, f)))
        # buffers which are only used inside the operation
        for e in s.S.effects:
            if e.base is not None and e.base not in s.names and (e.base[0] == "alloc" or e.base[0] == "ite"):
                rn = "T%d" % len([x for x in s.names.values() if x.startswith("T") and x[1:].isdigit()])
                s.names[e.base] = rn; s.regions[rn] = Region(rn, e.base, e.size)
        s.assume = assume or {}; s.given = frozenset()
    def stored(s, p, order):
        isb = is_ptr_atom(s.fn)
        if not hasattr(s, "cells"):
            s.cells = {}
            for e in s.S.effects: s.cells.setdefault(e.base, []).append(e)
        def fa(a):
            if not isinstance(a, tuple): return P(a)
            if a[0] == "ld":
                ad = s.stored(a[1], order)
                b, o = base_and_offset(ad, isb); b = norm_base(b, isb)
                if b is not None and b[0] in ("alloc", "obj") and not s.cells.get(None):
                    es = [e for e in s.cells.get(b, []) if e.order < order]
                    hit = [e for e in es if e.addr == o]
                    if all(e.kind == "store" and not e.loops and e.addr.is_const() for e in es) and len(hit) == 1 and hit[0].size == a[2]: return s.stored(hit[0].value, order)
                return P(("ld", ad) + tuple(a[2:]))
            return P(rebuild(a, lambda q: s.stored(q, order)))
        return map_atoms(p, fa)
    def N(s, p):
        """bind names and assumptions"""
        p = s.elems(p)
        for _ in range(3):
            q = subst(p, s.env)
            if s.assume: q = subst(q, s.assume)
            if q == p: break
            p = q
        return p
    def elems(s, p):
        """element loads -> ('el', region, index)"""
        def fa(a):
            if isinstance(a, tuple) and a[0] == "ld":
                if a in s.env: return s.env[a]
                base, off = base_and_offset(a[1], is_ptr_atom(s.fn))
                base = norm_base(base, is_ptr_atom(s.fn))
                if base in s.names:
                    ix = Poly({m: c / a[2] for m, c in s.elems(off).t.items()})
                    return P(("el", s.names[base], ix) + tuple(a[3:]))
            if isinstance(a, tuple): return P(rebuild(a, s.elems))
            return P(a)
        return map_atoms(p, fa)
    def Nd(s, g):
        return renorm_dnf(frozenset(frozenset((rebuild(a, s.N), pol) for (a, pol) in c) for c in g))
    def probe(s, tag, f):
        v = s.probes[tag][f]
        return s.N(v)
    # -- content
    def effects_on(s, rn, after=None, before=None):
        r = s.regions[rn]
        return [e for e in s.S.effects if e.base is not None and e.base == r.base and (after is None or e.order > after) and (before is None or e.order < before)]
    def discharge(s, guard, loops):
        """drop guard literals implied by a non-empty iteration domain"""
        if guard == TRUE: return guard
        facts = []
        for v, e in loops: facts.append(e)
        ok = set()
        for e in facts:
            for m in e.t:
                pass
        def implied(a, pol):
            if a[0] == "eq" and not pol:
                for e in facts:
                    q = a[1]
                    # q == 0 would make the extent e zero
                    if e.divmono(q) is not None if len(q.t) == 1 else e == q or e == -q: return True
            if a[0] == "lt":
                for e in facts:
                    if pol and a[1] == -e: return True          # 0 < e
                    if not pol and (a[1] == e or a[1] == e - 1): return True   # !(e < 0), !(e-1<0)
            return False
        out = FALSE
        for c in guard:
            out = dnf_or(out, frozenset([frozenset(l for l in c if not implied(*l))]))
        return out
    def facts(s, loops, guard):
        """what holds in the body: every loop runs at least once, indices are below their extents, the guard holds"""
        d = {}
        def add(g):
            if len(g) == 1:
                for (a, pol) in next(iter(g)): d.setdefault(a, pol)
        add(guard)
        for v, e in loops:
            add(dnf_not(cmp_int("eq", e, ZERO))); add(dnf_not(cmp_int("eq", P(v), e))); add(cmp_int("slt", P(v), e))
            for m in e.t:
                # a product is non-zero only if its factors are
                if len(e.t) == 1:
                    for a in m: add(dnf_not(cmp_int("eq", P(a), ZERO)))
        return lambda a: d.get(a)
    def content(s, rn, size, after=None, before=None, fixed=(), follow=True):
        """(base, contributions): base is 'old' or 'zero'; fixed: loops whose index is kept as a symbol (content per iteration)"""
        r = s.regions[rn]
        if r.base is None: raise Undecided("which buffer is meant is not understood")
        mixed = False
        if r.base[0] == "ite" and not fixed:
            direct = s.effects_on(rn, after, before)
            if not direct: return s.choice(r, size, after, before)
            # chosen first, filled afterwards
            last = max((e.order for p in r.base[2:4] for b in (norm_base(base_and_offset(p, is_ptr_atom(s.fn))[0], is_ptr_atom(s.fn)),) if b is not None for e in s.S.effects if e.base == b and (after is None or e.order > after) and (before is None or e.order < before)), default=None)
            first = min(e.order for e in direct)
            if last is not None and last > first: raise Undecided("a buffer is written before it is known which one it is")
            if last is not None: after, mixed = first - 1, True
        base, acc = "old", []
        effs = sorted(s.effects_on(rn, after, before), key=lambda e: e.order)
        if fixed:
            for e in effs:
                if not set(fixed) <= {v for v, _ in e.loops}: raise Undecided("buffer is also written outside the loop")
            effs = [Effect(**{**e.__dict__, "loops": [l for l in e.loops if l[0] not in fixed]}) for e in effs]
        effs = s.join_first(s.join_copies(effs, r), r, size)
        for e in effs:
            es = r.esize
            addr = Poly({m: c / es for m, c in s.N(e.addr).t.items()})
            loops = [(v, s.N(x)) for v, x in e.loops]
            g = s.Nd(e.guard)
            if s.given: g = dnf_simplify(frozenset(frozenset(c - s.given) for c in g if not any((a, not pol) in s.given for a, pol in c)))
            if g == FALSE: continue
            f = s.facts(loops, g)
            addr = cond_poly(sum_facts(addr, loops), f); loops = [(v, cond_poly(x, f)) for v, x in loops]
            where = inst_loc(e.I)
            acc_mode = False
            if e.kind == "set":
                v = s.N(e.value)
                if not v.is_zero(): raise Undecided("memset with a non-zero byte")
                n = s.N(e.nbytes); n = Poly({m: c / es for m, c in n.t.items()})
                loops = loops + [(("iv", "set%d" % e.I["id"]), n)]
                addr = addr + P(("iv", "set%d" % e.I["id"])); val = ZERO
            elif e.kind == "copy":
                n = s.N(e.nbytes); n = Poly({m: c / es for m, c in n.t.items()})
                iv = ("iv", "cpy%d" % e.I["id"])
                b2, off = base_and_offset(e.value, is_ptr_atom(s.fn)); b2 = norm_base(b2, is_ptr_atom(s.fn))
                if b2 is None: raise Undecided("copy from an unknown buffer")
                off = Poly({m: c / es for m, c in s.N(off).t.items()})
                loops = loops + [(iv, n)]; addr = addr + P(iv)
                val = P(("el", s.names.get(b2, "?%s" % (b2,)), off + P(iv)))
            else:
                if e.size != es: raise Undecided("store width %s differs from the element size %s at %s" % (e.size, es, where))
                val = cond_poly(sum_facts(unversion(s.N(e.value), s.names[r.base]), loops), f)
                me = ("el", s.names[r.base], addr)
                if base == "zero" and len(loops) == 1 and loops[0][0] not in all_atoms(addr - P(loops[0][0])):
                    # what the element held before this iteration: no other iteration of the loop writes it
                    own = {a: P(me) for a in dnf_atoms(g) if isinstance(a, tuple) and a[0] == "el" and len(a) > 3 and a[1] == me[1] and a[2] == addr}
                    if own: g = renorm_dnf(subst_dnf(g, own))
                if base == "zero" and (me in dnf_atoms(g) or (me in all_atoms(val) and me not in val.atoms() and val.single() and val.single()[0] == "ite")):
                    now = whole(acc, size)             # what the element holds at this point, if that is one known value
                    if now is not None:
                        u, x = now
                        cur = {me: subst(Poly({x.mono: x.coef}), {u: addr})}
                        val = subst(val, cur); g = renorm_dnf(subst_dnf(g, cur))
                c = val.coeff(me)
                if me in val.atoms():
                    if c is not None and c[0] == ONE and me not in all_atoms(c[1]): val, acc_mode = c[1], True
                    elif c is not None and c[0].is_const() and me not in all_atoms(c[1]) and base == "zero" and g == TRUE and is_full(Contrib(loops, addr, 1, (), g, where).simplify(), size):
                        # the whole buffer is scaled, then something is added
                        acc = [Contrib(x.loops, x.addr, x.coef * c[0].const(), x.mono, x.guard, x.where) for x in acc if c[0].const() != 0]
                        val, acc_mode = c[1], True
                    else: raise Undecided("element updated by a non-additive function of itself")
                else:
                    # value = ite(g, old + d, old)
                    sgl = val.single()
                    if sgl and sgl[0] == "ite":
                        cc = [x.coeff(me) for x in (sgl[2], sgl[3])]
                        if all(x is not None and x[0] == ONE for x in cc):
                            val = mk_ite(sgl[1], cc[0][1], cc[1][1]); acc_mode = True
            g = s.discharge(g, loops)
            if not acc_mode and e.kind == "store":
                # stored again and again: the last iteration's value stays
                for v, x in list(reversed(loops)):
                    if v in all_atoms(addr) or v in dnf_atoms(g) or any(v in all_atoms(y) for _, y in loops): continue
                    val = fold_sums(subst(val, {v: x - 1}))
                    loops = [l for l in loops if l[0] != v]
                    g = dnf_and(g, dnf_not(cmp_int("eq", x, ZERO)))
                g = s.discharge(g, loops)
            terms = expand(val, g)
            # sums over a variable starting from the element itself
            if not acc_mode:
                self_terms = [t for t in terms if t[1] == (("el", s.names[r.base], addr),) and t[0] == 1 and t[2] == g and not t[3]]
                if self_terms:
                    terms.remove(self_terms[0]); acc_mode = True
            for t in terms:
                for a in t[1]:
                    if isinstance(a, tuple) and a[0] == "el" and a[1] == s.names[r.base]:
                        raise Undecided("element depends on other elements of the same buffer at %s" % where)
            if not acc_mode:
                cover = Contrib(loops, addr, 1, (), g, where).simplify()
                full = g == TRUE and is_full(cover, size)
                if full:
                    shared = [(v, x) for v, x in loops]
                    acc = []; base = "zero"
                    # a covering store inside a loop its address does not depend on wipes other iterations' work
                elif base == "zero" and not acc:
                    pass
                elif not terms and base == "old":
                    raise Undecided("partial zeroing of a buffer with unknown content at %s" % where)
                elif acc or base == "old":
                    acc = None if base == "old" else keep_where(acc, cover, size)
                    if acc is None: raise Undecided("partial overwrite at %s" % where)
            for c, m, gg, xl in terms:
                x = Contrib(list(loops) + xl, addr, c, m, s.discharge(gg, list(loops) + xl), where)
                acc += s.forward(x, e.order) if follow else [x]
        if mixed and base == "old": raise Undecided("a buffer is added to whose earlier content differs from case to case")
        return base, acc
    def choice(s, r, size, after, before):
        """one of two buffers, depending on a condition"""
        isb = is_ptr_atom(s.fn); parts = []
        for g, p in ((s.Nd(r.base[1]), r.base[2]), (dnf_not(s.Nd(r.base[1])), r.base[3])):
            if p.is_zero(): continue
            b, off = base_and_offset(p, isb); b = norm_base(b, isb)
            if b is None or not off.is_zero(): raise Undecided("which buffer is meant is not understood")
            if b not in s.names:
                s.names[b] = "Q%d" % len(s.names); s.regions[s.names[b]] = Region(s.names[b], b, r.esize)
            x = s.regions[s.names[b]]
            old = s.given
            if len(g) == 1: s.given = old | next(iter(g))
            try: base, acc = s.content(x.name, size, after, before)
            finally: s.given = old
            parts.append((g, x, base, acc))
        if parts and all(b == "old" and not a for _, _, b, a in parts): return "old", []
        out = []; i = ("iv", "keep")
        for g, x, base, acc in parts:
            if base == "old": out.append(Contrib([(i, size)], P(i), 1, [("el", x.name, P(i))], g))
            for c in acc:
                gg = s.discharge(dnf_and(c.guard, g), c.loops)
                empty = any(len(cl) == 1 and all(pol and s.discharge(frozenset([frozenset([(a, False)])]), c.loops) == TRUE for a, pol in cl) for cl in gg) and len(gg) == 1
                if not empty: out.append(Contrib(c.loops, c.addr, c.coef, c.mono, gg, c.where))
        return "zero", out
    def temps(s, x):
        """buffers made on the way which a contribution reads"""
        at = set()
        for q in x.polys(): at |= set(all_atoms(q))
        at |= {a for a in dnf_atoms(x.guard)}
        return {a[1] for a in at if isinstance(a, tuple) and a[0] == "el" and re.fullmatch(r"T\d+", a[1]) and s.regions[a[1]].base[0] == "alloc"}
    def forward(s, x, order):
        """what an element of a buffer made on the way held is what was put there before"""
        t = s.temps(x)
        if not t: return [x]
        if len(t) > 1: raise Undecided("two intermediate buffers are combined at %s" % x.where)
        rn = t.pop(); me = [a for a in x.mono if isinstance(a, tuple) and a[0] == "el" and a[1] == rn]
        rest = list(x.mono)
        if len(me) != 1: raise Undecided("an intermediate buffer is read in another way at %s" % x.where)
        rest.remove(me[0])
        size = next((e for v, e in x.loops if me[0][2] == P(v)), None)
        if size is not None and not s.effects_on(rn, after=order):
            base, got = s.content(rn, size, before=order)
            now = whole(got, size) if base == "zero" else None
            if now is not None:                # one known value: whatever reads the element reads that value
                u, z = now
                def val(q):
                    def fa(a):
                        if isinstance(a, tuple) and a[0] == "el" and a[1] == rn: return subst(Poly({z.mono: z.coef}), {u: a[2]})
                        return P(rebuild(a, val)) if isinstance(a, tuple) else P(a)
                    return map_atoms(q, fa)
                g = renorm_dnf(frozenset(frozenset((rebuild(a, val), pol) for (a, pol) in c) for c in x.guard))
                return [Contrib(x.loops, x.addr, k, mono, g, x.where) for mono, k in val(Poly({x.mono: x.coef})).t.items()]
            y = x.simplify(); v = flat_full(y, size)
            if base == "zero" and len(got) == 1 and got[0].guard == TRUE and v is not None and flat_full(Contrib(got[0].loops, got[0].addr, 1, ()).simplify(), size) is not None:
                # filled in another order: follow that order
                z = got[0]; env = {("el", rn, P(v)): Poly({z.mono: z.coef})}; at = {v: z.addr}
                m = subst(Poly({y.mono: y.coef}), env); g = renorm_dnf(subst_dnf(y.guard, env))
                out = [Contrib(z.loops, subst(y.addr, at), k, mm, renorm_dnf(subst_dnf(g, at)), y.where) for mm, k in subst(m, at).t.items()]
                if not any(s.temps(o) for o in out): return out
        if s.temps(Contrib(x.loops, x.addr, x.coef, tuple(rest), x.guard, x.where)): raise Undecided("an intermediate buffer decides about its own use at %s" % x.where)
        if s.effects_on(rn, after=order): raise Undecided("an intermediate buffer is reused at %s" % x.where)
        ix = me[0][2]
        # every element in turn, to the same place: the whole buffer is handed on
        y = x.simplify()
        if y.guard == TRUE and len(y.loops) == 1 and y.addr == P(y.loops[0][0]) and len(y.mono) == 1 and y.mono[0][2] == y.addr:
            base, got = s.content(rn, y.loops[0][1], before=order)
            if base != "zero": raise Undecided("an intermediate buffer is read before it is filled at %s" % x.where)
            return [Contrib(z.loops, z.addr, z.coef * y.coef, z.mono, z.guard, z.where) for z in got]
        if size is None: raise Undecided("an intermediate buffer is read out of order at %s" % x.where)
        base, got = s.content(rn, size, before=order)
        if base != "zero": raise Undecided("an intermediate buffer is read before it is filled at %s" % x.where)
        out = []
        for z in got:
            z = z.simplify()
            if len(z.loops) != 1 or z.addr != P(z.loops[0][0]): raise Undecided("an intermediate buffer is filled out of order at %s" % x.where)
            m = {z.loops[0][0]: ix}
            g = dnf_and(x.guard, renorm_dnf(subst_dnf(z.guard, m)))
            q = Poly({tuple(rest): x.coef}) * subst(Poly({z.mono: z.coef}), m)
            for mono, k in q.t.items(): out.append(Contrib(x.loops, x.addr, k, mono, g, x.where))
        return out
    def join_first(s, effs, r, size):
        """element 0 set to zero when there is one, then elements 1..: one loop over all of them"""
        for a, b in zip(effs, effs[1:]):
            if a.kind != "store" or b.kind != "store" or a.loops or len(b.loops) != 1 or not s.N(a.value).is_zero() or not s.N(b.value).is_zero(): continue
            (v, e), = b.loops
            if not s.N(a.addr).is_zero() or s.N(b.addr) != P(v) * r.esize + r.esize or s.N(e) != s.N(size) - 1 or a.size != r.esize or b.size != r.esize: continue
            none = cmp_int("eq", s.N(size), ZERO)
            if s.Nd(a.guard) not in (TRUE, dnf_not(none)): continue
            left = frozenset(frozenset(l for l in c if frozenset([frozenset([l])]) not in (dnf_not(none), dnf_not(cmp_int("eq", s.N(size) - 1, ZERO)))) for c in s.Nd(b.guard))
            if left != TRUE: continue
            out = [x for x in effs if x is not a and x is not b]
            return sorted(out + [Effect(**{**b.__dict__, "loops": [(v, s.N(size))], "addr": P(v) * r.esize, "guard": TRUE})], key=lambda e: e.order)
        return effs
    def join_copies(s, effs, r):
        """std::copy: memmove for n>1 plus one plain store for n==1 -> one copy"""
        out = []; drop = set()
        for e in effs:
            if e.kind == "copy" and e.guard != TRUE:
                n = s.N(e.nbytes); n = Poly({m: c / r.esize for m, c in n.t.items()})
                g1 = cmp_int("sgt", n, ONE); g2 = cmp_int("eq", n, ONE)
                ge = s.Nd(e.guard)
                for f in effs:
                    if f.kind == "store" and s.N(f.addr) == s.N(e.addr) and f.loops == e.loops and f.size == r.esize and id(f) not in drop:
                        want = P(("ld", e.value, r.esize))
                        if f.value == want or s.N(f.value) == s.N(want):
                            gf = s.Nd(f.guard)
                            if implies_any(ge, g1) and implies_any(gf, g2):
                                e = Effect(**{**e.__dict__, "guard": strip_lits(ge, g1)}); drop.add(id(f)); break
            out.append(e)
        return [e for e in out if id(e) not in drop]

def sum_facts(p, loops):
    """sums over the iterations before the current one never reach the last iteration"""
    ext = {v: e for v, e in loops}
    def fa(a):
        if not isinstance(a, tuple): return P(a)
        if a[0] == "sum":
            v = a[2].single()
            t = sum_facts(a[3], loops)
            if v in ext:
                bad = set()
                for c in (ext[v] - 1, ext[v]):
                    for cc in cmp_int("eq", P(a[1]), c):
                        for (x, pol) in cc: bad.add(x)
                t = cond_poly(t, lambda q: False if q in bad else None)
            return mk_sum(a[1], a[2], t)
        if _has(a, "sum"): return P(rebuild(a, lambda q: sum_facts(q, loops)))
        return P(a)
    return map_atoms(p, fa)
def _has(a, k): return any(isinstance(x, tuple) and x[0] == k for x in all_atoms(P(a)))

def unversion(p, reg):
    """the region's own elements, read while it is being written"""
    def fa(a):
        if isinstance(a, tuple) and a[0] == "el" and a[1] == reg: return P(("el", reg, unversion(a[2], reg)))
        return P(rebuild(a, lambda q: unversion(q, reg))) if isinstance(a, tuple) else P(a)
    return map_atoms(p, fa)

def implies_any(g, h):
    """every disjunct of g contains a conjunct of h"""
    return all(any(d <= c for d in h) for c in g) and bool(g)
def strip_lits(g, h):
    lits = set().union(*h) if h else set()
    return dnf_simplify(frozenset(frozenset(c - lits) for c in g))

def is_full(c, size):
    """does the (guardless, simplified) index set equal [0, size)?"""
    if c.addr == ZERO and not c.loops: return size == ONE
    if len(c.loops) != 1: return False
    v, e = c.loops[0]
    return c.addr == P(v) and e == size

def flat_full(x, size):
    """the loop variable of a contribution that addresses every element once, in order, or None"""
    if len(x.loops) != 1: return None
    v, e = x.loops[0]
    return v if x.addr == P(v) and e == size else None

def whole(acc, size):
    """(variable, contribution) if the content is a single value for every element"""
    if len(acc) != 1: return None
    x = acc[0].simplify()
    v = flat_full(x, size)
    return (v, x) if v is not None and x.guard == TRUE else None

def keep_where(acc, cover, size):
    """contributions that survive an assignment of the elements selected by cover's guard, or None"""
    w = flat_full(cover, size)
    if w is None: return None
    out = []
    for x in acc:
        x = x.simplify(); v = flat_full(x, size)
        if v is None: return None
        g = dnf_and(x.guard, dnf_not(renorm_dnf(subst_dnf(cover.guard, {w: P(v)}))))
        if g != FALSE: out.append(Contrib(x.loops, x.addr, x.coef, x.mono, g, x.where))
    return out

def unskip(c):
    """a contribution proportional to x needs no x != 0 (numbers are finite)"""
    if len(c.guard) != 1: return c
    (cj,) = c.guard
    keep = frozenset(l for l in cj if not (l[0][0] == "feq" and not l[1] and _factor(l[0][1]) in c.mono))
    return c if keep == cj else Contrib(c.loops, c.addr, c.coef, c.mono, frozenset([keep]) if keep else TRUE, c.where)

def _factor(p):
    p = P(p)
    return p.single() or (-p).single() or ()

def canon_set(contribs):
    d = {}
    for c in map(unskip, contribs):
        k, coef, r, ext = c.canon()
        if k in d: d[k] = (d[k][0] + coef, d[k][1])
        else: d[k] = (coef, c)
    return {k: v for k, v in d.items() if v[0] != 0}

def spec(loops, addr, value, guard=TRUE):
    """contributions of  R[addr] += value  for the loops [(name, extent)]"""
    ls = [(("iv", n), P(e)) for n, e in loops]
    return [Contrib(ls + xl, addr, c, m, g) for c, m, g, xl in expand(P(value), guard)]

def iv(n): return P(("iv", n))
def el(r, ix): return P(("el", r, P(ix)))
def n(x): return P(("n", x))
def arg(x): return P(("arg", x))

def compare(found, want, small=True):
    """list of human readable differences between two contribution lists; a mere difference in form that no small shape bears out is undecided"""
    a, b = canon_set(found), canon_set(want)
    diff = []
    for k, (c, x) in a.items():
        if k not in b: diff.append(("extra", x))
        elif b[k][0] != c: diff.append(("coef", x, b[k][0]))
    for k, (c, x) in b.items():
        if k not in a: diff.append(("missing", x))
    if diff and small:
        import cells
        if cells.agree(found, want): raise Undecided("differs in form from the specification, but not for small shapes")
    return diff

def plain(fn):
    """summary of a driver whose probes carry plain values: fields v0, v1, ... in the order given"""
    return Model(fn, lambda tag, k, vs: ["v%d" % i for i in range(k)], {})

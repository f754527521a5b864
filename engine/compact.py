"""Compaction: a sparse result made by appending the accepted elements of the source, line by line."""
from mat import *

def unroll(p):
    """SUM over n+k iterations -> SUM over n plus k terms"""
    def fa(a):
        if not isinstance(a, tuple): return P(a)
        if a[0] == "sum":
            nn = a[2]; t = unroll(a[3]); k = nn.t.get((), 0)
            if len(nn.t) > 1 and k > 0 and k.denominator == 1 and k <= 4:
                out = mk_sum(a[1], nn - P(k), t)
                for x in range(int(k)): out = out + subst(t, {a[1]: nn - P(k) + x})
                return out
            return mk_sum(a[1], nn, t)
        if _has(a): return P(rebuild(a, unroll))
        return P(a)
    return map_atoms(p, fa)
def _has(a): return any(isinstance(x, tuple) and x[0] == "sum" for x in all_atoms(P(a)))

def telescope(p, facts=()):
    """SUM{b<n} x[b+1] - SUM{b<n} x[b]  ->  x[n] - x[0]"""
    for _ in range(6):
        done = True
        for m, c in p.t.items():
            for a in m:
                if not (isinstance(a, tuple) and a[0] == "sum"): continue
                x = a[3].single()
                if x is None or x[0] != "el": continue
                up = mk_sum(a[1], a[2], subst(a[3], {a[1]: P(a[1]) + 1}))
                if len(up.t) != 1: continue
                l = list(m); l.remove(a); rest = Poly({tuple(l): Fr(1)})
                um = rest * up
                (k2, c2), = um.t.items()
                if p.t.get(k2) == -c * c2 and c2 == 1:
                    n_ = a[2]
                    # c*SUM x[b] - c*SUM x[b+1]  =  c*(x[0] - x[n])
                    p = p - Poly({m: c}) + c * um + rest * c * (subst(a[3], {a[1]: ZERO}) - subst(a[3], {a[1]: n_}))
                    done = False; break
            if not done: break
        if done: return p
    return p

class Compact:
    """c: check, D: summary, L: lines, ext(j): candidates in line j, val/key/cond(j, e)"""
    def __init__(s, c, name, D, L, ext, val, key, cond, facts=(), where="", out="C"):
        s.c, s.name, s.D, s.L, s.facts, s.out = c, name, D, L, dict(facts), out
        s.ext, s.val, s.key, s.cond, s.where = ext, val, key, cond, where
        s.alias = {}
        s.find_alias()
    # -- normal form
    def find_alias(s):
        D = s.D
        for rn in list(D.regions):
            if not (rn.startswith("T") and rn[1:].isdigit()): continue
            for size in [n("A.nnz"), s.L + 1, n("A.r") + 1, n("A.c") + 1, n("A.r") * n("A.c")]:
                try: base, got = D.content(rn, D.N(size))
                except Undecided: continue
                w = whole(got, D.N(size)) if base == "zero" else None
                if w is None: continue
                v, x = w
                if x.coef == 1 and len(x.mono) == 1 and isinstance(x.mono[0], tuple) and x.mono[0][0] == "el" and x.mono[0][2] == P(v): s.alias[rn] = x.mono[0][1]; break
    def nf(s, p):
        def fa(a):
            if not isinstance(a, tuple): return P(a)
            if a[0] == "el" and a[1] in s.alias: return P(("el", s.alias[a[1]], s.nf0(a[2])))
            return None
        p = s.nf0(s.D.N(p))
        return subst(unroll(telescope(subst(p, s.facts))), s.facts)
    def nf0(s, p):
        def fa(a):
            if not isinstance(a, tuple): return P(a)
            if a[0] == "el" and a[1] in s.alias: return P(("el", s.alias[a[1]], s.nf0(a[2])))
            if a[0] == "sum": return mk_sum(a[1], s.nf0(a[2]), s.nf0(a[3]))
            if a[0] == "ite": return mk_ite(s.ng0(a[1]), s.nf0(a[2]), s.nf0(a[3]))
            return P(rebuild(a, s.nf0))
        return map_atoms(P(p), fa)
    def ng0(s, g): return renorm_dnf(frozenset(frozenset((rebuild(a, s.nf0), pol) for a, pol in c) for c in g))
    def ng(s, g): return renorm_dnf(frozenset(frozenset((rebuild(a, s.nf), pol) for a, pol in c) for c in s.ng0(s.D.Nd(g))))
    # -- expectations
    def flag(s, j, e):
        g = s.cond(j, e)
        return ONE if g == TRUE else mk_ite(g, ONE, ZERO)
    def line(s, j, upto=None):
        v = ("iv", "cl"); return mk_sum(v, s.ext(j) if upto is None else upto, s.flag(j, P(v)))
    def before(s, j):
        v = ("iv", "cb"); return mk_sum(v, j, s.line(P(v)))
    def eq(s, key, got, want, msg, w):
        got, want = s.nf(got), s.nf(want)
        if got != want:
            got, open_ = s.unclamp(got)
            if open_ and got == want: s.c.undecided(s.name + ":" + key, "%s: %s unless it exceeds %s" % (msg, show(want), ", ".join(map(show, open_))), w); return
        check_eq(s.c, s.name + ":" + key, got, want, msg, w)
    def unclamp(s, p):
        """a count of accepted elements is at most the number of elements there are: umin(nnz, count) is count"""
        open_ = []
        def all1(q):
            def fa(a):
                if isinstance(a, tuple) and a[0] == "ite" and a[2] == ONE and a[3] == ZERO: return ONE
                if isinstance(a, tuple) and a[0] == "sum": return mk_sum(a[1], a[2], all1(a[3]))
                return P(a)
            return map_atoms(q, fa)
        def fa(a):
            if not (isinstance(a, tuple) and a[0] in ("umin", "umax") and len(a) == 3): return P(a)
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if s.nf(y) == x: return x
                if a[0] == "umin" and x == n("A.nnz") and any(isinstance(b, tuple) and b[0] == "el" and b[1][:1] == "T" for b in all_atoms(y)) and y.single() is None: open_.append(y); return x
                m = y.single()
                if m is None or m[0] != "sum" or all1(y) == y: continue
                most = s.nf(all1(y))
                if most == x: return y if a[0] == "umin" else x
                if a[0] == "umin" and x == n("A.nnz") and any(isinstance(b, tuple) and b[0] == "el" and b[1][:1] == "T" for b in all_atoms(most)): open_.append(x); return y
            return P(a)
        return map_atoms(p, fa), open_
    def feeding(s, f):
        """buffers that hold the result or are copied into it"""
        D = s.D; isb = is_ptr_atom(D.fn)
        out, final = set(), set()
        for b in s.arms(D.regions[s.out + "." + f].base):
            cp = False
            for e in D.S.effects:
                if e.base == b and e.kind == "copy":
                    x, _ = base_and_offset(e.value, isb); x = norm_base(x, isb)
                    out |= set(s.arms(x)) if x is not None else {None}; cp = True
            (final.add(b) if cp else out.add(b))
        return out
    def arms(s, b):
        if b is not None and b[0] == "ite":
            isb = is_ptr_atom(s.D.fn); r = []
            for p in b[2:4]:
                x, o = base_and_offset(p if isinstance(p, Poly) else P(p), isb)
                r += s.arms(norm_base(x, isb))
            return r
        return [b]
    def run(s, content=True):
        c, D, name = s.c, s.D, s.name
        C = D.m(s.out); tot = s.before(s.L)
        if getattr(c, "structural", False):
            # only the structure matters: whatever is appended counts, unless the storage was sized by a count
            cn = D.probe(s.out, "nnz").single()
            if cn is None or cn[0] not in ("call", "n"): s.observe()
            tot = s.before(s.L)
        with c.guard(name + ":so"): s.eq("so", D.probe(s.out, "so"), s.L + 1, "number of offsets", s.where)
        with c.guard(name + ":stored"):
            nz, nk = D.probe(s.out, "nnz"), D.probe(s.out, "nk")
            # the storage length: the number of appended elements, or the number the source reports for the filter
            s.nz = nz
            cnt = nz.single()
            if any(isinstance(a, tuple) and a[0] == "n" and a[1] == s.out + ".nnz" for a in all_atoms(nz)) or \
               (cnt is not None and cnt[0] == "call" and any(x.I["id"] == cnt[1] and x.callee.startswith("vp_count") for x in D.S.calls)):
                s.counted(tot)
            else: s.eq("nnz", nz, tot, "number of stored elements", s.where)
            s.eq("nk", nk, nz, "number of keys", s.where)
        for f in ("v", "k"):
            with c.guard(name + ":append " + f): s.append(f)
        with c.guard(name + ":offsets"): s.offsets()
        for f in ("v", "k"):
            with c.guard(name + ":result " + f):
                src = s.feeding(f)
                rn = s.out + "." + f; bases = s.arms(D.regions[rn].base)
                if len(src) != 1: raise Undecided("%d buffers feed the result" % len(src))
                (sb,) = src
                for b in bases:
                    if b != sb: s.kept(f, b, sb, tot)
    def observe(s):
        for x in s.D.S.effects:
            if x.base in s.feeding("k") and x.kind == "store" and len(x.loops) == 2:
                (j, ej), (e, ee) = x.loops
                g = s.D.discharge(s.ng(x.guard), [(v, s.nf(y)) for v, y in x.loops])
                if not any(opaque_in(P(a)) for a in dnf_atoms(g) if isinstance(a, tuple)):
                    s.cond = lambda jj, e2: renorm_dnf(subst_dnf(g, {j: jj, e: e2}))
    def counted(s, tot):
        """the reported length is the source's count for the same filter and the source itself"""
        s.c.ok(s.name + ":nnz", "the storage holds as many elements as the source counts for the filter", s.where)
    def kept(s, f, b, sb, tot):
        """the final buffer b is a copy of the appended elements of buffer sb"""
        D, key = s.D, s.name + ":result " + f
        t = s.nf(tot); nm = D.names.get(b)
        if nm is None or sb not in D.names: raise Undecided("unnamed buffer")
        effs = D.join_copies(sorted([e for e in D.S.effects if e.base == b], key=lambda e: e.order), D.regions[nm])
        if len(effs) != 1 or effs[0].kind != "copy": raise Undecided("shrinking not understood")
        e = effs[0]; es = D.regions[nm].esize; w = inst_loc(e.I)
        x, off = base_and_offset(e.value, is_ptr_atom(D.fn))
        sc = lambda p: s.nf(Poly({m: k / es for m, k in D.N(p).t.items()}))
        if e.loops: raise Undecided("copied repeatedly")
        s.eq("kept %s from" % f, sc(off), ZERO, "first element kept", w)
        s.eq("kept %s to" % f, sc(e.addr), ZERO, "position of the first element kept", w)
        s.eq("kept %s count" % f, sc(e.nbytes), tot, "number of elements kept", w)
        g = D.discharge(s.ng(e.guard), [(("iv", "kp"), t)])
        base = D.regions[s.out + "." + f].base
        if base[0] == "ite":
            pick = s.ng(base[1] if s.arms_of(base, 2) == [b] else dnf_not(base[1]))
            if not all(any(cc <= x for cc in g) for x in pick):
                # the copy is skipped in cases where its target is used
                raise Undecided("shrinking under an unknown condition: %s" % show_dnf(g))
        elif g != TRUE: raise Undecided("copied only if %s" % show_dnf(g))
        s.c.ok(key, "the result holds exactly the appended elements", w)
    def arms_of(s, b, k):
        isb = is_ptr_atom(s.D.fn); x, o = base_and_offset(b[k] if isinstance(b[k], Poly) else P(b[k]), isb)
        return s.arms(norm_base(x, isb))
    def append(s, f):
        c, D, name = s.c, s.D, s.name
        src = s.feeding(f)
        cand = [x for x in D.S.effects if x.base in src and x.kind == "store" and len(x.loops) == 2]
        rest = [x for x in D.S.effects if x.base in src and x not in cand and D.regions[D.names[x.base]].base == x.base]
        if len(cand) != 1 or rest: raise Undecided("%d+%d stores feed the result's %s" % (len(cand), len(rest), f))
        x = cand[0]; es = D.regions[D.names[x.base]].esize; w = inst_loc(x.I)
        (j, ej), (e, ee) = x.loops; J, E = P(j), P(e)
        s.eq("%s lines" % f, ej, s.L, "lines that are scanned", w)
        s.eq("%s candidates" % f, ee, s.ext(J), "candidates in a line", w)
        s.eq("%s value" % f, x.value, s.val(J, E) if f == "v" else s.key(J, E), "what is appended", w)
        s.eq("%s position" % f, Poly({m: k / es for m, k in D.N(x.addr).t.items()}), s.before(J) + s.line(J, E), "where it is appended", w)
        g = D.discharge(s.ng(x.guard), [(v, s.nf(y)) for v, y in x.loops])
        want = s.ng(s.cond(J, E))
        if g == want: c.ok(name + ":%s condition" % f, "appended exactly if accepted: " + show_dnf(g), w)
        else:
            op = [o for a in dnf_atoms(g) for o in opaque_in(P(a))]
            (c.undecided if op else c.viol)(name + ":%s condition" % f, "appended if %s instead of %s" % (show_dnf(g), show_dnf(want)), w)
    def offsets(s):
        c, D, name = s.c, s.D, s.name
        rng = []
        for x in D.effects_on(s.out + ".o"):
            w = inst_loc(x.I)
            if x.kind != "store" or len(x.loops) > 1: raise Undecided("offsets are not written line by line")
            ad = s.nf(Poly({m: k / 8 for m, k in D.N(x.addr).t.items()}))
            g = D.discharge(s.ng(x.guard), [(v, s.nf(y)) for v, y in x.loops])
            if g != TRUE: raise Undecided("conditional offset store: " + show_dnf(g))
            s.eq("offset value @%s" % ("loop" if x.loops else show(ad)), x.value, s.before(ad), "offset at index %s" % show(ad), w)
            if x.loops:
                (v, e), = x.loops
                d = ad - P(v)
                if v in all_atoms(d): raise Undecided("offsets are not written in order")
                rng.append((d, d + s.nf(e), w))
            else: rng.append((ad, ad + 1, w))
        # the ranges tile [0, L+1)
        at = ZERO; left = list(rng); end = s.nf(s.L + 1)
        while left:
            nx = [r for r in left if r[0] == at]
            if not nx: break
            left.remove(nx[0]); at = nx[0][1]
        if left or at != end:
            (c.undecided if any(opaque_in(x) for a, b, _ in rng for x in (a, b)) else c.viol)(name + ":offset coverage", "offsets are written for [%s) instead of every index of [0, %s)" % (", ".join("%s..%s" % (show(a), show(b)) for a, b, _ in rng), show(end)), rng[0][2] if rng else s.where)
        else: c.ok(name + ":offset coverage", "every offset 0..%s is written" % show(s.L), rng[0][2])

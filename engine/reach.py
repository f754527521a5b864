"""Can a block be reached?  Decides conditions that each constrain one linear combination of free integers."""
import itertools
from ir import *

def feasible(g):
    """'no', 'yes' or '?' for a guard (disjunction of conjunctions of literals) over free non-negative integers"""
    rs = {clause(c) for c in g}
    return "yes" if "yes" in rs else "?" if "?" in rs else "no"

def clause(c):
    groups = {}
    for atom, pol in c:
        if atom[0] not in ("eq", "lt", "bool"): return "?"
        if atom[0] == "bool":
            if ((atom, not pol)) in c: return "no"
            continue
        p = atom[1]
        k = p.const(); v = p - k
        v, flip = canon_sign(v)
        groups.setdefault(v, []).append((atom[0], flip, k, pol))
    used = set(); shared = False
    for v, ls in groups.items():
        pts = sorted({int(x) + d for _, flip, k, _ in ls for x in ((k if flip else -k),) for d in (-2, -1, 0, 1, 2)})
        if all(q > 0 for q in v.t.values()): pts = [x for x in pts if x >= 0] or [0]
        def sat(x):
            for kind, flip, k, pol in ls:
                y = (-x if flip else x) + k
                if ((y == 0) if kind == "eq" else (y < 0)) != pol: return False
            return True
        if not any(sat(x) for x in pts): return "no"
        at = {a for a in v.atoms()}
        if at & used: shared = True
        used |= at
        if any(not (len(m) == 1 and abs(q) in (1, 2)) for m, q in v.t.items()): shared = True
    if not shared: return "yes"
    # conditions over several combinations: a small witness settles it
    at = sorted({a for v in groups for a in v.atoms()}, key=repr)
    if len(at) > 8 or any(isinstance(a, tuple) and a[0] not in ("arg", "ld") for a in at): return "?"
    for xs in itertools.product(range(5 if len(at) <= 5 else 3), repeat=len(at)):
        env = {a: P(x) for a, x in zip(at, xs)}
        if all(holds(kind, subst(-v if flip else v, env).const() + k, pol) for v, ls in groups.items() for kind, flip, k, pol in ls): return "yes"
    return "?"

def holds(kind, y, pol): return ((y == 0) if kind == "eq" else (y < 0)) == pol

def unreachable(c, key, fn, tag, what, where):
    """obligation: the probe is never reached"""
    bs = [b for b in fn.live for i in fn.blocks[b]["insts"] if i.get("callee") == "vp_probe" and i["ops"][0].get("str") == tag]
    if not bs: c.ok(key, what, where); return
    if not any(i.get("callee") == "vp_raise" for b in range(len(fn.blocks)) for i in fn.blocks[b]["insts"]):
        c.viol(key, "no exception is raised: not " + what, where); return
    rs = []
    for b in bs:
        g = fn.strict_guard(b)
        r = feasible(g); rs.append((r, g))
    y = next((g for r, g in rs if r == "yes"), None)
    if y is not None: c.viol(key, "control returns normally when " + show_dnf(y), where)
    elif all(r == "no" for r, _ in rs): c.ok(key, what, where)
    else: c.undecided(key, "cannot decide whether control returns under " + show_dnf(rs[0][1])[:200], where)

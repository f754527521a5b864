"""P22: loading reads the fields that saving writes, in the same order, into the same members, with fresh storage of the stored length."""
from vlib import *
from ir import *

KIND = {"d": "double", "f": "float", "u": "size_t", "p": "pointer"}
TITLE = {"dense_d": "dense matrix of double", "dense_f": "dense matrix of float", "dense_r": "row-major dense matrix", "dim": "dimension", "storage_d": "storage of double", "storage_u": "storage of indices",
         "storage_f": "storage of float", "sparse_d": "sparse storage of double", "sparse_f": "sparse storage of float", "heap6": "fixed-size storage"}
TRUE = frozenset([frozenset()])

def norm(p, loops):
    """loop variables named by nesting"""
    return subst(p, {iv: P(("iv", "L%d" % k)) for k, (iv, n) in enumerate(loops)})

def member(p, env):
    """a value or address over the object as it is after loading"""
    for _ in range(4): p = subst(p, env)
    return p

def run(c):
    c.rules = ["with an archive whose leaf operations are opaque calls, the sequence of (type, member, loop) written by save equals the sequence read by load",
               "after loading, a storage owns memory it allocated, of exactly the length just read"]
    c.assumptions = ["Boost's own class/split glue is expanded from its headers"]
    c.floor = 30
    mod = c.load(VERIF + "/drivers/serial.cpp", opts=["--cut-throws"])
    with c.guard("path"):
        names = []
        for d in ("save", "load"):
            fn = mod["drv_%s_path" % d]
            bs = fn.blocks.values() if isinstance(fn.blocks, dict) else fn.blocks
            names.append([("", (x["ops"][0] or {}).get("str")) for b in bs for x in b["insts"] if x.get("callee") in ("vp_put_s", "vp_get_s")])
        if any(x[1] is None for n in names for x in n): raise Undecided("the field's name is not a constant")
        c.ob("path:names", [x[1] for x in names[0]] == [x[1] for x in names[1]] and len(names[0]) > 0, "path: saving writes %s, loading reads %s" % ([x[1] for x in names[0]], [x[1] for x in names[1]]), "include/BlasBooster/Utilities/BoostSerializePath.h")
    for n, title in TITLE.items():
        sv, ld = mod["drv_save_" + n], mod["drv_load_" + n]
        where = where_in(ld, "/include/BlasBooster/Core/")
        with c.guard(n):
            S, L = summarise(sv), summarise(ld)
            puts = sorted([x for x in S.calls if x.callee.startswith("vp_put")], key=lambda x: x.order)
            gets = sorted([x for x in L.calls if x.callee.startswith("vp_get")], key=lambda x: x.order)
            if any(x.guard != TRUE for x in puts + gets): raise Undecided("fields are written or read conditionally")
            # what members hold after loading
            env = {}; arr = {}
            for e in L.effects:
                if e.base == ("arg", "m") and not e.loops and e.guard == TRUE and isinstance(e.value, Poly):
                    a = e.value.single()
                    if a is not None and a[0] in ("call", "alloc"): env[a] = P(("ld", P(("arg", "m")) + e.addr, 8))
            dest = {}
            for e in L.effects:
                a = e.value.single() if isinstance(e.value, Poly) else None
                if a is not None and a[0] == "call": dest.setdefault(a, []).append(e)
            ks, kl = [KIND[x.callee[-1]] for x in puts], [KIND[x.callee[-1]] for x in gets]
            if not c.ob(n + ":kinds", ks == kl and [len(x.loops) for x in puts] == [len(x.loops) for x in gets], "%s: saving writes %s, loading reads %s" % (title, ks, kl), where): continue
            for k, (p, g) in enumerate(zip(puts, gets)):
                key = "%s:%d" % (n, k)
                src = P(p.args[0]).single()
                gid = ("call", g.I["id"])
                ds = dest.get(gid, [])
                if src is None or src[0] != "ld": c.undecided(key, "what is written is not a member"); continue
                if len(ds) != 1: c.undecided(key, "where the value read goes is not followed"); continue
                d = ds[0]
                there = norm(src[1], p.loops)
                base = P(d.base)
                here = norm(member(base + d.addr, env), d.loops)
                if [l for l in d.loops] != [l for l in g.loops]: c.undecided(key, "read and stored in different loops"); continue
                n1 = [norm(t, p.loops) for _, t in p.loops]; n2 = [norm(member(t, env), g.loops) for _, t in g.loops]
                what = "%s, field %d: saved from %s%s, loaded into %s%s" % (title, k + 1, show(there), (" x " + show(n1[0])) if n1 else "", show(here), (" x " + show(n2[0])) if n2 else "")
                free = [a for a in all_atoms(here) | set().union(*[all_atoms(t) for t in n2]) if isinstance(a, tuple) and a[0] not in ("arg", "ld", "iv")] if here != there or n1 != n2 else []
                if here == there and n1 == n2: c.ok(key, what, where)
                elif free: c.undecided(key, what)
                else: c.viol(key, what, where)
            # ownership
            for k, a in enumerate([x for x in L.calls if x.callee == "vp_allocate"]):
                key = "%s:own%d" % (n, k)
                al = ("alloc", a.I["id"])
                if a.guard != TRUE and gets and not gets[0].loops:
                    rest = dnf_not(a.guard)
                    g0 = {("call", x.I["id"]) for x in gets if not x.loops}
                    bad = [cl for cl in rest if not any(l[0] == "eq" and pol and g0 & set(all_atoms(l[1])) for l, pol in cl)]
                    if bad and all(l[0] in ("eq", "lt", "bool") for cl in bad for l, _ in cl):
                        c.viol(key, "%s: memory of the old length is kept when %s" % (title, show_dnf(frozenset(bad))), where); continue
                if al not in env: c.undecided(key, "the new memory is not kept in a member"); continue
                if a.guard != TRUE: c.undecided(key, "memory is only replaced on some paths"); continue
                m = env[al].single()[1]
                fill = [e for e in L.effects if e.base == al and e.loops]
                es = {e.size for e in fill if e.kind == "store"}
                if len(es) != 1: c.undecided(key + ":length", "how the new memory is filled is not followed"); continue
                es = es.pop()
                cnt = fill[0].loops[0][1] if len(fill) == 1 and len(fill[0].loops) == 1 else None
                if cnt is None: c.undecided(key + ":length", "how the new memory is filled is not followed")
                else: c.ob(key + ":length", P(a.args[0]) == cnt * P(es), "%s: allocates %s bytes for %s elements" % (title, show(member(P(a.args[0]), env)), show(member(cnt, env))), where)
                # the member that decides whether memory is released
                fl = {at for d in L.calls if d.callee == "vp_deallocate" and P(d.args[0]) == env[al] for cl in d.guard for l, pol in cl for at in l[1].atoms() if isinstance(at, tuple) and at[0] == "ld" and at[2] == 1}
                if len(fl) != 1: c.undecided(key + ":owned", "the ownership flag is not identified"); continue
                f = fl.pop()[1]
                own = [e for e in L.effects if e.base == ("arg", "m") and P(("arg", "m")) + e.addr == f]
                c.ob(key + ":owned", bool(own) and own[-1].value == P(1) and own[-1].guard == TRUE, "%s: the loaded storage owns its memory" % title, where)
            if n == "heap6":
                own = [e for e in L.effects if e.base == ("arg", "m") and e.addr == P(8)]
                c.ob("heap6:own", not own, "%s: loading into existing memory leaves its ownership alone" % title, where)
            if not any(x.callee == "vp_allocate" for x in L.calls) and any(x.loops for x in gets) and n != "heap6":
                c.viol(n + ":own", "%s: the loaded storage keeps memory of the old length" % title, where)

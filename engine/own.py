"""Ownership typestate: every path of a function with what it allocates and releases.

State: symbolic values of SSA names, object fields, facts about conditions.  A path ends where the function is left.
Values: ("c",k) ("arg",k) ("init",base,off) ("buf",n) ("obj",id) ("in",base,off|None) ("op",..)."""
NULL = ("c", 0)
ALLOC = ("vp_allocate", "vp_try_allocate", "_Znam", "_ZnamSt11align_val_t")
FREE = ("vp_deallocate", "_ZdaPv", "_ZdaPvm")
class TooMany(Exception): pass

class Path:
    __slots__ = ("env", "mem", "facts", "freed", "allocs", "count", "how", "stores")
    def __init__(s): s.env, s.mem, s.facts, s.freed, s.allocs, s.count, s.how, s.stores = {}, {}, {}, (), (), {}, None, ()
    def copy(s):
        p = Path(); p.env, p.mem, p.facts, p.freed, p.allocs, p.count, p.how, p.stores = dict(s.env), dict(s.mem), dict(s.facts), s.freed, s.allocs, dict(s.count), s.how, s.stores
        return p

class Own:
    def __init__(s, raw, limit=60000, facts=None, allocfails=True):
        s.allocfails = allocfails; s.raw = raw; s.blocks = {b["id"]: b["insts"] for b in raw["blocks"]}; s.limit = limit; s.paths = []; s.steps = 0
        p = Path(); p.facts.update(facts or {}); s.liveness()
        work = [(0, None, p)]; seen = set()
        while work:
            b, pred, p = work.pop()
            s.steps += 1
            if s.steps > 600000 or len(s.paths) > limit: raise TooMany()
            # equal states continue equally
            s.prune(b, pred, p)
            key = (b, pred, frozenset(p.env.items()), frozenset(p.mem.items()), frozenset(p.facts.items()), p.freed, p.allocs)
            if key in seen: continue
            seen.add(key)
            work += s.block(b, pred, p)
    def liveness(s):
        """names needed at the start of a block (phi operands count at the end of the predecessor)"""
        gen, kill, s.phiuse = {}, {}, {}
        def used(o):
            if isinstance(o, dict): return [o["v"]] if "v" in o else []
            return []
        for b, ins in s.blocks.items():
            g, k = set(), set()
            for I in ins:
                if I["op"] == "phi":
                    for bb, o in I["ops"]: s.phiuse.setdefault((bb, b), set()).update(used(o))
                else:
                    for o in I["ops"]: g |= set(used(o)) - k
                k.add(I["id"])
            gen[b], kill[b] = g, k
        succ = {b: [t["bb"] for t in ins[-1]["ops"] if isinstance(t, dict) and "bb" in t] + [ins[-1][x] for x in ("normal", "unwind", "default") if ins[-1].get(x) is not None] + [bb for _, bb in ins[-1].get("cases", [])] for b, ins in s.blocks.items()}
        s.live = {b: set(gen[b]) for b in s.blocks}; ch = True
        while ch:
            ch = False
            for b in s.blocks:
                n = set(gen[b])
                for t in succ[b]: n |= (s.live.get(t, set()) | s.phiuse.get((b, t), set())) - kill[b]
                if n != s.live[b]: s.live[b] = n; ch = True
    def prune(s, b, pred, p):
        need = s.live[b] | s.phiuse.get((pred, b), set())
        for k in [k for k in p.env if not isinstance(k, tuple) and k not in need]: del p.env[k]
        keep = set()
        for x in list(p.env.values()) + list(p.mem.values()) + [v for v, _ in p.freed]: keep |= opsin(x)
        for k in p.mem: keep |= opsin(k[0])
        keep |= need
        for f in [f for f in p.facts if not opsin(f) <= keep]: del p.facts[f]
    # ---- values
    def v(s, p, o):
        if "v" in o: return p.env.get(o["v"], ("op", o["v"]))
        if "c" in o: return ("c", o["c"])
        if "null" in o: return NULL
        if "a" in o: return ("arg", o["a"])
        if "g" in o: return ("glob", str(o["g"]))
        return ("op", str(o))
    def addr(s, x):
        return (x[1], x[2]) if x[0] == "in" else (x, 0)
    # ---- conditions: list of (truth, path)
    def cond(s, p, o):
        if "c" in o: return [(bool(o["c"]), p)]
        x = s.v(p, o)
        return s.truth(p, x)
    def truth(s, p, x):
        if x[0] == "c": return [(x[1] != 0, p)]
        if x[0] == "not": return [(not t, q) for t, q in s.truth(p, x[1])]
        if x[0] in ("and", "or"):
            out = []
            for t, q in s.truth(p, x[1]):
                if t == (x[0] == "or"): out.append((t, q))
                else: out += s.truth(q, x[2])
            return out
        if x[0] == "eq":
            a, b = x[1], x[2]
            if a == b: return [(True, p)]
            if a[0] == "c" and b[0] == "c": return [(False, p)]
            if root(a)[0] == "arg" and root(b)[0] == "arg" and root(a) != root(b): return [(False, p)]
            for u, w in ((a, b), (b, a)):
                if u[0] == "c" and u[1] == 0 and (w[0] in ("buf", "obj", "arg0", "in", "glob")): return [(False, p)]
                if u[0] == "buf" and w[0] in ("buf", "init", "arg", "obj"): return [(False, p)]
                if u == ("c", 0) and w[0] in ("bool",): return [(not t, q) for t, q in s.truth(p, w[1])]
                if u[0] == "c" and u[1] != 0 and w[0] == "bool": return s.truth(p, w[1])
        if x[0] == "bool": return s.truth(p, x[1])
        if x in p.facts: return [(p.facts[x], p)]
        q = p.copy(); p.facts[x] = True; q.facts[x] = False
        return [(True, p), (False, q)]
    def mkeq(s, a, b):
        if a[0] == "c": a, b = b, a
        if b == ("c", 0) and a[0] == "bool": return ("not", a[1])
        if b[0] == "c" and a[0] == "bool": return a[1]
        if b[0] != "c" and repr(b) < repr(a): a, b = b, a
        return ("eq", a, b)
    # ---- one block
    def block(s, b, pred, p):
        live = [p]
        for I in s.blocks[b]:
            op = I["op"]
            if op == "phi":
                for q in live:
                    o = next((o for bb, o in I["ops"] if bb == pred), None)
                    q.env[("new", I["id"])] = s.v(q, o) if o is not None else ("op", I["id"])
                continue
            for q in live:
                for k in [k for k in q.env if isinstance(k, tuple)]: q.env[k[1]] = q.env.pop(k)
            nxt = []; outs = []
            for q in live:
                r = s.inst(I, b, q)
                if r is None: nxt.append(q)
                elif r[0] == "split": nxt += r[1]
                else: outs += r[1]
            if outs or not nxt: return outs
            live = nxt
        return []
    def inst(s, I, b, p):
        op = I["op"]; i = I["id"]; V = lambda k: s.v(p, I["ops"][k])
        if op == "getelementptr":
            base, off = s.addr(V(0))
            d = I.get("off")
            if base[0] in ("buf", "op", "init") or d is not None and off is not None and abs(off + d) > 512: d = None
            p.env[i] = ("in", base, None if d is None or off is None else off + d) if not (d == 0 and off == 0) else V(0)
            if p.env[i][0] == "in" and p.env[i][2] == 0: p.env[i] = base
            return
        if op == "load":
            base, off = s.addr(V(0))
            if off is None or base[0] == "glob": p.env[i] = s.fresh(p, i); return
            x = p.mem.get((base, off))
            p.env[i] = x if x is not None else ("init", base, off) if base[0] in ("arg", "init", "op") else s.fresh(p, i)
            return
        if op == "store":
            base, off = s.addr(V(1))
            if base[0] in ("arg", "obj") and off is not None: p.mem[(base, off)] = V(0)
            elif base[0] in ("arg", "obj"):
                for k in [k for k in p.mem if k[0] == base]: del p.mem[k]
            return
        if op == "alloca": p.env[i] = ("obj", i); return
        if op in ("icmp",):
            a, c = V(0), V(1); pr = I["pred"]
            if pr == "eq": p.env[i] = ("bool", s.mkeq(a, c))
            elif pr == "ne": p.env[i] = ("bool", ("not", s.mkeq(a, c)))
            else: p.env[i] = ("bool", (pr, a, c))
            return
        if op in ("and", "or") and I["ty"] == "i1": p.env[i] = ("bool", (op, s.b(V(0)), s.b(V(1)))); return
        if op == "xor" and I["ty"] == "i1" and V(1)[0] == "c": p.env[i] = ("bool", ("not", s.b(V(0)))); return
        if op == "select":
            out = []
            for t, q in s.cond(p, I["ops"][0]):
                q.env[i] = s.v(q, I["ops"][1 if t else 2]); out.append(q)
            return ("split", out)
        if op in ("trunc", "zext", "freeze", "bitcast", "ptrtoint", "inttoptr"):
            x = V(0)
            p.env[i] = x if op != "trunc" or I["ty"] == "i1" or x[0] != "c" else ("c", x[1] & 255 if I["ty"] == "i8" else x[1]); return
        if op == "br":
            if len(I["ops"]) == 1: return ("go", [(I["ops"][0]["bb"], b, p)])
            return ("go", [((I["ops"][2] if t else I["ops"][1])["bb"], b, q) for t, q in s.cond(p, I["ops"][0])])
        if op == "switch":
            out = []
            for tgt in sorted({bb for _, bb in I["cases"]} | {I["default"]}):
                out.append((tgt, b, p.copy()))
            return ("go", out)
        if op == "ret": p.how = "returns"; s.paths.append(p); return ("go", [])
        if op == "resume": p.how = "leaves by an exception"; s.paths.append(p); return ("go", [])
        if op == "unreachable": return ("go", [])
        if op in ("call", "invoke"):
            c = str(I.get("callee"))
            if c in ALLOC:
                q = p.copy()
                n = ("buf", i, len(p.allocs)); p.allocs += (n,); p.env[i] = n
                if op == "invoke": return ("go", [(I["normal"], b, p)] + [(I["unwind"], b, q)] * s.allocfails)
                if s.allocfails and c != "vp_allocate" and I.get("mayunwind"): q.how = "leaves by an exception"; s.paths.append(q)
                return
            if c in FREE: p.freed += ((V(0), i),)
            elif c.startswith("llvm.mem") and c != "llvm.memset":
                pass
            p.env[i] = s.fresh(p, i)
            if op == "invoke": return ("go", [(I["normal"], b, p)] * (c not in ("__cxa_throw", "__cxa_rethrow")) + [(I["unwind"], b, p.copy())])
            if c in ("__cxa_throw", "__cxa_rethrow", "_Unwind_Resume") or I.get("mayunwind") and not c.startswith(("llvm.", "__cxa_end_catch")):
                q = p.copy(); q.how = "leaves by an exception"; s.paths.append(q)
            return
        p.env[i] = s.fresh(p, i)
    def fresh(s, p, i):
        """a value nothing is known about; what was known about an earlier one of the same name is forgotten"""
        for f in [f for f in p.facts if i in opsin(f)]: del p.facts[f]
        return ("op", i)
    def b(s, x): return x[1] if x[0] == "bool" else ("not", ("eq", x, NULL))

_OPS = {}
def opsin(x):
    """names of unknown values inside a fact"""
    r = _OPS.get(x)
    if r is None:
        r = frozenset([x[1]]) if len(x) == 2 and x[0] == "op" else frozenset().union(*[opsin(y) for y in x if isinstance(y, tuple)]) if any(isinstance(y, tuple) for y in x) else frozenset()
        _OPS[x] = r
    return r

def root(x):
    """the object an address lies in"""
    return root(x[1]) if x[0] == "in" else x

def rename(x, f):
    """replace argument numbers inside a value"""
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "arg": return ("arg", f.get(x[1], x[1]))
        return tuple(rename(y, f) for y in x)
    return x

def holds(own, p, x):
    """paths with the decided truth of fact x"""
    return own.truth(p, x)

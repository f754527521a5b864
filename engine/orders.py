"""Abstract interpretation of loop-free comparison code over order types.

An abstract number is (sign, magnitude rank): all reals with the same sign and the same place in the order of the
magnitudes that matter.  Negation, absolute value, widening, comparison and selection are exact in this domain; a
narrowed value may compare either way with its neighbours; everything else is given up (Undecided).  A function over
n inputs is decided for all inputs by visiting its finitely many order types."""
from ir import Undecided
from fractions import Fraction

NAN = ("nan",)
FIXED = {}      # constants other than zero, where the ranks are magnitudes themselves

def constants(fn):
    """the constants other than zero a function compares with"""
    out = set()
    for b in fn["blocks"]:
        for i in b["insts"]:
            if i["op"] in ("fcmp", "select", "phi"):
                for o in i.get("ops", []):
                    o = o[1] if isinstance(o, (list, tuple)) else o
                    if isinstance(o, dict) and "f" in o and float(o["f"]) not in (0.0, float("inf"), float("-inf")) and float(o["f"]) == float(o["f"]): out.add(o["f"])
    return out

def around(cs):
    """magnitudes below, at, between and above the constants"""
    m = sorted({abs(Fraction(float(x))) for x in cs})
    return [m[0] / 2] + [y for x, z in zip(m, m[1:]) for y in (x, (x + z) / 2)] + [m[-1], m[-1] * 2, m[-1] * 3]

class Trunc(tuple): pass

def cmp(a, b):
    """set of possible outcomes of comparing a with b: subset of {'lt','eq','gt','un'}"""
    if a == NAN or b == NAN: return {"un"}
    x, y = a[0] * a[1], b[0] * b[1]
    if isinstance(a, Trunc) or isinstance(b, Trunc):
        if x == y and x != 0: return {"lt", "eq", "gt"}
        if x and y and (x > 0) == (y > 0): return {"lt" if x < y else "gt", "eq"}
    return {"lt" if x < y else "gt" if x > y else "eq"}

PRED = {"oeq": "eq", "ogt": "gt", "oge": "gt eq", "olt": "lt", "ole": "lt eq", "one": "lt gt", "ord": "lt gt eq", "uno": "un",
        "ueq": "un eq", "ugt": "un gt", "uge": "un gt eq", "ult": "un lt", "ule": "un lt eq", "une": "un lt gt", "true": "un lt gt eq", "false": ""}

def run(fn, args, limit=4096):
    """fn: raw JSON function; args: abstract values. Yields (probes, how) for every abstract path; how: 'ret' | 'raise'"""
    blocks = {b["id"]: b for b in fn["blocks"]}
    work = [(0, None, {}, [])]; out = []; steps = 0
    while work:
        bid, prev, env, probes = work.pop()
        b = blocks[bid]; steps += 1
        if steps > limit: raise Undecided("too many abstract paths")
        # states: list of (env, probes) forks within the block
        states = [(dict(env), list(probes))]
        done = False
        phis = {}
        for i in b["insts"]:
            op = i["op"]
            nxt = []
            for env, pr in states:
                def V(o):
                    if "a" in o: return args[o["a"]]
                    if "v" in o: 
                        if o["v"] not in env: raise Undecided("value of %s" % o)
                        return env[o["v"]]
                    if "c" in o: return o["c"]
                    if "f" in o:
                        if float(o["f"]) == 0: return (0, 0)
                        if o["f"] in FIXED: return FIXED[o["f"]]
                        raise Undecided("constant %s" % o["f"])
                    if "g" in o: return ("g", o["g"], o.get("str"))
                    raise Undecided("operand %s" % o)
                ops = i.get("ops", [])
                if op == "fcmp":
                    p = set(PRED[i["pred"]].split())
                    res = {x in p for x in cmp(V(ops[0]), V(ops[1]))}
                    for r in res:
                        e = dict(env); e[i["id"]] = int(r); nxt.append((e, pr))
                    continue
                if op == "icmp":
                    x, y = V(ops[0]), V(ops[1])
                    if not (isinstance(x, int) and isinstance(y, int)): raise Undecided("integer comparison of %s %s" % (x, y))
                    w = 1 << 64
                    ux, uy = x % w, y % w
                    r = {"eq": x == y, "ne": x != y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y, "ult": ux < uy, "ule": ux <= uy, "ugt": ux > uy, "uge": ux >= uy}[i["pred"]]
                    env[i["id"]] = int(r)
                elif op == "phi":
                    o = next(o for p, o in ops if p == prev)
                    env[i["id"]] = V(o)
                elif op in ("zext", "trunc", "freeze"): env[i["id"]] = V(ops[0])
                elif op == "sext": env[i["id"]] = -V(ops[0])
                elif op == "fpext": env[i["id"]] = V(ops[0])
                elif op == "fptrunc":
                    v = V(ops[0]); env[i["id"]] = v if v == NAN or v[1] == 0 else Trunc(v)
                elif op == "fneg":
                    v = V(ops[0]); env[i["id"]] = v if v == NAN else type(v)((-v[0], v[1]))
                elif op in ("and", "or", "xor"):
                    x, y = V(ops[0]), V(ops[1])
                    if not (isinstance(x, int) and isinstance(y, int)): raise Undecided(op)
                    r = {"and": x & y, "or": x | y, "xor": x ^ y}[op]
                    env[i["id"]] = r & 1 if i["ty"] == "i1" else r
                elif op == "select": env[i["id"]] = V(ops[1]) if V(ops[0]) & 1 else V(ops[2])
                elif op == "call":
                    c = i.get("callee") or "?"
                    if c.startswith("llvm.fabs"):
                        v = V(ops[0]); env[i["id"]] = v if v == NAN else type(v)((abs(v[0]), v[1]))
                    elif c.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume")): pass
                    elif c == "vp_probe":
                        pr = pr + [(ops[0].get("str"), [V(o) for o in ops[1:]])]
                    elif c == "vp_raise": out.append((pr, "raise")); continue
                    else: raise Undecided("call of %s" % c)
                elif op == "br":
                    if len(ops) == 1: work.append((b["succs"][0], bid, env, pr))
                    else: work.append((b["succs"][0 if V(ops[0]) & 1 else 1], bid, env, pr))
                    continue
                elif op == "switch":
                    v = V(ops[0]); t = i["default"]
                    for cv, bb in i["cases"]:
                        if cv == v: t = bb
                    work.append((t, bid, env, pr)); continue
                elif op == "ret": out.append((pr, "ret")); continue
                elif op == "unreachable": continue
                elif op == "alloca": env[i["id"]] = ("obj", i["id"])
                elif op == "getelementptr" and i.get("off") is not None: 
                    x = V(ops[0]); env[i["id"]] = x + (i["off"],) if i["off"] else x
                elif op == "store": env[("m", V(ops[1]))] = V(ops[0])
                elif op == "load":
                    k = ("m", V(ops[0]))
                    if k not in env: raise Undecided("load of %s" % (k,))
                    env[i["id"]] = env[k]
                else: raise Undecided("instruction %s" % op)
                nxt.append((env, pr))
            states = nxt
            if not states: break
    return out

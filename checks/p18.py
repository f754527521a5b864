"""P18: every tracked kernel is counted once under its own name, whichever way it is left."""
import re
from vlib import *

NOW = "_ZNSt6chrono3_V212system_clock3nowEv"
QUIET = re.compile(r"llvm\.|vp_probe|vp_deallocate|_ZdlPv|_ZdaPv|__cxa_free_exception|_ZNSt8_Rb_tree|_ZSt\d+_Rb_tree|" + NOW)
COUNT, TIME = "_ZN11BlasBooster15TrackerRegister5countE", "_ZN11BlasBooster15TrackerRegister4timeE"

def slot(scev):
    """(global, byte offset) of a store address inside the register, or None; index may be symbolic"""
    if not scev: return None
    if scev["k"] == "unk" and isinstance(scev["val"], dict) and scev["val"].get("g") in (COUNT, TIME): return scev["val"]["g"], 0
    if scev["k"] == "add":
        g = [o for o in scev["ops"] if o["k"] == "unk" and isinstance(o["val"], dict) and o["val"].get("g") in (COUNT, TIME)]
        r = [o for o in scev["ops"] if o not in g]
        if len(g) == 1 and len(r) == 1: return g[0]["val"]["g"], r[0]["v"] if r[0]["k"] == "const" else r[0]
    if scev["k"] == "addrec":
        b = slot(scev["ops"][0])
        if b and isinstance(b[1], int): return b[0], {**scev, "ops": [{"k": "const", "v": b[1]}] + scev["ops"][1:]}
    return None

class F:
    def __init__(s, raw):
        s.raw = raw; s.blocks = {b["id"]: b for b in raw["blocks"]}
        s.inst = {i["id"]: i for b in raw["blocks"] for i in b["insts"]}
        s.block_of = {i["id"]: b["id"] for b in raw["blocks"] for i in b["insts"]}
    def d(s, o): return s.inst.get(o.get("v")) if isinstance(o, dict) and "v" in o else None
    def mentions_register(s, i):
        return any(isinstance(o, dict) and (o.get("g") in (COUNT, TIME) or COUNT in str(o) or TIME in str(o)) for o in i.get("ops", []))

def lost(f, o, sl):
    """the stored value is understood and does not depend on what the slot held"""
    seen = set()
    def go(o):
        if "c" in o: return True
        x = f.d(o)
        if x is None: return False
        if x["id"] in seen: return True
        seen.add(x["id"])
        if x["op"] in ("add", "sub", "mul", "zext", "sext", "trunc", "select", "phi", "icmp"): return all(go(y) for y in x["ops"] if "bb" not in y)
        if x["op"] == "load": return "g" in x["ops"][0] and x["ops"][0]["g"] not in (COUNT, TIME) and x["ops"][0]["g"].startswith("_ZZ")
        return False
    return go(o)

def increments(f, i):
    """what a store to the register does: ('count', slot, ) / ('time', slot, now1, now2) / None"""
    sl = slot(i["ptrscev"])
    if sl is None: return None
    v = f.d(i["ops"][0])
    def is_old(o):
        x = f.d(o)
        return x is not None and x["op"] == "load" and slot(x["ptrscev"]) == sl
    if sl[0] == COUNT:
        if v is not None and v["op"] == "add" and any(is_old(o) for o in v["ops"]):
            k = [o for o in v["ops"] if not is_old(o)]
            if len(k) == 1 and "c" in k[0]: return ("count", sl[1], k[0]["c"])
        if lost(f, i["ops"][0], sl): return ("count", sl[1], "lost")
        return ("count", sl[1], "?")
    # time: linear combination over the loaded old value and the readings
    coef = {}
    def lin(o, q):
        x = f.d(o)
        if x is None: coef["?"] = 1; return
        if x["op"] == "add": lin(x["ops"][0], q); lin(x["ops"][1], q)
        elif x["op"] == "sub": lin(x["ops"][0], q); lin(x["ops"][1], -q)
        elif x["op"] == "load" and slot(x["ptrscev"]) == sl: coef["old"] = coef.get("old", 0) + q
        elif x["op"] in ("call",) and x.get("callee") == NOW: coef["now", x["id"]] = coef.get(("now", x["id"]), 0) + q
        elif x["op"] == "load" and x["ops"][0].get("g", "").startswith("_ZZ"): coef["static"] = coef.get("static", 0) + q
        elif x["op"] == "phi": lin_phi(x, q)
        else: coef["?"] = 1
    def lin_phi(x, q): coef["?"] = 1
    lin(i["ops"][0], 1)
    pos = [k[1] for k, q in coef.items() if isinstance(k, tuple) and q == 1]; neg = [k[1] for k, q in coef.items() if isinstance(k, tuple) and q == -1]
    if "?" not in coef and coef.get("old") == 1 and len(pos) == 1 and len(neg) == 1 and len(coef) == 3: return ("time", sl[1], neg[0], pos[0])
    if "?" in coef: return ("time", sl[1], "?", "?")
    return ("time", sl[1], None, None)

def kernel(c, raw):
    f = F(raw); name = raw["name"]
    pr = [i for i in f.inst.values() if i.get("callee") == "vp_probe" and i["ops"][0].get("str") == "slot"]
    want = pr[0]["ops"][1]["c"]
    where = where_in(raw, "/include/BlasBooster/Core/Mult", "/include/BlasBooster/Core/Block")
    und = []
    eff = {}
    for b in f.blocks.values():
        for i in b["insts"]:
            if i["op"] == "store":
                e = increments(f, i)
                if e: eff[i["id"]] = e
                elif f.mentions_register(i): und.append("a store to the register that is not understood")
            elif i["op"] in ("call", "invoke") and not str(i.get("callee", "")).startswith("llvm.dbg") and f.mentions_register(i): und.append("the register is handed to a call")
            elif i["op"] in ("atomicrmw", "cmpxchg"): und.append("atomic update")
    if und: c.undecided(name, und[0], where); return
    # forward dataflow: the set of possible (count adds, time adds) multisets
    start = frozenset([((), ())]); IN = {0: start}; work = [0]; exits = []
    def step(b, st, record=None):
        for i in f.blocks[b]["insts"]:
            if i["id"] in eff:
                e = eff[i["id"]]
                st = frozenset((tuple((cs + ((e[1], e[2]),))[-3:]), ts) if e[0] == "count" else (cs, tuple((ts + (i["id"],))[-3:])) for cs, ts in st)
            elif record is not None:
                if i["op"] in ("ret", "resume"): record.append((st, i, "returns" if i["op"] == "ret" else "leaves by an exception"))
                elif i["op"] == "call" and i.get("mayunwind") and not QUIET.match(str(i.get("callee", "?"))): record.append((st, i, "leaves by an exception of " + str(i.get("callee"))))
        return st
    n = 0
    while work:
        b = work.pop(); n += 1
        if n > 20000: raise Undecided("no fixpoint")
        out = step(b, IN[b])
        for s in f.blocks[b]["succs"]:
            new = IN.get(s, frozenset()) | out
            if new != IN.get(s):
                IN[s] = new; work.append(s)
    rec = []
    for b in IN: step(b, IN[b], rec)
    def at(i):
        for l in i.get("loc") or []:
            if "/include/BlasBooster/" in l["file"]: return "%s:%d" % (l["file"].replace(REPO + "/", ""), l["line"])
        return where
    bad = None; unk = None
    for st, i, how in rec:
        c.sites += 1
        for cs, ts in st:
            if any(k == "lost" for x, k in cs): bad = bad or ("the number of calls is replaced by a value which does not depend on it", at(i)); continue
            if any(k == "?" or not isinstance(x, int) for x, k in cs): unk = "a count update that is not understood"; continue
            tot = {}
            for x, k in cs: tot[x // 8] = tot.get(x // 8, 0) + k
            tot = {k: v for k, v in tot.items() if v}
            if tot != {want: 1}: bad = bad or ("the kernel %s with %s counted" % (how, ", ".join("%d call(s) of slot %s" % (v, k) for k, v in tot.items()) or "nothing") + ", its slot is %d" % want, at(i))
            tt = [eff[t] for t in ts]
            if any(e[2] == "?" or not isinstance(e[1], int) for e in tt): unk = unk or "a time update that is not understood"; continue
            if len(tt) != 1 or tt[0][1] // 8 != want: bad = bad or ("the kernel %s with the time added to slots %s, its slot is %d" % (how, [e[1] // 8 for e in tt], want), at(i))
            elif tt[0][2] is None: bad = bad or ("the time added is not the later reading of the clock minus the earlier one", at(f.inst[ts[0]]))
            else:
                r = timed(f, tt[0], f.inst[ts[0]])
                if r: bad = bad or (r, at(i))
    if bad: c.viol(name, bad[0], bad[1])
    elif unk: c.undecided(name, unk, where)
    else: c.ok(name, "each of %d exits leaves exactly one call and its time in slot %d" % (len(rec), want), where)

def timed(f, e, st):
    """the readings enclose the work: no loop or routine call before the first or after the second"""
    n1, n2 = e[2], e[3]
    def work(i):
        if i["op"] in ("call", "invoke"):
            return not QUIET.match(str(i.get("callee", "?"))) and not str(i.get("callee", "")).startswith(("__c", "_ZNSt13runtime", "_ZSt"))
        return i["op"] == "store" and "addrec" in str(i.get("ptrscev"))
    b1, b2 = f.block_of[n1], f.block_of[n2]
    def reach(b, edge):
        seen = set(); w = [b]
        while w:
            for x in f.blocks[w.pop()][edge]:
                if x not in seen: seen.add(x); w.append(x)
        return seen
    before = [i for x in reach(b1, "preds") if x != b1 for i in f.blocks[x]["insts"]] + [i for i in f.blocks[b1]["insts"] if i["id"] < n1]
    after = [i for x in reach(b2, "succs") if x != b2 for i in f.blocks[x]["insts"]] + [i for i in f.blocks[b2]["insts"] if i["id"] > n2]
    if any(work(i) for i in before): return "work of the kernel precedes the first reading of the clock"
    if any(work(i) for i in after): return "work of the kernel follows the last reading of the clock"
    return None

def run(c):
    c.rules = ["forward data flow over every kernel, unwinding paths included: each exit has exactly one call added to the kernel's own slot and exactly one clock difference (later reading minus earlier one) added to the same slot; the readings enclose the work",
               "the register update adds one and the duration to the given slot and nothing else", "the parser registers every enumerator exactly once, under its own name; names are distinct", "the report shows a slot exactly when its count is not zero, with that slot's name, count and time"]
    c.assumptions = ["tracking is enabled; back ends are external routines that may throw", "memory allocation through the library's own allocator does not throw"]
    c.floor = 30
    D = VERIF + "/drivers/tracker.cpp"; T = ["BLASBOOSTER_USE_TRACKER"]
    jobs = []
    for p in (1, 2, 3):
        jobs.append(((D,), {"tag": "t%d" % p, "defs": T + ["PART%d" % p], "inc": [VERIF + "/stubs/backends"]}))
    def raw(j):
        try: return json.load(open(c.compile(*j[0], **j[1])))["functions"]
        except Broken as e: return str(e)
    jobs.append(((D,), {"tag": "t4", "defs": T + ["PART4"], "inc": [VERIF + "/stubs/backends"], "opts": ["--prefix=drv_add,drv_print", "--cut-throws", "--opaque=EnumParser.*(3map|C[12]E|D[12]|cl)|basic_string.*(C[12]|D[12])|^_ZStls|^_ZNSol|^_ZNSo9|^_ZSt4setw|^_ZSt4endl"]}))
    jobs.append(((D,), {"tag": "t5", "defs": T + ["PART4"], "inc": [VERIF + "/stubs/backends"], "opts": ["--prefix=drv_names", "--cut-throws", "--opaque=EnumParser.*(3map|D[12]|cl)|basic_string.*(C[12]|D[12])|^_ZStls|^_ZNSol|^_ZNSo9|^_ZSt4setw|^_ZSt4endl"]}))
    with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(raw, jobs))
    c.sites = 0
    for p, r in enumerate(res[:3]):
        if isinstance(r, str): c.undecided("part%d" % (p + 1), r[-300:]); continue
        for f in r:
            c.functions += 1
            with c.guard(f["name"]): kernel(c, f)
    for r in res[3:]:
        if isinstance(r, str): c.undecided("register", r[-300:]); continue
        for f in r:
            c.functions += 1
            key = "add" if f["name"] == "drv_add" else "print" if f["name"] == "drv_print" else "names" if f["name"] == "drv_names" and r is res[4] else None
            if key and not any(o[0] == key for o in c.obl):
                with c.guard(key): PARTS[key](c, F(f), key)

def add(c, f, key):
    where = where_in(f.raw, "Tracker.h"); got = []
    for i in f.inst.values():
        if i["op"] == "store":
            e = None; sl = slot(i["ptrscev"])
            if sl is None: raise Undecided("a store outside the register")
            v = f.d(i["ops"][0])
            if v is None or v["op"] != "add": c.viol(key, "the slot is overwritten instead of increased", where); return
            old = [o for o in v["ops"] if f.d(o) is not None and f.d(o)["op"] == "load" and slot(f.d(o)["ptrscev"]) == sl]
            rest = [o for o in v["ops"] if o not in old]
            if len(old) != 1: c.viol(key, "the slot is overwritten instead of increased", where); return
            r = rest[0]; rd = f.d(r)
            got.append((sl[0], json.dumps(sl[1], sort_keys=True), r.get("c") if "c" in r else "duration" if rd is not None and rd["op"] == "load" and rd["ops"][0] == {"a": 1} else "?"))
    idx = {g[1] for g in got}
    ok = sorted((g[0], g[2]) for g in got) == sorted([(COUNT, 1), (TIME, "duration")]) and len(idx) == 1 and '"val": {"a": 0}' in next(iter(idx))
    if ok: c.ok(key, "one call and the duration are added to the given slot", where)
    elif any(g[2] == "?" for g in got): c.undecided(key, "update not understood: %s" % got)
    else: c.viol(key, "the register update is %s" % [(g[0][-6:], g[2], g[1][:80]) for g in got], where)

def names(c, f, key):
    """in program order: a temporary string from a literal, then map(string, id)"""
    enum = enumerators(c)
    pairs = []; lit = None
    order = []; b = 0; seen = set()
    while b is not None and b not in seen:
        seen.add(b); ins = f.blocks[b]["insts"]; order += ins
        t = ins[-1]
        b = t.get("normal") if t["op"] == "invoke" else (f.blocks[b]["succs"][0] if len(f.blocks[b]["succs"]) == 1 else None)
    for i in order:
        if i["op"] in ("call", "invoke"):
            n = i.get("callee", "")
            if "basic_string" in n and re.search(r"C[12]", n): lit = next((o["str"] for o in i["ops"] if isinstance(o, dict) and "str" in o), None)
            elif "3map" in n:
                x = next((o["c"] for o in i["ops"] if isinstance(o, dict) and "c" in o), None)
                pairs.append((lit, x)); lit = None
    if not pairs or any(a is None or b is None for a, b in pairs): raise Undecided("registrations not read: %s" % pairs[:3])
    where = where_in(f.raw, "Tracker.h"); size = enum.pop("size")
    rev = {v: k for k, v in enum.items()}
    msgs = []
    for i in range(size):
        ns = [a for a, b in pairs if b == i]
        if not ns: msgs.append("slot %s has no name" % rev.get(i))
        elif ns != [rev.get(i)]: msgs.append("slot %s is registered as %s" % (rev.get(i), ns))
    if len({a for a, _ in pairs}) != len(pairs): msgs.append("names are not distinct")
    if len({b for _, b in pairs}) != len(pairs) or any(b >= size for _, b in pairs): msgs.append("a slot is registered twice or does not exist")
    c.ob(key, not msgs, "; ".join(msgs) or "%d slots, each registered once under its own name" % size, where)

def enumerators(c):
    """the enumerators of TrackerID from the syntax tree"""
    f = os.path.join(c.build, "enum.cpp"); open(f, "w").write('#include "BlasBooster/Utilities/Tracker.h"\n')
    r = subprocess.run(["clang++-18", "-std=c++17", "-I" + REPO + "/include", "-DBLASBOOSTER_USE_TRACKER", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=TrackerID", f], capture_output=True, text=True)
    dec = json.JSONDecoder(); t = r.stdout; i = 0; out = {}
    while i < len(t):
        while i < len(t) and t[i] in "\n ": i += 1
        if i >= len(t): break
        d, i = dec.raw_decode(t, i)
        if d.get("kind") == "EnumDecl" and d.get("name") == "TrackerID":
            v = 0
            for e in d.get("inner", []):
                if e["kind"] != "EnumConstantDecl": continue
                x = [y.get("value") for y in e.get("inner", []) if y.get("kind") == "ConstantExpr"]
                if x: v = int(x[0])
                out[e["name"]] = v; v += 1
    if not out: raise Undecided("no enumerators found")
    return out

def prt(c, f, key):
    where = where_in(f.raw, "Tracker.h")
    size = next(i["ops"][1]["c"] for i in f.inst.values() if i.get("callee") == "vp_probe")
    ls = f.raw["loops"]
    if len(ls) != 1: raise Undecided("%d loops" % len(ls))
    l = ls[0]
    # the trip: 0 .. size - 1
    ex = [x for b, x in zip(l["exiting"], l["exitcounts"]) if f.blocks[b]["insts"][-1]["op"] == "br"]
    if len(ex) != 1 or ex[0]["k"] != "const": raise Undecided("trip count")
    btc = ex[0]
    loads = [i for i in f.inst.values() if i["op"] == "load" and slot(i["ptrscev"]) and f.block_of[i["id"]] in l["blocks"]]
    gl = {COUNT: set(), TIME: set()}
    for i in loads: gl[slot(i["ptrscev"])[0]].add(json.dumps(slot(i["ptrscev"])[1], sort_keys=True))
    exp = {"k": "addrec", "ops": [{"k": "const", "v": 0}, {"k": "const", "v": 8}], "loop": l["id"]}
    msgs = []
    xb = next(b for b in l["exiting"] if f.blocks[b]["insts"][-1]["op"] == "br")
    def before_exit(b, seen):
        if b == goal: return True
        if b == xb or b in seen: return False
        seen.add(b)
        return any(before_exit(x, seen) for x in f.blocks[b]["succs"] if x in l["blocks"] and x != l["header"])
    goal = next((f.block_of[i["id"]] for i in f.inst.values() if "EnumParser" in i.get("callee", "") and "cl" in i.get("callee", "")), None)
    n = btc["v"] + (1 if xb != l["header"] and before_exit(l["header"], set()) else 0)
    if n != size: msgs.append("the report visits %d of %d slots" % (n, size))
    for g, want in ((COUNT, "counts"), (TIME, "times")):
        if not gl[g]: raise Undecided("which %s are shown" % want)
        for x in gl[g]:
            if not scev_is(json.loads(x), 0, 8): msgs.append("the %s shown are read at %s" % (want, x[:120]))
    names = [i for i in f.inst.values() if i["op"] in ("call", "invoke") and "EnumParser" in i.get("callee", "") and "cl" in i.get("callee", "")]
    if len(names) != 1: raise Undecided("name lookups: %d" % len(names))
    ns = next((a for a in reversed(names[0]["argscev"]) if a is not None and a["k"] != "unk"), None)
    if ns is None: raise Undecided("which name is printed")
    if ns["k"] == "cast": ns = ns["ops"][0]
    if not scev_is(ns, 0, 1): msgs.append("the name shown is that of slot %s" % json.dumps(ns)[:120])
    # the condition under which a line is shown: count != 0, decided at the loop's own count
    cb = f.block_of[names[0]["id"]]; conds = set()
    # blocks on which the line depends inside the loop
    for b in l["blocks"]:
        t = f.blocks[b]["insts"][-1]
        if t["op"] == "br" and len(f.blocks[b]["succs"]) == 2 and all(s in l["blocks"] for s in f.blocks[b]["succs"]):
            s0, s1 = f.blocks[b]["succs"]
            r0, r1 = reachb(f, s0, l, cb), reachb(f, s1, l, cb)
            if r0 != r1: conds.add((b, s0 if r0 else s1))
    if not conds: msgs.append("slots that were not used are shown")
    for b, s in conds:
        t = f.blocks[b]["insts"][-1]; x = f.d(t["ops"][0])
        ld = f.d(x["ops"][0]) if x is not None and x["op"] == "icmp" else None
        if ld is None or ld["op"] != "load" or not slot(ld["ptrscev"]): raise Undecided("the condition for a line: %s" % x)
        if slot(ld["ptrscev"])[0] != COUNT: msgs.append("a line is shown depending on the time"); continue
        tsucc = t["ops"][2]["bb"] if "bb" in t["ops"][2] else None
        if x["ops"][1].get("c") is None: raise Undecided("the condition for a line")
        k = x["ops"][1]["c"]; p = x["pred"]
        true_block = t["ops"][2]["bb"]      # br cond, false, true (operand order of LLVM)
        on = s == true_block
        def val(v): r = {"eq": v == k, "ne": v != k, "ugt": v > k, "ult": v < k, "uge": v >= k, "ule": v <= k}.get(p); return r if on else not r
        if p not in ("eq", "ne", "ugt", "ult", "uge", "ule"): raise Undecided("the condition for a line")
        if val(0) or not all(val(v) for v in (1, 2, 3, 10, k + 1)): msgs.append("a line is shown when count %s %d" % (p if on else "not " + p, k))
    c.ob(key, not msgs, "; ".join(msgs) or "the report shows name, count and time of exactly the slots with a count", where)

def reachb(f, b, l, goal):
    seen = {b}; w = [b]
    if b == l["header"]: return False
    while w:
        x = w.pop()
        if x == goal: return True
        for s in f.blocks[x]["succs"]:
            if s in l["blocks"] and s != l["header"] and s not in seen: seen.add(s); w.append(s)
    return False

def scev_is(x, start, step):
    return x["k"] == "addrec" and len(x["ops"]) == 2 and x["ops"][0].get("v") == start and x["ops"][1].get("v") == step

PARTS = {"add": add, "names": names, "print": prt}

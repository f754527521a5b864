"""P16: type lists are consistent and dynamic dispatch reaches the handler of the object's own type."""
import subprocess
from vlib import *
from content import *
from mat import check_eq, insts
from reach import feasible
import p17

N = 7
TAGS = r'''
template <int K> struct Tag {};
'''

def lists(c):
    items = []
    for n in range(0, 9):
        L = "TypeList<%s>" % ", ".join("Tag<%d>" % k for k in range(n))
        items.append(("size-%d" % n, "GetSize<%s>::value == %d" % (L, n)))
        for k in range(n):
            items.append(("index-%d-of-%d" % (k, n), "GetIndex<Tag<%d>, %s>::value == %d" % (k, L, k)))
            items.append(("type-%d-of-%d" % (k, n), "std::is_same<typename GetType<%d, %s>::type, Tag<%d>>::value" % (k, L, k)))
        items.append(("index-absent-of-%d" % n, "GetIndex<Tag<99>, %s>::value >= %d" % (L, n)))
    D = "TypeList<Tag<5>, Tag<3>, Tag<5>, Tag<3>, Tag<1>>"
    items += [("index-twice-%d" % k, "GetIndex<Tag<%d>, %s>::value == %d" % (k, D, p)) for k, p in ((5, 0), (3, 1), (1, 4))]
    items += [("type-twice-%d" % p, "std::is_same<typename GetType<%d, %s>::type, Tag<%d>>::value" % (p, D, k)) for p, k in enumerate((5, 3, 5, 3, 1))]
    r = witness(c, "lists", '#include <cstddef>\n#include <type_traits>\n#include "BlasBooster/Utilities/TypeList.h"\nusing namespace BlasBooster;\n' + TAGS, items)
    for k, e in items:
        st, txt = r[k]
        if st == "ok": c.ok("list-" + k, e)
        elif st == "viol": c.viol("list-" + k, "not true: " + e, "include/BlasBooster/Utilities/TypeList.h")
        else: c.viol("list-" + k, "has no answer: %s (%s)" % (e, txt[-200:]), "include/BlasBooster/Utilities/TypeList.h")
    items = [("own-index-%d" % k, "Ty<%d>::typeIndex_ == %d" % (k, k)) for k in range(N)] + [("list-length", "len<L>::value == GetSize<L>::value")] + [("distinct-%d-%d" % (i, j), "!std::is_same<Ty<%d>, Ty<%d>>::value" % (i, j)) for i in range(N) for j in range(i)]
    r = witness(c, "own", p17.PRELUDE, items)
    for k, e in items:
        if r[k][0] == "ill": c.undecided(k, r[k][1][-200:])
        else: c.ob(k, r[k][0] == "ok", e, "include/BlasBooster/Core (typeIndex_), DynamicMatrixTypeList.h")

def selected(c, mod):
    for name in ("drv_if_tags", "drv_if_list", "drv_if2_tags"):
        fn = mod[name]; two = "if2" in name
        with c.guard(name):
            S = ir.summarise(fn)
            where = where_in(fn, "exec_if", "TypeChecker.h")
            hs = [(tuple(v.const() for v in vs), fn.strict_guard(b), I) for t, vs, b, o, I in S.probes if t == "h"]
            if any(x is None for v, _, _ in hs for x in v): raise Undecided("which handler is called is computed")
            idx = [fn.val({"a": k}, 0) for k in range(2 if two else 1)]
            for want in ([(i, j) for i in range(N) for j in range(N)] if two else [(i,) for i in range(N)]):
                cond = [(("eq", x - P(w)), True) for x, w in zip(idx, want)]
                def reach(g): return feasible([list(cl) + cond for cl in g])
                key = "%s-%s" % (name[4:], "-".join(map(str, want)))
                bad = [v for v, g, _ in hs if v != want and reach(g) != "no"]; sure = [v for v in bad if any(v == v2 and reach(g2) == "yes" for v2, g2, _ in hs)]
                good = [g for v, g, _ in hs if v == want and reach(g) != "no"]
                if sure: c.viol(key, "for type index %s the handler of %s runs" % (want, sure[0]), where)
                elif not good: c.viol(key, "for type index %s no handler of its own runs" % (want,), where)
                elif bad or not any(reach(g) == "yes" for g in good): c.undecided(key, "which handler runs is not decided")
                else: c.ok(key, "type index %s reaches its own handler only" % (want,), where)

def expr(f, o, depth=0):
    """structure of a raw value: what it is read from or called on"""
    if "a" in o: return ("a", o["a"])
    if "c" in o: return ("c", o["c"])
    if "g" in o: return ("g", o["g"])
    if "v" not in o or depth > 12: return ("?", str(o))
    i = f[o["v"]]
    if i["op"] == "getelementptr" and "off" in i: return ("off", i["off"], expr(f, i["ops"][0], depth + 1))
    if i["op"] == "load": return ("ld", expr(f, i["ops"][0], depth + 1))
    if i["op"] in ("call", "invoke"): return ("call", i.get("callee") or expr(f, i["calleeval"], depth + 1)) + tuple(expr(f, x, depth + 1) for x in i["ops"] if "bb" not in x)
    return ("?", i["id"])

def tables(c, js):
    j = json.load(open(js))
    glob = {g["name"]: dict(map(tuple, g["init"])) for g in j["globals"]}
    fns = {f["name"]: f for f in j["functions"]}
    def addr(s):
        """scev address -> (global, const, [(coefficient, raw value)])"""
        terms = s["ops"] if s["k"] == "add" else [s]
        g = None; k = 0; lin = []
        for t in terms:
            if t["k"] == "const": k += t["v"]
            elif t["k"] == "unk" and "g" in t["val"]: g = t["val"]["g"]
            elif t["k"] == "unk": lin.append((1, t["val"]))
            elif t["k"] == "mul" and len(t["ops"]) == 2 and t["ops"][0]["k"] == "const" and t["ops"][1]["k"] == "unk": lin.append((t["ops"][0]["v"], t["ops"][1]["val"]))
            else: return None
        return g, k, lin
    # what the initialisers copy from one table to another
    copy = {}
    for n, f in fns.items():
        if not n.startswith("__cxx_global_var_init") or not any(g in str(f) for g in glob): continue
        inst = {i["id"]: i for b in f["blocks"] for i in b["insts"]}
        for i in inst.values():
            if i["op"] == "store" and i.get("ptrscev"):
                a = addr(i["ptrscev"])
                if a is None or a[0] not in glob or a[2]: continue
                v = i["ops"][0]
                src = inst.get(v.get("v")) if "v" in v else None
                if "c" in v: copy[a[0], a[1]] = v["c"]
                elif src is not None and src["op"] == "load" and src.get("ptrscev") and addr(src["ptrscev"]) and addr(src["ptrscev"])[0] in glob:
                    b = addr(src["ptrscev"]); copy[a[0], a[1]] = (b[0], b[1])
                else: copy[a[0], a[1]] = None
            elif str(i.get("callee", "")).startswith("llvm.memcpy"):
                d, s = (addr(x) for x in i["argscev"][:2])
                if d and s and d[0] in glob and s[0] in glob and "c" in i["ops"][2]:
                    for o in range(0, i["ops"][2]["c"], 8): copy[d[0], d[1] + o] = (s[0], s[1] + o)
    def entry(g, o, depth=0):
        if depth > 4: return None
        if (g, o) in copy:
            v = copy[g, o]
            return entry(v[0], v[1], depth + 1) if isinstance(v, tuple) else v
        return glob.get(g, {}).get(o)
    for name, dims in (("drv_dyn1", 1), ("drv_dyn2", 2)):
        f = fns[name]
        inst = {i["id"]: i for b in f["blocks"] for i in b["insts"]}
        pr = {}
        for i in inst.values():
            if i.get("callee") == "vp_probe": pr.setdefault(i["ops"][0]["str"], []).append(i)
        where = where_in(f, "exec_dyn")
        if len(pr.get("call", [])) != 1: c.undecided(name, "%d calls of a table entry" % len(pr.get("call", []))); continue
        call = pr["call"][0]; args = [o.get("a") for o in call["ops"][2:]]
        c.ob(name[4:] + "-arguments", args == list(range(dims)), "the handler receives the arguments in order", where)
        idx = [expr(inst, pr[t][0]["ops"][1]) for t in ("ta", "tb")[:dims]]
        src = inst.get(call["ops"][1].get("v"))
        a = addr(src["ptrscev"]) if src is not None and src["op"] == "load" and src.get("ptrscev") else None
        if a is None or a[0] not in glob: c.undecided(name, "the called entry is not read from a table"); continue
        lin = []
        for q, v in a[2]:
            e = expr(inst, v)
            lin.append((q, idx.index(e) if e in idx else None))
        if any(k is None for _, k in lin): c.undecided(name, "the table is indexed by something else than the type indices"); continue
        for want in ([(i, j) for i in range(N) for j in range(N)] if dims == 2 else [(i,) for i in range(N)]):
            got = entry(a[0], a[1] + sum(q * want[k] for q, k in lin))
            key = "%s-%s" % (name[4:], "-".join(map(str, want)))
            exp = want[0] * 8 + want[1] if dims == 2 else want[0]
            if got is None: c.undecided(key, "the table entry is not followed")
            else: c.ob(key, got == exp, "types %s call the entry of %s" % (want, divmod(got, 8) if dims == 2 else got), where)

OPS = {"add": ("DynamicAddFunctor<Ty<{i}>, Ty<{j}>>()(pa, pb)", "auto r = a + b"), "sub": ("DynamicSubFunctor<Ty<{i}>, Ty<{j}>>()(pa, pb)", "auto r = a - b"),
       "mult": ("DynamicMultFunctor<Native, Ty<{i}>, Ty<{j}>>()(pa, pb)", "auto r = (a * b).template execute<Native>()"),
       "addassign": ("DynamicAddAssignFunctor<Ty<{i}>, Ty<{j}>>()(pa, pb)", "a += b"), "subassign": ("DynamicSubAssignFunctor<Ty<{i}>, Ty<{j}>>()(pa, pb)", "a -= b")}
OPAQUE = r"^_ZN?K?11BlasBooster(pl|mi|pL|mI)I|MultiplicationFunctor|^_ZNK?11BlasBooster4norm|NormFunctor.*clE"

def calls(f):
    """the operations performed, in order, with what they are performed on"""
    inst = {i["id"]: i for b in f["blocks"] for i in b["insts"]}
    out = []
    for b in f["blocks"]:
        for i in b["insts"]:
            cal = i.get("callee") or ""
            if i["op"] in ("call", "invoke") and re.search(OPAQUE, cal):
                args = []
                for o in i["ops"]:
                    if "bb" in o or "f" in o: continue
                    e = expr(inst, o)
                    args.append(e if "'?'" not in str(e) else "local")
                out.append((cal, tuple(args)))
    return out

def functors(c):
    head = '#include "vp.h"\n#include "BlasBooster/Core/BinaryFunctors.h"\n#include "BlasBooster/Core/MatrixMultExp.h"\n#include "BlasBooster/Core/Norm.h"\n#include "BlasBooster/Core/DynamicMatrixFunctions.h"\ntemplate <size_t I> using Ty = typename GetType<I, DynamicMatrixTypeList>::type;\n'
    jobs = []
    for op, (fun, direct) in OPS.items():
        t = head
        for i in range(N):
            for j in range(N):
                t += "DRV drv_f_{i}_{j}(Ty<{i}>& a, Ty<{j}>& b) {{ DynamicMatrix pa(DynamicMatrix(), &a), pb(DynamicMatrix(), &b); {f}; }}\n".format(i=i, j=j, f=fun.format(i=i, j=j))
                t += "DRV drv_d_{i}_{j}(Ty<{i}>& a, Ty<{j}>& b) {{ {d}; }}\n".format(i=i, j=j, d=direct)
        jobs.append((op, t))
    def go(j):
        try: return j[0], json.load(open(c.compile(None, tag=j[0], text=j[1], opts=["--opaque=" + OPAQUE])))
        except Broken as e: return j[0], str(e)
    with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(go, jobs))
    for op, m in res:
        if isinstance(m, str): c.undecided("functor-" + op, m[-300:]); continue
        fs = {f["name"]: f for f in m["functions"]}; c.functions += len(fs)
        for i in range(N):
            for j in range(N):
                key = "functor-%s-%d-%d" % (op, i, j)
                f, d = calls(fs["drv_f_%d_%d" % (i, j)]), calls(fs["drv_d_%d_%d" % (i, j)])
                where = where_in(fs["drv_f_%d_%d" % (i, j)], "BinaryFunctors.h", "MatrixMultExp.h")
                if not d: c.undecided(key, "the direct operation has no visible call")
                elif f == d: c.ok(key, "performs the operation on its own types, operands in order", where)
                elif len(f) == len(d) and all(kind(x[0]) == kind(y[0]) or kind(x[0]).lower() != kind(y[0]).lower() for x, y in zip(f, d)) and \
                     any(x[0] != y[0] or any(u != v and "local" not in str(u) + str(v) for u, v in zip(x[1], y[1])) for x, y in zip(f, d)):
                    c.viol(key, "performs %s on %s where the operation on the matrices themselves is %s on %s" % (dem(f), [x[1] for x in f], dem(d), [x[1] for x in d]), where)
                else: c.undecided(key, "performed in a different number of calls")

def kind(name):
    m = re.search(r"11BlasBooster(pl|mi|pL|mI)I", name)
    return m.group(1) if m else "mult"

def dem(cs):
    return subprocess.run(["c++filt"] + [x[0] for x in cs], capture_output=True, text=True).stdout.replace("BlasBooster::", "").replace("\n", "; ")[:300]

def queries(c):
    t = '#include "vp.h"\n#include "BlasBooster/Core/DynamicMatrixFunctions.h"\ntemplate <size_t I> using Ty = typename GetType<I, DynamicMatrixTypeList>::type;\ntemplate <class T> std::shared_ptr<T> sh(T& t) { return std::shared_ptr<T>(std::shared_ptr<T>(), &t); }\n'
    q = {"rows": ("getNbRows({d})", "m.getNbRows()"), "columns": ("getNbColumns({d})", "m.getNbColumns()"), "size": ("getSize({d})", "m.getSize()")}
    for k in range(N):
        for n, (dy, di) in q.items():
            mk = "Ty<%d> m(r, s);" % k if k not in (4, 5) else "Matrix<Sparse, double> x(r, s); Matrix<%s, float> y(r, s); Ty<%d> m(sh(x), sh(y));" % ("Sparse" if k == 4 else "Dense", k)
            t += "DRV drv_%s_%d(size_t r, size_t s) { %s DynamicMatrix d(DynamicMatrix(), &m); vp_probe(\"x\", %s, %s); }\n" % (n, k, mk, dy.format(d="d"), di)
            t += "DRV drv_h%s_%d(Ty<%d>& m) { DynamicMatrix d(DynamicMatrix(), &m); vp_probe(\"x\", %s(d)(static_cast<Ty<%d>*>(0)), %s); }\n" % (n, k, k, {"rows": "DynamicGetNbRows", "columns": "DynamicGetNbColumns", "size": "DynamicGetSize"}[n], k, di)
    u = t[:t.index("DRV ")] + NORMS
    for k in (0, 1, 2, 3, 6):
        for pre, mk, dn, dl in (("", "Ty<%d> m(r, s);" % k, "getNorm(d)", "isNormLargerThan(d, v)"),
                                ("h", "", "DynamicGetNorm(d)(static_cast<Ty<%d>*>(0))" % k, "DynamicIsNormLargerThan(d, v)(static_cast<Ty<%d>*>(0))" % k)):
            mk = "Ty<%d> m(r, s);" % k; sig = "size_t r, size_t s, double v"
            for n, dy, di in (("norm", dn, "m.getNorm()"), ("larger", dl, "m.isNormLargerThan(v)")):
                w = "(size_t)" if n == "larger" else ""
                u += "DRV drv_%s%s_%d(%s) { %s DynamicMatrix d(DynamicMatrix(), &m); vp_probe(\"x\", %s(%s), %s(%s)); }\n" % (pre, n, k, sig, mk, w, dy, w, di)
    for tag, txt in (("queries", t), ("norms", u)): query(c, tag, txt)

NORMS = """#include "BlasBooster/Core/Norm.h"
extern "C" double vp_fn_norm(size_t, size_t) noexcept __attribute__((const));
namespace BlasBooster {
#define NORM(M_) template <> struct NormFunctor<M_::parameter::NormType, M_> { double operator()(M_ const& m) const { return vp_fn_norm(m.getNbRows(), m.getNbColumns()); } };
typedef Matrix<Sparse, float> M1_; typedef Matrix<Dense, float> M2_; typedef Matrix<Sparse, double> M3_; typedef Matrix<Dense, double> M6_;
NORM(M1_) NORM(M2_) NORM(M3_) NORM(M6_)
}
"""

def query(c, tag, t):
    try: mod = c.load(None, tag=tag, text=t, opts=["--devirt", "--cut-throws"])
    except Broken as e: c.undecided(tag, str(e)[-300:]); return
    for name, fn in sorted(mod.items()):
        if not name.startswith("drv_"): continue
        with c.guard("query-" + name[4:]):
            m = plain(fn); p = m.probes.get("x")
            if tag == "norms":
                cut = next((I for b in fn.live for I in insts(fn, b) if I["op"] in ("fptrunc", "fptosi", "fptoui")), None)
                if cut: c.viol("query-" + name[4:], "a norm or a bound is narrowed on the way", inst_loc(cut) or where_in(fn, "DynamicMatrixFunctions.h")); continue
            if p is None: c.undecided("query-" + name[4:], "no value observed"); continue
            check_eq(c, "query-" + name[4:], p["v0"], p["v1"], "%s of a dynamic matrix is the matrix's own" % name.split("_")[1].lstrip("h"), where_in(fn, "DynamicMatrixFunctions.h"))

def run(c):
    c.rules = ["compile-time witnesses: position, type and size queries of type lists agree with the declaration order (lists of length 0 to 8, repeated and absent types); every type of the dynamic list carries its own position",
               "the if-chain dispatchers, for a symbolic index: the handler of position k is reachable exactly under index = k",
               "the table dispatchers: the entry read at (own index of argument 1, own index of argument 2) is the executor instantiated for those positions, following table initialisers",
               "the dynamic functors perform the operation that the same expression on the matrices themselves performs, operands in order",
               "shape, norm and norm-bound queries of dynamic matrices return the matrix's own values (the norm as a formal function), nothing narrowed on the way"]
    c.assumptions = ["dynamic initialisers of the table headers run before first use and after the tables they copy (unspecified by the standard across instantiations, true for gcc and clang)"]
    c.floor = 400
    lists(c)
    mod = c.load(VERIF + "/drivers/dispatch.cpp", defs=["PART1"], tag="if", opts=["--cut-throws"])
    selected(c, mod)
    for k in range(N):
        fn = mod["drv_index_%d" % k]
        with c.guard("query-index-%d" % k):
            p = plain(fn).probes["ti"]
            c.ob("query-index-%d" % k, p["v0"].const() == k, "getTypeIndex of list type %d returns %s" % (k, show(p["v0"])), where_in(fn, "Matrix.h"))
    tables(c, c.compile(VERIF + "/drivers/dispatch.cpp", defs=["PART2"], tag="dyn", opts=["--keep-ctors", "--words=512", "--prefix=drv_,__cxx_global_var_init", "--globals=Callee"]))
    functors(c)
    queries(c)

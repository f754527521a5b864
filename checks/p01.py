"""P01: every BLAS wrapper forwards to the routine of its own name, arguments in order."""
import os, re, subprocess
from vlib import *
from ir import *

def functions_yml():
    out = {}; sec = None; cur = None; inargs = False
    for line in open(REPO + "/include/BlasBooster/BlasInterface/FunctionList.yml"):
        l = line.rstrip()
        if re.match(r"^\w+:", l): sec = l[:-1]; continue
        m = re.match(r"^\s*-?\s*return_value:\s*(.*)$", l)
        if m: cur = {"ret": m.group(1).strip(), "args": [], "sec": sec}; continue
        m = re.match(r"^\s*name:\s*(\S+)", l)
        if m:
            cur["name"] = m.group(1)
            if sec in SECTIONS: out[m.group(1)] = cur
            continue
        m = re.match(r"^\s*-\s+(.+)$", l)
        if m and cur: cur["args"].append(re.sub(r"\s+", " ", m.group(1).strip()))
    return out

SECTIONS = {"functions_blas": ("OpenBLAS", "IntelMKL"), "functions_blas_zdot": ("OpenBLAS", "IntelMKL"), "functions_spblas": ("IntelMKL",)}

def norm_type(t):
    t = re.sub(r"\s+", " ", t.replace("const", " const ")).strip()
    const = " const" in " " + t
    b = t.replace("const", "").replace("*", "").strip()
    return ("const " if const else "") + b

def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "<": d += 1
        if ch == ">": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def run(c):
    c.rules = ["each BlasInterface<Backend, routine>::operator() calls exactly the external symbol <routine>_ once, unconditionally, argument k of the call is parameter k, and the call's value is returned (data flow on the compiled wrapper)",
               "the wrappers of both back ends cover every routine of FunctionList.yml with the listed parameter types, and agree with each other",
               "the thread setters pass their parameter to the back end's setter", "each routine tag reports its own name"]
    c.assumptions = ["the external BLAS libraries implement the routines of their names", "complex results of the dot products use the hidden-result calling convention the extern declarations state"]
    yml = functions_yml()
    if len(yml) < 150: raise Broken("function list not found (%d routines)" % len(yml))
    types = open(REPO + "/include/BlasBooster/BlasInterface/FunctionTypes.h").read()
    names = sorted(yml)
    drv = '#include "BlasBooster/BlasInterface/FunctionTypes.h"\n' + "".join('extern "C" void drv_%s() { auto s = BlasBooster::%s::name(); }\n' % (n, n) for n in names)
    with cf.ThreadPoolExecutor(3) as ex:
        futs = [ex.submit(c.compile, REPO + "/src/Interfaces/%s/BlasInterface_%s.cpp" % (b, b), ["--prefix=_ZNK11BlasBooster,_ZN11BlasBooster"], tag=b) for b in ("OpenBLAS", "IntelMKL")]
        fn = ex.submit(c.compile, None, ["--opaque=basic_string"], tag="names", text=drv)
        mods = {b: load_module(f.result()) for b, f in zip(("OpenBLAS", "IntelMKL"), futs)}
        nm = load_module(fn.result())
    header_convention(c)
    sig = {}
    for b, fs in mods.items():
        dem = dict(zip(fs, subprocess.run(["c++filt"], input="\n".join(fs), capture_output=True, text=True).stdout.split("\n")))
        c.functions += len(fs)
        for mn, f in fs.items():
            d = dem[mn]
            m = re.match(r"BlasBooster::BlasInterface<BlasBooster::%s, BlasBooster::(\w+)>::operator\(\)\((.*)\) const$" % b, d)
            if m:
                r = m.group(1); sig.setdefault(r, {})[b] = split_args(m.group(2))
                wrapper(c, b, r, f, len(sig[r][b]))
            elif re.match(r"BlasBooster::%s_set_num_threads\(int\)" % b, d):
                S = summarise(f)
                want = {"OpenBLAS": "openblas_set_num_threads", "IntelMKL": "MKL_Set_Num_Threads"}[b]
                calls = [x for x in S.calls if x.callee == want]
                other = [x.callee for x in S.calls if x.callee not in (want, "MKL_Set_Dynamic")]
                c.ob("%s/set_num_threads" % b, len(calls) == 1 and not other and calls[0].args == [P(("arg", f.args[0]["name"]))] and calls[0].guard == TRUE,
                     "calls %s" % [(x.callee, [show(a) for a in x.args]) for x in S.calls], "BlasInterface_%s.cpp" % b)
        for r in names:
            got = sig.get(r, {}).get(b)
            if b not in SECTIONS[yml[r]["sec"]]: continue
            if got is None:
                c.viol("%s/%s/exists" % (b, r), "routine of the function list has no wrapper in %s" % b, "BlasInterface_%s.cpp" % b); continue
            want = [norm_type(a) for a in yml[r]["args"]]
            c.ob("%s/%s/signature" % (b, r), [norm_type(a) for a in got] == want, "parameters %s, listed %s" % (got, want), "BlasInterface_%s.cpp" % b)
    for r in sig:
        if r not in yml:
            a, b = sig[r].get("OpenBLAS"), sig[r].get("IntelMKL")
            if a and b: c.ob("both/%s/signature" % r, a == b, "%s vs %s" % (a, b))
    for r in names:
        f = nm["drv_" + r]; S = summarise(f)
        strs = [I["ops"][k]["str"] for b in f.rpo for I in f.blocks[b]["insts"] if I["op"] in ("call", "invoke") and "basic_string" in (I.get("callee") or "") for k in range(len(I["ops"])) if "str" in I["ops"][k]]
        c.ob("name/" + r, strs == [r], "%s::name() is %s" % (r, strs), "FunctionTypes.h")
    c.floor = 4 * 140

def whole_object(p, obj):
    """is p the complete complex object obj (one 8-byte load, or real part then imaginary part)?"""
    a = p.single()
    if a is None: return False
    if a[0] == "ld": return a[1] == P(obj) and a[2] == 8
    if a[0] == "ins":
        im = a[2].single(); inner = a[1].single()
        re_ = inner[2].single() if inner and inner[0] == "ins" and inner[3] == (0,) else None
        return a[3] == (1,) and bool(im) and bool(re_) and re_ == ("ld", P(obj), 8) and im == ("ld", P(obj) + 8, 8)
    return False

DOTS = ("cdotc", "cdotu", "zdotc", "zdotu")
HIDDEN = {}

def header_convention(c):
    """does the installed OpenBLAS header declare the complex dots with a hidden result argument?"""
    try: js = c.compile(None, ["--prefix=drv_"], pre=False, tag="f77", text='#include <f77blas.h>\n' + "".join('extern "C" void* drv_%s() { return (void*)&%s_; }\n' % (r, r) for r in DOTS))
    except Broken: return
    ll = subprocess.run(["llvm-dis-18", "-o", "-", js[:-5] + ".bc"], capture_output=True, text=True).stdout
    for r in DOTS:
        m = re.search(r"declare (.*) @%s_\((.*)\)" % r, ll)
        if m: HIDDEN[r] = m.group(1).strip().endswith("void")

def wrapper(c, b, r, f, n):
    S = summarise(f); key = "%s/%s/forwards" % (b, r); where = "BlasInterface_%s.cpp, BlasInterface<%s,%s>::operator()" % (b, b, r)
    params = [P(("arg", a["name"])) for a in f.args[1:]]
    sret = any(a.get("sret") for a in f.args)
    calls = [x for x in S.calls]
    if len(calls) != 1: c.viol(key, "makes %d external calls: %s" % (len(calls), [x.callee for x in calls]), where); return
    x = calls[0]
    if x.callee not in ((r + "_", "cblas_%s_sub" % r) if r in DOTS else (r + "_",) if not r.startswith(("dcsr", "scsr")) else ("mkl_" + r,)): c.viol(key, "calls %s instead of %s_" % (x.callee, r), where); return
    if x.loops or x.guard != TRUE: c.viol(key, "the call is conditional: %s" % show_dnf(x.guard), where); return
    args = x.args
    back = [p for p, _, _ in S.rets]
    res = None
    if r in DOTS:
        if x.callee == "cblas_%s_sub" % r:
            # CBLAS form: scalars by value, result behind the last pointer
            params = [P(("ld", params[k], 4)) if k % 2 == 0 else params[k] for k in range(len(params))]
            res = args[-1].single(); args = args[:-1]
        elif len(args) == n + 1:
            res = args[0].single(); args = args[1:]
            if b == "OpenBLAS" and HIDDEN.get(r) is False:
                c.viol(key, "passes a hidden result pointer, but the installed OpenBLAS header declares %s_ returning its result by value" % r, where); return
    if res is not None:
        okret = res[0] == "obj" and len(back) == 1 and whole_object(back[0], res)
    else:
        okret = (not back and x.I["ty"] == "void") or (len(back) == 1 and back[0] == P(("call", x.I["id"])))
    bad = [k for k in range(max(len(args), n)) if k >= len(args) or k >= len(params) or args[k] != params[k]]
    if bad: c.viol(key, "argument %d of %s is %s" % (bad[0], x.callee, show(args[bad[0]]) if bad[0] < len(args) else "missing"), where)
    elif not okret: c.viol(key, "result of %s is not handed back" % x.callee, where)
    else: c.ok(key, "%s(%s)" % (x.callee, ", ".join(show(a) for a in args)), where)

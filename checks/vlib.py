"""Common parts of the checks: compiling /repo's current source to summaries, collecting obligations,
matching known findings, writing evidence and the final verdict."""
import json, os, subprocess, sys, time, traceback, re, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "engine"))
import ir, content
from ir import Undecided

CXXFLAGS = ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-g1", "-fno-discard-value-names", "-DNDEBUG",
            "-ffp-contract=off", "-fno-math-errno", "-w", "-ferror-limit=5"]

class Broken(Exception): pass

def where_in(fn, *files):
    """the innermost source position of fn's instructions inside one of the files"""
    bs = fn["blocks"] if isinstance(fn, dict) else (fn.blocks.values() if isinstance(fn.blocks, dict) else fn.blocks)
    for b in bs:
        for i in reversed(b["insts"]):
            for l in i.get("loc") or []:
                if any(f in l["file"] for f in files): return "%s:%d (%s)" % (l["file"].replace(REPO + "/", ""), l["line"], l["fn"])
    return ""

class Check:
    def __init__(s, pid, tier="quick"):
        s.pid, s.tier = pid, tier
        s.t0 = time.time()
        s.obl = []            # (key, status, message, where)
        s.units = []; s.functions = 0; s.sites = 0
        s.rules = []; s.assumptions = []; s.floor = 1
        s.build = os.path.join(VERIF, "build", pid + "-" + str(os.getpid()))
        os.makedirs(s.build, exist_ok=True)
        s.known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            s.known = [k for k in json.load(open(kf))["findings"] if k["property"] == pid and k["status"] == "known"]
    # ---- obligations
    def ok(s, key, msg="", where=""): s.obl.append((key, "ok", msg, where))
    def viol(s, key, msg, where=""): s.obl.append((key, "viol", msg, where))
    def undecided(s, key, msg, where=""): s.obl.append((key, "undecided", msg, where))
    def ob(s, key, cond, msg, where=""):
        (s.ok if cond else s.viol)(key, msg, where); return cond
    def guard(s, key):
        """context manager turning Undecided into an undecided obligation"""
        return _Guard(s, key)
    # ---- compilation
    def compile(s, src, opts=(), defs=(), inc=(), tag=None, pre=True, text=None, flags=()):
        """clang + irx on one translation unit; returns the path of the JSON export"""
        name = tag or os.path.basename(src).rsplit(".", 1)[0]
        if text is not None:
            src = os.path.join(s.build, name + ".gen.cpp"); open(src, "w").write(text)
        bc, js = os.path.join(s.build, name + ".bc"), os.path.join(s.build, name + ".json")
        incs = ["-I" + x for x in (list(inc) + [REPO + "/include"] + ([VERIF + "/stubs", VERIF + "/drivers"] if pre else []))]
        cmd = ["clang++-18"] + CXXFLAGS + incs + ["-D" + d for d in list(defs) + renames()] + list(flags) + ["-emit-llvm", "-c", src, "-o", bc]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise Broken("cannot compile %s:\n%s" % (src, r.stderr[-3000:]))
        r = subprocess.run([VERIF + "/build/irx", bc, js] + list(opts), capture_output=True, text=True)
        if r.returncode: raise Broken("irx failed on %s:\n%s" % (src, r.stderr[-3000:]))
        s.units.append(os.path.relpath(src, VERIF) if src.startswith(VERIF) else src)
        return js
    def load(s, *a, **k):
        fs = ir.load_module(s.compile(*a, **k)); s.functions += len(fs); return fs
    def loads(s, jobs):
        """jobs: list of (args, kwargs); compiled in parallel"""
        with cf.ThreadPoolExecutor(8) as ex:
            js = list(ex.map(lambda j: s.attempt(*j[0], **j[1]), jobs))
        out = []
        if jobs and all(isinstance(j, Broken) for j in js): raise js[0]
        for (a, kw), j in zip(jobs, js):
            if isinstance(j, Broken):        # this part's driver does not fit the current source: nothing is decided from it
                s.partial = True; s.undecided("driver:%s" % (kw.get("tag") or a[0]), str(j)[-300:]); out.append({}); continue
            f = ir.load_module(j); s.functions += len(f); out.append(f)
        return out
    partial = False
    def attempt(s, *a, **kw):
        try: return s.compile(*a, **kw)
        except Broken as e: return e
    # ---- verdict
    def finish(s):
        ev = os.path.join(VERIF, "evidence"); os.makedirs(ev, exist_ok=True)
        viols = [o for o in s.obl if o[1] == "viol"]; und = [o for o in s.obl if o[1] == "undecided"]; oks = [o for o in s.obl if o[1] == "ok"]
        new = []; hit = {}
        for o in viols:
            k = next((k for k in s.known if re.fullmatch(k["match"], o[0])), None)
            if k: hit.setdefault(k["id"], (k, []))[1].append(o)
            else: new.append(o)
        n = len(s.obl)
        rc = 0; lines = []
        for kid, (k, os_) in sorted(hit.items()):
            lines.append("KNOWN-FINDING: property=%s %s [%s]" % (s.pid, k["what"], ", ".join(sorted({o[0] for o in os_}))[:300]))
        if n < s.floor and not s.partial:
            lines.append("BROKEN: %d obligations, expected at least %d" % (n, s.floor)); rc = 2
        if new:
            rp = os.path.join(ev, s.pid + ".violation.txt")
            with open(rp, "w") as f:
                for key, _, msg, where in new: f.write("property %s\nobligation: %s\nat: %s\n%s\n\n" % (s.pid, key, where, msg))
            for key, _, msg, where in new[:12]: lines.append("  %s: %s (%s)" % (key, msg, where))
            lines.append("VIOLATION property=%s replay=%s" % (s.pid, rp)); rc = 1
        else:
            rp = os.path.join(ev, s.pid + ".violation.txt")
            if os.path.exists(rp): os.remove(rp)
        cov = {"explanation": "Static analysis of /repo's current source compiled to LLVM IR (never executed). Rules: " + " | ".join(s.rules),
               "units_analysed": s.units, "functions_summarised": s.functions, "obligations": n, "discharged": len(oks),
               "undecided": [{"obligation": o[0], "why": o[2]} for o in und],
               "known_findings_hit": sorted(hit), "samples": [{"obligation": o[0], "result": o[2][:400], "where": o[3]} for o in oks[:: max(1, len(oks) // 12)][:14]]}
        json.dump({"property": s.pid, "tier": s.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "coverage": cov,
                   "assumptions": s.assumptions, "wall_s": round(time.time() - s.t0, 2), "violations": len(new)},
                  open(os.path.join(ev, s.pid + ".json"), "w"), indent=1)
        shutil.rmtree(s.build, ignore_errors=True)
        print("%s: %d obligations, %d discharged, %d undecided, %d violated (%d listed as known) in %.1f s" % (s.pid, n, len(oks), len(und), len(viols), len(viols) - len(new), time.time() - s.t0))
        if os.environ.get("VP_VERBOSE"):
            for o in s.obl: print("   ", o[1], o[0], "|", o[2], "|", o[3])
        elif und:
            for o in und[:10]: print("  undecided:", o[0], o[2])
        for l in lines: print(l)
        return rc

# private members the drivers read: the file that declares them, in declaration order
FIELDS = {"StripedIterator.h": ["iter_", "position_", "block_", "continuousSizeMinus1_", "separatorSizePlus1_", "nbBlocks_"],
          "NormPolicy.h": ["norm_", "isNormUpToDate_"], "OccupationPolicy.h": ["nbDesiredElementsMap_"],
          "AbsoluteValueRangeChecker.h": ["threshold_"] + ["lowerThreshold_", "upperThreshold_"] * 3,
          "SparseStorage.h": ["value_", "key_", "offset_"] * 2}
_ren = {}
def renames():
    """members that carry another name in the current source: [old=new], by their place among the declarations"""
    if REPO in _ren: return _ren[REPO]
    out = []
    try:
        text = {}
        for d, _, fs in os.walk(REPO + "/include"):
            for f in fs: text[f] = open(os.path.join(d, f), errors="replace").read()
        for f, names in FIELDS.items():
            if f not in text: continue
            body = re.sub(r"/\*.*?\*/|//[^\n]*", "", text[f], flags=re.S)
            got = re.findall(r"^[ \t]+(?!return\b|typedef\b|using\b|static\b|const\b|friend\b|delete\b|throw\b|goto\b|struct\b|class\b)(?:mutable[ \t]+)?[A-Za-z_][\w:]*(?:<[^;()]*>)?(?:::\w+)?[ \t*&]+(\w+);[ \t]*$", body, flags=re.M)
            if got == names or len(got) != len(names): continue
            for o, n in zip(names, got):
                if o != n and "%s=%s" % (o, n) not in out and not any(re.search(r"\b%s\b" % re.escape(o), t) for t in text.values()): out.append("%s=%s" % (o, n))
    except OSError: pass
    _ren[REPO] = out
    return out

class _Guard:
    def __init__(s, c, key): s.c, s.key = c, key
    def __enter__(s): return s
    def __exit__(s, t, v, tb):
        if t is None: return False
        if issubclass(t, Undecided):
            s.c.undecided(s.key, str(v)); return True
        if issubclass(t, (Broken, KeyboardInterrupt)): return False
        if os.environ.get("VP_TRACE"): traceback.print_exception(t, v, tb)
        s.c.undecided(s.key, "analysis does not apply: %s: %s" % (t.__name__, v)); return True

def witness(c, name, prelude, items, inc=(), flags=()):
    """Compile-time witnesses: items = [(key, constant expression, message, where)] must be true in /repo's current type system.
    False: violated. Ill-formed on its own while the prelude compiles: status 'ill' (message of the compiler). Returns {key: (status, text)}."""
    incs = ["-I" + x for x in (list(inc) + [REPO + "/include", VERIF + "/stubs", VERIF + "/drivers"])]
    def go(tag, its):
        src = os.path.join(c.build, tag + ".wit.cpp")
        open(src, "w").write(prelude + "\n" + "\n".join('static_assert(%s, "VPW:%s:");' % (e, k) for k, e, *_ in its) + "\n")
        r = subprocess.run(["clang++-18", "-std=c++17", "-fsyntax-only", "-w", "-ferror-limit=0", "-fno-color-diagnostics"] + list(flags) + incs + [src], capture_output=True, text=True)
        errs = [l for l in r.stderr.splitlines() if re.search(r"(fatal )?error:", l)]
        failed = {m.group(1): l for l in errs for m in [re.search(r"static assertion failed.*VPW:(.*?):", l)] if m}
        other = [l for l in errs if "VPW:" not in l]
        return failed, other
    c.units.append(name + " (%d witnesses)" % len(items))
    out = {}
    seq = iter(range(1 << 20))
    def solve(its):
        failed, other = go("%s-%d" % (name, next(seq)), its)
        if not other: return {it[0]: ("viol", "") if it[0] in failed else ("ok", "") for it in its}
        if len(its) == 1: return {its[0][0]: ("ill", other[0])}
        n = max(1, (len(its) + 7) // 8); o = {}
        with cf.ThreadPoolExecutor(8) as ex:
            for r in ex.map(solve, [its[i:i + n] for i in range(0, len(its), n)]): o.update(r)
        return o
    failed, other = go(name, items)
    if not other: return {it[0]: ("viol", "") if it[0] in failed else ("ok", "") for it in items}
    _, base = go(name + "-base", [])
    if base: raise Broken("cannot compile the witnesses' prelude: %s" % "\n".join(base[:5]))
    out.update(solve(items))
    return out

"""P21: every error the code detects is raised, and no handler swallows one."""
import glob, json, subprocess
from vlib import *
from reach import unreachable

OPS = {"diagonal": "the diagonal filler on a matrix that is not square", "blocksize": "block sizes whose maximum is below twice the minimum",
       "multiple": "a multiple matrix of halves of different shape, or a query it does not implement", "storage": "a storage resized without owning its memory, or of the wrong length"}

def facts(c, f, defs=()):
    res = subprocess.run(["clang++-18", "-print-resource-dir"], capture_output=True, text=True).stdout.strip()
    r = subprocess.run([VERIF + "/build/astx", REPO + "/", f, "--", "-std=c++17", "-w", "-ferror-limit=0", "-include", "boost/serialization/base_object.hpp", "-include", "array", "-I" + REPO + "/include", "-I" + REPO + "/src",
                        "-I" + VERIF + "/stubs", "-I" + VERIF + "/drivers", "-resource-dir", res] + ["-D" + d for d in defs], capture_output=True, text=True)
    out = [json.loads(l) for l in r.stdout.splitlines() if l.startswith("{")]
    if not out or out[-1]["k"] != "end": raise Broken("astx failed on %s: %s" % (f, r.stderr[-500:]))
    c.units.append(f + (" with " + ",".join(defs) if defs else ""))
    return out[:-1], out[-1]["ok"]

def run(c):
    c.rules = ["syntax trees of all headers and sources, templates included: every construction of an exception object outside an exception class is thrown or returned, never dropped",
               "no throw stands in a function that may not throw", "every exception handler leaves by an error (throw, non-zero return, no-return call)",
               "every operation with a documented impossible input does not return normally when that input condition holds"]
    c.assumptions = ["best effort on three sources whose third-party headers are not installed"]
    c.floor = 60
    jobs = []
    heads = sorted(os.path.relpath(h, REPO + "/include") for h in glob.glob(REPO + "/include/**/*.h", recursive=True))
    skip = ("FunctionTypes.h", "BlasInterface_", "Multiplication_OpenBLAS", "Multiplication_IntelMKL", "Multiplication_Blaze", "Multiplication_Eigen")
    main = os.path.join(c.build, "all_headers.cpp")
    order = ["BlasBooster/Core/MatrixFileIO.h", "BlasBooster/Utilities/FileIO.h", "BlasBooster/Core/BlockSizeGenerator.h", "BlasBooster/Core/Threshold.h", "BlasBooster/Core/MatrixFiller.h"]
    rest = [h for h in heads if not any(x in h for x in skip)]
    open(main, "w").write('#include "vp.h"\n' + "".join('#include "%s"\n' % h for h in order + [h for h in rest if h not in order]))
    srcs = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    work = [(main, ()), (main, ("BLASBOOSTER_CORE_FAILURE_TO_EXCEPTION",)), (main, ("BLASBOOSTER_USE_TRACKER",))] + [(s, ()) for s in srcs if "/Interfaces/" not in s]
    with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda w: facts(c, *w), work))
    seen = {}
    for fs, _ in res:
        for f in fs: seen.setdefault(json.dumps(f, sort_keys=True), f)
    c.functions += len({f["fn"] for f in seen.values()})
    nth = {}
    for f in seen.values():
        file = f["file"].replace(REPO + "/", "")
        n = nth[file, f["fn"], f["k"]] = nth.get((file, f["fn"], f["k"]), 0) + 1
        key = "%s:%s:%s:%d" % (f["k"], os.path.basename(file), f["fn"].split("::")[-1], n); where = "%s:%d:%d (%s)" % (file, f["line"], f["col"], f["fn"])
        if f["k"] == "construct":
            if f["fate"] in ("thrown", "returned"): c.ok(key, "the %s is %s" % (f["type"], f["fate"]), where)
            elif f["fate"] in ("dropped",): c.viol(key, "an exception of type %s is built and dropped" % f["type"], where)
            else: c.undecided(key, "where the exception object goes is not followed (%s)" % f["fate"], where)
        elif f["k"] == "throw": c.ob(key, not f["trapped"], "the throw cannot leave its function (noexcept)" if f["trapped"] else "can propagate", where)
        elif f["k"] == "catch":
            if f["leaves"]: c.ok(key, "the handler leaves by an error", where)
            elif f["maybe"]: c.undecided(key, "whether the handler passes the error on is not followed", where)
            else: c.viol(key, "the handler swallows the error", where)
    for mod in c.loads([((VERIF + "/drivers/refuse.cpp",), {"tag": "r1", "opts": ["--cut-throws"]}),
                        ((VERIF + "/drivers/refuse.cpp",), {"tag": "r2", "opts": ["--cut-throws"], "defs": ["BLASBOOSTER_CORE_FAILURE_TO_EXCEPTION"]})]):
        for name, fn in sorted(mod.items()):
            if not name.startswith("drv_"): continue
            key = name + ("" if not any(o[0] == name for o in c.obl) else ":2")
            with c.guard(key):
                unreachable(c, key, fn, "back", OPS[name.split("_")[1]] + " is refused", where_in(fn, "/include/BlasBooster/"))

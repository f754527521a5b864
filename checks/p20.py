"""P20: file errors are reported and existing files are not overwritten unasked."""
import itertools
from vlib import *
from mat import *
from reach import feasible

DRV, INC = VERIF + "/drivers/files.cpp", [VERIF + "/stubs/files"]
OPEN, ARCH, EXISTS, GOOD, READ, SEEK = ("vp_io_" + x for x in ("open", "archive", "exists", "good", "read", "seek"))

ISOPEN = "vp_io_isopen"

def example(g):
    """small values of the header's fields and of the matrix' earlier shape for which g holds whatever the file system answers"""
    for cl in norm(g):
        at = set()
        for a, _ in cl:
            for y in a[1:]:
                if isinstance(y, Poly) and a[0] != "bool": at |= {x for x in all_atoms(y) if isinstance(x, tuple) and x[0] in ("arg", "ld")}
        at = {a for a in at if a != ("arg", "C")}
        inner = {x for a in at if a[0] == "ld" for x in all_atoms(a[1]) if isinstance(a[1], Poly)}
        at = sorted(at - inner, key=repr)
        ties = {("arg", "rowOffset"): ZERO, ("arg", "columnOffset"): ZERO, ("arg", "rowLeadingDimension"): ("arg", "nbRows"), ("arg", "columnLeadingDimension"): ("arg", "nbColumns")}
        for tied in ({}, ties):
            free = [a for a in at if a not in tied]
            if len(free) > (6 if tied else 7): continue
            for xs in itertools.product((0, 1, 2, 3) if len(free) < 6 else (1, 2, 0), repeat=len(free)):
                env = {a: P(x) for a, x in zip(free, xs)}
                env.update({a: env.get(v, P(2)) if isinstance(v, tuple) else v for a, v in tied.items()})
                h = renorm_dnf(subst_dnf(frozenset([cl]), env))
                if h != FALSE and all(a[0] == "bool" for c2 in h for a, _ in c2): return True
    return False

def run(c):
    c.rules = ["settings files: every path that opens a file for reading has found that it exists, every path that opens one for writing was asked to overwrite or has found that it does not exist, and the function returns only after the archive of its kind, made on the stream of the file the caller named, got the caller's object under the caller's name",
               "matrix files: nothing of the matrix changes and nothing is read unless the header's sub-range lies in its leading dimensions and the file could be opened; every read is followed on every path by a test of the stream before the function returns; the reads cover the header's sub-range, each line from its place in the file to its place in the matrix"]
    c.assumptions = ["file streams, archives, path queries and the header parser are replaced by unknown functions", "column-major matrices (the order of the lines of a file read into a row-major matrix is not specified)"]
    c.floor = 44
    for tag, defs in (("files", []), ("matrix", ["PART2"])):
        try: mod = c.load(DRV, tag=tag, defs=defs, inc=INC)
        except Broken as e:
            c.undecided(tag, "the stand-in streams do not fit: " + str(e)[-300:]); continue
        for name, fn in sorted(mod.items()):
            if defs and name.startswith("drv_matrix_") or not defs and name.startswith("drv_file_"):
                with c.guard(name): (matrix if defs else settings)(c, name, fn)

def called(S, callee): return [x for x in S.calls if x.callee == callee]
def calls_in(p): return {a[1] for a in all_atoms(p) if isinstance(a, tuple) and a[0] == "call"}

def norm(g):
    """boolean atoms in one form"""
    def lit(l):
        a, pol = l
        if a[0] == "bv": return (("bool", ("call", a[1])), pol)
        if a[0] == "b": return (("bool", next(iter(a[1].atoms())) if hasattr(a[1], "atoms") else a[1]), pol)
        if a[0] == "eq":
            at = a[1].atoms()
            if len(at) == 1 and a[1].const() == 0:
                x = next(iter(at))
                if isinstance(x, tuple) and x[0] == "call" and x[1] in BOOLS: return (("bool", x), not pol)
        return l
    def named(l):
        a, pol = l
        return ((a[0], subst(a[1], FIELDS)) + tuple(a[2:]), pol) if FIELDS and len(a) > 1 and hasattr(a[1], "atoms") else l
    return frozenset(frozenset(named(lit(l)) for l in c) for c in g)

def feas(g): return feasible(norm(g))
def sg(fn, b): return norm(fn.strict_guard(b))

def never(g, cond):
    """'no' when g and cond cannot hold together"""
    both = dnf_and(norm(g), norm(cond))
    v = feasible(both)
    return "yes" if v not in ("yes", "no") and example(both) else v

BOOLS = set()
FIELDS = {}     # header fields by the call that reads them

def judge(c, key, verdicts, good, bad, where):
    if any(v == "yes" for v in verdicts): c.viol(key, bad, where)
    elif verdicts and all(v == "no" for v in verdicts): c.ok(key, good, where)
    else: c.undecided(key, "cannot decide: " + good, where)

def exists_cond(S, path, value):
    """the queries about the caller's file all answer value"""
    g = TRUE
    for x in called(S, EXISTS):
        if x.args[0] == path: g = dnf_and(g, truth(x, value))
    return g

def truth(x, value): return frozenset([frozenset([(("bool", ("call", x.I["id"])), value)])])

def settings(c, name, fn):
    _, _, dirn, kind = name.split("_")
    S = summarise(fn); FIELDS.clear(); BOOLS.clear(); BOOLS.update(x.I["id"] for x in S.calls if x.callee in (EXISTS, GOOD)); xml = kind.startswith("xml")
    w = where_in(fn, "FileIO.h")
    F, N, O = P(("arg", "F")), P(("arg", "N")), P(("arg", "S"))
    fname, label = P(("ld", F, 8)), P(("ld", N, 8))
    opens = called(S, OPEN)
    if not opens: c.undecided(name, "no file is opened through a file stream"); return
    c.ob(name + ":file", all(x.args[1] == fname for x in opens), "the file opened is the one named", w) if all(x.args[1] == fname or not calls_in(x.args[1]) and not any(isinstance(a, tuple) and a[0] in ("obj", "alloc") for a in all_atoms(x.args[1])) for x in opens) else c.undecided(name + ":file", "the name of the file opened is not followed")
    q = [x for x in called(S, EXISTS) if x.args[0] == F]
    mode = [x.args[2].const() if x.args[2].is_const() else None for x in opens]
    if dirn == "read":
        # a missing file
        if not q: c.viol(name + ":missing", "a file is opened without asking whether it exists", w)
        else: judge(c, name + ":missing", [never(sg(fn, x.block), exists_cond(S, F, False)) for x in opens], "a missing file is never opened", "a missing file is opened for reading", w)
    else:
        flag = P(("arg", "O"))
        if kind.endswith("d"): c.ob(name + ":default", not any(feas(dnf_not(sg(fn, x.block))) == "yes" for x in opens), "without the flag a file is overwritten", w)
        else:
            r = []
            for x in opens:
                g = sg(fn, x.block)
                r.append(never(dnf_and(g, no_overwrite()), exists_cond(S, F, True)) if q else feas(dnf_and(g, no_overwrite())))
            judge(c, name + ":overwrite", r, "an existing file is not opened unless overwriting was asked for", "an existing file is opened for writing although overwriting was not asked for", w)
            # asked to overwrite, or not existing: it is written
            r = [feas(dnf_and(dnf_and(dnf_not(or_all(sg(fn, x.block) for x in opens)), k), TRUE)) for k in ([dnf_not(no_overwrite())] + ([exists_cond(S, F, False)] if q else []))]
            judge(c, name + ":writes", r, "a file that may be written is written", "a file that may be written is refused", w)
        c.ob(name + ":mode", not any(m is not None and int(m) & 1 for m in mode), "the file is replaced, not appended to", w)
    if dirn == "read": judge(c, name + ":reads", [feas(dnf_and(dnf_not(or_all(sg(fn, x.block) for x in opens)), exists_cond(S, F, True)))], "an existing file is read", "an existing file is refused", w)
    # the transfer
    T = called(S, "vp_io_load" if dirn == "read" else "vp_io_save")
    arch = {x.args[0]: x for x in called(S, ARCH)}
    streams = [x.args[0] for x in opens]
    if not T: c.viol(name + ":object", "no object is transferred", w); return
    for x in T:
        c.ob(name + ":object", x.args[2] == O, "the object transferred is the caller's", w)
        if xml: c.ob(name + ":name", x.args[1] == label, "the name in the archive is the caller's", w)
        a = arch.get(x.args[0])
        if a is None: c.undecided(name + ":archive", "the archive's construction is not followed"); continue
        c.ob(name + ":archive", a.args[2] == P((1 if xml else 2) + (0 if dirn == "read" else 10)), "the archive is of the kind the function is named for", w)
        c.ob(name + ":stream", a.args[1] in streams, "the archive uses the stream of the file", w)
    c.ob(name + ":once", len(T) == 1, "one object is transferred", w)
    rets = [b for b in fn.live if fn.term(b)["op"] == "ret"]
    c.ob(name + ":done", all(any(fn.dominates(x.block, b) for x in T) for b in rets), "the function returns only after the transfer", w)
    dirs = [x.args[3] for x in opens]
    c.ob(name + ":direction", all(d == P(0 if dirn == "read" else 1) or d == P(2) for d in dirs), "the stream is of the right direction", w)

def or_all(gs):
    r = FALSE
    for g in gs: r = dnf_or(r, g)
    return r

def no_overwrite(): return frozenset([frozenset([(("bool", ("arg", "O")), False)])])

def matrix(c, name, fn):
    es = 8 if name.endswith("d") else 4
    S = summarise(fn); FIELDS.clear(); BOOLS.clear(); BOOLS.update(x.I["id"] for x in S.calls if x.callee in (EXISTS, GOOD, ISOPEN, "vp_io_eof", "vp_io_bad")); w = where_in(fn, "MatrixFileIO.h")
    key = lambda k: name + ":" + k
    fields = {}; FIELDS.clear()
    for x in called(S, "vp_io_field"):
        t = next((a for a in all_atoms(x.args[0]) if isinstance(a, tuple) and a[0] == "str"), None)
        fields[t[1] if t else None] = P(("arg", t[1] if t else "?"))
        FIELDS[("call", x.I["id"])] = P(("arg", t[1] if t else "?"))
    for x in S.calls:
        x.args = [subst(a, FIELDS) for a in x.args]; x.guard = norm(x.guard); x.loops = [(i, subst(e, FIELDS)) for i, e in x.loops]
    for e in S.effects:
        if e.value is not None: e.value = subst(e.value, FIELDS)
    names = ("nbRows", "nbColumns", "rowLeadingDimension", "columnLeadingDimension", "rowOffset", "columnOffset")
    if not all(x in fields for x in names): raise Undecided("header fields")
    r, cc, ldr, ldc, orow, ocol = (fields[x] for x in names)
    opens, reads, goods, seeks = (called(S, x) for x in (OPEN, READ, GOOD, SEEK))
    if not opens or not reads: raise Undecided("no file is read through a file stream")
    text = called(S, "vp_io_text")
    if len(text) == 1 and len(opens) == 1 and calls_in(opens[0].args[1]): c.ob(key("file"), opens[0].args[1] == P(("call", text[0].I["id"])), "the file opened is the one the header names", w)
    else: c.undecided(key("file"), "the name of the file is not followed")
    C = ("arg", "C")
    touch = [e for e in S.effects if e.base == C] + [x for x in S.calls if x.callee in ("vp_allocate", "vp_deallocate")] + reads
    for k, n_, o, ld in (("rows", r, orow, ldr), ("columns", cc, ocol, ldc)):
        bad = cmp_int("ult", ld, n_ + o)
        judge(c, key("header " + k), [never(sg(fn, e.block), bad) for e in touch], "nothing happens to the matrix when the sub-range exceeds the leading dimension", "the matrix is changed although the header's %s exceed the leading dimension" % k, w)
    after = [g for g in goods + called(S, ISOPEN) if g.order > opens[0].order]
    chk = [g for g in after if all(g.order < x.order for x in reads)]
    if not chk: c.viol(key("opened"), "no test whether the file could be opened", w)
    else: judge(c, key("opened"), [never(sg(fn, e.block), truth(chk[0], False)) for e in touch], "nothing happens to the matrix when the file cannot be opened", "the matrix is changed although the file cannot be opened", w)
    for k, R in enumerate(reads):
        c.ob(key("checked %d" % k), *unchecked(fn, R, {g.I["id"] for g in goods + called(S, "vp_io_eof")}), w) if not called(S, "vp_io_count") else c.undecided(key("checked %d" % k), "counts of characters read are not followed")
    # the shape
    p = [p for p in S.probes if p[0] == "C"]
    sh = [max((e for e in S.effects if e.base == C and e.addr == P(8 + 8 * k) and e.kind == "store"), key=lambda e: e.order, default=None) for k in (0, 1)]
    for k, (e, want, what) in enumerate(zip(sh, (r, cc), ("rows", "columns"))):
        if e is None: c.undecided(key(what), "where the shape is set is not followed")
        else:
            check_eq(c, key(what), e.value, want, "the matrix has the header's number of " + what, w)
            old = P(("ld", P(C) + 8 + 8 * k, 8))
            kept = dnf_and(dnf_not(norm(e.guard)), dnf_not(cmp_int("eq", old, want)))
            if any(example(dnf_and(sg(fn, R.block), kept)) for R in reads): c.viol(key("new " + what), "the matrix keeps its earlier number of " + what, w)
    # which part of the file goes where
    cover = FALSE
    for k, R in enumerate(reads):
        with c.guard(key("part %d" % k)): part(c, key("part %d" % k), fn, S, R, seeks, reads, es, r, cc, ldr, ldc, orow, ocol, w)
        g = R.guard
        for l in fn.loopchain(R.block): g = fn.guard(fn.loops[l]["header"]) if hasattr(fn, "loops") else g
        cover = dnf_or(cover, fn_guard_outside(fn, R))
    judge(c, key("all"), [feas(dnf_and(dnf_not(cover), TRUE))] if cover != TRUE else ["no"], "some read takes place for every admissible header", "for some headers nothing is read", w)

def fn_guard_outside(fn, R):
    """guard of the outermost loop around the read, without the loop's own entry test"""
    ch = fn.loopchain(R.block)
    if not ch: return R.guard
    g = R.guard
    # drop literals about the loop's own extent being positive
    ext = [e for _, e in R.loops]
    out = FALSE
    for cl in g:
        out = dnf_or(out, frozenset([frozenset(l for l in cl if not (l[0][0] == "eq" and any(l[0][1] in (e, -e) for e in ext)))]))
    return out

def unchecked(fn, R, goods):
    """from the read, a test of the stream stands before every return"""
    b0 = R.block; seen = set(); work = [(b0, [i["id"] for i in fn.blocks[b0]["insts"]].index(R.I["id"]) + 1)]
    while work:
        b, at = work.pop()
        if (b, at) in seen: continue
        seen.add((b, at))
        ins = fn.blocks[b]["insts"]
        tests = {i["id"] for i in ins[at:] if i.get("callee") in (GOOD, "vp_io_eof")}
        if any(i.get("callee") == "vp_io_clear" and not any(j in tests and [x["id"] for x in ins].index(j) < n for j in tests) for n, i in enumerate(ins) if n >= at): return False, "the error state of the stream is cleared before it is tested"
        t = ins[-1]
        if t["op"] == "ret": return False, "the function can return without testing the stream after a read"
        if t["op"] == "br" and len(t["ops"]) == 3 and tests and depends(fn, b, t["ops"][0], tests):
            # one side must never return
            sides = [o["bb"] for o in t["ops"][1:]]
            if any(not returns(fn, s) for s in sides): continue
        for s in fn.succs(b):
            if s in fn.live: work.append((s, 0))
    return True, "the stream is tested after the read before the function returns"

def depends(fn, b, o, ids):
    work = [o]; seen = set()
    at = {i["id"]: i for i in fn.blocks[b]["insts"]}
    while work:
        o = work.pop()
        if not isinstance(o, dict) or "v" not in o or o["v"] in seen: continue
        seen.add(o["v"])
        if o["v"] in ids: return True
        if o["v"] in at and at[o["v"]]["op"] != "phi": work += at[o["v"]]["ops"]
    return False

def returns(fn, b):
    seen = set(); work = [b]
    while work:
        x = work.pop()
        if x in seen: continue
        seen.add(x)
        if fn.term(x)["op"] == "ret": return True
        t = fn.term(x)
        work += [s for s in fn.succs(x) if not (t["op"] == "invoke" and s == t.get("unwind"))]
    return False

def part(c, key, fn, S, R, seeks, reads, es, r, cc, ldr, ldc, orow, ocol, w):
    g = R.guard
    # what the guard settles: equal leading dimensions leave no room for offsets
    f = {}
    for l, n_, o in ((ldr, r, orow), (ldc, cc, ocol)):
        if feas(dnf_and(sg(fn, R.block), cmp_int("ne", l, n_))) == "no" or always_eq(g, l - n_):
            f[next(iter(l.atoms()))] = n_; f[next(iter(o.atoms()))] = ZERO
    Z = lambda p: subst(p, f)
    loops = R.loops
    before = [x for x in seeks + reads if x is not R and x.order < R.order and not set_disjoint(fn, x, R)]
    pos = ZERO
    if len(loops) > 1: raise Undecided("nested loops")
    inl = [x for x in seeks + reads if x.loops and x.loops == loops]
    for x in before:
        if x.loops and x.loops != loops: raise Undecided("a read in another loop")
    def step(x):
        if x.callee == READ: return x.args[2]
        if x.args[2] != ONE: return None
        return x.args[1]
    base = [x for x in before if not x.loops]
    # an absolute seek starts afresh
    for x in base:
        if not fn.dominates(x.block, R.block): raise Undecided("position depends on a condition")
        d = step(x); pos = pos + d if d is not None else start(x)
    j = P(loops[0][0]) if loops else ZERO
    if loops:
        delta = ZERO; off = ZERO; absolute = None
        for x in sorted(inl, key=lambda x: x.order):
            if fn.guard(x.block) != fn.guard(R.block): raise Undecided("position depends on a condition in the loop")
            d = step(x)
            if d is None:
                if x.order > R.order: raise Undecided("absolute position")
                absolute = start(x); off = ZERO; continue
            if next(iter(j.atoms())) in all_atoms(d): raise Undecided("uneven steps")
            if x.order < R.order: off = off + d
            delta = delta + d
        pos = absolute + off if absolute is not None else pos + off + j * delta
    # destination
    dst = R.args[1]; lin = ZERO; ptr = ZERO
    for m, q in dst.t.items():
        t = type(dst)({m: q})
        if any(isinstance(a, tuple) and a[0] in ("ite", "alloc", "ld", "phi", "phiout", "select") or a == ("arg", "C") for a in m): ptr = ptr + t
        else: lin = lin + t
    leaves = [a for a in all_atoms(ptr) if isinstance(a, tuple) and a[0] in ("alloc", "ld")]
    if not leaves or any(a[0] == "ld" and a[1] != P(("arg", "C")) + 32 and a[1] != P(("arg", "C")) + 40 for a in leaves): raise Undecided("destination")
    nbytes = R.args[2]
    if loops:
        if Z(loops[0][1]) != Z(cc):
            check_eq(c, key + " lines", Z(loops[0][1]), Z(cc), "lines read", w)
        else: c.ok(key + " lines", "one line per column", w)
        check_eq(c, key + " length", Z(nbytes), Z(r * es), "bytes of a line", w)
        check_eq(c, key + " to", Z(lin), Z(j * r * es), "place of a line in the matrix", w)
        check_eq(c, key + " from", Z(pos), Z((ocol * ldr + orow + j * ldr) * es), "place of a line in the file", w)
    else:
        check_eq(c, key + " length", Z(nbytes), Z(r * cc * es), "bytes read", w)
        check_eq(c, key + " to", Z(lin), ZERO, "place in the matrix", w)
        check_eq(c, key + " from", Z(pos), Z((ocol * ldr + orow) * es), "place in the file", w)
        if Z(ldr) == ldr: c.viol(key + " whole", "the lines are read in one piece although the leading dimension may exceed them", w)
        else: c.ok(key + " whole", "lines lie next to each other in the file", w)

def always_eq(g, p):
    return bool(g) and all(any(l[0][0] == "eq" and l[1] and l[0][1] in (p, -p) for l in cl) for cl in g)

def start(x):
    if x.args[2] != ZERO: raise Undecided("seek from the end")
    return x.args[1]

def set_disjoint(fn, x, R): return feas(dnf_and(x.guard, R.guard)) == "no"

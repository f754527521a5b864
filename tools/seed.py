#!/usr/bin/env python3
"""Plants one bug in a scratch copy of /repo, confirms it (builds, stable tests pass, demo fails with it and passes
without it), and stores it under /verif/seeded/<id>.   usage: seed.py SPEC.py [--force]
SPEC defines: id, prop, edits=[(file, old, new)], needs, breaks, demo (C++ text or None), demo_sh (optional), flags (optional)"""
import sys, os, subprocess, shutil, json, tempfile
V = "/verif"
spec = {}; exec(open(sys.argv[1]).read(), spec)
sid = spec["id"]; out = V + "/seeded/" + sid
scratch = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, **k)
try:
    work = scratch + "/repo"; sh(["cp", "-a", "/repo", work])
    for f, old, new in spec["edits"]:
        p = work + "/" + f; s = open(p).read()
        assert s.count(old) == 1, "edit matches %d times in %s" % (s.count(old), f)
        open(p, "w").write(s.replace(old, new))
    diff = sh(["git", "diff"], cwd=work).stdout
    assert diff.strip()
    d = scratch + "/seed"; os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if spec.get("demo"):
        open(d + "/demo.cpp", "w").write(spec["demo"])
        shutil.copytree(V + "/stubs", d + "/inc")
        if "blaze" not in spec.get("keep", ()): shutil.copy(V + "/tools/demo_Memory.h", d + "/inc/blaze/util/Memory.h")
    for n, t in spec.get("files", {}).items():
        os.makedirs(os.path.dirname(d + "/" + n), exist_ok=True); open(d + "/" + n, "w").write(t)
    open(d + "/demo.sh", "w").write(spec.get("demo_sh") or """#!/bin/bash
# exit 0 when the behaviour is right; run with cwd = repository root
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"; trap 'rm -rf -- "$tmp"' EXIT
g++ -std=c++17 -O1 %s -w -include boost/serialization/base_object.hpp -include cassert -include array -I"$here/inc" -Iinclude "$here/demo.cpp" -o "$tmp/demo" %s || exit 99
cd "$tmp" && timeout 120 ./demo
""" % (spec.get("flags", ""), spec.get("libs", "")))
    os.chmod(d + "/demo.sh", 0o755)
    # bug in place: does the code build, do the tests pass, does the demo fail?
    r0 = sh(["bash", d + "/demo.sh"], cwd="/repo"); print("demo unchanged:", r0.returncode, (r0.stdout + r0.stderr)[-1500:])
    r1 = sh(["bash", d + "/demo.sh"], cwd=work); print("demo patched:", r1.returncode, (r1.stdout + r1.stderr)[-600:])
    assert r0.returncode == 0 and r1.returncode not in (0, 99)
    # build and tests use /repo itself
    assert not sh(["git", "status", "--short"], cwd="/repo").stdout.strip()
    assert sh(["git", "-C", "/repo", "apply", d + "/patch.diff"]).returncode == 0
    try:
        b = sh(["bash", "/opt/vp/build.sh"]); t = sh(["bash", "/opt/vp/test.sh", scratch + "/t.json"])
        print("build", b.returncode, "test", t.returncode, open(scratch + "/t.json").read()[:300] if os.path.exists(scratch + "/t.json") else t.stderr[-500:])
        assert b.returncode == 0
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        assert stable <= set(json.load(open(scratch + '/t.json'))['passed']), 'the stable tests catch it'
        c = sh(["python3", V + "/checks/run.py", spec["prop"]]) if os.path.exists(V + "/checks/%s.py" % spec["prop"].lower()) else None
        if c: print("check:", c.returncode, c.stdout[-700:])
    finally:
        sh(["git", "-C", "/repo", "checkout", "--", "."]); sh(["bash", "/opt/vp/build.sh"])
    if os.path.exists(out): shutil.rmtree(out)
    shutil.copytree(d, out)
    print("stored", out)
finally:
    shutil.rmtree(scratch)

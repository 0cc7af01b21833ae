#!/usr/bin/env python3
"""Planted bugs: seed.py new SPEC.py...   writes /verif/seeded/<id>/ from specifications
                 seed.py verify [ID...]   builds, tests and runs the demonstration with and without the patch (scratch copy)
                 seed.py check [-a] [ID...]   runs the property's check (-a: all checks) on a patched scratch copy"""
import json, os, subprocess, sys, tempfile, shutil, glob
V = "/verif"
S = V + "/seeded"

HEAD = '''#!/bin/bash
# Runs in the repository's directory after the build: 0 when the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
INC="-I$R -I$R/PTN_Engine -I$R/PTN_Engine/include -I$R/PTN_Engine/ImportExport -I$R/PTN_Engine/ImportExport/include -I$R/PTN_Engine/ImportExport/XML/src"
'''
LIB = '''g++ -std=c++20 -O1 -w $INC "$D/demo.cpp" "$R/_build/lib/libImportExport.a" "$R/_build/lib/libPTN_Engine.a" -lpugixml -pthread -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
'''
TSAN = '''SRC=$(find "$R/PTN_Engine" -name '*.cpp')
g++ -std=c++20 -O1 -g -w -fsanitize=thread $INC "$D/demo.cpp" $SRC -lpugixml -pthread -o "$T/demo" || exit 3
cd "$T" && TSAN_OPTIONS="exitcode=66 halt_on_error=1" timeout 120 setarch -R ./demo
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def copy():
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    sh("cp -a /repo %s/r" % d)
    return d

def new(spec):
    B = []
    exec(open(spec).read(), {"B": B})
    for b in B:
        d = copy()
        for f, old, neu in b["edits"]:
            p = d + "/r/PTN_Engine/" + f
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, neu = old.replace("\n", "\r\n"), neu.replace("\n", "\r\n")
            assert s.count(old) == 1, (b["id"], f, s.count(old))
            open(p, "w", newline="").write(s.replace(old, neu))
        diff = subprocess.run(["git", "-C", d + "/r", "diff"], stdout=subprocess.PIPE).stdout
        shutil.rmtree(d)
        o = S + "/" + b["id"]
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "wb").write(diff)
        open(o + "/demo.sh", "w").write(HEAD + (TSAN if b.get("tsan") else LIB))
        os.chmod(o + "/demo.sh", 0o755)
        open(o + "/demo.cpp", "w").write(b["demo"].lstrip())
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        print("written", b["id"])

def inns(d, cmd, timeout=600):
    return sh("unshare -Urm bash -c 'mount --bind %s/r /repo && cd /repo && %s'" % (d, cmd), timeout=timeout)

def verify(i):
    o = S + "/" + i
    r = sh("bash %s/demo.sh" % o, cwd="/repo")
    clean = r.returncode
    d = copy()
    try:
        a = sh("git apply %s/patch.diff" % o, cwd=d + "/r")
        if a.returncode:
            return "patch does not apply"
        b = inns(d, "bash /opt/vp/build.sh")
        if b.returncode:
            return "does not build: " + b.stdout[-1500:]
        t = inns(d, "bash /opt/vp/test.sh /repo/_build/out.json")
        j = json.load(open(d + "/r/_build/out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = base["stable"]
        missing = [x for x in want if x not in j["passed"]]
        m = inns(d, "bash %s/demo.sh" % o)
        ok = not missing and clean == 0 and m.returncode != 0
        return "%s tests-failing=%s demo clean=%d patched=%d %s" % ("OK" if ok else "REJECT", missing[:4], clean, m.returncode, (m.stdout.strip().splitlines() or [""])[-1][:100] if ok else r.stdout[-300:])
    finally:
        shutil.rmtree(d)

def check(i, every):
    o = S + "/" + i
    prop = json.load(open(o + "/meta.json"))["property"]
    d = copy()
    try:
        if sh("git apply %s/patch.diff" % o, cwd=d + "/r").returncode:
            return "patch does not apply"
        props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")] if every else [prop]
        res = []
        for p in props:
            r = sh("./check %s" % p, cwd=V, env=dict(os.environ, MC_REPO=d + "/r"))
            hit = "VIOLATION property=%s" % p in r.stdout
            if r.returncode not in (0, 1):
                res.append("%s:exit%d" % (p, r.returncode))
            elif hit:
                res.append(p)
        return prop + " caught by: " + (" ".join(res) or "NONE")
    finally:
        shutil.rmtree(d)

if __name__ == "__main__":
    mode, args = sys.argv[1], sys.argv[2:]
    every = "-a" in args
    args = [a for a in args if a != "-a"]
    if mode == "new":
        for a in args:
            new(a)
    else:
        for i in args or sorted(os.listdir(S)):
            print(i, verify(i) if mode == "verify" else check(i, every), flush=True)

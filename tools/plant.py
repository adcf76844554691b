#!/usr/bin/env python3
"""plant.py new <id> <spec.json>   writes seeded/<id> from edits on a scratch copy
   plant.py test [id...] [--check]  demo on clean and changed scratch copy, and (with --check) the property's check
   Works on scratch copies under /tmp only; /repo is never touched."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = V + "/seeded"
def copy():
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    subprocess.run("git -C /repo archive HEAD | tar x -C %s" % d, shell=True, check=True)
    subprocess.run("cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % d, shell=True, check=True)
    return d
def new(id, spec):
    s = json.load(open(spec)) if isinstance(spec, str) else spec
    d = copy()
    try:
        for f, old, new_ in s["edits"]:
            t = open(d + "/" + f).read()
            if t.count(old) != 1: raise SystemExit("%s: %d matches of %r in %s" % (id, t.count(old), old[:60], f))
            open(d + "/" + f, "w").write(t.replace(old, new_))
        p = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(d)
    o = SEEDED + "/" + id
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(p)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(o + "/meta.json", "w"), indent=1)
    open(o + "/demo.cpp", "w").write(s["demo"])
    cxx = s.get("cxx", "")
    src = " ".join('"$PWD"/' + x for x in s.get("src", []))
    inc = ""
    if s.get("shim"):
        inc = '-I"$D/shim"'
        shutil.rmtree(o + "/shim", ignore_errors=True)
        shutil.copytree(V + "/shim/include", o + "/shim")
    open(o + "/demo.sh", "w").write(f'''#!/bin/bash
# exit 0 when the behaviour is right; run with cwd = the repository
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -g -w -pthread {cxx} {inc} -I"$PWD/include" -I"$PWD/src" "$D/demo.cpp" {src} {s.get("libs","")} -o "$T/demo" || exit 3
cd "$T" && timeout 250 ./demo
''')
    os.chmod(o + "/demo.sh", 0o755)
def test(ids, check):
    clean = copy()
    bad = 0
    for id in ids or sorted(os.listdir(SEEDED)):
        o = SEEDED + "/" + id
        m = json.load(open(o + "/meta.json"))
        d = copy()
        try:
            r0 = subprocess.run(["bash", o + "/demo.sh"], cwd=clean, capture_output=True, text=True)
            a = subprocess.run(["git", "apply", o + "/patch.diff"], cwd=d, capture_output=True, text=True)
            if a.returncode: print(id, "PATCH FAILS", a.stderr); bad = 1; continue
            r1 = subprocess.run(["bash", o + "/demo.sh"], cwd=d, capture_output=True, text=True)
            line = "%-28s %s demo clean=%d changed=%d" % (id, m["property"], r0.returncode, r1.returncode)
            if r0.returncode or not r1.returncode or r1.returncode == 3:
                line += "  BAD DEMO\n" + r0.stdout[-500:] + r0.stderr[-1500:] + r1.stdout[-500:] + r1.stderr[-500:]
                bad = 1
            if check:
                t = time.time()
                e = dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_EVIDENCE="/tmp")
                c = subprocess.run([V + "/bin/check", m["property"], "quick"], env=e, capture_output=True, text=True)
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                line += "  check=%d %.0fs %s" % (c.returncode, time.time() - t, "CAUGHT" if c.returncode == 1 and v else "MISSED " + c.stdout[-600:])
                if v:
                    rp = v[0].split("replay=")[1].split()[0]
                    line += " [" + open(rp).read().split("expect class=")[1].split()[0] + "]"
                    os.remove(rp)
            print(line, flush=True)
        finally:
            shutil.rmtree(d)
    shutil.rmtree(clean)
    return bad
if __name__ == "__main__":
    if sys.argv[1] == "new": new(sys.argv[2], sys.argv[3])
    else: sys.exit(test([a for a in sys.argv[2:] if not a.startswith("-")], "--check" in sys.argv))

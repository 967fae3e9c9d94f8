#!/usr/bin/env python3
"""mkseed.py FILE.py...: each defines ID, PROP, EDITS [(file, old, new)], DEMO (go source) or DEMOSH, NEEDS, BREAKS. Creates /verif/seeded/ID after confirming."""
import sys, os, subprocess, shutil, json, runpy
DEMOSH_GO = '''#!/bin/bash
# Runs main.go (beside this file) against the library in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp "$here/main.go.txt" "$work/main.go"
sed "s#^module .*#module demo#" "$repo/go.mod" > "$work/go.mod"
echo "require github.com/andygello555/json-dom v0.0.0" >> "$work/go.mod"
echo "replace github.com/andygello555/json-dom => $repo" >> "$work/go.mod"
cp "$repo/go.sum" "$work/go.sum"
cd "$work" && GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB=* GOWORK=off GOTOOLCHAIN=local go build %s-o demo . || { echo "does not build"; exit 3; }
timeout 120 ./demo
'''
DEMOSH_CLI = '''#!/bin/bash
# Builds the command line application in the current directory and tries it on scratch files.
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local go build -o "$work/json-dom" . || exit 3
cd "$work"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def base_lines(f):
    out = sh("git -C /repo blame -s %s" % f).stdout.splitlines()
    return {i + 1 for i, l in enumerate(out) if "2489b35" in l.split(" ")[0]}
for name in sys.argv[1:]:
    m = runpy.run_path(name)
    sid = m["ID"]
    w = "/tmp/seedwork"
    shutil.rmtree(w, ignore_errors=True)
    sh("cp -a /repo %s" % w)
    ok = True
    for f, old, new in m["EDITS"]:
        t = open(w + "/" + f).read()
        if t.count(old) != 1: print(sid, "EDIT MATCHES", t.count(old), f, repr(old[:60])); ok = False; continue
        open(w + "/" + f, "w").write(t.replace(old, new))
    if not ok: continue
    diff = sh("git -C %s diff -U3" % w).stdout
    # changed lines are original
    import re
    cur, bl, bad = None, None, 0
    for l in sh("git -C %s diff -U0" % w).stdout.splitlines():
        if l.startswith("--- a/"): bl = base_lines(l[6:])
        h = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if h: ln = int(h.group(1))
        elif l.startswith("-") and not l.startswith("---"):
            if ln not in bl: print(sid, "  NOT BASE:", l); bad += 1
            ln += 1
    r = sh("cd %s && GOFLAGS=-mod=mod GOPROXY=off go build ./... && go vet ./jom/... ./code/... . 2>&1 | head -5" % w)
    if r.returncode: print(sid, "BUILD FAILS", r.stderr, r.stdout); continue
    d = "/verif/seeded/" + sid
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    if "CLI" in m: open(d + "/demo.sh", "w").write(DEMOSH_CLI + m["CLI"])
    else:
        open(d + "/demo.sh", "w").write(DEMOSH_GO % ("-race " if m.get("RACE") else ""))
        open(d + "/main.go.txt", "w").write(m["DEMO"])
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": m["PROP"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    r0 = sh("cd /repo && bash %s/demo.sh" % d)
    r1 = sh("cd %s && bash %s/demo.sh" % (w, d))
    # tests: apply in /repo
    sh("git -C /repo apply %s/patch.diff" % d)
    t = sh("bash /tmp/rt.sh").stdout
    sh("git -C /repo checkout -- .")
    good = r0.returncode == 0 and r1.returncode != 0 and "does not build" not in r1.stdout and "missing: []" in t and not bad
    print(sid, "OK" if good else "NOT OK", "clean rc", r0.returncode, "patched rc", r1.returncode, [x for x in t.splitlines() if "missing" in x])
    if not good or "-v" in os.environ.get("V", ""): print(r0.stdout[-600:], r0.stderr[-600:], "----", r1.stdout[-600:], r1.stderr[-600:], t[-500:])
    else: print("    ", (r1.stdout + r1.stderr).strip()[-200:].replace("\n", " | "))
shutil.rmtree("/tmp/seedwork", ignore_errors=True)

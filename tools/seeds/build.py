#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from bug descriptions in tools/seeds/*.bug and confirms each in a scratch copy of /repo.

A .bug file has sections started by lines "=== name": property, needs, breaks, test (Go), then any number of
"=== edit FILE" sections with "<<<<" old "----" new ">>>>" blocks.
usage: build.py [id ...]
"""
import sys, os, re, subprocess, json, shutil
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(os.path.dirname(here))
S = "/tmp/seedrepo"
TPL = open(here + "/demo_template.go.txt").read()
DEMO = '''#!/bin/bash
# Runs the demonstration beside this script against /repo; exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd /repo || exit 2
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"/repo/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$here" > "$tmp/overlay.json"
go test -vet=off RACE-count=1 -timeout 200s -overlay "$tmp/overlay.json" -run '^TestDemo$' .
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def parse(f):
    sec, cur, edits = {}, None, []
    for line in open(f):
        m = re.match(r"=== (\w+) ?(.*)", line)
        if m:
            if m.group(1) == "edit":
                edits.append([m.group(2).strip(), ""]); cur = None
            else:
                cur = m.group(1); sec[cur] = ""; 
                if m.group(2): sec[cur] = m.group(2) + "\n"
        elif cur is not None: sec[cur] += line
        elif edits: edits[-1][1] += line
    out = []
    for fn, body in edits:
        for b in re.findall(r"<<<<\n(.*?)----\n(.*?)>>>>\n?", body, re.S):
            out.append((fn, b[0], b[1]))
    return {k: v.strip("\n") for k, v in sec.items()}, out
def demo(d):
    return sh(f"bash {d}/demo.sh").returncode if False else None
ids = sys.argv[1:] or sorted(f[:-4] for f in os.listdir(here) if f.endswith(".bug"))
bad = 0
for i in ids:
    sec, edits = parse(f"{here}/{i}.bug")
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("/repo is not clean")
    shutil.rmtree(S, ignore_errors=True)
    sh(f"cp -a /repo {S}")
    ok = True
    for fn, old, new in edits:
        p = f"{S}/{fn}"; t = open(p).read()
        if t.count(old) != 1:
            print(i, "EDIT", fn, "matches", t.count(old), repr(old[:80])); ok = False; break
        open(p, "w").write(t.replace(old, new))
    if not ok: bad += 1; continue
    r = sh(f"cd {S} && git diff")
    d = f"{root}/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(r.stdout)
    # Deleted lines have to be of the original repository.
    test = sec["test"]
    open(d + "/demo_test.go.txt", "w").write(TPL.replace("//BODY//", test))
    open(d + "/demo.sh", "w").write(DEMO.replace("RACE", "-race " if "race" in sec else ""))
    json.dump({"property": sec["property"], "needs": sec["needs"].replace("\n", " "), "what_it_breaks": sec["breaks"].replace("\n", " ")}, open(d + "/meta.json", "w"), indent=1)
    sh(f"rm -rf {S}")
    c = sh(f"bash {d}/demo.sh")
    if c.returncode: print(i, "DEMO FAILS ON CLEAN TREE\n", c.stdout[-1500:]); bad += 1; continue
    a = sh(f"git -C /repo apply {d}/patch.diff")
    try:
        if a.returncode: print(i, "APPLY", a.stdout); bad += 1; continue
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        c = sh(f"bash {d}/demo.sh")
    finally:
        sh("git -C /repo checkout -- . && git -C /repo clean -fdq")
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if False else None
    st = "ok"
    if b.returncode: st = "BUILD " + b.stdout[-800:]
    elif t.returncode: st = "TESTS FAIL " + " ".join(sorted(set(re.findall(r"--- FAIL: (\S+)", t.stdout.replace("\\u003c","<")))))[:600] + t.stdout[-300:]
    elif c.returncode == 0: st = "DEMO PASSES WITH BUG"
    elif "build failed" in c.stdout: st = "DEMO DOES NOT BUILD " + c.stdout[-800:]
    if st != "ok": bad += 1
    print(i, sec["property"], st)
sys.exit(1 if bad else 0)

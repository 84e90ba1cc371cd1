#!/usr/bin/env python3
"""again.py IN.jsonl OUT.jsonl WORKERS CHECK...: the mutants IN calls MISSED, carried over to /repo's current tree, against the
given checks at full quick depth with the current harness (or $HARNESS)."""
import sys, os, json, subprocess, threading, queue, shutil
inp, out, workers, checks = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4:]
env = dict(os.environ)
e = subprocess.run("bash -c '. /opt/vp/env.sh; env'", shell=True, stdout=subprocess.PIPE, text=True).stdout
env.update(dict(l.split("=", 1) for l in e.splitlines() if "=" in l)); env["VERIF_SEED"] = "1"
done = {}
if os.path.exists(out):
    for l in open(out):
        r = json.loads(l); done[(r["file"], r["i"], r["what"])] = 1
q = queue.Queue()
for l in open(inp):
    r = json.loads(l)
    if r["res"] == "MISSED" and (r["file"], r["i"], r["what"]) not in done: q.put(r)
print(q.qsize(), flush=True)
lock = threading.Lock()
def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, errors="replace", **k)
def work(w):
    d = f"/tmp/mut/again{w}"; shutil.rmtree(d, ignore_errors=True)
    for s in ("bin", "evidence", "replay"): os.makedirs(f"{d}/{s}")
    shutil.copy("/verif/known_findings.json", d)
    while True:
        try: r = q.get_nowait()
        except queue.Empty: return
        f = r["file"]
        run(["/tmp/mutate", "/tmp/mutrepo/" + f, str(r["i"]), d + "/m.go"])
        run(f"gofmt -w {d}/m.go; diff -u /tmp/mutrepo/{f} {d}/m.go > {d}/p; cp /repo/{f} {d}/n.go; patch -s {d}/n.go {d}/p", shell=True)
        if open(d + "/n.go").read() == open("/repo/" + f).read():
            res, by = "nopatch", []
        else:
            json.dump({"Replace": {"/repo/" + f: d + "/n.go"}}, open(d + "/ov.json", "w"))
            b = run(["go", "build", "-overlay", d + "/ov.json", "-o", d + "/bin/check", "./cmd/check"], cwd=os.environ.get("HARNESS", "/verif/harness"))
            by = []; res = "nobuild"
            if b.returncode == 0:
                res = "MISSED"
                for c in checks:
                    try: p = run([d + "/bin/check", "-prop", c, "-root", d, "-tier", "quick"], timeout=300)
                    except subprocess.TimeoutExpired: by.append(c + "(timeout)"); continue
                    if p.returncode not in (0, 3): by.append(c); res = "caught"; break
        with lock:
            r.update(res=res, by=by); open(out, "a").write(json.dumps(r) + "\n")
            if res != "caught": print(res, f, r["i"], r["line"], r["what"], flush=True)
ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]

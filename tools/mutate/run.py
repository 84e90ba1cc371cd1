#!/usr/bin/env python3
"""Mutation campaign: run.py OUT.jsonl WORKERS FILE[:every[:offset]] ... (files of /repo, in order).

For each single-place change that compiles and passes the tests, runs the checks (first those named for the file) until
one reports a violation. Uses go's -overlay: /repo itself is not touched. Resumes: mutants in OUT.jsonl are skipped.
ALLCHECKS=1 runs every check for each (kill matrix)."""
import sys, os, json, subprocess, threading, queue, shutil, time, re
out, workers, files = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
CH = {i: "C%02d" % i for i in range(1, 24)}
ORDER = {
 "internal/json_schema.go": [7,8,9,14,6,21,18,15,20,23,16],
 "internal/operation_context.go": [23,17,18,7,8,9,16],
 "internal/yaml.go": [4,20,5,1,2,3],
 "openapi31/reflect.go": [7,8,9,23,10,6,15,14,18,21,20,17],
 "openapi3/reflect.go": [7,8,9,23,10,6,16,15,14,18,21,20,17],
 "reflect_deprecated.go": [16,18,10],
 "walk_schema.go": [14,20,13],
 "openapi3/helper.go": [17,10,7,9,8,22,5,3,16,6],
 "openapi31/helper.go": [17,10,7,9,8,22,5,3,23,6],
 "jsonschema.go": [12,13,14,15,20],
 "yaml.go": [4,5,20],
 "operation.go": [11,10,8,9,23,7,17,16,20],
 "entities.go": [3,22,5,1,2,4,17],
}
N = {1: 1500, 2: 1500, 3: 500, 4: 500, 5: 4000, 11: 1000, 12: 1200, 13: 800, 10: 500, 17: 600, 20: 150, 21: 200, 15: 250, 6: 250}
env = dict(os.environ)
e = subprocess.run("bash -c '. /opt/vp/env.sh; env'", shell=True, stdout=subprocess.PIPE, text=True).stdout
env.update(dict(l.split("=", 1) for l in e.splitlines() if "=" in l))
env["VERIF_SEED"] = os.environ.get("VERIF_SEED", "1")
done = set()
if os.path.exists(out):
    for l in open(out):
        r = json.loads(l); done.add((r["file"], r["i"], r["what"]))
q = queue.Queue()
for spec in files:
    p = spec.split(":"); f = p[0]
    every = int(p[1]) if len(p) > 1 else 1; off = int(p[2]) if len(p) > 2 else 0
    for l in subprocess.run(["/tmp/mutate", "/tmp/mutrepo/" + f], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        i, line, what = l.split("\t", 2)
        if int(i) % every == off and (f, int(i), what) not in done: q.put((f, int(i), int(line), what))
print(q.qsize(), "mutants", flush=True)
lock = threading.Lock(); stat = {}
def sh(cmd, timeout, **k):
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, start_new_session=True, **k)
        o, _ = p.communicate(timeout=timeout); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return 124, ""
def work(w):
    d = f"/tmp/mut/w{w}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/bin"); os.makedirs(d + "/evidence"); os.makedirs(d + "/replay")
    shutil.copy("/verif/known_findings.json", d)
    while True:
        try: f, i, line, what = q.get_nowait()
        except queue.Empty: return
        m = f"{d}/m.go"
        subprocess.run(["/tmp/mutate", "/tmp/mutrepo/" + f, str(i), m], check=True)
        json.dump({"Replace": {"/tmp/mutrepo/" + f: m}}, open(d + "/ov.json", "w"))
        t0 = time.time(); res = None; by = []
        rc, o = sh(["go", "build", "-overlay", d + "/ov.json", "-o", d + "/bin/check", "./cmd/check"], 300, cwd=os.environ.get("HARNESS", "/verif/harness"))
        if rc: res = "nobuild"
        else:
            rc, o = sh(["go", "test", "-vet=off", "-count=1", "-timeout", "60s", "-failfast", "-overlay", d + "/ov.json", "./..."], 200, cwd="/tmp/mutrepo")
            if rc: res = "tests"
        if not res:
            o = ORDER.get(f) or ORDER.get(os.path.basename(f)) or []
            order = o
            for c in order:
                rc, o = sh([d + "/bin/check", "-prop", CH[c], "-root", d, "-tier", "quick", "-n", str(N.get(c, 300))], 150)
                if rc == 1 and "VIOLATION property=" + CH[c] in o: by.append(CH[c])
                elif rc not in (0, 3): by.append(CH[c] + "(rc=%d)" % rc)
                if by and not os.environ.get("ALLCHECKS"): break
            res = "caught" if by else "MISSED"
        with lock:
            stat[res] = stat.get(res, 0) + 1
            with open(out, "a") as fh: fh.write(json.dumps({"file": f, "i": i, "line": line, "what": what, "res": res, "by": by, "t": round(time.time() - t0, 1)}) + "\n")
            if res == "MISSED": print("MISSED", f, i, line, what, round(time.time() - t0), flush=True)
            n = sum(stat.values())
            if n % 25 == 0: print(n, stat, flush=True)
ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
print("end", stat, flush=True)

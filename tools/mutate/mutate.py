#!/usr/bin/env python3
"""mutate.py OUT.jsonl [file...]: every mechanical mutant of the files (of /repo) against the quick checks of the properties anchored there;
the first violation kills. Survivors are written to OUT.jsonl. Works on scratch copies of /repo and /verif/mc. env: J (parallel), EVERY (sample), ALL=1 (all checks)."""
import sys, os, json, subprocess, shutil, signal, tempfile, threading, queue
out = sys.argv[1]; J = int(os.environ.get("J", "4"))
W = {"C01":23,"C02":17,"C03":2,"C04":30,"C05":17,"C06":6,"C07":3,"C08":2,"C09":41,"C10":5,"C11":31,"C12":15,"C13":48,"C14":9,"C17":9,"C18":7,"C19":32,"C20":13,"C21":1.5,"C22":0.5,"C23":6,"C24":32,"C25":3}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
extra = {"functions/": ["C21"], "keys/": ["C12","C21"], "parser/": ["C01","C02","C03","C05","C08","C20"], "est/op/": ["C20","C11","C12","C25","C19","C10"], "est/state.go": ["C14"], "ast/": ["C05","C06"], "est/stmt/": ["C25","C06"], "planner.go": ["C24","C17","C20","C25"], "est/type.go": ["C24"], "stmt.go": ["C07","C08"]}
def checks(f):
    if os.environ.get("ALL"): return sorted(W, key=lambda c: W[c])
    s = {p["id"] for p in props if f in p["anchors"]["files"]}
    for k, v in extra.items():
        if f.startswith(k): s |= set(v)
    if not s: s = set("C25 C06 C08 C03 C20 C10".split())
    return sorted((c for c in s if c in W), key=lambda c: W[c])
files = sys.argv[2:]
subprocess.run([". /verif/env.sh; cd /verif/tools/mutate && go build -o /tmp/mutate ."], shell=True, check=True, executable="/bin/bash")
muts = [json.loads(l) for l in subprocess.run(["/tmp/mutate"] + files, cwd="/repo", stdout=subprocess.PIPE, check=True, text=True).stdout.splitlines()]
every = int(os.environ.get("EVERY", "1")); muts = muts[::every]
if os.environ.get("SURV"): muts = [json.loads(l) for l in open(os.environ["SURV"])]
q = queue.Queue()
for m in muts: q.put(m)
lock = threading.Lock(); n = {"built": 0, "killed": 0, "survived": 0, "nobuild": 0}
def run(cmd, cwd, env, limit):
    p = subprocess.Popen(["bash", "-c", ". /verif/env.sh; ulimit -v 24000000; " + cmd], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, errors="replace")
    try: o, _ = p.communicate(timeout=limit); rc = p.returncode
    except subprocess.TimeoutExpired: o, rc = "timeout", 99
    try: os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError: pass
    p.wait()
    return rc, o
def work():
    tmp = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    subprocess.run("cp -a /repo %s/repo; mkdir -p %s/v/evidence; cp -a /verif/mc /verif/known_findings.jsonl %s/v/; sed -i 's#=> /repo#=> %s/repo#' %s/v/mc/go.mod" % ((tmp,)*5), shell=True)
    env = dict(os.environ, MC_ROOT=tmp + "/v", MC_FIRST="1", MC_NOEVIDENCE="1", MC_WORKERS=os.environ.get("MC_WORKERS", "2"), TMPDIR=tmp, VERIF_TIER="quick")
    try:
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            p = tmp + "/repo/" + m["File"]; src = open(p, "rb").read()
            open(p, "wb").write(src[:m["Start"]] + m["Text"].encode() + src[m["End"]:])
            try:
                rc, o = run("go vet ./%s >/dev/null 2>&1; go build -o %s/mcbin ./cmd/mc" % ("x", tmp), tmp + "/v/mc", env, 300)
                if rc:
                    with lock: n["nobuild"] += 1
                    continue
                with lock: n["built"] += 1
                killed = None
                for c in checks(m["File"]):
                    rc, o = run("%s/mcbin check %s" % (tmp, c), tmp, env, 180)
                    if rc: killed = c; break
                with lock:
                    n["killed" if killed else "survived"] += 1
                    if not killed:
                        m["Source"] = src[:m["Start"]].decode().count("\n") and src.decode().split("\n")[m["Line"]-1].strip()
                        open(out, "a").write(json.dumps(m) + "\n")
                    if n["built"] % 50 == 0: print(n, q.qsize(), flush=True)
            finally: open(p, "wb").write(src)
    finally: shutil.rmtree(tmp, ignore_errors=True)
ts = [threading.Thread(target=work) for _ in range(J)]
[t.start() for t in ts]; [t.join() for t in ts]
print("done", n)

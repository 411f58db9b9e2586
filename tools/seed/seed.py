#!/usr/bin/env python3
"""seed.py [ID...]: (re)creates /verif/seeded/<id> from bugs/*.py and validates each in a scratch copy:
applies, builds, passes the stable tests, demo passes before and fails after; then runs the property's check."""
import os, sys, json, subprocess, shutil, glob, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__)); verif = os.path.abspath(here + "/../..")
BUGS = []
def bug(id, property, edits, needs, breaks, demo, imports=(), extra="", race=False):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, imports=imports, extra=extra, race=race))
for f in sorted(glob.glob(here + "/bugs/*.py")): exec(open(f).read())
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def sh(cmd, **k): return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tests(wt, tmp):
    s = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + wt)
    open(tmp + "/test.sh", "w").write(s)
    sh("bash %s/test.sh %s/out.json" % (tmp, tmp))
    try: r = json.load(open(tmp + "/out.json"))
    except Exception as e: return "no results %r" % e
    passed = set(r.get("passed", []))
    miss = [t for t in stable if t not in passed]
    return miss
def one(b, check):
    tmp = tempfile.mkdtemp(prefix="seed.", dir="/tmp"); out = [b["id"]]
    try:
        wt = tmp + "/repo"; sh("cp -a /repo %s" % wt)
        d = verif + "/seeded/" + b["id"]; os.makedirs(d, exist_ok=True)
        imps = ["testing", "github.com/viant/velty", "github.com/viant/velty/est"] + list(b["imports"])
        std = sorted(i for i in imps if "." not in i.split("/")[0]); ext = sorted(i for i in imps if "." in i.split("/")[0])
        src = "package velty_test\n\nimport (\n" + "".join('\t"%s"\n' % i for i in std) + "\n" + "".join('\t"%s"\n' % i for i in ext) + ")\n\n" + open(here + "/helpers.go.txt").read() + "\n" + b["extra"] + "\nfunc TestDemo(t *testing.T) {\n" + b["demo"].strip("\n") + "\n}\n"
        src = sh("gofmt", input=src).stdout or src
        open(d + "/demo_test.go", "w").write(src)
        script = open(here + "/demo.sh").read()
        open(d + "/demo.sh", "w").write(script.replace("go test ", "CGO_ENABLED=1 go test -race ").replace("timeout 200 CGO_ENABLED=1", "CGO_ENABLED=1 timeout 200") if b["race"] else script); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh("cd %s && bash %s/demo.sh" % (wt, d))
        if r.returncode: out.append("DEMO FAILS CLEAN: " + r.stdout[:1500])
        for file, old, new in b["edits"]:
            p = wt + "/" + file; s = open(p).read()
            if callable(old): r = old(s)
            elif s.count(old) != 1: out.append("EDIT %s matches %d: %r" % (file, s.count(old), old[:60])); return out
            else: r = s.replace(old, new)
            if r == s: out.append("EDIT %s changes nothing" % file); return out
            open(p, "w").write(r)
        root = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.split()[0]
        lines = set()
        for file, _, _ in b["edits"]: lines |= set(sh("git -C /repo show %s:%s" % (root, file)).stdout.splitlines())
        for l in sh("cd %s && git diff -U0" % wt).stdout.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in lines: out.append("NOT ORIGINAL: " + l[:80])
        r = sh("cd %s && gofmt -l . ; git diff" % wt); diff = sh("cd %s && git diff" % wt).stdout
        open(d + "/patch.diff", "w").write(diff)
        r = sh(". /verif/env.sh; cd %s && go build ./... && go vet ./est/... 2>/dev/null; go build ./..." % wt)
        if r.returncode: out.append("BUILD: " + r.stdout[:800]); return out
        miss = tests(wt, tmp)
        if miss: out.append("STABLE TESTS FAIL: %s" % miss)
        r = sh("cd %s && bash %s/demo.sh" % (wt, d))
        out.append("demo fails with patch: ok" if r.returncode else "DEMO PASSES WITH PATCH")
        if check:
            v = tmp + "/verif"; os.makedirs(v)
            sh("cp -a /verif/mc /verif/run.sh /verif/env.sh /verif/known_findings.jsonl %s/ ; mkdir %s/evidence; sed -i 's#=> /repo#=> %s#' %s/mc/go.mod" % (v, v, wt, v))
            for c in (check if isinstance(check, list) else [b["property"]]):
                r = sh("cd %s && VERIF_SEED=1 VERIF_TIER=%s bash run.sh %s" % (v, os.environ.get("TIER", "quick"), c))
                line = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                out.append("%s %s rc=%d %s" % (c, "CAUGHT" if r.returncode == 1 and line else "MISSED", r.returncode, (line or [r.stdout[-200:]])[0][:150]))
        return out
    finally: shutil.rmtree(tmp)
ids = [a for a in sys.argv[1:] if not a.startswith("-")]
sel = [b for b in BUGS if not ids or any(b["id"].startswith(i) for i in ids)]
check = "-n" not in sys.argv
with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
    for o in ex.map(lambda b: one(b, check), sel): print(" | ".join(o), flush=True)

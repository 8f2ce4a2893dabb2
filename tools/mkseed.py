#!/usr/bin/env python3
"""mkseed.py DEFS.py [ID...]: make /verif/seeded/<id>/ from definitions of planted bugs.

DEFS.py defines `bugs`, a list of dicts: id, property, edits [(file, old, new)], needs,
breaks, cases (text for demo_ddl.go) or demo (directory with demo.sh and its files).
Each is confirmed in a scratch clone: it builds, the stable tests pass, the demo
passes without it and fails with it.  Then the property's check runs against it.
"""
import json, os, shutil, subprocess, sys
V = "/verif"; SCR = os.environ.get("SCRATCH", "/tmp/zzseed")
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOPATH="/root/go",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"])

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **k.pop("env", {})), shell=isinstance(cmd, str), capture_output=True, text=True, errors="replace", **k)

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    shutil.rmtree(SCR, ignore_errors=True)
    sh(["git", "clone", "-q", "/repo", SCR], "/")
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for b in ns["bugs"]:
        if only and b["id"] not in only:
            continue
        sh("git checkout -q -- . && git clean -qfd", SCR)
        d = f"{V}/seeded/{b['id']}"
        if os.path.exists(d):
            shutil.rmtree(d)
        os.makedirs(d)
        if "cases" in b:
            shutil.copy(V + "/tools/demo_ddl.go", d + "/demo.go")
            shutil.copy(V + "/tools/demo_ddl.sh", d + "/demo.sh")
            open(d + "/cases.txt", "w").write(b["cases"].strip("\n") + "\n")
            open(d + "/want.txt", "w").write("")
            r = sh(["bash", d + "/demo.sh"], SCR)
            got = "\n".join(l[1:] for l in r.stdout.splitlines() if l.startswith("+") and not l.startswith("+++"))
            open(d + "/want.txt", "w").write(got + "\n")
            if os.environ.get("SHOWWANT"):
                print(got)
        elif "steps" in b:
            shutil.copy(V + "/tools/demo_driver.go", d + "/driver.go")
            shutil.copy(V + "/tools/demo_cli.sh", d + "/demo.sh")
            open(d + "/steps.sh", "w").write(b["steps"].strip("\n") + "\n")
            for n, t in b.get("files", {}).items():
                os.makedirs(os.path.dirname(f"{d}/files/{n}"), exist_ok=True)
                open(f"{d}/files/{n}", "w").write(t)
            open(d + "/want.txt", "w").write("")
            r = sh(["bash", d + "/demo.sh"], SCR)
            got = "\n".join(l[1:] for l in r.stdout.splitlines() if l.startswith("+") and not l.startswith("+++"))
            open(d + "/want.txt", "w").write(got + "\n" if got else "")
            if os.environ.get("SHOWWANT"):
                print(got)
        else:
            shutil.copytree(b["demo"], d, dirs_exist_ok=True)
        def bad(msg, out=""):
            print(f"{b['id']}: {msg}\n{out[-1500:]}")
            shutil.rmtree(d)
        r = sh(["bash", d + "/demo.sh"], SCR)
        if r.returncode != 0:
            bad("demo fails on the unchanged tree", r.stdout + r.stderr); continue
        ok = True
        for f, old, new in b["edits"]:
            s = open(f"{SCR}/{f}").read()
            if s.count(old) != 1:
                bad(f"{f}: {s.count(old)} places"); ok = False; break
            open(f"{SCR}/{f}", "w").write(s.replace(old, new))
        if not ok:
            continue
        r = sh("go build ./...", SCR)
        if r.returncode:
            bad("does not build", r.stderr); continue
        diff = sh(["git", "diff"], SCR).stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh(["bash", d + "/demo.sh"], SCR)
        if r.returncode == 0:
            bad("demo passes with the bug"); continue
        demo = r.stdout[-500:]
        r = sh("go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/zzseed.test.json; python3 /opt/vp/results.py /tmp/zzseed.out.json gojson:/tmp/zzseed.test.json", SCR)
        passed = set(json.load(open("/tmp/zzseed.out.json"))["passed"])
        if base - passed:
            bad("tests fail: " + str(sorted(base - passed)[:5])); continue
        props = b.get("try", [b["property"]])
        res = []
        for p in props:
            r = sh(["bash", V + "/run.sh", p, "quick"], V, env={"ZZ_REPO": SCR, "VERIF_SEED": "1"})
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res.append(f"{p}: rc {r.returncode} {v[:1]}" + (r.stdout[-800:] if r.returncode not in (0, 1) else ""))
        print(f"{b['id']}: ok; {'; '.join(res)}", flush=True)
        if os.environ.get("SHOWDEMO"):
            print(demo)
    shutil.rmtree(SCR, ignore_errors=True)

main()

#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decide one property on /repo's working tree.

Builds the harness (overlay, nothing is written to /repo), replays the recorded
findings and regressions, then searches in parallel shards.  Exit 0: held.
Exit 1: VIOLATION line.  Exit 2: no verdict (error of the check).
"""
import glob, json, os, re, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ZZ_REPO", "/repo")
SHARDS = 8
LEVEL = "exploration"


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith("ZZ_")}
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             PATH="/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    return e


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


DRIVERS = re.compile(r'(?m)^(\s*(?:import\s+)?_\s+)"(github\.com/go-sql-driver/mysql|github\.com/lib/pq|github\.com/googleapis/go-sql-spanner)"')


def build(work):
    rep = {}
    # the drivers of the real databases give way to one that calls the harness
    for f in glob.glob(REPO + "/pkg/**/*.go", recursive=True) + glob.glob(REPO + "/cmd/**/*.go", recursive=True):
        if f.endswith("_test.go"):
            continue
        src = open(f, errors="surrogateescape").read()
        new = DRIVERS.sub(r'\1"github.com/kunitsucom/ddlctl/pkg/zzverif/zzdriver"', src)
        if new != src:
            g = f"{work}/ov{len(rep)}_" + os.path.basename(f)
            open(g, "w", errors="surrogateescape").write(new)
            rep[f] = g
    for f in glob.glob(VERIF + "/harness/*.go"):
        rep[f"{REPO}/pkg/zzverif/" + os.path.basename(f)] = f
    for f in glob.glob(VERIF + "/third_party/rapid/*.go"):
        rep[f"{REPO}/pkg/zzverif/rapid/" + os.path.basename(f)] = f
    rep[f"{REPO}/pkg/zzverif/zzdriver/driver.go"] = VERIF + "/harness/zzdriver/driver.go"
    ov = work + "/overlay.json"
    with open(ov, "w") as h:
        json.dump({"Replace": rep}, h)
    procs = [(out, subprocess.Popen(["go"] + args + ["-overlay", ov, "-o", out, pkg], cwd=REPO, env=env(),
                                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
             for args, out, pkg in ((["test", "-c", "-vet=off"], work + "/zz.bin", "./pkg/zzverif"), (["build"], work + "/zz.cli", "./cmd/ddlctl"))]
    for out, p in procs:
        o, _ = p.communicate()
        if p.returncode != 0 or not os.path.exists(out):
            die("build failed\n" + o[-6000:])
    return work + "/zz.bin"


def henv(binary, **kw):
    e = env()
    e.update(ZZ_CLI=os.path.dirname(binary) + "/zz.cli", ZZ_CATALOG=VERIF + "/harness/catalog.py", **kw)
    return e


FATAL = re.compile(r"^(fatal error: |runtime: goroutine stack exceeds|panic: |SIG\w+: )", re.M)


def tool_crash(stderr):
    """Whether a dead process died inside the code under test."""
    m = FATAL.search(stderr)
    if not m:
        return None
    frames = [l for l in stderr[m.start():].splitlines() if "kunitsucom/ddlctl/" in l and not l.startswith("\t")]
    if frames and "/pkg/zzverif" not in frames[0]:
        return stderr[m.start():].splitlines()[0]
    return None


def replay(binary, path, work):
    """-> (failed?, message); dies without a verdict on an error of the harness."""
    d = tempfile.mkdtemp(dir=work)
    e = henv(binary, ZZ_REPLAY=path, ZZ_OUT=d)
    r = subprocess.run([binary, "-test.run", "^TestReplay$", "-test.timeout", "0"], cwd=d, env=e, capture_output=True, text=True, errors="replace")
    shutil.rmtree(d, ignore_errors=True)
    for l in r.stdout.splitlines():
        if l.startswith("REPLAY-FAIL"):
            return True, r.stdout[r.stdout.index("REPLAY-FAIL") + 12:].strip()
        if l.startswith("REPLAY-PASS"):
            return False, ""
    c = tool_crash(r.stderr)
    if c:
        return True, "the process died: " + c
    die(f"replay of {path} gave no verdict\n{r.stdout[-2000:]}\n{r.stderr[-3000:]}")


def main():
    prop = sys.argv[1]
    if prop == "--build":
        work = tempfile.mkdtemp(prefix="zzverif.")
        try:
            build(work)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        die("tier?")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="zzverif.")
    try:
        rc = check(prop, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(prop, tier, seed, work, t0):
    binary = build(work)
    repdir = f"{VERIF}/evidence/replays"
    os.makedirs(repdir, exist_ok=True)
    for f in glob.glob(f"{repdir}/{prop}.*"):
        os.remove(f)
    violations = []  # (replay path, message)
    known_lines, regress = [], 0
    kf = json.load(open(VERIF + "/known_findings.json"))
    for k in kf["findings"]:
        if k["property"] != prop:
            continue
        failed, msg = replay(binary, os.path.join(VERIF, k["input"]), work)
        if failed:
            known_lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
    for k in kf["fixed"]:
        if k["property"] != prop or not k.get("input"):
            continue
        regress += 1
        failed, msg = replay(binary, os.path.join(VERIF, k["input"]), work)
        if failed:
            p = f"{repdir}/{prop}.regression.{os.path.basename(k['input'])}"
            shutil.copy(os.path.join(VERIF, k["input"]), p)
            violations.append((p, "fixed defect is back: " + msg))
    out = work + "/out"
    os.makedirs(out)
    procs = []
    for sh in range(SHARDS):
        cwd = f"{work}/cwd{sh}"
        os.makedirs(cwd)
        e = henv(binary, ZZ_PROP=prop, ZZ_SEED=str(seed), ZZ_TIER=tier, ZZ_SHARD=str(sh), ZZ_SHARDS=str(SHARDS), ZZ_OUT=out, TMPDIR=cwd)
        for k in ("ZZ_SCALE", "ZZ_SUB"):
            if k in os.environ:
                e[k] = os.environ[k]
        procs.append((sh, subprocess.Popen([binary, "-test.run", "^TestProp$", "-test.timeout", "0"], cwd=cwd, env=e,
                                           stdout=open(f"{out}/log.{sh}", "w"), stderr=open(f"{out}/err.{sh}", "w"))))
    errors = []
    for sh, p in procs:
        try:
            p.wait(None if tier != "quick" else max(1, 780 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        if p.returncode in (0, 1) and os.path.exists(f"{out}/stats.{sh}.json"):
            continue
        err = open(f"{out}/err.{sh}", errors="replace").read()
        cur = f"{out}/current.{sh}.json"
        crash = tool_crash(err)
        if crash and os.path.exists(cur):
            dst = f"{repdir}/{prop}.crash.{sh}.json"
            raw = open(cur, "rb").read().split(b"\0", 1)[0]
            with open(dst, "wb") as h:
                h.write(b'{"input":' + raw + b'}')
            failed, msg = replay(binary, dst, work)
            if failed:
                violations.append((dst, msg))
                continue
        errors.append(f"shard {sh} ended with {p.returncode}\n" + open(f"{out}/log.{sh}", errors='replace').read()[-1500:] + err[-3000:])
    fails = {}
    for f in sorted(glob.glob(out + "/fail.*.json")):
        d = json.load(open(f))
        sub = d["input"]["sub"]
        size = len(json.dumps(d["input"]))
        if sub not in fails or size < fails[sub][0]:
            fails[sub] = (size, f, d["message"])
    for sub, (_, f, msg) in sorted(fails.items()):
        dst = f"{repdir}/{prop}.{sub}.json"
        shutil.copy(f, dst)
        violations.append((dst, msg))
    # merge
    evals = nontriv = 0
    classes, subs, samples, excluded, skipped = {}, {}, [], {}, 0
    distinct = {}
    for sh in range(SHARDS):
        try:
            st = json.load(open(f"{out}/stats.{sh}.json"))
        except FileNotFoundError:
            continue
        hb = open(f"{out}/hashes.{sh}.bin", "rb").read()
        pos = 0
        for s in st:
            n = s["distinct"]
            distinct.setdefault(s["sub"], set()).update(struct.unpack_from(f"<{n}Q", hb, pos))
            pos += 8 * n
            evals += s["evaluations"]
            skipped += s.get("skipped", 0)
            nontriv += s["nontrivial"]
            d = subs.setdefault(s["sub"], {"rule": s["rule"], "evaluations": 0, "nontrivial": 0, "classes": {}})
            d["evaluations"] += s["evaluations"]
            d["nontrivial"] += s["nontrivial"]
            for k, v in s["classes"].items():
                d["classes"][k] = d["classes"].get(k, 0) + v
            for k, v in (s.get("excluded") or {}).items():
                excluded[k] = excluded.get(k, 0) + v
            if sh < 2:
                samples += [trim(x) for x in s["samples"] or []][:2]
    for s, d in subs.items():
        d["distinct_nontrivial"] = len(distinct[s])
        d["classes"] = dict(sorted(d["classes"].items(), key=lambda kv: -kv[1])[:40])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": sum(len(v) for v in distinct.values()),
            "rule": "; ".join(f"{s}: {d['rule']}" for s, d in sorted(uniq_rules(subs).items())),
            "samples": samples[:12],
            "sub_properties": subs,
            "excluded_known_findings": excluded,
            "skipped_for_want_of_time": skipped,
            "regressions_replayed": regress,
        },
        "assumptions": ["the harness's own SQL reader and executor (harness/sqlengine_test.go) stands in for the database servers",
                        "the generated grammar is the part of each dialect that ddlctl claims to read"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    with open(f"{VERIF}/evidence/{prop}.json", "w") as h:
        json.dump(ev, h, indent=1)
    for l in known_lines:
        print(l)
    for p, msg in violations:
        print(f"VIOLATION property={prop} replay={p}")
        print("  " + msg[:1500].replace("\n", "\n  "))
    if violations:
        return 1
    if errors:
        print("ERROR: " + "\n".join(errors)[:6000])
        return 2
    print(f"{prop} {tier}: held on {evals} cases ({ev['coverage']['distinct_nontrivial']} distinct non-trivial), {ev['wall_s']} s")
    return 0


def uniq_rules(subs):
    """sub-properties that differ only in the dialect share a rule"""
    out = {}
    for s, d in subs.items():
        base = re.sub(r"_(postgres|cockroachdb|mysql|spanner)$", "", s)
        out.setdefault(base, d)
    return out


def trim(x):
    for k in ("m1", "m2"):
        x.pop(k, None)
    s = json.dumps(x)
    return x if len(s) < 4000 else {"truncated": s[:4000]}


main()

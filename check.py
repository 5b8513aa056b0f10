#!/usr/bin/env python3
"""Builds the harness against /repo's working tree, runs one check and reports.

usage: check.py PROPERTY [--tier quick|thorough] [--seed N] [--only PHASE:INDEX]

exit 0: held, exit 1: violated (with a VIOLATION line), exit 2: the check could
not decide (build failure, harness error, too little observed).
"""
import argparse, glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
RACE = {"C02", "C14", "C19", "C24"}
# the crash of the whole process is attributed to the check that provoked it
FRAME = re.compile(r"github\.com/256dpi/oauth2/v2")


def env():
    e = dict(os.environ)
    e.update({
        "LC_ALL": "C.UTF-8", "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod", "GOWORK": "off",
        "PATH": "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin"),
        "GODEBUG": "",
    })
    e.setdefault("HOME", "/root")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    for k in list(e):
        if k.startswith("VERIF_") and k not in ("VERIF_TIER", "VERIF_SEED"):
            del e[k]
    return e


def build(tmp, race):
    harness = os.path.join(VERIF, "harness")
    out = os.path.join(tmp, "harness.test")
    cmd = ["go", "test", "-c", "-mod=readonly", "-o", out]
    if race:
        cmd.append("-race")
    p = subprocess.run(cmd + ["."], cwd=harness, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout)
        print("the harness does not build against " + REPO)
        sys.exit(2)
    return out


def known(prop):
    """Findings that are listed and not repaired: {sig: text}."""
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def races(prefix):
    """Data race reports as {signature: (in_repo, text)}."""
    out = {}
    for path in glob.glob(prefix + "*"):
        text = open(path, errors="replace").read()
        for block in text.split("=================="):
            if "WARNING: DATA RACE" not in block:
                continue
            funcs = re.findall(r"^  (\S+)\(", block, re.M)
            tops = [f for f in funcs if FRAME.search(f)]
            sig = "race:" + "|".join(sorted(set(f.split("/")[-1] for f in tops[:4])))
            out.setdefault(sig, (bool(tops), block.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--only", default="")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(a.seed) & (2 ** 63 - 1)
    except ValueError:
        seed = 1
    start = time.time()
    race = a.prop in RACE
    tmp = tempfile.mkdtemp(prefix="verif-" + a.prop + "-")
    try:
        binary = build(tmp, race)
        built = time.time() - start
        res_path = os.path.join(tmp, "result.json")
        e = env()
        e.update({"VERIF_PROP": a.prop, "VERIF_TIER": tier, "VERIF_SEED": str(seed), "VERIF_OUT": res_path,
                  "VERIF_TMP": tmp, "GOTRACEBACK": "all"})
        if a.only:
            e["VERIF_ONLY"] = a.only
        if race:
            e["GORACE"] = "halt_on_error=0 exitcode=0 history_size=3 log_path=" + tmp + "/race"
        limit = 800 if tier == "quick" else 6 * 3600
        timed_out = False
        log = open(os.path.join(tmp, "log"), "wb")
        p = subprocess.Popen([binary, "-test.run", "^TestCheck$", "-test.timeout", "0", "-test.v=false"], cwd=tmp, env=e, stdout=log, stderr=log)
        try:
            p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            timed_out = True
        log.close()
        output = open(os.path.join(tmp, "log"), errors="replace").read()
        sys.exit(report(a, tier, seed, start, built, res_path, output, p.returncode, timed_out, tmp, race))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def report(a, tier, seed, start, built, res_path, output, code, timed_out, tmp, race):
    prop = a.prop
    res = None
    if os.path.exists(res_path):
        try:
            res = json.load(open(res_path))
        except ValueError:
            res = None
    violations, problems = [], []
    if res is None:
        m = re.search(r"^(fatal error: .*|panic: .*|runtime: goroutine stack exceeds.*)$", output, re.M)
        if timed_out:
            problems.append("the run exceeded its time limit")
        elif m and "crypto/rand: failed to read random data" in m.group(1) and prop == "C02":
            violations.append({"sig": "crash", "phase": "process", "index": 0,
                               "detail": {"what": "a failing random source ends the process: " + m.group(1), "output": output[m.start():m.start() + 20000]}})
        elif m and FRAME.search(output[m.start():m.start() + 6000]):
            violations.append({"sig": "crash", "phase": "process", "index": 0,
                               "detail": {"what": "the process crashed inside of the code under test: " + m.group(1), "output": output[m.start():m.start() + 20000]}})
        else:
            problems.append("the harness ended with code %s and no result:\n%s" % (code, output[-6000:]))
        res = {"violations": [], "errors": [], "inconclusive": [], "notes": [], "evaluations": 0, "distinct_nontrivial": 0,
               "rule": "", "counters": {}, "samples": []}
    violations += res.get("violations") or []
    problems += res.get("errors") or []
    problems += res.get("inconclusive") or []
    if race:
        reports = races(os.path.join(tmp, "race"))
        res["counters"]["data race reports"] = len(reports)
        for sig, (in_repo, text) in reports.items():
            if in_repo:
                violations.append({"sig": sig, "phase": "race detector", "index": 0, "detail": text})
            else:
                problems.append("a data race within the harness:\n" + text)

    accepted = known(prop)
    fresh = [v for v in violations if v["sig"] not in accepted]
    for v in violations:
        if v["sig"] in accepted:
            print("KNOWN-FINDING: property=%s %s" % (prop, accepted[v["sig"]]))
    for sig, text in accepted.items():
        if sig not in [v["sig"] for v in violations]:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))

    # write what was found and what was covered
    evdir = os.path.join(VERIF, "evidence")
    rdir = os.path.join(evdir, "replays")
    os.makedirs(rdir, exist_ok=True)
    for old in glob.glob(os.path.join(rdir, prop + "-*.json")):
        os.unlink(old)
    lines = []
    for i, v in enumerate(fresh):
        path = os.path.join(rdir, "%s-%d.json" % (prop, i))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "violation": v,
                       "rerun": "./check.py %s --tier %s --seed %d --only %s:%d" % (prop, tier, seed, v["phase"], v["index"])}, f, indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
    verdict = "violated" if fresh else ("undecided" if problems else "held")
    cov = {"evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"], "rule": res["rule"],
           "samples": res.get("samples") or [], "observed": res.get("counters") or {}, "race_detector": race}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "verdict": verdict, "wall_s": round(time.time() - start, 3), "build_s": round(built, 3),
          "violations": [{"sig": v["sig"], "phase": v["phase"], "index": v["index"]} for v in violations],
          "problems": [x[:2000] for x in problems], "notes": res.get("notes") or []}
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for i, v in enumerate(fresh):
        d = v["detail"]
        what = d.get("what", "") if isinstance(d, dict) else str(d)
        print("%s: %s" % (v["sig"], str(what)[:1500]))
        print(lines[i])
    if fresh:
        return 1
    if problems:
        for x in problems:
            print("undecided: " + x[:4000])
        return 2
    print("%s held: %d evaluations, %d distinct, %.1f s" % (prop, res["evaluations"], res["distinct_nontrivial"], time.time() - start))
    return 0


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Decides one property:  run.py <ID> [quick|thorough]

 1. TLC generates jobs (programs, queries, histories) from the specification (spec/MCJobs.tla),
 2. they are executed against the code in /repo (driver/run_jobs.py), which records events,
 3. TLC validates every recorded event against the specification (spec/MCTrace.tla),
 4. further models of the property are checked with TLC (spec/MC*.tla),
and the verdicts are reported.
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIMPY_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = 8
sys.path.insert(0, VERIF)
from config import CHECKS  # noqa: E402


class CheckError(Exception):
    pass


def classes():
    """compiles the TLC operator overrides when needed"""
    out = os.path.join(VERIF, "build", "classes")
    srcs = [os.path.join(VERIF, "java", "src", f) for f in sorted(os.listdir(os.path.join(VERIF, "java", "src")))]
    stamp = os.path.join(out, "stamp")
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()
    if os.path.exists(stamp) and open(stamp).read() == h:
        return out
    tmp = out + ".%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    subprocess.run(["javac", "-nowarn", "-d", tmp, "-cp", TLA + ":" + CM] + srcs, check=True)
    with open(os.path.join(tmp, "stamp"), "w") as f:
        f.write(h)
    shutil.rmtree(out, ignore_errors=True)
    os.rename(tmp, out)
    return out


def tlc(module, constants, work, name, extra=(), body="INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", timeout=3000, heap="6g", workers=CPUS):
    """runs TLC, returns (exit code, output path)"""
    cfg = os.path.join(work, name + ".cfg")
    with open(cfg, "w") as f:
        if constants:
            f.write("CONSTANTS\n" + "\n".join("  %s = %s" % (k, tla_value(v)) for k, v in constants.items()) + "\n")
        f.write(body)
    out = os.path.join(work, name + ".out")
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:BallOverrides",
           "-cp", classes() + ":" + TLA + ":" + CM, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", os.path.join(work, name + ".md"), "-config", cfg] + list(extra) + [module + ".tla"]
    with open(out, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = -1
    return rc, out


def tla_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v if v.startswith("{") else '"%s"' % v
    raise TypeError(v)


def strings(path, tag):
    """the strings printed by TLC that start with the tag"""
    pre = '"' + tag + " "
    for line in open(path, errors="replace"):
        if line.startswith(pre):
            yield json.loads(line)[len(tag) + 1:]


def stats(path):
    s = [0, 0]
    for line in open(path, errors="replace"):
        m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
        if m:
            s = [int(m.group(1)), int(m.group(2))]
    return s


def tail(path, n=40):
    return "".join([l for l in open(path, errors="replace") if not l.startswith(("Parsing", "Semantic", "Linting", '"V ', '"JOB '))][-n:])


def generate(prop, seed, nrand, enum, work, step=1):
    rc, out = tlc("MCJobs", {"PROP": prop, "SEED": seed, "NRAND": nrand, "ENUM": enum, "W": CPUS, "ESTEP": step}, work, "jobs")
    if rc != 0:
        raise CheckError("generating jobs failed\n" + tail(out))
    jobs = [json.loads(s) for s in strings(out, "JOB")]
    jobs.sort(key=lambda j: j["id"])
    return jobs, stats(out)


def env_for_driver(work):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONPYCACHEPREFIX=os.path.join(work, "pyc"), PYTHONHASHSEED="0", PYTHONPATH=os.path.join(REPO, "src"), SIMPY_VERIF="1")
    return env


def execute(jobs, work, cfg, nsh, tag="ev", quick=True):
    """runs the jobs against the real code; returns the list of event files"""
    env = env_for_driver(work)
    env["JOB_CPU_LIMIT"] = str(cfg.get("cpu", 8))
    files = []

    def one(k):
        jf, ef = os.path.join(work, "%s_jobs%d" % (tag, k)), os.path.join(work, "%s%d.json" % (tag, k))
        with open(jf, "w") as f:
            for j in jobs[k - 1::nsh]:
                f.write(json.dumps(j) + "\n")
        with open(os.path.join(work, "%s_log%d" % (tag, k)), "w") as log:
            try:
                rc = subprocess.run([PY, "-B", os.path.join(VERIF, "driver", "run_jobs.py"), jf, ef], env=env, stdout=log, stderr=log,
                                    cwd=work, timeout=cfg.get("drive_timeout", 500 if quick else 20000)).returncode
            except subprocess.TimeoutExpired:      # stuck in a call that cannot be interrupted: what was observed so far is judged
                rc = 0
                with open(ef, "rb+") as f:
                    data = f.read()
                    f.truncate(data.rfind(b"\n") + 1)
                with open(ef, "a") as f:
                    f.write(json.dumps({"e": "meta", "id": -1, "n": 0, "what": "stuck"}) + "\n")
        if rc != 0:
            raise CheckError("driver failed (%d)\n%s" % (rc, open(os.path.join(work, "%s_log%d" % (tag, k))).read()[-3000:]))
        if os.path.getsize(ef) == 0:
            with open(ef, "w") as f:
                f.write(json.dumps({"e": "meta", "id": -1, "n": 0, "what": "empty"}) + "\n")
        return ef

    with ThreadPoolExecutor(CPUS) as ex:
        files = list(ex.map(one, range(1, nsh + 1)))
    return files


def validate(prop, work, nsh, tag="ev"):
    rc, out = tlc("MCTrace", {"PROP": prop, "DIR": work, "TAG": tag, "NSH": nsh}, work, tag + "_trace")
    verdicts = [json.loads(s) for s in strings(out, "V")]
    if rc != 0:
        raise CheckError("trace validation failed\n" + tail(out))
    return verdicts, stats(out)


def key_of(ev):
    """what identifies the failing input of an event"""
    return {k: v for k, v in ev.items() if k not in ("id", "n", "out", "aux")}


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = dict(CHECKS[prop])
    if tier == "quick" and "qcpu" in cfg:
        cfg["cpu"] = cfg["qcpu"]
    t0 = time.time()
    work = os.path.join(VERIF, "build", "work", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        rc = check(prop, tier, seed, cfg, work, t0)
    except (CheckError, subprocess.TimeoutExpired) as ex:
        print("CHECK-ERROR property=%s %s" % (prop, ex))
        rc = 3
    finally:
        if not os.environ.get("KEEP_WORK"):
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(prop, tier, seed, cfg, work, t0):
    known = [f for f in load_known()["findings"] if f["property"] == prop]
    models = []
    for m in cfg.get("models", []):
        consts = dict(m.get("consts", {}))
        consts.update(m.get(tier, {}))
        rc, out = tlc(m["module"], consts, work, m["module"], body=m.get("body", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"), extra=m.get("extra", ()))
        if rc != 0:
            raise CheckError("model %s failed\n%s" % (m["module"], tail(out)))
        st = stats(out)
        models.append({"module": m["module"], "constants": consts, "states_generated": st[0], "distinct_states": st[1]})

    nrand = cfg[tier]
    jobs, gst = generate(prop, seed, nrand, cfg.get("enum", True), work, cfg.get("qstep", 1) if tier == "quick" else 1)
    base = 10**9
    for k, f in enumerate(known):
        jobs.append({"id": base + k, "j": f["job"]})
    nsh = CPUS
    # neighbours in the enumeration are similar: deal them out
    t1 = time.time()
    files = execute(jobs, work, cfg, nsh, quick=tier == "quick")
    t2 = time.time()
    verdicts, vst = validate(prop, work, nsh)
    t3 = time.time()
    events = {}
    for s, f in enumerate(files, 1):
        events[s] = [json.loads(l) for l in open(f)]
    counts, clauses, skips, bad, kinds = {"ok": 0, "skip": 0, "bad": 0}, {}, {}, [], {}
    nev = sum(len(v) for v in events.values())
    if len(verdicts) != nev:
        raise CheckError("%d verdicts for %d events" % (len(verdicts), nev))
    ok_samples = []
    for s, i, v, c, d in verdicts:
        counts[v] += 1
        ev = events[s][i - 1]
        if v == "bad":
            bad.append((ev, c, d))
        elif v == "skip":
            skips[c] = skips.get(c, 0) + 1
        else:
            kd = ev["e"] + ((":" + ev["op"]) if "op" in ev else "")
            kinds[kd] = kinds.get(kd, 0) + 1
            if kinds[kd] <= 1 and len(json.dumps(ev)) < 1500:
                ok_samples.append(ev)
    jobmap = {j["id"]: j for j in jobs}
    # findings that are known, by their exact input
    knownkeys = {json.dumps(f["event"], sort_keys=True): f for f in known}
    shown, viol = {}, []
    for ev, c, d in bad:
        f = knownkeys.get(json.dumps(key_of(ev), sort_keys=True))
        if f is not None and c == f["clause"]:
            shown[id(f)] = f
        else:
            viol.append((ev, c, d))
    for f in shown.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    # "did not finish in the CPU limit" is not an answer; for operations that must terminate it is a violation
    if cfg.get("must_terminate"):
        for s in events:
            for ev in events[s]:
                if ev["e"] == "meta" and ev["what"] == "cpulimit":
                    viol.append((ev, "no-answer", "no answer within %s s of CPU time" % cfg.get("cpu", 8)))
    min_ok = cfg.get("min_ok", 100)
    if counts["ok"] < min_ok and not viol:
        raise CheckError("vacuous: only %d events could be judged (%s)" % (counts["ok"], skips))

    replays = []
    if viol:
        viol.sort(key=lambda b: (len(json.dumps(b[0])), b[0]["id"]))
        os.makedirs(os.path.join(VERIF, "build", "replay"), exist_ok=True)
        path = os.path.join(VERIF, "build", "replay", "%s.json" % prop)
        with open(path, "w") as f:
            json.dump([{"clause": c, "detail": d, "event": ev, "job": jobmap.get(ev["id"])} for ev, c, d in viol[:400]], f, indent=1)
        for ev, c, d in viol[:3]:
            print("# %s: %s | %s" % (c, d, json.dumps(ev)[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        replays = [{"clause": c, "detail": d, "event": ev} for ev, c, d in viol[:10]]

    cov = {"states": gst[1] + vst[1] + sum(m["distinct_states"] for m in models),
           "transitions": gst[0] + vst[0] + sum(m["states_generated"] for m in models),
           "traces_validated_against_impl": len(jobs),
           "events_validated": counts["ok"] + counts["bad"], "events_without_claim": counts["skip"], "reasons_without_claim": skips,
           "events_by_kind": kinds, "models": models, "known_findings_reproduced": len(shown),
           "samples": ok_samples[:8] if ok_samples else ["none"]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"), "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "assumptions": cfg.get("assumptions", []), "violations": replays}
    if ev["level"] == "exploration":
        cov["evaluations"] = nev
        cov["distinct_nontrivial"] = counts["ok"] + counts["bad"]
        cov["rule"] = "events are deduplicated by operation and operands; non-trivial: the specification gives a verdict on the recorded result"
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d jobs, %d events: %d ok, %d without claim, %d bad (%d known); %.1f s (generate %.1f, execute %.1f, validate %.1f)" % (
        prop, tier, len(jobs), nev, counts["ok"], counts["skip"], counts["bad"], len(bad) - len([1 for b in viol if b[0]["e"] != "meta"]), time.time() - t0, t1 - t0, t2 - t1, t3 - t2))
    return 1 if viol else 0


if __name__ == "__main__":
    main()

"""usage: run_jobs.py JOBS OUT   -- executes jobs (JSON lines) against simpy and records events (JSON lines)."""
import json
import os
import resource
import signal
import random
import sys
import time
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(3000)
warnings.simplefilter("ignore")
# the library's time limits count processor time here, so that results do not depend on the load of the machine
time.time = time.monotonic = time.perf_counter = lambda: modes.clock()

import modes  # noqa: E402
import sess  # noqa: E402
from build import Abort, TooBig  # noqa: E402


class CpuLimit(BaseException):
    pass


def on_alarm(sig, frame):
    raise CpuLimit()


def renamed(v, names):
    """the same value with other names of symbols"""
    if isinstance(v, str):
        return names.get(v, v)
    if isinstance(v, list):
        return [renamed(u, names) for u in v]
    return v


def main():
    jobs_file, out_file = sys.argv[1:3]
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    limit = float(os.environ.get("JOB_CPU_LIMIT", "8"))
    signal.signal(signal.SIGVTALRM, on_alarm)
    seen = set()
    if '"m": "sess"' in open(jobs_file).readline():
        sess.start(limit)
    with open(out_file, "w") as out:
        for line in open(jobs_file):
            jj = json.loads(line)
            jid, job = jj["id"], jj["j"]
            if "ren" in job:
                job = {k: renamed(v, job["ren"]) for k, v in job.items() if k != "ren"}
            n = [0]

            def rec(ev):
                key = json.dumps(ev, sort_keys=True)
                if key in seen:
                    return
                seen.add(key)
                ev["id"] = jid
                ev["n"] = n[0]
                n[0] += 1
                out.write(json.dumps(ev) + "\n")

            status = None
            random.seed(jid)     # names of intermediate variables are random
            signal.setitimer(signal.ITIMER_VIRTUAL, job.get("cpu", limit))
            try:
                modes.run(job, rec)
            except Abort:
                pass
            except TooBig:
                status = "toobig"
            except CpuLimit:
                status = "cpulimit"
            except modes.Skip:
                status = "skip"
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            if status:
                out.write(json.dumps({"e": "meta", "id": jid, "n": n[0], "what": status}) + "\n")
            out.flush()


if __name__ == "__main__":
    main()

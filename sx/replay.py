"""
Replay path models against the real, unmodified code in /repo.

As a server (used by run.py): one JSON job per line on stdin, one JSON result
per line on stdout; every job runs in its own forked child, so each starts from
freshly loaded validators.

As a command:  python -m sx.replay FILE.json   re-runs one saved counterexample.
"""

import importlib
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")


def prepare(module):
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    import logging

    logging.disable(logging.CRITICAL)
    m = importlib.import_module("props." + module)
    from . import env

    m.setup("real")
    return m, env


def conc(x):
    if isinstance(x, str):
        return x
    if isinstance(x, (list, tuple)):
        return [conc(y) for y in x]
    if isinstance(x, dict):
        return {str(k): conc(v) for k, v in x.items()}
    if isinstance(x, (int, float, bool)) or x is None:
        return x
    return str(x)


def run_job(m, env, job):
    from .choices import AssumptionFailed, ConcChoices

    scn = m.SCENARIOS[job["scenario"]]
    ch = ConcChoices(job["vars"])
    scratch = env.make_scratch()
    e = env.RealEnv(ch, scratch)
    res = {}
    try:
        os.chdir(scratch)
        obs = scn.run(e)
        res["status"] = "ok"
        res["problems"] = [[c, conc(d)] for c, d in e.problems]
        res["obs"] = conc(obs)
        res["labels"] = sorted(ch.labels)
    except AssumptionFailed:
        res["status"] = "assume"
    except Timeout:
        res["status"] = "ok"
        res["problems"] = [["hang", ["no result within the time limit"]]]
    except BaseException as exc:
        res["status"] = "error"
        res["error"] = "".join(traceback.format_exception(exc))[-3000:]
    finally:
        os.chdir("/")
        env.clean(scratch)
    return res


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def child(m, env, job, fd):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(os.environ.get("SX_JOB_TIMEOUT", "60")))
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    try:
        res = run_job(m, env, job)
    except BaseException as exc:  # must always answer
        res = {"status": "error", "error": repr(exc)}
    signal.alarm(0)
    data = json.dumps(res).encode("utf8", "surrogatepass")
    with os.fdopen(fd, "wb") as f:
        f.write(data)
    os._exit(0)


def serve(module):
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    m, env = prepare(module)
    out.write("ready\n")
    out.flush()
    for line in sys.stdin:
        jobs = json.loads(line)
        results = [None] * len(jobs)
        running = {}
        nxt = 0
        import select

        while nxt < len(jobs) or running:
            while nxt < len(jobs) and len(running) < 8:
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    child(m, env, jobs[nxt], w)
                os.close(w)
                running[r] = (nxt, pid, b"")
                nxt += 1
            rd, _, _ = select.select(list(running), [], [])
            for r in rd:
                i, pid, buf = running[r]
                d = os.read(r, 65536)
                if d:
                    running[r] = (i, pid, buf + d)
                else:
                    os.close(r)
                    os.waitpid(pid, 0)
                    del running[r]
                    try:
                        results[i] = json.loads(buf)
                    except ValueError:
                        results[i] = {"status": "error", "error": "child died"}
        out.write(json.dumps(results) + "\n")
        out.flush()


def main():
    if sys.argv[1] == "--serve":
        serve(sys.argv[2])
        return
    with open(sys.argv[1]) as f:
        rec = json.load(f)
    r, w = os.pipe()
    m, env = prepare(rec["module"])
    pid = os.fork()
    if pid == 0:
        os.close(r)
        child(m, env, rec, w)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        res = json.loads(f.read())
    os.waitpid(pid, 0)
    print(json.dumps(res, indent=1))
    bad = [p for p in res.get("problems", []) if p[0] == rec.get("code", p[0])]
    print("REPRODUCED" if bad else "not reproduced")
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()

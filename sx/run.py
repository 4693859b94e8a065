"""
Run one check:  python -m sx.run PROPERTY_ID

Explores every scenario of the property symbolically (all paths, z3), replays
candidate violations and a sample of clean paths on the real code, writes
evidence/<id>.json.  Exit 0: held; exit 1: VIOLATION printed.
"""

import importlib
import importlib.util
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import select
import signal
import subprocess
import sys
import time
import traceback
import types

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")


class Scenario:
    """
    name; run(env) -> observation (builds the world from env.ch, drives the real
    entry points, reports problems through env); labels that must be reached
    """

    def __init__(self, name, run, labels=(), tiers=("quick", "thorough"), bounds=""):
        self.name = name
        self.run = run
        self.labels = list(labels)
        self.tiers = tiers
        self.bounds = bounds


class PathTimeout(BaseException):
    pass


def _alarm(*a):
    raise PathTimeout()


def run_path(scn, prefix, scratch):
    from . import env, fakeh5, fakexml, replay
    from .core import ENG, Inconclusive, Infeasible, SxControl
    from .choices import SymChoices

    ENG.reset(prefix)
    fakeh5.FILES.clear()
    fakeh5.OPENED.clear()
    fakexml.FILES.clear()
    fakexml.ALIAS.clear()
    for fn in os.listdir(scratch):
        p = os.path.join(scratch, fn)
        if os.path.isdir(p) and not os.path.islink(p):
            env.clean(p)
        else:
            os.unlink(p)
    e = env.SymEnv(SymChoices(), scratch)
    res = {"problems": [], "n": len(prefix)}
    cwd = os.getcwd()
    limit = sys.getrecursionlimit()
    ENG.active = True
    signal.setitimer(signal.ITIMER_REAL, float(os.environ.get("SX_PATH_TIMEOUT", "60")))
    try:
        try:
            os.chdir(scratch)
            obs = scn.run(e)
            res["status"] = "ok"
        except Infeasible:
            res["status"] = "infeasible"
        except Inconclusive as exc:
            res["status"] = "inconclusive"
            res["why"] = str(exc)
        except PathTimeout:
            res["status"] = "ok"
            obs = None
            e.problems.append(("hang", ("no result within the time limit",)))
        except SxControl:
            raise
        except BaseException as exc:
            # an error of the scenario itself (run() reports code-under-test
            # exceptions as observations): decided by the replay
            res["status"] = "error"
            res["why"] = "".join(traceback.format_exception(exc))[-1500:]
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            ENG.active = False
            sys.setrecursionlimit(limit)
            os.chdir(cwd)
        if res["status"] in ("ok", "inconclusive", "error"):
            # a concrete member of the path, also for paths given up on
            try:
                res["vars"] = ENG.concrete_vars()
                if res["status"] == "ok":
                    res["problems"] = [(c, to_conc(d)) for c, d in e.problems]
                    res["obs"] = to_conc(obs)
                res["labels"] = sorted(ENG.labels)
            except Infeasible:
                res["status"] = "infeasible"
                res["problems"] = []
            except Inconclusive as exc:
                res["status"] = "inconclusive"
                res["why"] = str(exc)
    finally:
        ENG.undo()
    res["branches"] = len(ENG.trace)
    return res, ENG.pending


def to_conc(x):
    """value of an observation in the model of the path"""
    from . import values as V
    from .core import ENG

    if isinstance(x, V.SymStr):
        m = ENG.model()
        return "".join(
            chr(c if isinstance(c, int) else m.eval(c, model_completion=True).as_long())
            for c in x._c
        )
    if isinstance(x, V.SymInt):
        return ENG.model().eval(x._e, model_completion=True).as_long()
    if isinstance(x, V.SymReal):
        f = ENG.model().eval(x._e, model_completion=True)
        return float(f.numerator_as_long()) / f.denominator_as_long()
    if isinstance(x, V.SymBytes):
        return to_conc(x.text)
    if isinstance(x, V.FakeArray):
        return [to_conc(y) for y in x._items]
    if isinstance(x, (list, tuple)):
        return [to_conc(y) for y in x]
    if isinstance(x, dict):
        return {str(to_conc(k)): to_conc(v) for k, v in x.items()}
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


def worker(conn, scns, seed):
    from . import env
    from .core import ENG

    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    scratch = env.make_scratch()
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    try:
        while True:
            msg = conn.recv()
            if msg is None:
                break
            k, prefix, slice_s = msg
            stack, out = [prefix], []
            ENG.queries, ENG.solver_s, ENG.unknown = 0, 0.0, 0
            t0 = time.time()
            while stack and (not out or time.time() - t0 < slice_s):
                res, pend = run_path(scns[k], stack.pop(), scratch)
                out.append(res)
                stack.extend(pend)
            stats = (ENG.queries, ENG.solver_s, ENG.unknown)
            conn.send((out, stack, stats, ENG.entered, dict(ENG.unmodelled)))
            ENG.entered = set()
            ENG.unmodelled = {}
    finally:
        env.clean(scratch)


class Server:
    """the replay process (real code)"""

    def __init__(self, module):
        env = dict(os.environ)
        self.p = subprocess.Popen(
            [sys.executable, "-m", "sx.replay", "--serve", module],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            cwd=HERE,
            env=env,
            text=True,
        )
        self.ready = False

    def run(self, jobs):
        if not jobs:
            return []
        if not self.ready:
            line = self.p.stdout.readline()
            if line.strip() != "ready":
                raise RuntimeError("replay server did not start")
            self.ready = True
        self.p.stdin.write(json.dumps(jobs) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("replay server died")
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


def load_known():
    fn = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return json.load(f).get("findings", [])


def known_match(known, pid, scn, code, details):
    for k in known:
        if k["property"] != pid or k["code"] != code:
            continue
        if k.get("scenario") not in (None, scn):
            continue
        want = k.get("details")
        if want is not None and want != details:
            continue
        return k
    return None


def main():
    pid = sys.argv[1]
    t_start = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rnd = random.Random(seed)
    if HERE not in sys.path:
        sys.path.insert(0, HERE)

    import logging

    from . import fakefunctools, fakeh5, fakexml, instrument
    from . import values as V

    instrument.OVERRIDES["h5py"] = fakeh5.MODULE
    instrument.OVERRIDES["functools"] = fakefunctools.MODULE
    instrument.OVERRIDES["lxml"] = fakexml.MODULE
    instrument.OVERRIDES["lxml.etree"] = fakexml.etree
    table = os.path.dirname(importlib.util.find_spec("pyRestTable").origin)
    instrument.install(
        {"punx": os.path.join(REPO, "punx"), "props": os.path.join(HERE, "props"), "pyRestTable": table}
    )
    registry = json.load(open(os.path.join(HERE, "props", "registry.json")))
    modname = registry[pid]["module"]
    level = registry[pid].get("level", "model_checking")
    server = Server(modname)
    if registry[pid].get("files"):
        from . import fakeos

        fakeos.install()
    V.set_alphabet(V.QUICK if tier == "quick" else V.DEEP)
    os.environ["SX_TIER"] = tier
    t0 = time.time()
    m = importlib.import_module("props." + modname)
    m.setup("sym")
    setup_s = time.time() - t0
    scns = [s for s in m.SCENARIOS]
    active = [i for i, s in enumerate(scns) if tier in s.tiers]
    nworkers = int(os.environ.get("SX_WORKERS", "8"))
    conns, procs = [], []
    ctx = mp.get_context("fork")
    for i in range(nworkers):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b, scns, seed + i), daemon=True)
        p.start()
        b.close()
        conns.append(a)
        procs.append(p)

    budget = float(
        os.environ.get("SX_BUDGET", "240" if tier == "quick" else "3000")
    )
    nreplay = int(os.environ.get("SX_REPLAYS", "150" if tier == "quick" else "1500"))
    deadline = t_start + budget
    known = load_known()
    tot = dict(
        paths=0, infeasible=0, inconclusive=0, branches=0, queries=0, solver_s=0.0,
        replayed=0, agreed=0, differ=0, unconfirmed=0, errors=0,
    )
    entered, unmodelled, per_scn, why = set(), {}, [], {}
    confirmed, known_seen, samples, mismatches = [], {}, [], []
    labels_missing = []

    idle = list(conns)

    def judge(S, jobs):
        """replay on the real code; classify"""
        for j, r in zip(jobs, server.run(jobs)):
            tot["replayed"] += 1
            if r["status"] == "assume":
                tot["differ"] += 1
                continue
            if r["status"] == "error":
                tot["errors"] += 1
                why.setdefault("replay error: " + r.get("error", "")[-300:], 0)
                continue
            bad = False
            for code, details in r["problems"]:
                kn = known_match(known, pid, S.scn.name, code, details)
                if kn is not None:
                    known_seen[kn["id"]] = kn
                    continue
                bad = True
                confirmed.append((S.scn, j, code, details, r))
            if j.get("_cand"):
                if not bad and not r["problems"]:
                    tot["unconfirmed"] += 1
                    if len(mismatches) < 10:
                        mismatches.append(
                            dict(kind="not reproduced", scenario=S.scn.name, vars=j["vars"], sym=j["_cand"])
                        )
            elif j.get("_obs") is not None:
                if same_obs(j["_obs"], r.get("obs")):
                    tot["agreed"] += 1
                else:
                    tot["differ"] += 1
                    if len(mismatches) < 10:
                        mismatches.append(
                            dict(kind="differs", scenario=S.scn.name, vars=j["vars"],
                                 sym=j["_obs"], real=r.get("obs"))
                        )

    def account(S, r):
        tot["branches"] += r["branches"]
        if r["status"] == "infeasible":
            tot["infeasible"] += 1
            return
        tot["paths"] += 1
        S.st["paths"] += 1
        job = None
        if "vars" in r:
            job = {"scenario": S.k, "module": modname, "vars": r["vars"], "_obs": r.get("obs"), "_cand": None}
        if r["status"] != "ok":
            tot["inconclusive"] += 1
            why[r["why"][-300:]] = why.get(r["why"][-300:], 0) + 1
            if job is not None and len(S.given_up) < 400:
                S.given_up.append(dict(job, _obs=None))
            return
        S.labels.update(r["labels"])
        if r["problems"]:
            code = r["problems"][0][0]
            n = S.codes.get(code, 0)
            S.codes[code] = n + 1
            if n < 12 or (rnd.random() < 0.1 and len(S.cands) < 60):
                S.cands.append(dict(job, _cand=r["problems"]))
        else:
            S.clean.append(job)
            if len(S.clean) > 4 * nreplay:
                rnd.shuffle(S.clean)
                del S.clean[2 * nreplay :]

    def explore(S, limit):
        """paths of one scenario, until all are done or the time is used up"""
        busy = {}
        while (S.todo or busy) and not confirmed:
            while S.todo and idle and time.time() < limit:
                if rnd.random() < 0.5:  # not only the deepest: variety, if time is short
                    i = rnd.randrange(len(S.todo))
                    S.todo[i], S.todo[-1] = S.todo[-1], S.todo[i]
                c = idle.pop()
                c.send((S.k, S.todo.pop(), 0.4 if len(busy) >= nworkers - 1 else 0.15))
                busy[c] = True
            if not busy:
                break
            for c in mp.connection.wait(list(busy), timeout=1.0):
                try:
                    out, stack, stats, ent, unm = c.recv()
                except EOFError:
                    print("error: a worker process died", file=sys.stderr)
                    sys.exit(2)
                del busy[c]
                idle.append(c)
                S.todo.extend(stack)
                tot["queries"] += stats[0]
                tot["solver_s"] += stats[1]
                entered.update(ent)
                for n, x in unm.items():
                    unmodelled[n] = unmodelled.get(n, 0) + x
                for r in out:
                    account(S, r)
            if len(S.cands) >= 24:
                judge(S, S.cands)
                S.cands = []
        for c in list(busy):
            c.recv()
            idle.append(c)
        if S.cands and not confirmed:
            judge(S, S.cands)
            S.cands = []

    runs = [types.SimpleNamespace(
        k=k, scn=scns[k], todo=[[]], labels=set(), clean=[], cands=[], codes={}, given_up=[],
        st=dict(scenario=scns[k].name, bounds=scns[k].bounds, paths=0, complete=False),
    ) for k in active]

    # each scenario gets its share of the time, then the unfinished ones go on
    pending = list(runs)
    while pending and not confirmed and time.time() < deadline:
        for i, S in enumerate(pending):
            now = time.time()
            explore(S, now + (deadline - now) / (len(pending) - i))
            if confirmed:
                break
        pending = [S for S in pending if S.todo]

    for S in runs:
        S.st["complete"] = not S.todo and not confirmed
        if not confirmed:
            judge(S, S.given_up)
        if not confirmed:
            rnd.shuffle(S.clean)
            judge(S, S.clean[: max(12, nreplay // max(1, len(active)))])
        for j in S.clean[:2]:
            samples.append(dict(scenario=S.scn.name, input=j["vars"], observed=short(j["_obs"])))
        S.st["labels_reached"] = sorted(S.labels)
        miss = [x for x in S.scn.labels if x not in S.labels]
        if miss and not confirmed:
            labels_missing.append((S.scn.name, miss))
        per_scn.append(S.st)

    for c in conns:
        try:
            c.send(None)
        except OSError:
            pass
    server.close()
    for p in procs:
        p.join(2)
        if p.is_alive():
            p.terminate()

    outdir = os.path.join(HERE, "out", pid)
    os.makedirs(outdir, exist_ok=True)
    viol = None
    if confirmed:
        scn, j, code, details, r = confirmed[0]
        viol = os.path.join(outdir, "violation-1.json")
        rec = dict(
            property=pid, module=modname, scenario=j["scenario"], scenario_name=scn.name,
            vars=j["vars"], code=code, details=details,
            how="cd /verif && ./check --replay " + viol,
        )
        with open(viol, "w") as f:
            json.dump(rec, f, indent=1)

    complete = all(s["complete"] for s in per_scn) and not tot["inconclusive"]
    bounds = getattr(m, "BOUNDS", "")
    cov = dict(
        states=tot["paths"],
        transitions=tot["branches"],
        traces_validated_against_impl=tot["agreed"],
        samples=samples[:6] or [dict(note="violation found before any clean path")],
        exhaustive=bool(complete and not confirmed),
        meaning=(
            "states = feasible symbolic paths explored (each stands for all inputs "
            "satisfying its path condition); transitions = branch decisions on those "
            "paths; traces_validated_against_impl = path models whose observation on "
            "the real, uninstrumented code equalled the symbolic one"
        ),
        queries=tot["queries"],
        solver_s=round(tot["solver_s"], 2),
        setup_s=round(setup_s, 2),
        infeasible_paths=tot["infeasible"],
        inconclusive_paths=tot["inconclusive"],
        inconclusive_reasons=dict(sorted(why.items(), key=lambda x: -x[1])[:8]),
        replayed=tot["replayed"],
        replay_differs=tot["differ"],
        candidates_not_reproduced=tot["unconfirmed"],
        replay_errors=tot["errors"],
        mismatches=mismatches[:3],
        functions_encoded=sorted(e for e in entered if e.startswith("punx")),
        unmodelled_operations=unmodelled,
        bounds=bounds,
        alphabet=", ".join("U+%04X..U+%04X" % r for r in V.ALPHABET),
        scenarios=per_scn,
        engine="sx (/verif/sx) + z3 " + __import__("z3").get_version_string(),
    )
    ev = dict(
        property=pid, tier=tier, seed=seed, level=level, coverage=cov,
        assumptions=getattr(m, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t_start, 2),
        violations=1 if confirmed else 0,
    )
    if level == "other":
        cov["explanation"] = cov["meaning"]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    for kn in known_seen.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, kn["what"]))
    print(
        "%s: %d paths, %d queries (%.1f s solver), %d replayed (%d agree, %d differ, "
        "%d not reproduced, %d errors), %d inconclusive, exhaustive=%s, %.1f s"
        % (
            pid, tot["paths"], tot["queries"], tot["solver_s"], tot["replayed"],
            tot["agreed"], tot["differ"], tot["unconfirmed"], tot["errors"],
            tot["inconclusive"], cov["exhaustive"], time.time() - t_start,
        )
    )
    if os.environ.get("SX_DEBUG"):
        print(json.dumps(dict(scenarios=per_scn, mism=mismatches, why=why, unm=unmodelled), indent=1, default=str))
    if confirmed:
        print("  %s: %s %s" % (confirmed[0][0].name, confirmed[0][2], short(confirmed[0][3])))
        print("  input: %s" % json.dumps(confirmed[0][1]["vars"]))
        print("VIOLATION property=%s replay=%s" % (pid, viol))
        sys.exit(1)
    if labels_missing:
        print("note: not reached: %s" % labels_missing)
        if os.environ.get("SX_STRICT"):
            sys.exit(3)
    sys.exit(0)


def short(x, n=600):
    s = json.dumps(x, default=str)
    return s if len(s) <= n else s[:n] + "..."


def same_obs(a, b):
    return json.dumps(a, sort_keys=True) == json.dumps(b, sort_keys=True)



if __name__ == "__main__":
    main()

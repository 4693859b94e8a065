"""
development: is a planted bug valid (applies, tests pass, demo discriminates), and
do the checks catch it?   tools/seedtest.py [--no-tests] [--all] ID...
"""
import hashlib
import json
from concurrent.futures import ThreadPoolExecutor
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("SX_REPO", "/repo")
ENVV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", SETUPTOOLS_SCM_PRETEND_VERSION="1.0.0",
            QT_QPA_PLATFORM="offscreen", PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", LANG="C.UTF-8", PYTHONHASHSEED="0")


def sh(cmd, cwd, timeout=900, **kw):
    p = subprocess.run(cmd, cwd=cwd, env=dict(ENVV, **kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def tests(w, tag):
    xdg = "/tmp/seedxdg_" + tag
    shutil.rmtree(xdg, ignore_errors=True)
    os.makedirs(xdg + "/tmp")
    out = "/tmp/seedout_%s.json" % tag
    rc, o = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "--tb=no", "-p", "no:cacheprovider", "--continue-on-collection-errors",
                "-o", "junit_family=xunit2", "--junitxml=" + xdg + "/j.xml", "punx"], w, XDG_CONFIG_HOME=xdg, TMPDIR=xdg + "/tmp")
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", out, "junit:" + xdg + "/j.xml"], stdout=subprocess.DEVNULL)
    b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    r = json.load(open(out))
    shutil.rmtree(xdg, ignore_errors=True)
    os.unlink(out)
    ok = set(x.replace(w, "/repo") for x in r["passed"])
    return [n for n in b if n not in ok]


def head():
    return subprocess.run(["git", "-C", BASE, "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()


def original(d):
    res, orig = [], []
    base = subprocess.run(["git", "-C", BASE, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
    for l in open(d + "/patch.diff"):
        if l.startswith("--- a/"):
            fn = l[6:].strip()
            orig = subprocess.run(["git", "-C", BASE, "show", base + ":" + fn], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith("-") and l[1:].strip() and l[1:].rstrip("\n") not in orig:
            res.append("NOT ORIGINAL: " + l.strip())
    return res


def valid(sid):
    """is the bug valid? (cached)"""
    d = os.path.join(HERE, "seeded", sid)
    key = hashlib.sha1((open(d + "/patch.diff").read() + open(d + "/demo.py").read() + head()).encode()).hexdigest()
    cache = "/tmp/seedcache/" + key
    if os.path.exists(cache):
        return json.load(open(cache))
    w, dd = "/tmp/seedw_" + sid, "/tmp/seedd_" + sid
    for x in (w, dd):
        shutil.rmtree(x, ignore_errors=True)
    shutil.copytree(BASE, w, symlinks=True)
    shutil.copytree(d, dd)
    res = original(d)
    try:
        rc, o = sh(["bash", dd + "/demo.sh"], w)
        if rc:
            res.append("DEMO FAILS ON CLEAN TREE: " + o[-500:])
        rc, o = sh(["git", "apply", d + "/patch.diff"], w)
        if rc:
            return res + ["DOES NOT APPLY " + o]
        rc, o = sh(["bash", dd + "/demo.sh"], w)
        if not rc:
            res.append("DEMO DOES NOT SEE IT")
        bad = tests(w, sid)
        if bad:
            res.append("TESTS FAIL: %s" % bad)
    finally:
        for x in (w, dd):
            shutil.rmtree(x, ignore_errors=True)
    os.makedirs("/tmp/seedcache", exist_ok=True)
    json.dump(res, open(cache, "w"))
    return res


def caught(sid, all_checks):
    d = os.path.join(HERE, "seeded", sid)
    prop = json.load(open(d + "/meta.json"))["property"]
    w = "/tmp/seedw_" + sid
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(BASE, w, symlinks=True)
    res = []
    try:
        sh(["git", "apply", d + "/patch.diff"], w)
        ids = [prop]
        if all_checks:
            ids = [c["property"] for c in json.load(open(HERE + "/MANIFEST.json"))["checks"]]
        for i in ids:
            rc, o = sh(["./check", i], HERE, SX_REPO=w)
            t = o.strip().splitlines() or [""]
            if rc == 1:
                res.append("%s: caught: %s" % (i, " ".join(x.strip() for x in t[-3:-1])[:260]))
            elif len(ids) == 1 or rc != 0:
                res.append("%s: MISSED exit %d %s" % (i, rc, t[-1][:300]))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return res


def main():
    args = sys.argv[1:]
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(HERE + "/seeded"))
    if "--no-tests" not in args:
        with ThreadPoolExecutor(6) as ex:
            for sid, res in zip(ids, ex.map(valid, ids)):
                if res:
                    print("== INVALID", sid, res)
        sys.stdout.flush()
    if "--no-checks" in args:
        return
    for sid in ids:
        for r in caught(sid, "--all" in args):
            print(sid, r)
        sys.stdout.flush()


main()

"""
development: make seeded/<id> from a replacement.
plant(id, property, file, [(old, new), ...], needs, breaks, demo_source)
"""
import difflib
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# run with cwd = the repository
HERE="$(cd "$(dirname "$0")" && pwd)"
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir "$W/config"
export XDG_CONFIG_HOME="$W/config" PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 DEMO_DIR="$W"
export SETUPTOOLS_SCM_PRETEND_VERSION=1.0.0 QT_QPA_PLATFORM=offscreen
cp "$HERE/demo.py" "$W/demo.py"
REPO="$PWD"; cd "$W"
PYTHONPATH="$REPO" timeout 200 /opt/venv/bin/python "$W/demo.py"
"""
HEAD = '''import contextlib
import io
import os
import sys

import h5py
import numpy

import punx
from punx import validate

os.chdir(os.environ["DEMO_DIR"])


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()) as o:
        r = f(*a, **k)
    return r, o.getvalue()


def findings(fname, ref=None):
    v = quiet(validate.Data_File_Validator, ref)[0]
    quiet(v.validate, fname)
    return v


def status(v, addr, test):
    return [str(f.status) for f in v.validations if f.h5_address == addr and f.test_name == test]


'''


def plant(sid, prop, fn, reps, needs, breaks, demo, head=HEAD):
    files = fn if isinstance(fn, dict) else {fn: reps}
    diff = ""
    for f, rr in files.items():
        src = open(os.environ.get("SX_REPO", "/repo") + "/" + f).read()
        new = src
        for old, rep in rr:
            assert new.count(old) == 1, (sid, new.count(old), old)
            new = new.replace(old, rep)
        compile(new, f, "exec")
        diff += "".join(difflib.unified_diff(src.splitlines(True), new.splitlines(True), "a/" + f, "b/" + f))
    d = os.path.join(HERE, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(head + demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)

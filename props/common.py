"""shared by the property modules (instrumented in symbolic runs)"""

import os

from sx import spec
from sx.run import Scenario  # noqa
from sx.spec import Node, Val, dataset, external, group, hard, soft  # noqa

TIER = os.environ.get("SX_TIER", os.environ.get("VERIF_TIER", "quick"))
THOROUGH = TIER == "thorough"
NON = "non-NeXus content"

PRINT = [(0x20, 0x7E)]


def tup(f):
    return (f.h5_address, f.test_name, str(f.status))


def findings(v):
    return [tup(f) for f in v.validations]


def named(fs, test):
    return [f for f in fs if f[1] == test]


def at(fs, addr, test=None):
    return [f[2] for f in fs if f[0] == addr and (test is None or f[1] == test)]


def exc(e):
    return type(e).__name__


# ---- the NeXus naming rules, written as character conditions


def is_word(ch):
    return ch.isalnum() or ch == "_"


def strict_name(s):
    if len(s) == 0:
        return False
    for i in range(len(s)):
        c = s[i]
        if "a" <= c <= "z" or c == "_":
            continue
        if i > 0 and "0" <= c <= "9":
            continue
        return False
    return True


def relaxed_name(s):
    if len(s) == 0:
        return False
    c = s[0]
    if not ("a" <= c <= "z" or "A" <= c <= "Z" or c == "_"):
        return False
    for i in range(1, len(s)):
        if not is_word(s[i]):
            return False
    return True


def class_name(s):
    """NX.+ (any character but a line end), or a relaxed name"""
    if len(s) > 2 and s[0] == "N" and s[1] == "X":
        ok = True
        for i in range(2, len(s)):
            if s[i] == "\n":
                ok = False
        if ok:
            return True
    return relaxed_name(s)


def name_status(s):
    if strict_name(s):
        return "OK"
    if relaxed_name(s):
        return "NOTE"
    return "ERROR"


def validated(env, root, ref="v3.3", n=0, name=None):
    """validate the file with a fresh validator; (validator, None) or (None, exc)"""
    p = env.h5file(root, name)
    v = env.validator(ref, n)
    st, r = env.run(v.validate, p)
    if st != "ok":
        env.problem("crash", exc(r), str(r)[:200])
        return v, r
    return v, None

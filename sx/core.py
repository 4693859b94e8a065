"""
Engine: path exploration driven by z3.

A run of the (instrumented) code under test follows one path.  Whenever the
code asks for the truth value of something that depends on a symbolic
variable, ``Engine.branch`` decides which outcomes are feasible under the path
condition (z3), follows one and queues the other.  All paths together cover
every value of the symbolic variables inside their declared domains.
"""

import os
import time

import z3


class SxControl(BaseException):
    """engine control flow: never seen by the code under test"""


class Infeasible(SxControl):
    """the path condition (an assumption) is unsatisfiable"""


class Inconclusive(SxControl):
    """solver said unknown, or a concretisation budget ran out"""


z3.set_param("timeout", 20000)
z3.set_param("smt.random_seed", 1)


class Engine:
    MAX_ENUM = 24

    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.entered = set()
        self.unmodelled = {}
        self.caches = []  # of the code under test (see fakefunctools)
        self.reset([])

    # -- one path ---------------------------------------------------------
    def reset(self, prefix):
        self.active = False
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []
        self.pending = []
        self.vars = {}  # name -> (kind, payload)
        self.decided = {}
        self.facts = []
        self.solver = z3.SimpleSolver()
        self.model_ = None
        self.nsym = 0
        self.symdicts = {}
        self.journal = []
        self.touched = {}
        self.out = []
        self.labels = set()
        self.fresh_n = 0
        self.lossy = False

    def add(self, fact):
        self.facts.append(fact)
        self.solver.add(fact)

    def check(self, *extra):
        self.queries += 1
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            self.unknown += 1
            raise Inconclusive("solver: unknown")
        return r == z3.sat

    def model(self):
        if self.model_ is None:
            if not self.check():
                raise Infeasible()
            self.model_ = self.solver.model()
        return self.model_

    def assume(self, cond):
        """constrain the inputs; not a branch"""
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        self.add(cond)
        if self.model_ is not None and not z3.is_true(
            self.model_.eval(cond, model_completion=True)
        ):
            self.model_ = None
        # a prefix run was feasible before: check lazily

    def branch(self, cond):
        """truth value of cond on this path (forks when both are feasible)"""
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg = False
        while z3.is_not(cond):
            cond = cond.arg(0)
            neg = not neg
        key = cond.get_id()
        hit = self.decided.get(key)
        if hit is not None:
            return hit[1] != neg
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            self.add(cond if val else z3.Not(cond))
            if self.model_ is not None:
                mv = z3.is_true(self.model_.eval(cond, model_completion=True))
                if mv != val:
                    self.model_ = None
        else:
            m = self.model()
            val = z3.is_true(m.eval(cond, model_completion=True))
            other = z3.Not(cond) if val else cond
            if self.check(other):
                self.pending.append(self.trace + [not val])
            self.add(cond if val else z3.Not(cond))
        self.pos += 1
        self.trace.append(val)
        self.decided[key] = (cond, val)
        return val != neg

    def enum_int(self, expr, what="int"):
        """concretise an integer expression, forking over all its values"""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        for _ in range(self.MAX_ENUM):
            if self.pos < len(self.prefix):
                # replaying: the value tried is part of the recorded trace
                v = self._replay_value()
            else:
                v = self.model().eval(expr, model_completion=True).as_long()
                self._record_value(v)
            if self.branch(expr == v):
                return v
        raise Inconclusive("too many values of a symbolic " + what)

    def _record_value(self, v):
        self.trace.append(("v", v))
        self.pos += 1

    def _replay_value(self):
        tag, v = self.prefix[self.pos]
        self.pos += 1
        self.trace.append((tag, v))
        return v

    def label(self, name):
        self.labels.add(name)

    # -- variables --------------------------------------------------------
    def int_var(self, name, lo=None, hi=None):
        x = z3.Int(name)
        if lo is not None:
            self.assume(x >= lo)
        if hi is not None:
            self.assume(x <= hi)
        return x

    def pick(self, name, n):
        """an integer in range(n), decided now"""
        if n == 1:
            self.vars[name] = ("const", 0)
            return 0
        x = self.int_var(name, 0, n - 1)
        self.vars[name] = ("int", x)
        for i in range(n - 1):
            if self.branch(x == i):
                return i
        return n - 1

    def concrete_vars(self):
        """values of every declared variable in a model of the path"""
        m = self.model()
        res = {}
        for name, (kind, payload) in self.vars.items():
            if kind == "const":
                res[name] = payload
            elif kind == "int":
                res[name] = m.eval(payload, model_completion=True).as_long()
            elif kind == "bool":
                res[name] = bool(m.eval(payload, model_completion=True).as_long())
            elif kind == "str":
                res[name] = "".join(
                    chr(
                        c
                        if isinstance(c, int)
                        else m.eval(c, model_completion=True).as_long()
                    )
                    for c in payload
                )
        return res

    # -- journal ----------------------------------------------------------
    def undo(self):
        for kind, o, k, old in reversed(self.journal):
            if kind == "a":
                try:
                    if old is MISSING:
                        delattr(o, k)
                    else:
                        setattr(o, k, old)
                except AttributeError:
                    pass
        self.journal = []
        for c, copy in self.touched.values():
            if isinstance(c, list):
                c[:] = copy
            elif isinstance(c, dict):
                c.clear()
                c.update(copy)
            elif isinstance(c, set):
                c.clear()
                c.update(copy)
        self.touched = {}
        self.symdicts = {}
        for c in self.caches:
            c.cache_clear()

    def touch(self, c):
        if self.active and id(c) not in self.touched:
            if isinstance(c, list):
                self.touched[id(c)] = (c, list(c))
            elif isinstance(c, dict):
                self.touched[id(c)] = (c, list(c.items()))
            elif isinstance(c, set):
                self.touched[id(c)] = (c, set(c))

    def jattr(self, o, k):
        if self.active:
            d = getattr_static_dict(o)
            old = d.get(k, MISSING) if d is not None else MISSING
            self.journal.append(("a", o, k, old))


class _Missing:
    pass


MISSING = _Missing()


def getattr_static_dict(o):
    try:
        return object.__getattribute__(o, "__dict__")
    except AttributeError:
        return None


ENG = Engine()

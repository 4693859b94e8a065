"""
Declaration of a scenario's inputs.  The same builder code runs with symbolic
choices (exploration) and with the concrete values of one path model (replay).
"""

import z3

from . import values as V
from .core import ENG, Infeasible

SURR = (0xD800, 0xDFFF)


class SymChoices:
    symbolic = True

    def pick(self, name, options):
        return options[ENG.pick(name, len(options))]

    def bool(self, name):
        return ENG.pick(name, 2) == 1

    def int(self, name, lo, hi):
        x = ENG.int_var(name, lo, hi)
        ENG.vars[name] = ("int", x)
        return V.mkint(x)

    def str(self, name, lengths, alphabet=None, exclude="", first_exclude=""):
        """
        a string of one of the given lengths; alphabet: list of code point
        ranges (default: 1..bound of the run)
        """
        if isinstance(lengths, int):
            lengths = [lengths]
        n = self.pick(name + "#len", list(lengths))
        alphabet = alphabet or V.ALPHABET
        chars = []
        for i in range(n):
            c = z3.Int("%s[%d]" % (name, i))
            alts = []
            for a, b in alphabet:
                alts.append(z3.And(c >= a, c <= b))
            ENG.assume(V.Or(alts))
            if alphabet[-1][1] >= SURR[0]:
                ENG.assume(z3.Or(c < SURR[0], c > SURR[1]))
            for ch in exclude + (first_exclude if i == 0 else ""):
                ENG.assume(c != ord(ch))
            chars.append(c)
        ENG.vars[name] = ("str", chars)
        return V.mkstr(chars)

    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def reach(self, label):
        ENG.label(label)


class ConcChoices:
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.labels = set()

    def pick(self, name, options):
        return options[self.values.get(name, 0)]

    def bool(self, name):
        return self.values.get(name, 0) == 1

    def int(self, name, lo, hi):
        return self.values[name]

    def str(self, name, lengths, alphabet=None, exclude="", first_exclude=""):
        return self.values[name]

    def assume(self, cond):
        if not cond:
            raise AssumptionFailed()

    def reach(self, label):
        self.labels.add(label)


class AssumptionFailed(Exception):
    pass

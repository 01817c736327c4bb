"""Shared vocabulary of the checks."""
import random


class Violation(Exception):
    """The property is refuted by what was observed."""

    def __init__(self, key, detail):
        super().__init__(key)
        self.key = key          # stable identity of what fails
        self.detail = detail    # the witness


class Inconclusive(Exception):
    """The observation decides nothing (bounds exceeded, ...)."""


class Ctx:
    def __init__(self, wicked, prop, seed, tier, variant, worker=0, env=None):
        self.w = wicked
        self.prop, self.seed, self.tier, self.variant = prop, seed, tier, variant
        self.worker = worker
        self.stats = {}
        self.case = None
        self.trace = []          # the calls of the current case, for the witness

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rng(self, i):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, i))

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def top(self, name, n):
        k = "max_" + name
        if n > self.stats.get(k, -1):
            self.stats[k] = n

    def log(self, s):
        self.trace.append(str(s))
        if len(self.trace) > 400:
            del self.trace[:100]

    def fail(self, key, detail):
        raise Violation(key, detail + ("\ncalls:\n  " + "\n  ".join(self.trace[-60:]) if self.trace else ""))

    def raises(self, fn, key, what, types=(RuntimeError, ValueError, IndexError, OverflowError, TypeError,
                                          ZeroDivisionError)):
        """fn must raise one of the ordinary exceptions; returns the exception"""
        try:
            r = fn()
        except types as e:
            return e
        self.fail(key, "%s: expected an exception, got %r" % (what, r))


class Result:
    """What one case observed. sig identifies the case, nontrivial says whether it counts."""

    def __init__(self, sig, nontrivial=True, sample=None):
        self.sig, self.nontrivial, self.sample = sig, nontrivial, sample

"""Declaration of generated checks.

A property module declares sub-checks:

    @check(strategy, quick=400, thorough=8000, rule="...")
    def name(case, ctx): ...

`strategy` generates a JSON-able case; the function raises Violation (use the
helpers below) when the property does not hold for the case, and calls
ctx.nontrivial(label) when the case exercises the interesting part of it.
"""
import json
import math

import numpy as np


class Violation(Exception):
    """The property does not hold for the case."""


class HarnessError(Exception):
    """The harness is broken (never a violation)."""


class Check:
    def __init__(self, func, strategy, quick, thorough, rule, variant, shards, isolate):
        self.func = func
        self.name = func.__name__
        self.strategy = strategy
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.variant = variant
        self.shards = shards
        self.isolate = isolate


REGISTRY = {}
KNOWN = {}


def check(strategy, quick, thorough=None, rule="", variant="plain", shards=None, isolate=False):
    def _decorate(func):
        item = Check(func, strategy, quick, thorough or quick * 20, rule, variant, shards, isolate)
        REGISTRY[func.__name__] = item
        return func
    return _decorate


def known_probe(key):
    """Declares a probe of a known finding: returns a description when the
    finding is still there, None when it is gone."""
    def _decorate(func):
        KNOWN[key] = func
        return func
    return _decorate


class Context:
    """Per-worker statistics of the generated cases."""

    def __init__(self):
        self.evaluations = 0
        self.labels = {}
        self.nontrivial_cases = set()
        self.samples = []
        self._current = None
        self._flag = False

    def start(self, text):
        self.evaluations += 1
        self._current = text
        self._flag = False

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def nontrivial(self, label=None):
        if label:
            self.label(label)
        if not self._flag:
            self._flag = True
            key = hash(self._current)
            if key not in self.nontrivial_cases:
                self.nontrivial_cases.add(key)
                n = len(self.nontrivial_cases)
                if n in (1, 3, 10, 30, 100, 300) and len(self.samples) < 4:
                    self.samples.append(json.loads(self._current))


# ---------------------------------------------------------------------------
# assertion helpers

def fail(msg, /, **values):
    raise Violation(msg + "".join("\n  %s = %s" % (k, _short(v)) for k, v in values.items()))


def _short(value):
    text = repr(value)
    return text if len(text) < 1500 else text[:1500] + "..."


def require(cond, msg, /, **values):
    if not cond:
        fail(msg, **values)


def asfloat(value, what="result"):
    arr = np.asarray(value)
    if arr.dtype != np.float64:
        fail("%s is not an array of doubles" % what, dtype=str(arr.dtype), value=value)
    return arr


def require_shape(value, shape, what="result"):
    arr = asfloat(value, what)
    require(arr.shape == tuple(shape), "%s has a wrong shape" % what, got=arr.shape, expected=tuple(shape))
    return arr


def same(a, b):
    """bit-wise equality treating all NaNs as equal (and -0 equal to 0)"""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def require_same(got, expected, msg, /, **values):
    if not same(got, expected):
        fail(msg, **dict(values, got=np.asarray(got).tolist(), expected=np.asarray(expected).tolist()))


def require_close(got, expected, tol, msg, /, **values):
    """|got - expected| <= tol element-wise, equal infinities and NaNs; tol may be
    an array."""
    got, expected = np.asarray(got, dtype=float), np.asarray(expected, dtype=float)
    if got.shape != expected.shape:
        fail(msg + " (shape)", **dict(values, got=got.shape, expected=expected.shape))
    with np.errstate(invalid="ignore"):
        good = (np.abs(got - expected) <= tol) | (got == expected) | (np.isnan(got) & np.isnan(expected))
    if not np.all(good):
        bad = np.argwhere(~good)
        idx = tuple(bad[0]) if got.ndim else ()
        tol_ = np.broadcast_to(tol, got.shape)
        fail(msg, **dict(values, index=tuple(int(i) for i in idx), got=float(got[idx]), expected=float(expected[idx]),
                         tolerance=float(tol_[idx]), n_bad=len(bad)))


def angle_diff(a, b, turn=360.0):
    """difference of angles reduced to [-turn/2, turn/2]"""
    d = np.asarray(a, dtype=float) - np.asarray(b, dtype=float)
    return d - turn * np.round(d / turn)


def isnan(value):
    return isinstance(value, float) and math.isnan(value)

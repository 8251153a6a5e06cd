"""Monitor object handed to every workload: records events, evaluates oracles, never stops the run."""
import collections

import numpy as np


class Unsupported(Exception):
    pass


class Skip(Exception):
    """The workload could not be set up (e.g. the reference mean-field did not converge); nothing is decided."""


def _flat(x):
    if isinstance(x, (tuple, list)):
        return np.concatenate([_flat(y) for y in x]) if len(x) else np.zeros(0)
    return np.asarray(x).ravel()


def _shape(x):
    if isinstance(x, (tuple, list)):
        return [_shape(y) for y in x]
    return list(np.shape(x))


class Mon:
    def __init__(self, case):
        self.case = case
        self.events = collections.Counter()
        self.distinct = set()
        self.violations = []
        self.margins = {}
        self.nchecks = 0
        self.notes = []

    def event(self, name, n=1):
        self.events[name] += int(n)

    def seen(self, *key):
        self.distinct.add("/".join(str(k) for k in key))

    def note(self, s):
        self.notes.append(str(s)[:300])

    def violate(self, name, detail=""):
        if len(self.violations) < 40:
            self.violations.append(dict(name=name, detail=str(detail)[:3000]))

    def true(self, name, cond, detail=""):
        self.nchecks += 1
        self.events["chk:" + name] += 1
        if not bool(cond):
            self.violate(name, detail)
            return False
        return True

    def eq(self, name, a, b, detail=""):
        return self.true(name, a == b, "%r != %r %s" % (a, b, detail))

    def close(self, name, a, b, tol, detail=""):
        """|a-b|_max <= tol (absolute)."""
        self.nchecks += 1
        self.events["chk:" + name] += 1
        try:
            fa, fb = _flat(a), _flat(b)
        except Exception as e:
            self.violate(name, "cannot compare: %r" % e)
            return False
        if fb.size != fa.size and fb.size != 1:
            self.violate(name, "shape %r != %r %s" % (_shape(a), _shape(b), detail))
            return False
        if fa.size == 0:
            return True
        d = np.abs(fa - fb)
        err = float(np.max(d))
        if not np.isfinite(err):
            self.violate(name, "non-finite %s" % detail)
            return False
        self.margins[name] = max(self.margins.get(name, 0.0), err / tol)
        if err > tol:
            i = int(np.argmax(d))
            self.violate(name, "max error %.3e > tol %.1e (%r vs %r) %s"
                         % (err, tol, fa[i], fb[i] if fb.size > 1 else fb[0], detail))
            return False
        return True

    def zero(self, name, a, tol, detail=""):
        return self.close(name, a, 0.0, tol, detail)

    def raises(self, name, fn, exc=Exception, detail=""):
        self.nchecks += 1
        self.events["chk:" + name] += 1
        try:
            r = fn()
        except exc as e:
            self.events["raised:%s" % type(e).__name__] += 1
            return True
        self.violate(name, "no exception, returned %r %s" % (type(r), detail))
        return False

    def result(self):
        return dict(nchecks=self.nchecks, events=dict(self.events), distinct=sorted(self.distinct),
                    violations=self.violations, margins=self.margins, notes=self.notes)

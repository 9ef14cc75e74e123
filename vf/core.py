"""What a check is made of.

A check module has
    PROPERTY    the property it decides
    NEEDS_EXT   whether the C++ extension has to be built
    RULE        what one evaluation is, and when it counts as a distinct non-trivial one
    cases(rng, tier)     yields the workload: JSON-able dicts
    run(case, mon)       executes one of them on the real code; monitors report through mon
"""

import hashlib, json


class Violation(Exception):
    """Raised by a monitor: the property does not hold in this execution."""


def _key(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).hexdigest()


class Monitor:
    """Counts what the oracles saw. One per worker process."""

    def __init__(self):
        self.evals = 0
        self.distinct = set()
        self.kinds = {}
        self.samples = []

    def seen(self, kind, key=None, nontrivial=True, sample=None):
        """One oracle decision was made on an observed event."""
        self.evals += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        if nontrivial:
            self.distinct.add(_key((kind, key if key is not None else self.evals)))
        if sample is not None and len(self.samples) < 4:
            self.samples.append("%s: %s" % (kind, str(sample)[:300]))

    def check(self, ok, kind, key=None, msg="", nontrivial=True, sample=None):
        self.seen(kind, key, nontrivial, sample)
        if not ok:
            raise Violation("%s: %s" % (kind, msg() if callable(msg) else msg))

    def fail(self, msg):
        raise Violation(msg)

    def dump(self):
        return {"evals": self.evals, "distinct": sorted(self.distinct), "kinds": self.kinds, "samples": self.samples}


def dumps(x):
    return json.dumps(x, sort_keys=True, default=str)

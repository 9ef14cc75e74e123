"""Unknowns in every container, random residuals and their plain NumPy counterparts, shared by C14, C15 and C20."""

import string
import numpy as np

CONTAINERS = ("np", "jnp", "TFCDict", "TFCDictRobust")
TIMERS = ("process_time", "perf_counter", "monotonic", "time", "thread_time")


class Unknowns:
    """A container layout: how a flat vector of n unknowns is spread over it."""

    def __init__(self, r, n, kind=None):
        self.kind = kind or CONTAINERS[int(r.integers(0, 4))]
        self.n = n
        if self.kind.startswith("TFC"):
            parts = int(r.integers(1, min(8, n) + 1))
            cuts = sorted(int(v) for v in r.choice(np.arange(1, n), parts - 1, replace=False)) if parts > 1 else []
            sizes = [b - a for a, b in zip([0] + cuts, cuts + [n])]
            # keys in no particular order, so that insertion order and sorted order differ
            names = list(r.permutation(["xi", "b", "z9", "Alpha", "eta", "k1", "_a", "y"]))[:parts]
            self.keys = [str(v) for v in names]
            self.shapes = []
            for s in sizes:
                if self.kind == "TFCDictRobust":
                    opts = [(s,)] + [(d, s // d) for d in range(1, s + 1) if s % d == 0] + ([(2, 1, s // 2)] if s % 2 == 0 else []) + ([()] if s == 1 else [])
                    self.shapes.append(tuple(opts[int(r.integers(0, len(opts)))]))
                else:
                    self.shapes.append((s,))

    def make(self, flat, dtype=None, jaxed=True):
        import jax.numpy as jnp
        from tfc.utils import TFCDict, TFCDictRobust
        flat = np.array(flat)
        if self.kind == "np":
            return flat
        if self.kind == "jnp":
            return jnp.array(flat)
        arr = jnp.array if jaxed else np.array
        vals, i = [], 0
        for s in self.shapes:
            k = int(np.prod(s))
            vals.append(arr(flat[i:i + k]).reshape(s))
            i += k
        return {"TFCDict": TFCDict, "TFCDictRobust": TFCDictRobust}[self.kind](zip(self.keys, vals))

    def flat(self, xi):
        """Inside a traced residual, in the order of this layout."""
        import jax.numpy as jnp
        if not self.kind.startswith("TFC"):
            return xi
        return jnp.concatenate([jnp.ravel(xi[k]) for k in self.keys])

    def look(self, mon, xi, what):
        """The flat values of a result, whose structure has to be the one of the guess."""
        from tfc.utils import TFCDict, TFCDictRobust
        if not self.kind.startswith("TFC"):
            mon.check(not isinstance(xi, dict) and np.shape(xi) == (self.n,), "structure", None, lambda: "%s: shape %s for a guess of shape %s" % (what, np.shape(xi), (self.n,)))
            return np.asarray(xi)
        want = {"TFCDict": TFCDict, "TFCDictRobust": TFCDictRobust}[self.kind]
        mon.check(type(xi) is want, "structure", None, lambda: "%s is a %s for a guess that is a %s" % (what, type(xi).__name__, self.kind))
        mon.check(list(xi.keys()) == self.keys, "structure", None, lambda: "%s: keys %s for a guess with %s" % (what, list(xi.keys()), self.keys))
        got = [np.shape(xi[k]) for k in self.keys]
        mon.check(got == self.shapes, "structure", None, lambda: "%s: shapes %s for a guess with %s" % (what, got, self.shapes))
        return np.concatenate([np.asarray(xi[k]).ravel() for k in self.keys])


def snapshot(x):
    """Bits of everything in a nest of containers."""
    if isinstance(x, dict):
        return (type(x).__name__, tuple((k, snapshot(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snapshot(v) for v in x))
    if hasattr(x, "shape"):
        a = np.asarray(x)
        return (a.shape, str(a.dtype), a.tobytes())
    return repr(x)


def const_choice(r, nargs):
    """constant_arg_nums for a residual with nargs extra arguments, in any order."""
    k = int(r.integers(0, nargs + 1))
    out = [int(v) for v in r.permutation(np.arange(1, nargs + 1))[:k]]
    if out and r.integers(0, 4) == 0:  # counted from the end, or named twice
        out = [v - (nargs + 1) if r.integers(0, 2) else v for v in out]
        if r.integers(0, 2):
            out.append(out[0])
    return out


def const_set(o, nargs):
    """The numbers of the constant arguments, each once and positive."""
    return {range(nargs + 1)[k] for k in o.get("constant_arg_nums", [])}

"""Workload generation shared by the checks. Everything is drawn from a numpy generator seeded by the case."""

import numpy as np
from . import oracle as o

ALL1 = ("CP", "LeP", "LaP", "HoPpro", "HoPphy", "FS") + o.ELMS
UTFC = ("CP", "LeP", "FS") + o.ELMS
LIMITED = ("ELMSigmoid", "ELMTanh", "ELMSwish")  # the C++ backend documents 8 derivatives for these


TRACED = ("ELMSigmoid", "ELMTanh", "ELMSin", "ELMSwish")  # the Python backend compiles these for each shape


def slow(basis, be):
    return be == "Python" and basis in TRACED


def rng(case):
    return np.random.default_rng(case["seed"])


def domain(r, spread=1.0):
    """x0, xf: of any sign, size and direction."""
    k = r.integers(0, 8)
    if k == 0:
        return 0.0, 1.0
    if k == 1:
        return -1.0, 1.0
    if k == 2:
        x0 = float(r.uniform(-3, 3))
        return x0, x0 - float(10 ** r.uniform(-1, 1))
    if k == 3:
        x0 = float(r.uniform(-50, 50))
        return x0, x0 + float(10 ** r.uniform(-2, 2) * spread)
    if k == 4:
        return 0.0, float(10 ** r.uniform(-3, 3) * spread)
    x0 = float(r.uniform(-3, 3))
    return x0, x0 + float(10 ** r.uniform(-1, 1))


def points(r, basis, x0, xf, n, outside=True):
    """n points of the domain, its ends and middle among them, and some outside of it."""
    if basis in o.UNMAPPED:
        x = r.uniform(-4, 6, n)
        sp = [0.0, 1.0, -1.0]
    else:
        lo, hi = (-0.25, 1.25) if outside else (0.0, 1.0)
        x = x0 + (xf - x0) * r.uniform(lo, hi, n)
        sp = [x0, xf, x0 + (xf - x0) * 0.5, x0 + (xf - x0) * 0.25]
    for i, s in enumerate(sp):
        if n > 3 * i + 2:
            x[int(r.integers(0, n))] = s
    return x


def length(r, big=False):
    k = r.integers(0, 8)
    if k == 0:
        return int(r.integers(0, 2))
    if k == 1:
        return 2
    if big and k == 2:
        return int(r.choice([1025, 4097, 9001]))
    return int(r.integers(3, 40))


def size(r, big=True):
    """Number of basis functions."""
    k = r.integers(0, 8)
    if k < 4:
        return int(k) + 1
    if k == 4 and big:
        return int(r.integers(25, 61))
    return int(r.integers(4, 20))


def nc1(r, m, maxn=None):
    """Indices to remove, sorted or not; at most m-1 of them."""
    maxn = (m - 1) if maxn is None else min(maxn, m - 1)
    n = int(r.integers(0, maxn + 1)) if maxn > 0 else 0
    return [int(k) for k in r.permutation(m)[:n]]


def anyhow(r, a):
    """The same array of one or two dimensions in another memory layout."""
    a = np.asarray(a)
    k = int(r.integers(0, 5))
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        return np.repeat(a, 2, axis=-1)[..., ::2]
    if k == 2:
        return a[..., ::-1].copy()[..., ::-1]
    if k == 3:
        return np.concatenate([a[None]] * 2)[1]
    return a


def layout(r, x):
    """The same numbers in another memory layout."""
    x = np.asarray(x, dtype=float)
    k = r.integers(0, 6)
    if k == 0:
        y = np.zeros(3 * x.size + 1)
        y[1::3] = x
        return y[1::3][: x.size]
    if k == 1:
        return x[::-1].copy()[::-1]
    if k == 2:
        y = np.zeros((x.size, 2))
        y[:, 1] = x
        return y[:, 1]
    if k == 3:
        y = x.copy()
        y.setflags(write=False)
        return y
    return x.copy()


def make1(BF, basis, x0, xf, nC, m):
    return getattr(BF, basis)(x0, xf, np.array(nC, dtype=np.int32), m)


def wb(B):
    return (np.array(B.w, dtype=float), np.array(B.b, dtype=float)) if hasattr(B, "w") else (None, None)


def seeds(rng, n):
    return [rng.randrange(2 ** 31) for _ in range(n)]


def compare(mon, kind, got, want, tol, key, what, shape=None):
    """Oracle step shared by the numeric checks."""
    got = np.asarray(got)
    mon.check(got.shape == want.shape, kind, (key, "shape"), lambda: "%s: shape %s instead of %s" % (what, got.shape, want.shape))
    if want.size == 0:
        return
    w = o.worst(got, want, tol)
    mon.check(w is None, kind, key, lambda: "%s: entry %s is %r instead of %r (off by %.3g, tolerance %.3g)"
              % (what, tuple(map(int, w[0])), got[w[0]].item(), float(want[w[0]]) if not np.iscomplexobj(want) else complex(want[w[0]]), w[1], w[2]),
              nontrivial=bool(np.any(np.asarray(want) != 0)), sample=what)

"""1-D basis functions against their definition."""

import os
import numpy as np
from .. import gen, oracle as o

PROPERTY = "C04"
RULE = ("One evaluation is one matrix (a basis object, array of points and derivative order) compared entry by entry with the "
        "definition in extended precision, or one oracle value compared with the closed form at 60 digits. "
        "Distinct: by basis, backend, number of functions, order, and domain; all-zero matrices do not count.")
REPEAT = 3
MIN_EVALS = 800
ASSUMPTIONS = ["tolerances are multiples of the rounding error bound of the recurrences; the real code stays below 1% of them",
               "entries where a ReLU argument is within rounding of its kink are not judged"]


def setup():
    global BF, BF_Py, utfc, np_
    from tfc import utfc
    from tfc.utils import BF, BF_Py


def cases(rng, tier):
    reps = 8 if tier == "quick" else 60
    out = []
    for basis in gen.ALL1:
        for be in ("C++", "Python"):
            for s in gen.seeds(rng, 1 if tier == "quick" else 3):
                out.append({"kind": "grid", "basis": basis, "be": be, "seed": s})
            for s in gen.seeds(rng, reps):
                out.append({"kind": "random", "basis": basis, "be": be, "seed": s})
            for s in gen.seeds(rng, 1 if tier == "quick" else 12):
                out.append({"kind": "wide", "basis": basis, "be": be, "seed": s})
            for s in gen.seeds(rng, 2 if tier == "quick" else 10):
                if basis in gen.UTFC:
                    out.append({"kind": "utfc", "basis": basis, "be": be, "seed": s})
        for be in ("C++", "Python") if basis in o.ELMS else ():
            for s in gen.seeds(rng, 1 if tier == "quick" else 8):
                out.append({"kind": "tails", "basis": basis, "be": be, "seed": s})
        for s in gen.seeds(rng, 1 if tier == "quick" else 5):
            if basis not in o.ELMS:
                out.append({"kind": "oracle", "basis": basis, "seed": s})
    rng.shuffle(out)
    return out


def dmax(basis, be):
    if basis in gen.LIMITED:
        return 8 if be == "C++" or os.environ.get("VF_TIER") == "thorough" else 7 if basis == "ELMTanh" else 6
    return 14 if basis not in o.ELMS else 10


def judge(mon, basis, be, B, x0, xf, m, x, d, kind, arg=None):
    w, b = gen.wb(B)
    got = B.H(x if arg is None else arg, d, True)
    want, tol = o.H1(basis, x0, xf, m, x, d, w, b)
    gen.compare(mon, kind, got, want, tol, (basis, be, m, d, x0, xf, len(x)),
                "%s (%s) on [%r, %r] with %d functions, %d points, derivative %d" % (basis, be, x0, xf, m, len(x), d))


def weights(r, B, m):
    """Some ELMs get weights of their own: zeros, equal ones, large ones."""
    k = r.integers(0, 4)
    if hasattr(B, "w") and k < 2:
        w = r.uniform(-6, 6, m)
        b = r.uniform(-6, 6, m)
        if k == 0:
            w[r.integers(0, m)] = 0.0
            b[r.integers(0, m)] = 0.0
        if r.integers(0, 4) == 0:  # far into the tails
            w *= 10 ** float(r.uniform(1, 3))
            b *= 10 ** float(r.uniform(0, 3))
        B.w = gen.anyhow(r, w.reshape(np.shape(B.w)))
        B.b = gen.anyhow(r, b.reshape(np.shape(B.b)))
        return k
    return None


def run(case, mon):
    r = gen.rng(case)
    basis = case["basis"]
    if case["kind"] == "oracle":
        for _ in range(12):
            k, d = int(r.integers(0, 30)), int(r.integers(0, 10))
            z = float(r.uniform(-1.3, 1.3) if basis in o.POLY else r.uniform(-4, 6))
            v, t = o.values(basis, [z], k + 1, d)
            e = o.exact(basis, k, d, z)
            mon.check(abs(float(v[0, k]) - float(e)) <= 1e-3 * t[0, k] + 1e-14 * abs(float(e)) + 1e-300, "oracle-selfcheck",
                      (basis, k, d, z), "the oracle disagrees with the closed form: %s %d %d %r" % (basis, k, d, z))
        return
    be = case["be"]
    lib = BF if be == "C++" else BF_Py
    D = dmax(basis, be)
    if case["kind"] == "grid":
        slow = gen.slow(basis, be)
        for m in (1, 2, 3, 4, 5, 6, int(r.integers(7, 13))) if not slow else (1, 5):
            x0, xf = gen.domain(r)
            B = gen.make1(lib, basis, x0, xf, [], m)
            weights(r, B, m)
            for d in range(0, D + 1):
                judge(mon, basis, be, B, x0, xf, m, gen.points(r, basis, x0, xf, 6), d, "grid")
        return
    if case["kind"] == "random":
        x0, xf = gen.domain(r)
        slow = gen.slow(basis, be)
        m = gen.size(r) if not slow else int(r.choice([1, 5, 12]))
        B = gen.make1(lib, basis, x0, xf, gen.nc1(r, m), m)
        weights(r, B, m)
        for _ in range(5 if not slow else 2):
            n = gen.length(r, big=True) if not slow else int(r.choice([1, 6]))
            x = gen.points(r, basis, x0, xf, n)
            d = int(r.integers(0, (3 if slow else D) + 1))
            arg = None
            if be == "C++":
                k = r.integers(0, 4)
                if k == 0:
                    arg = gen.layout(r, x)
                elif k == 1:
                    arg = x.astype(np.float32)
                    x = arg.astype(float)
                elif k == 2:
                    arg = np.round(x).astype(np.int64)
                    x = arg.astype(float)
            judge(mon, basis, be, B, x0, xf, m, x, d, "random", arg)
            # one of the points alone, and a subset in another order
            i = r.permutation(n)[: max(1, n // 3 if not slow else 1)]
            judge(mon, basis, be, B, x0, xf, m, x[i], d, "subset")
        return
    if case["kind"] == "tails":  # arguments far beyond what exp can take, of both signs
        slow = gen.slow(basis, be)
        x0, xf = gen.domain(r)
        m = 6
        B = gen.make1(lib, basis, x0, xf, [], m)
        w = 10 ** r.uniform(1, 4, m) * r.choice([-1, 1], m)
        w[:2] = 5000.0, -5000.0
        B.w = w.reshape(np.shape(B.w))
        B.b = r.uniform(-30, 30, m).reshape(np.shape(B.b))
        for d in (0, 1, 2, int(r.integers(3, D + 1))) if not slow else (0, 1, 2):
            judge(mon, basis, be, B, x0, xf, m, gen.points(r, basis, x0, xf, 6), d, "tails")
        return
    if case["kind"] == "wide":  # many functions, high orders, many points
        slow = gen.slow(basis, be)
        for m in (int(r.integers(61, 130)), int(r.integers(130, 160 if basis in o.UNMAPPED else 300))) if not slow else (140,):
            x0, xf = gen.domain(r) if r.integers(0, 2) else (-1.0, 1.0)
            B = gen.make1(lib, basis, x0, xf, [0, m - 1], m)
            weights(r, B, m)
            for _ in range(3 if not slow else 1):
                d = int(r.integers(0, (D if basis in o.ELMS else 22) + 1)) if not slow else int(r.integers(0, 3))
                x = gen.points(r, basis, x0, xf, int(r.choice([3, 70, 300])) if not slow else 3, outside=bool(r.integers(0, 2)) and m < 130)
                judge(mon, basis, be, B, x0, xf, m, x, d, "wide")
        return
    # through the class
    x0, xf = gen.domain(r)
    slow = gen.slow(basis, be)
    deg = int(r.integers(2, 20)) if not slow else 4
    u = utfc(int(r.integers(3, 30)) if not slow else 6, 0, deg, basis=basis, x0=x0, xf=xf, backend=be)
    w, b = gen.wb(u.basisClass)
    jnp = __import__("jax.numpy").numpy
    for d, f in ((0, u.H), (1, u.dH), (2, u.d2H), (4, u.d4H), (8, u.d8H)):
        if slow and d > 4 and basis in gen.LIMITED:
            continue
        for x in (np.asarray(u.x), gen.points(r, basis, x0, xf, gen.length(r) if not slow else 1)):
            want, tol = o.H1(basis, x0, xf, deg + 1, x, d, w, b)
            for arg in (x, jnp.asarray(x)):
                gen.compare(mon, "utfc", f(arg), want, tol, (basis, be, deg, d, x0, xf, len(x)),
                            "utfc %s (%s) on [%r, %r], degree %d, derivative %d" % (basis, be, x0, xf, deg, d))

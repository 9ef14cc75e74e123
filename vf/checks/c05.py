"""n-D basis functions against their definition."""

import numpy as np
from .. import gen, oracle as o

PROPERTY = "C05"
RULE = ("One evaluation is one n-D basis matrix compared entry by entry with the products (or ELM sums) of the definition in "
        "extended precision. Distinct: by basis, backend, dimension, size, derivative tuple and domain; all-zero matrices do not count.")
REPEAT = 4
MIN_EVALS = 500
ASSUMPTIONS = ["tolerances are propagated from the univariate rounding bounds",
               "entries where a ReLU argument is within rounding of its kink are not judged",
               "derivative orders of the C++ sigmoid, tanh and swish ELMs up to 8 in total"]


def setup():
    global BF, BF_Py, mtfc, jnp
    from tfc import mtfc
    from tfc.utils import BF, BF_Py
    import jax.numpy as jnp


def cases(rng, tier):
    q = tier == "quick"
    out = []
    for basis in gen.UTFC:
        for be in ("C++", "Python"):
            for kind, n in (("grid", 1 if q else 4), ("random", 7 if q else 60), ("wide", 1 if q else 12), ("mtfc", 3 if q else 25),
                            ("tails", 1 if q else 8)):
                if kind == "tails" and basis not in o.ELMS:
                    continue
                for s in gen.seeds(rng, n):
                    out.append({"kind": kind, "basis": basis, "be": be, "seed": s})
    rng.shuffle(out)
    return out


def make(lib, basis, x0, xf, nC, m):
    if basis in o.ELMS:
        return getattr(lib, "n" + basis)(np.array(x0), np.array(xf), np.array(nC, dtype=np.int32), m)
    return getattr(lib, "n" + basis)(np.array(x0), np.array(xf), np.array(nC, dtype=np.int32), m)


def dsum(basis, be):
    if basis in gen.LIMITED:
        return 8 if be == "C++" else 5
    if be == "Python" and basis in gen.TRACED:
        return 6
    return 12


def weights(r, B, dim, m):
    k = r.integers(0, 4)
    if hasattr(B, "w") and k < 2:
        w = r.uniform(-4, 4, (dim, m))
        b = r.uniform(-4, 4, m)
        if k == 0:
            w[r.integers(0, dim), r.integers(0, m)] = 0.0
            b[r.integers(0, m)] = 0.0
        if r.integers(0, 4) == 0:  # far into the tails
            w *= 10 ** float(r.uniform(1, 3))
            b *= 10 ** float(r.uniform(0, 3))
        B.w = gen.anyhow(r, w.reshape(np.shape(B.w)))
        B.b = gen.anyhow(r, b.reshape(np.shape(B.b)))


def pts(r, basis, x0, xf, n):
    return np.array([gen.points(r, basis, a, b, n) for a, b in zip(x0, xf)])


def orders(r, dim, total):
    """A derivative tuple: often low, sometimes concentrated in one variable."""
    k = r.integers(0, 5)
    d = [0] * dim
    if k == 0:
        d[int(r.integers(0, dim))] = int(r.integers(0, total + 1))
    elif k == 1:
        pass
    else:
        for j in range(dim):
            d[j] = int(r.integers(0, min(4, total - sum(d)) + 1))
        d = [d[int(j)] for j in r.permutation(dim)]
    return tuple(d)


def judge(mon, basis, be, B, x0, xf, m, x, d, kind, arg=None, f=None, gone=()):
    w, b = gen.wb(B)
    got = B.H(x if arg is None else arg, d, True) if f is None else f
    want, tol, idx = o.Hn(basis, x0, xf, m, x, d, w, b)
    if gone:
        want, tol = np.delete(want, gone, axis=1), np.delete(tol, gone, axis=1)
    gen.compare(mon, kind, got, want, tol, (basis, be, len(x0), m, d, tuple(x0), x.shape[1]),
                "%s (%s) in %d dimensions on %r-%r with %d functions per dimension, %d points, derivative %s"
                % (basis, be, len(x0), x0, xf, m, x.shape[1], d))


def run(case, mon):
    r = gen.rng(case)
    basis, be = case["basis"], case["be"]
    lib = BF if be == "C++" else BF_Py
    slow = gen.slow(basis, be)
    elm = basis in o.ELMS
    if case["kind"] == "grid":
        import itertools
        for dim in (1, 2, 3) if not slow else (2, 3):
            ms = (1, 2, 3, 4) if not slow else (4,)
            for m in ms:
                dom = [gen.domain(r) for _ in range(dim)]
                x0, xf = [a for a, _ in dom], [b for _, b in dom]
                B = make(lib, basis, x0, xf, [] if elm else [[-1]] * dim, m)
                weights(r, B, dim, m)
                for d in itertools.product(range(3 if dim < 3 or slow else 2), repeat=dim):
                    if sum(d) > dsum(basis, be) or (slow and dim == 3 and sum(d) > 2):
                        continue
                    judge(mon, basis, be, B, x0, xf, m, pts(r, basis, x0, xf, 6), d, "grid")
        return
    if case["kind"] == "random":
        dim = int(r.choice([1, 2, 2, 3, 3, 4, 5])) if not slow else int(r.choice([2, 3]))
        mmax = {1: 25, 2: 12, 3: 7, 4: 5, 5: 4}[dim]
        m = int(r.integers(1, mmax + 1)) if not slow else 4
        if elm and not slow:
            m = int(r.integers(1, 30))
        if be == "Python" and not elm:
            m = min(m, {1: 25, 2: 8, 3: 5, 4: 3, 5: 3}[dim])
        dom = [gen.domain(r) for _ in range(dim)]
        x0, xf = [a for a, _ in dom], [b for _, b in dom]
        nC = gen.nc1(r, m) if elm else [[-1]] * dim
        B = make(lib, basis, x0, xf, nC, m)
        weights(r, B, dim, m)
        for _ in range(5 if not slow else 2):
            n = gen.length(r, big=dim < 4) if not slow else 6
            x = pts(r, basis, x0, xf, n)
            d = orders(r, dim, dsum(basis, be))
            arg = None
            if be == "C++":
                k = r.integers(0, 5)
                if k == 0:
                    arg = np.asfortranarray(x)
                elif k == 1:
                    arg = np.repeat(x, 2, axis=1)[:, ::2]
                elif k == 2:
                    arg = x.astype(np.float32)
                    x = arg.astype(float)
                elif k == 3:
                    arg = jnp.asarray(x)
            judge(mon, basis, be, B, x0, xf, m, x, d, "random", arg)
        return
    if case["kind"] == "tails":  # arguments far beyond what exp can take, of both signs
        dim, m = 2 if slow else int(r.integers(1, 4)), 6
        dom = [gen.domain(r) for _ in range(dim)]
        x0, xf = [a for a, _ in dom], [b for _, b in dom]
        B = make(lib, basis, x0, xf, [], m)
        w = 10 ** r.uniform(1, 4, (dim, m)) * r.choice([-1, 1], (1, m))
        w[:, :2] = 5000.0, -5000.0
        B.w = w.reshape(np.shape(B.w))
        B.b = r.uniform(-30, 30, m).reshape(np.shape(B.b))
        for k in range(3):
            d = [0] * dim
            d[int(r.integers(0, dim))] = k
            judge(mon, basis, be, B, x0, xf, m, pts(r, basis, x0, xf, 6), tuple(d), "tails")
        return
    if case["kind"] == "wide":  # many dimensions, or many functions
        for _ in range(2 if be == "C++" else 1):
            dim = int(r.choice([1, 2, 3, 5, 6, 8])) if not slow else int(r.choice([4, 5]))
            m = {1: 90, 2: 40, 3: 14, 5: 6, 6: 5, 8: 3, 4: 3}[dim]
            if elm:
                m = int(r.integers(60, 300)) if not slow else 70
            elif be == "Python":
                m = {1: 90, 2: 25, 3: 8, 5: 3, 6: 3, 8: 2}[dim]
            dom = [gen.domain(r) for _ in range(dim)]
            x0, xf = [a for a, _ in dom], [b for _, b in dom]
            B = make(lib, basis, x0, xf, [] if elm else [[-1]] * dim, m)
            weights(r, B, dim, m)
            judge(mon, basis, be, B, x0, xf, m, pts(r, basis, x0, xf, 12), orders(r, dim, dsum(basis, be) if not slow else 2), "wide")
        if not slow:  # derivatives along the last of many axes
            dim = int(r.choice([6, 7, 8, 9, 10])) if be == "C++" else 7
            m = {6: 4, 7: 3, 8: 3, 9: 2, 10: 2}[dim] if be == "C++" else 2
            if elm:
                m = int(r.integers(3, 12))
            dom = [gen.domain(r) for _ in range(dim)]
            x0, xf = [a for a, _ in dom], [b for _, b in dom]
            B = make(lib, basis, x0, xf, [] if elm else [[-1]] * dim, m)
            weights(r, B, dim, m)
            for _ in range(3 if be == "C++" else 1):
                d = [0] * dim
                d[-1] = 1
                for k in r.choice(dim - 1, 2, replace=False):
                    d[int(k)] = int(r.integers(0, 2))
                judge(mon, basis, be, B, x0, xf, m, pts(r, basis, x0, xf, 5), tuple(d), "many axes")
        return
    dim = int(r.choice([2, 3, 3, 4])) if not slow else 3
    deg = int(r.integers(1, {2: 8, 3: 5, 4: 3}[dim] + 1)) if not slow else 3
    dom = [gen.domain(r) for _ in range(dim)]
    x0, xf = [a for a, _ in dom], [b for _, b in dom]
    nC = 0 if elm else [-1] * dim
    gone = []
    if r.integers(0, 3):
        lists = [gen.nc1(r, deg + 1)[:deg] for _ in range(1 if elm else dim)]
        if elm or all(lists):
            nC = lists[0] if elm else lists
            gone = lists[0] if elm else [j for j, v in enumerate(o.indices(deg + 1, dim)) if all(k in l for k, l in zip(v, lists))]
    t = mtfc([int(k) for k in r.integers(2, 5, dim)] if not slow else [2, 3, 1 + 1], nC, deg, dim=dim, basis=basis, x0=x0, xf=xf, backend=be)
    z = (0,) * (dim - 2)
    named = [("H", (0, 0) + z), ("Hx", (1, 0) + z), ("Hy", (0, 1) + z), ("Hxy", (1, 1) + z), ("Hx2", (2, 0) + z), ("Hy2", (0, 2) + z),
             ("Hx2y", (2, 1) + z)]
    if dim > 2:
        named.append(("Hz", (0, 0, 1) + z[1:]))
    for name, d in named:
        grid = np.array([np.asarray(k) for k in t.x])
        for x in (grid, pts(r, basis, x0, xf, grid.shape[1] if slow else gen.length(r))):
            arg = [jnp.asarray(k) for k in x] if r.integers(0, 2) else list(x)
            judge(mon, basis, be, t.basisClass, x0, xf, deg + 1, x, d, "mtfc." + name, f=getattr(t, name)(*arg), gone=gone)
            judge(mon, basis, be, t.basisClass, x0, xf, deg + 1, x, d, "mtfc." + name, f=getattr(t, name)(*arg, full=True))

"""Removal of basis functions by nC."""

import itertools
import numpy as np
from .. import gen, oracle as o

PROPERTY = "C07"
RULE = ("One evaluation is one matrix without the removed functions compared with the chosen columns of the full matrix of the same "
        "object (whose columns are compared with the definition), or one advertised count compared with the matrices. "
        "Distinct: by class, basis, backend, index set, form, order and path (eager or compiled); empty removals do not count.")
REPEAT = 2
MIN_EVALS = 1500


def setup():
    global utfc, mtfc, jnp, jax
    import jax, jax.numpy as jnp
    from tfc import utfc, mtfc


def cases(rng, tier):
    q = tier == "quick"
    out = []
    for basis in gen.UTFC:
        for be in ("C++", "Python"):
            slow = be == "Python" and basis in gen.TRACED
            for s in gen.seeds(rng, (1 if slow else 4) if q else (6 if slow else 40)):
                out.append({"kind": "u", "basis": basis, "be": be, "seed": s})
            for s in gen.seeds(rng, (1 if slow else 4) if q else (6 if slow else 40)):
                out.append({"kind": "m", "basis": basis, "be": be, "seed": s})
    for basis in ("CP", "LeP", "FS"):
        for be in ("C++", "Python"):
            for dim in (1, 2, 3):
                out.append({"kind": "all", "basis": basis, "be": be, "dim": dim, "seed": rng.randrange(2 ** 31)})
    for basis in o.ELMS:
        for be in ("C++", "Python"):
            for s in gen.seeds(rng, 1 if q else 6):
                out.append({"kind": "sets", "basis": basis, "be": be, "seed": s})
    for basis in ("LaP", "HoPpro", "HoPphy"):
        for s in gen.seeds(rng, 3 if q else 20):
            out.append({"kind": "raw", "basis": basis, "seed": s})
    rng.shuffle(out)
    return out


FORMS = ("list", "tuple", "int32", "int64", "jax", "uint16")


def form(v, f):
    if f == "list":
        return list(v)
    if f == "tuple":
        return tuple(v)
    if f == "jax":
        return jnp.array(v, dtype=jnp.int32)
    return np.array(v, dtype=f)


def judge(mon, what, key, full, part, keep, nfull):
    full, part = np.asarray(full), np.asarray(part)
    mon.check(full.shape[1] == nfull, "full", key, lambda: "%s: full has %d columns instead of %d" % (what, full.shape[1], nfull))
    mon.check(part.shape == (full.shape[0], len(keep)), "columns", key,
              lambda: "%s: %s columns instead of %d" % (what, part.shape, len(keep)), nontrivial=len(keep) < nfull)
    want = full[:, keep]
    ok = np.all(np.abs(part - want) <= 1e-13 * np.abs(want) + 1e-300)
    mon.check(bool(ok), "content", key, lambda: "%s: the columns are not columns %r of the full matrix: %r instead of %r"
              % (what, keep, part[:1].tolist(), want[:1].tolist()), nontrivial=len(keep) < nfull, sample=what)


def run(case, mon):
    r = gen.rng(case)
    basis = case["basis"]
    if case["kind"] == "raw":
        from tfc.utils import BF, BF_Py
        for L in (BF, BF_Py):
            for _ in range(6):
                m = gen.size(r)
                nC = gen.nc1(r, m)
                B = gen.make1(L, basis, 0.0, 1.0, nC, m)
                keep = [k for k in range(m) if k not in nC]
                for d in (0, 1, int(r.integers(2, 9))):
                    x = gen.points(r, basis, 0, 1, int(r.integers(1, 20)))
                    judge(mon, "%s, %d functions, nC=%r, derivative %d" % (basis, m, nC, d), (basis, L.__name__, m, tuple(nC), d),
                          B.H(x, d, True), B.H(x, d, False), keep, m)
                mon.check(B.m == m and B.numC == len(nC), "count", (basis, m, len(nC)), "m, numC")
        return
    be = case["be"]
    slow = gen.slow(basis, be)
    elm = basis in o.ELMS
    if case["kind"] == "u":
        for _ in range(4 if not slow else 2):
            deg = int(r.integers(1, 15)) if not slow else 4
            if not slow and r.integers(0, 6) == 0:
                deg = int(r.integers(60, 270))
            x0, xf = gen.domain(r)
            k = r.integers(0, 4)
            if k == 0:
                n = int(r.integers(-1, deg + 1))
                cut, nC, f = set(range(max(n, 0))), n, "int"
            elif k == 1:
                n = int(r.integers(0, deg + 1))
                cut, nC, f = set(range(n)), np.int32(n), "npint"
            else:
                idx = gen.nc1(r, deg + 1, deg)
                if r.integers(0, 2):
                    idx = sorted(idx)
                if idx and len(idx) < deg and r.integers(0, 4) == 0:
                    idx.append(idx[int(r.integers(0, len(idx)))])  # repeated: counts once
                if r.integers(0, 3) == 0:
                    idx = [deg]  # the last one
                f = FORMS[int(r.integers(0, len(FORMS)))]
                cut, nC = set(idx), form(idx, f)
            u = utfc(6, nC, deg, basis=basis, x0=x0, xf=xf, backend=be)
            keep = [j for j in range(deg + 1) if j not in cut]
            what = "utfc(nC=%r (%s), deg=%d, %s, %s)" % (sorted(cut), f, deg, basis, be)
            key = (basis, be, deg, tuple(sorted(cut)), f)
            B = u.basisClass
            mon.check(B.m == deg + 1 and B.m - B.numC == len(keep), "count", key, lambda: what + ": m=%r, numC=%r" % (B.m, B.numC))
            x = np.asarray(u.x) if slow or r.integers(0, 2) else gen.points(r, basis, x0, xf, int(r.integers(1, 30)))
            for d, name in ((0, "H"), (1, "dH"), (2, "d2H"), (4, "d4H"), (8, "d8H")):
                if slow and d > 2:
                    continue
                g = getattr(u, name)
                full = np.asarray(g(x, full=True))
                w, b = gen.wb(B)
                want, tol = o.H1(basis, x0, xf, deg + 1, x, d, w, b)
                gen.compare(mon, "definition", full, want, tol, key + (d,), what + " full " + name)
                judge(mon, what + " " + name, key + (d,), full, g(x), keep, deg + 1)
                if be == "C++" and (d == 0 or r.integers(0, 3) == 0):
                    xj = jnp.asarray(x)
                    judge(mon, what + " jit " + name, key + (d, "jit"), jax.jit(lambda t: g(t, full=True))(xj), jax.jit(lambda t: g(t))(xj), keep, deg + 1)
        return
    if case["kind"] == "sets":  # index sets of every shape, with few evaluations of each
        deg = 5
        pick = [[0, 2], [0, 5], [2, 0], [1, 2], [5], [4, 1], [0, 1, 2, 3, 4], [5, 3, 1], [1, 2, 3, 4, 5]] + [gen.nc1(r, deg + 1, deg) for _ in range(4)]
        for j, idx in enumerate(pick):
            f = FORMS[int(r.integers(0, len(FORMS)))]
            u = utfc(4, form(idx, f), deg, basis=basis, x0=0.0, xf=2.0, backend=be)
            keep = [k for k in range(deg + 1) if k not in idx]
            x = np.asarray(u.x)
            judge(mon, "utfc(nC=%r, %s, %s)" % (idx, basis, be), ("sets", basis, be, tuple(idx)), u.H(x, full=True), u.H(x), keep, deg + 1)
            dim = 2 + j % 2
            t = mtfc([2] * dim, form(idx, f), deg, dim=dim, basis=basis, x0=[0.0] * dim, xf=[2.0] * dim, backend=be)
            x = [np.asarray(k) for k in t.x]
            judge(mon, "mtfc(nC=%r, %s, %s)" % (idx, basis, be), ("sets m", basis, be, tuple(idx)), t.H(*x, full=True), t.H(*x), keep, deg + 1)
            mon.check(int(t.basisClass.numBasisFunc) == len(keep), "count", ("sets", basis, be, tuple(idx)), "numBasisFunc")
        return
    if case["kind"] == "all":  # every index set of a small product basis
        dim = case["dim"]
        deg = {1: 3, 2: 2, 3: 1}[dim]
        subsets = [list(s) for k in range(0, deg + 1) for s in itertools.combinations(range(deg + 1), k)]
        combos = list(itertools.product(subsets, repeat=dim))
        if len(combos) > 40:
            combos = [combos[int(k)] for k in r.permutation(len(combos))[:40]]
        for combo in combos:
            nC = [list(s) if s else -1 for s in combo]
            one_m(mon, r, basis, be, dim, deg, nC, o.rows_of(nC), "lists", jit=False)
        return
    for _ in range(3 if not slow else 1):
        dim = int(r.choice([1, 2, 2, 3, 4])) if not slow else 2
        deg = int(r.integers(1, {1: 10, 2: 7, 3: 4, 4: 3}[dim] + 1)) if not slow else 4
        if be == "C++" and r.integers(0, 8) == 0:
            deg = int(r.integers(60, 270)) if elm else {1: 100, 2: 24, 3: 9, 4: 5}[dim]
        if elm:
            idx = gen.nc1(r, deg + 1, deg)
            k = r.integers(0, 3)
            if k == 0:
                n = int(r.integers(-1, deg + 1))
                nC, cut, f = n, set(range(max(0, n))), "int"
            else:
                f = FORMS[int(r.integers(0, len(FORMS)))]
                nC, cut = form(idx, f), set(idx)
            one_m(mon, r, basis, be, dim, deg, nC, cut, f, jit=be == "C++", slow=slow)
        else:
            k = r.integers(0, 3)
            if k == 0:
                ints = [int(v) for v in r.integers(-1, deg + 1, dim)]
                f = FORMS[int(r.integers(0, 5))]
                one_m(mon, r, basis, be, dim, deg, form(ints, f), o.rows_of(ints), "ints " + f, jit=be == "C++")
            elif k == 1:
                kk = int(r.integers(1, deg + 1))
                arr = np.array([r.permutation(deg + 1)[:kk] for _ in range(dim)], dtype=np.int32)
                if r.integers(0, 2):  # -1 stands for none, wherever it is in the row
                    arr[r.integers(0, 3, arr.shape) == 0] = -1
                one_m(mon, r, basis, be, dim, deg, jnp.array(arr) if r.integers(0, 2) else arr, [set(map(int, a)) - {-1} for a in arr], "2d", jit=be == "C++")
            else:
                nC, rows = [], []
                for _ in range(dim):
                    if r.integers(0, 2):
                        v = int(r.integers(-1, deg + 1))
                        nC.append(v)
                        rows.append(set(range(max(v, 0))))
                    else:
                        v = gen.nc1(r, deg + 1, deg) or [deg]
                        if len(v) < deg and r.integers(0, 4) == 0:
                            v = v + [v[0]]
                        nC.append(form(v, ("list", "tuple", "int32", "jax")[int(r.integers(0, 4))]))
                        rows.append(set(v))
                one_m(mon, r, basis, be, dim, deg, nC, rows, "mixed", jit=be == "C++")


def one_m(mon, r, basis, be, dim, deg, nC, rows, f, jit, slow=False):
    elm = basis in o.ELMS
    dom = [gen.domain(r) for _ in range(dim)]
    x0, xf = [a for a, _ in dom], [b for _, b in dom]
    t = mtfc([2] * dim, nC, deg, dim=dim, basis=basis, x0=x0, xf=xf, backend=be)
    B = t.basisClass
    idx = [(k,) for k in range(deg + 1)] if elm else o.indices(deg + 1, dim)
    keep = [j for j, v in enumerate(idx) if (v[0] not in rows if elm else not o.removed(rows, v))]
    what = "mtfc(nC=%r (%s), deg=%d, dim=%d, %s, %s)" % (rows, f, deg, dim, basis, be)
    key = (basis, be, dim, deg, repr(rows), f)
    mon.check(int(B.numBasisFunc) == len(keep), "count", key, lambda: what + ": numBasisFunc=%r instead of %d" % (B.numBasisFunc, len(keep)))
    mon.check(int(B.numBasisFuncFull) == len(idx), "count", key, lambda: what + ": numBasisFuncFull=%r instead of %d" % (B.numBasisFuncFull, len(idx)))
    x = [np.asarray(k) for k in t.x]
    names = ["H", "Hx"] + (["Hy", "Hxy", "Hx2y", "Hy2"] if dim > 1 else []) + ["Hx2"]
    orders = {"H": (0, 0), "Hx": (1, 0), "Hy": (0, 1), "Hxy": (1, 1), "Hx2y": (2, 1), "Hy2": (0, 2), "Hx2": (2, 0)}
    for name in names if not slow else names[:2]:
        g = getattr(t, name)
        full = np.asarray(g(*x, full=True))
        d = (orders[name] + (0,) * max(0, dim - 2))[:dim]
        w, b = gen.wb(B)
        want, tol, _ = o.Hn(basis, x0, xf, deg + 1, x, d, w, b)
        gen.compare(mon, "definition", full, want, tol, key + (name,), what + " full " + name)
        judge(mon, what + " " + name, key + (name,), full, g(*x), keep, len(idx))
        if jit and (name == "H" or r.integers(0, 4) == 0):
            xj = [jnp.asarray(k) for k in x]
            judge(mon, what + " jit " + name, key + (name, "jit"), jax.jit(lambda *a: g(*a, full=True))(*xj), jax.jit(lambda *a: g(*a))(*xj), keep, len(idx))

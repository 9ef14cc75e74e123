"""The two backends side by side."""

import numpy as np
from .. import gen, oracle as o

PROPERTY = "C06"
RULE = ("One evaluation is one quantity (points, mapping constants, numbers of columns, or a basis matrix of one derivative order) of "
        "an object built twice, once per backend, compared with each other; or one complex matrix compared with the analytic "
        "continuation. Distinct: by class, basis, form of the arguments, sizes and order.")
REPEAT = 2
MIN_EVALS = 1000
ASSUMPTIONS = ["ELM weights are copied from one backend to the other, since they are random",
               "complex results are judged for the analytic bases only (not ReLU)"]


def setup():
    global utfc, mtfc, jnp, jax, TFC_BF_Py
    import jax, jax.numpy as jnp
    from tfc import utfc, mtfc
    from tfc.utils import BF_Py as TFC_BF_Py


def cases(rng, tier):
    q = tier == "quick"
    out = []
    for basis in gen.UTFC:
        for kind, n in (("u", 10 if q else 80), ("m", 8 if q else 60), ("c", 2 if q else 12)):
            for s in gen.seeds(rng, n if basis not in gen.TRACED else max(2, n // 2)):
                if not (kind == "c" and basis == "ELMReLU"):
                    out.append({"kind": kind, "basis": basis, "seed": s})
    for basis in gen.UTFC:
        for s in gen.seeds(rng, (1 if basis in gen.TRACED else 4) if q else (5 if basis in gen.TRACED else 30)):
            out.append({"kind": "tuples", "basis": basis, "seed": s})
    for s in gen.seeds(rng, 2 if q else 10):
        out.append({"kind": "kink", "basis": "ELMReLU", "seed": s})
    for basis in ("LaP", "HoPpro", "HoPphy"):
        for s in gen.seeds(rng, 3 if q else 20):
            out.append({"kind": "c", "basis": basis, "seed": s})
            out.append({"kind": "b", "basis": basis, "seed": s})
    rng.shuffle(out)
    return out


def intform(r, v):
    """A list of integers in one of the accepted forms."""
    k = int(r.integers(0, 5))
    return [list, tuple, lambda t: np.array(t, dtype=np.int32), lambda t: np.array(t, dtype=np.int64),
            lambda t: jnp.array(t, dtype=jnp.int32)][k](v), ["list", "tuple", "int32", "int64", "jax"][k]


def floatform(r, v):
    k = int(r.integers(0, 5))
    if k == 4 and all(float(t).is_integer() for t in v):
        return [int(t) for t in v], "ints"
    return [list, tuple, np.array, jnp.array, list][k](v), ["list", "tuple", "numpy", "jax", "list"][k]


def pair_tol(a, b):
    return 1e-9 * (np.abs(a) + np.abs(b)) + 1e-9


def share(a, b):
    if hasattr(a.basisClass, "w"):
        w, bb = np.array(a.basisClass.w), np.array(a.basisClass.b)
        r = np.random.default_rng(int(abs(float(w.ravel()[0])) * 1e9) if w.size else 0)
        if r.integers(0, 2):
            # set on both, each in a layout of its own
            w, bb = r.uniform(-1, 1, w.shape), r.uniform(-1, 1, bb.shape)
            a.basisClass.w = gen.anyhow(r, w)
            a.basisClass.b = gen.anyhow(r, bb)
        b.basisClass.w = gen.anyhow(r, w.reshape(np.shape(b.basisClass.w)))
        b.basisClass.b = gen.anyhow(r, bb.reshape(np.shape(b.basisClass.b)))
        return w, bb
    return None, None


def same(mon, kind, key, a, b, what, tol=1e-13):
    a, b = np.asarray(a), np.asarray(b)
    ok = a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(a))))
    mon.check(ok, kind, key, lambda: "%s: C++ %r, Python %r" % (what, a.tolist() if a.size < 20 else a.shape, b.tolist() if b.size < 20 else b.shape))


def run(case, mon):
    r = gen.rng(case)
    basis = case["basis"]
    elm = basis in o.ELMS
    traced = basis in gen.TRACED
    if case["kind"] == "b":  # bases without a class of their own
        from tfc.utils import BF
        m = gen.size(r)
        nC = gen.nc1(r, m)
        A, B = (gen.make1(L, basis, -1.0, 2.0, nC, m) for L in (BF, TFC_BF_Py))
        for full in (False, True):
            for d in range(6):
                x = gen.points(r, basis, 0, 1, gen.length(r))
                a, b = np.asarray(A.H(x, d, full)), np.asarray(B.H(x, d, full))
                _, tol = o.H1(basis, 0, 1, m, x, d)
                keep = [k for k in range(m) if full or k not in nC]
                mon.check(a.shape == b.shape and bool(np.all(np.abs(a - b) <= 2 * tol[:, keep])), "matrix", (basis, m, d, full),
                          lambda: "%s with %d functions, nC=%r, derivative %d: C++ %r, Python %r" % (basis, m, nC, d, a.tolist(), b.tolist()))
        return
    if case["kind"] == "c":
        return complex_case(r, basis, mon)
    if case["kind"] == "tuples":
        return tuples_case(r, basis, mon)
    if case["kind"] == "kink":
        return kink_case(r, mon)
    if case["kind"] == "u":
        deg = int(r.integers(1, 18)) if not traced else int(r.integers(2, 7))
        if not traced and r.integers(0, 6) == 0:
            deg = int(r.integers(20, 50))
        N = int(r.integers(2, 30)) if not traced else 6
        x0, xf = gen.domain(r)
        k = r.integers(0, 4)
        if k == 0:
            nC, form = int(r.integers(0, deg + 1)) if r.integers(0, 3) else -1, "int"
        elif k == 1:
            nC, form = np.int64(r.integers(0, deg + 1)), "npint"
        else:
            nC, form = intform(r, gen.nc1(r, deg + 1, deg))
        kw = {"basis": basis, "x0": x0, "xf": xf}
        k = r.integers(0, 6)
        if k == 0:
            kw["x0"], kw["xf"] = int(r.integers(-3, 3)), int(r.integers(4, 8))
            form += ",int"
        elif k == 1:
            kw["x0"], kw["xf"] = np.float64(x0), np.float64(xf)
        elif k == 2:
            del kw["x0"]
            kw["xf"] = float(abs(xf)) + 0.1
        x0, xf = float(kw.get("x0", 0.0)), float(kw["xf"])
        A, B = utfc(N, nC, deg, backend="C++", **kw), utfc(N, nC, deg, backend="Python", **kw)
        what = "utfc(%d, %r, %d, %r)" % (N, nC, deg, kw)
        key = (basis, form, deg, N)
        w, b = share(A, B)
        same(mon, "points", key, A.x, B.x, what + " x")
        same(mon, "points", key, A.z, B.z, what + " z")
        same(mon, "constant", key, A.c, B.c, what + " c")
        many = int(r.choice([101, 257, 600, 1025, 4097]))
        P, Q = utfc(many, nC, deg, backend="C++", **kw), utfc(many, nC, deg, backend="Python", **kw)
        same(mon, "points", key + (many,), P.x, Q.x, what + " with %d points x" % many)
        same(mon, "points", key + (many,), P.z, Q.z, what + " with %d points z" % many)
        same(mon, "columns", key, [A.basisClass.m, A.basisClass.numC], [B.basisClass.m, B.basisClass.numC], what + " m, numC")
        for d, name in ((0, "H"), (1, "dH"), (2, "d2H"), (4, "d4H"), (8, "d8H")):
            if traced and d > 4:
                continue
            for full in (False, True):
                x = np.asarray(A.x) if r.integers(0, 2) or traced else gen.points(r, basis, x0, xf, gen.length(r))
                if r.integers(0, 2):
                    x = jnp.asarray(x)
                a, bb = np.asarray(getattr(A, name)(x, full=full)), np.asarray(getattr(B, name)(x, full=full))
                _, tol = o.H1(basis, x0, xf, deg + 1, x, d, w, b)
                nn = np.arange(int(nC)) if isinstance(nC, (int, np.integer)) else np.asarray(nC)
                keep = [k for k in range(deg + 1) if full or k not in nn]
                t = tol[:, keep]
                mon.check(a.shape == bb.shape == t.shape and bool(np.all(np.abs(a - bb) <= 2 * t)), "matrix", key + (d, full),
                          lambda: "%s.%s(full=%s): shapes %s and %s, largest difference %s" % (what, name, full, a.shape, bb.shape,
                                  np.max(np.abs(a - bb)) if a.shape == bb.shape else "-"), sample=what + name)
        return
    # mtfc
    dim = int(r.integers(1, 4)) if not traced else 2
    deg = int(r.integers(1, {1: 12, 2: 7, 3: 4}[dim])) if not traced else 4
    n = [int(k) for k in r.integers(2, 6, dim)] if not traced else [3, 2]
    dom = [gen.domain(r) for _ in range(dim)]
    if r.integers(0, 3) == 0:
        dom = [(0.0, float(k)) for k in r.integers(1, 4, dim)]
    x0, xf = [a for a, _ in dom], [b for _, b in dom]
    if elm:
        nC, form = intform(r, gen.nc1(r, deg + 1, deg)) if r.integers(0, 2) else (int(r.integers(-1, deg + 1)), "int")
        nrows = None
    else:
        k = r.integers(0, 4)
        if k == 0:  # 2-D array
            kk = int(r.integers(1, deg + 1))
            arr = np.array([r.permutation(deg + 1)[:kk] for _ in range(dim)], dtype=np.int32)
            nC, form = (jnp.array(arr), "jax2d") if r.integers(0, 2) else (arr, "numpy2d")
            nrows = [set(map(int, row)) for row in arr]
        elif k == 1:  # one integer per dimension
            ints = [int(v) for v in r.integers(-1, deg + 1, dim)]
            nC, form = intform(r, ints)
            nrows = o.rows_of(ints)
        else:
            nC = []
            for _ in range(dim):
                if r.integers(0, 2):
                    nC.append(int(r.integers(-1, deg + 1)))
                else:
                    nC.append(sorted(gen.nc1(r, deg + 1, deg)) or [0])
            form = "mixed"
            nrows = o.rows_of(nC)
    kw = {"dim": dim, "basis": basis}
    kw["x0"], f0 = floatform(r, x0)
    kw["xf"], f1 = floatform(r, xf)
    if r.integers(0, 8) == 0:
        kw["x0"], x0 = None, [0.0] * dim
        xf = [abs(v) + 0.5 for v in xf]
        kw["xf"] = list(xf)
    nn, fn = intform(r, n)
    A, B = mtfc(nn, nC, deg, backend="C++", **kw), mtfc(nn, nC, deg, backend="Python", **kw)
    what = "mtfc(%r, %r, %d, %r)" % (n, nC, deg, kw)
    key = (basis, form, f0, f1, fn, deg, tuple(n))
    w, b = share(A, B)
    mon.check(len(A.x) == len(B.x) == dim, "points", key, what + ": number of coordinate arrays")
    for k in range(dim):
        same(mon, "points", key, A.x[k], B.x[k], what + " x[%d]" % k)
    same(mon, "points", key, A.z, B.z, what + " z")
    same(mon, "constant", key, np.asarray(A.c).ravel(), np.asarray(B.c).ravel(), what + " c")
    names = ["numBasisFunc"] + ([] if elm else ["numBasisFuncFull"])
    same(mon, "columns", key, [int(getattr(A.basisClass, k)) for k in names], [int(getattr(B.basisClass, k)) for k in names], what + " columns")
    z = (0,) * max(0, dim - 2)
    named = [("H", (0, 0)), ("Hx", (1, 0)), ("Hx2", (2, 0))] if dim == 1 else \
        [("H", (0, 0)), ("Hx", (1, 0)), ("Hy", (0, 1)), ("Hxy", (1, 1)), ("Hx2", (2, 0)), ("Hy2", (0, 2)), ("Hx2y", (2, 1))]
    if dim > 2:
        named.append(("Hz", (0, 0, 1)))
    for name, d in named:
        d = ((d + z)[:dim] if dim > 1 else d[:1])
        for full in (False, True):
            xs = [np.asarray(k) for k in A.x]
            if not traced and r.integers(0, 2):
                q = gen.length(r)
                xs = [gen.points(r, basis, x0[k], xf[k], q) for k in range(dim)]
            arg = [jnp.asarray(k) for k in xs] if r.integers(0, 2) else xs
            a, bb = np.asarray(getattr(A, name)(*arg, full=full)), np.asarray(getattr(B, name)(*arg, full=full))
            _, tol, idx = o.Hn(basis, x0, xf, deg + 1, xs, d, w, b)
            if elm:
                cut = set(range(int(nC))) if isinstance(nC, (int, np.integer)) else set(int(v) for v in np.asarray(nC))
                keep = [j for j in range(deg + 1) if full or j not in cut]
            else:
                keep = [j for j, v in enumerate(idx) if full or not o.removed(nrows, v)]
            t = tol[:, keep]
            mon.check(a.shape == bb.shape == t.shape and bool(np.all(np.abs(a - bb) <= 2 * t)), "matrix", key + (d, full),
                      lambda: "%s.%s(full=%s): shapes %s and %s, expected %s; largest difference %s"
                      % (what, name, full, a.shape, bb.shape, t.shape, np.max(np.abs(a - bb)) if a.shape == bb.shape and a.size else "-"), sample=what + name)


def tuples_case(r, basis, mon):
    """Arbitrary tuples of derivative orders in up to five dimensions, through the basis objects."""
    traced = basis in gen.TRACED
    elm = basis in o.ELMS
    for rep in range(1 if traced else 3):
        dim = int(r.integers(2, 6)) if not traced else int(r.integers(3, 5))
        deg = int(r.integers(1, {2: 9, 3: 5, 4: 4, 5: 3}[dim])) if not traced else 3
        dom = [gen.domain(r) for _ in range(dim)]
        x0, xf = [a for a, _ in dom], [b for _, b in dom]
        nC = gen.nc1(r, deg + 1, deg) if elm else [int(v) for v in r.integers(-1, deg + 1, dim)]
        A, B = (mtfc([2] * dim, nC, deg, dim=dim, basis=basis, x0=x0, xf=xf, backend=be) for be in ("C++", "Python"))
        w, b = share(A, B)
        what = "mtfc([2]*%d, %r, %d, dim=%d, basis=%s)" % (dim, nC, deg, dim, basis)
        same(mon, "constant", (basis, dim, deg), np.asarray(A.c).ravel(), np.asarray(B.c).ravel(), what + " c")
        orders = [tuple(int(j == k) for j in range(dim)) for k in range(dim)]
        if traced:
            orders = [orders[-1], tuple(int(v) for v in r.permutation([2, 1] + [0] * (dim - 2)))]
        else:
            orders += [tuple(int(v) for v in r.integers(0, 3, dim)) for _ in range(3)]
            orders += [tuple(int(v) for v in r.permutation([int(r.integers(3, 8))] + [0] * (dim - 1)))]
        for d in orders:
            q = 5 if traced else gen.length(r)
            xs = np.array([gen.points(r, basis, x0[k], xf[k], q) for k in range(dim)]).reshape(dim, q)
            for full in (False, True):
                a, bb = np.asarray(A.basisClass.H(xs, np.array(d, dtype=np.int32), full)), np.asarray(B.basisClass.H(xs, np.array(d, dtype=np.int32), full))
                _, tol, idx = o.Hn(basis, x0, xf, deg + 1, xs, d, w, b)
                if elm:
                    keep = [j for j in range(deg + 1) if full or j not in nC]
                else:
                    keep = [j for j, v in enumerate(idx) if full or not o.removed(o.rows_of(nC), v)]
                t = tol[:, keep]
                mon.check(a.shape == bb.shape == t.shape and bool(np.all(np.abs(a - bb) <= 2 * t)), "tuple", (basis, dim, deg, d, full, rep),
                          lambda: "%s, orders %r, full=%s: shapes %s and %s, expected %s; largest difference %s"
                          % (what, d, full, a.shape, bb.shape, t.shape, np.max(np.abs(a - bb)) if a.shape == bb.shape and a.size else "-"), sample=what)


def kink_case(r, mon):
    """ReLU where the activation's argument is exactly zero: no mathematical derivative, but one value in both backends."""
    from tfc.utils import BF
    m = 4
    w = np.array([1.0, -2.0, 0.0, 4.0])
    b = np.array([-0.5, 1.0, 0.0, -2.0])
    x = np.array([0.0, 0.25, 0.5, 0.75, 1.0])
    A, B = (gen.make1(L, "ELMReLU", 0.0, 1.0, [], m) for L in (BF, TFC_BF_Py))
    for L in (A, B):
        L.w, L.b = w, b
    for d in range(4):
        same(mon, "kink", ("u", d), A.H(x, d, True), B.H(x, d, True), "ELMReLU with points on the kink, derivative %d" % d)
    for dim in (2, 3):
        A, B = (getattr(L, "nELMReLU")(np.zeros(dim), np.ones(dim), np.array([], dtype=np.int32), m) for L in (BF, TFC_BF_Py))
        for L in (A, B):
            L.w, L.b = np.array([w] + [[0.0, 1.0, 0.0, -4.0]] * (dim - 1)), b
        xs = np.array([x] + [r.permutation(x) for _ in range(dim - 1)])
        for d in [(0,) * dim] + [tuple(int(j == k) for j in range(dim)) for k in range(dim)] + [(2,) + (0,) * (dim - 1), (1, 1) + (0,) * (dim - 2)]:
            same(mon, "kink", ("m", dim, d), A.H(xs, np.array(d, dtype=np.int32), True), B.H(xs, np.array(d, dtype=np.int32), True),
                 "nELMReLU with points on the kink, orders %r" % (d,))


def complex_case(r, basis, mon):
    """Python backend on complex numbers."""
    traced = basis in gen.TRACED
    m = int(r.integers(1, 12)) if not traced else 4
    n = 5
    x0, xf = gen.domain(r)
    cdom = bool(r.integers(0, 2))
    if cdom:
        x0, xf = x0 + 1j * r.uniform(-1, 1), xf + 1j * r.uniform(-1, 1)
    B = getattr(TFC_BF_Py, basis)(x0, xf, np.array([], dtype=np.int32), m)
    if hasattr(B, "w"):
        shape = np.shape(B.w)
        B.w = (r.uniform(-1, 1, m) + 1j * r.uniform(-1, 1, m)).reshape(shape)
        B.b = (r.uniform(-1, 1, m) + 1j * r.uniform(-1, 1, m)).reshape(shape)
        w, b = np.array(B.w), np.array(B.b)
    else:
        w = b = None
    x = x0 + (xf - x0) * (r.uniform(0, 1, n) + 0.2j * r.uniform(-1, 1, n))
    if basis in o.UNMAPPED:
        x = r.uniform(-2, 2, n) + 1j * r.uniform(-1, 1, n)
        z, c = x, 1
    else:
        z0, zf = o.ZRANGE[basis]
        c = (zf - z0) / (np.clongdouble(xf) - np.clongdouble(x0))
        z = (np.asarray(x, dtype=np.clongdouble) - x0) * c + z0
    for d in range(0, 10 if not traced else 4):
        got = np.asarray(B.H(x, d, True))
        want = o.complex_values(basis, z, m, d, w, b) * c ** d
        scale = np.max(np.abs(want), axis=0, keepdims=True) + np.max(np.abs(want)) * 1e-3 + float(abs(c)) ** d
        mon.check(got.shape == want.shape, "complex", (basis, m, d, "shape"), lambda: "%s: shape %s" % (basis, got.shape))
        mon.check(np.iscomplexobj(got), "complex", (basis, d, "type"), lambda: "%s: complex points give %s" % (basis, got.dtype))
        ok = np.all(np.abs(got - want) <= 1e-9 * scale)
        mon.check(bool(ok), "complex", (basis, m, d), lambda: "%s with complex points, derivative %d: largest difference %.3g"
                  % (basis, d, float(np.max(np.abs(got - want)))), sample=basis)
    if basis in o.UNMAPPED or basis in o.ELMS and traced and r.integers(0, 2):
        return
    # and in two dimensions, through the class
    x0 = np.array([0.3, -1.0]) + 1j * r.uniform(-1, 1, 2)
    xf = np.array([1.7, 2.0]) + 1j * r.uniform(-1, 1, 2)
    deg = 3
    t = mtfc([3, 2], 0 if basis in o.ELMS else [-1, -1], deg, dim=2, basis=basis, x0=x0, xf=xf, backend="Python")
    B = t.basisClass
    xs = x0[:, None] + (xf - x0)[:, None] * (r.uniform(0, 1, (2, 6)) + 0.2j * r.uniform(-1, 1, (2, 6)))
    z0, zf = o.ZRANGE[basis]
    cs = [(zf - z0) / (np.clongdouble(xf[k]) - np.clongdouble(x0[k])) for k in range(2)]
    zs = [(np.asarray(xs[k], dtype=np.clongdouble) - x0[k]) * cs[k] + z0 for k in range(2)]
    for name, d in (("H", (0, 0)), ("Hx", (1, 0)), ("Hy2", (0, 2)), ("Hxy", (1, 1))):
        got = np.asarray(getattr(t, name)(*xs))
        if basis in o.ELMS:
            w = np.asarray(B.w, dtype=np.clongdouble).reshape(2, deg + 1)
            b = np.asarray(B.b, dtype=np.clongdouble).ravel()
            want = o.complex_act(basis, zs[0][:, None] * w[0] + zs[1][:, None] * w[1] + b, sum(d)) * (w[0] * cs[0]) ** d[0] * (w[1] * cs[1]) ** d[1]
        else:
            f = [o.complex_values(basis, zs[k], deg + 1, d[k]) * cs[k] ** d[k] for k in range(2)]
            want = np.stack([f[0][:, v[0]] * f[1][:, v[1]] for v in o.indices(deg + 1, 2)], axis=1)
        scale = np.max(np.abs(want), axis=0, keepdims=True) + np.max(np.abs(want)) * 1e-3 + 1e-3
        mon.check(got.shape == want.shape and np.iscomplexobj(got) and bool(np.all(np.abs(got - want) <= 1e-9 * scale)), "complex-nd",
                  (basis, name, float(abs(x0[0]))), lambda: "mtfc %s %s with complex points: %s" % (basis, name, got.tolist()))

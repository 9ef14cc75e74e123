"""Collocation points and the domain map."""

import numpy as np
from .. import gen, oracle as o

PROPERTY = "C10"
RULE = ("One evaluation is one object's coordinate array, mapped coordinate array or mapping constant compared with the definition. "
        "Distinct: by class, basis, backend, numbers of points and domain.")
REPEAT = 2
MIN_EVALS = 800


def setup():
    global utfc, mtfc, jnp
    import jax.numpy as jnp
    from tfc import utfc, mtfc


def cases(rng, tier):
    q = tier == "quick"
    out = []
    for basis in gen.UTFC:
        for be in ("C++", "Python"):
            for s in gen.seeds(rng, 2 if q else 12):
                out.append({"kind": "u", "basis": basis, "be": be, "seed": s})
            for s in gen.seeds(rng, 2 if q else 12):
                out.append({"kind": "m", "basis": basis, "be": be, "seed": s})
    rng.shuffle(out)
    return out


def ref(basis, N):
    """The points in the basis function domain."""
    z0, zf = o.ZRANGE[basis]
    if basis in o.POLY:
        k = np.arange(N, dtype=o.LD)
        return -np.cos(o.PI * k / (N - 1))
    return z0 + (zf - z0) * np.arange(N, dtype=o.LD) / max(N - 1, 1)


def one(mon, what, key, basis, x0, xf, n, x, z, c):
    """One coordinate: n distinct values expected, in order."""
    z0, zf = o.ZRANGE[basis]
    cc = (zf - z0) / (o.LD(xf) - o.LD(x0))
    zr = ref(basis, n)
    xr = (zr - z0) / cc + o.LD(x0)
    L = abs(xf - x0)
    ex = 64 * o.EPS * (L + abs(x0) + abs(xf))
    ez = 64 * o.EPS * float(zf - z0)
    x, z = np.asarray(x), np.asarray(z)
    mon.check(x.shape == (n,) and z.shape == (n,), "number", key, lambda: "%s: %s points instead of %d" % (what, x.shape, n))
    mon.check(x.dtype == np.float64, "type", key, lambda: "%s: points of type %s" % (what, x.dtype))
    mon.check(bool(np.all(np.abs(x - xr) <= ex)), "x", key, lambda: "%s: x=%r instead of %r" % (what, x.tolist(), xr.astype(float).tolist()), sample=what)
    mon.check(bool(np.all(np.abs(z - zr) <= ez)), "z", key, lambda: "%s: z=%r instead of %r" % (what, z.tolist(), zr.astype(float).tolist()))
    mon.check(abs(float(c) - float(cc)) <= 1e-13 * abs(float(cc)), "c", key, lambda: "%s: c=%r instead of %r" % (what, float(c), float(cc)))
    s = 1 if xf > x0 else -1
    mon.check(bool(np.all(s * np.diff(x) > 0)) if L / n > 1e3 * ex else True, "order", key, lambda: "%s: not monotone: %r" % (what, x.tolist()))
    mon.check(abs(x[0] - x0) <= ex and abs(x[-1] - xf) <= ex and bool(np.all(s * (x - x0) >= -ex)) and bool(np.all(s * (xf - x) >= -ex)),
              "ends", key, lambda: "%s: from %r to %r" % (what, x[0], x[-1]))


def run(case, mon):
    r = gen.rng(case)
    basis, be = case["basis"], case["be"]
    if case["kind"] == "u":
        for _ in range(6):
            N = int(r.choice([2, 3, 4, 5, 10, 51, 100, 1001, 1024, 5000, 6001])) if r.integers(0, 2) else int(r.integers(2, 64))
            x0, xf = gen.domain(r)
            kw = {"x0": x0, "xf": xf}
            k = r.integers(0, 6)
            if k == 0:
                kw = {"xf": abs(xf) + 0.1}
                x0, xf = 0.0, kw["xf"]
            elif k == 1:
                x0, xf = float(r.integers(-5, 0)), float(r.integers(1, 9))
                kw = {"x0": int(x0), "xf": int(xf)}
            elif k == 2:
                kw = {"x0": None, "xf": abs(xf) + 0.1}
                x0, xf = 0.0, kw["xf"]
            elif k == 3:  # xf defaults to zero
                x0, xf = -abs(x0) - 0.5, 0.0
                kw = {"x0": x0}
            deg = int(r.integers(1, 9))
            u = utfc(N, int(r.integers(0, deg + 1)), deg, basis=basis, backend=be, **kw)
            one(mon, "utfc(N=%d, %s, %s, %r)" % (N, basis, be, kw), (basis, be, N, x0, xf), basis, x0, xf, N, u.x, u.z, u.c)
            mon.check(u.N == N, "N", (basis, N), "N attribute")
        return
    for _ in range(5):
        dim = int(r.choice([1, 2, 2, 3, 3, 4, 5, 6, 7]))
        n = [int(k) for k in r.integers(2, {1: 40, 2: 12, 3: 6, 4: 4, 5: 4, 6: 3, 7: 3}[dim] + 1, dim)]
        if r.integers(0, 5) == 0 and dim < 4:
            n[int(r.integers(0, dim))] = int(r.choice([30, 200]))
        if _ == 4 and r.integers(0, 2):
            # more points than 16 bits can count
            n = [[200, 170], [3, 14000], [40, 30, 30], [7, 2, 2500], [16, 16, 16, 9]][int(r.integers(0, 5))]
            dim = len(n)
        dom = [gen.domain(r) for _ in range(dim)]
        k = r.integers(0, 6)
        if k == 0:
            dom = [(0.0, abs(b) + 0.1) for _, b in dom]
        elif k == 1:
            dom = [(float(r.integers(-5, 0)), float(r.integers(1, 9))) for _ in dom]
        x0, xf = [a for a, _ in dom], [b for _, b in dom]
        kw = {"x0": x0, "xf": xf}
        if k == 0 and r.integers(0, 2):
            kw["x0"] = None
        elif k == 1 and r.integers(0, 2):
            kw = {"x0": [int(v) for v in x0], "xf": [int(v) for v in xf]}
        elif k == 2:
            kw = {"x0": np.array(x0), "xf": jnp.array(xf)}
        elif k == 3:
            kw = {"x0": tuple(x0), "xf": tuple(xf)}
        f = int(r.integers(0, 4))
        nn = [n, tuple(n), np.array(n), jnp.array(n)][f]
        deg = int(r.integers(1, 4)) if dim < 5 else 1
        nC = int(r.integers(0, deg + 1)) if basis in o.ELMS else [int(v) for v in r.integers(-1, deg + 1, dim)]
        t = mtfc(nn, nC, deg, dim=dim, basis=basis, backend=be, **kw)
        what = "mtfc(n=%r, %s, %s, %r)" % (n, basis, be, kw)
        key = (basis, be, tuple(n), tuple(x0), tuple(xf))
        N = int(np.prod(n))
        mon.check(t.N == N and len(t.x) == dim and np.asarray(t.z).shape == (dim, N), "number", key, lambda: "%s: N=%r, %d coordinates, z %s" % (what, t.N, len(t.x), np.asarray(t.z).shape))
        c = np.asarray(t.c).ravel()
        for k in range(dim):
            x, z = np.asarray(t.x[k]), np.asarray(t.z)[k]
            mon.check(x.shape == (N,), "number", key + (k,), lambda: "%s: coordinate %d has shape %s instead of (%d,)" % (what, k, x.shape, N))
            # dimension 0 slowest: as a grid, only axis k matters
            gx, gz = x.reshape(n), z.reshape(n)
            ix = [0] * dim
            ix[k] = slice(None)
            lx, lz = gx[tuple(ix)], gz[tuple(ix)]
            sh = [1] * dim
            sh[k] = n[k]
            mon.check(bool(np.all(gx == lx.reshape(sh))) and bool(np.all(gz == lz.reshape(sh))), "grid", key + (k,),
                      lambda: "%s: coordinate %d is not a tensor grid with dimension 0 slowest: %r" % (what, k, x.tolist()[:40]))
            one(mon, what + " coordinate %d" % k, key + (k,), basis, x0[k], xf[k], n[k], lx, lz, c[k])

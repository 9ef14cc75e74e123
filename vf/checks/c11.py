"""The C++ extension under AddressSanitizer and UndefinedBehaviorSanitizer: object histories, compiled calls, wrong sizes,
and a leak monitor on the allocator's own count."""

import ctypes, gc
import numpy as np
from .. import build, gen, oracle as o

PROPERTY = "C11"
RULE = ("One evaluation is one call into the instrumented extension that came back without a sanitizer report and whose result was "
        "compared with the definition (new memory is filled with NaN patterns, freed memory with another, so that uninitialised or "
        "stale reads change the result), one wrong-size call that was refused, or one measured create/evaluate/destroy cycle. "
        "Distinct: by class, sizes, lengths, orders and array layout.")
MIN_EVALS = 1500
VARIANT = "asan"
ASSUMPTIONS = ["gcc 13's AddressSanitizer and UBSan decide; JAX, NumPy and Python themselves are not instrumented",
               "uninitialised reads are seen through the NaN fill of new memory",
               "at most 512 bytes per object (its capsule and its entry in the container) are not counted as a leak"]


def env():
    return {"LD_PRELOAD": build.runtime("libasan", "libubsan"),
            "ASAN_OPTIONS": "detect_leaks=0:detect_container_overflow=0:max_malloc_fill_size=1000000000:malloc_fill_byte=255:"
                            "max_free_fill_size=1000000000:free_fill_byte=238:detect_stack_use_after_return=0:exitcode=97:"
                            "allocator_may_return_null=1:handle_abort=1",
            "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:exitcode=98", "PYTHONMALLOC": "malloc",
            "JAX_CPU_ENABLE_ASYNC_DISPATCH": "false"}


def setup():
    global BF, utfc, mtfc, jnp, jax, allocated
    import jax, jax.numpy as jnp
    from tfc import utfc, mtfc
    from tfc.utils import BF
    allocated = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    allocated.restype = ctypes.c_size_t


def cases(rng, tier):
    q = tier == "quick"
    out = []
    for s in gen.seeds(rng, 40 if q else 700):
        out.append({"kind": "history", "seed": s})
    for s in gen.seeds(rng, 14 if q else 150):
        out.append({"kind": "jit", "seed": s})
    for s in gen.seeds(rng, 4 if q else 40):
        out.append({"kind": "wrong", "seed": s})
    for b in gen.ALL1:
        out.append({"kind": "sizes", "basis": b, "seed": rng.randrange(2 ** 31)})
        for dim in (0,) if b in o.UNMAPPED else (0, 2) if q else (0, 1, 2, 3):
            for cut in (False, True):
                out.append({"kind": "big", "basis": b, "dim": dim, "cut": cut, "seed": rng.randrange(2 ** 31)})
        out.append({"kind": "leak", "basis": b, "dim": 1, "seed": rng.randrange(2 ** 31)})
        if b in gen.UTFC:
            out.append({"kind": "leak", "basis": b, "dim": 2, "seed": rng.randrange(2 ** 31)})
            out.append({"kind": "jitleak", "basis": b, "seed": rng.randrange(2 ** 31)})
    rng.shuffle(out)
    return out


def dmax(basis, total=12):
    return 8 if basis in gen.LIMITED else total


class Obj:
    """An object of the extension and what is known about it."""

    def __init__(self, r, basis=None, dim=None, m=None, small=False):
        self.basis = basis or gen.ALL1[int(r.integers(0, len(gen.ALL1)))]
        self.elm = self.basis in o.ELMS
        self.dim = dim if dim is not None else (0 if self.basis in o.UNMAPPED else int(r.choice([0, 0, 0, 1, 2, 2, 3, 4, 5, 6])))
        d = self.dim
        if m is None:
            m = gen.size(r) if d == 0 or self.elm else int(r.integers(1, {1: 20, 2: 9, 3: 6, 4: 4, 5: 3, 6: 3}[d] + 1))
        self.m = m
        dom = [gen.domain(r) for _ in range(max(d, 1))]
        self.x0, self.xf = [a for a, _ in dom], [b for _, b in dom]
        if d == 0 or self.elm:
            self.nC = gen.nc1(r, m, m)
            if len(self.nC) == m and m > 1 and r.integers(0, 2):
                self.nC = self.nC[:-1]
            nC = np.array(self.nC, dtype=np.int32)
            if r.integers(0, 4) == 0:
                nC = np.repeat(nC, 2)[::2]
            elif r.integers(0, 4) == 0:
                nC = nC.astype(np.int64)
        else:
            wid = int(r.integers(1, m + 1))
            self.nC = [sorted(int(v) for v in r.permutation(m)[: int(r.integers(0, wid + 1))]) for _ in range(d)]
            nC = np.array([row + [-1] * (wid - len(row)) for row in self.nC], dtype=np.int32)
            if r.integers(0, 4) == 0:
                nC = np.asfortranarray(nC)
        if d == 0:
            self.B = getattr(BF, self.basis)(self.x0[0], self.xf[0], nC, m)
        else:
            a0, af = np.array(self.x0), np.array(self.xf)
            q = int(r.integers(0, 4))
            if q == 0:
                a0, af = np.repeat(a0, 2)[::2], np.repeat(af, 3)[::3]
            elif q == 1:
                a0, af = a0[::-1].copy()[::-1], gen.layout(r, af)
            self.B = getattr(BF, "n" + self.basis)(a0, af, nC, m)
        if self.elm:
            self.w, self.b = np.array(self.B.w), np.array(self.B.b)
        else:
            self.w = self.b = None

    def key(self):
        return (self.basis, self.dim, self.m, str(self.nC))

    def want(self, x, d, full):
        if self.dim == 0:
            v, t = o.H1(self.basis, self.x0[0], self.xf[0], self.m, x, d, self.w, self.b)
            keep = [k for k in range(self.m) if full or k not in self.nC]
        else:
            v, t, idx = o.Hn(self.basis, self.x0, self.xf, self.m, x, d, self.w, self.b)
            if self.elm:
                keep = [k for k in range(self.m) if full or k not in self.nC]
            else:
                rows = [set(n) for n in self.nC]
                keep = [k for k, vec in enumerate(idx) if full or not o.removed(rows, vec)]
        return v[:, keep], t[:, keep]

    def points(self, r, n):
        if self.dim == 0:
            return gen.points(r, self.basis, self.x0[0], self.xf[0], n)
        return np.array([gen.points(r, self.basis, a, b, n) for a, b in zip(self.x0, self.xf)]).reshape(self.dim, n)

    def order(self, r):
        if self.dim == 0:
            return int(r.integers(0, dmax(self.basis) + 1))
        left = dmax(self.basis, 8)
        d = []
        for _ in range(self.dim):
            d.append(int(r.integers(0, min(left, 4) + 1)))
            left -= d[-1]
        return tuple(d[int(k)] for k in r.permutation(self.dim))

    def arg(self, r, x):
        """The same points in another layout or number type: (argument, the points it stands for)."""
        k = int(r.integers(0, 8))
        if self.dim == 0:
            if k == 0:
                return x.astype(np.float32), x.astype(np.float32).astype(float)
            if k == 1:
                y = np.round(x)
                return y.astype(np.int64), y
            if k == 2:
                return x.astype(">f8"), x
            if k == 3:
                return jnp.asarray(x), x
            return gen.layout(r, x), x
        if k == 0:
            return np.asfortranarray(x), x
        if k == 1:
            return np.repeat(x, 2, axis=1)[:, ::2], x
        if k == 2:
            return x[::-1].copy()[::-1], x
        if k == 3:
            return x.astype(np.float32), x.astype(np.float32).astype(float)
        if k == 4:
            return jnp.asarray(x), x
        return x.copy(), x


def evaluate(r, mon, I, kind="call", n=None):
    n = gen.length(r, big=I.dim < 3 and I.m < 20) if n is None else n
    x = I.points(r, n)
    a, x = I.arg(r, x)
    d = I.order(r)
    full = bool(r.integers(0, 2))
    dd = d
    if I.dim:
        q = int(r.integers(0, 6))
        if q == 0:
            dd = np.array(d, dtype=np.int32)
        elif q == 1:
            dd = np.repeat(np.array(d, dtype=np.int32), 2)[::2]
        elif q == 2:
            dd = np.array(d[::-1], dtype=np.int32)[::-1]
        elif q == 3:
            dd = np.array(d, dtype=np.int64) if r.integers(0, 2) else list(d)
    got = I.B.H(a, dd, full)
    want, tol = I.want(x, d, full)
    gen.compare(mon, kind, got, want, tol, (I.key(), n, d, full), "%r with %d points, order %r, full=%s" % (I.key(), n, d, full))
    return got


def cycle(r, I, x, d):
    a = I.B.H(x, d, False)
    b = I.B.H(x, d, True)
    if I.elm:
        w, bb = I.B.w, I.B.b
        I.B.w = w
        I.B.b = bb
    return a.size + b.size


def refused(mon, what, f, after):
    try:
        f()
    except Exception:
        mon.seen("wrong size refused", what)
        after()
        return
    mon.fail("%s was accepted" % what)


def run(case, mon):
    r = gen.rng(case)
    k = case["kind"]
    if k == "history":
        live, kept = [], []
        for _ in range(60):
            op = int(r.integers(0, 10))
            if not live or op < 2:
                live.append(Obj(r))
            elif op < 7:
                I = live[int(r.integers(0, len(live)))]
                got = evaluate(r, mon, I)
                if r.integers(0, 3) == 0:
                    kept.append((got, got.copy(), "a result"))
            elif op == 7:
                I = live[int(r.integers(0, len(live)))]
                if I.elm:
                    if r.integers(0, 2):
                        w = r.uniform(-3, 3, I.w.shape)
                        a = np.asfortranarray(w) if r.integers(0, 2) else (np.repeat(w, 2, axis=-1)[..., ::2])
                        I.B.w = a
                        del a
                        I.w = w
                    else:
                        b = r.uniform(-3, 3, I.b.shape)
                        I.B.b = gen.layout(r, b)
                        I.b = b
                    gw, gb = I.B.w, I.B.b
                    kept.append((gw, gw.copy(), "weights"))
                    mon.check(bool(np.array_equal(gw, I.w) and np.array_equal(gb, I.b)), "weights", (I.key(), len(kept)), "weights or biases read back differ from the ones set")
            elif op == 8:
                I = live.pop(int(r.integers(0, len(live))))
                if I.elm:
                    gw = I.B.w
                    kept.append((gw, gw.copy(), "weights of a destroyed object"))
                if isinstance(I.B.c, np.ndarray):
                    gc_ = I.B.c
                    kept.append((gc_, gc_.copy(), "mapping constants of a destroyed object"))
                del I
                gc.collect()
            else:
                I = live[int(r.integers(0, len(live)))]
                evaluate(r, mon, I, n=int(r.choice([0, 1])))
        del live
        gc.collect()
        for a, c, what in kept:
            mon.check(bool(np.array_equal(a, c, equal_nan=True)), "kept array", nontrivial=a.size > 0, msg="%s changed after its object was used or destroyed" % what)
        return
    if k == "big":  # far more entries than fit on a stack; a sample of the rows is compared
        basis, dim = case["basis"], case["dim"]
        elm = basis in o.ELMS
        m = 120 if dim == 0 or elm else {1: 120, 2: 14, 3: 8}[dim]
        n = 15000
        if dim == 0:
            B = getattr(BF, basis)(0.0, 2.0, np.array([0, 5] if case["cut"] else [], dtype=np.int32), m)
        else:
            nC = np.array([0, 5] if case["cut"] else [], dtype=np.int32) if elm else np.array([[0, 1] if case["cut"] else [-1, -1]] * dim, dtype=np.int32)
            B = getattr(BF, "n" + basis)(np.zeros(dim), 2 * np.ones(dim), nC, m)
        w, b = gen.wb(B)
        x = r.uniform(0, 2, n if dim == 0 else (dim, n))
        rows = np.concatenate([[0, n - 1], r.integers(0, n, 12)])
        for d in (0, int(r.integers(1, 6))):
            dd = d if dim == 0 else (d,) + (0,) * (dim - 1)
            if dim == 0:
                want, tol = o.H1(basis, 0.0, 2.0, m, x[rows], d, w, b)
            else:
                want, tol, idx = o.Hn(basis, [0.0] * dim, [2.0] * dim, m, x[:, rows], dd, w, b)
            for full in (False, True):
                got = B.H(x, dd, full)
                if dim == 0 or elm:
                    keep = [j for j in range(m) if full or not case["cut"] or j not in (0, 5)]
                else:
                    keep = [j for j, v in enumerate(idx) if full or not case["cut"] or not o.removed([{0, 1}] * dim, v)]
                mon.check(got.shape == (n, len(keep)), "big", (basis, dim, d, full, "shape"), "shape %r" % (got.shape,))
                gen.compare(mon, "big", got[rows], want[:, keep], tol[:, keep], (basis, dim, d, full, case["cut"]),
                            "%s in %d dimension(s), %d functions, %d points, order %d, full=%s" % (basis, max(dim, 1), m, n, d, full))
                del got
        return
    if k == "sizes":
        for dim in (0,) if case["basis"] in o.UNMAPPED else (0, 1, 2, 3):
            for m in (1, 2, 3, 4, 5) if dim < 3 else (1, 2, 3):
                I = Obj(r, case["basis"], dim, m)
                for n in (0, 1, 2, 7):
                    evaluate(r, mon, I, "size sweep", n)
        return
    if k == "jit":
        for _ in range(3):
            basis = gen.UTFC[int(r.integers(0, len(gen.UTFC)))]
            elm = basis in o.ELMS
            n = int(r.choice([1, 2, 3, 17, 64]))
            full = bool(r.integers(0, 2))
            if r.integers(0, 2):
                deg = int(r.integers(1, 16))
                x0, xf = gen.domain(r)
                nC = gen.nc1(r, deg + 1, deg)
                u = utfc(4, nC, deg, basis=basis, x0=x0, xf=xf)
                d, f = [(0, u.H), (1, u.dH), (2, u.d2H), (4, u.d4H), (8, u.d8H)][int(r.integers(0, 5))]
                x = gen.points(r, basis, x0, xf, n)
                got = jax.jit(lambda y: f(y, full=full))(jnp.asarray(x))
                w, b = gen.wb(u.basisClass)
                want, tol = o.H1(basis, x0, xf, deg + 1, x, d, w, b)
                keep = [j for j in range(deg + 1) if full or j not in nC]
                what = "compiled utfc %s deg %d nC %r order %d, %d points" % (basis, deg, nC, d, n)
            else:
                dim = int(r.integers(2, 4))
                deg = int(r.integers(1, 5))
                dom = [gen.domain(r) for _ in range(dim)]
                x0, xf = [a for a, _ in dom], [b for _, b in dom]
                nC = gen.nc1(r, deg + 1, deg) if elm else [int(v) for v in r.integers(-1, deg + 1, dim)]
                t = mtfc([2] * dim, nC, deg, dim=dim, basis=basis, x0=x0, xf=xf)
                z = (0,) * (dim - 2)
                d, f = [((0, 0) + z, t.H), ((1, 0) + z, t.Hx), ((0, 1) + z, t.Hy), ((2, 1) + z, t.Hx2y)][int(r.integers(0, 4))]
                x = np.array([gen.points(r, basis, a, b, n) for a, b in dom])
                got = jax.jit(lambda *y: f(*y, full=full))(*[jnp.asarray(v) for v in x])
                w, b = gen.wb(t.basisClass)
                want, tol, idx = o.Hn(basis, x0, xf, deg + 1, x, d, w, b)
                rows = None if elm else o.rows_of(nC)
                keep = [j for j, vec in enumerate(idx) if full or not ((j in nC) if elm else o.removed(rows, vec))]
                what = "compiled mtfc %s deg %d nC %r order %r, %d points" % (basis, deg, nC, d, n)
            gen.compare(mon, "compiled call", got, want[:, keep], tol[:, keep], what, what)
        return
    if k == "leak":
        dim = case["dim"] if case["dim"] > 1 else 0
        basis = case["basis"]
        m = 600 if dim == 0 or basis in o.ELMS else 30
        n = 40
        r2 = np.random.default_rng(case["seed"])
        for phase, ncs in (("everything removed", None), ("nothing removed", 0)):
            def one():
                if dim == 0 or basis in o.ELMS:
                    nC = np.arange(m if ncs is None else 0, dtype=np.int32)
                else:
                    nC = np.tile(np.arange(m, dtype=np.int32) if ncs is None else -np.ones(1, dtype=np.int32), (dim, 1))
                if dim == 0:
                    B = getattr(BF, basis)(0.0, 1.0, nC, m)
                else:
                    B = getattr(BF, "n" + basis)(np.zeros(dim), np.ones(dim), nC, m)
                x = np.linspace(0, 1, n) if dim == 0 else np.tile(np.linspace(0, 1, n), (dim, 1))
                for d in (0, 1, 2, 5, 8 if basis in gen.LIMITED else 9, 8 if basis in gen.LIMITED else 12):
                    for full in (False, True):
                        B.H(x, d if dim == 0 else (d, 1 if d < 8 else 0)[:dim], full)
                if hasattr(B, "w"):
                    w, b = B.w, B.b
                    B.w = w
                    B.b = b
                    for bad in (np.zeros(m + 1), np.zeros((dim + 1, m + 1))):
                        for name in ("w", "b"):
                            try:
                                setattr(B, name, bad)
                            except Exception:
                                pass
            try:
                measure(mon, "leak cycle", (basis, dim, phase), one, 8, 40, 512,
                        "%s in %d dimension(s), %s" % (basis, max(dim, 1), phase))
            except MemoryError:
                raise
        if dim:
            # one number per axis, so that the arrays of that length stand out
            def axes():
                k = 150
                nC = np.array([], dtype=np.int32) if basis in o.ELMS else np.zeros((k, 1), dtype=np.int32)
                B = getattr(BF, "n" + basis)(np.zeros(k), np.ones(k), nC, 1)
                B.H(np.full((k, 2), 0.5), np.zeros(k, dtype=np.int32), True)
                B.H(np.full((k, 2), 0.5), (0,), False)
                B.c
            measure(mon, "leak cycle", (basis, "axes"), axes, 8, 40, 512, "%s in 150 dimensions" % basis)
        # objects that refuse their arguments must not leak either
        def bad():
            try:
                if dim == 0:
                    getattr(BF, basis)(0.0, 1.0, np.full(2000, 5000, dtype=np.int32), m)
                elif basis in o.ELMS:
                    getattr(BF, "n" + basis)(np.zeros(dim), np.ones(dim), np.full(2000, 5000, dtype=np.int32), m)
                else:
                    getattr(BF, "n" + basis)(np.zeros(dim), np.ones(dim + 1), np.full((dim, 2000), -1, dtype=np.int32), m)
            except Exception:
                return
            mon.fail("wrong constructor arguments accepted")
        measure(mon, "refused constructor cycle", (basis, dim), bad, 8, 40, 512, "refused construction of %s" % basis)
        return
    if k == "jitleak":
        basis = case["basis"]
        u = utfc(4, 2, 300, basis=basis, x0=0.0, xf=1.0)
        t = mtfc([2, 2], 2 if basis in o.ELMS else [2, 2], 20, basis=basis, x0=[0.0, 0.0], xf=[1.0, 1.0])
        x = jnp.linspace(0.0, 1.0, 64)
        f = jax.jit(lambda y: (u.H(y, full=False), u.d2H(y, full=True)))
        g = jax.jit(lambda y: (t.H(y, y, full=False), t.Hxy(y, y, full=True)))
        def one():
            jax.block_until_ready(f(x))
            jax.block_until_ready(g(x))
        measure(mon, "compiled leak cycle", basis, one, 10, 60, 2048, "compiled calls of %s" % basis)
        return
    if k == "wrong":
        for _ in range(6):
            I = Obj(r, m=int(r.integers(2, 7)), dim=None)
            B, dim, m = I.B, I.dim, I.m
            ok = lambda: evaluate(r, mon, I, n=5)
            x = I.points(r, 4)
            if dim == 0:
                for bad in (np.zeros((2, 3)), np.zeros((0, 0)), np.zeros((1, 4)), np.zeros((2, 2, 2)), np.float64(1.0)):
                    refused(mon, "points of shape %s for %s" % (np.shape(bad), I.key()), lambda: B.H(bad, 0, bool(r.integers(0, 2))), ok)
                refused(mon, "nC of two dimensions", lambda: getattr(BF, I.basis)(0.0, 1.0, np.zeros((2, 2), dtype=np.int32), m), ok)
                for v in (-1, m, m + 7, 2 ** 31 - 1):
                    refused(mon, "nC holding %d of %d functions for %s" % (v, m, I.basis), lambda: getattr(BF, I.basis)(0.0, 1.0, np.array([0, v], dtype=np.int32), m), ok)
            else:
                d = (0,) * dim
                for bad in (np.zeros((dim + 1, 3)), np.zeros((dim - 1, 3)), np.zeros(4), np.zeros((dim, 3, 2))):
                    refused(mon, "points of shape %s for %s" % (np.shape(bad), I.key()), lambda: B.H(bad, d, True), ok)
                refused(mon, "too many derivative orders for %s" % (I.key(),), lambda: B.H(x, d + (1,), True), ok)
                refused(mon, "a table of derivative orders for %s" % (I.key(),), lambda: B.H(x, np.zeros((dim, 2), dtype=np.int32), True), ok)
                cls = getattr(BF, "n" + I.basis)
                nC = np.zeros(0, dtype=np.int32) if I.elm else -np.ones((dim, 1), dtype=np.int32)
                refused(mon, "x0 and xf of different lengths for %s" % I.basis, lambda: cls(np.zeros(dim), np.ones(dim + 1), nC, m), ok)
                refused(mon, "x0 and xf of different lengths for %s" % I.basis, lambda: cls(np.zeros(dim + 1), np.ones(dim), nC, m), ok)
                refused(mon, "x0 of two dimensions for %s" % I.basis, lambda: cls(np.zeros((dim, 1)), np.ones(dim), nC, m), ok)
                if I.elm:
                    refused(mon, "nC of two dimensions for %s" % I.basis, lambda: cls(np.zeros(dim), np.ones(dim), np.zeros((dim, 1), dtype=np.int32), m), ok)
                    refused(mon, "nC out of range for %s" % I.basis, lambda: cls(np.zeros(dim), np.ones(dim), np.array([m], dtype=np.int32), m), ok)
                else:
                    refused(mon, "nC with too few rows for %s" % I.basis, lambda: cls(np.zeros(dim + 1), np.ones(dim + 1), nC, m), ok)
                    refused(mon, "nC of one dimension for %s" % I.basis, lambda: cls(np.zeros(dim), np.ones(dim), np.zeros(dim, dtype=np.int32), m), ok)
            if I.elm:
                def setw(v):
                    B.w = v
                def setb(v):
                    B.b = v
                if dim == 0:
                    ws = [np.zeros(m - 1), np.zeros(m + 1), np.zeros(0), np.zeros((m, m))]
                else:
                    ws = [np.zeros((dim, m - 1)), np.zeros((dim, m + 1)), np.zeros((dim + 1, m)), np.zeros(dim * m), np.zeros((0, 0))]
                for v in ws:
                    refused(mon, "weights of shape %s for %s" % (v.shape, I.key()), lambda: setw(v), ok)
                for v in (np.zeros(m - 1), np.zeros(m + 1), np.zeros(0)):
                    refused(mon, "biases of shape %s for %s" % (v.shape, I.key()), lambda: setb(v), ok)


def measure(mon, kind, key, f, warm, n, per, what):
    """The extension's allocations must not grow with the number of cycles."""
    for _ in range(warm):
        f()
    best = None
    for _ in range(3):
        gc.collect()
        a = allocated()
        for _ in range(n):
            f()
        gc.collect()
        g = (allocated() - a) / n
        best = g if best is None else min(best, g)
        if best <= per:
            break
    mon.check(best <= per, kind, key, lambda: "%s: %.0f bytes more in use after each cycle" % (what, best), sample="%s: %.0f bytes per cycle" % (what, best))

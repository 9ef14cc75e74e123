"""Compiled evaluation against eager evaluation, with many live instances."""

import gc
import numpy as np
from .. import gen, oracle as o

PROPERTY = "C08"
RULE = ("One evaluation is the result of one compiled call compared with the same program run on the eager matrices. Distinct: by the "
        "program's shape (constructs, instances, orders, lengths) and by the position of the call in its history; all-zero results do not count.")
REPEAT = 2
MIN_EVALS = 400
ASSUMPTIONS = ["differences up to 1e-10 relative are put down to XLA reordering sums around the call"]


def setup():
    global utfc, mtfc, jnp, jax, lax, BF, egrad
    import jax, jax.numpy as jnp
    from jax import lax
    from tfc import utfc, mtfc
    from tfc.utils import BF, egrad


def cases(rng, tier):
    q = tier == "quick"
    out = []
    for s in gen.seeds(rng, 90 if q else 700):
        out.append({"kind": "history", "seed": s})
    for s in gen.seeds(rng, 20 if q else 120):
        out.append({"kind": "control", "seed": s})
    for s in gen.seeds(rng, 2 if q else 8):
        out.append({"kind": "many", "seed": s, "n": 280})
    for s in gen.seeds(rng, 1 if q else 4):
        out.append({"kind": "ids", "seed": s, "n": 70000})
    for s in gen.seeds(rng, 10 if q else 80):
        out.append({"kind": "orders", "seed": s})
    for basis in gen.UTFC:
        out.append({"kind": "lengths", "basis": basis, "seed": rng.randrange(2 ** 31)})
    return out


def twin(r, I):
    """An instance that differs from another in its domain (and weights) only."""
    dom = [gen.domain(r) for _ in I["dom"]]
    return dict(I["make"](dom), make=I["make"])


def build1(r, basis=None):
    """An instance and the functions one can call on it: (apply(points, d, full), dim, name)."""
    basis = basis or gen.UTFC[int(r.integers(0, len(gen.UTFC)))]
    elm = basis in o.ELMS
    if r.integers(0, 2):
        x0, xf = gen.domain(r)
        deg = int(r.integers(1, 12))
        nC = gen.nc1(r, deg + 1, deg)

        def make(dom):
            u = utfc(5, nC, deg, basis=basis, x0=dom[0][0], xf=dom[0][1])
            fs = {0: u.H, 1: u.dH, 2: u.d2H, 4: u.d4H, 8: u.d8H}
            return {"obj": u, "dim": 1, "fs": fs, "dom": dom, "basis": basis}

        return dict(make([(x0, xf)]), make=make)
    dim = int(r.choice([2, 2, 2, 3, 3, 4, 5]))
    deg = int(r.integers(1, 5 if dim < 4 else 3))
    dom = [gen.domain(r) for _ in range(dim)]
    nC = gen.nc1(r, deg + 1, deg) if elm else [int(k) for k in r.integers(-1, deg + 1, dim)]

    def make(dom):
        t = mtfc([2] * dim, nC, deg, dim=dim, basis=basis, x0=[a for a, _ in dom], xf=[b for _, b in dom])
        fs = {"H": t.H, "Hx": t.Hx, "Hy": t.Hy, "Hxy": t.Hxy, "Hx2": t.Hx2, "Hy2": t.Hy2, "Hx2y": t.Hx2y}
        if dim > 2:
            fs["Hz"] = t.Hz
        return {"obj": t, "dim": dim, "fs": fs, "dom": dom, "basis": basis}

    return dict(make(dom), make=make)


def pts(r, I, n):
    return [gen.points(r, I["basis"], a, b, n) for a, b in I["dom"]]


def close(mon, kind, key, got, want, what):
    got, want = np.asarray(got), np.asarray(want)
    mon.check(got.shape == want.shape, kind, (key, "shape"), lambda: "%s: shape %s instead of %s" % (what, got.shape, want.shape), nontrivial=False)
    s = np.max(np.abs(want)) if want.size else 0
    ok = bool(np.all(np.abs(got - want) <= 1e-11 * s + 1e-10 * np.abs(want))) if want.size else True
    mon.check(ok, kind, key, lambda: "%s: compiled %r, eager %r" % (what, got.ravel()[:8].tolist(), want.ravel()[:8].tolist()),
              nontrivial=bool(s > 0), sample=what)


def program(r, insts):
    """A function of one array of points per term, as a list of terms."""
    terms = []
    for _ in range(int(r.integers(1, 5))):
        I = insts[int(r.integers(0, len(insts)))]
        d = list(I["fs"])[int(r.integers(0, len(I["fs"])))]
        full = bool(r.integers(0, 2))
        n = gen.length(r, big=True)
        terms.append((I, d, full, pts(r, I, n), bool(r.integers(0, 4) == 0)))
    return terms


def evaluate(terms, args, xp):
    out = []
    for (I, d, full, x, const), a in zip(terms, args):
        h = I["fs"][d](*(a if not const else [xp(k) for k in x]), full=full)
        out.append(h)
    return out


def describe(terms):
    return " + ".join("%s%s.%s(full=%s, %d points%s)" % (I["basis"], I["dim"], d, full, len(x[0]), ", constant" if c else "")
                      for I, d, full, x, c in terms)


def run(case, mon):
    r = gen.rng(case)
    kind = case["kind"]
    if kind == "history":
        insts = [build1(r) for _ in range(int(r.integers(1, 5)))]
        compiled = []
        for step in range(9):
            op = r.integers(0, 6)
            if op == 0:
                insts.append(build1(r) if r.integers(0, 2) else twin(r, insts[int(r.integers(0, len(insts)))]))
            elif op == 1 and hasattr(insts[0]["obj"].basisClass, "w"):
                B = insts[0]["obj"].basisClass
                B.w = r.uniform(-2, 2, np.shape(B.w))
                B.b = r.uniform(-2, 2, np.shape(B.b))
            elif op == 2:
                junk = [gen.make1(BF, "CP", 0.0, 1.0, [], int(k)) for k in r.integers(1, 9, 20)]
                del junk
                gc.collect()
            elif op == 3 and compiled:
                pass
            else:
                terms = program(r, insts)
                f = jax.jit(lambda args, terms=terms: evaluate(terms, args, jnp.asarray))
                compiled.append((terms, f))
            if not compiled:
                continue
            for terms, f in compiled[-2:] + [compiled[int(r.integers(0, len(compiled)))]]:
                args = [[jnp.asarray(k) for k in x] for _, _, _, x, _ in terms]
                if r.integers(0, 2):  # other points, same length
                    args = [[jnp.asarray(k) for k in pts(r, I, len(x[0]))] for I, _, _, x, _ in terms]
                got = f(args)
                want = evaluate(terms, [[np.asarray(k) for k in a] for a in args], np.asarray)
                for j, (g, w) in enumerate(zip(got, want)):
                    I, d, full, x, const = terms[j]
                    close(mon, "history", (case["seed"], step, j, I["basis"], str(d), full, len(x[0])), g, w, "term %d of %s" % (j, describe(terms)))
        return
    if kind == "orders":  # differentiation of the highest named derivatives, compiled and eager
        for _ in range(3):
            I = build1(r)
            full = bool(r.integers(0, 2))
            n = int(r.integers(1, 9))
            x = pts(r, I, n)
            xj = [jnp.asarray(k) for k in x]
            if I["dim"] == 1:
                base = int(r.choice([2, 4] if I["basis"] in gen.LIMITED else [4, 8]))
            else:
                base = str(r.choice(["Hxy", "Hx2", "Hx2y"]))
            f = I["fs"][base]
            xi = jnp.asarray(r.uniform(-1, 1, np.shape(f(*x, full=full))[1]))
            g = lambda *a: jnp.dot(f(*a[:-1], full=full), a[-1])
            seq = []
            for k in range(4):
                j = int(r.integers(0, I["dim"])) if r.integers(0, 3) == 0 else 0
                seq.append(j)
                g = egrad(g, j)
                if k:
                    close(mon, "orders", (case["seed"], I["basis"], I["dim"], str(base), tuple(seq), full, n), jax.jit(g)(*xj, xi), g(*xj, xi),
                          "%s in %d dimension(s), egrad in %r of %s, full=%s" % (I["basis"], I["dim"], seq, base, full))
        return
    if kind == "lengths":
        basis = case["basis"]
        I1 = None
        while I1 is None or I1["dim"] != 1:
            I1 = build1(r, basis)
        I2 = None
        while I2 is None or I2["dim"] == 1:
            I2 = build1(r, basis)
        for I in (I1, I2):
            for n in (0, 1, 2, 3, 7, 8, 16, 31, 64, 257, 1025, 5003, 40000):
                d = list(I["fs"])[int(r.integers(0, len(I["fs"])))]
                full = bool(r.integers(0, 2))
                x = pts(r, I, n)
                got = jax.jit(lambda *a: I["fs"][d](*a, full=full))(*[jnp.asarray(k) for k in x])
                close(mon, "length", (basis, I["dim"], n, str(d), full), got, I["fs"][d](*x, full=full), "%s%d.%s, %d points" % (basis, I["dim"], d, n))
        return
    if kind in ("many", "ids"):
        insts, first = [], [build1(r) for _ in range(3)]
        fs = []
        for I in first:
            d = list(I["fs"])[0]
            fs.append((I, d, jax.jit(lambda *a, I=I, d=d: I["fs"][d](*a))))
        keepalive = []
        if kind == "many":
            for k in range(case["n"]):
                x0, xf = gen.domain(r)
                basis = ("CP", "LeP", "FS", "ELMSin")[k % 4]
                keepalive.append(gen.make1(BF, basis, x0, xf, [], int(r.integers(1, 10))))
                if k % 40 == 0:
                    insts.append(build1(r))
        else:
            for k in range(case["n"]):
                b = BF.CP(0.0, 1.0 + k, np.array([], dtype=np.int32), 3 + k % 3)
                if k % 5000 == 0:
                    keepalive.append(b)
                    insts.append(build1(r))
        for I in insts:
            d = list(I["fs"])[int(r.integers(0, len(I["fs"])))]
            fs.append((I, d, jax.jit(lambda *a, I=I, d=d: I["fs"][d](*a))))
        for rep in range(2):
            for j in r.permutation(len(fs)):
                I, d, f = fs[int(j)]
                x = pts(r, I, 6)
                close(mon, kind, (kind, int(j), rep, I["basis"], str(d)), f(*[jnp.asarray(k) for k in x]), I["fs"][d](*x),
                      "instance %d of %d" % (I["obj"].basisClass.identifier, case["n"]))
        # and all of them in one function
        xs = [pts(r, I, 5) for I, _, _ in fs]
        got = jax.jit(lambda xs: [I["fs"][d](*x) for (I, d, _), x in zip(fs, xs)])([[jnp.asarray(k) for k in x] for x in xs])
        for j, (I, d, _) in enumerate(fs):
            close(mon, kind, (kind, j, "together", I["basis"]), got[j], I["fs"][d](*xs[j]), "instance %d in one function" % j)
        return
    # control flow around the calls
    I, J = build1(r), build1(r)
    for step in range(6):
        dI = list(I["fs"])[int(r.integers(0, len(I["fs"])))]
        dJ = list(J["fs"])[int(r.integers(0, len(J["fs"])))]
        full = bool(r.integers(0, 2))
        n = int(r.integers(1, 12))
        f = lambda *a: I["fs"][dI](*a, full=full)
        g = lambda *a: J["fs"][dJ](*a)
        x, y = pts(r, I, n), pts(r, J, n)
        xj, yj = [jnp.asarray(k) for k in x], [jnp.asarray(k) for k in y]
        F, G = np.asarray(f(*x)), np.asarray(g(*y))
        key = (I["basis"], I["dim"], str(dI), J["basis"], J["dim"], str(dJ), full, n)
        k = step
        if k == 0:
            got = jax.jit(lambda x, y: lax.scan(lambda c, t: (c + f(*[q * t for q in x]).sum(), g(*y)), 0.0, jnp.arange(1.0, 4.0)))(xj, yj)
            parts = [np.asarray(f(*[q * t for q in x])) for t in (1.0, 2.0, 3.0)]
            scale = sum(np.abs(p).sum() for p in parts)
            mon.check(abs(float(got[0]) - sum(p.sum() for p in parts)) <= 1e-11 * scale, "scan", key, lambda: "scan over %s" % (key,), nontrivial=scale > 0)
            close(mon, "scan", key, got[1], np.stack([G] * 3), "scan outputs")
        elif k == 1:
            for flag in (True, False):
                if F.shape == G.shape:
                    got = jax.jit(lambda b, x, y: lax.cond(b, lambda: f(*x), lambda: g(*y)))(flag, xj, yj)
                    close(mon, "cond", key + (flag,), got, F if flag else G, "cond")
                else:
                    got = jax.jit(lambda b, x, y: lax.cond(b, lambda: jnp.abs(f(*x)).sum(), lambda: jnp.abs(g(*y)).sum()))(flag, xj, yj)
                    close(mon, "cond", key + (flag,), got, np.abs(F).sum() if flag else np.abs(G).sum(), "cond")
        elif k == 2:
            got = jax.jit(lambda x: lax.while_loop(lambda v: v[0] < 3, lambda v: (v[0] + 1, v[1] + f(*x)), (0, jnp.zeros(F.shape))))(xj)
            close(mon, "while", key, got[1], 3 * F, "while_loop")
        elif k == 3:
            close(mon, "vmap", key, jax.vmap(f)(*xj), F, "vmap over points")
            close(mon, "vmap-jit", key, jax.jit(jax.vmap(f))(*xj), F, "jit of vmap over points")
            close(mon, "vmap-jit", key, jax.vmap(jax.jit(f))(*xj), F, "vmap of jit over points")
            rows = [[v * (1 + 0.01 * j) for v in x] for j in range(3)]
            stack = [jnp.asarray([v[c] for v in rows]) for c in range(I["dim"])]
            want = np.stack([np.asarray(f(*v)) for v in rows])
            ax = [int(v) for v in r.integers(0, 2, I["dim"])]
            turned = [v.T if a else v for v, a in zip(stack, ax)]
            close(mon, "vmap-rows", key, jax.vmap(f)(*stack), want, "vmap over arrays of points")
            close(mon, "vmap-rows", key + (tuple(ax),), jax.jit(jax.vmap(f, in_axes=ax))(*turned), want, "jit of vmap over axes %s" % ax)
            close(mon, "vmap-rows", key + ("twice",), jax.jit(jax.vmap(jax.vmap(f)))(*stack), want, "jit of vmap of vmap")
            close(mon, "vmap-rows", key + ("out",), jax.vmap(f, out_axes=1)(*stack), want.swapaxes(0, 1), "vmap with the results along axis 1")
            if I["dim"] > 1:
                c = int(r.integers(0, I["dim"]))
                some = [v if j == c else v[0] for j, v in enumerate(stack)]
                want = np.stack([np.asarray(f(*[np.asarray(v[i]) if j == c else np.asarray(v) for j, v in enumerate(some)])) for i in range(3)])
                axes = [0 if j == c else None for j in range(I["dim"])]
                close(mon, "vmap-some", key + (c,), jax.jit(jax.vmap(f, in_axes=axes))(*some), want, "vmap over coordinate %d only" % c)
                want = np.asarray(f(*[v if j == c else np.full(n, v[0]) for j, v in enumerate(x)]))
                close(mon, "vmap-some", key + (c, "points"), jax.vmap(f, in_axes=axes)(*[v if j == c else v[0] for j, v in enumerate(xj)]), want, "vmap over the points of coordinate %d only" % c)
        elif k == 4:
            many = [[v * (1 + 0.01 * j) for v in x] for j in range(4)]
            stack = [jnp.asarray([v[c] for v in many]) for c in range(I["dim"])]
            close(mon, "map", key, jax.jit(lambda s: lax.map(lambda v: f(*v), s))(stack), np.stack([np.asarray(f(*v)) for v in many]), "lax.map over arrays of points")
            exe = jax.jit(f).lower(*xj).compile()
            again = exe(*[jnp.asarray(v) for v in many[2]])
            close(mon, "aot", key, again, f(*many[2]), "compiled ahead of time")
            got = jax.jit(lambda x: lax.fori_loop(0, 3, lambda i, c: c + jnp.sin(f(*[v + 0.001 * i for v in x])), jnp.zeros(F.shape)))(xj)
            close(mon, "fori", key, got, sum(np.sin(np.asarray(f(*[v + 0.001 * i for v in x]))) for i in range(3)), "fori_loop")
            perm = [int(v) for v in r.permutation(n)]
            close(mon, "slices", key, jax.jit(lambda x: f(*[v[jnp.array(perm)] for v in x])[jnp.array(np.argsort(perm))])(xj), F, "permuted points")
            close(mon, "slices", key + ("half",), jax.jit(lambda x: jnp.vstack([f(*[v[: n // 2] for v in x]), f(*[v[n // 2:] for v in x])]))(xj), F, "points in two halves")
        else:
            xi = r.uniform(-1, 1, F.shape[1])
            close(mon, "dot", key, jax.jit(lambda x, xi: jnp.dot(jax.jit(f)(*x), xi) + g(*y).sum())(xj, jnp.asarray(xi)), F @ xi + G.sum(), "nested jit")
            close(mon, "constant", key, jax.jit(lambda: f(*x))(), F, "no traced arguments")

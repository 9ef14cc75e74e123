"""Automatic differentiation against the definition's derivatives."""

import itertools
import numpy as np
from .. import gen, oracle as o

PROPERTY = "C09"
RULE = ("One evaluation is one derivative obtained by automatic differentiation compared with the analytic derivative assembled from the "
        "definition of the basis functions. Distinct: by basis, backend, dimension, differentiation program, order, shape and path.")
MIN_EVALS = 600


def setup():
    global utfc, mtfc, jnp, jax, egrad, egradSimple
    import jax, jax.numpy as jnp
    from tfc import utfc, mtfc
    from tfc.utils import egrad, egradSimple


def cases(rng, tier):
    q = tier == "quick"
    out = []
    for basis in gen.UTFC:
        for be in ("C++", "Python"):
            slow = be == "Python" and basis in gen.TRACED
            n = 2 if q else 14
            for s in gen.seeds(rng, 1 if slow and q else n):
                out.append({"kind": "u", "basis": basis, "be": be, "seed": s})
            for s in gen.seeds(rng, 1 if slow and q else n):
                out.append({"kind": "m", "basis": basis, "be": be, "seed": s})
    rng.shuffle(out)
    return out


def judge(mon, kind, key, got, want, tol, what):
    got = np.asarray(got)
    want = np.asarray(want, dtype=float)
    mon.check(got.shape == want.shape, kind, (key, "shape"), lambda: "%s: shape %s instead of %s" % (what, got.shape, want.shape), nontrivial=False)
    err = np.abs(got - want)
    ok = bool(np.all(err <= tol))
    mon.check(ok, kind, key, lambda: "%s: got %r, analytic %r (largest excess %.3g)" % (what, got.ravel()[:6].tolist(), want.ravel()[:6].tolist(), float(np.max(err / tol))),
              nontrivial=bool(np.any(want != 0)), sample=what)


class Def:
    """The full definition of an object's matrices: D(order) -> (matrix, tolerance) of the kept columns."""

    def __init__(self, t, basis, x0, xf, deg, keep, x):
        self.a = (t, basis, x0, xf, deg, keep, x)
        self.memo = {}

    def __call__(self, d):
        if d not in self.memo:
            t, basis, x0, xf, deg, keep, x = self.a
            w, b = gen.wb(t.basisClass)
            if isinstance(d, tuple):
                v, tol, _ = o.Hn(basis, x0, xf, deg + 1, x, d, w, b)
            else:
                v, tol = o.H1(basis, x0, xf, deg + 1, x, d, w, b)
            v = np.asarray(v[:, keep], dtype=float)
            tol = np.where(np.isfinite(tol), tol, 1e300)[:, keep]
            self.memo[d] = (v, 50 * tol + 1e-9 * np.abs(v))
        return self.memo[d]


def run(case, mon):
    r = gen.rng(case)
    if case["kind"] == "u":
        return uni(r, case, mon)
    return multi(r, case, mon)


def uni(r, case, mon):
    basis, be = case["basis"], case["be"]
    slow = gen.slow(basis, be)
    deg = int(r.integers(2, 9)) if not slow else 4
    x0, xf = gen.domain(r, 0.3)
    nC = gen.nc1(r, deg + 1, 2)
    u = utfc(6, nC, deg, basis=basis, x0=x0, xf=xf, backend=be)
    keep = [k for k in range(deg + 1) if k not in nC]
    n = int(r.choice([1, 2, 6])) if not slow else 6
    x = gen.points(r, basis, x0, xf, n)
    xj = jnp.asarray(x)
    D = Def(u, basis, x0, xf, deg, keep, x)
    xi = r.uniform(-1, 1, len(keep))
    xij = jnp.asarray(xi)
    a = np.abs(xi)
    dot = lambda d: (D(d)[0] @ xi, D(d)[1] @ a + 1e-300)
    jit_ok = be == "C++"
    paths = [("eager", lambda f: f)] + ([("jit", jax.jit)] if jit_ok else [])
    key = (basis, be, deg, n)
    what = "utfc %s (%s), degree %d, %d points: " % (basis, be, deg, n)
    dm = 3 if slow else 8
    for p, wrap in paths:
        f = lambda x, xi: jnp.dot(u.H(x), xi)
        h = lambda x, xi: jnp.dot(u.dH(x), xi)
        for eg, name in ((egrad, "egrad"), (egradSimple, "egradSimple")):
            g = f
            for d in range(1, dm + 1):
                g = eg(g, 0)
                if d <= 2 or r.integers(0, 2):
                    judge(mon, name, key + (d, p), wrap(g)(xj, xij), *dot(d), what + "%s^%d %s" % (name, d, p))
        # of a named derivative, and with full
        judge(mon, "egrad", key + ("dH", p), wrap(egrad(h))(xj, xij), *dot(2), what + "egrad of dH")
        if not slow:
            # of the highest named derivatives
            hi = lambda x, xi: jnp.dot(u.d4H(x), xi)
            hi8 = lambda x, xi: jnp.dot(u.d8H(x), xi)
            judge(mon, "egrad", key + ("d4H", p), wrap(egrad(egrad(hi)))(xj, xij), *dot(6), what + "second egrad of d4H")
            if basis not in gen.LIMITED:
                judge(mon, "egrad", key + ("d8H", 1, p), wrap(egrad(hi8))(xj, xij), *dot(9), what + "egrad of d8H")
                judge(mon, "egrad", key + ("d8H", 2, p), wrap(egrad(egrad(hi8)))(xj, xij), *dot(10), what + "second egrad of d8H")
            judge(mon, "jacfwd", key + ("d8H", p), wrap(jax.jacfwd(hi8, 1))(xj, xij), *D(8), what + "coefficient Jacobian of d8H")
            Df = Def(u, basis, x0, xf, deg, list(range(deg + 1)), x)
            xif = r.uniform(-1, 1, deg + 1)
            judge(mon, "egrad", key + ("full", p), wrap(egrad(egrad(lambda x: jnp.dot(u.H(x, full=True), xif))))(xj), Df(2)[0] @ xif, Df(2)[1] @ np.abs(xif) + 1e-300, what + "egrad with full")
            judge(mon, "egrad", key + ("full 3", p), wrap(egrad(egrad(egrad(lambda x: jnp.dot(u.H(x, full=True), xif)))))(xj), Df(3)[0] @ xif, Df(3)[1] @ np.abs(xif) + 1e-300, what + "third egrad with full")
            judge(mon, "grad", key + ("full", p), wrap(jax.grad(lambda x: jnp.dot(u.dH(x, full=True), xif).sum()))(xj), Df(2)[0] @ xif, Df(2)[1] @ np.abs(xif) + 1e-300, what + "grad of dH with full")
        # products and compositions
        s, c = np.sin(x), np.cos(x)
        F0, T0 = dot(0)
        F1, T1 = dot(1)
        F2, T2 = dot(2)
        judge(mon, "product", key + (1, p), wrap(egrad(lambda x, xi: jnp.sin(x) * f(x, xi) ** 2))(xj, xij), c * F0 ** 2 + 2 * s * F0 * F1,
              1e-9 * (np.abs(c * F0 ** 2) + np.abs(s * F0 * F1)) + 4 * (np.abs(F0) * T0 + np.abs(F0) * T1 + np.abs(F1) * T0) + 1e-12, what + "product rule")
        judge(mon, "product", key + (2, p), wrap(egrad(egrad(lambda x, xi: x * f(x, xi))))(xj, xij), 2 * F1 + x * F2,
              1e-9 * (np.abs(F1) + np.abs(x * F2)) + 3 * T1 + np.abs(x) * T2 + 1e-12, what + "second derivative of a product")
        # affine change of variable: chain rule factors
        k1, k2 = float(r.uniform(-0.5, 0.5)), float(xf)
        y = k1 * (x - x0) + x0
        Dy = Def(u, basis, x0, xf, deg, keep, y)
        judge(mon, "chain", key + (p,), wrap(egrad(egrad(lambda x, xi: f(k1 * (x - x0) + x0, xi))))(xj, xij), k1 ** 2 * (Dy(2)[0] @ xi),
              k1 ** 2 * (Dy(2)[1] @ a) + 1e-300, what + "chain rule")
        # tangents of every kind
        for kind, t in (("random", r.uniform(-2, 2, n)), ("zero", np.zeros(n)), ("one element", np.eye(n)[int(r.integers(0, n))]),
                        ("negative", -np.ones(n)), ("tiny", np.full(n, 1e-30)), ("balanced", np.r_[np.ones(n // 2), np.zeros(n % 2), -np.ones(n // 2)]),
                        ("last", np.r_[np.zeros(n - 1), 2.0])):
            T = jnp.asarray(t) if r.integers(0, 2) else t
            run1 = lambda x, t: jax.jvp(lambda x: u.H(x), (x,), (t,))
            out, tan = wrap(run1)(xj, T)
            judge(mon, "jvp", key + (kind, p), tan, D(1)[0] * t[:, None], D(1)[1] * np.abs(t)[:, None] + 1e-300, what + "jvp, %s tangent, %s" % (kind, p))
            judge(mon, "jvp-primal", key + (kind, p), out, D(0)[0], D(0)[1] + 1e-300, what + "primal of jvp")
        # of the named derivatives
        for m, fun in ((1, u.dH), (2, u.d2H), (4, u.d4H), (8, u.d8H)):
            if m < 4 or not (slow or (m == 8 and basis in gen.LIMITED)):
                t0 = r.uniform(-2, 2, n) * (r.integers(0, 4, n) > 0)
                out, tan = wrap(lambda x, t: jax.jvp(fun, (x,), (t,)))(xj, jnp.asarray(t0))
                judge(mon, "jvp of named", key + (m, p), tan, D(m + 1)[0] * t0[:, None], D(m + 1)[1] * np.abs(t0)[:, None] + 1e-300, what + "jvp of derivative %d, %s" % (m, p))
        t1, t2 = r.uniform(-1, 1, n), r.uniform(-1, 1, n)
        inner = lambda x: jax.jvp(lambda x: u.H(x), (x,), (jnp.asarray(t1),))[1]
        judge(mon, "jvp-of-jvp", key + (p,), wrap(lambda x: jax.jvp(inner, (x,), (jnp.asarray(t2),))[1])(xj), D(2)[0] * (t1 * t2)[:, None],
              D(2)[1] * np.abs(t1 * t2)[:, None] + 1e-300, what + "jvp of jvp")
        # Jacobians
        J = np.zeros((n, n))
        J[np.arange(n), np.arange(n)] = F1
        judge(mon, "jacfwd", key + ("x", p), wrap(jax.jacfwd(f, 0))(xj, xij), J, np.diag(T1) + 1e-300, what + "jacfwd wrt the points")
        judge(mon, "jacfwd", key + ("xi", p), wrap(jax.jacfwd(f, 1))(xj, xij), D(0)[0], D(0)[1] + 1e-300, what + "jacfwd wrt the coefficients")
        judge(mon, "jacfwd", key + ("xi egrad2", p), wrap(jax.jacfwd(egrad(egrad(f)), 1))(xj, xij), D(2)[0], D(2)[1] + 1e-300, what + "coefficient Jacobian of the second derivative")
        judge(mon, "mixed", key + (p,), wrap(egrad(jax.jacfwd(f, 1)))(xj, xij), D(1)[0], D(1)[1] + 1e-300, what + "derivative of the coefficient Jacobian")
        judge(mon, "grad", key + ("xi", p), wrap(jax.grad(lambda xi: f(xj, xi).sum()))(xij), D(0)[0].sum(0), D(0)[1].sum(0) + 1e-300, what + "grad wrt the coefficients")
        judge(mon, "grad", key + ("x", p), wrap(jax.grad(lambda x: f(x, xij).sum()))(xj), F1, T1, what + "grad wrt the points")
        # reverse mode, second order, linearisation, recomputation
        q = lambda x: (f(x, xij) ** 2).sum()
        judge(mon, "hessian", key + (p,), wrap(jax.hessian(q))(xj), np.diag(2 * F1 ** 2 + 2 * F0 * F2),
              np.diag(1e-9 * (F1 ** 2 + np.abs(F0 * F2)) + 8 * (np.abs(F1) * T1 + T1 ** 2 + np.abs(F0) * T2 + np.abs(F2) * T0)) + 1e-12 * np.max(np.abs(F1) ** 2 + np.abs(F0 * F2)) + 1e-300, what + "hessian")
        judge(mon, "jacrev", key + (p,), wrap(jax.jacrev(f, 0))(xj, xij), J, np.diag(T1) + 1e-300, what + "jacrev wrt the points")
        ct = r.uniform(-1, 1, (n, len(keep)))
        judge(mon, "vjp", key + (p,), wrap(lambda x: jax.vjp(lambda x: u.H(x), x)[1](jnp.asarray(ct))[0])(xj), (D(1)[0] * ct).sum(1), (D(1)[1] * np.abs(ct)).sum(1) + 1e-300, what + "vjp")
        judge(mon, "linearize", key + (p,), wrap(lambda x: jax.linearize(lambda x: u.H(x), x)[1](jnp.asarray(t1)))(xj), D(1)[0] * t1[:, None], D(1)[1] * np.abs(t1)[:, None] + 1e-300, what + "linearize")
        judge(mon, "checkpoint", key + (p,), wrap(jax.grad(jax.checkpoint(lambda x: f(x, xij).sum())))(xj), F1, T1, what + "grad of a checkpointed function")
    if jit_ok:
        sc = lambda x: jnp.dot(u.H(x), xij)
        judge(mon, "vmap", key, jax.vmap(jax.jacfwd(sc))(xj), *dot(1), what + "vmap of jacfwd over points")
        judge(mon, "vmap", key + ("2",), jax.jit(jax.vmap(jax.jacfwd(jax.jacfwd(sc))))(xj), *dot(2), what + "vmap of nested jacfwd over points")
        Df = Def(u, basis, x0, xf, deg, list(range(deg + 1)), x)
        judge(mon, "vmap", key + ("full",), jax.vmap(lambda x: u.H(x, full=True))(xj), *Df(0), what + "vmap with full")
        judge(mon, "vmap", key + ("full", 1), jax.vmap(jax.jacfwd(lambda x: u.H(x, full=True)))(xj), *Df(1), what + "vmap of jacfwd with full")
        h = n // 2
        if h:
            v, tol = dot(1)
            rows = jnp.asarray(np.stack([x[:h], x[h:2 * h]]))
            judge(mon, "vmap", key + ("rows",), jax.jit(jax.vmap(lambda y: egrad(f)(y, xij)))(rows), v[:2 * h].reshape(2, h), tol[:2 * h].reshape(2, h), what + "vmap of egrad over arrays of points")
            judge(mon, "vmap", key + ("rows egrad",), egrad(lambda y: jax.vmap(lambda z: f(z, xij), in_axes=1, out_axes=1)(y))(rows), v[:2 * h].reshape(2, h), tol[:2 * h].reshape(2, h), what + "egrad of vmap over columns of points")
        sj = jax.jit(f)
        judge(mon, "egrad-of-jit", key, egrad(egrad(sj))(xj, xij), *dot(2), what + "egrad of a jitted function")


def multi(r, case, mon):
    basis, be = case["basis"], case["be"]
    slow = gen.slow(basis, be)
    elm = basis in o.ELMS
    dim = int(r.choice([2, 2, 3, 3, 4, 5])) if not slow else int(r.choice([2, 3]))
    deg = int(r.integers(2, {2: 6, 3: 4, 4: 3, 5: 3}[dim])) if not slow else 3
    dom = [gen.domain(r, 0.3) for _ in range(dim)]
    x0, xf = [p for p, _ in dom], [q for _, q in dom]
    nC = gen.nc1(r, deg + 1, 2) if elm else [int(k) for k in r.integers(-1, 3, dim)]
    t = mtfc([2] * dim, nC, deg, dim=dim, basis=basis, x0=x0, xf=xf, backend=be)
    keep = [k for k in range(deg + 1) if k not in nC] if elm else [j for j, v in enumerate(o.indices(deg + 1, dim)) if not o.removed(o.rows_of(nC), v)]
    n = int(r.choice([1, 2, 6])) if not slow else 4
    x = [gen.points(r, basis, *dom[k], n) for k in range(dim)]
    xj = [jnp.asarray(k) for k in x]
    D = Def(t, basis, x0, xf, deg, keep, x)
    xi = r.uniform(-1, 1, len(keep))
    xij = jnp.asarray(xi)
    a = np.abs(xi)
    unit = lambda *js: tuple(sum(j == k for j in js) for k in range(dim))
    dot = lambda d: (D(d)[0] @ xi, D(d)[1] @ a + 1e-300)
    jit_ok = be == "C++"
    paths = [("eager", lambda f: f)] + ([("jit", jax.jit)] if jit_ok else [])
    key = (basis, be, dim, deg, n)
    what = "mtfc %s (%s), %d dimensions, degree %d, %d points: " % (basis, be, dim, deg, n)
    f = lambda *v: jnp.dot(t.H(*v[:-1]), v[-1])
    for p, wrap in paths:
        seqs = [s for k in (1, 2) for s in itertools.product(range(dim), repeat=k)]
        if not slow:
            trip = list(itertools.product(range(dim), repeat=3))
            seqs += [trip[int(k)] for k in r.permutation(len(trip))[:3]]
            seqs.append(tuple(int(k) for k in r.integers(0, dim, 4)))
        for s in seqs:
            eg = egrad if r.integers(0, 2) else egradSimple
            g = f
            for j in s:
                g = eg(g, j)
            judge(mon, "egrad", key + (s, p), wrap(g)(*xj, xij), *dot(unit(*s)), what + "egrad in %r, %s" % (s, p))
        if not slow:
            Df = Def(t, basis, x0, xf, deg, list(range(deg + 1 if elm else len(o.indices(deg + 1, dim)))), x)
            xif = r.uniform(-1, 1, np.shape(t.H(*xj, full=True))[1])
            for s in [tuple(int(k) for k in r.integers(0, dim, q)) for q in (1, 2, 3, 4, 5)]:
                g = lambda *v: jnp.dot(t.H(*v, full=True), jnp.asarray(xif))
                for j in s:
                    g = egrad(g, j)
                d = unit(*s)
                judge(mon, "egrad", key + ("full", s, p), wrap(g)(*xj), Df(d)[0] @ xif, Df(d)[1] @ np.abs(xif) + 1e-300, what + "egrad in %r with full, %s" % (s, p))
        judge(mon, "egrad", key + ("Hx", p), wrap(egrad(lambda *v: jnp.dot(t.Hx(*v), xij), 1))(*xj), *dot(unit(0, 1)), what + "egrad of Hx in y")
        judge(mon, "egrad", key + ("Hxy", p), wrap(egrad(lambda *v: jnp.dot(t.Hy2(*v), xij), 0))(*xj), *dot(unit(0, 1, 1)), what + "egrad of Hy2 in x")
        if not slow and p == "eager":
            # high total orders, reached on top of the named derivatives (compiling them would take minutes)
            for name, d0 in (("Hx2y", (0, 0, 1)), ("Hxy", (0, 1))):
                s = tuple(int(k) for k in r.integers(0, dim, 4))
                g = lambda *v: jnp.dot(getattr(t, name)(*v), xij)
                for j in s:
                    g = egrad(g, j)
                judge(mon, "egrad", key + (name, s, p), g(*xj), *dot(unit(*d0, *s)), what + "egrad in %r of %s" % (s, name))
        # all tangents at once, some of them zero
        for rep in range(4):
            tans = [r.uniform(-1, 1, n) * (r.integers(0, 3, n) > 0) if r.integers(0, 3) else np.zeros(n) for _ in range(dim)]
            if rep == 2:
                tans = [t_ * 1e-30 for t_ in tans]
            elif rep == 3:
                tans = [s_ * np.r_[np.ones(n // 2), np.zeros(n % 2), -np.ones(n // 2)] for s_ in r.permutation(dim) - dim // 2]
            want = sum(D(unit(k))[0] * tans[k][:, None] for k in range(dim))
            tol = sum(D(unit(k))[1] * np.abs(tans[k])[:, None] for k in range(dim)) + 1e-12 * sum(np.abs(D(unit(k))[0] * tans[k][:, None]) for k in range(dim)) + 1e-300
            out, tan = wrap(lambda v, tt: jax.jvp(lambda *v: t.H(*v), tuple(v), tuple(tt)))(xj, [jnp.asarray(k) for k in tans])
            judge(mon, "jvp", key + (rep, p, tuple(bool(np.any(q)) for q in tans)), tan, want, tol, what + "jvp")
            judge(mon, "jvp-primal", key + (rep, p), out, D(unit())[0], D(unit())[1] + 1e-300, what + "primal of jvp")
        # of the named derivatives
        for name, d0 in (("Hx", (0,)), ("Hy", (1,)), ("Hxy", (0, 1)), ("Hx2", (0, 0)), ("Hy2", (1, 1))):
            if r.integers(0, 2):
                tans = [r.uniform(-1, 1, n) for _ in range(dim)]
                want = sum(D(unit(*d0, k))[0] * tans[k][:, None] for k in range(dim))
                tol = sum(D(unit(*d0, k))[1] * np.abs(tans[k])[:, None] for k in range(dim)) + 1e-12 * sum(np.abs(D(unit(*d0, k))[0] * tans[k][:, None]) for k in range(dim)) + 1e-300
                out, tan = wrap(lambda v, tt: jax.jvp(getattr(t, name), tuple(v), tuple(tt)))(xj, [jnp.asarray(k) for k in tans])
                judge(mon, "jvp of named", key + (name, p), tan, want, tol, what + "jvp of %s, %s" % (name, p))
        # the same variable in two places: total derivative
        tot = sum(dot(unit(k))[0] for k in range(2))
        same = [xj[0], xj[0]] + xj[2:]
        Ds = Def(t, basis, x0, xf, deg, keep, [x[0], x[0]] + x[2:])
        want = Ds(unit(0))[0] @ xi + Ds(unit(1))[0] @ xi
        tol = Ds(unit(0))[1] @ a + Ds(unit(1))[1] @ a + 1e-300
        judge(mon, "shared variable", key + (p,), wrap(egrad(lambda v: f(v, v, *xj[2:], xij)))(xj[0]), want, tol, what + "same variable in two places")
        for k in range(dim):
            J = np.zeros((n, n))
            J[np.arange(n), np.arange(n)] = dot(unit(k))[0]
            judge(mon, "jacfwd", key + (k, p), wrap(jax.jacfwd(f, k))(*xj, xij), J, np.diag(dot(unit(k))[1]) + 1e-300, what + "jacfwd wrt coordinate %d" % k)
        judge(mon, "jacfwd", key + ("xi", p), wrap(jax.jacfwd(f, dim))(*xj, xij), D(unit())[0], D(unit())[1] + 1e-300, what + "jacfwd wrt the coefficients")
        judge(mon, "jacfwd", key + ("lap", p), wrap(jax.jacfwd(lambda *v: egrad(egrad(f, 0), 0)(*v) + egrad(egrad(f, 1), 1)(*v), dim))(*xj, xij),
              D(unit(0, 0))[0] + D(unit(1, 1))[0], D(unit(0, 0))[1] + D(unit(1, 1))[1] + 1e-300, what + "coefficient Jacobian of the Laplacian")
        for k in range(dim):
            judge(mon, "grad", key + (k, p), wrap(jax.grad(lambda *v: f(*v).sum(), k))(*xj, xij), *dot(unit(k)), what + "grad wrt coordinate %d" % k)
        i, j = (int(k) for k in r.permutation(dim)[:2])
        want = np.zeros((n, n))
        want[np.arange(n), np.arange(n)] = dot(unit(i, j))[0]
        judge(mon, "hessian", key + (p,), wrap(jax.jacfwd(jax.grad(lambda *v: f(*v).sum(), i), j))(*xj, xij), want, np.diag(dot(unit(i, j))[1]) + 1e-300, what + "forward over reverse in %d, %d" % (i, j))
        ct = r.uniform(-1, 1, (n, len(keep)))
        got = wrap(lambda *v: jax.vjp(lambda *v: t.H(*v), *v)[1](jnp.asarray(ct)))(*xj)
        for k in range(dim):
            judge(mon, "vjp", key + (k, p), got[k], (D(unit(k))[0] * ct).sum(1), (D(unit(k))[1] * np.abs(ct)).sum(1) + 1e-300, what + "vjp")
    if jit_ok:
        sc = lambda *v: jnp.dot(t.H(*v), xij)
        for k in range(dim):
            judge(mon, "vmap", key + (k,), jax.vmap(jax.jacfwd(sc, k))(*xj), *dot(unit(k)), what + "vmap of jacfwd")
        Df = Def(t, basis, x0, xf, deg, list(range(deg + 1 if elm else len(o.indices(deg + 1, dim)))), x)
        judge(mon, "vmap", key + ("full",), jax.vmap(lambda *v: t.H(*v, full=True))(*xj), *Df(unit()), what + "vmap with full")
        judge(mon, "vmap", key + ("full", 1), jax.vmap(jax.jacfwd(lambda *v: t.H(*v, full=True), 1))(*xj), *Df(unit(1)), what + "vmap of jacfwd with full")
        c = int(r.integers(0, dim))
        Dc = Def(t, basis, x0, xf, deg, keep, [v if j == c else np.full(n, v[0]) for j, v in enumerate(x)])
        axes = [0 if j == c else None for j in range(dim)]
        some = [v if j == c else v[0] for j, v in enumerate(xj)]
        for k in range(dim):
            v, tol = Dc(unit(k))
            judge(mon, "vmap", key + ("some", c, k), jax.jit(jax.vmap(jax.jacfwd(sc, k), in_axes=axes))(*some), v @ xi, tol @ a + 1e-300, what + "vmap over coordinate %d of the derivative in %d" % (c, k))
        h = n // 2
        if h > 1:  # arrays of points, by rows or by columns, one coordinate perhaps shared
            ax = [int(v) for v in r.integers(0, 2, dim)]
            rows = [jnp.asarray(np.stack([v[:h], v[h:2 * h]], axis=a)) for v, a in zip(x, ax)]
            v, tol = dot(unit(c))
            judge(mon, "vmap", key + ("rows", c), jax.jit(jax.vmap(egrad(sc, c), in_axes=ax))(*rows), v[:2 * h].reshape(2, h), tol[:2 * h].reshape(2, h), what + "vmap of egrad over arrays of points")
        judge(mon, "vmap", key + ("01",), jax.jit(jax.vmap(jax.jacfwd(jax.jacfwd(sc, 0), 1)))(*xj), *dot(unit(0, 1)), what + "vmap of mixed jacfwd")

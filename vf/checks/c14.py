"""Linear least squares against NumPy's own solution of the matrix the residual was built from."""

import numpy as np
from .. import gen, lsq

PROPERTY = "C14"
NEEDS_EXT = False
RULE = ("One evaluation is one result of LS, LsClass.run or ScaledQrLs compared with the minimiser computed from the residual's own "
        "matrix, or one comparison of its structure or of an argument with its snapshot. Distinct: by problem, options and call number.")
REPEAT = 3
MIN_EVALS = 1000
ASSUMPTIONS = ["condition numbers up to 3e10 for systems with an exact solution, up to 1e3 otherwise", "containers: 1-D arrays, TFCDict, TFCDictRobust"]


def setup():
    global jnp, jax, LS, LsClass, ScaledQrLs
    import jax, jax.numpy as jnp
    from tfc.utils import LS, LsClass
    from tfc.utils.TFCUtils import ScaledQrLs


def cases(rng, tier):
    q = tier == "quick"
    out = []
    for kind, n in (("LS", 60), ("class", 45), ("complex", 8)):
        out += [{"kind": kind, "seed": s, "cont": lsq.CONTAINERS[i % 4]} for i, s in enumerate(gen.seeds(rng, n if q else 12 * n))]
    out += [{"kind": "qr", "seed": s} for s in gen.seeds(rng, 12 if q else 150)]
    rng.shuffle(out)
    return out


class Problem:
    """r(xi) = A(args) xi + b(args), with everything known."""

    def __init__(self, r, u, m, rank, ill=False):
        self.u, self.m, n = u, m, u.n
        if rank < min(m, n):
            # exactly deficient, in integers
            L = r.integers(-3, 4, (m, rank)).astype(float)
            L[:rank, :rank] += 7 * np.eye(rank)
            R = r.integers(-3, 4, (rank, n)).astype(float)
            R[:, :rank] += 7 * np.eye(rank)
            self.A = L @ R
        else:
            k = min(m, n)
            U, _ = np.linalg.qr(r.standard_normal((m, k)))
            V, _ = np.linalg.qr(r.standard_normal((n, k)))
            s = 10 ** r.uniform(-1.5, 1.5, k)
            if ill:
                s = 10 ** (-float(r.uniform(4, 10.5)) * np.linspace(0, 1, k)) * 10 ** float(r.uniform(-3, 3))
                if r.integers(0, 2):  # or through the columns' own scales
                    s, V = np.ones(k), np.diag(s)
            self.A = (U * s) @ V.T
        self.nargs = int(r.integers(0, 4))
        self.roles = list(r.permutation(["p", "q", "d"]))[:self.nargs]
        self.deficient = rank < min(m, n)
        self.b = r.standard_normal(m)
        self.consistent = bool(r.integers(0, 2)) or ill
        self.x = r.standard_normal(n)
        self.B1 = r.standard_normal(m)
        self.calls = 0

    def draw(self, r):
        """Values for the extra arguments, in order."""
        vals = {"p": float(r.uniform(0.5, 2)) if r.integers(0, 2) else np.array(r.uniform(0.5, 2)), "q": r.standard_normal(self.m),
                "d": {"u": r.standard_normal(self.m), "v": (np.array(float(r.uniform(-1, 1))),)}}
        if r.integers(0, 2):
            vals["q"] = jnp.array(vals["q"])
        return [vals[k] for k in self.roles]

    def parts(self, args, xp):
        d = dict(zip(self.roles, args))
        A, b = self.A, self.b
        if self.consistent:
            b = -self.A @ self.x
        if "p" in d:
            # a scalar that scales everything: the matrix is exact only for powers of two, elsewhere well conditioned anyway
            A = A * d["p"]
            b = b * d["p"] if self.consistent else b
        if "q" in d and not self.consistent:
            b = b + d["q"] * 0.5
        if "q" in d and self.consistent:
            # adds a part in the range of A
            b = b + A @ xp.sin(d["q"][0] * xp.arange(1.0, self.u.n + 1))
        if "d" in d and not self.consistent:
            b = b + d["d"]["u"] * d["d"]["v"][0]
        return A, b

    def res(self, xi, *args):
        A, b = self.parts(args, jnp)
        return jnp.dot(A, self.u.flat(xi)) + b

    def jac(self, xi, *args):
        self.calls += 1
        return self.parts(args, jnp)[0] + 0.0 * jnp.zeros((self.m, self.u.n))

    def want(self, args):
        A, b = self.parts([np.asarray(a) if not isinstance(a, dict) else a for a in args], np)
        A, b = np.asarray(A, dtype=float), np.asarray(b, dtype=float)
        s = np.linalg.svd(A, compute_uv=False)
        return A, b, np.linalg.lstsq(A, -b, rcond=1e-9 if self.deficient else 1e-14)[0], s


def problem(r, cont):
    k = int(r.integers(0, 8))
    n = int(r.integers(1, 8))
    if k == 5:
        n = int(r.integers(40, 140))
    u = lsq.Unknowns(r, n, cont)
    if k == 5:
        m = n + int(r.integers(0, 150))
        return u, Problem(r, u, m, n)
    if k >= 6:
        m = n + int(r.integers(0, 8))
        return u, Problem(r, u, m, n, ill=True)
    if k <= 1:
        m = n + int(r.integers(0, 12))
        return u, Problem(r, u, m, n)
    if k == 2:
        return u, Problem(r, u, n, n)
    if k == 3:
        m = max(1, n - int(r.integers(1, 4)))
        return u, Problem(r, u, m, min(m, n))
    m = int(r.integers(16, 30))
    return u, Problem(r, u, m, max(1, n - int(r.integers(1, 3))) if n > 1 else 1)


def options(r, p):
    o = {"method": ["pinv", "lstsq"][int(r.integers(0, 2))]}
    if r.integers(0, 3) == 0:
        del o["method"]
    if r.integers(0, 2):
        o["timer"] = True
        if r.integers(0, 2):
            o["timerType"] = lsq.TIMERS[int(r.integers(0, len(lsq.TIMERS)))]
    elif r.integers(0, 3) == 0:
        o["timer"] = False
    if r.integers(0, 3) == 0:
        o["J"] = p.jac
    if p.nargs and r.integers(0, 2):
        o["constant_arg_nums"] = lsq.const_choice(r, p.nargs)
    return o


def untime(mon, out, o):
    if o.get("timer"):
        mon.check(isinstance(out, tuple) and len(out) == 2 and float(out[1]) >= 0, "timer", None, lambda: "with timer the result is %r" % (out,))
        return out[0]
    return out


def compare(mon, p, flat, args, start, key, what, o):
    A, b, x, s = p.want(args)
    scale = np.max(np.abs(A)) * (np.max(np.abs(flat), initial=0) + np.max(np.abs(x), initial=0)) + np.max(np.abs(b)) + 1e-300
    rel = s > (1e-9 if p.deficient else 1e-13) * s[0]
    cond = s[0] / s[rel][-1]
    unique = len(x) == np.sum(rel)
    if unique or start is None or not np.any(start):
        err = np.max(np.abs(flat - x))
        lim = 1e-11 * cond ** 2 * (np.max(np.abs(x)) + np.max(np.abs(b)) / s[0] + 1) + (0 if start is None else 1e-13 * cond * np.max(np.abs(start)))
        if unique and p.consistent:  # no residual: the condition number enters once
            lim = 1e-12 * cond * (np.max(np.abs(x)) + np.max(np.abs(b)) / s[0] + 1 + (0 if start is None else np.max(np.abs(start)))) * np.sqrt(len(x))
        mon.check(err <= lim, "minimiser", key, lambda: "%s gives %s instead of %s (options %s, A %s, rank %d)" % (what, flat, x, show(o), A.shape, np.sum(rel)), sample="%s %s err %.1e of %.1e" % (what, show(o), err, lim))
    else:
        # any minimiser
        g = A.T @ (A @ flat + b)
        mon.check(np.max(np.abs(g)) <= 1e-10 * cond * s[0] * (scale + 1), "any minimiser", key, lambda: "%s: the gradient of the squares is %s (options %s)" % (what, g, show(o)))


def show(o):
    return {k: (v if k != "J" else "given") for k, v in o.items()}


def run(case, mon):
    r = gen.rng(case)
    if case["kind"] == "qr":
        return qr(case, mon, r)
    if case["kind"] == "complex":
        return cplx(case, mon, r)
    u, p = problem(r, case["cont"])
    if case["kind"] == "LS":
        for i in range(2):
            o = options(r, p)
            args = p.draw(r)
            guess = u.make(r.standard_normal(u.n) if r.integers(0, 2) else np.zeros(u.n))
            before = lsq.snapshot([guess, args, o.get("constant_arg_nums")])
            p.calls = 0
            xi = untime(mon, LS(guess, p.res, *args, **o), o)
            flat = u.look(mon, xi, "the result of LS")
            compare(mon, p, flat, args, None, (case["seed"], i), "LS", o)
            mon.check(lsq.snapshot([guess, args, o.get("constant_arg_nums")]) == before, "arguments", (case["seed"], i), lambda: "LS changed its arguments (options %s)" % show(o))
            if "J" in o:
                mon.check(p.calls > 0, "user Jacobian", (case["seed"], i), "the given Jacobian was never evaluated")
        return
    # several objects, called in turn, with arguments that change
    objs = []
    for k in range(int(r.integers(1, 3))):
        if k:
            u, p = problem(r, None)
        o = options(r, p)
        args = p.draw(r)
        guess = u.make(np.zeros(u.n))
        objs.append((u, p, o, args, LsClass(guess, p.res, *args, **o)))
    old = []
    for i in range(6):
        u, p, o, args0, ob = objs[int(r.integers(0, len(objs)))]
        new = p.draw(r)
        const = lsq.const_set(o, p.nargs)
        full = [args0[k] if k + 1 in const else new[k] for k in range(p.nargs)]
        given = [new[k] for k in range(p.nargs) if k + 1 not in const]
        start = np.zeros(u.n) if r.integers(0, 2) else r.standard_normal(u.n)
        guess = u.make(start)
        before = lsq.snapshot([guess, given])
        xi = untime(mon, ob.run(guess, *given), o)
        flat = u.look(mon, xi, "the result of LsClass.run")
        compare(mon, p, flat, full, start, (case["seed"], i), "LsClass.run (call %d)" % i, o)
        mon.check(lsq.snapshot([guess, given]) == before, "arguments", (case["seed"], i), lambda: "LsClass.run changed its arguments (options %s)" % show(o))
        old.append((xi, lsq.snapshot(xi)))
    for k, (xi, s) in enumerate(old):
        mon.check(lsq.snapshot(xi) == s, "earlier results", (case["seed"], k), "a result that LsClass.run returned earlier was changed by a later call")


def cplx(case, mon, r):
    n = int(r.integers(1, 5))
    m = n + int(r.integers(0, 5))
    u = lsq.Unknowns(r, n, case["cont"])
    A = r.standard_normal((m, n)) + 1j * r.standard_normal((m, n)) + 3 * np.eye(m, n)
    b = r.standard_normal(m) + 1j * r.standard_normal(m)
    want = np.linalg.lstsq(A, -b, rcond=None)[0]
    res = lambda xi, c: jnp.dot(A, u.flat(xi)) + b * c
    o = {"method": ["pinv", "lstsq"][int(r.integers(0, 2))], "holomorphic": True}
    c = 1.0 + 2.0j
    guess = u.make(np.zeros(n, dtype=complex))
    if r.integers(0, 2):
        o["timer"] = True
    if r.integers(0, 3) == 0:
        o["constant_arg_nums"] = [1]
    for what in ("LS", "LsClass.run"):
        xi = untime(mon, LS(guess, res, c, **o) if what == "LS" else LsClass(guess, res, c, **o).run(guess, *([] if "constant_arg_nums" in o else [c])), o)
        flat = u.look(mon, xi, what)
        cond = np.linalg.cond(A)
        mon.check(np.max(np.abs(flat - want * c)) <= 1e-11 * cond ** 2 * (1 + np.max(np.abs(want))), "complex", (case["seed"], what), lambda: "%s: %s instead of %s for a holomorphic residual" % (what, flat, want * c))


def qr(case, mon, r):
    for i in range(6):
        n = int(r.integers(1, 9))
        m = n + int(r.integers(0, 12))
        U, _ = np.linalg.qr(r.standard_normal((m, n)))
        V, _ = np.linalg.qr(r.standard_normal((n, n)))
        A0 = (U * 10 ** r.uniform(-1, 1, n)) @ V.T
        S = [np.ones(n), 10 ** r.uniform(-6, 6, n), 10 ** r.uniform(-14, 14, n)][int(r.integers(0, 3))]
        A = A0 * S
        k = int(r.integers(0, 3))
        B = r.standard_normal(m) if k == 0 else r.standard_normal((m, [1, int(r.integers(2, 5))][k - 1]))
        if r.integers(0, 2):
            B = A0 @ r.standard_normal((n,) + B.shape[1:])
        a, bb = (A, B) if r.integers(0, 2) else (jnp.array(A), jnp.array(B))
        before = lsq.snapshot([a, bb])
        x, cn = ScaledQrLs(a, bb)
        x = np.asarray(x)
        want = np.linalg.lstsq(A0, B, rcond=None)[0]
        mon.check(x.shape == want.shape, "scaled QR", (case["seed"], i), lambda: "ScaledQrLs of shapes %s and %s gives shape %s" % (A.shape, B.shape, x.shape))
        got = (x.T * S).T
        if n > 1 and r.integers(0, 2):
            # columns that are nearly, but not numerically, dependent, and an exact solution
            C = (U * 10 ** np.linspace(0, -float(r.uniform(4, 9)), n)) @ V.T
            y = r.standard_normal(n)
            z = np.asarray(ScaledQrLs(C * S, C @ y)[0]) * S
            err, lim = np.max(np.abs(z - y)), 1e-12 * np.linalg.cond(C) * np.sqrt(n) * (1 + np.max(np.abs(y)))
            mon.check(err <= lim, "scaled QR", (case["seed"], i, "ill"), lambda: "ScaledQrLs gives %s instead of %s for a consistent system of condition %.1e" % (z, y, np.linalg.cond(C)))
        c = np.linalg.cond(A0)
        mon.check(np.max(np.abs(got - want)) <= 1e-11 * c ** 2 * (np.max(np.abs(want)) + np.max(np.abs(B))), "scaled QR", (case["seed"], i), lambda: "ScaledQrLs gives %s instead of %s for a matrix of shape %s" % (got, want, A.shape))
        N = A0 / np.linalg.norm(A0, axis=0)
        mon.check(abs(float(cn) - np.linalg.cond(N)) <= 1e-6 * np.linalg.cond(N), "condition number", (case["seed"], i), lambda: "the condition number is %r instead of %r" % (float(cn), np.linalg.cond(N)))
        mon.check(lsq.snapshot([a, bb]) == before, "arguments", (case["seed"], i), "ScaledQrLs changed its arguments")

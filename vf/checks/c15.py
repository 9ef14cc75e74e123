"""Gauss-Newton runs against a plain NumPy Gauss-Newton with the documented stopping rule."""

import contextlib, io, re
import numpy as np
from .. import gen, lsq

PROPERTY = "C15"
NEEDS_EXT = False
RULE = ("One evaluation is one run of NLLS or NllsClass.run: its iterate, its number of steps, its printed iterations or its arguments, "
        "compared with the reference iteration. Problems whose reference changes under a perturbation of 1e-11, or whose stopping "
        "decision is closer than 3 % (a factor 2 below 1e-7) to the tolerance, are drawn again. Distinct: by problem, options and call number.")
REPEAT = 3
MIN_EVALS = 700
ASSUMPTIONS = ["tolerances from 1e-10 to 0.5, as the first step counts as 1", "containers: 1-D arrays, TFCDict, TFCDictRobust"]


def setup():
    global jnp, jax, NLLS, NllsClass
    import jax, jax.numpy as jnp
    from tfc.utils import NLLS, NllsClass


def cases(rng, tier):
    q = tier == "quick"
    out = []
    for kind, n in (("NLLS", 70), ("class", 50), ("user", 24), ("print", 20), ("defaults", 3), ("complex", 8), ("ill", 6)):
        out += [{"kind": kind, "seed": s, "cont": lsq.CONTAINERS[i % 4]} for i, s in enumerate(gen.seeds(rng, n if q else 12 * n))]
    rng.shuffle(out)
    return out


PHI = {
    "sin": (lambda xp, v: xp.sin(v), lambda xp, v: xp.cos(v)),
    "exp": (lambda xp, v: xp.exp(0.5 * v), lambda xp, v: 0.5 * xp.exp(0.5 * v)),
    "sq": (lambda xp, v: v * v + v, lambda xp, v: 2 * v + 1),
    "atan": (lambda xp, v: xp.arctan(v), lambda xp, v: 1 / (1 + v * v)),
    "lin": (lambda xp, v: v + 0.0, lambda xp, v: 1.0 + 0.0 * v),
    "cube": (lambda xp, v: v ** 3, lambda xp, v: 3 * v ** 2),
}


class Problem:
    """r(x) = A phi(B x + c) - y(args)."""

    def __init__(self, r, u, m):
        n = u.n
        self.u, self.m = u, m
        self.phi = list(PHI)[int(r.integers(0, len(PHI)))]
        k = n if self.phi != "cube" else n
        self.B = r.standard_normal((k, n)) * 0.3 + np.eye(n)
        self.c = r.standard_normal(k) * 0.3
        self.A = r.standard_normal((m, k)) * 0.3 + np.eye(m, k)
        self.sol = r.uniform(-1, 1, n)
        self.noise = r.standard_normal(m) * (0.0 if r.integers(0, 2) else 0.05)
        self.nargs = int(r.integers(0, 4))
        self.roles = list(r.permutation(["p", "q", "d"]))[:self.nargs]
        self.start = self.sol + r.uniform(-1, 1, n) * [0.05, 0.3, 1.0][int(r.integers(0, 3))]
        if self.phi == "cube" and r.integers(0, 2):
            # a triple root: linear convergence
            self.c = -self.B @ self.sol
            self.noise *= 0
        self.y = self.A @ PHI[self.phi][0](np, self.B @ self.sol + self.c) + self.noise
        self.calls = 0

    def draw(self, r):
        vals = {"p": float(r.uniform(0.7, 1.4)), "q": r.standard_normal(self.m) * 0.02, "d": {"u": [np.array(r.uniform(-0.02, 0.02)), r.standard_normal(self.m) * 0.1]}}
        if r.integers(0, 2):
            vals["q"] = jnp.array(vals["q"])
            vals["p"] = np.array(vals["p"])
        return [vals[k] for k in self.roles]

    def y_of(self, args):
        d = dict(zip(self.roles, args))
        y, s = self.y, 1.0
        if "q" in d:
            y = y + d["q"]
        if "d" in d:
            y = y + d["d"]["u"][0] * d["d"]["u"][1]
        if "p" in d:
            s = d["p"]
        return y, s

    def f(self, xp, x, args):
        y, s = self.y_of(args)
        return s * (xp.dot(self.A, PHI[self.phi][0](xp, xp.dot(self.B, x) + self.c)) - y)

    def df(self, xp, x, args):
        y, s = self.y_of(args)
        return s * xp.dot(self.A * PHI[self.phi][1](xp, xp.dot(self.B, x) + self.c), self.B)

    def res(self, xi, *args):
        return self.f(jnp, self.u.flat(xi), args)

    def jac(self, xi, *args):
        self.calls += 1
        return self.df(jnp, self.u.flat(xi), args)

    def secant(self, xi, *args):
        """Some other Jacobian, which the user may prefer."""
        self.calls += 1
        return 1.5 * self.df(jnp, self.u.flat(xi), args)


def reference(f, J, x0, steps):
    """Iterates, largest residuals and largest steps of Gauss-Newton."""
    x = np.array(x0)
    xs, rs, ds = [x], [np.max(np.abs(f(x)))], [1.0]
    for _ in range(steps):
        with np.errstate(all="ignore"):
            d = np.linalg.lstsq(J(x), f(x), rcond=1e-13)[0]
        x = x - d
        xs.append(x)
        rs.append(np.max(np.abs(f(x))))
        ds.append(np.max(np.abs(d)))
        if not np.all(np.isfinite(x)) or np.max(np.abs(x)) > 1e6:
            return None
    return xs, rs, ds


def stop(rs, ds, tol, maxIter):
    """Where the rule stops, and whether that is clear."""
    for k in range(len(rs)):
        for v in (rs[k], ds[k] if k else 1.0):
            # far from rounding errors a few percent are enough to be sure
            near = (0.97, 1.03) if v > 1e-7 else (0.5, 2)
            if near[0] < v / tol < near[1] or (v < 1e-12 and tol < 1e-11):
                return None
        if rs[k] <= tol or k >= maxIter or (k and ds[k] <= tol):
            return k
    return None


def plan(r, p, args, x0, damp=1.0, want=None):
    """tol, maxIter and what has to come out; or None if that cannot be told reliably."""
    f = lambda x: p.f(np, x, args)
    J = lambda x: p.df(np, x, args) / damp
    N = 40
    a = reference(f, J, x0, N)
    b = reference(f, J, x0 + 1e-11 * r.standard_normal(len(x0)), N)
    if a is None or b is None:
        return None
    s = [np.linalg.svd(J(x), compute_uv=False) for x in a[0]]
    for _ in range(12):
        if want is None:
            tol = 10 ** r.uniform(-10, -0.4)
            if r.integers(0, 2):
                # just on one side of a residual or a step that was seen
                v = [w for w in a[1][:8] + a[2][1:8] if 1e-7 < w < 0.3]
                if v:
                    tol = float(v[int(r.integers(0, len(v)))] * 10 ** (r.uniform(0.02, 0.4) * r.choice([1, 1, -1])))
            maxIter = [int(r.integers(1, 9)), int(r.integers(1, 9)), 12, int(r.choice([21, 33, 64, 100, 1000]))][int(r.integers(0, 4))]
        else:
            tol, maxIter = want
        k = stop(a[1], a[2], tol, maxIter)
        if k is None or stop(b[1], b[2], tol, maxIter) != k:
            if want is not None:
                return None
            continue
        if any(v[-1] < 1e-4 * v[0] for v in s[:k + 1]):
            return None
        dev = max([np.max(np.abs(u - v)) for u, v in zip(a[0][:k + 1], b[0][:k + 1])])
        if dev > 1e-8:
            return None
        return tol, maxIter, k, a, 1e-9 + 30 * dev
    return None


def options(r, p):
    o = {}
    if r.integers(0, 3):
        o["method"] = ["pinv", "lstsq"][int(r.integers(0, 2))]
    if r.integers(0, 3) == 0:
        o["timer"] = True
        if r.integers(0, 2):
            o["timerType"] = lsq.TIMERS[int(r.integers(0, len(lsq.TIMERS)))]
    if p.nargs and r.integers(0, 2):
        o["constant_arg_nums"] = lsq.const_choice(r, p.nargs)
    return o


def jacobian(r, p, o):
    k = int(r.integers(0, 5))
    if k == 0:
        o["J"] = p.jac
    if k == 1:
        o["J"] = p.secant
        return 1 / 1.5
    return 1.0


def problem(r, cont):
    n = int(r.integers(1, 5)) if r.integers(0, 5) else int(r.integers(5, 10))
    m = n + int(r.integers(0, 4)) + (int(r.integers(4, 60)) if r.integers(0, 4) == 0 else 0)
    u = lsq.Unknowns(r, n, cont)
    return u, Problem(r, u, m)


def show(o):
    return {k: (v if not callable(v) else "given") for k, v in o.items()}


def call(o, f):
    """Runs it, collecting what it prints."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        out = f()
        jax.block_until_ready(list(out[0].values()) if isinstance(out[0], dict) else out[0])
        jax.effects_barrier()
    return out, buf.getvalue()


LINE = re.compile(r"Iteration:\s*(\d+)\s+max\(abs\(res\)\):\s*([-+.0-9eE]+|nan|inf)")


def verdict(mon, u, o, out, text, pl, key, what):
    tol, maxIter, k, ref, lim = pl
    n = 3 if o.get("timer") else 2
    mon.check(isinstance(out, tuple) and len(out) == n, "result", key, lambda: "%s returned %d values with timer=%s" % (what, len(out), o.get("timer")))
    flat = u.look(mon, out[0], what)
    it = int(out[1])
    mon.check(it == k, "steps", key, lambda: "%s made %d steps instead of %d (tol %g, maxIter %d; residuals %s, steps %s; options %s)" % (
        what, it, k, tol, maxIter, ref[1][:max(k, it) + 1], ref[2][:max(k, it) + 1], show(o)), sample="%s: %d steps, tol %.1e, maxIter %d" % (what, k, tol, maxIter))
    err = np.max(np.abs(flat - ref[0][k]))
    mon.check(err <= lim * (1 + np.max(np.abs(ref[0][k]))), "iterate", key, lambda: "%s returned %s instead of iterate %d, %s (options %s)" % (what, flat, k, ref[0][k], show(o)))
    if n == 3:
        mon.check(float(out[2]) >= 0, "timer", key, lambda: "the time is %r" % out[2])
    if o.get("printOut"):
        end = o.get("printOutEnd", "\n")
        got = [(int(a), float(b)) for a, b in LINE.findall(text)]
        mon.check(text.count(end) >= len(got), "printed", key, lambda: "%s: %d iterations printed, but %d times the end %r:\n%s" % (what, len(got), text.count(end), end, text))
        if not o.get("timer"):
            mon.check(len(got) == k, "printed", key, lambda: "%s made %d steps and printed %d:\n%s" % (what, k, len(got), text))
        for i in range(k):
            w = ref[1][i + 1]
            mon.check(any(a == i and abs(b - w) <= 1e-8 + 1e-6 * w for a, b in got), "printed", (key, i), lambda: "%s: iteration %d with residual %g is not among what was printed:\n%s" % (what, i, w, text))
    elif what != "user":
        mon.check(not LINE.search(text), "quiet", key, lambda: "%s prints without being asked: %s" % (what, text))


def run(case, mon):
    r = gen.rng(case)
    if case["kind"] == "defaults":
        return defaults(case, mon, r)
    if case["kind"] == "complex":
        return cplx(case, mon, r)
    if case["kind"] == "ill":
        return ill(case, mon, r)
    if case["kind"] == "user":
        return user(case, mon, r)
    for _ in range(200):
        u, p = problem(r, case["cont"])
        args = p.draw(r)
        o = options(r, p)
        damp = jacobian(r, p, o)
        x0 = p.start
        pl = plan(r, p, args, x0, damp)
        if pl is not None and (pl[2] > 0 or r.integers(0, 5) == 0):
            break
    else:
        return
    o.update(tol=pl[0], maxIter=pl[1])
    if case["kind"] == "print" or r.integers(0, 12) == 0:
        o["printOut"] = True
        if r.integers(0, 2):
            o["printOutEnd"] = ["\r", " | ", "\n\n", ";\n"][int(r.integers(0, 4))]
    if case["kind"] in ("NLLS", "print") and not (case["kind"] == "print" and r.integers(0, 2)):
        guess = u.make(x0)
        before = lsq.snapshot([guess, args, o.get("constant_arg_nums")])
        p.calls = 0
        out, text = call(o, lambda: NLLS(guess, p.res, *args, **o))
        verdict(mon, u, o, out, text, pl, case["seed"], "NLLS")
        mon.check(lsq.snapshot([guess, args, o.get("constant_arg_nums")]) == before, "arguments", case["seed"], lambda: "NLLS changed its arguments (options %s)" % show(o))
        if "J" in o:
            mon.check(p.calls > 0, "user Jacobian", case["seed"], "the given Jacobian was never evaluated")
        return
    init = p.draw(r)
    const = lsq.const_set(o, p.nargs)
    full0 = [args[k] if k + 1 in const else init[k] for k in range(p.nargs)]
    ob = NllsClass(u.make(r.standard_normal(u.n)), p.res, *full0, **o)
    old = []
    i = 0
    for _ in range(12):
        if i >= 4:
            break
        if i == 0:
            full, start, q = args, x0, pl
        else:
            new = p.draw(r)
            full = [args[k] if k + 1 in const else new[k] for k in range(p.nargs)]
            start = p.sol + r.uniform(-1, 1, u.n) * [0.0, 0.05, 0.3, 1.0][int(r.integers(0, 4))]
            q = plan(r, p, full, start, damp, want=(pl[0], pl[1]))
            if q is None:
                continue
        given = [full[k] for k in range(p.nargs) if k + 1 not in const]
        guess = u.make(start)
        before = lsq.snapshot([guess, given])
        out, text = call(o, lambda: ob.run(guess, *given))
        verdict(mon, u, o, out, text, q, (case["seed"], i), "NllsClass.run (call %d)" % i)
        mon.check(lsq.snapshot([guess, given]) == before, "arguments", (case["seed"], i), lambda: "NllsClass.run changed its arguments (options %s)" % show(o))
        old.append((out[0], lsq.snapshot(out[0])))
        i += 1
    for k, (xi, s) in enumerate(old):
        mon.check(lsq.snapshot(xi) == s, "earlier results", (case["seed"], k), "a result returned earlier was changed by a later call")


def user(case, mon, r):
    """cond and body of the user, alone and together."""
    for _ in range(200):
        u, p = problem(r, case["cont"])
        args = p.draw(r)
        o = options(r, p)
        which = ["cond", "body", "both"][int(r.integers(0, 3))]
        damp = 0.5 if which != "cond" else 1.0
        pl = plan(r, p, args, p.start, damp)
        if pl is not None and pl[2] > 0:
            break
    else:
        return
    tol, maxIter, k, ref, lim = pl
    o["tol"], o["maxIter"] = tol, maxIter
    const = lsq.const_set(o, p.nargs)
    keep = [i for i in range(p.nargs) if i + 1 not in const]

    def full(given):
        it = iter(given)
        return [args[i] if i + 1 in const else next(it) for i in range(p.nargs)]

    seen = []
    if which in ("cond", "both"):
        N = int(r.integers(0, 6))
        level = 10 ** r.uniform(-4, 0)
        kind = int(r.integers(0, 3))
        vals = ref[1] if kind == 1 else ref[2]
        k = N
        if kind:
            ks = [i for i in range(len(vals)) if vals[i] <= level or i >= 9]
            k = ks[0]
            if any(0.5 < v / level < 2 for v in vals[:k + 1]) or level < 1e-11:
                return

        def cond(val):
            seen.append(sorted(val))
            if kind == 0:
                return val["it"] < N
            if kind == 1:
                return (jnp.max(jnp.abs(p.f(jnp, u.flat(val["xi"]), full(val["args"])))) > level) & (val["it"] < 9)
            return (jnp.max(jnp.abs(val["dxi"])) > level) & (val["it"] < 9)

        o["cond"] = cond
    if which in ("body", "both"):
        def body(val):
            a = full(val["args"])
            x = u.flat(val["xi"])
            d = damp * jnp.linalg.lstsq(p.df(jnp, x, a), p.f(jnp, x, a))[0]
            val["xi"] = val["xi"] - d
            val["dxi"] = d
            val["it"] = val["it"] + 1
            return val

        o["body"] = body
    if any(np.linalg.svd(p.df(np, x, args), compute_uv=False)[-1] < 1e-3 for x in ref[0][:k + 1]):
        return
    a = reference(lambda x: p.f(np, x, args), lambda x: p.df(np, x, args) / damp, p.start + 1e-11, max(1, k))
    if a is None or max(np.max(np.abs(v - w)) for v, w in zip(a[0], ref[0])) > 1e-8:
        return
    guess = u.make(p.start)
    if r.integers(0, 2):
        what = "NLLS with the user's " + which
        out, text = call(o, lambda: NLLS(guess, p.res, *args, **o))
    else:
        what = "NllsClass with the user's " + which
        ob = NllsClass(guess, p.res, *args, **o)
        out, text = call(o, lambda: ob.run(guess, *[args[i] for i in keep]))
    verdict(mon, u, o, out, text, (tol, maxIter, k, ref, 1e-7), (case["seed"], which), what)


def defaults(case, mon, r):
    """The documented defaults: tol 1e-13 and maxIter 50."""
    scale = 2.0 ** int(r.integers(0, 4))
    for what in ("NLLS", "NllsClass"):
        def go(res, x0):
            kw = {"timer": True} if r.integers(0, 2) else {}
            if what == "NLLS":
                return NLLS(x0, res, **kw)[:2]
            return NllsClass(x0, res, **kw).run(x0)[:2]
        # x^2 halves each step: the residuals are exact powers of two
        x0 = np.array([scale])
        k = next(i for i in range(60) if (scale * 2.0 ** -i) ** 2 <= 1e-13)
        xi, it = go(lambda x: x * x, x0)
        mon.check(int(it) == k, "default tolerance", (case["seed"], what), lambda: "%s made %d steps on x^2 from %g instead of %d" % (what, int(it), scale, k))
        # no root, and no step shorter than 1
        xn = np.array([scale + 0.3])
        xi, it = go(lambda x: x * x + 1.0, xn)
        mon.check(int(it) == 50, "default limit", (case["seed"], what), lambda: "%s made %d steps on x^2 + 1 instead of 50" % (what, int(it)))
        # long runs, if they are asked for
        kw = {"method": ["pinv", "lstsq"][int(r.integers(0, 2))], "maxIter": int(r.choice([51, 77, 137, 400]))}
        xi, it = NLLS(xn, lambda x: x * x + 1.0, **kw) if what == "NLLS" else NllsClass(xn, lambda x: x * x + 1.0, **kw).run(xn)
        mon.check(int(it) == kw["maxIter"], "long run", (case["seed"], what, 0), lambda: "%s made %d steps on x^2 + 1 with %r" % (what, int(it), kw))
        kw = {"tol": float(r.choice([1e-30, 1e-45, 1e-60])), "maxIter": 300}
        k = next(i for i in range(300) if (scale * 2.0 ** -i) ** 2 <= kw["tol"])
        xi, it = NLLS(x0, lambda x: x * x, **kw) if what == "NLLS" else NllsClass(x0, lambda x: x * x, **kw).run(x0)
        mon.check(int(it) == k, "long run", (case["seed"], what, 1), lambda: "%s made %d steps on x^2 from %g with %r instead of %d" % (what, int(it), scale, kw, k))
        # solved at the start
        xi, it = go(lambda x: x - scale, x0)
        mon.check(int(it) == 0 and float(xi[0]) == scale, "solved at the start", (case["seed"], what), lambda: "%s made %d steps from the solution and returned %r" % (what, int(it), xi))
        for mi in (0, 1, 2):
            xi, it = NLLS(xn, lambda x: x * x + 1.0, maxIter=mi) if what == "NLLS" else NllsClass(xn, lambda x: x * x + 1.0, maxIter=mi).run(xn)
            x = scale + 0.3
            for _ in range(mi):
                x -= (x * x + 1) / (2 * x)
            mon.check(int(it) == mi and abs(float(xi[0]) - x) <= 1e-9 * (1 + abs(x)), "few steps", (case["seed"], what, mi), lambda: "%s with maxIter=%d made %d steps and returned %r" % (what, mi, int(it), xi))


def ill(case, mon, r):
    """Ill-conditioned systems with an exact solution are solved by the first steps, as far as the condition number allows."""
    n = int(r.integers(2, 7))
    u = lsq.Unknowns(r, n, case["cont"])
    m = n + int(r.integers(0, 3))
    e = float(r.uniform(3, 9.5))
    Q, P = np.linalg.qr(r.standard_normal((m, n)))[0], np.linalg.qr(r.standard_normal((n, n)))[0]
    A = Q @ np.diag(10.0 ** (-e * np.arange(n) / (n - 1))) @ P
    sol = r.uniform(-1, 1, n)
    b = A @ sol
    start = sol + r.uniform(0.5, 1, n) * r.choice([-1, 1], n)
    for what in ("NLLS", "NllsClass.run"):
        for meth in ("pinv", "lstsq"):
            o = {"method": meth, "tol": 1e-13, "maxIter": 6}
            res = lambda xi: jnp.dot(A, u.flat(xi)) - b
            xi, it = NLLS(u.make(start), res, **o) if what == "NLLS" else NllsClass(u.make(start), res, **o).run(u.make(start))
            flat = u.look(mon, xi, what)
            mon.check(np.max(np.abs(flat - sol)) <= 1e-13 * 10 ** e * n + 1e-9, "ill-conditioned", (case["seed"], what, meth), lambda: "%s (%s) gives %s instead of %s for a system of condition number %.1e" % (what, meth, flat, sol, 10 ** e))


def cplx(case, mon, r):
    n = int(r.integers(1, 4))
    u = lsq.Unknowns(r, n, case["cont"])
    A = r.standard_normal((n, n)) + 1j * r.standard_normal((n, n)) + 4 * np.eye(n)
    sol = r.standard_normal(n) + 1j * r.standard_normal(n)
    f = lambda xp, x: xp.dot(A, x + 0.1 * x * x) - A @ (sol + 0.1 * sol * sol)
    o = {"holomorphic": True, "tol": 1e-9, "method": ["pinv", "lstsq"][int(r.integers(0, 2))]}
    guess = u.make(sol + 0.01 * (r.standard_normal(n) + 1j * r.standard_normal(n)))
    for what in ("NLLS", "NllsClass.run"):
        res = lambda xi: f(jnp, u.flat(xi))
        xi, it = NLLS(guess, res, **o) if what == "NLLS" else NllsClass(guess, res, **o).run(guess)
        flat = u.look(mon, xi, what)
        mon.check(np.max(np.abs(f(np, flat))) <= 1e-9 * 100 and int(it) < 10, "complex", (case["seed"], what), lambda: "%s: residual %s after %d steps for a holomorphic problem" % (what, f(np, flat), int(it)))
    # the stopping rule, also for residuals that are real or imaginary only
    for _ in range(100):
        turn = [1.0, 1j, -1j, np.exp(1j * r.uniform(0, 6))][int(r.integers(0, 4))]
        A = r.standard_normal((n, n)) * 0.3 + np.eye(n)
        sol = r.uniform(-1, 1, n)
        start = (sol + r.uniform(-1, 1, n) * 0.5).astype(complex)
        if r.integers(0, 2):
            # a residual with real and with imaginary components
            turn = turn * np.where(r.integers(0, 2, n), 1, 1j)
        f = lambda xp, x: turn * (xp.dot(A, x + 0.3 * x * x) - A @ (sol + 0.3 * sol * sol))
        ref = reference(lambda x: f(np, x), lambda x: np.reshape(turn * np.ones(n), (n, 1)) * A * (1 + 0.6 * x), start, 12)
        tol = float(10 ** r.uniform(-9, -0.5))
        k = ref and stop(ref[1], ref[2], tol, 12)
        if k and ref[1][k] < 1e3:
            break
    else:
        return
    for what in ("NLLS", "NllsClass.run"):
        o = {"holomorphic": True, "tol": tol, "maxIter": 12}
        res = lambda xi: f(jnp, u.flat(xi))
        xi, it = NLLS(u.make(start), res, **o) if what == "NLLS" else NllsClass(u.make(start), res, **o).run(u.make(start))
        flat = u.look(mon, xi, what)
        mon.check(int(it) == k and np.max(np.abs(flat - ref[0][k])) <= 1e-8 * (1 + np.max(np.abs(ref[0][k]))), "complex stopping rule", (case["seed"], what), lambda: "%s: %d steps to %s instead of %d to %s, with tol=%g" % (what, int(it), flat, k, ref[0][k], tol))

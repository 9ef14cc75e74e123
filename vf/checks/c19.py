"""egrad against symbolic derivatives, and the unit step with its derivatives."""

import functools, random
import numpy as np
import sympy as sp
from .. import gen, lsq

PROPERTY = "C19"
RULE = ("One evaluation is one (nested) egrad of one function at one set of arrays, compared element by element with the symbolic "
        "derivative; or one value or derivative of step. Distinct: by function, argument numbers, shape and way of calling.")
REPEAT = 2
MIN_EVALS = 1500
ASSUMPTIONS = ["arguments are floating point arrays (or containers of them)", "for a container argument the derivative is along the direction of all ones: the sum over its leaves"]


def setup():
    global jnp, jax, egrad, egradSimple, step, TFCDict, TFCDictRobust, utfc, mtfc
    import jax, jax.numpy as jnp
    from tfc import utfc, mtfc
    from tfc.utils import egrad, egradSimple, step, TFCDict, TFCDictRobust


def cases(rng, tier):
    q = tier == "quick"
    out = [{"kind": k, "seed": s} for k, n in (("arrays", 70), ("nested", 40), ("step", 14), ("basis", 8)) for s in gen.seeds(rng, n if q else 15 * n)]
    rng.shuffle(out)
    return out


V = sp.symbols("a b c d u v w")


def expr(r, vs, depth):
    if depth == 0:
        return r.choice(list(vs) * 3 + [sp.Rational(r.randint(1, 7), r.randint(2, 5))])
    k = r.randrange(9)
    e = lambda: expr(r, vs, depth - 1)
    if k < 3:
        return e() + e()
    if k < 5:
        return e() * e()
    t = e()
    return [sp.sin(t), sp.cos(t), sp.exp(sp.sin(t) / 2), 1 / (t ** 2 + 1), sp.tanh(t)][r.randrange(5)]


def compiled(e, vs):
    f = sp.lambdify(vs, e, modules=[{"sin": jnp.sin, "cos": jnp.cos, "exp": jnp.exp, "tanh": jnp.tanh}, "math"])

    def g(*args):
        # constants are elementwise functions as well
        return f(*args) + 0.0 * args[0]

    return g


class Thing:
    def __init__(self, f):
        self.f = f

    def __call__(self, *args):
        return self.f(*args)

    def method(self, *args):
        return self.f(*args)


def dress(r, f):
    """The same function as another kind of callable."""
    k = r.randrange(8)
    if k == 0:
        # a decorated one; what it wraps is another function
        @functools.wraps(lambda *args: 3.0 * args[0] - f(*args))
        def g(*args):
            return f(*args)
        return g
    if k == 1:
        return functools.partial(lambda two, *args: 0.5 * two * f(*args), 2.0)
    if k == 2:
        return Thing(f)
    if k == 3:
        return Thing(f).method
    return f


def exact(e, vs, args):
    f = sp.lambdify(vs, e, modules="numpy")
    return np.asarray(f(*[np.asarray(a, dtype=float) for a in args])) * np.ones(np.shape(args[0]))


def run(case, mon):
    r = random.Random(case["seed"])
    return {"arrays": arrays, "nested": nested, "step": steps, "basis": basis}[case["kind"]](case, mon, r)


SHAPES = [(5,), (5,), (), (1,), (2, 3), (4, 1), (2, 1, 2), (0,), (150,), (3, 70), (2, 40, 3), (2, 1, 130), (1, 1, 1, 2)]


def arrays(case, mon, r):
    n = r.choice([1, 2, 2, 3, 4, 5, 7])
    vs = V[:n]
    e = expr(r, vs, r.choice([1, 2, 3])) + sum(r.choice([1, 2, -1]) * v ** (i + 1) for i, v in enumerate(vs))
    f = compiled(e, vs)
    shape = r.choice(SHAPES)
    rs = np.random.default_rng(case["seed"])
    for way in range(3):
        order = [r.randrange(n) for _ in range(r.choice([1, 1, 2, 3]))]
        op = r.choice([egrad, egrad, egradSimple])
        name = "egrad" if op is egrad else "egradSimple"
        jits = [r.random() < 0.3 for _ in range(len(order) + 1)]
        g = dress(r, f)
        g = jax.jit(g) if jits[0] else g
        want = e
        desc = "f"
        for j, jt in zip(order, jits[1:]):
            g = op(g) if j == 0 and r.random() < 0.5 else op(g, j)
            if jt:
                g = jax.jit(g)
            desc = "%s%s(%s, %d)" % ("jit " if jt else "", name, desc, j)
            want = sp.diff(want, vs[j])
        args = [rs.uniform(-2, 2, shape) for _ in range(n)]
        if r.random() < 0.6:
            args = [jnp.array(a) for a in args]
        if r.random() < 0.25:
            # the same array in several places
            args = [args[r.randrange(n)] if r.random() < 0.6 else a for a in args]
        single = op is egrad and r.random() < 0.08
        if single:
            args = [jnp.array(a, dtype=jnp.float32) for a in args]
        before = lsq.snapshot(args)
        got = g(*args)
        w = exact(want, vs, args)
        tol = 1e-3 if single else 1e-9
        mon.check(np.shape(got) == shape, "shape", (case["seed"], way), lambda: "%s of arrays of shape %s has shape %s" % (desc, shape, np.shape(got)))
        ok = np.all(np.abs(np.asarray(got, dtype=float) - w) <= tol * (1 + np.abs(w) + 10 * single * np.max(np.abs(w), initial=0)))
        mon.check(ok, "derivative", (case["seed"], way), lambda: "%s of f = %s is %s instead of %s = %s at %s" % (desc, e, got, want, w, args), sample="%s of %s" % (desc, e))
        mon.check(lsq.snapshot(args) == before, "arguments", (case["seed"], way), "the arguments were changed")


def nested(case, mon, r):
    """Dictionaries and other containers as arguments, and as results."""
    vs = V[:3]
    e1 = expr(r, vs, 2) + vs[0] * vs[1] + vs[2] ** 2
    e2 = expr(r, vs, 2) - vs[1] * vs[2]
    f1, f2 = compiled(e1, vs), compiled(e2, vs)
    rs = np.random.default_rng(case["seed"])
    shape = r.choice([(4,), (2, 2), ()])
    a, b, c = (jnp.array(rs.uniform(-2, 2, shape)) if r.random() < 0.7 else rs.uniform(-2, 2, shape) for _ in range(3))
    kind = r.randrange(5)
    box = [lambda: {"z": a, "q": b}, lambda: TFCDict([("z", a), ("q", b)]), lambda: TFCDictRobust([("z", a), ("q", b)]),
           lambda: {"in": {"z": a}, "l": [b]}, lambda: (a, [b])][kind]()
    un = [lambda d: (d["z"], d["q"]), lambda d: (d["z"], d["q"]), lambda d: (d["z"], d["q"]), lambda d: (d["in"]["z"], d["l"][0]), lambda d: (d[0], d[1][0])][kind]
    flip = r.random() < 0.5
    outk = r.randrange(3)

    def f(*args):
        d, t = (args[1], args[0]) if flip else args
        z, q = un(d)
        v1, v2 = f1(z, q, t), f2(z, q, t)
        return [v1, {"u": v1, "v": (v2,)}, TFCDict([("v", jnp.ravel(v2)), ("u", jnp.ravel(v1))])][outk]

    args = (c, box) if flip else (box, c)
    posd, post = (1, 0) if flip else (0, 1)
    for order in ([posd], [post], [posd, post], [post, posd], [posd, posd]):
        g = f
        w1, w2 = e1, e2
        for j in order:
            g = egrad(g, j)
            D = (lambda e: sp.diff(e, vs[0]) + sp.diff(e, vs[1])) if j == posd else (lambda e: sp.diff(e, vs[2]))
            w1, w2 = D(w1), D(w2)
        if r.random() < 0.3:
            g = jax.jit(g)
        before = lsq.snapshot(args)
        got = g(*args)
        x1, x2 = exact(w1, vs, (a, b, c)), exact(w2, vs, (a, b, c))
        key = (case["seed"], tuple(order))
        if outk == 0:
            pairs = [(got, x1)]
        elif outk == 1:
            mon.check(type(got) is dict and set(got) == {"u", "v"}, "structure", key, lambda: "egrad returned %s" % (got,))
            pairs = [(got["u"], x1), (got["v"][0], x2)]
        else:
            mon.check(type(got) is TFCDict and list(got) == ["v", "u"], "structure", key, lambda: "egrad returned %s" % (got,))
            pairs = [(got["u"], x1.ravel()), (got["v"], x2.ravel())]
        for gg, ww in pairs:
            mon.check(np.shape(gg) == np.shape(ww) and np.all(np.abs(np.asarray(gg) - ww) <= 1e-9 * (1 + np.abs(ww))), "derivative with containers", key, lambda: "egrad with argument numbers %s of %s is %s instead of %s" % (order, (e1, e2), gg, ww), sample="argument numbers %s, container %s" % (order, type(box).__name__))
        mon.check(lsq.snapshot(args) == before, "arguments", key, "the arguments were changed")


def basis(case, mon, r):
    """The form in which residuals are written: a basis matrix times coefficients."""
    be = r.choice(["C++", "Python"])
    u = utfc(5, 0, 5, basis=r.choice(["CP", "LeP", "FS"]), backend=be, x0=-1.0, xf=3.0)
    rs = np.random.default_rng(case["seed"])
    n = np.asarray(u.H(u.x)).shape[1]
    xi = {"u": jnp.array(rs.standard_normal(n)), "v": jnp.array(rs.standard_normal(n))}
    x, t = jnp.array(rs.uniform(-1, 3, 6)), jnp.array(rs.uniform(-1, 3, 6))
    f = lambda x, t, xi: jnp.dot(u.H(x), xi["u"]) * jnp.sin(jnp.dot(u.H(t), xi["v"])) + x * t
    M = {d: (np.asarray(getattr(u, m)(x)) @ np.asarray(xi["u"]), np.asarray(getattr(u, m)(t)) @ np.asarray(xi["v"])) for d, m in ((0, "H"), (1, "dH"), (2, "d2H"))}
    p, dp, d2p = M[0][0], M[1][0], M[2][0]
    q, dq, d2q = M[0][1], M[1][1], M[2][1]
    X, T = np.asarray(x), np.asarray(t)
    table = {(0,): dp * np.sin(q) + T, (1,): p * np.cos(q) * dq + X, (0, 0): d2p * np.sin(q), (0, 1): dp * np.cos(q) * dq + 1, (1, 0): dp * np.cos(q) * dq + 1,
             (1, 1): p * (np.cos(q) * d2q - np.sin(q) * dq ** 2)}
    for order, w in table.items():
        g = f
        for j in order:
            g = egrad(g, j)
        for gg, how in ((g, "eager"), (jax.jit(g), "jit"))[:2 if be == "C++" else 1]:
            got = np.asarray(gg(x, t, xi))
            mon.check(np.all(np.abs(got - w) <= 1e-8 * (1 + np.max(np.abs(w)) + np.max(np.abs(p)) + np.max(np.abs(q)))), "basis matrices", (case["seed"], order, how), lambda: "egrad %s (%s) of a basis expression is %s instead of %s" % (order, how, got, w))


def steps(case, mon, r):
    rs = np.random.default_rng(case["seed"])
    shape = r.choice([(40,), (8, 5), (), (2, 3, 4), (2, 1, 3, 2)])
    x = rs.uniform(-3, 3, shape) * 10.0 ** rs.integers(-6, 6, shape)
    special = np.array([0.0, -0.0, 1e-300, -1e-300, 1e-16, -1e-16, 1.0, -1.0, np.inf, -np.inf, 1e300, -1e300])
    sets = [x, special, np.zeros(3), jnp.array(special), rs.permutation(special).reshape(3, 4), rs.permutation(special).reshape(2, 3, 2)]
    if r.random() < 0.5:
        sets.append(np.array(r.choice(list(special[:8]))))
    for k, s in enumerate(sets):
        before = lsq.snapshot([s])
        w = (np.asarray(s) > 0).astype(float)
        for f, how in ((step, "eager"), (jax.jit(step), "jit"), (jax.vmap(step) if np.ndim(s) else step, "vmap")):
            got = np.asarray(f(s))
            mon.check(got.shape == w.shape and np.array_equal(got, w), "step", (case["seed"], k, how), lambda: "step (%s) of %s is %s" % (how, s, got), sample="step of %s" % s)
        fs = np.asarray(s)[np.isfinite(s)] if np.ndim(s) else s
        for g, how in ((egrad(step), "egrad"), (egrad(egrad(step)), "second egrad"), (egradSimple(step), "egradSimple"), (jax.jit(egrad(step)), "jit egrad"), (egrad(jax.jit(step)), "egrad jit"),
                       (egrad(egrad(egrad(step))), "third egrad")):
            got = np.asarray(g(fs))
            mon.check(got.shape == np.shape(fs) and np.all(got == 0), "derivative of step", (case["seed"], k, how), lambda: "%s of step at %s is %s" % (how, fs, got))
        flat = jnp.ravel(jnp.asarray(fs))
        for J, how in ((jax.jacfwd(step), "jacfwd"), (jax.jacrev(step), "jacrev"), (jax.vmap(jax.grad(step)), "grad"), (jax.vmap(jax.grad(jax.grad(step))), "second grad"), (jax.hessian(step), "hessian")):
            if how == "hessian" and flat.size > 12:
                continue
            got = np.asarray(J(flat))
            mon.check(np.all(got == 0), "derivative of step", (case["seed"], k, how), lambda: "%s of step at %s is %s" % (how, flat, got))
        mon.check(lsq.snapshot([s]) == before, "arguments", (case["seed"], k), "step changed its argument")
    # in a product, as in piecewise constrained expressions
    a = float(rs.uniform(-1, 1))
    x = jnp.array(np.concatenate([rs.uniform(-2, 2, 10), [a, a]]))
    f = lambda x: jnp.sin(x) * step(x - a) + (1 - step(x - a)) * x ** 2
    X = np.asarray(x)
    on = X > a
    for g, w in ((egrad(f), np.where(on, np.cos(X), 2 * X)), (egrad(egrad(f)), np.where(on, -np.sin(X), 2.0)), (jax.jit(egrad(f)), np.where(on, np.cos(X), 2 * X))):
        got = np.asarray(g(x))
        mon.check(np.allclose(got, w, rtol=1e-12, atol=1e-12), "piecewise", case["seed"], lambda: "the derivative of a piecewise function is %s instead of %s" % (got, w))

"""Partial evaluation against the original function, over random argument structures, functions and output structures."""

import numpy as np
from .. import gen, lsq

PROPERTY = "C16"
RULE = ("One evaluation is one call of a partially evaluated function (or of its derivative, or compiled) compared with the original "
        "function with the constants in place; or one count of how often the constant part was evaluated; or one comparison of the "
        "arguments with their snapshot. Distinct: by function, constants and call.")
REPEAT = 2
MIN_EVALS = 1200
ASSUMPTIONS = ["the remaining arguments keep the shapes, types and containers they had when pe was applied"]


def setup():
    global jnp, jax, pe, pejit, TFCDict, TFCDictRobust, utfc, mtfc, egrad
    import jax, jax.numpy as jnp
    from tfc import utfc, mtfc
    from tfc.utils import pejit, TFCDict, TFCDictRobust, egrad
    from tfc.utils.TFCUtils import pe


def cases(rng, tier):
    q = tier == "quick"
    out = [{"kind": "random", "seed": s} for s in gen.seeds(rng, 70 if q else 1200)]
    out += [{"kind": "basis", "seed": s, "be": be} for be in ("C++", "Python") for s in gen.seeds(rng, 6 if q else 80)]
    out += [{"kind": "types", "seed": s} for s in gen.seeds(rng, 10 if q else 120)]
    out += [{"kind": "once", "seed": s} for s in gen.seeds(rng, 25 if q else 300)]
    rng.shuffle(out)
    return out


# ---------------------------------------------------------------- arguments
def leaf(r, seed):
    """A leaf: kind, shape and a way to draw values for it."""
    k = int(r.integers(0, 8))
    if k == 0:
        return ("float", ())
    if k == 1:
        return ("int", ())
    shape = [(), (3,), (3,), (2, 3), (1,), (3, 1), (0,) if r.integers(0, 2) else (0, 3), (2, 1, 2), (40,) if r.integers(0, 2) else (2, 2, 1, 2)][int(r.integers(0, 9))]
    return (["np", "jnp", "jnp", "np", "inp", "f32"][k - 2], shape)


def spec(r, depth=2):
    k = int(r.integers(0, 9)) if depth else 0
    if k < 4:
        return leaf(r, None)
    n = int(r.integers(1, 4))
    if k == 4:
        return ("tuple", [spec(r, depth - 1) for _ in range(n)])
    if k == 5:
        return ("list", [spec(r, depth - 1) for _ in range(n)])
    names = [str(v) for v in r.permutation(["z", "a", "M", "k0", "_q"])[:n]]
    if k == 6:
        return ("dict", [(a, spec(r, depth - 1)) for a in names])
    return (["TFCDict", "TFCDictRobust"][k - 7], [(a, ("jnp", (3,) if k == 7 else [(3,), (2, 3), ()][int(r.integers(0, 3))])) for a in names])


def draw(r, s):
    k, d = s
    if k in ("tuple", "list"):
        return {"tuple": tuple, "list": list}[k](draw(r, x) for x in d)
    if k in ("dict", "TFCDict", "TFCDictRobust"):
        items = [(a, draw(r, x)) for a, x in d]
        return {"dict": dict, "TFCDict": TFCDict, "TFCDictRobust": TFCDictRobust}[k](items)
    if k == "float":
        return float(r.uniform(-1, 1))
    if k == "int":
        return int(r.integers(-3, 4))
    if k == "inp":
        return r.integers(-3, 4, d)
    v = r.uniform(-1, 1, d)
    if k == "f32":
        return jnp.array(v, dtype=jnp.float32)
    return np.array(v) if k == "np" else jnp.array(v)


def is_float(s):
    k, d = s
    if k in ("tuple", "list"):
        return all(is_float(x) for x in d)
    if k in ("dict", "TFCDict", "TFCDictRobust"):
        return all(is_float(x) for _, x in d)
    return k in ("float", "np", "jnp")


# ---------------------------------------------------------------- functions
def walk(x):
    """Leaves in the order of the containers."""
    if type(x) is dict:
        # JAX sorts the keys of plain dictionaries
        for k in sorted(x):
            yield from walk(x[k])
    elif isinstance(x, dict):
        for v in x.values():
            yield from walk(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from walk(v)
    else:
        yield x


FS = ("sin", "cos", "tanh", "id", "sq", "exp")


def ap(name, v):
    return {"sin": jnp.sin, "cos": jnp.cos, "tanh": jnp.tanh, "id": lambda t: t * 1.0, "sq": lambda t: t * t, "exp": lambda t: jnp.exp(0.3 * t)}[name](v)


def program(r, nargs):
    """A function that treats every argument and every leaf of it differently, and how it arranges its output."""
    coef = r.uniform(0.5, 2, 40)
    fn = [FS[int(v)] for v in r.integers(0, len(FS), 40)]
    mix = [tuple(int(v) for v in r.integers(0, nargs, 2)) for _ in range(3)]
    outk = int(r.integers(0, 10))
    inner = int(r.integers(0, 4))

    def one(i, a):
        t = 0.0
        for j, v in enumerate(walk(a)):
            k = (7 * i + 3 * j) % 40
            v = jnp.asarray(v)
            t = t + coef[k] * (j + 1) * jnp.sum(ap(fn[k], v) * (1.0 + jnp.arange(v.size).reshape(v.shape)))
        return t

    def f(*args):
        s = [one(i, a) for i, a in enumerate(args)]
        if inner == 1:
            s = [jax.jit(jnp.tanh)(v) for v in s]
        if inner == 2:
            s = [jax.lax.cond(v > 0, jnp.sin, jnp.cos, v) for v in s]
        if inner == 3:
            s = [jax.lax.fori_loop(0, 3, lambda _, c: 0.5 * c + jnp.sin(v), v) for v in s]
        t = sum((i + 1) * v for i, v in enumerate(s))
        for a, b in mix:
            t = t + (a + 2) * s[a] * s[b]
        first = next(walk(args[0]))
        if outk == 0:
            return t
        if outk == 1:
            return (t, s[0], s[-1])
        if outk == 2:
            return {"z": t, "a": [s[0], (s[-1],)]}
        if outk == 3:
            return TFCDict([("z", jnp.stack([t, s[0]])), ("b", jnp.stack([s[-1]]))])
        if outk == 4:
            return TFCDictRobust([("z", jnp.stack([t, s[0]]).reshape(2, 1)), ("b", s[-1])])
        if outk == 5:
            return [t]
        if outk == 6:
            # outputs that depend on nothing, on one argument, or are an argument
            return {"one": jnp.ones(2), "first": first, "t": t, "n": 3}
        if outk == 7:
            return (args[0], t, args[-1])
        if outk == 8:
            return jnp.stack([t] + s)
        return s[0] if len(s) < 3 else s[1]

    return f, (outk, inner)


def same(mon, kind, key, got, want, what, tol=1e-10):
    ts, tw = jax.tree_util.tree_structure(got), jax.tree_util.tree_structure(want)
    mon.check(ts == tw, kind, key, lambda: "%s: the structure is %s instead of %s" % (what, ts, tw))
    if isinstance(want, (TFCDict, TFCDictRobust)):
        mon.check(list(got) == list(want), kind, key, lambda: "%s: keys %s instead of %s" % (what, list(got), list(want)))
    for a, b in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(want)):
        x, y = np.asarray(a), np.asarray(b)
        mon.check(x.shape == y.shape, kind, key, lambda: "%s: shape %s instead of %s" % (what, x.shape, y.shape))
        if hasattr(b, "dtype"):
            mon.check(x.dtype == y.dtype, kind, key, lambda: "%s: type %s instead of %s" % (what, x.dtype, y.dtype))
        if y.dtype == jax.dtypes.float0:
            continue
        x, y = x.astype(complex), y.astype(complex)
        mon.check(np.all(np.abs(x - y) <= tol * (1 + np.abs(y))), kind, key, lambda: "%s: %s instead of %s" % (what, a, b))


def consts(r, n):
    k = int(r.integers(0, n + 1)) if r.integers(0, 8) == 0 else int(r.integers(1, n + 1))
    return [int(v) for v in r.permutation(n)[:k]]


def run(case, mon):
    r = gen.rng(case)
    if case["kind"] == "basis":
        return basis(case, mon, r)
    if case["kind"] == "types":
        return types(case, mon, r)
    if case["kind"] == "once":
        return once(case, mon, r)
    n = int(r.integers(1, 6)) if r.integers(0, 8) else int(r.integers(9, 14))
    specs = [spec(r, 2 if n < 6 else 1) for _ in range(n)]
    f, shape = program(r, n)
    args = [draw(r, s) for s in specs]
    c = consts(r, n)
    rest = [i for i in range(n) if i not in c]
    cn = list(c) if r.integers(0, 4) else tuple(c)
    before = lsq.snapshot([args, cn])
    compiled = bool(r.integers(0, 2))
    g = pejit(*args, constant_arg_nums=cn, **({"keep_unused": True} if r.integers(0, 3) == 0 else {}))(f) if compiled else pe(*args, constant_arg_nums=cn)(f)
    what = "%s(constant_arg_nums=%s) of %d arguments %s" % ("pejit" if compiled else "pe", c, n, [s[0] for s in specs])
    mon.check(lsq.snapshot([args, cn]) == before, "arguments", case["seed"], lambda: "%s changed its arguments" % what)
    tol = 1e-4 if "f32" in repr(specs) else 1e-10
    fl = [i for i in rest if is_float(specs[i])]
    for i in range(3):
        vals = [args[k] for k in rest] if i == 0 else [draw(r, specs[k]) for k in rest]
        b2 = lsq.snapshot([vals, args, cn])
        full = list(args)
        for k, v in zip(rest, vals):
            full[k] = v
        key = (case["seed"], i)
        want = f(*full)
        same(mon, "value", key, g(*vals), want, what, tol)
        if i == 0:
            same(mon, "value under jit", key, jax.jit(g)(*vals), want, what + " under jit", tol)
        mon.check(lsq.snapshot([vals, args, cn]) == b2, "arguments", key, lambda: "%s changed its arguments" % what)
        mon.seen("shape of the function", (shape, tuple(c), n), sample=what)
    if fl and shape[0] not in (6, 7):
        # derivative with respect to one of the remaining arguments
        k = fl[int(r.integers(0, len(fl)))]
        pos = rest.index(k)
        scal = lambda fun, full_: lambda v: fun(*[v if i == full_ else a for i, a in enumerate(vs)])
        vs = vals
        d1 = jax.jacfwd(scal(g, pos))(vals[pos])
        vs2 = full
        d2 = jax.jacfwd(lambda v: f(*[v if i == k else a for i, a in enumerate(vs2)]))(vals[pos])
        same(mon, "derivative", (case["seed"], "d"), d1, d2, "the derivative of " + what, tol)
        if shape[1] != 3:
            d3 = jax.jacrev(scal(g, pos))(vals[pos])
            for a, b in zip(jax.tree_util.tree_leaves(d3), jax.tree_util.tree_leaves(d2)):
                mon.check(np.allclose(a, b, rtol=100 * tol, atol=100 * tol), "reverse derivative", (case["seed"], "r"), lambda: "the reverse derivative of %s is %s instead of %s" % (what, a, b))


def basis(case, mon, r):
    """The use it was made for: basis matrices of constant points."""
    u = utfc(8, int(r.integers(0, 3)), int(r.integers(3, 7)), basis=["CP", "LeP", "FS", "ELMTanh", "ELMReLU"][int(r.integers(0, 5))], backend=case["be"], x0=-1.0, xf=2.0)
    H, dH = u.H, u.dH
    nxi = np.asarray(H(u.x)).shape[1]
    x = u.x if r.integers(0, 2) else np.array(u.x)
    order = [int(v) for v in r.permutation(4)]
    a, b = r.uniform(-1, 1, 2)

    def core(x, xi, p, d):
        g = lambda x, xi: jnp.dot(H(x), xi["u"])
        y = lambda x, xi: g(x, xi) + (1.0 - x) * (a - g(-1.0 * jnp.ones_like(x), xi)) * d["w"]
        return egrad(y)(x, xi) * p + y(x, xi) ** 2 - b * jnp.dot(dH(x), xi["v"])

    def f(*args):
        named = dict(zip(order, args))
        return core(named[0], named[1], named[2], named[3])

    def args():
        v = {0: x, 1: TFCDict([("v", jnp.array(r.standard_normal(nxi))), ("u", jnp.array(r.standard_normal(nxi)))]), 2: float(r.uniform(0, 1)), 3: {"w": np.array(r.uniform(0, 1))}}
        return [v[k] for k in order]

    full = args()
    pos = [i for i, k in enumerate(order) if k != 1]
    c = [order.index(0)] + [i for i in pos if order[i] != 0 and r.integers(0, 2)]
    c = [int(v) for v in r.permutation(c)]
    for how in (pe, pejit):
        g = how(*full, constant_arg_nums=c)(f)
        for i in range(2):
            now = args()
            mixed = [full[k] if k in c else now[k] for k in range(4)]
            rest = [now[k] for k in range(4) if k not in c]
            what = "%s with constant basis points (constants %s of order %s)" % (how.__name__, c, order)
            same(mon, "basis matrices", (case["seed"], how.__name__, i), g(*rest), f(*mixed), what)
        k = order.index(1)
        kr = [j for j in range(4) if j not in c].index(k)
        d1 = jax.jacfwd(lambda xi: g(*[xi if j == kr else v for j, v in enumerate(rest)]))(now[k])
        d2 = jax.jacfwd(lambda xi: f(*[xi if j == k else v for j, v in enumerate(mixed)]))(now[k])
        same(mon, "derivative with basis matrices", (case["seed"], how.__name__), d1, d2, "the derivative of " + what)


def types(case, mon, r):
    """Python numbers among arrays of single precision, and options for jit."""
    n = int(r.integers(2, 5))
    kinds = ["f32"] + [["float", "int", "f32", "bool"][int(v)] for v in r.integers(0, 4, n - 1)]
    kinds = [kinds[int(v)] for v in r.permutation(n)]

    def value(k):
        if k == "f32":
            return jnp.array(r.uniform(-1, 1, 3), dtype=jnp.float32)
        return {"float": float, "int": lambda v: int(3 * v), "bool": lambda v: bool(v > 0)}[k](r.uniform(-1, 1))

    co = [float(v) for v in r.uniform(0.5, 2, n)]

    def f(*args):
        t = sum(c * a for c, a in zip(co, args))
        p = 1
        for a in args:
            p = p * (a + 2)
        return {"t": t, "p": p, "s": [jnp.sin(a) for a in args]}

    args = [value(k) for k in kinds]
    c = [int(v) for v in r.permutation(n)[:int(r.integers(1, n))]]
    rest = [i for i in range(n) if i not in c]
    for how in (pe, pejit):
        g = how(*args, constant_arg_nums=c)(f)
        for i in range(2):
            full = list(args) if i == 0 else [args[k] if k in c else value(kinds[k]) for k in range(n)]
            want = jax.jit(f)(*full)
            same(mon, "types", (case["seed"], how.__name__, i), g(*[full[k] for k in rest]), want, "%s(constant_arg_nums=%s) of %s" % (how.__name__, c, kinds), 1e-4)
    # options reach jit: an argument that has to be static
    m = int(r.integers(1, 6))
    x = jnp.array(r.uniform(-1, 1, 3))
    h = lambda x, m: sum(jnp.sin(x) ** k for k in range(m))
    got = np.asarray(pejit(x, m, constant_arg_nums=[], static_argnums=1)(h)(x, m))
    mon.check(np.allclose(got, h(x, m), rtol=1e-12), "options for jit", case["seed"], lambda: "pejit(static_argnums=1) gives %s" % got)


def once(case, mon, r):
    """How often the constant part runs on the host."""
    n = int(r.integers(2, 5))
    c = consts(r, n - 1) or [0]
    if len(c) == n:
        c = c[:-1]
    perm = [int(v) for v in r.permutation(n)]
    c = [perm[k] for k in c]
    count = {"const": 0, "var": 0}
    traced = [0]

    def host(which, v):
        count[which] += 1
        return np.asarray(v) * 2.0

    def call(which, v):
        return jax.pure_callback(lambda t: host(which, t), jax.ShapeDtypeStruct(v.shape, v.dtype), v)

    def f(*args):
        traced[0] += 1
        kn = sum((i + 1) * jnp.sin(args[i]) for i in range(n) if i in c)
        un = sum((i + 1) * jnp.cos(args[i]) for i in range(n) if i not in c)
        return call("const", kn) * call("var", un) + un

    args = [r.standard_normal(3) for _ in range(n)]
    rest = [i for i in range(n) if i not in c]
    for how in (pe, pejit):
        count["const"] = count["var"] = 0
        g = how(*args, constant_arg_nums=list(c))(f)
        made = count["const"]
        outs = []
        calls = 3
        for i in range(calls):
            vals = [r.standard_normal(3) for _ in rest]
            full = list(args)
            for k, v in zip(rest, vals):
                full[k] = v
            kn = sum((i + 1) * np.sin(full[i]) for i in range(n) if i in c)
            un = sum((i + 1) * np.cos(full[i]) for i in range(n) if i not in c)
            got = np.asarray(g(*vals))
            mon.check(np.allclose(got, 4 * kn * un + un, rtol=1e-12, atol=1e-12), "value", (case["seed"], how.__name__, i), lambda: "%s with constants %s: %s instead of %s" % (how.__name__, c, got, 4 * kn * un + un))
        if rest:
            mon.check(made == 1 and count["const"] == 1, "evaluated once", (case["seed"], how.__name__), lambda: "%s with constants %s evaluated the constant part %d times when applied and %d times in %d calls" % (how.__name__, c, made, count["const"] - made, calls))
            mon.check(count["var"] == calls, "evaluated each time", (case["seed"], how.__name__), lambda: "%s with constants %s evaluated the rest %d times in %d calls" % (how.__name__, c, count["var"], calls))

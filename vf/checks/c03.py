"""Printed code against the value of the expression, and SymPy's own printers before and after."""

import contextlib, io, random, sys
import numpy as np
import sympy as sp
from .. import ce as K, gen

PROPERTY = "C03"
RULE = ("One evaluation is one printed expression, run as Python with explicit free functions, compared at several points with the "
        "expression's value in 40 digits; or one string of SymPy's own printers compared with the one before any TFC printer existed. "
        "Distinct: by expression.")
REPEAT = 2
MIN_EVALS = 600
ASSUMPTIONS = ["numbers that appear as arguments of a free function or its derivative are taken as constant arrays, as the documentation says",
               "elementary functions and constants only; no integrals"]


def setup():
    global TfcPrinter, CeSolver, egrad, jnp, BASE, OWN
    import jax.numpy as jnp
    x, y = K.x, K.y
    g = sp.Function("g")
    OWN = [sp.sqrt(x) + sp.sin(x) * sp.pi, sp.Derivative(g(x, y), x), sp.exp(x) * sp.log(y) + sp.E, sp.tan(x) ** sp.Rational(1, 3),
           sp.Subs(sp.Derivative(g(x, y), x), x, 2), sp.Max(x, y), g(x, 2) / sp.cosh(y), sp.Integral(sp.cos(x), (x, 0, 1))]
    import tfc.utils
    BASE = own()
    from tfc.utils import CeSolver, egrad
    from tfc.utils.CeSolver import TfcPrinter


def own():
    """What SymPy's printers say."""
    from sympy.printing.numpy import NumPyPrinter
    from sympy.printing.pycode import PythonCodePrinter, MpmathPrinter
    out = []
    for e in OWN:
        for f in (sp.pycode, sp.latex, sp.sstr, sp.srepr, lambda q: sp.pretty(q), lambda q: NumPyPrinter().doprint(q),
                  lambda q: PythonCodePrinter().doprint(q), lambda q: MpmathPrinter().doprint(q), str):
            try:
                out.append(f(e))
            except Exception as ex:
                out.append("raises " + type(ex).__name__)
    f = sp.lambdify(K.x, sp.sin(K.x) + sp.sqrt(K.x), "math")
    out.append(repr(f(0.5)))
    return out


def cases(rng, tier):
    q = tier == "quick"
    out = [{"kind": "random", "seed": s} for s in gen.seeds(rng, 60 if q else 900)]
    out += [{"kind": "solver", "seed": s} for s in gen.seeds(rng, 30 if q else 400)]
    out += [{"kind": "subs", "seed": s} for s in gen.seeds(rng, 4 if q else 20)]
    out += [{"kind": "wide", "seed": s} for s in gen.seeds(rng, 4 if q else 20)]
    out += [{"kind": "own", "seed": s} for s in gen.seeds(rng, 2 if q else 6)]
    return out


# ---------------------------------------------------------------- expressions
NAMES = {"g": 2, "h": 1, "u1": 3, "f_2": 2}


def const(r):
    k = r.randrange(8)
    return [sp.Integer(r.randint(-3, 5)), sp.Rational(r.randint(-7, 7), r.randint(2, 5)), sp.pi, sp.E, sp.Float(r.choice([0.25, 1.5, -2.125])),
            sp.sqrt(2), sp.Integer(0), sp.pi / 2][k]


def free(r, vs):
    """A free function, possibly differentiated, possibly evaluated at constants, other symbols or expressions."""
    name = r.choice(list(NAMES))
    n = NAMES[name]
    f = sp.Function(name)
    args = [r.choice(vs) for _ in range(n)]
    if r.random() < 0.75:
        args = r.sample(vs, n)
    e = f(*args)
    if len(set(args)) == n and r.random() < 0.6:
        top = r.choice([4, 4, 4, 6])
        for _ in range(r.choice([1, 1, 2, 3] if top == 4 else [3, 4])):
            e = sp.diff(e, r.choice(args), r.choice([1, 1, 2] if top == 4 else [1, 2, 3]))
            if e.args[1:] and sum(int(a[1]) for a in e.args[1:]) >= top:
                break
    k = r.randrange(8)
    if k == 6 and e.is_Derivative:
        # an unevaluated substitution into more than a derivative
        a = r.choice(args)
        body = r.choice([a * e, sp.sin(a) + e, e * f(*args), e ** 2 + a, a ** 2 + e, a ** 2 * e, e ** 2, -e, 3 ** a * e])
        at = r.choice([const(r), -abs(const(r)), const(r) + 1, r.choice(vs), r.choice(vs) + r.choice(vs) + 1, -r.choice(vs)])
        out = sp.Subs(body, a, at)
        return r.choice([out, out ** 2, 1 / (out ** 2 + 1), 2 - out])
    if k == 7 and e.is_Derivative and n > 1:
        # two at a time (never into each other: SymPy does not say in which order)
        a, b = r.sample(args, 2)
        free_ = [w for w in vs if w not in (a, b)]
        body = r.choice([e, a * e, e + b ** 2, e * f(*args)])
        return sp.Subs(body, (a, b), r.choice([tuple(r.sample(free_, 2)), (r.choice(free_), const(r)), (const(r), const(r)), (2 * r.choice(free_) - 1, -r.choice(free_))]))
    if k == 5 and e.is_Derivative and r.random() < 0.7:
        # the same symbol bound twice
        a = r.choice(args)
        e = sp.Subs(e, a, r.choice([const(r), r.choice(vs) + 1]))
        return sp.Subs(r.choice([a * e, sp.cos(a) + e, e * f(*args)]), a, r.choice([const(r), const(r) + 1, r.choice(vs)]))
    if k == 0:
        return e.subs(r.choice(args), const(r))
    if k == 1 and len(set(args)) == n and n > 1:
        a, b = r.sample(args, 2)
        return e.subs({a: const(r), b: const(r)})
    if k == 2:
        # another symbol, one that is not an argument already
        others = [w for w in vs if w not in args]
        if others:
            return e.subs(r.choice(args), r.choice(others))
    if k == 3:
        a = r.choice(args)
        return e.subs(a, const(r) + 1).subs(r.choice(vs), const(r))
    if k == 4:
        a = r.choice(args)
        others = [w for w in vs if w not in args] or [sp.Integer(1)]
        return e.subs(a, r.choice(others) ** 2 + r.choice([sp.Integer(1), sp.pi, sp.Rational(1, 2)]))
    return e


def elem(r, e):
    k = r.randrange(12) if r.random() < 0.7 else 12 + r.randrange(8)
    q = sp.Rational(1, 4)
    return [lambda: sp.sin(e), lambda: sp.cos(e), lambda: sp.exp(q * sp.sin(e)), lambda: sp.sqrt(e ** 2 + 1), lambda: sp.log(e ** 2 + 2), lambda: sp.tanh(e),
            lambda: 1 / (e ** 2 + 1), lambda: (e ** 2 + 1) ** sp.Rational(1, 3), lambda: sp.cosh(sp.sin(e)), lambda: sp.atan(e), lambda: e ** 2, lambda: 1 / sp.sqrt(e ** 2 + 3),
            lambda: sp.ceiling(2 * sp.sin(e) + sp.Rational(1, 3)), lambda: sp.floor(2 * sp.cos(e) - sp.Rational(2, 7)), lambda: sp.sinh(sp.cos(e)), lambda: sp.asinh(e), lambda: sp.acos(sp.sin(e) / 2), lambda: sp.asin(1 / (e ** 2 + 2)),
            lambda: sp.acosh(e ** 2 + 2), lambda: sp.atanh(sp.cos(e) / 2)][k]()


def expr(r, vs, depth):
    k = r.randrange(10)
    if depth == 0 or k < 2:
        return r.choice([lambda: r.choice(vs), lambda: const(r), lambda: free(r, vs), lambda: free(r, vs)])()
    if k < 5:
        return expr(r, vs, depth - 1) + expr(r, vs, depth - 1)
    if k < 7:
        return expr(r, vs, depth - 1) * expr(r, vs, depth - 1)
    if k == 7:
        return expr(r, vs, depth - 1) - r.choice([2, 1]) * expr(r, vs, depth - 1)
    return elem(r, expr(r, vs, depth - 1))


def functions(r):
    """Explicit free functions: (SymPy expression, variables) and a version for arrays."""
    out, run = {}, {}
    for name, n in NAMES.items():
        vs = sp.symbols("a0:%d" % n)
        e = sp.Integer(0)
        for _ in range(3):
            t = K.rat(r, -2, 2) or sp.Integer(1)
            for v in vs:
                t *= r.choice([v, v ** 2, sp.sin(v), sp.cos(2 * v), sp.Integer(1), v ** 3 / 5])
            e += t
        e += sum(r.choice([1, 2, 3]) * v for v in vs)
        out[name] = (e, vs)
        run[name] = sp.lambdify(vs, e, modules=[{"sin": jnp.sin, "cos": jnp.cos}, "math"])
    return out, run


def value(e, defs, pt):
    """The value of the expression, by explicit substitution."""
    for name, (f, vs) in defs.items():
        e = e.replace(sp.Function(name), lambda *a, f=f, vs=vs: f.subs(dict(zip(vs, a)), simultaneous=True))
    return K.num(e.doit(), pt)


def scope(np_, run, arr):
    n = len(arr[next(iter(arr))])
    up = lambda a: jnp.asarray(a, dtype=float) * jnp.ones(n)
    fs = {k: (lambda *a, f=f: up(f(*[up(v) for v in a]))) for k, f in run.items()}

    def eg(f, j):
        h = egrad(f, j)
        return lambda *a: h(*[up(v) for v in a])

    return {"np": np_, "egrad": eg, **fs, **arr}


def judge(mon, r, e, vs, key, how="doprint"):
    code = show(e, how)
    defs, run_ = functions(r)
    pts = [{v: sp.Rational(r.randint(-19, 19), r.choice([9, 11, 13])) for v in vs} for _ in range(3)]
    np_ = r.choice([np, jnp])
    arr = {str(v): jnp.array([float(p[v]) for p in pts]) for v in vs}
    if np_ is np and r.random() < 0.5:
        arr = {k: np.asarray(v) for k, v in arr.items()}
    try:
        got = eval(code, scope(np_, run_, arr))
    except Exception as ex:
        mon.fail("the code printed for %s does not run: %s\n%s: %s" % (e, code, type(ex).__name__, ex))
    mon.check(np.asarray(got).dtype.kind in "fi", "number", None, lambda: "the code printed for %s is not a number but %r: %s" % (e, np.asarray(got).dtype, code))
    got = np.asarray(got) * np.ones(len(pts))
    for p, v in zip(pts, got):
        want = value(e, defs, p)
        wr = complex(want)
        if abs(wr.imag) > 1e-12 * (1 + abs(wr)) or abs(wr) > 1e9:
            continue
        mon.check(abs(v - wr.real) <= 1e-8 * (1 + abs(wr.real)), "printed code", (key, sp.srepr(e)), lambda: "printed for %s: %s\nis %r at %s instead of %r" % (e, code, float(v), p, wr.real), sample=code)
    return code


def show(e, how):
    if how == "doprint":
        return TfcPrinter().doprint(e)
    cs = CeSolver([lambda u: u.subs(K.x, 0)], [sp.re(0)], [sp.re(1)], sp.Function("g")(K.x))
    old = sys.displayhook
    buf = io.StringIO()
    try:
        cs.print_type = "tfc"
        with contextlib.redirect_stdout(buf):
            sys.displayhook(e)
    finally:
        sys.displayhook = old
        import builtins
        builtins._ = None
    return buf.getvalue().strip()


def run(case, mon):
    r = random.Random(case["seed"])
    if case["kind"] == "random":
        vs = [K.x, K.y, K.z, K.t]
        seen = []
        p = TfcPrinter()
        for i in range(4):
            e = expr(r, vs, r.choice([0, 1, 2, 3]))
            if e.has(sp.zoo, sp.nan, sp.oo, sp.I):
                continue
            how = "display" if r.random() < 0.15 and not isinstance(e, (sp.Symbol, sp.Number)) else "doprint"
            code = judge(mon, r, e, vs, i, how)
            if how == "doprint":
                seen.append((e, code))
        # one printer, used again and in another order, prints the same
        for e, code in seen + seen[::-1]:
            c = p.doprint(e)
            mon.check(c == code, "printer used again", (case["seed"], code), lambda: "a printer that was used before prints %s instead of %s" % (c, code))
        return
    if case["kind"] == "subs":
        # what is put in must not mix with what is around it
        x, y = K.x, K.y
        g, h = sp.Function("g"), sp.Function("h")
        d = sp.diff(g(x, y), x)
        bodies = [x * d, x ** 2 * d, d - x, 2 ** x + d, (x ** 2 + 1) ** -2 + d, d / (x ** 2 + 2), d ** 2, -d, d + h(x), sp.sqrt(x ** 2) * d, (x + y) ** 2 * d, d * h(-x)]
        at = [sp.Integer(-3), sp.Integer(-2), sp.Integer(2), sp.Rational(-1, 2), sp.Rational(5, 3), -y, y + 1, y - 2, sp.pi, -sp.pi, sp.sqrt(2), 2 * y, y ** 2, sp.Float(-1.5)]
        for k in range(16):
            e = sp.Subs(r.choice(bodies), x, r.choice(at))
            e = r.choice([e, e ** 2, 2 - e, e * y, 1 / (1 + e ** 2), e ** 3])
            judge(mon, r, e, [x, y], (case["seed"], k))
        return
    if case["kind"] == "wide":
        # more arguments than one digit can count
        vs = sp.symbols("v0:12")
        g = sp.Function("g")
        e = sum((j + 1) * v ** (1 + j % 3) for j, v in enumerate(vs)) + vs[0] * vs[10] * vs[11] ** 2 + vs[1] * vs[9] ** 2 * vs[10] ** 2
        f = sp.lambdify(vs, e, "math")
        want, code = [], None
        j, k = r.sample([0, 1, 9, 10, 11], 2)
        expr_ = sp.diff(g(*vs), vs[j], vs[k]) + sp.diff(g(*vs), vs[k]) * vs[j]
        code = TfcPrinter().doprint(expr_)
        pts = [{v: sp.Rational(r.randint(-9, 9), 7) for v in vs} for _ in range(2)]
        arr = {str(v): jnp.array([float(p[v]) for p in pts]) for v in vs}
        got = np.asarray(eval(code, {"np": jnp, "egrad": egrad, "g": f, **arr}))
        ex = (sp.diff(e, vs[j], vs[k]) + sp.diff(e, vs[k]) * vs[j])
        for p, v in zip(pts, got):
            w = float(ex.subs(p))
            mon.check(abs(v - w) <= 1e-9 * (1 + abs(w)), "printed code", (case["seed"], code), lambda: "printed for %s: %s\nis %r instead of %r" % (expr_, code, float(v), w), sample=code)
        return
    if case["kind"] == "solver":
        g = sp.Function("g")
        if r.random() < 0.5:
            v = K.x
            C, s = K.constraint_set(r, v, integrals=False)
            e = CeSolver(C, [K.kappa(r) for _ in C], s, g(v, K.y)).ce
            vs = [K.x, K.y]
        else:
            C, s = K.constraint_set(r, K.x, r.choice([1, 2]), integrals=False)
            e = CeSolver(C, [K.kappa(r, [K.y]) for _ in C], s, g(K.x, K.y)).ce
            C2, s2 = K.constraint_set(r, K.y, r.choice([1, 2]), integrals=False)
            e = CeSolver(C2, [K.kappa(r, [K.x]) for _ in C2], s2, e).ce
            vs = [K.x, K.y]
        if e.has(sp.zoo, sp.nan):
            return
        judge(mon, r, e, vs, case["seed"], r.choice(["doprint", "display"]))
        return
    p = TfcPrinter()
    q = TfcPrinter({"fully_qualified_modules": False}) if r.random() < 0.5 else TfcPrinter()
    for e in OWN[:5]:
        for pr in (p, q):
            try:
                pr.doprint(e)
            except Exception:
                pass
    now = own()
    for i, (a, b) in enumerate(zip(BASE, now)):
        mon.check(a == b, "own printers", i, lambda: "one of SymPy's own printers printed %r before and %r after" % (a, b))
    for how in ("display",):
        show(sp.sin(K.x) + 1, how)
    import sympy
    for i, (a, b) in enumerate(zip(BASE, own())):
        mon.check(a == b, "own printers after print_type", i, lambda: "one of SymPy's own printers printed %r before and %r after print_type" % (a, b))

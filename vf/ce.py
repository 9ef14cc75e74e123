"""Random constraint sets for CeSolver and an evaluator of concrete expressions that is independent of it."""

import signal, time
import mpmath as mp
import sympy as sp
from sympy.core.function import AppliedUndef

x, y, z = sp.symbols("x y z")
t = sp.Symbol("t_1")
G = sp.Function("g")


def rat(r, lo=-4, hi=4, den=3):
    return sp.Rational(r.randint(lo * den, hi * den), r.randint(1, den))


def distinct(r, n, lo=-3, hi=3):
    """n different rational points."""
    out = []
    while len(out) < n:
        v = sp.Rational(r.randint(lo * 2, hi * 2), r.choice([1, 1, 2, 3]))
        if v not in out:
            out.append(v)
    return out


_cache = {}
_quads = {}


def integ(u, v, a, b):
    """Definite integral, term by term for explicit functions."""
    out = sp.Integer(0)
    u = sp.sympify(u)
    if not u.has(AppliedUndef) and (sp.count_ops(u) > 400 or _cache.get((u, v)) == "slow"):
        return sp.Integral(u, (v, a, b))  # left to quadrature
    for term in sp.Add.make_args(sp.expand(u)):
        c = d = sp.Integer(1)
        for q in sp.Mul.make_args(term):
            if v in q.free_symbols:
                d *= q
            else:
                c *= q
        if d.has(AppliedUndef):
            out += c * sp.Integral(d, (v, a, b))
            continue
        if (d, v) not in _cache:
            _cache[(d, v)] = patient(lambda: sp.integrate(d, v), 5)
        F = _cache[(d, v)]
        if F is None or F.has(sp.Integral):
            if not u.has(AppliedUndef):
                _cache[(u, v)] = "slow"
                return sp.Integral(u, (v, a, b))
            out += c * sp.Integral(d, (v, a, b))
        else:
            out += c * (F.subs(v, b) - F.subs(v, a))
    return out


class Slow(BaseException):
    pass


def patient(f, seconds):
    """f(), or None if that takes too long."""
    def late(*_):
        raise Slow

    left, start = signal.alarm(0), time.time()
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(min(seconds, left) if left else seconds)
    try:
        return f()
    except Slow:
        return None
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if left:  # the one around this one
            signal.alarm(max(1, int(left - time.time() + start)))


class Op:
    """A linear functional in one variable: a sum of coefficient * (derivative at a point | integral)."""

    def __init__(self, v, terms):
        self.v, self.terms = v, terms

    def __call__(self, u):
        out = None
        for c, kind, d, a in self.terms:
            if kind == "val":
                e = (sp.diff(u, self.v, d) if d else u).subs(self.v, a)
            else:
                e = integ(u, self.v, a[0], a[1])
            e = e if c == 1 else c * e
            out = e if out is None else out + e
        return out

    def __repr__(self):
        return " + ".join("%s*%s" % (c, ("D^%d(%s)" % (d, a)) if k == "val" else "int%s" % (a,)) for c, k, d, a in self.terms)


def op(r, v, used, integrals=True):
    k = r.randrange(10)
    pt = lambda: distinct(r, 1)[0]
    if k < 4:
        return Op(v, [(sp.Integer(1), "val", 0, pt())])
    if k < 6:
        return Op(v, [(sp.Integer(1), "val", r.choice([1, 1, 2, 3]), pt())])
    if k == 6 and integrals:
        a, b = sorted(distinct(r, 2))
        return Op(v, [(sp.Integer(1), "int", 0, (a, b))])
    if k == 7:
        a, b = distinct(r, 2)
        return Op(v, [(sp.Integer(1), "val", 0, a), (sp.Integer(-1), "val", 0, b)])  # relative constraint
    a, b = distinct(r, 2)
    return Op(v, [(rat(r) or sp.Integer(2), "val", r.choice([0, 1]), a), (rat(r) or sp.Integer(3), "val", r.choice([0, 1, 2]), b)])


def supports(r, v, n, poly=False):
    k = r.randrange(6)
    if poly or k < 4:
        p = list(range(n + 2))
        r.shuffle(p)
        p = sorted(p[:n]) if r.random() < 0.5 else list(range(n))
        r.shuffle(p)
        return [sp.re(1) if e == 0 else v ** e for e in p]
    if k == 4:
        fs = [sp.re(1), v, sp.cos(v), sp.sin(v), sp.exp(v), v ** 2]
    else:
        fs = [sp.exp(v), sp.exp(-v), sp.re(1), v, v ** 2, v ** 3]
    r.shuffle(fs)
    return fs[:n]


def matrix(C, s):
    return sp.Matrix([[c(f) for f in s] for c in C])


def well(C, s):
    """Numerically invertible support matrix?"""
    M = matrix(C, s)
    n = len(C)
    Mn = mp.matrix(n, n)
    with mp.workdps(30):
        for i in range(n):
            for j in range(n):
                Mn[i, j] = mp.mpmathify(sp.N(M[i, j], 30))
        try:
            return abs(mp.det(Mn)) > mp.mpf(10) ** -6
        except Exception:
            return False


def constraint_set(r, v=x, n=None, poly=False, integrals=True):
    """C and s with an invertible support matrix."""
    for _ in range(200):
        k = n or r.choice([1, 1, 2, 2, 2, 3, 3, 4])
        C = [op(r, v, None, integrals) for _ in range(k)]
        s = supports(r, v, k, poly)
        if len(s) == k and well(C, s):
            return C, s
    return [Op(v, [(sp.Integer(1), "val", 0, sp.Integer(0))])], [sp.re(1)]


def kappa(r, others=()):
    k = r.randrange(7)
    if others and k < 3:
        w = r.choice(list(others))
        return r.choice([sp.cos(w), sp.exp(w), w ** 2 + 1, sp.sin(2 * w) + 3, sp.sqrt(w ** 2), 1 / (1 + w ** 2), sp.sqrt(1 + w ** 2)])
    if k == 3:
        return sp.re(0)
    if k == 4:
        return sp.pi * rat(r)
    if k == 5:
        return sp.exp(1)
    if r.random() < 0.2:
        # large, small, and plain numbers
        return r.choice([sp.Rational(10 ** 7 + 1, 3), sp.Rational(1, 10 ** 6), -77, sp.Integer(10 ** 6 + 3)])
    return sp.re(rat(r))


def concrete(r, vs, smooth=True):
    """An explicit free function of the variables."""
    e = sp.Integer(0)
    for _ in range(r.randint(2, 4)):
        term = rat(r) or sp.Integer(1)
        for v in vs:
            k = r.randrange(5)
            term *= v ** r.randint(0, 4) if k < 3 or not smooth else (sp.sin(r.choice([1, 2]) * v) if k == 3 else sp.exp(sp.Rational(r.choice([-1, 1]), r.choice([1, 2])) * v))
        e += term
    if r.random() < 0.15:
        e = sp.Integer(0)
    return e


def put(e, vs, f, name="g"):
    """e with the free function replaced by the explicit f(vs)."""
    fn = sp.Function(name)
    e = sp.sympify(e).replace(fn, lambda *a: f.subs(dict(zip(vs, a)), simultaneous=True))
    e = e.replace(lambda q: isinstance(q, sp.Integral), lambda q: integ(q.args[0].doit(), q.args[1][0], q.args[1][1], q.args[1][2]))
    return e.doit(integrals=False)


_FUN = {sp.sin: mp.sin, sp.cos: mp.cos, sp.tan: mp.tan, sp.exp: mp.exp, sp.log: mp.log, sp.sinh: mp.sinh, sp.cosh: mp.cosh, sp.tanh: mp.tanh,
        sp.re: mp.re, sp.im: mp.im, sp.Abs: abs, sp.atan: mp.atan, sp.asin: mp.asin, sp.acos: mp.acos, sp.asinh: mp.asinh, sp.atan2: mp.atan2,
        sp.ceiling: mp.ceil, sp.floor: mp.floor, sp.acosh: mp.acosh, sp.atanh: mp.atanh}


def _ev(e, pt, memo):
    if e in memo:
        return memo[e]
    if e.is_Rational:
        v = mp.mpf(int(e.p)) / int(e.q)
    elif e.is_Symbol:
        v = pt[e]
    elif e is sp.pi:
        v = +mp.pi
    elif e is sp.E:
        v = +mp.e
    elif e is sp.I:
        v = mp.mpc(0, 1)
    elif e.is_Float:
        v = mp.mpf(e._mpf_)
    elif e.is_Add:
        v = mp.fsum(_ev(a, pt, memo) for a in e.args)
    elif e.is_Mul:
        v = mp.mpf(1)
        for a in e.args:
            v = v * _ev(a, pt, memo)
    elif e.is_Pow:
        b, q = e.args
        v = mp.power(_ev(b, pt, memo), int(q) if q.is_Integer else _ev(q, pt, memo))
    elif e.func in _FUN:
        v = _FUN[e.func](*[_ev(a, pt, memo) for a in e.args])
    elif isinstance(e, sp.Integral) and len(e.args) == 2 and len(e.args[1]) == 3:
        w, a, b = e.args[1]
        k = (e, mp.mp.dps, tuple(sorted((str(q), pt[q]) for q in e.free_symbols)))
        if k not in _quads:
            _quads[k] = mp.quad(lambda q: _ev(e.args[0], {**pt, w: q}, {}), [_ev(a, pt, memo), _ev(b, pt, memo)])
        v = _quads[k]
    elif isinstance(e, sp.Piecewise):
        v = next(_ev(a, pt, memo) for a, c in e.args if _holds(c, pt, memo))
    else:
        raise ValueError("cannot evaluate %s" % e.func)
    memo[e] = v
    return v


def _holds(c, pt, memo):
    """A condition of a Piecewise, as integrals with a parameter have."""
    if c in (sp.true, sp.false):
        return bool(c)
    if isinstance(c, sp.And):
        return all(_holds(a, pt, memo) for a in c.args)
    if isinstance(c, sp.Or):
        return any(_holds(a, pt, memo) for a in c.args)
    if isinstance(c, sp.Not):
        return not _holds(c.args[0], pt, memo)
    a, b = (_ev(q, pt, memo) for q in c.args)
    return {sp.Eq: a == b, sp.Ne: a != b}[c.func] if isinstance(c, (sp.Eq, sp.Ne)) else {sp.Lt: a < b, sp.Le: a <= b, sp.Gt: a > b, sp.Ge: a >= b}[c.func]


def num(e, pt, dps=50):
    """Value at a point, as an mpmath number."""
    e = sp.sympify(e)
    if e.has(sp.Subs, sp.Derivative):
        e = e.doit(integrals=False)
    with mp.workdps(dps):
        return _ev(e, {v: mp.mpf(int(q.p)) / int(q.q) if isinstance(q, sp.Rational) else mp.mpf(q) for v, q in pt.items()}, {})


def vanishes(e, vs, r, n=3, scale=1, tol=1e-18):
    """Is the expression zero at random points? Returns None or (point, value)."""
    e = sp.sympify(e)
    if e == 0:
        return None
    for _ in range(n):
        pt = {v: sp.Rational(r.randint(-30, 30), r.choice([7, 11, 13])) for v in vs}
        a = num(e, pt)
        if abs(a) > tol * (1 + abs(scale)):
            return {str(k): str(v) for k, v in pt.items()}, mp.nstr(a, 15)
    return None

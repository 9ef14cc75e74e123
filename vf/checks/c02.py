"""CeSolver histories against a model that solves from scratch, and checkCe against explicit free functions."""

import contextlib, io, random
import sympy as sp
from .. import ce as K, gen

PROPERTY = "C02"
RULE = ("One evaluation is one quantity read from a solver in the middle of a history compared with a fresh solver's, one unchanged "
        "input list, or one verdict of checkCe compared with the constraints evaluated on explicit free functions. Distinct: by the "
        "history up to the read.")
REPEAT = 3
MIN_EVALS = 1500
ASSUMPTIONS = ["two expressions are equal when they are identical or agree at random points with 40 digits, with explicit free functions in place",
               "histories use rational, trigonometric and exponential kappas for which SymPy's simplify decides equality"]

QUANT = ("S", "alpha", "phi", "rho", "ce")


def setup():
    global CeSolver
    from tfc.utils import CeSolver


def cases(rng, tier):
    q = tier == "quick"
    out = [{"kind": "history", "seed": s} for s in gen.seeds(rng, 60 if q else 900)]
    out += [{"kind": "verdict", "seed": s} for s in gen.seeds(rng, 40 if q else 500)]
    out += [{"kind": "pairs", "seed": s} for s in gen.seeds(rng, 6 if q else 30)]
    return out


def fix(e, v, f):
    """With explicit functions in place of g and h."""
    e = sp.sympify(e) if not isinstance(e, sp.MatrixBase) else e
    return K.put(K.put(e, [v], f[0], "g"), [v], f[1], "h")


def equal(a, b, v, r, f):
    if type(a) is type(b) and a == b:
        return True
    if isinstance(a, sp.MatrixBase) or isinstance(b, sp.MatrixBase):
        if not (isinstance(a, sp.MatrixBase) and isinstance(b, sp.MatrixBase)) or a.shape != b.shape:
            return False
        return all(equal(p, q, v, r, f) for p, q in zip(list(a), list(b)))
    return K.vanishes(fix(a - b, v, f), [v], r, tol=1e-15) is None


class Model:
    def __init__(self, C, K_, s, g):
        self.C, self.K, self.s, self.g = C, K_, s, g
        self.phi = self.ce = None

    def fresh(self):
        c = CeSolver(list(self.C), list(self.K), list(self.s), self.g)
        if self.phi is not None:
            c.phi = self.phi
        return c

    def get(self, q):
        """What a solver with these inputs gives, asked for this one thing only."""
        if q == "ce" and self.ce is not None:
            return self.ce
        return getattr(self.fresh(), q)

    def set(self, what, val):
        if what == "phi":
            self.phi = val
            self.ce = None
        elif what == "ce":
            self.ce = val
        else:
            setattr(self, {"C": "C", "kappa": "K", "s": "s", "g": "g"}[what], val)
            self.ce = None
            if what in ("C", "s"):
                self.phi = None


def pool(r, v, n):
    """Constraint operators and supports such that every combination used is solvable."""
    sets = []
    while len(sets) < 3:
        C, s = K.constraint_set(r, v, n, poly=True, integrals=False)
        if len(C) == n and all(K.well(C, s2) and K.well(C2, s) for C2, s2 in sets):
            sets.append((C, s))
        elif r.random() < 0.02 and sets:
            sets.append(sets[0])
    return [C for C, _ in sets], [s for _, s in sets]


def frees(v):
    g, h = sp.Function("g"), sp.Function("h")
    return [g(v), h(v), g(v) + v ** 2, h(v) * 2 - 1, v ** 3]


def read_all(mon, cs, m, v, r, f, key, order):
    for q in order:
        got = getattr(cs, q)
        want = m.get(q)
        mon.check(equal(got, want, v, r, f), "read " + q, key + (q,), lambda: "%s is %s, but the current inputs give %s" % (q, got, want), sample=q)


def run(case, mon):
    r = random.Random(case["seed"])
    if case["kind"] == "history":
        return history(case, mon, r)
    if case["kind"] == "pairs":
        return pairs(case, mon, r)
    return verdict(case, mon, r)


def unchanged(mon, m, objs, copies, key):
    for o_, c in zip(objs, copies):
        mon.check(type(o_) is type(c) and len(o_) == len(c) and all(a is b or a == b for a, b in zip(o_, c)), "input list", key, "a list the user passed in was changed: %r became %r" % (c, o_))


def history(case, mon, r):
    v = K.x
    n = r.choice([1, 2, 2, 3])
    Cs, ss = pool(r, v, n)
    f = (K.concrete(r, [v]), K.concrete(r, [v]))
    C, s = r.choice(Cs), r.choice(ss)
    wrap = lambda a: r.choice([list, tuple])(a)
    ks = lambda: [K.kappa(r) for _ in range(n)]
    given = []

    def give(a):
        a = wrap(a)
        given.append((a, type(a)(a)))
        return a

    m = Model(C, ks(), s, frees(v)[0])
    cs = CeSolver(give(m.C), give(m.K), give(m.s), m.g)
    for step in range(14):
        key = (case["seed"], step)
        op = r.randrange(9)
        if op == 0:
            m.set("C", r.choice(Cs))
            cs.C = give(m.C)
        elif op == 1:
            m.set("kappa", ks())
            cs.kappa = give(m.K)
        elif op == 2:
            m.set("s", r.choice(ss))
            cs.s = give(m.s)
        elif op == 3:
            m.set("g", r.choice(frees(v)))
            cs.g = m.g
        elif op == 4:
            p = sp.Matrix([[K.rat(r) * v ** k + K.rat(r) for k in range(n)]])
            m.set("phi", p)
            cs.phi = p
        elif op == 5:
            e = r.choice([m.g + 3, v ** 2, m.fresh().ce + v])
            m.set("ce", e)
            cs.ce = e
        elif op == 6:
            with contextlib.redirect_stdout(io.StringIO()):
                cs.checkCe()
        elif op == 7:
            q = r.choice(("C", "kappa", "s", "g"))
            got = getattr(cs, q)
            want = {"C": m.C, "kappa": m.K, "s": m.s, "g": m.g}[q]
            mon.check(list(got) == list(want) if q != "g" else got == want, "read " + q, key, "%s is not what was set" % q)
        order = [q for q in QUANT if r.random() < 0.45]
        r.shuffle(order)
        read_all(mon, cs, m, v, r, f, key, order)
    order = list(QUANT)
    r.shuffle(order)
    read_all(mon, cs, m, v, r, f, (case["seed"], "end"), order)
    unchanged(mon, m, [a for a, _ in given], [b for _, b in given], (case["seed"], "lists"))


def pairs(case, mon, r):
    """Every quantity read before and after every single kind of change, in every order of one read and one change."""
    v = K.x
    n = r.choice([1, 2])
    Cs, ss = pool(r, v, n)
    f = (K.concrete(r, [v]), K.concrete(r, [v]))
    ks = [[K.kappa(r) + k for _ in range(n)] for k in (0, 1)]
    phi = sp.Matrix([[v ** (k + 1) + 2 for k in range(n)]])
    changes = {"C": [Cs[0], Cs[1]], "kappa": ks, "s": [ss[0], ss[1]], "g": frees(v)[:2], "phi": [phi, phi * 2], "ce": [v ** 2, v ** 3]}
    for first in QUANT + ("none", "all"):
        for c1 in changes:
            for c2 in ("none",) + tuple(changes):
                m = Model(Cs[0], ks[0], ss[0], frees(v)[0])
                cs = CeSolver(list(m.C), list(m.K), list(m.s), m.g)
                for q in QUANT if first == "all" else ([first] if first != "none" else []):
                    getattr(cs, q)
                for c in (c1, c2):
                    if c == "none":
                        continue
                    m.set(c, changes[c][1])
                    setattr(cs, c, changes[c][1])
                    if r.random() < 0.3:
                        getattr(cs, r.choice(QUANT))
                read_all(mon, cs, m, v, r, f, (case["seed"], first, c1, c2), QUANT)


def verdict(case, mon, r):
    """checkCe is right about right and wrong expressions."""
    v = K.x
    multi = r.random() < 0.3
    vs = [K.x, K.y] if multi else [v]
    g = sp.Function("g")
    C, s = K.constraint_set(r, v, poly=True, integrals=r.random() < 0.3 and not multi)
    ks = [K.kappa(r, [K.y] if multi else ()) for _ in C]
    cs = CeSolver(C, ks, s, g(*vs))
    good = cs.ce
    cands = [("itself", good)]
    # something that vanishes under all constraints
    u0 = K.rat(r) * v ** (len(C) + 3) + 1
    zero = CeSolver(C, [sp.re(0)] * len(C), s, u0).ce
    cands.append(("plus a function in the null space", good + zero))
    cands.append(("plus a constant", good + r.choice([1, sp.Rational(1, 1000), -3])))
    cands.append(("plus a multiple of a support function", good + sp.Rational(1, 7) * r.choice(s)))
    cands.append(("plus a multiple of the free function", good + g(*vs) / 100))
    cands.append(("the free function", g(*vs)))
    k2 = list(ks)
    i = r.randrange(len(ks))
    k2[i] = k2[i] + sp.Rational(r.choice([1, -2]), r.choice([1, 1000000]))
    cands.append(("with one other kappa", CeSolver(C, k2, s, g(*vs)).ce))
    fs = [K.concrete(r, vs, smooth=False) + v ** 5 + 1 for _ in range(3)]
    for name, e in cands:
        if e.has(sp.zoo, sp.nan):
            continue
        truth = True
        for f in fs:
            u = K.put(e, vs, f)
            if any(K.vanishes(c(u) - k, vs, r, tol=1e-15) is not None for c, k in zip(C, ks)):
                truth = False
        cs.ce = e
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            got = cs.checkCe()
        mon.check(got is truth or (bool(got) == truth and isinstance(got, bool)), "verdict " + ("right" if truth else "wrong"), (case["seed"], name),
                  lambda: "checkCe says %r for the expression %s (%s) with C=%r, kappa=%r" % (got, name, e, C, ks), sample=name)
        mon.check(cs.ce == e and cs.C == C and cs.kappa == ks, "verdict leaves the solver alone", (case["seed"], name), "checkCe changed the solver")

"""TFCDict and TFCDictRobust against a list of (key, array) pairs, over random histories."""

import collections, copy
import numpy as np
from .. import gen

PROPERTY = "C17"
NEEDS_EXT = False
RULE = ("One evaluation is one operation of a history on a TFCDict or TFCDictRobust, after which every live dictionary and every result "
        "is compared with its model (keys in order, shapes, values); or one JAX transformation of one. Distinct: by history and step.")
REPEAT = 4
MIN_EVALS = 3000
ASSUMPTIONS = ["operands have the same keys, or as many elements, as the target", "non-empty dictionaries of NumPy or JAX arrays (1-D for TFCDict)"]

KEYS = ["xi", "b", "a", "Z", 3, 1, (0, 1), "k10", "k9", "", "_"]


def setup():
    global jnp, jax, CLS
    import jax, jax.numpy as jnp
    from tfc.utils import TFCDict, TFCDictRobust
    CLS = {"TFCDict": TFCDict, "TFCDictRobust": TFCDictRobust}


def cases(rng, tier):
    q = tier == "quick"
    out = [{"kind": k, "cls": c, "seed": s} for k, n in (("history", 30), ("jax", 22)) for c in ("TFCDict", "TFCDictRobust") for s in gen.seeds(rng, n if q else 20 * n)]
    rng.shuffle(out)
    return out


def shape(r, cls):
    n = int(r.integers(0, 5)) if r.integers(0, 6) == 0 else int(r.integers(1, 5))
    if cls == "TFCDict":
        return (n,)
    k = int(r.integers(0, 5))
    return [(n,), (n, 2), (), (2, 1, n), (1, n)][k]


def value(r, s, lib=None):
    v = np.round(r.uniform(-4, 4, s) * 64) / 64  # sums are exact
    if r.integers(0, 10) == 0:
        v = v.astype(int)
    return np.array(v) if (lib or ("np", "jnp")[int(r.integers(0, 2))]) == "np" else jnp.array(v)


def model_of(pairs):
    return [(k, np.array(v, copy=True)) for k, v in pairs]


def agree(mon, cls, d, model, key, what):
    mon.check(type(d) is CLS[cls], "type", key, lambda: "%s is a %s" % (what, type(d).__name__), nontrivial=False)
    mon.check(list(d.keys()) == [k for k, _ in model], "keys", key, lambda: "%s has keys %s instead of %s" % (what, list(d.keys()), [k for k, _ in model]))
    for k, v in model:
        g = np.asarray(d[k])
        mon.check(g.shape == v.shape and np.array_equal(g, v), "values", (key, str(k)), lambda: "%s has %s at %r instead of %s" % (what, g, k, v))


def flat(model):
    return np.concatenate([v.ravel() for _, v in model])


class World:
    def __init__(self, mon, cls, r, seed):
        self.mon, self.cls, self.r, self.seed = mon, cls, r, seed
        self.live = []  # [object, model, name]
        self.frozen = []  # [array or dict, copy, what]: operands and results that must stay as they are
        self.step = 0
        self.log = []

    def new(self):
        r = self.r
        n = int(r.integers(1, 5))
        keys = [KEYS[int(i)] for i in r.permutation(len(KEYS))[:n]]
        pairs = [(k, value(r, shape(r, self.cls))) for k in keys]
        model = model_of(pairs)
        k = int(r.integers(0, 5))
        arg = [lambda: list(pairs), lambda: dict(pairs), lambda: zip(keys, [v for _, v in pairs]), lambda: collections.OrderedDict(pairs), lambda: CLS[self.cls](pairs)][k]()
        d = CLS[self.cls](arg)
        if r.integers(0, 6) == 0:
            d = CLS[self.cls]()
            for a, b in pairs:
                d[a] = b
        self.live.append([d, model, "d%d" % self.step])
        self.log.append("new %s" % keys)

    def pick(self):
        return self.live[int(self.r.integers(0, len(self.live)))]

    def operand(self, model, target):
        """Something with the keys or the length of the model: the operand and its flat values in the model's order."""
        r = self.r
        k = int(r.integers(0, 7))
        vals = [(key, value(r, v.shape)) for key, v in model]
        byk = dict(vals)
        f = np.concatenate([np.asarray(v).ravel() for _, v in vals])
        order = [model[int(i)][0] for i in r.permutation(len(model))]
        if k == 0:
            o = dict((a, byk[a]) for a in order)
        elif k == 1:
            o = collections.OrderedDict((a, byk[a]) for a in order)
        elif k == 2:
            o = CLS[self.cls]([(a, byk[a]) for a in order])
        elif k == 3:
            o = jnp.array(f)
        elif k == 4:
            o = np.array(f)
        elif k == 5:
            # a strided view of something bigger
            big = np.zeros(2 * len(f))
            big[::2] = f
            o = big[::2]
        else:
            o = target
            byk = dict(model)
            f = flat(model)
        if isinstance(o, dict):
            self.frozen_if_other(o, target, [(a, np.array(byk[a], copy=True)) for a in o.keys()])
        else:
            self.frozen.append([o, np.array(f, copy=True), "an operand"])
        return o, f, ["dict", "OrderedDict", self.cls, "jnp array", "np array", "np view", "itself"][k]

    def frozen_if_other(self, o, target, copy_):
        if o is not target:
            self.frozen.append([o, copy_, "an operand"])

    def split(self, f, model):
        out, i = [], 0
        for k, v in model:
            out.append((k, np.array(f[i:i + v.size]).reshape(v.shape)))
            i += v.size
        return out

    def act(self):
        r, mon = self.r, self.mon
        self.step += 1
        key = (self.seed, self.step)
        if not self.live or (len(self.live) < 4 and r.integers(0, 6) == 0):
            self.new()
            return self.verify(key)
        ent = self.pick()
        d, model, name = ent
        op = int(r.integers(0, 17))
        if op == 0:
            free = [k for k in KEYS if k not in [a for a, _ in model]]
            k = free[int(r.integers(0, len(free)))] if free else KEYS[0]
            v = value(r, shape(r, self.cls))
            d[k] = v
            put(model, k, v)
            self.log.append("%s[%r] = new" % (name, k))
        elif op == 1:
            k, old = model[int(r.integers(0, len(model)))]
            v = value(r, old.shape if r.integers(0, 2) else shape(r, self.cls))
            d[k] = v
            put(model, k, v)
            self.log.append("%s[%r] = replaced" % (name, k))
        elif op == 2 and len(model) > 1:
            i = int(r.integers(0, len(model)))
            k, v = model.pop(i)
            how = int(r.integers(0, 3))
            if how == 0:
                del d[k]
            elif how == 1:
                got = d.pop(k)
                mon.check(np.array_equal(np.asarray(got), v), "pop", key, "pop returned another value")
            else:
                model.insert(i, (k, v))
                last = bool(r.integers(0, 2))
                k, v = model.pop(-1 if last else 0)
                gk, gv = d.popitem(last=last)
                mon.check(gk == k and np.array_equal(np.asarray(gv), v), "popitem", key, "popitem returned another item")
            self.log.append("delete from %s" % name)
        elif op == 3:
            i = int(r.integers(0, len(model)))
            last = bool(r.integers(0, 2))
            it = model.pop(i)
            model.insert(len(model) if last else 0, it)
            d.move_to_end(it[0], last=last)
            self.log.append("%s.move_to_end(%r, %s)" % (name, it[0], last))
        elif op == 4:
            upd = [(KEYS[int(i)], value(r, shape(r, self.cls))) for i in r.permutation(len(KEYS))[:int(r.integers(1, 4))]]
            d.update([lambda: dict(upd), lambda: list(upd), lambda: CLS[self.cls](upd)][int(r.integers(0, 3))]())
            for k, v in upd:
                put(model, k, v)
            self.log.append("%s.update(%s)" % (name, [k for k, _ in upd]))
        elif op == 5:
            a = d.toArray()
            mon.check(np.shape(a) == (flat(model).size,) and np.array_equal(np.asarray(a), flat(model)), "toArray", key, lambda: "toArray gives %s instead of %s after %s" % (a, flat(model), self.log))
            self.frozen.append([a, np.array(a, copy=True), "an array from toArray"])
            back = d.toDict(a)
            agree(mon, self.cls, back, model, key, "toDict(toArray())")
            self.live.append([back, model_of(model), "d%d" % self.step])
            self.log.append("round trip of %s" % name)
        elif op == 6:
            f = np.round(r.uniform(-4, 4, flat(model).size) * 64) / 64
            kind = int(r.integers(0, 3))
            arr = [np.array(f), jnp.array(f), np.repeat(f, 2)[::2]][kind]
            new = d.toDict(arr)
            self.frozen.append([arr, np.array(f), "the array given to toDict"])
            m = self.split(f, model)
            agree(mon, self.cls, new, m, key, "toDict")
            self.live.append([new, m, "d%d" % self.step])
            self.log.append("%s.toDict" % name)
        elif op in (7, 8, 9, 10):
            sign = 1 if op in (7, 9) else -1
            o, f, what = self.operand(model, d)
            want = self.split(flat(model) + sign * f, model)
            if op in (7, 8):
                new = d + o if sign > 0 else d - o
                self.log.append("d%d = %s %s %s" % (self.step, name, "+-"[sign < 0], what))
                agree(mon, self.cls, new, want, key, "%s %s %s after %s" % (self.cls, "+-"[sign < 0], what, self.log[-6:]))
                self.live.append([new, want, "d%d" % self.step])
            else:
                alias = d
                if sign > 0:
                    d += o
                else:
                    d -= o
                self.log.append("%s %s= %s" % (name, "+-"[sign < 0], what))
                mon.check(d is alias, "in place", key, "the in-place operator made another object")
                ent[1] = want
                agree(mon, self.cls, d, want, key, "%s %s= %s after %s" % (self.cls, "+-"[sign < 0], what, self.log[-6:]))
        elif op in (11, 12):
            new = [lambda: d.copy(), lambda: CLS[self.cls](d), lambda: copy.deepcopy(d), lambda: copy.copy(d)][int(r.integers(0, 4))]()
            self.live.append([new, model_of(model), "d%d" % self.step])
            self.log.append("copy of %s" % name)
        elif op == 13:
            got = jax.tree_util.tree_map(lambda v: v * 2, d)
            agree(mon, self.cls, got, [(k, v * 2) for k, v in model], key, "tree_map after %s" % self.log[-6:])
        elif op == 14:
            k = KEYS[int(r.integers(0, len(KEYS)))]
            v = value(r, shape(r, self.cls))
            d.setdefault(k, v)
            if k not in [a for a, _ in model]:
                put(model, k, v)
            self.log.append("%s.setdefault(%r)" % (name, k))
        elif op == 15:
            # everything out and in again, in another order
            items = list(d.items())
            d.clear()
            perm = [int(i) for i in r.permutation(len(items))]
            for i in perm:
                d[items[i][0]] = items[i][1]
            model[:] = [model[i] for i in perm]
            self.log.append("%s reordered" % name)
        else:
            # arithmetic with an array twice, and back
            f = np.round(r.uniform(-4, 4, flat(model).size) * 64) / 64
            a = jnp.array(f)
            back = (d + a) - a
            agree(mon, self.cls, back, [(k, v + 0.0) for k, v in model], key, "(d + a) - a after %s" % self.log[-6:])
        if len(self.live) > 6:
            self.live.pop(int(r.integers(0, len(self.live))))
        self.verify(key)

    def verify(self, key):
        for d, model, name in self.live:
            agree(self.mon, self.cls, d, model, (key, name), "%s, after %s," % (name, self.log[-8:]))
        for o, c, what in self.frozen[-12:]:
            if isinstance(o, dict):
                ok = list(o.keys()) == [k for k, _ in c] and all(np.array_equal(np.asarray(o[k]), v) for k, v in c)
            else:
                ok = np.array_equal(np.asarray(o), c)
            self.mon.check(ok, "operands unchanged", key, lambda: "%s was changed: %s instead of %s, after %s" % (what, o, c, self.log[-8:]))


def put(model, k, v):
    v = np.array(v, copy=True)
    for i, (a, _) in enumerate(model):
        if a == k:
            model[i] = (k, v)
            return
    model.append((k, v))


def run(case, mon):
    r = gen.rng(case)
    if case["kind"] == "history":
        w = World(mon, case["cls"], r, case["seed"])
        for _ in range(30):
            w.act()
        aliases(case, mon, r)
        mon.seen("history", case["seed"], sample="; ".join(w.log[:8]))
        return
    through_jax(case, mon, r)


def aliases(case, mon, r):
    """Results of the operators on NumPy values: changing one must not change another."""
    cls = case["cls"]
    n = int(r.integers(1, 4))
    keys = [KEYS[int(i)] for i in r.permutation(len(KEYS))[:n]]
    shapes = [shape(r, cls) for _ in keys]
    mk = lambda: CLS[cls]([(k, np.array(r.integers(-5, 6, s), dtype=float)) for k, s in zip(keys, shapes)])
    a, b = mk(), mk()
    f = np.array(r.integers(-5, 6, sum(int(np.prod(s)) for s in shapes)), dtype=float)
    c = mk()
    ops = {"a": a, "b": b, "a + b": a + b, "a - b": a - b, "a + f": a + f, "a - f": a - f, "toDict(f)": a.toDict(f), "toDict(toArray)": a.toDict(a.toArray())}
    c += b
    ops["c += b"] = c
    e = mk()
    e -= f
    ops["e -= f"] = e
    g = mk()
    g += f
    ops["g += f"] = g
    snap = {k: model_of(v.items()) for k, v in ops.items()}
    f0 = f.copy()
    for name, d in ops.items():
        for k in keys:
            v = d[k]
            if isinstance(v, np.ndarray) and v.size and v.flags.writeable:
                v += 100.0
                for other, o in ops.items():
                    for k2, w in snap[other]:
                        if other == name and k2 == k:
                            continue
                        mon.check(np.array_equal(np.asarray(o[k2]), w), "independent storage", (case["seed"], name, other, str(k)), lambda: "changing %s[%r] changed %s[%r]" % (name, k, other, k2))
                mon.check(np.array_equal(f, f0), "independent storage", (case["seed"], name, "f", str(k)), lambda: "changing %s[%r] changed the array operand" % (name, k))
                v -= 100.0
    f += 7.0
    for name, d in ops.items():
        for k, w in snap[name]:
            mon.check(np.array_equal(np.asarray(d[k]), w), "independent storage", (case["seed"], "f", name, str(k)), lambda: "changing the array operand changed %s[%r]" % (name, k))


def through_jax(case, mon, r):
    cls = case["cls"]
    n = int(r.integers(1, 5))
    keys = [KEYS[int(i)] for i in r.permutation(len(KEYS))[:n]]
    pairs = [(k, value(r, shape(r, cls)) * 1.0) for k in keys]
    model = [(k, v.astype(float)) for k, v in model_of(pairs)]
    d = CLS[cls](pairs)
    N = flat(model).size
    key = case["seed"]
    agree(mon, cls, jax.jit(lambda v: v)(d), model, key, "through jit")
    f = np.round(r.uniform(-4, 4, N) * 64) / 64
    split = lambda f: World.split(None, f, model)
    agree(mon, cls, jax.jit(lambda v, a: v + a)(d, f), split(flat(model) + f), key, "jit of d + array")
    agree(mon, cls, jax.jit(lambda v, a: v - a)(d, jnp.array(f)), split(flat(model) - f), key, "jit of d - array")
    other = CLS[cls]([(k, np.array(v)) for k, v in split(f)][::-1])
    agree(mon, cls, jax.jit(lambda v, a: v + a)(d, other), split(flat(model) + f), key, "jit of d + d in another key order")
    agree(mon, cls, jax.jit(lambda v, a: v - a)(d, dict(split(f))) if all(isinstance(k, str) for k in keys) else d - dict(split(f)), split(flat(model) - f), key, "jit of d - dict")

    def inplace(v, a):
        v += a
        v -= 2.0 * a
        return v

    agree(mon, cls, jax.jit(inplace)(d, f), split(flat(model) - f), key, "jit of += and -=")
    agree(mon, cls, d, model, key, "the argument of a jitted function")
    arr = jax.jit(lambda v: v.toArray())(d)
    mon.check(np.array_equal(np.asarray(arr), flat(model)), "jit of toArray", key, lambda: "jit of toArray gives %s instead of %s" % (arr, flat(model)))
    agree(mon, cls, jax.jit(lambda v, a: v.toDict(a))(d, jnp.array(f)), split(f), key, "jit of toDict")
    # jit once, then the same keys in another order: a different structure, not the cached one
    g = jax.jit(lambda v: v.toArray())
    perm = [int(i) for i in r.permutation(n)]
    for p in (list(range(n)), perm, perm[::-1]):
        q = CLS[cls]([pairs[i] for i in p])
        a = np.asarray(g(q))
        w = flat([model[i] for i in p])
        mon.check(np.array_equal(a, w), "order of keys under jit", (key, tuple(p)), lambda: "toArray under jit gives %s instead of %s for keys %s" % (a, w, list(q)))
    if N:
        # derivative of something that weighs every element differently
        wts = np.arange(1.0, N + 1)
        J = jax.jacfwd(lambda v: jnp.stack([jnp.sum(wts * v.toArray()), jnp.sum((wts * v.toArray()) ** 2)]))(d)
        agree(mon, cls, jax.tree_util.tree_map(lambda v: v[0], J), split(wts), key, "jacfwd")
        want = split(2 * wts ** 2 * flat(model))
        for k, v in want:
            mon.check(np.allclose(np.asarray(J[k])[1], v, rtol=1e-12, atol=1e-12), "jacfwd", (key, str(k)), lambda: "jacfwd at %r is %s instead of %s" % (k, J[k][1], v))
        G = jax.grad(lambda v: jnp.sum(wts * (v + v).toArray()))(d)
        agree(mon, cls, G, split(2 * wts), key, "grad")
    leaves, tree = jax.tree_util.tree_flatten(d)
    agree(mon, cls, jax.tree_util.tree_unflatten(tree, leaves), model, key, "flatten and unflatten")
    mon.check(d.block_until_ready() is d if all(hasattr(v, "block_until_ready") for v in d.values()) else True, "block_until_ready", key, "block_until_ready returned another object")
    w = jax.lax.while_loop(lambda s: s[0] < 3, lambda s: (s[0] + 1, s[1] + jnp.array(f)), (0, jax.tree_util.tree_map(jnp.asarray, d)))[1]
    agree(mon, cls, w, split(flat(model) + 3 * f), key, "while_loop")

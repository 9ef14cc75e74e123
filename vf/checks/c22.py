"""LaTeX tables, read back by an independent parser."""

import re
import numpy as np
from .. import gen

PROPERTY = "C22"
NEEDS_EXT = False
RULE = "One evaluation is one table, parsed and compared cell by cell with what it was made from. Distinct: by array, format and headers."
REPEAT = 8
MIN_EVALS = 400
ASSUMPTIONS = ["headers do not contain unescaped & or \\\\", "with row headers, the first column header stands above them"]

FORMS = ["%.4E", "%g", "%d", "%+.2e", "%8.3f", "%s", "$%.3f$", "%05.1f", "%.0f", "\\num{%.3e}", "%.15g", "%a%%".replace("%a", "%g"), "(%.1f)"]
HEADERS = ["x", "$\\alpha$", "Error in $y_1$", "a b", "", "\\textbf{T}", "10\\%", "R\\&D", "N", "é", "%d", "{}", "|c|"]


def setup():
    global Latex
    from tfc.utils import Latex


def cases(rng, tier):
    q = tier == "quick"
    return [{"seed": s} for s in gen.seeds(rng, 60 if q else 900)]


def array(r):
    n, m = int(r.integers(1, 7)), int(r.integers(1, 7))
    if r.integers(0, 6) == 0:
        n, m = int(r.integers(10, 30)), int(r.integers(1, 15))
    k = int(r.integers(0, 6))
    a = r.standard_normal((n, m)) * 10.0 ** r.integers(-12, 12, (n, m))
    if k == 0:
        a = r.integers(-1000, 1000, (n, m))
    if k == 1:
        a[r.uniform(size=(n, m)) < 0.3] = np.nan
        a[r.uniform(size=(n, m)) < 0.2] = np.inf
        a[r.uniform(size=(n, m)) < 0.2] = -np.inf
    if k == 2:
        a = np.round(a)
        a[r.uniform(size=(n, m)) < 0.5] = 0.0
        a[r.uniform(size=(n, m)) < 0.2] = -0.0
    if k == 3:
        a = np.asfortranarray(a)
    if k == 4:
        a = np.repeat(a, 2, axis=0)[::2]
    if r.integers(0, 5) == 0:
        import jax.numpy as jnp
        a = jnp.array(a)
    return a


def cells(line):
    return [c.strip() for c in re.split(r"(?<!\\)&", line)]


def parse(text):
    """Column specification and rows of a tabular inside balanced environments."""
    stack, rows, spec, cur = [], [], None, ""
    pos = 0
    tok = re.compile(r"\\begin\{(\w+)\}(\{[^}]*\})?|\\end\{(\w+)\}|\\hline|\\\\")
    inside = lambda: stack and stack[-1] == "tabular"
    hlines = 0
    for m in tok.finditer(text):
        body = text[pos:m.start()]
        pos = m.end()
        if inside():
            cur += body
        elif body.strip():
            return None, "text outside of the tabular: %r" % body
        t = m.group(0)
        if t.startswith("\\begin"):
            stack.append(m.group(1))
            if m.group(1) == "tabular":
                spec = m.group(2)[1:-1]
            elif m.group(2):
                return None, "unexpected argument of %s" % m.group(1)
        elif t.startswith("\\end"):
            if cur.strip():
                return None, "a row without its end: %r" % cur
            if not stack or stack.pop() != m.group(3):
                return None, "unbalanced environments"
        elif t == "\\\\":
            if not inside():
                return None, "a row outside of the tabular"
            rows.append(cells(cur))
            cur = ""
        else:
            if cur.strip():
                return None, "a line in the middle of a row: %r" % cur
            cur = ""
            hlines += 1
    if stack or text[pos:].strip():
        return None, "unbalanced environments or text after them"
    return (spec, rows, hlines), None


def run(case, mon):
    r = gen.rng(case)
    for i in range(12):
        a = array(r)
        n, m = a.shape
        kw = {}
        form = FORMS[int(r.integers(0, len(FORMS)))]
        if form == "%d" and not np.all(np.isfinite(np.asarray(a, dtype=float))):
            form = "%.4E"
        use = form
        if r.integers(0, 4):
            kw["form"] = form
        else:
            use = "%.4E"
        rh = [HEADERS[int(v)] for v in r.integers(0, len(HEADERS), n)] if r.integers(0, 2) else None
        ch = [HEADERS[int(v)] for v in r.integers(0, len(HEADERS), m + (rh is not None))] if r.integers(0, 2) else None
        if rh is not None:
            kw["rowHeader"] = list(rh)
        if ch is not None:
            kw["colHeader"] = list(ch)
        before = np.array(a, copy=True)
        text = Latex.table.SimpleTable(a, **kw)
        got, why = parse(text)
        key = (case["seed"], i)
        mon.check(got is not None, "well formed", key, lambda: "%s in\n%s" % (why, text))
        spec, rows, hlines = got
        cols = m + (rh is not None)
        mon.check(len(re.findall("[lcr]", spec)) == cols, "columns", key, lambda: "the columns are %s for %d cells in a row" % (spec, cols))
        want = [[use % float(v) if a.dtype.kind == "f" else use % v for v in row] for row in np.asarray(a)] if use != "%s" else [[use % v for v in row] for row in a]
        want = [[c.strip() for c in row] for row in want]
        if rh is not None:
            want = [[h.strip()] + row for h, row in zip(rh, want)]
        if ch is not None:
            want = [[h.strip() for h in ch]] + want
        mon.check(len(rows) == len(want), "rows", key, lambda: "%d rows instead of %d in\n%s" % (len(rows), len(want), text))
        for j, (g, w) in enumerate(zip(rows, want)):
            mon.check(g == w, "cells", (key, j), lambda: "row %d is %s instead of %s (format %r)" % (j, g, w, use), sample="%s" % g[:4])
        mon.check(kw.get("rowHeader") == rh and kw.get("colHeader") == ch and np.array_equal(np.asarray(a), before, equal_nan=True), "arguments", key, "the arguments were changed")

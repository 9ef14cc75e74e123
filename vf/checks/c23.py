"""Plot helpers: figures and files, looked at from outside."""

import io, json, os, pickle, random, re, shutil, sys, tempfile, types
import numpy as np
from .. import gen

PROPERTY = "C23"
NEEDS_EXT = False
RULE = ("One evaluation is one label, title, position, trace, camera, colour limit or written file compared with what was asked for. "
        "Distinct: by figure and item.")
REPEAT = 4
MIN_EVALS = 1200
ASSUMPTIONS = ["no screen, no Kaleido, no pdfCropMargins, no chart_studio: stand-ins answer for the screen size, draw the static Plotly images and record the calls", "the Plotly version makes one subplot per position and takes no empty ones"]


def setup():
    global plt, MakePlot, PM, go
    import matplotlib
    matplotlib.use("Agg")
    import warnings
    warnings.simplefilter("ignore")
    import matplotlib.pyplot as plt
    from tfc.utils import MakePlot
    import tfc.utils.PlotlyMakePlot as PM
    import plotly.graph_objects as go


def cases(rng, tier):
    q = tier == "quick"
    out = [{"kind": k, "seed": s} for k, n in (("labels", 60), ("files", 14), ("animate", 6), ("plotly", 120), ("static", 40)) for s in gen.seeds(rng, n if q else 12 * n)]
    rng.shuffle(out)
    return out


WORDS = ["x", "$y_1$", "Time (s)", "α", "error", "u(x)", "", "T [K]", "a b c", "n", "log"]


def grid(r, n, m, tag, holes=()):
    """Labels that are all different, with None at the holes."""
    return [[None if (i, j) in holes else "%s %s %d%d" % (r.choice(WORDS), tag, i, j) for j in range(m)] for i in range(n)]


def form(r, g):
    """The same labels in one of the accepted forms."""
    n, m = len(g), len(g[0])
    k = r.randrange(5)
    if n == m == 1 and k < 2:
        return g[0][0]
    if m == 1 and k < 3:
        col = [row[0] for row in g]
        return [col, tuple(col), np.array(col, dtype=object if None in col else None)][k]
    if k == 3:
        return tuple(tuple(row) for row in g)
    if k == 4:
        return np.array(g, dtype=object)
    return [list(row) for row in g]


def run(case, mon):
    r = random.Random(case["seed"])
    try:
        return {"labels": labels, "files": files, "animate": animate, "plotly": plotly, "static": static}[case["kind"]](case, mon, r)
    finally:
        plt.close("all")
        plt.rcdefaults()


def build(r, three=None, n=None, m=None):
    n = n or r.choice([1, 1, 2, 3])
    m = m or r.choice([1, 1, 2, 3])
    cells = [(i, j) for i in range(n) for j in range(m)]
    holes = set(r.sample(cells, r.randrange(0, min(3, len(cells))))) if r.random() < 0.5 else set()
    three = r.random() < 0.3 if three is None else three
    twin = not three and r.random() < 0.4
    X, Y = grid(r, n, m, "x", holes), grid(r, n, m, "y", holes)
    Z = grid(r, n, m, "z", holes) if three else None
    T = grid(r, n, m, "title", holes | set(r.sample(cells, r.randrange(0, 2)))) if r.random() < 0.6 else None
    W = grid(r, n, m, "twin", holes) if twin else None
    kw = {}
    if T is not None:
        kw["titles"] = form(r, T) if not (n == m == 1 and T[0][0] is None) else [[None]]
    if Z is not None:
        kw["zlabs"] = form(r, Z)
    if W is not None:
        kw["twinYlabs"] = form(r, W)
    if r.random() < 0.2:
        kw["style"] = r.choice(["ggplot", {"axes.grid": True}, ["default", {"lines.linewidth": 3.0}]])
    p = MakePlot(form(r, X), form(r, Y), **kw)
    return p, n, m, [c for c in cells if c not in holes], X, Y, Z, T, W


def check_figure(mon, key, p, n, m, cells, X, Y, Z, T, W, what=""):
    mon.check(len(p.ax) == len(cells), "subplots", key, lambda: "%s%d subplots for %d labelled positions of %s" % (what, len(p.ax), len(cells), X))
    mon.check(len(p.fig.axes) == len(cells) * (2 if W else 1), "axes", key, lambda: "%sthe figure has %d axes" % (what, len(p.fig.axes)))
    for ax, (i, j) in zip(p.ax, cells):
        s = ax.get_subplotspec()
        pos = (s.get_gridspec().get_geometry(), list(s.rowspan), list(s.colspan))
        mon.check(pos == ((n, m), [i], [j]), "place", (key, i, j), lambda: "%sthe subplot for position %s is at %s" % (what, (i, j), pos))
        got = [ax.get_xlabel(), ax.get_ylabel()] + ([ax.get_zlabel()] if Z else [])
        want = [X[i][j], Y[i][j]] + ([Z[i][j]] if Z else [])
        mon.check(got == want and (ax.name == "3d") == bool(Z), "labels", (key, i, j), lambda: "%sposition %s of %d x %d has labels %s instead of %s" % (what, (i, j), n, m, got, want), sample=str(want))
        t = ax.get_title()
        mon.check(t == ((T[i][j] or "") if T else ""), "title", (key, i, j), lambda: "%sposition %s has the title %r instead of %r" % (what, (i, j), t, T and T[i][j]))
    if W:
        mon.check(len(p.twinAx) == len(cells), "twin axes", key, lambda: "%s%d twin axes" % (what, len(p.twinAx)))
        for ax, tw, (i, j) in zip(p.ax, p.twinAx, cells):
            mon.check(tw.get_ylabel() == W[i][j], "twin label", (key, i, j), lambda: "%sthe twin axis at %s has the label %r instead of %r" % (what, (i, j), tw.get_ylabel(), W[i][j]))
            mon.check(ax.get_shared_x_axes().joined(ax, tw) and np.allclose(ax.get_position().bounds, tw.get_position().bounds) and tw is not ax, "twin place", (key, i, j), lambda: "%sthe twin axis at %s is elsewhere" % (what, (i, j)))


def labels(case, mon, r):
    args = build(r)
    check_figure(mon, case["seed"], *args)
    p = args[0]
    # a second figure does not disturb the first
    other = build(r)
    check_figure(mon, (case["seed"], "second"), *other)
    check_figure(mon, (case["seed"], "again"), *args, what="after another figure was made: ")
    mon.check(other[0].fig is not p.fig, "own figure", case["seed"], "two plots share a figure")
    if r.random() < 0.3:
        face, edge = r.sample(["#112233", "#aa5500", "#00ff7f", "#c0c0c0"], 2)
        parts = [{"axes.facecolor": face}, {"axes.edgecolor": edge}]
        style = r.choice([parts, ["ggplot"] + parts, {**parts[0], **parts[1]}])
        from matplotlib.colors import to_hex
        with plt.rc_context():
            q = MakePlot("x", "y", style=style)
        seen = to_hex(q.ax[0].get_facecolor()), to_hex(q.ax[0].spines["left"].get_edgecolor())
        mon.check(seen == (face, edge), "style", (case["seed"], str(style)), lambda: "style %s gives the colours %s" % (style, seen))
    w, h = r.choice([(4, 3), (7.5, 2.25), (10, 10)])
    p.PartScreen(w, h)
    mon.check(np.allclose(p.fig.get_size_inches(), (w, h)), "size", case["seed"], lambda: "the size is %s instead of %s" % (p.fig.get_size_inches(), (w, h)))
    p.draw()


MAGIC = {"png": lambda b: b.startswith(b"\x89PNG\r\n\x1a\n"), "pdf": lambda b: b.startswith(b"%PDF-"), "svg": lambda b: b"<svg" in b[:2000],
         "ps": lambda b: b.startswith(b"%!PS") and b"EPSF" not in b[:40], "eps": lambda b: b.startswith(b"%!PS-Adobe") and b"EPSF" in b[:40]}


def listing(d):
    return sorted(os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(d) for f in fs)


def files(case, mon, r):
    work = tempfile.mkdtemp(dir=".")
    args = build(r, three=False, n=1, m=r.choice([1, 2]))
    p = args[0]
    ys = [r.uniform(-1, 1) for _ in range(5)]
    for k, ax in enumerate(p.ax):
        ax.plot(range(5), [y + k for y in ys])
    p.PartScreen(3, 2)
    expect = []
    for i in range(3):
        t = r.choice(list(MAGIC))
        base = os.path.join(work, r.choice(["fig", "run1.5", "a b", "x.y"]) + str(i))
        how = r.randrange(6)
        tr = r.random() < 0.5
        if how == 0:
            p.save(base, fileType=t, transparent=tr)
            new = [base + "." + t]
        elif how == 1:
            p.save(base + "." + t, transparent=tr)
            new = [base + "." + t]
        elif how == 2:
            p.saveAll(base, fileType=t, transparent=tr)
            new = [base + "." + t, base + ".pickle"]
        elif how == 3:
            p.saveAll(base + "." + t, transparent=tr)
            new = [base + "." + t, base + "." + t + ".pickle"]
        elif how == 4:
            p.saveAll(base + "." + t, tr)
            new = [base + "." + t, base + "." + t + ".pickle"]
        else:
            p.save(base, tr)
            new, t = [base], "pdf"
        expect += [os.path.relpath(f, work) for f in new]
        mon.check(listing(work) == sorted(set(expect)), "files", (case["seed"], i), lambda: "there are %s instead of %s" % (listing(work), sorted(set(expect))))
        data = open(new[0], "rb").read()
        mon.check(MAGIC[t](data), "file type", (case["seed"], i), lambda: "%s is not %s but starts with %r" % (new[0], t, data[:30]), sample="%s: %d bytes of %s" % (new[0], len(data), t))
        if t == "png":
            from PIL import Image
            alpha = np.asarray(Image.open(new[0]).convert("RGBA"))[0, 0, 3]
            mon.check((alpha == 0) == tr, "transparency", (case["seed"], i), lambda: "transparent=%s gives a corner of opacity %d" % (tr, alpha))
    base = os.path.join(work, "kept")
    p.savePickle(base)
    check_figure(mon, (case["seed"], "after saving"), *args, what="after saving: ")
    q = pickle.load(open(base + ".pickle", "rb"))
    check_figure(mon, (case["seed"], "pickle"), q, *args[1:], what="restored from a pickle: ")
    for a, b in zip(p.ax, q.ax):
        same = len(a.lines) == len(b.lines) and all(np.array_equal(u.get_xydata(), v.get_xydata()) for u, v in zip(a.lines, b.lines))
        mon.check(same, "data in the pickle", case["seed"], "the lines differ")
    shutil.rmtree(work)


def animate(case, mon, r):
    work = tempfile.mkdtemp(dir=".")
    p = MakePlot("x", "y")
    p.PartScreen(2, 1.5)
    n = r.choice([0, 1, 3, 4])
    out = os.path.join(work, "frames")
    if r.random() < 0.5:
        os.mkdir(out)
    name = r.choice(["images", "f", "step_"])
    saved = r.random() < 0.8
    want = []
    count = [0]

    def gen_():
        for k in range(n):
            p.ax[0].plot([0, 1], [k, n - k])
            count[0] += 1
            p.save(os.path.join(work, "want%d" % k), fileType="png")
            want.append(os.path.join(work, "want%d.png" % k))
            yield

    kw = {"delay": 1}
    if saved:
        p.animate(gen_, out, name, **kw)
    else:
        p.animate(gen_, outDir=out, fileName=name, save=False, **kw)
    mon.check(count[0] == n, "steps", case["seed"], lambda: "%d steps of the generator instead of %d" % (count[0], n))
    got = sorted(os.listdir(out)) if os.path.exists(out) else []
    exp = ["%s%06d.png" % (name, k) for k in range(n)] if saved else []
    mon.check(got == exp, "frames", case["seed"], lambda: "the frames are %s instead of %s" % (got, exp))
    if saved:
        from PIL import Image
        for k, f in enumerate(exp):
            a, b = np.asarray(Image.open(os.path.join(out, f))), np.asarray(Image.open(want[k]))
            mon.check(a.shape == b.shape and np.array_equal(a, b), "frame", (case["seed"], k), lambda: "frame %d does not show the plot after step %d" % (k, k))
    shutil.rmtree(work)


def suffix(k):
    return "" if k == 1 else str(k)


def plotly(case, mon, r):
    n, m = r.choice([1, 1, 2, 3]), r.choice([1, 1, 2, 3])
    three = r.random() < 0.5
    X, Y = grid(r, n, m, "x"), grid(r, n, m, "y")
    Z = grid(r, n, m, "z") if three else None
    T = grid(r, n, m, "title") if r.random() < 0.5 else None
    kw = {}
    if T is not None:
        kw["titles"] = form(r, T)
    if Z is not None:
        kw["zlabs"] = form(r, Z)
    p = PM.MakePlot(form(r, X), form(r, Y), **kw)
    rs = np.random.default_rng(case["seed"])
    multi = n * m > 1
    kinds3 = ["Surface", "Scatter3d", "Volume"]
    kinds2 = ["Scatter", "Histogram", "Contour", "Box", "Violin"]
    added = []
    for k in range(r.randrange(1, 6)):
        i, j = r.randrange(n), r.randrange(m)
        kind = r.choice(kinds3 if three else kinds2)
        A = rs.uniform(-5, 5, (3, 3))
        v = rs.uniform(-5, 5, 4)
        aslist = r.random() < 0.4
        c = (lambda a: a.tolist()) if aslist else (lambda a: a.copy())
        data = {"Surface": {"z": c(A)}, "Scatter3d": {"x": c(v), "y": c(v + 1), "z": c(v * 2)}, "Volume": {"x": c(v), "y": c(v + 1), "z": c(v * 2), "value": c(v * 3)},
                "Scatter": {"x": c(v), "y": c(v + 1)}, "Histogram": {"x": c(v)}, "Contour": {"z": c(A)}, "Box": {"y": c(v)}, "Violin": {"y": c(v)}}[kind]
        if kind == "Surface" and r.random() < 0.5:
            data["surfacecolor"] = c(A * 2)
        name = "trace%d" % k
        rc = {"row": i + 1, "col": j + 1} if multi else {}
        getattr(p, kind)(**rc, **data, name=name)
        added.append((name, kind, data, i * m + j + 1))
    lay = p.fig.layout

    def traces(what):
        mon.check([t.name for t in p.fig.data] == [a[0] for a in added], "traces", (case["seed"], what), lambda: "%s: the traces are %s" % (what, [t.name for t in p.fig.data]))
        for t, (name, kind, data, num) in zip(p.fig.data, added):
            where = (t.scene or "scene") if three else ((t.xaxis or "x"), (t.yaxis or "y"))
            exp = "scene" + suffix(num) if three else ("x" + suffix(num), "y" + suffix(num))
            mon.check(type(t).__name__ == kind and where == exp, "trace place", (case["seed"], what, name), lambda: "%s: %s is a %s at %s instead of a %s at %s" % (what, name, type(t).__name__, where, kind, exp))
            for f, v in data.items():
                mon.check(np.array_equal(np.asarray(t[f], dtype=float), np.asarray(v)), "trace data", (case["seed"], what, name, f), lambda: "%s: the data %s of %s were changed" % (what, f, kind))

    def names(what):
        for i in range(n):
            for j in range(m):
                k = suffix(i * m + j + 1)
                if three:
                    sc = lay["scene" + k]
                    got = [sc.xaxis.title.text, sc.yaxis.title.text, sc.zaxis.title.text]
                    want = [X[i][j], Y[i][j], Z[i][j]]
                else:
                    got = [lay["xaxis" + k].title.text, lay["yaxis" + k].title.text]
                    want = [X[i][j], Y[i][j]]
                mon.check(got == want, "Plotly labels", (case["seed"], what, i, j), lambda: "%s: position %s of %d x %d has labels %s instead of %s" % (what, (i, j), n, m, got, want), sample=str(want))
        if T is not None:
            if multi:
                got = [a.text for a in lay.annotations]
                want = [t for row in T for t in row]
                mon.check(got == want, "Plotly titles", (case["seed"], what), lambda: "%s: the titles are %s instead of %s" % (what, got, want))
                # each above its own subplot
                for k, a in enumerate(lay.annotations):
                    dom = (lay["scene" + suffix(k + 1)].domain.x, lay["scene" + suffix(k + 1)].domain.y) if three else (lay["xaxis" + suffix(k + 1)].domain, lay["yaxis" + suffix(k + 1)].domain)
                    mon.check(abs(a.x - (dom[0][0] + dom[0][1]) / 2) < 1e-6 and abs(a.y - dom[1][1]) < 1e-6, "Plotly title place", (case["seed"], what, k), lambda: "the title %r is at %s, its subplot at %s" % (a.text, (a.x, a.y), dom))
            else:
                mon.check(lay.title.text == T[0][0], "Plotly titles", (case["seed"], what), lambda: "%s: the title is %r instead of %r" % (what, lay.title.text, T[0][0]))
        # positions: row 0 on top, column 0 at the left
        for i in range(n):
            for j in range(m):
                if not multi:
                    continue
                k = suffix(i * m + j + 1)
                dx, dy = (lay["scene" + k].domain.x, lay["scene" + k].domain.y) if three else (lay["xaxis" + k].domain, lay["yaxis" + k].domain)
                cx, cy = sum(dx) / 2, sum(dy) / 2
                mon.check(int(cx * m) == j and int((1 - cy) * n) == i, "Plotly place", (case["seed"], what, i, j), lambda: "%s: subplot %s is centred at %s" % (what, (i, j), (cx, cy)))

    traces("new")
    names("new")
    if three:
        eyes = {k: None for k in range(1, n * m + 1)}
        dist = 2.5
        for _ in range(r.randrange(1, 4)):
            i, j = r.randrange(n), r.randrange(m)
            az, el = r.uniform(-180, 180), r.uniform(-90, 90)
            kw = {}
            if r.random() < 0.4:
                dist = kw["viewDistance"] = r.uniform(0.5, 4)
            if multi and r.random() < 0.8:
                p.view(az, el, i + 1, j + 1, **kw)
                num = i * m + j + 1
            else:
                p.view(az, el, **kw)
                num = 1
            a, e = np.radians(az), np.radians(el)
            eyes[num] = dist * np.array([-np.sin(a) * np.cos(e), -np.cos(a) * np.cos(e), np.sin(e)])
            for k, want in eyes.items():
                eye = lay["scene" + suffix(k)].camera.eye
                got = np.array([eye.x, eye.y, eye.z], dtype=object)
                ok = all(g is None for g in got) if want is None else (None not in got and np.allclose(got.astype(float), want, atol=1e-9))
                mon.check(ok, "view", (case["seed"], k), lambda: "after view(%s, %s) of subplot %s the eye of scene %d is %s instead of %s" % (az, el, num, k, got, want))
    scale(case, mon, r, p, added)
    traces("after options")
    names("after options")
    if r.random() < 0.6:
        work = tempfile.mkdtemp(dir=".")
        base = os.path.join(work, r.choice(["fig", "v1.2", "a b"]))
        if r.random() < 0.5:
            p.save(base, fileType="html", include_plotlyjs=False)
        else:
            p.save(base + ".html", include_plotlyjs=False)
        mon.check(listing(work) == [os.path.basename(base) + ".html"], "Plotly file", case["seed"], lambda: "the files are %s" % listing(work))
        text = open(base + ".html", encoding="utf-8").read()
        mon.check("<html" in text and "Plotly.newPlot" in text and all(a[0] in text for a in added), "Plotly file", (case["seed"], "content"), "the page does not contain the figure")
        shutil.rmtree(work)
    w, h = r.randrange(200, 900), r.randrange(200, 900)
    p.PartScreen(w, h, units="px")
    mon.check((lay.width, lay.height) == (w, h), "Plotly size", case["seed"], lambda: "the size is %s instead of %s" % ((lay.width, lay.height), (w, h)))
    traces("at the end")


class Screen:
    """Stand-in for tkinter.Tk: a screen of a known size."""
    size, mm = (1920, 1080), (508, 286)

    def __init__(self, *a, **k):
        pass

    def winfo_screenwidth(self):
        return self.size[0]

    def winfo_screenheight(self):
        return self.size[1]

    def winfo_screenmmwidth(self):
        return self.mm[0]

    def winfo_screenmmheight(self):
        return self.mm[1]

    def __getattr__(self, name):
        return lambda *a, **k: None


def picture(r, rs):
    """A rendered figure: a border of one colour round something else, opaque or not."""
    h, w = r.randrange(8, 40), r.randrange(8, 40)
    back = r.choice([(255, 255, 255, 255), (255, 255, 255, 0), (0, 0, 0, 255), (10, 20, 30, 128)])
    a = np.empty((h, w, 4), dtype=np.uint8)
    a[:] = back
    k = r.randrange(5)
    if k == 0:
        return a, a
    t, b, l, s = r.randrange(1, h - 3), r.randrange(1, 3), r.randrange(1, w - 3), r.randrange(1, 3)
    inner = a[t:h - b, l:w - s]
    if k == 1:      # a frame of one colour, differing from the border in one channel only
        inner[:, :, r.randrange(4)] ^= 64
    elif k == 2:    # a few points
        for y, x in ((0, r.randrange(inner.shape[1])), (inner.shape[0] - 1, r.randrange(inner.shape[1])), (r.randrange(inner.shape[0]), 0), (r.randrange(inner.shape[0]), inner.shape[1] - 1)):
            inner[y, x, :3] = [c ^ 200 for c in back[:3]]
    elif k == 3:    # grey levels, all opaque
        inner[:, :, :3] = (inner[:, :, :3].astype(int) + rs.integers(1, 200, inner.shape[:2])[:, :, None]) % 256
    else:
        inner[:] = rs.integers(0, 256, inner.shape)
        inner[0, :, 0] = inner[-1, :, 0] = (back[0] + 7) % 256
        inner[:, 0, 1] = inner[:, -1, 1] = (back[1] + 7) % 256
    return a, inner


def static(case, mon, r):
    """Static images, the screen and the upload, through stand-ins."""
    from PIL import Image
    rs = np.random.default_rng(case["seed"])
    work = tempfile.mkdtemp(dir=".")
    n, m = r.choice([1, 1, 2]), r.choice([1, 1, 2])
    p = PM.MakePlot(form(r, grid(r, n, m, "x")), form(r, grid(r, n, m, "y")))
    log = []
    whole, inner = picture(r, rs)

    def render(fmt, kw):
        log.append(("drawn", fmt, kw))
        if fmt == "png":
            b = io.BytesIO()
            Image.fromarray(whole).save(b, "png")
            return b.getvalue()
        return b"picture of type " + str(fmt).encode()

    def to_image(self, format=None, **kw):
        mon.seen("figure drawn", self is p.fig)
        return render(format or "png", kw)

    def write_image(self, file, format=None, **kw):
        name = os.fspath(file)
        with open(name, "wb") as f:
            f.write(render(format or name.rsplit(".", 1)[-1], kw))

    def crop(args):
        log.append(("crop", list(args)))

    def credentials(username=None, api_key=None, **kw):
        log.append(("credentials", dict(kw, username=username, api_key=api_key)))

    def upload(fig, **kw):
        log.append(("upload", fig is p.fig, kw))
        return "the address"

    import tkinter
    cls = type(p.fig)
    olds = (tkinter.Tk, cls.to_image, cls.write_image)
    pdfmod, cs = types.ModuleType("pdfCropMargins"), types.ModuleType("chart_studio")
    pdfmod.crop = crop
    cs.tools, cs.plotly = types.ModuleType("chart_studio.tools"), types.ModuleType("chart_studio.plotly")
    cs.tools.set_credentials_file, cs.plotly.plot = credentials, upload
    mods = {"pdfCropMargins": pdfmod, "chart_studio": cs, "chart_studio.tools": cs.tools, "chart_studio.plotly": cs.plotly}
    kept = {k: sys.modules.get(k) for k in mods}
    sys.modules.update(mods)
    tkinter.Tk, cls.to_image, cls.write_image = Screen, to_image, write_image
    try:
        names = []
        for i in range(5):
            t = r.choice(["png", "png", "pdf", "jpg", "svg", "eps"])
            base = os.path.join(work, r.choice(["fig", "v1.2", "a b", "x.png"]) + str(i))
            tight = r.random() < 0.6
            how = r.randrange(3)
            kw = r.choice([{}, {"width": 300}, {"scale": 2, "height": 200}])
            del log[:]
            args = {"tight": tight} if not tight or r.random() < 0.5 else {}
            if how == 0:
                p.save(base, fileType=t, **args, **kw)
                name = base + "." + t
            elif how == 1:
                name = base + "." + t
                p.save(name, **args, **kw)
            else:       # the type cannot be inferred
                t, name = "png", base + ".png"
                p.save(base, **args, **kw)
            names.append(os.path.basename(name))
            mon.check(listing(work) == sorted(names), "static files", (case["seed"], i), lambda: "there are %s instead of %s" % (listing(work), sorted(names)))
            drawn = [e for e in log if e[0] == "drawn"]
            mon.check(drawn == [("drawn", t, kw)], "static drawing", (case["seed"], i), lambda: "save(%r, tight=%s, type %s, %s) drew %s" % (base, tight, t, kw, drawn), sample="%s %s tight=%s" % (t, kw, tight))
            if t == "png":
                got = np.asarray(Image.open(name).convert("RGBA"))
                want = inner if tight else whole
                mon.check(got.shape == want.shape and np.array_equal(got, want), "cropped picture", (case["seed"], i), lambda: "saving a picture %s with the border colour %s and the content %s, tight=%s, gave one of %s" % (whole.shape, whole[0, 0], inner.shape, tight, got.shape))
            else:
                mon.check(open(name, "rb").read() == b"picture of type " + t.encode(), "static content", (case["seed"], i), lambda: "%s does not hold the %s picture" % (name, t))
            crops = [e[1] for e in log if e[0] == "crop"]
            ok = (len(crops) == 1 and crops[0][-1] == name and crops[0][:-1] == ["-p", "0"]) if t == "pdf" and tight else crops == []
            mon.check(ok, "pdf margins", (case["seed"], i), lambda: "saving %s with tight=%s cropped the margins of %s" % (name, tight, crops))
        Screen.size, Screen.mm = r.choice([((1920, 1080), (508, 286)), ((1280, 1024), (338, 270)), ((3840, 2160), (600, 340))])
        w, h = r.uniform(1, 9), r.uniform(1, 9)
        for units, f in (("in", 25.4), ("mm", 1.0), ("px", None)):
            a, b = (w, h) if units == "in" else (w * 30, h * 20)
            if units == "px":
                a, b = int(a), int(b)
            if units == "in" and r.random() < 0.5:
                p.PartScreen(a, b)
            else:
                p.PartScreen(a, b, units=units)
            want = (a, b) if f is None else (a * f * Screen.size[0] / Screen.mm[0], b * f * Screen.size[1] / Screen.mm[1])
            got = (p.fig.layout.width, p.fig.layout.height)
            mon.check(all(abs(x - y) <= 1.0 for x, y in zip(got, want)), "Plotly size", (case["seed"], units), lambda: "PartScreen(%s, %s, %s) on a screen of %s px and %s mm gives %s instead of about %s" % (a, b, units, Screen.size, Screen.mm, got, want))
        p.FullScreen()
        got = (p.fig.layout.width, p.fig.layout.height)
        mon.check(got == Screen.size, "full screen", (case["seed"], "Plotly"), lambda: "FullScreen on a screen of %s gives %s" % (Screen.size, got))
        q = MakePlot("x", "y")
        q.fig.set_dpi(r.choice([72, 100, 150]))
        q.FullScreen()
        got = q.fig.get_size_inches() * q.fig.get_dpi()
        mon.check(np.allclose(got, Screen.size, rtol=1e-9), "full screen", (case["seed"], "matplotlib"), lambda: "FullScreen on a screen of %s gives %s pixels" % (Screen.size, got))
        del log[:]
        auto = r.random() < 0.5
        ans = p.UploadToPlotly("me", "secret", "name 1", autoOpen=auto) if auto or r.random() < 0.5 else p.UploadToPlotly("me", "secret", "name 1")
        want = [("credentials", {"username": "me", "api_key": "secret"}), ("upload", True, {"filename": "name 1", "auto_open": auto})]
        mon.check(log == want and ans == "the address", "upload", case["seed"], lambda: "UploadToPlotly made the calls %s and returned %r" % (log, ans))
    finally:
        tkinter.Tk, cls.to_image, cls.write_image = olds
        for k, v in kept.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    shutil.rmtree(work)


def scale(case, mon, r, p, added):
    """Normalised colour scales."""
    kinds = {a[1] for a in added}
    types = [t for t in ("Surface", "Volume") if t in kinds and r.random() < 0.8]
    if not types:
        return
    before = {t.name: (t.cmin, t.cmax) if type(t).__name__ in ("Surface", "Volume") else None for t in p.fig.data}
    k = r.randrange(4)
    lo, hi = sorted((r.uniform(-9, 9), r.uniform(-9, 9)))
    if k == 0:
        p.NormalizeColorScale(types=types, cmin=lo, cmax=hi)
        want = (lo, hi)
    elif k == 1:
        p.NormalizeColorScale(types=types, cmin=lo)
        want = (lo, "same")
    elif k == 2:
        p.NormalizeColorScale(types=types, cmax=hi)
        want = ("same", hi)
    else:
        data = r.choice(["z", "surfacecolor", "value"])
        vals = [np.asarray(a[2][data]) for a in added if a[1] in types and data in a[2]]
        if not vals:
            return
        p.NormalizeColorScale(types=types, data=data)
        want = (min(v.min() for v in vals), max(v.max() for v in vals))
    for t in p.fig.data:
        if type(t).__name__ not in ("Surface", "Volume"):
            continue
        exp = before[t.name]
        if type(t).__name__ in types:
            exp = tuple(b if w == "same" else w for b, w in zip(exp, want))
        got = (t.cmin, t.cmax)
        mon.check(got == exp, "colour limits", (case["seed"], t.name), lambda: "NormalizeColorScale of %s: a %s has the limits %s instead of %s" % (types, type(t).__name__, got, exp))

"""The Mayavi helper, with a recording stand-in for Mayavi."""

import contextlib, io, os, shutil, sys, tempfile, types
import numpy as np
from .. import gen

PROPERTY = "C26"
NEEDS_EXT = False
RULE = ("One evaluation is one call that reached the stand-in for Mayavi, compared with the request (figure, data, colour, options, file), "
        "or one colour table compared with the linear gradient. Distinct: by method, arguments and history.")
REPEAT = 6
MIN_EVALS = 800
ASSUMPTIONS = ["mayavi is replaced by a module that records the calls it gets: nothing is drawn", "FullScreen is not exercised, since there is no screen"]

LOG = []
TYPES = ["png", "jpg", "bmp", "tiff", "ps", "eps", "pdf", "rib", "oogl", "iv", "wrl", "vrml", "obj", "x3d", "pov"]
COLORS = {"red": (1.0, 0.0, 0.0), "k": (0.0, 0.0, 0.0), "w": (1.0, 1.0, 1.0), "#ff8000": (1.0, 128 / 255, 0.0), "b": (0.0, 0.0, 1.0), "lime": (0.0, 1.0, 0.0),
          "0.5": (0.5, 0.5, 0.5), "#12345678": (0x12 / 255, 0x34 / 255, 0x56 / 255), "gold": (1.0, 215 / 255, 0.0), "navy": (0.0, 0.0, 128 / 255)}
ALPHA = {"#12345678": 0x78 / 255}
PLOTS = ["points3d", "plot3d", "surf", "quiver3d", "mesh", "contour3d"]


class Thing:
    """Anything Mayavi may hand out."""

    def __init__(self, kind):
        self.kind = kind


def setup():
    global MakePlot
    mlab = types.ModuleType("mayavi.mlab")

    def recorder(name):
        def f(*args, **kwargs):
            out = Thing(name)
            if name == "figure" and not args:
                out.scene = Thing("scene")
                out.scene.show_axes = False
            if name in PLOTS:
                out.module_manager = types.SimpleNamespace(scalar_lut_manager=types.SimpleNamespace(lut=types.SimpleNamespace(table=np.zeros((256, 4), dtype=np.uint8))))
            if name == "savefig":
                open(args[0] if args else kwargs["filename"], "w").write("picture")
            LOG.append((name, args, kwargs, out))
            if name == "animate":
                def start(*a, **k):
                    LOG.append(("animation started", a, k, out))
                    return out
                return start
            return out
        return f

    for n in PLOTS + ["figure", "savefig", "draw", "view", "animate", "show", "gcf", "clf"]:
        setattr(mlab, n, recorder(n))
    top = types.ModuleType("mayavi")
    top.mlab = mlab
    sys.modules["mayavi"], sys.modules["mayavi.mlab"] = top, mlab
    for path, cls in (("tools.animator", "Animator"), ("modules.glyph", "Glyph"), ("modules.surface", "Surface"), ("modules.vectors", "Vectors"),
                      ("modules.iso_surface", "IsoSurface")):
        a, b = path.split(".")
        pa = sys.modules.setdefault("mayavi." + a, types.ModuleType("mayavi." + a))
        pb = types.ModuleType("mayavi." + path)
        setattr(pb, cls, Thing)
        setattr(pa, b, pb)
        setattr(top, a, pa)
        sys.modules["mayavi." + path] = pb
    from tfc.utils.MayaviMakePlot import MakePlot


def cases(rng, tier):
    q = tier == "quick"
    out = [{"kind": k, "seed": s} for k, n in (("history", 30), ("colours", 12), ("files", 24), ("animate", 16)) for s in gen.seeds(rng, n if q else 12 * n)]
    rng.shuffle(out)
    return out


def quiet(f):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        out = f()
    return out, buf.getvalue()


def data(r):
    n = int(r.integers(1, 6))
    a = [r.standard_normal((n, 3) if r.integers(0, 2) else n) for _ in range(int(r.integers(1, 7)))]
    return a


def options(r):
    kw = {}
    for k, v in (("line_width", 2.0), ("opacity", 0.5), ("scale_factor", 0.1), ("name", "thing"), ("colormap", "jet"), ("tube_radius", None)):
        if r.integers(0, 3) == 0:
            kw[k] = v
    k = r.integers(0, 3)
    if k == 0:
        kw["color"] = list(COLORS)[int(r.integers(0, len(COLORS)))]
    elif k == 1:
        kw["color"] = tuple(float(v) for v in r.uniform(0, 1, 3))
    return kw


def same(a, b):
    return a is b or (type(a) is type(b) and np.array_equal(a, b))


def history(case, mon, r):
    del LOG[:]
    ps = []
    for step in range(25):
        key = (case["seed"], step)
        if not ps or r.integers(0, 8) == 0:
            p, _ = quiet(MakePlot)
            fig = [e for e in LOG if e[0] == "figure" and not e[1]][-1]
            mon.check(p.fig is fig[3] and p.scene is fig[3].scene, "figure", key, "a plot is not on the figure that was created for it")
            mon.check(tuple(fig[2].get("bgcolor", ())) == (1.0, 1.0, 1.0), "figure", key, lambda: "the background is %r instead of white" % (fig[2],))
            ps.append(p)
            continue
        p = ps[int(r.integers(0, len(ps)))]
        n0 = len(LOG)
        k = int(r.integers(0, 10))
        if k < 6:
            name = PLOTS[int(r.integers(0, len(PLOTS)))]
            a, kw = data(r), options(r)
            kw0, c = dict(kw), [v.copy() for v in a]
            out = getattr(p, name)(*a, **kw)
            mon.check(len(LOG) == n0 + 1 and LOG[-1][0] == name, "one call", key, lambda: "%s made the calls %s" % (name, [e[0] for e in LOG[n0:]]))
            _, args, kwargs, res = LOG[-1]
            mon.check(out is res, "result", key, lambda: "%s did not return what Mayavi returned" % name)
            mon.check(len(args) == len(a) and all(same(v, w) for v, w in zip(args, a)) and all(np.array_equal(v, w) for v, w in zip(a, c)), "data", key + (name,), lambda: "%s passed other data on" % name)
            mon.check(kwargs.get("figure") is p.fig, "own figure", key + (name,), lambda: "%s draws on another figure" % name)
            want = {q: v for q, v in kw0.items() if q != "color"}
            got = {q: v for q, v in kwargs.items() if q not in ("color", "figure")}
            mon.check(want == got, "options", key + (name,), lambda: "%s passes the options %r instead of %r" % (name, got, want))
            if "color" in kw0:
                w = COLORS[kw0["color"]] if isinstance(kw0["color"], str) else kw0["color"]
                g = kwargs.get("color")
                mon.check(isinstance(g, tuple) and len(g) == 3 and np.allclose(g, w, rtol=0, atol=1e-12), "colour", key + (name, str(kw0["color"])), lambda: "%s passes the colour %r for %r" % (name, g, kw0["color"]))
            else:
                mon.check("color" not in kwargs, "colour", key, lambda: "%s adds a colour" % name)
            mon.check(kw == kw0, "request unchanged", key, lambda: "%s changed its options" % name)
        elif k == 6:
            out = p.view(30.0, 40, distance=3.0)
            mon.check(len(LOG) == n0 + 1 and LOG[-1][0] == "view" and LOG[-1][1] == (30.0, 40) and LOG[-1][2].get("figure") is p.fig and LOG[-1][2].get("distance") == 3.0 and out is LOG[-1][3],
                      "view", key, lambda: "view made the calls %r" % (LOG[n0:],))
        elif k == 7:
            v = bool(r.integers(0, 2))
            others = [(q, q.show_axes) for q in ps if q is not p]
            p.show_axes = v
            mon.check(p.show_axes is v and p.fig.scene.show_axes is v and all(q.show_axes == w for q, w in others), "axes", key, "show_axes does not set the axes of its own scene")
        elif k == 8:
            out = p.show()
            mon.check(len(LOG) == n0 + 1 and LOG[-1][0] == "draw" and LOG[-1][2].get("figure", (LOG[-1][1] + (None,))[0]) is p.fig, "show", key, lambda: "show made the calls %r" % (LOG[n0:],))
        else:
            w, h = int(r.integers(10, 900)), int(r.integers(10, 900))
            p.PartScreen(w, h)
            e = LOG[-1]
            mon.check(len(LOG) == n0 + 1 and e[0] == "figure" and e[1][:1] == (p.fig,) and tuple(e[2].get("size", ())) == (w, h), "size", key, lambda: "PartScreen(%d, %d) made the calls %r" % (w, h, LOG[n0:]))


def colours(case, mon, r):
    def color():
        k = r.integers(0, 4)
        if k < 2:
            n = list(COLORS)[int(r.integers(0, len(COLORS)))]
            return n, np.array(COLORS[n] + (ALPHA.get(n, 1.0),))
        v = r.uniform(0, 1, 4)
        if r.integers(0, 3) == 0:
            v = np.round(v)
        return (tuple(float(q) for q in v) if k == 2 else v), v
    p, _ = quiet(MakePlot)
    for step in range(6):
        (a, va), (b, vb) = color(), color()
        keep = [np.array(v).copy() if not isinstance(v, str) else v for v in (a, b)]
        want = np.linspace(va * 255, vb * 255, 256)
        for way in ("table", "object"):
            if way == "table":
                t = MakePlot.ColormapGradient(a, b)
            else:
                obj, other = p.surf(np.zeros(3)), p.surf(np.zeros(3))
                MakePlot.SetColormapGradient(obj, a, b)
                t = obj.module_manager.scalar_lut_manager.lut.table
                mon.check(not np.any(other.module_manager.scalar_lut_manager.lut.table), "other object", (case["seed"], step), "the colours of another object changed")
            t = np.asarray(t)
            key = (case["seed"], step, way, str(a), str(b))
            mon.check(t.shape == (256, 4) and t.dtype == np.uint8, "colour table", key, lambda: "the table from %r to %r is %s of %s" % (a, b, t.shape, t.dtype))
            mon.check(bool(np.all(np.abs(t.astype(float) - want) <= 1.0 + 1e-9)), "colour table", key, lambda: "the table from %r to %r holds %s and %s at its ends instead of %s and %s"
                      % (a, b, t[0], t[-1], want[0], want[-1]), sample="%r to %r" % (a, b))
            mon.check(bool(np.all(np.diff(t.astype(int), axis=0) * np.sign(vb - va) >= 0)), "monotone", key, lambda: "the table from %r to %r is not monotone" % (a, b))
        mon.check(all(k == v if isinstance(v, str) else np.array_equal(k, np.array(v)) for k, v in zip(keep, (a, b))), "request unchanged", key, "a colour that was given changed")


def files(case, mon, r):
    p, _ = quiet(MakePlot)
    q, _ = quiet(MakePlot)
    for step in range(6):
        base = ["fig", "my fig", "a.b", "fig.v2", "sub/fig", "x.PNG", "x.jpeg", ".hidden", "pdf", "x.", "data.png.bak", "x.svg"][int(r.integers(0, 12))]
        os.makedirs("sub", exist_ok=True)
        k = int(r.integers(0, 3))
        if k == 0:
            ty = TYPES[int(r.integers(0, len(TYPES)))]
            args, kw, want, warn = (base,), {"fileType": ty}, base + "." + ty, False
            if r.integers(0, 2):
                args, kw = (base, ty), {}
        elif k == 1:
            ty = TYPES[int(r.integers(0, len(TYPES)))]
            args, kw, want, warn = (base.rstrip(".") + "." + ty,), {}, base.rstrip(".") + "." + ty, False
        else:
            args, kw, want, warn = (base,), {}, base + ".pdf", True
        n0 = len(LOG)
        _, text = quiet(lambda: p.save(*args, **kw))
        e = LOG[-1]
        key = (case["seed"], step, want)
        name = (e[1] + (None,))[0] if e[1] else e[2].get("filename")
        mon.check(len(LOG) == n0 + 1 and e[0] == "savefig" and name == want, "file", key, lambda: "save%r writes %r instead of %r" % (args + tuple(kw.values()), name, want), sample=want)
        mon.check(e[2].get("figure") is p.fig, "own figure", key, "save writes another figure")
        mon.check(bool(text.strip()) == warn, "warning", key, lambda: "save%r printed %r" % (args, text))


def animate(case, mon, r):
    p, _ = quiet(MakePlot)
    box = tempfile.mkdtemp(dir=os.getcwd())
    here = os.getcwd()
    os.chdir(box)
    try:
        n = int(r.choice([0, 1, 2, 5, 13, 101]))
        steps = []

        def anim():
            for k in range(n):
                steps.append((k, len([e for e in LOG if e[0] == "savefig"])))
                yield

        if r.integers(0, 3):
            kw = {}
            d, f = "MyMovie", "images"
            if r.integers(0, 2):
                d = kw["outDir"] = ["frames", os.path.join(box, "abs dir"), "MyMovie"][int(r.integers(0, 3))]
            if r.integers(0, 2):
                f = kw["fileName"] = ["im", "frame_", "a b"][int(r.integers(0, 3))]
            if r.integers(0, 2):
                kw["save"] = True
            if r.integers(0, 2):
                os.mkdir(d)
                open(os.path.join(d, "earlier"), "w").write("kept")
            n0 = len(LOG)
            s0 = len([e for e in LOG if e[0] == "savefig"])
            _, text = quiet(lambda: p.animate(anim, **kw))
            saved = [e for e in LOG[n0:] if e[0] == "savefig"]
            want = [os.path.join(d, "%s%06d.png" % (f, k)) for k in range(n)]
            got = [(e[1] + (None,))[0] if e[1] else e[2].get("filename") for e in saved]
            key = (case["seed"], n, d, f)
            mon.check([os.path.normpath(os.path.join(box, str(g))) for g in got] == [os.path.normpath(os.path.join(box, w)) for w in want], "frames", key, lambda: "%d steps were saved as %s" % (n, got), sample="%d frames" % n)
            mon.check(all(e[2].get("figure") is p.fig for e in saved), "own figure", key, "a frame of another figure was saved")
            mon.check([s for s, _ in steps] == list(range(n)) and all(c - s0 == s for s, c in steps), "order", key, lambda: "steps and saved frames do not alternate: %s" % (steps,))
            mon.check(os.path.isdir(d), "directory", key, lambda: "%s does not exist" % d)
            have = sorted(v for v in os.listdir(d) if v != "earlier")
            mon.check(have == sorted(os.path.basename(w) for w in want), "files", key, lambda: "the directory holds %s" % have)
            mon.check("ffmpeg" in text and f in text and d in text, "hint", key, lambda: "printed: %r" % text)
        else:
            delay = int(r.integers(10, 1000))
            kw = {"delay": delay} if r.integers(0, 2) else {}
            n0 = len(LOG)
            out, text = quiet(lambda: p.animate(anim, save=False, **kw))
            names = [e[0] for e in LOG[n0:]]
            key = (case["seed"], "no save", delay)
            mon.check(names == ["animate", "animation started"], "animation", key, lambda: "calls %s" % names)
            e = LOG[n0]
            fn = e[2].get("func", (e[1] + (None,))[0])
            mon.check(fn is anim and e[2].get("delay") == kw.get("delay", 10) and out is LOG[-1][3], "animation", key, lambda: "animate was asked for %r" % (e[1:3],))
            mon.check(os.listdir(box) == [], "no files", key, "files were written without save")
    finally:
        os.chdir(here)
        shutil.rmtree(box, ignore_errors=True)


def run(case, mon):
    {"history": history, "colours": colours, "files": files, "animate": animate}[case["kind"]](case, mon, gen.rng(case))

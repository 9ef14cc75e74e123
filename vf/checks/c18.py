"""Component constraint graphs against an independent search for cycles, and the files they write."""

import html.parser, itertools, os, pathlib, re, tempfile, urllib.parse
import xml.etree.ElementTree as ET
import numpy as np
from .. import gen

PROPERTY = "C18"
NEEDS_EXT = False
RULE = ("One evaluation is the judgement of one orientation of one multigraph (listed as good or not, against a depth-first search), or "
        "of one drawing or page written by SaveGraphs. Distinct: by graph and orientation; drawings by graph and tree.")
REPEAT = 3
MIN_EVALS = 2000
ASSUMPTIONS = ["edges join two distinct nodes", "names without the characters that Graphviz gives a meaning (colon, backslash, angle brackets)"]

NAMES = ["u", "v", "w", "x1", "T_c", "rho", "Ψ", "node", "p q", "graph", "v'", "7", "a&b"]
ENAMES = ["c0", "inner product", "κ1", "bc & ic", "f(u,v)=0", "edge", "", "u", "1.5"]


def setup():
    global CCG
    from tfc.utils import ComponentConstraintGraph as CCG


def cases(rng, tier):
    q = tier == "quick"
    out = [{"kind": "random", "seed": s} for s in gen.seeds(rng, 150 if q else 1500)]
    out += [{"kind": "save", "seed": s, "all": a} for a in (False, True) for s in gen.seeds(rng, 14 if q else 120)]
    # many drawings, also full rows of them
    out += [{"kind": "save", "seed": s, "all": a, "ring": k} for (k, a), s in zip(((5, False), (5, True), (4, True), (4, False), (6, True), (6, False)) + (() if q else ((7, True),)), gen.seeds(rng, 7))]
    # every multigraph on up to 3 nodes with up to 4 edges (5 when thorough), every way of naming the ends of its edges
    for n in (1, 2, 3):
        pairs = list(itertools.permutations(range(n), 2))
        for m in range(0, (4 if q else 5) + 1):
            combos = list(itertools.combinations_with_replacement(pairs, m)) if pairs else ([()] if m == 0 else [])
            for i in range(0, len(combos), 40):
                out.append({"kind": "small", "n": n, "combos": combos[i:i + 40]})
    rng.shuffle(out)
    return out


def acyclic(n, arcs):
    """Depth-first search."""
    out = [[] for _ in range(n)]
    for a, b in arcs:
        out[a].append(b)
    state = [0] * n

    def visit(v):
        if state[v] == 1:
            return False
        if state[v] == 2:
            return True
        state[v] = 1
        ok = all(visit(w) for w in out[v])
        state[v] = 2
        return ok

    return all(visit(v) for v in range(n))


def judge(mon, names, edges, enames, g):
    n, m = len(names), len(edges)
    E = [{"name": a, "node0": names[i], "node1": names[j]} for a, (i, j) in zip(enames, edges)]
    targets = [tuple(int(v) for v in t) for t in g.targets]
    key = (n, tuple(edges))
    mon.check(len(targets) == 2 ** m and set(targets) == set(itertools.product((0, 1), repeat=m)), "orientations listed", key, lambda: "%d targets, %d of them different, for %d edges" % (len(targets), len(set(targets)), m))
    good = [int(v) for v in g.goodTargets]
    mon.check(good == sorted(set(good)) and all(0 <= v < len(targets) for v in good), "increasing", key, lambda: "goodTargets are %s" % good)
    for k, t in enumerate(targets):
        arcs = [(i, j) if not b else (j, i) for b, (i, j) in zip(t, edges)]
        want = acyclic(n, arcs)
        mon.check((k in good) == want, "orientation", (key, t), lambda: "nodes %s, edges %s: orientation %s is %s as valid, but its arcs %s have %s cycle" % (
            names, E, t, "listed" if k in good else "not listed", [(names[a], names[b]) for a, b in arcs], "no" if want else "a"), sample="%d nodes, arcs %s: %s" % (n, arcs, want))


def graph(r, n, m):
    edges = []
    while len(edges) < m:
        a, b = (int(v) for v in r.integers(0, n, 2))
        if a != b:
            edges.append((a, b))
    return edges


def run(case, mon):
    if case["kind"] == "small":
        names = ["a", "b", "c"][:case["n"]]
        for edges in case["combos"]:
            edges = [tuple(e) for e in edges]
            en = ["e%d" % i for i in range(len(edges))]
            g = CCG(list(names), [{"name": a, "node0": names[i], "node1": names[j]} for a, (i, j) in zip(en, edges)])
            judge(mon, names, edges, en, g)
        return
    r = gen.rng(case)
    save = case["kind"] == "save"
    n = int(r.integers(1, 11)) if not save else int(r.integers(1, 5))
    m = int(r.integers(0, 10)) if not save else int(r.integers(0, 5))
    if n == 1:
        m = 0
    if not save and r.integers(0, 3) == 0 and n >= 3:
        # one long cycle, and a few more edges
        edges = [(i, (i + 1) % n) for i in range(n)] + graph(r, n, int(r.integers(0, 2)))
        edges = [(b, a) if r.integers(0, 2) else (a, b) for a, b in edges]
        edges = [edges[int(i)] for i in r.permutation(len(edges))]
    else:
        edges = graph(r, n, m)
    if case.get("ring"):
        n = case["ring"]
        edges = [(i, (i + 1) % n) for i in range(n)]
    names = [NAMES[int(i)] for i in r.permutation(len(NAMES))[:n]]
    en = [ENAMES[int(i)] for i in r.integers(0, len(ENAMES), len(edges))]
    N = list(names)
    E = [{"name": a, "node0": names[i], "node1": names[j]} for a, (i, j) in zip(en, edges)]
    before = repr((N, E))
    g = CCG(N, E)
    judge(mon, names, edges, en, g)
    if save:
        files(case, mon, r, g, names, edges, en)
    mon.check(repr((N, E)) == before, "arguments", case["seed"], "the lists given to the constructor were changed")


class Links(html.parser.HTMLParser):
    def __init__(self, text):
        super().__init__()
        self.hrefs, self.titles, self.imgs, self.maps = [], [], [], []
        self.feed(text)

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == "area":
            self.hrefs.append(a.get("href"))
            self.titles.append(a.get("title"))
        if tag == "img":
            self.imgs.append((a.get("src"), a.get("usemap")))
        if tag == "map":
            self.maps.append(a.get("name"))


def drawing(path):
    """Nodes and arcs of an SVG by Graphviz: names of the boxes, and (tail, head, label)."""
    ns = "{http://www.w3.org/2000/svg}"
    nodes, arcs = [], []
    for gr in ET.parse(path).getroot().iter(ns + "g"):
        title = gr.findtext(ns + "title") or ""
        text = " ".join("".join(t.itertext()) for t in gr.findall(".//" + ns + "text"))
        if gr.get("class") == "node":
            nodes.append((title, text))
        if gr.get("class") == "edge":
            arcs.append((title, text, gr.find(".//" + ns + "polygon") is not None))
    return nodes, arcs


def norm(s):
    return " ".join(s.replace("\xa0", " ").split())


def files(case, mon, r, g, names, edges, en):
    work = tempfile.mkdtemp(dir=".")
    out = os.path.join(work, ["out", "a b", os.path.join("deep", "er")][int(r.integers(0, 3))])
    if r.integers(0, 3) == 0:
        os.makedirs(out)
    pdf = bool(r.integers(0, 6) == 0)
    arg = pathlib.Path(out) if r.integers(0, 2) else out
    if r.integers(0, 2):
        # as many pages and drawings of another graph are already there
        CCG(list(names), [{"name": a, "node0": names[j], "node1": names[i]} for a, (i, j) in zip(en[::-1], edges)]).SaveGraphs(out, allGraphs=case["all"])
    if case["all"]:
        g.SaveGraphs(arg, allGraphs=True, savePDFs=pdf)
        chosen = [tuple(t) for t in g.targets]
    else:
        g.SaveGraphs(arg, savePDFs=pdf)
        chosen = [tuple(g.targets[k]) for k in g.goodTargets]
    n = len(chosen)
    key = case["seed"]
    got = sorted(os.path.relpath(os.path.join(d, f), out) for d, _, fs in os.walk(out) for f in fs)
    pages = sorted(f for f in got if f.endswith(".html"))
    mon.check(pages == sorted(["main.html"] + ["htmlFiles/tree%d.html" % k for k in range(n)]), "pages", key, lambda: "%d orientations, but the pages are %s" % (n, pages))
    svgs = sorted(f for f in got if f.endswith(".svg"))
    mon.check(svgs == sorted(["dotFiles/main.svg"] + ["dotFiles/tree%d.svg" % k for k in range(n)]), "drawings", key, lambda: "%d orientations, but the drawings are %s" % (n, svgs))
    pdfs = [f for f in got if f.endswith(".pdf")]
    mon.check(len([f for f in pdfs if "tree" in f]) == (n if pdf else 0), "PDFs", key, lambda: "savePDFs=%s wrote %s" % (pdf, pdfs))
    main = Links(open(os.path.join(out, "main.html"), encoding="utf-8").read())
    links = [os.path.normpath(urllib.parse.unquote(h)) for h in main.hrefs]
    mon.check(sorted(links) == sorted("htmlFiles/tree%d.html" % k for k in range(n)), "index links", key, lambda: "the index links %s" % links)
    num = lambda v: re.findall(r"\d+", v or "")[-1:]
    mon.check(all(num(t) == num(os.path.basename(h)) for t, h in zip(main.titles, links)), "index titles", key, lambda: "the index links %s as %s" % (links, main.titles))
    mon.check([s for s, _ in main.imgs] == ["dotFiles/main.svg"] and ["#" + v for v in main.maps] == [u for _, u in main.imgs], "index image", key, lambda: "the index shows %s with the maps %s" % (main.imgs, main.maps))
    mnodes, _ = drawing(os.path.join(out, "dotFiles", "main.svg"))
    mon.check(sorted(t for t, _ in mnodes) == sorted("tree%d" % k for k in range(n)), "index drawing", key, lambda: "the index drawing shows %s" % mnodes)
    mon.check(all(num(t) == num(l) for t, l in mnodes), "index drawing", key, lambda: "the index drawing shows %s" % mnodes)
    shown = []
    for k in range(n):
        page = Links(open(os.path.join(out, "htmlFiles", "tree%d.html" % k), encoding="utf-8").read())
        src = [os.path.normpath(os.path.join("htmlFiles", s)) for s, _ in page.imgs]
        mon.check(src == ["dotFiles/tree%d.svg" % k], "page image", (key, k), lambda: "page %d shows %s" % (k, src))
        nodes, arcs = drawing(os.path.join(out, "dotFiles", "tree%d.svg" % k))
        mon.check(sorted(norm(t) for _, t in nodes) == sorted(norm(v) for v in names), "boxes", (key, k), lambda: "drawing %d shows the nodes %s instead of %s" % (k, nodes, names))
        shown.append(sorted((norm(t), norm(l)) for t, l, _ in arcs))
        want = sorted((norm("%s->%s" % ((names[i], names[j]) if not b else (names[j], names[i]))), norm(e)) for b, (i, j), e in zip(chosen[k], edges, en))
        mon.check(shown[-1] == want and all(a for *_, a in arcs), "arrows", (key, k, chosen[k]), lambda: "drawing %d for %s shows %s instead of %s" % (k, chosen[k], arcs, want), sample="%s" % (want,))

"""The simulated world of the Python level: real geomap module and real maputils/statistics, seeded maps, operations chosen by index, canonical dumps."""
import hashlib, io, math, os, random, sys

sys.path[:0] = [os.environ["SIM_PYMOD"], os.path.join(os.environ["SIM_PYSRC"], "maputils"), os.path.join(os.environ["SIM_PYSRC"], "utils")]

import numpy, vigra
import geomap

# The project's Python code is Python 2: give the wrapped iterators the Python 3 name of next() (nothing else is changed).
for _scope in (geomap, geomap.GeoMap, geomap.LabelLUT):
    for _c in list(vars(_scope).values()):
        if isinstance(_c, type) and hasattr(_c, "next") and not hasattr(_c, "__next__"):
            _c.__next__ = _c.next

import maputils, statistics, flag_constants


class Violation(Exception):
    def __init__(self, cls, detail):
        Exception.__init__(self, "%s: %s" % (cls, detail))
        self.cls, self.detail = cls, " ".join(str(detail).split())[:500]


class Sim:
    """log, counters and coverage measures of one run"""
    def __init__(self, verbose=False):
        self.h = hashlib.sha1(); self.events = 0; self.verbose = verbose
        self.n = {}; self.sigs = set(); self.states = set(); self.lines = []

    def log(self, *a):
        s = " ".join(str(x) for x in a)
        self.h.update(s.encode()); self.h.update(b"\n"); self.events += 1
        if self.verbose:
            OUT.write("  %s\n" % s)

    def count(self, k, v=1):
        self.n[k] = self.n.get(k, 0) + v

    def sig(self, s):
        self.sigs.add(s)

    def state(self, d):
        self.states.add(hashlib.sha1(repr(d).encode()).hexdigest()[:12])


OUT = sys.stdout


class Quiet(io.TextIOBase):
    def write(self, s):
        return len(s)


# -------------------------------------------------------------------------------------------------- maps

def label_image(rng, w, h, n):
    l = numpy.zeros((w, h), numpy.int32)
    for i in range(n):
        x0, y0 = rng.randrange(w), rng.randrange(h)
        x1, y1 = min(w, x0 + rng.randrange(1, 5)), min(h, y0 + rng.randrange(1, 5))
        l[x0:x1, y0:y1] = rng.randrange(0, 5)
    return l


def touching(m):
    """two edges (or one edge twice) pass through the same point without a node there: not a planar embedding"""
    seen = set(tuple(n.position()) for n in m.nodeIter())
    for e in m.edgeIter():
        for p in list(e)[1:-1]:
            if tuple(p) in seen:
                return True
            seen.add(tuple(p))
    return False


def crack_map(rng, w, h, n, eight):
    l = vigra.taggedView(label_image(rng, w, h, n), "xy")
    m = geomap.crackEdgeGraph(l, bool(eight))
    if eight and touching(m):
        m = geomap.crackEdgeGraph(l, False)
    return m


def grid_geometry(rng, w, h, miss, loops, integer=False):
    """(node positions, edges [(start, end, points)]) of a jittered grid with missing edges, midpoints, loops and dangling edges"""
    S = 3.0
    pos = {}
    nodes = []
    for y in range(h + 1):
        for x in range(w + 1):
            j = (lambda: 0.0) if integer else (lambda: (rng.randrange(7) - 3) / 10.0)
            pos[x, y] = len(nodes)
            # (the offset keeps points away from pixel boundaries, where rounding decides which pixels an edge covers)
            nodes.append((1.0166015625 + S * x + j(), 1.0166015625 + S * y + j()))
    edges = []
    for y in range(h + 1):
        for x in range(w + 1):
            for dx, dy in ((1, 0), (0, 1)):
                if (x + dx, y + dy) not in pos or rng.random() < miss:
                    continue
                a, b = pos[x, y], pos[x + dx, y + dy]
                if rng.random() < 0.5:
                    a, b = b, a
                p, q = nodes[a], nodes[b]
                pts = [p]
                for k in range(rng.choice((0, 0, 1, 1, 2, 3))):
                    pts.append(None)
                n = len(pts)
                for k in range(1, n):
                    t = k / float(n)
                    o = (rng.randrange(5) - 2) / 10.0
                    pts[k] = (p[0] + t * (q[0] - p[0]) + dy * o, p[1] + t * (q[1] - p[1]) + dx * o)
                pts.append(q)
                edges.append((a, b, pts))
            if x < w and y < h and rng.random() < loops:
                p = nodes[pos[x, y]]
                k = rng.random()
                if k < 0.5:
                    pts = [p, (p[0] + 0.95, p[1] + 0.65), (p[0] + 0.65, p[1] + 0.95), p]
                    if rng.random() < 0.5:
                        pts.reverse()
                    edges.append((pos[x, y], pos[x, y], pts))
                else:  # a dangling edge, or an isolated triangle in the cell
                    c = (p[0] + 1.4, p[1] + 1.4)
                    nodes.append(c)
                    m = len(nodes) - 1
                    if k < 0.75:
                        edges.append((pos[x, y], m, [p, c]))
                    else:
                        edges.append((m, m, [c, (c[0] + 0.35, c[1]), (c[0] + 0.1, c[1] + 0.35), c]))
    return nodes, edges


def rings_geometry(rng, n, size):
    """closed curves around each other, some of them close together, some of them connected"""
    k = rng.randrange(4, 9)
    c = (size / 2.0 + rng.random() * 0.4, size / 2.0 + rng.random() * 0.4)
    rad = [size * (0.3 + 0.18 * rng.random()) for i in range(k)]
    t0 = rng.random()
    ang = [2 * math.pi * (i + t0 + 0.4 * rng.random()) / k for i in range(k)]
    scale, x = [], 1.0
    for i in range(n):
        scale.append(x)
        x *= 1 - rng.choice((0.03, 0.06, 0.15, 0.3))
    pts = [[(c[0] + s * r * math.cos(a), c[1] + s * r * math.sin(a)) for r, a in zip(rad, ang)] for s in scale]
    at = [set([rng.randrange(k)] + [rng.randrange(k) for j in range(rng.choice((0, 0, 1, 2)))]) for i in range(n)]
    link = []
    for i in range(n - 1):
        if rng.random() < 0.3:
            v = rng.randrange(k)
            at[i].add(v); at[i + 1].add(v)
            link.append((i, v))
    nodes, edges, num = [], [], {}
    for i in range(n):
        for v in sorted(at[i]):
            num[i, v] = len(nodes); nodes.append(pts[i][v])
    for i in range(n):
        vs = sorted(at[i])
        for j, v in enumerate(vs):
            e = [v]
            while len(e) == 1 or e[-1] not in at[i]:
                e.append((e[-1] + 1) % k)
            q = [pts[i][x] for x in e]
            if rng.random() < 0.5:
                q.reverse(); e.reverse()
            edges.append((num[i, e[0]], num[i, e[-1]], q))
    for i, v in link:
        edges.append((num[i, v], num[i + 1, v], [pts[i][v], pts[i + 1][v]]))
    rng.shuffle(edges)
    return nodes, edges


def build_graph(words):
    """map description of the script -> graph (not yet initialised)"""
    kind, seed = words[0], int(words[1])
    rng = random.Random(seed)
    a = [int(x) for x in words[2:]]
    if kind == "crack":
        return crack_map(rng, a[0], a[1], a[2], a[3])
    if kind == "rings":
        nodes, edges = rings_geometry(rng, a[0], a[1])
        return geomap.GeoMap(nodes, [None] + edges, (a[1] + 1, a[1] + 1))
    nodes, edges = grid_geometry(rng, a[0], a[1], a[2] / 100.0, a[3] / 100.0)
    return geomap.GeoMap(nodes, [None] + edges, (3 * a[0] + 4, 3 * a[1] + 4))


def build_map(words, label_image=True):
    m = build_graph(words)
    if not m.edgesSorted():
        m.sortEdgesDirectly()
    m.initializeMap(label_image)
    return m


def gen_map(rng, small=False):
    if rng.random() < 0.08:
        return gen_rings(rng)
    if rng.random() < 0.4:
        return "crack %d %d %d %d %d" % (rng.randrange(1 << 30), rng.randrange(3, 8 if small else 11), rng.randrange(3, 7 if small else 9), rng.randrange(1, 9), rng.randrange(2))
    return "grid %d %d %d %d %d" % (rng.randrange(1 << 30), rng.randrange(1, 4 if small else 5), rng.randrange(1, 3 if small else 5), rng.choice((0, 10, 20, 35)), rng.choice((0, 10, 30)))


def gen_rings(rng):
    return "rings %d %d %d" % (rng.randrange(1 << 30), rng.randrange(1, 6), rng.choice((6, 9, 14, 20)))


# -------------------------------------------------------------------------------------------------- dumps

def rot(l):
    i = l.index(min(l))
    return tuple(l[i:] + l[:i])


def phi(dart):
    return rot([d.label() for d in dart.phiOrbit()])


def r6(x):
    return round(float(x), 6) + 0.0


def dump(m, faces=True, labels=True):
    """everything observable about a map, in canonical form (independent of anchors and iteration order)"""
    d = {"size": (m.imageSize()[0], m.imageSize()[1]), "sorted": m.edgesSorted(), "init": m.mapInitialized(),
         "counts": (m.nodeCount, m.edgeCount, m.faceCount if m.mapInitialized() else None)}
    if labels:
        d["max"] = (m.maxNodeLabel(), m.maxEdgeLabel(), m.maxFaceLabel() if m.mapInitialized() else None)
    d["nodes"] = tuple((n.label(), tuple(n.position()), n.degree() if m.edgesSorted() else None,
                        () if n.isIsolated() else (rot([x.label() for x in n.anchor().sigmaOrbit()]) if m.edgesSorted() else None)) for n in m.nodeIter())
    d["edges"] = tuple((e.label(), e.startNodeLabel(), e.endNodeLabel(), e.flags(), tuple(tuple(p) for p in e),
                        (e.leftFaceLabel(), e.rightFaceLabel()) if m.mapInitialized() else None) for e in m.edgeIter())
    if m.mapInitialized() and faces:
        fs = []
        for f in m.faceIter():
            cs = [phi(c) for c in f.contours()]
            hs = sorted(phi(c) for c in f.holeContours())
            outer = sorted(set(cs) - set(hs))
            fs.append((f.label(), f.flags() & 0x0fffffff, tuple(outer), tuple(hs), len(cs), r6(f.area()) if f.label() or cs else None,
                       f.pixelArea() if m.hasLabelImage() else None, None if not f.label() else str(f.boundingBox())))
        d["faces"] = tuple(fs)
        d["haslabels"] = m.hasLabelImage()
        if m.hasLabelImage():
            li = m.labelImage()
            a = numpy.array(li).reshape(d["size"][1], d["size"][0]) if numpy.array(li).size else numpy.zeros((0,))
            d["labels"] = a.astype(int).tobytes()
    return d


def diff(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            x, y = a.get(k), b.get(k)
            if isinstance(x, tuple) and isinstance(y, tuple):
                dx = [v for v in x if v not in y][:2]; dy = [v for v in y if v not in x][:2]
                return "%s: %s vs %s" % (k, dx or len(x), dy or len(y))
            return "%s: %s vs %s" % (k, str(x)[:120], str(y)[:120])
    return None


def without_isolated(d):
    d = dict(d)
    d["nodes"] = tuple(n for n in d["nodes"] if n[3])
    d["counts"] = d["counts"][1:]
    return d


# -------------------------------------------------------------------------------------------------- operations

def edges(m):
    return [e for e in m.edgeIter()]


def pick(l, k):
    return l[k % len(l)] if l else None


def darts_between(m, inner=False):
    return [l for e in m.edgeIter() if e.leftFaceLabel() != e.rightFaceLabel() and not (inner and 0 in (e.leftFaceLabel(), e.rightFaceLabel()))
            for l in (e.label(), -e.label())]


def bridge_darts(m):
    return [l for e in m.edgeIter() if e.leftFaceLabel() == e.rightFaceLabel() for l in (e.label(), -e.label())]


def degree2_darts(m):
    r = []
    for n in m.nodeIter():
        if not n.isIsolated() and n.hasDegree(2):
            ds = sorted(x.label() for x in n.anchor().sigmaOrbit())  # (anchors are arbitrary)
            if abs(ds[0]) != abs(ds[1]):
                r += ds
    return r


def isolated(m):
    return [n.label() for n in m.nodeIter() if n.isIsolated()]


def apply_op(m, w, inner=False):
    """performs one operation of the script on the map; returns a description of the outcome, or None if nothing is eligible"""
    k = w[0]; a = [int(x) for x in w[1:]]
    if k == "mf":
        l = pick(darts_between(m, inner), a[0])
        return None if l is None else ("mf", l, name(m.mergeFaces(m.dart(l))))
    if k == "mfc":
        l = pick(darts_between(m, inner), a[0])
        return None if l is None else ("mfc", l, name(geomap.mergeFacesCompletely(m.dart(l), bool(a[1]))))
    if k == "rb":
        l = pick(bridge_darts(m), a[0])
        return None if l is None else ("rb", l, name(m.removeBridge(m.dart(l))))
    if k == "me":
        l = pick(degree2_darts(m), a[0])
        return None if l is None else ("me", l, name(m.mergeEdges(m.dart(l))))
    if k == "rin":
        l = pick(isolated(m), a[0])
        return None if l is None else ("rin", l, bool(m.removeIsolatedNode(m.node(l))))
    if k == "sp":
        e = pick(edges(m), a[0])
        if e is None:
            return None
        pts = [tuple(p) for p in e]
        cand = [("p", i) for i in range(1, len(pts) - 1)] + [("n", i) for i in range(len(pts) - 1) if exact_mid(pts[i], pts[i + 1])]
        c = pick(cand, a[1])
        if c is None:
            return None
        l = e.label()
        if c[0] == "p":
            r = m.splitEdge(e, c[1])
        else:
            i = c[1]
            r = m.splitEdge(e, i, exact_mid(pts[i], pts[i + 1]))
        return ("sp", l, c, name(r))
    if k == "bulk":
        f = (geomap.mergeDegree2Nodes, geomap.removeBridges, geomap.removeIsolatedNodes)[a[0] % 3]
        return (f.__name__, f(m))
    if k == "res":
        ls = [e.label() for e in m.edgeIter() if not inner or 0 not in (e.leftFaceLabel(), e.rightFaceLabel())]
        sel = sorted(set(pick(ls, x) for x in a)) if ls else []
        return ("res", tuple(sel), geomap.removeEdges(m, sel))
    if k == "efl":
        e = pick(edges(m), a[0])
        if e is None:
            return None
        e.setFlag(1 << (a[1] % 12), bool(a[2]))
        return ("efl", e.label(), e.flags())
    if k == "ffl":
        fs = [f for f in m.faceIter()]
        f = pick(fs, a[0])
        f.setFlag(1 << (a[1] % 12), bool(a[2]))
        return ("ffl", f.label(), f.flags() & 0x0fffffff)
    raise ValueError(w)


def exact_mid(p, q):
    """a point exactly between p and q (in floating point), so that a split does not move the edge"""
    m = ((p[0] + q[0]) / 2, (p[1] + q[1]) / 2)
    if m == p or m == q:
        return None
    if p[0] == q[0] or p[1] == q[1]:
        return m
    return m if (m[0] - p[0]) * (q[1] - p[1]) == (m[1] - p[1]) * (q[0] - p[0]) else None


def name(c):
    if c is None:
        return None
    return c.label()


BIG = 1 << 20


def gen_op(rng, kinds):
    k = rng.choices([x for x, _ in kinds], [y for _, y in kinds])[0]
    r = lambda: rng.randrange(BIG)
    if k in ("mf", "rb", "me", "rin", "bulk"):
        return "%s %d" % (k, r())
    if k in ("mfc",):
        return "mfc %d %d" % (r(), rng.randrange(2))
    if k == "sp":
        return "sp %d %d" % (r(), r())
    if k == "res":
        return "res " + " ".join(str(r()) for _ in range(rng.randrange(1, 5)))
    if k in ("efl", "ffl"):
        return "%s %d %d %d" % (k, r(), rng.randrange(12), rng.choice((0, 1, 1)))
    raise ValueError(k)

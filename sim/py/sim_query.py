"""P25: the queries, face classifications and derived graphs of maputils at any point of a map's history, against a computation from the bare cells (labels of the darts'
faces and nodes, point lists, flags)."""
import copy, io, pickle, random, sys
import geomap, maputils, statistics, dartpath, flag_constants
from flag_constants import ALL_PROTECTION, BORDER_PROTECTION, CONTOUR_PROTECTION, PROTECTED_FACE, BACKGROUND_FACE
from world import *
from sim_merge import Veto

OPS = (("mf", 5), ("mfc", 3), ("rb", 2), ("me", 3), ("rin", 1), ("sp", 3), ("bulk", 1), ("res", 1), ("efl", 2), ("ffl", 8))


def at_length(pts, l):
    for p, q in zip(pts, pts[1:]):
        d = ((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2) ** 0.5
        if d >= l > 0 or d > l:
            return tuple(p[i] + (q[i] - p[i]) * l / d for i in (0, 1))
        l -= d
    return pts[-1]


class QuerySim:
    @staticmethod
    def gen(rng):
        L = ["map " + (gen_rings(rng) if rng.random() < 0.2 else gen_map(rng)), "cfg labels=%d" % (rng.random() < 0.6)]
        r = lambda: rng.randrange(BIG)
        for i in range(rng.choice((4, 10, 25))):
            x = rng.random()
            if x < 0.35:
                L.append("op " + gen_op(rng, OPS))
            elif x < 0.45:
                L.append("op prot %d %d" % (r(), rng.randrange(3) > 0))
            elif x < 0.5:
                L.append("op mbl %d %d %d" % (r(), r(), rng.randrange(2)))
            elif x < 0.52:
                L.append("op rup %d" % r())
            elif x < 0.55:
                L.append("op again %d" % r())
            else:
                L.append("op %s %d %d" % (rng.choice(("cells", "darts", "darts", "holes", "holes", "tables", "classes", "points", "srg", "srg", "minima", "dual", "tree", "common", "cached", "measures", "measures", "paths", "paths", "falls", "edges")), r(), r()))
            if L[-1].split()[1] in ("mf", "mfc", "rb", "me", "bulk", "res", "mbl", "rup") and rng.random() < 0.2:
                L[-1] += "".join(" ! veto %d" % rng.randrange(1, 4) for _ in range(rng.choice((1, 1, 2))))
        return L

    def __init__(self, sim, head):
        self.sim = sim; self.cfg = {}
        for w in head:
            if w[0] == "map":
                self.desc = w[1:]
            elif w[0] == "cfg":
                self.cfg.update(x.split("=") for x in w[1:])

    def run(self, ops):
        s = self.sim
        self.m = build_map(self.desc, self.cfg.get("labels") != "0")
        self.veto = Veto(self.m, s)
        prev = "-"
        for i, (w, faults) in enumerate(ops):
            s.op = i; s.count("steps")
            self.veto.arm(faults)
            f = getattr(self, "op_" + w[0], None)
            if f:
                before = dump(self.m)
                r = f(*[int(x) for x in w[1:]])
                if w[0] not in ("prot", "mbl", "rup", "again"):
                    x = diff(before, dump(self.m))
                    if x:
                        raise Violation("query:changed", "%s changed the map: %s" % (w[0], x))
            else:
                r = apply_op(self.m, w)
            self.veto.arm(())
            s.log(*(list(w) + [r]))
            s.sig("%s>%s" % (prev, w[0])); prev = w[0]
            s.state(dump(self.m))

    # ------------------------------------------------------------------------------------------ the map as bare cells

    def darts(self):
        """dart -> (left face, right face, start node, end node)"""
        r = {}
        for e in self.m.edgeIter():
            l = e.label()
            r[l] = (e.leftFaceLabel(), e.rightFaceLabel(), e.startNodeLabel(), e.endNodeLabel())
            r[-l] = (e.rightFaceLabel(), e.leftFaceLabel(), e.endNodeLabel(), e.startNodeLabel())
        return r

    def components(self):
        comp = dict((n.label(), set([n.label()])) for n in self.m.nodeIter())
        for d, (a, b, s, e) in self.darts().items():
            if comp[s] is not comp[e]:
                comp[s] |= comp[e]
                for n in list(comp[e]):
                    comp[n] = comp[s]
        return comp

    def orbits(self):
        """phi orbits as lists of darts, computed from the order around the nodes"""
        pred = {}
        for n in self.m.nodeIter():
            if not n.isIsolated():
                o = [d.label() for d in n.anchor().sigmaOrbit()]
                for i, d in enumerate(o):
                    pred[d] = o[i - 1]
        left, r = set(pred), []
        while left:
            d = min(left); o = []
            while d not in o:
                o.append(d); d = pred[-d]
            left -= set(o); r.append(o)
        return r

    def area(self, orbit):
        a = 0.0
        for d in orbit:
            p = [tuple(x) for x in self.m.dart(d)]
            a += sum(q[0] * o[1] - q[1] * o[0] for o, q in zip(p, p[1:])) / 2.0
        return a

    def outer(self):
        """face label -> orbit of its outer contour; face label -> hole orbits"""
        D = self.darts(); o, h = {}, {}
        for orb in self.orbits():
            f = D[orb[0]][0]
            if f and self.area(orb) > 1e-9:
                o[f] = orb
            else:
                h.setdefault(f, []).append(orb)
        return o, h

    def bad(self, c, d):
        raise Violation("query:" + c, d)

    def face(self, k, finite=False):
        return pick([f.label() for f in self.m.faceIter(finite)], k)

    # ------------------------------------------------------------------------------------------ queries

    def op_cells(self, k, k2):
        m = self.m
        deg = {}
        for d, x in self.darts().items():
            deg[x[2]] = deg.get(x[2], 0) + 1
        want = [n.label() for n in m.nodeIter() if deg.get(n.label()) == 2]
        got = [n.label() for n in maputils.degree2Nodes(m)]
        if got != want:
            self.bad("degree2", "nodes of degree 2: %s, expected %s" % (got, want))
        es = [e for e in m.edgeIter()]
        border = set(e.label() for e in es if e.flags() & BORDER_PROTECTION)
        got = [e.label() for e in maputils.nonBorderEdges(m)]
        if got != [e.label() for e in es if e.label() not in border]:
            self.bad("border", "edges not at the border: %s; at the border: %s" % (got, sorted(border)))
        for n in m.nodeIter():
            want = any(abs(d) in border for d, x in self.darts().items() if x[2] == n.label())
            if bool(maputils.nodeAtBorder(n)) != want:
                self.bad("border", "nodeAtBorder(%d) is %s" % (n.label(), not want))
        got = [f.label() for f in maputils.nonBackgroundFaces(m)]
        if got != [f.label() for f in m.faceIter() if not f.flags() & BACKGROUND_FACE]:
            self.bad("background", "faces not in the background: %s" % got)
        return len(es)

    def op_darts(self, k, k2):
        """two generators over darts, consumed alternately"""
        m = self.m; D = self.darts()
        a, b = self.face(k), self.face(k2)
        ga, gb = maputils.contourDarts(m.face(a)), maputils.neighborFaces(m.face(b))
        ra, rb, turn, live = [], [], k2, [1, 1]
        while any(live):
            turn = (turn * 69069 + 1) & 0xffff
            i = turn >> 8 & 1 if all(live) else live.index(1)
            try:
                (ra, rb)[i].append(next((ga, gb)[i]).label())
            except StopIteration:
                live[i] = 0
        if sorted(ra) != sorted(d for d, x in D.items() if x[0] == a):
            self.bad("contour-darts", "darts around face %d: %s, expected %s" % (a, sorted(ra), sorted(d for d, x in D.items() if x[0] == a)))
        j = 0
        orbs = dict((min(o), o) for o in self.orbits())
        while j < len(ra):  # contour by contour
            o = rot([d for o in orbs.values() if ra[j] in o for d in o])
            if rot(ra[j:j + len(o)]) != o:
                self.bad("contour-darts", "darts around face %d: %s, but %s is a contour" % (a, ra, o))
            j += len(o)
        want = set(x[1] for x in D.values() if x[0] == b) - set([b])
        if any(D[d][0] != b for d in rb) or sorted(D[d][1] for d in rb) != sorted(want):
            self.bad("neighbours", "neighbours of face %d by darts %s, expected %s" % (b, rb, sorted(want)))
        return len(ra), len(rb)

    def op_common(self, k, k2):
        m = self.m; D = self.darts()
        a, b = self.face(k), self.face(k2)
        d = maputils.findCommonDart(m.face(a), m.face(b))
        want = [d for d, x in D.items() if x[:2] == (a, b)]
        if (d is None) != (not want) or d is not None and d.label() not in want:
            self.bad("common", "findCommonDart(%d, %d) is %s, expected one of %s" % (a, b, d and d.label(), want))
        return a, b

    def op_holes(self, k, k2):
        m = self.m; o, h = self.outer()
        cs = [(f, orb) for f in sorted(h) for orb in sorted(h[f])]
        c = pick(cs, k)
        if c is None:
            return None
        comp = self.components()
        D = self.darts()
        f, orb = c
        here = comp[D[orb[0]][2]]
        want = sorted(x for x, orb2 in o.items() if D[orb2[0]][2] in here)
        d = m.dart(pick(sorted(orb), k2))
        got = [x.label() for x in maputils.holeComponent(d)]
        ext = [x.label() for x in maputils.holeComponent(d, True)]
        if sorted(got) != want:
            self.bad("component", "faces of the component of dart %d in face %d: %s, expected %s" % (d.label(), f, got, want))
        if ext[:1] != [f] or sorted(ext[1:]) != want:
            self.bad("component", "faces of the component of dart %d with its exterior %d: %s, expected %s" % (d.label(), f, ext, want))
        return f, len(want)

    def op_tree(self, k, k2):
        m = self.m; o, h = self.outer(); D = self.darts(); comp = self.components()
        where = {}  # component -> face it lies in
        for f in h:
            for orb in h[f]:
                where[id(comp[D[orb[0]][2]])] = f
        def depth(f):
            return 0 if not f else 1 + depth(where[id(comp[D[o[f][0]][2]])])
        root = self.face(k)
        def below(f):
            while f and f != root:
                f = where[id(comp[D[o[f][0]][2]])]
            return f == root
        out, sys.stdout = sys.stdout, io.StringIO()
        try:
            maputils.showHomotopyTree(m if not root and k2 % 2 else m.face(root))
            lines = sys.stdout.getvalue().splitlines()
        finally:
            sys.stdout = out
        got = {}
        for l in lines:
            n = len(l) - len(l.lstrip())
            x = int("".join(c if c.isdigit() else " " for c in l).split()[0])
            if x in got:
                self.bad("tree", "face %d is shown twice below face %d" % (x, root))
            got[x] = n // 2
        want = dict((f.label(), depth(f.label()) - depth(root)) for f in m.faceIter() if below(f.label()))
        if got != want:
            self.bad("tree", "levels of the faces below %d: %s, expected %s" % (root, got, want))
        return len(got)

    def op_tables(self, k, k2):
        m = self.m
        default = (None, -1, "x")[k % 3]
        def table(n, it):
            r = [default] * n
            for c, v in it:
                r[c] = v
            return r
        for name, got, want in (
                ("mapValidEdges", maputils.mapValidEdges(lambda e: (e.label(), len(e)), m, default), table(m.maxEdgeLabel(), [(e.label(), (e.label(), len(e))) for e in m.edgeIter()])),
                ("mapValidEdges without border", maputils.mapValidEdges(lambda e: e.label(), m, default, True), table(m.maxEdgeLabel(), [(e.label(), e.label()) for e in m.edgeIter() if not e.flags() & BORDER_PROTECTION])),
                ("mapValidFaces", maputils.mapValidFaces(lambda f: f.label() * 2, m, default), table(m.maxFaceLabel(), [(f.label(), f.label() * 2) for f in m.faceIter()])),
                ("mapValidDarts", maputils.mapValidDarts(lambda d: (d.label(), d.leftFaceLabel()), m, default), table(m.maxEdgeLabel(), [(e.label(), (e.label(), e.leftFaceLabel())) for e in m.edgeIter()]))):
            if got != want:
                self.bad("tables", "%s: %s, expected %s" % (name, got, want))
        return len(want)

    def op_classes(self, k, k2):
        m = self.m
        skip = bool(k2 % 2)
        fl = dict((f.label(), f.flags() & 0x0fffffff) for f in m.faceIter(skip))
        if k % 3 == 0:
            classes = [1 << (k >> 3) % 12, 1 << (k >> 7) % 12, (1 << (k >> 3) % 12) | (1 << (k >> 11) % 12)]
            many = [x for x in sorted(fl.values()) if x & (x - 1)]  # several bits: these and some of them
            if many and k2 % 4 < 3:
                x = pick(many, k >> 5)
                classes = [x, x & -x, x & (x - 1)]
                random.Random(k2).shuffle(classes)
            got = maputils.extractFaceClasses(m, tuple(classes), skip) if not skip or k2 % 3 else maputils.extractFaceClasses(m, tuple(classes))
        else:
            mask = 0x0fffffff if k % 3 == 1 else k2 & 0xfff
            classes = set(x & mask for x in fl.values())
            got = maputils.extractFaceClasses(m, None if k % 3 == 1 else mask, skip)
        order = sorted(set(classes), reverse=True)
        want = dict((c, []) for c in order)
        for f in sorted(fl):
            for c in order:
                if c and fl[f] & c == c:
                    want[c].append(f); break
        got = dict((c, [f.label() for f in l]) for c, l in got.items())
        if got != want:
            self.bad("classes", "face classes %s, expected %s" % (got, want))
        return len(want)

    def op_points(self, k, k2):
        m = self.m
        f = self.face(k, True)
        if f is None:
            return None
        face = m.face(f)
        if face.area() < 1e-3 + 0.02 * sum(m.edge(abs(d)).length() for d, x in self.darts().items() if x[0] == f):
            return None
        p = maputils.pointInFace(face) if k2 % 3 else maputils.pointInFace(face, k2 % 5 + 1)
        if not face.contains(p):
            self.bad("point", "pointInFace(%d) gave %s, which is not inside" % (f, p))
        pts = []
        for d in face.contour().phiOrbit():
            pts += [tuple(x) for x in d][:-1]
        poly = geomap.contourPoly(face.contour())
        got = [tuple(x) for x in poly]
        if got[0] != got[-1] or rot(got[:-1]) != rot(pts):
            self.bad("contour-poly", "contour polygon of face %d: %s, expected %s" % (f, got, pts))
        a = sum(q[0] * o[1] - q[1] * o[0] for o, q in zip(got, got[1:])) / 2.0
        if abs(geomap.contourArea(face.contour()) - a) > 1e-6:
            self.bad("contour-area", "contour area of face %d: %s, expected %s" % (f, geomap.contourArea(face.contour()), a))
        return f

    def op_cached(self, k, k2):
        if not maputils.checkCachedPropertyConsistency(self.m):
            self.bad("cached", "checkCachedPropertyConsistency() finds fault with a map that is right")
        return "ok"

    def op_measures(self, k, k2):
        """costs of merging the faces next to a dart"""
        m = self.m; D = self.darts()
        ls = sorted(d for d, x in D.items() if x[0] != x[1])
        d = pick(ls, k)
        if d is None:
            return None
        a, b = D[d][:2]
        orb = dict((x, o) for o in self.orbits() for x in o)
        length = lambda ds: sum(sum(((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2) ** 0.5 for p, q in zip(list(m.dart(x)), list(m.dart(x))[1:])) for x in ds)
        common = [x for x in orb[d] if D[x][1] == b]
        got = [x.label() for x in statistics.commonBoundaryDarts(m.dart(d))]
        if rot(got) != rot(common) or got[0] != d:
            self.bad("measures", "common boundary of faces %d and %d from dart %d on: %s, expected %s" % (a, b, d, got, common))
        left, right = length(x for x in orb[d] if D[x][1] != b), length(x for x in orb[-d] if D[x][1] != a)
        c = length(common)
        area = lambda f: sum(self.area(o) for o in set(tuple(o) for o in orb.values()) if D[o[0]][0] == f)
        A, B = area(a), area(b)
        tests = [("mergedContourLength", left + right)]
        if min(abs(A + B), abs(A), abs(B)) > 1e-3:
            fa = A * B / (A + B)
            after = (left + right) ** 2 / (A + B)
            l, r = (left + c) ** 2 / A, (right + c) ** 2 / B
            tests += [("faceAreaHomogeneity", fa), ("mergedIsoperimetricQuotient", after / 12.566370614359172)]
            if abs(l + r) > 1e-3:
                tests.append(("mergedIsoperimetricQuotient2", after / (l + r)))
            x = l if m.face(a).flag(flag_constants.SRG_SEED) else r
            if abs(x) > 1e-3:
                tests.append(("seedIsoperimetricQuotient", after / x))
        for n, want in tests:
            got = getattr(statistics, n)(m.dart(d))
            if abs(got - want) > 1e-6 * max(1, abs(want)):
                self.bad("measures", "%s(%d) is %s, expected %s" % (n, d, got, want))
        got = geomap.contourLength(m.dart(d))
        if abs(got - length(orb[d])) > 1e-6 * max(1, got):
            self.bad("measures", "contourLength(%d) is %s, expected %s" % (d, got, length(orb[d])))
        x = self.area([e for e in orb[d] if D[e][0] != D[e][1]])
        if abs(x) > 1e-3:
            got, want = geomap.isoperimetricQuotient(m.dart(d)), length(orb[d]) ** 2 / 12.566370614359172 / x
            if abs(got - want) > 1e-6 * max(1, abs(want)):
                self.bad("measures", "isoperimetricQuotient(%d) is %s, expected %s" % (d, got, want))
        return d, len(tests)

    def op_paths(self, k, k2):
        """all paths of some length from a dart on, then one of them as a whole, forwards and backwards"""
        m = self.m; D = self.darts()
        d = pick(sorted(D), k)
        if d is None:
            return None
        n = 1 + k2 % 4
        want = [[d]]
        out = {}
        for x, y in D.items():
            out.setdefault(y[2], []).append(x)
        for i in range(n - 1):
            want = [p + [x] for p in want for x in out[D[p[-1]][3]] if x != -p[-1] and not m.edge(abs(x)).flags() & BORDER_PROTECTION]
        paths = dartpath.allContinuations(m.dart(d), n)
        got = [[x.label() for x in p] for p in paths]
        if sorted(got) != sorted(want):
            self.bad("paths", "paths of %d darts from dart %d on: %s, expected %s" % (n, d, got, want))
        orb = [o for o in self.orbits() if d in o][0]
        p = dartpath.contour(m.dart(d)) if not paths or k2 % 8 == 1 else pick(paths, k2 >> 3)
        ls = [x.label() for x in p]
        if (not paths or k2 % 8 == 1) and (ls[0] != d or rot(ls) != rot(orb)):
            self.bad("paths", "contour from dart %d on: %s, expected %s" % (d, ls, orb))
        q = p + dartpath.Path([m.dart(-ls[-1])]) if k2 % 3 == 0 else p + m.dart(-ls[-1]) if k2 % 3 == 1 else p
        if type(q) is not dartpath.Path or [x.label() for x in q] != ls + [-ls[-1]] * (k2 % 3 < 2):
            self.bad("paths", "path %s continued by %d: %s" % (ls, -ls[-1], [x.label() for x in q]))
        ls = [x.label() for x in q]
        def points(ls):
            r = [tuple(x) for x in m.dart(ls[0])]
            for x in ls[1:]:
                r += [tuple(x) for x in m.dart(x)][1:]
            return r
        for turn in (0, 1):
            want = points(ls)
            if [x.label() for x in q] != ls or [tuple(x) for x in q.points()] != want or [tuple(x) for x in q.polygon()] != want:
                self.bad("paths", "path %s has the points %s, expected %s" % (ls, list(q.points()), want))
            x = sum(m.edge(abs(x)).length() for x in ls)
            if abs(q.length() - x) > 1e-6 * max(1, x):
                self.bad("paths", "path %s has length %s, expected %s" % (ls, q.length(), x))
            if len(set(map(id, q))) == len(q) and [x.label() for x in q] == ls and q is not p:
                break
            if q is p:
                q.reverse()
                ls = [-x for x in reversed(ls)]
        return len(paths)

    def op_edges(self, k, k2):
        """the map again, from its edges alone, in any order and direction"""
        m = self.m; rng = random.Random(k2)
        if not m.edgeCount:
            return None
        pos = [tuple(n.position()) for n in m.nodeIter() if not n.isIsolated()]
        if any((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2 < 0.002 for i, p in enumerate(pos) for q in pos[:i]):
            return None  # taken for one node
        ps = [list(e) for e in m.edgeIter()]
        rng.shuffle(ps)
        ps = [p[::-1] if rng.random() < 0.5 else p for p in ps]
        o = maputils.mapFromEdges([geomap.Polygon(p) for p in ps], m.imageSize())
        if o.edgesSorted() or o.mapInitialized():
            self.bad("edges", "mapFromEdges() returned a map that is sorted or initialized")
        got = [[tuple(x) for x in e] for e in o.edgeIter()]
        if got != [[tuple(x) for x in p] for p in ps] or sorted(tuple(n.position()) for n in o.nodeIter()) != sorted(pos):
            self.bad("edges", "edges %s and nodes %s, expected %s and %s" % (got, [tuple(n.position()) for n in o.nodeIter()], ps, pos))
        for e in o.edgeIter():
            if tuple(e.startNode().position()) != tuple(e[0]) or tuple(e.endNode().position()) != tuple(e[-1]):
                self.bad("edges", "edge %d runs from node %s to %s" % (e.label(), e.startNode(), e.endNode()))
        return len(ps)

    # ------------------------------------------------------------------------------------------ region adjacency graph

    def costs(self, rng):
        ls = [e.label() for e in self.m.edgeIter()]
        c = list(range(len(ls))); rng.shuffle(c)
        r = [None] * self.m.maxEdgeLabel()
        for l, x in zip(ls, c):
            if rng.random() < 0.85:
                r[l] = x - 3  # (also zero and negative)
        return r

    def op_srg(self, k, k2):
        m = self.m; rng = random.Random(k2); D = self.darts()
        costs = self.costs(rng)
        fs = [f.label() for f in m.faceIter()]
        seeds = [None] * m.maxFaceLabel()
        for f in rng.sample(fs, min(len(fs), rng.choice((0, 1, 2, 3, 5)))):
            seeds[f] = rng.choice((0, 1, 2, 2, 7))
        given = list(seeds)
        arg = costs if k % 2 else (lambda d: costs[abs(d.label())])
        got = list(maputils.seededRegionGrowingStatic(m, given, arg))
        if given != seeds:
            self.bad("srg", "the given labels were changed")
        want = self.grown(seeds, costs)
        if got != want:
            self.bad("srg", "grown labels %s, expected %s (seeds %s, costs %s)" % (got, want, seeds, costs))
        return sum(x is not None for x in want)

    def op_falls(self, k, k2):
        m = self.m; D = self.darts()
        costs = self.costs(random.Random(k2))
        mst = self.tree(costs)
        arg = costs if k % 2 else (lambda d: costs[abs(d.label())])
        got = list(maputils.waterfallLabels(m, arg)) if k % 3 else list(maputils.waterfallLabels(m, costs, list(mst)))
        want = self.grown(self.local_minima(mst), mst)
        if got != want:
            self.bad("falls", "labels %s, expected %s (tree %s)" % (got, want, mst))
        return sum(x is not None for x in want)

    def grown(self, seeds, costs):
        m = self.m; D = self.darts(); fs = [f.label() for f in m.faceIter()]
        # minimum spanning forest: edges in order of cost join regions unless both contain seeds
        group = dict((f, [f]) for f in fs)
        label = dict((f, seeds[f]) for f in fs)
        for c, l in sorted((costs[l], l) for l in range(len(costs)) if costs[l] is not None):
            a, b = D[l][:2]
            if group[a] is group[b]:
                continue
            la, lb = label[a], label[b]
            sa, sb = any(seeds[f] is not None for f in group[a]), any(seeds[f] is not None for f in group[b])
            if sa and sb:
                continue
            g = group[a] + group[b]
            for f in g:
                group[f] = g; label[f] = la if sa else lb
        return [label.get(f) for f in range(m.maxFaceLabel())]

    def tree(self, costs):
        """minimum spanning forest of the faces"""
        D = self.darts(); group = dict((f.label(), [f.label()]) for f in self.m.faceIter())
        r = [None] * len(costs)
        for c, l in sorted((costs[l], l) for l in range(len(costs)) if costs[l] is not None):
            a, b = D[l][:2]
            if group[a] is not group[b]:
                r[l] = c
                g = group[a] + group[b]
                for f in g:
                    group[f] = g
        return r

    def local_minima(self, mst):
        D = self.darts()
        tree = [l for l in range(len(mst)) if mst[l] is not None]
        want = [None] * self.m.maxFaceLabel()
        for l in tree:
            if all(mst[l] <= mst[x] for x in tree if set(D[x][:2]) & set(D[l][:2])):
                for f in D[l][:2]:
                    want[f] = l
        return want

    def op_minima(self, k, k2):
        m = self.m; D = self.darts(); rng = random.Random(k2)
        costs = self.costs(rng)
        mst = maputils.minimumSpanningTree(m, costs)
        want = self.tree(costs)
        if list(mst) != want:
            self.bad("tree", "minimum spanning tree %s, expected %s (costs %s)" % (mst, want, costs))
        got = maputils.regionalMinima(m, mst)
        want = self.local_minima(mst)
        if list(got) != want:
            self.bad("minima", "regional minima %s, expected %s (tree %s)" % (got, want, mst))
        return m.faceCount

    def op_dual(self, k, k2):
        m = self.m; D = self.darts()
        ls = sorted(l for l in D if l > 0)
        bridge = [l for l in ls if D[l][0] == D[l][1]]
        rng = random.Random(k2)
        if bridge and k % 4 == 0:
            try:
                maputils.dualMap(m, initializeMap=False)
            except AssertionError:
                self.sim.count("fault.invalid")
                return "bridge"
            self.bad("dual", "dual of a map with bridges %s" % bridge)
        sel = [l for l in ls if l not in bridge and (k % 3 or rng.random() < 0.6)]
        mid = (None, True, False)[k2 % 3]
        if k2 % 5 == 0:
            return self.voronoi(sel)
        if not bridge and len(sel) == len(ls) and k % 2:
            o = maputils.dualMap(m, midPoints=mid, initializeMap=False)
        else:
            rng.shuffle(sel)
            o = maputils.dualMap(m, list(sel) if k % 2 else [m.edge(l) for l in sorted(sel)], midPoints=mid, initializeMap=False)
        want = dict((l, D[l][:2]) for l in sel if 0 not in D[l][:2])
        got = dict((e.label(), (e.startNodeLabel(), e.endNodeLabel())) for e in o.edgeIter())
        if got != want:
            self.bad("dual", "edges of the dual: %s, expected %s" % (got, want))
        nodes = set(f for x in want.values() for f in x)
        if set(n.label() for n in o.nodeIter()) != nodes:
            self.bad("dual", "nodes of the dual: %s, expected %s" % ([n.label() for n in o.nodeIter()], sorted(nodes)))
        for n in o.nodeIter():
            c = geomap.centroid(geomap.contourPoly(m.face(n.label()).contour()))
            if max(abs(n.position()[i] - c[i]) for i in (0, 1)) > 1e-9:
                self.bad("dual", "node %d of the dual at %s, the centroid is %s" % (n.label(), n.position(), c))
        for e in o.edgeIter():
            if mid is not None and len(e) != 2 + mid:
                self.bad("dual", "edge %d of the dual has %d points" % (e.label(), len(e)))
            old = [tuple(p) for p in m.edge(e.label())]
            if len(e) == 3:
                p = at_length(old, m.edge(e.label()).length() / 2)
                if max(abs(e[1][i] - p[i]) for i in (0, 1)) > 1e-6:
                    self.bad("dual", "edge %d of the dual runs via %s, the middle is %s" % (e.label(), e[1], p))
            if mid is None:
                a, b = tuple(e[0]), tuple(e[len(e) - 1])
                n = ((b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2) ** 0.5
                if n < 1e-3:
                    continue
                side = [((p[0] - a[0]) * (b[1] - a[1]) - (p[1] - a[1]) * (b[0] - a[0])) / n for p in old]
                if min(abs(x) for x in side) > 1e-6 and (min(side) > 0 or max(side) < 0) != (len(e) == 3):
                    self.bad("dual", "edge %d of the dual %s via the middle, distances of the points: %s" % (e.label(), "runs" if len(e) == 3 else "does not run", side))
        return len(want)

    def voronoi(self, sel):
        """nodes for the infinite face on demand, the result as a map"""
        m = self.m; D = self.darts(); asked = {}

        def hook(old, edge, new, sn, en):
            if old is not m or asked.get(edge.label()):
                self.bad("dual", "asked twice for edge %d" % edge.label())
            asked[edge.label()] = [n and n.label() for n in (sn, en)]
            if edge.label() % 3 == 0:
                return sn, en  # not wanted
            p = edge[len(edge) // 2]
            n = new.addNode((p[0] + 0.001 * edge.label(), p[1] - 0.01))
            return sn or n, en or n
        try:
            o = maputils.dualMap(m, sel, onDemandNodeHook=hook)
        except RuntimeError:  # straight connections may leave a node in the same direction
            o = None
        want = dict((l, [x or None for x in D[l][:2]]) for l in sel if 0 in D[l][:2])
        if asked != want if o else any(want.get(l) != x for l, x in asked.items()):
            self.bad("dual", "nodes were asked for at the edges %s, expected %s" % (asked, want))
        if o is None:
            return "unsortable"
        if not o.mapInitialized() or o.hasLabelImage():
            self.bad("dual", "the dual is not a map, or has a label image")
        got = dict((e.label(), (e.startNodeLabel(), e.endNodeLabel())) for e in o.edgeIter())
        if sorted(got) != sorted(l for l in sel if l not in want or l % 3):
            self.bad("dual", "edges %s of the dual, selected were %s" % (sorted(got), sorted(sel)))
        for l, x in got.items():
            if any(y and y != z for y, z in zip(D[l][:2], x)):
                self.bad("dual", "edge %d of the dual connects the nodes %s, the faces were %s" % (l, x, D[l][:2]))
        return len(got)

    # ------------------------------------------------------------------------------------------ changes

    def op_prot(self, k, on):
        m = self.m; D = self.darts()
        f = self.face(k)
        ff = dict((x.label(), x.flags() & 0x0fffffff) for x in m.faceIter())
        ef = dict((x.label(), x.flags()) for x in m.edgeIter())
        maputils.protectFace(m.face(f), bool(on)) if not on or k % 2 else maputils.protectFace(m.face(f))
        ff[f] = ff[f] | PROTECTED_FACE if on else ff[f] & ~PROTECTED_FACE
        for d, x in D.items():
            if x[0] == f:
                p = bool(on) or bool(ff[x[1]] & PROTECTED_FACE)
                ef[abs(d)] = ef[abs(d)] | CONTOUR_PROTECTION if p else ef[abs(d)] & ~CONTOUR_PROTECTION
        got = dict((x.label(), x.flags() & 0x0fffffff) for x in m.faceIter()), dict((x.label(), x.flags()) for x in m.edgeIter())
        if got != (ff, ef):
            self.bad("protect", "protectFace(%d, %s): flags of faces and edges %s, expected %s" % (f, on, got, (ff, ef)))
        return f, on

    def op_mbl(self, k, k2, deg2):
        m = self.m
        if k % 7 == 0:
            gone = [l for l in range(m.maxFaceLabel()) if m.face(l) is None] or None
            if gone:
                before = dump(m)
                for args in ((pick(gone, k2), 0), (0, pick(gone, k2))):
                    try:
                        maputils.mergeFacesByLabel(m, *args)
                    except Exception:
                        self.sim.count("fault.invalid")
                    else:
                        self.bad("by-label", "mergeFacesByLabel%s accepted a face that does not exist" % (args,))
                if diff(before, dump(m)):
                    self.bad("by-label", "refused, but changed the map: " + diff(before, dump(m)))
                return "gone"
        a = self.face(k)
        D = self.darts()
        ns = sorted(set(x[1] for x in D.values() if x[0] == a) - set([a]))
        b = pick(ns, k2) if k2 % 4 else self.face(k2)
        if b is None or a == b:
            return None
        before = dump(m)
        fs = set(f.label() for f in m.faceIter())
        common = set(abs(d) for d, x in D.items() if set(x[:2]) == set((a, b)))
        held = [l for l in common if m.edge(l).flags() & ALL_PROTECTION]
        two = len([n for n in maputils.degree2Nodes(m) if not n.anchor().edge().isLoop()])
        r = maputils.mergeFacesByLabel(m, a, b, bool(deg2)) if not deg2 or k2 % 2 else maputils.mergeFacesByLabel(m, a, b)
        if deg2 and not self.veto.refused and r is not None and len([n for n in maputils.degree2Nodes(m) if not n.anchor().edge().isLoop()]) > two:
            self.bad("by-label", "more nodes of degree two than before")
        after = set(f.label() for f in m.faceIter())
        now = self.darts()
        if b not in ns:
            if r is not None or diff(before, dump(m)):
                self.bad("by-label", "faces %d and %d have no common edge, but: %s, %s" % (a, b, r and r.label(), diff(before, dump(m))))
            return "none"
        if held:
            if r is not None or diff(before, dump(m)):
                self.bad("by-label", "common edges %s of faces %d and %d are protected, but: %s, %s" % (sorted(held), a, b, r and r.label(), diff(before, dump(m))))
            return "protected"
        if not self.veto.refused:
            if r is None or r.label() not in (a, b) or after != fs - (set((a, b)) - set([r.label()])):
                self.bad("by-label", "merging faces %d and %d: result %s, faces %s before and %s after" % (a, b, r and r.label(), sorted(fs), sorted(after)))
            if common & set(abs(d) for d in now):
                self.bad("by-label", "edges %s of faces %d and %d left" % (sorted(common & set(abs(d) for d in now)), a, b))
        elif not fs - set((a, b)) <= after:
            self.bad("by-label", "faces %s are gone" % sorted(fs - after))
        if not m.checkConsistency():
            self.bad("consistency", "checkConsistency() fails")
        self.sim.count("merged.by.label")
        return a, b, r and r.label()

    def op_rup(self, k):
        m = self.m
        es = dict((e.label(), e.flags()) for e in m.edgeIter())
        keep = set(l for l, f in es.items() if f & ALL_PROTECTION)
        pts = dict((l, [tuple(x) for x in m.edge(l)]) for l in keep)
        nodes = m.nodeCount
        n = maputils.removeUnProtectedEdges(m)
        left = dict((e.label(), [tuple(x) for x in e]) for e in m.edgeIter())
        if not set(left) <= set(es):
            self.bad("unprotected", "new edges %s" % sorted(set(left) - set(es)))
        where = {}
        for l, p in left.items():
            for q in (p, p[::-1]):
                for x in zip(q, q[1:]):
                    where.setdefault(x, set()).add(l)
        for l in keep:  # a protected edge is still there, perhaps as a part of a longer one
            x = [where.get(x, set()) for x in zip(pts[l], pts[l][1:])]
            if not set.intersection(*x):
                self.bad("unprotected", "protected edge %d is gone; edges left: %s" % (l, sorted(left)))
        if not self.veto.refused:
            parts = set(x for p in pts.values() for q in (p, p[::-1]) for x in zip(q, q[1:]))
            if parts != set(where):
                self.bad("unprotected", "edges %s left, protected were %s" % (sorted(left), sorted(keep)))
            joined = len(keep) - len(left)
            if not len(es) - len(left) <= n <= len(es) - len(left) + nodes - m.nodeCount - joined:
                self.bad("unprotected", "%s operations reported; %d of %d edges and %d of %d nodes left, %d joined" % (n, len(left), len(es), m.nodeCount, nodes, joined))
        if not m.checkConsistency():
            self.bad("consistency", "checkConsistency() fails")
        return n

    def op_again(self, k):
        d = dump(self.m)
        m = pickle.loads(pickle.dumps(self.m, 2)) if k % 3 == 0 else copy.copy(self.m)
        if diff(d, dump(m)):
            self.bad("copy", diff(d, dump(m)))
        self.m = m
        self.veto = Veto(m, self.sim)
        self.sim.count("fault.crash" if k % 3 == 0 else "copies")
        return k % 3

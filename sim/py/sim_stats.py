"""P17: statistics attached to a map follow it: after any sequence of operations, refusals, splits, crashes and restores they equal what a recomputation gives."""
import copy, math, pickle, random
import numpy, vigra, geomap, maputils, statistics
from flag_constants import BORDER_PROTECTION
from world import *
from hooks import *

KINDS = [("mf", 3), ("mfc", 4), ("rb", 3), ("me", 9), ("bulk", 2), ("res", 2)]


def weighted(e1, c1, e2, c2):
    """a combiner of the user (picklable)"""
    return statistics.mergedEdgeCostWeightedByLength(e1, c1, e2, c2)


def smaller(e1, c1, e2, c2):
    if c1 is None or c2 is None:
        raise TypeError("no cost")
    return min(c1, c2)


COMBINERS = [None, weighted, smaller]


class Track:
    """reference model, per edge and face: everything as sets of positions and samples, so that no index arithmetic is repeated"""
    def __init__(self, m, sim):
        self.m, self.sim = m, sim
        self.saddles, self.pv, self.cost, self.samples, self.tangents, self.level0, self.depth = {}, {}, {}, {}, {}, {}, {}
        self.fuzzy = set(); self.joined = set()
        self.attach()

    def attach(self):
        m = self.m
        self.cbs = [m.addMergeEdgesCallbacks(self.preME, self.postME), m.addMergeFacesCallbacks(self.preMF, self.postMF), m.addSplitEdgeCallbacks(self.preSE, self.postSE)]

    def preME(self, d):
        e1, e2 = d.edge(), d.clone().nextSigma().edge()
        self.me = (e1.label(), e2.label(), e1.length(), e2.length(), e1.flag(BORDER_PROTECTION), e2.flag(BORDER_PROTECTION))
        return True

    def postME(self, survivor):
        a, b, la, lb = self.me[:4]
        s = survivor.label(); o = b if s == a else a
        if s not in (a, b):
            raise Violation("model", "edges %d and %d became %d" % (a, b, s))
        for t in (self.saddles, self.tangents, self.level0, self.samples):
            if a in t:
                t[s] = t[a] + [x for x in t[b] if t is not self.saddles or x not in t[a]]
                del t[o]
        if a in self.pv:
            x = [self.pv[l] for l in (a, b) if self.pv[l] is not None]
            self.pv[s] = min(x) if x else None; del self.pv[o]
        if a in self.cost:
            ca, cb = self.cost[a], self.cost[b]
            if self.combine is None:
                raise Violation("costs:blocked", "edges %d and %d were merged although no combiner was given" % (a, b))
            if ca is None or cb is None:
                raise Violation("costs:none", "edges %d and %d were merged although the combiner cannot handle costs %s, %s" % (a, b, ca, cb))
            self.cost[s] = min(ca, cb) if self.combine is smaller else (ca * la + cb * lb) / (la + lb); del self.cost[o]
        self.joined.add(s)
        self.sim.count("merged-edges")

    def preMF(self, d):
        self.mf = (d.leftFaceLabel(), d.rightFaceLabel())
        return True

    def postMF(self, survivor):
        if self.depth:
            a, b = self.mf
            x = min(self.depth[a], self.depth[b])
            del self.depth[a], self.depth[b]
            self.depth[survivor.label()] = x

    def preSE(self, e, i, p):
        self.se = (e.label(), [tuple(x) for x in e], i, p)

    def postSE(self, old, new):
        l = self.se[0]
        if l in self.saddles:
            pa, pb = [tuple(x) for x in old], [tuple(x) for x in new]
            sad = self.saddles[l]
            # a saddle at the node of a split loop: either part may have it
            loop = self.se[1][0] == self.se[1][-1] and self.se[1][0] in sad
            if loop:
                self.fuzzy.add(self.se[1][0])
            for e, pts in ((old, pa), (new, pb)):
                self.saddles[e.label()] = [x for x in sad if x in pts]
                x = self.saddles[e.label()] or [pts[0], pts[-1]]
                self.pv[e.label()] = "any" if loop else min(self.gm[y] for y in x)
        self.sim.count("split-edges")


class VectorField:
    """stands for a GradientSIVProxy: a smooth field of vectors, also with negative values"""
    def __getitem__(self, p):
        return (math.sin(p[0] * 0.7 + 1) * 3 - 1, math.cos(p[1] * 0.9) * 2 - p[0] * 0.1)


def point_at(pts, al):
    for p, q in zip(pts, pts[1:]):
        l = math.hypot(q[0] - p[0], q[1] - p[1])
        if al <= l:
            return (p[0] + (q[0] - p[0]) * al / l, p[1] + (q[1] - p[1]) * al / l)
        al -= l
    return pts[-1]


def length(pts):
    return sum(math.hypot(q[0] - p[0], q[1] - p[1]) for p, q in zip(pts, pts[1:]))


class StatsSim:
    @staticmethod
    def gen(rng):
        splits = rng.randrange(2)
        what = [k for k in (("ws", "basins", "idx") if splits else ("ws", "basins", "merged", "costs", "poly", "quant", "tang", "dots")) if rng.random() < 0.6]
        L = ["map " + gen_map(rng), "cfg splits=%d late=%d border=%d combiner=%d resample=%d seed=%d added=%d" % (
            splits, rng.randrange(2), rng.choice((0, 0, 1, 2)), rng.randrange(3), rng.choice((0, 0, 5, 2)), rng.randrange(1 << 20), rng.randrange(3) == 0), "stats " + " ".join(what or ["ws"])]
        restored = False
        for i in range(rng.choice((5, 15, 30))):
            r = rng.random()
            if r < 0.06:
                L.append("op save %d" % rng.randrange(5)); restored = True
            elif r < 0.09:
                L.append("op detach %d" % rng.randrange(BIG))
            elif r < 0.16:
                L.append("op ask %d" % rng.randrange(BIG))
            elif r < 0.26:
                for j in range(rng.choice((2, 5, 10))):
                    L.append("op fn %s %d %d" % (rng.choice(("add", "add", "poly", "merge", "merge", "copy", "save", "ask", "ask")), rng.randrange(4), rng.randrange(BIG)))
            elif splits and r < 0.55:
                L.append("op " + gen_op(rng, [("sp", 1)]))
            else:
                L.append("op " + gen_op(rng, KINDS) + gen_faults(rng))
        return L

    def __init__(self, sim, head):
        self.sim = sim; self.what = []
        for w in head:
            if w[0] == "map":
                self.desc = w[1:]
            elif w[0] == "cfg":
                self.cfg = dict((k, int(v)) for k, v in (x.split("=") for x in w[1:]))
            elif w[0] == "stats":
                self.what = w[1:]

    # ---- construction

    def build(self):
        """a map whose outer edges are a border (depending on the configuration)"""
        c = self.cfg
        m = build_graph(self.desc)
        rng = random.Random(c["seed"])
        self.rng = rng
        w, h = m.imageSize()[0], m.imageSize()[1]
        self.gm = vigra.sampling.SplineImageView5(vigra.taggedView((numpy.random.RandomState(c["seed"]).rand(max(w, 8), max(h, 8)) * 20 - 5).astype(numpy.float32), "xy"))
        self.early = None
        if c["added"] and self.desc[0] == "grid" and "ws" in self.what:
            # the watersheds first, then a chain of edges that close the border
            self.early = self.watersheds(m)
            start = m.node(0) or next(iter(m.nodeIter()))
            chain = [(0.2, 0.3), (0.15, 1.5), (0.25, 3.0)][:1 + c["seed"] % 3]
            for p in chain:
                n = m.addNode(p)
                a = start.position()
                m.addEdge(start, n, [tuple(a), p]).setFlag(BORDER_PROTECTION, True)
                start = n
            self.early[0].nonWatershedEdgesAdded()
            self.sim.count("added-edges", len(chain))
        if not m.edgesSorted():
            m.sortEdgesDirectly()
        m.initializeMap(True)
        for e in m.edgeIter():
            if self.early is None and (c["border"] == 1 and 0 in (e.leftFaceLabel(), e.rightFaceLabel()) or c["border"] == 2 and rng.random() < 0.3):
                e.setFlag(BORDER_PROTECTION, True)
        return m

    def watersheds(self, m):
        rng = self.rng
        flow = [None] * m.maxEdgeLabel(); saddles, pv = {}, {}
        for e in m.edgeIter():
            n = len(e)
            i = rng.randrange(1, n - 1) if n > 2 else rng.randrange(2)
            flow[e.label()] = (e.startNodeLabel(), e.endNodeLabel(), [tuple(p) for p in e], i)
            b = bool(e.flag(BORDER_PROTECTION))
            saddles[e.label()] = [] if b else [tuple(e[i])]
            pv[e.label()] = None if b else self.gm[tuple(e[i])]
        return statistics.WatershedStatistics(m, flow, self.gm), saddles, pv

    def attach(self, m):
        c = self.cfg; rng = self.rng
        t = self.t = Track(m, self.sim)
        t.gm = self.gm
        S = self.stats = {}
        border = lambda e: bool(e.flag(BORDER_PROTECTION))
        if "ws" in self.what or "idx" in self.what:
            S["ws"], t.saddles, t.pv = self.early or self.watersheds(m)
            for e in m.edgeIter():  # (what was added later)
                t.saddles.setdefault(e.label(), []); t.pv.setdefault(e.label(), None)
        if "basins" in self.what:
            # every face gets a minimum (supersampling of faces without needs converters the module does not have)
            minima = [(rng.random() * m.imageSize()[0], rng.random() * m.imageSize()[1]) for _ in range(rng.randrange(8))]
            have = set(m.faceAt(p).label() for p in minima)
            for i in range(int(m.imageSize()[0] * 5) * int(m.imageSize()[1] * 5)):
                p = (i % int(m.imageSize()[0] * 5) / 5.0 + 0.013, i // int(m.imageSize()[0] * 5) / 5.0 + 0.017)
                if m.faceAt(p).label() not in have:
                    have.add(m.faceAt(p).label()); minima.append(p)
            rng.shuffle(minima)
        if "basins" in self.what and have >= set(f.label() for f in m.faceIter(True)):
            S["basins"] = b = statistics.WatershedBasinStatistics(m, minima, self.gm)
            for f in m.faceIter(True):
                inside = [self.gm[p] for p in minima if m.faceAt(p).label() == f.label()]
                t.depth[f.label()] = b._basinDepth[f.label()] if hasattr(b, "_basinDepth") else min(inside)
                if inside and min(inside) != t.depth[f.label()]:
                    raise Violation("basins:init", "face %d has depth %s, minima %s" % (f.label(), t.depth[f.label()], inside))
            if "ws" in S:
                S["ws"].setBasins(b)
        if "merged" in self.what:
            S["merged"] = statistics.MergedEdges(m)
            t.level0 = dict((e.label(), [e.label()]) for e in m.edgeIter())
        if "costs" in self.what:
            t.combine = COMBINERS[c["combiner"]]
            given = [rng.randrange(1, 50) / 4.0 for _ in range(m.maxEdgeLabel())]
            S["costs"] = statistics.StaticEdgeCosts(m, lambda d: given[d.edgeLabel()], combiner=t.combine) if rng.random() < 0.5 else \
                statistics.StaticEdgeCosts(m, costs=[None if m.edge(l) is None or border(m.edge(l)) else x for l, x in enumerate(given)], combiner=t.combine)
            t.cost = dict((e.label(), None if border(e) else given[e.label()]) for e in m.edgeIter())
        kinds = ("poly", "quant", "quant", "dots")
        grad = [k for k in kinds[c["seed"] % 4:] + kinds if k in self.what][:1]
        tang = [None] * m.maxEdgeLabel()
        for e in m.edgeIter():
            pts = [tuple(p) for p in e]
            l = [(a, b) for a, b in geomap.tangentList(e, 1, 0)] if len(e) > 2 else []
            tang[e.label()] = l or [(e.length() / 2, math.atan2(pts[-1][1] - pts[0][1], pts[-1][0] - pts[0][0]))]
        if "tang" in self.what:
            for e in m.edgeIter():
                pts = [tuple(p) for p in e]
                t.tangents[e.label()] = [(point_at(pts, a), b) for a, b in tang[e.label()]]
            S["tang"] = statistics.EdgeTangents(m, list(tang))
        for k in grad:
            F = geomap.QuantileStatistics if k == "quant" or (k == "dots" and c["seed"] % 2) else geomap.PolylineStatistics
            self.F = F
            if k == "dots":
                S["grad"] = statistics.EdgeGradientStatistics(m, VectorField(), None, tang, F)
                for e in m.edgeIter():
                    pts = [tuple(p) for p in e]; t.samples[e.label()] = []
                    for al, th in tang[e.label()]:
                        g = VectorField()[point_at(pts, al)]
                        t.samples[e.label()].append((-math.sin(th) * g[0] + math.cos(th) * g[1], 1.0))
            else:
                rs = c["resample"] / 10.0
                S["grad"] = statistics.EdgeGradientStatistics(m, self.gm, rs, Functor=F)
                for e in m.edgeIter():
                    pts = [tuple(p) for p in (geomap.resamplePolygon(e, rs) if rs else e)]
                    t.samples[e.label()] = [(self.gm[((p[0] + q[0]) / 2, (p[1] + q[1]) / 2)], math.hypot(q[0] - p[0], q[1] - p[1])) for p, q in zip(pts, pts[1:])]
        for k, x in S.items():
            setattr(m, "stat_" + k, x)

    # ---- running

    def run(self, ops):
        s = self.sim
        m = self.m = self.build()
        if self.cfg["late"]:
            self.attach(m); self.obs = Observers(m, s)
        else:
            self.obs = Observers(m, s); self.attach(m)
        self.frozen = {}; self.restored = False
        self.pool = [((geomap.QuantileStatistics, geomap.PolylineStatistics)[q == 3](), []) for q in range(4)]
        inner = "basins" in self.stats
        self.check()
        prev = "-"
        for i, (w, faults) in enumerate(ops):
            s.op = i; s.count("steps")
            m = self.m
            self.obs.arm(faults)
            r = None
            if w[0] == "save":
                blob = pickle.dumps(m, int(w[1]))
                keys = list(self.stats)
                self.t.m = self.obs = self.stats = m = self.m = None  # crash: only the pickle survives
                m = self.m = pickle.loads(blob)
                self.t.m = m
                self.stats = dict((k, getattr(m, "stat_" + k)) for k in keys)
                self.frozen = {}
                if self.cfg["late"]:
                    self.t.attach(); self.obs = Observers(m, s)
                else:
                    self.obs = Observers(m, s); self.t.attach()
                self.restored = True
                s.count("fault.crash-restore")
            elif w[0] == "detach":
                k = pick(sorted(self.stats), int(w[1]))
                if k is not None:
                    self.stats[k].detachHooks()
                    self.frozen[k] = (self.stats[k], self.contents(k, self.stats[k]))
                    del self.stats[k]
                    delattr(m, "stat_" + k)
                    for t in {"ws": ("saddles", "pv"), "basins": ("depth",), "merged": ("level0",), "costs": ("cost",), "tang": ("tangents",), "grad": ("samples",)}[k]:
                        getattr(self.t, t).clear()
            elif w[0] == "ask":
                self.ask(int(w[1]))
            elif w[0] == "fn":
                self.fn(w[1], int(w[2]), int(w[3]))
            elif w[0] == "sp" and self.restored:
                pass  # (a SplineImageView cannot be saved: splits need one)
            else:
                try:
                    r = apply_op(m, w, inner)
                except Boom as e:
                    if e is not self.obs.error:
                        raise
                    r = "raised"
                except RuntimeError as e:
                    if not self.obs.error:
                        raise
                    r = "raised"
            s.log(w[0], r)
            s.sig(prev + ">" + w[0] + "".join("!" + f[0] for f in faults)); prev = w[0]
            s.state(dump(m))
            self.check()

    def fn(self, k, i, n):
        """polyline statistics on their own, against the list of their samples"""
        f, l = self.pool[i]
        j = n % 4
        if k == "add":
            for q in range(n % 3 + 1):
                v, w = n % 97 / 8.0 - q * 3.5, (n // 97 % 20 + 1) / 4.0
                f(v, w); l.append((v, w))
        elif k == "poly":
            r = random.Random(n)
            pts = [(r.uniform(0.5, 6.5), r.uniform(0.5, 6.5)) for q in range(n % 6)]
            f = type(f)(geomap.Polygon(pts), self.gm)
            l = [(self.gm[((p[0] + q[0]) / 2, (p[1] + q[1]) / 2)], math.hypot(q[0] - p[0], q[1] - p[1])) for p, q in zip(pts, pts[1:])]
            self.pool[i] = f, l
        elif k == "merge":
            if len(l) + len(self.pool[j][1]) > 200:
                return
            g, o = self.pool[j]
            if type(f) is not type(g) and isinstance(f, geomap.QuantileStatistics):
                return  # (has no samples to merge)
            f.merge(g); l.extend(list(o))
        elif k == "copy":
            self.pool[j] = copy.copy(f), list(l)
        elif k == "save":
            self.pool[j] = pickle.loads(pickle.dumps(f, n % 5)), list(l)
        for q in range(4):
            if k == "ask" and q != j or k == "merge" and q == j:
                self.functor("functor %d" % q, *self.pool[q])

    def contents(self, k, x):
        if k == "ws":
            return repr([getattr(x, "_indices", None), getattr(x, "_passValues", None)])
        if k == "basins":
            return repr(getattr(x, "_basinDepth", None))
        if k == "merged":
            return repr([x[l] for l in range(len(getattr(x, "_labelLUT", ())))])
        if k == "costs":
            return repr(getattr(x, "_costs", None))
        if k == "tang":
            return repr(x.tangents)
        return repr([f and (f.average(), f.min(), f.max()) for f in getattr(x, "_functors", ())])

    def check(self):
        m, t, S = self.m, self.t, self.stats
        for k, (x, c) in self.frozen.items():
            if self.contents(k, x) != c:
                raise Violation("detached", "%s changed after detachHooks()" % k)
        es = edges(m)
        if "ws" in S:
            ws = S["ws"]
            for e in es:
                l = e.label(); pts = [tuple(p) for p in e]
                ind = ws.edgeIndices(e)
                if len(ind) != len(set(ind)) or (ind and not 0 <= min(ind) <= max(ind) < len(pts)):
                    raise Violation("indices", "edge %d of %d points has indices %s" % (l, len(pts), ind))
                got = [pts[i] for i in ind]
                if set(got) - t.fuzzy != set(t.saddles[l]) - t.fuzzy:  # (a loop may have a saddle at both ends)
                    raise Violation("saddles", "edge %d has saddles %s, expected %s" % (l, got, t.saddles[l]))
                if [tuple(p) for p in ws.edgeSaddles(e)] != got or ws.edgeIndices(l) != ind:
                    raise Violation("saddles", "edge %d: edgeSaddles() %s, indices %s" % (l, ws.edgeSaddles(e), ind))
                if t.pv[l] == "any":
                    t.pv[l] = ws.dartPassValue(e); t.saddles[l] = got
                for d in (e.dart(), e.dart().nextAlpha()):
                    dp = [tuple(p) for p in d]
                    if sorted(dp[i] for i in ws.dartIndices(d)) != sorted(got) or (d.label() > 0 and ws.dartIndices(d) != ind):
                        raise Violation("saddles", "dart %d: indices %s" % (d.label(), ws.dartIndices(d)))
                    if ws.dartPassValue(d) != t.pv[l] and not e.flag(BORDER_PROTECTION):
                        raise Violation("passvalue", "edge %d has pass value %s, expected %s" % (l, ws.dartPassValue(d), t.pv[l]))
        if "basins" in S and hasattr(S["basins"], "_basinDepth"):
            for f in m.faceIter(True):
                if S["basins"]._basinDepth[f.label()] != t.depth[f.label()]:
                    raise Violation("basins", "face %d has depth %s, expected %s" % (f.label(), S["basins"]._basinDepth[f.label()], t.depth[f.label()]))
        if "merged" in S:
            seen = []
            for e in es:
                got = sorted(S["merged"][e])
                seen += got
                if got != sorted(t.level0[e.label()]):
                    raise Violation("merged", "edge %d consists of %s, expected %s" % (e.label(), got, t.level0[e.label()]))
            if sorted(S["merged"].level0Labels()) != sorted(seen):
                raise Violation("merged", "level0Labels() %s, edges %s" % (sorted(S["merged"].level0Labels()), sorted(seen)))
        if "costs" in S:
            for e in es:
                got, want = S["costs"](e.dart()), t.cost[e.label()]
                if (got is None) != (want is None) or (want is not None and abs(got - want) > 1e-9):
                    raise Violation("costs", "edge %d costs %s, expected %s" % (e.label(), got, want))
        if "tang" in S:
            for e in es:
                pts = [tuple(p) for p in e]
                got = list(S["tang"][e.label()]); want = t.tangents[e.label()]
                if len(got) != len(want):
                    raise Violation("tangents", "edge %d has %d tangents, expected %d" % (e.label(), len(got), len(want)))
                last = None
                for al, th in got:
                    p = point_at(pts, al)
                    if not any(math.hypot(p[0] - q[0], p[1] - q[1]) < 1e-6 and abs(math.sin(th - b)) < 1e-6 for q, b in want):
                        raise Violation("tangents", "edge %d: (%s, %s) is at %s, expected one of %s" % (e.label(), al, th, p, want))
                    if last and (al < last[0] - 1e-9 or (e.label() in t.joined and abs(th - last[1]) > math.pi + 1e-6)):
                        raise Violation("tangents", "edge %d: tangents %s are not continuous" % (e.label(), got))
                    last = (al, th)
                # the direction along the edge, not against it
                for al, th in got:
                    self.direction(e, pts, al, th, want)
        if "grad" in S:
            for e in es:
                self.functor("edge %d" % e.label(), S["grad"][e.label()], t.samples[e.label()])

    def direction(self, e, pts, al, th, want):
        """tangents of chords: within 90 degrees of the segment they were computed around"""
        a, b = point_at(pts, max(0, al - 1e-3)), point_at(pts, al + 1e-3)
        if math.hypot(b[0] - a[0], b[1] - a[1]) < 1e-9:
            return
        c = math.cos(th - math.atan2(b[1] - a[1], b[0] - a[0]))
        if c < -0.3:
            raise Violation("tangents", "edge %d: tangent (%s, %s) points backwards" % (e.label(), al, th))

    def functor(self, name, f, samples):
        n = sum(l for v, l in samples)
        if not samples:
            return
        for what, got, want in (("average", f.average(), sum(v * l for v, l in samples) / n), ("min", f.min(), min(v for v, l in samples)), ("max", f.max(), max(v for v, l in samples))):
            if abs(got - want) > 1e-5 * max(1, abs(want)):
                raise Violation("gradient:" + what, "%s: %s, expected %s" % (name, got, want))
        if hasattr(f, "quantile"):
            o = sorted(samples)
            mids = []; acc = 0.0
            for v, l in o:
                mids.append((acc + l / 2) / n); acc += l
            for q in [0.25, 0.5, 0.9, 1.0] + (mids if len(mids) < 12 else mids[:6] + mids[-6:]):
                acc = 0.0; ok = []
                for v, l in o:
                    lo = acc; acc += l
                    if lo - 1e-6 <= q * n <= acc + 1e-6:
                        ok.append(v)
                got = f.quantile(q)
                if not any(abs(got - v) < 1e-4 for v in ok):
                    raise Violation("gradient:quantile", "%s: quantile %s is %s, expected %s" % (name, q, got, ok))

    def ask(self, k):
        """measures over the common boundary of two faces"""
        m, t, S = self.m, self.t, self.stats
        l = pick(darts_between(m), k)
        if l is None:
            return
        d = m.dart(l)
        common = [x.edgeLabel() for x in d.phiOrbit() if x.rightFaceLabel() == d.rightFaceLabel()]
        if "grad" in S:
            g = S["grad"]
            sm = sum((t.samples[x] for x in common), [])
            self.functor("boundary of dart %d" % l, g.combinedStatistics(d), sm)
            for got, f in ((g.average(d), "average"), (g.min(d), "min"), (g.max(d), "max")):
                if got != getattr(g.combinedStatistics(d), f)():
                    raise Violation("gradient:" + f, "boundary of dart %d" % l)
            if g.supportsQuantile() != (self.F is geomap.QuantileStatistics):
                raise Violation("gradient:quantile", "supportsQuantile() is %s" % g.supportsQuantile())
            if g.supportsQuantile():
                q = (k % 9 + 1) / 10.0
                if g.quantile(q)(d) != g.combinedStatistics(d).quantile(q):
                    raise Violation("gradient:quantile", "boundary of dart %d" % l)
        if "tang" in S:
            # tangents along the whole boundary: composed at once, or one edge after the other
            ds = [x for x in d.phiOrbit()]
            parts = [S["tang"].dartTangents(x) for x in ds]
            a = geomap.composeTangentLists(parts)
            b = []; off = 0.0
            for tl, n in parts:
                off = geomap.appendTangentList(b, off, tl, n)
            if len(a) != len(b) or any(abs(x[0] - y[0]) > 1e-9 or math.cos(x[1] - y[1]) < 0.999999 for x, y in zip(a, b)):
                raise Violation("tangents:compose", "contour of dart %d: composed %s, appended %s" % (l, a, b))
            i = 0; off = 0.0; last = None
            for x, (tl, n) in zip(ds, parts):
                pts = [tuple(p) for p in x]
                for al, th in a[i:i + len(tl)]:
                    p = point_at(pts, al - off)
                    if not any(math.hypot(p[0] - q[0], p[1] - q[1]) < 1e-6 and abs(math.sin(th - v)) < 1e-6 for q, v in t.tangents[x.edgeLabel()]):
                        raise Violation("tangents:compose", "contour of dart %d: (%s, %s) does not belong to edge %d" % (l, al, th, x.edgeLabel()))
                    if last is not None and abs(th - last) > math.pi + 1e-6:
                        raise Violation("tangents:compose", "contour of dart %d: not continuous at %s" % (l, al))
                    last = th
                    self.direction(x.edge(), pts, al - off, th, None)
                i += len(tl); off += abs(n)
        if "ws" in S:
            pv = [t.pv[x] for x in common]
            if not any(m.edge(x).flag(BORDER_PROTECTION) for x in common):
                if S["ws"].passValue(d) != min(pv):
                    raise Violation("passvalue", "boundary of dart %d: %s, expected %s" % (l, S["ws"].passValue(d), min(pv)))
                if "basins" in S and 0 not in (d.leftFaceLabel(), d.rightFaceLabel()):
                    want = t.pv[abs(l)] - min(t.depth[d.leftFaceLabel()], t.depth[d.rightFaceLabel()])
                    if abs(S["ws"].dynamics(d) - want) > 1e-9:
                        raise Violation("dynamics", "dart %d: %s, expected %s" % (l, S["ws"].dynamics(d), want))
        self.sim.log("ask", l, common)

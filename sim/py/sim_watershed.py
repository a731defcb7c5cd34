"""P26: several searches for critical points and flow lines, asked in any order, with parameters and masks that change, images that are overwritten and released,
and invalid requests in between: every answer must be that of a search that nobody else has used."""
import random
import numpy, vigra
import geomap, maputils
from world import *

MIN_DIST = (1e-3, 1e-3, 0.02, 0.3, 1.0)
STEPS = (0.1, 0.1, 0.05, 0.2)


def image(desc):
    """the picture of a description: its values are smooth enough for isolated critical points"""
    w, h, seed, kind = desc
    rng = random.Random(seed)
    a = numpy.array([[rng.random() for y in range(h)] for x in range(w)])
    if kind == 1:  # bumps
        a = 0.05 * a
        for i in range(rng.randrange(2, 6)):
            cx, cy, s, v = rng.random() * (w - 1), rng.random() * (h - 1), 0.8 + 1.5 * rng.random(), rng.random() + 0.3
            a += numpy.array([[v * math.exp(-((x - cx) ** 2 + (y - cy) ** 2) / (2 * s * s)) for y in range(h)] for x in range(w)])
    if kind == 3:  # spikes
        a = 0.02 * a
        for i in range(6):
            a[rng.randrange(w), rng.randrange(h)] += rng.choice((-1, 1, 1))
        return a.astype(numpy.float32)
    for i in range(2 - kind // 2):
        b = numpy.pad(a, 1, "reflect")
        a = (b[:-2, 1:-1] + 2 * a + b[2:, 1:-1]) / 4
        b = numpy.pad(a, 1, "reflect")
        a = (b[1:-1, :-2] + 2 * a + b[1:-1, 2:]) / 4
    return a.astype(numpy.float32)


def mask_of(seed, w, h):
    rng = random.Random(seed)
    m = numpy.zeros((w, h), numpy.float32)
    for i in range(rng.randrange(0, 4)):
        x, y = rng.randrange(w), rng.randrange(h)
        m[x:x + rng.randrange(1, w + 1), y:y + rng.randrange(1, h + 1)] = rng.choice((1.0, 255.0, 0.25, -1.0))
    return m


def xy(a):
    return vigra.taggedView(a, "xy")


def points(l):
    return tuple(None if p is None else (p[0], p[1]) for p in l)


def line(e):
    return None if e is None else (e[0], e[1], points(e[2]), e[3])


class Search:
    pass


class WatershedSim:
    @staticmethod
    def gen(rng):
        r = lambda: rng.randrange(BIG)
        L = []
        for i in range(rng.choice((1, 2, 2, 3))):
            L.append("img %d %d %d %d" % (rng.randrange(7, 13), rng.randrange(7, 13), r(), rng.choice((0, 0, 0, 1, 1, 2, 2, 3))))
        L += ["op new %d %d" % (r(), r()) for i in range(rng.choice((1, 2, 2)))]
        for i in range(rng.choice((5, 10, 18))):
            x = rng.random()
            if x < 0.07:
                L.append("op new %d %d" % (r(), r()))
            elif x < 0.14:
                L.append("op %s %d" % (rng.choice(("scribble", "scribble", "release")), r()))
            elif x < 0.26:
                L.append("op %s %d" % (rng.choice(("find", "mask %d" % r())), r()))
            elif x < 0.36:
                L.append("op set %d %d %d" % (r(), r(), r()))
            elif x < 0.44:
                L.append("op %s %d %d" % (rng.choice(("badmask", "badedge", "badedge", "badimage")), r(), r()))
            elif x < 0.65:
                L.append("op edge %d %d" % (r(), r()))
            elif x < 0.7:
                L.append("op edges %d %d" % (r(), r()))
            elif x < 0.75:
                L.append("op drop %d" % r())
            elif x < 0.83:
                L.append("op flow %d %d" % (r(), r()))
            else:
                L.append("op %s %d" % (rng.choice(("saddles", "maxima", "minima")), r()))
        return L

    def __init__(self, sim, head):
        self.sim = sim
        self.imgs = [[int(x) for x in w[1:]] for w in head if w[0] == "img"]

    def run(self, ops):
        s = self.sim
        self.live = [image(d) for d in self.imgs]   # what the application holds; the descriptions stay
        self.objs = []; self.ref = {}
        prev = "-"
        for i, (w, faults) in enumerate(ops):
            s.op = i; s.count("steps")
            r = getattr(self, "op_" + w[0])(*[int(x) for x in w[1:]])
            s.log(*(list(w) + [r]))
            s.sig("%s>%s" % (prev, w[0])); prev = w[0]
            s.state([(o.key, o.found, o.step) for o in self.objs])

    def pick(self, i):
        return self.objs[i % len(self.objs)] if self.objs else None

    # ------------------------------------------------------------------------------------------ reference

    def fresh(self, key, found, step=0.1):
        """a search of its own for these parameters"""
        desc, order = key
        dist, over, mask = found
        o = getattr(geomap, "SubPixelWatersheds%d" % order)(xy(image(desc)))
        o.minCPDist = dist; o.cpOversampling = over
        if mask is None:
            o.findCriticalPoints()
        else:
            o.findCriticalPoints(xy(mask_of(mask, desc[0], desc[1])))
        o.initialStep = step
        return o

    def lists(self, key, found):
        """saddles, maxima, minima"""
        if (key, found) not in self.ref:
            o = self.fresh(key, found)
            l = [points(getattr(o, n)()) for n in ("saddles", "maxima", "minima")]
            self.critical(key, found, l)
            if found[2] is None:
                self.complete(key, found, l)
            else:
                self.masked(key, found, l)
            self.ref[key, found] = l
        return self.ref[key, found]

    def view(self, key):
        if ("view", key) not in self.ref:
            self.ref["view", key] = getattr(vigra.sampling, "SplineImageView%d" % key[1])(xy(image(key[0])))
        return self.ref["view", key]

    def critical(self, key, found, l):
        """the points are of the kind they are listed as"""
        v = self.view(key)
        w, h = key[0][:2]
        seen = []
        for name, ps in zip(("saddles", "maxima", "minima"), l):
            if not ps or ps[0] is not None:
                raise Violation("search:list", "%s do not start with None" % name)
            for p in ps[1:]:
                if not (-1e-3 <= p[0] <= w - 1 + 1e-3 and -1e-3 <= p[1] <= h - 1 + 1e-3):
                    raise Violation("search:outside", "%s contain %s, outside of the image" % (name, p))
                g = math.hypot(v.dx(*p), v.dy(*p))
                xx, yy, mixed = v.dxx(*p), v.dyy(*p), v.dxy(*p)
                if g > 2e-3 * (abs(xx) + abs(yy) + 2 * abs(mixed)) + 1e-4:
                    raise Violation("search:gradient", "%s contain %s with gradient %g" % (name, p, g))
                det = xx * yy - mixed * mixed
                if abs(det) > 1e-3 * (xx * xx + yy * yy + 1e-3) and not (key[1] == 2 and any(abs(c % 1 - 0.5) < 2e-3 for c in p)):  # (second derivatives jump there)
                    kind = "saddles" if det < 0 else "minima" if xx + yy > 0 else "maxima"
                    if kind != name:
                        raise Violation("search:kind", "%s contain %s, one of the %s" % (name, p, kind))
                for q in seen:
                    if math.hypot(p[0] - q[0], p[1] - q[1]) < found[0] * (1 - 1e-6):
                        raise Violation("search:twice", "%s and %s are nearer than %g" % (p, q, found[0]))
                seen.append(p)

    def complete(self, key, found, l):
        """what the search finds from its starting points, step by step"""
        v = self.view(key)
        w, h = key[0][:2]
        n = found[1]
        starts = [(x + i / n, y + j / n) for y in range(h) for x in range(w) for j in range(n) for i in range(n)]
        if len(starts) > 300:
            starts = random.Random(key[0][2]).sample(starts, 300)
        for sx, sy in starts:
            x, y = sx, sy; last = 9.0
            for i in range(20):
                gx, gy, xx, xy_, yy = v.dx(x, y), v.dy(x, y), v.dxx(x, y), v.dxy(x, y), v.dyy(x, y)
                det = xx * yy - xy_ * xy_
                if abs(det) < 1e-2 * (xx * xx + yy * yy + xy_ * xy_) + 1e-4:
                    break
                dx, dy = (xy_ * gy - yy * gx) / det, (xy_ * gx - xx * gy) / det
                x += dx; y += dy
                # (the straight ways only: on others rounding decides where they lead)
                if math.hypot(x - sx, y - sy) > 0.7 or math.hypot(dx, dy) > 0.7 * last or not (0.01 < x < w - 1.01 and 0.01 < y < h - 1.01):
                    break
                last = math.hypot(dx, dy)
                if last < 1e-5:
                    if not any(q and math.hypot(x - q[0], y - q[1]) <= found[0] + 2e-3 for q in sum(l, ())):
                        raise Violation("search:missed", "critical point %s found from %s is missing" % ((x, y), (sx, sy)))
                    break

    def masked(self, key, found, l):
        """a mask restricts where the search starts, and nothing else"""
        w, h = key[0][:2]
        m = mask_of(found[2], w, h)
        all_ = self.lists(key, found[:2] + (None,))
        if (m != 0).all() and l != all_:
            raise Violation("search:mask", "a mask of the whole image finds other points")
        for a, b, inside in ((sum(l, ()), sum(all_, ()), False), (sum(all_, ()), sum(l, ()), True)):
            for p in a:
                if p is None:
                    continue
                x, y = p
                near = m[max(0, int(x) - 3):int(x) + 5, max(0, int(y) - 3):int(y) + 5] != 0
                if not inside and not near.any():
                    raise Violation("search:mask", "point %s found far from the mask" % (p,))
                if (not inside or near.all()) and not any(q and math.hypot(x - q[0], y - q[1]) <= found[0] + 2e-3 for q in b):
                    raise Violation("search:mask", "point %s found only %s the mask" % (p, "without" if inside else "with"))

    # ------------------------------------------------------------------------------------------ the application

    def op_new(self, i, k):
        if len(self.objs) >= 4:
            return "-"
        i %= len(self.imgs)
        order = (2, 3, 5)[k % 3]
        if self.live[i] is None:
            self.live[i] = image(self.imgs[i])
        a = self.live[i]
        if not (a == image(self.imgs[i])).all():
            self.live[i] = a = image(self.imgs[i])
        o = Search()
        if k // 3 % 3 == 0:  # part of a larger array
            b = numpy.full((a.shape[0] + 3, a.shape[1] + 2), 7, numpy.float32)
            b[1:1 + a.shape[0], 2:2 + a.shape[1]] = a
            self.live[i] = a = b[1:1 + a.shape[0], 2:2 + a.shape[1]]
        o.key = (tuple(self.imgs[i]), order)
        o.obj = getattr(geomap, "SubPixelWatersheds%d" % order)(xy(a))
        o.found = None; o.dist, o.over, o.step = 1e-3, 2, 0.1
        self.objs.append(o)
        if (o.obj.width(), o.obj.height()) != tuple(self.imgs[i][:2]):
            raise Violation("search:size", "%d x %d for an image of %d x %d" % (o.obj.width(), o.obj.height(), self.imgs[i][0], self.imgs[i][1]))
        return order

    def op_drop(self, i):
        if len(self.objs) < 2:
            return "-"
        del self.objs[i % len(self.objs)]

    def op_scribble(self, i):
        a = self.live[i % len(self.live)]
        if a is None:
            return "-"
        a[:] = numpy.float32(i % 11) - a
        self.sim.count("fault.image-overwritten")

    def op_release(self, i):
        self.live[i % len(self.live)] = None
        self.sim.count("fault.image-released")

    def op_set(self, i, what, v):
        o = self.pick(i)
        if not o:
            return "-"
        what %= 3
        if what == 0:
            o.obj.minCPDist = o.dist = MIN_DIST[v % len(MIN_DIST)]
        elif what == 1:
            o.obj.cpOversampling = o.over = v % 3 + 1
        else:
            o.obj.initialStep = o.step = STEPS[v % len(STEPS)]
        if (o.obj.minCPDist, o.obj.cpOversampling, o.obj.initialStep) != (o.dist, o.over, o.step):
            raise Violation("search:parameters", "parameters read back as %s, should be %s" % ((o.obj.minCPDist, o.obj.cpOversampling, o.obj.initialStep), (o.dist, o.over, o.step)))

    def op_find(self, i):
        o = self.pick(i)
        if not o:
            return "-"
        o.obj.findCriticalPoints()
        o.found = (o.dist, o.over, None)

    def op_mask(self, m, i):
        o = self.pick(i)
        if not o:
            return "-"
        a = mask_of(m, o.key[0][0], o.key[0][1])
        o.obj.findCriticalPoints(xy(a))
        a[:] = 1
        o.found = (o.dist, o.over, m)

    def listing(self, i, n):
        o = self.pick(i)
        if not o:
            return "-"
        self.need(o)
        got = points(getattr(o.obj, ("saddles", "maxima", "minima")[n])())
        want = self.lists(o.key, o.found)[n]
        if got != want:
            raise Violation("search:" + ("saddles", "maxima", "minima")[n], "%d points %s, a search of its own finds %d %s" % (len(got), got[:3], len(want), want[:3]))
        return len(got)

    def need(self, o):
        """the first question starts the search"""
        if o.found is None:
            o.found = (o.dist, o.over, None)

    def op_saddles(self, i):
        return self.listing(i, 0)

    def op_maxima(self, i):
        return self.listing(i, 1)

    def op_minima(self, i):
        return self.listing(i, 2)

    def op_edge(self, i, k):
        o = self.pick(i)
        if not o:
            return "-"
        self.need(o)
        s = self.lists(o.key, o.found)[0]
        if len(s) < 2:
            return "-"
        k = k % (len(s) - 1) + 1
        got = line(o.obj.edge(k))
        want = line(self.fresh(o.key, o.found, o.step).edge(k))
        if got != want:
            raise Violation("search:edge", "flow line %d: %s, a search of its own gives %s" % (k, brief(got), brief(want)))
        self.flowline(o, k, got)
        return got[0], got[1], len(got[2])

    def flowline(self, o, k, e):
        s, m, _ = self.lists(o.key, o.found)
        v = self.view(o.key)
        pts = e[2]
        if not 0 < e[3] < len(pts) - 1 or pts[e[3]] != s[k]:
            raise Violation("search:through", "flow line %d does not run through its saddle" % k)
        w, h = o.key[0][:2]
        for n, half in ((e[0], pts[e[3]::-1]), (e[1], pts[e[3]:])):
            end = half[-1]
            height = None
            for p, q in zip(half, half[1:]):
                if not math.hypot(p[0] - q[0], p[1] - q[1]) <= 3:
                    raise Violation("search:jump", "flow line %d jumps from %s to %s" % (k, p, q))
                if not (0 <= q[0] <= w - 1 and 0 <= q[1] <= h - 1):
                    continue
                last, height = height, v(*q)
                if last is not None and height < last - 1e-4:
                    raise Violation("search:descent", "flow line %d descends from %g to %g at %s" % (k, last, height, q))
            if n > 0 and math.hypot(end[0] - half[-2][0], end[1] - half[-2][1]) > o.step + 1e-9:
                raise Violation("search:end", "flow line %d was still far from maximum %d" % (k, n))
            if n > 0:
                if n >= len(m) or m[n] != end:
                    raise Violation("search:end", "flow line %d ends at %s, not at maximum %d" % (k, end, n))
            elif any(p and math.hypot(p[0] - end[0], p[1] - end[1]) < 0.5 * o.step for p in m):
                raise Violation("search:missed", "flow line %d ends in %d next to a maximum" % (k, n))
            elif n not in (0, -1, -3, -4):
                raise Violation("search:end", "flow line %d ends in %d" % (k, n))

    def op_edges(self, i, t):
        o = self.pick(i)
        if not o:
            return "-"
        self.need(o)
        s = self.lists(o.key, o.found)[0]
        v = self.view(o.key)
        values = [v(*p) for p in s[1:]]
        t = (-1e9, 1e9)[t // 8 % 2] if t % 8 == 0 or not values else sorted(values)[t // 8 % len(values)] - 1e-4
        got = o.obj.edges(t)
        if len(got) != len(s) - 1:
            raise Violation("search:edges", "%d flow lines for %d saddles" % (len(got), len(s) - 1))
        n = 0
        r = self.fresh(o.key, o.found, o.step)
        for k, (e, x) in enumerate(zip(got, values)):
            if abs(x - t) < 1e-5:
                continue
            if (x >= t) != (e is not None):
                raise Violation("search:threshold", "flow line %d of a saddle of height %g %s at threshold %g" % (k + 1, x, "given" if e is not None else "missing", t))
            if e is not None:
                if n < 5 and line(e) != line(r.edge(k + 1)):
                    raise Violation("search:edges", "flow line %d: %s, a search of its own gives %s" % (k + 1, brief(line(e)), brief(line(r.edge(k + 1)))))
                self.flowline(o, k + 1, line(e)); n += 1
        return n

    # ------------------------------------------------------------------------------------------ invalid requests

    def refuse(self, what, f, *errors):
        self.sim.count("fault." + what.replace(" ", "-"))
        try:
            f()
        except errors:
            return
        raise Violation("search:accepted", what)

    def op_badedge(self, i, k):
        o = self.pick(i)
        if not o:
            return "-"
        self.need(o)
        n = len(self.lists(o.key, o.found)[0])
        k = (0, -1, n, n + 1, -n, 2 ** 31 - 1, -2 ** 31)[k % 7]
        self.refuse("flow line of no saddle", lambda: o.obj.edge(k), IndexError)

    def op_badmask(self, i, k):
        o = self.pick(i)
        if not o:
            return "-"
        w, h = o.key[0][:2]
        s = ((w - 1, h), (w, h - 1), (1, 1), (w + 1, h), (w, h + 1), (h, w) if w != h else (w, h + 2))[k % 6]
        self.refuse("mask of another size", lambda: o.obj.findCriticalPoints(xy(numpy.ones(s, numpy.float32))), RuntimeError)

    def op_badimage(self, i, k):
        """an image too small for the search: it must not be taken for searched afterwards"""
        o = getattr(geomap, "SubPixelWatersheds%d" % (2 + k % 2))(xy(image((3, 3, i, 0))))
        for j in range(2):
            self.refuse("image too small", (o.saddles, o.maxima, o.minima, lambda: o.edge(1), lambda: o.edges(0.0))[(k // 2 + j) % 5], RuntimeError)

    # ------------------------------------------------------------------------------------------ flow lines as edges of a map

    def op_flow(self, i, k):
        o = self.pick(i)
        if not o:
            return "-"
        self.need(o)
        s, m, _ = self.lists(o.key, o.found)
        if len(m) < 2:
            return "-"
        size = o.key[0][:2]
        # (ends other than maxima, and clipping, need arithmetic with points that the module no longer offers)
        lines = [None] + [e + (j + 1,) if e[0] > 0 and e[1] > 0 else None for j, e in enumerate(o.obj.edges(-1e9))]
        if k % 5 == 0:
            lines = [e if e and random.Random(k + j).random() < 0.6 else None for j, e in enumerate(lines)]
        rng = random.Random(k)
        for j in range(1, len(lines)):
            if lines[j] is None and rng.random() < 0.3:  # a loop without extent
                n = rng.randrange(1, len(m))
                lines[j] = (n, n, [m[n], m[n]], 0, j)
        given = [e and (line(e), e[4]) for e in lines]
        g = geomap.GeoMap(o.obj.maxima(), [], size)
        cut = [len(lines)] if k // 10 % 2 else sorted([1 + k // 20 % len(lines), len(lines)])
        left = []; done = 1
        for c in cut:  # one batch after the other
            part = [None] * done + lines[done:c]
            left += maputils.addFlowLinesToMap(part, g)
            if len(part) != max(done, c) or [e and (line(e), e[4]) for e in part[done:]] != given[done:c]:
                raise Violation("flow:changed", "the flow lines were changed without an image size")
            done = max(done, c)
        left = [e[4] for e in left]
        for j in range(1, len(lines)):
            edge = g.edge(j) if j < g.maxEdgeLabel() else None
            if given[j] is None:
                if edge:
                    raise Violation("flow:label", "edge %d without a flow line" % j)
                continue
            sn, en, pts, si = given[j][0]
            if left.count(j) != (edge is None):
                raise Violation("flow:lost", "flow line %d %s" % (j, "neither added nor returned" if edge is None else "both added and returned"))
            if (edge is None) != (sn == en and len(pts) == 2):
                raise Violation("flow:refused", "flow line %d from maximum %d to %d (%d points) was %sadded" % (j, sn, en, len(pts), "not " if edge is None else ""))
            if edge is None:
                continue
            if points(edge) != pts:
                raise Violation("flow:points", "edge %d has %d points, its flow line %d" % (j, len(edge), len(pts)))
            if (edge.startNodeLabel(), edge.endNodeLabel()) != (sn, en):
                raise Violation("flow:node", "edge %d between nodes %d and %d instead of maxima %d and %d" % (j, edge.startNodeLabel(), edge.endNodeLabel(), sn, en))
        for j in range(1, len(m)):
            if tuple(g.node(j).position()) != m[j]:
                raise Violation("flow:maximum", "node %d is not at maximum %d" % (j, j))
        if any(e.label() >= len(lines) for e in g.edgeIter()):
            raise Violation("flow:label", "edges without flow lines")
        return g.edgeCount, g.nodeCount, len(left)


def brief(e):
    return "%d, %d, %d points %s, saddle %d" % (e[0], e[1], len(e[2]), e[2][:2], e[3])

"""P22: point arrays, iterators and views from Python: tasks (iterations, reads, edits of arrays, Euler operations, releases) interleaved by a seeded
scheduler, against plain lists."""
import copy, gc, math, pickle, random
import numpy, vigra, geomap
from world import *

KINDS = (("mf", 4), ("mfc", 2), ("rb", 3), ("me", 3), ("sp", 6), ("rin", 1), ("bulk", 1), ("res", 1))
ERRORS = (IndexError, TypeError, ValueError, RuntimeError, OverflowError)
SLOTS = 5


def coord(n):
    return (n % 41) / 4.0 - 2


def vec(n, integer=False):
    n = int(n)
    return (n % 11, n // 11 % 11) if integer else (coord(n), coord(n // 41))


def seg(pts):
    return sum(math.hypot(q[0] - p[0], q[1] - p[1]) for p, q in zip(pts, pts[1:]))


def area2(pts):
    return sum(q[0] * p[1] - q[1] * p[0] for p, q in zip(pts, pts[1:])) / 2


class Arr:
    """an array of points together with its list"""
    def __init__(self, obj, pts):
        self.o, self.l = obj, list(pts)
        self.ever = set(self.l)
        self.changes = 0

    @property
    def integer(self):
        return isinstance(self.o, geomap.Point2DArray)

    @property
    def polygon(self):
        return isinstance(self.o, geomap.Polygon)

    def set(self, l):
        l = list(l)
        if l != self.l:
            self.changes += 1
        self.l = l
        self.ever |= set(l)


class ArrayTask:
    kind = "points"

    def __init__(self, a):
        self.a, self.start, self.l, self.n = a, a.changes, list(a.l), 0
        self.ever = a.ever
        self.it = iter(a.o)

    def step(self):
        """-> finished"""
        same = self.a is None or self.a.changes == self.start
        try:
            v = tuple(next(self.it))
        except StopIteration:
            if same and self.n < len(self.l):
                raise Violation("iterate:short", "iterator over %d points stopped after %d" % (len(self.l), self.n))
            return True
        if same and (self.n >= len(self.l) or self.l[self.n] != v):
            raise Violation("iterate:value", "point %d is %s, expected %s" % (self.n, v, self.l[self.n:self.n + 1]))
        if v not in self.ever:
            raise Violation("iterate:value", "%s was never in the array" % (v,))
        self.n += 1
        return self.n > 5000


class FixedTask:
    """an iterator whose elements are known as long as nothing it looks at has changed"""
    def __init__(self, kind, it, want, version=None, key=None, needs_map=False):
        self.kind, self.it, self.want, self.n, self.key = kind, it, want, 0, key
        self.version, self.start = version, version and version()
        self.needs_map = needs_map

    def step(self):
        same = self.version is None or self.version() == self.start
        try:
            v = next(self.it)
        except StopIteration:
            if same and self.n < len(self.want):
                raise Violation("iterate:short", "%s: stopped after %d of %d" % (self.kind, self.n, len(self.want)))
            return True
        except RuntimeError:
            if same:
                raise
            return True  # (the cells it goes along do not exist any more)
        v = self.key(v) if self.key else v
        if same and (self.n >= len(self.want) or self.want[self.n] != v):
            raise Violation("iterate:value", "%s: element %d is %s, expected %s" % (self.kind, self.n, v, self.want[self.n:self.n + 1]))
        self.n += 1
        return self.n > 300  # (an orbit whose start has been removed)


class CellTask:
    def __init__(self, w, kind, skip):
        self.w, self.kind = w, kind
        m = w.m
        self.it = {"nodes": m.nodeIter, "edges": m.edgeIter}[kind]() if kind != "faces" else (m.faceIter(True) if skip else m.faceIter())
        self.always = set(w.labels(kind)) - ({0} if skip and kind == "faces" else set())
        self.skip = skip and kind == "faces"
        self.got, self.last, self.held, self.n = set(), -1, [], 0
        self.seen()

    def seen(self):
        if self.w is not None and self.w.m is not None:
            self.now = set(self.w.labels(self.kind)); self.always &= self.now

    def step(self):
        self.seen()
        try:
            c = next(self.it)
        except StopIteration:
            if self.always - self.got:
                raise Violation("iterate:cells", "%s: %s exist all the time, but were left out" % (self.kind, sorted(self.always - self.got)[:5]))
            return True
        l = c.label()
        if l <= self.last or (self.skip and l == 0):
            raise Violation("iterate:cells", "%s: %d after %d" % (self.kind, l, self.last))
        if l not in self.now:
            raise Violation("iterate:cells", "%s: %d does not exist" % (self.kind, l))
        if not c.initialized() if hasattr(c, "initialized") else False:
            raise Violation("iterate:cells", "%s: %d is not valid" % (self.kind, l))
        self.last = l; self.got.add(l); self.n += 1
        return False


class MapState:
    """the map of the session; every change of it is recorded here"""
    def __init__(self, m):
        self.m, self.version = m, 0

    def labels(self, kind):
        m = self.m
        f, n = {"nodes": (m.node, m.maxNodeLabel), "edges": (m.edge, m.maxEdgeLabel), "faces": (m.face, m.maxFaceLabel)}[kind]
        return [l for l in range(n()) if f(l) is not None]


class Lut:
    def __init__(self, n):
        self.o, self.rep = geomap.LabelLUT(n), list(range(n))
        self.changes = 0

    def group(self, l):
        return set(i for i, r in enumerate(self.rep) if r == l)


class ViewSim:
    @staticmethod
    def gen(rng):
        L = ["map " + gen_map(rng, True), "cfg seed=%d dangling=0" % rng.randrange(1 << 20)]
        focus = rng.choice(("array", "map", "lut", "mixed", "mixed"))
        r = lambda: rng.randrange(BIG)
        for i in range(rng.choice((10, 40, 80))):
            k = rng.choices(("new", "edit", "read", "bad", "iter", "step", "map", "mapiter", "lut", "scan", "drop"),
                            {"array": (2, 8, 6, 2, 3, 8, 0, 0, 0, 1, 1), "map": (0, 0, 0, 0, 0, 10, 5, 4, 0, 0, 1), "lut": (0, 0, 0, 0, 0, 5, 0, 0, 12, 0, 1),
                             "mixed": (1, 4, 3, 1, 2, 12, 3, 3, 3, 1, 2)}[focus])[0]
            if k == "new":
                L.append("op new %d %s %d %d" % (rng.randrange(SLOTS), rng.choice(("p", "p", "p", "v", "r", "copy", "save", "slice", "poly", "list")), r(), r()))
            elif k == "edit":
                L.append("op edit %d %s %d %d" % (rng.randrange(SLOTS), rng.choice(("append",) * 3 + ("insert", "insert", "del", "del", "set", "set", "extend", "extend", "extlist", "self", "split", "swap", "reverse", "many")), r(), r()))
            elif k == "read":
                L.append("op read %d %d %d" % (rng.randrange(SLOTS), r(), r()))
            elif k == "bad":
                L.append("op bad %d %d %d" % (rng.randrange(SLOTS), rng.randrange(20), r()))
            elif k == "iter":
                L.append("op iter %d" % rng.randrange(SLOTS))
            elif k == "step":
                L.append("op step %d %d" % (r(), rng.choice((1, 1, 2, 5, 1000))))
            elif k == "map":
                L.append("op " + gen_op(rng, KINDS))
            elif k == "mapiter":
                L.append("op mapiter %s %d" % (rng.choice(("nodes", "edges", "edges", "faces", "finite", "contours", "holes", "phi", "sigma", "alpha", "dart", "dart", "contour", "edgepts")), r()))
            elif k == "lut":
                L.append("op lut %s %d %d" % (rng.choice(("new", "append", "relabel", "relabel", "relabel", "read", "iter", "iter", "bad", "copy", "save", "reset")), r(), r()))
            elif k == "scan":
                L.append("op scan %d %d" % (rng.randrange(SLOTS), r()))
            else:
                L.append("op drop %s %d" % (rng.choice(("array", "array", "lut", "task", "map", "gc")), r()))
        return L

    def __init__(self, sim, head):
        self.sim = sim
        self.cfg = {}
        for w in head:
            if w[0] == "map":
                self.desc = w[1:]
            elif w[0] == "cfg":
                self.cfg.update((k, int(v)) for k, v in (x.split("=") for x in w[1:]))

    def run(self, ops):
        s = self.sim
        self.a = [Arr(geomap.Polygon(), []) for i in range(SLOTS)]
        self.w = MapState(build_map(self.desc))
        self.lut = Lut(6)
        self.tasks = []
        prev = "-"
        for i, (w, faults) in enumerate(ops):
            s.op = i; s.count("steps")
            r = getattr(self, "do_" + w[0], self.euler)(w)
            s.log(*(list(w) + [r]))
            k = " ".join(w[:3 if w[0] in ("edit", "new") else 2 if w[0] in ("lut", "drop", "mapiter") else 1])
            s.sig(prev + ">" + k); prev = k
            for x in range(SLOTS):
                self.same(x)
            s.state([(type(x.o).__name__, len(x.l)) for x in self.a] + sorted(t.kind for t in self.tasks))

    def same(self, i):
        a = self.a[i]
        if len(a.o) != len(a.l) or [tuple(a.o[j]) for j in range(len(a.l))] != a.l:
            raise Violation("array:contents", "array %d (%s) is %s, expected %s" % (i, type(a.o).__name__, [tuple(a.o[j]) for j in range(min(len(a.o), 20))], a.l[:20]))

    # ---- arrays

    def do_new(self, w):
        i, k, n, q = int(w[1]), w[2], int(w[3]), int(w[4])
        rng = random.Random(n)
        other = self.a[q % SLOTS]
        pts = [vec(rng.randrange(BIG)) for j in range(rng.choice((0, 1, 2, 3, 5, 9)))]
        if k in ("p", "v"):
            if rng.randrange(3) == 0 and len(pts) > 2:
                pts.append(pts[0])
            a = Arr((geomap.Polygon if k == "p" else geomap.Vector2Array)(pts), pts)
        elif k == "r":
            o = (other.o if not other.integer else geomap.Polygon(pts)).roundToInteger()
            src = other.l if not other.integer else pts
            a = Arr(o, [(int(math.floor(p[0] + 0.5)), int(math.floor(p[1] + 0.5))) for p in src])
        elif k == "copy":
            a = Arr(type(other.o)(other.o), other.l)
        elif k == "save":
            if not other.polygon:
                return "-"
            o = other.o
            a = Arr(pickle.loads(pickle.dumps(o, n % 5)) if n % 2 else copy.deepcopy(o), other.l)
            self.sim.count("fault.crash-restore")
        elif k == "slice":
            x, y = [rng.choice((None, 0, 1, -1, 2, 5, -3, 100, -100)) for j in range(2)]
            a = Arr(other.o[x:y], other.l[x:y])
            if type(a.o) is not type(other.o):
                raise Violation("array:type", "slice of %s is a %s" % (type(other.o), type(a.o)))
        elif k == "poly":
            if other.integer:
                return "-"
            a = Arr(geomap.Polygon(other.o), other.l)
        else:
            if other.integer:
                return "-"
            a = Arr(geomap.Polygon(list(other.o)), other.l)
        self.a[i] = a
        return len(a.l)

    def index(self, n, size):
        return n % (2 * size) - size if size else 0

    def do_edit(self, w):
        i, k, n, q = int(w[1]), w[2], int(w[3]), int(w[4])
        a = self.a[i]; l = list(a.l); other = self.a[q % SLOTS]; v = vec(n, a.integer)
        if k in ("append", "del", "extend", "extlist", "self", "split", "swap", "many") and not a.polygon:
            return "-"
        if len(l) > 300:
            return "-"
        if k == "append":
            a.o.append(v); l.append(v)
        elif k == "many":
            for j in range(n % 40):
                a.o.append(vec(n + j * 7)); l.append(vec(n + j * 7))
        elif k == "insert":
            j = q % (len(l) + 1)
            if q % 5 == 0:  # (negative positions: at some place)
                a.o.insert(-1 - j, v)
                got = [tuple(p) for p in a.o]
                if not any(l[:x] + [v] + l[x:] == got for x in range(len(l) + 1)):
                    raise Violation("array:contents", "insert(%d, ..) into %s gave %s" % (-1 - j, l, got))
                l = got
            else:
                a.o.insert(j, v); l.insert(j, v)
        elif k == "del":
            if not l:
                return "-"
            j = self.index(q, len(l))
            del a.o[j]; del l[j]
        elif k == "set":
            if not l:
                return "-"
            j = self.index(q, len(l))
            a.o[j] = v; l[j] = v
        elif k in ("extend", "self", "extlist"):
            if k == "self":
                other = a
            if not other.polygon:
                return "-"
            m = list(other.l)
            if l and m and l[-1] == m[0]:
                m = m[1:]
            a.o.extend(other.o if k != "extlist" else list(other.o))
            l += m
        elif k == "split":
            if not l:
                return "-"
            j = self.index(q, len(l))
            r = a.o.split(j); j %= len(l)
            rest = l[j:]; l = l[:j + 1]
            a.set(l)
            if [tuple(p) for p in r] != rest:
                raise Violation("array:split", "split(%d) gave %s, expected %s" % (j, [tuple(p) for p in r], rest))
            if n % 2:
                self.a[(i + 1) % SLOTS] = Arr(r, rest)
            return len(rest)
        elif k == "swap":
            if other.integer:
                return "-"
            m = list(other.l)
            a.o.swap(other.o)
            if other is not a:
                other.set(l); l = m
        elif k == "reverse":
            a.o.reverse(); l.reverse()
        a.set(l)
        return len(l)

    def do_read(self, w):
        i, n, q = int(w[1]), int(w[2]), int(w[3])
        a = self.a[i]; l, o = a.l, a.o

        def eq(what, got, want, eps=1e-6):
            if abs(got - want) > eps * max(1, abs(want)):
                raise Violation("array:" + what, "%s of %s is %s, expected %s" % (what, l[:20], got, want))

        def pts(what, got, want):
            got = [tuple(p) for p in got]
            if len(got) != len(want) or any(abs(x - y) > 1e-9 for p, r in zip(got, want) for x, y in zip(p, r)):
                raise Violation("array:" + what, "%s of %s is %s, expected %s" % (what, l[:20], got[:20], want[:20]))
        if l:
            j = self.index(n, len(l))
            pts("[%d]" % j, [o[j]], [l[j]])
        if a.integer:
            return
        if len(l) > 1:
            j = q % (len(l) - 1); t = (n % 5) / 4.0
            pts("interpolate", [o.interpolate(j, t)], [((1 - t) * l[j][0] + t * l[j + 1][0], (1 - t) * l[j][1] + t * l[j + 1][1])])
        f = (n % 7 - 3) / 2.0
        pts("*", o * f, [(x * f, y * f) for x, y in l])
        v = vec(q)
        pts("+", o + v, [(x + v[0], y + v[1]) for x, y in l])
        pts("roundToInteger", o.roundToInteger(), [(math.floor(x + 0.5), math.floor(y + 0.5)) for x, y in l])
        if not a.polygon:
            return
        closed = bool(l) and l[0] == l[-1]
        if bool(o.closed()) != closed:
            raise Violation("array:closed", "closed() of %s is %s" % (l[:20], o.closed()))
        eq("length", o.length(), seg(l)); eq("partialArea", o.partialArea(), area2(l))
        bb = o.boundingBox()
        if bool(bb.isEmpty()) != (not l):
            raise Violation("array:boundingBox", "of %s is %s" % (l[:20], bb))
        if l:
            pts("boundingBox", [bb.begin(), bb.end()], [(min(x for x, y in l), min(y for x, y in l)), (max(x for x, y in l), max(y for x, y in l))])
        al = [0.0]
        for p, r in zip(l, l[1:]):
            al.append(al[-1] + math.hypot(p[0] - r[0], p[1] - r[1]))
        got = o.arcLengthList()
        if len(got) != len(al) or any(abs(x - y) > 1e-6 for x, y in zip(got, al)):
            raise Violation("array:arcLengthList", "of %s is %s" % (l[:20], list(got)[:20]))
        if not repr(o).startswith("<Polygon (%d points" % len(l)) or ("closed" in repr(o)) != closed:
            raise Violation("array:repr", "%s for %s" % (repr(o), l[:20]))
        if closed and len(l) > 3:
            p = (v[0] + 0.111, v[1] + 0.0837)
            if bool(o.contains(p)) != self.inside(l, p):
                raise Violation("array:contains", "%s in %s: %s" % (p, l[:20], o.contains(p)))
        if len(l) > 1:
            p = (v[0] + 0.111, v[1] + 0.0837)
            r = tuple(o.nearestPoint(p)); d = math.hypot(r[0] - p[0], r[1] - p[1])
            eq("nearestPoint", d, min(self.dist(p, x, y) for x, y in zip(l, l[1:])))
            if min(self.dist(r, x, y) for x, y in zip(l, l[1:])) > 1e-6:
                raise Violation("array:nearestPoint", "%s is not on %s" % (r, l[:20]))

    @staticmethod
    def inside(l, p):
        c = False
        for (x1, y1), (x2, y2) in zip(l, l[1:]):
            if (y1 > p[1]) != (y2 > p[1]) and p[0] < x1 + (x2 - x1) * (p[1] - y1) / (y2 - y1):
                c = not c
        return c

    @staticmethod
    def dist(p, a, b):
        dx, dy = b[0] - a[0], b[1] - a[1]
        n = dx * dx + dy * dy
        t = max(0, min(1, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / n)) if n else 0
        return math.hypot(a[0] + t * dx - p[0], a[1] + t * dy - p[1])

    def do_bad(self, w):
        """what must be refused without changing anything"""
        a = self.a[int(w[1])]; k = int(w[2]); n = int(w[3])
        o, s = a.o, len(a.l)
        far = (s, s + 1, s + 7, -s - 1, -s - 2, 2 ** 31 - 1, -2 ** 31)[n % 7]

        def delete(i):
            del o[i]

        def assign(i, v):
            o[i] = v
        v = vec(n, a.integer)
        P = [lambda: o[far], lambda: assign(far, v), lambda: o["x"], lambda: assign(0, "x"), lambda: o[::2] and [][1], lambda: o.insert((s + 1, s + 9, -s - 2, 2 ** 31 - 1)[n % 4], v), lambda: o.insert(0, None)]
        if not a.integer:
            P += [lambda: o.interpolate((s - 1, s, s + 5, -s - 1, 2 ** 31 - 1)[n % 5] if s else n % 3, 0.5), lambda: o + "x", lambda: o * "x", lambda: type(o)([(1, 2), "x"]), lambda: type(o)([(1, 2), (1, 2, 3)])]
        if a.polygon:
            P += [lambda: delete(far), lambda: o.split(far), lambda: o.append("x"), lambda: o.append((1, 2, 3)), lambda: o.extend([(1, 2), 3]), lambda: o.extend(None), lambda: o.swap([(1, 2)])]
        f = P[k % len(P)]
        try:
            r = f()
        except ERRORS as e:
            self.sim.count("fault.bad-argument")
            return type(e).__name__
        if k % len(P) == 4 and s < 3:
            return "short"  # (a step does not matter here)
        raise Violation("array:accepted", "bad access %d (%s) to an array of %d points gave %s" % (k % len(P), far, s, str(r)[:80]))

    # ---- iterations

    def add(self, t):
        if len(self.tasks) > 7:
            self.tasks.pop(0)
        self.tasks.append(t)
        return len(self.tasks)

    def do_iter(self, w):
        return self.add(ArrayTask(self.a[int(w[1])]))

    def do_step(self, w):
        t = pick(self.tasks, int(w[1]))
        if t is None:
            return "-"
        for i in range(int(w[2])):
            if t.step():
                self.tasks.remove(t)
                self.sim.count("iterations")
                return t.kind + " end"
        return t.kind

    def euler(self, w):
        if self.w.m is None:
            return "-"
        r = apply_op(self.w.m, w)
        if r is not None:
            self.w.version += 1
        for t in self.tasks:
            if isinstance(t, CellTask):
                t.seen()
        return r

    def do_mapiter(self, w):
        k, n = w[1], int(w[2]); m = self.w.m; W = self.w
        if m is None:
            return "-"
        version = lambda: W.version
        label = lambda d: d.label()
        point = lambda p: tuple(p)
        if k in ("nodes", "edges", "faces", "finite"):
            return self.add(CellTask(W, "faces" if k == "finite" else k, k == "finite"))
        if k in ("contours", "holes"):
            f = m.face(pick(W.labels("faces"), n))
            want = [d.label() for d in f.contours()]
            if len(want) != f.holeCount() + (1 if f.label() else 0):
                raise Violation("iterate:contours", "face %d has %d holes and %d contours" % (f.label(), f.holeCount(), len(want)))
            if k == "holes" and f.label():
                want = want[1:]
            it = f.contours() if k == "contours" else f.holeContours()
            return self.add(FixedTask(k, it, want, version, label, True))
        l = pick(W.labels("edges")[0:], n)
        if l is None:
            return "-"
        e = m.edge(l)
        pts = [tuple(e[i]) for i in range(len(e))]
        if k == "edgepts":
            return self.add(FixedTask(k, iter(e), pts, version, point))
        d = m.dart(l if n // 3 % 2 else -l)
        if d.label() < 0:
            pts.reverse()
        if k == "dart":
            if [tuple(d[i]) for i in range(-len(d), len(d))] != pts + pts:
                raise Violation("iterate:dart", "points of dart %d" % d.label())
            return self.add(FixedTask(k, iter(d), pts, version, point))
        step = {"phi": "nextPhi", "sigma": "nextSigma", "alpha": "nextAlpha", "contour": "nextPhi"}[k]
        want, x = [], d.clone()
        while True:
            want.append(x.label())
            getattr(x, step)()
            if x.label() == d.label():
                break
            if len(want) > 5000:
                raise Violation("iterate:orbit", "%s orbit of dart %d does not close" % (k, d.label()))
        if k == "contour":
            twice = bool(n % 2)
            p = []
            for y in want:
                q = [tuple(z) for z in m.edge(abs(y))]
                p += (q if y > 0 else q[::-1])[1:]
            if twice:
                q = [tuple(z) for z in m.edge(abs(want[0]))]
                p.insert(0, q[0] if want[0] > 0 else q[-1])
            return self.add(FixedTask(k, geomap.ContourPointIter(d, twice), p, version, point, True))
        return self.add(FixedTask(k, getattr(d, k + "Orbit")(), want, version, label, True))

    def do_scan(self, w):
        a = self.a[int(w[1])]; n = int(w[2])
        if not a.polygon:
            return "-"
        sl = geomap.scanPoly(a.o)
        want = []
        for y in range(sl.startIndex(), sl.endIndex()):
            line = sl[y]
            for j in range(len(line)):
                want += [(x, y) for x in range(int(line[j].begin), int(line[j].end))]
        if a.l and len(sl) != int(math.floor(max(y for x, y in a.l) + 0.5)) - int(math.floor(min(y for x, y in a.l) + 0.5)) + 1:
            raise Violation("scanlines:lines", "%d scanlines for %s" % (len(sl), a.l[:20]))
        for bad in (sl.startIndex() - 1, sl.endIndex()):
            try:
                sl[bad]
            except IndexError:
                continue
            raise Violation("array:accepted", "scanline %d of %d..%d" % (bad, sl.startIndex(), sl.endIndex()))
        it = sl.points() if n % 2 else iter(sl.points())
        return self.add(FixedTask("scanlines", it, want, None, lambda p: (p[0], p[1])))

    # ---- label tables

    def do_lut(self, w):
        k, n, q = w[1], int(w[2]), int(w[3])
        L = self.lut; size = len(L.rep)
        reps = sorted(set(L.rep))
        if k == "new":
            self.lut = L = Lut(n % 12)
        elif k == "append" and size < 30:
            L.o.appendOne(); L.rep.append(size); L.changes += 1
        elif k == "reset":
            L.o.initIdentity(n % 12); L.rep = list(range(n % 12)); L.changes += 1
        elif k == "relabel" and len(reps) > 1:
            a, b = pick(reps, n), pick(reps, q)
            if a == b:
                b = reps[(reps.index(a) + 1) % len(reps)]
            L.o.relabel(a, b)
            L.rep = [b if x == a else x for x in L.rep]; L.changes += 1
        elif k == "bad":
            bad = (size, size + 3, -size - 1, 2 ** 31 - 1)[n % 4]
            f = (lambda: L.o.relabel(bad, 0), lambda: L.o.relabel(0, bad), lambda: L.o.merged(bad), lambda: L.o[bad], lambda: L.o.relabel("x", 0))[q % 5]
            try:
                f()
            except ERRORS:
                self.sim.count("fault.bad-argument")
            else:
                raise Violation("lut:accepted", "bad label %d (%d) of %d" % (bad, q % 5, size))
        elif k == "copy":
            L.o = copy.copy(L.o) if n % 2 else copy.deepcopy(L.o); L.changes += 1
        elif k == "save":
            L.o = pickle.loads(pickle.dumps(L.o, n % 5)); L.changes += 1
            self.sim.count("fault.crash-restore")
        elif k == "iter" and size:
            l = pick(range(size), n)
            it = L.o.merged(l)
            if L.rep[l] == l:  # all labels merged into it, starting with itself
                want = [int(x) for x in L.o.merged(l)]
                if want[:1] != [l] or len(set(want)) != len(want) or set(want) != L.group(l):
                    raise Violation("lut:merged", "merged(%d) is %s, expected %s" % (l, want, sorted(L.group(l))))
            else:
                want = [int(x) for x in L.o.merged(l)]
                if not set(want) <= L.group(L.rep[l]) or len(set(want)) != len(want):
                    raise Violation("lut:merged", "merged(%d) is %s, but it belongs to %s" % (l, want, sorted(L.group(L.rep[l]))))
            self.add(FixedTask("merged", it, want, lambda: L.changes, int))
        if len(self.lut.o) != len(self.lut.rep) or [self.lut.o[i] for i in range(len(self.lut.rep))] != self.lut.rep:
            raise Violation("lut:labels", "%s, expected %s" % ([self.lut.o[i] for i in range(len(self.lut.o))], self.lut.rep))
        return len(self.lut.rep)

    # ---- releases

    def do_drop(self, w):
        k, n = w[1], int(w[2])
        self.sim.count("fault.release")
        if k == "array":
            i = n % SLOTS
            old = self.a[i]
            self.a[i] = Arr(geomap.Polygon(), [])
            for t in self.tasks:  # (the iterations keep the object itself alive: nobody can change it any more)
                if isinstance(t, ArrayTask) and t.a is old:
                    if old.changes != t.start:
                        t.l = None; t.start = -1
                    else:
                        t.a = None
            old.o = None
        elif k == "lut":
            self.lut = Lut(n % 12)
        elif k == "task" and self.tasks:
            self.tasks.pop(n % len(self.tasks))
        elif k == "map":
            if not self.cfg["dangling"]:
                self.tasks = [t for t in self.tasks if not getattr(t, "needs_map", False)]
            self.w.m = None
            for t in self.tasks:
                if isinstance(t, CellTask):
                    t.w = None
            self.w = MapState(None)
        gc.collect()
        if k == "map" and n % 2:
            self.w = MapState(build_map(self.desc))
        return len(self.tasks)

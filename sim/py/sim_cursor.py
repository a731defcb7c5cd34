"""P23: positions moving along darts (DartPosition), several at a time on one map that changes in between, against arc lengths along the point lists."""
import copy, gc, math, random
import geomap
from world import *

KINDS = (("mf", 3), ("rb", 2), ("me", 3), ("sp", 2), ("rin", 1))
EPS = 1e-6


def d2(p, q):
    return (p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2


class Cursor:
    """model: index of the segment and offset within it; index == number of segments: at the end"""
    def __init__(self, dp, label, pts):
        self.dp, self.label, self.pts = dp, label, pts
        self.len = [math.hypot(q[0] - p[0], q[1] - p[1]) for p, q in zip(pts, pts[1:])]
        self.start = [sum(self.len[:i]) for i in range(len(pts))]
        self.i, self.t = 0, 0.0
        self.dead = False

    def clone(self, dp):
        c = Cursor(dp, self.label, self.pts)
        c.i, c.t = self.i, self.t
        return c

    @property
    def n(self):
        return len(self.len)

    def segment(self):
        return (self.pts[self.i], self.pts[self.i + 1]) if self.i < self.n else (self.pts[-1], self.pts[-1])

    def arc(self):
        return self.start[self.i] + self.t

    def pos(self):
        p, q = self.segment()
        l = self.len[self.i] if self.i < self.n else 0
        f = self.t / l if l else 0
        return (p[0] + (q[0] - p[0]) * f, p[1] + (q[1] - p[1]) * f)


class CursorSim:
    @staticmethod
    def gen(rng):
        L = ["map " + gen_map(rng, True), "cfg seed=%d" % rng.randrange(1 << 20)]
        r = lambda: rng.randrange(BIG)
        changes = rng.choice((0, 0, 0.03, 0.1))
        for i in range(rng.choice((8, 25, 60))):
            x = rng.random()
            if x < changes:
                L.append("op " + gen_op(rng, KINDS) if rng.random() < 0.9 else "op release")
            elif x < 0.2 or not i:
                L.append("op new %d %d" % (rng.randrange(3), r()))
            elif x < 0.25:
                L.append("op copy %d %d" % (rng.randrange(3), rng.randrange(3)))
            else:
                L.append("op %s %d %d" % (rng.choice(("goto", "goto", "goto", "goto", "far", "point", "next", "next", "prev", "prev", "leave", "cut", "cut")), rng.randrange(3), r()))
        return L

    def __init__(self, sim, head):
        self.sim = sim
        for w in head:
            if w[0] == "map":
                self.desc = w[1:]

    def run(self, ops):
        s = self.sim
        self.m = build_map(self.desc)
        self.c = [None] * 3
        prev = "-"
        for i, (w, faults) in enumerate(ops):
            s.op = i; s.count("steps")
            if w[0] == "new":
                r = self.new(int(w[1]), int(w[2]))
            elif w[0] == "copy":
                c = self.c[int(w[1])]
                r = None
                if c:
                    self.c[int(w[2])] = c.clone(copy.copy(c.dp)); r = int(w[2])
            elif w[0] == "release":
                self.m = None
                gc.collect()
                s.count("fault.release"); r = None
            elif len(w) == 3 and w[0] in ("goto", "far", "point", "next", "prev", "leave", "cut"):
                r = self.move(w[0], self.c[int(w[1])], int(w[2]))
            else:
                r = None
                if self.m:
                    r = apply_op(self.m, w)
                    # (positions are on fixed darts: those which are changed or removed are out of bounds, the others must not notice)
                    for j, c in enumerate(self.c):
                        if c:
                            e = self.m.edge(abs(c.label))
                            pts = [tuple(p) for p in e] if e else None
                            if pts is None or (pts if c.label > 0 else pts[::-1]) != c.pts:
                                self.c[j] = None
                    s.count("changes")
            s.log(*(list(w) + [r]))
            s.sig(prev + ">" + w[0]); prev = w[0]
            for j, c in enumerate(self.c):
                if c:
                    self.check(j, c)
            s.state([c and (c.i, round(c.t, 3), c.n) for c in self.c])

    def new(self, j, k):
        if not self.m:
            return None
        e = pick(edges(self.m), k)
        if e is None:
            return None
        l = e.label() if k // 7 % 2 else -e.label()
        pts = [tuple(p) for p in e]
        self.c[j] = Cursor(geomap.DartPosition(self.m.dart(l)), l, pts if l > 0 else pts[::-1])
        return l

    def set_arc(self, c, x):
        """the position at arc length x, as the moves define it"""
        if x < 0:
            c.i, c.t = 0, 0.0
            return False
        for i in range(c.n):
            if c.start[i] <= x < c.start[i] + c.len[i]:
                c.i, c.t = i, x - c.start[i]
                return True
        c.i, c.t = c.n, 0.0
        return False

    def move(self, k, c, n):
        if not c:
            return None
        total = c.start[-1]
        if k in ("goto", "far", "point"):
            if k == "point":  # exactly at (or next to) a support point: either segment is right
                j = n % (c.n + 1)
                x = c.start[j]
            else:
                x = total * (n % 1009) / 1009.0 if k == "goto" else (-0.5, -3.0, total + 0.5, total * 2 + 1)[n % 4]
            x = float(x)
            r = bool(c.dp.gotoArcLength(x))
            want = self.set_arc(c, x)
            near = any(abs(x - s) < EPS for s in c.start)
            if near:
                self.resync(c, x)
                want = None if abs(x - total) < EPS or abs(x) < EPS and x < 0 else True
            if want is not None and r != want:
                raise Violation("cursor:result", "gotoArcLength(%s) of %s returned %s" % (x, total, r))
            return r
        if k == "next":
            r = bool(c.dp.gotoNextSegment())
            want = c.i < c.n - 1
            if c.i < c.n:
                c.i += 1
            c.t = 0.0
        elif k == "prev":
            r = bool(c.dp.gotoPrevSegment())
            want = c.i > 0
            if c.i > 0:
                c.i -= 1
            c.t = 0.0
        else:
            rng = random.Random(n)
            p, q = c.segment()
            t = c.t / c.len[c.i] if n % 3 and c.i < c.n and c.len[c.i] else 0.0  # around the position or around the start of its segment
            p = (p[0] + (q[0] - p[0]) * t, p[1] + (q[1] - p[1]) * t)
            R = rng.choice((0.3, 0.8, 1.7, 4.0, 50.0))
            o = rng.uniform(0, R * 0.9); a = rng.uniform(0, 2 * math.pi)
            center = (p[0] + o * math.cos(a), p[1] + o * math.sin(a))
            if any(abs(math.sqrt(d2(q, center)) - R) < 1e-4 for q in c.pts):
                return "skip"  # (rounding decides)
            while c.i < c.n and d2(c.segment()[1], center) < R * R:
                c.i += 1
            if k == "leave":
                r = bool(c.dp.leaveCircle(center, R * R))
                want = c.i < c.n
                c.t = c.len[c.i] if c.i < c.n else 0.0
            else:
                r = bool(c.dp.intersectCircle(center, R * R))
                want = c.i < c.n
                if want:
                    p, q = c.segment()
                    lo, hi = 0.0, 1.0
                    l2 = d2(p, q)
                    if d2(p, center) > R * R:  # the start is outside, but the circle is left between its nearest point and the end
                        lo = ((center[0] - p[0]) * (q[0] - p[0]) + (center[1] - p[1]) * (q[1] - p[1])) / l2
                    for _ in range(80):
                        t = (lo + hi) / 2
                        if d2((p[0] + (q[0] - p[0]) * t, p[1] + (q[1] - p[1]) * t), center) < R * R:
                            lo = t
                        else:
                            hi = t
                    c.t = lo * c.len[c.i]
                else:
                    c.t = 0.0
        if r != want:
            raise Violation("cursor:result", "%s returned %s (segment %d of %d)" % (k, r, c.i, c.n))
        return r

    def resync(self, c, x):
        """next to a support point rounding may decide for the segment before or after it: take over the segment, not the position"""
        best = None
        for i in range(c.n + 1):
            lo, hi = c.start[i], c.start[i] + (c.len[i] if i < c.n else 0)
            if lo - EPS <= x <= hi + EPS:
                end = i == c.n
                if bool(c.dp.atEnd()) == end and (end or c.dp.segmentIndex() == i):
                    best = i
        if best is None:
            raise Violation("cursor:segment", "gotoArcLength(%s) is in segment %d (segments start at %s)" % (x, c.dp.segmentIndex(), c.start))
        c.i, c.t = best, max(0.0, x - c.start[best]) if best < c.n else 0.0

    def check(self, j, c):
        dp = c.dp

        def near(what, got, want):
            if abs(got - want) > EPS:
                raise Violation("cursor:" + what, "position %d on dart %d: %s is %s, expected %s (segment %d of %d, offset %s)" % (j, c.label, what, got, want, c.i, c.n, c.t))
        if bool(dp.atEnd()) != (c.i == c.n):
            raise Violation("cursor:end", "position %d on dart %d: atEnd() is %s in segment %d of %d" % (j, c.label, dp.atEnd(), c.i, c.n))
        if dp.dartLabel() != c.label:
            raise Violation("cursor:dart", "%d, expected %d" % (dp.dartLabel(), c.label))
        near("segmentIndex", dp.segmentIndex(), min(c.i, c.n - 1))
        near("arcLength", dp.arcLength(), c.arc())
        p = tuple(dp()); q = c.pos()
        near("x", p[0], q[0]); near("y", p[1], q[1])
        a, b = c.segment()
        if tuple(dp.segmentStart()) != a or tuple(dp.segmentEnd()) != b:
            raise Violation("cursor:segment", "position %d on dart %d: segment %s..%s, expected %s..%s (%d of %d)" % (j, c.label, tuple(dp.segmentStart()), tuple(dp.segmentEnd()), a, b, c.i, c.n))
        near("segmentLength", dp.segmentLength(), math.hypot(a[0] - b[0], a[1] - b[1]))

"""P27: incremental recognition of digital straight lines: several lines extended at both ends in any order, with refused, repeated and invalid points, mirroring,
conversion and saving in between, against all lines that contain the accepted points; tangents to contours."""
import copy, math, pickle, random
import geomap
from world import *


def thinnest(S):
    """(a, b, pos) of the line with the smallest b that contains these points of consecutive x (0 <= a <= b), or None"""
    dx, dy = S[-1][0] - S[0][0], S[-1][1] - S[0][1]
    for b in range(1, max(1, dx) + 1):
        lo, hi = (0, b) if dx == 0 else (max(0, b * (dy - 1) // dx), min(b, b * (dy + 1) // dx + 1))
        for a in range(lo, hi + 1):
            v = [a * x - b * y for x, y in S]
            if max(v) - min(v) < b:
                return a, b, min(v)
    return None


def par(d):
    return d.a, d.b, d.pos


class Line:
    pass


def codes_of(words):
    """a contour: closed crack polygons around random pixels, or a piece of a noisy line"""
    seed, kind = words
    rng = random.Random(seed)
    if kind == 0:  # Freeman codes of two neighbouring directions, mostly a digital line
        n = rng.randrange(2, 40)
        b = rng.randrange(1, 12); a = rng.randrange(0, b + 1); o = rng.randrange(b)
        y = [(a * x + o) // b for x in range(n + 1)]
        c = [y[i + 1] - y[i] for i in range(n)]
        for i in range(rng.choice((0, 0, 1, 2))):
            c[rng.randrange(n)] ^= 1
        base = rng.randrange(4)
        return [(base + (x ^ (base & 1))) % 4 for x in c], False
    if kind == 1:  # any codes
        return [rng.choice((0, 0, 0, 1, 1, 2, 3)) for i in range(rng.randrange(1, 12))], False
    # a staircase polygon: right/up, left/up, left/down, right/down with the same numbers of steps
    w, h = rng.randrange(1, 12), rng.randrange(1, 12)
    def quarter(c1, n1, c2, n2):
        l = [c1] * n1 + [c2] * n2
        if rng.random() < 0.5:
            rng.shuffle(l)
        else:
            b = n1 + n2; l = [c1 if (i + 1) * n1 // b > i * n1 // b else c2 for i in range(b)]
        return l
    c = quarter(0, w, 1, h) + quarter(2, w, 1, h) + quarter(2, w, 3, h) + quarter(0, w, 3, h)
    k = rng.randrange(len(c))
    return c[k:] + c[:k], True


class LineSim:
    @staticmethod
    def gen(rng):
        r = lambda: rng.randrange(BIG)
        L = ["op new %d" % r() for i in range(rng.choice((1, 2, 3)))]
        for i in range(rng.choice((10, 25, 60))):
            x = rng.random()
            if x < 0.04:
                L.append("op new %d" % r())
            elif x < 0.5:
                L.append("op add %d %d %d" % (r(), rng.randrange(2), rng.choice((0, 0, 1, 1, 2, 2, 2, 2, 2, 2))))
            elif x < 0.62:
                L.append("op run %d %d %d" % (r(), rng.randrange(2), rng.randrange(1, 25)))
            elif x < 0.68:
                L.append("op tangent %d %d %d" % (r(), rng.randrange(3), r()))
            else:
                L.append("op %s %d %d" % (rng.choice(("again", "far", "wrong", "wrong", "octant", "octant", "mirror", "mirror", "four", "copy", "save", "window", "badcodes")), r(), r()))
        return L

    def __init__(self, sim, head):
        self.sim = sim

    def run(self, ops):
        s = self.sim
        self.lines = []
        prev = "-"
        for i, (w, faults) in enumerate(ops):
            s.op = i; s.count("steps")
            r = getattr(self, "op_" + w[0])(*[int(x) for x in w[1:]])
            for l in self.lines:
                self.judge(l)
            s.log(*(list(w) + [r] + [par(l.d) for l in self.lines]))
            s.sig("%s>%s" % (prev, w[0])); prev = w[0]
            s.state([(par(l.d), l.S[0], len(l.S)) for l in self.lines])

    def pick(self, i):
        return self.lines[i % len(self.lines)] if self.lines else None

    def judge(self, l):
        """the line is the thinnest one of the points accepted"""
        want = l.want or thinnest(l.S)
        l.want = want
        if par(l.d) != want:
            raise Violation("line:parameters", "%s for points %s.. (%d), should be %s" % (par(l.d), l.S[:4], len(l.S), want))
        if l.d.width() != max(abs(want[0]), abs(want[1])) or not l.d.eightConnected():
            raise Violation("line:width", "width %d of %s" % (l.d.width(), want))

    def op_new(self, k):
        if len(self.lines) >= 4:
            return "-"
        l = Line()
        b = k // 24 % 14 + 1
        a, o = k // 336 % (b + 1), k // 6000 % b
        l.slope = (a, b, o)  # what "run" aims at
        c = k % 2 if k // 2 % 4 == 0 else (a + o) // b - o // b
        l.d = geomap.DigitalStraightLine8(c, 1, 0)
        l.S = [(0, 0), (1, c)]; l.want = None
        self.lines.append(l)

    def extend(self, l, front, code):
        S = l.S
        if front:
            o, p = S[0], (S[-1][0] + 1, S[-1][1] + code)
        else:
            o, p = S[-1], (S[0][0] - 1, S[0][1] - code)
        N = S + [p] if front else [p] + S
        want = thinnest(N)
        before = par(l.d)
        d = l.d
        d.pos = d.pos - d(*o)  # seen from the other end
        r = d.addPoint(p[0] - o[0], p[1] - o[1])
        d.pos = d.pos + d(*o)
        if r != (want is not None):
            raise Violation("line:accepted" if r else "line:refused", "point %s %s, points so far %s.. (%d)" % (p, "accepted" if r else "refused", S[:6], len(S)))
        if not r:
            self.sim.count("fault.refused-point")
            if par(d) != before:
                raise Violation("line:refused-changed", "%s became %s by a refused point" % (before, par(d)))
            return False
        l.S = N; l.want = want
        self.judge(l)
        return True

    def op_add(self, i, front, code):
        l = self.pick(i)
        if not l or len(l.S) > 70:
            return "-"
        if code == 2:  # what the line itself expects
            x = l.S[-1][0] + 1 if front else l.S[0][0] - 1
            y = l.S[-1][1] if front else l.S[0][1]
            code = int(l.d.contains(x, y + 1)) if front else int(l.d.contains(x, y - 1))
        return self.extend(l, front, code)

    def op_run(self, i, front, n):
        """along a line of another slope, as far as it goes"""
        l = self.pick(i)
        if not l:
            return "-"
        a, b, o = l.slope
        y = lambda x: (a * x + o) // b
        k = 0
        while k < n and len(l.S) < 70:
            x = l.S[-1][0] if front else l.S[0][0] - 1
            if not self.extend(l, front, y(x + 1) - y(x)):
                break
            k += 1
        return k

    # ------------------------------------------------------------------------------------------ points that change nothing

    def try_point(self, l, x, y, o):
        before = par(l.d)
        d = l.d
        d.pos = d.pos - d(*o)
        at = par(d)
        try:
            r = d.addPoint(x, y)
        except RuntimeError:
            r = None
        if par(d) != at:
            raise Violation("line:changed", "%s became %s by point %s (%s)" % (at, par(d), (x, y), r))
        d.pos = d.pos + d(*o)
        if par(d) != before:
            raise Violation("line:shift", "%s became %s by shifting" % (before, par(d)))
        return r

    def op_again(self, i, k):
        l = self.pick(i)
        if not l:
            return "-"
        self.sim.count("fault.repeated-point")
        o = l.S[0] if k % 2 else l.S[-1]
        p = l.S[k // 2 % len(l.S)]
        if self.try_point(l, p[0] - o[0], p[1] - o[1], o) is not True:
            raise Violation("line:refused", "point %s, which belongs to the line, refused" % (p,))

    def op_far(self, i, k):
        l = self.pick(i)
        if not l:
            return "-"
        self.sim.count("fault.distant-point")
        front = k % 2
        o = l.S[0] if front else l.S[-1]
        x = l.S[-1][0] + 1 if front else l.S[0][0] - 1
        a, b, pos = par(l.d)
        y = -(-(a * x - pos + 2) // b) if k // 2 % 2 else (a * x - pos - b - 1) // b   # two or more outside
        y += (k // 4 % 4) * (1 if k // 2 % 2 else -1)
        v = a * x - b * y - pos
        if -2 < v < b + 1:
            return "-"
        if self.try_point(l, x - o[0], y - o[1], o) is not False:
            raise Violation("line:accepted", "point %s at distance %d of %s accepted" % ((x, y), v, par(l.d)))

    def op_wrong(self, i, k):
        """a point in another quadrant"""
        l = self.pick(i)
        if not l:
            return "-"
        self.sim.count("fault.bad-argument")
        x, y = (k % 7 + 1, -(k // 7 % 7) - 1) if k // 49 % 2 else (-(k % 7) - 1, k // 7 % 7)
        a, b, pos = par(l.d)
        v = a * x - b * y - pos
        r = self.try_point(l, x, y, (0, 0))
        if r is not (True if 0 <= v < b else None if v in (-1, b) else False):
            raise Violation("line:wrong", "point %s in another quadrant of line %s: %s" % ((x, y), par(l.d), r))

    def op_octant(self, i, k):
        """lines outside of the first octant take no points"""
        l = self.pick(i)
        if not l:
            return "-"
        self.sim.count("fault.bad-argument")
        d = copy.copy(l.d)
        if k % 2 and d.a:
            d.mirrorX()
        else:
            d.a = d.b + 1 + k // 2 % 3
        before = par(d)
        for p in (l.S[0], (l.S[-1][0] + 1, l.S[-1][1])):
            try:
                d.addPoint(*p)
            except RuntimeError:
                continue
            raise Violation("line:octant", "line %s took a point" % (before,))
        if par(d) != before:
            raise Violation("line:changed", "%s became %s" % (before, par(d)))

    # ------------------------------------------------------------------------------------------ views of a line

    def op_window(self, i, k):
        l = self.pick(i)
        if not l:
            return "-"
        a, b, pos = par(l.d)
        for x, y in self.window(l, k):
            if l.d(x, y) != a * x - b * y or l.d.contains(x, y) != (0 <= a * x - b * y - pos < b):
                raise Violation("line:contains", "%s of line %s" % ((x, y), par(l.d)))

    def window(self, l, k):
        rng = random.Random(k)
        for j in range(40):
            p = rng.choice(l.S)
            yield p[0] + rng.randrange(-3, 4), p[1] + rng.randrange(-3, 4)

    def op_mirror(self, i, k):
        l = self.pick(i)
        if not l:
            return "-"
        d = copy.copy(l.d)
        name, f = (("mirrorX", lambda x, y: (-x, y)), ("mirrorY", lambda x, y: (x, -y)), ("mirrorXY", lambda x, y: (-x, -y)))[k % 3]
        getattr(d, name)()
        for x, y in self.window(l, k):
            if d.contains(*f(x, y)) != l.d.contains(x, y):
                raise Violation("line:" + name, "%s, mirrored %s, at %s" % (par(l.d), par(d), (x, y)))
        getattr(d, name)()
        if par(d) != par(l.d):
            raise Violation("line:" + name, "%s became %s when mirrored twice" % (par(l.d), par(d)))
        l.d = d  # go on with this one

    def op_four(self, i, k):
        l = self.pick(i)
        if not l:
            return "-"
        f = l.d.convertToFourConnected()
        if f.eightConnected() or f.width() != abs(f.a) + abs(f.b):
            raise Violation("line:four", "width %d of %s" % (f.width(), par(f)))
        f2 = pickle.loads(pickle.dumps(f, k % 3))
        if par(f2) != par(f):
            raise Violation("line:saved", "%s became %s" % (par(f), par(f2)))
        g = copy.copy(f); m = k // 3 % 4
        s = (lambda x, y: (x, y), lambda x, y: (-x, y), lambda x, y: (x, -y), lambda x, y: (-x, -y))[m]
        if m:
            getattr(g, (None, "mirrorX", "mirrorY", "mirrorXY")[m])()
        for x, y in self.window(l, k):
            if f.contains(x - y, y) != l.d.contains(x, y) or g.contains(*s(x - y, y)) != l.d.contains(x, y):
                raise Violation("line:four", "%s of %s, as 4-connected line %s, mirrored %s" % ((x, y), par(l.d), par(f), par(g)))

    def op_copy(self, i, k):
        l = self.pick(i)
        if not l:
            return "-"
        n = Line()
        n.d = (copy.copy, copy.deepcopy)[k % 2](l.d)
        n.S = list(l.S); n.want = l.want; n.slope = l.slope
        if len(self.lines) < 4:
            self.lines.append(n)
        else:
            self.lines[k // 2 % 4] = n

    def op_save(self, i, k):
        l = self.pick(i)
        if not l:
            return "-"
        self.sim.count("fault.crash")
        l.d = pickle.loads(pickle.dumps(l.d, k % 3))

    # ------------------------------------------------------------------------------------------ tangents

    def op_tangent(self, seed, kind, k):
        c, closed = codes_of((seed, kind))
        n = len(c)
        i = k % (2 * n) - n // 2
        if not closed and not 0 < i < n:
            return self.refuse(c, i, closed)
        given = list(c)
        d, r = geomap.tangentDSL(c, i, closed)
        if c != given:
            raise Violation("tangent:codes", "the codes were changed")
        want = self.tangent(c, i, closed)
        if r != want[0] or r is not None and par(d) != want[1]:
            raise Violation("tangent:wrong", "tangent at %d of %s%s: %s %s, should be %s" % (i, c, " (closed)" if closed else "", r, par(d), want))
        return r

    def tangent(self, c, i, closed):
        n = len(c)
        at = lambda j: c[j % n] if closed else c[j] if 0 <= j < n else None
        # the two directions
        f1, f2 = at(i), at(i - 1)
        k = 0
        while f1 == f2:
            k += 1
            f, b = at(i + k), at(i - 1 - k)
            if f is None or b is None:
                return None, None
            if f != f1:
                f2 = f
                if b not in (f1, f2):
                    return None, None
            else:
                f2 = b
        S = [(0, 0)]; best = None, None
        for r in range(1, n + 1):
            f, b = at(i + r - 1), at(i - r)
            if f is None or b is None or f not in (f1, f2) or b not in (f1, f2):
                break
            S = [(S[0][0] - 1, S[0][1] - (b & 1))] + S + [(S[-1][0] + 1, S[-1][1] + (f & 1))]
            t = thinnest(S)
            if t is None:
                break
            best = r, t
        return best

    def refuse(self, c, i, closed):
        self.sim.count("fault.bad-argument")
        try:
            geomap.tangentDSL(c, i, closed)
        except RuntimeError:
            return
        raise Violation("tangent:accepted", "tangent at %d of %s" % (i, c))

    def op_badcodes(self, i, k):
        """no codes; codes that cannot be those of a closed contour"""
        self.refuse(([], [k // 4 % 4] * (1 + i % 5), [0, 1] * (1 + i % 5), [])[k % 4], (0, i % 5 - 2, i % 10, -1)[k % 4], k % 4 != 3)

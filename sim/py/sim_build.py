"""P24: maps built step by step (nodes, edges, removals, splits, merges, sorting, splitting of parallel edges, initialisation) in any order, with invalid steps
in between, against a model of the graph: node positions, point lists and the cyclic order of darts around every node."""
import copy, gc, math, pickle, random
import geomap
from world import *

STEP, DIST = 0.2, 0.05


def fan(rng, base, nodes, edges):
    """edges that leave a node together and separate later; adds (start, end, points, key at start, key at end)"""
    def at(p, phi, r):
        return (p[0] + r * math.cos(phi), p[1] - r * math.sin(phi))
    a = len(nodes)
    nodes.append(base)
    theta = rng.choice((0.0, 0.1, 0.7, 1.4, 2.0, 3.0, math.pi, math.pi, 3.15, 4.1, 4.7, 5.5))
    exact = rng.random() < 0.6
    leaves = []

    def grow(p, phi, path, key, depth):
        q = at(p, phi, rng.choice((0.9, 1.3, 1.7)))
        mid = [at(p, phi, 0.45)] if rng.random() < 0.5 else []
        path = path + mid + [q]
        spread = 0.9 if depth == 0 else 0.5
        n = rng.choice((2, 2, 3))
        for i in range(n):
            b = phi + spread * (i - (n - 1) / 2.0) * (1 if n == 2 else 0.7)
            if depth == 0 and n == 2 and rng.random() < 0.35:
                grow(q, b, path, key + (i,), 1)
            else:
                leaves.append((path + [at(q, b, 1.2)], key + (i,)))
    grow(base, theta, [base], (), 0)
    first = math.atan2(-(leaves[0][0][1][1] - base[1]), leaves[0][0][1][0] - base[0])
    for i, (pts, key) in enumerate(leaves):
        if not exact:  # slightly apart, in the right order
            o = (i - len(leaves) / 2.0) * 0.004
            pts = [pts[0]] + [(x - o * math.sin(theta), y - o * math.cos(theta)) for x, y in pts[1:]]
        t = len(nodes)
        nodes.append(pts[-1])
        kb = (rnd(first % (2 * math.pi)),) + key
        ke = (angle(pts[-1], pts[-2]),)
        if rng.random() < 0.5:
            edges.append((a, t, pts, kb, ke))
        else:
            edges.append((t, a, pts[::-1], ke, kb))
    o = at(base, theta + math.pi, 1.0)
    if rng.random() < 0.6:
        nodes.append(o)
        edges.append((a, len(nodes) - 1, [base, o], (angle(base, o),), (angle(o, base),)))


def rnd(x):
    return round(x, 9)


def angle(p, q):
    return rnd(math.atan2(-(q[1] - p[1]), q[0] - p[0]) % (2 * math.pi))


def geometry(words):
    rng = random.Random(int(words[1]))
    a = [int(x) for x in words[2:]]
    nodes, edges = grid_geometry(rng, a[0], a[1], a[2] / 100.0, a[3] / 100.0)
    edges = [(s, e, p, (angle(p[0], p[1]),), (angle(p[-1], p[-2]),)) for s, e, p in edges]
    for i in range(a[4]):
        fan(rng, (6.0 + 11 * i, 3.0 * a[1] + 9), nodes, edges)
    w = max(3 * a[0] + 4, 11 * a[4] + 3 if a[4] else 0)
    return nodes, edges, (w, 3 * a[1] + 4 + (11 if a[4] else 0))


def area(pts):
    return sum(p[0] * q[1] - q[0] * p[1] for p, q in zip(pts, pts[1:])) / 2


def inside(pts, p):
    c = False
    for (x1, y1), (x2, y2) in zip(pts, pts[1:]):
        if (y1 <= p[1]) != (y2 <= p[1]) and p[0] < x1 + (p[1] - y1) * (x2 - x1) / (y2 - y1):
            c = not c
    return c


def dist_to(p, a, b):
    l2 = (b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2
    t = max(0, min(1, ((p[0] - a[0]) * (b[0] - a[0]) + (p[1] - a[1]) * (b[1] - a[1])) / l2)) if l2 else 0
    return math.hypot(p[0] - a[0] - t * (b[0] - a[0]), p[1] - a[1] - t * (b[1] - a[1]))


def dense(pts):
    r = []
    for p, q in zip(pts, pts[1:]):
        r += [(p[0] + (q[0] - p[0]) * t / 4.0, p[1] + (q[1] - p[1]) * t / 4.0) for t in range(4)]
    return r + [pts[-1]]


def union(flags):
    r = 0
    for f in flags:
        r |= f
    return r


class Model:
    def __init__(self):
        self.nodes, self.edges, self.orbit = {}, {}, {}  # label -> position; label -> [s, e, pts, key s, key e, flags]; node -> list of darts
        self.nmax, self.emax = 0, 1
        self.sorted = False
        self.keys = True  # the geometric order of darts is known

    def copy(self):
        return copy.deepcopy(self)

    def start(self, d):
        e = self.edges[abs(d)]
        return e[0] if d > 0 else e[1]

    def key(self, d):
        e = self.edges[abs(d)]
        return (e[3] if d > 0 else e[4]), d

    def pts(self, d):
        p = self.edges[abs(d)][2]
        return p if d > 0 else p[::-1]

    def first_angle(self, d):
        p = self.pts(d)
        return angle(p[0], p[1])

    def sigma(self):
        return dict((d, o[(i + 1) % len(o)]) for o in self.orbit.values() for i, d in enumerate(o))


def cyc(l):
    return rot(list(l)) if l else ()


class BuildSim:
    @staticmethod
    def gen(rng):
        fans = rng.choice((0, 0, 1, 1, 2))
        L = ["map geo %d %d %d %d %d %d" % (rng.randrange(1 << 30), rng.randrange(1, 4), rng.randrange(1, 3), rng.choice((0, 15, 40)), rng.choice((0, 10, 30)), fans)]
        r = lambda: rng.randrange(BIG)
        L.append("cfg size=%d" % (rng.random() < 0.93))
        plan = rng.choice(("mixed", "mixed", "straight", "straight"))
        n = rng.choice((10, 30, 60))
        for i in range(n):
            x = rng.random()
            if x < 0.6:
                L.append("op edge %d %d %d" % (r(), rng.choice((0, 0, 1, 1, 1, 2)), rng.choice((0,) * 12 + (1, 2, 7, 120))))
            elif x < 0.66:
                L.append("op node %d %d" % (r(), rng.choice((0, 0, 0, 1, 5))))
            elif plan == "straight":
                L.append("op edge %d %d 0" % (r(), rng.choice((1, 1, 1, 2))))
            else:
                k = rng.choice(("rem", "rem", "rin", "split", "split", "merge", "flag", "sort", "event", "sigma", "fork", "pickle", "bad", "bad", "bad", "watch", "twin"))
                L.append("op %s %d %d" % (k, r(), r()))
        if rng.random() < 0.3:
            L.append("op fork %d %d" % (r(), r()))
        if rng.random() < 0.2:
            L.append("op twin %d %d" % (r(), r()))
        x = rng.random()
        if x < 0.4:
            L.append("op sort %d %d" % (r(), r()))
        else:
            if rng.random() < 0.3:
                L.append("op watch %d %d" % (r(), r()))
            L.append("op event %d %d" % (r(), r()))
            if rng.random() < 0.8:
                L.append("op psplit %d %d" % (r(), r()))
        if rng.random() < 0.5:
            L.append("op bad %d %d" % (r(), r()))
        if rng.random() < 0.3:
            L.append("op pickle %d %d" % (r(), r()))
        L.append("op init %d %d" % (r(), r()))
        for i in range(rng.choice((0, 2, 5))):
            L.append("op bad %d %d" % (r(), r()) if rng.random() < 0.4 else "op " + gen_op(rng, (("mf", 3), ("rb", 2), ("me", 3), ("sp", 2), ("rin", 1))))
        return L

    def __init__(self, sim, head):
        self.sim = sim; self.cfg = {}
        for w in head:
            if w[0] == "map":
                self.desc = w[1:]
            elif w[0] == "cfg":
                self.cfg.update(x.split("=") for x in w[1:])

    # ---------------------------------------------------------------------------------------------- running

    def run(self, ops):
        s = self.sim
        self.P, self.E, size = geometry(self.desc)
        if self.cfg.get("size") == "0":
            size = (0, 0)
        self.size = size
        self.m = geomap.GeoMap([], [], size)
        self.g = Model()
        self.at = {}       # candidate node -> label
        self.kept = []     # (map, dump) of other copies
        self.plan = False  # parallel edges may be split now
        self.obs, self.no = [], []  # observers; cells whose removal or merging was refused during the current step
        prev = "-"
        for i, (w, faults) in enumerate(ops):
            s.op = i; s.count("steps")
            k = w[0]
            init = self.m.mapInitialized()
            del self.no[:]
            if init:
                self.obs = []
            if k in ("mf", "rb", "me", "sp", "rin") and len(w) < 4 and k != "rin" or k == "rin" and len(w) == 2:
                r = apply_op(self.m, w) if init else None
                if init and not self.m.checkConsistency():
                    raise Violation("build:consistency", "checkConsistency() fails after %s" % (r,))
            else:
                f = getattr(self, "op_" + k)
                r = f(*[int(x) for x in w[1:]]) if not init or k in ("bad", "fork", "pickle") else None
                if not self.m.mapInitialized():
                    self.check(" ".join(w))
            s.log(*(list(w) + [r]))
            if r is not None:
                s.sig("%s>%s" % (prev, k)); prev = k
            for m, d in self.kept:
                x = diff(d, dump(m))
                if x:
                    raise Violation("build:copy", "a copy changed: " + x)
            s.state(dump(self.m))
        self.kept = None

    def check(self, what):
        m, g = self.m, self.g

        def bad(c, d):
            raise Violation("build:" + c, "after %s: %s" % (what, d))
        if (m.nodeCount, m.edgeCount) != (len(g.nodes), len(g.edges)):
            bad("counts", "%s nodes, %s edges, expected %s, %s" % (m.nodeCount, m.edgeCount, len(g.nodes), len(g.edges)))
        if (m.maxNodeLabel(), m.maxEdgeLabel()) != (g.nmax, g.emax):
            bad("labels", "label bounds %s, expected %s" % ((m.maxNodeLabel(), m.maxEdgeLabel()), (g.nmax, g.emax)))
        if bool(m.edgesSorted()) != g.sorted:
            bad("sorted", "edgesSorted() is %s" % m.edgesSorted())
        got = [n.label() for n in m.nodeIter()]
        if got != sorted(g.nodes):
            bad("nodes", "nodes %s, expected %s" % (got, sorted(g.nodes)))
        for n in m.nodeIter():
            l = n.label(); o = g.orbit[l]
            if tuple(n.position()) != g.nodes[l]:
                bad("position", "node %d at %s, expected %s" % (l, n.position(), g.nodes[l]))
            if n.degree() != len(o) or n.isIsolated() != (not o):
                bad("degree", "node %d has degree %d, expected %s" % (l, n.degree(), o))
            if o and cyc([d.label() for d in n.anchor().sigmaOrbit()]) != cyc(o):
                bad("order", "darts around node %d: %s, expected %s" % (l, [d.label() for d in n.anchor().sigmaOrbit()], cyc(o)))
        got = [e.label() for e in m.edgeIter()]
        if got != sorted(g.edges):
            bad("edges", "edges %s, expected %s" % (got, sorted(g.edges)))
        for e in m.edgeIter():
            x = g.edges[e.label()]
            if [e.startNodeLabel(), e.endNodeLabel()] != x[:2] or [tuple(p) for p in e] != x[2]:
                bad("edge", "edge %d from %d to %d with points %s, expected %s" % (e.label(), e.startNodeLabel(), e.endNodeLabel(), [tuple(p) for p in e], x[:3]))
            if e.flags() != x[5]:
                bad("flags", "edge %d has flags %s, expected %s" % (e.label(), e.flags(), x[5]))
            if (self.sim.op + e.label()) % 4 == 0:  # (fills the caches of some edges, at some times)
                q = geomap.Polygon(x[2])
                b, c = e.boundingBox(), q.boundingBox()
                if abs(e.length() - q.length()) > 1e-9 or abs(e.partialArea() - q.partialArea()) > 1e-9 or tuple(b.begin()) + tuple(b.end()) != tuple(c.begin()) + tuple(c.end()):
                    bad("measures", "edge %d has length %s, partial area %s, bounding box %s; its points %s, %s, %s" % (e.label(), e.length(), e.partialArea(), b, q.length(), q.partialArea(), c))
            d = m.dart(e.label()).prevSigma()
            o = g.orbit[x[0]]
            if d.label() != o[o.index(e.label()) - 1]:
                bad("order", "dart before %d is %d, expected %s" % (e.label(), d.label(), o))
        if self.sim.op % 3 == 0 and not m.checkConsistency():
            bad("consistency", "checkConsistency() fails")
        if g.nodes:
            p = (self.sim.op * 7 % 13 + 0.3, self.sim.op * 5 % 11 + 0.7)
            d2 = lambda q: (q[0] - p[0]) ** 2 + (q[1] - p[1]) ** 2
            n = m.nearestNode(p)
            if n is None or d2(g.nodes[n.label()]) > min(d2(q) for q in g.nodes.values()) + 1e-12:
                bad("nearest", "nearestNode(%s) is %s" % (p, n and n.label()))

    # ---------------------------------------------------------------------------------------------- steps

    def node(self, c, gap=0):
        if c in self.at and self.at[c] in self.g.nodes:
            return self.at[c]
        g = self.g
        l = g.nmax + gap
        n = self.m.addNode(self.P[c], l) if gap else self.m.addNode(self.P[c])
        if n.label() != l:
            raise Violation("build:node", "addNode gave label %d, expected %d" % (n.label(), l))
        g.nodes[l] = self.P[c]; g.orbit[l] = []; g.nmax = l + 1
        self.at[c] = l
        return l

    def blocked(self, c):
        """an edge passes there (its node was merged away)"""
        return not (c in self.at and self.at[c] in self.g.nodes) and any(self.P[c] in x[2] for x in self.g.edges.values())

    def op_node(self, k, gap):
        if self.blocked(k % len(self.P)):
            return None
        return self.node(k % len(self.P), gap)

    used = None

    def op_edge(self, k, mode, gap):
        g, m = self.g, self.m
        if self.used is None:
            self.used = {}
        free = [c for c in range(len(self.E)) if not self.used.get(c)]
        c = pick(free, k)
        if c is None or not g.keys:
            return None
        s, e, pts, ks, ke = self.E[c]
        if self.blocked(s) or self.blocked(e):
            return None
        s, e = self.node(s), self.node(e)
        l = g.emax + gap
        g.edges[l] = [s, e, list(pts), ks, ke, 0]
        old = dict((n, list(o)) for n, o in g.orbit.items())
        loop = s == e

        def anchor(n, d):
            """a dart such that the new one belongs before it, if the order of this node is right"""
            o = g.orbit[n]
            if not o or mode == 0:
                return None
            if mode == 2:  # somewhere
                return o[(k // 7 + (d < 0)) % len(o)]
            ks_ = [(g.key(x)[0], i) for i, x in enumerate(o)]
            mine = g.key(d)[0]
            later = sorted(x for x in ks_ if x[0] > mine)
            return o[later[0][1]] if later else o[sorted(ks_)[0][1]]
        ds, de = anchor(s, l), anchor(e, -l)
        dart = lambda d, n: m.node(n) if d is None else m.dart(d)
        if g.sorted and any(g.orbit[n] and d is None for n, d in ((s, ds), (e, de))):  # needs a definite place
            del g.edges[l]
            self.refuse("addEdge() at an arbitrary place in a sorted graph", lambda: m.addEdge(dart(ds, s), dart(de, e), list(pts)))
            return "sorted"
        if loop and (ds is None) != (de is None):
            de = ds
        r = m.addEdge(dart(ds, s), dart(de, e), list(pts), l) if gap else m.addEdge(dart(ds, s), dart(de, e), list(pts))
        if r.label() != l:
            raise Violation("build:edge", "addEdge gave label %d, expected %d" % (r.label(), l))
        g.emax = l + 1; self.used[c] = True; self.plan = False
        for n in set((s, e)):
            new = [d.label() for d in m.node(n).anchor().sigmaOrbit()]
            mine = [d for d, x in ((l, s), (-l, e)) if x == n]
            if sorted(new) != sorted(old[n] + mine) or (old[n] and cyc([d for d in new if d not in mine]) != cyc(old[n])):
                raise Violation("build:insert", "darts around node %d: %s before, %s after adding edge %d" % (n, old[n], new, l))
            nxt = lambda d: new[(new.index(d) + 1) % len(new)]
            if not loop:
                d, a = (l, ds) if n == s else (-l, de)
                if a is not None and nxt(d) != a:
                    raise Violation("build:insert", "dart %d does not precede %d around node %d: %s" % (d, a, n, new))
            elif ds is not None:
                if ds != de:
                    ok = nxt(l) == ds and nxt(-l) == de
                else:  # both at the same place: the loop is empty
                    ok = [nxt(l), nxt(-l)] == ([ds, l] if area(pts) > 0 else [-l, ds])
                if not ok:
                    raise Violation("build:insert", "loop %d (area %s) before %s and %s around node %d: %s" % (l, area(pts), ds, de, n, new))
            g.orbit[n] = new
        return l, ds, de

    def op_rem(self, k, k2):
        l = pick(sorted(self.g.edges), k)
        if l is None or not self.g.keys:
            return None
        d = l if k2 % 2 else -l
        r = self.m.removeEdge(self.m.dart(d))
        if r is not None:
            raise Violation("build:result", "removeEdge on a graph returned %s" % r)
        self.drop(l); self.plan = False
        return l

    def drop(self, l):
        g = self.g
        s, e = g.edges.pop(l)[:2]
        g.orbit[s] = [d for d in g.orbit[s] if abs(d) != l]
        g.orbit[e] = [d for d in g.orbit[e] if abs(d) != l]

    def op_rin(self, k, k2):
        l = pick(sorted(n for n in self.g.nodes if not self.g.orbit[n]), k)
        if l is None:
            return None
        r = bool(self.m.removeIsolatedNode(self.m.node(l)))
        if r != (not self.no):
            raise Violation("build:result", "removeIsolatedNode(%d) returned %s, refused: %s" % (l, r, self.no))
        if not r:
            return "refused"
        del self.g.nodes[l], self.g.orbit[l]
        return l

    def op_split(self, k, k2):
        g, m = self.g, self.m
        l = pick(sorted(g.edges), k)
        if l is None:
            return None
        s, e, pts, ks, ke, fl = g.edges[l]
        if len(ks) > 1 or len(ke) > 1:
            return None  # (cut where it runs along others it could not be sorted any more)
        cand = [(i, None) for i in range(1, len(pts) - 1)] + [(i, exact_mid(pts[i], pts[i + 1])) for i in range(len(pts) - 1) if exact_mid(pts[i], pts[i + 1])]
        c = pick(cand, k2)
        if c is None:
            return None
        i, mid = c
        r = m.splitEdge(m.edge(l), i) if mid is None else m.splitEdge(m.edge(l), i, mid)
        n, x = g.nmax, g.emax
        if r.label() != x:
            raise Violation("build:result", "splitEdge gave edge %s, expected %d" % (r.label(), x))
        a, b = (pts[:i + 1], pts[i:]) if mid is None else (pts[:i + 1] + [mid], [mid] + pts[i + 1:])
        g.nmax += 1; g.emax += 1; self.plan = False
        g.nodes[n] = a[-1]
        g.edges[l] = [s, n, a, ks, (angle(a[-1], a[-2]),), fl]
        g.edges[x] = [n, e, b, (angle(b[0], b[1]),), ke, fl]
        g.orbit[e] = [-x if d == -l else d for d in g.orbit[e]]
        g.orbit[n] = [-l, x]
        return l, c

    def op_merge(self, k, k2):
        g, m = self.g, self.m
        cand = [o[k2 % 2] for n, o in sorted(g.orbit.items()) if len(o) == 2 and abs(o[0]) != abs(o[1])
                and all(len(g.key(d)[0]) < 2 for d in o)]  # (not where edges run side by side)
        d = pick(cand, k)
        if d is None or not g.keys:
            return None
        n = g.start(d)
        o = g.orbit[n][0] if g.orbit[n][1] == d else g.orbit[n][1]
        r = m.mergeEdges(m.dart(d))
        if self.no:
            if r is not None:
                raise Violation("build:result", "mergeEdges(%d) was refused, but returned %s" % (d, r.label()))
            return "refused"
        if r is None or r.label() not in (abs(d), abs(o)):
            raise Violation("build:result", "mergeEdges(%d) returned %s" % (d, r and r.label()))
        sv, md = (d, o) if r.label() == abs(d) else (o, d)  # darts of the survivor and of the merged edge, leaving the node
        x, y = g.edges[abs(sv)], g.edges[abs(md)]
        far = y[1] if md > 0 else y[0]
        kfar = y[4] if md > 0 else y[3]
        tail = (y[2] if md > 0 else y[2][::-1])
        fl = x[5]
        if sv < 0:  # survivor ends at the node
            g.edges[abs(sv)] = [x[0], far, x[2] + tail[1:], x[3], kfar, fl]
        else:
            g.edges[abs(sv)] = [far, x[1], tail[::-1] + x[2][1:], kfar, x[4], fl]
        del g.edges[abs(md)], g.nodes[n]; del g.orbit[n]
        g.orbit[far] = [sv if z == -md else z for z in g.orbit[far]]
        self.plan = False
        return d, r.label()

    def op_flag(self, k, k2):
        if not self.g.edges:
            return None
        for i in range(1 + k2 // 12 % 6):
            l = pick(sorted(self.g.edges), k + i * 7)
            f = 1 << ((k2 + i) % 12)
            self.m.edge(l).setFlag(f); self.g.edges[l][5] |= f
        return l, f

    def expected_orders(self):
        return dict((n, sorted(o, key=self.g.key)) for n, o in self.g.orbit.items())

    def op_sort(self, k, k2):
        g = self.g
        if not g.keys:
            return None
        amb = [n for n, o in g.orbit.items() if len(set(g.first_angle(d) for d in o)) < len(o)]
        if amb:
            self.refuse("sortEdgesDirectly with edges leaving at identical angles", self.m.sortEdgesDirectly)
            return "ambiguous"
        self.m.sortEdgesDirectly()
        g.sorted = True; g.orbit = self.expected_orders(); self.plan = False
        return "sorted"

    def op_event(self, k, k2):
        g = self.g
        if not g.keys:
            return None
        r = self.m.sortEdgesEventually(STEP, DIST, bool(k % 4))
        if list(r):
            raise Violation("build:unsortable", "sortEdgesEventually could not sort %s" % [list(x) for x in r])
        g.sorted = True; g.orbit = self.expected_orders()
        self.plan = bool(k % 4)
        return len(self.m._internalSplitInfo() or ())

    def op_twin(self, k, k2):
        """an edge that cannot be told from another one: reported, the others are sorted (on a copy)"""
        g = self.g
        l = pick(sorted(g.edges), k)
        if l is None or not g.keys or g.sorted:
            return None
        m = copy.copy(self.m)
        s, e, pts = g.edges[l][:3]
        if k2 % 2:
            t = m.addEdge(m.node(s), m.node(e), list(pts)).label()
        else:
            t = -m.addEdge(m.node(e), m.node(s), list(pts)[::-1]).label()
        r = sorted(sorted(x) for x in m.sortEdgesEventually(STEP, DIST, bool(k2 % 3)))
        if r != sorted(sorted(x) for x in ((l, t), (-l, -t))):
            raise Violation("build:unsortable", "edges %d and %d are the same, but sortEdgesEventually could not sort %s" % (l, abs(t), r))
        for n, o in self.expected_orders().items():
            got = [d.label() for d in m.node(n).anchor().sigmaOrbit()] if o else []
            for d in (l, -l):
                if d in got and (t if d == l else -t) not in (got[(got.index(d) + 1) % len(got)], got[got.index(d) - 1]):
                    raise Violation("build:twin", "darts around node %d: %s, but edges %d and %d are the same" % (n, got, l, abs(t)))
            if cyc([d for d in got if abs(d) != abs(t)]) != cyc(o):
                raise Violation("build:twin", "darts around node %d: %s, expected %s (edges %d and %d are the same)" % (n, got, cyc(o), l, abs(t)))
        self.sim.count("unsortable")
        return l, t

    def op_sigma(self, k, k2):
        """sets an order of darts: the current one turned into the geometric one at some of the nodes"""
        g = self.g
        if not g.keys:
            return None
        rng = random.Random(k2)
        c = len(self.m.sigmaMapping()) // 2
        sig = list(self.m.sigmaMapping())
        if rng.random() < 0.3:
            n = rng.randrange(1, 4); sig = [0] * n + sig + [0] * n; c += n
        if len(sig) < 2 * g.emax - 1:
            n = g.emax - 1 - c
            sig = [0] * n + sig + [0] * n; c += n
        for n, o in sorted(g.orbit.items()):
            if rng.random() < 0.6:
                o = sorted(o, key=g.key)
                g.orbit[n] = o
            for i, d in enumerate(o):
                sig[c + d] = o[(i + 1) % len(o)]
        all_sorted = all(cyc(o) == cyc(sorted(o, key=g.key)) for o in g.orbit.values())
        self.m.setSigmaMapping(sig, all_sorted)
        g.sorted = all_sorted; self.plan = False
        return all_sorted

    def op_watch(self, k, k2):
        """an observer that refuses to give up nodes or to merge edges now and then"""
        rng = random.Random(k2); no = self.no; sim = self.sim

        def decide(*a):
            if rng.random() < 0.35:
                no.append(a); sim.count("fault.veto")
                return False
            return True
        if self.obs:
            self.obs = []
            return "off"
        self.obs = [self.m.addRemoveNodeCallback(decide)]
        if k % 2:
            self.obs.append(self.m.addMergeEdgesCallbacks(decide, None))
        return "on"

    def op_fork(self, k, k2):
        m = copy.copy(self.m) if k % 2 else copy.deepcopy(self.m)
        d, d2 = dump(self.m), dump(m)
        if diff(d, d2):
            raise Violation("build:copy", "the copy differs: " + diff(d, d2))
        if k2 % 3 == 0:
            self.kept.append((m, d2)); self.kept = self.kept[-2:]  # go on with the original
        else:
            self.kept.append((self.m, d)); self.kept = self.kept[-2:]
            self.m = m
            self.obs = []
            self.plan = False  # (the plan of splits is not copied)
        return k2 % 3

    def op_pickle(self, k, k2):
        self.sim.count("fault.crash")
        data = pickle.dumps(self.m, 2)
        self.obs = []
        d = dump(self.m)
        if k % 2:
            self.m = None; gc.collect()
        m = pickle.loads(data)
        d2 = dump(m)
        for x in (d, d2):
            x.pop("labels", None)
        if diff(d, d2):
            raise Violation("build:pickle", "the restored map differs: " + diff(d, d2))
        self.m = m; self.plan = False
        return len(d["nodes"])

    def op_psplit(self, k, k2):
        g, m = self.g, self.m
        if not self.plan:
            if m._internalSplitInfo() is None:
                self.refuse("splitParallelEdges without a plan", m.splitParallelEdges)
                return "none"
            return None
        best = None
        if k % 3 == 0:
            rng = random.Random(k2)
            pref = [rng.random() for i in range(m.maxEdgeLabel())]
            m.setEdgePreferences(pref)
            best = max(g.edges, key=lambda l: pref[l]) if g.edges else None
        before = self.components()
        rank = len(g.edges) - len(g.nodes)
        segs = [s for x in g.edges.values() for s in zip(x[2], x[2][1:])]
        old = set(g.nodes)
        out = dict((d, at_arc(g.pts(d), STEP)) for o in g.orbit.values() for d in o)

        def apart(d, o):
            p, q = out[d], out[o]
            return p and q and math.hypot(p[0] - q[0], p[1] - q[1]) > 2 * DIST
        single = [l for l in g.edges if all(len(g.edges[l][q]) == 1 for q in (3, 4))
                  and all(apart(d, o) for d in (l, -l) for o in g.orbit[g.start(d)] if o != d)]
        keep = dict((l, list(g.edges[l])) for l in single)
        flags = [x[5] for x in g.edges.values()]
        m.splitParallelEdges()
        # the graph is taken over from the map, after checking what must hold for it
        g2 = Model()
        g2.nmax, g2.emax, g2.sorted, g2.keys = m.maxNodeLabel(), m.maxEdgeLabel(), bool(m.edgesSorted()), False
        for n in m.nodeIter():
            g2.nodes[n.label()] = tuple(n.position())
            g2.orbit[n.label()] = [] if n.isIsolated() else [d.label() for d in n.anchor().sigmaOrbit()]
        for e in m.edgeIter():
            g2.edges[e.label()] = [e.startNodeLabel(), e.endNodeLabel(), [tuple(p) for p in e], (), (), e.flags()]

        def bad(c, d):
            raise Violation("build:psplit-" + c, d)
        if not old <= set(g2.nodes) or any(g2.nodes[n] != g.nodes[n] for n in old):
            bad("nodes", "nodes %s lost or moved by splitParallelEdges" % sorted(n for n in old if g2.nodes.get(n) != g.nodes[n]))
        for l, x in keep.items():
            if l not in g2.edges or g2.edges[l][:3] != x[:3] or g2.edges[l][5] != x[5]:
                bad("edges", "edge %d is not parallel to any other, but changed: %s -> %s" % (l, x[:3], g2.edges.get(l)))
        ends = {}
        for l, x in g2.edges.items():
            if x[0] not in g2.nodes or x[1] not in g2.nodes or x[2][0] != g2.nodes[x[0]] or x[2][-1] != g2.nodes[x[1]]:
                bad("ends", "edge %d from %d to %d: points %s..%s" % (l, x[0], x[1], x[2][0], x[2][-1]))
            ends.setdefault(x[0], []).append(l); ends.setdefault(x[1], []).append(-l)
            for p in x[2]:
                if min(dist_to(p, a, b) for a, b in segs) > DIST:
                    bad("geometry", "point %s of edge %d is off all former edges" % (p, l))
        for n, o in g2.orbit.items():
            if sorted(o) != sorted(ends.get(n, [])):
                bad("order", "darts around node %d: %s, but %s start there" % (n, o, ends.get(n)))
        left = len(self.no)  # nodes that had to stay
        if left > sum(1 for n in g2.nodes if not g2.orbit[n] and n not in old):
            bad("refused", "%d nodes may not be removed, but were" % left)
        if len(g2.edges) - len(g2.nodes) != rank - left:
            bad("rank", "edges - nodes: %d before, %d after" % (rank, len(g2.edges) - len(g2.nodes)))
        for l, x in g2.edges.items():  # an edge that stands for several has the flags of all of them
            if any(x[5] & f != f for f in flags) and sum(math.hypot(p[0] - q[0], p[1] - q[1]) for p, q in zip(x[2], x[2][1:])) > 4 * STEP:
                for l2, y in g.edges.items():
                    if x[5] & y[5] != y[5] and all(min(dist_to(p, a, b) for a, b in zip(y[2], y[2][1:])) < DIST for p in dense(x[2])):
                        bad("flags", "edge %d runs along the former edge %d with flags %s, but has flags %s" % (l, l2, y[5], x[5]))
            if x[5] & ~union(flags):
                bad("flags", "edge %d has new flags %s" % (l, x[5]))
        if best is not None:
            p = set(p for x in g2.edges.values() for p in x[2])
            q = [x for x in g.edges[best][2] if x not in p]
            if q:
                bad("preferred", "points %s of the preferred edge %d are gone" % (q, best))
        self.g = g2
        after = self.components()
        for c in before:
            if len(set(after_id(after, n) for n in c)) != 1:
                bad("components", "nodes %s are not connected any more" % sorted(c))
        if len(after) != len(before) + left:
            bad("components", "%d components before, %d after" % (len(before), len(after)))
        # edges are split one step before they separate at the latest: some steps after a node they are apart, in the order of the orbit
        for n, o in g2.orbit.items():
            q = [at_arc(g2.pts(d), 3.5 * STEP) for d in o]
            if len(o) < 2 or None in q:
                continue
            for i in range(len(o)):
                if math.hypot(q[i][0] - q[i - 1][0], q[i][1] - q[i - 1][1]) < DIST:
                    bad("parallel", "edges %d and %d are still parallel from node %d on" % (o[i - 1], o[i], n))
            phi = [angle(g2.nodes[n], x) for x in q]
            if all(abs(x - y) > 0.1 for i, x in enumerate(phi) for y in phi[:i]) and cyc(o) != cyc([d for x, d in sorted(zip(phi, o))]):
                bad("sigma", "darts around node %d: %s, directions %s" % (n, o, phi))
        if m._internalSplitInfo() is not None:
            bad("plan", "the plan is still there")
        self.plan = False
        self.sim.count("parallel.split")
        return len(g2.edges)

    def components(self):
        g = self.g
        comp = dict((n, set([n])) for n in g.nodes)
        for x in g.edges.values():
            a, b = comp[x[0]], comp[x[1]]
            if a is not b:
                a |= b
                for n in b:
                    comp[n] = a
        return list(dict((id(c), c) for c in comp.values()).values())

    # ---------------------------------------------------------------------------------------------- initialisation

    def op_init(self, k, k2):
        g, m = self.g, self.m
        labels = bool(k % 4)
        if not g.sorted and (not g.keys or any(len(set(g.first_angle(d) for d in o)) < len(o) for o in g.orbit.values())):
            self.refuse("initializeMap with edges leaving at identical angles", m.initializeMap)
            return "ambiguous"
        if g.sorted and g.keys and any(cyc(o) != cyc(sorted(o, key=g.key)) for o in g.orbit.values()):
            self.op_sort(0, 0)  # (edges were added somewhere in the orbits of a sorted graph)
            if any(cyc(o) != cyc(sorted(o, key=g.key)) for o in g.orbit.values()):
                return None
        if labels and 0 in self.size:
            self.refuse("initializeMap with a label image of size 0", m.initializeMap, args=(True,))
            labels = False
        if not g.sorted:
            g.orbit = self.expected_orders(); g.sorted = True
        m.initializeMap(labels)
        if not m.mapInitialized() or m.hasLabelImage() != labels:
            raise Violation("build:init", "mapInitialized() %s, hasLabelImage() %s" % (m.mapInitialized(), m.hasLabelImage()))
        if not m.checkConsistency():
            raise Violation("build:consistency", "checkConsistency() fails after initializeMap()")
        self.check("init")
        self.check_faces(labels)
        # the same map made in one go
        if g.keys:
            ns = [g.nodes.get(i) for i in range(g.nmax)]
            es = [None] + [tuple(g.edges[i][:3]) if i in g.edges else None for i in range(1, g.emax)]
            o = geomap.GeoMap(ns, es, self.size)
            sig = [0] * (2 * g.emax - 1)
            for d, x in g.sigma().items():
                sig[g.emax - 1 + d] = x
            o.setSigmaMapping(sig)
            for l, x in g.edges.items():
                o.edge(l).setFlag(x[5])
            o.initializeMap(labels)
            x = diff(dump(m, labels=False), dump(o, labels=False))
            if x:
                raise Violation("build:order-dependent", "the same map made in one go differs: " + x)
        return m.faceCount

    def check_faces(self, labels):
        """faces against the orbits of the model and their containment"""
        g, m = self.g, self.m
        sig = g.sigma()
        inv = dict((b, a) for a, b in sig.items())
        orbits, seen = [], set()
        for d in sorted(sig):
            if d in seen:
                continue
            o, x = [], d
            while x not in o:
                o.append(x); x = inv[-x]
            seen |= set(o); orbits.append(o)
        poly = lambda o: [p for d in o for p in g.pts(d)[:-1]] + [g.pts(o[0])[0]]
        outer = [(o, poly(o)) for o in orbits]
        comp = {}
        for i, c in enumerate(self.components()):
            for n in c:
                comp[n] = i
        got = {}
        for f in m.faceIter():
            for c in f.contours():
                got[cyc([d.label() for d in c.phiOrbit()])] = f.label()
        if set(got) != set(cyc(o) for o in orbits):
            raise Violation("build:faces", "contours %s, expected %s" % (sorted(got), sorted(cyc(o) for o in orbits)))
        # outer contours of faces: the orbits around which the area is positive; per component exactly one orbit is the exterior one
        sign = {}
        for c in set(comp.values()):
            os = [o for o in orbits if comp[g.start(o[0])] == c]
            if not os:
                continue
            ex = min(os, key=lambda o: sign_area(m, o, g))
            for o in os:
                sign[cyc(o)] = o is not ex
        face = {}
        for o, p in outer:
            if sign[cyc(o)]:
                face[got[cyc(o)]] = cyc(o)
                if got[cyc(o)] == 0:
                    raise Violation("build:faces", "contour %s belongs to the infinite face" % (cyc(o),))
        if len(face) != sum(sign.values()) or m.faceCount != len(face) + 1:
            raise Violation("build:faces", "%d faces for %d outer contours" % (m.faceCount - 1, sum(sign.values())))
        for o, p in outer:
            if sign[cyc(o)]:
                continue
            c = comp[g.start(o[0])]
            q = g.nodes[g.start(o[0])]
            cand = [(abs(area(p2)), got[cyc(o2)]) for o2, p2 in outer if sign[cyc(o2)] and comp[g.start(o2[0])] != c and inside(p2, q)]
            want = min(cand)[1] if cand else 0
            if got[cyc(o)] != want:
                raise Violation("build:holes", "contour %s is a hole of face %s, expected %s" % (cyc(o), got[cyc(o)], want))
        if labels:
            li = numpy.array(m.labelImage())
            li = li.reshape(li.shape[:2])
            w, h = self.size
            if li.shape != (w, h):
                raise Violation("build:labels", "label image of size %s, expected %s" % (li.shape, (w, h)))
            polys = [(abs(area(p)), p, got[cyc(o)]) for o, p in outer if sign[cyc(o)]]
            for y in range(h):
                for x in range(w):
                    l = int(li[x, y])
                    if l < 0:
                        continue
                    cand = [(a, f) for a, p, f in polys if inside(p, (x, y))]
                    want = min(cand)[1] if cand else 0
                    if l != want:
                        raise Violation("build:labels", "pixel (%d, %d) has label %d, but is in face %d" % (x, y, l, want))

    # ---------------------------------------------------------------------------------------------- invalid steps

    def refuse(self, what, f, args=()):
        d = dump(self.m)
        try:
            f(*args)
        except Exception as e:
            pass
        else:
            raise Violation("build:accepted", "%s was accepted" % what)
        self.sim.count("fault.invalid")
        d2 = dump(self.m)
        x = diff(d, d2)
        if x:
            raise Violation("build:not-atomic", "%s was refused, but changed the map: %s" % (what, x))

    def op_bad(self, k, k2):
        m, g = self.m, self.g
        init = m.mapInitialized()
        nodes = [n.label() for n in m.nodeIter()]
        es = [e.label() for e in m.edgeIter()]
        n, l = pick(nodes, k2), pick(es, k2)
        busy = [x for x in nodes if not m.node(x).isIsolated()]
        c = []
        c.append(("node()", m.node, (m.maxNodeLabel() + k2 % 3,)))
        c.append(("edge()", m.edge, (m.maxEdgeLabel() + k2 % 3,)))
        c.append(("removeEdge() of no edge", lambda: m.removeEdge(m.dart(m.maxEdgeLabel() + k2 % 70)), ()))
        gone = [x for x in range(1, m.maxEdgeLabel()) if x not in es]
        if gone:
            x = pick(gone, k2)
            c.append(("removeEdge() of a removed edge", lambda: m.removeEdge(m.dart(x)), ()))
            c.append(("mergeEdges() of a removed edge", lambda: m.mergeEdges(m.dart(x)), ()))
            if n is not None:
                c.append(("addEdge() next to a removed edge", lambda: m.addEdge(m.dart(x), m.node(n), [(1.0, 1.0), (2.0, 2.0)]), ()))
        if busy:
            b = pick(busy, k2)
            c.append(("removeIsolatedNode() of a node with edges", lambda: m.removeIsolatedNode(m.node(b)), ()))
        if l is not None:
            c.append(("splitEdge() beyond the end", lambda: m.splitEdge(m.edge(l), len(m.edge(l)) - 1 + k2 % 2), ()))
            if m.edgesSorted() or not init:
                dd = [d for x in busy for d in m.node(x).anchor().sigmaOrbit() if m.node(x).degree() != 2]
                if dd:
                    d = pick([x.label() for x in dd], k2)
                    c.append(("mergeEdges() at a node of other degree", lambda: m.mergeEdges(m.dart(d)), ()))
        if not init:
            c.append(("setSigmaMapping() too small", lambda: m.setSigmaMapping([0] * max(0, 2 * m.maxEdgeLabel() - 3)), ()))
            c.append(("mergeFaces() on a graph", lambda: m.mergeFaces(m.dart(l or 1)), ()))
            c.append(("removeBridge() on a graph", lambda: m.removeBridge(m.dart(l or 1)), ()))
            c.append(("faceAt() on a graph", lambda: m.faceAt((1.0, 1.0)), ()))
            c.append(("face() on a graph", lambda: m.face(0), ()))
            c.append(("setHasLabelImage() on a graph", lambda: m.setHasLabelImage(True), ()))
            if m._internalSplitInfo() is None:
                c.append(("splitParallelEdges() without a plan", m.splitParallelEdges, ()))
                c.append(("setEdgePreferences() without a plan", lambda: m.setEdgePreferences([1.0] * m.maxEdgeLabel()), ()))
            if l is not None:
                sig = list(m.sigmaMapping()); ce = len(sig) // 2
                pad = max(0, m.maxEdgeLabel() - 1 - ce)
                sig = [0] * pad + sig + [0] * pad; ce += pad
                wrong = (m.maxEdgeLabel() + k2 % 90, -m.maxEdgeLabel() - k2 % 90, 0)[k2 % 3]
                other = [d for d in [x for e in es for x in (e, -e)] if g.edges and g.start(d) != g.start(l)]
                if other and k2 % 5 == 0:
                    wrong = pick(other, k2)
                s2 = list(sig); s2[ce + (l if k2 % 2 else -l)] = wrong
                if s2 != sig and (wrong not in other or k2 % 2):
                    c.append(("setSigmaMapping() to dart %d after %d" % (wrong, l), lambda: m.setSigmaMapping(s2), ()))
        else:
            c.append(("initializeMap() twice", m.initializeMap, (bool(k2 % 2),)))
            c.append(("sortEdgesDirectly() of a map", m.sortEdgesDirectly, ()))
            c.append(("sortEdgesEventually() of a map", m.sortEdgesEventually, (STEP, DIST, bool(k2 % 2))))
            c.append(("setSigmaMapping() of a map", lambda: m.setSigmaMapping(m.sigmaMapping()), ()))
            c.append(("splitParallelEdges() of a map", m.splitParallelEdges, ()))
            if n is not None:
                c.append(("addEdge() to a map", lambda: m.addEdge(m.node(n), m.node(n), [(1.0, 1.0), (2.0, 2.0), (2.0, 1.0), (1.0, 1.0)]), ()))
        what, f, args = pick(c, k)
        self.refuse(what, f, args)
        return what


def at_arc(pts, x):
    for p, q in zip(pts, pts[1:]):
        l = math.hypot(q[0] - p[0], q[1] - p[1])
        if x <= l:
            return (p[0] + (q[0] - p[0]) * x / l, p[1] + (q[1] - p[1]) * x / l)
        x -= l
    return None


def after_id(comps, n):
    for i, c in enumerate(comps):
        if n in c:
            return i


def sign_area(m, o, g):
    """signed area enclosed by an orbit, in the orientation in which faces have positive area"""
    return -sum(area(g.pts(d)) for d in o) * SIGN


SIGN = 1

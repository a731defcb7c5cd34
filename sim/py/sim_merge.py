"""P16: automatic region merging, seeded region growing and map cleaning under vetoes, protection and arbitrary tie-breaking of the cost queue."""
import random
import geomap, maputils, flag_constants
from flag_constants import ALL_PROTECTION, SRG_SEED, SRG_BORDER
from world import *
from hooks import Boom

CURRENT = None  # the running simulation


class Queue:
    """stands for geomap.DynamicCostQueue (a C++ class the module does not contain): cheapest first, ties broken by the seed"""
    def __init__(self, size):
        self.cost = {}; self.size = size

    def insert(self, i, c):
        self.setCost(i, c)

    def setCost(self, i, c):
        if not 0 <= i < self.size:
            raise IndexError("DynamicCostQueue: index %d of %d" % (i, self.size))
        self.cost[i] = c

    def empty(self):
        return not self.cost

    def __bool__(self):
        return bool(self.cost)

    def top(self):
        if not self.cost:
            raise IndexError("DynamicCostQueue: top() of an empty queue")
        r = CURRENT.ties
        return min(((l, c) for l, c in self.cost.items()), key=lambda x: (x[1], (x[0] * 7919 + r) % 104729, x[0]))

    def pop(self):
        t = self.top()
        del self.cost[t[0]]
        return t


geomap.DynamicCostQueue = Queue


class Veto:
    """refuses the merges the plan names (n-th announcement of the current operation)"""
    def __init__(self, m, sim):
        self.plan = set(); self.n = 0; self.sim = sim; self.refused = 0; self.merges = 0
        self.cbs = [m.addMergeFacesCallbacks(self.pre, self.post), m.addRemoveBridgeCallbacks(self.pre, None), m.addMergeEdgesCallbacks(self.pre, None), m.addRemoveNodeCallback(self.pre)]

    def arm(self, faults):
        self.plan = set(int(f[1]) for f in faults); self.n = 0; self.refused = 0; self.merges = 0

    def pre(self, cell):
        self.n += 1
        if self.n in self.plan:
            self.refused += 1; self.sim.count("fault.veto")
            return False
        return True

    def post(self, face):
        self.merges += 1


def h(*a):
    x = 1469598103
    for v in a:
        x = ((x ^ (v & 0xffffffff)) * 16777619) & 0xffffffff
    return x >> 8


class Measures:
    """cost measures: functions of the two faces (or of the edge), the same for both darts"""
    @staticmethod
    def pair(mod):
        return lambda d: h(min(d.leftFaceLabel(), d.rightFaceLabel()), max(d.leftFaceLabel(), d.rightFaceLabel())) % mod

    @staticmethod
    def area(mod):
        def f(d):
            a, b = d.leftFace(), d.rightFace()
            return round(min(a.area() if a.label() else 1e6, b.area() if b.label() else 1e6), 4)
        return f

    @staticmethod
    def length(mod):
        return lambda d: round(d.edge().length(), 4)


def protected(e):
    return bool(e.flag(ALL_PROTECTION))


def common_protected(m, a, b):
    return any(protected(e) for e in m.edgeIter() if {e.leftFaceLabel(), e.rightFaceLabel()} == {a, b})


def neighbors(m, f):
    """labels of the faces that share an edge with f"""
    r = set()
    for e in m.edgeIter():
        l = (e.leftFaceLabel(), e.rightFaceLabel())
        if f in l and l[0] != l[1]:
            r.add(l[0] if l[1] == f else l[1])
    return r


def dart_between(m, a, b):
    for e in m.edgeIter():
        if (e.leftFaceLabel(), e.rightFaceLabel()) == (a, b):
            return e.dart()
        if (e.leftFaceLabel(), e.rightFaceLabel()) == (b, a):
            return e.dart().nextAlpha()


def queue_of(x):
    """the cost queue of a merger, whatever the attribute is called"""
    names = ["_queue"] + [n for c in type(x).__mro__ for n in getattr(c, "__slots__", ())] + list(getattr(x, "__dict__", ()))
    for n in names:
        q = getattr(x, n, None)
        if hasattr(q, "setCost") and hasattr(q, "top"):
            return q
    raise AttributeError("the merger has no queue")


REAL = maputils.AutomaticRegionMerger


class JudgedMerger(REAL):
    """every step is compared with the model: the cheapest candidate, by the cost it has now"""
    def __init__(self, m, mcm, q=None, completeMerge=True, updateNeighborHood=True):
        old = getattr(q, "model", None)
        REAL.__init__(self, m, mcm, q, completeMerge, updateNeighborHood)
        self.complete, self.update = completeMerge, updateNeighborHood
        self.map_, self.mcm_ = m, mcm
        self.inq = old if old is not None else dict((e.label(), mcm(e.dart())) for e in m.edgeIter() if not protected(e) and mcm(e.dart()) is not None)
        queue_of(self).model = self.inq
        self.refused = False

    def candidates(self):
        m = self.map_
        return dict((l, self.mcm_(m.edge(l).dart()) if self.update else c) for l, c in self.inq.items() if m.edge(l) and not protected(m.edge(l)))

    def mergeStep(self):
        m = self.map_; w = CURRENT
        cand = self.candidates()
        before = set(e.label() for e in m.edgeIter()); faces = m.faceCount; steps = self.step(); costs = getattr(self, "_costLog", None); log = len(costs) if costs is not None else 0
        prot = set(e.label() for e in m.edgeIter() if protected(e))
        w.veto.merges = 0; r0 = w.veto.refused
        attempted = queue_of(self).top()[0]
        bridge = m.edge(attempted).isBridge() if m.edge(attempted) else None
        pair = tuple(sorted((m.edge(attempted).leftFaceLabel(), m.edge(attempted).rightFaceLabel()))) if m.edge(attempted) else None
        blocked = pair is not None and not bridge and self.complete and common_protected(m, *pair)
        s = REAL.mergeStep(self)
        refused = w.veto.refused - r0
        self.inq.pop(attempted, None)
        if attempted not in before or attempted in prot:
            if s is not None or self.step() != steps or m.faceCount != faces:
                raise Violation("arm:idle-step", "edge %d is %s, but the step returned %s" % (attempted, "gone" if attempted not in before else "protected", s))
            return s
        if attempted in cand and cand[attempted] > min(cand.values()) + 1e-9:
            k = min(cand, key=lambda l: (cand[l], l))
            raise Violation("arm:not-cheapest", "step removes edge %d at cost %s, but edge %d costs %s" % (attempted, cand[attempted], k, cand[k]))
        if attempted not in cand:
            raise Violation("arm:not-a-candidate", "step removes edge %d, which had been given up" % attempted)
        if s is None:
            if m.faceCount != faces:
                raise Violation("arm:result", "faces were merged, but the step returned nothing")
            if not refused and not blocked:
                raise Violation("arm:gave-up", "nobody refused, but the step did nothing (edge %d)" % attempted)
            self.refused = True
            if self.step() != steps:
                raise Violation("arm:count", "step() counted a refused merge")
            return s
        if self.step() != steps + 1:
            raise Violation("arm:count", "step() went from %d to %d" % (steps, self.step()))
        if costs is not None and (len(costs) != log + 1 or abs(costs[-1] - cand[attempted]) > 1e-9):
            raise Violation("arm:log", "cost log %s, but the merge cost %s" % (costs[log:], cand[attempted]))
        if faces - m.faceCount != (0 if bridge else 1):
            raise Violation("arm:faces", "face count went from %d to %d" % (faces, m.faceCount))
        if m.edge(attempted) and not refused:
            raise Violation("arm:edge", "edge %d still exists" % attempted)
        gone = before - set(e.label() for e in m.edgeIter())
        w.sim.log("step", attempted, cand[attempted], s.label(), sorted(gone))
        if not bridge:
            if s.label() not in pair:
                raise Violation("arm:survivor", "faces %s were merged into %d" % (pair, s.label()))
            if self.update:
                for d in maputils.contourDarts(s):
                    if not protected(d.edge()):
                        self.inq[d.edgeLabel()] = 0
        return s


class MergeSim:
    @staticmethod
    def gen(rng):
        L = ["map " + gen_map(rng, rng.random() < 0.5), "cfg labels=%d measure=%d mod=%d ties=%d protect=%d object=%d pseed=%d" % (
            1, rng.randrange(3), rng.choice((2, 4, 10, 1000)), rng.randrange(1000), rng.choice((0, 0, 10, 25, 50)), rng.randrange(2), rng.randrange(1 << 20))]
        for i in range(rng.choice((2, 5, 10, 18))):
            r = rng.random()
            f = ""
            if rng.random() < 0.2:
                f = "".join(" ! veto %d" % rng.choice((1, 1, 2, 3, 5, 8)) for _ in range(rng.choice((1, 1, 2, 3))))
            v = rng.choice((rng.randrange(12), rng.randrange(1000) / 10.0, 5e6))
            if r < 0.15:
                L.append("op arm %d %d" % (rng.randrange(2), rng.randrange(4) > 0))
            elif r < 0.35:
                L.append("op step" + f)
            elif r < 0.42:
                L.append("op steps %d%s" % (rng.randrange(0, 8), f))
            elif r < 0.50:
                L.append("op cost %s%s" % (v, f))
            elif r < 0.53:
                L.append("op next")
            elif r < 0.55:
                L.append("op merge" + f)
            elif r < 0.62:
                L.append("op threshold %s%s" % (v, f))
            elif r < 0.72:
                L.append("op srg %d %d %d %d %d%s" % (rng.randrange(2), rng.randrange(2), rng.choice((1, 1, 2, 3, 5)), rng.randrange(BIG), rng.choice((99, 99, 0, 1, 3)), f))
            elif r < 0.80:
                L.append("op small %d %d %d%s" % (rng.choice((0, 2, 5, 9, 20)), rng.choice((0, 0, 2, 5, 9)), rng.randrange(2), f))
            elif r < 0.84:
                L.append("op best %d%s" % (rng.randrange(BIG), f))
            elif r < 0.88:
                L.append("op cruft %d%s" % (rng.randrange(1, 16), f))
            elif r < 0.91:
                L.append("op protect %d" % rng.randrange(BIG))
            elif r < 0.93:
                L.append("op mst %d" % rng.randrange(BIG))
            elif r < 0.95:
                L.append("op waterfall %d" % rng.randrange(BIG))
            else:
                L.append("op classes %d %d" % (rng.randrange(BIG), rng.randrange(1, 5)))
        return L

    def __init__(self, sim, head):
        global CURRENT
        self.sim = sim
        for w in head:
            if w[0] == "map":
                self.desc = w[1:]
            elif w[0] == "cfg":
                self.cfg = dict((k, int(v)) for k, v in (x.split("=") for x in w[1:]))
        self.ties = self.cfg["ties"]
        CURRENT = self

    def run(self, ops):
        s = self.sim
        m = self.m = build_map(self.desc, True)
        rng = random.Random(self.cfg["pseed"])
        for e in m.edgeIter():
            if rng.randrange(100) < self.cfg["protect"]:
                e.setFlag(rng.choice((1, 2, 4, 8)), True)
        self.veto = Veto(m, s)
        if self.cfg["object"]:
            m.protection = geomap.EdgeProtection(m)
        self.mcm = (Measures.pair, Measures.area, Measures.length)[self.cfg["measure"]](self.cfg["mod"])
        self.arm = None; self.queue = None
        maputils.AutomaticRegionMerger = JudgedMerger
        maputils.time.clock = lambda: 0.0
        prev = "-"
        for i, (w, faults) in enumerate(ops):
            s.op = i
            s.count("steps")
            self.veto.arm(faults)
            prot = self.protection()
            getattr(self, "op_" + w[0])(w, faults)
            if not m.checkConsistency():
                raise Violation("inconsistent", "checkConsistency() is false after %s" % (w,))
            d = dump(m)
            s.log(w[0], d["counts"])
            s.state(d)
            s.sig(prev + ">" + w[0] + "!" * bool(faults)); prev = w[0]
            # with an EdgeProtection attached, protected edges survive (at most joined with others that have the same flags)
            if self.cfg["object"] and w[0] != "protect":
                now = self.protection()
                if set(now) != set(prot) or any(abs(now[k] - prot[k]) > 1e-6 for k in now):
                    raise Violation("protected", "%s: protected edges had the lengths %s, now %s" % (w[0], prot, now))

    def protection(self):
        """total length of the edges with every combination of protection flags"""
        r = {}
        for e in self.m.edgeIter():
            if protected(e):
                r[e.flag(ALL_PROTECTION)] = r.get(e.flag(ALL_PROTECTION), 0) + e.length()
        return r

    # ---- region merging

    def op_arm(self, w, faults):
        self.queue = None
        self.arm = JudgedMerger(self.m, self.mcm, None, bool(int(w[1])), bool(int(w[2])))

    def drive(self, f, limit=None):
        """runs one of the driver methods of a merger; its result is the number of steps"""
        a = self.arm
        n0 = a.step(); f0 = self.m.faceCount
        r = f()
        if r != a.step() - n0:
            raise Violation("arm:returned", "%s steps were reported, %d were done" % (r, a.step() - n0))
        return r

    def usable(self):
        """costs that were computed earlier are only valid if nobody else changed the map meanwhile"""
        self.queue = None
        if self.arm is None:
            self.arm = JudgedMerger(self.m, self.mcm)
        return self.arm

    def op_step(self, w, faults):
        a = self.usable()
        if queue_of(a):
            a.mergeStep()

    def op_steps(self, w, faults):
        a = self.usable()
        n = int(w[1])
        r = self.drive(lambda: a.mergeSteps(n))
        if r > n or (r < n and queue_of(a)):
            raise Violation("arm:steps", "%d of %d steps, although there is more to merge" % (r, n))
        if r < n:
            self.exhausted(a)

    def op_cost(self, w, faults):
        a = self.usable()
        c = float(w[1])
        self.drive(lambda: a.mergeToCost(c))
        rest = dict((l, x) for l, x in a.candidates().items() if x <= c)
        if rest:
            raise Violation("arm:cost", "mergeToCost(%s) left edges %s" % (c, rest))

    def op_merge(self, w, faults):
        a = self.usable()
        self.drive(a.merge)
        self.exhausted(a)

    def exhausted(self, a):
        if a.candidates():
            raise Violation("arm:rest", "nothing more to merge, but %s" % (a.candidates(),))

    def op_next(self, w, faults):
        a = self.usable()
        c = a.candidates()
        a.ensureValidNext()
        if bool(queue_of(a)) != bool(c):
            raise Violation("arm:next", "candidates %s, but the queue is %s" % (c, "empty" if c else "not empty"))
        if c:
            l, x = a.nextLabel(), a.nextCost()
            if l not in c or abs(x - c[l]) > 1e-9 or x > min(c.values()) + 1e-9:
                raise Violation("arm:next", "next is edge %d for %s of %s" % (l, x, c))
            pair = (self.m.edge(l).leftFaceLabel(), self.m.edge(l).rightFaceLabel())
            sure = pair[0] == pair[1] or not a.complete or not common_protected(self.m, *pair)
            n = a.step()
            a.mergeStep()
            if sure and a.step() != n + 1:
                raise Violation("arm:next", "the step after ensureValidNext() did nothing")

    def op_threshold(self, w, faults):
        c = float(w[1])
        costs = []
        n = self.m.faceCount
        self.arm = None
        r, q = maputils.thresholdMergeCost(self.m, self.mcm, c, costs, self.queue)
        self.queue = q
        if len(costs) != r or any(x > c for x in costs):
            raise Violation("arm:log", "%d merges, costs %s" % (r, costs))
        rest = dict((l, x) for l, x in ((l, self.mcm(self.m.edge(l).dart())) for l in q.model if self.m.edge(l) and not protected(self.m.edge(l))) if x <= c)
        if rest:
            raise Violation("arm:cost", "thresholdMergeCost(%s) left edges %s" % (c, rest))

    # ---- seeded region growing, against a reference model

    def op_srg(self, w, faults):
        self.arm = self.queue = None
        m = self.m
        dynamic, stupid, k, seed, steps = (int(x) for x in w[1:6])
        rng = random.Random(seed)
        labels = [f.label() for f in m.faceIter()]
        seeds = set(rng.sample(labels, min(k, len(labels))))
        for f in m.faceIter():
            f.setFlag(SRG_SEED, f.label() in seeds)
            f.setFlag(SRG_BORDER, bool(rng.randrange(2)))
        mcm = self.mcm if self.cfg["measure"] != 2 else Measures.pair(self.cfg["mod"])  # (a cost of the two faces, not of one of their edges)
        self.srg_model = SrgModel(m, mcm, seeds, dynamic, stupid)
        try:
            g = maputils.SeededRegionGrowing(m, mcm, bool(dynamic), bool(stupid))
        except AssertionError:
            if any(not self.srg_model.blocked(s, n) for s in seeds for n in neighbors(m, s) if n not in seeds):
                raise
            return
        costs = None
        if hasattr(g, "_costLog"):
            costs = g._costLog = []
        n0 = m.faceCount
        if steps == 99 and self.ties % 2:
            old = self.veto.merges
            r = g.grow()
        else:
            r = 0
            while queue_of(g) and (steps == 99 or r < steps):
                f0 = m.faceCount; st = g.step(); rf = self.veto.refused; cl = len(costs or ())
                self.srg_model.before()
                s = g.growStep()
                self.srg_model.after(s, self.veto.refused > rf, None if costs is None else costs[cl:])
                if (s is not None) != (g.step() == st + 1) or (s is not None) != (m.faceCount == f0 - 1):
                    raise Violation("srg:step", "survivor %s, step %d -> %d, faces %d -> %d" % (s, st, g.step(), f0, m.faceCount))
                if s is not None:
                    r += 1
        if r != g.step() or n0 - m.faceCount != r or (costs is not None and len(costs) != r):
            raise Violation("srg:count", "%s reported, %d steps, %d merges, %d costs" % (r, g.step(), n0 - m.faceCount, len(costs or ())))
        now = [f.label() for f in m.faceIter() if f.flag(SRG_SEED)]
        if len(now) != len(seeds):
            raise Violation("srg:seeds", "%d seeds became %d" % (len(seeds), len(now)))
        if not self.veto.refused and steps == 99:
            for s in now:
                for n in neighbors(m, s):
                    if not m.face(n).flag(SRG_SEED) and not common_protected(m, s, n):
                        raise Violation("srg:rest", "growing ended, but face %d could be merged into seed %d" % (n, s))
        self.sim.count("srg-merges", r)

    # ---- cleaning

    def op_small(self, w, faults):
        self.arm = self.queue = None
        m = self.m
        area, pix, cost = int(w[1]), int(w[2]), int(w[3])
        if not area and not pix:
            area = 3
        is_small = lambda f: not (area and f.area() >= area) and not (pix and f.pixelArea() >= pix)
        bad = []
        def watch(dart):
            l, r = dart.leftFaceLabel(), dart.rightFaceLabel()
            ok = False
            for a, b in ((l, r), (r, l)):
                if a and is_small(m.face(a)):
                    c = [x for x in neighbors(m, a) if any(not protected(e) for e in m.edgeIter() if {e.leftFaceLabel(), e.rightFaceLabel()} == {a, x}) and not common_protected(m, a, x)]
                    costs = dict((x, self.mcm(dart_between(m, a, x))) for x in c)
                    if not cost or (b in costs and costs[b] <= min(costs.values()) + 1e-9):
                        ok = True
            if not ok and not self.veto.refused:
                bad.append((l, r))
            return True
        cb = m.addMergeFacesCallbacks(watch, None)
        n = m.faceCount
        mcm = self.mcm if cost and self.cfg["measure"] != 2 else None
        cost = mcm is not None
        r = maputils.removeSmallRegions(m, area or None, pix or None, mcm)
        cb.disconnect()
        if bad:
            raise Violation("small:choice", "faces %s were merged, which is not the cheapest way to remove a small one" % (bad[0],))
        if r != n - m.faceCount:
            raise Violation("small:count", "%s merges were reported, %d faces disappeared" % (r, n - m.faceCount))
        if not self.veto.refused:
            for f in m.faceIter(True):
                if is_small(f):
                    for x in neighbors(m, f.label()):
                        if not common_protected(m, f.label(), x):
                            raise Violation("small:rest", "face %d is too small, but was not merged into %d" % (f.label(), x))

    def op_best(self, w, faults):
        self.arm = self.queue = None
        if self.cfg["measure"] == 2:
            return
        m = self.m
        f = pick([f for f in m.faceIter(True)], int(w[1]))
        if f is None:
            return
        l = f.label()
        nb = dict((x, self.mcm(dart_between(m, l, x))) for x in neighbors(m, l) if any(not protected(e) for e in m.edgeIter() if {e.leftFaceLabel(), e.rightFaceLabel()} == {l, x}))
        merged = []
        cb = m.addMergeFacesCallbacks(lambda d: merged.append({d.leftFaceLabel(), d.rightFaceLabel()}) or True, None)
        n = m.faceCount
        s = maputils.mergeFaceToBestNeighbor(f, self.mcm)
        cb.disconnect()
        if (s is not None) != (m.faceCount == n - 1):
            raise Violation("best:result", "survivor %s, faces %d -> %d" % (s, n, m.faceCount))
        for p in merged:
            if l not in p or nb[(p - {l}).pop()] > min(nb.values()) + 1e-9:
                raise Violation("best:choice", "face %d: faces %s merged, costs %s" % (l, p, nb))
        if s is None and not self.veto.refused and nb:
            k = min(nb.values())
            if not any(common_protected(m, l, x) for x in nb if nb[x] <= k):
                raise Violation("best:nothing", "face %d was not merged, costs %s" % (l, nb))

    def op_cruft(self, w, faults):
        self.arm = self.queue = None
        m = self.m
        what = int(w[1])
        before = (m.nodeCount, m.edgeCount, m.faceCount)
        done = []
        cbs = [m.addMergeFacesCallbacks(None, lambda f: done.append("mf")), m.addRemoveBridgeCallbacks(None, lambda f: done.append("rb")), m.addMergeEdgesCallbacks(None, lambda f: done.append("me"))]
        nodes = m.nodeCount
        r = maputils.removeCruft(m, what)
        for c in cbs:
            c.disconnect()
        # isolated nodes removed on the way belong to the other operations
        if what & 1 == 0 and r != len(done) or r < len(done):
            raise Violation("cruft:count", "%s operations reported, %s done" % (r, len(done)))
        allowed = {8: "mf", 4: "rb", 2: "me"}
        for k, x in allowed.items():
            if not what & k and x in done:
                raise Violation("cruft:what", "removeCruft(%d) did %s" % (what, x))
        if not self.veto.refused:
            free = lambda e: not (self.cfg["object"] and protected(e))
            if what & 8 and any(e.leftFaceLabel() != e.rightFaceLabel() and free(e) for e in m.edgeIter()):
                raise Violation("cruft:rest", "removeCruft(%d) left an edge between faces" % what)
            if what & 4 and any(e.leftFaceLabel() == e.rightFaceLabel() and free(e) for e in m.edgeIter()):
                raise Violation("cruft:rest", "removeCruft(%d) left a bridge" % what)
            if what & 1 and isolated(m):
                raise Violation("cruft:rest", "removeCruft(%d) left isolated nodes" % what)
            if what & 2:
                for l in degree2_darts(m):
                    d = m.dart(l)
                    if not self.cfg["object"] or d.edge().flags() == d.clone().nextSigma().edge().flags():
                        raise Violation("cruft:rest", "removeCruft(%d) left a node of degree 2" % what)

    def op_protect(self, w, faults):
        e = pick(edges(self.m), int(w[1]))
        if e is not None:
            e.setFlag(8, True)

    # ---- minimum spanning tree, waterfall, classification

    def costs(self, seed):
        return [None if h(seed, l) % 11 == 0 else h(seed, l, 1) % 6 + 1 for l in range(self.m.maxEdgeLabel())]

    def op_mst(self, w, faults):
        m = self.m
        c = self.costs(int(w[1]))
        r = maputils.minimumSpanningTree(m, list(c))
        tree = [e for e in m.edgeIter() if r[e.label()] is not None]
        if any(r[e.label()] != c[e.label()] for e in tree) or len(r) != len(c):
            raise Violation("mst:costs", "the costs of tree edges were changed")
        def comps(es):
            p = dict((f.label(), f.label()) for f in m.faceIter())
            def find(x):
                while p[x] != x:
                    x = p[x]
                return x
            loops = 0
            for e in es:
                a, b = find(e.leftFaceLabel()), find(e.rightFaceLabel())
                loops += a == b
                p[a] = b
            return sorted((f, find(f)) for f in p), loops, [find(f) for f in p]
        alle = sorted((e for e in m.edgeIter() if c[e.label()] is not None), key=lambda e: c[e.label()])
        t, loops, ids = comps(tree)
        if loops:
            raise Violation("mst:cycle", "the spanning tree has cycles")
        if len(set(ids)) != len(set(comps(alle)[2])):
            raise Violation("mst:span", "the spanning tree does not connect everything")
        # Kruskal
        total = 0; es = []
        for e in alle:
            if comps(es + [e])[1] == 0:
                es.append(e); total += c[e.label()]
        if total != sum(c[e.label()] for e in tree):
            raise Violation("mst:cost", "cost %s, minimum %s" % (sum(c[e.label()] for e in tree), total))

    def op_waterfall(self, w, faults):
        self.arm = self.queue = None
        m = self.m
        c = self.costs(int(w[1]))
        labels = maputils.waterfallLabels(m, list(c))
        self.classify(labels, lambda: maputils.waterfall(m, list(c)))

    def op_classes(self, w, faults):
        self.arm = self.queue = None
        m = self.m
        cls = [None if h(int(w[1]), l) % 5 == 0 else h(int(w[1]), l) % int(w[2]) for l in range(m.maxFaceLabel())]
        self.classify(cls, lambda: maputils.applyFaceClassification(m, cls))

    def classify(self, cls, f):
        """faces are merged iff they are connected through faces of their class"""
        m = self.m
        p = dict((x.label(), x.label()) for x in m.faceIter())
        def find(x):
            while p[x] != x:
                x = p[x]
            return x
        for e in m.edgeIter():
            a, b = e.leftFaceLabel(), e.rightFaceLabel()
            if cls[a] == cls[b] and cls[a] is not None and not (self.cfg["object"] and protected(e)):
                x, y = find(a), find(b)
                p[max(x, y)] = min(x, y)
        n = len(set(find(x) for x in p))
        before = dict((x.label(), r6(x.area())) for x in m.faceIter(True))
        f()
        if self.veto.refused:
            return
        if m.faceCount != n:
            raise Violation("classes", "%d faces instead of %d" % (m.faceCount, n))
        want = {}
        for x, a in before.items():
            want[find(x)] = want.get(find(x), 0) + a
        got = sorted(x.area() for x in m.faceIter(True))
        want = sorted(a for x, a in want.items() if x != find(0))
        if len(got) != len(want) or any(abs(x - y) > 1e-4 for x, y in zip(got, want)):
            raise Violation("classes", "areas %s instead of %s" % (got, want))


class SrgModel:
    """Adams and Bischof with a list of (cost, face): the cheapest candidate goes to its cheapest adjacent seed"""
    def __init__(self, m, mcm, seeds, dynamic, stupid):
        self.m, self.mcm, self.dynamic = m, mcm, dynamic
        self.entries = []; self.border = set(); self.maybe = set()
        for s in sorted(seeds):
            self.add(s, skip=bool(stupid and not dynamic), seeds=seeds)

    def blocked(self, a, b):
        return common_protected(self.m, a, b)

    def add(self, s, skip, seeds=None):
        m = self.m
        for n in neighbors(m, s):
            if (n in seeds if seeds is not None else m.face(n).flag(SRG_SEED)) or self.blocked(s, n):
                continue
            if skip and n in self.border:
                continue
            c = self.mcm(dart_between(m, s, n))
            if self.dynamic:
                self.entries = [x for x in self.entries if x[1] != n]
            self.entries.append((c, n)); self.border.add(n)

    def before(self):
        m = self.m
        self.entries = [x for x in self.entries if m.face(x[1]) and not m.face(x[1]).flag(SRG_SEED)]
        self.seeds = dict((f.label(), set(neighbors(m, f.label()))) for f in m.faceIter() if f.flag(SRG_SEED))
        self.faces = set(f.label() for f in m.faceIter())
        self.costs = {}
        for c, f in self.entries:
            self.costs[f] = dict((s, self.mcm(dart_between(m, f, s))) for s in neighbors(m, f) if m.face(s).flag(SRG_SEED) and not self.blocked(f, s))
        # faces that cannot be merged any more are dropped when it is their turn (and may be added again later)
        best = min([c for c, f in self.entries if self.costs[f]], default=None)
        for c, f in self.entries:
            if not self.costs[f] and (best is None or c <= best):
                if best is None or c < best:
                    self.border.discard(f)
                else:
                    self.maybe.add(f)
        self.entries = [(c, f) for c, f in self.entries if self.costs[f] or (best is not None and c >= best)]

    def after(self, s, refused, logged):
        m = self.m
        if s is None:
            if not refused and any(self.costs[f] and f not in self.maybe for c, f in self.entries):
                raise Violation("srg:gave-up", "nobody refused, but nothing was merged; candidates %s" % (self.entries,))
            if refused:
                self.lost = True
            return
        gone = self.faces - set(f.label() for f in m.faceIter())
        if len(gone) != 1:
            raise Violation("srg:merge", "faces %s disappeared" % (gone,))
        g = gone.pop()
        pair = {g, s.label()}
        new = [f for f in pair if f not in self.seeds]
        old = [f for f in pair if f in self.seeds]
        if len(new) != 1 or len(old) != 1:
            raise Violation("srg:merge", "faces %s were merged, seeds %s" % (pair, sorted(self.seeds)))
        new, old = new[0], old[0]
        if getattr(self, "lost", False):
            return  # (which candidates a refusal leaves in the queue is not specified)
        mine = [c for c, f in self.entries if f == new]
        if not mine:
            raise Violation("srg:candidate", "face %d was merged, candidates are %s" % (new, self.entries))
        live = [c for c, f in self.entries if self.costs[f] and f not in self.maybe]
        if new in self.maybe:
            pass
        elif min(mine) > min(live) + 1e-9:
            raise Violation("srg:order", "face %d (cost %s) was merged before %s" % (new, min(mine), self.entries))
        if new not in self.maybe and logged is not None and logged != [min(mine)] and not any(abs(x - min(mine)) < 1e-9 for x in logged):
            raise Violation("srg:log", "cost log %s, queued at %s" % (logged, mine))
        c = self.costs[new]
        if old not in c or c[old] > min(c.values()) + 1e-9:
            raise Violation("srg:choice", "face %d went to seed %d, costs are %s" % (new, old, c))
        self.entries = [x for x in self.entries if x[1] != new]
        self.border.discard(new)
        if not s.flag(SRG_SEED):
            raise Violation("srg:seed", "the grown region is no seed")
        self.add(s.label(), skip=not self.dynamic)

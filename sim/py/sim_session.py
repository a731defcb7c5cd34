"""P13: a map saved at any point of its history and restored after a crash (pickle), or copied, is the same map and behaves the same from then on."""
import copy, pickle
import geomap, maputils
from world import *

KINDS = [("mf", 5), ("mfc", 2), ("rb", 3), ("me", 4), ("rin", 2), ("sp", 3), ("bulk", 1), ("res", 1), ("efl", 3), ("ffl", 3)]


class SessionSim:
    @staticmethod
    def gen(rng):
        L = ["map " + gen_map(rng), "cfg labels=%d history=%d protection=%d graph=%d" % (rng.randrange(4) > 0, rng.randrange(2), rng.randrange(4) == 0, rng.randrange(8) == 0)]
        n = rng.choice((6, 15, 30, 60))
        wipe = rng.random() < 0.15
        for i in range(n):
            r = rng.random()
            if r < 0.13:
                L.append("op save %d %d" % (rng.randrange(3), rng.randrange(5)))
            elif r < 0.22:
                L.append("op restore %d" % rng.randrange(3))
            elif r < 0.30:
                L.append("op twin %s" % rng.choice(("pickle", "pickle", "copy", "deepcopy")))
            elif r < 0.33:
                L.append("op copymap")
            elif r < 0.36:
                L.append("op attr %d" % rng.randrange(100))
            else:
                L.append("op " + gen_op(rng, KINDS))
        if wipe:  # down to a map without edges
            L += ["op wipe %d" % rng.randrange(BIG)] + ["op save 0 %d" % rng.randrange(5), "op restore 0", "op copymap", "op bulk 2", "op twin pickle"]
        return L

    def __init__(self, sim, head):
        self.sim = sim
        self.cfg = {}
        for w in head:
            if w[0] == "map":
                self.desc = w[1:]
            elif w[0] == "cfg":
                self.cfg = dict((k, int(v)) for k, v in (x.split("=") for x in w[1:]))
        self.slots = {}
        self.twin = None

    def run(self, ops):
        s = self.sim
        if self.cfg.get("graph"):
            m = build_graph(self.desc)
            self.check_graph(m)
            m.sortEdgesDirectly()
            self.check_graph(m)
            m.initializeMap(bool(self.cfg["labels"]))
            self.m = m
        else:
            self.m = build_map(self.desc, bool(self.cfg["labels"]))
        if self.cfg.get("history"):
            self.m.history = maputils.LiveHistory(self.m)
        if self.cfg.get("protection"):
            self.m.protection = geomap.EdgeProtection(self.m)
        prev = "-"
        for i, (w, faults) in enumerate(ops):
            s.op = i
            s.count("steps")
            self.step(w)
            s.sig(prev + ">" + w[0]); prev = w[0]
        if self.twin is not None:
            self.same("end", dump(self.m), dump(self.twin))

    def check_graph(self, m):
        self.same("graph", dump(m), dump(pickle.loads(pickle.dumps(m))))
        self.same("graph-copy", dump(m), dump(copy.copy(m)))

    def same(self, what, a, b):
        d = diff(a, b)
        if d:
            raise Violation("restored-differs:" + what, d)

    def attrs(self, m):
        return (getattr(m, "tag", None), list(m.history) if hasattr(m, "history") else None, hasattr(m, "protection"))

    def check_attached(self, what, m):
        """what was attached to the map belongs to the restored map"""
        if hasattr(m, "protection") and m.protection.map() is not m:
            raise Violation("attachment:" + what, "EdgeProtection of the restored map does not protect it: %s" % (m.protection,))

    def geometry(self, m):
        return (m.nodeCount, m.edgeCount, m.faceCount, sorted(min(p, p[::-1]) for p in (tuple(tuple(q) for q in e) for e in m.edgeIter())),
                sorted((r6(f.area()), f.pixelArea() if m.hasLabelImage() else None, f.flags() & 0x0fffffff) for f in m.faceIter()))

    def step(self, w):
        s = self.sim
        if w[0] == "save":
            blob = pickle.dumps(self.m, int(w[2]))
            self.slots[w[1]] = (blob, dump(self.m), self.attrs(self.m))
            s.log("save", w[1], len(self.slots[w[1]][1]["edges"]))
        elif w[0] == "restore":
            if w[1] not in self.slots:
                return
            blob, d, at = self.slots[w[1]]
            self.m = self.twin = None  # crash: only the pickle survives
            self.m = pickle.loads(blob)
            s.count("fault.crash-restore")
            self.same("pickle", d, dump(self.m))
            if self.attrs(self.m) != at:
                raise Violation("attributes", "%s vs %s" % (at, self.attrs(self.m)))
            self.check_attached("pickle", self.m)
            if not self.m.checkConsistency():
                raise Violation("inconsistent", "checkConsistency() is false after restoring")
            s.log("restore", w[1])
        elif w[0] == "twin":
            how = w[1]
            if how == "pickle":
                t = pickle.loads(pickle.dumps(self.m))
            elif how == "copy":
                t = copy.copy(self.m)
                for a in ("history", "protection"):  # attributes are shared by a shallow copy
                    if hasattr(t, a):
                        delattr(t, a)
                if hasattr(self.m, "history"):
                    t.history = maputils.LiveHistory(t); t.history.extend(self.m.history)
                if hasattr(self.m, "protection"):
                    t.protection = geomap.EdgeProtection(t)
            else:
                t = copy.deepcopy(self.m)
            self.same(how, dump(self.m), dump(t))
            if self.attrs(self.m) != self.attrs(t):
                raise Violation("attributes", "%s: %s vs %s" % (how, self.attrs(self.m), self.attrs(t)))
            self.check_attached(how, t)
            self.twin = t
            s.count("twins." + how)
            s.log("twin", how)
        elif w[0] == "copymap":
            self.copymap()
        elif w[0] == "attr":
            for m in (self.m, self.twin):
                if m is not None:
                    m.tag = {"n": int(w[1]), "l": [int(w[1])]}
        elif w[0] == "wipe":
            for m in (self.m, self.twin):
                if m is not None:
                    if hasattr(m, "protection"):
                        m.protection.detachHooks()
                        del m.protection
                    geomap.removeEdges(m, [e.label() for e in m.edgeIter()])
        else:
            r = apply_op(self.m, w)
            s.log(w[0], r)
            if self.twin is not None:
                r2 = apply_op(self.twin, w)
                if w[0] in ("mfc", "res", "bulk"):  # which of two edges survives their merge depends on the nodes' anchors, which are arbitrary
                    a, b = self.geometry(self.m), self.geometry(self.twin)
                    if r != r2 or a != b:
                        raise Violation("diverged", "%s: %s on the map, %s on the restored copy; %s vs %s" % (" ".join(w), r, r2, a[:2], b[:2]))
                    if dump(self.m) != dump(self.twin) or self.attrs(self.m) != self.attrs(self.twin):
                        self.twin = None
                    return
                if r != r2:
                    raise Violation("diverged", "%s: %s on the map, %s on the restored copy" % (" ".join(w), r, r2))
                d = dump(self.m)
                self.same("after " + w[0], d, dump(self.twin))
                if self.attrs(self.m) != self.attrs(self.twin):
                    raise Violation("attributes", "%s vs %s" % (self.attrs(self.m), self.attrs(self.twin)))
                s.state(d)

    def copymap(self):
        m = self.m
        c = maputils.copyMap(m)
        a, b = dump(m), dump(c)
        if a["counts"] != b["counts"] or a["size"] != b["size"] or a["haslabels"] != b["haslabels"]:
            raise Violation("copymap:counts", "%s vs %s" % ((a["counts"], a["size"], a["haslabels"]), (b["counts"], b["size"], b["haslabels"])))
        geo = dict((e[4], e) for e in b["edges"])
        em = {}
        nm = {}
        for e in a["edges"]:
            f = geo.get(e[4])
            if f is None or f[3] != e[3]:
                raise Violation("copymap:edge", "edge %s has no counterpart: %s" % (e[:4], f and f[:4]))
            em[e[0]] = f[0]; em[-e[0]] = -f[0]
            nm[e[1]] = f[1]; nm[e[2]] = f[2]
        bn = dict((n[0], n) for n in b["nodes"])
        for n in a["nodes"]:
            if n[3] == ():
                if not any(x[1] == n[1] and x[3] == () for x in b["nodes"]):
                    raise Violation("copymap:node", "isolated node %s is missing" % (n,))
                continue
            x = bn[nm[n[0]]]
            if x[1] != n[1] or x[3] != rot([em[l] for l in n[3]]):
                raise Violation("copymap:node", "%s vs %s" % (n, x))
        fb = dict((f[2] and f[2][0] or 0, f) for f in b["faces"])
        pix = {}
        for f in a["faces"]:
            k = rot([em[l] for l in f[2][0]]) if f[2] else 0
            x = fb.get(k)
            hs = tuple(sorted(rot([em[l] for l in h]) for h in f[3]))
            if x is None or x[1] != f[1] or x[3] != hs or x[5:] != f[5:]:
                raise Violation("copymap:face", "%s vs %s" % (f, x))
            pix[f[0]] = x[0]
        if a["haslabels"]:
            la = numpy.frombuffer(a["labels"], int); lb = numpy.frombuffer(b["labels"], int)
            for u, v in zip(la, lb):
                if (u < 0) != (v < 0) or (u >= 0 and pix.get(int(u)) != int(v)):
                    raise Violation("copymap:labels", "pixel of face %d is %d in the copy" % (u, v))
        self.sim.log("copymap", len(em))

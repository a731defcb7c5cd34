"""Seeded observers: one object listens to every kind of announcement and, at the announcement the script names, vetoes or raises."""
import geomap


class Boom(Exception):
    pass


class Observers:
    """faults of the current operation: {n-th pre-announcement: "veto" | "raise" | "zero" | ...}"""
    KINDS = ("MergeFaces", "RemoveBridge", "MergeEdges")

    def __init__(self, m, sim):
        self.sim = sim; self.plan = {}; self.n = 0; self.fired = []; self.log = []; self.error = None
        self.cbs = [getattr(m, "add%sCallbacks" % k)(self.pre(k), self.post(k)) for k in self.KINDS]
        self.cbs.append(m.addRemoveNodeCallback(self.pre("RemoveNode")))

    def arm(self, faults):
        self.plan = dict((int(f[1]), f[0]) for f in faults if f[0] in ("veto", "raise"))
        self.n = 0; self.fired = []; self.log = []; self.error = None

    def pre(self, kind):
        def f(cell):
            self.n += 1
            what = self.plan.get(self.n)
            if what == "raise" and kind == "RemoveNode":
                what = "veto"  # (a bridge removes its nodes when it is gone already: too late for an exception)
            self.log.append(("pre" + kind, cell.label(), what))
            if what:
                self.fired.append((kind, what)); self.sim.count("fault." + what)
            if what == "raise":
                self.error = Boom("%s %d" % (kind, self.n))
                raise self.error
            return what != "veto"
        return f

    def post(self, kind):
        def f(cell):
            self.log.append(("post" + kind, cell.label()))
        return f

    def detach(self):
        for c in self.cbs:
            c.disconnect()


def gen_faults(rng, p=0.25):
    s = ""
    if rng.random() < p:
        for _ in range(rng.choice((1, 1, 1, 2))):
            s += " ! %s %d" % (rng.choice(("veto", "veto", "raise")), rng.choice((1, 1, 1, 2, 2, 3, 4)))
    return s

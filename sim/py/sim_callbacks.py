"""P15: Python observers that refuse, raise, answer nonsense, disconnect or drop themselves and each other, keep what they were handed, outlive the map."""
import gc
import geomap, maputils
from world import *

KINDS = [("mf", 6), ("rb", 4), ("me", 5), ("rin", 3), ("sp", 4), ("mfc", 1), ("bulk", 1), ("res", 1)]
HOOKS = ("MergeFaces", "RemoveBridge", "MergeEdges", "SplitEdge", "RemoveNode", "AssociatePixels")
ACTS = "tttttttttfn012sxbdDkKch"


class Boom(Exception):
    pass


class BoomBase(BaseException):
    pass


class Observer:
    def __init__(self, sim, number, mask, acts, halves):
        self.w = sim; self.id = number; self.acts = acts; self.n = 0; self.cb = {}; self.on = {}
        for i, k in enumerate(HOOKS):
            if not mask >> i & 1:
                continue
            if k in ("RemoveNode", "AssociatePixels"):
                self.cb[k] = getattr(sim.m, "add%sCallback" % k)(self.pre(k) if k == "RemoveNode" else self.post(k))
            else:
                pre, post = self.pre(k), self.post(k)
                self.cb[k] = getattr(sim.m, "add%sCallbacks" % k)(None if halves == 2 else pre, None if halves == 1 else post)
            self.on[k] = True
        self.halves = halves
        sim.events.append(("conn", self.id))

    def has(self, kind, when):
        """the part of this observer that listens to kind/when (when: pre or post)"""
        if kind in ("RemoveNode", "AssociatePixels"):
            return kind in self.cb or kind in self.on
        return (kind in self.on) and not (self.halves == 2 and when == "pre") and not (self.halves == 1 and when == "post")

    def act(self):
        a = self.acts[self.n % len(self.acts)]; self.n += 1
        return a

    def called(self, kind, when, cells):
        w = self.w
        if not self.on.get(kind):
            raise Violation("called-after-disconnect", "observer %d got %s%s after it was disconnected" % (self.id, when, kind))
        a = self.act()
        ev = ["call", self.id, when + kind, tuple(c.label() for c in cells), a]
        w.events.append(ev)
        w.sim.count("calls")
        if a not in "tf012n":
            w.sim.count("fault.observer-" + {"s": "nonsense", "x": "raise", "b": "raise-base", "d": "disconnects-itself", "D": "disconnects-other", "k": "drops-itself", "K": "drops-other", "c": "connects-new", "h": "keeps-cell"}[a])
        elif a in "f0n":
            w.sim.count("fault.veto")
        if a == "x" or a == "b":
            e = (Boom if a == "x" else BoomBase)("%d %s%s" % (self.id, when, kind))
            w.raised.append(e)
            raise e
        if a == "d":
            self.disconnect(kind)
        elif a == "k":
            self.drop(kind)
        elif a in "DK":
            o = w.obs[(self.id * 7 + self.n) % len(w.obs)]
            k = HOOKS[(self.id + self.n) % len(HOOKS)]
            (o.disconnect if a == "D" else o.drop)(k)
        elif a == "c":
            if len(w.obs) < 12:
                w.connect(63, "t", 0)
        elif a == "h":
            for c in cells:
                w.held.append((c, c.label()))
        return {"f": False, "n": None, "0": 0, "1": 1, "2": 2, "s": "maybe"}.get(a, True)

    def disconnect(self, kind):
        if kind in self.cb:
            self.cb[kind].disconnect()
            self.on[kind] = False
            self.w.events.append(("disc", self.id, kind))
            if self.cb[kind].connected():
                raise Violation("connected", "connected() is true after disconnect()")

    def drop(self, kind):
        if kind in self.cb:
            del self.cb[kind]
            self.on[kind] = False
            self.w.events.append(("disc", self.id, kind))

    def pre(self, kind):
        if kind == "SplitEdge":
            def split(edge, i, p):
                self.w.split.append((i, None if p is None else tuple(p)))
                return self.called(kind, "pre", (edge,))
            return split
        return lambda cell: self.called(kind, "pre", (cell,))

    def post(self, kind):
        if kind == "SplitEdge":
            return lambda edge, new: self.called(kind, "post", (edge, new))
        if kind == "AssociatePixels":
            def associate(face, pixels):
                self.w.pixels.append(sorted((p[0], p[1]) for p in pixels))
                return self.called(kind, "post", (face,))
            return associate
        return lambda cell: self.called(kind, "post", (cell,))


def refuses(a):
    return a in "f0n"


class CallbackSim:
    @staticmethod
    def gen(rng):
        L = ["map " + gen_map(rng, True), "cfg labels=%d" % (rng.randrange(4) > 0)]
        def conn():
            acts = "".join(rng.choice(ACTS if rng.random() < 0.6 else "tt1h") for _ in range(rng.randrange(1, 9)))
            if rng.random() < 0.2:  # mostly agreeable, raises once in a while
                acts = "t" * rng.randrange(1, 6) + rng.choice("xb") + "t" * rng.randrange(0, 4)
            return "op connect %d %s %d" % (rng.choice((63, 63, rng.randrange(1, 64))), acts, rng.choice((0, 0, 0, 1, 2)))
        for _ in range(rng.randrange(1, 4)):
            L.append(conn())
        for i in range(rng.choice((6, 12, 25))):
            r = rng.random()
            if r < 0.10:
                L.append(conn())
            elif r < 0.16:
                L.append("op %s %d %d" % (rng.choice(("disconnect", "drop")), rng.randrange(12), rng.randrange(6)))
            elif r < 0.20:
                L.append("op useheld")
            else:
                L.append("op " + gen_op(rng, KINDS))
        L.append("op %s" % rng.choice(("dropmap", "dropobservers", "useheld")))
        return L

    def __init__(self, sim, head):
        self.sim = sim
        for w in head:
            if w[0] == "map":
                self.desc = w[1:]
            elif w[0] == "cfg":
                self.cfg = dict((k, int(v)) for k, v in (x.split("=") for x in w[1:]))
        self.obs = []; self.events = []; self.raised = []; self.held = []

    def connect(self, mask, acts, halves):
        self.obs.append(None)
        self.obs[-1] = Observer(self, len(self.obs) - 1, mask, acts, halves)

    def run(self, ops):
        s = self.sim
        self.m = build_map(self.desc, bool(self.cfg["labels"]))
        prev = "-"
        for i, (w, faults) in enumerate(ops):
            s.op = i
            s.count("steps")
            if self.m is None:
                break
            if w[0] == "connect":
                self.connect(int(w[1]), w[2], int(w[3]))
            elif w[0] in ("disconnect", "drop"):
                if self.obs:
                    getattr(self.obs[int(w[1]) % len(self.obs)], w[0])(HOOKS[int(w[2])])
            elif w[0] == "useheld":
                self.use_held()
            elif w[0] == "dropmap":
                self.drop_map()
            elif w[0] == "dropobservers":
                for o in self.obs:
                    o.cb = {}; o.on = {}
                gc.collect()
                self.operate(["mf", "0"])
            else:
                self.operate(w)
            self.check_connected()
            s.sig(prev + ">" + w[0]); prev = w[0]
        self.held = []

    def check_connected(self):
        for o in self.obs:
            for k, c in o.cb.items():
                if c.connected() != bool(o.on[k] and self.m is not None) and not (k == "x"):
                    raise Violation("connected", "connected() of observer %d (%s) is %s" % (o.id, k, c.connected()))

    def use_held(self):
        for c, l in self.held:
            if c.label() != l:
                raise Violation("held", "a cell that an observer was handed as %d says it is %d" % (l, c.label()))
            try:
                repr(c)
            except RuntimeError:
                pass  # (a removed cell may refuse, but must not be gone)
        self.sim.log("held", len(self.held))

    def drop_map(self):
        self.use_held()
        self.held = []; self.raised = []
        self.sim.count("fault.map-dropped")
        self.m = None
        gc.collect()
        self.check_connected()
        for o in self.obs:
            for k in list(o.cb):
                if o.cb[k].connected():
                    raise Violation("connected", "connected() is true after the map is gone")
                o.cb[k].disconnect()

    def operate(self, w):
        s = self.sim
        m = self.m
        del self.events[:]; del self.raised[:]; self.split = []; self.pixels = []
        before = dump(m)
        leaf = None
        l = None
        if w[0] == "rb":
            l = pick(bridge_darts(m), int(w[1]))
            if l is not None:
                d = m.dart(l)
                leaf = [n for n in ((d.startNodeLabel(), d.endNodeLabel())) if m.node(n).hasDegree(1)]
        elif w[0] == "mf":
            l = pick(darts_between(m), int(w[1]))
            if l is not None:
                d = m.dart(l)
                leaf = [d.startNodeLabel()] if d.edge().isLoop() and m.node(d.startNodeLabel()).hasDegree(2) else []
        state = dict((o.id, dict(o.on)) for o in self.obs)
        err = None; r = None
        self.midpoint = None
        if w[0] == "sp":
            e = pick(edges(m), int(w[1]))
            if e is not None:
                pts = [tuple(p) for p in e]
                cand = [None] * (len(pts) - 2) + [x for x in (exact_mid(pts[i], pts[i + 1]) for i in range(len(pts) - 1)) if x]
                self.midpoint = pick(cand, int(w[2]))
                del e
        try:
            r = apply_op(m, w)
        except Violation:
            raise
        except (Boom, BoomBase, TypeError) as e:
            err = e
        after = dump(m)
        s.log(w[0], r, type(err).__name__ if err else "-", [tuple(e) for e in self.events])
        s.state(after)
        if err is not None and not isinstance(err, TypeError) and err is not self.raised[0]:
            raise Violation("exception", "%s reached the caller instead of %s" % (err, self.raised[0]))
        if err is None and self.raised:
            raise Violation("exception", "%s was raised by an observer, but did not reach the caller (%s)" % (self.raised[0], r))
        if isinstance(err, TypeError) and not any(e[0] == "call" and e[4] == "s" for e in self.events):
            raise err
        if not m.checkConsistency():
            raise Violation("inconsistent", "checkConsistency() is false after %s" % (w,))
        if w[0] in ("mf", "rb", "me", "rin", "sp"):
            self.judge(w[0], before, after, r, err, state, leaf)

    # ---- the expected course of one elementary operation

    def judge(self, k, before, after, r, err, state, leaf):
        self.pos = 0
        self.state = state
        self.order = sorted(state)
        ev = self.events
        what = {"mf": "MergeFaces", "rb": "RemoveBridge", "me": "MergeEdges", "sp": "SplitEdge"}.get(k)
        if r is None and err is None and not ev and before == after:
            return  # nothing eligible, or nobody listens and nothing happened
        done = None
        outcome = "ok"
        if what:
            outcome = self.emission("pre" + what, k != "sp")
        if outcome == "ok" and k in ("me", "rin"):
            outcome = self.emission("preRemoveNode", True)
        done = outcome == "ok"
        late = "ok"
        if done and k in ("rb", "mf"):
            for n in dict.fromkeys(leaf):
                o = self.emission("preRemoveNode", True, n)
                if o == "raise":
                    late = o
                    break
        if done and what and late == "ok":
            late = self.emission("post" + what, False)
        if done and k in ("mf", "rb") and self.pos < len(ev) and ev[self.pos][0] == "call":
            o = self.emission("postAssociatePixels", False, None, late == "raise")  # (a pending exception is what the caller gets)
            late = late if late != "ok" else o
        while self.pos < len(ev) and ev[self.pos][0] != "call":
            self.pos += 1
        if self.pos < len(ev):
            raise Violation("announcements", "unexpected announcement %s of %s in %s" % (ev[self.pos], k, ev))
        if outcome == "raise" or late == "raise":
            if err is None:
                raise Violation("exception", "an observer raised or answered nonsense, but the caller got %s" % (r,))
        elif err is not None:
            raise Violation("exception", "unexpected %r" % (err,))
        if k == "sp" and r is not None:
            want = (r[2][1], None) if r[2][0] == "p" else (r[2][1], self.midpoint)
            if any(x != want for x in self.split):
                raise Violation("announcements", "preSplitEdge said %s for %s" % (self.split, want))
        if self.pixels and before["haslabels"]:
            w, h = before["size"]
            la = numpy.frombuffer(before["labels"], int); lb = numpy.frombuffer(after["labels"], int)
            want = sorted((i // h, i % h) for i in range(w * h) if la[i] < 0 <= lb[i])
            if any(x != want for x in self.pixels):
                raise Violation("announcements", "associatePixels said %s for %s" % (self.pixels[0][:6], want[:6]))
        if not done:
            if diff(before, after):
                raise Violation("refused-changed", "%s was refused, but: %s" % (k, diff(before, after)))
            if err is None and r is not None and r[2 if k != "sp" else 3]:
                raise Violation("refused-result", "%s was refused, but returned %s" % (k, r))
        else:
            if not diff(before, after):
                raise Violation("nothing-done", "%s: nobody refused, but nothing happened (%s)" % (k, r))
            if err is None and k != "rin" and r[2 if k != "sp" else 3] is None or (k == "rin" and err is None and not r[2]):
                raise Violation("result", "%s was carried out, but returned %s" % (k, r))

    def emission(self, hook, vetoable, cell=None, pending=False):
        when, kind = ("pre", hook[3:]) if hook.startswith("pre") else ("post", hook[4:])
        snapshot = [i for i in self.order if self.state[i].get(kind) and self.obs[i].has(kind, when)]
        ev = self.events
        label = None
        for i in snapshot:
            if not self.state[i].get(kind):
                continue  # disconnected meanwhile
            if self.pos >= len(ev) or ev[self.pos][:3] != ["call", i, hook]:
                raise Violation("announcements", "%s was not announced to observer %d: %s" % (hook, i, ev))
            c = ev[self.pos]
            if label is None:
                label = c[3]
            if c[3] != label or (cell is not None and c[3] != (cell,)):
                raise Violation("announcements", "%s was announced with %s to observer %d, but %s" % (hook, c[3], i, label if cell is None else cell))
            self.pos += 1
            self.effects()
            if pending:
                continue
            if c[4] in "xb" or (c[4] == "s" and vetoable):
                return "raise"
            if vetoable and refuses(c[4]):
                return "veto"
        return "ok"

    def effects(self):
        while self.pos < len(self.events) and self.events[self.pos][0] != "call":
            e = self.events[self.pos]
            if e[0] == "conn":
                o = self.obs[e[1]]
                self.state[e[1]] = dict((k, True) for k in o.on); self.order.append(e[1])
            else:
                self.state[e[1]][e[2]] = False
            self.pos += 1

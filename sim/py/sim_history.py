"""P14: the recorded history of a map reproduces it: live recording under vetoes and exceptions, every prefix, through the disk, after crashes."""
import copy, pickle
import geomap, maputils
from world import *
from hooks import *
from disk import *

KINDS = [("mf", 6), ("mfc", 3), ("rb", 3), ("me", 4), ("rin", 2), ("bulk", 1), ("res", 1)]


class HistorySim:
    @staticmethod
    def gen(rng):
        L = ["map " + gen_map(rng), "cfg labels=%d early=%d kernel=%d" % (rng.randrange(4) > 0, rng.randrange(2), rng.randrange(3) == 0)]
        for i in range(rng.choice((6, 15, 30, 50))):
            r = rng.random()
            if r < 0.08:
                L.append("op prefix %d %d" % (rng.randrange(BIG), rng.randrange(2)))
            elif r < 0.11:
                L.append("op commands")
            elif r < 0.16:
                L.append("op checkpoint")
            elif r < 0.26:
                k = rng.random()
                L.append("op journal" + ("" if k < 0.5 else " ! %s %d" % (rng.choice(("full", "crash", "crash", "closefail")), rng.choice((0, 1, 5, rng.randrange(400))))))
            elif r < 0.34:
                L.append("op crash" + (" ! eio 0" if rng.random() < 0.1 else ""))
            elif r < 0.36:
                L.append("op reattach %d" % rng.randrange(2))
            else:
                L.append("op " + gen_op(rng, KINDS) + gen_faults(rng))
        return L + ["op prefix %d 0" % (BIG - 1), "op kernel"]

    def __init__(self, sim, head):
        self.sim = sim
        for w in head:
            if w[0] == "map":
                self.desc = w[1:]
            elif w[0] == "cfg":
                self.cfg = dict((k, int(v)) for k, v in (x.split("=") for x in w[1:]))

    def attach(self, m):
        """observers registered before or after the recorder"""
        if self.cfg["early"] == 0 and hasattr(m, "history"):
            m.history.detachHooks()
            h = maputils.LiveHistory(m); h.extend(m.history)
            self.obs = Observers(m, self.sim)
            m.history = h
            return
        if self.cfg["early"]:
            self.obs = Observers(m, self.sim)
            if not hasattr(m, "history"):
                m.history = maputils.LiveHistory(m)
        else:
            m.history = maputils.LiveHistory(m)
            self.obs = Observers(m, self.sim)

    def run(self, ops):
        s = self.sim
        self.inner = bool(self.cfg["kernel"] and self.cfg["labels"])
        self.start = build_map(self.desc, bool(self.cfg["labels"]))
        self.m = copy.copy(self.start)
        self.attach(self.m)
        self.kbase = self.start
        self.trail = [dump(self.m)]     # the map after each recorded operation
        self.disk = Disk(s)
        maputils.file = maputils.open = self.disk.file
        self.gen = 0                    # journal generations, written alternately
        self.journals = {}              # generation -> what save() was given, complete or None if the write failed
        self.torn = {}
        self.point = None               # last checkpoint
        prev = "-"
        for i, (w, faults) in enumerate(ops):
            s.op = i
            s.count("steps")
            getattr(self, "op_" + w[0], self.operate)(w, faults)
            s.sig(prev + ">" + w[0] + "".join("!" + f[0] for f in faults)); prev = w[0]
        self.obs.detach()

    def operate(self, w, faults):
        s = self.sim
        # follow the operation step by step: after every confirmed elementary operation the map is remembered
        self.obs.arm(faults)
        n = len(self.m.history)
        steps = []
        cbs = [getattr(self.m, "add%sCallbacks" % k)(None, lambda cell: steps.append((len(self.m.history), k, cell.label()))) for k in Observers.KINDS]
        try:
            r = apply_op(self.m, w, self.inner)
        except Boom as e:
            r = "raised"
        finally:
            for c in cbs:
                c.disconnect()
        h = list(self.m.history)
        s.log(w[0], r, h[n:])
        done = sum(1 for x in self.obs.log if x[0].startswith("post"))
        if len(h) - n != done:
            raise Violation("recorded", "%d operations happened, %d were recorded: %s (%s)" % (done, len(h) - n, h[n:], " ".join(w)))
        d = without_isolated(dump(self.m))
        # an operation of several steps is checked by replaying its record on a copy of the map before it
        self.trail += [None] * (len(h) - n)
        if len(h) > n:
            self.trail[-1] = dump(self.m)
        elif diff(without_isolated(self.trail[-1]), d):
            raise Violation("unrecorded", "%s changed the map without a record: %s" % (" ".join(w), diff(without_isolated(self.trail[-1]), d)))
        s.state(d)

    def replayed(self, h, m, careful=False):
        h = maputils.History(h)
        n = h.replay(m, careful, False)
        if n != len(h):
            raise Violation("replay", "replayed %d of %d operations" % (n, len(h)))
        return m

    def same(self, what, a, b):
        d = diff(without_isolated(a), without_isolated(b))
        if d:
            raise Violation("replay-differs:" + what, d)

    def op_prefix(self, w, faults):
        h = list(self.m.history)
        ks = [i for i, d in enumerate(self.trail) if d is not None]
        k = ks[int(w[1]) * len(ks) // BIG]
        c = self.replayed(h[:k], copy.copy(self.start), bool(int(w[2])))
        self.same("prefix", self.trail[k], dump(c))
        # and on from there
        self.replayed(h[k:], c)
        self.same("rest", self.trail[-1], dump(c))
        self.sim.log("prefix", k, len(h))

    def op_commands(self, w, faults):
        c = copy.copy(self.start)
        exec(self.m.history.commands("c"), {"c": c})
        self.same("commands", self.trail[-1], dump(c))

    def op_checkpoint(self, w, faults):
        """the map with its history is pickled; this survives"""
        self.point = (pickle.dumps(self.m), list(self.m.history), len(self.trail))

    def op_journal(self, w, faults):
        self.gen += 1
        name = "journal.%d" % (self.gen % 2)
        self.disk.fault = (faults[0][0], int(faults[0][1])) if faults else None
        before = sum(self.sim.n.get(k, 0) for k in ("fault.disk-full", "fault.close-error", "fault.crash-torn-write"))
        try:
            self.m.history.save(name)
            fired = sum(self.sim.n.get(k, 0) for k in ("fault.disk-full", "fault.close-error", "fault.crash-torn-write")) > before
            if name not in self.disk.files:
                self.sim.count("unsupported"); self.journals.pop(name, None)  # written past the seam: no verdict
                return
            if fired:
                raise Violation("save", "save() reported success although writing failed")
            self.journals[name] = list(self.m.history)
        except IOError:
            self.journals[name] = None
            self.torn[name] = list(self.m.history)
        except Crash:
            self.journals[name] = None
            self.torn[name] = list(self.m.history)
            self.disk.fault = None
            self.disk.crash()
            self.recover()
        finally:
            self.disk.fault = None
        self.sim.log("journal", name, self.journals.get(name) is not None)

    def op_crash(self, w, faults):
        if faults:
            self.disk.fault = ("eio", 0)
            try:
                maputils.History.load("journal.0")
                if "journal.0" in self.disk.files:
                    raise Violation("load", "load() succeeded although reading failed")
            except IOError:
                pass
            self.disk.fault = None
        self.disk.crash()
        self.recover()

    def recover(self):
        """only the pickle and the journal files are left: the longest readable journal that continues the pickle"""
        s = self.sim
        s.count("fault.crash")
        full = self.trail
        self.m = None
        best = None
        for name in sorted(self.disk.files):
            want = self.journals.get(name)
            try:
                h = maputils.History.load(name)
            except Exception as e:
                if want is not None:
                    raise Violation("load", "a completely written history cannot be loaded: %s" % (e,))
                s.count("torn-detected")
                continue
            if want is None and list(h) != self.torn[name]:  # (only the final newline may be missing)
                raise Violation("load", "a torn history file was loaded as %s" % (list(h)[:5],))
            if (want is not None and list(h) != want) or not isinstance(h, maputils.History):
                raise Violation("load", "loaded %s instead of %s" % (list(h)[:5], want[:5]))
            if best is None or len(h) > len(best):
                best = h
        if self.point is None:
            m, done = copy.copy(self.start), 0
            self.kbase = self.start
        else:
            m = pickle.loads(self.point[0])
            if list(m.history) != self.point[1]:
                raise Violation("history-lost", "%s vs %s" % (list(m.history)[:5], self.point[1][:5]))
            done = len(m.history)
            self.kbase = pickle.loads(self.point[0])  # (pickling the map ends the label bookkeeping of the session)
            self.kbase.history.detachHooks()
        if best is not None and list(best[:done]) == (list(m.history) if done else []):
            if done:  # the restored map goes on recording: replaying on it must extend its history by the same operations
                self.replayed(best[done:], m)
                if list(m.history) != list(best):
                    raise Violation("history-lost", "after recovery the history is %s instead of %s" % (list(m.history), list(best)))
            else:
                self.replayed(best, m)
                m.history = maputils.LiveHistory(m); m.history.extend(best)
        elif not hasattr(m, "history"):
            m.history = maputils.LiveHistory(m)
        n = len(m.history)
        if n >= len(full):
            raise Violation("recovery", "recovered %d operations of %d" % (n, len(full) - 1))
        if full[n] is not None:
            self.same("recovered", full[n], dump(m))
        self.trail = full[:n] + [dump(m)]
        self.journals = dict((k, v) for k, v in self.journals.items())
        # journals that are ahead of the recovered state belong to a future that is lost
        for name in list(self.disk.files):
            v = self.journals.get(name)
            if v is None or v != list(m.history)[:len(v)]:
                del self.disk.files[name]; self.journals.pop(name, None)
        if self.point is not None and self.point[1] != list(m.history)[:len(self.point[1])]:
            self.point = None
        self.m = m
        self.attach(m)
        s.log("recovered", n)

    def op_reattach(self, w, faults):
        """a detached recorder records nothing any more; a second one continues"""
        h = self.m.history
        h.detachHooks()
        n = len(h)
        self.m.history = maputils.LiveHistory(self.m)
        self.m.history.extend(h)
        if int(w[1]):
            l = pick(darts_between(self.m, self.inner), 0)
            if l is not None:
                self.obs.arm([])
                self.m.mergeFaces(self.m.dart(l))
                self.trail.append(dump(self.m))
        if len(h) != n:
            raise Violation("detached", "a detached history recorded %s" % (list(h)[n:],))
        self.sim.log("reattach", len(self.m.history))

    def op_kernel(self, w, faults):
        """the contraction kernel, applied to the start, gives the same partition"""
        if not self.inner:
            return
        cls = maputils.extractContractionKernel(self.m)
        c = copy.copy(self.kbase)
        maputils.applyFaceClassification(c, cls)
        a, b = self.m, c
        if a.faceCount != b.faceCount:
            raise Violation("kernel", "%d faces, %d after applying the contraction kernel to the start" % (a.faceCount, b.faceCount))
        fa = sorted(r6(f.area()) for f in a.faceIter(True)); fb = sorted(r6(f.area()) for f in b.faceIter(True))
        if any(abs(x - y) > 1e-5 for x, y in zip(fa, fb)):
            raise Violation("kernel", "areas %s vs %s" % (fa, fb))
        la = numpy.frombuffer(dump(a)["labels"], int); lb = numpy.frombuffer(dump(b)["labels"], int)
        pair = {}
        back = {}
        for x, y in zip(la, lb):
            if x >= 0 and y >= 0 and (pair.setdefault(int(x), int(y)) != int(y) or back.setdefault(int(y), int(x)) != int(x)):
                raise Violation("kernel", "pixels of face %d are in faces %d and %d" % (x, pair[int(x)], y))
        self.sim.count("kernels")
        self.sim.log("kernel", a.faceCount)

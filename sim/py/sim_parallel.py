"""P21: mapValidFacesParallel() under every scheduling of its worker processes, full pipes, killed workers and failing functions."""
import queue, random, sys, threading, types
import geomap, maputils
from world import *


class Killed(BaseException):
    """unwinds a simulated process"""


class Unsupported(Exception):
    """the code uses a part of multiprocessing that is not simulated: no verdict"""


class Task:
    def __init__(self, sched, name, f):
        self.sched, self.name = sched, name
        self.go = threading.Semaphore(0); self.ready = None; self.timer = False; self.fired = False; self.done = False; self.kill = False; self.n = 0
        self.f = f

    def body(self):
        self.go.acquire()
        try:
            if not self.kill:
                self.f()
        except Killed:
            pass
        finally:
            self.done = True
            self.sched.main.release()


class Scheduler:
    """one task runs at a time; which one goes on at every scheduling point is decided by the seed"""
    def __init__(self, sim, rng, slow):
        self.sim, self.rng, self.slow = sim, rng, slow
        self.tasks = []; self.main = threading.Semaphore(0); self.cur = None; self.steps = 0; self.trace = []; self.over = False

    def spawn(self, name, f):
        t = Task(self, name, f)
        threading.Thread(target=t.body, daemon=True).start()
        self.tasks.append(t)
        return t

    def wait(self, ready=None, timer=False):
        """scheduling point of the running task: goes on when ready() holds, or when the timer fires; returns whether ready"""
        t = self.cur
        t.ready, t.timer, t.fired = ready, timer, False
        self.main.release(); t.go.acquire()
        if t.kill:
            raise Killed()
        return not t.fired

    def run(self, f):
        """runs f as the parent process -> its outcome"""
        out = {}
        def parent():
            try:
                out["result"] = f()
            except Exception as e:
                out["error"] = e
        p = self.spawn("parent", parent)
        try:
            while not p.done:
                self.steps += 1
                if self.steps > 20000:
                    raise Violation("no-progress", "nothing was returned after %d steps" % self.steps)
                ts = [t for t in self.tasks if not t.done and (t.ready is None or t.ready())]
                timers = [t for t in self.tasks if not t.done and t.timer and t not in ts]
                if not ts and not timers:
                    raise Violation("deadlock", "waiting forever: %s" % ", ".join(t.name for t in self.tasks if not t.done))
                if timers and (not ts or self.rng.random() < 0.05):
                    t = self.rng.choice(timers); t.fired = True; self.sim.count("fault.timeout")
                else:
                    t = self.rng.choices(ts, [0.02 if self.slow == x.name else 1.0 for x in ts])[0]
                self.trace.append(t.name)
                t.n += 1
                self.cur = t
                t.go.release(); self.main.acquire()
                if getattr(t, "on_step", None):
                    t.on_step()
        finally:
            self.stop()
        return out

    def stop(self):
        for t in self.tasks:
            while not t.done:
                t.kill = True
                self.cur = t
                t.go.release(); self.main.acquire()


class FakeMultiprocessing(types.ModuleType):
    """processes, and a queue like the real one: put() appends to a buffer of the process, a feeder moves it into a pipe of limited size, a process only ends when its buffer is empty"""
    def __init__(self, sched, cpus, room, kills):
        types.ModuleType.__init__(self, "multiprocessing")
        fake = self
        self.sched, self.kills, self.peak, self.procs, self.queues = sched, kills, 0, [], []

        def cpu_count():
            if not cpus:
                raise NotImplementedError("cannot determine number of cpus")
            return cpus

        class Process:
            def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, daemon=None):
                self.target, self.args, self.kwargs, self.task, self.exitcode, self.daemon = target, args, kwargs, None, None, daemon
                self.buffer = []; self.returned = False; self.index = None

            def start(self):
                assert self.task is None, "cannot start a process twice"
                self.index = len(fake.procs); fake.procs.append(self)
                self.name = "worker%d" % self.index
                self.pid = 1000 + self.index
                self.task = fake.sched.spawn(self.name, self.body)
                self.task.process = self
                self.feeder = fake.sched.spawn("feeder%d" % self.index, self.feed)
                self.task.on_step = self.maybe_kill
                fake.peak = max(fake.peak, sum(p.exitcode is None for p in fake.procs))
                fake.sched.wait()

            def body(self):
                try:
                    self.target(*self.args, **self.kwargs)
                    code = 0
                except Killed:
                    raise
                except Unsupported:
                    raise
                except BaseException as e:  # (prints a traceback)
                    code = 1
                self.returned = True
                fake.sched.wait(lambda: not self.buffer)  # the feeder is joined at exit
                self.exitcode = code

            def feed(self):
                while True:
                    fake.sched.wait(lambda: (self.buffer and len(self.buffer[0][0].pipe) < room) or self.exitcode is not None)
                    if self.exitcode is not None:
                        return
                    q, x = self.buffer.pop(0)
                    q.pipe.append(x)

            def maybe_kill(self):
                if self.exitcode is None and not self.task.done and fake.kills.get(self.index) == self.task.n:
                    fake.sched.sim.count("fault.kill-worker")
                    self.exitcode = -9; self.buffer = []; self.task.kill = True
                    fake.sched.cur = self.task
                    self.task.go.release(); fake.sched.main.acquire()

            def is_alive(self):
                fake.sched.wait()
                return self.task is not None and self.exitcode is None

            def join(self, timeout=None):
                fake.sched.wait(lambda: self.exitcode is not None, timeout is not None)

            def terminate(self):
                if self.exitcode is None:
                    self.exitcode = -15; self.buffer = []
                fake.sched.wait()

            kill = terminate

        class Queue:
            def __init__(self, maxsize=0):
                if maxsize:
                    raise Unsupported("bounded queue")
                self.pipe = []; fake.queues.append(self)

            def put(self, x, block=True, timeout=None):
                p = getattr(fake.sched.cur, "process", None)
                if p is None:
                    raise Unsupported("put() by the parent")
                fake.sched.wait()
                p.buffer.append((self, x))

            def get(self, block=True, timeout=None):
                if not block:
                    fake.sched.wait()
                    if not self.pipe:
                        raise queue.Empty
                elif not fake.sched.wait(lambda: bool(self.pipe), timeout is not None):
                    raise queue.Empty
                return self.pipe.pop(0)

            def get_nowait(self):
                return self.get(False)

            def empty(self):
                fake.sched.wait()
                return not self.pipe

            def close(self):
                pass

            def join_thread(self):
                pass

            def cancel_join_thread(self):
                pass

        self.Process, self.Queue, self.cpu_count = Process, Queue, cpu_count

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(k)


BAD = [type("Bad" + b.__name__, (b,), {}) for b in (Exception, ValueError, KeyError, RuntimeError, IndexError, OSError, MemoryError, ArithmeticError, AttributeError, TypeError, StopIteration, AssertionError)]


class ParallelSim:
    @staticmethod
    def gen(rng):
        L = ["map " + gen_map(rng, rng.random() < 0.5)]
        for i in range(rng.choice((2, 4, 8))):
            if rng.random() < 0.3:
                L.append("op " + gen_op(rng, [("mf", 3), ("mfc", 2), ("bulk", 1)]))
                continue
            f = ""
            if rng.random() < 0.3:
                f += " ! kill %d %d" % (rng.randrange(4), rng.randrange(1, 12))
            if rng.random() < 0.15:
                f += " ! raise %d" % rng.randrange(BIG)
            if rng.random() < 0.3:
                f += " ! slow %s" % rng.choice(("worker0", "worker1", "feeder0", "feeder1", "parent"))
            L.append("op map %d %d %d %d %d%s" % (rng.choice((0, 1, 2, 2, 3, 4, 8, 40)), rng.choice((0, 1, 2, 4)), rng.choice((1, 1, 2, 5, 1000)), rng.randrange(4), rng.randrange(BIG), f))
        return L

    def __init__(self, sim, head):
        self.sim = sim
        for w in head:
            if w[0] == "map":
                self.desc = w[1:]

    def run(self, ops):
        s = self.sim
        m = self.m = build_map(self.desc)
        prev = "-"
        for i, (w, faults) in enumerate(ops):
            s.op = i; s.count("steps")
            if w[0] == "map":
                self.parallel(m, [int(x) for x in w[1:]], faults)
            else:
                s.log(apply_op(m, w))
            s.state(dump(m))

    def parallel(self, m, a, faults):
        s = self.sim
        workers, cpus, room, kind, seed = a
        rng = random.Random(seed)
        kills = dict((int(f[1]), int(f[2])) for f in faults if f[0] == "kill")
        slow = ([f[1] for f in faults if f[0] == "slow"] + [None])[0]
        labels = [f.label() for f in m.faceIter()]
        bad = [labels[int(f[1]) % len(labels)] for f in faults if f[0] == "raise"]
        Bad = BAD[rng.randrange(len(BAD))]
        default = (None, 0, -1, "x")[kind]
        raised = []
        def function(face):
            if sched.cur is not None:
                sched.wait()
            if face.label() in bad:
                raised.append(face.label())
                raise Bad("face %d" % face.label())
            return None if kind == 3 and face.label() % 3 == 0 else (face.label() * 31 % 7, r6(face.area()) if face.label() else 0)
        sched = Scheduler(s, rng, slow)
        try:
            want = maputils.mapValidFaces(function, m, default)
        except Bad:
            want = None
        del raised[:]
        fake = FakeMultiprocessing(sched, cpus, room, kills)
        real = sys.modules.get("multiprocessing")
        sys.modules["multiprocessing"] = fake
        try:
            out = sched.run(lambda: maputils.mapValidFacesParallel(function, m, default, workers or None))
        finally:
            if real is not None:
                sys.modules["multiprocessing"] = real
            else:
                del sys.modules["multiprocessing"]
        if raised:
            s.count("fault.function-raises", len(raised))
        if slow:
            s.count("fault.slow")
        s.log("map", workers, cpus, room, " ".join(sched.trace))
        s.sig(hashlib.sha1(" ".join(sched.trace).encode()).hexdigest()[:12])
        s.count("schedule-steps", sched.steps)
        killed = [p for p in fake.procs if p.exitcode == -9]
        if "error" in out:
            e = out["error"]
            if isinstance(e, Unsupported):
                s.count("unsupported"); return
            if not killed and not raised:
                raise Violation("failed", "no worker failed, but %s: %s" % (type(e).__name__, e))
            return
        limit = workers or cpus or 1
        if fake.peak > limit:
            raise Violation("processes", "%d processes ran at the same time, %d workers were asked for" % (fake.peak, limit))
        got = out["result"]
        if want is None:
            raise Violation("silent", "the function failed for face %s, but a result was returned" % bad)
        if got != want:
            lost = [l for l, (x, y) in enumerate(zip(got, want)) if x != y]
            raise Violation("result", "%d entries (%d faces), wrong or missing for faces %s%s" % (len(got), len(labels), lost[:10], ", a worker was killed" if killed else ""))
        left = [p.name for p in fake.procs if p.exitcode is None]
        if left:
            raise Violation("left-running", "%s still run after the result was returned" % ", ".join(left))

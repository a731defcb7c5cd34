"""gen PROP SEED | replay PROP FILE [-v] | run PROP FIRST STRIDE COUNT SECONDS [hashes]"""
import os, random, shutil, signal, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(3000)
OUT = sys.stdout
sys.stdout = open(os.devnull, "w")  # the code under test prints
import world
from world import Sim, Violation
world.OUT = OUT
sys.stderr_real = sys.stderr
import sims

CPU_LIMIT = 25.0


def gen(prop, seed):
    rng = random.Random("%s/%d" % (prop, seed))
    return "\n".join(["# %s seed %d" % (prop, seed)] + sims.SIMS[prop].gen(rng)) + "\n"


def parse(text):
    head, ops = [], []
    for l in text.splitlines():
        l = l.strip()
        if not l or l.startswith("#"):
            continue
        if l.startswith("op "):
            parts = l[3:].split(" ! ")
            ops.append((parts[0].split(), [p.split() for p in parts[1:]]))
        else:
            head.append(l.split())
    return head, ops


def execute(prop, text, verbose=False):
    """-> (sim, (op index, class, detail) or None)"""
    head, ops = parse(text)
    sim = Sim(verbose)
    sim.op = -1
    signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    err = sys.stderr
    sys.stderr = world.Quiet()  # warnings of the code under test
    try:
        sims.SIMS[prop](sim, head).run(ops)
    except Violation as v:
        return sim, (sim.op, v.cls, v.detail)
    except Exception as e:  # an exception the simulator did not provoke
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if os.path.basename(os.path.dirname(f.filename)) in ("maputils", "utils")] or list(tb)
        return sim, (sim.op, "exception:" + type(e).__name__, " ".join(("%s at %s:%s %s" % (e, os.path.basename(where[-1].filename), where[-1].name, where[-1].line)).split())[:500])
    finally:
        sys.stderr = err
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return sim, None


def main(argv):
    cmd, prop = argv[0], argv[1]
    if cmd == "gen":
        OUT.write(gen(prop, int(argv[2])))
    elif cmd == "replay":
        sim, v = execute(prop, open(argv[2]).read(), "-v" in argv[3:])
        OUT.write("HASH %s\n" % sim.h.hexdigest()[:16])
        if v:
            OUT.write("VIOL op=%d class=%s detail=%s\n" % v); OUT.flush()
            return 1
        OUT.write("OK events=%d\n" % sim.events)
    elif cmd == "run":
        first, stride, count, seconds = int(argv[2]), int(argv[3]), int(argv[4]), float(argv[5])
        t0 = time.time(); n, sigs, states = {}, set(), set(); rc = 0; done = 0
        for i in range(count):
            if time.time() - t0 > seconds:
                break
            seed = first + i * stride
            OUT.write("S %d\n" % seed); OUT.flush()
            sim, v = execute(prop, gen(prop, seed))
            if v:
                OUT.write("VIOL seed=%d op=%d class=%s detail=%s\n" % ((seed,) + v)); rc = 1
                break
            OUT.write("H %d %s %d\n" % (seed, sim.h.hexdigest()[:16], sim.events))
            for k, x in sim.n.items():
                n[k] = n.get(k, 0) + x
            n["events"] = n.get("events", 0) + sim.events
            sigs |= sim.sigs
            if len(states) < 50000:
                states |= sim.states
            done += 1
        for k, x in sorted(n.items()):
            OUT.write("N %s %d\n" % (k, x))
        for g in sorted(sigs):
            OUT.write("G %s\n" % g)
        for s in sorted(states):
            OUT.write("T %s\n" % s)
        OUT.write("DONE %d\n" % done)
        return rc
    return 0


if __name__ == "__main__":
    args = [os.path.abspath(a) if i == 2 and sys.argv[1] == "replay" else a for i, a in enumerate(sys.argv[1:])]
    here = tempfile.mkdtemp(prefix="simpy")  # whatever the code writes past the simulated disk
    os.chdir(here)
    try:
        rc = main(args)
    finally:
        os.chdir("/")
        shutil.rmtree(here, ignore_errors=True)
    OUT.flush()
    os._exit(rc)

"""Seed batches, violation gate, minimisation, evidence."""
import json, os, re, subprocess, sys, tempfile, threading, time
import builds
from props import PROPS

VERIF = builds.VERIF
NW = int(os.environ.get("SIM_WORKERS", "8"))
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:max_malloc_fill_size=65536:malloc_fill_byte=190:allocator_may_return_null=0:handle_abort=1:exitcode=99:detect_stack_use_after_return=0"
ENV["PYTHONHASHSEED"] = ENV.get("PYTHONHASHSEED", "0")
ENV["PYTHONDONTWRITEBYTECODE"] = "1"


class Batch:
    def __init__(self):
        self.done = 0; self.n = {}; self.sigs = set(); self.states = set(); self.hashes = {}; self.events = {}
        self.found = []  # (seed, class, detail)
        self.lock = threading.Lock()

    def nontrivial(self):
        return len(set(h for s, h in self.hashes.items() if self.events.get(s, 0) >= 8))


def crash_class(rc, err):
    m = re.search(r"ERROR: AddressSanitizer:? (\S+)", err)
    if m:
        return "crash:" + m.group(1)
    if "SIM-RUNAWAY" in err or rc in (70, -26, 154):  # 26: SIGVTALRM, the CPU limit of the Python simulators
        return "no-progress"
    m = re.search(r"Assertion '.*' failed|Precondition violation|terminate called after throwing", err)
    if m:
        return "crash:abort"
    return "crash:rc%d" % rc


def crash_detail(rc, err):
    keep = [l for l in err.splitlines() if re.search(r"ERROR|SIM-RUNAWAY|Assertion|terminate|what\(\)|#[0-4] ", l)]
    return (" / ".join(x.strip() for x in keep[:6]) or ("exit code %d" % rc))[:600]


def worker(cmd, prop, first, stride, count, seconds, batch, stop, hard):
    with tempfile.TemporaryFile("w+", errors="replace") as err:
        p = subprocess.Popen(cmd + ["run", prop, str(first), str(stride), str(count), str(seconds), "hashes"],
                             stdout=subprocess.PIPE, stderr=err, universal_newlines=True, errors="replace", env=ENV)
        timer = threading.Timer(hard, p.kill); timer.start()
        last = None; viol = None; done = False; hung = False
        try:
            for line in p.stdout:
                k = line[:2]
                if k == "S ":
                    last = int(line[2:])
                    if stop.is_set():
                        p.kill(); timer.cancel(); p.wait()
                        return
                elif k == "H ":
                    _, s, h, ev = line.split()
                    with batch.lock:
                        batch.hashes[int(s)] = h; batch.events[int(s)] = int(ev); batch.done += 1
                elif k == "N ":
                    _, key, v = line.split()
                    with batch.lock:
                        batch.n[key] = batch.n.get(key, 0) + int(v)
                elif k == "G ":
                    batch.sigs.add(line[2:-1])
                elif k == "T ":
                    batch.states.add(line[2:-1])
                elif line.startswith("VIOL "):
                    m = re.match(r"VIOL seed=(\d+) op=(-?\d+) class=(\S+) detail=(.*)", line)
                    viol = (int(m.group(1)), m.group(3), m.group(4))
                elif line.startswith("DONE"):
                    done = True
        finally:
            hung = not timer.is_alive(); timer.cancel()
            rc = p.wait()
        err.seek(0); etext = err.read()
        if viol is None and (not done or rc not in (0, 1)):
            if last is None:
                raise RuntimeError("simulator did not start: rc=%s %s" % (rc, etext[-2000:]))
            viol = (last, "no-progress" if hung else crash_class(rc, etext), "run did not end" if hung else crash_detail(rc, etext))
        if viol:
            batch.found.append(viol); stop.set()


def replay(cmd, prop, path, timeout=90):
    """-> (class or None, detail, hash)"""
    try:
        p = subprocess.run(cmd + ["replay", prop, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           universal_newlines=True, errors="replace", env=ENV, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "no-progress", "run did not end", None
    m = re.search(r"^HASH (\S+)", p.stdout, re.M); h = m.group(1) if m else None
    m = re.search(r"^VIOL op=-?\d+ class=(\S+) detail=(.*)", p.stdout, re.M)
    if m:
        return m.group(1), m.group(2), h
    if p.returncode == 0 and re.search(r"^OK", p.stdout, re.M):
        return None, "", h
    return crash_class(p.returncode, p.stderr), crash_detail(p.returncode, p.stderr), h


def gen(cmd, prop, seed):
    return subprocess.run(cmd + ["gen", prop, str(seed)], stdout=subprocess.PIPE, universal_newlines=True, env=ENV, check=True).stdout


def minimise(cmd, prop, text, cls, budget):
    """ddmin over operations, then faults; keeps the violation class"""
    from concurrent.futures import ThreadPoolExecutor
    t0 = time.time(); tried = [0]
    tmpdir = tempfile.mkdtemp(prefix="simmin")
    ctr = [0]; lk = threading.Lock()

    def fails(lines):
        with lk:
            ctr[0] += 1; n = ctr[0]
        f = os.path.join(tmpdir, "m%d" % n)
        open(f, "w").write("\n".join(lines) + "\n")
        c, _, _ = replay(cmd, prop, f, 40)
        os.remove(f)
        tried[0] += 1
        return c == cls

    def first_failing(cands):
        """index of the first candidate (in order) that still fails, tried NW at a time"""
        with ThreadPoolExecutor(NW) as ex:
            for i in range(0, len(cands), NW):
                if time.time() - t0 > budget:
                    return None
                for j, ok in enumerate(ex.map(fails, cands[i:i + NW])):
                    if ok:
                        return i + j
        return None

    try:
        lines = [l for l in text.splitlines() if l.strip() and not l.startswith("#")]
        head = [l for l in lines if not l.startswith("op ")]; ops = [l for l in lines if l.startswith("op ")]
        # 1: shortest failing prefix is cut by removing chunks of halving size
        size = max(1, len(ops) // 2)
        while ops and time.time() - t0 < budget:
            cands = [ops[:i] + ops[i + size:] for i in range(0, len(ops), size)]
            cands.reverse()  # later operations first
            i = first_failing([head + c for c in cands])
            if i is not None:
                ops = cands[i]; size = min(size, max(1, len(ops)))
            elif size == 1:
                break
            else:
                size = max(1, size // 2)
        # 2: faults
        changed = True
        while changed and time.time() - t0 < budget:
            changed = False
            cands = []
            for i, o in enumerate(ops):
                parts = o.split(" ! ")
                for j in range(1, len(parts)):
                    cands.append(ops[:i] + [" ! ".join(parts[:j] + parts[j + 1:])] + ops[i + 1:])
            i = first_failing([head + c for c in cands])
            if i is not None:
                ops = cands[i]; changed = True
        return head + ops, tried[0]
    finally:
        try:
            for f in os.listdir(tmpdir):
                os.remove(os.path.join(tmpdir, f))
            os.rmdir(tmpdir)
        except OSError:
            pass


def known_findings(prop):
    r = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) replay=(\S+) class=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                r.append(m.groups()[1:])
    return r


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PROPS[prop]
    t0 = time.time()
    try:
        cmd = builds.ENGINES[spec["engine"]]()
    except builds.BuildError as e:
        print(e); print("BUILD-ERROR: the simulator for %s does not build from %s" % (prop, builds.REPO))
        return 2
    tbuild = time.time() - t0
    budget = spec.get("quick_s", 40) if tier == "quick" else float(os.environ.get("VERIF_BUDGET_S", spec.get("thorough_s", 600)))
    count = spec.get("quick_n", 4000) if tier == "quick" else 10 ** 9
    base = seed * 10000000 + 1
    rc = 0

    for path, cls, what in known_findings(prop):
        c, d, _ = replay(cmd, prop, os.path.join(VERIF, path))
        if c == cls:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        elif c is not None:
            return report(cmd, prop, open(os.path.join(VERIF, path)).read(), c, d, 0, 0, seed, tier, spec, None, t0)

    b = Batch(); stop = threading.Event(); errors = []

    def guarded(*a):
        try:
            worker(*a)
        except Exception as e:
            errors.append(e); stop.set()
    per = (count + NW - 1) // NW
    ts = [threading.Thread(target=guarded, args=(cmd, prop, base + i, NW, per, budget, b, stop, budget + 120)) for i in range(NW)]
    tsearch = time.time()
    [t.start() for t in ts]; [t.join() for t in ts]
    tsearch = time.time() - tsearch
    if errors:
        print("SIM-ERROR:", errors[0]); return 2
    if b.found:
        b.found.sort()
        for s, cls, detail in b.found:
            r = report(cmd, prop, gen(cmd, prop, s), cls, detail, s, tsearch, seed, tier, spec, b, t0)
            if r == 1:
                return 1
        return 3
    # determinism: a sample of the seeds again, in other processes with another stride
    k = min(48 if tier == "quick" else 400, len(b.hashes))
    sample = sorted(b.hashes)[:k]
    b2 = Batch(); ts = []
    chunk = (k + NW - 1) // NW if k else 0
    for i in range(0, k, chunk or 1):
        ts.append(threading.Thread(target=guarded, args=(cmd, prop, sample[i], 1, min(chunk, k - i), 300, b2, threading.Event(), 400)))
    [t.start() for t in ts]; [t.join() for t in ts]
    mism = [s for s in b2.hashes if s in b.hashes and b2.hashes[s] != b.hashes[s]]
    if mism or b2.found or errors:
        print("DETERMINISM-FAILURE: seeds %s %s" % (mism[:5], b2.found[:2]))
        return 3
    evidence(cmd, prop, tier, seed, spec, b, len(b2.hashes), tsearch, time.time() - t0, 0, None)
    print("OK property=%s tier=%s runs=%d distinct=%d states=%d interleavings=%d build=%.0fs search=%.0fs" % (
        prop, tier, b.done, b.nontrivial(), len(b.states), len(b.sigs), tbuild, tsearch))
    return rc


def report(cmd, prop, text, cls, detail, s, tsearch, seed, tier, spec, b, t0):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    full = os.path.join(VERIF, "replays", "%s-seed%d.full" % (prop, s))
    open(full, "w").write(text)
    r1 = replay(cmd, prop, full); r2 = replay(cmd, prop, full)
    gate = r1[0] is not None and r1[0] == r2[0] and r1[2] == r2[2]
    if not gate:
        print("UNREPRODUCED: seed=%d first saw %s (%s), replays gave %s / %s" % (s, cls, detail, r1, r2))
        return 3
    cls, detail = r1[0], r1[1]
    lines, tried = minimise(cmd, prop, text, cls, 60 if tier == "quick" else 300)
    path = os.path.join(VERIF, "replays", "%s-seed%d.script" % (prop, s))
    hdr = ["# property %s  seed %d  class %s" % (prop, s, cls), "# %s" % detail.replace("\n", " "),
           "# replay: python3 %s/replay.py %s %s" % (VERIF, prop, path)]
    open(path, "w").write("\n".join(hdr + lines) + "\n")
    rr = replay(cmd, prop, path)
    if rr[0] != cls:
        open(path, "w").write("\n".join(hdr) + "\n" + text)
        rr = replay(cmd, prop, path)
        if rr[0] != cls:
            print("UNREPRODUCED: seed=%d %s after minimisation: %s" % (s, cls, rr)); return 3
    nops = sum(1 for l in open(path) if l.startswith("op "))
    print("violated: %s seed=%d class=%s" % (prop, s, cls))
    print("  %s" % rr[1])
    print("  minimised to %d operations with %d replays" % (nops, tried))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    evidence(cmd, prop, tier, seed, spec, b, 0, tsearch, time.time() - t0, 1, {"seed": s, "class": cls, "detail": rr[1], "replay": path})
    return 1


def evidence(cmd, prop, tier, seed, spec, b, ndet, tsearch, wall, nviol, viol):
    b = b or Batch()
    samples = []
    for s in sorted(b.hashes)[:2]:
        try:
            text = gen(cmd, prop, s)
            f = tempfile.NamedTemporaryFile("w", suffix=".script", delete=False); f.write(text); f.close()
            log = subprocess.run(cmd + ["replay", prop, f.name, "-v"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, universal_newlines=True, errors="replace", env=ENV, timeout=120).stdout.splitlines()
            os.remove(f.name)
            samples.append({"seed": s, "hash": b.hashes[s], "script": text.splitlines()[:60], "log": [l[:200] for l in log[:40]]})
        except Exception as e:
            samples.append({"seed": s, "error": str(e)})
    if viol:
        samples.insert(0, viol)
    if not samples:
        samples = [{"note": "known-finding replay only"}]
    faults = {k[6:]: v for k, v in sorted(b.n.items()) if k.startswith("fault.")}
    other = {k: v for k, v in sorted(b.n.items()) if not k.startswith("fault.")}
    rate = b.done / tsearch * 3600 if tsearch else 0
    cov = {"evaluations": b.done, "distinct_nontrivial": b.nontrivial(),
           "rule": "One evaluation is one simulated run: one seed decides the map, the operation history, every observer decision and every fault. "
                   "A run is non-trivial when its event log has at least 8 entries; distinct means a distinct hash of the whole event log.",
           "samples": samples, "simulated_runs": b.done, "seeds_per_hour": round(rate), "first_seed": min(b.hashes) if b.hashes else None,
           "simulated_steps": b.n.get("steps", 0), "simulated_time": "the system has no clock; simulated time is the number of operation steps and notifications: %d" % b.n.get("events", 0),
           "faults_fired": faults, "counters": other,
           "distinct_interleavings": len(b.sigs), "interleaving_measure": spec.get("sig_measure", "operation kind plus the sequence of (notification, observer, outcome) inside it"),
           "distinct_states": len(b.states), "state_measure": spec.get("state_measure", "hash of the complete observable state after an operation"),
           "determinism_seeds_rechecked": ndet, "real_components": spec["real"], "stub_components": spec["stub"], "exhaustive": False}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
               "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": nviol},
              open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

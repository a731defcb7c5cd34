"""A simulated disk behind the seam maputils.file (the built-in file() of Python 2): names, contents, write faults, crashes."""
import io, weakref


class Disk:
    def __init__(self, sim):
        self.sim = sim; self.files = {}; self.fault = None; self.opened = []

    def file(self, name, mode="r", *a, **k):
        if "w" in mode:
            f = Writer(self, name)
            self.opened.append(weakref.proxy(f))
            return f
        if name not in self.files:
            raise IOError(2, "No such file", name)
        if self.fault and self.fault[0] == "eio":
            self.sim.count("fault.read-error")
            raise IOError(5, "Input/output error", name)
        return io.StringIO(self.files[name])

    def crash(self):
        """what was not closed is torn"""
        for f in self.opened:
            try:
                f.lost = True
            except ReferenceError:
                pass
        self.opened = []


class Crash(Exception):
    pass


class Writer:
    """opening truncates; a buffer of 64 characters, the rest as for any buffered file: what is neither flushed nor closed is
    written when the object goes away, and errors are lost then"""
    ROOM = 64

    def __init__(self, disk, name):
        self.disk, self.name, self.lost, self.n, self.buf, self.closed = disk, name, False, 0, "", False
        disk.files[name] = ""

    def write(self, s):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        self.buf += s
        if len(self.buf) > self.ROOM:
            self.flush()
        return len(s)

    def writelines(self, l):
        for s in l:
            self.write(s)

    def flush(self):
        d = self.disk
        s, self.buf = self.buf, ""
        if self.lost:
            return
        if d.fault and d.fault[0] in ("full", "crash"):
            room = d.fault[1] - self.n
            if len(s) > room:
                d.files[self.name] += s[:max(0, room)]; self.n += max(0, room)
                d.sim.count("fault.disk-full" if d.fault[0] == "full" else "fault.crash-torn-write")
                if d.fault[0] == "full":
                    raise IOError(28, "No space left on device", self.name)
                raise Crash()
        d.files[self.name] += s; self.n += len(s)

    def close(self):
        if self.closed:
            return
        self.closed = True
        self.flush()
        d = self.disk
        if d.fault and d.fault[0] == "closefail" and not self.lost:  # delayed allocation: the error shows up at close, the tail is lost
            d.sim.count("fault.close-error")
            d.files[self.name] = d.files[self.name][:d.fault[1]]
            raise IOError(28, "No space left on device", self.name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __del__(self):
        try:
            self.close()
        except (IOError, Crash):
            pass

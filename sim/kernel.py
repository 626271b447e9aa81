"""Deterministic simulator: lockstep nodes, seeded scheduler, virtual clock, faults.

A *scenario* is plain JSON.  ``Sim`` executes it: every simulated node is a forked
process that stops at each seam event (see ``seams.py``) and waits for the
simulator's reply.  Exactly one node runs at any time; which one, at what virtual
time, and whether the event fails or the node is killed there is decided here
from the scenario's seed and fault list alone.
"""
import ctypes
import errno
import hashlib
import io
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import time
import traceback

# real functions, taken before any seam is installed
_real_time = time.time
_real_monotonic = time.monotonic
_os_fork = os.fork
_os_kill = os.kill
_os_exit = os._exit
_os_read = os.read
_os_write = os.write

WALL_GAP = float(os.environ.get("SIM_WALL_GAP", "120"))

NODE = None      # NodeSide in a node process, None elsewhere


class Violation(Exception):
    """The property under check does not hold in this execution."""

    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class HarnessError(Exception):
    """The machinery (not the code under test) misbehaved."""


def pdeathsig():
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


def _send(fd, obj):
    data = pickle.dumps(obj, protocol=4)
    data = struct.pack("<I", len(data)) + data
    while data:
        n = _os_write(fd, data)
        data = data[n:]


def _recv_exact(fd, n):
    out = b""
    while len(out) < n:
        b = _os_read(fd, n - len(out))
        if not b:
            raise EOFError
        out += b
    return out


def _recv(fd):
    n = struct.unpack("<I", _recv_exact(fd, 4))[0]
    return pickle.loads(_recv_exact(fd, n))


class SimInjected(Exception):
    pass


def make_error(do, cls, detail):
    """The exception that an injected error of kind ``do`` raises at an event."""
    if cls.startswith("h5.") and cls not in ("h5.open_r", "h5.open_w"):
        import tables
        return tables.HDF5ExtError(f"injected {do} at {cls} {detail}")
    if cls.startswith("hp.") and cls not in ("hp.open_r", "hp.open_w"):
        return OSError(errno.EIO, f"injected {do} at {cls}", str(detail))
    num = {"enospc": errno.ENOSPC, "eio": errno.EIO, "eacces": errno.EACCES,
           "torn": errno.ENOSPC, "short": errno.ENOSPC,
           "enoent": errno.ENOENT, "estale": errno.ESTALE}.get(do, errno.EIO)
    return OSError(num, os.strerror(num), str(detail))


class NodeSide:
    """The node's end of the lockstep protocol (lives in the node process)."""

    def __init__(self, name, root, rfd, wfd, listseed, spares, epoch, metadir):
        self.name = name
        self.root = root
        self.rfd = rfd
        self.wfd = wfd
        self.now = 0.0
        self.listseed = listseed
        self.spares = spares
        self.epoch = epoch
        self.metadir = metadir
        self.muted = 0
        self.alarm_at = None
        self.alarm_log = []
        self.entropy_n = 0
        self.injected = 0     # errors injected so far
        self.hooks = {}       # scenario-specific stand-ins (mem, system, urlretrieve ...)
        self.mpi = None

    # -- protocol ---------------------------------------------------------
    def call(self, msg):
        _send(self.wfd, msg)
        rep = _recv(self.rfd)
        self.now = rep["now"]
        return rep

    def point(self, cls, detail="", data=None):
        """Report an event; returns the reply or raises the injected error."""
        if self.muted:
            return {"do": "go", "now": self.now}
        rep = self.call({"t": "ev", "cls": cls, "detail": self.rel(detail),
                         "data": data})
        if self.alarm_at is not None and self.alarm_at <= self.now:
            self.ring()
        if rep["do"] != "go":
            self.injected += 1
        if rep["do"] not in ("go", "torn", "short"):
            raise make_error(rep["do"], cls, detail)
        return rep

    def sleep(self, dt):
        """Let virtual time pass; delivers a due alarm exactly at its deadline."""
        target = self.now + max(0.0, dt)
        while True:
            if self.alarm_at is not None and self.alarm_at <= target:
                at = self.alarm_at
                self.call({"t": "sleep", "until": max(at, self.now)})
                if self.alarm_at is not None and self.alarm_at <= self.now:
                    self.ring()
                continue
            self.call({"t": "sleep", "until": target})
            return

    def ring(self):
        """Deliver the virtual alarm."""
        self.alarm_at = None
        self.alarm_log.append(("fired", self.now))
        self.call({"t": "alarm"})
        signal.raise_signal(signal.SIGALRM)
        # give the handler a bytecode boundary to run at
        for _ in range(3):
            pass

    def probe(self, name, n=1):
        _send(self.wfd, {"t": "probe", "name": name, "n": n})
        _recv(self.rfd)

    def fault(self, name, n=1):
        """Report a fault the scenario's script injects in the node itself."""
        self.call({"t": "fault", "name": name, "n": n})

    # -- helpers ----------------------------------------------------------
    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def rel(self, path):
        if not isinstance(path, str):
            return path
        return path.replace(self.root, "$")

    def shuffle(self, path, names):
        names = sorted(names)
        if self.listseed is None:
            return names
        key = f"{self.listseed}|{self.rel(os.path.abspath(path))}|{len(names)}"
        random.Random(key).shuffle(names)
        return names


class Node:
    """The simulator's end of one node."""

    def __init__(self, name, pid, rfd, wfd):
        self.name = name
        self.pid = pid
        self.rfd = rfd
        self.wfd = wfd
        self.state = "new"       # ready | recv | done | killed
        self.pending = None
        self.wake = 0.0
        self.counts = {}
        self.nev = 0
        self.result = None
        self.exc = None          # (typename, message, traceback)
        self.exit = None
        self.born = 0.0
        self.ended = None
        self.box = []            # mailbox (mpi)
        self.parent = None
        self.meta = {}

    @property
    def finished(self):
        return self.state in ("done", "killed")

    @property
    def ok(self):
        return self.state == "done" and self.exc is None


class Sim:
    def __init__(self, scn, root, metadir):
        self.scn = scn
        self.root = root
        self.metadir = metadir
        self.rng = random.Random(f"sched|{scn.get('sched_seed', 0)}")
        self.clock = 0.0
        self.epoch = 1_700_000_000.0
        self.event_cost = scn.get("event_cost", 0.001)
        self.nodes = []
        self.log = []
        self.loghash = hashlib.sha256()
        self.faults = [dict(f) for f in scn.get("faults", [])]
        self.fired = {}
        self.probes = {}
        self.switches = 0
        self.last = None
        self.nev = 0
        self.max_events = scn.get("max_events", 200000)
        self.on_event = None       # callback(node, msg) -> optional override
        self.on_msg = {}           # extra message types: t -> fn(node,msg)->reply or None to block
        self.on_alarm = None
        self.invariant = None
        self.timers = []           # [(time, seq, fn)]
        self._tseq = 0
        self.sticky = scn.get("sticky", 0.0)

    # -- spawning ---------------------------------------------------------
    def spawn(self, name, fn, cwd=None, env=None, spares=0, hooks=None, listseed="scn",
              start_at=0.0, mpi=None):
        if listseed == "scn":
            listseed = self.scn.get("list_seed")
        c2p_r, c2p_w = os.pipe()
        p2c_r, p2c_w = os.pipe()
        sp = []
        for _ in range(spares):
            a, b = os.pipe()
            c, d = os.pipe()
            sp.append((a, b, c, d))   # child->sim (r=a,w=b), sim->child (r=c,w=d)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = _os_fork()
        if pid == 0:
            pdeathsig()
            os.close(c2p_r)
            os.close(p2c_w)
            for a, b, c, d in sp:
                os.close(a)
                os.close(d)
            self._child(name, fn, p2c_r, c2p_w, cwd, env, [(c, b) for a, b, c, d in sp],
                        hooks or {}, listseed, mpi)
            _os_exit(0)
        os.close(c2p_w)
        os.close(p2c_r)
        spare_parent = []
        for a, b, c, d in sp:
            os.close(b)
            os.close(c)
            spare_parent.append((a, d))
        node = Node(name, pid, c2p_r, p2c_w)
        node.spares = spare_parent
        node.born = self.clock
        node.wake = max(start_at, self.clock)
        self.nodes.append(node)
        self._await(node)
        return node

    def _child(self, name, fn, rfd, wfd, cwd, env, spares, hooks, listseed, mpi):
        global NODE
        try:
            out = os.open(os.path.join(self.metadir, f"{name}.out"),
                          os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
            os.dup2(out, 1)
            os.dup2(out, 2)
            devnull = os.open(os.devnull, os.O_RDONLY)
            os.dup2(devnull, 0)
            sys.stdout = io.TextIOWrapper(io.FileIO(1, "w", closefd=False),
                                          write_through=True, errors="replace")
            sys.stderr = io.TextIOWrapper(io.FileIO(2, "w", closefd=False),
                                          write_through=True, errors="replace")
            if cwd:
                os.chdir(cwd)
            if env is not None:
                for k, v in env.items():
                    if v is None:
                        os.environ.pop(k, None)
                    else:
                        os.environ[k] = v
            import numpy as np
            key = int.from_bytes(hashlib.sha256(
                f"{self.scn.get('seed', 0)}|{name}".encode()).digest()[:4], "little")
            np.random.seed(key)
            random.seed(key)
            from . import seams
            seams.reseed_import_time(name)
            node = NodeSide(name, self.root, rfd, wfd, listseed, spares, self.epoch,
                            self.metadir)
            node.hooks = hooks
            node.mpi = mpi
            NODE = node
        except BaseException:
            traceback.print_exc()
            _os_exit(97)
        node_main(fn)

    # -- running ----------------------------------------------------------
    def _await(self, node):
        """Wait for the node's next message and make it pending."""
        r, _, _ = select.select([node.rfd], [], [], WALL_GAP)
        if not r:
            self._kill(node, "hang")
            raise Violation("hang", f"node {node.name} made no progress for {WALL_GAP} s "
                                    f"of real time between two events")
        try:
            msg = _recv(node.rfd)
        except EOFError:
            try:
                _, st = os.waitpid(node.pid, 0)
            except ChildProcessError:
                st = -1
            node.state = "done"
            node.exit = st
            node.ended = self.clock
            node.exc = ("ProcessDied", f"process ended with status {st}", self.output(node.name)[-2000:])
            return
        if msg["t"] == "done":
            node.state = "done"
            node.result = msg.get("result")
            node.exc = msg.get("exc")
            node.exit = msg.get("exit")
            node.ended = self.clock
            self._reap(node)
            self._logline(node, "done", msg.get("exc") and msg["exc"][0] or "")
            return
        node.pending = msg
        node.state = "ready"
        if msg["t"] == "sleep":
            node.wake = msg["until"]
        elif msg["t"] == "start":
            node.wake = max(node.wake, self.clock)
        else:
            node.wake = self.clock

    def _reap(self, node):
        if node.pid is not None and node.parent is None:
            try:
                os.waitpid(node.pid, 0)
            except ChildProcessError:
                pass
        for fd in (node.rfd, node.wfd):
            try:
                os.close(fd)
            except OSError:
                pass

    def _kill(self, node, why="kill"):
        if node.finished:
            return
        try:
            _os_kill(node.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        node.state = "killed"
        node.ended = self.clock
        self._logline(node, "killed", why)
        self._reap(node)
        if node.parent is not None:
            # not our child: wait until its pipe closes so that it is really gone
            pass

    def kill(self, node, why="kill"):
        self._kill(node, why)

    def at(self, t, fn):
        self._tseq += 1
        self.timers.append((t, self._tseq, fn))
        self.timers.sort(key=lambda x: x[:2])

    def _logline(self, node, what, detail=""):
        line = f"{self.clock:.6f} {node.name} {what} {detail}"
        self.log.append(line)
        self.loghash.update(line.encode() + b"\n")

    def count_fault(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def count_probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def _match_fault(self, node, cls, detail):
        for f in self.faults:
            if f.get("used"):
                continue
            if f.get("node") not in (None, "*", node.name):
                continue
            fc = f.get("cls", "*")
            if fc != "*" and fc != cls and not (fc.endswith("*") and cls.startswith(fc[:-1])):
                continue
            if f.get("path") and f["path"] not in str(detail):
                continue
            f["seen"] = f.get("seen", 0) + 1
            if f["seen"] == f.get("n", 1):
                if f.get("sticky"):
                    f["n"] = f["seen"] + 1     # persistent fault: fires at every later match
                else:
                    f["used"] = True
                return f
        return None

    def run(self, until=None):
        """Run until all nodes finished (or ``until()`` is true). Returns 'done'|'deadlock'|'until'."""
        while True:
            if until is not None and until():
                return "until"
            live = [n for n in self.nodes if not n.finished]
            if not live:
                return "done"
            ready = [n for n in live if n.state == "ready" and n.wake <= self.clock]
            nexts = [n.wake for n in live if n.state == "ready"]
            tnext = min(nexts) if nexts else None
            if self.timers and (not ready) and (tnext is None or self.timers[0][0] <= tnext) \
                    or self.timers and self.timers[0][0] <= self.clock:
                t, _, fn = self.timers.pop(0)
                self.clock = max(self.clock, t)
                fn()
                continue
            if not ready:
                if tnext is None:
                    return "deadlock"
                self.clock = tnext
                continue
            if len(ready) > 1:
                if self.last in ready and self.sticky and self.rng.random() < self.sticky:
                    node = self.last
                else:
                    node = self.rng.choice(ready)
            else:
                node = ready[0]
            if self.last is not node:
                self.switches += 1
                self.last = node
            self._step(node)
            if self.invariant is not None:
                self.invariant()

    def _step(self, node):
        msg = node.pending
        self.nev += 1
        node.nev += 1
        if self.nev > self.max_events:
            for n in self.nodes:
                self._kill(n, "budget")
            raise Violation("no-progress", f"more than {self.max_events} events without finishing")
        t = msg["t"]
        if t == "ev":
            self.clock += self.event_cost
            cls, detail = msg["cls"], msg["detail"]
            node.counts[cls] = node.counts.get(cls, 0) + 1
            do = None
            if self.on_event is not None:
                do = self.on_event(node, msg)
                if node.finished:
                    return
            fault = None
            if do is None:
                fault = self._match_fault(node, cls, detail)
                if fault:
                    do = fault["do"]
            if do in ("kill", "exit"):
                self._logline(node, cls, f"{detail} !{do}")
                self.count_fault(f"{do}@{cls}")
                self._kill(node, "fault")
                return
            self._logline(node, cls, f"{detail}" + (f" !{do}" if do else ""))
            if do:
                self.count_fault(f"{do}@{cls}")
            rep = {"do": do or "go", "now": self.clock}
            if fault is not None and "arg" in fault:
                rep["arg"] = fault["arg"]
        elif t == "start":
            self._logline(node, "start")
            rep = {"do": "go", "now": self.clock}
        elif t == "sleep":
            rep = {"do": "go", "now": self.clock}
        elif t == "alarm":
            self.count_fault("alarm")
            self._logline(node, "alarm")
            if self.on_alarm is not None:
                self.on_alarm(node)
            rep = {"do": "go", "now": self.clock}
        elif t == "fault":
            self.count_fault(msg["name"])
            rep = {"do": "go", "now": self.clock}
        elif t == "probe":
            self.count_probe(msg["name"], msg["n"])
            rep = {"do": "go", "now": self.clock}
        elif t in self.on_msg:
            rep = self.on_msg[t](node, msg)
            if rep is None:
                return            # handler parked or finished the node itself
            rep["now"] = self.clock
        else:
            raise HarnessError(f"unknown message {t}")
        self.reply(node, rep)

    def reply(self, node, rep):
        rep.setdefault("now", self.clock)
        rep.setdefault("do", "go")
        try:
            _send(node.wfd, rep)
        except BrokenPipeError:
            pass
        self._await(node)

    def adopt(self, node, name, rfd, wfd, pid):
        """Register a node that an existing node forked."""
        child = Node(name, pid, rfd, wfd)
        child.parent = node
        child.born = self.clock
        child.spares = []
        self.nodes.append(child)
        self._await(child)
        return child

    def shutdown(self):
        for n in self.nodes:
            self._kill(n, "shutdown")

    def output(self, name):
        try:
            with open(os.path.join(self.metadir, f"{name}.out"), errors="replace") as f:
                return f.read()
        except FileNotFoundError:
            return ""

    def unfired(self):
        return sum(1 for f in self.faults if not f.get("used") and not f.get("sticky"))

    # convenience: run one function in one node to completion
    def solo(self, name, fn, **kw):
        node = self.spawn(name, fn, **kw)
        r = self.run(until=lambda: node.finished)
        if r == "deadlock":
            raise Violation("deadlock", f"node {name} blocked forever")
        return node


def node_main(fn):
    """Body of a node process after set-up; never returns."""
    node = NODE
    try:
        node.call({"t": "start"})
        exc = None
        result = None
        code = 0
        try:
            result = fn()
        except SystemExit as e:
            code = e.code
            if code not in (None, 0):
                exc = ("SystemExit", str(code), traceback.format_exc())
        except BaseException as e:
            exc = (type(e).__name__, str(e), traceback.format_exc())
        # what an orderly interpreter exit does: close HDF5 handles left open
        try:
            import tables.file
            tables.file._open_files.close_all()
        except BaseException as e:
            if exc is None:
                exc = (type(e).__name__, str(e), traceback.format_exc())
        try:
            h5py = sys.modules.get("h5py")
            if h5py is not None:
                for fid in h5py.h5f.get_obj_ids(types=h5py.h5f.OBJ_FILE):
                    try:
                        h5py.h5f.flush(fid)
                    except Exception:
                        pass
        except BaseException:
            pass
        if exc is not None:
            # do not keep frames (and with them file objects) alive
            sys.last_traceback = None
        try:
            sys.stdout.flush()
        except Exception:
            pass
        try:
            payload = {"t": "done", "result": result, "exc": exc, "exit": code}
            data = pickle.dumps(payload, protocol=4)
            del data
        except Exception as e:
            payload = {"t": "done", "result": None, "exit": code,
                       "exc": ("UnpicklableResult", str(e), traceback.format_exc())}
        _send(node.wfd, payload)
    except BaseException:
        try:
            traceback.print_exc()
        except BaseException:
            pass
        _os_exit(98)
    _os_exit(0)

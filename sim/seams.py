"""Seams: where the code under test meets the outside world.

``install()`` is called once, before POSYDON is imported.  Every wrapper is a
plain call-through unless the process is a simulated node, and (for files) the
path lies inside the scenario's scratch root.
"""
import builtins
import io
import os
import shutil
import signal
import subprocess
import sys
import time

from . import kernel

_installed = False
real = {}


def _node(path=None):
    n = kernel.NODE
    if n is None or n.muted:
        return None
    if path is not None and not n.inside(path):
        return None
    return n


class SimFile:
    """Write-mode file proxy: every write/close is an event."""

    def __init__(self, f, path):
        object.__setattr__(self, "_f", f)
        object.__setattr__(self, "_path", path)

    def write(self, data):
        n = _node(self._path)
        if n is not None:
            rep = n.point("fs.write", str(self._path))
            if rep["do"] in ("torn", "short"):
                self._f.write(data[: len(data) // 2])
                self._f.flush()
                raise kernel.make_error("enospc", "fs.write", str(self._path))
        return self._f.write(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def close(self):
        if not self._f.closed:
            n = _node(self._path)
            if n is not None:
                try:
                    rep = n.point("fs.close", str(self._path))
                except OSError:
                    _drop_buffer(self._f, self._path)
                    raise
                if rep["do"] in ("torn", "short"):
                    _drop_buffer(self._f, self._path)
                    raise kernel.make_error("enospc", "fs.close", str(self._path))
        return self._f.close()

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        self.close()
        return None

    def __iter__(self):
        return iter(self._f)

    def __next__(self):
        return next(self._f)

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __setattr__(self, name, value):
        setattr(self._f, name, value)

    def __del__(self):
        # like a file object that is garbage collected: buffered data is written
        try:
            self._f.close()
        except Exception:
            pass


class SimReader:
    """Read-mode file proxy (where a property asks for it): every read is an event."""

    def __init__(self, f, path):
        object.__setattr__(self, "_f", f)
        object.__setattr__(self, "_path", path)

    def _ev(self):
        n = _node(self._path)
        if n is not None:
            n.point("fs.read", str(self._path))

    def read(self, *a):
        self._ev()
        return self._f.read(*a)

    def read1(self, *a):
        self._ev()
        return self._f.read1(*a)

    def readinto(self, b):
        self._ev()
        return self._f.readinto(b)

    def readline(self, *a):
        self._ev()
        return self._f.readline(*a)

    def readlines(self, *a):
        self._ev()
        return self._f.readlines(*a)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        self._f.close()
        return None

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._f)

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __setattr__(self, name, value):
        setattr(self._f, name, value)


def _drop_buffer(f, path):
    """Close so that only half of what was written reaches the file."""
    try:
        f.close()
        size = os.path.getsize(path)
        with real["open"](path, "r+b") as g:
            g.truncate(size // 2)
    except Exception:
        pass


def _w_open(file, mode="r", *args, **kwargs):
    n = _node(file) if not isinstance(file, int) else None
    if n is None:
        return real["open"](file, mode, *args, **kwargs)
    writing = any(c in mode for c in "wax+")
    n.point("fs.open_w" if writing else "fs.open_r", str(file))
    f = real["open"](file, mode, *args, **kwargs)
    if writing:
        return SimFile(f, os.path.abspath(os.fspath(file)))
    if n.hooks.get("reads"):
        return SimReader(f, os.path.abspath(os.fspath(file)))
    return f


def _path1(name, cls):
    orig = getattr(os, name)
    real[name] = orig

    def wrapper(path, *args, **kwargs):
        if isinstance(path, int):
            return orig(path, *args, **kwargs)
        n = _node(path)
        if n is not None:
            n.point(cls, str(path))
        return orig(path, *args, **kwargs)
    wrapper.__name__ = name
    setattr(os, name, wrapper)


def _path2(name, cls):
    orig = getattr(os, name)
    real[name] = orig

    def wrapper(src, dst, *args, **kwargs):
        n = _node(dst) or _node(src)
        if n is not None:
            n.point(cls, f"{src} -> {dst}")
        return orig(src, dst, *args, **kwargs)
    wrapper.__name__ = name
    setattr(os, name, wrapper)


class _Scan:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass


def _w_listdir(path=None):
    p = "." if path is None else path
    if isinstance(p, int):
        return real["listdir"](p)
    n = _node(p)
    if n is None:
        return real["listdir"](p)
    n.point("fs.list", str(p))
    return n.shuffle(p, real["listdir"](p))


def _w_scandir(path=None):
    p = "." if path is None else path
    if isinstance(p, int):
        return real["scandir"](p)
    n = _node(p)
    if n is None:
        return real["scandir"](p)
    n.point("fs.list", str(p))
    with real["scandir"](p) as it:
        entries = {e.name: e for e in it}
    return _Scan([entries[k] for k in n.shuffle(p, list(entries))])


# -- clocks and signals ------------------------------------------------------
def _w_time():
    n = kernel.NODE
    return real["time"]() if n is None or n.muted else n.epoch + n.now


def _w_monotonic():
    n = kernel.NODE
    return real["monotonic"]() if n is None or n.muted else n.now


def _w_perf():
    n = kernel.NODE
    return real["perf_counter"]() if n is None or n.muted else n.now


def _w_sleep(dt):
    n = kernel.NODE
    if n is None or n.muted:
        return real["sleep"](dt)
    if dt < 0:
        raise ValueError("sleep length must be non-negative")
    n.sleep(dt)


def _w_alarm(sec):
    n = kernel.NODE
    if n is None:
        return real["alarm"](sec)
    prev = 0 if n.alarm_at is None else max(1, int(round(n.alarm_at - n.now)))
    n.alarm_at = None if int(sec) == 0 else n.now + int(sec)
    n.alarm_log.append((int(sec), n.now))
    return prev


def _w_setitimer(which, sec, interval=0.0):
    n = kernel.NODE
    if n is None or which != signal.ITIMER_REAL:
        return real["setitimer"](which, sec, interval)
    prev = 0.0 if n.alarm_at is None else max(1e-6, n.alarm_at - n.now)
    n.alarm_at = None if sec == 0 else n.now + float(sec)
    n.alarm_log.append((float(sec), n.now))
    return (prev, 0.0)


# -- processes ----------------------------------------------------------------
def _hooked(name, cls, fallback=None):
    def wrapper(*args, **kwargs):
        n = kernel.NODE
        if n is None or n.muted:
            return real[name](*args, **kwargs)
        if name in n.hooks:
            return n.hooks[name](*args, **kwargs)
        raise kernel.HarnessError(f"node called {name}{args!r} without a stand-in")
    wrapper.__name__ = name
    return wrapper


def _w_fork():
    n = kernel.NODE
    if n is None:
        return real["fork"]()
    if n.muted:
        return real["fork"]()
    n.point("proc.fork")
    if not n.spares:
        raise kernel.HarnessError("node forked more often than provided for")
    rfd, wfd = n.spares.pop(0)
    sys.stdout.flush()
    pid = kernel._os_fork()
    if pid == 0:
        kernel.pdeathsig()
        n.rfd, n.wfd = rfd, wfd
        n.spares = []
        n.name = n.name + ".child"
        n.alarm_at = None
        n.call({"t": "start"})
        return 0
    n.call({"t": "forked", "pid": pid})
    return pid


def _w_kill(pid, sig):
    n = kernel.NODE
    if n is None or n.muted:
        return real["kill"](pid, sig)
    rep = n.call({"t": "kill", "pid": pid, "sig": int(sig)})
    if rep.get("error"):
        raise ProcessLookupError(3, "No such process")


def _w_exit(code):
    n = kernel.NODE
    if n is None:
        return real["_exit"](code)
    kernel._send(n.wfd, {"t": "done", "result": None, "exc": None, "exit": code})
    return real["_exit"](code)


def _w_waitpid(pid, opts):
    n = kernel.NODE
    if n is None or n.muted:
        return real["waitpid"](pid, opts)
    rep = n.call({"t": "waitpid", "pid": pid, "opts": opts})
    if rep.get("error"):
        raise ChildProcessError(10, "No child processes")
    return rep["pid"], rep["status"]


def _w_wait():
    n = kernel.NODE
    if n is None or n.muted:
        return real["wait"]()
    return _w_waitpid(-1, 0)


def _w_input(prompt=""):
    n = kernel.NODE
    if n is None:
        return real["input"](prompt)
    print(prompt, flush=True)
    if "input" in n.hooks:
        return n.hooks["input"](prompt)
    raise EOFError("EOF when reading a line")


def install():
    global _installed
    if _installed:
        return
    _installed = True
    real["open"] = builtins.open
    builtins.open = _w_open
    io.open = _w_open
    import tarfile
    tarfile.bltn_open = _w_open
    for name, cls in (("remove", "fs.remove"), ("unlink", "fs.remove"),
                      ("mkdir", "fs.mkdir"), ("rmdir", "fs.rmdir"),
                      ("truncate", "fs.truncate")):
        _path1(name, cls)
    for name, cls in (("rename", "fs.rename"), ("replace", "fs.rename"),
                      ("link", "fs.link"), ("symlink", "fs.link")):
        _path2(name, cls)
    real["listdir"] = os.listdir
    os.listdir = _w_listdir
    real["scandir"] = os.scandir
    os.scandir = _w_scandir
    shutil._use_fd_functions = False
    shutil._USE_CP_SENDFILE = False

    real["time"], time.time = time.time, _w_time
    real["monotonic"], time.monotonic = time.monotonic, _w_monotonic
    real["perf_counter"], time.perf_counter = time.perf_counter, _w_perf
    real["sleep"], time.sleep = time.sleep, _w_sleep
    real["alarm"], signal.alarm = signal.alarm, _w_alarm
    real["setitimer"], signal.setitimer = signal.setitimer, _w_setitimer

    for name in ("system", "popen"):
        real[name] = getattr(os, name)
        setattr(os, name, _hooked(name, "proc." + name))
    real["fork"], os.fork = os.fork, _w_fork
    real["kill"], os.kill = os.kill, _w_kill
    real["_exit"], os._exit = os._exit, _w_exit
    real["waitpid"], os.waitpid = os.waitpid, _w_waitpid
    real["wait"], os.wait = os.wait, _w_wait
    real["Popen"] = subprocess.Popen
    for name in ("run", "call", "check_call", "check_output"):
        real[name] = getattr(subprocess, name)
        setattr(subprocess, name, _hooked(name, "proc." + name))
    real["input"] = builtins.input
    builtins.input = _w_input

    _install_net()
    _install_numpy()
    _install_psutil()
    _install_tables()
    _install_h5py()


def _install_net():
    import urllib.request
    # urlretrieve stays real: it fetches through urlopen
    real["urlopen"] = urllib.request.urlopen
    urllib.request.urlopen = _hooked("urlopen", "net.get")


def _install_numpy():
    import numpy.random.bit_generator as bg
    real["randbits"] = bg.randbits

    def randbits(k):
        n = kernel.NODE
        if n is None:
            return real["randbits"](k)
        n.entropy_n += 1
        import hashlib
        h = hashlib.sha512(f"entropy|{n.name}|{n.entropy_n}".encode()).digest()
        return int.from_bytes(h, "little") >> (512 - k)
    bg.randbits = randbits

    # generators seeded from the operating system while modules are imported (default
    # arguments): every simulated process must have its own, as if it had imported afresh
    import numpy as np
    real["default_rng"] = np.random.default_rng

    def default_rng(seed=None):
        g = real["default_rng"](seed)
        if seed is None and kernel.NODE is None:
            _import_time_rngs.append(g)
        return g
    np.random.default_rng = default_rng


_import_time_rngs = []


def reseed_import_time(name):
    import hashlib
    import numpy as np
    for i, g in enumerate(_import_time_rngs):
        h = int.from_bytes(hashlib.sha256(f"import|{name}|{i}".encode()).digest(), "little")
        g.bit_generator.state = np.random.PCG64(h).state


def _install_psutil():
    import psutil
    real["memory_info"] = psutil.Process.memory_info

    def memory_info(self):
        n = kernel.NODE
        if n is None or n.muted or "rss" not in n.hooks:
            return real["memory_info"](self)
        from types import SimpleNamespace
        v = n.hooks["rss"]()
        return SimpleNamespace(rss=v, vms=v)
    psutil.Process.memory_info = memory_info


def _wrap_method(cls, name, evcls, getpath, want=None):
    orig = getattr(cls, name)
    real[f"{cls.__module__}.{cls.__name__}.{name}"] = orig

    def wrapper(self, *args, **kwargs):
        n = kernel.NODE
        if n is not None and not n.muted and (want is None or want(self)):
            try:
                p = getpath(self, args)
            except Exception:
                p = None
            if p is not None and n.inside(p.split("::")[0]):
                n.point(evcls, p)
        return orig(self, *args, **kwargs)
    wrapper.__name__ = name
    wrapper.__doc__ = orig.__doc__
    setattr(cls, name, wrapper)


def _install_tables():
    import tables
    import tables.file
    import tables.table
    real["open_file"] = tables.open_file

    def open_file(filename, mode="r", *args, **kwargs):
        n = _node(filename)
        if n is not None:
            n.point("h5.open_r" if mode == "r" else "h5.open_w", str(filename))
        return real["open_file"](filename, mode, *args, **kwargs)
    tables.open_file = open_file
    tables.file.open_file = open_file

    File = tables.File
    orig_close = File.close
    real["File.close"] = orig_close

    def close(self):
        n = kernel.NODE
        if n is not None and not n.muted and self.isopen and self.mode != "r" \
                and n.inside(self.filename):
            path = os.path.abspath(self.filename)
            try:
                rep = n.point("h5.close", path)
                torn = rep["do"] in ("torn", "short")
                err = kernel.make_error("torn", "h5.close", path) if torn else None
            except Exception as e:
                torn, err = True, e
            if torn:
                orig_close(self)
                try:
                    size = os.path.getsize(path)
                    with real["open"](path, "r+b") as f:
                        f.truncate(size // 2)
                except OSError:
                    pass
                raise err
        return orig_close(self)
    File.close = close

    def writable(f):
        return getattr(f, "mode", "r") != "r"
    for m in ("create_table", "create_array", "create_carray", "create_vlarray",
              "create_group", "create_earray"):
        _wrap_method(File, m, "h5.create", lambda self, a: self.filename)
    _wrap_method(File, "remove_node", "h5.remove", lambda self, a: self.filename)
    _wrap_method(File, "flush", "h5.flush", lambda self, a: self.filename, writable)
    _wrap_method(tables.Table, "append", "h5.append",
                 lambda self, a: self._v_file.filename + "::" + self._v_pathname)
    for m in ("read", "read_where", "read_coordinates"):
        _wrap_method(tables.Table, m, "h5.read",
                     lambda self, a: self._v_file.filename + "::" + self._v_pathname)
    _wrap_method(tables.Table, "remove_rows", "h5.remove",
                 lambda self, a: self._v_file.filename + "::" + self._v_pathname)


    # Column indexes only speed up queries; building them dominates the run time of a
    # simulated population, so nodes skip them unless a property asks for them.
    from pandas.io import pytables
    for cls in (pytables.Table,):
        orig = cls.create_index

        def create_index(self, *args, _orig=orig, **kwargs):
            n = kernel.NODE
            if n is not None and not n.hooks.get("h5index"):
                return None
            return _orig(self, *args, **kwargs)
        cls.create_index = create_index


def _install_h5py():
    import h5py
    orig_init = h5py.File.__init__
    real["h5py.File.__init__"] = orig_init

    def __init__(self, name, mode="r", *args, **kwargs):
        n = None
        if isinstance(name, (str, bytes, os.PathLike)):
            n = _node(name)
        if n is not None:
            n.point("hp.open_r" if mode == "r" else "hp.open_w", str(name))
        return orig_init(self, name, mode, *args, **kwargs)
    h5py.File.__init__ = __init__

    orig_close = h5py.File.close
    real["h5py.File.close"] = orig_close

    def close(self):
        n = kernel.NODE
        if n is not None and not n.muted and self.id.valid:
            try:
                path, mode = os.path.abspath(self.filename), self.mode
            except Exception:
                path = None
            if path is not None and mode != "r" and n.inside(path):
                try:
                    rep = n.point("hp.close", path)
                    torn = rep["do"] in ("torn", "short")
                    err = kernel.make_error("torn", "hp.close", path) if torn else None
                except Exception as e:
                    torn, err = True, e
                if torn:
                    orig_close(self)
                    try:
                        size = os.path.getsize(path)
                        with real["open"](path, "r+b") as f:
                            f.truncate(size // 2)
                    except OSError:
                        pass
                    raise err
        return orig_close(self)
    h5py.File.close = close

    def gpath(self, a):
        name = a[0] if a and isinstance(a[0], str) else "?"
        return self.file.filename + "::" + (self.name or "") + "/" + name
    _wrap_method(h5py.Group, "create_dataset", "hp.create", gpath)
    _wrap_method(h5py.Group, "create_group", "hp.create", gpath)
    _wrap_method(h5py.Group, "__delitem__", "hp.remove", gpath)
    _wrap_method(h5py.Group, "move", "hp.move", gpath)
    _wrap_method(h5py.AttributeManager, "__setitem__", "hp.attr",
                 lambda self, a: h5py.h5f.get_name(self._id).decode())

"""bin/posydon-run-grid in the simulator: its fork/kill/wait calls, its shell commands, scripted MESA, batch jobs."""
import glob
import os
import re
import runpy
import shlex
import sys
import types

from . import kernel, seams
from .kernel import HarnessError


def script():
    return os.path.join(os.environ.get("SIM_REPO", "/repo"), "bin", "posydon-run-grid")


def preload():
    from posydon.active_learning.psy_cris import utils as u  # noqa: F401
    from posydon.grids import psygrid  # noqa: F401
    from posydon.interpolation import data_scaling  # noqa: F401
    import pandas  # noqa: F401
    import shutil  # noqa: F401


BIN_PROJECT = """&binary_controls
   m1 = 1d0
   m2 = 1d0
   initial_period_in_days = 1d0
   read_extra_binary_controls_inlist1 = .false.
/
&binary_job
   evolve_both_stars = .true.
/
"""
STAR_INLIST = """&controls
   initial_z = 1d-2
   Zbase = 1d-2
   use_thing = .false.
/
&star_job
   new_Z = 1d-2
/
"""
SINGLE_INLIST = """&controls
   initial_mass = 1d0
   initial_z = 1d-2
   Zbase = 1d-2
/
&star_job
   show_log = .true.
/
"""


def environment(root, kind, nsteps, points):
    """Files a grid run needs; returns the command line (without index, ends and folders)."""
    conf = os.path.join(root, "conf")
    os.makedirs(conf, exist_ok=True)

    def put(name, text):
        with open(os.path.join(conf, name), "w") as f:
            f.write(text)
        return os.path.join(conf, name)
    proj = put("inlist_project", BIN_PROJECT if kind != "single" else "&binary_controls\n a = 1\n/\n&binary_job\n b = 1\n/\n")
    in1 = put("inlist1", STAR_INLIST if kind != "single" else "&controls\n a = 1\n/\n&star_job\n b = 1\n/\n")
    in2 = put("inlist2", "&controls\n c = 1\n/\n&star_job\n d = 1\n/\n")
    steps = [put(f"inlist_step{i}", SINGLE_INLIST) for i in range(nsteps)]
    if kind == "single":
        csv = "initial_mass,initial_z\n" + "".join(f"{p['m1']},{p['z']}\n" for p in points)
    else:
        csv = "m1,m2,initial_period_in_days,initial_z,Zbase\n" + "".join(
            f"{p['m1']},{p['m2']},{p['p']},{p['z']},{p['z']}\n" for p in points)
    grid = put("grid.csv", csv)
    form = steps if kind in ("single", "formed") else ["None"]
    form2 = steps if kind == "formed" else ["None"]
    return ["--mesa-grid", grid, "--mesa-binary-executable", conf + "/binary", "--mesa-star1-executable",
            conf + "/star1", "--mesa-star2-executable", conf + "/star2", "--mesa-binary-inlist-project", proj,
            "--mesa-binary-inlist1", in1, "--mesa-binary-inlist2", in2,
            "--mesa-star1-inlist-project", *form, "--mesa-star2-inlist-project", *form2,
            "--mesa-star-history-columns", put("history_columns.list", "star_age\n"),
            "--mesa-binary-history-columns", put("binary_history_columns.list", "age\n"),
            "--mesa-profile-columns", put("profile_columns.list", "mass\n")]


def install_mpi(comm=None):
    m = types.ModuleType("mpi4py")
    mpi = types.ModuleType("mpi4py.MPI")
    mpi.COMM_WORLD = comm
    mpi.ANY_SOURCE, mpi.ANY_TAG = -1, -1
    mpi.Get_processor_name = lambda: "node"

    class Status:
        src = tag = None

        def Get_source(self):
            return self.src

        def Get_tag(self):
            return self.tag
    mpi.Status = Status
    m.MPI = mpi
    sys.modules["mpi4py"] = m
    sys.modules["mpi4py.MPI"] = mpi


def main(argv, comm=None):
    """Node body: the script as the command line runs it."""
    def body():
        install_mpi(comm)
        sys.argv = [script()] + argv
        runpy.run_path(script(), run_name="__main__")
    return body


# -- shell commands of the script ----------------------------------------------------
def sh(cmd, stdout=None, cwd=None):
    """What a POSIX shell does with the command lines of the script: lists, redirections, rm, cd, test, programs."""
    cwd = cwd or os.getcwd()
    lex = shlex.shlex(cmd, posix=True, punctuation_chars=";&|<>")
    lex.whitespace_split = True
    toks = list(lex)
    rc, skip, words, outs, background = 0, False, [], [stdout], False
    i = 0

    def flush():
        nonlocal rc, cwd, words, outs
        w, words = words, []
        o, outs = outs[0], [stdout]
        if skip or not w:
            return
        if w[0] == "cd":
            cwd = os.path.join(cwd, w[1])
            rc = 0 if os.path.isdir(cwd) else 256
        elif w[0] in ("true", ":", "echo", "sync", "exec") and len(w) == 1 or w[0] in ("true", ":"):
            rc = 0
        elif w[0] == "rm":
            rc = rm(w[1:], cwd)
        elif w[0] in ("chmod", "wait"):
            rc = 0
        elif os.path.isabs(w[0]) and w[0].startswith(kernel.NODE.root):
            rc = program(w[0], o, wait=not background, cwd=cwd)
        else:
            raise HarnessError(f"unknown shell command {cmd!r}")
    while i < len(toks):
        t = toks[i]
        nxt = toks[i + 1] if i + 1 < len(toks) else ""
        if t in (";", "&&", "||"):
            background = False
            flush()
            skip = (t == "&&" and rc != 0) or (t == "||" and rc == 0)
        elif t == "&":
            background = True
            flush()
            background, skip = False, False
        elif t == "&>":         # POSIX: background command, then an empty redirection
            background = True
            flush()
            background, skip = False, False
            with open(os.path.join(cwd, nxt), "w"):
                pass
            i += 1
        elif t in (">", ">>"):
            fd = words.pop() if words and words[-1] in ("1", "2") and re.search(rf"\b{words[-1]}{t}", cmd) else "1"
            if fd == "1":
                outs[0] = os.path.join(cwd, nxt)
                if not skip:
                    with open(outs[0], "w" if t == ">" else "a"):
                        pass
            i += 1
        elif t == ">&":         # 2>&1, 1>&2
            if words and words[-1] in ("1", "2"):
                words.pop()
            i += 1
        elif set(t) & set(";&|<>"):
            raise HarnessError(f"unknown shell command {cmd!r}")
        else:
            words.append(t)
        i += 1
    flush()
    return rc


def rm(words, cwd=None):
    n = kernel.NODE
    flags = [w for w in words if w.startswith("-")]
    rc = 0
    for w in words:
        if w.startswith("-") or w.startswith("2>") or w.startswith(">"):
            continue
        # files whose name starts with a dot are matched by explicit names only, as in sh
        hits = sorted(glob.glob(os.path.join(cwd or os.getcwd(), w)))
        if not hits:
            rc = rc if any("f" in f for f in flags) else 1
        for h in hits:
            if not n.inside(h):
                raise HarnessError(f"removal outside of the scratch folder: {h}")
            if os.path.isdir(h) and not os.path.islink(h):
                if not any("r" in f.lower() for f in flags):
                    rc = 1
                    continue
                import shutil
                shutil.rmtree(h, ignore_errors=True)
            else:
                os.remove(h)
    return rc << 8


def program(cmd, out, wait=True, cwd=None):
    n = kernel.NODE
    exe = shlex.split(cmd)[0]
    return n.call({"t": "mesa", "exe": os.path.basename(exe), "cwd": cwd or os.getcwd(), "out": out, "wait": wait})["rc"]


def run_hook(args, *a, stdout=None, cwd=None, shell=False, **kw):
    import subprocess
    line = args if isinstance(args, str) else None
    if line is not None and shell:
        rc = sh(line, getattr(stdout, "name", None), cwd)
    else:
        words = [args] if isinstance(args, str) else list(args)
        if words[0] == "rm":
            rc = rm(words[1:], cwd)
        else:
            rc = program(shlex.join(words), getattr(stdout, "name", None), cwd=cwd)
    rc = rc >> 8
    if kw.get("check") and rc:
        raise subprocess.CalledProcessError(rc, args)
    return subprocess.CompletedProcess(args, rc)


def hooks():
    return {"system": sh, "run": run_hook, "call": lambda *a, **k: run_hook(*a, **k).returncode,
            "check_call": lambda *a, **k: run_hook(*a, check=True, **k).returncode}


# -- scripted MESA -------------------------------------------------------------------------
def mesa_body(plan, cwd, out, tag):
    """Writes its files over simulated time: plan = {"acts": [[dt, what, path, text]], "rc": .}"""
    def body():
        n = kernel.NODE
        os.chdir(cwd)
        for dt, what, path, text in plan["acts"]:
            n.sleep(dt)
            p = out if path == "OUT" else path
            if p is None:
                continue
            n.point("mesa." + what, f"{tag} {path}")
            n.muted += 1
            try:
                if what == "append":
                    d = os.path.dirname(p)
                    if d:
                        os.makedirs(d, exist_ok=True)
                    with open(p, "a") as f:
                        f.write(text)
                elif what == "remove":
                    if os.path.exists(p):
                        os.remove(p)
            finally:
                n.muted -= 1
        n.sleep(plan.get("last", 1.0))
        n.point("mesa.end", tag)
        return plan.get("rc", 0)
    return body


class Cluster:
    """Jobs with their processes; answers the fork, kill, wait and mesa messages of their nodes."""

    def __init__(self, sim, plan_for, on_mesa_end=None, late=None):
        self.sim = sim
        self.plan_for = plan_for          # (job, exe, number) -> plan
        self.on_mesa_end = on_mesa_end
        self.late = list(late or [])      # how many events of the killer a killed process survives
        self.jobs = {}
        self.of = {}                      # id(node) -> job
        self.dying = []                   # [child, killer, countdown]
        self.waiting = []                 # [parked node, child]
        self.mesa = []                    # [mesa node, parent or None, job]
        self.forks = 0
        for t in ("forked", "kill", "waitpid", "mesa"):
            sim.on_msg[t] = getattr(self, "on_" + t)
        sim.on_event = self.on_event
        sim.invariant = self.poll

    def start(self, name, argv, cwd, start_at=0.0, spares=8, comm=None):
        job = {"name": name, "nodes": [], "copiers": [], "nmesa": 0, "steps": [], "killed": None, "main": None}
        self.jobs[name] = job
        node = self.sim.spawn(name, main(argv, comm), cwd=cwd, spares=spares, hooks=hooks(), start_at=start_at)
        job["main"] = node
        job["nodes"].append(node)
        self.of[id(node)] = job
        return job

    def end(self, job, why="time limit"):
        """The batch system kills everything of a job."""
        job["killed"] = self.sim.clock
        for n in job["nodes"]:
            self.sim.kill(n, why)

    # -- messages --------------------------------------------------------------------
    def on_forked(self, node, msg):
        job = self.of[id(node)]
        self.forks += 1
        rfd, wfd = node.spares.pop(0)
        child = self.sim.adopt(node, f"{node.name}.copier{len(job['copiers'])}", rfd, wfd, msg["pid"])
        child.meta["since"] = self.sim.clock
        job["nodes"].append(child)
        job["copiers"].append(child)
        self.of[id(child)] = job
        return {"do": "go"}

    def child(self, node, pid):
        for c in self.of_children(node):
            if c.pid == pid:
                return c
        return None

    def of_children(self, node):
        return [c for c in self.sim.nodes if c.parent is node]

    def on_kill(self, node, msg):
        c = self.child(node, msg["pid"])
        if c is None or c.meta.get("reaped"):
            return {"do": "go", "error": True}
        if c.finished or msg["sig"] == 0:
            return {"do": "go"}
        k = self.late.pop(0) if self.late else 0
        if k == 0:
            self.sim.kill(c, "signal")
        else:
            # the signal is on its way: the system call in progress may still take effect
            c.state = "dying"
            self.dying.append([c, node, k])
            self.sim.count_fault("late-kill")
        return {"do": "go"}

    def die(self, entry):
        self.dying.remove(entry)
        c = entry[0]
        if c.finished:
            return
        if c.pending and c.pending["t"] == "ev":
            self.sim._logline(c, c.pending["cls"], f"{c.pending['detail']} (while dying)")
            self.sim.reply(c, {"do": "go"})
        self.sim.kill(c, "signal")

    def settle(self):
        for e in list(self.dying):
            self.die(e)

    def on_waitpid(self, node, msg):
        kids = self.of_children(node)
        c = self.child(node, msg["pid"]) if msg["pid"] > 0 else next((k for k in kids if not k.meta.get("reaped")), None)
        if c is None or c.meta.get("reaped"):
            return {"do": "go", "error": True, "pid": 0, "status": 0}
        for e in list(self.dying):
            if e[0] is c:
                self.die(e)
        if c.finished:
            c.meta["reaped"] = True
            return {"do": "go", "pid": c.pid, "status": 9 if c.state == "killed" else 0}
        if msg["opts"] & os.WNOHANG:
            return {"do": "go", "pid": 0, "status": 0}
        node.state = "recv"
        self.waiting.append([node, c])
        return None

    def on_mesa(self, node, msg):
        job = self.of[id(node)]
        k = job["nmesa"]
        job["nmesa"] += 1
        plan = self.plan_for(job, msg["exe"], k)
        m = self.sim.spawn(f"{job['name']}.mesa{k}", mesa_body(plan, msg["cwd"], msg["out"], f"{job['name']}/{k}"))
        step = {"k": k, "exe": msg["exe"], "cwd": msg["cwd"], "out": msg["out"], "begin": self.sim.clock, "end": None,
                "snap": None, "copier": job["copiers"][-1] if job["copiers"] else None, "plan": plan}
        job["steps"].append(step)
        job["nodes"].append(m)
        self.of[id(m)] = job
        self.mesa.append([m, node if msg["wait"] else None, job, step])
        if msg["wait"]:
            node.state = "recv"
            return None
        return {"do": "go", "rc": 0}

    def poll(self):
        for e in list(self.mesa):
            m, parent, job, step = e
            if m.finished:
                self.mesa.remove(e)
                if m.exc is not None and m.state != "killed" and m.exc[0] != "FileNotFoundError":
                    raise HarnessError(f"scripted MESA failed: {m.exc}")
                if m.state != "killed" and m.exc is None:
                    step["end"] = self.sim.clock
                    if self.on_mesa_end:
                        self.on_mesa_end(job, step)
                if parent is not None and not parent.finished:
                    self.sim.reply(parent, {"do": "go", "rc": (m.result or 0) << 8})
        for e in list(self.waiting):
            node, c = e
            if c.finished:
                self.waiting.remove(e)
                c.meta["reaped"] = True
                if not node.finished:
                    self.sim.reply(node, {"do": "go", "pid": c.pid, "status": 9 if c.state == "killed" else 0})

    def on_event(self, node, msg):
        for e in list(self.dying):
            if e[1] is node:
                e[2] -= 1
                if e[2] <= 0:
                    self.die(e)
        return None


def tree(path):
    """{relative path: content or None for a folder}, read with the real calls."""
    out = {}
    for d, dirs, files in os.walk(path):
        r = os.path.relpath(d, path)
        for x in dirs:
            out[os.path.normpath(os.path.join(r, x))] = None
        for x in files:
            p = os.path.join(d, x)
            with seams.real.get("open", open)(p, "rb") as f:
                out[os.path.normpath(os.path.join(r, x))] = f.read()
    return out

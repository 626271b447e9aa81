"""C21: the post-processing pipeline gives every listed product, whatever the cluster does."""
import ast
import json
import os
import pickle
import posixpath
import stat
import subprocess
import sys

from .. import kernel, mesa, seams
from ..kernel import Violation
from ..slurm import Slurm
from . import c13, c14

PROP = "C21"
QUICK = {"runs": 400, "wall": 120}
THOROUGH = {"runs": 20000, "wall": 3400}
KEEP = {"types"}
SHRINK_INT = {"sched_seed": 0, "list_seed": 0, "concurrent": 1}
SHRINK_TO = {"kills": [], "errors": [], "sh": [], "sbatch_fail": [], "missing": [], "group": False, "checks": False,
             "plots": False, "grow": False, "grids": "abs", "path": ".", "verbose": True, "setup_kill": None,
             "version": "", "late": []}
RULE = ("one case = one tree of simulation runs put through the stages of the pipeline (setup, array jobs with "
        "dependencies, clean-up jobs), with kills, failing disks and resubmissions; non-trivial if a job was killed or "
        "failed, a slice was missing, the inputs grew or tasks ran at the same time; distinct by event log and scenario")
COMPONENTS = {
    "real": ["bin/posydon-setup-pipeline", "bin/posydon-run-pipeline", "run_pipeline.sh and the *.slurm scripts (bash)",
             "posydon.grids.psygrid (create, join_grids)", "posydon.grids.post_processing "
             "(add_post_processed_quantities)", "posydon.interpolation.IF_interpolation (IFInterpolator)",
             "posydon.utils.gridutils", "h5py", "file system (scratch)"],
    "stub": ["SLURM scheduler (sbatch/srun recorder, arrays, dependencies)", "MESA (scripted output files)",
             "post_process_grid (values derived from the grid it is given)", "interpolator training (records its "
             "grid and options)", "plotting of one slice", "chgrp/chmod (recorded)"]}
ASSUMPTIONS = ["process death, not power loss", "a job whose output file cannot be opened fails (as under SLURM)",
               "a job whose dependency cannot be met is cancelled (kill-on-invalid-dep)",
               "the user submits the same pipeline again after a failure"]
ACTIONS = {"1": "CREATE_GRID_SLICES", "2": "COMBINE_GRID_SLICES", "3": "CALCULATE_EXTRA_VALUES",
           "4": "TRAIN_INTERPOLATORS", "F": "EXPORT_DATASET"}
EXPORT = [("linear", "linear3c_kNN"), ("1NN", "1NN_1NN")]
KILL_AT = [["*", 3], ["*", 20], ["*", 60], ["fs.mkdir", 1], ["hp.create", 12], ["hp.close", 2], ["hp.open_w", 2],
           ["fs.open_w", 2], ["fs.remove", 1], ["fs.rename", 2], ["hp.attr", 2], ["hp.remove", 3], ["fs.close", 3],
           ["fs.write", 2], ["fs.open_r", 12]]
ERRORS = [["fs.open_r", 12, "eio"], ["hp.open_w", 2, "enospc"], ["hp.create", 10, "enospc"], ["fs.open_w", 2, "enospc"],
          ["fs.mkdir", 1, "enospc"], ["hp.open_r", 3, "eio"], ["fs.write", 2, "enospc"], ["fs.rename", 1, "eio"]]


def preload():
    c14.preload()
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.backends.backend_pdf  # noqa: F401
    import posydon.popsyn.io  # noqa: F401
    import posydon.interpolation.IF_interpolation  # noqa: F401
    import posydon.visualization.combine_TF  # noqa: F401
    import posydon.visualization.interpolation  # noqa: F401
    import posydon.visualization.plot_defaults  # noqa: F401


# -- scenarios ---------------------------------------------------------------------
def run_of(rng, i):
    r = c14.small_run(rng, i)
    r.update(n=rng.choice([4, 5, 7]), np=rng.choice([2, 5]), rlo=rng.choice([1, 2]), gz=[])
    if rng.random() < 0.3:
        r["gz"] = ["bh", "h1"]
    return r


def gen(rng):
    types = []
    names = rng.sample(["HMS-HMS", "CO-HeMS", "CO-HMS_RLO"], rng.choice([1, 1, 1, 2]))
    for ty in names:
        mets = rng.choice([["1e+00_Zsun"], ["1e+00_Zsun"], ["1e-01_Zsun", "1e+00_Zsun"]])
        slices = ["grid_low_res_0", "grid_low_res_1", "rerun_PISN_grid_low_res"][:rng.choice([1, 2, 2, 3])]
        rlo = ty != "HMS-HMS" and rng.random() < 0.4
        comps = ["LITE", "ORIGINAL"] + (["LITE_RLO", "ORIGINAL_RLO"] if rlo or ty == "CO-HMS_RLO" else [])
        if len(slices) * len(mets) * len(comps) > 8:
            mets = mets[:1]
        combined = [["combined", slices[:max(1, len(slices) - 1)]]]
        if len(slices) > 1 and rng.random() < 0.7:
            combined.append(["combined_rerun1", list(slices)])
        runs = {}
        k = 0
        for m in mets:
            for sl in slices:
                runs[f"{m}/{sl}"] = [run_of(rng, k + j) for j in range(rng.choice([1, 1, 2]))]
                k += 5
        types.append({"type": ty, "mets": mets, "slices": slices, "comps": comps, "combined": combined, "runs": runs})
    stages = rng.choice([[["1", "2", "3", "4", "F"]], [["1", "2", "3"], ["4", "F"]], [["1", "2"], ["3", "4", "F"]],
                         [["1"], ["2", "3"]], [["1", "2", "3", "4"]], [["1", "2"]], [["1"], ["2"], ["3"]],
                         [["1", "2", "3"], ["2", "3", "4"]]])
    s = {"types": types, "stages": stages, "drop": rng.random() < 0.6, "missing": [], "stop": rng.choice([0, 1]),
         "grids": rng.choice(["abs", "abs", "slash", "rel", "dot", "double"]), "path": rng.choice([".", ".", "abs", "sub"]),
         "checks": rng.random() < 0.4, "plots": rng.random() < 0.25, "group": rng.random() < 0.4,
         "late": [], "verbose": rng.random() < 0.7, "version": rng.choice(["", "", "v2"]), "grow": rng.choice([False, False, False, True, "change"]),
         "kills": [], "errors": [], "sh": [], "sbatch_fail": [], "setup_kill": None,
         "concurrent": rng.choice([2, 4, 6]), "event_cost": rng.choice([0.0, 0.001, 0.02]),
         "sched_seed": rng.randrange(1 << 30), "list_seed": rng.randrange(1 << 30), "sticky": rng.choice([0.0, 0.5, 0.9])}
    if rng.random() < 0.3:
        t = rng.choice(types)
        keys = [[t["type"], k] for k in t["runs"]]
        s["missing"] = rng.sample(keys, 1)
    elif rng.random() < 0.3:
        s["missing"] = []
    if rng.random() < 0.2:
        s["late"] = [rng.choice([["checks", "2"], ["checks", "3"], ["plots", "2"]])]
    mode = rng.random()
    if mode < 0.6:
        for _ in range(rng.choice([1, 1, 2, 4])):
            cls, hi = rng.choice(KILL_AT)
            s["kills"].append([rng.randrange(8), rng.choice([0, 0, 1, 1, 2, 3]), cls, rng.randint(1, hi)])
    if rng.random() < 0.25:
        cls, hi, do = rng.choice(ERRORS)
        s["errors"].append([rng.randrange(8), rng.choice([0, 1]), cls, rng.randint(1, hi), do])
    if rng.random() < 0.35:
        s["sh"].append([rng.randrange(12), rng.choice(["cat", "cat", "rm"]), rng.choice(["fail", "kill"])])
    if rng.random() < 0.1:
        s["sbatch_fail"] = [rng.randint(1, 6)]
    if rng.random() < 0.1:
        s["setup_kill"] = ["*", rng.randint(1, 40)]
    return s


def directed():
    import random
    rng = random.Random(5)
    sl = ["grid_low_res_0", "grid_low_res_1"]
    t = {"type": "HMS-HMS", "mets": ["1e+00_Zsun"], "slices": sl, "comps": ["LITE", "ORIGINAL"],
         "combined": [["combined", sl]], "runs": {f"1e+00_Zsun/{x}": [run_of(rng, 5 * i)] for i, x in enumerate(sl)}}
    base = {"types": [t], "stages": [["1", "2", "3", "4", "F"]], "drop": True, "missing": [], "stop": 1, "grids": "abs",
            "path": ".", "checks": False, "plots": False, "group": False, "late": [], "verbose": True, "version": "",
            "grow": False, "kills": [], "errors": [], "sh": [], "sbatch_fail": [], "setup_kill": None, "concurrent": 4,
            "event_cost": 0.0, "sched_seed": 1, "list_seed": 1, "sticky": 0.0}
    out = [base, dict(base, grids="dot", checks=True, group=True), dict(base, grids="double", path="abs", plots=True)]
    out.append(dict(base, late=[["checks", "2"]], stages=[["1", "2"], ["3"]]))
    out.append(dict(base, late=[["plots", "2"], ["checks", "3"]], stages=[["1", "2", "3"], ["4"]], drop=False))
    for k in range(1, 9):                       # step 3 dies in between
        out.append(dict(base, kills=[[3, 0, "hp.*", k]], grow=k % 2 == 0))
        out.append(dict(base, kills=[[3, 0, "fs.*", 2 * k]], grow=k % 2 == 1))
    for k in range(1, 5):
        out.append(dict(base, kills=[[4, 0, "fs.*", 3 * k]]))
        out.append(dict(base, kills=[[5, 0, "fs.*", k + 3]], grow=True))
    out.append(dict(base, grow=True, kills=[[7, 0, "*", 30]]))
    out.append(dict(base, grow=True, kills=[[8, 1, "*", 12]]))
    out.append(dict(base, grow="change"))
    out.append(dict(base, grow="change", kills=[[8, 0, "fs.*", 3]]))
    out.append(dict(base, grow="change", kills=[[10, 0, "hp.*", 3]]))
    for m in ("fail", "kill"):
        out.append(dict(base, sh=[[2, "cat", m]]))
        out.append(dict(base, sh=[[2, "rm", m]], checks=True, group=True))
        out.append(dict(base, sh=[[6, "cat", m]]))
    out.append(dict(base, missing=[["HMS-HMS", "1e+00_Zsun/grid_low_res_1"]]))
    out.append(dict(base, missing=[["HMS-HMS", "1e+00_Zsun/grid_low_res_1"]], drop=False))
    for seed in range(6):
        out.append(dict(base, stages=[["1"]], sched_seed=seed, concurrent=6))
    return out


def valid(s):
    if not s["types"] or not s["stages"] or not all(s["stages"]):
        return False
    for t in s["types"]:
        if not t["mets"] or not t["slices"] or not t["comps"]:
            return False
        if any(not t["runs"].get(f"{m}/{x}") for m in t["mets"] for x in t["slices"]):
            return False
        if any(not c[1] or any(x not in t["slices"] for x in c[1]) for c in t["combined"]):
            return False
        if not t["combined"] or "LITE" not in t["comps"] or "ORIGINAL" not in t["comps"]:
            return False
        if ("LITE_RLO" in t["comps"]) != ("ORIGINAL_RLO" in t["comps"]):
            return False
        if t["type"] == "CO-HMS_RLO" and "LITE_RLO" not in t["comps"]:
            return False
    seen = set()
    for st in s["stages"]:
        for x in st:
            need = {"1": set(), "2": {"1"}, "3": {"1", "2"}, "4": {"1", "2", "3"}, "F": {"1", "2", "3", "4"}}[x]
            if not need <= seen:
                return False
            seen.add(x)
        if list(st) != sorted(st, key="1234F".index):
            return False
    if not s["drop"] and s["missing"] and s["late"]:
        return False
    return True


# -- stand-ins inside a task ---------------------------------------------------------
def fake_post_process_grid(grid, index=None, star_2_CO=True, verbose=False, **kw):
    """Values that depend on the grid they were derived from."""
    from posydon.grids.SN_MODELS import SN_MODELS
    cols = {"S1_state": [], "probe_rows": [], "probe_CO": []}
    sn = sorted(SN_MODELS)[:2]
    for m in sn:
        for c in ("CO_type", "SN_type", "CO_interpolation_class", "mass", "spin"):
            cols[f"S1_{m}_{c}"] = []
    for i in range(len(grid)):
        run = grid[i]
        n1 = 0 if run.history1 is None else len(run.history1)
        n2 = 0 if run.final_profile1 is None else len(run.final_profile1)
        tot = 0.0 if not n1 else float(sum(run.history1["center_h1"]))
        cols["S1_state"].append(["H-rich_Core_H_burning", "stripped_He_Core_He_burning"][n1 % 2])
        cols["probe_rows"].append(1000.0 * n1 + n2 + tot + (0.0 if grid.config["history_DS_error"] else 1e6))
        cols["probe_CO"].append(float(bool(star_2_CO)))
        for k, m in enumerate(sn):
            cols[f"S1_{m}_CO_type"].append(["BH", "NS"][(n1 + k) % 2])
            cols[f"S1_{m}_SN_type"].append(["CCSN", "ECSN"][(n2 + k) % 2])
            cols[f"S1_{m}_CO_interpolation_class"].append(["BH", "NS"][(n1 + k) % 2])
            cols[f"S1_{m}_mass"].append(tot + n1 + k)
            cols[f"S1_{m}_spin"].append(float("nan"))
    return list(grid.MESA_dirs), cols


class StubInterpolator:
    """Records what it is trained on."""

    def __init__(self, grid=None, **kw):
        kernel.NODE.point("train", str(kw.get("c_key")))
        self.kw = kw
        self.dirs = [x.decode() if isinstance(x, bytes) else str(x) for x in grid.MESA_dirs]
        self.fin = {c: c14.clean(grid.final_values[c]) for c in grid.final_values.dtype.names}
        self.sn = {m: {c: c14.clean(grid.SN_MODELS[m][c]) for c in grid.SN_MODELS[m].dtype.names}
                   for m in grid.SN_MODELS}
        self.interp_in_q = False


def fake_plot2D(self, x, y, z=None, **kw):
    with open(os.path.join(kw["path_to_file"], kw["fname"]), "w") as f:
        f.write("plot")


def stand_ins():
    from posydon.grids import post_processing, psygrid
    from posydon.interpolation import IF_interpolation
    post_processing.post_process_grid = fake_post_process_grid
    IF_interpolation.BaseIFInterpolator = StubInterpolator
    psygrid.PSyGrid.plot2D = fake_plot2D


# -- SLURM with real batch scripts ------------------------------------------------------
WRAP = {
    "srun": r'''#!/bin/bash
printf '%s\0' "$@" '--END--' >> "$SIM_REC"
env -0 > "$SIM_REC.env"
exit "${SIM_SRUN_RC:-0}"
''',
    "cat": r'''#!/bin/bash
if [ "$(/bin/cat "$SIM_REC.cat" 2>/dev/null)" = fail ]; then /bin/cat "$@" | head -c 7; echo "cat: write error: No space left on device" >&2; exit 1; fi
if [ "$(/bin/cat "$SIM_REC.cat" 2>/dev/null)" = kill ]; then /bin/cat "$@" | head -c 7; kill -9 $PPID; exit 1; fi
exec /bin/cat "$@"
''',
    "rm": r'''#!/bin/bash
if [ "$(/bin/cat "$SIM_REC.rm" 2>/dev/null)" = fail ]; then echo "rm: cannot remove" >&2; exit 1; fi
if [ "$(/bin/cat "$SIM_REC.rm" 2>/dev/null)" = kill ]; then kill -9 $PPID; exit 1; fi
for a in "$@"; do case "$(realpath -m -- "$a")" in "$SIM_ROOT"/*|"$PWD"/-*) ;; *) echo "outside: $a" >&2; exit 9;; esac; done
exec /bin/rm "$@"
''',
    "chgrp": '#!/bin/bash\nprintf \'%s\\0\' "$@" \'--END--\' >> "$SIM_REC.chgrp"\nexit 0\n',
    "chmod": '#!/bin/bash\nexit 0\n', "chown": '#!/bin/bash\nexit 0\n',
    "mv": '#!/bin/bash\nexec /bin/mv "$@"\n'}


class PipeSlurm(Slurm):
    def __init__(self, sim, scn):
        super().__init__(sim, scn, {})
        self.jobbin = os.path.join(self.dir, "jobbin")
        os.makedirs(self.jobbin)
        for name, text in WRAP.items():
            p = os.path.join(self.jobbin, name)
            with open(p, "w") as f:
                f.write(text)
            os.chmod(p, stat.S_IRWXU)
        self.busy = 0           # tasks that were running together with another one

    def rec(self, job, task):
        return os.path.join(self.dir, f"rec.{job['id']}.{'x' if task is None else task}")

    def bash(self, job, task, rc=0):
        env = {k: v for k, v in os.environ.items() if not k.startswith("SLURM")}
        env.update({k: v for k, v in self._env_cmd(job, task)[0].items()
                    if v is not None and k.startswith("SLURM")})
        env.update(PATH=self.jobbin + ":/usr/bin:/bin", SIM_REC=self.rec(job, task), SIM_SRUN_RC=str(rc),
                   SIM_ROOT=self.sim.root)
        p = seams.real["Popen"](["/bin/bash", os.path.join(self.dir, f"script.{job['id']}")], cwd=job["dir"], env=env,
                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        out, _ = p.communicate(timeout=60)
        return p.returncode, out.decode(errors="replace"), env

    def text(self, job):
        with open(os.path.join(self.dir, f"script.{job['id']}")) as f:
            return f.read()

    def _log(self, job, task):
        o = job["opt"].get("output")
        if not o:
            return None
        o = o.replace("%A", str(job["id"])).replace("%j", str(job["id"]))
        for w in range(10, 0, -1):
            o = o.replace(f"%{w}a", str(task).zfill(w))
        o = o.replace("%a", str(task))
        return os.path.join(job["dir"], o)

    def start(self, job, task):
        sim = self.sim
        name = f"j{job['seq']}" + ("" if task is None else f".t{task}")
        for s, t, cls, n in self.scn["kills"]:
            if s == job["seq"] and (t == task or task is None and t == 0):
                sim.faults.append({"node": name, "cls": cls, "n": n, "do": "kill"})
        for s, t, cls, n, do in self.scn["errors"]:
            if s == job["seq"] and (t == task or task is None and t == 0):
                sim.faults.append({"node": name, "cls": cls, "n": n, "do": do})
        log = self._log(job, task)
        ok = True
        if log:
            try:
                with open(log, "w"):
                    pass
            except OSError:
                ok = False
        job.setdefault("logs", {})[task] = log
        if any(not n.finished for n in sim.nodes):
            self.busy += 1
        steps = []
        env = None
        if not ok:
            def go():
                raise RuntimeError(f"slurmstepd: error: could not open {log}")
        elif "srun" in self.text(job):
            rec = self.rec(job, task)
            self.bash(job, task)
            with open(rec, "rb") as f:
                words = f.read().decode().split("\0")[:-1]
            cur = []
            for x in words:
                if x == "--END--":
                    steps.append(cur)
                    cur = []
                else:
                    cur.append(x)
            with open(rec + ".env", "rb") as f:
                env = dict(x.split("=", 1) for x in f.read().decode().split("\0") if "=" in x)
            env = {k: v for k, v in env.items() if os.environ.get(k) != v and k not in ("PATH", "_", "PWD", "SHLVL")
                   and not k.startswith(("SIM_", "BASH_"))}

            def go():
                stand_ins()
                for cmd in steps:
                    if not cmd or os.path.basename(cmd[0]) not in ("python", "python3"):
                        raise kernel.HarnessError(f"job without a python command: {cmd}")
                    print("task", name, "on node1")
                    kernel.NODE.muted += 1
                    with open(cmd[1]) as f:
                        text = f.read()
                    kernel.NODE.muted -= 1
                    sys.argv = cmd[1:]
                    try:
                        exec(compile(text, cmd[1], "exec"), {"__name__": "__main__"})
                    except SystemExit as e:
                        if e.code not in (None, 0):
                            raise
        else:
            for s, tool, mode in self.scn["sh"]:
                if s == job["seq"]:
                    with open(self.rec(job, task) + "." + tool, "w") as f:
                        f.write(mode)
                    sim.count_fault(f"{mode}@sh.{tool}")
                    job["shfault"] = True
            if "chgrp" in self.text(job):
                open_ = [j["script"] for j in self.jobs.values() if j is not job and j["state"] in ("pending", "running")
                         and j["sub"] == job["sub"]]
                if open_:
                    raise Violation("cleanup-early", f"{job['script']} starts although {open_} have not ended")

            def go():
                n = kernel.NODE
                n.point("job.sh", job["script"])
                n.muted += 1
                rc, out, _ = self.bash(job, task)
                n.muted -= 1
                print("task", name, "on node1")
                print(out)
                if rc:
                    raise RuntimeError(f"exit {rc}: {out[-300:]}")
        node = sim.spawn(name, go, cwd=job["dir"], env=env, start_at=sim.clock + sim.rng.choice([0, 0, 1, 2, 3]))
        node.meta["steps"] = steps
        job["nodes"][task] = node
        self.started.append((job["id"], task))
        if log:
            node.meta["log"] = log

    def task_ok(self, job, task, node):
        if node.state == "killed":
            return False
        if not node.meta.get("steps"):
            return node.ok
        return self.bash(job, task, 0 if node.ok else 1)[0] == 0


# -- the model ---------------------------------------------------------------------------
class World:
    def __init__(self, scn, sim):
        self.scn, self.sim = scn, sim
        self.work = os.path.join(sim.root, "work")
        self.tree = os.path.join(self.work, "grids")
        os.makedirs(self.tree)
        self.path = {".": ".", "abs": os.path.join(sim.root, "out"), "sub": "sub"}[scn["path"]]
        os.makedirs(os.path.join(self.work, self.path), exist_ok=True)
        self.slurm = PipeSlurm(sim, scn)
        self.slurm.fail_submissions(scn["sbatch_fail"])
        self.cols = mesa.columns()
        self.version = 0
        self.refs = []           # version -> {product: content}
        self.sub = 0
        self.done = set()        # steps that have come to their end
        self.nref = 0
        self.state = {}          # product -> None, "broken" or version
        for t in scn["types"]:
            for m in t["mets"]:
                os.makedirs(self.base(t, m))
        self.write(lambda r: r["index"] % 5 == 0)
        self.refs.append(self.reference())

    def base(self, t, m):
        return os.path.join(self.tree, t["type"], self.scn["version"], m)

    def gone(self, t, m, sl):
        return [t["type"], f"{m}/{sl}"] in self.scn["missing"]

    def write(self, want, shift=0):
        import shutil
        o = c14.opts()
        for t in self.scn["types"]:
            for m in t["mets"]:
                for sl in t["slices"]:
                    if self.gone(t, m, sl):
                        continue
                    runs = [dict(r, seed=r["seed"] + shift) for r in t["runs"][f"{m}/{sl}"]]
                    runs = [r for r in runs if want(r)]
                    if not runs:
                        continue
                    tmp = os.path.join(self.sim.root, "tmp")
                    c13.build(dict(o, runs=runs), tmp, self.cols, None)
                    dst = os.path.join(self.base(t, m), sl)
                    os.makedirs(dst, exist_ok=True)
                    src = os.path.join(tmp, "g", "main")
                    for d in os.listdir(src):
                        if os.path.exists(os.path.join(dst, d)):
                            shutil.rmtree(os.path.join(dst, d))
                        os.rename(os.path.join(src, d), os.path.join(dst, d))
                    shutil.rmtree(tmp)

    def grids(self):
        return {"abs": self.tree, "slash": self.tree + "/", "rel": "grids", "dot": "./grids",
                "double": os.path.dirname(self.tree) + "//grids/"}[self.scn["grids"]]

    # products of a step: (path, kind, how to get the reference)
    def products(self, step):
        out = []
        for t in self.scn["types"]:
            lite = [c for c in t["comps"] if c.startswith("LITE")]
            if t["type"] == "CO-HMS_RLO":
                last = ["LITE_RLO"]
            else:
                last = lite
            for m in t["mets"]:
                b = self.base(t, m)
                here = {sl for sl in t["slices"] if not self.gone(t, m, sl)}
                names = [(n, [x for x in sls if x in here]) for n, sls in t["combined"]]
                names = [(n, sls) for n, sls in names if sls]
                if step == "1":
                    out += [(f"{b}/{c}/{sl}.h5", "create", (t, m, c, sl)) for c in t["comps"] for sl in t["slices"]
                            if sl in here]
                elif step == "2":
                    out += [(f"{b}/{c}/{n}.h5", "join", [f"{b}/{c}/{x}.h5" for x in sls])
                            for c in t["comps"] for n, sls in names]
                elif step == "3":
                    out += [(f"{b}/{c}/{n}_processed.h5", "post",
                             (f"{b}/{c}/{n}.h5", f"{b}/{c.replace('LITE', 'ORIGINAL')}/{n}.h5", "CO" in t["type"]))
                            for c in lite for n, sls in names]
                elif step in "4F":
                    n = t["combined"][-1][0]
                    if n not in [x for x, _ in names]:
                        continue
                    for c in last:
                        rlo = "_RLO" if "RLO" in c else ""
                        g = f"{b}/{c}/{n}_processed.h5"
                        if step == "4":
                            out += [(f"{b}/interpolation_objects/IF_{x}{rlo}.pkl", "train", (g, x, rlo, t["type"]))
                                    for x, _ in EXPORT]
                        else:
                            d = os.path.join(self.work, self.path, "POSYDON_data",
                                             t["type"] if "RLO" in t["type"] else t["type"] + rlo)
                            out.append((f"{d}/{m}.h5", "copy", g))
                            out += [(f"{d}/interpolators/{y}/{m}.pkl", "copy",
                                     f"{b}/interpolation_objects/IF_{x}{rlo}.pkl") for x, y in EXPORT]
        return out

    def steps(self):
        return sorted({x for st in self.scn["stages"] for x in st}, key="1234F".index)

    def reference(self):
        """Content of all products, made one after the other by direct calls."""
        self.nref += 1
        ref = os.path.join(self.sim.metadir, f"ref{self.nref}")
        os.makedirs(ref)
        todo = [(p, kind, how) for st in self.steps() for p, kind, how in self.products(st)]
        where = {p: os.path.join(ref, f"{i}.h5") for i, (p, _, _) in enumerate(todo)}
        stop = self.scn["stop"]

        def body():
            from posydon.grids.psygrid import PSyGrid, join_grids, DEFAULT_HISTORY_DS_EXCLUDE, \
                DEFAULT_PROFILE_DS_EXCLUDE, EXTRA_COLS_DS_EXCLUDE
            from posydon.grids.post_processing import add_post_processed_quantities
            import shutil
            kernel.NODE.muted += 1
            for p, kind, how in todo:
                if kind == "create":
                    t, m, c, sl = how
                    kw = {"history_DS_error": None, "profile_DS_error": None, "profile_DS_interval": None,
                          "history_DS_exclude": DEFAULT_HISTORY_DS_EXCLUDE,
                          "profile_DS_exclude": DEFAULT_PROFILE_DS_EXCLUDE}
                    if c.startswith("LITE"):
                        kw = {"history_DS_error": 0.1, "profile_DS_error": 0.1, "profile_DS_interval": -0.005,
                              "history_DS_exclude": EXTRA_COLS_DS_EXCLUDE, "profile_DS_exclude": EXTRA_COLS_DS_EXCLUDE}
                    g = PSyGrid()
                    g.create(os.path.join(self.base(t, m), sl), where[p], overwrite=True, compression="gzip9",
                             start_at_RLO="RLO" in c, stop_before_carbon_depletion=bool(stop) and "HMS" in t["type"],
                             initial_RLO_fix=True, **kw)
                    g.close()
                elif kind == "join":
                    join_grids([where[x] for x in how], where[p], verbose=False)
                elif kind == "post":
                    g = PSyGrid(where[how[1]], lazy=False)
                    dirs, cols = fake_post_process_grid(g, star_2_CO=how[2])
                    g.close()
                    shutil.copyfile(where[how[0]], where[p])
                    g = PSyGrid(where[p], lazy=False)
                    add_post_processed_quantities(g, dirs, cols)
                    g.close()
        node = self.sim.solo(f"ref{self.nref}", body, cwd=self.work)
        if node.exc is not None:
            raise Violation("reference", f"processing one at a time fails with {node.exc[0]}: {node.exc[1]}\n"
                                         f"{node.exc[2][-1500:]}")
        out = {}
        for p, kind, how in todo:
            if kind in ("create", "join", "post"):
                out[p] = c14.load_file(where[p])
                if out[p] is None:
                    raise Violation("reference", f"{p} cannot be read back")
                out[p]["dirs"] = [os.path.realpath(os.path.join(self.work, d)) for d in out[p]["dirs"]]
            elif kind == "train":
                out[p] = dict(out[how[0]], train=how)
            else:
                out[p] = out[how]
        return out

    # -- reading products back ---------------------------------------------------------
    def content(self, p):
        """Content of a product: None if absent, "broken" if it is no complete product."""
        if not os.path.exists(p):
            return None
        if p.endswith(".h5"):
            c = c14.load_file(p)
            if c is None:
                return "broken"
            c["dirs"] = [os.path.realpath(os.path.join(self.work, d)) for d in c["dirs"]]
            return c
        try:
            with open(p, "rb") as f:
                return pickle.load(f)
        except Exception:
            return "broken"

    def differs(self, c, ref):
        if c is None:
            return "it does not exist"
        if isinstance(c, str):
            return "it is incomplete"
        if "train" not in ref:
            return c14.same_grid(dict(c, config=config(c)), dict(ref, config=config(ref)))
        return self.trained(c, ref)

    def trained(self, c, ref):
        g, method, rlo, gtype = ref["train"]
        if len(c) != 1 + len(ref["sn"]):
            return f"it has {len(c)} interpolators instead of {1 + len(ref['sn'])}"
        for x in c:
            dirs = [os.path.realpath(os.path.join(self.work, d)) for d in x.dirs]
            if dirs != ref["dirs"]:
                return f"it was trained on the runs {dirs} instead of {ref['dirs']}"
            m = c14.same_cols(x.fin, ref["fin"])
            if m:
                return f"it was trained on other final values: {m}"
            for k in sorted(set(x.sn) | set(ref["sn"])):
                m = c14.same_cols(x.sn.get(k, {}), ref["sn"].get(k, {}))
                if m:
                    return f"it was trained on other supernova data: {m}"
            if any(y != method for y in x.kw["interp_method"]) or \
                    len(x.kw["interp_method"]) != len(x.kw["interp_classes"]):
                return f"it uses the methods {x.kw['interp_method']} instead of {method}"
        want = {"stable_MT", "unstable_MT"} | (set() if rlo else {"no_MT"}) | \
            (set() if "CO" in gtype else {"stable_reverse_MT"})
        if set(c[0].kw["interp_classes"]) != want:
            return f"its classes are {c[0].kw['interp_classes']} instead of {sorted(want)}"
        keys = sorted(c[0].kw["out_keys"] + c[0].kw["out_nan_keys"])
        num = sorted(k for k, v in ref["fin"].items() if k != "model_number" and not isinstance(v[0], str))
        if keys != num:
            return f"its quantities differ in {sorted(set(keys) ^ set(num))}"
        return None

    def check_refused(self, p):
        if p.endswith(".h5"):
            def body():
                from posydon.grids.psygrid import PSyGrid
                kernel.NODE.muted += 1
                g = PSyGrid(p)
                n = len(g)
                g.close()
                return n
            self.nref += 1
            node = self.sim.solo(f"load{self.nref}", body, cwd=self.work)
            return node.exc is not None
        return True

    # -- the user ---------------------------------------------------------------------------
    def ini(self, stage):
        s = self.scn
        sub = {"checks": [x for k, x in s["late"] if k == "checks" and (x in stage or x in self.done)],
               "plots": [x for k, x in s["late"] if k == "plots" and (x in stage or x in self.done)]}
        if s["checks"]:
            sub["checks"] += [x for x in stage if x in "23"]
        if s["plots"]:
            sub["plots"] += [x for x in stage if x in "23"]
        lines = ["[account]", "    ACCOUNT = 'acc'", "    PARTITION = 'part'", "    WALLTIME = '24:00:00'",
                 "    MAILTYPE = 'ALL'", "    EMAIL = 'a@b.org'"]
        if s["group"]:
            lines.append("    GROUP = 'grp'")
        lines += ["", "[pipeline setup]", f"    PATH_TO_GRIDS = '{self.grids()}'", f"    VERSION = '{s['version']}'",
                  f"    PATH = '{self.path}' # working dir", f"    VERBOSE = {s['verbose']}"]
        lines += [f"    {a} = {k in stage}" for k, a in ACTIONS.items()]
        lines += ["    TRAIN_PROFILE_INTERPOLATORS = False", "    RERUN = False",
                  f"    MAKE_PLOTS = {bool(sub['plots'])}", "    PLOT_EXTENSION = 'pdf'",
                  f"    MAKE_CHECKS = {bool(sub['checks'])}"]
        types = [t["type"] for t in s["types"]]
        mets = [t["mets"] for t in s["types"]]
        lite = [[c for c in t["comps"] if c.startswith("LITE")] for t in s["types"]]
        last = [["LITE_RLO"] if t["type"] == "CO-HMS_RLO" else li for t, li in zip(s["types"], lite)]
        proc = [[t["combined"][-1][0] + "_processed"] for t in s["types"]]

        def sec(name, slices, comps, **kw):
            out = ["", f"[{name}]", f"    GRID_TYPES = {types}", f"    METALLICITIES = {mets}",
                   f"    GRID_SLICES = {slices}", f"    COMPRESSIONS = {comps}", f"    DROP_MISSING_FILES = {s['drop']}"]
            out += [f"    {k} = {v}" for k, v in kw.items()]
            x = name[-1]
            out.append("    CREATE_PLOTS = " + ("['termination_flag_1', 'PLOT_AFTER_CREATE']" if x in sub["plots"]
                                                else "[]"))
            out.append("    DO_CHECKS = " + (repr({"2": ["CHECK_AFTER_COMBINE"], "3": ["failure_rate", "CO_type"]}[x])
                                             if x in sub["checks"] else "[]"))
            return out
        lines += sec("step_1", [t["slices"] for t in s["types"]], [t["comps"] for t in s["types"]],
                     STOP_BEFORE_CARBON_DEPLETION=s["stop"])
        lines += sec("step_2", [[c[1] for c in t["combined"]] for t in s["types"]], [t["comps"] for t in s["types"]],
                     GRIDS_COMBINED=[[c[0] for c in t["combined"]] for t in s["types"]])
        lines += sec("step_3", [[c[0] for c in t["combined"]] for t in s["types"]], lite,
                     ORIGINAL_COMPRESSIONS=[["ORIGINAL"] for _ in s["types"]])
        meth = [x for x, _ in EXPORT]
        lines += sec("step_4", proc, last, INTERPOLATION_METHODS=meth, CONTROL_GRIDS=[[""] for _ in s["types"]])
        lines += sec("step_5", proc, last, INTERPOLATION_METHODS=meth, PROFILE_NAMES=["radius"],
                     CONTROL_GRIDS=[[""] for _ in s["types"]])
        lines += sec("step_F", proc, last)
        lines += sec("rerun", proc, last, RERUN_TYPE="'opacity_max'", CLUSTER="'quest'")
        return "\n".join(lines) + "\n"

    def setup(self, k, stage):
        name = f"pipe{k}.ini"
        with open(os.path.join(self.work, name), "w") as f:
            f.write(self.ini(stage))

        def body():
            path = os.path.join(os.environ.get("SIM_REPO", "/repo"), "bin", "posydon-setup-pipeline")
            with seams.real["open"](path) as f:
                text = f.read()
            sys.argv = ["posydon-setup-pipeline", name]
            exec(compile(text, path, "exec"), {"__name__": "__main__"})
        for i in range(2):
            self.sub += 1
            who = f"setup{self.sub}"
            if self.scn["setup_kill"] and self.sub == 1:
                self.sim.faults.append({"node": who, "cls": self.scn["setup_kill"][0], "n": self.scn["setup_kill"][1],
                                        "do": "kill"})
            node = self.sim.solo(who, body, cwd=self.work, hooks=self.slurm.node_hooks())
            if node.state != "killed":
                break
        return node

    def submit(self):
        first = set(self.slurm.jobs)
        rc, out = self.slurm.shell("./run_pipeline.sh", self.work)
        self.sub += 1
        for j in self.slurm.collect():
            j["sub"] = self.sub
        self.slurm.run_all(self.scn["concurrent"])
        return [j for i, j in self.slurm.jobs.items() if i not in first]


def step_of(job):
    """The step a job works on, from the table it hands to the tasks; None for other jobs."""
    for n in job["nodes"].values():
        for cmd in n.meta.get("steps") or []:
            if len(cmd) > 3:
                return os.path.splitext(os.path.basename(cmd[3]))[0]
    return os.path.splitext(os.path.basename(job["script"]))[0]


def run(scn, sim):
    w = World(scn, sim)
    doomed = bool(scn["missing"]) and not scn["drop"]
    info = {"submissions": 0, "failed": 0}
    for k, stage in enumerate(scn["stages"]):
        node = w.setup(k, stage)
        if node.exc is not None:
            if empty_step(w, stage):
                return info             # nothing to be done in one of the steps: the setup says so
            raise Violation("setup-failed", f"setup of {stage} fails with {node.exc[0]}: {node.exc[1]}\n"
                                            f"{node.exc[2][-1500:]}")
        if empty_step(w, stage):
            raise Violation("setup-empty", f"a step of {stage} has nothing to do, but the setup does not say so")
        if not one_round(w, stage, doomed, info):
            return info
        w.done.update(stage)
        if scn["grow"] and k == len(scn["stages"]) - 1 and not doomed:
            if scn["grow"] == "change":         # the runs were done again: same names, other results
                w.write(lambda r: r["index"] % 5 == 0, 7)
            else:
                w.write(lambda r: r["index"] % 5)
            w.version += 1
            w.refs.append(w.reference())
            again = ["1"] + [x for x in "234F" if x in w.steps()] if len(scn["stages"]) == 1 else None
            if again is None:
                w.setup(k + 1, w.steps())
                again = w.steps()
            if not one_round(w, again, doomed, info):
                return info
    info["busy"] = w.slurm.busy
    return info


def empty_step(w, stage):
    return w.scn["drop"] and any(not w.products(x) for x in stage)


def one_round(w, stage, doomed, info):
    """Submit until all steps are through; False if they cannot be."""
    scn, sim = w.scn, w.sim
    budget = 2 + len(scn["kills"]) + len(scn["errors"]) + len(scn["sh"]) + len(scn["sbatch_fail"])
    for attempt in range(budget):
        fired = sum(sim.fired.values())
        jobs = w.submit()
        info["submissions"] += 1
        verdict = after(w, stage, jobs, doomed)
        if verdict == "done":
            return True
        info["failed"] += 1
        if doomed and verdict == "doomed":
            return False
        if sum(sim.fired.values()) == fired and not scn["sbatch_fail"]:
            raise Violation("no-progress", f"without faults, the steps {stage} do not come to their end")
    raise Violation("no-progress", f"after {budget} submissions, the steps {stage} have not come to their end")


def after(w, stage, jobs, doomed):
    """Judge everything after one submission has come to rest."""
    scn, sim = w.scn, w.sim
    hit = {f["node"] for f in sim.faults if f.get("used")}
    mine = {}
    for j in jobs:
        mine.setdefault(step_of(j), []).append(j)
    # no task fails on its own
    for j in jobs:
        st = step_of(j)
        for t, n in j["nodes"].items():
            if n.exc is not None and n.name not in hit and not j.get("shfault") and not (doomed and st == "step_1"):
                raise Violation("task-failed", f"task {t} of {st} ({n.name}) met no fault but ended with {n.exc[0]}: "
                                               f"{n.exc[1]}\n{n.exc[2][-1200:]}")
    check_logs(w, jobs)
    stopped = None
    for x in stage:
        st = f"step_{x}"
        js = mine.get(st, [])
        ok = len(js) == 1 and js[0].get("success") is True
        prods = w.products(x)
        if stopped is None and ok:
            for p, kind, how in prods:
                c = w.content(p)
                m = w.differs(c, w.refs[w.version][p])
                if m:
                    raise Violation("product", f"after {st} has ended well, {rel(w, p)}: {m}")
                if kind == "copy" and not same_bytes(p, how):
                    raise Violation("product", f"{rel(w, p)} is no copy of {rel(w, how)}")
                w.state[p] = w.version
            continue
        if stopped is None:
            stopped = x
            allowed = True
            if not any(j["nodes"] for j in js) and not scn["sbatch_fail"]:
                raise Violation("blocked", f"all steps before {st} have ended well, but it was never started")
            nbad = sum(1 for j in js for n in j["nodes"].values() if not n.ok) if js else 0
        else:
            allowed = False
            for j in js:
                if j["nodes"]:
                    raise Violation("order", f"{st} has started although step_{stopped} has not ended well")
        moved = 0
        for p, kind, how in prods:
            c = w.content(p)
            old = w.state.get(p)
            if allowed and w.differs(c, w.refs[w.version][p]) is None:
                w.state[p] = w.version
                continue
            moved += 1
            if c is None:
                if old not in (None, "broken") and not allowed:
                    raise Violation("lost", f"{rel(w, p)} has gone although {st} has not started")
                w.state[p] = None
            elif isinstance(c, str):
                if not allowed and old != "broken":
                    raise Violation("lost", f"{rel(w, p)} got broken although {st} has not started")
                if not w.check_refused(p):
                    raise Violation("incomplete", f"the incomplete {rel(w, p)} can be loaded without complaint")
                w.state[p] = "broken"
            else:
                if old not in (None, "broken") and w.differs(c, w.refs[old][p]) is None:
                    continue
                raise Violation("incomplete", f"after {st} " + ("was interrupted" if allowed else "was not started")
                                + f", {rel(w, p)} can be read but is neither the old nor the new product: "
                                + str(w.differs(c, w.refs[w.version][p])))
        if allowed and js and moved > nbad and len(js[0]["nodes"]) == len(js[0]["tasks"] or [None]) \
                and not (doomed and x == "1"):
            raise Violation("product", f"{nbad} tasks of {st} failed, but {moved} products are missing or old")
    # products of steps that are not part of this stage are not touched
    for x in w.steps():
        if x in stage:
            continue
        for p, kind, how in w.products(x):
            old = w.state.get(p)
            if old not in (None, "broken") and w.differs(w.content(p), w.refs[old][p]):
                raise Violation("lost", f"{rel(w, p)} has changed although step_{x} was not requested")
    if stopped is None:
        check_group(w, jobs)
        extra = check_sub(w, jobs)
        return "done" if extra else "again"
    if doomed and stopped == "1":
        return "doomed"
    return "again"


def check_sub(w, jobs):
    """Plots, checks and clean-up jobs: true if none of them has failed."""
    return all(j.get("success") for j in jobs)


def check_group(w, jobs):
    if not w.scn["group"]:
        return
    for j in jobs:
        f = w.slurm.rec(j, None) + ".chgrp"
        if not os.path.exists(f):
            continue
        with open(f, "rb") as h:
            calls = h.read().decode().split("--END--\0")[:-1]
        roots = []
        for c in calls:
            a = c.split("\0")[:-1]
            if len(a) > 2 and any(x.startswith("-") and "R" in x for x in a):
                roots.append(os.path.realpath(os.path.join(j["dir"], a[-1])))
        for x in w.steps():
            for p, kind, how in w.products(x):
                if w.state.get(p) == w.version and made_here(w, p, jobs, x):
                    q = os.path.realpath(p)
                    if not any(q == r or q.startswith(r + "/") for r in roots):
                        raise Violation("group", f"{rel(w, p)} was made by the pipeline but does not get the group")


def made_here(w, p, jobs, x):
    return any(step_of(j) == f"step_{x}" for j in jobs)


def check_logs(w, jobs):
    """What a task has printed is still in a log, in its own or in the combined one."""
    for j in jobs:
        for t, n in j["nodes"].items():
            log = j.get("logs", {}).get(t)
            text = w.sim.output(n.name).replace(w.sim.root, "$").strip()
            if not log or not text or not os.path.isdir(os.path.dirname(log)):
                continue
            d = os.path.dirname(log)
            for f in sorted(os.listdir(d)):
                with open(os.path.join(d, f), errors="replace") as h:
                    if text in h.read():
                        break
            else:
                raise Violation("log-lost", f"what task {t} of {step_of(j)} printed is in no file of {rel(w, d)} "
                                            f"({sorted(os.listdir(d))})")


def config(c):
    try:
        d = ast.literal_eval(json.loads(c["config"]))
        return {k: v for k, v in d.items() if k not in ("description",)}
    except Exception:
        return c["config"]


def same_bytes(a, b):
    with open(a, "rb") as f, open(b, "rb") as g:
        return f.read() == g.read()


def rel(w, p):
    return posixpath.relpath(p, w.work)


def nontrivial(scn, res):
    return bool(res.get("fired")) or bool(scn["missing"]) or bool(scn["grow"]) or res.get("busy", 0) > 0

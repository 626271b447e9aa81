"""C07: killed jobs can be rescued into the same complete population."""
import os
import sys

from .. import kernel, pop
from ..kernel import Violation
from ..slurm import Slurm
from .c01 import must_succeed

PROP = "C07"
QUICK = {"runs": 400, "wall": 80}
THOROUGH = {"runs": 20000, "wall": 3400}
KEEP = set()
SHRINK_INT = {"n": 1, "size": 1, "sched_seed": 0, "list_seed": 0}
SHRINK_TO = {"sbatch_fail": [], "cwd": "run", "limit": None, "plans": {}}
RULE = ("one case = one population run through set-up, job array, kills, check/rescue rounds and merge; "
        "non-trivial if at least one job was killed or failed; distinct by event log and scenario")
COMPONENTS = {
    "real": ["bin/posydon-popsyn (setup, check, rescue)", "generated run/merge/SLURM/submit scripts (real shell)",
             "BinaryPopulation", "Population reader", "pandas/PyTables/HDF5", "file system (scratch)"],
    "stub": ["SLURM scheduler (sbatch recorder, array, dependencies)", "evolution steps (scripted)",
             "user answers"]}
ASSUMPTIONS = ["process death, not power loss", "a cancelled dependency (afterok) never starts its job",
               "the user answers the questions of the tool and creates a batch folder when told that it is missing"]
MAX_ROUNDS = 5


def preload():
    pop.preload()
    import posydon.CLI.popsyn.check
    import posydon.CLI.popsyn.setup


KILL_AT = [["*", 4], ["*", 30], ["*", 80], ["*", 160], ["step", 6], ["h5.append", 10], ["h5.close", 3],
           ["fs.rename", 1], ["fs.remove", 3], ["h5.create", 8], ["h5.open_w", 3], ["fs.mkdir", 1]]


def gen_kills(rng, njobs, size, prob):
    kills = []
    for j in range(njobs):
        for t in list(range(size)) + [-1]:
            if rng.random() < prob:
                cls, hi = rng.choice(KILL_AT)
                kills.append([j, t, cls, rng.randint(1, hi)])
    return kills


def gen(rng):
    mets = rng.choice([[1.0], [0.45], [1.0, 0.1], [0.0001, 2.0]])
    size = rng.choice([1, 2, 2, 3, 4])
    if rng.random() < 0.05:
        mets, size = [1.0], 12
    n = size + rng.randint(0, 4)
    faulty = rng.choice([2, 2, 4, 6]) * len(mets)
    scn = {"mets": mets, "size": size, "n": n, "dump_rate": rng.choice([1, 2, 100]),
           "optimize_ram": rng.random() < 0.8, "ram": 4.0 if rng.random() < 0.2 else None,
           "plans": pop.gen_plans(rng, n, p_slow=0.02, maxsteps=2),
           "default_plan": {"steps": [{}]}, "kills": gen_kills(rng, faulty, size, rng.choice([0.2, 0.4, 0.7])),
           "errors": [], "sbatch_fail": [], "limit": rng.choice([None, None, 1, 2]),
           "answers": rng.choice(["submit", "submit", "later"]), "cwd": rng.choice(["run", "run", "parent", "abs"]),
           "cmd": rng.choice(["check", "check", "check", "rescue"]),
           "concurrent": rng.choice([1, 2, 4]), "mem": [1, 0, 1],
           "sched_seed": rng.randrange(1 << 30), "list_seed": rng.randrange(1 << 30),
           "sticky": rng.choice([0.3, 0.9])}
    if rng.random() < 0.2:
        scn["sbatch_fail"] = sorted(rng.sample(range(1, 9), rng.randint(1, 2)))
    if rng.random() < 0.3:
        for j in range(2 * len(mets)):
            t = rng.randrange(size + 1) - 1
            cls, do = rng.choice([["h5.append", "eio"], ["h5.open_r", "eio"], ["h5.close", "torn"],
                                  ["h5.create", "enospc"], ["h5.read", "eio"]])
            scn["errors"].append([j, t, cls, rng.randint(1, 8), do])
    return scn


def directed():
    base = {"mets": [1.0], "size": 3, "n": 5, "dump_rate": 1, "optimize_ram": True, "ram": None, "plans": {},
            "default_plan": {"steps": [{}, {}]}, "kills": [], "errors": [], "sbatch_fail": [], "limit": None,
            "answers": "submit", "cwd": "run", "cmd": "check", "concurrent": 3, "mem": [],
            "sched_seed": 1, "list_seed": 1, "sticky": 0.5}
    out = [base]
    out.append(dict(base, kills=[[0, 1, "step", 2], [2, 1, "h5.append", 2]]))
    out.append(dict(base, kills=[[0, 2, "step", 1]], cwd="parent"))
    out.append(dict(base, kills=[[1, -1, "h5.append", 4]], cwd="abs"))
    # one metallicity lacks its merge, the other one a rank
    out.append(dict(base, mets=[1.0, 0.1], kills=[[1, -1, "h5.append", 3], [2, 0, "step", 1]], size=2))
    out.append(dict(base, size=1, n=1, kills=[[0, 0, "h5.append", 1], [1, -1, "*", 2]]))
    out.append(dict(base, optimize_ram=False, kills=[[0, 0, "h5.append", 2], [0, 1, "h5.close", 1]]))
    out.append(dict(base, size=12, n=14, kills=[[0, 1, "step", 1], [0, 10, "h5.append", 1], [0, 11, "h5.close", 1]]))
    # nothing ever started
    out.append(dict(base, kills=[[0, t, "fs.open_r", 1] for t in range(3)]))
    return out


def valid(s):
    return s["n"] >= s["size"] >= 1 and len(s["mets"]) >= 1


def opts(scn):
    return {"optimize_ram": scn["optimize_ram"], "breakdown_to_df": True, "dump_rate": scn["dump_rate"],
            "ram_per_cpu": scn["ram"], "metallicities": scn["mets"], "number_of_binaries": scn["n"]}


def cli(argv):
    """Run the real command-line script."""
    path = os.path.join(os.environ.get("SIM_REPO", "/repo"), "bin", "posydon-popsyn")
    with kernel_open(path) as f:
        text = f.read()
    sys.argv = ["posydon-popsyn"] + argv
    exec(compile(text, path, "exec"), {"__name__": "__main__"})


def kernel_open(path):
    from .. import seams
    return seams.real["open"](path)


PASSED = "All checks passed successfully"


class World:
    """One run folder, its SLURM, and a user."""

    def __init__(self, scn, sim):
        self.scn, self.sim = scn, sim
        self.ledger = pop.Ledger(sim)
        self.run = os.path.join(sim.root, "home", "run one" if scn.get("space") else "run1")
        os.makedirs(self.run)
        text = pop.ini_text(opts(scn)).replace("[step_SN]\n", "[step_SN]\n  use_interp_values = False\n")
        with open(os.path.join(self.run, "pop.ini"), "w") as f:
            f.write(text)
        hooks = pop.hooks_for(scn)
        self.slurm = Slurm(sim, scn, hooks)
        self.slurm.fail_submissions(scn.get("sbatch_fail", []))
        self.k = 0

    def setup(self):
        a = ["setup", "pop.ini", f"--job_array={self.scn['size']}"]
        if self.scn.get("limit"):
            a.append(f"--max_concurrent_jobs={self.scn['limit']}")
        node = self.sim.solo("setup", lambda: cli(a), cwd=self.run)
        must_succeed(node, "posydon-popsyn setup", self.sim)

    def submit(self, script="slurm_submit.sh"):
        rc, out = self.slurm.shell(f"sh {script}", self.run)
        return out

    def check(self, answers=None):
        """One invocation of the check command by the user; returns (node, text)."""
        self.k += 1
        answers = answers or self.scn["answers"]
        cwd, folder = {"run": (self.run, "."), "parent": (os.path.dirname(self.run), os.path.basename(self.run)),
                       "abs": (self.sim.root, self.run)}[self.scn["cwd"]]
        asked = []

        def reply(prompt):
            asked.append(prompt)
            p = prompt.lower()
            if "submit the rescue scripts now" in p:
                return "yes" if answers == "submit" else "no"
            if "index" in p:
                return "0"
            return "no" if answers == "no" else "yes"
        hooks = dict(self.slurm.node_hooks(), input=reply)
        name = f"check{self.k}"
        node = self.sim.solo(name, lambda: cli([self.scn.get("cmd", "check"), folder]), cwd=cwd, hooks=hooks)
        text = self.sim.output(name)
        return node, text

    def popfile(self, met):
        from posydon.utils.common_functions import convert_metallicity_to_string as zs
        return os.path.join(self.run, zs(met) + "_Zsun_population.h5")

    def batches(self, met):
        from posydon.utils.common_functions import convert_metallicity_to_string as zs
        return os.path.join(self.run, zs(met) + "_Zsun_batches")

    def follow(self, text):
        """What the user does by hand after reading the output of the check."""
        did = False
        if "batch folders are missing" in text.lower() or "NO BATCH DIR" in text:
            for met in self.scn["mets"]:
                if not os.path.exists(self.batches(met)) and not os.path.exists(self.popfile(met)):
                    os.makedirs(self.batches(met))
                    did = True
        elif "sh resubmit_slurm.sh" in text and self.scn["answers"] == "later":
            self.submit("resubmit_slurm.sh")
            did = True
        return did

    def met_of(self, job):
        """Index of the metallicity a job works on, from its command line."""
        for line in job["body"]:
            if line.startswith("srun"):
                return self.scn["mets"].index(float(line.split()[-1]))


def run(scn, sim):
    w = World(scn, sim)
    w.setup()
    w.submit()
    w.slurm.run_all(scn["concurrent"])
    passed = False
    quiet = 0
    rounds = 0
    limit = MAX_ROUNDS + len(scn["kills"]) + len(scn["errors"]) + len(scn["sbatch_fail"])
    for rounds in range(1, limit + 1):
        fired = sum(sim.fired.get(k, 0) for k in sim.fired if k.startswith(("kill@", "eio@", "torn@", "enospc@")))
        node, text = w.check()
        if PASSED in text:
            passed = True
            break
        if node.exc is not None:
            raise Violation("check-crashed", f"{node.exc[0]}: {node.exc[1]}\n{node.exc[2][-1200:]}")
        w.follow(text)
        w.slurm.run_all(scn["concurrent"])
        after = sum(sim.fired.get(k, 0) for k in sim.fired if k.startswith(("kill@", "eio@", "torn@", "enospc@")))
        quiet = quiet + 1 if after == fired else 0
        if quiet >= MAX_ROUNDS:
            break
    if not passed:
        raise Violation("not-rescued", f"after {rounds} rounds, {quiet} of them without faults, the check does not "
                                       f"pass; last output:\n{text[-1500:]}")
    # a job that met no fault itself ends well, whatever happened to other jobs
    hit = {f["node"] for f in sim.faults if f.get("used")}
    for j, t in w.slurm.started:
        node = w.slurm.jobs[j]["nodes"][t]
        if node.exc is not None and node.name not in hit and (t is not None or not scn["errors"]):
            raise Violation("job-failed", f"{'merge' if t is None else f'rank {t}'} ({node.name}) met no fault but "
                                          f"ended with {node.exc[0]}: {node.exc[1]}\n{node.exc[2][-1200:]}")
    # who produced each rank's result; nothing that had completed was run again
    done = {}
    for j, t in w.slurm.started:
        job = w.slurm.jobs[j]
        if t is None:
            continue
        met = w.met_of(job)
        node = job["nodes"][t]
        if (met, t) in done:
            raise Violation("rerun-of-completed", f"rank {t} of metallicity {scn['mets'][met]} had completed in "
                                                  f"{done[(met, t)]} and was run again in {node.name}")
        if node.ok:
            done[(met, t)] = node.name
    shares = {}
    for (p, i) in w.ledger.rec:
        pass
    for mi, met in enumerate(scn["mets"]):
        # index share of a rank: identical in all its attempts (a prefix of it when killed)
        full = {}
        for j, t in w.slurm.started:
            job = w.slurm.jobs[j]
            if t is not None and w.met_of(job) == mi:
                full.setdefault(t, []).append((job["nodes"][t], [i for (p, i) in w.ledger.rec
                                                                 if p == job["nodes"][t].name]))
        for t, att in full.items():
            longest = max((x for _, x in att), key=len)
            for nd, x in att:
                if x != longest[:len(x)]:
                    raise Violation("other-share", f"rank {t} evolved {longest} and, in another attempt, {x}")
        names = {done[(mi, t)] for t in range(scn["size"]) if (mi, t) in done}
        # a rank killed after its result was in place also counts
        truth = {}
        for t, att in full.items():
            nd = next((n_ for n_, x in att if n_.ok), att[-1][0])
            for (p, i), recs in w.ledger.rec.items():
                if p == nd.name:
                    if i in truth:
                        raise Violation("index-evolved-twice", f"binary {i} belongs to two ranks")
                    truth[i] = recs
        pop.check_population(w.popfile(met), range(scn["n"]), truth, scn["plans"], scn["default_plan"], met=met)
    return {"rounds": rounds, "jobs": len(w.slurm.jobs), "tasks": len(w.slurm.started)}


def nontrivial(scn, res):
    return any(k.startswith(("kill@", "eio@", "torn@", "enospc@")) for k in res.get("fired", {}))

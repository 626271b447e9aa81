"""C03: a failing binary is recorded as failed and disturbs no other binary."""
import os

from .. import pop
from ..kernel import Violation
from .c01 import must_succeed, run_merge, run_rank
from .c02 import same_frames

PROP = "C03"
QUICK = {"runs": 500, "wall": 70}
THOROUGH = {"runs": 20000, "wall": 3000}
SHRINK_INT = {"n": 1, "size": 1, "list_seed": 0, "sched_seed": 0}
SHRINK_TO = {"history_verbose": False, "layout": "serial", "single_frac": 1.0, "err_verbose": False,
             "warn_verbose": False}
RULE = ("one case = one population in which scripted binaries fail, warn or run out of time, and the "
        "same population with those binaries evolving cleanly; non-trivial if at least one binary "
        "failed or warned and at least one did not")
COMPONENTS = {
    "real": ["BinaryPopulation", "BinaryStar.evolve", "set_binary_to_failed", "Catch_POSYDON_Warnings",
             "PopulationManager", "combine_saved_files", "pandas/PyTables/HDF5"],
    "stub": ["evolution steps and flow (scripted)", "memory reading", "SLURM environment",
             "clock and alarm"]}
ASSUMPTIONS = ["scripted steps draw no random numbers, so the clean twin has the same streams",
               "errors are exceptions a caller may catch (not SystemExit or KeyboardInterrupt)"]


def preload():
    pop.preload()


def gen(rng):
    layout = rng.choice(["serial", "serial", "serial", "array"])
    n = rng.choice([2, 3, 4, 5, 7, 9])
    size = rng.randint(2, 3) if layout == "array" else 1
    n = max(n, size)
    ram = 4.0 if rng.random() < 0.3 else None
    return {"layout": layout, "n": n, "size": size, "met": 1.0,
            "optimize_ram": rng.random() < 0.7, "breakdown": layout == "array" or rng.random() < 0.6,
            "dump_rate": rng.choice([1, 2, 3, 1000]), "ram": ram,
            "mem": [rng.randint(0, 1) for _ in range(4)] if ram else [],
            "single_frac": rng.choice([1.0, 0.6]), "history_verbose": rng.random() < 0.2,
            "err_verbose": rng.random() < 0.3, "warn_verbose": rng.random() < 0.3,
            "entropy": rng.randrange(1, 10 ** 6),
            "plans": pop.gen_plans(rng, n, p_fail=0.4, p_warn=0.3, p_slow=0.2, p_loop=0.05),
            "default_plan": {"steps": [{}, {}]}, "list_seed": rng.randrange(1 << 30),
            "sched_seed": rng.randrange(1 << 30)}


def directed():
    from .. import fakesteps
    base = {"layout": "serial", "n": 4, "size": 1, "met": 1.0, "optimize_ram": True,
            "breakdown": True, "dump_rate": 2, "ram": None, "mem": [], "single_frac": 1.0,
            "history_verbose": False, "err_verbose": False, "warn_verbose": False, "entropy": 9,
            "default_plan": {"steps": [{}, {}]}, "list_seed": 1, "sched_seed": 1}
    out = []
    for j in range(0, len(fakesteps.EXC_KINDS), 2):
        kinds = fakesteps.EXC_KINDS[j:j + 2]
        out.append(dict(base, plans={"0": {"steps": [{"exc": kinds[0]}]},
                                     "2": {"steps": [{}, {"exc": kinds[-1], "warn": 1}]}}))
    out.append(dict(base, plans={"0": {"steps": [{"dur": 121.0}]}, "2": {"steps": [{}, {"dur": 1e6}]},
                                 "1": {"steps": [{"dur": 119.0}, {"dur": 119.0}]}}))
    out.append(dict(base, plans={"1": {"steps": [{}], "loop": True}}))
    out.append(dict(base, plans={"1": {"steps": [{"warn": 1, "samewarn": True}, {}]},
                                 "3": {"steps": [{"warn": 2, "samewarn": True}, {}]}}))
    return out


def valid(s):
    return s["n"] >= s["size"] >= 1


def clean(plan):
    """The same binary without failure (its own warnings stay)."""
    steps = []
    for st in plan.get("steps", []):
        st = {k: v for k, v in st.items() if k not in ("exc",)}
        if st.get("dur", 0) > pop.STEP_LIMIT:
            st["dur"] = 1.0
        if st.get("event") in ("nowhere", "badstep"):
            del st["event"]
        steps.append(st)
    return {"steps": steps}


def run(scn, sim):
    from posydon.utils.common_functions import convert_metallicity_to_string
    ledger = pop.Ledger(sim)
    met, n, size = scn["met"], scn["n"], scn["size"]
    final = convert_metallicity_to_string(met) + "_Zsun_population.h5"
    outs = []
    twin = {k: clean(v) for k, v in scn["plans"].items()}
    for tag, plans in (("a", scn["plans"]), ("b", twin)):
        root = os.path.join(sim.root, tag)
        os.makedirs(root)
        with open(os.path.join(root, "pop.ini"), "w") as f:
            f.write(pop.ini_text({
                "optimize_ram": scn["optimize_ram"], "ram_per_cpu": scn["ram"],
                "dump_rate": scn["dump_rate"], "breakdown_to_df": scn["breakdown"],
                "metallicities": [met], "history_verbose": scn["history_verbose"],
                "number_of_binaries": n, "binary_fraction_const": scn["single_frac"],
                "error_checking_verbose": scn["err_verbose"],
                "warnings_verbose": scn["warn_verbose"],
                "entropy": scn["entropy"] if scn["layout"] == "serial" else None}))
        hooks = pop.hooks_for({**scn, "plans": plans})
        if scn["layout"] == "serial":
            def body():
                from posydon.popsyn.binarypopulation import BinaryPopulation
                p = BinaryPopulation.from_ini("pop.ini")
                p.evolve()
                p.save(final)
            node = sim.solo(f"{tag}0", body, cwd=root, hooks=hooks)
            must_succeed(node, "population run", sim)
            names = {f"{tag}0"}
        else:
            def env(r):
                return {"SLURM_ARRAY_JOB_ID": "77", "SLURM_ARRAY_TASK_ID": str(r),
                        "SLURM_ARRAY_TASK_MIN": "0", "SLURM_ARRAY_TASK_COUNT": str(size)}
            nodes = [sim.spawn(f"{tag}{r}", lambda: run_rank("pop.ini", met), cwd=root, env=env(r),
                               hooks=hooks) for r in range(size)]
            sim.run()
            for nd in nodes:
                must_succeed(nd, nd.name, sim)
            names = {nd.name for nd in nodes}
            node = sim.solo(f"{tag}m", lambda: run_merge("pop.ini", met), cwd=root, env=env(0),
                            hooks=hooks)
            must_succeed(node, "merge", sim)
        truth = pop.truth_of(ledger, names)
        t = pop.check_population(os.path.join(root, final), list(range(n)), truth, plans,
                                 scn["default_plan"], verbose=scn["history_verbose"], met=met,
                                 order=list(range(n)))
        outs.append(t)
    failed = [i for i in range(n) if pop.outcome(scn["plans"].get(str(i), scn["default_plan"]))[1]]
    ok = [i for i in range(n) if i not in failed]
    for k in ("oneline", "history"):
        a, b = outs[0][k], outs[1][k]
        same_frames(a[a.index.isin(ok)], b[b.index.isin(ok)],
                    f"{k} of the other binaries with and without failures",
                    skip=("step_times", "step_times_i", "step_times_f"))
    # nothing stays armed: the process idles long after the population without being interrupted
    return {"binaries": n, "failed": len(failed),
            "warned": sum(pop.outcome(p)[2] for p in scn["plans"].values())}


def nontrivial(scn, res):
    i = res.get("info", {})
    return 0 < i.get("failed", 0) < i.get("binaries", 0) or i.get("warned", 0) > 0

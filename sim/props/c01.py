"""C01: every requested binary appears exactly once in the population file."""
import os

from .. import fakesteps, kernel, pop
from ..kernel import Violation

PROP = "C01"
QUICK = {"runs": 400, "wall": 75}
THOROUGH = {"runs": 20000, "wall": 3000}
KEEP = {"metallicities"}
SHRINK_INT = {"n": 1, "size": 1, "sched_seed": 0, "list_seed": 0}
SHRINK_TO = {"mem": [], "attempts": {}, "ram": None, "history_verbose": False}
RULE = ("one case = one simulated population run (ranks interleaved by the scheduler, dumps, "
        "memory pressure, killed attempts, merge); non-trivial if at least two binaries were "
        "evolved and a file was combined; distinct by event log and scenario")
COMPONENTS = {
    "real": ["BinaryPopulation", "PopulationManager", "BinaryGenerator", "BinaryStar.evolve",
             "SimulationProperties", "PopulationRunner", "ini parsing", "merge script text of the CLI",
             "pandas/PyTables/HDF5", "file system (scratch)"],
    "stub": ["evolution steps and flow (scripted)", "SLURM environment", "mpi4py communicator",
             "memory reading", "clock and alarm"]}
ASSUMPTIONS = ["process death, not power loss: what a process had written to the file system before "
               "being killed survives", "scripted steps stand for arbitrary physics steps"]


def preload():
    pop.preload()


def gen(rng):
    mode = rng.choice(["serial", "runner", "array", "array", "array", "mpi", "mpi"])
    n = rng.choice([1, 2, 3, 5, 8, 11, 12, 17])
    size = rng.randint(1, min(5, n)) if mode in ("array", "mpi") else 1
    if mode in ("array", "mpi") and rng.random() < 0.12:
        size = n + rng.randint(1, 2)
    elif mode in ("array", "mpi") and rng.random() < 0.06:
        size = rng.choice([11, 12, 13])
        n = size + rng.choice([0, 2, 11])
    ram = 4.0 if rng.random() < 0.5 else None
    scn = {
        "mode": mode, "n": n, "size": size,
        "dump_rate": rng.choice([1, 2, 3, 4, 7, 2000]),
        "ram": ram, "mem": [rng.randint(0, 1) for _ in range(rng.randint(1, 6))] if ram else [],
        "optimize_ram": rng.random() < 0.8, "breakdown": rng.random() < 0.6,
        "history_verbose": rng.random() < 0.2,
        "met": rng.choice([1.0, 0.1, 2.0, 0.45, 0.0001]),
        "single_frac": rng.choice([1.0, 1.0, 0.5]),
        "entropy": rng.randrange(1, 10 ** 6),
        "offset": rng.choice([0, 0, 1, 5]),
        "plans": pop.gen_plans(rng, n),
        "default_plan": {"steps": [{}]},
        "sched_seed": rng.randrange(1 << 30), "list_seed": rng.randrange(1 << 30),
        "sticky": rng.choice([0.0, 0.5, 0.9]),
        "attempts": {}, "merge": rng.choice(["script", "save", "runner"]),
        "indices": None,
    }
    if mode == "serial" and rng.random() < 0.4:
        idx = sorted(rng.sample(range(40), n))
        if rng.random() < 0.5:
            rng.shuffle(idx)
        scn["indices"] = idx
        scn["plans"] = pop.gen_plans(rng, n, indices=idx)
    if mode == "mpi" and rng.random() < 0.5:
        # the script of the documentation, maybe on top of what an earlier run left behind
        scn["via"] = "runner"
        scn["optimize_ram"] = True
        scn["merge"] = "runner"
        scn["stale"] = rng.random() < 0.4
    if mode in ("array", "mpi") and not scn["optimize_ram"]:
        # documented: with neither option a rank keeps its binaries in memory only
        scn["breakdown"] = True
    if mode == "array":
        # earlier attempts of a rank, killed at some event, before the attempt that completes
        for r in range(size):
            if rng.random() < 0.35:
                scn["attempts"][str(r)] = [rng.choice([
                    ["*", rng.randint(1, 60)], ["*", rng.randint(1, 120)],
                    ["fs.remove", rng.randint(1, 3)], ["fs.rename", 1],
                    ["h5.close", rng.randint(1, 4)], ["h5.append", rng.randint(1, 12)],
                    ["h5.open_w", rng.randint(1, 4)], ["h5.open_r", rng.randint(1, 6)],
                    ["step", rng.randint(1, 12)]])]
        if rng.random() < 0.6:
            scn["mem2"] = [rng.randint(0, 1) for _ in range(rng.randint(1, 6))]
    return scn


def directed():
    base = {"mode": "array", "n": 6, "size": 2, "dump_rate": 2, "ram": 4.0, "mem": [1, 0],
            "optimize_ram": True, "breakdown": True, "history_verbose": False, "met": 1.0,
            "single_frac": 1.0, "entropy": 5, "offset": 0, "plans": {}, "merge": "script",
            "default_plan": {"steps": [{}, {}]}, "sched_seed": 1, "list_seed": 1, "sticky": 0.5,
            "attempts": {}, "indices": None}
    out = []
    # attempt killed at every phase of a rank's life, with another memory pattern later
    for k in (12, 20, 30, 40, 60):
        out.append(dict(base, attempts={"1": [["*", k]]}, mem2=[0, 0]))
    out.append(dict(base, attempts={"0": [["fs.remove", 1]], "1": [["fs.rename", 1]]}))
    # more ranks than binaries
    out.append(dict(base, n=2, size=3))
    out.append(dict(base, mode="mpi", n=2, size=3, merge="save"))
    for k in range(3):
        out.append(dict(base, mode="mpi", size=3, via="runner", merge="runner", stale=k > 0, sched_seed=k, sticky=0.45 * k))
    # ranks whose numbers end with the number of another rank
    for k in range(4):
        out.append(dict(base, n=26, size=13, sched_seed=k, dump_rate=1, ram=None, mem=[], sticky=0.9 * (k % 2),
                        default_plan={"steps": [{}]}))
    # a dump exactly at the last binary; a single binary
    out.append(dict(base, mode="serial", n=5, size=1, dump_rate=4, ram=None, mem=[]))
    out.append(dict(base, mode="runner", n=1, size=1, dump_rate=1, ram=None, mem=[]))
    return out


def valid(s):
    if s["mode"] in ("array", "mpi") and not (s["optimize_ram"] or s["breakdown"]):
        return False
    return s["n"] >= 1 and s["size"] >= 1 and (s["indices"] is None or len(s["indices"]) == s["n"])


def opts(scn):
    return {"optimize_ram": scn["optimize_ram"] if scn["mode"] != "runner" else True,
            "ram_per_cpu": scn["ram"], "dump_rate": scn["dump_rate"],
            "breakdown_to_df": scn["breakdown"], "metallicities": [scn["met"]],
            "history_verbose": scn["history_verbose"], "number_of_binaries": scn["n"],
            "binary_fraction_const": scn["single_frac"],
            "entropy": scn["entropy"] if scn["mode"] != "array" else None,
            "use_MPI": scn["mode"] == "mpi"}


def run_rank(ini, met):
    """What the run script of the command-line tool does."""
    import sys

    from posydon.CLI.io import create_run_script_text
    code = compile(create_run_script_text(ini), "run_metallicity.py", "exec")
    sys.argv = ["run_metallicity.py", str(met)]
    exec(code, {"__name__": "__main__"})


def run_merge(ini, met):
    import sys

    from posydon.CLI.io import create_merge_script_text
    code = compile(create_merge_script_text(ini), "merge_metallicity.py", "exec")
    sys.argv = ["merge_metallicity.py", str(met)]
    exec(code, {"__name__": "__main__"})


def must_succeed(node, what, sim):
    if not node.ok:
        raise Violation("run-crashed", f"{what} ended with {node.exc and node.exc[:2]} "
                                       f"(state {node.state})\n{(node.exc or ['', '', ''])[2][-1500:]}")


def run(scn, sim, more=None, check=None, prelude=None):
    from posydon.utils.common_functions import convert_metallicity_to_string
    root = sim.root
    ledger = pop.Ledger(sim)
    ini = os.path.join(root, "pop.ini")
    with open(ini, "w") as f:
        f.write(pop.ini_text({**opts(scn), **(more or {})}))
    n, size, met, mode = scn["n"], scn["size"], scn["met"], scn["mode"]
    requested = scn["indices"] if scn["indices"] is not None else list(range(n))
    out = os.path.join(root, "final.h5")
    hooks = pop.hooks_for(scn)
    if mode == "serial":
        def body():
            from posydon.popsyn.binarypopulation import BinaryPopulation
            if prelude:
                prelude()
            p = BinaryPopulation.from_ini("pop.ini")
            kw = {} if scn["indices"] is None else {"indices": scn["indices"]}
            kw.update(optimize_ram=scn["optimize_ram"], breakdown_to_df=scn["breakdown"])
            p.evolve(**kw)
            p.save("final.h5")
        node = sim.solo("serial", body, cwd=root, hooks=hooks)
        must_succeed(node, "serial run", sim)
        names = ["serial"]
        order = requested
    elif mode == "runner":
        def body():
            from posydon.popsyn.synthetic_population import PopulationRunner
            if prelude:
                prelude()
            PopulationRunner("pop.ini").evolve()
        node = sim.solo("runner", body, cwd=root, hooks=hooks)
        must_succeed(node, "population runner", sim)
        out = os.path.join(root, convert_metallicity_to_string(met) + "_Zsun_population.h5")
        names = ["runner"]
        order = requested
    else:
        def rank_env(r):
            return {"SLURM_ARRAY_JOB_ID": "4242", "SLURM_ARRAY_TASK_ID": str(r + scn["offset"]),
                    "SLURM_ARRAY_TASK_MIN": str(scn["offset"]), "SLURM_ARRAY_TASK_COUNT": str(size)}

        def body(r):
            def go():
                if mode == "mpi":
                    pop.install_fake_mpi(r, size)
                if scn.get("via") == "runner":
                    from posydon.popsyn.synthetic_population import PopulationRunner
                    PopulationRunner("pop.ini").evolve(**({"overwrite": True} if scn.get("stale") else {}))
                else:
                    run_rank("pop.ini", met)
            return go
        pop.World(sim, size)
        if scn.get("stale"):
            old = os.path.join(root, convert_metallicity_to_string(met) + "_Zsun_batches")
            os.makedirs(old)
            for f in ("evolution.combined.0.h5", f"evolution.combined.{size}.h5", "1_evolution.batch.0"):
                with open(os.path.join(old, f), "wb") as fh:
                    fh.write(b"of an earlier run")
        # killed earlier attempts
        if mode == "array":
            kill_at = []
            for r, lst in sorted(scn["attempts"].items()):
                if int(r) < size:
                    for a, (cls, k) in enumerate(lst):
                        nm = f"rank{r}a{a}"
                        kill_at.append(nm)
                        sim.faults.append({"node": nm, "cls": cls, "n": k, "do": "kill"})
            for nm in kill_at:
                r = int(nm[4:].split("a")[0])
                h = dict(hooks)
                if "mem2" in scn:
                    h["rss"] = pop.mem_hook(scn["mem2"], scn["ram"] or 4.0)
                node = sim.spawn(nm, body(r), cwd=root, env=rank_env(r), hooks=h)
                sim.run()
                if node.ok:
                    # it finished before its kill point: that is then the rank's result,
                    # unless it is simply run again (which must be harmless)
                    sim.count_probe("attempt_completed")
                else:
                    if node.state != "killed":
                        must_succeed(node, f"rank {r} (attempt)", sim)
                    sim.count_probe("attempt_killed")
        names = []
        for r in range(size):
            nm = f"rank{r}"
            names.append(nm)
            sim.spawn(nm, body(r), cwd=root, env=rank_env(r) if mode == "array" else None,
                      hooks=hooks)
        sim.run()
        for node in sim.nodes:
            if node.name in names:
                must_succeed(node, node.name, sim)
        shares = {}
        for r in range(size):
            got = sorted(ledger.indices(f"rank{r}"))
            shares[r] = got
        flat = sorted(i for s in shares.values() for i in s)
        if flat != sorted(requested):
            raise Violation("rank-shares", f"ranks evolved {shares}, requested {requested}")

        def merge():
            if scn["merge"] == "script" or mode == "mpi" and scn["merge"] != "save" and not scn.get("via"):
                if mode == "mpi":
                    pop.install_fake_mpi(0, size)
                run_merge("pop.ini", met)
            else:
                from posydon.popsyn.binarypopulation import BinaryPopulation
                from posydon.popsyn.io import binarypop_kwargs_from_ini
                if mode == "mpi":
                    pop.install_fake_mpi(0, 1 if scn.get("via") else size)
                kw = binarypop_kwargs_from_ini("pop.ini")
                kw["metallicity"] = met
                kw["temp_directory"] = convert_metallicity_to_string(met) + "_Zsun_" + kw["temp_directory"]
                if scn["merge"] == "save":
                    p = BinaryPopulation(**kw)
                    p.save(convert_metallicity_to_string(met) + "_Zsun_population.h5")
                else:
                    from posydon.popsyn.synthetic_population import PopulationRunner
                    rn = PopulationRunner("pop.ini")
                    rn.merge_parallel_runs(rn.binary_populations[0])
        node = sim.solo("merge", merge, cwd=root, env=rank_env(0) if mode == "array" else None,
                        hooks=hooks)
        must_succeed(node, "merge", sim)
        out = os.path.join(root, convert_metallicity_to_string(met) + "_Zsun_population.h5")
        order = None
    truth = pop.truth_of(ledger, set(names))
    pop.check_population(out, requested, truth, scn["plans"], scn["default_plan"],
                         verbose=scn["history_verbose"], met=met, order=order)
    # history lengths as the reader reports them
    def read():
        from posydon.popsyn.synthetic_population import Population
        p = Population(out)
        hl = p.history_lengths
        return ({int(i): int(v) for i, v in zip(hl.index, hl["length"])},
                int(p.number_of_systems), len(p.history), len(p.oneline), list(map(int, p.indices)))
    node = sim.solo("reader", read, cwd=root)
    must_succeed(node, "reading the population", sim)
    hl, nsys, nh, no, idx = node.result
    exp = {i: len(pop.expected_rows(truth[i], scn["plans"].get(str(i), scn["default_plan"]),
                                    scn["history_verbose"])[0]) for i in requested}
    if hl != exp:
        raise Violation("history-lengths", f"reported {hl}, true {exp}")
    if nsys != n or no != n or nh != sum(exp.values()) or sorted(idx) != sorted(requested):
        raise Violation("totals", f"systems {nsys}, oneline {no}, history {nh} for {n} binaries "
                                  f"with {sum(exp.values())} rows; indices {idx}")
    # nothing temporary left
    left = []
    for d, _, fs in os.walk(root):
        left += [os.path.relpath(os.path.join(d, f), root) for f in fs]
    left = [f for f in left if f not in ("pop.ini", "given.csv", os.path.relpath(out, root))]
    if left and not scn["attempts"] and (scn["optimize_ram"] or mode != "serial"):
        raise Violation("leftover-files", f"left behind: {sorted(left)}")
    if check:
        check(truth, out)
    return {"binaries": n, "ranks": size, "failed": sum(pop.outcome(scn["plans"].get(
        str(i), scn["default_plan"]))[1] for i in requested)}


def nontrivial(scn, res):
    return scn["n"] >= 2 and res.get("events", 0) > 20

"""C02: dump and memory settings never change population results."""
import os

import numpy as np
import pandas as pd

from .. import pop
from ..kernel import Violation
from .c01 import must_succeed, run_merge, run_rank

PROP = "C02"
QUICK = {"runs": 400, "wall": 75}
THOROUGH = {"runs": 20000, "wall": 3000}
SHRINK_INT = {"n": 1, "size": 1, "list_seed": 0, "sched_seed": 0}
SHRINK_TO = {"history_verbose": False, "layout": "serial", "single_frac": 1.0}
RULE = ("one case = the same population evolved under two to four different dump/memory settings; "
        "non-trivial if at least two binaries and at least one setting that dumped")
COMPONENTS = {
    "real": ["BinaryPopulation", "PopulationManager", "BinaryGenerator", "BinaryStar.evolve",
             "to_df/to_oneline_df", "combine_saved_files", "PopulationRunner", "merge script of the CLI",
             "pandas/PyTables/HDF5"],
    "stub": ["evolution steps and flow (scripted)", "memory reading", "SLURM environment",
             "clock and alarm"]}
ASSUMPTIONS = ["settings differ only in dump interval, RAM mode, conversion and memory reading; "
               "recorded option values and wall-clock step times are not part of the comparison"]
OPTION_COLS = {"optimize_ram", "dump_rate", "ram_per_cpu", "breakdown_to_df", "temp_directory"}


def preload():
    pop.preload()


def gen_cfg(rng, parallel):
    c = {"optimize_ram": rng.random() < 0.8, "breakdown": rng.random() < 0.5,
         "dump_rate": rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 1000]), "ram": None, "mem": [],
         "how": rng.choice(["pop", "pop", "runner"]) if not parallel else "rank"}
    if c["optimize_ram"] and rng.random() < 0.5:
        c["ram"] = rng.choice([2.0, 4.0, 8.0])
        c["mem"] = [rng.randint(0, 1) for _ in range(rng.randint(1, 8))]
    if parallel and not c["optimize_ram"]:
        c["breakdown"] = True
    return c


def gen(rng):
    layout = rng.choice(["serial", "serial", "serial", "array"])
    n = rng.choice([1, 2, 3, 4, 6, 7, 9, 10, 13])
    size = rng.randint(2, 3) if layout == "array" else 1
    n = max(n, size)
    ref = {"optimize_ram": False, "breakdown": layout == "array", "dump_rate": 1000, "ram": None,
           "mem": [], "how": "rank" if layout == "array" else "pop"}
    return {"layout": layout, "n": n, "size": size, "met": rng.choice([1.0, 0.45]),
            "single_frac": rng.choice([1.0, 0.6, 0.0]), "history_verbose": rng.random() < 0.2,
            "entropy": rng.randrange(1, 10 ** 6), "plans": pop.gen_plans(rng, n, p_fail=0.2),
            "default_plan": {"steps": [{}]}, "list_seed": rng.randrange(1 << 30),
            "sched_seed": rng.randrange(1 << 30),
            "configs": [ref] + [gen_cfg(rng, layout == "array")
                                for _ in range(rng.randint(1, 2 if layout == "array" else 3))]}


def directed():
    base = {"layout": "serial", "n": 5, "size": 1, "met": 1.0, "single_frac": 0.6,
            "history_verbose": False, "entropy": 3, "default_plan": {"steps": [{}, {}]},
            "list_seed": 1, "sched_seed": 1,
            "plans": {"0": {"steps": [{"exc": "ValueError"}]}, "4": {"steps": [{}, {"exc": "KeyError"}]},
                      "2": {"steps": [{"warn": 1}, {}]}}}
    ref = {"optimize_ram": False, "breakdown": False, "dump_rate": 1000, "ram": None, "mem": [],
           "how": "pop"}
    d = dict(ref, optimize_ram=True)
    return [
        dict(base, configs=[ref, dict(d, dump_rate=1), dict(d, dump_rate=2, breakdown=True)]),
        dict(base, configs=[ref, dict(d, ram=4.0, mem=[1]), dict(d, ram=4.0, mem=[0, 1], breakdown=True)]),
        dict(base, configs=[ref, dict(d, ram=4.0, mem=[0]), dict(d, dump_rate=4, how="runner")]),
        dict(base, configs=[ref, dict(ref, breakdown=True)], n=1),
    ]


def valid(s):
    return len(s["configs"]) >= 2 and s["n"] >= s["size"] >= 1


def opts(scn, cfg):
    return {"optimize_ram": cfg["optimize_ram"], "ram_per_cpu": cfg["ram"],
            "dump_rate": cfg["dump_rate"], "breakdown_to_df": cfg["breakdown"],
            "metallicities": [scn["met"]], "history_verbose": scn["history_verbose"],
            "number_of_binaries": scn["n"], "binary_fraction_const": scn["single_frac"],
            "entropy": scn["entropy"] if scn["layout"] == "serial" else None}


def same_frames(a, b, what, skip=(), tol=()):
    if list(a.columns) != list(b.columns):
        raise Violation("columns-differ", f"{what}: columns differ: only first "
                                          f"{[c for c in a if c not in b.columns]}, only second "
                                          f"{[c for c in b if c not in a.columns]}, or their order")
    if len(a) != len(b):
        raise Violation("rows-differ", f"{what}: {len(a)} rows against {len(b)} rows")
    if list(a.index) != list(b.index):
        raise Violation("index-differs", f"{what}: index {list(a.index)} against {list(b.index)}")
    for c in a.columns:
        if c in skip:
            continue
        va, vb = a[c].to_list(), b[c].to_list()
        for i, (x, y) in enumerate(zip(va, vb)):
            if c in tol:
                if not pop.close(float(x), float(y)):
                    raise Violation("value-differs", f"{what}: {c}: {x!r} against {y!r}")
            elif not pop.same(x, y):
                raise Violation("value-differs", f"{what}: binary {a.index[i]}, row {i}, column {c}: "
                                                 f"{x!r} against {y!r}")


def run(scn, sim):
    from posydon.utils.common_functions import convert_metallicity_to_string
    tables = []
    met, n, size = scn["met"], scn["n"], scn["size"]
    final = convert_metallicity_to_string(met) + "_Zsun_population.h5"
    dumps = 0
    for ci, cfg in enumerate(scn["configs"]):
        root = os.path.join(sim.root, f"c{ci}")
        os.makedirs(root)
        with open(os.path.join(root, "pop.ini"), "w") as f:
            f.write(pop.ini_text(opts(scn, cfg)))
        hooks = pop.hooks_for({**scn, "mem": cfg["mem"], "ram": cfg["ram"]})
        hooks.pop("rec")
        if scn["layout"] == "serial":
            def body(cfg=cfg):
                if cfg["how"] == "runner":
                    from posydon.popsyn.synthetic_population import PopulationRunner
                    PopulationRunner("pop.ini").evolve()
                else:
                    from posydon.popsyn.binarypopulation import BinaryPopulation
                    from posydon.popsyn.io import binarypop_kwargs_from_ini
                    from posydon.binary_evol.simulationproperties import SimulationProperties
                    kw = binarypop_kwargs_from_ini("pop.ini")
                    kw["metallicity"] = met
                    p = BinaryPopulation(population_properties=SimulationProperties.from_ini("pop.ini"),
                                         **kw)
                    p.evolve()
                    p.save(final)
            node = sim.solo(f"c{ci}", body, cwd=root, hooks=hooks)
            must_succeed(node, f"run with {cfg}", sim)
        else:
            def env(r):
                return {"SLURM_ARRAY_JOB_ID": "77", "SLURM_ARRAY_TASK_ID": str(r),
                        "SLURM_ARRAY_TASK_MIN": "0", "SLURM_ARRAY_TASK_COUNT": str(size)}
            nodes = [sim.spawn(f"c{ci}r{r}", lambda: run_rank("pop.ini", met), cwd=root, env=env(r),
                               hooks=hooks) for r in range(size)]
            sim.run()
            for nd in nodes:
                must_succeed(nd, f"rank with {cfg}", sim)
            node = sim.solo(f"c{ci}m", lambda: run_merge("pop.ini", met), cwd=root, env=env(0),
                            hooks=hooks)
            must_succeed(node, f"merge with {cfg}", sim)
        dumps += sum(1 for l in sim.log if "_evolution.batch" in l and "h5.open_w" in l)
        tables.append(pop.read_pop(os.path.join(root, final)))
    ref = tables[0]
    for ci, t in enumerate(tables[1:], 1):
        lab = f"settings {scn['configs'][0]} against {scn['configs'][ci]}"
        for k in ("oneline", "history"):
            same_frames(ref[k], t[k], f"{k}, {lab}",
                        skip=("step_times", "step_times_i", "step_times_f"))
        same_frames(ref["mass_per_metallicity"], t["mass_per_metallicity"], f"totals, {lab}",
                    tol=("simulated_mass", "simulated_mass_single", "simulated_mass_binaries",
                         "number_of_systems"))
        same_frames(ref["ini_parameters"], t["ini_parameters"], f"parameters, {lab}",
                    skip=OPTION_COLS)
    return {"binaries": n, "settings": len(tables), "dumps": dumps}


def nontrivial(scn, res):
    return scn["n"] >= 2 and res.get("info", {}).get("dumps", 0) > 0

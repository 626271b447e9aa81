"""C22: populations started from given binaries evolve exactly those binaries."""
import math
import os
import random

from .. import pop
from ..kernel import Violation
from . import c01
from .c01 import must_succeed

PROP = "C22"
QUICK = {"runs": 400, "wall": 70}
THOROUGH = {"runs": 20000, "wall": 3000}
KEEP = {"cols"}
SHRINK_INT = {"n": 1, "size": 1, "sched_seed": 0, "list_seed": 0}
SHRINK_TO = {"mem": [], "attempts": {}, "ram": None, "history_verbose": False, "earlier": 0}
RULE = ("one case = one population whose initial binaries are given (a file of samples, or the binaries of a stored "
        "population started again), evolved by any number of ranks with dumps, memory pressure and killed attempts; "
        "non-trivial if at least two binaries were evolved; distinct by event log and scenario")
COMPONENTS = {
    "real": ["posydon.popsyn.sample_from_file", "BinaryGenerator", "BinaryPopulation (evolve, save, from_hdf)",
             "PopulationManager", "BinaryStar/SingleStar (from_df, from_oneline_df, restore, evolve)",
             "SimulationProperties and its hooks", "run and merge script text of the CLI", "pandas/PyTables/HDF5",
             "file system (scratch)"],
    "stub": ["evolution steps and flow (scripted)", "SLURM environment", "mpi4py communicator", "memory reading",
             "clock and alarm"]}
ASSUMPTIONS = ["process death, not power loss", "scripted steps stand for arbitrary physics steps",
               "a stored population is started again from the columns stored in it"]

NAMES = {
    "m1": ["S1_mass", "primary_mass", "Mass_1", "M_1", "m1"], "m2": ["S2_mass", "secondary_mass", "mass_2", "m_2", "M2"],
    "p": ["orbital_period", "Period", "P_orb", "porb", "p"],
    "a": ["orbital_separation", "separation", "semi-major_axis", "Semi_Major_Axis", "a"],
    "e": ["eccentricity", "ECC", "e"],
}
for _s in (1, 2):
    for _k, _j, _n in (("velocity", 0, "w"), ("azimuthal_angle", 1, "phi"), ("polar_angle", 2, "theta"),
                       ("mean_anomaly", 3, "mean_anomaly")):
        NAMES[f"k{_s}{_j}"] = [f"S{_s}_natal_kick_{_k}", f"s{_s}_natal_kick_array_{_j}", f"{_n}_{_s}", f"{_n}{_s}"]
KICKS = [f"k{s}{j}" for s in (1, 2) for j in range(4)]
COLORDER = ["m1", "m2", "p", "a", "e"] + KICKS
RSUN, MSUN, G = 6.957e10, 1.98847e33, 6.6743e-8


def preload():
    pop.preload()
    import posydon.popsyn.sample_from_file  # noqa: F401


def given(scn):
    """Rows of the file of samples: list of dicts with the columns present."""
    rng = random.Random(scn["file_seed"])
    rows = []
    for r in range(scn["rows"]):
        m1 = round(rng.uniform(8, 100), 3) + r * 1e-6
        d = {"m1": m1, "m2": round(m1 * rng.uniform(0.1, 1), 6), "p": round(rng.uniform(1, 5000), 4) + r * 1e-6,
             "a": round(rng.uniform(10, 5000), 4) + r * 1e-6, "e": round(rng.uniform(0, 0.9), 5)}
        for k in KICKS:
            d[k] = round(rng.uniform(0, 400 if k[2] == "0" else 3), 4)
        if rng.random() < scn["singles"]:
            d["m2"] = None
        if rng.random() < 0.2:
            d[rng.choice(KICKS)] = None
        rows.append(d)
    return rows


def write_csv(scn, path, step=1):
    rows = given(scn)[::step]
    cols = list(scn["cols"])
    head = [NAMES[c][scn["alias"] % len(NAMES[c])] for c in cols] + (["note"] if scn["alias"] % 2 else [])
    with open(path, "w") as f:
        f.write(",".join(head) + "\n")
        for i, r in enumerate(rows):
            v = ["" if r[c] is None else repr(r[c]) for c in cols] + ([f"x{i}"] if scn["alias"] % 2 else [])
            f.write(",".join(v) + "\n")
    return rows


def gen(rng):
    s = c01.gen(rng)
    s["kind"] = rng.choice(["file", "file", "again"])
    s["rows"] = rng.choice([1, 2, 3, 5, 8, 20, 40])
    s["file_seed"] = rng.randrange(1 << 30)
    s["alias"] = rng.randrange(5)
    s["singles"] = rng.choice([0, 0, 0.3, 1.0])
    s["scheme"] = rng.choice(["period", "separation"])
    cols = list(COLORDER)
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 6)):
            c = rng.choice(cols)
            if len(cols) > 1:
                cols.remove(c)
    if rng.random() < 0.5:
        rng.shuffle(cols)
    s["cols"] = cols
    s["ecc"] = rng.choice(["zero", "uniform", "thermal"])
    s["earlier"] = rng.choice([0, 0, 1, 5, -1])    # rows of another file of this name, used before in the same
    # process; -1: the same rows in another order
    if s["kind"] == "again":
        if s["mode"] == "runner":
            s["mode"] = "serial"
        s["src_file"] = rng.random() < 0.4
        ids = s["indices"] or list(range(s["n"]))
        k = rng.randint(1, len(ids))
        s["again"] = rng.sample(ids, k)
        if rng.random() < 0.5:
            s["again"] = sorted(s["again"])
        s["size"] = min(s["size"], 4)
        s["plans2"] = pop.gen_plans(rng, 0, indices=s["again"]) if rng.random() < 0.7 else {}
        s["src_breakdown"] = rng.random() < 0.5
        s["rounds"] = rng.choice([1, 1, 2])
        s["attempts"] = {}
        if s["mode"] == "array" and rng.random() < 0.4:
            s["attempts"] = {"0": [["*", rng.randint(5, 80)]]}
    return s


def directed():
    rng = random.Random(4)
    out = []
    for mode in ("serial", "runner", "array", "mpi"):
        for scheme in ("period", "separation"):
            s = c01.directed()[0]
            s.update(mode=mode, n=7, size=3 if mode in ("array", "mpi") else 1, attempts={}, ram=None, mem=[], kind="file",
                     rows=3, file_seed=rng.randrange(1 << 30), alias=len(out) % 5, singles=0.3, scheme=scheme,
                     cols=list(COLORDER), ecc="zero", earlier=[2, -1, 0][len(out) % 3], default_plan={"steps": [{}, {"event": "CC1"}, {}]})
            out.append(s)
    base = out[0]
    for mode in ("serial", "array", "mpi"):
        for br in (False, True):
            out.append(dict(base, kind="again", mode=mode, size=2 if mode != "serial" else 1, n=6, src_file=br, again=[4, 0, 3],
                            plans={}, plans2={"3": {"steps": [{"event": "redirect_x"}, {"exc": "ValueError"}]},
                                              "0": {"steps": [{}] * 5}},
                            src_breakdown=br, breakdown=not br or mode != "serial", rounds=2,
                            default_plan={"steps": [{}, {"event": "CC1"}, {}]}))
    return out


def valid(s):
    if not c01.valid(s) or not s["cols"] or s["rows"] < 1:
        return False
    if s["kind"] == "again":
        ids = s["indices"] or list(range(s["n"]))
        if not s["again"] or any(i not in ids for i in s["again"]) or len(set(s["again"])) != len(s["again"]):
            return False
        if s["mode"] == "runner":
            return False
    return True


def file_opts(scn):
    return {"read_samples_from_file": "given.csv", "orbital_scheme": scn["scheme"], "eccentricity_scheme": scn["ecc"]}


def period(a, m1, m2):
    return 2 * math.pi * math.sqrt((a * RSUN) ** 3 / (G * (m1 + m2) * MSUN)) / 86400.0


def check_rows(scn, rows, truth, out):
    """Every binary started from its own row of the file."""
    import pandas as pd
    with pd.HDFStore(out, mode="r") as st:
        one = st.select("oneline")
    cols = set(scn["cols"])
    for i, recs in sorted(truth.items()):
        init = next(s for k, s in recs if k == "init")
        row = rows[i % len(rows)]
        single = "m2" in cols and row["m2"] is None
        where = f"binary {i} (row {i % len(rows)} of the file)"

        def need(what, got, want, rel=1e-12, none=False):
            if want is None and (got is None or got != got and not none):
                return
            if got is None or want is None or got != got or abs(got - want) > rel * abs(want):
                raise Violation("wrong-start", f"{where}: {what} is {got!r}, the file says {want!r}")
        if "m1" in cols:
            need("primary mass", init["S1_mass"], row["m1"])
        if single:
            if init["state"] != "initially_single_star":
                raise Violation("wrong-start", f"{where}: no secondary in the file, but state {init['state']}")
            need("orbital period", init["orbital_period"], None)
        elif "m2" in cols:
            if init["state"] != "detached":
                raise Violation("wrong-start", f"{where}: a binary in the file, but state {init['state']}")
            need("secondary mass", init["S2_mass"], row["m2"])
        if not single:
            if "e" in cols:
                need("eccentricity", init["eccentricity"], row["e"])
            elif scn["ecc"] == "zero":
                need("eccentricity", init["eccentricity"], 0.0)
            if scn["scheme"] == "period" and "p" in cols:
                need("orbital period", init["orbital_period"], row["p"])
            if scn["scheme"] == "separation" and "a" in cols:
                need("orbital period", init["orbital_period"],
                     period(row["a"], init["S1_mass"], init["S2_mass"]), 1e-3)
        for j, k in enumerate(KICKS):
            if single and k[1] == "2":
                continue
            # a kick that is not given must not be set: NaN counts as set
            need(f"kick component {k}", init["~kicks"][j], row[k] if k in cols else None, none=True)
        if init["event"] != "ZAMS":
            raise Violation("wrong-start", f"{where}: starts with event {init['event']}")
        v = one.loc[i]["S1_natal_kick_velocity"]
        need("stored kick velocity", None if v is None or v != v or v == "None" else float(v),
             row["k10"] if "k10" in cols else None)


def run(scn, sim):
    if scn["kind"] == "file":
        rows = write_csv(scn, os.path.join(sim.root, "given.csv"))
        before = open(os.path.join(sim.root, "given.csv")).read()

        def prelude():
            from posydon.popsyn.binarypopulation import BinaryPopulation
            if scn["earlier"] < 0:
                write_csv(scn, "given.csv", -1)
            else:
                write_csv({**scn, "rows": scn["earlier"], "file_seed": scn["file_seed"] + 1, "cols": list(COLORDER)},
                          "given.csv")
            p = BinaryPopulation.from_ini("pop.ini")
            for i in range(2):
                p.manager.generate(index=i, **p.kwargs)
            write_csv(scn, "given.csv")
        info = c01.run(scn, sim, more=file_opts(scn), check=lambda t, out: check_rows(scn, rows, t, out),
                       prelude=prelude if scn.get("earlier") else None)
        if open(os.path.join(sim.root, "given.csv")).read() != before:
            raise Violation("input-changed", "the file of samples was changed")
        return info
    return run_again(scn, sim)


def digest(path):
    import hashlib
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def run_again(scn, sim):
    root = sim.root
    ledger = pop.Ledger(sim)
    opts = c01.opts(scn)
    opts["use_MPI"] = False
    if scn["src_file"]:
        write_csv(scn, os.path.join(root, "given.csv"))
        opts.update(file_opts(scn))
    with open(os.path.join(root, "pop.ini"), "w") as f:
        f.write(pop.ini_text(opts))
    n, size, met, mode = scn["n"], scn["size"], scn["met"], scn["mode"]
    ids = scn["indices"] or list(range(n))
    hooks = pop.hooks_for(scn)

    def source():
        from posydon.popsyn.binarypopulation import BinaryPopulation
        p = BinaryPopulation.from_ini("pop.ini")
        p.evolve(indices=ids, optimize_ram=scn["optimize_ram"], breakdown_to_df=scn["src_breakdown"])
        p.save("source0.h5")
    must_succeed(sim.solo("source", source, cwd=root, hooks=hooks), "first evolution", sim)
    first = pop.truth_of(ledger, {"source"})
    pop.check_population(os.path.join(root, "source0.h5"), ids, first, scn["plans"], scn["default_plan"],
                         verbose=scn["history_verbose"], met=met, order=ids)
    again = scn["again"]
    h2 = pop.hooks_for({**scn, "plans": scn["plans2"] or scn["plans"]})
    plans = scn["plans2"] or scn["plans"]
    for rnd in range(scn["rounds"]):
        src = f"source{rnd}.h5"
        out = f"source{rnd + 1}.h5"
        was = digest(os.path.join(root, src))
        names = again_round(scn, sim, rnd, src, out, h2, ids if rnd == 0 else again)
        if digest(os.path.join(root, src)) != was:
            raise Violation("input-changed", f"{src} was changed by starting its binaries again")
        truth = pop.truth_of(ledger, names)
        for i in again:
            if i not in truth:
                raise Violation("not-evolved", f"binary {i} of {src} was asked for, but not evolved")
            a = next(s for k, s in first[i] if k == "init")
            b = next(s for k, s in truth[i] if k == "init")
            for c in a:
                if c[0] not in "=~" and not pop.same(a[c], b[c]):
                    raise Violation("wrong-start", f"binary {i} started again (round {rnd}): {c} is {b[c]!r}, was {a[c]!r}")
            for j in (0, 4):            # the stored component of the kicks
                x, y = a["~kicks"][j], b["~kicks"][j]
                if not (x == y or y is None and x != x):
                    raise Violation("wrong-start", f"binary {i} started again (round {rnd}): kick of star {1 + j // 4} is "
                                                   f"{y!r}, was {x!r}")
        pop.check_population(os.path.join(root, out), again, truth, plans, scn["default_plan"],
                             verbose=scn["history_verbose"], met=met, order=again if mode == "serial" else None)
    return {"binaries": n, "again": len(again), "ranks": size}


def again_round(scn, sim, rnd, src, out, hooks, ids):
    root, mode, size = sim.root, scn["mode"], scn["size"]

    def env(r):
        return {"SLURM_ARRAY_JOB_ID": str(4242 + rnd), "SLURM_ARRAY_TASK_ID": str(r + scn["offset"]),
                "SLURM_ARRAY_TASK_MIN": str(scn["offset"]), "SLURM_ARRAY_TASK_COUNT": str(size)}

    def make(r):
        from posydon.binary_evol.simulationproperties import SimulationProperties
        from posydon.popsyn.binarypopulation import BinaryPopulation
        from posydon.popsyn.io import binarypop_kwargs_from_ini, simprop_kwargs_from_ini
        if mode == "mpi":
            pop.install_fake_mpi(r, size)
        kw = binarypop_kwargs_from_ini("pop.ini")
        kw.update(metallicity=scn["met"], temp_directory=f"again{rnd}", use_MPI=mode == "mpi")
        if mode == "mpi":
            from mpi4py import MPI
            kw["comm"] = MPI.COMM_WORLD
        sp = simprop_kwargs_from_ini("pop.ini")
        return BinaryPopulation(population_properties=SimulationProperties(**sp), file_name=src, **kw)

    def body(r):
        def go():
            p = make(r)
            p.evolve(from_hdf=True, indices=list(scn["again"]), optimize_ram=scn["optimize_ram"],
                     breakdown_to_df=scn["breakdown"])
            if mode == "serial":
                p.save(out)
        return go
    if mode == "serial":
        nm = f"again{rnd}"
        must_succeed(sim.solo(nm, body(0), cwd=root, hooks=hooks), "starting the stored binaries again", sim)
        return {nm}
    if mode == "array" and rnd == 0:
        for r, lst in sorted(scn["attempts"].items()):
            for a, (cls, k) in enumerate(lst):
                if int(r) >= size:
                    continue
                nm = f"again{rnd}.{r}a{a}"
                sim.faults.append({"node": nm, "cls": cls, "n": k, "do": "kill"})
                node = sim.spawn(nm, body(int(r)), cwd=root, env=env(int(r)), hooks=hooks)
                sim.run()
                if node.state != "killed":
                    must_succeed(node, nm, sim)
    names = set()
    for r in range(size):
        nm = f"again{rnd}.{r}"
        names.add(nm)
        sim.spawn(nm, body(r), cwd=root, env=env(r) if mode == "array" else None, hooks=hooks)
    sim.run()
    for node in sim.nodes:
        if node.name in names:
            must_succeed(node, node.name, sim)
    node = sim.solo(f"again{rnd}.merge", lambda: make(0).save(out), cwd=root, env=env(0) if mode == "array" else None,
                    hooks=hooks)
    must_succeed(node, "merge", sim)
    return names


def nontrivial(scn, res):
    return scn["n"] >= 2 and res.get("events", 0) > 20

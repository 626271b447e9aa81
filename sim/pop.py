"""Population-synthesis workloads shared by several properties."""
import json
import math
import os

import numpy as np
import pandas as pd

from . import fakesteps, kernel
from .kernel import Violation

BASE_OPTS = {
    "optimize_ram": True, "ram_per_cpu": None, "dump_rate": 5, "temp_directory": "batches",
    "tqdm": False, "breakdown_to_df": True, "use_MPI": False, "metallicities": [1.0],
    "error_checking_verbose": False, "warnings_verbose": False, "history_verbose": False,
    "entropy": None, "number_of_binaries": 10, "binary_fraction_scheme": "const",
    "binary_fraction_const": 1.0, "star_formation": "burst", "max_simulation_time": 13.8e9,
    "read_samples_from_file": "", "primary_mass_scheme": "Kroupa2001",
    "primary_mass_min": 7.0, "primary_mass_max": 150.0,
    "secondary_mass_scheme": "flat_mass_ratio", "secondary_mass_min": 0.5,
    "secondary_mass_max": 150.0, "orbital_scheme": "period",
    "orbital_period_scheme": "Sana+12_period_extended", "orbital_period_min": 0.75,
    "orbital_period_max": 6000.0, "eccentricity_scheme": "zero",
    "orbital_separation_scheme": "log_uniform", "orbital_separation_min": 5.0,
    "orbital_separation_max": 1.0e5,
}
STEP_NAMES = ["step_HMS_HMS", "step_CO_HeMS", "step_CO_HMS_RLO", "step_CO_HeMS_RLO",
              "step_detached", "step_disrupted", "step_merged", "step_initially_single",
              "step_dco", "step_CE"]


def preload():
    import posydon.binary_evol.simulationproperties as sp
    import posydon.CLI.io
    import posydon.popsyn.binarypopulation
    import posydon.popsyn.synthetic_population
    import posydon.utils.posydonwarning
    sp.SimulationProperties()


def ini_text(opts, hooks=True, steps_module="sim.fakesteps", extra_cols=True):
    o = {**BASE_OPTS, **opts}
    t = "[environment_variables]\n  PATH_TO_POSYDON = '%s'\n" % os.environ["PATH_TO_POSYDON"]
    t += f"[flow]\n  import = ['{steps_module}', 'flow']\n  absolute_import = None\n"
    for s in STEP_NAMES:
        t += f"[{s}]\n  import = ['{steps_module}', 'Scripted_{s}']\n  absolute_import = None\n"
    t += f"[step_SN]\n  import = ['{steps_module}', 'ScriptedSN']\n  absolute_import = None\n"
    t += f"[step_end]\n  import = ['{steps_module}', 'ScriptedEnd']\n  absolute_import = None\n"
    if hooks:
        t += ("[extra_hooks]\n  import_1 = ['posydon.binary_evol.simulationproperties', 'TimingHooks']\n"
              "  absolute_import_1 = None\n  kwargs_1 = {}\n"
              "  import_2 = ['posydon.binary_evol.simulationproperties', 'StepNamesHooks']\n"
              "  absolute_import_2 = None\n  kwargs_2 = {}\n")
        if hooks == "slow":
            t += (f"  import_3 = ['{steps_module}', 'SlowEnd']\n"
                  "  absolute_import_3 = None\n  kwargs_3 = {}\n")
    t += "[grid_paths]\n" + "".join(f"  {g}_path = None\n" for g in (
        "HMS_HMS", "CO_HMS_RLO", "CO_HeMS", "CO_HeMS_RLO", "single_HMS", "single_HeMS"))
    t += "[BinaryPopulation_options]\n"
    for k, v in o.items():
        t += f"  {k} = {v!r}\n"
    t += "[BinaryStar_output]\n"
    if hooks and extra_cols:
        t += "  extra_columns = {'step_names': 'string', 'step_times': 'float64'}\n"
    t += ("  only_select_columns = ['state', 'event', 'time', 'orbital_period', 'eccentricity',"
          " 'lg_mtransfer_rate']\n"
          "  scalar_names = ['interp_class_HMS_HMS', 'mt_history_HMS_HMS']\n")
    for s in (1, 2):
        t += (f"[SingleStar_{s}_output]\n  include_S{s} = True\n"
              "  only_select_columns = ['state', 'mass', 'log_R', 'spin']\n"
              "  scalar_names = ['natal_kick_velocity', 'SN_type', 'f_fb']\n")
    return t


class Ledger:
    """What really happened to each binary, as reported by the scripted steps."""

    def __init__(self, sim):
        self.rec = {}       # (node, index) -> list of (kind, snap)
        sim.on_msg["rec"] = self.on_rec

    def on_rec(self, node, msg):
        self.rec.setdefault((node.meta.get("pop", node.name), msg["index"]), []).append(
            (msg["kind"], msg["snap"]))
        return {"do": "go"}

    def drop(self, popname):
        for k in [k for k in self.rec if k[0] == popname]:
            del self.rec[k]

    def indices(self, popname):
        return [k[1] for k in self.rec if k[0] == popname]


def node_rec(index, kind, snap):
    kernel.NODE.call({"t": "rec", "index": int(index), "kind": kind, "snap": snap})


def plan_hook(plans, default):
    def plan(index):
        return plans.get(str(int(index)), default)
    return plan


def mem_hook(pattern, cap_gb=4.0):
    """Memory-pressure pattern: list of 0/1 (below/above the limit), cycled."""
    state = {"i": 0}

    def rss():
        if not pattern:
            return 0
        v = pattern[state["i"] % len(pattern)]
        state["i"] += 1
        return int((0.99 if v else 0.1) * cap_gb * (1024 ** 3))
    return rss


def hooks_for(scn):
    return {"plan": plan_hook(scn.get("plans", {}), scn.get("default_plan", {"steps": [{}]})),
            "rec": node_rec, "rss": mem_hook(scn.get("mem", []), scn.get("ram", 4.0) or 4.0)}


class FakeComm:
    def __init__(self, rank, size):
        self.rank, self.size = rank, size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def Barrier(self):
        if self.size > 1:
            kernel.NODE.call({"t": "barrier", "rank": self.rank})
    barrier = Barrier

    def bcast(self, obj, root=0):
        if self.size == 1:
            return obj
        return kernel.NODE.call({"t": "bcast", "obj": obj, "root": root, "rank": self.rank})["obj"]


class World:
    """The simulator's side of the collective operations of one MPI run."""

    def __init__(self, sim, size):
        self.sim, self.size, self.waiting = sim, size, []
        sim.on_msg["barrier"] = sim.on_msg["bcast"] = self.collect

    def collect(self, node, msg):
        self.waiting = [w for w in self.waiting if not w[0].finished]
        if len(self.waiting) + 1 < self.size:
            self.waiting.append((node, msg))
            node.state = "recv"
            return None
        self.sim.count_probe("mpi_collective")
        rep = {"do": "go"}
        if msg["t"] == "bcast":
            root = self.waiting + [(node, msg)]
            rep["obj"] = next(m["obj"] for n, m in root if m["rank"] == msg["root"])
        others, self.waiting = self.waiting, []
        for n, _ in others:
            self.sim.reply(n, dict(rep))
        return dict(rep)


def install_fake_mpi(rank, size):
    import sys
    import types
    m = types.ModuleType("mpi4py")
    mpi = types.ModuleType("mpi4py.MPI")
    mpi.COMM_WORLD = FakeComm(rank, size)
    m.MPI = mpi
    sys.modules["mpi4py"] = m
    sys.modules["mpi4py.MPI"] = mpi


# -- plans ---------------------------------------------------------------------
def gen_plans(rng, n, p_fail=0.15, p_warn=0.2, p_slow=0.08, p_loop=0.03, maxsteps=4,
              indices=None):
    plans = {}
    for i in (indices if indices is not None else range(n)):
        steps = [{} for _ in range(rng.randint(1, maxsteps))]
        for s in steps:
            if rng.random() < p_warn:
                s["warn"] = rng.randint(1, 3)
                if rng.random() < 0.5:
                    s["samewarn"] = True
            if rng.random() < 0.05:
                s["pywarn"] = 1
            if rng.random() < 0.3:
                s["dur"] = rng.choice([0.5, 3.0, 60.0, 119.0])
            if rng.random() < 0.1:
                s["event"] = "redirect_x"
        plan = {"steps": steps}
        if rng.random() < p_fail:
            k = rng.randrange(len(steps))
            how = rng.random()
            if how < 0.7:
                steps[k]["exc"] = rng.choice(fakesteps.EXC_KINDS)
            elif how < 0.85 and k + 1 < len(steps):
                steps[k]["event"] = rng.choice(["nowhere", "badstep"])
            else:
                steps[k]["exc"] = "ValueError"
            if "exc" in steps[k] and rng.random() < 0.4:
                steps[k]["mark"] = rng.choice([["ERR", None], ["ERR", "FAILED"], ["merged", "oMerging1"],
                                               [None, "redirect_x"], ["maxtime", "END"], [None, "FAILED"]])
        elif rng.random() < p_slow:
            steps[rng.randrange(len(steps))]["dur"] = rng.choice([120.5, 121.0, 500.0, 1e5])
        elif rng.random() < p_loop:
            plan["loop"] = True
        plans[str(i)] = plan
    return plans


STEP_LIMIT = 120.0       # documented maximum wall time of a step (seconds)
MAX_STEPS = 100          # documented maximum number of steps per binary


def outcome(plan):
    """(number of completed steps, failed?, warned?) that the plan must lead to."""
    steps = plan.get("steps", [])
    loop = plan.get("loop", False)
    k = 0
    warned = False
    while True:
        st = steps[k] if k < len(steps) else (steps[-1] if loop and steps else {})
        if st.get("warn"):
            warned = True
        if st.get("dur", 0) > STEP_LIMIT:
            return k, True, warned
        if st.get("exc"):
            return k, True, warned
        last = k + 1 >= len(steps) and not loop
        k += 1
        if k > MAX_STEPS:
            return k, True, warned
        if last:
            return k, False, warned
        if st.get("event") in ("nowhere", "badstep"):
            return k, True, warned


def expected_rows(records, plan, verbose=False):
    """Reference history of one binary from what its steps reported."""
    n, failed, warned = outcome(plan)
    rows = []
    cur = None
    done = 0
    for kind, snap in records:
        if kind == "init":
            rows.append(dict(snap, step_names="initial_cond"))
            cur = dict(snap)
        elif kind == "mid":
            cur = dict(snap)
        elif kind == "step":
            cur = dict(snap)
            done += 1
            if verbose or "redirect" not in (snap["event"] or ""):
                rows.append(dict(snap))
    if failed:
        cur = dict(cur)
        cur["state"], cur["event"] = "ERR", "FAILED"
        cur["step_names"] = None
        rows.append(cur)
    return rows, failed, warned, done, n


def same(a, b):
    """Scalar equality with NaN == NaN == None."""
    na = a is None or (isinstance(a, float) and math.isnan(a)) or a is pd.NA
    nb = b is None or (isinstance(b, float) and math.isnan(b)) or b is pd.NA
    if na or nb:
        if na and nb:
            return True
        other = b if na else a
        return isinstance(other, str) and other in ("", "nan", "None", "<NA>")
    if isinstance(a, str) or isinstance(b, str):
        return str(a) == str(b)
    return float(a) == float(b)


def close(a, b, rel=1e-9):
    return abs(a - b) <= rel * max(abs(a), abs(b), 1e-300)


def read_pop(path):
    """All tables of a population file."""
    if not os.path.exists(path):
        raise Violation("missing-output", f"population file {os.path.basename(path)} does not exist")
    out = {}
    try:
        with pd.HDFStore(path, mode="r") as st:
            for k in ("history", "oneline", "ini_parameters", "mass_per_metallicity"):
                out[k] = st.select(k) if f"/{k}" in st.keys() else None
    except Exception as e:
        raise Violation("unreadable-output", f"population file {os.path.basename(path)} cannot be "
                                             f"read: {type(e).__name__}: {e}")
    for k, v in out.items():
        if v is None:
            raise Violation("missing-table", f"table {k} missing in {os.path.basename(path)}")
    return out


def check_population(path, requested, truth, plans, default_plan, verbose=False, met=None,
                     order=None, flags=True):
    """The population file holds exactly the reference population.

    ``truth``: index -> records of the (single) evolution that counts.
    ``requested``: iterable of binary indices.
    ``order``: expected order of binaries in the tables (or None: any).
    """
    t = read_pop(path)
    hist, one, mass = t["history"], t["oneline"], t["mass_per_metallicity"]
    requested = [int(i) for i in requested]
    got = [int(i) for i in one.index]
    name = os.path.basename(path)
    if sorted(got) != sorted(requested):
        miss = sorted(set(requested) - set(got))
        extra = sorted(set(got) - set(requested))
        dup = sorted({i for i in got if got.count(i) > 1})
        raise Violation("wrong-binaries", f"{name}: oneline table: missing {miss}, unexpected "
                                          f"{extra}, duplicated {dup}")
    if order is not None and got != [int(i) for i in order]:
        raise Violation("wrong-order", f"{name}: oneline order {got}, expected {list(order)}")
    hidx = [int(i) for i in hist.index]
    # contiguity
    seen = []
    for i in hidx:
        if not seen or seen[-1] != i:
            seen.append(i)
    if len(seen) != len(set(seen)):
        raise Violation("history-not-contiguous", f"{name}: history rows interleaved: {seen}")
    if set(seen) != set(requested):
        raise Violation("wrong-history-binaries",
                        f"{name}: history missing {sorted(set(requested)-set(seen))}, "
                        f"unexpected {sorted(set(seen)-set(requested))}")
    total_s = total_b = 0.0
    pos = 0
    byidx = {}
    cols = {c: hist[c].to_numpy() for c in hist.columns}
    while pos < len(hidx):
        end = pos
        while end < len(hidx) and hidx[end] == hidx[pos]:
            end += 1
        byidx[hidx[pos]] = (pos, end)
        pos = end
    onepos = {i: p for p, i in enumerate(got)}
    onecols = {c: one[c].to_numpy() for c in one.columns}
    for i in requested:
        a, b = byidx[i]
        plan = plans.get(str(i), default_plan)
        if i not in truth:
            raise Violation("phantom-binary", f"{name}: binary {i} stored but was never evolved in "
                                              f"the counted run")
        rows, failed, warned, done, n = expected_rows(truth[i], plan, verbose)
        if done != n:
            raise Violation("wrong-step-count",
                            f"binary {i}: {done} steps completed, its script allows exactly {n}")
        if b - a != len(rows):
            raise Violation("history-length", f"{name}: binary {i} has {b-a} history rows, its "
                                              f"evolution had {len(rows)} "
                                              f"(events {list(cols['event'][a:b])})")
        for k, row in enumerate(rows):
            for c, v in row.items():
                if c in cols and not same(cols[c][a + k], v):
                    raise Violation("history-value", f"{name}: binary {i} row {k} column {c}: "
                                                     f"stored {cols[c][a+k]!r}, was {v!r}")
        tm = [float(x) for x in cols["time"][a:b]]
        if any(y < x for x, y in zip(tm, tm[1:])):
            raise Violation("history-order", f"{name}: binary {i}: times not ordered {tm}")
        p = onepos[i]
        for c, v in rows[0].items():
            if c + "_i" in onecols and not same(onecols[c + "_i"][p], v):
                raise Violation("oneline-value", f"{name}: binary {i} {c}_i: {onecols[c+'_i'][p]!r} != {v!r}")
        for c, v in rows[-1].items():
            if c[0] == "=" and not same(onecols[c[1:]][p], v):
                raise Violation("oneline-value", f"{name}: binary {i} {c[1:]}: {onecols[c[1:]][p]!r} != {v!r}")
            if c + "_f" in onecols and not same(onecols[c + "_f"][p], v):
                raise Violation("oneline-value", f"{name}: binary {i} {c}_f: {onecols[c+'_f'][p]!r} != {v!r}")
        if flags:
            if int(onecols["FAILED"][p]) != int(failed):
                raise Violation("failed-flag", f"{name}: binary {i}: FAILED={onecols['FAILED'][p]}, "
                                               f"evolution {'failed' if failed else 'succeeded'}")
            if int(onecols["WARNING"][p]) != int(warned):
                raise Violation("warning-flag", f"{name}: binary {i}: WARNING={onecols['WARNING'][p]}, "
                                                f"evolution {'issued' if warned else 'issued no'} warnings")
        if met is not None and not same(onecols["metallicity"][p], met):
            raise Violation("metallicity", f"{name}: binary {i}: metallicity {onecols['metallicity'][p]} != {met}")
        m1 = rows[0]["S1_mass"]
        m2 = rows[0]["S2_mass"]
        if rows[0]["state"] == "initially_single_star":
            total_s += m1
        else:
            total_b += m1 + (0.0 if m2 is None or math.isnan(m2) else m2)
    if len(mass) != 1:
        raise Violation("mass-table", f"{name}: {len(mass)} rows in mass_per_metallicity")
    mr = mass.iloc[0]
    if met is not None and not same(mass.index[0], met):
        raise Violation("mass-table", f"{name}: mass row for metallicity {mass.index[0]}, expected {met}")
    if int(mr["number_of_systems"]) != len(requested):
        raise Violation("system-count", f"{name}: number_of_systems={mr['number_of_systems']}, "
                                        f"requested {len(requested)}")
    for c, v in (("simulated_mass_single", total_s), ("simulated_mass_binaries", total_b),
                 ("simulated_mass", total_s + total_b)):
        if not close(float(mr[c]), v):
            raise Violation("mass-total", f"{name}: {c}={mr[c]!r}, sum over binaries {v!r}")
    return t


def truth_of(ledger, popnames):
    """index -> records, from the named runs; an index evolved by two of them is a violation."""
    out = {}
    for (p, i), recs in ledger.rec.items():
        if p in popnames:
            if i in out:
                raise Violation("index-evolved-twice", f"binary {i} evolved by two ranks")
            if sum(1 for k, _ in recs if k == "init") != 1:
                raise Violation("index-evolved-twice", f"binary {i} evolved more than once by {p}")
            out[i] = recs
    return out

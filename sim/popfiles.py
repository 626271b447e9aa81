"""Population files for the analysis properties, made once per check with the real code."""
import os
import random
import shutil
import tempfile

import pandas as pd

from . import pop
from .kernel import Sim

# name -> how it is made
SPECS = {
    "sorted": {"n": 9, "met": 1.0},
    "shuffled": {"idx": [7, 2, 9, 0, 4, 11, 3, 1, 8, 5], "met": 1.0},
    "sparse": {"idx": [40, 3, 17, 5, 29], "met": 0.1},
    "one": {"idx": [6], "met": 1.0},
    "ranks": {"n": 13, "met": 0.1, "size": 11},      # file order 0, 1, 10, 2, ...
    "other": {"n": 6, "met": 2.0},
    "long": {"idx": [5, 0, 3, 8], "met": 0.01, "maxsteps": 22},
}
FILES = {}        # name -> bytes
RAW = {}          # name -> bytes, as written by the population run (no derived table yet)
ERRORS = {}       # name -> why it could not be made


def rank_env(r, size):
    return {"SLURM_ARRAY_JOB_ID": "4242", "SLURM_ARRAY_TASK_ID": str(r), "SLURM_ARRAY_TASK_MIN": "0",
            "SLURM_ARRAY_TASK_COUNT": str(size)}


def _make(name, t, base):
    from posydon.utils.common_functions import convert_metallicity_to_string as zs

    from .props.c01 import run_merge, run_rank
    root, meta = os.path.join(base, "r_" + name), os.path.join(base, "m_" + name)
    os.makedirs(root)
    os.makedirs(meta)
    sim = Sim({"sched_seed": 1, "list_seed": 5}, root, meta)
    sim.on_msg["rec"] = lambda node, msg: {"do": "go"}
    idx = t.get("idx", list(range(t.get("n", 0))))
    rng = random.Random(name)
    plans = pop.gen_plans(rng, 0, p_slow=0, p_loop=0, p_warn=0, maxsteps=t.get("maxsteps", 5), indices=idx)
    for pl in plans.values():
        for st in pl["steps"]:
            st.pop("dur", None)
    hooks = pop.hooks_for({"plans": plans})
    with open(os.path.join(root, "pop.ini"), "w") as f:
        f.write(pop.ini_text({"optimize_ram": True, "dump_rate": 3, "metallicities": [t["met"]],
                              "number_of_binaries": len(idx), "binary_fraction_const": 0.7,
                              "entropy": 11 + len(name)}, extra_cols=t.get("extra", True)))
    try:
        if "size" in t:
            for r in range(t["size"]):
                nd = sim.solo(f"rank{r}", lambda: run_rank("pop.ini", t["met"]), cwd=root,
                              env=rank_env(r, t["size"]), hooks=hooks)
                if not nd.ok:
                    raise RuntimeError(f"rank {r}: {nd.exc}")
            nd = sim.solo("merge", lambda: run_merge("pop.ini", t["met"]), cwd=root, hooks=hooks)
            out = os.path.join(root, zs(t["met"]) + "_Zsun_population.h5")
        else:
            def body():
                from posydon.popsyn.binarypopulation import BinaryPopulation
                p = BinaryPopulation.from_ini("pop.ini")
                p.evolve(indices=idx, optimize_ram=True, breakdown_to_df=True)
                p.save("final.h5")
            nd = sim.solo("serial", body, cwd=root, hooks=hooks)
            out = os.path.join(root, "final.h5")
        if not nd.ok:
            raise RuntimeError(str(nd.exc))
        with open(out, "rb") as f:
            return f.read()
    finally:
        sim.shutdown()


def preload(names=None, cached=False):
    pop.preload()
    base = tempfile.mkdtemp(prefix="posydon-sim-tpl-", dir=os.environ.get("SIM_SCRATCH", "/tmp"))
    try:
        for name, t in SPECS.items():
            if names is None or name in names:
                try:
                    FILES[name] = _make(name, t, base)
                except Exception as e:
                    ERRORS[name] = f"{type(e).__name__}: {e}"
        # a file with two metallicities, and one without metallicity column
        if "sorted" in FILES and "other" in FILES:
            try:
                FILES["two"] = derive_two(base)
            except Exception as e:
                ERRORS["two"] = f"{type(e).__name__}: {e}"
            FILES["nomet"] = derive_nomet(base, "sorted")
            if "two" in FILES:
                FILES["twonomet"] = derive_nomet(base, "two")
                FILES["partial"] = derive_partial(base)
            if "shuffled" in FILES:
                FILES["grb"] = derive_grb(base)
        if cached:
            RAW.update(FILES)
            for name in list(FILES):
                FILES[name] = with_lengths(base, name)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def with_lengths(base, name):
    """The file after it has been opened once, which stores the derived history lengths in it."""
    root, meta = os.path.join(base, "lr_" + name), os.path.join(base, "lm_" + name)
    os.makedirs(root)
    os.makedirs(meta)
    with open(os.path.join(root, "p.h5"), "wb") as f:
        f.write(FILES[name])
    sim = Sim({"sched_seed": 1, "list_seed": 5}, root, meta)

    def body():
        from posydon.popsyn.synthetic_population import Population
        Population("p.h5")
    try:
        nd = sim.solo("open", body, cwd=root)
        if not nd.ok:
            raise RuntimeError(f"cannot open {name}: {nd.exc}")
        with open(os.path.join(root, "p.h5"), "rb") as f:
            return f.read()
    finally:
        sim.shutdown()


def derive_two(base):
    """Tables of two populations in one file, written with plain pandas in interleaved blocks."""
    a, b, out = (os.path.join(base, x) for x in ("a.h5", "b.h5", "two.h5"))
    for p, name in ((a, "shuffled"), (b, "other")):
        with open(p, "wb") as f:
            f.write(FILES[name])
    with pd.HDFStore(a, "r") as x, pd.HDFStore(b, "r") as y, pd.HDFStore(out, "w") as o:
        from posydon.popsyn.binarypopulation import HISTORY_MIN_ITEMSIZE, ONELINE_MIN_ITEMSIZE
        for key, sizes in (("history", HISTORY_MIN_ITEMSIZE), ("oneline", ONELINE_MIN_ITEMSIZE)):
            p, q = x.select(key), y.select(key)
            q.index = q.index + 20
            mi = {k: v for k, v in sizes.items() if k in p.columns}
            ia, ib = list(dict.fromkeys(p.index)), list(dict.fromkeys(q.index))
            blocks = [p.loc[ia[:4]], q.loc[ib[:3]], p.loc[ia[4:]], q.loc[ib[3:]]]
            for blk in blocks:
                o.append(key, blk, min_itemsize=mi)
        o.put("ini_parameters", x["ini_parameters"])
        o.put("mass_per_metallicity", pd.concat([x["mass_per_metallicity"], y["mass_per_metallicity"]]))
    with open(out, "rb") as f:
        return f.read()


def derive_nomet(base, name):
    """A file of an older version: no metallicity column in the oneline table."""
    a, out = os.path.join(base, "na.h5"), os.path.join(base, "nb.h5")
    with open(a, "wb") as f:
        f.write(FILES[name])
    with pd.HDFStore(a, "r") as x, pd.HDFStore(out, "w") as o:
        from posydon.popsyn.binarypopulation import HISTORY_MIN_ITEMSIZE, ONELINE_MIN_ITEMSIZE
        for key, sizes in (("history", HISTORY_MIN_ITEMSIZE), ("oneline", ONELINE_MIN_ITEMSIZE)):
            p = x.select(key)
            if key == "oneline":
                p = p.drop(columns=["metallicity"])
            o.append(key, p, min_itemsize={k: v for k, v in sizes.items() if k in p.columns})
        for key in ("ini_parameters", "mass_per_metallicity"):
            o.put(key, x[key])
    with open(out, "rb") as f:
        return f.read()


def derive_partial(base):
    """A file in which only some binaries have a formation channel (as after appending exports)."""
    out = os.path.join(base, "partial.h5")
    with open(out, "wb") as f:
        f.write(FILES["two"])
    with pd.HDFStore(out, "a") as o:
        idx = [i for i in o.select("oneline").index if i % 3]
        o.append("formation_channels", pd.DataFrame({"channel_debug": [f"ZAMS_x{i}_END" for i in idx],
                                                     "channel": [f"ZAMS_{i}_END" for i in idx]}, index=idx),
                 min_itemsize={"channel_debug": 100, "channel": 100})
    with open(out, "rb") as f:
        return f.read()


def derive_grb(base):
    """A population in which some binaries form a black hole with an accretion disk at their last supernova."""
    a, out = os.path.join(base, "ga.h5"), os.path.join(base, "gb.h5")
    with open(a, "wb") as f:
        f.write(FILES["shuffled"])
    with pd.HDFStore(a, "r") as x, pd.HDFStore(out, "w") as o:
        from posydon.popsyn.binarypopulation import HISTORY_MIN_ITEMSIZE, ONELINE_MIN_ITEMSIZE
        h, n = x.select("history"), x.select("oneline")
        h["S1_state"] = ["H-rich_Core_H_burning" if s == "BH" else s for s in h["S1_state"]]
        h["step_names"] = ["step_detached" if s == "step_SN" else s for s in h["step_names"]]
        h["S1_spin"] = [0.01 * k for k in range(len(h))]
        h["S2_spin"] = [0.02 * k for k in range(len(h))]
        disk = []
        for j, i in enumerate(n.index):
            pos = [k for k, l in enumerate(h.index) if l == i]
            if len(pos) >= 3 and j % 3:
                for k in pos[-2:]:
                    h.iloc[k, h.columns.get_loc("S1_state")] = "BH"
                h.iloc[pos[-2], h.columns.get_loc("step_names")] = "step_SN"
                disk.append(0.1 + j)
            else:
                disk.append(0.0)
        n["S1_m_disk_radiated"] = disk
        n["S2_m_disk_radiated"] = 0.0
        for key, df, sizes in (("history", h, HISTORY_MIN_ITEMSIZE), ("oneline", n, ONELINE_MIN_ITEMSIZE)):
            o.append(key, df, min_itemsize={k: v for k, v in sizes.items() if k in df.columns})
        for key in ("ini_parameters", "mass_per_metallicity"):
            o.put(key, x[key])
    with open(out, "rb") as f:
        return f.read()


def tables(path, keys=("history", "oneline", "mass_per_metallicity", "ini_parameters")):
    with pd.HDFStore(path, "r") as st:
        have = set(st.keys())
        return {k: (st.select(k) if "/" + k in have else None) for k in keys}


def frames_equal(a, b):
    """Same columns, index and values (NaN equal NaN), None or a reason."""
    import numpy as np
    if list(a.columns) != list(b.columns):
        return f"columns {list(a.columns)[:8]} instead of {list(b.columns)[:8]}"
    if [x for x in a.index] != [x for x in b.index]:
        return f"rows {list(a.index)[:20]} instead of {list(b.index)[:20]}"
    for c in range(a.shape[1]):
        for x, y in zip(a.iloc[:, c].tolist(), b.iloc[:, c].tolist()):
            if x is y or x == y:
                continue
            if isinstance(x, float) and isinstance(y, float) and np.isnan(x) and np.isnan(y):
                continue
            return f"column {a.columns[c]}: {x!r} instead of {y!r}"
    return None

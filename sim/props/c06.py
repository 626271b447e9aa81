"""C06: combining batch files never loses or duplicates binaries."""
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from .. import kernel, pop
from ..kernel import Sim, Violation
from .c01 import must_succeed, run_merge, run_rank

PROP = "C06"
QUICK = {"runs": 1500, "wall": 45}
THOROUGH = {"runs": 60000, "wall": 3000}
KEEP = set()
SHRINK_INT = {"sched_seed": 0, "list_seed": 0}
SHRINK_TO = {"old": False, "corrupt": None}
RULE = ("one case = one combination of rank or batch files under a sequence of faults and repetitions; "
        "non-trivial if at least two files were to be combined; distinct by event log and scenario")
COMPONENTS = {
    "real": ["BinaryPopulation.combine_saved_files/save/evolve", "PopulationRunner.merge_parallel_runs",
             "merge and run script text of the CLI", "pandas/PyTables/HDF5", "file system (scratch)"],
    "stub": ["evolution steps (scripted)", "SLURM environment", "disk errors", "process death"]}
ASSUMPTIONS = ["process death, not power loss: what a process had written to the file system before "
               "being killed survives"]
JOB = "4242"
TEMPLATES = {}


def opts(t):
    return {"optimize_ram": True, "dump_rate": t["dump"], "metallicities": [t["met"]],
            "number_of_binaries": t["n"], "binary_fraction_const": 0.6}


SPECS = {"a": {"n": 9, "size": 4, "met": 1.0, "dump": 2}, "b": {"n": 5, "size": 2, "met": 0.1, "dump": 1},
         "c": {"n": 6, "size": 6, "met": 1.0, "dump": 100}}


def rank_env(r, size):
    return {"SLURM_ARRAY_JOB_ID": JOB, "SLURM_ARRAY_TASK_ID": str(r), "SLURM_ARRAY_TASK_MIN": "0",
            "SLURM_ARRAY_TASK_COUNT": str(size)}


def _read(path):
    with pd.HDFStore(path, mode="r") as st:
        return {k: st.select(k) for k in ("history", "oneline", "mass_per_metallicity")}


def preload():
    """Make the rank files once, with the real code."""
    import random
    pop.preload()
    from posydon.utils.common_functions import convert_metallicity_to_string as zs
    for key, t in SPECS.items():
        base = tempfile.mkdtemp(prefix="posydon-sim-tpl-", dir=os.environ.get("SIM_SCRATCH", "/tmp"))
        try:
            root, meta = os.path.join(base, "r"), os.path.join(base, "m")
            os.makedirs(root)
            os.makedirs(meta)
            sim = Sim({"sched_seed": 1}, root, meta)
            sim.on_msg["rec"] = lambda node, msg: {"do": "go"}
            with open(os.path.join(root, "pop.ini"), "w") as f:
                f.write(pop.ini_text(opts(t)))
            plans = pop.gen_plans(random.Random(key), t["n"], p_slow=0)
            scn = {"plans": plans}
            for r in range(t["size"]):
                nd = sim.solo(f"rank{r}", lambda: run_rank("pop.ini", t["met"]), cwd=root,
                              env=rank_env(r, t["size"]), hooks=pop.hooks_for(scn))
                if not nd.ok:
                    TEMPLATES[key] = {"broken": f"rank {r} failed: {nd.exc}"}
                    break
            else:
                d = os.path.join(root, zs(t["met"]) + "_Zsun_batches")
                files = {}
                for f in sorted(os.listdir(d)):
                    with open(os.path.join(d, f), "rb") as g:
                        raw = g.read()
                    files[f] = (raw, _read(os.path.join(d, f)))
                TEMPLATES[key] = {"files": files, "dir": zs(t["met"]) + "_Zsun_batches",
                                  "out": zs(t["met"]) + "_Zsun_population.h5", "plans": plans}
            sim.shutdown()
        finally:
            shutil.rmtree(base, ignore_errors=True)


def gen(rng):
    tk = rng.choice(sorted(SPECS))
    t = SPECS[tk]
    via = rng.choice(["script", "script", "save", "runner", "direct", "evolve", "evolve"])
    ranks = sorted(rng.sample(range(t["size"]), rng.randint(1, t["size"]))) if rng.random() < 0.4 \
        else list(range(t["size"]))
    attempts = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        kind = rng.choice(["kill", "kill", "kill", "err", "err", "full"])
        if kind == "kill":
            c = rng.choice([["*", rng.randint(1, 160)], ["*", rng.randint(1, 60)],
                            ["h5.append", rng.randint(1, 24)], ["h5.close", rng.randint(1, 3)],
                            ["fs.remove", rng.randint(1, 6)], ["fs.rename", 1], ["h5.open_r", rng.randint(1, 12)],
                            ["h5.read", rng.randint(1, 16)], ["h5.create", rng.randint(1, 8)],
                            ["h5.open_w", rng.randint(1, 3)]])
            attempts.append({"cls": c[0], "n": c[1], "do": "kill"})
        elif kind == "err":
            c = rng.choice([["h5.append", rng.randint(1, 24), "eio"], ["h5.open_r", rng.randint(1, 12), "eio"],
                            ["h5.open_r", rng.randint(1, 12), "estale"],
                            ["h5.read", rng.randint(1, 16), "eio"], ["h5.close", rng.randint(1, 3), "torn"],
                            ["h5.open_w", rng.randint(1, 3), "eacces"], ["fs.remove", rng.randint(1, 5), "eacces"],
                            ["fs.rename", 1, "eio"], ["h5.create", rng.randint(1, 8), "enospc"]])
            attempts.append({"cls": c[0], "n": c[1], "do": c[2]})
        else:
            attempts.append({"cls": rng.choice(["h5.append", "h5.create", "h5.close"]),
                             "n": rng.randint(1, 12), "do": "enospc", "sticky": True})
    corrupt = None
    if via != "evolve" and rng.random() < 0.2:
        corrupt = {"file": rng.choice(ranks), "how": rng.choice(["truncate", "empty", "zero_tail", "gone_key"])}
        attempts = attempts[:1] if rng.random() < 0.3 else []
    return {"t": tk, "via": via, "ranks": ranks, "attempts": attempts, "old": rng.random() < 0.2,
            "corrupt": corrupt, "sched_seed": rng.randrange(1 << 30), "list_seed": rng.randrange(1 << 30)}


def directed():
    out = []
    base = {"t": "a", "via": "script", "ranks": [0, 1, 2, 3], "attempts": [], "old": False, "corrupt": None,
            "sched_seed": 1, "list_seed": 3}
    for c in (["h5.append", 7, "kill"], ["h5.read", 5, "eio"], ["h5.append", 9, "eio"], ["h5.close", 1, "torn"],
              ["fs.remove", 2, "kill"]):
        out.append(dict(base, attempts=[{"cls": c[0], "n": c[1], "do": c[2]}]))
        out.append(dict(base, via="evolve", attempts=[{"cls": c[0], "n": c[1] + 3, "do": c[2]}]))
    for v in ("save", "runner", "direct"):
        out.append(dict(base, via=v))
        out.append(dict(base, via=v, corrupt={"file": 2, "how": "truncate"}))
    out.append(dict(base, old=True, attempts=[{"cls": "h5.append", "n": 5, "do": "enospc", "sticky": True}]))
    return out


def valid(s):
    return len(s["ranks"]) >= 1 and (s["corrupt"] is None or s["corrupt"]["file"] in s["ranks"])


def norm(df):
    df = df.drop(columns=[c for c in df.columns if c.startswith("step_times")])
    return df.reset_index().astype(object).where(lambda x: x.notna(), None)


def complete(got, parts):
    """None if the tables ``got`` are exactly the union of ``parts`` (any part order), else why not."""
    one, hist, mass = got["oneline"], got["history"], got["mass_per_metallicity"]
    exp_idx = [i for p in parts for i in p["oneline"].index]
    if sorted(one.index) != sorted(exp_idx):
        return f"oneline holds binaries {sorted(one.index)}, expected {sorted(exp_idx)}"
    n = 0
    for p in parts:
        for i in p["oneline"].index:
            a, b = one.loc[[i]], p["oneline"].loc[[i]]
            common = [c for c in b.columns if c in a.columns]
            if len(common) < len(b.columns):
                return f"columns lost: {sorted(set(b.columns) - set(a.columns))}"
            if not norm(a[common]).equals(norm(b[common])):
                return f"oneline row of binary {i} changed"
            a, b = hist.loc[[i]], p["history"].loc[[i]]
            if not norm(a[list(b.columns)]).equals(norm(b)):
                return f"history of binary {i} changed ({len(a)} rows, expected {len(b)})"
            n += len(b)
    if len(hist) != n:
        return f"{len(hist)} history rows, expected {n}"
    blocks = (pd.Series(hist.index) != pd.Series(hist.index).shift()).sum()
    if blocks != len(exp_idx):
        return "history rows of a binary are not contiguous"
    m = mass.iloc[0]
    em = sum(float(p["mass_per_metallicity"]["simulated_mass"].sum()) for p in parts)
    en = sum(int(p["mass_per_metallicity"]["number_of_systems"].sum()) for p in parts)
    if len(mass) != 1 or int(m["number_of_systems"]) != en or not pop.close(float(m["simulated_mass"]), em):
        return f"totals {dict(m)}, expected {en} systems of mass {em}"
    return None


def run(scn, sim):
    if scn["via"] == "evolve":
        return run_evolve(scn, sim)
    tpl, t = TEMPLATES[scn["t"]], SPECS[scn["t"]]
    if "broken" in tpl:
        raise Violation("run-crashed", tpl["broken"])
    root = sim.root
    d = os.path.join(root, tpl["dir"])
    os.makedirs(d)
    with open(os.path.join(root, "pop.ini"), "w") as f:
        f.write(pop.ini_text(opts(t)))
    names = [f for f in tpl["files"] if int(f.split(".")[2]) in scn["ranks"]]
    parts = [tpl["files"][f][1] for f in names]
    raw = {os.path.join(d, f): tpl["files"][f][0] for f in names}
    for p, b in raw.items():
        with open(p, "wb") as f:
            f.write(b)
    out = os.path.join(root, tpl["out"])
    oldraw = None
    if scn["old"]:
        # an earlier complete population under the final name
        other = TEMPLATES["b" if scn["t"] != "b" else "a"]
        oldraw = next(iter(other["files"].values()))[0]
        with open(out, "wb") as f:
            f.write(oldraw)
    bad = None
    if scn["corrupt"]:
        bad = os.path.join(d, next(f for f in names if int(f.split(".")[2]) == scn["corrupt"]["file"]))
        b = raw[bad]
        how = scn["corrupt"]["how"]
        if how == "gone_key":
            import tables
            with tables.open_file(bad, "a") as h:
                h.remove_node("/oneline", recursive=True)
        else:
            b2 = {"truncate": b[:len(b) // 2], "empty": b"", "zero_tail": b[:len(b) // 2] + bytes(len(b) // 2)}[how]
            with open(bad, "wb") as f:
                f.write(b2)
        sim.count_fault("corrupt_input:" + how)
        with open(bad, "rb") as f:
            badraw = f.read()

    def stat(p):
        try:
            s = os.stat(p)
            return (s.st_size, s.st_mtime_ns, s.st_ino)
        except FileNotFoundError:
            return None

    def output_state():
        """'absent' | 'old' | 'complete' | reason"""
        if not os.path.exists(out):
            return "absent"
        copy = os.path.join(sim.metadir, "probe.h5")
        shutil.copyfile(out, copy)
        if oldraw is not None:
            with open(copy, "rb") as f:
                if f.read() == oldraw:
                    return "old"
        try:
            got = _read(copy)
        except Exception as e:
            return f"unreadable: {type(e).__name__}: {e}"
        return complete(got, parts) or "complete"

    def judge(what, expect_bad=False):
        st = output_state()
        if st not in ("absent", "old", "complete"):
            raise Violation("incomplete-output", f"{what}: under the final name: {st}")
        for p, b in raw.items():
            here = None
            if os.path.exists(p):
                with open(p, "rb") as f:
                    here = f.read()
            want = badraw if (expect_bad and p == bad) else b
            if here != want and st != "complete":
                raise Violation("binaries-lost", f"{what}: {os.path.basename(p)} is "
                                                 f"{'gone' if here is None else 'damaged'} and the output is {st}")
        return st

    watch = {p: stat(p) for p in raw}
    confirmed = [False]

    def invariant():
        if confirmed[0]:
            return
        for p in raw:
            if stat(p) != watch[p]:
                st = output_state()
                if st != "complete":
                    raise Violation("removed-too-early", f"{os.path.basename(p)} was removed or changed while the "
                                                         f"output was {st}")
                confirmed[0] = True
                return

    def body():
        via = scn["via"]
        if via == "script":
            run_merge("pop.ini", t["met"])
            return
        from posydon.popsyn.binarypopulation import BinaryPopulation
        from posydon.popsyn.io import binarypop_kwargs_from_ini
        kw = binarypop_kwargs_from_ini("pop.ini")
        kw["metallicity"] = t["met"]
        kw["temp_directory"] = tpl["dir"]
        if via == "save":
            BinaryPopulation(**kw).save(tpl["out"])
        elif via == "direct":
            fs = [os.path.join(d, f) for f in os.listdir(d) if f.startswith("evolution.combined")]
            BinaryPopulation(**kw).combine_saved_files(os.path.abspath(tpl["out"]), fs)
        else:
            from posydon.popsyn.synthetic_population import PopulationRunner
            rn = PopulationRunner("pop.ini")
            rn.merge_parallel_runs(rn.binary_populations[0])

    def attempt(name, expect_bad=False):
        sim.invariant = invariant
        nd = sim.solo(name, body, cwd=root, env=rank_env(0, t["size"]))
        sim.invariant = None
        st = judge(f"after {name}", expect_bad)
        if nd.ok:
            if scn["via"] == "runner" and scn["old"]:
                raise Violation("overwritten", "existing population file was not protected")
            if st != "complete":
                raise Violation("false-success", f"{name} reported success, output is {st}")
            left = [os.path.basename(p) for p in raw if os.path.exists(p)]
            if left:
                raise Violation("inputs-left", f"combined files were not removed: {left}")
        return nd, st
    st = None
    if bad is not None:
        nd, st = attempt("corrupt", True)
        if nd.ok:
            raise Violation("false-success", "an unreadable input was not reported")
        if st == "complete":
            raise Violation("false-success", "complete although an input is unreadable")
        with open(bad, "wb") as f:
            f.write(raw[bad])
        watch[bad] = stat(bad)
    for k, a in enumerate(scn["attempts"]):
        sim.faults = [dict(a, node=f"try{k}")]
        nd, st = attempt(f"try{k}")
        if st == "complete":
            break
    if st != "complete":
        sim.faults = []
        refuse = scn["via"] == "runner" and scn["old"]
        nd, st = attempt("clean")
        if refuse:
            if nd.ok:
                raise Violation("overwritten", "existing population file was not protected")
            sim.count_probe("refused_existing")
        else:
            must_succeed(nd, "combination without faults", sim)
    return {"files": len(raw), "attempts": len(scn["attempts"]) + 1, "completed_despite_fault": int(st == "complete" and not nd.ok)}


def run_evolve(scn, sim):
    """A rank combining its own batches at the end of its evolution."""
    tpl, t = TEMPLATES[scn["t"]], SPECS[scn["t"]]
    root = sim.root
    rank = scn["ranks"][0]
    ledger = pop.Ledger(sim)
    with open(os.path.join(root, "pop.ini"), "w") as f:
        f.write(pop.ini_text(opts(t)))
    if "broken" in tpl:
        raise Violation("run-crashed", tpl["broken"])
    from posydon.utils.common_functions import convert_metallicity_to_string as zs
    d = os.path.join(root, zs(t["met"]) + "_Zsun_batches")
    out = os.path.join(d, f"evolution.combined.{rank}.h5")
    ref = tpl["files"][f"evolution.combined.{rank}.h5"][1]
    hooks = pop.hooks_for({"plans": tpl["plans"]})

    def stored():
        """Binaries found in readable files of the batch folder, and the output's state."""
        have = {}
        if os.path.isdir(d):
            for f in sorted(os.listdir(d)):
                p = os.path.join(d, f)
                if f.startswith(".") or p == out:
                    continue
                copy = os.path.join(sim.metadir, "probe.h5")
                shutil.copyfile(p, copy)
                try:
                    for i in _read(copy)["oneline"].index:
                        have.setdefault(int(i), []).append(f)
                except Exception:
                    pass
        st = "absent"
        if os.path.exists(out):
            copy = os.path.join(sim.metadir, "probe.h5")
            shutil.copyfile(out, copy)
            try:
                st = complete(_read(copy), [ref]) or "complete"
            except Exception as e:
                st = f"unreadable: {type(e).__name__}: {e}"
        return have, st
    dumped = set()

    def attempt(name):
        nd = sim.solo(name, lambda: run_rank("pop.ini", t["met"]), cwd=root,
                      env=rank_env(rank, t["size"]), hooks=hooks)
        have, st = stored()
        if st not in ("absent", "complete"):
            raise Violation("incomplete-output", f"after {name}: rank file: {st}")
        if nd.ok and st != "complete":
            raise Violation("false-success", f"rank {rank} reported success, its file is {st}")
        return nd, st, have
    seen_h5 = {}

    def invariant():
        # once a readable batch held a binary, that binary stays in a batch or in the combined file
        now = {}
        try:
            for f in os.listdir(d):
                s = os.stat(os.path.join(d, f))
                now[f] = (s.st_size, s.st_mtime_ns)
        except FileNotFoundError:
            return
        gone = [f for f in seen_h5 if f not in now]
        if gone and not started[0]:
            have, st = stored()
            if st != "complete":
                raise Violation("removed-too-early", f"batch {sorted(gone)} was removed while the rank file was {st}")
        seen_h5.clear()
        seen_h5.update({f: 1 for f in now if "evolution.batch" in f})
    started = [True]

    def on_rec(node, msg):
        started[0] = False       # evolution has begun: stale batches were dealt with before
        return ledger.on_rec(node, msg)
    sim.on_msg["rec"] = on_rec
    st = None
    for k, a in enumerate(scn["attempts"]):
        sim.faults = [dict(a, node=f"try{k}")]
        started[0] = True
        seen_h5.clear()
        sim.invariant = invariant
        nd, st, have = attempt(f"try{k}")
        sim.invariant = None
        if st == "complete":
            break
    if st != "complete":
        sim.faults = []
        started[0] = True
        sim.invariant = invariant
        nd, st, have = attempt("clean")
        sim.invariant = None
        must_succeed(nd, f"rank {rank} without faults", sim)
        if have:
            raise Violation("leftover-files", f"batches left behind: {have}")
    return {"files": 1, "attempts": len(scn["attempts"]) + 1}


def nontrivial(scn, res):
    return len(scn["ranks"]) >= 2 or scn["via"] == "evolve"

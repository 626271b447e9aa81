"""C08: the status check is truthful and always leads to progress."""
import hashlib
import os
import random
import shutil
import tempfile

import pandas as pd

from .. import kernel, pop
from ..kernel import Sim, Violation
from .c01 import must_succeed, run_merge, run_rank
from .c07 import PASSED, World, cli, gen_kills, opts
from .c07 import preload as preload07

PROP = "C08"
QUICK = {"runs": 600, "wall": 80}
THOROUGH = {"runs": 30000, "wall": 3400}
KEEP = set()
SHRINK_INT = {"sched_seed": 0, "list_seed": 0}
SHRINK_TO = {"cwd": "run", "limit": None, "sbatch_fail": [], "space": False, "logs": 0, "peek": False,
             "litter": False, "ckills": []}
RULE = ("one case = one run folder state (made by killed jobs or assembled from real rank and population files) "
        "followed by check, submission and job rounds until the check passes; non-trivial if the first check "
        "did not pass; distinct by event log and scenario")
COMPONENTS = {
    "real": ["bin/posydon-popsyn (setup, check, rescue)", "generated SLURM, submit and resubmit scripts (real shell)",
             "run and merge scripts", "BinaryPopulation", "Population reader", "pandas/PyTables/HDF5",
             "file system (scratch)"],
    "stub": ["SLURM scheduler (sbatch recorder, array, afterok)", "evolution steps (scripted)", "user answers"]}
ASSUMPTIONS = ["process death, not power loss", "a cancelled dependency (afterok) never starts its job",
               "the user creates a batch folder when told that it is missing",
               "a population file that was damaged after it was complete is only required to be reported"]
SPECS = {"s": {"n": 4, "size": 3}, "t": {"n": 1, "size": 1}, "m": {"n": 12, "size": 12}}
METS = [1.0, 0.45]
TEMPLATES = {}
MAX_ROUNDS = 6
BAD = ["short", "trunc", "empty", "junk", "half"]


def preload():
    preload07()
    from posydon.utils.common_functions import convert_metallicity_to_string as zs
    base = tempfile.mkdtemp(prefix="posydon-sim-tpl-", dir=os.environ.get("SIM_SCRATCH", "/tmp"))
    try:
        for key, t in SPECS.items():
            for met in METS:
                root, meta = os.path.join(base, f"r{key}{met}"), os.path.join(base, f"m{key}{met}")
                os.makedirs(root)
                os.makedirs(meta)
                sim = Sim({"sched_seed": 1}, root, meta)
                sim.on_msg["rec"] = lambda node, msg: {"do": "go"}
                with open(os.path.join(root, "pop.ini"), "w") as f:
                    f.write(pop.ini_text({"optimize_ram": True, "dump_rate": 100, "metallicities": METS,
                                          "number_of_binaries": t["n"]}))
                hooks = pop.hooks_for({"plans": pop.gen_plans(random.Random(key), t["n"], p_slow=0, maxsteps=2)})
                broken = None
                for r in range(t["size"]):
                    env = {"SLURM_ARRAY_JOB_ID": "77", "SLURM_ARRAY_TASK_ID": str(r),
                           "SLURM_ARRAY_TASK_MIN": "0", "SLURM_ARRAY_TASK_COUNT": str(t["size"])}
                    nd = sim.solo(f"rank{r}", lambda: run_rank("pop.ini", met), cwd=root, env=env, hooks=hooks)
                    if not nd.ok:
                        broken = f"rank {r} failed: {nd.exc}"
                d = os.path.join(root, zs(met) + "_Zsun_batches")
                files = {}
                if not broken:
                    for f in sorted(os.listdir(d)):
                        with open(os.path.join(d, f), "rb") as g:
                            files[f] = g.read()
                    nd = sim.solo("merge", lambda: run_merge("pop.ini", met), cwd=root)
                    p = os.path.join(root, zs(met) + "_Zsun_population.h5")
                    if not nd.ok or not os.path.exists(p):
                        broken = f"merge failed: {nd.exc}"
                    else:
                        with open(p, "rb") as g:
                            popraw = g.read()
                TEMPLATES[(key, met)] = {"broken": broken} if broken else \
                    {"broken": None, "files": files, "pop": popraw}
                sim.shutdown()
    finally:
        shutil.rmtree(base, ignore_errors=True)


def gen(rng):
    mets = rng.choice([[1.0], [1.0, 0.45], [0.45, 1.0], [1.0, 0.45]])
    common = {"mets": mets, "dump_rate": 100, "optimize_ram": True, "ram": None, "errors": [], "sbatch_fail": [],
              "limit": rng.choice([None, None, 1, 2]), "default_plan": {"steps": [{}]}, "plans": {}, "kills": [],
              "answers": rng.choice(["submit", "submit", "submit", "later", "no"]),
              "cwd": rng.choice(["run", "run", "parent", "abs"]), "cmd": "check",
              "concurrent": rng.choice([1, 2, 4]), "mem": [], "sched_seed": rng.randrange(1 << 30),
              "list_seed": rng.randrange(1 << 30), "sticky": rng.choice([0.3, 0.9]),
              "space": rng.random() < 0.15, "peek": rng.random() < 0.3, "logs": rng.choice([0, 1, 2, 3]),
              "litter": rng.random() < 0.3, "ckills": [], "extra_ini": rng.random() < 0.1}
    if rng.random() < 0.2:
        common["sbatch_fail"] = sorted(rng.sample(range(1, 7), rng.randint(1, 2)))
    if rng.random() < 0.2:
        # the user (or a login-node limit) kills the check itself
        common["ckills"] = [[rng.randint(1, 2), *rng.choice([["*", rng.randint(1, 60)], ["h5.create", 1],
                                                             ["h5.close", rng.randint(1, 4)], ["h5.append", 1],
                                                             ["h5.read", rng.randint(1, 6)]])]
                            for _ in range(rng.randint(1, 2))]
    if rng.random() < 0.35:
        size = rng.choice([1, 2, 3])
        n = size + rng.randint(0, 2)
        return dict(common, mode="kill", size=size, n=n, state={},
                    kills=gen_kills(rng, rng.choice([2, 4]) * len(mets), size, rng.choice([0.3, 0.6])))
    t = rng.choice(["s", "s", "s", "t", "m"])
    size = SPECS[t]["size"]
    state = {}
    p_ok = rng.choice([0.2, 0.5, 0.8])
    for met in mets:
        u = rng.random()
        if u < p_ok:
            st = {"pop": "ok", "ranks": [], "folder": False}
            if rng.random() < 0.25:       # merge killed between its last rename and its clean-up
                st = {"pop": "ok", "ranks": sorted(rng.sample(range(size), rng.randint(1, size))), "folder": True}
        elif u < p_ok + (1 - p_ok) * 0.2:
            st = {"pop": rng.choice(BAD), "ranks": [], "folder": False}
        else:
            k = rng.choice(["all", "all", "none", "some", "some", "one", "nofolder"])
            ranks = {"all": list(range(size)), "none": [], "nofolder": [],
                     "some": sorted(rng.sample(range(size), rng.randint(0, size))),
                     "one": sorted(rng.sample(range(size), max(0, size - 1)))}[k]
            st = {"pop": "none", "ranks": ranks, "folder": k != "nofolder"}
        state[str(met)] = st
    return dict(common, mode="state", t=t, size=size, n=SPECS[t]["n"], state=state)


def directed():
    base = {"mets": [1.0, 0.45], "dump_rate": 100, "optimize_ram": True, "ram": None, "errors": [], "sbatch_fail": [],
            "limit": None, "default_plan": {"steps": [{}]}, "plans": {}, "kills": [], "answers": "submit",
            "cwd": "run", "cmd": "check", "concurrent": 2, "mem": [], "sched_seed": 1, "list_seed": 1, "sticky": 0.5,
            "space": False, "peek": False, "logs": 1, "litter": False, "extra_ini": False, "ckills": [],
            "mode": "state", "t": "s", "size": 3, "n": 4}
    ok = {"pop": "ok", "ranks": [], "folder": False}
    full = {"pop": "none", "ranks": [0, 1, 2], "folder": True}
    some = {"pop": "none", "ranks": [0, 2], "folder": True}
    none = {"pop": "none", "ranks": [], "folder": True}
    nof = {"pop": "none", "ranks": [], "folder": False}
    out = [dict(base, state={"1.0": a, "0.45": b}) for a, b in
           ((ok, ok), (ok, full), (full, some), (some, none), (nof, ok), (full, full), (some, ok), (some, some))]
    for bad in BAD:
        out.append(dict(base, state={"1.0": ok, "0.45": {"pop": bad, "ranks": [], "folder": False}}))
    out.append(dict(base, state={"1.0": some, "0.45": none}, space=True, cwd="abs"))
    out.append(dict(base, state={"1.0": some, "0.45": some}, logs=3, litter=True))
    out.append(dict(base, state={"1.0": some, "0.45": full}, answers="no"))
    big = [r for r in range(12) if r not in (3, 10)]
    out.append(dict(base, mets=[1.0], t="m", size=12, n=12, state={"1.0": {"pop": "none", "ranks": big,
                                                                           "folder": True}}))
    out.append(dict(base, mets=[1.0], t="m", size=12, n=12, state={"1.0": {"pop": "none", "ranks": [11],
                                                                           "folder": True}}))
    return out


def valid(s):
    if s["mode"] == "kill":
        return s["n"] >= s["size"] >= 1 and len(s["mets"]) >= 1
    return len(s["mets"]) >= 1 and set(s["state"]) >= {str(m) for m in s["mets"]} and s["t"] in SPECS \
        and SPECS[s["t"]] == {"n": s["n"], "size": s["size"]} \
        and all({"pop", "ranks", "folder"} <= set(v) and (v["folder"] or not v["ranks"])
                for v in s["state"].values())


def put(path, raw):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(raw)


def assemble(w, scn):
    from posydon.utils.common_functions import convert_metallicity_to_string as zs
    for met in scn["mets"]:
        t = TEMPLATES[(scn["t"], met)]
        if t["broken"]:
            raise Violation("no-rank-files", t["broken"])
        st = scn["state"][str(met)]
        kind = st["pop"]
        if kind == "short":
            other = "t" if scn["t"] != "t" else "s"
            o = TEMPLATES[(other, met)]
            if o["broken"]:
                raise Violation("no-rank-files", o["broken"])
            put(w.popfile(met), o["pop"])
        elif kind != "none":
            raw = {"ok": t["pop"], "trunc": t["pop"][:len(t["pop"]) - 4096], "half": t["pop"][:len(t["pop"]) // 2],
                   "empty": b"", "junk": b"not a population"}[kind]
            put(w.popfile(met), raw)
        if st["folder"]:
            os.makedirs(w.batches(met), exist_ok=True)
            for r in st["ranks"]:
                put(os.path.join(w.batches(met), f"evolution.combined.{r}.h5"),
                    t["files"][f"evolution.combined.{r}.h5"])
            if scn["litter"]:
                # what a killed attempt leaves
                put(os.path.join(w.batches(met), "0.evolution.batch.0"), b"\x89HDF partial")
        elif os.path.isdir(w.batches(met)):
            raise kernel.HarnessError("set-up already made the batch folder")
        logs = os.path.join(w.run, f"{zs(met)}_logs")
        for j in range(scn["logs"]):
            for r in range(scn["size"]):
                if (r + j) % 3 != 2:
                    text = ["", "one line\n", "a\nb\nslurmstepd: error: CANCELLED DUE TO TIME LIMIT ***\n",
                            "Traceback\n  x\nMemoryError\nbye\n"][(r + 2 * j) % 4]
                    put(os.path.join(logs, f"popsyn_{500 + j}_{r}.out"), text.encode())
        if scn["logs"] and os.path.isdir(logs):
            put(os.path.join(logs, "popsyn_merge.out"), b"killed\n")


def content(p):
    """Fingerprint of a file; for readable HDF5 files of its tables without the derived history lengths."""
    with open(p, "rb") as g:
        raw = g.read()
    if p.endswith("_population.h5"):
        try:
            with pd.HDFStore(p, mode="r") as st:
                return {k: hashlib.sha256(st.select(k).to_csv().encode()).hexdigest()
                        for k in sorted(st.keys()) if k != "/history_lengths"}
        except Exception:
            pass
    return hashlib.sha256(raw).hexdigest()


def digest(folder):
    out = {}
    for d, dirs, files in os.walk(folder):
        dirs.sort()
        for f in files:
            p = os.path.join(d, f)
            out[os.path.relpath(p, folder)] = content(p)
        for f in dirs:
            out[os.path.relpath(os.path.join(d, f), folder) + "/"] = "dir"
    return out


def holds(path, n):
    """Is there a readable population file with n binaries?"""
    if not os.path.exists(path):
        return False
    try:
        with pd.HDFStore(path, mode="r") as st:
            return len(st.select("oneline", columns=[])) == n == int(
                st.select("mass_per_metallicity")["number_of_systems"].sum())
    except Exception:
        return False


def facts(w, scn):
    """The state of the run folder, from the files alone."""
    out = {}
    for met in scn["mets"]:
        d = w.batches(met)
        have = os.listdir(d) if os.path.isdir(d) else None
        out[met] = {"exists": os.path.exists(w.popfile(met)), "good": holds(w.popfile(met), scn["n"]),
                    "folder": have is not None,
                    "missing": [r for r in range(scn["size"])
                                if f"evolution.combined.{r}.h5" not in (have or [])]}
    return out


def data_changes(before, after):
    ch = [k for k in before if after.get(k) != before[k]]
    new = [k for k in after if k not in before]
    allowed = (".slurm", ".sh")
    return [k for k in ch if not (k.endswith(allowed) and ("rescue" in k or "resubmit" in k))], \
        [k for k in new if not k.endswith(allowed)]


def examine(w, scn, sim, first):
    """One check round: is what it says and does true?  Returns (passed, text)."""
    from posydon.utils.common_functions import convert_metallicity_to_string as zs
    f = facts(w, scn)
    before = digest(w.run)
    known = set(w.slurm.jobs)
    w.slurm.collect()
    known = set(w.slurm.jobs)
    for k, cls, n in scn["ckills"]:
        if k == w.k + 1:
            sim.faults.append({"node": f"check{k}", "cls": cls, "n": n, "do": "kill"})
    calls = int(open(os.path.join(w.slurm.dir, "calls")).read())
    node, text = w.check("no" if first and scn["answers"] == "no" else
                         "submit" if scn["answers"] == "no" else None)
    if node.exc is not None:
        raise Violation("check-crashed", f"{node.exc[0]}: {node.exc[1]}\n{node.exc[2][-1200:]}")
    killed = node.state == "killed"
    mod, new = data_changes(before, digest(w.run))
    if mod or new:
        raise Violation("check-modifies-data", f"the check changed {mod} and created {new}")
    good = all(v["good"] for v in f.values())
    passed = PASSED in text
    if killed:
        if passed and not good:
            raise Violation("wrong-verdict", "check passes although a population is not complete")
        w.slurm.collect()
        return False, ""
    if passed != good:
        raise Violation("wrong-verdict", f"check {'passes' if passed else 'does not pass'} although the population "
                                         f"files are " + ", ".join(f"{m}: {'complete' if v['good'] else 'absent' if not v['exists'] else 'incomplete'}"
                                                                   for m, v in f.items()) + f"\n{text[-1500:]}")
    jobs = w.slurm.collect()
    if passed:
        if jobs:
            raise Violation("needless-jobs", "a passed check submits jobs")
        return True, text
    sim.count_probe("not_passed")
    lack = {m: v for m, v in f.items() if not v["exists"]}
    failed = [c for c in scn["sbatch_fail"] if calls < c <= int(open(os.path.join(w.slurm.dir, "calls")).read())]
    if failed:
        sim.count_fault("sbatch_refused")
    arrays, merges = {}, []
    for j in jobs:
        mi = w.met_of(j)
        m = scn["mets"][mi] if mi is not None else None
        if m is None:
            raise Violation("strange-job", f"submitted job {j['script']} names no metallicity")
        if j["tasks"] is not None:
            if m in arrays:
                raise Violation("double-rescue", f"two rescue arrays for {m}")
            arrays[m] = j
        else:
            merges.append((m, j))
    # what is named as missing
    for m, v in lack.items():
        if v["folder"] and v["missing"]:
            want = str(v["missing"]) if len(v["missing"]) <= 10 else str(v["missing"][:10])
            if want not in text:
                raise Violation("ranks-not-named", f"metallicity {m}: missing ranks {v['missing']} are not named in\n"
                                                   f"{text[-1500:]}")
    complete = [m for m, v in lack.items() if v["folder"] and not v["missing"]]
    partial = {m: v["missing"] for m, v in lack.items() if v["folder"] and v["missing"]}
    nofold = [m for m, v in lack.items() if not v["folder"]]
    for m, j in arrays.items():
        if m not in partial:
            raise Violation("rescue-of-complete", f"ranks {j['tasks']} of metallicity {m} are submitted again although "
                                                  f"{'the population exists' if f[m]['exists'] else 'none is missing'}")
        if sorted(j["tasks"]) != partial[m]:
            raise Violation("wrong-ranks", f"metallicity {m}: ranks {partial[m]} are missing, {j['tasks']} submitted")
    for m, j in merges:
        if m in complete:
            continue
        if m in partial and j["after"] is not None and m in arrays and j["after"] == arrays[m]["id"]:
            continue
        raise Violation("wrong-merge", f"a merge job of metallicity {m} is submitted"
                                       f"{' without waiting for its ranks' if m in partial else ''}")
    if scn["answers"] == "submit" and not failed and not nofold:
        if partial and set(arrays) != set(partial):
            raise Violation("no-rescue", f"ranks are missing for {list(partial)}, submitted for {list(arrays)}")
        if set(m for m, _ in merges) < set(partial) or (not partial and {m for m, _ in merges} != set(complete)):
            raise Violation("no-merge", f"merge jobs for {[m for m, _ in merges]}; complete but unmerged: {complete}, "
                                        f"incomplete: {list(partial)}")
    if scn["answers"] in ("no", "later") and first and (arrays or (merges and scn["answers"] == "no")):
        raise Violation("unasked-submission", "jobs were submitted although the user declined")
    if [m for m, _ in merges] != sorted(set(m for m, _ in merges), key=[m for m, _ in merges].index):
        raise Violation("double-merge", "the same merge job was submitted twice")
    return False, text


def start_peek(w, scn, sim, box):
    """A user who checks while jobs are running and declines everything."""
    def done(prompt):
        return "0" if "index" in prompt.lower() else "no"
    name = f"peek{len(box)}"
    hooks = dict(w.slurm.node_hooks(), input=done)
    box.append((name, sim.spawn(name, lambda: cli(["check", w.run]), cwd=sim.root, hooks=hooks)))


def judge_peek(w, scn, sim, box):
    for name, node in box:
        text = sim.output(name)
        if node.exc is not None:
            raise Violation("check-crashed", f"while jobs run: {node.exc[0]}: {node.exc[1]}\n{node.exc[2][-1200:]}")
        if PASSED in text and not all(holds(w.popfile(m), scn["n"]) for m in scn["mets"]):
            raise Violation("wrong-verdict", "check passed while jobs were still running")
        sim.count_probe("check_while_running")
    box.clear()


def run(scn, sim):
    w = World(scn, sim)
    w.setup()
    if scn["extra_ini"]:
        with open(os.path.join(w.run, "zz_other.ini"), "w") as g:
            g.write("[BinaryPopulation_options]\n  number_of_binaries = 77777\n  metallicities = [1.0]\n")
    if scn["mode"] == "kill":
        w.submit()
        w.slurm.run_all(scn["concurrent"])
    else:
        assemble(w, scn)
    box = []
    limit = MAX_ROUNDS + 2 * (len(scn["kills"]) + len(scn["sbatch_fail"]) + len(scn["ckills"])) + (scn["answers"] == "no")
    damaged = [m for m, v in facts(w, scn).items() if v["exists"] and not v["good"]]
    if damaged and scn["mode"] == "kill":
        raise Violation("damaged-population", f"killed jobs left an incomplete population file for {damaged}")
    for rounds in range(1, limit + 1):
        passed, text = examine(w, scn, sim, rounds == 1)
        if passed:
            break
        if damaged:
            # reported; the user removes the damaged files
            for m in damaged:
                os.remove(w.popfile(m))
                os.makedirs(w.batches(m), exist_ok=True)
            damaged = []
        w.follow(text)
        if scn["peek"]:
            start_peek(w, scn, sim, box)
        w.slurm.run_all(scn["concurrent"])
        sim.run()
        judge_peek(w, scn, sim, box)
    else:
        raise Violation("no-progress", f"after {limit} rounds the check does not pass; last output:\n{text[-1500:]}")
    for m in scn["mets"]:
        with pd.HDFStore(w.popfile(m), mode="r") as st:
            idx = sorted(int(i) for i in st.select("oneline", columns=[]).index)
        if idx != list(range(scn["n"])):
            raise Violation("wrong-binaries", f"population of {m} holds {idx}")
    return {"rounds": rounds, "jobs": len(w.slurm.jobs)}


def nontrivial(scn, res):
    return bool(res.get("probes", {}).get("not_passed"))

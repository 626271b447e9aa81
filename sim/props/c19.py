"""C19: grid-point results reach the output folder despite job time limits."""
import os
import random

from .. import kernel, rungrid
from ..kernel import Violation
from ..rungrid import tree

PROP = "C19"
QUICK = {"runs": 3000, "wall": 50}
THOROUGH = {"runs": 300000, "wall": 3000}
KEEP = {"points"}
SHRINK_INT = {"sched_seed": 0, "list_seed": 0}
SHRINK_TO = {"fault": None, "prior": None, "oldwork": False, "late": [], "crash": None, "keep_profiles": False,
             "keep_photos": False, "same": False, "rc": 0}
RULE = ("one case = one or two grid points run by batch jobs with a time limit each (jobs are repeated until one "
        "completes), a scripted simulation that writes its files over simulated time, and the copier process racing with "
        "both; non-trivial if a copier woke up, a job was killed or a fault hit; distinct by event log and scenario")
COMPONENTS = {"real": ["bin/posydon-run-grid (whole script as __main__)", "fork, copy, move and remove of files (scratch)"],
              "stub": ["MESA (scripted writer in a process of its own)", "batch system (time limit kills all processes)",
                       "/bin/sh for the command lines of the script (POSIX redirections, rm)", "mpi4py (not used)",
                       "clock", "signal delivery (may be late)", "disk errors", "process death"]}
ASSUMPTIONS = ["a killed process may still finish the system call it is in", "process death, not power loss",
               "folders of finished points may hold the summary tmp.hdf5 in addition"]
BUDGET = 1500            # events a copy may take at most in these scenarios


def preload():
    rungrid.preload()


def acts(rng, kind, dur):
    """Files of a simulation over its duration."""
    n = rng.randint(3, 12)
    logs = ["LOGS1", "LOGS2"] if kind == "binary" else ["LOGS"]
    cuts = sorted(rng.random() for _ in range(n))
    out, prev = [], 0.0
    photos = []
    for i, c in enumerate(cuts):
        dt, prev = (c - prev) * dur, c
        first = True
        for _ in range(rng.randint(1, 3)):
            what = rng.choice(["OUT", "hist", "hist", "bin", "profile", "photo", "cache", "drop", "model"])
            d = rng.choice(logs)
            a = None
            if what == "OUT":
                a = ["append", "OUT", f"step {i} {rng.random()}\n"]
            elif what == "hist":
                a = ["append", f"{d}/history.data", f"{i} {rng.random()}\n" * rng.choice([1, 1, 40])]
            elif what == "bin":
                a = ["append", "binary_history.data", f"{i} {rng.random()}\n"]
            elif what == "profile":
                a = ["append", f"{d}/profile{i}.data", f"{rng.random()}\n"]
            elif what == "photo":
                a = ["append", f"photos/x{i:03d}", f"{rng.random()}\n"]
                photos.append(a[1])
            elif what == "cache":
                a = ["append", f".mesa_temp_cache/c{i}", f"{rng.random()}\n"]
            elif what == "drop" and photos:
                a = ["remove", photos.pop(0), ""]
            elif what == "model":
                a = ["append", f"{d}/final_profile{i}.data", f"{rng.random()}\n"]
            if a:
                out.append([dt if first else 0.0] + a)
                first = False
    return {"acts": out, "last": max(0.5, (1 - prev) * dur)}


def gen_job(rng, kind, steps, cost):
    limit = rng.choice([200, 700, 3000, 90000])
    margin = rng.choice([300, 300, 60, 10, 600])
    if rng.random() < 0.15:
        margin = limit + rng.choice([-1, 0, 50])
    u = rng.random()
    edge = max(5.0, limit - margin)
    nstep = {"binary": 1, "single": steps, "formed": 2 * steps + 1}[kind]
    k = rng.randrange(nstep)
    plans = []
    for i in range(nstep):
        if i < k:
            d = rng.uniform(0.5, 0.2 * edge / max(1, k))
        elif i == k:
            if u < 0.35:
                d = edge + rng.uniform(-2, 3) + rng.randint(0, 150) * cost
            elif u < 0.6:
                d = rng.uniform(1.0, limit * 1.5)
            elif u < 0.75:
                d = rng.uniform(1.0, 20.0)
            else:
                d = limit * rng.uniform(1.01, 3)
        else:
            d = rng.uniform(0.5, 50)
        p = acts(rng, "binary" if kind == "binary" or i == nstep - 1 and kind == "formed" else "star", d)
        p["rc"] = rng.choice([0, 0, 0, 1])
        plans.append(p)
    job = {"limit": limit, "margin": margin, "plans": plans, "crash": None, "fault": None,
           "late": [rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 20]) for _ in range(nstep)],
           "keep_profiles": rng.random() < 0.3, "keep_photos": rng.random() < 0.3, "scratch": rng.choice(["kept", "lost"])}
    if rng.random() < 0.12:
        job["crash"] = rng.uniform(0.5, limit)
    if rng.random() < 0.2:
        c = rng.choice([["fs.write", 40, "enospc"], ["fs.open_w", 30, "enospc"], ["fs.mkdir", 8, "enospc"],
                        ["fs.list", 8, "eio"], ["fs.remove", 20, "eio"], ["fs.rename", 1, "eio"], ["fs.*", 120, "kill"],
                        ["fs.open_r", 30, "eio"], ["fs.rmdir", 4, "eio"], ["proc.fork", 1, "eio"]])
        job["fault"] = {"cls": c[0], "n": rng.randint(1, c[1]), "do": c[2],
                        "node": rng.choice(["copier", "main", None])}
    return job


def gen(rng):
    kind = rng.choice(["binary", "binary", "single", "formed"])
    steps = rng.choice([1, 2, 3]) if kind == "single" else rng.choice([1, 2])
    cost = rng.choice([0.001, 0.02, 0.2])
    npoints = rng.choice([1, 1, 2])
    points = []
    for i in range(npoints):
        pt = {"m1": round(rng.uniform(5, 90), 4), "m2": round(rng.uniform(1, 5), 4), "p": round(rng.uniform(1, 900), 4),
              "z": 0.0142, "start": rng.choice([0.0, rng.uniform(0, 10)]), "prior": None, "oldwork": rng.random() < 0.15,
              "jobs": [gen_job(rng, kind, steps, cost) for _ in range(rng.choice([1, 1, 2]))]}
        if rng.random() < 0.3:
            pt["prior"] = rng.choice(["file", "tree"])
        points.append(pt)
    return {"kind": kind, "steps": steps, "event_cost": cost, "same": rng.random() < 0.08, "points": points,
            "sched_seed": rng.randrange(1 << 30), "list_seed": rng.randrange(1 << 30)}


def directed():
    out = []
    rng = random.Random(5)
    for kind, steps in (("binary", 1), ("single", 1), ("single", 3), ("formed", 1)):
        for same in (False, True):
            for mode in ("short", "long", "race", "near"):
                for prior in (None, "tree"):
                    j = gen_job(rng, kind, steps, 0.02)
                    j.update(limit=3000, margin=300, crash=None, fault=None, late=[0] * 8, keep_profiles=False,
                             keep_photos=False)
                    k = len(j["plans"]) - 1
                    d = {"short": 100.0, "long": 9000.0, "race": 2700.5 + 0.6, "near": 2690.0}[mode]
                    for i, p in enumerate(j["plans"]):
                        j["plans"][i] = acts(rng, "binary" if kind == "binary" or (i == k and kind == "formed") else "star",
                                             d if i == k else 3.0)
                    out.append({"kind": kind, "steps": steps, "event_cost": 0.02, "same": same, "sched_seed": len(out),
                                "list_seed": 1, "points": [{"m1": 20.0, "m2": 3.0, "p": 10.0, "z": 0.0142, "start": 0.0,
                                                            "prior": prior, "oldwork": False, "jobs": [j]}]})
    # time limit in an early step of a formation
    for k in range(3):
        j = gen_job(rng, "formed", 1, 0.02)
        j.update(limit=3000, margin=300, crash=None, fault=None, late=[0] * 8)
        for i in range(3):
            j["plans"][i] = acts(rng, "star" if i < 2 else "binary", 9000.0 if i == k else 3.0)
        out.append({"kind": "formed", "steps": 1, "event_cost": 0.02, "same": False, "sched_seed": k, "list_seed": 1,
                    "points": [{"m1": 20.0, "m2": 3.0, "p": 10.0, "z": 0.0142, "start": 0.0, "prior": None,
                                "oldwork": False, "jobs": [j]}]})
    # the simulation ends while the copier works; the signal may be late
    for n in range(0, 60, 3):
        j = gen_job(rng, "binary", 1, 0.02)
        j.update(limit=3000, margin=300, crash=None, fault=None, late=[[0, 1, 2, 4, 7][n % 5]], keep_profiles=bool(n % 2),
                 keep_photos=False)
        p = acts(random.Random(9), "binary", 2000.0)
        p["last"] = 2700.0 - sum(a[0] for a in p["acts"]) + n * 0.02
        j["plans"] = [p]
        out.append({"kind": "binary", "steps": 1, "event_cost": 0.02, "same": False, "sched_seed": n, "list_seed": 1,
                    "points": [{"m1": 20.0, "m2": 3.0, "p": 10.0, "z": 0.0142, "start": 0.0, "prior": "tree" if n % 4 else None,
                                "oldwork": False, "jobs": [j]}]})
    return out


def valid(s):
    for pt in s["points"]:
        for j in pt["jobs"]:
            n = {"binary": 1, "single": s["steps"], "formed": 2 * s["steps"] + 1}[s["kind"]]
            if len(j["plans"]) != n:
                return False
    return bool(s["points"]) and all(pt["jobs"] for pt in s["points"])


def keep(path, job):
    """Whether a file of the working folder belongs to the final output."""
    parts = path.split(os.sep)
    if not job["keep_profiles"] and len(parts) == 2 and parts[0] in ("LOGS", "LOGS1", "LOGS2") \
            and parts[1].startswith("profile"):
        return False
    if not job["keep_photos"] and parts[0].startswith("photos"):
        return False
    return parts[0] != ".mesa_temp_cache"


def names_of(spec):
    """The files a job's simulations make themselves."""
    return {a[2] for p in spec["plans"] for a in p["acts"]} - {"OUT"}


def first_diff(got, want, transient=()):
    for p in sorted(set(got) | set(want)):
        if p in ("tmp.hdf5",):
            continue
        if p not in got:
            return f"{p} is missing"
        if p not in want:
            return f"{p} should not be there"
        if got[p] != want[p]:
            return f"{p} has {'a folder' if got[p] is None else len(got[p])} instead of " \
                   f"{'a folder' if want[p] is None else len(want[p])} bytes or other content"
    return None


def run(scn, sim):
    root = sim.root
    argv = rungrid.environment(root, scn["kind"], scn["steps"], scn["points"])
    out = os.path.join(root, "out")
    tmp = out if scn["same"] else os.path.join(root, "tmp")
    os.makedirs(out, exist_ok=True)
    os.makedirs(tmp, exist_ok=True)
    info = {"woke": 0, "killed": 0, "hits": 0, "done": 0}
    active = {}          # point index -> state

    def ended(job, step):
        st = job["st"]
        step["snap"] = tree(step["cwd"])
        st["name"] = os.path.basename(step["cwd"])

    cluster = rungrid.Cluster(sim, lambda job, exe, k: job["spec"]["plans"][min(k, len(job["spec"]["plans"]) - 1)],
                              ended, late=[])

    def final_of(st):
        return os.path.join(out, st["name"]) if st["name"] else None

    def begin(i, k, spec=None, limit=None):
        pt = scn["points"][i]
        spec = spec or pt["jobs"][k]
        st = active[i]
        if "spec" in st:
            st["older"] |= names_of(st["spec"])
        st.update(k=k, spec=spec)
        t0 = max(sim.clock, pt["start"]) + (1.0 if k else 0.0)
        end = int(sim.epoch + t0 + spec["limit"])
        args = argv + ["--grid-type", "fixed", "--output-directory", out, "--temporary-directory", tmp,
                       "--grid-point-index", str(i), "--psycris-inifile", "None", "--job_end", str(end),
                       "--job_before_end", str(spec["margin"])]
        if spec["keep_profiles"]:
            args.append("--keep_profiles")
        if spec["keep_photos"]:
            args.append("--keep_photos")
        cluster.late = list(spec["late"]) if len(scn["points"]) == 1 else cluster.late + list(spec["late"])
        st["before"] = tree(final_of(st)) if st["name"] and os.path.isdir(final_of(st)) else {}
        job = cluster.start(f"p{i}k{k}", args, tmp, start_at=t0)
        job["st"], job["spec"] = st, spec
        st["job"], st["end"], st["edge"] = job, end - sim.epoch, end - spec["margin"] - sim.epoch
        st["edge_snap"] = None
        st["fault"] = None
        if spec["fault"]:
            f = {x: y for x, y in spec["fault"].items() if x != "node"}
            which = spec["fault"]["node"]
            f["node"] = job["name"] if which == "main" else (job["name"] + ".copier0" if which == "copier" else None)
            if f["node"] is None:
                f["node"] = job["name"]
            sim.faults.append(f)
            st["fault"] = f

        def edge():
            if job is st["job"] and not job["main"].finished and job["steps"] and job["steps"][-1]["end"] is None:
                st["edge_snap"] = (len(job["steps"]), tree(job["steps"][-1]["cwd"]))

        def limit_():
            if job is st["job"] and not job["main"].finished:
                stop(i, "time limit")

        def crash():
            if job is st["job"] and not job["main"].finished:
                stop(i, "crash")
        sim.at(max(st["edge"], sim.clock), edge)
        sim.at(st["end"], limit_)
        if spec["crash"] is not None:
            sim.at(t0 + spec["crash"], crash)

    def stop(i, why):
        st = active[i]
        job = st["job"]
        for e in list(cluster.dying):
            if e[0] in job["copiers"]:
                cluster.die(e)
        if job["steps"]:
            st["name"] = os.path.basename(job["steps"][-1]["cwd"])
        cluster.end(job, why)
        info["killed"] += 1
        judge_killed(i, why)

    def judge_killed(i, why):
        st, job = active[i], active[i]["job"]
        who = f"point {i}, job {st['k'] + 1} (killed by {why} at {sim.clock:.2f}, limit {st['end']:.0f}, " \
              f"margin {st['spec']['margin']})"
        steps = job["steps"]
        if not steps or scn["same"]:
            return
        got = tree(final_of(st)) if os.path.isdir(final_of(st)) else {}
        last = steps[-1]
        cop = last["copier"]
        hit = st["fault"] is not None and st["fault"].get("used")
        if hit:
            info["hits"] += 1
        if cop is None:
            raise Violation("copier", f"{who}: nothing looks after the time limit of the running simulation")
        # nothing happens to the output before the margin begins
        if len(steps) == 1 and last["end"] is None and sim.clock < st["edge"] and cop.meta["since"] < st["edge"]:
            d = first_diff(got, st["before"])
            if d:
                raise Violation("early", f"{who}: the output folder changed before the safety margin: {d}")
        if why == "time limit" and last["end"] is None and not hit and st["edge_snap"] is not None \
                and st["edge_snap"][0] == len(steps) and cop.meta["since"] < st["edge"] - 1 \
                and st["spec"]["margin"] > 1.5 + BUDGET * sim.event_cost:
            s1, s2 = st["edge_snap"][1], tree(last["cwd"])
            names = {a[2] for a in last["plan"]["acts"]}
            for p, a in s1.items():
                if p not in s2:
                    continue
                if p not in got:
                    raise Violation("lost", f"{who}: no copy of {p} in the output folder")
                if a is None:
                    continue
                if not got[p].startswith(a) or not s2[p].startswith(got[p]):
                    raise Violation("lost", f"{who}: the copy of {p} has {len(got[p])} bytes, the file had {len(a)} when "
                                            f"the margin began and {len(s2[p])} at the end")
            for p in got:
                if p not in s1 and p not in s2 and p not in names:
                    raise Violation("stale", f"{who}: {p} in the output folder is not of this simulation")

    def judge_done(i):
        st, job = active[i], active[i]["job"]
        node = job["main"]
        who = f"point {i}, job {st['k'] + 1}"
        hit = st["fault"] is not None and st["fault"].get("used")
        if hit:
            info["hits"] += 1
        for c in job["copiers"]:
            if c.state == "dying":
                cluster.settle()
            if not c.finished and not (hit and (node.exc is not None or node.state == "killed")):
                raise Violation("outlives", f"{who}: the copier is still there after the run finished")
            if c.state == "done" and c.exc is not None and not hit and c.exc[0] not in ("Error",):
                raise Violation("copier", f"{who}: the copier failed with {c.exc[0]}: {c.exc[1][:200]}")
        if job["steps"]:
            st["name"] = os.path.basename(job["steps"][-1]["cwd"])
        if node.exc is not None or node.state == "killed":
            if not hit:
                raise Violation("failed", f"{who}: fails with {node.exc[0]}: {node.exc[1][:300]}\n{node.exc[2][-800:]}")
            cluster.end(job, "main process gone")
            return False
        nplan = len(st["spec"]["plans"])
        if len(job["steps"]) != nplan:
            raise Violation("steps", f"{who}: {len(job['steps'])} simulations were started instead of {nplan}")
        for s in job["steps"]:
            if s["end"] is None:
                raise Violation("unfinished", f"{who}: ends while simulation {s['k']} is still running")
        want = {p: c for p, c in job["steps"][-1]["snap"].items() if keep(p, st["spec"])}
        got = tree(final_of(st)) if os.path.isdir(final_of(st)) else {}
        if hit:     # what could not be cleaned up may stay
            snap = job["steps"][-1]["snap"]
            got = {p: c for p, c in got.items() if p in want or snap.get(p, 0) != c}
        d = first_diff(got, want)
        old = sorted((st["older"] - names_of(st["spec"])) & set(got))
        if old and not hit:
            raise Violation("stale", f"{who}: {old[0]} in the output folder is left from an earlier run")
        if d:
            raise Violation("output", f"{who}: finished, but in the output folder {d}")
        st["want"] = want
        info["done"] += 1
        return True

    def next_job(i):
        pt = scn["points"][i]
        st = active[i]
        k = st["k"] + 1
        if not scn["same"] and st["spec"]["scratch"] == "lost" and st["name"]:
            import shutil
            shutil.rmtree(os.path.join(tmp, st["name"]), ignore_errors=True)
        if k < len(pt["jobs"]):
            begin(i, k)
        elif k == len(pt["jobs"]) + 0 and not st.get("over"):
            # the last attempt meets no trouble and has all the time
            spec = dict(pt["jobs"][-1], limit=10 ** 7, crash=None, fault=None, late=[0] * 8)
            st["over"] = True
            begin(i, k, spec)
        else:
            raise Violation("failed", f"point {i}: the last job did not finish")

    for i, pt in enumerate(scn["points"]):
        active[i] = {"name": None, "state": "run",
                     "older": {"OLD/old.txt", "leftover.txt", "LOGS1/stale.data", "LOGS2/oldwork.data"}}
        if pt["oldwork"] or pt["prior"]:
            # names of the folders are the script's choice: a first finished run shows them
            spec = dict(pt["jobs"][0], limit=10 ** 7, crash=None, fault=None, late=[0] * 8,
                        plans=[dict(p, acts=[[0.0, "append", "OLD/old.txt", "old\n"]], last=0.5) for p in pt["jobs"][0]["plans"]])
            begin(i, -1, spec)
            sim.run(until=lambda: active[i]["job"]["main"].finished)
            cluster.settle()
            if not judge_done(i):
                raise kernel.HarnessError("the first run failed")
            info["done"] -= 1
            import shutil
            f = final_of(active[i])
            if pt["prior"] == "file":
                with open(os.path.join(f, "leftover.txt"), "w") as g:
                    g.write("left\n")
            elif pt["prior"] == "tree":
                os.makedirs(os.path.join(f, "LOGS1"), exist_ok=True)
                with open(os.path.join(f, "LOGS1", "stale.data"), "w") as g:
                    g.write("left\n")
            else:
                shutil.rmtree(f)
            if pt["oldwork"] and not scn["same"]:
                os.makedirs(os.path.join(tmp, active[i]["name"], "LOGS2"))
                with open(os.path.join(tmp, active[i]["name"], "LOGS2", "oldwork.data"), "w") as g:
                    g.write("left\n")
        begin(i, 0)
    todo = set(active)
    while todo:
        r = sim.run(until=lambda: any(active[i]["job"]["main"].finished for i in todo))
        if r == "deadlock":
            cluster.settle()
            if not any(active[i]["job"]["main"].finished for i in todo):
                raise Violation("deadlock", "the run waits for ever")
        for i in sorted(todo):
            st = active[i]
            job = st["job"]
            if not job["main"].finished:
                continue
            if job["killed"] is None and judge_done(i):
                todo.discard(i)
                st["final"] = tree(final_of(st))
            else:
                next_job(i)
    cluster.settle()
    # whatever is left over must not touch the results
    sim.run(until=lambda: sim.clock > 10 ** 9)
    for i, st in active.items():
        d = first_diff(tree(final_of(st)), {p: c for p, c in st["final"].items()})
        if d:
            raise Violation("changed", f"point {i}: the output changed after the run finished: {d}")
    info["woke"] = sum(1 for n in sim.nodes if "copier" in n.name and n.counts)
    return info


def nontrivial(scn, res):
    i = res.get("info", {})
    return i.get("woke", 0) + i.get("killed", 0) + i.get("hits", 0) > 0

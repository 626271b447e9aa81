"""C05: random streams are reproducible and never shared between ranks."""
import os

from .. import kernel, pop
from ..kernel import Violation
from .c01 import must_succeed, run_rank

PROP = "C05"
QUICK = {"runs": 400, "wall": 85}
THOROUGH = {"runs": 20000, "wall": 3000}
KEEP = set()
SHRINK_INT = {"n": 2, "size": 1, "sched_seed": 0, "list_seed": 0}
SHRINK_TO = {"plans_b": {}, "rescue": [], "draw": False, "reset": False, "samp": {}}
RULE = ("one case = the same population request executed twice under different schedules, dump "
        "settings and failures (plus rescued ranks); non-trivial if at least two streams were drawn "
        "from; distinct by event log and scenario")
COMPONENTS = {
    "real": ["BinaryPopulation", "BinaryGenerator", "samplers", "SimulationProperties", "PopulationRunner",
             "run script text of the CLI", "numpy SeedSequence/Generator"],
    "stub": ["evolution steps and flow (scripted)", "SLURM environment", "mpi4py communicator",
             "operating-system entropy"]}
ASSUMPTIONS = ["two equal 53-bit samples in different streams mean a shared stream"]


def preload():
    pop.preload()


MOE = "Moe+17-PsandQs"
# a coarse grid of the joint distributions, which is quick to set up
COARSE = {"n_M1": 9, "n_logP": 12, "n_q": 19, "n_e": 20}


def samplers(rng):
    o = {}
    if rng.random() < 0.3:
        o["primary_mass_scheme"] = rng.choice(["Salpeter", "Kroupa1993"])
    if rng.random() < 0.2:
        o["secondary_mass_scheme"] = "q=1"
    if rng.random() < 0.3:
        o["orbital_separation_scheme"] = "log_normal"
    if rng.random() < 0.2:
        o["binary_fraction_scheme"] = "Moe+17-massdependent"
    if rng.random() < 0.3:
        o["orbital_scheme"] = "period"
        for k in rng.sample(["secondary_mass_scheme", "orbital_period_scheme", "eccentricity_scheme"], rng.randint(1, 3)):
            o[k] = MOE
        o.update(COARSE)
    return o


def gen(rng):
    mode = rng.choice(["serial", "runner", "array", "array", "array", "arrayent", "mpi", "mpi",
                       "mpirunner"])
    n = rng.randint(2, 7)
    par = mode in ("array", "arrayent", "mpi", "mpirunner")
    size = rng.randint(1, 4) if par else 1
    mets = rng.choice([[1.0], [1.0, 0.1], [2.0, 1.0], [0.1, 1.0, 2.0]])
    if mode == "serial":
        mets = mets[:1]
    draw = rng.random() < 0.5
    plans = pop.gen_plans(rng, n, p_slow=0.02, maxsteps=3)
    if draw:
        for p in plans.values():
            for st in p["steps"]:
                if rng.random() < 0.7:
                    st["draw"] = rng.randint(1, 3)
    plans_b = {}
    for i in range(n):
        if rng.random() < 0.3:
            pb = pop.gen_plans(rng, n, p_fail=0.6, maxsteps=3, indices=[i])
            if draw and rng.random() < 0.5:
                pb[str(i)]["steps"][0]["draw"] = rng.randint(1, 4)
            plans_b.update(pb)

    def setting():
        ram = 4.0 if rng.random() < 0.4 else None
        return {"dump_rate": rng.choice([1, 2, 3, 100]), "ram": ram,
                "mem": [rng.randint(0, 1) for _ in range(3)] if ram else [],
                "breakdown": rng.random() < 0.6}
    met_shift_gap = rng.choice([0, 1, 1, 2, 3])
    scn = {"mode": mode, "n": n, "size": size, "mets": mets, "draw": draw,
           "job": rng.choice([1, 77, 4242, 10 ** 6 + 3]), "gap": met_shift_gap,
           "entropy": rng.choice([0, 1, 2, 12345, 2 ** 31, 2 ** 70 + 1]),
           "offset": rng.choice([0, 0, 1, 3]),
           "A": setting(), "B": setting(), "plans": plans, "plans_b": plans_b,
           "default_plan": {"steps": [{}]},
           "order_b": rng.sample(range(len(mets) * size), len(mets) * size),
           "rescue": [], "reset": rng.random() < 0.4,
           "single_frac": rng.choice([1.0, 1.0, 0.6]),
           "scheme": rng.choice(["period", "period", "separation"]),
           "ecc": rng.choice(["zero", "thermal", "uniform"]),
           "samp": samplers(rng),
           "sf": rng.choice(["burst", "constant"]),
           "kill_b": [], "b_via": rng.choice(["script", "script", "direct"]),
           "sched_seed": rng.randrange(1 << 30), "list_seed": rng.randrange(1 << 30),
           "sticky": rng.choice([0.0, 0.7])}
    if mode in ("array",):
        for _ in range(rng.randint(0, 2)):
            scn["rescue"].append([rng.randrange(len(mets)), rng.randrange(size), rng.choice([0, 1, 2, 3, 7, 50])])
    if par and rng.random() < 0.5:
        scn["kill_b"] = [[rng.randrange(len(mets)), rng.randrange(size), rng.randint(3, 80)]]
    return scn


def directed():
    base = {"mode": "array", "n": 6, "size": 3, "mets": [1.0, 0.1], "draw": True, "job": 4242, "gap": 1,
            "entropy": 1, "offset": 1, "A": {"dump_rate": 2, "ram": None, "mem": [], "breakdown": True},
            "B": {"dump_rate": 1, "ram": None, "mem": [], "breakdown": False},
            "plans": {str(i): {"steps": [{"draw": 2}, {}]} for i in range(6)}, "plans_b": {},
            "default_plan": {"steps": [{}]}, "order_b": [5, 3, 1, 0, 2, 4], "rescue": [[0, 1, 5]],
            "reset": True, "single_frac": 0.6, "scheme": "period", "ecc": "thermal", "sf": "constant",
            "kill_b": [], "b_via": "script", "sched_seed": 1, "list_seed": 1, "sticky": 0.5}
    return [base, dict(base, gap=0, rescue=[]), dict(base, mode="mpi", rescue=[]), dict(base, mode="mpirunner", rescue=[]),
            dict(base, mode="arrayent", rescue=[]),
            dict(base, mode="serial", size=1, mets=[1.0], order_b=[0], rescue=[]),
            dict(base, mode="runner", size=1, mets=[1.0, 0.1], order_b=[0, 1], rescue=[]),
            dict(base, mode="mpirunner", rescue=[], samp={"secondary_mass_scheme": MOE, **COARSE}),
            dict(base, mode="serial", size=1, mets=[1.0], order_b=[0], rescue=[], samp={"secondary_mass_scheme": "q=1"})]


def valid(s):
    return (len(s["mets"]) >= 1 and sorted(s["order_b"]) == list(range(len(s["mets"]) * s["size"]))
            and all(m < len(s["mets"]) and r < s["size"] for m, r, _ in s["rescue"] + s["kill_b"])
            and all(p.get("steps") for p in list(s["plans"].values()) + list(s["plans_b"].values())))


def opts(scn, which):
    st = scn[which]
    return {"optimize_ram": True, "ram_per_cpu": st["ram"], "dump_rate": st["dump_rate"],
            "breakdown_to_df": st["breakdown"], "metallicities": scn["mets"],
            "number_of_binaries": scn["n"], "binary_fraction_const": scn["single_frac"],
            "entropy": None if scn["mode"] == "array" else scn["entropy"],
            "use_MPI": scn["mode"] in ("mpi", "mpirunner"),
            "orbital_scheme": scn["scheme"], "eccentricity_scheme": scn["ecc"],
            "log_orbital_separation_mean": 1.5, "log_orbital_separation_sigma": 0.5,
            "star_formation": scn["sf"], **scn.get("samp", {})}


SAMPLE = ("time", "orbital_period", "eccentricity", "S1_mass", "S2_mass", "state")


def check_sample(who, index, s):
    """A system has a primary and, with an orbit, a secondary or, without one, none."""
    m1, m2, per = (s[c] for c in ("S1_mass", "S2_mass", "orbital_period"))

    def known(x):
        return x is not None and x == x
    single = s["state"] == "initially_single_star"
    if not known(m1) or not m1 > 0:
        raise Violation("no-primary", f"{who}: binary {index} starts with the primary mass {m1!r}")
    if not single and not (known(m2) and known(per)):
        raise Violation("no-companion", f"{who}: binary {index} starts as {s['state']} with the secondary mass {m2!r}, "
                                        f"and the period {per!r}")


def run(scn, sim):
    mode, size, mets, n = scn["mode"], scn["size"], scn["mets"], scn["n"]
    init = {}     # (node, stream) -> [(index, sample)]
    draws = {}

    def on_rec(node, msg):
        if msg["kind"] == "init":
            key = (node.name, msg["met"])
            s = msg["snap"]
            check_sample(node.name, msg["index"], s)
            init.setdefault(key, []).append((msg["index"], tuple(repr(s[c]) for c in SAMPLE), s["S1_mass"]))
        return {"do": "go"}

    def on_draw(node, msg):
        draws.setdefault((node.name, msg["met"]), []).append((msg["index"], msg["v"]))
        return {"do": "go"}
    sim.on_msg["rec"] = on_rec
    sim.on_msg["draw"] = on_draw

    def hooks(which, met):
        st = scn[which]
        plans = dict(scn["plans"])
        if which == "B":
            plans.update(scn["plans_b"])

        def rec(index, kind, snap):
            if kind == "init":
                kernel.NODE.call({"t": "rec", "index": int(index), "kind": kind, "snap": snap,
                                  "met": snap["~Z"]})

        def draw(binary, v):
            kernel.NODE.call({"t": "draw", "index": int(binary.index), "v": v,
                              "met": float(binary.star_1.metallicity)})
        return {"plan": pop.plan_hook(plans, scn["default_plan"]), "rec": rec, "draw": draw,
                "rss": pop.mem_hook(st["mem"], st["ram"] or 4.0)}

    def go_runner():
        from posydon.popsyn.synthetic_population import PopulationRunner
        PopulationRunner("pop.ini").evolve()

    def job_of(mi):
        return scn["job"] + mi * scn["gap"]

    def env(mi, r, job=None):
        return {"SLURM_ARRAY_JOB_ID": str(job if job is not None else job_of(mi)),
                "SLURM_ARRAY_TASK_ID": str(r + scn["offset"]),
                "SLURM_ARRAY_TASK_MIN": str(scn["offset"]), "SLURM_ARRAY_TASK_COUNT": str(size)}

    def go_rank(met, r, via="script"):
        def go():
            if mode in ("mpi", "mpirunner"):
                pop.install_fake_mpi(r, size)
            if via == "script":
                run_rank("pop.ini", met)
            else:
                # the same population built and evolved through the Python interface
                from posydon.binary_evol.simulationproperties import SimulationProperties
                from posydon.popsyn.binarypopulation import BinaryPopulation
                from posydon.popsyn.io import binarypop_kwargs_from_ini, simprop_kwargs_from_ini
                kw = binarypop_kwargs_from_ini("pop.ini")
                kw["metallicity"] = met
                kw["temp_directory"] = f"{met}_" + kw["temp_directory"]
                kw["population_properties"] = SimulationProperties(**simprop_kwargs_from_ini("pop.ini"))
                BinaryPopulation(**kw).evolve()
        return go

    def execute(which):
        d = os.path.join(sim.root, which)
        os.makedirs(d)
        with open(os.path.join(d, "pop.ini"), "w") as f:
            f.write(pop.ini_text(opts(scn, which)))
        nodes = []
        if mode == "serial":
            def body():
                from posydon.popsyn.binarypopulation import BinaryPopulation
                p = BinaryPopulation.from_ini("pop.ini")
                p.evolve()
                p.save("final.h5")
            nd = sim.solo(f"{which}.serial", body, cwd=d, hooks=hooks(which, mets[0]))
            must_succeed(nd, "serial run", sim)
            return {(mets[0], 0): (nd.name, mets[0])}
        if mode == "runner":
            nd = sim.solo(f"{which}.runner", go_runner, cwd=d, hooks=hooks(which, None))
            must_succeed(nd, "population runner", sim)
            return {(m, 0): (nd.name, m) for m in mets}
        out = {}
        if mode in ("mpi", "mpirunner"):
            pop.World(sim, size)
        if mode == "mpirunner" and which == "A":
            for r in range(size):
                def body(r=r):
                    pop.install_fake_mpi(r, size)
                    from posydon.popsyn.synthetic_population import PopulationRunner
                    PopulationRunner("pop.ini").evolve()
                nd = sim.spawn(f"{which}.r{r}", body, cwd=d, hooks=hooks(which, None))
                nodes.append(nd)
                for m in mets:
                    out[(m, r)] = (nd.name, m)
        else:
            order = list(range(len(mets) * size)) if which == "A" else scn["order_b"]
            killed = {(m, r): k for m, r, k in scn["kill_b"]} if which == "B" else {}
            for o in order:
                mi, r = divmod(o, size)
                met = mets[mi]
                e = env(mi, r) if mode in ("array", "arrayent") else None
                via = "script" if which == "A" else scn["b_via"]
                if (mi, r) in killed:
                    nm = f"{which}.m{mi}.r{r}.killed"
                    sim.faults.append({"node": nm, "n": killed[(mi, r)], "do": "kill"})
                    sim.spawn(nm, go_rank(met, r, via), cwd=d, env=e, hooks=hooks(which, met))
                    sim.run()    # a batch system never runs a task and its repetition at once
                nd = sim.spawn(f"{which}.m{mi}.r{r}", go_rank(met, r, via), cwd=d, env=e,
                               hooks=hooks(which, met))
                if scn["sched_seed"] % 3 == 0:
                    sim.run()
                nodes.append(nd)
                out[(met, r)] = (nd.name, met)
        sim.run()
        for nd in nodes:
            must_succeed(nd, nd.name, sim)
        return out

    a = execute("A")
    b = execute("B")
    for run_ in (a, b):
        for met in mets:
            idx = sorted(i for key, nk in run_.items() if key[0] == met for i, _, _ in init.get(nk, []))
            if idx != list(range(n)):
                raise Violation("other-binaries", f"metallicity {met}: evolved binaries {idx} of {n}")
    # reproducible
    changed = set(int(i) for i in scn["plans_b"])
    streams = 0
    for key in a:
        sa, sb = init.get(a[key], []), init.get(b[key], [])
        ia, ib = [i for i, _, _ in sa], [i for i, _, _ in sb]
        if ia != ib:
            raise Violation("other-binaries", f"{key}: indices {ia} then {ib}")
        if scn["draw"] and set(ia) & changed:
            sim.count_probe("stream_not_compared")
            continue
        streams += 1
        if sa != sb:
            k = next(k for k in range(len(sa)) if sa[k] != sb[k])
            raise Violation("not-reproducible", f"metallicity {key[0]} rank {key[1]}: binary {sa[k][0]} "
                                                f"started as {sa[k][1]} and, run again, as {sb[k][1]}")
        if scn["draw"]:
            da, db = draws.get(a[key], []), draws.get(b[key], [])
            if da != db:
                raise Violation("steps-not-reproducible", f"metallicity {key[0]} rank {key[1]}: the steps' "
                                                          f"draws differ: {da[:4]} / {db[:4]}")
    # disjoint
    distinct_mets = mode in ("array", "mpi", "mpirunner")
    seen = {}
    for run_ in (a, b):
        seen = {}
        for key, nk in run_.items():
            for v in [x[2] for x in init.get(nk, [])] + [("d", x[1]) for x in draws.get(nk, [])]:
                k = v if distinct_mets else (key[0], v)
                if k in seen and seen[k] != key:
                    raise Violation("shared-stream", f"metallicity/rank {seen[k]} and {key} drew the same value {v}")
                seen[k] = key
    # rescued ranks
    for q, (mi, r, dj) in enumerate(scn["rescue"]):
        d = os.path.join(sim.root, "A")
        met = mets[mi]
        job = job_of(len(mets)) + dj * 2 if dj else job_of(mi)
        nd = sim.solo(f"R{q}", go_rank(met, r), cwd=d,
                      env=env(mi, r, job), hooks=hooks("A", met))
        must_succeed(nd, f"rescue of rank {r}", sim)
        old = init.get(a[(met, r)], [])
        new = init.get((nd.name, met), [])
        sim.count_probe("rank_rerun")
        if [x[0] for x in new] != [x[0] for x in old]:
            raise Violation("other-share", f"rank {r} originally evolved {[x[0] for x in old]}, "
                                           f"re-run {[x[0] for x in new]}")
        if dj == 0:
            if new != old:
                raise Violation("not-reproducible", f"rank {r} re-run under the same job id draws other samples")
        else:
            for r2 in range(size):
                if r2 != r:
                    both = {x[2] for x in new} & {x[2] for x in init.get(a[(met, r2)], [])}
                    if both:
                        raise Violation("shared-stream", f"re-run of rank {r} under job {job} repeats samples "
                                                         f"of completed rank {r2}: {sorted(both)[:3]}")
    # starting a stream again
    if scn["reset"] and mode != "runner":
        got = {}
        for mi, met in enumerate(mets):
            for r in range(size):
                def body(r=r, met=met):
                    if mode in ("mpi", "mpirunner"):
                        pop.install_fake_mpi(r, size)
                    from posydon.popsyn.binarypopulation import BinaryPopulation
                    from posydon.popsyn.io import binarypop_kwargs_from_ini
                    kw = binarypop_kwargs_from_ini("pop.ini")
                    kw["metallicity"] = met
                    p = BinaryPopulation(**kw)
                    g = p.manager.binary_generator

                    def draw():
                        o = g.draw_initial_samples(**{**kw, "number_of_binaries": 4})
                        return [tuple(repr(float(x)) for x in o[c]) for c in (
                            "S1_mass", "S2_mass", "orbital_period", "separation", "eccentricity", "time")]
                    first = draw()
                    g.reset_rng()
                    return first, draw()
                nd = sim.solo(f"reset.m{mi}.r{r}", body, cwd=os.path.join(sim.root, "A"),
                              env=env(mi, r) if mode in ("array", "arrayent") else None)
                must_succeed(nd, "drawing samples", sim)
                x, y = nd.result
                if x != y:
                    raise Violation("reset-stream", f"metallicity {met} rank {r} of {size}: after reset_rng the "
                                                    f"generator draws {y[:2]}..., originally {x[:2]}...")
    return {"streams_compared": streams, "ranks": size * len(mets), "binaries": n * len(mets)}


def nontrivial(scn, res):
    return scn["size"] * len(scn["mets"]) >= 2 or scn["n"] >= 2

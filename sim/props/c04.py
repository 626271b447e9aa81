"""C04: evolution always terminates and step time limits never leak."""
import os

from .. import kernel, pop
from ..kernel import Violation
from .c01 import must_succeed

PROP = "C04"
QUICK = {"runs": 1500, "wall": 40}
THOROUGH = {"runs": 60000, "wall": 3000}
SHRINK_INT = {"n": 1, "list_seed": 0, "sched_seed": 0}
SHRINK_TO = {"mode": "direct", "event_cost": 0.001, "post_evolve": 0.0, "breakdown": False,
             "optimize_ram": False}
RULE = ("one case = one sequence of binaries evolved with scripted step durations in virtual time "
        "(through the population or directly); non-trivial if at least one step came within 10 % of "
        "or above the limit, or a binary never ended")
COMPONENTS = {
    "real": ["BinaryStar.evolve/run_step", "BinaryPopulation evolution loop", "signal handling",
             "SimulationProperties and its hooks", "set_binary_to_failed"],
    "stub": ["clock and SIGALRM timer (virtual)", "evolution steps and flow (scripted)"]}
ASSUMPTIONS = ["the step limit is 120 s and the default step budget 100, as shipped",
               "a step is Python code that lets the signal handler run (no long C call)"]
LIMIT = 120.0


def preload():
    pop.preload()


def gen_plan(rng):
    nst = rng.choice([1, 1, 2, 2, 3, 4, 6])
    steps = []
    for _ in range(nst):
        r = rng.random()
        d = (0.0 if r < 0.25 else rng.uniform(0.1, 100) if r < 0.55 else rng.uniform(100, 118.5)
             if r < 0.85 else rng.choice([121.5, 130.0, 239.0, 241.0, 1e4, 1e7]))
        st = {"dur": round(d, 3)} if d else {}
        if rng.random() < 0.15:
            st["exc"] = rng.choice(["ValueError", "KeyError", "FlowError", "TimeoutError"])
        if rng.random() < 0.1:
            st["event"] = rng.choice(["nowhere", "badstep", "redirect_x"])
        steps.append(st)
    plan = {"steps": steps}
    if rng.random() < 0.12:
        plan["loop"] = True
        for st in steps:
            st.pop("event", None)
            if rng.random() < 0.8:
                st.pop("exc", None)
                st["dur"] = min(st.get("dur", 0), 60.0)
    return plan


def gen(rng):
    n = rng.randint(1, 6)
    return {"mode": rng.choice(["direct", "direct", "pop"]), "n": n,
            "event_cost": rng.choice([0.001, 0.001, 0.5, 1.0]),
            "plans": {str(i): gen_plan(rng) for i in range(n)}, "default_plan": {"steps": [{}]},
            "optimize_ram": rng.random() < 0.6, "breakdown": rng.random() < 0.5,
            "dump_rate": rng.choice([1, 2, 100]), "late": [i for i in range(n) if rng.random() < 0.1],
            "max_steps": rng.choice([100, 100, 1, 2, 5, 20, None]),
            "post_evolve": rng.choice([0.0, 0.0, 50.0, 500.0]),
            "idle": [rng.choice([0.0, 1.0, 119.0, 500.0]) for _ in range(n)],
            "list_seed": 0, "sched_seed": 0}


def directed():
    base = {"mode": "direct", "n": 3, "event_cost": 0.001, "default_plan": {"steps": [{}, {}]},
            "optimize_ram": True, "breakdown": True, "dump_rate": 1, "late": [], "max_steps": 100,
            "post_evolve": 0.0, "idle": [500.0, 500.0, 500.0], "list_seed": 0, "sched_seed": 0}
    slow = {"0": {"steps": [{"dur": 100.0}, {"dur": 100.0}, {"dur": 100.0}]},
            "1": {"steps": [{"dur": 10.0}, {"dur": 125.0}]},
            "2": {"steps": [{"dur": 100.0, "exc": "ValueError"}]}}
    loop = {"0": {"steps": [{"dur": 1.0}], "loop": True}, "1": {"steps": [{"dur": 118.0}]}}
    out = [dict(base, mode=m, plans=p, event_cost=c) for m in ("direct", "pop")
           for p in (slow, loop) for c in (0.001, 1.0)]
    out.append(dict(base, plans=slow, post_evolve=500.0))
    out.append(dict(base, plans=loop, max_steps=5, late=[1]))
    out.append(dict(base, mode="pop", plans={str(i): {"steps": [{"dur": 119.0 - 2}] * 2}
                                             for i in range(3)}, event_cost=1.0))
    return out


def valid(s):
    return s["n"] >= 1 and len(s["idle"]) >= s["n"]


def expect(scn, i, cost, maxs):
    """(set of allowed completed-step counts, failed?, interrupted step or None)."""
    plan = scn["plans"].get(str(i), scn["default_plan"])
    steps, loop = plan.get("steps", []), plan.get("loop", False)
    if i in scn["late"] and scn["mode"] == "direct":
        return {0}, True, None
    k = 0
    while True:
        st = steps[k] if k < len(steps) else (steps[-1] if loop and steps else {})
        # duration of the step: scripted time plus the cost of its one reported event
        if st.get("dur", 0) + cost > LIMIT:
            return {k}, True, k
        if st.get("exc"):
            return {k}, True, None
        last = k + 1 >= len(steps) and not loop
        k += 1
        if maxs is not None and k > maxs:
            return {k - 1, k} if last else {k}, True, None
        if last:
            return {k}, False, None
        if st.get("event") in ("nowhere", "badstep"):
            return {k}, True, None


def run(scn, sim):
    root = sim.root
    n = scn["n"]
    cost = scn["event_cost"]
    maxs = scn["max_steps"]
    # an endless binary with no step budget would not end, by definition
    if maxs is None and any(p.get("loop") for p in scn["plans"].values()):
        maxs = 100
    if scn["mode"] == "pop":
        maxs = 100
    rec = {}
    order = []

    def on_rec(node, msg):
        rec.setdefault(msg["index"], []).append((sim.clock, msg["kind"]))
        return {"do": "go"}
    sim.on_msg["rec"] = on_rec

    def on_done(node, msg):
        order.append((msg["index"], msg["failed"], sim.clock))
        return {"do": "go"}
    sim.on_msg["bin_done"] = on_done
    alarms = []

    def on_alarm(node):
        alarms.append((sim.clock, order[-1][0] + 1 if order else 0))
    sim.on_alarm = on_alarm
    with open(os.path.join(root, "pop.ini"), "w") as f:
        f.write(pop.ini_text({
            "optimize_ram": scn["optimize_ram"], "dump_rate": scn["dump_rate"],
            "breakdown_to_df": scn["breakdown"], "number_of_binaries": n, "entropy": 11}, hooks="slow"))
    hooks = pop.hooks_for({**scn, "mem": [], "ram": None})
    hooks["post_evolve"] = scn["post_evolve"]

    def tell(index, failed):
        kernel.NODE.call({"t": "bin_done", "index": int(index), "failed": bool(failed)})

    def build():
        from posydon.popsyn.binarypopulation import BinaryPopulation
        return BinaryPopulation.from_ini("pop.ini")

    def direct():
        p = build()
        p.population_properties.load_steps(RNG=p.RNG)
        p.population_properties.max_n_steps_per_binary = maxs
        out = []
        for i in range(n):
            b = p.manager.generate(index=i, **p.kwargs)
            b.properties = p.population_properties
            if i in scn["late"]:
                b.time = 1e12
            err = None
            try:
                b.evolve()
            except Exception as e:
                err = type(e).__name__
            tell(i, err is not None)
            # whatever happens next in the process must not be interrupted
            kernel.NODE.sleep(scn["idle"][i])
            out.append((i, err))
        kernel.NODE.sleep(1000.0)
        return out

    def whole():
        p = build()
        p.evolve()
        kernel.NODE.sleep(500.0)
        p.save("out.h5")
        kernel.NODE.sleep(1000.0)
        import pandas as pd
        one = pd.read_hdf("out.h5", key="oneline")
        for i, f in zip(one.index, one["FAILED"]):
            tell(i, f)
        return None
    sim.max_events = 60000
    node = sim.solo("p", direct if scn["mode"] == "direct" else whole, cwd=root, hooks=hooks)
    if not node.ok:
        raise Violation("interrupted-outside-step" if "maximum" in str(node.exc).lower()
                        else "evolution-crashed",
                        f"process ended with {node.exc and node.exc[:2]}\n{node.exc and node.exc[2][-900:]}")
    done = {}
    for index, failed, t in order:
        if index in done:
            raise Violation("evolved-twice", f"binary {index} dealt with twice")
        done[index] = (failed, t)
    expected_alarms = []
    slowest = 0
    for i in range(n):
        if i not in done:
            raise Violation("binary-not-dealt-with", f"binary {i} was never dealt with")
        allowed, failed, cut = expect(scn, i, cost, maxs)
        msgs = rec.get(i, [])
        nst = sum(1 for _, k in msgs if k == "step")
        if nst not in allowed:
            raise Violation("wrong-step-count", f"binary {i}: {nst} steps completed, expected "
                                                f"{sorted(allowed)} (limit {maxs} steps, "
                                                f"{LIMIT} s per step)")
        if done[i][0] != failed:
            raise Violation("wrong-outcome", f"binary {i}: reported {'failed' if done[i][0] else 'ended'}"
                                             f", expected {'failed' if failed else 'ended'}")
        if cut is not None:
            # the last "mid" message marks the beginning of the interrupted step
            t0 = [t for t, k in msgs if k == "mid"]
            expected_alarms.append((i, t0[cut] if cut < len(t0) else msgs[-1][0]))
    if len(alarms) != len(expected_alarms):
        raise Violation("alarm-count", f"{len(alarms)} interruptions at {alarms}, expected "
                                       f"{len(expected_alarms)} {expected_alarms}")
    for (t, _), (i, t0) in zip(alarms, expected_alarms):
        if abs((t - t0) - LIMIT) > 2 * cost + 0.01:
            raise Violation("wrong-limit", f"binary {i}: step interrupted {t - t0:.3f} s after it "
                                           f"began, limit {LIMIT} s")
    return {"binaries": n, "interruptions": len(alarms)}


def nontrivial(scn, res):
    return any(p.get("loop") or any(s.get("dur", 0) > 0.9 * LIMIT for s in p["steps"])
               for p in scn["plans"].values())

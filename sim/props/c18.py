"""C18: a binary's recorded history is exact, restorable and re-loadable."""
import copy
import math
import os
import random

import numpy as np
import pandas as pd

from .. import fakesteps, kernel, pop
from ..kernel import Violation

PROP = "C18"
QUICK = {"runs": 20000, "wall": 50}
THOROUGH = {"runs": 2000000, "wall": 2400}
KEEP = {"seed", "pos", "plan"}
SHRINK_INT = {"sched_seed": 0, "list_seed": 0}
SHRINK_TO = {"hooks": [], "single": False, "verbose": False, "shared": None}
RULE = ("one case = one binary taken through a history of evolutions, single steps, failures and time-outs inside "
        "steps, restores, table and file conversions; non-trivial if at least two steps were recorded and one restore, "
        "failure or conversion happened; distinct by event log and scenario")
COMPONENTS = {"real": ["posydon.binary_evol.binarystar", "posydon.binary_evol.singlestar",
                       "posydon.binary_evol.simulationproperties", "posydon.popsyn.io",
                       "posydon.popsyn.binarypopulation.PopulationManager", "pandas/PyTables"],
              "stub": ["evolution steps (scripted, all recorded properties set)", "alarm clock (virtual)"]}
ASSUMPTIONS = ["missing numbers and texts are equal to each other (None, nan, empty)",
               "steps replace values and do not change recorded ones in place"]
STATES = fakesteps.STATES[:6]
S_STATES = fakesteps.S_STATES
MT = ["None", "case_A1", "no_RLO", "case_BA1", "stable_MT"]
S_SCALARS = {"natal_kick_velocity": "num", "natal_kick_azimuthal_angle": "num", "natal_kick_polar_angle": "num",
             "natal_kick_mean_anomaly": "num", "SN_type": "str", "f_fb": "num", "spin_orbit_tilt_first_SN": "num",
             "spin_orbit_tilt_second_SN": "num", "M4": "num", "mu4": "num",
             "avg_c_in_c_core_at_He_depletion": "num", "co_core_mass_at_He_depletion": "num",
             "h1_mass_ej": "num", "he4_mass_ej": "num", "m_disk_accreted": "num", "m_disk_radiated": "num",
             "Xi": "num", "m_core_CE_10cent": "num", "r_core_CE_pure_He_star_10cent": "num"}
B_SCALARS = {"interp_class_HMS_HMS": "str", "interp_class_CO_HMS_RLO": "str", "mt_history_HMS_HMS": "str",
             "mt_history_CO_HeMS": "str", "cumulative_mt_case_HMS_HMS": "str"}
_P = {}


def preload():
    pop.preload()
    import posydon.binary_evol.binarystar as bs
    import posydon.binary_evol.singlestar as ss
    import posydon.binary_evol.simulationproperties as sp
    from posydon.utils.common_functions import set_binary_to_failed
    _P.update(bs=bs, ss=ss, sp=sp, failed=set_binary_to_failed)
    if "make" not in _P:
        _P["make"] = make_classes()


# ---------------------------------------------------------------- scenario
def gen_plan(rng):
    n = rng.randint(1, 7)
    out = []
    for k in range(n):
        st = {"event": rng.choice(["oRLO1", "oRLO2", "CC1", "CC2", "oCE1", "CO_contact", "redirect_x", None])}
        if rng.random() < 0.15 and st["event"] != "redirect_x":
            st["extra"] = rng.randint(1, 3)       # the step records a track of its own
        out.append(st)
    return out


def gen_fault(rng, n):
    f = {"pos": rng.randrange(n), "kind": rng.choice(["exc", "exc", "exc", "slow", "kbd"]),
         "when": rng.choice(["pre", "mid", "late"]), "exc": rng.choice(fakesteps.EXC_KINDS)}
    return f


def gen_sel(rng):
    """Which columns a user asks for."""
    u = rng.random()
    if u < 0.35:
        return {}
    bp = ["state", "event", "time", "separation", "orbital_period", "eccentricity", "V_sys", "lg_mtransfer_rate",
          "mass_transfer_case", "nearest_neighbour_distance", "t_sync_rad_1", "rl_relative_overflow_2"]
    sprop = ["state", "mass", "log_R", "spin", "avg_c_in_c_core", "total_moment_of_inertia", "center_h1",
             "mass_conv_reg_fortides", "metallicity", "lambda_CE_10cent", "surface_he4"]
    s = {}
    if u < 0.75:
        s["only"] = sorted(set(["state", "event", "time"]) | set(rng.sample(bp, rng.randint(1, 8))), key=bp.index)
        s["s_only"] = sorted(set(["state", "mass"]) | set(rng.sample(sprop, rng.randint(1, 7))), key=sprop.index)
    else:
        s["ignore"] = rng.sample(bp[3:], rng.randint(1, 4))
        s["s_ignore"] = rng.sample(sprop[2:], rng.randint(1, 4))
    if rng.random() < 0.15:
        s["no_star"] = rng.choice([1, 2])
    return s


def gen(rng):
    plan = gen_plan(rng)
    n = len(plan)
    ops = []
    for _ in range(rng.randint(2, 7)):
        u = rng.random()
        if u < 0.3:
            o = {"op": "evolve", "mark": rng.random() < 0.6}
            if rng.random() < 0.45:
                o["fault"] = gen_fault(rng, n)
        elif u < 0.45:
            o = {"op": "step", "n": rng.randint(1, 3)}
            if rng.random() < 0.2:
                o["fault"] = gen_fault(rng, n)
        elif u < 0.66:
            o = {"op": "restore", "i": rng.randrange(-9, 9)}
        elif u < 0.7:
            o = {"op": "reset"}
        elif u < 0.73:
            o = {"op": "switch"}
        elif u < 0.83:
            o = {"op": "tables", "sel": gen_sel(rng), "index": rng.choice([None, None, 0, 8]),
                 "null": rng.choice([None, None, -1.0])}
        elif u < 0.92:
            o = {"op": "oneline", "sel": gen_sel(rng), "legacy": rng.random() < 0.2, "index": rng.choice([None, None, 0, 8])}
        else:
            o = {"op": "file", "sel": gen_sel(rng), "again": rng.random() < 0.5, "legacy": rng.random() < 0.15}
        ops.append(o)
    return {"seed": rng.randrange(10 ** 6), "plan": plan, "ops": ops, "verbose": rng.random() < 0.3,
            "hooks": [h for h in ("names", "times", "user") if rng.random() < 0.35], "single": rng.random() < 0.15,
            "shared": rng.choice([None, None, "both", "other"]),
            "maxn": rng.choice([100, 100, 100, 3, None]), "index": rng.choice([0, 3, 12]), "endev": rng.choice(
                ["END", "END", "END", "endev", "endst"]), "sched_seed": 1, "list_seed": 1}


def directed():
    base = {"seed": 5, "plan": [{"event": "oRLO1"}, {"event": "CC1"}, {"event": None}, {"event": "redirect_x"},
                                {"event": "oCE1"}],
            "ops": [], "verbose": False, "hooks": [], "single": False, "maxn": 100, "index": 3, "endev": "END",
            "sched_seed": 1, "list_seed": 1}
    ev = {"op": "evolve", "mark": True}
    out = []
    for hooks in ([], ["names", "times"], ["user"]):
        for verbose in (False, True):
            for i in (-1, -2, 0, 2, 4):
                out.append(dict(base, hooks=hooks, verbose=verbose, ops=[
                    ev, {"op": "restore", "i": i}, ev, {"op": "restore", "i": i}, {"op": "step", "n": 1}]))
    for hooks in ([], ["names", "times", "user"]):
        for kind in ("exc", "slow", "kbd"):
            for when in ("pre", "mid", "late"):
                for mark in (True, False):
                    out.append(dict(base, hooks=hooks, ops=[
                        {"op": "evolve", "mark": mark, "fault": {"pos": 2, "kind": kind, "when": when,
                                                                 "exc": "ValueError"}},
                        {"op": "tables", "sel": {}, "index": None, "null": None}, {"op": "oneline", "sel": {},
                                                                                     "legacy": False, "index": None},
                        {"op": "file", "sel": {}, "again": False, "legacy": False},
                        {"op": "restore", "i": -1}, {"op": "restore", "i": -2}, ev]))
    for sel in ({}, {"only": ["state", "event", "time", "separation", "V_sys"], "s_only": ["state", "mass",
                                                                                           "avg_c_in_c_core"]},
                {"only": ["state", "event", "time", "orbital_period", "nearest_neighbour_distance"],
                 "s_only": ["state", "mass", "total_moment_of_inertia"]},
                {"ignore": ["V_sys", "orbital_period"], "s_ignore": ["log_R"]}):
        for legacy in (False, True):
            for single in (False, True):
                out.append(dict(base, single=single, hooks=["names", "user"], ops=[
                    ev, {"op": "tables", "sel": sel, "index": 0, "null": None},
                    {"op": "oneline", "sel": sel, "legacy": legacy, "index": 0},
                    {"op": "file", "sel": sel, "again": True, "legacy": legacy}]))
    out.append(dict(base, ops=[{"op": "restore", "i": 0}, ev, {"op": "reset"}, ev], hooks=["names"]))
    return out


def valid(s):
    return bool(s["plan"])


# ---------------------------------------------------------------- values
def value(seed, pos, who, prop, kind):
    r = random.Random(f"{seed}:{pos}:{who}:{prop}")
    if kind == "str":
        if prop == "mass_transfer_case":
            return r.choice(MT)
        if prop == "SN_type":
            return r.choice(["CCSN", "ECSN", "PPISN", "WD", None])
        return r.choice(["no_MT", "stable_MT", "unstable_MT", "None", None])
    if kind == "vec":
        v = [r.uniform(-50, 50) for _ in range(3)]
        return np.array(v) if r.random() < 0.7 else v
    u = r.random()
    x = r.choice([r.uniform(-5, 5), r.uniform(0, 1e6), 10 ** r.uniform(-12, 50)])
    if u < 0.1:
        return None
    if u < 0.2:
        return float("nan")
    if u < 0.4:
        return np.float64(x)
    if u < 0.45:
        return r.randrange(100)
    return x


VEC = ("V_sys", "nearest_neighbour_distance")


def snapshot(obj, props):
    return {p: copy.deepcopy(getattr(obj, p)) for p in props}


def is_missing(v):
    if v is None or v is pd.NA:
        return True
    if isinstance(v, str):
        return v in ("", "nan", "None", "<NA>")
    try:
        return bool(math.isnan(v))
    except TypeError:
        return False


def same(a, b, exact):
    """exact: as objects in memory; otherwise as values stored in tables."""
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
        if not (isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray))):
            if exact:
                return False
            v, s = (a, b) if isinstance(a, (list, tuple, np.ndarray)) else (b, a)
            return is_missing(s) and all(is_missing(x) for x in v)
        if getattr(a, "dtype", None) is not None and getattr(a, "dtype").names:
            return getattr(b, "dtype", None) == a.dtype and a.tobytes() == b.tobytes()
        return len(a) == len(b) and all(same(x, y, exact) for x, y in zip(a, b))
    if is_missing(a) or is_missing(b):
        if exact:
            if isinstance(a, str) or isinstance(b, str):
                return type(a) is type(b) and a == b
            return (a is None) == (b is None) and is_missing(a) and is_missing(b)
        return is_missing(a) and is_missing(b)
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return float(a) == float(b)


def make_classes():
    sp = _P["sp"]

    class UserHook(sp.EvolveHooks):
        """A user's hook with one history column of the binary and one of each star."""

        def __init__(self):
            self.extra_binary_col_names = ["user_index_f"]
            self.extra_star_col_names = ["user_fuel"]

        def pre_evolve(self, binary):
            if not hasattr(binary, "user_index_f"):
                binary.user_index_f = ["start"]
                for s in (binary.star_1, binary.star_2):
                    s.user_fuel = [0.5]
            return binary

        def post_step(self, binary, step_name):
            n = len(binary.event_history)
            while len(binary.user_index_f) < n:
                binary.user_index_f.append(f"u{len(binary.user_index_f)}")
            for s in (binary.star_1, binary.star_2):
                while len(s.user_fuel) < n:
                    s.user_fuel.append(float(len(s.user_fuel)))
            return binary

        def post_evolve(self, binary):
            return self.post_step(binary, None)

    class Step:
        DEFAULT_KWARGS = {}
        NAME = "step_detached"

        def __init__(self, **kw):
            pass

        def __call__(self, binary):
            kernel.NODE.hooks["run"].step(self.NAME, binary)

    steps = {n: (type("S" + n, (Step,), {"NAME": n}), {}) for n in pop.STEP_NAMES + ["step_SN", "step_end"]}
    return {"hook": UserHook, "steps": steps}


def run(scn, sim):
    node = sim.solo("main", lambda: Run(scn).go(), cwd=sim.root)
    if node.exc is not None:
        raise Violation("failed", f"{node.exc[0]}: {node.exc[1]}\n{node.exc[2][-1500:]}")
    for v in node.result["violations"][:1]:
        raise Violation(*v)
    return node.result["info"]


class Run:
    def __init__(self, scn):
        self.scn = scn
        self.seed = scn["seed"]
        self.bad = []
        self.info = {"steps": 0, "failures": 0, "restores": 0, "tables": 0, "files": 0, "rows": 0}
        self.fault = None
        self.tracks = []
        kernel.NODE.hooks["run"] = self

    def fail(self, kind, msg):
        if not self.bad:
            self.bad.append((kind, msg))

    # ------------------------------------------------ scripted step
    def set_all(self, binary, pos, but=()):
        bs, ss = _P["bs"], _P["ss"]
        r = random.Random(f"{self.seed}:{pos}")
        for p in bs.BINARYPROPERTIES:
            if p in ("time", "event") or p in but:
                continue
            if p == "state":
                binary.state = r.choice(STATES)
            elif p in VEC:
                setattr(binary, p, value(self.seed, pos, "b", p, "vec"))
            else:
                setattr(binary, p, value(self.seed, pos, "b", p, "str" if p == "mass_transfer_case" else "num"))
        for w, star in (("1", binary.star_1), ("2", binary.star_2)):
            for p in ss.STARPROPERTIES:
                if p == "metallicity":
                    continue
                if p == "state":
                    star.state = r.choice(S_STATES)
                elif p == "mass":
                    star.mass = r.uniform(0.5, 50)
                elif p == "profile":
                    star.profile = None if r.random() < 0.7 else np.array([(float(pos), 0.5)], dtype=[("a", "f8"), ("b", "f8")])
                else:
                    setattr(star, p, value(self.seed, pos, w, p, "num"))

    def pos(self, binary):
        return int(round(float(binary.time) / 1e6))

    def step(self, name, binary):
        n = kernel.NODE
        p = self.pos(binary)
        plan = self.scn["plan"]
        n.point("step", f"{name}:{p}")
        f = self.fault if self.fault and self.fault["pos"] == p else None
        if f and f["when"] == "pre":
            self.do_fault(f)
        if f and f["when"] == "mid":
            # like a supernova that fails: the orbit is already undefined
            for q in _P["bs"].BINARYPROPERTIES:
                if q not in ("event", "time", "nearest_neighbour_distance"):
                    setattr(binary, q, None)
            self.do_fault(f)
        st = plan[p] if p < len(plan) else {}
        for k in range(st.get("extra", 0)):
            self.set_all(binary, p + 0.01 * (k + 1))
            binary.event = None
            binary.time = 1e6 * p + 1000.0 * (k + 1)
            binary.append_state()
            self.record(binary)
            self.tracks.append(None)
        self.set_all(binary, p + 1)
        binary.time = 1e6 * (p + 1) + (self.seed % 97)
        last = p + 1 >= len(plan)
        if last:
            binary.event = {"END": "END", "endev": "stop_here", "endst": None}[self.scn["endev"]]
            if self.scn["endev"] == "endst":
                binary.state = "stopped"
        else:
            binary.event = st.get("event")
        for q, kind in S_SCALARS.items():
            for w, star in (("1", binary.star_1), ("2", binary.star_2)):
                setattr(star, q, value(self.seed, p, w, q, kind))
        for q, kind in B_SCALARS.items():
            setattr(binary, q, value(self.seed, p, "b", q, kind))
        if f and f["when"] == "late":
            self.do_fault(f)
        self.info["steps"] += 1
        if binary.history_verbose or "redirect" not in (binary.event or ""):
            self.record(binary)
            self.names.append(name)
        self.done = True

    def do_fault(self, f):
        n = kernel.NODE
        n.fault(f"step_{f['kind']}")
        self.fault = None
        self.info["failures"] += 1
        if f["kind"] == "slow":
            n.sleep(500.0)
            return
        if f["kind"] == "kbd":
            raise KeyboardInterrupt
        raise fakesteps.make_exc(f["exc"])

    def record(self, binary):
        bs, ss = _P["bs"], _P["ss"]
        self.h["b"].append(snapshot(binary, bs.BINARYPROPERTIES))
        self.h["1"].append(snapshot(binary.star_1, ss.STARPROPERTIES))
        self.h["2"].append(snapshot(binary.star_2, ss.STARPROPERTIES))

    # ------------------------------------------------ checks
    def check(self, b, when, h=None, current=True, exact=True, only=None):
        bs, ss = _P["bs"], _P["ss"]
        h = h or self.h
        for key, obj, props, pre in (("b", b, bs.BINARYPROPERTIES, ""), ("1", b.star_1, ss.STARPROPERTIES, "star 1 "),
                                     ("2", b.star_2, ss.STARPROPERTIES, "star 2 ")):
            want = h[key]
            for p in props:
                have = getattr(obj, p + "_history")
                if len(have) != len(want):
                    return self.fail("aligned", f"{when}: the history of {pre}{p} has {len(have)} entries instead of "
                                                f"{len(want)}")
                if only is not None and (key, p) not in only:
                    continue
                for j, w in enumerate(want):
                    if not same(w[p], have[j], exact):
                        return self.fail("entry", f"{when}: entry {j} of the history of {pre}{p} is {have[j]!r} "
                                                  f"instead of {w[p]!r}")
                if current and want and not same(want[-1][p], getattr(obj, p), exact):
                    return self.fail("current", f"{when}: {pre}{p} is {getattr(obj, p)!r} although the last entry of "
                                                f"the history is {want[-1][p]!r}")

    def check_hooks(self, b, when):
        n = len(self.h["b"])
        for col in ("step_names", "step_times", "user_index_f"):
            if hasattr(b, col) and len(getattr(b, col)) != n:
                return self.fail("hooks", f"{when}: the extra column {col} has {len(getattr(b, col))} entries for "
                                          f"{n} entries of history")
        if hasattr(b, "step_names") and not any(s.get("extra") for s in self.scn["plan"]):
            have = [x for x in b.step_names]
            if not all(same(x, y, False) for x, y in zip(self.names, have)):
                self.fail("hooks", f"{when}: the step names are {have} instead of {self.names}")
        if hasattr(b, "user_index_f"):
            for s in (b.star_1, b.star_2):
                if len(s.user_fuel) != n:
                    self.fail("hooks", f"{when}: the extra column of a star has {len(s.user_fuel)} entries for {n}")

    # ------------------------------------------------ operations
    def properties(self):
        sp = _P["sp"]
        hooks = []
        if "names" in self.scn["hooks"]:
            hooks.append((sp.StepNamesHooks, {}))
        if "times" in self.scn["hooks"]:
            hooks.append((sp.TimingHooks, {}))
        if "user" in self.scn["hooks"]:
            hooks.append((_P["make"]["hook"], {}))
        pr = sp.SimulationProperties(flow=(fakesteps.flow, {}), extra_hooks=hooks, **_P["make"]["steps"])
        pr.max_simulation_time = 13.8e9
        pr.max_n_steps_per_binary = self.scn["maxn"]
        pr.end_events = ["stop_here"]
        pr.end_states = ["stopped"]
        pr.load_steps(metallicity=1.0)
        return pr

    def new_binary(self):
        bs, ss = _P["bs"], _P["ss"]
        r = random.Random(self.seed)
        s1 = ss.SingleStar(mass=r.uniform(5, 60), state="H-rich_Core_H_burning", metallicity=1.0)
        if self.scn["single"]:
            s2 = ss.SingleStar(**ss.properties_massless_remnant())
            kw = {"separation": float("nan"), "orbital_period": float("nan"), "state": "initially_single_star"}
        else:
            s2 = ss.SingleStar(mass=r.uniform(1, 5), state="H-rich_Core_H_burning", metallicity=1.0)
            kw = {"orbital_period": r.uniform(1, 1000), "state": "detached"}
        self.bystanders = []
        shared = self.scn.get("shared")
        if shared == "both" and not self.scn["single"]:
            s2 = s1                 # one object for two equal stars
        if shared:
            other = bs.BinaryStar(star_1=s1, star_2=s2, index=99, time=0.0, event="ZAMS", **kw)
            self.bystanders = [("the star given for the binary", s1), ("a star of another binary made of the same "
                               "star", other.star_1), ("a star of another binary made of the same star", other.star_2)]
            self.bystanders = [(w, o, snapshot(o, self.star_columns(o))) for w, o in self.bystanders]
        b = bs.BinaryStar(star_1=s1, star_2=s2, index=self.scn["index"], properties=self.properties(), time=0.0,
                          eccentricity=r.choice([0.0, 0.3]), event="ZAMS", history_verbose=self.scn["verbose"], **kw)
        return b

    def star_columns(self, o):
        return [p for p in sorted(o.__dict__) if not p.startswith("_") and not callable(getattr(o, p))]

    def check_bystanders(self, when):
        for what, o, was in self.bystanders:
            if self.star_columns(o) != sorted(was):
                return self.fail("others", f"{when}: {what} has other attributes than before")
            for p, v in was.items():
                if repr(getattr(o, p)) != repr(v):
                    return self.fail("others", f"{when}: {p} of {what} changed from {v!r:.60} to {getattr(o, p)!r:.60}")

    def finished(self, b):
        return b.event in ("END", "FAILED", "stop_here") or b.state == "stopped"

    def go(self):
        self.h = {"b": [], "1": [], "2": []}
        self.names = ["initial_cond"]
        b = self.new_binary()
        self.record(b)
        self.check(b, "at birth")
        self.dirty = False
        self.shorthooks = False
        for k, op in enumerate(self.scn["ops"]):
            when = f"after operation {k} ({op['op']})"
            getattr(self, "op_" + op["op"])(b, op, when)
            self.check(b, when, current=not self.dirty)
            if not self.shorthooks:
                self.check_hooks(b, when)
            self.check_bystanders(when)
            if self.bad:
                break
        self.info["rows"] = len(self.h["b"])
        return {"violations": self.bad, "info": self.info}

    def guarded(self, fn, op):
        """Run evolution code; -> name of the error that ended it or None."""
        self.fault = op.get("fault")
        try:
            fn()
        except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001 - that is what a caller sees
            self.fault = None
            return f"{type(e).__name__}: {e}"
        self.fault = None
        return None

    def after_error(self, b, err, mark):
        self.dirty = True
        self.shorthooks = True
        if mark:
            _P["failed"](b)
            for key, obj, props in (("b", b, _P["bs"].BINARYPROPERTIES), ("1", b.star_1, _P["ss"].STARPROPERTIES),
                                    ("2", b.star_2, _P["ss"].STARPROPERTIES)):
                self.h[key].append(snapshot(obj, props))
            self.names.append(None)
            if (b.event, b.state) != ("FAILED", "ERR"):
                self.fail("failed", f"a failed binary has event {b.event} and state {b.state}")
            self.dirty = False

    def op_evolve(self, b, op, when):
        if self.broken_start(b):
            return
        before = self.info["steps"]
        fails = self.info["failures"]
        err = self.guarded(b.evolve, op)
        limit = self.scn["maxn"]
        if err is not None:
            if (self.info["failures"] == fails and not self.undefined(b)
                    and not (limit is not None and self.info["steps"] - before > limit)):
                return self.fail("failed", f"{when}: evolving failed without a cause: {err}")
            over = self.info["failures"] == fails
            self.after_error(b, err, op["mark"])
            if over and not op["mark"]:
                self.dirty = "redirect" in (b.event or "") and not b.history_verbose
                self.shorthooks = False
        else:
            if self.info["failures"] > fails:
                return self.fail("failed", f"{when}: a step failed or took too long but the evolution went on")
            if not self.finished(b):
                return self.fail("end", f"{when}: the evolution stopped at event {b.event}, state {b.state}")
            if self.info["steps"] > before:
                self.dirty = False
            self.shorthooks = False

    def undefined(self, b):
        """The flow chart refuses some combinations of states."""
        from posydon.binary_evol.flow_chart import UNDEFINED_STATES
        return b.get_total_state() in UNDEFINED_STATES

    def broken_start(self, b):
        """A step may have left behind a state without time: nothing to evolve from."""
        return b.time is None or not isinstance(b.state, (str, type(None))) or b.state is None

    def op_step(self, b, op, when):
        if self.scn["hooks"] and not all(hasattr(b, {"names": "step_names", "times": "step_times",
                                                     "user": "user_index_f"}[x]) for x in self.scn["hooks"]):
            return
        for _ in range(op["n"]):
            if self.finished(b) or self.broken_start(b):
                return
            fails = self.info["failures"]
            if op.get("fault", {}).get("kind") == "slow":
                return                              # nobody has set an alarm
            err = self.guarded(b.run_step, op)
            if err is not None:
                if self.info["failures"] == fails and not self.undefined(b):
                    return self.fail("failed", f"{when}: a step failed without a cause: {err}")
                return self.after_error(b, err, False)
            self.dirty = "redirect" in (b.event or "") and not b.history_verbose

    def op_restore(self, b, op, when):
        n = len(self.h["b"])
        if self.scn["hooks"] and self.shorthooks:
            pass
        i = op["i"]
        if not -n <= i < n:
            try:
                b.restore(i)
            except IndexError:
                return
            return self.fail("restore", f"{when}: restoring entry {i} of {n} was accepted")
        try:
            if i == 0:
                b.restore()
            else:
                b.restore(i)
        except Exception as e:  # noqa: BLE001
            return self.fail("restore", f"{when}: restore({i}) failed: {type(e).__name__}: {e}")
        self.cut(b, i % n)
        kernel.NODE.point("restore", str(i))

    def cut(self, b, j):
        for key in self.h:
            self.h[key] = self.h[key][:j + 1]
        self.names = self.names[:j + 1]
        self.dirty = False
        self.info["restores"] += 1
        short = [c for c in ("step_names", "step_times", "user_index_f") if hasattr(b, c) and len(getattr(b, c)) < j + 1]
        self.shorthooks = bool(short)
        sn = any(e["event"] in ("CC1", "CC2") for e in self.h["b"][:-1])
        if getattr(b, "first_SN_already_occurred", False) and not sn:
            self.fail("restore", "after restoring a state before any supernova, the first supernova counts as over")

    def op_reset(self, b, op, when):
        try:
            b.reset()
        except Exception as e:  # noqa: BLE001
            return self.fail("restore", f"{when}: reset() failed: {type(e).__name__}: {e}")
        self.cut(b, 0)

    def op_switch(self, b, op, when):
        b.switch_star()
        self.h["1"], self.h["2"] = self.h["2"], self.h["1"]

    # ------------------------------------------------ conversions
    def kwargs(self, b, sel, scalars=False, legacy=False):
        kw = {}
        s = {1: {}, 2: {}}
        if "only" in sel:
            kw["only_select_columns"] = list(sel["only"])
            for k in s:
                s[k]["only_select_columns"] = list(sel["s_only"])
        if "ignore" in sel:
            kw["ignore_columns"] = list(sel["ignore"])
            for k in s:
                s[k]["ignore_columns"] = list(sel["s_ignore"])
        ex = {}
        if hasattr(b, "step_names"):
            ex["step_names"] = "string"
        if hasattr(b, "step_times"):
            ex["step_times"] = "float64"
        if hasattr(b, "user_index_f"):
            ex["user_index_f"] = "string"
            for k in s:
                s[k]["extra_columns"] = {"user_fuel": "float64"}
        if ex:
            kw["extra_columns"] = ex
        if scalars:
            kw["scalar_names"] = list(B_SCALARS)
            for k in s:
                s[k]["scalar_names"] = list(S_SCALARS) + (["natal_kick_array"] if legacy else [])
        if sel.get("no_star"):
            kw[f"include_S{sel['no_star']}"] = False
        for k in s:
            if s[k] and sel.get("no_star") != k:
                kw[f"S{k}_kwargs"] = s[k]
        return kw, ex

    def wanted(self, sel):
        bs, ss = _P["bs"], _P["ss"]
        bp = [p for p in bs.BINARYPROPERTIES if (("only" not in sel or p in sel["only"])
                                                 and p not in sel.get("ignore", []))]
        sprop = [p for p in ss.STARPROPERTIES if p != "profile" and ("s_only" not in sel or p in sel["s_only"])
                 and p not in sel.get("s_ignore", [])]
        stars = [k for k in (1, 2) if k != sel.get("no_star")]
        return bp, sprop, stars

    def columns(self, bp, sprop, stars):
        out = []
        for p in bp:
            if p == "V_sys":
                out += ["V_sys_x", "V_sys_y", "V_sys_z"]
            elif p == "nearest_neighbour_distance":
                out += ["NN_dist_x", "NN_dist_y", "NN_dist_z"]
            else:
                out.append(p)
        return out + [f"S{k}_{p}" for k in stars for p in sprop]

    def cell(self, j, col, null):
        h = self.h
        if col[:3] in ("S1_", "S2_"):
            v = h[col[1]][j][col[3:]]
        elif col[:-2] in ("V_sys", "NN_dist"):
            v = h["b"][j]["V_sys" if col[0] == "V" else "nearest_neighbour_distance"]
            if is_missing_vec(v):
                return None
            v = v["xyz".index(col[-1])]
        else:
            v = h["b"][j][col]
        return v

    def op_tables(self, b, op, when):
        bs = _P["bs"]
        sel, null = op["sel"], op["null"]
        kw, ex = self.kwargs(b, sel)
        if null is not None:
            kw["null_value"] = null
        bp, sprop, stars = self.wanted(sel)
        self.info["tables"] += 1
        if null is not None and any(self.h["b"][j][p] is None for j in range(len(self.h["b"]))
                                    for p in ("state", "event")):
            kw.pop("null_value")
            null = None
        try:
            df = b.to_df(**kw)
            df2 = b.to_df(**kw)
        except Exception as e:  # noqa: BLE001
            return self.fail("table", f"{when}: the history could not be turned into a table: {type(e).__name__}: {e}")
        if list(df.columns) != list(df2.columns) or not df.astype(str).equals(df2.astype(str)):
            self.fail("table", f"{when}: two conversions of the same history differ")
        self.check_table(df, self.columns(bp, sprop, stars), list(ex), null, when)
        if self.bad or null is not None:
            return
        # and back
        args = {}
        if op["index"] is not None:
            args["index"] = op["index"]
        if ex:
            args["extra_columns"] = dict(ex)
        try:
            c = bs.BinaryStar.from_df(df, **args)
        except Exception as e:  # noqa: BLE001
            return self.fail("reload", f"{when}: the table could not be turned back into a binary: "
                                       f"{type(e).__name__}: {e}")
        want_index = b.index if op["index"] is None else op["index"]
        if c.index != want_index:
            self.fail("reload", f"{when}: the reloaded binary has index {c.index} instead of {want_index}")
        self.check_loaded(c, bp, sprop, stars, when)
        if self.bad:
            return
        # one row of it
        j = (op["index"] or 0) % len(df)
        try:
            c = bs.BinaryStar.from_df(df.iloc[j], **args)
        except Exception as e:  # noqa: BLE001
            return self.fail("reload", f"{when}: row {j} could not be turned into a binary: {type(e).__name__}: {e}")
        mine, self.h = self.h, {k: v[j:j + 1] for k, v in self.h.items()}
        self.check_loaded(c, bp, sprop, stars, when + f" row {j}")
        self.h = mine

    def check_loaded(self, c, bp, sprop, stars, when, failed=False):
        only = {("b", p) for p in bp} | {(str(k), p) for k in stars for p in sprop}
        if failed:
            only -= {("b", "event")}
        self.check(c, when + " reloaded", current=True, exact=False, only=only)
        if self.bad or len(stars) < 2 or self.scn["single"] or "mass" not in sprop:
            return
        # the third orbital parameter follows from the two that are stored
        have = {"separation", "orbital_period"} & set(bp)
        if len(have) == 1:
            from posydon.utils.common_functions import orbital_period_from_separation as pfs
            from posydon.utils.common_functions import orbital_separation_from_period as sfp
            got = have.pop()
            other = "separation" if got == "orbital_period" else "orbital_period"
            for j in range(len(self.h["b"])):
                x, m1, m2 = self.h["b"][j][got], self.h["1"][j]["mass"], self.h["2"][j]["mass"]
                y = getattr(c, other + "_history")[j]
                if is_missing(x) or x <= 0 or not 1e-3 < x < 1e9:
                    continue
                w = (sfp if other == "separation" else pfs)(x, m1, m2)
                if is_missing(y) or abs(y - w) > 1e-6 * abs(w):
                    return self.fail("reload", f"{when}: the {other} of entry {j} of the reloaded binary is {y} instead "
                                               f"of {w}, which follows from its {got}")

    def check_table(self, df, cols, ex, null, when):
        n = len(self.h["b"])
        if len(df) != n:
            return self.fail("table", f"{when}: the table has {len(df)} rows for {n} entries")
        if set(df.columns) != set(cols) | set(ex) | ({f"S{k}_user_fuel" for k in (1, 2)
                                                      if f"S{k}_user_fuel" in df.columns}):
            return self.fail("table", f"{when}: the table has the columns {sorted(set(df.columns) ^ set(cols))[:6]} "
                                      "too many or too few")
        if [int(x) for x in df.index] != [self.scn["index"]] * n:
            return self.fail("table", f"{when}: the rows are indexed {list(df.index)}")
        for col in cols:
            vals = list(df[col])
            for j in range(n):
                w = self.cell(j, col, null)
                if w is None and null is not None and not col[:-2] in ("V_sys", "NN_dist"):
                    if not (is_missing(vals[j]) and col in ("state", "event") or same(vals[j], null, False) or same(vals[j], str(null), False)):
                        return self.fail("table", f"{when}: row {j} of {col} is {vals[j]!r} instead of the null value")
                elif w is None and null is not None and same(vals[j], null, False):
                    pass
                elif not same(w, vals[j], False):
                    return self.fail("table", f"{when}: row {j} of {col} is {vals[j]!r} instead of {w!r}")
        self.info["tables"] += 1

    def op_oneline(self, b, op, when):
        bs = _P["bs"]
        sel = op["sel"]
        kw, ex = self.kwargs(b, sel, scalars=True, legacy=op["legacy"])
        bp, sprop, stars = self.wanted(sel)
        try:
            df = b.to_oneline_df(**kw)
        except Exception as e:  # noqa: BLE001
            return self.fail("table", f"{when}: no oneline table could be made: {type(e).__name__}: {e}")
        if len(df) != 1:
            return self.fail("table", f"{when}: the oneline table has {len(df)} rows")
        for col in self.columns(bp, sprop, stars):
            for suf, j in (("_i", 0), ("_f", -1)):
                if col + suf not in df.columns:
                    return self.fail("table", f"{when}: the oneline table has no column {col + suf}")
                if not same(self.cell(j, col, None), df[col + suf].iloc[0], False):
                    return self.fail("table", f"{when}: {col + suf} is {df[col + suf].iloc[0]!r} instead of "
                                              f"{self.cell(j, col, None)!r}")
        sc = self.scalars(b, stars)
        for col, v in sc.items():
            if not same(v, df[col].iloc[0], False):
                return self.fail("table", f"{when}: the scalar {col} is {df[col].iloc[0]!r} instead of {v!r}")
        args = {}
        if op["index"] is not None:
            args["index"] = op["index"]
        if ex:
            args["extra_columns"] = dict(ex)
        try:
            c = bs.BinaryStar.from_oneline_df(df, **args)
        except Exception as e:  # noqa: BLE001
            return self.fail("reload", f"{when}: the oneline table could not be turned back into a binary: "
                                       f"{type(e).__name__}: {e}")
        want_index = b.index if op["index"] is None else op["index"]
        if c.index != want_index:
            self.fail("reload", f"{when}: the reloaded binary has index {c.index} instead of {want_index}")
        first = {k: v[:1] for k, v in self.h.items()}
        only = {("b", p) for p in bp} | {(str(k), p) for k in stars for p in sprop}
        self.check(c, when + " reloaded", h=first, exact=False, only=only)
        self.check_scalars(c, sc, when)

    def scalars(self, b, stars):
        out = {p: getattr(b, p) for p in B_SCALARS}
        for k in stars:
            for p in S_SCALARS:
                out[f"S{k}_{p}"] = getattr(b.star_1 if k == 1 else b.star_2, p)
        return copy.deepcopy(out)

    def check_scalars(self, c, sc, when):
        for col, v in sc.items():
            obj, p = (c, col) if col[:3] not in ("S1_", "S2_") else (c.star_1 if col[1] == "1" else c.star_2, col[3:])
            have = getattr(obj, p, "(no such attribute)")
            if not same(v, have, False):
                return self.fail("reload", f"{when}: the scalar {col} of the reloaded binary is {have!r} instead of {v!r}")

    def op_file(self, b, op, when):
        from posydon.popsyn.binarypopulation import PopulationManager
        from posydon.popsyn.io import binarypop_kwargs_from_ini
        if not os.path.exists("pop.ini"):
            with open("pop.ini", "w") as f:
                f.write(pop.ini_text({"number_of_binaries": 2, "entropy": 3}))
        base = binarypop_kwargs_from_ini("pop.ini")
        for k in list(base):
            if k in ("extra_columns", "only_select_columns", "scalar_names", "ignore_columns") or k.startswith(
                    ("S1_kwargs", "S2_kwargs", "include_S")):
                base.pop(k)
        base["metallicity"] = 1.0
        base.pop("population_properties", None)
        sel = {k: v for k, v in op["sel"].items() if k != "no_star"}
        kw, ex = self.kwargs(b, sel, scalars=True, legacy=op["legacy"])
        bp, sprop, stars = self.wanted(sel)
        self.info["files"] += 1
        name = f"f{self.info['files']}.h5"
        try:
            man = PopulationManager(file_name=name, **{**base, **kw})
            other = self.new_other(b)
            man.append(other)
            man.append(b)
            man.save(name)
            man2 = PopulationManager(file_name=name, **{**base, **kw})
            got = man2.from_hdf(b.index)
        except Exception as e:  # noqa: BLE001
            import traceback
            return self.fail("reload", f"{when}: saving and loading the binary failed: {type(e).__name__}: {e}\n"
                                       f"{traceback.format_exc()[-700:]}")
        if [c.index for c in got] != [b.index]:
            return self.fail("reload", f"{when}: loading binary {b.index} gave {[c.index for c in got]}")
        self.check_loaded(got[0], bp, sprop, stars, when)
        if not self.bad:
            self.check_scalars(got[0], self.scalars(b, stars), when)
        if self.bad or not op["again"] or self.dirty or not self.finished(b) or b.event == "FAILED":
            return
        # from the file back to the beginning, and through the evolution again
        try:
            c = PopulationManager(file_name=name, **{**base, **kw}).from_hdf([b.index], restore=True)[0]
        except Exception as e:  # noqa: BLE001
            return self.fail("reload", f"{when}: restoring from the file failed: {type(e).__name__}: {e}")
        first = {k: v[:1] for k, v in self.h.items()}
        only = {("b", p) for p in bp} | {(str(k), p) for k in stars for p in sprop}
        self.check(c, when + " restored from the file", h=first, exact=False, only=only)
        if self.bad:
            return
        # the fresh evolution from the birth
        mine, names = self.h, self.names
        self.h, self.names = copy.deepcopy(first), ["initial_cond"]
        c.properties = self.properties()
        c.history_verbose = self.scn["verbose"]
        for x in ("step_names", "step_times", "user_index_f"):
            if hasattr(c, x):
                setattr(c, x, getattr(c, x)[:1])
        if "user" in self.scn["hooks"]:
            for s in (c.star_1, c.star_2):
                s.user_fuel = [0.5]
            c.user_index_f = ["start"]
        n0 = self.info["steps"]
        err = self.guarded(c.evolve, {})
        limit = self.scn["maxn"]
        if err is not None:
            if not self.undefined(c) and not (limit is not None and self.info["steps"] - n0 > limit):
                self.fail("reload", f"{when}: evolving the binary of the file again failed: {err}")
        else:
            self.check(c, when + " evolved again from the file", exact=False, only=None if not sel else only)
        self.h, self.names = mine, names

    def new_other(self, b):
        o = self.new_binary()
        o.index = b.index + 1
        o.event = "END"
        o.append_state()
        for c in ("step_names", "step_times", "user_index_f"):
            if hasattr(b, c):
                setattr(o, c, ["start" if c != "step_times" else 0.0, None])
        for s in (o.star_1, o.star_2):
            if hasattr(b.star_1, "user_fuel"):
                s.user_fuel = [0.5, 1.5]
        return o


def is_missing_vec(v):
    return v is None or (not isinstance(v, (list, tuple, np.ndarray)) and is_missing(v))


def nontrivial(scn, res):
    i = res.get("info", {})
    return i.get("rows", 0) > 1 and i.get("steps", 0) > 1 and (
        i.get("restores", 0) + i.get("failures", 0) + i.get("tables", 0) + i.get("files", 0)) > 0

"""Scripted evolution steps, configured through a real ini file.

They stand in for the stellar-physics steps: what a step does to binary ``i`` at
its ``k``-th call is given by the scenario's plan.  Every completed step is
reported to the simulator, which thereby knows the true history of each binary
independently of anything the code under test stores.
"""
from . import kernel

STATES = ["detached", "RLO1", "RLO2", "contact", "merged", "disrupted",
          "initially_single_star", "maxtime"]
EVENTS = ["oRLO1", "oRLO2", "CC1", "CC2", "oCE1", "oMerging1", "CO_contact",
          "redirect_x"]
S_STATES = ["H-rich_Core_H_burning", "H-rich_Shell_H_burning", "BH", "NS", "WD",
            "stripped_He_Central_He_depleted", "H-rich_Central_C_depletion",
            "accreted_He_Core_He_burning"]

# scalars (oneline table only)
SCALARS = {
    "S1_SN_type": lambda b: b.star_1.SN_type, "S2_f_fb": lambda b: b.star_2.f_fb,
    "interp_class_HMS_HMS": lambda b: b.interp_class_HMS_HMS,
    "mt_history_HMS_HMS": lambda b: b.mt_history_HMS_HMS,
}

# what is recorded of a binary (column name -> how to read it)
COLS = {
    "state": lambda b: b.state, "event": lambda b: b.event, "time": lambda b: b.time,
    "orbital_period": lambda b: b.orbital_period, "eccentricity": lambda b: b.eccentricity,
    "S1_state": lambda b: b.star_1.state, "S1_mass": lambda b: b.star_1.mass,
    "S1_log_R": lambda b: b.star_1.log_R,
    "S2_state": lambda b: b.star_2.state, "S2_mass": lambda b: b.star_2.mass,
}


KICKS = ["velocity", "azimuthal_angle", "polar_angle", "mean_anomaly"]


def num(v):
    return None if v is None else float(v)


def snap(b):
    out = {}
    for k, f in list(COLS.items()) + [("=" + k, f) for k, f in SCALARS.items()]:
        v = f(b)
        if v is not None and not isinstance(v, str):
            v = float(v)
        out[k] = v
    z = b.star_1.metallicity
    out["~Z"] = None if z is None else float(z)
    out["~kicks"] = [num(getattr(st, "natal_kick_" + k, None)) for st in (b.star_1, b.star_2) for k in KICKS]
    return out


NEXT = {"CC1": "step_SN", "CC2": "step_SN", "last": "step_end", "ZAMS": "step_HMS_HMS",
        "oRLO1": "step_CO_HMS_RLO", "oRLO2": "step_CO_HeMS_RLO", "oCE1": "step_CE",
        "oMerging1": "step_merged", "CO_contact": "step_dco", "redirect_x": "step_initially_single"}


class FlowDict(dict):
    """Flow chart: the next step depends on the event only."""

    def get(self, key, default=None):
        ev = key[3]
        if ev == "nowhere":
            return None
        if ev == "badstep":
            return "step_that_does_not_exist"
        return NEXT.get(ev, "step_detached")

    def __getitem__(self, key):
        return self.get(key)

    def __contains__(self, key):
        return self.get(key) is not None


def flow(**kwargs):
    return FlowDict()


def make_exc(kind):
    import numpy as np

    from posydon.utils import posydonerror as pe
    table = {
        "ValueError": lambda: ValueError("scripted failure"),
        "KeyError": lambda: KeyError("scripted"),
        "ZeroDivisionError": lambda: ZeroDivisionError("scripted"),
        "RuntimeError": lambda: RuntimeError("scripted"),
        "MemoryError": lambda: MemoryError("scripted"),
        "AssertionError": lambda: AssertionError("scripted"),
        "LinAlgError": lambda: np.linalg.LinAlgError("scripted"),
        "OSError": lambda: OSError(5, "scripted"),
        "StopIteration": lambda: StopIteration("scripted"),
        "UserWarning": lambda: UserWarning("scripted warning raised as error"),
        "TimeoutError": lambda: TimeoutError("scripted"),
        "AttributeError": lambda: AttributeError("scripted"),
        "POSYDONError": lambda: pe.POSYDONError("scripted"),
        "FlowError": lambda: pe.FlowError("scripted"),
        "GridError": lambda: pe.GridError("scripted"),
        "MatchingError": lambda: pe.MatchingError("scripted"),
        "ModelError": lambda: pe.ModelError("scripted"),
        "NumericalError": lambda: pe.NumericalError("scripted"),
        "ClassificationError": lambda: pe.ClassificationError("scripted"),
    }
    return table[kind]()


EXC_KINDS = ["ValueError", "KeyError", "ZeroDivisionError", "RuntimeError", "MemoryError",
             "AssertionError", "LinAlgError", "OSError", "StopIteration", "UserWarning",
             "TimeoutError", "AttributeError", "POSYDONError", "FlowError", "GridError",
             "MatchingError", "ModelError", "NumericalError", "ClassificationError"]

WARN_KINDS = ["ApproximationWarning", "InterpolationWarning", "EvolutionWarning",
              "ReplaceValueWarning", "UnsupportedModelWarning", "POSYDONWarning"]


class ScriptedStep:
    """One evolution step following the scenario's plan."""

    DEFAULT_KWARGS = {"RNG": None, "metallicity": None}
    NAME = "step_detached"

    def __init__(self, **kwargs):
        self.kwargs = kwargs

    def __call__(self, binary):
        n = kernel.NODE
        plan = n.hooks["plan"](binary.index)
        k = getattr(binary, "_simk", 0)
        binary._simk = k + 1
        rec = n.hooks.get("rec")
        if k == 0 and rec:
            rec(binary.index, "init", snap(binary))
        steps = plan.get("steps", [])
        loop = plan.get("loop", False)
        st = steps[k] if k < len(steps) else (steps[-1] if loop and steps else {})
        # report the call itself as an event: a step boundary is a schedule point
        n.point("step", f"{binary.index}:{k}")
        for w in range(st.get("draw", 0)):
            n.hooks["draw"](binary, float(self.kwargs["RNG"].random()))
        for w in range(st.get("warn", 0)):
            from posydon.utils.posydonwarning import Pwarn
            if st.get("samewarn"):
                Pwarn("scripted warning", "ApproximationWarning")
            else:
                Pwarn(f"scripted warning {binary.index}:{k}:{w}",
                      WARN_KINDS[(binary.index + k + w) % len(WARN_KINDS)])
        # partial progress before a possible failure
        i = int(binary.index)
        binary.time = binary.time + 1e6 * (k + 1) + i
        binary.star_1.mass = binary.star_1.mass * 0.97
        if st.get("exc") and st.get("mark"):         # a step that gives up after it has changed the state
            binary.state = st["mark"][0] or binary.state
            binary.event = st["mark"][1] or binary.event
            binary.star_2.state = S_STATES[3]
        pw = st.get("pywarn", 0)
        for w in range(pw):
            import warnings
            warnings.warn("scripted python warning", RuntimeWarning)
        dur = st.get("dur", 0.0)
        if rec:
            rec(binary.index, "mid", snap(binary))
        if dur:
            n.sleep(dur)
        if rec and dur:
            rec(binary.index, "slept", None)
        if st.get("exc"):
            n.fault("step_error:" + st["exc"])
            raise make_exc(st["exc"])
        binary.star_1.state = S_STATES[(i + 3 * k) % len(S_STATES)]
        binary.star_2.state = S_STATES[1 + (2 * i + k) % (len(S_STATES) - 1)]
        binary.star_1.log_R = 0.25 * k + 0.001 * i
        if self.NAME == "step_SN":
            binary.star_1.SN_type = ["CCSN", "PPISN", "ECSN", "WD"][(i + k) % 4]
            binary.star_1.natal_kick_array = [10.0 * i + k, 1.0, 2.0, 3.0]
            binary.star_2.f_fb = 0.01 * i
        if self.NAME == "step_HMS_HMS":
            binary.interp_class_HMS_HMS = ["no_MT", "stable_MT", "unstable_MT",
                                           "stable_reverse_MT"][(i + k) % 4]
            binary.mt_history_HMS_HMS = ["None", "case_A1", "Stable contact phase", "no_RLO"][(i // 2) % 4]
        if binary.orbital_period is not None:
            binary.orbital_period = binary.orbital_period * 1.03
        last = k + 1 >= len(steps) and not loop
        binary.state = STATES[(i + k) % (len(STATES) - 2)]
        if last:
            binary.event = st.get("end", "END")
        else:
            binary.event = st.get("event", EVENTS[(i + k) % (len(EVENTS) - 1)])
        if rec:
            done = snap(binary)
            done["step_names"] = self.NAME
            rec(binary.index, "step", done)


class ScriptedSN(ScriptedStep):
    NAME = "step_SN"


class ScriptedEnd(ScriptedStep):
    NAME = "step_end"


for _n in ("step_HMS_HMS", "step_CO_HeMS", "step_CO_HMS_RLO", "step_CO_HeMS_RLO", "step_detached",
           "step_disrupted", "step_merged", "step_initially_single", "step_dco", "step_CE"):
    globals()["Scripted_" + _n] = type("Scripted_" + _n, (ScriptedStep,), {"NAME": _n})


def _slow_end():
    from posydon.binary_evol.simulationproperties import EvolveHooks

    class SlowEnd(EvolveHooks):
        """A user's hook that takes its time after a binary has ended."""

        def post_evolve(self, binary):
            d = kernel.NODE.hooks.get("post_evolve", 0.0)
            if d:
                kernel.NODE.sleep(d)
            return binary
    return SlowEnd


def __getattr__(name):
    if name == "SlowEnd":
        cls = _slow_end()
        globals()["SlowEnd"] = cls
        return cls
    raise AttributeError(name)

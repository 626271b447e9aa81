"""C11: chunked analyses attribute every result to its own binary."""
import os

import numpy as np
import pandas as pd

from .. import kernel, popfiles
from ..kernel import Violation
from .c01 import must_succeed

PROP = "C11"
QUICK = {"runs": 2500, "wall": 60}
THOROUGH = {"runs": 60000, "wall": 3000}
KEEP = set()
SHRINK_INT = {"sched_seed": 0, "list_seed": 0}
SHRINK_TO = {"fault": None}
RULE = ("one case = one sequence of formation-channel and transient computations on one population file, in sessions "
        "that may be killed or meet I/O errors or failing user functions; non-trivial if at least one computation "
        "went over several chunks; distinct by event log and scenario")
COMPONENTS = {"real": ["Population.calculate_formation_channels, create_transient_population, TransientPopulation",
                       "transient_select_funcs.GRB_selection", "BinaryPopulation (makes the files)",
                       "pandas/PyTables/HDF5", "file system (scratch)"],
              "stub": ["evolution steps of the binaries (scripted)", "disk errors", "process death"]}
ASSUMPTIONS = ["process death, not power loss", "user functions treat binaries independently and return columns of "
               "the same types for every chunk"]
FILES = ["sorted", "shuffled", "sparse", "ranks", "two", "one", "long", "partial", "grb"]
BASE = ["history", "oneline", "mass_per_metallicity", "ini_parameters"]
NAMES = ["A", "AB", "B"]
FUNCS = ["last", "multi", "some", "chan", "sum", "none", "strings", "grb"]
TABS = {}


def preload():
    popfiles.preload(cached=True)
    import tempfile
    with tempfile.TemporaryDirectory(dir=os.environ.get("SIM_SCRATCH", "/tmp")) as d:
        for name in FILES:
            if name in popfiles.FILES:
                p = os.path.join(d, name + ".h5")
                with open(p, "wb") as f:
                    f.write(popfiles.FILES[name])
                TABS[name] = popfiles.tables(p, BASE + ["formation_channels"])


# ---- user functions ------------------------------------------------------------------

def events_of(h, o, picks):
    df = pd.DataFrame(index=picks.index)
    df["time"] = picks["time"].astype(float) * 1e-6
    df["metallicity"] = o["metallicity"].loc[picks.index].astype(float).values
    df["m1"] = picks["S1_mass"].astype(float)
    return df


def f_last(h, o, c=None):
    return events_of(h, o, h[~h.index.duplicated(keep="last")])


def f_multi(h, o, c=None):
    return events_of(h, o, h[~h["event"].isin(["ZAMS"]) & h["event"].notna()])


def f_some(h, o, c=None):
    return events_of(h, o, h[h["event"].isin(["CC1", "oRLO1"])])


def f_chan(h, o, c=None):
    df = events_of(h, o, h[~h.index.duplicated(keep="last")])
    if c is not None:
        df["channel"] = [c["channel"].loc[i] if i in c.index else "none" for i in df.index]
        df["channel_n"] = [float((c.index == i).sum()) for i in df.index]
    return df


def f_sum(h, o, c=None):
    df = events_of(h, o, h[~h.index.duplicated(keep="first")])
    g = h.groupby(h.index, sort=False)
    df["rows"] = [float(len(g.get_group(i))) for i in df.index]
    df["tot"] = [float(g.get_group(i)["time"].sum()) for i in df.index]
    return df


def f_none(h, o, c=None):
    return events_of(h, o, h[h["time"] < -1])


def f_strings(h, o, c=None):
    df = events_of(h, o, h[h["event"].notna()])
    for col in ("event", "S1_state", "S2_state", "state"):
        df[col] = h[h["event"].notna()][col]
    df["S1_state_f"] = o["S1_state_f"].loc[df.index].values
    return df


def f_grb(h, o, c=None):
    from posydon.popsyn.transient_select_funcs import GRB_selection
    return GRB_selection(h, o, c, S1_S2="S1")


def f_notime(h, o, c=None):
    return f_last(h, o, c).drop(columns=["time"])


def f_nomet(h, o, c=None):
    return f_last(h, o, c).drop(columns=["metallicity"])


def f_twice(h, o, c=None):
    df = f_last(h, o, c)
    return pd.concat([df, df[["m1"]]], axis=1)


FUN = {"last": f_last, "multi": f_multi, "some": f_some, "chan": f_chan, "sum": f_sum, "none": f_none,
       "strings": f_strings, "grb": f_grb, "notime": f_notime, "nomet": f_nomet, "twice": f_twice}
HCOLS = {"last": ["time", "S1_mass"], "some": ["S1_mass", "event", "time"], "multi": ["time", "event", "S1_mass"],
         "grb": ["time", "orbital_period", "eccentricity", "S1_spin", "S2_spin", "S1_mass", "S2_mass", "S1_state",
                 "step_names", "S2_state"]}
OCOLS = {"last": ["metallicity"], "chan": ["metallicity", "state_f"],
         "grb": ["metallicity", "S1_m_disk_radiated", "S2_m_disk_radiated"]}


# ---- reference -----------------------------------------------------------------------

CLASSES = {"initial_MT": "initial_MT", "stable_MT": "oRLO1", "stable_reverse_MT": "oRLO1-reverse", "no_MT": "None",
           "unstable_MT": "oCE1/oDoubleCE1"}


def ref_channel(h, row, mt):
    """Formation channel of one binary from its own rows alone."""
    ev = [e for e in h["event"].tolist() if isinstance(e, str)]
    cl = row["interp_class_HMS_HMS"]
    if isinstance(cl, str) and CLASSES[cl] in ("oRLO1", "oRLO1-reverse"):
        ev = [ev[0] + "_" + CLASSES[cl]] + ev[1:]
    debug = "_".join(ev)
    ch = debug
    for x in ("_redirect_from_ZAMS", "_redirect_from_CO_HMS_RLO", "_redirect_from_CO_HeMS_RLO",
              "_redirect_from_CO_HeMS", "_CO_contact"):
        ch = ch.replace(x, "")
    if mt and row["mt_history_HMS_HMS"] == "Stable contact phase":
        ch = ch.replace("oRLO1", "oRLO1-contact")
    return debug[:100], ch[:100]


def ref_channels(name, mt):
    t = TABS[name]
    return {int(i): ref_channel(t["history"].loc[[i]], row, mt)
            for i, row in zip(t["oneline"].index, t["oneline"].to_dict("records"))}


def rows_of(df):
    out = {}
    for i, r in zip(df.index, df.to_dict("records")):
        out.setdefault(int(i), []).append({k: None if isinstance(v, float) and np.isnan(v) else
                                           (float(v) if isinstance(v, (int, float, np.number)) else str(v))
                                           for k, v in r.items()})
    return out


def ref_transient(name, op, channels):
    t = TABS[name]
    h, o = t["history"], t["oneline"]
    if op["hcols"]:
        h = h[HCOLS[op["f"]]]
    if op["ocols"]:
        o = o[OCOLS[op["f"]]]
    out = {}
    for i in t["oneline"].index:
        c = None
        if channels is not None:
            c = pd.DataFrame([channels[int(i)]] if int(i) in channels else [], columns=["channel_debug", "channel"],
                             index=[i] if int(i) in channels else [])
        df = FUN[op["f"]](h.loc[[i]], o.loc[[i]], c)
        out.update(rows_of(df))
    return out


# ---- scenarios -----------------------------------------------------------------------

def gen_op(rng, name):
    if rng.random() < 0.3:
        return {"op": "channels", "mt": rng.random() < 0.6}
    fs = [f for f in FUNCS if f != "grb" or name == "grb"]
    if name == "grb" and rng.random() < 0.5:
        fs = ["grb"]
    f = rng.choice(fs)
    op = {"op": "transient", "f": f, "name": rng.choice(NAMES), "hcols": f in HCOLS and rng.random() < 0.5,
          "ocols": f in OCOLS and rng.random() < 0.5}
    if f == "grb":
        op["hcols"] = op["ocols"] = True
    u = rng.random()
    if u < 0.1:
        op["raise"] = rng.randint(1, 5)
    elif u < 0.18:
        op["f"] = rng.choice(["notime", "nomet", "twice"])
        op["hcols"] = op["ocols"] = False
    return op


def gen(rng):
    name = rng.choice(FILES)
    sessions = []
    for _ in range(rng.randint(1, 3)):
        ses = {"cs": rng.choice([1, 2, 3, 4, 7, 100000]), "ops": [gen_op(rng, name) for _ in range(rng.randint(1, 3))],
               "fault": None}
        v = rng.random()
        if v < 0.25:
            c = rng.choice([["h5.append", 8], ["h5.create", 4], ["h5.close", 8], ["h5.open_w", 8], ["h5.remove", 3],
                            ["*", 80], ["h5.read", 20], ["h5.flush", 8]])
            ses["fault"] = {"cls": c[0], "n": rng.randint(1, c[1]), "do": "kill"}
        elif v < 0.5:
            c = rng.choice([["h5.append", 8, "eio"], ["h5.create", 4, "enospc"], ["h5.read", 20, "eio"],
                            ["h5.open_r", 20, "eio"], ["h5.open_w", 8, "eacces"], ["h5.remove", 3, "eio"]])
            ses["fault"] = {"cls": c[0], "n": rng.randint(1, c[1]), "do": c[2]}
        sessions.append(ses)
    return {"file": name, "sessions": sessions, "sched_seed": rng.randrange(1 << 30), "list_seed": 1}


def directed():
    out = []

    def scn(name, *sessions):
        out.append({"file": name, "sessions": list(sessions), "sched_seed": 1, "list_seed": 1})

    def ses(cs, *ops, fault=None):
        return {"cs": cs, "ops": list(ops), "fault": fault}

    def tr(f, name="A", h=False, o=False):
        return {"op": "transient", "f": f, "name": name, "hcols": h, "ocols": o}
    ch, ch0 = {"op": "channels", "mt": True}, {"op": "channels", "mt": False}
    for name in FILES:
        scn(name, ses(2, tr("multi"), ch, tr("chan", "AB"), tr("strings", "B"), tr("last", "A", True, True)),
            ses(100000, ch0, tr("chan", "AB"), tr("some", "A")))
        scn(name, ses(1, ch, tr("sum"), tr("none"), tr("chan")), ses(3, tr("none", "B"), ch0, tr("some", "B")))
    scn("grb", ses(2, tr("grb", h=True, o=True)), ses(1, ch, tr("grb", h=True, o=True)),
        ses(100000, tr("grb", h=True, o=True)))
    for k in range(1, 6):
        scn("shuffled", ses(3, ch), ses(2, tr("multi"), ch0, fault={"cls": "h5.append", "n": k, "do": "kill"}),
            ses(4, ch0, tr("multi")))
    return out


def valid(s):
    return len(s["sessions"]) >= 1


class Boom(Exception):
    pass


def session(scn, ses):
    def go():
        from posydon.popsyn.synthetic_population import Population
        n = kernel.NODE

        def tell(**kw):
            n.muted += 1
            try:
                n.call(dict(kw, t="op"))
            finally:
                n.muted -= 1
        p = None
        for j, op in enumerate(ses["ops"]):
            seen = n.injected
            try:
                if p is None:
                    p = Population("p.h5", chunksize=ses["cs"])
            except Exception:
                if n.injected == seen:
                    raise
                break
            tell(what="start", j=j)
            res = None
            try:
                if op["op"] == "channels":
                    p.calculate_formation_channels(mt_history=op["mt"])
                    ret = "ok"
                else:
                    calls = [0]

                    def func(h, o, c=None):
                        calls[0] += 1
                        if calls[0] == op.get("raise"):
                            n.fault("user_function_error")
                            raise Boom("scripted failure of the user function")
                        return FUN[op["f"]](h, o, c)
                    kw = {}
                    if op["hcols"]:
                        kw["hist_cols"] = list(HCOLS[op["f"]])
                    if op["ocols"]:
                        kw["oneline_cols"] = list(OCOLS[op["f"]])
                    r = p.create_transient_population(func, op["name"], **kw)
                    ret = "none" if r is None else "pop"
                    if op.get("raise") and calls[0] < op["raise"]:
                        ret += "-noraise"
                    if r is not None:
                        n.muted += 1
                        try:
                            res = rows_of(r.population)
                        finally:
                            n.muted -= 1
            except Boom:
                ret = "boom"
            except Exception as e:
                import traceback
                ret = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-700:]}"
            tell(what="done", j=j, ret=ret, rows=res, injected=n.injected > seen)
            if n.injected > seen:
                break        # pandas may keep the file open after a read error
        return None
    return go


def run(scn, sim):
    name = scn["file"]
    if name not in TABS:
        raise Violation("no-population", popfiles.ERRORS.get(name, f"{name} not made"))
    path = os.path.join(sim.root, "p.h5")
    with open(path, "wb") as f:
        f.write(popfiles.FILES[name])
    fc = TABS[name]["formation_channels"]
    # what the file holds: label -> (debug, channel), None = no table, "?" = interrupted computation
    model = {"channels": None if fc is None else
             {int(i): (a, b) for i, a, b in zip(fc.index, fc["channel_debug"], fc["channel"])}}
    trans = {}
    cur = {}
    stat = {"done": 0, "chunked": 0, "failed": 0}
    nsys = len(TABS[name]["oneline"])

    def current():
        try:
            with pd.HDFStore(path, "r") as st:
                keys = [k for k in st.keys()]
                tabs = {k: (st.select(k) if "/" + k in keys else None) for k in BASE + ["formation_channels"]}
                tr = {m: (st.select("transients/" + m) if "/transients/" + m in keys else None) for m in NAMES}
        except Exception as e:
            raise Violation("population-damaged", f"the file cannot be read after {cur.get('desc')}: "
                                                  f"{type(e).__name__}: {e}")
        return tabs, tr

    def check(busy=None):
        """Compare the whole file with the model; ``busy`` = what may be in any state."""
        tabs, tr = current()
        for k in BASE:
            if tabs[k] is None:
                raise Violation("population-damaged", f"table {k} is gone after {cur.get('desc')}")
            why = popfiles.frames_equal(tabs[k], TABS[name][k])
            if why:
                raise Violation("population-damaged", f"{k} after {cur.get('desc')}: {why}")
        if busy != "channels" and model["channels"] != "?":
            have = None
            f = tabs["formation_channels"]
            if f is not None:
                have = {int(i): (a, b) for i, a, b in zip(f.index, f["channel_debug"], f["channel"])}
                if len(f) != len(have):
                    raise Violation("duplicate-channel", f"labels {list(f.index)} after {cur.get('desc')}")
            if have != model["channels"]:
                bad = [i for i in set(have or {}) | set(model["channels"] or {})
                       if (have or {}).get(i) != (model["channels"] or {}).get(i)]
                i = sorted(bad)[0] if bad else None
                raise Violation("wrong-channel", f"after {cur.get('desc')}: binary {i} has {(have or {}).get(i)} instead "
                                                 f"of {(model['channels'] or {}).get(i)} ({len(bad)} binaries differ)")
        for m in NAMES:
            if m == busy or trans.get(m) == "?":
                continue
            have = None if tr[m] is None else rows_of(tr[m])
            compare(have, trans.get(m), m)

    def compare(have, want, m):
        want = want or None
        if have == want:
            return
        for i in sorted(set(have or {}) | set(want or {})):
            a, b = (have or {}).get(i), (want or {}).get(i)
            if a != b:
                raise Violation("wrong-transient", f"{m} after {cur.get('desc')}: binary {i} has {str(a)[:500]} instead "
                                                   f"of {str(b)[:500]}")

    def on_op(node, msg):
        ses = scn["sessions"][cur["k"]]
        op = ses["ops"][msg["j"]]
        if msg["what"] == "start":
            cur.update(op=op, desc=f"{op} with chunk size {ses['cs']} on {name}")
            return {"do": "go"}
        ret = msg["ret"]
        what = "channels" if op["op"] == "channels" else op["name"]
        want_err = op.get("f") in ("notime", "nomet", "twice")
        if ret in ("ok", "pop", "none", "pop-noraise", "none-noraise"):
            if want_err:
                raise Violation("not-refused", f"{op['f']} was accepted")
            if what == "channels":
                model["channels"] = ref_channels(name, op["mt"])
            else:
                ch = model["channels"]
                if ch == "?":
                    trans[what] = "?" if op["f"] in ("chan", "grb") else ref_transient(name, op, None)
                else:
                    trans[what] = ref_transient(name, op, ch)
                if trans[what] != "?":
                    if ret.startswith("none") and trans[what]:
                        raise Violation("wrong-transient", f"{cur['desc']}: no population returned")
                    if ret.startswith("pop"):
                        compare(msg["rows"], trans[what], "returned " + what)
            stat["done"] += 1
            stat["chunked"] += ses["cs"] < nsys
        else:
            incomplete = op.get("f") == "grb" and model["channels"] == "?"     # needs the channels of all
            if ret != "boom" and not want_err and not msg["injected"] and not incomplete:
                raise Violation("computation-failed", f"{cur['desc']}: {ret}")
            if want_err and not ret.startswith("ValueError") and not msg["injected"]:
                raise Violation("computation-failed", f"{cur['desc']}: {ret}")
            stat["failed"] += 1
            if what == "channels":
                model["channels"] = "?"
            else:
                trans[what] = "?"
        check()
        cur.pop("op", None)
        return {"do": "go"}
    sim.on_msg["op"] = on_op

    for k, ses in enumerate(scn["sessions"]):
        cur.clear()
        cur["k"] = k
        if ses["fault"]:
            sim.faults.append(dict(ses["fault"], node=f"session{k}"))
        node = sim.solo(f"session{k}", session(scn, ses), cwd=sim.root)
        if node.state == "killed":
            op = cur.get("op")
            if op:
                cur["desc"] = "a kill during " + cur["desc"]
                if op["op"] == "channels":
                    model["channels"] = "?"
                else:
                    trans[op["name"]] = "?"
            check()
        else:
            must_succeed(node, node.name, sim)
    for k, v in stat.items():
        sim.count_probe(k, v)
    return stat


def nontrivial(scn, res):
    return bool(res.get("probes", {}).get("chunked"))

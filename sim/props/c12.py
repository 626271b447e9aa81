"""C12: weights and rates belong to the right binary and never leak models."""
import os
import random

import numpy as np
import pandas as pd

from .. import kernel, popfiles
from ..kernel import Violation
from .c01 import must_succeed

PROP = "C12"
QUICK = {"runs": 2500, "wall": 85}
THOROUGH = {"runs": 60000, "wall": 3000}
KEEP = set()
SHRINK_INT = {"sched_seed": 0, "list_seed": 0}
SHRINK_TO = {"fault": None}
RULE = ("one case = one sequence of weight, rate and observable computations on one population file, in sessions that "
        "may be killed or meet I/O errors; non-trivial if at least one computation went over several chunks; distinct "
        "by event log and scenario")
COMPONENTS = {"real": ["TransientPopulation.calculate_model_weights, calculate_cosmic_weights, efficiency",
                       "Rates (intrinsic rate density, observable populations)", "norm_pop, rate_calculation, "
                       "star_formation_history", "pandas/PyTables/HDF5", "file system (scratch)"],
              "stub": ["IllustrisTNG data file (synthetic)", "evolution steps of the binaries (scripted)",
                       "disk errors", "process death",
                       "z_at_value and get_mean_mass memoised (same values, computed once)"]}
ASSUMPTIONS = ["process death, not power loss", "the numerical SFH, cosmology and distribution functions themselves are "
               "taken as given (pure functions, see N05/N01)"]
FILES = ["sorted", "shuffled", "sparse", "ranks", "two", "one"]
BASE = ["history", "oneline", "mass_per_metallicity", "ini_parameters"]
TNAMES = ["T", "TU"]
WIDS = ["w", "w2"]
SIDS = ["s", "s2"]
ONAMES = ["o", "o2"]
DT0 = 100
DEFAULTS = {}
TABS, TRANS, INI = {}, {}, {}
REFT = {}
TIMEINT = []

MODELS = [None,
          {"SFR": "Madau+Fragos17", "sigma": 0.5, "delta_t": 500},
          {"SFR": "Neijssel+19", "sigma": 0.4, "delta_t": 2000, "normalise": False},
          {"delta_t": 500},
          {"SFR": "Madau+Dickinson14", "sigma": "Bavera+20", "Z_max": 0.03, "Z_min": 1e-5, "delta_t": 2000},
          {"delta_t": 2000, "dlogZ": [-4.0, -1.0]},
          {"delta_t": 2000, "dlogZ": 1.2},
          {"SFR": "Fujimoto+24", "sigma": 0.5},
          {"delta_t": 2000}]
POP0 = {'number_of_binaries': 1000000, 'binary_fraction_scheme': 'const', 'binary_fraction_const': 0.7,
        'star_formation': 'burst', 'max_simulation_time': 13800000000.0, 'primary_mass_scheme': 'Kroupa2001',
        'primary_mass_min': 0.01, 'primary_mass_max': 200, 'secondary_mass_scheme': 'flat_mass_ratio',
        'secondary_mass_min': 0.01 * 0.05, 'secondary_mass_max': 200, 'orbital_scheme': 'period',
        'orbital_period_scheme': 'Sana+12_period_extended', 'orbital_period_min': 0.35, 'orbital_period_max': 6e3,
        'eccentricity_scheme': 'zero'}
PARAMS = [None,
          dict(POP0, primary_mass_scheme='Salpeter', primary_mass_min=0.1, primary_mass_max=300, q_min=0.0, q_max=1.0),
          dict(POP0, binary_fraction_const=0.25, primary_mass_min=0.1, q_min=0.01, q_max=1.0),
          dict(POP0, primary_mass_min=0.08, orbital_scheme='separation', orbital_separation_scheme='log_uniform',
               orbital_separation_min=1.0, orbital_separation_max=1e5, q_min=0.01, q_max=1.0)]
SIMPAR = [None, {"binary_fraction_const": 0.9}]


def fake_illustris(real):
    z = np.array([100.0, 20.0, 10.0, 6.0, 4.0, 2.0, 1.0, 0.5, 0.1, 0.0])
    mets = 10.0 ** np.linspace(-6, -1.2, 25)
    m = np.array([[1.0 + (3 * i + 7 * j) % 11 for j in range(25)] for i in range(10)])
    data = {"SFR": 0.01 * (1 + np.arange(10.0)), "redshifts": z, "mets": mets, "M": m}

    def load(file, *a, **kw):
        if str(file).endswith("IllustrisTNG.npz"):
            return data
        return real(file, *a, **kw)
    return load


def memo(mod, name, keyf):
    real = getattr(mod, name, None)
    if real is None or hasattr(real, "_memo"):
        return
    cache = {}

    def f(*a, **kw):
        k = keyf(*a, **kw)
        if k not in cache:
            cache[k] = real(*a, **kw)
        return cache[k]
    f._memo = cache
    setattr(mod, name, f)


def flip_masses(path):
    """In some binaries the secondary is the more massive star."""
    from posydon.popsyn.binarypopulation import ONELINE_MIN_ITEMSIZE
    with pd.HDFStore(path, "a") as st:
        n = st.select("oneline")
        a, b = n.columns.get_loc("S1_mass_i"), n.columns.get_loc("S2_mass_i")
        for k in range(len(n)):
            if n.index[k] % 3 == 1 and n.iloc[k, b] > 0:
                n.iloc[k, a], n.iloc[k, b] = n.iloc[k, b], n.iloc[k, a]
        st.remove("oneline")
        st.append("oneline", n, min_itemsize={k: v for k, v in ONELINE_MIN_ITEMSIZE.items() if k in n.columns})


def preload():
    popfiles.preload(names=None, cached=True)
    import tempfile

    from posydon.popsyn import norm_pop, rate_calculation as rc
    np.load = fake_illustris(np.load)
    memo(rc, "z_at_value", lambda f, t, **kw: (getattr(f, "__name__", ""), float(t.value), str(t.unit), str(kw)))
    memo(norm_pop, "get_mean_mass", lambda p: repr(sorted((k, str(v)) for k, v in p.items())))
    memo(rc, "get_shell_comoving_volume", lambda *a, **kw: (a, str(kw)))
    import posydon.popsyn.synthetic_population as sp
    for n in ("get_shell_comoving_volume",):
        if hasattr(sp, n):
            setattr(sp, n, getattr(rc, n))
    DEFAULTS.update(rc.DEFAULT_SFH_MODEL)
    with tempfile.TemporaryDirectory(dir=os.environ.get("SIM_SCRATCH", "/tmp")) as d:
        for name in FILES:
            if name not in popfiles.FILES:
                continue
            p = os.path.join(d, name + ".h5")
            with open(p, "wb") as f:
                f.write(popfiles.FILES[name])
            flip_masses(p)
            TABS[name] = popfiles.tables(p, BASE)
            with pd.HDFStore(p, "a") as st:
                for tn in TNAMES:
                    TRANS[name, tn] = events(name, tn)
                    st.append("transients/" + tn, TRANS[name, tn], min_itemsize={"channel": 100})
            with open(p, "rb") as f:
                popfiles.FILES[name] = f.read()
            INI[name] = {c: TABS[name]["ini_parameters"][c].iloc[0] for c in TABS[name]["ini_parameters"].columns}
    TIMEINT.append(rc.redshift_from_cosmic_time_interpolator())
    for dt in (DT0, 500, 2000):
        edges, cent = np.asarray(rc.get_redshift_bin_edges(dt)), np.asarray(rc.get_redshift_bin_centers(dt))
        REFT[dt] = {"edges": edges, "cent": cent, "t": np.asarray(rc.get_cosmic_time_from_redshift(cent)),
                    "vol": np.array([rc.get_shell_comoving_volume(edges[i], edges[i + 1], "infinite")
                                     for i in range(len(edges) - 1)])}
    for p in PARAMS:
        norm_pop.get_mean_mass(p or POP0)
    for ini in INI.values():
        for sp in SIMPAR:
            norm_pop.get_mean_mass(dict(ini, **(sp or {})))


def events(name, tn):
    rng = random.Random(name + tn)
    one = TABS[name]["oneline"]
    rows = []
    for i, z in zip(one.index, one["metallicity"]):
        for k in range(rng.choice([0, 1, 1, 2, 3]) if len(one) > 1 else 2):
            rows.append((int(i), rng.choice([3.0, 12.5, 300.0, 2500.0, 9000.0, 15000.0]) + rng.random(), float(z),
                         rng.choice(["ZAMS_END", "ZAMS_oRLO1_END", "x"]), rng.uniform(5, 50)))
    if not rows:
        rows.append((int(one.index[0]), 5.0, float(one["metallicity"].iloc[0]), "x", 7.0))
    rng.shuffle(rows)
    return pd.DataFrame([r[1:] for r in rows], columns=["time", "metallicity", "channel", "m1"],
                        index=[r[0] for r in rows])


# ---- reference -----------------------------------------------------------------------

def ref_weights(name, tn, params, simpar):
    """The weight of every event, each from its own binary alone."""
    from posydon.popsyn import norm_pop
    one, mass = TABS[name]["oneline"], TABS[name]["mass_per_metallicity"]
    cache, out = {}, []
    sp = dict(INI[name])
    if simpar:
        sp.update(simpar)
    for i, z in zip(TRANS[name, tn].index, TRANS[name, tn]["metallicity"]):
        if i not in cache:
            row = one.loc[[i], ["S1_mass_i", "S2_mass_i", "orbital_period_i", "eccentricity_i", "state_i"]].copy()
            a, b = float(row["S1_mass_i"].iloc[0]), float(row["S2_mass_i"].iloc[0])
            if b > a:
                row["S1_mass_i"], row["S2_mass_i"] = b, a
            cache[i] = float(np.asarray(norm_pop.calculate_model_weights(
                pop_data=row, M_sim=float(mass["simulated_mass"].loc[z]), simulation_parameters=dict(sp),
                population_parameters=dict(params or POP0))).flatten()[0])
        out.append(cache[i])
    return np.array(out)


def full_model(m):
    out = dict(DEFAULTS)
    out.update(m or {})
    return out


def ref_cosmic(name, tn, w, m):
    from astropy import constants as const

    from posydon.popsyn import rate_calculation as rc
    from posydon.popsyn.star_formation_history import SFR_per_met_at_z
    from posydon.utils.constants import Zsun
    m = full_model(m)
    r = REFT[m["delta_t"]]
    zs = np.sort(TABS[name]["mass_per_metallicity"].index.to_numpy().astype(float))
    lg = np.log10(zs * Zsun)
    if len(zs) == 1:
        dz = m["dlogZ"]
        lo, hi = (-9.0, 0.0) if dz is None else ((lg[0] - dz / 2, lg[0] + dz / 2) if isinstance(dz, float) else dz)
        edges = np.array([lo, hi])
    else:
        mid = (lg[1:] + lg[:-1]) / 2
        edges = np.concatenate([[lg[0] - (lg[1] - lg[0]) / 2], mid, [lg[-1] + (lg[-1] - lg[-2]) / 2]])
    sfr = SFR_per_met_at_z(r["cent"], 10 ** edges, m)
    c = const.c.to("Mpc/yr").value
    tmax = rc.cosmology.age(1e-08).value * 0.9999999
    ws, zev = [], []
    for (t, z), wi in zip(TRANS[name, tn][["time", "metallicity"]].values.tolist(), w):
        te = r["t"] + t * 1e-3
        ze = np.full(len(te), np.nan)
        ok = te <= tmax
        ze[ok] = TIMEINT[0](te[ok])
        d = rc.get_comoving_distance_from_redshift(ze)
        j = list(zs).index(z)
        ws.append(4 * np.pi * c * d ** 2 * m["delta_t"] * 1e6 * sfr[:, j] * wi)
        zev.append(ze)
    return np.array(ws), np.array(zev)


def ref_intrinsic(name, tn, ws, zev, m, channels):
    r = REFT[full_model(m)["delta_t"]]
    ch = TRANS[name, tn]["channel"].to_numpy()
    e = r["edges"]
    out = {}
    for c in ["total"] + (sorted(set(ch)) if channels else []):
        sel = np.ones(len(ch), bool) if c == "total" else ch == c
        w, z = ws[sel], zev[sel]
        out[c] = np.array([np.nansum(w[(z > e[i]) & (z <= e[i + 1])]) for i in range(len(e) - 1)]) / r["vol"]
    return out


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=0, equal_nan=True)


# ---- scenarios -----------------------------------------------------------------------

def gen_op(rng):
    k = rng.choice(["weights", "weights", "cosmic", "cosmic", "cosmic", "intrinsic", "observable", "efficiency"])
    op = {"op": k, "t": rng.choice([TNAMES[0], TNAMES[0], TNAMES[1]])}
    if k in ("weights", "cosmic", "efficiency"):
        op["w"] = rng.choice(WIDS)
    if k in ("cosmic", "intrinsic", "observable"):
        op["s"] = rng.choice(SIDS)
    if k == "weights":
        op["p"], op["sp"] = rng.randrange(len(PARAMS)), rng.choice([0, 0, 1])
    elif k == "cosmic":
        op["m"] = rng.randrange(len(MODELS))
    elif k in ("intrinsic", "efficiency"):
        op["ch"] = rng.random() < 0.5
    elif k == "observable":
        op["o"] = rng.choice(ONAMES)
        op["raise"] = rng.choice([None, None, None, 1, 2])
    return op


def sensible(rng, ops, have):
    """Mostly let operations use results that exist."""
    for o in ops:
        if rng.random() < 0.9:
            ws = [w for w in WIDS if (o["t"], w) in have]
            ss = [s for s in SIDS if (o["t"], s, "s") in have]
            if o["op"] in ("cosmic", "efficiency") and ws:
                o["w"] = rng.choice(ws)
            elif o["op"] in ("intrinsic", "observable") and ss:
                o["s"] = rng.choice(ss)
            elif o["op"] != "weights":
                keep = {"op": "weights", "t": o["t"], "w": rng.choice(WIDS), "p": rng.randrange(len(PARAMS)), "sp": 0}
                if o["op"] in ("intrinsic", "observable") and ws:
                    keep = {"op": "cosmic", "t": o["t"], "w": rng.choice(ws), "s": rng.choice(SIDS),
                            "m": rng.randrange(len(MODELS))}
                o.clear()
                o.update(keep)
        if o["op"] == "weights":
            have.add((o["t"], o["w"]))
        elif o["op"] == "cosmic" and (o["t"], o["w"]) in have:
            have.add((o["t"], o["s"], "s"))


def gen(rng):
    name = rng.choice(FILES)
    sessions = []
    have = set()
    for s in range(rng.randint(1, 3)):
        ops = [gen_op(rng) for _ in range(rng.randint(2, 5))]
        if s == 0:
            t = rng.choice(TNAMES)
            ops = [{"op": "weights", "t": t, "w": rng.choice(WIDS), "p": rng.randrange(len(PARAMS)), "sp": 0}] + ops
            for o in ops:
                if rng.random() < 0.7:
                    o["t"] = t
        sensible(rng, ops, have)
        ses = {"cs": rng.choice([1, 2, 3, 5, 100000]), "ops": ops, "fault": None}
        v = rng.random()
        if v < 0.2:
            c = rng.choice([["h5.append", 10], ["h5.create", 12], ["h5.close", 10], ["h5.open_w", 8],
                            ["h5.remove", 5], ["*", 80], ["h5.read", 20]])
            ses["fault"] = {"cls": c[0], "n": rng.randint(1, c[1]), "do": "kill"}
        elif v < 0.35:
            c = rng.choice([["h5.append", 10, "eio"], ["h5.create", 12, "enospc"], ["h5.read", 20, "eio"],
                            ["h5.open_r", 20, "eio"], ["h5.open_w", 8, "eacces"]])
            ses["fault"] = {"cls": c[0], "n": rng.randint(1, c[1]), "do": c[2]}
        sessions.append(ses)
    return {"file": name, "sessions": sessions, "sched_seed": rng.randrange(1 << 30), "list_seed": 1}


def directed():
    out = []

    def W(w="w", p=0, t="T", sp=0):
        return {"op": "weights", "t": t, "w": w, "p": p, "sp": sp}

    def C(m, s="s", w="w", t="T"):
        return {"op": "cosmic", "t": t, "w": w, "s": s, "m": m}

    def I(s="s", ch=True, t="T"):
        return {"op": "intrinsic", "t": t, "s": s, "ch": ch}

    def O(o="o", s="s", t="T"):
        return {"op": "observable", "t": t, "s": s, "o": o, "raise": None}

    def E(w="w", ch=True, t="T"):
        return {"op": "efficiency", "t": t, "w": w, "ch": ch}
    for i, name in enumerate(FILES):
        cs = [2, 3, 1, 100000, 5, 1][i]
        out.append({"file": name, "sched_seed": 1, "list_seed": 1, "sessions": [
            {"cs": cs, "fault": None, "ops": [W(), W("w2", 1), E(), C(1), I(), O(), C(3, "s2", "w2"), I("s2", False),
                                              O("o2", "s2"), C(8, "s"), O("o", "s2"), C(0, "s2")]},
            {"cs": 3, "fault": None, "ops": [C(7, "s2"), I("s2"), W("w", 2, sp=1), C(5), C(6, "s2"), O(), C(2), I(),
                                             W(t="TU"), C(4, t="TU"), E(t="TU")]}]})
    for f in ({"cls": "h5.append", "n": 3, "do": "kill"}, {"cls": "h5.create", "n": 9, "do": "kill"},
              {"cls": "h5.remove", "n": 2, "do": "kill"}, {"cls": "h5.append", "n": 3, "do": "eio"}):
        out.append({"file": "shuffled", "sched_seed": 1, "list_seed": 1, "sessions": [
            {"cs": 4, "fault": None, "ops": [W(), C(1), I()]}, {"cs": 2, "fault": f, "ops": [C(8), O()]},
            {"cs": 2, "fault": None, "ops": [C(8), I(), O()]}]})
    return out


def valid(s):
    return len(s["sessions"]) >= 1


class Boom(Exception):
    pass


def obs_func(tp, ze, w):
    """Observability from the event's own mass and redshift."""
    out = w.copy()
    p = 1.0 / (1.0 + np.nan_to_num(ze.to_numpy(), nan=50.0)) * tp["m1"].to_numpy()[:, None]
    return pd.DataFrame(out.to_numpy() * p, index=w.index, columns=w.columns)


def session(scn, ses):
    def go():
        from posydon.popsyn import rate_calculation as rc
        from posydon.popsyn.synthetic_population import Rates, TransientPopulation
        n = kernel.NODE

        def tell(**kw):
            n.muted += 1
            try:
                n.call(dict(kw, t="op"))
            finally:
                n.muted -= 1
        tps = {}
        for j, op in enumerate(ses["ops"]):
            seen = n.injected
            tell(what="start", j=j)
            given, back = None, None
            try:
                if op["t"] not in tps:
                    tps[op["t"]] = TransientPopulation("p.h5", op["t"], chunksize=ses["cs"])
                tp = tps[op["t"]]
                k = op["op"]
                if k == "weights":
                    given = None if PARAMS[op["p"]] is None else dict(PARAMS[op["p"]])
                    kw = {} if SIMPAR[op["sp"]] is None else {
                        "simulation_parameters": dict(tp.ini_params, **SIMPAR[op["sp"]])}
                    r = tp.calculate_model_weights(op["w"], population_parameters=given, **kw)
                    back = (list(map(int, r.index)), list(r.columns), r.to_numpy().flatten().tolist())
                    if given is not None and given != PARAMS[op["p"]]:
                        back = "changed the given parameters"
                elif k == "cosmic":
                    given = None if MODELS[op["m"]] is None else dict(MODELS[op["m"]])
                    tp.calculate_cosmic_weights(op["s"], op["w"], MODEL_in=given)
                    if given is not None and given != MODELS[op["m"]]:
                        back = "changed the given model"
                elif k == "intrinsic":
                    r = Rates("p.h5", op["t"], op["s"], chunksize=ses["cs"]).calculate_intrinsic_rate_density(
                        channels=op["ch"])
                    back = {c: r[c].tolist() for c in r.columns}
                elif k == "observable":
                    calls = [0]

                    def func(a, b, c):
                        calls[0] += 1
                        if op["raise"] and calls[0] == op["raise"]:
                            n.fault("user_function_error")
                            raise Boom("scripted")
                        return obs_func(a, b, c)
                    Rates("p.h5", op["t"], op["s"], chunksize=ses["cs"]).calculate_observable_population(func, op["o"])
                else:
                    r = tp.efficiency(op["w"], channels=op["ch"])
                    back = (list(map(float, r.index)), {str(c): [float(x) for x in r[c]] for c in r.columns})
                ret = "ok"
            except Boom:
                ret = "boom"
            except Exception as e:
                import traceback
                ret = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-900:]}"
            leak = None
            if rc.DEFAULT_SFH_MODEL != DEFAULTS:
                leak = f"default model became {rc.DEFAULT_SFH_MODEL}"
            tell(what="done", j=j, ret=ret, back=back, injected=n.injected > seen, leak=leak)
            if n.injected > seen:
                break
        return None
    return go


def run(scn, sim):
    name = scn["file"]
    if name not in TABS:
        raise Violation("no-population", popfiles.ERRORS.get(name, f"{name} not made"))
    path = os.path.join(sim.root, "p.h5")
    with open(path, "wb") as f:
        f.write(popfiles.FILES[name])
    W, S, O = {}, {}, {}      # (t, id) -> reference or "?"
    cur = {}
    stat = {"done": 0, "chunked": 0, "failed": 0, "missing": 0}

    def fail(kind, msg):
        raise Violation(kind, f"{msg} after {cur.get('desc')}")

    def check(op=None):
        """Compare with the model the result of one operation, or the whole file."""
        if op is not None and op["op"] == "efficiency":
            return
        try:
            with pd.HDFStore(path, "r") as st:
                keys = set(st.keys())
                if op is not None:
                    t = op["t"]
                    if op["op"] == "weights":
                        check_w(st, keys, t, op["w"], TRANS[name, t])
                    elif op["op"] == "observable":
                        check_o(st, keys, t, op["o"], TRANS[name, t])
                    else:
                        check_s(st, keys, t, op["s"], TRANS[name, t])
                    return
                for k in BASE:
                    if "/" + k not in keys:
                        fail("population-damaged", f"table {k} is gone")
                    why = popfiles.frames_equal(st.select(k), TABS[name][k])
                    if why:
                        fail("population-damaged", f"{k}: {why}")
                for t in TNAMES:
                    b = "/transients/" + t
                    if b not in keys:
                        fail("population-damaged", f"transient {t} is gone")
                    tab = TRANS[name, t]
                    why = popfiles.frames_equal(st.select(b), tab)
                    if why:
                        fail("population-damaged", f"transient {t}: {why}")
                    for w in WIDS:
                        check_w(st, keys, t, w, tab)
                    for s in SIDS:
                        check_s(st, keys, t, s, tab)
                    for o in ONAMES:
                        check_o(st, keys, t, o, tab)
        except Violation:
            raise
        except Exception as e:
            import traceback
            fail("population-damaged", f"the file cannot be read: {type(e).__name__}: {e} {traceback.format_exc()[-500:]}")

    def rows(df, tab, what):
        if [int(i) for i in df.index] != [int(i) for i in tab.index]:
            fail("wrong-rows", f"{what} has rows for {list(df.index)[:15]} instead of {list(tab.index)[:15]}")

    def check_w(st, keys, t, w, tab):
        ref, key = W.get((t, w)), f"/transients/{t}/weights/{w}"
        if ref is None or isinstance(ref, str):
            if ref is None and key in keys:
                fail("residue", f"{key} exists")
            return
        if key not in keys:
            fail("lost-result", f"{key} is gone")
        df = st[key]
        rows(df, tab, key)
        if not close(df.to_numpy().flatten(), ref):
            bad = [k for k in range(len(ref)) if not close(df.to_numpy().flatten()[k], ref[k])]
            fail("wrong-weight", f"{key}: event {bad[0]} of binary {df.index[bad[0]]} has weight "
                                 f"{df.to_numpy().flatten()[bad[0]]} instead of {ref[bad[0]]} ({len(bad)} differ)")

    def check_s(st, keys, t, s, tab):
        ref, b = S.get((t, s)), f"/transients/{t}/rates/{s}/"
        if isinstance(ref, str):
            return
        have = {k[len(b):] for k in keys if k.startswith(b)}
        if ref is None:
            if have:
                fail("residue", f"{b} has {have}")
            return
        want = {"MODEL", "weights", "z_events", "birth"} | ({"intrinsic_rate_density"} if ref["i"] is not None else set())
        if ref["i"] == "?":
            have.discard("intrinsic_rate_density")
            want.discard("intrinsic_rate_density")
        if have != want:
            fail("residue" if have - want else "lost-result", f"{b} holds {sorted(have)} instead of {sorted(want)}")
        for k, r in (("weights", ref["w"]), ("z_events", ref["z"])):
            df = st[b + k]
            rows(df, tab, b + k)
            a = df.to_numpy()
            if a.shape != r.shape:
                fail("wrong-rates", f"{b}{k} has shape {a.shape} instead of {r.shape}")
            if not close(a, r):
                x, y = np.argwhere(~np.isclose(a, r, rtol=1e-9, atol=0, equal_nan=True))[0]
                fail("wrong-rates", f"{b}{k}: event {x} (binary {df.index[x]}) in birth bin {y}: {a[x, y]} instead of "
                                    f"{r[x, y]}")
        if ref["i"] is not None and not isinstance(ref["i"], str):
            df = st[b + "intrinsic_rate_density"]
            same_density({c: df[c].tolist() for c in df.columns}, ref["i"])

    def same_density(have, want):
        if set(have) != set(want):
            fail("wrong-density", f"columns {sorted(have)} instead of {sorted(want)}")
        for c in want:
            a, b = np.array(have[c], float), want[c]
            if a.shape != b.shape or not np.allclose(a, b, rtol=1e-9, atol=1e-300):
                fail("wrong-density", f"column {c}: {a[:4]} instead of {b[:4]}")
        if len(want) > 1:
            tot = sum(np.array(have[c], float) for c in have if c != "total")
            if not np.allclose(tot, np.array(have["total"], float), rtol=1e-8, atol=1e-300):
                fail("wrong-density", "the channels do not add up to the total")

    def check_o(st, keys, t, o, tab):
        ref, key = O.get((t, o)), f"/transients/{t}/rates/observable/{o}"
        if ref is None or isinstance(ref, str):
            if ref is None and key in keys:
                fail("residue", f"{key} exists")
            return
        if key not in keys:
            fail("lost-result", f"{key} is gone")
        df = st[key]
        rows(df, tab, key)
        if not close(df.to_numpy(), ref):
            fail("wrong-observable", f"{key} differs from the observability of its own events")

    def busy(op):
        """Results an interrupted operation may leave in any state."""
        if op["op"] == "weights":
            W[op["t"], op["w"]] = "?"
        elif op["op"] == "cosmic":
            if not isinstance(W.get((op["t"], op["w"])), np.ndarray) and W.get((op["t"], op["w"])) != "?":
                return
            S[op["t"], op["s"]] = "?"
        elif op["op"] == "intrinsic" and isinstance(S.get((op["t"], op["s"])), dict):
            S[op["t"], op["s"]]["i"] = "?"
        elif op["op"] == "observable" and S.get((op["t"], op["s"])) is not None:
            O[op["t"], op["o"]] = "?"

    def needs(op):
        """'ok', 'missing' (a refused request) or '?' (depends on what an interruption left)."""
        if op["op"] in ("cosmic", "efficiency"):
            r = W.get((op["t"], op["w"]))
        elif op["op"] in ("intrinsic", "observable"):
            r = S.get((op["t"], op["s"]))
        else:
            return "ok"
        return "missing" if r is None else "?" if isinstance(r, str) else "ok"

    def on_op(node, msg):
        ses = scn["sessions"][cur["k"]]
        op = ses["ops"][msg["j"]]
        if msg["what"] == "start":
            cur.update(op=op, desc=f"{op} with chunk size {ses['cs']} on {name}")
            return {"do": "go"}
        if msg["leak"]:
            fail("model-leak", msg["leak"])
        ret, t, need = msg["ret"], op["t"], needs(op)
        if ret == "ok":
            if isinstance(msg["back"], str):
                fail("model-leak", msg["back"])
            if need == "missing":
                fail("not-refused", "computed from results that do not exist")
            if need == "?":
                if op["op"] == "efficiency":
                    pass
                elif op["op"] == "intrinsic":
                    pass
                else:
                    busy(op)
            elif op["op"] == "weights":
                W[t, op["w"]] = ref_weights(name, t, PARAMS[op["p"]], SIMPAR[op["sp"]])
                idx, cols, vals = msg["back"]
                if cols != [op["w"]] or idx != [int(i) for i in TRANS[name, t].index] or not close(vals, W[t, op["w"]]):
                    fail("wrong-weight", "the returned weights are not those of the events")
            elif op["op"] == "cosmic":
                ws, ze = ref_cosmic(name, t, W[t, op["w"]], MODELS[op["m"]])
                S[t, op["s"]] = {"w": ws, "z": ze, "m": MODELS[op["m"]], "i": None}
            elif op["op"] == "intrinsic":
                r = S[t, op["s"]]
                r["i"] = ref_intrinsic(name, t, r["w"], r["z"], r["m"], op["ch"])
                same_density(msg["back"], r["i"])
            elif op["op"] == "observable":
                r = S[t, op["s"]]
                O[t, op["o"]] = r["w"] / (1.0 + np.nan_to_num(r["z"], nan=50.0)) * \
                    TRANS[name, t]["m1"].to_numpy()[:, None]
            elif op["op"] == "efficiency":
                idx, vals = msg["back"]
                tab, w = TRANS[name, t], W[t, op["w"]]
                for q, z in enumerate(idx):
                    m = tab["metallicity"].to_numpy() == z
                    want = {"total": w[m].sum()}
                    if op["ch"]:
                        want.update({c: w[m & (tab["channel"].to_numpy() == c)].sum() for c in set(tab["channel"])})
                    have = {c: v[q] for c, v in vals.items()}
                    if set(have) != set(want) or not all(np.isclose(have[c], want[c], rtol=1e-9, atol=0) for c in want):
                        fail("wrong-efficiency", f"Z={z}: {have} instead of {want}")
                if sorted(idx) != sorted(map(float, TABS[name]["mass_per_metallicity"].index)):
                    fail("wrong-efficiency", f"metallicities {idx}")
            stat["done"] += 1
            stat["chunked"] += ses["cs"] < len(TRANS[name, t])
        else:
            if ret != "boom" and not msg["injected"] and need == "ok":
                raise Violation("computation-failed", f"{cur['desc']}: {ret}")
            if need == "missing":
                stat["missing"] += 1
            else:
                stat["failed"] += 1
            if need != "missing":
                busy(op)
        check(op)
        cur.pop("op", None)
        return {"do": "go"}
    sim.on_msg["op"] = on_op

    for k, ses in enumerate(scn["sessions"]):
        cur.clear()
        cur["k"] = k
        if ses["fault"]:
            sim.faults.append(dict(ses["fault"], node=f"session{k}"))
        node = sim.solo(f"session{k}", session(scn, ses), cwd=sim.root)
        if node.state == "killed":
            if cur.get("op"):
                cur["desc"] = "a kill during " + cur["desc"]
                if needs(cur["op"]) != "missing":
                    busy(cur["op"])
        else:
            must_succeed(node, node.name, sim)
        check()
    for k, v in stat.items():
        sim.count_probe(k, v)
    return stat


def nontrivial(scn, res):
    return bool(res.get("probes", {}).get("chunked"))

"""C13: a created grid file mirrors its simulation folders exactly once."""
import math
import os
import random

from .. import kernel, mesa
from ..kernel import Violation

PROP = "C13"
QUICK = {"runs": 3000, "wall": 60}
THOROUGH = {"runs": 300000, "wall": 3000}
KEEP = set()
SHRINK_INT = {"sched_seed": 0, "list_seed": 0, "twin_seed": 0}
SHRINK_TO = {"fault": None, "slim": False, "v1": False, "start_at_RLO": False, "stop": False, "rlofix": False,
             "hds": None, "pds": None, "bhc": "minimum", "hc": "minimum", "pc": "minimum", "redo": [], "dmg": {},
             "gz": [], "both": [], "place": "main", "tf1": 0, "rlo": None, "inputs": "one", "accept": False, "heavy": 0, "eep": False,
             "ek": None, "ex": 0}
RULE = ("one case = one tree of scripted simulation runs (damaged, compressed, repeated and nested in part) turned into "
        "a grid file under two listing orders and compressions, with read errors in part; non-trivial if a run is "
        "damaged, repeated, compressed or a fault hit; distinct by event log and scenario")
COMPONENTS = {"real": ["posydon.grids.psygrid (PSyGrid.create)", "posydon.grids.io", "posydon.grids.scrubbing",
                       "posydon.grids.termination_flags", "posydon.utils.gridutils", "h5py", "file system (scratch)"],
              "stub": ["MESA (scripted output files)", "directory listing order", "disk read errors"]}
ASSUMPTIONS = ["star states, mass-transfer flags and the down-sampling error are taken from the package's own pure "
               "functions", "a truncation ends at a field boundary (a cut number cannot be told from a number)"]
EEP_KINDS = ["missing", "empty", "names", "rows:1", "rows:0", "garbage", "nocol"]
EEP_EXT = [".data.eep", ".data.clean.eep", ".data.eep.gz", ".data.clean.eep.gz"]
KINDS = ["missing", "empty", "head", "names", "rows:1", "rows:0", "mid:1,1", "mid:2,9", "mid:2,-1", "gzcut", "gzhead",
         "garbage", "nocol"]


def preload():
    import tqdm
    tqdm.tqdm.monitor_interval = 0
    import h5py  # noqa: F401
    from posydon.grids import psygrid  # noqa: F401


def new_run(rng, binary, i):
    r = {"seed": rng.randrange(1 << 30), "n": rng.choice([1, 2, 3, 5, 8, 12]), "np": rng.choice([1, 2, 4, 9]),
         "m1": round(rng.uniform(5, 60), 4), "m2": round(rng.uniform(1, 5), 4), "p": round(rng.uniform(0.5, 900), 4),
         "z": rng.choice([0.0142, 0.00142, 0.0284]), "y": 0.27, "redo": [], "rlo": None, "tf1": rng.randrange(6),
         "dmg": {}, "gz": [], "both": [], "place": rng.choice(["main", "main", "main", "sub", "rerun"]), "index": i,
         "drop": rng.randrange(4)}
    if rng.random() < 0.3:
        r["redo"] = sorted(rng.sample(range(1, 8), 2))
    if rng.random() < 0.6:
        r["rlo"] = rng.randrange(0, 4)
    if rng.random() < 0.1:
        r["m1"] = 120.0 + i
    for f in ["bh", "h1", "h2", "p1", "p2", "inlist", "out"]:
        if rng.random() < 0.12:
            r["dmg"][f] = rng.choice(KINDS)
        if rng.random() < 0.25:
            r["gz"].append(f)
        elif rng.random() < 0.05:
            r["both"].append(f)         # beside an identical compressed copy
    return r


def gen(rng):
    binary = rng.random() < 0.75
    n = rng.choice([1, 2, 3, 4, 5, 7])
    runs = [new_run(rng, binary, i) for i in range(n)]
    if n > 1 and rng.random() < 0.4:    # a run again, under another number or as a rerun
        a, b = rng.sample(range(n), 2)
        for k in ("m1", "m2", "p", "z"):
            runs[a][k] = runs[b][k]
    s = {"binary": binary, "runs": runs, "heavy": 0, "v1": rng.random() < 0.1,
         "inputs": rng.choice(["one", "list", "list", "glob"]), "slim": rng.random() < 0.12,
         "start_at_RLO": binary and rng.random() < 0.3, "stop": binary and rng.random() < 0.25,
         "rlofix": binary and rng.random() < 0.3, "hefix": rng.random() < 0.8, "accept": rng.random() < 0.4,
         "hds": rng.choice([None, None, None, 0.1]), "pds": rng.choice([None, None, None, 0.1]),
         "bhc": rng.choice(["minimum", "minimum", "all", "list"]), "hc": rng.choice(["minimum", "minimum", "all", "list"]),
         "pc": rng.choice(["minimum", "minimum", "all", "list", "tuple"]),
         "compression": rng.choice(["gzip9", "gzip", "lzf", None, "gzip1"]), "warn": rng.choice(["end", "suppress",
                                                                                                "normal"]),
         "fault": None, "twin_seed": rng.randrange(1 << 30), "sched_seed": 1, "list_seed": rng.randrange(1 << 30)}
    s["eep"] = not binary and rng.random() < 0.45      # equivalent evolutionary points instead of histories
    if s["eep"]:
        s["asbin"] = rng.random() < 0.2                 # the code switches to single stars by itself
        if s["asbin"]:
            s["rlofix"] = rng.random() < 0.3
        for r in runs:
            r["ek"] = rng.choice(EEP_KINDS) if rng.random() < 0.25 else None
            r["ex"] = rng.randrange(4)
            r["en"] = rng.choice([1, 2, 3, 5, 9])
            if "h1" in r["dmg"]:
                r["dmg"]["h1"] = rng.choice(["missing", "empty", "names", "rows:1", "rows:0", "garbage"])
    if s["rlofix"] and rng.random() < 0.4 and binary:
        s["heavy"] = rng.choice([19, 20, 21])
        bulk = all_runs(dict(s, runs=[]))
        for r in runs:
            if rng.random() < 0.3:      # beside one of them, at or next to the boundary
                b = rng.choice(bulk)
                r["m1"], r["m2"] = round(b["m1"] + rng.choice([0, 0.1]), 4), round(b["m2"] + 0.01, 4)
                r["p"] = b["p"] * 1.001 * rng.choice([1.0, 1.0, 0.99, 1.01])
    if rng.random() < 0.15:
        s["fault"] = {"cls": "fs.open_r", "n": rng.randint(1, 12 * n), "do": rng.choice(["eio", "eacces", "enoent"])}
    return s


def directed():
    out = []
    base = {"binary": True, "heavy": 0, "v1": False, "inputs": "one", "slim": False, "start_at_RLO": False,
            "stop": False, "rlofix": False, "hefix": True, "accept": False, "hds": None, "pds": None, "bhc": "minimum",
            "hc": "minimum", "pc": "minimum", "compression": "gzip9", "warn": "end", "fault": None, "twin_seed": 7,
            "sched_seed": 1, "list_seed": 3}

    def rr(i, **kw):
        r = {"seed": 100 + i, "n": 5, "np": 4, "m1": 10.0 + i, "m2": 2.0 + 0.1 * i, "p": 5.0 + i, "z": 0.0142, "y": 0.27,
             "redo": [], "rlo": 2, "tf1": i % 6, "dmg": {}, "gz": [], "both": [], "place": "main", "index": i, "drop": 0}
        r.update(kw)
        return r
    for binary in (True, False):
        for f in ["bh", "h1", "h2", "p1", "p2", "inlist", "out"]:
            for k in KINDS:
                for opt in ({}, {"rlofix": True, "start_at_RLO": True}, {"bhc": "all", "hc": "all", "pc": "all"}):
                    if not binary and (f in ("bh", "h2", "p2") or opt.get("rlofix")):
                        continue
                    out.append(dict(base, binary=binary, runs=[rr(0, dmg={f: k}), rr(1), rr(2)], **opt))
    for k in EEP_KINDS:
        out.append(dict(base, binary=False, eep=True, asbin=False,
                        runs=[rr(0, ek=k, ex=0, en=3), rr(1, ek=None, ex=2, en=4), rr(2, ek=None, ex=3, en=2)]))
    for k in ["missing", "empty", "names", "garbage"]:
        out.append(dict(base, binary=False, eep=True, asbin=False, hc="all",
                        runs=[rr(0, ek=None, ex=1, en=3, dmg={"h1": k}), rr(1, ek=None, ex=2, en=4)]))
    out.append(dict(base, rlofix=True, heavy=20, runs=[rr(0, p=1e-3, dmg={"bh": "missing"}), rr(1, p=1e-3),
                                                       rr(2, p=1e3), rr(3, p=1e-3, dmg={"inlist": "missing"})]))
    out.append(dict(base, inputs="list", runs=[rr(0), rr(1, m1=10.0, m2=2.0, p=5.0, place="rerun"), rr(2)]))
    out.append(dict(base, runs=[rr(0), rr(1, m1=10.0, m2=2.0, p=5.0), rr(2, m1=10.0, m2=2.0, p=5.0, gz=["out"])]))
    return out


def valid(s):
    return bool(s["runs"]) and len({r["index"] for r in s["runs"]}) == len(s["runs"]) \
        and len({(r["m1"], r["m2"], r["p"]) for r in s["runs"]}) >= 1


# -- the tree ----------------------------------------------------------------------
def all_runs(s):
    runs = list(s["runs"])
    r = random.Random(5 + s.get("heavy_from", 0))
    for i in range(s.get("heavy_from", 0), s.get("heavy_from", 0) + s["heavy"]):
        runs.append({"seed": 900 + i, "n": 1, "np": 1, "m1": 20.0 + 1.37 * i, "m2": 2.0 + 0.13 * i, "p": 2.0 + r.random(),
                     "z": 0.0142, "y": 0.27, "redo": [], "rlo": 0, "tf1": 4, "dmg": {}, "gz": [], "both": [],
                     "place": "main", "index": 1000 + i, "drop": 0, "bulk": True})
    return runs


def dirname(r, s):
    if not s["binary"]:
        return f"initial_mass_{r['m1']:.4f}_" + ("" if s["v1"] else f"initial_z_{r['z']:.4e}_") + f"grid_index_{r['index']}"
    return f"Zbase_0.0142_m1_{r['m1']:.4f}_m2_{r['m2']:.4f}_" + ("" if s["v1"] else f"initial_z_{r['z']:.4e}_") \
        + f"initial_period_in_days_{r['p']:.4e}_grid_index_{r['index']}"


def params(r, s):
    z = () if s["v1"] else (f"{r['z']:.4e}",)
    if not s["binary"]:
        return (f"{r['m1']:.4f}",) + z
    return (f"{r['m1']:.4f}", f"{r['m2']:.4f}", f"{r['p']:.4e}") + z


def place(r, s):
    """Relative folder of a run and the number of the input path that covers it."""
    if s["inputs"] == "one":
        return {"main": "g/main", "sub": "g/main/part A/deep", "rerun": "g/reruns"}[r["place"]], 0
    if s["inputs"] == "glob":
        return {"main": "g_1", "sub": "g_1/part A/deep", "rerun": "g_2"}[r["place"]], 0
    return {"main": "main", "sub": "main/part A/deep", "rerun": "reruns"}[r["place"]], \
        1 if r["place"] == "rerun" else 0


def inputs(s, top):
    if s["inputs"] == "one":
        return os.path.join(top, "g")
    if s["inputs"] == "glob":
        return os.path.join(top, "g_*")
    return [os.path.join(top, "main"), os.path.join(top, "reruns")]


def kind(r, f, s, cols):
    k = r["dmg"].get(f)
    if k is None:
        return None
    if k.startswith("mid:") and f in cols:
        a, left = k[4:].split(",")
        if left == "-1":
            k = f"mid:{a},{len(cols[f]) - 1}"
    if f in ("out", "inlist") and (k.startswith(("mid", "rows")) or k in ("head", "names", "nocol")):
        return "cut"
    whole = {"bh": s["bhc"], "h1": s["hc"], "h2": s["hc"], "p1": s["pc"], "p2": s["pc"]}.get(f) == "all"
    if whole and k in ("nocol", "garbage"):
        return "missing"
    return k


def dropcol(r, f):
    if f == "bh":
        return ["period_days", "age", "model_number", "star_1_mass"][r["drop"]]
    if f[0] == "h":
        return ["center_h1", "star_age", "model_number", "log_L"][r["drop"]]
    return ["mass", "radius", "logRho", "energy"][r["drop"]]


def outtext(r):
    t = mesa.TF1[r["tf1"]]
    lines = ["starting", "step 1", "Terminate: not the last", "more", t, " DATE: end"]
    if t == "no end here":
        del lines[2]
    elif "min_timestep" in t:
        lines[2] = "nothing"
    return "\n".join(lines) + "\n"


def want_tf1(r):
    t = mesa.TF1[r["tf1"]]
    if t == "no end here":
        return "reach cluster timelimit"
    return t.split(": ", 1)[1]


def inlist(r, s, cut):
    if cut:
        return "&binary_controls\n\tm1 = "
    if not s["binary"]:
        return f"&controls\n\tinitial_mass = {r['m1']}d0\n\tinitial_z = {r['z']}d0\n/\n"
    return f"&binary_controls\n\tm1 = {r['m1']}d0\n\tm2 = {r['m2']}d0\n\tinitial_period_in_days = {r['p']}d0\n/ ! end\n"


def eep_rows(r, s, cols):
    """Points of the EEP file of a run: other values than in its history."""
    return mesa.make(dict(r, seed=r["seed"] + 1, n=r["en"], redo=[]), False, cols)["h1"]


def eep_on(s):
    """Whether EEP files are used: without any of them, the histories are."""
    return bool(s.get("eep")) and any(eep_kind(r, s) != "missing" for r in s["runs"])


def eep_kind(r, s):
    k = r["ek"]
    return "missing" if k in ("nocol", "garbage") and s["hc"] == "all" else k


def build_eeps(s, top, cols, flip):
    os.makedirs(top)
    fl = random.Random(flip) if flip is not None else None
    for r in s["runs"]:
        body = mesa.text("h1", r, eep_rows(r, s, cols), cols["h1"], False)
        data = mesa.damaged(eep_kind(r, s), body, cols["h1"], random.Random(f"{r['seed']}eep"), "log_L")
        if data is None:
            continue
        if eep_kind(r, s) not in ("empty", "garbage"):      # eleven lines of header, then the names
            data = b"# points\n" * 6 + data
        ext = EEP_EXT[r["ex"]]
        if fl is not None and fl.random() < 0.5:
            ext = EEP_EXT[r["ex"] ^ 2]
        ext, gz = (ext[:-3], True) if ext.endswith(".gz") else (ext, False)
        mesa.put(os.path.join(top, dirname(r, s) + ext), data, gz)


def build(s, top, cols, flip):
    """Write the tree; ``flip`` (a seed or None) chooses other files to be compressed."""
    os.makedirs(top)
    for d in (["g"] if s["inputs"] == "one" else ["g_1", "g_2"] if s["inputs"] == "glob" else ["main", "reruns"]):
        os.makedirs(os.path.join(top, d), exist_ok=True)
    fl = random.Random(flip) if flip is not None else None
    for r in all_runs(s):
        rng = random.Random(f"{r['seed']}dmg")
        d = os.path.join(top, place(r, s)[0], dirname(r, s))
        os.makedirs(d)
        tabs = mesa.make(r, s["binary"], cols)
        for f in ["bh", "h1", "h2", "p1", "p2", "inlist", "out"]:
            if not s["binary"] and f in ("bh", "h2", "p2"):
                continue
            gz = f in r["gz"]
            if fl is not None and fl.random() < 0.5:
                gz = not gz
            k = kind(r, f, s, cols)
            if f == "out":
                path = "out.txt" if s["binary"] else "out_star1_formation_step0.txt"
                body = outtext(r)
                if k == "cut":
                    body = "starting\nste"
            elif f == "inlist":
                path, body = mesa.PATHS[f], inlist(r, s, k == "cut")
            else:
                path = mesa.PATHS[f]
                body = mesa.text(f, r, tabs[f], cols[f], s["binary"])
            if k in ("gzcut", "gzhead"):
                mesa.put(os.path.join(d, path), body.encode(), True, k == "gzcut", k == "gzhead")
                continue
            data = mesa.damaged(None if k == "cut" else k, body, cols.get(f), rng,
                                dropcol(r, f) if f in cols else None)
            if data is None:
                continue
            mesa.put(os.path.join(d, path), data, gz)
            if f in r["both"] and k is None:
                mesa.put(os.path.join(d, path), data, not gz)


# -- the reference -------------------------------------------------------------------
def arr(rows, cols):
    import numpy as np
    a = np.zeros(len(rows), dtype=[(c, "f8") for c in cols])
    for i, row in enumerate(rows):
        for c in cols:
            a[i][c] = row[c]
    return a


def saved(s, cols):
    """Columns to be stored per table."""
    from posydon.grids import psygrid as pg
    out = {}
    for f in cols:
        opt = s["bhc"] if f == "bh" else s["hc"] if f[0] == "h" else s["pc"]
        dflt = {"b": pg.DEFAULT_BINARY_HISTORY_COLS, "p": pg.DEFAULT_PROFILE_COLS,
                "h": pg.DEFAULT_STAR_HISTORY_COLS if s["binary"] else pg.DEFAULT_EEP_HISTORY_COLS if eep_on(s)
                else pg.DEFAULT_SINGLE_HISTORY_COLS}[f[0]]
        if opt == "all":
            out[f] = list(cols[f])
        elif opt == "list":
            out[f] = list(dflt) + mesa.EXTRA[f]
        elif opt == "tuple":
            out[f] = ["radius", "mass"]
        else:
            out[f] = list(dflt)
    return out


def expect(r, s, cols, keep):
    """What the grid has to contain of one run; None if it has to be skipped."""
    from posydon.grids import termination_flags as tf
    from posydon.grids.scrubbing import keep_till_central_abundance_He_C
    from posydon.utils.common_functions import get_i_He_depl, orbital_separation_from_period
    import numpy as np
    binary = s["binary"]
    tabs = mesa.make(r, binary, cols)
    opt = {"bh": s["bhc"], "h1": s["hc"], "h2": s["hc"], "p1": s["pc"], "p2": s["pc"]}
    got = {}
    for f in tabs:
        k = kind(r, f, s, cols)
        drop = dropcol(r, f)
        got[f] = mesa.usable(k, tabs[f], cols[f], None if opt[f] == "all" else keep[f])
        if k == "nocol" and drop not in keep[f]:
            if f[0] == "h" and drop in ("model_number", "star_age"):
                return "bad"
            got[f] = tabs[f]                   # the lost column is not used
    if eep_on(s):
        if kind(r, "h1", s, cols) in ("missing", "empty", "garbage"):
            return "bad"                       # its header is needed
        got["h1"] = mesa.usable(eep_kind(r, s), eep_rows(r, s, cols), cols["h1"], None if s["hc"] == "all" else keep["h1"])
    e = {"grid_point": None, "path": None, "tables": {}, "initial": {}, "final": {}, "flags": None, "bad": False}
    k = kind(r, "inlist", s, cols)
    if k is None and binary:
        e["grid_point"] = {"star_1_mass": r["m1"], "star_2_mass": r["m2"], "period_days": r["p"]}
    if (binary and got["bh"] is None) or (not binary and got["h1"] is None):
        return "bad"
    he = {}
    for f in ("h1", "h2"):
        rows = got.get(f)
        if rows is None:
            continue
        if s["hefix"]:
            rows = [dict(x, he_core_mass=max(x["he_core_mass"], x["co_core_mass"]),
                         he_core_radius=max(x["he_core_radius"], x["co_core_radius"])) for x in rows]
            got[f] = rows
        i = get_i_He_depl(arr(rows, keep[f])) if rows else -1
        for c in ("avg_c_in_c_core", "co_core_mass"):
            he[f"S{f[1]}_{c}_at_He_depletion"] = rows[i][c] if i >= 0 else math.nan
    if not eep_on(s):
        got.update(mesa.scrubbed({f: got[f] for f in ("bh", "h1", "h2") if got.get(f) is not None}))
    main = "bh" if binary else "h1"
    if not got[main]:
        return "bad"
    newtf1 = ""
    if s["stop"] and got["bh"][0]["star_1_mass"] >= 100.0 and got["h1"] is not None and got["h2"] is not None:
        a = keep_till_central_abundance_He_C(arr(got["bh"], keep["bh"]), arr(got["h1"], keep["h1"]),
                                             arr(got["h2"], keep["h2"]))
        newtf1 = a[3]
        for f in ("bh", "h1", "h2"):
            got[f] = got[f][:len(a[0])]
        if not got["bh"]:
            return "bad"
    e["norlo"] = False
    if s["start_at_RLO"]:
        first = [i for i, x in enumerate(got["bh"]) if x["rl_relative_overflow_1"] >= -0.05
                 or x["rl_relative_overflow_2"] >= -0.05 or x["lg_mtransfer_rate"] >= -10]
        if not first:
            return "norlo"
        t0 = got["bh"][first[0]]["age"]
        for f, a in (("bh", "age"), ("h1", "star_age"), ("h2", "star_age")):
            if got.get(f) is not None:
                got[f] = [dict(x, **{a: x[a] - t0}) for x in got[f][first[0]:]]
    if not binary and got["p1"] is None and not s["accept"]:
        return "bad"
    for f in got:
        e["tables"][f] = got[f] if got[f] is not None else None
    # initial and final values
    ini, fin = e["initial"], e["final"]
    for f, pre in (("bh", ""), ("h1", "S1_"), ("h2", "S2_")):
        rows = got.get(f)
        if f not in got:
            continue
        for c in keep[f]:
            ini[pre + c] = rows[0][c] if rows else math.nan
            fin[pre + c] = rows[-1][c] if rows else math.nan
    hm1, hm2, hp = r["m1"] + 0.001, r["m2"] + 0.002, r["p"] * 1.001
    if not s["start_at_RLO"]:
        if binary:
            ini.update(star_1_mass=hm1, star_2_mass=hm2, period_days=hp,
                       binary_separation=float(orbital_separation_from_period(hp, hm1, hm2)))
        else:
            ini["S1_star_mass"] = hm1
    if got.get("h1") is not None or got.get("h2") is not None:
        ini.update(Z=r["z"], Y=r["y"], X=1.0 - r["z"] - r["y"])
    else:
        ini.update(X=math.nan, Y=math.nan, Z=math.nan if s["v1"] else float(f"{r['z']:.4e}"))
    fin.update(he)
    ko = kind(r, "out", s, cols)
    tf1 = want_tf1(r) if ko is None else "reach cluster timelimit"
    if newtf1:
        tf1 = newtf1
    h = {f: None if got.get(f) is None else arr(got[f], keep[f]) for f in ("bh", "h1", "h2")}
    if ko in ("gzcut", "gzhead"):
        e["flags"] = None
    elif binary:
        tf2 = tf.get_mass_transfer_flag(h["bh"], h["h1"], h["h2"], start_at_RLO=s["start_at_RLO"], mesa_flag=tf1)
        e["flags"] = {"termination_flag_1": tf1, "termination_flag_2": tf2,
                      "termination_flag_3": tf.check_state_from_history(h["h1"], h["bh"]["star_1_mass"]),
                      "termination_flag_4": tf.check_state_from_history(h["h2"], h["bh"]["star_2_mass"]),
                      "interpolation_class": tf.infer_interpolation_class(tf1, tf2)}
    else:
        e["flags"] = {"termination_flag_1": tf1,
                      "termination_flag_3": tf.check_state_from_history(h["h1"], np.zeros(1))}
    return e


def reference(s, cols, keep):
    """Per set of initial parameters the run(s), one of which has to be in the grid."""
    cand = {}
    for r in all_runs(s):
        if kind(r, "out", s, cols) == "missing":
            continue                            # not a run
        cand.setdefault(params(r, s), []).append((place(r, s)[1], r))
    ref = {}
    for p, lst in cand.items():
        last = max(i for i, _ in lst)
        ref[p] = [(os.path.join(place(r, s)[0], dirname(r, s)), r, expect(r, s, cols, keep))
                  for i, r in lst if i == last]
    return ref


def rlo_fix(s, ref, chosen, cols):
    """Runs that have to be forced to initial mass transfer: {params: nearest known run}."""
    known = []
    for p, (path, r, e) in chosen.items():
        if isinstance(e, dict) and e["flags"] and \
                e["flags"]["termination_flag_1"] == "Terminate because of overflowing initial model":
            known.append((e["initial"]["star_1_mass"], e["initial"]["star_2_mass"], e["initial"]["period_days"], e))
    merged = []
    for k in known:
        for j, o in enumerate(merged):
            if abs(o[0] - k[0]) < 1e-5 and abs(o[1] - k[1]) < 1e-5:
                if o[2] < k[2]:
                    merged[j] = k
                break
        else:
            merged.append(k)
    out = {}
    if len(merged) < 20:
        return out
    for p, (path, r, e) in chosen.items():
        if isinstance(e, dict) and e["flags"] and \
                e["flags"]["termination_flag_1"] == "Terminate because of overflowing initial model":
            continue
        gp = {"star_1_mass": r["m1"], "star_2_mass": r["m2"], "period_days": r["p"]} \
            if kind(r, "inlist", s, cols) is None else None
        if gp is None:
            if not isinstance(e, dict):
                continue
            gp = {k: e["initial"][k] for k in ("star_1_mass", "star_2_mass", "period_days")}
        near = min(merged, key=lambda k: (k[0] - gp["star_1_mass"])**2 + (k[1] - gp["star_2_mass"])**2)
        if gp["period_days"] < near[2]:
            out[p] = near
    return out


# -- the check -----------------------------------------------------------------------
def read_grid(path):
    import h5py
    out = []
    with h5py.File(path, "r") as f:
        if "relative_file_paths" not in f:
            return None
        dirs = [x.decode() if isinstance(x, bytes) else x for x in f["relative_file_paths"][()]]
        ini, fin = f["/grid/initial_values"][()], f["/grid/final_values"][()]
        groups = [k for k in f["grid"] if k.startswith("run")]
        if len(ini) != len(dirs) or len(fin) != len(dirs):
            raise Violation("misaligned", f"{len(dirs)} source folders, {len(ini)} initial and {len(fin)} final values")
        for i, d in enumerate(dirs):
            g = f.get(f"grid/run{i}")
            tabs = None if g is None else {k: g[k][()] for k in g}
            out.append((d, tabs, {c: ini[i][c] for c in ini.dtype.names}, {c: fin[i][c] for c in fin.dtype.names}))
        extra = sorted(set(groups) - {f"run{i}" for i in range(len(dirs))})
        if extra:
            raise Violation("misaligned", f"the grid has {len(dirs)} source folders but also the runs {extra}")
    return out


NAMES = {"binary_history": "bh", "history1": "h1", "history2": "h2", "final_profile1": "p1", "final_profile2": "p2"}


def diff(entry, e, s, keep, forced=None):
    """First difference between a grid entry and the expectation, or None."""
    d, tabs, ini, fin = entry
    if not s["slim"]:
        if tabs is None:
            return "it has no group of data"
        have = {NAMES[k]: v for k, v in tabs.items() if k in NAMES}
        picked = None
        for f in keep:
            rows = e["tables"].get(f) if isinstance(e, dict) else None
            t = have.get(f)
            if not rows:
                if t is not None and len(t):
                    return f"it has a table {f} with {len(t)} rows although there are no such data"
                continue
            if t is None:
                return f"its table {f} is missing"
            if set(t.dtype.names) != set(keep[f]):
                return f"its table {f} has the columns {sorted(set(t.dtype.names) ^ set(keep[f]))} too many or too few"
            ds = s["pds"] if f[0] == "p" else s["hds"]
            want = rows
            if ds is not None:
                if len(t) > len(rows) or len(t) < 1:
                    return f"its down-sampled table {f} has {len(t)} of {len(rows)} rows"
                idx = []
                j = 0
                for x in t:
                    while j < len(rows) and not all(mesa.same(x[c], rows[j][c]) for c in keep[f]):
                        j += 1
                    if j == len(rows):
                        return f"its down-sampled table {f} has rows which are not in the run"
                    idx.append(j)
                    j += 1
                if idx[0] != 0 or idx[-1] != len(rows) - 1:
                    return f"its down-sampled table {f} lost its first or last row"
                if f[0] != "p":
                    if picked is None:
                        picked = idx
                    elif picked != idx:
                        return f"its down-sampled tables keep different rows ({picked}, {idx})"
                continue
            if len(t) != len(want):
                return f"its table {f} has {len(t)} rows instead of {len(want)}"
            for i, row in enumerate(want):
                for c in keep[f]:
                    if not mesa.same(t[i][c], row[c]):
                        return f"its {f}.{c}[{i}] is {t[i][c]} instead of {row[c]}"
    elif tabs:
        return "it has data although only initial and final values were requested"
    for what, vals, exp in (("initial", ini, e["initial"] if isinstance(e, dict) else {}),
                            ("final", fin, e["final"] if isinstance(e, dict) else {})):
        exp = dict(exp)
        if what == "initial" and forced is not None:
            exp.update(forced)
        for c, v in exp.items():
            if c in vals:
                if not mesa.same(vals[c], v):
                    return f"its {what} value of {c} is {vals[c]} instead of {v}"
            elif v == v:
                return f"it has no {what} value of {c}"
        for c, v in vals.items():
            if c not in exp and isinstance(v, float) and v == v and isinstance(e, dict):
                return f"its {what} value of {c} is {v} instead of none"
    return None


def check(s, top, entries, cols, keep, who, hitpath, result_exc):
    ref = reference(s, cols, keep)
    rel = {}
    for ent in entries or []:
        rp = os.path.relpath(ent[0], top)
        if rp in rel:
            raise Violation("twice", f"{who}: {rp} is in the grid twice")
        rel[rp] = ent
    known = {path: p for p, lst in ref.items() for path, _, _ in lst}
    for rp in rel:
        if rp not in known:
            raise Violation("foreign", f"{who}: the grid contains {rp}, which is not one of the runs to be included")
    # which of equal candidates was taken
    chosen = {}
    for p, lst in ref.items():
        take = [x for x in lst if x[0] in rel]
        if len(take) > 1:
            raise Violation("twice", f"{who}: {[x[0] for x in take]} have the same initial parameters")
        if take:
            chosen[p] = take[0]
        else:
            # absent: fine if some candidate is unusable, then take that one
            chosen[p] = min(lst, key=lambda x: 0 if x[2] == "bad" else 1 if x[2] == "norlo" else 2)
    forced = rlo_fix(s, ref, chosen, cols) if s["rlofix"] and s["binary"] else {}
    for p, (path, r, e) in chosen.items():
        if hitpath and any(x[0] in hitpath for x in ref[p]):
            continue
        inc = isinstance(e, dict)
        norlo = e == "norlo" and s["rlofix"]
        if path not in rel:
            if inc or norlo or p in forced:
                raise Violation("lost", f"{who}: the run {path} is usable but not in the grid")
            continue
        if not inc and not norlo and p not in forced:
            raise Violation("unusable", f"{who}: the run {path} ({r['dmg']}) is not usable but in the grid")
        ent = rel[path]
        gp = None
        if p in forced and kind(r, "inlist", s, cols) is None:
            gp = {"star_1_mass": r["m1"], "star_2_mass": r["m2"], "period_days": r["p"]}
        msg = diff(ent, e, s, keep, gp)
        if msg:
            raise Violation("content", f"{who}: of run {path}, {msg}")
        flags = e["flags"] if inc else {"termination_flag_1": "ignored_no_RLO"} if norlo else {}
        if p in forced:
            near = forced[p][3]["flags"]
            flags = {"termination_flag_1": "forced_initial_RLO", "termination_flag_2": "forced_initial_RLO",
                     "interpolation_class": "initial_MT", "termination_flag_3": near["termination_flag_3"],
                     "termination_flag_4": near["termination_flag_4"]}
        for c, v in (flags or {}).items():
            if not mesa.same(ent[3][c], v):
                raise Violation("content", f"{who}: {c} of run {path} is {ent[3][c]} instead of {v}")


def creator(s, top, out, overwrite=True):
    def body():
        from posydon.grids.psygrid import PSyGrid
        kw = {"binary": s["binary"] or bool(s.get("eep") and s["asbin"]), "start_at_RLO": s["start_at_RLO"], "stop_before_carbon_depletion": s["stop"],
              "initial_RLO_fix": s["rlofix"], "He_core_fix": s["hefix"], "accept_missing_profile": s["accept"],
              "history_DS_error": s["hds"], "profile_DS_error": s["pds"], "compression": s["compression"]}
        for name, f in (("binary_history", "bh"), ("star1_history", "h1"), ("star2_history", "h2"),
                        ("star1_profile", "p1"), ("star2_profile", "p2")):
            opt = s["bhc"] if f == "bh" else s["hc"] if f[0] == "h" else s["pc"]
            kw[name + "_saved_columns"] = (list(mesa.EXTRA[f]) if opt == "list" else ("radius", "mass")
                                           if opt == "tuple" else opt)
        if s.get("eep"):
            kw["eep"] = os.path.join(os.path.dirname(top), "eeps")
        g = PSyGrid()
        g.create(inputs(s, top), out, overwrite=overwrite, slim=s["slim"], warn=s["warn"], **kw)
        n = len(g)
        g.close()
        return n
    return body


def run(scn, sim):
    cols = mesa.columns()
    keep = saved(scn, cols)
    if not scn["binary"]:
        keep = {f: keep[f] for f in ("h1", "p1")}
        cols = {f: cols[f] for f in ("h1", "p1")}
    sub = "v1" if scn["v1"] else "w"
    hits = 0
    res = []
    for i, flip in enumerate((None, scn["twin_seed"])):
        top = os.path.join(sim.root, f"t{i}", sub)
        os.makedirs(os.path.dirname(top))
        build(scn, top, cols, flip)
        if scn.get("eep"):
            build_eeps(scn, os.path.join(os.path.dirname(top), "eeps"), cols, flip)
        out = os.path.join(sim.root, f"grid{i}.h5")
        sim.faults = [dict(scn["fault"])] if scn["fault"] and i == 0 else []
        node = sim.solo(f"create{i}", creator(scn, top, out), listseed=scn["list_seed"] + i)
        hit = [f for f in sim.faults if f.get("used")]
        hits += len(hit)
        who = f"grid {i + 1}"
        ref = reference(scn, cols, keep)
        hitpath = None
        if hit:
            if node.exc is not None:
                sim.faults = []
                node = sim.solo(f"again{i}", creator(scn, top, out), listseed=scn["list_seed"] + i)
                who += " (repeated after a read error)"
            else:
                hitpath = set()
                for line in sim.log:
                    if "eio" in str(line) or "eacces" in str(line) or "enoent" in str(line):
                        hitpath.update(path for lst in ref.values() for path, _, _ in lst if path in str(line))
                if not hitpath:
                    hitpath = {path for lst in ref.values() for path, _, _ in lst}
        usable = [p for p, lst in ref.items() if all(isinstance(x[2], dict) for x in lst)]
        if eep_on(scn) and all(kind(r, "h1", scn, cols) in ("missing", "empty", "garbage") for r in scn["runs"]):
            usable = []                         # the columns are taken from the histories
        if node.exc is not None:
            if usable and not hitpath:
                raise Violation("failed", f"{who}: the creation fails with {node.exc[0]}: {node.exc[1]}")
            res.append(None)
            continue
        ent = read_grid(out)
        if ent is None:
            raise Violation("content", f"{who}: the grid file is incomplete")
        if node.result != len(ent) and not (scn["slim"] and node.result == 0):
            raise Violation("content", f"{who}: the loaded grid has {node.result} instead of {len(ent)} runs")
        check(scn, top, ent, cols, keep, who, hitpath, node.exc)
        res.append({os.path.relpath(x[0], top): x for x in ent} if not hitpath else None)
    if res[0] is not None and res[1] is not None and not any(
            k in ("gzcut", "gzhead") and f == "out" for r in scn["runs"] for f, k in r["dmg"].items()):
        compare(res[0], res[1])
    return {"hits": hits, "damaged": sum(bool(r["dmg"]) for r in scn["runs"])}


def compare(a, b):
    if set(a) != set(b):
        raise Violation("order", f"the same tree gives different runs: {sorted(set(a) ^ set(b))[:3]} depend on the "
                        f"listing order or compression")
    for p in a:
        for what, x, y in (("initial", a[p][2], b[p][2]), ("final", a[p][3], b[p][3])):
            if list(x) != list(y):
                raise Violation("order", f"the {what} values have other columns with another listing order or "
                                f"compression: {sorted(set(x) ^ set(y))[:4]}")
            for c in x:
                if not mesa.same(x[c], y[c]):
                    raise Violation("order", f"{what} {c} of {p} depends on listing order or compression: "
                                    f"{x[c]}, {y[c]}")
        ta, tb = a[p][1] or {}, b[p][1] or {}
        if set(ta) != set(tb) or any(ta[k].tobytes() != tb[k].tobytes() for k in ta):
            raise Violation("order", f"tables of {p} depend on listing order or compression")


def nontrivial(scn, res):
    i = res.get("info", {})
    return i.get("hits", 0) > 0 or i.get("damaged", 0) > 0 or any(r["gz"] or r["both"] for r in scn["runs"])

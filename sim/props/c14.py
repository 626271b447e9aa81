"""C14: grid files survive any sequence of open, edit, join and failure."""
import math
import os
import random

from .. import kernel, mesa
from ..kernel import Violation
from . import c13

PROP = "C14"
QUICK = {"runs": 3000, "wall": 55}
THOROUGH = {"runs": 300000, "wall": 3000}
KEEP = {"files"}
SHRINK_INT = {"sched_seed": 0, "list_seed": 0}
SHRINK_TO = {"fault": None, "start_at_RLO": False, "rlofix": False, "heavy": 0, "hds": None, "hc": "minimum", "redo": [],
             "slim": False, "fam": [], "member": None}
RULE = ("one case = a few grid files made from scripted runs and a history of processes that open, read, edit, join, "
        "re-create and close them, each process with a fault or kill in part; non-trivial if an edit, join, refusal or "
        "fault happened; distinct by event log and scenario")
COMPONENTS = {"real": ["posydon.grids.psygrid (PSyGrid, PSyRunView, join_grids)", "posydon.grids.lazy_hdf",
                       "posydon.grids.post_processing (add_post_processed_quantities)", "h5py and HDF5",
                       "file system (scratch)"],
              "stub": ["MESA (scripted output files)", "disk errors", "process death"]}
ASSUMPTIONS = ["process death at HDF5 calls, not inside a flush", "text columns hold at most 70 ASCII characters",
               "overwriting a grid on request gives up its old content"]
TABS = ["binary_history", "history1", "history2", "final_profile1", "final_profile2"]
COLS = [("extra_value", "float"), ("S1_state", "str"), ("CO_type", "str"), ("mt_history", "str"), ("flagged", "int"),
        ("my_class", "str"), ("note", "str"), ("mask", "bool"), ("star_1_mass", "float"), ("age", "float"),
        ("termination_flag_1", "str"), ("S1_state", "unicode"), ("thing", "object"), ("pair", "matrix"),
        ("interpolation_class", "str"), ("S1_state", "longstr"), ("short", "short"), ("long", "long"), ("extra_value", "list")]


def preload():
    c13.preload()
    from posydon.grids import post_processing  # noqa: F401


def small_run(rng, i):
    return {"seed": rng.randrange(1 << 30), "n": rng.choice([2, 3, 5]), "np": rng.choice([1, 2, 4]),
            "m1": round(rng.uniform(5, 60), 4), "m2": round(rng.uniform(1, 5), 4), "p": round(rng.uniform(0.5, 900), 4),
            "z": 0.0142, "y": 0.27, "redo": [], "rlo": rng.choice([None, 0, 1]), "tf1": rng.randrange(6), "dmg": {},
            "gz": [], "both": [], "place": "main", "index": i, "drop": 0}


def opts(rng=None):
    o = {"binary": True, "heavy": 0, "v1": False, "inputs": "one", "slim": False, "start_at_RLO": False, "stop": False,
         "rlofix": False, "hefix": True, "accept": False, "hds": None, "pds": None, "bhc": "minimum", "hc": "minimum",
         "pc": "minimum", "compression": "gzip9", "warn": "suppress"}
    if rng is not None:
        o["start_at_RLO"] = rng.random() < 0.3
        o["rlofix"] = rng.random() < 0.3
        o["hds"] = rng.choice([None, None, 0.1])
        o["compression"] = rng.choice(["gzip9", "lzf", None])
    return o


def gen(rng):
    common = opts(rng)
    files, pool = [], []
    for k in range(rng.choice([1, 2, 2, 3])):
        runs = []
        for i in range(rng.choice([1, 1, 2, 3])):
            r = small_run(rng, 100 * k + i)
            if pool and rng.random() < 0.5:
                o = rng.choice(pool)
                if not any((x["m1"], x["m2"], x["p"]) == (o["m1"], o["m2"], o["p"]) for x in runs):
                    for key in ("m1", "m2", "p"):
                        r[key] = o[key]
            if rng.random() < 0.2:
                r["dmg"] = {rng.choice(["h2", "p1", "p2", "h1"]): "missing"}
            runs.append(r)
        pool += runs
        o = dict(common)
        if rng.random() < 0.12:
            o[rng.choice(["start_at_RLO", "hefix"])] ^= True
        if rng.random() < 0.06:
            o["slim"] = True
        files.append({"opts": o, "runs": runs})
    if common["rlofix"] and rng.random() < 0.5:
        # enough systems that overflow at the beginning for a boundary, partly with the same masses in two files
        for k, f in enumerate(files):
            f["opts"].update(heavy=rng.choice([8, 11, 21]), heavy_from=8 * k)
            for r in f["runs"]:
                if rng.random() < 0.7:
                    r["p"] = round(rng.uniform(1.5, 3.5), 4)
                    r["tf1"] = 1
    names = [f"g{i}" for i in range(len(files))] + ["j0", "j1"]
    sessions = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randint(1, 7)):
            u = rng.random()
            slot = rng.choice("ab")
            if u < 0.24:
                ops.append(["open", slot, rng.choice(names[:len(files)] + names), rng.random() < 0.5])
            elif u < 0.30:
                ops.append(["load", slot, rng.choice(names), rng.random() < 0.5])
            elif u < 0.45:
                ops.append(["read", slot])
            elif u < 0.72:
                c = rng.choice(COLS)
                ops.append(["add", slot, c[0], c[1], rng.random() < 0.8, rng.randrange(1 << 20)])
            elif u < 0.77:
                ops.append(["close", slot])
            elif u < 0.88:
                ops.append(["join", [rng.choice(names) if rng.random() < 0.3 else n for n in names[:len(files)]
                                     if rng.random() < 0.8] or [names[0]], rng.choice(["j0", "j1", "j0", names[0]]),
                            rng.choice(["gzip9", "lzf", "", "gzip"])])
            elif u < 0.92:
                ops.append(["create", rng.choice(names[:len(files)]), rng.random() < 0.5])
            elif u < 0.94:
                ops.append(["rerun", slot, rng.choice([None, [0], [2, 0, 2], [1]]),
                            rng.choice([None, ["max_age"], ["reach cluster timelimit", "forced_initial_RLO"],
                                        ["ignored_no_RLO", "max_age"]])])
            elif u < 0.965:
                ops.append(["post", slot, rng.randrange(1 << 20)])
            else:
                ops.append(["update", slot])
        ses = {"ops": ops, "fault": None}
        if rng.random() < 0.45:
            c = rng.choice([["hp.*", 25, "kill"], ["hp.create", 20, "kill"], ["hp.remove", 2, "kill"],
                            ["hp.close", 4, "kill"], ["hp.open_w", 3, "eacces"], ["hp.create", 12, "eio"],
                            ["hp.create", 4, "eio"], ["hp.remove", 2, "eio"], ["hp.attr", 2, "eio"],
                            ["hp.open_r", 6, "eio"], ["hp.open_w", 3, "kill"], ["hp.attr", 2, "kill"]])
            ses["fault"] = {"cls": c[0], "n": rng.randint(1, c[1]), "do": c[2]}
        sessions.append(ses)
    s = {"files": files, "sessions": sessions, "sched_seed": 1, "list_seed": rng.randrange(1 << 30)}
    if rng.random() < 0.2:              # grids split into several files
        s["fam"] = [n for n in names if rng.random() < 0.6]
        s["member"] = rng.choice([None, 20000, 100000])
    return s


def directed():
    rng = random.Random(3)
    r = [small_run(rng, i) for i in range(4)]
    for i, x in enumerate(r):
        x["rlo"] = 1
    r[2].update(m1=r[0]["m1"], m2=r[0]["m2"], p=r[0]["p"])
    files = [{"opts": opts(), "runs": r[:2]}, {"opts": opts(), "runs": r[2:]}]
    base = {"files": files, "sched_seed": 1, "list_seed": 1}
    out = []
    # the boundary of overflowing initial systems comes from all files together
    hv = [{"opts": dict(opts(), rlofix=True, heavy=12, heavy_from=8 * k), "runs": [dict(r[k], m1=31.0 + 0.2 * k, m2=3.1,
                                                                                      p=p, rlo=None, tf1=1)
                                                                                 for p in (2.2,)]}
          for k, p0 in enumerate((0, 1))]
    for x in range(2):
        for j in range(20):
            hv[x]["runs"].append(dict(r[x], index=200 + j, m1=30.97 + 1.37 * (j % 4), m2=3.05 + 0.13 * (j % 4), rlo=None, tf1=1,
                                      p=round(2.05 + 0.04 * j + 0.013 * x, 4)))
    for order in (["g0", "g1"], ["g1", "g0"]):
        out.append(dict(base, files=hv, sessions=[{"ops": [["join", order, "j0", "gzip9"]], "fault": None}]))
    for lazy in (False, True):
        for c in COLS:
            ops = [["open", "a", "g0", lazy], ["read", "a"], ["add", "a", c[0], c[1], True, 5], ["read", "a"],
                   ["add", "a", c[0], c[1], True, 6], ["add", "a", c[0], c[1], False, 7], ["read", "a"],
                   ["open", "b", "g0", not lazy], ["read", "b"], ["close", "a"], ["close", "b"],
                   ["join", ["g0", "g1"], "j0", "gzip9"], ["open", "a", "j0", lazy], ["read", "a"],
                   ["add", "a", "extra_value", "float", True, 1]]
            out.append(dict(base, sessions=[{"ops": ops, "fault": None}]))
        for cls in ("hp.create", "hp.remove", "hp.close", "hp.open_w"):
            for do in ("kill", "eio"):
                if (cls, do) == ("hp.close", "eio"):
                    continue
                for n in (1, 2):
                    out.append(dict(base, sessions=[
                        {"ops": [["open", "a", "g0", lazy], ["add", "a", "S1_state", "str", True, 5],
                                 ["add", "a", "extra_value", "float", True, 5], ["read", "a"]],
                         "fault": {"cls": cls, "n": n, "do": do}}]))
    for slim in (False, True):
        f2 = [dict(f, opts=dict(f["opts"], slim=slim)) for f in files]
        for lazy in (False, True):
            out.append(dict(base, files=f2, sessions=[{"ops": [
                ["open", "a", "g0", lazy], ["post", "a", 3], ["open", "a", "g0", lazy], ["read", "a"],
                ["load", "a", "g1", lazy], ["read", "a"], ["join", ["g1", "g0"], "j0", ""], ["load", "a", "j0", lazy],
                ["read", "a"], ["create", "g0", False], ["create", "g0", True], ["open", "b", "g0", lazy], ["read", "b"],
                ["update", "b"], ["read", "b"], ["rerun", "b", [0], ["max_age", "reach cluster timelimit"]],
                ["rerun", "b", None, ["max_age"]]], "fault": None}]))
            for member in (None, 20000):
                out.append(dict(out[-1], fam=["g0", "j0"], member=member))
    for n in range(1, 26, 3):
        for do in ("kill", "eio"):
            out.append(dict(base, sessions=[
                {"ops": [["join", ["g0", "g1"], "j0", "gzip9"]], "fault": {"cls": "hp.create", "n": n, "do": do}},
                {"ops": [["open", "a", "j0", False], ["join", ["g1", "g0"], "j1", "gzip9"], ["open", "b", "j1", True],
                         ["read", "b"]], "fault": None}]))
            out.append(dict(base, sessions=[
                {"ops": [["create", "g0", True]], "fault": {"cls": "hp.create", "n": n, "do": do}},
                {"ops": [["open", "a", "g0", False], ["create", "g0", True], ["open", "b", "g0", True], ["read", "b"]],
                 "fault": None}]))
    return out


def valid(s):
    return bool(s["sessions"]) and bool(s["files"]) and all(f["runs"] for f in s["files"]) \
        and all(x["ops"] for x in s["sessions"])


def values(kind, n, seed):
    import numpy as np
    r = random.Random(seed)
    if kind == "float":
        return np.array([r.uniform(-9, 9) for _ in range(n)])
    if kind == "list":
        return [r.uniform(-9, 9) for _ in range(n)]
    if kind == "int":
        return np.array([r.randrange(1000) for _ in range(n)])
    if kind == "bool":
        return np.array([r.random() < 0.5 for _ in range(n)])
    if kind == "str":
        return np.array([f"v{r.randrange(10 ** r.randint(1, 9))}" for _ in range(n)])
    if kind == "longstr":
        return np.array([f"v{'x' * r.randint(1, 60)}{r.randrange(10 ** r.randint(1, 9))}" for _ in range(n)])
    if kind == "unicode":
        return np.array([f"stärke{r.randrange(99)}" for _ in range(n)])
    if kind == "object":
        return np.array([{"a": 1}] * n, dtype=object)
    if kind == "matrix":
        return np.array([[1.0, 2.0]] * n)
    if kind == "short":
        return np.zeros(max(0, n - 1))
    if kind == "long":
        return np.zeros(n + 1)
    raise ValueError(kind)


# -- node side -------------------------------------------------------------------------
def plain(v):
    import numpy as np
    a = np.asarray(v)
    if a.dtype.names:
        return {c: plain(a[c]) for c in a.dtype.names}
    out = a.tolist()
    return out


def dump(g):
    """Everything a user can read through a grid object."""
    out = {"len": len(g), "dirs": [x.decode() if isinstance(x, bytes) else str(x) for x in g.MESA_dirs],
           "config": {k: g.config[k] for k in g.config.keys()}}
    ini, fin = g.initial_values, g.final_values
    out["ini"] = {c: plain(ini[c]) for c in ini.dtype.names}
    out["fin"] = {c: plain(fin[c]) for c in fin.dtype.names}
    out["rows"] = []
    out["tabs"] = []
    for i, run in enumerate(g):
        out["rows"].append((plain(run["initial_values"]), plain(run.final_values)))
        out["tabs"].append({t: None if run[t] is None else plain(run[t]) for t in TABS})
    if len(g):
        # one table by attribute, and a whole-array access
        out["attr"] = {t: getattr(g[len(g) - 1], t) is None for t in TABS}
    df = g.get_pandas_initial_final()
    out["df"] = {c: df[c].tolist() for c in df.columns if c in ("initial_star_1_mass", "final_termination_flag_1",
                                                               "final_extra_value", "final_S1_state")}
    out["sn"] = {m: plain(g.SN_MODELS[m][()] if hasattr(g.SN_MODELS[m], "shape") else g.SN_MODELS[m])
                 for m in g.SN_MODELS}
    if g.SN_MODELS and len(g):
        m = sorted(g.SN_MODELS)[0]
        d = g[0].get_SN_data(m)
        out["sn0"] = (m, {k: plain(v) for k, v in d.items()})
    return out


def filename(scn, n):
    return n + ("_%d.h5" if n in scn.get("fam", []) else ".h5")


def split_at(size):
    """Let split grids have many members (normally 2 GB each)."""
    from posydon.grids import psygrid
    if hasattr(psygrid, "HDF5_MEMBER_SIZE"):
        psygrid.HDF5_MEMBER_SIZE = size


def making(scn, body):
    def do():
        if scn.get("member"):
            split_at(scn["member"])
        return body()
    return do


def rerun(g, op, folder):
    """The points a user would run again: [names, rows, the user's own list afterwards]."""
    n = len(g.MESA_dirs)
    if n == 0 or op[2] is None and op[3] is None:
        return None
    mine = None if op[2] is None else [i % n for i in op[2]]
    g.rerun(path_to_file=folder, runs_to_rerun=mine, termination_flags=None if op[3] is None else list(op[3]))
    import csv
    with open(os.path.join(folder, "grid.csv")) as f:
        rows = list(csv.reader(f))
    return [rows[0] if rows else [], rows[1:], mine]


def check_rerun(s, op, data, who):
    if data is None:
        return
    n = len(s["dirs"])
    want = [] if op[2] is None else [i % n for i in op[2]]
    mine = list(want)
    if op[3] is not None:
        want += [i for i, x in enumerate(s["fin"]["termination_flag_1"]) if x in op[3]]
    want = list(dict.fromkeys(want))
    names, rows, after = data
    if op[2] is not None and after != mine:
        raise Violation("leak", f"{who}: the list of runs given by the user, {mine}, became {after}")
    if len(rows) != len(want):
        raise Violation("rerun", f"{who}: {len(rows)} points to run again instead of {len(want)}")
    for col, key in (("m1", "star_1_mass"), ("m2", "star_2_mass"), ("initial_period_in_days", "period_days"),
                     ("initial_z", "Z"), ("Zbase", "Z")):
        if col not in names:
            raise Violation("rerun", f"{who}: the points to run again have no {col}")
        for i, row in zip(want, rows):
            if not mesa.same(float(row[names.index(col)]), s["ini"][key][i], 1e-9):
                raise Violation("rerun", f"{who}: {col} of run {i} is {row[names.index(col)]} instead of "
                                f"{s['ini'][key][i]}")


def session(scn, ses, k, top):
    def body():
        from posydon.grids.psygrid import PSyGrid, join_grids
        from posydon.grids.post_processing import add_post_processed_quantities
        node = kernel.NODE
        slots = {}

        if scn.get("member"):
            split_at(scn["member"])

        def path(n):
            return os.path.join(node.root, filename(scn, n))
        for i, op in enumerate(ses["ops"]):
            node.call({"t": "op", "k": k, "i": i, "phase": "begin"})
            before = node.injected
            exc = data = None
            try:
                g = slots.get(op[1]) if op[0] not in ("join", "create") else None
                if op[0] == "open" or op[0] == "load" and g is not None:
                    # HDF5 cannot have a dataset open through two handles of a file that is closed in between
                    for x, y in list(slots.items()):
                        if x != op[1] and y.filepath == path(op[2]):
                            y.close()
                    y = None
                if op[0] == "open":
                    slots.pop(op[1], None)
                    g = None
                    slots[op[1]] = PSyGrid(path(op[2]), lazy=op[3])
                elif op[0] == "join":
                    join_grids([path(n) for n in op[1]], path(op[2]), compression=op[3], description="joined",
                               verbose=False)
                elif op[0] == "create":
                    f = scn["files"][int(op[1][1:])]
                    s = dict(f["opts"], runs=f["runs"])
                    c13.creator(s, os.path.join(top, op[1]), path(op[1]), overwrite=op[2])()
                elif g is None:
                    exc = ("NoSlot", "")
                elif op[0] == "load":
                    g.load(path(op[2]), lazy=op[3])
                elif op[0] == "read":
                    data = dump(g)
                elif op[0] == "rerun":
                    data = rerun(g, op, os.path.join(node.root, f"rerun{k}_{i}"))
                elif op[0] == "add":
                    g.add_column(op[2], values(op[3], max(len(g), 0), op[5]), overwrite=op[4])
                elif op[0] == "close":
                    g.close()
                elif op[0] == "update":
                    g.update_final_values()
                elif op[0] == "post":
                    cols = {"S1_state": list(values("str", len(g), op[2])), "post_value": list(values("float", len(g), op[2]))}
                    from posydon.grids.SN_MODELS import SN_MODELS
                    for m in sorted(SN_MODELS)[:2]:
                        cols[f"S1_{m}_CO_type"] = list(values("str", len(g), f"{op[2]}{m}"))
                        cols[f"S1_{m}_mass"] = list(values("float", len(g), f"{op[2]}{m}"))
                    add_post_processed_quantities(g, list(g.MESA_dirs), cols)
            except Exception as e:
                exc = (type(e).__name__, str(e)[:300])
            g = None
            node.call({"t": "op", "k": k, "i": i, "phase": "end", "exc": exc, "data": data,
                       "hit": node.injected - before})
            if node.injected != before:
                break                   # handles may be in any state: the process ends
        for g in slots.values():
            try:
                g.close()
            except Exception:
                pass
    return body


# -- model --------------------------------------------------------------------------------
def load_file(path, scn_dirs=None):
    """Content of a grid file, read with h5py only; None if it is not a complete grid."""
    import h5py
    try:
        # a grid split into several files is read with the member size it was written with
        f = h5py.File(path, "r", **({"driver": "family", "memb_size": 0} if "%d" in path else {}))
    except (OSError, RuntimeError):
        return None
    with f:
        try:
            dirs = [x.decode() if isinstance(x, bytes) else x for x in f["relative_file_paths"][()]]
            ini, fin = f["grid/initial_values"][()], f["grid/final_values"][()]
            conf = f.attrs["config"]
        except Exception:
            return None
        runs = sorted(k for k in f["grid"] if k.startswith("run"))
        if runs and len(runs) != len(dirs):
            return None
        out = {"dirs": dirs, "slim": not runs, "config": conf,
               "ini": {c: clean(ini[c]) for c in ini.dtype.names},
               "fin": {c: clean(fin[c]) for c in fin.dtype.names}, "tabs": [], "sn": {}}
        if len(ini) != len(dirs) or len(fin) != len(dirs):
            return None
        if runs:
            for i in range(len(dirs)):
                g = f[f"grid/run{i}"]
                out["tabs"].append({t: plain(g[t][()]) if t in g else None for t in TABS})
        if "SN_MODELS" in f["grid"]:
            for m in f["grid/SN_MODELS"]:
                d = f["grid/SN_MODELS"][m][()]
                out["sn"][m] = {c: clean(d[c]) for c in d.dtype.names}
    return out


def clean(a):
    out = []
    for x in plain(a):
        out.append(x.decode() if isinstance(x, bytes) else x)
    return out


def same_list(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
            if not same_list(list(x), list(y)):
                return False
            continue
        if not mesa.same(x, y):
            return False
    return True


def same_cols(a, b):
    """First column that differs."""
    for c in sorted(set(a) | set(b)):
        if c not in a or c not in b:
            return f"{c} ({'missing' if c not in a else 'not expected'})"
        if not same_list(a[c], b[c]):
            return f"{c} ({str(a[c])[:80]} instead of {str(b[c])[:80]})"
    return None


def same_tabs(a, b):
    for t in TABS:
        x, y = a.get(t), b.get(t)
        if (x is None) != (y is None):
            return f"{t} ({'missing' if x is None else 'not expected'})"
        if x is not None:
            m = same_cols(x, y)
            if m:
                return f"{t}.{m}"
    return None


def same_grid(a, b):
    """First difference between two contents; a is what is there, b what is expected."""
    if a["dirs"] != b["dirs"]:
        return f"the source folders are {a['dirs']} instead of {b['dirs']}"
    if a["slim"] != b["slim"] and a["dirs"]:
        return "it has " + ("lost" if a["slim"] else "got") + " the tables of its runs"
    for what in ("ini", "fin"):
        m = same_cols(a[what], b[what])
        if m:
            return f"{'initial' if what == 'ini' else 'final'} values: {m}"
    for i, (x, y) in enumerate(zip(a["tabs"], b["tabs"])):
        m = same_tabs(x, y)
        if m:
            return f"run {i}: {m}"
    if a["config"] != b["config"]:
        return "its configuration"
    for m in sorted(set(a["sn"]) | set(b["sn"])):
        if m not in a["sn"] or m not in b["sn"]:
            return f"supernova data {m}"
        d = same_cols(a["sn"][m], b["sn"][m])
        if d:
            return f"supernova data {m}: {d}"
    return None


class Model:
    def __init__(self, scn, sim, top):
        self.scn, self.sim, self.top = scn, sim, top
        self.files = {}        # name -> content (None: no valid grid may be there or no file)
        self.slots = {}
        self.edits = 0

    def path(self, n):
        return os.path.join(self.sim.root, filename(self.scn, n))

    def begin(self, k, i):
        self.now = (k, i)

    def same_config(self, names):
        import ast
        first = None
        for n in names:
            c = ast.literal_eval(ast.literal_eval(self.files[n]["config"]))
            key = {p: c[p] for p in ("binary", "eep", "start_at_RLO", "stop_before_carbon_depletion", "initial_RLO_fix",
                                     "He_core_fix", "accept_missing_profile", "history_DS_error", "profile_DS_error")}
            if first is None:
                first = key
            elif key != first:
                return False
        return True

    def joined(self, names):
        from posydon.grids.io import initial_values_from_dirname
        pick = {}
        for n in names:
            f = self.files[n]
            for i, d in enumerate(f["dirs"]):
                p = initial_values_from_dirname(d)
                if f["fin"]["termination_flag_1"][i] == "ignored_no_RLO":
                    pick.pop(p, None)
                else:
                    pick[p] = (n, i)
        return pick

    def boundary(self, names, pick):
        """Runs that get flagged as overflowing initially from what all joined files know: dir -> flags."""
        import ast
        cfg = ast.literal_eval(ast.literal_eval(self.files[names[0]]["config"]))
        known = []
        for n in names:
            f = self.files[n]
            for i in range(len(f["dirs"])):
                if f["fin"]["termination_flag_1"][i] != "Terminate because of overflowing initial model":
                    continue
                k = [f["ini"][c][i] for c in ("star_1_mass", "star_2_mass", "period_days")] \
                    + [f["fin"][c][i] for c in ("termination_flag_3", "termination_flag_4")]
                for j, o in enumerate(known):
                    if abs(o[0] - k[0]) < 1e-5 and abs(o[1] - k[1]) < 1e-5:
                        if o[2] < k[2]:
                            known[j] = k
                        break
                else:
                    known.append(k)
        out = {}
        if not cfg["initial_RLO_fix"] or len(known) < 20:
            return out
        for n, i in pick.values():
            f = self.files[n]
            if f["fin"]["termination_flag_1"][i] in ("Terminate because of overflowing initial model",
                                                     "forced_initial_RLO"):
                continue
            m1, m2, p = (f["ini"][c][i] for c in ("star_1_mass", "star_2_mass", "period_days"))
            near = min(known, key=lambda k: (k[0] - m1)**2 + (k[1] - m2)**2)
            if p < near[2]:
                out[f["dirs"][i]] = {"termination_flag_1": "forced_initial_RLO",
                                     "termination_flag_2": "forced_initial_RLO", "interpolation_class": "initial_MT",
                                     "termination_flag_3": near[3], "termination_flag_4": near[4]}
        return out

    def check_join(self, names, out, who):
        pick = self.joined(names)
        got = load_file(self.path(out))
        if got is None:
            raise Violation("join", f"{who}: the joined file is not a complete grid")
        want = {self.files[n]["dirs"][i]: (n, i) for n, i in pick.values()}
        if sorted(got["dirs"]) != sorted(want):
            raise Violation("join", f"{who}: the joined grid has the runs {sorted(map(os.path.basename, got['dirs']))} "
                            f"instead of {sorted(map(os.path.basename, want))}")
        forced = self.boundary(names, pick)
        for j, d in enumerate(got["dirs"]):
            n, i = want[d]
            src = self.files[n]
            for what in ("ini", "fin"):
                exp = {c: [v[i]] for c, v in src[what].items()}
                if what == "fin" and d in forced:
                    exp.update({c: [v] for c, v in forced[d].items()})
                m = same_cols({c: [v[j]] for c, v in got[what].items()}, exp)
                if m:
                    raise Violation("join", f"{who}: of run {os.path.basename(d)}, {what} value {m}")
            if not src["slim"]:
                m = same_tabs(got["tabs"][j] if got["tabs"] else {}, src["tabs"][i])
                if m:
                    raise Violation("join", f"{who}: of run {os.path.basename(d)}, {m}")
            elif got["tabs"] and any(v is not None for v in got["tabs"][j].values()):
                raise Violation("join", f"{who}: run {os.path.basename(d)} got tables of another run")
        return got

    def check_file(self, n, who, allowed=None):
        """The file holds what the model says, or one of the allowed contents (a killed operation)."""
        got = load_file(self.path(n))
        opts_ = [self.files.get(n)] if allowed is None else allowed
        why = None
        for want in opts_:
            if want is None and got is None:
                self.files[n] = None
                return
            if want is None or got is None:
                why = why or ("it is no valid grid any more" if got is None else "it is accepted as a grid")
                continue
            m = same_grid(got, want)
            if m is None:
                self.files[n] = want
                return
            why = why or m
        raise Violation("file", f"{who}: the file {n} does not hold what was stored: {why}")

    def check_all(self, who, except_=()):
        for n in self.files:
            if n not in except_:
                self.check_file(n, who)


def expected_add(fin, op, n):
    """(new final values, must succeed, must be refused)"""
    name, kind, over = op[2], op[3], op[4]
    if kind == "long" or kind == "short" and n:
        return None, False, True
    if name in fin and not over:
        return None, False, True
    import numpy as np
    v = plain(np.asarray(values(kind, n, op[5])))
    new = dict(fin)
    new[name] = v
    textual = name.startswith("termination_flag") or name == "mt_history" or "_type" in name or "_state" in name \
        or "_class" in name
    if name in fin and fin[name] and isinstance(fin[name][0], str) != (kind in ("str", "longstr")):
        return new, False, False       # other type than the column: as the code likes
    ok = (kind in ("float", "int", "list") and not textual) or (kind in ("str", "longstr") and textual)
    return new, ok, False


def run(scn, sim):
    import ast
    top = os.path.join(sim.root, "mesa")
    cols = mesa.columns()
    model = Model(scn, sim, top)
    for i, f in enumerate(scn["files"]):
        s = dict(f["opts"], runs=f["runs"])
        c13.build(s, os.path.join(top, f"g{i}"), cols, None)
        node = sim.solo(f"make{i}", making(scn, c13.creator(s, os.path.join(top, f"g{i}"), model.path(f"g{i}"))))
        if node.exc is not None:
            if not any(isinstance(c13.expect(r, s, cols, c13.saved(s, cols)), dict) for r in f["runs"]):
                model.files[f"g{i}"] = load_file(model.path(f"g{i}"))
                continue
            raise Violation("failed", f"the creation fails with {node.exc[0]}: {node.exc[1]}")
        model.files[f"g{i}"] = load_file(model.path(f"g{i}"))
        if model.files[f"g{i}"] is None:
            raise Violation("failed", "a created grid is not complete")
    fresh = {n: c for n, c in model.files.items()}
    for n in ("j0", "j1"):
        model.files[n] = None
    info = {"edits": 0, "hits": 0, "refused": 0}

    for k, ses in enumerate(scn["sessions"]):
        state = {"op": None}
        results = []

        def on_op(node, msg):
            if msg["phase"] == "begin":
                state["op"] = msg["i"]
            else:
                state["op"] = None
                # the content of all files at this moment (the node stands still)
                results.append((msg["i"], msg["exc"], msg["data"], msg["hit"]))
                step(msg["i"], msg["exc"], msg["data"], msg["hit"])
            return {"do": "go"}

        slots = {}

        def step(i, exc, data, hit):
            op = ses["ops"][i]
            who = f"process {k + 1}, step {i + 1} ({' '.join(map(str, op[:4]))})"
            act(model, slots, op, exc, data, hit, who, info, fresh)

        sim.on_msg["op"] = on_op
        sim.faults = [dict(ses["fault"])] if ses["fault"] else []
        node = sim.solo(f"user{k}", session(scn, ses, k, top))
        hits = sum(bool(f.get("used")) for f in sim.faults)
        info["hits"] += hits
        if node.exc is not None:
            raise kernel.HarnessError(f"session failed: {node.exc}")
        who = f"after process {k + 1}"
        if node.state == "killed" and state["op"] is not None:
            op = ses["ops"][state["op"]]
            killed(model, slots, op, who + f" was killed in {' '.join(map(str, op[:4]))}", fresh)
        model.check_all(who)
    return info


def target(model, slots, op):
    """File an operation may change."""
    if op[0] in ("add", "update", "post"):
        s = slots.get(op[1])
        return s["file"] if s and not s.get("dead") else None
    if op[0] == "join":
        return op[2]
    if op[0] == "create":
        return op[1]
    return None


def after_edit(model, slots, op):
    """Possible contents of the target after an edit succeeded."""
    s = slots[op[1]]
    old = model.files[s["file"]]
    n = len(s["dirs"]) if not s["slim"] else 0
    if old is None:
        return None, False, True
    if op[0] == "add":
        fin, ok, refused = expected_add(s["fin"], op, n)
        if fin is None:
            return None, ok, refused
        return dict(old, fin=fin), ok and not s["slim"], refused or (s["slim"] and n != len(old["dirs"]) and False)
    if op[0] == "update":
        return dict(old, fin=dict(s["fin"])), True, False
    # post
    from posydon.grids.SN_MODELS import SN_MODELS
    if n != len(old["dirs"]):
        return None, False, True        # a value per run is missing
    fin = {c: v for c, v in s["fin"].items() if c not in ("S1_state", "post_value")}
    fin["S1_state"] = plain(values("str", n, op[2]))
    fin["post_value"] = plain(values("float", n, op[2]))
    sn = {}
    for m in sorted(SN_MODELS)[:2]:
        sn[m] = {"S1_CO_type": plain(values("str", n, f"{op[2]}{m}")), "S1_mass": plain(values("float", n, f"{op[2]}{m}"))}
    return dict(old, fin=fin, sn=sn), not s["slim"], False


def killed(model, slots, op, who, fresh):
    t = target(model, slots, op)
    if t is None:
        return
    if op[0] in ("add", "update"):
        new, _, _ = after_edit(model, slots, op)
        model.check_file(t, who, [model.files[t]] + ([new] if new is not None else []))
    elif op[0] == "post":
        # several tables are replaced: each is the old or the new one
        got = load_file(model.path(t))
        old = model.files[t]
        if got is not None and old is not None and same_grid(dict(got, fin=old["fin"], sn=old["sn"]), old) is None:
            model.files[t] = got
        elif got is None:
            model.files[t] = None
        else:
            raise Violation("file", f"{who}: other data of {t} changed")
    elif op[0] == "join":
        if t in op[1]:
            model.check_file(t, who)
            return
        got = load_file(model.path(t))
        if got is not None and model.files.get(t) is not None and same_grid(got, model.files[t]) is None:
            return
        if got is not None:
            if any(model.files.get(n) is None for n in op[1]) or not model.same_config(op[1]):
                raise Violation("half", f"{who}: the unfinished file {t} is accepted as a grid")
            got = model.check_join(op[1], t, who)
        model.files[t] = got
    elif op[0] == "create":
        got = load_file(model.path(t))
        if got is not None and model.files.get(t) is not None and same_grid(got, model.files[t]) is None:
            return
        if got is not None and (fresh.get(t) is None or same_grid(got, fresh[t]) is not None):
            raise Violation("half", f"{who}: the unfinished file {t} is accepted as a grid")
        model.files[t] = got


def act(model, slots, op, exc, data, hit, who, info, fresh):
    kind = op[0]
    if exc is not None and exc[0] == "NoSlot":
        return
    t = target(model, slots, op)
    if kind in ("open", "load"):
        f = model.files.get(op[2])
        for x, y in slots.items():
            if x != op[1] and y["file"] == op[2]:
                y["open"] = False
        if kind == "open":
            slots.pop(op[1], None)
        if exc is None:
            if f is None:
                raise Violation("accepted", f"{who}: {op[2]} is not a complete grid but it is opened as one")
            slots[op[1]] = {"file": op[2], "lazy": op[3], "open": True, "failed": False, "dirs": f["dirs"],
                            "slim": f["slim"], "ini": f["ini"], "fin": f["fin"], "tabs": f["tabs"], "sn": f["sn"],
                            "config": f["config"]}
        else:
            if f is not None and not hit:
                raise Violation("open", f"{who}: {op[2]} cannot be opened: {exc[0]}: {exc[1]}")
            slots.pop(op[1], None)
            if kind == "load":
                slots[op[1]] = {"file": op[2], "dead": True}
        return
    if kind in ("join", "create"):
        model_files_before = dict(model.files)
        if kind == "join":
            info["edits"] += 1
            names = op[1]
            inuse = any(s.get("file") == op[2] and s.get("open") for s in slots.values())
            possible = all(model.files.get(n) is not None for n in names)
            compatible = possible and model.same_config(names) and \
                len({tuple(model.files[n]["fin"]) for n in names}) == 1 and \
                len({tuple(model.files[n]["ini"]) for n in names}) == 1 and \
                len({typesig(model.files[n]["fin"]) for n in names}) == 1
            if exc is None:
                if not possible or not model.same_config(names):
                    raise Violation("join", f"{who}: grids that cannot be joined were joined")
                if op[2] in names:
                    raise Violation("join", f"{who}: a grid was replaced by a join it takes part in")
                model.files[op[2]] = model.check_join(names, op[2], who)
            else:
                if compatible and not hit and not inuse and op[2] not in names:
                    raise Violation("join", f"{who}: fails with {exc[0]}: {exc[1]}")
                info["refused"] += 1
                if op[2] in names or inuse or not possible or not model.same_config(names):
                    model.check_file(op[2], who)
                else:
                    got = load_file(model.path(op[2]))
                    old = model.files.get(op[2])
                    if got is not None and (old is None or same_grid(got, old) is not None):
                        raise Violation("half", f"{who}: failed ({exc[0]}) but left {op[2]}, which is accepted as a grid")
                    model.files[op[2]] = got
        else:
            old = model.files.get(op[1])
            inuse = any(s.get("file") == op[1] and s.get("open") for s in slots.values())
            exists = os.path.exists(model.path(op[1]))
            if exc is None:
                got = load_file(model.path(op[1]))
                if got is None or same_grid(got, fresh[op[1]]) is not None:
                    raise Violation("create", f"{who}: the grid differs from the first one made of the same runs: "
                                    f"{'incomplete' if got is None else same_grid(got, fresh[op[1]])}")
                if not op[2] and old is not None:
                    raise Violation("create", f"{who}: an existing grid was replaced without being asked to")
                model.files[op[1]] = got
            else:
                info["refused"] += 1
                if not op[2]:
                    model.check_file(op[1], who)
                else:
                    got = load_file(model.path(op[1]))
                    if got is not None and (old is None or same_grid(got, old) is not None):
                        raise Violation("half", f"{who}: failed ({exc[0]}) but left a file, which is accepted as a grid")
                    if got is None and old is not None and not hit and fresh.get(op[1]) is not None and not inuse:
                        raise Violation("create", f"{who}: fails with {exc[0]}: {exc[1]}")
                    model.files[op[1]] = got
        model.check_all(who, except_=(t,))
        return
    s = slots.get(op[1])
    if s is None or s.get("dead"):
        if kind == "read" and exc is None and s is not None:
            f = model.files.get(s["file"])
            # a grid that could not be loaded: nothing of it may pretend to be there
        slots.pop(op[1], None) if s is None else None
        return
    if kind in ("read", "rerun"):
        if exc is not None:
            if s["open"] and not s["failed"] and not hit:
                raise Violation("read", f"{who}: an open grid ({'lazy' if s['lazy'] else 'eager'}) cannot be read: "
                                f"{exc[0]}: {exc[1]}")
            return
        if kind == "rerun":
            check_rerun(s, op, data, who)
        else:
            check_read(s, data, who)
        return
    if kind == "close":
        s["open"] = False
        return
    # edits
    info["edits"] += 1
    was_open = s["open"]
    new, must, refuse = after_edit(model, slots, op)
    others = any(o is not s and o.get("file") == s["file"] and o.get("open") for o in slots.values())
    f = s["file"]
    old = model.files[f]
    if exc is None:
        if refuse:
            raise Violation("edit", f"{who}: is to be refused but succeeds")
        # the slot may have been opened before another one edited the same file
        model.check_file(f, who, [new])
        s["fin"] = new["fin"]
        s["open"] = True
        if kind == "post":
            s["open"] = False
            s["sn"] = new["sn"]
    else:
        info["refused"] += 1
        if must and not hit and not others and was_open and not s["failed"] and s["fin"] == (old or {}).get("fin"):
            raise Violation("edit", f"{who}: fails with {exc[0]}: {exc[1]}")
        if kind == "post":
            got = load_file(model.path(f))
            if got is None or old is None or same_grid(dict(got, fin=old["fin"], sn=old["sn"]), old) is not None:
                if old is not None:
                    raise Violation("file", f"{who}: failed ({exc[0]}) and destroyed stored data of {f}")
            model.files[f] = got
            s["failed"] = True
        else:
            # an error of the storage may come after the new values got stored
            model.check_file(f, who + f", which failed with {exc[0]}", [old] + ([new] if hit and new is not None else []))
            if not refuse or hit:
                s["failed"] = True
    model.check_all(who)


def typesig(fin):
    return tuple((c, type(v[0]).__name__ if v else "") for c, v in sorted(fin.items()))


def check_read(s, data, who):
    import ast
    if data["len"] != (0 if s["slim"] else len(s["dirs"])):
        raise Violation("read", f"{who}: {data['len']} runs instead of {len(s['dirs'])}")
    if data["dirs"] != s["dirs"]:
        raise Violation("read", f"{who}: source folders {data['dirs']} instead of {s['dirs']}")
    for what, name in (("ini", "initial"), ("fin", "final")):
        m = same_cols(data[what], s[what])
        if m:
            raise Violation("read", f"{who}: {name} values: {m}")
    for i, (a, b) in enumerate(data["rows"]):
        for x, y, name in ((a, s["ini"], "initial"), (b, s["fin"], "final")):
            m = same_cols({c: [v] for c, v in x.items()}, {c: [v[i]] for c, v in y.items()})
            if m:
                raise Violation("read", f"{who}: {name} values of run {i}: {m}")
    for i, tabs in enumerate(data["tabs"]):
        m = same_tabs(tabs, s["tabs"][i])
        if m:
            raise Violation("read", f"{who}: run {i}: {m}")
    for c, v in data["df"].items():
        src = s["ini"][c[8:]] if c.startswith("initial_") else s["fin"][c[6:]]
        if not same_list(v, src):
            raise Violation("read", f"{who}: data frame column {c}")
    conf = ast.literal_eval(ast.literal_eval(s["config"]))
    for key in ("start_at_RLO", "initial_RLO_fix", "He_core_fix", "compression", "description"):
        if data["config"].get(key) != conf.get(key):
            raise Violation("read", f"{who}: configuration {key} is {data['config'].get(key)} instead of {conf.get(key)}")
    if set(data["sn"]) != set(s["sn"]):
        raise Violation("read", f"{who}: supernova models {sorted(data['sn'])} instead of {sorted(s['sn'])}")
    for m in s["sn"]:
        d = same_cols({c: clean(v) for c, v in data["sn"][m].items()}, s["sn"][m])
        if d:
            raise Violation("read", f"{who}: supernova data {m}: {d}")
    if "sn0" in data:
        m, d = data["sn0"]
        x = same_cols({c: clean([v]) for c, v in d.items()}, {c: [v[0]] for c, v in s["sn"][m].items()})
        if x:
            raise Violation("read", f"{who}: supernova data of run 0, {m}: {x}")


def nontrivial(scn, res):
    i = res.get("info", {})
    return i.get("edits", 0) + i.get("hits", 0) + i.get("refused", 0) > 0

"""C10: exporting selections keeps tables consistent and the source intact."""
import os

import numpy as np
import pandas as pd

from .. import kernel, popfiles
from ..kernel import Violation
from .c01 import must_succeed

PROP = "C10"
QUICK = {"runs": 2500, "wall": 75}
THOROUGH = {"runs": 60000, "wall": 3000}
KEEP = set()
SHRINK_INT = {"sched_seed": 0, "list_seed": 0}
SHRINK_TO = {"fault": None, "raw": {}}
RULE = ("one case = one sequence of exports from up to three sources into up to two targets (absent at first, or a "
        "population file as a run left it), in sessions that may be "
        "killed or meet I/O errors; non-trivial if at least one export completed; distinct by event log and scenario")
COMPONENTS = {"real": ["Population.export_selection, calculate_formation_channels, History, Oneline",
                       "BinaryPopulation (makes the sources)", "pandas/PyTables/HDF5", "file system (scratch)"],
              "stub": ["evolution steps of the binaries (scripted)", "disk errors", "process death"]}
ASSUMPTIONS = ["process death, not power loss", "the masses of a source are added once per export into a file "
               "(documented behaviour of appending)"]
SOURCES = ["sorted", "shuffled", "sparse", "ranks", "other", "two", "nomet", "one"]
TARGETS = ["x.h5", "y.h5"]
RAWS = ["sorted", "shuffled", "sparse", "ranks", "other", "two", "one"]
EXTRA = ["formation_channels", "history_lengths"]
ALL = ["history", "oneline", "mass_per_metallicity", "ini_parameters"] + EXTRA


SNAP = {}


def preload():
    popfiles.preload(cached=True)
    import tempfile
    with tempfile.TemporaryDirectory(dir=os.environ.get("SIM_SCRATCH", "/tmp")) as d:
        for name, b in popfiles.FILES.items():
            p = os.path.join(d, name + ".h5")
            with open(p, "wb") as f:
                f.write(b)
            SNAP[name] = snapshot(p)


def gen_op(rng, srcs):
    u = rng.random()
    if u < 0.08:
        return {"op": "channels", "s": rng.choice(srcs)}
    if u < 0.14:
        return {"op": "reopen", "s": rng.choice(srcs)}
    return gen_export(rng, srcs)


def gen_export(rng, srcs):
    u = rng.random()
    op = {"op": "export", "s": rng.choice(srcs), "t": rng.choice(TARGETS), "sel": [rng.random() for _ in range(
        rng.randint(1, 8))], "order": rng.choice(["file", "sorted", "random", "reverse"]),
        "how": rng.choice(["new", "overwrite", "append", "append", "append"]), "hc": rng.choice([1, 2, 3, 1000000]),
        "as": rng.choice(["list", "list", "array"])}
    if u > 0.78:
        op["bad"] = rng.choice(["missing", "both", "self_append", "self_overwrite", "suffix", "multimet"])
    elif u > 0.66:
        op["from_target"] = rng.choice(TARGETS)
    return op


def gen(rng):
    srcs = rng.sample(SOURCES, rng.randint(1, 3))
    sessions = []
    for _ in range(rng.randint(1, 3)):
        ses = {"ops": [gen_op(rng, srcs) for _ in range(rng.randint(1, 4))], "fault": None}
        v = rng.random()
        if v < 0.25:
            c = rng.choice([["h5.append", 12], ["h5.create", 8], ["h5.close", 8], ["fs.rename", 2], ["h5.open_w", 4],
                            ["*", 120], ["h5.read", 20], ["fs.open_w", 2], ["fs.remove", 2]])
            ses["fault"] = {"cls": c[0], "n": rng.randint(1, c[1]), "do": "kill"}
        elif v < 0.5:
            c = rng.choice([["h5.append", 12, "eio"], ["h5.create", 8, "enospc"], ["h5.close", 8, "torn"],
                            ["h5.read", 20, "eio"], ["h5.open_r", 12, "eio"], ["h5.open_w", 4, "eacces"],
                            ["fs.rename", 2, "eio"]])
            ses["fault"] = {"cls": c[0], "n": rng.randint(1, c[1]), "do": c[2]}
            if c[2] == "torn":        # only what an export writes may be hit, not a source
                ses["fault"].update(path=rng.choice(TARGETS), n=rng.randint(1, 3))
        if ses["fault"]:
            ses["ops"] = [o for o in ses["ops"] if o["op"] != "channels"] or [gen_export(rng, srcs)]
        sessions.append(ses)
    raw = {}
    if rng.random() < 0.3:       # a target is a population file that was not made by an export
        raw[rng.choice(TARGETS)] = [rng.choice(RAWS), rng.random() < 0.5]
    return {"raw": raw, "srcs": srcs, "cs": {s: rng.choice([1, 2, 3, 100000]) for s in srcs}, "sessions": sessions,
            "sched_seed": rng.randrange(1 << 30), "list_seed": 1}


def directed():
    def ex(s, t, how, **kw):
        return dict({"op": "export", "s": s, "t": t, "sel": [0.1, 0.6, 0.9, 0.3], "order": "random", "how": how,
                     "hc": 2, "as": "list"}, **kw)
    base = {"raw": {}, "srcs": ["shuffled", "two", "nomet"], "cs": {"shuffled": 2, "two": 3, "nomet": 100000}, "sched_seed": 1,
            "list_seed": 1}
    out = [dict(base, sessions=[{"ops": [ex("shuffled", "x.h5", "new"), ex("two", "x.h5", "append"),
                                         ex("shuffled", "x.h5", "append"), ex("nomet", "y.h5", "new"),
                                         ex("nomet", "y.h5", "append", from_target="x.h5")], "fault": None}]),
           dict(base, sessions=[{"ops": [{"op": "channels", "s": "shuffled"}, ex("shuffled", "x.h5", "new"),
                                         ex("shuffled", "y.h5", "new", order="reverse")], "fault": None}])]
    for r in (["sparse", True], ["sparse", False], ["shuffled", False], ["two", True]):
        out.append(dict(base, raw={"x.h5": r}, sessions=[{"ops": [ex("shuffled", "x.h5", "append"), ex("two", "x.h5", "append"),
                                                                  ex("nomet", "y.h5", "new", from_target="x.h5")], "fault": None}]))
    for b in ("missing", "both", "self_append", "self_overwrite", "suffix", "multimet"):
        out.append(dict(base, sessions=[{"ops": [ex("shuffled", "x.h5", "new"), ex("shuffled", "x.h5", "overwrite", bad=b),
                                                 ex("two", "x.h5", "append")], "fault": None}]))
    for f in ({"cls": "h5.append", "n": 4, "do": "kill"}, {"cls": "h5.append", "n": 4, "do": "eio"},
              {"cls": "h5.close", "n": 1, "do": "torn", "path": "x.h5"}, {"cls": "h5.create", "n": 3, "do": "enospc"}):
        for how in ("append", "overwrite"):
            out.append(dict(base, sessions=[{"ops": [ex("shuffled", "x.h5", "new")], "fault": None},
                                            {"ops": [ex("two", "x.h5", how)], "fault": f},
                                            {"ops": [ex("two", "x.h5", how)], "fault": None}]))
    return out


def valid(s):
    if any(x["fault"] and any(o["op"] == "channels" for o in x["ops"]) for x in s["sessions"]):
        return False
    if any(o["op"] == "export" and not o["sel"] for x in s["sessions"] for o in x["ops"]):
        return False
    return len(s["srcs"]) >= 1 and len(s["sessions"]) >= 1 and set(s["cs"]) >= set(s["srcs"]) \
        and all(o["s"] in s["srcs"] for x in s["sessions"] for o in x["ops"])


def snapshot(path):
    return popfiles.tables(path, ALL) if os.path.exists(path) else None


def same_tables(a, b, keys=ALL):
    if (a is None) != (b is None):
        return "file appeared" if a is None else "file is gone"
    if a is None:
        return None
    for k in keys:
        if k == "history_lengths" and (a[k] is None or b[k] is None):
            continue                       # a derived cache may be added by reading
        if (a[k] is None) != (b[k] is None):
            return f"table {k} {'appeared' if a[k] is None else 'disappeared'}"
        if a[k] is not None:
            why = popfiles.frames_equal(a[k], b[k])
            if why:
                return f"{k}: {why}"
    return None


class Content:
    """What a population file means: binaries with their rows, and totals."""

    def __init__(self, tabs):
        h, o = tabs["history"], tabs["oneline"]
        self.mass = tabs["mass_per_metallicity"]
        fc, hl = tabs["formation_channels"], tabs["history_lengths"]
        self.bins = {}
        self.order = [int(i) for i in o.index]
        if len(set(self.order)) != len(self.order):
            raise Violation("duplicate-label", f"labels {self.order} in the oneline table")
        groups = {int(i): g for i, g in h.groupby(h.index, sort=False)}
        if set(groups) != set(self.order):
            raise Violation("labels-differ", f"oneline has {sorted(self.order)}, history {sorted(groups)}")
        # rows of a binary are contiguous
        seq = [int(i) for i in h.index]
        if sum(1 for a, b in zip(seq, seq[1:]) if a != b) + 1 != len(groups):
            raise Violation("split-history", "the history rows of a binary are not contiguous")
        lens = None
        if hl is not None:
            lens = {int(i): int(v) for i, v in zip(hl.index, hl.iloc[:, 0])}
            if set(lens) != set(self.order) or len(hl) != len(lens):
                raise Violation("labels-differ", f"history lengths for {list(hl.index)}, oneline {self.order}")
        chans = {}
        if fc is not None:
            chans = {int(i): tuple(r) for i, r in zip(fc.index, fc[["channel_debug", "channel"]].values.tolist())}
            if not set(chans) <= set(self.order) or len(fc) != len(chans):
                raise Violation("labels-differ", f"formation channels for {list(fc.index)}, oneline {self.order}")
        for i, row in zip(self.order, o.to_dict("records")):
            g = groups[i]
            if lens is not None and lens[i] != len(g):
                raise Violation("history-length", f"binary {i} has {len(g)} rows, its stored length is {lens[i]}")
            self.bins[i] = {"one": norm(row), "hist": tuple(norm(r) for r in g.to_dict("records")),
                            "chan": tuple(map(str, chans[i])) if i in chans else None}


def norm(row):
    out = []
    for k in sorted(row):
        v = row[k]
        if v is None or (isinstance(v, float) and np.isnan(v)) or v == "nan":
            v = "nan"
        elif isinstance(v, (float, np.floating)):
            v = float(v)
        elif isinstance(v, (int, np.integer)) and not isinstance(v, bool):
            v = int(v)
        out.append((k, v))
    return tuple(out)


def exported(src, sel, nomet):
    """Entries that an export of the labels ``sel`` of the content ``src`` adds."""
    out = []
    for i in sel:
        b = src.bins[i]
        one = b["one"]
        if nomet:
            one = tuple(sorted(one + (("metallicity", float(src.mass.index[0])),)))
        out.append((one, b["hist"], b["chan"]))
    return out


def mass_of(src, sel, nomet):
    m = {}
    for z, r in zip(src.mass.index, src.mass.to_dict("records")):
        r = {k: float(v) for k, v in r.items()}
        r["number_of_systems"] = float(len(sel)) if len(src.mass) == 1 else float(
            sum(dict(src.bins[i]["one"]).get("metallicity") == z for i in sel))
        m[float(z)] = r
    return m


def add_mass(a, b):
    out = {z: dict(r) for z, r in a.items()}
    for z, r in b.items():
        if z in out:
            out[z] = {k: out[z][k] + r[k] for k in r}
        else:
            out[z] = dict(r)
    return out


class Target:
    def __init__(self):
        self.exists = False
        self.entries = []
        self.mass = {}

    def copy(self):
        t = Target()
        t.exists, t.entries, t.mass = self.exists, list(self.entries), {z: dict(r) for z, r in self.mass.items()}
        return t


def judge(path, t):
    """None or the reason why the file is not what the model says."""
    if not os.path.exists(path):
        return None if not t.exists else "the file is gone"
    if not t.exists:
        return "a file was left where nothing had been exported"
    try:
        tabs = popfiles.tables(path, ALL)
    except Exception as e:
        return f"the file cannot be read: {type(e).__name__}: {e}"
    if any(tabs[k] is None for k in ALL[:4]):
        return f"tables are missing: {[k for k in ALL[:4] if tabs[k] is None]}"
    try:
        c = Content(tabs)
    except Violation as e:
        return f"{e.kind}: {e}"
    have = sorted(repr((b["one"], b["hist"])) for b in c.bins.values())
    want = sorted(repr(e[:2]) for e in t.entries)
    if have != want:
        lost = [x for x in want if x not in have]
        extra = [x for x in have if x not in want]
        return (f"{len(have)} binaries instead of {len(want)}; first differing: expected "
                f"{(lost or ['-'])[0][:600]}\nfound {(extra or ['-'])[0][:600]}")
    havec = sorted(repr((b["one"], b["chan"])) for b in c.bins.values())
    wantc = sorted(repr((e[0], e[2])) for e in t.entries)
    if havec != wantc:
        return f"formation channels differ: {[x[-160:] for x in havec if x not in wantc][:2]} instead of " \
               f"{[x[-160:] for x in wantc if x not in havec][:2]}"
    hm = {float(z): {k: float(v) for k, v in r.items()} for z, r in zip(c.mass.index, c.mass.to_dict("records"))}
    if set(hm) != set(t.mass) or any(abs(hm[z][k] - t.mass[z][k]) > 1e-9 * max(1, abs(t.mass[z][k]))
                                     for z in hm for k in t.mass[z]):
        return f"mass table {hm} instead of {t.mass}"
    return None


def plan_selection(op, order):
    n = len(order)
    pos = list(dict.fromkeys(int(x * n) for x in op["sel"]))
    lab = [order[p] for p in pos]
    if op["order"] == "file":
        lab.sort(key=order.index)
    elif op["order"] == "sorted":
        lab.sort()
    elif op["order"] == "reverse":
        lab.sort(reverse=True)
    return lab


def session(scn, ses, paths):
    def go():
        from posydon.popsyn.synthetic_population import Population
        n = kernel.NODE
        pops = {}

        def quiet(fn):
            n.muted += 1
            try:
                return fn()
            finally:
                n.muted -= 1

        def memory(p):
            return {"mass": p.mass_per_metallicity.copy(), "len": p.history_lengths.copy(),
                    "idx": list(map(int, p.indices)), "sol": list(p.solar_metallicities),
                    "ini": dict(p.ini_params)}

        def changed(a, b):
            for k in ("mass", "len"):
                why = popfiles.frames_equal(b[k], a[k])
                if why:
                    return f"{k}: {why}"
            return None if (a["idx"], a["sol"], str(a["ini"])) == (b["idx"], b["sol"], str(b["ini"])) else "attributes"

        def get(path, cs):
            if path not in pops:
                pops[path] = Population(path, chunksize=cs)
            return pops[path]
        for j, op in enumerate(ses["ops"]):
            spath = os.path.join(paths, op["s"] + ".h5")
            cs = scn["cs"][op["s"]]
            if op["op"] == "reopen":
                pops.pop(spath, None)
                continue
            if op.get("from_target"):
                spath = os.path.join(paths, op["from_target"])
                if not os.path.exists(spath) or op["from_target"] == op["t"]:
                    continue
                pops.pop(spath, None)
            if op.get("bad") == "multimet":
                spath = os.path.join(paths, "twonomet.h5")
            tpath = os.path.join(paths, op.get("t", "none.h5"))
            seen = n.injected
            if op["op"] == "channels":
                quiet(lambda: n.call({"t": "op", "j": j, "what": "channels"}))
                try:
                    get(spath, cs).calculate_formation_channels()
                except Exception:
                    if n.injected == seen:
                        raise
                quiet(lambda: n.call({"t": "op", "j": j, "what": "done"}))
                continue
            try:
                p = get(spath, cs)
            except Exception as e:
                if n.injected == seen:
                    raise
                pops.pop(spath, None)
                continue
            tabs = quiet(lambda: popfiles.tables(spath, ["oneline"]))
            sel = plan_selection(op, [int(i) for i in tabs["oneline"].index])
            kw = {"history_chunksize": op["hc"]}
            bad = op.get("bad")
            if op["how"] == "overwrite" or bad in ("both", "self_overwrite"):
                kw["overwrite"] = True
            if op["how"] == "append" and bad != "self_overwrite" or bad in ("both", "self_append"):
                kw["append"] = True
                if bad == "self_append":
                    kw.pop("overwrite", None)
            if bad == "missing":
                sel = sel + [977]
            if bad in ("self_append", "self_overwrite"):
                tpath = spath
            if bad == "suffix":
                tpath = tpath[:-3] + ".dat"
            quiet(lambda: n.call({"t": "op", "j": j, "what": "export", "src": os.path.basename(spath),
                                  "dst": os.path.basename(tpath), "sel": sel, "kw": sorted(kw),
                                  "exists": os.path.exists(tpath), "bad": bad}))
            before = memory(p)
            try:
                p.export_selection(np.array(sel) if op["as"] == "array" else list(sel), tpath, **kw)
                res = "ok"
            except Exception as e:
                import traceback
                res = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-600:]}"
            why = changed(before, memory(p))
            quiet(lambda: n.call({"t": "op", "j": j, "what": "done", "res": res, "injected": n.injected > seen,
                                  "memory": why}))
        return None
    return go


def run(scn, sim):
    model = {t: Target() for t in TARGETS}
    orig = {}
    for s in scn["srcs"] + ["twonomet"]:
        if s not in popfiles.FILES:
            raise Violation("no-population", popfiles.ERRORS.get(s, f"{s} not made"))
        p = os.path.join(sim.root, s + ".h5")
        with open(p, "wb") as f:
            f.write(popfiles.FILES[s])
        orig[s + ".h5"] = SNAP.setdefault(s, None) or snapshot(p)
    for t, (name, cached) in scn.get("raw", {}).items():
        p = os.path.join(sim.root, t)
        with open(p, "wb") as f:
            f.write((popfiles.FILES if cached else popfiles.RAW)[name])
        c = Content(popfiles.tables(p, ALL))
        model[t].exists = True
        model[t].entries = [(b["one"], b["hist"], b["chan"]) for b in c.bins.values()]
        model[t].mass = {float(z): {k: float(v) for k, v in r.items()}
                         for z, r in zip(c.mass.index, c.mass.to_dict("records"))}
    done = {"n": 0, "refused": 0}
    cur = {}

    def on_op(node, msg):
        if msg["what"] != "done":
            cur.clear()
            cur.update(msg)
            if msg["what"] == "export":
                prepare()
            return {"do": "go"}
        finish(msg)
        cur.clear()
        return {"do": "go"}
    sim.on_msg["op"] = on_op

    def prepare():
        """Remember the source content and compute the possible outcome."""
        src = os.path.join(sim.root, cur["src"])
        cur["content"] = Content(popfiles.tables(src, ALL))

    def outcome():
        t = model[cur["dst"]].copy()
        c = cur["content"]
        nomet = "metallicity" not in dict(next(iter(c.bins.values()))["one"])
        if "append" not in cur["kw"] or not t.exists:
            t = Target()
            t.exists = True
        t.entries += exported(c, cur["sel"], nomet)
        t.mass = add_mass(t.mass, mass_of(c, cur["sel"], nomet))
        return t

    ident, judged = {}, {}

    def raw(path):
        try:
            with open(path, "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def check_target(t):
        """None or the reason; a file not changed since it was found right is not read again."""
        p = os.path.join(sim.root, t)
        now = (raw(p), id(model[t]))
        if judged.get(t) == now:
            return None
        why = judge(p, model[t])
        if why is None:
            judged[t] = now
        return why

    def check_sources(when):
        for name, tabs in orig.items():
            b = raw(os.path.join(sim.root, name))
            if ident.get(name, popfiles.FILES[name[:-3]]) == b:
                continue
            now = None
            try:
                now = snapshot(os.path.join(sim.root, name))
            except Exception as e:
                raise Violation("source-damaged", f"{name} cannot be read {when}: {type(e).__name__}: {e}")
            why = same_tables(tabs, now)
            if why:
                raise Violation("source-changed", f"{name} {when}: {why}")
            ident[name] = b

    def finish(msg):
        if cur.get("what") == "channels":
            for name in list(orig):
                p = os.path.join(sim.root, name)
                if ident.get(name, popfiles.FILES[name[:-3]]) == raw(p):
                    continue
                tabs = snapshot(p)
                why = same_tables(orig[name], tabs, ALL[:4])
                if why:
                    raise Violation("source-changed", f"{name} by computing formation channels: {why}")
                orig[name] = tabs
            return
        if msg["memory"]:
            raise Violation("source-object-changed", f"export from {cur['src']}: {msg['memory']}")
        res = msg["res"]
        dst = cur["dst"]
        must_refuse = cur["bad"] is not None or (cur["exists"] and not cur["kw"].count("append")
                                                  and not cur["kw"].count("overwrite"))
        if res == "ok":
            if cur["bad"] in ("missing", "both", "suffix", "multimet", "self_append", "self_overwrite"):
                raise Violation("not-refused", f"export with {cur['bad']} was accepted")
            if must_refuse:
                raise Violation("not-refused", f"existing file {dst} was overwritten without being asked to")
            model[dst] = outcome()
            done["n"] += 1
        else:
            if not must_refuse and not msg["injected"]:
                raise Violation("export-failed", f"export of {cur['sel']} from {cur['src']} to {dst}: {res}")
            done["refused"] += 1
            if cur["bad"] == "suffix":
                if os.path.exists(os.path.join(sim.root, dst)):
                    raise Violation("refused-export-wrote", dst)
        for t in TARGETS:
            why = check_target(t)
            if why:
                raise Violation("wrong-export" if res == "ok" else "failed-export-damages",
                                f"{t} after export of {cur['sel']} from {cur['src']} to {dst} "
                                f"({', '.join(cur['kw'])}; {res.splitlines()[0]}): {why}")
        check_sources(f"after export of {cur['sel']} from {cur['src']} to {dst} ({res.splitlines()[0]})")

    for k, ses in enumerate(scn["sessions"]):
        cur.clear()
        if ses["fault"]:
            sim.faults.append(dict(ses["fault"], node=f"session{k}"))
        node = sim.solo(f"session{k}", session(scn, ses, sim.root), cwd=sim.root)
        if node.state == "killed":
            if cur.get("what") == "export" and cur["dst"] in model and cur["bad"] is None:
                opts = [model[cur["dst"]]]
                if not (cur["exists"] and "append" not in cur["kw"] and "overwrite" not in cur["kw"]):
                    opts.append(outcome())
                why = None
                for o in opts:
                    why = judge(os.path.join(sim.root, cur["dst"]), o)
                    if why is None:
                        model[cur["dst"]] = o
                        break
                if why:
                    raise Violation("killed-export-damages", f"killed while exporting to {cur['dst']}: {why}")
            check_sources("after a kill")
            for t in TARGETS:
                why = check_target(t)
                if why:
                    raise Violation("killed-export-damages", f"{t}: {why}")
        else:
            must_succeed(node, node.name, sim)
    sim.count_probe("exports", done["n"])
    sim.count_probe("refused_or_failed", done["refused"])
    return done


def nontrivial(scn, res):
    return bool(res.get("probes", {}).get("exports"))

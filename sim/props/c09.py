"""C09: reading a population is independent of chunk size and row order."""
import os

import numpy as np
import pandas as pd

from .. import kernel, popfiles
from ..kernel import Violation
from .c01 import must_succeed

PROP = "C09"
QUICK = {"runs": 2500, "wall": 60}
THOROUGH = {"runs": 120000, "wall": 3000}
KEEP = {"cond"}
SHRINK_INT = {"sched_seed": 0, "list_seed": 0}
SHRINK_TO = {"rfaults": [], "noWrite": False, "cached": True}
RULE = ("one case = one sequence of reads by one or several readers of one population file; non-trivial if at "
        "least one read went over several chunks or several readers were interleaved; distinct by event log and "
        "scenario")
COMPONENTS = {"real": ["Population, History, Oneline, DFInterface", "BinaryPopulation (makes the files)",
                       "pandas/PyTables/HDF5 with its file locking", "file system (scratch)"],
              "stub": ["evolution steps of the binaries (scripted)", "read and permission errors"]}
ASSUMPTIONS = ["concurrent processes open a population whose history lengths are already stored "
               "(storing them needs the file for itself)"]
TABLES = ["history", "oneline"]


def preload():
    popfiles.preload()


def gen_where(rng):
    k = rng.random()
    if k < 0.45:
        return [["index", rng.choice([">", "<", "==", ">=", "!="]), rng.randint(-1, 42)]]
    if k < 0.6:
        return [["index", "in", sorted(rng.sample(range(45), rng.randint(1, 40)))]]
    if k < 0.8:
        return [["str", rng.randrange(1000)]]
    return [["str", rng.randrange(1000)], ["index", rng.choice([">", "<"]), rng.randint(0, 30)]]


def gen_op(rng, readers):
    op = {"r": rng.randrange(readers), "t": rng.choice(TABLES)}
    k = rng.choice(["int", "list", "array", "slice", "mask", "mask", "dfmask", "col", "cols", "where", "where",
                    "range", "head", "tail", "len", "badcol", "meta", "repr", "npmask_sparse"])
    op["k"] = k
    if k == "int":
        op["i"] = rng.randint(-1, 42)
    elif k in ("list", "array"):
        op["idx"] = rng.sample(range(45), rng.choice([0, 1, 2, 5, 33])) if rng.random() < 0.5 else \
            [rng.randint(0, 12) for _ in range(rng.randint(1, 6))]
    elif k == "slice":
        a, b = rng.choice([None, 0, 2, 5, 18]), rng.choice([None, 0, 3, 7, 30, 50])
        op["s"] = [a, b]
    elif k in ("mask", "dfmask", "npmask_sparse"):
        op["m"] = rng.randrange(1 << 30)
        op["p"] = rng.choice([0.0, 0.1, 0.5, 0.9, 1.0])
    elif k in ("col", "cols"):
        op["c"] = [rng.randrange(1000) for _ in range(1 if k == "col" else rng.randint(1, 4))]
    elif k == "where":
        op["cond"] = gen_where(rng)
        op["c"] = None if rng.random() < 0.5 else [rng.randrange(1000) for _ in range(rng.randint(1, 3))]
    elif k == "range":
        op["s"] = [rng.choice([None, 0, 1, 4, 9, 100]), rng.choice([None, 0, 2, 5, 12, 200])]
        op["c"] = None if rng.random() < 0.6 else [rng.randrange(1000)]
    elif k in ("head", "tail"):
        op["n"] = rng.choice([0, 1, 2, 5, 10, 30, 300])
    return op


def gen(rng):
    readers = [rng.choice([1, 2, 3, 4, 7, 10, 100000]) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
    many = len(readers) > 1 and rng.random() < 0.4
    scn = {"file": rng.choice(["sorted", "shuffled", "shuffled", "sparse", "one", "ranks", "ranks", "two"]),
           "readers": readers, "many": many, "cached": True if many else rng.random() < 0.5, "noWrite": False,
           "via": rng.choice(["population", "population", "classes"]),
           "ops": [gen_op(rng, len(readers)) for _ in range(rng.randint(3, 12))], "rfaults": [],
           "sched_seed": rng.randrange(1 << 30), "list_seed": 1, "sticky": rng.choice([0.0, 0.5])}
    u = rng.random()
    if u < 0.15:
        scn["noWrite"] = True
    elif u < 0.35:
        scn["rfaults"] = [{"node": "*", "cls": rng.choice(["h5.read", "h5.open_r"]), "n": rng.randint(1, 12),
                          "do": rng.choice(["eio", "estale"])} for _ in range(rng.randint(1, 2))]
    elif u < 0.5 and many:
        scn["rfaults"] = [{"node": "reader1", "cls": "*", "n": rng.randint(1, 40), "do": "kill"}]
    return scn


def directed():
    base = {"file": "ranks", "readers": [3], "many": False, "cached": False, "noWrite": False, "via": "population",
            "rfaults": [], "sched_seed": 1, "list_seed": 1, "sticky": 0.5}
    out = []
    for t in TABLES:
        ops = [{"r": 0, "t": t, "k": "mask", "m": 5, "p": 0.5}, {"r": 0, "t": t, "k": "dfmask", "m": 6, "p": 0.5},
               {"r": 0, "t": t, "k": "slice", "s": [2, None]}, {"r": 0, "t": t, "k": "slice", "s": [None, None]},
               {"r": 0, "t": t, "k": "int", "i": 41}, {"r": 0, "t": t, "k": "range", "s": [1, 12], "c": None},
               {"r": 0, "t": t, "k": "list", "idx": []}, {"r": 0, "t": t, "k": "array", "idx": list(range(40))},
               {"r": 0, "t": t, "k": "tail", "n": 300}, {"r": 0, "t": t, "k": "cols", "c": [1, 2, 5]},
               {"r": 0, "t": t, "k": "where", "cond": [["str", 3], ["index", ">", 2]], "c": None}]
        for f in ("ranks", "shuffled", "sparse", "two", "one"):
            out.append(dict(base, file=f, ops=ops))
        out.append(dict(base, ops=ops, noWrite=True))
        out.append(dict(base, ops=ops + [dict(o, r=1) for o in ops], readers=[1, 7], many=True, cached=True))
    return out


def valid(s):
    return len(s["readers"]) >= 1 and len(s["ops"]) >= 1 and all(o["r"] < len(s["readers"]) for o in s["ops"]) \
        and (s["cached"] or not s["many"])


def pick_cols(df, nums):
    return None if nums is None else list(dict.fromkeys(df.columns[n % len(df.columns)] for n in nums))


def conds(df, cond, string_cols):
    """(where text, boolean mask) of a condition."""
    parts, mask = [], np.ones(len(df), dtype=bool)
    for c in cond:
        if c[0] == "index":
            if c[1] == "in":
                parts.append(f"index in {c[2]}")
                mask &= df.index.isin(c[2])
            else:
                parts.append(f"index {c[1]} {c[2]}")
                x = df.index.to_numpy()
                mask &= {">": x > c[2], "<": x < c[2], "==": x == c[2], ">=": x >= c[2], "!=": x != c[2]}[c[1]]
        else:
            col = string_cols[c[1] % len(string_cols)]
            vals = sorted({v for v in df[col].tolist() if isinstance(v, str) and v and v != "nan"}) or ["x"]
            val = vals[c[1] % len(vals)]
            parts.append(f"{col} == '{val}'")
            mask &= (df[col] == val).to_numpy()
    return " & ".join(parts), mask


def do_op(tab, df, op, string_cols):
    """(result, expected) of one read; expected may be an exception type."""
    k = op["k"]
    n = len(df)
    if k == "int":
        return tab[op["i"]], df[df.index == op["i"]]
    if k in ("list", "array"):
        key = [int(i) for i in op["idx"]] if k == "list" else np.array(op["idx"], dtype=int)
        return tab[key], df[df.index.isin(op["idx"])]
    if k == "slice":
        a, b = op["s"]
        m = np.ones(n, dtype=bool)
        if a is not None:
            m &= df.index.to_numpy() >= a
        if b is not None:
            m &= df.index.to_numpy() < b
        if a is None:
            m &= df.index.to_numpy() >= 0
        return tab[slice(a, b)], df[m]
    if k in ("mask", "dfmask", "npmask_sparse"):
        m = np.random.RandomState(op["m"] % (1 << 32)).rand(n) < op["p"]
        if k == "npmask_sparse":
            m = np.arange(n) % 5 == op["m"] % 5
        if k == "dfmask":
            return tab[pd.DataFrame({"x": m}, index=df.index)], df[m]
        return tab[m], df[m]
    if k == "col":
        c = pick_cols(df, op["c"])
        return tab[c[0]], df[c]
    if k == "cols":
        c = pick_cols(df, op["c"])
        return tab[c], df[c]
    if k == "where":
        w, m = conds(df, op["cond"], string_cols)
        c = pick_cols(df, op["c"])
        return tab.select(where=w, columns=c), df[m] if c is None else df[m][c]
    if k == "range":
        a, b = op["s"]
        c = pick_cols(df, op["c"])
        x = df.iloc[a:b]
        return tab.select(start=a, stop=b, columns=c), x if c is None else x[c]
    if k == "head":
        return tab.head(op["n"]), df.head(op["n"])
    if k == "tail":
        return tab.tail(op["n"]), df.tail(op["n"])
    if k == "repr":
        repr(tab)
        return None, None
    raise kernel.HarnessError(k)


def judge(got, exp, op, what):
    if got is None and exp is None:
        return None
    if not isinstance(got, pd.DataFrame):
        return f"{what}: returned {type(got).__name__}"
    if len(exp) == 0 and len(got) == 0:
        return None
    # columns in the order of the file or as requested are both in-memory answers
    if sorted(got.columns) == sorted(exp.columns):
        got = got[list(exp.columns)]
    why = popfiles.frames_equal(got, exp)
    return None if why is None else f"{what}: {why}"


def body(scn, mine, path):
    """The reads of the readers ``mine``, in one process."""
    def go():
        from posydon.popsyn.synthetic_population import History, Oneline, Population
        n = kernel.NODE
        n.muted += 1
        full = popfiles.tables(path)
        string_cols = {}
        with pd.HDFStore(path, "r") as st:
            for t in TABLES:
                dc = st.get_storer(t).data_columns
                string_cols[t] = [c for c in dc if full[t][c].map(lambda v: isinstance(v, str)).any()
                                  and c != "metallicity"]
        n.muted -= 1

        def tries(fn):
            for _ in range(6):
                before = n.injected
                try:
                    return fn()
                except Exception:
                    if n.injected == before:
                        raise
            return fn()
        readers = {}
        for r in mine:
            cs = scn["readers"][r]
            if scn["via"] == "population":
                readers[r] = tries(lambda: Population(path, chunksize=cs))
            else:
                h = tries(lambda: History(path, chunksize=cs))
                o = tries(lambda: Oneline(path, chunksize=cs))
                readers[r] = type("R", (), {"history": h, "oneline": o})()
        out, chunked = [], 0
        for j, op in enumerate(scn["ops"]):
            if op["r"] not in readers:
                continue
            rd = readers[op["r"]]
            tab, df = getattr(rd, op["t"]), full[op["t"]]
            cs = scn["readers"][op["r"]]
            what = f"op {j} {op['t']} {op['k']} (chunk size {cs})"
            chunked += cs < len(df)
            try:
                if op["k"] == "len":
                    if len(tab) != len(df):
                        out.append(f"{what}: {len(tab)} instead of {len(df)}")
                elif op["k"] == "meta":
                    if sorted(map(int, tab.indices)) != sorted(set(map(int, df.index))):
                        out.append(f"{what}: indices {list(tab.indices)}")
                    if int(tab.number_of_systems) != len(set(df.index)) or list(tab.columns) != list(df.columns):
                        out.append(f"{what}: {tab.number_of_systems} systems, columns {tab.columns}")
                    if op["t"] == "history":
                        want = df.groupby(df.index).size().to_dict()
                        have = {int(i): int(v) for i, v in zip(tab.lengths.index, tab.lengths.iloc[:, 0])}
                        if want != have:
                            out.append(f"{what}: lengths {have} instead of {want}")
                elif op["k"] == "badcol":
                    try:
                        tab["no_such_column"]
                        out.append(f"{what}: a column that does not exist was returned")
                    except ValueError:
                        pass
                elif op["k"] == "where" and op["cond"][0][0] == "str" and not string_cols[op["t"]]:
                    continue
                else:
                    got, exp = tries(lambda: do_op(tab, df, op, string_cols[op["t"]]))
                    why = judge(got, exp, op, what)
                    if why:
                        out.append(why)
            except Exception as e:
                import traceback
                out.append(f"{what}: {type(e).__name__}: {e}\n" + traceback.format_exc()[-700:])
        return out, chunked
    return go


def run(scn, sim):
    name = scn["file"]
    if name not in popfiles.FILES:
        raise Violation("no-population", popfiles.ERRORS.get(name, "not made"))
    path = os.path.join(sim.root, "pop.h5")
    with open(path, "wb") as f:
        f.write(popfiles.FILES[name])
    if scn["cached"]:
        def first():
            from posydon.popsyn.synthetic_population import Population
            Population(path)
        must_succeed(sim.solo("first", first, cwd=sim.root), "opening the population", sim)
    if scn["noWrite"]:
        sim.faults.append({"node": "*", "cls": "h5.open_w", "n": 1, "do": "eacces", "sticky": True})
    sim.faults += [dict(f) for f in scn["rfaults"]]
    before = popfiles.tables(path)
    if scn["many"]:
        for r in range(len(scn["readers"])):
            sim.spawn(f"reader{r}", body(scn, [r], path), cwd=sim.root)
    else:
        sim.spawn("reader0", body(scn, list(range(len(scn["readers"]))), path), cwd=sim.root)
    sim.run()
    chunked = 0
    for node in sim.nodes:
        if not node.name.startswith("reader") or node.state == "killed":
            continue
        must_succeed(node, node.name, sim)
        out, ch = node.result
        chunked += ch
        if out:
            raise Violation("wrong-read", f"population '{name}': " + "; ".join(out[:3]))
    after = popfiles.tables(path)
    for t in before:
        why = popfiles.frames_equal(after[t], before[t])
        if why:
            raise Violation("read-changes-data", f"{t}: {why}")
    sim.count_probe("reads", len(scn["ops"]))
    sim.count_probe("chunked_reads", chunked)
    return {"chunked": chunked}


def nontrivial(scn, res):
    return bool(res.get("probes", {}).get("chunked_reads")) or scn["many"]

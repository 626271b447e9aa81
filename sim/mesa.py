"""Scripted MESA runs: the files of one run, damaged on demand, and what they contain."""
import gzip
import math
import os
import random

# columns the code reads by default are taken from it at run time; these only add others
EXTRA = {"bh": ["extra_bh"], "h1": ["extra_h"], "h2": ["extra_h"], "p1": ["extra_p"], "p2": ["extra_p"]}
PATHS = {"bh": "binary_history.data", "h1": "LOGS1/history.data", "h2": "LOGS2/history.data",
         "p1": "LOGS1/final_profile.data", "p2": "LOGS2/final_profile.data", "inlist": "inlist_grid_points"}
TF1 = ["termination code: Terminate due to primary depleting carbon", "Terminate: max_age",
       "termination code: min_timestep_limit", "no end here",
       "Terminate: Terminate because of overflowing initial model",
       "termination code: overflow from L2 (D_L2) distance for RLOF"]


def columns():
    from posydon.grids import psygrid as pg
    star = ["model_number", "star_age", "star_mass"] + [c for c in pg.DEFAULT_STAR_HISTORY_COLS]
    return {"bh": list(pg.DEFAULT_BINARY_HISTORY_COLS) + EXTRA["bh"], "h1": star + EXTRA["h1"],
            "h2": star + EXTRA["h2"], "p1": list(pg.DEFAULT_PROFILE_COLS) + EXTRA["p1"],
            "p2": list(pg.DEFAULT_PROFILE_COLS) + EXTRA["p2"]}


def make(run, binary, cols):
    """All tables of a run, as its files would contain them when intact."""
    r = random.Random(f"{run['seed']}")
    n = run["n"]
    models, ages = [], []
    m, t = 1, 1000.0 * r.random()
    for i in range(n):
        models.append(m)
        ages.append(t)
        m += 1
        t += 10.0 + 1000.0 * r.random()
        if run["redo"] and i in run["redo"] and i > 1:      # a restart repeats some models
            m -= 2
            t = ages[-1] - 0.5 * (ages[-1] - ages[-2])
    out = {}
    for key in (["bh", "h1", "h2", "p1", "p2"] if binary else ["h1", "p1"]):
        rows = []
        rr = random.Random(f"{run['seed']}{key}")
        k = n if key[0] != "p" else run["np"]
        pace = rr.choice([0.6, 1.0, 1.0, 1.25, 1.7])        # how far the star evolves within its history
        for i in range(k):
            row = {}
            for c in cols[key]:
                row[c] = rr.uniform(-5, 5)
            if key == "bh":
                row.update(model_number=models[i], age=ages[i], star_1_mass=run["m1"] - 0.01 * i,
                           star_2_mass=run["m2"] - 0.005 * i, period_days=run["p"] * (1 + 0.01 * i),
                           rl_relative_overflow_1=-0.5, rl_relative_overflow_2=-0.6, lg_mtransfer_rate=-99.0)
                if run["rlo"] is not None and i >= run["rlo"]:
                    row.update(rl_relative_overflow_1=0.1 * rr.random(), lg_mtransfer_rate=-5.0 + rr.random())
            elif key[0] == "h":
                row.update(model_number=models[i], star_age=ages[i])
                if "star_mass" in row:
                    row["star_mass"] = run["m1"] - 0.01 * i
                x = pace * i / max(1, n - 1)
                row.update(center_h1=max(0.0, 0.7 - 2.1 * x), center_he4=max(0.0, min(0.98, 0.28 + 2.1 * x)
                           if x < 0.5 else 0.98 - 2.5 * (x - 0.5)), surface_h1=0.7, center_c12=0.3 * rr.random()
                           if x < 0.9 else 1e-7, log_LH=1.0, log_LHe=2.0 * x, log_Lnuc=1.5 + x)
            elif key[0] == "p":
                row["mass"] = run["m1"] * (1 - i / (k + 1.0))
            rows.append(row)
        out[key] = rows
    return out


def fmt(v):
    return repr(float(v)) if not isinstance(v, int) else str(v)


def header(key, run, binary):
    if key == "bh":
        return ["version initial_don_mass initial_acc_mass initial_period_days",
                f"15140 {fmt(run['m1'] + 0.001)} {fmt(run['m2'] + 0.002)} {fmt(run['p'] * 1.001)}"]
    if key[0] == "h":
        return ["version initial_m initial_Z initial_Y", f"15140 {fmt(run['m1'] + 0.001)} {fmt(run['z'])} "
                f"{fmt(run['y'])}"]
    return ["version initial_mass", "15140 1.0"]


def text(key, run, rows, cols, binary):
    lines = ["1 2 3 4"] + header(key, run, binary) + ["", "1 2 3 4 5 6"]
    lines.append(" ".join(cols))
    for row in rows:
        lines.append(" ".join(fmt(row[c]) for c in cols))
    return "\n".join(lines) + "\n"


def usable(kind, rows, cols, want):
    """What reading the columns ``want`` (None = all) of a damaged file has to give."""
    if kind is None:
        return rows
    if kind in ("missing", "empty", "head", "gzcut", "garbage", "gzhead"):
        return None
    if kind == "nocol":
        return None
    if kind == "names":
        return []
    if kind.startswith("rows:"):
        return rows[:int(kind[5:])]
    if kind.startswith("mid:"):        # rows, then one cut inside
        k, left = kind[4:].split(",")
        k, left = int(k), int(left)
        if k >= len(rows):
            return rows
        need = len(cols) if want is None else max(cols.index(c) for c in want) + 1
        return rows[:k + (left >= need)]
    raise ValueError(kind)


def damaged(kind, body, cols, rng, drop):
    """The bytes of a file with this damage; None = no file. Second: force gzip, third: cut after gzip."""
    lines = body.split("\n")
    if kind is None:
        return body.encode()
    if kind == "missing":
        return None
    if kind == "empty":
        return b""
    if kind == "head":
        return ("\n".join(lines[:rng.randint(1, 5)]) + "\n").encode()
    if kind == "names":
        return ("\n".join(lines[:6]) + "\n").encode()
    if kind.startswith("rows:"):
        return ("\n".join(lines[:6 + int(kind[5:])]) + "\n").encode()
    if kind.startswith("mid:"):
        k, left = kind[4:].split(",")
        k, left = int(k), int(left)
        if 6 + k >= len(lines) - 1:
            return body.encode()
        return ("\n".join(lines[:6 + k] + [" ".join(lines[6 + k].split()[:left])])).encode()
    if kind == "garbage":
        return bytes(rng.randrange(128, 255) for _ in range(400)) + b"\n" + b"\x00" * 50
    if kind == "nocol":
        out = lines[:5]
        j = cols.index(drop)
        for ln in lines[5:]:
            f = ln.split()
            out.append(" ".join(f[:j] + f[j + 1:]))
        return "\n".join(out).encode()
    raise ValueError(kind)


def put(path, data, gz, cut=False, headcut=False):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not gz:
        with open(path, "wb") as f:
            f.write(data)
        return
    z = gzip.compress(data, 1, mtime=0)
    if cut:
        z = z[:max(12, len(z) * 2 // 3)]
    if headcut:
        z = z[:5]
    with open(path + ".gz", "wb") as f:
        f.write(z)


def scrubbed(tables, key_age=(("bh", "age"), ("h1", "star_age"), ("h2", "star_age"))):
    """Rows that stay when repeated models are dropped: increasing in age and model, present in all tables."""
    kept = {}
    for key, age in key_age:
        rows = tables.get(key)
        if rows is None:
            continue
        out = []
        for row in reversed(rows):
            if not out or (row[age] < out[-1][age] and row["model_number"] < out[-1]["model_number"]):
                out.append(row)
        kept[key] = out[::-1]
    common = None
    for rows in kept.values():
        s = {r["model_number"] for r in rows}
        common = s if common is None else common & s
    return {k: [r for r in rows if r["model_number"] in common] for k, rows in kept.items()}


def same(a, b, tol=1e-12):
    if isinstance(a, (bytes, str)) or isinstance(b, (bytes, str)):
        a = a.decode() if isinstance(a, bytes) else a
        b = b.decode() if isinstance(b, bytes) else b
        return a == b
    if a is None:
        a = math.nan
    if b is None:
        b = math.nan
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))

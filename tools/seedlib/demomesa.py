"""Folders as MESA leaves them, and grids made of them, for the demonstrations."""
import gzip
import os
import random


def write_run(top, i, m1=10.0, m2=2.0, p=5.0, z=0.0142, n=6, he=True, drop=(), gz=(), tf1="Terminate: max_age", seed=None,
              binary=True):
    from posydon.grids import psygrid as pg
    star = ["model_number", "star_age", "star_mass"] + list(pg.DEFAULT_STAR_HISTORY_COLS)
    cols = {"binary_history.data": list(pg.DEFAULT_BINARY_HISTORY_COLS), "LOGS1/history.data": star,
            "LOGS2/history.data": star, "LOGS1/final_profile.data": list(pg.DEFAULT_PROFILE_COLS),
            "LOGS2/final_profile.data": list(pg.DEFAULT_PROFILE_COLS)}
    d = os.path.join(top, f"Zbase_0.0142_m1_{m1:.4f}_m2_{m2:.4f}_initial_z_{z:.4e}_initial_period_in_days_{p:.4e}_grid_index_{i}")
    os.makedirs(d)
    for f, names in cols.items():
        r = random.Random(f"{seed if seed is not None else i}{f}")
        rows = []
        for k in range(n):
            row = {c: r.uniform(-5, 5) for c in names}
            if f[0] == "b":
                row.update(model_number=k + 1, age=100.0 * (k + 1), star_1_mass=m1 - 0.01 * k, star_2_mass=m2,
                           period_days=p * (1 + 0.01 * k), rl_relative_overflow_1=-0.5, rl_relative_overflow_2=-0.6,
                           lg_mtransfer_rate=-99.0)
            elif "history" in f:
                x = k / max(1, n - 1)
                end = he if isinstance(he, bool) else he[f]
                row.update(model_number=k + 1, star_age=100.0 * (k + 1), star_mass=m1 - 0.01 * k,
                           center_h1=max(0.0, 0.7 - 2.1 * x),
                           center_he4=0.98 if x < 0.5 or not end else 1e-9, surface_h1=0.7, center_c12=0.2,
                           log_LH=1.0, log_LHe=2.0 * x, log_Lnuc=1.5)
            else:
                row["mass"] = m1 * (1 - k / (n + 1.0))
            rows.append(row)
        head = {"b": ["version initial_don_mass initial_acc_mass initial_period_days", f"15140 {m1} {m2} {p}"],
                "h": ["version initial_m initial_Z initial_Y", f"15140 {m1} {z} 0.27"]}
        h = head["b"] if f[0] == "b" else head["h"] if "history" in f else ["version initial_mass", "15140 1.0"]
        body = "\n".join(["1 2 3 4"] + h + ["", "1 2 3 4 5 6", " ".join(names)]
                         + [" ".join(repr(row[c]) for c in names) for row in rows]) + "\n"
        put(os.path.join(d, f), body, f in gz, f in drop)
    put(os.path.join(d, "inlist_grid_points"), f"&binary_controls\n\tm1 = {m1}d0\n\tm2 = {m2}d0\n\tinitial_period_in_days = {p}d0\n/\n",
        False, "inlist_grid_points" in drop)
    put(os.path.join(d, "out.txt"), f"starting\nstep 1\n{tf1}\n DATE: end\n", "out.txt" in gz, "out.txt" in drop)
    return d


def put(path, body, gz, drop):
    if drop:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if gz:
        with open(path + ".gz", "wb") as f:
            f.write(gzip.compress(body.encode()))
    else:
        with open(path, "w") as f:
            f.write(body)


def grid(top, out, **kw):
    from posydon.grids.psygrid import PSyGrid
    g = PSyGrid()
    g.create(top, out, overwrite=True, **kw)
    return g

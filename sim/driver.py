"""Seeded search over scenarios: run, minimise, replay, report, write evidence."""
import argparse
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import kernel, seams
from .kernel import HarnessError, Sim, Violation

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("SIM_EVIDENCE", os.path.join(VERIF, "evidence"))
REPO = os.environ.get("SIM_REPO", "/repo")
SCRATCH = os.environ.get("SIM_SCRATCH", "/tmp")
NPROC = int(os.environ.get("SIM_PROCS", "0")) or min(8, os.cpu_count() or 1)
SCENARIO_WALL = float(os.environ.get("SIM_SCENARIO_WALL", "240"))

_time = time.time
_fork, _exit, _kill, _waitpid = os.fork, os._exit, os.kill, os.waitpid


def execute(mod, scn, base):
    """Run one scenario in the current process; returns a result dict."""
    root = os.path.join(base, "r")
    meta = os.path.join(base, "m")
    os.makedirs(root)
    os.makedirs(meta)
    sim = Sim(scn, root, meta)
    res = {"status": "ok"}
    try:
        info = mod.run(scn, sim)
        res["info"] = info or {}
    except Violation as v:
        res.update(status="violation", kind=v.kind, msg=v.msg[:4000])
    except Exception as e:
        res.update(status="error", kind=type(e).__name__, msg=traceback.format_exc()[-4000:])
    finally:
        sim.shutdown()
    res.update(events=sim.nev, simtime=sim.clock, fired=sim.fired, probes=sim.probes,
               switches=sim.switches, unfired=sim.unfired(), nodes=len(sim.nodes),
               loghash=sim.loghash.hexdigest())
    if res["status"] != "ok" or scn.get("keep_log"):
        res["log"] = [l.replace(root, "$") for l in sim.log[-400:]]
        outs = {}
        for n in sim.nodes[-4:]:
            o = sim.output(n.name)
            outs[n.name] = o[-1500:].replace(root, "$")
        res["out"] = outs
        if "msg" in res:
            res["msg"] = res["msg"].replace(root, "$")
    return res


class Pool:
    """Forks one isolated process per scenario."""

    def __init__(self, mod, procs):
        self.mod = mod
        self.procs = procs
        self.live = {}

    def start(self, key, scn):
        r, w = os.pipe()
        base = tempfile.mkdtemp(prefix="posydon-sim-", dir=SCRATCH)
        pid = _fork()
        if pid == 0:
            code = 0
            try:
                os.setsid()
                kernel.pdeathsig()
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                res = execute(self.mod, scn, base)
                data = pickle.dumps(res, protocol=4)
                while data:
                    n = os.write(w, data)
                    data = data[n:]
            except BaseException:
                traceback.print_exc()
                code = 99
            _exit(code)
        os.close(w)
        self.live[r] = dict(key=key, scn=scn, pid=pid, base=base, buf=b"", t0=_time())

    def poll(self, timeout):
        out = []
        if not self.live:
            return out
        ready, _, _ = select.select(list(self.live), [], [], timeout)
        now = _time()
        for fd in list(self.live):
            j = self.live[fd]
            if fd in ready:
                b = os.read(fd, 1 << 20)
                if b:
                    j["buf"] += b
                    continue
                out.append(self._finish(fd))
            elif now - j["t0"] > SCENARIO_WALL:
                j["timeout"] = True
                out.append(self._finish(fd))
        return out

    def _finish(self, fd):
        j = self.live.pop(fd)
        os.close(fd)
        try:
            os.killpg(j["pid"], signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        try:
            _kill(j["pid"], signal.SIGKILL)
        except ProcessLookupError:
            pass
        _waitpid(j["pid"], 0)
        shutil.rmtree(j["base"], ignore_errors=True)
        if j.get("timeout"):
            res = {"status": "error", "kind": "wall-timeout",
                   "msg": f"scenario exceeded {SCENARIO_WALL} s of real time"}
        else:
            try:
                res = pickle.loads(j["buf"])
            except Exception:
                res = {"status": "error", "kind": "scenario-died", "msg": "no result"}
        res["wall"] = _time() - j["t0"]
        return j["key"], j["scn"], res

    def stop(self):
        for fd in list(self.live):
            self._finish(fd)

    def map(self, scns):
        """Run a list of scenarios, results in order."""
        results = [None] * len(scns)
        todo = list(enumerate(scns))[::-1]
        while todo or self.live:
            while todo and len(self.live) < self.procs:
                i, s = todo.pop()
                self.start(i, s)
            for key, scn, res in self.poll(1.0):
                results[key] = res
        return results


def scenario_for(mod, seed):
    rng = random.Random(f"{mod.PROP}|{seed}")
    scn = mod.gen(rng)
    scn["seed"] = seed
    return scn


# -- minimisation ----------------------------------------------------------------
def _paths(obj, pre=(), row=False):
    """The lists of a scenario that can be shortened (not those that stand for a tuple)."""
    if isinstance(obj, dict):
        for k in obj:
            yield from _paths(obj[k], pre + (k,))
    elif isinstance(obj, list):
        kinds = {"number" if isinstance(v, (int, float)) and not isinstance(v, bool) else type(v).__name__ for v in obj}
        if not row and len(kinds) <= 1:
            yield pre, obj
        for i, v in enumerate(obj):
            yield from _paths(v, pre + (i,), row=kinds == {"list"})


def _get(obj, path):
    for p in path:
        obj = obj[p]
    return obj


def candidates(scn, mod):
    """Smaller scenarios, most aggressive first."""
    keep = set(getattr(mod, "KEEP", ()))
    lists = [(p, l) for p, l in _paths(scn) if l and not (set(map(str, p)) & keep)]
    lists.sort(key=lambda x: (-len(x[1])))
    for p, l in lists:
        n = len(l)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                c = json.loads(json.dumps(scn))
                tgt = _get(c, p)
                del tgt[i:i + size]
                yield c
            if size == 1:
                break
            size //= 2
    for key, lo in getattr(mod, "SHRINK_INT", {}).items():
        if isinstance(scn.get(key), int) and not isinstance(scn.get(key), bool):
            v = scn[key]
            for nv in sorted({lo, (v + lo) // 2, v - 1}):
                if lo <= nv < v:
                    c = json.loads(json.dumps(scn))
                    c[key] = nv
                    yield c
    for key, val in getattr(mod, "SHRINK_TO", {}).items():
        if key in scn and scn[key] != val:
            c = json.loads(json.dumps(scn))
            c[key] = val
            yield c


def minimise(mod, scn, kind, budget_s, procs):
    pool = Pool(mod, procs)
    t0 = _time()
    best = scn
    tried = {json.dumps(scn, sort_keys=True)}
    runs = 0
    improved = True
    valid = getattr(mod, "valid", lambda s: True)
    while improved and _time() - t0 < budget_s:
        improved = False
        cand = []
        gen = candidates(best, mod)
        while _time() - t0 < budget_s:
            cand = []
            for c in gen:
                k = json.dumps(c, sort_keys=True)
                if k in tried:
                    continue
                tried.add(k)
                try:
                    if not valid(c):
                        continue
                except Exception:
                    continue
                cand.append(c)
                if len(cand) >= procs:
                    break
            if not cand:
                break
            results = pool.map(cand)
            runs += len(cand)
            hit = next((c for c, r in zip(cand, results)
                        if r["status"] == "violation" and r["kind"] == kind), None)
            if hit is not None:
                best = hit
                improved = True
                break
    return best, runs


# -- known findings -----------------------------------------------------------------
def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("known", []) if k["property"] == prop]


def match_known(known, res):
    for k in known:
        if res["kind"] == k["kind"] and k["match"] in res["msg"]:
            return k
    return None


def load(prop):
    seams.install()
    os.environ.setdefault("MPLBACKEND", "Agg")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    mod = importlib.import_module(f"sim.props.{prop.lower()}")
    if hasattr(mod, "preload"):
        mod.preload()
    import posydon
    where = os.path.realpath(posydon.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError(f"posydon imported from {where}, expected {REPO}")
    gc.collect()
    gc.freeze()
    return mod


def write_replay(mod, scn, res, seed, tag, extra=None):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{mod.PROP}-{tag}.json")
    with open(path, "w") as f:
        json.dump({"property": mod.PROP, "seed": seed, "kind": res["kind"],
                   "message": res["msg"], "loghash": res["loghash"],
                   "faults_fired": res["fired"], "scenario": scn,
                   "event_trace": res.get("log", []), "node_output": res.get("out", {}),
                   **(extra or {})}, f, indent=1, default=str)
    return path


def replay(mod, path):
    with open(path) as f:
        rp = json.load(f)
    res = Pool(mod, 1).map([rp["scenario"]])[0]
    print(json.dumps({k: res.get(k) for k in ("status", "kind", "msg", "loghash")}, indent=1))
    if res["status"] == "violation":
        same = res["loghash"] == rp["loghash"] and res["kind"] == rp["kind"]
        print(f"reproduced: kind={res['kind']} identical_event_log={same}")
        print(f"VIOLATION property={mod.PROP} replay={path}")
        return 1
    print("not reproduced on this tree")
    return 0


def check(prop, tier, seed, runs=None, wall=None, verbose=False, start=0):
    t0 = _time()
    mod = load(prop)
    t_load = _time() - t0
    q = mod.QUICK if tier == "quick" else mod.THOROUGH
    runs = runs or q["runs"]
    wall = wall or q["wall"]
    known = known_findings(prop)
    pool = Pool(mod, NPROC)
    directed = list(getattr(mod, "directed", lambda: [])())
    tasks = []
    for i, s in enumerate(directed):
        s = dict(s)
        s.setdefault("seed", i)
        s["directed"] = i
        tasks.append((f"d{i}", s))

    def stream():
        for t in tasks:
            yield t
        for i in range(start, start + runs):
            sd = seed * 1_000_003 + i
            yield sd, None
    it = stream()
    agg = dict(n=0, ok=0, events=0, simtime=0.0, fired={}, probes={}, switches=0,
               hashes=set(), nodes=0, unfired=0, info={})
    violation = None
    errors = []
    known_hit = {}
    samples = []
    exhausted = False
    tstart = _time()
    nontriv = set()
    while True:
        while not exhausted and len(pool.live) < NPROC:
            if _time() - tstart > wall:
                exhausted = True
                break
            try:
                key, scn = next(it)
            except StopIteration:
                exhausted = True
                break
            if scn is None:
                scn = scenario_for(mod, key)
            pool.start(key, scn)
        if not pool.live:
            break
        for key, scn, res in pool.poll(0.5):
            agg["n"] += 1
            for k in ("fired", "probes"):
                for a, b in res.get(k, {}).items():
                    agg[k][a] = agg[k].get(a, 0) + b
            for a, b in (res.get("info") or {}).items():
                if isinstance(b, (int, float)):
                    agg["info"][a] = agg["info"].get(a, 0) + b
            agg["events"] += res.get("events", 0)
            agg["simtime"] += res.get("simtime", 0.0)
            agg["switches"] += res.get("switches", 0)
            agg["nodes"] += res.get("nodes", 0)
            agg["unfired"] += res.get("unfired", 0)
            h = res.get("loghash")
            if h:
                agg["hashes"].add(h)
                if mod.nontrivial(scn, res) if hasattr(mod, "nontrivial") else res.get("events", 0) > 1:
                    nontriv.add(h + hashlib.sha256(json.dumps(
                        {k: v for k, v in scn.items() if k not in ("seed", "sched_seed", "list_seed")},
                        sort_keys=True, default=str).encode()).hexdigest())
            if verbose:
                print(key, res["status"], res.get("kind", ""), f"{res.get('wall', 0):.2f}s",
                      res.get("events"), res.get("fired"), (res.get("msg") or "")[:300], flush=True)
            if res["status"] == "ok":
                agg["ok"] += 1
                if len(samples) < 2 and key not in (None,) and not str(key).startswith("d"):
                    samples.append({"seed": key, "scenario": scn, "events": res["events"],
                                    "faults_fired": res["fired"], "simulated_s": res["simtime"],
                                    "event_log_sha256": res["loghash"]})
            elif res["status"] == "violation":
                k = match_known(known, res)
                if k is not None:
                    known_hit.setdefault(k["id"], (k, key))
                elif violation is None:
                    violation = (key, scn, res)
                    exhausted = True
            else:
                errors.append((key, scn, res))
                if len(errors) >= 3:
                    exhausted = True
        if violation is not None:
            pool.stop()
            break
    search_wall = _time() - tstart
    code = 0
    vlines = []
    for k, key in known_hit.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if violation is None and errors:
        # an execution that the harness could not judge is not a pass
        key, scn, res = errors[0]
        print(f"HARNESS-ERROR property={prop} seed={key} kind={res['kind']}\n{res['msg']}",
              flush=True)
        again = Pool(mod, 1).map([scn])[0]
        if again["status"] == "ok":
            # transient (e.g. memory pressure on the host): the rerun decided it
            errors = errors[1:]
            print("re-executed without error")
        if errors:
            if res["kind"] in ("wall-timeout",) and again["status"] == "error":
                violation = (key, scn, {**again, "kind": "hang", "loghash": "",
                                        "fired": {}, "msg": "execution does not finish"})
            else:
                code = 2
    if violation is not None:
        key, scn, res = violation
        print(f"violation found: seed={key} kind={res['kind']}\n{res['msg']}", flush=True)
        nmin = 0
        if res["kind"] != "hang":
            small, nmin = minimise(mod, scn, res["kind"], 60 if tier == "quick" else 240, NPROC)
            again = Pool(mod, 1).map([dict(small, keep_log=True)])[0]
            if again["status"] == "violation" and again["kind"] == res["kind"]:
                scn, res = dict(small, keep_log=True), again
        path = write_replay(mod, scn, res, key, hashlib.sha256(
            json.dumps(scn, sort_keys=True, default=str).encode()).hexdigest()[:10],
            {"minimisation_runs": nmin})
        print(f"minimised: {res['msg'][:1500]}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        code = 1
    wall_s = _time() - t0
    cov = {
        "evaluations": agg["n"],
        "distinct_nontrivial": len(nontriv),
        "rule": getattr(mod, "RULE", "one case = one seeded scenario executed by the simulator; "
                        "non-trivial if more than one seam event happened; distinct by "
                        "event log and scenario content"),
        "samples": samples or [{"note": "no passing sample in this run"}],
        "simulated_runs": agg["n"],
        "directed_scenarios": len(directed),
        "runs_per_hour": round(agg["n"] / max(search_wall, 1e-9) * 3600),
        "seeds": {"base": seed, "first": seed * 1_000_003 + start, "count": max(0, agg["n"] - len(directed))},
        "simulated_seconds": round(agg["simtime"], 3),
        "events": agg["events"],
        "context_switches": agg["switches"],
        "simulated_nodes": agg["nodes"],
        "faults_fired": dict(sorted(agg["fired"].items())),
        "faults_configured_but_not_reached": agg["unfired"],
        "probes": dict(sorted(agg["probes"].items())),
        "workload": {k: round(v, 3) for k, v in sorted(agg["info"].items())},
        "distinct_event_logs": len(agg["hashes"]),
        "distinct_measure": "sha256 over the ordered event log (virtual time, node, event class, path, injected fault)",
        "components": getattr(mod, "COMPONENTS", {}),
        "known_findings_hit": sorted(known_hit),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": cov, "wall_s": round(wall_s, 2), "violations": 1 if code == 1 else 0,
          "assumptions": getattr(mod, "ASSUMPTIONS", [])}
    os.makedirs(os.path.join(EVID), exist_ok=True)
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop} {tier}: {agg['n']} runs, {agg['events']} events, "
          f"{sum(agg['fired'].values())} faults fired, load {t_load:.1f}s, search {search_wall:.1f}s, "
          f"exit {code}")
    return code


def survey(prop, seed, runs, start=0):
    """Development aid: run everything, list violations by kind."""
    mod = load(prop)
    scns = [(f"d{i}", dict(s, seed=i)) for i, s in enumerate(getattr(mod, "directed", lambda: [])())]
    scns += [(seed * 1_000_003 + i, scenario_for(mod, seed * 1_000_003 + i))
             for i in range(start, start + runs)]
    t0 = _time()
    res = Pool(mod, NPROC).map([s for _, s in scns])
    by = {}
    fired, probes, unf = {}, {}, 0
    for (key, s), r in zip(scns, res):
        if r["status"] != "ok":
            by.setdefault((r["status"], r["kind"]), []).append((key, r["msg"]))
        for a, b in r.get("fired", {}).items():
            fired[a] = fired.get(a, 0) + b
        for a, b in r.get("probes", {}).items():
            probes[a] = probes.get(a, 0) + b
        unf += r.get("unfired", 0)
    for k, v in sorted(by.items(), key=lambda x: -len(x[1])):
        print("=" * 70)
        print(k, len(v), [x[0] for x in v[:12]])
        print(v[0][1][-1800:])
    print(f"{len(scns)} runs, {sum(len(v) for v in by.values())} not ok, {_time()-t0:.1f}s, mean wall "
          f"{sum(r['wall'] for r in res)/len(res):.2f}s")
    print("fired", fired, "unfired", unf)
    print("probes", probes)
    return 0


def determinism(prop, seed, count):
    """Execute each scenario twice and compare event logs and verdicts."""
    mod = load(prop)
    scns = [scenario_for(mod, seed * 1_000_003 + i) for i in range(count)]
    a = Pool(mod, NPROC).map(scns)
    b = Pool(mod, max(1, NPROC // 3)).map(scns)
    bad = [i for i, (x, y) in enumerate(zip(a, b))
           if (x.get("loghash"), x["status"], x.get("kind"), x.get("msg"), x.get("info"))
           != (y.get("loghash"), y["status"], y.get("kind"), y.get("msg"), y.get("info"))]
    print(f"{prop}: {count} scenarios executed twice, {len(bad)} differ {bad[:10]}")
    dig = hashlib.sha256("".join(x.get("loghash", "") + x["status"] for x in a).encode()).hexdigest()
    print("digest", dig)
    return 1 if bad else 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--determinism", type=int)
    ap.add_argument("--survey", type=int)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    if a.replay:
        return replay(load(a.property), a.replay)
    if a.survey is not None:
        return survey(a.property, a.seed, a.survey, a.start)
    if a.determinism:
        return determinism(a.property, a.seed, a.determinism)
    return check(a.property, a.tier, a.seed, a.runs, a.wall, a.v, a.start)


if __name__ == "__main__":
    sys.exit(main())

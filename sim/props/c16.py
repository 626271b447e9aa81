"""C16: compressing simulation output never loses a data file."""
import os
import random
import sys
import zlib

from .. import kernel, seams
from ..kernel import Violation

PROP = "C16"
QUICK = {"runs": 4000, "wall": 45}
THOROUGH = {"runs": 300000, "wall": 3000}
KEEP = set()
SHRINK_INT = {"sched_seed": 0, "list_seed": 0}
SHRINK_TO = {"nest": False, "fault": None, "gz": None, "verbose": False, "debug": False, "mode": "compress", "dirname": "grid"}
RULE = ("one case = one tree of simulation output (with leftovers, decoys beside it and odd names) and a sequence of "
        "compression or test-mode runs with a fault or kill each, ended by a faultless compression; non-trivial if a "
        "fault hit; distinct by event log and scenario")
COMPONENTS = {"real": ["posydon.utils.compress_mesa_files (compress_dir, get_size, set_up_test, command line)",
                       "/bin/sh, gzip", "file system (scratch)"],
              "stub": ["failing and killed gzip processes (wrapper around the real gzip)", "disk errors",
                       "process death"]}
ASSUMPTIONS = ["process death, not power loss", "a file that exists next to a complete compressed file of other "
               "content is kept with it, not compressed"]
DIRS = ["grid", "grid", "my grid", "gr'id", "a;b", "x$HOME", "(grid)", "g&h", "back`tick", "star*", "-grid", "t\\n"]
EXT = [".data", ".mod", ".txt"]

WRAPPER = """#!/bin/bash
case " $* " in
  *" -t"*|*" -d"*|*" -cd"*|*" -dc"*|*" --test"*|*" --decompress"*|*" -l"*) exec {real} "$@";;
esac
n=$(cat {dir}/n 2>/dev/null || echo 0); n=$((n+1)); echo $n > {dir}/n
if [ "$n" != "$SIM_GZ_AT" ]; then exec {real} "$@"; fi
f="${{@: -1}}"; out=file; force=no
for a in "$@"; do case "$a" in
  --) break;; -*c*) out=std;; -*f*) force=yes;; esac; done
if [ "$out" = file ] && [ -e "$f.gz" ] && [ $force = no ]; then exec {real} "$@"; fi
echo "$SIM_GZ_DO" > {dir}/hit
[ -f "$f" ] || exec {real} "$@"
case "$SIM_GZ_DO" in
  missing) echo "sh: gzip: not found" >&2; exit 127;;
  enospc) echo "gzip: No space left on device" >&2; [ $force = yes ] && rm -f -- "$f.gz"; exit 1;;
  eio) echo "gzip: $f: Input/output error" >&2; exit 1;;
esac
{real} -1 -c -- "$f" > {dir}/whole
size=$(stat -c %s {dir}/whole)
case "$SIM_GZ_DO" in
  kill0) k=0;; kill1) k=$((size/2));; kill2) k=$((size-4));; kill3) k=$size;;
esac
if [ $out = std ]; then head -c $k {dir}/whole
else
  rm -f -- "$f.gz"; head -c $k {dir}/whole > "$f.gz"
fi
touch {dir}/die
kill -9 $$
"""


def preload():
    import tqdm
    tqdm.tqdm.monitor_interval = 0
    from posydon.utils import compress_mesa_files  # noqa: F401


def gen(rng):
    runs = []
    for i in range(rng.randint(1, 4)):
        files = []
        for f in rng.sample(["binary_history.data", "out.txt", "final_star1.mod", "LOGS1/history.data",
                             "LOGS1/profile1.data", "LOGS2/final_profile.data", "odd name.txt", "quote'd.data",
                             "run.tar.txt", "empty.data", "core_mass.data", "LOGS1/cores.txt",
                             "uncore.mod"], rng.randint(1, 5)):
            u = rng.random()
            st = "plain"
            if u < 0.08:
                st = "gz"            # compressed already
            elif u < 0.16:
                st = "both"          # killed after the copy was complete
            elif u < 0.24:
                st = "half"          # killed while the copy was written
            elif u < 0.29:
                st = "differ"        # beside an unrelated compressed file
            elif u < 0.33:
                st = rng.choice(["link", "dead"])     # symbolic link to a file elsewhere
            files.append([f, st])
        if rng.random() < 0.15:
            files.append([rng.choice(["LOGS3", "photos/old", "shared_grid_index_0"]), "dirlink"])
        for f in rng.sample(["core", "core.4711", "LOGS1/core.1", "inlist", "grid.h5", "model.data.keep", "score.bin",
                             "photos/x001", "corefile", "core-notes", "encore"], rng.randint(0, 3)):
            files.append([f, "plain"])
        runs.append({"name": rng.choice(["run_grid_index_{}", "m1_2.0 x_grid_index_{}", "single_grid_index_{}",
                                         "notes_{}", "r_grid_index_{}"]).format(i), "files": files})
    att = []
    for _ in range(rng.randint(1, 3)):
        a = {"mode": "compress" if rng.random() < 0.85 else "test", "verbose": rng.random() < 0.3,
             "debug": rng.random() < 0.2, "abs": rng.random() < 0.5, "dsr": rng.choice([0.0, 0.5, 1.0]),
             "fault": None, "gz": None}
        u = rng.random()
        if u < 0.5:
            a["gz"] = [rng.randint(1, 6), rng.choice(["kill0", "kill1", "kill1", "kill2", "kill3", "enospc", "eio",
                                                      "missing"])]
        elif u < 0.85:
            c = rng.choice([["*", 40, "kill"], ["fs.remove", 3, "kill"], ["proc.system", 6, "kill"],
                            ["proc.done", 6, "kill"], ["fs.remove", 3, "eacces"], ["fs.list", 6, "eacces"],
                            ["fs.open_w", 4, "enospc"], ["fs.write", 4, "enospc"], ["fs.close", 4, "torn"],
                            ["fs.rename", 3, "eio"], ["fs.open_r", 4, "eio"]])
            a["fault"] = {"cls": c[0], "n": rng.randint(1, c[1]), "do": c[2]}
        att.append(a)
    att.append({"mode": "compress", "verbose": rng.random() < 0.3, "debug": False, "abs": rng.random() < 0.5,
                "dsr": 0.0, "fault": None, "gz": None})
    return {"dirname": rng.choice(DIRS), "runs": runs, "attempts": att, "nest": rng.random() < 0.6,
            "sched_seed": 1, "list_seed": rng.randrange(1 << 30)}


def directed():
    plain = {"mode": "compress", "verbose": True, "debug": False, "abs": False, "dsr": 0.0, "fault": None, "gz": None}
    runs = [{"name": "run_grid_index_0", "files": [["binary_history.data", "plain"], ["out.txt", "plain"],
                                                   ["LOGS1/history.data", "plain"], ["core.3", "plain"], ["core_mass.data", "plain"], ["corefile", "plain"], ["LOGS3", "dirlink"],
                                                   ["inlist", "plain"]]},
            {"name": "run_grid_index_1", "files": [["out.txt", "half"], ["final_star1.mod", "both"], ["a.data", "dead"], ["b.data", "link"],
                                                   ["empty.data", "plain"], ["odd name.txt", "differ"]]},
            {"name": "notes", "files": [["out.txt", "plain"], ["core", "plain"]]}]
    base = {"dirname": "grid", "nest": True, "runs": runs, "sched_seed": 1, "list_seed": 1}
    out = []
    for d in sorted(set(DIRS)):
        out.append(dict(base, dirname=d, attempts=[plain]))
        out.append(dict(base, dirname=d, attempts=[dict(plain, mode="test", dsr=1.0), plain]))
    for do in ("kill0", "kill1", "kill2", "kill3", "enospc", "eio", "missing"):
        for at in (1, 2, 4):
            out.append(dict(base, attempts=[dict(plain, gz=[at, do]), plain]))
    out.append(dict(base, attempts=[dict(plain, gz=[1, "kill1"]), dict(plain, gz=[1, "kill2"]), plain, plain]))
    return out


def valid(s):
    return bool(s["attempts"]) and bool(s["runs"]) and s["attempts"][-1]["mode"] == "compress" \
        and s["attempts"][-1]["gz"] is None and s["attempts"][-1]["fault"] is None \
        and len({r["name"] for r in s["runs"]}) == len(s["runs"])


def pack(data):
    c = zlib.compressobj(1, zlib.DEFLATED, 31)
    return c.compress(data) + c.flush()


def unpack(data):
    d = zlib.decompressobj(31)
    try:
        out = d.decompress(data)
    except zlib.error:
        return None
    return out if d.eof and not d.unused_data else None


def content(run, f):
    if f == "empty.data":
        return b""
    r = random.Random(f"{run}|{f}")
    return b"".join(b"%d %.6f\n" % (i, r.random()) for i in range(r.randint(1, 400)))


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def tree(top, skip=()):
    out = {}
    for d, dirs, files in os.walk(top):
        dirs.sort()
        for f in files:
            p = os.path.join(d, f)
            r = os.path.relpath(p, top)
            if any(r == s or r.startswith(s + "/") for s in skip):
                continue
            if os.path.islink(p):
                out[r] = ("link", os.readlink(p))
            else:
                with open(p, "rb") as fh:
                    out[r] = fh.read()
    return out


def tool(scn, att, ctl):
    def body():
        from posydon.utils import compress_mesa_files as cm
        node = kernel.NODE

        def shell(name):
            def call(*args, **kwargs):
                node.point("proc.system", str(args[0]))
                node.muted += 1
                try:
                    ret = seams.real[name](*args, **kwargs)
                finally:
                    node.muted -= 1
                if os.path.exists(os.path.join(ctl, "die")):
                    node.call({"t": "die"})
                node.point("proc.done", str(args[0]))
                return ret
            return call
        for name in ("system", "run", "call", "check_call", "check_output"):
            node.hooks[name] = shell(name)
        d = os.path.join(node.root, "work", scn["dirname"])
        d = d if att["abs"] else os.path.join(".", scn["dirname"])
        sys.argv = ["compress-mesa"] + (["-td", "../test dir", "-dsr", str(att["dsr"])] if att["mode"] == "test"
                                        else []) + (["-v"] if att["verbose"] else []) \
            + (["-d"] if att["debug"] else []) + [d]
        cm._compress_MESA()
    return body


def run(scn, sim):
    work = os.path.join(sim.root, "work")
    grid = os.path.join(work, scn["dirname"])
    # decoys: what a path that is split or expanded by a shell would hit
    for p in ("work/my", "work/a", "work/b", "work/x.data", "work/grid.data", "work/starfish/x_grid_index_9/out.txt",
              "work/g", "work/h", "work/gr", "elsewhere/target.data", "elsewhere/run_grid_index_7/history.data",
              "elsewhere/run_grid_index_7/core.5", "x", "work/notes.txt", "work/core"):
        put(os.path.join(sim.root, p), b"decoy " + p.encode() * 5)
    data, differ, links, cores = {}, {}, [], []
    for r in scn["runs"]:
        isrun = "_grid_index_" in r["name"]
        for f, st in r["files"]:
            p = os.path.join(grid, "sub grid" if scn["nest"] else "", r["name"], f)
            rel = os.path.relpath(p, sim.root)
            c = content(r["name"], f)
            if st == "dirlink":
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if not os.path.lexists(p):
                    os.symlink(os.path.join(sim.root, "elsewhere", "run_grid_index_7"), p)
                continue
            if st in ("link", "dead"):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                os.symlink(os.path.join(sim.root, "elsewhere", "target.data" if st == "link" else "gone.data"), p)
                links.append(rel)
                continue
            if os.path.basename(f).split(".")[0] == "core" and isrun:
                put(p, c)
                cores.append(rel)
                continue
            data[rel] = c
            if st != "gz":
                put(p, c)
            if st in ("gz", "both"):
                put(p + ".gz", pack(c))
            elif st == "half":
                z = pack(c)
                put(p + ".gz", z[:max(0, len(z) - 1 - len(c) // 3)])
            elif st == "differ":
                differ[rel] = b"earlier result of " + f.encode()
                put(p + ".gz", pack(differ[rel]))
    os.makedirs(os.path.join(sim.root, "test dir"), exist_ok=True)
    wrap = os.path.join(sim.metadir, "bin")
    os.makedirs(wrap)

    def die(node, msg):
        sim.count_fault("kill@gzip")
        sim.kill(node, "gzip killed")
        return None
    sim.on_msg["die"] = die
    hits = 0
    for i, att in enumerate(scn["attempts"]):
        ctl = os.path.join(sim.metadir, f"ctl{i}")
        os.makedirs(ctl)
        with open(os.path.join(wrap, "gzip"), "w") as f:
            f.write(WRAPPER.format(real="/usr/bin/gzip", dir=ctl))
        os.chmod(os.path.join(wrap, "gzip"), 0o755)
        before = tree(sim.root)
        sim.faults = [dict(att["fault"])] if att["fault"] else []
        env = {"PATH": wrap + ":" + os.environ.get("PATH", "/usr/bin:/bin"),
               "SIM_GZ_AT": str(att["gz"][0]) if att["gz"] else "0", "SIM_GZ_DO": att["gz"][1] if att["gz"] else ""}
        if att["mode"] == "test" and os.path.isdir(os.path.join(sim.root, "test dir")):
            import shutil
            shutil.rmtree(os.path.join(sim.root, "test dir"))
            os.makedirs(os.path.join(sim.root, "test dir"))
        node = sim.solo(f"tool{i}", tool(scn, att, ctl), cwd=work, env=env)
        hit = any(f.get("used") for f in sim.faults) or os.path.exists(os.path.join(ctl, "hit"))
        if os.path.exists(os.path.join(ctl, "hit")) and att["gz"] and not att["gz"][1].startswith("kill"):
            sim.count_fault("gzip." + att["gz"][1])
        hits += hit
        after = tree(sim.root)
        check(scn, i, att, node, hit, before, after, data, differ, links, cores, sim.root)
    return {"hits": hits}


def check(scn, i, att, node, hit, before, after, data, differ, links, cores, root):
    who = f"run {i + 1} ({att['mode']})"
    gridrel = os.path.join("work", scn["dirname"])
    killed = node.state == "killed"
    if att["mode"] == "test":
        for p in sorted(set(before) | set(after)):
            if p.startswith("test dir/"):
                continue
            if before.get(p) != after.get(p):
                raise Violation("test-mode", f"{who} changed {p} although it only sets up a test directory")
        for p, c in after.items():
            if not p.startswith("test dir/") or hit:
                continue
            src = os.path.join(gridrel, p[len("test dir/"):])
            want = before.get(src)
            if want is None:           # below a linked folder
                want = before.get(os.path.relpath(os.path.realpath(os.path.join(root, src)), os.path.realpath(root)))
            if isinstance(want, tuple):
                want = before.get(os.path.relpath(want[1], root), want)
            if c != want:
                raise Violation("test-copy", f"{who}: {p} is not a copy of {src}")
        if not hit and node.exc is not None and not any(isinstance(c, tuple) for c in before.values()):
            raise Violation("failed", f"{who} fails without a fault: {node.exc[0]}: {node.exc[1]}")
        return
    for p in sorted(set(before) | set(after)):
        inside = p.startswith(gridrel + "/")
        a, b = before.get(p), after.get(p)
        if not inside and a != b:
            raise Violation("outside", f"{who} {'deleted' if b is None else 'created' if a is None else 'changed'} {p}, "
                                       f"which is outside of the given directory")
    for rel, c in data.items():
        have = after.get(rel)
        z = after.get(rel + ".gz")
        if have != c and (rel in differ or not isinstance(z, bytes) or unpack(z) != c):
            raise Violation("lost", f"after {who}{' was killed' if killed else ''} the content of {rel} is neither in "
                            f"the file ({'gone' if have is None else 'changed'}) nor in its compressed copy "
                            f"({'missing' if z is None else 'incomplete or different'})")
        if rel in differ and unpack(z or b"") != differ[rel]:
            raise Violation("lost", f"{who} lost the content of {rel}.gz, which was no copy of {rel}")
        name = os.path.basename(rel)
        wanted = os.path.splitext(name)[1] in EXT and "_grid_index_" in rel
        if not wanted and (have != before.get(rel) or z != before.get(rel + ".gz")):
            raise Violation("touched", f"{who} compressed or removed {rel}, which is not to be compressed")
    for rel in links:
        if after.get(rel) is None and after.get(rel + ".gz") is None:
            raise Violation("lost", f"{who} removed the link {rel}")
    if killed or hit:
        return
    if node.exc is not None:
        raise Violation("failed", f"{who} fails without a fault: {node.exc[0]}: {node.exc[1]}")
    for rel, c in data.items():
        wanted = os.path.splitext(rel)[1] in EXT and "_grid_index_" in rel and rel not in differ
        if wanted and rel in after:
            raise Violation("incomplete", f"{who} met no fault but {rel} is not compressed")
    for rel in cores:
        if rel in after:
            raise Violation("incomplete", f"{who} met no fault but {rel} is not removed")
    known = set(data) | {r + ".gz" for r in data} | set(links) | set(cores)
    for p in after:
        if p.startswith(gridrel + "/") and p not in known and p not in before:
            raise Violation("litter", f"{who} left {p} behind")


def nontrivial(scn, res):
    return res.get("info", {}).get("hits", 0) > 0

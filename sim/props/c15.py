"""C15: data downloads install verified data or leave a retryable state."""
import hashlib
import io
import os
import random
import sys
import tarfile
import urllib.error

from .. import kernel
from ..kernel import Violation

PROP = "C15"
QUICK = {"runs": 4000, "wall": 45}
THOROUGH = {"runs": 400000, "wall": 3000}
KEEP = set()
SHRINK_INT = {"sched_seed": 0, "list_seed": 0}
SHRINK_TO = {"fault": None, "net": {}, "verbose": False, "cli": False, "stale": []}
RULE = ("one case = a data directory with earlier content and a sequence of download attempts, each with its own "
        "network behaviour and disk faults or a kill, ended by a faultless attempt; non-trivial if an attempt before "
        "the last one failed; distinct by event log and scenario")
COMPONENTS = {"real": ["posydon.utils.data_download (download_one_dataset, data_download, command line)",
                       "urllib.request.urlretrieve", "tarfile, gzip", "file system (scratch)"],
              "stub": ["the server (urlopen)", "the catalogue of data sets (own small archives)", "disk errors",
                       "process death"]}
ASSUMPTIONS = ["process death, not power loss", "one download at a time in a data directory"]

SETS = {}          # name -> {"files": {path: bytes}, "tar": bytes}
NAMES = ["A", "B", "C", "U"]                       # U: published without a checksum
COMPLETE = {"SET": ["A", "B"], "ALL": ["B", "C", "A"]}
URL = "https://zenodo.org/record/{}/files/data_{}.tar.gz"
NETS = ["refused", "http404", "http503", "reset", "short", "short_nolen", "flip", "other", "tampered", "html", "empty",
        "stall", "dns"]
BADNET = set(NETS) - {"stall"}
SILENT = {"short_nolen", "flip", "other", "tampered", "html", "empty"}   # arrive without an error of the network


def make_tar(files, dirs=()):
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode="w:gz", compresslevel=1) as t:
        for d in dirs:
            ti = tarfile.TarInfo(d)
            ti.type = tarfile.DIRTYPE
            ti.mode = 0o755
            t.addfile(ti)
        for name, data in files.items():
            ti = tarfile.TarInfo(name)
            ti.size = len(data)
            ti.mode = 0o644
            t.addfile(ti, io.BytesIO(data))
    b = bytearray(buf.getvalue())
    b[4:8] = b"\0\0\0\0"                            # no time stamp
    return bytes(b)


def rbytes(tag, n):
    return random.Random(tag).randbytes(n) if n else b""


def preload():
    import tqdm
    tqdm.tqdm.monitor_interval = 0
    from posydon.utils import data_download, datasets  # noqa: F401
    layouts = {
        "A": {"POSYDON_data/readme.txt": 40, "POSYDON_data/HMS-HMS/1e+00_Zsun.h5": 70000,
              "POSYDON_data/HMS-HMS/empty.dat": 0, "POSYDON_data/single_HMS/grid.h5": 9000,
              "POSYDON_data/single_HMS/table.csv": 200},
        "B": {"POSYDON_data/CO-HMS/1e+00_Zsun.h5": 30000, "POSYDON_data/auxiliary/list.csv": 500,
              "POSYDON_data/auxiliary/deep/er/x.npz": 12000},
        "C": {"POSYDON_data/one.h5": 300},
        "U": {"POSYDON_data/pre/1.h5": 20000, "POSYDON_data/pre/2.h5": 100}}
    for k, lay in layouts.items():
        files = {p: rbytes(f"{k}|{p}", n) for p, n in lay.items()}
        dirs = sorted({os.path.dirname(p) for p in files})
        tam = {p: rbytes(f"tampered|{p}", max(1, n // 2)) for p, n in lay.items()}
        tam["POSYDON_data/planted.txt"] = b"planted"
        SETS[k] = {"files": files, "tar": make_tar(files, dirs if k != "C" else ()), "tampered": make_tar(tam)}


# -- scenarios ---------------------------------------------------------------
def gen_fault(rng):
    if rng.random() < 0.5:
        c = rng.choice([["*", 150], ["net.recv", 12], ["fs.write", 30], ["fs.read", 20], ["fs.remove", 2],
                        ["fs.open_w", 8], ["fs.close", 8], ["fs.open_r", 3], ["fs.mkdir", 4], ["fs.rename", 2]])
        return {"cls": c[0], "n": rng.randint(1, c[1]), "do": "kill"}
    c = rng.choice([["fs.write", 30, "enospc"], ["fs.write", 30, "short"], ["fs.close", 8, "torn"],
                    ["fs.read", 20, "eio"], ["fs.open_r", 3, "eio"], ["fs.open_w", 8, "eacces"],
                    ["fs.open_w", 8, "enospc"], ["fs.remove", 2, "eacces"], ["fs.mkdir", 4, "enospc"],
                    ["fs.rename", 2, "eio"], ["fs.read", 3, "eio"]])
    return {"cls": c[0], "n": rng.randint(1, c[1]), "do": c[2]}


def gen_attempt(rng, what):
    a = {"what": what, "md5": rng.random() < 0.88, "verbose": rng.random() < 0.3, "cli": rng.random() < 0.3,
         "net": {}, "fault": None}
    for s in COMPLETE.get(what, [what]):
        if rng.random() < 0.3:
            a["net"][s] = {"kind": rng.choice(NETS), "at": rng.random()}
    if rng.random() < 0.55:
        a["fault"] = gen_fault(rng)
    return a


def gen(rng):
    whats = NAMES + list(COMPLETE) + ["A", "B", "SET"]
    main = rng.choice(whats)
    att = [gen_attempt(rng, main if rng.random() < 0.75 else rng.choice(whats)) for _ in range(rng.randint(1, 4))]
    att.append({"what": main, "md5": rng.random() < 0.8, "verbose": rng.random() < 0.3, "cli": rng.random() < 0.3,
                "net": {}, "fault": None})
    stale = []
    for k in NAMES:
        u = rng.random()
        if u < 0.1:
            stale.append([k, "tar", rng.choice(["half", "junk", "empty", "full"])])
        elif u < 0.25:
            stale.append([k, "old", rng.choice(["all", "some"])])
        elif u < 0.35:
            stale.append([k, "folder", rng.choice(["beside", "inside"])])   # own folder with the name of a data set
    return {"attempts": att, "stale": stale, "block": rng.choice([700, 4096, 60000]), "sched_seed": 1, "list_seed": 1}


def directed():
    last = {"what": "SET", "md5": True, "verbose": True, "cli": True, "net": {}, "fault": None}
    out = []
    for k in NETS:
        for md5 in (True, False):
            for s in ("A", "B"):
                out.append({"attempts": [dict(last, md5=md5, net={s: {"kind": k, "at": 0.5}}), last], "stale": []})
    for f in ({"cls": "fs.read", "n": 1, "do": "eio"}, {"cls": "fs.open_r", "n": 1, "do": "eio"},
              {"cls": "fs.remove", "n": 1, "do": "eacces"}):
        out.append({"attempts": [dict(last, net={"A": {"kind": "tampered", "at": 0}}, fault=f), last], "stale": []})
    for f in ({"cls": "net.recv", "n": 2, "do": "kill"}, {"cls": "fs.read", "n": 1, "do": "kill"},
              {"cls": "fs.remove", "n": 1, "do": "kill"}, {"cls": "fs.remove", "n": 2, "do": "kill"},
              {"cls": "fs.write", "n": 5, "do": "enospc"}, {"cls": "fs.write", "n": 60, "do": "enospc"},
              {"cls": "fs.open_w", "n": 3, "do": "kill"}):
        out.append({"attempts": [dict(last, fault=f), last], "stale": [["A", "old", "some"], ["C", "old", "all"]]})
    out.append({"attempts": [dict(last, what="U"), dict(last, what="C"), last], "stale": [["A", "tar", "junk"]]})
    for o in out:
        o.update(block=4096, sched_seed=1, list_seed=1)
    return out


def valid(s):
    return bool(s["attempts"]) and not s["attempts"][-1]["net"] and s["attempts"][-1]["fault"] is None


# -- the server ----------------------------------------------------------------
class Response:
    def __init__(self, node, data, length, block, reset_at=None, stall_at=None):
        self.node, self.data, self.pos = node, data, 0
        self.length, self.block = length, block
        self.reset_at, self.stall_at = reset_at, stall_at

    def info(self):
        import email.message
        m = email.message.Message()
        if self.length is not None:
            m["Content-Length"] = str(self.length)
        return m

    headers = property(info)
    status = code = 200

    def getheader(self, name, default=None):
        return self.info().get(name, default)

    def read(self, n=-1):
        if self.node is kernel.NODE:
            self.node.point("net.recv")
        if self.stall_at is not None and self.pos >= self.stall_at:
            self.stall_at = None
            self.node.fault("net.stall")
            self.node.sleep(3600.0)
        if self.reset_at is not None and self.pos >= self.reset_at:
            raise ConnectionResetError(104, "Connection reset by peer")
        end = len(self.data) if n is None or n < 0 else self.pos + n
        if self.reset_at is not None:
            end = min(end, max(self.reset_at, self.pos + 1))
        out = self.data[self.pos:end]
        self.pos += len(out)
        return out

    def close(self):
        pass

    def geturl(self):
        return ""

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


def serve(node, scn, att):
    from urllib.error import HTTPError, URLError

    def urlopen(url, *a, **kw):
        u = url if isinstance(url, str) else url.full_url
        name = [k for k in NAMES if u == URL.format(100 + NAMES.index(k), k)]
        node.point("net.connect", u)
        if not name:
            raise HTTPError(u, 404, "Not Found", None, None)
        k = name[0]
        data = SETS[k]["tar"]
        beh = att["net"].get(k)
        kind = beh["kind"] if beh else "ok"
        if kind == "ok":
            return Response(node, data, len(data), scn["block"])
        node.fault("net." + kind)
        at = int(beh["at"] * (len(data) - 1))
        if kind == "refused":
            raise URLError(ConnectionRefusedError(111, "Connection refused"))
        if kind == "dns":
            raise URLError(OSError(-3, "Temporary failure in name resolution"))
        if kind in ("http404", "http503"):
            raise HTTPError(u, int(kind[4:]), "Service", None, None)
        if kind == "reset":
            return Response(node, data, len(data), scn["block"], reset_at=at)
        if kind == "stall":
            return Response(node, data, len(data), scn["block"], stall_at=at)
        if kind == "short":
            return Response(node, data[:at], len(data), scn["block"])
        if kind == "short_nolen":
            return Response(node, data[:at], None, scn["block"])
        if kind == "flip":
            b = bytearray(data)
            b[at] ^= 0x10
            return Response(node, bytes(b), len(b), scn["block"])
        other = {"other": SETS[NAMES[(NAMES.index(k) + 1) % len(NAMES)]]["tar"], "tampered": SETS[k]["tampered"],
                 "html": b"<html><body>down for maintenance</body></html>", "empty": b""}[kind]
        return Response(node, other, len(other), scn["block"])
    return urlopen


def session(scn, att, top):
    def body():
        from posydon.utils import data_download as dd
        from posydon.utils import datasets
        import posydon.config
        node = kernel.NODE
        node.hooks["urlopen"] = serve(node, scn, att)
        node.hooks["reads"] = True
        path = os.path.join(top, "POSYDON_data")
        dd.PATH_TO_POSYDON_DATA = posydon.config.PATH_TO_POSYDON_DATA = path
        for d in {id(dd.ZENODO_COLLECTION): dd.ZENODO_COLLECTION, id(datasets.ZENODO_COLLECTION):
                  datasets.ZENODO_COLLECTION}.values():
            d.clear()
            for i, k in enumerate(NAMES):
                d[k] = {"data": URL.format(100 + i, k), "md5": None if k == "U" else
                        hashlib.md5(SETS[k]["tar"]).hexdigest(), "title": k, "description": k, "url": "u"}
        for d in {id(dd.COMPLETE_SETS): dd.COMPLETE_SETS, id(datasets.COMPLETE_SETS):
                  datasets.COMPLETE_SETS}.values():
            d.clear()
            d.update(COMPLETE)
        if att["cli"]:
            sys.argv = ["get-posydon-data", att["what"]] + ([] if att["md5"] else ["-n"]) \
                + (["-v"] if att["verbose"] else [])
            dd._get_posydon_data()
        else:
            dd.data_download(set_name=att["what"], MD5_check=att["md5"], verbose=att["verbose"])
    return body


def tree(top):
    out = {}
    for d, _, files in os.walk(top):
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, top)] = fh.read()
    return out


def run(scn, sim):
    top = os.path.join(sim.root, "data")
    os.makedirs(os.path.join(top, "POSYDON_data", "HMS-HMS"))
    mine = {"POSYDON_data/HMS-HMS/mine.h5": b"my own grid", "POSYDON_data/notes.txt": b"notes", "other.tar.gz": b"mine"}
    for p, b in mine.items():
        with open(os.path.join(top, p), "wb") as f:
            f.write(b)
    for k, kind, how in scn["stale"]:
        if kind == "folder":
            p = f"{k}/own.txt" if how == "beside" else f"POSYDON_data/{k}/own.txt"
            mine[p] = b"own"
            os.makedirs(os.path.dirname(os.path.join(top, p)))
            with open(os.path.join(top, p), "wb") as f:
                f.write(b"own")
        elif kind == "tar":
            data = SETS[k]["tar"]
            b = {"half": data[:len(data) // 2], "junk": b"junk" * 50, "empty": b"", "full": data}[how]
            with open(os.path.join(top, f"data_{k}.tar.gz"), "wb") as f:
                f.write(b)
        else:
            for i, p in enumerate(SETS[k]["files"]):
                if how == "all" or i % 2:
                    q = os.path.join(top, p)
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    with open(q, "wb") as f:
                        f.write(b"old version of " + p.encode())
    failed = 0
    for i, att in enumerate(scn["attempts"]):
        before = tree(top)
        sim.faults = [dict(att["fault"])] if att["fault"] else []
        fired0 = sum(sim.fired.values())
        node = sim.solo(f"get{i}", session(scn, att, top))
        hit = bool(sim.faults) and bool(sim.faults[0].get("used"))
        after = tree(top)
        wanted = COMPLETE.get(att["what"], [att["what"]])
        bad = [k for k in wanted if att["net"].get(k, {}).get("kind") in BADNET]
        fails = not node.ok
        failed += fails
        who = f"attempt {i + 1} ({att['what']}, verification {'on' if att['md5'] else 'off'})"
        # archives whose content may have been installed unverified
        loose = {k for k in bad if (not att["md5"] or k == "U") and att["net"][k]["kind"] in SILENT}
        allowed = {}
        for k in wanted:
            allowed.update(SETS[k]["files"])
        tars = {f"data_{k}.tar.gz" for k in wanted}
        for p in sorted(set(before) | set(after)):
            a, b = before.get(p), after.get(p)
            if a == b or p in tars:
                continue
            if loose:
                other = {q for k in loose for q in SETS[NAMES[(NAMES.index(k) + 1) % len(NAMES)]]["files"]}
                if p in other or p in allowed or p == "POSYDON_data/planted.txt":
                    continue
            if b is None:
                raise Violation("lost", f"{who} deleted {p}")
            if p in allowed:
                true = allowed[p]
                if b == true or (fails and true.startswith(b)):
                    continue
                raise Violation("unverified", f"{who} installed {p} with {len(b)} bytes that are not those of the "
                                              f"published file ({len(true)} bytes)")
            if fails and b in (SETS[k]["tar"][:len(b)] for k in wanted) and b:
                continue                        # a partly loaded archive under some temporary name
            if fails and len(b) <= max(len(SETS[k]["tar"]) for k in wanted) and os.path.dirname(p) in ("", "."):
                continue                        # what arrived of it
            raise Violation("touched", f"{who} {'created' if a is None else 'changed'} {p}, which is not part of the "
                                       f"data set")
        if node.state == "killed":
            continue
        if node.ok:
            for k in wanted:
                if k in loose:
                    continue
                if k in bad:
                    raise Violation("unreported", f"{who} reports success although the transfer of {k} failed "
                                                  f"({att['net'][k]['kind']})")
                for p, data in SETS[k]["files"].items():
                    if after.get(p) != data:
                        raise Violation("incomplete", f"{who} reports success but {p} is "
                                        f"{'missing' if p not in after else 'not the published file'}")
                if f"data_{k}.tar.gz" in after:
                    raise Violation("leftover", f"{who} reports success but the archive data_{k}.tar.gz is left behind")
        elif not hit and not bad:
            raise Violation("not-retryable", f"{who} fails although neither the network nor the disk failed: "
                                             f"{node.exc[0]}: {node.exc[1]}")
        elif not hit and all(k in loose for k in bad):
            pass                                # a damaged archive that was not to be verified may fail to unpack
    return {"failed": failed, "attempts": len(scn["attempts"])}


def nontrivial(scn, res):
    return res.get("info", {}).get("failed", 0) > 0

"""Try planted changes quickly: mut.py LIST.py [ids...]; LIST defines M = [(id, prop, [(file, old, new)...])]."""
import os
import re
import shutil
import subprocess
import sys
import time

ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
REF = os.environ.get("MUT_REF", "/repo")
W = f"/tmp/mutwt{os.getpid()}"
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(["cp", "-a", REF, W])
if os.path.isfile(W + "/.git"):
    os.remove(W + "/.git")
for id, prop, edits in ns["M"]:
    if only and id not in only and prop not in only:
        continue
    saved = {}
    ok = True
    for f, old, new in edits:
        p = f"{W}/{f}"
        s = open(p).read()
        saved.setdefault(p, s)
        if s.count(old) != 1:
            print(id, prop, "BAD EDIT", f, s.count(old), repr(old[:80]), flush=True)
            ok = False
            break
        open(p, "w").write(s.replace(old, new))
    if ok:
        props = prop.split("+")
        for pr in props:
            t = time.time()
            r = subprocess.run(["/verif/check.sh", pr], env=dict(os.environ, SIM_REPO=W, SIM_EVIDENCE=f"/tmp/mutev{os.getpid()}", VERIF_SEED="1"),
                               capture_output=True, text=True, timeout=1500)
            m = re.findall(r"kind [^ ]*|minimised: .{0,100}", r.stdout + r.stderr)
            print(id, pr, {0: "MISSED", 1: "caught"}.get(r.returncode, f"rc {r.returncode}"), f"{time.time() - t:.0f}s",
                  " ".join(m[:2]) if r.returncode == 1 else (r.stdout + r.stderr)[-600:] if r.returncode else "", flush=True)
    for p, s in saved.items():
        open(p, "w").write(s)
shutil.rmtree(W, ignore_errors=True)

"""Create a planted bug: mkseed(id, prop, [(file, old, new)...], demo, needs, breaks)."""
import json
import os
import shutil
import subprocess
import tempfile
V = "/verif/seeded"
LIB = "/verif/tools/seedlib"


def mkseed(id, prop, edits, demo, needs, breaks, lib=True, extra=()):
    d = f"{V}/{id}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="mkseed-")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/t", "HEAD"])
    try:
        for f, old, new in edits:
            p = f"{w}/t/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/t", "diff"], text=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/t"])
        shutil.rmtree(w, ignore_errors=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.py", "w").write(demo)
    shutil.copy(f"{LIB}/demo.sh", f"{d}/demo.sh")
    os.chmod(f"{d}/demo.sh", 0o755)
    if lib:
        shutil.copy(f"{LIB}/demolib.py", f"{d}/demolib.py")
    for x in extra:
        shutil.copy(f"{LIB}/{x}", f"{d}/{x}")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(f"{d}/meta.json", "w"), indent=1)

"""blame.py LIST.py: which lines replaced by the planted changes stem from the original commit."""
import subprocess, sys, difflib
ORIG = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
mine = {l.split()[0] for l in ORIG if l.split(" ", 1)[1].startswith("fix:") or l.split(" ", 1)[1].startswith("hook")}


def mine_lines(f):
    out = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "--abbrev=7", "HEAD", "--", f], text=True).splitlines()
    return [l[:7].lstrip("^") in {m[:7] for m in mine} for l in out]


def check(edits):
    bad = []
    for f, old, new in edits:
        s = open("/repo/" + f).read()
        t = s.replace(old, new)
        m = mine_lines(f)
        sm = difflib.SequenceMatcher(None, s.splitlines(), t.splitlines(), autojunk=False)
        for op, a, b, c, d in sm.get_opcodes():
            if op != "equal":
                bad += [f"{f.split('/')[-1]}:{k+1}" for k in range(a, b) if m[k]]
                if op == "insert" and m[a - 1] and m[a]:
                    bad.append(f"insert@{a}")
    return bad


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for id, p, e in ns["M"]:
        print(id, p, check(e) or "original")

"""A small SLURM for the simulator: sbatch, job arrays, dependencies between jobs, kills.

Scripts written by the command-line tool are submitted by the real shell through a fake
``sbatch`` on PATH that only records the request; the jobs themselves run as simulated nodes.
"""
import json
import os
import re
import shlex
import stat
import subprocess

from . import kernel, seams

SBATCH = r'''#!/bin/sh
# records a submission; prints the job id like SLURM does
Q="$SIM_SLURM_DIR"
n=$(cat "$Q/calls"); n=$((n+1)); echo $n > "$Q/calls"
if grep -qx "$n" "$Q/fail" 2>/dev/null; then echo "sbatch: error: Batch job submission failed: Socket timed out" >&2; exit 1; fi
parsable=0; dep=""; script=""; dir="$PWD"
for a in "$@"; do
  case "$a" in
    --parsable) parsable=1;;
    --dependency=*) dep="${a#--dependency=}";;
    --chdir=*) dir="${a#--chdir=}";;
    --kill-on-invalid-dep=*) ;;
    -*) ;;
    *) script="$a";;
  esac
done
if [ ! -f "$script" ]; then echo "sbatch: error: Unable to open file $script" >&2; exit 1; fi
if [ -n "$dep" ]; then
  for part in $(echo "$dep" | tr ',?' '  '); do
    kind="${part%%:*}"; ids="${part#*:}"
    case "$kind" in after|afterany|afterok|afternotok) ;; *) ids="";; esac
    if [ -z "$ids" ]; then echo "sbatch: error: Job dependency problem" >&2; exit 1; fi
    for id in $(echo "$ids" | tr ':' ' '); do
      if [ ! -e "$Q/job.$id" ]; then echo "sbatch: error: Job dependency problem" >&2; exit 1; fi
    done
  done
fi
j=$(cat "$Q/next"); echo $((j+1)) > "$Q/next"
: > "$Q/job.$j"
printf '%s\n%s\n%s\n%s\n' "$j" "$dir" "$dep" "$script" >> "$Q/queue"
cp "$script" "$Q/script.$j"
if [ $parsable = 1 ]; then echo "$j"; else echo "Submitted batch job $j"; fi
'''


class Slurm:
    def __init__(self, sim, scn, hooks, first_job=1000):
        self.sim = sim
        self.scn = scn
        self.hooks = hooks
        self.dir = os.path.join(sim.metadir, "slurm")
        os.makedirs(os.path.join(self.dir, "bin"))
        p = os.path.join(self.dir, "bin", "sbatch")
        with open(p, "w") as f:
            f.write(SBATCH)
        os.chmod(p, stat.S_IRWXU)
        for name, val in (("calls", "0"), ("next", str(first_job)), ("queue", ""), ("fail", "")):
            with open(os.path.join(self.dir, name), "w") as f:
                f.write(val + ("\n" if val else ""))
        self.first = first_job
        self.read = 0
        self.jobs = {}
        self.started = []        # (job, task) in starting order
        self.env = {"PATH": os.path.join(self.dir, "bin") + ":/usr/bin:/bin", "SIM_SLURM_DIR": self.dir}

    def fail_submissions(self, calls):
        with open(os.path.join(self.dir, "fail"), "w") as f:
            f.write("".join(f"{c}\n" for c in calls))

    # -- submission (used from the simulator or from inside a node) -------------------
    def shell(self, cmd, cwd):
        env = dict(os.environ, **self.env)
        p = seams.real["Popen"](["/bin/sh", "-c", cmd], cwd=cwd, env=env, stdout=subprocess.PIPE,
                                stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        out, _ = p.communicate(timeout=60)
        return p.returncode, out.decode(errors="replace")

    def node_hooks(self):
        """Stand-ins for os.system and subprocess.run inside a command-line node."""
        def system(cmd):
            kernel.NODE.point("proc.system", cmd)
            n = kernel.NODE
            n.muted += 1
            try:
                rc, out = self.shell(cmd, os.getcwd())
            finally:
                n.muted -= 1
            print(out, flush=True)
            return rc << 8

        def run(argv, check=False, capture_output=False, text=False, cwd=None, **kw):
            kernel.NODE.point("proc.run", " ".join(map(str, argv)))
            n = kernel.NODE
            cmd = " ".join(shlex.quote(str(a)) for a in argv)
            n.muted += 1
            try:
                rc, out = self.shell(cmd, cwd or os.getcwd())
            finally:
                n.muted -= 1
            if rc and check:
                raise subprocess.CalledProcessError(rc, argv, output="", stderr=out)
            return subprocess.CompletedProcess(argv, rc, stdout=out if not rc else "", stderr=out if rc else "")
        return {"system": system, "run": run}

    # -- queue ---------------------------------------------------------------------------
    def collect(self):
        """Take over newly recorded submissions."""
        with open(os.path.join(self.dir, "queue")) as f:
            lines = f.read().split("\n")[:-1]
        new = lines[self.read:]
        self.read = len(lines)
        out = []
        for k in range(0, len(new), 4):
            j, d, dep, script = new[k:k + 4]
            job = self.parse(int(j), d, dep, script)
            self.jobs[job["id"]] = job
            out.append(job)
        return out

    def parse(self, j, d, dep, script):
        with open(os.path.join(self.dir, f"script.{j}")) as f:
            text = f.read()
        opt, body = {}, []
        for line in text.split("\n"):
            if line.startswith("#SBATCH"):
                m = re.match(r"#SBATCH --([\w-]+)=(.*)", line)
                if m:
                    opt[m.group(1)] = m.group(2).strip()
            elif line.strip() and not line.startswith("#"):
                body.append(line.strip())
        tasks, limit = None, None
        if "array" in opt:
            a = opt["array"]
            if "%" in a:
                a, lim = a.split("%")
                limit = int(lim)
            tasks = []
            for part in a.split(","):
                if "-" in part:
                    lo, hi = map(int, part.split("-"))
                    tasks += range(lo, hi + 1)
                else:
                    tasks.append(int(part))
        deps = [(p.split(":")[0], int(i)) for p in dep.split(",") for i in p.split(":")[1:]] if dep else []
        return {"id": j, "dir": d, "after": deps[0][1] if deps else None, "deps": deps, "script": script,
                "opt": opt, "body": body, "tasks": tasks, "limit": limit, "seq": j - self.first,
                "nodes": {}, "state": "pending", "todo": list(tasks) if tasks is not None else [None]}

    def _env_cmd(self, job, task):
        env = {"SLURM_JOB_ID": str(job["id"]), "SLURM_ARRAY_JOB_ID": None, "SLURM_ARRAY_TASK_ID": None,
               "SLURM_ARRAY_TASK_COUNT": None, "SLURM_ARRAY_TASK_MIN": None, "SLURM_ARRAY_TASK_MAX": None}
        if task is not None:
            env.update(SLURM_ARRAY_JOB_ID=str(job["id"]), SLURM_ARRAY_TASK_ID=str(task),
                       SLURM_ARRAY_TASK_COUNT=str(len(job["tasks"])),
                       SLURM_ARRAY_TASK_MIN=str(min(job["tasks"])), SLURM_ARRAY_TASK_MAX=str(max(job["tasks"])))
        cmd = None
        for line in job["body"]:
            if line.startswith("export "):
                k, v = line[7:].split("=", 1)
                env[k] = v
            elif line.startswith("srun "):
                cmd = shlex.split(line)[1:]
        return env, cmd

    def _log(self, job, task):
        o = job["opt"].get("output")
        if not o:
            return None
        o = o.replace("%A", str(job["id"])).replace("%a", str(task)).replace("%j", str(job["id"]))
        return os.path.join(job["dir"], o)

    def start(self, job, task):
        env, cmd = self._env_cmd(job, task)
        name = f"j{job['seq']}" + ("" if task is None else f".t{task}")
        for s, t, cls, n in self.scn.get("kills", []):
            if s == job["seq"] and (t == task or t == -1 and task is None):
                self.sim.faults.append({"node": name, "cls": cls, "n": n, "do": "kill"})
        for s, t, cls, n, do in self.scn.get("errors", []):
            if s == job["seq"] and (t == task or t == -1 and task is None):
                self.sim.faults.append({"node": name, "cls": cls, "n": n, "do": do})
        log = self._log(job, task)
        if log:
            try:
                with open(log, "w"):
                    pass
            except OSError:
                pass
        cwd = job["dir"]

        def go():
            import sys
            if cmd is None or cmd[0] != "python":
                raise kernel.HarnessError(f"job without a python command: {job['body']}")
            with open(cmd[1]) as f:
                text = f.read()
            sys.argv = cmd[1:]
            exec(compile(text, cmd[1], "exec"), {"__name__": "__main__"})
        node = self.sim.spawn(name, go, cwd=cwd, env=env, hooks=self.hooks)
        node.meta["pop"] = name
        job["nodes"][task] = node
        self.started.append((job["id"], task))
        if log:
            node.meta["log"] = log

    def finish_logs(self):
        for job in self.jobs.values():
            for task, node in job["nodes"].items():
                log = node.meta.pop("log", None) if node.finished else None
                if log and os.path.isdir(os.path.dirname(log)):
                    text = self.sim.output(node.name)
                    if node.state == "killed":
                        text += (f"slurmstepd: error: *** JOB {job['id']} ON node1 CANCELLED AT "
                                 "2026-01-01T00:00:00 DUE TO TIME LIMIT ***\n")
                    with open(log, "w") as f:
                        f.write(text.replace(self.sim.root, "$"))

    def task_ok(self, job, task, node):
        """Whether the batch script of a finished task ended with status 0."""
        return node.ok

    @staticmethod
    def met(kind, dep):
        """Whether a dependency is met (True), can never be (False) or is still open (None)."""
        gone = dep["state"] in ("ended", "cancelled")
        if kind == "after":
            return True if gone or dep["state"] == "running" and not dep["todo"] else None
        if not gone:
            return None
        if kind == "afterany":
            return True
        return bool(dep.get("success")) == (kind == "afterok")

    def run_all(self, concurrent=3):
        """Run every queued job to quiescence."""
        self.collect()
        while True:
            progressed = False
            for job in self.jobs.values():
                if job["state"] == "pending":
                    met = [self.met(kind, self.jobs[i]) for kind, i in job["deps"]]
                    if all(x is True for x in met):
                        job["state"] = "running"
                        progressed = True
                    elif any(x is False for x in met):
                        job["state"] = "cancelled"
                        self.sim.count_fault("job_cancelled_by_dependency")
                        progressed = True
            live = [n for n in self.sim.nodes if not n.finished]
            cand = [j for j in self.jobs.values() if j["state"] == "running" and j["todo"]
                    and (j["limit"] is None or sum(not n.finished for n in j["nodes"].values()) < j["limit"])]
            if cand and len(live) < concurrent:
                job = self.sim.rng.choice(cand)
                task = job["todo"].pop(self.sim.rng.randrange(len(job["todo"])))
                self.start(job, task)
                continue
            for job in self.jobs.values():
                if job["state"] == "running" and not job["todo"] and all(n.finished for n in job["nodes"].values()):
                    job["state"] = "ended"
                    job["success"] = all(self.task_ok(job, t, n) for t, n in job["nodes"].items())
                    progressed = True
            self.finish_logs()
            if progressed:
                continue
            live = [n for n in self.sim.nodes if not n.finished]
            if not live:
                return
            count = len(live)
            r = self.sim.run(until=lambda: sum(not n.finished for n in self.sim.nodes) < count)
            if r == "deadlock":
                raise kernel.Violation("deadlock", "jobs blocked forever")

"""Tiny stand-alone population harness for the demonstrations (real POSYDON, fake steps)."""
import os
import signal
import sys
import tempfile
import warnings
warnings.filterwarnings("ignore")
for k in list(os.environ):
    if k.startswith("SLURM"):
        del os.environ[k]
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ["PATH_TO_POSYDON"] = os.getcwd() + "/"
os.environ["PATH_TO_POSYDON_DATA"] = os.getcwd() + "/posydon/unit_tests/_data/"
sys.path.insert(0, os.getcwd())

BEHAVE = {}          # index -> callable(binary, k) that may raise; default: two steps
STEPS = {}           # index -> number of steps


class Flow(dict):
    def get(self, key, default=None):
        return "step_detached"

    def __getitem__(self, key):
        return "step_detached"


def flow(**kw):
    return Flow()


class Step:
    DEFAULT_KWARGS = {}

    def __init__(self, **kw):
        pass

    def __call__(self, b):
        k = getattr(b, "_k", 0)
        b._k = k + 1
        b.time = b.time + 1e6
        b.star_1.mass = b.star_1.mass * 0.99
        f = BEHAVE.get(int(b.index))
        if f is not None:
            f(b, k)
        b.state = "detached"
        b.event = "END" if k + 1 >= STEPS.get(int(b.index), 2) else "oRLO1"


OPTS = {"optimize_ram": True, "ram_per_cpu": None, "dump_rate": 2, "temp_directory": "batches",
        "tqdm": False, "breakdown_to_df": True, "use_MPI": False, "metallicities": [1.0],
        "error_checking_verbose": False, "warnings_verbose": False, "history_verbose": False,
        "entropy": 7, "number_of_binaries": 6, "binary_fraction_scheme": "const",
        "binary_fraction_const": 1.0, "star_formation": "burst", "max_simulation_time": 13.8e9,
        "read_samples_from_file": "", "primary_mass_scheme": "Kroupa2001",
        "primary_mass_min": 7.0, "primary_mass_max": 150.0,
        "secondary_mass_scheme": "flat_mass_ratio", "secondary_mass_min": 0.5,
        "secondary_mass_max": 150.0, "orbital_scheme": "period",
        "orbital_period_scheme": "Sana+12_period_extended", "orbital_period_min": 0.75,
        "orbital_period_max": 6000.0, "eccentricity_scheme": "zero",
        "orbital_separation_scheme": "log_uniform", "orbital_separation_min": 5.0,
        "orbital_separation_max": 1.0e5}


def ini(path, **opts):
    o = {**OPTS, **opts}
    t = "[environment_variables]\n  PATH_TO_POSYDON = '%s'\n" % os.environ["PATH_TO_POSYDON"]
    t += "[flow]\n  import = ['demolib', 'flow']\n  absolute_import = None\n"
    for s in ("step_HMS_HMS", "step_CO_HeMS", "step_CO_HMS_RLO", "step_CO_HeMS_RLO",
              "step_detached", "step_disrupted", "step_merged", "step_initially_single",
              "step_dco", "step_CE", "step_SN", "step_end"):
        t += f"[{s}]\n  import = ['demolib', 'Step']\n  absolute_import = None\n"
        if s == "step_SN":
            t += "  use_interp_values = False\n"
    t += ("[extra_hooks]\n  import_1 = ['posydon.binary_evol.simulationproperties', 'StepNamesHooks']\n"
          "  absolute_import_1 = None\n  kwargs_1 = {}\n")
    t += "[grid_paths]\n" + "".join(f"  {g}_path = None\n" for g in (
        "HMS_HMS", "CO_HMS_RLO", "CO_HeMS", "CO_HeMS_RLO", "single_HMS", "single_HeMS"))
    t += "[BinaryPopulation_options]\n" + "".join(f"  {k} = {v!r}\n" for k, v in o.items())
    t += ("[BinaryStar_output]\n  extra_columns = {'step_names': 'string'}\n"
          "  only_select_columns = ['state', 'event', 'time', 'orbital_period', 'eccentricity']\n"
          "  scalar_names = ['interp_class_HMS_HMS']\n")
    for s in (1, 2):
        t += (f"[SingleStar_{s}_output]\n  include_S{s} = True\n"
              "  only_select_columns = ['state', 'mass', 'log_R']\n  scalar_names = ['SN_type']\n")
    with open(path, "w") as f:
        f.write(t)


def in_child(fn, env=None):
    """Run fn in a forked process; returns its exit status (negative: signal)."""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.environ.update(env or {})
            fn()
            sys.stdout.flush()
            os._exit(0)
        except SystemExit as e:
            os._exit(e.code if isinstance(e.code, int) else 1)
        except BaseException:
            import traceback
            traceback.print_exc()
            os._exit(3)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st)


def rank_env(r, size, job="4242"):
    return {"SLURM_ARRAY_JOB_ID": job, "SLURM_ARRAY_TASK_ID": str(r),
            "SLURM_ARRAY_TASK_MIN": "0", "SLURM_ARRAY_TASK_COUNT": str(size)}


def run_rank(inifile, met=1.0):
    from posydon.CLI.io import create_run_script_text
    sys.argv = ["run_metallicity.py", str(met)]
    exec(compile(create_run_script_text(inifile), "run_metallicity.py", "exec"),
         {"__name__": "__main__"})


def run_merge(inifile, met=1.0):
    from posydon.CLI.io import create_merge_script_text
    sys.argv = ["merge_metallicity.py", str(met)]
    exec(compile(create_merge_script_text(inifile), "merge_metallicity.py", "exec"),
         {"__name__": "__main__"})


def scratch():
    d = tempfile.mkdtemp(prefix="demo-")
    import atexit
    import shutil
    me = os.getpid()
    atexit.register(lambda: os.getpid() == me and shutil.rmtree(d, ignore_errors=True))
    os.chdir(d)
    return d


def die():
    os.kill(os.getpid(), signal.SIGKILL)

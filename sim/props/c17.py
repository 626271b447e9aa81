"""C17: warning capture is lossless, scoped and always restored."""
import os
import signal
import warnings

from .. import kernel
from ..kernel import Violation

PROP = "C17"
QUICK = {"runs": 20000, "wall": 40}
THOROUGH = {"runs": 2000000, "wall": 2400}
KEEP = set()
SHRINK_INT = {"sched_seed": 0, "list_seed": 0}
SHRINK_TO = {"end": "normal", "late": None}
RULE = ("one case = one history of warnings, filter changes and capture contexts that end normally, through an error, "
        "through the step-time alarm or through a warning turned into an error; non-trivial if a context recorded or "
        "filtered a warning; distinct by event log and scenario")
COMPONENTS = {"real": ["posydon.utils.posydonwarning", "Python warnings filters"],
              "stub": ["call sites that warn", "alarm clock (virtual)", "display of warnings (collected)"]}
ASSUMPTIONS = ["contexts follow each other and are not nested", "a warning that the filters ignore or turn into an "
               "error is not counted"]
CATS = ["StepWarning", "ValueWarning", "POSYDONWarning", "SFHModelWarning"]
ACTIONS = ["default", "always", "ignore", "error", "once", "module"]
SITES = [("sim_site_a.py", 2), ("sim_site_a.py", 5), ("sim_site_b.py", 2), ("sim_site_b.py", 3)]


def preload():
    from posydon.utils import posydonwarning  # noqa: F401


def gen_warn(rng):
    return {"op": "warn", "site": rng.randrange(4), "cat": rng.choice(CATS), "deep": rng.random() < 0.3,
            "as": rng.choice(["name", "class"])}


def gen_ops(rng, n, outside):
    out = []
    for _ in range(n):
        u = rng.random()
        if u < 0.6:
            out.append(gen_warn(rng))
        elif u < 0.68:
            out.append({"op": "filter", "action": rng.choice(ACTIONS[:4] if rng.random() < 0.8 else ACTIONS),
                        "cat": rng.choice(CATS)})
        elif u < 0.72:
            out.append({"op": "clear"})
        elif u < 0.78:
            out.append({"op": "native"})
        elif u < 0.84:
            out.append({"op": "bad"})
        elif not outside:
            out.append({"op": rng.choice(["get", "get", "take", "reset"])})
    return out


def gen(rng):
    ops = []
    for _ in range(rng.randint(1, 5)):
        ops += gen_ops(rng, rng.randint(0, 3), True)
        ops.append({"op": "context", "record": rng.random() < 0.85, "first": rng.random() < 0.75,
                    "own": rng.random() < 0.5, "catch": rng.random() < 0.92, "body": gen_ops(rng, rng.randint(0, 6), False),
                    "end": rng.choice(["normal", "normal", "error", "alarm", "interrupt"]),
                    "late": rng.choice([None, None, "reset", "take"])})
    ops += gen_ops(rng, rng.randint(0, 3), True)
    return {"ops": ops, "sched_seed": 1, "list_seed": 1}


def directed():
    w = [{"op": "warn", "site": i, "cat": c, "deep": d, "as": "name"} for i, c, d in (
        (0, "StepWarning", False), (1, "StepWarning", False), (1, "StepWarning", True), (2, "ValueWarning", False))]
    ctx = {"op": "context", "record": True, "first": True, "own": False, "catch": True, "end": "normal", "late": None}
    out = []
    for own in (False, True):
        for end in ("normal", "error", "alarm", "interrupt"):
            for first in (True, False):
                c = dict(ctx, own=own, end=end, first=first, body=w + [{"op": "get"}] + w)
                out.append({"ops": [w[0], c, w[0], c, dict(c, late="reset"), w[1]]})
    for act in ACTIONS:
        f = {"op": "filter", "action": act, "cat": "POSYDONWarning"}
        c = dict(ctx, body=w)
        out.append({"ops": [f, c, {"op": "clear"}, dict(c, body=[w[3], {"op": "get"}]), w[2]]})
    for o in out:
        o.update(sched_seed=1, list_seed=1)
    return out


def valid(s):
    return True


class Boom(Exception):
    pass


class Model:
    def __init__(self):
        self.filters = []           # newest first: (action, category)
        self.shared = {}            # (category, file, line) -> count
        self.loose = {}             # category -> warnings counted when they were issued late
        self.ctx = None
        self.shown = []             # messages that must have been displayed, in order

    def action(self, cls):
        for a, c in self.filters:
            if issubclass(cls, c):
                return a
        return "default"


def run(scn, sim):
    node = sim.solo("main", lambda: body(scn))
    if node.exc is not None:
        raise Violation("failed", f"{node.exc[0]}: {node.exc[1]}\n{node.exc[2][-1500:]}")
    for v in node.result["violations"][:1]:
        raise Violation(*v)
    return node.result["info"]


def body(scn):
    from posydon.utils import posydonwarning as pw
    node = kernel.NODE
    shown = []
    warnings.resetwarnings()
    warnings.filterwarnings("always", category=UserWarning)
    warnings.showwarning = lambda message, category, filename, lineno, file=None, line=None: shown.append(
        str(message).strip("'\""))
    pw._CAUGHT_POSYDON_WARNINGS.reset_cache()
    pw.get_stats().clear()
    spaces = {}
    for name in ("sim_site_a.py", "sim_site_b.py"):
        src = {"sim_site_a.py": "def f(Pwarn, m, c, k):\n    Pwarn(m, c, **k)\n\ndef g(Pwarn, m, c, k):\n"
                                "    Pwarn(m, c, **k)\n",
               "sim_site_b.py": "def f(Pwarn, m, c, k):\n    Pwarn(m, c, **k)\ndef g(Pwarn, m, c, k): Pwarn(m, c, **k)\n"}
        ns = {"__name__": name[:-3]}
        exec(compile(src[name], name, "exec"), ns)
        spaces[name] = ns
    funcs = [spaces[f]["f" if i % 2 == 0 else "g"] for i, (f, _) in enumerate(SITES)]
    # functions that warn in the name of their caller
    exec(compile("def helper(Pwarn, m, c, k):\n    Pwarn(m, c, stacklevel=3, **k)\n", "sim_helper.py", "exec"), spaces)

    for i, (fname, line) in enumerate(SITES):
        ns = spaces[fname]
        code = "\n" * (20 + i) + f"def d{i}(Pwarn, m, c, k): helper(Pwarn, m, c, k)\n"
        ns["helper"] = spaces["helper"]
        exec(compile(code, fname, "exec"), ns)
    m = Model()
    bad = []
    info = {"recorded": 0, "filtered": 0, "shown": 0, "contexts": 0}
    counter = [0]

    def cls_of(cat):
        return pw._POSYDONWarning_subclasses.get(cat, pw.POSYDONWarning)

    def site_key(op):
        f, line = SITES[op["site"]]
        return (cls_of(op["cat"]), f, 21 + op["site"] if op["deep"] else line)

    def fail(kind, msg):
        if not bad:
            bad.append((kind, msg))

    def count(reg, key, action):
        """-> True if the warning passes"""
        if action == "ignore":
            return False
        if action == "error":
            return True
        reg[key] = reg.get(key, 0) + 1
        return action == "always" or reg[key] == 1

    def do_warn(op):
        counter[0] += 1
        text = f"warning {counter[0]}"
        cls = cls_of(op["cat"])
        key = site_key(op)
        act = m.action(cls)
        c = m.ctx
        expect_raise = False
        if c is not None and c["catch"]:
            c["called"] = True
            passes = True if not c["first"] else count(c["reg"], key, act)
            if passes and c["record"]:
                c["cache"].append((text, key, act))
                info["recorded"] += 1
            else:
                info["filtered"] += 1
        else:
            if c is not None:
                c["called"] = True
            reg = m.shared if c is None else c["reg"]
            if count(reg, key, act):
                if act == "error":
                    expect_raise = True
                else:
                    m.shown.append(text)
                    info["shown"] += 1
        arg = op["cat"] if op["as"] == "name" else cls
        fn = spaces[SITES[op["site"]][0]][f"d{op['site']}"] if op["deep"] else funcs[op["site"]]
        raised = None
        try:
            fn(pw.Pwarn, text, arg, {})
        except pw.POSYDONWarning as e:
            raised = e
        if expect_raise != (raised is not None):
            fail("error-filter", f"{text} ({op['cat']}) {'did not raise' if expect_raise else 'raised'} although "
                                 f"the filter demands {act} and it was {'captured' if c else 'not captured'}")
        compare(f"after {text}")

    def texts(cache):
        return [w["message"] for w in cache]

    def compare(when):
        if shown != m.shown:
            fail("shown", f"{when}: the displayed warnings are {shown[-6:]} instead of {m.shown[-6:]}")
        stats = pw.get_stats()
        for key in set(m.shared) | {k for k in stats if os.path.basename(k[1]).startswith("sim_site")}:
            if stats.get(key, 0) != m.shared.get(key, 0):
                fail("counts", f"{when}: the shared registry counts {stats.get(key, 0)} warnings {key[0].__name__} of "
                               f"{key[1]}:{key[2]} instead of {m.shared.get(key, 0)}")
        strange = sum(v for k, v in stats.items() if not os.path.basename(k[1]).startswith("sim_site"))
        if strange != sum(m.loose.values()):
            fail("counts", f"{when}: the shared registry counts {strange} warnings at places that issued none "
                           f"(expected {sum(m.loose.values())}): "
                           f"{[k[1:] for k in stats if not k[1].startswith('sim_site')][:3]}")

    def simple(op, cpw):
        if op["op"] == "warn":
            do_warn(op)
        elif op["op"] == "filter":
            cls = cls_of(op["cat"])
            pw.SetPOSYDONWarnings(action=op["action"], category=op["cat"])
            m.filters = [(op["action"], cls)] + [f for f in m.filters if f != (op["action"], cls)]
        elif op["op"] == "clear":
            warnings.resetwarnings()
            warnings.filterwarnings("always", category=UserWarning)
            m.filters = []
        elif op["op"] == "native":
            counter[0] += 1
            pw.Pwarn(f"native {counter[0]}", UserWarning)
            m.shown.append(f"native {counter[0]}")
            compare("after a Python warning")
        elif op["op"] == "bad":
            try:
                pw.Pwarn(17, "StepWarning")
                fail("refused", "a message that is no text was accepted")
            except TypeError:
                pass
            compare("after a refused warning")
        elif cpw is not None:
            c = m.ctx
            have = texts(cpw.get_cache(empty_cache=op["op"] == "take"))
            want = [t for t, _, _ in c["cache"]]
            if have != want:
                fail("records", f"the records of the context are {have} instead of {want}")
            if cpw.has_records() != (bool(want) and op["op"] != "take"):
                fail("flag", f"has_records() is {cpw.has_records()} with records {want}")
            if cpw.got_called() != c["called"]:
                fail("flag", f"got_called() is {cpw.got_called()} although the context had "
                             f"{'a warning' if c['called'] else 'no warning'}")
            if op["op"] == "reset":
                cpw.reset_cache()
            if op["op"] in ("reset", "take"):
                c["cache"] = []

    def context(op):
        info["contexts"] += 1
        c = {"catch": op["catch"], "record": op["record"], "first": op["first"], "reg": {} if op["own"] else m.shared,
             "cache": [], "called": False}
        ended = None
        try:
            with pw.Catch_POSYDON_Warnings(catch_warnings=op["catch"], record=op["record"], filter_first=op["first"],
                                           own_registry=op["own"]) as cpw:
                m.ctx = c
                simple({"op": "get"}, cpw)                   # starts without records and flags
                for o in op["body"]:
                    simple(o, cpw)
                simple({"op": "get"}, cpw)
                if op["late"]:
                    simple({"op": op["late"]}, cpw)
                leave()
                if op["end"] == "error":
                    node.fault("error in context")
                    raise Boom("inside")
                if op["end"] == "interrupt":
                    node.fault("interrupt in context")
                    raise KeyboardInterrupt
                if op["end"] == "alarm":
                    signal.signal(signal.SIGALRM, on_alarm)
                    signal.alarm(5)
                    node.sleep(10.0)
        except Boom:
            ended = "error"
        except TimeoutError:
            ended = "alarm"
        except KeyboardInterrupt:
            ended = "interrupt"
        except pw.POSYDONWarning:
            ended = "raised"
        want = "raised" if m.raises else ("normal" if op["end"] == "normal" else op["end"])
        if (ended or "normal") != want:
            fail("outcome", f"the context ended through '{ended or 'normal'}' instead of '{want}'")
        m.ctx = None
        settle()
        compare("after leaving the context")

    def on_alarm(sig, frame):
        raise TimeoutError("step took too long")

    def leave():
        """What leaving the context in its present state must lead to."""
        c = m.ctx
        m.raises = False
        m.pending = []
        for text, key, _ in c["cache"]:
            act = m.action(key[0])
            if c["first"]:
                if act == "ignore":
                    continue
                if act == "error":
                    m.raises = True
                    break
                m.pending.append((text, "must", key))
            else:
                if act == "ignore":
                    continue
                if act == "error":
                    m.raises = True
                    break
                m.pending.append((text, "must" if act == "always" else "late", key))

    def settle():
        """Compare what was issued on leaving; late filtering has no place to tell apart, only a category."""
        new = shown[len(m.shown):]
        must = [t for t, k, _ in m.pending if k == "must"]
        may = [t for t, _, _ in m.pending]
        if [t for t in new if t in must] != must or [t for t in may if t in new] != new:
            fail("lost" if len(new) < len(must) else "issued",
                 f"on leaving, the unread records {must or may} had to be issued but {new} were")
        m.shown += new
        # counts of records that are filtered only when they are issued
        strange = sum(v for k, v in pw.get_stats().items() if not os.path.basename(k[1]).startswith("sim_site"))
        cnt = strange - sum(m.loose.values())
        if cnt < 0 or cnt > (0 if m.firstmode else len(m.pending)):
            fail("counts", f"on leaving, {cnt} warnings were counted for {len(m.pending)} records")
        m.loose["late"] = strange
        m.pending = []

    m.raises, m.pending, m.firstmode = False, [], True
    for op in scn["ops"]:
        if op["op"] == "context":
            m.firstmode = op["first"]
            context(op)
        else:
            simple(op, None)
        if bad:
            break
    warnings.showwarning = lambda *a, **k: None
    pw._CAUGHT_POSYDON_WARNINGS.reset_cache()
    return {"violations": bad, "info": info}


def nontrivial(scn, res):
    i = res.get("info", {})
    return i.get("recorded", 0) + i.get("filtered", 0) > 0

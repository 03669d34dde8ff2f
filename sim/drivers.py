"""Ways to run a case.  Each returns an object with violations, stats, trace, ... like world.Sim."""
import hashlib
import signal

from . import world


class Hang(BaseException):
    pass


def on_alarm(*a):
    raise Hang()


def digest(sim):
    h = hashlib.sha256()
    for t in sim._trace:
        if t[0] == "VIOLATION":
            t = t[:2]
        h.update(repr(t).encode())
    return h.hexdigest()[:16]


def execute(case, limit=40):
    """Run one case under the watchdog."""
    # time on the CPU: a busy machine is no reason; the other timer is for a run that waits
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.setitimer(signal.ITIMER_REAL, 5 * limit)
    try:
        sim = run(case)
    except Hang:
        class X:
            pass

        sim = X()
        sim.violations = [{"kind": "hang", "tags": ["ALL"], "msg": f"the run did not end within {limit} s", "op": -1}]
        sim.stats, sim.fault_stats, sim._trace, sim.states, sim.interleave = {}, {}, [], set(), []
        sim.sim_time = sim.renders = sim.commit_no = sim.max_units_per_turn = 0
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
    return sim


def core(case):
    return world.run_case(case)


def gcdiff(case):
    """The same run without any collection, and with collections before every turn and operation."""
    case = dict(case, ops=[o for o in case["ops"] if o[0] not in ("gc", "stale")])
    a = world.run_case(case)
    b = world.run_case(dict(case, cfg=dict(case["cfg"], gc_every=1)))
    keep = ("commit", "hook", "render", "host", "call", "callback", "ctor", "fault")
    ta = [t for t in a._trace if t[0] in keep]
    tb = [t for t in b._trace if t[0] in keep]
    b.stat("gc_differentials")
    if ta != tb and not a.violations and not b.violations:
        n = next((i for i, (x, y) in enumerate(zip(ta, tb)) if x != y), min(len(ta), len(tb)))
        x = str(ta[n])[:200] if n < len(ta) else "nothing"
        y = str(tb[n])[:200] if n < len(tb) else "nothing"
        b.violations.append({"kind": "gc", "tags": ["C12"], "msg": f"without collections: {x}; with collections at every turn: {y}", "op": -1})
    b.violations = a.violations + b.violations
    return b


def multi(case):
    """Several UIs.  When one is not right, it is run alone to see whether the others are to blame."""
    sim = world.run_case(case)
    if sim.violations:
        alone = set()
        for no in range(case["cfg"]["guis"]):
            solo = world.run_case(dict(case, cfg=dict(case["cfg"], solo=no)))
            alone |= {v["kind"] for v in solo.violations}
        for v in sim.violations:
            if v["kind"] not in alone:
                v["tags"] = sorted(set(v["tags"]) | {"C13"})
    sim.stat("multi_ui_runs")
    return sim


def importer(case):
    from . import importer as I

    return I.Run(case).run()


def lines(case):
    from . import lines as L

    return L.Run(case).run()


def cli(case):
    from . import cli as C

    return C.Run(case).run()


def whole(case):
    from . import whole as W

    return W.Run(case).run()


def extend(case):
    from . import extend as X

    return X.Run(case).run()


DRIVERS = {"extend": extend, "core": core, "importer": importer, "gcdiff": gcdiff, "multi": multi, "lines": lines, "cli": cli, "whole": whole}


def run(case):
    return DRIVERS[case.get("driver", "core")](case)

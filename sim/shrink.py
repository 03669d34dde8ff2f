"""Delta debugging of a case: remove operations, program parts and configuration while the same
violation (kind) still occurs.  Deterministic; bounded by a number of re-executions."""
import copy
import gc
import json
import os

from . import boot


def crashes(case):
    """Does the process die (in native code) when running the case?"""
    from . import drivers

    p = os.fork()
    if p == 0:
        try:
            drivers.execute(copy.deepcopy(case), 10)
            gc.collect()
        finally:
            os._exit(0)
    return os.WIFSIGNALED(os.waitpid(p, 0)[1])


def kinds(case, pid, kind=None):
    from . import drivers

    if kind == "crash":
        return {"crash"} if crashes(case) else set()
    sim = drivers.execute(copy.deepcopy(case), 10)
    return {v["kind"] for v in sim.violations if pid is None or pid in v["tags"] or "ALL" in v["tags"]}


def paths(x, pre=()):
    """All (path, node) of dict/list structure, outermost first."""
    yield pre, x
    if isinstance(x, dict):
        for k in list(x):
            yield from paths(x[k], pre + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from paths(v, pre + (i,))


def get(x, path):
    for p in path:
        x = x[p]
    return x


# attributes that are required where they are generated
PLACE = {"area", "title", "permanent", "tab_label", "role", "form_label", "form_index", "grid_index", "model_index", "column_count", "layout", "buttons", "items"}


def candidates(case):
    """Smaller variants of the case (ops are handled separately)."""
    prog = case["prog"]
    for path, node in paths(prog):
        if not path:
            continue
        parent_key = path[-1]
        if isinstance(node, list) and parent_key in ("ch", "roots", "br") or (
            isinstance(node, list) and len(path) >= 2 and path[-2] in ("slots", "br", "store")
        ):
            lo = 1 if parent_key in ("roots", "br") else 0
            if len(node) > lo and all(isinstance(x, (dict, list)) for x in node):
                for i in reversed(range(len(node))):
                    c = copy.deepcopy(case)
                    del get(c["prog"], path)[i]
                    yield c
        if isinstance(node, dict) and parent_key in ("a", "on", "slots", "state", "hooks", "provide"):
            for k in list(node):
                if parent_key == "a" and k in PLACE and case["cfg"].get("backend") == "pyside":
                    continue
                c = copy.deepcopy(case)
                del get(c["prog"], path)[k]
                yield c
        if isinstance(node, dict) and node.get("n") == "alt":
            for k in ("t", "e"):
                c = copy.deepcopy(case)
                par = get(c["prog"], path[:-1])
                par[parent_key] = copy.deepcopy(node[k])
                yield c
        if isinstance(node, dict) and node.get("n") in ("host", "virt") and isinstance(parent_key, int):
            # hoist the children
            if node.get("ch"):
                c = copy.deepcopy(case)
                par = get(c["prog"], path[:-1])
                if isinstance(par, list):
                    par[parent_key : parent_key + 1] = copy.deepcopy(node["ch"])
                    yield c
        if isinstance(node, dict) and node.get("n") == "if" and isinstance(parent_key, int):
            c = copy.deepcopy(case)
            get(c["prog"], path[:-1])[parent_key : parent_key + 1] = copy.deepcopy(node["br"][0][1])
            yield c
        if isinstance(node, dict) and node.get("n") in ("host", "virt", "comp") and node.get("k") is not None:
            c = copy.deepcopy(case)
            get(c["prog"], path)["k"] = None
            yield c
        if parent_key == "root" and isinstance(node, dict) and len(node.get("ch") or ()) == 1:
            ch = node["ch"][0]
            if ch.get("n") in ("host", "comp"):
                c = copy.deepcopy(case)
                get(c["prog"], path[:-1])["root"] = copy.deepcopy(ch)
                yield c
    cfg = case["cfg"]
    for k in ("sync_events", "track", "faults0", "heal"):
        if k in cfg:
            c = copy.deepcopy(case)
            del c["cfg"][k]
            yield c
    if cfg.get("backend", "mem") != "mem":
        c = copy.deepcopy(case)
        c["cfg"]["backend"] = "mem"
        yield c
    if cfg.get("guis", 1) > 1:
        c = copy.deepcopy(case)
        c["cfg"]["guis"] = 1
        yield c
    for cost in ([0], [20_000_000]):
        if len(cfg.get("cost", [])) > 1:
            c = copy.deepcopy(case)
            c["cfg"]["cost"] = cost
            yield c
    for i, cd in enumerate(prog["comps"]):
        if cd["root"] != {"n": "host", "t": "x", "ch": []}:
            c = copy.deepcopy(case)
            c["prog"]["comps"][i]["root"] = {"n": "host", "t": "x", "ch": []}
            yield c


def shrink(case, kind, pid=None, budget=1500, seconds=45.0):
    end = boot.real_perf() + seconds
    left = [budget]

    def ok(c):
        if left[0] <= 0 or boot.real_perf() > end:
            return False
        left[0] -= 1
        try:
            return kind in kinds(c, pid, kind)
        except Exception:
            return False

    # operations
    n = max(1, len(case["ops"]) // 2)
    while n >= 1 and case["ops"]:
        i = 0
        while i < len(case["ops"]):
            c = dict(case, ops=case["ops"][:i] + case["ops"][i + n :])
            if ok(c):
                case = c
            else:
                i += n
        n //= 2
    progress = True
    while progress and left[0] > 0 and boot.real_perf() < end:
        progress = False
        for c in candidates(case):
            if left[0] <= 0 or boot.real_perf() > end:
                break
            if len(json.dumps(c)) < len(json.dumps(case)) and ok(c):
                case = c
                progress = True
                break
        else:
            for i in range(len(case["ops"])):
                c = dict(case, ops=case["ops"][:i] + case["ops"][i + 1 :])
                if ok(c):
                    case = c
                    progress = True
                    break
    return case

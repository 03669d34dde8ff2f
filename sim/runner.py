"""Runs the check of one property: seeded cases over 8 worker processes, evidence, minimised replay.

    python -m sim.runner C01 [--tier quick|thorough] [--runs N] [--replay FILE]
"""
import argparse
import copy
import gc
import json
import mmap
import os
import resource
import signal
import struct
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)

NWORKERS = 8
CRASH = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)


def _early_args():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=float, default=1.0, help="factor on the number of runs")
    ap.add_argument("--replay")
    ap.add_argument("--keep-going", action="store_true", help="list kinds of violations instead of stopping")
    ap.add_argument("--evidence", default=None)
    return ap.parse_args()


def relevant(sim, pid):
    if os.environ.get("SIM_ALL"):
        return sim.violations
    return [v for v in sim.violations if pid in v["tags"] or "ALL" in v["tags"]]


def load_known():
    """Known findings: lines `finding: property=<id> kind=<kind> match=<substring> ...`"""
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding:"):
                res.append(json.loads(line[len("finding:") :]))
    return res


def worker(w, pid, plan, seed, conn_w, stop_at, current):
    """Run the share of worker w of all profiles; send results as JSON lines."""
    from . import boot, drivers, gen

    signal.signal(signal.SIGALRM, drivers.on_alarm)
    signal.signal(signal.SIGPROF, drivers.on_alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    out = os.fdopen(conn_w, "w", buffering=1)
    agg = dict(runs=0, sim_time=0, stats={}, faults={}, renders=0, commits=0, turns_max=0, violating=0, other={}, errors=[], digests={})
    states, inter, nontrivial = set(), set(), 0
    done = []
    samples = []
    for pi, (name, P, n) in enumerate(plan):
        for i in range(w, n, NWORKERS):
            if boot.real_perf() > stop_at:
                agg["timeout"] = True
                break
            current[0:8] = struct.pack("ii", pi, i)
            try:
                case = gen.make_case(seed, name, i, P)
                case["driver"] = P.get("driver", "core")
                sim = drivers.execute(case)
            except Exception as e:  # harness failure: neither violation nor success
                import traceback

                agg["errors"].append([name, i, "".join(traceback.format_exception(e))[-1500:]])
                if len(agg["errors"]) > 20:
                    break
                continue
            agg["runs"] += 1
            agg["sim_time"] += sim.sim_time
            agg["renders"] += sim.renders
            agg["commits"] += sim.commit_no
            agg["turns_max"] = max(agg["turns_max"], sim.max_units_per_turn)
            for src, dst in ((sim.stats, agg["stats"]), (sim.fault_stats, agg["faults"])):
                for k, v in src.items():
                    dst[k] = dst.get(k, 0) + v
            if sim.commit_no > 1:
                nontrivial += 1
            states |= sim.states
            inter.add(hash(tuple(sim.interleave)))
            if len(agg["digests"]) < 6:
                agg["digests"][f"{pi}/{i}"] = drivers.digest(sim)
            if len(samples) < 1 and sim.commit_no > 3:
                samples.append({"profile": name, "index": i, "case": case, "history": [list(map(str, t))[:5] for t in sim._trace[:60]]})
            done.append([pi, i])
            bad = [v for v in relevant(sim, pid)]
            if sim.violations and not bad:
                for v in sim.violations[:1]:
                    k = "+".join(v["tags"])
                    agg["other"][k] = agg["other"].get(k, 0) + 1
            if bad:
                agg["violating"] += 1
                out.write(json.dumps({"w": w, "pi": pi, "i": i, "v": bad[:3], "pos": len(done)}) + "\n")
            if len(done) % 50 == 0:
                gc.collect()
    agg["nontrivial"] = nontrivial
    agg["states"] = sorted(states)
    agg["inter"] = sorted(inter)
    agg["samples"] = samples
    out.write(json.dumps({"done": agg}) + "\n")
    out.close()
    os._exit(0)


def replay_run(rep):
    """Run a replay file's cases in this process; returns the relevant violations of the last."""
    from . import drivers, gen

    signal.signal(signal.SIGALRM, drivers.on_alarm)
    signal.signal(signal.SIGPROF, drivers.on_alarm)
    seed = rep["seed"]
    for name, P, i in rep.get("prefix", []):
        case = gen.make_case(seed, name, i, P)
        case["driver"] = P.get("driver", "core")
        try:
            drivers.execute(case)
        except Exception:
            pass
    sim = drivers.execute(copy.deepcopy(rep["case"]))
    return sim, relevant(sim, rep["property"])


def run_replay(path):
    from . import drivers

    rep = json.load(open(path))
    if rep.get("kind") == "crash":
        # native code ends the process: look at it from outside
        p = os.fork()
        if p == 0:
            try:
                replay_run(rep)
                gc.collect()
            finally:
                os._exit(0)
        st = os.waitpid(p, 0)[1]
        bad = os.WIFSIGNALED(st) and os.WTERMSIG(st) in CRASH
        print(json.dumps({"violations": [signal.Signals(os.WTERMSIG(st)).name] if bad else [], "digest": "crash"}))
        if bad:
            print(f"VIOLATION property={rep['property']} replay={path}")
            return 1
        print("replay: no violation")
        return 0
    sim, bad = replay_run(rep)
    print(json.dumps({"violations": bad[:3], "digest": drivers.digest(sim)}, ensure_ascii=False))
    if rep.get("trace_digest") and bad:
        print("trace", "identical" if drivers.digest(sim) == rep["trace_digest"] else "DIFFERENT")
    if bad:
        print(f"VIOLATION property={rep['property']} replay={path}")
        return 1
    print("replay: no violation")
    return 0


def fresh(path, backends):
    """Replay in a fresh process; returns (reproduces, drivers.digest)."""
    env = dict(os.environ, PYTHONHASHSEED="0")
    pid = json.load(open(path))["property"]
    p = subprocess.run(
        [sys.executable, "-m", "sim.runner", pid, "--replay", path], cwd=VERIF, env=env, capture_output=True, text=True, timeout=300
    )
    dg = None
    for line in p.stdout.splitlines():
        if line.startswith("{"):
            dg = json.loads(line)["digest"]
    return p.returncode == 1, dg


def main():
    args = _early_args()
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "sim.runner"] + sys.argv[1:])
    sys.stdout.reconfigure(line_buffering=True)
    pid = args.property
    from . import profiles

    os.environ["SIM_BACKENDS"] = ",".join(profiles.BACKENDS.get(pid, []))
    # noise of the code under test (warnings, logged failures) does not belong in the report
    if not os.environ.get("SIM_STDERR"):
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    from . import boot, gen

    t0 = boot.real_perf()
    if args.replay:
        return run_replay(args.replay)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    scale = args.runs * (1 if tier == "quick" else profiles.THOROUGH)
    plan = [(name, P, max(NWORKERS, int(n * scale))) for name, P, n in profiles.plan(pid)]
    cap = 300 if tier == "quick" else 6 * 3600
    stop_at = t0 + cap
    print(f"check {pid}: seed {seed}, tier {tier}, planned runs {sum(p[2] for p in plan)}")
    readers, pids = [], []
    # what every worker is running, for when native code ends its process
    current = [mmap.mmap(-1, 8) for _ in range(NWORKERS)]
    for w in range(NWORKERS):
        r, wr = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(r)
            for x in readers:
                x.close()
            try:
                worker(w, pid, plan, seed, wr, stop_at, current[w])
            finally:
                os._exit(3)
        os.close(wr)
        readers.append(os.fdopen(r, "rb", buffering=0))
        pids.append(p)
    # collect
    import selectors

    sel = selectors.DefaultSelector()
    bufs = {}
    for w, r in enumerate(readers):
        sel.register(r, selectors.EVENT_READ, w)
        bufs[w] = b""
    found, aggs, dead = [], {}, []
    open_ = set(range(NWORKERS))
    grace = None
    while open_:
        for key, _ in sel.select(timeout=1.0):
            w = key.data
            data = os.read(key.fd, 1 << 20)
            if not data:
                sel.unregister(key.fileobj)
                open_.discard(w)
                if w not in aggs:
                    dead.append(w)
                continue
            bufs[w] += data
            *lines, bufs[w] = bufs[w].split(b"\n")
            for line in lines:
                m = json.loads(line)
                if "done" in m:
                    aggs[w] = m["done"]
                else:
                    found.append(m)
                    if grace is None and not args.keep_going:
                        grace = boot.real_perf() + 3.0
        if (grace and boot.real_perf() > grace) or boot.real_perf() > stop_at + 90:
            break
    for w in open_:
        try:
            os.kill(pids[w], signal.SIGKILL)
        except ProcessLookupError:
            pass
    for w, p in enumerate(pids):
        st = os.waitpid(p, 0)[1]
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) in CRASH:
            pi, i = struct.unpack("ii", current[w][0:8])
            what = signal.Signals(os.WTERMSIG(st)).name
            found.append({"w": w, "pi": pi, "i": i, "v": [{"kind": "crash", "tags": ["ALL"], "msg": f"the process died with {what}", "op": -1}], "pos": 0})
            dead = [x for x in dead if x != w]
    return conclude(args, pid, tier, seed, plan, found, aggs, dead, t0)


def merge(aggs):
    tot = dict(runs=0, sim_time=0, renders=0, commits=0, nontrivial=0, violating=0)
    stats, faults, other = {}, {}, {}
    states, inter, samples, errors, digests = set(), set(), [], [], {}
    for a in aggs.values():
        for k in tot:
            tot[k] += a[k]
        for src, dst in ((a["stats"], stats), (a["faults"], faults), (a["other"], other)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        states.update(a["states"])
        inter.update(a["inter"])
        samples += a["samples"]
        errors += a["errors"]
        digests.update(a["digests"])
    tot.update(stats=stats, faults=faults, other=other, states=len(states), inter=len(inter), samples=samples[:2], errors=errors, digests=digests)
    tot["turns_max"] = max([a["turns_max"] for a in aggs.values()] or [0])
    tot["timeout"] = any(a.get("timeout") for a in aggs.values())
    return tot


def determinism(plan, seed, digests, limit=16):
    """Execute some of the cases again, in this process, in another order: traces must be identical."""
    from . import drivers, gen

    signal.signal(signal.SIGALRM, drivers.on_alarm)
    signal.signal(signal.SIGPROF, drivers.on_alarm)
    n, diff = 0, []
    for k in sorted(digests, reverse=True)[:limit]:
        pi, i = map(int, k.split("/"))
        name, P, _ = plan[pi]
        case = gen.make_case(seed, name, i, P)
        case["driver"] = P.get("driver", "core")
        n += 1
        if drivers.digest(drivers.execute(case)) != digests[k]:
            diff.append(k)
    return n, diff


def conclude(args, pid, tier, seed, plan, found, aggs, dead, t0):
    from . import boot, drivers, gen, profiles, shrink

    signal.signal(signal.SIGALRM, drivers.on_alarm)
    signal.signal(signal.SIGPROF, drivers.on_alarm)
    tot = merge(aggs)
    known = [k for k in load_known() if k["property"] == pid]
    rc = 0
    replay = None
    hit_known = {}
    if args.keep_going:
        c = {}
        for f in sorted(found, key=lambda f: (f["pi"], f["i"])):
            k = f["v"][0]["kind"]
            c.setdefault(k, []).append(f)
        for k, fs in sorted(c.items(), key=lambda x: -len(x[1])):
            print(len(fs), k, "e.g.", plan[fs[0]["pi"]][0], fs[0]["i"], fs[0]["v"][0]["tags"], fs[0]["v"][0]["msg"][-400:])
    new = []
    for f in sorted(found, key=lambda f: (f["i"], f["pi"])):
        k = [k for k in known if any(k["kind"] == v["kind"] and k["match"] in v["msg"] for v in f["v"])]
        if k:
            hit_known[k[0]["what"]] = True
        else:
            new.append(f)
    for what in sorted(hit_known):
        print(f"KNOWN-FINDING: property={pid} {what}")
    unrepro = 0
    for f in new[:6]:
        path = report(pid, plan, seed, f, deadline=boot.real_perf() + 150)
        if path:
            replay = path
            rc = 1
            break
        unrepro += 1
    wall = boot.real_perf() - t0
    n_det, diff = (0, [])
    if rc == 0 and not new:
        n_det, diff = determinism(plan, seed, tot["digests"])
    wall = boot.real_perf() - t0
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": min(tot["nontrivial"], tot["inter"] + tot["states"]),
        "rule": "one evaluation = one simulated run (program, operations, schedule and faults drawn from Random(f'{seed}/{profile}/{index}')); "
        "non-trivial = the run applied at least two updates to the host tree",
        "samples": tot["samples"],
        "runs_per_hour": int(tot["runs"] / max(wall, 0.001) * 3600),
        "seeds_per_hour": int(tot["runs"] / max(wall, 0.001) * 3600),
        "simulated_seconds": round(tot["sim_time"] / 1e9, 3),
        "profiles": {name: n for name, P, n in plan},
        "fault_kinds_injected": tot["faults"],
        "events_and_probes": tot["stats"],
        "component_renders": tot["renders"],
        "updates_applied": tot["commits"],
        "max_units_in_one_turn": tot["turns_max"],
        "distinct_displayed_trees": tot["states"],
        "distinct_interleavings": tot["inter"],
        "interleaving_measure": "sequence of operations and event-loop turns of a run",
        "determinism_reruns": n_det,
        "determinism_differences": diff,
        "violations_of_other_properties_seen": tot["other"],
        "harness_errors": len(tot["errors"]),
        "stopped_by_time_limit": tot["timeout"],
        "real_code": profiles.REAL.get(pid, profiles.REAL["*"]),
        "stubs": profiles.STUBS.get(pid, profiles.STUBS["*"]),
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": profiles.ASSUME, "wall_s": round(wall, 2), "violations": 1 if rc else 0,
    }
    path = args.evidence or os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=False, default=str)
    print(f"{pid}: {tot['runs']} runs, {tot['commits']} updates, {sum(tot['faults'].values())} faults, {tot['states']} trees, {wall:.1f} s")
    if rc:
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    for e in tot["errors"][:3]:
        print("HARNESS-ERROR", e[0], e[1], e[2][-800:])
    if tot["errors"] or dead or diff or unrepro:
        print(f"check {pid} could not decide: {len(tot['errors'])} harness errors, dead workers {dead}, differing traces {diff}, unreproducible {unrepro}")
        return 2
    return 0


def report(pid, plan, seed, f, deadline):
    """Minimise, write the replay file and confirm it in a fresh process."""
    from . import boot, drivers, gen, profiles, shrink

    name, P, _ = plan[f["pi"]]
    case = gen.make_case(seed, name, f["i"], P)
    case["driver"] = P.get("driver", "core")
    kind = f["v"][0]["kind"]
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{name}-{f['i']}.json")
    rep = {"property": pid, "seed": seed, "profile": name, "index": f["i"], "backends": profiles.BACKENDS.get(pid, []), "kind": kind, "violations": f["v"]}

    def write(c, prefix=()):
        rep.update(case=c, prefix=list(prefix))
        json.dump(rep, open(path, "w"), indent=1, ensure_ascii=False)
        return fresh(path, rep["backends"])

    small = case
    if kind != "hang":
        left = max(5.0, min(40.0, deadline - boot.real_perf() - 60))
        p = os.fork()  # the shrinker's executions must not disturb this process
        if p == 0:
            try:
                signal.signal(signal.SIGALRM, drivers.on_alarm)
                signal.signal(signal.SIGPROF, drivers.on_alarm)
                c = shrink.shrink(case, kind, pid, seconds=left)
                json.dump(c, open(path + ".small", "w"))
            finally:
                os._exit(0)
        os.waitpid(p, 0)
        try:
            small = json.load(open(path + ".small"))
            os.unlink(path + ".small")
        except Exception:
            small = case
    tries = [(small, ())]
    if small is not case:
        tries.append((case, ()))
    w = f["i"] % NWORKERS
    hist = []
    for pi, (n2, P2, cnt) in enumerate(plan):
        for i in range(w, cnt, NWORKERS):
            if (pi, i) == (f["pi"], f["i"]):
                break
            hist.append((n2, P2, i))
        else:
            continue
        break
    for k in (1, 8, 64, 512, 4096):
        tries.append((case, hist[-k:]))
        if k >= len(hist):
            break
    for c, prefix in tries:
        try:
            ok, dg = write(c, prefix)
        except subprocess.TimeoutExpired:
            ok = False
        if ok:
            rep["trace_digest"] = dg
            rep["case"], rep["prefix"] = c, list(prefix)
            json.dump(rep, open(path, "w"), indent=1, ensure_ascii=False)
            print("violated:", f["v"][0]["kind"], f["v"][0]["tags"], f["v"][0]["msg"][-600:])
            return path
        if boot.real_perf() > deadline:
            break
    print(f"not reproduced in a fresh process: {name} {f['i']} {f['v'][0]}")
    return None


if __name__ == "__main__":
    sys.exit(main())

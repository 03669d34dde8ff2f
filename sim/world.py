"""One simulated run: a pure function of the case (program + operations + configuration)."""
import asyncio
import copy
import gc
import json
import logging
import os
import random
import sys
import weakref
import zlib

from . import boot
from .boot import CLOCK, LOOP, cg
from .host import El, MemRenderer, Monitor, S, SimAbort
from .prog import ABSENT, Env, Interp, ObjM, Real, SNode, Spec, raw, vv
from . import ref as R

from observ import computed, reactive, scheduler, watch

MS = 1_000_000


class InjectedFault(Exception):
    pass


# Failures are of many types: nothing may treat some of them specially.
FAULTS = [InjectedFault] + [
    type("Injected" + t.__name__, (InjectedFault, t), {})
    for t in (TypeError, AttributeError, KeyError, ValueError, RuntimeError, NotImplementedError, AssertionError, IndexError, OSError, NameError, ImportError, LookupError, ArithmeticError)
]


def fault_type(site, n, skip, times):
    return FAULTS[(skip * 5 + times + n * 3 + len(site)) % len(FAULTS)]


class Stop(Exception):
    pass


class TrackDict:
    """Read-only view of a raw dict that records which keys the spec evaluation read."""

    def __init__(self, d, reads):
        self.d, self.reads = d, reads

    def __getitem__(self, k):
        self.reads.add((id(self.d), k))
        return self.d[k]

    def __contains__(self, k):
        self.reads.add((id(self.d), k))
        return k in self.d


def show_refs(x):
    """Chain of references that keeps x alive (debugging aid)."""
    import sys
    import types

    gc.unfreeze()
    todo, via = [x], {id(x): None}
    keep = [todo, via]
    while todo:
        y = todo.pop(0)
        refs = gc.get_referrers(y)
        keep.append(refs)
        for r in refs:
            if isinstance(r, types.FrameType) or id(r) in via or any(r is k for k in keep) or type(r).__name__ in ("list_iterator", "Sim"):
                continue
            via[id(r)] = y
            keep.append(r)
            if isinstance(r, types.ModuleType) or type(r).__name__ in ("Collagraph", "G") or type(r).__module__ == "observ.proxy_db":
                while r is not None:
                    print(type(r), repr(r)[:150], file=sys.stderr)
                    r = via[id(r)]
                return
            todo.append(r)
    print("no root found; last:", file=sys.stderr)
    for r in gc.get_referrers(y):
        print("   <-", type(r), repr(r)[:200], file=sys.stderr)
    while y is not None:
        print(type(y), repr(y)[:150], sys.getrefcount(y), len(gc.get_referrers(y)), gc.is_tracked(y), file=sys.stderr)
        y = via[id(y)]


def birth_sig(type, props):
    return type, tuple(sorted((str(k), id(raw(v))) for k, v in raw(props).items()))


class G:
    """One Collagraph instance with its host and its reference model."""

    def __init__(self, sim, no):
        self.sim = sim
        self.no = no
        self.cg = None
        self.root_desc = None
        self.root_vnode = None
        self.reg = {}
        self.born = {}
        self.root_uid = 0
        self.out_by_inst = {}
        self.top = R.RNode("root", None, None)
        self.hooklog = []
        self.expect_root = False
        self.passes = 0
        self.composed_pass = 0
        self.commits = 0
        self.broken = None
        self.callbacks = 0
        self.cb_gen = 0
        self.cb_seen_pass = 0
        self.has_callback = True
        self.faulted = False
        self.fault_comp = None
        self.fault_site = None
        self.dropped = False
        self.rendered_any = False
        self.abandon = False
        self.sig = None
        self.sync = False


class Sim:
    def __init__(self, case):
        if any(cd["kind"] == "cgx" for cd in case["prog"]["comps"]):
            from . import cgxgen

            comps = [cgxgen.normalise(cd) if cd["kind"] == "cgx" else cd for cd in case["prog"]["comps"]]
            case = dict(case, prog=dict(case["prog"], comps=comps))
        self.case = case
        self.cfg = case.get("cfg", {})
        self.violations = []
        self.stats = {}
        self.fault_stats = {}
        self._trace = []
        self.commit_no = 0
        self.dry = None
        self.calls = []
        self.armed = []
        self.fired = []
        self.fired_in = []
        self.reported = []
        self.uids = 0
        self.provided = {}      # value of "q9" per instance that provides it (at the moment)
        self.injected = {}      # what new instances found for it, and what was provided then
        self.inst_state = {}
        self.inst_gui = {}
        self.inst_ref = {}
        self.objms = {}
        self.guis = []
        self.states = set()
        self.interleave = []
        self.units_in_turn = 0
        self.turn_start = 0
        self.in_turn = False
        self.max_units_per_turn = 0
        self.renders = 0
        self.stop = False
        self.opno = -1
        self.leaks = []
        self.arities = {}
        self.ar_seen = []
        self.real = Real(cg)
        self.spec = Spec()
        self.last_units = 0
        self.deadline_slack = 1 * MS
        # callable objects and templates' closures over replaced items can not be compared, so
        # handlers are replaced although they do the same
        text = json.dumps(case["prog"]["comps"])
        self.glob_over = {}
        self.opaque = "cobj" in text or "fwd" in text or '"kind": "cgx"' in text
        self.sync_budget = 0
        self.inside = 0

    # ------------------------------------------------------------ reporting
    def violate(self, kind, tags, msg):
        if self.dry is not None:
            pass
        self.violations.append({"kind": kind, "tags": sorted(set(tags)), "msg": msg, "op": self.opno})
        self.trace(("VIOLATION", kind, msg))

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def trace(self, item):
        self._trace.append(item)

    @staticmethod
    def show(a):
        a = raw(a)
        if a is None or isinstance(a, (str, int, float, bool)):
            return a
        if isinstance(a, tuple):
            return tuple(Sim.show(x) for x in a)
        return type(a).__name__

    # ------------------------------------------------------------ faults
    def fault(self, site, g=None, comp=None):
        for f in self.armed:
            if (
                f["site"] == site
                and f["times"] > 0
                and (f.get("comp") is None or f["comp"] == comp)
                and (f.get("gui") is None or (g is not None and f["gui"] % len(self.guis) == g.no))
            ):
                if f["skip"] > 0:
                    f["skip"] -= 1
                    continue
                f["times"] -= 1
                exc = fault_type(site, len(self.fired), f["first"], f["times"])(f"{site}#{len(self.fired)}")
                self.fired.append(exc)
                self.fired_in.append(g)
                self.fault_stats[site] = self.fault_stats.get(site, 0) + 1
                self.trace(("fault", site))
                raise exc

    def disarm(self):
        self.armed = []

    # ------------------------------------------------------------ handlers
    def fire(self, desc, effect=None, args=None, ar=None):
        if self.dry is not None:
            if ar is not None:
                self.ar_seen.append(ar)
            self.dry.append(desc if args is None or not self.dry_args else (desc, repr(args)))
            return self.result(desc)
        if self.inside:
            # a signal emitted by the toolkit while an attribute was set
            if self.sync_budget <= 0:
                return self.result(desc)
            self.sync_budget -= 1
            self.stat("toolkit_signal")
        self.calls.append(desc)
        self.trace(("call", desc[0], desc[1] if isinstance(desc[1], (int, str)) else 0))
        self.fault("handler")
        if effect is not None:
            effect()
        return self.result(desc)

    @staticmethod
    def result(desc):
        # what a handler returns means nothing
        return (None, False, True, 0, "stop", None)[zlib.crc32(repr(desc[:2]).encode()) % 6]

    def dry_call(self, fn, *args, **kwargs):
        self.dry, self.dry_args = [], bool(kwargs)
        try:
            fn(*args, **kwargs)
            return list(self.dry)
        finally:
            self.dry = None

    def uid(self, inst):
        return inst._sim_uid

    def objm(self, item):
        r = raw(item)
        o = self.objms.get(id(r))
        if o is None:
            o = self.objms[id(r)] = ObjM(self, r)
        return o

    def writable(self, item):
        return reactive(raw(item))

    # ------------------------------------------------------------ program
    def tname(self, t):
        return getattr(t, "__name__", str(t))

    def make_types(self):
        self.comp_types = [None] * len(self.case["prog"]["comps"])
        cgx = []
        for i, cd in enumerate(self.case["prog"]["comps"]):
            if cd["kind"] == "func":
                self.comp_types[i] = self.make_func(i, cd)
            elif cd["kind"] == "class":
                self.comp_types[i] = self.make_class(i, cd)
            else:
                cgx.append(i)
        for i in reversed(cgx):
            from . import cgxgen

            self.comp_types[i] = cgxgen.make(self, i, self.case["prog"]["comps"][i])
        self.comp_index = {t: i for i, t in enumerate(self.comp_types)}

    def touch(self, i):
        # every component reads its own "heal" key first
        return self.store["h%d" % i]

    def make_func(self, i, cd):
        sim = self

        def comp(props, slots=None):
            g, entry = sim.find_entry(props)
            sim.render_start(g, entry, i)
            sim.touch(i)
            sim.fault("render", g, i)
            env = Env(sim, cd, None, props, None, slots)
            out = sim.real.node(cd["root"], env)
            sim.render_end(g, entry, None, out)
            return out

        comp.__name__ = comp.__qualname__ = "F%d" % i
        return comp

    def class_ns(self, i, cd):
        sim = self

        def __init__(self, props=None, parent=None):
            cg.Component.__init__(self, props, parent)
            sim.on_ctor(self, props, i, cd)

        def m0(self, *a):
            return sim.fire(("meth", "m0", sim.uid(self)))

        def m1(self, *a):
            def effect():
                if "k0" in raw(self.state):
                    self.state["k0"] = (raw(self.state)["k0"] + 1) % 5

            return sim.fire(("meth", "m1", sim.uid(self)), effect)

        def mounted(self):
            sim.on_hook(self, "mounted", cd)

        def updated(self):
            sim.on_hook(self, "updated", cd)

        def before_unmount(self):
            sim.on_hook(self, "before_unmount", cd)

        def cmp(self, name):
            return sim.computed(name, self)

        return dict(__init__=__init__, cmp=cmp, m0=m0, m1=m1, mounted=mounted, updated=updated, before_unmount=before_unmount)

    def make_class(self, i, cd):
        sim = self
        ns = self.class_ns(i, cd)

        def render(self):
            g = sim.inst_gui[self._sim_uid]
            sim.render_start(g, self, i)
            sim.touch(i)
            sim.fault("render", g, i)
            env = Env(sim, cd, self, self.props, self.state, self._slots)
            out = sim.real.node(cd["root"], env)
            sim.render_end(g, None, self, out)
            return out

        ns["render"] = render
        return type("C%d" % i, (cg.Component,), ns)

    # ------------------------------------------------------------ callbacks from user code
    def find_entry(self, props):
        k = id(raw(props))
        for g in self.guis:
            if k in g.reg:
                return g, g.reg[k]
        self.violate("zombie", ["C12", "C01", "C18"], "a component is rendered with props that no description on screen gives it")
        self.stop = True
        raise SimAbort()

    def active_gui(self):
        """The UI that is at work: the nearest caller that belongs to one."""
        f = sys._getframe(1)
        while f is not None:
            for v in f.f_locals.values():
                if isinstance(v, cg.Collagraph):
                    for g in self.guis:
                        if g.cg_ref() is v:
                            return g
            f = f.f_back

    def find_birth(self, inst, props):
        """The UI and the descriptions on screen which can be what this instance is made for.

        A component gets the props of its description or props of its own that are equal.
        """
        sig = birth_sig(type(inst), props)
        g = self.active_gui() if len(self.guis) > 1 else None
        for g in [g] if g else self.guis:
            if any(e.get("sig") == sig for e in g.reg.values()):
                return g, sig
        return self.find_entry(props)[0], sig

    def on_ctor(self, inst, props, i, cd):
        g, sig = self.find_birth(inst, props)
        self.uids += 1
        uid = self.uids
        inst._sim_uid = uid
        g.born.setdefault(sig, []).append((uid, weakref.ref(inst)))
        if type(inst) is g.root_vnode.type and inst.parent is None:
            g.root_uid = uid
        self.inst_state[uid] = "new"
        self.inst_gui[uid] = g
        self.inst_ref[uid] = weakref.ref(inst)
        self.trace(("ctor", i, uid))
        for k, v in (cd.get("state") or {}).items():
            inst.state[k] = copy.deepcopy(v)
        for k in cd.get("provide") or ():
            inst.provide(k, "%s@%d" % (k, uid))
        if self.provided:
            self.injected[uid] = (inst.inject("q9", "none"), dict(self.provided))
        if cd.get("provide") and uid % 2:
            self.provide_late(inst, "ctor@%d" % uid)
        inst._sim_computed = {}
        for k, c in sorted((cd.get("computed") or {}).items()):
            if c["when"] == "ctor":
                self.computed(k, inst)
        self.fault("ctor", g, i)

    def computed(self, name, inst):
        """Value of an observ `computed`, which is created at the first use at the latest."""
        if name[0] == "z":
            cache, c, inst = self.global_computed, self.case["prog"]["computed"][name], None
        else:
            cache, c = inst._sim_computed, self.case["prog"]["comps"][self.comp_index[type(inst)]]["computed"][name]
        if name not in cache:
            self.stat("computed")

            def value():
                env = Env(self, None, inst, inst.props if inst is not None else {}, inst.state if inst is not None else None, None)
                return self.real.ex(c["e"], env)

            cache[name] = computed(value)
        return cache[name]()

    def spend(self):
        self.work += 1
        if self.work > 30000:
            self.work = 0
            self.violate("runaway", ["ALL"], "endless work: more than 30000 renders and renderer calls for one operation")
            self.stop = True
            raise SimAbort()

    work = 0

    def render_start(self, g, who, i):
        self.renders += 1
        self.spend()
        is_root = who is not None and (
            who.get("root") if isinstance(who, dict) else self.is_root_inst(g, who)
        )
        self.boundary(g)
        if not isinstance(who, dict) and self.inst_state[who._sim_uid] == "unmounted":
            self.violate("zombie", ["C12"], f"render() of instance {who._sim_uid}, which has left the UI")
        self.trace(("render", g.no, i))
        self.on_unit(g.no, "render")
        if is_root:
            g.passes += 1
            g.expect_root = False
            g.abandon = False
            root_entry = g.reg.get(id(raw(g.root_vnode.props)))
            g.reg = {id(raw(g.root_vnode.props)): root_entry}
            g.born = {sig: [b for b in born if b[0] == g.root_uid] for sig, born in g.born.items()}
        elif g.expect_root:
            self.violate(
                "torn", ["C02", "C10"],
                "a component of a pass was rendered after that pass had already changed the host tree"
                " or reported completion",
            )
            g.expect_root = False

    def is_root_inst(self, g, inst):
        if g.top.children and g.top.children[0].inst == inst._sim_uid:
            return True
        root = g.root_vnode
        return root.type is type(inst) and g.root_uid == inst._sim_uid

    def render_end(self, g, entry, inst, out):
        if entry is not None:
            entry["out"] = out
        else:
            g.out_by_inst[inst._sim_uid] = out
        self.register(g, out)

    def register(self, g, vnode):
        if callable(vnode.type):
            r = raw(vnode.props)
            if id(r) not in g.reg:
                g.reg[id(r)] = {"raw": r, "sig": birth_sig(vnode.type, r)}
        if not isinstance(vnode.children, dict):
            for c in vnode.children or ():
                self.register(g, c)

    def on_unit(self, gui_no, what):
        """A unit of rendering work begins (one component render or one element creation)."""
        if self.in_turn and not self.guis[gui_no].sync:
            now = CLOCK.peek()
            if self.units_in_turn and now > self.turn_start + 16 * MS - self.deadline_slack:
                self.violate(
                    "deadline", ["C09"],
                    f"unit of work ({what}) started {(now - self.turn_start) / 1e6:.2f} ms into the turn",
                )
            self.units_in_turn += 1

    def on_hook(self, inst, kind, cd):
        uid = inst._sim_uid
        g = self.inst_gui[uid]
        st = self.inst_state[uid]
        self.trace(("hook", kind, uid))
        self.stat("hook_" + kind)
        ok = {"mounted": st == "new", "updated": st == "mounted", "before_unmount": st == "mounted"}[kind]
        if not ok:
            self.violate("lifecycle", ["C05"], f"{kind}() on instance {uid} ({type(inst).__name__}) which is {st}")
        if kind == "mounted":
            self.inst_state[uid] = "mounted"
        if kind == "before_unmount":
            self.inst_state[uid] = "unmounted"
        att = frozenset(s.uid for s in g.shadow_root.walk())
        el = inst.element
        eu = None
        if el is not None:
            s = self.shadow_of(g, el)
            eu = s.uid if s is not None else "?"
        g.hooklog.append((kind, uid, att, eu))
        self.fault("hook", g, self.comp_index.get(type(inst)))
        for eff in (cd.get("hooks") or {}).get(kind, ()):
            if eff[0] == "setl" and eff[1] in raw(inst.state):
                inst.state[eff[1]] = eff[2]
            elif eff[0] == "sets":
                self.store[eff[1]] = eff[2]
            elif eff[0] == "emit":
                inst.emit(eff[1], eff[2])

    def shadow_of(self, g, el):
        if g.mon.mem:
            return getattr(el, "shadow", None)
        return g.mon.by_id.get(id(el))

    # ------------------------------------------------------------ checking
    def boundary(self, g):
        if g.dropped:
            return
        if g.mon is not None and (g.mon.mutations or g.hooklog):
            self.check_commit(g)

    def check_commit(self, g):
        self.commit_no += 1
        g.commits += 1
        # whether there was an update in between without any observable effect
        g.skipped = g.passes - g.composed_pass > 1
        g.composed_pass = g.passes
        g.expect_root = True
        old_top = g.top
        top = R.RNode("root", None, None)
        comp = R.Compose(self, g)
        top.children = comp.match([g.root_vnode], old_top, top)
        diff = R.Diff()
        for m in comp.missing:
            diff.add("structure", [], m)
        R.compare(list(top.host_children()), g.shadow_root, diff, "")
        self.states.add(hash(R.canon_shadow(g.shadow_root)))
        self.trace(("commit", g.no, R.canon_shadow(g.shadow_root)))
        g.broken = diff.items or None
        hosts = [n for n in top.walk() if n.kind in ("host", "text")]
        for n in hosts:
            n.uid = n.tmp.uid if n.tmp is not None else None
        if diff.items:
            for kind, tags, msg in diff.items[:3]:
                self.violate(kind, ["C02"] + tags, "after an update: " + msg)
            self.stop = True
        elif not self.stop:
            self.check_identity(g, top, hosts, old_top)
            self.check_handlers(g, top)
            self.check_writes(g, top, old_top)
            sig = self.sig(top)
            if g.sig == sig and g.top.children and not g.skipped:
                boxes = {b for x in g.top.walk() for b in x.boxes}
                moved = [e for e in g.mon.log if e[2] and e[0] not in ("listen", "unlisten") and not (e[0] in ("set", "unset") and e[3] in boxes)]
                if moved:
                    self.violate("needless", ["C24", "C07"], f"nothing described changed, but the host tree was touched: {moved[:3]}")
            g.sig = sig
            self.check_lifecycle(g, top, old_top)
            if self.tool is not None:
                self.tool.check(g)
            self.check_dict(g)
        g.top = top
        for n in top.walk():
            n.tmp = None
            n.old = None
        old_top.drop_payload()
        live = {n.inst for n in top.walk() if n.inst is not None}
        for k in [k for k in g.out_by_inst if k not in live]:
            # outputs of instances that are not (or no longer) on screen
            if self.inst_state.get(k) == "unmounted":
                del g.out_by_inst[k]
        g.mon.end_commit()
        g.hooklog = []

    def check_identity(self, g, top, hosts, old_top):
        olds = {n.uid for n in old_top.walk() if n.kind in ("host", "text")}
        for n in hosts:
            if n.matched:
                if n.uid != n.old.uid:
                    self.violate(
                        "identity", ["C04"],
                        f"{n.type} (key {n.key!r}) should have kept element #{n.old.uid} but shows #{n.uid}"
                        + (" (an element that belonged to another node)" if n.uid in olds else " (recreated)"),
                    )
            elif n.uid in olds:
                self.violate("identity", ["C04"], f"new {n.type} (key {n.key!r}) reuses element #{n.uid} of another node")
        if not g.skipped:
            taken = {e[1] for e in g.mon.log if e[0] == "remove" and e[2]}
            for n in hosts:
                if n.matched and n.uid in taken:
                    p = n.parent
                    while p.parent is not None and p.kind not in ("host", "text") and not p.moved:
                        p = p.parent
                    if not p.moved:
                        self.violate("needless-move", ["C04"], f"{n.type}#{n.uid} was taken out and put back although the order of the kept siblings is the same")
        for n in top.walk():
            if n.kind == "comp" and n.inst is not None:
                if n.matched and n.old.inst != n.inst:
                    self.violate("identity", ["C04"], f"component {self.tname(n.type)} changed its instance")

    def handler_desc(self, fn, *args, **kwargs):
        if id(fn) in self.arities:
            return [self.arities[id(fn)].desc]
        try:
            d = self.dry_call(fn, "EV", *args, **kwargs)
        except Exception as e:  # noqa
            return [("raised", repr(e))]
        return d

    def check_handlers(self, g, top):
        evs = self.case["prog"].get("events") or []
        for n in top.walk():
            if n.kind == "host":
                s = n.tmp
                if s is None:
                    continue
                hd = {}
                for ev in sorted(set(n.handlers) | set(s.handlers)):
                    have = s.handlers.get(ev, [])
                    want = n.handlers.get(ev)
                    if want is None:
                        self.violate("handler", ["C06"], f"{n.type}#{s.uid}: {len(have)} handler(s) left for {ev}, none described")
                        continue
                    wd = self.handler_desc(want)
                    hd[ev] = tuple(wd)
                    got = [x for h in have for x in self.handler_desc(h)]
                    if got != wd:
                        self.violate("handler", ["C06"], f"{n.type}#{s.uid}: {ev} would do {got}, described {wd}")
                n.props = hd or None
            elif n.kind == "comp" and n.inst is not None and n.instref is not None:
                inst = n.instref()
                if inst is None:
                    self.violate("identity", ["C04"], "instance of a displayed component no longer exists")
                    continue
                hd = {}
                for ev in sorted(set(evs) | set(n.handlers)):
                    want = n.handlers.get(ev)
                    wd = self.handler_desc(want) if want is not None else []
                    got = self.handler_desc(lambda *a: inst.emit(ev, *a))
                    if wd:
                        hd[ev] = tuple(wd)
                    if got != wd:
                        self.violate("handler", ["C06"], f"{self.tname(n.type)}@{n.inst}: emit({ev}) would do {got}, described {wd}")
                    elif want is not None and wd and wd[0][0] == "clos":
                        # all the arguments arrive
                        wd = self.handler_desc(want, 3, k="K")
                        got = self.handler_desc(lambda *a, **kw: inst.emit(ev, *a, **kw), 3, k="K")
                        if got != wd:
                            self.violate("handler", ["C06"], f"{self.tname(n.type)}@{n.inst}: emit({ev}, 'EV', 3, k='K') would do {got}, described {wd}")
                n.props = hd or None
            else:
                n.props = None

    def check_writes(self, g, top, old_top):
        by_uid = {n.uid: n for n in top.walk() if n.kind in ("host", "text")}
        seen = {}
        for e in g.mon.log:
            op, uid, att = e[:3]
            if op not in ("set", "unset", "text"):
                continue
            attr = "#text" if op == "text" else e[3]
            if attr == "key":
                continue
            n = by_uid.get(uid)
            if n is None or (op == "unset" and e[4] is None):
                continue
            seen[(uid, attr)] = seen.get((uid, attr), 0) + 1
            if seen[(uid, attr)] > 1:
                self.violate("write", ["C07"], f"{n.type}#{uid}: {attr} written more than once in one update")
            if n.matched:
                name = "content" if op == "text" else attr
                if name in n.boxes or name in n.old.boxes:
                    continue
                a, b = n.old.attrs.get(name), n.attrs.get(name)
                if a == b and type(a) is type(b):
                    self.violate("write", ["C07"], f"{n.type}#{uid}: {attr} written although it did not change ({b!r})")

    def sig(self, n):
        return (
            n.kind, n.key, n.uid, n.inst, n.boxes, n.nones,
            tuple(sorted((k, R.show(v)) for k, v in n.attrs.items())),
            tuple(sorted(n.props.items())) if n.props else None,
            tuple(self.sig(c) for c in n.children),
        )

    def has_boxes(self, node):
        return any(x.boxes for x in node.walk())

    def own(self, node):
        """Own host elements and texts of a component (nearest enclosing instance)."""
        out, insts = [], []

        def rec(n, depth):
            for c in n.children:
                if c.kind in ("host", "text"):
                    out.append((depth, c.uid, tuple(sorted((k, R.show(v)) for k, v in c.attrs.items()))))
                    rec(c, depth + 1)
                elif c.kind == "comp" and c.inst is not None:
                    insts.append(c.inst)
                else:
                    rec(c, depth)

        rec(node, 0)
        return out, sorted(insts)

    def root_uid(self, node):
        n = node
        while n.kind == "comp":
            if not n.children:
                return None
            n = n.children[0]
        return n.uid if n.kind in ("host", "text") else None

    def check_lifecycle(self, g, top, old_top):
        new = {n.inst: n for n in top.walk() if n.inst is not None}
        old = {n.inst: n for n in old_top.walk() if n.inst is not None}
        cnt = {}
        order = {}
        for idx, (kind, uid, att, eu) in enumerate(g.hooklog):
            cnt[(kind, uid)] = cnt.get((kind, uid), 0) + 1
            order[(kind, uid)] = idx
            node = (old if kind == "before_unmount" else new).get(uid)
            if node is None:
                self.violate("lifecycle", ["C05"], f"{kind}() on instance {uid}, which is not part of this update")
                continue
            if kind == "before_unmount":
                if uid in new:
                    self.violate("lifecycle", ["C05"], f"before_unmount() on instance {uid}, which stays")
                gone = [h.uid for h in node.hosts() if h.uid not in att]
                if gone:
                    self.violate("lifecycle", ["C05"], f"before_unmount() of {uid} ran after its elements {gone} were removed")
            else:
                miss = [h.uid for h in node.walk() if h.kind in ("host", "text") and h.uid not in att]
                if miss:
                    self.violate("lifecycle", ["C05"], f"{kind}() of {uid} ran before its elements {miss} were in the container")
            want = self.root_uid(node)
            if want is not None and eu != want:
                self.violate("element", ["C05"], f"in {kind}() of instance {uid} element is #{eu}, its root element is #{want}")
        for uid, node in new.items():
            if uid not in old:
                c = cnt.get(("mounted", uid), 0)
                if c != 1:
                    self.violate("lifecycle", ["C05"], f"new instance {uid} ({self.tname(node.type)}) got mounted() {c} times")
                if uid in self.injected:
                    got, then = self.injected.pop(uid)
                    self.check_injected(node, got, then, "in the constructor")
            else:
                if cnt.get(("mounted", uid)):
                    self.violate("lifecycle", ["C05"], f"surviving instance {uid} got mounted() again")
                c = cnt.get(("updated", uid), 0)
                o = old[uid]
                changed_own = self.own(o) != self.own(node)
                changed_props = o.attrs != node.attrs
                if c > 1:
                    self.violate("lifecycle", ["C05"], f"instance {uid} got updated() {c} times in one update")
                if c == 0 and (changed_own or changed_props):
                    what = "elements" if changed_own else "props"
                    self.violate("lifecycle", ["C05"], f"instance {uid} ({self.tname(node.type)}): its {what} changed but updated() was not called")
                if c and not g.skipped and self.sig(o) == self.sig(node) and not self.has_boxes(node) and not self.opaque:
                    self.violate("lifecycle", ["C05"], f"instance {uid} got updated() although nothing below it changed")
            if uid in new and uid not in old and cnt.get(("updated", uid)):
                self.violate("lifecycle", ["C05"], f"new instance {uid} got updated() in the update that mounts it")
            # order: children before parents
            own = node.owner()
            while own is not None:
                for k1 in ("mounted", "updated"):
                    for k2 in ("mounted", "updated"):
                        a, b = order.get((k1, uid)), order.get((k2, own.inst))
                        if a is not None and b is not None and a > b:
                            self.violate("lifecycle", ["C05"], f"{k2}() of parent {own.inst} ran before {k1}() of its child {uid}")
                own = own.owner()
        for uid in old:
            if uid not in new:
                c = cnt.get(("before_unmount", uid), 0)
                if c != 1:
                    self.violate("lifecycle", ["C05"], f"instance {uid} left the UI and got before_unmount() {c} times")

    # ------------------------------------------------------------ provide and inject
    def provide_late(self, inst, value):
        inst.provide("q9", value)
        self.provided[inst._sim_uid] = value

    def check_injected(self, node, got, provided, when):
        want, p = "none", node.owner()
        while p is not None:
            if p.inst in provided:
                want = provided[p.inst]
                break
            p = p.owner()
        if got != want:
            self.violate("inject", ["C16"], f"instance {node.inst} injects {got!r} {when}, its nearest provider gives {want!r}")

    def check_injects(self):
        # from the leaves up: a leaf must not depend on what its parents looked up
        for _, node, inst in reversed(self.live_insts()):
            self.check_injected(node, inst.inject("q9", "none"), self.provided, "now")

    def op_prov(self, n, value):
        insts = self.live_insts()
        if insts:
            inst = insts[n % len(insts)][2]
            if value == "same":
                # seen from below only
                inst.inject("q9", "none")
            else:
                self.provide_late(inst, value)
            self.stat("provided_again")
        self.check_injects()

    # ------------------------------------------------------------ settled state
    def spec_inject(self, rnode, key):
        p = rnode.owner() if rnode is not None else None
        while p is not None:
            cd = self.case["prog"]["comps"][self.comp_index[p.type]]
            if key in (cd.get("provide") or ()):
                return "%s@%d" % (key, p.inst)
            p = p.owner()
        return "none"

    def check_settled(self, g, tags=()):
        """No work is pending: the tree must be what a fresh render of the current state gives."""
        tags = list(tags)
        self.note_faults()
        self.boundary(g)
        if g.faulted or g.dropped or not g.rendered_any:
            return
        if g.passes > g.composed_pass and not self.stop:
            # an update without effect on the host tree and without hooks
            self.check_commit(g)
        if g.broken:
            for kind, t, msg in g.broken[:2]:
                self.violate("settled-" + kind, ["C01"] + t + tags, "settled UI: " + msg)
            g.broken = None
            return
        if self.stop:
            return
        if not g.top.children:
            self.violate("settled", ["C01"] + tags, "settled UI: nothing was ever rendered")
            self.stop = True
            return
        self.stat("settled_checks")
        self.settled_bad = 0
        env = Env(self, None, None, {}, None, None)
        want = self.spec.node(g.root_desc, env)
        self.cmp_spec(g, [want], g.top, tags, "")
        if self.settled_bad:
            self.stop = True
        self.check_dict(g)
        if self.tool is not None and not self.stop:
            self.tool.idle()
            if self.tool.check(g):
                self.tool.check_events(g)

    def check_dict(self, g):
        """The dicts of the real DictRenderer are exactly the tree that was asked for."""
        if g.dropped or self.stop or not isinstance(g.mon.inner, cg.DictRenderer):
            return
        self.stat("dict_checks")
        todo = [(g.shadow_root, "")]
        while todo:
            s, path = todo.pop()
            el = s.el
            name = f"{path or 'container'} ({s.type}#{s.uid})"
            bad = []
            if not s.root and el.get("type") != s.type:
                bad.append(f"type is {el.get('type')!r}")
            have, want = list(el.get("children") or ()), [c.el for c in s.children]
            if len(have) != len(want) or any(a is not b for a, b in zip(have, want)):
                by = {id(x.el): f"{x.type}#{x.uid}" for x in g.shadow_root.walk()}
                bad.append(f"children are {[by.get(id(x), 'gone') for x in have]}, described {[by.get(id(x)) for x in want]}")
            if s.type == "TEXT_ELEMENT":
                if el.get("text") != s.text:
                    bad.append(f"text is {el.get('text')!r}, described {s.text!r}")
            elif el.get("text") is not None:
                bad.append(f"text is {el.get('text')!r}, but it is not a text")
            have = dict(el.get("attrs") or {})
            if have.keys() != s.attrs.keys():
                bad.append(f"attributes are {sorted(have)}, described {sorted(s.attrs)}")
            else:
                for k, v in s.attrs.items():
                    if have[k] is not v and (type(raw(have[k])) is not type(raw(v)) or raw(have[k]) != raw(v)):
                        bad.append(f"attribute {k} is {have[k]!r}, described {v!r}")
            have = {k: set(v) for k, v in (el.get("handlers") or {}).items() if v}
            if have != {k: set(v) for k, v in s.handlers.items() if v}:
                bad.append(f"handlers of {sorted(have)}, described {sorted(s.handlers)}, or other functions")
            if bad:
                self.violate("dict", ["C25"], f"{name}: {bad[0]}")
                return
            todo += [(c, path + "/" + c.type) for c in s.children]

    def bad_settled(self, kind, tags, msg):
        self.settled_bad += 1
        if self.settled_bad <= 3:
            self.violate("settled-" + kind, ["C01"] + list(tags), "settled UI: " + msg)

    def cmp_spec(self, g, snodes, rparent, tags, path):
        rn = rparent.children
        ks = [(s.kind, s.key, s.type if s.kind != "comp" else "C%s" % s.type) for s in snodes]
        kr = [(r.kind, r.key, r.type if r.kind != "comp" else "C%s" % self.comp_index.get(r.type)) for r in rn]
        if ks != kr:
            t = []
            if sorted(map(repr, ks)) == sorted(map(repr, kr)):
                t.append("C03")
            odd = [x for x in ks if x not in kr] + [x for x in kr if x not in ks]
            for x in odd:
                t += R.feature_tags(x[2])
            if any(x[2] == "slot" for x in odd):
                t.append("C17")
            self.bad_settled("structure", tags + t, f"{path}: displayed {kr}, current state describes {ks}")
            return
        for s, r in zip(snodes, rn):
            p = f"{path}/{s.type}"
            if s.kind == "text":
                if s.text != r.attrs["content"]:
                    self.bad_settled("text", tags + ["C07"], f"{p}: text {r.attrs['content']!r}, current state gives {s.text!r}")
                continue
            want = {k: R.snap(v) for k, v in s.attrs.items() if v is not None and not R.boxed(v)}
            if want != r.attrs and s.kind != "virt":
                for k in sorted(set(want) | set(r.attrs)):
                    if want.get(k) != r.attrs.get(k):
                        self.bad_settled(
                            "attr", tags + ["C07"] * (s.kind == "host") + R.feature_tags(s.type, k),
                            f"{p}: {k} shows {r.attrs.get(k)!r}, current state gives {want.get(k)!r}",
                        )
            hd = {k.lower(): [v] for k, v in s.handlers.items()}
            if s.kind == "host":
                sh = self.find_shadow(g, r.uid)
                if sh is not None:
                    have = {ev: [x for h in hs for x in self.handler_desc(h)] for ev, hs in sh.handlers.items() if hs}
                    if have != hd:
                        self.bad_settled("handler", tags + ["C06"], f"{p}#{r.uid}: handlers do {have}, current state gives {hd}")
                self.cmp_spec(g, s.children, r, tags, p)
            elif s.kind == "virt":
                self.cmp_spec(g, s.children, r, tags, p)
            else:
                cd = self.case["prog"]["comps"][s.type]
                inst = r.instref() if r.instref is not None else None
                state = raw(inst.state) if inst is not None else None
                if inst is not None:
                    have = {ev: self.handler_desc(lambda *a, ev=ev: inst.emit(ev, *a)) for ev in (self.case["prog"].get("events") or ())}
                    have = {k: v for k, v in have.items() if v}
                    if have != hd:
                        self.bad_settled("handler", tags + ["C06"], f"{p}@{r.inst}: emitted events do {have}, current state gives {hd}")
                    seen = {k: R.content(v) for k, v in raw(inst.props).items() if not k.startswith("on_") and k != "key" and raw(v) is not None}
                    passed = {k: R.content(v) for k, v in s.attrs.items() if v is not None}
                    if seen != passed:
                        self.bad_settled("props", tags + ["C18"], f"{p}@{r.inst}: sees props {seen}, its parent passes {passed}")
                    own = r.owner()
                    par = inst.parent
                    if (par._sim_uid if par is not None else None) != (own.inst if own is not None else None):
                        self.bad_settled("parent", tags + ["C16"], f"{p}@{r.inst}: parent is {par and par._sim_uid}, nearest enclosing instance is {own and own.inst}")
                    wu = self.root_uid(r)
                    if wu is not None:
                        el = inst.element
                        sh = self.shadow_of(g, el) if el is not None else None
                        if sh is None or sh.uid != wu:
                            self.settled_bad += 1
                            self.violate("element", ["C05"], f"settled: element of instance {r.inst} is #{sh and sh.uid}, its root element is #{wu}")
                env = Env(self, cd, r.inst, {k: v for k, v in s.attrs.items()}, TrackDict(state, self.reads) if (state is not None and self.reads is not None) else state, s.slots, ref=r)
                sub = [t for t in tags if t != "C19"] + (["C19"] if cd["kind"] == "cgx" else [])
                self.cmp_spec(g, [self.spec.node(cd["root"], env)], r, sub, p)

    reads = None
    tool = None

    def get_tool(self, backend):
        from . import backends

        if self.tool is None:
            self.tool = backends.make_tool(self, backend)
        return self.tool

    def glob_value(self, comp, name):
        for i, cd in enumerate(self.case["prog"]["comps"]):
            if cd is comp:
                return self.glob_over.get((i, name), "glob-" + name)
        raise AssertionError(name)

    def op_gset(self, n, name, value):
        """A module global changes, and everything renders again."""
        cs = [i for i, cd in enumerate(self.case["prog"]["comps"]) if ((cd.get("names") or {}).get(name) or {}).get("glob")]
        if cs:
            i = cs[n % len(cs)]
            self.globs[i][name] = self.glob_over[i, name] = value
            self.bump(None)

    def find_shadow(self, g, uid):
        for s in g.shadow_root.walk():
            if s.uid == uid:
                return s

    # ------------------------------------------------------------ running
    def start_gui(self, no):
        g = G(self, no)
        backend = self.cfg.get("backend", "mem")
        if self.cfg.get("shared_renderer") and self.guis:
            inner = self.guis[0].mon.inner
        else:
            inner = self.make_inner(backend)
        g.mon = Monitor(self, no, inner)
        g.container = self.make_container(backend, g)
        g.shadow_root = g.mon.adopt_root(g.container)
        modes = self.cfg.get("modes") or [self.cfg.get("mode")]
        g.sync = modes[no % len(modes)] == "sync"
        et = cg.EventLoopType.SYNC if g.sync else cg.EventLoopType.DEFAULT
        how = self.cfg.get("how_mode", 0)
        if how == 1 or (how == 2 and not g.sync):
            # what the renderer prefers, or nobody has a preference
            g.mon.pref = et if how == 1 else None
            et = None
        elif how == 3:
            # what is asked for outweighs what the renderer prefers
            g.mon.pref = cg.EventLoopType.DEFAULT if g.sync else cg.EventLoopType.SYNC
        g.cg = cg.Collagraph(g.mon, event_loop_type=et)
        g.cg_ref = weakref.ref(g.cg)
        if g.mon.registered != (0 if g.sync else 1):
            self.violate(
                "register", ["C23"] if g.sync else ["C20", "C01"],
                f"the renderer was asked {g.mon.registered} times to integrate with asyncio ({'synchronous' if g.sync else 'default'} mode)",
            )
        self.guis.append(g)
        return g

    def make_inner(self, backend):
        if backend == "mem":
            return MemRenderer()
        if backend == "dict":
            return cg.DictRenderer()
        from . import backends

        return backends.make_inner(self, backend)

    def make_container(self, backend, g):
        if backend == "mem":
            return El()
        if backend == "dict":
            return {"type": "root"}
        from . import backends

        return backends.make_container(self, backend, g)

    def root_node(self, variant):
        roots = self.case["prog"]["roots"]
        return roots[variant % len(roots)]

    alone = None

    def do_render(self, g, variant):
        if self.alone is not None and g is not self.alone:
            return
        desc = self.root_node(variant)
        self.boundary(g)
        g.root_desc = desc
        env = Env(self, None, None, {}, None, None)
        vnode = self.real.node(desc, env)
        if g.root_vnode is not None and g.root_vnode.type is not vnode.type:
            # what was at the root, can't be what is made for this description
            g.root_uid = None
        g.root_vnode = vnode
        r = raw(vnode.props)
        g.reg = dict(g.reg)
        g.reg[id(r)] = {"raw": r, "root": True, "sig": birth_sig(vnode.type, r)}
        g.expect_root = False
        g.cb_gen += 1
        gen = g.cb_gen
        g.rendered_any = True
        g.faulted = False
        g.render_at_pass = g.passes
        self.trace(("op-render", g.no, variant))
        # the callback is optional
        g.has_callback = gen == 1 or (self.opno + g.no) % 3 != 1
        if g.has_callback:
            g.cg.render(vnode, g.container, lambda: self.on_callback(g, gen))
        else:
            self.stat("renders_without_callback")
            g.cg.render(vnode, g.container)

    def on_callback(self, g, gen):
        self.boundary(g)
        self.trace(("callback", g.no, gen))
        self.stat("callbacks")
        if gen != g.cb_gen:
            self.violate("callback", ["C10"], "the callback of a replaced render() was called")
        if g.passes <= g.cb_seen_pass:
            self.violate("callback", ["C10"], "callback called although no update was completed since its last call")
        g.cb_seen_pass = g.passes
        g.expect_root = True
        g.callbacks += 1
        # (a watch that runs first can cause an update while not everyone was told of the change)
        if not self.stop and self.dry is None and not (g.sync and self.watches):
            n = len(self.violations)
            self.check_settled(g)
            for v in self.violations[n:]:
                v["tags"] = sorted(set(v["tags"]) | {"C10"})
                v["msg"] = "when the render callback was called: " + v["msg"]
        self.fault("callback", g)

    def turn(self):
        """One event-loop turn."""
        self.in_turn = True
        self.turn_start = CLOCK.peek()
        self.units_in_turn = 0
        before = len(LOOP.errors)
        r0, c0 = self.renders, sum(g.mon.total_calls for g in self.guis)
        t0 = CLOCK.peek()
        if self.cfg.get("gc_every"):
            gc.collect()
        ok = LOOP.step()
        self.in_turn = False
        if not ok:
            return False
        self.stat("turns")
        self.max_units_per_turn = max(self.max_units_per_turn, self.units_in_turn)
        self.interleave.append("t")
        for e in LOOP.errors[before:]:
            self.seen_exception(e)
        self.note_faults()
        for g in self.guis:
            self.boundary(g)
            if g.sync:
                self.check_settled(g, ["C23"])
        n = len(self.guis) + bool(self.watches)
        if len(LOOP.pending()) > n:
            self.violate("chains", ["C09"], f"{len(LOOP.pending())} callbacks are queued for {n} UI(s): more than one chain of work")
            self.stop = True
        return True

    def seen_exception(self, e):
        stack, seen = [e], set()
        inj = False
        while stack:
            x = stack.pop()
            if x is None or id(x) in seen:
                continue
            seen.add(id(x))
            if isinstance(x, InjectedFault):
                inj = True
                self.reported.append(x)
            stack += [x.__cause__, x.__context__]
            stack += list(getattr(x, "exceptions", ()) or ())
        if isinstance(e, SimAbort):
            self.stop = True
            return
        if not inj:
            import traceback

            tb = "".join(traceback.format_exception(e)[-4:]) if isinstance(e, BaseException) else repr(e)
            self.violate("exception", ["ALL"], "unexpected exception: " + tb[-700:])
            self.stop = True
        elif not isinstance(e, InjectedFault) and not getattr(e, "exceptions", None):
            import traceback

            # a secondary error while handling an injected fault
            self.violate("exception", ["C11"], "secondary exception after a failure: " + repr(e))
            self.stop = True

    def guarded(self, fn):
        try:
            return fn()
        except SimAbort:
            self.stop = True
        except Stop:
            raise
        except Exception as e:
            self.seen_exception(e)

    def max_size(self, most):
        total = 0
        for r in self.case["prog"]["roots"]:
            try:
                total = max(total, self.spec_size(self.spec.node(r, Env(self, None, None, {}, None, None)), most))
            except OverflowError:
                return most + 1
        return total

    def limit_size(self, most=250):
        """Keep trees small: many short runs reach more than a few long ones."""
        for n in (5, 4, 3, 2, 1, 0):
            if self.max_size(most) <= most:
                return
            for k in self.raw:
                if isinstance(self.raw[k], list):
                    del self.raw[k][n:]
                    for it in self.raw[k]:
                        del it["n"][n:]

    def spec_size(self, s, most):
        self._size = 0
        return self._spec_size(s, most)

    def _spec_size(self, s, most):
        self._size += 1
        if self._size > most:
            raise OverflowError
        if s.kind != "comp":
            return 1 + sum(self._spec_size(c, most) for c in s.children)
        cd = self.case["prog"]["comps"][s.type]
        state = dict(cd.get("state") or {})
        return 1 + self._spec_size(self.spec.node(cd["root"], Env(self, cd, None, s.attrs, state, s.slots)), most)

    def drain(self, extra=0):
        """Run until the loop is idle; the number of turns needed is bounded."""
        # hooks and handlers can cause further passes
        bound = (len(self.case["prog"]["comps"]) * 2 + 8) * len(self.guis)
        start = sum(g.passes for g in self.guis)
        used = 0
        while not LOOP.idle() and not self.stop:
            self.turn()
            used += 1
            passes = sum(g.passes for g in self.guis) - start
            if used > 20000 or passes > bound:
                self.violate(
                    "liveness", ["C09", "C01"],
                    f"did not settle within {used} turns and {passes} passes although the state no longer changes",
                )
                self.stop = True
        self.check_watches(["C01", "C09"])
        if self.stop and self.violations:
            # let what is scheduled run, to see whether the damage is lasting
            for _ in range(400):
                if LOOP.idle():
                    break
                try:
                    self.turn()
                except Exception:
                    break
        return used

    def quiesce(self, tags=()):
        self.drain()
        for g in self.guis:
            self.check_settled(g, tags)
        if not self.stop:
            self.check_idle()

    def check_idle(self):
        for g in self.guis:
            if g.dropped or g.faulted or not g.rendered_any:
                continue
            if g.has_callback and g.cb_seen_pass < g.passes:
                self.violate("callback", ["C10"], "UI settled after a completed update but the callback was not called")
                g.cb_seen_pass = g.passes

    # -- operations
    def run(self):
        prev = None
        LOOP.reset()
        CLOCK.reset(self.cfg.get("cost") or [0])
        reset_globals()
        CAPTURE.sim = self
        try:
            self._run()
        except Stop:
            pass
        except SimAbort:
            pass
        finally:
            self.sim_time = CLOCK.peek() - 1_000_000_000_000
            self.cleanup()
        return self

    def cleanup(self):
        if self.tool is not None:
            self.tool.close()
            self.tool = None
        LOOP.ready = []
        LOOP.timers = []
        for g in self.guis:
            g.cg = None
            g.mon = None

    def _run(self):
        prog = self.case["prog"]
        self.raw = copy.deepcopy(prog["store"])
        for i in range(len(prog["comps"])):
            self.raw.setdefault("h%d" % i, 0)
        self.raw.setdefault("zz", 0)
        # in synchronous mode every single change of a list item is an update
        self.limit_size(120 if "sync" in (self.cfg.get("modes") or [self.cfg.get("mode")]) else 250)
        self.store = reactive(self.raw)
        self.global_computed = {}
        for k, c in sorted((prog.get("computed") or {}).items()):
            if c["when"] == "ctor":
                self.computed(k, None)
        self.make_types()
        for no in range(self.cfg.get("guis", 1)):
            self.start_gui(no)
        self.watches = [self.watch(k) for k in prog.get("watch") or ()]
        self.initial_faults()
        if self.cfg.get("solo") is not None:
            # the same operations, but only one of the UIs exists
            self.alone = self.guis[self.cfg["solo"]]
        for no, g in enumerate(list(self.guis)):
            self.opno = 0
            if self.cfg.get("late_start") and no > 0:
                continue
            self.guarded(lambda: self.do_render(g, no))
            self.after_op()
        for i, op in enumerate(self.case["ops"]):
            if self.stop:
                break
            if self.renders > 3000:
                # long enough
                self.stat("truncated")
                break
            self.opno = i + 1
            self.interleave.append(op[0])
            self.guarded(lambda: self.op(op))
            self.after_op()
        self.opno = len(self.case["ops"]) + 1
        if not self.stop:
            self.heal_all()
        self.guarded(self.quiesce)
        self.end_checks()
        if self.cfg.get("release") and not self.stop and not self.fired:
            self.guarded(self.check_release)

    def check_release(self):
        """What left the UI is garbage once two more updates were applied."""
        for _ in range(2):
            self.work = 0
            self.bump(None)
            self.drain()
            for g in self.guis:
                self.boundary(g)
        if self.stop:
            return
        # the simulator's own references
        elements = {g: g.mon.elements for g in self.guis}
        for g in self.guis:
            if g.dropped:
                g.mon = g.shadow_root = g.root_vnode = None
                g.reg, g.born, g.out_by_inst, g.hooklog = {}, {}, {}, []
                g.top = R.RNode("root", None, None)
                continue
            live = {n.inst for n in g.top.walk() if n.inst is not None}
            g.out_by_inst = {k: v for k, v in g.out_by_inst.items() if k in live}
            props = {id(x) for n in g.top.walk() for x in [n.props] if x is not None}
            for n in g.top.walk():
                n.old = n.tmp = None
        LOOP.errors = []
        self.calls = []
        # What only observ keeps alive does not count: its proxy_db holds every target that is
        # part of a cycle for good
        from observ.proxy_db import proxy_db

        gc.collect()
        proxy_db.db.clear()
        gc.collect()
        for g in self.guis:
            live = {n.inst for n in g.top.walk() if n.inst is not None} if not g.dropped else set()
            for uid, w in self.inst_ref.items():
                if self.inst_gui[uid] is g and uid not in live and w() is not None:
                    state = self.inst_state[uid]
                    self.violate("leak", ["C12"], f"instance {uid} ({type(w()).__name__}, {state}) is not in the UI but still alive two updates later")
                    if os.environ.get("SIM_REFS"):
                        show_refs(w())
                    return
            shown = {s.uid for s in g.shadow_root.walk()} if not g.dropped else {0}
            for uid, w in elements[g]:
                el = w()
                if el is not None and uid not in shown:
                    self.violate("leak", ["C12"], f"host element #{uid} ({el.type}) is not in the UI but still alive two updates later")
                    if os.environ.get("SIM_REFS"):
                        show_refs(el)
                    return
            self.stat("released_instances", len([u for u in self.inst_ref if self.inst_gui[u] is g]) - len(live))
            self.stat("released_elements", len(elements[g]) - len(shown) + 1)

    def watch(self, key):
        """The application keeps a copy of a part of its state with observ's `watch`."""

        def changed(new, old):
            self.stat("watch_callbacks")
            self.store["w" + key] = new

        return watch(lambda: self.store[key], changed)

    def check_watches(self, tags):
        for k in self.case["prog"].get("watch") or ():
            if self.raw[k] != self.raw["w" + k] and not self.stop:
                self.violate("watch", tags, f"the callback of a watch on {k!r} has not run: the copy is {self.raw['w' + k]!r}, the value {self.raw[k]!r}")

    def initial_faults(self):
        for f in self.cfg.get("faults0") or ():
            self.armed.append(dict(site=f[0], skip=f[1], first=f[1], times=f[2], comp=None))

    def after_op(self):
        for g in self.guis:
            self.boundary(g)
        self.note_faults()
        if len(LOOP.pending()) > len(self.guis) + bool(self.watches):
            self.violate("chains", ["C09"], f"{len(LOOP.pending())} callbacks are queued for {len(self.guis)} UI(s)")
            self.stop = True
        for g in self.guis:
            if g.sync:
                self.check_settled(g, ["C23"])
        if all(g.sync for g in self.guis):
            if not LOOP.idle():
                self.violate("sync", ["C23"], "synchronous mode scheduled work on an event loop")
            self.check_watches(["C23", "C01"])

    def note_faults(self):
        """After faults fired, the display may lag until healed."""
        if len(self.fired) > getattr(self, "_noted", 0):
            for x in self.fired_in[getattr(self, "_noted", 0):]:
                for g in self.guis:
                    if x is None or x is g:
                        g.faulted = True
            self._noted = len(self.fired)

    def op(self, op):
        k = op[0]
        self.sync_budget = 6
        self.work = 0
        f = getattr(self, "op_" + k)
        self.trace(("op",) + tuple(map(str, op)))
        if self.cfg.get("gc_every"):
            gc.collect()
        f(*op[1:])

    # state changes
    def lst(self, key):
        return self.store[key]

    def op_set(self, key, value):
        self.expect_quiet(self.raw, key, value)
        self.store[key] = value
        self.end_quiet()

    def op_tog(self, key):
        self.op_set(key, not self.raw[key])

    def op_irrel(self, value):
        self.expect_quiet(self.raw, "zz", value)
        self.store["zz"] = value
        self.end_quiet()

    quiet = None
    watches = ()

    def expect_quiet(self, container, key, value):
        """If the loop is idle and nothing displayed reads the key, the change must cost nothing."""
        self.quiet = None
        if not self.cfg.get("track") or self.stop or any(g.faulted for g in self.guis):
            return
        if not LOOP.idle() or key in (self.case["prog"].get("watch") or ()):
            return
        self.reads = set()
        saved = self.raw
        self.raw = TrackDict(saved, self.reads)
        try:
            n = len(self.violations)
            for g in self.guis:
                if g.top.children and not g.dropped:
                    env = Env(self, None, None, {}, None, None)
                    self.settled_bad = 0
                    self.cmp_spec(g, [self.spec.node(g.root_desc, env)], g.top, [], "")
            del self.violations[n:]
        finally:
            self.raw = saved
        # components touch their heal key
        for g in self.guis:
            for r in g.top.walk():
                if r.kind == "comp":
                    self.reads.add((id(saved), "h%d" % self.comp_index[r.type]))
        reads, self.reads = self.reads, None
        if (id(container), key) not in reads:
            self.quiet = (key, self.renders, [g.mon.total_calls for g in self.guis], len(LOOP.pending()))

    def end_quiet(self):
        if self.quiet is None:
            return
        key, renders, calls, pend = self.quiet
        self.quiet = None
        self.stat("irrelevant_changes")
        if self.renders != renders or [g.mon.total_calls for g in self.guis] != calls or len(LOOP.pending()) != pend:
            self.violate(
                "needless", ["C24", "C12"],
                f"changing {key!r}, which nothing displayed reads, caused work"
                f" ({self.renders - renders} renders, {len(LOOP.pending()) - pend} callbacks scheduled)",
            )

    def fresh_ids(self, lst, item):
        return all(raw(x)["id"] != item["id"] for x in raw(lst))

    def op_ins(self, key, idx, item):
        l = self.lst(key)
        if self.fresh_ids(l, item) and self.fits(raw(l), item):
            l.insert(idx % (len(raw(l)) + 1), copy.deepcopy(item))

    def op_del(self, key, idx):
        l = self.lst(key)
        if len(raw(l)):
            del l[idx % len(raw(l))]

    def op_move(self, key, i, j):
        l = self.lst(key)
        n = len(raw(l))
        if n:
            new = list(raw(l))
            x = new.pop(i % n)
            new.insert(j % n, x)
            l[:] = new

    def op_rev(self, key):
        self.lst(key).reverse()

    def op_swap(self, key, i, j):
        l = self.lst(key)
        n = len(raw(l))
        if n > 1:
            new = list(raw(l))
            i, j = i % n, j % n
            new[i], new[j] = new[j], new[i]
            l[:] = new

    def op_repl(self, key, items):
        self.assign(key, copy.deepcopy(items))

    def fits(self, lst, item):
        """Whether the tree stays small with this item."""
        if len(lst) < 3:
            return True
        lst.append(item)
        try:
            return self.max_size(400) <= 400
        finally:
            lst.pop()

    def assign(self, key, new):
        # An assignment of an equal value goes unnoticed in observ (not part of collagraph)
        if new != self.raw[key]:
            self.store[key] = new

    def op_recopy(self, key, idx, field, value):
        """Replace a list by equal copies of its items, one of them changed."""
        new = copy.deepcopy(self.raw[key])
        if new:
            new[idx % len(new)][field] = value
        self.assign(key, new)

    def op_clear(self, key):
        self.lst(key).clear()

    def op_perm(self, key, seed):
        l = self.lst(key)
        new = list(raw(l))
        random.Random(seed).shuffle(new)
        l[:] = new

    def op_iset(self, key, idx, field, value):
        l = self.lst(key)
        n = len(raw(l))
        if n:
            l[idx % n][field] = value

    def op_nins(self, key, idx, pos, item):
        """Insert into the nested list of an item."""
        l = self.lst(key)
        n = len(raw(l))
        if n:
            sub = l[idx % n]["n"]
            if self.fresh_ids(sub, item) and self.fits(raw(sub), item):
                sub.insert(pos % (len(raw(sub)) + 1), copy.deepcopy(item))

    def op_ndel(self, key, idx, pos):
        l = self.lst(key)
        n = len(raw(l))
        if n:
            sub = l[idx % n]["n"]
            if len(raw(sub)):
                del sub[pos % len(raw(sub))]

    def live_insts(self):
        out = []
        for g in self.guis:
            if g.dropped:
                continue
            for n in g.top.walk():
                if n.inst is not None:
                    i = n.instref()
                    if i is not None:
                        out.append((g, n, i))
        return out

    def op_loc(self, n, key, value):
        insts = [x for x in self.live_insts() if key in raw(x[2].state)]
        if insts:
            inst = insts[n % len(insts)][2]
            self.expect_quiet(raw(inst.state), key, value)
            inst.state[key] = value
            self.end_quiet()

    def targets(self):
        out = []
        for g in self.guis:
            if g.dropped:
                continue
            for s in g.shadow_root.walk():
                for ev in sorted(s.handlers):
                    if s.handlers[ev]:
                        out.append((g, s, ev))
        return out

    def op_ev(self, n):
        t = self.targets()
        if t:
            g, s, ev = t[n % len(t)]
            self.stat("events")
            self.calls = []
            g.mon.dispatch(s, ev, ("EV",))

    def op_stale(self, n):
        """An event arrives at an element that was removed meanwhile (queued toolkit event)."""
        dead = []
        for g in self.guis:
            for w in g.mon.graveyard:
                s = w()
                if s is not None:
                    for ev in sorted(s.handlers):
                        dead.append((g, s, ev))
        if dead:
            g, s, ev = dead[n % len(dead)]
            self.stat("stale_events")
            g.mon.dispatch(s, ev, ("EV",))

    def op_stadd(self, n, key, value):
        """A template name appears in the state of an instance, or disappears from it."""
        insts = [x for x in self.live_insts() if self.case["prog"]["comps"][self.comp_index[type(x[2])]]["kind"] == "cgx"]
        if insts:
            state = insts[n % len(insts)][2].state
            # observ does not report a new key with the value None
            if key in raw(state):
                # (who looks for a name also notices which keys there are, but not their values)
                self.expect_quiet(raw(state), key, value)
                state[key] = value
                self.end_quiet()
            elif value is not None:
                state[key] = value

    def op_stdel(self, n, key):
        # observ forgets who watches a deleted key after it has notified them, so who evaluates
        # synchronously is not notified when the key comes back
        if any(g.sync for g in self.guis):
            return
        insts = [x for x in self.live_insts() if key in raw(x[2].state)]
        if insts:
            del insts[n % len(insts)][2].state[key]

    def op_emit(self, n, evt, arg):
        insts = self.live_insts()
        if insts:
            insts[n % len(insts)][2].emit(evt, arg)

    def op_roprops(self, n):
        """A class component tries to change its props."""
        insts = self.live_insts()
        if not insts:
            return
        inst = insts[n % len(insts)][2]
        before = {k: R.snap(v) for k, v in raw(inst.props).items()}
        for what in (lambda: inst.props.__setitem__("hacked", 1), lambda: setattr(inst, "props", {}), lambda: inst.props.clear()):
            try:
                what()
            except Exception:
                pass
            else:
                self.violate("props", ["C18"], "a class component could change its props")
        for k, v in inst.props.items():
            if isinstance(raw(v), list):
                try:
                    v.append(1)
                except Exception:
                    pass
                else:
                    self.violate("props", ["C18"], "a class component could change a list inside its props")
        if before != {k: R.snap(v) for k, v in raw(inst.props).items()}:
            self.violate("props", ["C18"], "a class component could change its props")

    # schedule
    def op_step(self, k):
        for _ in range(k):
            if self.stop or not self.turn():
                break

    def op_stall(self, ns):
        CLOCK.advance(ns)
        self.stat("clock_jump")

    def op_gc(self):
        self.stat("gc")
        gc.collect()

    def op_render(self, gno, variant):
        g = self.guis[gno % len(self.guis)]
        if not g.dropped:
            if not LOOP.idle():
                self.stat("rerender_mid_pass")
            self.do_render(g, variant)

    def op_quiesce(self):
        self.quiesce()

    def op_drop(self, gno):
        """The application forgets a whole UI."""
        if len([g for g in self.guis if not g.dropped]) < 2:
            return
        g = self.guis[gno % len(self.guis)]
        if g.dropped:
            return
        g.dropped = True
        g.cg = None
        g.container = None
        self.stat("dropped_uis")

    # faults
    def op_fault(self, site, skip, times, comp=None, gui=None):
        self.armed.append(dict(site=site, skip=skip, first=skip, times=times, comp=comp, gui=gui))

    def op_heal(self, how):
        self.heal_all(how)

    def heal_all(self, how="auto"):
        if not self.fired and not any(g.faulted for g in self.guis):
            self.disarm()
            return
        self.guarded(self.drain)
        self.note_faults()
        self.disarm()
        for g in self.guis:
            if not g.faulted or self.stop:
                continue
            mode = how if how != "auto" else self.cfg.get("heal", "state")
            if mode == "state" and self.can_heal_by_state(g):
                self.stat("heal_by_state")
                g.faulted = False
                # a change of state that the failing component (or, when it was never rendered,
                # everything) depends on
                self.guarded(lambda: self.bump(g))
            else:
                self.stat("heal_by_render")
                v = [i for i, r in enumerate(self.case["prog"]["roots"]) if r is g.root_desc] or [0]
                self.guarded(lambda: self.do_render(g, v[0]))
            g.faulted = False
        self.guarded(lambda: self.quiesce(["C11"]))

    def can_heal_by_state(self, g):
        return bool(g.passes) and g.commits > 0

    def bump(self, g):
        for i in range(len(self.case["prog"]["comps"])):
            self.store["h%d" % i] = self.raw["h%d" % i] + 1

    def end_checks(self):
        for f in self.fired:
            if not any(f is x for x in self.reported):
                self.violate("swallowed", ["C11"], f"the failure {f} was swallowed: it reached neither caller nor event loop")


G.mon = None


class Capture(logging.Handler):
    """What is logged with its exception has been reported."""

    sim = None

    def emit(self, record):
        if record.exc_info and self.sim is not None:
            self.sim.stat("failures_logged")
            x = record.exc_info[1]
            while x is not None:
                self.sim.reported.append(x)
                x = x.__cause__ or x.__context__


CAPTURE = Capture()
logging.getLogger().addHandler(CAPTURE)
logging.getLogger().setLevel(logging.WARNING)


def reset_globals():
    """Forget process-wide state of the libraries so that a run depends on its case only."""
    import itertools

    import observ.watcher as ow
    from observ.proxy_db import proxy_db

    proxy_db.db.clear()
    ow._ids = itertools.count()
    scheduler.clear()
    scheduler.waiting = False
    scheduler.request_flush = scheduler.request_flush_raise
    cg.Component.__lookup_cache__.clear() if hasattr(cg.Component, "__lookup_cache__") else None


def run_case(case):
    return Sim(case).run()

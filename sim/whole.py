"""Props as a whole (C18, C01): state, items of lists, the props or the state of a component, constants and
elements that exist already are handed over as they are (`h(C, state["item"])`, `h("x", self.props)`,
`ITEM = h(C, {...})`), while state changes and updates are cut into slices.  What is displayed has to be what
a plain evaluation of the program gives, and what has been handed over belongs to who made it.

prog["types"]: components {"kind", "root": node, "state": {..}|None, "watch": bool}
node := {"n": "el", "t": "x"|["T", idx], "p": props, "ch": [node]} | {"n": "hoist", "i": idx}
      | {"n": "each", "b": node} | {"n": "cond", "c": key, "b": node}
props := ["lit", {name: value}] ["bag", key] ["bagd", key] ["item", key] ["sel", key, props, props] ["props"]
       ["state"] ["var"] ["merge", props, {name: value}] ["const", idx] ["none"]
value := ["c", v] ["s", key] ["p", name] ["v", name] ["b", key, name]
"""
import copy
import gc

from .boot import CLOCK, LOOP, cg
from .prog import raw
from .world import CAPTURE, reset_globals

from observ import reactive, watch

MS = 1_000_000
BAGS = ["w0", "w1", "w2"]
NAMES = ["a", "b", "c"]
VALUES = ["", "u", "v", "w", 2, 3, 0]


def fn0(*a):
    return 0


def fn1(*a):
    return 1


FUNCS = [fn0, fn1]


class Gen:
    def __init__(self, rng, P):
        self.rng, self.P = rng, P
        self.ids = 0

    def bag(self, p=0.7):
        r = self.rng
        b = {k: r.choice(VALUES) for k in NAMES if r.random() < p}
        b["d"] = {k: r.choice(VALUES) for k in NAMES if r.random() < p}
        if r.random() < 0.3:
            b["on_click"] = ["fn", r.randrange(2)]
        return b

    def item(self):
        self.ids += 1
        b = self.bag()
        if self.keyed:
            b["key"] = "i%d" % self.ids
        return b

    def case(self):
        r = self.rng
        self.keyed = r.random() < 0.6
        n = r.randint(2, 4)
        self.n = n
        state = {"n0": r.randint(0, 3), "n1": r.randint(0, 3), "b0": r.random() < 0.5, "b1": r.random() < 0.5}
        for k in BAGS:
            state[k] = self.bag()
        if r.random() < 0.3:
            state["w2"] = {}
        self.full = [k for k in BAGS if state[k]]
        state["items"] = [self.item() for _ in range(r.randint(1, 4))]
        self.consts = [{k: r.choice(VALUES) for k in NAMES if r.random() < 0.8} for _ in range(2)]
        self.hoisted = [
            {"t": r.choice(["x", ["T", r.randrange(1, n)], ["T", r.randrange(1, n)]]), "p": {k: r.choice(VALUES) for k in NAMES if r.random() < 0.8}}
            for _ in range(3)
        ]
        types = []
        for i in range(n):
            kind = r.choice(["class", "class", "class", "func"])
            self.i, self.cls = i, kind == "class"
            cd = {"kind": kind, "state": {k: r.choice(VALUES) for k in NAMES if r.random() < 0.7} if kind == "class" and r.random() < 0.4 else None}
            self.st = cd["state"] is not None
            cd["watch"] = kind == "class" and r.random() < 0.3
            cd["root"] = self.element(2, False)
            types.append(cd)
        roots = [{"t": ["T", 0], "p": self.root_props()} for _ in range(r.randint(1, 3))]
        cost = r.choice([[0], [20 * MS], [20 * MS], [r.randint(1, 8) * MS], [r.choice([0, 1, 5, 16, 40]) * MS for _ in range(r.randint(2, 5))]])
        cfg = {"mode": "sync" if r.random() < 0.25 else "default", "cost": cost}
        ops = [self.op(cfg) for _ in range(r.randint(5, 24))]
        prog = {"comps": [], "roots": roots, "types": types, "store": state, "consts": self.consts, "hoisted": self.hoisted}
        return {"driver": "whole", "cfg": cfg, "prog": prog, "ops": ops}

    def root_props(self):
        r = self.rng
        return r.choice([["lit", self.literal(False)], ["bag", r.choice(BAGS)], ["bag", "w2"], ["const", r.randrange(2)], ["none"]])

    def value(self, var, props=True):
        r = self.rng
        o = ["c", "s", "b"] + ["p", "p"] * props + ["v", "v"] * var
        o = r.choice(o)
        if o == "c":
            return ["c", r.choice(VALUES)]
        if o == "s":
            return ["s", r.choice(["n0", "n1"])]
        if o == "b":
            return ["b", r.choice(BAGS), r.choice(NAMES)]
        return [o, r.choice(NAMES)]

    def literal(self, var, props=True):
        r = self.rng
        if not props:
            return {k: ["c", r.choice(VALUES)] for k in NAMES if r.random() < 0.6}
        return {k: self.value(var) for k in NAMES if r.random() < 0.6}

    def props(self, var, depth=2):
        r = self.rng
        o = ["lit", "lit", "bag", "bag", "bagd", "item", "item", "props", "props", "const", "none"] + ["state"] * 2 * self.st + ["var"] * 6 * var
        if depth:
            o += ["sel"] * 5 + ["merge"] * 2
        o = r.choice(o)
        if o == "lit":
            return [o, self.literal(var)]
        if o == "bag":
            return [o, r.choice(BAGS)]
        if o == "bagd":
            return [o, r.choice(self.full)]
        if o == "item":
            return [o, r.choice(["n0", "n1"])]
        if o == "sel":
            return [o, r.choice(["b0", "b1"]), self.props(var, depth - 1), self.props(var, depth - 1)]
        if o == "merge":
            return [o, self.props(var, depth - 1), self.literal(var)]
        if o == "const":
            return [o, r.randrange(2)]
        return [o]

    def element(self, depth, var):
        r = self.rng
        if self.i + 1 < self.n and r.random() < 0.55:
            return {"n": "el", "t": ["T", r.randrange(self.i + 1, self.n)], "p": self.props(var), "ch": []}
        ch = self.children(depth - 1, var) if depth > 0 else []
        return {"n": "el", "t": r.choice(["x", "y"]), "p": self.props(var), "ch": ch}

    def children(self, depth, var):
        r = self.rng
        out = []
        keys = False     # keys have to be unique among siblings
        for _ in range(r.choice([0, 1, 2, 2, 3])):
            x = r.random()
            if x < 0.2:
                ok = [i for i, h in enumerate(self.hoisted) if h["t"] == "x" or h["t"][1] > self.i]
                if ok:
                    node = {"n": "hoist", "i": r.choice(ok)}
                    if r.random() < 0.5:
                        node = {"n": "cond", "c": r.choice(["b0", "b1"]), "b": node, "e": {"n": "hoist", "i": r.choice(ok)} if r.random() < 0.6 else None}
                    out.append(node)
                    continue
            if x < 0.4 and not keys and not var:
                keys = True
                out.append({"n": "each", "b": dict(self.element(depth, True))})
                continue
            e = self.element(depth, var)
            if self.bears_key(e["p"]):
                if keys:
                    continue
                keys = True
            if r.random() < 0.25:
                e = {"n": "cond", "c": r.choice(["b0", "b1"]), "b": e, "e": None}
            out.append(e)
        return out

    def bears_key(self, p):
        return p[0] in ("item", "props", "var") or any(self.bears_key(x) for x in p[1:] if isinstance(x, list))

    def op(self, cfg):
        r = self.rng
        sync = cfg["mode"] == "sync"
        o = r.choice(["wset"] * 8 + ["iset"] * 8 + ["tog"] * 6 + ["n"] * 7 + ["st"] * 3 + ["dset"] * 3 + ["rootprop"] * 3 + ["render"] * 2 + ["wrepl"] * 2
                     + ["ins", "ins", "del", "del", "rev", "swap", "gc", "quiesce", "quiesce"] + ([] if sync else ["wdel", "idel", "ddel"] * 2 + ["step"] * 14))
        v = r.choice(VALUES + [None])
        if o in ("wset", "dset"):
            return [o, r.choice(BAGS), r.choice(NAMES), v]
        if o in ("wdel", "ddel"):
            return [o, r.choice(BAGS), r.choice(NAMES)]
        if o == "iset":
            return [o, r.randrange(5), r.choice(NAMES), v]
        if o == "idel":
            return [o, r.randrange(5), r.choice(NAMES)]
        if o == "tog":
            return [o, r.choice(["b0", "b1"])]
        if o == "n":
            return [o, r.choice(["n0", "n1"]), r.randrange(5)]
        if o == "st":
            return [o, r.randrange(self.n), r.choice(NAMES), v]
        if o == "rootprop":
            return [o, r.choice(NAMES), v]
        if o == "render":
            return [o, r.randrange(3)]
        if o == "wrepl":
            return [o, r.choice(self.full), self.bag()]
        if o == "ins":
            return [o, r.randrange(5), self.item()]
        if o == "del":
            return [o, r.randrange(5)]
        if o == "swap":
            return [o, r.randrange(5), r.randrange(5)]
        if o == "step":
            return [o, r.choice([1, 1, 1, 2, 3, 5])]
        return [o]


class El:
    __slots__ = ("type", "attrs", "handlers", "children", "parent", "__weakref__")

    def __init__(self, type):
        self.type, self.attrs, self.handlers, self.children, self.parent = type, {}, {}, [], None


class TreeRenderer(cg.Renderer):
    def __init__(self, run):
        self.run = run

    def create_element(self, type):
        self.run.work()
        return El(type)

    def create_text_element(self):
        return El("TEXT_ELEMENT")

    def insert(self, el, parent, anchor=None):
        self.run.work()
        i = len(parent.children) if anchor is None else [x is anchor for x in parent.children].index(True)
        parent.children.insert(i, el)

    def remove(self, el, parent):
        self.run.work()
        del parent.children[[x is el for x in parent.children].index(True)]

    def set_element_text(self, el, value):
        el.attrs["content"] = value

    def set_attribute(self, el, attr, value):
        self.run.work()
        el.attrs[attr] = value

    def remove_attribute(self, el, attr, value):
        self.run.work()
        el.attrs.pop(attr, None)

    def add_event_listener(self, el, event_type, value):
        el.handlers.setdefault(event_type, []).append(value)

    def remove_event_listener(self, el, event_type, value):
        el.handlers[event_type].remove(value)


class Abort(BaseException):
    pass


def fill(x):
    """Functions can not be part of a case."""
    if isinstance(x, dict):
        return {k: fill(v) for k, v in x.items()}
    if isinstance(x, list):
        return FUNCS[x[1]] if x[:1] == ["fn"] else [fill(v) for v in x]
    return x


def plain(x):
    x = raw(x)
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    return x


class Run:
    partial = False    # whether a change consists of several updates

    def __init__(self, case):
        self.case, self.prog, self.cfg = case, case["prog"], case["cfg"]
        self.violations, self.stats, self.fault_stats, self._trace = [], {}, {}, []
        self.states, self.interleave = set(), []
        self.sim_time = self.renders = self.commit_no = self.max_units_per_turn = 0
        self.opno, self.stop, self.works = 0, False, 0

    def violate(self, kind, tags, msg):
        self.violations.append({"kind": kind, "tags": sorted(tags), "msg": msg, "op": self.opno})
        self._trace.append(("VIOLATION", kind))
        self.stop = True

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def work(self):
        self.works += 1
        if self.works > 20000:
            self.violate("runaway", ["ALL"], "endless work: more than 20000 renders and renderer calls for one operation")
            raise Abort()

    # ---- the program, as the application's code
    def make_types(self):
        self.insts = []
        self.type_state = [copy.deepcopy(cd["state"]) for cd in self.prog["types"]]
        self.types = [self.make_class(i, cd) if cd["kind"] == "class" else self.make_func(i, cd) for i, cd in enumerate(self.prog["types"])]

    def make_func(self, i, cd):
        def comp(props):
            self.renders += 1
            self.work()
            return self.node(cd["root"], props, None, None)

        comp.__name__ = "F%d" % i
        return comp

    def make_class(self, i, cd):
        run = self

        def __init__(self, props, parent=None):
            cg.Component.__init__(self, props, parent)
            self.no = i
            if run.type_state[i] is not None:
                self.state.update(copy.deepcopy(run.type_state[i]))
            run.insts.append(self)
            self.seen = self.shown = None
            if cd["watch"]:
                def changed(new):
                    self.seen = new

                self.watcher = watch(lambda: dict(self.props.items()).get("a"), changed, sync=run.sync)
                self.seen = self.watcher.value

        def render(self):
            run.renders += 1
            run.work()
            return run.node(cd["root"], self.props, self.state, None)

        def mounted(self):
            self.shown = True

        def before_unmount(self):
            self.shown = False

        return type("C%d" % i, (cg.Component,), dict(__init__=__init__, render=render, mounted=mounted, before_unmount=before_unmount))

    def node(self, n, props, state, var):
        res = self.nodes([n], props, state, var)
        assert len(res) == 1
        return res[0]

    def nodes(self, ns, props, state, var):
        out = []
        for n in ns:
            if n["n"] == "hoist":
                out.append(self.hoisted[n["i"]])
            elif n["n"] == "cond":
                if self.store[n["c"]]:
                    out += self.nodes([n["b"]], props, state, var)
                elif n.get("e"):
                    out += self.nodes([n["e"]], props, state, var)
            elif n["n"] == "each":
                for x in self.store["items"]:
                    out += self.nodes([n["b"]], props, state, x)
            else:
                t = n["t"] if isinstance(n["t"], str) else self.types[n["t"][1]]
                out.append(cg.h(t, self.props(n["p"], props, state, var), *self.nodes(n["ch"], props, state, var)))
        return out

    def props(self, p, props, state, var):
        o = p[0]
        if o == "lit":
            return {k: self.value(v, self.store, props, var) for k, v in p[1].items()}
        if o == "bag":
            return self.store[p[1]]
        if o == "bagd":
            return self.store[p[1]]["d"]
        if o == "item":
            items = self.store["items"]
            return items[self.store[p[1]] % len(items)]
        if o == "sel":
            return self.props(p[2] if self.store[p[1]] else p[3], props, state, var)
        if o == "props":
            return props
        if o == "state":
            return state
        if o == "var":
            return var
        if o == "merge":
            return {**(self.props(p[1], props, state, var) or {}), **{k: self.value(v, self.store, props, var) for k, v in p[2].items()}}
        if o == "const":
            return self.consts[p[1]]
        return None

    def value(self, v, store, props, var):
        o = v[0]
        if o == "c":
            return v[1]
        if o == "s":
            return store[v[1]]
        if o == "p":
            return props.get(v[1])
        if o == "v":
            return var.get(v[1])
        return store[v[1]].get(v[2])

    # ---- the program, evaluated on plain data
    def spec_props(self, p, props, state, var):
        o = p[0]
        m = self.model
        if o == "lit":
            return {k: self.value(v, m, props, var) for k, v in p[1].items()}
        if o == "bag":
            return m[p[1]]
        if o == "bagd":
            return m[p[1]]["d"]
        if o == "item":
            return m["items"][m[p[1]] % len(m["items"])]
        if o == "sel":
            return self.spec_props(p[2] if m[p[1]] else p[3], props, state, var)
        if o == "props":
            return props
        if o == "state":
            return state
        if o == "var":
            return var
        if o == "merge":
            return {**self.spec_props(p[1], props, state, var), **{k: self.value(v, m, props, var) for k, v in p[2].items()}}
        if o == "const":
            return self.prog["consts"][p[1]]
        return {}

    def spec_nodes(self, ns, props, state, var):
        out = []
        for n in ns:
            if n["n"] == "hoist":
                x = self.prog["hoisted"][n["i"]]
                out.append(self.spec_el(x["t"], x["p"], []))
            elif n["n"] == "cond":
                if self.model[n["c"]]:
                    out += self.spec_nodes([n["b"]], props, state, var)
                elif n.get("e"):
                    out += self.spec_nodes([n["e"]], props, state, var)
            elif n["n"] == "each":
                for x in self.model["items"]:
                    out += self.spec_nodes([n["b"]], props, state, x)
            else:
                out.append(self.spec_el(n["t"], self.spec_props(n["p"], props, state, var), self.spec_nodes(n["ch"], props, state, var)))
        return out

    def spec_el(self, t, props, ch):
        if not isinstance(t, str):
            i = t[1]
            if self.prog["types"][i]["kind"] == "class":
                self.described.append((i, plain(props)))
            return self.spec_nodes([self.prog["types"][i]["root"]], props, self.type_state[i], None)[0]
        attrs = {k: v for k, v in props.items() if v is not None and not isinstance(v, dict) and k != "key" and k[:3] != "on_"}
        handlers = {k[3:]: [v.__name__] for k, v in props.items() if k[:3] == "on_" and v is not None}
        return (t, tuple(sorted(attrs.items())), tuple(sorted(handlers.items())), tuple(ch))

    def spec(self):
        self.described = []
        return self.spec_el(self.root["t"], self.root_model(), [])

    def root_model(self):
        p = self.root["p"]
        return self.model[p[1]] if p[0] == "bag" else self.rootprops

    def tree(self, el):
        attrs = {k: raw(v) for k, v in el.attrs.items() if raw(v) is not None and not isinstance(raw(v), dict) and k != "key"}
        handlers = {k: [f.__name__ for f in v] for k, v in el.handlers.items() if v}
        return (el.type, tuple(sorted(attrs.items())), tuple(sorted(handlers.items())), tuple(self.tree(c) for c in el.children))

    # ---- checks
    def check(self, when):
        if self.stop or self.root is None:
            return
        self.stat("settled_checks")
        want = self.spec()
        have = [self.tree(c) for c in self.container.children]
        self._trace.append(("settled", repr(have)))
        self.states.add(hash(repr(have)))
        if have != [want]:
            self.violate("whole-shown", ["C01", "C18"], f"{when}: shown is {have}, the state gives {[want]}")
            return
        seen = sorted(repr(sorted((k, repr(v)) for k, v in plain(i.props).items() if v is not None)) for i in self.insts if i.shown)
        want = sorted(repr(sorted((k, repr(v)) for k, v in p.items() if v is not None)) for _, p in self.described)
        if seen != want:
            self.violate("whole-props", ["C18"], f"{when}: components see props {seen}, passed are {want}")
            return
        for i in self.insts:
            if i.shown and self.prog["types"][i.no]["watch"] and when == "settled" and raw(i.seen) != raw(i.props.get("a")):
                self.violate("whole-watch", ["C18"], f"{when}: the watch of a component on its prop got {i.seen!r}, the prop is {i.props.get('a')!r}")
                return

    def check_data(self):
        """What is handed over belongs to who made it."""
        if self.stop:
            return
        have = plain(self.raw)
        if have != self.model:
            diff = [(k, have.get(k), v) for k, v in self.model.items() if have.get(k) != v]
            self.violate("whole-data", ["C18"], f"state was changed by rendering: (key, now, as the application left it) {diff[:2]}")
        elif self.consts != self.prog["consts"]:
            self.violate("whole-data", ["C18"], f"a constant that was passed as props was changed: {self.consts}, was {self.prog['consts']}")
        else:
            for el, x in zip(self.hoisted, self.prog["hoisted"]):
                if plain(el.props) != x["p"]:
                    self.violate("whole-data", ["C18"], f"the props of an element that is used again were changed: {plain(el.props)}, were {x['p']}")

    # ---- running
    def run(self):
        LOOP.reset()
        CLOCK.reset(self.cfg["cost"])
        reset_globals()
        CAPTURE.sim = None
        try:
            self._run()
        except Abort:
            pass
        finally:
            self.sim_time = CLOCK.peek() - 1_000_000_000_000
            LOOP.reset()
        return self

    def _run(self):
        self.sync = self.cfg["mode"] == "sync"
        self.model = fill(copy.deepcopy(self.prog["store"]))
        self.raw = fill(copy.deepcopy(self.prog["store"]))
        self.store = reactive(self.raw)
        self.consts = copy.deepcopy(self.prog["consts"])
        self.make_types()
        self.hoisted = [
            cg.h(x["t"] if isinstance(x["t"], str) else self.types[x["t"][1]], copy.deepcopy(x["p"])) for x in self.prog["hoisted"]
        ]
        self.root = None
        self.container = El("root")
        self.gui = cg.Collagraph(TreeRenderer(self), event_loop_type=cg.EventLoopType.SYNC if self.sync else cg.EventLoopType.DEFAULT)
        for i, op in enumerate([["render", 0]] + self.case["ops"]):
            self.opno = i
            self.works = 0
            self.interleave.append(op[0])
            self._trace.append(("op", repr(op)))
            self.guarded(lambda: getattr(self, "op_" + op[0])(*op[1:]))
            if self.sync:
                self.check("after the operation")
            self.check_data()
            if self.stop:
                return
        self.op_quiesce()
        self.check_data()

    def guarded(self, fn):
        try:
            fn()
        except Exception as e:
            self.failed(e)

    def failed(self, e):
        import traceback

        tb = "".join(traceback.format_exception(e)[-4:]) if isinstance(e, BaseException) else repr(e)
        self.violate("exception", ["ALL"], "unexpected exception: " + tb[-700:])

    def turn(self):
        n = len(LOOP.errors)
        ok = LOOP.step()
        self.stat("turns")
        for e in LOOP.errors[n:]:
            self.failed(e)
        return ok and not self.stop

    def op_step(self, n):
        for _ in range(n):
            if not self.turn():
                break

    def op_quiesce(self):
        for n in range(3000):
            if LOOP.idle() or self.stop:
                break
            self.turn()
        else:
            self.violate("liveness", ["C01", "C09"], "did not settle within 3000 turns although the state no longer changes")
        self.check("settled")

    def op_gc(self):
        gc.collect()

    def op_render(self, variant):
        roots = self.prog["roots"]
        root = roots[variant % len(roots)]
        p = root["p"]
        if p[0] == "lit":
            self.rootprops = {k: self.value(v, self.model, {}, {}) for k, v in p[1].items()}
        elif p[0] == "const":
            self.rootprops = dict(self.prog["consts"][p[1]])
        else:
            self.rootprops = {}
        self.el = cg.h(self.types[0], self.props(p, {}, None, None))
        self.root = root
        self.gui.render(self.el, self.container, self.callback)

    def callback(self):
        self.commit_no += 1
        if self.partial:
            return
        self.check("when the render callback was called")

    def put(self, real, model, k, v):
        # observ does not report a new key with the value None
        if v is not None or k in model:
            model[k] = v
            real[k] = v

    def drop(self, real, model, k):
        if k in model:
            del model[k]
            del real[k]

    def op_wset(self, w, k, v):
        self.put(self.store[w], self.model[w], k, v)

    def op_wdel(self, w, k):
        self.drop(self.store[w], self.model[w], k)

    def op_dset(self, w, k, v):
        if "d" in self.model[w]:
            self.put(self.store[w]["d"], self.model[w]["d"], k, v)

    def op_ddel(self, w, k):
        if "d" in self.model[w]:
            self.drop(self.store[w]["d"], self.model[w]["d"], k)

    def op_wrepl(self, w, bag):
        bag = fill(bag)
        if bag != self.model[w] and self.root["p"] != ["bag", w]:
            self.model[w] = copy.deepcopy(bag)
            self.store[w] = copy.deepcopy(bag)

    def op_iset(self, i, k, v):
        i %= len(self.model["items"])
        self.put(self.store["items"][i], self.model["items"][i], k, v)

    def op_idel(self, i, k):
        i %= len(self.model["items"])
        self.drop(self.store["items"][i], self.model["items"][i], k)

    def op_tog(self, k):
        self.model[k] = not self.model[k]
        self.store[k] = self.model[k]

    def op_n(self, k, v):
        self.model[k] = v
        self.store[k] = v

    def op_st(self, i, k, v):
        i %= len(self.types)
        st = self.type_state[i]
        if st is not None and (v is not None or k in st):
            st[k] = v
            self.partial = self.sync
            for x in self.insts:
                if x.no == i:
                    x.state[k] = v
            self.partial = False

    def op_rootprop(self, k, v):
        if self.root["p"][0] == "bag":
            self.op_wset(self.root["p"][1], k, v)
        elif self.root["p"][0] == "const":
            pass  # the props of the element are the constant itself
        elif v is not None or k in self.rootprops:
            self.rootprops[k] = v
            self.el.props[k] = v

    def op_ins(self, i, item):
        item = fill(item)
        if len(self.model["items"]) < 6:
            i %= len(self.model["items"]) + 1
            self.model["items"].insert(i, copy.deepcopy(item))
            self.store["items"].insert(i, copy.deepcopy(item))

    def op_del(self, i):
        if len(self.model["items"]) > 1:
            i %= len(self.model["items"])
            del self.model["items"][i]
            del self.store["items"][i]

    def op_rev(self):
        self.model["items"].reverse()
        self.store["items"].reverse()

    def op_swap(self, i, j):
        m = self.model["items"]
        i, j = i % len(m), j % len(m)
        m[i], m[j] = m[j], m[i]
        new = list(self.raw["items"])
        new[i], new[j] = new[j], new[i]
        self.store["items"][:] = new

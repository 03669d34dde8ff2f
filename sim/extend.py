"""Applications that extend the Qt renderer (C29): own widgets, layouts, attributes, and functions for
inserting, removing and setting, registered in any order, spelling and form, before and between uses."""
import copy
import gc
import itertools
import traceback

from PySide6 import QtCore, QtWidgets

from .boot import CLOCK, LOOP, cg
from .prog import raw
from .world import CAPTURE, reset_globals

from observ import reactive

SERIAL = itertools.count(1)
MISSING = object()

BASES = ["QWidget", "QFrame", "QGroupBox", "QLabel", "QPushButton", "QToolButton"]
LAYOUTS = ["QVBoxLayout", "QHBoxLayout"]
FORMS = ["direct", "decorator", "instance"]
ATTRS = ["ca0", "ca1", "ca2", "plain", "level", "tool-tip", "object_name"]


# ------------------------------------------------------------------ generation
class Gen:
    def __init__(self, rng, P):
        self.r, self.P = rng, P

    def case(self):
        r = self.r
        nc, nl = r.randint(1, 4), r.randint(0, 2)
        classes = []
        for i in range(nc):
            derived = classes and r.random() < 0.6
            classes.append({
                "base": r.randrange(len(classes)) if derived else r.choice(BASES),
                "level": r.choice([0, 3, 7]) if r.random() < 0.6 else None,
                "signal": r.random() < 0.5,
            })
        layouts = []
        for i in range(nl):
            layouts.append({"base": r.randrange(i) if i and r.random() < 0.5 else r.choice(LAYOUTS)})
        self.nc, self.nl = nc, nl
        self.keys = itertools.count()
        prog = {
            "classes": classes,
            "layouts": layouts,
            "names": [[r.choice([0, 1, 2, 3]), r.randrange(nc)] for _ in range(nc + 1)],
            "tree": {"layout": self.layout(), "items": [self.item(0) for _ in range(r.randint(0, 3))]},
        }
        ops = []
        regs = [["element", i, r.randrange(4), r.choice(FORMS)] for i in range(nc + 1)]
        regs += [["layout", i, r.randrange(4), r.choice(FORMS)] for i in range(nl)]
        regs += [["attr", r.sample(range(3), r.randint(1, 2)), r.choice(FORMS)]]
        regs += [[r.choice(["ins", "rem", "set"]), sorted(r.sample(range(nc), r.randint(1, min(2, nc)))), r.choice(FORMS)] for _ in range(r.randint(0, 4))]
        regs += [[r.choice(["lins", "lrem", "lset"]), [r.randrange(nl)], r.choice(FORMS)] for _ in range(r.randint(0, 2) if nl else 0)]
        r.shuffle(regs)
        ops += regs
        for _ in range(r.randint(3, 18)):
            ops.insert(r.randint(0 if r.random() < 0.3 else len(ops) // 3, len(ops)), self.op())
        return {"driver": "extend", "prog": prog, "ops": ops, "cfg": {"mode": "sync" if r.random() < 0.3 else "default", "cost": [r.choice([1000, 3_000_000, 20_000_000])]}}

    def layout(self):
        r = self.r
        if self.nl and r.random() < 0.6:
            return [r.randrange(self.nl), r.randrange(4), r.choice([None, 1, 5])]
        return r.choice([None, None, ["Box", 0, None], ["Box", 0, 4]])

    def item(self, depth):
        r = self.r
        return {
            "k": "k%d" % next(self.keys),
            "c": r.randrange(self.nc + 1),
            "sp": r.randrange(4),
            "at": {a: self.value(a) for a in r.sample(ATTRS, r.randint(0, 3))},
            "on": {e: r.randrange(3) for e in ("picked", "item_picked") if r.random() < 0.5},
            "layout": self.layout() if r.random() < 0.3 else None,
            "kids": [self.item(depth + 1) for _ in range(r.choice([0, 0, 1, 2, 3]) if depth < 2 else 0)],
        }

    def value(self, a):
        r = self.r
        return r.choice([0, 1, 3, 7, 9]) if a == "level" else r.choice(["a", "b", "c", ""]) if "_" in a or "-" in a else r.choice([1, 2, "x", "", 0, [1]])

    def path(self):
        return [self.r.randrange(4) for _ in range(self.r.choice([0, 0, 1, 1, 2]))]

    def op(self):
        r = self.r
        o = r.choice(["at"] * 6 + ["del"] * 3 + ["ins"] * 4 + ["rev"] * 2 + ["move"] * 3 + ["type"] * 2 + ["on"] * 2 + ["kids", "bad", "bad", "lookup", "lookup", "gc", "quiesce", "quiesce", "quiesce", "step", "step", "lay", "lay"])
        if o == "at":
            a = r.choice(ATTRS)
            return ["n_at", self.path(), r.randrange(4), a, None if r.random() < 0.3 else self.value(a)]
        if o == "ins":
            return ["n_ins", self.path(), r.randrange(5), self.item(1)]
        if o in ("del", "rev"):
            return ["n_" + o, self.path(), r.randrange(4)]
        if o == "move":
            return ["n_move", self.path(), r.randrange(5), r.randrange(5)]
        if o == "type":
            return ["n_type", self.path(), r.randrange(4), r.randrange(self.nc + 1), r.randrange(4)]
        if o == "on":
            return ["n_on", self.path(), r.randrange(4), r.choice(["picked", "item_picked"]), r.choice([None, 0, 1, 2])]
        if o == "kids":
            return ["n_kids", self.path(), r.randrange(4), [self.item(2) for _ in range(r.randint(0, 2))]]
        if o == "bad":
            return ["bad", r.choice(["element", "layout"]), r.randrange(self.nc + 1), r.choice(FORMS)]
        if o == "lookup":
            return ["lookup", r.randrange(self.nc + 1), r.randrange(4)]
        if o == "lay":
            return ["lay", self.layout()]
        if o == "step":
            return ["step", r.randint(1, 4)]
        return [o]


# ------------------------------------------------------------------ running
class Renderer(cg.PySideRenderer):
    def register_asyncio(self):
        pass


def spell(name, how):
    """`name` consists of words that are separated by spaces."""
    words = name.split()
    return ["-".join(words), "_".join(w.capitalize() for w in words), "".join(w.capitalize() for w in words), "".join(words).upper()][how]


class Run:
    def __init__(self, case):
        self.case, self.prog, self.cfg = case, case["prog"], case["cfg"]
        self.violations, self.stats, self.fault_stats, self._trace = [], {}, {}, []
        self.states, self.interleave = set(), []
        self.sim_time = self.renders = self.commit_no = self.max_units_per_turn = 0
        self.opno, self.stop = 0, False

    def violate(self, kind, msg, tags=("C29",)):
        if not self.stop:
            self.violations.append({"kind": kind, "tags": sorted(tags), "msg": msg, "op": self.opno})
            self._trace.append(("VIOLATION", kind))
        self.stop = True

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    # ---- the extensions
    def make_classes(self):
        run = self
        n = self.n = next(SERIAL)
        self.classes, self.layouts = [], []
        for i, cd in enumerate(self.prog["classes"]):
            base = getattr(QtWidgets, cd["base"]) if isinstance(cd["base"], str) else self.classes[cd["base"]]
            ns = {"no": i}
            if cd["level"] is not None:
                ns["_level"] = cd["level"]
                ns["level"] = QtCore.Property(int, lambda self: self._level, lambda self, v: setattr(self, "_level", v))
            if cd["signal"]:
                ns["picked"] = QtCore.Signal(int)
                ns["itemPicked"] = QtCore.Signal(int)
            for a in range(3):
                def setter(self, value, a=a):
                    run.used("setter", a)
                    setattr(self, run.attr("ca%d" % a), value)

                ns["setCa%d%d" % (n, a)] = setter
            self.classes.append(type("W%d" % i, (base,), ns))
        for i, ld in enumerate(self.prog["layouts"]):
            base = getattr(QtWidgets, ld["base"]) if isinstance(ld["base"], str) else self.layouts[ld["base"]]
            self.layouts.append(type("L%d" % i, (base,), {"lno": i}))
        # what is registered
        self.reg = {k: {} for k in ("ins", "rem", "set", "lins", "lrem", "lset")}
        self.reg_attrs = set()
        self.created = set()

    def attr(self, a):
        return "ca%d_%s" % (self.n, a[2:]) if a[:2] == "ca" else a

    def used(self, how, a):
        if (a in self.reg_attrs) != (how == "func"):
            self.violate("extend-attr", f"attribute ca{a} was set with the {'registered function' if how == 'func' else 'default'}, although {'a' if a in self.reg_attrs else 'no'} function is registered")

    def name(self, i, how):
        return spell("ext%dx %s box" % (self.n, "abcdefgh"[i]), how)

    def lname(self, i, how):
        return spell("ext%dx %s lay" % (self.n, "abcdefgh"[i]), how)

    def register(self, what, args, value, form):
        method = getattr(self.renderer if form == "instance" else cg.PySideRenderer, "register_" + what)
        if form == "decorator":
            if method(*args)(value) is not value:
                self.violate("extend-form", f"the decorator of register_{what} replaces what it decorates")
        elif what in ("insert", "remove", "set_attr", "custom_attribute"):
            method(*args, func=value)
        else:
            method(*args, value)

    def resolve(self, kind, i):
        """The registration that counts: of the nearest class."""
        cds = self.prog["layouts" if kind[0] == "l" else "classes"]
        while not isinstance(i, str):
            if i in self.reg[kind]:
                return self.reg[kind][i]
            i = cds[i]["base"]

    def below(self, i, kind):
        """Whether objects of the class or a subclass exist already."""
        cds = self.prog["layouts" if kind[0] == "l" else "classes"]
        for what, c in self.created:
            if what == ("l" if kind[0] == "l" else "c"):
                while not isinstance(c, str):
                    if c == i:
                        return True
                    c = cds[c]["base"]
        return False

    def correct(self, kind, obj, no):
        i = obj.lno if kind[0] == "l" else obj.no
        if self.resolve(kind, i) != no:
            self.violate("extend-function", f"{kind} of {type(obj).__mro__[1].__name__}: called function {no}, the nearest registration is {self.resolve(kind, i)}")

    def make_func(self, kind, no):
        run = self
        if kind == "ins":
            def func(self, el, anchor=None):
                run.correct("ins", self, no)
                kids = self.__dict__.setdefault("kids", [])
                if anchor is not None and not any(k is anchor for k in kids) or any(k is el for k in kids):
                    run.violate("extend-insert", "insert with an anchor that is no child, or of what is a child already")
                    return
                kids.insert([k is anchor for k in kids].index(True) if anchor is not None else len(kids), el)
                el.setParent(self)
        elif kind == "rem":
            def func(self, el):
                run.correct("rem", self, no)
                kids = self.__dict__.get("kids", [])
                if not any(k is el for k in kids):
                    run.violate("extend-remove", "removal of what is not a child")
                    return
                del kids[[k is el for k in kids].index(True)]
                el.setParent(None)
        elif kind == "set":
            def func(self, attr, value):
                run.correct("set", self, no)
                a = attr[len("ca%d_" % run.n):]
                if attr.startswith("ca%d_" % run.n):
                    run.used("set", int(a))
                if attr == "level" and isinstance(getattr(type(self), "level", None), QtCore.Property):
                    self._level = value
                elif attr in ("tool-tip", "object_name"):
                    (self.setToolTip if attr == "tool-tip" else self.setObjectName)(value)
                else:
                    setattr(self, attr, value)
        elif kind == "lins":
            def func(self, el, anchor=None):
                run.correct("lins", self, no)
                self.insertWidget(self.indexOf(anchor) if anchor is not None else -1, el)
        elif kind == "lrem":
            def func(self, el):
                run.correct("lrem", self, no)
                self.removeWidget(el)
                el.setParent(None)
        else:
            def func(self, attr, value):
                run.correct("lset", self, no)
                if attr != "type":
                    self.setSpacing(value)
        return func

    # ---- operations: registrations
    def op_element(self, i, how, form):
        if i >= len(self.prog["names"]) or i in raw(self.store["reg"]):
            return
        c = self.prog["names"][i][1] % len(self.classes)
        self.register("element", [self.name(i, how)], self.classes[c], form)
        self.store["reg"].append(i)

    def op_layout(self, i, how, form):
        if i >= len(self.layouts) or i in raw(self.store["lreg"]):
            return
        self.register("layout", [self.lname(i, how)], self.layouts[i], form)
        self.store["lreg"].append(i)

    def op_attr(self, names, form):
        run = self
        names = [a for a in names if a not in self.reg_attrs]
        if not names:
            return

        def func(el, attr, value):
            a = int(attr[len("ca%d_" % run.n):])
            if a not in names:
                run.violate("extend-attr", f"the function for attributes {names} was called for ca{a}")
            run.used("func", a)
            run.stat("custom_attributes")
            setattr(el, attr, value)

        self.register("custom_attribute", [self.attr("ca%d" % a) for a in names], func, form)
        self.reg_attrs.update(names)

    def functions(self, kind, which, form):
        n = len(self.layouts if kind[0] == "l" else self.classes)
        which = [i for i in which if i < n and i not in self.reg[kind] and not self.below(i, kind)]
        if kind in ("ins", "rem"):
            # both, or none
            other = "rem" if kind == "ins" else "ins"
            which = [i for i in which if self.resolve(other, i) is not None or i not in self.reg[other]]
            missing = [i for i in which if self.resolve(other, i) is None]
            if missing:
                self.add(other, missing, form)
        if which:
            self.add(kind, which, form)

    def add(self, kind, which, form):
        self.funcs += 1
        no = self.funcs
        what = {"ins": "insert", "rem": "remove", "set": "set_attr"}[kind[-3:]]
        types = [(self.layouts if kind[0] == "l" else self.classes)[i] for i in which]
        self.register(what, types, self.make_func(kind, no), form)
        for i in which:
            self.reg[kind][i] = no
        self.stat("registered_" + kind)

    def op_ins(self, which, form):
        self.functions("ins", which, form)

    def op_rem(self, which, form):
        self.functions("rem", which, form)

    def op_set(self, which, form):
        self.functions("set", which, form)

    def op_lins(self, which, form):
        self.functions("lins", which, form)

    def op_lrem(self, which, form):
        self.functions("lrem", which, form)

    def op_lset(self, which, form):
        self.functions("lset", which, form)

    def op_bad(self, what, i, form):
        """What can not be used is refused, and changes nothing."""
        i %= len(self.prog["names"] if what == "element" else self.layouts or [0])
        typ = QtCore.QObject if what == "element" else QtWidgets.QWidget
        try:
            self.register(what, [(self.name if what == "element" else self.lname)(i, 0)], typ, form)
        except TypeError:
            self.fault_stats["bad_registration"] = self.fault_stats.get("bad_registration", 0) + 1
        else:
            self.violate("extend-bad", f"register_{what} accepted {typ.__name__}")

    def op_lookup(self, i, how):
        i %= len(self.prog["names"])
        try:
            el = self.renderer.create_element(self.name(i, how))
        except TypeError:
            if i in raw(self.store["reg"]):
                raise
            self.fault_stats["unknown_element"] = self.fault_stats.get("unknown_element", 0) + 1
            return
        if i not in raw(self.store["reg"]):
            self.violate("extend-lookup", f"an element of a name which is not registered: {type(el)}")
            return
        c = self.prog["names"][i][1] % len(self.classes)
        self.created.add(("c", c))
        if getattr(el, "no", None) != c:
            self.violate("extend-lookup", f"the element is a {type(el).__mro__[:3]}, registered is {self.classes[c]}")

    # ---- operations: state
    def target(self, path, tree):
        """Lists of items in the state and in the model."""
        node = tree
        items = node["items"]
        for p in path:
            if not len(items):
                break
            items = items[p % len(items)]["kids"]
        return items

    def both(self, fn):
        self.model = fn(self.model) or self.model
        fn(self.store["tree"])

    def op_n_at(self, path, i, a, v):
        def fn(t):
            items = self.target(path, t)
            if len(items):
                at = items[i % len(items)]["at"]
                if v is None:
                    if a in at:
                        del at[a]
                else:
                    at[a] = copy.deepcopy(v)

        if self.sync and v is None:
            v = "gone" if a != "level" else 2     # observ: see DESIGN.md
        self.both(fn)

    def op_n_on(self, path, i, e, h):
        def fn(t):
            items = self.target(path, t)
            if len(items):
                items[i % len(items)]["on"][e] = h

        self.both(fn)

    def op_n_ins(self, path, pos, item):
        def fn(t):
            items = self.target(path, t)
            if len(items) < 6:
                items.insert(pos % (len(items) + 1), copy.deepcopy(item))

        self.both(fn)

    def op_n_del(self, path, i):
        def fn(t):
            items = self.target(path, t)
            if len(items):
                items.pop(i % len(items))

        self.both(fn)

    def op_n_rev(self, path, i):
        self.both(lambda t: self.target(path, t).reverse())

    def op_n_move(self, path, i, j):
        def fn(t):
            items = self.target(path, t)
            if len(items):
                new = list(raw(items))
                new.insert(j % len(new), new.pop(i % len(new)))
                items[:] = new

        self.both(fn)

    def op_n_type(self, path, i, c, sp):
        def fn(t):
            items = self.target(path, t)
            if len(items):
                items[i % len(items)].update({"c": c, "sp": sp})

        self.both(fn)

    def op_n_kids(self, path, i, kids):
        def fn(t):
            items = self.target(path, t)
            if len(items):
                items[i % len(items)]["kids"] = copy.deepcopy(kids)

        self.both(fn)

    def op_lay(self, layout):
        def fn(t):
            t["layout"] = copy.deepcopy(layout)

        self.both(fn)

    # ---- the application
    def type_of(self, x):
        i = x["c"] % len(self.prog["names"])
        return (i, self.prog["names"][i][1] % len(self.classes)) if i in self.store["reg"] else (None, None)

    def lay(self, l):
        if not l:
            return None
        if l[0] == "Box":
            return {"type": "Box"} if l[2] is None else {"type": "Box", "spacing": l[2]}
        i = l[0] % len(self.layouts)
        if i not in self.store["lreg"]:
            return None
        d = {"type": self.lname(i, l[1])}
        if l[2] is not None:
            d["spacing"] = l[2]
        return d

    def attrs_of(self, x, c):
        """Attributes which make sense for the type."""
        res = {}
        for a, v in x["at"].items():
            res[self.attr(a)] = v
        return res

    def node(self, x):
        i, c = self.type_of(x)
        self.renders += 1
        props = {"key": x["k"], **self.attrs_of(x, c)}
        custom = c is not None and self.resolve("ins", c) is not None
        if c is not None:
            self.created.add(("c", c))
            sig = self.has(c, "signal")
            for e, h in x["on"].items():
                if sig and h is not None:
                    props["on_" + e] = self.handlers[h]
        if not custom and x["layout"] and (d := self.lay(x["layout"])):
            props["layout"] = d
        for k in list(props):
            if k == "layout":
                self.note_layout(x["layout"])
        return cg.h("widget" if i is None else self.name(i, x["sp"]), props, *[self.node(k) for k in x["kids"]])

    def note_layout(self, l):
        if l and l[0] != "Box":
            self.created.add(("l", l[0] % len(self.layouts)))

    def has(self, c, what):
        while not isinstance(c, str):
            if self.prog["classes"][c][what]:
                return True
            c = self.prog["classes"][c]["base"]
        return False

    def level(self, c):
        while c is not None and not isinstance(c, str):
            if self.prog["classes"][c]["level"] is not None:
                return self.prog["classes"][c]["level"]
            c = self.prog["classes"][c]["base"]

    def make_root(self):
        run = self

        def Root(props):
            tree = run.store["tree"]
            d = run.lay(tree["layout"])
            if d:
                run.note_layout(tree["layout"])
            # a layout is not switched back, see DESIGN.md
            return cg.h("widget", {"layout": d or {"type": "Box"}}, *[run.node(x) for x in tree["items"]])

        return Root

    # ---- checks
    def check(self):
        if self.stop:
            return
        self.stat("settled_checks")
        self.commit_no += 1
        tops = self.children(self.container, None)
        if len(tops) != 1:
            self.violate("extend-tree", f"{len(tops)} elements at the top")
            return
        d = self.lay(self.model["layout"]) or {"type": "Box"}
        self.check_layout(tops[0], d, "top")
        kids = self.children(tops[0], None)
        shape = self.check_kids(kids, self.model["items"], "top")
        self.states.add(hash(self.plain(repr(shape))))
        self._trace.append(("settled", self.plain(repr(shape))))

    def plain(self, text):
        return text.replace("ca%d_" % self.n, "ca_").replace("ext%dx" % self.n, "ext_").replace("Ext%dx" % self.n, "Ext_")

    def check_layout(self, el, d, path):
        layout = el.layout()
        want = QtWidgets.QBoxLayout
        if d["type"] != "Box":
            want = next(l for i, l in enumerate(self.layouts) if d["type"] in [self.lname(i, h) for h in range(4)])
        have = getattr(layout, "lno", None)
        if not isinstance(layout, want) or have != getattr(want, "lno", None):
            self.violate("extend-layout", f"{path}: layout is {type(layout).__mro__[:3]}, described {want.__name__}")
        elif "spacing" in d and layout.spacing() != d["spacing"]:
            self.violate("extend-layout", f"{path}: spacing of the layout is {layout.spacing()}, described {d['spacing']}")

    def children(self, el, c):
        if c is not None and self.resolve("ins", c) is not None:
            return el.__dict__.get("kids", [])
        layout = el.layout()
        if layout is None:
            return []
        kids = [w for w in el.children() if isinstance(w, QtWidgets.QWidget) and layout.indexOf(w) >= 0]
        if len(kids) != layout.count():
            self.violate("extend-tree", f"layout has {layout.count()} entries, {len(kids)} of them are children of its widget")
        return sorted(kids, key=layout.indexOf)

    def check_kids(self, els, items, path):
        shape = []
        have = [getattr(e, "no", None) for e in els]
        want = [self.type_of(x)[1] for x in items]
        if have != want:
            self.violate("extend-tree", f"{path}: children are of classes {have}, described {want}")
        for el, x in zip(els, items):
            if self.stop:
                break
            c = self.type_of(x)[1]
            p = path + "/" + x["k"]
            at = self.attrs_of(x, c)
            for a in ATTRS:
                n = self.attr(a)
                if a == "tool-tip":
                    have, absent = el.toolTip(), ""
                elif a == "object_name":
                    have, absent = el.objectName(), ""
                elif a == "level":
                    have, absent = raw(getattr(el, "level", MISSING)), self.level(c) if self.level(c) is not None else MISSING
                else:
                    have, absent = raw(getattr(el, n, MISSING)), MISSING
                want = at.get(n, absent)
                if have != want:
                    self.violate("extend-attr", f"{p}: {a} is {have if have is not MISSING else 'missing'!r}, {'described' if n in at else 'not described: default'} {want if want is not MISSING else 'missing'!r}")
                    return shape
            custom = c is not None and self.resolve("ins", c) is not None
            if not custom and x["layout"] and (d := self.lay(x["layout"])):
                self.check_layout(el, d, p)
            if c is not None and self.has(c, "signal"):
                for e, signal in (("picked", "picked"), ("item_picked", "itemPicked")):
                    self.fired = []
                    getattr(el, signal).emit(5)
                    h = x["on"].get(e)
                    if self.fired != ([(h, (5,))] if h is not None else []):
                        self.violate("extend-event", f"{p}: {signal} did {self.fired}, described handler {h}")
                        return shape
            shape.append((c, sorted(at.items(), key=repr), self.check_kids(self.children(el, c), x["kids"], p)))
        return shape

    # ---- running
    def run(self):
        import warnings

        from . import qt

        qt.app()
        LOOP.reset()
        CLOCK.reset(self.cfg["cost"])
        reset_globals()
        CAPTURE.sim = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                self._run()
        finally:
            self.gui = self.container = None
            for w in qt.app().topLevelWidgets():
                w.close()
            QtCore.QCoreApplication.sendPostedEvents()
            QtCore.QCoreApplication.sendPostedEvents(None, QtCore.QEvent.Type.DeferredDelete)
            self.sim_time = CLOCK.peek() - 1_000_000_000_000
            LOOP.reset()
        return self

    def _run(self):
        self.sync = self.cfg["mode"] == "sync"
        self.renderer = Renderer(autoshow=False)
        self.funcs = 0
        self.fired = []
        self.make_classes()
        self.model = copy.deepcopy(self.prog["tree"])
        self.store = reactive({"tree": copy.deepcopy(self.prog["tree"]), "reg": [], "lreg": []})
        self.handlers = [self.make_handler(i) for i in range(3)]
        self.container = self.renderer.create_element("widget")
        self.gui = cg.Collagraph(self.renderer, event_loop_type=cg.EventLoopType.SYNC if self.sync else cg.EventLoopType.DEFAULT)
        root = self.make_root()
        for i, op in enumerate(self.case["ops"]):
            self.opno = i
            self.interleave.append(op[0])
            self._trace.append(("op", repr(op)))
            if i == min(self.case["prog"].get("start", 4), len(self.case["ops"]) - 1):
                self.guarded(lambda: self.gui.render(cg.h(root), self.container))
            self.guarded(lambda: getattr(self, "op_" + op[0])(*op[1:]))
            if self.stop:
                return
        self.op_quiesce()

    def make_handler(self, i):
        code = {}
        exec(f"def make(run):\n    def handler(*args):\n        run.fired.append(({i}, args))\n    return handler", code)
        return code["make"](self)

    def guarded(self, fn):
        try:
            fn()
        except Exception as e:
            self.failed(e)

    def failed(self, e):
        tb = "".join(traceback.format_exception(e)[-4:]) if isinstance(e, BaseException) else repr(e)
        self.violate("exception", "unexpected exception: " + tb[-900:], ["C29"])

    def turn(self):
        n = len(LOOP.errors)
        ok = LOOP.step()
        self.stat("turns")
        for e in LOOP.errors[n:]:
            self.failed(e)
        return ok and not self.stop

    def op_step(self, n):
        for _ in range(n):
            if not self.turn():
                break

    def op_quiesce(self):
        for n in range(3000):
            if LOOP.idle() or self.stop:
                break
            self.turn()
        else:
            self.violate("liveness", "did not settle within 3000 turns although the state no longer changes")
        if self.opno >= min(4, len(self.case["ops"]) - 1):
            self.check()

    def op_gc(self):
        gc.collect()

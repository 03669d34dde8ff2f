"""Real toolkits below the monitor: construction, comparison of the toolkit's tree with what was
described, and real events."""
import warnings

from . import boot
from .boot import cg
from . import palette
from .ref import raw

TOOLS = ("pyside", "pygfx", "dom")


class Tool:
    """What the simulator needs to know of a toolkit."""

    name = None
    pid = None

    def __init__(self, sim):
        self.sim = sim
        self.pal = palette.PALETTES[self.name]
        self.defaults = {}

    def bad(self, kind, msg):
        self.sim.violate("tool-" + kind, [self.pid], msg)
        self.sim.stop = True

    def check(self, g):
        """The toolkit shows exactly the described tree."""
        if g.dropped or self.sim.stop:
            return
        n = len(self.sim.violations)
        self.check_node(g, g.shadow_root, "")
        self.check_gone(g)
        self.sim.stat("toolkit_checks")
        return len(self.sim.violations) == n

    def check_gone(self, g):
        pass

    def show(self, els):
        return [getattr(el, "shadow_name", None) or type(el).__name__ for el in els]

    def names(self, g, els):
        by = {id(s.el): f"{s.type}#{s.uid}" for s in g.shadow_root.walk()}
        return [by.get(id(e)) or ("gone " + type(e).__name__ if e is not None else "nothing") for e in els]

    def check_node(self, g, s, path):
        want = [c.el for c in s.children]
        self.check_children(g, s, want, path)
        if self.sim.stop:
            return
        if not s.root and s.type != "TEXT_ELEMENT":
            self.check_attrs(g, s, path)
        for c in s.children:
            if self.sim.stop:
                return
            self.check_node(g, c, path + "/" + c.type)

    def same(self, g, s, have, want, path, ordered=True, what="children"):
        ok = len(have) == len(want) and all(a is b for a, b in zip(have, want))
        if not ok and not ordered:
            ok = len(have) == len(want) and {id(x) for x in have} == {id(x) for x in want}
        if not ok:
            self.bad("children", f"{path or 'container'} ({s.type}#{s.uid}): {what} are {self.names(g, have)}, described {self.names(g, want)}")

    def fresh(self, type_):
        return self.sim.guis[0].mon.inner.create_element(type_)

    def default(self, type_, attr):
        k = (type_, attr)
        if k not in self.defaults:
            el = self.fresh(type_)
            self.defaults[k] = self.get(el, type_, attr)
        return self.defaults[k]

    def check_attrs(self, g, s, path):
        if "my_both" in s.attrs:
            g.mon.tainted.add(s.uid)
        for name, kind, absent in palette.attr_names(self.pal, s.type):
            if any(name in c and (s.uid in g.mon.tainted or any(o in s.attrs for o in c if o != name)) for c in self.pal.get("clash", ())):
                continue
            try:
                have = self.get(s.el, s.type, name)
            except Exception as e:  # noqa
                have = repr(e)
            if name in s.attrs:
                want = self.shown(s, name, raw(s.attrs[name]))
            elif not absent:
                continue
            else:
                want = self.default(s.type, name)
            if want is not SKIP and not self.equal(have, want):
                where = "described" if name in s.attrs else "not described, default"
                self.bad("attr", f"{path} ({s.type}#{s.uid}): {name} is {have!r}, {where} {want!r}")
                return

    def equal(self, a, b):
        return a == b

    def shown(self, s, name, value):
        return value

    def check_events(self, g):
        """Every handler in force is called exactly once per event, removed ones never."""
        if g.dropped or self.sim.stop:
            return
        for s in list(g.shadow_root.walk()):
            if s.root:
                continue
            for ev in palette.event_names(self.pal, s.type):
                want = []
                for name in sorted(s.handlers):
                    if self.canon(name) == self.canon(ev):
                        for h in s.handlers[name]:
                            want += self.sim.handler_desc(h)
                self.sim.dry = []
                self.sim.ar_seen = []
                try:
                    self.fire(s.el, s.type, ev)
                    got = list(self.sim.dry)
                finally:
                    self.sim.dry = None
                self.sim.stat("toolkit_events")
                if got != want and sorted(got, key=repr) != sorted(want, key=repr):
                    self.bad("event", f"{s.type}#{s.uid}: event {ev} did {got}, described {want}")
                    return
                for ar, args in self.sim.ar_seen:
                    self.sim.stat("toolkit_arguments")
                    self.check_arguments(s, ev, ar, args)

    def check_arguments(self, s, ev, ar, args):
        pass

    def canon(self, ev):
        """Which spellings of an event are the same event."""
        return ev

    def dispatch(self, s, ev):
        """A real event (which has effects)."""
        if s.type in self.pal["attrs"] or palette.event_names(self.pal, s.type):
            self.fire(s.el, s.type, ev)

    def idle(self):
        pass

    def close(self):
        pass


SKIP = object()


class Dom(Tool):
    name = "dom"
    pid = "C22"

    def make_renderer(self):
        from collagraph.renderers.dom_renderer import DomRenderer

        return DomRenderer()

    def container(self, g):
        import js

        el = js.document.createElement("div")
        js.document.body.appendChild(el)
        self.boxes = getattr(self, "boxes", []) + [el]
        return el

    def close(self):
        for el in getattr(self, "boxes", ()):
            el.remove()

    def check_children(self, g, s, want, path):
        self.same(g, s, s.el.childNodes, want, path)
        for c in s.children:
            if c.el.parentNode is not s.el:
                self.bad("children", f"{path}: parentNode of {c.type} is wrong")
            if c.type == "TEXT_ELEMENT":
                want_text = "" if c.text is None else str(raw(c.text))
                if c.el.nodeName != "#text" or c.el.textContent != want_text:
                    self.bad("text", f"{path}: {c.el.nodeName} shows {getattr(c.el, 'textContent', None)!r}, described text {want_text!r}")
            elif c.el.tagName != c.type.upper():
                self.bad("type", f"{path}: element is {c.el.tagName}, described {c.type}")

    def check_attrs(self, g, s, path):
        from .fakedom import js_string

        want = {k.lower(): js_string(raw(v)) for k, v in s.attrs.items() if k != "key"}
        have = {k: v for k, v in s.el.attributes.items() if k != "key"}
        if want != have:
            self.bad("attr", f"{path} ({s.type}#{s.uid}): attributes are {have}, described {want}")

    def fire(self, el, type_, ev):
        from .fakedom import Event

        el.dispatchEvent(Event(ev))

    def check_events(self, g):
        super().check_events(g)
        for s in g.shadow_root.walk():
            n = sum(len(h) for h in s.handlers.values())
            if s.type != "TEXT_ELEMENT" and not s.root and len(s.el.listeners) != n and not self.sim.stop:
                self.bad("event", f"{s.type}#{s.uid}: {len(s.el.listeners)} listeners are registered, {n} described")


def thing_init(self, *args, **kwargs):
    """An element with an attribute that can be changed in place."""
    super(type(self), self).__init__(*args, **kwargs)
    self.tags = [1]


class Pygfx(Tool):
    name = "pygfx"
    pid = "C21"

    def make_renderer(self):
        import pygfx as gfx

        if not hasattr(gfx, "SimThing"):
            gfx.SimThing = type("SimThing", (gfx.WorldObject,), {"__init__": thing_init})
        return cg.PygfxRenderer()

    def check(self, g):
        if super().check(g):
            # what is there by default belongs to one object
            tags = [(s, s.el.tags) for s in g.shadow_root.walk() if s.type == "sim-thing" and "tags" not in s.attrs]
            for i, (s, x) in enumerate(tags):
                for o, y in tags[:i]:
                    if x is y:
                        self.bad("attr", f"{s.type}#{s.uid} and {o.type}#{o.uid} have the very same list as default for tags")
                        return False
            return True

    def container(self, g):
        import pygfx as gfx

        return gfx.Scene()

    def check_children(self, g, s, want, path):
        self.same(g, s, list(s.el.children), want, path)
        for c in s.children:
            if c.el.parent is not s.el:
                self.bad("children", f"{path}: parent of {c.type}#{c.uid} is {c.el.parent!r}")
            if type(c.el).__name__.lower() != c.type.lower().replace("-", ""):
                self.bad("type", f"{path}: object is {type(c.el).__name__}, described {c.type}")

    def fresh(self, type_):
        import pygfx as gfx

        name = type_.lower().replace("-", "")
        return next(getattr(gfx, a) for a in dir(gfx) if a.lower() == name)()

    def get(self, el, type_, attr):
        *pre, attr = attr.split(".")
        for p in pre:
            el = getattr(el, p)
        v = getattr(el, attr, "<no such attribute>")
        return tuple(float(x) for x in v) if hasattr(v, "shape") and v.shape else (float(v) if hasattr(v, "shape") else v)

    def equal(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(abs(x - y) < 1e-4 for x, y in zip(a, b))
        if isinstance(a, float) or isinstance(b, float):
            try:
                return abs(a - b) < 1e-4
            except TypeError:
                return False
        return a == b

    def shown(self, s, name, value):
        return tuple(float(x) for x in value) if isinstance(value, tuple) or hasattr(value, "shape") else value

    def fire(self, el, type_, ev):
        import pygfx as gfx

        el.handle_event(gfx.Event(ev))


class Inside:
    """Notes whether a call of the real renderer is in progress: its toolkit might
    emit signals from within setters, whose effects are bounded (see Sim.fire)."""

    def __init__(self, sim, renderer):
        self.sim = sim
        self.renderer = renderer

    def __getattr__(self, name):
        fn = getattr(self.renderer, name)

        def call(*args, **kwargs):
            self.sim.inside += 1
            try:
                return fn(*args, **kwargs)
            finally:
                self.sim.inside -= 1

        return call


def make_inner(sim, backend):
    return Inside(sim, sim.get_tool(backend).make_renderer())


def make_container(sim, backend, g):
    return sim.get_tool(backend).container(g)


def make_tool(sim, backend):
    if backend == "pyside":
        from . import qt

        return qt.PySide(sim)
    return {"dom": Dom, "pygfx": Pygfx}[backend](sim)

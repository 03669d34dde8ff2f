"""The simulated host: a Renderer that mirrors every call into a strict shadow tree, checks that
each call is legal (the renderer contract), keeps a call log and forwards to a real renderer."""
import weakref

from . import boot
from .boot import cg


class El:
    """Element of the in-memory backend."""

    __slots__ = ("shadow", "type", "__weakref__")


class MemRenderer(cg.Renderer):
    def create_element(self, type):
        el = El()
        el.type = type
        return el

    def create_text_element(self):
        return self.create_element("TEXT_ELEMENT")

    def insert(self, el, parent, anchor=None):
        pass

    def remove(self, el, parent):
        pass

    def set_element_text(self, el, value):
        pass

    def set_attribute(self, el, attr, value):
        pass

    def remove_attribute(self, el, attr, value):
        pass

    def add_event_listener(self, el, event_type, value):
        pass

    def remove_event_listener(self, el, event_type, value):
        pass


class S:
    """Shadow element."""

    __slots__ = (
        "uid", "type", "text", "attrs", "handlers", "children", "parent", "root",
        "discarded", "was_attached", "el", "born", "__weakref__",
    )

    def __init__(self, uid, type):
        self.uid = uid
        self.type = type
        self.text = None
        self.attrs = {}
        self.handlers = {}
        self.children = []
        self.parent = None
        self.root = False
        self.discarded = False
        self.was_attached = False
        self.el = None
        self.born = 0

    def attached(self):
        s = self
        while s is not None:
            if s.root:
                return True
            s = s.parent
        return False

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()

    def element(self):
        return self.el() if isinstance(self.el, weakref.ref) else self.el


class Monitor(cg.Renderer):
    def __init__(self, sim, gui_no, inner, event_loop_pref=None):
        self.sim = sim
        self.gui_no = gui_no
        self.inner = inner
        self.mem = isinstance(inner, MemRenderer)
        self.by_id = {}
        self.next_uid = 0
        self.log = []          # calls since the last boundary
        self.mutations = 0     # calls on attached elements since the last boundary
        self.total_calls = 0
        self.registered = 0    # calls of register_asyncio
        self.total_mutations = 0
        self.removed_in_commit = []
        self.created = 0
        self.pref = event_loop_pref
        self.elements = []     # (uid, weak reference) of every element created in the memory backend
        self.tainted = set()
        self.gone = {}         # removed elements of real toolkits, by identity
        self.graveyard = []    # weak references to discarded shadows (stale events)

    # -- seam
    def preferred_event_loop_type(self):
        return self.pref

    def register_asyncio(self):
        self.registered += 1
        self.inner.register_asyncio()

    # -- bookkeeping
    def adopt_root(self, container):
        s = S("root%d" % self.gui_no, "root")
        s.root = True
        s.was_attached = True
        self._link(container, s)
        s.el = container
        return s

    def _link(self, el, s):
        if self.mem:
            el.shadow = s
            s.el = weakref.ref(el)
            if not s.root:
                self.elements.append((s.uid, s.el))
        else:
            self.by_id[id(el)] = s
            s.el = el

    def shadow(self, el, what):
        if el is None:
            self.sim.violate("protocol", ["C08"], f"{what}: element is None")
            raise SimAbort()
        s = el.shadow if self.mem and isinstance(el, El) else self.by_id.get(id(el))
        if s is None:
            self.sim.violate("protocol", ["C08"], f"{what}: element was never created by this renderer")
            raise SimAbort()
        if s.discarded:
            self.sim.violate("protocol", ["C08"], f"{what}: element {s.type}#{s.uid} was discarded earlier")
        return s

    def note(self, op, s, *args):
        self.sim.spend()
        self.total_calls += 1
        att = s.attached()
        if att:
            self.mutations += 1
            self.total_mutations += 1
        self.log.append((op, s.uid, att) + args)
        self.sim.trace(("host", self.gui_no, op, s.uid) + tuple(self.sim.show(a) for a in args))

    def bad(self, msg):
        self.sim.violate("protocol", ["C08"], msg)

    # -- Renderer interface
    def create_element(self, type):
        return self._create(type, lambda: self.inner.create_element(type))

    def create_text_element(self):
        return self._create("TEXT_ELEMENT", self.inner.create_text_element, "text")

    def _create(self, type, make, what=None):
        self.sim.on_unit(self.gui_no, "create")
        self.sim.fault("create", self.sim.guis[self.gui_no])
        if what is None and type == "TEXT_ELEMENT":
            self.bad("create_element for a text")
        if type in ("template", "slot") or not isinstance(type, str):
            self.bad(f"create_element({type!r}): not a described host type")
        el = make()
        s = S(self.next_uid, type)
        self.next_uid += 1
        self.created += 1
        s.born = self.sim.commit_no
        self._link(el, s)
        self.note("create", s, type)
        return el

    def insert(self, el, parent, anchor=None):
        s, p = self.shadow(el, "insert"), self.shadow(parent, "insert parent")
        a = None
        if anchor is not None:
            a = self.shadow(anchor, "insert anchor")
        if s.parent is not None:
            self.bad(f"insert of {s.type}#{s.uid} which is still a child of {s.parent.uid}")
            s.parent.children.remove(s)
        if s.root or s is p:
            self.bad("insert of the container itself")
            raise SimAbort()
        if a is not None and (a.parent is not p or a is s):
            self.bad(f"insert of {s.type}#{s.uid} before #{a.uid}, which is not another child of parent #{p.uid}")
            a = None
        # identity based position
        idx = len(p.children) if a is None else [c is a for c in p.children].index(True)
        s.parent = p
        p.children.insert(idx, s)
        if p.attached():
            for x in s.walk():
                x.was_attached = True
        self.note("insert", s, p.uid, a.uid if a is not None else None)
        self.inner.insert(el, parent, anchor=anchor)

    def remove(self, el, parent):
        s, p = self.shadow(el, "remove"), self.shadow(parent, "remove parent")
        if s.parent is not p:
            self.bad(f"remove of {s.type}#{s.uid} from #{p.uid}, which is not its parent")
            raise SimAbort()
        self.note("remove", s, p.uid)
        p.children.remove(s)
        s.parent = None
        self.removed_in_commit.append(s)
        self.inner.remove(el, parent)

    def set_element_text(self, el, value):
        s = self.shadow(el, "set_element_text")
        if s.type != "TEXT_ELEMENT":
            self.bad(f"set_element_text on {s.type}#{s.uid}")
        self.sim.fault("attr", self.sim.guis[self.gui_no])
        self.note("text", s, value)
        s.text = value
        self.inner.set_element_text(el, value)

    def set_attribute(self, el, attr, value):
        s = self.shadow(el, "set_attribute")
        if attr.startswith("on_"):
            self.bad(f"set_attribute({attr}) of an event")
        if not s.attached():
            self.sim.fault("initattr", self.sim.guis[self.gui_no])
        self.note("set", s, attr, value)
        s.attrs[attr] = value
        self.inner.set_attribute(el, attr, value)
        if self.sim.cfg.get("sync_events") and s.attached() and attr == "v" and self.sim.sync_budget > 0:
            self.sim.sync_budget -= 1
            # toolkits emit change notifications synchronously from setters
            self.sim.stat("sync_host_event")
            self.dispatch(s, "change", ("host",))

    def remove_attribute(self, el, attr, value):
        s = self.shadow(el, "remove_attribute")
        if attr not in s.attrs:
            # None means absent: removing an attribute described as None is legal
            if value is not None:
                self.bad(f"remove_attribute({attr}) on {s.type}#{s.uid}: was never set")
        self.note("unset", s, attr, value)
        s.attrs.pop(attr, None)
        self.inner.remove_attribute(el, attr, value)

    def add_event_listener(self, el, event_type, value):
        s = self.shadow(el, "add_event_listener")
        if not callable(value):
            self.bad(f"add_event_listener({event_type}, {value!r})")
        self.note("listen", s, event_type)
        s.handlers.setdefault(event_type, []).append(value)
        self.inner.add_event_listener(el, event_type, value)

    def remove_event_listener(self, el, event_type, value):
        s = self.shadow(el, "remove_event_listener")
        self.note("unlisten", s, event_type)
        hs = s.handlers.get(event_type, [])
        for i, h in enumerate(hs):
            if h is value:
                del hs[i]
                break
        else:
            self.sim.violate(
                "listener", ["C08", "C06"],
                f"remove_event_listener({event_type}) on {s.type}#{s.uid} with a function that is not registered",
            )
        if not hs:
            s.handlers.pop(event_type, None)
        self.inner.remove_event_listener(el, event_type, value)

    # -- simulator side
    def dispatch(self, s, event_type, args):
        if self.sim.tool is not None:
            if not s.discarded:
                self.sim.tool.dispatch(s, event_type)
            return
        for h in list(s.handlers.get(event_type, ())):
            h(*args)

    def end_commit(self):
        for s in self.removed_in_commit:
            if s.parent is None:
                for x in s.walk():
                    x.discarded = True
                    if self.sim.tool is not None:
                        self.gone[id(x.el)] = x.el
                    self.graveyard.append(weakref.ref(x))
        self.removed_in_commit = []
        self.log = []
        self.mutations = 0


class SimAbort(BaseException):
    """The run cannot continue meaningfully (a violation was recorded)."""

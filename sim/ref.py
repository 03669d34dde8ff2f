"""Reference model: composes the descriptions that components returned into an expected tree,
carries identity over from the previous tree by the documented matching rule, and compares with
the shadow of the host tree."""
import weakref

from .prog import raw


class RNode:
    __slots__ = (
        "kind", "type", "key", "props", "attrs", "handlers", "children", "parent", "uid",
        "inst", "instref", "out", "matched", "slots", "old", "tmp", "moved", "boxes", "nones", "__weakref__",
    )

    def __init__(self, kind, type, key):
        self.kind = kind
        self.type = type
        self.key = key
        self.props = None
        self.attrs = {}
        self.boxes = ()        # names of attributes that hold containers
        self.nones = ()        # names of attributes that are described as None
        self.handlers = {}
        self.children = []
        self.parent = None
        self.uid = None        # host element identity
        self.inst = None       # component instance identity
        self.instref = None
        self.out = None
        self.matched = False
        self.slots = False
        self.old = None
        self.tmp = None
        self.moved = False     # whether the order of the kept children changed

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()

    def hosts(self):
        """Host/text nodes that this node contributes to its host parent, in order."""
        if self.kind in ("host", "text"):
            yield self
        else:
            for c in self.children:
                yield from c.hosts()

    def host_children(self):
        for c in self.children:
            yield from c.hosts()

    def owner(self):
        p = self.parent
        while p is not None:
            if p.inst is not None:
                return p
            p = p.parent
        return None

    def count(self):
        return 1 + sum(c.count() for c in self.children)

    def drop_payload(self):
        """Forget the user's objects (so the model keeps nothing alive)."""
        for x in self.walk():
            x.props = x.out = None
            x.attrs = {}
            x.handlers = {}
            x.old = None


def split_props(props):
    attrs, handlers = {}, {}
    for k, v in raw(props).items():
        if k.startswith("on_"):
            handlers[k[3:].lower()] = v
        elif k != "key" and v is not None:
            attrs[k] = raw(v)
    return attrs, handlers


def is_array(v):
    return hasattr(v, "shape") and hasattr(v, "tolist")


def snap(v):
    """Immutable description of an attribute value at this moment."""
    v = raw(v)
    if is_array(v):
        return ("t",) + tuple(v.tolist())
    if isinstance(v, dict):
        return ("d", id(v), tuple(sorted((str(k), snap(x)) for k, x in v.items())))
    if isinstance(v, list):
        return ("l", id(v), tuple(snap(x) for x in v))
    if isinstance(v, tuple):
        return ("t",) + tuple(snap(x) for x in v)
    return v


def boxed(v):
    """Containers can change in place: what is displayed of them is checked where it is displayed."""
    return isinstance(raw(v), (dict, list, set))


def content(v):
    """Like `snap`, without identities."""
    v = raw(v)
    if is_array(v):
        return ("l", tuple(v.tolist()))
    if isinstance(v, dict):
        return ("d", tuple(sorted((str(k), content(x)) for k, x in v.items())))
    if isinstance(v, (list, tuple)):
        return ("l", tuple(content(x) for x in v))
    return v


class Compose:
    """Compose the latest outputs of the components below one root description."""

    def __init__(self, sim, gui):
        self.sim = sim
        self.gui = gui
        self.missing = []
        # Instances which were made for the descriptions that came with the current pass,
        # in document order for equal descriptions
        self.born = {sig: list(born) for sig, born in gui.born.items()}

    def build(self, vnode, old, parent):
        t = vnode.type
        if callable(t):
            kind = "comp"
        elif t == "TEXT_ELEMENT":
            kind = "text"
        elif t in ("template", "slot"):
            kind = "virt"
        else:
            kind = "host"
        node = RNode(kind, t, vnode.key)
        node.parent = parent
        node.props = raw(vnode.props)
        node.matched = old is not None
        node.old = old
        if kind == "text":
            node.attrs = {"content": node.props["content"]}
        else:
            a, h = split_props(node.props)
            node.nones = tuple(sorted(k for k, v in node.props.items() if v is None))
            node.boxes = tuple(sorted(k for k, v in a.items() if boxed(v)))
            node.attrs = {k: snap(v) for k, v in a.items() if not boxed(v)}
            node.handlers = h
        if kind == "comp":
            entry = self.gui.reg.get(id(node.props))
            if isinstance(t, type):
                if old is not None and old.inst is not None:
                    node.inst, node.instref = old.inst, old.instref
                elif entry is not None and self.born.get(entry["sig"]):
                    node.inst, node.instref = self.born[entry["sig"]].pop(0)
                if node.inst is None:
                    self.missing.append(f"component {self.sim.tname(t)} was described but never instantiated")
                else:
                    node.out = self.gui.out_by_inst.get(node.inst)
            else:
                if entry is not None and "out" in entry:
                    node.out = entry["out"]
                elif old is not None:
                    node.out = old.out
            if node.out is None:
                self.missing.append(f"component {self.sim.tname(t)} was described but not rendered")
                kids = []
            else:
                kids = [node.out]
            node.slots = isinstance(vnode.children, dict)
        else:
            kids = list(vnode.children or ())
        node.children = self.match(kids, old, node)
        return node

    def match(self, kids, old, node):
        pool = list(enumerate(old.children)) if old is not None else []
        res, order = [], []
        for v in kids:
            m = None
            for i, (pos, o) in enumerate(pool):
                if o.key == v.key:
                    m = pool.pop(i)[1]
                    order.append(pos)
                    break
            if m is not None and m.type is not v.type and m.type != v.type:
                m = None
            res.append(self.build(v, m, node))
        node.moved = order != sorted(order)
        return res


# ------------------------------------------------------------------ comparison
def attrs_view(attrs):
    return {k: v for k, v in attrs.items() if k != "key" and v is not None and not boxed(v)}


def show(v):
    """Equal values are the same attribute value (True and 1)."""
    return repr(int(v)) if isinstance(v, (bool, float)) and v == int(v) else repr(v)


def canon_ref(n):
    if n.kind == "text":
        return ("T", n.attrs["content"])
    return (n.type, tuple(sorted((k, show(v)) for k, v in n.attrs.items())), tuple(canon_ref(c) for c in n.host_children()))


def canon_shadow(s):
    if s.type == "TEXT_ELEMENT":
        return ("T", s.text)
    return (
        s.type,
        tuple(sorted((k, show(snap(v))) for k, v in attrs_view(s.attrs).items())),
        tuple(canon_shadow(c) for c in s.children),
    )


def feature_tags(type_, attr=None):
    """Which feature an element or attribute of the generated programs exercises."""
    tags = []
    if attr:
        if attr.startswith("j"):
            tags.append("C16")
        if attr.startswith("p"):
            tags.append("C18")
        if attr.startswith("g"):
            tags.append("C14")
    if isinstance(type_, str) and type_.startswith("s"):
        tags.append("C17")
    return tags


class Diff:
    """Differences between an expected subtree and the shadow tree."""

    def __init__(self):
        self.items = []   # (kind, tags, message)

    def add(self, kind, tags, msg):
        self.items.append((kind, tags, msg))


def short(c, depth=2):
    if c[0] == "T":
        return repr(c[1])
    a = ",".join(f"{k}={v}" for k, v in c[1])
    if depth <= 0:
        return f"<{c[0]}..>"
    return f"<{c[0]} {a}>" + "".join(short(x, depth - 1) for x in c[2])


def compare(exp_children, s, diff, path):
    """exp_children: RNodes expected as children of shadow element s."""
    exp = list(exp_children)
    act = s.children
    ce = [canon_ref(n) for n in exp]
    ca = [canon_shadow(c) for c in act]
    if ce == ca:
        for n, c in zip(exp, act):
            n.tmp = c
            compare(n.host_children(), c, diff, path + "/" + c.type)
        return
    if len(ce) == len(ca) and sorted(map(repr, ce)) == sorted(map(repr, ca)):
        diff.add("order", ["C03"], f"{path}: children are {[short(c,1) for c in ca]}, described {[short(c,1) for c in ce]}")
        return
    te = ["#" + str(n.type) for n in exp]
    ta = ["#" + str(c.type) for c in act]
    if te == ta:
        for n, c, x, y in zip(exp, act, ce, ca):
            n.tmp = c
            if x == y:
                continue
            if n.kind == "text":
                if n.attrs["content"] != c.text:
                    diff.add("text", ["C07"], f"{path}: text is {c.text!r}, described {n.attrs['content']!r}")
                continue
            want = n.attrs
            have = {k: snap(v) for k, v in attrs_view(c.attrs).items()}
            for k in sorted(set(want) | set(have)):
                if want.get(k) != have.get(k) or (k in want) != (k in have):
                    diff.add(
                        "attr", ["C07"] + feature_tags(n.type, k),
                        f"{path}/{n.type}#{c.uid}: attribute {k} is {have.get(k)!r}, described {want.get(k)!r}",
                    )
            compare(n.host_children(), c, diff, path + "/" + c.type)
        return
    tags = []
    if sorted(te) == sorted(ta):
        tags.append("C03")
    pool = list(ta)
    odd = []
    for t in te:
        if t in pool:
            pool.remove(t)
        else:
            odd.append(t)
    for t in odd + pool:
        tags += feature_tags(t[1:])
    diff.add("structure", tags, f"{path}: children are {[short(c,1) for c in ca]}, described {[short(c,1) for c in ce]}")


def weak(x):
    return weakref.ref(x)

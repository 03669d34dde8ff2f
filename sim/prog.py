"""Program descriptions (JSON) and their two readings:

* `Real`  - builds collagraph VNodes while reading reactive state (this is the "user code"
            of the simulated application);
* `Spec`  - evaluates the same description on the raw state into plain expected nodes.

Nothing in here depends on how collagraph works; a program is what a user would write.

node  := {"n":"host","t":type,"a":{attr:expr},"on":{ev:handler},"k":expr|None,"ch":[item]}
       | {"n":"text","e":expr}
       | {"n":"comp","c":idx,"a":{..},"on":{..},"k":..,"slots":{name:[item]}|None,
          "sc":expr (whether any slots are passed),"so":{name:expr} (whether that slot is passed)}
       | {"n":"alt","c":expr,"t":node,"e":node}          (one of two nodes)
       | {"n":"virt","t":"template"|"slot","k":..,"ch":[item]}
item  := node | {"n":"if","br":[[expr|None,[item]],..]} | {"n":"for","over":expr,"v":name,"b":node,"if":expr|None}
       | {"n":"slot","name":name,"fb":[item]|None}
expr  := ["c",v] ["s",key] ["p",name] ["st",key] ["v",var] ["vi",var,field] ["pi",prop,field] ["cat",e,..] ["not",e]
       ["eq",e,const] ["inj",key] ["len",e] ["opt",cond,e] (attr values only)
       ["cmp",name] (computed value: of the component, or of the application)
         ["as",kind,options,e] (value for a toolkit, depending on e)
         ["fmt",str|e,..] (texts of templates) ["nm",name] (bare name in a template)
"""
import copy
import types
from functools import partial

from observ.proxy import Proxy

ABSENT = object()


def raw(v):
    while isinstance(v, Proxy):
        v = v.target
    return v


def vv(v):
    """Hashable description of a value, by identity for containers."""
    v = raw(v)
    if isinstance(v, dict):
        return ("o", id(v), v.get("id"))
    if isinstance(v, list):
        return ("l", id(v), len(v))
    return v


def typed(kind, options, v):
    """A value for a toolkit that depends on v."""
    v = raw(v)
    n = sum(map(ord, repr(int(v) if isinstance(v, bool) else v))) + len(repr(v))
    x = options[n % len(options)]
    if kind == "vec" and n % 3 == 0:
        import numpy as np

        return np.array(x, dtype=float)
    if kind in ("vec", "tuple"):
        return tuple(x)
    if kind == "cols":
        return {0: x, 1: options[(n // 2) % len(options)]}
    if kind == "grid":
        return (x % 20, (x // 20) * 2 + n % 2)
    if kind == "cell":
        return (x[0], x[1] + n % 2)
    if kind == "opts":
        return tuple(x) if isinstance(x, list) else x
    if kind == "lay":
        return {k: [tuple(a) for a in v] if k.endswith("stretch") else tuple(v) if isinstance(v, list) else v for k, v in x.items()}
    if kind == "tbarea":
        from PySide6 import QtCore

        return getattr(QtCore.Qt.ToolBarArea, x)
    if kind == "area":
        from PySide6 import QtCore

        return getattr(QtCore.Qt.DockWidgetArea, x)
    return copy.deepcopy(x)


class Env:
    __slots__ = ("sim", "comp", "inst", "props", "state", "vars", "slots", "ref")

    def __init__(self, sim, comp, inst, props, state, slots, ref=None, vars=None):
        self.sim = sim
        self.comp = comp
        self.inst = inst
        self.props = props
        self.state = state
        self.slots = slots
        self.ref = ref
        self.vars = vars or {}

    def bind(self, name, value):
        e = Env(self.sim, self.comp, self.inst, self.props, self.state, self.slots, self.ref)
        e.vars = dict(self.vars)
        e.vars[name] = value
        return e


class Interp:
    real = False

    def ex(self, e, env):
        op = e[0]
        if op == "c":
            return e[1]
        if op == "s":
            return self.store(env)[e[1]]
        if op == "p":
            return env.props.get(e[1])
        if op == "st":
            return env.state[e[1]] if env.state is not None else None
        if op == "v":
            return env.vars.get(e[1])
        if op == "vi":
            item = env.vars.get(e[1])
            return None if item is None else item[e[2]]
        if op == "pi":
            item = env.props.get(e[1])
            return None if item is None else item[e[2]]
        if op == "cat":
            return "".join(str(self.ex(x, env)) + "." for x in e[1:])
        if op == "not":
            return not self.ex(e[1], env)
        if op == "eq":
            return self.ex(e[1], env) == e[2]
        if op == "len":
            v = self.ex(e[1], env)
            return 0 if v is None else len(v)
        if op == "inj":
            return self.inject(e[1], env)
        if op == "nul":
            return self.ex(e[2], env) if self.ex(e[1], env) else None
        if op == "opt":
            return self.ex(e[2], env) if self.ex(e[1], env) else ABSENT
        if op == "fmt":
            return "".join(x if isinstance(x, str) else str(self.ex(x, env)) for x in e[1:])
        if op == "nm":
            return self.lookup(e[1], env)
        if op == "cmp":
            return self.computed(e[1], env)
        if op == "as":
            return typed(e[1], e[2], self.ex(e[3], env))
        raise AssertionError(e)

    def items(self, its, env):
        out = []
        for it in its or ():
            n = it["n"]
            if n == "if":
                for cond, body in it["br"]:
                    if cond is None or self.ex(cond, env):
                        out.extend(self.items(body, env))
                        break
            elif n == "for":
                lst = self.ex(it["over"], env)
                for x in lst if lst is not None else ():
                    if it.get("if") is not None and not self.ex(it["if"], env.bind(it["v"], x)):
                        continue
                    out.append(self.node(it["b"], env.bind(it["v"], x)))
            elif n == "slot" and it.get("cgx"):
                # a template wraps what a slot shows in a virtual <slot> element
                fn = (env.slots or {}).get(it["name"])
                res = self.call_slot(it, fn, env) if fn is not None else self.items(it.get("fb"), env)
                out.append(self.virt({"t": "slot"}, None, res, env))
            elif n == "slot":
                fn = (env.slots or {}).get(it["name"])
                if fn is not None:
                    res = self.call_slot(it, fn, env)
                    out.extend(res)
                elif it.get("fb") is not None:
                    out.extend(self.items(it["fb"], env))
            else:
                out.append(self.node(it, env))
        return out

    def attrs(self, n, env):
        res = {}
        for name, e in (n.get("a") or {}).items():
            v = self.ex(e, env)
            if v is not ABSENT:
                res[name] = v
        return res

    def handlers(self, n, env):
        res = {}
        for ev, h in (n.get("on") or {}).items():
            if h[0] == "hopt":
                if not self.ex(h[1], env):
                    continue
                h = h[2]
            res[ev] = self.handler(h, env)
        return res

    def node(self, n, env):
        while n["n"] == "alt":
            n = n["t"] if self.ex(n["c"], env) else n["e"]
        k = self.ex(n["k"], env) if n.get("k") is not None else None
        kind = n["n"]
        if kind == "host":
            return self.host(n, k, self.attrs(n, env), self.handlers(n, env), self.items(n.get("ch"), env), env)
        if kind == "text":
            return self.text(self.ex(n["e"], env))
        if kind == "virt":
            return self.virt(n, k, self.items(n.get("ch"), env), env)
        if kind == "comp":
            slots = None
            if n.get("slots") is not None and (n.get("sc") is None or self.ex(n["sc"], env)):
                so = n.get("so") or {}
                slots = {
                    name: self.slot_fn(name, its, env)
                    for name, its in n["slots"].items()
                    if name not in so or self.ex(so[name], env)
                }
            return self.component(n, k, self.attrs(n, env), self.handlers(n, env), slots, env)
        raise AssertionError(n)

    def choose(self, h, env):
        if h[0] == "hif":
            return self.choose(h[2] if self.ex(h[1], env) else h[3], env)
        return h


# ---------------------------------------------------------------- real reading
def mk_clos(sim, hid, v):
    return lambda *a, **kw: sim.fire(("clos", hid, vv(v)), args=(a, kw))


def mk_late(sim, hid, item):
    return lambda *a: sim.fire(("late", hid, vv(item), item["t"]))


def mk_mut(sim, hid, item):
    def go(*a):
        def effect():
            w = sim.writable(item)
            w["t"] = str(w["t"])[:6] + "!"

        return sim.fire(("mut", hid, vv(item)), effect)

    return go


def mk_dflt(sim, hid, v):
    return lambda ev=None, v=v: sim.fire(("dflt", hid, vv(v)))


def mk_kwd(sim, hid, v):
    def go(*a, v=v):
        return sim.fire(("kwd", hid, vv(v)))

    return go


def _part(sim, hid, v, *a):
    return sim.fire(("part", hid, vv(v)))


def _kpart(sim, hid, *a, v=None):
    return sim.fire(("kpart", hid, vv(v)))


def mk_inc(sim, hid, key):
    def go(*a):
        def effect():
            sim.store[key] = (sim.raw[key] + 1) % 7

        return sim.fire(("inc", hid, key), effect)

    return go


def mk_linc(sim, hid, inst, key):
    def go(*a):
        def effect():
            inst.state[key] = (raw(inst.state)[key] + 1) % 5

        return sim.fire(("linc", hid, sim.uid(inst), key), effect)

    return go


def mk_emit(sim, hid, inst, evt, v):
    def go(*a):
        return sim.fire(("emit", hid, sim.uid(inst), evt, vv(v)), lambda: inst.emit(evt, v))

    return go


def mk_fwd(inner):
    return lambda *a: inner(*a)


class CObj:
    def __init__(self, sim, hid, v):
        self.sim, self.hid, self.v = sim, hid, v

    def __call__(self, *a):
        return self.sim.fire(("cobj", self.hid, vv(self.v)))


class Arity:
    """Handlers of all sorts that take a certain number of arguments."""

    def __init__(self, sim, hid, v, n, opt):
        self.sim, self.n, self.opt = sim, n, opt
        self.desc = ("ar", hid, vv(v), n)
        form = hid % 5
        names = [f"a{i}" for i in range(n + self.opt)]
        params = [f"a{i}" if i < n else f"a{i}=no" for i in range(len(names))]
        code = {"no": self, "note": self.note}
        bound = ["me"] if form == 0 else []
        exec(f"def fn({', '.join(bound + params)}): return note({', '.join(names)})", code)
        if form == 0:
            self.fn = types.MethodType(code["fn"], self)
        elif form == 1:
            self.fn = type("Callable", (), {"__call__": staticmethod(code["fn"])})()
        elif form == 2:
            self.fn = partial(code["fn"])
        else:
            self.fn = code["fn"]

    def note(self, *args):
        args = tuple(a for a in args if a is not self)
        return self.sim.fire(self.desc, ar=(self, args))


def mk_ar(sim, hid, v, n, opt):
    key = ("ar", hid, repr(vv(v)), n)
    if key not in sim.objms:
        ar = sim.objms[key] = Arity(sim, hid, v, n, opt)
        sim.arities[id(ar.fn)] = ar
    return sim.objms[key].fn


class ObjM:
    """A stable per-item model object whose bound method is used as a handler."""

    def __init__(self, sim, item):
        self.sim, self.item = sim, item

    def go(self, *a):
        return self.sim.fire(("objm", vv(self.item)))


class Real(Interp):
    real = True

    def __init__(self, cg):
        self.cg = cg

    def store(self, env):
        return env.sim.store

    def computed(self, name, env):
        return env.sim.computed(name, env.inst)

    def inject(self, key, env):
        return env.inst.inject(key, "none") if env.inst is not None else "none"

    def _props(self, k, attrs, handlers):
        p = dict(attrs)
        for ev, fn in handlers.items():
            p["on_" + ev] = fn
        if k is not None:
            p["key"] = k
        return p

    def host(self, n, k, attrs, handlers, ch, env):
        return self.cg.h(n["t"], self._props(k, attrs, handlers), *ch)

    def text(self, s):
        return "" if s is None else str(s)

    def virt(self, n, k, ch, env):
        return self.cg.h(n["t"], {"key": k} if k is not None else {}, *ch)

    def component(self, n, k, attrs, handlers, slots, env):
        typ = env.sim.comp_types[n["c"]]
        p = self._props(k, attrs, handlers)
        if slots is not None:
            return self.cg.h(typ, p, slots)
        return self.cg.h(typ, p)

    def slot_fn(self, name, its, env):
        interp = self

        def slot(props):
            env.sim.fault("slot")
            return interp.items(its, env)

        return slot

    def call_slot(self, it, fn, env):
        if env.inst is not None:
            res = env.inst.render_slot(it["name"])
        else:
            res = self.cg.render_slot(it["name"], None, env.slots)
        return list(res)

    def handler(self, h, env):
        h = self.choose(h, env)
        sim = env.sim
        kind, hid = h[0], h[1]
        if kind == "clos":
            return mk_clos(sim, hid, self.ex(h[2], env))
        if kind == "late":
            return mk_late(sim, hid, self.ex(h[2], env))
        if kind == "mut":
            return mk_mut(sim, hid, self.ex(h[2], env))
        if kind == "dflt":
            return mk_dflt(sim, hid, self.ex(h[2], env))
        if kind == "kwd":
            return mk_kwd(sim, hid, self.ex(h[2], env))
        if kind == "part":
            return partial(_part, sim, hid, self.ex(h[2], env))
        if kind == "kpart":
            return partial(_kpart, sim, hid, v=self.ex(h[2], env))
        if kind == "inc":
            return mk_inc(sim, hid, h[2])
        if kind == "linc":
            return mk_linc(sim, hid, env.inst, h[2])
        if kind == "emit":
            return mk_emit(sim, hid, env.inst, h[2], self.ex(h[3], env))
        if kind == "meth":
            return getattr(env.inst, h[2])
        if kind == "objm":
            return sim.objm(self.ex(h[2], env)).go
        if kind == "ar":
            return mk_ar(sim, hid, self.ex(h[2], env), h[3], h[4])
        if kind == "cobj":
            return CObj(sim, hid, self.ex(h[2], env))
        if kind == "fwd":
            return mk_fwd(self.handler(h[2], env))
        raise AssertionError(h)


# ---------------------------------------------------------------- spec reading
class SNode:
    __slots__ = ("kind", "type", "key", "attrs", "handlers", "children", "slots", "text", "inst", "n")

    def __init__(self, kind, type, key, attrs=None, handlers=None, children=None, slots=None, text=None, n=None):
        self.kind = kind
        self.type = type
        self.key = key
        self.attrs = attrs or {}
        self.handlers = handlers or {}
        self.children = children or []
        self.slots = slots
        self.text = text
        self.n = n


class Spec(Interp):
    def store(self, env):
        return env.sim.raw

    def computed(self, name, env):
        if name[0] == "z":
            return self.ex(env.sim.case["prog"]["computed"][name]["e"], env)
        return self.ex(env.comp["computed"][name]["e"], env)

    def inject(self, key, env):
        return env.sim.spec_inject(env.ref, key)

    def lookup(self, name, env):
        """The documented precedence of names in a template."""
        if name in env.props:
            return env.props[name]
        if env.state is not None and name in env.state:
            return env.state[name]
        spec = (env.comp.get("names") or {}).get(name) or {}
        if spec.get("attr") == "class":
            return "attr-" + name
        if spec.get("attr") == "odd" and env.inst is not None and env.inst % 2:
            return f"attr-{name}@{env.inst}"
        if spec.get("glob"):
            return env.sim.glob_value(env.comp, name)
        return "NE"

    def host(self, n, k, attrs, handlers, ch, env):
        return SNode("host", n["t"], k, attrs, handlers, ch)

    def text(self, s):
        return SNode("text", "TEXT_ELEMENT", None, text="" if s is None else str(s))

    def virt(self, n, k, ch, env):
        return SNode("virt", n["t"], k, children=ch)

    def component(self, n, k, attrs, handlers, slots, env):
        return SNode("comp", n["c"], k, attrs, handlers, slots=slots, n=n)

    def slot_fn(self, name, its, env):
        return lambda: self.items(its, env)

    def call_slot(self, it, fn, env):
        return fn()

    def handler(self, h, env):
        """The descriptor that calling the handler must report."""
        h = self.choose(h, env)
        sim = env.sim
        kind, hid = h[0], h[1]
        if kind in ("clos", "mut", "dflt", "kwd", "part", "kpart", "cobj"):
            return (kind, hid, vv(self.ex(h[2], env)))
        if kind == "ar":
            return (kind, hid, vv(self.ex(h[2], env)), h[3])
        if kind == "late":
            item = self.ex(h[2], env)
            return ("late", hid, vv(item), raw(item)["t"])
        if kind == "inc":
            return ("inc", hid, h[2])
        if kind == "linc":
            return ("linc", hid, env.inst, h[2])
        if kind == "emit":
            return ("emit", hid, env.inst, h[2], vv(self.ex(h[3], env)))
        if kind == "meth":
            return ("meth", h[2], env.inst)
        if kind == "objm":
            return ("objm", vv(self.ex(h[2], env)))
        if kind == "fwd":
            return self.handler(h[2], env)
        raise AssertionError(h)

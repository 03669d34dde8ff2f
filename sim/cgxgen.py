"""Single-file components: prints a component description as .cgx source, in many spellings.
The reference model reads the same description directly, so the template compiler, the name
lookup and the class it produces are compared with the description written by hand."""
import copy
import functools
import html
import random
import sys
import types

from .boot import cg
from . import prog as P
from .host import SimAbort
from .prog import raw, vv


# ------------------------------------------------------------------ what a template can express
def normalise(cd):
    cd = copy.deepcopy(cd)
    cd["root"] = norm_root(cd["root"])
    return cd


def norm_root(n):
    if n["n"] == "alt":
        n = {"n": "virt", "t": "template", "k": None,
             "ch": [{"n": "if", "br": [[n["c"], [n["t"]]], [None, [n["e"]]]]}]}
    return norm_node(n)


def norm_node(n):
    k = n["n"]
    if k == "text":
        e = n["e"]
        if e[0] == "c":
            e = ["fmt", "" if e[1] is None else str(e[1])]
        elif e[0] == "cat":
            parts = [""]
            for x in e[1:]:
                if x[0] == "c":
                    parts[-1] += str(x[1]) + "."
                else:
                    parts += [x, "."]
            e = ["fmt"] + parts
        elif e[0] != "fmt":
            e = ["fmt", "", e, ""]
        return dict(n, e=e)
    if k in ("host", "virt"):
        return dict(n, ch=norm_items(n.get("ch")))
    if k == "comp":
        n = dict(n)
        n.pop("sc", None)
        n.pop("so", None)
        if n.get("slots") is not None:
            n["slots"] = {name: [as_template(its)] for name, its in n["slots"].items()} or None
        return n
    raise AssertionError(n)


def as_template(its):
    if len(its) == 1 and its[0]["n"] == "virt" and its[0].get("k") is None:
        return norm_node(its[0])
    return {"n": "virt", "t": "template", "k": None, "ch": norm_items(its)}


def norm_item(it):
    k = it["n"]
    if k == "alt":
        it = {"n": "if", "br": [[it["c"], [it["t"]]], [None, [it["e"]]]]}
        k = "if"
    if k == "if":
        br = []
        for c, body in it["br"]:
            body = norm_items(body)
            if len(body) != 1 or body[0]["n"] in ("text", "if", "for"):
                body = [{"n": "virt", "t": "template", "k": None, "ch": body}]
            br.append([c, body])
        return dict(it, br=br)
    if k == "for":
        b = it["b"]
        if b["n"] == "alt":
            k = b["k"]
            b = {"n": "virt", "t": "template", "k": k, "ch": [b]}
        return dict(it, b=norm_node(b))
    if k == "slot":
        return dict(it, cgx=1, fb=norm_items(it.get("fb")))
    return norm_node(it)


def norm_items(its):
    out = []
    for it in its or ():
        it = norm_item(it)
        if it["n"] == "text":
            if len(it["e"]) == 2 and not it["e"][1].strip():
                continue
            if out and out[-1]["n"] == "text":
                it = {"n": "virt", "t": "template", "k": None, "ch": [it]}
        out.append(it)
    return out


# ------------------------------------------------------------------ printing
BARE_STATE = ("k0", "kb")


class Printer:
    def __init__(self, sim, i, cd):
        self.sim = sim
        self.i = i
        self.cd = cd
        self.rng = random.Random(f"cgx/{i}/{cd.get('style', 0)}")
        self.noise = cd.get("noise", 0.12)
        self.style = self.rng.choice(["from", "mod", "glob"])
        self.helpers = set()

    # -- names
    def helper(self, name):
        self.helpers.add(name)
        return "ns." + name if self.style == "mod" else name

    def bare(self, name, vars, long):
        """A bare name, or the long form when a loop variable hides it."""
        if name in vars.values():
            return long
        return self.rng.choice([name, name, long])

    # -- expressions
    def ex(self, e, vars, depth=0):
        s = self.ex1(e, vars, depth)
        r = self.rng
        if depth < 3 and r.random() < self.noise:
            z = r.choice(["z", "z9", "k0", "p0", "store"])
            # CPython 3.12.3 miscompiles comprehensions within comprehensions that use the name of a
            # variable that is captured by a function or of a global that is used next to them
            y = "z8" if z in vars.values() or z == "store" else z
            s = r.choice([
                f"({s})",
                f"[{y} for {y} in [{s}]][0]",
                f"(lambda {z}: {z})({s})",
                f"(lambda {z}={s}: {z})()",
                f"({s} if True else None)",
                f"list({z} for {z} in ({s},))[0]",
                f"[{y} for y9 in [[{s}]] for {y} in y9][0]",
                f"(lambda *{z}: {z}[0])({s})",
                f"(lambda **{z}: {z}['q'])(q={s})",
                f"(lambda y9, *, {z}: {z})(0, {z}={s})",
                f"{{1: {y} for {y} in [{s}]}}[1]",
                f"[*{{(lambda q={y}: q) for {y} in [{s}]}}][0]()",
            ])
        return s

    def ex1(self, e, vars, d):
        op = e[0]
        r = self.rng
        if op == "c":
            return repr(e[1])
        if op == "s":
            return f"{self.helper('store')}[{e[1]!r}]"
        if op == "p":
            name = e[1]
            long = r.choice([f"props.get({name!r})", f"me.props.get({name!r})"])
            return long if name[0] == "g" else self.bare(name, vars, long)
        if op == "st":
            name = e[1]
            return self.bare(name, vars, r.choice([f"state[{name!r}]", f"me.state[{name!r}]"]))
        if op == "v":
            return vars[e[1]]
        if op == "vi":
            return f"{vars[e[1]]}[{e[2]!r}]"
        if op == "pi":
            return f"props[{e[1]!r}][{e[2]!r}]"
        if op == "nm":
            name = e[1]
            spec = (self.cd.get("names") or {}).get(name) or {}
            if name in vars.values():
                raise AssertionError(name)
            if (spec.get("glob") or spec.get("attr") == "class") and r.random() < 0.5:
                return name
            return f"{self.helper('tn')}(lambda: {name})"
        if op == "cat":
            parts = [self.ex(x, vars, d + 1) for x in e[1:]]
            if r.random() < 0.5:
                return f"{self.helper('cat')}({', '.join(parts)})"
            return "(" + " + ".join(f"str({p}) + '.'" for p in parts) + ")" if r.random() < 0.5 else \
                "''.join([" + ", ".join("f'{" + self.fstr(x, vars, d) + "}.'" for x in e[1:]) + "])"
        if op == "not":
            return f"(not {self.ex(e[1], vars, d + 1)})"
        if op == "eq":
            return f"({self.ex(e[1], vars, d + 1)} == {e[2]!r})"
        if op == "len":
            return f"{self.helper('ln')}({self.ex(e[1], vars, d + 1)})"
        if op == "cmp":
            return r.choice(["cmp", "me.cmp"]) + f"({e[1]!r})"
        if op == "inj":
            return r.choice(["inject", "me.inject"]) + f"({e[1]!r}, 'none')"
        if op == "nul":
            return f"({self.ex(e[2], vars, d + 1)} if {self.ex(e[1], vars, d + 1)} else None)"
        raise AssertionError(e)

    def fstr(self, e, vars, d):
        # within an f-string: parenthesised, so that no colon or ! is misread
        return "(" + self.ex(e, vars, 9) + ")"

    # -- handlers
    def hd(self, h, vars):
        r = self.rng
        k = h[0]
        if k == "hif":
            return f"(({self.hd(h[2], vars)}) if {self.ex(h[1], vars)} else ({self.hd(h[3], vars)}))"
        hid = h[1]
        if k == "meth":
            return r.choice([h[2], "me." + h[2]])
        if k == "inc":
            return f"{self.helper('mk_inc')}({hid}, {h[2]!r})"
        if k == "linc":
            return f"{self.helper('mk_linc')}({hid}, me, {h[2]!r})"
        if k == "fwd":
            return f"{self.helper('mk_fwd')}({self.hd(h[2], vars)})"
        if k == "emit":
            v = self.ex(h[3], vars)
            if r.random() < 0.5:
                return f"lambda *a: {self.helper('emitx')}({hid}, me, {h[2]!r}, {v})"
            return f"{self.helper('mk_emit')}({hid}, me, {h[2]!r}, {v})"
        v = self.ex(h[2], vars)
        if k == "ar":
            return f"{self.helper('mk_ar')}({hid}, {v}, {h[3]}, {h[4]})"
        if k == "clos" and r.random() < 0.6:
            f = self.helper("fire")
            return r.choice([
                f"lambda *a: {f}('clos', {hid}, {v})",
                f"lambda *a, q={v}: {f}('clos', {hid}, q)",
                f"lambda *a, z={v}, **k: {f}('clos', {hid}, z)",
                f"(lambda q: lambda *a: {f}('clos', {hid}, q))({v})",
            ])
        if k == "late" and r.random() < 0.6:
            return f"lambda *a: {self.helper('late')}({hid}, {v})"
        if k == "dflt" and r.random() < 0.6:
            return f"lambda ev=None, v={v}: {self.helper('fire')}('dflt', {hid}, v)"
        return f"{self.helper('CObj' if k == 'cobj' else 'mk_' + k)}({hid}, {v})"

    # -- markup
    def lay(self, s):
        """Expressions of templates can be laid out over multiple lines."""
        r = self.rng
        if r.random() > self.noise:
            return s
        return r.choice([f" {s}", f"\n      {s}\n    ", f"{s}\n    ", f"\t{s} ", f"({s})\n      if True\n      else None", f"[\n  {s}\n    ][0]", f"({s})  # note\n  "])

    def esc(self, s):
        return '"' + html.escape(s, quote=True) + '"'

    def attrs(self, n, vars, lead=()):
        """Attribute list of a tag; what may be absent goes through one v-bind of a dict."""
        r = self.rng
        out = []
        dyn = []
        bound = []
        todo = [("a", k, e) for k, e in (n.get("a") or {}).items()] + [("on", k, h) for k, h in (n.get("on") or {}).items()]
        if n.get("k") is not None:
            todo.append(("a", "key", n["k"]))
        r.shuffle(todo)
        for what, k, e in todo:
            if what == "a":
                if e[0] == "opt":
                    dyn.append(f"**({{{k!r}: {self.ex(e[2], vars)}}} if {self.ex(e[1], vars)} else {{}})")
                elif r.random() < 0.1:
                    dyn.append(f"{k!r}: {self.ex(e, vars)}")
                    bound.append(k)
                elif e[0] == "c" and isinstance(e[1], str) and r.random() < 0.7:
                    out.append(f"{k}={self.esc(e[1])}")
                elif e[0] == "c" and e[1] is True and r.random() < 0.6:
                    out.append(k)
                else:
                    out.append(f"{r.choice([':', 'v-bind:'])}{k}={self.esc(self.lay(self.ex(e, vars)))}")
            else:
                if e[0] == "hopt":
                    dyn.append(f"**({{'on_{k}': ({self.hd(e[2], vars)})}} if {self.ex(e[1], vars)} else {{}})")
                elif r.random() < 0.1:
                    dyn.append(f"'on_{k}': ({self.hd(e, vars)})")
                else:
                    out.append(f"{r.choice(['@', 'v-on:'])}{k}={self.esc(self.lay(self.hd(e, vars)))}")
        if dyn or (out and r.random() < 0.08):
            at = r.randint(0, len(out))
            # what comes after the v-bind prevails over what is in it and before it
            early = []
            for raw in out[at:]:
                k = raw.split("=")[0]
                event = k.startswith(("@", "v-on:"))
                k = k.split(":")[-1].lstrip("@").lower()
                if k == "key" or k.startswith("v-") or r.random() < 0.6:
                    continue
                if r.random() < 0.8:
                    dyn.insert(r.randint(0, len(dyn)) if k in bound else len(dyn), f"'on_{k}': (lambda *a: 1 / 0)" if event else f"{k!r}: 'decoy'")
                if r.random() < 0.6:
                    if event:
                        early.append(f"""{'v-on:' if raw[0] == '@' else '@'}{k}="lambda *a: 1 / 0\"""")
                    else:
                        early.append(f":{k}=\"'decoy'\"" if not raw.startswith((":", "v-bind:")) else f'{k}="decoy"')
            if not dyn:
                dyn.append("**{}")
            for e in early:
                out.insert(r.randint(0, at), e)
                at += 1
            out.insert(at, f"v-bind={self.esc(self.lay('{' + ', '.join(dyn) + '}'))}")
            if bound and r.random() < 0.5:
                # the last one prevails
                k = r.choice(bound)
                if k != "key":
                    out.insert(r.randint(0, at), f'{k}="decoy"')
        out[0:0] = list(lead)
        return "".join(r.choice([" ", " ", "\n    "]) + x for x in out)

    def tag(self, n):
        if n["n"] == "comp":
            name = self.sim.comp_types[n["c"]].__name__
            if self.rng.random() < 0.3:
                self.helpers.add("pkg")
                return "pkg." + name if self.style != "mod" else "ns.pkg." + name
            self.helpers.add(("comp", name))
            return name
        return n["t"]

    def node(self, n, vars, lead=()):
        r = self.rng
        if n["n"] == "text":
            return self.text(n["e"], vars)
        if n["n"] == "slot":
            lead = list(lead)
            if n["name"] != "default" or r.random() < 0.3:
                lead.append(f'name="{n["name"]}"')
            fb = self.items(n.get("fb"), vars)
            return self.wrap("slot", "".join(" " + x for x in lead), fb)
        tag = self.tag(n)
        a = self.attrs(n, vars, lead)
        if n["n"] == "comp":
            body = []
            for name, (tpl,) in (n.get("slots") or {}).items():
                ch = self.items(tpl["ch"], vars)
                if name == "default" and tpl["ch"] and not any(self.slotted(x) for x in tpl["ch"]) and r.random() < 0.7:
                    body.append(("d", ch))
                else:
                    d = r.choice([f"v-slot:{name}", f"#{name}"] + (["v-slot"] if name == "default" else []))
                    body.append(("n", self.wrap("template", " " + d, ch)))
            if body and r.random() < 0.3:
                body.append(("n", "<!-- note -->"))
            r.shuffle(body)
            return self.wrap(tag, a, "".join(x for _, x in body))
        return self.wrap(tag, a, self.items(n.get("ch"), vars))

    def slotted(self, it):
        return False

    def wrap(self, tag, attrs, body):
        if not body and self.rng.random() < 0.7:
            return f"<{tag}{attrs} />"
        return f"<{tag}{attrs}>{body}</{tag}>"

    def text(self, e, vars):
        out = ""
        for x in e[1:]:
            if isinstance(x, str):
                out += html.escape(x, quote=False)
            else:
                out += "{{" + self.rng.choice(["", " "]) + html.escape(self.lay(self.ex(x, vars)), quote=False) + self.rng.choice(["", " "]) + "}}"
        return out

    def items(self, its, vars):
        r = self.rng
        out = ""
        last_text = True
        for it in its or ():
            k = it["n"]
            if k == "if":
                part = ""
                for j, (c, body) in enumerate(it["br"]):
                    d = "v-else" if c is None else ("v-if=" if j == 0 else "v-else-if=") + self.esc(self.lay(self.ex(c, vars)))
                    if part:
                        part += r.choice(["", "\n  "])
                    part += self.node(body[0], vars, [d])
            elif k == "for":
                part = self.loop(it, vars)
            else:
                part = self.node(it, vars)
            is_text = k == "text"
            if not is_text and not last_text:
                out += r.choice(["", "\n  ", " "])
                if r.random() < 0.05:
                    out += "<!-- <y> {{ nope }} -->"
            out += part
            last_text = is_text
        return out

    def loop(self, it, vars):
        r = self.rng
        used = names_used(it["b"])
        v = it["v"]
        alias = v
        if r.random() < 0.2:
            alias = r.choice(["p0", "k0", "item", "name", "self_", "props_", "x"])
            if alias in used or alias in vars.values():
                alias = v
        over = self.ex(it["over"], vars)
        if it["over"][0] in ("p", "pi"):
            over = f"({over} or ())"
        inner = dict(vars)
        inner[v] = alias
        x = r.random()
        if x < 0.6:
            d = f"{alias} in {over}"
        elif x < 0.8:
            d = f"i_{v}, {alias} in enumerate({over})"
        elif x < 0.9:
            d = f"(i_{v}, ({alias}, j_{v})) in enumerate((z, 1) for z in {over})"
        else:
            d = f"{alias} in [z for z in {over}]"
        if it.get("if") is not None:
            d += f" if {self.ex(it['if'], inner)}"
        return self.node(it["b"], inner, [f"v-for={self.esc(r.choice([d, d, d, f' {d} ', chr(10) + '  ' + d + chr(10) + '  ']))}"])

    # -- the file
    def source(self):
        r = self.rng
        body = self.node(self.cd["root"], {})
        if r.random() < 0.3:
            body = "<!-- root -->" + body
        template = f"<template>\n{body}\n</template>\n"
        lines = ["import collagraph as cg"] if r.random() < 0.5 else []
        names = sorted(h for h in self.helpers if isinstance(h, str)) + ["Base%d" % self.i]
        comps = sorted(h[1] for h in self.helpers if not isinstance(h, str))
        if self.style == "mod":
            lines.append("import simns as ns")
            lines.append("Base%d = ns.Base%d" % (self.i, self.i))
            lines += [f"{c} = ns.{c}" for c in comps]
        elif self.style == "from":
            lines.append("from simns import " + ", ".join(names + comps))
        else:
            lines.append("import simns")
            lines += [f"{c} = simns.{c}" for c in names + comps]
        cls = f"C{self.i}"
        nm = self.cd.get("names") or {}
        for name in sorted(nm):
            if nm[name].get("glob"):
                lines.append(f"{name} = 'glob-{name}'")
        lines.append("")
        if r.random() < 0.2:
            lines += ["class Other:", "    pass", ""]
        lines.append(f"class {cls}(Base{self.i}):")
        lines.append("    p0 = p1 = p2 = it = items = None")
        for name in sorted(nm):
            if nm[name].get("attr") == "class":
                lines.append(f"    {name} = 'attr-{name}'")
        if r.random() < 0.25:
            # names that are only known within a function
            local = sorted(nm) + ["p0", "items"]
            lines += ["    def unrelated(self):"]
            lines += [f"        from math import floor as {x}" if r.random() < 0.6 else f"        import json as {x}" for x in local]
            lines += [f"        return {x}" for x in local[:1]]
        script = "<script>\n" + "\n".join(lines) + "\n</script>\n"
        parts = [template, script]
        if r.random() < 0.3:
            parts.reverse()
        return "\n".join(parts)


def names_used(x, acc=None):
    """Names that the body uses, so that a loop variable does not hide them by accident."""
    acc = set() if acc is None else acc
    if isinstance(x, list):
        if x and x[0] == "nm":
            acc.add(x[1])
        for y in x:
            names_used(y, acc)
    elif isinstance(x, dict):
        for y in x.values():
            names_used(y, acc)
    return acc


# ------------------------------------------------------------------ namespace
def namespace(sim):
    ns = types.ModuleType("simns")

    def fire(kind, hid, v=None):
        return sim.fire((kind, hid, vv(v)))

    def emitx(hid, inst, evt, v):
        return sim.fire(("emit", hid, sim.uid(inst), evt, vv(v)), lambda: inst.emit(evt, v))

    def tn(fn):
        try:
            return fn()
        except NameError:
            return "NE"

    ns.__dict__.update(
        store=sim.store,
        fire=fire,
        late=lambda hid, item: sim.fire(("late", hid, vv(item), item["t"])),
        emitx=emitx,
        tn=tn,
        cat=lambda *a: "".join(str(x) + "." for x in a),
        ln=lambda v: 0 if v is None else len(v),
        mk_clos=functools.partial(P.mk_clos, sim),
        mk_ar=functools.partial(P.mk_ar, sim),
        mk_late=functools.partial(P.mk_late, sim),
        mk_mut=functools.partial(P.mk_mut, sim),
        mk_dflt=functools.partial(P.mk_dflt, sim),
        mk_kwd=functools.partial(P.mk_kwd, sim),
        mk_part=lambda hid, v: functools.partial(P._part, sim, hid, v),
        mk_kpart=lambda hid, v: functools.partial(P._kpart, sim, hid, v=v),
        CObj=functools.partial(P.CObj, sim),
        mk_objm=lambda hid, item: sim.objm(item).go,
        mk_inc=functools.partial(P.mk_inc, sim),
        mk_linc=functools.partial(P.mk_linc, sim),
        mk_emit=functools.partial(P.mk_emit, sim),
        mk_fwd=P.mk_fwd,
        pkg=types.SimpleNamespace(),
    )
    sys.modules["simns"] = ns
    return ns


def publish(sim):
    """Make the component types known to the scripts."""
    for t in sim.comp_types:
        if t is not None:
            setattr(sim.ns, t.__name__, t)
            setattr(sim.ns.pkg, t.__name__, t)


def make(sim, i, cd):
    if not hasattr(sim, "ns"):
        sim.ns = namespace(sim)
        sim.cgx_sources = {}
        sim.globs = {}
    publish(sim)
    cns = sim.class_ns(i, cd)
    init = cns["__init__"]

    def __init__(self, props=None, parent=None):
        init(self, props, parent)
        for name, spec in sorted((cd.get("names") or {}).items()):
            if spec.get("attr") == "odd" and self._sim_uid % 2:
                setattr(self, name, f"attr-{name}@{self._sim_uid}")

    cns["__init__"] = __init__
    cns["me"] = property(lambda self: self)
    setattr(sim.ns, "Base%d" % i, type("Base%d" % i, (cg.Component,), cns))
    src = Printer(sim, i, cd).source()
    sim.cgx_sources[i] = src
    from collagraph.cgx import cgx

    try:
        cls, module_ns = cgx.load_from_string(src)
    except Exception as e:
        sim.violate("template", ["C19"], f"a template of documented directives can't be loaded: {type(e).__name__}: {e}".replace("\n", " ")[:300])
        raise SimAbort() from e
    sim.globs[i] = module_ns
    orig = cls.render

    def render(self):
        g = sim.inst_gui[self._sim_uid]
        sim.render_start(g, self, i)
        sim.touch(i)
        sim.fault("render", g, i)
        out = orig(self)
        sim.render_end(g, None, self, out)
        return out

    cls.render = render
    return cls

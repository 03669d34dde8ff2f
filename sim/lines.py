"""Source positions of .cgx files (C28): failures are injected at marked places of generated scripts and
templates, in every phase of a component's life; the tracebacks that come out have to point at the
lines of the file where the author wrote what failed."""
import ast
import importlib
import os
import random
import shutil
import sys
import tempfile
import types

from .boot import LOOP, cg

NAME = "zlines"


class Boom(Exception):
    pass


# ------------------------------------------------------------------ generation
class Gen:
    def __init__(self, rng, P):
        self.rng, self.P = rng, P

    def case(self):
        r = self.rng
        spec = {
            "seed": r.randrange(1 << 30),
            "order": r.choice(["ts", "st"]),
            "tag": r.choice(["plain", "plain", "lang", "multi", "sameline"]),
            "end": r.choice(["own", "own", "same"]),
            "lead": r.randint(0, 3),
            "blank": r.randint(0, 3),
            "between": r.randint(0, 3),
            "funcs": r.randint(0, 3),
            "methods": r.randint(1, 4),
            "deco": r.random() < 0.4,
            "after": r.random() < 0.4,
            "other": r.random() < 0.3,
            "state": r.random() < 0.7,
            "tpl": r.randint(1, 5),
            "tail": r.randint(0, 2),
        }
        ops = []
        for _ in range(r.randint(3, 9)):
            x = r.random()
            if x < 0.12:
                ops.append(["syntax", r.random(), r.choice(["path", "import", "string"])])
            elif x < 0.22:
                ops.append(["ast"])
            elif x < 0.32:
                ops.append(["edit", r.randrange(1 << 30)])
            else:
                ops.append(["fail", r.random(), r.choice(["path", "import", "string", "reload"]), r.choice(["sync", "loop"])])
        return {"driver": "lines", "cfg": {}, "prog": {"comps": [], "roots": [], "store": {}}, "spec": spec, "ops": ops}


class Source:
    """Builds the text; notes the lines of the markers."""

    def __init__(self, s):
        self.s = s
        self.r = random.Random(s["seed"])
        self.k = 0
        self.where = {}     # marker -> "script" or "template"
        self.script_names = set()
        self.make()

    def boom(self, where="script"):
        self.k += 1
        self.where[self.k] = where
        return f"boom({self.k})"

    def filler(self, indent):
        r = self.r
        p = " " * indent
        return r.choice([
            [], [], [""], ["", ""],
            [p + "# a note: <b>1 < 2</b> & more"],
            [p + '"""Text', p + "of several", "", p + 'lines </x> é"""'],
            [p + "zz = (", p + "    1,", p + "    2", p + ")"],
            [p + "zz = 1 + \\", p + "    2"],
            [p + 'zs = "<y a=\'1\'>{{ zz }}</y>"'],
        ])

    def body(self, indent, calls):
        """Statements with markers; may call earlier functions."""
        r = self.r
        p = " " * indent
        out = []
        for _ in range(r.randint(1, 3)):
            out += self.filler(indent)
            x = r.random()
            if x < 0.3:
                out.append(f"{p}v = {self.boom()}")
            elif x < 0.45:
                out += [f"{p}v = [", f"{p}    1,", f"{p}    {self.boom()},", f"{p}    {self.boom()},", f"{p}]"]
            elif x < 0.55:
                out += [f"{p}if {self.boom()}:", f"{p}    v = 1", "", f"{p}else:", f"{p}    {self.boom()}"]
            elif x < 0.65:
                out += [f"{p}s_l{self.k} = lambda: {self.boom()}", "", f"{p}v = s_l{self.k - 1}()"]
                self.script_names.add(f"s_l{self.k - 1}")
            elif x < 0.75:
                n = f"s_in{self.k}"
                self.script_names.add(n)
                out += [f"{p}def {n}(a=1):", ""] + [f"{p}    return {self.boom()}", f"{p}v = {n}()"]
            elif x < 0.85:
                out += [f"{p}v = [", f"{p}    {self.boom()}", f"{p}    for i in [1, 2]", f"{p}]"]
            elif calls:
                out.append(f"{p}v = {r.choice(calls)}()")
            else:
                out.append(f"{p}v = {self.boom()}")
        out.append(f"{p}return v")
        return out

    def make(self):
        s, r = self.s, self.r
        L = []
        L += [""] * s["blank"]
        L.append("from zboom import boom")
        L += self.filler(0)
        L.append("import collagraph as cg")
        if r.random() < 0.5:
            L.append(f"TOP = {self.boom()}")
        calls = []
        for i in range(s["funcs"]):
            n = f"s_f{i}"
            self.script_names.add(n)
            L += [""] + self.filler(0)
            L += [f"def {n}(*args):"] + self.body(4, calls)
            calls.append(n)
        if s["deco"]:
            self.script_names.add("s_deco")
            L += ["", "def s_deco(*a):", f"    {self.boom()}", "    return lambda fn: fn", ""]
        if s["other"]:
            L += ["", "class Other:", f"    a = {self.boom()}", ""]
        L += [""]
        L.append("class Comp(cg.Component):")
        L += self.filler(4)
        if r.random() < 0.5:
            L.append(f"    level = {self.boom()}")
        L += [f"    def s_nothing(self):", "        return 0", ""]
        if s["state"]:
            L += ["    def __init__(self, props=None, parent=None):", "        super().__init__(props, parent)", f'        self.state["a"] = {self.boom()}', ""]
        for hook in ("mounted", "updated", "before_unmount"):
            if r.random() < 0.5:
                L += [f"    def {hook}(self):"] + self.body(8, calls) + [""]
        meths = []
        for i in range(s["methods"]):
            n = f"s_m{i}"
            self.script_names.add(n)
            if s["deco"] and r.random() < 0.5:
                L += ["    @s_deco(", f"        {self.boom()},", "    )"]
            L += [f"    def {n}(self, *args):"] + self.body(8, calls + [f"self.{m}" for m in meths])
            meths.append(n)
            L += self.filler(4)
        if s["after"]:
            L += ["", f"AFTER = {self.boom()}"]
        tag = {"plain": "<script>", "sameline": "<script>", "lang": '<script lang="python">', "multi": '<script\n  lang="python"\n>'}[s["tag"]]
        script = "\n".join(L)
        script = tag + ("" if s["tag"] == "sameline" and L[0].strip() else "\n") + script + ("" if s["end"] == "same" and L[-1].strip() else "\n") + "</script>"
        # template
        T = ["<template>", "  <x"]
        for i in range(s["tpl"]):
            T.append(f'    :a{i}="' + r.choice([f"{r.choice(meths)}()", self.boom("template"), f"[{self.boom('template')},\n      {r.choice(meths)}()]"]) + '"')
        m = r.choice(meths)
        T += [f'    @click="{m}"', '    :pn="n"']
        if s["state"]:
            T.append('    :st="a"')
        T.append("  >")
        if r.random() < 0.5:
            T.append("    {{ %s }}" % self.boom("template"))
        for i in range(r.randint(0, 2)):
            T.append(f'    <y v-for="i in [{self.boom("template")}, 2]"' + f'\n       @ev="lambda: {self.boom("template")}" :b="i"/>')
        if r.random() < 0.4:
            T.append(f'    <z v-if="{r.choice(meths)}()" />')
        T += ["  </x>", "</template>"]
        parts = ["\n".join(T), script] if s["order"] == "ts" else [script, "\n".join(T)]
        text = "\n" * s["lead"] + ("\n" * (1 + s["between"])).join(parts) + "\n" * s["tail"]
        self.text = text
        self.lines = text.split("\n")
        self.line = {}
        for no, l in enumerate(self.lines, 1):
            for k in self.where:
                if f"boom({k})" in l:
                    self.line[k] = no
        self.script_from = text[: text.index("<script")].count("\n") + 1
        self.script_to = text[: text.index("</script")].count("\n") + 1


# ------------------------------------------------------------------ run
class Run:
    def __init__(self, case):
        self.case = case
        self.violations, self.stats, self.fault_stats, self._trace = [], {}, {}, []
        self.states, self.interleave = set(), []
        self.sim_time = self.renders = self.commit_no = self.max_units_per_turn = 0
        self.opno = -1

    def violate(self, kind, msg):
        self.violations.append({"kind": kind, "tags": ["C28"], "msg": msg, "op": self.opno})
        self._trace.append(("VIOLATION", kind))

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def boom(self, k):
        self.reached.add(k)
        if k == self.armed:
            raise Boom(k)
        return k

    # -- phases
    def attempt(self, what, fn, *args):
        try:
            return fn(*args)
        except Boom as e:
            self.check(e, what)
        except RecursionError:
            raise
        return None

    def load(self, how):
        from collagraph.cgx import cgx
        import pathlib

        self.file = self.path
        if how == "string":
            self.file = "<template>"
            return cgx.load_from_string(self.src.text)[0]
        if how == "path":
            return cgx.load(pathlib.Path(self.path))[0]
        importlib.invalidate_caches()
        if how == "reload":
            # the armed marker is met in the reload
            armed, self.armed = self.armed, None
            sys.modules.pop(NAME, None)
            m = importlib.import_module(NAME)
            self.armed = armed
            return importlib.reload(m).Comp
        sys.modules.pop(NAME, None)
        return importlib.import_module(NAME).Comp

    def settle(self):
        n = 0
        while n < 2000:
            n += 1
            r = self.attempt("loop", LOOP.step)
            for e in LOOP.errors:
                if isinstance(e, Boom):
                    self.check(e, "loop")
            LOOP.errors = []
            if r is False or (r is None and LOOP.idle()):
                break
        self.sim_time = LOOP.clock.peek() - 1_000_000_000_000

    def life(self, cls, mode):
        LOOP.reset()
        gui = cg.Collagraph(cg.DictRenderer(), event_loop_type=cg.EventLoopType.SYNC if mode == "sync" else None)
        c = {"type": "root"}
        from observ import reactive

        props = reactive({"n": 0})
        el = cg.h(cls, props)
        self.attempt("mount", gui.render, el, c)
        self.settle()
        self.renders += 1
        for step in range(2):
            for x in list(self.walk(c)):
                for hs in list((x.get("handlers") or {}).values()):
                    for h in list(hs):
                        self.attempt("event", h)
            def change():
                props["n"] = step + 1
            self.attempt("change", change)
            self.settle()
            self.commit_no += 1
        self.attempt("unmount", gui.render, cg.h("x", {}), c)
        self.settle()

    def walk(self, x):
        yield x
        for ch in x.get("children") or ():
            yield from self.walk(ch)

    # -- oracle
    def check(self, exc, what):
        k = exc.args[0]
        tb = exc.__traceback__
        frames = []
        while tb is not None:
            frames.append((tb.tb_frame.f_code, tb.tb_lineno))
            tb = tb.tb_next
        self.fault_stats[what] = self.fault_stats.get(what, 0) + 1
        self.seen = True
        s = self.src
        mine = [(i, c, l) for i, (c, l) in enumerate(frames) if c.co_filename == self.file]
        self._trace.append(("traceback", what, k, [l for _, _, l in mine]))
        self.states.add(hash((s.s["seed"], k, what)))
        if not mine:
            self.violate("lines", f"{what}: no frame of the traceback is in {os.path.basename(self.file)}")
            return
        inner = mine[-1]
        if s.where[k] == "script":
            if inner[2] != s.line[k]:
                self.violate("lines", f"{what}: the traceback points at line {inner[2]} of the file, the failing code is on line {s.line[k]}: {s.lines[s.line[k] - 1].strip()!r}")
                return
        for i, code, line in mine:
            if self.generated(code):
                if line <= s.script_to:
                    self.violate("generated", f"{what}: generated code ({code.co_qualname}) is at line {line}, within or before the script (lines {s.script_from}-{s.script_to})")
                    return
                continue
            # a script's own frame: its line shows what was called there
            nxt = frames[i + 1][0].co_name if i + 1 < len(frames) else None
            if not (s.script_from <= line <= s.script_to) or (nxt in s.script_names and nxt + "(" not in s.lines[line - 1]):
                self.violate("lines", f"{what}: frame {code.co_qualname} is at line {line}: {s.lines[line - 1 : line]}, which does not call {nxt}")
                return

    def generated(self, code):
        return "render" in code.co_qualname.split(".")

    # -- operations
    def op_edit(self, seed):
        """Another version of the file."""
        self.write(dict(self.src.s, seed=seed, blank=seed % 4, lead=seed // 4 % 3))

    def write(self, spec):
        self.src = Source(spec)
        with open(self.path, "w", encoding="utf-8") as fh:
            fh.write(self.src.text)

    def op_fail(self, at, how, mode):
        s = self.src
        self.reached, self.seen = set(), False
        self.armed = 1 + int(at * s.k)
        cls = self.attempt("load-" + how, self.load, how)
        if cls is not None:
            self.life(cls, mode)
        hit = self.armed in self.reached
        self.stat("fault_reached" if hit else "fault_not_reached")
        if hit and not self.seen:
            self.stat("fault_logged")
        self.armed = None

    def op_ast(self):
        """What linters get."""
        from collagraph.cgx import cgx
        import pathlib

        s = self.src
        tree, name = cgx.construct_ast(pathlib.Path(self.path))
        render = [n for c in tree.body if isinstance(c, ast.ClassDef) for n in c.body if isinstance(n, ast.FunctionDef) and n.name == "render"]
        gen = {id(n) for fn in render for n in ast.walk(fn)}
        if not render:
            self.violate("generated", "the tree for linters has no render function")
        for n in ast.walk(tree):
            line = getattr(n, "lineno", None)
            if line is None:
                continue
            if id(n) in gen:
                if line <= s.script_to:
                    self.violate("generated", f"for linters: generated {type(n).__name__} is at line {line}, the script ends at line {s.script_to}")
                    return
            else:
                if not s.script_from <= line <= s.script_to:
                    self.violate("lines", f"for linters: {type(n).__name__} of the script is at line {line}, the script is at {s.script_from}-{s.script_to}")
                    return
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "boom" and s.line[n.args[0].value] != line:
                    self.violate("lines", f"for linters: line {line} for what is on line {s.line[n.args[0].value]}")
                    return
        self.stat("linter_trees")

    def op_syntax(self, at, how):
        s = self.src
        tops = [i for i in range(s.script_from, s.script_to - 1) if s.lines[i].startswith(("def ", "class ", "import ", "TOP", "AFTER"))]
        if not tops:
            return
        i = tops[int(at * len(tops))]
        text = "\n".join(s.lines[:i] + ["broken = = 1"] + s.lines[i:])
        with open(self.path, "w", encoding="utf-8") as fh:
            fh.write(text)
        good, s.text = s.text, text
        self.armed, self.reached = None, set()
        try:
            self.load(how)
            self.violate("lines", "a script with a syntax error was loaded")
        except SyntaxError as e:
            self.fault_stats["syntax"] = self.fault_stats.get("syntax", 0) + 1
            self._trace.append(("syntax", e.lineno))
            if e.lineno != i + 1 or e.filename != self.file:
                self.violate("lines", f"the syntax error is reported for line {e.lineno} of {os.path.basename(str(e.filename))}, it is on line {i + 1} of the file")
        finally:
            s.text = good
            with open(self.path, "w", encoding="utf-8") as fh:
                fh.write(good)

    def run(self):
        self.base = tempfile.mkdtemp(prefix="simlines")
        self.path = os.path.join(self.base, NAME + ".cgx")
        self.armed, self.reached, self.seen = None, set(), False
        z = types.ModuleType("zboom")
        z.boom = self.boom
        sys.modules["zboom"] = z
        sys.path.append(self.base)
        try:
            self.write(self.case["spec"])
            for i, op in enumerate(self.case["ops"]):
                if self.violations:
                    break
                self.opno = i
                self.interleave.append(tuple(op[:1]) + tuple(op[2:]))
                self._trace.append(("op", op[0]))
                getattr(self, "op_" + op[0])(*op[1:])
        finally:
            LOOP.reset()
            sys.path.remove(self.base)
            for m in (NAME, "zboom"):
                sys.modules.pop(m, None)
            for p in list(sys.path_importer_cache):
                if p.startswith(self.base):
                    del sys.path_importer_cache[p]
            shutil.rmtree(self.base)
        return self

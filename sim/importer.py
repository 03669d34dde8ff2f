"""Importing and reloading .cgx files (C15): histories of writes, torn writes, corruption, removal and
I/O errors on real files in a scratch directory.  Faults at the very moment a file is opened come
from an audit hook, so any way of reading the file meets them."""
import html
import importlib
import os
import pathlib
import shutil
import sys
import tempfile

from . import boot  # noqa: F401
from .boot import cg

MODS = ["zmod_a", "zmod_b", "zpk.zmod_c"]
DIRS = 2
FOUND = ("ga", "gb", "gc", "Comp", "Widget", "helper", "VERSION")
# names for which there is no module
OTHERS = ["zz_nothing", "z" * 300, "zpk.zz_nothing", "zpk." + "z" * 251]
BAD = ["syntax", "expr", "roots", "noclass", "notcomp", "notemplate", "noscript", "raise_top", "raise_end", "opentag", "empty"]


# ------------------------------------------------------------------ generation
class Gen:
    def __init__(self, rng, P):
        self.rng, self.P = rng, P
        self.version = 0

    def spec(self, mod):
        r = self.rng
        self.version += 1
        s = {"v": self.version, "g": {}, "order": r.choice(["ts", "st"]), "imports": [], "bad": None, "cls": r.choice(["Comp", "Comp", "Widget"])}
        for name in ("ga", "gb", "gc"):
            if r.random() < 0.7:
                s["g"][name] = r.choice([0, 1, "w", "ä€", None, "<&\"'>"])
        if mod != MODS[1] and r.random() < 0.4:
            s["imports"] = [MODS[1]]
        if r.random() < self.P.get("p_bad", 0.2):
            s["bad"] = r.choice(BAD)
        s["tail"] = r.choice(["\n", "", "\n\n"])
        return s

    def case(self):
        r = self.rng
        ops = []
        for m in MODS:
            if r.random() < 0.9:
                ops.append(["write", 0, m, self.spec(m)])
        w = {"write": 6, "tear": 5, "corrupt": 2, "rm": 3, "dir": 1, "import": 12, "reload": 9, "load": 2, "fault": 5, "paths": 1, "use": 5, "forget": 5, "restore": 4, "other": 2}
        for _ in range(r.randint(6, 26)):
            k = r.choices(list(w), list(w.values()))[0]
            m = r.choice(MODS)
            d = 0 if r.random() < 0.8 else 1
            if k == "write":
                ops.append(["write", d, m, self.spec(m)])
            elif k == "tear":
                ops.append(["tear", d, m, r.choice([r.random(), r.random(), 0.0, 0.97, 0.99, 0.995])])
            elif k == "corrupt":
                ops.append(["corrupt", d, m, r.random()])
            elif k in ("rm", "dir", "restore"):
                ops.append([k, d, m])
            elif k == "fault":
                ops.append(["fault", r.choice(["eio", "eperm", "vanish", "tear", "swap"]), r.random(), self.spec(m)])
                ops.append([r.choice(["import", "reload"]), m])
            elif k == "other":
                ops.append(["other", r.choice(OTHERS), r.choice(["denied0", "denied1", "bytes", "none", "path", None])])
            elif k == "paths":
                ops.append(["paths", r.randint(0, 1)])
            else:
                ops.append([k, m])
        return {"driver": "importer", "cfg": {}, "prog": {"comps": [], "roots": [], "store": {}}, "ops": ops}


# ------------------------------------------------------------------ sources
def source(s):
    """-> (text, position after which nothing essential follows)"""
    bad = s["bad"]
    if bad == "empty":
        return "", 0
    cls = s["cls"]
    attrs = f'ver="{s["v"]}" :name="NAME" :file="FILE"' + "".join(f' :{g}="{g}"' for g in s["g"])
    body = f"<x {attrs}>v{s['v']} {{{{ VERSION }}}}</x>"
    if bad == "roots":
        body += "<y />"
    if bad == "expr":
        body = '<x :a="1 +" />'
    if bad == "opentag":
        template = f"<template>\n  {body}\n"
    else:
        template = f"<template>\n  {body}\n</template>"
    lines = ["import collagraph as cg"]
    if bad == "raise_top":
        lines.append("raise RuntimeError('script fails')")
    for m in s["imports"]:
        lines.append(f"import {m}")
    lines.append("NAME = __name__")
    lines.append("FILE = __file__")
    lines.append("SPEC = __spec__.name")
    lines += [f"{g} = {v!r}" for g, v in s["g"].items()]
    lines.append(f"VERSION = {s['v']}")
    # what the script finds when it runs: names of earlier contents are gone
    lines.append(f"HAS = [k for k in {FOUND!r} if k in globals()]")
    if bad != "noclass":
        lines += ["", f"class {cls}({'object' if bad == 'notcomp' else 'cg.Component'}):", f"    V = {s['v']}", ""]
    if bad == "syntax":
        lines.append("def broken(:")
    lines.append("def helper():")
    lines.append(f"    return VERSION, {s['v']}")
    if bad == "raise_end":
        lines.append("raise RuntimeError('script fails')")
    script = "<script>\n" + "\n".join(lines) + "\n</script>"
    parts = [template, script] if s["order"] == "ts" else [script, template]
    if bad == "notemplate":
        parts = [script]
    if bad == "noscript":
        parts = [template]
    text = "\n\n".join(parts)
    return text + s["tail"], len(text.encode())


# ------------------------------------------------------------------ faults at open()
class Hook:
    active = None
    installed = False

    @classmethod
    def install(cls):
        if not cls.installed:
            cls.installed = True
            sys.addaudithook(cls.hook)

    @staticmethod
    def hook(event, args):
        a = Hook.active
        if a is not None and event == "open" and isinstance(args[0], (str, bytes, os.PathLike)):
            a.on_open(os.fspath(args[0]))


class Run:
    def __init__(self, case):
        self.case = case
        self.violations, self.stats, self.fault_stats, self._trace = [], {}, {}, []
        self.states, self.interleave = set(), []
        self.sim_time = self.renders = self.commit_no = self.max_units_per_turn = 0
        self.opno = -1
        self.files = {}       # (dir, mod) -> ("ok"|"bad", spec) | ("dir",) ; absent: no file
        self.whole = {}       # last complete version written
        self.loaded = {}      # mod -> dict(spec, dir, module, cls)
        self.order = [0, 1]
        self.pending_fault = None
        self.quiet = False

    def violate(self, kind, msg):
        self.violations.append({"kind": kind, "tags": ["C15"], "msg": msg, "op": self.opno})
        self._trace.append(("VIOLATION", kind))

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    # -- files
    def path(self, d, mod):
        return os.path.join(self.base, f"d{d}", *mod.split(".")) + ".cgx"

    def clear(self, d, mod):
        p = self.path(d, mod)
        if os.path.isdir(p):
            os.rmdir(p)
        elif os.path.exists(p):
            os.unlink(p)
        self.files.pop((d, mod), None)

    def put(self, d, mod, data, state):
        self.clear(d, mod)
        with open(self.path(d, mod), "wb") as fh:
            fh.write(data)
        self.files[d, mod] = state

    def write(self, d, mod, spec):
        data = source(spec)[0].encode()
        self.put(d, mod, data, ("bad" if spec["bad"] else "ok", spec))
        self.whole[d, mod] = spec

    def tear(self, d, mod, frac):
        spec = self.whole.get((d, mod))
        if spec is None or self.files.get((d, mod), ("",))[0] not in ("ok", "bad"):
            return
        data, end = source(spec)[0].encode(), source(spec)[1]
        cut = min(int(frac * (end + 1)), len(data))
        ok = cut >= end and not spec["bad"]
        self.put(d, mod, data[:cut], ("ok" if ok else "bad", spec))
        self.fault_stats["torn_file"] = self.fault_stats.get("torn_file", 0) + 1

    # -- open faults
    def on_open(self, p):
        f = self.pending_fault
        if f is None or not p.endswith(".cgx") or not p.startswith(self.base):
            return
        key = [k for k in self.files if self.path(*k) == p]
        if not key:
            return
        self.pending_fault = None
        kind = f[0]
        self.fault_stats["open_" + kind] = self.fault_stats.get("open_" + kind, 0) + 1
        if kind == "eio":
            self.hit = "error"
            raise OSError(5, "Input/output error", p)
        if kind == "eperm":
            self.hit = "error"
            raise PermissionError(13, "Permission denied", p)
        if kind == "vanish":
            self.clear(*key[0])
            self.hit = "error"
        if kind == "tear":
            self.tear(*key[0], f[1])
            self.hit = "changed"
        if kind == "swap":
            self.write(*key[0], dict(f[2], imports=[]))
            self.hit = "changed"

    # -- model
    def find(self, mod):
        """Directories in which the module would be looked for first."""
        for d in self.order:
            if (d, mod) in self.files:
                return d
        return None

    def snapshot(self):
        return {m: (sys.modules.get(m), dict(vars(sys.modules[m])) if m in sys.modules else None) for m in MODS}

    def attempt(self, what, mod, fn):
        """Run an import or reload; compare with what the files say."""
        before = self.snapshot()
        self.hit = None
        was_loaded = mod in sys.modules
        Hook.active = self
        try:
            res = fn()
            exc = None
        except Exception as e:  # noqa
            res, exc = None, e
        finally:
            Hook.active = None
        self.pending_fault = None
        self.stat(what + ("_failed" if exc else "_ok"))
        self._trace.append((what, mod, type(exc).__name__ if exc else "ok"))
        return before, was_loaded, res, exc

    def expect(self, mod, seen=()):
        """Whether a first import of mod must work, given the files: True, False or None (either)."""
        if mod in sys.modules and mod in self.loaded:
            return True
        d = self.find(mod)
        if d is None:
            return False
        if mod == MODS[2] and not self.pkg_dir_ok(d):
            return False
        f = self.files[d, mod]
        if f[0] == "dir":
            others = [x for x in self.order if (x, mod) in self.files and x != d]
            return None if others else False
        if f[0] == "bad":
            return False
        for m in f[1]["imports"]:
            e = self.expect(m)
            if e is not True:
                return e
        return True

    def pkg_dir_ok(self, d):
        return True

    def verify(self, mod, module, dirs, what):
        """The module shows the contents of its file."""
        cands = []
        for d in dirs:
            f = self.files.get((d, mod))
            if f and f[0] == "ok":
                cands.append((d, f[1]))
        if not cands:
            self.violate("accepted", f"{what} of {mod} succeeded although its file is missing, torn or invalid")
            return
        problems = []
        for d, s in cands:
            p = self.problems(mod, module, d, s)
            if not p:
                self.loaded[mod] = dict(spec=s, dir=d, module=module, cls=getattr(module, s["cls"]))
                self.commit_no += 1
                self.states.add(hash((mod, s["v"], d)))
                return
            problems.append(p)
        self.violate("contents", f"after {what} of {mod}: {problems[0]}")

    def problems(self, mod, module, d, s):
        ns = vars(module)
        for k, v in s["g"].items():
            if k not in ns or ns[k] != v:
                return f"global {k} is {ns.get(k)!r}, the file says {v!r}"
        if ns.get("VERSION") != s["v"]:
            return f"VERSION is {ns.get('VERSION')!r}, the file says {s['v']}"
        if ns.get("HAS") != [*s["g"], "VERSION"]:
            return f"the script ran with {ns.get('HAS')} defined, the file defines {[*s['g'], 'VERSION']} up to there"
        path = self.path(d, mod)
        for k, v in (("NAME", mod), ("__name__", mod), ("SPEC", mod)):
            if ns.get(k) != v:
                return f"{k} is {ns.get(k)!r}, not {v!r}"
        for k in ("FILE", "__file__"):
            if str(ns.get(k)) != path:
                return f"{k} is not the path of the file"
        if ns.get("__spec__") is None or ns["__spec__"].name != mod:
            return "__spec__ is missing or of another module"
        cls = ns.get(s["cls"])
        if not (isinstance(cls, type) and issubclass(cls, cg.Component)) or getattr(cls, "V", None) != s["v"]:
            return f"component class {s['cls']} does not come from the file"
        if ns["helper"]() != (s["v"], s["v"]):
            return f"functions of the module see other globals: {ns['helper']()}"
        return self.shown(cls, mod, path, s)

    def shown(self, cls, mod, path, s):
        gui = cg.Collagraph(cg.DictRenderer(), event_loop_type=cg.EventLoopType.SYNC)
        c = {"type": "root"}
        gui.render(cg.h(cls, {}), c)
        self.renders += 1
        want = {"ver": str(s["v"]), "name": mod, "file": path}
        want.update({k: v for k, v in s["g"].items() if v is not None})
        el = c["children"][0]
        got = {k: v for k, v in el.get("attrs", {}).items() if v is not None}
        got["file"] = str(got.get("file"))
        text = el["children"][0].get("text") if el.get("children") else None
        if el["type"] != "x" or got != want or text != f"v{s['v']} {s['v']}":
            return f"the component shows {el['type']} {sorted(got)} {text!r}, the file describes {sorted(want)} v{s['v']}"
        return None

    def unchanged(self, before, mods, what):
        for m in mods:
            mod0, ns0 = before[m]
            if sys.modules.get(m) is not mod0:
                self.violate("leftover", f"{what}: sys.modules[{m!r}] was {'absent' if mod0 is None else 'kept'} before and is {sys.modules.get(m)!r}"[:160])
            elif mod0 is not None:
                for k in set(ns0) | set(vars(mod0)):
                    if k == "__spec__":
                        continue
                    a, b = ns0.get(k, self), vars(mod0).get(k, self)
                    if a is not b and not (isinstance(a, str) and a == b):
                        self.violate("half", f"{what}: global {k} of {m} changed")
                        break

    # -- operations
    def op_write(self, d, mod, spec):
        self.write(d, mod, spec)

    def op_tear(self, d, mod, frac):
        self.tear(d, mod, frac)

    def op_corrupt(self, d, mod, at):
        spec = self.whole.get((d, mod))
        if spec is None or self.files.get((d, mod), ("",))[0] not in ("ok", "bad"):
            return
        data = source(spec)[0].encode()
        i = int(at * len(data))
        self.put(d, mod, data[:i] + b"\xff" + data[i:], ("bad", spec))
        self.fault_stats["corrupt"] = self.fault_stats.get("corrupt", 0) + 1

    def op_rm(self, d, mod):
        self.clear(d, mod)
        self.fault_stats["missing"] = self.fault_stats.get("missing", 0) + 1

    def op_dir(self, d, mod):
        self.clear(d, mod)
        os.mkdir(self.path(d, mod))
        self.files[d, mod] = ("dir",)
        self.fault_stats["unreadable"] = self.fault_stats.get("unreadable", 0) + 1

    def op_restore(self, d, mod):
        spec = self.whole.get((d, mod))
        if spec is not None:
            self.write(d, mod, dict(spec, bad=None, imports=[]))

    def op_paths(self, first):
        self.order = [first, 1 - first]
        self.set_path()

    def op_other(self, name, odd):
        """Modules that do not exist are reported as missing, whatever the path looks like."""
        before = self.snapshot()
        saved, stat = list(sys.path), os.stat
        denied = os.path.join(self.base, "d" + odd[-1]) if odd and odd[:-1] == "denied" else None

        def failing(path, *args, **kwargs):
            if not isinstance(path, int) and os.fspath(path).startswith(denied) and os.fspath(path) != denied:
                raise PermissionError(13, "Permission denied", os.fspath(path))
            return stat(path, *args, **kwargs)

        if denied:
            os.stat = failing
            self.fault_stats["denied_dir"] = self.fault_stats.get("denied_dir", 0) + 1
        elif odd:
            sys.path.insert(0, {"bytes": os.fsencode(self.base), "none": None, "path": pathlib.Path(self.base)}[odd])
            self.fault_stats["odd_path_entry"] = self.fault_stats.get("odd_path_entry", 0) + 1
        try:
            importlib.import_module(name)
            exc = None
        except Exception as e:  # noqa
            exc = e
        finally:
            os.stat = stat
            sys.path[:] = saved
        self._trace.append(("other", len(name), odd, type(exc).__name__))
        if not isinstance(exc, ModuleNotFoundError):
            self.violate("missing", f"import of the missing module {name[:20]} with {odd or 'a plain path'} raised {type(exc).__name__}: {exc}"[:200])
        self.note_others(None, before)

    def op_fault(self, kind, frac, spec):
        self.pending_fault = (kind, frac, spec)

    def op_forget(self, mod):
        sys.modules.pop(mod, None)
        self.loaded.pop(mod, None)
        pk, _, child = mod.rpartition(".")
        if pk and pk in sys.modules and hasattr(sys.modules[pk], child):
            delattr(sys.modules[pk], child)

    def op_use(self, mod):
        l = self.loaded.get(mod)
        if l:
            p = self.problems_loaded(mod, l)
            if p:
                self.violate("contents", f"using {mod}: {p}")

    def problems_loaded(self, mod, l):
        if sys.modules.get(mod) is not l["module"]:
            return "the module is no longer in sys.modules"
        return self.problems(mod, l["module"], l["dir"], l["spec"])

    def op_import(self, mod):
        expect = self.expect(mod)
        before, was, res, exc = self.attempt("import", mod, lambda: importlib.import_module(mod))
        if was:
            if exc or res is not before[mod][0]:
                self.violate("contents", f"import of the loaded module {mod} did not return it")
            return
        if self.hit == "changed":
            expect = None
        if self.hit == "error":
            # the failing file may be that of an imported module
            expect = False
        self.judge("import", mod, expect, before, res, exc, self.order)

    def judge(self, what, mod, expect, before, res, exc, dirs):
        if exc is None:
            if expect is False:
                self.violate("accepted", f"{what} of {mod} succeeded although its file is missing, torn, unreadable or invalid")
                return
            if sys.modules.get(mod) is not res:
                self.violate("contents", f"{what} of {mod}: the module is not in sys.modules")
                return
            self.note_others(mod, before)
            self.verify(mod, res, dirs, what)
        else:
            if expect is True:
                self.violate("refused", f"{what} of {mod} failed although its file is fine: {type(exc).__name__}: {exc}"[:300])
                return
            if what == "import" and self.find(mod) is None and self.hit is None and not isinstance(exc, ModuleNotFoundError):
                self.violate("refused", f"import of the missing module {mod} raised {type(exc).__name__}")
            self.note_others(mod, before)
            self.unchanged(before, [mod], f"failed {what} of {mod}")

    def note_others(self, mod, before):
        """Modules that were imported along the way."""
        for m in MODS:
            if m == mod:
                continue
            if m in sys.modules and before[m][0] is None:
                self.verify(m, sys.modules[m], self.order, "nested import")
            elif before[m][0] is not None:
                self.unchanged(before, [m], f"import of {mod}")

    def op_reload(self, mod):
        l = self.loaded.get(mod)
        if not l or mod not in sys.modules:
            return
        dirs = [l["dir"]]
        if any((d, mod) in self.files for d in self.order if d != l["dir"]):
            dirs = list(self.order)
        outcomes = {self.reload_ok(d, mod) for d in dirs}
        expect = outcomes.pop() if len(outcomes) == 1 else None
        before, was, res, exc = self.attempt("reload", mod, lambda: importlib.reload(sys.modules[mod]))
        if self.hit == "changed":
            expect = None
        if self.hit == "error":
            expect = False
        self.judge("reload", mod, expect, before, res, exc, dirs)

    def reload_ok(self, d, mod):
        f = self.files.get((d, mod))
        if f is None or f[0] != "ok":
            return False
        for m in f[1]["imports"]:
            e = self.expect(m)
            if e is not True:
                return e
        return True

    def op_load(self, mod):
        """Load a file directly, without the import system."""
        from collagraph.cgx import cgx
        import pathlib

        d = self.find(mod)
        if d is None:
            return
        f = self.files[d, mod]
        if f[0] == "dir" or f[0] == "ok" and f[1]["imports"]:
            return
        before = self.snapshot()
        try:
            cls, ns = cgx.load(pathlib.Path(self.path(d, mod)), {"__name__": mod, "__file__": self.path(d, mod), "__spec__": sys})
            exc = None
        except Exception as e:  # noqa
            exc = e
        self._trace.append(("load", mod, type(exc).__name__ if exc else "ok"))
        # without __spec__ the script's SPEC line fails: use a stand-in
        if exc is None and f[0] == "bad":
            self.violate("accepted", f"load of {mod} succeeded although its file is torn or invalid")
        self.note_others(None, before)

    # -- run
    def set_path(self):
        ds = [os.path.join(self.base, f"d{d}") for d in self.order]
        sys.path[:] = [p for p in sys.path if not p.startswith(self.base)] + ds
        if "zpk" in sys.modules:
            sys.modules["zpk"].__path__ = [os.path.join(d, "zpk") for d in ds]

    def run(self):
        import types

        Hook.install()
        self.base = tempfile.mkdtemp(prefix="simcgx")
        saved = list(sys.path)
        try:
            for d in range(DIRS):
                os.makedirs(os.path.join(self.base, f"d{d}", "zpk"))
            pk = types.ModuleType("zpk")
            pk.__path__ = []
            sys.modules["zpk"] = pk
            self.set_path()
            for i, op in enumerate(self.case["ops"]):
                if self.violations:
                    break
                self.opno = i
                self.interleave.append(op[0])
                importlib.invalidate_caches()
                self._trace.append(("op", op[0]) + tuple(map(str, op[1:3])))
                getattr(self, "op_" + op[0])(*op[1:])
        finally:
            Hook.active = None
            sys.path[:] = saved
            for m in MODS + ["zpk"]:
                sys.modules.pop(m, None)
            for p in list(sys.path_importer_cache):
                if p.startswith(self.base):
                    del sys.path_importer_cache[p]
            shutil.rmtree(self.base)
        return self

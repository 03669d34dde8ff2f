"""The command line (C26): a simulated shell session.  Component and state files come and go, get torn or fail
to open between and during invocations of the real entry point; the interactive debugger (dict renderer) and
Qt's event loop (PySide renderer) are stand-ins that look at what is rendered and change the props."""
import contextlib
import importlib
import io
import json
import os
import random
import shutil
import sys
import tempfile

from .boot import LOOP, cg
from .importer import Hook

NAMES = ["g0", "g1", "g2"]
# what is a component and what is not
FINE = ["n.o.cgx", "my comp.cgx", "ünï-漢.cgx", ".hid.cgx", "sub/text.txt.cgx"]
# names of files that can't exist
NEVER = ["z" * 300 + ".cgx", "a.cgx/b.cgx", "text.txt/c.cgx", "loop.cgx"]
OTHER = ["x.cgx.bak", "x.CGX", ".cgx", "cgx", "x.cgx~", "xcgx", "sub/y.cgx.txt", "x.cgx.py"]
TOPS = []


# ------------------------------------------------------------------ generation
class Gen:
    def __init__(self, rng, P):
        self.rng, self.P = rng, P

    def value(self):
        r = self.rng
        return r.choice([0, 1, -3, 2.5, "", "w", "ä€ 漢", "<&\"'>", True, False, None, [1, 2], {"a": [1]}, "long " * r.choice([1, 60, 2000])])

    def state(self):
        r = self.rng
        s = {n: self.value() for n in NAMES if r.random() < 0.6}
        if r.random() < 0.5:
            s["items"] = [r.choice([1, "a", None, {"x": 1}]) for _ in range(r.randint(0, 4))]
        if r.random() < 0.2:
            s["extra"] = self.value()
        return s

    def case(self):
        r = self.rng
        ops = []
        for _ in range(r.randint(2, 6)):
            x = r.random()
            if x < 0.1:
                ops.append(["file", r.choice(["a.cgx", "sub/b.cgx"]), r.choice(["ok", "gone", "dir", "torn"]), r.random()])
                continue
            comp = r.choice(["a.cgx"] * 20 + ["sub/b.cgx"] * 10 + ["broken.cgx", "missing.cgx", "dir.cgx", "text.txt", "none", "two", "a", "ABS", "../x/a.cgx"] + OTHER[:4] + FINE + OTHER[4:] + NEVER)
            rend = r.choice(["dict"] * 20 + ["pyside"] * 10 + ["default"] * 8 + ["pygfx", "dom", "foo", "", "Dict", "novalue"])
            st = r.choice(["none"] * 6 + ["text"] * 20 + ["file"] * 16 + ["bad", "badfile", "missing", "nonobject", "dirname", "badutf", "nonobjfile", "novalue"])
            ops.append(["run", {
                "comp": comp, "renderer": rend, "state": st, "value": self.state(),
                "form": r.choice(["eq", "sp"]), "order": r.sample([0, 1, 2], 3), "extra": r.choice([None] * 40 + ["--nope", "more", "-h", "--help"]),
                "json": r.choice(["plain", "plain", "ascii", "indent"]), "cut": r.random(),
                "nonobj": r.choice([[1], 3, "x", True, 2.5]),
                "fault": r.choice([None] * 6 + ["vanish", "eio", "eperm", "tear"]), "fault_file": r.choice(["comp", "comp", "state"]),
                "acts": [r.choice([["set", r.choice(NAMES), self.value()], ["items", [r.randint(0, 9) for _ in range(r.randint(0, 3))]], ["click"], ["append", r.randint(0, 9)]])
                         for _ in range(r.randint(0, 4))],
            }])
        return {"driver": "cli", "cfg": {}, "prog": {"comps": [], "roots": [], "store": {}}, "ops": ops}


SOURCE = """<template>
  <x v="VERSION" :g0="show('g0')" :g1="show('g1')" :g2="show('g2')" :count="count" @click="inc">
    <y v-for="i in (props.get('items') or [])" :v="str(i)" />
    text {{ show('g0') }}
  </x>
</template>

<script>
import collagraph as cg


class C(cg.Component):
    def __init__(self, props=None, parent=None):
        super().__init__(props, parent)
        self.state["count"] = 0

    def show(self, name):
        return repr(self.props.get(name))

    def inc(self, *args):
        self.state["count"] += 1
</script>
"""


def qt_source(v):
    return """<template>
  <widget window_title="cli-VERSION">
    <layout type="Box" direction="TopToBottom" />
    <button :text="show('g0')" @clicked="inc" />
    <label :text="show('g1')" />
    <label :text="show('g2')" />
    <label :text="str(count)" />
    <label v-for="i in (props.get('items') or [])" :text="str(i)" />
  </widget>
</template>
""".replace('    <layout type="Box" direction="TopToBottom" />\n', "").replace("VERSION", v) + SOURCE[SOURCE.index("\n<script>"):]



class Run:
    def __init__(self, case):
        self.case = case
        self.violations, self.stats, self.fault_stats, self._trace = [], {}, {}, []
        self.states, self.interleave = set(), []
        self.sim_time = self.renders = self.commit_no = self.max_units_per_turn = 0
        self.opno = -1
        self.pending = None

    def violate(self, kind, msg):
        self.violations.append({"kind": kind, "tags": ["C26"], "msg": msg, "op": self.opno})
        self._trace.append(("VIOLATION", kind))

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    # -- files
    def put(self, name, text, cut=None):
        data = text.encode()
        if cut is not None:
            data = data[: int(cut * (len(data) - 1))]
        with open(os.path.join(self.base, name), "wb") as fh:
            fh.write(data)

    def component(self, name, kind):
        v = "b" if name == "sub/b.cgx" else "a"
        return qt_source(v) if kind == "qt" else SOURCE.replace("VERSION", v)

    def op_file(self, name, what, cut):
        p = os.path.join(self.base, name)
        if os.path.isdir(p):
            os.rmdir(p)
        elif os.path.exists(p):
            os.unlink(p)
        self.files[name] = what
        if what == "dir":
            os.mkdir(p)

    def on_open(self, p):
        f = self.pending
        if f is None or os.path.basename(p) != os.path.basename(f[1]) or not (os.path.isabs(p) is False or p.startswith(self.base)):
            return
        self.pending = None
        self.fault_stats["open_" + f[0]] = self.fault_stats.get("open_" + f[0], 0) + 1
        self.hit = f
        if f[0] == "eio":
            raise OSError(5, "Input/output error", p)
        if f[0] == "eperm":
            raise PermissionError(13, "Permission denied", p)
        if f[0] == "vanish":
            os.unlink(os.path.join(self.base, f[1]))
        if f[0] == "tear":
            q = os.path.join(self.base, f[1])
            Hook.active = None
            with open(q, "rb") as fh:
                data = fh.read()
            with open(q, "wb") as fh:
                fh.write(data[: int(f[2] * len(data) * 0.9)])
            Hook.active = self

    # -- one invocation
    def op_run(self, o):
        qt = o["renderer"] in ("pyside", "default")
        for name, what in self.files.items():
            if what in ("ok", "torn"):
                self.put(name, self.component(name, "qt" if qt else "dict"), o["cut"] * 0.9 if what == "torn" else None)
        expect = "run"          # or "usage", "help", "fail"

        def worse(e):
            nonlocal expect
            rank = ["run", "fail", "usage"]
            if expect in rank and rank.index(e) > rank.index(expect):
                expect = e

        parts = [[], [], []]
        # component
        c = o["comp"]
        name = {"ABS": os.path.join(self.base, "a.cgx"), "../x/a.cgx": "sub/../a.cgx", "none": None, "two": "a.cgx"}.get(c, c)
        if name is not None:
            parts[0].append(name)
        if c == "two":
            parts[0].append("a.cgx")
            worse("usage")
        what = None
        if name in FINE:
            self.put(name, self.component(name, "qt" if qt else "dict"))
        elif name is None or name in OTHER + NEVER or name in ("missing.cgx", "dir.cgx", "text.txt", "a"):
            worse("usage")
        elif name == "broken.cgx":
            self.put(name, SOURCE.replace("class C(", "class C(("))
            worse("fail")
        else:
            what = self.files["sub/b.cgx" if name == "sub/b.cgx" else "a.cgx"]
            if what in ("gone", "dir"):
                worse("usage")
            elif what == "torn":
                worse("fail")
        # renderer
        rd = o["renderer"]
        if rd == "novalue":
            parts[1] = ["--renderer"]
        elif rd != "default":
            parts[1] = ["--renderer=" + rd] if o["form"] == "eq" else ["--renderer", rd]
        if rd not in ("dict", "pyside", "default"):
            worse("usage")
        # state
        st, value = o["state"], o["value"]
        dump = dict(plain=dict(ensure_ascii=False), ascii={}, indent=dict(indent=2))[o["json"]]
        text = None
        if st == "text":
            text = json.dumps(value, **dump)
        elif st in ("file", "badfile", "badutf", "nonobjfile"):
            text = "st.json"
            full = json.dumps(value if st != "nonobjfile" else o["nonobj"], **dump)
            self.put("st.json", full, o["cut"] if st == "badfile" else None)
            if st == "badutf":
                with open(os.path.join(self.base, "st.json"), "wb") as fh:
                    fh.write(b'{"g0": "\xff\xfe"}')
            if st != "file":
                worse("usage")
        elif st == "bad":
            full = json.dumps(value, **dump)
            text = "{" + full[1 : 1 + int(o["cut"] * (len(full) - 2))]
            worse("usage")
        elif st == "missing":
            text = "nope.json"
            worse("usage")
        elif st == "nonobject":
            text = json.dumps(o["nonobj"])
            worse("usage")
        elif st == "dirname":
            text = "sub"
            worse("usage")
        elif st == "novalue":
            parts[2] = ["--state"]
            worse("usage")
        if text is not None:
            parts[2] = ["--state=" + text] if o["form"] == "eq" or text.startswith("-") else ["--state", text]
        order = list(o["order"])
        for i, v in ((1, rd), (2, st)):
            if v == "novalue":
                order.remove(i)
                order.append(i)
        argv = ["collagraph"] + [a for i in order for a in parts[i]]
        if o["extra"]:
            if o["extra"] in ("-h", "--help"):
                argv.insert(1, o["extra"])
                expect = "help"
            else:
                argv.append(o["extra"])
                worse("usage")
                if expect != "usage":
                    expect = "usage"
        # faults
        self.hit = self.pending = None
        if o["fault"]:
            target = name if o["fault_file"] == "comp" else "st.json" if st == "file" else None
            if target is not None and expect in ("run", "fail"):
                self.pending = (o["fault"], target, o["cut"])
        self.session(o, argv, expect, qt)

    def session(self, o, argv, expect, qt):
        self.shown = []       # (gui, element, container)
        self.model = {"props": dict(o["value"]) if o["state"] in ("text", "file") else {}, "count": 0}
        self.acts = o["acts"]
        self.entered = 0
        self.qt = qt
        run = importlib.import_module("collagraph.__main__").run
        err, out = io.StringIO(), io.StringIO()
        saved = sys.argv, sys.breakpointhook
        sys.argv = argv
        sys.breakpointhook = self.debugger
        self.props = None
        orig = cg.Collagraph.render
        me = self

        def render(self, element, container, callback=None):
            me.shown.append((self, element, container))
            return orig(self, element, container, callback) if callback is not None else orig(self, element, container)

        cg.Collagraph.render = render
        code = exc = None
        Hook.active = self
        LOOP.reset()
        try:
            with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out), self.toolkit():
                try:
                    run()
                except SystemExit as e:
                    code = e.code
                except Exception as e:  # noqa
                    exc = e
        finally:
            Hook.active = None
            sys.argv, sys.breakpointhook = saved
            cg.Collagraph.render = orig
            LOOP.reset()
        self.pending = None
        got = "run" if self.entered and exc is None and code in (None, 0) else "help" if code == 0 else "usage" if code == 2 and "usage:" in err.getvalue() else "fail"
        if self.hit and expect in ("run", "fail"):
            expect = "fail"
            if self.hit[1] == "st.json" and (self.hit[0] == "tear" or got == "usage"):
                expect = "usage"
        self._trace.append(("ran", [a.replace(self.base, "") for a in argv[1:]], expect, got, type(exc).__name__))
        self.stat("got_" + got)
        if got != expect:
            self.violate("outcome", f"collagraph {' '.join(a[:60] for a in argv[1:])}: should be '{expect}' but is '{got}' ({type(exc).__name__ if exc else code}: {str(exc)[:120] if exc else err.getvalue()[-200:]})")
        if got in ("usage", "help", "fail") and (self.entered or (got != "fail" and self.shown)):
            self.violate("outcome", f"collagraph {argv[1:]}: refused, but something was rendered")
        if got == "usage" and "error:" not in err.getvalue():
            self.violate("outcome", "refused without a message")

    # -- stand-ins for the user
    def debugger(self, *a, **kw):
        self.entered += 1
        if self.qt:
            self.violate("outcome", "the debugger was started for a Qt application")
            return
        # The user changes what is called `props` where the debugger was started (if anything is)
        frame = sys._getframe(1)
        while frame is not None and self.props is None:
            if frame.f_globals.get("__name__") == "collagraph.__main__":
                self.props = frame.f_locals.get("props")
            frame = frame.f_back
        self.user(lambda: None)

    def exec(self):
        self.entered += 1
        if not self.qt:
            self.violate("outcome", "Qt's event loop was started for the dict renderer")
            return 0

        def settle():
            n = 0
            while LOOP.step() and n < 5000:
                n += 1
            for e in LOOP.errors:
                self.violate("outcome", f"failure in the event loop: {e!r}")

        settle()
        self.user(settle)
        return 0

    def user(self, settle):
        if len(self.shown) != 1:
            self.violate("shown", f"render() was called {len(self.shown)} times")
            return
        gui, element, container = self.shown[0]
        if not self.check(container, "at start"):
            return
        for act in self.acts:
            m = self.model
            props = self.props if self.props is not None else element.props
            if act[0] == "set":
                if act[1] in m["props"] and m["props"][act[1]] == act[2]:
                    continue  # an equal value is no change
                props[act[1]] = act[2]
                m["props"][act[1]] = act[2]
            elif act[0] == "items":
                if m["props"].get("items") == list(act[1]):
                    continue  # (observ doesn't notice equal lists)
                props["items"] = list(act[1])
                m["props"]["items"] = list(act[1])
            elif act[0] == "append":
                if m["props"].get("items"):
                    props["items"].append(act[1])
                    m["props"]["items"] = m["props"]["items"] + [act[1]]
            elif act[0] == "click":
                self.click(container)
                m["count"] += 1
            settle()
            self.commit_no += 1
            if not self.check(container, f"after {act}"):
                return

    def click(self, container):
        if self.qt:
            from PySide6 import QtWidgets

            for w in self.tops():
                w.findChildren(QtWidgets.QPushButton)[0].click()
            return
        for h in list(container["children"][0]["handlers"]["click"]):
            h("ev")

    def tops(self):
        from PySide6 import QtWidgets

        return [w for w in QtWidgets.QApplication.topLevelWidgets() if w.windowTitle().startswith("cli-") and w not in self.before]

    def check(self, container, when):
        m = self.model
        p = m["props"]
        v = "b" if self.case["ops"][self.opno][1]["comp"] == "sub/b.cgx" else "a"
        self.renders += 1
        if self.qt:
            from PySide6 import QtWidgets

            tops = self.tops()
            if len(tops) != 1:
                self.violate("shown", f"{when}: {len(tops)} windows")
                return False
            got = [tops[0].windowTitle()] + [x.text() for x in tops[0].children() if isinstance(x, (QtWidgets.QLabel, QtWidgets.QPushButton))]
            want = ["cli-" + v, repr(p.get("g0")), repr(p.get("g1")), repr(p.get("g2")), str(m["count"])] + [str(i) for i in p.get("items") or []]
            if not tops[0].isVisible():
                self.violate("shown", f"{when}: the window is hidden")
                return False
        else:
            x = container["children"][0]
            got = [x["type"], {k: a for k, a in x.get("attrs", {}).items() if k != "key"}, [c.get("attrs", {}).get("v") for c in x["children"] if c["type"] == "y"],
                   [c.get("text", "").strip() for c in x["children"] if c["type"] == "TEXT_ELEMENT"], len(container["children"])]
            want = ["x", {"v": v, "g0": repr(p.get("g0")), "g1": repr(p.get("g1")), "g2": repr(p.get("g2")), "count": m["count"]},
                    [str(i) for i in p.get("items") or []], ["text " + repr(p.get("g0")).rstrip()], 1]
        self.states.add(hash(repr(want)))
        if got != want:
            self.violate("shown", f"{when}: shown is {str(got)[:300]}, the component with this state is {str(want)[:300]}")
            return False
        return True

    @contextlib.contextmanager
    def toolkit(self):
        """QApplication may be created once per process and its event loop belongs to the simulator."""
        from PySide6 import QtWidgets

        me = self
        Orig = QtWidgets.QApplication
        base = SimApp(Orig)
        self.before = list(Orig.topLevelWidgets())
        base.session = self
        QtWidgets.QApplication = base
        PR = cg.PySideRenderer
        saved = PR.__dict__.get("register_asyncio")
        PR.register_asyncio = lambda self: None
        try:
            yield
        finally:
            QtWidgets.QApplication = Orig
            PR.register_asyncio = saved
            Hook.active = None
            for gui, el, c in me.shown:
                if me.qt:
                    for w in [w for w in Orig.topLevelWidgets() if w not in me.before]:
                        w.close()
                        w.deleteLater()
            from PySide6 import QtCore

            QtCore.QCoreApplication.sendPostedEvents(None, QtCore.QEvent.Type.DeferredDelete)

    def run(self):
        Hook.install()
        self.base = os.path.realpath(tempfile.mkdtemp(prefix="simcli"))
        cwd = os.getcwd()
        os.chdir(self.base)
        os.mkdir("sub")
        os.mkdir("dir.cgx")
        os.symlink("loop.cgx", "loop.cgx")
        self.files = {"a.cgx": "ok", "sub/b.cgx": "ok"}
        for name in ["text.txt"] + OTHER:
            self.put(name, SOURCE)
        try:
            for i, op in enumerate(self.case["ops"]):
                if self.violations:
                    break
                self.opno = i
                self.interleave.append((op[0], op[1].get("fault"), op[1]["renderer"], op[1]["state"], op[1]["comp"]) if op[0] == "run" else tuple(op[:3]))
                getattr(self, "op_" + op[0])(*op[1:])
        finally:
            os.chdir(cwd)
            shutil.rmtree(self.base)
        return self


_sim_app = None


def SimApp(Orig):
    global _sim_app
    if _sim_app is None:

        class Application(Orig):
            session = None

            def __new__(cls, *args):
                inst = Orig.instance()
                return inst if inst is not None else super().__new__(cls)

            def __init__(self, *args):
                if Orig.instance() is None:
                    super().__init__([])

            def exec(self):
                return type(self).session.exec()

        _sim_app = Application
    return _sim_app

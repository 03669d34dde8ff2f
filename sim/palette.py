"""Programs for real toolkits: which element types, attributes, events and structures exist there.

A category says what may be placed at a position; a component belongs to one category."""
import random

from .gen import DEFAULTS, Gen, LISTS, pick


def A(name, kind, absent=True):
    return (name, kind, absent)


WORDS = ["", "a", "bb", "&c", "d e", "ä<b>"]
TEXT = ("pick", WORDS)
BOOL = ("pick", [False, True])
SMALL = ("pick", [0, 1, 2, 3, 50, 99])

# ------------------------------------------------------------------ DOM
DOM_ATTRS = [A("class", TEXT), A("id", TEXT), A("data-x", ("pick", [0, 1, "x", True, False, ""])), A("style", TEXT)]
DOM = {
    "container": {"n": "n"},
    "cats": {"n": [("div", "n", 4), ("span", "n", 3), ("p", "n", 2), ("button", "n", 2), ("input", None, 2)]},
    "attrs": {t: DOM_ATTRS for t in ("div", "span", "p", "button", "input")},
    "events": {t: ["click", "item_picked", "keyDown", "x-open"] for t in ("div", "span", "p", "button", "input")},
    "text": True,
}

# ------------------------------------------------------------------ pygfx
VEC = ("vec", [[0, 0, 0], [1, 2, 3], [1, 0, 0], [-4, 5.5, 6], [7, 8, 9]])
SCALE = ("vec", [[1, 1, 1], [2, 3, 4], [0.5, 1, 2]])
QUAT = ("vec", [[0, 0, 0, 1], [1, 0, 0, 0], [0, 1, 0, 0], [0.5, 0.5, 0.5, 0.5]])
WO = [
    A("visible", BOOL), A("render_order", SMALL), A("local.position", VEC), A("local.scale", SCALE),
    A("local.rotation", QUAT), A("cast_shadow", BOOL), A("receive_shadow", BOOL), A("my_tag", TEXT),
    A("local.x", ("pick", [0, 1, 2.5, -3])),
]
LIGHT = [A("intensity", ("pick", [0, 0.5, 1, 2, 3])), A("visible", BOOL), A("local.position", VEC), A("my_tag", TEXT)]
GFX_TYPES = ["group", "points", "line", "Mesh", "ambient-light", "point-light", "world-object", "scene", "sim-thing"]
PYGFX = {
    "container": {"o": "scene"},
    "cats": {"o": [("group", "o", 5), ("points", "o", 2), ("line", "o", 2), ("Mesh", "o", 2), ("ambient-light", "o", 1), ("point-light", "o", 1),
                   ("world-object", "o", 1), ("scene", "o", 1), ("sim-thing", "o", 2)]},
    "attrs": {t: LIGHT if "light" in t else WO + [A("tags", ("pick", [[2], [3, 4], []]))] * (t == "sim-thing") for t in GFX_TYPES},
    "clash": [("local.position", "local.x")],
    "events": {t: ["click", "pointer_down", "pointer_up"] for t in GFX_TYPES},
    "text": False,
}

# ------------------------------------------------------------------ PySide
W = [A("object_name", TEXT), A("tool_tip", TEXT), A("enabled", BOOL), A("maximum_height", SMALL), A("whats-this", TEXT), A("my_custom", TEXT),
     A("accept_drops", BOOL)]
BTN = [A("text", TEXT), A("checkable", BOOL), A("flat", BOOL)] + W[:5]
LAYOUT = [
    A("layout", ("lay", [
        {"type": "Box", "direction": "LeftToRight"},
        {"type": "box", "direction": "TopToBottom"},
        {"type": "box", "direction": "RightToLeft", "spacing": 3},
        {"type": "Stacked"},
        {"type": "box", "direction": "BottomToTop", "contents_margins": [1, 2, 3, 4]},
    ]), False),
]
GRIDS = [{"type": "Grid", "column_stretch": [[0, a], [1, b]], "row_stretch": [[0, b]], "spacing": c} for a, b, c in ((0, 1, 0), (2, 0, 4), (3, 3, 4))]
FORMS = [{"type": "Form", "vertical_spacing": 2}, {"type": "Form", "vertical_spacing": 7}]
WTYPES = [("widget", "w", 5), ("label", None, 4), ("button", None, 4), ("groupbox", "w", 2), ("QLineEdit", None, 2), ("checkbox", None, 2), ("spinbox", None, 1),
          ("slider", None, 1), ("combobox", None, 1)]
NESTED = [("QTabWidget", "tab", 2), ("QSplitter", "w", 2), ("treewidget", "ti", 2), ("toolbar", "tb", 1), ("form", "fo", 1), ("grid", "gr", 1), ("treeview", "tv", 1),
          ("QListView", "tv", 1), ("QTableView", "tv", 1), ("scrollarea", "one", 2), ("DialogButtonBox", "db", 1)]
ITEM = [A("my_custom", TEXT)]
PYSIDE = {
    # what is rendered into
    "container": {
        "w": "widget", "tab": "QTabWidget", "sp": "QSplitter", "tb": "toolbar", "me": "menu", "mb": "menubar", "ti": "treewidget", "si": "itemmodel",
        "one": "scrollarea", "top": "@app", "win": "window", "fo": "widget", "gr": "widget", "db": "DialogButtonBox", "st": "statusbar",
    },
    "flavours": dict(w=6, tab=2, sp=2, tb=2, me=2, mb=2, ti=3, si=3, one=1, win=4, fo=2, gr=2, db=1, st=1, top=2),
    "cats": {
        "w": WTYPES + NESTED,
        "tab": WTYPES, "sp": WTYPES, "one": WTYPES[:4], "st": [("label", None, 3), ("button", None, 2), ("widget", "w", 2), ("checkbox", None, 2), ("QLineEdit", None, 1)],
        "tb": [("action", None, 4), ("button", None, 2), ("label", None, 2), ("QAction", None, 1)],
        "me": [("action", None, 5), ("menu", "me", 3)],
        "mb": [("menu", "me", 3), ("QMenu", "me", 1)],
        "ti": [("treewidgetitem", "ti", 3), ("QTreeWidgetItem", "ti", 1)],
        "si": [("standarditem", "si", 3), ("QStandardItem", "si", 1)],
        "fo": [(t, None, n) for t, _, n in WTYPES],
        "gr": [(t, None, n) for t, _, n in WTYPES],
        "db": [("button", None, 1)],
        "tv": [("itemmodel", "si", 1)],
        "top": [("window", "win", 3), ("widget", "w", 2), ("QDialog", "w", 2)],
        "win": [],
    },
    # categories with special structures
    "single": {"one", "tv"},
    "attrs": {
        "widget": W + LAYOUT + [A("window_title", TEXT)],
        "form": W, "grid": W,
        "label": [A("text", TEXT), A("word_wrap", BOOL), A("indent", SMALL)] + W,
        "button": BTN,
        "groupbox": W + LAYOUT + [A("title", TEXT), A("flat", BOOL)],
        "QLineEdit": [A("text", TEXT), A("placeholder_text", TEXT), A("read_only", BOOL)] + W,
        "checkbox": [A("text", TEXT), A("checked", BOOL)] + W[:4],
        "spinbox": [A("value", SMALL), A("suffix", TEXT)] + W[:4],
        "slider": [A("value", SMALL), A("tracking", BOOL)] + W[:4],
        "combobox": [A("items", ("pick", [["a"], ["a", "b"], [], ["c", "b", "a"]]), False), A("editable", BOOL)] + W[:3],
        "QTabWidget": [A("document_mode", BOOL), A("movable", BOOL)] + W[:3],
        "QSplitter": [A("handle_width", SMALL), A("children_collapsible", BOOL)] + W[:3],
        "treewidget": [A("column_count", ("pick", [2, 3]), False), A("indentation", SMALL), A("header_hidden", BOOL)] + W[:3],
        "treeview": [A("indentation", SMALL)] + W[:3],
        "QTableView": [A("show_grid", BOOL)] + W[:3],
        "QItemSelectionModel": [A("object_name", TEXT), A("my_custom", TEXT)],
        "QListView": [A("spacing", SMALL)] + W[:3],
        "toolbar": [A("window_title", TEXT), A("movable", BOOL)] + W[:3],
        "scrollarea": [A("widget_resizable", BOOL)] + W[:3],
        "menu": [A("title", TEXT), A("tear_off_enabled", BOOL), A("object_name", TEXT)],
        "menubar": [A("default_up", BOOL), A("object_name", TEXT)],
        "statusbar": [A("text", ("opts", WORDS + [["m", 0], ["", 0]]), False), A("size_grip_enabled", BOOL), A("object_name", TEXT)],
        "dock": [A("window_title", TEXT), A("object_name", TEXT)],
        "window": [A("window_title", TEXT), A("document_mode", BOOL), A("size", ("tuple", [[300, 200], [400, 300], [350, 250]]), False), A("animated", BOOL)],
        "QDialog": [A("window_title", TEXT), A("modal", BOOL), A("object_name", TEXT)],
        "action": [A("text", TEXT), A("checkable", BOOL), A("enabled", BOOL), A("status-tip", TEXT), A("object_name", TEXT), A("my_custom", TEXT)],
        "treewidgetitem": [A("content", ("cols", WORDS), False), A("expanded", BOOL, False), A("selected", BOOL, False)] + ITEM,
        "standarditem": [A("text", TEXT, False), A("editable", BOOL, False), A("tool_tip", TEXT, False)] + ITEM,
        "itemmodel": [A("column_count", ("pick", [1, 2]), False), A("object_name", TEXT)],
        "DialogButtonBox": [A("buttons", ("pick", [["Ok"], ["Ok", "Cancel"], ["Apply"], []]), False), A("center_buttons", BOOL)] + W[:3],
    },
    "place": {
        "tab": [("tab_label", TEXT)],
        "db": [("role", ("pick", ["ActionRole", "AcceptRole", "ResetRole"]))],
    },
    "events": {
        "button": ["clicked", "toggled", "leave", "user"], "checkbox": ["clicked", "toggled", "state_changed"], "action": ["triggered", "hovered", "toggled"],
        "widget": ["leave", "user", "grab_mouse", "destroyed_never"], "label": ["leave", "grab-mouse", "link_activated"], "groupbox": ["leave", "clicked"],
        "QLineEdit": ["text_changed", "return-pressed", "leave", "cursor-position_changed"], "spinbox": ["value_changed"], "slider": ["value_changed", "slider-moved"],
        "combobox": ["current_index_changed"], "QTabWidget": ["current_changed", "tab_bar_clicked"], "treewidget": ["item_selection_changed", "leave"],
        "menu": ["about_to_show", "leave"], "window": ["user", "icon_size_changed"], "QDialog": ["accepted", "user"], "toolbar": ["movable_changed", "user"],
        "dock": ["user", "grab_mouse"], "DialogButtonBox": ["user", "leave"],
    },
    "text": False,
}
ALIAS = {"QMenu": "menu", "QAction": "action", "QTreeWidgetItem": "treewidgetitem", "QStandardItem": "standarditem", "itemselectionmodel": "QItemSelectionModel",
         "Item-Model": "itemmodel", "Standard_Item": "standarditem", "Standard-Item": "standarditem"}
for _e in PYSIDE["events"].values():
    if "destroyed_never" in _e:
        _e.remove("destroyed_never")

# Number of arguments of the events with arguments; events of the event filter have one
ARGUMENTS = dict.fromkeys((
    "clicked triggered toggled state_changed text_changed value_changed slider_moved link_activated current_index_changed current_changed"
    " tab_bar_clicked movable_changed icon_size_changed leave user grab_mouse").split(), 1) | {"cursor_position_changed": 2}
FILTERED = ("leave", "user", "grab_mouse")

PALETTES = {"dom": DOM, "pygfx": PYGFX, "pyside": PYSIDE}


def attr_names(pal, type_):
    return pal["attrs"].get(ALIAS.get(type_, type_), [])


def event_names(pal, type_):
    return pal["events"].get(ALIAS.get(type_, type_), [])


class ToolGen(Gen):
    def __init__(self, rng, P):
        self.pal = PALETTES[P["tool"]]
        P = dict(P, text=self.pal["text"], backend={P["tool"]: 1})
        super().__init__(rng, P)

    def case(self):
        self.flavour = pick(self.rng, self.P.get("flavours") or self.pal.get("flavours") or {next(iter(self.pal["container"])): 1})
        # one of the elements that take part in few programs has the leading role
        self.focus = self.rng.choice(NESTED + WTYPES[-2:]) if self.P["tool"] == "pyside" and self.rng.random() < 0.5 else None
        case = super().case()
        case["cfg"]["flavour"] = self.flavour
        if self.flavour == "top" and self.rng.random() < 0.7:
            case["cfg"]["autoshow"] = True
        case["cfg"].pop("sync_events", None)
        return case

    def program(self, store):
        self.cat_of = {}
        return super().program(store)

    def gen_comp(self, i):
        r = self.rng
        if i == 0:
            c = self.flavour
        else:
            c = self.flavour if r.random() < 0.6 else r.choice(self.reach(self.flavour))
        self.cat_of[i] = c
        cd = self.comps[i]
        cd["cat"] = c
        cd["slotcats"] = {}
        self.cat = c
        super().gen_comp(i)

    def reach(self, c):
        res, todo = [], [c]
        while todo:
            x = todo.pop()
            if x in res:
                continue
            res.append(x)
            for t in self.pal["cats"].get(x, ()):
                if t[1]:
                    todo.append(t[1])
        return res

    def root_desc(self, c):
        if self.cat_of[c] != self.flavour:
            c = 0
        return super().root_desc(c)

    # `sc["cat"]` is the category of the position
    def children(self, sc, depth):
        cat = sc.get("cat", self.cat)
        if cat == "win":
            return self.window_children(sc, depth)
        if cat == "dk":
            return self.dock_children(sc, depth)
        if cat == "tv" and self.rng.random() < 0.4:
            # the model comes first
            return [self.solo(sc, depth)] + self.maybe(sc, lambda: self.typed(sc, depth, self.rng.choice(["QItemSelectionModel", "itemselectionmodel"]), None, None))
        if cat in self.pal.get("single", ()):
            n = self.solo(sc, depth)
            if self.rng.random() < 0.5:
                br = [[self.cond(sc), [n]]]
                if self.rng.random() < 0.6:
                    br.append([None, [self.solo(sc, depth)]])
                return [{"n": "if", "br": br}]
            return [n]
        return super().children(sc, depth)

    def solo(self, sc, depth):
        return self.host(sc, depth - 1, None)

    def one(self, sc, depth, allow_flow=True):
        if sc.get("cat", self.cat) == "win":
            return self.window_child(sc, depth)
        if sc.get("cat", self.cat) in self.pal.get("single", ()):
            return self.solo(sc, depth)
        it = super().one(sc, depth, allow_flow)
        if it["n"] == "slot":
            cat = sc.get("cat", self.cat)
            if self.comps[sc["i"]]["slotcats"].setdefault(it["name"], cat) != cat:
                return self.host(sc, depth - 1, None)
        return it

    def window_child(self, sc, depth):
        return self.typed(dict(sc, cat="win"), depth, "toolbar", "tb", None)

    def maybe(self, sc, make):
        r = self.rng
        x = r.random()
        if x < 0.35:
            return []
        if x < 0.65:
            return [make()]
        br = [[self.cond(sc), [make()]]]
        if r.random() < 0.4:
            br.append([None, [make()]])
        return [{"n": "if", "br": br}]

    def dock_children(self, sc, depth):
        """A dock shows one widget below one title bar (of a type of its own: the attribute
        counts when the element is inserted, it is not to be changed in place)."""
        one = dict(sc, cat="one")

        def bar():
            n = self.typed(one, 1, self.rng.choice(["QLineEdit", "checkbox"]), None, None)
            n["a"]["title"] = ["c", True]
            return n

        out = self.maybe(sc, bar) if self.rng.random() < 0.4 else []
        content = self.children(one, depth)
        return out + content if self.rng.random() < 0.5 else content + out

    def cells(self, sc, depth):
        """Items at positions of their own in a grid; rows come and go only at the end.
        (The grids of a program have one shape and types of their own, so that an element
        is never changed in place into one with a position that is taken.)"""
        r = self.rng
        if not hasattr(self, "shape"):
            self.shape = [r.choice([2, 2, 1]) for _ in range(r.randint(2, 4))]

        def row(i):
            out = []
            for col in (0, 2)[: self.shape[i]]:
                n = self.typed(dict(sc, cat="si"), 1, "Standard-Item", None if r.random() < 0.7 or depth < 2 else "si", None)
                n["a"]["model_index"] = ["as", "cell", [[i, col]], self.scalar(sc)[0] if r.random() < 0.6 else ["c", 1]]
                out.append(n)
            return out

        n = len(self.shape) - 1
        out = [x for i in range(n) for x in row(i)]
        if r.random() < 0.5:
            out.append({"n": "if", "br": [[self.cond(sc), row(n)]]})
        return out

    def indexed_rows(self, sc):
        """A form of which the last element names its row."""
        out = [self.host(sc, 1, None) for _ in range(self.rng.randint(1, 3))]
        at = list(range(len(out)))
        out[-1]["a"]["form_index"] = ["as", "pick", at, self.scalar(sc)[0]]
        return out

    def window_children(self, sc, depth):
        r = self.rng
        out = []

        def maybe(make):
            return self.maybe(sc, make)

        def t(type_, sub):
            return lambda: self.typed(dict(sc, cat="win"), max(1, depth - 1), type_, sub, None)

        out += maybe(t("menubar", "mb"))
        out += maybe(t("statusbar", "st"))
        out += maybe(t(r.choice(["widget", "label", "QSplitter"]), "w"))
        for _ in range(r.choice([0, 1, 2])):
            out += maybe(t("toolbar", "tb"))
        for _ in range(r.choice([0, 1, 2])):
            x = maybe(t("dock", "dk"))
            out += x
        if r.random() < 0.2:
            out += maybe(t("QDialog", "w"))
        r.shuffle(out)
        return out

    def host(self, sc, depth, k):
        r = self.rng
        cat = sc.get("cat", self.cat)
        if cat == "win":
            return self.window_child(sc, depth)
        types = self.pal["cats"][cat]
        if cat == "w" and r.random() < 0.75 and self.P["tool"] == "pyside":
            types = WTYPES
        t, sub, _ = types[self.weighted([x[2] for x in types])]
        if self.focus and cat in ("w", "sp", "tab") and r.random() < 0.4:
            t, sub, _ = self.focus
        return self.typed(sc, depth, t, sub, k)

    def weighted(self, ws):
        x = self.rng.random() * sum(ws)
        for i, w in enumerate(ws):
            x -= w
            if x < 0:
                return i
        return len(ws) - 1

    def value(self, sc, kind):
        e, pre = self.scalar(sc)
        return ["as", kind[0], kind[1], e]

    def typed(self, sc, depth, t, sub, k):
        r = self.rng
        cat = sc.get("cat", self.cat)
        a = {}
        names = list(attr_names(self.pal, t))
        r.shuffle(names)
        # attributes that can't be removed again are always described
        chosen = [n for n in names if not n[2]] + [n for n in names if n[2]][: r.randint(*self.P["attrs"]) + 1]
        for name, kind, absent in chosen:
            if any(name in c and any(o in a for o in c if o != name) for c in self.pal.get("clash", ())):
                continue
            e = self.value(sc, kind)
            if absent and r.random() < 0.3:
                e = ["opt", self.cond(sc), e]
            a[name] = e
        if self.pal.get("clash") and r.random() < 0.12:
            # both names of the same thing: what is shown in the end depends on the order
            for name, kind, absent in names:
                if name in self.pal["clash"][0]:
                    a[name] = self.value(sc, kind)
            a["my_both"] = ["c", True]
        for name, kind in (self.pal.get("place") or {}).get(cat, ()):
            a[name] = self.value(sc, kind)
        if cat == "fo":
            a["form_label"] = self.value(sc, TEXT)
        if cat == "gr":
            self.gridpos = getattr(self, "gridpos", 0) + 1
            a["grid_index"] = ["as", "grid", [self.gridpos % 40], self.scalar(sc)[0]]
        if t in ("dock",):
            a["area"] = ["as", "area", ["LeftDockWidgetArea", "RightDockWidgetArea"], ["c", r.randint(0, 1)]]
        if t == "toolbar" and cat == "win" and r.random() < 0.5:
            a["area"] = ["as", "tbarea", ["LeftToolBarArea", "TopToolBarArea", "BottomToolBarArea"], self.scalar(sc)[0] if r.random() < 0.5 else ["c", r.randint(0, 2)]]
        if cat == "st" and t in ("checkbox", "QLineEdit"):
            a["permanent"] = ["c", True]
        if t == "form":
            a["layout"] = ["as", "lay", FORMS, self.scalar(sc)[0]]
        if t == "grid":
            a["layout"] = ["as", "lay", GRIDS, self.scalar(sc)[0]]
        evs = event_names(self.pal, t)
        on = self.on_map(sc, evs)
        other = [e for e in sorted(on) if "_" in e or "-" in e]
        if other and self.P["tool"] == "pyside" and r.random() < 0.35:
            # two listeners for the same event
            ev = r.choice(other)
            hs, self.P = self.P["handlers"], dict(self.P, handlers=dict(clos=4, dflt=1, kwd=1, inc=1, late=1))
            on[ev.translate({95: "-", 45: "_"})] = self.handler(sc)
            self.P["handlers"] = hs
            if sc["cls"] and r.random() < 0.4:
                # the same one, twice
                name = r.choice(["m0", "m1"])
                for x in (ev, ev.translate({95: "-", 45: "_"})):
                    self.hid += 1
                    h = ["meth", self.hid, name]
                    on[x] = ["hopt", self.cond(sc), h] if r.random() < 0.5 else h
        if self.P["tool"] == "pyside":
            self.arities(sc, on)
        ch = []
        if t in ("itemmodel", "standarditem") and r.random() < 0.25 and depth > 0:
            ch = self.cells(sc, depth - 1)
            if t == "itemmodel":
                a["column_count"] = ["c", 4]
            t = {"itemmodel": "Item-Model", "standarditem": "Standard_Item"}[t]
        elif t == "form" and r.random() < 0.3:
            ch = self.indexed_rows(dict(sc, cat=sub))
        elif sub is not None:
            ch = self.children(dict(sc, cat=sub), depth)
        return {"n": "host", "t": {"form": "widget", "grid": "widget"}.get(t, t), "a": a, "on": on, "k": k, "ch": ch}

    def arities(self, sc, on):
        """Handlers that take a certain number of arguments."""
        r = self.rng
        for ev in list(on):
            name = ev.replace("-", "_")
            n = ARGUMENTS.get(name, 0)
            # (the second argument of a signal would be taken for the default value of the handler)
            odd = n > 1 and "'dflt'" in repr(on[ev])
            if odd or r.random() < 0.25:
                # functions with more (optional) arguments than a signal has, are no good in PySide
                opt = r.randint(0, min(n, 1))
                n = r.randint(0, n - opt) if name not in FILTERED else n
                self.hid += 1
                h = ["ar", self.hid, self.scalar(sc)[0], n, opt]
                x = r.random()
                on[ev] = ["hif", self.cond(sc), h, on[ev]] if x < 0.25 and not odd and on[ev][0] not in ("hif", "hopt") else ["hopt", self.cond(sc), h] if x < 0.4 else h

    def comp(self, sc, k, itemvar=None):
        cat = sc.get("cat", self.cat)
        c = [j for j in range(sc["i"] + 1, self.n) if self.cat_of.get(j) == cat]
        if not c or cat in self.pal.get("single", ()) or cat == "win":
            return self.host(sc, 1, k)
        self.comp_choice = c
        return super().comp(sc, k, itemvar)

    def choose_comp(self, sc):
        return self.rng.choice(self.comp_choice)

    def slot_scope(self, sc, c, name):
        return dict(sc, cat=self.comps[c]["slotcats"].get(name, self.cat_of[c]))

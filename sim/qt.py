"""PySide6 (offscreen) below the monitor."""
from PySide6 import QtCore, QtGui, QtWidgets
import shiboken6

from . import palette
from .backends import SKIP, Tool
from .boot import cg
from .ref import raw

APP = None
Q = QtWidgets


def app():
    global APP
    if APP is None:
        APP = QtCore.QCoreApplication.instance() or QtWidgets.QApplication([])
    return APP


class Renderer(cg.PySideRenderer):
    """The real renderer; only the event loop policy of Qt is not installed (virtual loop)."""

    def register_asyncio(self):
        pass


GETTERS = {
    "window-title": "windowTitle",
}


def method(attr):
    parts = attr.replace("-", "_").split("_")
    return parts[0] + "".join(p.capitalize() for p in parts[1:])


class PySide(Tool):
    name = "pyside"
    pid = "C20"

    def __init__(self, sim):
        super().__init__(sim)
        self.tops = []

    def make_renderer(self):
        app()
        return Renderer(autoshow=self.sim.cfg.get("autoshow", False))

    def container(self, g):
        c = self.pal["container"][self.sim.cfg.get("flavour", "w")]
        self.sim.stat("flavour_" + self.sim.cfg.get("flavour", "w"))
        if c == "@app":
            return app()
        r = Renderer(autoshow=False)
        el = r.create_element(c)
        flavour = self.sim.cfg.get("flavour")
        if flavour == "fo":
            r.set_attribute(el, "layout", {"type": "Form"})
        if flavour == "gr":
            r.set_attribute(el, "layout", {"type": "Grid"})
        if flavour == "ti":
            r.set_attribute(el, "column_count", 2)
        self.tops.append(el)
        return el

    def idle(self):
        QtCore.QCoreApplication.sendPostedEvents()
        QtCore.QCoreApplication.sendPostedEvents(None, QtCore.QEvent.Type.DeferredDelete)

    def close(self):
        for w in app().topLevelWidgets():
            w.close()
        self.tops = []
        self.idle()

    # ---- structure
    def check_children(self, g, s, want, path):
        el = s.el
        for c in s.children:
            if not shiboken6.isValid(c.el):
                self.bad("deleted", f"{path}: {c.type}#{c.uid} is described but its Qt object was deleted")
                return
        if isinstance(el, QtCore.QCoreApplication):
            for w in want:
                if w.parent() is not None:
                    self.bad("children", f"top-level {type(w).__name__} has a parent")
                elif w.isVisible() != self.sim.cfg.get("autoshow", False):
                    self.bad("children", f"top-level {type(w).__name__} is {'shown' if w.isVisible() else 'not shown'}")
            return
        dialogs = [w for w in want if isinstance(w, Q.QDialog)]
        want = [w for w in want if not isinstance(w, Q.QDialog)]
        for d in dialogs:
            if d.parent() is not el or not d.isVisibleTo(el):
                self.bad("children", f"{path}: described dialog is not shown on top of its parent")
                return
        have_dialogs = [d for d in el.children() if isinstance(d, Q.QDialog) and d.isVisibleTo(el)] if isinstance(el, QtCore.QObject) else []
        if {id(d) for d in have_dialogs} != {id(d) for d in dialogs}:
            self.bad("children", f"{path}: shows dialogs {self.names(g, have_dialogs)}, described {self.names(g, dialogs)}")
            return
        kids = s.children
        if isinstance(el, Q.QTreeWidget):
            self.same(g, s, [el.topLevelItem(i) for i in range(el.topLevelItemCount())], want, path)
        elif isinstance(el, Q.QTreeWidgetItem):
            self.same(g, s, [el.child(i) for i in range(el.childCount())], want, path)
        elif isinstance(el, (QtGui.QStandardItemModel, QtGui.QStandardItem)) and any("model_index" in c.attrs for c in kids):
            self.check_cells(g, s, el, kids, path)
        elif isinstance(el, QtGui.QStandardItemModel):
            self.same(g, s, [el.item(i, 0) for i in range(el.rowCount())], want, path)
        elif isinstance(el, QtGui.QStandardItem):
            self.same(g, s, [el.child(i, 0) for i in range(el.rowCount())], want, path)
        elif isinstance(el, (Q.QMenu, Q.QMenuBar)):
            self.same(g, s, [a.menu() or a for a in el.actions()], want, path, what="entries")
        elif isinstance(el, Q.QToolBar):
            self.same(g, s, [el.widgetForAction(a) if isinstance(a, Q.QWidgetAction) else a for a in el.actions()], want, path, what="entries")
        elif isinstance(el, Q.QTabWidget):
            self.same(g, s, [el.widget(i) for i in range(el.count())], want, path, what="pages")
            if not self.sim.stop:
                have = [el.tabText(i) for i in range(el.count())]
                labels = [raw(c.attrs.get("tab_label", "")) for c in kids]
                if have != labels:
                    self.bad("children", f"{path}: tab labels are {have}, described {labels}")
        elif isinstance(el, Q.QSplitter):
            self.same(g, s, [el.widget(i) for i in range(el.count())], want, path)
        elif isinstance(el, Q.QScrollArea):
            self.same(g, s, [el.widget()] if el.widget() is not None else [], want, path, what="shown widget")
        elif isinstance(el, Q.QDockWidget):
            bars = [c.el for c in kids if "title" in c.attrs and c.type in ("QLineEdit", "checkbox")]
            want = [w for w in want if not any(w is b for b in bars)]
            self.same(g, s, [el.titleBarWidget()] if el.titleBarWidget() is not None else [], bars, path, what="title bar")
            if self.sim.stop:
                return
            self.same(g, s, [el.widget()] if el.widget() is not None else [], want, path, what="shown widget")
        elif isinstance(el, (Q.QListView, Q.QTableView, Q.QTreeView)):
            selections = [w for w in want if isinstance(w, QtCore.QItemSelectionModel)]
            want = [w for w in want if not isinstance(w, QtCore.QItemSelectionModel)]
            have = el.selectionModel()
            if selections and have is not selections[0]:
                self.bad("children", f"{path}: the selection model is {self.names(g, [have])}, described {self.names(g, selections)}")
                return
            if not selections and have is not None and (id(have) in g.mon.gone or have.parent() is not el):
                self.bad("children", f"{path}: the selection model {self.names(g, [have])} is not described")
                return
            self.same(g, s, [el.model()] if el.model() is not None else [], want, path, what="shown model")
        elif isinstance(el, Q.QMainWindow):
            self.check_window(g, s, el, want, path)
        elif isinstance(el, Q.QStatusBar):
            have = [w for w in el.children() if isinstance(w, Q.QWidget) and not isinstance(w, Q.QSizeGrip)]
            self.same(g, s, have, want, path, ordered=False)
            if self.sim.stop:
                return
            # messages cover all the widgets but the permanent ones
            for c in kids:
                if c.el.isHidden() and ("permanent" in c.attrs or not el.currentMessage()):
                    self.bad("children", f"{path}: {c.type}#{c.uid} is hidden with the message {el.currentMessage()!r}")
                    return
                if not any(lay.indexOf(c.el) >= 0 for lay in el.findChildren(Q.QLayout)):
                    self.bad("children", f"{path}: {c.type}#{c.uid} is not part of the layout")
                    return
        elif isinstance(el, Q.QDialogButtonBox):
            roles = Q.QDialogButtonBox
            std = [el.button(b) for b in (roles.StandardButton.Ok, roles.StandardButton.Cancel, roles.StandardButton.Apply)]
            names = [n for n, b in zip(("Ok", "Cancel", "Apply"), std) if b is not None]
            described = raw(s.attrs.get("buttons", ()))
            if sorted(names) != sorted(described) and not s.root:
                self.bad("children", f"{path}: standard buttons are {names}, described {list(described)}")
                return
            have = [b for b in el.buttons() if not any(b is x for x in std)]
            self.same(g, s, have, want, path, ordered=False, what="buttons")
            for c in kids:
                if not self.sim.stop and el.buttonRole(c.el) != getattr(roles.ButtonRole, raw(c.attrs["role"])):
                    self.bad("children", f"{path}: role of button #{c.uid} is {el.buttonRole(c.el)}, described {c.attrs['role']}")
        elif isinstance(el, Q.QWidget):
            self.check_layout(g, s, el, want, path)
        elif want:
            self.bad("children", f"{path}: {s.type} with children")

    def check_cells(self, g, s, el, kids, path):
        cell = el.item if isinstance(el, QtGui.QStandardItemModel) else el.child
        have = {(r, c): x for r in range(el.rowCount()) for c in range(el.columnCount()) if (x := cell(r, c)) is not None}
        want = {tuple(raw(c.attrs["model_index"])): c.el for c in kids}
        for at in sorted(have.keys() | want.keys()):
            if have.get(at) is not want.get(at):
                self.bad("children", f"{path}: cell {at} is {self.names(g, [have.get(at)])}, described {self.names(g, [want.get(at)])}")
                return
        if el.rowCount() != 1 + max(r for r, _ in want):
            self.bad("children", f"{path}: there are {el.rowCount()} rows, described {1 + max(r for r, _ in want)}")

    def check_layout(self, g, s, el, want, path):
        layout = el.layout()
        # (`itemAt` would create wrappers of objects that are not those of Python)
        kids = [c for c in s.children if not isinstance(c.el, Q.QDialog)]
        n = layout.count() if layout is not None else 0
        pos = {}
        for c in kids:
            i = layout.indexOf(c.el) if layout is not None else -1
            if i < 0:
                self.bad("children", f"{path}: {c.type}#{c.uid} is not part of the layout")
                return
            pos[i] = c.el
        if isinstance(layout, Q.QFormLayout):
            have, labels = [None] * layout.rowCount(), []
            for c in kids:
                have[layout.getWidgetPosition(c.el)[0]] = c.el
            for c in kids:
                if "form_index" in c.attrs:
                    # names its row, the others keep their order
                    want.remove(c.el)
                    want.insert(raw(c.attrs["form_index"]), c.el)
            self.same(g, s, have, want, path, what="rows")
            if not self.sim.stop:
                labels = [layout.labelForField(c.el) for c in kids]
                labels = [x.text() if x is not None else "" for x in labels]
                texts = [raw(c.attrs["form_label"]) for c in kids]
                if labels != texts:
                    self.bad("children", f"{path}: form labels are {labels}, described {texts}")
        elif n != len(kids):
            self.bad("children", f"{path}: the layout has {n} items, described {len(kids)}")
        elif isinstance(layout, Q.QGridLayout):
            for c in kids:
                at = tuple(layout.getItemPosition(layout.indexOf(c.el)))
                cell = tuple(raw(c.attrs["grid_index"]))
                cell = cell + (1, 1)[len(cell) - 2:] if len(cell) < 4 else cell
                if at != cell and not self.sim.stop:
                    self.bad("children", f"{path}: grid position of #{c.uid} is {at}, described {cell}")
        else:
            self.same(g, s, [pos[i] for i in sorted(pos)], want, path)
        if self.sim.stop:
            return
        extra = [w for w in el.children() if isinstance(w, Q.QWidget) and not w.isWindow() and not any(w is x for x in want)]
        known = {id(x.el): x for x in g.shadow_root.walk()}
        gone = g.mon.gone
        for w in extra:
            if id(w) in known or id(w) in gone:
                self.bad("children", f"{path}: {self.names(g, [w])} is a child widget although not described there")
                return

    def check_window(self, g, s, el, want, path):
        toolbars = [w for w in want if isinstance(w, Q.QToolBar)]
        docks = [w for w in want if isinstance(w, Q.QDockWidget)]
        bars = [w for w in want if isinstance(w, Q.QMenuBar)]
        status = [w for w in want if isinstance(w, Q.QStatusBar)]
        central = [w for w in want if not isinstance(w, (Q.QToolBar, Q.QDockWidget, Q.QMenuBar, Q.QStatusBar))]
        kids = el.children()

        def direct(t):
            return [w for w in kids if isinstance(w, t)]

        self.same(g, s, [w for w in direct(Q.QToolBar) if el.toolBarArea(w) != QtCore.Qt.ToolBarArea.NoToolBarArea], toolbars, path, ordered=False, what="toolbars")
        if self.sim.stop:
            return
        self.same(g, s, direct(Q.QDockWidget), docks, path, ordered=False, what="docks")
        if self.sim.stop:
            return
        self.same(g, s, [el.menuWidget()] if el.menuWidget() is not None else [], bars, path, what="menu bar")
        if self.sim.stop:
            return
        # PySide6 itself creates a bar (and hides it) when one is set
        shown = [w for w in direct(Q.QStatusBar) if not w.isHidden() or any(w is x for x in status)]
        self.same(g, s, shown, status, path, what="status bar")
        self.same(g, s, [w for w in status if el.layout().indexOf(w) >= 0], status, path, what="laid out status bar")
        if self.sim.stop:
            return
        self.same(g, s, [el.centralWidget()] if el.centralWidget() is not None else [], central, path, what="central widget")
        if self.sim.stop:
            return
        for c in s.children:
            if isinstance(c.el, Q.QDockWidget) and el.dockWidgetArea(c.el) != raw(c.attrs["area"]):
                self.bad("children", f"{path}: dock #{c.uid} is in {el.dockWidgetArea(c.el)}, described {raw(c.attrs['area'])}")
            if isinstance(c.el, Q.QToolBar) and "area" in c.attrs and el.toolBarArea(c.el) != raw(c.attrs["area"]):
                self.bad("children", f"{path}: toolbar #{c.uid} is in {el.toolBarArea(c.el)}, described {raw(c.attrs['area'])}")

    def check_gone(self, g):
        """Elements that were removed are not shown any more."""
        if self.sim.stop:
            return
        root = g.shadow_root.el
        known = {id(x.el) for x in g.shadow_root.walk()}
        for el in list(g.mon.gone.values()):
            if id(el) in known or not shiboken6.isValid(el):
                continue
            if isinstance(el, Q.QWidget):
                p = el.parentWidget()
                if p is not None and (p is root or (isinstance(root, Q.QWidget) and root.isAncestorOf(p))) and el.isVisibleTo(root if isinstance(root, Q.QWidget) else p):
                    self.bad("gone", f"removed {type(el).__name__} is still shown in {type(p).__name__}")
                    return
                # (only for windows: Qt shows the children of layouts later, also the ones that are gone by
                # then and are still referenced, which nothing but this monitor does)
                if isinstance(root, QtCore.QCoreApplication) and isinstance(el, Q.QMainWindow) and p is None and el.isVisible():
                    self.bad("gone", f"removed window {type(el).__name__} is still visible")
                    return
            elif isinstance(el, QtGui.QAction):
                for o in el.associatedObjects():
                    if id(o) in known:
                        self.bad("gone", f"removed action is still part of {type(o).__name__}")
                        return

    # ---- attributes
    def fresh(self, type_):
        return Renderer(autoshow=False).create_element(type_)

    def get(self, el, type_, attr):
        if attr == "my_custom":
            return getattr(el, attr, None)
        if attr == "items":
            return [el.itemText(i) for i in range(el.count())]
        if attr == "content":
            return [el.text(c) for c in range(2)]
        if attr == "expanded":
            return el.isExpanded()
        if attr == "selected":
            return el.isSelected()
        if attr == "size":
            return (el.width(), el.height())
        if attr == "layout":
            return None
        if attr == "buttons":
            return None
        if type_ == "statusbar" and attr == "text":
            return el.currentMessage()
        if attr == "show_grid":
            return el.showGrid()
        m = method(attr)
        for cand in (m, "is" + m[0].upper() + m[1:], "has" + m[0].upper() + m[1:]):
            f = getattr(el, cand, None)
            if f is not None:
                return f()
        raise AttributeError(attr)

    def shown(self, s, name, value):
        el = s.el
        if name == "layout":
            lay = el.layout()
            if lay is None:
                return "no layout"
            t = {"box": Q.QBoxLayout, "stacked": Q.QStackedLayout, "form": Q.QFormLayout, "grid": Q.QGridLayout}[value["type"].lower()]
            if not isinstance(lay, t):
                return f"{value} instead of {type(lay).__name__}"
            if "direction" in value and lay.direction() != getattr(Q.QBoxLayout.Direction, value["direction"]):
                return f"{value} instead of {lay.direction()}"
            for kind in ("column", "row"):
                for at, n in value.get(f"{kind}_stretch", ()):
                    if getattr(lay, f"{kind}Stretch")(at) != n:
                        return f"{value}, but the stretch of {kind} {at} is {getattr(lay, f'{kind}Stretch')(at)}"
            if "vertical_spacing" in value and lay.verticalSpacing() != value["vertical_spacing"]:
                return f"{value} instead of {lay.verticalSpacing()}"
            if "contents_margins" in value:
                m = lay.contentsMargins()
                if (m.left(), m.top(), m.right(), m.bottom()) != value["contents_margins"]:
                    return f"{value} instead of {m}"
            if "spacing" in value and lay.spacing() != value["spacing"]:
                return f"{value} instead of {lay.spacing()}"
            return None
        if name == "buttons":
            return None
        if name == "content":
            return [value[0], value[1]]
        if name == "enabled":
            return SKIP if not self.ancestors_enabled(s) else value
        if name == "items":
            return list(value)
        if name == "selected" and s.type.lower() == "treewidgetitem":
            return SKIP
        if name == "expanded":
            # without children nothing can be expanded
            return value if s.children else SKIP
        if name == "size":
            # (the layout of a window on the screen needs some space)
            return SKIP if self.sim.cfg.get("autoshow") else tuple(value)
        if name == "text" and s.type == "button":
            return value
        if name == "text" and s.type == "statusbar" and isinstance(value, tuple):
            return value[0]
        if name == "value":
            return min(max(value, el.minimum()), el.maximum())
        if name == "handle_width":
            return value
        return value

    def ancestors_enabled(self, s):
        p = s.parent
        while p is not None:
            if raw(p.attrs.get("enabled", True)) is False:
                return False
            p = p.parent
        return True

    def default(self, type_, attr):
        if attr == "enabled":
            return SKIP
        return super().default(type_, attr)

    # ---- events
    def canon(self, ev):
        return ev.replace("-", "_")

    def signal_args(self, ev):
        return {
            "clicked": (False,), "triggered": (False,), "toggled": (True,), "stateChanged": (0,), "textChanged": ("q",), "valueChanged": (1,),
            "sliderMoved": (1,), "linkActivated": ("x",), "currentIndexChanged": (0,), "currentChanged": (0,), "tabBarClicked": (0,),
            "movableChanged": (True,), "iconSizeChanged": (QtCore.QSize(3, 3),), "cursorPositionChanged": (2, 5),
        }.get(method(ev), ())

    def check_arguments(self, s, ev, ar, args):
        """A handler gets as many of the arguments of the signal as it takes, or the event."""
        if hasattr(getattr(s.el, method(ev), None), "emit"):
            want = self.signal_args(ev)[: ar.n + ar.opt]
            if args != want:
                self.bad("event", f"{s.type}#{s.uid}: a handler of {ev} that takes {ar.n} arguments (and {ar.opt} optional ones) got {args!r}, expected {want!r}")
        elif len(args) != 1 or not isinstance(args[0], QtCore.QEvent):
            self.bad("event", f"{s.type}#{s.uid}: a handler of {ev} got {args!r}, expected the event")

    def fire(self, el, type_, ev):
        t = palette.ALIAS.get(type_, type_)
        sig = getattr(el, method(ev), None)
        if sig is not None and hasattr(sig, "emit"):
            args = self.signal_args(ev)
            try:
                sig.emit(*args)
            except TypeError:
                sig.emit()
        else:
            name = method(ev)
            name = name[0].upper() + name[1:]
            QtCore.QCoreApplication.sendEvent(el, QtCore.QEvent(getattr(QtCore.QEvent.Type, name)))

"""The PySide renderer: real Qt objects (offscreen), driven by the real reconciler"""

from symx.boot import boot

cg = boot(qt=True)

import copy  # noqa: E402
import dataclasses  # noqa: E402
import functools  # noqa: E402
import sys  # noqa: E402

from PySide6 import QtCore, QtGui, QtWidgets  # noqa: E402

from .base import *  # noqa: F403,E402
from .base import Check, Collagraph, EventLoopType, Harness, any_text, comp, el, expected, f_and, f_eq, f_not, f_or, h, perm_eq, reactive, reset, tmpl, to_vnode  # noqa: E402
from collagraph import Component  # noqa: E402
from collagraph.renderers import PySideRenderer  # noqa: E402

APP = None


def message(kind, context, text):
    if "propagateSizeHints" not in text:
        print(text, file=sys.stderr)


def app():
    """One for each process"""
    global APP
    if APP is None:
        APP = QtWidgets.QApplication.instance() or QtWidgets.QApplication([])
        QtCore.qInstallMessageHandler(message)
    return APP


class Spy(PySideRenderer):
    """The real renderer, that also keeps track of the elements that it made"""

    def __init__(self):
        super().__init__(autoshow=False)
        self.created = []

    def create_element(self, type):
        e = super().create_element(type)
        self.created.append((type, e))
        return e

    def find(self, type):
        return next(e for t, e in self.created if t == type)


# State of the modules of the renderer, which is restored at the start of each path
MODULES = [m for n, m in sorted(sys.modules.items()) if n.startswith("collagraph.renderers")]
SAVED = {}
CACHES = []


def save_state():
    for m in MODULES:
        for k, v in vars(m).items():
            if type(v) in (dict, list, set) and not k.startswith("__"):
                SAVED[(m.__name__, k)] = (v, copy.copy(v))
            if callable(getattr(v, "cache_clear", None)):
                CACHES.append(v)


def restore_state():
    for cached in CACHES:
        cached.cache_clear()
    for v, saved in SAVED.values():
        if v == saved:
            continue
        v.clear()
        if isinstance(v, list):
            v.extend(saved)
        else:
            v.update(saved)


# -- containers ------------------------------------------------------------------


def layout_items(w):
    """NOTE: the items of a layout are not QObjects, so PySide doesn't know when they
    are deleted: stay away from `itemAt` and the likes"""
    lay = w.layout()
    inside = [c for c in w.children() if isinstance(c, QtWidgets.QWidget) and lay.indexOf(c) >= 0] if lay else []
    return sorted(inside, key=lay.indexOf) if lay else []


def menu_items(m):
    return [a.menu() or a for a in m.actions()]


def toolbar_items(t):
    return [a.defaultWidget() if isinstance(a, QtWidgets.QWidgetAction) else a for a in t.actions()]


def name_of(node):
    if isinstance(node, QtGui.QStandardItem):
        return node.text()
    if isinstance(node, QtWidgets.QTreeWidgetItem):
        return node.text(0)
    return node.objectName()


def naming(type, name):
    if type == "standarditem":
        return {"text": name}
    if type == "treewidgetitem":
        return {"content": {0: name}}
    return {"object_name": name}


CLASSES = {
    "label": QtWidgets.QLabel, "button": QtWidgets.QPushButton, "widget": QtWidgets.QWidget,
    "action": QtGui.QAction, "menu": QtWidgets.QMenu, "standarditem": QtGui.QStandardItem,
    "treewidgetitem": QtWidgets.QTreeWidgetItem, "lineedit": QtWidgets.QLineEdit,
}

# kind: (description of the tree around the children, type of the container, read, types of children)
CONTAINERS = {
    "widget": (lambda kids: el("widget", {}, *kids), "widget", layout_items, ["label", "button"]),
    "groupbox": (lambda kids: el("groupbox", {}, *kids), "groupbox", layout_items, ["label", "button"]),
    "stacked": (lambda kids: el("widget", {"layout": {"type": "stacked"}}, *kids), "widget", layout_items, ["label", "button"]),
    "horizontal": (lambda kids: el("widget", {"layout": {"type": "box", "direction": "LeftToRight"}}, *kids), "widget", layout_items, ["label", "button"]),
    "splitter": (lambda kids: el("QSplitter", {}, *kids), "QSplitter",
                 lambda s: [s.widget(i) for i in range(s.count())], ["label", "button"]),
    "menu": (lambda kids: el("window", {}, el("menubar", {}, el("menu", {}, *kids))), "menu", menu_items, ["action", "menu"]),
    "menubar": (lambda kids: el("window", {}, el("menubar", {}, *kids)), "menubar", menu_items, ["menu"]),
    "toolbar": (lambda kids: el("window", {}, el("toolbar", {}, *kids)), "toolbar", toolbar_items, ["action", "button"]),
    "itemmodel": (lambda kids: el("treeview", {}, el("itemmodel", {}, *kids)), "itemmodel",
                  lambda m: [m.item(i) for i in range(m.rowCount())], ["standarditem"]),
    "item": (lambda kids: el("treeview", {}, el("itemmodel", {}, el("standarditem", {}, *kids))), "standarditem",
             lambda m: [m.child(i) for i in range(m.rowCount())], ["standarditem"]),
    "treewidget": (lambda kids: el("treewidget", {}, *kids), "treewidget",
                   lambda t: [t.topLevelItem(i) for i in range(t.topLevelItemCount())], ["treewidgetitem"]),
    "treeitem": (lambda kids: el("treewidget", {}, el("treewidgetitem", {}, *kids)), "treewidgetitem",
                 lambda t: [t.child(i) for i in range(t.childCount())], ["treewidgetitem"]),
    "tabs": (lambda kids: el("QTabWidget", {}, *kids), "QTabWidget",
             lambda t: [t.widget(i) for i in range(t.count())], ["label", "button"]),
}


class Kids:
    def __init__(self, kids):
        self.kids = kids


class Part(Component):
    def render(self):
        return to_vnode(tmpl(*self.props["kids"].kids), h)


def containers(E, kind="widget", n=3, steps=2, virtual=(), types=None, keyed=True):
    """The children of a container are those of the latest description, in order"""
    app()
    restore_state()
    around, name, read, options = CONTAINERS[kind]
    options = list(types or options)
    forms = [*options, *virtual]

    def child(type, label, key=None):
        return el(type, naming(type, label), key=key)

    def gen(step):
        count = E.choice(f"n{step}", n + 1)
        keys = [E.text(f"key{step}_{i}") for i in range(count)] if keyed else [None] * count
        if keyed:
            E.distinct(keys)
        kids = []
        for i, k in enumerate(keys):
            form = E.pick(f"form{step}_{i}", forms)
            label = k if keyed else E.text(f"name{step}_{i}")
            if form == "tmpl":
                kids.append(tmpl(child(options[0], label), child(options[-1], f"second {step}"), key=k))
            elif form == "part":
                inner = [child(options[0], label), child(options[0], f"second {step}")]
                kids.append(comp(Part, {"kids": Kids(inner)}, expand=lambda inner=inner: inner, key=k))
            else:
                kids.append(child(form, label, key=k))
        return kids

    reset()
    first = gen(0)
    state = reactive({"kids": Kids(first)})

    def Main(props):
        return to_vnode(around(props["kids"].kids), h)

    renderer = Spy()
    gui = Collagraph(renderer, event_loop_type=EventLoopType.SYNC)
    gui.render(h(Main, state), app())
    container = renderer.find(name)

    def check(kids, label):
        xs = [x for k in kids for x in expected(k)]
        nodes = read(container)
        E.check(len(nodes) == len(xs), f"{label}: wrong number of children")
        if len(nodes) != len(xs):
            return
        E.check(len({id(x) for x in nodes}) == len(nodes), f"{label}: children occur more than once")
        for i, (node, x) in enumerate(zip(nodes, xs)):
            E.check(isinstance(node, CLASSES[x.type]), f"{label}: wrong type of child at {i}")
            want = x.attrs["content"][0] if "content" in x.attrs else x.attrs.get("object_name", x.attrs.get("text"))
            E.check(f_eq(name_of(node), want), f"{label}: wrong child at {i}")
        if kind in ("widget", "groupbox", "horizontal", "splitter", "stacked"):
            inside = [c for c in container.children() if isinstance(c, QtWidgets.QWidget)
                      and not isinstance(c, QtWidgets.QSplitterHandle)]
            E.check(sorted(map(id, inside)) == sorted(map(id, nodes)), f"{label}: removed children are still inside")

    check(first, "initial")
    for step in range(1, steps):
        kids = gen(step)
        state["kids"] = Kids(kids)
        check(kids, f"step {step}")
    E.cover("end")
    dispose(renderer)


def dispose(renderer):
    """Get rid of the widgets of the path"""
    del renderer.created[:]


# -- containers with a place for each of their children ------------------------------


def places(E, kind="window", steps=2):
    """Children of windows, docks and scroll areas are at the place that is meant for them"""
    app()
    restore_state()

    def gen(step):
        out = {}
        if kind == "scrollarea":
            parts = {"content": ["label", "button"]}
        elif kind == "dock":
            parts = {"title": ["label", "button"], "content": ["label", "button", "groupbox"]}
        else:
            parts = {"menubar": ["menubar"], "toolbar": ["toolbar"], "dock": ["dock"], "statusbar": ["statusbar"],
                     "central": ["label"]}
        for part, types in parts.items():
            type = E.pick(f"{part}{step}", [None, *types])
            if type:
                out[part] = (type, E.text(f"name {part}{step}"))
        return out

    reset()
    first = gen(0)
    state = reactive({"parts": Kids(first)})

    def Main(props):
        kids = []
        for part, (type, name) in props["parts"].kids.items():
            attrs = {"object_name": name, "key": part}
            if part == "dock":
                attrs["area"] = QtCore.Qt.DockWidgetArea.LeftDockWidgetArea
            if part == "title":
                attrs["title"] = True
            kids.append(h(type, attrs))
        if kind == "window":
            return h("window", {}, *kids)
        inner = h(kind, {"area": QtCore.Qt.DockWidgetArea.LeftDockWidgetArea} if kind == "dock" else {}, *kids)
        return h("window", {}, inner)

    renderer = Spy()
    gui = Collagraph(renderer, event_loop_type=EventLoopType.SYNC)
    gui.render(h(Main, state), app())

    def check_part(label, part, found, parts):
        want = parts.get(part)
        if want is None:
            E.check(not found, f"{label}: there still is a {part}")
            return
        E.check(len(found) == 1, f"{label}: there is no {part}")
        if len(found) == 1:
            cls = Spy.CLASSES[want[0]]
            E.check(isinstance(found[0], cls), f"{label}: {part} has the wrong type")
            E.check(f_eq(found[0].objectName(), want[1]), f"{label}: wrong {part}")

    def some(x):
        return [] if x is None else [x]

    def check(parts, label):
        window = renderer.find("window")
        # Qt makes and gets rid of a statusbar itself
        QtCore.QCoreApplication.sendPostedEvents(None, QtCore.QEvent.Type.DeferredDelete)
        if kind == "window":
            inside = [c for c in window.children() if isinstance(c, tuple(Spy.CLASSES.values()))]
            check_part(label, "menubar", some(window.menuWidget()), parts)
            check_part(label, "toolbar", [c for c in inside if isinstance(c, QtWidgets.QToolBar)], parts)
            check_part(label, "dock", [c for c in inside if isinstance(c, QtWidgets.QDockWidget)
                                       and window.dockWidgetArea(c) == QtCore.Qt.DockWidgetArea.LeftDockWidgetArea], parts)
            check_part(label, "statusbar", [c for c in inside if isinstance(c, QtWidgets.QStatusBar)], parts)
            check_part(label, "central", some(window.centralWidget()), parts)
        elif kind == "dock":
            dock = renderer.find("dock")
            check_part(label, "content", some(dock.widget()), parts)
            check_part(label, "title", some(dock.titleBarWidget()), parts)
        else:
            check_part(label, "content", some(renderer.find("scrollarea").widget()), parts)

    check(first, "initial")
    for step in range(1, steps):
        parts = gen(step)
        state["parts"] = Kids(parts)
        check(parts, f"step {step}")
    E.cover("end")
    dispose(renderer)


Spy.CLASSES = {
    "label": QtWidgets.QLabel, "button": QtWidgets.QPushButton, "menubar": QtWidgets.QMenuBar,
    "toolbar": QtWidgets.QToolBar, "dock": QtWidgets.QDockWidget, "statusbar": QtWidgets.QStatusBar,
    "groupbox": QtWidgets.QGroupBox,
}


# -- layouts -------------------------------------------------------------------------

FORM = QtWidgets.QFormLayout.ItemRole
LAYOUTS = {
    "box": QtWidgets.QBoxLayout, "grid": QtWidgets.QGridLayout,
    "form": QtWidgets.QFormLayout, "stacked": QtWidgets.QStackedLayout,
}


def layouts(E, kinds=("box",), n=2, steps=2, columns=2, indexed=True, spans=False):
    """Children are at the place in the layout that they ask for"""
    app()
    restore_state()
    reset()

    def gen(step):
        kind = E.pick(f"kind{step}", list(kinds))
        count = E.choice(f"n{step}", n + 1)
        keys = [E.text(f"key{step}_{i}") for i in range(count)]
        E.distinct(keys)
        kids = []
        taken = set()
        for i, k in enumerate(keys):
            attrs = {"object_name": k}
            if kind == "grid":
                cell = E.choice(f"cell{step}_{i}", columns * 2)
                E.assume(cell not in taken)
                taken.add(cell)
                attrs["grid_index"] = (cell // columns, cell % columns)
                if spans and E.boolean(f"span{step}_{i}"):
                    attrs["grid_index"] += (1 + E.choice(f"rows{step}_{i}", 2), 1 + E.choice(f"columns{step}_{i}", 2))
            elif kind == "form":
                attrs["form_label"] = E.text(f"label{step}_{i}")
                if indexed == "first":
                    # An index is relative to the rows that are there at that time
                    if E.boolean(f"first{step}_{i}"):
                        attrs["form_index"] = 0
                elif indexed:
                    attrs["form_index"] = i
            kids.append((k, attrs))
        return kind, kids

    def in_rows(kids):
        rows = []
        for kid in kids:
            rows.insert(0 if indexed == "first" and "form_index" in kid[1] else len(rows), kid)
        return rows

    first = gen(0)
    state = reactive({"form": Kids(first)})

    def Main(props):
        kind, kids = props["form"].kids
        return h("widget", {"layout": {"type": kind}}, *[h("lineedit", {**attrs, "key": k}) for k, attrs in kids])

    renderer = Spy()
    gui = Collagraph(renderer, event_loop_type=EventLoopType.SYNC)
    gui.render(h(Main, state), app())

    def check(form, label):
        kind, kids = form
        widget = renderer.find("widget")
        layout = widget.layout()
        E.check(isinstance(layout, LAYOUTS[kind]), f"{label}: wrong kind of layout")
        if not isinstance(layout, LAYOUTS[kind]):
            return
        inside = [c for c in widget.children() if isinstance(c, QtWidgets.QLineEdit)]
        E.check(len(inside) == len(kids), f"{label}: wrong number of children")
        others = [c for c in widget.children() if isinstance(c, QtWidgets.QLabel)]
        E.check(len(others) == (len(kids) if kind == "form" else 0), f"{label}: wrong number of labels")
        if kind == "form":
            E.check(layout.rowCount() == len(kids), f"{label}: wrong number of rows")
            if layout.rowCount() != len(kids):
                return
            fields = {layout.getWidgetPosition(c)[0]: c for c in inside}
            for i, (k, attrs) in enumerate(in_rows(kids)):
                E.check(i in fields and f_eq(fields[i].objectName(), k), f"{label}: wrong field in row {i}")
                name = i in fields and layout.labelForField(fields[i])
                E.check(bool(name) and f_eq(name.text(), attrs["form_label"]), f"{label}: wrong label in row {i}")
        elif kind == "grid":
            E.check(layout.count() == len(kids), f"{label}: wrong number of items in the grid")
            cells = {tuple(layout.getItemPosition(layout.indexOf(c))): c for c in layout_items(widget)}
            for k, attrs in kids:
                item = cells.get((attrs["grid_index"] + (1, 1))[:4])
                E.check(item is not None and f_eq(item.objectName(), k), f"{label}: wrong item in the grid")
        else:
            items = layout_items(widget)
            E.check(len(items) == len(kids), f"{label}: wrong number of items in the layout")
            for i, (item, (k, _)) in enumerate(zip(items, kids)):
                E.check(f_eq(item.objectName(), k), f"{label}: wrong item at {i}")
        hidden = [w for w in inside if w.isHidden()]
        E.check(len(hidden) == (max(len(kids) - 1, 0) if kind == "stacked" else 0), f"{label}: wrong items are visible")

    check(first, "initial")
    for step in range(1, steps):
        form = gen(step)
        state["form"] = Kids(form)
        check(form, f"step {step}")
    E.cover("end")
    dispose(renderer)


# -- attributes ---------------------------------------------------------------------

# attribute: (type, reads the value, some values)
ATTRS = {
    "text": (["label", "button", "standarditem"], lambda w: w.text()),
    "object_name": (["label", "button"], lambda w: w.objectName()),
    "tool_tip": (["label", "button"], lambda w: w.toolTip()),
    "enabled": (["label", "button"], lambda w: w.isEnabled()),
    "maximum_width": (["label", "button"], lambda w: w.maximumWidth()),
    "checkable": (["button"], lambda w: w.isCheckable()),
    "window-title": (["label", "button"], lambda w: w.windowTitle()),
    "own": (["label", "button"], lambda w: getattr(w, "own", None)),
    "placeholder_text": (["lineedit"], lambda w: w.placeholderText()),
    "read-only": (["lineedit"], lambda w: w.isReadOnly()),
    "checked": (["checkbox"], lambda w: w.isChecked()),
    "size": (["widget"], lambda w: (w.width(), w.height())),
    "minimum_size": (["widget"], lambda w: (w.minimumWidth(), w.minimumHeight())),
    "status_tip": (["action"], lambda w: w.statusTip()),
    "icon_text": (["action"], lambda w: w.iconText()),
    "extra": (["action", "standarditem", "treewidgetitem", "itemmodel"], lambda w: getattr(w, "extra", None)),
    "_mine": (["label"], lambda w: getattr(w, "_mine", None)),
}
KIND = {"enabled": "bool", "read-only": "bool", "checked": "bool", "extra": "any", "minimum_size": "size", "size": "size", "checkable": "bool", "maximum_width": "int", "own": "any", "_mine": "any"}


def attributes(E, steps=3, names=("text",), type="label", count=1, nones=False, particular=False, top=False):
    """Attributes have the value of the latest description; an attribute that is removed
    gets back the value that it had before"""
    app()
    restore_state()
    reset()
    types = [type] * count
    pristine = {}
    probe = PySideRenderer(autoshow=False).create_element(type)
    for a in names:
        pristine[a] = ATTRS[a][1](probe)

    def gen(step):
        out = []
        for i in range(count):
            attrs = {}
            for a in names:
                k = KIND.get(a)
                n = f"{a}{step}_{i}"
                # Qt setters don't accept None: only possible when there is no value to be replaced
                forms = ["absent", "value", "none"] if k == "any" or not pristine.get((a, i)) else ["absent", "value"]
                form = E.pick(f"has {a}{step}_{i}", forms) if nones else ["absent", "value"][E.boolean(f"has {a}{step}_{i}")]
                pristine[(a, i)] = form == "value"
                if form == "none":
                    attrs[a] = None
                elif form == "value":
                    if k == "bool":
                        attrs[a] = E.boolean(n)
                    elif k == "int":
                        attrs[a] = 10 + E.choice(n, 3)
                    elif k == "any":
                        attrs[a] = E.val(n)
                    elif k == "size":
                        attrs[a] = (10 + E.choice(n + "w", 2), 10 + E.choice(n + "h", 2))
                    else:
                        attrs[a] = any_text(E, n) if particular else E.text(n)
            out.append(attrs)
        return out

    first = gen(0)
    state = reactive({"attrs": Kids(first)})

    def Main(props):
        if top:
            return h(type, dict(props["attrs"].kids[0]))
        kids = [h(t, dict(a)) for t, a in zip(types, props["attrs"].kids)]
        if type == "action":
            return h("window", {}, h("menubar", {}, h("menu", {}, *kids)))
        if type == "standarditem":
            return h("treeview", {}, h("itemmodel", {}, *kids))
        if type == "treewidgetitem":
            return h("treewidget", {}, *kids)
        if type == "itemmodel":
            return h("treeview", {}, *kids)
        return h("window", {}, h("groupbox", {}, *kids))

    renderer = Spy()
    renderer.autoshow = top
    gui = Collagraph(renderer, event_loop_type=EventLoopType.SYNC)
    gui.render(h(Main, state), app())

    def check(current, label):
        nodes = [e for t, e in renderer.created if t == type]
        E.check(len(nodes) == count, "wrong number of elements")
        E.check(not top or nodes[0].isVisible(), "top level element is not visible")
        for i, (node, attrs) in enumerate(zip(nodes, current)):
            for a in names:
                value = attrs.get(a)
                E.check(f_eq(ATTRS[a][1](node), pristine[a] if value is None else value),
                        f"{label}: {a} of element {i} has the wrong value")

    check(first, "initial")
    for step in range(1, steps):
        current = gen(step)
        state["attrs"] = Kids(current)
        check(current, f"step {step}")
    E.cover("end")
    if top:
        renderer.created[0][1].close()
    dispose(renderer)


# property: (type, how it is read, how it is changed by the user, the values)
TOUCHED = {
    "text": ("lineedit", lambda w: w.text(), lambda w, v: w.setText(v), None),
    "plain-text": ("textedit", lambda w: w.toPlainText(), lambda w, v: w.setPlainText(v), None),
    "checked": ("checkbox", lambda w: w.isChecked(), lambda w, v: w.setChecked(v), [False, True]),
    "value": ("spinbox", lambda w: w.value(), lambda w, v: w.setValue(v), [0, 3, 5]),
    "enabled": ("button", lambda w: w.isEnabled(), lambda w, v: w.setEnabled(v), [False, True]),
    "tool-tip": ("label", lambda w: w.toolTip(), lambda w, v: w.setToolTip(v), None),
    "icon_text": ("action", lambda w: w.iconText(), lambda w, v: w.setIconText(v), None),
}


def touched(E, attr="text", count=2, steps=3):
    """Properties of elements can be changed by the user as well: that doesn't influence
    the values that are the result of later descriptions, for whatever element"""
    app()
    restore_state()
    reset()
    type, read, change, values = TOUCHED[attr]
    pristine = read(PySideRenderer(autoshow=False).create_element(type))
    restore_state()

    def value(name):
        return E.text(name) if values is None else E.pick(name, values)

    def gen(step):
        return [value(f"value{step}_{i}") if E.boolean(f"has{step}_{i}") else None for i in range(count)]

    first = gen(0)
    state = reactive({"values": Kids(first)})

    def Main(props):
        return h("widget", {}, *[h(type, {} if v is None else {attr: v}) for v in props["values"].kids])

    if type == "action":
        def Main(props):
            return h("window", {}, h("toolbar", {}, *[h(type, {} if v is None else {attr: v}) for v in props["values"].kids]))

    renderer = Spy()
    gui = Collagraph(renderer, event_loop_type=EventLoopType.SYNC)
    gui.render(h(Main, state), app())
    nodes = [e for t, e in renderer.created if t == type]
    E.check(len(nodes) == count, "wrong number of elements")
    current = first
    want = [pristine if v is None else v for v in first]
    for step in range(steps):
        if step:
            previous, current = current, gen(step)
            state["values"] = Kids(current)
            for i, (old, new) in enumerate(zip(previous, current)):
                if new is None:
                    want[i] = want[i] if old is None else pristine
                elif old is None:
                    want[i] = new
                else:
                    # The attribute is only set again when it is another value
                    E.assume(f_or(f_not(f_eq(old, new)), f_eq(want[i], new)))
                    want[i] = new
        for i in range(count):
            E.check(f_eq(read(nodes[i]), want[i]), f"step {step}: wrong {attr} of element {i}")
            if step < steps - 1 and E.boolean(f"change{step}_{i}"):
                want[i] = value(f"changed{step}_{i}")
                change(nodes[i], want[i])
    E.cover("end")
    dispose(renderer)


def visibility(E, n=2, steps=3, around="widget"):
    """Elements are visible unless they are described as not visible"""
    app()
    restore_state()
    reset()

    def gen(step):
        return [E.pick(f"visible{step}_{i}", [None, False, True]) for i in range(n)]

    first = gen(0)
    state = reactive({"values": Kids(first)})

    def Main(props):
        kids = [h("label", {} if v is None else {"visible": v}) for v in props["values"].kids]
        return h("window", {}, h(around, {}, *kids)) if around != "window" else h("window", {}, *kids)

    renderer = Spy()
    renderer.autoshow = True
    gui = Collagraph(renderer, event_loop_type=EventLoopType.SYNC)
    gui.render(h(Main, state), app())

    def check(current, label):
        for _ in range(2):
            QtWidgets.QApplication.processEvents()
        nodes = [e for t, e in renderer.created if t == "label"]
        E.check(len(nodes) == n, f"{label}: wrong number of elements")
        for i, (node, v) in enumerate(zip(nodes, current)):
            E.check(node.isVisible() == (v is not False), f"{label}: visibility of element {i}")

    check(first, "initial")
    for step in range(1, steps):
        current = gen(step)
        state["values"] = Kids(current)
        check(current, f"step {step}")
    E.cover("end")
    renderer.created[0][1].close()
    dispose(renderer)


# -- attributes that consist of several values ---------------------------------------

STANDARD = QtWidgets.QDialogButtonBox.StandardButton


def collections(E, kind="combobox", n=2, steps=3, absent=False):
    """Attributes with a number of values have precisely those of the latest description"""
    app()
    restore_state()
    reset()

    own = []

    def gen(step):
        if kind == "buttons":
            own.append(E.pick(f"own{step}", [None, "ActionRole", "AcceptRole"]))
        if absent and E.boolean(f"absent{step}"):
            return {}
        count = E.choice(f"n{step}", n + 1) if kind == "combobox" else None
        if kind == "combobox":
            return {"items": [E.text(f"item{step}_{i}") for i in range(count)]}
        if kind == "headers":
            return {"header_labels": [E.text(f"label{step}_{i}") for i in range(n)]}
        if kind == "buttons":
            return {"buttons": [f for i, f in enumerate(("Ok", "Cancel", "Help")[:n]) if E.boolean(f"{f}{step}")]}
        return {"content": {i: E.text(f"text{step}_{i}") for i in range(n) if E.boolean(f"has{step}_{i}")}}

    first = gen(0)
    state = reactive({"attrs": Kids(first)})

    def Main(props):
        attrs = dict(props["attrs"].kids)
        if kind == "combobox":
            return h("combobox", attrs)
        if kind == "buttons":
            kids = [h("button", {"role": own[-1], "text": "own"})] if own[-1] else []
            return h("dialogbuttonbox", attrs, *kids)
        if kind == "headers":
            return h("treewidget", attrs)
        return h("treewidget", {"column_count": n}, h("treewidgetitem", attrs))

    renderer = Spy()
    gui = Collagraph(renderer, event_loop_type=EventLoopType.SYNC)
    gui.render(h(Main, state), app())

    chosen = []

    def check(attrs, label):
        if kind == "combobox":
            box = renderer.find("combobox")
            items = [box.itemText(i) for i in range(box.count())]
            want = attrs.get("items", [])
            E.check(len(items) == len(want), f"{label}: wrong number of items")
            E.check(f_and(*[f_eq(a, b) for a, b in zip(items, want)]), f"{label}: wrong items")
            # What the user has chosen is left alone as long as it's possible
            if chosen and chosen[0] < len(want):
                E.check(box.currentIndex() == chosen[0], f"{label}: another item is the current one")
            del chosen[:]
            if len(want) > 1 and E.boolean(f"{label} choose"):
                chosen.append(E.choice(f"{label} chosen", len(want)))
                box.setCurrentIndex(chosen[0])
        elif kind == "headers":
            item = renderer.find("treewidget").headerItem()
            E.check(item.columnCount() == n, f"{label}: wrong number of columns")
            for i, text in enumerate(attrs["header_labels"]):
                E.check(f_eq(item.text(i), text), f"{label}: wrong label of column {i}")
        elif kind == "buttons":
            box = renderer.find("dialogbuttonbox")
            buttons = [box.standardButton(b) for b in box.buttons()]
            want = [getattr(STANDARD, f) for f in attrs.get("buttons", [])] + [STANDARD.NoButton] * bool(own[-1])
            E.check(sorted(b.value for b in buttons) == sorted(b.value for b in want), f"{label}: wrong buttons")
        else:
            item = renderer.find("treewidgetitem")
            for i in range(n):
                E.check(f_eq(item.text(i), attrs.get("content", {}).get(i, "")), f"{label}: wrong text in column {i}")

    check(first, "initial")
    for step in range(1, steps):
        attrs = gen(step)
        state["attrs"] = Kids(attrs)
        check(attrs, f"step {step}")
    E.cover("end")
    dispose(renderer)


# -- attributes that determine the place or the state within the container ----------

DOCK, BAR = QtCore.Qt.DockWidgetArea, QtCore.Qt.ToolBarArea
ROLES = QtWidgets.QDialogButtonBox.ButtonRole
MULTI = QtWidgets.QAbstractItemView.SelectionMode.MultiSelection
PLACEMENT = {
    "tab_label": None,
    "expanded": [False, True],
    "selected": [False, True],
    "dock": [DOCK.LeftDockWidgetArea, DOCK.RightDockWidgetArea, DOCK.BottomDockWidgetArea],
    "toolbar": [BAR.LeftToolBarArea, BAR.RightToolBarArea, BAR.TopToolBarArea],
    "role": ["AcceptRole", "RejectRole", ROLES.HelpRole],
}
UNSET = {"tab_label": "", "expanded": False, "selected": False, "toolbar": BAR.TopToolBarArea}


def placement(E, kind="tab_label", n=2, steps=2, nested=False, absent=False):
    """Attributes that have their effect through the container of the element"""
    app()
    restore_state()
    reset()

    def gen(step):
        count = E.choice(f"n{step}", n) + 1
        keys = [E.text(f"key{step}_{i}") for i in range(count)]
        E.distinct(keys)
        out = []
        for i, k in enumerate(keys):
            if absent and E.boolean(f"absent{step}_{i}"):
                out.append((k, None))
            elif PLACEMENT[kind] is None:
                out.append((k, any_text(E, f"value{step}_{i}", plain=("", " x ")) if absent else E.text(f"value{step}_{i}")))
            else:
                out.append((k, E.pick(f"value{step}_{i}", PLACEMENT[kind])))
        return out

    def when(v, name):
        return {} if v is None else {name: v}

    first = gen(0)
    state = reactive({"kids": Kids(first)})

    def Main(props):
        kids = props["kids"].kids
        if kind == "tab_label":
            return h("QTabWidget", {}, *[h("label", {"key": k, "object_name": k, **when(v, "tab_label")}) for k, v in kids])
        if kind in ("expanded", "selected"):
            def item(k, v, key):
                attrs = {"key": key, "content": {0: k}, **when(v, kind)}
                return h("treewidgetitem", attrs, h("treewidgetitem", {"content": {0: "inner"}}))

            if nested:
                items = [h("treewidgetitem", {"key": k, "content": {0: "outer"}}, item(k, v, None)) for k, v in kids]
            else:
                items = [item(k, v, k) for k, v in kids]
            return h("treewidget", {"selection_mode": MULTI}, *items)
        if kind == "dock":
            return h("window", {}, *[h("dock", {"key": k, "object_name": k, "area": v}) for k, v in kids])
        if kind == "toolbar":
            return h("window", {}, *[h("toolbar", {"key": k, "object_name": k, **when(v, "area")}) for k, v in kids])
        if kind == "role":
            return h("dialogbuttonbox", {}, *[h("button", {"key": k, "object_name": k, "role": v}) for k, v in kids])
        raise KeyError(kind)

    renderer = Spy()
    gui = Collagraph(renderer, event_loop_type=EventLoopType.SYNC)
    gui.render(h(Main, state), app())

    def check(kids, label):
        found = []
        if kind == "tab_label":
            tabs = renderer.find("QTabWidget")
            found = [(tabs.widget(i).objectName(), tabs.tabText(i)) for i in range(tabs.count())]
        elif kind in ("expanded", "selected"):
            tree = renderer.find("treewidget")
            items = [tree.topLevelItem(i) for i in range(tree.topLevelItemCount())]
            for item in items:
                item = item.child(0) if nested else item
                found.append((item.text(0), item.isExpanded() if kind == "expanded" else item.isSelected()))
        elif kind == "role":
            box = renderer.find("dialogbuttonbox")
            found = [(b.objectName(), box.buttonRole(b)) for b in box.buttons()]
        else:
            window = renderer.find("window")
            cls = QtWidgets.QDockWidget if kind == "dock" else QtWidgets.QToolBar
            area = window.dockWidgetArea if kind == "dock" else window.toolBarArea
            found = [(c.objectName(), area(c)) for c in window.children() if isinstance(c, cls)]
        E.check(len(found) == len(kids), f"{label}: wrong number of elements")
        for k, v in kids:
            if v is None:
                v = UNSET[kind]
            if kind == "role":
                v = getattr(ROLES, v) if isinstance(v, str) else v
            E.check(f_or(*[f_and(f_eq(name, k), f_eq(value, v)) for name, value in found]), f"{label}: wrong {kind}")

    check(first, "initial")
    for step in range(1, steps):
        kids = gen(step)
        state["kids"] = Kids(kids)
        check(kids, f"step {step}")
    E.cover("end")
    dispose(renderer)


# -- views with models ----------------------------------------------------------------


def views(E, kind="treeview", steps=3):
    """Views use the model and the selection model of the latest description"""
    app()
    restore_state()
    reset()

    def gen(step):
        form = E.choice(f"form{step}", 3)
        model = E.text(f"model{step}") if form else None
        return model, E.text(f"selection{step}") if form == 2 else None

    first = gen(0)
    state = reactive({"models": Kids(first)})

    def Main(props):
        model, selection = props["models"].kids
        kids = []
        if model:
            kids.append(h("itemmodel", {"key": ("model", model), "object_name": model}))
        if selection:
            kids.append(h("itemselectionmodel", {"key": ("selection", selection), "object_name": selection}))
        return h(kind, {}, *kids)

    renderer = Spy()
    gui = Collagraph(renderer, event_loop_type=EventLoopType.SYNC)
    gui.render(h(Main, state), app())

    def check(models, label):
        view = renderer.find(kind)
        model, selection = models
        if model is None:
            E.check(view.model() is None, f"{label}: the model is still used")
        else:
            E.check(view.model() is not None and f_eq(view.model().objectName(), model), f"{label}: wrong model")
            E.check(view.selectionModel().model() is view.model(), f"{label}: model of selection model")
        name = view.selectionModel().objectName() if view.selectionModel() else ""
        E.check(f_eq(name, "" if selection is None else selection), f"{label}: wrong selection model")

    check(first, "initial")
    for step in range(1, steps):
        models = gen(step)
        state["models"] = Kids(models)
        check(models, f"step {step}")
    E.cover("end")
    dispose(renderer)


def cells(E, n=2, rows=3, columns=2, steps=2, nested=False):
    """Items are at the row and column of their model_index. NOTE: items that take the
    cell of another item are out of scope, and so is removal of items"""
    app()
    restore_state()
    reset()

    def gen(step, before):
        out = []
        for i in range(n):
            cell = E.choice(f"cell{step}_{i}", rows * columns)
            for j in range(n):
                if j != i:
                    E.assume(before is None or cell != before[j])
                    E.assume(j >= i or cell != out[j])
            out.append(cell)
        return out

    reset()
    first = gen(0, None)
    texts = [E.text(f"text{i}") for i in range(n)]
    state = reactive({"cells": Kids(first)})

    def Main(props):
        items = [h("standarditem", {"text": t, "model_index": (c // columns, c % columns)})
                 for t, c in zip(texts, props["cells"].kids)]
        if nested:
            items = [h("standarditem", {}, *items)]
        return h("treeview", {}, h("itemmodel", {}, *items))

    renderer = Spy()
    gui = Collagraph(renderer, event_loop_type=EventLoopType.SYNC)
    gui.render(h(Main, state), app())

    def check(where, label):
        model = renderer.find("itemmodel")
        if nested:
            top = model.item(0)
            found = {(r, c): top.child(r, c) for r in range(top.rowCount()) for c in range(top.columnCount())}
        else:
            found = {(r, c): model.item(r, c) for r in range(model.rowCount()) for c in range(model.columnCount())}
        found = {cell: item.text() for cell, item in found.items() if item is not None}
        E.check(len(found) == n, f"{label}: wrong number of items")
        for t, c in zip(texts, where):
            E.check(f_eq(found.get((c // columns, c % columns)), t), f"{label}: item is not at its cell")

    check(first, "initial")
    for step in range(1, steps):
        first = gen(step, first)
        state["cells"] = Kids(first)
        check(first, f"step {step}")
    E.cover("end")
    dispose(renderer)


# -- visibility ------------------------------------------------------------------------

SHOWN = {
    "widget": (lambda kids: h("widget", {}, *kids), 2),
    "splitter": (lambda kids: h("QSplitter", {}, *kids), 2),
    "tabs": (lambda kids: h("QTabWidget", {}, *kids), 2),
    "statusbar": (lambda kids: h("window", {}, h("statusbar", {}, *kids)), 2),
    "toolbar": (lambda kids: h("window", {}, h("toolbar", {}, *kids)), 2),
    "docks": (lambda kids: h("window", {}, *kids), 2),
    "buttons": (lambda kids: h("dialogbuttonbox", {}, *kids), 2),
    "scrollarea": (lambda kids: h("scrollarea", {}, *kids), 1),
    "dock": (lambda kids: h("window", {}, h("dock", {"area": DOCK.LeftDockWidgetArea}, *kids)), 1),
    "window": (lambda kids: h("window", {}, *kids), 1),
    "dialog": (lambda kids: h("window", {}, *kids), 2),
}


def shown(E, kind="widget", steps=2, n=None):
    """What is described is visible, also when it is added or moved later on, and
    what isn't described anymore is not"""
    app()
    restore_state()
    reset()
    around, most = SHOWN[kind]
    type = {"docks": "dock", "dialog": "QDialog", "buttons": "button"}.get(kind, "label")
    extra = {"docks": {"area": DOCK.LeftDockWidgetArea}, "buttons": {"role": "ActionRole"}}.get(kind, {})
    signals = []
    if kind == "dialog":
        # It's not the user who closes dialogs that are not described anymore
        extra = {f"on_{name}": (lambda *args, name=name: signals.append(name)) for name in ("finished", "rejected", "accepted")}

    def gen(step):
        count = E.choice(f"n{step}", (n or most) + 1)
        keys = [E.text(f"key{step}_{i}") for i in range(count)]
        E.distinct(keys)
        return keys

    first = gen(0)
    state = reactive({"keys": Kids(first)})

    def Main(props):
        return around([h(type, {"key": k, "object_name": k, **extra}) for k in props["keys"].kids])

    renderer = Spy()
    renderer.autoshow = True
    gui = Collagraph(renderer, event_loop_type=EventLoopType.SYNC)
    gui.render(h(Main, state), app())
    top = renderer.created[0][1]

    def check(keys, label):
        for _ in range(3):
            QtWidgets.QApplication.processEvents()
            QtCore.QCoreApplication.sendPostedEvents(None, QtCore.QEvent.Type.DeferredDelete)
        E.check(top.isVisible(), f"{label}: top level element is not visible")
        cls = {"dock": QtWidgets.QDockWidget, "QDialog": QtWidgets.QDialog, "button": QtWidgets.QPushButton}.get(type, QtWidgets.QLabel)
        found = [w for w in top.findChildren(cls) if w.objectName() and not w.isHidden()]
        want = keys
        if kind == "tabs":
            E.check(len(found) == min(len(keys), 1), f"{label}: wrong number of visible tabs")
            return
        E.check(len(found) == len(want), f"{label}: wrong number of visible elements")
        E.check(kind != "dialog" or all(w.isWindow() for w in found), f"{label}: dialog is not a window")
        E.check(not signals, f"{label}: dialog acts as if it was closed by the user")
        for k in want:
            E.check(f_or(*[f_eq(w.objectName(), k) for w in found]), f"{label}: element is not visible")
            E.check(f_and(*[w.isVisible() for w in found]), f"{label}: element is not visible")

    check(first, "initial")
    for step in range(1, steps):
        keys = gen(step)
        state["keys"] = Kids(keys)
        check(keys, f"step {step}")
    E.cover("end")
    top.close()
    dispose(renderer)


# -- attributes of layouts and of elements of different types -------------------------

DIRECTION = QtWidgets.QBoxLayout.Direction


def layout_attributes(E, kind="grid", steps=2):
    """Layouts have the attributes of the latest description"""
    app()
    restore_state()
    reset()

    def gen(step):
        out = {"type": kind, "spacing": 1 + E.choice(f"spacing{step}", 2),
               "contents_margins": (1 + E.choice(f"margin{step}", 2), 3, 4, 5)}
        if kind == "box":
            out["direction"] = E.pick(f"direction{step}", ["TopToBottom", "LeftToRight", "RightToLeft", "BottomToTop"])
        if kind == "grid":
            out["column_stretch"] = [(i, E.choice(f"column{step}_{i}", 2)) for i in range(2)]
            out["row_stretch"] = [(i, E.choice(f"row{step}_{i}", 1 + i)) for i in range(2)]
        return out

    first = gen(0)
    state = reactive({"layout": Kids(first)})

    def Main(props):
        kids = [h("label", {"grid_index": (i, i), "form_label": "label", "form_index": i}) for i in range(2)]
        return h("widget", {"layout": dict(props["layout"].kids)}, *kids)

    renderer = Spy()
    gui = Collagraph(renderer, event_loop_type=EventLoopType.SYNC)
    gui.render(h(Main, state), app())

    def check(want, label):
        layout = renderer.find("widget").layout()
        E.check(isinstance(layout, LAYOUTS[kind]), f"{label}: wrong kind of layout")
        E.check(layout.spacing() == want["spacing"], f"{label}: spacing")
        margins = layout.contentsMargins()
        E.check((margins.left(), margins.top(), margins.right(), margins.bottom()) == want["contents_margins"], f"{label}: margins")
        if kind == "box":
            E.check(layout.direction() == getattr(DIRECTION, want["direction"]), f"{label}: direction")
        if kind == "grid":
            E.check([(i, layout.columnStretch(i)) for i in range(2)] == want["column_stretch"], f"{label}: stretch of columns")
            E.check([(i, layout.rowStretch(i)) for i in range(2)] == want["row_stretch"], f"{label}: stretch of rows")
        E.check(len(layout_items(renderer.find("widget"))) == (4 if kind == "form" else 2), f"{label}: wrong number of items")

    check(first, "initial")
    for step in range(1, steps):
        current = gen(step)
        state["layout"] = Kids(current)
        check(current, f"step {step}")
    E.cover("end")
    dispose(renderer)


# properties of which the default depends on the type of the element
MIXED = {
    "checkable": (["button", "checkbox", "groupbox"], lambda w: w.isCheckable(), [False, True]),
    "focus_policy": (["label", "button", "slider"], lambda w: w.focusPolicy(), [QtCore.Qt.FocusPolicy.TabFocus, QtCore.Qt.FocusPolicy.NoFocus]),
    "maximum": (["slider", "spinbox", "progressbar"], lambda w: w.maximum(), [5, 7]),
}


def mixed(E, attr="checkable", n=2, steps=3):
    """The default of an attribute is that of the type of the element, however many
    elements of other types have an attribute of that name"""
    app()
    restore_state()
    reset()
    options, read, values = MIXED[attr]
    pristine = {t: read(PySideRenderer(autoshow=False).create_element(t)) for t in options}
    types = [E.pick(f"type{i}", options) for i in range(n)]

    def gen(step):
        return [E.pick(f"value{step}_{i}", [None, *values]) for i in range(n)]

    first = gen(0)
    state = reactive({"values": Kids(first)})

    def Main(props):
        return h("widget", {}, *[h(t, {attr: v} if v is not None else {}) for t, v in zip(types, props["values"].kids)])

    renderer = Spy()
    gui = Collagraph(renderer, event_loop_type=EventLoopType.SYNC)
    gui.render(h(Main, state), app())

    def check(current, label):
        nodes = [e for t, e in renderer.created if t != "widget"]
        E.check(len(nodes) == n, f"{label}: wrong number of elements")
        for t, node, v in zip(types, nodes, current):
            E.check(f_eq(read(node), pristine[t] if v is None else v), f"{label}: wrong {attr} of {t}")

    check(first, "initial")
    for step in range(1, steps):
        current = gen(step)
        state["values"] = Kids(current)
        check(current, f"step {step}")
    E.cover("end")
    dispose(renderer)


def messages(E, steps=3):
    """The text of a status bar"""
    app()
    restore_state()
    reset()
    texts = [E.text(f"text{i}") for i in range(steps)]
    timed = [E.pick(f"timed{i}", [False, True, None]) for i in range(steps)]
    state = reactive({"text": Kids((texts[0], timed[0]))})

    def Main(props):
        text, timed = props["text"].kids
        attrs = {} if timed is None else {"text": (text, 10_000) if timed else text}
        return h("window", {}, h("statusbar", {**attrs, "object_name": text}))

    renderer = Spy()
    gui = Collagraph(renderer, event_loop_type=EventLoopType.SYNC)
    gui.render(h(Main, state), app())
    for i in range(steps):
        if i:
            state["text"] = Kids((texts[i], timed[i]))
        bar = renderer.find("statusbar")
        E.check(f_eq(bar.currentMessage(), "" if timed[i] is None else texts[i]), f"step {i}: wrong message")
        E.check(f_eq(bar.objectName(), texts[i]), f"step {i}: wrong name")
    E.cover("end")
    dispose(renderer)


# -- types and registrations ----------------------------------------------------------

NAMES = {
    "button": "QPushButton", "check-box": "QCheckBox", "combo_box": "QComboBox", "label": "QLabel", "line-edit": "QLineEdit",
    "menu": "QMenu", "menu-bar": "QMenuBar", "radio_button": "QRadioButton", "dialog-button-box": "QDialogButtonBox",
    "group-box": "QGroupBox", "progress_bar": "QProgressBar", "scroll-area": "QScrollArea", "slider": "QSlider",
    "spin_box": "QSpinBox", "status-bar": "QStatusBar", "text-edit": "QTextEdit", "tool-bar": "QToolBar",
    "tree-view": "QTreeView", "tree_widget": "QTreeWidget", "tree-widget-item": "QTreeWidgetItem", "widget": "QWidget",
    "window": "QMainWindow", "dock": "QDockWidget", "action": "QAction", "item_model": "QStandardItemModel",
    "item-selection-model": "QItemSelectionModel", "standard-item": "QStandardItem",
}
OTHERS = ["QWidget", "QDial", "QTabWidget", "QListView", "QStandardItem", "QAction", "QTimer", "QFormLayout", "QSplitter",
          "QTextOption.Tab", "QTextLayout.FormatRange"]
SPELLING = {
    "as is": lambda name: name,
    "joined": lambda name: name.replace("-", "").replace("_", ""),
    "upper": lambda name: name.upper(),
    "words": lambda name: "".join(part.capitalize() for part in name.replace("_", "-").split("-")),
    "dashes": lambda name: name.replace("_", "-"),
    "underscores": lambda name: name.replace("-", "_"),
    "separated": lambda name: "-".join(name.replace("-", "").replace("_", "")),
}


def qt_class(name):
    name, *inner = name.split(".")
    cls = next(getattr(m, name) for m in (QtWidgets, QtGui, QtCore) if hasattr(m, name))
    for name in inner:
        cls = getattr(cls, name)
    return cls


def types(E, names=None, others=(), count=1):
    """The name of a type gives an object of that type, in whatever way it is written"""
    app()
    restore_state()
    renderer = PySideRenderer(autoshow=False)
    for i in range(count):
        options = [*(names or ()), *others]
        name = E.pick(f"name{i}", options)
        if name in NAMES:
            written = SPELLING[E.pick(f"spelling{i}", list(SPELLING))](name)
            want = qt_class(NAMES[name])
        else:
            written = E.pick(f"spelling{i}", [name, name.lower(), name.upper()])
            want = qt_class(name)
        element = renderer.create_element(written)
        E.check(type(element).__mro__[1] is want, f"{written} is not a {want}")
        for method in ("insert", "remove", "set_attribute"):
            E.check(callable(getattr(element, method, None)), f"{written} has no {method}")
    E.cover("end")


class Base(QtWidgets.QWidget):
    pass


class Middle(Base):
    pass


class Leaf(Middle):
    pass


class Other(Base):
    pass


class CustomBox(QtWidgets.QBoxLayout):
    def __init__(self):
        super().__init__(DIRECTION.TopToBottom)


class CustomGrid(QtWidgets.QGridLayout):
    pass


OPERATIONS = ("insert", "remove", "set_attr")


def registrations(E, count=2, operation="insert"):
    """Elements use the operations that are registered for the nearest class, in
    whatever order they are registered"""
    app()
    restore_state()
    reset()
    classes = [QtWidgets.QWidget, Base, Middle, Leaf, Other]
    custom = classes[1:]
    registered = {}
    for i in range(count):
        cls = E.pick(f"class{i}", custom)
        E.assume(cls not in registered)
        registered[cls] = i
    done = []

    def make(cls, original):
        def operation(self, *args, **kwargs):
            done.append((cls, self))
            return original(self, *args, **kwargs)

        return operation

    spelled = {}
    for cls in custom:
        spelled[cls] = E.pick(f"name {cls.__name__}", ["{}-element", "{}_Element", "{}Element"][:2 if cls is Leaf else 1]).format(cls.__name__)
        PySideRenderer.register_element(spelled[cls], cls)
    from collagraph.renderers.pyside.objects import widget
    functions = {"insert": widget.insert, "remove": widget.remove, "set_attr": widget.set_attribute}
    for cls in registered:
        register = getattr(PySideRenderer, f"register_{operation}")
        if E.boolean(f"decorator {cls.__name__}"):
            register(cls)(make(cls, functions[operation]))
        else:
            register(cls, func=make(cls, functions[operation]))

    kind = E.pick("kind", custom)
    name = E.pick("spelling", [spelled[kind], spelled[kind].lower().replace("-", "").replace("_", "")])
    label = E.text("label")
    state = reactive({"full": True})

    def Main(props):
        kids = [h("label", {})] if props["full"] else []
        return h(name, {"object_name": label}, *kids)

    renderer = Spy()
    gui = Collagraph(renderer, event_loop_type=EventLoopType.SYNC)
    gui.render(h(Main, state), app())
    element = renderer.find(name)
    E.check(type(element).__mro__[1] is kind, "element has the wrong type")
    E.check(f_eq(element.objectName(), label), "attribute was not set")
    E.check(len(layout_items(element)) == 1, "child was not inserted")
    state["full"] = False
    E.check(len(layout_items(element)) == 0, "child was not removed")
    nearest = [cls for cls in kind.__mro__ if cls in registered]
    want = [(nearest[0], element)] if nearest else []
    E.check(len(done) == len(want) and all(a[0] is b[0] and a[1] is b[1] for a, b in zip(done, want)),
            "not the operations of the nearest class")
    E.cover("end")
    dispose(renderer)


def custom_layouts(E):
    """Layouts and attributes that are registered work like the others"""
    app()
    restore_state()
    reset()
    cls = E.pick("class", [CustomBox, CustomGrid])
    name = E.pick("name", ["my-layout", "My_Layout", "mylayout", "MYLAYOUT"])
    used = E.pick("used", ["my-layout", "my_layout", "MyLayout"])
    PySideRenderer.register_layout(name, cls)
    calls = []

    def special(self, attr, value):
        calls.append((attr, value))

    names = ["special"] if E.boolean("one") else ["special", "other"]
    if E.boolean("decorator"):
        PySideRenderer.register_custom_attribute(*names)(special)
    else:
        PySideRenderer.register_custom_attribute(*names, func=special)
    values = [E.val("value0"), E.val("value1")]
    state = reactive({"value": Kids(values[0])})

    def Main(props):
        value = props["value"].kids
        kids = [h("label", {"grid_index": (0, i), "object_name": f"label {i}"}) for i in range(2)]
        return h("widget", {"layout": {"type": used}, "special": value, "other": value}, *kids)

    renderer = Spy()
    gui = Collagraph(renderer, event_loop_type=EventLoopType.SYNC)
    gui.render(h(Main, state), app())
    element = renderer.find("widget")
    E.check(isinstance(element.layout(), cls), "wrong layout")
    E.check([w.objectName() for w in layout_items(element)] == ["label 0", "label 1"], "wrong items")

    def check(value, label):
        E.check(len(calls) == len(names), f"{label}: custom attributes")
        for n in names:
            E.check(f_or(*[f_and(f_eq(n, a), f_eq(v, value)) for a, v in calls]), f"{label}: custom attribute {n}")
        E.check(("other" in names) or f_eq(getattr(element, "other", None), value), f"{label}: other attribute")
        del calls[:]

    check(values[0], "initial")
    same = f_eq(values[0], values[1])
    E.assume(f_not(same))
    state["value"] = Kids(values[1])
    check(values[1], "update")
    E.cover("end")
    dispose(renderer)


# -- event listeners ------------------------------------------------------------------

LOG = []


class Methods:
    """Bound methods"""

    def __init__(self, tag):
        self.tag = tag

    def handle(self, *args):
        LOG.append(("method", self.tag))

    def __call__(self, *args):
        LOG.append(("callable", self.tag))


@dataclasses.dataclass
class Mutable:
    """Not hashable"""

    tag: object

    def __call__(self, *args):
        LOG.append(("mutable", self.tag))


def log_partial(tag, *args):
    LOG.append(("partial", tag))


def make_handler(kind, tag):
    """-> handler, what is logged when it's called"""
    if kind == "closure":
        return (lambda *args: LOG.append(("closure", tag))), ("closure", tag)
    if kind == "noargs":
        return (lambda: LOG.append(("noargs", tag))), ("noargs", tag)
    if kind == "partial":
        return functools.partial(log_partial, tag), ("partial", tag)
    if kind == "method":
        return Methods(tag).handle, ("method", tag)
    if kind == "callable":
        return Methods(tag), ("callable", tag)
    if kind == "mutable":
        return Mutable(tag), ("mutable", tag)
    if kind == "default":
        return (lambda *args, tag=tag: LOG.append(("default", tag))), ("default", tag)
    raise KeyError(kind)


def fire(node, event):
    if event == "clicked":
        node.click()
    elif event in ("pressed", "released"):
        getattr(node, event).emit()
    elif event in ("text_changed", "text-changed"):
        node.textChanged.emit("some text")
    elif event == "mouse_button_press" or event == "mouse-button-press":
        pos = QtCore.QPointF(1, 1)
        ev = QtGui.QMouseEvent(QtCore.QEvent.Type.MouseButtonPress, pos, pos, QtCore.Qt.MouseButton.RightButton,
                               QtCore.Qt.MouseButton.RightButton, QtCore.Qt.KeyboardModifier.NoModifier)
        QtWidgets.QApplication.sendEvent(node, ev)
    elif event == "enter":
        QtWidgets.QApplication.sendEvent(node, QtCore.QEvent(QtCore.QEvent.Type.Enter))


def listeners(E, steps=3, kinds=("none", "closure", "partial", "method"), events=("clicked",), type="button", count=1, own=False):
    """Signals and events call exactly the current handlers"""
    app()
    restore_state()
    reset()
    del LOG[:]

    def gen(step):
        out = []
        for i in range(count):
            on = {}
            for ev in events:
                kind = E.pick(f"kind{step}_{i}_{ev}", list(kinds))
                if kind != "none":
                    on[ev] = make_handler(kind, E.val(f"tag{step}_{i}_{ev}"))
            out.append(on)
        return out

    first = gen(0)
    state = reactive({"on": Kids(first)})

    def Main(props):
        return h("widget", {}, *[h(type, {f"on_{ev}": fn for ev, (fn, _) in on.items()}) for on in props["on"].kids])

    renderer = Spy()
    gui = Collagraph(renderer, event_loop_type=EventLoopType.SYNC)
    gui.render(h(Main, state), app())

    def check(current, label):
        nodes = layout_items(renderer.find("widget"))
        E.check(len(nodes) == count, "wrong number of elements")
        if own and label == "initial":
            # Connections of the application itself
            for node in nodes:
                getattr(node, own).connect(lambda *args: LOG.append(("own", 0)))
        for i, (node, on) in enumerate(zip(nodes, current)):
            for ev in events:
                del LOG[:]
                fire(node, ev)
                want = [on[ev][1]] if ev in on else []
                want += [("own", 0)] * (ev == own)
                E.check(perm_eq(list(LOG), want), f"{label}: wrong handlers are called for {ev} of element {i}")
        del LOG[:]

    check(first, "initial")
    for step in range(1, steps):
        current = gen(step)
        state["on"] = Kids(current)
        check(current, f"step {step}")
    E.cover("end")
    dispose(renderer)


def reaches(E, steps=3, event="key_press"):
    """Elements still handle the events themselves, whatever the result of the handlers"""
    app()
    restore_state()
    reset()
    del LOG[:]
    results = [None, True, False, 0, "x", [0]]

    def gen(step):
        return E.pick(f"result{step}", [*results, "none"])

    def make(result):
        def handle(event):
            LOG.append("key")
            return result

        return handle

    first = gen(0)
    state = reactive({"on": Kids(first)})

    def Main(props):
        result = props["on"].kids
        return h("widget", {}, h("lineedit", {} if result == "none" else {f"on_{event}": make(result)}))

    renderer = Spy()
    gui = Collagraph(renderer, event_loop_type=EventLoopType.SYNC)
    gui.render(h(Main, state), app())
    want = ""
    for step in range(steps):
        if step:
            first = gen(step)
            state["on"] = Kids(first)
        edit = renderer.find("lineedit")
        del LOG[:]
        letter = "abcde"[step]
        ev = QtGui.QKeyEvent(QtCore.QEvent.Type.KeyPress, QtCore.Qt.Key.Key_A, QtCore.Qt.KeyboardModifier.NoModifier, letter)
        QtWidgets.QApplication.sendEvent(edit, ev)
        want += letter
        E.check(LOG == ([] if first == "none" else ["key"]), f"step {step}: wrong handlers are called")
        E.check(edit.text() == want, f"step {step}: the element itself doesn't handle the event")
    del LOG[:]
    E.cover("end")
    dispose(renderer)


def comeback(E, steps=4, events=("clicked",), type="button", pool=("method", "method", "closure"), replace=False, fires=2):
    """Handlers that are used before come back later on (possibly on another event of the
    same element). With `replace`, the handler that is called results in an update which
    replaces (or removes) the handler while the event is being handled."""
    app()
    restore_state()
    reset()
    del LOG[:]
    made = []
    for i, kind in enumerate(pool):
        tag = E.val(f"tag{i}")
        made.append((Methods(tag), ("method", tag)) if kind == "method" else make_handler(kind, tag))

    def handler(i):
        # Bound methods are equal to each other, but not the same
        return made[i][0].handle if pool[i] == "method" else made[i][0]

    state = reactive({"on": {}, "n": 0})

    def fresh(kind, ev, n):
        def handle(*args):
            LOG.append((kind, ev, n))
            state["n"] = n + 1
            if kind == "once":
                state["on"].pop(ev)

        return handle

    def Main(props):
        on = {}
        for ev, which in props["on"].items():
            on[f"on_{ev}"] = handler(which) if isinstance(which, int) else fresh(which, ev, props["n"])
        return h("widget", {}, h(type, on))

    renderer = Spy()
    gui = Collagraph(renderer, event_loop_type=EventLoopType.SYNC)
    for step in range(steps):
        on = {}
        for ev in events:
            options = ["none", *range(len(pool)), *(["fresh", "once"] if replace else [])]
            which = E.pick(f"which{step}_{ev}", options)
            if which != "none":
                on[ev] = which
        state["on"] = dict(on)
        if step == 0:
            gui.render(h(Main, state), app())
        (node,) = layout_items(renderer.find("widget"))
        for nr in range(fires):
            for ev in events:
                del LOG[:]
                n = state["n"]
                fire(node, ev)
                which = on.get(ev)
                if which is None:
                    want = []
                elif isinstance(which, int):
                    want = [made[which][1]]
                else:
                    want = [(which, ev, n)]
                    if which == "once":
                        on.pop(ev)
                E.check(perm_eq(list(LOG), want), f"step {step}: wrong handlers are called for {ev}")
    del LOG[:]
    E.cover("end")
    dispose(renderer)


app_types = ["widget", "label", "button", "lineedit"]
save_state()

QT_STUBS = ["PySide6 with the offscreen platform, no event loop running"]
CHECKS = {}
ALL = list(CONTAINERS)
SINGLE = ["menubar", "itemmodel", "item", "treewidget", "treeitem"]
PLURAL = [k for k in ALL if k not in SINGLE]
CHECKS["C22"] = Check("C22", [
    Harness("containers", containers,
            quick=[dict(kind=k, n=3, steps=2) for k in SINGLE] + [dict(kind=k, n=2, steps=2) for k in PLURAL]
            + [dict(kind=k, n=2, steps=2, virtual=["tmpl", "part"], types=[CONTAINERS[k][3][-1]]) for k in ("widget", "menu", "toolbar")],
            thorough=[dict(kind=k, n=4, steps=2) for k in SINGLE] + [dict(kind=k, n=3, steps=2) for k in PLURAL]
            + [dict(kind=k, n=2, steps=3) for k in ALL]
            + [dict(kind=k, n=2, steps=2, virtual=["tmpl", "part"]) for k in ALL],
            bounds="n = max number of (keyed) children, of each of the listed types; steps = number of descriptions; keys are symbolic",
            covers=["end"], crashy=True),
    Harness("places", places,
            quick=[dict(kind="window", steps=2), dict(kind="dock", steps=2), dict(kind="scrollarea", steps=3)],
            thorough=[dict(kind="window", steps=3), dict(kind="dock", steps=3), dict(kind="scrollarea", steps=4)],
            bounds="steps = number of descriptions; each of the places is empty or has a child of one of the types, names are symbolic",
            covers=["end"], crashy=True),
    Harness("layouts", layouts,
            quick=[dict(kinds=["form"], n=3), dict(kinds=["form"], n=2, steps=3), dict(kinds=["form"], n=2, indexed=False),
                   dict(kinds=["form"], n=3, indexed="first", steps=1), dict(kinds=["grid"], n=1, spans=True, steps=3),
                   dict(kinds=["grid"]), dict(kinds=list(LAYOUTS), columns=1)],
            thorough=[dict(kinds=["form"], n=4), dict(kinds=["form"], n=3, steps=3), dict(kinds=["form"], n=3, indexed=False),
                      dict(kinds=["form"], n=4, indexed="first", steps=1), dict(kinds=["grid"], n=2, spans=True),
                      dict(kinds=["grid"], n=3), dict(kinds=list(LAYOUTS), n=3), dict(kinds=list(LAYOUTS), n=2, steps=3, columns=1)],
            bounds="n = max number of (keyed) children; steps = number of descriptions, each with one of the kinds of layouts; columns = of the grid, which has 2 rows; keys, labels and cells are symbolic",
            covers=["end"], crashy=True),
    Harness("views", views,
            quick=[dict(kind="treeview", steps=3), dict(kind="QListView", steps=2), dict(kind="QTableView", steps=2)],
            thorough=[dict(kind=k, steps=4) for k in ("treeview", "QListView", "QTableView")],
            bounds="steps = number of descriptions of a view with or without a (selection) model, of which the keys are symbolic",
            covers=["end"], crashy=True),
    Harness("cells", cells,
            quick=[dict(n=2), dict(n=1, steps=3), dict(n=2, nested=True, rows=2)],
            thorough=[dict(n=3), dict(n=2, steps=3), dict(n=1, steps=5), dict(n=2, nested=True)],
            bounds="n = number of items with a symbolic model_index; steps = number of descriptions, no two items ever ask for the same cell",
            covers=["end"], crashy=True),
    Harness("shown", shown,
            quick=[dict(kind=k) for k in SHOWN] + [dict(kind=k, steps=3) for k in ("widget", "splitter", "statusbar", "toolbar", "scrollarea", "dock", "window")],
            thorough=[dict(kind=k, steps=3) for k in SHOWN] + [dict(kind=k, n=3) for k in SHOWN if SHOWN[k][1] > 1],
            bounds="n = max number of (keyed) children (2, or 1 where there is place for just 1); steps = number of descriptions; keys are symbolic",
            covers=["end"], crashy=True),
], module=__name__, stubs=QT_STUBS)
CHECKS["C29"] = Check("C29", [
    Harness("attributes", attributes,
            quick=[dict(steps=3, names=[a], type=t) for a in ATTRS for t in ATTRS[a][0]]
            + [dict(steps=3, names=[a], type="button", count=2) for a in ("text", "enabled", "own")]
            + [dict(steps=3, names=[a], type=t, nones=True) for a, t in (("text", "label"), ("enabled", "button"), ("own", "button"), ("extra", "action"))]
            + [dict(steps=2, names=["text", "enabled", "own"], type="button"), dict(names=["size"], type="widget", top=True),
               dict(names=["text"], type="button", particular=True)],
            thorough=[dict(steps=4, names=[a], type=t) for a in ATTRS for t in ATTRS[a][0]]
            + [dict(steps=3, names=[a], type="button", count=3) for a in ("text", "enabled", "own")]
            + [dict(steps=4, names=[a], type=t, nones=True) for a in ATTRS for t in ATTRS[a][0]]
            + [dict(steps=3, names=["text", "maximum_width", "own"], type="button")],
            bounds="steps = number of descriptions, with each of the attributes present or not; values are symbolic",
            covers=["end"], crashy=True),
    Harness("collections", collections,
            quick=[dict(kind=k, absent=a) for k, a in (("combobox", False), ("buttons", True), ("content", True), ("headers", False))]
            + [dict(kind="combobox", steps=2, absent=True, n=3)],
            thorough=[dict(kind=k, n=3, steps=3, absent=True) for k in ("combobox", "buttons", "content")],
            bounds="steps = number of descriptions, with at most n values each; values are symbolic",
            covers=["end"], crashy=True),
    Harness("placement", placement,
            quick=[dict(kind=k) for k in ("tab_label", "expanded", "selected", "dock", "toolbar", "role")]
            + [dict(kind=k, nested=True) for k in ("expanded", "selected")]
            + [dict(kind=k, n=1, steps=3) for k in ("tab_label", "expanded", "selected", "dock", "role")]
            + [dict(kind=k, n=1, steps=3, absent=True) for k in UNSET] + [dict(kind=k, steps=2, absent=True) for k in ("expanded", "selected", "toolbar")]
            + [dict(kind=k, n=2, steps=3) for k in ("expanded", "selected")],
            thorough=[dict(kind=k, n=2, steps=3) for k in ("tab_label", "expanded", "selected")]
            + [dict(kind=k, n=1, steps=4) for k in ("dock", "toolbar", "role")]
            + [dict(kind=k, n=2, steps=3, nested=True) for k in ("expanded", "selected")]
            + [dict(kind=k, n=2, steps=2, absent=True) for k in UNSET] + [dict(kind=k, n=1, steps=4, absent=True) for k in UNSET],
            bounds="n = max number of (keyed) elements; steps = number of descriptions; keys and values are symbolic",
            covers=["end"], crashy=True),
    Harness("layout_attributes", layout_attributes,
            quick=[dict(kind="box"), dict(kind="grid"), dict(kind="form")],
            thorough=[dict(kind=k, steps=2) for k in ("grid",)] + [dict(kind=k, steps=3) for k in ("box", "form")],
            bounds="steps = number of descriptions; values are symbolic, within a small range",
            covers=["end"], crashy=True),
    Harness("touched", touched, quick=[dict(attr=a, steps=2) for a in TOUCHED] + [dict(attr=a, steps=3, count=1) for a in TOUCHED],
            thorough=[dict(attr=a) for a in TOUCHED],
            bounds="count = number of elements; steps = number of descriptions, in between of which the user changes elements; values are symbolic",
            covers=["end"], crashy=True),
    Harness("visibility", visibility, quick=[dict(), dict(around="QSplitter"), dict(around="statusbar", steps=2)],
            thorough=[dict(steps=4), dict(around="QSplitter", n=3), dict(around="statusbar")],
            bounds="n = number of elements; steps = number of descriptions", covers=["end"], crashy=True),
    Harness("mixed", mixed,
            quick=[dict(attr=a, n=2, steps=2) for a in MIXED] + [dict(attr="checkable", n=1, steps=3)],
            thorough=[dict(attr=a, n=2, steps=3) for a in MIXED] + [dict(attr=a, n=3, steps=2) for a in MIXED],
            bounds="n = number of elements of any of 3 types; steps = number of descriptions",
            covers=["end"], crashy=True),
    Harness("messages", messages, quick=[dict()], thorough=[dict(steps=4)],
            bounds="steps = number of messages, with or without a duration", covers=["end"], crashy=True),
], module=__name__, stubs=QT_STUBS)
CHECKS["C32"] = Check("C32", [
    Harness("types", types,
            quick=[dict(names=list(NAMES), others=OTHERS), dict(names=["check-box", "label"], others=["QDial"], count=2)],
            thorough=[dict(names=list(NAMES), others=OTHERS), dict(names=list(NAMES)[:6], others=OTHERS[:3], count=2)],
            bounds="count = number of elements; all documented names and some of the classes of PySide6, in all spellings",
            covers=["end"], crashy=True),
    Harness("registrations", registrations,
            quick=[dict(count=c, operation=o) for c in (1, 2) for o in OPERATIONS],
            thorough=[dict(count=3, operation=o) for o in OPERATIONS],
            bounds="count = number of classes (of a hierarchy with 4 custom classes) for which an operation is registered, in any order",
            covers=["end"], crashy=True),
    Harness("custom_layouts", custom_layouts, quick=[dict()], thorough=[dict()],
            bounds="one custom layout and one function for custom attributes", covers=["end"], crashy=True),
], module=__name__, stubs=QT_STUBS)
HK = ["none", "closure", "noargs", "partial", "method", "callable", "default", "mutable"]
CHECKS["C23"] = Check("C23", [
    Harness("listeners", listeners,
            quick=[dict(steps=3, kinds=["none", "closure", "partial", "method"]), dict(steps=2, kinds=HK),
                   dict(steps=3, events=["mouse_button_press"], kinds=["none", "closure", "method", "mutable"]),
                   dict(steps=2, events=["mouse-button-press", "clicked"], kinds=["none", "closure"]),
                   dict(steps=2, events=["enter"], kinds=[k for k in HK if k != "noargs"]),
                   dict(steps=2, events=["text_changed"], type="lineedit", kinds=HK),
                   dict(steps=3, kinds=["none", "closure", "method"], own="clicked"),
                   dict(steps=2, count=2, kinds=["none", "closure", "method"])],
            thorough=[dict(steps=4, kinds=["none", "closure", "partial", "method"]), dict(steps=3, kinds=HK),
                      dict(steps=3, kinds=["none", "closure", "method"], own="released", events=["released", "pressed"]),
                      dict(steps=3, events=["mouse-button-press", "clicked"], kinds=["none", "closure", "method"]),
                      dict(steps=3, events=["enter"], kinds=[k for k in HK if k != "noargs"]),
                      dict(steps=3, events=["text-changed"], type="lineedit", kinds=HK),
                      dict(steps=3, count=2, kinds=["none", "closure", "method"])],
            bounds="steps = number of descriptions with each of the kinds of handlers; captured values are symbolic",
            covers=["end"], crashy=True),
    Harness("reaches", reaches, quick=[dict(), dict(event="key-press", steps=2)], thorough=[dict(steps=4)],
            bounds="steps = number of descriptions, with or without a handler with one of the results", covers=["end"], crashy=True),
    Harness("comeback", comeback,
            quick=[dict(steps=4), dict(steps=3, events=["mouse_button_press"], fires=1), dict(steps=2, events=["released", "pressed"], pool=["method"], replace=True),
                   dict(steps=2, events=["enter", "mouse_button_press"], pool=[], replace=True, fires=3)],
            thorough=[dict(steps=5), dict(steps=4, events=["mouse_button_press"]), dict(steps=3, events=["released", "pressed"], pool=["method"], replace=True, fires=1),
                      dict(steps=3, events=["enter", "mouse_button_press"], pool=["closure"], replace=True)],
            bounds="steps = number of descriptions with handlers from a pool or made within render, fires = number of times that each event happens in between; captured values are symbolic",
            covers=["end"], crashy=True),
], module=__name__, stubs=QT_STUBS)

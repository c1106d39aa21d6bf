"""
The dict and DOM renderers: on their own (arbitrary sequences of operations, against
a reference model) and driven by the real reconciler. The DOM of the browser is
modelled by a stub of the module `js`.
"""

import sys
import dataclasses
import types


class DOMException(Exception):
    pass


class DomNode:
    """The part of the standard for the DOM that matters here"""

    def __init__(self, kind, text=None):
        self.nodeName = kind
        self.textContent = text
        self.childNodes = []
        self.parentNode = None
        self.attributes = {}
        self.listeners = []

    def _index(self, child):
        for i, c in enumerate(self.childNodes):
            if c is child:
                return i
        raise DOMException("NotFoundError")

    def _check(self, child):
        if self.nodeName == "#text":
            raise DOMException("HierarchyRequestError")
        node = self
        while node is not None:
            if node is child:
                raise DOMException("HierarchyRequestError")
            node = node.parentNode

    def _detach(self):
        if self.parentNode is not None:
            self.parentNode.removeChild(self)

    def appendChild(self, child):
        self._check(child)
        child._detach()
        self.childNodes.append(child)
        child.parentNode = self
        return child

    def insertBefore(self, child, anchor):
        self._check(child)
        if anchor is None:
            return self.appendChild(child)
        self._index(anchor)
        if anchor is child:
            return child
        child._detach()
        self.childNodes.insert(self._index(anchor), child)
        child.parentNode = self
        return child

    def removeChild(self, child):
        del self.childNodes[self._index(child)]
        child.parentNode = None
        return child

    def setAttribute(self, name, value):
        # Attributes are always text
        self.attributes[name] = "undefined" if value is None else value

    def removeAttribute(self, name):
        self.attributes.pop(name, None)

    def addEventListener(self, event, listener):
        if not any(e == event and fn == listener for e, fn in self.listeners):
            self.listeners.append((event, listener))

    def removeEventListener(self, event, listener):
        self.listeners = [(e, fn) for e, fn in self.listeners if not (e == event and fn == listener)]


js = types.ModuleType("js")
js.document = types.SimpleNamespace(
    createElement=lambda kind: DomNode(kind),
    createTextNode=lambda content: DomNode("#text", content),
)
js.window = types.SimpleNamespace(document=js.document)
sys.modules["js"] = js

from .base import *  # noqa: F403,E402
from .base import (  # noqa: E402
    Check, Harness, Node, SpecRenderer, any_text, any_value, check_dom, comp, el, f_eq, h, handler, mount_view, reset, text, tmpl,
)
from . import core_children as CC  # noqa: E402
from collagraph.renderers import DictRenderer  # noqa: E402
from collagraph.renderers.dom_renderer import DomRenderer  # noqa: E402


@dataclasses.dataclass
class Listener:
    """Not hashable"""

    log: list

    def __call__(self, *args):
        self.log.append("listener")


class DictView:
    """The real renderer and how to look at its elements"""

    renderer = DictRenderer
    none_is_set = True

    @staticmethod
    def container():
        return {"type": "container"}

    @classmethod
    def view(cls, e):
        """Element -> Node"""
        if set(e) - {"type", "attrs", "handlers", "children", "text"}:
            raise AssertionError(f"unexpected parts in element: {list(e)}")
        n = Node(e["type"], 0)
        n.attrs = dict(e.get("attrs", {}))
        n.handlers = [(ev, fn) for ev, fns in e.get("handlers", {}).items() for fn in fns]
        n.text = e.get("text")
        n.children = [cls.view(c) for c in e.get("children", [])]
        return n

    @staticmethod
    def children(e):
        return e.get("children", [])


class DomView:
    renderer = DomRenderer

    @staticmethod
    def container():
        return DomNode("container")

    @classmethod
    def view(cls, e):
        n = Node("TEXT_ELEMENT" if e.nodeName == "#text" else e.nodeName, 0)
        n.attrs = dict(e.attributes)
        n.handlers = list(e.listeners)
        n.text = e.textContent
        n.children = [cls.view(c) for c in e.childNodes]
        for c in e.childNodes:
            if c.parentNode is not e:
                raise AssertionError("broken DOM")
        return n

    @staticmethod
    def children(e):
        return e.childNodes


VIEWS = {"dict": DictView, "dom": DomView}


def view_of(kind, container):
    return VIEWS[kind].view(container)


# -- the renderer on its own ---------------------------------------------------------


def operations(E, kind="dict", elements=3, n=3, ops=("insert", "remove", "set", "unset", "text", "listen", "unlisten"),
               alike=True, particular=False):
    """Every operation has exactly the effect on the tree that the renderer's contract
    describes, and no other effect"""
    reset()
    V = VIEWS[kind]
    real, spec = V.renderer(), SpecRenderer()
    log = []
    names = ["v", "onset", "text", "data-x.y", "type", "children", "attrs", "handlers"] if particular else ["v", "w"]

    def value_of(name):
        return any_value(E, name) if particular else E.val(name)

    root, spec_root = V.container(), Node("container", 0)
    pairs = []

    def new(i):
        if i == 0 and "text" in ops:
            pair = (real.create_text_element(), spec.create_text_element())
        else:
            name = "item" if alike else E.text(f"type{i}")
            pair = (real.create_element(name), spec.create_element(name))
            if not alike:
                value = E.val(f"value{i}")
                real.set_attribute(pair[0], "v", value)
                spec.set_attribute(pair[1], "v", value)
        pairs.append(pair)
        return pair

    for i in range(elements):
        e, s = new(i)
        if i < 2:
            real.insert(e, root)
            spec.insert(s, spec_root)

    listeners = [handler(log, 0), Listener(log)]

    def compare(label):
        actual = V.view(root)
        for cond, message in tree_eq(actual, spec_root, label):
            E.check(cond, message)
        # Identity and the parts that are not in the tree
        same(V, E, root, spec_root, {id(s): e for e, s in pairs}, label)
        for e, s in pairs:
            for cond, message in tree_eq(V.view(e), s, f"{label}, detached"):
                E.check(cond, message)

    def tree_eq(a, b, label):
        yield f_eq(a.type, b.type), f"{label}: wrong type"
        yield f_eq(a.text or "", b.text or ""), f"{label}: wrong text"
        for name in dict.fromkeys([*a.attrs, *b.attrs]):
            ok = name in a.attrs and name in b.attrs and f_eq(a.attrs[name], b.attrs[name])
            yield ok, f"{label}: wrong attribute {name}"
        ok = sorted((ev, id(fn)) for ev, fn in a.handlers) == sorted((ev, id(fn)) for ev, fn in b.handlers)
        yield ok, f"{label}: wrong listeners"
        yield len(a.children) == len(b.children), f"{label}: wrong number of children"
        for x, y in zip(a.children, b.children):
            yield from tree_eq(x, y, label)

    compare("initial")
    for step in range(n):
        op = E.pick(f"op{step}", list(ops))
        i = E.choice(f"el{step}", elements)
        e, s = pairs[i]
        if op == "insert":
            E.assume(s.parent is None)
            # Into the root or one of the other elements
            p = E.choice(f"into{step}", elements + 1)
            into, spec_into = (root, spec_root) if p == elements else pairs[p]
            q = spec_into
            while q is not None:
                E.assume(q is not s)
                q = q.parent
            E.assume(spec_into.type != "TEXT_ELEMENT")
            a = E.choice(f"anchor{step}", len(spec_into.children) + 1)
            if a == len(spec_into.children):
                real.insert(e, into)
                spec.insert(s, spec_into)
            else:
                real.insert(e, into, anchor=V.children(into)[a])
                spec.insert(s, spec_into, anchor=spec_into.children[a])
        elif op == "remove":
            E.assume(s.parent is not None)
            parent = s.parent
            real.remove(e, next((x for x, y in pairs if y is parent), root))
            spec.remove(s, parent)
        elif op == "set":
            E.assume(s.type != "TEXT_ELEMENT")
            name, value = E.pick(f"attr{step}", names), value_of(f"set{step}")
            real.set_attribute(e, name, value)
            spec.set_attribute(s, name, value)
        elif op == "unset":
            E.assume(s.type != "TEXT_ELEMENT")
            name = E.pick(f"attr{step}", names)
            value = s.attrs.get(name)
            real.remove_attribute(e, name, value)
            spec.remove_attribute(s, name, value)
        elif op == "text":
            E.assume(s.type == "TEXT_ELEMENT")
            value = any_text(E, f"text{step}")
            real.set_element_text(e, value)
            spec.set_element_text(s, value)
        elif op == "listen":
            event, fn = E.pick(f"event{step}", ["click", "move"]), E.pick(f"fn{step}", listeners)
            E.assume((event, fn) not in s.handlers)
            real.add_event_listener(e, event, fn)
            spec.add_event_listener(s, event, fn)
        elif op == "unlisten":
            E.assume(bool(s.handlers))
            event, fn = E.pick(f"which{step}", list(s.handlers))
            real.remove_event_listener(e, event, fn)
            spec.remove_event_listener(s, event, fn)
        compare(f"step {step} ({op})")
    E.cover("end")


def same(V, E, e, s, known, label):
    """It's the very same elements (which can look alike)"""
    children = V.children(e)
    if len(children) != len(s.children):
        return
    for x, y in zip(children, s.children):
        E.check(x is known[id(y)], f"{label}: not the same element")
        same(V, E, x, y, known, label)


# -- driven by the reconciler ----------------------------------------------------------


def driven(E, kind="dict", n=2, steps=2, kinds=("a",), keys="all", values=None, where="between", events=False,
           alike=False):
    """Lists of children, with the real renderer"""
    V = VIEWS[kind]
    reset()
    CC.W = CC.World()
    log = []

    def gen(step):
        out = CC.gen_list(E, step, n, list(kinds), keys, values)
        for i, d in enumerate(out):
            if events and d.kind == "el" and E.boolean(f"on{step}_{i}"):
                d.on = {"click": handler(log, E.val(f"on value{step}_{i}"))}
        return out

    def content(children):
        return CC.wrap_view(where, children)

    first = gen(0)
    renderer = V.renderer()
    container = V.container()
    state = reactive({"cfg": Cfg(children=first)})

    def App(props):
        return to_vnode(content(props["cfg"].children), h)

    gui = Collagraph(renderer, event_loop_type=EventLoopType.SYNC)
    gui.render(h(App, state), container)
    check_dom(E, V.view(container), content(first), log=log, label="initial")
    for step in range(1, steps):
        children = gen(step)
        state["cfg"] = Cfg(children=children)
        check_dom(E, V.view(container), content(children), log=log, label=f"step {step}")
    E.cover("end")


def nones(E, kind="dict", steps=3):
    """A value None is the same as no value"""
    V = VIEWS[kind]
    reset()

    def gen(step):
        attrs = {}
        for name in ("v", "w"):
            form = E.pick(f"{name}{step}", ["absent", "none", "value", False, 0, ""])
            if form == "none":
                attrs[name] = None
            elif form != "absent":
                attrs[name] = E.val(f"{name}{step} value") if form == "value" else form
        return attrs

    first = gen(0)
    renderer = V.renderer()
    container = V.container()
    state = reactive({"cfg": Cfg(attrs=first)})

    def App(props):
        return h("item", dict(props["cfg"].attrs))

    gui = Collagraph(renderer, event_loop_type=EventLoopType.SYNC)
    gui.render(h(App, state), container)
    check_dom(E, V.view(container), el("item", first), label="initial")
    for step in range(1, steps):
        attrs = gen(step)
        state["cfg"] = Cfg(attrs=attrs)
        check_dom(E, V.view(container), el("item", attrs), label=f"step {step}")
    E.cover("end")


BOUNDS = ("elements/n = number of elements and of operations resp. max number of children in a list; steps = number of "
          "successive lists; kinds = kinds of children (see core_children.make); values, keys and types are symbolic")


def harnesses(kind):
    return [
        Harness("operations", operations,
                quick=[dict(kind=kind, n=2), dict(kind=kind, n=3, ops=["insert", "remove", "set", "unset"]),
                       dict(kind=kind, n=3, elements=1, ops=["set", "unset", "listen", "unlisten"]),
                       dict(kind=kind, n=2, alike=False), dict(kind=kind, n=3, elements=1, ops=["text"]),
                       dict(kind=kind, n=2, elements=2, ops=["set", "unset", "text"], particular=True)],
                thorough=[dict(kind=kind, n=4, ops=["insert", "remove"], elements=4),
                          dict(kind=kind, n=4, elements=2, ops=["set", "unset", "listen", "unlisten"]),
                          dict(kind=kind, n=3), dict(kind=kind, n=3, alike=False, ops=["insert", "remove", "set", "unset"])],
                bounds=BOUNDS, covers=["end"]),
        Harness("driven", driven,
                quick=[dict(kind=kind, n=3, kinds=["a"]), dict(kind=kind, n=2, kinds=["a", "b"], events=True),
                       dict(kind=kind, n=2, kinds=["a", "text", "t2", "cls", "nest"], keys=None),
                       dict(kind=kind, n=2, kinds=["a", "t2", "frag"], where="nested"),
                       dict(kind=kind, n=2, kinds=["a", "text"], keys="mixed", values="opt"),
                       dict(kind=kind, n=2, steps=3, kinds=["a"], keys="all")],
                thorough=[dict(kind=kind, n=4, kinds=["a"]), dict(kind=kind, n=3, kinds=["a", "b"], events=True),
                          dict(kind=kind, n=3, kinds=["a", "text", "t2", "cls", "nest"], keys=None),
                          dict(kind=kind, n=3, kinds=["a", "t2", "frag"], where="nested"),
                          dict(kind=kind, n=2, steps=3, kinds=["a", "text"], keys="mixed", values="opt")],
                bounds=BOUNDS, covers=["end"]),
        Harness("nones", nones, quick=[dict(kind=kind, steps=3)], thorough=[dict(kind=kind, steps=4)],
                bounds=BOUNDS, covers=["end"]),
    ]


CHECKS = {
    "C24": Check("C24", harnesses("dict"), module=__name__, stubs=["none"]),
    "C25": Check("C25", harnesses("dom"), module=__name__, stubs=[
        "module js of pyodide: a model of the part of the DOM standard that is used (insertBefore, appendChild, removeChild, attributes, listeners)"]),
}

"""
The oracle's side: a strict reference DOM, descriptions of what should be
rendered, and the comparison of the two as a formula.
"""

from observ import to_raw

from . import engine
from .engine import f_and, f_eq, perm_eq


class _Any:
    def __repr__(self):
        return "ANY"


ANY = _Any()


class ContractError(Exception):
    """The renderer is called in a way that violates the renderer's contract."""


class Node:
    __slots__ = ("type", "attrs", "handlers", "children", "parent", "text", "serial", "removed")

    def __init__(self, type, serial):
        self.type = type
        self.attrs = {}
        self.handlers = []  # list of (event, handler)
        self.children = []
        self.parent = None
        self.text = None
        self.serial = serial
        self.removed = False

    def __repr__(self):
        return f"<Node {self.type!r} {self.serial}>"


def make_renderer(base):
    """base: collagraph.renderers.Renderer"""

    class SpecRenderer(base):
        """Renders to Nodes and is strict about how it's called."""

        node = Node

        def __init__(self):
            self.serial = 0
            self.log = []

        def _new(self, type):
            self.serial += 1
            return self.node(type, self.serial)

        def create_element(self, type):
            n = self._new(type)
            self.log.append(("create", n))
            return n

        def create_text_element(self):
            n = self._new("TEXT_ELEMENT")
            self.log.append(("create", n))
            return n

        @staticmethod
        def _index(children, el):
            for i, c in enumerate(children):
                if c is el:
                    return i
            return None

        def insert(self, el, parent, anchor=None):
            if not isinstance(el, Node) or not isinstance(parent, Node):
                raise ContractError("insert: not an element")
            if el.parent is not None:
                raise ContractError("insert: element is already part of the DOM")
            p = parent
            while p is not None:
                if p is el:
                    raise ContractError("insert: cycle")
                p = p.parent
            if anchor is None:
                idx = len(parent.children)
            else:
                idx = self._index(parent.children, anchor)
                if idx is None:
                    raise ContractError("insert: anchor is not a child of the parent")
            parent.children.insert(idx, el)
            el.parent = parent
            self.log.append(("insert", el, parent, anchor))

        def remove(self, el, parent):
            idx = self._index(parent.children, el)
            if idx is None:
                raise ContractError("remove: not a child of the parent")
            del parent.children[idx]
            el.parent = None
            self.log.append(("remove", el, parent))

        def set_element_text(self, el, value):
            if el.type != "TEXT_ELEMENT":
                raise ContractError("set_element_text: not a text element")
            el.text = value
            self.log.append(("text", el, value))

        def set_attribute(self, el, attr, value):
            if el.type == "TEXT_ELEMENT":
                raise ContractError("set_attribute: text elements have no attributes")
            el.attrs[attr] = value
            self.log.append(("set", el, attr, value))

        def remove_attribute(self, el, attr, value):
            el.attrs.pop(attr, None)
            self.log.append(("unset", el, attr, value))

        def add_event_listener(self, el, event_type, value):
            if not callable(value):
                raise ContractError("add_event_listener: not callable")
            el.handlers.append((event_type, value))
            self.log.append(("listen", el, event_type, value))

        def remove_event_listener(self, el, event_type, value):
            for i, (t, v) in enumerate(el.handlers):
                if t == event_type and v is value:
                    del el.handlers[i]
                    break
            else:
                for i, (t, v) in enumerate(el.handlers):
                    if t == event_type and v == value:
                        del el.handlers[i]
                        break
                else:
                    raise ContractError("remove_event_listener: was never added")
            self.log.append(("unlisten", el, event_type, value))

    return SpecRenderer


class D:
    """Description of what to render."""

    __slots__ = ("kind", "type", "attrs", "on", "key", "children", "expand", "slots", "tag")

    def __init__(self, kind, type=None, attrs=None, on=None, key=None, children=(),
                 expand=None, slots=None, tag=None):
        self.kind = kind
        self.type = type
        self.attrs = attrs or {}
        self.on = on or {}
        self.key = key
        self.children = list(children)
        self.expand = expand
        self.slots = slots
        self.tag = tag


def el(type, attrs=None, *children, on=None, key=None):
    return D("el", type, attrs, on, key, children)


def text(content):
    return D("text", content)


def tmpl(*children, key=None, type="template"):
    return D("tmpl", type, None, None, key, children)


def comp(cls, attrs=None, *, expand, on=None, key=None, slots=None):
    """cls: component class or function; expand: what it's expected to render:
    () -> D (or list of D)"""
    return D("comp", cls, attrs, on, key, (), expand, slots)


def to_vnode(d, h):
    if d.kind == "text":
        return d.type
    props = dict(d.attrs)
    for ev, fn in d.on.items():
        props[f"on_{ev}"] = fn
    if d.key is not None:
        props["key"] = d.key
    if d.kind == "comp":
        if d.slots is None:
            return h(d.type, props)
        return h(d.type, props, d.slots)
    return h(d.type, props, *[to_vnode(c, h) for c in d.children])


class X:
    """Expected host node"""

    __slots__ = ("type", "attrs", "on", "text", "children", "d")

    def __init__(self, type, attrs, on, text, children, d):
        self.type, self.attrs, self.on, self.text = type, attrs, on, text
        self.children = children
        self.d = d


def expected(d):
    """-> list of X: virtual nodes and components are replaced by their content"""
    if d.kind == "text":
        return [X("TEXT_ELEMENT", {}, {}, d.type, [], d)]
    if d.kind == "tmpl":
        return [x for c in d.children for x in expected(c)]
    if d.kind == "comp":
        r = d.expand()
        if isinstance(r, D):
            r = [r]
        return [x for c in r for x in expected(c)]
    attrs = dict(d.attrs)
    if d.key is not None:
        attrs["key"] = d.key
    return [X(d.type, attrs, d.on, None, [x for c in d.children for x in expected(c)], d)]


def handler(log, *signature):
    """Returns a new function that logs its signature. Handlers with the same
    signature behave the same."""
    return lambda *args: log.append(signature)


class Matcher:
    """Compares actual nodes to expected nodes: yields (formula, message)"""

    def __init__(self, log=None):
        self.log = log
        self.pairs = []  # (node, X)

    def match(self, nodes, xs, path="root"):
        out = []
        if len(nodes) != len(xs):
            shape = f"{[n.type for n in nodes]} instead of {[x.type for x in xs]}"
            out.append((False, f"{path}: wrong children {shape}"))
            return out
        for i, (n, x) in enumerate(zip(nodes, xs)):
            p = f"{path}/{i}"
            self.pairs.append((n, x))
            out.append((f_eq(n.type, x.type), f"{p}: element has the wrong type"))
            # An attribute with value None is the same as no attribute
            names = list(dict.fromkeys(list(n.attrs) + list(x.attrs)))
            for name in names:
                if x.attrs.get(name) is ANY:
                    continue
                out.append((
                    f_eq(to_raw(n.attrs.get(name)), to_raw(x.attrs.get(name))),
                    f"{p}: attribute {name!r} has the wrong value",
                ))
            out.append((f_eq(n.text, x.text), f"{p}: wrong text"))
            if self.log is not None:
                events = {ev for ev, _ in n.handlers} | set(x.on)
                for ev in sorted(events):
                    del self.log[:]
                    for e, fn in n.handlers:
                        if e == ev:
                            fn()
                    actual = list(self.log)
                    del self.log[:]
                    want = x.on.get(ev)
                    if want is not None:
                        want()
                    wanted = list(self.log)
                    del self.log[:]
                    out.append((perm_eq(actual, wanted), f"{p}: wrong handlers for {ev!r}"))
            out.extend(self.match(n.children, x.children, p))
        return out


def check_dom(E, container, d, log=None, label=""):
    """Check that the content of the container is what is described by d (a D or a
    list of D). Returns the list of (node, X)."""
    ds = d if isinstance(d, list) else [d]
    xs = [x for q in ds for x in expected(q)]
    m = Matcher(log)
    for cond, message in m.match(container.children, xs, label or "root"):
        E.check(cond, message)
    return m.pairs

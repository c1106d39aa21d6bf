"""CGX templates: the rendered result is what the template says, where expressions mean
what they mean in Python.

A template is described by a tree of T nodes, from which both the source of the template
(for the code under test) and the expected result (the oracle, which uses nothing of the
code under test) are derived.
"""

import html
import sys
import types
import warnings

from .base import *  # noqa: F403
from .base import Component, D, SpecRenderer, el, h, reactive, text, tmpl, comp  # noqa: F401
from .base import Check, Harness, STUBS, check_dom, f_and, f_eq, f_not, f_or, maybe_gc, mount, reset

from collagraph.cgx import cgx


class T:
    """Node of a template"""

    __slots__ = ("tag", "attrs", "children", "chain", "loop", "slot", "content")

    def __init__(self, tag, attrs=(), children=(), chain=None, loop=None, slot=None, content=None):
        self.tag = tag
        self.attrs = list(attrs)  # [(name, source)]
        self.children = list(children)
        self.chain = chain  # ("v-if", source)
        self.loop = loop  # (names, source)
        self.slot = slot  # name of the attribute that marks a slot template
        self.content = content  # text: list of (is expression, source)


def t(tag, *children, chain=None, loop=None, slot=None, **attrs):
    return T(tag, [(k.rstrip("_"), v) for k, v in attrs.items()], children, chain, loop, slot)


def words(*parts):
    """Text: parts that are tuples are expressions"""
    return T(None, content=[(isinstance(p, tuple), p[0] if isinstance(p, tuple) else p) for p in parts])


def source(node, indent=0):
    pad = "  " * indent
    if node.tag is None:
        return pad + "".join("{{ " + s + " }}" if ex else s for ex, s in node.content)
    if node.tag == "!":
        return pad + f"<!-- {node.content} -->"
    attrs = []
    if node.slot:
        attrs.append(node.slot)
    if node.chain:
        attrs.append(f'{node.chain[0]}="{node.chain[1]}"' if node.chain[1] else node.chain[0])
    if node.loop:
        attrs.append(f'v-for="{node.loop[1]}"')
    for k, v in node.attrs:
        attrs.append(k if v is None else f'{k}="{v}"')
    head = " ".join([node.tag, *attrs])
    if not node.children:
        return f"{pad}<{head} />"
    if any(c.tag is None for c in node.children):
        # Whitespace is part of the text
        return f"{pad}<{head}>" + "".join(source(c) for c in node.children) + f"</{node.tag}>"
    kids = "\n".join(source(c, indent + 1) for c in node.children)
    return f"{pad}<{head}>\n{kids}\n{pad}</{node.tag}>"


def sfc(node, script):
    return f"<template>\n{source(node, 1)}\n</template>\n\n<script>\n{script}\n</script>\n"


# -- oracle ----------------------------------------------------------------------


class Scope:
    """What expressions in a template can refer to"""

    def __init__(self, names, slots=None, tags=None):
        self.names = names
        self.slots = slots or {}
        self.tags = tags or {}

    def eval(self, src):
        return eval(html.unescape(src).strip(), dict(self.names))

    def bind(self, names, values):
        s = Scope(dict(self.names), self.slots, self.tags)
        s.names.update(zip(names, values))
        return s


class Comp:
    """A component that is defined by a template"""

    def __init__(self, name, root, state=None):
        self.name = name
        self.root = root
        self.state = state or {}


def slot_name(attr):
    if attr == "v-slot":
        return "default"
    if attr.startswith("v-slot:"):
        return attr[len("v-slot:"):]
    return attr[1:]


def render_children(nodes, scope):
    out = []
    merged = []
    for n in nodes:
        if n.tag is None and merged and merged[-1].tag is None:
            merged[-1] = T(None, content=merged[-1].content + n.content)
        else:
            merged.append(n)
    nodes = merged
    done = None  # Has one of the branches of the current chain been rendered?
    for n in nodes:
        if n.tag == "!":
            continue
        if n.tag is None:
            out.append(text("".join(str(scope.eval(s)) if ex else html.unescape(s) for ex, s in n.content)))
            continue
        if n.chain:
            directive, src = n.chain
            if directive == "v-if":
                done = False
            if not done and (directive == "v-else" or scope.eval(src)):
                done = True
                out.extend(render_node(n, scope))
            continue
        done = None
        if n.loop:
            names, src = n.loop
            for values in eval(f"[({', '.join(names)},) for {src}]", dict(scope.names)):
                out.extend(render_node(n, scope.bind(names, values)))
            continue
        out.extend(render_node(n, scope))
    return out


def attributes(n, scope):
    """All attributes in the order of the template, later ones prevail"""
    attrs, on = {}, {}
    for name, src in n.attrs:
        if name.startswith(("@", "v-on:")):
            on[(name[1:] if name[0] == "@" else name.partition(":")[2]).lower()] = scope.eval(src)
        elif name == "v-bind":
            attrs.update(scope.eval(src))
        elif name.startswith((":", "v-bind:")):
            attrs[name.partition(":")[2]] = scope.eval(src)
        else:
            attrs[name] = True if src is None else html.unescape(src)
    return attrs, on


def render_node(n, scope):
    """-> list of D"""
    if n.tag == "slot":
        name = dict(n.attrs).get("name", "default")
        if name in scope.slots:
            return scope.slots[name]()
        return render_children(n.children, scope)
    if n.tag == "template":
        return render_children(n.children, scope)
    attrs, on = attributes(n, scope)
    if n.tag in scope.tags:
        c = scope.tags[n.tag]
        slots = {}
        rest = [k for k in n.children if k.tag != "template"]
        if any(k.tag != "!" for k in rest):
            slots["default"] = lambda: render_children(rest, scope)
        for k in n.children:
            if k.slot:
                slots[slot_name(k.slot)] = lambda k=k: render_node(k, scope)
        names = {**c.state, **attrs}
        return render_children([c.root], Scope(names, slots, scope.tags))
    return [el(n.tag, attrs, *render_children(n.children, scope), on=on)]


# -- building of components ----------------------------------------------------------


class World:
    def __init__(self):
        self.instances = []
        self.log = []


W = World()


class Base(Component):
    initial = {}

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        W.instances.append(self)
        self.state.update(dict(self.initial))


def FnPart(props):
    """A function component"""
    return h("fn", {"x": props.get("x")})


parts = types.ModuleType("cgx_parts")
parts.Base = Base
sys.modules["cgx_parts"] = parts
CACHE = {}


def build(c, uses=()):
    """Turn a Comp into a component class by means of the code under test"""
    names = ", ".join(["Base", *uses])
    script = f"from cgx_parts import {names}\n\nclass {c.name}(Base):\n    pass\n"
    src = sfc(c.root, script)
    if src not in CACHE:
        if len(CACHE) > 3000:
            CACHE.clear()
        cls, namespace = cgx.load_from_string(src)
        CACHE[src] = cls
    cls = CACHE[src]
    cls.initial = c.state
    setattr(parts, c.name, cls)
    return cls



class Poke(Base):
    """A component whose events are emitted by the harness"""

    def render(self):
        return h("poke")


class Echo(Base):
    """A component that passes all of its props on to an element"""

    def render(self):
        return h("echo", dict(self.props))


parts.Poke = Poke
parts.Echo = Echo
CARD = Comp("Card", t(
    "card", t("head", **{":x": "x"}),
    t("slot", t("fallback", t("note")), name="title"),
    t("slot", t("empty")),
    t("foot")), state={"x": None})
WRAP = Comp("Wrap", t("slot", t("nothing")))
LINE = Comp("Line", t("line", words("<", ("x",), ">") if False else words("[", ("x",), "]"), **{":x": "x"}),
            state={"x": "unset"})
PARTS = {c.name: c for c in (CARD, WRAP, LINE)}
for _c in PARTS.values():
    build(_c)


class View:
    """A mounted component with the given template"""

    def __init__(self, E, root, first, uses=(), tags=None, globals_=None):
        self.E = E
        self.root = root
        self.comp = Comp("Main", root)
        self.state = reactive(dict(first))
        self.tags = PARTS if tags is None else tags
        cls = build(self.comp, uses)
        self.gui, self.container = mount(h(cls, self.state))

    def check(self, names, label="", log=None):
        d = render_children([self.root], Scope(names, {}, self.tags))
        return check_dom(self.E, self.container, d, log, label=label)


class Bag:
    """Opaque values"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def expect_names(bag):
    return {"c": bag, "hit": hit}


def hit(*args, **kwargs):
    W.log.append((args, kwargs))


# -- v-if / v-else-if / v-else ------------------------------------------------------

BODIES = {
    "el": lambda i, d: t("a", n=str(i)),
    "same": lambda i, d: t("a"),
    "kids": lambda i, d: t("b", t("i", n=str(i)), words("text ", (f"c.v{i}",))),
    "tmpl": lambda i, d: t("template", t("x", n=str(i)), t("y")),
    "tmpl0": lambda i, d: t("template"),
    "comp": lambda i, d: t("Line", **{":x": f"c.v{i}"}),
    "slots": lambda i, d: t("Card", t("in", n=str(i)), **{":x": f"c.v{i}"}),
    "for": lambda i, d: t("ul", t("li", loop=(("k",), "k in c.items"), **{":k": "k"})),
    "slot": lambda i, d: t("slot", t("fall", n=str(i))),
    "nested": lambda i, d: t("n", t("p", chain=("v-if", f"c.w{i}"), n=str(i)), t("q", chain=("v-else", ""))),
}


def gen_chain(E, n, bodies, plain=("el", "text", "loop", "comment")):
    """n children: consecutive chains mixed with other content"""
    out = []
    open_ = False  # Can the current chain be continued?
    for i in range(n):
        options = ["plain", "v-if"] + (["v-else-if", "v-else"] if open_ else [])
        kind = E.pick(f"directive{i}", options)
        if kind == "plain":
            p = E.pick(f"plain{i}", list(plain))
            if p == "text":
                out.append(words(f"text {i}"))
                open_ = False
            elif p == "loop":
                out.append(t("l", loop=(("k",), "k in c.items"), **{":k": "k", "n": str(i)}))
                open_ = False
            elif p == "comment":
                # Doesn't end a chain
                node = T("!")
                node.content = f"comment {i}"
                out.append(node)
            else:
                out.append(t("p", n=str(i)))
                open_ = False
            continue
        body = BODIES[E.pick(f"body{i}", list(bodies))](i, 0)
        body.chain = (kind, "" if kind == "v-else" else f"c.b{i}")
        out.append(body)
        open_ = kind != "v-else"
    return out


def make_bag(E, n, step, items=0, chosen=None):
    c = Bag()
    for i in range(n):
        setattr(c, f"b{i}", E.val(f"b{step}_{i}"))
        setattr(c, f"v{i}", E.val(f"v{step}_{i}"))
        setattr(c, f"w{i}", E.val(f"w{step}_{i}"))
    c.items = E.vals(f"item{step}_", items)
    return c


def chains(E, n=3, steps=2, bodies=("el",), plain=("el", "text", "loop", "comment"), items=1, wrap="root", gcs=False):
    """Of every chain of v-if/v-else-if/v-else, precisely the first branch of which the
    condition is truthy is rendered, at its own place"""
    global W
    W = World()
    reset()
    kids = gen_chain(E, n, bodies, plain)
    if wrap == "root":
        root = t("root", *kids)
    elif wrap == "between":
        root = t("root", t("before"), t("template", *kids), t("after"))
    elif wrap == "slot":
        root = t("root", t("Card", *kids, **{":x": "c.v0"}), t("after"))
    elif wrap == "loop":
        root = t("root", t("row", *kids, loop=(("row",), "row in c.rows")))
    view = None
    for step in range(steps):
        c = make_bag(E, n, step, items)
        c.rows = E.vals(f"row{step}_", 2 if wrap == "loop" else 0)
        if view is None:
            view = View(E, root, {"c": c}, uses=("Line", "Card"))
        else:
            if gcs:
                maybe_gc(E, f"gc{step}")
            view.state["c"] = c
        view.check({"c": c}, f"step {step}")
    E.cover("end")


# -- v-for ----------------------------------------------------------------------------

LOOPS = {
    "plain": (("x",), "x in c.items"),
    "enumerate": (("i", "x"), "i, x in enumerate(c.items)"),
    "tuple": (("a", "x"), "(a, x) in zip(c.other, c.items)"),
    "deep": (("i", "a", "x"), "i, (a, x) in enumerate(zip(c.other, c.items))"),
    "filter": (("x",), "x in c.items if x != c.skip"),
    "product": (("a", "x"), "a in c.other for x in c.items"),
    "range": (("x",), "x in range(len(c.items))"),
    "expr": (("x",), "x in [*c.items, c.skip]"),
    "comp": (("x",), "x in [y for y in c.items if y]"),
    "shadow": (("c",), "c in [c]"),
    "starred": (("x", "rest"), "x, *rest in [(y, 1, 2) for y in c.items]"),
}

LOOP_BODIES = {
    "attr": lambda: t("r", **{":x": "x"}),
    "keyed": lambda: t("r", **{":key": "x", ":x": "x"}),
    "both": lambda: t("r", t("q", **{":x": "x", ":s": "c.skip"}), words("is ", ("x",)), k="const"),
    "handler": lambda: t("r", **{"@click": "lambda: hit(x)", ":x": "x"}),
    "cond": lambda: t("r", t("yes", chain=("v-if", "x"), **{":x": "x"}), t("no", chain=("v-else", ""))),
    "comp": lambda: t("Line", **{":x": "x"}),
    "slots": lambda: t("Card", t("s", **{":x": "x", "@click": "lambda: hit(x)"}), **{":x": "x"}),
    "named": lambda: t("Card", t("template", t("s", **{":x": "x"}), slot="v-slot:title")),
    "nested": lambda: t("r", t("q", loop=(("z",), "z in c.other"), **{":x": "x", ":z": "z"})),
    "nested shadow": lambda: t("r", t("q", loop=(("x",), "x in c.other"), **{":x": "x"}), t("z", **{":x": "x"})),
    "tmpl": lambda: t("template", t("dt", **{":x": "x"}), t("dd")),
    "lambda": lambda: t("r", **{":x": "(lambda v: (v, x))(c.skip)"}),
    "wrap": lambda: t("Wrap", t("s", **{":x": "x"}), t("s2")),
}


def loops(E, n=2, steps=2, kinds=("plain",), bodies=("attr",), around=True, slot=False, distinct=False):
    """v-for renders its element for every item, with the values of that item"""
    global W
    W = World()
    reset()
    kind = E.pick("loop", list(kinds))
    body = E.pick("body", list(bodies))
    node = LOOP_BODIES[body]()
    node.loop = LOOPS[kind]
    if kind == "shadow":
        node = t("r", loop=LOOPS[kind], **{":x": "c.skip"})
    kids = [t("first"), node, t("last", **{":s": "c.skip"})] if around else [node]
    if slot:
        root = t("root", t("Card", *kids))
    else:
        root = t("root", *kids)
    view = None
    for step in range(steps):
        count = E.choice(f"n{step}", n + 1)
        c = Bag(items=E.vals(f"x{step}_", count), other=E.vals(f"o{step}_", count), skip=E.val(f"skip{step}"))
        if distinct or body == "keyed":
            E.distinct(c.items)
        if view is None:
            view = View(E, root, {"c": c, "hit": hit}, uses=("Line", "Card", "Wrap"))
        else:
            view.state["c"] = c
        view.check({"c": c, "hit": hit}, f"step {step}", log=W.log)
    E.cover(f"loop {kind}")


def growing(E, steps=3, body="attr", kind="plain", ops=("append", "insert", "pop", "set", "reverse", "clear")):
    """v-for over a list within the state, that is changed in place"""
    global W
    W = World()
    reset()
    node = LOOP_BODIES[E.pick("body", [body] if isinstance(body, str) else list(body))]()
    node.loop = (("x",), "x in items")
    root = t("root", t("first"), node, t("last", **{":n": "len(items)"}))
    m = ["one", "two"]
    names = lambda: {"items": list(m), "hit": hit, "c": bag}
    bag = Bag(skip="skip", other=["o1"])
    view = View(E, root, {"items": list(m), "hit": hit, "c": bag}, uses=("Line", "Card", "Wrap"))
    items = view.state["items"]
    for step in range(steps):
        op = E.pick(f"op{step}", list(ops))
        v = E.val(f"v{step}") if op in ("append", "insert", "set") else None
        if v is not None:
            E.distinct([*m, v])
        for target in (m, items):
            if op == "append":
                target.append(v)
            elif op == "insert":
                target.insert(min(1, len(m)), v)
            elif op == "pop" and len(target):
                target.pop(0)
            elif op == "set" and len(target):
                target[-1] = v
            elif op == "reverse":
                target.reverse()
            elif op == "clear":
                target.clear()
        view.check(names(), f"step {step} ({op})", log=W.log)
    E.cover("end")


def called(E, names=("item",), bodies=("attr",), n=2):
    """The variables of v-for can have any name"""
    global W
    W = World()
    reset()
    v = E.pick("name", list(names))
    body = {
        "attr": lambda: t("r", **{":x": v}),
        "text": lambda: t("r", words("a ", (v,), " ", (f"[{v}]",))),
        "handler": lambda: t("r", **{"@click": f"lambda: hit({v})"}),
        "slot": lambda: t("Wrap", t("s", words((v,)), **{":x": v})),
        "named": lambda: t("Card", t("template", t("s", **{":x": v}), slot="#title"), **{":x": v}),
        "cond": lambda: t("r", t("yes", chain=("v-if", v), **{":x": v}), t("no", chain=("v-else", ""))),
        "inner": lambda: t("r", t("q", words((v,)), loop=(("z", v), f"z, {v} in [({v}, 'in')]"), **{":x": v, ":z": "z"})),
        "scope": lambda: t("r", **{":x": f"tuple({v} for {v} in [{v}, 1])", ":y": f"(lambda {v}: {v})(2)", ":z": v}),
    }[E.pick("body", list(bodies))]()
    body.loop = ((v,), f"{v} in things")
    root = t("root", body, t("last", **{":n": "other"}))
    things = E.vals("x", E.choice("n", n + 1))
    given = {"things": things, "hit": hit, "other": E.val("other")}
    if E.boolean("prop with the same name"):
        given[v] = E.val("same")
    view = View(E, root, given, uses=("Wrap", "Card"))
    view.check(given, log=W.log)
    E.cover("end")


IMPORTS = {
    "module": ("from cgx_parts import Base, {0}", ""),
    "alias": ("from cgx_parts import Base\nfrom cgx_parts import other_thing as {0}", ""),
    "conditional": ("from cgx_parts import Base\nif True:\n    from cgx_parts import {0}", ""),
    "try": ("try:\n    from cgx_parts import {0}\nexcept ImportError:\n    pass\nfrom cgx_parts import Base", ""),
    "whole": ("from cgx_parts import Base\nimport cgx_parts as {0}", ""),
    "class": ("from cgx_parts import Base", "from cgx_parts import {0}"),
    "method": ("from cgx_parts import Base", "def method(self):\n        from cgx_parts import {0}\n        return {0}"),
    "function": ("from cgx_parts import Base\ndef fn():\n    from cgx_parts import {0}\n    return {0}", ""),
    "async": ("from cgx_parts import Base\nasync def fn():\n    import cgx_parts as {0}\n    return {0}", ""),
    "dotted": ("from cgx_parts import Base\nimport {0}.sub", ""),
    "dotted alias": ("from cgx_parts import Base\nimport {0}.sub as {0}", ""),
    "several": ("import cgx_parts as q, cgx_parts as {0}\nfrom cgx_parts import other_thing, Base", ""),
    "other class": ("from cgx_parts import Base\nclass Other:\n    from cgx_parts import {0}", ""),
}
for _n in ("name", "thing", "other_thing", "path", "cls", "warn"):
    setattr(parts, _n, ("imported", _n))
    sys.modules[_n] = types.ModuleType(_n)
    sys.modules[_n].__path__ = []
    sys.modules[f"{_n}.sub"] = sys.modules[_n].sub = types.ModuleType(f"{_n}.sub")
IMPORTED = ("module", "alias", "conditional", "try", "whole", "dotted", "dotted alias", "several")


def imports(E, names=("name", "thing"), kinds=tuple(IMPORTS), places=("attr", "text", "handler", "for")):
    """Names that are imported in the script can be used in the template, unless it's local
    to a function or another class"""
    global W
    W = World()
    reset()
    name = E.pick("name", list(names))
    kind = E.pick("import", list(kinds))
    node = {
        "attr": lambda: t("a", t("b", **{":v": name}), **{":v": name}),
        "text": lambda: t("a", words("is ", (name,))),
        "handler": lambda: t("a", **{"@click": f"lambda: hit({name})", ":v": name}),
        "for": lambda: t("a", t("y", loop=(("i",), f"i in [{name}, 1]"), **{":v": f"(i, {name})"})),
    }[E.pick("place", list(places))]()
    top, inside = (part.format(name) for part in IMPORTS[kind])
    cls, namespace = cgx.load_from_string(sfc(node, f"{top}\n\nclass Main(Base):\n    {inside or 'pass'}\n"))
    scope = {"hit": hit}
    props = {"hit": hit}
    if kind in IMPORTED or kind == "class":
        scope[name] = {
            "alias": parts.other_thing, "whole": parts, "several": parts,
            "dotted": sys.modules[name], "dotted alias": sys.modules[name].sub,
        }.get(kind, getattr(parts, name))
    if kind not in (*IMPORTED, "class") or E.boolean("prop"):
        props[name] = E.opt("value")
        if kind not in IMPORTED:
            scope[name] = props[name]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        gui, container = mount(h(cls, props))
    check_dom(E, container, render_children([node], Scope(scope, {}, PARTS)), W.log)
    E.cover("end")


def shadowed(E, n=2, place="attr", steps=1):
    """Imported names go before all others in a template, with a warning for each of the others"""
    global W
    W = World()
    reset()
    names = ["name", "thing", "whole"][:n]
    node = t("a", *[t("b", words("is ", (x,)), **{":v": x}) for x in names])
    key = ("shadowed", n)
    src = sfc(node, "from cgx_parts import Base, name\nfrom cgx_parts import other_thing as thing\nimport cgx_parts as whole\n"
              "\nclass Main(Base):\n    pass\n")
    on = E.boolean("warnings")
    saved = cgx.CGX_RUNTIME_WARNINGS
    cgx.CGX_RUNTIME_WARNINGS = on
    try:
        if (key, on) not in CACHE:
            CACHE[key, on] = cgx.load_from_string(src)
    finally:
        cgx.CGX_RUNTIME_WARNINGS = saved
    cls = type("Main", (CACHE[key, on][0],), {})
    scope = {"name": parts.name, "thing": parts.other_thing, "whole": parts}
    others = {w: {x: E.val(f"{w} {x}") for x in names if E.boolean(f"{w} {x}?")} for w in ("props", "state", "self")}
    cls.initial = others["state"]
    for k, v in others["self"].items():
        setattr(cls, k, v)
    state = reactive(dict(others["props"]))
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        gui, container = mount(h(cls, state))
        for step in range(steps + 1):
            if step:
                del log[:]
                x = names[E.choice(f"which{step}", n)]
                # observ (the library) doesn't notice new keys until something else changes
                W.instances[0].state[x] = others["state"][x] = E.val(f"set{step}")
                E.check(len(W.instances) == 1, "the component is replaced")
            check_dom(E, container, render_children([node], Scope(scope, {}, PARTS)), label=f"step {step}")
            texts_ = [str(w.message) for w in log]
            if step and not on:
                E.check(not texts_, "a warning although these are disabled")
            for x in names:
                for where, text_ in (("props", "key in self.props"), ("state", "key in self.state"), ("self", "attribute on self")):
                    count = sum(f"'{x}'" in m and text_ in m for m in texts_)
                    if step:
                        E.check(count <= 1, "more than one warning for the same name")
                        E.check(not count or x in others[where], f"a warning for a name that is not shadowed ({x} in {where})")
                    else:
                        E.check(count == (x in others[where] and on), f"{count} warnings for an imported name ({x} in {where})")
            if not step:
                E.check(len(texts_) == sum(len(v) for v in others.values()) * on, "another warning")
    E.cover("end")


# -- attributes ------------------------------------------------------------------------

FORMS = {
    "x": ("x", "static"), ":x": (":x", "c.x1"), "v-bind:x": ("v-bind:x", "c.x2"),
    "y": ("y", "static"), ":y": (":y", "c.y1"),
    "flag": ("x", None), "empty": ("x", ""), "bind": ("v-bind", "c.d"), "bind state": ("v-bind", "d"),
    "bind literal": ("v-bind", "{'x': c.x3, 'y': c.y3}"),
}


def binding(E, n=3, steps=2, forms=tuple(FORMS), target=("e",), keys=("x", "y", "z")):
    """Every attribute ends up with the value of the last definition in the template"""
    global W
    W = World()
    reset()
    attrs = []
    names = set()
    for i in range(n):
        f = E.pick(f"form{i}", ["none", *forms])
        if f == "none":
            break
        if FORMS[f][0] in names:
            # HTML doesn't allow for the same attribute twice
            E.assume(False)
        names.add(FORMS[f][0])
        attrs.append(FORMS[f])
    tag = E.pick("target", list(target))
    root = t("root", T(tag, attrs), T("other", [(":x", "c.x1")]))
    view = None
    uses_d = any(a[1] in ("d", "c.d") for a in attrs)
    for step in range(steps):
        d = {}
        if uses_d:
            for k in keys:
                if E.boolean(f"has {k}{step}"):
                    d[k] = E.opt(f"d{step}{k}")
        c = Bag(d=d, **{f"{k}{i}": E.val(f"{k}{i}_{step}") for k in "xy" for i in (1, 2, 3)})
        if view is None:
            view = View(E, root, {"c": c, "d": dict(d)}, uses=("Line",))
        else:
            view.state["c"] = c
            if uses_d:
                view.state["d"] = {**d, "step": step}
        dd = {**d, **({"step": step} if step and uses_d else {})}
        view.check({"c": c, "d": dd}, f"step {step}")
    E.cover("end")


# -- names ----------------------------------------------------------------------------


def lookup(E, steps=2, instances=2, places=("attr", "text", "if", "for", "handler", "slot"), ops=4, how=("instance",)):
    """Names in templates: props go before state, which goes before the attributes of the
    component, which go before the names of the script. Each instance on its own, and at
    any time."""
    global W
    W = World()
    reset()
    place = E.pick("place", list(places))
    node = {
        "attr": lambda: t("a", **{":v": "thing"}),
        "text": lambda: t("a", words("is ", ("thing",))),
        "if": lambda: t("a", t("y", chain=("v-if", "thing")), t("n", chain=("v-else", ""))),
        "for": lambda: t("a", t("y", loop=(("i",), "i in [thing, 1]"), **{":v": "i"})),
        "handler": lambda: t("a", **{"@click": "lambda: hit(thing)", ":v": "thing"}),
        "slot": lambda: t("a", t("Wrap", t("s", **{":v": "thing"}))),
        "local": lambda: t("a", **{":v": "tuple(thing for thing in [other])", ":w": "thing"}),
    }[place]()
    src = sfc(node, "from cgx_parts import Base, Wrap\n\nthing = Base.from_script\n\nclass Main(Base):\n    pass\n")
    Base.from_script = E.val("script")
    cls, namespace = cgx.load_from_string(src)
    has_global = E.boolean("global")
    if not has_global:
        del namespace["thing"]
    given = []
    model = []
    for i in range(instances):
        m = {"props": {}, "state": {}, "self": {}}
        for where in m:
            if E.boolean(f"{where}{i}"):
                m[where]["thing"] = E.opt(f"value {where}{i}")
        model.append(m)
        if not has_global and not any(m.values()):
            # Needs to be defined somewhere
            E.assume(False)
    # The ways in which an instance can have an attribute
    how = E.pick("how", list(how)) if any(m["self"] for m in model) else "instance"

    def prepare(self, *args, **kwargs):
        Base.__init__(self, *args, **kwargs)
        m = model[self.props["i"]]
        for k, v in m["state"].items():
            self.state[k] = v
        if how == "instance":
            for k, v in m["self"].items():
                setattr(self, k, v)

    def attribute(self, name):
        if name != "thing" or "thing" not in model[self.props["i"]]["self"]:
            raise AttributeError(name)
        return model[self.props["i"]]["self"]["thing"]

    cls.__init__ = prepare
    classes = [cls] * instances
    if how == "getattr":
        cls.__getattr__ = attribute
    elif how == "getattribute":
        cls.__getattribute__ = lambda self, name: (
            attribute(self, name) if name == "thing" else Base.__getattribute__(self, name))
    elif how == "property":
        cls.thing = property(lambda self: attribute(self, "thing"))
    elif how in ("class", "base"):
        mixins = [type("Mixin", (), dict(m["self"])) for m in model]
        classes = [type("Main", (cls, mixin) if how == "base" else (cls,), {} if how == "base" else dict(m["self"]))
                   for m, mixin in zip(model, mixins)]
    state = reactive({"props": [{"i": i, "hit": hit, "other": "other", **m["props"]} for i, m in enumerate(model)]})

    def App(props):
        return h("root", {}, *[h(classes[p["i"]], {"key": str(p["i"]), **p}) for p in props["props"]])

    gui, container = mount(h(App, state))

    def check(label):
        kids = []
        for i, m in enumerate(model):
            names = {"hit": hit, "other": "other", "i": i}
            for where in ("self", "state", "props"):
                names.update(m[where])
            if has_global:
                names = {"thing": Base.from_script, **names}
            kids.extend(render_children([node], Scope(names, {}, PARTS)))
        # Keys are part of the attributes of the vnode of the component, not its element
        check_dom(E, container, el("root", {}, *kids), W.log, label=label)

    check("initial")
    deleted = set()
    for step in range(steps):
        i = E.choice(f"instance{step}", instances)
        op = E.pick(f"op{step}", ["set state", "set props", "del state", "del props"][:ops])
        what, where = op.split()
        m = model[i]
        target = W.instances[i].state if where == "state" else state["props"][i]
        if (i, where) in deleted:
            # observ (the library) loses track of keys that are deleted and added again
            continue
        if what == "set":
            # observ (the library) doesn't notice new keys with value None
            m[where]["thing"] = (E.opt if "thing" in m[where] else E.val)(f"set{step}")
            target["thing"] = m[where]["thing"]
        else:
            if "thing" not in m[where]:
                continue
            if not has_global and sum("thing" in x for x in m.values()) < 2:
                continue
            del m[where]["thing"]
            deleted.add((i, where))
            target.pop("thing")
        check(f"step {step} ({op})")
    E.cover("end")


# -- text -----------------------------------------------------------------------------

TEXTS = {
    "expr": (("c.v",),), "pre": ("a ", ("c.v",)), "post": (("c.v",), " b"),
    "two": (("c.v",), ("c.w",)), "mid": ("a ", ("c.v",), " b ", ("c.w",), " c"),
    "plain": ("just { text }",), "call": ("n: ", ("str(c.v)",)), "same": (("c.v",), "/", ("c.v",)),
    "lambda": (("(lambda q: q)(c.w)",),), "cond": ("x ", ("c.v if c.w else c.u",)),
    "list": ("", ("[c.v, c.w]",)), "method": (("c.name.upper()",), "!"), "fmt": (("'%s' % c.u",),),
    "name x": (("x",), " ", ("y",)),
    "space": ("  ", ("c.v",), " \t"), "lines": ("\n  a ", ("c.v",), "\n b ", ("c.w",), "  \n"),
    "maybe": (("c.e",),), "maybe two": (("c.e",), ("c.f",)), "maybe mid": ("[", ("c.e",), "]"),
    "braces": ("{ ", ("c.v",), " } [", ("{'a': c.w}['a']",), " {}"), "percent": ("50% %s ", ("c.v",), " {0} \\n"),
    "quotes": ("'", ("c.v",), '" \'\'\' ', ("c.w",), '"""'), "number": (("1 + 1",), ("0",), ("''",)),
    "space only": (("c.e",), " "),
    "format": (("c.o",), " ", ("f'{c.o}{c.o!s}'",)),
    "less": (("'y' if c.i < c.j else 'n'",),), "less 2": ("a < b ", ("c.i< c.j",), " <3 ", ("c.v",), " <= "),
    "greater": (" > ", ("c.i >= c.j",), " -> "), "shift": (("(c.i, 1 << 2, 1 < 2 < c.j)",), "<<"),
    "entities": ("&lt;b&gt; &amp;amp; & ", ("c.i &lt; c.j",), " &quot;"),
    "long": (("\n    c.v\n  ",), "\n", ("(c.v,\n     c.w)",)), "long 2": ("a ", ("[\n  c.v,\n  c.w\n]",), " b"),
}


class Formatted:
    """Has a text that isn't the same when formatted"""

    def __init__(self, v):
        self.v = v

    def __str__(self):
        return f"str {self.v}"

    def __repr__(self):
        return f"repr {self.v}"

    def __format__(self, spec):
        return f"format {self.v}"


def texts(E, steps=2, kinds=tuple(TEXTS), n=1, inside=("a",)):
    """Text consists of the literal text and the values of all the expressions, in order"""
    global W
    W = World()
    reset()
    kids = []
    for i in range(n):
        kids.append(words(*TEXTS[E.pick(f"text{i}", list(kinds))]))
        kids.append(t("sep"))
    how = E.pick("inside", list(inside))
    if how == "a":
        root = t("a", *kids)
    elif how == "deep":
        root = t("a", t("b", *kids), t("c"))
    elif how == "if":
        root = t("a", t("b", *kids, chain=("v-if", "c.t")), t("c", *kids, chain=("v-else", "")))
    elif how == "for":
        root = t("a", t("b", *kids, loop=(("k",), "k in [c.v, c.w]")))
    view = None
    for step in range(steps):
        c = Bag(v=E.opt(f"v{step}"), w=E.val(f"w{step}"), u=E.val(f"u{step}"), name=f"name{step}", t=E.val(f"t{step}"))
        c.o = Formatted(c.w)
        # Texts that are possibly empty
        c.e = E.text(f"e{step}") if any("c.e" in str(k.content) for k in kids) and E.boolean(f"e?{step}") else ""
        c.i, c.j = (E.integer(f"{k}{step}", -5, 5) if any(f"c.{k}" in str(n.content) for n in kids) else 0 for k in "ij")
        c.f = E.text(f"f{step}") if any("c.f" in str(k.content) for k in kids) and E.boolean(f"f?{step}") else ""
        xy = {"x": E.val(f"x{step}"), "y": E.val(f"y{step}")}
        if view is None:
            view = View(E, root, {"c": c, **xy})
        else:
            view.state["c"] = c
            view.state["x"] = xy["x"]
            view.state["y"] = xy["y"]
        view.check({"c": c, **xy}, f"step {step}")
    E.cover("end")


# -- events --------------------------------------------------------------------------

HANDLERS = {
    "name": "handle", "attr": "c.fn", "lambda": "lambda: hit('l', c.v)", "default": "lambda v=c.v: hit(v)",
    "expr": "c.fn if c.t else c.fn2", "nested": "(lambda q: lambda: hit(q))(c.v)", "args": "lambda *a: hit(*a, c.w)",
    "named": "lambda c=c: hit(c.v)",
}


def events(E, steps=2, kinds=tuple(HANDLERS), n=1, target=("e",), two=False):
    """Handlers of the template are called, with the current values"""
    global W
    W = World()
    reset()
    attrs = []
    for i in range(n):
        form = E.pick(f"form{i}", ["@", "v-on:"])
        ev = ["click", "change"][i]
        attrs.append((form + ev, HANDLERS[E.pick(f"handler{i}", list(kinds))]))
    tag = E.pick("target", list(target))
    if tag == "Poke":
        node = T("Poke", attrs)
    elif tag == "slot":
        node = t("Card", T("e", attrs))
    else:
        node = T(tag, attrs)
    root = t("root", node, T("e", [("@click", "lambda: hit('other')")]) if two else t("e"))
    view = None
    for step in range(steps):
        tag1, tag2 = E.val(f"fn{step}"), E.val(f"fn2{step}")
        c = Bag(v=E.val(f"v{step}"), w=E.val(f"w{step}"), t=E.val(f"t{step}"),
                fn=lambda tag1=tag1: hit("fn", tag1), fn2=lambda tag2=tag2: hit("fn2", tag2))
        tag3 = E.val(f"handle{step}")
        handle = lambda tag3=tag3: hit("handle", tag3)
        names = {"c": c, "hit": hit, "handle": handle}
        if view is None:
            view = View(E, root, names, uses=("Card",))
        else:
            view.state["c"] = c
            view.state["handle"] = handle
        view.check(names, f"step {step}", log=W.log)
    E.cover("end")


EVENTS = ["click", "value-changed", "value_changed", "update:value", "a.b", "on_click", "x", "on", "item:a:b", "v-on", "on_on_x", "valueChanged"]


def named_events(E, events=tuple(EVENTS), n=1, steps=2, target=("e", "slot", "Poke", "Poke in slot")):
    """The handler for an event is called for events with exactly that name,
    be it of an element or of a component"""
    global W
    W = World()
    reset()
    tag = E.pick("target", list(target))
    forms, evs, attrs = [], [], []
    for i in range(n):
        form = E.pick(f"form{i}", ["@", "v-on:"])
        ev = E.pick(f"event{i}", [e for e in events if e not in evs])
        evs.append(ev)
        attrs.append((form + ev, f"lambda *a, v=c.v{i}: hit({i}, v, *a)"))
    e = T("poke" if "Poke" in tag else "e", attrs)
    root = t("root", t("Card", e) if "slot" in tag else e)
    key = ("events", tag, *(a for a, _ in attrs))
    if key not in CACHE:
        src = sfc(root, "from cgx_parts import Base, Card, Poke\n\n\nclass Main(Base):\n    pass\n")
        CACHE[key] = cgx.load_from_string(src.replace("<poke", "<Poke").replace("</poke", "</Poke"))[0]
    cls = CACHE[key]
    cls.initial = {}
    state = None
    for step in range(steps):
        c = Bag(**{f"v{i}": E.val(f"v{step}_{i}") for i in range(n)})
        if state is None:
            state = reactive({"c": c, "hit": hit})
            gui, container = mount(h(cls, state))
        else:
            state["c"] = c
        if "Poke" not in tag:
            check_dom(E, container, render_children([root], Scope({"c": c, "hit": hit}, {}, PARTS)), W.log, label=f"step {step}")
            continue
        pokes = [i for i in W.instances if type(i) is parts.Poke]
        E.check(len(pokes) == 1, f"step {step}: component mounted {len(pokes)} times")
        for ev in EVENTS:
            x = E.val(f"arg{step} {ev}")
            del W.log[:]
            pokes[0].emit(ev, x)
            want = [((i, getattr(c, f"v{i}"), x), {}) for i, name in enumerate(evs) if name == ev]
            E.check(f_eq(W.log, want), f"step {step}: event {ev!r} of component: wrong calls")
    E.cover("end")


ATTRS = ["a", "data-x", "data_x", "xlink:href", "a.b", "x:y:z", "class", "for", "is-v-if", "on", "key2", "a-v", "v"]


def named_attrs(E, names=tuple(ATTRS), n=2, steps=1, target=("e", "Echo")):
    """Attributes arrive under exactly the name that is in the template"""
    global W
    W = World()
    reset()
    tag = E.pick("target", list(target))
    attrs, seen = [], []
    for i in range(n):
        form = E.pick(f"form{i}", [":", "v-bind:", "dict", ""])
        name = E.pick(f"name{i}", [k for k in names if k not in seen])
        seen.append(name)
        attrs.append({
            "": (name, f"fixed {i}"), "dict": ("v-bind", f"{{'{name}': c.v{i}}}"),
        }.get(form, (form + name, f"c.v{i}")))
    if [k for k, _ in attrs].count("v-bind") > 1:
        E.assume(False)
    node = T(tag.lower(), attrs)
    root = t("root", node)
    key = ("attrs", tag, *attrs)
    if key not in CACHE:
        src = sfc(root, "from cgx_parts import Base, Echo\n\n\nclass Main(Base):\n    pass\n")
        CACHE[key] = cgx.load_from_string(src.replace("<echo", "<Echo"))[0]
    cls = CACHE[key]
    cls.initial = {}
    state = None
    for step in range(steps):
        c = Bag(**{f"v{i}": E.val(f"v{step}_{i}") for i in range(n)})
        if state is None:
            state = reactive({"c": c})
            gui, container = mount(h(cls, state))
        else:
            state["c"] = c
        check_dom(E, container, render_children([root], Scope({"c": c}, {}, PARTS)), label=f"step {step}")
    E.cover("end")


# -- slots ----------------------------------------------------------------------------


def slots(E, steps=2, budget=2, names=("default", "title"), content=("el", "two", "if", "for", "text", "comp", "words", "mixed", "empty")):
    """Content that is given for a slot is rendered at the place of the slot, in the scope
    of the template that defines it. Otherwise the content of the slot itself is rendered."""
    global W
    W = World()
    reset()

    def gen(name, i):
        kind = E.pick(f"content {name}{i}", list(content))
        return {
            "el": lambda: [t("in", **{":v": f"c.v{i}"})],
            "two": lambda: [t("in", n=str(i)), t("in2", **{":v": "c.v0"})],
            "if": lambda: [t("y", chain=("v-if", "c.b0")), t("n", chain=("v-else", ""))],
            "for": lambda: [t("li", loop=(("k",), "k in c.items"), **{":k": "k"})],
            "text": lambda: [t("s", words("text ", (f"c.v{i}",)))],
            "comp": lambda: [t("Line", **{":x": "c.v1"})],
            "words": lambda: [words("loose ", (f"c.v{i}",))],
            "mixed": lambda: [words("a ", (f"c.v{i}",)), t("s"), words("b"), T("!", content="about"), words("c ", ("c.v0",), " "),
                              t("y", chain=("v-if", "c.b0"))],
            "card": lambda: [t("Card", t("deep", **{":v": "c.v0"}))],
            "wrap": lambda: [t("Wrap", t("deep", **{":v": "c.v0"}))],
            "empty": lambda: [],
        }[kind]()

    kids = []
    if "default" in names:
        how = E.pick("default", ["none", "children", "v-slot", "v-slot:default", "#default"])
        if how == "children":
            kids.extend(gen("default", 0))
        elif how != "none":
            kids.append(t("template", *gen("default", 0), slot=how))
    for i, name in enumerate(names):
        if name == "default":
            continue
        how = E.pick(f"slot {name}", ["none", f"v-slot:{name}", f"#{name}"])
        if how != "none":
            kids.append(t("template", *gen(name, i), slot=how))
    if len(kids) > 1 and all(k.slot for k in kids) and E.boolean("turned"):
        kids.reverse()
    target = E.pick("target", ["Card", "Wrap"] if "title" not in names else ["Card"])
    root = t("root", t("before"), t(target, *kids, **{":x": "c.v0"}), t("after"))
    view = None
    for step in range(steps):
        c = make_bag(E, 2, step, items=E.choice(f"items{step}", 3))
        if view is None:
            view = View(E, root, {"c": c}, uses=("Line", "Card", "Wrap"))
        else:
            view.state["c"] = c
        view.check({"c": c}, f"step {step}")
    E.cover("end")


# -- anything -----------------------------------------------------------------------

ANY_KINDS = ["a", "text", "if", "else", "for", "comp", "card", "tmpl", "wrap"]


def anything(E, budget=3, steps=2, kinds=tuple(ANY_KINDS), items=1):
    """Arbitrary trees of all the constructs"""
    global W
    W = World()
    reset()
    pos = [0]

    left = [budget]

    def gen(depth, scope, in_comp=False):
        out = []
        open_ = False
        while left[0] > 0:
            pos[0] += 1
            p = pos[0]
            options = [k for k in kinds if (k != "else" or open_)]
            c = E.choice(f"node{p}", len(options) + 1)
            if c == 0:
                break
            kind = options[c - 1]
            left[0] -= 1
            v = scope[-1]
            was_open, open_ = open_, False
            if kind == "a":
                out.append(t("a", *gen(depth + 1, scope), **{":v": v, "n": str(p)}))
            elif kind == "text":
                out.append(words(f"text {p} ", (v,)))
            elif kind == "if":
                out.append(t("a", *gen(depth + 1, scope), chain=("v-if", f"c.b{len(scope)}"), **{":v": v, "n": str(p)}))
                open_ = True
            elif kind == "else":
                if E.boolean(f"elif{p}"):
                    out.append(t("z", *gen(depth + 1, scope), chain=("v-else-if", "c.b0")))
                    open_ = True
                else:
                    out.append(t("z", *gen(depth + 1, scope), chain=("v-else", "")))
            elif kind == "for":
                name = f"k{len(scope)}"
                out.append(t("f", *gen(depth + 1, [*scope, name]),
                             loop=((name,), f"{name} in c.items"), **{":v": name}))
            elif kind == "comp":
                out.append(t("Line", **{":x": v}))
            elif kind == "card":
                out.append(t("Card", *gen(depth + 1, scope, True), **{":x": v}))
            elif kind == "wrap":
                out.append(t("Wrap", *gen(depth + 1, scope, True)))
            elif kind == "tmpl":
                if in_comp:
                    # Only elements are content of the default slot
                    E.assume(False)
                out.append(t("template", *gen(depth + 1, scope)))
        return out

    root = t("root", *gen(0, ["c.v0"]))
    if left[0]:
        E.cover("small")
    view = None
    for step in range(steps):
        c = make_bag(E, 5, step, items=E.choice(f"items{step}", items + 1) if "for" in kinds else 0)
        if view is None:
            view = View(E, root, {"c": c}, uses=("Line", "Card", "Wrap"))
        else:
            view.state["c"] = c
        view.check({"c": c}, f"step {step}")
    E.cover("end")


# -- each place, in each context, with each kind of name ------------------------------

DOTTED = {f"{m}.{c.name}": c for m in ("box", "cgx_parts") for c in PARTS.values()}
PLACES = {
    "attr": lambda x: [t("n", **{":v": x})],
    "bound": lambda x: [t("n", **{"v-bind:v": x})],
    "dict": lambda x: [t("n", **{"v-bind": "{'v': %s}" % x})],
    "around": lambda x: [T("n", [("u", "1"), (":v", x), ("v-bind", "{'w': %s}" % x), (":z", x)])],
    "text": lambda x: [t("n", words("a ", (x,), " b"))],
    "loose": lambda x: [t("n", words((x,)), t("m"), words("b ", (x,), (x,)))],
    "handler": lambda x: [t("n", **{"@click": f"lambda: hit({x})"})],
    "on": lambda x: [t("n", **{"v-on:click": f"lambda v={x}: hit(v)"})],
    "if": lambda x: [t("y", chain=("v-if", x)), t("z", chain=("v-else", ""))],
    "elif": lambda x: [t("w", chain=("v-if", "not c")), t("y", chain=("v-else-if", x)), t("z", chain=("v-else", ""))],
    "elif 2": lambda x: [t("w", chain=("v-if", "not c")), t("y", chain=("v-else-if", "not c.items")),
                         t("z", chain=("v-else-if", x), **{":v": x})],
    "branches": lambda x: [t("w", chain=("v-if", "c.b0"), **{":v": x}), t("y", chain=("v-else-if", "c.b1"), **{":v": x}),
                           t("z", chain=("v-else", ""), **{":v": x})],
    "for": lambda x: [t("i", loop=(("z",), f"z in [{x}, 1]"), **{":v": "z", ":w": x})],
    "for if": lambda x: [t("i", loop=(("z",), f"z in [1, 2] if {x}"), **{":v": "z"})],
    "for for": lambda x: [t("i", loop=(("z", "y"), f"z in [1, 2] for y in [z, {x}]"), **{":v": "(z, y)"})],
    "prop": lambda x: [t("Line", **{":x": x})],
    "content": lambda x: [t("Card", t("s", **{":v": x}))],
    "named": lambda x: [t("Card", t("template", t("s", words((x,)), **{":v": x}), slot="#title"), **{":x": x})],
    "dotted": lambda x: [t("box.Card", t("s", **{":v": x}), words("a ", (x,)), **{":x": x}), t("box.Line", **{":x": x})],
    "dotted named": lambda x: [t("cgx_parts.Card", t("template", t("s", words((x,)), **{":v": x}), slot="#title"), **{":x": x})],
    "dotted both": lambda x: [t("box.Wrap", t("box.Wrap", t("s", **{":v": x})), t("r"))],
    "fallback": lambda x: [t("slot", t("s", words((x,)), **{":v": x}), name="absent")],
    "lambda": lambda x: [t("n", **{":v": f"(lambda q, *r: (q, {x}))(1)"})],
    "lambda default": lambda x: [t("n", **{":v": f"(lambda q={x}: q)()"})],
    "list": lambda x: [t("n", **{":v": f"[(q, {x}) for q in [1, {x}]]"})],
    "gen": lambda x: [t("n", **{":v": f"tuple((q, {x}) for q in [1] if {x} or q)"})],
    "dict comp": lambda x: [t("n", **{":v": f"list({{q: {x} for q in [1]}}.values())"})],
    "lambda kinds": lambda x: [t("n", **{":v": f"(lambda q, /, r, *s, o=1, p={x}, **k: (q, r, s, o, p, k, {x}))(1, 2, 3, o=4, k=5)"})],
    "lambda nested": lambda x: [t("n", **{":v": f"(lambda q: lambda r: (q, r, {x}))(1)(2)", ":w": f"(lambda q: [(q, r, {x}) for r in [q]])(1)"})],
    "two for": lambda x: [t("n", **{":v": f"[(p, q, {x}) for p in [[1, {x}], [2]] for q in p]", ":w": f"[q for q in [{x}] for p in [q]]"})],
    "unpacked": lambda x: [t("n", **{":v": f"[(p, q, r) for p, (q, *r) in [(1, (2, 3, {x}))]]"})],
    "for in for": lambda x: [t("n", **{":v": f"[[(p, q) for q in [p, {x}]] for p in [1, 2]]", ":w": f"[p for p in [p for p in [{x}]]]"})],
    "set comp": lambda x: [t("n", **{":v": f"list({{p for p in [{x}]}})", ":w": f"list({{p: q for p, q in [({x}, 1)]}})"})],
    "comp if": lambda x: [t("n", **{":v": f"[p for p in [1, 0] if p if {x} or p]"})],
    "literals": lambda x: [t("n", words(("('a  b', %s, ' \\t')" % x,)), **{":v": f"({x}, 'a  b', ' \\t', '  ')"})],
    "operators": lambda x: [t("n", **{":v": f"({x},)[0:1] + (*[{x}], -1, 2 ** 3, 1 if {x} else 2, {x} and 1, not {x})", ":w": f"{{**{{'a': {x}}}}}"})],
    "keyword": lambda x: [t("n", **{":v": f"dict(given=1, kept=2, own={x}, **{{'thing': {x}}})", ":w": "c.name.upper()"})],
    "format": lambda x: [t("n", **{":v": f"f'{{{x}}} {{c.name}}'"})],
    "call": lambda x: [t("n", **{":v": f"dict(a={x})['a']"})],
    "attr spaced": lambda x: [t("n", **{":v": f" {x}", "v-bind:w": f"\n    {x}\n  ", "v-bind": "\n {'z': %s}\n" % x})],
    "text spaced": lambda x: [t("n", words((f"\n  {x}\n",)))],
    "handler spaced": lambda x: [t("n", **{"@click": f"\n  lambda: hit({x})", "v-on:press": f" lambda: (\n  hit({x})\n )"})],
    "if spaced": lambda x: [t("w", chain=("v-if", "\n not c")), t("y", chain=("v-else-if", f"\n  {x}\n")), t("z", chain=("v-else", ""))],
    "for literal": lambda x: [t("i", loop=(("z",), f"z in [{x}, 'a  b']"), **{":v": "z"})],
    "if literal": lambda x: [t("y", chain=("v-if", f"'  ' == ' '")), t("z", chain=("v-else-if", f"{x} and '  ' != ' '"))],
    "for spaced": lambda x: [t("i", loop=(("z",), f"\n  z\n  in [\n{x}, 1]\n"), **{":v": "z"})],
}
AROUND = {
    "el": lambda n, d: [t("g", *n, t("last"))],
    "tmpl": lambda n, d: [t("template", *n)],
    "loop": lambda n, d: [t("g", *n, loop=((f"k{d}",), f"k{d} in c.items"))],
    "loop 2": lambda n, d: [t("template", *n, t("last", **{":i": f"i{d}"}), loop=((f"i{d}", f"k{d}"), f"i{d}, k{d} in enumerate(c.items)"))],
    "shadow": lambda n, d: [t("g", *n, loop=(("given",), "given in c.items"), **{":v": "given"})],
    "if": lambda n, d: [t("g", *n, chain=("v-if", "c")), t("h", chain=("v-else", ""))],
    "elif": lambda n, d: [t("h", chain=("v-if", "not c")), t("g", *n, chain=("v-else-if", "c"))],
    "else": lambda n, d: [t("h", chain=("v-if", "not c")), t("g", *n, chain=("v-else", ""))],
    "card": lambda n, d: [t("Card", t("g", *n), t("rest"), **{":x": "c.v0"})],
    "wrap": lambda n, d: [t("Wrap", t("g", *n))],
    "title": lambda n, d: [t("Card", t("template", *n, slot="v-slot:title"), t("template", t("rest"), slot="#default"))],
    "slot": lambda n, d: [t("slot", t("g", *n), name=f"absent{d}")],
    "slot 1": lambda n, d: [t("slot", *n)],
}
# Names of the parts of a component
WHOLE = ["self.own", "self.state['kept']", "self.props['given']", "state['kept']", "props['given']"]
SCRIPT = """
from cgx_parts import Base, Card, Line, Wrap, thing
import cgx_parts
import cgx_parts as box

scripted = None


class Main(Base):
    pass
"""


def places(E, places=tuple(PLACES), around=tuple(AROUND), names=("given", "kept", "own", "thing", "scripted", "loop", *WHOLE), depth=1, steps=1, n=2):
    """A name means the same at each place of a template, whatever is around it"""
    global W
    W = World()
    reset()
    place = E.pick("place", list(places))
    contexts = [E.pick(f"around{i}", list(around)) for i in range(depth)]
    loops = [i for i, a in enumerate(contexts) if a.startswith("loop")]
    kinds = [k for k in names if k != "loop" or loops]
    name = E.pick("name", kinds)
    if name == "loop":
        name = f"k{loops[E.choice('which', len(loops))]}"
    nodes = PLACES[place](name)
    base = next((x for x in ("given", "kept", "own") if x in name), name)
    for i, a in reversed(list(enumerate(contexts))):
        nodes = AROUND[a](nodes, i)
    root = t("root", t("first"), *nodes, t("last", **{":c": "c.v0", ":g": "given", ":s": "kept", ":o": "own"}))
    key = (place, *contexts, name)
    if key not in CACHE:
        if len(CACHE) > 3000:
            CACHE.clear()
        CACHE[key] = cgx.load_from_string(sfc(root, SCRIPT))
    cls, namespace = CACHE[key]
    namespace["scripted"] = E.val("scripted") if base == "scripted" else "scripted"
    cls.initial = {"kept": E.val("kept0") if base == "kept" else "kept"}
    cls.own = E.val("own") if base == "own" else "own"
    state = None
    for step in range(steps):
        loop = name.startswith("k") and base != "kept"
        c = Bag(items=[E.val(f"item{step}_{i}") if loop or "shadow" in contexts else f"item{i}" for i in range(n)],
                name="name", v0=f"v{step}", **{f"b{i}": E.val(f"b{step}_{i}") if place == "branches" else i for i in range(2)})
        given = {"c": c, "hit": hit, "given": E.val(f"given{step}") if base == "given" else "given"}
        if state is None:
            state = reactive(dict(given))
            gui, container = mount(h(cls, state))
        else:
            cls.initial["kept"] = W.instances[0].state["kept"] = E.val(f"kept{step}") if base == "kept" else "kept"
            state["given"] = given["given"]
            state["c"] = c
        whole = {"props": given, "state": dict(cls.initial)}
        whole["self"] = types.SimpleNamespace(own=cls.own, **whole)
        scope = {**whole, **given, **cls.initial, "own": cls.own, "thing": parts.thing, "scripted": namespace["scripted"]}
        check_dom(E, container, render_children([root], Scope(scope, {}, {**PARTS, **DOTTED})), W.log, label=f"step {step}")
    E.cover("end")


SLOTS = ["default", "title", "a:b", "a-b", "a_b", "a.b", "b", "slot", "template", "v-slot"]


def named_slots(E, names=tuple(SLOTS), n=2, steps=1, n_given=1):
    """Content is rendered at the slot with exactly that name"""
    global W
    W = World()
    reset()
    have, given = [], []
    for i in range(n):
        have.append(E.pick(f"slot{i}", [k for k in names if k not in have]))
    for i in range(n_given):
        name = E.pick(f"given{i}", [k for k in names if k not in [g for _, g in given]])
        given.append((E.pick(f"form{i}", ["v-slot:", "#"]), name))
    order = E.boolean("turned") if n_given > 1 else False
    holder = t("holder", *[t("slot", t("none", n=str(i)), **({} if k == "default" else {"name": k})) for i, k in enumerate(have)])
    content = [t("template", t("in", n=str(i), **{":v": f"c.v{i}"}), slot=form + name) for i, (form, name) in enumerate(given)]
    root = t("root", t("Holder", *(content[::-1] if order else content)))
    key = ("slots", *have, *given, order)
    if key not in CACHE:
        inner, _ = cgx.load_from_string(sfc(holder, "from cgx_parts import Base\n\n\nclass Holder(Base):\n    pass\n"))
        inner.initial = {}
        parts.Holder = inner
        CACHE[key] = cgx.load_from_string(sfc(root, "from cgx_parts import Base, Holder\n\n\nclass Main(Base):\n    pass\n"))[0]
    cls = CACHE[key]
    cls.initial = {}
    state = None
    for step in range(steps):
        c = Bag(**{f"v{i}": E.val(f"v{step}_{i}") for i in range(n_given)})
        if state is None:
            state = reactive({"c": c})
            gui, container = mount(h(cls, state))
        else:
            state["c"] = c
        d = render_children([root], Scope({"c": c}, {}, {"Holder": Comp("Holder", holder)}))
        check_dom(E, container, d, label=f"step {step}")
    E.cover("end")


# ---------------------------------------------------------------------------------

CHECKS = {}
ASSUME = [
    "v-if and v-for are not used on the same element", "names of attributes are in lower case",
    "names of builtins are not used for props, state and attributes of components",
]


def in_places(names=tuple(PLACES), around=tuple(AROUND), steps=2, deep=True):
    """The harness 'places' for some of the places"""
    quick = [dict(places=list(names), around=list(around), steps=1)]
    if len(names) < 8:
        quick.append(dict(places=list(names), around=list(around), steps=steps, names=["given", "kept"]))
    thorough = [dict(places=list(names), around=list(around), steps=2)]
    if deep:
        thorough.append(dict(places=list(names), around=list(around), depth=2, steps=1, n=1))
    return Harness(
        "places", places, quick=quick, thorough=thorough,
        bounds="each of the places x each context (depth = number of nested contexts) x each kind of name; values are symbolic; "
               "steps = number of assignments, n = number of items of loops", covers=["end"])


def add(prop, *harnesses, assumptions=()):
    CHECKS[prop] = Check(prop, list(harnesses), module=__name__, stubs=STUBS,
                         assumptions=[*ASSUME, *assumptions])


add("C15", Harness(
    "chains", chains,
    quick=[dict(n=3, steps=2), dict(n=4, steps=1), dict(n=2, steps=2, bodies=list(BODIES), plain=["el"]),
           dict(n=3, steps=2, wrap="between", plain=["el"]), dict(n=3, steps=1, wrap="slot", plain=["el", "comment"]),
           dict(n=2, steps=2, wrap="loop", plain=["el"])],
    thorough=[dict(n=4, steps=2), dict(n=5, steps=1), dict(n=3, steps=2, bodies=list(BODIES), plain=["el", "text"]),
              dict(n=3, steps=2, wrap="slot", plain=["el", "comment"]), dict(n=3, steps=2, wrap="loop", plain=["el"]),
              dict(n=3, steps=3, plain=["el"])],
    bounds="n = number of siblings, steps = number of assignments of all the conditions; conditions and values are symbolic",
    covers=["end"]),
    Harness("anything", anything,
            quick=[dict(budget=3, steps=1), dict(budget=2, steps=2, kinds=["a", "text", "if", "else", "for", "tmpl"])],
            thorough=[dict(budget=4, steps=1), dict(budget=3, steps=2, kinds=["a", "text", "if", "else", "for", "tmpl"]),
                      dict(budget=2, steps=3)],
            bounds="budget = number of nodes of an arbitrary template", covers=["end"]),
    in_places(("if", "elif", "elif 2", "branches", "if spaced", "if literal")))
add("C16", Harness(
    "loops", loops,
    quick=[dict(n=2, steps=2, kinds=list(LOOPS), bodies=["attr"]), dict(n=2, steps=2, kinds=["plain", "deep", "filter"], bodies=list(LOOP_BODIES)),
           dict(n=3, steps=2, kinds=["plain"], bodies=["keyed", "handler", "comp"]),
           dict(n=1, steps=1, kinds=[k for k in LOOPS if k != "shadow"], bodies=list(LOOP_BODIES)),
           dict(n=1, steps=2, bodies=["attr", "handler", "slots"], slot=True, kinds=["plain", "enumerate"]),
           dict(n=2, steps=1, around=False, bodies=["attr", "handler"])],
    thorough=[dict(n=3, steps=2, kinds=["plain", "enumerate", "filter"], bodies=["attr", "handler"]),
              dict(n=2, steps=2, kinds=[k for k in LOOPS if k not in ("shadow", "product")], bodies=list(LOOP_BODIES)),
              dict(n=3, steps=2, bodies=["keyed"]), dict(n=2, steps=2, bodies=list(LOOP_BODIES), slot=True),
              dict(n=2, steps=3, bodies=["attr", "comp", "cond"])],
    bounds="n = max number of items, steps = number of lists; items are symbolic", covers=["loop plain"]),
    Harness("growing", growing,
            quick=[dict(steps=4), dict(steps=2, body=list(LOOP_BODIES))],
            thorough=[dict(steps=5), dict(steps=3, body=list(LOOP_BODIES))],
            bounds="steps = number of changes of the list in place", covers=["end"]),
    Harness("called", called,
            quick=[dict(names=["item", "name", "str", "zip", "props", "id", "x", "y", "type", "state"],
                        bodies=["attr", "text", "handler", "slot", "named", "cond", "inner", "scope"], n=1)],
            thorough=[dict(names=["item", "name", "str", "zip", "props", "x", "y", "element", "list", "type", "print", "component",
                                  "create_element", "slots", "child", "render", "children", "key", "state", "len", "_"],
                           bodies=["attr", "text", "handler", "slot", "named", "cond", "inner", "scope"], n=2)],
            bounds="n = max number of items; all names of the list", covers=["end"]),
    in_places(("for", "for if", "for for", "for spaced", "for literal")))
add("C17", Harness(
    "binding", binding,
    quick=[dict(n=3, steps=1), dict(n=2, steps=2, keys=["x", "y"]), dict(n=2, steps=1, target=["Line", "e"])],
    thorough=[dict(n=4, steps=1), dict(n=3, steps=2, keys=["x"]), dict(n=2, steps=3, keys=["x", "y"]),
              dict(n=3, steps=1, target=["Line"])],
    bounds="n = max number of attributes, steps = number of assignments", covers=["end"]),
    in_places(("attr", "bound", "dict", "around", "prop", "attr spaced", "literals")),
    Harness("named", named_attrs, quick=[dict(n=1, steps=2), dict(n=2)],
            thorough=[dict(n=2, steps=2), dict(n=3, names=ATTRS[:6])],
            bounds="n = number of attributes with names of the list, steps = number of assignments", covers=["end"]),
    assumptions=["an attribute with value None is the same as no attribute"])
add("C18", Harness(
    "lookup", lookup,
    quick=[dict(steps=1, places=["attr"]), dict(steps=2, instances=1, places=["attr", "handler", "slot"]),
           dict(steps=2, instances=1, places=["text", "if", "for", "local"]),
           dict(steps=1, instances=2, places=["attr"], ops=2, how=["getattr", "property", "class"]),
           dict(steps=1, instances=1, places=["text", "handler"], how=["getattribute", "getattr", "property", "base"])],
    thorough=[dict(steps=2, places=["attr", "if"]), dict(steps=3, instances=1, places=["attr", "text", "if", "for", "handler", "slot", "local"]),
              dict(steps=1, instances=3, places=["attr"])],
    bounds="instances of one component, steps = number of additions/removals", covers=["end"]),
    Harness("imports", imports, quick=[dict()], thorough=[dict(names=["name", "thing", "path", "cls", "warn"])],
            bounds="all ways of importing a name, places and names of the lists", covers=["end"]),
    Harness("shadowed", shadowed, quick=[dict(steps=0), dict(n=1, steps=2)], thorough=[dict(n=3, steps=0), dict(n=2, steps=2)],
            bounds="n = number of imported names, steps = number of names that are added afterwards", covers=["end"]),
    in_places())
add("C19", Harness(
    "texts", texts,
    quick=[dict(steps=2), dict(steps=1, n=2), dict(steps=2, inside=["deep", "if", "for"], kinds=["mid", "expr", "plain", "cond", "name x"])],
    thorough=[dict(steps=3), dict(steps=2, n=2), dict(steps=1, n=3), dict(steps=2, inside=["deep", "if", "for"])],
    bounds="steps = number of assignments, n = number of texts", covers=["end"]),
    in_places(("text", "loose", "text spaced", "literals")))
add("C20", Harness(
    "events", events,
    quick=[dict(steps=2, target=["e", "slot"]), dict(steps=3, kinds=["name", "attr", "lambda"]), dict(steps=1, n=2)],
    thorough=[dict(steps=3, target=["e", "slot"]), dict(steps=2, n=2)],
    bounds="steps = number of assignments, n = number of handlers", covers=["end"]),
    in_places(("handler", "on", "handler spaced")),
    Harness("named", named_events, quick=[dict(), dict(n=2, steps=1, target=["e", "Poke"], events=EVENTS[:6])],
            thorough=[dict(n=2, steps=2), dict(n=3, steps=1, target=["e", "Poke"], events=EVENTS[:7])],
            bounds="n = number of handlers with names of the list, steps = number of assignments", covers=["end"]))
add("C21", Harness(
    "slots", slots,
    quick=[dict(steps=2, content=["el", "if", "words", "empty"]), dict(steps=1), dict(steps=2, names=["default"], content=["el", "if", "for", "comp", "card", "wrap", "empty"])],
    thorough=[dict(steps=2), dict(steps=3, names=["default"], content=["el", "if", "for", "comp", "card", "wrap", "empty"]),
              dict(steps=1, content=["el", "two", "if", "for", "text", "comp", "card", "wrap", "empty"])],
    bounds="steps = number of assignments", covers=["end"]),
    in_places(("attr", "text", "handler", "if", "for", "content", "named", "dotted", "dotted named", "dotted both", "fallback"), ("el", "loop", "if", "card", "wrap", "title", "slot", "slot 1")),
    Harness("named", named_slots, quick=[dict(), dict(names=SLOTS[:4], n_given=2, steps=2)],
            thorough=[dict(n=2, n_given=2), dict(n=3, n_given=2, names=SLOTS[:6])],
            bounds="n = number of slots, n_given = number of given contents, names of the list", covers=["end"]))

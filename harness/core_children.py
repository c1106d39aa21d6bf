"""
Lists of children: a parent element renders a symbolic list of children (number,
kind, key, attributes and text of the children are symbolic), which is replaced a
number of times by another symbolic list.
"""

from .base import *  # noqa: F403
from .base import Cfg, Component, SpecRenderer, check_dom, el, f_eq, f_not, f_or, h, mount, reactive

import numpy as np


class Kids:
    """Opaque list of descriptions"""

    def __init__(self, kids):
        self.kids = kids

    def __eq__(self, other):
        return isinstance(other, Kids) and self.kids is other.kids

    def __hash__(self):
        return 1


class World:
    """What has to be remembered about one execution"""

    def __init__(self):
        self.instances = []


W = World()


class Tracked(Component):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        W.instances.append(self)
        self.serial = len(W.instances)
        self.state["n"] = 0


class Cls(Tracked):
    def render(self):
        return h("c", {"inst": self.serial, "n": self.state["n"], "x": self.props.get("x")})


class Frag(Tracked):
    def render(self):
        return h(
            "template", {},
            h("f", {"inst": self.serial, "n": self.state["n"], "x": self.props.get("x")}),
            h("g"),
        )


class Nest(Tracked):
    def render(self):
        return h(
            "template", {},
            h(Frag, {"x": self.props.get("x")}),
            h("e", {"inst": self.serial, "n": self.state["n"]}),
        )


class Hollow(Tracked):
    """Renders nothing at all"""

    def render(self):
        return h("template")


def Fn(props):
    return h("fn", {"x": props.get("x")})


def FnFrag(props):
    return h("template", {}, h("fn", {"x": props.get("x")}), h("fm"))


def make(kind, key, x):
    """Returns the description of a child"""
    attrs = {} if x is None else {"x": x}
    if kind in ("a", "b"):
        return el(kind, attrs, key=key)
    if kind == "deep":
        return el("deep", {}, el("leaf", attrs), el("leaf2"), key=key)
    if kind == "text":
        return text("some text")
    if kind == "text2":
        return text("other text")
    if kind == "t0":
        return tmpl(key=key)
    if kind == "t1":
        return tmpl(el("a", attrs), key=key)
    if kind == "t2":
        return tmpl(el("a", attrs), el("b", {"y": "1"}), key=key)
    if kind == "slot":
        return tmpl(el("a", attrs), tmpl(el("b"), type="slot"), key=key, type="slot")
    if kind == "tt":
        return tmpl(tmpl(el("a", attrs)), tmpl(), text("in template"), key=key)
    if kind == "cls":
        return comp(Cls, attrs, key=key,
                    expand=lambda: el("c", {"inst": ANY, "n": ANY, **attrs}))
    if kind == "frag":
        return comp(Frag, attrs, key=key, expand=lambda: [
            el("f", {"inst": ANY, "n": ANY, **attrs}), el("g")])
    if kind == "nest":
        return comp(Nest, attrs, key=key, expand=lambda: [
            el("f", {"inst": ANY, "n": ANY, **attrs}), el("g"),
            el("e", {"inst": ANY, "n": ANY})])
    if kind == "hollow":
        return comp(Hollow, attrs, key=key, expand=lambda: [])
    if kind == "fn":
        return comp(Fn, attrs, key=key, expand=lambda: el("fn", attrs))
    if kind == "fnfrag":
        return comp(FnFrag, attrs, key=key, expand=lambda: [el("fn", attrs), el("fm")])
    raise KeyError(kind)


def gen_list(E, step, n, kinds, keys, values, lo=0):
    """A symbolic list of children"""
    count = lo + E.choice(f"n{step}", n + 1 - lo)
    out = []
    ks = []
    for i in range(count):
        kind = E.pick(f"kind{step}_{i}", kinds)
        key = None
        if not kind.startswith("text"):
            if keys == "all" or (keys == "mixed" and E.boolean(f"keyed{step}_{i}")):
                key = E.val(f"key{step}_{i}")
                ks.append(key)
        x = None
        if values == "val":
            x = E.val(f"x{step}_{i}")
        elif values == "opt" and E.boolean(f"has{step}_{i}"):
            x = E.val(f"x{step}_{i}")
        elif values == "step":
            x = f"{step}"
        d = make(kind, key, x)
        d.tag = kind
        out.append(d)
    E.distinct(ks)
    return out


def wrap_view(where, children):
    """The symbolic list is put somewhere in between static elements"""
    if where == "plain":
        return el("root", {}, *children)
    if where == "between":
        return el("root", {}, el("first", {"s": "1"}), tmpl(*children), el("last", {"s": "2"}))
    if where == "container":
        # Directly in the container
        return tmpl(*children)
    if where == "nested":
        # Within nested virtual nodes, with static elements at several levels
        return el("root", {}, el("first"), tmpl(tmpl(*children), el("mid")), el("last"))
    if where == "component":
        return el("root", {}, el("first"),
                  comp(Inner, {"kids": Kids(children)}, expand=lambda: tmpl(*children)),
                  el("last"))
    raise KeyError(where)


class Inner(Component):
    def render(self):
        return to_vnode(tmpl(*self.props["kids"].kids), h)


def snapshot(pairs):
    """What the nodes look like: (node, X, attrs)"""
    return [(n, x, dict(n.attrs)) for n, x in pairs]


def top_nodes(pairs, d):
    """The nodes for the given child description, in document order"""
    if d.kind == "text":
        return [n for n, x in pairs if x.d is d]
    return [n for n, x in pairs if x.d in _own(d)]


def _own(d):
    return [d]


class Grouper:
    """Finds for every child in the list which top level nodes belong to it"""

    def __init__(self, container, where, children):
        nodes = {
            "plain": lambda: container.children[0].children,
            "container": lambda: container.children,
            "between": lambda: container.children[0].children[1:-1],
            "component": lambda: container.children[0].children[1:-1],
            "nested": lambda: container.children[0].children[1:-2],
        }[where]()
        self.groups = []
        i = 0
        for d in children:
            size = len(expected(d))
            self.groups.append((d, list(nodes[i:i + size])))
            i += size
        assert i == len(nodes), "structure has been checked before"


def history(E, n=2, steps=2, kinds=("a",), keys="all", values=None, where="between",
            dom=True, minimal=False, gcs=False, lo=0):
    global W
    W = World()
    lists = []
    first = gen_list(E, 0, n, list(kinds), keys, values, lo)
    lists.append(first)
    view = lambda cfg: wrap_view(where, cfg.children)
    gui, container, update = mount_view(view, Cfg(children=first))
    renderer = gui.renderer
    check_dom(E, container, view(Cfg(children=first)), label="initial")
    groups = None
    if minimal:
        groups = Grouper(container, where, first).groups
    for step in range(1, steps):
        if gcs:
            maybe_gc(E, f"gc{step}")
        before = {}
        if groups is not None:
            for n_ in all_nodes(container):
                before[id(n_)] = (n_, dict(n_.attrs), n_.text)
        del renderer.log[:]
        children = gen_list(E, step, n, list(kinds), keys, values, lo)
        lists.append(children)
        update(Cfg(children=children))
        if dom:
            check_dom(E, container, view(Cfg(children=children)), label=f"step {step}")
        if groups is None:
            continue
        if len(container_nodes(container, where)) != sum(len(expected(d)) for d in children):
            E.check(False, f"step {step}: wrong number of elements")
            return
        new_groups = Grouper(container, where, children).groups
        if minimal:
            check_minimal(E, renderer, before, groups, new_groups, step, container)
        groups = new_groups
        if children:
            E.cover("non-empty update")


def container_nodes(container, where):
    if where == "container":
        return container.children
    nodes = container.children[0].children
    return {"plain": nodes, "between": nodes[1:-1], "component": nodes[1:-1],
            "nested": nodes[1:-2]}[where]


def all_nodes(node):
    for c in node.children:
        yield c
        yield from all_nodes(c)


def check_identity(E, old, new, step):
    """Elements with the same key and type are the very same element: after the update,
    and elements with another key are not."""
    for d, rec in new:
        nodes = rec.nodes
        for od, orec in old:
            if d.key is None or od.key is None:
                continue
            if d.type is not od.type and d.type != od.type:
                continue
            same_key = f_eq(d.key, od.key)
            if d.tag == od.tag:
                same = len(nodes) == len(orec.nodes) and all(
                    a is b for a, b in zip(nodes, orec.nodes))
                E.check(f_or(f_not(same_key), same),
                        f"step {step}: a {d.tag} with the same key got replaced")
                same = rec.inst == orec.inst
                E.check(f_or(f_not(same_key), same),
                        f"step {step}: the component of a {d.tag} with the same key got replaced")
                same = rec.local == orec.local
                E.check(f_or(f_not(same_key), same),
                        f"step {step}: the local state of a {d.tag} with the same key is lost")
                if rec.nodes and rec.nodes[0] is orec.nodes[0]:
                    E.cover("kept")
            other = not any(a is b for a in nodes for b in orec.nodes)
            if set(rec.inst) & set(orec.inst):
                other = False
            E.check(f_or(same_key, other),
                    f"step {step}: a {d.tag} was reused for another key")


class Record:
    def __init__(self, nodes):
        self.nodes = [m for n in nodes for m in [n, *all_nodes(n)]]
        self.inst = [n.attrs["inst"] for n in self.nodes if "inst" in n.attrs]
        self.local = [n.attrs["n"] for n in self.nodes if "n" in n.attrs]


def identity(E, n=2, steps=2, kinds=("a",), where="between", keys="all", local=True,
             gcs=False):
    """Keyed children keep their elements, component instances and local state"""
    global W
    W = World()
    view = lambda cfg: wrap_view(where, cfg.children)
    old = None
    for step in range(steps):
        if old is not None:
            if gcs:
                maybe_gc(E, f"gc{step}")
            if local:
                # Change the local state of all the components on display
                for inst in [i for _, rec in old for i in dict.fromkeys(rec.inst)]:
                    W.instances[inst - 1].state["n"] = f"local {step} {inst}"
                groups = Grouper(container, where, children).groups
                old = [(d, Record(nodes)) for d, nodes in groups]
                for d, rec in old:
                    for node in rec.nodes:
                        if "inst" in node.attrs:
                            E.check(node.attrs["n"] == f"local {step} {node.attrs['inst']}",
                                    f"step {step}: local state is not shown")
        children = gen_list(E, step, n, list(kinds), keys, None)
        if step == 0:
            gui, container, update = mount_view(view, Cfg(children=children))
        else:
            update(Cfg(children=children))
        count = len(container_nodes(container, where))
        E.check(count == sum(len(expected(d)) for d in children),
                f"step {step}: wrong number of elements")
        if count != sum(len(expected(d)) for d in children):
            return
        groups = Grouper(container, where, children).groups
        new = [(d, Record(nodes)) for d, nodes in groups]
        if old is not None:
            check_identity(E, old, new, step)
        old = new


def check_minimal(E, renderer, before, old, new, step, container):
    created = {id(op[1]) for op in renderer.log if op[0] == "create"}
    sets = {}
    for op in renderer.log:
        if op[0] in ("set", "unset") and id(op[1]) not in created:
            node, attr = op[1], op[2]
            E.check((id(node), attr) not in sets,
                    f"step {step}: attribute {attr!r} is updated more than once")
            sets[id(node), attr] = op
            if id(node) not in before:
                continue
            old_value = before[id(node)][1].get(attr)
            new_value = node.attrs.get(attr)
            E.check(f_not(f_eq(old_value, new_value)),
                    f"step {step}: attribute {attr!r} is touched without a change")
        if op[0] == "text" and id(op[1]) in before:
            E.check(f_not(f_eq(before[id(op[1])][2], op[1].text)),
                    f"step {step}: text is set without a change")
    # No element is moved when the order of the keys that are kept is the same
    kept_ids = {id(node) for _, nodes in new for node in nodes if id(node) in before}
    okeys = [d.key for d, _ in old if d.key is not None]
    nkeys = [d.key for d, _ in new if d.key is not None]
    reordered = f_or(*[
        f_and(f_eq(okeys[i], nkeys[j]), f_eq(okeys[i2], nkeys[j2]))
        for i in range(len(okeys)) for i2 in range(i + 1, len(okeys))
        for j in range(len(nkeys)) for j2 in range(j)
    ])
    inserted = {}
    for op in renderer.log:
        if op[0] == "insert":
            inserted[id(op[1])] = inserted.get(id(op[1]), 0) + 1
    E.check(all(v == 1 for v in inserted.values()),
            f"step {step}: an element is inserted more than once")
    for node in all_nodes(container):
        if id(node) in before and id(node) in inserted:
            E.check(id(node) in kept_ids, f"step {step}: a nested element is moved")
            E.check(reordered,
                    f"step {step}: elements are moved while the order is the same")
    created_and_gone = [op for op in renderer.log if op[0] == "create" and op[1].parent is None]
    E.check(not created_and_gone, f"step {step}: an element is created for nothing")



# -- arbitrary trees -----------------------------------------------------------


class Wrap(Tracked):
    """Component that renders its content without an element of its own"""

    def render(self):
        return to_vnode(tmpl(*self.props["kids"].kids), h)


class WrapEl(Tracked):
    """Component that renders its content within an element"""

    def render(self):
        return to_vnode(el("w", {"inst": self.serial}, *self.props["kids"].kids), h)


def WrapFn(props):
    return to_vnode(tmpl(*props["kids"].kids), h)


def tree_node(kind, kids, x, key=None):
    attrs = {"x": x}
    if kind in ("a", "b"):
        return el(kind, attrs, *kids, key=key)
    if kind in ("t", "slot"):
        return tmpl(*kids, key=key, type="slot" if kind == "slot" else "template")
    if kind == "wrap":
        return comp(Wrap, {"kids": Cfg(kids=kids)}, key=key, expand=lambda: tmpl(*kids))
    if kind == "wrapel":
        return comp(WrapEl, {"kids": Cfg(kids=kids)}, key=key,
                    expand=lambda: el("w", {"inst": ANY}, *kids))
    if kind == "wrapfn":
        return comp(WrapFn, {"kids": Cfg(kids=kids)}, key=key, expand=lambda: tmpl(*kids))
    if kind == "text":
        return text(f"text {x}")
    raise KeyError(kind)


def gen_tree(E, name, budget, kinds, x):
    """An arbitrary forest with at most `budget` nodes"""
    pos = 0

    def forest(depth):
        nonlocal pos, budget
        out = []
        while budget > 0:
            pos += 1
            c = E.choice(f"{name}{pos}", len(kinds) + 1)
            if c == 0:
                return out
            budget -= 1
            kind = kinds[c - 1]
            kids = [] if kind == "text" else forest(depth + 1)
            out.append(tree_node(kind, kids, x))
        return out

    return forest(0)


def trees(E, budget=3, steps=1, kinds=("a", "t", "wrap"), gcs=False):
    """Renders an arbitrary tree, which is replaced with another arbitrary tree"""
    global W
    W = World()
    view = lambda cfg: el("root", {}, el("first"), *cfg.children, el("last"))
    gui = container = update = None
    for step in range(steps):
        children = gen_tree(E, f"s{step}_", budget, list(kinds), f"x{step}")
        cfg = Cfg(children=children)
        if step == 0:
            gui, container, update = mount_view(view, cfg)
        else:
            if gcs:
                maybe_gc(E, f"gc{step}")
            update(cfg)
        check_dom(E, container, view(cfg), label=f"step {step}")


def values(E, steps=2, names=("x", "y"), kind="a", key=False):
    """Attribute values, presence of attributes and text are symbolic"""
    global W
    W = World()

    class Show(Component):
        def render(self):
            return h("c", given(self.props))

    def ShowFn(props):
        return h("c", given(props))

    def given(props):
        # Also whether there is a prop
        return {n: props[n] if n in props else "no prop" for n in names}

    def view(cfg):
        if kind == "text":
            return el("root", {}, text(cfg.text), el("a", cfg.attrs))
        if kind == "a":
            return el("root", {}, el("a", cfg.attrs, key="k" if key else None))
        cls = Show if kind == "cls" else ShowFn
        return el("root", {}, comp(
            cls, cfg.attrs,
            expand=lambda: el("c", given(cfg.attrs))))

    def gen(step):
        attrs = {}
        for n in names:
            c = E.choice(f"{n}{step}", 3)
            if c == 1:
                attrs[n] = None
            elif c == 2:
                attrs[n] = E.val(f"{n}{step}v")
        if kind == "cls" and E.boolean(f"o{step}"):
            attrs = dict(reversed(list(attrs.items())))
        return Cfg(attrs=attrs, text=any_text(E, f"t{step}") if kind == "text" else None)

    cfg = gen(0)
    gui, container, update = mount_view(view, cfg)
    check_dom(E, container, view(cfg), label="initial")
    node = container.children[0].children[0]
    for step in range(1, steps):
        before = dict(node.attrs)
        old_text = node.text
        del gui.renderer.log[:]
        old_cfg = cfg
        cfg = gen(step)
        update(cfg)
        check_dom(E, container, view(cfg), label=f"step {step}")
        E.check(container.children[0].children[0] is node, "element got replaced")
        touched = {}
        for op in gui.renderer.log:
            if op[1] is not node:
                continue
            if op[0] in ("set", "unset"):
                E.check(op[2] not in touched, f"attribute {op[2]!r} is updated twice")
                touched[op[2]] = op
                same = f_eq(before.get(op[2]), node.attrs.get(op[2]))
                if (op[2] in old_cfg.attrs) != (op[2] in cfg.attrs):
                    same = False
                E.check(f_not(same), f"attribute {op[2]!r} is touched without a change")
            elif op[0] == "text":
                E.check(f_not(f_eq(old_text, node.text)), "text is set without a change")
            else:
                E.check(False, f"unexpected operation {op[0]}")
        E.cover("update")


class Snapshots(SpecRenderer):
    """Keeps the values of attributes as they were when they were set"""

    def set_attribute(self, el, attr, value):
        super().set_attribute(el, attr, frozen(value))


def frozen(value):
    if isinstance(value, np.ndarray):
        return [value.shape, *value.flat]
    if hasattr(value, "target"):
        value = value.target
    if isinstance(value, (list, tuple)):
        return type(value)(frozen(v) for v in value)
    if isinstance(value, dict):
        return {k: frozen(v) for k, v in value.items()}
    return value


class PassOn(Component):
    def render(self):
        return h("c", {**self.props})


SHAPES = ["list", "dict", "nested", "tuple"]
TARGETS = {"el": "c", "cls": PassOn, "fn": lambda props: h("c", {**props})}


def containers(E, steps=2, kinds=("el", "cls", "fn"), shapes=SHAPES, ops=("set", "more", "less", "replace", "same")):
    """Attributes with containers as values, that are changed in place or replaced.
    Props are watched shallow: either the values are unpacked or something else changes
    as well"""
    unpack = E.boolean("unpack")
    target = TARGETS[E.pick("kind", list(kinds))]
    shape = E.pick("shape", list(shapes))

    def make(name, extra=()):
        v = E.opt(name)
        return {
            "list": lambda: [v, *extra],
            "dict": lambda: {"a": v, **{f"e{x}": x for x in extra}},
            "nested": lambda: {"a": [{"b": v}, *extra]},
            "tuple": lambda: ([v, *extra], "end"),
        }[shape]()

    model = make("start")
    state = reactive({"x": frozen(model), "y": 0})

    def unpacked(value):
        if isinstance(value, tuple):
            return tuple(unpacked(v) for v in value)
        if hasattr(value, "items"):
            return {k: unpacked(v) for k, v in value.items()}
        if hasattr(value, "append"):
            return [unpacked(v) for v in value]
        return value

    def App(props):
        return h("root", {}, h(target, {"x": unpacked(props["x"]) if unpack else props["x"], "y": props["y"]}))

    gui, container = mount(h(App, state), Snapshots())

    def check(label):
        node = container.children[0].children[0]
        E.check(f_eq(node.attrs.get("x"), frozen(model)), f"{label}: attribute has the wrong value")
        E.check(f_eq(node.attrs.get("y"), state["y"]), f"{label}: other attribute has the wrong value")

    check("initial")
    for step in range(steps):
        op = E.pick(f"op{step}", list(ops))
        label = f"step {step} ({shape}, {op})"
        before = frozen(model)
        del gui.renderer.log[:]
        for nr, thing in enumerate((state["x"], model)):
            inner = {"nested": lambda t: t["a"], "tuple": lambda t: t[0]}.get(shape, lambda t: t)(thing)
            if op == "set":
                v = v if nr else E.opt(f"v{step}")
                if shape == "nested":
                    inner[0]["b"] = v
                else:
                    inner["a" if shape == "dict" else 0] = v
            elif op == "more":
                v = v if nr else E.val(f"v{step}")
                if shape == "dict":
                    # (the library observ ignores the assignment of None to a new key)
                    inner[f"key{step}"] = v
                else:
                    inner.append(v)
            elif op == "less" and len(inner) > 1:
                inner.pop(list(inner)[-1]) if shape == "dict" else inner.pop()
        if op == "replace":
            # (the library observ ignores the assignment of an equal container)
            model = make(f"v{step}", [f"step{step}"])
            state["x"] = frozen(model)
        if not unpack:
            state["y"] += 1
        check(label)
        changes = [o for o in gui.renderer.log if o[0] == "set" and o[2] == "x"]
        E.check(f_or(not changes, f_not(f_eq(before, frozen(model)))), f"{label}: attribute is set without a change")
        E.check(len(changes) <= 1, f"{label}: attribute is set more than once")
        E.check(len(gui.renderer.log) == len(changes) + (not unpack), f"{label}: something else is changed")
    E.cover("end")


def arrays(E, steps=2, kinds=("el", "cls", "fn"), lens=2):
    """Attributes with arrays as values, of which the comparison is an array as well"""
    target = TARGETS[E.pick("kind", list(kinds))]

    def gen(step):
        n = E.choice(f"n{step}", lens + 2)
        if n == lens + 1:
            return E.opt(f"x{step}")
        return np.array(E.vals(f"x{step}_", n), dtype=object)

    def describe(cfg):
        return el("root", {}, el("c", {"x": frozen(cfg.x), "y": 1}))

    cfg = Cfg(x=gen(0))
    state = reactive({"cfg": cfg})

    def App(props):
        return h("root", {}, h(target, {"x": props["cfg"].x, "y": 1}))

    gui, container = mount(h(App, state), Snapshots())
    check_dom(E, container, describe(cfg), label="initial")
    for step in range(1, steps):
        old, cfg = cfg, Cfg(x=gen(step))
        del gui.renderer.log[:]
        state["cfg"] = cfg
        check_dom(E, container, describe(cfg), label=f"step {step}")
        E.check(f_or(not gui.renderer.log, f_not(f_eq(frozen(old.x), frozen(cfg.x)))),
                f"step {step}: attribute is set without a change")
        E.check(len(gui.renderer.log) <= 1, f"step {step}: more than the attribute is changed")
        E.cover("update")


def idle(E, n=2, kinds=("a",), keys="all", values=None, where="between", repeat=2):
    """Rendering the same description again doesn't do anything"""
    global W
    W = World()
    children = gen_list(E, 0, n, list(kinds), keys, values)
    view = lambda cfg: wrap_view(where, cfg.children)
    gui, container, update = mount_view(view, Cfg(children=children))
    renders = []
    for inst in W.instances:
        inst.updated = lambda: renders.append("updated")
    for step in range(repeat):
        del gui.renderer.log[:]
        update(Cfg(children=list(children)))
        E.check(not gui.renderer.log,
                f"operations without a change: {[op[0] for op in gui.renderer.log]}")
        E.check(not renders, "updated hook is called without a change")
        check_dom(E, container, view(Cfg(children=children)), label=f"step {step}")


BOUNDS = (
    "see the parameters: n = max number of children per list, steps = number of "
    "consecutive descriptions, budget = max number of nodes per tree; keys and "
    "attribute values are unbounded symbolic values"
)
MIX = ["a", "text", "t0", "t2", "cls", "frag", "fn"]
KEYED = ["a", "b", "t0", "t2", "cls", "frag"]
SINGLE = ["a", "b", "text", "t1", "slot", "cls", "frag", "fn"]
# Names of attributes that look like something else
NAMES = [["online", "x"], ["on", "oN_x"], ["content", "children"], ["class", "type"], ["slots", "props"], ["data-on_x", "x.y"], ["keys", "Key"], ["", "default"]]
ALL = ["a", "b", "deep", "text", "text2", "t0", "t1", "t2", "tt", "slot", "cls", "frag", "nest",
       "hollow", "fn", "fnfrag"]
TREE = ["a", "t", "wrap", "wrapfn", "text"]

CHECKS = {}

CHECKS["C01"] = Check(
    "C01",
    [
        Harness("trees", trees,
                quick=[dict(budget=4, steps=1, kinds=["a", "b", "t", "wrap", "wrapel", "wrapfn", "text"]),
                       dict(budget=4, steps=1, kinds=["a", "slot", "wrap", "text"])],
                thorough=[dict(budget=5, steps=1, kinds=["a", "b", "t", "wrap", "wrapel", "wrapfn", "text"])],
                bounds=BOUNDS),
        Harness("lists", history,
                quick=[dict(n=2, steps=1, kinds=ALL, keys="mixed", where=w, values="opt")
                       for w in ("between", "component")]
                + [dict(n=3, steps=1, kinds=MIX, keys="none", where="container")],
                thorough=[dict(n=3, steps=1, kinds=ALL, keys="mixed", where=w)
                          for w in ("plain", "between", "container", "nested", "component")],
                bounds=BOUNDS),
        Harness("values", values,
                quick=[dict(steps=1, names=["x", "y", "z"], kind=k) for k in ("a", "cls", "fn", "text")]
                + [dict(steps=1, names=n, kind=k) for k in ("a", "cls", "fn") for n in NAMES],
                bounds=BOUNDS),
    ],
    module=__name__, stubs=STUBS,
)

CHECKS["C02"] = Check(
    "C02",
    [
        Harness("keyed", history,
                quick=[dict(n=3, steps=3, kinds=["a"], keys="all", where="plain"),
                       dict(n=4, steps=2, kinds=["a"], keys="all", where="between"),
                       dict(n=2, steps=3, kinds=["a", "t2"], keys="all", where="between"),
                       dict(n=2, steps=2, kinds=KEYED, keys="all", where="nested")],
                thorough=[dict(n=4, steps=3, kinds=["a"], keys="all", where="plain"),
                          dict(n=5, steps=2, kinds=["a"], keys="all", where="plain"),
                          dict(n=3, steps=2, kinds=["a", "t2", "frag"], keys="all", where="nested"),
                          dict(n=3, steps=2, kinds=["a", "t0", "nest"], keys="all", where="component"),
                          dict(n=2, steps=3, kinds=["a", "t2", "frag"], keys="all", where="between")],
                bounds=BOUNDS),
        Harness("unkeyed", history,
                quick=[dict(n=2, steps=2, kinds=MIX, keys="none", where="container"),
                       dict(n=3, steps=2, kinds=["a", "t2", "text"], keys="none", where="component")],
                thorough=[dict(n=3, steps=2, kinds=MIX, keys="none", where="between"),
                          dict(n=2, steps=2, kinds=ALL, keys="none", where="component"),
                          dict(n=2, steps=3, kinds=["a", "text", "t2", "frag"], keys="none", where="nested", gcs=True)],
                bounds=BOUNDS),
        Harness("single", history,
                quick=[dict(n=1, lo=1, steps=4, kinds=SINGLE, keys="none", where=w, values="step") for w in ("plain", "between")],
                thorough=[dict(n=1, lo=1, steps=5, kinds=SINGLE, keys="none", where=w, values="step") for w in ("plain", "nested")]
                + [dict(n=1, lo=1, steps=5, kinds=SINGLE, keys="all", where="between", values="step"),
                   dict(n=1, steps=6, kinds=["a", "cls", "frag", "t1"], keys="none", where="component", values="step")],
                bounds=BOUNDS),
        Harness("mixed", history,
                quick=[dict(n=2, steps=2, kinds=["a", "frag", "text"], keys="mixed", where="between", gcs=True)],
                thorough=[dict(n=3, steps=2, kinds=["a", "frag"], keys="mixed", where="between"),
                          dict(n=2, steps=3, kinds=["a", "t2"], keys="mixed", where="between")],
                bounds=BOUNDS),
        Harness("trees", trees,
                quick=[dict(budget=3, steps=2, kinds=["a", "t", "wrap"])],
                thorough=[dict(budget=3, steps=2, kinds=TREE), dict(budget=4, steps=2, kinds=["a", "t", "wrap"]),
                          dict(budget=2, steps=3, kinds=["a", "t", "wrap"])],
                bounds=BOUNDS),
        Harness("values", values,
                quick=[dict(steps=3, names=["x"], kind=k) for k in ("a", "cls", "fn")]
                + [dict(steps=2, names=n, kind=k) for k in ("a", "cls", "fn") for n in NAMES]
                + [dict(steps=3, names=[], kind="text")],
                thorough=[dict(steps=3, names=["x", "y"], kind=k) for k in ("a", "cls", "fn")]
                + [dict(steps=4, names=["x"], kind="text")],
                bounds=BOUNDS, covers=["update"]),
        Harness("containers", containers,
                quick=[dict(steps=2)],
                thorough=[dict(steps=3), dict(steps=4, kinds=["el"], ops=["set", "more", "less"])],
                bounds="lists, dictionaries and combinations of these with symbolic values; steps = number of changes", covers=["end"]),
        Harness("arrays", arrays, quick=[dict(steps=2), dict(steps=3, kinds=["el"], lens=1)], thorough=[dict(steps=3), dict(steps=2, lens=4)],
                bounds="lens = max length of an array of symbolic values", covers=["update"]),
    ],
    module=__name__, stubs=STUBS,
)

CHECKS["C05"] = Check(
    "C05",
    [
        Harness("lists", history,
                quick=[dict(n=3, steps=2, kinds=["a"], keys="all", where="between", minimal=True, values="val"),
                       dict(n=2, steps=2, kinds=["a", "t2", "frag"], keys="all", where="nested", minimal=True, values="step"),
                       dict(n=2, steps=2, kinds=["a", "deep", "t2", "frag", "cls"], keys="all", where="component", minimal=True),
                       dict(n=3, steps=2, kinds=["a", "text", "t2"], keys="none", where="between", minimal=True)],
                thorough=[dict(n=4, steps=2, kinds=["a"], keys="all", where="between", minimal=True),
                          dict(n=3, steps=3, kinds=["a"], keys="all", where="between", minimal=True),
                          dict(n=3, steps=2, kinds=["a", "t2"], keys="all", where="between", minimal=True, values="val"),
                          dict(n=2, steps=2, kinds=["a", "deep", "t2", "frag", "cls", "nest"], keys="all", where="component", minimal=True)],
                bounds=BOUNDS, covers=["non-empty update"]),
        Harness("values", values,
                quick=[dict(steps=3, names=["x"], kind="a"), dict(steps=2, names=["x", "y"], kind="a"),
                       dict(steps=3, names=["x"], kind="cls"), dict(steps=2, names=["x", "y"], kind="fn"),
                       dict(steps=3, names=[], kind="text")],
                thorough=[dict(steps=4, names=["x"], kind="a"), dict(steps=3, names=["x", "y"], kind="a"),
                          dict(steps=2, names=["x", "y", "z"], kind="a"), dict(steps=3, names=["x", "y"], kind="cls")],
                bounds=BOUNDS, covers=["update"]),
        Harness("containers", containers,
                quick=[dict(steps=2)],
                thorough=[dict(steps=3), dict(steps=4, kinds=["el"], ops=["set", "more", "less"])],
                bounds="lists, dictionaries and combinations of these with symbolic values; steps = number of changes", covers=["end"]),
        Harness("arrays", arrays, quick=[dict(steps=2), dict(steps=3, kinds=["el"], lens=1)], thorough=[dict(steps=3), dict(steps=2, lens=4)],
                bounds="lens = max length of an array of symbolic values", covers=["update"]),
    ],
    module=__name__, stubs=STUBS,
)

CHECKS["C27"] = Check(
    "C27",
    [
        Harness("idle", idle,
                quick=[dict(n=2, kinds=ALL, keys="mixed", where="between"),
                       dict(n=3, kinds=["a", "t2", "frag", "text"], keys="mixed", where="component")],
                thorough=[dict(n=3, kinds=ALL, keys="mixed", where=w) for w in ("plain", "container", "nested", "component")],
                bounds=BOUNDS),
    ],
    module=__name__, stubs=STUBS,
)

CHECKS["C03"] = Check(
    "C03",
    [
        Harness("identity", identity,
                quick=[dict(n=3, steps=3, kinds=["a"], where="plain"),
                       dict(n=4, steps=2, kinds=["cls"], where="between"),
                       dict(n=3, steps=2, kinds=["deep", "frag"], where="component"),
                       dict(n=2, steps=2, kinds=["a", "b", "cls", "frag", "nest"], where="nested"),
                       dict(n=2, steps=2, kinds=["cls", "a"], where="between", keys="mixed"),
                       dict(n=2, steps=2, kinds=["cls", "nest"], where="between", gcs=True)],
                thorough=[dict(n=4, steps=3, kinds=["a"], where="plain"),
                          dict(n=3, steps=3, kinds=["cls"], where="between"),
                          dict(n=3, steps=2, kinds=["a", "b", "cls", "frag"], where="component"),
                          dict(n=2, steps=3, kinds=["a", "cls", "nest"], where="nested"),
                          dict(n=2, steps=3, kinds=["cls", "a"], where="between", keys="mixed"),
                          dict(n=3, steps=2, kinds=["cls", "a", "deep"], where="between", keys="mixed"),
                          dict(n=2, steps=3, kinds=["cls", "nest"], where="between", gcs=True)],
                bounds=BOUNDS, covers=["kept"]),
    ],
    module=__name__, stubs=STUBS,
)


def tree_of(node):
    return [(id(c), c.type, c.text, tuple(sorted((k, id(v)) for k, v in c.attrs.items())),
             len(c.handlers), tree_of(c)) for c in node.children]

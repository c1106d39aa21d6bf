"""The pygfx renderer: real pygfx objects (no GPU is needed), driven by the real reconciler"""

import copy
from collections import namedtuple

from symx.boot import boot

cg = boot(pygfx=True)

import numpy as np  # noqa: E402
import pygfx as gfx  # noqa: E402

from .base import *  # noqa: F403,E402
from .base import Cfg, Check, Collagraph, Component, EventLoopType, Harness, comp, el, expected, f_and, f_eq, h, perm_eq, reactive, reset, tmpl, to_vnode  # noqa: E402
from collagraph.renderers import PygfxRenderer  # noqa: E402
from collagraph.renderers import pygfx_renderer as PR  # noqa: E402

Event = namedtuple("Event", ["type", "cancelled"], defaults=[False])
STATE = {k: (v, copy.copy(v)) for k, v in vars(PR).items() if type(v) in (dict, list, set) and not k.startswith("__")}


def restore_state():
    """Caches of the renderer are as at the start of the process"""
    for v, saved in STATE.values():
        if isinstance(v, list):
            v[:] = saved
        else:
            v.clear()
            v.update(saved)


CLASSES = {"group": gfx.Group, "mesh": gfx.Mesh, "Scene": gfx.Scene, "world-object": gfx.WorldObject,
           "ambient-light": gfx.AmbientLight, "point-light": gfx.PointLight, "spotLight": gfx.SpotLight,
           "directional-light": gfx.DirectionalLight, "perspective-camera": gfx.PerspectiveCamera,
           "orthographic-camera": gfx.OrthographicCamera, "background": gfx.Background, "axes-helper": gfx.AxesHelper}


class Part(Component):
    def render(self):
        return to_vnode(tmpl(*self.props["kids"].kids), h)


def children(E, n=3, steps=2, types=("group",), virtual=(), keyed=True, nested=False):
    """The children of an object are those of the latest description, in order"""
    restore_state()
    reset()

    def gen(step, prefix="", depth=nested):
        count = E.choice(f"n{prefix}{step}", n + 1)
        keys = [E.text(f"key{prefix}{step}_{i}") for i in range(count)] if keyed else [None] * count
        if keyed:
            E.distinct(keys)
        kids = []
        for i, k in enumerate(keys):
            form = E.pick(f"form{prefix}{step}_{i}", [*types, *virtual])
            label = k if keyed else E.text(f"label{prefix}{step}_{i}")
            inner = gen(step, f"{prefix}_{i}", False) if depth else []
            if form == "tmpl":
                kids.append(tmpl(el(types[0], {"label": label}), el(types[-1], {"label": "second"}), key=k))
            elif form == "part":
                content = [el(types[0], {"label": label}), el(types[-1], {"label": "second"})]
                kids.append(comp(Part, {"kids": Cfg(kids=content)}, expand=lambda content=content: content, key=k))
            else:
                kids.append(el(form, {"label": label}, *inner, key=k))
        return kids

    first = gen(0)
    state = reactive({"cfg": Cfg(kids=first)})

    def Main(props):
        return to_vnode(el("scene", {}, el("group", {}), tmpl(*props["cfg"].kids), el("mesh", {})), h)

    container = gfx.Scene()
    gui = Collagraph(PygfxRenderer(), event_loop_type=EventLoopType.SYNC)
    gui.render(h(Main, state), container)

    def same(nodes, kids, label):
        xs = [x for k in kids for x in expected(k)]
        match(nodes, xs, label)

    def match(nodes, xs, label):
        E.check(len(nodes) == len(xs), f"{label}: wrong number of children")
        if len(nodes) != len(xs):
            return
        for i, (node, x) in enumerate(zip(nodes, xs)):
            E.check(type(node) is CLASSES[x.type], f"{label}: wrong type of child at {i}")
            E.check(f_eq(node.label, x.attrs["label"]), f"{label}: wrong child at {i}")
            match(node.children, x.children, f"{label}/{i}")

    def check(kids, label):
        E.check(len(container.children) == 1, f"{label}: wrong number of roots")
        scene = container.children[0]
        nodes = list(scene.children)
        E.check(len(nodes) >= 2 and type(nodes[0]) is gfx.Group and type(nodes[-1]) is gfx.Mesh,
                f"{label}: static children are not in place")
        for node in nodes:
            E.check(node.parent is scene, f"{label}: child has another parent")
        same(nodes[1:-1], kids, label)

    check(first, "initial")
    for step in range(1, steps):
        kids = gen(step)
        state["cfg"] = Cfg(kids=kids)
        check(kids, f"step {step}")
    E.cover("end")


MISSING = "missing"
ATTRS = {
    "visible": (lambda o: o.visible, "bool"),
    "render_order": (lambda o: o.render_order, "number"),
    "local.position": (lambda o: tuple(float(v) for v in o.local.position), "vector"),
    "local.scale": (lambda o: tuple(float(v) for v in o.local.scale), "vector"),
    "local.matrix": (lambda o: tuple(float(v) for v in o.local.matrix.flatten()), "matrix"),
    "own": (lambda o: getattr(o, "own", MISSING), "any"),
    "other": (lambda o: getattr(o, "other", MISSING), "any"),
    "local.own": (lambda o: getattr(o.local, "own", MISSING), "any"),
    "intensity": (lambda o: o.intensity, "float"),
    "distance": (lambda o: o.distance, "float"),
    "local.x": (lambda o: float(o.local.x), "float"),
    "local.euler_x": (lambda o: round(float(o.local.euler_x), 4), "half"),
    "shadow.bias": (lambda o: o.shadow.bias, "float"),
    "shadow.camera.zoom": (lambda o: o.shadow.camera.zoom, "float"),
    "shadow.camera.own": (lambda o: getattr(o.shadow.camera, "own", MISSING), "any"),
    "material.opacity": (lambda o: o.material.opacity, "half"),
    "material.color": (lambda o: tuple(o.material.color), "color"),
    "zoom": (lambda o: o.zoom, "float"),
    "color": (lambda o: tuple(o.color), "color"),
    "geometry": (lambda o: o.geometry, "any"),
}


class Wrap(Component):
    """Passes its props on to an object"""

    def render(self):
        return h(self.props["type"], {k[5:]: v for k, v in self.props.items() if k.startswith("attr_")})


def attributes(E, steps=3, names=("own",), types=("group",), nones=False, arrays=False, wrap=False):
    """Attributes have the value of the latest description; an attribute that is removed
    gets its default value back, or ceases to exist when there is none"""
    box = np.array if arrays else tuple
    restore_state()
    reset()
    pristine = {t: {a: ATTRS[a][0](CLASSES[t]()) for a in names} for t in set(types)}

    def gen(step):
        out = []
        for i, type in enumerate(types):
            attrs = {}
            for a in names:
                n = f"{a}{step}_{i}"
                form = E.pick(f"has {n}", ["absent", "value", "none"] if nones else ["absent", "value"])
                kind = ATTRS[a][1]
                if form == "none":
                    attrs[a] = None
                elif form == "value":
                    if kind == "bool":
                        attrs[a] = E.boolean(n)
                    elif kind == "number":
                        attrs[a] = E.choice(n, 3)
                    elif kind == "float":
                        attrs[a] = 7.0 + E.choice(n, 3)
                    elif kind == "half":
                        attrs[a] = 0.25 * E.choice(n, 3)
                    elif kind == "color":
                        attrs[a] = [(1.0, 0.0, 0.0, 1.0), (0.0, 1.0, 0.0, 1.0)][E.choice(n, 2)]
                    elif kind == "vector":
                        attrs[a] = box((1.0 + E.choice(n, 3), 2.0, 3.0))
                    elif kind == "matrix":
                        attrs[a] = np.eye(4)
                        attrs[a][:3, 3] = (1.0 + E.choice(n, 3), 2.0, 3.0)
                    else:
                        attrs[a] = E.val(n)
            out.append(attrs)
        return out

    first = gen(0)
    state = reactive({"cfg": Cfg(attrs=first)})

    def node(type, attrs):
        # The very same arrays aren't used twice
        attrs = {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in attrs.items()}
        if wrap:
            return h(Wrap, {"type": type, **{f"attr_{k}": v for k, v in attrs.items()}})
        return h(type, attrs)

    def Main(props):
        return h("scene", {}, *[node(t, a) for t, a in zip(types, props["cfg"].attrs)])

    container = gfx.Scene()
    gui = Collagraph(PygfxRenderer(), event_loop_type=EventLoopType.SYNC)
    gui.render(h(Main, state), container)

    def check(current, label):
        nodes = container.children[0].children
        E.check(len(nodes) == len(types), f"{label}: wrong number of objects")
        for i, (node, attrs) in enumerate(zip(nodes, current)):
            for a in names:
                want = attrs.get(a)
                value = ATTRS[a][0](node)
                if want is None:
                    want = pristine[types[i]][a]
                    if nones and want is MISSING and value is None:
                        continue
                if isinstance(want, np.ndarray):
                    want = tuple(float(v) for v in want.flatten())
                E.check(f_eq(value, want), f"{label}: {a} of object {i} has the wrong value")

    check(first, "initial")
    for step in range(1, steps):
        current = gen(step)
        state["cfg"] = Cfg(attrs=current)
        check(current, f"step {step}")
    E.cover("end")


class Tagged(gfx.Group):
    """An object with attributes that are mutable and that are never copied"""

    def __init__(self):
        super().__init__()
        self.tags = []
        self.names = {}


def mutable(E, steps=3, count=2, attr="tags"):
    """The default value of an attribute is that of the object itself: it's not shared
    with other objects"""
    restore_state()
    reset()
    gfx.Tagged = Tagged

    def gen(step):
        out = []
        for i in range(count):
            if E.boolean(f"set{step}_{i}"):
                v = E.val(f"value{step}_{i}")
                out.append([v] if attr == "tags" else {"k": v})
            else:
                out.append(None)
        return out

    def node(value):
        return h("tagged", {} if value is None else {attr: value.copy()})

    def Main(props):
        return h("scene", {}, *[node(v) for v in props["cfg"].values])

    def items(v):
        return list(v) if attr == "tags" else [x for item in v.items() for x in item]

    first = gen(0)
    state = reactive({"cfg": Cfg(values=first)})
    container = gfx.Scene()
    try:
        gui = Collagraph(PygfxRenderer(), event_loop_type=EventLoopType.SYNC)
        gui.render(h(Main, state), container)
        nodes = container.children[0].children
        objects = list(nodes)
        had = [False] * count
        want = [v if v is not None else ([] if attr == "tags" else {}) for v in first]
        values = first
        for step in range(steps):
            if step:
                previous, values = values, gen(step)
                state["cfg"] = Cfg(values=values)
                for i, (old, new) in enumerate(zip(previous, values)):
                    if new is not None:
                        want[i] = new
                    elif old is not None:
                        want[i] = [] if attr == "tags" else {}
            for i in range(count):
                had[i] = had[i] or values[i] is not None
                E.check(nodes[i] is objects[i] and type(nodes[i]) is Tagged, f"step {step}: another object")
                E.check(f_eq(items(getattr(nodes[i], attr)), items(want[i])), f"step {step}: wrong value of object {i}")
                # The application uses the object; the default that is in use after the
                # attribute has been removed is its own
                if step < steps - 1 and values[i] is None and had[i] and E.boolean(f"mutate{step}_{i}"):
                    own = getattr(nodes[i], attr)
                    item = E.val(f"item{step}_{i}")
                    if attr == "tags":
                        own.append(item)
                        want[i] = [*want[i], item]
                    else:
                        own["more"] = item
                        want[i] = {**want[i], "more": item}
    finally:
        del gfx.Tagged
    E.cover("end")


def touched(E, attr="render_order", type="mesh", count=2, steps=2):
    """Objects can be changed by the application as well: that doesn't influence the
    values that are the result of later descriptions, for whatever object"""
    restore_state()
    reset()
    read = ATTRS[attr][0]
    pristine = read(CLASSES[type]())

    def value(name):
        kind = ATTRS[attr][1]
        if kind == "bool":
            return E.boolean(name)
        if kind == "vector":
            return (1.0 + E.choice(name, 3), 2.0, 3.0)
        return 7.0 + E.choice(name, 3) if kind == "float" else E.choice(name, 3)

    def change(obj, v):
        *names, last = attr.split(".")
        for name in names:
            obj = getattr(obj, name)
        setattr(obj, last, v)

    def gen(step):
        return [value(f"value{step}_{i}") if E.boolean(f"has{step}_{i}") else None for i in range(count)]

    def Main(props):
        return h("scene", {}, *[h(type, {} if v is None else {attr: v}) for v in props["cfg"].values])

    first = gen(0)
    state = reactive({"cfg": Cfg(values=first)})
    container = gfx.Scene()
    gui = Collagraph(PygfxRenderer(), event_loop_type=EventLoopType.SYNC)
    gui.render(h(Main, state), container)
    nodes = list(container.children[0].children)
    E.check(len(nodes) == count, "wrong number of objects")
    current = first
    want = [pristine if v is None else v for v in first]
    for step in range(steps):
        if step:
            previous, current = current, gen(step)
            state["cfg"] = Cfg(values=current)
            for i, (old, new) in enumerate(zip(previous, current)):
                if new is None:
                    want[i] = want[i] if old is None else pristine
                else:
                    # The attribute is only set again when it is another value
                    E.assume(old is None or old != new or want[i] == new)
                    want[i] = new
        for i in range(count):
            E.check(f_eq(read(nodes[i]), want[i]), f"step {step}: wrong {attr} of object {i}")
            if step < steps - 1 and E.boolean(f"change{step}_{i}"):
                want[i] = value(f"changed{step}_{i}")
                change(nodes[i], want[i])
    E.cover("end")


LOG = []


class Methods:
    def __init__(self, tag):
        self.tag = tag

    def handle(self, event):
        LOG.append(("method", self.tag))


def make_handler(kind, tag):
    if kind == "closure":
        return (lambda event: LOG.append(("closure", tag))), ("closure", tag)
    if kind == "default":
        return (lambda event, tag=tag: LOG.append(("default", tag))), ("default", tag)
    return Methods(tag).handle, ("method", tag)


def listeners(E, steps=3, kinds=("none", "closure", "default", "method"), events=("click",), count=1):
    """Events call exactly the current handlers"""
    restore_state()
    reset()
    del LOG[:]

    def gen(step):
        out = []
        for i in range(count):
            on = {}
            for ev in events:
                kind = E.pick(f"kind{step}_{i}_{ev}", list(kinds))
                if kind != "none":
                    on[ev] = make_handler(kind, E.val(f"tag{step}_{i}_{ev}"))
            out.append(on)
        return out

    first = gen(0)
    state = reactive({"cfg": Cfg(on=first)})

    def Main(props):
        return h("scene", {}, *[h("mesh", {f"on_{ev}": fn for ev, (fn, _) in on.items()}) for on in props["cfg"].on])

    container = gfx.Scene()
    gui = Collagraph(PygfxRenderer(), event_loop_type=EventLoopType.SYNC)
    gui.render(h(Main, state), container)

    def check(current, label):
        nodes = container.children[0].children
        E.check(len(nodes) == count, f"{label}: wrong number of objects")
        for i, (node, on) in enumerate(zip(nodes, current)):
            for ev in events:
                del LOG[:]
                node.handle_event(Event(ev))
                E.check(perm_eq(list(LOG), [on[ev][1]] if ev in on else []),
                        f"{label}: wrong handlers are called for {ev} of object {i}")
        del LOG[:]

    check(first, "initial")
    for step in range(1, steps):
        current = gen(step)
        state["cfg"] = Cfg(on=current)
        check(current, f"step {step}")
    E.cover("end")


PLAIN = ["visible", "render_order", "local.position", "local.scale", "local.matrix", "own", "other", "local.own", "local.x"]
LIGHTS = ["ambient-light", "point-light", "spotLight", "directional-light"]
CAMERAS = ["perspective-camera", "orthographic-camera"]
DEEP = [dict(names=[a], types=t, steps=s) for a, t, s in [
    ("local.x", ["mesh"], 3), ("local.euler_x", ["group", "mesh"], 2), ("shadow.bias", ["point-light", "directional-light"], 2),
    ("shadow.camera.zoom", ["directional-light"], 3), ("shadow.camera.own", ["spotLight"], 3),
    ("material.opacity", ["axes-helper"], 3), ("material.color", ["axes-helper"], 3)]]
MIXED = ([dict(names=["intensity"], types=[a, b], steps=2) for a in LIGHTS for b in LIGHTS if a != b]
         + [dict(names=["color"], types=LIGHTS[1:3], steps=2), dict(names=["distance"], types=["point-light", "spotLight"], steps=3),
            dict(names=["zoom"], types=CAMERAS, steps=2), dict(names=["render_order"], types=["background", "mesh"], steps=2),
            dict(names=["local.position"], types=["perspective-camera", "group"], steps=2)])
B = "n = max number of (keyed) children; steps = number of descriptions; keys, labels, values of attributes and captured values are symbolic"
CHECKS = {
    "C30": Check("C30", [
        Harness("children", children,
                quick=[dict(n=3), dict(n=2, types=["group", "mesh"]), dict(n=2, steps=3),
                       dict(n=2, virtual=["tmpl", "part"]), dict(n=1, nested=True, types=["Scene", "world-object"]),
                       dict(n=2, keyed=False, types=["group", "mesh"])],
                thorough=[dict(n=4), dict(n=3, types=["group", "mesh"]), dict(n=3, steps=3),
                          dict(n=3, virtual=["tmpl", "part"]), dict(n=2, nested=True),
                          dict(n=3, keyed=False, types=["group", "mesh"])],
                bounds=B, covers=["end"]),
        Harness("attributes", attributes,
                quick=[dict(names=[a], steps=3) for a in PLAIN]
                + [dict(names=["local.position"], arrays=True), dict(names=["local.scale"], arrays=True, types=["mesh", "mesh"], steps=2),
                   dict(names=["local.position"], arrays=True, wrap=True), dict(names=["local.matrix", "own"], wrap=True, steps=2)]
                + [dict(names=[a], steps=3, types=["mesh"], nones=True) for a in ("own", "geometry")]
                + [dict(names=[a], steps=2, types=["group", "group"]) for a in ("own", "local.position", "visible")]
                + [dict(names=["own", "other"], steps=2), dict(names=["own"], steps=3, types=["group", "group"]),
                   dict(names=["visible", "local.position"], steps=3), dict(names=["own"], steps=2, types=["group", "mesh"])] + MIXED + DEEP,
                thorough=[dict(d, steps=3) for d in MIXED] + [dict(d, steps=4) for d in DEEP] + [dict(names=[a], steps=4) for a in PLAIN]
                + [dict(names=[a], steps=4, types=["mesh"], nones=True) for a in ("own", "geometry")]
                + [dict(names=[a], steps=3, types=["group", "group"]) for a in PLAIN]
                + [dict(names=["own", "visible", "local.position"], steps=3, types=["group"])],
                bounds=B, covers=["end"]),
        Harness("touched", touched, quick=[dict(attr="render_order", count=1, steps=3), dict(attr="visible", count=1, steps=3),
                                           dict(attr="visible"), dict(attr="local.position", count=1, steps=3),
                                           dict(attr="intensity", type="point-light", count=1, steps=3)],
                thorough=[dict(attr=a) for a in ("render_order", "visible", "local.position")] + [dict(attr="visible", steps=3)],
                bounds=B, covers=["end"]),
        Harness("mutable", mutable, quick=[dict(), dict(attr="names", steps=2)],
                thorough=[dict(steps=4), dict(attr="names")], bounds=B, covers=["end"]),
        Harness("listeners", listeners,
                quick=[dict(), dict(steps=2, events=["click", "pointer_down"]), dict(steps=2, count=2)],
                thorough=[dict(steps=4), dict(steps=3, events=["click", "pointer_down"]), dict(steps=3, count=2)],
                bounds=B, covers=["end"]),
    ], module=__name__, stubs=["pygfx without GPU (nothing is drawn); events are handed to handle_event"]),
}

"""
Rendering again: Collagraph.render is called more than once for the same container, with
another description, in between of changes of state, or even before the previous call
has been finished.
"""

from .base import *  # noqa: F403
from .base import Component, h, reactive
from . import core_app


class World:
    def __init__(self):
        self.instances = []
        self.events = []
        self.container = None
        self.hook = None
        self.call = None


W = World()


def attached(node):
    while node is not None:
        if node is W.container:
            return True
        node = node.parent
    return False


class Part(Component):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        W.instances.append(self)
        self.serial = len(W.instances)
        self.state["n"] = "n"

    def attrs(self):
        return {"inst": self.serial, "n": self.state["n"], "x": self.props.get("x")}

    def render(self):
        return h("part", self.attrs())

    def mounted(self):
        W.events.append(("mounted", self, attached(self.element)))

    def updated(self):
        W.events.append(("updated", self, attached(self.element)))

    def before_unmount(self):
        W.events.append(("unmount", self, attached(self.element)))


class Caller(Part):
    """Calls render in one of its hooks"""

    def called(self, hook):
        if W.call is not None and W.hook == hook:
            call, W.call = W.call, None
            call()

    def mounted(self):
        super().mounted()
        self.called("mounted")

    def updated(self):
        super().updated()
        self.called("updated")

    def before_unmount(self):
        super().before_unmount()
        self.called("unmount")


class Pieces(Part):
    def render(self):
        return h("template", {}, h("piece", self.attrs()), h("other"))


class Outer(Part):
    def render(self):
        return h("outer", self.attrs(), h("in", {}), h(Part, {"x": self.props.get("x")}))


def Fn(props):
    return h("fn", {"x": props.get("x")}, h(Part, {"x": props.get("x")}))


def inst(type, x, *children):
    return el(type, {"inst": ANY, "n": ANY, "x": x}, *children)


class Source:
    """Reactive state that is itself used as the props"""

    def __init__(self, v):
        self.state = reactive({"x": v})
        self.x = v


def describe(E, kind, name, key=None):
    """-> (D, things of which the state can change)"""
    x = E.val(f"{name}x")
    attrs = {"x": x}
    if kind in ("a", "b"):
        return el(kind, attrs, el("leaf"), key=key)
    if kind == "rows":
        keys = E.vals(f"{name}key", E.choice(f"{name}n", 3))
        E.distinct(keys)
        return el("a", {}, *[comp(Part, attrs, key=k, expand=lambda: [inst("part", x)]) for k in keys], key=key)
    if kind == "part":
        return comp(Part, attrs, key=key, expand=lambda: inst("part", x))
    if kind == "pieces":
        return comp(Pieces, attrs, key=key, expand=lambda: [inst("piece", x), el("other")])
    if kind == "outer":
        return comp(Outer, attrs, key=key, expand=lambda: inst("outer", x, el("in"), inst("part", x)))
    if kind == "fn":
        return comp(Fn, attrs, key=key, expand=lambda: el("fn", {"x": x}, inst("part", x)))
    if kind == "tmpl":
        return tmpl(el("a", attrs), comp(Part, attrs, expand=lambda: inst("part", x)), key=key)
    if kind in ("live", "live part"):
        source = Source(x)
        if kind == "live":
            d = D("live", "a", tag=source)
        else:
            d = D("live", Part, tag=source)
        return d
    raise KeyError(kind)


def vnode(d):
    return h(d.type, d.tag.state) if d.kind == "live" else to_vnode(d, h)


def wanted(d):
    if d.kind != "live":
        return d
    return el("a", {"x": d.tag.x}) if d.type == "a" else inst("part", d.tag.x)


def nodes_of(node):
    yield node
    for c in node.children:
        yield from nodes_of(c)


class Watched:
    """Checks the instances after every operation"""

    def __init__(self, E):
        self.E = E
        self.n = {}
        self.alive = {}
        self.dead = set()

    def check(self, label, kept=False):
        E = self.E
        now = {}
        for node in nodes_of(W.container):
            if "inst" in node.attrs:
                i = node.attrs["inst"]
                E.check(i not in now, f"{label}: instance is rendered twice")
                now[i] = node
                E.check(f_eq(node.attrs["n"], self.n.get(i, "n")), f"{label}: outdated state of a component")
        for i, instance in enumerate(W.instances, start=1):
            name = f"{label}: {type(instance).__name__}"
            m, b = (sum(1 for e in W.events if e[0] == kind and e[1] is instance) for kind in ("mounted", "unmount"))
            if i in now:
                E.check(i not in self.dead, f"{name}: removed component is back")
                E.check(m == (i not in self.alive), f"{name}: mounted is not called once")
                E.check(b == 0, f"{name}: before_unmount is called while it's there")
                E.check(instance.element is now[i], f"{name}: wrong element")
            elif i in self.alive:
                E.check(b == 1 and m == 0, f"{name}: before_unmount is not called once when removed")
                self.dead.add(i)
                E.cover("removed")
            else:
                E.check(m == b, f"{name}: hooks of a component that isn't there")
        for kind, instance, ok in W.events:
            E.check(ok, f"{label}: {kind} is called without the element in place")
        if kept:
            E.check(list(now) == list(self.alive), f"{label}: components are not kept")
            E.cover("kept")
        self.alive = now
        del W.events[:]


KINDS = ["a", "b", "rows", "part", "pieces", "outer", "fn", "tmpl", "live", "live part"]


def again(E, steps=3, kinds=KINDS, ops=("render", "same", "state", "source"), keyed=False, gcs=False):
    global W
    W = World()
    reset()
    gui = Collagraph(SpecRenderer(), event_loop_type=EventLoopType.SYNC)
    container = W.container = SpecRenderer.node("container", 0)
    watched = Watched(E)
    sources = []
    calls = []
    d = node = kind = None
    for step in range(steps):
        op = E.pick(f"op{step}", list(ops)) if step else "render"
        label = f"step {step} ({op})"
        kept = op != "render"
        if gcs:
            maybe_gc(E, f"gc{step}")
        if op == "render":
            before, was = d, kind
            kind = E.pick(f"kind{step}", list(kinds))
            key = E.opt(f"key{step}") if keyed else None
            d = describe(E, kind, f"s{step}", key)
            node = vnode(d)
            if d.kind == "live":
                sources.append(d.tag)
            if before is not None and kind == was and kind != "rows":
                # Is the same element or component, with other props
                if f_eq(before.key, d.key):
                    kept = True
            gui.render(node, container, *([lambda: calls.append(1)] if E.boolean(f"callback{step}") else []))
        elif op == "same":
            # Precisely the same description
            gui.render(node, container)
        elif op == "state":
            if W.instances:
                i = E.choice(f"inst{step}", len(W.instances))
                watched.n[i + 1] = E.val(f"n{step}")
                W.instances[i].state["n"] = watched.n[i + 1]
        elif op == "source" and sources:
            s = sources[E.choice(f"source{step}", len(sources))]
            s.x = E.val(f"v{step}")
            s.state["x"] = s.x
        check_dom(E, container, wanted(d), label=label)
        watched.check(label, kept)
    E.cover("end")


def interrupt(E, jumps=1, kinds=("a", "part", "outer", "tmpl"), renders=2, states=1, gap=4, finished=0):
    """The second call is done before the first one has been finished"""
    global W
    W = World()
    reset()
    loop = core_app.FakeLoop()
    asyncio.set_event_loop_policy(core_app.FakePolicy(loop))
    gui = Collagraph(SpecRenderer(), event_loop_type=EventLoopType.DEFAULT)
    container = W.container = SpecRenderer.node("container", 0)
    Clock.now = core_app.SymClock(E, 0 if finished else jumps)
    watched = Watched(E)
    calls = []

    def turns(limit=None):
        done = 0
        while loop.queue and (limit is None or done < limit):
            loop.run_one()
            done += 1
            if done > 60:
                E.check(False, "rendering does not come to an end")
                return

    d = None
    for nr in range(renders):
        if nr == finished:
            Clock.now = core_app.SymClock(E, jumps)
        d = describe(E, E.pick(f"kind{nr}", list(kinds)), f"s{nr}")
        gui.render(vnode(d), container, lambda nr=nr: calls.append(nr))
        if nr < finished:
            turns()
            watched.check("before")
        elif nr < renders - 1:
            turns(E.choice(f"turns{nr}", gap))
            if loop.queue:
                E.cover("interrupted")
    turns()
    check_dom(E, container, wanted(d), label="finished")
    E.check(calls[-1:] == [renders - 1], "callback is not called")
    watched.check("finished")
    for nr in range(states):
        if W.instances:
            i = E.choice(f"inst{nr}", len(W.instances))
            watched.n[i + 1] = E.val(f"n{nr}")
            W.instances[i].state["n"] = watched.n[i + 1]
            turns()
            check_dom(E, container, wanted(d), label="after a change")
            watched.check("after a change", True)
    E.cover("end")


def superseded(E, sizes=(2, 1, 2), jumps=1, gap=3, first=None, kinds=("el", "part")):
    """
    Lists of keyed elements or components: the last description is rendered before the
    one (or the change of state) in between has been finished.
    """
    global W
    W = World()
    reset()
    loop = core_app.FakeLoop()
    asyncio.set_event_loop_policy(core_app.FakePolicy(loop))
    gui = Collagraph(SpecRenderer(), event_loop_type=EventLoopType.DEFAULT)
    container = W.container = SpecRenderer.node("container", 0)
    Clock.now = core_app.SymClock(E, 0)
    watched = Watched(E)
    kind = E.pick("kind", list(kinds))
    # With state, the lists are rendered by a component
    state = reactive({"keys": []}) if E.boolean("state") else None

    def turns(limit=None):
        done = 0
        while loop.queue and (limit is None or done < limit):
            loop.run_one()
            done += 1
            if done > 60:
                E.check(False, "rendering does not come to an end")
                return

    def item(key):
        if kind == "el":
            return el("row", {"x": key}, el("leaf"), key=key)
        return comp(Part, {"x": key}, key=key, expand=lambda: inst("part", key))

    def rows(keys):
        return el("rows", {}, *[item(k) for k in keys])

    def Rows(props):
        return to_vnode(rows(state["keys"]), h)

    d = None
    shown = False
    for nr, size in enumerate(sizes):
        if nr == len(sizes) - 2:
            Clock.now = core_app.SymClock(E, jumps)
        if E.boolean(f"whole{nr}"):
            # Another description altogether
            d = el("other", {}, item(E.val(f"other{nr}")))
            described = to_vnode(d, h)
            shown = False
        else:
            keys = E.vals(f"r{nr}k", E.choice(f"n{nr}", size + 1))
            E.distinct(keys)
            d = rows(keys)
            described = to_vnode(d, h)
            if state is not None:
                # The component might be there already
                described = None if shown and E.boolean(f"only{nr}") else h(Rows, {})
                state["keys"] = list(keys)
                shown = True
        if described is not None:
            gui.render(described, container)
        if nr == len(sizes) - 2:
            for _ in range(E.choice("turns", gap)):
                turns(1)
            if loop.queue:
                E.cover("interrupted")
        else:
            turns()
            if nr < len(sizes) - 2:
                watched.check("first")
    check_dom(E, container, wanted(d), label="finished")
    watched.check("finished")
    E.cover("end")


def within(E, kinds=("a", "rows", "part", "outer"), calls=2, states=1):
    """Render is called by a hook, so while the update of a previous description is carried out"""
    global W
    W = World()
    reset()
    synced = E.boolean("sync")
    if synced:
        gui = Collagraph(SpecRenderer(), event_loop_type=EventLoopType.SYNC)
        turns = lambda: None  # noqa: E731
    else:
        loop = core_app.FakeLoop()
        asyncio.set_event_loop_policy(core_app.FakePolicy(loop))
        gui = Collagraph(SpecRenderer(), event_loop_type=EventLoopType.DEFAULT)
        Clock.now = core_app.SymClock(E, 0)

        def turns():
            done = 0
            while loop.queue:
                loop.run_one()
                done += 1
                if done > 60:
                    E.check(False, "rendering does not come to an end")
                    return

    container = W.container = SpecRenderer.node("container", 0)
    watched = Watched(E)
    finished = []
    x = E.val("x")
    caller = comp(Caller, {"x": x}, expand=lambda: inst("part", x))
    part = comp(Part, {"x": x}, expand=lambda: inst("part", x))
    place = E.pick("place", ["top", "first", "last"])
    d = {"top": caller, "first": el("a", {}, caller, part), "last": el("a", {}, part, el("b", {}, caller))}[place]
    W.hook = E.pick("hook", ["mounted", "updated", "unmount"])
    n_calls = 1 + E.choice("calls", calls)
    nexts = [
        d if E.boolean(f"same{nr}") else describe(E, E.pick(f"kind{nr}", list(kinds)), f"s{nr}") for nr in range(n_calls)
    ]

    def call():
        for nr, desc in enumerate(nexts):
            gui.render(vnode(desc), container, lambda nr=nr: finished.append(nr))
        E.cover(f"called by {W.hook}")

    W.call = call
    gui.render(vnode(d), container)
    turns()
    if W.hook != "mounted":
        check_dom(E, container, wanted(d), label="first")
        watched.check("first")
    if W.hook == "updated":
        i = next(i for i, c in enumerate(W.instances) if isinstance(c, Caller))
        watched.n[i + 1] = E.val("n")
        E.assume(watched.n[i + 1] != "n")
        W.instances[i].state["n"] = watched.n[i + 1]
    elif W.hook == "unmount":
        gui.render(vnode(el("b", {}, part) if E.boolean("same") else el("leaf")), container)
    turns()
    E.check(W.call is None, "hook is not called")
    check_dom(E, container, wanted(nexts[-1]), label="finished")
    E.check(finished[-1:] == [n_calls - 1], "callback is not called")
    watched.check("finished")
    for nr in range(states):
        if W.instances:
            i = E.choice(f"inst{nr}", len(W.instances))
            watched.n[i + 1] = E.val(f"n{nr}")
            W.instances[i].state["n"] = watched.n[i + 1]
            turns()
            check_dom(E, container, wanted(nexts[-1]), label="after a change")
            watched.check("after a change", True)
    E.cover("end")


CHECKS = {"C39": Check(
    "C39",
    [Harness("again", again,
             quick=[dict(steps=3)],
             thorough=[dict(steps=4, kinds=["a", "part", "outer", "live"]), dict(steps=3, keyed=True, gcs=True)],
             bounds="steps = number of calls of render and changes of state of (possibly removed) components", covers=["end", "kept", "removed"]),
     Harness("interrupt", interrupt,
             quick=[dict(), dict(renders=4, finished=2, states=0, kinds=["a", "part"]), dict(renders=3, finished=1, states=0, kinds=["a", "part", "pieces"])],
             thorough=[dict(jumps=2), dict(renders=3, states=0), dict(renders=4, finished=2, kinds=["b", "part", "outer"], jumps=2)],
             bounds="renders = number of calls of render, of which the first (finished) are not interrupted; gap = number of turns of the event loop in between; jumps = number of readings "
             "of the clock at which the deadline is exceeded", covers=["end", "interrupted"]),
     Harness("superseded", superseded,
             quick=[dict()],
             thorough=[dict(jumps=2), dict(sizes=(2, 2, 2, 2)), dict(sizes=(2, 3, 3), kinds=("el",))],
             bounds="sizes = lengths of the lists; gap = number of turns of the event loop; jumps = number of readings of the clock at "
             "which the deadline is exceeded", covers=["end", "interrupted"]),
     Harness("within", within,
             quick=[dict()],
             thorough=[dict(kinds=KINDS[:-2], calls=2, states=2)],
             bounds="calls = number of calls of render by one hook; states = number of changes of state after that",
             covers=["end", "called by mounted", "called by updated", "called by unmount"])],
    module=__name__, stubs=STUBS + core_app.ASYNC_STUBS[2:])}

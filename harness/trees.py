"""
Trees side by side of which the updates are interleaved: each of the instances of
Collagraph is either synchronous or does its work in slices of the event loop.
"""

from .base import *  # noqa: F403
from .base import Component, h, reactive
from . import core_app


class World:
    def __init__(self):
        self.instances = []
        self.store = reactive({"z": "z"})
        self.nested = None
        self.hook = None
        self.hooks = []


W = World()


class Tree(Component):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        W.instances.append(self)
        self.state["n"] = "n"
        self.state["keys"] = []
        # What is to be shown
        self.model = {"n": "n", "keys": []}

    def render(self):
        return h("tree", {"n": self.state["n"], "z": W.store["z"], "x": self.props["x"]},
                 *[h(Leaf, {"key": k, "x": self.props["x"]}) for k in self.state["keys"]],
                 h("end", {"n": self.state["n"]}))

    def mounted(self):
        W.hooks.append(("mounted", self))
        nest("mounted")

    def updated(self):
        W.hooks.append(("updated", self))
        nest("updated")


def nest(hook):
    """Renders another tree while the tree of the component is being updated"""
    if W.nested is not None and W.hook == hook:
        nested, W.nested = W.nested, None
        nested()


class Leaf(Component):
    def before_unmount(self):
        nest("before_unmount")

    def render(self):
        return h("leaf", {"x": self.props["x"]})


def interleaved(E, steps=2, jumps=1, gap=3, trees=2, ops=("n", "keys", "z", "x"), late=True, modes=("separate", "nested")):
    global W
    W = World()
    reset()
    loop = core_app.FakeLoop()
    asyncio.set_event_loop_policy(core_app.FakePolicy(loop))
    Clock.now = core_app.SymClock(E, jumps)
    mode = E.pick("mode", list(modes))
    shared = E.boolean("one renderer")
    same = E.boolean("one description")
    props = reactive({"x": "x"})
    renderer = SpecRenderer()
    guis, containers = [], []
    for i in range(trees):
        kind = EventLoopType.SYNC if E.boolean(f"sync{i}") else EventLoopType.DEFAULT
        guis.append(Collagraph(renderer if shared else SpecRenderer(), event_loop_type=kind))
        containers.append(SpecRenderer.node("container", i))
    common = {"z": "z", "x": "x"}
    node = h(Tree, props)
    calls = []

    def start(i):
        guis[i].render(node if same else h(Tree, props), containers[i], lambda: calls.append(i))

    def turns(limit=None):
        done = 0
        while loop.queue and (limit is None or done < limit):
            loop.run_one()
            done += 1
            if done > 80:
                E.check(False, "rendering does not come to an end")
                return

    def check_all(label):
        """Contents of all containers, which are those of the components in there"""
        for container in containers:
            m = next((i.model for i in W.instances if i.element is not None and i.element.parent is container), None)
            E.check(m is not None, f"{label}: no component in the container")
            check_dom(E, container, el("tree", {"n": m["n"], "z": common["z"], "x": common["x"]},
                                       *[el("leaf", {"x": common["x"]}) for _ in m["keys"]],
                                       el("end", {"n": m["n"]})), label=label)

    if mode == "nested":
        W.nested = lambda: [start(i) for i in range(1, trees)]
        W.hook = E.pick("hook", ["mounted", "updated", "before_unmount"])
        start(0)
        if W.hook != "mounted":
            turns()
            instance = W.instances[0]
            if W.hook == "before_unmount":
                nested, W.nested = W.nested, None
                instance.state["keys"] = ["k", "l"]
                turns()
                W.nested = nested
                instance.state["keys"] = instance.model["keys"] = ["l", "m"][: E.choice("left", 3)]
            else:
                instance.state["n"] = instance.model["n"] = "m"
            turns()
            E.check(W.nested is None, "hook is not called")
        E.cover(f"nested in {W.hook}")
    else:
        for i in range(trees):
            start(i)
            if late:
                turns(E.choice(f"turns of {i}", gap))
    if late:
        if loop.queue:
            E.cover("not finished")
    else:
        turns()
    for step in range(steps):
        op = E.pick(f"op{step}", list(ops))
        if op in ("n", "keys"):
            # The trees in which there are components already
            if not W.instances:
                continue
            instance = W.instances[E.choice(f"which{step}", len(W.instances))]
            model = instance.model
            if op == "n":
                model["n"] = instance.state["n"] = E.val(f"n{step}")
            else:
                keys = E.vals(f"k{step}", E.choice(f"count{step}", 3))
                E.distinct(keys)
                instance.state["keys"] = model["keys"] = keys
        elif op == "z":
            common["z"] = E.val(f"z{step}")
            W.store["z"] = common["z"]
        else:
            common["x"] = E.val(f"x{step}")
            props["x"] = common["x"]
        if loop.queue:
            E.cover("interleaved")
        turns(E.choice(f"turns{step}", gap) if step < steps - 1 else None)
    turns()
    check_all("finished")
    E.check(len(W.instances) == trees, "instances got replaced")
    for i in range(trees):
        E.check(i in calls, f"callback of tree {i} is not called")
    for instance in W.instances:
        E.check(W.hooks.count(("mounted", instance)) == 1, "mounted is not called once")
    if not shared:
        for g in guis:
            own = {id(entry[1]) for entry in g.renderer.log if entry[0] == "create"}
            E.check(all(id(entry[1]) in own for entry in g.renderer.log), "element of the renderer of another tree")
        # A change in one of the trees is of no concern to the others
        which = E.choice("last", trees)
        instance = W.instances[which]
        model = instance.model
        others = [g for g, c in zip(guis, containers) if instance.element.parent is not c]
        for g in guis:
            del g.renderer.log[:]
        del W.hooks[:]
        model["n"] = instance.state["n"] = E.val("last n")
        turns()
        check_all("after a change of one")
        for g in others:
            E.check(not g.renderer.log, "another tree is touched")
        E.check(all(i is instance for _, i in W.hooks), "hook of a component in another tree")
    E.cover("end")

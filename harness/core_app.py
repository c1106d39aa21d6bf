"""
An application with state at several levels (nested state, lists that are changed in
place, local state of components, slots), which goes through arbitrary histories of
state changes.

* sync: every change is rendered right away
* async: rendering happens in slices of time. The clock is symbolic, and the changes
  happen at an arbitrary moment in between the slices.
"""

from .base import *  # noqa: F403
from .base import Component, EventLoopType, Node, h, reactive
from . import core_children


class World:
    def __init__(self):
        self.rows = {}  # key -> instance
        self.panel = None
        self.app = None
        self.serial = 0
        self.renders = 0


W = World()


def attrs_of(**kw):
    return {k: v for k, v in kw.items()}


class Row(Component):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        W.serial += 1
        self.serial = W.serial
        self.state["sel"] = None
        W.rows[self.props["k"]] = self

    def render(self):
        W.renders += 1
        return h("row", {"k": self.props["k"], "label": self.props.get("label"),
                         "sel": self.state["sel"], "serial": self.serial})


class Panel(Component):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.state["open"] = False
        W.panel = self

    def render(self):
        W.renders += 1
        return h(
            "template", {},
            h("head", {"title": self.props["title"]}),
            *([h("body", {}, *self.render_slot("default", {}))]
              if self.state["open"] else []),
        )


def Footer(props):
    W.renders += 1
    return h("footer", {"n": props["n"]})


class App(Component):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        W.app = self
        self.state["banner"] = False
        self.state["title"] = "title"
        self.state["items"] = ["i1", "i2"]
        self.state["labels"] = {"i1": "one"}
        self.state["meta"] = {"color": "red"}

    def render(self):
        W.renders += 1
        st = self.state
        title = st["title"]
        return h(
            "root", dict(st["meta"]),
            *([h("banner", {"key": "banner", "title": title})] if st["banner"] else []),
            h(Panel, {"key": "panel", "title": title},
              {"default": lambda props: [h("content", {"title": st["title"]})]}),
            *[h(Row, {"key": k, "k": k, "label": st["labels"].get(k)}) for k in st["items"]],
            f"{len(st['items'])} items",
            h(Footer, {"key": "footer", "n": len(st["items"])}),
        )


class Model:
    """The oracle: plain Python values"""

    def __init__(self):
        self.banner = False
        self.title = "title"
        self.items = ["i1", "i2"]
        self.labels = {"i1": "one"}
        self.meta = {"color": "red"}
        self.open = False
        self.sel = {}
        self.fresh = 2

    def view(self):
        row = lambda k: el("row", {"k": k, "label": self.labels.get(k),
                                   "sel": self.sel.get(k), "serial": ANY})
        return el(
            "root", dict(self.meta),
            *([el("banner", {"key": ANY, "title": self.title})] if self.banner else []),
            el("head", {"title": self.title}),
            *([el("body", {}, el("content", {"title": self.title}))] if self.open else []),
            *[row(k) for k in self.items],
            text(f"{len(self.items)} items"),
            el("footer", {"n": len(self.items)}),
        )

    def copy(self):
        m = Model()
        m.__dict__.update({k: (v.copy() if isinstance(v, (list, dict)) else v)
                           for k, v in self.__dict__.items()})
        return m


# Every operation changes the state and the model

def op_banner(E, m, name):
    m.banner = not m.banner
    W.app.state["banner"] = m.banner


def op_title(E, m, name):
    m.title = W.app.state["title"] = E.val(name)


def op_append(E, m, name):
    m.fresh += 1
    m.items.append(f"i{m.fresh}")
    W.app.state["items"].append(f"i{m.fresh}")


def op_prepend(E, m, name):
    m.fresh += 1
    m.items.insert(0, f"i{m.fresh}")
    W.app.state["items"].insert(0, f"i{m.fresh}")


def op_pop(E, m, name):
    if m.items:
        m.sel.pop(m.items.pop(0), None)
        W.app.state["items"].pop(0)


def op_reverse(E, m, name):
    m.items.reverse()
    W.app.state["items"].reverse()


def op_swap(E, m, name):
    if len(m.items) > 1:
        m.items[0], m.items[-1] = m.items[-1], m.items[0]
        W.app.state["items"][:] = m.items.copy()


def op_replace(E, m, name):
    """Other list, with one of the items that are there now"""
    m.fresh += 1
    keep = m.items[-1:]
    for k in m.items[:-1]:
        m.sel.pop(k, None)
    m.items = [f"i{m.fresh}", *keep]
    W.app.state["items"] = list(m.items)


def op_open(E, m, name):
    m.open = not m.open
    W.panel.state["open"] = m.open


def op_sel(E, m, name):
    """Local state of the first row (if it's on display)"""
    if m.items and m.items[0] in W.rows:
        m.sel[m.items[0]] = W.rows[m.items[0]].state["sel"] = E.val(name)


def op_sel_last(E, m, name):
    if m.items and m.items[-1] in W.rows:
        m.sel[m.items[-1]] = W.rows[m.items[-1]].state["sel"] = E.val(name)


def op_label(E, m, name):
    if m.items:
        m.labels[m.items[-1]] = E.val(name)
        W.app.state["labels"][m.items[-1]] = m.labels[m.items[-1]]


def op_color(E, m, name):
    m.meta["color"] = W.app.state["meta"]["color"] = E.val(name)


def op_extra(E, m, name):
    if "extra" in m.meta:
        del m.meta["extra"]
        del W.app.state["meta"]["extra"]
    else:
        m.meta["extra"] = W.app.state["meta"]["extra"] = E.val(name)


OPS = {
    "banner": op_banner, "title": op_title, "append": op_append, "prepend": op_prepend,
    "pop": op_pop, "reverse": op_reverse, "swap": op_swap, "replace": op_replace,
    "open": op_open, "sel": op_sel, "sel_last": op_sel_last, "label": op_label,
    "color": op_color, "extra": op_extra,
}


def check_rows(E, container, before, label):
    """The instances (and the elements) of the rows are kept"""
    after = rows_of(container)
    for k, (node, serial) in after.items():
        if k in before:
            E.check(before[k][0] is node, f"{label}: the element of a row got replaced")
            E.check(before[k][1] == serial, f"{label}: the instance of a row got replaced")
    return after


def rows_of(container):
    if not container.children:
        return {}
    return {n.attrs["k"]: (n, n.attrs["serial"])
            for n in container.children[0].children if n.type == "row"}


def sync(E, steps=3, ops=tuple(OPS), gcs=False):
    global W
    W = World()
    m = Model()
    gui, container = mount(h(App))
    check_dom(E, container, m.view(), label="initial")
    rows = rows_of(container)
    for step in range(1, steps + 1):
        if gcs:
            maybe_gc(E, f"gc{step}")
        name = E.pick(f"op{step}", list(ops))
        OPS[name](E, m, f"v{step}")
        check_dom(E, container, m.view(), label=f"step {step}")
        rows = check_rows(E, container, rows, f"step {step}")
    del gui.renderer.log[:]
    E.check(not gui.renderer.log, "operations without a change")


# -- asynchronous rendering ------------------------------------------------------


class SmallApp(Component):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        W.app = self
        self.state["title"] = "title"
        self.state["items"] = ["i1"]

    def render(self):
        W.renders += 1
        return h(
            "root", {"title": self.state["title"]},
            *[h("item", {"key": k, "title": self.state["title"]}) for k in self.state["items"]],
            h(SmallFooter, {"key": "footer", "count": len(self.state["items"])}),
            h(SmallPanel, {"key": "panel", "count": len(self.state["items"])}),
        )


def SmallFooter(props):
    W.renders += 1
    return h("foot", {"count": props["count"]})


class SmallPanel(Component):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        W.panel = self
        self.state["open"] = False

    def render(self):
        W.renders += 1
        return h("body" if self.state["open"] else "head", {"count": self.props.get("count")})


class SmallModel(Model):
    def __init__(self):
        super().__init__()
        self.items = ["i1"]

    def view(self):
        return el(
            "root", {"title": self.title},
            *[el("item", {"title": self.title}, key=k) for k in self.items],
            el("foot", {"count": len(self.items)}),
            el("body" if self.open else "head",
               {"count": len(self.items)}),
        )


class FakeLoop:
    """Stub for the event loop: callbacks run in the order in which they're scheduled"""

    def __init__(self):
        self.queue = []

    def call_soon(self, fn, *args, context=None):
        self.queue.append((fn, args))

    call_soon_threadsafe = call_soon

    def call_later(self, delay, fn, *args, context=None):
        self.queue.append((fn, args))

    def call_at(self, when, fn, *args, context=None):
        self.queue.append((fn, args))

    def run_one(self):
        fn, args = self.queue.pop(0)
        fn(*args)

    def is_running(self):
        return True

    def is_closed(self):
        return False

    def get_debug(self):
        return False


class FakePolicy(asyncio.DefaultEventLoopPolicy):
    def __init__(self, loop):
        super().__init__()
        self._fake = loop

    def get_event_loop(self):
        return self._fake


class SymClock:
    """The time is arbitrary, as long as it doesn't go back. To bound the number of
    slices, the clock stands still after it went forward `jumps` times (an arbitrary
    amount of time, at arbitrary readings)."""

    def __init__(self, E, jumps):
        self.E = E
        self.jumps = jumps
        self.n = 0
        self.t = 1000

    def __call__(self):
        if self.jumps > 0:
            self.n += 1
            if self.E.boolean(f"jump{self.n}"):
                self.jumps -= 1
                self.t = self.t + self.E.integer(f"dt{self.n}", lo=1)
        return self.t


def run_async(E, jumps=2, changes=2, ops=("title",), start_idle=True, atomic=True,
              callback=False, small=True):
    """The state changes at arbitrary moments, rendering is done in slices of time"""
    global W
    reset()
    W = World()
    m = SmallModel() if small else Model()
    loop = FakeLoop()
    asyncio.set_event_loop_policy(FakePolicy(loop))
    renderer = SpecRenderer()
    calls = []
    gui = Collagraph(renderer, event_loop_type=EventLoopType.DEFAULT)
    container = Node("container", 0)
    clock = SymClock(E, 0 if start_idle else jumps)
    Clock.now = clock
    gui.render(h(SmallApp if small else App), container, *([lambda: calls.append(1)] if callback else []))
    turns = 0
    if start_idle:
        while loop.queue:
            loop.run_one()
            turns += 1
            assert turns < 50
        check_dom(E, container, m.view(), label="initial")
        clock.jumps = jumps
    shown = dom_snapshot(container)
    done = 0
    pending = False  # a change happened since the last moment that the loop was idle
    mid = False  # a change happened while there was work going on
    while True:
        idle = not loop.queue
        if idle:
            if not start_idle and W.app is None:
                E.check(False, "nothing is rendered")
                return
            check_dom(E, container, m.view(), label=f"idle after {done} changes")
            if callback:
                E.check(len(calls) >= 1, "render callback is not called")
            mid = False
            shown = dom_snapshot(container)
            E.cover("idle")
            if done == changes:
                break
        can_change = done < changes and W.app is not None and W.panel is not None
        if can_change and (idle or E.boolean(f"change{turns}")):
            name = E.pick(f"op{done}", list(ops))
            if not idle:
                mid = True
                E.cover("change in between slices")
            done += 1
            OPS[name](E, m, f"v{done}")
            E.check(dom_snapshot(container) == shown, "rendered outside of the event loop")
            if not loop.queue:
                # No effective change (an equal value)
                continue
            if E.boolean(f"again{turns}_{done}"):
                # Another change before giving way to the loop
                if done < changes:
                    name = E.pick(f"op{done}", list(ops))
                    done += 1
                    OPS[name](E, m, f"v{done}")
            turns += 1
            continue
        before_calls = len(calls)
        loop.run_one()
        turns += 1
        now = dom_snapshot(container)
        if atomic and not mid and now != shown:
            # All or nothing
            check_dom(E, container, m.view(), label=f"turn {turns}: partial update")
        if atomic and len(calls) > before_calls and not mid:
            check_dom(E, container, m.view(), label="render callback called too early")
        shown = now
        if turns > 60:
            E.check(False, "rendering does not come to an end")
            return
    E.cover(f"slices {min(turns, 6)}")


def dom_snapshot(node):
    return [(id(c), tuple((k, id(v)) for k, v in c.attrs.items()), id(c.text) if c.text else None,
             dom_snapshot(c)) for c in node.children]


BOUNDS = (
    "steps/changes = number of state changes (each an arbitrary operation out of the "
    "list), jumps = number of clock readings at which the deadline is exceeded; the "
    "amounts of time are unbounded"
)

ASYNC_STUBS = STUBS[:2] + [
    "clock: arbitrary non-decreasing integers, stands still after `jumps` late readings",
    "event loop: FIFO queue of callbacks, state changes in between any two callbacks",
]

CHECKS = {}
SMALL = ["title", "append", "prepend", "pop", "replace", "open"]

CHECKS["C07"] = Check(
    "C07",
    [
        Harness("slices", run_async,
                quick=[dict(jumps=1, changes=2, ops=["title", "append", "open"], atomic=False),
                       dict(jumps=1, changes=1, ops=list(OPS), atomic=False, small=False)],
                thorough=[dict(jumps=2, changes=2, ops=["title", "append", "open"], atomic=False),
                          dict(jumps=1, changes=3, ops=["title", "append", "open"], atomic=False),
                          dict(jumps=1, changes=2, ops=SMALL, atomic=False),
                          dict(jumps=2, changes=1, ops=list(OPS), atomic=False, small=False)],
                bounds=BOUNDS, covers=["idle", "change in between slices"]),
        Harness("mounting", run_async,
                quick=[dict(jumps=2, changes=1, ops=["title", "append", "open"], start_idle=False, atomic=False)],
                thorough=[dict(jumps=2, changes=2, ops=["title", "append", "open"], start_idle=False, atomic=False)],
                bounds=BOUNDS, covers=["idle", "change in between slices"]),
    ],
    module=__name__, stubs=ASYNC_STUBS,
)
CHECKS["C08"] = Check(
    "C08",
    [
        Harness("slices", run_async,
                quick=[dict(jumps=2, changes=1, ops=SMALL, callback=True),
                       dict(jumps=3, changes=0, ops=["title"], start_idle=False, callback=True)],
                thorough=[dict(jumps=3, changes=1, ops=SMALL, callback=True),
                          dict(jumps=2, changes=2, ops=SMALL, callback=True),
                          dict(jumps=6, changes=0, ops=["title"], start_idle=False, callback=True)],
                bounds=BOUNDS, covers=["idle"]),
    ],
    module=__name__, stubs=ASYNC_STUBS,
)
APP = Harness("app", sync,
              quick=[dict(steps=3)],
              thorough=[dict(steps=4), dict(steps=3, gcs=True)],
              bounds=BOUNDS)
C02 = core_children.CHECKS["C02"]
CHECKS["C02"] = Check("C02", [*C02.harnesses, APP], module=__name__, stubs=STUBS)

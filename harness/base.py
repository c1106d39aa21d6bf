"""Shared parts of the harnesses for the core of collagraph"""

from symx.boot import boot, Clock  # noqa: F401

cg = boot()

import asyncio  # noqa: E402,F401
import gc  # noqa: E402
import time  # noqa: E402,F401

from collagraph import Collagraph, Component, EventLoopType, h  # noqa: E402
from collagraph.renderers import Renderer  # noqa: E402
from observ import reactive, scheduler  # noqa: E402
from observ.dep import Dep  # noqa: E402
from symx.dom import (  # noqa: E402,F401
    ANY, ContractError, D, Matcher, Node, check_dom, comp, el, expected, handler,
    make_renderer, text, tmpl, to_vnode,
)
from symx.engine import f_and, f_eq, f_not, f_or, perm_eq  # noqa: E402,F401
from symx.runner import Check, Harness  # noqa: E402,F401

SpecRenderer = make_renderer(Renderer)


class Cfg:
    """Opaque (non reactive) bag of values, used as the value of one piece of state"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def reset():
    """A previous path can have been cut off at any point: the library observ keeps
    global state that has to be brought back to its initial state."""
    del Dep.stack[:]
    scheduler.clear()
    Clock.reset()


def mount(vnode, renderer=None):
    reset()
    gui = Collagraph(renderer or SpecRenderer(), event_loop_type=EventLoopType.SYNC)
    container = gui.renderer.node("container", 0) if isinstance(gui.renderer, SpecRenderer) else Node("container", 0)
    gui.render(vnode, container)
    return gui, container


def mount_view(view, first, renderer=None):
    """Mount a root function component that renders view(cfg), where cfg is a piece
    of state. Returns gui, container, update(cfg)."""
    state = reactive({"cfg": first})

    def App(props):
        return to_vnode(view(props["cfg"]), h)

    gui, container = mount(h(App, state), renderer)

    def update(cfg):
        state["cfg"] = cfg

    update.state = state
    return gui, container, update


def any_text(E, name, plain=("", " ", "0", "a\nb", "{x}")):
    """Any (non-empty) text, or one of a number of particular ones"""
    found = E.pick(f"{name} text", [None, *plain])
    return E.text(name) if found is None else found


def any_value(E, name, plain=(False, True, 0, 1.5, "", " ", "None", (), [])):
    """Any value, or one of a number of particular ones"""
    i = E.choice(f"{name} value", len(plain) + 1)
    return E.val(name) if i == len(plain) else plain[i]


def maybe_gc(E, name):
    """The garbage collector can run at any time"""
    if E.boolean(name):
        gc.collect()


STUBS = [
    "renderer: strict in-memory reference DOM, raises when the renderer contract is "
    "violated (except for the properties on a specific renderer)",
    "PySide6/pygfx/js are not importable in this process",
    "time.perf_counter_ns is a stub",
]

"""
The elements of a renderer are opaque: it doesn't matter what they are. Here, whether an
element is truthy is arbitrary, and so is whether it compares equal to something else,
and elements are not hashable.
"""

import os
import sys

from .base import *  # noqa: F403
from . import core_children as cc
from . import core_components as co
from . import core_events as ev


class OpaqueNode(Node):
    __slots__ = ("truth", "equal")
    E = None

    def __init__(self, type, serial):
        super().__init__(type, serial)
        self.truth = self.E.symbool(f"element {serial} is truthy")
        self.equal = self.E.symbool(f"element {serial} is equal to anything")

    def __bool__(self):
        return bool(self.truth)

    def __eq__(self, other):
        return self is other or bool(self.equal)

    __hash__ = None


def opaque(E, harness, **params):
    OpaqueNode.E = E
    SpecRenderer.node = OpaqueNode
    try:
        HARNESSES[harness](E, **params)
        E.cover("end")
    finally:
        SpecRenderer.node = Node


def in_harness(frame):
    """Harnesses look up instances in lists"""
    return os.path.dirname(frame.f_code.co_filename) == os.path.dirname(os.path.abspath(__file__))


OPERATIONS = ("__bool__", "__len__", "__eq__", "__hash__")


def opaque_components(E, harness, length=False, **params):
    """The same, for the instances of components"""
    serials = {}

    def symbool(self, what):
        if id(self) not in serials:
            serials[id(self)] = len(serials)
            kept.append(self)
        name = f"component {serials[id(self)]} {what}"
        if name not in bools:
            bools[name] = E.symbool(name)
        return bool(bools[name])

    def hashed(self):
        if in_harness(sys._getframe(1)):
            return object.__hash__(self)
        raise TypeError(f"unhashable type: {type(self).__name__}")

    kept, bools = [], {}
    missing = object()
    before = {name: Component.__dict__.get(name, missing) for name in OPERATIONS}
    if length:
        Component.__len__ = lambda self: 1 if symbool(self, "is truthy") else 0
    else:
        Component.__bool__ = lambda self: symbool(self, "is truthy")
    Component.__eq__ = lambda self, other: self is other or (
        not in_harness(sys._getframe(1)) and symbool(self, "is equal to anything"))
    Component.__hash__ = hashed
    try:
        HARNESSES[harness](E, **params)
        E.cover("end")
    finally:
        for name, value in before.items():
            if value is not missing:
                setattr(Component, name, value)
            elif name in Component.__dict__:
                delattr(Component, name)


HARNESSES = dict(history=cc.history, identity=cc.identity, trees=cc.trees, values=cc.values,
                 handlers=ev.handlers, hooks=co.hooks, elements=co.elements, inject=co.inject,
                 emit=co.emit, removed=co.removed, multiple=co.multiple, slots=co.slots, props=co.props,
                 nested=co.nested)
BOUNDS = ("parameters of the harness as in the check of that property; whether each of the elements "
          "is truthy and whether each of the elements is equal to any other is symbolic")
CHECKS = {
    "C33": Check(
        "C33",
        [Harness("opaque", opaque,
                 quick=[dict(harness="history", n=2, steps=2, kinds=["a"], keys="all", where="between"),
                        dict(harness="history", n=2, steps=2, kinds=["a", "text", "t2", "frag"], keys="none", where="component"),
                        dict(harness="trees", budget=2, steps=2, kinds=["a", "t", "wrap"]),
                        dict(harness="values", steps=2, names=["x"], kind="a"),
                        dict(harness="values", steps=2, names=["x"], kind="cls"),
                        dict(harness="handlers", steps=2, kinds=["none", "closure", "default"]),
                        dict(harness="hooks", n=1, steps=2, what=["rows", "t"]),
                        dict(harness="hooks", steps=2, what=["mid", "z"]),
                        dict(harness="elements", budget=2, steps=2, kinds=["a", "hold", "holdel"]),
                        dict(harness="inject", depth=2, provides=1, vias=["el"], siblings=False, late=False),
                        dict(harness="emit", steps=1, kw=False, nargs=0)],
                 bounds=BOUNDS, covers=["end"])],
        module=__name__, stubs=STUBS),
}

COMPONENTS = BOUNDS.replace("elements", "instances of components")
CHECKS["C38"] = Check(
    "C38",
    [Harness("components", opaque_components,
             quick=[dict(harness="history", n=2, steps=2, kinds=["cls"], keys="all", where="between"),
                    dict(harness="history", n=2, steps=2, kinds=["a", "cls", "frag", "nest"], keys="none", where="component"),
                    dict(harness="identity", n=2, steps=2, kinds=["cls"]),
                    dict(harness="trees", budget=2, steps=2, kinds=["a", "t", "wrap"]),
                    dict(harness="values", steps=2, names=["x"], kind="cls"),
                    dict(harness="handlers", steps=2, target="comp", kinds=["none", "closure", "method"]),
                    dict(harness="hooks", n=1, steps=2, what=["rows", "t"]),
                    dict(harness="hooks", steps=2, what=["mid", "z"]),
                    dict(harness="hooks", steps=2, what=["mid", "z"], length=True),
                    dict(harness="elements", budget=2, steps=2, kinds=["a", "hold", "holdel"]),
                    dict(harness="inject", depth=2, provides=1, vias=["el"], siblings=False, late=False),
                    dict(harness="emit", steps=1, kw=False, nargs=0),
                    dict(harness="removed", steps=1, how=["remove", "el", "same"], back=True), dict(harness="multiple", steps=2),
                    dict(harness="slots", steps=2), dict(harness="props", steps=2, write=False),
                    dict(harness="nested", budget=2, steps=2, kinds=["a", "hold"])],
             bounds=COMPONENTS, covers=["end"])],
    module=__name__, stubs=STUBS)

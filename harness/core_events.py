"""Event handlers, and the comparison of functions."""

import dataclasses
from functools import partial

from .base import *  # noqa: F403
from .base import Component, h


class World:
    def __init__(self):
        self.log = []
        self.instances = []


W = World()


def note(*args):
    W.log.append(args)


class Receiver:
    """Equal instances of this class are not the same instance"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, Receiver)

    def __hash__(self):
        return 1

    def receive(self, *args):
        note("method", self.name)

    def other(self, *args):
        note("other method", self.name)


class Caller:
    def __init__(self, value):
        self.value = value

    def __call__(self, *args):
        note("caller", self.value)


@dataclasses.dataclass(frozen=True)
class EqualCaller:
    """Equal when the values are"""

    value: object

    def __call__(self, *args):
        note("equal caller", self.value)


@dataclasses.dataclass
class MutableCaller:
    """Equal when the values are, so not hashable: the value can change later on"""

    v: object

    def __call__(self, *args):
        note("mutable caller", self.v)


def base_fn(value, *args):
    note("partial", value)


def closure(value):
    return lambda *args: note("closure", value)


def pair(first, second):
    return lambda *args: note("pair", first, second)


def partial_fn(first, *args, second=None):
    note("partial pair", first, second)


def closure_b(value):
    return lambda *args: note("closure b", value)


def default(value):
    return lambda *args, x=value: note("default", x)


def default_pos(value):
    def handler(x=value):
        note("default pos", x)

    return handler


def nested(value):
    inner = lambda: note("nested", value)
    return lambda *args: inner()


def boxed(box):
    return lambda *args: note("boxed", box[0])


def boxed_dict(box):
    return lambda *args: note("boxed", box["v"])


def attribute(obj):
    return lambda *args: note("attribute", obj.v)


class Box:
    def __init__(self, v):
        self.v = v


KINDS = ["none", "same", "closure", "closure_b", "partial", "kwpartial", "default",
         "method", "other", "nested", "boxed", "pair", "partial_pair"]


NO_CODE = ["none", "wrapper", "builtin", "caller", "equal_caller", "mutable_caller"]


class Gen:
    """Makes the handlers. Everything (but 'same') is made anew for every step."""

    def __init__(self, E):
        self.E = E
        self.receivers = [Receiver("r0"), Receiver("r1")]
        self.boxes = []

    def handler(self, kind, name, previous):
        E = self.E
        if kind in ("none", "none_value"):
            return None
        if kind == "same":
            return previous
        if kind in ("method", "other"):
            r = self.receivers[E.choice(f"{name}r", 2)]
            return r.receive if kind == "method" else r.other
        v = E.val(f"{name}v")
        if kind == "closure":
            return closure(v)
        if kind == "closure_b":
            return closure_b(v)
        if kind == "pair":
            return pair(v, E.val(f"{name}w"))
        if kind == "partial_pair":
            return partial(partial_fn, v, second=E.val(f"{name}w"))
        if kind == "partial":
            return partial(base_fn, v)
        if kind == "wrapper":
            # Has no code, nor are its attributes any different
            return closure(v).__call__
        if kind == "builtin":
            return partial(note, "builtin", v).__call__
        if kind == "caller":
            return Caller(v)
        if kind == "equal_caller":
            return EqualCaller(v)
        if kind == "mutable_caller":
            self.boxes.append(MutableCaller(v))
            return self.boxes[-1]
        if kind == "kwpartial":
            return partial(base_fn, value=v)
        if kind == "default":
            return default(v)
        if kind == "default_pos":
            return default_pos(v)
        if kind == "nested":
            return nested(v)
        if kind == "boxed":
            self.boxes.append([v])
            return boxed(self.boxes[-1])
        if kind == "boxed_dict":
            box = {"v": v}
            self.boxes.append(box)
            return boxed_dict(box)
        if kind == "attribute":
            box = Box(v)
            self.boxes.append(box)
            return attribute(box)
        raise KeyError(kind)


class Button(Component):
    """Emits its events"""

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        W.instances.append(self)

    def render(self):
        return h("button")


class Forward(Component):
    """Passes all of its props on to its element, including the handlers"""

    def render(self):
        return h("button", {**self.props})


def fire_node(node, event):
    del W.log[:]
    for ev, fn in list(node.handlers):
        if ev.lower() == event.lower():
            fn()
    out = list(W.log)
    del W.log[:]
    return out


def fire_component(event):
    del W.log[:]
    W.instances[-1].emit(event)
    out = list(W.log)
    del W.log[:]
    return out


def wanted(handler):
    del W.log[:]
    if handler is not None:
        handler()
    out = list(W.log)
    del W.log[:]
    return out


TARGETS = {"el": "button", "comp": Button, "fwd": Forward}


def casing(E, steps=2, names=("click", "Click", "CLICK"), target="el"):
    """Names of events are case insensitive: of several handlers for an event, the
    last one prevails"""
    global W
    W = World()
    state = reactive({"on": None})

    def App(props):
        return h("root", {}, h(TARGETS[target], props["on"].on))

    gui = container = None
    for step in range(steps):
        order = E.pick(f"order{step}", [1, -1])
        on = {}
        last = None
        for name in names[::order]:
            kind = E.pick(f"{name}{step}", ["none", "closure", "none_value"])
            if kind == "closure":
                last = on[f"on_{name}"] = closure(E.val(f"{name}{step}v"))
            elif kind == "none_value":
                on[f"on_{name}"] = None
        state["on"] = Cfg(on=on)
        if gui is None:
            gui, container = mount(h(App, state))
        node = container.children[0].children[0]
        got = fire_component(names[0]) if target == "comp" else fire_node(node, names[0])
        E.check(perm_eq(got, wanted(last)), f"step {step}: not handled by precisely the last handler of the event")
    E.cover("end")


def handlers(E, steps=3, kinds=KINDS, events=("click",), target="el", other=(), gcs=False,
             extra=False, names=None):
    """The handlers of an element (or component) are replaced a number of times"""
    global W
    W = World()
    if names:
        events = E.pick("names", names)
    gen = Gen(E)
    current = {ev: None for ev in events}

    def view(cfg):
        props = dict(cfg.on)
        if cfg.x is not None:
            props["x"] = cfg.x
        return h("root", {}, h("before"), h(TARGETS[target], props))

    state = reactive({"cfg": None})

    def App(props):
        return view(props["cfg"])

    gui = container = None
    for step in range(steps):
        new = {}
        explicit = []
        for i, ev in enumerate(events):
            opts = list(kinds if i == 0 else other or kinds)
            if step == 0:
                opts = [k for k in opts if k != "same"]
            kind = E.pick(f"{ev}{step}", opts)
            new[ev] = gen.handler(kind, f"{ev}{step}", current[ev])
            if kind == "none_value":
                explicit.append(ev)
        current = new
        on = {f"on_{ev}": fn for ev, fn in current.items() if fn is not None or ev in explicit}
        if extra and E.boolean(f"order{step}"):
            on = dict(reversed(list(on.items())))
        x = f"x{step}" if extra else None
        if gcs:
            maybe_gc(E, f"gc{step}")
        state["cfg"] = Cfg(on=on, x=x)
        if gui is None:
            gui, container = mount(h(App, state))
            node = container.children[0].children[1]
        E.check(container.children[0].children[1] is node, "element got replaced")
        for rnd in range(2):
            for ev in events:
                got = fire_component(ev) if target == "comp" else fire_node(node, ev)
                E.check(perm_eq(got, wanted(current[ev])),
                        f"step {step}: event {ev!r} is not handled by the current handler only")
            if rnd or not gen.boxes:
                break
            # Captured values can change later on
            for b, box in enumerate(gen.boxes):
                v = E.val(f"late{step}_{rnd}_{b}")
                if isinstance(box, list):
                    box[0] = v
                elif isinstance(box, dict):
                    box["v"] = v
                else:
                    box.v = v
    E.cover("end")


def rows(E, n=2, steps=2, keyed=True, kinds=("none", "closure", "partial"), types=1):
    """Lists of elements with handlers: handlers go along with their element"""
    global W
    W = World()
    gen = Gen(E)
    state = reactive({"cfg": None})

    def App(props):
        return to_vnode(props["cfg"].view, h)

    gui = None
    for step in range(steps):
        count = E.choice(f"n{step}", n + 1)
        items, keys = [], []
        for i in range(count):
            key = None
            if keyed:
                key = E.val(f"key{step}_{i}")
                keys.append(key)
            on = {}
            kind = E.pick(f"kind{step}_{i}", list(kinds))
            fn = gen.handler(kind, f"h{step}_{i}", None)
            if fn is not None:
                on["click"] = fn
            type = "b" if types > 1 and E.boolean(f"type{step}_{i}") else "a"
            items.append(el(type, {"x": i}, el("leaf", {}, on={"press": closure_b(step)}), on=on, key=key))
        E.distinct(keys)
        view = el("root", {}, el("first"), *items, el("last"))
        state["cfg"] = Cfg(view=view)
        if gui is None:
            gui, container = mount(h(App, state))
        check_dom(E, container, view, log=W.log, label=f"step {step}")
    E.cover("end")


# -- comparison of functions -----------------------------------------------------


NS1 = {"where": "ns1"}
NS2 = {"where": "ns2"}
SRC = "def make():\n    return lambda: where\n"
exec(compile(SRC, "<ns>", "exec"), NS1)
exec(compile(SRC, "<ns>", "exec"), NS2)


class Adder:
    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return isinstance(other, Adder)

    def __hash__(self):
        return 1

    def get(self):
        return self.v


def two(v, w):
    return v, w


def kwfn(v=None, w=None):
    return v, w


def rec(v):
    def inner(n=1):
        return v if n == 0 else inner(n - 1)

    return inner


def captured_list(box):
    return lambda: box[0]


def const_int():
    return lambda: (1, "int")


def const_bool():
    return lambda: (True, "int")


def const_float():
    return lambda: (1.0, "int")


def global_name_a():
    return lambda: two(1, 2)


def global_name_b():
    return lambda: kwfn(1, 2)


def with_arg(v):
    return lambda a: (v, a)


def with_args2(v):
    return lambda a, b=None: (v, a)


def swapped(v):
    return lambda a: (a, v)


class CallAdder:
    """Callable objects are only equivalent when they say so"""

    def __init__(self, v):
        self.v = v

    def __call__(self):
        return self.v


@dataclasses.dataclass(frozen=True)
class CallValue:
    v: object

    def __call__(self):
        return self.v


# name -> (number of values, factory, arguments for calling)
FACTORIES = {
    "closure": (1, lambda v: (lambda: v), ()),
    "closure2": (2, lambda v, w: (lambda: (v, w)), ()),
    "default": (1, lambda v: (lambda x=v: x), ()),
    "default2": (2, lambda v, w: (lambda x=v, y=w: (x, y)), ()),
    "kwdefault": (1, lambda v: (lambda *, x=v: x), ()),
    "partial": (1, lambda v: partial(two, v, 0), ()),
    "partial_args": (2, lambda v, w: partial(two, v, w), ()),
    "partial_kw": (2, lambda v, w: partial(kwfn, v=v, w=w), ()),
    "partial_kw1": (1, lambda v: partial(kwfn, v=v), ()),
    "partial_kw2": (1, lambda v: partial(kwfn, w=v), ()),
    "partial_closure": (1, lambda v: partial(lambda: v), ()),
    "nested": (1, lambda v: (lambda inner: (lambda: inner()))(lambda: v), ()),
    "nested_partial": (1, lambda v: (lambda inner: (lambda: inner()))(partial(two, v, 0)), ()),
    "nested_default": (1, lambda v: (lambda inner=(lambda: v): inner()), ()),
    "tuple": (2, lambda v, w: (lambda t: (lambda: t))((v, w)), ()),
    "method": (1, lambda v: Adder(v).get, ()),
    "nested_method": (1, lambda v: (lambda m: (lambda: m()))(Adder(v).get), ()),
    "recursive": (1, rec, ()),
    "list": (1, lambda v: captured_list([v]), ()),
    "with_arg": (1, with_arg, (5,)),
    "swapped": (1, swapped, (5,)),
    # Callables without code
    "builtin": (1, lambda v: [v].copy, ()),
    "builtin2": (1, lambda v: {0: v}.copy, ()),
    "builtin_arg": (1, lambda v: [v, v].__getitem__, (1,)),
    "builtin_arg2": (1, lambda v: {1: v}.get, (1,)),
    "wrapper": (1, lambda v: (lambda: v).__call__, ()),
    "partial_builtin": (1, lambda v: partial([v].__getitem__, 0), ()),
    "nested_builtin": (1, lambda v: (lambda m: (lambda: m()))([v].copy), ()),
    "nested_builtin2": (1, lambda v: (lambda m: (lambda: m()))({0: v}.copy), ()),
    "default_builtin": (1, lambda v: (lambda m=[v].copy: m()), ()),
    "class": (0, lambda: list, ()),
    "class2": (0, lambda: dict, ()),
    "callable": (1, CallAdder, ()),
    "callable_value": (1, CallValue, ()),
    "nested_callable": (1, lambda v: (lambda m: (lambda: m()))(CallAdder(v)), ()),
    "ns1": (0, NS1["make"], ()),
    "ns2": (0, NS2["make"], ()),
    "const_int": (0, const_int, ()),
    "const_bool": (0, const_bool, ()),
    "const_float": (0, const_float, ()),
    "global_a": (0, global_name_a, ()),
    "global_b": (0, global_name_b, ()),
}
# Functions of these kinds that are made anew with equal values are equivalent
COMPLETE = {"closure", "closure2", "default", "default2", "kwdefault", "partial",
            "partial_args", "partial_kw", "partial_kw1", "nested", "nested_partial",
            "with_arg", "swapped", "ns1", "const_int", "global_a", "recursive", "tuple",
            "partial_closure"}


def result(fn, args):
    r = fn(*args)
    return r


def strict_eq(a, b):
    """Equal, and of the same type: 1 is not True"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return f_and(*[strict_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, (bool, int, float)) or isinstance(b, (bool, int, float)):
        if type(a) is not type(b):
            return False
    return f_eq(a, b)


def compare_functions(E, kinds=tuple(FACTORIES), others=None):
    from collagraph.compare import equivalent_functions

    ka = E.pick("a", list(kinds))
    kb = E.pick("b", list(others or kinds))
    na, fa, args_a = FACTORIES[ka]
    nb, fb, args_b = FACTORIES[kb]
    va = E.vals("va", na)
    vb = E.vals("vb", nb)
    a, b = fa(*va), fb(*vb)
    r = bool(equivalent_functions(a, b))
    if r:
        E.cover("equivalent")
        args = args_a or args_b
        ra = result(a, args)
        rb = result(b, args)
        E.check(strict_eq(ra, rb), f"{ka} and {kb} are considered equivalent but do something else")
        E.check(equivalent_functions(b, a), f"{ka} and {kb}: not symmetric")
        E.check(ka not in ("list",) and kb not in ("list",),
                "functions that captured different mutable values are considered equivalent")
    else:
        E.cover("different")
        if ka == kb and ka in COMPLETE:
            E.check(f_not(f_and(*[f_eq(x, y) for x, y in zip(va, vb)])),
                    f"{ka}: not equivalent while made in the same way with equal values")
    E.check(equivalent_functions(a, a), f"{ka} is not equivalent to itself")


# Functions that are written down slightly differently. All of them come from one file
SOURCES = """
lambda: A
lambda: B
lambda: o.a
lambda: o.b
lambda: o.a.real
lambda: o.ma()
lambda: o.mb()
lambda: p.a
lambda: (A, B)
lambda: (B, A)
lambda: [A, B]
lambda: A + B
lambda: A - B
lambda: A < B
lambda: A is B
lambda: not A
lambda: A and B
lambda: A or B
lambda: 1
lambda: 2
lambda: True
lambda: 1.0
lambda: '1'
lambda: b'1'
lambda: None
lambda: (1, 2)
lambda: (1, True)
lambda: (1, (2, 3.0))
lambda: (1, (2, 3))
lambda: 0.0
lambda: 1 in (1, 2)
lambda: 1 in {1, 2}
lambda: 3 in {1, 3}
lambda v: v
lambda w: w
lambda v, w: v
lambda v, w: w
lambda v, w: (v, w)
lambda w, v: (w, v)
lambda v, w: (w, v)
lambda v, /: v
lambda v, /, w: (v, w)
lambda v, w, /: (v, w)
lambda *v: v
lambda **v: v
lambda v=1: v
lambda v=2: v
lambda v=True: v
lambda v=A: v
lambda v=B: v
lambda v=1, w=2: (v, w)
lambda v=2, w=1: (v, w)
lambda *, v=1: v
lambda *, v=2: v
lambda *, w=1: w
lambda *, v=1, w=2: (v, w)
lambda *, v=2, w=1: (v, w)
lambda v, *w: (v, w)
lambda v, **w: (v, w)
lambda v, w=1: (v, w)
lambda v, w=2: (v, w)
lambda v, *, w=1: (v, w)
lambda: fn(v=1, w=2)
lambda: fn(w=1, v=2)
lambda: fn(1, 2)
lambda: fn2(1, 2)
lambda: fn(*(1, 2))
lambda: (lambda: A)()
lambda: (lambda: B)()
lambda: (lambda: 1)()
lambda: (lambda: True)()
lambda: (lambda x=1: x)()
lambda: (lambda x=2: x)()
lambda: (lambda v, w: (v, w))(v=1, w=2)
lambda: (lambda w, v: (w, v))(v=1, w=2)
lambda: [x for x in (1, 2)]
lambda: [x for x in (1, 2) if x > 1]
lambda: {x for x in (1, 2)}
lambda: list(x for x in (1, 2))
lambda: tuple(x for x in (1, 2))
lambda: f'{A}'
lambda: f'{A!r}'
lambda: f'{B}'
lambda: A if B else None
lambda: None if B else A
lambda: o.a if A else o.b
lambda: o.b if A else o.a
lambda v: o.a
lambda: d['a']
lambda: d['b']
lambda: d.get('a')
lambda: d.get('b')
lambda: getattr(o, 'a')
lambda: getattr(o, 'b')
lambda: locals()
(lambda f: lambda: f())(lambda: 1)
(lambda f: lambda: f())(lambda: 2)
(lambda f: lambda: f())(lambda: A)
(lambda f: lambda: f())(lambda: B)
(lambda f: lambda: f(1, 2))(lambda v, w: (v, w))
(lambda f: lambda: f(1, 2))(lambda v, w: (w, v))
(lambda f: lambda: f(v=1, w=2))(lambda v, w: (v, w))
(lambda f: lambda: f(v=1, w=2))(lambda w, v: (w, v))
(lambda a, b: lambda: (a, b))(1, 2)
(lambda a, b: lambda: (a, b))(2, 1)
(lambda b, a: lambda: (b, a))(1, 2)
(lambda b, a: lambda: (a, b))(1, 2)
(lambda a: lambda: a)(1)
(lambda a: lambda: a)(True)
(lambda a: lambda: a)(1.0)
(lambda a: lambda: a)('1')
(lambda a: lambda: a)((1,))
(lambda a: lambda: a)((True,))
(lambda a: lambda: a)(frozenset({1}))
(lambda a: lambda: a)(None)
(lambda a: lambda: a)(fn)
(lambda a: lambda: a)(fn2)
(lambda a: lambda: a)(int)
(lambda a: lambda: a)(str)
(lambda a: lambda: a)(o.ma)
(lambda a: lambda: a)(p.ma)
(lambda a: lambda v=a: a)(1)
partial(fn, 1)
partial(fn, 2)
partial(fn, True)
partial(fn, w=1)
partial(fn, v=1)
partial(fn2, 1)
partial(fn, 1, 2)
partial(fn, 1, w=2)
partial(fn, v=1, w=2)
partial(partial(fn, 1), 2)
partial(lambda v, w: (v, w), w=1)
partial(lambda w, v: (w, v), w=1)
partial(lambda v: v, 1)
partial(lambda w: w, 1)
o.ma
o.mb
p.ma
fn
fn2
O.ma
O.sa
O.ca
P.ca
print
len
""".strip().splitlines()


DEFS = """
def f(v=0):
    try:
        log(v)
        fail()
    except ValueError:
        pass
---
def f(v=0):
    try:
        log(v)
    except ValueError:
        pass
    else:
        fail()
---
def f(v=0):
    try:
        fail()
    except ValueError:
        pass
---
def f(v=0):
    try:
        fail()
    except KeyError:
        pass
---
def f(v=0):
    try:
        fail()
    finally:
        return 1
---
def f(v=0):
    x = fail
    try:
        return x()
    except ValueError:
        pass
---
def f(v=0):
    try:
        x = fail
    except ValueError:
        pass
    return x()
---
def f(v=0):
    for x in range(2):
        log(x)
    else:
        return 1
---
def f(v=0):
    for x in range(3):
        log(x)
    else:
        return 1
---
def f(v=0):
    for x in range(2):
        log(x)
        return 1
---
def f(v=0):
    while v:
        v = log(v)
---
def f(v=0):
    if v:
        v = log(v)
---
def f(v=0):
    global A
    return A
---
def f(v=0):
    A = 1
    return A
---
def f(v=0):
    x = 1
    y = 2
    return x
---
def f(v=0):
    x = 1
    y = 2
    return y
---
def f(v=0):
    y = 1
    x = 2
    return x
---
def f(v=0):
    return log(v) or 1
---
def f(v=0):
    return log(v) or 1.0
---
def f(v=0):
    log(v)
---
def f(v=0):
    log(A)
---
def f(v=0):
    yield log(v)
---
def f(v=0):
    return [log(v)]
---
async def f(v=0):
    return 1
---
def f(v=0):
    def g():
        return v
    return g()
---
def f(v=0):
    def g():
        return 1
    return g()
---
def f(v=0):
    def g(v=v):
        return v
    v = 5
    return g()
---
def f(v=0):
    def g():
        return v
    v = 5
    return g()
---
def f(v=0):
    x = [1]
    x[0] += 1
    return x
---
def f(v=0):
    x = [1]
    x[0] -= 1
    return x
---
def f(v=0):
    match v:
        case 1:
            return "one"
        case 0:
            return "zero"
---
def f(v=0):
    match v:
        case 0:
            return "one"
        case 1:
            return "zero"
---
def f(v=0):
    with ctx(1):
        log(v)
        fail()
---
def f(v=0):
    with ctx(1):
        log(v)
    fail()
---
def f(v=0):
    with ctx(2):
        log(v)
    fail()
---
def f(v=0):
    "doc"
    log(v)
---
def f(v=0):
    import math
    return math.pi
---
def f(v=0):
    import math as m
    return m.pi
---
def f(v=0):
    from math import pi
    return pi
---
def f(v=0):
    from math import e
    return e
---
def f(v):
    return v
---
def f(v):
    return v
    w = 1
---
def f(v, w):
    return v
---
def f(v, *, w):
    return v
---
def f(v, /, w):
    return v
---
def f(v, *w):
    return v
---
def f(v, **w):
    return v
---
def g(gone):
    x = 5
    def f():
        return x
    if gone:
        del x
    return f
f = g(True)
---
def g(gone):
    x = 5
    def f():
        return x
    if gone:
        del x
    return f
f = g(False)
---
def g(x, y):
    def f():
        return x
        y
    return f
f = g(1, 2)
---
def g(x, y):
    def f():
        return x
    return f
f = g(1, 2)
---
def g(x, y):
    def f():
        return y
        x
    return f
f = g(1, 2)
"""


class Base_:
    @classmethod
    def ca(cls):
        return cls.__name__

    @staticmethod
    def sa():
        return "static"


class O(Base_):  # noqa: E742
    def __init__(self, a, b):
        self.a, self.b = a, b

    def ma(self):
        return ("m", self.a)

    def mb(self):
        return ("m", self.b)


class P(Base_):
    pass


TRACE = []
NAMES = SOURCES + [d.strip() for d in DEFS.strip().split("---")]


def fail():
    TRACE.append("fail")
    raise ValueError


class Ctx:
    """Suppresses exceptions"""

    def __init__(self, v):
        TRACE.append(v)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return True


def variants():
    """Twice a function for each of the sources"""
    ns = {"A": 10, "B": 3, "o": O(4, 5), "p": O(6, 7), "O": O, "P": P, "d": {"a": 8, "b": 9},
          "partial": partial}
    code = "def fn(v, w):\n    return ('fn', v, w)\ndef fn2(v, w):\n    return ('fn2', v, w)\n"
    exec(compile(code, "<variants>", "exec"), ns)
    ns.update(log=TRACE.append, fail=fail, ctx=Ctx)
    out = []
    for _ in range(2):
        fns = [eval(compile(line, "<variants>", "eval"), ns) for line in SOURCES]
        for source in DEFS.strip().split("---"):
            exec(compile(source.strip(), "<variants>", "exec"), ns)
            fns.append(ns["f"])
        out.append(fns)
    return out


CALLS = [((), {}), ((1,), {}), ((1, 2), {}), ((), {"v": 1, "w": 2})]


def outcome(fn, args, kwargs):
    import inspect

    if fn is print:
        return "print", None
    del TRACE[:]
    try:
        r = fn(*args, **kwargs)
        if hasattr(r, "close"):
            if hasattr(r, "__next__"):
                return "generator", list(r), list(TRACE)
            r.close()
            return "coroutine", fn.__code__.co_consts
    except Exception as e:
        return "raises", type(e).__name__, list(TRACE)
    if TRACE:
        return "traced", r, list(TRACE)
    if isinstance(r, float):
        return "float", repr(r)
    if inspect.isroutine(r) and not hasattr(r, "__self__"):
        return "routine", r.__name__
    return "returns", r


def same_type(a, b):
    """Strictly the same values"""
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same_type(x, y) for x, y in zip(a, b))
    return a == b


def parameters(fn):
    import inspect

    try:
        return set(inspect.signature(fn).parameters)
    except ValueError:
        return None


class Equal:
    """Mutable object that is equal to the ones with the same items"""

    def __init__(self, items):
        self.items = list(items)

    def __eq__(self, other):
        return isinstance(other, Equal) and self.items == other.items

    __hash__ = None

    def append(self, x):
        self.items.append(x)

    def __call__(self):
        return content(self)

    def method(self):
        return content(self)


def content(value):
    """What is in the (mutable) value"""
    if isinstance(value, tuple):
        return [content(v) for v in value]
    if isinstance(value, dict):
        return list(value.values())
    return list(value.items if isinstance(value, Equal) else value)


def over(value):
    return lambda: content(value)


def over_deep(value):
    inner = over(value)
    return lambda: inner()


def with_kwdefault(value):
    def f(*, value=value):
        return content(value)

    return f


# Functions that hold a mutable value
HOLDERS = {
    "closure": over,
    "closure in closure": over_deep,
    "default": lambda m: lambda value=m: content(value),
    "keyword default": with_kwdefault,
    "partial": lambda m: partial(content, m),
    "partial keyword": lambda m: partial(content, value=m),
    "partial of closure": lambda m: partial(over(m)),
    "tuple": lambda m: over((m, m)),
    "nested tuple": lambda m: over(((m,), ())),
}
# How to make mutable values, and to change them
MUTABLES = {
    "list": (list, list.append),
    "dict": (lambda items: dict(enumerate(items)), lambda d, x: d.update(new=x)),
    "bytearray": (lambda items: bytearray(len(items)), lambda b, x: b.append(7)),
    "set": (lambda items: set(range(len(items))), lambda s, x: s.add(7)),
    "object": (Equal, Equal.append),
}
OBJECTS = {"method": lambda m: m.method, "callable": lambda m: m, "partial of object": partial}


def compare_mutable(E, size=2):
    """Functions with equal mutable values are not equivalent: the values can change later on"""
    from collagraph.compare import equivalent_functions

    kind = E.pick("kind", list(MUTABLES))
    holders = {**HOLDERS, **(OBJECTS if kind == "object" else {})}
    holder = holders[E.pick("holder", list(holders))]
    make, change = MUTABLES[kind]
    shared = E.boolean("shared")
    items = E.vals("a", E.choice("na", size + 1))
    m = make(items)
    other = m if shared else make(E.vals("b", E.choice("nb", size + 1)))
    a, b = holder(m), holder(other)
    r = bool(equivalent_functions(a, b))
    E.check(r == bool(equivalent_functions(b, a)), "not symmetric")
    if shared:
        E.cover("shared")
    change(other, E.val("new"))
    if r:
        E.check(f_eq(a(), b()), "functions with different mutable values are considered equivalent")
        E.cover("equivalent")
    else:
        E.cover("different")


def compare_variants(E):
    """All pairs of functions of which the source differs (or not)"""
    from collagraph.compare import equivalent_functions

    first, second = variants()
    i = E.choice("a", len(NAMES))
    a = first[i]
    for j, b in enumerate(second):
        r = equivalent_functions(a, b)
        E.check(r == equivalent_functions(b, a), f"not symmetric: {NAMES[i]} and {NAMES[j]}")
        if not r:
            continue
        E.cover("equivalent")
        for args, kwargs in CALLS:
            if kwargs and parameters(a) != parameters(b):
                # Arguments can have another name, since handlers are called with
                # positional arguments
                continue
            E.check(same_type(outcome(a, args, kwargs), outcome(b, args, kwargs)),
                    f"{NAMES[i]} and {NAMES[j]} are considered equivalent")


# Names of events that look like (parts of) each other or like the prefix of events
NAMES_ON = [("on_x", "x"), ("notify", "tify"), ("no_on", "no"), ("open", "n_open"), ("_x", "x"),
            ("button_on_x", "button_x"), ("Click", "other"), ("valueChanged", "value"), ("x_", "x"),
            ("key", "type"), ("x-y", "x_y"), ("update:x", "x"), ("on", "n"), ("props", "children")]


BOUNDS = (
    "steps = number of consecutive sets of handlers, every handler is one of the kinds; "
    "captured values are unbounded symbolic values"
)

CHECKS = {}
CHECKS["C04"] = Check(
    "C04",
    [
        Harness("element", handlers,
                quick=[dict(steps=3), dict(steps=3, kinds=NO_CODE), dict(steps=2, kinds=KINDS, events=("click", "change"),
                                           other=["none", "same", "closure"], extra=True),
                       dict(steps=2, kinds=["none", "closure"], names=NAMES_ON),
                       dict(steps=3, kinds=["none", "none_value", "same", "closure"])],
                thorough=[dict(steps=3, kinds=["none", "closure", "same"], names=NAMES_ON), dict(steps=4, kinds=["none", "same", "closure", "closure_b", "partial", "method", "boxed"]),
                          dict(steps=4, kinds=NO_CODE), dict(steps=2, kinds=NO_CODE + KINDS),
                          dict(steps=3, kinds=KINDS + ["default_pos", "boxed_dict", "attribute"], gcs=True),
                          dict(steps=3, kinds=["none", "same", "closure", "boxed"], events=("click", "change"), extra=True)],
                bounds=BOUNDS, covers=["end"]),
        Harness("forwarded", handlers,
                quick=[dict(steps=2, target="fwd"), dict(steps=2, target="fwd", kinds=NO_CODE[:-1]),
                       dict(steps=3, target="fwd", kinds=["none", "none_value", "same", "closure"], extra=True),
                       dict(steps=2, target="fwd", kinds=["none", "closure", "method"], events=("click", "change"), extra=True)],
                thorough=[dict(steps=3, target="fwd"),
                          dict(steps=3, target="fwd", kinds=["none", "closure", "same"], events=("click", "change"), extra=True)],
                bounds=BOUNDS + "; the component passes its props (including handlers) on to its element; without mutable handlers that are equal (the library observ ignores the assignment of an equal value)", covers=["end"]),
        Harness("casing", casing,
                quick=[dict(steps=2), dict(steps=2, target="comp")],
                thorough=[dict(steps=3, names=("click", "Click"), target=t) for t in ("el", "comp")],
                bounds="steps = number of consecutive sets of handlers; several names for one event, that differ in case", covers=["end"]),
        Harness("component", handlers,
                quick=[dict(steps=2, target="comp", kinds=NO_CODE),
                       dict(steps=3, target="comp", kinds=["none", "none_value", "same", "closure"]),
                       dict(steps=2, target="comp", kinds=["none", "closure"], names=NAMES_ON),
                       dict(steps=3, target="comp", kinds=["none", "same", "closure", "closure_b", "partial", "method", "boxed"])],
                thorough=[dict(steps=3, target="comp"),
                          dict(steps=3, kinds=["none", "same", "closure", "boxed"], events=("click", "change"), extra=True, target="comp")],
                bounds=BOUNDS, covers=["end"]),
        Harness("rows", rows,
                quick=[dict(n=2, steps=2, kinds=["none", "closure", "partial"]),
                       dict(n=2, steps=2, keyed=False, kinds=["none", "closure"], types=2)],
                thorough=[dict(n=3, steps=2, kinds=["none", "closure"]),
                          dict(n=2, steps=3, kinds=["none", "closure"]),
                          dict(n=2, steps=3, keyed=False, kinds=["none", "closure"], types=2)],
                bounds=BOUNDS, covers=["end"]),
    ],
    module=__name__, stubs=STUBS,
    assumptions=["names of events are case insensitive", "a handler that is None is no handler"],
)
CHECKS["C09"] = Check(
    "C09",
    [
        Harness("functions", compare_functions, quick=[dict()],
                bounds="all pairs of 42 ways to make a function, with up to 2 symbolic values each",
                covers=["equivalent", "different"]),
        Harness("mutable", compare_mutable, quick=[dict()], thorough=[dict(size=4)],
                bounds="5 kinds of mutable values with up to size symbolic values, held in 12 ways", covers=["equivalent", "different", "shared"]),
        Harness("variants", compare_variants, quick=[dict()],
                bounds="all pairs of 199 (concrete) functions; the choice is symbolic", covers=["equivalent"]),
    ],
    module=__name__, stubs=[],
    assumptions=["captured cells are not rebound after the function has been handed over"],
)

"""CGX files: which component a file defines, what its tags refer to, and positions of code in the file"""

import importlib
import sys
import traceback
import types

from .base import *  # noqa: F403
from .base import Check, Component, D, Harness, STUBS, check_dom, el, f_eq, h, mount, reset, text
from .importer import Files

from collagraph.cgx import cgx
from collagraph.collagraph import render_slot

parts = types.ModuleType("cgx_names")
sys.modules["cgx_names"] = parts


def component(name, form):
    """A component that shows that it is used, with its props and its content"""
    if form == "function":
        def fn(props, slots=()):
            return h("is", {"name": name, "x": props.get("x")}, *render_slot("default", props, slots))

        return fn

    class Named(Component):
        def render(self):
            return h("is", {"name": name, "x": self.props.get("x")}, *(self.render_slot("default") if "default" in self._slots else []))

    return Named


# -- tags ---------------------------------------------------------------------------------

# How the name gets into the script: source before the class, and after it
SOURCES = {
    "import": ("from cgx_names import {0}", ""),
    "alias": ("from cgx_names import anything as {0}", ""),
    "module": ("import cgx_names\n{0} = cgx_names.{0}", ""),
    "after": ("", "from cgx_names import {0}"),
    "assigned after": ("import cgx_names", "{0} = cgx_names.{0}"),
    "class": ("import cgx_names\n\nclass {0}(cgx_names.{0}):\n    pass", ""),
    "conditional": ("try:\n    from cgx_names import absent as {0}\nexcept ImportError:\n    from cgx_names import {0}", ""),
}
TAGS = ["Thing", "THING", "T", "ThingPart", "Thing_2"]
DOTTED = ["names.Thing", "names.thing", "Names.Thing", "names.inner.Thing", "Names.inner.thing", "Names.Inner.Thing"]
PLAIN = ["thing", "thingPart", "thing-part", "tHING", "thing_2", "Thing-part"[1:], "t"]
FILE = """<template>
  {template}
</template>

<script>
import collagraph as cg
{before}

class Main(cg.Component):
    pass

{after}
</script>
"""
PLACES = {
    "root": lambda tag: (f"<{tag} :x='x'></{tag}>", lambda d: d),
    "child": lambda tag: (f"<a><{tag} :x='x'></{tag}></a>", lambda d: el("a", {}, d)),
    "closed": lambda tag: (f"<a><b /><{tag} :x='x' /></a>", lambda d: el("a", {}, el("b"), d)),
    "lines": lambda tag: (f"<a>\n<{tag}\n  :x='x'\n>\n</{tag}>\n</a>", lambda d: el("a", {}, d)),
    "if": lambda tag: (f"<a><b v-if='not x and x' /><{tag} v-else :x='x' /></a>", lambda d: el("a", {}, d)),
    "for": lambda tag: (f"<a><{tag} v-for='i in [x]' :x='i' /></a>", lambda d: el("a", {}, d)),
    "like": lambda tag: (f"<a data-x='<{tag}>'><!-- <{tag}> --><{tag} :x='x'></{tag}></a>", lambda d: el("a", {"data-x": f"<{tag}>"}, d)),
    "nested": lambda tag: (f"<a><{tag} :x='x'><in :x='x' /></{tag}></a>", None),
    # The name of the tag in attributes and text, in various ways
    "words": lambda tag: (
        f"<a k='{tag.lower()}'><{tag} :x='x' data-l='{tag.lower()}' data-t='{tag}' data-u='{tag.upper()}' />"
        f"<b k='{tag.swapcase()}'>{tag.lower()} {tag}</b></a>",
        lambda d: el("a", {"k": tag.lower()}, d, el("b", {"k": tag.swapcase()}, text(f"{tag.lower()} {tag}"))),
    ),
    "similar": lambda tag: (
        f"<a><{similar(tag)} /><{tag} :x='x' /><{similar(tag)} k='v' /></a>",
        lambda d: el("a", {}, el(similar(tag)), d, el(similar(tag), {"k": "v"})),
    ),
}


def similar(tag):
    """An element of which the tag has the same letters, in lower case"""
    return tag.lower().replace(".", "-") + ("s" if tag == tag.lower() else "")


def words(tag):
    """The attributes of the element in `words`"""
    return {"data-l": tag.lower(), "data-t": tag, "data-u": tag.upper()}


def tags(E, sources=tuple(SOURCES), places=tuple(PLACES), kinds=("capital", "dotted", "plain"), forms=("function", "class"), steps=1):
    """Tags that start with a capital are the component of that name in the script, tags with dots are
    attributes of what is there in the script, and others are elements"""
    reset()
    kind = E.pick("kind", list(kinds))
    tag = E.pick("tag", {"capital": TAGS, "dotted": DOTTED, "plain": PLAIN}[kind])
    form = E.pick("form", list(forms)) if kind != "plain" else None
    for name in list(vars(parts)):
        if not name.startswith("__"):
            delattr(parts, name)
    # All kinds of similar names are there as well
    for name in TAGS + PLAIN + ["anything"]:
        if name.isidentifier():
            setattr(parts, name, component(f"other {name}", "class"))
    where = E.pick("source", list(sources)) if kind != "plain" else "import"
    first, *path = tag.split(".")
    used = component(tag, form or "class")
    target = used
    for i, name in reversed(list(enumerate(path))):
        holder = types.SimpleNamespace(**{n: component(f"other {n}", "class") for n in ("Thing", "thing")})
        setattr(holder, name, target)
        target = holder
    if where == "class" and kind == "dotted":
        target = type("Names", (), dict(vars(target))) if not form == "function" else type("Names", (), {k: staticmethod(v) for k, v in vars(target).items()})
    if where == "class" and form == "function" and kind == "capital":
        E.assume(False)
    if kind == "capital":
        parts.anything = parts.Thing = used
        setattr(parts, tag, used)
        if where == "alias":
            setattr(parts, tag, component("not this one", "class"))
        elif tag != "Thing":
            parts.Thing = component("not this one either", "class")
    elif kind == "dotted":
        parts.anything = target
        setattr(parts, first, component("not this one", "class") if where == "alias" else target)
    before, after = (s.format(first) for s in SOURCES[where])
    if kind == "plain":
        # These are names in the script
        before = "\n".join(f"from cgx_names import {n}" for n in TAGS + PLAIN if n.isidentifier())
    place = E.pick("place", list(places))
    template, spec = PLACES[place](tag)
    extra = words(tag) if place == "words" else {}
    cls, namespace = cgx.load_from_string(FILE.format(template=template, before=before, after=after))
    state = reactive({"x": E.val("x0")})
    gui, container = mount(h(cls, state))
    for step in range(steps):
        if step:
            state["x"] = E.val(f"x{step}")
        x = state["x"]
        content = [el("in", {"x": x})] if spec is None else []
        if kind == "plain":
            d = el(tag, {"x": x, **extra}, *content)
        else:
            d = el("is", {"name": tag, "x": x}, *content)
        check_dom(E, container, spec(d) if spec else el("a", {}, d), label=f"step {step}")
    E.cover("end")


# -- which class --------------------------------------------------------------------------

CLASSES = {
    "component": "class {0}(cg.Component):\n    own = X{1}\n",
    "plain": "class {0}:\n    own = X{1}\n",
    "derived": "class {0}(Shared):\n    own = X{1}\n",
    "mixed": "class {0}(Mixin, cg.Component):\n    own = X{1}\n",
    "decorated": "@decorate\nclass {0}(cg.Component):\n    own = X{1}\n",
    "nested": "class {0}(cg.Component):\n    own = X{1}\n\n    class Inner:\n        own = None\n",
    "one line": "class {0}(cg.Component): own = X{1}\n",
    "function": "def {0}(props):\n    class Local(cg.Component):\n        own = X{1}\n    return Local\n",
    "value": "{0} = type('{0}', (cg.Component,), dict(own=X{1}))\n",
}
AFTER = {"": "", "function": "def after():\n    pass\n", "use": "OTHER = [C{0}]\n", "alias": "Alias = C{0}\n",
         "setting": "C{0}.extra = X{0}\n"}
SHARED = """
<script>
import collagraph as cg
from cgx_names import *

class Mixin:
    pass

class Shared(cg.Component):
    own = None

def decorate(cls):
    cls.decorated = True
    return cls

{classes}
</script>
<template><a :own="own" :x="x" /></template>
"""


def last_class(E, n=2, kinds=tuple(CLASSES)):
    """The component of a file is the last class, which should be a component. The template is not used for other classes"""
    reset()
    defs = [E.pick(f"class{i}", list(kinds)) for i in range(n)]
    after = E.pick("after", list(AFTER))
    values = [E.val(f"own{i}") for i in range(n)]
    for i in range(n):
        setattr(parts, f"X{i}", values[i])
    indices = [i for i, d in enumerate(defs) if d not in ("function", "value")]
    src = "\n".join(CLASSES[d].format(f"C{i}", i) for i, d in enumerate(defs)) + "\n" + AFTER[after].format(n - 1)
    src = SHARED.format(classes=src)
    last = indices[-1] if indices else None
    wrong = last is not None and defs[last] == "plain"
    try:
        cls, namespace = cgx.load_from_string(src)
    except ValueError as e:
        E.check(wrong, f"a file with a component as last class is refused: {e}")
        E.cover("refused")
        return
    E.check(not wrong, "a file without component as last class is accepted")
    name = "Shared" if last is None else f"C{last}"
    E.check(cls is namespace.get(name), "the component is not the last class")
    x = E.val("x")
    gui, container = mount(h(cls, {"x": x}))
    check_dom(E, container, el("a", {"own": None if last is None else values[last], "x": x}))
    for i, d in enumerate(defs):
        if i == last or d == "function" or (d == "derived" and last is None):
            continue
        E.check("render" not in vars(namespace[f"C{i}"]), "the template is used for another class")
    if last is not None:
        E.check("render" not in vars(namespace["Shared"]), "the template is used for another class")
    E.cover("end")


# -- script -------------------------------------------------------------------------------

LITERALS = ["</b>", "<b>", "<b c='d'/>", "<!-- a", "<!-- a -->", "-->", "&amp;", "&lt;b&gt;", "&", "a</", "</sc", "<script>", "<?", "<![CDATA[",
            "<template>", "</template>", "{{ x }}", "}}", "</template><template>", "<", "a < b"]
# Forms of statements that define a name, and the value of the text
FORMS = {
    "string": ("NAME = X0, LIT", lambda lit: lit),
    "lines": ('NAME = X0, """\nTEXT\n"""', lambda lit: f"\n{lit}\n"),
    "comment": ("# TEXT\nNAME = X0, ''  # TEXT", lambda lit: ""),
    "compare": ("NAME = X0, 1 <2 and 3 >2 and LIT", lambda lit: lit),
    "f-string": ("NAME = X0, f'{1}' + LIT", lambda lit: "1" + lit),
    "doc": ("def NAME():\n    LIT\n    return X0\nNAME = NAME(), NAME.__doc__", lambda lit: lit),
}
LAYOUTS = {
    "first": "<script>\nSCRIPT\n</script>\n<template><a :x='x'>{{ two[1] }}</a></template>",
    "last": "<template><a :x='x'>{{ two[1] }}</a></template>\n<script>\nSCRIPT\n</script>",
    "other": "<docs>text &lt; <b>text</b></docs>\n<template>\n<!-- <script> -->\n<a :x='x'>{{ two[1] }}</a></template>\n"
             "<script lang='py'>\nSCRIPT\n</script>\n<docs />",
}


def script_text(E, literals=(0, 1), forms=tuple(FORMS)):
    """The script is Python, also when it contains text that looks like markup"""
    reset()
    parts.X0 = E.val("X0")
    code, want = [], []
    for i in range(2):
        lit = E.pick(f"literal{i}", LITERALS) if i in literals else "text"
        form, value = FORMS[E.pick(f"form{i}", list(forms)) if i in literals else "string"]
        code.append(form.replace("NAME", ("one", "two")[i]).replace("LIT", repr(lit)).replace("TEXT", lit))
        want.append(value(lit))
    code = "import collagraph as cg\nfrom cgx_names import X0\n" + "\n".join(code) + "\n\nclass Main(cg.Component):\n    pass\n\nafter = 'after'"
    cls, names = cgx.load_from_string(LAYOUTS[E.pick("layout", list(LAYOUTS))].replace("SCRIPT", code))
    for i, name in enumerate(("one", "two")):
        E.check(f_eq(names[name][0], parts.X0), "the script has another value")
        E.check(names[name][1] == want[i], f"the script has another text: {names[name][1]!r}, not {want[i]!r}")
    E.check(names.get("after") == "after", "part of the script is missing")
    x = E.val("x")
    gui, container = mount(h(cls, {"x": x}))
    check_dom(E, container, el("a", {"x": x}, text(want[1])))
    E.cover("end")


# -- positions ----------------------------------------------------------------------------

BEFORE = {
    "none": "", "comment": "<!-- about\n this -->\n\n", "blank": "\n\n\n",
    "template": "<template>\n  <a\n    :x='x'\n  >\n  text\n  </a>\n</template>\n",
    "style": "<style>\na { }\n</style>\n",
}
OPEN = {"line": "<script>\n", "same": "<script>", "blank": "<script>\n\n  \n", "attrs": '<script\n  lang="py"\n>\n', "spaces": "   <script>\n"}
HEAD = {
    "import": "import collagraph as cg\n", "several": "import os, collagraph as cg\nimport re\n",
    "comment": "# About </b> & <c>\nimport collagraph as cg\n",
    "text": '"""\nSome text &amp; <b>\n"""\nimport collagraph as cg\nX = """\n\n"""\n',
    "long": "import collagraph as cg\nY = [\n    1,\n    2\n]\n",
}
CODE = {
    "function": ("def fail(self, x):\n    if x:\n        raise KeyError  # HERE\n    raise KeyError  # THERE\n", "fail"),
    "method": ("def fail(self, x):\n    return self.fail(x)\n", None),
    "lambda": ("fail = lambda self, x: (\n    zero(x)  # HERE\n    if x else\n    zero(x)  # THERE\n)\n\ndef zero(x):\n    raise KeyError\n", "fail"),
    "nested": ("def fail(self, x):\n    def inner():\n        if x:\n            raise KeyError  # HERE\n        raise KeyError  # THERE\n    inner()\n", "fail"),
    "decorated": ("def same(f):\n    return f\n\n@same\ndef fail(self, x):\n    if x:\n        raise KeyError  # HERE\n    raise KeyError  # THERE\n", "fail"),
    "multi line": ("def fail(self, x):\n    '''\n    Text\n    '''\n    if (x\n        and x):\n        raise KeyError  # HERE\n    raise KeyError  # THERE\n", "fail"),
}
METHOD = "    def fail(self, x):\n\n        if x:\n            raise KeyError  # HERE\n        raise KeyError  # THERE\n"


def lines(E, before=tuple(BEFORE), opens=tuple(OPEN), heads=tuple(HEAD), code=tuple(CODE), files=False):
    """An error in the code of a script is reported at the line of the file where that code is"""
    reset()
    first = E.pick("before", list(before))
    kind = E.pick("code", list(code))
    where = E.pick("where", ["before", "after"])
    head = HEAD[E.pick("head", list(heads))]
    src, _ = CODE[kind]
    cls_src = "class Main(cg.Component):\n    note = 1\n" + (METHOD if kind == "method" else "")
    if kind != "method" and where == "before":
        script = f"{head}\n{src}\n{cls_src}"
    elif kind != "method":
        script = f"{head}\n{cls_src}\n{src}"
    else:
        script = f"{head}\n{cls_src}"
    opening = OPEN[E.pick("open", list(opens))]
    source = BEFORE[first] + opening + script + "</script>\n"
    if first != "template":
        source += BEFORE["template"]
    all_lines = source.split("\n")
    broken = kind != "lambda" and E.boolean("broken")
    if broken:
        # Also when the script can't be compiled
        mark = "# HERE" if E.boolean("which") else "# THERE"
        number = next(i for i, line in enumerate(all_lines, 1) if line.endswith(mark))
        all_lines[number - 1] = "    )  " + mark
        source = "\n".join(all_lines)
    with Files(["/dir"]) as scratch:
        scratch.write("/dir/positions.cgx", source)
        path = scratch("/dir/positions.cgx")
        try:
            module = importlib.import_module("positions")
        except SyntaxError as e:
            E.check(broken, f"a file is not accepted: {e}")
            E.check(e.filename == path, "the wrong file is reported")
            E.check(e.lineno == number, f"the wrong line is reported: {e.lineno} instead of {number}")
            E.cover("syntax")
            return
        E.check(not broken, "a file with an error is accepted")
        x = E.val("x")
        fail = module.fail if kind != "method" else module.Main.fail
        frame = None
        try:
            fail(None, x)
        except KeyError as e:
            frames = [f for f in traceback.extract_tb(e.__traceback__) if f.filename == path]
            frame = frames[0] if kind == "lambda" else frames[-1] if frames else None
        E.check(frame is not None, "the file is not reported")
        if frame is not None:
            mark = "# HERE" if x else "# THERE"
            number = next(i for i, line in enumerate(all_lines, 1) if line.endswith(mark))
            E.check(frame.lineno == number, f"the wrong line is reported: {frame.lineno} instead of {number}")
            E.check(frame.line == all_lines[number - 1].strip(), "the wrong line is shown")
        # The generated code is not on one of the lines of the script
        end = next(i for i, line in enumerate(all_lines, 1) if "</script>" in line and "# About" not in line)
        code_ = module.Main.render.__code__
        E.check(code_.co_filename == path, "the template is reported as another file")
        E.check(code_.co_firstlineno >= end, "the template is reported as a line of the script")
    E.cover("line")


B = "all combinations of the listed forms; steps = number of assignments, n = number of classes; values are symbolic"
CHECKS = {
    "C36": Check("C36", [
        Harness("tags", tags, quick=[dict(sources=["import", "assigned after", "class"]), dict(places=["child", "nested"])],
                thorough=[dict(steps=2)], bounds=B, covers=["end"]),
        Harness("script", script_text, quick=[dict(literals=[1])], thorough=[dict()], bounds=B, covers=["end"]),
        Harness("last class", last_class, quick=[dict()], thorough=[dict(n=3)], bounds=B, covers=["end", "refused"]),
    ], module=__name__, stubs=STUBS),
    "C37": Check("C37", [
        Harness("lines", lines, quick=[dict(before=["none", "template", "comment"], heads=["import", "text"]),
                                       dict(code=["function", "method"], opens=["line", "same"])],
                thorough=[dict()], bounds=B, covers=["line", "syntax"]),
    ], module=__name__, stubs=["file system: a scratch directory"]),
}

"""The command line (python -m collagraph) and the hook for packaging with PyInstaller"""

import contextlib
import importlib.util
import io
import json
import os
import shutil
import sys
import tempfile
import types

from symx.boot import REPO, boot

cg = boot(qt=True)

from PySide6 import QtWidgets  # noqa: E402

from observ import to_raw  # noqa: E402

from .base import *  # noqa: F403,E402
from .base import Check, Collagraph, EventLoopType, Harness, f_eq, reset  # noqa: E402
from .importer import locales  # noqa: E402
from .qt import app, restore_state  # noqa: E402
from collagraph import __main__ as main  # noqa: E402
from collagraph.renderers import PySideRenderer  # noqa: E402


@contextlib.contextmanager
def scratch():
    folder = tempfile.mkdtemp(prefix="symx-")
    try:
        yield folder
    finally:
        shutil.rmtree(folder)


def write(path, content):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(content)


REAL = QtWidgets.QApplication


class Meta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, REAL)

    def __getattr__(cls, name):
        return getattr(REAL, name)


class Application(metaclass=Meta):
    """Stands in for the QApplication (there can only be one)"""

    def __new__(cls, *args):
        return app()


class Ran:
    """What a run of the command line did"""

    def __init__(self):
        self.renders = []
        self.started = 0
        self.code = None


@contextlib.contextmanager
def environment(ran, available):
    """The environment of a process that has just been started"""
    saved = (sys.argv, sys.breakpointhook, Collagraph.render, QtWidgets.QApplication,
             PySideRenderer.preferred_event_loop_type)
    real = app()
    real_render = Collagraph.render
    real_exec = type(real).exec
    cwd = os.getcwd()

    def render(self, element, target, *args, **kwargs):
        ran.renders.append((self, element, target))
        return real_render(self, element, target, *args, **kwargs)

    def started(*args, **kwargs):
        ran.started += 1
        return 0

    hidden = {}
    try:
        Collagraph.render = render
        sys.breakpointhook = started
        QtWidgets.QApplication = Application
        real.exec = started
        PySideRenderer.preferred_event_loop_type = lambda self: EventLoopType.SYNC
        if not available:
            hidden = {"cg": cg.PySideRenderer, "renderers": cg.renderers.PySideRenderer, "module": sys.modules["PySide6"]}
            del cg.PySideRenderer, cg.renderers.PySideRenderer
            sys.modules["PySide6"] = None
        yield
    finally:
        os.chdir(cwd)
        if hidden:
            cg.PySideRenderer = hidden["cg"]
            cg.renderers.PySideRenderer = hidden["renderers"]
            sys.modules["PySide6"] = hidden["module"]
        (sys.argv, sys.breakpointhook, Collagraph.render, QtWidgets.QApplication,
         PySideRenderer.preferred_event_loop_type) = saved
        del real.exec
        assert type(real).exec is real_exec


APP = """
<template>
  <{tag} :{attr}="first" :object_name="second" />
</template>

<script>
import collagraph as cg


class App(cg.Component):
    pass
</script>
"""


def run(E, states=("text", "file"), components=("file",), renderers=("dict", "pyside"), available=True, relative=False, any_locale=False):
    """A component is rendered with the renderer and state of the command line"""
    reset()
    restore_state()
    renderer = E.pick("renderer", [None, *renderers])
    spelling = E.pick("spelling", ["two", "one"])
    form = E.pick("state", [None, *states])
    component = E.pick("component", list(components))
    order = E.boolean("options first")
    used = renderer or "pyside"
    values = {"first": E.text("first"), "second": f"é€ {E.text('second')}"}
    ran = Ran()
    with scratch() as folder, locales(E) if any_locale else contextlib.nullcontext():
        path = os.path.join(folder, "app.cgx")
        write(path, APP.format(tag="label", attr="text"))
        os.mkdir(os.path.join(folder, "folder.cgx"))
        write(os.path.join(folder, "app.html"), APP.format(tag="label", attr="text"))
        write(os.path.join(folder, "app.cgx.bak"), APP.format(tag="label", attr="text"))
        write(os.path.join(folder, "appcgx"), APP.format(tag="label", attr="text"))
        write(os.path.join(folder, "my.app v2.cgx"), APP.format(tag="label", attr="text"))
        if component == "dotted":
            path = os.path.join(folder, "my.app v2.cgx")
        target = {"file": "app.cgx", "backup": "app.cgx.bak", "bare": "appcgx", "dotted": "my.app v2.cgx", "missing": "other.cgx", "folder": "folder.cgx", "suffix": "app.html"}[component]
        text = json.dumps({k: str(v) for k, v in values.items()}, ensure_ascii=False)
        state_path = os.path.join(folder, "state.json")
        wrong = component not in ("file", "dotted") or used not in ("dict", "pyside") or (used == "pyside" and not available)
        if form in ("file", "wrong file", "empty file"):
            write(state_path, {"file": text, "wrong file": text[:-1], "empty file": ""}[form])
            state = "state.json" if relative else state_path
        elif form == "long":
            values["more"] = "x" * 5000
            state = json.dumps({k: str(v) for k, v in values.items()}, ensure_ascii=False)
        elif form == "missing":
            state = os.path.join(folder, "other.json")
        elif form == "wrong text":
            state = text[:-1]
        elif form in ("empty", "blank", "quotes", "two"):
            state = {"empty": "", "blank": " ", "quotes": text.replace('"', "'"), "two": text + text}[form]
        else:
            state = text
        wrong = wrong or form in ("wrong file", "empty file", "wrong text", "missing", "empty", "blank", "quotes", "two")
        options = []
        for name, value in (("--renderer", renderer), ("--state", state if form else None)):
            if value is not None:
                options += [name, value] if spelling == "two" else [f"{name}={value}"]
        positional = [target if relative else os.path.join(folder, target)]
        err = io.StringIO()
        with environment(ran, available), contextlib.redirect_stderr(err):
            if relative:
                os.chdir(folder)
            sys.argv = ["collagraph", *(options + positional if order else positional + options)]
            if form is None:
                # Without state the names can't be found
                write(path, APP.format(tag="label", attr="text").replace('"first"', "\"'a'\"").replace('"second"', "\"'b'\""))
                values = {"first": "a", "second": "b"}
            try:
                main.run()
            except SystemExit as e:
                ran.code = e.code
            except ImportError:
                # The default renderer can be unavailable
                if not (used == "pyside" and not available):
                    raise
                ran.code = "import"
        if wrong:
            E.check(ran.code not in (None, 0), "wrong arguments are not refused")
            E.check(not ran.renders and not ran.started, "something is rendered in spite of wrong arguments")
            if ran.code == "import":
                E.check(renderer is None, "a renderer is offered that is not available")
            E.cover("refused")
            return
        E.check(ran.code is None, f"the arguments are refused: {ran.code}")
        E.check(len(ran.renders) == 1, "the component is not rendered (once)")
        E.check(ran.started == 1, "the application does not stay")
        if len(ran.renders) != 1:
            return
        gui, element, container = ran.renders[0]

        def check(label):
            if used == "dict":
                nodes = container.get("children", [])
                E.check(len(nodes) == 1, f"{label}: wrong number of elements")
                if len(nodes) == 1:
                    E.check(nodes[0]["type"] == "label", f"{label}: wrong element")
                    E.check(f_eq(nodes[0]["attrs"].get("text"), values["first"]), f"{label}: wrong value of the first")
                    E.check(f_eq(nodes[0]["attrs"].get("object_name"), values["second"]), f"{label}: wrong value of the second")
            else:
                E.check(container is app(), f"{label}: not rendered in the application")
                widgets = [w for w in QtWidgets.QApplication.topLevelWidgets() if isinstance(w, QtWidgets.QLabel)]
                E.check(len(widgets) == 1, f"{label}: wrong number of widgets")
                if len(widgets) == 1:
                    E.check(f_eq(widgets[0].text(), values["first"]), f"{label}: wrong value of the first")
                    E.check(f_eq(widgets[0].objectName(), values["second"]), f"{label}: wrong value of the second")

        try:
            check("start")
            if form is not None:
                values["first"] = E.text("changed")
                element.props["first"] = str(values["first"])
                check("changed")
        finally:
            for w in list(app().topLevelWidgets()):
                w.close()
                w.deleteLater()
            import shiboken6

            for w in list(app().topLevelWidgets()):
                if shiboken6.isValid(w):
                    shiboken6.delete(w)
    E.cover("rendered")


def state(E, depth=2):
    """All kinds of values in the state reach the component"""
    reset()
    kinds = ["text", "zero", "number", "false", "true", "null", "empty", "list", "dict"]

    def value(name, depth):
        kind = E.pick(f"kind {name}", kinds if depth else kinds[:7])
        if kind == "list":
            return [value(f"{name}_{i}", depth - 1) for i in range(E.choice(f"n {name}", 2) + 1)]
        if kind == "dict":
            return {f"k{i}": value(f"{name}_{i}", depth - 1) for i in range(E.choice(f"n {name}", 2) + 1)}
        return {"text": str(E.text(name)) + " \u00e9", "zero": 0, "number": 1.5, "false": False, "true": True, "null": None, "empty": ""}[kind]

    def same(a, b):
        a = to_raw(a)
        if isinstance(b, (list, dict)):
            E.check(isinstance(a, type(b)) and len(a) == len(b), "wrong value")
            for k in (b if isinstance(b, dict) else range(len(b))):
                same(a[k], b[k])
            return
        E.check(type(a) is type(b) or isinstance(b, str), "wrong type of value")
        E.check(f_eq(a, b), "wrong value")

    want = {"first": value("first", depth), "second": value("second", 0)}
    seen = []
    ran = Ran()
    from_file = E.boolean("from file")
    text = json.dumps(want, ensure_ascii=False)
    with scratch() as folder:
        path = os.path.join(folder, "app.cgx")
        write(path, APP.format(tag="label", attr="text"))
        source = text
        if from_file:
            source = os.path.join(folder, "state.json")
            write(source, text)
        with environment(ran, True):
            sys.argv = ["collagraph", "--renderer", "dict", "--state", source, path]
            main.run()
    (_, element, container), = ran.renders
    seen = container["children"][0].get("attrs", {})
    for attr, name in (("text", "first"), ("object_name", "second")):
        same(seen.get(attr), want[name])
        E.check(name in element.props, "the component does not get the prop")
    E.cover("end")


# -- PyInstaller -------------------------------------------------------------------


class Packaging:
    """The part of PyInstaller that is used"""

    def __init__(self, packages):
        # package -> file in which collagraph is used
        self.packages = packages
        self.imports = []
        self.datas = []
        graph = types.SimpleNamespace(get_code_using=self.get_code_using)
        self.analysis = types.SimpleNamespace(graph=graph)

    def get_code_using(self, name):
        assert name == "collagraph"
        return {p: compile("import collagraph", f, "exec") for p, f in self.packages.items()}

    def add_imports(self, *names):
        self.imports += names

    def add_datas(self, datas):
        self.datas += datas

    def collect_data_files(self, package, include_py_files=False, subdir=None, excludes=None, includes=None):
        from pathlib import Path

        folder = Path(self.packages[package]).parent
        files = [f for pattern in includes or ["**/*"] for f in folder.glob(pattern)]
        return [(str(f), str(f.parent)) for f in files]


def load_hook(packaging):
    names = ["PyInstaller", "PyInstaller.utils", "PyInstaller.utils.hooks"]
    saved = {n: sys.modules.get(n) for n in names}
    for n in names:
        sys.modules[n] = types.ModuleType(n)
    sys.modules[names[-1]].collect_data_files = packaging.collect_data_files
    try:
        path = os.path.join(REPO, "collagraph", "__pyinstaller", "hook-collagraph.py")
        spec = importlib.util.spec_from_file_location("hook_collagraph", path)
        module = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(module)
        return module
    finally:
        for n in names:
            if saved[n] is None:
                del sys.modules[n]
            else:
                sys.modules[n] = saved[n]


IMPORTS = {
    "import": ("import {m}", ["{m}"]),
    "import as": ("import {m} as other", ["{m}"]),
    "import two": ("import {m}, {m}_b.c as d", ["{m}", "{m}_b.c"]),
    "dotted": ("import {m}.sub", ["{m}.sub"]),
    "from": ("from {m} import name", ["{m}", "{m}.name"]),
    "from two": ("from {m} import name, another as other", ["{m}", "{m}.name", "{m}.another"]),
    "from dotted": ("from {m}.sub import name", ["{m}.sub", "{m}.sub.name"]),
    "star": ("from {m} import *", ["{m}"]),
    "relative": ("from .{m} import name", ["{p}.{m}", "{p}.{m}.name"]),
    "relative two": ("from . import {m}, {m}_b as other", ["{p}.{m}", "{p}.{m}_b"]),
    "relative up": ("from ..{m}.sub import name", ["{up}.{m}.sub", "{up}.{m}.sub.name"]),
}
PLACES = {
    "top": "{i}\n\nclass App(cg.Component):\n    pass\n",
    "after": "class App(cg.Component):\n    pass\n\n{i}\n",
    "if": "if True:\n    {i}\n\nclass App(cg.Component):\n    pass\n",
    "try": "try:\n    {i}\nexcept ImportError:\n    pass\n\nclass App(cg.Component):\n    pass\n",
    "function": "def function():\n    {i}\n\nclass App(cg.Component):\n    pass\n",
    "method": "class App(cg.Component):\n    def method(self):\n        {i}\n",
    "nested": "class App(cg.Component):\n    async def method(self):\n        def inner():\n            if self:\n                {i}\n",
}
FOLDERS = ["", "sub", "sub/deeper"]


def packaged(E, files=2, imports=1, packages=1, module=False, other=False, places=tuple(PLACES), forms=tuple(IMPORTS), folders=tuple(FOLDERS)):
    """All that cgx files import is part of the packaged application, and so are these files"""
    want, paths = [], []
    with scratch() as top:
        used = {}
        for p in range(packages):
            name = f"package{p}"
            where = E.pick(f"module{p}", ["__init__", "main", "script"] if module else ["__init__"])
            user = {"__init__": name, "main": f"{name}.main", "script": "main"}[where]
            used[user] = os.path.join(top, name, f"{'__init__' if where == '__init__' else 'main'}.py")
            write(used[user], "import collagraph\n")
            base = [] if where == "script" else [name]
            for f in range(E.choice(f"files{p}", files + 1)):
                folder = E.pick(f"folder{p}_{f}", list(folders))
                script = "import collagraph as cg\n# é€\n"
                for i in range(imports):
                    form = E.pick(f"form{p}_{f}_{i}", list(forms))
                    place = E.pick(f"place{p}_{f}_{i}", list(places))
                    if form == "star" and place in ("function", "method", "nested"):
                        E.assume(False)
                    m = f"m{p}_{f}_{i}"
                    line, names = IMPORTS[form]
                    inside = base + [x for x in folder.split("/") if x]
                    if len(inside) < line.count("..") + line.count("from ."):
                        # This can't be imported
                        E.assume(False)
                    script += PLACES[place].format(i=line.format(m=m))
                    want += [n.format(m=m, p=".".join(inside), up=".".join(inside[:-1])) for n in names]
                path = os.path.join(top, name, folder, f"file{f}.cgx")
                write(path, f"<template>\n  <item />\n</template>\n\n<script>\n{script}\n</script>\n")
                paths.append(path)
        packaging = Packaging(used)
        hook = load_hook(packaging)
        with locales(E) if other else contextlib.nullcontext():
            hook.hook(packaging)
        for n in want:
            E.check(n in packaging.imports, "an import of a component is missing")
        datas = [src for src, _ in packaging.datas]
        for path in paths:
            E.check(path in datas, "a cgx file is missing")
    E.cover("end")


B = "all combinations of the stated forms of arguments; the values in the state are symbolic"
CHECKS = {
    "C34": Check("C34", [
        Harness("run", run,
                quick=[dict(), dict(relative=True, renderers=["dict"]), dict(states=["long", "wrong text", "wrong file", "missing", "empty", "blank", "quotes", "two", "empty file"]), dict(states=["file", "text"], renderers=["dict"], any_locale=True),
                       dict(states=[], components=["file", "missing", "folder", "suffix", "backup", "bare", "dotted"]),
                       dict(available=False, states=["text"]), dict(renderers=["other"], states=["text"])],
                bounds=B, covers=["rendered", "refused"]),
        Harness("state", state, quick=[dict(depth=1)], thorough=[dict(depth=2)], bounds=B + "; depth = nesting of the values", covers=["end"]),
    ], module=__name__, stubs=["breakpoint, QApplication and its exec (only recorded)", "PySide6 can be hidden from the process"]),
    "C35": Check("C35", [
        Harness("packaged", packaged,
                quick=[dict(files=1), dict(files=1, other=True, places=["top"], folders=["", "sub"]),
                       dict(files=2, places=["top", "nested"], forms=["import", "from dotted"]),
                       dict(files=1, packages=2, places=["top", "method"], forms=["import two", "from two"], folders=["", "sub"]),
                       dict(files=1, imports=2, folders=["", "sub"], places=["top", "nested", "after"]),
                       dict(files=1, module=True, places=["top"])],
                thorough=[dict(files=2, places=["top", "function"]), dict(files=2), dict(files=1, imports=2), dict(files=2, module=True, places=["top"]),
                          dict(files=2, packages=2, places=["top", "method"], forms=["import two", "from two"], folders=["", "sub"])],
                bounds="files = max number of cgx files per package, imports = number of imports per file; all combinations of forms, places and folders", covers=["end"]),
    ], module=__name__, stubs=["PyInstaller: hook API that records, collect_data_files that lists the files in the folder of a package"]),
}

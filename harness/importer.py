"""Importing modules from cgx files"""

import contextlib
import importlib
import importlib.util
import locale
import os
import shutil
import sys
import tempfile
import types

from .base import *  # noqa: F403
from .base import Check, Component, EventLoopType, Harness, Node, SpecRenderer, f_eq, h, reset
from collagraph import Collagraph
from collagraph.cgx import importer


class Files:
    """A scratch directory"""

    def __init__(self, path=()):
        self.path = path

    def __enter__(self):
        self.top = tempfile.mkdtemp(prefix="symx-")
        self.saved = list(sys.path)
        self.modules = set(sys.modules)
        sys.path[:0] = [self.top + p for p in self.path]
        return self

    def __exit__(self, *args):
        sys.path[:] = self.saved
        for name in set(sys.modules) - self.modules:
            del sys.modules[name]
        for p in list(sys.path_importer_cache):
            if p.startswith(self.top):
                del sys.path_importer_cache[p]
        shutil.rmtree(self.top)

    def __call__(self, path):
        return self.top + path

    def write(self, path, content):
        os.makedirs(os.path.dirname(self.top + path), exist_ok=True)
        with open(self.top + path, "w", encoding="utf-8") as f:
            f.write(content)


SOURCE = """
<template>
  <{tag} :value="VALUE" :result="helper()" :own="own" />
</template>

<script>
import collagraph as cg

VALUE = "{value}"
# Ünïcode
NOTE = "é€ßあ"
NAME = (__name__, __file__, __spec__.name)
__version__ = "{version}"
{extra}

def helper():
    return "{result}" + SUFFIX

SUFFIX = "{suffix}"
CHANGED = None


def change(value):
    global CHANGED
    CHANGED = value



class {name}(cg.Component):
    own = "{own}"
</script>
"""


@contextlib.contextmanager
def locales(E):
    """The locale of the user can be any"""
    saved = locale.setlocale(locale.LC_CTYPE)
    if E.boolean("other locale"):
        locale.setlocale(locale.LC_CTYPE, "C")
    try:
        yield
    finally:
        locale.setlocale(locale.LC_CTYPE, saved)


class World:
    def __init__(self, E):
        self.E = E
        self.n = 0

    def file(self, name="Thing", extra=""):
        """-> source, the texts that are in there"""
        self.n += 1
        t = {k: self.E.text(f"{k}{self.n}") for k in ("value", "result", "suffix", "own", "version")}
        src = SOURCE.format(tag=f"tag{self.n}", name=name, extra=extra, **{k: str(t[k]) for k in t})
        return src, (f"tag{self.n}", t)


def rendered(component):
    reset()
    container = Node("container", 0)
    gui = Collagraph(SpecRenderer(), event_loop_type=EventLoopType.SYNC)
    gui.render(h(component), container)
    (node,) = container.children
    return node


def check_module(E, module, facts, name, label):
    tag, t = facts
    E.check(f_eq(module.VALUE, t["value"]), f"{label}: module has the wrong value for a name")
    E.check(f_eq(module.__version__, t["version"]), f"{label}: module has the wrong value for a special name")
    E.check(module.NOTE == "é€ßあ", f"{label}: text in the script is not what is in the file")
    E.check(module.NAME == (module.__name__, module.__file__, module.__spec__.name), f"{label}: script has the wrong name or file")
    E.check(f_eq(module.helper(), str(t["result"]) + str(t["suffix"])), f"{label}: function of the module gives the wrong result")
    cls = getattr(module, name, None)
    E.check(isinstance(cls, type) and issubclass(cls, Component) and cls.__name__ == name, f"{label}: module has no component")
    if cls is None:
        return
    node = rendered(cls)
    E.check(node.type == tag, f"{label}: wrong element")
    E.check(f_eq(node.attrs.get("value"), t["value"]), f"{label}: template has the wrong value for a name")
    E.check(f_eq(node.attrs.get("result"), str(t["result"]) + str(t["suffix"])), f"{label}: template gets the wrong result")
    E.check(f_eq(node.attrs.get("own"), t["own"]), f"{label}: template has the wrong value for an attribute")


def check_shared(E, module, facts, name):
    """The names of the module are the global names of its functions"""
    tag, t = facts
    new = E.text("new")
    module.SUFFIX = new
    module.VALUE = new
    E.check(f_eq(module.helper(), str(t["result"]) + str(new)), "function of the module uses a name that has been replaced")
    node = rendered(getattr(module, name))
    E.check(f_eq(node.attrs.get("value"), new), "template uses a name that has been replaced")
    E.check(f_eq(node.attrs.get("result"), str(t["result"]) + str(new)), "template uses a name that has been replaced")
    module.change(t["own"])
    E.check(f_eq(module.CHANGED, t["own"]), "function of the module can't change a name of the module")


def find(E, dirs=3, package=False, others=True, names=("thing",)):
    """A module is loaded from the first directory that has a cgx file for it"""
    reset()
    w = World(E)
    first = None
    directories = [f"/dir{i}" for i in range(dirs)]
    base = E.pick("module", list(names))
    name = f"some.package.{base}" if package else base
    with Files(["/elsewhere"] if package else directories) as files, locales(E) if dirs == 1 else contextlib.nullcontext():
        for d in directories:
            if E.boolean(f"{d} has it"):
                src, facts = w.file("Thing")
                files.write(f"{d}/{base}.cgx", src)
                first = first or (d, facts)
            if others and E.boolean(f"{d} has another"):
                src, _ = w.file("Other")
                files.write(f"{d}/other.cgx", src)
        if package and E.boolean("elsewhere has it"):
            # Modules of a package are only looked for within the package
            src, facts = w.file("Thing")
            files.write(f"/elsewhere/{base}.cgx", src)
        spec = importer.CgxImporter.find_spec(name, [files(d) for d in directories] if package else None)
        if first is None:
            E.check(spec is None, "a module is found that does not exist")
            E.cover("not found")
            return
        E.check(spec is not None, "the module is not found")
        if spec is None:
            return
        path = files(f"{first[0]}/{base}.cgx")
        E.check(spec.name == name, "the spec has the wrong name")
        E.check(str(spec.origin) == path, "the spec has the wrong origin")
        module = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(module)
        E.check(module.__name__ == name, "the module has the wrong name")
        E.check(module.__file__ == path, "the module has the wrong file")
        E.check(module.__spec__ is spec, "the module has the wrong spec")
        check_module(E, module, first[1], "Thing", "import")
        check_shared(E, module, first[1], "Thing")
    E.cover("found")


def standard(E, dirs=2):
    """Modules that Python itself can find are not affected by cgx files of the same name"""
    reset()
    w = World(E)
    package = E.boolean("package")
    sub = "/some/package" if package else ""
    name = "some.package.thing" if package else "thing"
    first = python = None
    directories = [f"/dir{i}" for i in range(1 if package else dirs)]
    with Files(directories) as files:
        for d in directories:
            os.makedirs(files(d))
            if package and E.boolean("regular package"):
                files.write(f"{d}/some/__init__.py", "")
                files.write(f"{d}/some/package/__init__.py", "")
            elif package:
                os.makedirs(files(d + sub))
            form = E.pick(f"{d} has", ["nothing", "cgx", "py", "both", "other"])
            if form in ("cgx", "both", "other"):
                src, facts = w.file("Thing")
                files.write(f"{d}{sub}/{'Thing' if form == 'other' else 'thing'}.cgx", src)
                if form != "other":
                    first = first or (d, facts)
            if form in ("py", "both"):
                w.n += 1
                value = E.text(f"python{w.n}")
                files.write(f"{d}{sub}/thing.py", f"VALUE = '{value}'\n")
                python = python or (d, value)
        importlib.invalidate_caches()
        try:
            module = importlib.import_module(name)
        except ModuleNotFoundError as e:
            E.check(first is None and python is None and e.name in (name, "some"), "the module is not found")
            return
        if python is not None:
            E.check(f_eq(getattr(module, "VALUE", None), python[1]), "a module in Python is replaced by a cgx file")
            E.check(module.__file__ == files(f"{python[0]}{sub}/thing.py"), "a module in Python is replaced by a cgx file")
            E.cover("python")
        else:
            E.check(first is not None, "a module is found that does not exist")
            if first:
                E.check(module.__file__ == files(f"{first[0]}{sub}/thing.cgx"), "another file is imported")
                check_module(E, module, first[1], "Thing", "import")
                E.cover("cgx")


RELATIVE = """
from {dots}{where} import VALUE as OTHER
from {dots}{parent} import {last}


def other():
    return OTHER, {last}.VALUE, {last}.helper()
"""


def relative(E):
    """The script of a module within a package can import modules relative to it"""
    reset()
    w = World(E)
    where = E.pick("where", ["sibling", "sub.inner", "up"])
    dots = ".." if where == "up" else "."
    parent, _, last = where.rpartition(".")
    before = E.boolean("first imported by itself")
    with Files(["/dir"]) as files:
        wrong, _ = w.file("Other")
        for path in ("sibling", "some/sibling", "some/up", "up", "some/package/up", "inner", "some/sub/inner",
                     "some/package/inner"):
            files.write(f"/dir/{path}.cgx", wrong)
        src, facts = w.file("Thing", RELATIVE.format(dots=dots, where=where, parent=parent, last=last))
        files.write("/dir/some/package/thing.cgx", src)
        circular = where == "sibling" and E.boolean("circular")
        other, (_, texts) = w.file("Other", "from .thing import VALUE as BACK" if circular else "")
        target = {"sibling": "some/package/sibling", "sub.inner": "some/package/sub/inner", "up": "some/up"}[where]
        files.write(f"/dir/{target}.cgx", other)
        for path in ("some", "some/package", "some/package/sub", "some/sub"):
            files.write(f"/dir/{path}/__init__.py", "")
        if before:
            importlib.import_module(target.replace("/", "."))
        module = importlib.import_module("some.package.thing")
        check_module(E, module, facts, "Thing", "import")
        value, again, result = module.other()
        if circular:
            E.check(f_eq(sys.modules["some.package.sibling"].BACK, facts[1]["value"]), "the wrong module is imported")
        E.check(f_eq(value, texts["value"]), "the value of another module is imported")
        E.check(f_eq(again, texts["value"]), "the wrong module is imported")
        E.check(f_eq(result, str(texts["result"]) + str(texts["suffix"])), "function of the other module gives the wrong result")
    E.cover("end")


def reload(E, times=2):
    """Reloading a module results in what is in the file by then"""
    reset()
    w = World(E)
    name = "Thing"
    src, facts = w.file(name)
    with Files(["/dir"]) as files:
        files.write("/dir/thing.cgx", src)
        module = importlib.import_module("thing")
        check_module(E, module, facts, name, "import")
        for i in range(times):
            if E.boolean(f"changed{i}"):
                name = E.pick(f"name{i}", ["Thing", "Renamed"])
                src, facts = w.file(name)
                files.write("/dir/thing.cgx", src)
            importlib.reload(module)
            check_module(E, module, facts, name, f"reload {i}")
            E.check(module.__name__ == "thing" and module.__file__ == files("/dir/thing.cgx"), "reload: the module has the wrong name or file")
        check_shared(E, module, facts, name)
    E.cover("end")


B = "dirs = number of directories, each with or without a file for the module; times = number of times the module is reloaded; all values in the files are symbolic"
CHECKS = {
    "C31": Check("C31", [
        Harness("find", find, quick=[dict(dirs=1), dict(dirs=3, others=False), dict(dirs=2), dict(dirs=3, package=True, others=False),
                       dict(dirs=1, others=False, names=["Thing", "someThing", "THING2", "_x", "é"]), dict(dirs=0, package=True)],
                thorough=[dict(dirs=2, package=True, names=["Thing", "someThing", "_x"]), dict(dirs=0, package=True), dict(dirs=1), dict(dirs=4), dict(dirs=4, package=True)], bounds=B, covers=["found", "not found"]),
        Harness("standard", standard, quick=[dict()], thorough=[dict(dirs=3)], bounds=B, covers=["python", "cgx"]),
        Harness("relative", relative, quick=[dict()], bounds=B, covers=["end"]),
        Harness("reload", reload, quick=[dict(times=2)], thorough=[dict(times=4)], bounds=B, covers=["end"]),
    ], module=__name__, stubs=["file system: a scratch directory"]),
}

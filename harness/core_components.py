"""Component semantics: hooks, provide/inject, events, slots, props, element/parent"""

from .base import *  # noqa: F403
from .base import Cfg, Collagraph, Component, EventLoopType, Node, SpecRenderer, h, reactive
from functools import partial

from observ import computed, watch

from .base import text as text_node

from collagraph import render_slot

from . import core_children as cc
from . import trees


class World:
    def __init__(self):
        self.events = []
        self.instances = []
        self.store = reactive({"z": "z"})
        self.container = None
        self.flags = {}
        self.looking = None


W = World()


def attached(node):
    while node is not None:
        if node is W.container:
            return True
        node = node.parent
    return False


class Hooked(Component):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        W.instances.append(self)
        self.serial = len(W.instances)
        self.dead = False

    def name(self):
        return type(self).__name__

    def mounted(self):
        W.events.append(("mounted", self, attached(self.element), dict(self.element.attrs) if self.element is not None else None))

    def updated(self):
        W.events.append(("updated", self, attached(self.element), dict(self.element.attrs) if self.element is not None else None))

    def before_unmount(self):
        W.events.append(("unmount", self, attached(self.element), None))


class HRow(Hooked):
    def render(self):
        return h("row", {"x": self.props["x"], "serial": self.serial})


class HRowFrag(Hooked):
    def render(self):
        return h("template", {}, h("row", {"x": self.props["x"], "serial": self.serial}), h("sep"))


class HLeaf(Hooked):
    def render(self):
        return h("leaf", {"q": self.props["q"], "z": W.store["z"]})


class HMid(Hooked):
    def render(self):
        return h("mid", {"p": self.props["p"], "z": W.store["z"]},
                 h("template", {}, h(HLeaf, {"q": self.props["q"]})))


class HApp(Hooked):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.state["cfg"] = self.props["first"]

    def render(self):
        cfg = self.state["cfg"]
        row = HRowFrag if W.flags.get("frag") else HRow
        return h(
            "root", {"t": cfg.t, "z": W.store["z"]},
            *([h(HMid, {"key": "mid", "p": cfg.p, "q": cfg.q})] if cfg.show else []),
            *[h(row, {"key": k, "x": x}) for k, x in zip(cfg.keys, cfg.xs)],
        )


def of(name, serial=None):
    return [e for e in W.events if e[0] == name]


def count(events, kind, inst):
    return sum(1 for e in events if e[0] == kind and e[1] is inst)


def index(events, kind, inst):
    idx = [i for i, e in enumerate(events) if e[0] == kind and e[1] is inst]
    return idx[-1] if idx else None


def hooks(E, n=2, steps=2, frag=False, what=("rows", "t", "mid", "z"), gcs=False):
    """Every hook is called when it should be, with the host tree in the right state"""
    global W
    W = World()
    W.flags["frag"] = frag
    rows = "rows" in what

    def gen(step):
        keys, xs = [], []
        if rows:
            c = E.choice(f"n{step}", n + 1)
            keys = E.vals(f"key{step}_", c)
            E.distinct(keys)
            xs = E.vals(f"x{step}_", c)
        return Cfg(
            keys=keys, xs=xs,
            t=E.val(f"t{step}") if "t" in what else "t",
            show=E.boolean(f"show{step}") if "mid" in what else False,
            p=E.val(f"p{step}") if "mid" in what else None,
            q=E.val(f"q{step}") if "mid" in what else None,
        )

    reset()
    gui = Collagraph(SpecRenderer(), event_loop_type=EventLoopType.SYNC)
    container = W.container = SpecRenderer.node("container", 0)
    cfg = gen(0)
    gui.render(h(HApp, {"first": cfg}), container)
    app = W.instances[0]
    alive = {}  # instance -> info

    def row_instances(cfg):
        nodes = [c for c in container.children[0].children if c.type == "row"]
        if len(nodes) != len(cfg.keys):
            E.check(False, "wrong number of rows")
            return []
        by_serial = {i.serial: i for i in W.instances}
        return [by_serial[c.attrs["serial"]] for c in nodes]

    def mounted_ok(events, fresh, label):
        for inst in fresh:
            E.check(count(events, "mounted", inst) == 1,
                    f"{label}: mounted of a new {inst.name()} isn't called exactly once")
            E.check(count(events, "unmount", inst) == 0,
                    f"{label}: before_unmount of a new {inst.name()} is called")
            i = index(events, "mounted", inst)
            if i is not None:
                E.check(events[i][2], f"{label}: mounted of {inst.name()} is called before its element is in place")
            for e in events[:i]:
                E.check(e[1] is not inst, f"{label}: {e[0]} is called before mounted")
            p = inst.parent
            if p in fresh and i is not None:
                j = index(events, "mounted", p)
                E.check(j is not None and i < j, f"{label}: mounted of the parent is called before that of {inst.name()}")

    fresh = list(W.instances)
    mounted_ok(W.events, fresh, "initial")
    E.check(all(e[0] == "mounted" for e in W.events), "initial: unexpected hooks")
    current = row_instances(cfg)
    mid = [i for i in W.instances if isinstance(i, HMid)]
    leaf = [i for i in W.instances if isinstance(i, HLeaf)]
    gone = []
    for step in range(1, steps):
        label = f"step {step}"
        before = len(W.instances)
        del W.events[:]
        old = cfg
        if gcs:
            maybe_gc(E, f"gc{step}")
        if "z" in what and E.boolean(f"only z{step}"):
            # One change that is used by several components
            was = W.store["z"]
            new_z = E.val(f"z{step}")
            W.store["z"] = new_z
            ev = list(W.events)
            chain = ([*leaf, *mid] if cfg.show else []) + [app]
            same = f_eq(was, new_z)
            for inst in chain:
                c = count(ev, "updated", inst)
                E.check(f_or(same, c == 1), f"{label}: updated of {inst.name()} isn't called exactly once")
                E.check(f_or(f_not(same), c == 0), f"{label}: updated of {inst.name()} is called without a change")
                i = index(ev, "updated", inst)
                if i is not None:
                    E.check(f_eq(ev[i][3].get("z"), new_z), f"{label}: updated is called before the update")
            pos = [index(ev, "updated", inst) for inst in chain]
            if None not in pos:
                E.check(pos == sorted(pos), f"{label}: updated of the parent is called before that of the child")
            E.check(all(e[1] in chain for e in ev), f"{label}: hooks of other components are called")
            E.cover("z")
            continue
        cfg = gen(step)
        app.state["cfg"] = cfg
        ev = list(W.events)
        now = row_instances(cfg)
        fresh = W.instances[before:]
        mounted_ok(ev, fresh, label)
        moved = f_or(*[
            f_and(f_eq(old.keys[i], cfg.keys[j]), f_eq(old.keys[i2], cfg.keys[j2]))
            for i in range(len(old.keys)) for i2 in range(i + 1, len(old.keys))
            for j in range(len(cfg.keys)) for j2 in range(j)])
        # Rows
        for inst, k, x in zip(current, old.keys, old.xs):
            kept = f_or(*[f_eq(k, k2) for k2 in cfg.keys])
            c = count(ev, "unmount", inst)
            E.check(f_or(kept, c == 1), f"{label}: before_unmount of a removed row isn't called exactly once")
            E.check(f_or(f_not(kept), c == 0), f"{label}: before_unmount of a row is called while it's kept")
            E.check(count(ev, "mounted", inst) == 0, f"{label}: mounted is called again")
            i = index(ev, "unmount", inst)
            if i is not None:
                E.check(ev[i][2], f"{label}: before_unmount is called when the element is gone")
                E.check(all(e[1] is not inst for e in ev[i + 1:]), f"{label}: hooks are called after before_unmount")
                gone.append(inst)
            u = count(ev, "updated", inst)
            for k2, x2 in zip(cfg.keys, cfg.xs):
                same_key, same_x = f_eq(k, k2), f_eq(x, x2)
                E.check(f_or(f_not(same_key), same_x, u >= 1),
                        f"{label}: updated of a changed row is not called")
                E.check(f_or(f_not(same_key), f_not(same_x), moved, u == 0),
                        f"{label}: updated of a row is called without a change")
                i = index(ev, "updated", inst)
                if i is not None:
                    E.check(f_or(f_not(same_key), f_eq(ev[i][3].get("x"), x2)),
                            f"{label}: updated of a row is called before the update")
        # Component with a child
        if old.show and cfg.show:
            same_p, same_q = f_eq(old.p, cfg.p), f_eq(old.q, cfg.q)
            m, l = mid[0], leaf[0]
            for inst, same, own, name in ((m, f_and(same_p, same_q), same_p, "p"), (l, same_q, same_q, "q")):
                u = count(ev, "updated", inst)
                E.check(f_or(own, u >= 1), f"{label}: updated of {inst.name()} is not called")
                E.check(f_or(f_not(same), u == 0), f"{label}: updated of {inst.name()} is called without a change")
                E.check(count(ev, "unmount", inst) == 0 and count(ev, "mounted", inst) == 0,
                        f"{label}: {inst.name()} is still there")
                i = index(ev, "updated", inst)
                if i is not None:
                    E.check(f_eq(ev[i][3].get(name), getattr(cfg, name)),
                            f"{label}: updated of {inst.name()} is called before the update")
        elif old.show:
            for inst in (mid[0], leaf[0]):
                E.check(count(ev, "unmount", inst) == 1, f"{label}: before_unmount of {inst.name()} isn't called exactly once")
                i = index(ev, "unmount", inst)
                if i is not None:
                    E.check(ev[i][2], f"{label}: before_unmount is called when the element is gone")
                gone.append(inst)
        if not (old.show and cfg.show):
            mid = [i for i in fresh if isinstance(i, HMid)]
            leaf = [i for i in fresh if isinstance(i, HLeaf)]
            E.check(len(mid) == (1 if cfg.show else 0), f"{label}: wrong number of instances")
        # Root
        same_t = f_eq(old.t, cfg.t)
        added = f_or(*[f_and(*[f_not(f_eq(k, k2)) for k2 in old.keys]) for k in cfg.keys])
        removed = f_or(*[f_and(*[f_not(f_eq(k, k2)) for k2 in cfg.keys]) for k in old.keys])
        changed = f_or(f_not(same_t), added, removed, old.show != cfg.show)
        u = count(ev, "updated", app)
        E.check(f_or(f_not(changed), u >= 1), f"{label}: updated of the root is not called")
        E.check(f_or(changed, moved, u == 0), f"{label}: updated of the root is called without a change")
        E.check(count(ev, "mounted", app) == 0 and count(ev, "unmount", app) == 0, f"{label}: root is still there")
        i = index(ev, "updated", app)
        if i is not None:
            E.check(f_eq(ev[i][3].get("t"), cfg.t), f"{label}: updated of the root is called before the update")
        for inst in gone[:]:
            if inst not in current and inst not in mid and inst not in leaf:
                E.check(all(e[1] is not inst or e[0] == "unmount" for e in ev), f"{label}: hooks of a removed component are called")
        current = now
        E.cover("step")


# -- element and parent ------------------------------------------------------------


class Holder(cc.Tracked):
    """Virtual root"""

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        W.instances.append(self)
        self.seen = []

    def before_unmount(self):
        self.look("unmount")

    def look(self, hook):
        W.looking = self
        W.events.append((hook, self, self.element, W.structure(),
                         self.element is None or attached(self.element)))

    def mounted(self):
        self.look("mounted")

    def updated(self):
        self.look("updated")

    def render(self):
        return to_vnode(tmpl(*self.props["kids"].kids), h)


class HolderEl(Holder):
    def render(self):
        return to_vnode(self.props["kids"].root, h)


class HolderSlot(Holder):
    """Content comes from the outside"""

    def render(self):
        return h("template", {}, *self.render_slot("default"))


def HolderFn(props):
    return to_vnode(tmpl(*props["kids"].kids), h)


def holder_node(kind, kids, x, key=None):
    if kind in ("a", "b"):
        return el(kind, {"x": x}, *kids, key=key)
    if kind == "t":
        return tmpl(*kids, key=key)
    if kind == "text":
        return text(f"text {x}")
    k = cc.Kids(kids)
    props = {"kids": k}
    if kind == "hold":
        body = tmpl(*kids)
        d = comp(Holder, props, key=key, expand=lambda: body)
    elif kind == "holdel":
        k.root = body = el("w", {"x": x}, *kids)
        d = comp(HolderEl, props, key=key, expand=lambda: body)
    elif kind == "holdswitch":
        # Type of the root element depends on the step
        k.root = body = el(f"w{x}", {}, *kids)
        d = comp(HolderEl, props, key=key, expand=lambda: body)
    elif kind == "slot":
        body = tmpl(*kids)
        d = comp(HolderSlot, props, key=key, expand=lambda: body,
                 slots=lambda props: to_vnode(body, h))
    elif kind == "fn":
        body = tmpl(*kids)
        d = comp(HolderFn, props, key=key, expand=lambda: body)
    else:
        raise KeyError(kind)
    d.tag = (k, body)
    return d


def gen_holders(E, name, budget, kinds, x, keyed=False):
    pos = 0

    def forest():
        nonlocal pos, budget
        out = []
        keys = []
        while budget > 0:
            pos += 1
            c = E.choice(f"{name}{pos}", len(kinds) + 1)
            if c == 0:
                return out
            budget -= 1
            kind = kinds[c - 1]
            key = None
            if keyed:
                key = E.val(f"{name}key{pos}")
                E.distinct([*keys, key])
                keys.append(key)
            out.append(holder_node(kind, [] if kind == "text" else forest(), x, key))
        return out

    return forest()


class HolderRoot(Holder):
    def render(self):
        return to_vnode(self.state["cfg"].view if "cfg" in self.state else self.props["first"].view, h)


def first_host(d):
    """First element within the description"""
    if d.kind in ("el", "text"):
        return d
    if d.kind == "comp":
        return first_host(d.tag[1])
    for c in d.children:
        r = first_host(c)
        if r is not None:
            return r
    return None


def elements(E, budget=3, steps=2, kinds=("a", "hold", "holdel"), gcs=False):
    """element and parent of every component, for arbitrary trees of components"""
    global W
    W = World()
    cc.W = cc.World()
    reset()
    gui = Collagraph(SpecRenderer(), event_loop_type=EventLoopType.SYNC)
    W.structure = lambda: sum(1 for e in gui.renderer.log if e[0] in ("insert", "remove"))
    container = W.container = SpecRenderer.node("container", 0)
    for step in range(steps):
        children = gen_holders(E, f"s{step}_", budget, list(kinds), str(step))
        view = el("root", {}, *children)
        del W.events[:]
        if step == 0:
            gui.render(h(HolderRoot, {"first": Cfg(view=view)}), container)
            root = W.instances[0]
        else:
            if gcs:
                maybe_gc(E, f"gc{step}")
            root.state["cfg"] = Cfg(view=view)
        pairs = check_dom(E, container, view, label=f"step {step}")
        node_of = {id(x.d): n for n, x in pairs}
        E.check(root.element is container.children[0], f"step {step}: element of the root component")
        E.check(root.parent is None, f"step {step}: the root component has a parent")

        def walk(d, parent):
            if d.kind == "comp":
                k, body = d.tag
                if d.type is not HolderFn:
                    insts = [i for i in W.instances
                             if i.props.get("kids") is not None and i.props["kids"].kids is k.kids]
                    E.check(len(insts) == 1, f"step {step}: there should be one instance")
                    if len(insts) != 1:
                        return
                    inst = insts[0]
                    first = first_host(body)
                    want = node_of[id(first)] if first is not None else None
                    E.check(inst.element is want,
                            f"step {step}: element is not the first element of the component")
                    E.check(inst.parent is parent, f"step {step}: wrong parent")
                    last = [e for e in W.events if e[1] is inst]
                    # A component isn't notified (again) of changes within nested components
                    if last and last[-1][3] == W.structure():
                        E.check(last[-1][2] is want,
                                f"step {step}: wrong element within the {last[-1][0]} hook")
                    E.check(all(e[4] for e in last),
                            f"step {step}: element within a hook is not part of the DOM")
                    parent = inst
                    E.cover("component")
                walk(body, parent)
                return
            for c in d.children:
                walk(c, parent)

        walk(view, root)
    E.cover("end")


class Link(Component):
    """One of a chain of components, of which the state determines how the next one (or
    the last one itself) is rendered"""

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.state["wrap"] = W.wraps[self.props["level"]]
        W.links[self.props["level"]] = self

    def render(self):
        level, wrap = self.props["level"], self.state["wrap"]
        if level == W.depth - 1:
            return to_vnode(LAST[wrap](), h)
        if wrap == "fn":
            return h(LinkFn, {"level": level + 1})
        if wrap == "other":
            return h(OtherLink, {"level": level + 1})
        return to_vnode(LINKS[wrap](comp(Link, {"level": level + 1}, expand=None)), h)

    def noted(self, hook):
        W.noted.append((hook, self, self.element))

    def mounted(self):
        self.noted("mounted")

    def updated(self):
        self.noted("updated")


class OtherLink(Link):
    pass


def LinkFn(props):
    return h(Link, {"level": props["level"]})


LAST = {"a": lambda: el("a"), "b": lambda: el("b"), "two": lambda: tmpl(el("a"), el("b")), "none": lambda: tmpl(),
        "late": lambda: tmpl(tmpl(), el("b")), "text": lambda: tmpl(text_node("some"))}
LINKS = {"direct": lambda d: d, "fn": lambda d: d, "other": lambda d: d, "tmpl": lambda d: tmpl(d),
         "el": lambda d: el("el", {}, d), "before": lambda d: tmpl(el("c"), d), "after": lambda d: tmpl(d, el("c")),
         "twice": lambda d: tmpl(tmpl(), tmpl(d))}


def chain(E, depth=3, steps=2, links=tuple(LINKS), last=tuple(LAST), replaced=True):
    """element and parent within a chain of components, each of which can change by itself"""
    global W
    W = World()
    W.links, W.noted, W.depth = {}, [], depth
    W.wraps = [E.pick(f"link{i}", list(links)) for i in range(depth - 1)] + [E.pick("last", list(last))]
    reset()
    gui = Collagraph(SpecRenderer(), event_loop_type=EventLoopType.SYNC)
    container = W.container = SpecRenderer.node("container", 0)
    gui.render(h(Link, {"level": 0}), container)

    def check(label):
        d = LAST[W.wraps[-1]]()
        descriptions = [d]
        for wrap in reversed(W.wraps[:-1]):
            d = tmpl(LINKS[wrap](d))
            descriptions.insert(0, d)
        pairs = check_dom(E, container, d, label=label)
        node_of = {id(x): n for n, x in flat(pairs)}
        for level, d in enumerate(descriptions):
            first = first_host(d)
            want = node_of[id(first)] if first is not None else None
            link = W.links[level]
            E.check(link.element is want, f"{label}: element is not the first element of the component")
            E.check(link.parent is (W.links[level - 1] if level else None), f"{label}: wrong parent")
            for hook, instance, element in W.noted:
                if instance is link:
                    E.check(element is want, f"{label}: wrong element within the {hook} hook")
            E.cover("no element" if want is None else "element")
        del W.noted[:]

    def flat(pairs):
        for n, x in pairs:
            yield n, getattr(x, "d", x)

    check("first")
    for step in range(steps - 1):
        level = E.choice(f"level{step}", depth)
        W.wraps[level] = E.pick(f"to{step}", list(LAST if level == depth - 1 else LINKS))
        W.links[level].state["wrap"] = W.wraps[level]
        check(f"step {step}")
    E.cover("end")


def own_content(d, inst_of, visible):
    """What a component renders itself, apart from what nested components render. Only
    includes the nested components that are in `visible`."""
    if d.kind == "comp":
        if d.type is HolderFn:
            return own_content(d.tag[1], inst_of, visible)
        inst = inst_of.get(id(d.tag[1]))
        return (inst.serial,) if inst in visible else ()
    if d.kind == "text":
        return (("text", d.type),)
    kids = sum((own_content(c, inst_of, visible) for c in d.children), ())
    if d.kind == "tmpl":
        return kids
    return ((d.type, tuple(sorted(d.attrs.items())), kids),)


def nested(E, budget=3, steps=2, kinds=("a", "hold", "holdel"), keyed=False, gcs=False):
    """Hooks of all the components within arbitrary trees that are replaced by other
    trees: of each instance that appears, disappears or stays"""
    global W
    W = World()
    cc.W = cc.World()
    reset()
    gui = Collagraph(SpecRenderer(), event_loop_type=EventLoopType.SYNC)
    W.structure = lambda: [n for n in nodes_of.get(W.looking, ()) if not attached(n)]
    container = W.container = SpecRenderer.node("container", 0)
    nodes_of = {}  # instance -> host elements it rendered
    alive = {}  # instance -> description of what it renders
    dead = set()
    for step in range(steps):
        children = gen_holders(E, f"s{step}_", budget, list(kinds), str(step), keyed)
        view = el("root", {}, *children)
        del W.events[:]
        label = f"step {step}"
        if step == 0:
            gui.render(h(HolderRoot, {"first": Cfg(view=view)}), container)
            root = W.instances[0]
        else:
            if gcs:
                maybe_gc(E, f"gc{step}")
            root.state["cfg"] = Cfg(view=view)
        events = list(W.events)
        pairs = check_dom(E, container, view, label=label)
        node_of = {id(x.d): n for n, x in pairs}
        now, nodes, parent_of = {root: view}, {}, {}

        def walk(d, holders):
            if id(d) in node_of:
                for inst in holders:
                    nodes.setdefault(inst, []).append(node_of[id(d)])
            if d.kind == "comp":
                k, body = d.tag
                if d.type is not HolderFn:
                    insts = [i for i in W.instances
                             if i.props.get("kids") is not None and i.props["kids"].kids is k.kids]
                    E.check(len(insts) == 1, f"{label}: there should be one instance")
                    if len(insts) != 1:
                        return
                    now[insts[0]] = body
                    parent_of[insts[0]] = holders[-1]
                    holders = [*holders, insts[0]]
                    E.cover("component")
                walk(body, holders)
            for c in d.children:
                walk(c, holders)

        walk(view, [root])

        for inst in W.instances:
            name = f"{label}: {type(inst).__name__}"
            m, u, b = (count(events, kind, inst) for kind in ("mounted", "updated", "unmount"))
            if inst in now and inst not in alive:
                E.check(m == 1, f"{name}: mounted of a new component isn't called exactly once")
                E.check(u == 0 and b == 0, f"{name}: hooks of a new component are called")
                i = index(events, "mounted", inst)
                if i is not None:
                    E.check(events[i][4], f"{name}: mounted is called before the element is in place")
                p = parent_of.get(inst)
                if p is not None and p not in alive and i is not None:
                    j = index(events, "mounted", p)
                    E.check(j is not None and i < j, f"{name}: mounted of the parent is called first")
                E.cover("new")
            elif inst in now:
                E.check(m == 0 and b == 0, f"{name}: mounted or before_unmount is called while it stays")
                # Nested components that render nothing (at first) don't count
                hidden = {i for i in alive.keys() & now.keys() if not nodes.get(i) or not nodes_of.get(i)}
                changed = own_content(
                    alive[inst], {id(d): i for i, d in alive.items()}, nodes_of.keys() - hidden
                ) != own_content(
                    now[inst], {id(d): i for i, d in now.items()}, nodes.keys() - hidden)
                E.check(u >= 1 or not changed, f"{name}: updated isn't called after a change")
                E.check(u <= 1, f"{name}: updated is called more than once for a change")
                E.cover("kept")
            elif inst in alive:
                E.check(b == 1, f"{name}: before_unmount of a removed component isn't called exactly once")
                E.check(m == 0 and u == 0, f"{name}: hooks of a removed component are called")
                i = index(events, "unmount", inst)
                if i is not None:
                    E.check(not events[i][3], f"{name}: before_unmount is called when its elements are gone")
                E.cover("removed")
            else:
                E.check(m + u + b == 0, f"{name}: hooks are called after before_unmount")
        alive, nodes_of = now, nodes
    E.cover("end")


class Changing(Hooked):
    """Renders what it's told to, with a component next to (or below) what changes"""

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.state["cfg"] = self.props["first"]

    def render(self):
        cfg = self.state["cfg"]
        content = h("in", {**cfg.attrs}, *cfg.content)
        if cfg.wrap == "tmpl":
            content = h("template", {}, content)
        elif cfg.wrap == "el":
            content = h("wrap", {}, content)
        elif cfg.wrap == "deep":
            content = h("template", {}, h("wrap", {}, h("template", {}, content)))
        return h("box", {}, h(Quiet, {"name": "before"}), content, h(Quiet, {"name": "after"}))


class Quiet(Hooked):
    def render(self):
        return h("quiet", {})


class AroundAll(Hooked):
    def render(self):
        return h("all", {}, h(Changing, {"first": self.props["first"]}), h(Quiet, {"name": "sibling"}))


def a_handler():
    pass


def b_handler():
    return 1


WRAPS = ("none", "tmpl", "el", "deep")


def changes(E, steps=2, what=("x", "handler", "text", "order", "extra"), wraps=WRAPS):
    """updated is called exactly once when anything of what a component renders changes,
    and only of that component"""
    global W
    W = World()
    reset()
    gui = Collagraph(SpecRenderer(), event_loop_type=EventLoopType.SYNC)
    container = W.container = SpecRenderer.node("container", 0)
    wrap = E.pick("wrap", list(wraps))
    before = None
    for step in range(steps):
        attrs, wanted = {}, {}
        x = E.opt(f"x{step}") if "x" in what else None
        if x is not None:
            attrs["x"] = x
        handler = E.pick(f"handler{step}", ["none", "a", "b"]) if "handler" in what else "none"
        if handler != "none":
            attrs["on_click"] = {"a": a_handler, "b": b_handler}[handler]
        text = E.text(f"text{step}") if "text" in what else None
        keys = ["1", "2"]
        if "order" in what and E.boolean(f"swap{step}"):
            keys.reverse()
        if "extra" in what and E.boolean(f"extra{step}"):
            keys.append("3")
        content = [h("item", {"key": k}) for k in keys]
        tree = [el("item", key=k) for k in keys]
        if text is not None:
            content.append(h("TEXT_ELEMENT", {"content": text}))
            tree.append(text_node(text))
        cfg = Cfg(attrs=attrs, content=content, wrap=wrap)
        del W.events[:]
        label = f"step {step}"
        if step == 0:
            gui.render(h(AroundAll, {"first": cfg}), container)
            watched = [i for i in W.instances if isinstance(i, Changing)][0]
        else:
            watched.state["cfg"] = cfg
        inner = el("in", {} if x is None else {"x": x}, *tree, on={} if handler == "none" else {"click": attrs["on_click"]})
        if wrap in ("el", "deep"):
            inner = el("wrap", {}, inner)
        check_dom(E, container, el("all", {}, el("box", {}, el("quiet"), inner, el("quiet")), el("quiet")), label=label)
        now = (x, handler, text, keys)
        if before is not None:
            same = f_and(*[f_eq(a, b) for a, b in zip(before, now)])
            u = count(W.events, "updated", watched)
            E.check(len(W.events) == u, f"{label}: hooks are called of other components")
            if u:
                E.check(u == 1, f"{label}: updated is called more than once")
                E.check(f_not(same), f"{label}: updated is called without a change")
                E.cover("updated")
            else:
                E.check(same, f"{label}: updated is not called after a change")
                E.cover("same")
            E.check(all(e[2] for e in W.events), f"{label}: updated is called while the element is not in place")
        before = now
    E.cover("end")


# -- provide / inject ------------------------------------------------------------


class PNode(Component):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        W.instances.append(self)
        cfg = self.props["cfg"]
        cfg.inst = self
        for k, v in cfg.provides:
            self.provide(k, v)
        cfg.injected = self.inject(cfg.ask, cfg.default)

    def render(self):
        cfg = self.props["cfg"]
        if cfg.via == "el":
            return h("p", {}, *[h(PNode, {"cfg": c}) for c in cfg.children])
        if cfg.via == "tmpl":
            return h("template", {}, *[h("template", {}, h(PNode, {"cfg": c})) for c in cfg.children])
        if cfg.via == "direct":
            return h(PNode, {"cfg": cfg.children[-1]})
        if cfg.via == "direct fn":
            return h(PDirect, {"cfg": cfg.children[-1]})
        if cfg.via == "fn":
            return h("p", {}, *[h(PFn, {"cfg": c}) for c in cfg.children])
        if cfg.via == "slot":
            return h("p", {}, h(PSlot, {}, lambda props: [h(PNode, {"cfg": c}) for c in cfg.children]))


class PSlot(Component):
    """In between"""

    def render(self):
        return h("slotted", {}, *self.render_slot("default"))


def PDirect(props):
    return h(PNode, {"cfg": props["cfg"]})


def PFn(props):
    return h("f", {}, h(PNode, {"cfg": props["cfg"]}))


def inject(E, depth=3, provides=1, vias=("el", "tmpl", "fn", "slot"), siblings=True, late=True):
    """inject gives the value of the nearest ancestor that provides the key"""
    global W
    W = World()
    n = [0]

    def gen(level):
        n[0] += 1
        i = n[0]
        items = []
        for p in range(provides):
            if E.boolean(f"p{i}_{p}"):
                items.append((E.val(f"k{i}_{p}"), E.opt(f"v{i}_{p}")))
        cfg = Cfg(provides=items, ask=E.val(f"ask{i}") if level else "nothing", default=E.val(f"d{i}"),
                  via=E.pick(f"via{i}", list(vias)) if level < depth - 1 else "el",
                  children=[], inst=None)
        if level < depth - 1:
            cfg.children.append(gen(level + 1))
            if siblings and level == 0 and not cfg.via.startswith("direct"):
                # A sibling doesn't have any influence
                n[0] += 1
                cfg.children.insert(0, Cfg(
                    provides=[(E.val("k_sibling"), "from sibling")], ask="x", default=None,
                    via="el", children=[], inst=None))
        return cfg

    root = gen(0)
    mount(h(PNode, {"cfg": root}))

    def want(cfg, chain):
        for anc in reversed(chain):
            found = None
            for k, v in anc.provides:
                if k == cfg.ask:
                    found = (v,)
            if found:
                return found[0]
        return cfg.default

    def walk(cfg, chain):
        E.check(cfg.inst is not None, "component is not created")
        w = want(cfg, chain)
        E.check(f_eq(cfg.injected, w), "wrong value is injected")
        # Later on as well
        E.check(f_eq(cfg.inst.inject(cfg.ask, cfg.default), w), "wrong value is injected later on")
        for c in cfg.children:
            walk(c, chain + [cfg])
        E.cover("inject")

    walk(root, [])
    if late:
        # Provide (or override) something later on
        chain = [root]
        while chain[-1].children:
            chain.append(chain[-1].children[-1])
        target = chain[E.choice("late", len(chain))]
        k, v = E.val("late_key"), E.val("late_value")
        target.inst.provide(k, v)
        target.provides.append((k, v))
        bottom = chain[-1]
        E.check(f_eq(bottom.inst.inject(bottom.ask, bottom.default), want(bottom, chain[:-1])),
                "wrong value is injected after a value is provided later on")
        E.check(bottom.inst.inject("unknown") is None, "default is None when it's left out")


# -- events -----------------------------------------------------------------------


class Emitter(Component):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        W.instances.append(self)

    def render(self):
        return h("emitter", {"on_poke": self.poke, "x": self.props.get("x")})

    def poke(self, *args):
        self.emit("poked", *args)


class Fresh:
    def __init__(self, render, base):
        self.render = render
        self.base = base


def emit(E, steps=2, nargs=2, kinds=("none", "plain", "state", "fresh", "once"), events=("poked", "other"), kw=True, emits=1):
    """Events of a component call the handler that is registered for that event on that
    instance, with the arguments of the event"""
    global W
    W = World()
    log = []
    state = reactive({"cfg": None, "hits": 0})

    def make(kind, name, tag):
        if kind == "none":
            return None
        if kind == "plain":
            return lambda *args, **kwargs: log.append((tag, name, args, kwargs))
        if kind in ("fresh", "once"):
            # The handler is made within render, and is replaced (or removed) by
            # another one while it is handling the event

            def render(hits, base):
                if kind == "once" and hits > base:
                    return None

                def handle(*args, **kwargs):
                    log.append((tag, name, args, kwargs))
                    log[-1] += (hits,)
                    state["hits"] = hits + 1

                return handle

            return Fresh(render, state["hits"])

        def handle(*args, **kwargs):
            # Results in rendering while the event is being handled
            log.append((tag, name, args, kwargs))
            state["hits"] += 1

        return handle

    def App(props):
        cfg = props["cfg"]
        hits = props["hits"]
        return h("root", {"hits": hits}, *[
            h(Emitter, {"x": hits, **{f"on_{ev}": fn for ev, fn in current(on, hits).items() if fn}})
            for on in cfg.on])

    def current(on, hits):
        return {ev: fn.render(hits, fn.base) if isinstance(fn, Fresh) else fn for ev, fn in on.items()}

    gui = None
    for step in range(steps):
        ons = []
        for i in range(2):
            on = {}
            for ev in events:
                tag = E.val(f"tag{step}_{i}_{ev}")
                on[ev] = make(E.pick(f"kind{step}_{i}_{ev}", list(kinds)), f"{i}{ev}", tag)
                if on[ev]:
                    on[ev].tag = tag
            ons.append(on)
        state["cfg"] = Cfg(on=ons)
        if gui is None:
            gui, container = mount(h(App, state))
        for nr in range(emits):
            label = f"step {step}.{nr}"
            which = E.choice(f"which{step}.{nr}", 2)
            ev = E.pick(f"ev{step}.{nr}", [*events, "unknown", "poke node"])
            args = tuple(E.opt(f"arg{step}.{nr}_{i}") for i in range(E.choice(f"nargs{step}.{nr}", nargs + 1)))
            kwargs = {E.pick(f"kwname{step}.{nr}", ["kw", "handler", "name", "props"]): E.opt(f"kw{step}.{nr}")} if kw and E.boolean(f"haskw{step}.{nr}") and ev != "poke node" else {}
            del log[:]
            hits = state["hits"]
            if ev == "poke node":
                node = container.children[0].children[which]
                for _, fn in list(node.handlers):
                    fn(*args)
                ev = "poked"
            else:
                W.instances[which].emit(ev, *args, **kwargs)
            fn = ons[which].get(ev)
            if fn is None or current({ev: fn}, hits)[ev] is None:
                E.check(len(log) == 0, f"{label}: handler of another event or instance is called")
            else:
                E.check(len(log) == 1, f"{label}: handler is not called exactly once")
                if len(log) == 1:
                    tag, name, a, k, *when = log[0]
                    E.check(name == f"{which}{ev}", f"{label}: wrong handler is called")
                    E.check(f_eq(tag, fn.tag), f"{label}: an outdated handler is called")
                    E.check(when in ([], [hits]), f"{label}: an outdated handler is called")
                    E.check(f_and(f_eq(a, args), f_eq(k, kwargs)), f"{label}: wrong arguments")
                    E.cover("called")


def listeners(E, ops=4, handlers=2, events=("a", "b"), nargs=2):
    """Handlers that are added and removed by means of the methods of the component:
    several handlers for an event, that return something"""
    global W
    W = World()
    log = []
    gui, container = mount(h(Emitter, {}))
    inst = W.instances[0]

    def make(i):
        r = E.opt(f"result{i}")

        def handle(*args, **kwargs):
            log.append((i, args, kwargs))
            return r

        return handle

    fns = [make(i) for i in range(handlers)]
    current = {ev: [] for ev in events}
    for nr in range(ops):
        ev = E.pick(f"ev{nr}", list(events))
        op = E.choice(f"op{nr}", handlers + 1)
        if op < handlers:
            if op in current[ev]:
                inst.remove_event_handler(ev, fns[op])
                current[ev].remove(op)
            else:
                inst.add_event_handler(ev, fns[op])
                current[ev].append(op)
        args = tuple(E.opt(f"arg{nr}_{i}") for i in range(min(nr, nargs)))
        kwargs = {"kw": E.opt(f"kw{nr}")} if nr % 2 and nargs else {}
        del log[:]
        inst.emit(ev, *args, **kwargs)
        E.check(sorted(entry[0] for entry in log) == sorted(current[ev]),
                f"op {nr}: not each of the handlers of the event is called once")
        for i, a, k in log:
            E.check(f_and(f_eq(a, args), f_eq(k, kwargs)), f"op {nr}: wrong arguments")
    E.cover("end")


# -- slots ---------------------------------------------------------------------------


class SlotHost(Component):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        W.instances.append(self)
        self.state["on"] = True
        self.state["v"] = "v"

    def render(self):
        has = "side" in self._slots if False else None  # noqa: F841
        return h(
            "host", {},
            h("before"),
            *(self.render_slot("default", {"v": self.state["v"]}) if self.state["on"] else []),
            h("middle"),
            *self.render_slot("side", {"v": self.state["v"]}),
        )


def slot_fn(props, slots=()):
    return h("host", {}, h("before"), *render_slot("default", {"v": props["v"]}, slots), h("middle"),
             *render_slot("side", {"v": props["v"]}, slots))


def plain_fn(props):
    """A function component that has no slots"""
    return h("host", {}, h("before"), h("middle"))


def function_slots(E, steps=2, contents=("none", "fn", "partial", "object", "two", "nodes1", "nodes2", "text")):
    """Slots of function components. Nodes as children are not the content of any slot"""
    state = reactive({"cfg": None})

    def item(x):
        return lambda p: to_vnode(el("item", {"x": x, "v": p["v"]}), h)

    def App(props):
        cfg = props["cfg"]
        kids = {
            "none": (), "fn": (cfg.fn,), "partial": (partial(cfg.fn),), "object": (SlotContent(cfg.fn),),
            "two": ({"default": cfg.fn, "side": cfg.fn},), "nodes1": (h("node"),), "nodes2": (h("node"), h("node")),
            "text": ("text",),
        }[cfg.content]
        return h("root", {}, h(cfg.type, {"v": cfg.v}, *kids))

    gui = None
    for step in range(steps):
        x, v = E.val(f"x{step}"), E.val(f"v{step}")
        content = E.pick(f"content{step}", list(contents))
        given = [el("item", {"x": x, "v": v})] if content in ("fn", "partial", "object", "two") else []
        type = slot_fn if given or E.boolean(f"slots{step}") else plain_fn
        state["cfg"] = Cfg(fn=item(x), v=v, content=content, type=type)
        if gui is None:
            gui, container = mount(h(App, state))
        check_dom(E, container, el("root", {}, el(
            "host", {}, el("before"), *given, el("middle"), *(given if content == "two" else []))), label=f"step {step}")
    E.cover("end")


class SlotContent:
    """Content of a slot as a callable object"""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, props):
        return self.fn(props)

    def content(self, props):
        return self.fn(props)


def slots(E, steps=2, kinds=("none", "vnode", "list", "empty", "tmpl", "nested"), side=("none", "vnode"),
          forms=("dict", "callable")):
    """Content of slots is rendered at the place of the slot, in step with the state of
    both the component that defines the content and the component that has the slot"""
    global W
    W = World()

    def content(kind, x, slot):
        """-> what is returned by the slot function, description"""
        item = lambda v: el("item", {"x": x, "v": v, "slot": slot})
        if kind == "vnode":
            return (lambda p: to_vnode(item(p["v"]), h)), lambda v: [item(v)]
        if kind == "list":
            return (lambda p: [to_vnode(item(p["v"]), h), to_vnode(el("second"), h)]), \
                lambda v: [item(v), el("second")]
        if kind == "tuple":
            return (lambda p: (to_vnode(item(p["v"]), h),)), lambda v: [item(v)]
        if kind in ("gen", "gen0"):
            def gen(p):
                if kind == "gen":
                    yield to_vnode(item(p["v"]), h)
                    yield to_vnode(el("second"), h)

            return gen, lambda v: [item(v), el("second")] if kind == "gen" else []
        if kind == "empty":
            return (lambda p: []), lambda v: []
        if kind == "tmpl":
            return (lambda p: to_vnode(tmpl(item(p["v"]), el("third")), h)), \
                lambda v: [item(v), el("third")]
        if kind == "nested":
            # Content that has a slot on its own
            return (lambda p: h(SlotHost, {}, lambda q: to_vnode(item(q["v"]), h))), None
        raise KeyError(kind)

    state = reactive({"cfg": None})

    def App(props):
        cfg = props["cfg"]
        form = cfg.form
        if form == "none":
            host = h(SlotHost, {})
        elif form == "nodes":
            # Nodes aren't the content of any slot
            host = h(SlotHost, {}, *[h("node") for _ in range(cfg.nodes)])
        elif form == "callable":
            host = h(SlotHost, {}, cfg.slots["default"])
        elif form == "partial":
            host = h(SlotHost, {}, partial(cfg.slots["default"]))
        elif form == "object":
            host = h(SlotHost, {}, SlotContent(cfg.slots["default"]))
        elif form == "method":
            host = h(SlotHost, {}, SlotContent(cfg.slots["default"]).content)
        else:
            host = h(SlotHost, {}, dict(cfg.slots))
        return h("root", {}, host)

    gui = None
    inst = None
    model = {"on": True, "v": "v"}
    for step in range(steps):
        x = E.val(f"x{step}")
        sl, desc = {}, {}
        kind = E.pick(f"kind{step}", list(kinds))
        if kind != "none":
            sl["default"], desc["default"] = content(kind, x, "default")
        kind2 = E.pick(f"side{step}", list(side))
        if kind2 != "none":
            sl["side"], desc["side"] = content(kind2, x, "side")
        form = "dict" if sl else "none"
        nodes = 0
        if list(sl) == ["default"]:
            form = E.pick(f"form{step}", list(forms))
        elif not sl and len(forms) > 2:
            nodes = E.choice(f"nodes{step}", 3)
            form = "nodes" if nodes else "none"
        state["cfg"] = Cfg(slots=sl, form=form, nodes=nodes)
        if gui is None:
            gui, container = mount(h(App, state))
            inst = W.instances[0]

        def view():
            def fill(name):
                if name not in desc:
                    return []
                if desc[name] is None:
                    inner = [el("item", {"x": x, "v": "v", "slot": name})]
                    return [el("host", {}, el("before"), *inner, el("middle"))]
                return desc[name](model["v"])

            return el("root", {}, el(
                "host", {}, el("before"), *(fill("default") if model["on"] else []),
                el("middle"), *fill("side")))

        check_dom(E, container, view(), label=f"step {step}")
        E.check(W.instances[0] is inst, "instance got replaced")
        op = E.choice(f"op{step}", 3)
        if op == 0:
            model["v"] = inst.state["v"] = E.val(f"v{step}")
        elif op == 1:
            model["on"] = not model["on"]
            inst.state["on"] = model["on"]
        check_dom(E, container, view(), label=f"step {step}, after a change within the component")
    E.cover("end")


# -- props ----------------------------------------------------------------------------


class Child(Component):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        W.instances.append(self)

    def render(self):
        p = self.props
        return h(
            "child", {"a": p.get("a"), "b": p.get("b"), "conf": p["conf"]["c"] if "conf" in p else None},
            *[h("li", {"v": i}) for i in p.get("items", ())],
            h(GrandChild, {"key": "grand", "items": p.get("items", []), "a": p.get("a")}),
        )


class GrandChild(Component):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        W.instances.append(self)

    def render(self):
        return h("grandchild", {"n": len(self.props["items"]), "a": self.props["a"]})


class PropsApp(Component):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        W.instances.append(self)
        self.state["items"] = ["i"]
        self.state["conf"] = {"c": "c"}
        self.state["given"] = {}

    def render(self):
        st = self.state
        return h("root", {}, h(Child, {"items": st["items"], "conf": st["conf"], **st["given"]}))


PROP_OPS = ["a", "b", "del a", "a none", "append", "pop", "setitem", "replace items", "conf", "replace conf",
            "handler", "del handler"]


def props(E, steps=3, ops=PROP_OPS, write=True):
    """Props follow the state of the parent, and can't be changed by the component"""
    global W
    W = World()
    gui, container = mount(h(PropsApp))
    app = W.instances[0]
    child = next(i for i in W.instances if isinstance(i, Child))
    grand = next(i for i in W.instances if isinstance(i, GrandChild))
    m = {"items": ["i"], "c": "c", "given": {}}

    def view():
        g = m["given"]
        return el("root", {}, el(
            "child", {"a": g.get("a"), "b": g.get("b"), "conf": m["c"]},
            *[el("li", {"v": i}) for i in m["items"]],
            el("grandchild", {"n": len(m["items"]), "a": g.get("a")})))

    check_dom(E, container, view(), label="initial")
    st = app.state
    for step in range(steps):
        op = E.pick(f"op{step}", list(ops))
        v = lambda: E.val(f"v{step}")
        if op in ("a", "b"):
            m["given"][op] = st["given"][op] = v()
        elif op == "del a":
            if m["given"].pop("a", m) is not m:
                st["given"].pop("a")
        elif op == "handler":
            # (handlers are props as well)
            value = v()
            m["on"] = (value,)
            st["given"]["on_tick"] = lambda: value
        elif op == "del handler":
            if m.pop("on", None):
                st["given"].pop("on_tick")
        elif op == "a none":
            # (the library observ ignores the assignment of None to a new key)
            m["given"]["a"] = None
            if "a" not in st["given"]:
                st["given"] = {**st["given"], "a": None}
            st["given"]["a"] = None
        elif op == "append":
            m["items"].append(v())
            st["items"].append(m["items"][-1])
        elif op == "pop":
            if m["items"]:
                m["items"].pop(0)
                st["items"].pop(0)
        elif op == "setitem":
            if m["items"]:
                m["items"][0] = v()
                st["items"][0] = m["items"][0]
        elif op == "replace items":
            # (the library observ ignores the assignment of an equal container)
            m["items"] = [v(), f"other{step}"]
            st["items"] = list(m["items"])
        elif op == "conf":
            m["c"] = st["conf"]["c"] = v()
        elif op == "replace conf":
            m["c"] = v()
            st["conf"] = {"c": m["c"], "id": step}
        label = f"step {step} ({op})"
        check_dom(E, container, view(), label=label)
        # What the component sees is the same as what it rendered
        E.check(f_and(f_eq(child.props.get("a"), m["given"].get("a")),
                      f_eq(child.props.get("b"), m["given"].get("b")),
                      f_eq(child.props["conf"]["c"], m["c"]),
                      f_eq(list(child.props["items"]), m["items"]),
                      f_eq(list(grand.props["items"]), m["items"])),
                f"{label}: the component has other props than it was given")
        E.check(set(child.props) == {"items", "conf", *m["given"], *(["on_tick"] if "on" in m else [])},
                f"{label}: the component has props that it isn't given")
        handler = child.props.get("on_tick")
        E.check((handler is not None) == ("on" in m), f"{label}: the component has other handlers than it was given")
        if handler and "on" in m:
            E.check(f_eq(handler(), m["on"][0]), f"{label}: the component has an outdated handler in its props")
        E.check(len(W.instances) == 3, f"{label}: component got replaced")
        if not write:
            continue
        attempts = [
            lambda: child.props.__setitem__("a", "written"),
            lambda: child.props.pop("items"),
            lambda: child.props.update({"b": "written"}),
            lambda: child.props["items"].append("written"),
            lambda: child.props["conf"].__setitem__("c", "written"),
            lambda: child.props["conf"].clear(),
            lambda: grand.props["items"].clear(),
            lambda: setattr(child, "props", {}),
            lambda: setattr(child, "state", {}),
            lambda: setattr(child, "element", None),
            lambda: setattr(child, "parent", None),
        ]
        attempt = attempts[E.choice(f"attempt{step}", len(attempts))]
        del gui.renderer.log[:]
        try:
            attempt()
        except Exception:
            pass
        else:
            E.check(False, f"{label}: a component can change its props")
        E.check(not gui.renderer.log, f"{label}: attempt to write results in rendering")
        check_dom(E, container, view(), label=label)
    E.cover("end")


# -- removed components -----------------------------------------------------------------


class Mortal(Component):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        W.instances.append(self)
        self.state["n"] = 0
        self.state["list"] = []

    def render(self):
        W.events.append(("render", self))
        root = "template" if W.flags["frag"] else "m"
        kids = [h("i", {"v": v}) for v in self.state["list"]]
        inner = [h(MortalInner, {"owner": self})] if W.flags["inner"] else []
        return h(root, {}, h("k", {"n": self.state.get("n"), "x": self.props["x"], "s": W.store["z"]}), *kids, *inner)

    def updated(self):
        W.events.append(("updated", self))

    def mounted(self):
        W.events.append(("mounted", self))


class MortalInner(Mortal):
    def render(self):
        W.events.append(("render", self))
        return h("mi", {"n": self.state.get("n"), "s": W.store["z"]})


class Other(Component):
    """A component that takes the place of another one"""

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        W.others.append(self)

    def render(self):
        return h("other", {"x": self.props.get("x"), "s": W.store["z"]})

    def mounted(self):
        W.events.append(("mounted", self))


def OtherFn(props):
    return h("other", {"x": props.get("x"), "s": W.store["z"]})


def removed(E, frag=False, inner=True, steps=2, how=("remove", "el", "comp", "fn", "tmpl", "same", "list"),
            keys=(True, False), befores=("none", "state", "tick", "tick tick"), back=False, ops=("n", "list", "new", "del")):
    """Components that have been removed don't have any influence on the host tree"""
    global W
    W = World()
    W.others = []
    W.flags.update(frag=frag, inner=inner)
    keyed = E.pick("keyed", list(keys))
    state = reactive({"mode": "shown", "tick": 0})

    def mortal(x, key):
        def expand():
            kids = [el("k", {"n": ANY, "x": x, "s": W.store["z"]})]
            if x == 1 and current:
                kids += [el("i", {"v": v}) for v in current[0].state["list"]]
            if inner:
                kids.append(el("mi", {"n": ANY, "s": W.store["z"]}))
            return tmpl(*kids) if frag else el("m", {}, *kids)

        return comp(Mortal, {"x": x}, key=key, expand=expand)

    def view(mode, tick):
        key = "m" if keyed else None
        other = lambda: el("other", {"x": tick, "s": W.store["z"]})
        shown = {"shown": lambda: [mortal(1, key)], "remove": lambda: [],
                 "el": lambda: [el("other", {"x": tick}, el("in", {"x": tick}), key=key)],
                 "comp": lambda: [comp(Other, {"x": tick}, key=key, expand=other)],
                 "fn": lambda: [comp(OtherFn, {"x": tick}, key=key, expand=other)],
                 "tmpl": lambda: [tmpl(el("other", {"x": tick}), key=key)],
                 "same": lambda: [mortal(1, "m2")],
                 "list": lambda: [el("o1", {"x": tick}), el("o2")]}[mode]()
        return el("root", {"tick": tick}, mortal(2, "keep" if keyed else None), *shown)

    def App(props):
        return to_vnode(view(props["mode"], props["tick"]), h)

    def check(label):
        check_dom(E, container, view(state["mode"], state["tick"]), label=label)

    current = []
    gui, container = mount(h(App, state))
    first = [i for i in W.instances if i.props.get("x") == 1]
    current = first[:1]
    first += [i for i in W.instances if i.props.get("owner") in first]
    mode = E.pick("how", list(how))
    before = E.pick("before", list(befores))
    if before == "state":
        first[0].state["n"] = E.val("before value")
    else:
        for i in range(len(before.split()) if before != "none" else 0):
            state["tick"] = f"before {i}"
    check("before")
    del W.events[:]
    state["mode"] = mode
    current = [i for i in W.instances if i.props.get("x") == 1 and i not in first] if mode == "same" else []
    E.check(all(e[1] not in first for e in W.events), "a component that is removed is rendered or notified")
    check("removed")
    for step in range(steps):
        maybe_gc(E, f"gc{step}")
        snapshot = cc.tree_of(container)
        del gui.renderer.log[:]
        del W.events[:]
        target = first[E.choice(f"target{step}", len(first))]
        op = E.pick(f"op{step}", list(ops))
        if op == "n":
            target.state["n"] = E.val(f"n{step}")
        elif op == "list":
            target.state["list"].append(E.val(f"n{step}"))
        elif op == "new":
            target.state["new"] = E.val(f"n{step}")
        elif "n" in target.state:
            target.state.pop("n")
        E.check(not gui.renderer.log, "state of a removed component results in rendering")
        E.check(all(e[1] not in first for e in W.events), "a removed component is rendered or notified")
        E.check(all(e[0] != "updated" for e in W.events), "updated is called without a change")
        E.check(cc.tree_of(container) == snapshot, "host tree is changed by a removed component")
        # Still working
        W.store["z"] = E.val(f"z{step}")
        check(f"step {step}: store")
        state["tick"] = step + 10
        check(f"step {step}: tick")
        E.check(all(e[1] not in first for e in W.events), "a removed component is rendered or notified")
    if back:
        # Another instance at the same place
        known = list(W.instances)
        state["mode"] = "shown"
        current = [i for i in W.instances if i.props.get("x") == 1 and i not in known]
        E.check(len(current) == 1, "a removed component is used again")
        if len(current) == 1:
            check("back")
            W.store["z"] = E.val("z back")
            current[0].state["list"].append(E.val("v back"))
            check("back, changed")
        E.check(all(e[1] not in first for e in W.events), "a removed component is rendered or notified")
    E.cover("end")


# -- multiple instances --------------------------------------------------------------------


class Multi(Component):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        W.instances.append(self)
        self.state["n"] = "n"
        self.state["items"] = []

    def render(self):
        W.events.append(self)
        return h("multi", {"n": self.state["n"], "z": W.store["z"]},
                 *[h("i", {"key": i}) for i in self.state["items"]],
                 h(MultiChild, {"n": self.state["n"]}))


class MultiChild(Component):
    def render(self):
        return h("mc", {"n": self.props["n"]})


def multiple(E, guis=2, steps=3):
    """Several trees live side by side"""
    global W
    W = World()
    reset()
    gs, cs, models = [], [], []
    for i in range(guis):
        g = Collagraph(SpecRenderer(), event_loop_type=EventLoopType.SYNC)
        c = Node("container", 0)
        g.render(h(Multi), c)
        gs.append(g)
        cs.append(c)
        models.append({"n": "n", "items": []})
    z = "z"

    def check_all(label):
        for c, m in zip(cs, models):
            check_dom(E, c, el("multi", {"n": m["n"], "z": z},
                               *[el("i", {}, key=i) for i in m["items"]],
                               el("mc", {"n": m["n"]})), label=label)

    check_all("initial")
    for step in range(steps):
        for g in gs:
            del g.renderer.log[:]
        op = E.pick(f"op{step}", ["n", "items", "pop", "z"])
        which = E.choice(f"which{step}", guis)
        inst = W.instances[which]
        if op == "n":
            models[which]["n"] = inst.state["n"] = E.val(f"v{step}")
        elif op == "items":
            inst.state["items"].insert(0, f"i{step}")
            models[which]["items"].insert(0, f"i{step}")
        elif op == "pop":
            if models[which]["items"]:
                models[which]["items"].pop()
                inst.state["items"].pop()
        else:
            z = E.val(f"v{step}")
            W.store["z"] = z
        check_all(f"step {step}")
        if op != "z":
            for i, g in enumerate(gs):
                if i != which:
                    E.check(not g.renderer.log, f"step {step}: another tree is touched")
        E.check(len(W.instances) == guis, "instances got replaced")
    E.cover("end")


class Sib(Component):
    """Part of a list of instances, each with its own props, state, handlers and slots"""

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        W.instances.append(self)
        self.state["n"] = "n"

    def render(self):
        p = self.props
        return h(self.tag, {"x": p.get("x"), "y": p.get("y"), "n": self.state["n"], "m": self.state.get("m"),
                            "keys": tuple(sorted(k for k in p.keys() if k in "xy"))},
                 h(SibLeaf), *self.render_slot("default"))


class SibA(Sib):
    tag = "sa"


class SibB(Sib):
    tag = "sb"


class SibLeaf(Component):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        W.leafs.append(self)

    def render(self):
        return h("leaf", {"of": self.inject("of"), "keys": len(self.props)})


def SibFn(props):
    return h("fn", {"x": props.get("x"), "y": props.get("y"), "keys": len(props)})


def siblings(E, n=2, steps=2, kinds=("A", "B", "fn", "el"), slot=False, how=("none", "empty", "x", "y"), after=True):
    """Instances next to each other don't share anything"""
    global W
    W = World()
    W.leafs = []
    types = [E.pick(f"kind{i}", list(kinds)) for i in range(n)]
    state = reactive({"cfg": None})
    hits = []

    def App(props):
        kids = []
        for kind, given, slotted, i in props["cfg"].kids:
            kids.append(h({"A": SibA, "B": SibB, "fn": SibFn, "el": "e"}[kind], given,
                          *([lambda props, i=i: h("content", {"i": i})] if slotted else [])))
        return h("root", None, *kids)

    gui = None
    models = [{"n": "n"} for _ in types]
    insts = None
    for step in range(steps):
        kids, want = [], []
        for i, kind in enumerate(types):
            form = E.pick(f"props{step}_{i}", list(how))
            given = {"none": lambda: None, "empty": dict,
                     "x": lambda: {"x": E.val(f"x{step}_{i}")},
                     "y": lambda: {"y": E.val(f"y{step}_{i}")}}[form]()
            slotted = slot and kind in "AB" and E.boolean(f"slot{step}_{i}")
            kids.append((kind, given, slotted, i))
            want.append((dict(given or {}), slotted))

        def view():
            out = []
            for i, (kind, (given, slotted)) in enumerate(zip(types, want)):
                if kind == "el":
                    out.append(el("e", given))
                elif kind == "fn":
                    out.append(el("fn", {**given, "keys": len(given)}))
                else:
                    out.append(el("s" + kind.lower(), {**given, **models[i], "keys": tuple(given)},
                                  el("leaf", {"of": models[i].get("of"), "keys": 0}),
                                  *([el("content", {"i": i})] if slotted else [])))
                    out[-1].attrs.pop("of", None)
            return el("root", {}, *out)

        state["cfg"] = Cfg(kids=kids)
        if gui is None:
            gui, container = mount(h(App, state))
            insts = dict(zip([i for i, k in enumerate(types) if k in "AB"], W.instances))
        label = f"step {step}"
        check_dom(E, container, view(), label=label)
        E.check(len(W.instances) == len(insts), f"{label}: instances got replaced")
        for i, inst in insts.items():
            E.check(f_eq(dict(inst.props), want[i][0]), f"{label}: instance has other props than it was given")
        if not insts or not after or step < steps - 1:
            continue
        i = list(insts)[E.choice(f"which{step}", len(insts))]
        op = E.pick(f"op{step}", ["n", "m", "handler", "provide"])
        if op in "nm":
            models[i][op] = insts[i].state[op] = E.val(f"{op}{step}")
        elif op == "handler":
            fn = lambda tag=(i, step): hits.append(tag)
            insts[i].add_event_handler("ev", fn)
            for inst in insts.values():
                inst.emit("ev")
            E.check(hits == [(i, step)], f"{label}: events of other instances are handled")
            insts[i].remove_event_handler("ev", fn)
            del hits[:]
        elif op == "provide":
            insts[i].provide("of", (i, step))
            for leaf in W.leafs:
                mine = leaf.parent is insts[i]
                got = leaf.inject("of")
                E.check((got == (i, step)) == mine, f"{label}: value of another instance is injected")
            insts[i]._provided.clear()
        check_dom(E, container, view(), label=f"{label}, after {op}")
    E.cover("end")


def passed_state(E, steps=3, kinds=("cls", "fn", "el"), start=("empty", "x")):
    """Reactive state that is itself passed as the props, of a component or element"""
    global W
    W = World()
    kind = E.pick("kind", list(kinds))
    model = {}
    if E.pick("start", list(start)) == "x":
        model["x"] = E.val("start x")
    state = reactive(dict(model))
    ctor = {"cls": SibPlain, "fn": lambda p: h("fn", {"x": p.get("x"), "y": p.get("y")}), "el": "e"}[kind]
    deep = E.boolean("deep")

    def App(props):
        return h("root", {}, h(ctor, state))

    gui, container = mount(h(App)) if deep else mount(h(ctor, state))

    def check(label):
        attrs = {k: v for k, v in model.items()}
        d = el({"cls": "plain", "fn": "fn", "el": "e"}[kind], attrs)
        check_dom(E, container, el("root", {}, d) if deep else d, label=label)

    check("initial")
    gone = set()
    for step in range(steps):
        key = E.pick(f"key{step}", ["x", "y"])
        op = E.pick(f"op{step}", ["set", "del"])
        if key in gone:
            # observ (the library) loses track of keys that are deleted and added again
            continue
        if op == "set":
            model[key] = E.val(f"v{step}")
            state[key] = model[key]
        elif key in model:
            del model[key]
            state.pop(key)
            gone.add(key)
        check(f"step {step}")
    E.cover("end")


class SibPlain(Component):
    def render(self):
        return h("plain", {"x": self.props.get("x"), "y": self.props.get("y")})


# -----------------------------------------------------------------------------------------

def sources(E, pool=2, steps=2, n=2, kinds=("state", "plain"), ops=("order", "set", "del", "new"), keyed=(False, True), nested=(False, True)):
    """Dictionaries (either state or not) that are used as the props of components: these
    are never changed by components, whichever of these is given"""
    global W
    W = World()
    keyed = E.pick("keyed", list(keyed))
    nested = E.pick("nested", list(nested))
    kind = E.pick("kind", list(kinds))
    models = [{"x": E.val(f"start{i}")} for i in range(pool)]
    things = [dict(m) for m in models]
    if kind == "state":
        things = [reactive(t) for t in things]
    order = list(range(min(n, pool)))
    state = reactive({"cfg": Cfg(order=order), "tick": 0})

    def row(i):
        props = {**things[i], "key": i} if keyed else things[i]
        return h("box", {}, h(SibPlain, props)) if nested else h(SibPlain, props)

    def App(props):
        return h("root", {"tick": props["tick"]}, *[row(i) for i in props["cfg"].order])

    def view():
        rows = [el("plain", dict(models[i])) for i in order]
        return el("root", {"tick": state["tick"]}, *([el("box", {}, r) for r in rows] if nested else rows))

    gui, container = mount(h(App, state))
    check_dom(E, container, view(), label="initial")
    for step in range(steps):
        op = E.pick(f"op{step}", list(ops))
        if op == "order":
            new = [E.choice(f"item{step}_{j}", pool) for j in range(E.choice(f"n{step}", n + 1))]
            if keyed and len(set(new)) < len(new):
                continue
            order = new
            state["cfg"] = Cfg(order=order)
        else:
            i = E.choice(f"i{step}", pool)
            if op == "set":
                models[i]["x"] = E.val(f"v{step}")
                things[i]["x"] = models[i]["x"]
            elif op == "new":
                if "y" in things[i]:
                    continue
                models[i]["y"] = E.val(f"v{step}")
                things[i]["y"] = models[i]["y"]
            elif op == "del":
                if "x" not in models[i]:
                    continue
                # (the library observ loses track of keys that are deleted and added again)
                del models[i]["x"]
                things[i].pop("x")
                ops = [o for o in ops if o != "set"]
            # Ordinary dictionaries are not watched
            state["tick"] += 1
            if kind == "plain":
                state["cfg"] = Cfg(order=order)
        check_dom(E, container, view(), label=f"step {step} ({op})")
        E.check(f_and(*[f_eq(dict(t), m) for t, m in zip(things, models)]), f"step {step} ({op}): what is used as props got changed")
    E.cover("end")


class Watching(Component):
    """Derives things from its props outside of the render method"""

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        W.instances.append(self)
        self.derived = {
            "items": computed(lambda: dict(self.props.items())),
            "dict": computed(lambda: {k: self.props[k] for k in self.props}),
            "keys": computed(lambda: sorted(self.props)),
            "len": computed(lambda: len(self.props)),
            "get": computed(lambda: [self.props.get(n, "no prop") for n in NAMES_]),
            "in": computed(lambda: [n in self.props for n in NAMES_]),
            "values": computed(lambda: list(self.props.values())),
        }
        self.watcher = watch(lambda: self.props.get("x", "no prop"), lambda new: W.events.append(new), sync=True)

    def render(self):
        return h("a", {})


NAMES_ = ("x", "y")


def derived(E, steps=3, names=NAMES_, sources=("props", "state")):
    """What a component derives from its props by itself (with observ's computed and
    watch) is up to date after each update of the props"""
    global W
    W = World()
    reset()
    source = E.pick("source", list(sources))

    def gen(step):
        attrs = {}
        for n in names:
            # Observ does not notice that None is assigned to a new key of state
            c = E.choice(f"{n}{step}", 3 if source == "props" else 2)
            if c:
                attrs[n] = None if c == 2 else E.val(f"{n}{step}v")
        return attrs

    attrs = gen(0)
    # Either new props each time or state that is changed
    state = reactive({"attrs": attrs}) if source == "props" else reactive({**attrs})

    def App(props):
        return h("root", {}, h(Watching, {**state["attrs"]} if source == "props" else state))

    gui = Collagraph(SpecRenderer(), event_loop_type=EventLoopType.SYNC)
    gui.render(h(App, {}), SpecRenderer.node("container", 0))
    watching = W.instances[0]
    lost = set()

    def check(label):
        d = {k: f.__call__() for k, f in watching.derived.items()}
        E.check(d["keys"] == sorted(attrs) and d["len"] == len(attrs), f"{label}: keys of props")
        E.check(d["in"] == [n in attrs for n in NAMES_], f"{label}: presence of props")
        E.check(f_and(*[f_eq(a, attrs.get(n, "no prop")) for a, n in zip(d["get"], NAMES_) if not lost]), f"{label}: values of props")
        for kind in ("items", "dict"):
            E.check(d[kind].keys() == attrs.keys() and f_and(*[f_eq(d[kind][k], v) for k, v in attrs.items()]), f"{label}: {kind}")
        E.check(len(d["values"]) == len(attrs), f"{label}: values")

    check("first")
    for step in range(1, steps):
        was, attrs = attrs, gen(step)
        # Observ doesn't keep track of keys that are removed and added again
        lost |= set(was) - set(attrs)
        del W.events[:]
        if source == "props":
            state["attrs"] = attrs
        else:
            for n in names:
                if n not in attrs and n in state:
                    state.pop(n)
                elif n in attrs:
                    state[n] = attrs[n]
        check(f"step {step}")
        if "x" in lost:
            continue
        E.check(f_eq(watching.watcher.value, attrs.get("x", "no prop")), f"step {step}: watcher of a prop")
        if W.events:
            E.check(f_not(f_eq(was.get("x", "no prop"), attrs.get("x", "no prop"))), f"step {step}: watcher is called without a change")
            E.check(f_eq(W.events[-1], attrs.get("x", "no prop")), f"step {step}: watcher is called with another value")
            E.cover("watched")
        else:
            E.check(f_eq(was.get("x", "no prop"), attrs.get("x", "no prop")), f"step {step}: watcher is not called")
    E.check(len(W.instances) == 1, "component is created again")
    E.cover("end")


CHECKS = {}


def add(prop, *harnesses, assumptions=()):
    CHECKS[prop] = Check(prop, list(harnesses), module=__name__, stubs=STUBS,
                         assumptions=list(assumptions))


add("C06", Harness(
    "hooks", hooks,
    quick=[dict(n=2, steps=2, what=["rows", "t"]), dict(n=1, steps=3, what=["rows", "mid"]),
           dict(n=2, steps=2, what=["rows"], frag=True), dict(steps=3, what=["t", "mid", "z"])],
    thorough=[dict(n=3, steps=2, what=["rows", "t"]), dict(n=2, steps=3, what=["rows"], frag=True),
              dict(n=2, steps=3, what=["rows", "t"], gcs=True), dict(n=1, steps=3, what=["rows", "t", "mid", "z"]),
              dict(n=1, steps=4, what=["mid", "z"])],
    bounds="n = max number of keyed rows, steps = number of descriptions; keys and values are symbolic",
    covers=["step", "z"]),
    Harness("nested", nested,
            quick=[dict(budget=3, steps=2), dict(budget=2, steps=2, kinds=["a", "t", "hold", "holdel", "holdswitch", "slot", "fn"]),
                   dict(budget=2, steps=2, kinds=["hold", "holdel"], keyed=True)],
            thorough=[dict(budget=4, steps=2, kinds=["a", "hold"]), dict(budget=3, steps=2, kinds=["a", "t", "hold", "holdswitch", "slot"]),
                      dict(budget=3, steps=2, kinds=["a", "hold"], keyed=True), dict(budget=2, steps=3, kinds=["a", "hold", "slot"], gcs=True)],
            bounds="budget = max number of nodes of an arbitrary tree, steps = number of trees",
            covers=["new", "kept", "removed", "end"]),
    Harness("changes", changes,
            quick=[dict()],
            thorough=[dict(steps=3, what=["x", "handler", "text"]), dict(steps=3, what=["order", "extra", "text"]), dict(steps=3, what=["handler", "extra", "order"])],
            bounds="steps = number of versions of what a component renders; attributes and text are symbolic",
            covers=["updated", "same", "end"]))
add("C14", Harness(
    "elements", elements,
    quick=[dict(budget=3, steps=2, kinds=["a", "hold", "holdel"]),
           dict(budget=2, steps=2, kinds=["a", "t", "text", "hold", "holdswitch", "slot", "fn"]),
           dict(budget=4, steps=1, kinds=["a", "t", "hold", "holdel", "slot", "fn"])],
    thorough=[dict(budget=3, steps=2, kinds=["a", "t", "hold", "holdswitch", "slot"]),
              dict(budget=4, steps=2, kinds=["a", "hold"]),
              dict(budget=5, steps=1, kinds=["a", "t", "hold", "holdel", "slot", "fn"]),
              dict(budget=2, steps=3, kinds=["a", "hold", "holdswitch", "slot"], gcs=True)],
    bounds="budget = max number of nodes of an arbitrary tree, steps = number of trees",
    covers=["component", "end"]), Harness(
    "chain", chain, quick=[dict()],
    thorough=[dict(steps=3, depth=2), dict(steps=3, links=["direct", "tmpl", "before", "other"], last=["a", "none", "two"])],
    bounds="depth = number of components within each other; steps = number of times that one of them changes",
    covers=["element", "no element", "end"]))
add("C10", Harness(
    "inject", inject,
    quick=[dict(depth=3, provides=1), dict(depth=4, provides=1, vias=["slot"], siblings=False, late=False),
           dict(depth=3, provides=1, vias=["el", "direct", "direct fn"], siblings=False)],
    thorough=[dict(depth=3, provides=2, vias=["el", "fn"]), dict(depth=4, provides=1),
              dict(depth=5, provides=1, vias=["el"], siblings=False)],
    bounds="depth = number of nested components, provides = max number of values per component; keys and values are symbolic",
    covers=["inject"]))
add("C11", Harness(
    "emit", emit,
    quick=[dict(steps=1, kinds=["none", "plain"]), dict(steps=1, kinds=["none", "plain", "state"], kw=False, nargs=1), dict(steps=2, kinds=["none", "plain", "state"], events=["poked"], kw=False, nargs=0),
           dict(steps=1, kinds=["none", "plain"], events=["somePoke", "other-Poke"], kw=False, nargs=0),
           dict(steps=1, kinds=["none", "plain"], events=["value_changed", "value"], kw=False, nargs=0),
           dict(steps=1, kinds=["none", "plain"], events=["on_poke", "changed_value_on_"], kw=False, nargs=0),
           dict(steps=1, kinds=["none", "plain"], events=["a_b", "b", "a"], kw=False, nargs=0),
           dict(steps=1, emits=2, kinds=["none", "fresh", "once"], kw=False, nargs=0),
           dict(steps=2, emits=2, kinds=["fresh"], events=["poked"], kw=False, nargs=0)],
    thorough=[dict(steps=1, kw=False), dict(steps=1, kinds=["none", "plain", "state"]), dict(steps=2, kinds=["none", "plain", "state"], events=["poked"], kw=False, nargs=1), dict(steps=1, emits=3, kinds=["none", "fresh", "once"], kw=False, nargs=0),
              dict(steps=2, emits=3, kinds=["plain", "fresh", "once"], events=["poked"], kw=False, nargs=0), dict(steps=3, kinds=["none", "plain", "fresh"], events=["poked"], kw=False, nargs=1),
              dict(steps=2, kinds=["none", "plain"], kw=False, nargs=1)],
    bounds="2 instances, 2 events, up to 2 arguments and a keyword argument; steps = number of sets of handlers, emits = number of consecutive events for each of these",
    covers=["called"]), Harness(
    "listeners", listeners, quick=[dict(ops=4, nargs=0), dict(ops=3, handlers=3, nargs=0), dict(ops=2)], thorough=[dict(ops=4), dict(ops=5, handlers=3, nargs=0), dict(ops=6, events=["a"], nargs=0)],
    bounds="ops = number of times that a handler is added or removed (or neither) and an event is emitted; arguments and results are None or symbolic",
    covers=["end"]))
add("C12", Harness(
    "slots", slots,
    quick=[dict(steps=2), dict(steps=3, kinds=["none", "vnode", "list"], side=["none"]),
           dict(steps=2, kinds=["none", "vnode", "gen", "gen0", "tuple"], side=["none"], forms=["dict", "callable", "partial", "object", "method"])],
    thorough=[dict(steps=2, kinds=["none", "vnode", "gen", "gen0", "tuple", "tmpl", "nested"], forms=["dict", "callable", "partial", "object", "method"]), dict(steps=3, kinds=["none", "vnode", "list", "tmpl", "empty"]), dict(steps=3, side=["none"])],
    bounds="steps = number of consecutive sets of slots, a change of state of the component in between",
    covers=["end"]), Harness(
    "function_slots", function_slots, quick=[dict(steps=2)], thorough=[dict(steps=3)],
    bounds="steps = number of consecutive sets of slots of a function component; values are symbolic", covers=["end"]))
add("C13", Harness(
    "props", props,
    quick=[dict(steps=3, write=False), dict(steps=1, write=True), dict(steps=2, ops=["append", "conf", "a"], write=True)],
    thorough=[dict(steps=4, write=False), dict(steps=2, write=True)],
    bounds="steps = number of changes of the state of the parent", covers=["end"]),
    Harness("values", cc.values,
            quick=[dict(steps=3, names=["x"], kind="cls"), dict(steps=2, names=["x", "y"], kind="cls"),
                   dict(steps=2, names=["x", "y"], kind="fn")],
            thorough=[dict(steps=3, names=["x", "y"], kind="cls"), dict(steps=4, names=["x"], kind="cls")],
            bounds=cc.BOUNDS),
    Harness("derived", derived, quick=[dict()], thorough=[dict(steps=4, names=("x",)), dict(steps=4, sources=("props",))],
            bounds="steps = number of versions of the props, with or without each of the names; values are symbolic", covers=["watched", "end"]),
    Harness("sources", sources,
            quick=[dict(), dict(steps=3, kinds=["state"], keyed=[False], nested=[False])],
            thorough=[dict(steps=3), dict(pool=3, n=3, keyed=[False], nested=[False])],
            bounds="pool = number of dictionaries, n = number of components that use one of these as props, steps = number of changes",
            covers=["end"]),
    Harness("passed_state", passed_state, quick=[dict(steps=3)], thorough=[dict(steps=4)],
            bounds="steps = number of changes of the state that is passed as props", covers=["end"]))
add("C26", Harness(
    "removed", removed,
    quick=[dict(steps=1, frag=f, back=True) for f in (False, True)]
    + [dict(steps=2, inner=False, befores=["state"], ops=["n", "list"], how=["remove", "el", "comp", "same"])],
    thorough=[dict(steps=2, frag=f, back=True) for f in (False, True)] + [dict(steps=3, inner=False, ops=["n"], befores=["none", "tick"])],
    bounds="steps = number of changes of the state of removed components, befores = changes before the removal, how = what is there "
    "instead (keyed or not); back: another instance afterwards", covers=["end"]))
add("C28", Harness(
    "multiple", multiple,
    quick=[dict(guis=2, steps=3), dict(guis=3, steps=2)],
    thorough=[dict(guis=2, steps=4), dict(guis=3, steps=3)],
    bounds="guis = number of trees, steps = number of changes", covers=["end"]),
    Harness("siblings", siblings,
            quick=[dict(n=2, steps=2, kinds=["A", "B"], how=["none", "empty", "x"]), dict(n=2, steps=2, after=False), dict(n=2, steps=2, kinds=["A"], slot=True, how=["none", "x"]), dict(n=3, steps=2, kinds=["A", "el"], how=["none", "x"], after=False)],
            thorough=[dict(n=2, steps=2), dict(n=2, steps=3, kinds=["A", "fn", "el"], how=["none", "x"]), dict(n=3, steps=2, how=["none", "x"], after=False),
                      dict(n=2, steps=3, kinds=["A", "B"], slot=True, how=["none", "x"], after=False)],
            bounds="n = number of instances next to each other, steps = number of descriptions", covers=["end"]),
    Harness("interleaved", trees.interleaved,
            quick=[dict(steps=1, modes=["separate"]), dict(steps=1, modes=["nested"], jumps=0), dict(steps=2, jumps=0, ops=["n", "x"], late=False), dict(steps=1, trees=3, jumps=0, modes=["separate"])],
            thorough=[dict(steps=1, modes=["nested"]), dict(), dict(jumps=2), dict(steps=3, ops=["n", "keys"]), dict(steps=2, trees=3)],
            bounds="trees = number of trees, which are synchronous or not; steps = number of changes; gap = number of turns of the event loop in "
            "between; jumps = number of readings of the clock at which the deadline is exceeded", covers=["end", "interleaved", "not finished", "nested in mounted", "nested in updated", "nested in before_unmount"]))

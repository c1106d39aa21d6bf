"""Regenerates properties.jsonl (python tools_properties.py)"""

import json
import os

CG = "collagraph/collagraph.py"
CMP = "collagraph/compare.py"
COMP = "collagraph/component.py"
CGX = "collagraph/cgx/cgx.py"
DICT = "collagraph/renderers/dict_renderer.py"
PYS = "collagraph/renderers/pyside_renderer.py"
GFX = "collagraph/renderers/pygfx_renderer.py"
JS = "collagraph/renderers/dom_renderer.py"
OBJ = "collagraph/renderers/pyside/objects/"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=()):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text),
        why_tests_cant=why,
        anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}))))


prop("C01", "Initial render builds exactly the described tree",
     "Rendering a description for the first time builds exactly the host tree that it describes: every element once, of the right type, at the right place, with the right attributes, text and handlers. Virtual nodes (templates), function components and class components contribute their content and nothing else.",
     "inputs programs", "all descriptions up to a size: any nesting of elements, text, templates and components, any attribute values",
     "tests render a few fixed trees", CG,
     [("perform_unit_of_work / reconcile_children / commit_work", CG), ("create_element", CG)])
prop("C02", "Updates converge to what a fresh render would produce",
     "After any sequence of state changes, the host tree (order, nesting, types, attributes and text of all elements) is exactly what rendering the latest description from scratch would produce, whatever was rendered before. This holds for keyed and unkeyed children, text, virtual nodes (templates) and components that render any number of elements.",
     "inputs histories", "all pairs/sequences of child lists, key assignments, kinds of children and attribute values",
     "tests sample a dozen fixed permutations", f"{CG} {CMP}",
     [("reconcile_children", CG), ("commit_work / commit_deletion / find_anchor", CG), ("compare / create_ops", CMP)])
prop("C03", "Keyed children keep their element and component instance",
     "A child with the same key and type before and after an update keeps its host element and its component instance (including local state), however the list around it is reordered, extended or shortened. A child of which the type differs or whose key is new gets a new element and instance.",
     "inputs histories", "all key assignments and permutations within the bounds",
     "tests look at the resulting order for a few permutations, rarely at identity", f"{CG} {CMP}",
     [("reconcile_children", CG), ("compare", CMP)])
prop("C04", "Exactly the current event handlers are registered",
     "After every update, triggering an event on an element (or component) calls precisely the handlers of the latest description, once each and with the values they captured. No outdated handler stays registered and no handler is lost, whatever kind of callable it is, also when a component passes its props (with handlers) on. Names of events are case insensitive (the last handler prevails), and None is no handler.",
     "inputs histories", "all sequences of kinds of handlers (functions, closures, partials, bound methods, callables) with arbitrary captured values",
     "tests replace one or two fixed handlers", f"{CG} {CMP} {COMP}",
     [("update_dom_or_component", CG), ("equivalent_functions", CMP), ("add/remove_event_handler", COMP)])
prop("C05", "Updates touch nothing that did not change",
     "An update calls the renderer only for what differs between the previous and the next description: attributes with equal values, equal texts, unchanged handlers and children that stay in place are left alone. Elements that are not part of a change are not created, removed or moved.",
     "inputs histories", "all pairs of descriptions and values within the bounds",
     "tests count calls for a few fixed updates", CG, [("update_dom_or_component", CG), ("is_new", CG), ("reconcile_children", CG)])
prop("C06", "Lifecycle hooks are called when and as often as they should",
     "mounted is called once for each component instance, after its element is in place and after that of its children; updated is called after an update that changed what the component renders, child before parent, and not without a change; before_unmount is called once for each removed instance, while its element is still in place. No hooks are called before mounted or after before_unmount.",
     "inputs histories", "all sequences of descriptions and state changes within the bounds",
     "tests have one component with one change", f"{CG} {COMP}", [("commit_root / commit_deletion / mark_updated", CG)])
prop("C07", "No state change is lost, at whatever time it happens",
     "However rendering is cut into slices, and whatever moment in between the slices state changes happen, rendering comes to an end and the host tree then reflects the final state completely.",
     "schedules inputs histories", "all clocks (arbitrary times at every reading) and all moments of arbitrary changes in between slices",
     "tests never change state in between two units of work", CG,
     [("work_loop / state_updated / prepare_next_iteration_of_work", CG)], [("_dirty", "a change happened during the current pass", CG)])
prop("C08", "The host tree is only changed by complete updates",
     "In between the slices of an update the host tree is that of the previous description: the changes of one update become visible all at once. The render callback is called only when rendering has come to an end.",
     "schedules inputs", "all clocks and all moments at which the deadline is exceeded",
     "tests run with the real clock, where nothing is ever sliced", CG, [("work_loop / commit_root", CG)])
prop("C09", "Functions are only equivalent when they do the same",
     "Two functions are considered equivalent (so the old one is kept) only if calling them does the same: same code with equal captured values, defaults, globals and bound objects. A function is always equivalent to itself, and functions made by the same code with equal immutable values are equivalent.",
     "inputs", "all pairs of ways to make a function with arbitrary captured values",
     "tests compare a handful of fixed pairs", CMP, [("equivalent_functions", CMP)])
prop("C10", "inject gives the value of the nearest providing ancestor",
     "A component gets the value that is provided for a key by its nearest ancestor component that provides this key, through any elements, templates, slots and function components in between, and the default otherwise. Values provided by siblings, descendants or itself have no influence.",
     "inputs programs", "all nestings up to a depth, all keys and values (including equal and None values)",
     "tests have one chain with fixed keys", f"{COMP} {CG}", [("provide / inject", COMP), ("update_class_component", CG)])
prop("C11", "Events of a component reach the handlers of that instance",
     "Emitting an event on a component instance calls exactly the handlers that the parent currently registers on this instance for this event, with the arguments of the event. Handlers of other instances or events are not called, also when handling results in rendering.",
     "inputs histories", "all combinations of handlers on two instances, arguments and changes",
     "tests emit one event on one instance", f"{COMP} {CG}", [("emit", COMP), ("update_dom_or_component", CG)])
prop("C12", "Slot content is rendered at the place of the slot",
     "Content that is given to a component for a slot is rendered where the component renders that slot, with the slot props that the component passes, and follows changes of the state of both the component and its parent. Slots without content render nothing.",
     "inputs histories", "all forms of slot content (node, list, template, nothing, nested) and sequences of changes",
     "tests render each form once", f"{CG} {COMP}", [("render_slot", CG), ("create_element", CG), ("update_class_component", CG)])
prop("C13", "Props follow the parent and can't be changed by the component",
     "A component always has exactly the props that the parent passes in the latest description, including handlers, additions, removals, None values and changes deep within containers. A component can't change its props, and an attempt to do so changes nothing.",
     "inputs histories", "all sequences of changes to the state that is passed as props, with arbitrary values",
     "tests set one prop once", f"{CG} {COMP}", [("update_dom_or_component", CG), ("Component.props", COMP)])
prop("C14", "element and parent of a component are always current",
     "After every update, element of a component is the first host element that is rendered by the component, and parent is the nearest component around it. This holds after the root of a component is replaced, moved or rendered by a nested component.",
     "inputs histories programs", "all trees of components up to a size and all pairs of such trees",
     "tests look at element once, for a component with a fixed root", f"{CG} {COMP}", [("find_element / commit_root", CG), ("update_class_component", CG)])
prop("C15", "Of every v-if chain precisely the first true branch is rendered",
     "In a template, of every chain of v-if, v-else-if and v-else precisely the first branch of which the condition is truthy is rendered, at the place of the chain among its siblings, and nothing when there is none. This holds for any number of chains, mixed with any other content, at any nesting, after any change of the conditions.",
     "programs inputs histories", "all templates up to a size and all values of all the conditions",
     "tests have a few templates, each with a few combinations of conditions", CGX, [("convert_node_to_args / create_control_flow_ast", CGX)])
prop("C16", "v-for renders its element for each item with its own values",
     "v-for renders its element once for every item of the iteration, in order, with the loop variables (unpacked as in Python) bound to the values of that item, also within nested elements, conditions, slots and handlers that are called later on. Other elements keep their place and scope.",
     "programs inputs histories", "all forms of loops and loop bodies, all lists of arbitrary items up to a length",
     "tests have a few lists of literals", CGX, [("convert_node_to_args", CGX), ("RewriteName / NameCollector", CGX)])
prop("C17", "The last definition of an attribute in a template prevails",
     "An element in a template gets all attributes that are given as text, by binding and by binding of a dictionary; when an attribute is defined more than once, the last definition in the order of the template prevails, whatever the values and however they change.",
     "programs inputs histories", "all sequences of forms of attributes, any dictionary",
     "tests have a few fixed orders", CGX, [("convert_node_to_args", CGX)])
prop("C18", "Names in templates resolve to props, state, attributes, globals",
     "A name in a template refers to the prop of that name, otherwise to the state, otherwise to the attribute of the component instance and otherwise to the name in the script, for each instance separately and at the moment of rendering; self, state and props refer to these as a whole. Imported names of the script go before all of these, with a warning for each of the others that they hide. Names that are local to lambdas, comprehensions and loops refer to the local value.",
     "inputs histories programs", "all combinations of where a name is defined on several instances, and all changes thereof",
     "tests define each name at one place, for one instance", f"{COMP} {CGX}", [("_lookup", COMP), ("RewriteName", CGX)])
prop("C19", "Text in templates is the literal text with all values, in order",
     "Text with expressions in double braces is rendered as the literal text in which each expression is replaced by the text of its value, in order, and is kept up to date with the values. Expressions can be on several lines and both text and expressions can contain any operators (such as <). Text without expressions is rendered as is.",
     "programs inputs histories", "all combinations of literals and expressions up to a size, all values",
     "tests have a few fixed texts", CGX, [("args_for_text_element", CGX)])
prop("C20", "Handlers of templates are called with the current values",
     "Handlers that are given by @event or v-on:event, as a name, attribute, lambda or any other expression, are called once for each event, and see the current values of everything they refer to.",
     "programs inputs histories", "all forms of handlers and all values they refer to",
     "tests call a handler before anything changes", f"{CGX} {CMP} {CG}", [("convert_node_to_args", CGX), ("equivalent_functions", CMP)])
prop("C21", "Slots in templates: given content or else fallback, in its scope",
     "Content that a template gives to a component (as children, including text, or by template with v-slot or #) is rendered at the slot of that name, in the scope of the template that gives the content; a slot without content renders its own children. This holds for slots at any place, also as root, and after any change.",
     "programs inputs histories", "all forms of slot content for the default and named slots",
     "tests have a few combinations", f"{CGX} {CG}", [("call_render_slot / convert_node_to_args", CGX)])
prop("C26", "Removed components have no influence anymore",
     "Once a component has been removed, changes of its state or of state that it used don't change the host tree, call none of its hooks and don't render it again, while the rest keeps on being updated.",
     "inputs histories schedules", "all ways to remove a component, all changes afterwards, garbage collection at any moment",
     "tests don't touch components after removal", f"{CG}", [("commit_deletion / reconcile_children", CG)])
prop("C27", "Without a change there is nothing to do",
     "Rendering the same description again or changing state that is not used results in no calls to the renderer at all.",
     "inputs programs", "all descriptions up to a size", "tests don't look for superfluous work", CG, [("reconcile_children / update_dom_or_component", CG)])
prop("C28", "Instances and trees live side by side",
     "Several instances of a component, in one or several trees with their own renderers, are independent of each other: a change in one does not touch the others, while shared state is followed by all.",
     "inputs histories", "all sequences of changes on several trees", "tests have one tree", f"{CG} {COMP}", [("Collagraph", CG)])


prop("C22", "PySide: containers hold precisely the described children",
     "With the PySide renderer, containers of all kinds (widgets with any layout, splitters, tabs, menus, menu bars, tool bars, status bars, button boxes, item models and items, views, tree widgets, windows, docks, scroll areas, dialogs) hold precisely the children that are described, in that order or at the place that they ask for. Removed children are gone, the others are kept and stay visible, also when they are moved or when the type of layout changes.",
     "inputs histories", "all lists of children and all ways to get from one list to another, for each kind of container",
     "tests insert one or two fixed children in some of the containers", f"{PYS} {' '.join(OBJ + o + '.py' for o in ('widget', 'layouts', 'menu', 'menubar', 'toolbar', 'splitter', 'tab', 'treewidget', 'treewidgetitem', 'itemmodel', 'standarditem', 'window', 'dockwidget', 'scrollarea'))}",
     [("insert / remove of each container", OBJ), ("create_object", PYS)])
prop("C23", "PySide: signals and events call precisely the current handlers",
     "With the PySide renderer, a signal or event of a widget calls precisely the handlers of the latest description, once each, whatever kind of callable they are. Handlers that were replaced or removed are never called anymore. Connections of the application itself are left alone, and the widget still handles its events itself.",
     "inputs histories", "all sequences of kinds of handlers with arbitrary captured values, for signals and for events",
     "tests connect one or two handlers and rarely disconnect", PYS, [("add_event_listener / remove_event_listener / EventFilter", PYS)])
prop("C24", "DictRenderer: each operation does precisely what is asked",
     "Each operation of the DictRenderer changes precisely the element and place that it is called for, also between elements that look the same. Driven by updates, the resulting dict is that of the latest description.",
     "inputs histories", "all sequences of operations up to a length, all lists of children",
     "tests use elements that differ", f"{DICT} {CG}", [("insert / remove / set_attribute", DICT)])
prop("C25", "DomRenderer: the DOM is that of the latest description",
     "With the DomRenderer, the DOM of the browser (elements, order, attributes, text and listeners) is that of the latest description after each update, and no DOM operation is called in a way that the DOM standard rejects. An attribute that is None is absent.",
     "inputs histories", "all sequences of operations up to a length, all lists of children",
     "there are no tests for this renderer, which needs a browser", f"{JS} {CG}", [("insert / remove / set_attribute", JS)])
prop("C32", "PySide: elements have the type and operations registered for them",
     "With the PySide renderer, the name of an element or layout gives an object of the class with that name, in whatever way (case, dashes, underscores) it is written. Children and attributes are handled by the functions that are registered for the nearest class of the element, in whatever order they are registered, and custom elements, layouts and attributes work like the built-in ones.",
     "inputs programs", "all names and spellings, all sets and orders of registrations for a hierarchy of classes",
     "tests register one or two classes and use a few names", PYS, [("create_object / register_* / name_to_type", PYS)])
prop("C29", "PySide: attributes follow the description, else have the default",
     "With the PySide renderer, each attribute has the value of the latest description (in full: items, buttons and columns that are not in there anymore disappear), also when it takes effect by way of the container (label of a tab, expanded items, area of a dock or tool bar, role of a button) or of the layout. An attribute that is removed gets the default value back that it has for such an element, or ceases to exist when it was a custom attribute. What the user or the application changed in between doesn't alter these defaults, for whatever element.",
     "inputs histories", "all sequences of absent and present attributes with arbitrary values for several kinds of attributes and elements",
     "tests set and remove one attribute with fixed values", f"{PYS} {OBJ}widget.py {OBJ}qobject.py {OBJ}combobox.py {OBJ}dialogbuttonbox.py {OBJ}treewidgetitem.py",
     [("set_attribute / remove_attribute", PYS)], [("DEFAULT_VALUES", "default value for each attribute of a type of elements", PYS)])
prop("C30", "Pygfx: objects, attributes and handlers follow the description",
     "With the PygfxRenderer, the scene has precisely the described objects, in order, with attributes (also nested ones) that have the value of the latest description and otherwise their default, and with precisely the current event handlers. Objects of the same type don't influence each other: the default is that of a new object, also when objects were changed by the application.",
     "inputs histories", "all lists of objects, all sequences of absent and present attributes and handlers",
     "tests call the renderer once for each operation", f"{GFX} {CG}", [("set_attribute / remove_attribute / insert", GFX)],
     [("DEFAULT_ATTR_CACHE", "default value for each attribute of a type of objects", GFX)])
prop("C31", "Modules from cgx files: first on the path, current definitions",
     "Importing a name gives the module of the first directory on the path that has a cgx file for it, with everything that is defined in its script and its component, that work together: the names of the module are the global names of its functions and template. Modules of a package are only looked for within that package, and modules that Python itself can find are not affected. This is independent of the locale of the user. Reloading gives what is in the file by then.",
     "inputs histories", "all combinations of directories and files, all contents of a form of files, all sequences of changes and reloads",
     "tests import a few fixed files and reload one", f"collagraph/cgx/importer.py {CGX}", [("CgxImporter.find_spec / exec_module", "collagraph/cgx/importer.py")])

prop("C33", "Elements of a renderer can be any objects",
     "Updates, events, lifecycle hooks and element work the same whatever objects a renderer uses as elements: also when these are falsy (like containers without children), compare equal to each other or are not hashable.",
     "inputs histories", "all trees and lists with elements of which truthiness and equality are arbitrary",
     "tests use elements that are truthy, mostly dictionaries", f"{CG} {COMP}", [("update_host_component / update_dom_or_component / find_anchor / find_element", CG)])
prop("C34", "Command line renders the component with the given state",
     "Running collagraph from the command line renders the given component file, with the given renderer (each one that is available is offered) and with the given state (as JSON text or JSON file, of any size and whatever the locale) as its props, which can be changed from then on. When the arguments are wrong (component is missing or not a cgx file, state is not JSON, renderer is not available) they are refused and nothing is rendered.",
     "inputs configurations", "all combinations of forms of the arguments, with arbitrary values in the state",
     "there are no tests for the command line", "collagraph/__main__.py", [("run / init_collagraph / json_contents / existing_component_file / available_renderers", "collagraph/__main__.py")])
prop("C35", "Packaging includes cgx files and all that they import",
     "For an application that is packaged with PyInstaller, the hook adds the cgx files of all packages that use collagraph, in folders at any depth, and as hidden imports every module that is imported in one of these files, in any form of import and at any place in the script, whatever the locale.",
     "inputs programs", "all combinations of folders, forms of import and places within the script",
     "there are no tests for the hook", "collagraph/__pyinstaller/hook-collagraph.py collagraph/cgx/cgx.py", [("hook / collect_hidden_imports / ImportsCollector", "collagraph/__pyinstaller/hook-collagraph.py")])
prop("C36", "A cgx file gives its last class the template, with tags from the script",
     "The component of a cgx file is the last class of its script, which has to be a component (otherwise the file is refused), and only that class is rendered by the template. A tag that starts with a capital is the component (class or function) of that name in the script at the time of rendering, wherever it comes from, a tag with dots is the attribute of what is there in the script, and all other tags are elements of precisely that type.",
     "programs inputs", "all combinations of tags, places, ways to define or import a name and kinds of classes, with arbitrary values",
     "tests have a few fixed files", CGX, [("construct_ast / convert_node_to_args / CGXParser", CGX)])
prop("C37", "Code in cgx files is reported at its line of the file",
     "Errors that are raised by the code of a script, or that keep it from being compiled, are reported with the file and the line of that file where the code is, wherever the script is in the file and however it starts, and the code that is generated for the template is not reported as one of the lines of the script.",
     "programs inputs", "all combinations of what is before the script, how it starts and which code fails, for both outcomes of a condition with an arbitrary value",
     "there are no tests for the positions of code", CGX, [("get_script_ast / construct_ast", CGX)])

prop("C38", "Components can be any objects",
     "Rendering, updates, events, slots, lifecycle hooks, inject and removal work the same for components of which the instances are falsy (such as those with a length of 0), compare equal to each other or are not hashable.",
     "inputs histories", "all trees, lists and histories (within the bounds of the other properties) with instances of which truthiness and equality are arbitrary",
     "tests use components that are truthy and only equal to themselves", f"{CG} {COMP}", [("update_class_component / commit_root / commit_deletion / update_dom_or_component / mark_updated", CG), ("Component.__init__", COMP)])

prop("C39", "Rendering again in the same container",
     "When render is called again for the same container, with another description (with or without a callback, after or before the previous call has finished, from within a lifecycle hook, in between of changes of state), the container ends up with exactly what the last description describes; what is the same as in the previous description is kept, components that are gone are unmounted once and have no effect anymore, and later changes of state of what is rendered (including reactive state that is used as the props of the description itself) are shown.",
     "inputs histories schedules", "all sequences of descriptions, calls and changes of state, and all points at which the previous call is interrupted",
     "tests render a second time only in a few fixed cases", CG, [("Collagraph.render / request_idle_work / work_loop / commit_root / perform_unit_of_work / reconcile_children", CG)])


def main():
    import registry

    here = os.path.dirname(os.path.abspath(__file__))
    ids = {p["id"] for p in P}
    known = set(registry.MODULES) | set(registry.NOT_APPLICABLE)
    assert ids == known, ids ^ known
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            f.write(json.dumps(p) + "\n")


if __name__ == "__main__":
    main()

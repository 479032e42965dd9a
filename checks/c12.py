"""C12: namespaces, package maps and templates put every element in its package, after its dependencies, once"""
import posixpath
import autosar.xml as ar_xml
import autosar.xml.element as E
import autosar.xml.enumeration as ar_enum
import autosar.xml.template as ar_template
from arv import xio
from arv.harness import Violation
from arv.model import Gen, SPECS, COLLECTABLE, enum_members

RULE = ("a random history of calls on one workspace (namespaces from calls or from a file, package maps, templates with "
        "random dependency graphs and failing create methods); every create call is logged and the log and the package "
        "tree are compared with the expected ones; distinct = distinct (operation, graph shape, outcome)")
ASSUMPTIONS = ["base references of namespaces are absolute, as in the documentation and examples"]
ASCII_SHARD = True
QUICK_S = 9.0
THOROUGH_S = 120.0
MIN_DISTINCT = 400

ROLES = enum_members("PackageRole")


def role_text(role):
    """Spelling in configuration files: BaseType for BASE_TYPE"""
    return "".join(x.capitalize() for x in role.split("_"))


class Refused(Exception):
    """Raised by failing create methods"""


# ---------------------------------------------------------------------------------------------------- namespaces

def rel_path(rng, g):
    parts = [g.ident() for _ in range(rng.choice([1, 1, 2, 3]) if rng.random() < 0.97 else 12)]
    form = rng.choice(["rel", "rel", "abs", "dot", "up", "slash", "double"])
    text = "/".join(parts)
    return {"rel": text, "abs": "/" + text, "dot": "./" + text, "up": "../" + text, "slash": text + "/",
            "double": "/".join([parts[0], ".", "x", ".."] + parts[1:])}[form], form


def expected_path(base, rel):
    """The package path that `rel` stands for, below `base` unless absolute"""
    parts = [] if rel.startswith("/") else [x for x in base.split("/") if x]
    for part in rel.split("/"):
        if part == "..":
            parts = parts[:-1]
        elif part not in ("", "."):
            parts.append(part)
    return "/" + "/".join(parts)


def gen_namespaces(rng, g):
    """{name: (base_ref or None, {role key: relative path})}, using texts of the configuration file"""
    res = {}
    for _ in range(rng.randint(1, 3)):
        base = rng.choice([None, None, "/", "/" + g.ident(), f"/{g.ident()}/{g.ident()}", f"/{g.ident()}/"])
        mapping = {}
        for role in rng.sample(ROLES, rng.randint(1, len(ROLES))):
            mapping[rng.choice([role, role_text(role), role_text(role)])] = rel_path(rng, g)[0]
        for _ in range(rng.choice([0, 0, 1, 2])):
            name = g.ident()
            mapping["!" + rng.choice([name, name, name, "!" + name, name + "!", "My Types", "a.b", "base_ref", role, role_text(role)
                                      ])] = rel_path(rng, g)[0]
        res[g.ident()] = (base, mapping)
    return res


def toml_text(text):
    return '"' + text.replace("\\", "\\\\").replace('"', '\\"') + '"'


def to_toml(spaces, rng):
    lines = []
    for name, (base, mapping) in spaces.items():
        lines.append(f"[namespace.{toml_text(name) if rng.random() < 0.3 else name}]")
        items = [f"  {toml_text(k)} = {toml_text(v)}" for k, v in mapping.items()]
        if base is not None:
            items.insert(rng.randint(0, len(items)), f"  base_ref = {toml_text(base)}")
        lines += items
    return "\n".join(lines) + "\n"


def make_workspace(rng, spaces):
    how = rng.choice(["calls", "file", "load"])
    if how == "calls":
        ws = ar_xml.Workspace()
        for name, (base, mapping) in spaces.items():
            ws.create_namespace(name, dict(mapping), base)
        return ws, how
    with xio.scratch() as folder:
        path = write_config(folder, to_toml(spaces, rng))
        if how == "file":
            return ar_xml.Workspace(path), how
        ws = ar_xml.Workspace()
        ws.load_config(path)
        return ws, how


def write_config(folder, text):
    path = folder + "/config.toml"
    with open(path, "w", encoding="utf-8") as fp:
        fp.write(text)
    return path


def replace_namespaces(ws, rng, spaces):
    """Creates some namespaces again, with other maps: the latest counts"""
    again = {name: value for name, value in zip(spaces, gen_namespaces(rng, Gen(rng)).values()) if rng.random() < 0.7}
    how = rng.choice(["calls", "load"])
    if how == "calls":
        for name, (base, mapping) in again.items():
            given = dict(mapping)
            ws.create_namespace(name, given, base)
            if given != mapping:
                raise Violation("caller-map", f"create_namespace changed the caller's map to {given!r}")
    else:
        with xio.scratch() as folder:
            ws.load_config(write_config(folder, to_toml(again, rng)))
    return {**spaces, **again}, how


def role_of(key):
    if key.startswith("!"):
        return key[1:]
    for member in ROLES:
        if key in (member, role_text(member)):
            return getattr(ar_enum.PackageRole, member)
    raise AssertionError(key)


def judge_namespaces(ctx, rng):
    g = Gen(rng)
    spaces = gen_namespaces(rng, g)
    ws, how = make_workspace(rng, spaces)
    for _ in range(rng.choice([0, 0, 1, 2])):
        spaces, again = replace_namespaces(ws, rng, spaces)
        how += "-" + again
    for name, (base, mapping) in spaces.items():
        for key, rel in mapping.items():
            want = expected_path("/" + name if base is None else base, rel)
            got = ws.get_package_ref_by_role(name, role_of(key))
            if got != want:
                raise Violation("role", f"{name}/{key}: {got!r} instead of {want!r} (base {base!r}, path {rel!r}, {how})")
            ctx.case(f"role/{how}/{key if not key.startswith('!') else '!'}/{base is None}/{rel[0]}{rel[-1] == '/'}")
        missing = [r for r in ROLES if r not in mapping and role_text(r) not in mapping]
        for wrong in ([getattr(ar_enum.PackageRole, rng.choice(missing))] if missing else []) + ["NoSuchRole", ""]:
            refused(lambda w=wrong, n=name: ws.get_package_ref_by_role(n, w), "role-missing")
        for wrong in (None, 3, object(), ar_enum.ByteOrder.OPAQUE):
            refused(lambda w=wrong, n=name: ws.get_package_ref_by_role(n, w), "role-type")
    refused(lambda: ws.get_package_ref_by_role("NoSuchNamespace", role_of("BaseType")), "namespace-missing")
    refused(lambda: ws.create_namespace(g.ident(), {"NoSuchRole": "A"}), "unknown-role")
    key = rng.choice(["base_reference", "base-ref", "BASE_REF", "base", "ref", "NoSuchRole", "baseType", "base_type", "Base Type",
                      "", " BaseType", "BaseType!"])
    with xio.scratch() as folder:
        path = write_config(folder, f"[namespace.{g.ident()}]\n  {toml_text(key)} = \"/A\"\n")
        refused(lambda: ws.load_config(path), "unknown-key")
    if ws.packages:
        raise Violation("packages-created", "asking for references created packages")


def refused(func, key):
    try:
        got = func()
    except (ValueError, KeyError, TypeError):
        return
    raise Violation(key, f"accepted, gives {got!r}")


# -------------------------------------------------------------------------------------------------- package maps

def paths_of(package, path):
    res = {path: package}
    for elem in package.elements:
        res[f"{path}/{elem.name}"] = elem
    for sub in package.packages:
        res.update(paths_of(sub, f"{path}/{sub.name}"))
    return res


def check_tree(ws, expected, where):
    """expected: {path: element} of elements; the packages are those of the paths"""
    got = {}
    for package in ws.packages:
        got.update(paths_of(package, "/" + package.name))
    elements = {p: e for p, e in got.items() if not isinstance(e, E.Package)}
    if set(elements) != set(expected):
        raise Violation("content-" + where, f"elements {sorted(set(elements) ^ set(expected))} differ")
    for path, elem in expected.items():
        if elements[path] is not elem or ws.find(path) is not elem:
            raise Violation("identity-" + where, f"{path}: another element")
        if hasattr(elem, "ref") and str(elem.ref()) != path:
            raise Violation("ref-" + where, f"{path}: ref() gives {elem.ref()}")


def judge_package_map(ctx, rng):
    g = Gen(rng, density=0.1, depth=1, hostile=0)
    ws = ar_xml.Workspace()
    for func in (lambda: ws.add_element("k", E.Unit("u")), lambda: ws.find_element("k", "u"), lambda: ws.get_package("k")):
        try:
            func()
        except RuntimeError:
            continue
        raise Violation("map-unset", "package map used before it was created")
    pool = [g.ident() for _ in range(4)]
    elements = {}
    packages = set()
    earlier = {}  # keys of the maps before
    for generation in range(rng.choice([1, 1, 2, 3])):
        mapping = {}
        for _ in range(rng.randint(1, 5)):
            path = "/".join(rng.choice(pool) for _ in range(rng.choice([1, 2, 2, 3])))
            mapping[rng.choice([g.ident(), path, "/" + path])] = ("/" if rng.random() < 0.7 else "") + path
        # element names and package names must not collide
        if any("/" + p.strip("/") in elements or any(("/" + p.strip("/")).startswith(x + "/") for x in elements)
               for p in mapping.values()):
            return
        ws.create_package_map(dict(mapping))
        packages |= {"/" + p.strip("/") for p in mapping.values()}
        for key, path in mapping.items():
            path = "/" + path.strip("/")
            if ws.get_package(key) is not ws.find(path) or str(ws.get_package(key).ref()) != path:
                raise Violation("map-package", f"{key}: {ws.get_package(key)!r} is not the package {path}")
        for _ in range(rng.randint(0, 8)):
            key = rng.choice(list(mapping))
            path = "/" + mapping[key].strip("/")
            elem = SPECS[rng.choice(COLLECTABLE)].gen(g).build(None)
            elem.name = rng.choice(["e1", "e2", "e3", elem.name])
            full = f"{path}/{elem.name}"
            if any(p == full or p.startswith(full + "/") for p in packages):
                continue
            if full in elements:
                refused(lambda k=key, e=elem: ws.add_element(k, e), "map-duplicate")
            else:
                if ws.find_element(key, elem.name) is not None:
                    raise Violation("map-find-early", f"{full} is found before it was added")
                ws.add_element(key, elem)
                elements[full] = elem
                if ws.find_element(key, elem.name) is not elem:
                    raise Violation("map-find", f"{full} is not found")
            ctx.count("map_elements")
        for key in [x for x in earlier if x not in mapping] + ["no such key"]:
            for func in (lambda k=key: ws.add_element(k, E.Unit("u")), lambda k=key: ws.get_package(k),
                         lambda k=key: ws.find_element(k, "u")):
                refused(func, "map-key")
        earlier.update(mapping)
        check_tree(ws, elements, "map")
        ctx.case(f"map/{generation}/{len(mapping)}/{len(elements)}")


# ----------------------------------------------------------------------------------------------------- templates

class Logged(ar_template.ElementTemplate):
    """Template whose create calls are logged"""

    def __init__(self, node):
        self.node = node
        super().__init__(node.name, node.namespace, node.role, node.depends_arg(), node.append)

    def create(self, package, workspace, dependencies, **kwargs):
        return self.node.create(package, workspace, dependencies, kwargs)


class LoggedGeneric(ar_template.GenericTemplate):
    def __init__(self, node):
        self.node = node

    def apply(self, workspace, **kwargs):
        node = self.node
        node.case.log.append(("generic", node.index, dict(kwargs)))
        path = node.path
        found = workspace.find(path)
        if found is None:
            found = node.build()
            workspace.make_packages(path.rpartition("/")[0]).append(found)
            node.case.elements[path] = found
        return found


class Node:
    """One template with what is expected of it"""

    def __init__(self, case, index, rng, g):
        self.case = case
        self.index = index
        self.generic = rng.random() < 0.12
        while True:
            self.name = f"{g.ident()}_{index}" if rng.random() < 0.8 else g.ident()
            self.namespace = rng.choice(list(case.spaces))
            base, mapping = case.spaces[self.namespace]
            key = rng.choice(list(mapping))
            self.role = role_of(key)
            self.package_path = expected_path("/" + self.namespace if base is None else base, mapping[key])
            self.path = f"{self.package_path}/{self.name}"
            if self.package_path != "/" and case.free(self.path, self.package_path):
                break
        self.class_name = rng.choice(case.classes)
        self.inst_rng = g
        picks = [n for n in case.nodes if n.can_be_dependency]
        count = rng.choice([0, 0, 1, 1, 2, 3, rng.choice([3, 9])])
        self.depends = rng.sample(picks, min(count, len(picks))) if not self.generic else []
        self.none_depends = not self.depends and rng.random() < 0.6
        if self.depends and rng.random() < 0.1:
            self.depends.append(rng.choice(self.depends))   # the same dependency twice
        self.append = rng.random() < 0.85 or self.generic
        self.self_append = not self.append and rng.random() < 0.7
        self.fails = 0
        self.can_be_dependency = self.append or self.self_append
        self.template = LoggedGeneric(self) if self.generic else None
        if self.template is None:
            self.template = Logged(self)

    def depends_arg(self):
        return None if self.none_depends else [n.template for n in self.depends]

    def build(self):
        elem = SPECS[self.class_name].gen(self.inst_rng).build(None)
        elem.name = self.name
        return elem

    def create(self, package, workspace, dependencies, kwargs):
        case = self.case
        case.log.append(("create", self.index, dict(kwargs)))
        if workspace is not case.ws:
            raise Violation("template-workspace", "create gets another workspace")
        if not isinstance(package, E.Package) or package is not workspace.find(self.package_path):
            raise Violation("template-package", f"{self.path}: create gets package {package!r}")
        if package.find(self.name) is not None:
            raise Violation("template-exists", f"{self.path}: created although it exists")
        if self.none_depends:
            if dependencies:
                raise Violation("template-dependencies", f"{self.path}: {dependencies!r} without dependencies")
        else:
            want = {n.path: case.elements.get(n.path) for n in self.depends}
            if set(dependencies) != set(want):
                raise Violation("template-dependencies", f"{self.path}: {sorted(dependencies)} instead of {sorted(want)}")
            for path, elem in want.items():
                if elem is None or dependencies[path] is not elem or workspace.find(path) is not elem:
                    raise Violation("template-dependencies", f"{self.path}: {path} is not the element in the workspace")
        if self.fails:
            self.fails -= 1
            raise Refused(self.path)
        elem = self.build()
        if self.append or self.self_append:
            case.elements[self.path] = elem
            if self.self_append:
                package.append(elem)
        return elem


class Case:
    def __init__(self, rng, g):
        self.rng = rng
        self.spaces = gen_namespaces(rng, g)
        self.ws, self.how = make_workspace(rng, self.spaces)
        self.log = []
        self.elements = {}
        self.nodes = []
        self.paths = set()
        self.package_paths = set()
        # All packages that can come into being, so that no element gets the name of a package
        for name, (base, mapping) in self.spaces.items():
            for rel in mapping.values():
                self.package_paths.add(expected_path("/" + name if base is None else base, rel))
        self.classes = [c for c in COLLECTABLE if hasattr(getattr(E, c), "ref")]
        for index in range(rng.choice([1, 2, 3, 5, 8, rng.choice([8, 16])])):
            self.nodes.append(Node(self, index, rng, g))
            self.paths.add(self.nodes[-1].path)

    def free(self, path, _package):
        if path in self.paths:
            return False
        return not any(p == path or p.startswith(path + "/") for p in self.package_paths)

    def closure(self, node, present):
        """create/generic calls expected in order when `node` is applied; stops at the first failing create"""
        calls = []
        for dep in node.depends:
            more, ok = self.closure(dep, present)
            calls += more
            if not ok:
                return calls, False
        if node.generic:
            calls.append(node.index)
            present.add(node.path)
        elif node.path not in present:
            calls.append(node.index)
            if node.fails:
                return calls, False
            if node.append or node.self_append:
                present.add(node.path)
        return calls, True


def judge_templates(ctx, rng, reload=None):
    g = Gen(rng, density=0.1, depth=1, hostile=0)
    case = Case(rng, g)
    ws = case.ws
    # elements made by other means before
    for node in case.nodes:
        if rng.random() < 0.12:
            elem = node.build()
            ws.make_packages(node.package_path).append(elem)
            case.elements[node.path] = elem
    for node in case.nodes:
        if not node.generic and node.template.ref(ws) != node.path:
            raise Violation("template-ref", f"{node.template.ref(ws)} instead of {node.path}")
    shapes = []
    for _ in range(rng.randint(1, 8)):
        if reload is not None and rng.random() < 0.4:
            reload(case)
            ws = case.ws
            check_tree(ws, case.elements, "reload")
        node = rng.choice(case.nodes)
        for other in case.nodes:
            if rng.random() < 0.05:
                other.fails = 1
        kwargs = {g.ident().lower() + "_x": rng.random() for _ in range(rng.choice([0, 0, 1, 3]))}
        before = set(case.elements)
        present = set(before)
        calls, succeeds = case.closure(node, present)
        case.log.clear()
        try:
            got = ws.apply(node.template, **kwargs)
        except Refused:
            if succeeds:
                raise
            got = None
            ctx.count("failing_creates")
        else:
            if not succeeds:
                raise Violation("template-error-lost", f"{node.path}: the error of a create method is lost")
        if [x[1] for x in case.log] != calls:
            raise Violation("template-calls", f"{node.path}: create calls {[x[1] for x in case.log]} instead of {calls}")
        for i, (_, index, args) in enumerate(case.log):
            last = i == len(case.log) - 1 and index == node.index
            if args != (kwargs if last else {}):
                raise Violation("template-arguments", f"{node.path}: {args!r} instead of {kwargs!r}")
        if set(case.elements) != present:
            raise Violation("template-present", f"{sorted(set(case.elements) ^ present)}")
        if succeeds and node.path in case.elements and got is not case.elements[node.path]:
            raise Violation("template-result", f"{node.path}: apply returns {got!r}")
        if succeeds and got is None:
            raise Violation("template-result", f"{node.path}: apply returns None")
        check_tree(ws, case.elements, "template")
        ctx.count("applied")
        ctx.count("create_calls", len(calls))
        shapes.append(f"{len(calls)}{'' if succeeds else 'x'}{'g' if node.generic else ''}{'a' if node.append else ''}")
    ctx.case(f"templates/{case.how}/{'.'.join(shapes)}/{[len(n.depends) for n in case.nodes]}")


class Bad(ar_template.ElementTemplate):
    def __init__(self, result, *args):
        super().__init__(*args)
        self.result = result

    def create(self, package, workspace, dependencies, **kwargs):
        return self.result


class BadGeneric(ar_template.GenericTemplate):
    def __init__(self, result):
        self.result = result

    def apply(self, workspace, **kwargs):
        return self.result


def judge_bad_templates(ctx, rng):
    """Wrong results are refused and leave nothing behind"""
    g = Gen(rng, density=0.1, depth=1, hostile=0)
    case = Case(rng, g)
    ws = case.ws
    node = rng.choice([n for n in case.nodes])
    if node.generic:
        return
    results = [None, 3, "text", object(), E.Unit, E.CompuScale(), E.Package(node.name)]
    what = rng.choice(["result", "dependency", "not-template", "namespace", "role"])
    index = rng.randrange(len(results))
    try:
        if what == "result":
            ws.apply(Bad(results[index], node.name, node.namespace, node.role))
        elif what == "dependency":
            ws.apply(Bad(E.Unit(node.name), node.name, node.namespace, node.role, [BadGeneric(results[index])]))
        elif what == "not-template":
            ws.apply(rng.choice([results[index], Bad, ar_template.TemplateBase]))
        elif what == "namespace":
            ws.apply(Bad(E.Unit(node.name), node.name, "NoSuchNamespace", node.role))
        else:
            ws.apply(Bad(E.Unit(node.name), node.name, node.namespace, "NoSuchRole"))
    except (TypeError, ValueError, KeyError, NotImplementedError):
        check_tree(ws, {}, "bad-template")
        ctx.case(f"bad/{what}/{index}")
        return
    raise Violation("template-bad-" + what, f"accepted {results[index]!r}")


def run(ctx):
    for _, rng in ctx.loop("namespaces", 150, 0.2):
        ctx.guard(judge_namespaces, ctx, rng)
    for _, rng in ctx.loop("map", 150, 0.2):
        ctx.guard(judge_package_map, ctx, rng)
    for _, rng in ctx.loop("templates", 300, 0.5):
        ctx.guard(judge_templates, ctx, rng)
    for _, rng in ctx.loop("bad", 50, 0.1):
        ctx.guard(judge_bad_templates, ctx, rng)

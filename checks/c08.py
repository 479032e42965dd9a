"""C08: paths and objects of a package tree correspond one to one"""
import re
import autosar.xml as ar_xml
import autosar.xml.element as E
from arv import xio
from arv.harness import Violation
from arv.model import Gen, SPECS, COLLECTABLE, gen_package
from arv.xmltree import wrap_file

RULE = ("a random history of additions (packages, elements, members of elements; attached or detached; duplicates and "
        "conflicts included) is mirrored in a model of the tree; after each step the path of every object, the object at "
        "every path, and near-miss paths are compared; distinct = distinct (operation, outcome, depth, sizes) and "
        "(kind of object looked up, kind of path)")
ASSUMPTIONS = ["names are not changed after an object was added, and no object is added to two owners"]
ASCII_SHARD = True
QUICK_S = 9.0
THOROUGH_S = 240.0
MIN_DISTINCT = 150

NAMES = ["A", "B", "AB", "A_", "a", "A_0", "A_1", "Pkg", "DataTypes", "x", "A1", "Elem", "BA", "None", "ref"]
LEAF = ["Unit", "CompuMethod", "SwBaseType", "DataConstraint", "DataTypeMappingSet"]


class Ent:
    """Model of one object: kind is 'root', 'package', 'element' or 'part'"""

    def __init__(self, kind, name, obj, findable=True):
        self.kind = kind
        self.name = name
        self.obj = obj
        self.findable = findable
        self.owner = None
        self.children = []

    def path(self):
        if self.kind == "root":
            return ""
        above = None if self.owner is None else self.owner.path()
        return None if above is None else f"{above}/{self.name}"

    def root(self):
        ent = self
        while ent.owner is not None:
            ent = ent.owner
        return ent

    def add(self, ent):
        ent.owner = self
        self.children.append(ent)
        return ent

    def child(self, name):
        for ent in self.children:
            if ent.name == name:
                return ent
        return None

    def walk(self):
        yield self
        for ent in self.children:
            yield from ent.walk()

    def of(self, kind):
        return [c for c in self.children if c.kind == kind]

    def depth(self):
        return 0 if self.owner is None else 1 + self.owner.depth()


def lookup(root, path):
    """Object at a path relative to root, per the model. None if there is none."""
    ent = root
    for part in path.split("/"):
        ent = ent.child(part)
        if ent is None:
            return None
    return ent


def check_node(ent):
    """Path, parents and order of one object of the model"""
    obj = ent.obj
    if ent.kind == "root":
        if [id(p) for p in obj.packages] != [id(c.obj) for c in ent.of("package")]:
            raise Violation("root-packages", f"packages {[p.name for p in obj.packages]}, "
                            f"expected {[c.name for c in ent.of('package')]}")
        return
    if obj.name != ent.name:
        raise Violation("name-changed", f"{ent.path()} is called {obj.name}")
    ref = obj.ref() if hasattr(obj, "ref") else None
    want = ent.path()
    if hasattr(obj, "ref"):
        if want is None:
            if ref is not None:
                raise Violation("ref-of-detached", f"{type(obj).__name__} {ent.name} outside of any collection has "
                                f"reference {ref}")
        elif ref is None or str(ref) != want:
            raise Violation(f"ref-{ent.kind}-{type(obj).__name__}", f"reference {ref}, expected {want}")
    root = ent.root()
    got = obj.root_collection()
    if got is not (root.obj if root.kind == "root" else None):
        raise Violation(f"root-collection-{ent.kind}", f"{want}: root_collection() is {got!r}")
    if ent.kind == "package":
        if [id(p) for p in obj.packages] != [id(c.obj) for c in ent.of("package")]:
            raise Violation("sub-packages", f"{want}: packages {[p.name for p in obj.packages]}, expected "
                            f"{[c.name for c in ent.of('package')]}")
        if [id(p) for p in obj.elements] != [id(c.obj) for c in ent.of("element")]:
            raise Violation("elements", f"{want}: elements {[p.name for p in obj.elements]}, expected "
                            f"{[c.name for c in ent.of('element')]}")


def check_find(holder, path, ent, what, ref_obj=None):
    """`holder.find(path)` gives the object of ent (None: nothing); parts without lookup support may give None"""
    try:
        got = holder.find(path if ref_obj is None else ref_obj)
    except Exception as ex:
        raise Violation(f"find-error-{what}-{type(ex).__name__}", f"find({path!r}) failed: {ex}") from ex
    if ent is None:
        if got is not None:
            raise Violation(f"find-phantom-{what}", f"find({path!r}) returned {type(got).__name__} "
                            f"{getattr(got, 'name', got)!r} although nothing has that path")
    elif got is None and not ent.findable:
        return
    elif got is not ent.obj:
        raise Violation(f"find-{what}-{type(ent.obj).__name__}", f"find({path!r}) returned {got!r} "
                        f"({getattr(got, 'name', None)})")


def near_misses(rng, path):
    """Paths close to an existing one"""
    parts = path.split("/")
    res = [path + "/" + rng.choice(NAMES), path + rng.choice(["_", "0", "x"]), path[:-1] if len(parts[-1]) > 1 else path + "Q",
           path.swapcase(), "/".join(parts[1:]) or "Q", "/".join(parts[:-1] + [rng.choice(NAMES)]),
           "/".join(parts + [parts[-1]]), "/".join(parts[:1] + parts), path + "/" + rng.choice(NAMES) + "/" + rng.choice(NAMES)]
    if len(parts) > 2:
        res.append("/".join(parts[:-2] + parts[-1:]))
    if len(parts) > 1:
        res.append("/".join(reversed(parts)))
        res.append("_".join(parts))
    return res


def audit(ctx, tops, rng, fully):
    """Compares the model with what the library says"""
    for top in tops:
        for ent in top.walk():
            check_node(ent)
            ctx.count("paths_compared")
    roots = [t for t in tops if t.kind == "root"]
    for root in roots:
        ents = [e for e in root.walk() if e.kind != "root"]
        if not fully and len(ents) > 12:
            ents = rng.sample(ents, 12)
        for ent in ents:
            path = ent.path()
            check_find(root.obj, path, ent, ent.kind)
            check_find(root.obj, path[1:], ent, ent.kind + "-noslash")
            ref = ent.obj.ref() if hasattr(ent.obj, "ref") else None
            if ref is not None:
                check_find(root.obj, path, ent, ent.kind + "-by-ref", ref)
            # relative to every package on the way
            holder = ent.owner
            rel = ent.name
            while holder.kind != "root":
                if holder.kind == "package":
                    check_find(holder.obj, rel, ent, ent.kind + "-relative")
                rel = f"{holder.name}/{rel}"
                holder = holder.owner
            ctx.case(f"lookup/{ent.kind}/{type(ent.obj).__name__}/{ent.depth()}")
            for miss in near_misses(rng, path[1:]):
                other = lookup(root, miss)
                check_find(root.obj, miss, other, "miss" if other is None else other.kind)
                check_find(root.obj, "/" + miss, other, "miss" if other is None else other.kind)
                ctx.count("near_misses")


def nested(rng, ent, levels):
    """Adds elements of elements, down to the given number of levels"""
    for name in rng.sample(NAMES, rng.randint(0 if levels < 4 else 1, 2)):
        obj = E.ImplementationDataTypeElement(name)
        child = ent.add(Ent("part", name, obj))
        early = rng.random() < 0.5
        if early and levels > 1:
            nested(rng, child, levels - 1)
        ent.obj.append(obj)
        if not early and levels > 1:
            nested(rng, child, levels - 1)


def deep(ctx, rng):
    """Packages in packages, many levels"""
    g = Gen(rng)
    root = Ent("root", "", rng.choice([ar_xml.Workspace, ar_xml.Document])())
    levels = rng.choice([5, 9, 17, 33, 65, 100])
    names = [rng.choice(NAMES) for _ in range(levels)]
    how = rng.choice(["make", "down", "up"])
    ents = []
    holder = root
    if how == "make":
        slash = rng.choice(["", "/"])
        last = root.obj.make_packages(slash + "/".join(names))
        obj = root.obj
        for name in names:
            if [p.name for p in obj.packages] != [name]:
                raise Violation("make_packages-missing", f"{levels} levels: {[p.name for p in obj.packages]} instead of {name}")
            obj = obj.packages[0]
            holder = holder.add(Ent("package", name, obj))
            ents.append(holder)
        if last is not obj:
            raise Violation("make_packages-result", f"{levels} levels: not the last package")
    elif how == "down":
        for name in names:
            holder = holder.add(Ent("package", name, holder.obj.create_package(name)))
            ents.append(holder)
    else:
        objs = [E.Package(name) for name in names]
        for outer, inner in reversed(list(zip(objs, objs[1:]))):
            outer.append(inner)
        root.obj.append(objs[0])
        for name, obj in zip(names, objs):
            holder = holder.add(Ent("package", name, obj))
            ents.append(holder)
    for ent in {id(e): e for e in [ents[-1], rng.choice(ents), rng.choice(ents)]}.values():
        name = rng.choice([n for n in NAMES if ent.child(n) is None])
        obj = getattr(E, rng.choice(ELEMENTS))(name)
        ent.obj.append(obj)
        part = ent.add(Ent("element", name, obj))
        parts_of(g, part)
    audit(ctx, [root], rng, False)
    ctx.case(f"deep/{levels}/{how}")


def parts_of(g, ent):
    """Adds members with names of their own to some kinds of elements, through the public interface"""
    rng = g.rng
    obj = ent.obj
    names = rng.sample(NAMES, rng.randint(0, 4))

    def part(name, sub, findable=True, owner=None):
        return (owner or ent).add(Ent("part", name, sub, findable))
    if isinstance(obj, E.ImplementationDataType):
        for name in names:
            sub = E.ImplementationDataTypeElement(name)
            obj.append(sub)
            child = part(name, sub)
            nested(rng, child, rng.choice([1, 1, 2, 3, 8]))
    elif isinstance(obj, E.ModeDeclarationGroup):
        for name in names:
            if rng.random() < 0.7:
                part(name, obj.create_mode_declaration(name))
            else:
                trans = E.ModeTransition(name)
                obj.append_mode_transition(trans)
                part(name, trans)
    elif isinstance(obj, E.ApplicationRecordDataType):
        for name in names:
            sub = E.ApplicationRecordElement(name)
            obj.append(sub)
            part(name, sub, False)
    elif isinstance(obj, E.SenderReceiverInterface):
        for name in names:
            part(name, obj.create_data_element(name), False)
    elif isinstance(obj, E.NvDataInterface):
        for name in names:
            part(name, obj.create_data_element(name), False)
    elif isinstance(obj, E.ParameterInterface):
        for name in names:
            part(name, obj.create_parameter(name), False)
    elif isinstance(obj, E.ModeSwitchInterface):
        for name in names[:1]:
            part(name, obj.create_mode_group(name), False)
    elif isinstance(obj, E.ClientServerInterface):
        for name in names:
            if rng.random() < 0.6:
                oper = obj.create_operation(name)
                child = part(name, oper, False)
                for inner in rng.sample(NAMES, rng.randint(0, 3)):
                    part(inner, oper.create_argument(inner), False, child)
            else:
                part(name, obj.create_possible_error(name), False)
    elif isinstance(obj, (E.ApplicationSoftwareComponentType, E.CompositionSwComponentType)):
        for name in names:
            kind = rng.randrange(4)
            if kind < 3:
                sub = [E.ProvidePortPrototype, E.RequirePortPrototype, E.PRPortPrototype][kind](name)
                obj.append_port(sub)
            elif isinstance(obj, E.CompositionSwComponentType):
                if rng.random() < 0.5:
                    sub = E.SwComponentPrototype(name)
                    obj.append_component(sub)
                else:
                    sub = rng.choice([E.AssemblySwConnector, E.DelegationSwConnector, E.PassThroughSwConnector])(name)
                    obj.append_connector(sub)
            else:
                sub = E.PRPortPrototype(name)
                obj.append_port(sub)
            part(name, sub)
        if isinstance(obj, E.ApplicationSoftwareComponentType) and rng.random() < 0.5:
            name = next(n for n in NAMES if n not in names)
            behavior = obj.create_internal_behavior(name)
            child = part(name, behavior, False)
            for inner in rng.sample(NAMES, rng.randint(0, 3)):
                part(inner, behavior.create_runnable(inner), False, child)


ELEMENTS = ["ImplementationDataType", "ModeDeclarationGroup", "ApplicationRecordDataType", "SenderReceiverInterface",
            "NvDataInterface", "ParameterInterface", "ModeSwitchInterface", "ClientServerInterface",
            "ApplicationSoftwareComponentType", "CompositionSwComponentType"] + LEAF


def refused(func, *args):
    """The call must raise"""
    try:
        func(*args)
    except Exception:
        return
    raise Violation(f"conflict-accepted-{func.__name__}", f"{func.__name__}({args!r}) was accepted")


def history(ctx, rng):
    g = Gen(rng)
    root = Ent("root", "", rng.choice([ar_xml.Workspace, ar_xml.Document])())
    tops = [root]
    strays = []
    trail = []
    for step in range(rng.randint(4, 30)):
        attached = [e for t in tops for e in t.walk()]
        holders = [e for e in attached if e.kind in ("root", "package")]
        packages = [e for e in holders if e.kind == "package"]
        holder = rng.choice(holders)
        name = rng.choice(NAMES)
        clash = holder.child(name)
        op = rng.choice(["create_package", "append_package", "make_packages", "append_element", "append_element",
                         "append_element", "adopt", "detached", "attach", "bad"])
        outcome = "ok"
        if op == "create_package":
            if clash is None:
                settings = {k: v for k, v in (("category", "CAT"), ("uuid", f"u{step}")) if rng.random() < 0.2}
                obj = holder.obj.create_package(name, **settings)
                if (not isinstance(obj, E.Package) or obj.name != name
                        or any(getattr(obj, k) != settings.get(k) for k in ("category", "uuid"))):
                    raise Violation("create_package-result", f"create_package({name!r}) returned {obj!r}")
                holder.add(Ent("package", name, obj))
            else:
                refused(holder.obj.create_package, name)
                outcome = "refused"
        elif op == "append_package":
            obj = E.Package(name)
            if clash is None:
                holder.obj.append(obj)
                holder.add(Ent("package", name, obj))
            else:
                refused(holder.obj.append, obj)
                outcome = "refused"
                if obj.ref() is not None:
                    raise Violation("refused-but-attached", f"refused package has reference {obj.ref()}")
        elif op == "make_packages":
            refs, expect = [], []
            for _ in range(rng.choice([1, 1, 1, 2, 3]) if holder.kind == "root" else 1):
                refs.append("/".join(rng.choice(NAMES[:7]) for _ in range(rng.randint(1, 4))))
            blocked = False
            for ref in refs:
                ent = holder
                for part in ref.split("/"):
                    nxt = ent.child(part)
                    if nxt is not None and nxt.kind != "package":
                        blocked = True
                        break
                    ent = nxt if nxt is not None else Ent("package", part, None)
                    if nxt is None:
                        break
            if blocked:
                if len(refs) == 1:
                    refused(holder.obj.make_packages, refs[0])
                    outcome = "refused"
                else:
                    outcome = "skipped"
            else:
                slash = "/" if holder.kind == "root" and rng.random() < 0.5 else ""
                res = holder.obj.make_packages(*[slash + r for r in refs])
                res = [res] if len(refs) == 1 else res
                outcome = f"{len(refs)}"
                if not isinstance(res, list) or len(res) != len(refs):
                    raise Violation("make_packages-result", f"make_packages({refs}) returned {res!r}")
                for ref, obj in zip(refs, res):
                    ent = holder
                    for part in ref.split("/"):
                        nxt = ent.child(part)
                        if nxt is None:
                            made = [p for p in ent.obj.packages if p.name == part]
                            if len(made) != 1:
                                raise Violation("make_packages-missing", f"make_packages({ref!r}): {len(made)} packages "
                                                f"called {part!r}")
                            nxt = ent.add(Ent("package", part, made[0]))
                        ent = nxt
                    if obj is not ent.obj:
                        raise Violation("make_packages-result", f"make_packages({ref!r}) returned {obj!r}")
        elif op == "append_element":
            if holder.kind == "root":
                continue
            cls = rng.choice(ELEMENTS)
            obj = getattr(E, cls)(name)
            ent = Ent("element", name, obj)
            early = rng.random() < 0.5
            if early:
                parts_of(g, ent)
            if clash is None:
                holder.obj.append(obj)
                holder.add(ent)
                if not early:
                    parts_of(g, ent)
                outcome = cls
            else:
                refused(holder.obj.append, obj)
                outcome = "refused"
                if obj.ref() is not None:
                    raise Violation("refused-but-attached", f"refused element has reference {obj.ref()}")
        elif op == "adopt":
            # something that came from elsewhere (a document, another workspace, a package) belongs here from now on
            donor = rng.choice([ar_xml.Document, ar_xml.Workspace, lambda: E.Package("Donor")])()
            package = donor if isinstance(donor, E.Package) else donor.create_package("Donor")
            strays.append(donor)
            if holder.kind == "root" or rng.random() < 0.4:
                ent = Ent("package", name, E.Package(name))
                inner = Ent("element", "Inner", E.ImplementationDataType("Inner"))
                ent.obj.append(inner.obj)
                ent.add(inner)
                (donor if rng.random() < 0.5 else package).append(ent.obj)
            else:
                ent = Ent("element", name, getattr(E, rng.choice(ELEMENTS))(name))
                package.append(ent.obj)
                parts_of(g, ent)
            if rng.random() < 0.5:
                str(ent.obj.ref())
            if clash is None:
                holder.obj.append(ent.obj)
                holder.add(ent)
                outcome = f"{ent.kind}/{type(donor).__name__}"
            else:
                refused(holder.obj.append, ent.obj)
                outcome = "refused"
        elif op == "detached":
            tops.append(Ent("package", name, E.Package(name)))
        elif op == "attach":
            free = [t for t in tops if t.kind == "package" and t is not holder.root()]
            if not free:
                continue
            ent = rng.choice(free)
            if holder.child(ent.name) is None:
                holder.obj.append(ent.obj)
                holder.add(ent)
                tops.remove(ent)
                outcome = f"{len(list(ent.walk()))}"
            else:
                refused(holder.obj.append, ent.obj)
                outcome = "refused"
        else:
            wrong = rng.choice([E.ImplementationDataTypeElement("E1"), "Name", None, 3, E.ModeDeclaration("M"), root.obj])
            refused(holder.obj.append, wrong)
            outcome = type(wrong).__name__
        trail.append(op)
        ctx.count("operations")
        ctx.case(f"{op}/{outcome}/{holder.kind}/{min(holder.depth(), 5)}/{min(len(packages), 12)}")
        audit(ctx, tops, rng, False)
    audit(ctx, tops, rng, True)
    filters(ctx, tops, rng)


def filters(ctx, tops, rng):
    """Selection of elements by name"""
    for top in tops:
        for ent in top.walk():
            if ent.kind != "package":
                continue
            names = rng.sample(NAMES, rng.randint(0, 4))
            got = [e.name for e in ent.obj.filter(*names)]
            want = [c.name for c in ent.of("element") if c.name in names]
            if got != want:
                raise Violation("filter", f"filter{tuple(names)} gives {got}, expected {want}")
            pattern = rng.choice(["A", "^A.*", ".*", "[AB]+$", "A_\\d", "x|Elem", "(?i)a$", "$^", "(A|B)", "(A)|x", "(E)lem", "()",
                                  "(?:A|B)$", "(?P<x>A)(_\\d)?$", "(.)(.*)"])
            regex = re.compile(pattern)
            got = [e.name for e in ent.obj.filter_regex(pattern if rng.random() < 0.5 else regex)]
            want = [c.name for c in ent.of("element") if regex.match(c.name)]
            if got != want:
                raise Violation("filter_regex", f"filter_regex({pattern!r}) gives {got}, expected {want}")
            ctx.count("filters")


# ------------------------------------------------------------------ all kinds of elements and their members

def members(obj, owner_path, direct, seen):
    """Yields (object with a name, expected path, directly owned?) of everything inside obj"""
    for key, value in sorted(xio.public(obj), key=lambda x: x[0]):
        if key == "parent":
            continue
        for item in value if isinstance(value, (list, tuple)) else [value]:
            if not isinstance(item, E.ARObject) or id(item) in seen:
                continue
            seen.add(id(item))
            if isinstance(item, E.Referrable):
                path = f"{owner_path}/{item.name}"
                yield item, path, direct
                yield from members(item, path, direct, seen)
            else:
                yield from members(item, owner_path, False, seen)


def inside(ctx, spec, rng, route):
    """All named things inside an element of this type know their path"""
    g = Gen(rng, density=rng.choice([0.3, 0.6, 0.9]), depth=rng.choice([2, 3, 4]), hostile=0.1)
    inst = spec.gen(g)
    where = [g.ident() for _ in range(rng.randint(1, 4))]
    path = "/" + "/".join(where)
    if route == "build":
        collection = rng.choice([ar_xml.Workspace, ar_xml.Document])()
        obj = inst.build(rng)
        package = collection.make_packages(path)
        for item, _, _ in members(obj, "", True, set()):
            if hasattr(item, "ref") and item.ref() is not None:
                raise Violation(f"ref-of-detached-{type(item).__name__}", f"{item.ref()} inside of a detached {spec.name}")
        package.append(obj)
    else:
        ver = rng.choice(xio.VERSIONS)
        if ver == 48:
            ver = 49
        packages = gen_package(g, 0, 0)
        packages.vals["name"] = where[-1]
        packages.vals["#elements"] = [inst]
        for name in reversed(where[:-1]):
            outer = gen_package(g, 0, 0)
            outer.vals["name"] = name
            outer.vals["#packages"] = [packages]
            packages = outer
        collection, _ = xio.read_doc(wrap_file([packages.node(ver)], ver))
        obj = collection.find(path).elements[0]
    name = obj.name
    if str(obj.ref()) != f"{path}/{name}":
        raise Violation(f"ref-element-{spec.name}", f"reference {obj.ref()}, expected {path}/{name}")
    if collection.find(obj.ref()) is not obj:
        raise Violation(f"find-element-{spec.name}", f"find({obj.ref()}) is not the element")
    total = 0
    for item, want, direct in members(obj, f"{path}/{name}", True, set()):
        if not hasattr(item, "ref"):
            continue
        ref = item.ref()
        total += 1
        ctx.count("member_paths")
        if ref is None:
            if direct:
                raise Violation(f"no-ref-{type(item).__name__}", f"{type(item).__name__} at {want} has no reference")
            continue
        if str(ref) != want:
            raise Violation(f"ref-member-{type(item).__name__}", f"reference {ref}, expected {want}")
        if direct and item.root_collection() is not collection:
            raise Violation(f"root-member-{type(item).__name__}", f"{want}: wrong root collection")
        got = collection.find(ref)
        if got is not None and got is not item:
            raise Violation(f"find-member-{type(item).__name__}", f"find({ref}) gives {type(got).__name__} {got.name}")
        check_find(collection, want + "/Nothing1", None, "below-member")
        ctx.case(f"member/{spec.name}/{type(item).__name__}/{route}")
    ctx.case(f"element/{spec.name}/{route}/{min(total, 20)}", f"{path}/{name}: {total} members with a path")


def run(ctx):
    specs = [SPECS[n] for n in COLLECTABLE]
    for index, spec in ctx.each("inside", specs * 4):
        ctx.guard(inside, ctx, spec, ctx.rng("inside", index), "build" if index < 2 * len(specs) else "read")
    for _, rng in ctx.loop("deep", 12, 0.1):
        ctx.guard(deep, ctx, rng)
    for _, rng in ctx.loop("history", 60, 0.45):
        ctx.guard(history, ctx, rng)
    for _, rng in ctx.loop("members", 100, 0.35):
        ctx.guard(inside, ctx, SPECS[rng.choice(COLLECTABLE)], rng, rng.choice(["build", "read"]))

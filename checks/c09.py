"""C09: references are typed: only the kinds of target that a member can hold get in, and path and kind survive"""
import autosar.xml as ar_xml
import autosar.xml.element as E
import autosar.xml.enumeration as ar_enum
import autosar.xml.reference as ar_ref
from arv import xio
from arv.harness import Violation
from arv.model import Gen, SPECS, COLLECTABLE, Ref, Refs, REF_DESTS, enum_text, enum_members
from arv.xmltree import serialize
from checks.c05 import parents, minimal
from checks.c08 import members

RULE = ("a reference class, or a member that holds a reference, is offered one value (path, reference of any class and "
        "destination kind, other object), in memory or in XML; distinct = distinct (class or member, kind of value, "
        "outcome)")
ASSUMPTIONS = ["the kinds of target each reference class accepts are those of the AUTOSAR schema as tabulated in "
               "arv/model.py REF_DESTS"]
ASCII_SHARD = True
QUICK_S = 9.0
THOROUGH_S = 120.0
MIN_DISTINCT = 1500

SUB = ar_enum.IdentifiableSubTypes
ALL_DESTS = enum_members("IdentifiableSubTypes")
# Kinds that do not follow from the name of the class
KIND_OF = {"ProvidePortPrototype": "P_PORT_PROTOTYPE", "RequirePortPrototype": "R_PORT_PROTOTYPE",
           "PRPortPrototype": "PR_PORT_PROTOTYPE", "Package": "AR_PACKAGE", "DataConstraint": "DATA_CONSTR",
           "ConstantSpecification": "CONSTANT_SPECIFICATION",
           "ApplicationSoftwareComponentType": "APPLICATION_SW_COMPONENT_TYPE",
           "CompositionSwComponentType": "COMPOSITION_SW_COMPONENT_TYPE"}

# Members that may refuse compatible references of other classes, and those that may refuse plain paths
OWN_CLASS_ONLY = {("ApplicationArrayElement", "type_ref"), ("ApplicationRecordElement", "type_ref"),
                  ("ArVariableInImplementationDataInstanceRef", "port_prototype_ref"),
                  ("ArVariableInImplementationDataInstanceRef", "root_variable_data_prototype_ref"),
                  ("AutosarVariableRef", "local_variable_ref"), ("DelegationSwConnector", "outer_port"),
                  ("NonqueuedReceiverComSpec", "data_element_ref"), ("NonqueuedSenderComSpec", "data_element_ref"),
                  ("PassThroughSwConnector", "provide_port"), ("PassThroughSwConnector", "require_port"),
                  ("PortInCompositionTypeInstanceRef", "port_ref"), ("QueuedReceiverComSpec", "data_element_ref"),
                  ("QueuedSenderComSpec", "data_element_ref"),
                  ("VariableInAtomicSWCTypeInstanceRef", "context_data_prototype_refs")}
NO_PATHS = {("ArVariableInImplementationDataInstanceRef", "root_variable_data_prototype_ref"),
            ("AutosarVariableRef", "local_variable_ref"), ("PortInCompositionTypeInstanceRef", "component_ref"),
            ("RunnableEntity", "exclusive_area_nesting_order"), ("SwAxisCont", "unit_ref"), ("SwValueCont", "unit_ref"),
            ("SwcInternalBehavior", "data_type_mappings"), ("ClientServerOperation", "possible_error_refs")}


def odd_path(rng):
    """A path, also in forms the library itself does not make; they are kept as they are"""
    path = Gen(rng).path()
    form = rng.randint(0, 15)
    return [path[1:], path + "/", "/" + path, path.replace("/", "//"), path + "/é_Ω", path + "-1.x", path + "/" + "n" * 200,
            path.swapcase(), "/0", path.rpartition("/")[2], "./x" + path, path + "[1]"][form] if form < 12 else path


def upper_snake(name):
    out = ""
    for i, char in enumerate(name):
        if char.isupper() and i and (name[i - 1].islower() or (i + 1 < len(name) and name[i + 1].islower())):
            out += "_"
        out += char.upper()
    return out


def kind_of(obj):
    name = type(obj).__name__
    return KIND_OF.get(name, upper_snake(name))


# ---------------------------------------------------------------------------------------- reference classes

def judge_class(ctx, name, dest, rng):
    cls = getattr(ar_ref, name)
    path = odd_path(rng)
    member = SUB[dest]
    try:
        ref = cls(path, member)
    except (ValueError, TypeError):
        if dest in REF_DESTS[name]:
            raise Violation(f"refused-{name}", f"{name} refuses destination {dest}") from None
        ctx.case(f"class/{name}/{dest}")
        return
    if dest not in REF_DESTS[name]:
        raise Violation(f"accepted-{name}", f"{name} accepts destination {dest}")
    if ref.dest is not member or str(ref) != path or ref.value != path:
        raise Violation(f"stored-{name}", f"{name}({path!r}, {dest}) holds {ref.value!r} / {ref.dest!r}")
    ctx.case(f"class/{name}/{dest}")


def judge_default(ctx, name, rng):
    """Without a destination kind, a reference is made exactly when there is only one, and never with a wrong one"""
    cls = getattr(ar_ref, name)
    path = odd_path(rng)
    for args in ((path,), (path, None)):
        try:
            ref = cls(*args)
        except (ValueError, TypeError) as ex:
            if len(REF_DESTS[name]) == 1:
                raise Violation(f"default-{name}", f"{name}{args!r} is refused: {ex}") from None
            if not isinstance(ex, (ValueError, TypeError)):
                raise
            ctx.case(f"default/{name}/{len(args)}/refused")
            continue
        if ref.dest is None or ref.dest.name not in REF_DESTS[name] or str(ref) != path:
            raise Violation(f"default-{name}", f"{name}{args!r} holds {ref.value!r} / {ref.dest!r}")
        ctx.case(f"default/{name}/{len(args)}/{ref.dest.name}")
    for wrong in ("UNIT", "COMPU-METHOD", 3, True, ar_enum.ByteOrder.OPAQUE, ""):
        try:
            ref = cls(path, wrong)
        except (ValueError, TypeError):
            continue
        raise Violation(f"dest-type-{name}", f"{name}({path!r}, {wrong!r}) holds {ref.dest!r}")


# ------------------------------------------------------------------------------------------------- members

def member_kinds():
    return [(spec, kind) for spec in SPECS.values() for kind in spec.members
            if isinstance(kind, (Ref, Refs)) and hasattr(E, spec.name)]


def minimal_inst(spec, kind, g):
    """Instance with the required members (and those the member under test needs)"""
    inst = minimal(spec, g)
    if kind.attr not in inst.vals:
        inst.vals[kind.attr] = kind.gen(g)
        fix = spec.opts.get("fix")
        if fix:
            fix(inst, g)
    return inst


def construct(spec, kind, inst, value):
    kwargs = {k.arg: k.build(inst.vals[k.attr], None) for k in spec.members if k.attr in inst.vals}
    kwargs[kind.arg] = value
    return getattr(E, spec.name)(**kwargs)


def stored(obj, kind):
    value = getattr(obj, kind.attr)
    if isinstance(kind, Refs):
        if not isinstance(value, (list, tuple)):
            return value
        return value[0] if len(value) == 1 else (None if not value else value)
    return value


def check_stored(where, got, ref_class, path, dest):
    if type(got).__name__ != ref_class or str(got) != path or got.dest is not SUB[dest]:
        raise Violation(f"stored-{where}", f"{where} holds {type(got).__name__} {got} {getattr(got, 'dest', None)}, expected "
                        f"{ref_class} {path} {dest}")


def offer(ctx, spec, kind, inst, value, what, expect, path=None, dest=None):
    """expect: 'accept', 'refuse' or 'either' (accept rightly or refuse)"""
    where = f"{spec.name}.{kind.attr}"
    try:
        obj = construct(spec, kind, inst, value)
    except (TypeError, ValueError) as ex:
        if expect == "accept":
            raise Violation(f"refused-{where}", f"{where} refuses {what}: {ex}") from ex
        ctx.case(f"{where}/{what}/refused")
        return
    got = stored(obj, kind)
    if expect == "refuse":
        raise Violation(f"accepted-{where}", f"{where} accepts {what} and holds {type(got).__name__} {got} "
                        f"{getattr(got, 'dest', None)}")
    check_stored(where, got, kind.ref_class, path, dest)
    ctx.case(f"{where}/{what}/accepted")


def judge_member(ctx, spec, kind, rng):
    g = Gen(rng, density=0, depth=2, hostile=0)
    inst = minimal_inst(spec, kind, g)
    own = REF_DESTS[kind.ref_class]
    path = odd_path(rng)
    wrap = (lambda x: rng.choice([x, [x]])) if isinstance(kind, Refs) else (lambda x: x)
    for dest in sorted(kind_dests(spec, kind, inst)):
        offer(ctx, spec, kind, inst, wrap(getattr(ar_ref, kind.ref_class)(path, SUB[dest])), f"own-{dest}", "accept",
              path, dest)
    # plain paths
    if len(own) == 1:
        offer(ctx, spec, kind, inst, wrap(path), "path", "either" if (spec.name, kind.attr) in NO_PATHS else "accept",
              path, own[0])
    else:
        offer(ctx, spec, kind, inst, wrap(path), "path", "refuse")
    # references of all other classes
    for name, dests in REF_DESTS.items():
        if name == kind.ref_class:
            continue
        for dest in dests:
            ref = getattr(ar_ref, name)(path, SUB[dest])
            fits = dest in own and dest in kind_dests(spec, kind, inst)
            before = (ref.value, ref.dest)
            expect = "refuse"
            if fits:
                expect = "either" if (spec.name, kind.attr) in OWN_CLASS_ONLY else "accept"
            offer(ctx, spec, kind, inst, wrap(ref), f"{name}-{dest}", expect, path, dest)
            if (ref.value, ref.dest) != before:
                raise Violation(f"changed-{spec.name}.{kind.attr}", f"offering {name} {before} changed it")
    # other objects
    for wrong in (3, 2.5, b"/a/b", True, SUB[own[0]], E.Package("Pkg"), object(), (path, own[0]), {"value": path}):
        offer(ctx, spec, kind, inst, wrong, f"object-{type(wrong).__name__}", "refuse")
        if isinstance(kind, Refs):
            offer(ctx, spec, kind, inst, [wrong], f"listed-{type(wrong).__name__}", "refuse")


def kind_dests(spec, kind, inst):
    """Destination kinds this member accepts in the context of this instance"""
    return set(REF_DESTS[kind.ref_class])


# ------------------------------------------------------------------------------------------ references of objects

def judge_ref_of(ctx, spec, rng):
    """obj.ref() has the kind of the object"""
    g = Gen(rng, density=0.5, depth=3, hostile=0)
    obj = spec.gen(g).build(rng)
    collection = ar_xml.Document()
    package = collection.make_packages("/" + g.ident() + "/" + g.ident())
    package.append(obj)
    for item in [package, obj] + [x for x, _, _ in members(obj, "", True, set())]:
        if not hasattr(item, "ref") or item.ref() is None:
            continue
        ref = item.ref()
        want = kind_of(item)
        if not isinstance(ref, ar_ref.BaseRef) or ref.dest.name != want:
            raise Violation(f"kind-{type(item).__name__}", f"{type(item).__name__}.ref() has destination {ref.dest!r}")
        if want not in REF_DESTS[type(ref).__name__]:
            raise Violation(f"class-{type(item).__name__}", f"{type(item).__name__}.ref() is a {type(ref).__name__}")
        again = item.ref()
        if again is ref:
            raise Violation(f"shared-{type(item).__name__}", "ref() returns a shared object")
        ctx.case(f"ref-of/{type(item).__name__}")


# ---------------------------------------------------------------------------------------------------- reading

MARKS = ["/Marked/Path1"] * 4 + ["Marked/Path1", "/Marked/Path1/", "//Marked/Path1", "/Marked//Path1", "/MARKED/path1",
                                 "/Marked/Pfad_é", "Marked", "/Marked/Path1/" + "n" * 300]


def judge_read(ctx, spec, kind, dest, up, rng, ver):
    """A reference in XML is taken only with a kind that the member accepts"""
    g = Gen(rng, density=0, depth=2, ver=ver, hostile=0)
    inst = minimal_inst(spec, kind, g)
    where = f"{spec.name}.{kind.attr}"
    value = inst.vals[kind.attr]
    target = value[0] if isinstance(kind, Refs) and value else value
    if not target:
        target = (g.path(), REF_DESTS[kind.ref_class][0])
    fits = dest in kind_dests(spec, kind, inst)
    mark = rng.choice(MARKS)
    marked = (mark, target[1])
    inst.vals[kind.attr] = [marked] if isinstance(kind, Refs) else marked
    outer, owner = inst, spec
    chain = 0
    while not owner.read_tags and owner.name in up and chain < 3:
        parent, link = up[owner.name]
        holder = minimal(parent, g)
        holder.vals[link.attr] = [outer] if isinstance(link, (list,)) or type(link).__name__ == "Children" else outer
        outer, owner = holder, parent
        chain += 1
    if not owner.read_tags:
        return
    tag = rng.choice(owner.read_tags)
    if owner.name == "PortInCompositionTypeInstanceRef":
        return
    text = serialize(outer.node(ver, tag))
    old = f'DEST="{enum_text("IdentifiableSubTypes", target[1])}">{mark}<'
    if text.count(old) != 1:
        return
    shown = dest if dest is None or dest.startswith("!") else enum_text("IdentifiableSubTypes", dest)
    if dest is None:
        new = f">{mark}<"
        text = text.replace(" " + old, new)
    else:
        text = text.replace(old, f'DEST="{shown.lstrip("!")}">{mark}<')
    try:
        obj, _ = xio.read_elem(text, owner, ver)
    except Exception as ex:  # pylint: disable=W0718
        if fits:
            raise Violation(f"read-refused-{where}", f"{where} with destination {dest} is refused: {ex}", text) from ex
        ctx.case(f"read/{where}/{dest}/refused")
        return
    found = list(refs_in(obj, mark, set()))
    if not fits:
        if found:
            raise Violation(f"read-accepted-{where}", f"{where} with destination {shown} is read as {found[0].dest!r}", text)
        ctx.case(f"read/{where}/{dest}/dropped")
        return
    if len(found) != 1:
        raise Violation(f"read-lost-{where}", f"{where} with destination {dest}: found {len(found)} times", text)
    if owner is spec:
        check_stored(where, stored(obj, kind), kind.ref_class, mark, dest)
    if found[0].dest is not SUB[dest]:
        raise Violation(f"read-dest-{where}", f"{where} with destination {dest} is read as {found[0].dest!r}", text)
    ctx.case(f"read/{where}/{dest}/accepted")


def refs_in(obj, path, seen):
    if id(obj) in seen:
        return
    seen.add(id(obj))
    if isinstance(obj, ar_ref.BaseRef):
        if str(obj) == path:
            yield obj
        return
    if isinstance(obj, (list, tuple)):
        for item in obj:
            yield from refs_in(item, path, seen)
    elif isinstance(obj, dict):
        for item in obj.values():
            yield from refs_in(item, path, seen)
    elif isinstance(obj, E.ARObject):
        for key, item in xio.public(obj):
            if key != "parent":
                yield from refs_in(item, path, seen)


def run(ctx):
    pairs = [(name, dest) for name in REF_DESTS for dest in ALL_DESTS]
    for index, (name, dest) in ctx.each("classes", pairs):
        ctx.guard(judge_class, ctx, name, dest, ctx.rng("class", index))
    for index, name in ctx.each("defaults", list(REF_DESTS)):
        ctx.guard(judge_default, ctx, name, ctx.rng("default", index))
    kinds = member_kinds()
    for index, (spec, kind) in ctx.each("members", kinds):
        ctx.guard(judge_member, ctx, spec, kind, ctx.rng("member", index))
    for index, name in ctx.each("refs", (COLLECTABLE * 4)):
        ctx.guard(judge_ref_of, ctx, SPECS[name], ctx.rng("refs", index))
    up = parents()
    places = [(spec, kind, dest) for spec, kind in kinds for dest in REF_DESTS[kind.ref_class] + [None, "!NO-SUCH-KIND"]]
    for index, (spec, kind, dest) in ctx.each("read", places):
        ctx.guard(judge_read, ctx, spec, kind, dest, up, ctx.rng("read", index), 51)
    for _, rng in ctx.loop("foreign", 500, 0.6):
        spec, kind = rng.choice(kinds)
        ctx.guard(judge_read, ctx, spec, kind, rng.choice(ALL_DESTS), up, rng, rng.choice((49, 50, 51)))
    for _, rng in ctx.loop("more", 20, 0.2):
        spec, kind = rng.choice(kinds)
        ctx.guard(judge_member, ctx, spec, kind, rng)


"""C05: enumeration values and their XML spelling correspond one to one, at every place, per schema version"""
import enum
import autosar.xml.enumeration as ar_enum
import autosar.xml.exception as ar_exception
from arv import xio
from arv.harness import Violation
from arv.model import SPECS, Gen, Enum, Child, Children, Inst, Ref, enum_members, enum_text
from arv.xmltree import EnumText, Node, diff, parse, serialize, first_tag_path

RULE = ("one enumeration value at one place (class and member) is written and read at one schema version, or one "
        "text is offered as value of one enumeration; distinct = distinct (place or enumeration, value or text, version)")
ASSUMPTIONS = ["spelling in the schema: member names with hyphens, and the exceptions listed in arv/model.py ENUM_TEXT",
               "ARRAY-IMPL-POLICY exists since schema version 49"]
ASCII_SHARD = True
QUICK_S = 8.0
THOROUGH_S = 60.0
MIN_DISTINCT = 1500

# Enumerations that exist in Python only (never part of a document)
INTERNAL = {"CallPoint", "CompuScaleContent", "ModeAccess", "PackageRole", "PortAccess", "ReadResult", "ValueFormat"}
# Second spelling of the same value in the schema (read only)
SECOND = {("CalibrationAxisCategory", m): m for m in ("COM_AXIS", "CURVE_AXIS", "FIX_AXIS", "RES_AXIS", "STD_AXIS")}
SINCE = {"ArrayImplPolicy": 49}


def all_enums():
    res = []
    for name in dir(ar_enum):
        cls = getattr(ar_enum, name)
        if isinstance(cls, type) and issubclass(cls, enum.Enum) and cls is not enum.Enum and name not in INTERNAL:
            res.append(name)
    return sorted(res)


def judge_member(ctx, name, member, ver):
    """Function level"""
    cls = getattr(ar_enum, name)
    item = cls[member]
    text = enum_text(name, member)
    if ver < SINCE.get(name, 0):
        for what, func in (("writing", lambda: ar_enum.enum_to_xml(item, ver)),
                           ("reading", lambda: ar_enum.xml_to_enum(name, text, ver))):
            try:
                res = func()
            except ar_exception.VersionError:
                continue
            raise Violation(f"version-{name}", f"{what} {name}.{member} at schema {ver} gives {res!r}")
        ctx.count("version_errors")
        ctx.case(f"{name}.{member}/{ver}")
        return
    got = ar_enum.enum_to_xml(item, ver)
    if got != text:
        raise Violation(f"to-xml-{name}", f"{name}.{member} is written as {got!r}, expected {text!r}")
    back = ar_enum.xml_to_enum(name, text, ver)
    if back is not item:
        raise Violation(f"from-xml-{name}", f"{text!r} is read as {back!r}, expected {name}.{member}")
    second = SECOND.get((name, member))
    if second and ar_enum.xml_to_enum(name, second, ver) is not item:
        raise Violation(f"from-xml-{name}", f"{second!r} is not read as {name}.{member}")
    ctx.count("function_pairs")
    ctx.case(f"{name}.{member}/{ver}", f"{name}.{member} <-> {text}")


def judge_foreign(ctx, name, text, own, ver):
    """Texts that are no value of the enumeration must not be taken for one"""
    if text in own or any(text == v for k, v in SECOND.items() if k[0] == name):
        return
    try:
        res = ar_enum.xml_to_enum(name, text, ver)
    except (KeyError, ValueError):
        ctx.count("foreign_texts_rejected")
        ctx.case(f"foreign/{name}/{text}")
        return
    if isinstance(res, enum.Enum) or res is not None:
        raise Violation(f"foreign-{name}", f"{text!r} is accepted as {res!r} of {name}")


def near_misses(own, rng):
    res = set()
    for text in own:
        res |= {text.lower(), text.upper(), text.replace("-", "_"), text + "-", "-" + text, text[:-1], text + " ",
                text.replace("-", ""), text.replace("-", " "), text.title()}
    res |= {"", "None", "0", "1", "true"}
    res = sorted(res)
    return rng.sample(res, min(len(res), 60))


def parents():
    """spec name -> (parent spec, kind) of a readable parent"""
    res = {}
    for spec in SPECS.values():
        for kind in spec.members:
            if isinstance(kind, (Child, Children)):
                for name in kind.classes:
                    if spec.read_tags and (name not in res or spec.name < res[name][0].name):
                        res[name] = (spec, kind)
    return res


def minimal(spec, g):
    """Instance with the required members only (g has density 0)"""
    return spec.gen(g)




def judge_place(ctx, spec, kind, member, ver, up, rng):
    g = Gen(rng, density=0.0, depth=3, ver=ver, hostile=0)
    inst = minimal(spec, g)
    inst.vals[kind.attr] = member
    fix = spec.opts.get("fix")
    if fix:
        fix(inst, g)
    if inst.vals.get(kind.attr) != member:
        return
    chain = 0
    while not spec.read_tags and spec.name in up and chain < 3:
        parent, link = up[spec.name]
        outer = minimal(parent, g)
        outer.vals[link.attr] = [inst] if isinstance(link, Children) else inst
        inst, spec = outer, parent
        chain += 1
    where = f"{spec.name}.{kind.attr}"
    done = False
    if spec.writable and spec.tags:
        tag = rng.choice(spec.tags)
        text = xio.write_elem(inst.build(rng), spec, tag, ver)
        found = diff(inst.node(ver, tag), parse(text))
        if found:
            raise Violation(f"written-{where}", f"{first_tag_path(found)} at {member}: {found}", text)
        done = True
        ctx.count("places_written")
    if spec.read_tags:
        tag = rng.choice(spec.read_tags)
        text = serialize(inst.node(ver, tag))
        obj, messages = xio.read_elem(text, spec, ver)
        inst.check(obj)
        if messages:
            raise Violation(f"message-{where}", messages[:300], text)
        done = True
        ctx.count("places_read")
    if done:
        ctx.case(f"{where}/{kind.attr}={member}/{ver}", f"{where} = {member}")


def judge_unsupported(ctx, member, ver):
    """array implementation policy at schema 48: refused or left out, never written"""
    spec = SPECS["ImplementationDataType"] if any(
        k.attr == "array_impl_policy" for k in SPECS["ImplementationDataType"].members) else None
    if spec is None:
        return
    props = next(s for s in SPECS.values() if any(k.attr == "array_impl_policy" for k in s.members))
    g = Gen(ctx.rng("unsupported", member), density=0, depth=2, ver=51, hostile=0)
    inst = minimal(props, g)
    inst.vals["array_impl_policy"] = member
    obj = inst.build(None)
    try:
        text = xio.write_elem(obj, props, props.tag, ver)
    except ar_exception.VersionError:
        ctx.count("refused_at_old_version")
        ctx.case(f"old-version/{member}/{ver}")
        return
    raise Violation("old-version-written", f"{member} written at schema version {ver}", text)


def judge_dest(ctx, spec, kind, dest, rng):
    """Destination type of a reference, at its place"""
    g = Gen(rng, density=0, depth=3, ver=51, hostile=0)
    inst = minimal(spec, g)
    inst.vals[kind.attr] = (g.path(), dest)
    where = f"{spec.name}.{kind.attr}"
    if spec.writable and spec.tags:
        tag = rng.choice(spec.tags)
        text = xio.write_elem(inst.build(None), spec, tag)
        found = diff(inst.node(51, tag), parse(text))
        if found:
            raise Violation(f"dest-written-{where}", found, text)
    if spec.read_tags:
        tag = rng.choice(spec.read_tags)
        obj, _ = xio.read_elem(serialize(inst.node(51, tag)), spec)
        inst.check(obj)
    ctx.count("destinations")
    ctx.case(f"dest/{where}/{dest}")


def enum_places(node):
    """(node, attribute name or None, index in content, text) of every enumeration text below node"""
    for name, value in node.attrs.items():
        if isinstance(value, EnumText):
            yield node, name, value
    for item in node.content:
        if isinstance(item, EnumText):
            yield node, None, item
        elif isinstance(item, Node):
            yield from enum_places(item)


def judge_wrong(ctx, spec, inst, tag, ver, rng, seen, limit):
    """A text that is no value of the enumeration, at any place of the XML of an element"""
    node = inst.node(ver, tag)
    found = list(enum_places(node))
    rng.shuffle(found)
    for owner, attr, text in found:
        key = (spec.name, owner.tag, attr, text.enum)
        if key in seen or limit <= 0:
            continue
        seen.add(key)
        limit -= 1
        own = {enum_text(text.enum, m) for m in enum_members(text.enum)}
        own |= {v for k, v in SECOND.items() if k[0] == text.enum}
        wrong = [t for t in near_misses(sorted(own), rng) if t not in own and (attr or t.strip() not in own | {""})]
        wrong = rng.sample(wrong, min(4, len(wrong))) + ["SOMETHING-ELSE"]
        for new in wrong:
            if attr:
                owner.attrs[attr] = new
            else:
                at = [i for i, c in enumerate(owner.content) if c is text or c == text]
                owner.content[at[0]] = new
            xml = serialize(node)
            try:
                xio.read_elem(xml, spec, ver)
            except (KeyError, ValueError, TypeError, ar_exception.ParseError):
                ctx.count("wrong_texts_rejected")
                ctx.case(f"wrong/{spec.name}/{owner.tag}/{attr}")
            else:
                raise Violation(f"wrong-accepted-{owner.tag}-{attr}", f"{new!r} is accepted as {text.enum} at "
                                f"{owner.tag} {attr or ''} in {spec.name}", xml)
            finally:
                if attr:
                    owner.attrs[attr] = text
                else:
                    owner.content[at[0]] = text


def run(ctx):
    names = all_enums()
    texts = {name: {enum_text(name, m) for m in enum_members(name)} for name in names}
    for name in names:
        if len(texts[name]) != len(enum_members(name)):
            raise AssertionError(f"model gives the same text to two members of {name}")
    for _, name in ctx.each("functions", names):
        for member in enum_members(name):
            for ver in xio.VERSIONS:
                ctx.guard(judge_member, ctx, name, member, ver)
        rng = ctx.rng("foreign", name)
        foreign = near_misses(sorted(texts[name]), rng)
        for other in rng.sample(names, 8):
            foreign += sorted(texts[other])[:10]
        for text in foreign:
            ctx.guard(judge_foreign, ctx, name, text, texts[name], 51)
    up = parents()
    places = [(spec, kind) for spec in SPECS.values() for kind in spec.members if isinstance(kind, Enum)]
    for _, (spec, kind) in ctx.each("places", places):
        for member in enum_members(kind.enum_name):
            for ver in xio.VERSIONS:
                if ver >= max(kind.since, SINCE.get(kind.enum_name, 0)):
                    ctx.guard(judge_place, ctx, spec, kind, member, ver, up,
                              ctx.rng("place", spec.name, kind.attr, member, ver))
    for _, member in ctx.each("old", enum_members("ArrayImplPolicy")):
        ctx.guard(judge_unsupported, ctx, member, 48)
    dests = [(spec, kind) for spec in SPECS.values() for kind in spec.members if isinstance(kind, Ref)
             and spec.name != "PortInCompositionTypeInstanceRef"]
    for _, (spec, kind) in ctx.each("dests", dests):
        for dest in kind.dests:
            ctx.guard(judge_dest, ctx, spec, kind, dest, ctx.rng("dest", spec.name, kind.attr, dest))
    seen = set()
    readable = [s for s in SPECS.values() if s.read_tags]
    for _, spec in ctx.each("wrong", readable):
        rng = ctx.rng("wrong", spec.name)
        g = Gen(rng, full=True, depth=2, ver=51, hostile=0, breadth=1)
        inst, tag = xio.special_tag(spec, g, spec.read_tags)
        ctx.guard(judge_wrong, ctx, spec, inst, tag, 51, rng, seen, 30)
    # everything that carries enumeration values, mixed
    used = sorted({spec.name for spec, _ in places})
    for _, rng in ctx.loop("mixed", 100, 0.3):
        spec = SPECS[rng.choice(used)]
        g = Gen(rng, density=0.5, depth=2, ver=rng.choice(xio.VERSIONS), hostile=0)
        inst, tag = xio.special_tag(spec, g, spec.tags)
        ctx.guard(judge_mixed, ctx, spec, inst, tag, g)


def judge_mixed(ctx, spec, inst, tag, g):
    if spec.writable:
        text = xio.write_elem(inst.build(g.rng), spec, tag, g.ver)
        found = diff(inst.node(g.ver, tag), parse(text))
        if found:
            raise Violation("written-" + first_tag_path(found), found, text)
    if tag in spec.read_tags:
        obj, _ = xio.read_elem(serialize(inst.node(g.ver, tag)), spec, g.ver)
        inst.check(obj)
    ctx.case(f"mixed/{inst.signature()}")



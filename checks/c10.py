"""C10: what is given to a constructor or an append method is held, or refused; never ignored or written as something else"""
import autosar.xml.element as E
import autosar.xml.enumeration as ar_enum
from arv import xio
from arv.harness import Violation
from arv.model import (Gen, SPECS, ClassSpec, MixedElem, MultiElem, DocBlock, Int, Enum, Child, Children, Values, Ref, Refs, Listed, Kind,
                       ScaleContent, InverseValue, AckSugar, Desc, UnitName, ModeIrefs, Areas, Alignment, AxisIndex)
from arv.xmltree import diff, parse, first_tag_path
from checks.c09 import minimal_inst

RULE = ("a constructor argument or an append method of one class is offered one value (of another kind, or of the right "
        "kind after a random history of appends); the outcome, and the XML the object is written as before and after, "
        "are compared; distinct = distinct (class, member or method, kind of value, outcome)")
ASSUMPTIONS = ["texts, booleans and plain numbers are converted by the library and are not judged here"]
ASCII_SHARD = "asserts"
QUICK_S = 9.0
THOROUGH_S = 120.0
MIN_DISTINCT = 3000

REFUSALS = (TypeError, ValueError, AssertionError, NotImplementedError)
# Whole-number members that refuse negative values when the object is made
NOT_NEGATIVE = {"EndToEndTransformationComSpecProps", "ExecutableEntityActivationReason", "ImplementationDataTypeElement",
                "ModeDeclaration", "ModeDeclarationGroup", "ModeSwitchSenderComSpec", "NonqueuedReceiverComSpec",
                "QueuedReceiverComSpec", "ServerComSpec", "ApplicationArrayElement"}
# Classes of the members that build their element from plain values
FROM_TEXT = (Desc, InverseValue, UnitName)
FROM_NUMBER = (InverseValue, AckSugar)
TEXT_TOO = {("EndToEndTransformationComSpecProps", "desc"), ("ExclusiveArea", "desc"), ("ModeAccessPointIdent", "desc"),
            ("ExternalTriggeringPointIdent", "desc"), ("ModeDeclarationGroup", "mode_declarations")}


class Foreign(E.ARObject):
    """An element that no member takes"""

    def __init__(self):
        self.name = "Foreign"
        self.parent = None


def wrong_values(spec, kind, rng):
    """(description, value) of things that do not fit the member"""
    g = Gen(rng, density=0.3, depth=2, hostile=0)
    res = [("object", object()), ("foreign", Foreign()), ("set", {1j}), ("dict", {"a": 1}), ("bytes", b"abc"),
           ("class", E.Unit), ("function", len), ("complex", 1j), ("enum", ar_enum.ValueFormat.BINARY),
           ("tuple", (Foreign(), 1j))]
    if isinstance(kind, Int):
        return [x for x in res if x[0] != "enum"] + [("negative", -5), ("big-negative", -2**70), ("fraction", 2.5)]
    if isinstance(kind, (Alignment, AxisIndex)):
        return [x for x in res] + [("list", [1])]
    if isinstance(kind, (ModeIrefs, Areas)):
        good = kind.build(kind.gen(Gen(rng, density=0.3, depth=2, hostile=0)), None)
        good = good[0] if isinstance(good, (tuple, list)) else good
        res += [("number", 7), ("float", 2.5), ("pair", (good, Foreign())), ("other-pair", (3, good)),
                ("foreign-list", [Foreign()]), ("list-none", [None])]
        if isinstance(kind, ModeIrefs):
            res += [("text", "some/text"), ("pair-text", (good, "text")), ("pair-none", (good, None)),
                    ("list", [good]), ("one", (good,)), ("three", (good, good, good))]
        return res
    if isinstance(kind, Values):
        return [x for x in res if x[0] != "bytes"] + [("list", [object()]), ("list-foreign", [1, Foreign()])]
    if isinstance(kind, Enum):
        for other in ("ByteOrder", "Monotony", "EmphasisFont"):
            if other != kind.enum_name:
                res.append(("enum-" + other, getattr(ar_enum, other)[g.pick_enum(other)]))
        res += [("enum-name", g.pick_enum(kind.enum_name)), ("number", 1), ("none-list", [None])]
        return res
    # an element of another class
    own = {getattr(E, c) for c in kind.classes if hasattr(E, c)}
    for _ in range(8):
        name = rng.choice(list(SPECS))
        cls = getattr(E, name, None)
        if cls is None or issubclass(cls, tuple(own)) or any(issubclass(c, cls) for c in own) or cls in sugar_classes(kind):
            continue
        res.append((f"a-{name}", SPECS[name].gen(g).build(None)))
    plain_text = isinstance(kind, FROM_TEXT) or (spec.name, kind.attr) in TEXT_TOO
    if not plain_text:
        res.append(("text", "some text"))
    if not isinstance(kind, FROM_NUMBER):
        res += [("number", 7), ("float", 2.5)]
    if isinstance(kind, Children):
        res += [("list", [object()]), ("list-foreign", [Foreign()]), ("list-number", [1]), ("list-none", [None]),
                ("list-of-list", [[]])]
        if not plain_text:
            res.append(("list-text", ["a", "b"]))
    return res


def sugar_classes(kind):
    """Classes that a member takes as a short form of its own class"""
    return {E.SwDataDefPropsConditional, E.SwDataDefProps, E.LanguageOverviewParagraph, E.LanguageLongName,
            E.ConstantReference, E.ValueSpecification, E.MultilanguageLongName, E.CompuConst, E.CompuRational,
            E.LanguageParagraph, E.LanguageVerbatim, E.MultiLanguageOverviewParagraph, E.ValueGroup, E.SwValues,
            E.DataFilter, E.SymbolProps, E.PortApiOption, E.AutosarVariableRef, E.AutosarParameterRef,
            E.ModeDeclaration}


def constructor_kinds():
    res = []
    for spec in SPECS.values():
        if not hasattr(E, spec.name) or type(spec).build is not ClassSpec.build:
            continue
        for kind in spec.members:
            if isinstance(kind, (Ref, Refs)):
                continue
            if isinstance(kind, (Enum, Child, Children, Values, ModeIrefs, Areas, Alignment, AxisIndex)) or (isinstance(kind, Int) and spec.name in NOT_NEGATIVE):
                res.append((spec, kind))
    return res


def judge_wrong(ctx, spec, kind, rng):
    g = Gen(rng, density=0, depth=2, hostile=0)
    inst = minimal_inst(spec, kind, g)
    where = f"{spec.name}.{kind.attr}"
    for what, value in wrong_values(spec, kind, rng):
        kwargs = {k.arg: k.build(inst.vals[k.attr], None) for k in spec.members if k.attr in inst.vals}
        kwargs[kind.arg] = value
        try:
            obj = getattr(E, spec.name)(**kwargs)
        except REFUSALS:
            ctx.count("refused_by_constructor")
            ctx.case(f"{where}/{what}/refused")
            continue
        got = getattr(obj, kind.attr)
        if got is None or got == []:
            raise Violation(f"ignored-{where}", f"{where}: {what} {value!r} is ignored without an error")
        tag = rng.choice(spec.tags) if spec.tags else None
        if not (spec.writable and tag):
            continue
        try:
            text = xio.write_elem(obj, spec, tag)
        except Exception:  # pylint: disable=W0718
            ctx.count("refused_by_writer")
            ctx.case(f"{where}/{what}/late")
            continue
        raise Violation(f"written-{where}", f"{where}: {what} {value!r} is taken and written", text)


# ------------------------------------------------------------------------------------------------------ append

def append_methods():
    """(spec, kind, method name) of every append method"""
    res = []
    for spec in SPECS.values():
        cls = getattr(E, spec.name, None)
        if cls is None or type(spec).build is not ClassSpec.build or not (spec.writable and spec.tags):
            continue
        lists = {k.attr: k for k in spec.members if isinstance(k, Listed) or type(k).__name__ == "Values"}
        for name in sorted(dir(cls)):
            if not name.startswith("append") or not callable(getattr(cls, name)):
                continue
            base = name[7:].replace("protype", "prototype").replace("declaratation", "declaration")
            attrs = [a for a in lists if base and a in (base, base + "s", base + "es", base[:-1] + "ies")]
            if not base:
                attrs = [a for a in lists if a != "annotations"]
            if base == "com_spec" and spec.name == "PRPortPrototype":
                attrs = ["provided_com_spec", "required_com_spec"]
            res += [(spec, lists[a], name) for a in attrs]
    return res


def compare(inst, obj, spec, tag, where, what):
    text = xio.write_elem(obj, spec, tag)
    found = diff(inst.node(51, tag), parse(text))
    if found:
        raise Violation(f"{what}-{where}", f"{where}: {first_tag_path(found)}: {found}", text)
    inst.check(obj)


def judge_append(ctx, spec, kind, method, rng):
    """Appending items one by one gives the element that has them all"""
    g = Gen(rng, edge="some", density=rng.choice([0.0, 0.4]), depth=2, hostile=0.2, breadth=rng.choice([1, 3]))
    inst = minimal_inst(spec, kind, g) if rng.random() < 0.5 else spec.gen(g)
    where = f"{spec.name}.{method}"
    more = []
    for _ in range(rng.randint(1, 4)):
        more += kind.gen(g)
    if not isinstance(inst.vals.get(kind.attr, []), list):
        return
    tag = rng.choice(spec.tags)
    obj = inst.build(None)
    for item in more:
        if rng.random() < 0.3:
            judge_refused(ctx, spec, kind, method, inst, obj, tag, where, rng)
        trial = type(inst)(spec, dict(inst.vals, **{kind.attr: inst.vals.get(kind.attr, []) + [item]}))
        before = {k: v for k, v in trial.vals.items()}
        fix = spec.opts.get("fix")
        if fix:
            fix(trial, g)
            if len(trial.vals.get(kind.attr, [])) != len(before[kind.attr]):
                return
        built = kind.build([item], None)
        built = built[0] if isinstance(built, (list, tuple)) else built
        getattr(obj, method)(built)
        inst = trial
        compare(inst, obj, spec, tag, where, "appended")
        ctx.count("appended")
    ctx.case(f"{where}/{len(inst.vals.get(kind.attr, []))}/{inst.signature()}")
    # the same in one go
    compare(inst, inst.build(None), spec, tag, where, "constructed")


def judge_refused(ctx, spec, kind, method, inst, obj, tag, where, rng):
    value = rng.choice([object(), Foreign(), 1j, {"a": 1}, E.Unit, ar_enum.ValueFormat.BINARY, b"abc", {2j}])
    if method == "append_port_api_option" and rng.random() < 0.3:
        value = E.PortApiOption(None, True)  # options are options of a port
    try:
        getattr(obj, method)(value)
    except REFUSALS:
        compare(inst, obj, spec, tag, where, "refused-but-changed")
        ctx.count("append_refused")
        ctx.case(f"{where}/refused/{type(value).__name__}")
        return
    raise Violation(f"append-accepts-{where}", f"{where} accepts {value!r}")


# ------------------------------------------------------------------------------------------------ documentation

DOCS = [n for n, s in SPECS.items() if isinstance(s, (MixedElem, MultiElem, DocBlock))] + ["SwDataDefProps"]


def judge_docs(ctx, name, rng):
    """Parts of texts, languages of a text and blocks of a documentation are held in order, or refused"""
    g = Gen(rng, edge="some", density=0.4, depth=3, hostile=0.1, breadth=4)
    tag = None
    if name == "SwDataDefProps":
        members = [SPECS["SwDataDefPropsConditional"].gen(g) for _ in range(rng.randint(0, 4))]
        accepted = {"SwDataDefPropsConditional"}
        cls = E.SwDataDefProps

        def begin(items):
            return cls(items) if items or rng.random() < 0.5 else cls()
    else:
        spec = SPECS[name]
        inst, tag = xio.special_tag(spec, g, spec.tags)
        members = inst.vals["#parts" if isinstance(spec, MixedElem) else "elements"]
        cls = getattr(E, name)
        if isinstance(spec, MixedElem):
            accepted = set(spec.parts) | {"str"}
        else:
            accepted = {spec.child} if isinstance(spec, MultiElem) else {"MultiLanguageParagraph", "MultiLanguageVerbatim"}

        def begin(items):
            if isinstance(spec, MixedElem):
                items = items[0] if len(items) == 1 and isinstance(items[0], str) and rng.random() < 0.5 else items
                return cls(ar_enum.Language[inst.vals["language"]], items) if "language" in inst.vals else cls(items)
            if isinstance(spec, DocBlock):
                return cls(items)
            kwargs = {k.arg: k.build(inst.vals[k.attr], None) for k in spec.members[:-1] if k.attr in inst.vals}
            obj = cls(*items[:1], **kwargs)
            for item in items[1:]:
                obj.append(item)
            return obj

    def parts(obj):
        return list(obj) if name == "SwDataDefProps" else obj.parts if isinstance(SPECS[name], MixedElem) else obj.elements
    built = [m if isinstance(m, str) else m.build(None) for m in members]
    number = rng.randint(0, len(built))
    obj = begin(built[:number])
    have = built[:number]

    def same(what):
        if len(parts(obj)) != len(have) or any(a is not b for a, b in zip(parts(obj), have)):
            raise Violation(f"{what}-{name}", f"{name}: holds {parts(obj)!r} instead of {have!r}")
    same("started")
    for item in built[number:]:
        if rng.random() < 0.6:
            refuse_part(ctx, name, obj, accepted, rng, begin)
            same("refused")
        obj.append(item)
        have.append(item)
        same("appended")
    refuse_part(ctx, name, obj, accepted, rng, begin)
    same("refused")
    if name != "SwDataDefProps":
        inst.check(obj)
        if SPECS[name].writable and members:
            compare(inst, obj, SPECS[name], tag, name, "appended")
    ctx.case(f"docs/{name}/{number}/{len(built)}/{[type(b).__name__ for b in built[:4]]}")


def refuse_part(ctx, name, obj, accepted, rng, begin):
    """Something that is no part of it"""
    g = Gen(rng, density=0.3, depth=2, hostile=0)
    values = [None, 3, 2.5, object(), Foreign(), [1], b"x", E.Unit, E.Unit("Wrong"), {"a": 1}, ar_enum.Language.EN]
    others = {"TechnicalTerm", "EmphasisText", "Subscript", "Superscript", "IndexEntry", "Break", "LanguageLongName",
              "MultiLanguageParagraph", "SwDataDefPropsConditional"} - accepted
    values += [SPECS[rng.choice(sorted(others))].gen(g).build(None) for _ in range(3)]
    if name in ("LanguageLongName", "LanguageOverviewParagraph"):
        values = [v for v in values if not isinstance(v, E.Break)]
    value = rng.choice(values)
    how = rng.choice(["append", "append", "constructor"])
    if how == "constructor" and (value is None or type(value) is list):
        value = 3
    try:
        if how == "append":
            obj.append(value)
        else:
            begin([value])
    except REFUSALS:
        ctx.count("part_refused")
        ctx.case(f"docs/{name}/{how}/{type(value).__name__}/refused")
        return
    raise Violation(f"accepts-part-{name}", f"{name} takes {value!r} by {how}")


def run(ctx):
    for index, (name, number) in ctx.each("docs", [(n, i) for n in DOCS for i in range(12)]):
        ctx.guard(judge_docs, ctx, name, ctx.rng("docs", index, number))
    kinds = constructor_kinds()
    for index, (spec, kind) in ctx.each("wrong", kinds):
        ctx.guard(judge_wrong, ctx, spec, kind, ctx.rng("wrong", index))
    methods = append_methods()
    for index, (spec, kind, method) in ctx.each("append", methods):
        for i in range(6):
            ctx.guard(judge_append, ctx, spec, kind, method, ctx.rng("append", index, i))
    for _, rng in ctx.loop("docs-more", 50, 0.1):
        ctx.guard(judge_docs, ctx, rng.choice(DOCS), rng)
    for _, rng in ctx.loop("append-more", 50, 0.25):
        ctx.guard(judge_append, ctx, *rng.choice(methods), rng)
    for _, rng in ctx.loop("wrong-more", 50, 0.3):
        ctx.guard(judge_wrong, ctx, *rng.choice(kinds), rng)

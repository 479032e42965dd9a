"""C11: values built from plain Python data have the shape, order, labels and values of the data"""
import copy
import autosar.xml.element as E
from arv import xio
from arv.harness import Violation
from arv.model import Gen, Inst, SPECS
from arv.xmltree import diff, parse

RULE = ("one piece of Python data (scalar, text, None, list, labelled tuple, nested) is turned into a value by one of the "
        "convenience methods, or damaged in one place and refused; distinct = distinct (method, shape of the data)")
ASSUMPTIONS = ["booleans count as numbers, as in Python"]
ASCII_SHARD = True
QUICK_S = 8.0
THOROUGH_S = 90.0
MIN_DISTINCT = 1500

REFUSALS = (TypeError, ValueError, IndexError)
MARKERS = {"A": ["A", "a", "ARRAY", "array", "Array", "aRrAy"], "R": ["R", "r", "RECORD", "record", "Record"]}


class Foreign:
    """Something that is no value"""


def scalar(rng, g):
    pick = rng.random()
    if pick < 0.15:
        return rng.choice([0, 1, -1, 0.0, True, False, 2**31, -2**63, 2**64 - 1, 1e-9, 0.1, 1e300])
    if pick < 0.5:
        return g.integer()
    if pick < 0.7:
        return g.flt()
    return None


def gen_data(rng, g, depth, long=False):
    """(data, expected instance, shape)"""
    label = None
    if rng.random() < 0.35:
        label = rng.choice([g.ident()] * 5 + ["A", "R", "ARRAY", "None", "two words", " x", "x ", "Größe", "a.b", "0"])
    pick = rng.random()
    vals = {} if label is None else {"label": label}
    if depth > 0 and (pick < 0.45 or long):
        kind = rng.choice("AR")
        size = rng.choice([17, 64, 130, 256, 300]) if long else rng.choice([0, 1, 1, 2, 3, 5])
        items = [gen_data(rng, g, 0 if long else depth - 1) for _ in range(size)]
        value = [rng.choice(MARKERS[kind])] + [x[0] for x in items]
        name, attr = ("ArrayValueSpecification", "elements") if kind == "A" else ("RecordValueSpecification", "fields")
        if items:
            vals[attr] = [x[1] for x in items]
        shape = f"{kind}*{size}" if long else kind + "(" + ",".join(x[2] for x in items) + ")"
    elif pick < 0.72:
        value = scalar(rng, g)
        if value is None:
            value = rng.choice([7, 1.5])
        name = "NumericalValueSpecification"
        vals["value"] = value
        shape = type(value).__name__[0]
    elif pick < 0.9:
        value = rng.choice([g.text(), g.ident(), "A", "R", "ARRAY", "", "1", "None", "true"])
        name = "TextValueSpecification"
        vals["value"] = value
        shape = "s"
    else:
        name = "NotAvailableValueSpecification"
        shape = "n"
        value = None
        if label is not None and rng.random() < 0.6:
            pattern = rng.choice([0, 1, 255, 2**32, g.posint()])
            vals["default_pattern"] = pattern
            return (label, None, pattern), Inst(SPECS[name], vals), "Ln+"
    data = value if label is None else (label, value)
    return data, Inst(SPECS[name], vals), ("L" if label is not None else "") + shape


def labels(inst):
    """Labels that can be names, from outside to inside"""
    label = inst.vals.get("label")
    if label is not None and label.isidentifier() and label.isascii():
        yield label
    for attr in ("elements", "fields"):
        for item in inst.vals.get(attr, []):
            yield from labels(item)


def same_number(a, b):
    return a == b or (a != a and b != b)


def check_value(obj, inst, path="value"):
    name = inst.spec.name
    if type(obj).__name__ != name:
        raise Violation("kind", f"{path}: {type(obj).__name__} instead of {name}")
    if obj.label != inst.vals.get("label"):
        raise Violation("label", f"{path}: label {obj.label!r} instead of {inst.vals.get('label')!r}")
    if name in ("ArrayValueSpecification", "RecordValueSpecification"):
        attr = "elements" if name[0] == "A" else "fields"
        got, expected = getattr(obj, attr), inst.vals.get(attr, [])
        if len(got) != len(expected):
            raise Violation("length", f"{path}: {len(got)} items instead of {len(expected)}")
        for i, (item, want) in enumerate(zip(got, expected)):
            check_value(item, want, f"{path}[{i}]")
    elif name == "NotAvailableValueSpecification":
        if obj.default_pattern != inst.vals.get("default_pattern"):
            raise Violation("default-pattern", f"{path}: {obj.default_pattern!r}")
    elif not same_number(obj.value, inst.vals["value"]) or isinstance(obj.value, str) != isinstance(inst.vals["value"], str):
        raise Violation("scalar", f"{path}: {obj.value!r} instead of {inst.vals['value']!r}")


def plain(inst):
    """The same instance with booleans as the numbers they are (for the XML)"""
    vals = {}
    for attr, value in inst.vals.items():
        if isinstance(value, bool):
            value = int(value)
        elif isinstance(value, list):
            value = [plain(x) for x in value]
        vals[attr] = value
    return Inst(inst.spec, vals)


def check_xml(obj, inst, how):
    spec = inst.spec
    text = xio.write_elem(obj, spec, None)
    found = diff(plain(inst).node(51), parse(text))
    if found:
        raise Violation(f"xml-{how}", f"{found}", text)
    plain(inst).check(xio.read_elem(text, spec)[0])


METHODS = ["make_value", "with_check", "constant", "sender", "receiver"]


def judge_good(ctx, rng):
    g = Gen(rng, hostile=0.2)
    data, inst, shape = gen_data(rng, g, rng.choice([0, 1, 2, 3, 5]), rng.random() < 0.02)
    before = copy.deepcopy(data)
    how = rng.choice(METHODS)
    if how == "make_value":
        obj = E.ValueSpecification.make_value(data)
    elif how == "with_check":
        obj = E.ValueSpecification.make_value_with_check(data)
        if data is None:
            if obj is not None:
                raise Violation("none", f"None gives {obj!r}")
            return
    elif how == "constant":
        name = g.ident()
        if rng.random() < 0.3:
            name = rng.choice(list(labels(inst)) or [name])
        const = E.ConstantSpecification.make_constant(name, data, category="CAT")
        if const.name != name or const.category != "CAT" or not isinstance(const, E.ConstantSpecification):
            raise Violation("constant", f"{const.name!r} {const.category!r}")
        obj = const.value
    else:
        ref = E.AutosarDataPrototypeRef("/A/B/c", E.ar_enum.IdentifiableSubTypes.VARIABLE_DATA_PROTOTYPE)
        cls, func = ((E.NonqueuedSenderComSpec, E.ProvidePortComSpec.make_non_queued_sender_com_spec) if how == "sender"
                     else (E.NonqueuedReceiverComSpec, E.RequirePortComSpec.make_non_queued_receiver_com_spec))
        spec = func(init_value=data, data_element_ref=ref, uses_end_to_end_protection=True)
        if not isinstance(spec, cls) or spec.data_element_ref is not ref or spec.uses_end_to_end_protection is not True:
            raise Violation("com-spec", f"{type(spec).__name__} {vars(spec)}")
        obj = spec.init_value
        if data is None:
            if obj is not None:
                raise Violation("none", f"init value None gives {obj!r}")
            return
    check_value(obj, inst)
    if repr(data) != repr(before):
        raise Violation("data-changed", f"{before!r} became {data!r}")
    if isinstance(data, (list, tuple)) and how == "make_value":
        # the same data gives an independent, equal value
        again = E.ValueSpecification.make_value(data)
        check_value(again, inst)
        if again is obj:
            raise Violation("shared", "two values share one object")
    check_xml(obj, inst, how)
    ctx.count("values")
    ctx.case(f"{how}/{shape}", {"data": repr(data), "method": how})


def judge_objects(ctx, rng):
    """Ready-made values are taken as they are, and references are wrapped"""
    g = Gen(rng)
    value = SPECS[rng.choice(["TextValueSpecification", "NumericalValueSpecification", "ArrayValueSpecification",
                              "ApplicationValueSpecification", "ConstantReference"])].gen(g).build(None)
    ref = E.ConstantRef(g.path())
    for func in (E.ValueSpecification.make_value_with_check,
                 lambda v: E.ProvidePortComSpec.make_non_queued_sender_com_spec(init_value=v).init_value,
                 lambda v: E.RequirePortComSpec.make_non_queued_receiver_com_spec(init_value=v).init_value):
        if func(value) is not value:
            raise Violation("object", f"{value!r} is replaced")
        got = func(ref)
        if not isinstance(got, E.ConstantReference) or got.constant_ref is not ref or got.label is not None:
            raise Violation("constant-ref", f"{got!r}")
        if func(None) is not None:
            raise Violation("none", "None gives a value")
        for wrong in (object(), {1: 2}, {1}, b"abc", 1j, E.Unit("u"), len):
            try:
                got = func(wrong)
            except REFUSALS:
                continue
            raise Violation("object-accepted", f"{wrong!r} gives {got!r}")
    ctx.case(f"objects/{type(value).__name__}")


def damages(rng):
    """Data that no value corresponds to"""
    return rng.choice([
        ("object", Foreign()), ("set", {1}), ("dict", {"a": 1}), ("bytes", b"A"), ("complex", 1j), ("class", int),
        ("no-marker", [1, 2, 3]), ("no-marker-none", [None]), ("no-marker-list", [["A", 1], 2]), ("empty-list", []),
        ("marker", ["X", 1]), ("marker-empty", ["", 1]), ("marker-long", ["ARRAYS", 1]), ("marker-space", ["A ", 1]),
        ("marker-rec", ["REC", 1]), ("marker-only", ["Z"]),
        ("empty-tuple", ()), ("1-tuple", ("label",)), ("4-tuple", ("label", None, 1, 2)), ("4-tuple-value", ("l", 1, 2, 3)),
        ("tuple-number", (1, 2)), ("tuple-none", (None, 2)), ("tuple-list", (["A"], 1)), ("tuple-3-number", (1, None, 2)),
        ("pattern-number", ("label", 5, 255)), ("pattern-text", ("label", "x", 255)),
        ("pattern-array", ("label", ["A", 1], 255)), ("pattern-negative", ("label", None, -1)),
        ("nested-tuple", ("label", ("inner", 1))), ("nested-value", ("label", Foreign()))])


def bury(rng, g, bad, depth):
    """The bad data inside good data"""
    data = bad
    for _ in range(depth):
        before = [gen_data(rng, g, 1)[0] for _ in range(rng.randint(0, 2))]
        after = [gen_data(rng, g, 1)[0] for _ in range(rng.randint(0, 2))]
        data = [rng.choice(MARKERS[rng.choice("AR")])] + before + [data] + after
        if rng.random() < 0.3:
            data = (g.ident(), data)
    return data


def judge_bad(ctx, rng):
    g = Gen(rng)
    what, bad = damages(rng)
    depth = rng.choice([0, 0, 1, 2, 4])
    data = bury(rng, g, bad, depth)
    how = rng.choice(METHODS)
    try:
        if how == "make_value":
            got = E.ValueSpecification.make_value(data)
        elif how == "with_check":
            got = E.ValueSpecification.make_value_with_check(data)
        elif how == "constant":
            got = E.ConstantSpecification.make_constant("name", data).value
        elif how == "sender":
            got = E.ProvidePortComSpec.make_non_queued_sender_com_spec(init_value=data).init_value
        else:
            got = E.RequirePortComSpec.make_non_queued_receiver_com_spec(init_value=data).init_value
    except REFUSALS:
        ctx.count("refused")
        ctx.case(f"bad/{what}/{depth}/{how}")
        return
    raise Violation(f"accepted-{what}", f"{data!r} gives {got!r} ({how})")


def run(ctx):
    for _, rng in ctx.loop("good", 1500, 0.55):
        ctx.guard(judge_good, ctx, rng)
    for _, rng in ctx.loop("objects", 30, 0.1):
        ctx.guard(judge_objects, ctx, rng)
    for _, rng in ctx.loop("bad", 600, 0.3):
        ctx.guard(judge_bad, ctx, rng)

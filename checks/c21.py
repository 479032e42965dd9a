"""C21: computations and data constraints made from plain values have the documented scales and limits"""
import math
from fractions import Fraction
import autosar.xml.element as E
import autosar.xml.enumeration as ar_enum
from arv import xio
from arv.harness import Violation
from arv.model import Gen, Inst, SPECS
from arv.xmltree import diff, parse, first_tag_path
from checks.c14 import flat

RULE = ("random value tables (texts, pairs, triples, mixed), rational computations and data constraints in every form of "
        "the arguments, compared with explicit models, also as XML; values next to, on and off the limits of constraints of "
        "all kinds are checked against exact arithmetic; wrong data must be refused; distinct = distinct (function, form "
        "and number of the elements, options, limits and kinds of numbers, outcome)")
ASSUMPTIONS = ["limits of a constraint are numbers, or missing"]
ASCII_SHARD = True
QUICK_S = 8.0
THOROUGH_S = 100.0
MIN_DISTINCT = 500

REFUSALS = (TypeError, ValueError, AssertionError)
SCALE = SPECS["CompuScale"]
CONST = SPECS["CompuConst"]


def const(value):
    """Expected CompuConst"""
    return Inst(CONST, {"#value": value})


def check(obj, inst, tag, what):
    """Object and XML are as expected"""
    try:
        inst.check(obj)
    except Violation as ex:
        raise Violation(f"{what}-{ex.key}", ex.what) from None
    text = xio.write_elem(obj, inst.spec, tag)
    found = diff(inst.node(51, tag), parse(text))
    if found:
        raise Violation(f"{what}-xml-{first_tag_path(found)}", found, text)


def default(rng, g):
    """(argument, expected or None, label)"""
    form = rng.choice(["none", "none", "text", "number", "const"])
    if form == "none":
        return None, None, form
    value = g.number() if form == "number" or form == "const" and rng.random() < 0.5 else g.text_or_empty()
    return (E.CompuConst(value) if form == "const" else value), const(value), form


def number(rng, g):
    """A limit or value"""
    return rng.choice([rng.randint(-5, 300), rng.randint(0, 20), g.number(), 0, -1, 0.5])


def judge_table(ctx, rng):
    """make_value_table"""
    g = Gen(rng, edge="some", hostile=rng.choice([0, 0.3]))
    auto = rng.choice([None, True, True, False])
    forms = rng.choice(["s", "2", "3", "s23", "23"])
    elements, scales, shape = [], [], ""
    for index in range(rng.choice([0, 1, 2, 3, 5, 9, 30]) if rng.random() < 0.97 else rng.randint(31, 300)):
        form = rng.choice(forms)
        text = rng.choice([g.text, g.ident])()
        value = text if form == "s" or rng.random() < 0.8 else number(rng, g)
        low = up = index
        if form != "s":
            low = up = number(rng, g)
        if form == "3":
            up = number(rng, g)
        elements.append({"s": value, "2": (low, value), "3": (low, up, value)}[form])
        vals = {"content": const(value), "lower_limit": (low, "CLOSED"), "upper_limit": (up, "CLOSED")}
        if auto is not False and isinstance(value, str):
            vals["label"] = value
        scales.append(Inst(SCALE, vals))
        if len(shape) < 5:
            shape += form if isinstance(value, str) else "n"
    arg, expected, label = default(rng, g)
    before = (flat(elements), list(elements))
    kwargs = {} if auto is None else {"auto_label": auto}
    how = rng.choice(["position", "keyword"])
    if arg is None and rng.random() < 0.5:
        obj = E.Computation.make_value_table(elements, **kwargs)
    elif how == "position":
        obj = E.Computation.make_value_table(elements, arg, **kwargs)
    else:
        obj = E.Computation.make_value_table(elements=elements, default_value=arg, **kwargs)
    if (flat(elements), elements) != before:
        raise Violation("argument-changed", "make_value_table changed its list")
    vals = {"compu_scales": scales} if scales else {}
    if expected is not None:
        vals["default_value"] = expected
    inst = Inst(SPECS["Computation"], vals)
    for scale in obj.compu_scales or []:
        if scale.content_type is not ar_enum.CompuScaleContent.CONSTANT:
            raise Violation("content-type", f"{scale.content_type}")
    if len(obj.compu_scales or []) != len(elements):
        raise Violation("table-number", f"{len(obj.compu_scales)} scales for {len(elements)} elements")
    if not scales:
        inst.check(obj)
        ctx.count("empty_tables")
        return
    if any(isinstance(s.vals.get("label"), str) and not s.vals["label"].strip() for s in scales):
        return  # a label without text can't be compared in XML
    check(obj, inst, rng.choice(SPECS["Computation"].tags), "table")
    if isinstance(arg, E.CompuConst) and obj.default_value is not arg:
        raise Violation("table-default", "the default value is another object")
    ctx.count("tables")
    ctx.case(f"table/{shape}/{min(len(elements), 6)}/{auto}/{label}/{how}")


def judge_rational(ctx, rng):
    """make_rational"""
    g = Gen(rng, hostile=0)
    names = ["scaling_factor", "offset", "lower_limit", "upper_limit", "default_value", "lower_limit_type",
             "upper_limit_type"]
    vals = {"scaling_factor": 1, "offset": 0}
    given = {}
    for name in names:
        if rng.random() < 0.5:
            if name.endswith("_type"):
                given[name] = rng.choice(["OPEN", "CLOSED"])
            elif name == "default_value":
                given[name] = default(rng, g)
            elif name == "scaling_factor":
                given[name] = rng.choice([1, 2, 0.1, 1 / 64, 100, 0.00390625, -3, rng.uniform(0, 10), g.flt()])
            else:
                given[name] = number(rng, g)
    count = rng.choice([0, 0, 1, 2, 4])
    vals.update(given)
    actual = {k: v for k, v in given.items()}
    if "default_value" in actual:
        actual["default_value"] = actual["default_value"][0]
    for name in ("lower_limit_type", "upper_limit_type"):
        if name in actual:
            actual[name] = getattr(ar_enum.IntervalType, actual[name])
    args = []
    for name in names[:count]:
        if name not in actual:
            break
        args.append(actual.pop(name))
    obj = E.Computation.make_rational(*args, **actual)
    factor = float(vals["scaling_factor"])
    scale = {"content": Inst(SPECS["CompuRational"], {"numerator": (vals["offset"], factor), "denominator": (1,)})}
    for name in ("lower_limit", "upper_limit"):
        if name in vals:
            scale[name] = (vals[name], vals.get(name + "_type", "CLOSED"))
    expected = {"compu_scales": [Inst(SCALE, scale)]}
    if vals.get("default_value") and vals["default_value"][1] is not None:
        expected["default_value"] = vals["default_value"][1]
    if obj.compu_scales[0].content_type is not ar_enum.CompuScaleContent.RATIONAL:
        raise Violation("content-type", f"{obj.compu_scales[0].content_type}")
    for name in ("lower_limit_type", "upper_limit_type"):
        got = getattr(obj.compu_scales[0], name)
        if name in given and got is not getattr(ar_enum.IntervalType, given[name]):
            raise Violation("rational-" + name, f"{given[name]} was given, scale has {got}")
    check(obj, Inst(SPECS["Computation"], expected), rng.choice(SPECS["Computation"].tags), "rational")
    ctx.count("rationals")
    ctx.case(f"rational/{sorted(given)}/{len(args)}/{given.get('lower_limit_type')}/{given.get('upper_limit_type')}")


def judge_constraint(ctx, rng):
    """make_physical and make_internal"""
    g = Gen(rng, edge="some", density=rng.choice([0.1, 0.5, 0.8]), depth=2, hostile=0, breadth=2)
    kind = rng.choice(["physical", "internal"])
    cls = {"physical": "PhysicalConstraint", "internal": "InternalConstraint"}[kind]
    inst = SPECS[cls].gen(g)
    outer = SPECS["DataConstraint"].gen(Gen(rng, density=rng.choice([0, 0.3]), depth=1, hostile=0))
    outer.vals.pop("rules", None)
    kwargs = {k.arg: k.build(outer.vals[k.attr], None) for k in outer.spec.members if k.attr in outer.vals}
    own = {}
    for member in inst.spec.members:
        if member.attr in inst.vals:
            value = inst.vals[member.attr]
            if member.attr.endswith("_limit"):
                own[member.attr] = value[0]
                own[member.attr + "_type"] = ar_enum.IntervalType[value[1]]
            else:
                own[member.arg] = member.build(value, None)
    names = ["lower_limit", "upper_limit", "scale_constr", "max_gradient", "max_diff", "monotony"]
    names += ["unit_ref"] if kind == "physical" else []
    names += ["lower_limit_type", "upper_limit_type"]
    args = [kwargs.pop("name")]
    count = rng.choice([0, 0, 0, 2, 6, len(names)])
    given = sorted(own)
    for name in names[:count]:
        args.append(own.pop(name, ar_enum.IntervalType.CLOSED if name.endswith("_type") else None))
    before = flat((args, own, kwargs))
    obj = getattr(E.DataConstraint, "make_" + kind)(*args, **own, **kwargs)
    if flat((args, own, kwargs)) != before:
        raise Violation("argument-changed", f"make_{kind} changed an argument")
    rule = Inst(SPECS["DataConstraintRule"], {kind: inst})
    outer.vals["rules"] = [rule]
    if not inst.vals:
        if len(obj.rules) != 1 or type(getattr(obj.rules[0], kind)).__name__ != cls:
            raise Violation("empty-constraint", repr(vars(obj)))
        return
    check(obj, outer, None, kind)
    ctx.count("constraints")
    ctx.case(f"{kind}/{given}/{count}/{outer.signature()}")


def exact(value):
    """Number for exact comparison"""
    return value if isinstance(value, float) and math.isinf(value) else Fraction(value)


def inside(value, low, up, low_type, up_type):
    """The value fits the limits"""
    value = exact(value)
    if low is not None:
        if value < exact(low) or value == exact(low) and low_type == "OPEN":
            return False
    if up is not None:
        if value > exact(up) or value == exact(up) and up_type == "OPEN":
            return False
    return True


def judge_limits(ctx, rng, reload=None):
    """check_value"""
    cls = rng.choice(["ScaleConstraint", "InternalConstraint", "PhysicalConstraint", "LimitObject"])
    base = rng.choice([0, 1, -1, 5, 255, -128, 2**31, 2**53, 2**64 - 1, -2**63, 0.1, 1e-9, 1e300, -2.5, float("inf"),
                       float("-inf"), rng.randint(-1000, 1000), rng.uniform(-10, 10)])

    def near(value):
        if isinstance(value, float) and math.isinf(value):
            return rng.choice([value, -value, 0, 1e308, -10**400])
        near_by = [value, value, value + 1, value - 1, -value, value * 2, int(value)]
        if abs(value) < 1e300:
            near_by += [float(value), math.nextafter(float(value), math.inf), math.nextafter(float(value), -math.inf),
                        math.inf, -math.inf]
        return rng.choice(near_by)
    low = rng.choice([None, base, base, near(base)])
    up = rng.choice([None, base, near(base), near(base)])
    low_type, up_type = (rng.choice(["OPEN", "CLOSED"]) for _ in range(2))
    kwargs = {"lower_limit": low, "upper_limit": up}
    for name, value in (("lower_limit_type", low_type), ("upper_limit_type", up_type)):
        if value == "OPEN" or rng.random() < 0.5:
            kwargs[name] = ar_enum.IntervalType[value]
    obj = getattr(E, cls)(**kwargs)
    if reload is not None:
        obj = reload(obj, cls)
        # floating point limits come back as the same double, that may be another whole number
        low, up = (now if isinstance(old, float) and now == now and float(now) == old else old
                   for old, now in ((low, obj.lower_limit), (up, obj.upper_limit)))
    values = [near(base) for _ in range(4)] + [near(x) for x in (low, up) if x is not None] + [
        x for x in (low, up) if x is not None] + [0, rng.uniform(-300, 300)]
    for value in values:
        if isinstance(value, float) and math.isnan(value):
            continue
        expected = inside(value, low, up, low_type, up_type)
        got = obj.check_value(value)
        if got is not expected:
            raise Violation(f"check-value-{low is None}-{up is None}", f"{value!r} in {low!r} ({low_type}) to {up!r} "
                                                                       f"({up_type}): {got!r}")
        edge = "low" if value == low else "up" if value == up else "off"
        ctx.count("values_inside" if expected else "values_outside")
        ctx.case(f"limits/{cls}/{type(low).__name__}/{type(up).__name__}/{low_type}/{up_type}/{edge}/{expected}/"
                 f"{type(value).__name__}")


def judge_bad(ctx, rng):
    """What can't be made is refused"""
    g = Gen(rng)
    what = rng.choice(["tuple", "element", "default", "rational", "constraint", "scale"])
    good = [g.ident() for _ in range(rng.randint(0, 3))]
    if what == "tuple":
        item = rng.choice([(), (1,), (1, 2, "x", 3), ("x",), (1, 2, 3, 4, 5)])
        call = (E.Computation.make_value_table, good[:1] + [item] + good[1:])
        label = len(item)
    elif what == "element":
        item = rng.choice([None, 1, 2.5, object(), [1, "x"], {"a": 1}, {1}, b"x", E.CompuConst("x")])
        call = (E.Computation.make_value_table, good[:1] + [item] + good[1:])
        label = type(item).__name__
    elif what == "default":
        item = rng.choice([object(), [1], (1, 2), {"a": 1}, b"x", E.CompuRational((1,), (1,)), E.Unit("u")])
        func = rng.choice([lambda x: E.Computation.make_value_table(good, x),
                           lambda x: E.Computation.make_rational(1, default_value=x)])
        call = (func, item)
        label = type(item).__name__
    elif what == "rational":
        item = rng.choice([None, "x", object(), [1], "1,5"])
        call = (E.Computation.make_rational, item)
        label = repr(type(item))
    elif what == "constraint":
        func = rng.choice([E.DataConstraint.make_physical, E.DataConstraint.make_internal])
        kwargs = rng.choice([{"monotony": "x"}, {"monotony": 1}, {"no_such": 1}, {"scale_constr": 3}, {"desc": 3},
                             {"unit_ref": 3}])
        call = (lambda k: func("Name", **k), kwargs)
        label = f"{func.__name__}/{sorted(kwargs)}"
    else:
        item = rng.choice([object(), 3, "x", E.Unit("u"), [E.CompuConst(1)]])
        call = (E.CompuScale, item)
        label = type(item).__name__
    try:
        got = call[0](call[1])
    except REFUSALS:
        ctx.count("refused")
        ctx.case(f"bad/{what}/{label}")
        return
    raise Violation(f"accepted-{what}", f"{call[1]!r} gives {got!r}")


def run(ctx):
    for _, rng in ctx.loop("tables", 100, 0.25):
        ctx.guard(judge_table, ctx, rng)
    for _, rng in ctx.loop("rationals", 100, 0.2):
        ctx.guard(judge_rational, ctx, rng)
    for _, rng in ctx.loop("constraints", 100, 0.25):
        ctx.guard(judge_constraint, ctx, rng)
    for _, rng in ctx.loop("limits", 200, 0.2):
        ctx.guard(judge_limits, ctx, rng)
    for _, rng in ctx.loop("bad", 60, 0.08):
        ctx.guard(judge_bad, ctx, rng)

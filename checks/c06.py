"""C06: numbers and booleans survive exactly, in every notation"""
import math
import re
import struct
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
from arv import xio
from arv.harness import Violation
from arv.model import (SPECS, Gen, Int, Flt, Number, Bool, Limit, Values, ConstSpec, RationalSpec, Child, Children)
from arv.xmltree import Node, Num, IntNum, FltNum, Flag, diff, parse, serialize, first_tag_path, parse_num, num_equal, local

RULE = ("an element with numeric or boolean members holding boundary, huge, tiny, random-bit and special numbers is "
        "written (compared by exact value and notation) and read in every notation of the schema; distinct = distinct "
        "(shape, classes of numbers, notations)")
ASSUMPTIONS = ["floating point members are IEEE doubles: equality is equality of the double",
               "lexical forms: decimal, exponent, 0x, 0b, leading-zero octal (not for floating point members), INF, -INF, NaN"]
ASCII_SHARD = True
QUICK_S = 9.0
THOROUGH_S = 240.0
MIN_DISTINCT = 600

SCHEMA_NUMBER = re.compile(r"^(0[xX][0-9a-fA-F]+|0[bB][01]+|[+-]?\d+(\.\d+)?([eE][+-]?\d+)?|INF|-INF|NaN)$")
SCHEMA_INTEGER = re.compile(r"^([+-]?\d+|0[xX][0-9a-fA-F]+|0[bB][01]+)$")

FLOATS = [0.0, -0.0, 1.0, -1.0, 0.1, -0.1, 1e15, 1e16, 1e17, 123456789012345.6, 1e21, 1e22, 1e23, 1e27, 1e28, 1e29, 1e30,
          1e100, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, -5e-324, 1e-5, 1e-6,
          1e-7, 1.5e-7, 9007199254740993.0, 4503599627370497.5, 0.30000000000000004, 1 / 3, math.pi, 3.4028234663852886e38,
          1.17549435e-38, 100.0, 1000000.0, 12300.0, 1.10, float("inf"), float("-inf")]


def int_class(value):
    return f"int{value.bit_length() // 16}{'-' if value < 0 else '+'}"


def flt_class(value):
    if not math.isfinite(value):
        return str(value)
    return f"flt{math.frexp(value)[1] // 64}{'-' if value < 0 else '+'}{'i' if value == int(value) else 'f'}"


class NumGen(Gen):
    """Every number is hostile"""

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.seen = set()

    def integer(self):
        rng = self.rng
        pick = rng.randint(0, 5)
        if pick == 0:
            value = rng.choice([0, 1, -1, 7, 8, 10, -10, 100, 1000000])
        elif pick < 4:
            value = (1 << rng.choice([7, 8, 15, 16, 31, 32, 52, 53, 54, 63, 64, 65, 90, 127, 128, 200])) + rng.randint(-2, 2)
            value = -value if rng.random() < 0.4 else value
        elif rng.random() < 0.1:
            value = rng.getrandbits(rng.choice([300, 1023, 1024, 1025, 2000, 14000])) * rng.choice([1, 1, -1])
        else:
            value = rng.randint(-10**rng.randint(1, 40), 10**rng.randint(1, 40))
        self.seen.add(int_class(value))
        return value

    def flt(self):
        rng = self.rng
        pick = rng.randint(0, 5)
        if pick < 2:
            value = rng.choice(FLOATS)
        elif pick == 2:
            value = struct.unpack("<d", rng.randbytes(8))[0]
            if math.isnan(value):
                value = 1.5
        elif pick == 3:
            value = rng.randint(-10**6, 10**6) * 10.0 ** rng.randint(-12, 12)
        elif pick == 4:
            value = float(rng.randint(-2**70, 2**70))
        else:
            value = rng.uniform(-1, 1)
        self.seen.add(flt_class(value))
        return value


def has_numbers(spec, seen=None):
    return isinstance(spec, (ConstSpec, RationalSpec)) or any(
        isinstance(k, (Int, Flt, Number, Bool, Limit, Values)) for k in spec.members)


def check_notation(elem, node):
    """The written text of every number must be a number of the schema"""
    children = list(elem)
    nodes = [c for c in node.content if isinstance(c, Node)]
    for item in node.content:
        if isinstance(item, IntNum):
            if not SCHEMA_INTEGER.match(elem.text or ""):
                raise Violation(f"notation-{node.tag}", f"{elem.text!r} is no integer of the schema")
        elif isinstance(item, Num):
            if not SCHEMA_NUMBER.match(elem.text or ""):
                raise Violation(f"notation-{node.tag}", f"{elem.text!r} is no number of the schema")
            if item.spelling is not None and elem.text.lower() != item.spelling:
                raise Violation(f"spelling-{node.tag}", f"{item.spelling!r} requested, {elem.text!r} written")
    for child, want in zip(children, nodes):
        check_notation(child, want)


def respell(node, rng, used):
    """The same tree with other notations of the same numbers"""
    content = []
    for item in node.content:
        if isinstance(item, Node):
            content.append(respell(item, rng, used))
        elif isinstance(item, Num) and item.spelling is None:
            text = notation(item.value, type(item), rng, used)
            if num_equal(parse_num(text), item.value) is not True:
                raise AssertionError((text, item.value))
            content.append(Num(item.value, text))
        elif isinstance(item, Flag):
            text = rng.choice([item, {"true": "1", "false": "0"}[item]])
            used.add("bool" + text)
            content.append(text)
        else:
            content.append(item)
    return Node(node.tag, content, dict(node.attrs))


def notation(value, place, rng, used):
    integer = place is IntNum
    if isinstance(value, int):
        choices = ["dec", "plus"]
        if value >= 0 and place is not FltNum:
            choices += ["hex", "HEX", "0X", "bin", "0B", "oct"]
        if not integer and abs(value) < 2**53:
            choices += ["point", "exp"]
        pick = rng.choice(choices)
        used.add(pick)
        if pick == "dec":
            return str(value)
        if pick == "plus":
            return f"{value:+d}" if value else "0"
        if pick == "hex":
            return f"0x{value:x}"
        if pick == "HEX":
            return f"0x{value:X}"
        if pick == "0X":
            return f"0X{value:X}"
        if pick == "bin":
            return f"0b{value:b}"
        if pick == "0B":
            return f"0B{value:b}"
        if pick == "oct":
            return f"0{value:o}" if value else "0"
        if pick == "point":
            return f"{value}.0"
        return f"{float(value):.17e}"
    if math.isinf(value):
        used.add("INF" if value > 0 else "-INF")
        return "INF" if value > 0 else "-INF"
    pick = rng.choice(["repr", "e17", "E17", "plus", "long"])
    used.add("flt-" + pick)
    if pick == "repr":
        return repr(value)
    if pick == "e17":
        return f"{value:.17e}"
    if pick == "E17":
        return f"{value:.20E}"
    if pick == "plus":
        return ("+" if math.copysign(1, value) > 0 else "") + repr(value)
    text = f"{value:.340f}" if abs(value) < 1 else f"{value:.3f}"
    return text if float(text) == value else repr(value)


def judge(ctx, spec, inst, tag, g):
    node = inst.node(g.ver, tag)
    used = set()
    if spec.writable:
        text = xio.write_elem(inst.build(g.rng), spec, tag, g.ver)
        elem = parse(text)
        found = diff(node, elem)
        if found:
            raise Violation("written-" + first_tag_path(found), f"{spec.name} ({tag}): {found}",
                            inst.describe() + "\n" + text)
        check_notation(elem, node)
        ctx.count("written")
    if tag in spec.read_tags:
        other = respell(node, g.rng, used)
        text = serialize(other)
        obj, messages = xio.read_elem(text, spec, g.ver)
        try:
            check_values(inst, obj, used)
        except Violation as ex:
            ex.detail = text
            raise
        if messages:
            raise Violation("message", f"{spec.name}: {messages[:300]}", text)
        ctx.count("read")
        if spec.writable:
            # through the object that was read
            again = parse(xio.write_elem(obj, spec, tag, g.ver))
            found = diff(node, again)
            if found:
                raise Violation("rewritten-" + first_tag_path(found), f"{spec.name} ({tag}): {found}", text)
            ctx.count("rewritten")
    for item in used:
        ctx.count("notation " + item)
    ctx.case(f"{inst.signature()}/{sorted(g.seen)}/{sorted(used)}" if g.seen or used else None, inst.describe()[:600])


def check_values(inst, obj, used):
    inst.check(obj)


INVALID = ["abc", "12abc", "0x", "0xGG", "0b12", "1,5", "--5", "1 2", "5%", "1.2.3", "e5", "0x1.8", "x10", "true", "None"]
INVALID_BOOL = ["yes", "no", "2", "-1", "TRUE?", "tru", "on", "None", "10", "0.0", "truefalse", "True", "TRUE", "False", "FALSE", "t", "f", "01", "00"]


def judge_invalid(ctx, spec, kind, text_value, rng):
    """Text that is no number must not be turned into one (or into nothing) silently"""
    g = Gen(rng, density=0, depth=3, hostile=0)
    inst = spec.gen(g)
    inst.vals[kind.attr] = kind.gen(g)
    fix = spec.opts.get("fix")
    if fix:
        fix(inst, g)
    node = inst.node(51, spec.read_tags[0])
    hits = []

    def replace(n):
        for i, item in enumerate(n.content):
            if isinstance(item, Node):
                replace(item)
            elif isinstance(item, (Num, Flag)) and n.tag == kind.tag:
                hits.append(n.tag)
                n.content[i] = text_value
    replace(node)
    if not hits:
        return
    text = serialize(node)
    try:
        obj, messages = xio.read_elem(text, spec)
    except Exception:  # pylint: disable=W0718
        ctx.count("invalid_rejected")
        ctx.case(f"invalid/{spec.name}.{kind.attr}/{text_value}")
        return
    if not messages:
        raise Violation(f"invalid-{spec.name}.{kind.attr}", f"{kind.tag} with text {text_value!r} is read without any "
                        f"message as {getattr(obj, kind.attr, None)!r}", text)
    ctx.count("invalid_reported")
    ctx.case(f"invalid/{spec.name}.{kind.attr}/{text_value}")


def judge_wrapper(ctx, value, rng):
    """Numbers given as text, and requested notations"""
    vf = ar_enum.ValueFormat
    if isinstance(value, int):
        forms = [(str(value), None)]
        if value >= 0:
            forms += [(hex(value), vf.HEXADECIMAL), (bin(value), vf.BINARY), (f"0x{value:X}", vf.HEXADECIMAL), (f"0{value:o}", None)]
    else:
        forms = [(repr(value), None), (f"{value:.17e}", None)]
    for text, fmt in forms:
        item = ar_element.NumericalValue(text)
        if not num_equal(item.value, value):
            raise Violation("text-value", f"NumericalValue({text!r}) has value {item.value!r}")
        if fmt is not None and item.value_format is not fmt:
            raise Violation("text-format", f"NumericalValue({text!r}) has format {item.value_format}")
    for fmt in vf:
        if fmt in (vf.HEXADECIMAL, vf.BINARY) and not (isinstance(value, int) and value >= 0):
            continue
        if fmt is vf.SCIENTIFIC and isinstance(value, int) and value.bit_length() > 1023:
            continue  # beyond floating point numbers
        elem = ar_element.SwValues([ar_element.NumericalValue(value, fmt)])
        for tag in ("SW-VALUES-PHYS",):
            root = parse(xio.write_elem(elem, SPECS["SwValues"], tag))
            (child,) = list(root)
            text = child.text
            if local(child.tag) != "V" or not SCHEMA_NUMBER.match(text) or not num_equal(parse_num(text), value):
                raise Violation(f"format-{fmt.name}", f"{value!r} as {fmt.name} is written {text!r}")
            if fmt is vf.HEXADECIMAL and not text.lower().startswith("0x") or \
                    fmt is vf.BINARY and not text.lower().startswith("0b") or \
                    fmt is vf.SCIENTIFIC and math.isfinite(value) and "e" not in text.lower() or \
                    fmt is vf.DECIMAL and text.lower().startswith(("0x", "0b")):
                raise Violation(f"format-{fmt.name}", f"{value!r} as {fmt.name} is written {text!r}")
            ctx.count("formats")
            ctx.case(f"format/{fmt.name}/{int_class(value) if isinstance(value, int) else flt_class(value)}",
                     f"{value!r} as {fmt.name}: {text}")


def run(ctx):
    specs = [s for s in SPECS.values() if has_numbers(s)]
    outer = [s for s in SPECS.values() if s not in specs and s.read_tags and any(
        isinstance(k, (Child, Children)) and any(SPECS[c] in specs for c in k.classes) for k in s.members)]
    for _, spec in ctx.each("specs", specs):
        for i in range(8):
            g = NumGen(ctx.rng("spec", spec.name, i), full=i % 2 == 0, density=0.6, depth=2, hostile=0, breadth=3)
            inst, tag = xio.special_tag(spec, g, spec.tags)
            ctx.guard(judge, ctx, spec, inst, tag, g)
    places = [(s, k) for s in SPECS.values() if s.read_tags for k in s.members if isinstance(k, (Int, Flt, Number, Bool))]
    for _, (spec, kind) in ctx.each("invalid", places):
        for text in INVALID_BOOL if isinstance(kind, Bool) else INVALID:
            ctx.guard(judge_invalid, ctx, spec, kind, text, ctx.rng("invalid", spec.name, kind.attr))
    for _, rng in ctx.loop("formats", 300, 0.15):
        g = NumGen(rng)
        ctx.guard(judge_wrapper, ctx, g.number(), rng)
    for _, rng in ctx.loop("random", 400, 0.6):
        spec = rng.choice(specs if rng.random() < 0.8 else outer)
        g = NumGen(rng, density=rng.choice([0.3, 0.8]), depth=rng.choice([1, 2, 3]), ver=rng.choice(xio.VERSIONS),
                   hostile=0, breadth=3)
        inst, tag = xio.special_tag(spec, g, spec.tags)
        ctx.guard(judge, ctx, spec, inst, tag, g)

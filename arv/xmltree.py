"""
Expected XML as plain data, and the comparison of what the code wrote against it.

The expected tree is produced by the reference model (arv.model) alone; the actual text is parsed with
lxml. Nothing of autosar is involved here.
"""
import math
import re
from xml.sax.saxutils import escape, quoteattr
import lxml.etree as ET


class Num:
    """Numeric text: compared by value, not by spelling"""
    __slots__ = ("value", "spelling")

    def __init__(self, value, spelling=None):
        self.value = value
        self.spelling = spelling

    def text(self):
        return self.spelling if self.spelling is not None else num_text(self.value)


class IntNum(Num):
    """Text of a place that takes whole numbers only"""
    __slots__ = ()


class FltNum(Num):
    """Text of a place that takes decimal numbers only"""
    __slots__ = ()


class Flag(str):
    """Text of a boolean place"""


class EnumText(str):
    """Text of an enumeration value"""
    __slots__ = ("enum",)


class Node:
    """Element with attributes and mixed content (str | Num | Node)"""
    __slots__ = ("tag", "attrs", "content")

    def __init__(self, tag, content=None, attrs=None):
        self.tag = tag
        self.attrs = attrs or {}
        self.content = list(content) if content is not None else []

    def add(self, *items):
        self.content.extend(items)
        return self


# Elements with mixed content: white space between their children is text
MIXED = {"L-1", "L-2", "L-4", "L-5", "DISPLAY-NAME", "UNIT-DISPLAY-NAME", "PRM-UNIT", "E"}

_NUM_RE = re.compile(r"^[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?$")


def num_text(value) -> str:
    """Canonical spelling of a number in AUTOSAR XML"""
    if isinstance(value, bool):
        raise TypeError("bool is not a number")
    if isinstance(value, int):
        return str(value)
    if math.isnan(value):
        return "NaN"
    if math.isinf(value):
        return "INF" if value > 0 else "-INF"
    return repr(value)


def parse_num(text: str):
    """Independent reading of AR:NUMERICAL-VALUE; returns int/float or None when the text is not a number"""
    if text is None:
        return None
    if text in ("INF", "+INF"):
        return math.inf
    if text == "-INF":
        return -math.inf
    if text == "NaN":
        return math.nan
    match = re.match(r"^([+-]?)0[xX]([0-9a-fA-F]+)$", text)
    if match:
        return int(match.group(2), 16) * (-1 if match.group(1) == "-" else 1)
    match = re.match(r"^([+-]?)0[bB]([01]+)$", text)
    if match:
        return int(match.group(2), 2) * (-1 if match.group(1) == "-" else 1)
    if re.match(r"^0[0-7]+$", text):
        return int(text, 8)
    if re.match(r"^[+-]?\d+$", text):
        return int(text)
    if _NUM_RE.match(text):
        return float(text)
    return None


def num_equal(left, right) -> bool:
    if left is None or right is None:
        return left is right
    if isinstance(left, bool) or isinstance(right, bool):
        return left is right
    if isinstance(left, float) and isinstance(right, float) and math.isnan(left) and math.isnan(right):
        return True
    if isinstance(left, float) or isinstance(right, float):
        try:
            return float(left) == float(right)
        except OverflowError:
            return False
    return left == right


def serialize(node, indent=0, pretty=False) -> str:
    """Expected tree as XML text (used as input for the reader)"""
    attrs = "".join(f" {k}={quoteattr(v)}" for k, v in node.attrs.items())
    if not node.content:
        return f"<{node.tag}{attrs}/>"
    parts = []
    only_nodes = node.tag not in MIXED and all(isinstance(c, Node) for c in node.content)
    for item in node.content:
        if isinstance(item, Node):
            if pretty and only_nodes:
                parts.append("\n" + "  " * (indent + 1))
            parts.append(serialize(item, indent + 1, pretty and node.tag not in MIXED))
        elif isinstance(item, Num):
            parts.append(item.text())
        else:
            parts.append(escape(item).replace("\r", "&#13;"))
    if pretty and only_nodes:
        parts.append("\n" + "  " * indent)
    return f"<{node.tag}{attrs}>{''.join(parts)}</{node.tag}>"


def wrap_file(packages: list, schema_version=51, namespace=True, pretty=True) -> str:
    """Complete ARXML text around AR-PACKAGE nodes"""
    attrs = {}
    if namespace:
        names = {48: "AUTOSAR_00048.xsd", 49: "AUTOSAR_00049.xsd", 50: "AUTOSAR_00050.xsd", 51: "AUTOSAR_00051.xsd"}
        attrs = {"xmlns": "http://autosar.org/schema/r4.0",
                 "xmlns:xsi": "http://www.w3.org/2001/XMLSchema-instance",
                 "xsi:schemaLocation": f"http://autosar.org/schema/r4.0 {names[schema_version]}"}
    root = Node("AUTOSAR", attrs=attrs)
    if packages:
        root.add(Node("AR-PACKAGES", packages))
    return '<?xml version="1.0" encoding="utf-8"?>\n' + serialize(root, pretty=pretty) + "\n"


def parse(text):
    """Strict, independent XML parser. Returns lxml element."""
    if isinstance(text, str):
        text = text.encode("utf-8")
    return ET.fromstring(text, ET.XMLParser(resolve_entities=False, huge_tree=True))


def local(tag) -> str:
    return tag.rsplit("}", 1)[-1] if isinstance(tag, str) else str(tag)


def diff(node: Node, elem, path="") -> str | None:
    """First difference between the expected node and the actual lxml element, or None"""
    tag = local(elem.tag)
    where = f"{path}/{node.tag}"
    if tag != node.tag:
        return f"{where}: expected element {node.tag}, found {tag}"
    actual_attrs = {local(k): v for k, v in elem.attrib.items()}
    if actual_attrs != node.attrs:
        return f"{where}: attributes expected {node.attrs}, found {actual_attrs}"
    children = list(elem)
    expected_nodes = [c for c in node.content if isinstance(c, Node)]
    expected_texts = [c for c in node.content if not isinstance(c, Node)]
    names = [local(c.tag) for c in children]
    if names != [c.tag for c in expected_nodes]:
        want = [c.tag for c in expected_nodes]
        missing = [x for x in want if x not in names]
        extra = [x for x in names if x not in want]
        return f"{where}: children expected {want}, found {names} (missing {missing}, extra {extra})"
    if not expected_texts:
        texts = [elem.text] + [c.tail for c in children]
        if any(t is not None and (t if tag in MIXED else t.strip()) for t in texts):
            return f"{where}: unexpected text {texts}"
    else:
        # text runs between child elements
        runs = [[]]
        for item in node.content:
            if isinstance(item, Node):
                runs.append([])
            else:
                runs[-1].append(item)
        actual_runs = [elem.text or ""] + [c.tail or "" for c in children]
        for run, actual in zip(runs, actual_runs):
            if len(run) == 1 and isinstance(run[0], Num):
                if not num_equal(parse_num(actual), run[0].value):
                    return f"{where}: number expected {run[0].value!r}, found text {actual!r}"
            else:
                want = "".join(run)
                if want != actual:
                    return f"{where}: text expected {want!r}, found {actual!r}"
    for child_node, child in zip(expected_nodes, children):
        found = diff(child_node, child, where)
        if found:
            return found
    return None


def first_tag_path(message: str) -> str:
    """Stable key part of a diff message: the last two tags of the path"""
    head = message.split(":", 1)[0]
    parts = [p for p in head.split("/") if p]
    key = "/".join(parts[-2:])
    match = re.search(r"\(missing (\[.*?\]), extra (\[.*?\])\)", message)
    if match:
        names = sorted(set(re.findall(r"'([^']+)'", match.group(0))))
        key += ":" + ",".join(names[:3]) if names else ":order"
    elif ": attributes" in message:
        key += ":attr"
    elif "text expected" in message:
        key += ":text"
    elif "number expected" in message:
        key += ":number"
    return key

"""
Reference model of the supported ARXML subset.

Every supported complex type is described once, from the AUTOSAR schema's point of view: its XML tag, its
attributes and children in schema order, and the public Python attribute that carries each of them. From
that description follow, independently of the code under test,
  * random instances            ClassSpec.gen
  * the Python object           ClassSpec.build   (through the public constructors only)
  * the XML it must become      ClassSpec.node
  * what a reader must yield    ClassSpec.check
"""
import random
from arv import env  # noqa: F401
from arv.harness import Violation, HarnessError
from arv.xmltree import EnumText, Node, Num, IntNum, FltNum, Flag, num_equal
import autosar.xml.element as ar_element
import autosar.xml.enumeration as ar_enum
import autosar.xml.reference as ar_ref

SPECS: dict = {}

# Spelling of enumeration members in XML. Members follow NAME_WITH_UNDERSCORES -> NAME-WITH-UNDERSCORES,
# apart from these (taken from the AUTOSAR schema):
ENUM_TEXT = {
    ("ByteOrder", "BIG_ENDIAN"): "MOST-SIGNIFICANT-BYTE-FIRST",
    ("ByteOrder", "LITTLE_ENDIAN"): "MOST-SIGNIFICANT-BYTE-LAST",
    ("DisplayPresentation", "CONTINUOUS"): "PRESENTATION-CONTINUOUS",
    ("DisplayPresentation", "DISCRETE"): "PRESENTATION-DISCRETE",
    ("IdentifiableSubTypes", "E2E_PROFILE_COMPATIBILITY_PROPS"): "E-2-E-PROFILE-COMPATIBILITY-PROPS",
    ("ServerArgImplPolicy", "USE_ARRAY_BASED_TYPE"): "USE-ARRAY-BASE-TYPE",
    ("ServiceKind", "J1939_DCM"): "J-1939-DCM",
    ("ServiceKind", "J1939_REQUEST_MANAGER"): "J-1939-REQUEST-MANAGER",
    ("ServiceKind", "V2X_FACILITIES"): "V-2-X-FACILITIES",
    ("ServiceKind", "V2X_MANAGEMENT"): "V-2-X-MANAGEMENT",
}


def enum_text(enum_name: str, member: str) -> str:
    text = EnumText(ENUM_TEXT.get((enum_name, member), member.replace("_", "-")))
    text.enum = enum_name
    return text


def enum_members(enum_name: str) -> list:
    return [m.name for m in getattr(ar_enum, enum_name)]


# ---------------------------------------------------------------------------------------- text domains

_SPECIAL = ["<", ">", "&", "\"", "'", "&amp;", "]]>", "<!--", "-->", "<a/>", "%", "$", "{}", "\\", "/", "#", ";"]
_UNI = ["é", "Å", "ß", "Ω", "°", "€", "日本", "\u00a0", "😀", "\u0301", "µ"]
_WORDS = ["alpha", "Speed", "x", "0", "None", "true", "value", "12", "a b", "foo_bar", "NaN", "INF", "0x10", "-1",
          "A", "CDATA", "Ein Satz.", "1.0"]


PLAIN_NAMES = ["Type", "REF", "Value", "name", "AUTOSAR", "None", "x", "T", "Ref_", "parent", "elements", "CATEGORY", "E_1", "N_"]


class Gen:
    """Source of randomness and options for one generated case"""

    def __init__(self, rng: random.Random, density=0.5, depth=4, ver=51, hostile=0.3, full=False,
                 names=None, breadth=3, edge=None):
        self.rng = rng
        if edge == "some":
            edge = rng.choice([None] * 8 + ["zero", "one"])
        self.edge = edge  # None, "zero", "one" or "many": boundary values throughout
        self.density = density
        self.depth = depth
        self.ver = ver
        self.hostile = hostile
        self.full = full
        self.breadth = breadth
        self.names = names
        self.counter = 0
        self.last = None
        self.last_path = None
        self.last_text = None
        self.last_number = None
        self.long = False
        self.scientific = True
        self.twins = False  # numbers that are equal to others, but of another type or sign
        self.given = set()

    def ident(self) -> str:
        """A name that was not given before; some are almost the name before"""
        self.counter += 1
        name = None
        if self.last is not None and self.rng.random() < 0.15 and len(self.last) < 60:
            name = self.variant(self.last)
        while name is None or name in self.given:
            name = self.new_ident()
        self.last = name
        self.given.add(self.last)
        return self.last

    def variant(self, name):
        """The name with something before or after it, or in another case; None if that is the same"""
        what = self.rng.choice(["before", "after", "number", "upper", "lower", "swap"])
        if what == "before":
            return self.rng.choice("aZqB") + name if self.rng.random() < 0.5 else "Pre_" + name
        if what == "after":
            return f"{name}x{self.counter}"
        if what == "number":
            return f"{name}_{self.counter}"
        res = {"upper": name.upper(), "lower": name.lower(), "swap": name.swapcase()}[what]
        return None if res == name else res

    def new_ident(self) -> str:
        rng = self.rng
        first = rng.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
        kind = rng.random()
        if kind < 0.03:
            return rng.choice(PLAIN_NAMES)  # given once
        if kind < 0.06:
            return first + "".join(rng.choice("abcXYZ019_") for _ in range(rng.randint(30, 110)))
        if kind < 0.08:
            return f"{first}{self.counter}{rng.choice('abcXYZ_')}"
        rest = "".join(rng.choice("abcXYZ019_") for _ in range(rng.randint(0, 10)))
        return f"{first}{rest}{self.counter}"

    def path(self) -> str:
        """Path of something; once in a while the same as before"""
        if self.last_path is None or self.rng.random() > 0.05:
            self.last_path = "/" + "/".join(self.ident() for _ in range(self.rng.randint(1, 4)))
        return self.last_path

    def text(self, edges=False) -> str:
        """Free text. Never empty and no white space at the edges unless `edges`."""
        rng = self.rng
        if self.edge in ("zero", "one"):
            return "0" if self.edge == "zero" else "1"
        if self.last_text is not None and not edges and rng.random() < 0.1:
            return self.last_text
        self.last_text = self.new_text(edges)
        return self.last_text

    def new_text(self, edges):
        """Text that is made independently of others"""
        rng = self.rng
        if rng.random() < self.hostile:
            pool = _SPECIAL + _UNI + _WORDS
        else:
            pool = _WORDS
        parts = [rng.choice(pool) for _ in range(rng.randint(1, 4))]
        sep = rng.choice(["", " ", " "])
        res = sep.join(parts)
        if rng.random() < 0.06:
            return "".join(rng.choice("abcXYZ019") for _ in range(rng.choice([1, 2, 2, 3])))
        if rng.random() < 0.05:
            res = res + " " + "".join(rng.choice("abcdefgh ") for _ in range(200))
        if rng.random() < self.hostile * 0.2:
            res = res.replace(" ", "\n")
        res = res.strip()
        if edges and rng.random() < 0.3:
            res = rng.choice([" ", "  "]) + res if rng.random() < 0.5 else res + " "
        return res or "t"

    def text_or_empty(self) -> str:
        """Free text at a place where empty text is meaningful"""
        if self.edge == "zero":
            return ""
        return "" if self.hostile > 0 and self.rng.random() < 0.08 else self.text()

    def integer(self) -> int:
        rng = self.rng
        if self.edge in ("zero", "one"):
            return 0 if self.edge == "zero" else 1
        if self.twins:
            return rng.choice([0, 1, 2, 10**22, 2**64])
        pick = rng.randint(0, 5)
        if pick == 0:
            return rng.choice([0, 1, -1, 255, 65535, -128, 2**31 - 1, -2**31, 2**32, 2**63, -2**63, 2**64 - 1])
        if pick == 1:
            return rng.randint(-10**25, 10**25)
        return rng.randint(-1000, 1000)

    def pick_enum(self, enum_name: str) -> str:
        return self.rng.choice(enum_members(enum_name))

    def posint(self) -> int:
        return abs(self.integer())

    def flt(self) -> float:
        rng = self.rng
        if self.edge in ("zero", "one"):
            return 0.0 if self.edge == "zero" else 1.0
        if self.twins:
            return rng.choice([0.0, -0.0, 1.0, 2.0, 1e22, 2.0**64])
        pick = rng.randint(0, 7)
        if pick == 0:
            return rng.choice([0.0, 1.0, -1.0, 0.1, 1e-9, 1e22, 1e23, 3.4e38, 1.7976931348623157e308, 5e-324, 1e300,
                               123456789012345680.0, 0.30000000000000004, 1e-300, -2.5e-7, 1e28, 1e29])
        if pick == 1:
            return rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 300)
        if pick == 2:
            return float(rng.randint(-10**6, 10**6))
        if pick == 3 and rng.random() < 0.3:
            return rng.choice([float("inf"), float("-inf")])
        return rng.choice([0.5, 0.25, 0.001, 10.5, -3.75]) * rng.randint(1, 5000)

    def number(self):
        """Any number; once in a while the same as before"""
        if self.last_number is None or self.edge or self.rng.random() > 0.06:
            self.last_number = self.flt() if self.rng.random() < 0.5 else self.integer()
        return self.last_number

    def boolean(self) -> bool:
        if self.edge in ("zero", "one"):
            return self.edge == "one"
        return self.rng.random() < 0.5

    def want(self) -> bool:
        return self.full or self.rng.random() < self.density

    def some(self, low=1) -> int:
        if self.edge == "many":
            first, self.long = not self.long, True
            return max(low, 9 if first else 3)
        if self.edge:
            return max(low, 1)
        if not self.long and not self.full and self.rng.random() < 0.01:
            self.long = True  # once in a while one long list
            return max(low, self.rng.randint(10, 14))
        return self.rng.randint(low, max(low, self.breadth))

    def deeper(self):
        self.depth -= 1

    def back(self):
        self.depth += 1


# --------------------------------------------------------------------------------------------- kinds

def fail(path, what, actual=None):
    raise Violation(key_of(path), f"{path}: {what}", actual)


def key_of(path: str) -> str:
    """`Class.attr` of the innermost step"""
    return path.rsplit(">", 1)[-1]


class Kind:
    """One member (attribute or child) of a complex type"""
    xml_attr = False

    def __init__(self, attr, tag, **opts):
        self.attr = attr
        self.tag = tag
        self.arg = opts.get("arg", attr)        # constructor argument
        self.opts = opts
        self.since = opts.get("since", 0)       # first schema version that has it

    def usable(self, g: Gen) -> bool:
        return g.ver >= self.since

    def absent(self, actual, path):
        if actual is not None:
            fail(path, f"expected nothing, got {actual!r}")

    def nodes(self, v, ver):
        return [Node(self.tag, [self.leaf(v)])]

    def leaf(self, v):
        return v

    def build(self, v, rng):  # pylint: disable=W0613
        return v

    def check(self, actual, v, path):
        if type(actual) is not type(v) or actual != v:
            fail(path, f"expected {v!r}, got {actual!r}")


class Text(Kind):
    """Character data"""

    def gen(self, g):
        dom = self.opts.get("dom")
        if dom is None:
            return g.text()
        if callable(dom):
            return dom(g)
        return g.rng.choice(dom)


class Name(Kind):
    """SHORT-NAME and other identifiers"""

    def gen(self, g):
        return g.ident()


class Int(Kind):
    def gen(self, g):
        return g.posint() if self.opts.get("pos", True) else g.integer()

    def leaf(self, v):
        return IntNum(v)


class Number(Kind):
    """int | float"""

    def gen(self, g):
        return g.number()

    def leaf(self, v):
        return Num(v)

    def check(self, actual, v, path):
        if isinstance(actual, bool) or not isinstance(actual, (int, float)) or not num_equal(actual, v):
            fail(path, f"expected number {v!r}, got {actual!r}")


class Flt(Number):
    """float"""

    def gen(self, g):
        return g.flt() if g.rng.random() < 0.8 else g.rng.randint(-10**6, 10**6)

    def leaf(self, v):
        return FltNum(v)


class Bool(Kind):
    def gen(self, g):
        return g.boolean()

    def leaf(self, v):
        return Flag("true" if v else "false")


class Enum(Kind):
    """Enumeration; values are member names"""

    def __init__(self, attr, tag, enum_name, **opts):
        super().__init__(attr, tag, **opts)
        self.enum_name = enum_name

    def gen(self, g):
        return g.pick_enum(self.enum_name)

    def build(self, v, rng):
        return getattr(ar_enum, self.enum_name)[v]

    def leaf(self, v):
        return enum_text(self.enum_name, v)

    def check(self, actual, v, path):
        if actual is not getattr(ar_enum, self.enum_name)[v]:
            fail(path, f"expected {self.enum_name}.{v}, got {actual!r}")


class Attr:
    """Mixin: value is an XML attribute"""
    xml_attr = True

    def attr_item(self, v):
        leaf = self.leaf(v)
        return (self.tag, leaf.text() if isinstance(leaf, Num) else leaf)


class TextA(Attr, Text):
    def gen(self, g):
        dom = self.opts.get("dom")
        return g.text_or_empty() if g.rng.random() < 0.1 or dom is None else dom(g) if callable(dom) else g.rng.choice(dom)


class EnumA(Attr, Enum):
    pass


REF_DESTS = {
    "SwBaseTypeRef": ["SW_BASE_TYPE"],
    "PackageRef": ["AR_PACKAGE"],
    "CompuMethodRef": ["COMPU_METHOD"],
    "FunctionPtrSignatureRef": ["BSW_MODULE_ENTRY"],
    "ImplementationDataTypeRef": ["IMPLEMENTATION_DATA_TYPE"],
    "SwAddrMethodRef": ["SW_ADDR_METHOD"],
    "DataConstraintRef": ["DATA_CONSTR"],
    "PhysicalDimensionRef": ["PHYSICAL_DIMENSION"],
    "UnitRef": ["UNIT"],
    "IndexDataTypeRef": ["APPLICATION_PRIMITIVE_DATA_TYPE"],
    "ApplicationDataTypeRef": ["APPLICATION_ARRAY_DATA_TYPE", "APPLICATION_COMPOSITE_DATA_TYPE",
                               "APPLICATION_DATA_TYPE", "APPLICATION_DEFERRED_DATA_TYPE",
                               "APPLICATION_PRIMITIVE_DATA_TYPE", "APPLICATION_RECORD_DATA_TYPE"],
    "ApplicationCompositeElementDataPrototypeRef": ["APPLICATION_ARRAY_ELEMENT",
                                                    "APPLICATION_COMPOSITE_ELEMENT_DATA_PROTOTYPE",
                                                    "APPLICATION_RECORD_ELEMENT"],
    "AutosarDataTypeRef": ["ABSTRACT_IMPLEMENTATION_DATA_TYPE", "APPLICATION_ARRAY_DATA_TYPE",
                           "APPLICATION_COMPOSITE_DATA_TYPE", "APPLICATION_DATA_TYPE",
                           "APPLICATION_DEFERRED_DATA_TYPE", "APPLICATION_PRIMITIVE_DATA_TYPE",
                           "APPLICATION_RECORD_DATA_TYPE", "AUTOSAR_DATA_TYPE", "IMPLEMENTATION_DATA_TYPE"],
    "ConstantRef": ["CONSTANT_SPECIFICATION"],
    "VariableDataPrototypeRef": ["VARIABLE_DATA_PROTOTYPE"],
    "ParameterDataPrototypeRef": ["PARAMETER_DATA_PROTOTYPE"],
    "ApplicationErrorRef": ["APPLICATION_ERROR"],
    "ModeDeclarationRef": ["MODE_DECLARATION"],
    "ModeDeclarationGroupRef": ["MODE_DECLARATION_GROUP"],
    "ModeDeclarationGroupPrototypeRef": ["MODE_DECLARATION_GROUP_PROTOTYPE"],
    "AutosarDataPrototypeRef": ["ARGUMENT_DATA_PROTOTYPE", "PARAMETER_DATA_PROTOTYPE", "VARIABLE_DATA_PROTOTYPE"],
    "E2EProfileCompatibilityPropsRef": ["E2E_PROFILE_COMPATIBILITY_PROPS"],
    "ClientServerOperationRef": ["CLIENT_SERVER_OPERATION"],
    "PortPrototypeRef": ["ABSTRACT_PROVIDED_PORT_PROTOTYPE", "ABSTRACT_REQUIRED_PORT_PROTOTYPE",
                         "PR_PORT_PROTOTYPE", "P_PORT_PROTOTYPE", "R_PORT_PROTOTYPE"],
    "AbstractImplementationDataTypeElementRef": ["ABSTRACT_IMPLEMENTATION_DATA_TYPE_ELEMENT",
                                                 "IMPLEMENTATION_DATA_TYPE_ELEMENT"],
    "DataPrototypeRef": ["APPLICATION_ARRAY_ELEMENT", "APPLICATION_COMPOSITE_ELEMENT_DATA_PROTOTYPE",
                         "APPLICATION_RECORD_ELEMENT", "ARGUMENT_DATA_PROTOTYPE", "AUTOSAR_DATA_PROTOTYPE",
                         "DATA_PROTOTYPE", "PARAMETER_DATA_PROTOTYPE", "VARIABLE_DATA_PROTOTYPE"],
    "PortInterfaceRef": ["CLIENT_SERVER_INTERFACE", "MODE_SWITCH_INTERFACE", "NV_DATA_INTERFACE",
                         "PARAMETER_INTERFACE", "SENDER_RECEIVER_INTERFACE"],
    "SwComponentTypeRef": ["APPLICATION_SW_COMPONENT_TYPE", "COMPOSITION_SW_COMPONENT_TYPE"],
    "SwComponentPrototypeRef": ["SW_COMPONENT_PROTOTYPE"],
    "SwcInternalBehaviorRef": ["SWC_INTERNAL_BEHAVIOR"],
    "SwcImplementationRef": ["SWC_IMPLEMENTATION"],
    "ExclusiveAreaRef": ["EXCLUSIVE_AREA"],
    "ExclusiveAreaNestingOrderRef": ["EXCLUSIVE_AREA_NESTING_ORDER"],
    "AbstractRequiredPortPrototypeRef": ["ABSTRACT_REQUIRED_PORT_PROTOTYPE", "PR_PORT_PROTOTYPE",
                                         "R_PORT_PROTOTYPE"],
    "AbstractProvidedPortPrototypeRef": ["ABSTRACT_PROVIDED_PORT_PROTOTYPE", "PR_PORT_PROTOTYPE",
                                         "P_PORT_PROTOTYPE"],
    "RunnableEntityRef": ["RUNNABLE_ENTITY"],
    "VariableAccessRef": ["VARIABLE_ACCESS"],
    "ModeSwitchPointRef": ["MODE_SWITCH_POINT"],
    "AsynchronousServerCallPointRef": ["ASYNCHRONOUS_SERVER_CALL_POINT"],
    "AsynchronousServerCallResultPointRef": ["ASYNCHRONOUS_SERVER_CALL_RESULT_POINT"],
    "TriggerRef": ["TRIGGER"],
    "InternalTriggeringPointRef": ["INTERNAL_TRIGGERING_POINT"],
    "RteEventRef": ["ASYNCHRONOUS_SERVER_CALL_RETURNS_EVENT", "BACKGROUND_EVENT", "DATA_RECEIVED_EVENT",
                    "DATA_RECEIVE_ERROR_EVENT", "DATA_SEND_COMPLETED_EVENT", "DATA_WRITE_COMPLETED_EVENT",
                    "EXTERNAL_TRIGGER_OCCURRED_EVENT", "INIT_EVENT", "INTERNAL_TRIGGER_OCCURRED_EVENT",
                    "MODE_SWITCHED_ACK_EVENT", "OPERATION_INVOKED_EVENT", "SWC_MODE_MANAGER_ERROR_EVENT",
                    "SWC_MODE_SWITCH_EVENT", "TIMING_EVENT", "TRANSFORMER_HARD_ERROR_EVENT"],
    "DataTypeMappingSetRef": ["DATA_TYPE_MAPPING_SET"],
    "ArgumentDataPrototypeRef": ["ARGUMENT_DATA_PROTOTYPE"],
    "ApplicationArrayElementRef": ["APPLICATION_ARRAY_ELEMENT"],
    "ApplicationRecordElementRef": ["APPLICATION_RECORD_ELEMENT"],
}


def make_ref(class_name, value):
    path, dest = value
    return getattr(ar_ref, class_name)(path, ar_enum.IdentifiableSubTypes[dest])


def ref_node(tag, value):
    path, dest = value
    return Node(tag, [path], {"DEST": enum_text("IdentifiableSubTypes", dest)})


def check_ref(actual, class_name, value, path):
    want_path, dest = value
    if type(actual) is not getattr(ar_ref, class_name):
        fail(path, f"expected a {class_name}, got {actual!r}")
    if actual.value != want_path or str(actual) != want_path:
        fail(path, f"expected reference {want_path!r}, got {actual.value!r}")
    if actual.dest is not ar_enum.IdentifiableSubTypes[dest]:
        fail(path, f"expected reference destination {dest}, got {actual.dest!r}")


class Ref(Kind):
    """Typed reference; values are (path, dest member name)"""

    def __init__(self, attr, tag, ref_class, dests=None, **opts):
        super().__init__(attr, tag, **opts)
        self.ref_class = ref_class
        self.dests = dests or REF_DESTS[ref_class]

    def gen(self, g):
        if self.opts.get("fresh"):
            g.last_path = None  # not the same as another one
        return (g.path(), g.rng.choice(self.dests))

    def build(self, v, rng):
        if (rng is not None and len(REF_DESTS[self.ref_class]) == 1 and self.opts.get("str_ok", False)
                and rng.random() < 0.3):
            return v[0]
        return make_ref(self.ref_class, v)

    def nodes(self, v, ver):
        return [ref_node(self.tag, v)]

    def check(self, actual, v, path):
        check_ref(actual, self.ref_class, v, path)


class Listed(Kind):
    """Helper for list-valued kinds"""

    def absent(self, actual, path):
        if actual is None and self.opts.get("none_ok"):
            return
        if not isinstance(actual, (list, tuple)) or len(actual) != 0:
            fail(path, f"expected an empty list, got {actual!r}")

    def length(self, actual, v, path):
        if not isinstance(actual, (list, tuple)) or len(actual) != len(v):
            fail(path, f"expected {len(v)} items, got {actual!r}")


class Refs(Listed):
    """Wrapper element with references"""

    def __init__(self, attr, wrapper, tag, ref_class, **opts):
        super().__init__(attr, tag, **opts)
        self.wrapper = wrapper
        self.ref_class = ref_class

    def gen(self, g):
        return [(g.path(), g.rng.choice(REF_DESTS[self.ref_class])) for _ in range(g.some())]

    def build(self, v, rng):
        items = [make_ref(self.ref_class, x) for x in v]
        if len(items) == 1 and rng is not None and rng.random() < 0.5 and self.opts.get("single", True):
            return items[0]
        return items

    def nodes(self, v, ver):
        items = [ref_node(self.tag, x) for x in v]
        return items if self.wrapper is None else [Node(self.wrapper, items)]

    def check(self, actual, v, path):
        self.length(actual, v, path)
        for i, (item, want) in enumerate(zip(actual, v)):
            check_ref(item, self.ref_class, want, f"{path}")


class Child(Kind):
    """Nested complex type under a given tag (tag=None: the type's own tag)"""

    def __init__(self, attr, tag, classes, **opts):
        super().__init__(attr, tag, **opts)
        self.classes = classes if isinstance(classes, (list, tuple)) else [classes]
        self.wrapper = opts.get("wrapper")

    def usable(self, g):
        return super().usable(g) and g.depth > 0

    def gen(self, g):
        g.deeper()
        res = SPECS[g.rng.choice(self.classes)].gen(g)
        g.back()
        return res

    def build(self, v, rng):
        return v.build(rng)

    def nodes(self, v, ver):
        node = v.node(ver, self.tag)
        return [Node(self.wrapper, [node])] if self.wrapper else [node]

    def check(self, actual, v, path):
        v.check(actual, path)


class Children(Listed):
    """Wrapper element with nested complex types under their own tags"""

    def __init__(self, attr, wrapper, classes, **opts):
        super().__init__(attr, opts.pop("tag", None), **opts)
        self.wrapper = wrapper
        self.classes = classes if isinstance(classes, (list, tuple)) else [classes]

    def usable(self, g):
        return super().usable(g) and g.depth > 0

    def gen(self, g):
        g.deeper()
        res = [SPECS[g.rng.choice(self.classes)].gen(g) for _ in range(g.some())]
        g.back()
        return res

    def build(self, v, rng):
        items = [x.build(rng) for x in v]
        if len(items) == 1 and rng is not None and self.opts.get("single", True) and rng.random() < 0.5:
            return items[0]
        return items

    def nodes(self, v, ver):
        items = [x.node(ver, self.tag) for x in v]
        return items if self.wrapper is None else [Node(self.wrapper, items)]

    def check(self, actual, v, path):
        self.length(actual, v, path)
        for item, want in zip(actual, v):
            want.check(item, path)


VALUE_SPECS = ["TextValueSpecification", "NumericalValueSpecification", "NotAvailableValueSpecification",
               "ArrayValueSpecification", "RecordValueSpecification", "ApplicationValueSpecification",
               "ConstantReference"]


class Value(Child):
    """A value specification of any kind inside a wrapper element"""

    def __init__(self, attr, wrapper, **opts):
        super().__init__(attr, None, VALUE_SPECS, wrapper=wrapper, **opts)


class PropsKind(Child):
    """SW-DATA-DEF-PROPS: constructors take the container or a single variant"""

    def __init__(self, attr, tag, **opts):
        super().__init__(attr, tag, "SwDataDefProps", **opts)

    def build(self, v, rng):
        variants = v.vals.get("variants", [])
        if rng is not None and len(variants) == 1 and self.opts.get("sugar", True) and rng.random() < 0.5:
            return variants[0].build(rng)
        return v.build(rng)


# ------------------------------------------------------------------------------------------ instances

class Inst:
    """Instance of a complex type: what a user would have asked for"""
    __slots__ = ("spec", "vals")

    def __init__(self, spec, vals):
        self.spec = spec
        self.vals = vals

    def build(self, rng=None):
        return self.spec.build(self, rng)

    def node(self, ver, tag=None):
        return self.spec.node(self, ver, tag)

    def check(self, actual, path=""):
        self.spec.check(self, actual, path)

    @property
    def name(self):
        return self.vals.get("name")

    def describe(self) -> str:
        def show(v):
            if isinstance(v, Inst):
                return v.describe()
            if isinstance(v, list):
                return "[" + ", ".join(show(x) for x in v) + "]"
            return repr(v)
        return f"{self.spec.name}(" + ", ".join(f"{k}={show(v)}" for k, v in self.vals.items()) + ")"

    def signature(self) -> str:
        """Shape: class and members present, recursively (values ignored apart from enum members)"""
        parts = []
        for kind in self.spec.members:
            if kind.attr in self.vals:
                v = self.vals[kind.attr]
                if isinstance(v, Inst):
                    parts.append(f"{kind.attr}={v.signature()}")
                elif isinstance(v, list):
                    inner = "|".join(x.signature() if isinstance(x, Inst) else "*" for x in v)
                    parts.append(f"{kind.attr}=[{inner}]")
                elif isinstance(kind, Enum):
                    parts.append(f"{kind.attr}={v}")
                else:
                    parts.append(kind.attr)
        return f"{self.spec.name}({','.join(parts)})"


# Element names that are only supported inside their parent
NO_STANDALONE_READER = {
    "AR-PACKAGE", "AUTOSAR-VARIABLE", "AUTOSAR-VARIABLE-IN-IMPL-DATATYPE", "CHANGE", "COMPU-CONST",
    "COMPU-DEFAULT-VALUE", "COMPU-INVERSE-VALUE", "COMPU-PHYS-TO-INTERNAL", "DEF", "EVENT-SYMBOL-PROPS", "FILTER",
    "INTRODUCTION", "ITEM-LABEL", "L-2", "MODE-GROUP", "MODE-IREF", "P-PORT-IN-COMPOSITION-INSTANCE-REF",
    "R-PORT-IN-COMPOSITION-INSTANCE-REF", "PARAMETER-INSTANCE", "PRM-UNIT", "REASON", "REMARK", "REPLACE-WITH",
    "UNIT-DISPLAY-NAME", "USED-DATA-ELEMENT", "VALUE", "VARIABLE-INSTANCE"}


class ClassSpec:
    """Description of a complex type"""

    def __init__(self, name, tag, members, **opts):
        self.name = name
        self.tag = tag if isinstance(tag, str) else tag[0]
        self.tags = [tag] if isinstance(tag, str) else list(tag)
        self.takes_tag = opts.get("takes_tag", not isinstance(tag, str))
        self.members = members
        self.required = set(opts.get("required", ()))
        self.opts = opts
        self.read_name = opts.get("read_name")
        self.readable = opts.get("readable", True)
        self.writable = opts.get("writable", True)
        self.collectable = opts.get("collectable", False)
        self.read_tags = [t for t in self.tags if self.readable and t not in NO_STANDALONE_READER
                          and (name, t) != ("ArVariableInImplementationDataInstanceRef",
                                            "IMPLEMENTATION-DATA-TYPE-ELEMENT")]
        SPECS[name] = self

    def gen(self, g: Gen) -> Inst:
        vals = {}
        for kind in self.members:
            if kind.attr in self.required or (kind.usable(g) and g.want()):
                vals[kind.attr] = kind.gen(g)
        inst = Inst(self, vals)
        fix = self.opts.get("fix")
        if fix:
            fix(inst, g)
        return inst

    def build(self, inst, rng):
        kwargs = {}
        for kind in self.members:
            if kind.attr in inst.vals:
                kwargs[kind.arg] = kind.build(inst.vals[kind.attr], rng)
        return getattr(ar_element, self.name)(**kwargs)

    def node(self, inst, ver, tag=None):
        node = Node(tag or self.tag)
        for kind in self.members:
            if kind.attr in inst.vals:
                if kind.xml_attr:
                    key, text = kind.attr_item(inst.vals[kind.attr])
                    node.attrs[key] = text
                else:
                    node.add(*kind.nodes(inst.vals[kind.attr], ver))
        return node

    def check(self, inst, actual, path=""):
        if type(actual) is not getattr(ar_element, self.name):
            fail(path or f">{self.name}", f"expected a {self.name}, got {actual!r}")
        for kind in self.members:
            where = f"{path}>{self.name}.{kind.attr}"
            value = getattr(actual, kind.attr)
            if kind.attr in inst.vals:
                kind.check(value, inst.vals[kind.attr], where)
            else:
                kind.absent(value, where)


# ------------------------------------------------------------------------------- documentation elements

class TextElem(ClassSpec):
    """Elements whose content is the text (IE, SUB, SUP, TT, E)"""

    def __init__(self, name, tag, attrs=(), text_attr="text", **opts):
        super().__init__(name, tag, list(attrs), takes_tag=False, **opts)
        self.text_attr = text_attr

    def gen(self, g):
        inst = super().gen(g)
        inst.vals["#text"] = g.text_or_empty()
        return inst

    def build(self, inst, rng):
        kwargs = {k.arg: k.build(inst.vals[k.attr], rng) for k in self.members if k.attr in inst.vals}
        kwargs[self.text_attr] = inst.vals["#text"]
        return getattr(ar_element, self.name)(**kwargs)

    def node(self, inst, ver, tag=None):
        node = super().node(inst, ver, tag)
        return node.add(inst.vals["#text"])

    def check(self, inst, actual, path=""):
        super().check(inst, actual, path)
        got = getattr(actual, self.text_attr)
        want = [inst.vals["#text"]] if self.text_attr == "elements" else inst.vals["#text"]
        if got != want:
            fail(f"{path}>{self.name}.{self.text_attr}", f"expected {want!r}, got {got!r}")


class BreakSpec(ClassSpec):
    def __init__(self):
        super().__init__("Break", "BR", [], takes_tag=False)


class MixedElem(ClassSpec):
    """Language specific mixed content"""

    def __init__(self, name, tag, parts, language=True, **opts):
        super().__init__(name, tag, [EnumA("language", "L", "Language")] if language else [],
                         required=["language"] if language else [], **opts)
        self.parts = parts

    def gen(self, g):
        inst = super().gen(g)
        parts = []
        for _ in range(g.some()):
            if self.parts and g.rng.random() < 0.6:
                parts.append(SPECS[g.rng.choice(self.parts)].gen(g))
            elif not parts or not isinstance(parts[-1], str):
                parts.append(g.text(edges=len(self.parts) > 0 and g.rng.random() < 0.5))
        if all(isinstance(p, str) for p in parts):
            parts = [g.text()]
        elif isinstance(parts[0], str) and g.rng.random() < 0.8:
            parts[0] = parts[0].lstrip() or "x"
        inst.vals["#parts"] = parts
        return inst

    def build(self, inst, rng):
        parts = [p if isinstance(p, str) else p.build(rng) for p in inst.vals["#parts"]]
        if len(parts) == 1 and isinstance(parts[0], str) and rng is not None and rng.random() < 0.5:
            if self.name != "SingleLanguageUnitNames":
                parts = parts[0]
        cls = getattr(ar_element, self.name)
        if "language" in inst.vals:
            return cls(ar_enum.Language[inst.vals["language"]], parts)
        return cls(parts)

    def node(self, inst, ver, tag=None):
        node = super().node(inst, ver, tag)
        return node.add(*[p if isinstance(p, str) else p.node(ver) for p in inst.vals["#parts"]])

    def check(self, inst, actual, path=""):
        super().check(inst, actual, path)
        where = f"{path}>{self.name}.parts"
        want = inst.vals["#parts"]
        if len(actual.parts) != len(want):
            fail(where, f"expected {len(want)} parts, got {actual.parts!r}")
        for got, exp in zip(actual.parts, want):
            if isinstance(exp, str):
                if got != exp:
                    fail(where, f"expected text {exp!r}, got {got!r}")
            else:
                exp.check(got, where)


class MultiElem(ClassSpec):
    """Container with language specific children"""

    def __init__(self, name, tags, child, attrs=(), **opts):
        super().__init__(name, tags, list(attrs) + [Children("elements", None, child)], required=["elements"], **opts)
        self.child = child

    def gen(self, g):
        saved, g.depth = g.depth, max(g.depth, 2)
        inst = super().gen(g)
        g.depth = saved
        return inst

    def build(self, inst, rng):
        kwargs = {k.arg: k.build(inst.vals[k.attr], rng) for k in self.members[:-1] if k.attr in inst.vals}
        children = [x.build(rng) for x in inst.vals["elements"]]
        cls = getattr(ar_element, self.name)
        first = children[0]
        parts = inst.vals["elements"][0].vals["#parts"]
        if rng is not None and rng.random() < 0.3 and len(parts) == 1 and isinstance(parts[0], str):
            first = (ar_enum.Language[inst.vals["elements"][0].vals["language"]], parts[0])
        if rng is not None and rng.random() < 0.3:
            res = cls(**kwargs)
            rest = children
        else:
            res = cls(first, **kwargs)
            rest = children[1:]
        for child in rest:
            res.append(child)
        return res


TextElem("EmphasisText", "E", [TextA("color", "COLOR", dom=lambda g: g.rng.choice(["red", "#ff0000"]) if g.rng.random() >= g.hostile else g.text()),
                               EnumA("font", "FONT", "EmphasisFont"),
                               EnumA("type", "TYPE", "EmphasisType")], text_attr="elements")
TextElem("IndexEntry", "IE")
TextElem("TechnicalTerm", "TT", [TextA("tex_render", "TEX-RENDER"), TextA("type", "TYPE")])
TextElem("Subscript", "SUB")
TextElem("Superscript", "SUP")
BreakSpec()

MixedElem("LanguageLongName", "L-4", ["TechnicalTerm", "EmphasisText", "Subscript", "Superscript", "IndexEntry"],
          takes_tag=False)
MixedElem("LanguageOverviewParagraph", "L-2",
          ["TechnicalTerm", "EmphasisText", "Subscript", "Superscript", "IndexEntry", "Break"],
          takes_tag=False, writable=False)
MixedElem("LanguageParagraph", "L-1",
          ["Break", "EmphasisText", "IndexEntry", "Subscript", "Superscript", "TechnicalTerm"], takes_tag=False)
MixedElem("LanguageVerbatim", "L-5", ["Break", "EmphasisText", "TechnicalTerm"], takes_tag=False)
MixedElem("SingleLanguageUnitNames", ["DISPLAY-NAME", "UNIT-DISPLAY-NAME", "PRM-UNIT"],
          ["Subscript", "Superscript"], language=False)

MultiElem("MultilanguageLongName", ["LONG-NAME", "LABEL"], "LanguageLongName")
MultiElem("MultiLanguageOverviewParagraph", ["DESC", "ITEM-LABEL", "CHANGE", "REASON"], "LanguageOverviewParagraph")

SELECTABLE = [TextA("semantic_information", "SI"), TextA("view", "VIEW")]
PAGINATEABLE = SELECTABLE + [EnumA("page_break", "BREAK", "PageBreak"),
                             EnumA("keep_with_previous", "KEEP-WITH-PREVIOUS", "KeepWithPrevious")]
MultiElem("MultiLanguageParagraph", "P", "LanguageParagraph", PAGINATEABLE + [TextA("help_entry", "HELP-ENTRY")],
          takes_tag=False)
MultiElem("MultiLanguageVerbatim", "VERBATIM", "LanguageVerbatim",
          PAGINATEABLE + [TextA("allow_break", "ALLOW-BREAK"), EnumA("float", "FLOAT", "Float"),
                          EnumA("page_wide", "PGWIDE", "PageWide"), TextA("help_entry", "HELP-ENTRY")],
          takes_tag=False)


class DocBlock(ClassSpec):
    """DOCUMENTATION-BLOCK"""

    def __init__(self):
        super().__init__("DocumentationBlock", ["INTRODUCTION", "DEF", "VALUE", "ANNOTATION-TEXT", "REMARK"],
                         [Children("elements", None, ["MultiLanguageParagraph", "MultiLanguageVerbatim"])],
                         required=["elements"])

    def gen(self, g):
        saved, g.depth = g.depth, max(g.depth, 3)
        inst = super().gen(g)
        g.depth = saved
        return inst

    def build(self, inst, rng):
        items = [x.build(rng) for x in inst.vals["elements"]]
        if len(items) == 1 and rng is not None and rng.random() < 0.5:
            return ar_element.DocumentationBlock(items[0])
        return ar_element.DocumentationBlock(items)


DocBlock()
ClassSpec("Annotation", "ANNOTATION", [
    Child("label", "LABEL", "MultilanguageLongName"),
    Text("origin", "ANNOTATION-ORIGIN"),
    Child("text", "ANNOTATION-TEXT", "DocumentationBlock")])


# --------------------------------------------------------------------------------------- shared groups

class Desc(Child):
    """DESC accepts plain text and (language, text) as well"""

    def __init__(self):
        super().__init__("desc", "DESC", "MultiLanguageOverviewParagraph")

    def build(self, v, rng):
        if rng is not None and len(v.vals["elements"]) == 1:
            item = v.vals["elements"][0]
            parts = item.vals["#parts"]
            if len(parts) == 1 and isinstance(parts[0], str) and rng.random() < 0.6:
                if item.vals["language"] == "FOR_ALL" and rng.random() < 0.5:
                    return parts[0]
                return (ar_enum.Language[item.vals["language"]], parts[0])
        return v.build(rng)


def referrable():
    return [Name("name", "SHORT-NAME")]


def multilanguage():
    return referrable() + [Child("long_name", "LONG-NAME", "MultilanguageLongName")]


def Rare(base, *args, **opts):
    """Member that is generated less often than others (keeps the instances small)"""
    kind = base(*args, **opts)
    inner = kind.usable
    kind.usable = lambda g: inner(g) and (g.full or g.rng.random() < 0.15)
    return kind


def uuid_text(g):
    return "".join(g.rng.choice("0123456789abcdef-") for _ in range(20)) + (g.rng.choice(["", "&", "<"])
                                                                           if g.rng.random() < g.hostile else "")


def identifiable():
    return [TextA("uuid", "UUID", dom=uuid_text)] + multilanguage() + [
        Desc(), Text("category", "CATEGORY"), Rare(Child, "introduction", "INTRODUCTION", "DocumentationBlock"),
        Rare(Children, "annotations", "ANNOTATIONS", "Annotation", none_ok=True)]


def describable():
    return [Child("desc", "DESC", "MultiLanguageOverviewParagraph"),
            Text("category", "CATEGORY"),
            Child("introduction", "INTRODUCTION", "DocumentationBlock")]


def ident_class(name, tag, members, **opts):
    opts.setdefault("required", ["name"])
    return ClassSpec(name, tag, identifiable() + members, **opts)


def ar_class(name, tag, members, **opts):
    return ident_class(name, tag, members, collectable=True, **opts)


# ----------------------------------------------------------------------------------- common structure

ClassSpec("DataFilter", ["DATA-FILTER", "FILTER"], [
    Enum("data_filter_type", "DATA-FILTER-TYPE", "DataFilterType"),
    Int("mask", "MASK"), Int("max_val", "MAX", pos=False), Int("min_val", "MIN", pos=False),
    Int("offset", "OFFSET"), Int("period", "PERIOD"), Int("x", "X", pos=False)])
ClassSpec("AutosarEngineeringObject", ["AUTOSAR-ENGINEERING-OBJECT"], [
    Text("label", "SHORT-LABEL", dom=Gen.ident), Text("category", "CATEGORY")])
ident_class("Code", "CODE", [Children("artifact_descriptors", "ARTIFACT-DESCRIPTORS", "AutosarEngineeringObject")])


# ------------------------------------------------------------------------------------- compu method

class Limit(Kind):
    """LOWER-LIMIT / UPPER-LIMIT with INTERVAL-TYPE; value is (number, member)"""

    def gen(self, g):
        return (g.number(), g.rng.choice(["OPEN", "CLOSED"]))

    def nodes(self, v, ver):
        return [Node(self.tag, [Num(v[0])], {"INTERVAL-TYPE": enum_text("IntervalType", v[1])})]


class WithLimits(ClassSpec):
    """Complex types with limits: the interval type is a separate Python attribute"""

    def build(self, inst, rng):
        kwargs = {}
        for kind in self.members:
            if kind.attr in inst.vals:
                v = inst.vals[kind.attr]
                if isinstance(kind, Limit):
                    kwargs[kind.attr] = v[0]
                    if v[1] != "CLOSED" or rng is None or rng.random() < 0.5:
                        kwargs[kind.attr + "_type"] = ar_enum.IntervalType[v[1]]
                else:
                    kwargs[kind.arg] = kind.build(v, rng)
        return getattr(ar_element, self.name)(**kwargs)

    def check(self, inst, actual, path=""):
        if type(actual) is not getattr(ar_element, self.name):
            fail(path or f">{self.name}", f"expected a {self.name}, got {actual!r}")
        for kind in self.members:
            where = f"{path}>{self.name}.{kind.attr}"
            value = getattr(actual, kind.attr)
            if kind.attr not in inst.vals:
                kind.absent(value, where)
            elif isinstance(kind, Limit):
                want, limit_type = inst.vals[kind.attr]
                if isinstance(value, bool) or not isinstance(value, (int, float)) or not num_equal(value, want):
                    fail(where, f"expected limit {want!r}, got {value!r}")
                if getattr(actual, kind.attr + "_type") is not ar_enum.IntervalType[limit_type]:
                    fail(where + "_type", f"expected {limit_type}, got {getattr(actual, kind.attr + '_type')!r}")
            else:
                kind.check(value, inst.vals[kind.attr], where)


class ConstSpec(ClassSpec):
    """COMPU-CONST and its variants: V (number) or VT (text)"""

    def __init__(self):
        super().__init__("CompuConst", ["COMPU-CONST", "COMPU-DEFAULT-VALUE", "COMPU-INVERSE-VALUE"], [],
                         writable=False)

    def gen(self, g):
        return Inst(self, {"#value": g.text_or_empty() if g.boolean() else g.number()})

    def build(self, inst, rng):
        return ar_element.CompuConst(inst.vals["#value"])

    def node(self, inst, ver, tag=None):
        v = inst.vals["#value"]
        return Node(tag or self.tag, [Node("VT", [v]) if isinstance(v, str) else Node("V", [Num(v)])])

    def check(self, inst, actual, path=""):
        where = f"{path}>CompuConst.value"
        if type(actual) is not ar_element.CompuConst:
            fail(where, f"expected a CompuConst, got {actual!r}")
        v = inst.vals["#value"]
        if isinstance(v, str):
            if actual.value != v:
                fail(where, f"expected text {v!r}, got {actual.value!r}")
        elif isinstance(actual.value, (str, bool)) or not num_equal(actual.value, v):
            fail(where, f"expected number {v!r}, got {actual.value!r}")


class RationalSpec(ClassSpec):
    """COMPU-RATIONAL-COEFFS"""

    def __init__(self):
        super().__init__("CompuRational", "COMPU-RATIONAL-COEFFS", [])

    def gen(self, g):
        vals = {"numerator": tuple(g.number() for _ in range(g.some()))}
        if g.want():
            vals["denominator"] = tuple(g.number() for _ in range(g.some()))
        return Inst(self, vals)

    def build(self, inst, rng):
        conv = list if rng is not None and rng.random() < 0.5 else tuple
        den = inst.vals.get("denominator")
        return ar_element.CompuRational(conv(inst.vals["numerator"]), conv(den) if den is not None else None)

    def node(self, inst, ver, tag=None):
        node = Node(self.tag, [Node("COMPU-NUMERATOR", [Node("V", [Num(x)]) for x in inst.vals["numerator"]])])
        if "denominator" in inst.vals:
            node.add(Node("COMPU-DENOMINATOR", [Node("V", [Num(x)]) for x in inst.vals["denominator"]]))
        return node

    def check(self, inst, actual, path=""):
        if type(actual) is not ar_element.CompuRational:
            fail(f"{path}>CompuRational", f"expected a CompuRational, got {actual!r}")
        for attr in ("numerator", "denominator"):
            want, got = inst.vals.get(attr), getattr(actual, attr)
            where = f"{path}>CompuRational.{attr}"
            if want is None:
                if got is not None:
                    fail(where, f"expected nothing, got {got!r}")
            else:
                got = got if isinstance(got, (tuple, list)) else (got,)
                if len(got) != len(want) or not all(num_equal(a, b) for a, b in zip(got, want)):
                    fail(where, f"expected {want!r}, got {got!r}")


ConstSpec()
RationalSpec()


class InverseValue(Child):
    def build(self, v, rng):
        if rng is not None and rng.random() < 0.5:
            return v.vals["#value"]
        return v.build(rng)


class ScaleContent(Child):
    def __init__(self):
        super().__init__("content", None, ["CompuConst", "CompuRational"])


def _mask_fix(inst, g):
    if "mask" in inst.vals:
        inst.vals["mask"] = g.posint()


WithLimits("CompuScale", "COMPU-SCALE", [
    Text("label", "SHORT-LABEL", dom=Gen.ident), Text("symbol", "SYMBOL", dom=Gen.ident),
    Child("desc", "DESC", "MultiLanguageOverviewParagraph"), Int("mask", "MASK"),
    Limit("lower_limit", "LOWER-LIMIT"), Limit("upper_limit", "UPPER-LIMIT"),
    InverseValue("inverse_value", "COMPU-INVERSE-VALUE", "CompuConst"), ScaleContent()])
ClassSpec("Computation", ["COMPU-INTERNAL-TO-PHYS", "COMPU-PHYS-TO-INTERNAL"], [
    Children("compu_scales", "COMPU-SCALES", "CompuScale", none_ok=True, single=False),
    InverseValue("default_value", "COMPU-DEFAULT-VALUE", "CompuConst")])
ar_class("CompuMethod", "COMPU-METHOD", [
    Text("display_format", "DISPLAY-FORMAT", dom=["%d", "%5.2f", "%x", "%-10s"]),
    Ref("unit_ref", "UNIT-REF", "UnitRef"),
    Child("int_to_phys", "COMPU-INTERNAL-TO-PHYS", "Computation"),
    Child("phys_to_int", "COMPU-PHYS-TO-INTERNAL", "Computation")])

# ---------------------------------------------------------------------------------------- constraints

WithLimits("ScaleConstraint", "SCALE-CONSTR", [
    EnumA("validity", "VALIDITY", "ScaleConstraintValidity"),
    Text("label", "SHORT-LABEL", dom=Gen.ident), Child("desc", "DESC", "MultiLanguageOverviewParagraph"),
    Limit("lower_limit", "LOWER-LIMIT"), Limit("upper_limit", "UPPER-LIMIT")])


def constraint_members():
    return [Limit("lower_limit", "LOWER-LIMIT"), Limit("upper_limit", "UPPER-LIMIT"),
            Children("scale_constrs", "SCALE-CONSTRS", "ScaleConstraint", none_ok=True, arg="scale_constr",
                     single=False),
            Number("max_gradient", "MAX-GRADIENT"), Number("max_diff", "MAX-DIFF"),
            Enum("monotony", "MONOTONY", "Monotony")]


WithLimits("InternalConstraint", "INTERNAL-CONSTRS", constraint_members())
WithLimits("PhysicalConstraint", "PHYS-CONSTRS", constraint_members() + [Ref("unit_ref", "UNIT-REF", "UnitRef")])
ClassSpec("DataConstraintRule", "DATA-CONSTR-RULE", [
    Int("level", "CONSTR-LEVEL", pos=False),
    Child("physical", "PHYS-CONSTRS", "PhysicalConstraint"),
    Child("internal", "INTERNAL-CONSTRS", "InternalConstraint")])
ar_class("DataConstraint", "DATA-CONSTR", [
    Children("rules", "DATA-CONSTR-RULES", "DataConstraintRule", none_ok=True, single=False)])

# ----------------------------------------------------------------------------------------------- unit


class UnitName(Child):
    def __init__(self):
        super().__init__("display_name", "DISPLAY-NAME", "SingleLanguageUnitNames")

    def build(self, v, rng):
        parts = v.vals["#parts"]
        if rng is not None and rng.random() < 0.5 and len(parts) == 1 and isinstance(parts[0], str):
            return parts[0]
        return v.build(rng)


ar_class("Unit", "UNIT", [
    UnitName(), Flt("factor", "FACTOR-SI-TO-UNIT"), Flt("offset", "OFFSET-SI-TO-UNIT"),
    Ref("physical_dimension_ref", "PHYSICAL-DIMENSION-REF", "PhysicalDimensionRef", str_ok=True)])

# ----------------------------------------------------------------------------------------- data types

ar_class("SwBaseType", "SW-BASE-TYPE", [
    Int("size", "BASE-TYPE-SIZE"), Int("max_size", "MAX-BASE-TYPE-SIZE"),
    Text("encoding", "BASE-TYPE-ENCODING", dom=["2C", "NONE", "IEEE754", "UTF-8", "BOOLEAN", "1C"]),
    Int("alignment", "MEM-ALIGNMENT"), Enum("byte_order", "BYTE-ORDER", "ByteOrder"),
    Text("native_declaration", "NATIVE-DECLARATION", dom=Gen.text_or_empty)])
ClassSpec("SwBitRepresentation", "SW-BIT-REPRESENTATION", [
    Int("position", "BIT-POSITION"), Int("num_bits", "NUMBER-OF-BITS")])
ClassSpec("SwTextProps", "SW-TEXT-PROPS", [
    Enum("array_size_semantics", "ARRAY-SIZE-SEMANTICS", "ArraySizeSemantics"),
    Int("max_text_size", "SW-MAX-TEXT-SIZE"), Ref("base_type_ref", "BASE-TYPE-REF", "SwBaseTypeRef", str_ok=True),
    Int("fill_char", "SW-FILL-CHARACTER")])
ClassSpec("SwPointerTargetProps", "SW-POINTER-TARGET-PROPS", [
    Text("target_category", "TARGET-CATEGORY"), PropsKind("sw_data_def_props", "SW-DATA-DEF-PROPS"),
    Ref("function_ptr_signature_ref", "FUNCTION-POINTER-SIGNATURE-REF", "FunctionPtrSignatureRef")])


class Alignment(Kind):
    """int or one of the texts the schema allows"""

    def gen(self, g):
        if g.boolean():
            return g.rng.choice([1, 2, 4, 8, 64, 0])
        return g.rng.choice(["UNSPECIFIED", "UNKNOWN", "BOOLEAN", "PTR"])

    def leaf(self, v):
        return v if isinstance(v, str) else Num(v, str(v))

    def check(self, actual, v, path):
        if str(actual) != str(v):
            fail(path, f"expected {v!r}, got {actual!r}")


ClassSpec("SwDataDefPropsConditional", "SW-DATA-DEF-PROPS-CONDITIONAL", [
    Enum("display_presentation", "DISPLAY-PRESENTATION", "DisplayPresentation"),
    Flt("step_size", "STEP-SIZE"),
    Children("annotations", "ANNOTATIONS", "Annotation"),
    Ref("sw_addr_method_ref", "SW-ADDR-METHOD-REF", "SwAddrMethodRef", str_ok=True),
    Alignment("alignment", "SW-ALIGNMENT"),
    Ref("base_type_ref", "BASE-TYPE-REF", "SwBaseTypeRef", str_ok=True),
    Child("bit_representation", "SW-BIT-REPRESENTATION", "SwBitRepresentation"),
    Enum("calibration_access", "SW-CALIBRATION-ACCESS", "SwCalibrationAccess"),
    Child("text_props", "SW-TEXT-PROPS", "SwTextProps"),
    Ref("compu_method_ref", "COMPU-METHOD-REF", "CompuMethodRef", str_ok=True),
    Text("display_format", "DISPLAY-FORMAT", dom=["%d", "%5.2f", "%x", "%-10s"]),
    Ref("data_constraint_ref", "DATA-CONSTR-REF", "DataConstraintRef", str_ok=True),
    Ref("impl_data_type_ref", "IMPLEMENTATION-DATA-TYPE-REF", "ImplementationDataTypeRef", str_ok=True),
    Enum("impl_policy", "SW-IMPL-POLICY", "SwImplPolicy"),
    Text("additional_native_type_qualifier", "ADDITIONAL-NATIVE-TYPE-QUALIFIER"),
    Number("intended_resolution", "SW-INTENDED-RESOLUTION"),
    Text("interpolation_method", "SW-INTERPOLATION-METHOD"),
    Bool("is_virtual", "SW-IS-VIRTUAL"),
    Child("ptr_target_props", "SW-POINTER-TARGET-PROPS", "SwPointerTargetProps"),
    Ref("unit_ref", "UNIT-REF", "UnitRef", str_ok=True)])
ClassSpec("SwDataDefProps", ["SW-DATA-DEF-PROPS", "NETWORK-REPRESENTATION"], [
    Children("variants", "SW-DATA-DEF-PROPS-VARIANTS", "SwDataDefPropsConditional")],
    required=["variants"], writable=False, readable=False)
ClassSpec("SymbolProps", ["SYMBOL-PROPS", "EVENT-SYMBOL-PROPS"], referrable() + [
    Text("symbol", "SYMBOL", dom=Gen.ident)], required=["name"])
ident_class("ImplementationDataTypeElement", "IMPLEMENTATION-DATA-TYPE-ELEMENT", [
    Enum("array_impl_policy", "ARRAY-IMPL-POLICY", "ArrayImplPolicy", since=49),
    Int("array_size", "ARRAY-SIZE"),
    Enum("array_size_handling", "ARRAY-SIZE-HANDLING", "ArraySizeHandling"),
    Enum("array_size_semantics", "ARRAY-SIZE-SEMANTICS", "ArraySizeSemantics"),
    Bool("is_optional", "IS-OPTIONAL"),
    Children("sub_elements", "SUB-ELEMENTS", "ImplementationDataTypeElement", single=False),
    PropsKind("sw_data_def_props", "SW-DATA-DEF-PROPS")])
ar_class("ImplementationDataType", "IMPLEMENTATION-DATA-TYPE", [
    PropsKind("sw_data_def_props", "SW-DATA-DEF-PROPS"),
    Text("dynamic_array_size_profile", "DYNAMIC-ARRAY-SIZE-PROFILE"),
    Bool("is_struct_with_optional_element", "IS-STRUCT-WITH-OPTIONAL-ELEMENT"),
    Children("sub_elements", "SUB-ELEMENTS", "ImplementationDataTypeElement", single=False),
    Child("symbol_props", "SYMBOL-PROPS", "SymbolProps"),
    Text("type_emitter", "TYPE-EMITTER")])


def autosar_prototype():
    return [PropsKind("sw_data_def_props", "SW-DATA-DEF-PROPS"), Ref("type_ref", "TYPE-TREF", "AutosarDataTypeRef")]


ident_class("VariableDataPrototype", ["VARIABLE-DATA-PROTOTYPE", "BULK-NV-BLOCK", "RAM-BLOCK"],
            autosar_prototype() + [Value("init_value", "INIT-VALUE")], read_name="VariableDataPrototype")
ident_class("ParameterDataPrototype", ["PARAMETER-DATA-PROTOTYPE", "ROM-BLOCK"],
            autosar_prototype() + [Value("init_value", "INIT-VALUE")], read_name="ParameterDataPrototype")
ident_class("ArgumentDataPrototype", "ARGUMENT-DATA-PROTOTYPE", autosar_prototype() + [
    Enum("direction", "DIRECTION", "ArgumentDirection"),
    Enum("server_arg_impl_policy", "SERVER-ARGUMENT-IMPL-POLICY", "ServerArgImplPolicy")])
ar_class("ApplicationPrimitiveDataType", "APPLICATION-PRIMITIVE-DATA-TYPE", [
    PropsKind("sw_data_def_props", "SW-DATA-DEF-PROPS")])


def composite_element():
    return [PropsKind("sw_data_def_props", "SW-DATA-DEF-PROPS"), Ref("type_ref", "TYPE-TREF", "ApplicationDataTypeRef")]


ident_class("ApplicationArrayElement", "ELEMENT", composite_element() + [
    Enum("array_size_handling", "ARRAY-SIZE-HANDLING", "ArraySizeHandling"),
    Enum("array_size_semantics", "ARRAY-SIZE-SEMANTICS", "ArraySizeSemantics"),
    Ref("index_data_type_ref", "INDEX-DATA-TYPE-REF", "IndexDataTypeRef"),
    Int("max_number_of_elements", "MAX-NUMBER-OF-ELEMENTS")], read_name="ApplicationArrayElement")
ar_class("ApplicationArrayDataType", "APPLICATION-ARRAY-DATA-TYPE", [
    PropsKind("sw_data_def_props", "SW-DATA-DEF-PROPS"),
    Text("dynamic_array_size_profile", "DYNAMIC-ARRAY-SIZE-PROFILE"),
    Child("element", "ELEMENT", "ApplicationArrayElement")])
ident_class("ApplicationRecordElement", "APPLICATION-RECORD-ELEMENT", composite_element() + [
    Bool("is_optional", "IS-OPTIONAL")])
ar_class("ApplicationRecordDataType", "APPLICATION-RECORD-DATA-TYPE", [
    PropsKind("sw_data_def_props", "SW-DATA-DEF-PROPS"),
    Children("elements", "ELEMENTS", "ApplicationRecordElement")])
ClassSpec("DataTypeMap", "DATA-TYPE-MAP", [
    Ref("appl_data_type_ref", "APPLICATION-DATA-TYPE-REF", "ApplicationDataTypeRef"),
    Ref("impl_data_type_ref", "IMPLEMENTATION-DATA-TYPE-REF", "ImplementationDataTypeRef")])
ar_class("DataTypeMappingSet", "DATA-TYPE-MAPPING-SET", [
    Children("data_type_maps", "DATA-TYPE-MAPS", "DataTypeMap")])
ar_class("SwAddrMethod", "SW-ADDR-METHOD", [])

# ---------------------------------------------------------------------------- calibration and values


class NumWrap:
    """A number with a requested spelling (NumericalValue)"""
    __slots__ = ("value", "fmt")

    def __init__(self, value, fmt):
        self.value, self.fmt = value, fmt

    def __repr__(self):
        return f"NumericalValue({self.value!r}, {self.fmt})"

    def build(self):
        return ar_element.NumericalValue(self.value, ar_enum.ValueFormat[self.fmt])

    def spelling(self):
        if self.fmt == "HEXADECIMAL":
            return hex(self.value)
        if self.fmt == "BINARY":
            return bin(self.value)
        return None

    def signature(self):
        return self.fmt


class Values(Kind):
    """Sequence of V, VT and VG items directly inside the element"""

    def __init__(self, attr, items):
        super().__init__(attr, None)
        self.items = items

    def absent(self, actual, path):
        if actual != []:
            fail(path, f"expected an empty list, got {actual!r}")

    def gen(self, g):
        res = []
        for _ in range(g.some()):
            item = g.rng.choice(self.items)
            if item == "VG" and g.depth > 0:
                g.deeper()
                res.append(SPECS["ValueGroup"].gen(g))
                g.back()
            elif item == "VT":
                res.append(g.text_or_empty())
            elif g.rng.random() < 0.3:
                fmt = g.rng.choice(["HEXADECIMAL", "BINARY", "SCIENTIFIC" if g.scientific else "DEFAULT", "DECIMAL", "DEFAULT"])
                res.append(NumWrap(g.posint() if fmt in ("HEXADECIMAL", "BINARY") else
                                   g.flt() if fmt == "SCIENTIFIC" else g.number(), fmt))
            else:
                res.append(g.number())
        return res

    def build(self, v, rng):
        res = [x.build(rng) if isinstance(x, Inst) else x.build() if isinstance(x, NumWrap) else x for x in v]
        if len(res) == 1 and not isinstance(res[0], (str, ar_element.NumericalValue)) and rng is not None \
                and rng.random() < 0.3:
            return res[0] if isinstance(res[0], (int, float)) else res
        return res

    def nodes(self, v, ver):
        res = []
        for x in v:
            if isinstance(x, Inst):
                res.append(x.node(ver))
            elif isinstance(x, NumWrap):
                res.append(Node("V", [Num(x.value, x.spelling())]))
            elif isinstance(x, str):
                res.append(Node("VT", [x]))
            else:
                res.append(Node("V", [Num(x)]))
        return res

    def check(self, actual, v, path):
        if not isinstance(actual, list) or len(actual) != len(v):
            fail(path, f"expected {len(v)} values, got {actual!r}")
        for got, want in zip(actual, v):
            if isinstance(want, Inst):
                want.check(got, path)
            elif isinstance(want, str):
                if got != want:
                    fail(path, f"expected text {want!r}, got {got!r}")
            else:
                number = want.value if isinstance(want, NumWrap) else want
                plain = got.value if isinstance(got, ar_element.NumericalValue) else got
                if isinstance(plain, (str, bool)) or not num_equal(plain, number):
                    fail(path, f"expected number {number!r}, got {plain!r}")
                if isinstance(want, NumWrap) and want.fmt in ("HEXADECIMAL", "BINARY"):
                    fmt = got.value_format if isinstance(got, ar_element.NumericalValue) else None
                    if fmt is not ar_enum.ValueFormat[want.fmt]:
                        fail(path, f"expected {want.fmt} number, got format {fmt}")


ClassSpec("ValueList", "SW-ARRAYSIZE", [Values("values", ["V"])], takes_tag=False)
ClassSpec("SwValues", "SW-VALUES-PHYS", [Values("values", ["V", "VT", "VG"])], takes_tag=False)
ClassSpec("ValueGroup", "VG", [Child("label", "LABEL", "MultilanguageLongName"),
                               Values("values", ["V", "VT", "VG"])], writable=False, readable=False)


class AxisIndex(Kind):
    def gen(self, g):
        return g.posint() if g.boolean() else g.rng.choice(["first", "abc", "x y"])

    def leaf(self, v):
        return v if isinstance(v, str) else Num(v, str(v))

    def check(self, actual, v, path):
        if str(actual) != str(v):
            fail(path, f"expected {v!r}, got {actual!r}")


def value_cont():
    return [Child("sw_array_size", "SW-ARRAYSIZE", "ValueList"), Child("sw_values_phys", "SW-VALUES-PHYS", "SwValues")]


def unit_members():
    return [Ref("unit_ref", "UNIT-REF", "UnitRef"),
            Child("unit_display_name", "UNIT-DISPLAY-NAME", "SingleLanguageUnitNames")]


ClassSpec("SwAxisCont", "SW-AXIS-CONT", [Enum("category", "CATEGORY", "CalibrationAxisCategory")] + unit_members() + [
    AxisIndex("sw_axis_index", "SW-AXIS-INDEX")] + value_cont())
ClassSpec("SwValueCont", "SW-VALUE-CONT", unit_members() + value_cont())

LABEL = Text("label", "SHORT-LABEL", dom=Gen.ident)
ClassSpec("TextValueSpecification", "TEXT-VALUE-SPECIFICATION", [LABEL, Text("value", "VALUE", dom=Gen.text_or_empty)])
ClassSpec("NumericalValueSpecification", "NUMERICAL-VALUE-SPECIFICATION", [LABEL, Number("value", "VALUE")])
ClassSpec("NotAvailableValueSpecification", "NOT-AVAILABLE-VALUE-SPECIFICATION", [
    LABEL, Int("default_pattern", "DEFAULT-PATTERN")])
ClassSpec("ArrayValueSpecification", "ARRAY-VALUE-SPECIFICATION", [
    LABEL, Children("elements", "ELEMENTS", VALUE_SPECS, single=False)])
ClassSpec("RecordValueSpecification", "RECORD-VALUE-SPECIFICATION", [
    LABEL, Children("fields", "FIELDS", VALUE_SPECS, single=False)])
ClassSpec("ApplicationValueSpecification", "APPLICATION-VALUE-SPECIFICATION", [
    LABEL, Text("category", "CATEGORY"), Children("sw_axis_conts", "SW-AXIS-CONTS", "SwAxisCont"),
    Child("sw_value_cont", "SW-VALUE-CONT", "SwValueCont")])
ClassSpec("ConstantReference", "CONSTANT-REFERENCE", [
    LABEL, Ref("constant_ref", "CONSTANT-REF", "ConstantRef", str_ok=True)])
ar_class("ConstantSpecification", "CONSTANT-SPECIFICATION", [Value("value", "VALUE-SPEC")])

# -------------------------------------------------------------------------------------- mode elements

ident_class("ModeDeclaration", "MODE-DECLARATION", [Int("value", "VALUE")])
ClassSpec("ModeErrorBehavior", ["MODE-MANAGER-ERROR-BEHAVIOR", "MODE-USER-ERROR-BEHAVIOR"], [
    Ref("default_mode_ref", "DEFAULT-MODE-REF", "ModeDeclarationRef"),
    Enum("error_reaction_policy", "ERROR-REACTION-POLICY", "ModeErrorReactionPolicy")])
ident_class("ModeTransition", "MODE-TRANSITION", [
    Ref("entered_mode_ref", "ENTERED-MODE-REF", "ModeDeclarationRef"),
    Ref("exited_mode_ref", "EXITED-MODE-REF", "ModeDeclarationRef")])
ar_class("ModeDeclarationGroup", "MODE-DECLARATION-GROUP", [
    Ref("initial_mode_ref", "INITIAL-MODE-REF", "ModeDeclarationRef"),
    Children("mode_declarations", "MODE-DECLARATIONS", "ModeDeclaration"),
    Child("mode_manager_error_behavior", "MODE-MANAGER-ERROR-BEHAVIOR", "ModeErrorBehavior"),
    Children("mode_transitions", "MODE-TRANSITIONS", "ModeTransition"),
    Child("mode_user_error_behavior", "MODE-USER-ERROR-BEHAVIOR", "ModeErrorBehavior"),
    Int("on_transition_value", "ON-TRANSITION-VALUE")])
ident_class("ModeDeclarationGroupPrototype", ["MODE-DECLARATION-GROUP-PROTOTYPE", "MODE-GROUP"], [
    Enum("calibration_access", "SW-CALIBRATION-ACCESS", "SwCalibrationAccess"),
    Ref("type_ref", "TYPE-TREF", "ModeDeclarationGroupRef")])
ClassSpec("ModeRequestTypeMap", "MODE-REQUEST-TYPE-MAP", [
    Ref("implementation_data_type", "IMPLEMENTATION-DATA-TYPE-REF", "ImplementationDataTypeRef"),
    Ref("mode_group", "MODE-GROUP-REF", "ModeDeclarationGroupRef")])

# ------------------------------------------------------------------------------------ port interfaces


def port_interface():
    return [Bool("is_service", "IS-SERVICE"), Enum("service_kind", "SERVICE-KIND", "ServiceKind")]


ClassSpec("InvalidationPolicy", "INVALIDATION-POLICY", [
    Ref("data_element_ref", "DATA-ELEMENT-REF", "VariableDataPrototypeRef"),
    Enum("handle_invalid", "HANDLE-INVALID", "HandleInvalid")])
ar_class("SenderReceiverInterface", "SENDER-RECEIVER-INTERFACE", port_interface() + [
    Children("data_elements", "DATA-ELEMENTS", "VariableDataPrototype"),
    Children("invalidation_policies", "INVALIDATION-POLICYS", "InvalidationPolicy")])
ar_class("NvDataInterface", "NV-DATA-INTERFACE", port_interface() + [
    Children("data_elements", "NV-DATAS", "VariableDataPrototype")])
ar_class("ParameterInterface", "PARAMETER-INTERFACE", port_interface() + [
    Children("parameters", "PARAMETERS", "ParameterDataPrototype")])
ident_class("ApplicationError", "APPLICATION-ERROR", [Int("error_code", "ERROR-CODE")])
ident_class("ClientServerOperation", "CLIENT-SERVER-OPERATION", [
    Children("arguments", "ARGUMENTS", "ArgumentDataPrototype"),
    Bool("diag_arg_integrity", "DIAG-ARG-INTEGRITY"), Bool("fire_and_forget", "FIRE-AND-FORGET"),
    Refs("possible_error_refs", "POSSIBLE-ERROR-REFS", "POSSIBLE-ERROR-REF", "ApplicationErrorRef")])
ar_class("ClientServerInterface", "CLIENT-SERVER-INTERFACE", port_interface() + [
    Children("operations", "OPERATIONS", "ClientServerOperation"),
    Children("possible_errors", "POSSIBLE-ERRORS", "ApplicationError")])
ar_class("ModeSwitchInterface", "MODE-SWITCH-INTERFACE", port_interface() + [
    Child("mode_group", "MODE-GROUP", "ModeDeclarationGroupPrototype")])

# ------------------------------------------------------------------------------------ system template

ar_class("E2EProfileCompatibilityProps", "E-2-E-PROFILE-COMPATIBILITY-PROPS", [
    Bool("transit_to_invalid_extended", "TRANSIT-TO-INVALID-EXTENDED")])
ClassSpec("EndToEndTransformationComSpecProps", "END-TO-END-TRANSFORMATION-COM-SPEC-PROPS", describable() + [
    Bool("clear_from_valid_to_invalid", "CLEAR-FROM-VALID-TO-INVALID"),
    Bool("disable_e2e_check", "DISABLE-END-TO-END-CHECK"),
    Bool("disable_e2e_state_machine", "DISABLE-END-TO-END-STATE-MACHINE"),
    Ref("e2e_profile_compatibility_props_ref", "E-2-E-PROFILE-COMPATIBILITY-PROPS-REF",
        "E2EProfileCompatibilityPropsRef"),
    Int("max_delta_counter", "MAX-DELTA-COUNTER"), Int("max_error_state_init", "MAX-ERROR-STATE-INIT"),
    Int("max_error_state_invalid", "MAX-ERROR-STATE-INVALID"), Int("max_error_state_valid", "MAX-ERROR-STATE-VALID"),
    Int("max_no_new_repeated_data", "MAX-NO-NEW-OR-REPEATED-DATA"), Int("min_ok_state_init", "MIN-OK-STATE-INIT"),
    Int("min_ok_state_invalid", "MIN-OK-STATE-INVALID"), Int("min_ok_state_valid", "MIN-OK-STATE-VALID"),
    Int("sync_counter_init", "SYNC-COUNTER-INIT"), Int("window_size", "WINDOW-SIZE"),
    Int("window_size_init", "WINDOW-SIZE-INIT"), Int("window_size_invalid", "WINDOW-SIZE-INVALID"),
    Int("window_size_valid", "WINDOW-SIZE-VALID")])

# ------------------------------------------------------------------------------------------ com specs

ClassSpec("ModeSwitchedAckRequest", "MODE-SWITCHED-ACK", [Flt("timeout", "TIMEOUT")])
ClassSpec("TransmissionAcknowledgementRequest", "TRANSMISSION-ACKNOWLEDGE", [Flt("timeout", "TIMEOUT")])
ClassSpec("TransmissionComSpecProps", "TRANSMISSION-PROPS", [
    Flt("data_update_period", "DATA-UPDATE-PERIOD"), Flt("minimum_send_interval", "MINIMUM-SEND-INTERVAL"),
    Enum("transmission_mode", "TRANSMISSION-MODE", "TransmissionMode")])
ClassSpec("ReceptionComSpecProps", "RECEPTION-PROPS", [
    Flt("data_update_period", "DATA-UPDATE-PERIOD"), Flt("timeout", "TIMEOUT")])


class AckSugar(Child):
    """May be given as a number (the timeout)"""

    def build(self, v, rng):
        if rng is not None and list(v.vals) == ["timeout"] and rng.random() < 0.5:
            return float(v.vals["timeout"])
        return v.build(rng)


def sender_members():
    return [Ref("data_element_ref", "DATA-ELEMENT-REF", "AutosarDataPrototypeRef"),
            Enum("handle_out_of_range", "HANDLE-OUT-OF-RANGE", "HandleOutOfRange"),
            PropsKind("network_representation", "NETWORK-REPRESENTATION", sugar=False),
            AckSugar("transmission_acknowledge", "TRANSMISSION-ACKNOWLEDGE", "TransmissionAcknowledgementRequest"),
            Child("tranmsission_props", "TRANSMISSION-PROPS", "TransmissionComSpecProps"),
            Bool("uses_end_to_end_protection", "USES-END-TO-END-PROTECTION")]


ClassSpec("ModeSwitchSenderComSpec", "MODE-SWITCH-SENDER-COM-SPEC", [
    Bool("enhanced_mode_api", "ENHANCED-MODE-API"),
    Ref("mode_group_ref", "MODE-GROUP-REF", "ModeDeclarationGroupPrototypeRef", str_ok=True),
    AckSugar("mode_switched_ack", "MODE-SWITCHED-ACK", "ModeSwitchedAckRequest"),
    Int("queue_length", "QUEUE-LENGTH")])
ClassSpec("QueuedSenderComSpec", "QUEUED-SENDER-COM-SPEC", sender_members())
ClassSpec("NonqueuedSenderComSpec", "NONQUEUED-SENDER-COM-SPEC", sender_members() + [
    Child("data_filter", "DATA-FILTER", "DataFilter"), Value("init_value", "INIT-VALUE")])
ClassSpec("NvProvideComSpec", "NV-PROVIDE-COM-SPEC", [
    Value("ram_block_init_value", "RAM-BLOCK-INIT-VALUE"), Value("rom_block_init_value", "ROM-BLOCK-INIT-VALUE"),
    Ref("variable_ref", "VARIABLE-REF", "VariableDataPrototypeRef")])
ClassSpec("ParameterProvideComSpec", "PARAMETER-PROVIDE-COM-SPEC", [
    Value("init_value", "INIT-VALUE"), Ref("parameter_ref", "PARAMETER-REF", "ParameterDataPrototypeRef", str_ok=True)])
ClassSpec("ServerComSpec", "SERVER-COM-SPEC", [
    Ref("operation_ref", "OPERATION-REF", "ClientServerOperationRef"), Int("queue_length", "QUEUE-LENGTH"),
    Children("transformation_com_spec_props", "TRANSFORMATION-COM-SPEC-PROPSS",
             "EndToEndTransformationComSpecProps")])


def receiver_members():
    return [Ref("data_element_ref", "DATA-ELEMENT-REF", "AutosarDataPrototypeRef"),
            Enum("handle_out_of_range", "HANDLE-OUT-OF-RANGE", "HandleOutOfRange"),
            Enum("handle_out_of_range_status", "HANDLE-OUT-OF-RANGE-STATUS", "HandleOutOfRangeStatus"),
            Int("max_delta_counter_init", "MAX-DELTA-COUNTER-INIT"),
            Int("max_no_new_repeated_data", "MAX-NO-NEW-OR-REPEATED-DATA"),
            PropsKind("network_representation", "NETWORK-REPRESENTATION", sugar=False),
            Child("reception_props", "RECEPTION-PROPS", "ReceptionComSpecProps"),
            Child("replace_with", "REPLACE-WITH", "VariableAccess"),
            Int("sync_counter_init", "SYNC-COUNTER-INIT"),
            Children("transformation_com_spec_props", "TRANSFORMATION-COM-SPEC-PROPSS",
                     "EndToEndTransformationComSpecProps"),
            Bool("uses_end_to_end_protection", "USES-END-TO-END-PROTECTION")]


ClassSpec("QueuedReceiverComSpec", "QUEUED-RECEIVER-COM-SPEC", receiver_members() + [
    Int("queue_length", "QUEUE-LENGTH")])
ClassSpec("NonqueuedReceiverComSpec", "NONQUEUED-RECEIVER-COM-SPEC", receiver_members() + [
    Flt("alive_timeout", "ALIVE-TIMEOUT"), Bool("enable_update", "ENABLE-UPDATE"),
    Child("data_filter", "FILTER", "DataFilter"), Bool("handle_data_status", "HANDLE-DATA-STATUS"),
    Bool("handle_never_received", "HANDLE-NEVER-RECEIVED"),
    Enum("handle_timeout_type", "HANDLE-TIMEOUT-TYPE", "HandleTimeout"), Value("init_value", "INIT-VALUE"),
    Value("timeout_substitution_value", "TIMEOUT-SUBSTITUTION-VALUE")])
ClassSpec("NvRequireComSpec", "NV-REQUIRE-COM-SPEC", [
    Value("init_value", "INIT-VALUE"), Ref("variable_ref", "VARIABLE-REF", "VariableDataPrototypeRef")])
ClassSpec("ParameterRequireComSpec", "PARAMETER-REQUIRE-COM-SPEC", [
    Value("init_value", "INIT-VALUE"), Ref("parameter_ref", "PARAMETER-REF", "ParameterDataPrototypeRef", str_ok=True)])
ClassSpec("ModeSwitchReceiverComSpec", "MODE-SWITCH-RECEIVER-COM-SPEC", [
    Bool("enhanced_mode_api", "ENHANCED-MODE-API"),
    Ref("mode_group_ref", "MODE-GROUP-REF", "ModeDeclarationGroupPrototypeRef", str_ok=True),
    Bool("supports_async", "SUPPORTS-ASYNCHRONOUS-MODE-SWITCH")])
ClassSpec("ClientComSpec", "CLIENT-COM-SPEC", [
    Flt("e2e_call_respone_timeout", "END-TO-END-CALL-RESPONSE-TIMEOUT"),
    Ref("operation_ref", "OPERATION-REF", "ClientServerOperationRef"),
    Children("transformation_com_spec_props", "TRANSFORMATION-COM-SPEC-PROPSS",
             "EndToEndTransformationComSpecProps")])
PROVIDE_SPECS = ["ModeSwitchSenderComSpec", "QueuedSenderComSpec", "NonqueuedSenderComSpec", "NvProvideComSpec",
                 "ParameterProvideComSpec", "ServerComSpec"]
REQUIRE_SPECS = ["QueuedReceiverComSpec", "NonqueuedReceiverComSpec", "NvRequireComSpec", "ParameterRequireComSpec",
                 "ModeSwitchReceiverComSpec", "ClientComSpec"]

# ---------------------------------------------------------------------------- ports and component types

ident_class("ProvidePortPrototype", "P-PORT-PROTOTYPE", [
    Children("com_spec", "PROVIDED-COM-SPECS", PROVIDE_SPECS),
    Ref("port_interface_ref", "PROVIDED-INTERFACE-TREF", "PortInterfaceRef")])
ident_class("RequirePortPrototype", "R-PORT-PROTOTYPE", [
    Bool("allow_unconnected", "MAY-BE-UNCONNECTED"),
    Children("com_spec", "REQUIRED-COM-SPECS", REQUIRE_SPECS),
    Ref("port_interface_ref", "REQUIRED-INTERFACE-TREF", "PortInterfaceRef")])
ident_class("PRPortPrototype", "PR-PORT-PROTOTYPE", [
    Children("provided_com_spec", "PROVIDED-COM-SPECS", PROVIDE_SPECS),
    Children("required_com_spec", "REQUIRED-COM-SPECS", REQUIRE_SPECS),
    Ref("port_interface_ref", "PROVIDED-REQUIRED-INTERFACE-TREF", "PortInterfaceRef")])
PORTS = ["ProvidePortPrototype", "RequirePortPrototype", "PRPortPrototype"]
ident_class("SwComponentPrototype", "SW-COMPONENT-PROTOTYPE", [Ref("type_ref", "TYPE-TREF", "SwComponentTypeRef")])

PROVIDE_DESTS = ["P_PORT_PROTOTYPE", "PR_PORT_PROTOTYPE", "ABSTRACT_PROVIDED_PORT_PROTOTYPE"]
REQUIRE_DESTS = ["R_PORT_PROTOTYPE", "PR_PORT_PROTOTYPE", "ABSTRACT_REQUIRED_PORT_PROTOTYPE"]


class PortInComposition(ClassSpec):
    """The tag decides the direction, and the direction decides the tag of the port reference"""

    def __init__(self):
        super().__init__("PortInCompositionTypeInstanceRef",
                         ["PROVIDER-IREF", "REQUESTER-IREF", "P-PORT-IN-COMPOSITION-INSTANCE-REF",
                          "R-PORT-IN-COMPOSITION-INSTANCE-REF"],
                         [Ref("component_ref", "CONTEXT-COMPONENT-REF", "SwComponentPrototypeRef"),
                          Ref("port_ref", None, "PortPrototypeRef")])

    @staticmethod
    def is_provide(tag):
        return tag in ("PROVIDER-IREF", "P-PORT-IN-COMPOSITION-INSTANCE-REF")

    def gen_for(self, g, provide, unambiguous=False):
        inst = self.gen(g)
        if "port_ref" in inst.vals or unambiguous:
            dests = ["P_PORT_PROTOTYPE"] if provide else ["R_PORT_PROTOTYPE"]
            if not unambiguous:
                dests = PROVIDE_DESTS[:2] if provide else REQUIRE_DESTS[:2]
            inst.vals["port_ref"] = (g.path(), g.rng.choice(dests))
        return inst

    def node(self, inst, ver, tag=None):
        tag = tag or self.tag
        node = Node(tag)
        if "component_ref" in inst.vals:
            node.add(ref_node("CONTEXT-COMPONENT-REF", inst.vals["component_ref"]))
        if "port_ref" in inst.vals:
            node.add(ref_node("TARGET-P-PORT-REF" if self.is_provide(tag) else "TARGET-R-PORT-REF",
                              inst.vals["port_ref"]))
        return node


PortInComposition()


class PortIref(Child):
    """PROVIDER-IREF or REQUESTER-IREF"""

    def __init__(self, attr, tag, provide):
        super().__init__(attr, tag, "PortInCompositionTypeInstanceRef")
        self.provide = provide

    def gen(self, g):
        return SPECS["PortInCompositionTypeInstanceRef"].gen_for(g, self.provide)


class InnerPort(Child):
    """INNER-PORT-IREF: nested reference whose tag follows the direction of the referenced port"""

    def __init__(self):
        super().__init__("inner_port", None, "PortInCompositionTypeInstanceRef")

    def gen(self, g):
        return SPECS["PortInCompositionTypeInstanceRef"].gen_for(g, g.boolean(), unambiguous=True)

    def nodes(self, v, ver):
        provide = v.vals["port_ref"][1] == "P_PORT_PROTOTYPE"
        tag = "P-PORT-IN-COMPOSITION-INSTANCE-REF" if provide else "R-PORT-IN-COMPOSITION-INSTANCE-REF"
        return [Node("INNER-PORT-IREF", [v.node(ver, tag)])]


ident_class("AssemblySwConnector", "ASSEMBLY-SW-CONNECTOR", [
    PortIref("provide_port", "PROVIDER-IREF", True), PortIref("require_port", "REQUESTER-IREF", False)])
ident_class("DelegationSwConnector", "DELEGATION-SW-CONNECTOR", [
    InnerPort(), Ref("outer_port", "OUTER-PORT-REF", "PortPrototypeRef")])
ident_class("PassThroughSwConnector", "PASS-THROUGH-SW-CONNECTOR", [
    Ref("provide_port", "PROVIDED-OUTER-PORT-REF", "PortPrototypeRef", dests=PROVIDE_DESTS),
    Ref("require_port", "REQUIRED-OUTER-PORT-REF", "PortPrototypeRef", dests=REQUIRE_DESTS)])
ar_class("CompositionSwComponentType", "COMPOSITION-SW-COMPONENT-TYPE", [
    Children("ports", "PORTS", PORTS),
    Children("components", "COMPONENTS", "SwComponentPrototype"),
    Children("connectors", "CONNECTORS",
             ["AssemblySwConnector", "DelegationSwConnector", "PassThroughSwConnector"])])
ar_class("ApplicationSoftwareComponentType", "APPLICATION-SW-COMPONENT-TYPE", [
    Children("ports", "PORTS", PORTS),
    Child("internal_behavior", "SWC-INTERNAL-BEHAVIOR", "SwcInternalBehavior", wrapper="INTERNAL-BEHAVIORS"),
    Child("symbol_props", "SYMBOL-PROPS", "SymbolProps")])
ar_class("SwcImplementation", "SWC-IMPLEMENTATION", [
    Children("code_descriptors", "CODE-DESCRIPTORS", "Code"),
    Ref("behavior_ref", "BEHAVIOR-REF", "SwcInternalBehaviorRef"),
    Text("required_rte_vendor", "REQUIRED-RTE-VENDOR")])

# ------------------------------------------------------------------------------- instance references


def iref(name, tags, context, context_tag, context_ref, target, target_tag, target_ref, writable=False, **opts):
    ClassSpec(name, tags, [Ref(context, context_tag, context_ref), Ref(target, target_tag, target_ref, str_ok=True)],
              writable=writable, readable=opts.pop("readable", False), **opts)


iref("PModeGroupInAtomicSwcInstanceRef",
     ["P-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF", "MODE-GROUP-IREF", "SWC-MODE-GROUP-IREF"],
     "context_port", "CONTEXT-P-PORT-REF", "AbstractProvidedPortPrototypeRef",
     "target_mode_group", "TARGET-MODE-GROUP-REF", "ModeDeclarationGroupPrototypeRef")
iref("POperationInAtomicSwcInstanceRef", "OPERATION-IREF",
     "context_port", "CONTEXT-P-PORT-REF", "AbstractProvidedPortPrototypeRef",
     "target_provided_operation", "TARGET-PROVIDED-OPERATION-REF", "ClientServerOperationRef")
iref("PTriggerInAtomicSwcTypeInstanceRef", "TRIGGER-IREF",
     "context_port", "CONTEXT-P-PORT-REF", "AbstractProvidedPortPrototypeRef",
     "target_trigger", "TARGET-TRIGGER-REF", "TriggerRef")
iref("ROperationInAtomicSwcInstanceRef", "OPERATION-IREF",
     "context_port", "CONTEXT-R-PORT-REF", "AbstractRequiredPortPrototypeRef",
     "target_required_operation", "TARGET-REQUIRED-OPERATION-REF", "ClientServerOperationRef")
ClassSpec("RModeInAtomicSwcInstanceRef", ["DISABLED-MODE-IREF", "MODE-IREF"], [
    Ref("context_port", "CONTEXT-PORT-REF", "AbstractRequiredPortPrototypeRef"),
    Ref("context_mode_declaration_group_prototype", "CONTEXT-MODE-DECLARATION-GROUP-PROTOTYPE-REF",
        "ModeDeclarationGroupPrototypeRef"),
    Ref("target_mode_declaration", "TARGET-MODE-DECLARATION-REF", "ModeDeclarationRef")])
iref("RModeGroupInAtomicSwcInstanceRef", "R-MODE-GROUP-IN-ATOMIC-SWC-INSTANCE-REF",
     "context_port", "CONTEXT-R-PORT-REF", "AbstractRequiredPortPrototypeRef",
     "target_mode_group", "TARGET-MODE-GROUP-REF", "ModeDeclarationGroupPrototypeRef", writable=True, readable=True)
iref("RVariableInAtomicSwcInstanceRef", "DATA-IREF",
     "context_port", "CONTEXT-R-PORT-REF", "AbstractRequiredPortPrototypeRef",
     "target_data_element", "TARGET-DATA-ELEMENT-REF", "VariableDataPrototypeRef")
iref("RTriggerInAtomicSwcInstanceRef", ["TRIGGER-IREF", "REQUIRED-TRIGGER-IREF"],
     "context_port", "CONTEXT-R-PORT-REF", "AbstractRequiredPortPrototypeRef",
     "target_trigger", "TARGET-TRIGGER-REF", "TriggerRef")
ClassSpec("ArVariableInImplementationDataInstanceRef",
          ["AUTOSAR-VARIABLE-IN-IMPL-DATATYPE", "IMPLEMENTATION-DATA-TYPE-ELEMENT"], [
              Ref("port_prototype_ref", "PORT-PROTOTYPE-REF", "PortPrototypeRef"),
              Ref("root_variable_data_prototype_ref", "ROOT-VARIABLE-DATA-PROTOTYPE-REF", "VariableDataPrototypeRef"),
              Refs("context_data_prototype_refs", "CONTEXT-DATA-PROTOTYPE-REFS", "CONTEXT-DATA-PROTOTYPE-REF",
                   "AbstractImplementationDataTypeElementRef"),
              Ref("target_data_prototype_ref", "TARGET-DATA-PROTOTYPE-REF",
                  "AbstractImplementationDataTypeElementRef")], read_name="ArVariableInImplementationDataInstanceRef")
ClassSpec("VariableInAtomicSWCTypeInstanceRef", "AUTOSAR-VARIABLE-IREF", [
    Ref("port_prototype_ref", "PORT-PROTOTYPE-REF", "PortPrototypeRef"),
    Ref("root_variable_data_prototype_ref", "ROOT-VARIABLE-DATA-PROTOTYPE-REF", "VariableDataPrototypeRef"),
    Refs("context_data_prototype_refs", None, "CONTEXT-DATA-PROTOTYPE-REF",
         "ApplicationCompositeElementDataPrototypeRef"),
    Ref("target_data_prototype_ref", "TARGET-DATA-PROTOTYPE-REF", "DataPrototypeRef")])
ClassSpec("AutosarVariableRef", ["AUTOSAR-VARIABLE", "ACCESSED-VARIABLE", "VARIABLE-INSTANCE", "USED-DATA-ELEMENT"], [
    Child("ar_variable_in_impl_datatype", "AUTOSAR-VARIABLE-IN-IMPL-DATATYPE",
          "ArVariableInImplementationDataInstanceRef"),
    Child("ar_variable_iref", "AUTOSAR-VARIABLE-IREF", "VariableInAtomicSWCTypeInstanceRef"),
    Ref("local_variable_ref", "LOCAL-VARIABLE-REF", "VariableDataPrototypeRef")])
ident_class("VariableAccess", ["VARIABLE-ACCESS", "REPLACE-WITH"], [
    Child("accessed_variable", "ACCESSED-VARIABLE", "AutosarVariableRef"),
    Enum("scope", "SCOPE", "VariableAccessScope")])

# ---------------------------------------------------------------------------------- internal behavior

ClassSpec("ExecutableEntityActivationReason", "EXECUTABLE-ENTITY-ACTIVATION-REASON", referrable() + [
    Text("symbol", "SYMBOL", dom=Gen.ident), Int("bit_position", "BIT-POSITION")], required=["name"])
ClassSpec("ExclusiveAreaRefConditional", "EXCLUSIVE-AREA-REF-CONDITIONAL", [
    Ref("exclusive_area", "EXCLUSIVE-AREA-REF", "ExclusiveAreaRef", str_ok=True)])
ClassSpec("RunnableEntityArgument", "RUNNABLE-ENTITY-ARGUMENT", [Text("symbol", "SYMBOL", dom=Gen.ident)])


def access_point():
    return [Enum("return_value_provision", "RETURN-VALUE-PROVISION", "RteApiReturnValueProvision")]


def server_call_point():
    return access_point() + [Child("operation", "OPERATION-IREF", "ROperationInAtomicSwcInstanceRef"),
                             Flt("timeout", "TIMEOUT")]


ident_class("AsynchronousServerCallPoint", "ASYNCHRONOUS-SERVER-CALL-POINT", server_call_point())
ident_class("SynchronousServerCallPoint", "SYNCHRONOUS-SERVER-CALL-POINT", server_call_point() + [
    Ref("called_from_within_exclusive_area", "CALLED-FROM-WITHIN-EXCLUSIVE-AREA-REF",
        "ExclusiveAreaNestingOrderRef")])
ident_class("AsynchronousServerCallResultPoint", "ASYNCHRONOUS-SERVER-CALL-RESULT-POINT", access_point() + [
    Ref("async_server_call_point", "ASYNCHRONOUS-SERVER-CALL-POINT-REF", "AsynchronousServerCallPointRef",
        str_ok=True)])
ident_class("ExternalTriggeringPointIdent", "IDENT", access_point(), writable=False, readable=False)
ClassSpec("ExternalTriggeringPoint", "EXTERNAL-TRIGGERING-POINT", [
    Child("ident", "IDENT", "ExternalTriggeringPointIdent"),
    Child("trigger", "TRIGGER-IREF", "PTriggerInAtomicSwcTypeInstanceRef")])
ident_class("InternalTriggeringPoint", "INTERNAL-TRIGGERING-POINT", access_point() + [
    Enum("sw_impl_policy", "SW-IMPL-POLICY", "SwImplPolicy")])
ident_class("ModeAccessPointIdent", "IDENT", access_point(), writable=False, readable=False)


class ModeGroupChoice(Child):
    """MODE-GROUP-IREF with one of two reference types inside"""

    def __init__(self):
        super().__init__("mode_group", None, ["PModeGroupInAtomicSwcInstanceRef", "RModeGroupInAtomicSwcInstanceRef"],
                         wrapper="MODE-GROUP-IREF")


ClassSpec("ModeAccessPoint", "MODE-ACCESS-POINT", [
    Child("ident", "IDENT", "ModeAccessPointIdent"), ModeGroupChoice()])
ident_class("ModeSwitchPoint", "MODE-SWITCH-POINT", access_point() + [
    Child("mode_group", "MODE-GROUP-IREF", "PModeGroupInAtomicSwcInstanceRef")])
ClassSpec("ParameterInAtomicSwcTypeInstanceRef", "AUTOSAR-PARAMETER-IREF", [
    Ref("port_prototype", "PORT-PROTOTYPE-REF", "PortPrototypeRef"),
    Ref("root_parameter_data_prototype", "ROOT-PARAMETER-DATA-PROTOTYPE-REF", "DataPrototypeRef"),
    Ref("context_data_prototype", "CONTEXT-DATA-PROTOTYPE-REF", "ApplicationCompositeElementDataPrototypeRef"),
    Ref("target_data_prototype", "TARGET-DATA-PROTOTYPE-REF", "DataPrototypeRef")])
ClassSpec("AutosarParameterRef", ["ACCESSED-PARAMETER", "PARAMETER-INSTANCE"], [
    Child("autosar_parameter", "AUTOSAR-PARAMETER-IREF", "ParameterInAtomicSwcTypeInstanceRef"),
    Ref("local_parameter", "LOCAL-PARAMETER-REF", "DataPrototypeRef")])
ident_class("ParameterAccess", "PARAMETER-ACCESS", access_point() + [
    Child("accessed_parameter", "ACCESSED-PARAMETER", "AutosarParameterRef"),
    PropsKind("sw_data_def_props", "SW-DATA-DEF-PROPS")])
ident_class("WaitPoint", "WAIT-POINT", [Flt("timeout", "TIMEOUT"), Ref("trigger", "TRIGGER-REF", "RteEventRef")])


class Areas(Listed):
    """CAN-ENTERS / RUNS-INSIDES: the element names changed with schema version 50"""

    def __init__(self, attr, old, new):
        super().__init__(attr, None)
        self.old, self.new = old, new

    def gen(self, g):
        return [(g.path(), "EXCLUSIVE_AREA") for _ in range(g.some())]

    def build(self, v, rng):
        res = []
        for x in v:
            ref = make_ref("ExclusiveAreaRef", x)
            pick = rng.randint(0, 2) if rng is not None else 0
            res.append(ar_element.ExclusiveAreaRefConditional(ref) if pick == 0 else ref if pick == 1 else x[0])
        if len(res) == 1 and rng is not None and rng.random() < 0.5:
            return res[0]
        return res

    def nodes(self, v, ver):
        if ver < 50:
            return [Node(self.old + "S", [ref_node(self.old, x) for x in v])]
        return [Node(self.new, [Node("EXCLUSIVE-AREA-REF-CONDITIONAL", [ref_node("EXCLUSIVE-AREA-REF", x)])
                                for x in v])]

    def check(self, actual, v, path):
        self.length(actual, v, path)
        for item, want in zip(actual, v):
            if type(item) is not ar_element.ExclusiveAreaRefConditional:
                fail(path, f"expected ExclusiveAreaRefConditional, got {item!r}")
            check_ref(item.exclusive_area, "ExclusiveAreaRef", want, path)


def executable_entity():
    return [Children("activation_reasons", "ACTIVATION-REASONS", "ExecutableEntityActivationReason"),
            Areas("can_enter_leave", "CAN-ENTER-EXCLUSIVE-AREA-REF", "CAN-ENTERS"),
            Refs("exclusive_area_nesting_order", "EXCLUSIVE-AREA-NESTING-ORDER-REFS",
                 "EXCLUSIVE-AREA-NESTING-ORDER-REF", "ExclusiveAreaNestingOrderRef"),
            Flt("minimum_start_interval", "MINIMUM-START-INTERVAL"),
            Enum("reentrancy_level", "REENTRANCY-LEVEL", "ReentrancyLevel"),
            Areas("runs_insides", "RUNS-INSIDE-EXCLUSIVE-AREA-REF", "RUNS-INSIDES"),
            Ref("sw_addr_method", "SW-ADDR-METHOD-REF", "SwAddrMethodRef", str_ok=True)]


def accesses(attr, wrapper):
    return Children(attr, wrapper, "VariableAccess")


ident_class("RunnableEntity", "RUNNABLE-ENTITY", executable_entity() + [
    Children("argument", "ARGUMENTS", "RunnableEntityArgument"),
    Children("async_server_call_result_point", "ASYNCHRONOUS-SERVER-CALL-RESULT-POINTS",
             "AsynchronousServerCallResultPoint"),
    Bool("can_be_invoked_concurrently", "CAN-BE-INVOKED-CONCURRENTLY"),
    accesses("data_read_access", "DATA-READ-ACCESSS"),
    accesses("data_receive_point_by_argument", "DATA-RECEIVE-POINT-BY-ARGUMENTS"),
    accesses("data_receive_point_by_value", "DATA-RECEIVE-POINT-BY-VALUES"),
    accesses("data_send_point", "DATA-SEND-POINTS"),
    accesses("data_write_access", "DATA-WRITE-ACCESSS"),
    Children("external_triggering_point", "EXTERNAL-TRIGGERING-POINTS", "ExternalTriggeringPoint"),
    Children("internal_triggering_point", "INTERNAL-TRIGGERING-POINTS", "InternalTriggeringPoint"),
    Children("mode_access_point", "MODE-ACCESS-POINTS", "ModeAccessPoint"),
    Children("mode_switch_point", "MODE-SWITCH-POINTS", "ModeSwitchPoint"),
    Children("parameter_access", "PARAMETER-ACCESSS", "ParameterAccess"),
    accesses("read_local_variable", "READ-LOCAL-VARIABLES"),
    Children("server_call_point", "SERVER-CALL-POINTS",
             ["AsynchronousServerCallPoint", "SynchronousServerCallPoint"]),
    Text("symbol", "SYMBOL", dom=Gen.ident),
    Children("wait_point", "WAIT-POINTS", "WaitPoint"),
    accesses("write_local_variable", "WRITTEN-LOCAL-VARIABLES")])


def rte_event(name, tag, members):
    ident_class(name, tag, [
        Children("disabled_modes", "DISABLED-MODE-IREFS", "RModeInAtomicSwcInstanceRef", tag="DISABLED-MODE-IREF"),
        Ref("start_on_event", "START-ON-EVENT-REF", "RunnableEntityRef", str_ok=True)] + members)


def source(ref_class):
    return [Ref("event_source", "EVENT-SOURCE-REF", ref_class, str_ok=True)]


class ModeIrefs(Kind):
    """MODE-IREFS of a mode switch event: one reference or a (from, to) pair"""

    def usable(self, g):
        return g.depth > 0

    def gen(self, g):
        return [SPECS["RModeInAtomicSwcInstanceRef"].gen(g) for _ in range(g.rng.choice([1, 2]))]

    def build(self, v, rng):
        items = tuple(x.build(rng) for x in v)
        return items if len(items) == 2 else items[0]

    def nodes(self, v, ver):
        return [Node("MODE-IREFS", [x.node(ver, "MODE-IREF") for x in v])]

    def check(self, actual, v, path):
        items = actual if isinstance(actual, tuple) else (actual,)
        if len(items) != len(v):
            fail(path, f"expected {len(v)} mode references, got {actual!r}")
        for item, want in zip(items, v):
            want.check(item, path)


rte_event("AsynchronousServerCallReturnsEvent", "ASYNCHRONOUS-SERVER-CALL-RETURNS-EVENT",
          source("AsynchronousServerCallResultPointRef"))
rte_event("BackgroundEvent", "BACKGROUND-EVENT", [])
rte_event("DataReceiveErrorEvent", "DATA-RECEIVE-ERROR-EVENT", [
    Child("data", "DATA-IREF", "RVariableInAtomicSwcInstanceRef")])
rte_event("DataReceivedEvent", "DATA-RECEIVED-EVENT", [
    Child("data", "DATA-IREF", "RVariableInAtomicSwcInstanceRef")])
rte_event("DataSendCompletedEvent", "DATA-SEND-COMPLETED-EVENT", source("VariableAccessRef"))
rte_event("DataWriteCompletedEvent", "DATA-WRITE-COMPLETED-EVENT", source("VariableAccessRef"))
rte_event("ExternalTriggerOccurredEvent", "EXTERNAL-TRIGGER-OCCURRED-EVENT", [
    Child("trigger", "TRIGGER-IREF", "RTriggerInAtomicSwcInstanceRef")])
rte_event("InitEvent", "INIT-EVENT", [])
rte_event("InternalTriggerOccurredEvent", "INTERNAL-TRIGGER-OCCURRED-EVENT", source("InternalTriggeringPointRef"))
rte_event("ModeSwitchedAckEvent", "MODE-SWITCHED-ACK-EVENT", source("ModeSwitchPointRef"))
rte_event("OperationInvokedEvent", "OPERATION-INVOKED-EVENT", [
    Child("operation", "OPERATION-IREF", "POperationInAtomicSwcInstanceRef")])
rte_event("SwcModeManagerErrorEvent", "SWC-MODE-MANAGER-ERROR-EVENT", [
    Child("mode_group", "MODE-GROUP-IREF", "PModeGroupInAtomicSwcInstanceRef")])
rte_event("SwcModeSwitchEvent", "SWC-MODE-SWITCH-EVENT", [
    Enum("activation", "ACTIVATION", "ModeActivationKind"), ModeIrefs("mode", "MODE-IREFS")])
rte_event("TimingEvent", "TIMING-EVENT", [Flt("offset", "OFFSET"), Flt("period", "PERIOD")])
rte_event("TransformerHardErrorEvent", "TRANSFORMER-HARD-ERROR-EVENT", [
    Child("operation", "OPERATION-IREF", "POperationInAtomicSwcInstanceRef"),
    Child("required_trigger", "REQUIRED-TRIGGER-IREF", "RTriggerInAtomicSwcInstanceRef"),
    Child("trigger", "TRIGGER-IREF", "PTriggerInAtomicSwcTypeInstanceRef")])
EVENTS = ["AsynchronousServerCallReturnsEvent", "BackgroundEvent", "DataReceiveErrorEvent", "DataReceivedEvent",
          "DataSendCompletedEvent", "DataWriteCompletedEvent", "ExternalTriggerOccurredEvent", "InitEvent",
          "InternalTriggerOccurredEvent", "ModeSwitchedAckEvent", "OperationInvokedEvent",
          "SwcModeManagerErrorEvent", "SwcModeSwitchEvent", "TimingEvent", "TransformerHardErrorEvent"]
ClassSpec("PortDefinedArgumentValue", "PORT-DEFINED-ARGUMENT-VALUE", [
    Value("value", "VALUE"), Ref("value_type", "VALUE-TYPE-TREF", "ImplementationDataTypeRef", str_ok=True)])
ClassSpec("CommunicationBufferLocking", "COMMUNICATION-BUFFER-LOCKING", [
    Enum("support_buffer_locking", "SUPPORT-BUFFER-LOCKING", "SupportBufferLocking")])
ClassSpec("PortApiOption", "PORT-API-OPTION", [
    Bool("enable_take_address", "ENABLE-TAKE-ADDRESS"),
    Enum("error_handling", "ERROR-HANDLING", "DataTransformationErrorHandling"),
    Bool("indirect_api", "INDIRECT-API"),
    Children("port_arg_values", "PORT-ARG-VALUES", "PortDefinedArgumentValue"),
    Ref("port", "PORT-REF", "PortPrototypeRef", fresh=True),
    Children("supported_features", "SUPPORTED-FEATURES", "CommunicationBufferLocking"),
    Enum("transformer_status_forwarding", "TRANSFORMER-STATUS-FORWARDING", "DataTransformationStatusForwarding")])
ident_class("ExclusiveArea", "EXCLUSIVE-AREA", [], writable=False, readable=False)
class PortOptions(Children):
    """PORT-API-OPTIONS: kept by port name, one per port"""

    def gen(self, g):
        items = super().gen(g)
        for item in items:
            g.last_path = None
            item.vals.setdefault("port", (g.path(), g.rng.choice(REF_DESTS["PortPrototypeRef"])))
        return items

    def check(self, actual, v, path):
        if list(actual) != [x.vals["port"][0].rsplit("/", 1)[-1] for x in v]:
            fail(path, f"expected one option per port in document order, got {list(actual)}")
        super().check(list(actual.values()), v, path)

    def absent(self, actual, path):
        super().absent(list(actual.values()), path)


ident_class("SwcInternalBehavior", "SWC-INTERNAL-BEHAVIOR", [
    Refs("data_type_mappings", "DATA-TYPE-MAPPING-REFS", "DATA-TYPE-MAPPING-REF", "DataTypeMappingSetRef"),
    Children("exclusive_areas", "EXCLUSIVE-AREAS", "ExclusiveArea"),
    Children("events", "EVENTS", EVENTS),
    PortOptions("port_api_options", "PORT-API-OPTIONS", "PortApiOption"),
    Children("runnables", "RUNNABLES", "RunnableEntity")])


# --------------------------------------------------------------------------------------------- packages

class PackageSpec(ClassSpec):
    """AR-PACKAGE with elements and sub-packages"""

    def __init__(self):
        super().__init__("Package", "AR-PACKAGE", identifiable(), required=["name"])

    def build(self, inst, rng):
        package = super().build(inst, rng)
        for item in inst.vals.get("#elements", []):
            package.append(item.build(rng))
        for item in inst.vals.get("#packages", []):
            package.append(item.build(rng))
        return package

    def node(self, inst, ver, tag=None):
        node = super().node(inst, ver, tag)
        if inst.vals.get("#elements"):
            node.add(Node("ELEMENTS", [x.node(ver) for x in inst.vals["#elements"]]))
        if inst.vals.get("#packages"):
            node.add(Node("AR-PACKAGES", [x.node(ver) for x in inst.vals["#packages"]]))
        return node

    def check(self, inst, actual, path=""):
        super().check(inst, actual, path)
        for attr, key in (("elements", "#elements"), ("packages", "#packages")):
            want = inst.vals.get(key, [])
            got = list(getattr(actual, attr))
            where = f"{path}>Package.{attr}"
            if [x.name for x in got] != [x.name for x in want]:
                fail(where, f"expected {[x.name for x in want]}, got {[x.name for x in got]}")
            for item, exp in zip(got, want):
                exp.check(item, where)


PackageSpec()

COLLECTABLE = sorted(n for n, s in SPECS.items() if s.collectable)


def gen_package(g: Gen, levels=2, elements=3, classes=None, least=0) -> Inst:
    """Package tree with elements of the given classes"""
    inst = SPECS["Package"].gen(g)
    inst.vals["#elements"] = [SPECS[g.rng.choice(classes or COLLECTABLE)].gen(g)
                              for _ in range(g.rng.randint(min(least, elements), elements))]
    inst.vals["#packages"] = []
    if levels > 0:
        for _ in range(g.rng.randint(0, 2)):
            inst.vals["#packages"].append(gen_package(g, levels - 1, elements, classes, least))
    return inst


def self_test():
    """The description must cover every member the public constructors take (harness sanity only)"""
    missing = []
    for name in SPECS:
        if not hasattr(ar_element, name):
            missing.append(name)
    if missing:
        raise HarnessError(f"classes not found: {missing}")

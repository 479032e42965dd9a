"""C18: the implementation model mirrors the data types of the workspace, and dependencies come first"""
import autosar.xml.element as E
import autosar.xml.enumeration as AE
import autosar.model.element as R
from autosar.model import ImplementationModel
from autosar.xml import Workspace
from arv.harness import Violation

RULE = ("random graphs of base types, values, type references, arrays, records and pointers (shared, deep, in several "
        "packages, with symbols, emitters and array properties), created in the model in random order as source or "
        "dependency, by reference or element, also with broken and unsupported ones; after every call the whole model is "
        "compared with a reference model, then dependency trees and creation order; distinct = distinct (kind of type, "
        "options, how created, known before, size of the graph)")
ASSUMPTIONS = ["no type depends on itself", "arrays have one dimension"]
ASCII_SHARD = True
QUICK_S = 7.0
THOROUGH_S = 100.0
MIN_DISTINCT = 300

NATIVE = ["unsigned char", "signed short int", "float", "unsigned long long", "char", "double", "unsigned int", "int"]
POLICY = {None: None, AE.ArrayImplPolicy.PAYLOAD_AS_ARRAY: "PAYLOAD_AS_ARRAY",
          AE.ArrayImplPolicy.PAYLOAD_AS_POINTER_TO_ARRAY: "PAYLOAD_AS_POINTER_TO_ARRAY"}
HANDLING = {None: None, AE.ArraySizeHandling.ALL_INDICES_DIFFERENT_ARRAY_SIZE: "ALL_INDICES_DIFFERENT_ARRAY_SIZE",
            AE.ArraySizeHandling.ALL_INDICES_SAME_ARRAY_SIZE: "ALL_INDICES_SAME_ARRAY_SIZE",
            AE.ArraySizeHandling.INHERITED_FROM_ARRAY_ELEMENT_TYPE_SIZE: "INHERITED_FROM_ARRAY_ELEMENT_TYPE_SIZE"}
SEMANTICS = {None: None, AE.ArraySizeSemantics.FIXED_SIZE: "FIXED_SIZE", AE.ArraySizeSemantics.VARIABLE_SIZE: "VARIABLE_SIZE"}
CLASSES = {"base": R.BaseType, "value": R.ScalarType, "reference": R.RefType, "array": R.ArrayType, "record": R.RecordType,
           "pointer": R.PointerType}


class Type:
    """Expected data type"""

    def __init__(self, kind, name, ref):
        self.kind, self.name, self.ref = kind, name, ref
        self.native = self.symbol = self.emitter = None
        self.target = None     # value: base type, reference: type, pointer: either
        self.members = []      # (name, "value" or "reference", target)
        self.size = None
        self.array = (None, None, None)
        self.broken = False
        self.element = None

    @property
    def c_name(self):
        """Name of the type in C"""
        return self.symbol if self.symbol is not None else self.name

    def children(self):
        """Types that have to be declared before this one"""
        if self.kind in ("value", "reference", "pointer"):
            return [self.target]
        return [target for (_, category, target) in self.members if category == "reference"]

    def direct(self):
        """Everything that belongs into the model when this type does"""
        if self.kind in ("value", "reference", "pointer"):
            return [self.target]
        return [target for (_, _, target) in self.members]

    def closure(self, found=None):
        """This type and all that it needs"""
        found = {} if found is None else found
        if self.ref not in found:
            found[self.ref] = self
            for item in self.direct():
                item.closure(found)
        return found

    def is_broken(self):
        """Something in it can't be created"""
        return any(x.broken for x in self.closure().values())


class Graph:
    """Types in a workspace"""

    def __init__(self, rng, size, pointers=True, broken=False, chain=False, empty_arrays=False, wide=0):
        self.rng = rng
        self.chain = chain
        self.empty_arrays = empty_arrays
        self.wide = 0
        self.workspace = Workspace()
        self.types = []
        self.pointers = pointers
        paths = ["Types", "Types/Base", "Other", "Types/Impl/Deep"][:rng.randint(1, 4)]
        self.packages = [self.workspace.make_packages(x) for x in paths]
        self.paths = ["/" + x for x in paths]
        self.names = []
        for number in range(size):
            self.add(number, broken)
        if wide:
            self.wide = wide
            self.add(size, False)

    def name(self):
        """New name"""
        while True:
            name = self.rng.choice(["T", "Type", "uint8", "Speed", "a", "Z"]) + "_" + str(self.rng.randrange(1000))
            name += self.rng.choice(["", "_T", "_t"])
            if self.names and self.rng.random() < 0.2:
                other = self.rng.choice(self.names)
                name = self.rng.choice([other + "_1", "a" + other, other + "x", other.upper(), other.swapcase()])
            if name not in self.names:
                self.names.append(name)
                return name

    def other_name(self, path):
        """A name (or symbol) of a type that no type in the package has"""
        names = [x for x in self.names if f"{path}/{x}" not in {t.ref for t in self.types}]
        return self.rng.choice(names) if names else None

    def props(self, target):
        """Data definition that refers to target"""
        ref = target if isinstance(target, str) else target.ref
        if not isinstance(target, str) and target.kind == "base":
            return E.SwDataDefPropsConditional(base_type_ref=E.SwBaseTypeRef(ref))
        return E.SwDataDefPropsConditional(impl_data_type_ref=E.ImplementationDataTypeRef(ref))

    def add(self, number, broken):
        """Add one type"""
        rng = self.rng
        bases = [t for t in self.types if t.kind == "base"]
        others = [t for t in self.types if t.kind not in ("base", "pointer") or self.pointers and t.kind == "pointer"]
        others = others[-rng.randint(1, 4):] if rng.random() < 0.4 else others
        if self.chain:
            others = others[-1:]
        kinds = ["base"]
        if bases:
            kinds += ["value", "value", "array", "record"]
            if self.pointers:
                kinds.append("pointer")
        if others:
            kinds += ["reference", "reference", "record", "record"]
        if self.chain and others:
            kinds = ["reference", "array", "record", rng.choice(kinds)]
        kind = rng.choice(kinds) if number else "base"
        if self.wide:
            kind = "record"
        place = rng.randrange(len(self.paths))
        name = self.other_name(self.paths[place]) if kind != "base" and rng.random() < 0.15 else None
        item = Type(kind, name or self.name(), None)
        item.ref = f"{self.paths[place]}/{item.name}"
        if kind == "base":
            item.native = rng.choice([None, None, *NATIVE])
            item.element = E.SwBaseType(item.name, native_declaration=item.native)
        else:
            self.fill(item, bases, others, broken, name is not None)
        self.types.append(item)
        self.packages[place].append(item.element)

    def member(self, bases, others):
        """(category, target) of an element"""
        if others and self.rng.random() < (0.9 if self.chain else 0.5):
            return "reference", self.rng.choice(others)
        return "value", self.rng.choice(bases)

    def fill(self, item, bases, others, broken, needs_symbol):
        """Make the element of an implementation data type"""
        rng = self.rng
        kwargs = {}
        if needs_symbol or rng.random() < 0.3:
            item.symbol = self.name()
            kwargs["symbol_props"] = E.SymbolProps("Symbol" + item.name, symbol=item.symbol)
        elif rng.random() < 0.2:
            kwargs["symbol_props"] = E.SymbolProps("Symbol" + item.name)
        item.emitter = rng.choice([None, None, None, None, "RTE", "rte", "Rte", "Platform", "BSW", "RTE2", ""])
        if item.emitter is not None:
            kwargs["type_emitter"] = item.emitter
        bad = rng.choice(["unknown", "category", "type"]) if broken and rng.random() < 0.15 else None
        if bad:
            item.broken = True
        if item.kind == "value":
            item.target = rng.choice(bases)
            target = "/Nowhere/Base" if bad == "unknown" else item.target
            props = E.SwDataDefPropsConditional(base_type_ref=E.SwBaseTypeRef(target if isinstance(target, str) else
                                                                              target.ref))
            category = "VALUE"
            kwargs["sw_data_def_props"] = props
        elif item.kind == "reference":
            item.target = rng.choice(others)
            kwargs["sw_data_def_props"] = self.props("/Nowhere/Type" if bad == "unknown" else item.target)
            category = "TYPE_REFERENCE"
        elif item.kind == "pointer":
            sort, item.target = self.member(bases, others)
            inner = E.SwDataDefProps(self.props("/Nowhere/Type" if bad == "unknown" and sort == "reference"
                                                else item.target))
            item.broken = bad == "category" or bad == "unknown" and sort == "reference" or bad == "type"
            pointer = E.SwPointerTargetProps({"value": "VALUE", "reference": "TYPE_REFERENCE"}[sort], inner)
            kwargs["sw_data_def_props"] = E.SwDataDefPropsConditional(ptr_target_props=pointer)
            category = "DATA_REFERENCE"
        else:
            kwargs["sub_elements"] = self.elements(item, bases, others, bad)
            category = {"array": "ARRAY", "record": "STRUCTURE"}[item.kind]
        if bad in ("category", "type") and item.kind not in ("array", "record"):
            category = rng.choice(["UNION", "FOO"])
        item.element = E.ImplementationDataType(item.name, category=category, **kwargs)

    def elements(self, item, bases, others, bad):
        """Elements of an array or record"""
        rng = self.rng
        elements = []
        count = 1 if item.kind == "array" else rng.randint(1, 5)
        if item.kind == "record" and rng.random() < 0.05:
            count = 10
        if self.chain:
            count = 1
        if self.wide:
            count = self.wide
        wrong = rng.randrange(count)
        names = ["First", "Second", "x", "y", "Value", "Item", "a_b", "m1", "m2", "M3"]
        names = rng.sample(names, count) if count <= 10 else [f"m{x}" for x in range(count)]
        for index, name in enumerate(names):
            sort, target = self.member(bases, others)
            item.members.append((name, sort, target))
            kwargs = {}
            category = {"value": "VALUE", "reference": "TYPE_REFERENCE"}[sort]
            if bad and index == wrong:
                if bad == "unknown":
                    target, category = "/Nowhere/Type", "TYPE_REFERENCE"
                else:
                    category = rng.choice(["STRUCTURE", "ARRAY", "UNION", "FOO"])
            if item.kind == "array":
                item.size = kwargs["array_size"] = rng.choice([1, 2, 3, 8, 255, 100000, rng.randint(1, 50)])
                if self.empty_arrays and rng.random() < 0.2:
                    item.size = kwargs["array_size"] = 0
                policy, handling, semantics = (rng.choice(list(x)) if rng.random() < 0.4 else None
                                               for x in (POLICY, HANDLING, SEMANTICS))
                kwargs.update(array_impl_policy=policy, array_size_handling=handling, array_size_semantics=semantics)
                item.array = (POLICY[policy], HANDLING[handling], SEMANTICS[semantics])
            elements.append(E.ImplementationDataTypeElement(name, category=category, sw_data_def_props=self.props(target),
                                                            **kwargs))
        return elements


class Monitor:
    """A model and what should be in it"""

    def __init__(self, graph):
        self.graph = graph
        self.model = ImplementationModel(graph.workspace)
        self.known = {}
        self.sources = set()
        self.objects = {}

    def create(self, item, how, source):
        """Create one type"""
        known = item.ref in self.known
        if item.is_broken():
            return self.create_broken(item, how, source)
        if how == "element":
            result = self.model.create_from_element(item.element, source)
        else:
            ref = item.element.ref() if how == "ref" else item.ref
            result = self.model.create_from_ref(ref, source)
        self.known.update(item.closure())
        if source:
            self.sources.add(item.ref)
        if result is not self.model.data_types.get(item.ref):
            raise Violation("result", f"creating {item.ref} gives {result!r}, the model has "
                                      f"{self.model.data_types.get(item.ref)!r}")
        return "again" if known else "new"

    def create_broken(self, item, how, source):
        """A type that has to be refused"""
        try:
            if how == "element":
                result = self.model.create_from_element(item.element, source)
            else:
                result = self.model.create_from_ref(item.ref, source)
        except (KeyError, NotImplementedError):
            pass
        else:
            raise Violation("accepted-broken", f"{item.kind} {item.ref}: {result!r}")
        for ref in self.model.data_types:   # what it needs may be there already
            found = [t for t in item.closure().values() if t.ref == ref and not t.is_broken()]
            if found:
                self.known.update(found[0].closure())
        return "refused"

    def check(self):
        """Compare the model"""
        types = self.model.data_types
        if set(types) != set(self.known):
            raise Violation("types", f"unexpected {sorted(set(types) - set(self.known))}, missing "
                                     f"{sorted(set(self.known) - set(types))}")
        if set(self.model.source_type_refs) != self.sources:
            raise Violation("sources", f"expected {sorted(self.sources)}, got {sorted(self.model.source_type_refs)}")
        for ref, item in self.known.items():
            if ref in self.objects and self.objects[ref] is not types[ref]:
                raise Violation("replaced", f"{ref} is another object now")
            self.objects[ref] = types[ref]
            self.check_type(item, types[ref])

    def expect(self, where, expected, got):
        """Compare one value"""
        if type(expected) is not type(got) or expected != got:
            raise Violation(where, f"expected {expected!r}, got {got!r}")

    def same(self, where, item, got):
        """The one object of a type is used everywhere"""
        if got is not self.model.data_types[item.ref]:
            raise Violation(where, f"expected the type {item.ref}, got {got!r}")

    def check_type(self, item, got):
        """Compare one type"""
        kind = item.kind
        if type(got) is not CLASSES[kind]:
            raise Violation(f"class-{kind}", f"{item.ref} is a {type(got).__name__}")
        self.expect(f"{kind}.ref", item.ref, got.ref)
        self.expect(f"{kind}.name", item.name, got.name)
        if kind == "base":
            self.expect("base.native_declaration", item.native, got.native_declaration)
            return
        self.expect(f"{kind}.symbol_name", item.c_name, got.symbol_name)
        self.expect(f"{kind}.type_emitter", item.emitter, got.type_emitter)
        self.expect(f"{kind}.const", False, got.const)
        if kind in ("value", "reference", "pointer"):
            self.same(f"{kind}.target", item.target, getattr(got, {"value": "base_type", "reference": "impl_type",
                                                                   "pointer": "target_type"}[kind]))
            return
        self.expect(f"{kind}.elements", [x[0] for x in item.members], [x.name for x in got.sub_elements])
        for (name, sort, target), element in zip(item.members, got.sub_elements):
            ref = f"{item.ref}/{name}"
            self.expect(f"{kind}-element.ref", ref, element.ref)
            inner = element.data_type
            if type(inner) is not CLASSES[sort]:
                raise Violation(f"{kind}-element.class", f"{ref} is a {type(inner).__name__}")
            self.expect(f"{kind}-element.type.ref", ref, inner.ref)
            self.expect(f"{kind}-element.type.name", name, inner.name)
            self.same(f"{kind}-element.{sort}", target, inner.base_type if sort == "value" else inner.impl_type)
        if kind == "array":
            element = got.sub_elements[0]
            self.expect("array.size", item.size, element.array_size)
            self.expect("array.options", item.array, tuple(
                x and x.name for x in (element.impl_policy, element.size_handling, element.size_semantics)))

    def check_order(self, ctx):
        """Compare trees and creation order"""
        roots = self.model.gen_type_dependency_trees()
        self.expect("roots", sorted(self.sources), [x.data.ref for x in roots])
        budget = [12000]
        for root in roots:
            nodes = self.check_node(root, budget)
            if budget[0] <= 0:
                return
            order = list(self.model.get_type_creation_order(root))
            self.expect("order-nodes", sorted(map(id, nodes)), sorted(map(id, order)))
            if order[-1] is not root:
                raise Violation("order-root", f"{root.data.ref} is not the last one")
            places = {}
            for place, node in enumerate(order):
                places.setdefault(node.data.ref, place)
            for node in order:
                for child in self.known[node.data.ref].children():
                    if places[child.ref] >= places[node.data.ref]:
                        raise Violation("order", f"{child.ref} comes after {node.data.ref}, which needs it")
            ctx.count("trees")

    def check_node(self, node, budget):
        """All nodes of a tree"""
        budget[0] -= 1
        if budget[0] <= 0:
            return []
        item = self.known[node.data.ref]
        if node.data is not self.model.data_types[item.ref]:
            raise Violation("tree-node", f"{item.ref} is another object")
        self.expect(f"children-{item.kind}", [x.ref for x in item.children()], [x.data.ref for x in node.children])
        found = [node]
        for child in node.children:
            found += self.check_node(child, budget)
        return found


def paths(item, memo):
    """Number of nodes in the tree of a type"""
    if item.ref not in memo:
        memo[item.ref] = 1 + sum(paths(x, memo) for x in item.children())
    return memo[item.ref]


def judge(ctx, rng, reload=None):
    pointers = rng.random() < 0.4
    chain = not pointers and rng.random() < 0.05
    size = rng.choice([30, 80]) if chain else rng.choice([2, 4, 8, 14, 22]) if rng.random() < 0.97 else 60
    wide = rng.choice([40, 150, 400]) if not pointers and rng.random() < 0.03 else 0
    graph = Graph(rng, min(size, 8) if wide else size, pointers, rng.random() < 0.4 and not chain and not wide, chain,
                  True, wide)
    if reload is not None:
        reload(graph)
    monitor = Monitor(graph)
    memo = {}
    for _ in range(rng.randint(1, 8) if rng.random() < 0.95 else 24):
        item = rng.choice(graph.types[-3:] if chain or wide and rng.random() < 0.5 else graph.types)
        if paths(item, memo) > 3000:
            continue
        source = not pointers and rng.random() < 0.7
        how = rng.choice(["element", "ref", "text"])
        outcome = monitor.create(item, how, source)
        monitor.check()
        ctx.count("created" if outcome != "refused" else "refused")
        sorts = "".join(sorted(x[1][0] for x in item.members))
        ctx.case(f"{item.kind}/{how}/{source}/{outcome}/{item.symbol is not None}/{item.emitter}/{item.array}/{sorts}/"
                 f"{min(6, len(item.closure()) // 2)}"
                 f"/{size > 22}/{wide}")
    if not pointers:
        monitor.check_order(ctx)
    for ref in ("/Nowhere/Type", "/Types/NoSuchType", "Types", "/Types"):
        try:
            monitor.model.create_from_ref(ref)
        except (KeyError, NotImplementedError, AttributeError):
            continue
        raise Violation("accepted-unknown", ref)
    monitor.check()
    if not pointers:
        monitor.check_order(ctx)


def run(ctx):
    for _, rng in ctx.loop("graphs", 300, 0.97):
        ctx.guard(judge, ctx, rng)

"""C14: ports made from a port interface carry the interface, and one com-spec per element with exactly the given settings"""
import autosar.xml as ar_xml
import autosar.xml.element as E
import autosar.xml.enumeration as ar_enum
from arv import xio
from arv.harness import Violation
from arv.model import Gen, Inst, SPECS, PROVIDE_SPECS, REQUIRE_SPECS
from arv.xmltree import diff, parse, first_tag_path
from checks.c11 import gen_data

RULE = ("a component in a random workspace gets ports for interfaces of every kind, with com-specs in every accepted form "
        "(and in wrong forms, which must be refused without effect); the ports and the XML of the component are compared "
        "with the reference model; distinct = distinct (kind of port, kind of interface, form and shape of the com-specs)")
ASSUMPTIONS = ["port interfaces belong to the workspace before ports are made",
               "names of data elements and operations are not those of the arguments of the methods"]
ASCII_SHARD = True
QUICK_S = 9.0
THOROUGH_S = 150.0
MIN_DISTINCT = 1200

REFUSALS = (TypeError, ValueError, NotImplementedError, AssertionError, KeyError)
ACCIDENTS = (AttributeError, IndexError)
WRONG_TYPES = {"kind", "number", "list-wrong", "tuple-length", "inner-kind", "bad-init", "set-ref"}
QUEUED = ar_enum.SwImplPolicy.QUEUED


class Face:
    """A port interface with what its com-specs look like"""

    def __init__(self, rng, g, ws, kind, count=None):
        self.kind = kind
        package = "/".join(g.ident() for _ in range(rng.choice([1, 2, 3, rng.choice([3, 12])])))
        self.name = g.ident()
        self.path = f"/{package}/{self.name}"
        self.names = []
        self.queued = {}
        count = rng.choice([1, 1, 2, 3, 5, 5, rng.choice([5, 9, 17])]) if count is None else count
        for _ in range(count):
            name = g.ident()
            self.names.append(name)
            self.queued[name] = rng.random() < 0.4
        if kind in ("SR", "NV"):
            self.elements = [E.VariableDataPrototype(n, sw_data_def_props=self.props(rng, self.queued[n]))
                             for n in self.names]
            cls = E.SenderReceiverInterface if kind == "SR" else E.NvDataInterface
            self.obj = cls(self.name, data_elements=self.elements)
            self.dest = "SENDER_RECEIVER_INTERFACE" if kind == "SR" else "NV_DATA_INTERFACE"
        elif kind == "CS":
            self.elements = [E.ClientServerOperation(n) for n in self.names]
            self.obj = E.ClientServerInterface(self.name, operations=self.elements)
            self.dest = "CLIENT_SERVER_INTERFACE"
        elif kind == "PAR":
            self.elements = [E.ParameterDataPrototype(n) for n in self.names]
            self.obj = E.ParameterInterface(self.name, parameters=self.elements)
            self.dest = "PARAMETER_INTERFACE"
        else:
            self.names = self.names[:1]
            self.elements = [E.ModeDeclarationGroupPrototype(n) for n in self.names]
            self.obj = E.ModeSwitchInterface(self.name, mode_group=self.elements[0] if self.elements else None)
            self.dest = "MODE_SWITCH_INTERFACE"
        ws.make_packages(package).append(self.obj)

    @staticmethod
    def props(rng, queued):
        if queued:
            return E.SwDataDefPropsConditional(impl_policy=QUEUED)
        return rng.choice([None, E.SwDataDefPropsConditional(), E.SwDataDefPropsConditional(
            impl_policy=rng.choice([x for x in ar_enum.SwImplPolicy if x is not QUEUED]))])

    @property
    def single(self):
        return self.kind == "MS" or len(self.names) == 1

    def spec_class(self, name, provide):
        """(class of the com-spec, member that refers to the element, its reference)"""
        path = f"{self.path}/{name}"
        if self.kind == "SR":
            queued = "Queued" if self.queued[name] else "Nonqueued"
            return (f"{queued}{'Sender' if provide else 'Receiver'}ComSpec", "data_element_ref",
                    (path, "VARIABLE_DATA_PROTOTYPE"))
        if self.kind == "CS":
            return ("ServerComSpec" if provide else "ClientComSpec", "operation_ref", (path, "CLIENT_SERVER_OPERATION"))
        return (f"ModeSwitch{'Sender' if provide else 'Receiver'}ComSpec", "mode_group_ref",
                (path, "MODE_DECLARATION_GROUP_PROTOTYPE"))

    def settings(self, name, provide, rng, g):
        """(keyword arguments, expected com-spec)"""
        cls, attr, ref = self.spec_class(name, provide)
        spec = SPECS[cls]
        inst = spec.gen(g)
        inst.vals.pop(attr, None)
        kwargs = {}
        for kind in spec.members:
            if kind.attr in inst.vals:
                if kind.attr == "init_value" and rng.random() < 0.7:
                    data, value, _ = gen_data(rng, g, rng.choice([0, 1, 2]))
                    if data is None or "True" in repr(data) or "False" in repr(data):
                        data, value = 7, Inst(SPECS["NumericalValueSpecification"], {"value": 7})
                    inst.vals["init_value"] = value
                    kwargs["init_value"] = data
                else:
                    kwargs[kind.arg] = kind.build(inst.vals[kind.attr], rng)
        inst.vals[attr] = ref
        return kwargs, inst


def ready(rng, g, provide):
    """(com-spec object, expected com-spec)"""
    inst = SPECS[rng.choice(PROVIDE_SPECS if provide else REQUIRE_SPECS)].gen(g)
    return inst.build(rng), inst


def com_specs(rng, g, face, provide, forms):
    """(form, argument, expected com-specs)"""
    form = rng.choice(forms)
    if form == "dict" and face.kind not in ("SR", "CS", "MS"):
        form = "none"
    if form == "tuples" and (face.single or face.kind not in ("SR", "CS")):
        form = "list"
    if form == "none":
        return form, None, []
    if form == "object":
        obj, inst = ready(rng, g, provide)
        return form, obj, [inst]
    if form == "list":
        pairs = [ready(rng, g, provide) for _ in range(rng.choice([0, 1, 2, 3, rng.choice([3, 8, 12])]))]
        items = [x[0] for x in pairs]
        return form, rng.choice([list, tuple])(items), [x[1] for x in pairs]
    names = rng.sample(face.names, len(face.names) if rng.random() < 0.15 else rng.randint(0 if form == "dict" else 1, len(face.names)))
    if form == "dict" and face.single:
        kwargs, inst = face.settings(face.names[0], provide, rng, g)
        return form, kwargs, [inst]
    made = {n: face.settings(n, provide, rng, g) for n in names}
    insts = [made[n][1] for n in face.names if n in made]
    if form == "dict":
        return form, {n: made[n][0] for n in names}, insts
    # ready-made ones first, the others in the order of the interface
    items = [(n, made[n][0]) for n in names]
    extra = [ready(rng, g, provide) for _ in range(rng.choice([0, 0, 1, 2, rng.choice([2, 8])]))]
    mixed = list(items)
    at = sorted(rng.randint(0, len(mixed)) for _ in extra)
    for offset, (pos, (obj, _)) in enumerate(zip(at, extra)):
        mixed.insert(pos + offset, obj)
    return form, mixed, [x[1] for x in extra] + insts


def flat(value):
    """Identity-preserving picture of an argument"""
    if isinstance(value, dict):
        return {k: flat(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [type(value).__name__] + [flat(v) for v in value]
    return id(value)


PORT_SPECS = {"P": "ProvidePortPrototype", "R": "RequirePortPrototype", "PR": "PRPortPrototype"}


class Component:
    """A component in a workspace with the ports it is expected to have"""

    def __init__(self, rng, g, ws):
        self.ws = ws
        package = "/".join(g.ident() for _ in range(rng.choice([1, 2])))
        self.cls = rng.choice(["ApplicationSoftwareComponentType", "CompositionSwComponentType"])
        self.inst = Inst(SPECS[self.cls], {"name": g.ident()})
        self.obj = getattr(E, self.cls)(self.inst.name)
        self.path = f"/{package}/{self.inst.name}"
        ws.make_packages(package).append(self.obj)
        self.ports = []
        self.faces = []

    def check(self, what):
        swc = self.obj
        if len(swc.ports) != len(self.ports):
            raise Violation(f"ports-{what}", f"{len(swc.ports)} ports instead of {len(self.ports)}")
        for port, inst in zip(swc.ports, self.ports):
            try:
                inst.check(port, what)
            except Violation as ex:
                raise Violation(f"{what}-{ex.key}", ex.what) from None
        if self.ports:
            self.inst.vals["ports"] = self.ports
        text = xio.write_elem(swc, self.inst.spec, None)
        found = diff(self.inst.node(51), parse(text))
        if found:
            raise Violation(f"xml-{what}-{first_tag_path(found)}", found, text)


def extras(rng, g, kind):
    """Other keyword arguments of a port"""
    inst = SPECS[PORT_SPECS[kind]].gen(g)
    for attr in ("name", "com_spec", "provided_com_spec", "required_com_spec", "port_interface_ref"):
        inst.vals.pop(attr, None)
    kwargs = {k.arg: k.build(inst.vals[k.attr], None) for k in inst.spec.members if k.attr in inst.vals}
    return kwargs, inst.vals


FORMS = ["none", "dict", "dict", "dict", "tuples", "list", "object"]


def judge_good(ctx, rng, reload=None):
    g = Gen(rng, edge="some", density=rng.choice([0, 0.15, 0.4]), depth=2, hostile=rng.choice([0, 0.3]), breadth=2)
    ws = ar_xml.Workspace()
    comp = Component(rng, g, ws)
    faces = [Face(rng, g, ws, rng.choice(["SR", "SR", "CS", "CS", "MS", "PAR", "NV"])) for _ in range(rng.randint(1, 3))]
    shapes = []
    for _ in range(rng.randint(1, 5)):
        if reload is not None and rng.random() < 0.5:
            reload(comp, faces)
            comp.check("reload")
        face = rng.choice(faces)
        kind = rng.choice(["P", "P", "R", "R", "PR"])
        name = f"{g.ident()}_{len(comp.ports)}"
        kwargs, vals = extras(rng, g, kind)
        vals = dict(vals, name=name)
        no_face = kind != "R" and rng.random() < 0.05
        if not no_face:
            vals["port_interface_ref"] = (face.path, face.dest)
        given = None if no_face else face.obj
        if kind == "PR":
            forms = ["none"] if no_face else ["none", "dict", "dict", "list", "object"]
            form1, arg1, insts1 = com_specs(rng, g, face, True, forms)
            form2, arg2, insts2 = com_specs(rng, g, face, False, forms)
            form = form1 + "+" + form2
            before = (flat(arg1), flat(arg2))
            if insts1:
                vals["provided_com_spec"] = insts1
            if insts2:
                vals["required_com_spec"] = insts2
            port = comp.obj.create_pr_port(name, given, arg1, arg2, **kwargs)
            after = (flat(arg1), flat(arg2))
            shape = "/".join(x.signature() for x in insts1 + insts2)
        else:
            provide = kind == "P"
            form, arg, insts = com_specs(rng, g, face, provide, ["none"] if no_face else FORMS)
            before = flat(arg)
            if insts:
                vals["com_spec"] = insts
            func = rng.choice(["create_p_port", "create_provide_port"] if provide else
                              ["create_r_port", "create_require_port"])
            args = [name, given]
            if rng.random() < 0.5:
                args.append(arg)
            else:
                kwargs["com_spec"] = arg
            port = getattr(comp.obj, func)(*args, **kwargs)
            after = flat(arg)
            shape = "/".join(x.signature() for x in insts)
        if before != after:
            raise Violation("argument-changed", f"{kind} {form}: the com-spec argument was changed")
        if port is not comp.obj.ports[-1]:
            raise Violation("returned", f"{kind}: the port returned is not the one that was added")
        comp.ports.append(Inst(SPECS[PORT_SPECS[kind]], vals))
        comp.faces.append(None if no_face else face)
        where = f"{kind}-{face.kind}-{form}"
        comp.check(where)
        shapes.append(f"{where}/{len(face.names)}/{shape}")
        ctx.count(f"ports_{kind}")
        ctx.count(f"form_{form}")
    if reload is not None:
        reload(comp, faces)
        comp.check("reload")
    check_lookup(ctx, comp, rng)
    for shape in shapes:
        ctx.case(shape)


def check_lookup(ctx, comp, rng):
    """Finding ports and the elements of their interfaces"""
    swc = comp.obj
    kinds = {"P": E.ProvidePortPrototype, "R": E.RequirePortPrototype, "PR": E.PRPortPrototype}
    for attr, kind in (("provide_ports", "P"), ("require_ports", "R"), ("pr_ports", "PR")):
        want = [p for p in swc.ports if type(p) is kinds[kind]]
        if [id(x) for x in getattr(swc, attr)] != [id(x) for x in want]:
            raise Violation(attr, f"{attr} does not list the ports of this kind in order")
    for port, face in zip(swc.ports, comp.faces):
        path = f"{comp.path}/{port.name}"
        if port.parent is not swc or str(port.ref()) != path or comp.ws.find(path) is not port \
                or comp.ws.find(port.ref()) is not port or swc.find(port.name) is not port:
            raise Violation("port-place", f"{path}: parent {port.parent!r}, ref {port.ref()}")
        for func, wrong in (("find_p_port", kinds["R"]), ("find_r_port", kinds["P"])):
            found = getattr(swc, func)(port.name)
            if found is not (None if isinstance(port, wrong) else port):
                raise Violation(func, f"{func}({port.name!r}) of a {type(port).__name__} gives {found!r}")
        if face is None:
            continue
        for func, kind in (("get_data_element_in_port", "SR"), ("get_operation_in_port", "CS")):
            method = getattr(swc, func)
            if face.kind != kind:
                expect_refusal(lambda m=method, p=port, f=face: m(p, f.names[0]), func)
                continue
            for elem in face.elements:
                if method(port, elem.name) is not elem:
                    raise Violation(func, f"{func}({elem.name!r}) gives another element")
            others = [port.name, face.path.rpartition("/")[2], swc.name] + [x for f in comp.faces if f for x in f.names]
            if method(port, unknown(rng, face.names, others)) is not None:
                raise Violation(func, f"{func} finds an element that does not exist")
            if face.single:
                if method(port, None) is not face.elements[0]:
                    raise Violation(func, f"{func}(None) does not give the only element")
            else:
                expect_refusal(lambda m=method, p=port: m(p, None), func + "-ambiguous")
        if face.kind == "MS":
            if swc.get_mode_declaration_group_in_port(port) is not face.elements[0]:
                raise Violation("get_mode_declaration_group_in_port", "gives another mode group")
        else:
            expect_refusal(lambda p=port: swc.get_mode_declaration_group_in_port(p), "mode-group-kind")
        ctx.count("lookups")
    behavior = getattr(swc, "internal_behavior", None)
    absent = unknown(rng, [x.name for x in swc.ports + [behavior] if x is not None],
                     [swc.name] + [x for f in comp.faces if f for x in [f.path.rpartition("/")[2], *f.names]])
    if swc.find(absent) is not None or swc.find_p_port(absent) or swc.find_r_port(absent):
        raise Violation("find-missing", f"port {absent!r} that does not exist is found")


def unknown(rng, names, others=()):
    """A name that is none of the given names, maybe almost, or that of something else"""
    others = [x for x in others if x not in names]
    if others and rng.random() < 0.4:
        return rng.choice(others)
    picks = ["NoSuchName"]
    for name in names:
        picks += [name.swapcase(), name.lower(), name.upper(), name + "_", name + "x", name[:-1], name[1:], " " + name, name + " "]
    return rng.choice([x for x in picks if x and x not in names])


def expect_refusal(func, key):
    try:
        got = func()
    except REFUSALS:
        return
    raise Violation("accepted-" + key, f"accepted, gives {got!r}")


def judge_bad(ctx, rng):
    """Wrong com-specs are refused and leave the component as it was"""
    g = Gen(rng, density=0.2, depth=1, hostile=0)
    ws = ar_xml.Workspace()
    comp = Component(rng, g, ws)
    provide = rng.random() < 0.5
    multi = {k: Face(rng, g, ws, k, 3) for k in ("SR", "CS")}
    single = {k: Face(rng, g, ws, k, 1) for k in ("SR", "CS", "MS", "PAR", "NV")}
    empty = {k: Face(rng, g, ws, k, 0) for k in ("SR", "CS", "MS")}
    what = rng.choice(["unknown-name", "unknown-among", "unknown-tuple", "no-elements", "unknown-argument", "unsupported",
                       "kind", "other-side", "other-side-list", "number", "text", "list-wrong", "tuple-length",
                       "twice", "inner-kind", "queued-init", "bad-init", "set-ref"])
    kind = rng.choice(["SR", "CS"])
    face = multi[kind]
    one = face.settings(face.names[0], provide, rng, g)[0]
    if what == "unknown-name":
        arg = {unknown(rng, face.names, [face.path.rpartition("/")[2]]): rng.choice([{}, one])}
    elif what == "unknown-among":
        arg = {face.names[0]: one, unknown(rng, face.names): {}, face.names[1]: {}}
    elif what == "unknown-tuple":
        arg = [(face.names[0], one), (unknown(rng, face.names), {})]
    elif what == "no-elements":
        face = empty[rng.choice(["SR", "CS", "MS"])]
        arg = {}
    elif what == "unknown-argument":
        face = rng.choice([single[k] for k in ("SR", "CS", "MS")])
        arg = {rng.choice(["no_such_setting", "", "init_values", "Init_Value", "desc", "name", "label", face.names[0] + "x"]): 1}
    elif what == "unsupported":
        face = single[rng.choice(["PAR", "NV"])]
        arg = {}
    elif what == "kind":
        arg = rng.choice([E.Unit("u"), object(), {1, 2}, 1.5, len])
    elif what == "other-side":
        arg = ready(rng, g, not provide)[0]
    elif what == "other-side-list":
        arg = [ready(rng, g, provide)[0], ready(rng, g, not provide)[0]]
    elif what == "number":
        arg = 17
    elif what == "text":
        arg = face.names[0]
    elif what == "list-wrong":
        arg = [ready(rng, g, provide)[0], rng.choice([None, 3, "x", {}, object()])]
    elif what == "tuple-length":
        arg = [rng.choice([(face.names[0],), (face.names[0], one, {})])]
    elif what == "twice":
        arg = [(face.names[0], one), (face.names[1], {}), (face.names[0], {})]
    elif what == "inner-kind":
        arg = {face.names[0]: rng.choice([3, "x", [1], None, object()])}
    elif what == "queued-init":
        face = single["SR"]
        if not face.queued[face.names[0]]:
            return
        arg = {"init_value": 3}
    elif what == "bad-init":
        face = single["SR"]
        arg = {"init_value": rng.choice([["X", 1], {"a": 1}, object(), (1, 2), ["A", object()]])}
    else:
        face = single[rng.choice(["SR", "CS", "MS"])]
        attr = face.spec_class(face.names[0], provide)[1]
        arg = {attr: rng.choice([object(), 3, "/A/B"])}
    for _ in range(rng.choice([0, 1])):
        comp.obj.create_p_port("first", single["SR"].obj)
        comp.ports.append(Inst(SPECS["ProvidePortPrototype"], {
            "name": "first", "port_interface_ref": (single["SR"].path, single["SR"].dest)}))
    func = rng.choice(["create_p_port", "create_provide_port"] if provide else ["create_r_port", "create_require_port"])
    try:
        getattr(comp.obj, func)("second", face.obj, arg)
    except (*REFUSALS, *ACCIDENTS) as ex:
        # things of a wrong type may fail in any way, but wrong names and settings must be told
        if isinstance(ex, ACCIDENTS) and what not in WRONG_TYPES:
            raise
        comp.check("refused-" + what)
        ctx.count("refused")
        ctx.case(f"bad/{what}/{face.kind}/{func}/{len(comp.ports)}")
        return
    raise Violation("accepted-" + what, f"{func}({face.kind}, {arg!r}) is accepted")


def run(ctx):
    for _, rng in ctx.loop("good", 400, 0.75):
        ctx.guard(judge_good, ctx, rng)
    for _, rng in ctx.loop("bad", 300, 0.2):
        ctx.guard(judge_bad, ctx, rng)

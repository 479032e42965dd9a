"""C20: members created in port interfaces, operations and mode groups are exactly those asked for"""
import autosar.xml as ar_xml
import autosar.xml.element as E
import autosar.xml.enumeration as ar_enum
from arv import xio
from arv.harness import Violation
from arv.model import Gen, Inst, SPECS
from arv.xmltree import diff, parse, first_tag_path
from checks.c14 import flat
from checks.c16 import keywords, REFUSALS

RULE = ("random sequences of create_... and append_... calls for interfaces of all kinds, their operations and mode "
        "declaration groups (with arguments by position or name, before or after the owner gets into a package, among them "
        "calls that must be refused); after every call the whole owner is compared with the reference model, references are "
        "looked up, at the end its XML is compared; distinct = distinct (call, arguments given, form, place, outcome)")
ASSUMPTIONS = ["names of members are distinct"]
ASCII_SHARD = True
QUICK_S = 8.0
THOROUGH_S = 120.0
MIN_DISTINCT = 700

# owner -> {method: (member, class, arguments that may be given by position, what the method itself sets)}
DATA = ("init_value",)
CREATE = {
    "SenderReceiverInterface": {
        "create_data_element": ("data_elements", "VariableDataPrototype", DATA, {}),
        "create_invalidation_policy": ("invalidation_policies", "InvalidationPolicy", (), {})},
    "NvDataInterface": {"create_data_element": ("data_elements", "VariableDataPrototype", DATA, {})},
    "ParameterInterface": {"create_parameter": ("parameters", "ParameterDataPrototype", DATA, {})},
    "ClientServerInterface": {
        "create_operation": ("operations", "ClientServerOperation",
                             ("arguments", "diag_arg_integrity", "fire_and_forget", "possible_error_refs"), {}),
        "create_possible_error": ("possible_errors", "ApplicationError", ("error_code",), {})},
    "ClientServerOperation": {
        "create_argument": ("arguments", "ArgumentDataPrototype", ("direction", "server_arg_impl_policy"), {}),
        "create_in_argument": ("arguments", "ArgumentDataPrototype", ("server_arg_impl_policy",), {"direction": "IN"}),
        "create_out_argument": ("arguments", "ArgumentDataPrototype", ("server_arg_impl_policy",), {"direction": "OUT"}),
        "create_inout_argument": ("arguments", "ArgumentDataPrototype", ("server_arg_impl_policy",),
                                  {"direction": "INOUT"}),
        "create_possible_error_ref": ("possible_error_refs", None, (), {})},
    "ModeSwitchInterface": {
        "create_mode_group": ("mode_group", "ModeDeclarationGroupPrototype", ("type_ref", "calibration_access"), {})},
    "ModeDeclarationGroup": {"create_mode_declaration": ("mode_declarations", "ModeDeclaration", ("value",), {})},
}
APPEND = {
    "SenderReceiverInterface": {"append_data_element": ("data_elements", "VariableDataPrototype"),
                                "append_invalidation_policy": ("invalidation_policies", "InvalidationPolicy")},
    "NvDataInterface": {"append_data_element": ("data_elements", "VariableDataPrototype")},
    "ParameterInterface": {"append_parameter": ("parameters", "ParameterDataPrototype")},
    "ClientServerInterface": {"append_operation": ("operations", "ClientServerOperation"),
                              "append_possible_errors": ("possible_errors", "ApplicationError")},
    "ClientServerOperation": {"append_argument": ("arguments", "ArgumentDataPrototype")},
    "ModeDeclarationGroup": {"append_mode_declaratation": ("mode_declarations", "ModeDeclaration"),
                             "append_mode_transition": ("mode_transitions", "ModeTransition")},
    "ModeSwitchInterface": {},
}
OWNERS = [x for x in CREATE if x != "ClientServerOperation"]


class Owner:
    """An element that gets members"""

    def __init__(self, rng):
        self.rng = rng
        self.g = Gen(rng, edge="some", density=rng.choice([0, 0.15, 0.4]), depth=rng.choice([1, 2]), hostile=rng.choice([0, 0.3]),
                     breadth=2)
        self.cls = rng.choice(OWNERS)
        self.inst = SPECS[self.cls].gen(self.g)
        self.obj = self.inst.build(rng)
        self.path = None
        self.ws = ar_xml.Workspace()
        self.own = []   # (object, parent, name) of what was created
        self.given = []   # (what was called, arguments, how they looked)

    def place(self):
        """Put it into a package"""
        package = "".join("/" + self.g.ident() for _ in range(self.rng.choice([1, 2])))
        self.ws.make_packages(package[1:]).append(self.obj)
        self.path = f"{package}/{self.inst.name}"

    def target(self):
        """(object, expected) that gets the next member"""
        if self.cls == "ClientServerInterface" and self.inst.vals.get("operations") and self.rng.random() < 0.6:
            number = self.rng.randrange(len(self.inst.vals["operations"]))
            return self.obj.operations[number], self.inst.vals["operations"][number]
        return self.obj, self.inst

    def name(self):
        """Name of a new member"""
        return self.g.ident()

    def check(self, what):
        """Compare the whole owner"""
        try:
            self.inst.check(self.obj)
        except Violation as ex:
            raise Violation(f"{what}-{ex.key}", ex.what) from None
        for obj, parent, path in self.own:
            if obj.parent is not parent:
                raise Violation("parent", f"{what}: parent of {obj.name} is {obj.parent!r}")
            expected = None if self.path is None else self.path + path
            ref = obj.ref()
            if (None if ref is None else str(ref)) != expected:
                raise Violation("ref", f"{what}: reference of {obj.name} is {ref!r}, expected {expected}")

    def check_given(self):
        """Arguments of calls still look as they did"""
        for label, args, before in self.given:
            if flat(args) != before:
                raise Violation("argument-changed-later", f"the arguments of {label} were changed by a later call")

    def check_xml(self):
        """Compare the XML"""
        text = xio.write_elem(self.obj, self.inst.spec, None)
        found = diff(self.inst.node(51), parse(text))
        if found:
            raise Violation(f"xml-{first_tag_path(found)}", found, text)

    def create(self, ctx):
        """A call of a create method"""
        rng = self.rng
        obj, expected = self.target()
        method = rng.choice(list(CREATE[expected.spec.name]))
        member, cls, positional, fixed = CREATE[expected.spec.name][method]
        func = getattr(obj, method)
        label = f"{expected.spec.name}.{method}"
        if cls is None:
            have = expected.vals.get(member)
            path = rng.choice(have)[0] if have and rng.random() < 0.3 else self.g.path()
            got = func(path) if rng.random() < 0.7 else func(value=path)
            expected.vals.setdefault(member, []).append((path, "APPLICATION_ERROR"))
            if got is not obj.possible_error_refs[-1]:
                raise Violation("result-" + method, repr(got))
            return label
        if cls == "InvalidationPolicy":
            inst = SPECS[cls].gen(self.g)
            inst.vals["data_element_ref"] = (self.g.path(), "VARIABLE_DATA_PROTOTYPE")
            inst.vals.setdefault("handle_invalid", self.g.pick_enum("HandleInvalid"))
            ref = inst.vals["data_element_ref"][0]
            form = rng.choice(["text", "ref"])
            args = [ref if form == "text" else E.VariableDataPrototypeRef(ref),
                    getattr(ar_enum.HandleInvalid, inst.vals["handle_invalid"])]
            got = func(*args) if rng.random() < 0.5 else func(data_element_ref=args[0], handle_invalid=args[1])
            label += "/" + form
        else:
            inst = SPECS[cls].gen(self.g)
            inst.vals["name"] = self.name()
            for attr in fixed:
                inst.vals.pop(attr, None)
            kwargs = keywords(inst)
            given = sorted(kwargs)
            args = [kwargs.pop("name")]
            count = rng.choice([0, 0, 1, 2, len(positional)])
            for arg in positional[:count]:
                args.append(kwargs.pop(arg, None))
            if rng.random() < 0.2 and not count:
                kwargs["name"] = args.pop(0)
            if method == "create_operation" and "possible_error_refs" in kwargs:
                paths = [x[0] for x in inst.vals["possible_error_refs"]]
                refs = [rng.choice([x, E.ApplicationErrorRef(x)]) for x in paths]
                kwargs["possible_error_refs"] = refs[0] if len(refs) == 1 and rng.random() < 0.6 else refs
                label += f"/{[type(x).__name__ for x in refs]}"
            empty = [x for x in (("arguments", "possible_error_refs") if method == "create_operation" else ())
                     if x not in inst.vals and rng.random() < 0.6]
            if not count:
                kwargs.update({x: [] for x in empty})
                label += f"/empty:{len(empty)}"
            before = flat((args, kwargs))
            self.given.append((label, (args, kwargs), before))
            got = func(*args, **kwargs)
            if flat((args, kwargs)) != before:
                raise Violation("argument-changed", f"{label} changed an argument")
            inst.vals.update(fixed)
            label += f"/{given}/{count}"
        if member == "mode_group":
            if self.own:
                self.own.pop()
            expected.vals[member] = inst
        else:
            expected.vals.setdefault(member, []).append(inst)
        have = getattr(obj, member)
        if got is not (have if member == "mode_group" else have[-1]):
            raise Violation("result-" + method, f"gives {got!r}, which is not the new one")
        self.remember(got, obj)
        return label + f"/{self.path is not None}/{inst.signature()}"

    def remember(self, got, obj):
        """What was created is to stay in its place"""
        if hasattr(got, "ref"):
            path = f"/{obj.name}/{got.name}" if obj is not self.obj else f"/{got.name}"
            self.own.append((got, obj, path))

    def append(self, ctx):
        """A call of an append method"""
        obj, expected = self.target()
        methods = APPEND[expected.spec.name]
        if not methods:
            return None
        method = self.rng.choice(list(methods))
        member, cls = methods[method]
        inst = SPECS[cls].gen(self.g)
        if "name" in inst.vals:
            inst.vals["name"] = self.name()
        got = inst.build(self.rng)
        getattr(obj, method)(got)
        expected.vals.setdefault(member, []).append(inst)
        if getattr(obj, member)[-1] is not got:
            raise Violation("appended-" + method, "the object itself is not in the list")
        self.remember(got, obj)
        return f"{expected.spec.name}.{method}/{inst.signature()}"

    def bad(self, ctx):
        """A call that must be refused"""
        rng = self.rng
        obj, expected = self.target()
        method = rng.choice(list(CREATE[expected.spec.name]) + list(APPEND[expected.spec.name]))
        func = getattr(obj, method)
        what = "keyword"
        if method.startswith("append"):
            what = "type"
            cases = [((x,), {}) for x in (None, "x", 3, object(), E.Unit("Wrong"), [], E.ModeDeclarationGroup("Wrong"))]
        elif method == "create_possible_error_ref":
            cases = [((), {}), (("a", "b", "c"), {})]
        elif method == "create_invalidation_policy":
            good = ar_enum.HandleInvalid.KEEP
            cases = [(("/a/b",), {}), ((3, good), {}), ((None, good), {}), (("/a/b", "KEEP"), {}), (("/a/b", 1), {}),
                     ((E.UnitRef("/a/b"), good), {}), (("/a/b", None), {}), (("/a", good), {"no_such": 1})]
        else:
            name = self.name()
            cases = [((), {}), ((name,), {"no_such_setting": 1}), ((name,), {"desc": 3}), ((name,), {"long_name": 3}),
                     ((name,), {"admin_data": 3})]
            if method in ("create_data_element", "create_parameter"):
                cases += [((name, object()), {}), ((name,), {"sw_data_def_props": 3}), ((name,), {"type_ref": 3})]
            elif method == "create_operation":
                cases += [((name, 3), {}), ((name, [3]), {}), ((name, None, None, None, 3), {}),
                          ((name,), {"fire_and_forget": "x"}), ((name, [E.Unit("u")]), {})]
            elif method == "create_possible_error":
                cases += [((name, "x"), {}), ((name, 1.5), {})]
            elif "argument" in method:
                cases += [((name,), {"server_arg_impl_policy": 3}), ((name, "x"), {})]
                if method != "create_argument":
                    cases.append(((name,), {"direction": ar_enum.ArgumentDirection.IN}))
            elif method == "create_mode_group":
                cases += [((name, 3), {}), ((name, None, 3), {})]
            else:
                cases += [((name, "x"), {}), ((name, -1), {})]
        args, kwargs = rng.choice(cases)
        try:
            got = func(*args, **kwargs)
        except (*REFUSALS, AttributeError, IndexError) as ex:
            # things of a wrong type may fail in any way
            if not isinstance(ex, REFUSALS) and "no_such_setting" in kwargs:
                raise
            ctx.count("refused")
            return f"bad/{expected.spec.name}.{method}/{what}/{[type(a).__name__ for a in args]}/{sorted(kwargs)}"
        raise Violation(f"accepted-{method}", f"{method}{args} {kwargs} gives {got!r}")


def judge(ctx, rng, reload=None):
    owner = Owner(rng)
    owner.check("setup")
    when = rng.randint(0, 4)
    for number in range(rng.randint(1, 9)):
        if number == when:
            owner.place()
        if reload is not None and rng.random() < 0.4:
            reload(owner)
            owner.check("reload")
        what = rng.choice(["create", "create", "create", "append", "bad"])
        label = getattr(owner, what)(ctx)
        owner.check(what)
        owner.check_given()
        if label:
            ctx.case(label)
            ctx.count(what)
    owner.check_xml()


def judge_find(ctx, rng):
    """Mode groups find their members by name"""
    g = Gen(rng, density=0.1, depth=1, hostile=0)
    group = E.ModeDeclarationGroup("Group")
    names = []
    for number in range(rng.randint(1, 6)):
        name = rng.choice(["On", "Off", "on", "Mode", "M"]) + str(number)
        names.append((name, group.create_mode_declaration(name, rng.choice([None, number]))))
    for name, obj in names:
        if group.find(name) is not obj:
            raise Violation("find", f"{name} of {[n for n, _ in names]}")
    for name in ("", "Group", "O", g.ident() + "_x", names[0][0].swapcase() + "z", names[0][0][:-1]):
        if group.find(name) is not None:
            raise Violation("find-other", name)
    ctx.case(f"find/{len(names)}")


def run(ctx):
    for _, rng in ctx.loop("histories", 300, 0.93):
        ctx.guard(judge, ctx, rng)
    for _, rng in ctx.loop("find", 20, 0.03):
        ctx.guard(judge_find, ctx, rng)

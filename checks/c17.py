"""C17: port access points and port API options are made for the named ports and elements"""
import re
import autosar.xml.element as E
from arv.harness import Violation
from arv.model import Inst, SPECS
from checks.c14 import flat
from checks.c16 import World, keywords

RULE = ("random sequences of create_port_access and create_port_api_options calls for the runnables of a component with "
        "ports of all kinds (single and in lists, with and without prefix and settings, clashing, and wrong ones); after "
        "every call the whole behavior is compared with the reference model, at the end also its XML; distinct = distinct "
        "(prefix, kind of port and interface, form, settings, clash, outcome)")
ASSUMPTIONS = ["the component, its ports and their interfaces belong to the workspace", "parameters are accessed through "
               "require ports"]
ASCII_SHARD = True
QUICK_S = 9.0
THOROUGH_S = 150.0
MIN_DISTINCT = 700

# (kind of interface, kind of port) -> prefix -> (member of the runnable, class, prefix setting)
DATA_R = {"": ("data_receive_point_by_argument", "VariableAccess", "data_receive_point_prefix"),
          "VAL": ("data_receive_point_by_value", "VariableAccess", "data_receive_point_prefix"),
          "READ": ("data_read_access", "VariableAccess", "data_read_access_prefix")}
DATA_R.update(ARG=DATA_R[""], ARGUMENT=DATA_R[""], VALUE=DATA_R["VAL"])
DATA_P = {"": ("data_send_point", "VariableAccess", "data_send_point_prefix"),
          "WRITE": ("data_write_access", "VariableAccess", "data_write_access_prefix")}
DATA_P.update(SEND=DATA_P[""])
CALL = {"": ("server_call_point", "SynchronousServerCallPoint", "server_call_point_prefix"),
        "ASYNC": ("server_call_point", "AsynchronousServerCallPoint", "server_call_point_prefix")}
CALL.update(SYNC=CALL[""])
MODE = {"": ("mode_access_point", "ModeAccessPoint", None),
        "ACCESS": ("mode_access_point", "ModeAccessPoint", "mode_access_point_prefix")}
MODE_P = dict(MODE, SWITCH=("mode_switch_point", "ModeSwitchPoint", "mode_switch_point_prefix"))
PARAMETER = {"": ("parameter_access", "ParameterAccess", "parameter_access_prefix")}
TABLE = {("SR", "R"): DATA_R, ("NV", "R"): DATA_R, ("SR", "P"): DATA_P, ("NV", "P"): DATA_P,
         ("CS", "R"): CALL, ("CS", "PR"): CALL, ("MS", "R"): MODE, ("MS", "P"): MODE_P, ("PAR", "R"): PARAMETER}
PREFIXES = ["READ", "ARG", "ARGUMENT", "VAL", "VALUE", "WRITE", "SEND", "SYNC", "ASYNC", "ACCESS", "SWITCH"]
REFUSED = {x: [p for p in PREFIXES if p not in TABLE[x]] for x in TABLE}
REFUSED.update({x: [""] + PREFIXES for x in [("SR", "PR"), ("NV", "PR"), ("CS", "P"), ("MS", "PR")]})
OWN = {"VariableAccess": "accessed_variable", "ParameterAccess": "accessed_parameter", "ModeSwitchPoint": "mode_group",
       "SynchronousServerCallPoint": "operation", "AsynchronousServerCallPoint": "operation"}


class Accesses(World):
    """The calls of C17"""

    def __init__(self, rng):
        super().__init__(rng, rng.random() < 0.7)
        self.series = None
        for name in ["Run", "Init", "Task"][:rng.randint(1, 3)]:
            self.obj.create_runnable(name)
            self.runnables.append(Inst(SPECS["RunnableEntity"], {"name": name, "symbol": name}))
        for _ in range(rng.randint(2, 5)):
            self.add_port()

    def target(self, spec, port, element):
        """Expected member that refers to port and element"""
        kind, face, _ = self.ports[port]
        ref = self.port_ref(port)
        if spec == "VariableAccess":
            iref = Inst(SPECS["VariableInAtomicSWCTypeInstanceRef"], {
                "port_prototype_ref": ref,
                "target_data_prototype_ref": self.element_ref(port, element, "VARIABLE_DATA_PROTOTYPE")})
            return Inst(SPECS["AutosarVariableRef"], {"ar_variable_iref": iref})
        if spec == "ParameterAccess":
            iref = Inst(SPECS["ParameterInAtomicSwcTypeInstanceRef"], {
                "port_prototype": ref,
                "target_data_prototype": self.element_ref(port, element, "PARAMETER_DATA_PROTOTYPE")})
            return Inst(SPECS["AutosarParameterRef"], {"autosar_parameter": iref})
        if face.kind == "CS":
            return Inst(SPECS["ROperationInAtomicSwcInstanceRef"], {
                "context_port": ref,
                "target_required_operation": self.element_ref(port, element, "CLIENT_SERVER_OPERATION")})
        cls = "RModeGroupInAtomicSwcInstanceRef" if kind == "R" else "PModeGroupInAtomicSwcInstanceRef"
        return Inst(SPECS[cls], {"context_port": ref, "target_mode_group": self.element_ref(
            port, element, "MODE_DECLARATION_GROUP_PROTOTYPE")})

    def one(self):
        """(item for the call, member, expected access point, label), the access point is None if it has to be refused"""
        rng = self.rng
        port = self.series or rng.choice(list(self.ports))
        kind, face, _ = self.ports[port]
        if (face.kind, kind) not in TABLE:
            return None
        prefix = rng.choice(list(TABLE[face.kind, kind])[:1 if self.series else None])
        member, cls, setting = TABLE[face.kind, kind][prefix]
        text, element = self.element(port)
        if face.kind == "MS" and rng.random() < 0.5:
            text = ""
        shown = rng.choice([str.upper, str.upper, str.lower, str.title])(prefix)
        text = (f"{shown}:{rng.choice(['', '', ' ', '  '])}" if prefix else "") + port + text
        inner = "ModeAccessPointIdent" if cls == "ModeAccessPoint" else cls
        form = rng.choice(["text", "text", "settings", "settings", "tuple"])
        kwargs, inst = None, Inst(SPECS[inner], {})
        if form == "tuple":
            kwargs = rng.choice([None, {}])
        elif form == "settings":
            inst = SPECS[inner].gen(self.g)
            inst.vals.pop(OWN.get(inner), None)
            inst.vals.pop("name", None)
            kwargs = keywords(inst)
            if rng.random() < 0.4:
                kwargs["name"] = rng.choice(["Access", "Access_0", "Access_1", self.g.ident()])
            if self.series:
                kwargs["name"] = rng.choice(["Access"] * 9 + ["Access_9", "Access_10", "Access_3", "Access_2"])
        own_name = kwargs is not None and "name" in kwargs
        label = f"{prefix}/{kind}/{face.kind}/{form}/{own_name}/{sorted(kwargs or ())}/{'/' in text}"
        item = text if form == "text" else (text, kwargs)
        if cls == "ModeAccessPoint" and not prefix and not kwargs:
            if kwargs is not None:
                return None  # an empty dictionary: with or without a name, both will do
            return item, member, Inst(SPECS[cls], {"mode_group": self.target(cls, port, element)}), label
        if own_name:
            inst.vals["name"] = kwargs["name"]
        else:
            setting = setting or "mode_access_point_prefix"
            if setting not in self.prefixes:
                return item, member, None, label + "/no prefix"
            inst.vals["name"] = f"{self.prefixes[setting]}_{port}_{element}"
        if cls == "ModeAccessPoint":
            inst = Inst(SPECS[cls], {"ident": inst, "mode_group": self.target(cls, port, element)})
        else:
            inst.vals[OWN[cls]] = self.target(cls, port, element)
        return item, member, inst, label

    def step_access(self, ctx):
        rng = self.rng
        number = rng.randrange(len(self.runnables))
        runnable, expected = self.obj.runnables[number], self.runnables[number]
        items = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            item = self.one()
            if item is not None:
                items.append(item)
        if not items:
            return []
        wrong = [x for x in items if x[2] is None]
        if wrong:
            self.refused("prefix", runnable.create_port_access, rng.choice([wrong[0][0], [x[0] for x in items]]))
            return [wrong[0][3]]
        args = [x[0] for x in items]
        arg = args[0] if len(args) == 1 and rng.random() < 0.7 else args
        before = flat(arg)
        runnable.create_port_access(arg)
        if flat(arg) != before:
            raise Violation("argument-changed", f"create_port_access({arg!r}) changed its argument")
        labels = []
        for (_, member, inst, label) in items:
            have = expected.vals.setdefault(member, [])
            named = inst.vals.get("ident", inst)
            clash = named.name is not None and named.name in [x.vals.get("ident", x).name for x in have]
            have.append(inst)
            labels.append(f"{label}/{clash}/{len(args)}")
            ctx.count("clashes" if clash else "accesses")
        for member in {x[1] for x in items}:
            self.settle(member, getattr(runnable, member), expected.vals[member])
            for point in getattr(runnable, member):
                owner = point.ident if isinstance(point, E.ModeAccessPoint) else point
                if owner is not None and owner.parent is not runnable:
                    raise Violation("parent", f"{member}: parent of {owner.name} is {owner.parent!r}")
        return labels

    def settle(self, member, points, expected):
        """Names that clashed may have got a number; afterwards all are unique"""
        if len(points) != len(expected):
            raise Violation(f"number-{member}", f"{len(points)} instead of {len(expected)}")
        if member == "mode_access_point":  # the name is the one of their identification, which they don't always have
            points = [p.ident for p in points]
            expected = [x.vals.get("ident") for x in expected]
            if [p is None for p in points] != [x is None for x in expected]:
                raise Violation("idents", f"{[p and p.name for p in points]} instead of {[x and x.name for x in expected]}")
            points, expected = [p for p in points if p is not None], [x for x in expected if x is not None]
        names = [p.name for p in points]
        wanted = [x.name for x in expected]
        if len(set(names)) != len(names):
            raise Violation(f"names-{member}", f"{wanted} gives {names}")
        for name, inst in zip(names, expected):
            if name == inst.name:
                continue
            # a new number may clash in its turn with the name of the next one in the same call
            clashed = any(wanted.count(x) > 1 and f"{inst.name}_".startswith(f"{x}_") for x in wanted)
            if not clashed or not re.fullmatch(re.escape(inst.name) + "(_[0-9]+)+", name):
                raise Violation(f"name-{member}", f"{wanted} gives {names}")
            inst.vals["name"] = name

    def step_options(self, ctx):
        rng = self.rng
        inst = SPECS["PortApiOption"].gen(self.g)
        inst.vals.pop("port", None)
        kwargs = keywords(inst)
        names = list(self.ports)
        form = rng.choice(["one", "list", "tuple", "all", "none"])
        if form == "one":
            chosen = arg = rng.choice(names)
            chosen = [chosen]
        elif form == "all":
            chosen, arg = names, "*"
        else:
            chosen = [] if form == "none" else rng.sample(names, rng.randint(1, len(names)))
            arg = tuple(chosen) if form == "tuple" else list(chosen)
        before = flat((arg, kwargs))
        self.obj.create_port_api_options(arg, **kwargs)
        if flat((arg, kwargs)) != before:
            raise Violation("argument-changed", f"create_port_api_options({arg!r}) changed an argument")
        for attr in ("port_arg_values", "supported_features"):
            lists = [id(getattr(x, attr)) for x in self.obj.port_api_options.values()] + [id(kwargs.get(attr))]
            if len(set(lists)) != len(lists):
                raise Violation("shared-" + attr, f"create_port_api_options({arg!r}): options share a list")
        replaced = 0
        for port in sorted((p for p in names if p in chosen), key=str.lower):
            option = Inst(SPECS["PortApiOption"], dict(inst.vals, port=self.port_ref(port)))
            known = [i for i, x in enumerate(self.options) if x.vals["port"] == option.vals["port"]]
            if known:
                self.options[known[0]] = option
                replaced += 1
            else:
                self.options.append(option)
        ctx.count("options")
        return [f"options/{form}/{len(chosen)}/{replaced}/{inst.signature()}"]

    def step_bad(self, ctx):
        rng = self.rng
        runnable = rng.choice(self.obj.runnables)
        port = rng.choice(list(self.ports))
        kind, face, _ = self.ports[port]
        name = {"name": "AccessName"}
        # all or nothing: what is wrong may come after or before good ones
        others = [x[0] for x in (self.one() for _ in range(rng.choice([0, 0, 1, 2]))) if x is not None and x[2] is not None]

        def access(item):
            if not others:
                return runnable.create_port_access(item)
            place = rng.choice([0, len(others), len(others)])
            items = item if isinstance(item, list) else [item]
            return runnable.create_port_access(others[:place] + items + others[place:])

        what = rng.choice(["port", "element", "several", "prefix", "direction", "direction", "keyword", "type", "option",
                           "option-list", "option-keyword", "lost"])
        if what == "port":
            other = [p for p in (port.lower(), port.upper(), port.swapcase()) if p not in self.ports]
            self.refused(what, access, rng.choice(["NoSuchPort", ("NoSuchPort/x", name), "READ:NoSuchPort", "",
                                                   "/" + port, port + "x"] + other +
                                                  [f"{p}/{face.names[0]}" for p in rng.sample(self.strangers(self.ports), 3)]))
        elif what == "element":
            element = rng.choice(face.names)
            known = [element.lower(), element.upper(), element.swapcase()]
            wrong = ["NoSuchElement", element + "x", f"{element}/{element}", element + "/"]
            wrong += [x for x in known if x not in face.names] + rng.sample(self.strangers(face.names), 4)
            if rng.random() < 0.3:
                wrong = sorted({port, face.path.rpartition("/")[2], self.name} - set(face.names))
            self.refused(what, access, (f"{port}/{rng.choice(wrong)}", name))
        elif what == "lost":
            self.lost_port()
            prefix = rng.choice(["", "", *(f"{x}:" for x in ("READ", "WRITE", "SEND", "ASYNC", "SYNC"))])
            self.refused(what, access, (f"{prefix}LostPort{rng.choice(['', '/' + face.names[0], '/Lost'])}", name))
            self.swc.ports.pop()
        elif what == "several":
            if len(face.names) < 2:
                return []
            self.refused(what, access, (port, name))
        elif what == "prefix":
            self.refused(what, access, (f"{rng.choice(['FOO', '', 'READS', 'IN', 'ASYNCH'])}:{port}/{face.names[0]}", name))
        elif what == "direction":
            prefixes = REFUSED.get((face.kind, kind))
            if not prefixes:
                return []
            prefix = rng.choice(prefixes)
            what += f"-{prefix}-{face.kind}-{kind}"
            item = f"{prefix}:{port}/{face.names[0]}" if prefix else f"{port}/{face.names[0]}"
            self.refused(what, access, rng.choice([(item, name), [(item, name)], item]))
        elif what == "keyword":
            if (face.kind, kind) not in TABLE or face.kind == "MS":
                return []
            settings, prefix = dict(name, no_such_setting=1), ""
            if face.kind == "CS" and rng.random() < 0.5:
                # a setting of synchronous calls only
                area = E.ExclusiveAreaNestingOrderRef("/a/b/c")
                settings, prefix = dict(name, called_from_within_exclusive_area=area), rng.choice(["ASYNC:", "async:"])
            self.refused(what, access, (f"{prefix}{port}/{face.names[0]}", settings))
        elif what == "type":
            self.refused(what, access, rng.choice([3, None, [None], [3], (port,), (port, name, 3), [object()]]))
        elif what == "option":
            stranger = rng.choice(self.strangers(self.ports))
            self.refused(what, self.obj.create_port_api_options, rng.choice(["NoSuchPort", "", ["NoSuchPort"], stranger]),
                         enable_take_address=True)
        elif what == "option-list":
            names = [port, "NoSuchPort"]
            rng.shuffle(names)
            self.refused(what, self.obj.create_port_api_options, names, indirect_api=True)
        else:
            bad = rng.choice([{"no_such_setting": 1}, {"port_arg_values": 3}, {"error_handling": "x"},
                              {"supported_features": [object()]}])
            self.refused(what if "no_such_setting" in bad else "type", self.obj.create_port_api_options,
                         rng.choice([port, "*", [port]]), **bad)
        ctx.count("refused")
        return [f"bad/{what}/{face.kind}/{kind}/{len(others)}"]


def judge(ctx, rng, reload=None):
    world = Accesses(rng)
    world.check("setup")
    steps, kinds = rng.randint(2, 10), ["access", "access", "access", "access", "options", "bad", "bad"]
    if rng.random() < 0.3:
        kinds.append("settings")
    if rng.random() < 0.08:
        # the same port again and again, so that the numbers get more digits
        world.series = rng.choice(list(world.ports))
        steps, kinds = rng.choice([12, 25]), ["access"]
    for _ in range(steps):
        if reload is not None and rng.random() < 0.3:
            reload(world)
            world.check("reload")
        what = rng.choice(kinds)
        labels = getattr(world, "step_" + what)(ctx)
        world.check(what)
        for label in [labels] if isinstance(labels, str) else labels:
            ctx.case(label)
    world.check_xml()


def judge_loose(ctx, rng):
    """Without a workspace, or a component, there is nothing to look up"""
    what = rng.choice(["runnable", "behavior", "component"])
    runnable = E.RunnableEntity("Run")
    behavior = E.SwcInternalBehavior("Behavior")
    swc = E.ApplicationSoftwareComponentType("Swc")
    swc.append_port(E.RequirePortPrototype("p", port_interface_ref=E.PortInterfaceRef(
        "/I/F", E.ar_enum.IdentifiableSubTypes.SENDER_RECEIVER_INTERFACE)))
    if what != "runnable":
        behavior.append_runnable(runnable)
    if what == "component":
        swc.internal_behavior = behavior
    try:
        runnable.create_port_access("p")
    except (ValueError, RuntimeError):
        if any(getattr(runnable, x) for x in ("data_read_access", "data_receive_point_by_argument", "data_send_point")):
            raise Violation("loose-added", f"{what}: an access point was added all the same") from None
        ctx.case("loose/" + what)
        return
    raise Violation("accepted-loose-" + what, "create_port_access works without a workspace")


def run(ctx):
    for _, rng in ctx.loop("histories", 250, 0.95):
        ctx.guard(judge, ctx, rng)
    for _, rng in ctx.loop("loose", 10, 0.02):
        ctx.guard(judge_loose, ctx, rng)

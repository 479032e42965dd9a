"""C16: runnables and events of an internal behavior are what was asked for, with unique names"""
import os
import re
import autosar.xml as ar_xml
import autosar.xml.element as E
import autosar.xml.enumeration as ar_enum
from arv import xio
from arv.harness import Violation
from arv.model import Gen, Inst, SPECS
from arv.xmltree import diff, parse, first_tag_path
from checks.c14 import Face, PORT_SPECS, flat

RULE = ("random sequences of calls that create exclusive areas, runnables and events in the internal behavior of a "
        "component with ports of all kinds (among them calls that must be refused, and names that clash); after every call "
        "the whole behavior is compared with the reference model, at the end also its XML; distinct = distinct (call, kind "
        "of port, number of elements, form of the arguments, naming, outcome)")
ASSUMPTIONS = ["the component, its ports and their interfaces belong to the workspace"]
ASCII_SHARD = True
QUICK_S = 9.0
THOROUGH_S = 150.0
MIN_DISTINCT = 800

REFUSALS = (TypeError, ValueError, KeyError, RuntimeError, AssertionError, NotImplementedError,
            E.ar_except.InvalidReferenceError)
ACCIDENTS = (AttributeError, IndexError)
DEST = {"P": "P_PORT_PROTOTYPE", "R": "R_PORT_PROTOTYPE", "PR": "PR_PORT_PROTOTYPE"}
WORDS = ["Run", "Init", "run", "Run_0", "Run_1", "Task", "A", "A_0", "A_1", "A_0_x", "B"]

# call -> (class, name of the prefix, port kinds, interface kind, keyword arguments of its own)
EVENTS = {
    "create_background_event": ("BackgroundEvent", "background_event_prefix", None, None),
    "create_init_event": ("InitEvent", "init_event_prefix", None, None),
    "create_timing_event": ("TimingEvent", "timing_event_prefix", None, None),
    "create_data_received_event": ("DataReceivedEvent", "data_receive_event_prefix", ("R", "PR"), "SR"),
    "create_data_receive_error_event": ("DataReceiveErrorEvent", "data_receive_error_event_prefix", ("R", "PR"), "SR"),
    "create_operation_invoked_event": ("OperationInvokedEvent", "operation_invoked_event_prefix", ("P", "PR"), "CS"),
    "create_swc_mode_manager_error_event": ("SwcModeManagerErrorEvent", "swc_mode_manager_error_event_prefix",
                                            ("P", "PR"), "MS"),
    "create_swc_mode_mode_switch_event": ("SwcModeSwitchEvent", "swc_mode_switch_event_prefix", ("R", "PR"), "MS"),
}
OTHER_PREFIXES = ["data_read_access_prefix", "data_receive_point_prefix", "data_send_point_prefix",
                  "data_write_access_prefix", "mode_access_point_prefix", "mode_switch_point_prefix",
                  "parameter_access_prefix", "server_call_point_prefix"]
PREFIXES = [x[1] for x in EVENTS.values()] + OTHER_PREFIXES
# settings for which the library has no calls yet
REST = ["external_triggering_point_prefix", "internal_triggering_point_prefix", "read_local_variable_prefix",
        "wait_point_prefix", "write_local_variable_prefix"]

EMPTY = [E.ModeSwitchInterface, E.SenderReceiverInterface, E.NvDataInterface, E.ClientServerInterface, E.ParameterInterface]


class World:
    """A workspace with a component and its internal behavior"""

    def __init__(self, rng, set_all=False):
        self.rng = rng
        self.words = WORDS
        self.g = g = Gen(rng, edge="some", density=rng.choice([0, 0.1, 0.3]), depth=1, hostile=rng.choice([0, 0.3]), breadth=2)
        self.ws = ws = ar_xml.Workspace()
        self.prefixes = {}
        self.set_prefixes([x for x in PREFIXES if set_all or rng.random() < 0.8])
        self.modes = [f"MODE{i}" for i in range(rng.randint(1, 3))]
        self.transitions = rng.sample(["TRANSITION", "mode0", "MODE9", "Mode1", "Start", *WORDS], rng.choice([0, 0, 1, 3]))
        self.group = E.ModeDeclarationGroup("Modes", [E.ModeDeclaration(n) for n in self.modes],
                                            mode_transitions=[E.ModeTransition(n) for n in self.transitions])
        self.group_path = "".join(f"/{g.ident()}" for _ in range(rng.choice([1, 2, rng.choice([2, 12])])))
        ws.make_packages(self.group_path[1:]).append(self.group)
        self.group_path += "/Modes"
        self.faces = []
        for kind in ("SR", "CS", "MS", "PAR", "NV", rng.choice(["SR", "CS", "NV", "PAR"])):
            face = Face(rng, g, ws, kind)
            if kind == "MS":
                face.elements[0].type_ref = self.group.ref()
            self.faces.append(face)
        package = "".join(f"/{g.ident()}" for _ in range(rng.choice([1, 2, rng.choice([2, 12])])))
        self.name = g.ident()
        self.path = f"{package}/{self.name}"
        self.swc = E.ApplicationSoftwareComponentType(self.name)
        ws.make_packages(package[1:]).append(self.swc)
        self.ports = {}  # name -> (kind, face, object)
        for _ in range(rng.randint(2, 6)):
            self.add_port()
        if rng.random() < 0.5:
            name = f"{self.name}_InternalBehavior"
            self.obj = self.swc.create_internal_behavior()
        else:
            name = g.ident()
            self.obj = self.swc.create_internal_behavior(name)
        if self.swc.internal_behavior is not self.obj:
            raise Violation("behavior", "create_internal_behavior does not set the internal behavior")
        self.inst = Inst(SPECS["SwcInternalBehavior"], {"name": name})
        self.base = f"{self.path}/{name}"
        self.areas, self.runnables, self.events, self.options = [], [], [], []

    def add_port(self, kind=None, face=None):
        rng = self.rng
        kind = kind or rng.choice(["P", "P", "R", "R", "PR"])
        face = face or rng.choice(self.faces)
        name = f"{self.rng.choice(['Port', 'port', 'Speed', 'a', self.g.ident()])}{len(self.ports)}"
        func = {"P": "create_p_port", "R": "create_r_port", "PR": "create_pr_port"}[kind]
        port = getattr(self.swc, func)(name, face.obj)
        self.ports[name] = (kind, face, port)
        return name

    def other_case(self, element, port):
        """Texts for the element that differ from all names in their case only"""
        face = self.ports[port][1]
        names = self.modes if face.kind == "MS" else face.names
        return [f"/{x}" for x in (element.lower(), element.upper(), element.swapcase()) if x not in names]

    def strangers(self, taken):
        """Names of other things that are none of the names taken"""
        names = {self.name, self.inst.name, "Modes", *self.modes, *self.transitions, *self.ports}
        names |= {x.name for x in self.areas + self.runnables + self.events}
        for face in self.faces:
            names |= {face.path.rpartition("/")[2], *face.names}
        return sorted(names - set(taken))

    def lost_port(self, lost_modes=False):
        """Adds a port without interface, or with one that is empty, does not exist or is something else;
        it has to be removed again"""
        kind = self.rng.choice(["P", "R", "PR"])
        cls = {"P": E.ProvidePortPrototype, "R": E.RequirePortPrototype, "PR": E.PRPortPrototype}[kind]
        subtypes = ar_enum.IdentifiableSubTypes
        pick = self.rng.random()
        if pick < 0.4:
            # an interface without elements, or with modes that don't exist
            package = self.ws.make_packages("LostInterfaces")
            cls_of = EMPTY[0] if lost_modes and pick >= 0.1 else self.rng.choice(EMPTY)
            interface = cls_of(f"Empty{len(package.elements)}")
            if pick >= 0.1 and lost_modes:
                group = self.rng.choice([None, "/Nowhere/Modes", self.path, self.faces[0].path, self.faces[0].path])
                interface.create_mode_group(self.faces[0].names[0], group and E.ModeDeclarationGroupRef(group))
            package.append(interface)
            ref = interface.ref()
        else:
            ref = self.rng.choice([None, "/Nowhere/Interface", self.path, self.group_path, self.rng.choice(self.faces).path + "_"])
            if ref is not None:
                ref = E.PortInterfaceRef(ref, self.rng.choice([subtypes.SENDER_RECEIVER_INTERFACE, subtypes.CLIENT_SERVER_INTERFACE,
                                                               subtypes.MODE_SWITCH_INTERFACE]))
        self.swc.append_port(cls("LostPort", port_interface_ref=ref))

    def port_of(self, kinds, face_kind):
        """Name of a port of that kind; it is made if there is none"""
        found = [n for n, (kind, face, _) in self.ports.items() if kind in kinds and face.kind == face_kind]
        if found:
            return self.rng.choice(found)
        return self.add_port(self.rng.choice(kinds), self.rng.choice([f for f in self.faces if f.kind == face_kind]))

    def port_ref(self, name):
        return (f"{self.path}/{name}", DEST[self.ports[name][0]])

    def element_ref(self, name, element, dest):
        return (f"{self.ports[name][1].path}/{element}", dest)

    def element(self, name):
        """(text after the port, name of the element)"""
        face = self.ports[name][1]
        element = self.rng.choice(face.names)
        if len(face.names) == 1 and self.rng.random() < 0.5:
            return "", element
        return "/" + element, element

    # -- observation

    def check(self, what):
        obj, vals = self.obj, self.inst.vals
        for attr in ("areas", "runnables", "events", "options"):
            member = {"areas": "exclusive_areas", "options": "port_api_options"}.get(attr, attr)
            if getattr(self, attr):
                vals[member] = getattr(self, attr)
        try:
            self.inst.check(obj)
        except Violation as ex:
            raise Violation(f"{what}-{ex.key}", ex.what) from None
        for attr in ("exclusive_areas", "runnables", "events"):
            for item in getattr(obj, attr):
                if item.parent is not obj or str(item.ref()) != f"{self.base}/{item.name}":
                    raise Violation(f"place-{attr}", f"{item.name}: parent {item.parent!r}, reference {item.ref()}")
        names = [x.name for x in obj.events]
        if len(set(names)) != len(names):
            raise Violation("event-names", f"{what}: {names}")
        for runnable in obj.runnables:
            if obj.find_runnable(runnable.name) is not next(r for r in obj.runnables if r.name == runnable.name):
                raise Violation("find-runnable", runnable.name)
        if obj.find_runnable("no such runnable") is not None:
            raise Violation("find-runnable", "a runnable that does not exist is found")

    def set_prefixes(self, names):
        """Gives other values to some of the behavior settings"""
        rng, settings = self.rng, self.ws.behavior_settings
        new = {name: rng.choice(["BT", "IT", "TT", "DRT", "OIT", "MST", "X", "A", "R_0", "T_", "t", "_", "E9", self.g.ident()])
               for name in names}
        form = rng.choice(["update", "update", "set", "set", "attribute", "config", "config"])
        if form == "update":
            settings.update(new)
        elif form == "set":
            for name, value in new.items():
                settings.set_value(name, value)
        elif form == "attribute":
            for name, value in new.items():
                setattr(settings, name, value)
        else:
            with xio.scratch() as folder:
                path = os.path.join(folder, "config.toml")
                with open(path, "w", encoding="utf-8") as fp:
                    fp.write("[behavior]\n" + "".join(f'{name} = "{value}"\n' for name, value in new.items()))
                self.ws.load_config(path)
        if self.ws.behavior_settings is not settings:
            raise Violation("settings-object", f"{form} replaces the behavior settings")
        self.prefixes.update(new)
        self.check_prefixes(form)
        return form

    def check_prefixes(self, what):
        settings = self.ws.behavior_settings
        for name in PREFIXES + REST:
            value = self.prefixes.get(name)
            if getattr(settings, name) != value:
                raise Violation("setting-" + what, f"{name} is {getattr(settings, name)!r} instead of {value!r}")
            try:
                got = settings.get_value(name)
            except ValueError:
                got = None
            if got != value:
                raise Violation("setting-value-" + what, f"get_value({name!r}) gives {got!r} instead of {value!r}")

    def step_settings(self, ctx):
        """Settings that change later are used from then on, wrong ones are refused"""
        rng, settings = self.rng, self.ws.behavior_settings
        if rng.random() < 0.5:
            form = self.set_prefixes(rng.sample(PREFIXES, rng.choice([0, 1, 3])))
            ctx.count("settings")
            return f"settings/{form}"
        name, value, what = rng.choice(PREFIXES + REST), "A", "value"
        if rng.random() < 0.5:
            value = rng.choice([3, None, b"A", ["A"]])
        else:
            what = "name"
            name = rng.choice(["no_such_prefix", "", name.upper(), name + "_", name[:-7], "update", "set_value", "get_value"])
        if rng.random() < 0.5:
            self.refused("setting-" + what, settings.update, {name: value})
        else:
            self.refused("setting-" + what, settings.set_value, name, value)
        self.check_prefixes(what)
        ctx.count("refused")
        return f"settings/bad {what}"

    def check_xml(self):
        text = xio.write_elem(self.obj, self.inst.spec, None)
        found = diff(self.inst.node(51), parse(text))
        if found:
            raise Violation(f"xml-{first_tag_path(found)}", found, text)

    def refused(self, what, func, *args, **kwargs):
        before = (flat(args), flat(kwargs))
        try:
            got = func(*args, **kwargs)
        except (*REFUSALS, *ACCIDENTS) as ex:
            # things of a wrong type may fail in any way, but wrong names and settings must be told
            if isinstance(ex, ACCIDENTS) and what not in ("type", "form"):
                raise
            if (flat(args), flat(kwargs)) != before:
                raise Violation("argument-changed", f"{what}: an argument was changed") from None
            self.check("refused-" + what)
            return
        raise Violation("accepted-" + what, f"{func.__name__}{args} {kwargs} gives {got!r}")


def keywords(inst):
    return {k.arg: k.build(inst.vals[k.attr], None) for k in inst.spec.members if k.attr in inst.vals}


def unique(names, base):
    """(name of the new one, new names of the others) by the documented numbering, None when that would clash"""
    numbered = [int(m.group(1)) for m in (re.fullmatch(re.escape(base) + r"_([0-9]+)", n) for n in names) if m]
    if base not in names:
        return (f"{base}_{max(numbered) + 1}" if numbered else base), {}
    if 0 in numbered:
        return None, {}
    return f"{base}_{max(numbered + [0]) + 1}", {base: f"{base}_0"}


class Behavior(World):
    """The calls of C16"""

    def step_area(self, ctx):
        inst = SPECS["ExclusiveArea"].gen(self.g)
        inst.vals["name"] = name = self.g.ident() if self.rng.random() < 0.7 else f"EA{len(self.areas)}"
        kwargs = keywords(inst)
        kwargs.pop("name", None)
        got = self.obj.create_exclusive_area(name, **kwargs)
        self.areas.append(inst)
        if got is not self.obj.exclusive_areas[-1]:
            raise Violation("returned-area", "the area returned is not the last one")
        return f"area/{inst.signature()}"

    def step_runnable(self, ctx):
        rng = self.rng
        inst = SPECS["RunnableEntity"].gen(self.g)
        taken = [r.name for r in self.runnables]
        name = rng.choice([w for w in WORDS + [self.g.ident()] if w not in taken])
        inst.vals.pop("can_enter_leave", None)
        inst.vals.pop("symbol", None)
        kwargs = keywords(inst)
        kwargs.pop("name", None)
        inst.vals["name"] = name
        how = rng.choice(["default", "empty", "none", "own"])
        if how != "default":
            own = rng.choice(["My_" + name] * 3 + ["_", "__", " ", "0", name + "_", name.swapcase()])
            kwargs["symbol"] = {"empty": "", "none": None, "own": own}[how]
        if how in ("default", "empty"):
            inst.vals["symbol"] = name
        elif how == "own":
            inst.vals["symbol"] = own
        form = rng.choice(["absent", "absent", "name", "names", "refs", "mixed"])
        areas = [a.name for a in self.areas]
        if not areas or len(set(areas)) != len(areas):
            form = "absent"
        if form != "absent":
            chosen = [a for a in areas if rng.random() < 0.6] or [areas[0]]
            if form == "name":
                chosen = [rng.choice(areas)]
            inst.vals["can_enter_leave"] = [(f"{self.base}/{a}", "EXCLUSIVE_AREA") for a in chosen]
            refs = {a.name: a.ref() for a in self.obj.exclusive_areas}
            if form == "name":
                kwargs["can_enter_leave"] = chosen[0]
            elif form == "names":
                kwargs["can_enter_leave"] = rng.choice([list, tuple])(chosen)
            elif form == "refs":
                kwargs["can_enter_leave"] = [rng.choice([refs[a], E.ExclusiveAreaRefConditional(refs[a])]) for a in chosen]
            else:
                kwargs["can_enter_leave"] = [rng.choice([a, refs[a], E.ExclusiveAreaRefConditional(refs[a])]) for a in chosen]
                if any(isinstance(a, str) for a in kwargs["can_enter_leave"]) and rng.random() < 0.5:
                    kwargs["can_enter_leave"] = tuple(kwargs["can_enter_leave"])
        before = flat(kwargs)
        got = self.obj.create_runnable(name, **kwargs)
        if flat(kwargs) != before:
            raise Violation("argument-changed", f"create_runnable ({form}): an argument was changed")
        if got is not self.obj.runnables[-1]:
            raise Violation("returned-runnable", "the runnable returned is not the last one")
        if form == "mixed":  # in any order
            key = lambda x: str(x.exclusive_area)  # noqa: E731
            if sorted(map(key, got.can_enter_leave)) != sorted(x[0] for x in inst.vals["can_enter_leave"]):
                raise Violation("can-enter-mixed", f"{kwargs['can_enter_leave']} gives "
                                f"{[key(x) for x in got.can_enter_leave]}")
            inst.vals["can_enter_leave"] = [(key(x), "EXCLUSIVE_AREA") for x in got.can_enter_leave]
        self.runnables.append(inst)
        return f"runnable/{how}/{form}/{len(inst.vals.get('can_enter_leave', []))}/{sorted(kwargs)}"

    def event_args(self, call):
        """(positional arguments after the runnable, own keyword arguments, expected members, port, element)"""
        rng = self.rng
        kinds, face_kind = EVENTS[call][2:4]
        if kinds is None:
            if call != "create_timing_event":
                return [], {}, {}, None, None
            values = {k: rng.choice([0, 1, 0.5, 0.001, 3.25, 10]) for k in ("period", "offset") if rng.random() < 0.7}
            args = []
            kwargs = dict(values)
            if rng.random() < 0.5 and "period" in kwargs:
                args.append(kwargs.pop("period"))
                if rng.random() < 0.5 and "offset" in kwargs:
                    args.append(kwargs.pop("offset"))
            return args, kwargs, values, None, None
        port = self.port_of(kinds, face_kind)
        ref = self.port_ref(port)
        if face_kind == "SR":
            text, element = self.element(port)
            data = Inst(SPECS["RVariableInAtomicSwcInstanceRef"], {
                "context_port": ref, "target_data_element": self.element_ref(port, element, "VARIABLE_DATA_PROTOTYPE")})
            return [port + text], {}, {"data": data}, port, element
        if face_kind == "CS":
            text, element = self.element(port)
            operation = Inst(SPECS["POperationInAtomicSwcInstanceRef"], {
                "context_port": ref,
                "target_provided_operation": self.element_ref(port, element, "CLIENT_SERVER_OPERATION")})
            return [port + text], {}, {"operation": operation}, port, element
        element = self.ports[port][1].names[0]
        if call == "create_swc_mode_manager_error_event":
            group = Inst(SPECS["PModeGroupInAtomicSwcInstanceRef"], {
                "context_port": ref,
                "target_mode_group": self.element_ref(port, element, "MODE_DECLARATION_GROUP_PROTOTYPE")})
            return [port], {}, {"mode_group": group}, port, element
        texts, modes = [], []
        for _ in range(rng.choice([1, 1, 2])):
            port = self.port_of(kinds, face_kind)
            element = self.ports[port][1].names[0]
            mode = rng.choice(self.modes)
            texts.append(f"{port}/{mode}")
            modes.append(Inst(SPECS["RModeInAtomicSwcInstanceRef"], {
                "context_port": self.port_ref(port),
                "context_mode_declaration_group_prototype": self.element_ref(port, element,
                                                                            "MODE_DECLARATION_GROUP_PROTOTYPE"),
                "target_mode_declaration": (f"{self.group_path}/{mode}", "MODE_DECLARATION")}))
        own = {"mode": modes}
        args, kwargs = [texts[0] if len(texts) == 1 else rng.choice([list, tuple])(texts)], {}
        if rng.random() < 0.7:
            own["activation"] = rng.choice([x.name for x in ar_enum.ModeActivationKind])
            activation = ar_enum.ModeActivationKind[own["activation"]]
            if rng.random() < 0.5:
                args.append(activation)
            else:
                kwargs["activation"] = activation
        return args, kwargs, own, port, element

    def step_event(self, ctx):
        rng = self.rng
        if not self.runnables:
            return self.step_runnable(ctx)
        call = rng.choice(list(EVENTS))
        cls, prefix, kinds, _ = EVENTS[call]
        inst = SPECS[cls].gen(self.g)
        own_attrs = {"data", "operation", "mode_group", "mode", "activation", "period", "offset", "start_on_event"}
        for attr in own_attrs | {"name"}:
            inst.vals.pop(attr, None)
        kwargs = keywords(inst)
        runnable = rng.choice(self.runnables).name
        args, own_kwargs, own, port, element = self.event_args(call)
        kwargs.update(own_kwargs)
        inst.vals.update(own)
        inst.vals["start_on_event"] = (f"{self.base}/{runnable}", "RUNNABLE_ENTITY")
        names = [e.name for e in self.events]
        naming = rng.choice(["automatic", "automatic", "given", "taken"]) if self.words is WORDS else "given"
        if naming == "automatic":
            if prefix not in self.prefixes:
                self.refused("no-prefix", getattr(self.obj, call), runnable, *args, **kwargs)
                return f"{call}/no prefix"
            base = "_".join([self.prefixes[prefix], runnable])
            if kinds is not None and call != "create_swc_mode_mode_switch_event":
                base += f"_{port}_{element}"
        else:
            base = rng.choice(names) if naming == "taken" and names else rng.choice(self.words + [self.g.ident()])
            kwargs["event_name"] = base
        name, renamed = unique(names, base)
        func = getattr(self.obj, call)
        before = flat(kwargs)
        got = func(runnable, *args, **kwargs)
        if flat(kwargs) != before:
            raise Violation("argument-changed", f"{call}: an argument was changed")
        if got is not self.obj.events[-1]:
            raise Violation("returned-event", "the event returned is not the last one")
        if name is None:
            # the documented numbers are taken: any other number will do
            if not re.fullmatch(re.escape(base) + "_[0-9]+", got.name):
                raise Violation("event-name", f"{names} + {base} gives {[e.name for e in self.obj.events]}")
            name = got.name
            for event, item in zip(self.obj.events, self.events):
                if item.name == base:
                    if not re.fullmatch(re.escape(base) + "_[0-9]+", event.name):
                        raise Violation("event-name", f"{names} + {base} gives {[e.name for e in self.obj.events]}")
                    item.vals["name"] = event.name
        for item in self.events:
            if item.name in renamed:
                item.vals["name"] = renamed[item.name]
        inst.vals["name"] = name
        self.events.append(inst)
        ctx.count(call)
        kind = self.ports[port][0] if port else ""
        clash = "renamed" if renamed else f"numbered{len(name) - len(base)}" if name != base else "plain"
        return f"{call}/{kind}/{type(args[0]).__name__ if args else ''}/{len(args)}/{naming}/{clash}/{sorted(kwargs)}" \
               f"/{'/' in str(args[:1])}"

    def step_bad(self, ctx):
        rng = self.rng
        if not self.runnables:
            return self.step_runnable(ctx)
        call = rng.choice(list(EVENTS))
        kinds, face_kind = EVENTS[call][2:4]
        runnable = rng.choice(self.runnables).name
        args, kwargs, _, port, element = self.event_args(call)
        name = {"event_name": rng.choice([e.name for e in self.events] + WORDS)}
        func = getattr(self.obj, call)
        what = rng.choice(["runnable", "keyword", "area", "runnable-keyword", "port", "element", "element", "kind", "face", "form", "lost"])
        if what == "runnable":
            absent = [w for w in WORDS + ["NoSuchRunnable"] if w not in [r.name for r in self.runnables]]
            absent += rng.sample(self.strangers([r.name for r in self.runnables]), 3)
            absent += [r.vals["symbol"] for r in self.runnables if r.vals.get("symbol")
                       and r.vals["symbol"] not in [x.name for x in self.runnables]]
            self.refused(what, func, rng.choice(absent), *args, **kwargs, **name)
        elif what == "keyword":
            self.refused(what, func, runnable, *args, **kwargs, **name, no_such_setting=3)
        elif what == "area":
            known = [a.name for a in self.areas]
            wrong = rng.choice(["NoSuchArea", ["NoSuchArea"], known + ["NoSuchArea"], ["NoSuchArea"] + known])
            if rng.random() < 0.3:
                wrong = rng.choice(self.strangers(known))
                wrong = rng.choice([wrong, [*known, wrong]])
            self.refused(what, self.obj.create_runnable, "NewRunnable", can_enter_leave=wrong)
        elif what == "runnable-keyword":
            self.refused(what, self.obj.create_runnable, "NewRunnable", **{rng.choice(["no_such_setting", "argument",
                                                                                       "minimum_start_interval"]): "x"})
        elif kinds is None:
            return None
        elif what == "port":
            bad = rng.choice(["NoSuchPort", "NoSuchPort/" + element, "", "/" + port, " " + port] +
                             [p for p in (port.lower(), port.upper(), port.swapcase()) if p not in self.ports] +
                             [f"{p}/{element}" for p in rng.sample(self.strangers(self.ports), 3)])
            self.refused(what, func, runnable, bad, **name)
        elif what == "element":
            if call == "create_swc_mode_manager_error_event":
                return None
            if face_kind == "MS":
                element = self.modes[0]
            bad = port + rng.choice(["/NoSuchElement", f"/{element}x", f"/{element}/{element}", f"/{element}/", f"//{element}",
                                     f"/x{element}", f"/ {element}"] + self.other_case(element, port) +
                                    [f"/{x}" for x in rng.sample(self.strangers(
                                        self.modes if face_kind == "MS" else self.ports[port][1].names), 4)])
            if rng.random() < 0.2:  # name of the port, its interface, or its mode group
                face = self.ports[port][1]
                near = {port, face.path.rpartition("/")[2], self.name, self.group_path.rpartition("/")[2], face.names[0]}
                bad = f"{port}/{rng.choice(sorted(near - set(self.modes if face_kind == 'MS' else face.names)))}"
            if call == "create_swc_mode_mode_switch_event" and self.transitions and rng.random() < 0.3:
                bad = f"{port}/{rng.choice(self.transitions)}"
            if call == "create_swc_mode_mode_switch_event" and rng.random() < 0.5:
                bad = rng.choice([(bad, f"{port}/{self.modes[0]}"), (f"{port}/{self.modes[0]}", bad)])
            self.refused(what, func, runnable, bad, **name)
        elif what == "lost":
            self.lost_port(call == "create_swc_mode_mode_switch_event")
            tail = rng.choice(["", f"/{element}", f"/{self.modes[0]}", "/LostElement"])
            self.refused(what, func, runnable, "LostPort" + tail, **name)
            self.swc.ports.pop()
        elif what == "kind":
            # a port of the other direction
            other = self.port_of(("P",) if kinds[0] == "R" else ("R",), face_kind)
            tail = "" if "manager" in call else "/" + (self.modes[0] if face_kind == "MS" else
                                                       self.ports[other][1].names[0])
            self.refused(what, func, runnable, other + tail, **name)
        elif what == "face":
            other = self.port_of((kinds[0],), rng.choice([k for k in ("SR", "CS", "MS", "PAR") if k != face_kind]))
            tail = "" if "manager" in call else "/" + self.ports[other][1].names[0]
            self.refused(what, func, runnable, other + tail, **name)
        else:
            if call == "create_swc_mode_mode_switch_event":
                good = f"{port}/{self.modes[0]}"
                bad = rng.choice([[good], (good,), (good, good, good), [], 3, None, (good, 3), (None, good), (good, "")])
            else:
                bad = rng.choice([3, None, ["x"], b"abc"])
            self.refused(what, func, runnable, bad, **name)
        ctx.count("refused")
        return f"bad/{what}/{call}"


def judge(ctx, rng, reload=None):
    world = Behavior(rng)
    steps, kinds = rng.randint(3, 14), ["area", "runnable", "runnable", "event", "event", "event", "event", "bad"]
    if rng.random() < 0.3:
        kinds.append("settings")
    if rng.random() < 0.4:
        kinds += ["bad"] * 4
    if rng.random() < 0.08:
        # the same names again and again, so that the numbers get more digits
        base = rng.choice(["Run", "A_0", world.g.ident()])
        numbers = rng.sample([0, 1, 2, 5, 8, 9, 10, 11, 99, 100], rng.choice([0, 1, 2, 4]))
        world.words = [base] * rng.choice([4, 8]) + [f"{base}_{n}" for n in numbers] + [base + "_x"] * rng.randint(0, 1)
        steps, kinds = rng.choice([18, 30]), ["event"]
    for _ in range(steps):
        if reload is not None and rng.random() < 0.3:
            reload(world)
            world.check("reload")
        what = rng.choice(kinds)
        label = getattr(world, "step_" + what)(ctx)
        world.check(what)
        if label:
            ctx.case(label)
    world.check_xml()


def run(ctx):
    for _, rng in ctx.loop("histories", 250, 0.98):
        ctx.guard(judge, ctx, rng)

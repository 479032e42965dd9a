"""C15: connectors in compositions join exactly the ports that were named, in the right roles"""
import autosar.xml as ar_xml
import autosar.xml.element as E
from arv import xio
from arv.harness import Violation
from arv.model import Gen, Inst, SPECS
from arv.xmltree import diff, parse, first_tag_path
from checks.c14 import Face, PORT_SPECS

RULE = ("a composition in a random workspace gets ports, component prototypes (of atomic components and of other "
        "compositions) and connectors in random order, among them requests that must be refused; after every step the "
        "composition and its XML are compared with the reference model and all references are resolved; distinct = "
        "distinct (kinds of the two ports, places, order, sizes, outcome)")
ASSUMPTIONS = ["the composition and the component types belong to the workspace, names are unique in their component",
               "two provide-require ports are not joined with each other"]
ASCII_SHARD = True
QUICK_S = 8.0
THOROUGH_S = 120.0
MIN_DISTINCT = 700

DEST = {"P": "P_PORT_PROTOTYPE", "R": "R_PORT_PROTOTYPE", "PR": "PR_PORT_PROTOTYPE"}
WORDS = ["A", "B", "C", "A_B", "B_C", "Port", "Speed", "p", "P", "a_b", "Comp1", "Comp2", "x", "Comp"]


class Type:
    """A component type with named ports"""

    def __init__(self, rng, g, ws, cls, faces, path):
        self.name = path.rpartition("/")[2]
        self.path = path
        self.cls = cls
        self.obj = getattr(E, cls)(self.name)
        ws.make_packages(path[1:].rpartition("/")[0]).append(self.obj)
        self.ports = {}

    def add_port(self, rng, faces, name):
        kind = rng.choice(["P", "P", "P", "R", "R", "R", "PR"])
        vals = {"name": name}
        args = [name]
        face = rng.choice(faces)
        args.append(face.obj)
        vals["port_interface_ref"] = (face.path, face.dest)
        func = {"P": "create_p_port", "R": "create_r_port", "PR": "create_pr_port"}[kind]
        port = getattr(self.obj, func)(*args)
        self.ports[name] = (kind, port)
        return Inst(SPECS[PORT_SPECS[kind]], vals)


class World:
    def __init__(self, rng):
        self.rng = rng
        self.g = g = Gen(rng, edge="some", density=0.2, depth=1, hostile=0)
        self.ws = ar_xml.Workspace()
        self.faces = [Face(rng, g, self.ws, rng.choice(["SR", "CS"])) for _ in range(2)]
        self.types = []
        packages = ["".join(f"/{g.ident()}" for _ in range(rng.choice([1, 2, 3, rng.choice([3, 12])]))) for _ in range(2)]
        used = set()
        for _ in range(rng.randint(1, 4)):
            path = f"{rng.choice(packages)}/{rng.choice(WORDS + [g.ident()])}"
            if path in used:
                continue
            used.add(path)
            cls = rng.choice(["ApplicationSoftwareComponentType"] * 2 + ["CompositionSwComponentType"])
            kind = Type(rng, g, self.ws, cls, self.faces, path)
            self.types.append(kind)
            for name in rng.sample(WORDS, rng.randint(0, 4)):
                kind.add_port(rng, self.faces, name)
        path = f"{rng.choice(packages)}/Composition"
        self.top = Type(rng, g, self.ws, "CompositionSwComponentType", self.faces, path)
        self.names = list(WORDS)  # not yet used in the composition
        rng.shuffle(self.names)
        self.inst = Inst(SPECS["CompositionSwComponentType"], {"name": "Composition"})
        self.ports, self.comps, self.conns = [], [], []
        self.types_of = {}
        self.log = []

    # -- steps

    def new_name(self):
        while self.names:
            name = self.names.pop()
            if name not in self.taken():
                return name
        return f"N{len(self.ports) + len(self.comps)}"

    def taken(self):
        return {x.name for x in self.ports + self.comps + self.conns}

    def some_name(self):
        """A new name, maybe the one that a connector would get"""
        ends = self.ends()
        if ends and self.rng.random() < 0.2:
            want = self.expected(self.rng.choice(ends), self.rng.choice(ends))
            if isinstance(want, Inst) and want.name not in self.taken():
                self.log.append("future")
                return want.name
        return self.new_name()

    def step_port(self):
        self.ports.append(self.top.add_port(self.rng, self.faces, self.some_name()))
        self.log.append("port")

    def step_component(self):
        rng = self.rng
        kind = rng.choice(self.types)
        inst = SPECS["SwComponentPrototype"].gen(self.g) if rng.random() < 0.3 else Inst(SPECS["SwComponentPrototype"], {})
        inst.vals.pop("name", None)
        inst.vals.pop("type_ref", None)
        kwargs = {k.arg: k.build(inst.vals[k.attr], None) for k in inst.spec.members if k.attr in inst.vals}
        if rng.random() < 0.4 and kind.name not in self.taken():
            name = kind.name
            got = self.top.obj.create_component_prototype(kind.obj, **kwargs)
        else:
            name = self.some_name()
            if rng.random() < 0.5:
                got = self.top.obj.create_component_prototype(kind.obj, name, **kwargs)
            else:
                got = self.top.obj.create_component_prototype(kind.obj, name=name, **kwargs)
        dest = "COMPOSITION_SW_COMPONENT_TYPE" if "Composition" in kind.cls else "APPLICATION_SW_COMPONENT_TYPE"
        inst.vals.update(name=name, type_ref=(kind.path, dest))
        if got is not self.top.obj.components[-1]:
            raise Violation("returned-component", "the prototype returned is not the last one of the composition")
        self.comps.append(inst)
        self.types_of[name] = kind
        self.log.append("component")

    def ends(self):
        """(text, kind of port, name of port, component or None, path of the port)"""
        out = [(p.name, *self.top.ports[p.name], None, f"{self.top.path}/{p.name}", p.name) for p in self.ports]
        for comp in self.comps:
            kind = self.types_of[comp.name]
            for name, (role, port) in kind.ports.items():
                out.append((f"{comp.name}/{name}", role, port, comp.name, f"{kind.path}/{name}", name))
        return out

    def expected(self, one, two, either=False):
        """The connector of the reference model, None when it has to be refused, or "open" """
        text1, role1, _, comp1, path1, name1 = one
        text2, role2, _, comp2, path2, name2 = two
        top = self.top.path

        def iref(comp, path, role):
            return Inst(SPECS["PortInCompositionTypeInstanceRef"], {
                "component_ref": (f"{top}/{comp}", "SW_COMPONENT_PROTOTYPE"), "port_ref": (path, DEST[role])})

        if role1 == role2 == "PR" and (comp1 is None) == (comp2 is None) and not either:
            return "open"
        if comp1 is not None and comp2 is not None:
            if role1 == role2 != "PR":
                return None
            first = role1 == "P" or role2 == "R" or role1 == role2
            give, take = (one, two) if first else (two, one)
            return Inst(SPECS["AssemblySwConnector"], {
                "name": "_".join([give[3], give[5], take[3], take[5]]),
                "provide_port": iref(give[3], give[4], give[1]), "require_port": iref(take[3], take[4], take[1])})
        if comp1 is None and comp2 is None:
            if role1 == role2 != "PR":
                return None
            first = role1 == "P" or role2 == "R" or role1 == role2
            give, take = (one, two) if first else (two, one)
            return Inst(SPECS["PassThroughSwConnector"], {
                "name": f"{give[5]}_{take[5]}", "provide_port": (give[4], DEST[give[1]]),
                "require_port": (take[4], DEST[take[1]])})
        inner, outer = (two, one) if comp1 is None else (one, two)
        if {inner[1], outer[1]} == {"P", "R"}:
            return None
        parts = [inner[3], inner[5], outer[5]] if outer[1] == "P" else [outer[5], inner[3], inner[5]]
        return Inst(SPECS["DelegationSwConnector"], {
            "name": "_".join(parts), "inner_port": iref(inner[3], inner[4], inner[1]),
            "outer_port": (outer[4], DEST[outer[1]])})

    def step_connector(self, ctx):
        ends = self.ends()
        if not ends:
            return
        rng = self.rng
        one, two = rng.choice(ends), rng.choice(ends)
        if self.conns and rng.random() < 0.15:  # the same once more, maybe with its ends the other way round
            one, two = rng.choice([self.last, self.last[::-1]])
        want = self.expected(one, two)
        if want == "open":
            self.last = (one, two)
            return self.step_open(ctx, one, two)
        self.last = (one, two)
        label = f"{'inner' if one[3] else 'outer'}-{one[1]}/{'inner' if two[3] else 'outer'}-{two[1]}"
        outcome = "made"
        if want is None:
            outcome = "roles"
        elif want.name in self.taken():
            outcome = "name taken"
        try:
            got = self.top.obj.create_connector(one[0], two[0], self.ws)
        except ValueError as ex:
            if outcome == "made":
                raise Violation(f"refused-{label}", f"create_connector({one[0]!r}, {two[0]!r}): {ex}") from None
        else:
            if outcome != "made":
                raise Violation(f"accepted-{label}", f"create_connector({one[0]!r}, {two[0]!r}) ({outcome}) gives {got!r}")
            if got is not self.top.obj.connectors[-1]:
                raise Violation("returned-connector", "the connector returned is not the last one of the composition")
            self.conns.append(want)
        self.log.append(f"{label}/{outcome}/{'same' if one[3] == two[3] else ''}")
        ctx.count(f"connector_{outcome}")

    def step_open(self, ctx, one, two):
        """Two provide-require ports: refused, or a connector of them in either direction"""
        wants = [self.expected(*pair, True) for pair in ((one, two), (two, one))]
        try:
            got = self.top.obj.create_connector(one[0], two[0], self.ws)
        except ValueError:
            ctx.count("open_refused")
            self.log.append("open/refused")
            return
        wants = [w for w in wants if w.name == got.name] or wants[:1]
        if wants[0].name in self.taken():
            raise Violation("accepted-open", f"create_connector({one[0]!r}, {two[0]!r}): the name is taken")
        self.conns.append(wants[0])
        self.log.append("open/made")
        ctx.count("open_made")

    def step_bad(self, ctx):
        """References that name nothing, and references with too many or too few parts"""
        rng = self.rng
        ends = self.ends()
        good = rng.choice(ends)[0] if ends else "p"
        comp = rng.choice(self.comps).name if self.comps else "c"
        ports = self.types_of[comp].ports if self.comps else {}
        missing = [n for n in WORDS + ["NoSuchPort"] if n not in ports]
        absent = [n for n in WORDS + ["NoSuchName"] if n not in self.taken()]
        what = rng.choice(["no-port", "no-inner-port", "no-component", "empty", "long", "path", "slash", "component",
                           "connector", "port-as-component", "trailing", "leading", "double", "blank", "case", "dot",
                           "type-name", "backslash"])
        bad = {"no-port": absent[-1], "no-inner-port": f"{comp}/{rng.choice(missing)}",
               "no-component": f"{rng.choice(absent)}/{rng.choice(list(ports) or ['p'])}", "empty": "",
               "long": f"{good}/x/y", "path": rng.choice(ends)[4] if ends else "/a/b/c/d", "slash": f"{comp}/",
               "component": comp, "connector": self.conns[-1].name if self.conns else absent[0],
               "trailing": good + rng.choice(["/", "//"]), "leading": "//" + good,
               "double": good.replace("/", "//") if "/" in good else f"//{good}", "blank": rng.choice([" " + good, good + " ",
               good.replace("/", " /")]) if "/" in good else rng.choice([" ", "\t"]) + good,
               "case": rng.choice([good.swapcase(), good.upper(), good.lower(), good.capitalize()]), "dot": "./" + good,
               "type-name": f"{self.types_of[comp].name if self.comps else 'c'}/{rng.choice(list(ports) or ['p'])}",
               "backslash": good.replace("/", "\\") if "/" in good else good + "\\",
               "port-as-component": f"{self.ports[-1].name if self.ports else 'x'}/{self.ports[-1].name if self.ports else 'x'}",
               }[what]
        if bad in [e[0] for e in ends] or bad.lstrip("/") in [e[0] for e in ends]:
            return
        pair = rng.choice([(bad, good), (good, bad), (bad, bad)])
        try:
            got = self.top.obj.create_connector(*pair, self.ws)
        except ValueError:
            self.log.append("bad-" + what)
            ctx.count("bad_references")
            return
        raise Violation("accepted-" + what, f"create_connector{pair} gives {got!r}")

    # -- observation

    def check(self, what):
        obj, inst = self.top.obj, self.inst
        for attr, want in (("ports", self.ports), ("components", self.comps), ("connectors", self.conns)):
            got = getattr(obj, attr)
            if len(got) != len(want):
                raise Violation(f"{attr}-{what}", f"{len(got)} {attr} instead of {len(want)}")
            for a, b in zip(got, want):
                try:
                    b.check(a, attr)
                except Violation as ex:
                    raise Violation(f"{what}-{ex.key}", ex.what) from None
                path = f"{self.top.path}/{b.name}"
                if a.parent is not obj or self.ws.find(path) is not a or obj.find(b.name) is not a:
                    raise Violation(f"lookup-{attr}", f"{path} gives {self.ws.find(path)!r}, {obj.find(b.name)!r}")
            if want:
                inst.vals[attr] = want
        for conn in obj.connectors:
            for ref in refs_of(conn):
                found = self.ws.find(ref)
                if found is None or found.name != str(ref).rpartition("/")[2]:
                    raise Violation("dangling", f"{conn.name}: {ref} gives {found!r}")
        for comp in obj.components:
            if self.ws.find(comp.type_ref) is not self.types_of[comp.name].obj:
                raise Violation("dangling-type", f"{comp.name}: {comp.type_ref}")
            if str(comp.ref()) != f"{self.top.path}/{comp.name}":
                raise Violation("component-ref", str(comp.ref()))

    def check_xml(self):
        for conn in self.conns:
            if conn.spec.name == "DelegationSwConnector" and conn.vals["inner_port"].vals["port_ref"][1].startswith("PR"):
                return
        text = xio.write_elem(self.top.obj, self.inst.spec, None)
        found = diff(self.inst.node(51), parse(text))
        if found:
            raise Violation(f"xml-{first_tag_path(found)}", found, text)

    def others(self):
        """The component types as they are written"""
        return [xio.write_elem(t.obj, SPECS[t.cls], None) for t in self.types]


def refs_of(conn):
    if isinstance(conn, E.AssemblySwConnector):
        return [conn.provide_port.component_ref, conn.provide_port.port_ref,
                conn.require_port.component_ref, conn.require_port.port_ref]
    if isinstance(conn, E.DelegationSwConnector):
        return [conn.inner_port.component_ref, conn.inner_port.port_ref, conn.outer_port]
    return [conn.provide_port, conn.require_port]


def judge(ctx, rng, reload=None):
    world = World(rng)
    before = world.others()
    for _ in range(rng.randint(0, 3)):
        world.step_port()
    for _ in range(rng.randint(0, 3)):
        world.step_component()
    world.check("setup")
    for _ in range(rng.randint(2, 10)):
        if reload is not None and rng.random() < 0.3:
            reload(world)
            world.check("reload")
        what = rng.choice(["connector"] * 12 + ["port", "component", "bad", "bad"])
        size = len(world.log)
        if what == "connector":
            world.step_connector(ctx)
        elif what == "bad":
            world.step_bad(ctx)
        elif what == "port":
            world.step_port()
        else:
            world.step_component()
        world.check(what)
        if len(world.log) > size:
            ctx.case(f"{world.log[-1]}/{len(world.ports)}/{len(world.comps)}/{len(world.conns)}")
    world.check_xml()
    if world.others() != before:
        raise Violation("types-changed", "making connectors changed the component types")


def judge_broken(ctx, rng):
    """Prototypes whose type cannot be used"""
    world = World(rng)
    world.step_port()
    what = rng.choice(["no-type", "missing", "not-a-component", "unpackaged"])
    if what == "no-type":
        proto = E.SwComponentPrototype("Broken")
    elif what == "missing":
        proto = E.SwComponentPrototype("Broken", E.SwComponentTypeRef(
            "/No/Such", E.ar_enum.IdentifiableSubTypes.APPLICATION_SW_COMPONENT_TYPE))
    elif what == "not-a-component":
        world.ws.make_packages("Units").append(E.Unit("U"))
        proto = E.SwComponentPrototype("Broken", E.SwComponentTypeRef(
            "/Units/U", E.ar_enum.IdentifiableSubTypes.APPLICATION_SW_COMPONENT_TYPE))
    else:
        swc = E.ApplicationSoftwareComponentType("Loose")
        swc.create_p_port("p", world.faces[0].obj)
        proto = E.SwComponentPrototype("Broken", swc.ref())
    world.top.obj.append_component(proto)
    pair = rng.choice([("Broken/p", world.ports[0].name), (world.ports[0].name, "Broken/p"), ("Broken/p", "Broken/p")])
    try:
        got = world.top.obj.create_connector(*pair, world.ws)
    except ValueError:
        if world.top.obj.connectors:
            raise Violation("refused-but-added", f"{what}: a connector was added all the same") from None
        ctx.case(f"broken/{what}/{pair.index('Broken/p')}")
        return
    raise Violation(f"accepted-type-{what}", f"create_connector{pair} gives {got!r}")


def run(ctx):
    for _, rng in ctx.loop("histories", 300, 0.9):
        ctx.guard(judge, ctx, rng)
    for _, rng in ctx.loop("broken", 20, 0.1):
        ctx.guard(judge_broken, ctx, rng)

"""C23: what was read from files can be used like what was just built"""
import os
import autosar.xml as ar_xml
import autosar.xml.element as E
from arv import xio
from arv.harness import Violation
from arv.model import SPECS
from checks import c12, c14, c15, c16, c17, c18, c19, c20, c21

RULE = ("the histories of C12 (templates), C14 to C18 (ports, connectors, events, access points, implementation model), C19 "
        "(type header), C20 (members of interfaces) and C21 (limits) are interrupted at random points: all packages are "
        "written to one or several documents, read back, put into a new workspace, and the history goes on with the objects "
        "that were read, judged by the same reference models; distinct = distinct situations of those checks")
ASSUMPTIONS = ["behavior settings and namespaces are no content of documents: they are set again in the new workspace"]
ASCII_SHARD = True
QUICK_S = 10.0
THOROUGH_S = 200.0
MIN_DISTINCT = 800


class Loader:
    """Writes and reads workspaces"""

    def __init__(self, ctx, rng):
        self.ctx = ctx
        self.rng = rng

    def documents(self, ws, folder):
        """Write everything, gives documents"""
        rng = self.rng
        version = rng.choice(xio.VERSIONS[-2:])
        reader = ar_xml.Reader(schema_version=version) if rng.random() < 0.5 else None
        names = [package.name for package in ws.packages]
        how = rng.choice(["text", "document", "workspace", "workspace"])
        if how == "workspace":
            # by the documents of the workspace itself: one, or one for each package
            groups = [names] if names and rng.random() < 0.5 else [[x] for x in names]
            ws.set_document_root(folder)
            for number, group in enumerate(groups):
                ws.create_document(f"{number}.arxml", ["/" + x for x in group] if len(group) > 1 or rng.random() < 0.5
                                   else "/" + group[0])
            ws.write_documents(version)
            return [self.silent(xio.read_file(os.path.join(folder, f"{number}.arxml"), reader))
                    for number in range(len(groups))]
        document = ar_xml.Document(list(ws.packages), schema_version=version)
        if how == "text":
            found = self.silent(xio.read_doc(ar_xml.Writer().write_str(document), reader))
        else:
            path = os.path.join(folder, "all.arxml")
            ar_xml.Writer().write_file(document, path)
            found = self.silent(xio.read_file(path, reader))
        for package in ws.packages:
            package.parent = ws  # the document is gone
        return [found]

    @staticmethod
    def silent(result):
        document, messages = result
        if messages.strip():
            raise Violation("reload-messages", messages[:500])
        return document

    def reload(self, ws):
        """A new workspace with everything of the old one"""
        with xio.scratch() as folder:
            documents = self.documents(ws, folder)
        fresh = ar_xml.Workspace()
        for document in documents:
            for package in list(document.packages):
                fresh.append(package)
        if [x.name for x in fresh.packages] != [x.name for x in ws.packages]:
            raise Violation("reload-packages", f"{[x.name for x in fresh.packages]}")
        self.ctx.count("reloaded")
        return fresh

    def find(self, ws, path, like=None):
        """The object that was read"""
        got = ws.find(path)
        if got is None or like is not None and (type(got) is not type(like) or got is like):
            raise Violation("reload-find", f"{path} is {got!r} instead of a {type(like).__name__}")
        return got

    @staticmethod
    def member(owner, like):
        """The member that was read; interfaces have no find"""
        for _, value in xio.public(owner):
            for item in value if isinstance(value, list) else [value]:
                if type(item) is type(like) and item.name == like.name and item is not like:
                    return item
        raise Violation("reload-member", f"no {like.name} in {owner.name}")

    def faces(self, ws, faces):
        for face in faces:
            face.obj = self.find(ws, face.path, face.obj)
            face.elements = [self.member(face.obj, x) for x in face.elements]

    # -- one for each kind of history

    def case(self, case):
        """C12"""
        fresh = self.reload(case.ws)
        case.ws, how = c12.make_workspace(self.rng, case.spaces)
        case.how = "reload/" + how
        for package in list(fresh.packages):
            case.ws.append(package)
        case.elements = {path: self.find(case.ws, path, elem) for path, elem in case.elements.items()}

    def component(self, comp, faces):
        """C14"""
        comp.ws = self.reload(comp.ws)
        comp.obj = self.find(comp.ws, comp.path, comp.obj)
        self.faces(comp.ws, faces)

    def composition(self, world):
        """C15"""
        world.ws = self.reload(world.ws)
        self.faces(world.ws, world.faces)
        for item in [*world.types, world.top]:
            item.obj = self.find(world.ws, item.path, item.obj)
            item.ports = {name: (kind, self.find(world.ws, f"{item.path}/{name}", port))
                          for name, (kind, port) in item.ports.items()}

    def behavior(self, world):
        """C16, C17"""
        world.ws = ws = self.reload(world.ws)
        ws.behavior_settings.update(world.prefixes)
        world.swc = self.find(ws, world.path, world.swc)
        old, world.obj = world.obj, world.swc.internal_behavior
        if type(world.obj) is not type(old) or world.obj is old or world.obj.name != old.name:
            raise Violation("reload-behavior", f"{world.obj!r} is no internal behavior {world.base}")
        world.group = self.find(ws, world.group_path, world.group)
        self.faces(ws, world.faces)
        world.ports = {name: (kind, face, self.find(ws, f"{world.path}/{name}", port))
                       for name, (kind, face, port) in world.ports.items()}

    def graph(self, graph):
        """C18, C19"""
        graph.workspace = self.reload(graph.workspace)
        for item in graph.types:
            item.element = self.find(graph.workspace, item.ref, item.element)
            item.emitter = item.emitter or None  # there is no empty NMTOKEN
        graph.packages = [self.find(graph.workspace, path) for path in graph.paths]

    def owner(self, owner):
        """C20"""
        if owner.path is None:
            return
        owner.ws = self.reload(owner.ws)
        owner.obj = self.find(owner.ws, owner.path, owner.obj)
        own, owner.own = owner.own, []
        for obj, parent, path in own:
            above = owner.obj if path.count("/") == 1 else self.member(owner.obj, parent)
            owner.own.append((self.member(above, obj), above, path))

    def limits(self, obj, cls):
        """C21"""
        self.ctx.count("reloaded")
        if cls == "LimitObject":
            return obj
        spec = SPECS[cls]
        text = xio.write_elem(obj, spec, spec.tags[0] if spec.takes_tag else None)
        return self.silent(xio.read_elem(text, spec))


def run(ctx):
    compiler_batch = 20 if ctx.tier == "quick" else 100

    def judge(part, method, *args):
        def guarded(rng):
            loader = Loader(ctx, rng)
            part(ctx, rng, *args, reload=getattr(loader, method))
        return guarded

    for label, count, share, part, method in (
            ("templates", 40, 0.12, c12.judge_templates, "case"),
            ("ports", 40, 0.12, c14.judge_good, "component"),
            ("connectors", 40, 0.12, c15.judge, "composition"),
            ("events", 60, 0.16, c16.judge, "behavior"),
            ("accesses", 60, 0.16, c17.judge, "behavior"),
            ("types", 40, 0.1, c18.judge, "graph"),
            ("members", 40, 0.12, c20.judge, "owner"),
            ("limits", 40, 0.03, c21.judge_limits, "limits")):
        for _, rng in ctx.loop(label, count, share):
            ctx.guard(judge(part, method), rng)
    with xio.scratch() as folder:
        compiler = c19.Compiler(folder, compiler_batch)
        for _, rng in ctx.loop("headers", 20, 0.06):
            ctx.guard(judge(c19.judge, "graph", compiler), rng)
        ctx.guard(compiler.compile, ctx)

"""C24: a writing that fails is reported and spares the files that are there"""
import os
import resource
import autosar.xml.document as ar_document
import autosar.xml.element as E
import autosar.xml.enumeration as ar_enum
from autosar.xml.workspace import Workspace
from autosar.xml.reader import Reader
from autosar.xml.writer import Writer
from arv import xio
from arv.harness import Violation
from arv.model import COLLECTABLE, SPECS, Gen, gen_package

RULE = ("histories of writing documents, single elements and workspaces to files, some of them with content that can't be "
        "written (at a random place) or refused by the system (no directory, no space); after every step all files of the "
        "directory, the open files of the process and the package trees are compared with the model; distinct = distinct "
        "(operation, obstacle, place, state of the file, outcome, version)")
ASSUMPTIONS = ["no other process changes the files", "after the system itself ran out of space, the file that was being "
               "written has no defined content"]
ASCII_SHARD = True
QUICK_S = 8.0
THOROUGH_S = 100.0
MIN_DISTINCT = 250


class OwnUnit(E.Unit):
    """An element of the user's own class, which no writer knows"""


class OwnElement(E.ARElement):
    """The same"""


def packages_in(packages):
    for package in packages:
        yield package
        yield from packages_in(package.packages)


def obstacle(rng, roots, ver, number):
    """Makes the writing of one of the packages impossible; returns (label, root package, function that takes it back)"""
    root = rng.choice(roots)
    below = list(packages_in([root]))
    package = rng.choice(below)
    deep = package is not root
    elements = package.elements
    kinds = ["class", "class"]
    if ver == 48:
        kinds += ["version", "version"]
    if elements:
        kinds += ["number", "surrogate", "surrogate"]
    kind = rng.choice(kinds)
    if kind in ("class", "version"):
        if kind == "class":
            elem = rng.choice([OwnUnit, OwnElement])(f"Own{number}")
        else:
            member = E.ImplementationDataTypeElement("Member", array_impl_policy=rng.choice(list(ar_enum.ArrayImplPolicy)))
            elem = E.ImplementationDataType(f"Own{number}", sub_elements=[member])
        package.append(elem)
        place = rng.choice(["first", "last"])
        if place == "first":
            elements.insert(0, elements.pop())

        def undo():
            elements.remove(elem)
    else:
        elem = rng.choice(elements)
        old = elem.category
        place = "first" if elem is elements[0] else "last" if elem is elements[-1] else "middle"
        elem.category = 5 if kind == "number" else "bad\udc80text"

        def undo():
            elem.category = old
    return f"{kind}/{place}/{deep}/{root is roots[0]}", root, undo


class Files:
    """Model of a directory"""

    def __init__(self, directory):
        self.directory = directory
        self.content = {}

    def path(self, name):
        return os.path.join(self.directory, name)

    def read(self, name):
        with open(self.path(name), "rb") as fp:
            return fp.read()

    def put(self, name, data):
        with open(self.path(name), "wb") as fp:
            fp.write(data)
        self.content[name] = data

    def check(self, where):
        found = sorted(os.listdir(self.directory))
        if found != sorted(self.content):
            raise Violation(f"files-{where}", f"files {found}, expected {sorted(self.content)}")
        for name, data in self.content.items():
            got = self.read(name)
            if got != data:
                raise Violation(f"content-{where}", f"{name} has {len(got)} bytes and isn't the {len(data)} bytes it had or "
                                "should get", got.decode("utf-8", "replace")[:3000])

    def open_files(self, where):
        for number in os.listdir("/proc/self/fd"):
            try:
                path = os.readlink(f"/proc/self/fd/{number}")
            except OSError:
                continue
            if path.startswith(os.path.realpath(self.directory) + "/"):
                raise Violation(f"left-open-{where}", f"{path} is still open")


def attempt(files, where, func, *args):
    """The call must fail"""
    try:
        func(*args)
    except Exception as ex:  # pylint: disable=W0718
        files.open_files(where)
        return type(ex).__name__
    raise Violation(f"no-error-{where}", f"{func.__name__} didn't fail")


def text_of(document):
    return Writer().write_str(document, skip_root_attr=False).encode("utf-8")


def prepare(rng, files, name):
    """State of the file before"""
    state = rng.choice(["missing", "file", "file", "empty", "kept", "kept"])
    if state == "kept" and name not in files.content:
        state = "missing"
    if state == "missing" and name in files.content:
        state = "kept"
    if state in ("file", "empty"):
        files.put(name, b"" if state == "empty" else b"<old/>\n" * rng.choice([1, 5, 5000]))
    return state


def good_file(files, name, want, where):
    """What was written is there completely"""
    if not os.path.isfile(files.path(name)):
        raise Violation(f"missing-{where}", f"{name} was not written")
    data = files.read(name)
    if data.strip() != want.strip():
        raise Violation(f"written-{where}", f"{name} isn't what was written", data.decode("utf-8", "replace")[:3000])
    files.content[name] = data


def no_space(func, *args, limit):
    """Calls with a limit of the size of files; returns the error, if there was one"""
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
    try:
        func(*args)
    except OSError as ex:
        return ex
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    return None


def judge_writer(ctx, rng):
    """One writer (or several), documents and elements"""
    with xio.scratch() as directory:
        files = Files(directory)
        ver = rng.choice([48, 48, 49, 50, 51])
        g = Gen(rng, density=0.3, depth=1, ver=ver, hostile=0.2, breadth=2)
        packages = [gen_package(g, rng.choice([0, 1, 2]), 3) for _ in range(rng.randint(1, 3))]
        document = ar_document.Document([p.build(rng) for p in packages], ver)
        spec = SPECS[rng.choice(COLLECTABLE)]
        elem = spec.gen(g).build(rng)
        want, want_elem = text_of(document), Writer(ver).write_str_elem(elem).encode("utf-8")
        writer, labels = Writer(ver), []
        for step in range(rng.randint(3, 7)):
            if rng.random() < 0.3:
                writer = Writer(ver)
            name = rng.choice(["a.arxml", "b.arxml", "c.arxml"])
            state = prepare(rng, files, name)
            op = rng.choice(["good", "good-elem", "bad", "bad", "bad-elem", "bad-elem", "directory", "no-directory", "no-space"])
            label = op
            if op == "good":
                writer.write_file(document, files.path(name))
                good_file(files, name, want, op)
            elif op == "good-elem":
                writer.write_file_elem(elem, files.path(name))
                good_file(files, name, want_elem, op)
            elif op == "bad":
                label, _, undo = obstacle(rng, document.packages, ver, step)
                label += "/" + attempt(files, op, writer.write_file, document, files.path(name))
                undo()
            elif op == "bad-elem":
                kind = rng.choice(["class", "none", "number", "surrogate"])
                if kind == "class":
                    broken = rng.choice([OwnUnit, OwnElement])("Own")
                elif kind == "none":
                    broken = None
                else:
                    broken = E.ApplicationSoftwareComponentType("Swc", category="text")
                    port = broken.create_p_port("Port")
                    setattr(rng.choice([broken, port]), "category", 5 if kind == "number" else "\udc80")
                label += f"/{kind}/" + attempt(files, op, writer.write_file_elem, broken, files.path(name))
            elif op == "directory":
                os.mkdir(files.path("folder"))
                label += "/" + attempt(files, op, writer.write_file, document, files.path("folder"))
                os.rmdir(files.path("folder"))
            elif op == "no-directory":
                path = files.path(os.path.join("none", name))
                if rng.random() < 0.5:
                    attempt(files, op, writer.write_file, document, path)
                else:
                    attempt(files, op, writer.write_file_elem, elem, path)
            else:
                limit = rng.choice([0, 10, len(want) - 1])
                if no_space(writer.write_file, document, files.path(name), limit=limit) is None:
                    raise Violation("no-error-no-space", f"{len(want)} bytes were written to a file limited to {limit} bytes")
                files.open_files(op)
                if os.path.exists(files.path(name)):
                    files.content[name] = files.read(name)
            files.check(op)
            files.open_files(op)
            ctx.count(op)
            labels.append(f"{label}/{state}/{ver}")
        writer.write_file(document, files.path("end.arxml"))
        good_file(files, "end.arxml", want, "end")
        for label in labels:
            ctx.case("writer/" + label)


def judge_workspace(ctx, rng):
    """All documents of a workspace"""
    with xio.scratch() as directory:
        ver = rng.choice([48, 48, 49, 50, 51])
        g = Gen(rng, density=0.2, depth=1, ver=ver, hostile=0.2, breadth=2)
        roots = [gen_package(g, rng.choice([0, 1]), 3).build(rng) for _ in range(rng.randint(2, 4))]
        workspace = Workspace(document_root=directory)
        for package in roots:
            workspace.append(package)
        documents = {}
        for number in range(rng.randint(2, 4)):
            chosen = rng.sample(roots, rng.randint(1, min(2, len(roots))))
            documents[f"doc{number}.arxml"] = chosen
            workspace.create_document(f"doc{number}.arxml", [f"/{p.name}" for p in chosen])
        if rng.random() < 0.5:
            units = workspace.create_package("Units_x")
            for name in "One", "Two", "Three":
                units.append(E.Unit(name))
                documents[f"{name}.arxml"] = []
            workspace.create_document_mapping("/Units_x", E.Unit, [])
        good = {}
        with xio.scratch() as other:
            workspace.set_document_root(other)
            workspace.write_documents(ver)
            for name in documents:
                with open(os.path.join(other, name), "rb") as fp:
                    good[name] = fp.read()
        workspace.set_document_root(directory)
        files = Files(directory)
        for step in range(rng.randint(1, 3)):
            states = [prepare(rng, files, name) for name in documents]
            before = dict(files.content)
            label, root, undo = obstacle(rng, roots, ver, step)
            affected = {name for name, chosen in documents.items() if root in chosen}
            if affected:
                label += "/" + attempt(files, "workspace", workspace.write_documents, ver)
            else:
                workspace.write_documents(ver)
            written = 0
            for name in sorted(os.listdir(directory)):
                data = files.read(name)
                if name not in affected and data == good.get(name):
                    files.content[name] = data
                    written += 1
            if not affected and written != len(documents):
                raise Violation("workspace-incomplete", f"{written} of {len(documents)} documents were written")
            files.check("workspace")
            files.open_files("workspace")
            kept = sum(files.content.get(name) == before.get(name) for name in documents)
            ctx.count("files_kept", kept)
            ctx.count("files_written", written)
            for package in roots:
                if package.parent is not workspace or str(package.ref()) != f"/{package.name}":
                    raise Violation("workspace-parent", f"{package.name} has left the workspace")
                if workspace.find(f"/{package.name}") is not package:
                    raise Violation("workspace-find", f"/{package.name} isn't found after the failure")
            undo()
            ctx.case(f"workspace/{label}/{len(documents)}/{len(affected)}/{written}/{sorted(states)}")
        workspace.write_documents(ver)
        for name, want in good.items():
            good_file(files, name, want, "workspace")
        files.check("workspace-end")
        ctx.count("workspaces")


def judge_reader(ctx, rng):
    """A reading that fails is reported, leaves the file alone and nothing open"""
    with xio.scratch() as directory:
        files = Files(directory)
        g = Gen(rng, density=0.2, depth=1, hostile=0, breadth=2)
        document = ar_document.Document([gen_package(g, 1, 2).build(rng)])
        data = text_of(document)
        files.put("good.arxml", data)
        reader = Reader()
        for _ in range(rng.randint(2, 4)):
            kind = rng.choice(["cut", "missing", "binary", "empty", "good"])
            if kind == "good":
                got, _ = xio.read_file(files.path("good.arxml"), reader)
                if text_of(got) != data:
                    raise Violation("read-good", "another document after failures")
            else:
                if kind != "missing":
                    cut = rng.randrange(1, max(2, len(data.rstrip()) - 1))
                    files.put("bad.arxml", {"cut": data[:cut], "binary": rng.randbytes(40) + b"\0", "empty": b""}[kind])
                attempt(files, "reader", xio.read_file,
                        files.path("none.arxml" if kind == "missing" else "bad.arxml"), reader)
            files.check("reader")
            files.open_files("reader")
            ctx.case(f"reader/{kind}")
            ctx.count(f"reader_{kind}")


def run(ctx):
    for _, rng in ctx.loop("writer", 150, 0.5):
        ctx.guard(judge_writer, ctx, rng)
    for _, rng in ctx.loop("workspace", 80, 0.4):
        ctx.guard(judge_workspace, ctx, rng)
    for _, rng in ctx.loop("reader", 30, 0.08):
        ctx.guard(judge_reader, ctx, rng)

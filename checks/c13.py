"""C13: the documents of a workspace hold exactly the configured content, and writing them changes nothing else"""
import os
import autosar.xml as ar_xml
import autosar.xml.element as E
from arv import xio
from arv.harness import Violation
from arv.model import Gen, Inst, SPECS, COLLECTABLE, gen_package
from checks.c03 import check_doc, check_root, size
from checks.c12 import toml_text, paths_of

RULE = ("a random workspace with random documents and package mappings (from calls or a configuration file) is written, "
        "repeatedly and after changes; every file is compared with the reference model, and the workspace with a snapshot "
        "of itself; distinct = distinct (configuration shape, schema version, how configured)")
ASSUMPTIONS = ["document names are valid file names and do not collide",
               "a sub-package that is named in a document is written below packages with the names of its parents"]
ASCII_SHARD = True
QUICK_S = 9.0
THOROUGH_S = 180.0
OWN_PROCESS = True  # The working directory can be changed
MIN_DISTINCT = 150

BASES = ["SwComponentType", "PortInterface", "ARElement", "AtomicSoftwareComponentType", "DataPrototype", "AutosarDataType"]


def stub(name, elements=(), packages=()):
    return Inst(SPECS["Package"], {"name": name, "#elements": list(elements), "#packages": list(packages)})


def index_packages(packages, prefix=""):
    """{path: instance}"""
    res = {}
    for inst in packages:
        path = f"{prefix}/{inst.name}"
        res[path] = inst
        res.update(index_packages(inst.vals["#packages"], path))
    return res


def expected_document(refs, index):
    """Root packages of a document with the given packages"""
    roots = []
    done = set()
    for ref in refs:
        path = "/" + ref.strip("/")
        parts = path[1:].split("/")
        if path in done or any(path.startswith("/" + x.strip("/") + "/") for x in refs):
            continue
        done.add(path)
        level = roots
        for part in parts[:-1]:
            found = [p for p in level if p.name == part]
            if not found:
                found = [stub(part)]
                level.append(found[0])
            level = found[0].vals["#packages"]
        level.append(index[path])
    return roots


def nest(path, elements):
    parts = path[1:].split("/")
    inst = stub(parts[-1], elements)
    for part in reversed(parts[:-1]):
        inst = stub(part, (), [inst])
    return [inst]


class Config:
    """Random documents and mappings for the given packages"""

    def __init__(self, rng, g, packages):
        self.index = index_packages(packages)
        self.documents = []    # (file name, refs or text or None)
        self.mappings = []     # (ref, class names, suffixes or text)
        self.names = set()
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            refs = []
            for path in rng.sample(list(self.index), min(len(self.index), rng.choice([0, 1, 1, 2, 4]))):
                refs.append(path)
            if rng.random() < 0.1 and refs:
                refs.append(rng.choice(refs))
            name = f"{g.ident()}_{len(self.documents)}"
            name = rng.choice(["", "", "", "", "sub/", "sub/deeper/", "./", "sub/../", "two words/", ".hidden/", "a.arxml/"]) + name
            name += rng.choice(["", "", "", "", " x", ".x", "-1", ".arxml"]) + ".arxml"
            given = [r if rng.random() < 0.8 else r[1:] for r in refs]
            if len(given) == 1 and rng.random() < 0.6:
                given = given[0]
            elif not given and rng.random() < 0.5:
                given = None
            self.documents.append((name, refs, given))
            self.names.add(name)
        candidates = [p for p, inst in self.index.items() if inst.vals["#elements"]]
        for _ in range(rng.choice([0, 1, 1, 2])):
            if not candidates:
                break
            path = rng.choice(candidates)
            if rng.random() < 0.5:
                path = max(candidates, key=lambda x: len(self.index[x].vals["#elements"]))
            elements = self.index[path].vals["#elements"]
            classes = []
            for _ in range(rng.choice([1, 1, 2])):
                name = rng.choice([rng.choice(elements).spec.name, rng.choice(BASES), rng.choice(COLLECTABLE)])
                if hasattr(E, name) and name not in classes:
                    classes.append(name)
            if not classes:
                continue
            suffixes = rng.sample(["_Impl", "_Type", "X", "_Implementation", ""], rng.choice([0, 0, 1, 2, 3, 5]))
            if len(suffixes) == 1 and suffixes[0] and rng.random() < 0.5:
                suffixes = suffixes[0]
            self.mappings.append((path, classes, suffixes))

    def expected(self):
        """{file name: root packages}; None when two documents have the same name"""
        files = {name: expected_document(refs, self.index) for name, refs, _ in self.documents}
        for path, classes, suffixes in self.mappings:
            types = tuple(getattr(E, c) for c in classes)
            elements = self.index[path].vals["#elements"]
            by_name = {e.name: e for e in elements}
            for elem in elements:
                if not issubclass(getattr(E, elem.spec.name), types):
                    continue
                picked = {elem.name: elem}
                for suffix in [suffixes] if isinstance(suffixes, str) else suffixes:
                    if suffix and elem.name + suffix in by_name:
                        picked[elem.name + suffix] = by_name[elem.name + suffix]
                name = elem.name + ".arxml"
                roots = nest(path, [picked[n] for n in sorted(picked)])
                if name in files:
                    return None
                files[name] = roots
        return {os.path.normpath(name): roots for name, roots in files.items()}

    def to_toml(self, rng):
        lines = []

        def value(item):
            if isinstance(item, str):
                return toml_text(item)
            return "[" + ", ".join(toml_text(x) for x in item) + "]"
        for name, _, given in self.documents:
            lines.append(f"[document.{toml_text(name[:-6])}]")
            if given is not None:
                lines.append(f"packages = {value(given)}")
        for i, (path, classes, suffixes) in enumerate(self.mappings):
            lines += [f"[document_mapping.M{i}]", f"package_ref = {value(path)}",
                      f"element_types = {value(classes[0] if len(classes) == 1 and rng.random() < 0.5 else classes)}"]
            if suffixes or rng.random() < 0.5:
                lines.append(f"suffix_filters = {value(suffixes)}")
        return "\n".join(lines) + "\n"

    def apply(self, ws, rng):
        for name, _, given in self.documents:
            if given is None and rng.random() < 0.5:
                ws.create_document(name)
            elif isinstance(given, list) and rng.random() < 0.3:
                ws.create_document(name, packages=tuple(given))
            else:
                ws.create_document(name, given)
        for path, classes, suffixes in self.mappings:
            types = tuple(getattr(E, c) for c in classes)
            ws.create_document_mapping(path, types[0] if len(types) == 1 else types, suffixes)


def snapshot(ws):
    res = {}
    for package in ws.packages:
        for path, item in paths_of(package, "/" + package.name).items():
            res[path] = item
    return res


def check_unchanged(ws, before, where):
    after = snapshot(ws)
    if list(after) != list(before):
        raise Violation("workspace-content", f"{where}: {sorted(set(before) ^ set(after))}")
    for path, item in before.items():
        if after[path] is not item or ws.find(path) is not item:
            raise Violation("workspace-identity", f"{where}: {path}")
        parent = ws if path.count("/") == 1 else before[path.rpartition("/")[0]]
        if item.parent is not parent:
            raise Violation("workspace-parent", f"{where}: {path} belongs to {item.parent!r}")
        if hasattr(item, "ref") and str(item.ref()) != path:
            raise Violation("workspace-ref", f"{where}: {path}.ref() gives {item.ref()}")


def make_elements_related(rng, packages):
    """Gives some elements names that differ by a suffix"""
    for inst in index_packages(packages).values():
        elements = inst.vals["#elements"]
        names = {e.name for e in elements} | {p.name for p in inst.vals["#packages"]}
        for elem in elements:
            if rng.random() < 0.35:
                name = rng.choice(elements).name + rng.choice(["_Impl", "_Type", "X", "_Implementation"])
                if name not in names and len(name) < 120:
                    elem.vals["name"] = name
                    names.add(name)
        if len(elements) > 1 and rng.random() < 0.5:
            # several elements that belong to one
            base, *others = rng.sample(elements, len(elements))
            for elem, suffix in zip(others, rng.sample(["_Impl", "_Type", "X", "_Implementation"], min(4, len(others)))):
                name = base.name + suffix
                if name not in names and len(name) < 120:
                    names.discard(elem.name)
                    elem.vals["name"] = name
                    names.add(name)


def unique_names(packages):
    seen = set()
    for inst in packages:
        if inst.name in seen:
            return False
        seen.add(inst.name)
        inner = [e.name for e in inst.vals["#elements"]] + [p.name for p in inst.vals["#packages"]]
        if len(set(inner)) != len(inner) or not unique_names(inst.vals["#packages"]):
            return False
    return True


def read_all(folder):
    res = {}
    for base, _, names in os.walk(folder):
        for name in names:
            path = os.path.join(base, name)
            with open(path, "rb") as fp:
                res[os.path.relpath(path, folder)] = fp.read()
    return res


def judge(ctx, rng):
    g = Gen(rng, edge="some", density=rng.choice([0.1, 0.3]), depth=rng.choice([1, 2]), ver=48, hostile=rng.choice([0, 0.3]),
            breadth=2)
    classes = rng.choice([None, None, ["ApplicationSoftwareComponentType", "SwcImplementation", "Unit",
                                       "CompositionSwComponentType", "SenderReceiverInterface"]])
    packages = [gen_package(g, 2, rng.choice([2, 4, 6]), classes) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.06:
        # many elements in one package
        few = Gen(rng, density=0.05, depth=1, ver=48, hostile=0, breadth=1)
        packages.append(gen_package(few, 0, 30, rng.sample(COLLECTABLE, 2), 15))
    if rng.random() < 0.06:
        # deep down
        for number in range(rng.choice([5, 11])):
            packages[0] = stub(f"Level{number}", (), [packages[0]])
    make_elements_related(rng, packages)
    if not unique_names(packages):
        return
    config = Config(rng, g, packages)
    expected = config.expected()
    if expected is None:
        return
    with xio.scratch() as folder:
        out = xio.make_dir(os.path.join(folder, "out"))
        for name, _, _ in config.documents:
            for sub in ("sub/deeper", "two words", ".hidden", "a.arxml"):
                if name.startswith(sub.split("/")[0] + "/"):
                    os.makedirs(os.path.join(out, sub), exist_ok=True)
        how = rng.choice(["calls", "constructor", "load"])
        root = rng.choice(["argument", "method", "cwd"]) if OWN_PROCESS else "method"
        toml = os.path.join(folder, "config.toml")
        with open(toml, "w", encoding="utf-8") as fp:
            fp.write(config.to_toml(rng))
        kwargs = {"document_root": out} if root == "argument" else {}
        if root == "method" and rng.random() < 0.5:
            kwargs = {"document_root": os.path.join(folder, "earlier")}  # until another one is set
        ws = ar_xml.Workspace(toml, **kwargs) if how == "constructor" else ar_xml.Workspace(**kwargs)
        built = [p.build(None) for p in packages]
        early = rng.random() < 0.5
        if early:
            for package in built:
                ws.append(package)
        if how == "calls":
            config.apply(ws, rng)
        elif how == "load":
            ws.load_config(toml)
        if not early:
            for package in built:
                ws.append(package)
        if root == "method":
            ws.set_document_root(out)
        before = snapshot(ws)
        here = os.getcwd()
        try:
            if OWN_PROCESS:
                os.chdir(out if root == "cwd" else folder)
            previous = {}
            for turn in range(rng.choice([1, 2, 3])):
                ver = rng.choice(xio.VERSIONS)
                if rng.random() < 0.3:
                    ver = 51
                    ws.write_documents()
                elif rng.random() < 0.5:
                    ws.write_documents(ver)
                else:
                    ws.write_documents(schema_version=ver)
                check_unchanged(ws, before, f"write {turn}")
                files = read_all(out)
                if set(files) != set(expected):
                    raise Violation("files", f"missing {sorted(set(expected) - set(files))}, "
                                             f"unexpected {sorted(set(files) - set(expected))}")
                stray = set(os.listdir(folder)) - {"out", "config.toml"}
                if stray:
                    raise Violation("files-outside", f"{sorted(stray)}")
                for name, roots in expected.items():
                    text = files[name]
                    check_root(text, roots, ver, True)
                    document, messages = xio.read_file(os.path.join(out, name))
                    if messages:
                        raise Violation("messages", f"{name}: {messages[:300]}")
                    check_doc(document, roots, ver, name)
                    if previous.get(ver, {}).get(name, text) != text:
                        raise Violation("not-repeatable", f"{name}: writing again gives another file")
                    ctx.count("files")
                    ctx.count("elements", size(roots))
                previous[ver] = files
                ctx.case(f"{how}/{root}/{turn}/{ver}/{[len(r) for r in expected.values()]}/{len(config.mappings)}")
                if rng.random() < 0.5:
                    previous = {}
                    if not grow(rng, g, ws, config, before):
                        return
                    expected = config.expected()
                    if expected is None:
                        return
        finally:
            if OWN_PROCESS:
                os.chdir(here)


def grow(rng, g, ws, config, before):
    """Adds an element to some package of the workspace, through the public interface"""
    path = rng.choice(list(config.index))
    inst = SPECS[rng.choice(COLLECTABLE)].gen(g)
    package = ws.find(path)
    if package.find(inst.name) is not None or not isinstance(package, E.Package):
        return False
    config.index[path].vals["#elements"].append(inst)
    package.append(inst.build(None))
    before.clear()
    before.update(snapshot(ws))
    return True


def judge_wrong(ctx, rng):
    """Packages that do not exist (yet) are left out; paths of other things are refused"""
    g = Gen(rng, density=0.1, depth=1, hostile=0)
    packages = [gen_package(g, 1, 3, None, 1) for _ in range(2)]
    if not unique_names(packages):
        return
    ws = ar_xml.Workspace()
    for inst in packages:
        ws.append(inst.build(None))
    before = snapshot(ws)
    good = "/" + packages[0].name
    elem = f"{good}/{packages[0].vals['#elements'][0].name}"
    what = rng.choice(["missing", "missing-sub", "element", "mapping-element", "mapping-missing"])
    with xio.scratch() as folder:
        ws.set_document_root(folder)
        refs = {"missing": "/NoSuchPackage", "missing-sub": good + "/NoSuchPackage", "element": elem}
        if what == "mapping-element":
            ws.create_document_mapping(elem, E.Unit, [])
        elif what == "mapping-missing":
            ws.create_document_mapping("/NoSuchPackage", E.Unit, [])
        else:
            ws.create_document("a.arxml", rng.choice([refs[what], [good, refs[what]], [refs[what], good]]))
        if what == "mapping-missing":
            ws.write_documents()
            check_unchanged(ws, before, what)
            if os.listdir(folder):
                raise Violation("mapping-missing", f"{os.listdir(folder)} written for a package that isn't there")
            ctx.case(f"wrong/{what}")
            return
        if what.startswith("missing"):
            judge_missing(ctx, ws, folder, good, what, before)
            return
        try:
            ws.write_documents()
        except (TypeError, ValueError, KeyError):
            check_unchanged(ws, before, what)
            ctx.case(f"wrong/{what}")
            return
    raise Violation("accepted-" + what, f"a document with {what} is written")


def judge_missing(ctx, ws, folder, good, what, before):
    """A document configured for packages of which one does not exist holds the others"""
    path = os.path.join(folder, "a.arxml")
    config = ws.documents[0]
    wanted = [ref for ref in config.package_refs if ref == good]
    try:
        ws.write_documents()
    except Exception as exc:
        raise Violation("missing-refused", f"{config.package_refs}: {type(exc).__name__}: {exc}") from exc
    check_unchanged(ws, before, what)
    with open(path, "rb") as fp:
        written = fp.read()
    other = os.path.join(folder, "b.arxml")
    ws.documents.clear()
    ws.create_document("b.arxml", wanted)
    ws.write_documents()
    with open(other, "rb") as fp:
        if fp.read() != written:
            raise Violation("missing-content", f"{config.package_refs}: not the document of {wanted}")
    document = ar_xml.Reader().read_file(path)
    names = [pkg.name for pkg in document.packages]
    if names != [ref.strip("/") for ref in wanted]:
        raise Violation("missing-content", f"{config.package_refs}: {names}")
    ctx.case(f"wrong/{what}/{len(wanted)}")


BAD_CONFIGS = ['[document_mapping.A]\nelement_types = "Unit"\n', '[document_mapping.A]\npackage_ref = "/A"\n',
               '[document_mapping.A]\npackage_ref = "/A"\nelement_types = "NoSuchType"\n',
               '[document_mapping.A]\npackage_ref = "/A"\nelement_types = []\n',
               '[document_mapping.A]\npackage_ref = "/A"\nelement_types = 3\n',
               '[document_mapping.A]\npackage_ref = "/A"\nelement_types = "Unit"\nsuffix_filters = 3\n',
               '[document.A]\npackages = 3\n', '[namespace.A]\nNoSuchRole = "x"\n']


def judge_bad_config(ctx, text):
    with xio.scratch() as folder:
        path = os.path.join(folder, "config.toml")
        with open(path, "w", encoding="utf-8") as fp:
            fp.write(text)
        try:
            ar_xml.Workspace(path)
        except (KeyError, ValueError, TypeError, AssertionError):
            ctx.case("bad-config/" + text)
            return
    raise Violation("bad-config", f"accepted {text!r}")


def run(ctx):
    for _, text in ctx.each("bad-config", BAD_CONFIGS):
        ctx.guard(judge_bad_config, ctx, text)
    for _, rng in ctx.loop("write", 120, 0.85):
        ctx.guard(judge, ctx, rng)
    for _, rng in ctx.loop("wrong", 20, 0.1):
        ctx.guard(judge_wrong, ctx, rng)

"""C22: writing and reading repeat exactly, have no side effects, and objects share no state"""
import enum
import hashlib
import io
import os
import random
import subprocess
import sys
import threading
import autosar.xml.document as ar_document
import autosar.xml.element as E
from autosar.xml.reader import Reader
from autosar.xml.workspace import Workspace
from autosar.xml.writer import Writer
from arv import env, xio
from arv.harness import Context, Violation
from arv.model import COLLECTABLE, Gen, SPECS
from arv.xmltree import serialize
from checks.c03 import gen_doc

RULE = ("random elements and documents are written by new and used writers, in any order, between other elements and writes "
        "that fail; read by new and used readers between other texts and broken ones; written and read in parallel threads "
        "with forced thread switches; and built, written and generated in processes with other hash seeds; texts, pictures of "
        "the object graphs and shared mutable objects are compared; distinct = distinct (judge, classes, what came before, "
        "place)")
ASSUMPTIONS = ["every thread has its own reader and writer"]
ASCII_SHARD = True
QUICK_S = 10.0
THOROUGH_S = 150.0
MIN_DISTINCT = 400

WRITABLE = sorted(n for n, s in SPECS.items() if s.writable and s.tags)
READABLE = sorted(n for n, s in SPECS.items() if s.read_tags)
BOTH = [n for n in WRITABLE if set(SPECS[n].read_tags or []) & set(SPECS[n].tags)]
NAMES = sorted(set(WRITABLE) | set(READABLE))
# XML depends on the schema version
VERSIONED = ["RunnableEntity"]


def picture(value, seen=None, depth=0):
    """Everything that can be reached from an object"""
    seen = {} if seen is None else seen
    if value is None or isinstance(value, (str, int, float, bool, bytes, enum.Enum, type)):
        return f"{type(value).__name__}:{value!r}"
    if id(value) in seen:
        return f"@{seen[id(value)]}"
    seen[id(value)] = len(seen)
    if isinstance(value, dict):
        return ["{}"] + [[picture(k, seen), picture(v, seen)] for k, v in value.items()]
    if isinstance(value, (list, tuple)):
        return [type(value).__name__] + [picture(v, seen) for v in value]
    if isinstance(value, (set, frozenset)):
        return [type(value).__name__] + sorted(map(repr, value))
    if not hasattr(value, "__dict__") or callable(value):
        return f"{type(value).__name__}:{value!r}"
    return [type(value).__name__] + [[k, picture(v, seen)] for k, v in xio.public(value)]


def mutable(value, path="", found=None):
    """{id: (object, path)} of objects that can be changed"""
    found = {} if found is None else found
    if value is None or isinstance(value, (str, int, float, bool, bytes, enum.Enum, type)) or id(value) in found:
        return found
    if isinstance(value, tuple):
        for item in value:
            mutable(item, path + "()", found)
        return found
    if not isinstance(value, (dict, list, set)) and (not hasattr(value, "__dict__") or callable(value)):
        return found
    found[id(value)] = (value, path)
    if isinstance(value, dict):
        for item in value.values():
            mutable(item, path + "{}", found)
    elif isinstance(value, (list, set)):
        for item in value:
            mutable(item, path + "[]", found)
    else:
        for name, item in xio.public(value):
            if name != "parent":
                mutable(item, f"{path}.{name}", found)
    return found


def shared(first, second, what, allowed=()):
    """Two objects have nothing in common that could be changed"""
    one, two = mutable(first), mutable(second)
    for key in one.keys() & two.keys():
        if key not in allowed:
            raise Violation(f"shared-{what}-{type(first).__name__}",
                            f"{one[key][1]} and {two[key][1]} are the same {type(one[key][0]).__name__}")
    return len(one)


def make(rng, ver, names=WRITABLE):
    """(spec, tag, inst)"""
    spec = SPECS[rng.choice(VERSIONED if rng.random() < 0.25 else names)]
    g = Gen(rng, full=spec.name in VERSIONED and rng.random() < 0.5, edge="some", density=rng.choice([0.2, 0.5, 0.8]), depth=3, ver=ver, hostile=0.2, breadth=2)
    g.twins = rng.random() < 0.3
    inst, tag = xio.special_tag(spec, g, spec.tags if names is WRITABLE else
                                 [t for t in spec.read_tags if names is READABLE or t in spec.tags])
    return spec, tag, inst


class Unknown(E.ARObject):
    """No writer knows it"""


def break_elem(rng):
    """An element whose writing fails on the way"""
    kind = rng.choice(["unknown", "deep", "package", "none"])
    if kind == "unknown":
        return Unknown(), None
    if kind == "none":
        return None, None
    package = E.Package("Broken")
    sub = package.create_package("Sub") if kind == "deep" else package
    elem = E.ApplicationSoftwareComponentType("Swc")
    sub.append(elem)
    elem.ports.append(rng.choice([Unknown(), 3, "x"]))
    return package, None


def break_doc(rng):
    """A document whose writing fails on the way"""
    doc = ar_document.Document()
    elem = break_elem(rng)[0]
    if isinstance(elem, E.Package):
        doc.append(elem)
    else:
        doc.packages.append(elem)
    return doc


def judge_writes(ctx, rng):
    """One writer, many elements"""
    ver = rng.choice(xio.VERSIONS)
    pool = []
    for _ in range(rng.randint(2, 4)):
        spec, tag, inst = make(rng, ver)
        pool.append((spec, tag, inst, inst.build(rng)))
    docs = []
    for _ in range(rng.randint(0, 2)):
        doc_ver = rng.choice(xio.VERSIONS)
        packages = gen_doc(Gen(rng, edge="some", density=0.3, depth=2, ver=doc_ver, hostile=0.2, breadth=2),
                           count=rng.randint(0, 2), levels=1, elements=2)
        doc = ar_document.Document()
        doc.schema_version = doc_ver
        for package in packages:
            doc.append(package.build(rng))
        docs.append(doc)
    before = [picture(obj) for *_, obj in pool] + [picture(doc) for doc in docs]
    writer = Writer(schema_version=ver)
    texts = {}
    last = "new"
    with xio.scratch() as folder:
        for _ in range(rng.randint(3, 8)):
            what = rng.choice(["elem", "elem", "doc", "file", "file-elem", "bad", "bad-doc"])
            if what == "bad":
                try:
                    writer.write_str_elem(*break_elem(rng))
                except Exception:  # pylint: disable=W0718
                    ctx.count("failed_writes")
                last = "bad"
                continue
            if what == "bad-doc":
                broken = break_doc(rng)
                try:
                    if rng.random() < 0.5:
                        writer.write_str(broken)
                    else:
                        writer.write_file(broken, os.path.join(folder, "broken.arxml"))
                except Exception:  # pylint: disable=W0718
                    ctx.count("failed_writes")
                last = "bad-doc"
                continue
            fresh = rng.random() < 0.3
            used = Writer(schema_version=ver) if fresh else writer
            if what in ("doc", "file"):
                if not docs:
                    continue
                index = rng.randrange(len(docs))
                key = ("doc", index)
                if what == "doc":
                    text = used.write_str(docs[index], skip_root_attr=False)
                else:
                    path = os.path.join(folder, "doc.arxml")
                    used.write_file(docs[index], path)
                    with open(path, encoding="utf-8", newline="") as fp:
                        text = fp.read()
                label = "Document"
            else:
                index = rng.randrange(len(pool))
                spec, tag, _, obj = pool[index]
                key = ("elem", index)
                label = spec.name
                if what == "file-elem":
                    if spec.name not in COLLECTABLE:
                        continue
                    path = os.path.join(folder, "elem.arxml")
                    used.write_file_elem(obj, path)
                    with open(path, encoding="utf-8", newline="") as fp:
                        text = fp.read()
                else:
                    text = xio.write_elem(obj, spec, tag, ver, used)
            if texts.setdefault(key, text) != text:
                raise Violation(f"text-{what}-{label}", f"after {last}, {'new' if fresh else 'used'} writer: another text "
                                                        "than before", f"{texts[key]}\n---\n{text}")
            ctx.count("writes")
            ctx.case(f"write/{what}/{label}/{last}/{fresh}/{ver}", text)
            last = what
    for (key, text) in texts.items():
        if key[0] == "elem":
            spec, tag, _, obj = pool[key[1]]
            if xio.write_elem(obj, spec, tag, ver) != text:
                raise Violation(f"text-new-{spec.name}", "a new writer gives another text")
    after = [picture(obj) for *_, obj in pool] + [picture(doc) for doc in docs]
    for index, (one, two) in enumerate(zip(before, after)):
        if one != two:
            name = pool[index][0].name if index < len(pool) else "Document"
            raise Violation(f"changed-{name}", "writing changed the object", f"{one}\n---\n{two}")


BROKEN = ["<AUTOSAR", "", "<A/>", "<AUTOSAR><AR-PACKAGES><AR-PACKAGE></AR-PACKAGE></AR-PACKAGES></AUTOSAR>",
          "<AUTOSAR xmlns='http://autosar.org/schema/r4.0' "
          "xmlns:xsi='http://www.w3.org/2001/XMLSchema-instance' "
          "xsi:schemaLocation='http://autosar.org/schema/r4.0 AUTOSAR_00048.xsd'><AR-PACKAGES><AR-PACKAGE><SHORT-NAME>P"
          "</SHORT-NAME><ELEMENTS><UNIT><SHORT-NAME>U</SHORT-NAME><FACTOR-SI-TO-UNIT>x</FACTOR-SI-TO-UNIT></UNIT></ELEMENTS>"
          "</AR-PACKAGE></AR-PACKAGES></AUTOSAR>",
          "<UNIT><SHORT-NAME>U</SHORT-NAME><FACTOR-SI-TO-UNIT>x</FACTOR-SI-TO-UNIT></UNIT>", "<NO-SUCH/>"]


def judge_reads(ctx, rng):
    """One reader, many texts"""
    ver = rng.choice(xio.VERSIONS)
    pool = []
    for _ in range(rng.randint(1, 4)):
        spec, tag, inst = make(rng, ver, READABLE)
        pool.append((spec, inst, serialize(inst.node(ver, tag)), ver))
    for _ in range(rng.randint(0, 2)):
        doc_ver = rng.choice(xio.VERSIONS)
        packages = gen_doc(Gen(rng, edge="some", density=0.3, depth=2, ver=doc_ver, hostile=0.2, breadth=2), count=rng.randint(0, 2),
                           levels=1, elements=2)
        doc = ar_document.Document()
        doc.schema_version = doc_ver
        for package in packages:
            doc.append(package.build(rng))
        pool.append((None, None, Writer(schema_version=doc_ver).write_str(doc, skip_root_attr=False), doc_ver))
    reader = Reader(schema_version=ver, warn_on_unprocessed_element=False)
    results = {}
    last = "new"
    with xio.scratch() as folder:
        for _ in range(rng.randint(3, 8)):
            if rng.random() < 0.25:
                text = rng.choice(BROKEN)
                try:
                    xio.read_doc(text, reader) if rng.random() < 0.5 else reader.read_str_elem(text)
                except Exception:  # pylint: disable=W0718
                    ctx.count("failed_reads")
                last = "bad"
                continue
            index = rng.randrange(len(pool))
            spec, _, text, _ = pool[index]
            fresh = rng.random() < 0.3
            used = Reader(schema_version=ver, warn_on_unprocessed_element=False) if fresh else reader
            if spec is not None:
                what = label = spec.name
                obj, _ = xio.read_elem(text, spec, ver, used)
            elif rng.random() < 0.5:
                what, label = "doc", "Document"
                obj, _ = xio.read_doc(text, used)
            else:
                what, label = "file", "Document"
                path = os.path.join(folder, "doc.arxml")
                with open(path, "w", encoding="utf-8", newline="") as fp:
                    fp.write(text)
                obj, _ = xio.read_file(path, used)
            found = picture(obj)
            for other, expected in results.get(index, []):
                if picture(other) != expected:
                    raise Violation(f"read-changed-{label}", f"a later reading changed an object that was read, {last}")
                if found != expected:
                    raise Violation(f"read-{label}", f"after {last}, {'new' if fresh else 'used'} reader: another result than "
                                                     "before", f"{text}\n{expected}\n---\n{found}")
                shared(obj, other, "read")
            results.setdefault(index, []).append((obj, found))
            ctx.count("reads")
            ctx.case(f"read/{what}/{last}/{fresh}/{ver}", text)
            last = "doc" if spec is None else "elem"


def check_bare(reader, own):
    """A document that names no version has the one of the reader"""
    bare = Writer(schema_version=own).write_str(ar_document.Document([], own))
    found, _ = xio.read_doc(bare, reader)
    if found.schema_version != own:
        raise Violation("reader-default", f"a document without version has {found.schema_version}, not {own}")


def judge_versions(ctx, own, others, rng):
    """A writer or reader keeps its own schema version, whatever the versions of the documents between"""
    spec = SPECS["RunnableEntity"]
    g = Gen(rng, full=True, depth=2, ver=own, hostile=0, breadth=1)
    inst, tag = xio.special_tag(spec, g, spec.tags)
    obj = inst.build(rng)
    texts = {ver: xio.write_elem(obj, spec, tag, ver) for ver in xio.VERSIONS}
    if texts[48] == texts[51]:
        raise Violation("versions-alike", "no difference between schema versions")
    writer, reader = Writer(schema_version=own), Reader(schema_version=own)
    back, _ = xio.read_elem(texts[own], spec, own)
    expected = picture(back)
    with xio.scratch() as folder:
        path = os.path.join(folder, "doc.arxml")
        for ver in others:
            doc = ar_document.Document([E.Package("P")], ver)
            route = rng.choice(["string", "bare", "file", "fails", "both"])
            if route == "fails":
                doc.packages[0].elements.append(Unknown())
                try:
                    writer.write_str(doc)
                except Exception:  # pylint: disable=W0718
                    pass
            elif route == "file":
                writer.write_file(doc, path)
                xio.read_file(path, reader)
            else:
                xio.read_doc(writer.write_str(doc, skip_root_attr=route == "bare"), reader)
            if route == "both":
                try:
                    xio.read_doc(rng.choice(BROKEN), reader)
                except Exception:  # pylint: disable=W0718
                    ctx.count("failed_reads")
            if rng.random() < 0.5:
                check_bare(reader, own)
            if xio.write_elem(obj, spec, tag, own, writer) != texts[own]:
                raise Violation("writer-version", f"a writer of version {own} writes another text after a document of "
                                                  f"version {ver} ({route})")
            again, _ = xio.read_elem(texts[own], spec, own, reader)
            if picture(again) != expected:
                raise Violation("reader-version", f"a reader of version {own} reads something else after a document of "
                                                  f"version {ver} ({route})")
            check_bare(reader, own)
            ctx.case(f"versions/{own}/{ver}/{route}")


def judge_shared(ctx, name, rng):
    """Objects built from other arguments share nothing"""
    spec = SPECS[name]
    for density in (0, 0, 0.5, 0.9):
        tags = list(spec.tags or [None])
        objs = []
        for _ in range(2):
            g = Gen(rng, density=density, depth=2, hostile=0, breadth=2)
            objs.append(xio.special_tag(spec, g, tags)[0].build(rng))
        number = shared(objs[0], objs[1], "new")
        ctx.count("objects_compared", number)
        ctx.case(f"shared/{name}/{density}/{number}")


def judge_workspaces(ctx, rng):
    """Workspaces, collections and documents share nothing"""
    kind = rng.choice(["Workspace", "Document", "Package", "Behavior"])
    make_one = {"Workspace": Workspace, "Document": ar_document.Document, "Package": lambda: E.Package("P"),
                "Behavior": lambda: E.ApplicationSoftwareComponentType("S").create_internal_behavior()}[kind]
    one, two = make_one(), make_one()
    before = picture(two)
    shared(one, two, "empty")
    if kind == "Workspace":
        one.make_packages("A/B", "C")
        one.create_namespace("Default", {"PortInterface": "A"}, "/Base")
        one.create_document("file.arxml", "/A")
    elif kind == "Document":
        one.append(E.Package("A"))
    elif kind == "Package":
        one.make_packages("A/B")
        one.append(E.Unit("U"))
    else:
        one.create_runnable("R")
        one.create_exclusive_area("X")
    if picture(two) != before:
        raise Violation(f"workspace-{kind}", "changing one changed another")
    shared(one, two, "filled")
    ctx.case(f"workspaces/{kind}")


def judge_threads(ctx, rng):
    """Threads with their own readers and writers"""
    ver = rng.choice(xio.VERSIONS)
    pool = []
    for _ in range(12):
        spec, tag, inst = make(rng, ver, BOTH)
        obj = inst.build(rng)
        source = serialize(inst.node(ver, tag))
        pool.append((spec, tag, obj, xio.write_elem(obj, spec, tag, ver), source, picture(xio.read_elem(source, spec, ver)[0])))
    count = rng.choice([2, 3, 4])
    orders = [[rng.randrange(len(pool)) for _ in range(10)] for _ in range(count)]
    errors, trace = [], []
    barrier = threading.Barrier(count)

    def work(number):
        try:
            writer = Writer(schema_version=ver)
            reader = Reader(schema_version=ver, warn_on_unprocessed_element=False)
            barrier.wait()
            for index in orders[number]:
                spec, tag, obj, text, source, expected = pool[index]
                trace.append(number)
                if xio.write_elem(obj, spec, tag, ver, writer) != text:
                    errors.append((f"thread-write-{spec.name}", "another text than alone"))
                trace.append(number)
                got = reader.read_str_elem(source, *[x for x in [spec.read_name] if x])
                if picture(got) != expected:
                    errors.append((f"thread-read-{spec.name}", "another result than alone"))
                trace.append(number)
        except Exception as ex:  # pylint: disable=W0718
            errors.append((f"thread-{type(ex).__name__}", repr(ex)))
    before = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    out, sys.stdout = sys.stdout, io.StringIO()
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        threads = [threading.Thread(target=work, args=(n,)) for n in range(count)]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join()
    finally:
        sys.setswitchinterval(before)
        sys.stdout, sys.stderr = out, err
    if errors:
        raise Violation(*errors[0])
    switches = sum(1 for a, b in zip(trace, trace[1:]) if a != b)
    ctx.count("thread_switches_seen", switches)
    ctx.case("threads/" + hashlib.sha1(bytes(trace)).hexdigest()[:12] if switches > count else None)


class Few(Context):
    """Runs few cases of a check"""

    def loop(self, label, minimum, share=1.0, maximum=None):
        for index in range(60):
            self._case = (label, index)
            yield index, self.rng(label, index)

    def each(self, label, items):
        for index, item in enumerate(items[:5]):
            self._case = (label, index)
            yield index, item


SCENARIOS = ["c08", "c11", "c14", "c15", "c16", "c17", "c18", "c20", "c21"]


def outputs(seed):
    """Lines that name everything written while scenarios of other checks run"""
    import importlib
    from autosar.generator.type_generator import TypeGenerator
    lines = []

    def record(cls, name):
        method = getattr(cls, name)

        def wrapped(self, *args, **kwargs):
            res = method(self, *args, **kwargs)
            text = res if isinstance(res, str) else repr([getattr(x, "name", None) or x.element.name for x in res])
            lines.append(f"{name} {hashlib.sha1(text.encode('utf-8', 'replace')).hexdigest()} {text[:60]!r}")
            return res
        setattr(cls, name, wrapped)
    for name in ("write_str", "write_str_elem"):
        record(Writer, name)
    record(TypeGenerator, "write_type_header_str")
    for name in SCENARIOS:
        lines.append(f"scenario {name}")
        importlib.import_module("checks." + name).run(Few(name.upper(), seed, "quick", 0.0))
    lines.append("scenario types")
    for number in range(20):
        lines.extend(type_outputs(random.Random(f"{seed}/{number}")))
    return lines


def type_outputs(rng):
    """The type header of a model with many sources, and what it is made from"""
    from autosar.generator.type_generator import TypeGenerator
    from checks.c18 import Graph, Monitor
    graph = Graph(rng, rng.choice([6, 12, 20]), False)
    model = Monitor(graph).model
    for item in rng.sample(graph.types, len(graph.types)):
        if rng.random() < 0.7:
            model.create_from_element(item.element)
    yield repr([root.data.ref for root in model.gen_type_dependency_trees()])
    generator = TypeGenerator(model)
    yield repr([x.ref for x in generator.gen_data_type_creation_order()])
    yield generator.write_type_header_str().encode("unicode_escape").decode()
    workspace = graph.workspace
    with xio.scratch() as folder:
        workspace.set_document_root(folder)
        for number, path in enumerate(graph.paths):
            workspace.create_document(f"{number}.arxml", path)
            workspace.create_document_mapping(path, (E.SwBaseType, E.ImplementationDataType), ["_T", "_t", "_1"])
        workspace.write_documents()
        for name in sorted(os.listdir(folder)):
            with open(os.path.join(folder, name), "rb") as fp:
                yield f"{name} {hashlib.sha1(fp.read()).hexdigest()}"


def judge_seeds(ctx, seeds):
    """Other hash seeds, same texts"""
    seed, hashes = seeds
    procs = []
    for value in hashes:
        full = dict(os.environ, PYTHONHASHSEED=str(value), PYTHONDONTWRITEBYTECODE="1",
                    PYTHONIOENCODING="utf-8", ARV_REPO=env.REPO)
        code = (f"import sys; sys.path.insert(0, {env.VERIF!r}); import arv.env; from checks.c22 import outputs; "
                f"lines = outputs({seed}); print('\\n'.join(['OUTPUTS'] + lines))")
        procs.append(subprocess.Popen([env.PYTHON, "-c", code], env=full, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                      encoding="utf-8"))
    results = []
    for proc in procs:
        out, err = proc.communicate(timeout=300)
        if "OUTPUTS\n" not in out:
            raise Violation("hash-seed-process", err[-1000:])
        results.append(out.split("OUTPUTS\n", 1)[1].splitlines())
    for value, lines in zip(hashes[1:], results[1:]):
        if lines != results[0]:
            index = next((i for i, (a, b) in enumerate(zip(lines, results[0])) if a != b), min(len(lines), len(results[0])))
            scenario = [x for x in results[0][:index + 1] if x.startswith("scenario")][-1]
            raise Violation("hash-seed-" + scenario.split()[1], f"line {index} with hash seed {value}: "
                                                              f"{lines[index:index + 1]} instead of "
                                                              f"{results[0][index:index + 1]}")
    ctx.count("texts_compared_between_hash_seeds", sum(map(len, results)))
    ctx.case(f"hash-seeds/{seed}/{hashes}")


def run(ctx):
    seeds = [(ctx.seed, (0, 1, 2, 3))]
    if ctx.tier == "thorough":
        seeds += [(ctx.seed + n, (0, 11 + n, 22 + n, 33 + n)) for n in range(1, 12)]
    for _, item in ctx.each("seeds", seeds):
        # not guarded by the watchdog: subprocesses have their own limit
        try:
            judge_seeds(ctx, item)
        except Violation as ex:
            ctx.violation(ex.key, ex.what, ex.detail)
    for index, name in ctx.each("shared", NAMES):
        ctx.guard(judge_shared, ctx, name, ctx.rng("shared", index))
    for index, own in ctx.each("versions", list(xio.VERSIONS) * 4):
        rng = ctx.rng("versions", index)
        ctx.guard(judge_versions, ctx, own, rng.sample(xio.VERSIONS * 2, 8), rng)
    for _, rng in ctx.loop("writes", 100, 0.35):
        ctx.guard(judge_writes, ctx, rng)
    for _, rng in ctx.loop("reads", 100, 0.35):
        ctx.guard(judge_reads, ctx, rng)
    for _, rng in ctx.loop("workspaces", 16, 0.02):
        ctx.guard(judge_workspaces, ctx, rng)
    for _, rng in ctx.loop("threads", 10, 0.15):
        ctx.guard(judge_threads, ctx, rng)

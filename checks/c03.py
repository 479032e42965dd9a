"""C03: documents survive writing and reading, through files and strings"""
import os
import autosar.xml.document as ar_document
import autosar.xml.element as ar_element
from arv import xio
from arv.harness import Violation
from arv.model import Gen, gen_package, COLLECTABLE, SPECS
from arv.xmltree import Node, diff, parse, first_tag_path, wrap_file, local
from autosar.xml.reader import Reader
from autosar.xml.writer import Writer

RULE = ("a whole document (package tree with elements of all supported kinds) is built, written to a file or a string, "
        "read back, compared attribute by attribute with the reference model and written again; distinct = distinct "
        "shape of the document (classes, members, schema version, route)")
ASSUMPTIONS = ["arv/model.py describes the AUTOSAR schema of the supported elements correctly",
               "numbers in scientific notation are left out here: read back they are equal, but the notation is not kept"]
ASCII_SHARD = True
QUICK_S = 10.0
THOROUGH_S = 300.0
MIN_DISTINCT = 100

NAMESPACE = "http://autosar.org/schema/r4.0"


def gen_doc(g, classes=None, count=None, levels=2, elements=3):
    return [gen_package(g, levels, elements, classes) for _ in range(g.rng.randint(0, 3) if count is None else count)]


def size(packages):
    return sum(1 + len(p.vals["#elements"]) + size(p.vals["#packages"]) for p in packages)


def check_doc(document, packages, ver, where):
    if not isinstance(document, ar_document.Document):
        raise Violation("no-document", f"{where}: got {document!r}")
    if document.schema_version != ver:
        raise Violation("schema-version", f"{where}: schema version {document.schema_version}, expected {ver}")
    if document.schema_file != f"AUTOSAR_{ver:05d}.xsd":
        raise Violation("schema-file", f"{where}: schema file {document.schema_file}")
    got = list(document.packages)
    if [p.name for p in got] != [p.name for p in packages]:
        raise Violation("packages", f"{where}: packages {[p.name for p in got]}, expected {[p.name for p in packages]}")
    for item, want in zip(got, packages):
        want.check(item, where)


def check_root(text, packages, ver, attributes):
    root = parse(text)
    if local(root.tag) != "AUTOSAR":
        raise Violation("root", f"root element {root.tag}")
    if attributes:
        if root.tag != "{%s}AUTOSAR" % NAMESPACE:
            raise Violation("root-namespace", f"root element {root.tag}")
        location = root.attrib.get("{http://www.w3.org/2001/XMLSchema-instance}schemaLocation")
        if location != f"{NAMESPACE} AUTOSAR_{ver:05d}.xsd":
            raise Violation("root-schema-location", f"schema location {location!r} for version {ver}")
    for elem in root.iter():
        if attributes and not elem.tag.startswith("{%s}" % NAMESPACE):
            raise Violation("namespace", f"element outside of the AUTOSAR namespace: {elem.tag}")
    if not attributes and (root.attrib or root.tag != "AUTOSAR"):
        raise Violation("root-attributes", f"root element {root.tag} {dict(root.attrib)} without attributes asked for")
    want = [p.node(ver) for p in packages]
    children = list(root)
    if not want:
        if children:
            raise Violation("empty-document", f"empty document has {[local(c.tag) for c in children]}")
        return
    if [local(c.tag) for c in children] != ["AR-PACKAGES"]:
        raise Violation("root-children", f"{[local(c.tag) for c in children]}")
    found = diff(Node("AR-PACKAGES", want), children[0])
    if found:
        raise Violation("written-" + first_tag_path(found), found, text)


def large_package(g, what):
    """Many levels, elements or sub-packages"""
    if what == "deep":
        inst = gen_package(g, 0, 1)
        for _ in range(g.rng.choice([8, 15, 40])):
            outer = gen_package(g, 0, 1)
            outer.vals["#packages"] = [inst]
            inst = outer
        return inst
    inst = gen_package(g, 0, 0)
    if what == "elements":
        inst.vals["#elements"] = [SPECS[g.rng.choice(COLLECTABLE)].gen(g) for _ in range(g.rng.choice([30, 150, 300]))]
    else:
        inst.vals["#packages"] = [gen_package(g, 0, 1) for _ in range(g.rng.choice([12, 60]))]
    return inst


def judge(ctx, rng, directory):
    ver = rng.choice(xio.VERSIONS)
    g = Gen(rng, edge="some", density=rng.choice([0.1, 0.3, 0.6]), depth=rng.choice([1, 2, 3]), ver=ver,
            hostile=rng.choice([0, 0.3, 0.6]), breadth=rng.choice([1, 2, 3]))
    g.scientific = False  # becomes decimal when it is read and written again
    if rng.random() < 0.05:
        g.density, g.depth = 0.05, 1
        packages = [large_package(g, rng.choice(["deep", "elements", "packages"]))]
    else:
        packages = gen_doc(g)
    route = rng.choice(["file", "string", "foreign"])
    signature = f"{route}/{ver}/" + "|".join(p.signature() + ",".join(
        e.signature() for e in p.vals["#elements"]) for p in packages)
    path = os.path.join(directory, "a.arxml")
    other = os.path.join(directory, "b.arxml")
    if route == "foreign":
        # text not produced by this library
        text = wrap_file([p.node(ver) for p in packages], ver, namespace=True, pretty=rng.random() < 0.5)
        file = rng.random() < 0.6
        form, label = xio.disguise(rng, text, file)
        signature = f"{label}/{file}/{signature}"
        ctx.count("foreign_forms")
        if file:
            with open(path, "wb") as fp:
                fp.write(form)
            document, messages = xio.read_file(path)
        else:
            document, messages = xio.read_doc(form)
    else:
        document = ar_document.Document([p.build(rng) for p in packages], ver)
        writer = Writer()
        text = writer.write_str(document, skip_root_attr=False)
        check_root(text, packages, ver, True)
        bare = Writer().write_str(document)
        check_root(bare, packages, ver, False)
        if rng.random() < 0.3:
            writer = Writer()
        writer.write_file(document, path)
        with open(path, "rb") as fp:
            data = fp.read()
        if data.decode("utf-8").strip() != text.strip():
            raise Violation("file-differs-from-string", "the file does not have the text that is returned as string")
        if route == "file":
            document, messages = xio.read_file(path)
        else:
            document, messages = xio.read_doc(text)
    if messages:
        raise Violation("messages", f"reading supported content printed {messages[:300]!r}", text)
    check_doc(document, packages, ver, route)
    # write what was read: same content and from then on the same bytes
    Writer().write_file(document, other)
    with open(other, "rb") as fp:
        second = fp.read()
    check_root(second, packages, ver, True)
    if route != "foreign":
        if second != data:
            raise Violation("second-write-differs", "writing what was read gives other bytes than the first file",
                            second.decode("utf-8")[:4000])
    third_doc, messages = xio.read_file(other, Reader())
    if messages:
        raise Violation("messages", f"reading own output printed {messages[:300]!r}")
    check_doc(third_doc, packages, ver, "second read")
    Writer().write_file(third_doc, other)
    with open(other, "rb") as fp:
        if fp.read() != second:
            raise Violation("no-fixpoint", "writing and reading again changes the file")
    ctx.count("documents")
    ctx.count(f"documents_{ver}")
    ctx.count("elements", size(packages))
    ctx.count("bytes", len(second))
    ctx.case(signature if packages else None, text)


def run(ctx):
    with xio.scratch() as directory:
        # every kind of element at every schema version
        for _, name in ctx.each("kinds", COLLECTABLE):
            for ver in xio.VERSIONS:
                ctx.guard(judge_kind, ctx, name, ver, ctx.rng("kind", name, ver))
        for _, rng in ctx.loop("documents", 60, 0.75):
            ctx.guard(judge, ctx, rng, directory)
        for _, rng in ctx.loop("unwritable", 30, 0.04):
            ctx.guard(judge_unwritable, ctx, rng, directory)


class OwnElement(ar_element.ARElement):
    """An element of the user's own class, which no writer knows"""


class OwnUnit(ar_element.Unit):
    """The same, derived from a known class"""


def judge_unwritable(ctx, rng, directory):
    """An element that can't be written makes the call fail, instead of being left out"""
    ver = rng.choice(xio.VERSIONS)
    g = Gen(rng, density=0.3, depth=1, ver=ver, hostile=0, breadth=2)
    packages = gen_doc(g, count=rng.randint(1, 2), levels=1, elements=2)
    document = ar_document.Document([p.build(rng) for p in packages], ver)
    package = document.packages[rng.randrange(len(packages))]
    while package.packages and rng.random() < 0.5:
        package = package.packages[0]
    name = g.ident() + "_own"
    package.append(rng.choice([OwnElement, OwnUnit])(name))
    route = rng.choice(["string", "file"])
    try:
        if route == "string":
            text = Writer().write_str(document)
        else:
            path = os.path.join(directory, "c.arxml")
            Writer().write_file(document, path)
            with open(path, encoding="utf-8") as fp:
                text = fp.read()
    except Exception:  # pylint: disable=W0718
        ctx.count("unwritable_reported")
        ctx.case(f"unwritable/{route}/{ver}/{len(packages)}")
        return
    if f"<SHORT-NAME>{name}</SHORT-NAME>" not in text:
        raise Violation("left-out", "an element without writer was left out without an error", text[:2000])


def judge_kind(ctx, name, ver, rng):
    g = Gen(rng, full=True, depth=2, ver=ver, hostile=0.2, breadth=1)
    g.scientific = False
    packages = [gen_package(g, 0, 1, [name], 1)]
    document = ar_document.Document([p.build(rng) for p in packages], ver)
    text = Writer().write_str(document, skip_root_attr=False)
    check_root(text, packages, ver, True)
    back, messages = xio.read_doc(text)
    if messages:
        raise Violation("messages", f"reading supported content printed {messages[:300]!r}", text)
    check_doc(back, packages, ver, name)
    if Writer().write_str(back, skip_root_attr=False) != text:
        raise Violation("second-write-differs", f"{name}: writing what was read gives another text", text)
    ctx.count("kinds_by_version")
    ctx.case(f"kind/{name}/{ver}", None)

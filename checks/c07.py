"""C07: reading a file with unsupported or broken parts loses only those parts, and says so"""
import os
import random
import re
import autosar.xml.reader
from arv import xio
from arv.harness import Violation
from arv.model import Gen, SPECS, COLLECTABLE, gen_package
from arv.xmltree import Node, Num, MIXED, serialize, wrap_file
from autosar.xml.reader import Reader
from checks.c22 import picture

RULE = ("a generated document gets unsupported elements, comments, or one corrupted element at arbitrary places and is "
        "read; distinct = distinct (kind of disturbance, tag path of the place, kind of the disturbed element)")
ASSUMPTIONS = ["unsupported elements are placed between the children of elements with element content",
               "the same unsupported tag has to be reported at least once per document"]
ASCII_SHARD = True
QUICK_S = 10.0
THOROUGH_S = 300.0
MIN_DISTINCT = 500


def tree(packages, ver):
    return [p.node(ver) for p in packages]


def walk(node, path=()):
    """Yields (node, path of tags) of all elements, including those below elements of mixed content"""
    path = path + (node.tag,)
    yield node, path
    for item in node.content:
        if isinstance(item, Node):
            yield from walk(item, path)


def containers(nodes):
    """Elements with element content only"""
    res = []
    for root in nodes:
        for node, path in walk(root):
            if node.content and all(isinstance(x, Node) for x in node.content) and not any(t in MIXED for t in path):
                res.append((node, path))
    return res


def read(text, route, directory, rng, reader=None, **kwargs):
    if route == "string":
        return xio.read_doc(text, reader, **kwargs)
    path = os.path.join(directory, "in.arxml")
    with open(path, "w", encoding="utf-8") as fp:
        fp.write(text)
    return xio.read_file(path, reader, **kwargs)


def check_packages(got, packages, where):
    got = list(got)
    if [p.name for p in got] != [p.name for p in packages]:
        raise Violation(f"{where}-packages", f"packages {[p.name for p in got]}, expected {[p.name for p in packages]}")
    for item, want in zip(got, packages):
        try:
            want.check(item, "")
        except Violation as ex:
            raise Violation(f"{where}-{ex.key}", ex.what, ex.detail) from ex


def small_doc(g, least=1):
    return [gen_package(g, 1, 3, None, least) for _ in range(g.rng.randint(1, 2))]


# ------------------------------------------------------------------------------- unsupported elements

# Elements of packages, which are supported there and nowhere else
MISPLACED = sorted(SPECS[name].tags[0] for name in COLLECTABLE)


def known_tags():
    """Tags that are supported anywhere, or skipped on purpose"""
    res = set()
    for spec in SPECS.values():
        res.update(spec.tags or [])
    with open(autosar.xml.reader.__file__, encoding="utf-8") as fp:
        res.update(re.findall(r"[A-Z][A-Z0-9_-]+", fp.read()))
    return res


KNOWN = known_tags()


def unknown_node(number, rng, path, siblings):
    tag = f"X-UNSUPPORTED-{number}"
    if path[-1] == "PORT-API-OPTIONS" and rng.random() < 0.3:
        return Node("PORT-API-OPTION", [Node("INDIRECT-API", ["true"])])  # options of no port
    if rng.random() < 0.25 and path[-1] != "ELEMENTS":
        tag = rng.choice(MISPLACED)
    elif rng.random() < 0.4 and siblings:
        # almost a tag that is supported in this place
        known = rng.choice(siblings)
        other = rng.choice([known.lower(), known + "X", "X" + known, known[1:], known[:-1], known.title(),
                            known.replace("-", "_"), known.rpartition("-")[2], known.partition("-")[0]])
        if other not in KNOWN and len(other) > 3 and (other[0].isalpha() or other[0] == "_"):
            tag = other
    elif rng.random() < 0.15:
        # the name of an element of AUTOSAR, in another namespace
        tag = "x:" + rng.choice([*siblings, *MISPLACED, "CATEGORY", "DESC", "SHORT-NAME"])
        return Node(tag, [rng.choice(["text", Node("x:SHORT-NAME", ["Fake"]), Node("SHORT-NAME", ["Fake"])])],
                    {"xmlns:x": rng.choice(["urn:other", "http://autosar.org/schema/r4.00", "http://autosar.org/schema/r3.0",
                                            "http://autosar.org/schema/r4.0/x"])})
    pick = rng.randint(0, 3)
    if pick == 0:
        return Node(tag)
    if pick == 1:
        return Node(tag, ["text"], {"T": "1"})
    if pick == 2:
        return Node(tag, [Node("SHORT-NAME", ["Fake"]), Node("V", ["1"])])
    return Node(tag, [Node("AR-PACKAGES", [Node("AR-PACKAGE", [Node("SHORT-NAME", ["Fake"])])]), Node("DESC")])


def judge_unknown(ctx, rng, directory, classes=None, every=False):
    ver = rng.choice(xio.VERSIONS)
    g = Gen(rng, density=rng.choice([0.3, 0.7]), depth=rng.choice([1, 2, 4]), ver=ver, hostile=0, breadth=2,
            full=classes is not None)
    packages = small_doc(g) if classes is None else [gen_package(g, 0, 1, classes, 1)]
    nodes = tree(packages, ver)
    places = containers(nodes)
    top = Node("AR-PACKAGES")
    top.content = nodes
    places.append((top, ["AUTOSAR", "AR-PACKAGES"]))
    if rng.random() < 0.1:
        places = places[-1:]
    picked = rng.sample(places, min(len(places), 1 if not every else 1000) if rng.random() < 0.6 or every
                        else min(len(places), 4))
    if not every and rng.random() < 0.15:
        # many, in one place or all over the document
        picked = [rng.choice(picked)] * rng.randint(4, 9) if rng.random() < 0.5 else rng.choices(places, k=rng.randint(5, 30))
    tags = []
    for number, (node, path) in enumerate(picked):
        extra = unknown_node(number, rng, path, [x.tag for x in node.content if ":" not in x.tag])
        tags.append(extra.tag)
        if every:
            # one at a time
            position = rng.randint(0, len(node.content))
            node.content.insert(position, extra)
            try:
                ctx.guard(compare_unknown, ctx, packages, nodes, ver, [path], [extra.tag], directory, rng)
            finally:
                del node.content[position]
        else:
            node.content.insert(rng.randint(0, len(node.content)), extra)
    if not every:
        compare_unknown(ctx, packages, nodes, ver, [p for _, p in picked], tags, directory, rng)


ROOT_EXTRA = ["<FILE-INFO-COMMENT><SDGS/></FILE-INFO-COMMENT>", "<ADMIN-DATA><LANGUAGE>EN</LANGUAGE></ADMIN-DATA>",
              "<INTRODUCTION><P><L-1 L=\"EN\">x</L-1></P></INTRODUCTION>"]


def lines_of(text, tag):
    """Lines where an element begins"""
    return [number for number, line in enumerate(text.split("\n"), 1) if re.search(f"<{tag}[ />]", line)]


def compare_unknown(ctx, packages, nodes, ver, paths, tags, directory, rng):
    count = len(tags)
    text = wrap_file(nodes, ver, pretty=rng.random() < 0.5)
    root_extra = rng.random() < 0.2
    if root_extra:
        text = text.replace("<AR-PACKAGES>", rng.choice(ROOT_EXTRA) + "<AR-PACKAGES>", 1)
    silent = rng.random() < 0.1
    full_path = rng.random() < 0.3
    reader = Reader(warn_on_unprocessed_element=not silent, use_full_path_on_warning=full_path)
    route = rng.choice(["string", "file"])
    if rng.random() < 0.2:
        # the reader has read another file before
        other = os.path.join(directory, "other.arxml")
        with open(other, "w", encoding="utf-8") as fp:
            fp.write(wrap_file([], ver))
        reader.read_file(other)
    document, messages = read(text, route, directory, rng, reader, stop_on_error=rng.random() < 0.3)
    where = "unsupported-in-" + "/".join(paths[0][-2:])
    try:
        check_packages(document.packages, packages, where)
    except Violation as ex:
        ex.detail = f"messages: {messages}\n{text}"
        raise
    lines = [x for x in messages.splitlines() if x.strip()]
    if silent:
        if lines:
            raise Violation("silent-reader-prints", messages[:400])
    else:
        for path, tag in zip(paths, tags):
            hits = [x for x in lines if f"{tag}>" in x or tag.startswith("x:") and f"}}{tag[2:]}>" in x]
            if not hits:
                raise Violation(f"not-reported-{'/'.join(path[-2:])}",
                                f"unsupported element {tag} below {'/'.join(path)} is dropped without a message", text)
            if route == "file" and hits:
                name = os.path.join(directory, "in.arxml") if full_path else "in.arxml"
                if not any(x.startswith(f"{name}(") for x in hits):
                    raise Violation("message-file", f"message does not name the file: {hits}")
            if not any(f"({number})" in x for x in hits for number in lines_of(text, tag)):
                raise Violation("message-line", f"message does not name the line of <{tag}>: {hits}", text)
        if len(lines) > count + root_extra:
            raise Violation("extra-messages", f"{count} unsupported elements, messages: {messages[:600]}", text)
    ctx.count("unsupported_elements", count)
    ctx.case("unsupported/" + "|".join("/".join(p) for p in paths), text)


# ------------------------------------------------------------------------------------------- noise

def noisy(node, rng, level=0):
    """Serialisation with comments, processing instructions, CDATA and character references"""
    from xml.sax.saxutils import escape, quoteattr
    mixed = node.tag.rpartition(":")[2] in MIXED
    only_nodes = not mixed and all(isinstance(c, Node) for c in node.content)

    def junk():
        pick = rng.random()
        if pick < 0.12:
            return rng.choice(["<!-- comment -->", "<!---->", "<!-- <SHORT-NAME>Fake</SHORT-NAME> -->", "<?pi some data?>",
                               "<!--a--><!--b-->"])
        return ""

    def text_of(text):
        pick = rng.random()
        if "\r" in text or not text:
            return escape(text).replace("\r", "&#13;")
        if pick < 0.15 and "]]>" not in text:
            return f"<![CDATA[{text}]]>"
        if pick < 0.3:
            return "".join(f"&#x{ord(c):x};" if rng.random() < 0.3 else escape(c) for c in text)
        if pick < 0.45 and len(text) > 1:
            cut = rng.randint(1, len(text) - 1)
            return escape(text[:cut]) + rng.choice(["<!-- x -->", "<?pi y?>", "<!-- 1 & 2 < 3 -->"]) + escape(text[cut:])
        return escape(text)
    attrs = list(node.attrs.items())
    rng.shuffle(attrs)
    out = [f"<{node.tag}" + "".join(rng.choice([" ", "\n", "  "]) + f"{k}{rng.choice(['=', ' = '])}{quoteattr(v)}"
                                    for k, v in attrs) + rng.choice(["", " "])]
    if not node.content:
        out.append("/>" if rng.random() < 0.5 else f"></{node.tag}>")
        return "".join(out)
    out.append(">")
    for item in node.content:
        if isinstance(item, Node):
            if only_nodes:
                out.append(rng.choice(["", "\n", " ", "\n\t\t"]))
            out.append(junk())
            out.append(noisy(item, rng, level + 1))
        elif isinstance(item, Num):
            out.append(text_of(item.text()))
        else:
            out.append(text_of(item))
    out.append(junk())
    if only_nodes:
        out.append(rng.choice(["", "\n"]))
    out.append(f"</{node.tag}>")
    return "".join(out)


def prefixed(node, prefix):
    """The same with a prefix for all tags"""
    return Node(prefix + node.tag, [prefixed(c, prefix) if isinstance(c, Node) else c for c in node.content], dict(node.attrs))


def judge_noise(ctx, rng, directory):
    ver = rng.choice(xio.VERSIONS)
    g = Gen(rng, density=rng.choice([0.3, 0.7]), depth=rng.choice([1, 2, 3]), ver=ver, hostile=rng.choice([0, 0.4]), breadth=2)
    packages = small_doc(g)
    body = noisy(Node("AR-PACKAGES", tree(packages, ver)), rng)
    head = wrap_file([], ver, pretty=False).rstrip()
    if not head.endswith("/>"):
        raise AssertionError(head[-100:])
    if rng.random() < 0.3:
        # white space between the parts of the location, other locations, the name of a folder
        name = re.search(r"AUTOSAR_\d+.xsd", head)[0]
        location = f"http://autosar.org/schema/r4.0 {name}"
        head = head.replace(location, rng.choice([
            f"http://autosar.org/schema/r4.0\n    {name}", f" http://autosar.org/schema/r4.0  {name} ",
            f"http://autosar.org/schema/r4.0 ../schema/{name}", f"http://autosar.org/schema/r4.0 file:///x/{name}",
            f"http://www.w3.org/XML/1998/namespace xml.xsd {location}",
            f"{location} http://www.w3.org/XML/1998/namespace xml.xsd"]))
        if "xml.xsd" in head and rng.random() < 0.5:
            head = head.replace("xsi:", "s:").replace(":xsi", ":s")
    tail = "</AUTOSAR>"
    if rng.random() < 0.2:
        # the namespace of AUTOSAR with a prefix
        prefix = rng.choice(["ar:", "AUTOSAR:", "x:"])
        body = noisy(prefixed(Node("AR-PACKAGES", tree(packages, ver)), prefix), rng)
        head = head.replace("<AUTOSAR", f"<{prefix}AUTOSAR").replace(" xmlns=", f" xmlns:{prefix[:-1]}=")
        tail = f"</{prefix}AUTOSAR>"
    text = head[:-2] + ">" + rng.choice(["", "<!-- head -->"]) + body + tail
    if rng.random() < 0.5:
        text = text.replace("?>\n", "?>\n<!-- before the root -->\n<?tool hint?>\n", 1)
    document, messages = read(text, rng.choice(["string", "file"]), directory, rng)
    try:
        check_packages(document.packages, packages, "noise")
    except Violation as ex:
        ex.detail = text
        raise
    if messages:
        raise Violation("noise-message", messages[:400], text)
    if document.schema_version != ver:
        raise Violation("noise-version", f"version {document.schema_version} instead of {ver}", text)
    ctx.count("noisy_documents")
    ctx.case("noise/" + "|".join(p.signature() + ",".join(e.signature() for e in p.vals["#elements"]) for p in packages),
             text)


# -------------------------------------------------------------------------------------- corruption

JUNK = ["", " ", "???", "-", "12x", "none", "True!", "/", "//", "a/b/", "0x", "<", "\u00e9", "1e", "NOT-A-VALUE"]


def corrupt(node, rng):
    """Damages one place inside the element; returns a description"""
    below = [(n, p) for n, p in walk(node)]
    for _ in range(50):
        target, path = rng.choice(below)
        pick = rng.choice(["text", "text", "attr", "drop", "drop", "empty", "rename", "double", "dropattr", "nest", "swap"])
        children = [c for c in target.content if isinstance(c, Node)]
        where = "/".join(path[-2:])
        if pick == "text" and target.content and not children:
            value = rng.choice(JUNK)
            target.content = [value] if value else []
            return f"text {where} {value!r}"
        if pick == "attr" and target.attrs:
            key = rng.choice(sorted(target.attrs))
            target.attrs[key] = rng.choice(JUNK)
            return f"attribute {where} {key}"
        if pick == "dropattr" and target.attrs:
            del target.attrs[rng.choice(sorted(target.attrs))]
            return f"without-attribute {where}"
        if pick == "drop" and children:
            child = rng.choice(children)
            target.content = [c for c in target.content if c is not child]
            return f"without {where}/{child.tag}"
        if pick == "empty" and target is not node and target.content:
            target.content = []
            return f"empty {where}"
        if pick == "rename" and children:
            child = rng.choice(children)
            child.tag = rng.choice(["X-RENAMED", "SHORT-NAME", "VALUE", "TYPE-TREF", child.tag.lower()])
            return f"renamed {where}"
        if pick == "double" and children:
            child = rng.choice(children)
            target.content.insert(target.content.index(child), child)
            return f"doubled {where}/{child.tag}"
        if pick == "nest" and target.content and not children:
            target.content = [Node("X-NESTED", target.content)]
            return f"nested {where}"
        if pick == "swap" and len(children) > 1:
            one, two = rng.sample(children, 2)
            i, j = target.content.index(one), target.content.index(two)
            target.content[i], target.content[j] = two, one
            return f"swapped {where}"
    return None


def copy_node(node):
    return Node(node.tag, [copy_node(c) if isinstance(c, Node) else c for c in node.content], dict(node.attrs))


def rest_intact(got, inst, skip, path=""):
    """Compares a package with the model, leaving out some elements (or packages) of it"""
    if got.name != inst.name:
        raise Violation("rest-package-name", f"{path}: {got.name!r}, expected {inst.name!r}")
    want_elements = [e for e in inst.vals["#elements"] if all(e is not x for x in skip)]
    have = [e for e in got.elements]
    names = {e.name for e in want_elements}
    kept = [e for e in have if e.name in names]
    if [e.name for e in kept] != [e.name for e in want_elements]:
        raise Violation("rest-elements", f"{path}/{inst.name}: elements {[e.name for e in have]}, expected at least "
                        f"{[e.name for e in want_elements]} in this order")
    for item, want in zip(kept, want_elements):
        want.check(item, path)
    want_packages = inst.vals["#packages"]
    if [p.name for p in got.packages] != [p.name for p in want_packages]:
        raise Violation("rest-packages", f"{path}/{inst.name}: packages {[p.name for p in got.packages]}, expected "
                        f"{[p.name for p in want_packages]}")
    extra = len(have) - len(kept)
    for item, want in zip(got.packages, want_packages):
        extra += rest_intact(item, want, skip, path + "/" + inst.name)
    return extra


def all_packages(packages):
    for package in packages:
        yield package
        yield from all_packages(package.vals["#packages"])


def judge_corrupt(ctx, rng, directory, classes=None):
    ver = rng.choice(xio.VERSIONS)
    g = Gen(rng, density=rng.choice([0.2, 0.5, 0.9]), depth=rng.choice([1, 2, 4]), ver=ver, hostile=0, breadth=2)
    packages = small_doc(g, 1)
    home = rng.choice([p for p in all_packages(packages)])
    victim = SPECS[rng.choice(classes or COLLECTABLE)].gen(g)
    position = rng.randint(0, len(home.vals["#elements"]))
    node = copy_node(victim.node(ver))
    what = corrupt(node, rng)
    if what is None:
        return
    marker = Node("X-PLACE")
    plain = tree(packages, ver)
    # place the damaged element
    target = find_package(plain, packages, home)
    elements = [c for c in target.content if c.tag == "ELEMENTS"]
    elements[0].content.insert(position, marker)
    text = wrap_file(plain, ver, pretty=rng.random() < 0.5)
    line = text[:text.index("<X-PLACE/>")].count("\n") + 1
    text = text.replace("<X-PLACE/>", serialize(node))
    if "X-PLACE" in text:
        raise AssertionError("marker")
    reader = Reader()
    if rng.random() < 0.3:
        # what was asked for in an earlier call does not last
        read(wrap_file(tree(packages, ver), ver), rng.choice(["string", "file"]), directory, rng, reader, stop_on_error=True)
    try:
        document, messages = read(text, rng.choice(["string", "file"]), directory, rng, reader)
    except Exception as ex:
        raise Violation(f"abort-{victim.spec.name}-{type(ex).__name__}",
                        f"one damaged {victim.spec.name} ({what}) makes the whole file unreadable: {type(ex).__name__}: {ex}",
                        text) from ex
    got = list(document.packages)
    if [p.name for p in got] != [p.name for p in packages]:
        raise Violation("rest-top-packages", f"{what}: packages {[p.name for p in got]}", text)
    extra = 0
    try:
        for item, want in zip(got, packages):
            extra += rest_intact(item, want, [victim])
    except Violation as ex:
        ex.detail = f"{what}\n{messages}\n{text}"
        raise
    if extra == 0 and not messages.strip():
        raise Violation(f"silent-loss-{victim.spec.name}", f"{victim.spec.name} damaged by: {what} disappears without a message",
                        text)
    if extra == 0 and f"({line})" not in messages:
        raise Violation("loss-line", f"{what}: the element starts on line {line}, messages: {messages[:600]}", text)
    if extra > 1:
        raise Violation("invented", f"{extra} elements appear that are not in the file", text)
    # the same with stop_on_error: an error if and only if the element was lost
    try:
        second, _ = read(text, "string", directory, rng, Reader(), stop_on_error=True)
        stopped = False
    except Exception as ex:  # pylint: disable=W0718
        stopped = True
        if extra == 0 and f"({line})" not in str(ex):
            raise Violation("stop-line", f"{what}: the element starts on line {line}, error: {ex}", text) from ex
    if stopped != (extra == 0) and not what.startswith("renamed"):
        raise Violation("stop-on-error", f"{what}: element {'lost' if extra == 0 else 'read'} by default, but with "
                        f"stop_on_error {'an error is raised' if stopped else 'no error is raised'}", text)
    # the reader is not damaged
    again, messages = xio.read_doc(wrap_file(tree(packages, ver), ver), reader)
    if messages:
        raise Violation("reuse-message", messages[:300])
    check_packages(again.packages, packages, "reuse")
    ctx.count("damaged_lost" if extra == 0 else "damaged_read")
    ctx.case(f"corrupt/{victim.spec.name}/{what}", f"{what}: {'reported and left out' if extra == 0 else 'read'}")


def judge_several(ctx, rng, directory):
    """Several damaged elements and packages in one document: each is reported, the rest is there"""
    ver = rng.choice(xio.VERSIONS)
    g = Gen(rng, density=rng.choice([0.2, 0.5]), depth=rng.choice([1, 2]), ver=ver, hostile=0, breadth=2)
    packages = [gen_package(g, 1, 4, None, 1) for _ in range(rng.randint(1, 3))]
    plain = tree(packages, ver)
    count = rng.choice([2, 2, 3, 5, 12])
    kinds = []
    everywhere = list(all_packages(packages))
    if rng.random() < 0.3:
        everywhere = [rng.choice(everywhere)]
    classes = [rng.choice(COLLECTABLE)] if rng.random() < 0.4 else COLLECTABLE
    damaged = []
    for number in range(count):
        home = rng.choice(everywhere)
        target = find_package(plain, packages, home)
        elements = [c for c in target.content if c.tag == "ELEMENTS"][0]
        victim = SPECS[rng.choice(classes)].gen(g)
        first = 0
        if home.vals["#elements"] and rng.random() < 0.4 and "name" in victim.vals:
            # a second one of the same name
            victim.vals["name"] = rng.choice(home.vals["#elements"]).name
            victim = copy_node(victim.node(ver))
            first = len(elements.content)
        else:
            victim = copy_node(victim.node(ver))
            victim.content = [c for c in victim.content if not (isinstance(c, Node) and c.tag == "SHORT-NAME")]
        elements.content.insert(rng.randint(first, len(elements.content)), Node(f"X-PLACE-{number}"))
        damaged.append(victim)
        kinds.append(victim.tag)
    pretty = rng.random() < 0.5
    text = wrap_file(plain, ver, pretty=pretty)
    starts = [text[:text.index(f"<X-PLACE-{number}/>")].count("\n") + 1 for number in range(count)]
    for number, victim in enumerate(damaged):
        text = text.replace(f"<X-PLACE-{number}/>", serialize(victim))
    document, messages = read(text, rng.choice(["string", "file"]), directory, rng)
    got = list(document.packages)
    if [p.name for p in got] != [p.name for p in packages]:
        raise Violation("several-packages", f"{kinds} damaged: packages {[p.name for p in got]}", text)
    try:
        extra = sum(rest_intact(item, want, []) for item, want in zip(got, packages))
    except Violation as ex:
        ex.detail = f"{kinds}\n{messages}\n{text}"
        raise
    if extra:
        raise Violation("several-invented", f"{extra} elements without names", text)
    lines = [x for x in messages.splitlines() if x.strip()]
    if len(lines) < count:
        raise Violation("several-silent", f"{count} damaged elements {kinds}, {len(lines)} messages: {messages[:600]}", text)
    for start in starts:
        hits = [x for x in lines if f"({start})" in x]
        if len(hits) < starts.count(start):
            raise Violation("several-line", f"{kinds} damaged in lines {starts}, messages: {messages[:600]}", text)
    ctx.count("damaged_lost", count)
    ctx.case(f"several/{count}/{'/'.join(kinds[:2])}", text)


def find_package(nodes, packages, home):
    for node, package in zip(nodes, packages):
        if package is home:
            if not any(c.tag == "ELEMENTS" for c in node.content):
                at = len(node.content)
                for i, c in enumerate(node.content):
                    if c.tag == "AR-PACKAGES":
                        at = i
                node.content.insert(at, Node("ELEMENTS"))
            return node
        subs = [c for c in node.content if c.tag == "AR-PACKAGES"]
        if subs:
            found = find_package(subs[0].content, package.vals["#packages"], home)
            if found is not None:
                return found
    return None


# -------------------------------------------------------------------------------------- duplicates

def judge_duplicate(ctx, rng, directory):
    """Two elements of one package with the same name: the first stays, the second is reported"""
    ver = 51
    g = Gen(rng, density=0.3, depth=2, ver=ver, hostile=0, breadth=2)
    packages = small_doc(g, 2)
    home = rng.choice([p for p in all_packages(packages) if p.vals["#elements"]])
    first = rng.choice(home.vals["#elements"])
    other = SPECS[rng.choice(COLLECTABLE)].gen(g)
    if "name" not in other.vals:
        return
    other.vals["name"] = first.name
    plain = tree(packages, ver)
    elements = [c for c in find_package(plain, packages, home).content if c.tag == "ELEMENTS"][0]
    index = home.vals["#elements"].index(first)
    elements.content.insert(rng.randint(index + 1, len(elements.content)), other.node(ver))
    text = wrap_file(plain, ver)
    document, messages = read(text, "string", directory, rng)
    check_packages(document.packages, packages, "duplicate")
    if first.name not in messages:
        raise Violation("duplicate-silent", f"second element named {first.name} is dropped, messages: {messages!r}", text)
    try:
        read(text, "string", directory, rng, Reader(), stop_on_error=True)
    except Exception:  # pylint: disable=W0718
        ctx.count("duplicates")
        ctx.case(f"duplicate/{first.spec.name}/{other.spec.name}")
        return
    raise Violation("duplicate-stop", "a second element with the same name does not stop a reader with stop_on_error", text)


# ------------------------------------------------------------------------------- members given twice

def dump(packages):
    """Everything that was read"""
    return [picture(p) for p in packages]


def judge_twice(ctx, rng, directory, classes=None):
    """A second element where there can be one only doesn't count, and is reported"""
    ver = rng.choice(xio.VERSIONS)
    g = Gen(rng, density=rng.choice([0.3, 0.7]), depth=rng.choice([1, 2, 4]), ver=ver, hostile=0, breadth=2,
            full=classes is not None)
    packages = small_doc(g) if classes is None else [gen_package(g, 0, 1, classes, 1)]
    nodes = tree(packages, ver)
    document, _ = xio.read_doc(wrap_file(nodes, ver))
    before = dump(document.packages)
    places = {(path[-1], child.tag): (node, path, child) for node, path in containers(nodes) for child in node.content}
    places = list(places.values())
    for node, path, child in rng.sample(places, len(places) if classes is not None else min(len(places), 3)):
        ctx.guard(compare_twice, ctx, rng, directory, nodes, ver, before, node, path, child)


def compare_twice(ctx, rng, directory, nodes, ver, before, node, path, child):
    position = rng.randint(node.content.index(child) + 1, len(node.content))
    place = f"{path[-1]}/{child.tag}"
    for again in (child, Node(child.tag, [Node("X-OTHER", ["text"])]), Node(child.tag, ["text"])):
        node.content.insert(position, again)
        try:
            text = wrap_file(nodes, ver)
        finally:
            del node.content[position]
        route = rng.choice(["string", "file"])
        reader = Reader(use_full_path_on_warning=rng.random() < 0.3)
        try:
            document, messages = read(text, route, directory, rng, reader)
        except Exception as ex:
            raise Violation(f"twice-abort-{place}", f"{type(ex).__name__}: {ex}", text) from ex
        same = dump(document.packages) == before
        hit = re.search(rf"\b{re.escape(child.tag)}>", messages)
        if again is child and (not same or path[-1] in ("ELEMENTS", "AR-PACKAGES", "PORT-API-OPTIONS")):
            break  # A list (with unique names)
        if not same:
            raise Violation(f"twice-{place}", f"a second {child.tag} changes what is read", text)
        if not hit:
            raise Violation(f"twice-silent-{place}", f"a second {child.tag} below {'/'.join(path)} is dropped without a message",
                            text)
        ctx.count("members_given_twice")
    else:
        ctx.case(f"twice/{place}", f"second {child.tag} in {path[-1]} is reported")


# Supported by AUTOSAR and not by the library, in running text
RUNNING = {"L-1": ["FT", "STD", "TRACE-REF", "XDOC", "XFILE", "XREF", "XREF-TARGET"], "L-2": ["FT", "TRACE-REF", "XREF"],
           "L-5": ["XREF"], "IE": ["SUP", "SUB"]}


def judge_running(ctx, rng, directory):
    """Unsupported elements in running text cost themselves, and are reported"""
    ver = rng.choice(xio.VERSIONS)
    g = Gen(rng, density=1, depth=4, ver=ver, hostile=0, breadth=2)
    packages = [gen_package(g, 0, 2, None, 1)]
    nodes = tree(packages, ver)
    places = [(node, path) for root in nodes for node, path in walk(root) if node.tag in RUNNING]
    if not places:
        return
    wanted = set()
    for node, path in rng.sample(places, min(len(places), rng.randint(1, 3))):
        tag = rng.choice(RUNNING[node.tag])
        if node.tag == "IE":
            # in the midst of the text
            words = "".join(node.content)
            cut = rng.randint(0, len(words))
            node.content[:] = [words[:cut], Node(tag, ["1"]), words[cut:]]
        else:
            node.content.insert(rng.randint(0, len(node.content)), Node(tag, ["1"]))
        wanted.add(tag)
        ctx.case(f"running/{node.tag}/{tag}", f"<{tag}> in <{node.tag}> is reported and left out")
    document, messages = read(wrap_file(nodes, ver), rng.choice(["string", "file"]), directory, rng)
    check_packages(document.packages, packages, "running")
    for tag in wanted:
        if f"<{tag}>" not in messages:
            raise Violation(f"running-silent-{tag}", f"{tag} in running text is dropped without a message: {messages[:300]}")
    ctx.count("unsupported_in_text", len(wanted))


# ------------------------------------------------------------------- supported elements at other places

VALUES = {"APPLICATION-VALUE-SPECIFICATION", "ARRAY-VALUE-SPECIFICATION", "CONSTANT-REFERENCE",
          "NOT-AVAILABLE-VALUE-SPECIFICATION", "NUMERICAL-VALUE-SPECIFICATION", "RECORD-VALUE-SPECIFICATION",
          "TEXT-VALUE-SPECIFICATION", "REFERENCE-VALUE-SPECIFICATION"}
# Belongs there, although the documents generated here don't have it, or is left out on purpose
ELSEWHERE = {"ELEMENTS": VALUES | {"TABLE"}, "FIELDS": VALUES, "COMPOSITION-SW-COMPONENT-TYPE": {"DATA-TYPE-MAPPING-REFS"},
             "IDENT": {"DESC"}} | {tag: {"DATA-UPDATE-PERIOD"} for tag in [
                 "QUEUED-RECEIVER-COM-SPEC", "NONQUEUED-RECEIVER-COM-SPEC", "QUEUED-SENDER-COM-SPEC",
                 "NONQUEUED-SENDER-COM-SPEC"]}
# Where one of them belongs, the others belong, too
FAMILIES = [VALUES, {"V", "VT", "VF", "VG", "VTF"}, {"ANNOTATIONS", "DESC", "INTRODUCTION", "LONG-NAME", "CATEGORY"}]


def belongs(known, node, tag):
    """Is the element possibly a supported one in this place?"""
    own = {c.tag for c in node.content} | known.get(node.tag, set()) | ELSEWHERE.get(node.tag, set())
    return tag in own or any(tag in family and own & family for family in FAMILIES)


def members():
    """The tags that are found inside of elements: {tag: set of tags}"""
    res = {}
    for name in sorted(SPECS):
        for ver in (48, 51):
            for i in range(3):
                g = Gen(random.Random(f"members/{name}/{ver}/{i}"), density=1, depth=4, ver=ver, hostile=0, breadth=1, full=True)
                for tag in SPECS[name].tags or [None]:
                    item = SPECS[name].gen(g)
                    for node, _ in walk(item.node(ver, tag) if tag else item.node(ver)):
                        res.setdefault(node.tag, set()).update(c.tag for c in node.content if isinstance(c, Node))
    return res


def judge_misplaced(ctx, rng, directory, known, name=None):
    """Elements that are supported in another place only cost themselves, and are reported"""
    ver = rng.choice([48, 51])
    g = Gen(rng, density=1 if name else 0.6, depth=4, ver=ver, hostile=0, breadth=1, full=bool(name))
    packages = [gen_package(g, 0, 1, [name], 1) if name else gen_package(g, 1, 3, None, 1)]
    nodes = tree(packages, ver)
    places = containers(nodes)
    before = dump(xio.read_doc(wrap_file(nodes, ver))[0].packages)
    # A tag is reported once per reading: use each once
    tags = sorted(set().union(*known.values()))
    extra = []  # (node, path, the element)
    for tag in rng.sample(tags, len(tags)):
        node, path = rng.choice(places)
        if belongs(known, node, tag):
            continue
        content = rng.choice([[], ["text"], [Node("SHORT-NAME", ["Fake"])], [Node("V", ["1"]), Node("DESC")]])
        extra.append((node, path, Node(tag, content)))

    def attempt(extra):
        for node, _, item in extra:
            node.content.insert(rng.randint(0, len(node.content)), item)
        text = wrap_file(nodes, ver)
        for node, _, item in extra:
            node.content[:] = [x for x in node.content if x is not item]
        try:
            document, messages = read(text, rng.choice(["string", "file"]), directory, rng)
        except Exception as ex:  # pylint: disable=W0718
            return "abort", f"{type(ex).__name__}: {ex}", text
        if dump(document.packages) != before:
            return "changes", "the rest is read differently, messages: " + messages[:600], text
        for _, path, item in extra:
            if f"{item.tag}>" not in messages:
                return "silent", f"{item.tag} below {'/'.join(path)} is dropped without a message", text
        return None
    bad = attempt(extra)
    if bad:
        # find one
        for item in extra:
            one = attempt([item])
            if one:
                raise Violation(f"misplaced-{one[0]}-{item[1][-1]}/{item[2].tag}",
                                f"{item[2].tag} below {'/'.join(item[1])}: {one[1]}", one[2])
        raise Violation(f"misplaced-{bad[0]}", bad[1], bad[2])
    ctx.count("misplaced_elements", len(extra))
    for _, path, item in extra:
        ctx.case(f"misplaced/{path[-1]}/{item.tag}", f"{item.tag} in {path[-1]} is reported")


def run(ctx):
    with xio.scratch() as directory:
        for _, name in ctx.each("unknown-kinds", COLLECTABLE):
            ctx.guard(judge_unknown, ctx, ctx.rng("unknown", name), directory, [name], True)
        for _, name in ctx.each("twice-kinds", COLLECTABLE):
            ctx.guard(judge_twice, ctx, ctx.rng("twice", name), directory, [name])
        known = members()
        for _, name in ctx.each("misplaced-kinds", COLLECTABLE):
            for i in range(2):
                ctx.guard(judge_misplaced, ctx, ctx.rng("misplaced", name, i), directory, known, name)
        for _, rng in ctx.loop("misplaced", 40, 0.1):
            ctx.guard(judge_misplaced, ctx, rng, directory, known, rng.choice([*COLLECTABLE, None, None]))
        for _, rng in ctx.loop("twice", 40, 0.1):
            ctx.guard(judge_twice, ctx, rng, directory)
        for _, rng in ctx.loop("running", 30, 0.05):
            ctx.guard(judge_running, ctx, rng, directory)
        for _, rng in ctx.loop("unknown", 100, 0.2):
            ctx.guard(judge_unknown, ctx, rng, directory)
        for _, rng in ctx.loop("noise", 60, 0.12):
            ctx.guard(judge_noise, ctx, rng, directory)
        for _, name in ctx.each("corrupt-kinds", COLLECTABLE):
            for i in range(8):
                ctx.guard(judge_corrupt, ctx, ctx.rng("corrupt", name, i), directory, [name])
        for _, rng in ctx.loop("corrupt", 150, 0.25):
            ctx.guard(judge_corrupt, ctx, rng, directory)
        for _, rng in ctx.loop("several", 30, 0.1):
            ctx.guard(judge_several, ctx, rng, directory)
        for _, rng in ctx.loop("duplicate", 30, 0.1):
            ctx.guard(judge_duplicate, ctx, rng, directory)



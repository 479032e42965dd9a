"""C04: any text that XML can represent is written as well-formed XML and comes back unchanged"""
import os
import autosar.xml.document as ar_document
from arv import xio
from arv.harness import Violation
from arv.model import SPECS, Gen, gen_package
from arv.xmltree import diff, parse, first_tag_path, serialize
from autosar.xml.writer import Writer
from autosar.xml.reader import Reader

RULE = ("hostile text (markup, quotes, entities, white space at the edges, line ends, non-Latin and astral characters) is "
        "put into the text slots of one element, written, parsed by an independent XML parser and read back; distinct "
        "= distinct (shape of the element, set of hostile character classes)")
ASSUMPTIONS = ["names (SHORT-NAME, identifiers, reference paths, display formats) are restricted to their schema alphabet",
               "characters that XML 1.0 cannot represent at all (most control characters) are out of scope"]
ASCII_SHARD = True
QUICK_S = 9.0
THOROUGH_S = 240.0
MIN_DISTINCT = 800

ATOMS = ["<", ">", "&", "\"", "'", "&amp;", "&#60;", "&lt;", "&&", "]]>", "<![CDATA[", "<!--", "-->", "--", "<?xml?>",
         "</SHORT-NAME>", "<L-2 L=\"EN\">", "%s", "{0}", "{", "}", "\\n", "\\", "/", "$", "%", ";", "=", "a=\"b\"",
         "\n", "\t", "\r", "\r\n", " ", "  ", "\u00a0", "\u0085", "\u2028", "\u200b", "\ufeff", "é", "ß", "Ω", "°C", "µ",
         "日本語", "\U0001f600", "\U0010fffd", "\u0301", "\ud7ff", "\ue000", "\ufffd", "a", "Z", "0", "None", "true",
         "word", "1.5", "0x10"]
EDGES = ["", "", "", " ", "\n", "\t", "  ", "\r", "\n "]


def classes_of(text):
    found = set()
    for char in text:
        if char in "<>&\"'":
            found.add(char)
        elif char in "\n\r\t ":
            found.add(repr(char))
        elif ord(char) > 0xffff:
            found.add("astral")
        elif ord(char) > 127:
            found.add("nonascii")
    if text != text.strip():
        found.add("edge")
    return found


class HostileGen(Gen):
    """Every free text is hostile"""

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.seen = set()

    def text(self, edges=False):
        rng = self.rng
        pick = rng.random()
        if pick < 0.25:
            res = rng.choice(ATOMS)
        elif pick < 0.93:
            res = "".join(rng.choice(ATOMS) for _ in range(rng.randint(2, 6)))
        elif pick < 0.96:
            res = rng.choice(ATOMS) * rng.choice([100, 4097])
        else:
            while True:
                res = "".join(chr(rng.choice([rng.randint(32, 126), rng.randint(160, 0xd7ff),
                                              rng.randint(0xe000, 0xfffd), rng.randint(0x10000, 0x10ffff)]))
                              for _ in range(8))
                break
        res = rng.choice(EDGES) + res + rng.choice(EDGES)
        self.seen |= classes_of(res)
        return res


def judge(ctx, spec, inst, tag, g):
    node = inst.node(51, tag)
    if spec.writable:
        text = xio.write_elem(inst.build(g.rng), spec, tag)
        try:
            elem = parse(text)
        except Exception as ex:
            raise Violation(f"malformed-{spec.name}", f"{spec.name} written as {tag} is not well-formed XML: {ex}",
                            inst.describe() + "\n" + text) from ex
        found = diff(node, elem)
        if found:
            raise Violation("written-" + first_tag_path(found), f"{spec.name} ({tag}): {found}", text)
        ctx.count("written")
        if tag in spec.read_tags:
            obj, _ = xio.read_elem(text, spec)
            inst.check(obj)
            ctx.count("read_back")
    if tag in spec.read_tags:
        obj, _ = xio.read_elem(serialize(node), spec)
        inst.check(obj)
        ctx.count("read_foreign")
    for item in g.seen:
        ctx.count("class " + item)
    ctx.case(f"{inst.signature()}/{sorted(g.seen)}" if g.seen else None, inst.describe()[:400])


def judge_file(ctx, rng, directory):
    g = HostileGen(rng, density=0.5, depth=2, ver=51, hostile=1, breadth=2)
    packages = [gen_package(g, 1, 2) for _ in range(2)]
    path = os.path.join(directory, "text.arxml")
    Writer().write_file(ar_document.Document([p.build(rng) for p in packages]), path)
    with open(path, "rb") as fp:
        data = fp.read()
    try:
        root = parse(data)
    except Exception as ex:
        raise Violation("malformed-file", f"written file is not well-formed: {ex}", data[:3000]) from ex
    for package, elem in zip(packages, list(root)[0]):
        found = diff(package.node(51), elem)
        if found:
            raise Violation("file-" + first_tag_path(found), found, data[:3000])
    document, _ = xio.read_file(path, Reader())
    for package, item in zip(packages, document.packages):
        package.check(item, "file")
    text = Writer().write_str(ar_document.Document([p.build(rng) for p in packages]))
    document, _ = xio.read_doc(text)
    for package, item in zip(packages, document.packages):
        package.check(item, "string")
    ctx.count("files")
    ctx.case(f"file/{sorted(g.seen)}/" + "|".join(p.signature() for p in packages), None)


def run(ctx):
    specs = list(SPECS.values())
    with xio.scratch() as directory:
        for _, spec in ctx.each("specs", specs):
            for i in range(3):
                rng = ctx.rng("spec", spec.name, i)
                g = HostileGen(rng, full=i == 0, density=0.7, depth=2, ver=51, hostile=1, breadth=2)
                inst, tag = xio.special_tag(spec, g, spec.tags)
                ctx.guard(judge, ctx, spec, inst, tag, g)
        for _, rng in ctx.loop("random", 500, 0.55):
            spec = rng.choice(specs)
            g = HostileGen(rng, density=rng.choice([0.3, 0.7]), depth=rng.choice([1, 2, 3]), ver=51, hostile=1, breadth=2)
            inst, tag = xio.special_tag(spec, g, spec.tags)
            ctx.guard(judge, ctx, spec, inst, tag, g)
        for _, rng in ctx.loop("files", 20, 0.2):
            ctx.guard(judge_file, ctx, rng, directory)

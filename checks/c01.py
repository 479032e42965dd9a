"""C01: what is written is exactly what was set, at the place the schema gives it"""
from arv import xio
from arv.harness import Violation
from arv.model import SPECS, Gen, MixedElem, MultiElem, TextElem, ConstSpec, RationalSpec, DocBlock
from arv.xmltree import diff, parse, first_tag_path

RULE = ("an instance of one supported complex type is built through the public constructors and written; distinct = "
        "distinct shape (class, tag, members present recursively, enumeration values, schema version)")
ASSUMPTIONS = ["the element order and tag names of the AUTOSAR schema are those described in arv/model.py (no XSD is "
               "available offline)", "lxml parses well-formed XML correctly"]
ASCII_SHARD = True
QUICK_S = 9.0
THOROUGH_S = 300.0
MIN_DISTINCT = 1500

PLAIN = (MixedElem, MultiElem, TextElem, ConstSpec, RationalSpec, DocBlock)


def judge(ctx, spec, inst, tag, ver, rng):
    node = inst.node(ver, tag)
    obj = inst.build(rng)
    text = xio.write_elem(obj, spec, tag, ver)
    ctx.count("bytes_compared", len(text))
    try:
        elem = parse(text)
    except Exception as ex:
        raise Violation(f"malformed-{spec.name}", f"{spec.name} written as {tag} is not well-formed XML: {ex}",
                        inst.describe() + "\n" + text) from ex
    found = diff(node, elem)
    if found:
        raise Violation(first_tag_path(found), f"{spec.name} ({tag}, schema {ver}): {found}",
                        inst.describe() + "\n" + text)
    ctx.count("elements_written")
    ctx.case(f"{tag}/{ver}/{inst.signature()}", text)


def run(ctx):
    writable = [s for s in SPECS.values() if s.writable and s.tags]
    # every member alone, and everything at once
    for _, spec in ctx.each("members", writable):
        ver = ctx.rng("ver", spec.name).choice(xio.VERSIONS) if not isinstance(spec, PLAIN) else 51

        def gen_for(attr, spec=spec, ver=51):
            return Gen(ctx.rng("m", spec.name, attr), density=0.3, depth=3, ver=ver, hostile=0.2)
        if not isinstance(spec, PLAIN) and spec.name != "PortInCompositionTypeInstanceRef":
            for kind, inst, g in xio.single_member_instances(spec, gen_for):
                tag = g.rng.choice(spec.tags)
                # built in the plainest way, with every shorter form that constructors take, and with some of them
                for rng in (None, xio.Lowest(g.rng.random()), g.rng):
                    ctx.guard(judge, ctx, spec, inst, tag, 51, rng)
        for i in range(3):
            g = Gen(ctx.rng("full", spec.name, i), full=True, depth=2, ver=ver if i else 51, hostile=0.2, breadth=2)
            inst, tag = xio.special_tag(spec, g, spec.tags)
            ctx.guard(judge, ctx, spec, inst, tag, g.ver, g.rng if i else None)
    for _, rng in ctx.loop("random", 900, 0.85):
        spec = rng.choice(writable)
        g = Gen(rng, edge="some", density=rng.choice([0.1, 0.3, 0.6, 0.9]), depth=rng.choice([1, 2, 3, 5]),
                ver=rng.choice(xio.VERSIONS), hostile=rng.choice([0, 0.3, 0.6]), breadth=rng.choice([1, 2, 3, 6]))
        inst, tag = xio.special_tag(spec, g, spec.tags)
        ctx.guard(judge, ctx, spec, inst, tag, g.ver, rng)

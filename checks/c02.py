"""C02: reading an element yields every supported value of it"""
from arv import xio
from arv.harness import Violation
from arv.model import SPECS, Gen
from arv.xmltree import serialize
from checks.c01 import PLAIN

RULE = ("XML of one supported element, produced by the reference model alone, is read; every public attribute of the "
        "result is compared; distinct = distinct shape (class, tag, members present recursively, enumeration values)")
ASSUMPTIONS = ["arv/model.py describes the AUTOSAR schema of the supported elements correctly"]
ASCII_SHARD = True
QUICK_S = 9.0
THOROUGH_S = 300.0
MIN_DISTINCT = 1500


def judge(ctx, spec, inst, tag, ver, pretty):
    text = serialize(inst.node(ver, tag), pretty=pretty)
    obj, messages = xio.read_elem(text, spec, ver)
    try:
        inst.check(obj)
    except Violation as ex:
        ex.detail = text
        raise
    if messages:
        raise Violation(f"warning-{spec.name}", f"reading supported content of {tag} printed {messages[:200]!r}", text)
    ctx.count("elements_read")
    ctx.case(f"{tag}/{ver}/{inst.signature()}", text)


def run(ctx):
    readable = [s for s in SPECS.values() if s.read_tags]
    for _, spec in ctx.each("members", readable):
        def gen_for(attr, spec=spec):
            return Gen(ctx.rng("m", spec.name, attr), density=0.3, depth=3, ver=51, hostile=0.2)
        if not isinstance(spec, PLAIN) and spec.name != "PortInCompositionTypeInstanceRef":
            for kind, inst, g in xio.single_member_instances(spec, gen_for):
                ctx.guard(judge, ctx, spec, inst, g.rng.choice(spec.read_tags), 51, g.boolean())
        for i in range(3):
            g = Gen(ctx.rng("full", spec.name, i), full=True, depth=2, ver=51, hostile=0.2, breadth=2)
            inst, tag = xio.special_tag(spec, g, spec.read_tags)
            ctx.guard(judge, ctx, spec, inst, tag, 51, g.boolean())
    for _, rng in ctx.loop("random", 900, 0.85):
        spec = rng.choice(readable)
        g = Gen(rng, edge="some", density=rng.choice([0.1, 0.3, 0.6, 0.9]), depth=rng.choice([1, 2, 3, 5]),
                ver=rng.choice(xio.VERSIONS), hostile=rng.choice([0, 0.3, 0.6]), breadth=rng.choice([1, 2, 3, 6]))
        inst, tag = xio.special_tag(spec, g, spec.read_tags)
        ctx.guard(judge, ctx, spec, inst, tag, g.ver, g.boolean())

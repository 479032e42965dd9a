"""C19: the generated type header declares exactly the types needed, once and in order, and compiles"""
import os
import re
import shutil
import subprocess
import tempfile
from autosar.generator import TypeGenerator
from arv.harness import Violation
from checks.c18 import Graph, Monitor, paths

RULE = ("random graphs of types (as in C18, without pointers), random sources in random order; the declarations in the text "
        "are parsed and compared with the expected ones, the file with the text, repeated with the text before, and "
        "headers are compiled as C and C++ (with a Rte.h that has only the types from elsewhere) together with "
        "assertions about every type; distinct = distinct (kinds of sources, declared and left out types, size)")
ASSUMPTIONS = ["names of types are distinct and no keywords", "no type depends on itself", "pointer and union types are not "
               "implemented"]
ASCII_SHARD = True
QUICK_S = 8.0
THOROUGH_S = 100.0
MIN_DISTINCT = 120

TOKEN = re.compile(r"\s*([A-Za-z_]\w*|\d+|[{}\[\];*,()=])")


def tokens(text):
    """Tokens of C declarations"""
    found, place = [], 0
    text = text.rstrip()
    while place < len(text):
        match = TOKEN.match(text, place)
        if match is None:
            raise Violation("text", f"unexpected characters {text[place:place + 30]!r}")
        found.append(match.group(1))
        place = match.end()
    return found


def declarations(text):
    """[(sort, name, content)] of the text: ("type", name, words), ("array", name, (words, size)), ("struct", tag, members)"""
    found, items = [], tokens(text)
    while items:
        depth, end = 0, None
        for end, token in enumerate(items):
            depth += {"{": 1, "}": -1}.get(token, 0)
            if token == ";" and not depth:
                break
        else:
            raise Violation("text", f"unfinished declaration {items!r}")
        found.append(declaration(items[:end]))
        items = items[end + 1:]
    return found


def declaration(words):
    """One of them"""
    if words[0] == "typedef":
        if words[-1] == "]":
            return "array", words[-4], (" ".join(words[1:-4]), int(words[-2])) if words[-3] == "[" else words
        if words[1] == "struct" and "{" in words:
            raise Violation("text", f"unexpected form {words!r}")
        return "type", words[-1], " ".join(words[1:-1])
    if words[0] == "struct" and words[2:3] == ["{"] and words[-1] == "}":
        members, member = [], []
        for word in words[3:-1]:
            if word == ";":
                members.append((" ".join(member[:-1]), member[-1]))
                member = []
            else:
                member.append(word)
        if member:
            raise Violation("text", f"unfinished member {words!r}")
        return "struct", words[1], members
    raise Violation("text", f"unexpected declaration {words!r}")


def wanted(item):
    """The type is declared in the header"""
    if item.kind == "base":
        return item.native is not None
    return item.emitter is None or item.emitter.upper() == "RTE"


def needed(sources):
    """The types below the sources: {ref: type}"""
    found = {}

    def visit(item):
        if item.ref not in found:
            found[item.ref] = item
            for child in item.children():
                visit(child)
    for item in sources:
        visit(item)
    return found


def target_name(sort, target):
    """What elements are declared with"""
    if sort == "value" and target.native:
        return target.native
    return target.c_name


def expected(item):
    """(sort, content) of the declaration of a type, apart from structures"""
    if item.kind == "base":
        return "type", item.native
    if item.kind in ("value", "reference"):
        return "type", item.target.c_name
    (_, sort, target), = item.members
    return "array", (target_name(sort, target), item.size)


def check_text(text, types):
    """The declarations are those of the types"""
    found = declarations(text)
    names = [name for (sort, name, _) in found if sort != "struct"]
    if len(set(names)) != len(names):
        raise Violation("twice", f"declared twice: {sorted(x for x in set(names) if names.count(x) > 1)}")
    declared = {x.c_name: x for x in types.values() if wanted(x)}
    if set(names) != set(declared):
        raise Violation("declared", f"unexpected {sorted(set(names) - set(declared))}, missing "
                                    f"{sorted(set(declared) - set(names))}")
    before, structs = set(), {}
    for sort, name, content in found:
        if sort == "struct":
            if name in structs:
                raise Violation("twice", f"struct {name}")
            structs[name] = content
            used = [x for (x, _) in content]
        else:
            item = declared[name]
            if item.kind == "record":
                members = structs.pop(content.removeprefix("struct "), None)
                have = [(target_name(s, t), n) for (n, s, t) in item.members]
                if sort != "type" or members != have:
                    raise Violation("record", f"{name}: expected {have}, got {sort} {content} {members}")
                before.add(name)
                continue
            if (sort, content) != expected(item):
                raise Violation(f"declaration-{item.kind}", f"{name}: expected {expected(item)}, got {sort} {content}")
            used = [content if sort == "type" else content[0]]
            before.add(name)
        for word in used:
            if word in declared and word not in before:
                raise Violation("order", f"{word} is used for {name} before it is declared")
    if structs:
        raise Violation("struct", f"without type: {sorted(structs)}")
    return found


def test_file(types, sources):
    """(Rte.h, source that checks the types)"""
    external, lines = [], ["#include \"Rte_Type.h\""]
    for number, item in enumerate(types.values()):
        for child in item.direct():
            if not wanted(child) or child.ref not in types:
                external.append(child)
        if not wanted(item):
            external.append(item)
    rte, seen = [], set()
    for number, item in enumerate(external):
        if item.c_name not in seen and (item.kind != "base" or not item.native):
            seen.add(item.c_name)
            rte.append(f"typedef struct {{ int member[{number + 1}]; }} {item.c_name};")
    for number, item in enumerate(x for x in types.values() if wanted(x)):
        name = item.c_name
        if item.kind == "record":
            for place, (member, sort, target) in enumerate(item.members):
                lines.append(f"extern {target_name(sort, target)} v{number}_{place};\n"
                             f"extern __typeof__((({name} *)0)->{member}) v{number}_{place};")
            fields = " ".join(f"{target_name(s, t)} {m};" for (m, s, t) in item.members)
            lines.append(f"struct s{number} {{ {fields} }};\n"
                         f"char c{number}[sizeof(struct s{number}) == sizeof({name}) ? 1 : -1];")
            for (member, _, _) in item.members:
                lines.append(f"char o{number}_{member}[__builtin_offsetof(struct s{number}, {member}) == "
                             f"__builtin_offsetof({name}, {member}) ? 1 : -1];")
            continue
        sort, content = expected(item)
        if sort == "array":
            lines.append(f"extern {content[0]} v{number}[{content[1]}];\nextern {name} v{number};")
        else:
            lines.append(f"extern {content} v{number};\nextern {name} v{number};")
    return "\n".join(["#ifndef RTE_H", "#define RTE_H", *rte, "#endif", ""]), "\n".join(lines) + "\n"


class Compiler:
    """Compiles headers in batches"""

    def __init__(self, folder, batch):
        self.folder = folder
        self.batch = batch
        self.waiting = []
        self.number = 0

    def add(self, ctx, generator, types, sources):
        """One more header"""
        place = os.path.join(self.folder, str(self.number))
        self.number += 1
        os.mkdir(place)
        generator.write_type_header(place)
        rte, code = test_file(types, sources)
        for name, text in (("Rte.h", rte), ("test.c", code), ("test.cpp", code)):
            with open(os.path.join(place, name), "w", encoding="utf-8") as fp:
                fp.write(text)
        self.waiting.append((place, ctx._case))
        if len(self.waiting) >= self.batch:
            self.compile(ctx)

    def compile(self, ctx):
        """Compile what waits"""
        cases, self.waiting = dict(self.waiting), []
        places = list(cases)
        jobs = []
        for command, name in (("gcc", "test.c"), ("g++", "test.cpp")):
            if places and shutil.which(command):
                files = [os.path.join(place, name) for place in places]
                jobs.append((command, subprocess.Popen([command, "-fsyntax-only", *files], stdout=subprocess.PIPE,
                                                       stderr=subprocess.STDOUT, text=True)))
        for command, job in jobs:
            output = job.communicate()[0]
            ctx.count("compiled_" + command, len(places))
            if job.returncode:
                place = next((p for p in places if p + os.sep in output), places[0])
                ctx._case = cases[place]
                with open(os.path.join(place, "Rte_Type.h"), encoding="utf-8") as fp:
                    text = fp.read()
                error = next((x for x in output.splitlines() if "error" in x), output[:200])
                raise Violation("compile-" + command, f"{error.replace(place, '')}: {text}")
        for place in places:
            shutil.rmtree(place)


def judge(ctx, rng, compiler, reload=None):
    chain = rng.random() < 0.05
    graph = Graph(rng, rng.choice([30, 80]) if chain else rng.choice([1, 2, 4, 8, 14, 22]) if rng.random() < 0.95 else 60,
                  False, False, chain)
    if reload is not None:
        reload(graph)
    monitor = Monitor(graph)
    memo = {}
    sources = []
    generator = TypeGenerator(monitor.model)
    for _ in range(rng.randint(1, 6) if rng.random() < 0.95 else 25):
        item = rng.choice(graph.types[-3:] if chain else graph.types)
        if paths(item, memo) > 1000:
            continue
        source = rng.random() < 0.8
        monitor.create(item, rng.choice(["element", "ref"]), source)
        if source and item not in sources:
            sources.append(item)
        if rng.random() < 0.2:
            check_text(generator.write_type_defs_str(), needed(sources))
    types = needed(sources)
    text = generator.write_type_defs_str()
    found = check_text(text, types)
    order = generator.gen_data_type_creation_order()
    names = [x for (sort, x, _) in found if sort != "struct"]
    if [getattr(x, "symbol_name", x.name) for x in order] != names:
        raise Violation("creation-order", f"{[x.name for x in order]}, but declared are {names}")
    header = generator.write_type_header_str()
    other = TypeGenerator(monitor.model)
    if (other.write_type_header_str(), other.write_type_defs_str()) != (header, text):
        raise Violation("again", "another generator writes something else")
    if generator.write_type_header_str() != header:
        raise Violation("again", "the second header is not the first")
    if text not in header:
        raise Violation("header", f"the header doesn't have the declarations: {header}")
    folder = os.path.join(compiler.folder, "file")
    os.makedirs(folder, exist_ok=True)
    generator.write_type_header(folder)
    if os.listdir(folder) != ["Rte_Type.h"]:
        raise Violation("file", f"written: {os.listdir(folder)}")
    with open(os.path.join(folder, "Rte_Type.h"), encoding="utf-8") as fp:
        if fp.read() != header:
            raise Violation("file", "the file is not the header")
    kinds = "".join(sorted({x.kind[0] for x in sources}))
    left = "".join(sorted({x.kind[0] for x in types.values() if not wanted(x)}))
    ctx.case(f"{kinds}/{left}/{len(types) // 2}/{min(len(sources), 3)}")
    ctx.count("declarations", len(found))
    if ctx.replay or rng.random() < 0.3:
        compiler.add(ctx, generator, types, sources)


def run(ctx):
    folder = tempfile.mkdtemp(prefix="arv-c19-")
    try:
        compiler = Compiler(folder, 12 if ctx.tier == "quick" else 40)
        for _, rng in ctx.loop("graphs", 60, 0.95):
            ctx.guard(judge, ctx, rng, compiler)
        ctx.guard(compiler.compile, ctx)
    finally:
        shutil.rmtree(folder)

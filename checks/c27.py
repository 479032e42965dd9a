"""C27: nothing but the objects and files that were given is read or changed"""
import os
import random
import subprocess
import sys
import tempfile
import autosar.xml as ar_xml
from autosar.xml.reader import Reader
from autosar.xml.writer import Writer
from arv import env, xio
from arv.harness import Violation
from arv.model import COLLECTABLE, Gen, gen_package
from arv.state import Audit, Watch, differences, folder_state, process_state
from arv.xmltree import wrap_file
from checks.c07 import check_packages
from checks.c22 import picture, type_outputs
from checks.c26 import HISTORIES, Quiet

RULE = ("readings, writings, configurations, header generation and the histories of other checks run between two pictures of "
        "the process (working directory, environment, locale, decimal context, streams, parser defaults, open files, "
        "threads, ...) and of the folders around it, while the audit events of the interpreter and the file events of the "
        "system are recorded; documents refer to other files by DTDs, entities, inclusions, style sheets and schema "
        "locations; distinct = distinct (operation, form of the document or kind of history, outcome)")
ASSUMPTIONS = ["nobody else uses the folders of the check", "modules of Python are loaded when they are needed"]
ASCII_SHARD = True
QUICK_S = 8.0
THOROUGH_S = 120.0
MIN_DISTINCT = 150

QUIET = Quiet()
SECRET = "canary8151623"


class World:
    """Folders and the process around one operation"""

    def __init__(self, top, audit):
        self.audit = audit
        self.top = top
        for name in ("in", "out", "cwd", "home", "tmp"):
            os.mkdir(os.path.join(top, name))
        self.source, self.out, self.cwd, self.home, self.tmp = (os.path.join(top, x) for x in ("in", "out", "cwd", "home", "tmp"))
        for folder in (self.source, self.out, self.cwd, self.home):
            self.put(folder, "secret.txt", SECRET)
            self.put(folder, "secret.dtd", f"<!ENTITY secret '{SECRET}'>\n<!ATTLIST SHORT-NAME T CDATA '{SECRET}'>\n")
            self.put(folder, "AUTOSAR_00051.xsd", "<not a schema")
            self.put(folder, "style.xsl", "<not a style sheet")
            self.put(folder, "other.arxml", wrap_file([], 51).replace("</AUTOSAR>", f"<!--{SECRET}--></AUTOSAR>"))
            for name in ("config.toml", "autosar.toml", "pyproject.toml", ".autosar"):
                self.put(folder, name, f"document_root = '{SECRET}'\n")
        self.watch = Watch([self.source, self.out, self.cwd, self.home, self.tmp])

    @staticmethod
    def put(folder, name, text):
        path = os.path.join(folder, name)
        with open(path, "w", encoding="utf-8", newline="") as fp:
            fp.write(text)
        return path

    def run(self, ctx, where, func, reads=(), writes=(), silent=True):
        """Runs func() and judges what happened around it; gives its result or its exception"""
        before = {k: v for k, v in folder_state(self.top).items() if os.path.join(self.top, k) not in writes}
        self.watch.events()
        result = error = None
        scratch, tempfile.tempdir = tempfile.tempdir, self.tmp
        here, home = os.getcwd(), os.environ.get("HOME")
        os.chdir(self.cwd)
        os.environ["HOME"] = self.home
        try:
            with xio.capture() as output:
                first = process_state()
                with self.audit:
                    try:
                        result = func()
                    except Violation:
                        raise
                    except Exception as ex:  # pylint: disable=W0718
                        error = ex
                second = process_state()
        finally:
            os.chdir(here)
            tempfile.tempdir = scratch
            os.environ.pop("HOME") if home is None else os.environ.update(HOME=home)
        changed = differences(first, second)
        if changed:
            raise Violation(f"state-{changed[0]}", f"{where} changes {', '.join(changed)}: {str(first[changed[0]])[:300]} -> "
                            f"{str(second[changed[0]])[:300]}")
        if silent and error is None and output.getvalue():
            raise Violation(f"prints-{where.split(' ')[0]}", f"{where} prints {output.getvalue()[:400]!r}")
        seen = self.watch.events()
        self.judge_events(where, reads, writes)
        for kind, path in seen:
            folder = os.path.dirname(path)
            if path in writes or folder == self.tmp or kind == "open" and path in reads:
                continue
            if folder == self.out and writes and not os.path.exists(path):
                continue  # an intermediate file
            if kind == "open" and os.path.isdir(path):
                continue
            raise Violation(f"touches-{kind}-{os.path.basename(folder)}", f"{where}: {kind} of {os.path.relpath(path, self.top)}")
        after = {k: v for k, v in folder_state(self.top).items() if os.path.join(self.top, k) not in writes}
        if after != before:
            names = sorted(k for k in {*before, *after} if before.get(k) != after.get(k))
            raise Violation(f"folder-{names[0].split('/')[0]}", f"{where} changes {names}")
        ctx.count("operations")
        ctx.count("audit_events", len(self.audit.events))
        ctx.count("file_events", len(seen))
        if self.watch.works:
            ctx.count("operations_with_file_events")
        return result, error

    def judge_events(self, where, reads, writes):
        folders = {os.path.dirname(x) for x in writes} | {self.tmp}
        for event, paths in self.audit.events:
            if paths is None:
                raise Violation(f"event-{event}", f"{where} causes {event}")
            for path in paths:
                if event == "read":
                    if path.startswith(self.top) and path not in reads and path not in writes and not path.startswith(self.tmp):
                        raise Violation("event-read", f"{where} reads {path}")
                    if not path.startswith(self.top) and not path.startswith((env.SRC, sys.prefix, sys.base_prefix, "/usr/", "/lib",
                                                                              "/opt/", "/proc/self/", "/dev/")):
                        raise Violation("event-read", f"{where} reads {path}")
                elif not any(path == x or path.startswith(x + "/") for x in folders):
                    raise Violation(f"event-{event}", f"{where}: {event} of {path}")


# ------------------------------------------------------------------------------------- operations

def forms(world, rng):
    """(name, head of the document, text inside, is it refused or harmless)"""
    folder = rng.choice([world.source, world.cwd, world.home])
    url = rng.choice([f"file://{folder}/", f"{folder}/", ""])
    return {
        "plain": ("", ""),
        "dtd": (f'<!DOCTYPE AUTOSAR SYSTEM "{url}secret.dtd">', ""),
        "public-dtd": (f'<!DOCTYPE AUTOSAR PUBLIC "-//X//Y" "{url}secret.dtd">', ""),
        "remote-dtd": ('<!DOCTYPE AUTOSAR SYSTEM "http://127.0.0.1:9/secret.dtd">', ""),
        "entity": (f'<!DOCTYPE AUTOSAR [<!ENTITY secret SYSTEM "{url}secret.txt">]>', "&secret;"),
        "unused-entity": (f'<!DOCTYPE AUTOSAR [<!ENTITY secret SYSTEM "{url}secret.txt">]>', ""),
        "dtd-entity": (f'<!DOCTYPE AUTOSAR SYSTEM "{url}secret.dtd">', "&secret;"),
        "parameter-entity": (f'<!DOCTYPE AUTOSAR [<!ENTITY % d SYSTEM "{url}secret.dtd"> %d;]>', rng.choice(["", "&secret;"])),
        "inclusion": ("", f'<xi:include xmlns:xi="http://www.w3.org/2001/XInclude" href="{url}secret.txt" parse="text"/>'),
        "style": (f'<?xml-stylesheet type="text/xsl" href="{url}style.xsl"?>', ""),
    }


def content(rng, least=0):
    ver = rng.choice(xio.VERSIONS)
    g = Gen(rng, density=rng.choice([0.2, 0.5]), depth=rng.choice([1, 2, 3]), ver=ver, hostile=0, breadth=2)
    return ver, [gen_package(g, 1, 4, [rng.choice(COLLECTABLE) for _ in range(3)], least) for _ in range(rng.randint(1, 2))]


def judge_read(ctx, rng, world, form=None):
    ver, packages = content(rng)
    text = wrap_file([p.node(ver) for p in packages], ver, pretty=rng.random() < 0.5)
    found = forms(world, rng)
    form = form or rng.choice(sorted(found))
    head, inside = found[form]
    mark, rest = text.split("\n", 1)
    text = mark + "\n" + head + rest
    if inside:
        text = text.replace("</SHORT-NAME>", f"</SHORT-NAME><CATEGORY>{inside}</CATEGORY>", 1)
    route = rng.choice(["file", "file", "string"])
    reader = Reader() if rng.random() < 0.7 else ar_xml.Reader(schema_version=ver)
    path = world.put(world.source, "in.arxml", text)
    with open(path, "rb") as fp:
        data = fp.read()
    name = path if rng.random() < 0.6 else os.path.relpath(path, world.cwd)
    call = (lambda: reader.read_file(name)) if route == "file" else (lambda: reader.read_str(text))
    document, error = world.run(ctx, f"read-{route} of {form}", call, reads=[path], silent=not inside)
    with open(path, "rb") as fp:
        if fp.read() != data:
            raise Violation("source-changed", f"reading {form} changes the file")
    if error is not None:
        if form in ("plain", "dtd", "unused-entity", "style"):
            raise Violation(f"refused-{form}", f"{type(error).__name__}: {error}", text)
        if SECRET in str(error):
            raise Violation(f"leak-{form}", str(error))
    elif SECRET in repr([picture(p) for p in document.packages]):
        raise Violation(f"leak-{form}", f"reading {form} gives the content of another file", text)
    elif not inside:
        check_packages(document.packages, packages, f"read-{form}")
    os.remove(path)
    ctx.case(f"read/{route}/{form}/{error is None}/{ver}", f"reading a document ({form}): "
             f"{'refused' if error is not None else 'read'}, only the file itself was opened")


def judge_write(ctx, rng, world):
    ver, packages = content(rng)
    document = ar_xml.Document([p.build(None) for p in packages], schema_version=ver)
    writer = Writer() if rng.random() < 0.5 else Writer(schema_version=ver)
    how = rng.choice(["file", "file", "string", "element", "fail"])
    path = os.path.join(world.out, "new.arxml")
    name = path if rng.random() < 0.5 else os.path.relpath(path, world.cwd)
    if rng.random() < 0.5:
        world.put(world.out, "new.arxml", rng.choice(["", "old", "<old/>\n" * rng.choice([20, 20000])]))
    elements = [e for p in document.packages for e in p.elements]
    if how == "fail" and elements:
        elements[-1].category = 7
    if how == "string":
        _, error = world.run(ctx, "write-string", lambda: writer.write_str(document))
    elif how == "element" and elements:
        _, error = world.run(ctx, "write-element", lambda: writer.write_file_elem(elements[0], name), writes=[path])
    else:
        _, error = world.run(ctx, f"write-{how}", lambda: writer.write_file(document, name), writes=[path])
    if error is not None and (how != "fail" or not elements):
        raise Violation(f"write-fails-{how}", f"{type(error).__name__}: {error}")
    if os.path.exists(path):
        os.remove(path)
    ctx.case(f"write/{how}/{error is None}/{ver}/{len(elements) > 0}/{name == path}")


def judge_workspace(ctx, rng, world):
    """Documents of a workspace, with a configuration file"""
    ver, packages = content(rng)
    names = [p.name for p in packages]
    if len(set(names)) < len(names):
        return
    root = world.out if rng.random() < 0.5 else os.path.relpath(world.out, world.cwd)
    lines = ["[document]"] + sum([[f"[document.D{i}]", f'packages = "/{x}"'] for i, x in enumerate(names)], [])
    lines += ["[namespace.Default]", 'base_ref = "/Base"', 'CompuMethod = "CompuMethods"',
              "[behavior]", 'init_event_prefix = "IT"']
    toml = world.put(world.source, "my.toml", "\n".join(lines) + "\n")
    how = rng.choice(["constructor", "load", "calls"])
    out = [os.path.join(world.out, f"D{i}.arxml") for i in range(len(names))]

    def work():
        ws = ar_xml.Workspace(toml) if how == "constructor" else ar_xml.Workspace()
        if how == "load":
            ws.load_config(toml)
        if how == "calls":
            for number, name in enumerate(names):
                ws.create_document(f"D{number}.arxml", "/" + name)
        for package in packages:
            ws.append(package.build(None))
        ws.create_package_map({"a": "Other/Deep"})
        ws.set_document_root(root)
        ws.write_documents(ver)
        return ws
    _, error = world.run(ctx, f"workspace-{how}", work, reads=[toml], writes=out)
    if error is not None:
        raise Violation(f"workspace-{how}-{type(error).__name__}", str(error))
    for path in out:
        if not os.path.exists(path):
            raise Violation("workspace-missing", f"{path} wasn't written")
        os.remove(path)
    os.remove(toml)
    ctx.case(f"workspace/{how}/{len(names)}/{os.path.isabs(root)}/{ver}")


def judge_missing(ctx, rng, world):
    """Files that don't exist"""
    what = rng.choice(["read", "config", "write"])
    if what == "write":
        _, packages = content(rng)
        document = ar_xml.Document([p.build(None) for p in packages])
        path = os.path.join(world.out, "missing", "a.arxml")
        call = lambda: Writer().write_file(document, path)  # noqa: E731
    else:
        path = os.path.join(world.source, rng.choice(["missing.arxml", "missing/a.arxml"]))
        call = (lambda: Reader().read_file(path)) if what == "read" else (lambda: ar_xml.Workspace(path))
    _, error = world.run(ctx, f"missing-{what}", call, reads=[path], writes=[path])
    if error is None:
        raise Violation(f"missing-{what}", "no error")
    ctx.case(f"missing/{what}/{path.count('/')}")


def judge_history(ctx, rng, world, kind):
    """The histories of other checks"""
    def work():
        if kind == "model":
            list(type_outputs(random.Random(rng.random())))
        else:
            HISTORIES[kind](QUIET, rng)
    try:
        _, error = world.run(ctx, f"history-{kind}", work, silent="bad" not in kind and kind != "broken")
    except Violation as ex:
        if not ex.key.startswith(("state-", "prints-", "touches-", "folder-", "event-")):
            ctx.count("failing_for_other_reasons")
            return
        raise
    if error is not None:
        ctx.count("failing_for_other_reasons")
        return
    ctx.case(f"history/{kind}/{len(world.audit.events) > 0}", f"{kind}: process and folders are as before")


IMPORT = """
import sys
sys.path[:0] = [{verif!r}]
import lxml.etree, cfile, tomllib, enum, abc, copy, collections.abc, posixpath, re, math
import importlib.util
spec = importlib.util.spec_from_file_location("state", {verif!r} + "/arv/state.py")
state = importlib.util.module_from_spec(spec)
spec.loader.exec_module(state)
sys.path.insert(0, {src!r})
audit = state.Audit()
before = state.process_state()
with audit:
    import autosar.xml, autosar.xml.workspace, autosar.model, autosar.model.implementation, autosar.generator.type_generator
after = state.process_state()
bad = state.differences(before, after)
bad += [str(x) for x in audit.events if x[0] != "read" or not x[1][0].startswith(({src!r}, sys.prefix, sys.base_prefix, "/usr", "/lib", "/opt"))]
sys.exit("changed: " + ", ".join(bad) if bad else 0)
"""


def judge_import(ctx, rng, world):  # pylint: disable=W0613
    """Loading the library"""
    before = folder_state(world.top)
    full = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", HOME=world.home, TMPDIR=world.tmp)
    proc = subprocess.run([env.PYTHON, "-c", IMPORT.format(verif=env.VERIF, src=env.SRC)], cwd=world.cwd, env=full,
                          capture_output=True, timeout=100, check=False)
    if proc.returncode or proc.stdout or proc.stderr:
        raise Violation("import", f"exit {proc.returncode}: {proc.stdout[-300:]!r} {proc.stderr[-600:]!r}")
    if folder_state(world.top) != before:
        raise Violation("import-folder", "loading the library changes files")
    ctx.count("imports")
    ctx.case("import")


def run(ctx):
    from checks import c13
    audit = Audit()

    def guarded(func, *args):
        with xio.scratch() as top:
            world = World(os.path.realpath(top), audit)
            try:
                ctx.guard(func, ctx, *args[:1], world, *args[1:])
            finally:
                world.watch.close()
    c13.OWN_PROCESS = False
    for index, _ in ctx.each("import", [0]):
        guarded(judge_import, ctx.rng("import", index))
    for index, form in ctx.each("forms", ["plain", "dtd", "public-dtd", "remote-dtd", "entity", "unused-entity", "dtd-entity",
                                          "parameter-entity", "inclusion", "style"] * 4):
        guarded(judge_read, ctx.rng("forms", index), form)
    for index, kind in ctx.each("kinds", [*sorted(HISTORIES), "model"]):
        guarded(judge_history, ctx.rng("kinds", index), kind)
    for _, rng in ctx.loop("read", 40, 0.2):
        guarded(judge_read, rng)
    for _, rng in ctx.loop("write", 40, 0.2):
        guarded(judge_write, rng)
    for _, rng in ctx.loop("workspace", 40, 0.2):
        guarded(judge_workspace, rng)
    for _, rng in ctx.loop("missing", 20, 0.05):
        guarded(judge_missing, rng)
    for _, rng in ctx.loop("history", 40, 0.3):
        guarded(judge_history, rng, rng.choice([*sorted(HISTORIES), "model"]))

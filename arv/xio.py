"""
Thin access to the public reading and writing interface, plus instance selection shared by checks.
"""
import contextlib
import io
import os
import random
import re
import shutil
import sys
import tempfile
import threading
from arv import env  # noqa: F401
from arv import model
from autosar.xml.writer import Writer
from autosar.xml.reader import Reader
from autosar.xml import Document  # noqa: F401

VERSIONS = (48, 49, 50, 51)
_LOCAL = threading.local()


class _ThreadOutput:
    """Standard stream that is a different one in each thread"""

    def __init__(self, stream):
        self.stream = stream

    def __getattr__(self, name):
        return getattr(getattr(_LOCAL, "stream", None) or self.stream, name)


@contextlib.contextmanager
def thread_output():
    """In here, what is printed can be captured by several threads at the same time"""
    before = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = _ThreadOutput(before[0]), _ThreadOutput(before[1])
    try:
        yield
    finally:
        sys.stdout, sys.stderr = before


@contextlib.contextmanager
def capture():
    """Everything that is printed"""
    stream = io.StringIO()
    if isinstance(sys.stderr, _ThreadOutput):
        before = getattr(_LOCAL, "stream", None)
        _LOCAL.stream = stream
        try:
            yield stream
        finally:
            _LOCAL.stream = before
    else:
        with contextlib.redirect_stderr(stream), contextlib.redirect_stdout(stream):
            yield stream


def write_elem(obj, spec, tag, ver=51, writer=None) -> str:
    writer = writer or Writer(schema_version=ver)
    if spec.takes_tag:
        return writer.write_str_elem(obj, tag)
    return writer.write_str_elem(obj)


def read_elem(text, spec, ver=51, reader=None):
    """Returns (object, what was printed on stderr)"""
    reader = reader or Reader(schema_version=ver)
    with capture() as err:
        res = reader.read_str_elem(text, spec.read_name) if spec.read_name else reader.read_str_elem(text)
    return res, err.getvalue()


def read_doc(text, reader=None, **kwargs):
    """Returns (document, messages)"""
    reader = reader or Reader()
    with capture() as err:
        res = reader.read_str(text, **kwargs)
    return res, err.getvalue()


def read_file(path, reader=None, **kwargs):
    reader = reader or Reader()
    with capture() as err:
        res = reader.read_file(path, **kwargs)
    return res, err.getvalue()


@contextlib.contextmanager
def scratch():
    """Private directory, removed afterwards"""
    path = tempfile.mkdtemp(prefix="arv-")
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


def disguise(rng, text, file=True):
    """
    (the same document in another outward form, label): encoding, XML declaration, line ends, prefix of the name space.
    Gives bytes for a file, a text otherwise
    """
    body = text.split("?>", 1)[1].lstrip("\n")
    label = []
    if rng.random() < 0.25:
        # all element names with a prefix
        prefix = rng.choice(["ar", "x", "AR-PACKAGE"])
        body = re.sub(r"<(/?)([A-Z])", rf"<\1{prefix}:\2", body)
        body = body.replace("xmlns=", f"xmlns:{prefix}=", 1)
        label.append("prefix")
    if rng.random() < 0.3:
        body = body.replace("xsi:", "i:").replace("xmlns:xsi=", "xmlns:i=", 1) if "xsi:" not in body.split(">", 1)[1] else body
        label.append("xsi")
    if rng.random() < 0.3:
        body = body.replace("\n", rng.choice(["\r\n", "\r"]))
        label.append("lines")
    quote = rng.choice("\"'")
    version = f"version={quote}1.0{quote}"
    alone = rng.choice(["", "", f" standalone={quote}{rng.choice(['yes', 'no'])}{quote}"])
    encoding = rng.choice(["utf-8", "UTF-8", "utf-16", "iso-8859-1", "us-ascii", "none", "none"])
    label.append(encoding + ("/alone" if alone else ""))
    if encoding == "none":
        head = rng.choice(["", f"<?xml {version}{alone}?>\n"])
        encoding = "utf-8"
    else:
        head = f"<?xml {version} encoding={quote}{encoding}{quote}{alone}?>{rng.choice(['', chr(10)])}"
    if not file:
        mark = "\ufeff" if rng.random() < 0.1 else ""
        return mark + head + body, "/".join(label)
    data = (head + body).encode(encoding, "xmlcharrefreplace")
    if encoding.lower() == "utf-8" and rng.random() < 0.2:
        data = b"\xef\xbb\xbf" + data
        label.append("mark")
    return data, "/".join(label)


class Lowest(random.Random):
    """Takes every choice that is made with some probability"""

    def random(self):
        return 0.0

    def getrandbits(self, k):
        return random.Random.getrandbits(self, k)


def special_tag(spec, g, tags):
    """(instance, tag) for the given spec"""
    tag = g.rng.choice(tags)
    if spec.name == "PortInCompositionTypeInstanceRef":
        return spec.gen_for(g, spec.is_provide(tag)), tag
    return spec.gen(g), tag


def single_member_instances(spec, make_gen):
    """
    For each optional member: instances with that member (with ordinary and boundary values) and the required ones
    only, and one with every member but that one
    """
    fix = spec.opts.get("fix")
    for kind in spec.members:
        if kind.attr in spec.required:
            continue
        for number, edge in enumerate([None, "zero", "zero", "zero", "one", "one", "many", "other"]):
            g = make_gen(f"{kind.attr}/{number}")
            if edge == "other":
                g.depth = 1
                g.full = True
                inst = spec.gen(g)
                if len(inst.vals) < 3 or inst.vals.pop(kind.attr, None) is None:
                    continue
            else:
                g.edge = edge
                if number % 2:
                    g.density, g.depth = 0.95, 1
                vals = {}
                for other in spec.members:
                    if other.attr in spec.required:
                        vals[other.attr] = other.gen(g)
                g.long = False
                vals[kind.attr] = kind.gen(g)
                # the order is irrelevant: node() follows spec.members
                inst = model.Inst(spec, vals)
            if fix:
                fix(inst, g)
            g.edge = None
            yield kind, inst, g


def make_dir(path):
    os.makedirs(path, exist_ok=True)
    return path


def public(obj):
    """Public attributes; what an object keeps for itself is no one's business"""
    for name, value in vars(obj).items():
        if not name.startswith("_"):
            yield name, value
        elif hasattr(type(obj), name.lstrip("_")):
            yield name.lstrip("_"), getattr(obj, name.lstrip("_"))

"""C26: independent uses of the library don't influence each other"""
import hashlib
import json
import os
import random
import sys
import threading
from arv import env, xio
import autosar.xml.exception as ar_exception
from arv.harness import Context, HarnessError, Violation
from arv.model import COLLECTABLE, SPECS, Enum, Gen, enum_members
from arv.xmltree import serialize
from checks import c03, c05, c07, c08, c09, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c24

RULE = ("two to four histories (of C03, C05, C07 to C09, C11 to C22, C24, each with workspaces, documents, readers and writers of "
        "its own) run in one process and are switched at calls and lines inside of the library, by a scheduler that draws the "
        "places; each is judged by its own reference model. What fails is repeated alone in a fresh process: it counts when "
        "it doesn't fail there. distinct = distinct (kinds of histories, place of the switch in the library)")
ASSUMPTIONS = ["each history has its own objects; objects shared by threads are not covered",
               "switches happen between lines of the library's code, not inside of built-in functions"]
ASCII_SHARD = True
QUICK_S = 12.0
THOROUGH_S = 200.0
MIN_DISTINCT = 400

WAIT_S = 120.0


class Quiet(Context):
    """For the histories: nothing is recorded, a violation ends the history"""

    def __init__(self):
        super().__init__("C26", 0, "quick", 0.0)

    def count(self, name, amount=1):
        pass

    def case(self, signature, sample=None):
        pass

    def violation(self, key, what, detail=None):
        raise Violation(key, what, detail)

    def guard(self, func, *args, **kwargs):
        func(*args, **kwargs)


def documents(ctx, rng):
    with xio.scratch() as directory:
        c03.judge(ctx, rng, directory)


def table_or_limits(ctx, rng):
    rng.choice([c21.judge_table, c21.judge_rational, c21.judge_constraint, c21.judge_limits])(ctx, rng)


def values(ctx, rng):
    rng.choice([c11.judge_good, c11.judge_objects, c11.judge_bad])(ctx, rng)


def broken(ctx, rng):
    with xio.scratch() as directory:
        rng.choice([c07.judge_unknown, c07.judge_unknown, c07.judge_corrupt, c07.judge_several, c07.judge_duplicate,
                    c07.judge_noise])(ctx, rng, directory)


PLACES = [(spec, kind) for spec in SPECS.values() for kind in spec.members if isinstance(kind, Enum)]


def enumerations(ctx, rng):
    """Values at their places, of one schema version"""
    up = c05.parents()
    ver = rng.choice(xio.VERSIONS)
    for _ in range(8):
        if rng.random() < 0.4 and ver == 48:
            c05.judge_unsupported(ctx, rng.choice(enum_members("ArrayImplPolicy")), 48)
            continue
        spec, kind = rng.choice(PLACES if rng.random() < 0.7 else [x for x in PLACES if x[1].enum_name == "ArrayImplPolicy"])
        if ver >= max(kind.since, c05.SINCE.get(kind.enum_name, 0)):
            c05.judge_place(ctx, spec, kind, rng.choice(enum_members(kind.enum_name)), ver, up, rng)


def policies(ctx, rng):
    """Array implementation policies exist in some schema versions only"""
    ver = rng.choice(xio.VERSIONS)
    spec = next(s for s in SPECS.values() if any(k.attr == "array_impl_policy" for k in s.members))
    for member in rng.sample(enum_members("ArrayImplPolicy"), 2):
        inst = c05.minimal(spec, Gen(rng, density=0, depth=2, ver=51, hostile=0))
        inst.vals["array_impl_policy"] = member
        try:
            obj, _ = xio.read_elem(serialize(inst.node(51, spec.tag)), spec, ver)
        except ar_exception.VersionError:
            obj = None
        known = obj is not None and obj.array_impl_policy is not None
        if known != (ver >= 49):
            raise Violation("policy-read", f"{member} {'is' if known else 'is not'} read at schema version {ver}")
        ctx.count("policies_read")


def references(ctx, rng):
    kinds = c09.member_kinds()
    for _ in range(6):
        spec, kind = rng.choice(kinds)
        c09.judge_member(ctx, spec, kind, rng)
        c09.judge_ref_of(ctx, SPECS[rng.choice(COLLECTABLE)], rng)


class NoCompiler:
    """Takes headers"""

    def __init__(self, folder):
        self.folder = folder

    def add(self, *args):
        pass


def header(ctx, rng):
    with xio.scratch() as directory:
        c19.judge(ctx, rng, NoCompiler(directory))


HISTORIES = {"enumerations": enumerations, "policies": policies, "references": references, "broken": broken, "header": header, "bad-reading": c24.judge_reader, "bad-templates": c12.judge_bad_templates,
             "bad-connectors": c15.judge_broken, "bad-limits": c21.judge_bad,
             "documents": documents, "tree": c08.history, "values": values, "namespaces": c12.judge_namespaces,
             "map": c12.judge_package_map, "templates": c12.judge_templates, "workspace": c13.judge, "ports": c14.judge_good,
             "bad-ports": c14.judge_bad, "connectors": c15.judge, "events": c16.judge, "accesses": c17.judge,
             "types": c18.judge, "members": c20.judge, "tables": table_or_limits, "writes": c22.judge_writes,
             "reads": c22.judge_reads}


def history(kind, seed):
    """Runs one to its end; None or the violation as (key, what, detail)"""
    try:
        HISTORIES[kind](Quiet(), random.Random(seed))
    except Violation as ex:
        return ex.key, ex.what, ex.detail
    except HarnessError:
        raise
    except Exception as ex:  # pylint: disable=W0718
        return f"exception-{type(ex).__name__}", f"{type(ex).__name__}: {ex}", None
    return None


class Fresh:
    """A process where nothing has happened yet; it has a child for each question"""

    def __init__(self):
        ask, self.ask = os.pipe()
        self.answer, answer = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.ask)
                os.close(self.answer)
                self.serve(ask, answer)
            finally:
                os._exit(0)
        os.close(ask)
        os.close(answer)
        self.ask = os.fdopen(self.ask, "w", encoding="utf-8")
        self.answer = os.fdopen(self.answer, "r", encoding="utf-8")

    @staticmethod
    def serve(ask, answer):
        with os.fdopen(ask, "r", encoding="utf-8") as source, os.fdopen(answer, "w", encoding="utf-8") as sink:
            for line in source:
                pid = os.fork()
                if pid == 0:
                    failed = history(*json.loads(line)) is not None
                    os._exit(1 if failed else 0)
                _, status = os.waitpid(pid, 0)
                sink.write("fails\n" if status else "holds\n")
                sink.flush()

    def fails(self, kind, seed):
        self.ask.write(json.dumps([kind, seed]) + "\n")
        self.ask.flush()
        return self.answer.readline() == "fails\n"

    def close(self):
        self.ask.close()
        self.answer.close()
        os.waitpid(self.pid, 0)


class Scheduler:
    """Only one of the threads runs; who goes on is drawn at calls and lines inside of the library"""

    def __init__(self, rng, work, rate, lines):
        self.rng = rng
        self.rate = rate
        self.lines = lines
        self.condition = threading.Condition()
        self.alive = list(range(len(work)))
        self.current = rng.choice(self.alive)
        self.results = [None] * len(work)
        self.switches = []
        self.points = 0
        self.next = self.draw()
        self.threads = [threading.Thread(target=self.run, args=(number, item), daemon=True) for number, item in enumerate(work)]

    def draw(self):
        """How many points pass until the next switch"""
        return self.points + 1 + int(self.rng.expovariate(self.rate))

    def trace(self, frame, event, arg):  # pylint: disable=W0613
        if not frame.f_code.co_filename.startswith(env.SRC):
            return None
        self.point(frame)
        return self.line if self.lines else None

    def line(self, frame, event, arg):  # pylint: disable=W0613
        if event == "line":
            self.point(frame)
        return self.line

    def point(self, frame):
        self.points += 1
        if self.points < self.next:
            return
        self.next = self.draw()
        others = [x for x in self.alive if x != self.current]
        if not others:
            return
        mine = self.current
        self.switches.append(f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}")
        self.hand_over(self.rng.choice(others))
        self.wait(mine)

    def hand_over(self, number):
        with self.condition:
            self.current = number
            self.condition.notify_all()

    def wait(self, number):
        with self.condition:
            if not self.condition.wait_for(lambda: self.current == number, WAIT_S):
                raise HarnessError("the scheduler lost a thread")

    def run(self, number, item):
        self.wait(number)
        sys.settrace(self.trace)
        try:
            self.results[number] = history(*item)
        except BaseException as ex:  # pylint: disable=W0718
            self.results[number] = ("harness", repr(ex), None)
        finally:
            sys.settrace(None)
            self.alive.remove(number)
            if self.alive:
                self.hand_over(self.rng.choice(self.alive))

    def play(self):
        with xio.thread_output():
            for thread in self.threads:
                thread.start()
            for thread in self.threads:
                thread.join(WAIT_S)
        if any(thread.is_alive() for thread in self.threads):
            raise HarnessError("a history doesn't end")


def judge(ctx, rng, fresh, kinds=None):
    count = rng.choice([2, 2, 3, 4])
    if kinds is None:
        kinds = [rng.choice(sorted(HISTORIES)) for _ in range(count)]
        if rng.random() < 0.4:
            kinds = [kinds[0]] * count
    first = str(rng.getrandbits(40))
    # the same history at the same time: all names are the same, all objects are others
    seeds = [first] * len(kinds) if rng.random() < 0.4 else [str(rng.getrandbits(40)) for _ in kinds]
    work = list(zip(kinds, seeds))
    lines = rng.random() < 0.3
    scheduler = Scheduler(rng, work, rng.choice([0.5, 0.1, 0.02, 0.005]) / (3 if lines else 1), lines)
    scheduler.play()
    for item, result in zip(work, scheduler.results):
        if result is None:
            continue
        if result[0] == "harness":
            raise HarnessError(result[1])
        if fresh.fails(*item):
            ctx.count("failing_alone")
            continue
        raise Violation(f"mixed-{item[0]}-{result[0]}", f"{item[0]}, together with {', '.join(kinds)}, holds alone and fails here: "
                        f"{result[1]}", result[2])
    ctx.count("histories", len(work))
    ctx.count("switches", len(scheduler.switches))
    ctx.count("points", scheduler.points)
    pair = "+".join(sorted(set(kinds)))
    sample = f"{pair}: {len(scheduler.switches)} switches at {scheduler.points} points"
    ctx.case(None if not scheduler.switches else
             "order/" + hashlib.sha1("".join(scheduler.switches).encode()).hexdigest()[:12], sample)
    for place in set(scheduler.switches):
        ctx.case(f"{pair if len(set(kinds)) < 3 else 'mix'}/{place}", sample)


def run(ctx):
    c13.OWN_PROCESS = False
    fresh = Fresh()
    try:
        for index, kind in ctx.each("twins", sorted(HISTORIES)):
            ctx.guard(judge, ctx, ctx.rng("twins", index), fresh, [kind, kind])
        for _, rng in ctx.loop("mixed", 40, 0.95):
            ctx.guard(judge, ctx, rng, fresh)
    finally:
        fresh.close()

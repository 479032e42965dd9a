"""
What belongs to the whole process and to the folders around it. Doesn't import the library.
"""
import atexit
import builtins
import ctypes
import decimal
import gc
import io
import locale
import logging
import os
import random
import resource
import signal
import socket
import struct
import sys
import tempfile
import threading
import time
import warnings


def process_state() -> dict:
    """State that an application owns and a library has to leave alone"""
    umask = os.umask(0o22)
    os.umask(umask)
    res = {
        "working-directory": os.getcwd(),
        "environment": dict(os.environ),
        "umask": umask,
        "locale": [locale.setlocale(x) for x in (locale.LC_CTYPE, locale.LC_NUMERIC, locale.LC_COLLATE, locale.LC_TIME,
                                                    locale.LC_MONETARY, locale.LC_MESSAGES)],
        "decimal-context": repr(decimal.getcontext()),
        "decimal-default": [repr(decimal.DefaultContext), repr(decimal.BasicContext)],
        "random": random.getstate(),
        "recursion-limit": sys.getrecursionlimit(),
        "switch-interval": sys.getswitchinterval(),
        "int-digits": sys.get_int_max_str_digits(),
        "import-path": list(sys.path),
        "streams": [id(x) for x in (sys.stdin, sys.stdout, sys.stderr)],
        "warning-filters": list(warnings.filters),
        "hooks": [id(x) for x in (sys.excepthook, sys.displayhook, warnings.showwarning, threading.excepthook)],
        "tracing": [sys.gettrace(), sys.getprofile()],
        "signals": {x: signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGPIPE, signal.SIGUSR1)},
        "threads": sorted(x.name for x in threading.enumerate()),
        "garbage-collector": [gc.isenabled(), gc.get_threshold(), gc.get_debug(), gc.get_freeze_count()],
        "at-exit": atexit._ncallbacks(),  # pylint: disable=W0212
        "builtins": sorted(dir(builtins)),
        "import-hooks": [len(sys.meta_path), len(sys.path_hooks)],
        "limits": [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_FSIZE, resource.RLIMIT_STACK)],
        "socket-timeout": socket.getdefaulttimeout(),
        "time-zone": time.tzname,
        "logging": [logging.getLogger().level, list(logging.getLogger().handlers), logging.root.manager.disable],
        "scratch-folder": tempfile.tempdir,
        "open-files": sorted(x for x in map(_target, os.listdir("/proc/self/fd")) if x),
        "priority": os.getpriority(os.PRIO_PROCESS, 0),
    }
    if "lxml.etree" in sys.modules:
        etree = sys.modules["lxml.etree"]
        root = etree.fromstring(b"<!DOCTYPE a [<!ENTITY e 'v'>]><a xmlns:x='urn:x'><!-- c --><x:b> &e;</x:b><?p q?></a>")
        res["xml-parser"] = etree.tostring(root)
        res["xml-names"] = etree.tostring(etree.Element("{http://autosar.org/schema/r4.0}A"))
    return res


def _target(number):
    try:
        return os.readlink(f"/proc/self/fd/{number}").split(":[")[0]
    except OSError:
        return None


def differences(before: dict, after: dict) -> list:
    """Names of what has changed"""
    return [key for key in before if before[key] != after.get(key)]


def folder_state(root) -> dict:
    """Names, kinds, modes, times and content of everything below a folder"""
    res = {}
    for folder, names, files in os.walk(root):
        for name in names + files:
            path = os.path.join(folder, name)
            info = os.lstat(path)
            data = None
            if name in files:
                with io.open(path, "rb") as fp:
                    data = fp.read()
            res[os.path.relpath(path, root)] = (info.st_mode, info.st_mtime_ns if data is not None else None, data)
    return res


# ------------------------------------------------------------------------------ events

CHANGES = {"os.remove": 1, "os.rename": 2, "os.mkdir": 1, "os.rmdir": 1, "os.link": 2, "os.symlink": 2, "os.chmod": 1, "os.chown": 1,
           "os.truncate": 1, "os.utime": 1, "shutil.rmtree": 1, "shutil.move": 2, "shutil.copyfile": 2,
           "shutil.copytree": 2, "os.mkfifo": 1, "os.setxattr": 1}
FORBIDDEN = ("socket.", "subprocess.", "os.system", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn", "os.spawn", "os.startfile",
             "os.chdir", "os.fchdir", "os.putenv", "os.unsetenv", "os.kill", "signal.pthread_kill", "urllib.", "ftplib.", "http.client", "smtplib.",
             "webbrowser.", "pty.", "syslog.", "winreg.", "resource.setrlimit", "sys.setprofile", "sys.settrace")


class Audit:
    """Events that the interpreter reports while something runs"""

    def __init__(self):
        self.active = False
        self.events = []
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if not self.active:
            return
        if event == "open":
            if isinstance(args[0], (str, bytes)):
                flags = args[2] if isinstance(args[2], int) else 0
                change = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
                if isinstance(args[1], str):
                    change = change or any(x in args[1] for x in "wax+")
                path = os.path.abspath(os.fsdecode(args[0]))
                if change or os.path.isfile(path):  # or is relative to another folder
                    self.events.append(("write" if change else "read", [path]))
        elif event in CHANGES:
            numbers = [x for x in args[1:] if isinstance(x, int) and not isinstance(x, bool) and x >= 0]
            base = os.readlink(f"/proc/self/fd/{numbers[-1]}") if event in ("os.remove", "os.rmdir", "os.mkdir") and numbers and \
                os.path.exists(f"/proc/self/fd/{numbers[-1]}") and event != "os.mkdir" else os.getcwd()
            paths = [os.path.normpath(os.path.join(base, os.fsdecode(x))) for x in args[:CHANGES[event]]
                     if isinstance(x, (str, bytes))]
            self.events.append((event, paths))
        elif event.startswith(FORBIDDEN):
            self.events.append((event, None))

    def __enter__(self):
        self.events = []
        self.active = True
        return self

    def __exit__(self, *args):
        self.active = False


class Watch:
    """What the system reports about folders, whoever is the cause (inotify)"""

    OPEN, MODIFY, ATTRIB, MOVED, CREATE, DELETE = 0x20, 0x2, 0x4, 0xC0, 0x100, 0x200

    def __init__(self, folders):
        self.folders = {}
        self.fd = -1
        try:
            libc = ctypes.CDLL(None, use_errno=True)
            self.fd = libc.inotify_init1(os.O_NONBLOCK | os.O_CLOEXEC)
            for path in folders:
                number = libc.inotify_add_watch(self.fd, os.fsencode(path),
                                                self.OPEN | self.MODIFY | self.ATTRIB | self.MOVED | self.CREATE | self.DELETE)
                if number >= 0:
                    self.folders[number] = path
        except (OSError, AttributeError):
            pass

    @property
    def works(self):
        return bool(self.folders)

    def events(self) -> list:
        """[("open" or "change", path)] since the last call"""
        res = []
        while self.fd >= 0:
            try:
                data = os.read(self.fd, 1 << 16)
            except (BlockingIOError, OSError):
                break
            at = 0
            while at < len(data):
                number, mask, _, size = struct.unpack_from("iIII", data, at)
                name = os.fsdecode(data[at + 16:at + 16 + size].rstrip(b"\0"))
                at += 16 + size
                if number in self.folders and not mask & 0x40000000 and name:
                    res.append(("open" if mask & self.OPEN else "change", os.path.join(self.folders[number], name)))
        return res

    def close(self):
        if self.fd >= 0:
            os.close(self.fd)

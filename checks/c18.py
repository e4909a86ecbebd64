"""C18: parsing is passive."""

import builtins
import contextlib
import datetime
import gc
import importlib
import io
import os
import random
import re
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import time
import warnings

from lib import core, gen, judge
from lib import wire as w

RULE = ("links full of paths, UNC names, environment variables, URLs, format strings and YAML tags "
        "in every text, random and damaged links, samples, parsed and reported in every way while "
        "an interpreter audit hook records every file, process, network, import and code event and "
        "snapshots of the process are compared before and after; main() on files: the only file "
        "opened is the named one, for reading; positive controls prove that the hook sees an "
        "open(), a lookup, a process and an import; non-trivial = new file watched")
ASSUMPTIONS = ["the codec asked for, all stages and all kinds of structures are used once before the watch "
               "(lazy imports are allowed, unless the contents of the file decide on them)",
               "main() has the interpreter's own imports behind it"]
MUST_SEE = {"executions watched": 900, "main() watched": 60, "controls seen": 18,
            "audit events": 1000, "texts compared": 400, "fresh processes": 4, "links parsed in fresh processes": 100, "large links": 36}

# Introspection every warning, exception and codec lookup goes through.
HARMLESS = {"sys._getframe", "sys._getframemodulename", "object.__getattr__", "object.__setattr__",
            "object.__delattr__", "builtins.id", "code.__new__", "sys.unraisablehook",
            "sys.excepthook", "gc.get_objects", "gc.get_referrers", "gc.get_referents",
            "cpython._PySys_ClearAuditHooks"}
EVENTS = []
ARMED = False
HOOKED = False

# Much which reaches out of the process raises no audit event (stat(), the environment, the
# clock, the user data base, randomness): calls into these modules are watched one by one.
OUTSIDE = {"posix", "_posixsubprocess", "pwd", "grp", "spwd", "_socket", "time", "_random", "_ctypes",
           "mmap", "select", "fcntl", "_signal", "signal", "resource", "termios", "readline", "syslog",
           "_locale", "_curses", "_ssl", "_sqlite3", "_dbm", "_multiprocessing", "_posixshmem",
           "faulthandler", "atexit", "_thread", "_queue", "_asyncio", "_tracemalloc"}
# Python code of the standard library which only wraps such things.
WRAPPERS = {"os", "subprocess", "socket", "pwd", "tempfile", "shutil", "random", "secrets", "uuid", "pathlib",
            "glob", "fnmatch", "getpass", "platform", "urllib", "http", "ssl", "smtplib", "ftplib", "asyncio",
            "multiprocessing", "threading", "concurrent", "ctypes", "webbrowser", "pickle", "shelve", "dbm",
            "sqlite3", "logging", "locale", "site", "runpy", "importlib", "zipfile", "tarfile", "configparser",
            "genericpath", "posixpath", "ntpath", "sysconfig", "gettext", "mimetypes", "zoneinfo", "netrc"}
PURE = {  # of those, what computes and nothing else
    "subprocess": {"list2cmdline"},
    "os": {"fspath", "_fspath", "fsencode", "fsdecode"},
    "posixpath": {"join", "split", "basename", "dirname", "normpath", "splitext", "isabs", "commonprefix",
                  "normcase", "_get_sep", "splitdrive", "splitroot", "commonpath"},
    "ntpath": {"join", "split", "basename", "dirname", "normpath", "splitext", "isabs", "commonprefix",
               "normcase", "splitdrive", "splitroot", "_get_bothseps", "commonpath"},
    "genericpath": {"_splitext", "_check_arg_types", "commonprefix"},
    "uuid": {"__init__", "__str__", "__repr__", "bytes", "bytes_le", "hex", "fields", "time_low", "time_mid",
             "time_hi_version", "clock_seq_hi_variant", "clock_seq_low", "clock_seq", "node", "urn", "variant",
             "version", "__eq__", "__lt__", "__hash__", "__int__", "__setattr__", "<genexpr>"},
    # every warning and every codec name goes through these
    "importlib": {"_handle_fromlist", "import_module", "_gcd_import", "_find_and_load", "_sanity_check", "_calc___package__",
                  "parent", "_resolve_name", "__init__", "__enter__", "__exit__"},
    "pathlib": set(), "glob": set(), "fnmatch": set(),
}
NOW = {"now", "today", "utcnow"}
TOOL = 4
CALLS = []


def watched_code(code):
    """The module when this is the code of a wrapper which is not known to be pure."""
    path = code.co_filename
    m = re.match(r"<frozen (\w+)", path)
    if m:
        name = m.group(1)
    elif path.startswith(STDLIB) and "site-packages" not in path:
        name = path[len(STDLIB) + 1 :].split(os.sep)[0].removesuffix(".py")
    else:
        return None
    if name not in WRAPPERS or code.co_name in PURE.get(name, ()):
        return None
    return name


# What configures the interpreter.
SETTERS = {("gc", n) for n in ("disable", "enable", "set_threshold", "freeze", "unfreeze", "set_debug")}
SETTERS |= {("_codecs", n) for n in ("register_error", "register", "unregister")}
SETTERS |= {("sys", n) for n in dir(sys) if n.startswith(("set", "add")) and callable(getattr(sys, n))}
SETTERS |= {("_locale", "setlocale"), ("_warnings", "_filters_mutated"), ("faulthandler", "enable"), ("atexit", "register")}


def started(code, offset):
    name = watched_code(code)
    if name is None:
        return sys.monitoring.DISABLE  # not of interest, now or later
    if ARMED and not reading_source(sys._getframe(1)):
        CALLS.append(("code", name + "." + code.co_qualname))


def called(code, offset, function, arg0):
    if isinstance(function, type(len)):
        module, name = function.__module__, function.__name__
        owner = function.__self__
        if isinstance(owner, type) and issubclass(owner, datetime.date) and name in NOW:
            pass  # the clock
        elif module is None and type(owner).__module__ in ("random", "_random"):
            module = "random"
        elif (module, name) in SETTERS:
            pass
        elif module not in OUTSIDE or name in ("fspath", "_path_splitroot_ex", "_path_normpath"):
            return
        if ARMED and not reading_source(sys._getframe(1)):
            CALLS.append(("call", f"{module or type(owner).__name__}.{name} in {code.co_name}"))


def reading_source(frame):
    """warnings and tracebacks may read the source of the line they are about, argparse may ask
    for the width of the terminal."""
    while frame is not None:
        path = frame.f_code.co_filename
        if path.startswith(STDLIB) and path.rpartition("/")[2] in (
                "linecache.py", "tokenize.py", "traceback.py", "argparse.py"):
            return True
        if path.startswith(core.REPO):
            return False
        frame = frame.f_back
    return False


# What main() does in order to read its file is judged by what it opens.
NOT_FOR_FILES = {"pwd", "grp", "_socket", "socket", "time", "random", "_random", "subprocess", "tempfile", "shutil",
                 "_posixsubprocess", "uuid", "secrets", "urllib", "http", "threading", "_thread", "signal", "_signal",
                 "pickle", "ctypes", "_ctypes", "datetime", "multiprocessing", "platform", "getpass", "webbrowser"}


STDLIB = os.path.dirname(os.__file__)


def start_monitoring():
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "verif")
    mon.register_callback(TOOL, mon.events.PY_START, started)
    mon.register_callback(TOOL, mon.events.CALL, called)


def hook(event, args):
    if ARMED:
        EVENTS.append((event, repr(args)[:300]))


@contextlib.contextmanager
def watch():
    global ARMED, HOOKED
    if not HOOKED:
        sys.addaudithook(hook)
        start_monitoring()
        HOOKED = True
    EVENTS.clear()
    CALLS.clear()
    mon = sys.monitoring
    mon.set_events(TOOL, mon.events.PY_START | mon.events.CALL)
    ARMED = True
    try:
        yield EVENTS
    finally:
        ARMED = False
        mon.set_events(TOOL, 0)


def linecache_only(event, args):
    """warnings and tracebacks may read the source of the line they are about."""
    return event == "open" and re.match(r"\('[^']*\.py', ('r'|'rb'|None), ", args)


def world():
    """What an execution must leave as it was."""
    with contextlib.suppress(OSError):
        fds = {}
        for f in os.listdir("/proc/self/fd"):
            with contextlib.suppress(OSError):
                fds[f] = os.readlink("/proc/self/fd/" + f)
    # the directory listing's own descriptor
    fds = {k: v for k, v in fds.items() if not v.startswith("/proc/")}
    return {
        "working directory": os.getcwd(), "environment": dict(os.environ),
        "sys.path": list(sys.path), "sys.argv": list(sys.argv),
        "modules": set(sys.modules), "filters": list(warnings.filters),
        "showwarning": warnings.showwarning, "handlers": [
            signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE)],
        "descriptors": fds, "threads": threading.active_count(),
        "children": open("/proc/self/task/%d/children" % os.getpid()).read(),
        "umask": umask(), "time zone": (time.tzname, os.environ.get("TZ")),
        "builtins": {k: id(v) for k, v in builtins.__dict__.items() if k != "_"},
        "recursion limit": sys.getrecursionlimit(), "gc": gc.isenabled(),
        "int digits": sys.get_int_max_str_digits(), "stdout": id(sys.stdout), "stderr": id(sys.stderr),
        "hooks": (id(sys.excepthook), id(sys.displayhook)), "trace": (sys.gettrace(), sys.getprofile()),
        "locale": __import__("locale").setlocale(__import__("locale").LC_ALL),
        "files": sorted(os.listdir(os.getcwd())),
    }


def umask():
    with open("/proc/self/status") as f:
        return re.search(r"Umask:\s*(\d+)", f.read()).group(1)


EVIL = [
    "C:\\Windows\\System32\\cmd.exe", "\\\\127.0.0.1\\share\\x.lnk", "\\\\attacker@80\\dav\\x", "http://127.0.0.1/x",
    "file:///etc/passwd", "/etc/passwd", "../../../../etc/passwd", "%WINDIR%\\%PATH%", "$(touch pwned)",
    "`touch pwned`", "; touch pwned;", "!!python/object/apply:os.system ['touch pwned']",
    "!!python/object/new:os.system [touch pwned]", "__import__('os').system('touch pwned')",
    "{0.__class__.__mro__}", "%s%s%n", "{}", "~", "$HOME", "|touch pwned", "*", "?", "\x1b]0;x\x07", "pwned", "-t", "@file",
    "~root\\x", "~/x", "~root/x", "${HOME}/x", "$USER", "%USERNAME%\\x", "%HOME%", "%PATH%", "$PATH", "/tmp", ".", "..",
    "now", "today", "rot13", "zlib", "idna", "cp1140", "mac_turkish", "hz", "ptcp154", "antigravity", "this", "os.path", "http://[::1]:1/", "\\\\?\\pipe\\x", "/dev/tcp/127.0.0.1/1",
]


# Numbers of code pages Python knows, most of which nobody uses.
PAGES = [37, 273, 424, 437, 500, 720, 737, 775, 850, 852, 855, 856, 857, 858, 860, 861, 862, 863, 864, 865, 866, 869, 874,
         875, 932, 949, 950, 1006, 1026, 1125, 1140, 1250, 1252, 1254, 1256, 1257, 1258, 1361, 10000, 20127, 20866, 21866,
         28605, 50220, 50225, 51932, 51949, 52936, 54936, 65000, 65001]
WARM = set()


def warm(cp):
    """What Python does once: lazy imports, codecs, for every kind of structure.  The links which
    are watched are not among these, so what is done because of their contents shows."""
    cp = cp or "cp1252"
    if cp in WARM:
        return
    r = gen.rng_for("C18", "warm", cp)
    links = list(judge.load_samples().values()) if not WARM else []
    WARM.add(cp)
    for k in gen.ITEM_KINDS:
        links.append(w.build(items=[gen.item(r, cp, k)], info=gen.info(r, cp)).data)
    for k in gen.BLOCK_KINDS:
        if k == "codepage":
            continue
        links.append(w.build(blocks=[gen.block(r, cp, k)], tail=b"abcdefgh", info=gen.info(r, cp), unicode_=False,
                             strings=gen.strings(r, cp, False)).data)
    links.append(w.build(blocks=[w.block_codepage(1252)]).data)
    links += [gen.mutate(r, links[-k]) for k in range(1, 25) for _ in range(2)]
    for data in links:
        if len(data) >= 76:
            core.observe(MOD, data, core.STAGES, cp=cp)


def evil(r, cp):
    """A link with hostile texts wherever there is a text."""
    t = lambda: r.choice(EVIL)
    a = lambda n=80: t().encode("ascii")[:n]
    uni = r.random() < 0.5
    items = [w.item_root(0x50, gen.guid(r)), w.item_volume(0x2F, a(19), cp),
             w.item_file(0x32, 1, 0, 0, 0, a(), cp), w.item_file(0x36, 1, 0, 0, 0, t().encode("utf-16le"), cp),
             w.item_network(0x41, 0xC0, a(), a(), a(), cp), w.item_cpl(1, a(), a(), a(), False, cp),
             w.item_cpl(1, t(), t(), t(), True, cp),
             w.item_users_files(w.item_file(0x32, 1, 0, 0, 0, a(), cp), gen.guid(r), gen.guid(r)),
             gen.item(r, cp, "unknown")]
    r.shuffle(items)
    if r.random() < 0.5:
        info = w.link_info(cp, (w.volume_id(3, 1, a(), cp), a()), None, a(), base_u=t(), suffix_u=t())
    else:
        info = w.link_info(cp, None, w.network_link(a(), a(), 0x20000, cp, t(), t()), a())
    strings = {k: w.string_data(k, t() if uni else a(), uni, cp) for _, k in w.STRINGS}
    blocks = [w.block_environment(a(), t(), cp), w.block_icon(a(), t(), cp), w.block_console(b"", t()[:30]),
              w.block_tracker(a(15), [gen.guid(r)] * 4, cp), w.block_shim(t()[:60]),
              w.block_codepage(r.choice(PAGES)), w.block_special_folder(r.choice(PAGES), 0),
              w.block_darwin(gen.guid(r), "F", gen.guid(r), cp, a()),
              w.block_property_store([w.property_storage(w.STRING_NAMED, [w.property_value(t(), 0x1F, t())])]),
              w.block_idlist(items[:3]), w.block_unknown(0xA0000000, a())]
    return w.build(gen.header_fields(r), items, info, strings, blocks, uni, tail=a())


def big(r, n, where):
    """A link of n bytes and more."""
    if where == "beyond":
        return beyond(r, n)
    blocks, tail = [w.block_tracker(b"m", [gen.guid(r)] * 4, "cp1252")], b""
    if where == "tail":
        tail = gen.rbytes(r, n)
    elif where == "unknown":
        blocks.append(w.block_unknown(0xA000000A, gen.rbytes(r, n)))
    elif where == "blocks":
        blocks += [w.block_unknown(0x100 + i, b"payload!") for i in range(min(n, 1100000) // 16)]
    elif where == "text":
        blocks.append(w.block_shim("C:\\x" * (n // 8)))
    return w.build(gen.header_fields(r), [gen.item(r, "cp1252", "file", maxlen=20)], None,
                   gen.strings(r, "cp1252", True), blocks, tail=tail)


def beyond(r, n):
    """Appended data which are links themselves."""
    one = gen.link(r, maxlen=20).data
    return w.build(items=[gen.item(r, "cp1252", "file")], tail=(one * (n // len(one) + 1)))


def bad_events(events):
    return [e for e in events if e[0] not in HARMLESS and not linecache_only(*e)] + CALLS


def bad_in_main(events, opened):
    return [e for e in bad_events(events) if e not in opened
            and (e[0] not in ("code", "call") or e[1].split(".")[0] in NOT_FOR_FILES)]


def watched(rec, data, cp, source="indata", exp=None):
    warm(cp)
    before = world()
    out, err = io.StringIO(), io.StringIO()
    old = sys.stdout, sys.stderr
    shown = None
    sys.stdout, sys.stderr = out, err
    try:
        with warnings.catch_warnings(record=True):
            warnings.simplefilter("always")
            with watch() as events:
                try:
                    kw = {"fhandle": io.BytesIO(data)} if source == "fhandle" else {"indata": data}
                    lnk = MOD.lnk_file(cp=cp, **kw)
                    report = lnk.get_json(True)
                    lnk.get_json()
                    lnk.lnk_command
                    shown = out.getvalue() + err.getvalue()
                    lnk.print_json(True)
                    lnk.print_lnk_file(True)
                    lnk.print_shortcut_target()
                except Exception as e:
                    shown = shown or ""
                    exc = e
                else:
                    exc = None
    finally:
        sys.stdout, sys.stderr = old
    after = world()
    rec.seen("audit events", len(events))
    for e, _ in events:
        rec.state("kinds of audit events", e)
    rec.seen("executions watched")
    rec.ok(data)
    if exc is not None:
        rec.violation(f"raises {type(exc).__name__}: {exc}", data, {"cp": cp})
        return
    bad = bad_events(events)
    if bad:
        rec.violation(f"{len(bad)} events while parsing, the first one: {bad[0]}", data, {"cp": cp})
        return
    if shown:
        rec.violation("parsing printed " + core.short(shown), data, {"cp": cp})
        return
    if err.getvalue():
        rec.violation("wrote to stderr: " + core.short(err.getvalue()), data, {"cp": cp})
        return
    for k in before:
        if before[k] != after[k]:
            rec.violation(f"{k} changed: {core.short(before[k])} -> {core.short(after[k])}", data, {"cp": cp})
            return
    if exp is not None:  # and the texts come from the file alone
        rec.seen("texts compared")
        d = core.differs(exp, report)
        if d:
            rec.violation("not what the file says: " + d, data, {"cp": cp})


class Stub:
    """An input which may only be read."""

    def __init__(self, rec, data):
        self.data, self.calls = data, []
        self.b = io.BytesIO(data)

    def __bool__(self):
        return True

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self.calls.append(name)
        return getattr(self.b, name)


def handle(rec, r):
    """The handle passed in is read, never closed, written or truncated."""
    b = gen.link(r, maxlen=20)
    s = Stub(rec, b.data)
    with warnings.catch_warnings(record=True):
        lnk = MOD.lnk_file(fhandle=s)
        lnk.get_json(True)
    rec.ok(b.data)
    odd = set(s.calls) - {"read", "seek", "tell", "readable", "seekable", "readinto", "read1"}
    rec.seen("handles watched")
    if odd:
        rec.violation(f"the handle was used for {sorted(odd)}", b.data)
    if s.b.closed:
        rec.violation("the handle was closed", b.data)


def by_main(rec, r, data):
    """main() on a file in a scratch directory."""
    warm("cp1252")
    warm("cp932")
    opts = r.choice([[], ["-j"], ["-t"], ["-a"], ["-j", "-a"], ["-t", "-j"], ["-c", "cp932"]])
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, r.choice(["x.lnk", "a b.lnk", "%TEMP%.lnk", "ž.lnk"]))
        with open(path, "wb") as f:
            f.write(data)
        os.chmod(path, 0o444)
        stat = os.stat(path)
        here, argv, old = os.getcwd(), sys.argv, (sys.stdout, sys.stderr)
        arg = r.choice([path, os.path.basename(path)])
        os.chdir(d)
        sys.argv = ["lnkparse", arg] + opts
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        exc = None
        try:
            with warnings.catch_warnings(record=True):
                warnings.simplefilter("always")
                with watch() as events:
                    try:
                        importlib.import_module("LnkParse3.lnk_file").main()
                    except BaseException as e:
                        exc = e
            events = list(events)
        finally:
            sys.argv = argv
            sys.stdout, sys.stderr = old
            os.chdir(here)
        files = os.listdir(d)
        now = os.stat(path)
        with open(path, "rb") as f:
            same = f.read() == data
    rec.seen("main() watched")
    rec.seen("audit events", len(events))
    rec.ok(data)
    if exc is not None:
        rec.violation(f"main() {opts} raises {type(exc).__name__}: {exc}", data)
        return
    opened = [e for e in events if e[0] == "open" and (repr(arg) in e[1] or repr(path) in e[1])]
    flags = [int(re.search(r"(\d+)\)$", e[1]).group(1)) for e in opened]
    bad = bad_in_main(events, opened)
    if bad:
        rec.violation(f"main() {opts}: {len(bad)} events, the first one: {bad[0]}", data)
    elif not opened or any(f & ~os.O_CLOEXEC for f in flags):
        rec.violation(f"main() {opts} opens its file as {opened}", data)
    elif files != [os.path.basename(path)] or not same or (stat.st_mtime_ns, stat.st_mode, stat.st_size) != (
            now.st_mtime_ns, now.st_mode, now.st_size):
        rec.violation(f"main() {opts} changed the directory of its file: {files}", data)


FRESH = """
import sys
sys.dont_write_bytecode = True
sys.path[:0] = [%(repo)r, %(verif)r]
import contextlib, io, types, warnings
import argparse, codecs, collections, copy, datetime, decimal, encodings, enum, functools, hashlib, itertools, json, \
    json.decoder, json.encoder, json.scanner, locale, ntpath, operator, os, pickle, posixpath, random, re, string, struct, \
    subprocess, tempfile, textwrap, traceback, uuid, yaml, yaml.constructor, yaml.dumper, yaml.emitter, yaml.representer, \
    yaml.resolver, yaml.serializer
from lib import gen, judge
from lib import wire as w

OURS = ("LnkParse3", "lib", "__main__")
PLAIN = (int, str, bytes, bool, type(None), tuple, frozenset)
# What the interpreter and these modules keep for themselves.
OWN = {"re._cache", "re._cache2", "sys.last_exc", "warnings._filters_version", "sys.modules", "sys.path_importer_cache",
       "os.environ", "functools.__builtins__", "re.copyreg", "locale.encodings", "encodings._cache", "linecache.cache", "linecache._interactive_cache"}


def picture():
    # What all modules but ours hold, shallowly: names, classes' attributes, entries of containers.
    out = {}
    def note(key, v):
        if isinstance(v, types.ModuleType) or key in OWN or type(v).__name__ in ("_lru_cache_wrapper", "getset_descriptor"):
            return
        if isinstance(v, float):
            v = repr(v)
        out[key] = (id(v), v) if not isinstance(v, PLAIN) else (v, v)
        if type(v) is dict:
            out[key + "{}"] = ([(id(k) if not isinstance(k, PLAIN) else k, id(x)) for k, x in v.items()], dict(v))
        elif type(v) is list:
            out[key + "[]"] = ([id(x) for x in v], list(v))
        elif type(v) is set:
            out[key + "()"] = ({id(x) for x in v}, set(v))
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] in OURS or not isinstance(m, types.ModuleType):
            continue
        for k, v in list(vars(m).items()):
            if k in ("__warningregistry__", "__builtins__"):
                continue
            note(name + "." + k, v)
            if isinstance(v, type) and str(v.__module__).split(".")[0] not in OURS:
                for a, x in list(vars(v).items()):
                    if a not in ("__abstractmethods__", "__weakref__", "__dict__") and not a.startswith("_abc"):
                        note(name + "." + k + "." + a, x)
    return out


def answers():
    a = [1]
    doc = {"b": [a, a], "a": "x: y", "t": datetime.datetime(2020, 1, 2, tzinfo=datetime.timezone.utc), "s": "l1\\nl2 ",
           "u": "ž", "n": None, "f": 1.5, "on": "on"}
    enc = {k: str(v) for k, v in doc.items()}
    with warnings.catch_warnings(record=True) as caught:
        warnings.warn("x")
        warnings.warn("y", DeprecationWarning)
    r = [yaml.dump(doc), yaml.safe_dump(doc), yaml.dump(collections.OrderedDict(b=1, a=2)), yaml.safe_load("a: 2020-01-01\\nb: yes"),
         json.dumps(enc), json.dumps({"b": 1, "a": "ž"}), json.loads("[1.5, NaN, {}]"), str(decimal.Decimal(1) / 3),
         textwrap.indent("a\\n\\nb", "-"), textwrap.wrap("a b" * 50), subprocess.list2cmdline(["a b", 'c"']), repr(caught and len(caught)),
         "\\udc80".encode("utf-8", "surrogateescape"), b"\\xff".decode("latin-1"), locale.setlocale(locale.LC_ALL), repr(1e16),
         codecs.lookup_error("replace") is codecs.replace_errors, codecs.lookup_error("strict") is codecs.strict_errors]
    for what in (lambda: yaml.safe_dump({1: {2}}), lambda: json.dumps(datetime.datetime(2020, 1, 1)), lambda: b"\\xff".decode("ascii"),
                 lambda: yaml.safe_dump(datetime.timedelta(1)), lambda: "ž".encode("cp1252" if 0 else "ascii")):
        try:
            r.append(what())
        except Exception as e:
            r.append(type(e).__name__)
    return r + settings()


def settings():
    import gc
    return [gc.isenabled(), gc.get_threshold(), gc.get_freeze_count(), gc.get_debug(), len(gc.callbacks), sys.getswitchinterval(),
            sys.get_int_max_str_digits(), sys.getrecursionlimit(), [str(f) for f in warnings.filters], sys.dont_write_bytecode,
            [[str(f.encoding), f.errors, f.line_buffering, f.write_through, f.newlines] for f in (sys.__stdout__, sys.__stderr__, sys.__stdin__, OUT)],
            sorted(k for k, m in sys.modules.items() if k.split(".")[0] not in OURS and isinstance(m, types.ModuleType)
                   and m.__spec__ is not None and m.__spec__.name != k and k != "os.path" and k not in KNOWN)]


OUT = io.TextIOWrapper(io.BytesIO(), encoding="utf-8", newline="\\n")
KNOWN = set(sys.modules)
answers()
argv = list(sys.argv)
with tempfile.TemporaryDirectory():
    pass
before, said = picture(), answers()
modules = set(sys.modules)
import LnkParse3
import LnkParse3.lnk_file
r = gen.rng_for("C18", %(seed)r, "fresh", %(k)r)
links = list(judge.load_samples().values()) if %(k)r == 0 else []
links += [gen.link(r, maxlen=30).data for _ in range(15)] + [gen.mutate(r, gen.link(r)) for _ in range(15)]
links += [w.build(items=[gen.item(r, "cp1252", kind)]).data for kind in gen.ITEM_KINDS]
links += [w.build(blocks=[gen.block(r, "cp1252", kind)]).data for kind in gen.BLOCK_KINDS]
n = 0
os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
with contextlib.redirect_stdout(OUT):
    for data in links:
        try:
            lnk = LnkParse3.lnk_file(indata=data, cp=r.choice(["cp1252", "cp932", "utf-8"]))
        except Exception:
            continue
        n += 1
        lnk.get_json(True); lnk.get_json(); lnk.lnk_command
        lnk.print_json(True); lnk.print_lnk_file(True); lnk.print_shortcut_target(True)
    with tempfile.TemporaryDirectory() as d:
        with open(d + "/x", "wb") as f:
            f.write(links[0])
        sys.argv[:] = ["x", d + "/x"]
        sys.modules["LnkParse3.lnk_file"].main()
        sys.argv[:] = argv
now = answers()
for i, (x, y) in enumerate(zip(said, now)):
    if x != y:
        print("CHANGED answer %%d: %%r, before %%r" %% (i, y, x))
after = picture()
for key in before:
    if key not in after:
        print("CHANGED", key, "is gone")
    elif before[key][0] != after[key][0]:
        print("CHANGED", key, repr(before[key][1])[:200], "->", repr(after[key][1])[:200])
for key in after:
    if key not in before and key.split(".")[0] in {m.split(".")[0] for m in modules} and any(key.startswith(m + ".") for m in modules):
        mod = max((m for m in sys.modules if key.startswith(m + ".")), key=len)
        if mod in modules:
            print("CHANGED", key, "is new:", repr(after[key][1])[:200])
print("DONE", n, len(before))
"""


def fresh(rec, k):
    """What other code of the process meets afterwards: in a process of its own, from before the import."""
    code = FRESH % {"repo": core.REPO, "verif": core.VERIF, "seed": rec.seed, "k": k}
    p = subprocess.run([sys.executable, "-B", "-c", code], stdin=subprocess.DEVNULL, capture_output=True, timeout=120,
                       env={**os.environ, "VERIF_REPO": core.REPO, "PYTHONUTF8": "1"})
    out = p.stdout.decode("utf-8", "replace")
    changed = [l for l in out.splitlines() if l.startswith("CHANGED")]
    done = [l.split() for l in out.splitlines() if l.startswith("DONE")]
    if not done:
        rec.notes.append("no picture: " + p.stderr.decode("utf-8", "replace")[-600:])
        return
    rec.seen("fresh processes")
    rec.seen("links parsed in fresh processes", int(done[0][1]))
    rec.maximum("values of other modules compared", int(done[0][2]))
    rec.ok(("fresh", k))
    if changed:
        rec.violation(f"{len(changed)} changes of other modules, the first ones: {changed[:8]}")


def controls(rec):
    """The hook is not blind."""
    def look(name, call, event):
        with watch() as ev:
            with contextlib.suppress(Exception):
                call()
        if any(e[0].startswith(event) for e in bad_events(ev)):
            rec.seen("controls seen")
        else:
            rec.notes.append("control not seen: " + name)
        rec.state("controls", name)
    look("open", lambda: open("/dev/null", "rb").close(), "open")
    look("lookup", lambda: socket.getaddrinfo("127.0.0.1", 1), "socket")
    look("process", lambda: subprocess.run(["/bin/true"]), "subprocess")
    look("import", lambda: __import__("this_module_does_not_exist"), "import")
    look("eval", lambda: eval("1 + 1"), "compile")
    look("directory", lambda: os.listdir("/"), "os.listdir")
    look("stat", lambda: os.stat("/"), "call")
    look("existence", lambda: os.path.exists("/nothing"), "c")
    look("home", lambda: os.path.expanduser("~"), "code")
    look("variables", lambda: os.path.expandvars("$HOME"), "code")
    look("environment", lambda: os.environ.get("HOME"), "code")
    look("user", lambda: __import__("pwd").getpwuid(0), "call")
    look("clock", lambda: time.time(), "call")
    look("date", lambda: datetime.datetime.now(), "call")
    look("date in UTC", lambda: datetime.datetime.now(datetime.timezone.utc), "call")
    look("chance", lambda: random.random(), "call")
    look("write", lambda: os.write(2, b""), "call")
    look("thread", lambda: threading.Thread(target=int).start(), "c")
    rec.ok("controls")


DIRECTED = {"top": 1 << 20}


def link(rec, r, b, cp):
    watched(rec, b.data, cp, r.choice(["indata", "fhandle"]), b.exp)


def cases(tier, seed):
    quick = tier == "quick"
    for k in range(8):  # for every worker
        yield f"controls{k}", controls
    for k in range(4 if quick else 60):
        yield f"fresh{k}", lambda rec, k=k: fresh(rec, k)
    samples = judge.load_samples()
    for name, data in samples.items():
        for cp in (None, "cp932"):
            yield f"sample-{name}-{cp}", lambda rec, d=data, cp=cp: watched(rec, d, cp)
        yield f"main-{name}", lambda rec, d=data, n=name: by_main(rec, gen.rng_for("C18", seed, n), d)
    for i in range(500 if quick else 12000):
        def one(rec, i=i):
            r = gen.rng_for("C18", seed, "e", i)
            cp = r.choice(gen.CODEPAGES)
            b = evil(r, cp)
            watched(rec, b.data, cp, r.choice(["indata", "fhandle"]), b.exp)
        yield f"evil{i}", one
    corpus = list(samples.values())
    for i in range(500 if quick else 20000):
        def two(rec, i=i):
            r = gen.rng_for("C18", seed, "m", i)
            data = gen.mutate(r, evil(r, "cp1252") if r.random() < 0.5 else gen.link(r), corpus)
            if len(data) >= 76:
                watched(rec, data, r.choice([None, "cp1252", "cp932"]))
        yield f"mutant{i}", two
    for i in range(100 if quick else 2000):
        def three(rec, i=i):
            r = gen.rng_for("C18", seed, "main", i)
            by_main(rec, r, evil(r, "cp1252").data if r.random() < 0.6 else gen.mutate(r, gen.link(r), corpus).ljust(76, b"\0"))
        yield f"main{i}", three
    sizes = [70000, 300000, 1100000, 4300000] + ([] if quick else [17000000, 68000000])
    for n in sizes:
        for where in ("tail", "unknown", "blocks", "text", "beyond"):
            for way in ("indata", "fhandle", "main"):
                if where in ("text", "blocks") and quick and (n > 300000 or (n == 300000 and way != "indata")):
                    continue  # slow when watched
                def large(rec, n=n, where=where, way=way):
                    r = gen.rng_for("C18", seed, "large", n, where)
                    b = big(r, n, where)
                    rec.maximum("bytes of a link", len(b.data))
                    rec.seen("large links")
                    if way == "main":
                        by_main(rec, r, b.data)
                    else:
                        watched(rec, b.data, "cp1252", way, b.exp)
                yield f"large-{n}-{where}-{way}", large
    for i in range(50 if quick else 500):
        yield f"handle{i}", lambda rec, i=i: handle(rec, gen.rng_for("C18", seed, "h", i))


PARALLEL = True

"""C24: how the bytes of a link are handed over makes no difference."""

import bz2
import contextlib
import gzip
import hashlib
import io
import lzma
import mmap
import os
import socket
import subprocess
import sys
import tarfile
import tempfile
import threading
import zipfile

from lib import core, gen, judge
from lib import wire as w

RULE = ("links, damaged links, samples and data too short for a link, of 0 bytes to 3 MB, handed over "
        "as data and by some twenty kinds of binary handles (memory, files buffered and not, pipes "
        "and sockets fed in pieces, compressed members, archives, maps, objects which can only "
        "read), by handles which fail at first, in buffers used again afterwards, at their start or behind other bytes, by position or keyword, and to the tool as "
        "files, links to files, pipes and devices; every report, text, size and warning compared "
        "with those of the plain data; non-trivial = new pair of data and carrier")
ASSUMPTIONS = ["a handle is a binary one whose read() returns all that is left"]
MUST_SEE = {"carriers": 27, "handed over": 1500, "too short": 100, "behind other bytes": 200,
            "more than a pipe holds": 20, "handles left open": 1000, "tool": 12,
            "buffers used again": 250, "failing handles": 250}
PARALLEL = True
STAGES = ("json_all", "json", "pjson_all", "text_all", "target", "jtarget")


class Sub(bytes):
    """Data of a class of its own."""


class Reader:
    """The least a handle can be; keeps a record of what it was asked."""

    def __init__(self, data):
        self.data, self.asked = data, []

    def read(self, n=-1):
        self.asked.append(n)
        if n is None or n < 0:
            n = len(self.data)
        out, self.data = self.data[:n], self.data[n:]
        return out


def feed(write, close, data, r):
    """Writes the data in pieces, as a thread."""
    def work():
        pos = 0
        while pos < len(data):
            n = r.choice([1, 7, 76, 1000, 65536, len(data)])
            try:
                write(data[pos : pos + n])
            except OSError:
                break
            pos += n
        close()
    t = threading.Thread(target=work)
    t.start()
    return t


@contextlib.contextmanager
def file_with(data):
    fd, path = tempfile.mkstemp(prefix="verif-c24-")
    try:
        with os.fdopen(fd, "wb") as f:
            f.write(data)
        yield path
    finally:
        os.unlink(path)


@contextlib.contextmanager
def opened(data, mode="rb", **kw):
    with file_with(data) as path, open(path, mode, **kw) as f:
        yield f


def memory(data, r):
    return contextlib.nullcontext(io.BytesIO(data))


def only_read(data, r):
    return contextlib.nullcontext(Reader(data))


def buffered(data, r):
    return opened(data, buffering=r.choice([-1, 2, 16, 8192]))


def raw(data, r):
    return opened(data, buffering=0)


def random_access(data, r):
    return opened(data, "r+b")


@contextlib.contextmanager
def temporary(data, r):
    with tempfile.TemporaryFile() as f:
        f.write(data)
        f.seek(0)
        yield f


@contextlib.contextmanager
def named(data, r):
    with tempfile.NamedTemporaryFile(prefix="verif-c24-") as f:
        f.write(data)
        f.flush()
        f.seek(0)
        yield f


@contextlib.contextmanager
def spooled(data, r):
    with tempfile.SpooledTemporaryFile(max_size=r.choice([1, 1 << 30])) as f:
        f.write(data)
        f.seek(0)
        yield f


@contextlib.contextmanager
def pipe(data, r, buffering=-1):
    a, b = os.pipe()
    t = None
    with os.fdopen(a, "rb", buffering) as f:
        t = feed(lambda d, b=b: [d := d[os.write(b, d):] for _ in iter(lambda: bool(d), False)],
                 lambda b=b: os.close(b), data, r)
        try:
            yield f
        finally:
            with contextlib.suppress(Exception):
                f.read()
            t.join()


def raw_pipe(data, r):
    return pipe(data, r, 0)


@contextlib.contextmanager
def sock(data, r):
    a, b = socket.socketpair()
    t = feed(b.sendall, b.close, data, r)
    with a, a.makefile("rb") as f:
        try:
            yield f
        finally:
            with contextlib.suppress(Exception):
                f.read()
            t.join()


@contextlib.contextmanager
def process(data, r):
    with file_with(data) as path:
        p = subprocess.Popen(["cat", path], stdout=subprocess.PIPE)
        with p:
            yield p.stdout
            p.stdout.read()


@contextlib.contextmanager
def gz(data, r):
    with gzip.open(io.BytesIO(gzip.compress(data, 1))) as f:
        yield f


@contextlib.contextmanager
def bz(data, r):
    with bz2.open(io.BytesIO(bz2.compress(data, 1))) as f:
        yield f


@contextlib.contextmanager
def xz(data, r):
    with lzma.open(io.BytesIO(lzma.compress(data, preset=0))) as f:
        yield f


@contextlib.contextmanager
def zipped(data, r):
    box = io.BytesIO()
    with zipfile.ZipFile(box, "w", r.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
        z.writestr("other", b"other")
        z.writestr("a.lnk", data)
    with zipfile.ZipFile(box) as z, z.open("a.lnk") as f:
        yield f


@contextlib.contextmanager
def tarred(data, r):
    box = io.BytesIO()
    with tarfile.open(fileobj=box, mode="w") as t:
        for name, d in (("other", b"other"), ("a.lnk", data), ("more", b"more")):
            i = tarfile.TarInfo(name)
            i.size = len(d)
            t.addfile(i, io.BytesIO(d))
    box.seek(0)
    with tarfile.open(fileobj=box) as t:
        yield t.extractfile("a.lnk")


@contextlib.contextmanager
def mapped(data, r):
    with mmap.mmap(-1, len(data)) as m:
        m.write(data)
        m.seek(0)
        yield m


@contextlib.contextmanager
def mapped_file(data, r):
    with opened(data) as f, mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ) as m:
        yield m


def over(data, r):
    return contextlib.nullcontext(io.BufferedReader(io.BytesIO(data), r.choice([1, 16, 8192])))


class Short(io.RawIOBase):
    """A raw stream which returns as little as it may."""

    def __init__(self, data, r):
        self.data, self.r, self.pos = data, r, 0

    def readable(self):
        return True

    def readinto(self, buf):
        n = min(len(buf), self.r.choice([1, 3, 76, 4096]), len(self.data) - self.pos)
        buf[:n] = self.data[self.pos : self.pos + n]
        self.pos += n
        return n


def short_reads(data, r):
    return contextlib.nullcontext(Short(data, r))


def short_buffered(data, r):
    return contextlib.nullcontext(io.BufferedReader(Short(data, r), r.choice([1, 100, 8192])))


HANDLES = [memory, only_read, buffered, raw, random_access, temporary, named, spooled, pipe, raw_pipe,
           sock, gz, bz, xz, zipped, tarred, mapped, mapped_file, over, short_reads, short_buffered,
           process]


def digest(o):
    h = hashlib.sha256()
    for x in (repr(o.json_all), repr(o.json), o.pjson_all, o.text_all, o.target, o.jtarget, repr(o.warnings), o.size):
        h.update(repr(x).encode("utf-8", "surrogatepass"))
    return h.hexdigest()


class Hand:
    """Stands for the module: core.observe hands the data over through it."""

    def __init__(self, make):
        self.make = make

    def lnk_file(self, indata, **kw):
        return self.make(kw)


def look(make, data, kw):
    return core.observe(Hand(make), data, STAGES, **kw)


def judged(rec, name, data, kw, ref, o):
    rec.state("carriers", name.split(" behind ")[0])
    rec.seen("handed over")
    if len(data) > 65536:
        rec.seen("more than a pipe holds")
    rec.ok((name, hashlib.sha256(data).digest()))
    if ref.exc is not None:
        rec.seen("too short")
        if o.exc is None or type(o.exc) is not type(ref.exc):
            rec.violation(f"{name}: {o.exc!r}, as plain data {ref.exc!r}", data, kw)
            return False
        return True
    if o.exc is not None:
        rec.violation(f"{name}: {o.problem()}", data, kw, trace=o.trace)
        return False
    if digest(o) != digest(ref):
        d = core.differs(ref.json_all, o.json_all) or f"warnings {o.warnings} / {ref.warnings}"
        rec.violation(f"{name}: another report than for the plain data: {d}", data, kw)
        return False
    return True


def deliver(rec, r, data, kw, ref, carrier):
    """The same data through one kind of handle."""
    name = carrier.__name__
    if carrier in (mapped, mapped_file) and not data:
        return True
    before = gen.rbytes(r, r.choice([1, 4, 76, 200, 5000])) if r.random() < 0.3 else b""
    with carrier(before + data, r) as f:
        if before:
            rec.seen("behind other bytes")
            left = len(before)
            while left:
                left -= len(f.read(left))
        how = r.randrange(3)
        if how == 0:
            make = lambda kw: MOD.lnk_file(f, **kw)
        elif how == 1:
            make = lambda kw: MOD.lnk_file(fhandle=f, **kw)
        else:
            make = lambda kw: MOD.lnk_file(fhandle=f, indata=None, **kw)
        o = look(make, data, kw)
        if not judged(rec, name + (f" behind {len(before)} bytes" if before else ""), data, kw, ref, o):
            return False
        if getattr(f, "closed", False):
            rec.violation(f"{name}: the handle is closed", data, kw)
            return False
        rec.seen("handles left open")
        rest = f.read()
        if rest:
            rec.violation(f"{name}: {len(rest)} bytes are left on the handle", data, kw)
            return False
        if isinstance(f, Reader) and (len(f.asked) - 1 - bool(before)) > 4:
            rec.seen("many reads")
    return True


def data_for(r, i, corpus):
    k = i % 8
    if k == 0:
        return gen.rbytes(r, r.choice([0, 1, 4, 75])) if r.random() < 0.5 else gen.link(r).data[: r.randrange(76)]
    if k == 1:
        return r.choice(corpus)
    if k == 2:
        return gen.mutate(r, gen.link(r, maxlen=30), corpus)
    if k == 3:
        n = r.choice([65535, 65536, 65537, 70000, 200000, 3 << 20 if r.random() < 0.3 else 100000])
        return w.build(gen.header_fields(r), strings=gen.strings(r, "cp1252", True), blocks=[gen.block(r, "cp1252")],
                       tail=gen.rbytes(r, n - 1) + b"\1").data
    if k == 4:  # what trims, text modes and line ends would change
        t = r.choice([b"\0" * 5, b"\0\0", b"\xff\0", b"\r\n", b"\x1a", b"\n", b"   ", b"\xff\xfe", b"\xef\xbb\xbf"])
        return w.build(gen.header_fields(r), strings=gen.strings(r, "cp1252", False), unicode_=False,
                       blocks=[w.block_unknown(0xBEEF, t * r.randrange(1, 4))], tail=t * r.randrange(1, 5)).data
    return gen.link(r, maxlen=60).data


def reused(rec, r, data, kw, ref):
    """The owner of a buffer fills it with something else before the reports are made."""
    buf = bytearray(data)

    def make(kw):
        lnk = MOD.lnk_file(indata=buf, **kw)
        new = bytes(b ^ 0xFF for b in buf) if r.random() < 0.5 else bytes(len(buf))
        buf[:] = new[: r.choice([0, 10, 76, len(buf)])] if r.random() < 0.3 else new
        return lnk
    rec.seen("buffers used again")
    return judged(rec, "a bytearray used for something else afterwards", data, kw, ref, look(make, data, kw))


class Failing:
    """A handle which fails a few times before it reads."""

    def __init__(self, data, errors):
        self.data, self.errors = data, list(errors)

    def read(self, n=-1):
        if self.errors:
            raise self.errors.pop(0)
        return self.data


class Odd(Exception):
    """An error of the handle's own."""


def failing(rec, r, data, kw, ref):
    """What a handle raises is the caller's to see, and does not stick."""
    errors = [r.choice([OSError(5, "Input/output error"), TimeoutError("timed out"), EOFError("no end mark"), Odd("x"),
                        PermissionError(13, "no"), ValueError("closed"), MemoryError(), KeyboardInterrupt(),
                        BlockingIOError(11, "again"), UnicodeDecodeError("utf-8", b"\xff", 0, 1, "no")])
              for _ in range(r.randrange(1, 3))]
    f = Failing(data, errors)
    for e in errors:
        rec.seen("failing handles")
        with core.warnings.catch_warnings():
            core.warnings.simplefilter("ignore")
            try:
                got = MOD.lnk_file(f, **kw)
            except BaseException as x:
                got = x
        if got is not e:
            rec.violation(f"a handle failing with {e!r}: {got!r}", data, kw)
            return False
    return judged(rec, "a handle which failed before", data, kw, ref, look(lambda kw: MOD.lnk_file(f, **kw), data, kw))


def run(rec, r, i, corpus):
    data = data_for(r, i, corpus)
    kw = judge.kwargs(r.choice([None, "cp1252", "cp932", "utf-8"]), r.random() < 0.7)
    ref = look(lambda kw: MOD.lnk_file(indata=data, **kw), data, kw)
    if ref.exc is not None and len(data) >= 76:
        rec.violation(ref.problem(), data, kw, trace=ref.trace)
        return
    o = look(lambda kw: MOD.lnk_file(indata=Sub(data), **kw), data, kw)
    if not judged(rec, "bytes of a class of their own", data, kw, ref, o):
        return
    loose = bytearray(data)
    o = look(lambda kw: MOD.lnk_file(indata=loose, **kw), data, kw)
    if not judged(rec, "a bytearray", data, kw, ref, o):
        return
    if loose != data:
        rec.violation("a bytearray handed over was altered", data, kw)
        return
    if ref.exc is None:
        if not reused(rec, r, data, kw, ref):
            return
    if not failing(rec, r, data, kw, ref):
        return
    o = look(lambda kw: MOD.lnk_file(None, data, **kw), data, kw)
    if not judged(rec, "data by position", data, kw, ref, o):
        return
    o = look(lambda kw: MOD.lnk_file(None, data, kw.get("cp"), kw.get("allow_terminal_blocks", True)), data, kw)
    if not judged(rec, "everything by position", data, kw, ref, o):
        return
    o = look(lambda kw: MOD.lnk_file(fhandle=None, indata=data, cp=kw.get("cp"), allow_terminal_blocks=kw.get("allow_terminal_blocks", True)), data, kw)
    if not judged(rec, "everything by keyword", data, kw, ref, o):
        return
    some = r.sample(HANDLES[:-1], 7)
    if i % 20 == 5:
        some.append(process)
    for carrier in some:
        if not deliver(rec, r, data, kw, ref, carrier):
            return


def exhausted(rec, r):
    """A handle which has nothing left, and one read link after link."""
    b = gen.link(r)
    f = io.BytesIO(b.data)
    ref = core.observe(MOD, b"", ())
    MOD_first = look(lambda kw: MOD.lnk_file(f), b.data, {})
    again = look(lambda kw: MOD.lnk_file(f), b"", {})
    if MOD_first.exc is not None or type(again.exc) is not type(ref.exc):
        rec.violation(f"an exhausted handle: {again.exc!r}", b.data)
    rec.ok(("exhausted", b.data))
    # The handle may be closed and the data dropped before the reports are made.
    with core.warnings.catch_warnings():
        core.warnings.simplefilter("ignore")
        with file_with(b.data) as path, open(path, "rb") as f:
            lnk = MOD.lnk_file(f, allow_terminal_blocks=b.allow)
        d = core.differs(b.exp, lnk.get_json(True))
    if d:
        rec.violation("after the file was closed and deleted: " + d, b.data)


def tool(rec, r, n):
    """The tool with the same file behind several names."""
    b = gen.link(r, maxlen=40)
    args = r.choice([[], ["-j"], ["-a"], ["-t"], ["-j", "-a"]])
    env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONWARNINGS="ignore", PYTHONIOENCODING="utf-8")

    def call(path, **kw):
        p = subprocess.run([sys.executable, "-B", "-m", "LnkParse3.lnk_file", *args, path], env=env,
                           capture_output=True, timeout=60, **kw)
        return p.returncode, p.stdout
    with tempfile.TemporaryDirectory(prefix="verif-c24-") as d:
        plain = os.path.join(d, "a.lnk")
        with open(plain, "wb") as f:
            f.write(b.data)
        os.chmod(plain, 0o400)
        want = call(plain)
        link, hard, deep, fifo = (os.path.join(d, x) for x in ("s.lnk", "h", "x y/ž", "fifo"))
        os.symlink("a.lnk", link)
        os.link(plain, hard)
        os.makedirs(deep)
        with open(os.path.join(deep, "no extension"), "wb") as f:
            f.write(b.data)
        os.mkfifo(fifo)

        def by_fifo():
            t = threading.Thread(target=lambda: open(fifo, "wb").write(b.data))
            t.daemon = True
            t.start()
            out = call(fifo)
            t.join(5)
            return out

        def by_stdin():
            with open(plain, "rb") as f:
                return call("/dev/stdin", stdin=f)
        ways = {"a symbolic link": lambda: call(link), "a hard link": lambda: call(hard),
                "a relative name": lambda: call("a.lnk", cwd=d), "another name": lambda: call(os.path.join(deep, "no extension")),
                "a named pipe": by_fifo, "a pipe": lambda: call("/dev/fd/0", input=b.data), "standard input": by_stdin}
        for way in r.sample(list(ways), n):
            if way in ("a pipe", "standard input") and not os.path.exists("/dev/fd"):
                continue
            got = ways[way]()
            rec.seen("tool")
            rec.state("carriers", "tool: " + way)
            rec.ok((way, b.data))
            if got != want or want[0] != 0:
                rec.violation(f"the tool with {way}: exit code {got[0]}, {len(got[1])} bytes; with the file "
                              f"{want[0]}, {len(want[1])} bytes", b.data, {"args": args})
                return


DIRECTED = {"top": 1 << 23}


def link(rec, r, b, cp):
    kw = judge.kwargs(r.choice([None, cp]), b.allow)
    ref = look(lambda kw: MOD.lnk_file(indata=b.data, **kw), b.data, kw)
    if ref.exc is not None:
        rec.violation(ref.problem(), b.data, kw, trace=ref.trace)
        return
    o = look(lambda kw: MOD.lnk_file(indata=bytearray(b.data), **kw), b.data, kw)
    if not judged(rec, "a bytearray", b.data, kw, ref, o):
        return
    for carrier in r.sample(HANDLES[:-1], 3):
        if not deliver(rec, r, b.data, kw, ref, carrier):
            return


def cases(tier, seed):
    corpus = list(judge.load_samples().values())
    for i in range(320 if tier == "quick" else 16000):
        yield f"data{i}", lambda rec, i=i: run(rec, gen.rng_for("C24", seed, i), i, corpus)
    for i in range(40 if tier == "quick" else 400):
        yield f"exhausted{i}", lambda rec, i=i: exhausted(rec, gen.rng_for("C24", seed, "e", i))
    for i in range(3 if tier == "quick" else 60):
        yield f"tool{i}", lambda rec, i=i: tool(rec, gen.rng_for("C24", seed, "t", i), 7)

"""C02: work, memory and output stay in proportion to the file."""

import contextlib
import gc
import io
import random
import sys
import time
import tracemalloc
import warnings

from lib import core, gen, judge
from lib import wire as w

RULE = ("families of files which repeat or overlap one kind of structure (items, blocks, storages, "
        "values, long texts, long runs of one thing in texts, offsets to the same bytes, sizes which lead nowhere), each in growing "
        "sizes, random and damaged links; counted while the real code runs: every line and jump of "
        "Python executed (sys.monitoring), the bytes sliced out of the input (an input which counts), "
        "the peak of allocated memory (tracemalloc), the characters of the reports, processor time; "
        "four times the file may cost at most six times the work, and never more than a fixed "
        "multiple of its size; processor time of parsing and one report over files of up to megabytes: "
        "four times the file takes at most eight times as long; memory and objects which stay after links "
        "were released do not grow with their number; non-trivial = new file measured")
ASSUMPTIONS = ["the multiples are four to ten times of what the unchanged tree needs"]
MUST_SEE = {"measurements": 250, "families": 40, "growth steps": 90, "steps timed": 150,
            "steps judged by time": 40, "links released": 2000}

# per byte of the file, and flat
LINES = (4000, 400000)
COPIED = (100, 100000)
PEAK = (6000, 16 << 20)
OUTPUT = (260, 40000)
SECONDS = (400e-6, 5.0)
GROWTH = 6.0


class Counted(bytes):
    """Bytes which know how much was sliced out of them."""

    copied = 0

    def __getitem__(self, k):
        if isinstance(k, slice):
            part = bytes.__getitem__(self, k)
            Counted.copied += len(part)
            return Counted(part)
        return bytes.__getitem__(self, k)


class Meter:
    def __init__(self):
        self.n = 0
        m = sys.monitoring
        self.tool = next(t for t in (4, 3, 2) if m.get_tool(t) is None)
        m.use_tool_id(self.tool, "verif-meter")

        def tick(*args):
            self.n += 1
        for e in (m.events.LINE, m.events.JUMP):
            m.register_callback(self.tool, e, tick)

    def __enter__(self):
        self.n = 0
        sys.monitoring.set_events(self.tool, sys.monitoring.events.LINE | sys.monitoring.events.JUMP)
        return self

    def __exit__(self, *args):
        sys.monitoring.set_events(self.tool, 0)

    def close(self):
        for e in (sys.monitoring.events.LINE, sys.monitoring.events.JUMP):
            sys.monitoring.register_callback(self.tool, e, None)
        sys.monitoring.free_tool_id(self.tool)


def execute(data, cp):
    """Parse and report in every form; the characters put out."""
    out = io.StringIO()
    lnk = MOD.lnk_file(indata=data, cp=cp)
    lnk.get_json(True)
    with contextlib.redirect_stdout(out):
        lnk.print_json(True)
        lnk.print_lnk_file(True)
        lnk.print_shortcut_target()
    return len(out.getvalue())


def measure(rec, data, cp="cp1252", memory=True, timeout=120):
    """(lines, copied, peak, output, seconds), None when it did not get to its end."""
    meter = Meter()
    out = peak = 0
    try:
        with warnings.catch_warnings(record=True):
            warnings.simplefilter("always")
            with core.watchdog(timeout):
                t = time.process_time()
                execute(data, cp)
                seconds = time.process_time() - t
                Counted.copied = 0
                counted = Counted(data)
                with meter:
                    out = execute(counted, cp)
                copied = Counted.copied
                if memory:
                    gc.collect()
                    tracemalloc.start()
                    try:
                        execute(data, cp)
                        peak = tracemalloc.get_traced_memory()[1]
                    finally:
                        tracemalloc.stop()
    except core.Hang:
        rec.violation(f"{len(data)} bytes: no end in {timeout} s", data[:65536])
        return None
    except Exception as e:
        rec.violation(f"{len(data)} bytes: {type(e).__name__}: {e}", data[:65536])
        return None
    finally:
        meter.close()
    rec.seen("measurements")
    rec.seen("lines counted", meter.n)
    rec.seen("bytes counted", copied)
    return meter.n, copied, peak, out, seconds


def spent(data, cp, timeout):
    """Processor time of parsing and one report, what C code does included."""
    gc.collect()
    gc.disable()
    try:
        with core.watchdog(timeout):
            t = time.process_time()
            lnk = MOD.lnk_file(indata=data, cp=cp)
            lnk.get_json(True)
            lnk.lnk_command
            return time.process_time() - t
    finally:
        gc.enable()


def clock(rec, what, make, budget, cp="cp1252", limit=4 << 20):
    """Work which shows in no line of Python: lists, texts and bytes copied again and again.
    Four times the file may take eight times the processor time, judged where it takes long."""
    before = None
    n = 4000
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        while n <= limit:
            data = make(n)
            if before and len(data) < 1.5 * len(before[0]):
                break  # as long as it gets
            try:
                t = spent(data, cp, 120)
                if before:
                    k = len(data) / len(before[0])
                    a = before[1]
                    for _ in range(5):
                        if t < 0.1 or t <= 2 * k * max(a, 0.005):
                            break
                        a = max(a, min(spent(before[0], cp, 120) for _ in range(3)))
                        t = min(t, spent(data, cp, 120))
                    rec.seen("steps timed")
                    if t > 0.1:
                        rec.seen("steps judged by time")
                        rec.maximum("growth of processor time over growth of the file", t / max(a, 0.005) / k)
                        if t > 2 * k * max(a, 0.005):
                            rec.violation(f"{what}: {len(before[0])} -> {len(data)} bytes, processor time "
                                          f"{a:.4f} -> {t:.4f} s", data[:65536])
                            return
            except core.Hang:
                rec.violation(f"{what}: {len(data)} bytes: no end in 120 s", data[:65536])
                return
            except Exception as e:
                rec.violation(f"{what}: {len(data)} bytes: {type(e).__name__}: {e}", data[:65536])
                return
            rec.ok((what, "time", n))
            before = data, t
            n *= 4
            if t * 4 > budget:
                break


NAMES = ("lines and jumps", "bytes copied", "bytes of memory", "characters put out", "seconds")
BUDGETS = (LINES, COPIED, PEAK, OUTPUT, SECONDS)


def within(rec, what, data, m):
    for name, (per, flat), v in zip(NAMES, BUDGETS, m):
        rec.maximum(name + " per byte beyond the flat part", max(0, v - flat) / len(data))
        rec.maximum(name + " per byte, share of the budget", v / (per * len(data) + flat))
        if v > per * len(data) + flat:
            rec.violation(f"{what}: {len(data)} bytes take {v:.6g} {name}", data[:65536])
            return False
    return True


def grow(rec, what, make, sizes, cp="cp1252"):
    before = None
    rec.state("families", what)
    for n in sizes:
        data = make(n)
        if before and len(data) < 1.5 * before[0]:
            continue  # as long as it gets
        m = measure(rec, data, cp)
        if m is None:
            return
        rec.ok((what, n), {"family": what, "bytes": len(data), **dict(zip(NAMES, m))} if n == sizes[-1] else None)
        if not within(rec, what, data, m):
            return
        if before:
            rec.seen("growth steps")
            k = len(data) / before[0]
            for name, (per, flat), a, b in list(zip(NAMES, BUDGETS, before[1], m))[:4]:
                # what is flat does not say anything about growth
                if b > flat / 20 and b > max(a, flat / 100) * k * GROWTH / 4:
                    rec.violation(f"{what}: {before[0]} -> {len(data)} bytes, {name} {a} -> {b}", data[:65536])
                    return
                rec.maximum("growth of " + name + " over growth of the file", b / max(a, flat / 100, 1) / k)
        before = len(data), m


def idlist(items, total):
    raw = b""
    one = [i.raw for i in items]
    k = 0
    size = 0
    out = []
    while size + len(one[k % len(one)]) <= total:
        out.append(one[k % len(one)])
        size += len(out[-1])
        k += 1
    return b"".join(out) + w.u16(0)


def in_target(items):
    def make(n):
        raw = idlist(items, min(n, 65000))
        return w.header(link_flags=1)[0] + w.u16(len(raw)) + raw + w.u32(0)
    return make


def in_block(items):
    def make(n):
        raw = idlist(items, n)
        return w.header()[0] + w.u32(len(raw) + 8) + w.u32(0xA000000C) + raw + w.u32(0)
    return make


def blocks(*bs):
    def make(n):
        out, size, k = [], 0, 0
        while size < n:
            out.append(bs[k % len(bs)].raw)
            size += len(out[-1])
            k += 1
        return w.header()[0] + b"".join(out) + w.u32(0)
    return make


def one_block(sig, body):
    def make(n):
        b = body(n)
        return w.header()[0] + w.u32(len(b) + 8) + w.u32(sig) + b + w.u32(0)
    return make


def repeated(piece, lead=b"", end=b""):
    return lambda n: lead + piece * (n // len(piece)) + end


def string_link(piece, unicode_, keys=("command_line_arguments", "icon_location")):
    def make(n):
        raw = (piece * (n // len(piece) + 1))[: n - n % 4]
        count = len(raw) // (2 if unicode_ else 1)
        count = min(count, 65535)
        raw = raw[: count * (2 if unicode_ else 1)]
        return w.build(strings={k: w.Part("string", w.u16(count) + raw, None, None, 2, name=k) for k in keys},
                       unicode_=unicode_).data
    return make


def overlapping_info(unicode_, network):
    """All the offsets of LinkInfo lead to the same long text."""
    def make(n):
        text = b"a" * n if not unicode_ else b"a\0" * (n // 2)
        end = b"\0\0\0"
        if network:
            o = 0x24 + 0x1C
            inner = w.u32(0x1C + n) + w.u32(3) + w.u32(0x1C) + w.u32(0x1C) + w.u32(0x20000) + w.u32(0x1C) + w.u32(0x1C)
            flags = 2
        else:
            o = 0x24 + 0x14
            inner = w.u32(0x14 + n) + w.u32(3) + w.u32(1) + w.u32(0x14) + w.u32(0x14)
            flags = 1
        raw = w.u32(0x24) + w.u32(flags) + w.u32(0x24) + w.u32(o) + w.u32(0x24 if network else 0) + w.u32(o) + w.u32(o) + w.u32(o)
        raw += inner + text + end
        return w.header(link_flags=2)[0] + w.u32(len(raw) + 4) + raw + w.u32(0)
    return make


def cpl(unicode_):
    def make(n):
        n = min(n, 60000)
        body = b"\0\0" + w.u32(1) + (b"\0" * 12 if unicode_ else b"") + w.u16(0) + w.u16(1) + (b"a\0" * (n // 2) if unicode_ else b"a" * n) + b"\0\0"
        raw = w.u16(len(body) + 2) + body + w.u16(0)
        return w.header(link_flags=1)[0] + w.u16(len(raw)) + raw + w.u32(0)
    return make


def storage_raw(values, fmt=b"\x01" * 16):
    s = w.u32(0x53505331) + fmt + values + w.u32(0)
    return w.u32(len(s) + 4) + s


def families():
    A = "cp1252"
    G = bytes(range(16))
    r = gen.Rng("C02/families")
    kinds = {k: gen.item(r, A, k, True, 20) for k in gen.ITEM_KINDS}
    for k, i in kinds.items():
        yield "items " + k, in_target([i])
        yield "block items " + k, in_block([i])
    tiny = w.Part("x", w.u16(3) + b"\x99", {}, None)
    yield "tiny unknown items", in_target([tiny])
    yield "tiny unknown items in a block", in_block([tiny])
    yield "tiny root items", in_target([w.Part("x", w.u16(3) + b"\x1f", {}, None)])
    yield "items of two bytes", in_target([w.Part("x", w.u16(2), {}, None)])
    yield "items of one byte", in_block([w.Part("x", w.u16(1), {}, None)])
    yield "items of every kind", in_block(list(kinds.values()))
    for k in gen.BLOCK_KINDS:
        yield "blocks " + k, blocks(gen.block(r, A, k, True, 20))
    yield "tiny blocks", blocks(w.block_unknown(0, b""))
    yield "blocks of four bytes", blocks(w.Part("x", w.u32(4), {}, None))
    yield "blocks of five bytes", blocks(w.Part("x", w.u32(5) + b"a", {}, None))
    yield "tiny blocks of many signatures", blocks(*[w.Part("x", w.u32(8) + w.u32(0xA0000000 + k), {}, None) for k in range(16)])
    yield "huge unknown block", one_block(0xB0000000, repeated(b"abcd"))
    yield "huge blocks", one_block(0xA0000001, repeated(b"abcd"))
    yield "appended data", lambda n: w.header()[0] + w.u32(0) + b"x" * n
    yield "only zeros", lambda n: w.header(link_flags=0xFF)[0] + bytes(n)
    yield "only ones", lambda n: w.header(link_flags=0xFF)[0] + b"\1" * n
    yield "all bits", lambda n: w.header(link_flags=0xFF)[0] + b"\xff" * n
    for name, piece, uni in (("letters", b"a", False), ("undecodable", b"\x81", False), ("line breaks", b"\r\n", False),
                             ("quotes", b"'\"", False), ("backslashes", b"\\", False), ("blanks", b"  a", False),
                             ("alternating invalid", b"a\x81", False), ("controls", b"\x01", False), ("new lines", b"\n", False),
                             ("colons", b": - #", False), ("Unicode", b"a\0", True), ("astral", "\U0001f600".encode("utf-16le"), True),
                             ("lone surrogates", b"\0\xd8", True), ("Unicode blanks", b" \0", True), ("controls u", b"\1\0", True),
                             ("private", b"\0\xe0", True)):
        yield "string of " + name, string_link(piece, uni)
    for network in (False, True):
        for uni in (False, True):
            yield f"overlapping offsets {network} {uni}", overlapping_info(uni, network)
    yield "cpl", cpl(False)
    yield "Unicode cpl", cpl(True)
    P = 0xA0000009
    tiny_value = w.property_value(1, 0, b"")[0]
    yield "values", one_block(P, lambda n: storage_raw(tiny_value * (n // len(tiny_value))) + w.u32(0))
    short_text = w.property_value(1, 0x1F, "a")[0]
    yield "texts", one_block(P, lambda n: storage_raw(short_text * (n // len(short_text))) + w.u32(0))
    named = w.property_value("n", 2, 5)[0]
    yield "named values", one_block(P, lambda n: storage_raw(named * (n // len(named)), w.STRING_NAMED) + w.u32(0))
    st = storage_raw(b"")
    yield "storages", one_block(P, lambda n: st * (n // len(st)) + w.u32(0))
    st2 = storage_raw(short_text)
    yield "storages with a text", one_block(P, lambda n: st2 * (n // len(st2)) + w.u32(0))
    yield "long text value", one_block(P, lambda n: storage_raw(w.property_value(1, 0x1F, "a" * (n // 2))[0]) + w.u32(0))
    yield "long blob value", one_block(P, lambda n: storage_raw(w.property_value(1, 0x41, b"a" * n)[0]) + w.u32(0))
    yield "long name", one_block(P, lambda n: storage_raw(w.property_value("a" * (n // 2), 2, 5)[0], w.STRING_NAMED) + w.u32(0))
    for size in (1, 2, 3, 4, 5, 9, 13):  # sizes too small for what they contain
        yield f"values of {size}", one_block(P, lambda n, s=size: storage_raw((w.u32(s) + bytes(9))[: max(4, s)] * (n // max(4, s))) + w.u32(0))
        yield f"storages of {size}", one_block(P, lambda n, s=size: (w.u32(s) + bytes(9))[: max(4, s)] * (n // max(4, s)))
    # text lengths which claim everything that follows
    claim = w.u32(17 + 8) + w.u32(1) + b"\0" + w.u16(0x1F) + w.u16(0) + w.u32(0xFFFFFFFF) + b"a\0b\0c\0d\0"
    yield "values which claim the rest", one_block(P, lambda n: storage_raw(claim * (n // len(claim))) + w.u32(0))
    nclaim = w.u32(20) + w.u32(0xFFFFFFF0) + b"\0" + b"a\0b\0c\0d\0" + b"xyz"
    yield "names which claim the rest", one_block(P, lambda n: storage_raw(nclaim * (n // len(nclaim)), w.STRING_NAMED) + w.u32(0))
    over = w.u32(0xFFFFFFFF) + w.u32(0x53505331) + b"\x01" * 16
    yield "storages which claim the rest", one_block(P, lambda n: over * (n // len(over)))
    # blocks and items which claim more than is there
    yield "block which claims everything", lambda n: w.header()[0] + w.u32(0xFFFFFFFF) + w.u32(0xA0000001) + b"a\0" * (n // 2)
    yield "shim", one_block(0xA0000008, repeated(b"a\0"))
    yield "long face name", one_block(0xA0000002, repeated(b"a\0"))
    yield "machine", one_block(0xA0000003, repeated(b"a"))
    yield "Darwin", one_block(0xA0000006, repeated(b"<\0"))


RUNS = {"blanks": " ", "tabs": "\t", "new lines": "\n", "returns and new lines": "\r\n", "quotes": '"', "backslashes": "\\",
        "slashes": "/", "dots": ".", "dashes": "-", "percents": "%", "letters": "a", "digits": "7", "commas": ", ",
        "braces": "{", "brackets": "[", "parentheses": "(", "stars": "*", "tags": "<a>", "paths": "a\\", "words": "ab ",
        "carets": "^", "variables": "%a%", "dollars": "${a", "ampersands": "&&", "question marks": "?", "colons": "a:"}


def run_places():
    """Links with a long text in one place, made of the text."""
    def string(s):
        return w.build(strings={k: w.string_data(k, s[:65535], True, "cp1252")
                                for k in ("command_line_arguments", "icon_location")}).data

    def ansi(s):
        return w.build(strings={"command_line_arguments": w.string_data("command_line_arguments", s.encode()[:65535], False, "cp1252")},
                       unicode_=False).data

    def info(s):
        return w.build(info=w.link_info("cp1252", (w.volume_id(3, 1, b"L", "cp1252"), s.encode()), None, s.encode())).data

    def value(s):
        return w.build(blocks=[w.block_property_store([w.property_storage(b"\1" * 16, [w.property_value(1, 0x1F, s)])])]).data

    def item(s):
        return w.build(items=[w.item_file(0x32, 1, 2, 3, 4, s.encode()[:60000], "cp1252")]).data

    def network(s):
        return w.build(items=[w.item_network(0x41, 0xC0, *[s.encode()[:20000]] * 3, "cp1252")]).data
    return {"strings": string, "ANSI arguments": ansi, "LinkInfo": info, "property": value, "file name": item,
            "network location": network}


def runs():
    """A long run of one thing, with something else around it: what patterns are matched against
    again and again."""
    for name, piece in RUNS.items():
        for place, make in run_places().items():
            yield f"run of {name} in {place}", lambda n, p=piece, m=make: m("x" + p * (n // len(p)) + "x")


def random_one(rec, i, corpus):
    r = gen.rng_for("C02", rec.seed, i)
    b = gen.link(r, maxlen=r.choice([20, 200]))
    data = gen.mutate(r, b, corpus) if r.random() < 0.7 else b.data
    if len(data) < 76:
        return
    m = measure(rec, data, r.choice(["cp1252", "cp932", "utf-8"]), memory=i % 4 == 0)
    if m is not None:
        rec.ok(data)
        within(rec, "random link", data, m)


def rich(r, cp, damaged):
    """A link of many structures and nothing which was ever seen before."""
    b = w.build(gen.header_fields(r), [gen.item(r, cp, r.choice(gen.ITEM_KINDS), maxlen=30) for _ in range(30)],
                gen.info(r, cp, maxlen=30), gen.strings(r, cp, False, maxlen=30, prob=1),
                [gen.block(r, cp, k, maxlen=30) for k in gen.BLOCK_KINDS], False, tail=gen.rbytes(r, 20))
    return gen.mutate(r, b) if damaged else b.data


def retained(rec, what, damaged, cp, batch):
    """Links parsed, reported in every way and released, one after the other: what stays in memory
    must not grow with their number (tables of a fixed size are full after the first batches)."""
    n = [0]
    kept = []

    def some():
        size = 0
        for _ in range(batch):
            n[0] += 1
            r = gen.Rng(f"C02/kept/{rec.seed}/{what}/{n[0]}")
            r.mood, r.likes = None, lambda k: None
            data = rich(r, cp, damaged)
            if len(data) < 76:
                continue
            size += len(data)
            lnk = MOD.lnk_file(indata=data, cp=cp)
            lnk.get_json(True)
            if n[0] % 5 == 0:
                with contextlib.redirect_stdout(io.StringIO()):
                    lnk.print_json(True)
                    lnk.print_shortcut_target()
                    if n[0] % 10 == 0:
                        lnk.print_lnk_file(True)
            lnk = data = r = None
        gc.collect()
        kept.append((tracemalloc.get_traced_memory()[0], len(gc.get_objects())))
        return size
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        some()
        tracemalloc.start()
        try:
            for _ in range(4):
                size = some()
        except Exception as e:
            rec.violation(f"{type(e).__name__}: {e}")
            return
        finally:
            tracemalloc.stop()
    rec.seen("links released", n[0])
    for k in range(n[0]):
        rec.ok((what, k))
    # the first batch was counted without its allocations
    steps = [b[0] - a[0] for a, b in zip(kept[2:], kept[3:])]
    objects = [b[1] - a[1] for a, b in zip(kept[2:], kept[3:])]
    rec.maximum("bytes kept of a byte parsed", min(steps) / size)
    rec.maximum("objects kept of a link", min(objects) / batch)
    rec.maximum("bytes kept of a batch", min(steps))
    if min(steps) > 20000 or min(objects) > 2 * batch:
        rec.violation(f"{batch} links of together {size} bytes leave {steps} bytes and {objects} objects behind")


def control(rec):
    """The meter sees what it is for: quadratic work shows in lines and in bytes."""
    seen = []
    for n in (2000, 8000):
        meter = Meter()
        Counted.copied = 0
        data = Counted(b"a" * n)
        with meter:
            k = 0
            rest = data
            while rest:
                rest = rest[4:]
                k += 1
        meter.close()
        seen.append((meter.n, Counted.copied))
    rec.ok("control")
    if not (seen[1][0] >= 4 * seen[0][0] * 0.9 and seen[1][1] > 12 * seen[0][1]):
        raise RuntimeError("the meter does not work: %r" % (seen,))
    rec.seen("controls seen")


DIRECTED = {"top": 1 << 18}


def link(rec, r, b, cp):
    m = measure(rec, b.data, cp)
    if m is not None:
        rec.ok(b.data)
        within(rec, "link at a constant", b.data, m)


def cases(tier, seed):
    quick = tier == "quick"
    sizes = [1000, 4000, 16000] if quick else [1000, 4000, 16000, 64000, 200000]
    yield "control", control
    long = []
    for name, make in families():
        long.append(("grow " + name, lambda rec, n=name, m=make: grow(rec, n, m, sizes)))
        long.append(("time " + name, lambda rec, n=name, m=make: clock(rec, n, m, 0.5 if quick else 10)))
    for name, make in runs():
        long.append(("time " + name, lambda rec, n=name, m=make: clock(rec, n, m, 0.3 if quick else 10)))
    # dealt out evenly to the workers
    random.Random(2).shuffle(long)
    yield from long
    for i in range(2 if quick else 8):
        for what, damaged in (("whole", False), ("damaged", True)):
            for cp in ("cp1252", "cp932"):
                yield f"kept-{what}-{cp}-{i}", lambda rec, k=f"{what}-{cp}-{i}", d=damaged, c=cp: retained(
                    rec, k, d, c, 60 if quick else 400)
    corpus = list(judge.load_samples().values())
    for i in range(250 if quick else 8000):
        yield f"random{i}", lambda rec, i=i: random_one(rec, i, corpus)


PARALLEL = True

"""C01: no input makes the parser or a report fail."""

import ast
import base64
import os
import sys
import time

from lib import core, gen, judge
from lib import wire as w

RULE = ("random and damaged links, links cut at every byte, every value of every size, offset, count "
        "and type field out of the corners, random bytes behind every header, samples and their "
        "mutants, coverage-guided mutation of what reached new lines; every stage (parsing, data, "
        "JSON, text, command, each of them filtered and whole) runs to its end, within the watch "
        "dog's time; inputs shorter than a header raise LnkParserError; non-trivial = new input")
ASSUMPTIONS = ["inputs are bytes; the code page is one Python knows and which decodes bytes to text"]
MUST_SEE = {"inputs": 9000, "stages run": 50000, "cut files": 3000, "short inputs": 600,
            "fields set": 3000, "nested structures": 90, "inputs with new lines": 100}
ALL = core.STAGES


def attempt(rec, data, cp=None, allow=True, source="indata", stages=ALL):
    kw = judge.kwargs(cp, allow)
    o = core.observe(MOD, data, stages, source=source, **kw)
    rec.seen("inputs")
    rec.seen("stages run", len(stages))
    rec.ok(data)
    if o.exc is not None:
        rec.violation(o.problem(), data, kw, trace=o.trace)
        return False
    return True


def replay(rec, v):
    """A recorded input again, the search which found it is not repeatable."""
    kw = {k: ast.literal_eval(x) for k, x in v.get("kwargs", {}).items()}
    rec.case = v["case"]
    attempt(rec, base64.b64decode(v["data_b64"]), kw.get("cp"), kw.get("allow_terminal_blocks", True))


def some_cp(r):
    return r.choice([None, "", "cp1252", "cp932", "utf-8", r.choice(gen.CODEPAGES), "utf-16le", "utf-7", "ascii",
                     "cp037", "gb18030", "iso2022_jp", "hz", "utf-32le", "raw_unicode_escape"])


def short(rec, n, r):
    from LnkParse3.exceptions import LnkParserError
    full = gen.link(r).data.ljust(76, b"\0")
    for data in (full[:n], bytes(n), b"\xff" * n, gen.rbytes(r, n)):
        for source in ("indata", "fhandle"):
            o = core.observe(MOD, data, (), source=source)
            rec.seen("short inputs")
            rec.ok((n, data, source))
            if o.exc is None:
                rec.violation(f"{n} bytes were accepted", data)
            elif not isinstance(o.exc, LnkParserError):
                rec.violation(f"{n} bytes ({source}): {o.problem()}", data, trace=o.trace)


def corpus_of(samples):
    return list(samples.values())


# ---------------------------------------------------------------- guided by coverage

class Lines:
    """Lines of the package which were executed, by sys.monitoring."""

    def __init__(self):
        m = sys.monitoring
        self.new = set()
        self.all = set()
        self.tool = next(t for t in (4, 3, 2) if m.get_tool(t) is None)
        m.use_tool_id(self.tool, "verif")
        root = os.path.join(os.path.realpath(core.REPO), "LnkParse3") + os.sep

        def line(code, n):
            if code.co_filename.startswith(root):
                self.new.add((code.co_filename, n))
            return m.DISABLE
        m.register_callback(self.tool, m.events.LINE, line)
        m.set_events(self.tool, m.events.LINE)

    def take(self):
        """Were lines reached which never were before?"""
        fresh = self.new - self.all
        self.all |= fresh
        self.new.clear()
        return len(fresh)

    def stop(self):
        sys.monitoring.set_events(self.tool, 0)
        sys.monitoring.register_callback(self.tool, sys.monitoring.events.LINE, None)
        sys.monitoring.free_tool_id(self.tool)


def shape(doc):
    """What a report looks like, as feedback for the search: keys and kinds of values."""
    out = set()
    stack = [((), doc)]
    while stack:
        path, x = stack.pop()
        if isinstance(x, dict):
            for k, v in x.items():
                stack.append((path + (k,), v))
        elif isinstance(x, (list, tuple)):
            out.add((path, "n", min(len(x), 9)))
            for v in x:
                stack.append((path + ("[]",), v))
        elif isinstance(x, str):
            out.add((path, "s", min(len(x).bit_length(), 10), x.isascii(), x.isprintable()))
        elif isinstance(x, int):
            out.add((path, "i", x < 0, x.bit_length() // 8))
        else:
            out.add((path, type(x).__name__))
    return out


def guided(rec, seconds, i, samples):
    r = gen.rng_for("C01", rec.seed, "guided", i)
    pool = corpus_of(samples) + [gen.link(r, maxlen=20).data for _ in range(30)]
    seen = set()
    sys.monitoring.restart_events()
    lines = Lines()
    end = time.monotonic() + seconds
    n = 0
    try:
        while time.monotonic() < end:
            data = r.choice(pool) if n >= len(pool) else pool[n]
            if n >= len(pool):
                data = gen.mutate(r, data, pool)[:20000]
            n += 1
            if len(data) < 76:
                continue
            o = core.observe(MOD, data, ALL if n % 4 == 0 else ("json_all", "text_all"), cp=r.choice([None, "cp932"]))
            rec.seen("inputs")
            rec.seen("stages run", 8 if n % 4 == 0 else 2)
            rec.ok(data)
            if o.exc is not None:
                rec.violation(o.problem(), data, trace=o.trace)
                return
            fresh = lines.take()
            marks = shape(o.json_all) | {(c, m[:24]) for c, m in o.warnings}
            if fresh or not marks <= seen:
                seen |= marks
                pool.append(data)
                rec.seen("inputs with new lines" if fresh else "inputs with new reports")
    finally:
        lines.stop()
    rec.maximum("lines of the package reached", len(lines.all))
    rec.maximum("guided pool", len(pool))


def fields(rec, i, quick):
    """Every number of a link set to the corners, to the sizes around, one at a time."""
    r = gen.rng_for("C01", rec.seed, "fields", i)
    b = gen.link(r, maxlen=12)
    data = b.data
    places = sorted(set(b.fields))
    if quick:
        places = r.sample(places, min(12, len(places)))
    for o, wd in places:
        if o + wd > len(data):
            continue
        cur = int.from_bytes(data[o : o + wd], "little")
        top = (1 << 8 * wd) - 1
        vals = {0, 1, 2, 3, 4, 7, 8, 9, top, top - 1, top >> 1, (top >> 1) + 1, cur + 1, max(0, cur - 1), cur * 2,
                len(data), len(data) - o, max(0, len(data) - o - 1), max(0, len(data) - o - wd)}
        for v in r.sample(sorted(vals), min(6, len(vals))) if quick else vals:
            m = data[:o] + (v & top).to_bytes(wd, "little") + data[o + wd :]
            rec.seen("fields set")
            if not attempt(rec, m, some_cp(r), stages=("json_all", "text_all", "target", "json")):
                return


def cut(rec, i, quick, samples):
    r = gen.rng_for("C01", rec.seed, "cut", i)
    data = r.choice(corpus_of(samples)) if i % 4 == 0 else gen.link(r, maxlen=12).data
    ns = range(76, len(data))
    if len(data) > 2000 or quick:
        ns = sorted(r.sample(ns, min(len(ns), 150 if quick else 1500)))
    for n in ns:
        rec.seen("cut files")
        if not attempt(rec, data[:n], None, r.random() < 0.9, r.choice(["indata", "fhandle"]),
                       ALL if n % 5 == 0 else ("json_all", "text_all", "target")):
            return


def raw(rec, i):
    """Any header followed by anything."""
    r = gen.rng_for("C01", rec.seed, "raw", i)
    k = r.random()
    n = r.choice([0, 1, 2, 3, 4, 7, 8, 20, 60, 200, 900, 5000])
    if k < 0.3:
        body = gen.rbytes(r, n)
    elif k < 0.5:
        body = bytes(r.choice([0, 0, 1, 2, 4, 0x10, 0x1C, 0xFF]) for _ in range(n))
    else:  # pieces of every kind, in any order
        pieces = []
        for _ in range(r.randrange(8)):
            p = r.choice([lambda: gen.item(r, "cp1252", maxlen=10).raw, lambda: gen.info(r, "cp1252", maxlen=10).raw,
                          lambda: gen.block(r, "cp1252", maxlen=10).raw, lambda: gen.rbytes(r, r.randrange(9)),
                          lambda: w.u16(gen.num(r, 2)), lambda: w.u32(gen.num(r, 4)), lambda: bytes(r.randrange(5))])()
            pieces.append(p if r.random() < 0.7 else p[: r.randrange(len(p) + 1)])
        body = b"".join(pieces)
    if r.random() < 0.8:
        head = w.header(**dict(gen.header_fields(r), link_flags=r.choice([gen.num(r, 4), r.randrange(512)])))[0]
    else:
        head = gen.rbytes(r, 76)
    attempt(rec, head + body, some_cp(r), r.random() < 0.8, r.choice(["indata", "fhandle"]))


def payloads(rec, kind, i):
    """Well framed components with arbitrary contents of any length."""
    r = gen.rng_for("C01", rec.seed, "payload", kind, i)
    n = r.choice([0, 1, 2, 3, 5, 8, 13, 20, 26, 40, 100, 800])
    p = gen.rbytes(r, n)
    if r.random() < 0.4:
        p = bytes(r.choice([0, 0, 0, 1, 2, 3, 4, 0x10, 0x20, 0xFF]) for _ in range(n))
    if kind < 256:
        part = w.Part("x", w.u16(n + 3) + w.u8(kind) + p, {}, None)
        lists = [part] * r.choice([1, 1, 2])
        if r.random() < 0.5:
            b = w.build(items=lists)
        else:
            b = w.build(blocks=[w.block_idlist(lists)])
    elif kind == 256:
        b = w.build(info=w.Part("info", w.u32(n + 4) + p, {}, None, 4))
    elif kind == 257:
        uni = r.random() < 0.5
        b = w.build(strings={k: w.Part("string", w.u16(gen.num(r, 2)) + p, None, None, 2, name=k) for _, k in w.STRINGS
                             if r.random() < 0.5}, unicode_=uni)
    else:
        b = w.build(blocks=[w._block("x", 0xA0000000 + kind - 258, p, "X", {})])
    attempt(rec, b.data, some_cp(r))


def nested(rec, kind, lead, quick):
    """Structures within themselves, as deep as their size fields allow: no recursion may follow."""
    limit = 65000
    core_ = w.item_file(0x32, 1, 0, 0, 0, b"core", "cp1252").raw
    body = core_
    sized = b"CFSF" in lead
    # built from the inside; quadratic in the depth, so prefix and suffix are built apart
    depth = (limit - len(core_)) // (3 + len(lead))
    heads, size = [], len(core_)
    for _ in range(depth):
        inner = size
        size += 3 + len(lead)
        one = w.u8(kind) + (lead[:1] + w.u16(min(65535, inner + 4)) + b"CFSF" if sized else lead)
        heads.append(w.u16(size) + one)
    body = b"".join(reversed(heads)) + core_
    rec.seen("nested structures")
    rec.maximum("levels of nesting", depth)
    for data in (w.header(link_flags=1)[0] + w.u16(len(body) + 2) + body + bytes(2) + w.u32(0),
                 w.header()[0] + w.u32(len(body) + 10) + w.u32(0xA000000C) + body + bytes(2) + w.u32(0)):
        if not attempt(rec, data, None, stages=("json_all", "text_all", "target", "json")):
            return


def nested_blocks(rec, what):
    """Blocks in blocks, storages in values, links in links."""
    for depth in (2, 50, 1500, 5000):
        heads, tails, size = [], [], 0
        for _ in range(depth):
            if what == "idlists":
                size += 12
                heads.append(w.u32(size) + w.u32(0xA000000C))
                tails.append(w.u32(0))
            elif what == "stores":
                size += 8 + 24 + 17 + 4
                heads.append(w.u32(size) + w.u32(0xA0000009) + w.u32(size - 8) + w.u32(0x53505331) + w.STRING_NAMED
                             + w.u32(size - 32) + w.u32(4) + b"\0n\0" + w.u16(0) + w.u16(0x1F) + w.u16(0))
                tails.append(w.u32(0))
            elif what == "links":
                heads.append(w.header(link_flags=0)[0] + w.u32(0))
                tails.append(b"")
            else:
                size += 8
                heads.append(w.u32(size) + w.u32(0xBEEF0000))
                tails.append(b"")
        data = (w.header()[0] if what != "links" else b"") + b"".join(reversed(heads)) + b"".join(tails) + w.u32(0)
        rec.seen("nested structures")
        if not attempt(rec, data, None, stages=("json_all", "text_all", "target", "json")):
            return


def link(rec, r, b, cp):
    attempt(rec, b.data, cp, r.random() < 0.7, r.choice(["indata", "fhandle"]))
    data = gen.mutate(r, b) if r.random() < 0.5 else b.data[: r.randrange(76, len(b.data) + 1)]
    if len(data) >= 76:
        attempt(rec, data, cp)


def cases(tier, seed):
    quick = tier == "quick"
    samples = judge.load_samples()
    corpus = corpus_of(samples)
    workers = 8
    for i in range(workers):  # one for every worker
        yield f"guided{i}", lambda rec, i=i: guided(rec, 6 if quick else 240, i, samples)
    for n in range(76):
        yield f"short{n}", lambda rec, n=n: short(rec, n, gen.rng_for("C01", seed, "short", n))
    for kind in list(range(256)) if not quick else [0x00, 0x01, 0x1F, 0x2E, 0x2F, 0x31, 0x36, 0x42, 0x52, 0x61, 0x70, 0x72,
                                                    0x73, 0x74, 0x99]:
        leads = [b"\0\0\0CFSF"] + [bytes(n) for n in (range(0, 41) if not quick or kind == 0x74 else (0, 1, 7, 11, 27))]
        for lead in leads:
            yield f"nested{kind}-{len(lead)}{'s' * (b'CFSF' in lead)}", lambda rec, k=kind, x=lead: nested(rec, k, x, quick)
    for what in ("idlists", "stores", "links", "blocks"):
        yield f"nested-{what}", lambda rec, x=what: nested_blocks(rec, x)
    for name, data in samples.items():
        for cp in (None, "cp932", "utf-16le"):
            yield f"sample-{name}-{cp}", lambda rec, d=data, cp=cp: attempt(rec, d, cp)
    for i in range(60 if quick else 1500):
        yield f"fields{i}", lambda rec, i=i: fields(rec, i, quick)
    for i in range(40 if quick else 600):
        yield f"cut{i}", lambda rec, i=i: cut(rec, i, quick, samples)
    for i in range(1500 if quick else 60000):
        yield f"raw{i}", lambda rec, i=i: raw(rec, i)
    for i in range(4 if quick else 120):
        for kind in range(258 + 16):
            yield f"payload{kind}-{i}", lambda rec, k=kind, i=i: payloads(rec, k, i)
    for i in range(2500 if quick else 100000):
        def mutant(rec, i=i):
            r = gen.rng_for("C01", seed, "m", i)
            data = gen.mutate(r, r.choice(corpus) if r.random() < 0.3 else gen.link(r), corpus)
            if len(data) >= 76:
                attempt(rec, data, some_cp(r), stages=ALL if i % 3 == 0 else ("json_all", "text_all", "target", "json"))
        yield f"mutant{i}", mutant


PARALLEL = True
